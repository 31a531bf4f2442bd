verus! {
// ---------------------------------------------------------------- runtime of the trie specification
// int (*)(char) and char (*)(int): pure functions, as the documentation of Trie asks
#[verifier::external_body] #[derive(Clone, Copy)] pub struct MC { p: u64 }
pub uninterp spec fn okc(f: MC, ch: i8) -> bool;          // the characters that the mapping accepts; for others it may end in the error exit
impl MC { pub uninterp spec fn ap(self, x: i8) -> i32; #[verifier::external_body] pub fn call(&self, x: i8) -> (r: i32) requires okc(*self, x) ensures r == self.ap(x) { unimplemented!() } }
impl CCopy for MC { #[verifier::external_body] fn dup(&self) -> (r: Self) { *self } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct MI { p: u64 }
impl MI { pub uninterp spec fn ap(self, x: i32) -> i8; #[verifier::external_body] pub fn call(&self, x: i32) -> (r: i8) ensures r == self.ap(x) { unimplemented!() } }
impl CCopy for MI { #[verifier::external_body] fn dup(&self) -> (r: Self) { *self } }
// const std::string *: the string it points to (which does not change while the pointer is in use) and its address
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StrPtr { p: u64 }
pub uninterp spec fn str_adr(s: Str) -> int;
impl StrPtr {
    pub uninterp spec fn val(self) -> Seq<i8>;
    pub uninterp spec fn adr(self) -> int;
    #[verifier::external_body] pub fn get(&self) -> (r: &Str) ensures r@ == self.val() { unimplemented!() }
}
impl CCopy for StrPtr { #[verifier::external_body] fn dup(&self) -> (r: Self) { *self } }
#[verifier::external_body] pub fn str_addr(s: &Str) -> (r: StrPtr) ensures r.val() == s@, r.adr() == str_adr(*s) { unimplemented!() }
#[verifier::external_body] pub fn strptr_eq(a: StrPtr, b: StrPtr) -> (r: bool) ensures r == (a.adr() == b.adr()) { unimplemented!() }
}
