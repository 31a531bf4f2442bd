verus! {
// ---------------------------------------------------------------- runtime of the JSON specifications
pub type It = u64;
pub type Ptr = u64;
pub const NULLP: Ptr = 0;
pub fn it_inc(i: u64, n: u64) -> (r: u64) requires i < n ensures r == i + 1 { i + 1 }
pub fn it_adv(i: u64, k: i64, n: u64) -> (r: u64) requires 0 <= i + k <= n, i <= n ensures r == i + k { ((i as i128) + (k as i128)) as u64 }
// double: an opaque value; the operations used are uninterpreted functions of their operands
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Dbl { p: f64 }
impl CCopy for Dbl { #[verifier::external_body] fn dup(&self) -> (r: Self) { *self } }
pub uninterp spec fn d_zero() -> Dbl;
pub uninterp spec fn d_mul(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn d_pow(a: int, b: int) -> Dbl;
pub uninterp spec fn d_int(a: int) -> Dbl;
pub uninterp spec fn d_scan(s: Seq<i8>) -> Dbl;      // std::istream >> double
pub uninterp spec fn d_text(x: Dbl) -> Seq<i8>;      // std::to_string(double)
pub uninterp spec fn d_finite(x: Dbl) -> bool;
#[verifier::external_body]
pub fn dbl_lit(s: &str) -> Dbl { unimplemented!() }
#[verifier::external_body]
pub fn dbl_zero() -> (r: Dbl) ensures r == d_zero() { unimplemented!() }
#[verifier::external_body]
pub fn dbl_mul(a: Dbl, b: Dbl) -> (r: Dbl) ensures r == d_mul(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn dbl_pow(a: i32, b: i32) -> (r: Dbl) ensures r == d_pow(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn dbl_i32(a: i32) -> (r: Dbl) ensures r == d_int(a as int) { unimplemented!() }
#[verifier::external_body]
pub fn to_string_Dbl(x: Dbl) -> (r: Str) ensures r@ == d_text(x) { unimplemented!() }
pub open spec fn numch(c: i8) -> bool { c == 45 || c == 46 || 48 <= c <= 57 }
// facts about the C++ library: x * 10^0 is x; the text of a finite double is [-]digits.dddddd
#[verifier::external_body]
pub proof fn ax_pow0(x: Dbl) ensures d_mul(x, d_pow(10, 0)) == x { }
#[verifier::external_body]
pub proof fn ax_text(x: Dbl) requires d_finite(x)
    ensures d_text(x).len() > 0, forall|k: int| 0 <= k < d_text(x).len() ==> numch(#[trigger] d_text(x)[k]), d_text(x)[0] != 46, exists|k: int| 0 <= k < d_text(x).len() && #[trigger] d_text(x)[k] == 46i8 { }
// std::istream >> int on text s: whitespace, sign, digits; clamped to the range; 0 where there is no number; nothing is stored where there is no text
pub open spec fn sp_(c: i8) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn blank(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> sp_(#[trigger] s[k]) }
pub open spec fn skipsp(s: Seq<i8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && sp_(s[i]) { skipsp(s, i + 1) } else { i } }
pub open spec fn digrun(s: Seq<i8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && 48 <= s[i] <= 57 { digrun(s, i + 1) } else { i } }
pub open spec fn scan_int(s: Seq<i8>) -> int {
    let i = skipsp(s, 0); let neg = i < s.len() && s[i] == 45; let j = if i < s.len() && (s[i] == 45 || s[i] == 43) { i + 1 } else { i };
    let e = digrun(s, j); let v = if e > j { dec_value(s.subrange(j, e)) } else { 0 }; let w = if neg { -v } else { v };
    if w > 0x7fff_ffff { 0x7fff_ffff } else if w < -0x8000_0000 { -0x8000_0000 } else { w }
}
pub struct Iss { pub s: Str }
impl Iss {
    #[verifier::external_body]
    pub fn of(s: &Str) -> (r: Iss) ensures r.s@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32(&mut self, x: &mut i32) ensures *final(x) == (if blank(old(self).s@) { *old(x) as int } else { scan_int(old(self).s@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_Dbl(&mut self, x: &mut Dbl) ensures *final(x) == (if blank(old(self).s@) { *old(x) } else { d_scan(old(self).s@) }) { unimplemented!() }
}
impl Str {
    // s.erase(pos, n): the remaining text, which is also the new content of s
    #[verifier::external_body]
    pub fn erase(&mut self, pos: u64, n: u64) -> (r: Str) requires pos <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, pos as int) + old(self)@.subrange(if pos + n <= old(self)@.len() { pos + n } else { old(self)@.len() as int }, old(self)@.len() as int), r@ == final(self)@ { unimplemented!() }
}
// std::less<std::string>: lexicographic order of unsigned characters
pub open spec fn ub(c: i8) -> int { if c < 0 { c + 256 } else { c as int } }
pub open spec fn slt(a: Seq<i8>, b: Seq<i8>) -> bool decreases b.len()
{ b.len() > 0 && (a.len() == 0 || ub(a[0]) < ub(b[0]) || (a[0] == b[0] && slt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)))) }
pub proof fn slt_irr(a: Seq<i8>) ensures !slt(a, a) decreases a.len() { if a.len() > 0 { slt_irr(a.subrange(1, a.len() as int)); } }
pub proof fn slt_trans(a: Seq<i8>, b: Seq<i8>, c: Seq<i8>) requires slt(a, b), slt(b, c) ensures slt(a, c) decreases b.len()
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { slt_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int)); } }
pub proof fn slt_total(a: Seq<i8>, b: Seq<i8>) ensures slt(a, b) || slt(b, a) || a == b decreases a.len()
{ if a.len() == 0 || b.len() == 0 { if a.len() == b.len() { assert(a =~= b); } } else if a[0] == b[0] { let p = a.subrange(1, a.len() as int); let q = b.subrange(1, b.len() as int); slt_total(p, q); if p == q { assert(a =~= seq![a[0]] + p); assert(b =~= seq![b[0]] + q); } } }
// std::deque<JSONObject>
pub struct JList { pub v: Vec<Json> }
impl JList {
    pub fn new() -> (r: JList) ensures r.v@ == Seq::<Json>::empty() { JList { v: Vec::new() } }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64) ensures r == self.v@.len() { self.v.len() as u64 }
    #[verifier::external_body]
    pub fn empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
    #[verifier::external_body]
    pub fn at_ref(&self, i: u64) -> (r: &Json) requires i < self.v@.len() ensures *r == self.v@[i as int] { &self.v[i as usize] }
    #[verifier::external_body]
    pub fn index_mut(&mut self, i: u64) -> (r: &mut Json) requires i < old(self).v@.len() ensures *r == old(self).v@[i as int], final(self).v@ == old(self).v@.update(i as int, *final(r)) { &mut self.v[i as usize] }
    #[verifier::external_body]
    pub fn at_mut(&mut self, i: u64) -> (r: &mut Json) requires i < old(self).v@.len() ensures *r == old(self).v@[i as int], final(self).v@ == old(self).v@.update(i as int, *final(r)) { &mut self.v[i as usize] }
    pub fn push_back(&mut self, x: Json) ensures final(self).v@ == old(self).v@.push(x) { self.v.push(x) }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).v@ == Seq::<Json>::empty() { self.v.clear() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) requires old(self).v@.len() > 0 ensures final(self).v@ == old(self).v@.drop_last() { self.v.pop(); }
}
// std::map<std::string, JSONObject>: the entries in the order of their keys
pub struct JMap { pub ks: Vec<Str>, pub vs: Vec<Json> }
pub open spec fn keys(ks: Seq<Str>) -> Seq<Seq<i8>> { Seq::new(ks.len(), |i: int| ks[i]@) }
pub open spec fn sorted(k: Seq<Seq<i8>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> slt(#[trigger] k[i], #[trigger] k[j]) }
pub open spec fn lb(ks: Seq<Seq<i8>>, k: Seq<i8>, i: int) -> int decreases ks.len() - i { if 0 <= i < ks.len() && slt(ks[i], k) { lb(ks, k, i + 1) } else { i } }
pub open spec fn hask(ks: Seq<Seq<i8>>, k: Seq<i8>) -> bool { let p = lb(ks, k, 0); p < ks.len() && ks[p] == k }
pub open spec fn jm_wf(m: JMap) -> bool { m.ks@.len() == m.vs@.len() && sorted(keys(m.ks@)) }
pub open spec fn km_upd(a: JMap, b: JMap, k: Seq<i8>) -> bool
{ let p = lb(keys(a.ks@), k, 0); if hask(keys(a.ks@), k) { b.ks@ == a.ks@ && b.vs@ == a.vs@.update(p, b.vs@[p]) } else { b.ks@.len() == a.ks@.len() + 1 && keys(b.ks@) == keys(a.ks@).insert(p, k) && b.vs@ == a.vs@.insert(p, b.vs@[p]) } }
impl JMap {
    pub fn new() -> (r: JMap) ensures r.ks@ == Seq::<Str>::empty(), r.vs@ == Seq::<Json>::empty() { JMap { ks: Vec::new(), vs: Vec::new() } }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64) ensures r == self.vs@.len() { self.vs.len() as u64 }
    #[verifier::external_body]
    pub fn empty(&self) -> (r: bool) ensures r == (self.vs@.len() == 0) { self.vs.len() == 0 }
    #[verifier::external_body]
    pub fn key_at(&self, i: u64) -> (r: &Str) requires i < self.ks@.len() ensures *r == self.ks@[i as int] { &self.ks[i as usize] }
    #[verifier::external_body]
    pub fn val_at(&self, i: u64) -> (r: &Json) requires i < self.vs@.len() ensures *r == self.vs@[i as int] { &self.vs[i as usize] }
    #[verifier::external_body]
    pub fn find(&self, k: &Str) -> (r: u64) requires jm_wf(*self) ensures r == (if hask(keys(self.ks@), k@) { lb(keys(self.ks@), k@, 0) } else { self.vs@.len() as int }) { unimplemented!() }
    // operator[] / at on an existing key of a map that is not to be changed
    #[verifier::external_body]
    pub fn find_ref(&self, k: &Str) -> (r: &Json) requires jm_wf(*self), hask(keys(self.ks@), k@) ensures *r == self.vs@[lb(keys(self.ks@), k@, 0)] { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut(&mut self, k: &Str) -> (r: &mut Json) requires jm_wf(*old(self)), hask(keys(old(self).ks@), k@) ensures *r == old(self).vs@[lb(keys(old(self).ks@), k@, 0)], final(self).ks@ == old(self).ks@, final(self).vs@ == old(self).vs@.update(lb(keys(old(self).ks@), k@, 0), *final(r)) { unimplemented!() }
    // operator[]: a missing key is added with a default-constructed value
    #[verifier::external_body]
    pub fn index_mut(&mut self, k: &Str) -> (r: &mut Json) requires jm_wf(*old(self))
        ensures ({ let o = *old(self); let f = *final(self); let p = lb(keys(o.ks@), k@, 0);
            km_upd(o, f, k@) && 0 <= p < f.vs@.len() && f.vs@[p] == *final(r) && if hask(keys(o.ks@), k@) { *r == o.vs@[p] && f.ks@ == o.ks@ && f.vs@ == o.vs@.update(p, *final(r)) }
            else { r.objType == 0 && r.Data == JData::Bool(false) && f.ks@.len() == o.ks@.len() + 1 && keys(f.ks@) == keys(o.ks@).insert(p, k@) && f.vs@ == o.vs@.insert(p, *final(r)) } })
    { unimplemented!() }
    // the range constructor appends the entries of another map in its order
    #[verifier::external_body]
    pub fn push_back(&mut self, k: &Str, x: Json) requires jm_wf(*old(self)), old(self).ks@.len() > 0 ==> slt(old(self).ks@.last()@, k@)
        ensures keys(final(self).ks@) == keys(old(self).ks@).push(k@), final(self).ks@.len() == old(self).ks@.len() + 1, final(self).vs@ == old(self).vs@.push(x) { unimplemented!() }
}
} // verus!
