// Models of the standard containers used by the wrappers, instance int. Iterators are
// positions in the order of iteration (end() = size()). All bodies are trusted: these are
// the contracts of the C++ standard library for the operations the wrappers use.
verus! {
pub type It = u64;
pub open spec fn lex_lt(a: Seq<i32>, b: Seq<i32>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { lex_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn pair_lt(a: (i32, i32), b: (i32, i32)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn lex_ltp(a: Seq<(i32, i32)>, b: Seq<(i32, i32)>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { pair_lt(a[0], b[0]) } else { lex_ltp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn sortedi(s: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub open spec fn ssortedi(s: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn ssortedk(s: Seq<(i32, i32)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 < s[j].0 }
pub open spec fn sortedk(s: Seq<(i32, i32)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 <= s[j].0 }
pub open spec fn count_of(s: Seq<i32>, x: i32) -> nat { s.to_multiset().count(x) }
pub fn it_inc(i: u64, n: u64) -> (r: u64) requires i < n ensures r == i + 1 { i + 1 }
pub fn it_dec(i: u64, n: u64) -> (r: u64) requires 0 < i <= n ensures r == i - 1 { i - 1 }
pub fn it_adv(i: u64, k: i64, n: u64) -> (r: u64) requires 0 <= i + k <= n, i <= n ensures r == i + k { ((i as i128) + (k as i128)) as u64 }
} // verus!
macro_rules! seq_container { ($n:ident) => { verus! {
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct $n<T> { v: Vec<T> }
impl<T> View for $n<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> CCopy for $n<T> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl<T: CCopy> $n<T> {
    #[verifier::external_body] pub fn new() -> (r: $n<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u64) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: u64) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, i: u64, x: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self)@ == old(self)@.insert(0, x) { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.remove(0) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn resize(&mut self, n: u64, x: T) ensures final(self)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { x }) { unimplemented!() }
    #[verifier::external_body] pub fn insert_at(&mut self, i: u64, x: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body] pub fn erase_at(&mut self, i: u64) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn assign_init(&mut self, s: &CVec<T>) ensures final(self)@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, b: &$n<T>) -> (r: bool) ensures r == (self@ == b@) { unimplemented!() }
    #[verifier::external_body] pub fn ne(&self, b: &$n<T>) -> (r: bool) ensures r == (self@ != b@) { unimplemented!() }
}
impl $n<i32> {
    #[verifier::external_body] pub fn lt(&self, b: &$n<i32>) -> (r: bool) ensures r == lex_lt(self@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn gt(&self, b: &$n<i32>) -> (r: bool) ensures r == lex_lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn le(&self, b: &$n<i32>) -> (r: bool) ensures r == !lex_lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn ge(&self, b: &$n<i32>) -> (r: bool) ensures r == !lex_lt(self@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn sort(&mut self) ensures sortedi(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset() { unimplemented!() }
    // list::merge of two sorted lists; the argument is left empty
    #[verifier::external_body] pub fn merge(&mut self, b: &mut $n<i32>) requires sortedi(old(self)@), sortedi(old(b)@)
        ensures sortedi(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset().add(old(b)@.to_multiset()), final(b)@ == Seq::<i32>::empty() { unimplemented!() }
}
} } }
seq_container!(CList);
seq_container!(CDeque);

// stack and queue: adaptors; the view is the underlying sequence
macro_rules! adaptor { ($n:ident, $end:ident, $pop:ident, $i:expr) => { verus! {
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct $n<T> { v: Vec<T> }
impl<T> View for $n<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> CCopy for $n<T> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl<T: CCopy> $n<T> {
    #[verifier::external_body] pub fn new() -> (r: $n<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u64) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: u64) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, i: u64, x: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == (if $i { old(self)@.drop_last() } else { old(self)@.remove(0) }) { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, b: &$n<T>) -> (r: bool) ensures r == (self@ == b@) { unimplemented!() }
    #[verifier::external_body] pub fn ne(&self, b: &$n<T>) -> (r: bool) ensures r == (self@ != b@) { unimplemented!() }
}
impl $n<i32> {
    #[verifier::external_body] pub fn lt(&self, b: &$n<i32>) -> (r: bool) ensures r == lex_lt(self@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn gt(&self, b: &$n<i32>) -> (r: bool) ensures r == lex_lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn le(&self, b: &$n<i32>) -> (r: bool) ensures r == !lex_lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn ge(&self, b: &$n<i32>) -> (r: bool) ensures r == !lex_lt(self@, b@) { unimplemented!() }
}
} } }
adaptor!(CStack, top, pop_back, true);
adaptor!(CQueue, front, pop_front, false);
verus! {
// vector: the operations of cxx.rs, and these
impl<T: CCopy> CVec<T> {
    #[verifier::external_body] pub fn insert_at(&mut self, i: u64, x: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body] pub fn erase_at(&mut self, i: u64) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn assign_init(&mut self, s: &CVec<T>) ensures final(self)@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, b: &CVec<T>) -> (r: bool) ensures r == (self@ == b@) { unimplemented!() }
    #[verifier::external_body] pub fn ne(&self, b: &CVec<T>) -> (r: bool) ensures r == (self@ != b@) { unimplemented!() }
}
impl CVec<i32> {
    #[verifier::external_body] pub fn lt(&self, b: &CVec<i32>) -> (r: bool) ensures r == lex_lt(self@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn gt(&self, b: &CVec<i32>) -> (r: bool) ensures r == lex_lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn le(&self, b: &CVec<i32>) -> (r: bool) ensures r == !lex_lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn ge(&self, b: &CVec<i32>) -> (r: bool) ensures r == !lex_lt(self@, b@) { unimplemented!() }
}
} // verus!
// ordered associative containers with int keys: the view is the sequence of elements in
// order (strictly increasing keys for set and map)
macro_rules! assoc { ($n:ident, $e:ty, $key:expr, $sorted:ident, $lt:ident) => { verus! {
#[verifier::external_body] pub struct $n { v: Vec<i32> }
impl View for $n { type V = Seq<$e>; uninterp spec fn view(&self) -> Seq<$e>; }
impl CCopy for $n { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl $n {
    pub open spec fn key(e: $e) -> i32 { ($key)(e) }
    pub open spec fn has(&self, k: i32) -> bool { exists|i: int| 0 <= i < self@.len() && Self::key(#[trigger] self@[i]) == k }
    pub open spec fn without(s: Seq<$e>, k: i32) -> Seq<$e> decreases s.len() { if s.len() == 0 { s } else if Self::key(s[0]) == k { Self::without(s.subrange(1, s.len() as int), k) } else { seq![s[0]] + Self::without(s.subrange(1, s.len() as int), k) } }
    pub open spec fn cnt(s: Seq<$e>, k: i32) -> nat decreases s.len() { if s.len() == 0 { 0 } else { Self::cnt(s.subrange(1, s.len() as int), k) + (if Self::key(s[0]) == k { 1nat } else { 0nat }) } }
    // the elements left are those with another key, in order
    pub proof fn without_spec(s: Seq<$e>, k: i32) ensures forall|x: $e| #[trigger] Self::without(s, k).contains(x) == (s.contains(x) && Self::key(x) != k) decreases s.len() {
        if s.len() > 0 { let t = s.subrange(1, s.len() as int); Self::without_spec(t, k); let w = Self::without(s, k); let u = Self::without(t, k);
            assert forall|x: $e| #[trigger] w.contains(x) == (s.contains(x) && Self::key(x) != k) by {
                if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(t[i - 1] == x); assert(t.contains(x)); } }
                if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i + 1] == x); }
                assert(s.contains(s[0]));
                if Self::key(s[0]) != k { if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(w[i + 1] == x); } assert(w[0] == s[0]);
                    if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; if i > 0 { assert(u[i - 1] == x); } } }
            } } }
    #[verifier::external_body] pub proof fn sorted_inv(&self) ensures $sorted(self@) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: $n) ensures r@ == Seq::<$e>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: u64) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<$e>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn at_pos(&self, i: u64) -> (r: $e) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn find(&self, k: i32) -> (r: u64) ensures r <= self@.len(), r < self@.len() ==> Self::key(self@[r as int]) == k, (r == self@.len()) == !self.has(k) { unimplemented!() }
    #[verifier::external_body] pub fn count(&self, k: i32) -> (r: u64) ensures r == Self::cnt(self@, k) { unimplemented!() }
    #[verifier::external_body] pub fn equal_range(&self, k: i32) -> (r: (u64, u64)) ensures r.0 <= r.1 <= self@.len(), forall|i: int| 0 <= i < self@.len() ==> ((r.0 <= i < r.1) == (Self::key(#[trigger] self@[i]) == k)) { unimplemented!() }
    #[verifier::external_body] pub fn erase_at(&mut self, i: u64) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn erase(&mut self, k: i32) -> (r: u64) ensures final(self)@ == Self::without(old(self)@, k), r == old(self)@.len() - final(self)@.len() { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, b: &$n) -> (r: bool) ensures r == (self@ == b@) { unimplemented!() }
    #[verifier::external_body] pub fn ne(&self, b: &$n) -> (r: bool) ensures r == (self@ != b@) { unimplemented!() }
    #[verifier::external_body] pub fn lt(&self, b: &$n) -> (r: bool) ensures r == $lt(self@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn gt(&self, b: &$n) -> (r: bool) ensures r == $lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn le(&self, b: &$n) -> (r: bool) ensures r == !$lt(b@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn ge(&self, b: &$n) -> (r: bool) ensures r == !$lt(self@, b@) { unimplemented!() }
}
} } }
assoc!(CSet, i32, |e: i32| e, ssortedi, lex_lt);
assoc!(CMultiSet, i32, |e: i32| e, sortedi, lex_lt);
assoc!(CMap, (i32, i32), |e: (i32, i32)| e.0, ssortedk, lex_ltp);
assoc!(CMultiMap, (i32, i32), |e: (i32, i32)| e.0, sortedk, lex_ltp);
verus! {
impl CSet {
    #[verifier::external_body] pub fn insert(&mut self, k: i32) ensures forall|q: i32| #[trigger] final(self).has(q) == (q == k || old(self).has(q)), ssortedi(final(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn assign_init(&mut self, s: &CVec<i32>) ensures forall|q: i32| #[trigger] final(self).has(q) == s@.contains(q), ssortedi(final(self)@) { unimplemented!() }
}
impl CMultiSet {
    #[verifier::external_body] pub fn insert(&mut self, k: i32) ensures final(self)@.to_multiset() == old(self)@.to_multiset().insert(k), sortedi(final(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn assign_init(&mut self, s: &CVec<i32>) ensures final(self)@.to_multiset() == s@.to_multiset(), sortedi(final(self)@) { unimplemented!() }
}
// what a map holds
pub open spec fn lookup(s: Seq<(i32, i32)>, k: i32) -> Option<i32> decreases s.len() { if s.len() == 0 { None } else if s[0].0 == k { Some(s[0].1) } else { lookup(s.subrange(1, s.len() as int), k) } }
pub proof fn lookup_has(s: Seq<(i32, i32)>, k: i32) ensures lookup(s, k) is Some <==> exists|i: int| 0 <= i < s.len() && CMap::key(#[trigger] s[i]) == k decreases s.len() {
    if s.len() > 0 { let t = s.subrange(1, s.len() as int); lookup_has(t, k);
        if s[0].0 == k { assert(CMap::key(s[0]) == k); }
        else { if exists|i: int| 0 <= i < s.len() && CMap::key(#[trigger] s[i]) == k { let i = choose|i: int| 0 <= i < s.len() && CMap::key(#[trigger] s[i]) == k; assert(t[i - 1] == s[i]); }
            if exists|i: int| 0 <= i < t.len() && CMap::key(#[trigger] t[i]) == k { let i = choose|i: int| 0 <= i < t.len() && CMap::key(#[trigger] t[i]) == k; assert(s[i + 1] == t[i]); } } } }
impl CMap {
    // m[k]: the value, after creating it with the default 0
    #[verifier::external_body] pub fn index(&mut self, k: i32) -> (r: u64) ensures r < final(self)@.len(), final(self)@[r as int].0 == k, ssortedk(final(self)@),
        old(self).has(k) ==> final(self)@ == old(self)@, !old(self).has(k) ==> lookup(final(self)@, k) == Some(0i32),
        forall|q: i32| q != k ==> #[trigger] lookup(final(self)@, q) == lookup(old(self)@, q) { unimplemented!() }
    #[verifier::external_body] pub fn set_index(&mut self, k: i32, x: i32) ensures ssortedk(final(self)@), forall|q: i32| #[trigger] lookup(final(self)@, q) == (if q == k { Some(x) } else { lookup(old(self)@, q) }) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, k: i32) -> (r: i32) requires self.has(k) ensures lookup(self@, k) == Some(r) { unimplemented!() }
    #[verifier::external_body] pub fn assign_init(&mut self, s: &CVec<(i32, i32)>) ensures ssortedk(final(self)@), forall|q: i32| #[trigger] lookup(final(self)@, q) == lookup(s@, q) { unimplemented!() }
}
impl CMultiMap {
    #[verifier::external_body] pub fn assign_init(&mut self, s: &CVec<(i32, i32)>) ensures sortedk(final(self)@), final(self)@.to_multiset() == s@.to_multiset() { unimplemented!() }
}
} // verus!
