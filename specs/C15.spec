@# Trie (double array)
@driver
#include "/repo/src/string_utils/Trie.cpp"

@runtime containers
@runtime trie
@type cuhksz::private_::AutoArray<> => AInt
@type iterator => AdpIt
@type StringAdapter => Adp
@type int (*const)(char) => MC
@type int (*)(char) => MC
@type char (*)(int) => MI
@type std::string * => StrPtr
@type std::vector<int> * => CVec<i32>
@type int * => i32
@type Trie * => TriePtr
@type cuhksz::Trie * => TriePtr
@struct cuhksz::private_::AutoArray<int, 26> => AInt
@struct cuhksz::private_::AutoArray<std::basic_string<char>, 0> => AStr
@struct cuhksz::Trie => Trie
@struct cuhksz::Trie::iterator => TrIt
@struct cuhksz::Trie::StringAdapter => Adp
@struct cuhksz::Trie::StringAdapter::iterator => AdpIt
@trusted the functions given to the constructor are pure functions as the documentation of Trie asks
@include trie
@prelude
#[verifier::opaque]
pub open spec fn ib(a: AInt) -> IMap<int, int> { IMap::new(|x: int| true, |x: int| if 0 <= x < a.vec@.len() { a.vec@[x] as int } else { -1 }) }
#[verifier::opaque]
pub open spec fn tlm(a: AStr) -> IMap<int, Seq<i8>> { IMap::new(|x: int| true, |x: int| if 0 <= x < a.vec@.len() { a.vec@[x]@ } else { Seq::<i8>::empty() }) }
pub open spec fn awf(a: AInt) -> bool { a.size_ == a.vec@.len() && a.defaultValue == -1 && a.size_ >= 0 }
pub open spec fn swf(a: AStr) -> bool { a.size_ == a.vec@.len() && a.defaultValue@.len() == 0 && a.size_ >= 0 }
pub proof fn ib_out(a: AInt) requires awf(a) ensures forall|x: int| x < 0 || x >= a.size_ ==> #[trigger] ib(a)[x] == -1 { reveal(ib); }
pub open spec fn tv(t: Trie) -> Tr { Tr { b: ib(t.base), c: ib(t.check), tl: tlm(t.tail) } }
pub open spec fn lim() -> int { 0x7fff_0000 }
pub open spec fn shapes(t: Trie) -> bool { awf(t.base) && awf(t.check) && swf(t.tail) && t.base.size_ > 0 && t.base.size_ <= lim() && t.check.size_ <= lim() }
pub open spec fn tlq(s: Seq<i32>, p: int) -> bool { (forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < p) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]) }
pub open spec fn tlok(t: Trie) -> bool { 0 <= t.pos <= lim() && t.tail.size_ <= t.pos && tlq(t.tailList@, t.pos as int) }
pub open spec fn ti(t: Trie, x: int) -> int { -tv(t).b[x] - 2 }
pub open spec fn tused(t: Trie, k: int) -> bool { 0 <= k < t.pos && k < t.tail.size_ && !t.tailList@.contains(k as i32) }
pub open spec fn nodes_in(t: Trie, z: int) -> bool { forall|x: int| #[trigger] isn(tv(t), x) && x != z ==> x < t.base.size_ && tv(t).b[x] <= t.check.size_ && (tv(t).b[x] <= -2 ==> tused(t, ti(t, x))) }
// the tables fit the nodes, and the tails of the leaves are in use; node z is exempt
pub open spec fn inz(t: Trie, z: int) -> bool {
    &&& shapes(t) && tlok(t) && wfo(tv(t), t.mapChar, z)
    &&& nodes_in(t, z)
    &&& tv(t).b[0] <= t.check.size_ }
pub open spec fn has(t: Trie, s: Seq<i8>) -> bool { lang(tv(t), t.mapChar, -1, s.push(1i8)) }
pub open spec fn counts(t: Trie, S: Set<Seq<i8>>) -> bool { S.len() == t.size_ && forall|s: Seq<i8>| #[trigger] S.contains(s) <==> okw(t.mapChar, s) && has(t, s) }
pub open spec fn inv(t: Trie) -> bool { inz(t, -1) && exists|S: Set<Seq<i8>>| #[trigger] counts(t, S) }
pub open spec fn mx(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn sz(t: Trie) -> int { mx(t.base.size_ as int, t.check.size_ as int) }
// there is room for a word of n characters in the tables of 32-bit indices
pub open spec fn room(t: Trie, n: int) -> bool { sz(t) + 300 * (n + 4) <= lim() && t.pos < lim() && t.size_ < lim() }
pub open spec fn rest(a: Trie, b: Trie) -> bool { a.mapChar == b.mapChar && a.mapInt == b.mapInt && a.size_ == b.size_ }
pub open spec fn grow_sz(a: Trie, b: Trie) -> bool { a.base.size_ <= b.base.size_ && a.check.size_ <= b.check.size_ && a.tail.size_ <= b.tail.size_ }
pub proof fn ew_push(f: MC, s: Seq<i8>) requires okw(f, s), alph(f) ensures ew(f, s.push(1i8)), okchars(f, s.push(1i8))
{ assert(s.push(1i8).drop_last() =~= s); }
pub proof fn add_end(s: Seq<i8>) ensures forall|a: Seq<i8>| a.len() == 1 && a[0] == 1i8 ==> #[trigger] (s + a) == s.push(1i8)
{ assert forall|a: Seq<i8>| a.len() == 1 && a[0] == 1i8 implies #[trigger] (s + a) == s.push(1i8) by { assert(s + a =~= s.push(1i8)); } }
pub proof fn ew_chars(f: MC, v: Seq<i8>) requires ew(f, v), alph(f)
    ensures v.len() >= 1, okchars(f, v), forall|i: int| 0 <= i < v.len() - 1 ==> okc(f, #[trigger] v[i]) && v[i] != 1i8, v[v.len() - 1] == 1i8, forall|i: int| 0 <= i < v.len() ==> okc(f, #[trigger] v[i])
{ assert forall|i: int| 0 <= i < v.len() - 1 implies okc(f, #[trigger] v[i]) && v[i] != 1i8 by { assert(v.drop_last()[i] == v[i]); } }
pub proof fn ew_skip(f: MC, v: Seq<i8>, k: int) requires ew(f, v), alph(f), 0 <= k < v.len() ensures ew(f, v.skip(k))
{ ew_chars(f, v); assert(v.skip(k).last() == v.last()); let w = v.skip(k).drop_last(); assert forall|i: int| 0 <= i < w.len() implies okc(f, #[trigger] w[i]) && w[i] != 1i8 by { assert(w[i] == v[k + i]); } }
// where the walk over the word v stands after k characters
pub open spec fn walk(t: Trie, v: Seq<i8>, k: int, n: int) -> bool { 0 <= k <= v.len() && n >= 0 && n == path(tv(t), t.mapChar, v.take(k)) && (n == 0 || isn(tv(t), n)) }
pub proof fn walk0(t: Trie, v: Seq<i8>) ensures walk(t, v, 0, 0) { assert(v.take(0) =~= Seq::<i8>::empty()); }
pub proof fn step(t: Trie, v: Seq<i8>, k: int, n: int) requires inz(t, -1), ew(t.mapChar, v), walk(t, v, k, n), k < v.len(), tv(t).b[n] >= 0
    ensures ({ let x = tv(t).b[n] + code(t.mapChar, v[k]); &&& 1 <= code(t.mapChar, v[k]) <= 256 &&& okc(t.mapChar, v[k]) &&& (tv(t).c[x] != n ==> !lang(tv(t), t.mapChar, -1, v) && path(tv(t), t.mapChar, v.take(k + 1)) < 0)
      &&& (tv(t).c[x] == n ==> walk(t, v, k + 1, x) && x >= 1 && nodeok(tv(t), t.mapChar, -1, x) && arc(tv(t), x) == code(t.mapChar, v[k]) && x < t.base.size_ && x < t.check.size_ && (arc(tv(t), x) == 1) == (k + 1 == v.len()) && (tv(t).b[x] <= -2 ==> tused(t, ti(t, x)))
           && (k + 1 < v.len() ==> tv(t).b[x] != -1) && (k + 1 == v.len() ==> tv(t).b[x] < 0 && lang(tv(t), t.mapChar, -1, v))
           && (tv(t).b[x] < 0 ==> lang(tv(t), t.mapChar, -1, v) == (v.skip(k + 1) =~= lw(tv(t), x)))) })
{ let f = t.mapChar; let T = tv(t); ew_chars(f, v); let x = T.b[n] + code(f, v[k]); assert(okc(f, v[k])); ib_out(t.check);
  assert(v.take(k + 1) =~= v.take(k).push(v[k])); path_push(T, f, v.take(k), v[k]);
  if T.c[x] == n { assert(isn(T, x)) by { assert(n != -1); } assert(nodeok(T, f, -1, x)); path_pos(T, f, -1, v.take(k + 1)); assert((arc(T, x) == 1) == (k + 1 == v.len())) by { if code(f, v[k]) == 1 { assert(code(f, v[k]) == code(f, 1i8)); assert(v[k] == 1i8); } }
      if T.b[x] < 0 { lang_leaf(T, f, -1, v, k + 1); if k + 1 == v.len() { assert(v.skip(k + 1) =~= Seq::<i8>::empty()); assert(lw(T, x) =~= Seq::<i8>::empty()); } } }
  else { lang_stuck(T, f, -1, v, k); } }
// the leaf x taken out
pub proof fn take_out(t: Trie, t2: Trie, v: Seq<i8>, k: int, x: int) requires inz(t, -1), ew(t.mapChar, v), walk(t, v, k, x), x > 0, tv(t).b[x] < 0, v.skip(k) =~= lw(tv(t), x), shapes(t2), t2.tail == t.tail, t2.tailList == t.tailList, t2.pos == t.pos, rest(t, t2), grow_sz(t, t2),
        forall|y: int| #[trigger] tv(t2).c[y] == (if y == x { -1 } else { tv(t).c[y] }), forall|y: int| y != x ==> #[trigger] tv(t2).b[y] == tv(t).b[y]
    ensures inz(t2, -1), forall|w: Seq<i8>| okchars(t.mapChar, w) ==> (#[trigger] lang(tv(t2), t.mapChar, -1, w) == (w != v && lang(tv(t), t.mapChar, -1, w)))
{ let f = t.mapChar; let T = tv(t); let T2 = tv(t2); ew_chars(f, v); assert(okchars(f, v.take(k))); open_leaf(T, f, x, v.take(k)); assert(v =~= v.take(k) + lw(T, x)) by { assert(v =~= v.take(k) + v.skip(k)); }
  cut(T, T2, f, x);
  assert forall|y: int| #[trigger] isn(T2, y) && y != -1 implies y < t2.base.size_ && T2.b[y] <= t2.check.size_ && (T2.b[y] <= -2 ==> tused(t2, ti(t2, y))) by { assert(isn(T, y)); assert(T2.b[y] == T.b[y]); if T.b[y] <= -2 { assert(tused(t, ti(t, y))); } }
  assert(T2.b[0] == T.b[0]); }

pub open spec fn inseq(s: Seq<i32>, v: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == v }
// s lists the arcs of node n, whose base is b
pub open spec fn arcs(c: IMap<int, int>, b: int, n: int, s: Seq<i32>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> 1 <= #[trigger] s[k] && c[b + s[k]] == n
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> s[k] < s[l]
    &&& forall|x: int| x > b && #[trigger] c[x] == n ==> inseq(s, x - b) }
pub proof fn counted(t: Trie) requires inv(t) ensures t.size_ >= 0, forall|s: Seq<i8>| okw(t.mapChar, s) && #[trigger] has(t, s) ==> t.size_ > 0
{ let S = choose|S: Set<Seq<i8>>| #[trigger] counts(t, S); assert forall|s: Seq<i8>| okw(t.mapChar, s) && #[trigger] has(t, s) implies t.size_ > 0 by { assert(S.contains(s)); assert(S.remove(s).len() == S.len() - 1); } }
pub proof fn ok_cat(f: MC, a: Seq<i8>, b: Seq<i8>) requires okchars(f, a), forall|i: int| 0 <= i < b.len() ==> okc(f, #[trigger] b[i]) ensures okchars(f, a + b) { assert forall|i: int| 0 <= i < (a + b).len() implies okc(f, #[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn ok_take(f: MC, w: Seq<i8>, k: int) requires okchars(f, w), 0 <= k <= w.len() ensures okchars(f, w.take(k)) {}
pub proof fn node_in(t: Trie, z: int, x: int) requires inz(t, z), x == 0 || isn(tv(t), x), x != z ensures x < t.base.size_, tv(t).b[x] <= t.check.size_, x >= 0, x != 0 && tv(t).b[x] <= -2 ==> tused(t, ti(t, x)), x != 0 ==> x < t.check.size_ && nodeok(tv(t), t.mapChar, z, x) { ib_out(t.check); if x != 0 { assert(isn(tv(t), x)); } }
pub proof fn w_split(f: MC, w: Seq<i8>, k: int) requires ew(f, w), alph(f), 0 <= k < w.len() ensures w == w.take(k).push(w[k]) + w.skip(k + 1), w[k] == 1i8 <==> k + 1 == w.len(), w[k] == 1i8 ==> w.skip(k + 1).len() == 0, w[k] != 1i8 ==> ew(f, w.skip(k + 1)), w.subrange(k + 1, w.len() as int) == w.skip(k + 1), (code(f, w[k]) == 1) == (w[k] == 1i8), okchars(f, w.take(k))
{ ew_chars(f, w); assert(w =~= w.take(k).push(w[k]) + w.skip(k + 1)); if k + 1 < w.len() { ew_skip(f, w, k + 1); } assert(w.subrange(k + 1, w.len() as int) =~= w.skip(k + 1)); assert(okc(f, w[k])); if code(f, w[k]) == code(f, 1i8) {} }
pub proof fn wf0(t: Trie, z: int) requires inz(t, z) ensures alph(t.mapChar), tv(t).b[0] >= 0, tv(t).c[0] == -1 {}
pub proof fn nd(t: Trie, z: int, x: int) requires inz(t, z), isn(tv(t), x) ensures nodeok(tv(t), t.mapChar, z, x) {}
// a new leaf y below n: its base tells the tail slot, or -1
pub open spec fn addl(t: Trie, t2: Trie, n: int, y: int, rs: Seq<i8>) -> bool {
    let p = ti(t2, y);
    &&& shapes(t2) && tlok(t2) && rest(t, t2) && grow_sz(t, t2) && y < t2.base.size_
    &&& forall|x: int| #[trigger] tv(t2).c[x] == (if x == y { n } else { tv(t).c[x] })
    &&& forall|x: int| x != y ==> #[trigger] tv(t2).b[x] == tv(t).b[x]
    &&& t.pos <= t2.pos && (forall|k: i32| #[trigger] t2.tailList@.contains(k) ==> t.tailList@.contains(k))
    &&& (p == -1 && t2.tail == t.tail && rs.len() == 0 || 0 <= p && tused(t2, p) && (p == t.pos || t.tailList@.contains(p as i32)) && forall|x: int| #[trigger] tlm(t2.tail)[x] == (if x == p { rs } else { tlm(t.tail)[x] })) }
pub proof fn add_leaf(t: Trie, t2: Trie, u: Seq<i8>, ch: i8, n: int, y: int, rs: Seq<i8>)
    requires inz(t, -1), okchars(t.mapChar, u), okc(t.mapChar, ch), path(tv(t), t.mapChar, u) == n, n >= 0, tv(t).b[n] >= 0, tv(t).b[n] + code(t.mapChar, ch) == y, tv(t).c[y] == -1, addl(t, t2, n, y, rs), ti(t2, y) == -1 ==> ch == 1i8, if ch == 1i8 { rs.len() == 0 } else { ew(t.mapChar, rs) }
    ensures inz(t2, -1), forall|v: Seq<i8>| okchars(t.mapChar, v) ==> (#[trigger] lang(tv(t2), t.mapChar, -1, v) == (lang(tv(t), t.mapChar, -1, v) || v =~= u.push(ch) + rs))
{ let f = t.mapChar; let T = tv(t); let T2 = tv(t2); path_pos(T, f, -1, u); assert(okc(f, ch)); assert(code(f, ch) >= 1); assert((code(f, ch) == 1) == (ch == 1i8)) by { if code(f, ch) == code(f, 1i8) {} }
  assert(n != y) by { if n != 0 { assert(isn(T, n)); } } assert(T2.c[y] == n); assert(arc(T2, y) == code(f, ch)); assert(T2.b[n] == T.b[n]);
  assert forall|x: int| #[trigger] isn(T, x) && x != -1 && T.b[x] <= -2 implies T2.tl[-T.b[x] - 2] == T.tl[-T.b[x] - 2] && T2.b[y] != T.b[x] by { assert(tused(t, ti(t, x))); }
  assert(lw(T2, y) =~= rs);
  grow(T, T2, f, -1, -1, u, ch, n, y);
  assert forall|x: int| #[trigger] isn(T2, x) && x != -1 implies x < t2.base.size_ && T2.b[x] <= t2.check.size_ && (T2.b[x] <= -2 ==> tused(t2, ti(t2, x))) by { assert(T2.c[x] == (if x == y { n } else { T.c[x] })); if x != y { assert(isn(T, x)); assert(T2.b[x] == T.b[x]); if T.b[x] <= -2 { assert(tused(t, ti(t, x))); } } }
  assert(T2.b[0] <= t2.check.size_) by { if y != 0 { assert(T2.b[0] == T.b[0]); } } }
// no leaf but z uses the tail slot k
pub open spec fn mine(t: Trie, z: int, k: int) -> bool { tused(t, k) && forall|x: int| #[trigger] isn(tv(t), x) && x != z && tv(t).b[x] <= -2 ==> ti(t, x) != k }
pub proof fn mine0(t: Trie, z: int) requires inz(t, -1), isn(tv(t), z), tv(t).b[z] <= -2 ensures mine(t, z, ti(t, z)), tused(t, ti(t, z)) { assert(nodeok(tv(t), t.mapChar, -1, z)); assert forall|x: int| #[trigger] isn(tv(t), x) && x != z && tv(t).b[x] <= -2 implies ti(t, x) != ti(t, z) by { assert(isn(tv(t), z)); } }
pub proof fn open_z(t: Trie, z: int, u: Seq<i8>) requires inz(t, -1), okchars(t.mapChar, u), path(tv(t), t.mapChar, u) == z, z > 0, tv(t).b[z] <= -2, arc(tv(t), z) != 1
    ensures inz(t, z), mine(t, z, ti(t, z)), tused(t, ti(t, z)), forall|v: Seq<i8>| okchars(t.mapChar, v) ==> (#[trigger] lang(tv(t), t.mapChar, -1, v) == (lang(tv(t), t.mapChar, z, v) || v =~= u + lw(tv(t), z))), !lang(tv(t), t.mapChar, z, u + lw(tv(t), z)), ew(t.mapChar, lw(tv(t), z))
{ let f = t.mapChar; path_pos(tv(t), f, -1, u); assert(isn(tv(t), z)); assert(nodeok(tv(t), f, -1, z)); open_leaf(tv(t), f, z, u); mine0(t, z); assert(nodes_in(t, z)); }
pub open spec fn same_tails(t: Trie, t2: Trie) -> bool { t2.tail == t.tail && t2.tailList == t.tailList && t2.pos == t.pos }
// the open node z gets one child y, which is the open node then
pub proof fn ext_step(t: Trie, t2: Trie, z: int, u: Seq<i8>, ch: i8, y: int, k: int)
    requires inz(t, z), z > 0, okchars(t.mapChar, u), okc(t.mapChar, ch), ch != 1i8, path(tv(t), t.mapChar, u) == z, arc(tv(t), z) != 1, tv(t).c[y] == -1, mine(t, z, k), shapes(t2), rest(t, t2), grow_sz(t, t2), same_tails(t, t2), z < t2.base.size_,
        forall|x: int| #[trigger] tv(t2).c[x] == (if x == y { z } else { tv(t).c[x] }), forall|x: int| x != z ==> #[trigger] tv(t2).b[x] == tv(t).b[x], 0 <= tv(t2).b[z] <= t2.check.size_, tv(t2).b[z] + code(t.mapChar, ch) == y
    ensures inz(t2, y), y > 0, isn(tv(t2), y), path(tv(t2), t.mapChar, u.push(ch)) == y, arc(tv(t2), y) != 1, mine(t2, y, k), forall|v: Seq<i8>| okchars(t.mapChar, v) ==> (#[trigger] lang(tv(t2), t.mapChar, y, v) == lang(tv(t), t.mapChar, z, v))
{ let f = t.mapChar; let T = tv(t); let T2 = tv(t2); path_pos(T, f, z, u); assert(okc(f, ch)); assert(code(f, ch) > 1) by { if code(f, ch) == code(f, 1i8) {} } assert(z != y) by { assert(isn(T, z)); } assert(T2.c[y] == z);
  grow(T, T2, f, z, y, u, ch, z, y);
  assert forall|x: int| #[trigger] isn(T2, x) && x != y implies x < t2.base.size_ && T2.b[x] <= t2.check.size_ && (T2.b[x] <= -2 ==> tused(t2, ti(t2, x)) && ti(t2, x) != k) by { assert(T2.c[x] == (if x == y { z } else { T.c[x] })); assert(isn(T, x)); if x != z { assert(T2.b[x] == T.b[x]); if T.b[x] <= -2 { assert(tused(t, ti(t, x))); } } }
  assert(T2.b[0] == T.b[0]); }
// the open node z gets a child y with the end of the old tail, and is open no more
pub proof fn split_leaf(t: Trie, t2: Trie, z: int, u: Seq<i8>, ch: i8, y: int, k: int, rs: Seq<i8>)
    requires inz(t, z), z > 0, okchars(t.mapChar, u), okc(t.mapChar, ch), path(tv(t), t.mapChar, u) == z, arc(tv(t), z) != 1, tv(t).c[y] == -1, mine(t, z, k), shapes(t2), rest(t, t2), grow_sz(t, t2), t2.pos == t.pos, z < t2.base.size_, y < t2.base.size_,
        forall|x: int| #[trigger] tv(t2).c[x] == (if x == y { z } else { tv(t).c[x] }), forall|x: int| x != z && x != y ==> #[trigger] tv(t2).b[x] == tv(t).b[x], 0 <= tv(t2).b[z] <= t2.check.size_, tv(t2).b[z] + code(t.mapChar, ch) == y,
        if ch == 1i8 { rs.len() == 0 && tv(t2).b[y] == -1 && t2.tail == t.tail && t2.tailList@ == t.tailList@.push(k as i32) } else { ew(t.mapChar, rs) && tv(t2).b[y] == -k - 2 && t2.tailList == t.tailList && t2.tail.size_ == t.tail.size_ && forall|x: int| #[trigger] tlm(t2.tail)[x] == (if x == k { rs } else { tlm(t.tail)[x] }) }
    ensures inz(t2, -1), path(tv(t2), t.mapChar, u) == z, forall|v: Seq<i8>| okchars(t.mapChar, v) ==> (#[trigger] lang(tv(t2), t.mapChar, -1, v) == (lang(tv(t), t.mapChar, z, v) || v =~= u.push(ch) + rs))
{ let f = t.mapChar; let T = tv(t); let T2 = tv(t2); path_pos(T, f, z, u); assert(okc(f, ch)); assert(code(f, ch) >= 1); assert((code(f, ch) == 1) == (ch == 1i8)) by { if code(f, ch) == code(f, 1i8) {} } assert(isn(T, z)); assert(z != y); assert(T2.c[y] == z); assert(arc(T2, y) == code(f, ch));
  assert(lw(T2, y) =~= rs);
  let a = t.tailList@; let b = t2.tailList@;
  if ch == 1i8 { assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] b[i] < t2.pos by { if i < a.len() { assert(b[i] == a[i]); } }
     assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] != b[j] by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } else { assert(!a.contains(k as i32)); assert(b[j] == k as i32); } }
     assert forall|q: i32| #[trigger] b.contains(q) implies a.contains(q) || q == k by { let i = choose|i: int| 0 <= i < b.len() && b[i] == q; if i < a.len() { assert(a[i] == q); } } }
  assert forall|x: int| #[trigger] isn(T, x) && x != z && T.b[x] <= -2 implies T2.tl[-T.b[x] - 2] == T.tl[-T.b[x] - 2] && T2.b[y] != T.b[x] && tused(t2, -T.b[x] - 2) by { assert(tused(t, ti(t, x))); assert(ti(t, x) != k); }
  grow(T, T2, f, z, -1, u, ch, z, y);
  assert forall|x: int| #[trigger] isn(T2, x) && x != -1 implies x < t2.base.size_ && T2.b[x] <= t2.check.size_ && (T2.b[x] <= -2 ==> tused(t2, ti(t2, x))) by { assert(T2.c[x] == (if x == y { z } else { T.c[x] })); if x != y { assert(isn(T, x)); if x != z { assert(T2.b[x] == T.b[x]); } } }
  assert(T2.b[0] == T.b[0]) by { assert(y >= 1); } }
// the common prefix of two different words that both end with the end mark
pub proof fn pref(f: MC, a: Seq<i8>, b: Seq<i8>, l: int)
    requires alph(f), ew(f, a), ew(f, b), a != b, 0 <= l <= a.len(), l <= b.len(), a.take(l) == b.take(l), l < a.len() && l < b.len() ==> a[l] != b[l]
    ensures l < a.len(), l < b.len(), forall|i: int| 0 <= i < l ==> okc(f, #[trigger] a[i]) && a[i] != 1i8, okc(f, a[l]), okc(f, b[l]), a[l] == 1i8 <==> l + 1 == a.len(), b[l] == 1i8 <==> l + 1 == b.len(), l + 1 < a.len() ==> ew(f, a.skip(l + 1)), l + 1 < b.len() ==> ew(f, b.skip(l + 1)), a[l] != b[l], code(f, a[l]) != code(f, b[l])
{ ew_chars(f, a); ew_chars(f, b);
  if l == a.len() || l == b.len() { assert(a.take(l)[l - 1] == a[l - 1]); assert(b.take(l)[l - 1] == b[l - 1]); }
  if l == a.len() { assert(a[a.len() - 1] == 1i8); assert(a.take(l)[l - 1] == b.take(l)[l - 1]); assert(b[l - 1] == 1i8); if l < b.len() { assert(b[l - 1] != 1i8); } assert(a =~= a.take(l)); assert(b =~= b.take(l)); }
  if l == b.len() { assert(b[b.len() - 1] == 1i8); assert(a.take(l)[l - 1] == b.take(l)[l - 1]); assert(a[l - 1] == 1i8); }
  assert(okc(f, a[l]) && okc(f, b[l]));
  if l + 1 < a.len() { ew_skip(f, a, l + 1); } if l + 1 < b.len() { ew_skip(f, b, l + 1); } }
pub open spec fn post(a: Trie, b: Trie, w: Seq<i8>) -> bool { inz(b, -1) && rest(a, b) && sz(b) <= sz(a) + 300 * (w.len() + 4) && b.pos <= a.pos + 1 && forall|v: Seq<i8>| okchars(a.mapChar, v) ==> (#[trigger] lang(tv(b), a.mapChar, -1, v) == (lang(tv(a), a.mapChar, -1, v) || v == w)) }
// ---- moving the children of a node
pub open spec fn dset(s: Seq<i32>, k: int) -> ISet<int> { ISet::new(|v: int| inseq(s.take(k), v)) }
pub proof fn dset_step(s: Seq<i32>, k: int) requires 0 <= k < s.len() ensures dset(s, k + 1) =~= dset(s, k).insert(s[k] as int)
{ assert forall|v: int| dset(s, k + 1).contains(v) == dset(s, k).insert(s[k] as int).contains(v) by {
    if inseq(s.take(k + 1), v) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s.take(k + 1)[i] == v; if i < k { assert(s.take(k)[i] == v); } }
    if inseq(s.take(k), v) { let i = choose|i: int| 0 <= i < k && #[trigger] s.take(k)[i] == v; assert(s.take(k + 1)[i] == v); }
    if v == s[k] { assert(s.take(k + 1)[k] == v); } } }
pub proof fn move_facts(t: Tr, t1: Tr, f: MC, m: int, nb: int, d: ISet<int>, j: int) requires canmove(t, f, m, nb), moving(t, t1, m, nb, d), !d.contains(j), t.c[t.b[m] + j] == m
    ensures ({ let o = t.b[m] + j; let n = nb + j; &&& t1.b[o] == t.b[o] &&& t1.c[o] == m &&& t1.c[n] == -1 &&& o != n &&& o != m &&& o >= 1 &&& n >= 1 &&& isn(t, o) &&& n != m
      &&& forall|x: int| #[trigger] t1.c[x] == o ==> t.c[x] == o && t.b[o] >= 0 && x > t.b[o] && x != o && x != n })
{ let ob = t.b[m]; let o = ob + j; let n = nb + j; assert(isn(t, m) ==> nodeok(t, f, -1, m)); assert(isn(t, o)); assert(nodeok(t, f, -1, o)); assert(t.c[o - ob + nb] == -1);
  assert(t1.b[o] == (if mvd(t, m, d, o - nb + ob) { t.b[o - nb + ob] } else if mvd(t, m, d, o) { -1 } else if o == m { nb } else { t.b[o] }));
  if mvd(t, m, d, o - nb + ob) { assert(t.c[o - nb + ob] == m); assert(t.c[o] == -1); }
  assert(t1.c[o] == (if mvd(t, m, d, o - nb + ob) { m } else if mvd(t, m, d, o) { -1 } else { rho(t, m, nb, d, t.c[o]) }));
  assert(!mvd(t, m, d, m)) by { if t.c[m] == m { assert(isn(t, m)); } }
  assert(!isn(t, -1)) by { if isn(t, -1) { assert(nodeok(t, f, -1, -1)); } }
  assert(t1.c[n] == (if mvd(t, m, d, n - nb + ob) { m } else if mvd(t, m, d, n) { -1 } else { rho(t, m, nb, d, t.c[n]) }));
  assert forall|x: int| #[trigger] t1.c[x] == o implies t.c[x] == o && t.b[o] >= 0 && x > t.b[o] && x != o && x != n by {
      assert(t1.c[x] == (if mvd(t, m, d, x - nb + ob) { m } else if mvd(t, m, d, x) { -1 } else { rho(t, m, nb, d, t.c[x]) }));
      let g = t.c[x]; if mvd(t, m, d, g) { assert(t.c[g] == m); assert(t.c[g - ob + nb] == -1); } assert(g == o); assert(isn(t, x)); assert(nodeok(t, f, -1, x)); } }
pub proof fn move_step(t: Tr, t1: Tr, t2: Tr, f: MC, m: int, nb: int, d: ISet<int>, j: int) requires canmove(t, f, m, nb), moving(t, t1, m, nb, d), !d.contains(j), t.c[t.b[m] + j] == m, t2.tl == t1.tl,
        forall|x: int| #[trigger] t2.b[x] == (if x == t.b[m] + j { -1 } else if x == nb + j { t1.b[t.b[m] + j] } else { t1.b[x] }),
        forall|x: int| #[trigger] t2.c[x] == (if x == t.b[m] + j { -1 } else if x == nb + j { m } else if t1.c[x] == t.b[m] + j { nb + j } else { t1.c[x] })
    ensures moving(t, t2, m, nb, d.insert(j)), forall|n: int| n == 0 || isn(t, n) ==> #[trigger] rho(t, m, nb, d.insert(j), n) == (if rho(t, m, nb, d, n) == t.b[m] + j { nb + j } else { rho(t, m, nb, d, n) })
{ let ob = t.b[m]; let o = ob + j; let n = nb + j; let d2 = d.insert(j); move_facts(t, t1, f, m, nb, d, j);
  assert(isn(t, m) ==> nodeok(t, f, -1, m)); assert(nodeok(t, f, -1, o)); assert(!isn(t, -1)) by { if isn(t, -1) { assert(nodeok(t, f, -1, -1)); } }
  assert forall|x: int| mvd(t, m, d2, x) == (mvd(t, m, d, x) || x == o) by { }
  assert forall|g: int| g == 0 || isn(t, g) || g == -1 implies #[trigger] rho(t, m, nb, d2, g) == (if rho(t, m, nb, d, g) == o { n } else { rho(t, m, nb, d, g) }) by {
      assert(mvd(t, m, d2, g) == (mvd(t, m, d, g) || g == o));
      if mvd(t, m, d, g) { assert(t.c[g] == m); assert(t.c[g - ob + nb] == -1); } }
  assert forall|x: int| #[trigger] t2.b[x] == (if mvd(t, m, d2, x - nb + ob) { t.b[x - nb + ob] } else if mvd(t, m, d2, x) { -1 } else if x == m { nb } else { t.b[x] }) by {
      assert(t1.b[x] == (if mvd(t, m, d, x - nb + ob) { t.b[x - nb + ob] } else if mvd(t, m, d, x) { -1 } else if x == m { nb } else { t.b[x] }));
      assert(mvd(t, m, d2, x - nb + ob) == (mvd(t, m, d, x - nb + ob) || x - nb + ob == o)); assert(mvd(t, m, d2, x) == (mvd(t, m, d, x) || x == o));
      if x == o { if mvd(t, m, d, x - nb + ob) { assert(t.c[x - nb + ob] == m); assert(t.c[o] == -1); } } }
  assert forall|x: int| #[trigger] t2.c[x] == (if mvd(t, m, d2, x - nb + ob) { m } else if mvd(t, m, d2, x) { -1 } else { rho(t, m, nb, d2, t.c[x]) }) by {
      assert(t1.c[x] == (if mvd(t, m, d, x - nb + ob) { m } else if mvd(t, m, d, x) { -1 } else { rho(t, m, nb, d, t.c[x]) }));
      assert(mvd(t, m, d2, x - nb + ob) == (mvd(t, m, d, x - nb + ob) || x - nb + ob == o)); assert(mvd(t, m, d2, x) == (mvd(t, m, d, x) || x == o));
      let g = t.c[x]; if isn(t, x) { assert(nodeok(t, f, -1, x)); } assert(g == 0 || isn(t, g) || g == -1);
      assert(rho(t, m, nb, d2, g) == (if rho(t, m, nb, d, g) == o { n } else { rho(t, m, nb, d, g) }));
      if x == o { if mvd(t, m, d, x - nb + ob) { assert(t.c[x - nb + ob] == m); assert(t.c[o] == -1); } } } }
pub proof fn moving0(t: Tr, t1: Tr, f: MC, m: int, nb: int, d: ISet<int>) requires forall|v: int| !d.contains(v), t1.tl == t.tl, t1.c == t.c, forall|x: int| #[trigger] t1.b[x] == (if x == m { nb } else { t.b[x] }) ensures moving(t, t1, m, nb, d), forall|x: int| #[trigger] rho(t, m, nb, d, x) == x
{ assert forall|x: int| !mvd(t, m, d, x) by {} }
pub proof fn moving_all(t: Tr, t1: Tr, m: int, nb: int, d: ISet<int>) requires moving(t, t1, m, nb, d), forall|x: int| #[trigger] t.c[x] == m ==> d.contains(x - t.b[m]) ensures moving(t, t1, m, nb, alld()), forall|x: int| #[trigger] rho(t, m, nb, alld(), x) == rho(t, m, nb, d, x)
{ let e = alld(); let ob = t.b[m]; assert forall|x: int| mvd(t, m, e, x) == mvd(t, m, d, x) by { if t.c[x] == m {} }
  assert forall|x: int| #[trigger] rho(t, m, nb, e, x) == rho(t, m, nb, d, x) by { assert(mvd(t, m, e, x) == mvd(t, m, d, x)); }
  assert forall|x: int| #[trigger] t1.b[x] == (if mvd(t, m, e, x - nb + ob) { t.b[x - nb + ob] } else if mvd(t, m, e, x) { -1 } else if x == m { nb } else { t.b[x] }) by { assert(mvd(t, m, e, x) == mvd(t, m, d, x)); assert(mvd(t, m, e, x - nb + ob) == mvd(t, m, d, x - nb + ob)); }
  assert forall|x: int| #[trigger] t1.c[x] == (if mvd(t, m, e, x - nb + ob) { m } else if mvd(t, m, e, x) { -1 } else { rho(t, m, nb, e, t.c[x]) }) by { assert(mvd(t, m, e, x) == mvd(t, m, d, x)); assert(mvd(t, m, e, x - nb + ob) == mvd(t, m, d, x - nb + ob)); } }
// after the move: the invariant, the words, the walk to n and the free slot for the new arc
pub proof fn relocated(t: Trie, t1: Trie, m: int, nb: int, n: int, i: int, u: Seq<i8>)
    requires inz(t, -1), canmove(tv(t), t.mapChar, m, nb), moving(tv(t), tv(t1), m, nb, alld()), shapes(t1), rest(t, t1), grow_sz(t, t1), same_tails(t, t1), nb <= t1.check.size_, forall|x: int| #[trigger] tv(t).c[x] == m ==> x - tv(t).b[m] + nb < t1.base.size_,
        okchars(t.mapChar, u), path(tv(t), t.mapChar, u) == n, n >= 0, tv(t).b[n] >= 0, i >= 1, m == n && tv(t).c[nb + i] == -1 && tv(t).c[tv(t).b[n] + i] != n || m != n && tv(t).c[tv(t).b[n] + i] == m
    ensures ({ let o = rho(tv(t), m, nb, alld(), n); &&& inz(t1, -1) &&& path(tv(t1), t.mapChar, u) == o &&& o >= 0 &&& o < t1.base.size_ &&& (o == 0 || isn(tv(t1), o)) &&& tv(t1).b[o] == (if m == n { nb } else { tv(t).b[n] }) &&& tv(t1).c[tv(t1).b[o] + i] == -1 }),
      forall|v: Seq<i8>| okchars(t.mapChar, v) ==> #[trigger] lang(tv(t1), t.mapChar, -1, v) == lang(tv(t), t.mapChar, -1, v)
{ let f = t.mapChar; let T = tv(t); let T1 = tv(t1); let ob = T.b[m]; let d = alld(); path_pos(T, f, -1, u); moved(T, T1, f, m, nb); move_path(T, T1, f, m, nb, u); moved_at(T, T1, f, m, nb, n); moved_at(T, T1, f, m, nb, 0);
  assert(isn(T, m) ==> nodeok(T, f, -1, m)); assert(!isn(T, -1)) by { if isn(T, -1) { assert(nodeok(T, f, -1, -1)); } }
  assert forall|y: int| #[trigger] isn(T1, y) && y != -1 implies y < t1.base.size_ && T1.b[y] <= t1.check.size_ && (T1.b[y] <= -2 ==> tused(t1, ti(t1, y))) by {
      move_node(T, T1, f, m, nb, y); let x = inv_rho(T, m, nb, y); moved_at(T, T1, f, m, nb, x); assert(isn(T, x)); if mvd(T, m, d, x) { assert(T.c[x] == m); } if T.b[x] <= -2 { assert(tused(t, ti(t, x))); } if x == m { } }
  let o = rho(T, m, nb, d, n); if n == 0 { } else { assert(isn(T, n)); assert(isn(T1, o)); }
  let w = T1.b[o] + i; assert(T1.c[w] == (if mvd(T, m, d, w - nb + ob) { m } else if mvd(T, m, d, w) { -1 } else { rho(T, m, nb, d, T.c[w]) }));
  if m == n { assert(w - nb + ob == T.b[n] + i); assert(T.c[w] == -1); }
  else { if mvd(T, m, d, w - nb + ob) { assert(T.c[w - nb + ob] == m); assert(T.c[w] == -1); } }
  if m == 0 { } }
// the arcs of m and where their ends go
pub proof fn can(t: Trie, m: int, nb: int, s: Seq<i32>) requires inz(t, -1), nb >= 0, m == 0 || isn(tv(t), m), tv(t).b[m] >= 0, arcs(tv(t).c, tv(t).b[m], m, s), forall|k: int| 0 <= k < s.len() ==> tv(t).c[nb + #[trigger] s[k]] == -1
    ensures canmove(tv(t), t.mapChar, m, nb), forall|x: int| #[trigger] tv(t).c[x] == m ==> inseq(s, x - tv(t).b[m])
{ let T = tv(t); let f = t.mapChar; assert(isn(T, m) ==> nodeok(T, f, -1, m));
  assert forall|x: int| #[trigger] T.c[x] == m implies inseq(s, x - T.b[m]) && T.c[x - T.b[m] + nb] == -1 by { assert(isn(T, x)); assert(nodeok(T, f, -1, x)); assert(inseq(s, x - T.b[m])); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == x - T.b[m]; assert(T.c[nb + s[k]] == -1); } }
pub proof fn moved_out(t: Trie, t1: Trie, m: int, nb: int, ml: Seq<i32>, n: int, i: int, u: Seq<i8>)
    requires inz(t, -1), canmove(tv(t), t.mapChar, m, nb), arcs(tv(t).c, tv(t).b[m], m, ml), moving(tv(t), tv(t1), m, nb, dset(ml, ml.len() as int)), shapes(t1), rest(t, t1), grow_sz(t, t1), same_tails(t, t1), nb <= t1.check.size_, forall|k: int| 0 <= k < ml.len() ==> nb + #[trigger] ml[k] < t1.base.size_,
        okchars(t.mapChar, u), path(tv(t), t.mapChar, u) == n, n >= 0, tv(t).b[n] >= 0, i >= 1, m == n && tv(t).c[nb + i] == -1 && tv(t).c[tv(t).b[n] + i] != n || m != n && tv(t).c[tv(t).b[n] + i] == m
    ensures ({ let o = rho(tv(t), m, nb, dset(ml, ml.len() as int), n); &&& inz(t1, -1) &&& path(tv(t1), t.mapChar, u) == o &&& o >= 0 &&& o < t1.base.size_ &&& (o == 0 || isn(tv(t1), o)) &&& tv(t1).b[o] == (if m == n { nb } else { tv(t).b[n] }) &&& tv(t1).c[tv(t1).b[o] + i] == -1 }),
      forall|v: Seq<i8>| okchars(t.mapChar, v) ==> #[trigger] lang(tv(t1), t.mapChar, -1, v) == lang(tv(t), t.mapChar, -1, v)
{ let T = tv(t); assert(ml.take(ml.len() as int) =~= ml); assert(isn(T, m) ==> nodeok(T, t.mapChar, -1, m));
  assert forall|x: int| #[trigger] T.c[x] == m implies x - T.b[m] + nb < t1.base.size_ && dset(ml, ml.len() as int).contains(x - T.b[m]) by { assert(isn(T, x)); assert(nodeok(T, t.mapChar, -1, x)); assert(inseq(ml, x - T.b[m])); let k = choose|k: int| 0 <= k < ml.len() && #[trigger] ml[k] == x - T.b[m]; assert(nb + ml[k] < t1.base.size_); }
  moving_all(T, tv(t1), m, nb, dset(ml, ml.len() as int)); relocated(t, t1, m, nb, n, i, u); assert(rho(T, m, nb, dset(ml, ml.len() as int), n) == rho(T, m, nb, alld(), n)); }
pub proof fn arcs_le(t: Trie, m: int, s: Seq<i32>) requires inz(t, -1), m == 0 || isn(tv(t), m), arcs(tv(t).c, tv(t).b[m], m, s) ensures forall|k: int| 0 <= k < s.len() ==> 1 <= #[trigger] s[k] <= 256, s.len() <= 256
{ let T = tv(t); assert(isn(T, m) ==> nodeok(T, t.mapChar, -1, m)); assert forall|k: int| 0 <= k < s.len() implies 1 <= #[trigger] s[k] <= 256 && s[k] >= k + 1 by { assert(T.c[T.b[m] + s[k]] == m); assert(isn(T, T.b[m] + s[k])); assert(nodeok(T, t.mapChar, -1, T.b[m] + s[k])); incr(s, k); }
  if s.len() > 0 { assert(s[s.len() - 1] >= s.len()); } }
pub proof fn incr(s: Seq<i32>, k: int) requires 0 <= k < s.len(), forall|k: int| 0 <= k < s.len() ==> 1 <= #[trigger] s[k], forall|k: int, l: int| 0 <= k < l < s.len() ==> s[k] < s[l] ensures s[k] >= k + 1 decreases k
{ if k > 0 { incr(s, k - 1); assert(s[k - 1] < s[k]); } }
// one round of the moving loop
pub proof fn move_done(t0: Trie, t1: Trie, t2: Trie, m: int, nb: int, d: ISet<int>, j: int)
    requires canmove(tv(t0), t0.mapChar, m, nb), moving(tv(t0), tv(t1), m, nb, d), !d.contains(j), tv(t0).c[tv(t0).b[m] + j] == m, t2.tail == t1.tail,
      forall|x: int| #[trigger] tv(t2).b[x] == (if x == tv(t0).b[m] + j { -1 } else if x == nb + j { tv(t1).b[tv(t0).b[m] + j] } else { tv(t1).b[x] }),
      forall|x: int| #[trigger] tv(t2).c[x] == (if x == tv(t0).b[m] + j { -1 } else if x == nb + j { m } else if tv(t1).c[x] == tv(t0).b[m] + j { nb + j } else { tv(t1).c[x] })
    ensures moving(tv(t0), tv(t2), m, nb, d.insert(j)), forall|n: int| n == 0 || isn(tv(t0), n) ==> #[trigger] rho(tv(t0), m, nb, d.insert(j), n) == (if rho(tv(t0), m, nb, d, n) == tv(t0).b[m] + j { nb + j } else { rho(tv(t0), m, nb, d, n) })
{ move_step(tv(t0), tv(t1), tv(t2), t0.mapChar, m, nb, d, j); }

@repeat P=ai C=AutoArray<int,~26> A=AInt T=i32 W=awf V=ib L=value~as~int Q=~as~int K=27 ; P=as C=AutoArray<std::basic_string<char>,~0> A=AStr T=Str W=swf V=tlm L=value@ Q=@ K=1
@fn cuhksz::private_::$C::get as $P_get
@opt this ref
@params p
@requires 0 <= p < this.size_, $W(*this)
@ensures r$Q == $V(*this)[p as int]
@entry
proof { reveal($V); }

@fn cuhksz::private_::$C::getWithCheck as $P_getc
@opt this ref
@params p
@requires 0 <= p, $W(*this)
@ensures r$Q == $V(*this)[p as int]
@entry
proof { reveal($V); }
@ret
assert(ret_v$Q =~= $V(*this)[p as int]);

@fn cuhksz::private_::$C::set as $P_set
@params p value
@requires $W(*old(this)), 0 <= p, p + $K <= i32::MAX
@ensures $W(*final(this)), forall|x: int| #[trigger] $V(*final(this))[x] == (if x == p { $L } else { $V(*old(this))[x] }), p < final(this).size_, final(this).size_ == (if p >= old(this).size_ { p + $K } else { old(this).size_ as int })
@entry
proof { reveal($V); }
@endrepeat

@fn cuhksz::private_::AutoArray<int, 26>::size as ai_size
@opt this ref
@ensures r == this.size_

@fn cuhksz::private_::AutoArray<int, 26>::AutoArray as ai_new
@opt ctorof cuhksz::private_::AutoArray<int, 26>
@params d
@requires d == -1
@ensures awf(r), r.size_ == 26, forall|x: int| #[trigger] ib(r)[x] == -1
@entry
proof { reveal(ib); }

@fn cuhksz::private_::AutoArray<std::basic_string<char>, 0>::AutoArray as as_new
@opt ctorof cuhksz::private_::AutoArray<std::basic_string<char>, 0>
@params d
@requires d@.len() == 0
@ensures swf(r), r.size_ == 0

@fn cuhksz::Trie::StringAdapter::StringAdapter as adp_new
@opt ctorof cuhksz::Trie::StringAdapter
@params s mc
@ensures r.underlying@ == s@, r.mapChar == mc

@fn cuhksz::Trie::StringAdapter::iterator::iterator as it_new sig const std::string *
@opt ctorof cuhksz::Trie::StringAdapter::iterator
@params s mc i
@ensures r.str_ == s, r.mapChar == mc, r.index_ == i

@fn cuhksz::Trie::StringAdapter::begin as adp_begin
@opt this ref
@ensures r.str_.val() == this.underlying@, r.str_.adr() == str_adr(this.underlying), r.index_ == 0, r.mapChar == this.mapChar

@fn cuhksz::Trie::StringAdapter::end as adp_end
@opt this ref
@ensures r.str_.val() == this.underlying@, r.str_.adr() == str_adr(this.underlying), r.index_ == this.underlying@.len(), r.mapChar == this.mapChar

@fn cuhksz::Trie::StringAdapter::iterator::operator* as it_deref
@requires this.index_ < this.str_.val().len(), okc(this.mapChar, this.str_.val()[this.index_ as int])
@ensures r == this.mapChar.ap(this.str_.val()[this.index_ as int])

@fn cuhksz::Trie::StringAdapter::iterator::operator++ as it_next
@opt retunit
@requires old(this).index_ < old(this).str_.val().len() < u64::MAX
@ensures final(this).str_ == old(this).str_, final(this).mapChar == old(this).mapChar, final(this).index_ == old(this).index_ + 1

@fn cuhksz::Trie::StringAdapter::iterator::operator== as it_eq
@params iter
@ensures r == (this.str_.adr() == iter.str_.adr() && this.index_ == iter.index_)

@fn cuhksz::Trie::StringAdapter::iterator::operator!= as it_ne
@params iter
@ensures r == !(this.str_.adr() == iter.str_.adr() && this.index_ == iter.index_)

@fn cuhksz::private_::mapChar as dmap
@params ch
@exit_ok !(ch == 1 || 97 <= ch <= 122)
@ensures ch == 1 || 97 <= ch <= 122, r == (if ch == 1 { 1 } else { ch - 95 })

@fn cuhksz::private_::mapInt as dimap
@params n
@requires 1 <= n <= 27
@ensures r == (if n == 1 { 1 } else { n + 95 })

@fn cuhksz::commonPrefix as common
@attr #[verifier::allow_complex_invariants]
@params a b
@ensures a@ != b@ ==> r@.len() <= a@.len() && r@.len() <= b@.len() && r@ == a@.take(r@.len() as int) && r@ == b@.take(r@.len() as int) && (r@.len() < a@.len() && r@.len() < b@.len() ==> a@[r@.len() as int] != b@[r@.len() as int])
@loop 1
@invariant size == str1.val().len(), str1.val().len() <= str2.val().len(), (str1.val() == a@ && str2.val() == b@) || (str1.val() == b@ && str2.val() == a@)
@invariant_except_break
 !flag, i <= size, forall|k: int| 0 <= k < i ==> #[trigger] str1.val()[k] == str2.val()[k]
@loop_ensures i <= size, forall|k: int| 0 <= k < i ==> #[trigger] str1.val()[k] == str2.val()[k], flag ==> i < size && rtn@ == str1.val().take(i as int) && str1.val()[i as int] != str2.val()[i as int], !flag ==> i == size
@decreases size - i
@ret
let x = str1.val(); let y = str2.val(); if x.len() == y.len() && !flag { assert(x =~= y); } else { assert(ret_v@ =~= x.take(ret_v@.len() as int)); assert(x.take(ret_v@.len() as int) =~= y.take(ret_v@.len() as int)); }

@fn cuhksz::Trie::nextTail as t_next
@requires tlok(*old(this)), old(this).pos < lim()
@ensures tlok(*final(this)), final(this).base == old(this).base, final(this).check == old(this).check, final(this).tail == old(this).tail, rest(*old(this), *final(this)),
  0 <= r < final(this).pos, old(this).pos <= final(this).pos, r == old(this).pos || old(this).tailList@.contains(r), !final(this).tailList@.contains(r), forall|k: i32| final(this).tailList@.contains(k) ==> #[trigger] old(this).tailList@.contains(k),
  r <= old(this).pos, final(this).pos <= old(this).pos + 1
@ret
let a = old(this).tailList@; let b = this.tailList@; if a.len() > 0 { assert(b =~= a.remove(0)); assert forall|k: i32| b.contains(k) implies #[trigger] a.contains(k) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(a[i + 1] == k); } assert(a.contains(a[0])); assert(!b.contains(a[0])) by { if b.contains(a[0]) { let i = choose|i: int| 0 <= i < b.len() && b[i] == a[0]; assert(a[i + 1] == a[0]); } } assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] b[i] < this.pos by { assert(a[i + 1] == b[i]); } }

@fn cuhksz::Trie::checkAvailable as t_avs sig int (const std::vector<int> &)
@opt this ref
@params list
@attr #[verifier::allow_complex_invariants]
@requires shapes(*this), list@.len() <= 0xffff, forall|k: int| 0 <= k < list@.len() ==> 1 <= #[trigger] list@[k] <= 256
@ensures 0 <= r <= this.check.size_, forall|k: int| 0 <= k < list@.len() ==> ib(this.check)[r + #[trigger] list@[k]] == -1
@entry
proof { ib_out(this.check); }
@loop 1
@invariant shapes(*this), 0 <= q <= this.check.size_, size == list@.len() <= 0xffff, forall|k: int| 0 <= k < list@.len() ==> 1 <= #[trigger] list@[k] <= 256
@decreases this.check.size_ - q
@begin
proof { ib_out(this.check); }
@loop 2
@invariant shapes(*this), 0 <= q <= this.check.size_, size == list@.len() <= 0xffff, forall|k: int| 0 <= k < list@.len() ==> 1 <= #[trigger] list@[k] <= 256
@invariant_except_break
 flag, 0 <= i <= size, forall|k: int| 0 <= k < i ==> ib(this.check)[q + #[trigger] list@[k]] == -1
@loop_ensures flag ==> forall|k: int| 0 <= k < list@.len() ==> ib(this.check)[q + #[trigger] list@[k]] == -1, !flag ==> q < this.check.size_
@decreases size - i
@begin
proof { ib_out(this.check); }

@fn cuhksz::Trie::checkAvailable as t_av2 sig int (int, int)
@opt this ref
@params i j
@requires shapes(*this), 1 <= i <= 256, 1 <= j <= 256
@ensures 0 <= r <= this.check.size_, ib(this.check)[r + i] == -1, ib(this.check)[r + j] == -1
@loop 1
@invariant shapes(*this), 0 <= q <= this.check.size_, 1 <= i_0 <= 256, 1 <= j_0 <= 256
@decreases this.check.size_ - q
@begin
proof { ib_out(this.check); }

@fn cuhksz::Trie::checkAvailable as t_av1 sig int (int)
@opt this ref
@params i
@requires shapes(*this), 1 <= i <= 256
@ensures 0 <= r <= this.check.size_, ib(this.check)[r + i] == -1
@loop 1
@invariant shapes(*this), 0 <= q <= this.check.size_, 1 <= i_0 <= 256
@decreases this.check.size_ - q
@begin
proof { ib_out(this.check); }

@fn cuhksz::Trie::outArcs as t_arcs
@opt this ref
@params n
@requires shapes(*this), 0 <= n < this.base.size_, 0 <= ib(this.base)[n as int] <= this.check.size_
@ensures arcs(ib(this.check), ib(this.base)[n as int], n as int, r@)
@loop 1
@invariant shapes(*this), 0 <= n_0, base_n == ib(this.base)[n_0 as int], 0 <= base_n <= this.check.size_, 1 <= i, base_n + i <= this.check.size_ + 1,
 forall|k: int| 0 <= k < rtn@.len() ==> 1 <= #[trigger] rtn@[k] < i && ib(this.check)[base_n + rtn@[k]] == n_0, forall|k: int, l: int| 0 <= k < l < rtn@.len() ==> rtn@[k] < rtn@[l],
 forall|x: int| base_n < x < base_n + i && #[trigger] ib(this.check)[x] == n_0 ==> inseq(rtn@, x - base_n)
@decreases this.check.size_ - i
@begin
let ghost r0 = rtn@;
@bodyend
assert forall|x: int| base_n < x < base_n + i + 1 && #[trigger] ib(this.check)[x] == n_0 implies inseq(rtn@, x - base_n) by { if x < base_n + i { assert(inseq(r0, x - base_n)); let k = choose|k: int| 0 <= k < r0.len() && #[trigger] r0[k] == x - base_n; assert(rtn@[k] == x - base_n); } else { assert(rtn@[rtn@.len() - 1] == i); } }
@ret
ib_out(this.check);

@fn cuhksz::Trie::retrieve as t_retrieve
@opt this ref
@attr #[verifier::allow_complex_invariants]
@params word
@requires inz(*this, -1), ew(this.mapChar, word@), word@.len() < lim()
@ensures r == lang(tv(*this), this.mapChar, -1, word@)
@loop 1
@before
proof { walk0(*this, word@); ew_chars(this.mapChar, word@); }
@invariant inz(*this, -1), ew(this.mapChar, word@), forall|i: int| 0 <= i < word@.len() ==> okc(this.mapChar, #[trigger] word@[i]), word@.len() < lim(), it.str_.val() == word@, it.mapChar == this.mapChar, it_end.str_.adr() == it.str_.adr(), it_end.index_ == word@.len(), 0 <= ind <= word@.len(), walk(*this, word@, ind as int, n as int), n < this.base.size_
@invariant_except_break
 it.index_ == ind, ind < word@.len() ==> tv(*this).b[n as int] >= 0, ind == word@.len() ==> lang(tv(*this), this.mapChar, -1, word@)
@loop_ensures ind == word@.len() ==> lang(tv(*this), this.mapChar, -1, word@), ind < word@.len() ==> tv(*this).b[n as int] <= -2 && lang(tv(*this), this.mapChar, -1, word@) == (word@.skip(ind as int) =~= lw(tv(*this), n as int)) && tused(*this, ti(*this, n as int))
@decreases word@.len() - it.index_
@begin
proof { step(*this, word@, ind as int, n as int); }
@ret
assert(word@.subrange(ind as int, word@.len() as int) =~= word@.skip(ind as int));

@fn cuhksz::Trie::remove_ as t_remove
@params word
@requires inz(*old(this), -1), ew(old(this).mapChar, word@), word@.len() < lim()
@ensures inz(*final(this), -1), rest(*old(this), *final(this)), grow_sz(*old(this), *final(this)), grow_sz(*final(this), *old(this)), final(this).pos == old(this).pos, r == lang(tv(*old(this)), old(this).mapChar, -1, word@),
  forall|w: Seq<i8>| okchars(old(this).mapChar, w) ==> (#[trigger] lang(tv(*final(this)), old(this).mapChar, -1, w) == (w != word@ && lang(tv(*old(this)), old(this).mapChar, -1, w)))
@loop 1
@before
proof { walk0(*this, word@); ew_chars(this.mapChar, word@); }
@invariant *this == *old(this), inz(*this, -1), ew(this.mapChar, word@), forall|i: int| 0 <= i < word@.len() ==> okc(this.mapChar, #[trigger] word@[i]), word@.len() < lim(), it.str_.val() == word@, it.mapChar == this.mapChar, it_end.str_.adr() == it.str_.adr(), it_end.index_ == word@.len(), 0 <= ind <= word@.len(), walk(*this, word@, ind as int, n as int), n < this.base.size_,
 it.index_ == ind, ind < word@.len() ==> tv(*this).b[n as int] >= 0, ind == word@.len() ==> n > 0 && n < this.check.size_ && tv(*this).b[n as int] == -1 && lang(tv(*this), this.mapChar, -1, word@) && word@.skip(ind as int) =~= lw(tv(*this), n as int)
@decreases word@.len() - it.index_
@begin
proof { step(*this, word@, ind as int, n as int); }
@ret
assert(ind <= word@.len() ==> word@.subrange(ind as int, word@.len() as int) =~= word@.skip(ind as int));
if ret_v { take_out(*old(this), *this, word@, ind as int, n as int); }
else { assert forall|w: Seq<i8>| okchars(old(this).mapChar, w) implies (#[trigger] lang(tv(*this), old(this).mapChar, -1, w) == (w != word@ && lang(tv(*old(this)), old(this).mapChar, -1, w))) by { assert(*this == *old(this)); } }

@fn cuhksz::Trie::contain as contain
@opt this ref
@params s
@requires inv(*this), okw(this.mapChar, s@), s@.len() + 1 < lim()
@ensures r == has(*this, s@)
@entry
proof { ew_push(this.mapChar, s@); add_end(s@); }

@fn cuhksz::Trie::remove as remove
@params s
@requires inv(*old(this)), okw(old(this).mapChar, s@), s@.len() + 1 < lim()
@ensures inv(*final(this)), final(this).mapChar == old(this).mapChar, sz(*final(this)) == sz(*old(this)), final(this).size_ == old(this).size_ - (if has(*old(this), s@) { 1int } else { 0 }), forall|w: Seq<i8>| okw(old(this).mapChar, w) ==> #[trigger] has(*final(this), w) == (w != s@ && has(*old(this), w))
@entry
proof { ew_push(this.mapChar, s@); add_end(s@); counted(*this); }
@ret
let f = old(this).mapChar;
assert forall|w: Seq<i8>| okw(f, w) implies #[trigger] has(*this, w) == (w != s@ && has(*old(this), w)) by { ew_push(f, w); assert(w.push(1i8).drop_last() =~= w); assert(s@.push(1i8).drop_last() =~= s@); }
let S = choose|S: Set<Seq<i8>>| #[trigger] counts(*old(this), S); assert(S.remove(s@).len() == S.len() - (if S.contains(s@) { 1int } else { 0 })); assert(S.contains(s@) == has(*old(this), s@)); assert(counts(*this, S.remove(s@)));

@fn cuhksz::Trie::size as size
@opt this ref
@requires inv(*this)
@ensures exists|S: Set<Seq<i8>>| #[trigger] S.len() == r && forall|s: Seq<i8>| #[trigger] S.contains(s) <==> okw(this.mapChar, s) && has(*this, s)
@ret
let S = choose|S: Set<Seq<i8>>| #[trigger] counts(*this, S); assert(S.len() == ret_v);

@fn cuhksz::Trie::Trie as t_new sig void (int (*)(char), char (*)(int))
@opt ctorof cuhksz::Trie
@params mc mi
@requires alph(mc)
@ensures inv(r), r.mapChar == mc, r.mapInt == mi, r.size_ == 0, forall|s: Seq<i8>| !#[trigger] has(r, s)
@ret
assert forall|v: Seq<i8>| !#[trigger] lang(tv(this_), mc, -1, v) by { assert forall|k: int| 0 <= k <= v.len() implies !#[trigger] mtch(tv(this_), mc, -1, v, k) by { path_pos(tv(this_), mc, -1, v.take(k)); } }
assert(counts(this_, Set::<Seq<i8>>::empty()));

@fn cuhksz::Trie::setTail as t_settail
@params n next rs
@requires shapes(*old(this)), tlok(*old(this)), old(this).pos < lim(), 0 <= next, sz(*old(this)) + 300 <= lim(), next <= old(this).check.size_ + 256
@ensures addl(*old(this), *final(this), n as int, next as int, rs@), ti(*final(this), next as int) != -1, final(this).pos <= old(this).pos + 1, sz(*final(this)) <= sz(*old(this)) + 300

@fn cuhksz::Trie::insert_ as t_insert
@opt isolate
@attr #[verifier::rlimit(120)] #[verifier::spinoff_prover]
@params word
@requires inz(*old(this), -1), ew(old(this).mapChar, word@), room(*old(this), word@.len() as int), !lang(tv(*old(this)), old(this).mapChar, -1, word@)
@ensures post(*old(this), *final(this), word@)
@entry
hide(canmove); hide(moving); hide(wfo); hide(lang); hide(path); hide(nodes_in); hide(tlq); hide(mine); hide(wrap_u64); hide(wrap_i32); hide(okchars); hide(ew); let ghost t0 = *this; let ghost T0 = tv(*this); let ghost f = this.mapChar; let ghost W = word@; let ghost mut gt = *this; let ghost mut u0 = Seq::<i8>::empty(); let ghost mut u1 = Seq::<i8>::empty(); let ghost mut z0: int = 0;
@loop 1
@before
proof { wf0(t0, -1); walk0(*this, word@); ew_chars(this.mapChar, word@); }
@invariant inz(t0, -1), alph(f), T0 == tv(t0), f == t0.mapChar, W == word@, t0 == *old(this), ew(f, W), okchars(f, W), forall|i: int| 0 <= i < W.len() ==> okc(f, #[trigger] W[i]), room(t0, W.len() as int), !lang(T0, f, -1, W), it.str_.val() == W, it.mapChar == f, it_end.str_.adr() == it.str_.adr(), it_end.index_ == W.len()
@invariant_except_break
 *this == t0, it.index_ == ind, 0 <= ind < W.len(), walk(t0, W, ind as int, n as int), n < t0.base.size_, T0.b[n as int] >= 0
@loop_ensures post(t0, *this, W)
@decreases W.len() - it.index_
@begin
proof { w_split(f, W, ind as int); step(*this, word@, ind as int, n as int); node_in(t0, -1, n as int); ib_out(t0.check); assert(W.take(ind + 1) =~= W.take(ind as int).push(W[ind as int])); }
let ghost rw = W.skip(ind + 1); let ghost ch = W[ind as int]; let ghost uu = W.take(ind as int); let ghost n0 = n as int;
@aftercall t_settail 1
add_leaf(t0, *this, uu, ch, n0, next as int, rw);
@beforecall common 1
u0 = W.take(ind as int); z0 = next as int; ok_take(f, W, ind as int); lang_leaf(T0, f, -1, W, ind as int); assert(arc(T0, z0) != 1); open_z(t0, z0, u0); ew_skip(f, W, ind as int); assert(W.subrange(ind as int, W.len() as int) =~= W.skip(ind as int)); assert(tail_temp@ == lw(T0, z0)); assert(W.skip(ind as int) != tail_temp@); assert(ew(f, tail_temp@));
@loop 2
@before
proof { assert(ind < W.len()); pref(f, W.skip(ind as int), tail_temp@, prefix@.len() as int); assert forall|i: int| 0 <= i < prefix@.len() implies okc(f, #[trigger] prefix@[i]) && prefix@[i] != 1i8 by { assert(prefix@[i] == W.skip(ind as int)[i]); } assert(u0 + prefix@.take(0) =~= u0);
 assert(mine(*this, z0, temp as int)); }
@invariant f == t0.mapChar, alph(f), room(t0, W.len() as int), prefix@.len() <= W.len(), okchars(f, u0), forall|i: int| 0 <= i < prefix@.len() ==> okc(f, #[trigger] prefix@[i]) && prefix@[i] != 1i8,
 it_2.str_.val() == prefix@, it_2.mapChar == f, it_end_2.str_.adr() == it_2.str_.adr(), it_end_2.index_ == prefix@.len(), it_2.index_ <= prefix@.len(),
 rest(t0, *this), same_tails(t0, *this), grow_sz(t0, *this), inz(*this, next as int), next > 0, path(tv(*this), f, u0 + prefix@.take(it_2.index_ as int)) == next, arc(tv(*this), next as int) != 1, mine(*this, next as int, temp as int), sz(*this) <= sz(t0) + 300 * it_2.index_,
 forall|v: Seq<i8>| okchars(f, v) ==> (#[trigger] lang(tv(*this), f, next as int, v) == lang(tv(t0), f, z0, v))
@decreases prefix@.len() - it_2.index_
@begin
let ghost t1 = *this; let ghost n1 = next as int; let ghost k1 = it_2.index_ as int;
proof { ib_out(this.check); path_pos(tv(*this), f, next as int, u0 + prefix@.take(k1)); assert(isn(tv(*this), next as int)); assert(alph(f)); assert(okc(f, prefix@[k1])); assert(1 <= code(f, prefix@[k1]) <= 256); }
@bodyend
let u = u0 + prefix@.take(k1); assert forall|i: int| 0 <= i < prefix@.take(k1).len() implies okc(f, #[trigger] prefix@.take(k1)[i]) by { assert(prefix@.take(k1)[i] == prefix@[i]); } ok_cat(f, u0, prefix@.take(k1)); assert(u.push(prefix@[k1]) =~= u0 + prefix@.take(k1 + 1)); ext_step(t1, *this, n1, u, prefix@[k1], next as int, temp as int);
@after
proof { u1 = u0 + prefix@; assert(prefix@.take(prefix@.len() as int) =~= prefix@); ok_cat(f, u0, prefix@);
 assert(W.skip(ind as int)[prefix@.len() as int] == W[ind + prefix@.len()]); assert(1 <= code(f, tail_temp@[prefix@.len() as int]) <= 256); assert(1 <= code(f, W[ind + prefix@.len()]) <= 256); path_pos(tv(*this), f, next as int, u1); assert(isn(tv(*this), next as int)); ib_out(this.check); gt = *this; }
@aftercall as_set 1
let l = prefix@.len() as int; let rs = tail_temp@.skip(l + 1); assert(tail_temp@[l] != 1i8); assert(tail_temp@.subrange(l + 1, tail_temp@.len() as int) =~= rs); assert(tlm(this.tail)[temp as int] == rs); assert(this.tail.size_ == gt.tail.size_); assert(this.tailList == gt.tailList); assert(rest(gt, *this) && this.pos == gt.pos);
assert forall|x: int| x != temp implies #[trigger] tlm(this.tail)[x] == tlm(gt.tail)[x] by {}
@aftercall ai_set 6
let l = prefix@.len() as int; let ct = tail_temp@[l]; let rs = tail_temp@.skip(l + 1); assert(tail_temp@.subrange(l + 1, tail_temp@.len() as int) =~= rs);
assert(gt.tailList@ == t0.tailList@ && gt.tail == t0.tail); if ct == 1i8 { assert(this.tail == gt.tail); assert(this.tailList@ =~= gt.tailList@.push(temp)); assert(tv(*this).b[q + char_val_tail] == -1); } else { assert(l + 1 < tail_temp@.len()); assert(ew(f, rs)); assert(this.tailList == gt.tailList); assert(this.tail.size_ == gt.tail.size_); assert(tv(*this).b[q + char_val_tail] == -temp - 2); assert forall|x: int| #[trigger] tlm(this.tail)[x] == (if x == temp { rs } else { tlm(gt.tail)[x] }) by {} }
split_leaf(gt, *this, next as int, u1, ct, q + char_val_tail, temp as int, if ct == 1i8 { Seq::empty() } else { rs }); gt = *this;
@aftercall ai_set 9
let l = prefix@.len() as int; let cn = W[ind + l]; let rs = if cn == 1i8 { Seq::<i8>::empty() } else { W.skip(ind + l + 1) }; assert(W.subrange(ind + l + 1, W.len() as int) =~= W.skip(ind + l + 1)); assert(W.skip(ind as int).skip(l + 1) =~= W.skip(ind + l + 1));
let y = q + char_val_new; let nn = next as int;
assert(addl(gt, *this, nn, y, rs)) by { assert(shapes(*this)); assert(tlok(*this)); assert(rest(gt, *this) && grow_sz(gt, *this) && y < this.base.size_);
assert forall|x: int| #[trigger] tv(*this).c[x] == (if x == y { nn } else { tv(gt).c[x] }) by {}
assert forall|x: int| x != y implies #[trigger] tv(*this).b[x] == tv(gt).b[x] by {}
if cn == 1i8 { assert(this.tail == gt.tail); assert(ti(*this, y) == -1); } else { let p = ti(*this, y); assert(p >= 0); assert(tused(*this, p)); assert(p == gt.pos || gt.tailList@.contains(p as i32)); assert forall|x: int| #[trigger] tlm(this.tail)[x] == (if x == p { rs } else { tlm(gt.tail)[x] }) by {} } }
assert(ti(*this, y) == -1 ==> cn == 1i8);
add_leaf(gt, *this, u1, cn, nn, y, rs);
assert(W =~= u1.push(cn) + rs) by { assert(W =~= u0 + W.skip(ind as int)); assert(W.skip(ind as int) =~= prefix@.push(cn) + rs) by { assert(W.skip(ind as int) =~= W.skip(ind as int).take(l).push(cn) + W.skip(ind as int).skip(l + 1)); } }
let ct = tail_temp@[l]; let rt = if ct == 1i8 { Seq::<i8>::empty() } else { tail_temp@.skip(l + 1) }; assert(u0 + tail_temp@ =~= u1.push(ct) + rt) by { assert(tail_temp@ =~= tail_temp@.take(l).push(ct) + tail_temp@.skip(l + 1)); }
@aftercall t_arcs 1
arcs_le(t0, n0, list_n@); assert(isn(T0, next as int)); nd(t0, -1, next as int); assert(nodeok(T0, f, -1, next as int)); let pc = T0.c[next as int]; node_in(t0, -1, pc);
@aftercall t_arcs 2
arcs_le(t0, T0.c[next as int], list_check@);
@beforecall t_avs 1
assert(modify_list@ =~= list_n@.push(i));
@aftercall t_avs 1
assert forall|k: int| 0 <= k < list_n@.len() implies T0.c[new_base + #[trigger] list_n@[k]] == -1 by { assert(modify_list@[k] == list_n@[k]); } assert(modify_list@[list_n@.len() as int] == i);
@loop 3
@before
let ghost m = node_modify as int; let ghost nb = new_base as int; let ghost ml = modify_list@;
proof { if m == n0 { assert(ml =~= list_n@); } else { assert(ml =~= list_check@); } can(t0, m, nb, ml); assert(ml.take(0) =~= Seq::<i32>::empty()); moving0(T0, tv(*this), f, m, nb, dset(ml, 0)); }
@invariant inz(t0, -1), T0 == tv(t0), f == t0.mapChar, room(t0, 0), m == node_modify, nb == new_base, ml == modify_list@, temp_base == T0.b[m], 0 <= nb <= t0.check.size_, 0 <= temp_base <= t0.check.size_, canmove(T0, f, m, nb), arcs(T0.c, T0.b[m], m, ml), forall|k: int| 0 <= k < ml.len() ==> 1 <= #[trigger] ml[k] <= 256,
 it_2 <= ml.len(), moving(T0, tv(*this), m, nb, dset(ml, it_2 as int)), rest(t0, *this), same_tails(t0, *this), grow_sz(t0, *this), shapes(*this), sz(*this) <= sz(t0) + 283, n0 == 0 || isn(T0, n0), node_other == rho(T0, m, nb, dset(ml, it_2 as int), n0), forall|k: int| 0 <= k < it_2 ==> nb + #[trigger] ml[k] < this.base.size_
@decreases ml.len() - it_2
@begin
let ghost t3 = *this; let ghost i3 = it_2 as int; let ghost d3 = dset(ml, it_2 as int);
proof { assert(!d3.contains(j as int)) by { if inseq(ml.take(i3), j as int) { let k = choose|k: int| 0 <= k < i3 && #[trigger] ml.take(i3)[k] == j; assert(ml[k] < ml[i3]); } } assert(T0.c[T0.b[m] + ml[i3]] == m); move_facts(T0, tv(*this), f, m, nb, d3, j as int); assert(isn(T0, temp_base + j)); node_in(t0, -1, temp_base + j); ib_out(this.check); ib_out(t0.check); }
@bodyend
move_done(t0, t3, *this, m, nb, d3, j as int); dset_step(ml, i3);
@after
proof { assert(okchars(f, uu)); moved_out(t0, *this, m, nb, ml, n0, i as int, uu); gt = *this; }
@loop 4
@before
let ghost t4 = *this; let ghost bo = tv(t4).b[node_old as int]; proof { ib_out(this.check); assert(list@.take(0) =~= Seq::<i32>::empty()); }
@invariant shapes(*this), rest(t4, *this), same_tails(t4, *this), this.base == t4.base, this.check.size_ == t4.check.size_, 0 <= node_old < t4.base.size_, bo == ib(t4.base)[node_old as int], 0 <= bo <= t4.check.size_, arcs(ib(t4.check), bo, node_old as int, list@), it_2 <= list@.len(), node_old >= 0, forall|x: int| x < 0 || x >= t4.check.size_ ==> #[trigger] ib(t4.check)[x] == -1,
 forall|x: int| #[trigger] ib(this.check)[x] == (if inseq(list@.take(it_2 as int), x - bo) { node_new as int } else { ib(t4.check)[x] })
@decreases list@.len() - it_2
@begin
proof { assert(ib(t4.check)[bo + list@[it_2 as int]] == node_old); dset_step(list@, it_2 as int); }
@bodyend
assert forall|x: int| #[trigger] ib(this.check)[x] == (if inseq(list@.take(it_2 + 1), x - bo) { node_new as int } else { ib(t4.check)[x] }) by { assert(dset(list@, it_2 + 1).contains(x - bo) == dset(list@, it_2 as int).insert(list@[it_2 as int] as int).contains(x - bo)); }
@after
proof { assert(list@.take(list@.len() as int) =~= list@); }
@aftercall ai_set 18
let y = temp_node as int; let nn = node_other as int;
assert(addl(gt, *this, nn, y, rw)) by { assert(shapes(*this)); assert(tlok(*this)); assert(rest(gt, *this) && grow_sz(gt, *this) && y < this.base.size_);
assert forall|x: int| #[trigger] tv(*this).c[x] == (if x == y { nn } else { tv(gt).c[x] }) by {}
assert forall|x: int| x != y implies #[trigger] tv(*this).b[x] == tv(gt).b[x] by {}
if ch == 1i8 { assert(this.tail == gt.tail); assert(ti(*this, y) == -1); } else { let p = ti(*this, y); assert(p >= 0); assert(tused(*this, p)); assert(p == gt.pos || gt.tailList@.contains(p as i32)); assert forall|x: int| #[trigger] tlm(this.tail)[x] == (if x == p { rw } else { tlm(gt.tail)[x] }) by {} } }
assert(ti(*this, y) == -1 ==> ch == 1i8);
add_leaf(gt, *this, uu, ch, nn, y, rw);

@fn cuhksz::Trie::insert as insert
@params s
@requires inv(*old(this)), okw(old(this).mapChar, s@), room(*old(this), (s@.len() + 1) as int)
@ensures inv(*final(this)), final(this).mapChar == old(this).mapChar, sz(*final(this)) <= sz(*old(this)) + 300 * (s@.len() + 5), final(this).pos <= old(this).pos + 1, final(this).size_ == old(this).size_ + (if has(*old(this), s@) { 0int } else { 1 }), forall|w: Seq<i8>| okw(old(this).mapChar, w) ==> #[trigger] has(*final(this), w) == (w == s@ || has(*old(this), w))
@entry
proof { ew_push(this.mapChar, s@); add_end(s@); counted(*this); }
@ret
let f = old(this).mapChar;
assert forall|w: Seq<i8>| okw(f, w) implies #[trigger] has(*this, w) == (w == s@ || has(*old(this), w)) by { ew_push(f, w); assert(w.push(1i8).drop_last() =~= w); assert(s@.push(1i8).drop_last() =~= s@); }
let S = choose|S: Set<Seq<i8>>| #[trigger] counts(*old(this), S); assert(S.contains(s@) == has(*old(this), s@)); assert(counts(*this, S.insert(s@)));

// ---------------------------------------------------------------- iteration
@prelude
// the node that a sequence of codes leads to
pub open spec fn ndp(t: Tr, s: Seq<i32>) -> int decreases s.len() { if s.len() == 0 { 0 } else { let y = ndp(t, s.drop_last()); if y < 0 { -1 } else { let x = t.b[y] + s.last(); if t.c[x] == y { x } else { -1 } } } }
pub open spec fn leafp(t: Tr, s: Seq<i32>) -> bool { s.len() > 0 && ndp(t, s) >= 1 && t.b[ndp(t, s)] < 0 }
// s comes after q and all its continuations; s comes at or after the position (q, o)
pub open spec fn gtat(q: Seq<i32>, s: Seq<i32>, i: int) -> bool { 0 <= i < q.len() && i < s.len() && s[i] > q[i] && q.take(i) == s.take(i) }
pub open spec fn gt(q: Seq<i32>, s: Seq<i32>) -> bool { exists|i: int| #[trigger] gtat(q, s, i) }
pub open spec fn ext(q: Seq<i32>, s: Seq<i32>) -> bool { q.len() < s.len() && s.take(q.len() as int) == q }
pub open spec fn geq(q: Seq<i32>, o: int, s: Seq<i32>) -> bool { gt(q, s) || ext(q, s) && s[q.len() as int] >= o }
pub proof fn gt_push(q: Seq<i32>, o: i32, s: Seq<i32>) ensures gt(q.push(o), s) == geq(q, o + 1, s)
{
    let p = q.push(o);
    if gt(p, s) { let i = choose|i: int| #[trigger] gtat(p, s, i); assert(p.take(i) =~= q.take(i)); if i < q.len() { assert(gtat(q, s, i)); } else { assert(q.take(i) =~= q); } }
    if gt(q, s) { let i = choose|i: int| #[trigger] gtat(q, s, i); assert(p.take(i) =~= q.take(i)); assert(gtat(p, s, i)); }
    else if ext(q, s) && s[q.len() as int] >= o + 1 { assert(p.take(q.len() as int) =~= q); assert(gtat(p, s, q.len() as int)); }
}
pub proof fn ext_push(q: Seq<i32>, o: i32, s: Seq<i32>) ensures ext(q, s) && s[q.len() as int] == o ==> s == q.push(o) || ext(q.push(o), s), ext(q.push(o), s) ==> ext(q, s) && s[q.len() as int] == o
{
    let p = q.push(o);
    if ext(q, s) && s[q.len() as int] == o { assert(s.take(p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < q.len() implies s[i] == q[i] by { assert(s.take(q.len() as int)[i] == s[i]); } } if s.len() == p.len() { assert(s.take(p.len() as int) =~= s); } }
    if ext(p, s) { assert forall|i: int| 0 <= i < p.len() implies s[i] == p[i] by { assert(s.take(p.len() as int)[i] == s[i]); } assert(s.take(q.len() as int) =~= q); }
}
pub proof fn nd_push(t: Tr, q: Seq<i32>, o: i32) ensures ndp(t, q.push(o)) == (if ndp(t, q) < 0 { -1 } else if t.c[t.b[ndp(t, q)] + o] == ndp(t, q) { t.b[ndp(t, q)] + o } else { -1 }) { assert(q.push(o).drop_last() =~= q); }
pub proof fn nd_pos(t: Tr, f: MC, s: Seq<i32>) requires wfo(t, f, -1), ndp(t, s) >= 0
    ensures s.len() > 0 ==> ndp(t, s) >= 1 && isn(t, ndp(t, s)) && ndp(t, s.drop_last()) >= 0 && t.c[ndp(t, s)] == ndp(t, s.drop_last()) && t.b[ndp(t, s.drop_last())] >= 0 && 1 <= s.last() <= 256
{ if s.len() > 0 { let x = ndp(t, s); assert(isn(t, x)); assert(nodeok(t, f, -1, x)); } }
pub proof fn nd_take(t: Tr, f: MC, s: Seq<i32>, k: int) requires wfo(t, f, -1), ndp(t, s) >= 0, 0 <= k <= s.len()
    ensures ndp(t, s.take(k)) >= 0, k < s.len() ==> t.b[ndp(t, s.take(k))] >= 0 && t.c[t.b[ndp(t, s.take(k))] + s[k]] == ndp(t, s.take(k)) && 1 <= s[k] <= 256 decreases s.len()
{
    nd_pos(t, f, s);
    if k == s.len() { assert(s.take(k) =~= s); }
    else { let d = s.drop_last(); if k < d.len() { nd_take(t, f, d, k); assert(d.take(k) =~= s.take(k)); } else { assert(s.take(k) =~= d); } }
}
// what a leaf beyond the node n = ndp(q) says about the arcs of n
pub open spec fn nodep(t: Tr, s: Seq<i32>) -> bool { s.len() > 0 && ndp(t, s) >= 1 }
pub proof fn leaf_arc(t: Tr, f: MC, q: Seq<i32>, s: Seq<i32>) requires wfo(t, f, -1), nodep(t, s), ext(q, s)
    ensures ndp(t, q) >= 0, t.b[ndp(t, q)] >= 0, t.c[t.b[ndp(t, q)] + s[q.len() as int]] == ndp(t, q), 1 <= s[q.len() as int] <= 256
{ nd_take(t, f, s, q.len() as int); }
// no arc of the node of q carries a code from a on and below b
pub open spec fn noarc(t: Tr, q: Seq<i32>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> #[trigger] t.c[t.b[ndp(t, q)] + k] != ndp(t, q) }
pub open spec fn vok(t: Tr, n: int, o: int, q: Seq<i32>) -> bool { n == ndp(t, q) && n >= 0 && t.b[n] >= 0 && 1 <= o <= 257 }
// the first leaf at or after (q, o) is s, and (q2, o2) is the position after it
pub open spec fn found(t: Tr, q: Seq<i32>, o: int, s: Seq<i32>, q2: Seq<i32>, o2: int) -> bool { leafp(t, s) && geq(q, o, s) && !geq(q2, o2, s) && forall|u: Seq<i32>| #[trigger] leafp(t, u) && u != s ==> (geq(q, o, u) <==> geq(q2, o2, u)) }
pub open spec fn markof(t: Tr, s: Seq<i32>, m: int) -> bool { m == (if s.last() == 1 { -1 } else { t.b[ndp(t, s)] }) && m < 0 }
pub open spec fn sameleaves(t: Tr, q: Seq<i32>, o: int, q2: Seq<i32>, o2: int) -> bool { forall|u: Seq<i32>| #[trigger] leafp(t, u) ==> (geq(q, o, u) <==> geq(q2, o2, u)) }
pub proof fn vleaf(t: Tr, f: MC, q: Seq<i32>, o: int, k: i32) requires wfo(t, f, -1), vok(t, ndp(t, q), o, q), o <= k, noarc(t, q, o, k as int), t.c[t.b[ndp(t, q)] + k] == ndp(t, q), t.b[t.b[ndp(t, q)] + k] < 0
    ensures found(t, q, o, q.push(k), q, k + 1)
{
    let s = q.push(k); nd_push(t, q, k); let x = t.b[ndp(t, q)] + k; assert(isn(t, x)); assert(nodeok(t, f, -1, x));
    assert(s.take(q.len() as int) =~= q); assert(ext(q, s));
    assert(!gt(q, s)) by { if gt(q, s) { let i = choose|i: int| #[trigger] gtat(q, s, i); assert(s[i] == q[i]); } }
    assert forall|u: Seq<i32>| #[trigger] leafp(t, u) && u != s implies (geq(q, o, u) <==> geq(q, k + 1, u)) by {
        if ext(q, u) { leaf_arc(t, f, q, u); let c = u[q.len() as int] as int; assert(t.c[t.b[ndp(t, q)] + c] == ndp(t, q)); if c == k { ext_push(q, k, u); leaf_arc(t, f, s, u); } }
    }
}
pub proof fn vdown(t: Tr, f: MC, q: Seq<i32>, o: int, k: i32) requires wfo(t, f, -1), vok(t, ndp(t, q), o, q), o <= k, noarc(t, q, o, k as int), t.c[t.b[ndp(t, q)] + k] == ndp(t, q), t.b[t.b[ndp(t, q)] + k] >= 0
    ensures sameleaves(t, q, o, q.push(k), 1), vok(t, t.b[ndp(t, q)] + k, 1, q.push(k))
{
    let s = q.push(k); nd_push(t, q, k); let x = t.b[ndp(t, q)] + k; assert(isn(t, x)); assert(nodeok(t, f, -1, x));
    assert forall|u: Seq<i32>| #[trigger] leafp(t, u) implies (geq(q, o, u) <==> geq(s, 1, u)) by {
        gt_push(q, k, u); ext_push(q, k, u);
        if ext(s, u) { leaf_arc(t, f, s, u); }
        if ext(q, u) { leaf_arc(t, f, q, u); let c = u[q.len() as int] as int; assert(t.c[t.b[ndp(t, q)] + c] == ndp(t, q)); }
    }
}
pub proof fn vup(t: Tr, f: MC, q: Seq<i32>, o: int) requires wfo(t, f, -1), vok(t, ndp(t, q), o, q), q.len() > 0, forall|k: int| k >= o ==> #[trigger] t.c[t.b[ndp(t, q)] + k] != ndp(t, q)
    ensures sameleaves(t, q, o, q.drop_last(), q.last() + 1), vok(t, t.c[ndp(t, q)], q.last() + 1, q.drop_last())
{
    let p = q.drop_last(); let k = q.last(); assert(p.push(k) =~= q); nd_pos(t, f, q);
    assert forall|u: Seq<i32>| #[trigger] leafp(t, u) implies (geq(q, o, u) <==> geq(p, k + 1, u)) by {
        gt_push(p, k, u);
        if ext(q, u) { leaf_arc(t, f, q, u); let c = u[q.len() as int] as int; assert(t.c[t.b[ndp(t, q)] + c] == ndp(t, q)); }
    }
}
pub proof fn vnone(t: Tr, f: MC, o: int) requires wfo(t, f, -1), o >= 1, forall|k: int| k >= o ==> #[trigger] t.c[t.b[0] + k] != 0
    ensures forall|u: Seq<i32>| #[trigger] leafp(t, u) ==> !geq(Seq::<i32>::empty(), o, u)
{
    let q = Seq::<i32>::empty();
    assert forall|u: Seq<i32>| #[trigger] leafp(t, u) implies !geq(q, o, u) by { if ext(q, u) { leaf_arc(t, f, q, u); let c = u[0] as int; assert(t.c[t.b[0] + c] == 0); } }
}
// termination: the nodes at or after the position
pub open spec fn nodeat(t: Tr, q: Seq<i32>, o: int, x: int, u: Seq<i32>) -> bool { nodep(t, u) && ndp(t, u) == x && geq(q, o, u) }
pub open spec fn rs(t: Tr, m: int, q: Seq<i32>, o: int) -> Set<int> { vstd::set_lib::set_int_range(1, m).filter(|x: int| exists|u: Seq<i32>| #[trigger] nodeat(t, q, o, x, u)) }
pub proof fn nd_inj(t: Tr, f: MC, u: Seq<i32>, w: Seq<i32>) requires wfo(t, f, -1), ndp(t, u) >= 0, ndp(t, u) == ndp(t, w) ensures u == w decreases u.len()
{
    nd_pos(t, f, u); nd_pos(t, f, w);
    if u.len() > 0 && w.len() > 0 { nd_inj(t, f, u.drop_last(), w.drop_last()); assert(u.last() == w.last()); assert(u =~= u.drop_last().push(u.last())); assert(w =~= w.drop_last().push(w.last())); }
    else { assert(u.len() == 0 && w.len() == 0); assert(u =~= w); }
}
pub proof fn rs_down(t: Tr, f: MC, m: int, q: Seq<i32>, o: int, k: i32) requires wfo(t, f, -1), vok(t, ndp(t, q), o, q), o <= k, noarc(t, q, o, k as int), t.c[t.b[ndp(t, q)] + k] == ndp(t, q), t.b[ndp(t, q)] + k < m
    ensures rs(t, m, q.push(k), 1).len() < rs(t, m, q, o).len()
{
    let s = q.push(k); nd_push(t, q, k); let x = t.b[ndp(t, q)] + k; assert(isn(t, x)); assert(nodeok(t, f, -1, x));
    let a = rs(t, m, s, 1); let b = rs(t, m, q, o);
    assert(s.take(q.len() as int) =~= q); assert(ext(q, s)); assert(geq(q, o, s)); assert(nodeat(t, q, o, x, s)); assert(b.contains(x));
    assert forall|y: int| a.contains(y) implies b.contains(y) && y != x by {
        let u = choose|u: Seq<i32>| #[trigger] nodeat(t, s, 1, y, u);
        gt_push(q, k, u); ext_push(q, k, u);
        assert(geq(q, o, u)); assert(nodeat(t, q, o, y, u));
        if y == x { nd_inj(t, f, u, s); assert(!gt(s, s)) by { if gt(s, s) { let i = choose|i: int| #[trigger] gtat(s, s, i); } } }
    }
    assert(a.subset_of(b.remove(x))); vstd::set_lib::lemma_len_subset(a, b.remove(x));
}
pub proof fn rs_up(t: Tr, f: MC, m: int, q: Seq<i32>, o: int) requires wfo(t, f, -1), vok(t, ndp(t, q), o, q), q.len() > 0, forall|k: int| k >= o ==> #[trigger] t.c[t.b[ndp(t, q)] + k] != ndp(t, q)
    ensures rs(t, m, q.drop_last(), q.last() + 1) == rs(t, m, q, o)
{
    let p = q.drop_last(); let k = q.last(); assert(p.push(k) =~= q); nd_pos(t, f, q);
    assert forall|u: Seq<i32>, x: int| #[trigger] nodeat(t, q, o, x, u) == nodeat(t, p, k + 1, x, u) by {
        gt_push(p, k, u);
        if nodep(t, u) && ext(q, u) { leaf_arc(t, f, q, u); let c = u[q.len() as int] as int; assert(t.c[t.b[ndp(t, q)] + c] == ndp(t, q)); }
    }
    assert forall|x: int| rs(t, m, q, o).contains(x) implies rs(t, m, p, k + 1).contains(x) by { let u = choose|u: Seq<i32>| #[trigger] nodeat(t, q, o, x, u); assert(nodeat(t, p, k + 1, x, u)); }
    assert forall|x: int| rs(t, m, p, k + 1).contains(x) implies rs(t, m, q, o).contains(x) by { let u = choose|u: Seq<i32>| #[trigger] nodeat(t, p, k + 1, x, u); assert(nodeat(t, q, o, x, u)); }
    assert(rs(t, m, p, k + 1) =~= rs(t, m, q, o));
}

@fn cuhksz::Trie::visit as t_visit
@opt this ref
@opt outptr
@params n offset buffer
@requires inz(*this, -1), vok(tv(*this), *old(n) as int, *old(offset) as int, old(buffer)@)
@ensures
r ==> final(buffer)@.len() >= 2 && found(tv(*this), old(buffer)@, *old(offset) as int, final(buffer)@.drop_last(), final(buffer)@.drop_last().drop_last(), *final(offset) as int) && markof(tv(*this), final(buffer)@.drop_last(), final(buffer)@.last() as int) && vok(tv(*this), *final(n) as int, *final(offset) as int, final(buffer)@.drop_last().drop_last()),
!r ==> forall|u: Seq<i32>| #[trigger] leafp(tv(*this), u) ==> !geq(old(buffer)@, *old(offset) as int, u)
@decreases rs(tv(*this), this.base.size_ as int, old(buffer)@, *old(offset) as int).len(), old(buffer)@.len()
@entry
let ghost T = tv(*this); let ghost q0 = buffer@; let ghost o0 = *offset as int; let ghost n0 = *n as int;
proof { ib_out(this.check); ib_out(this.base); if q0.len() > 0 { nd_pos(T, this.mapChar, q0); assert(isn(T, n0)); } }
@loop 1
@invariant inz(*this, -1), T == tv(*this), vok(T, n0, o0, q0), buffer@ == q0, *n == n0, o0 <= *offset, noarc(T, q0, o0, *offset as int), T.b[n0] <= this.check.size_, *offset <= 257 || T.b[n0] + *offset <= this.check.size_
@decreases this.check.size_ - *offset
@begin
proof { let k = *offset; if T.c[T.b[n0] + k] == n0 { assert(isn(T, T.b[n0] + k)); assert(nodeok(T, this.mapChar, -1, T.b[n0] + k)); if T.b[T.b[n0] + k] < 0 { vleaf(T, this.mapChar, q0, o0, k); } else { vdown(T, this.mapChar, q0, o0, k); rs_down(T, this.mapChar, this.base.size_ as int, q0, o0, k); } } }
@after
proof { ib_out(this.check); assert forall|k: int| k >= o0 implies #[trigger] T.c[T.b[n0] + k] != n0 by { if k >= *offset { } } if q0.len() == 0 { assert(q0 =~= Seq::<i32>::empty()); vnone(T, this.mapChar, o0); } else { vup(T, this.mapChar, q0, o0); rs_up(T, this.mapChar, this.base.size_ as int, q0, o0); } }
@ret
if buffer@.len() >= 2 && buffer@.len() == q0.len() + 2 { let k = buffer@[q0.len() as int]; if buffer@ =~= q0.push(k).push(buffer@.last()) { assert(buffer@.drop_last() =~= q0.push(k)); assert(q0.push(k).drop_last() =~= q0); } }

@prelude
// Trie *: the trie it points to, which must not change while the iterator is in use
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TriePtr { p: u64 }
impl TriePtr {
    pub uninterp spec fn val(self) -> Trie;
    pub uninterp spec fn adr(self) -> int;
    #[verifier::external_body] pub fn get(&self) -> (r: &Trie) ensures *r == self.val() { unimplemented!() }
}
impl CCopy for TriePtr { #[verifier::external_body] fn dup(&self) -> (r: Self) { *self } }
#[verifier::external_body] pub fn trie_addr(t: &Trie) -> (r: TriePtr) ensures r.val() == *t { unimplemented!() }
#[verifier::external_body] pub fn trieptr_eq(a: TriePtr, b: TriePtr) -> (r: bool) ensures r == (a.adr() == b.adr()) { unimplemented!() }
pub open spec fn pq(i: TrIt) -> Seq<i32> { if i.buffer_@.len() == 0 { i.buffer_@ } else { i.buffer_@.drop_last().drop_last() } }
// the iterator is at its end, before the first leaf, or at a leaf
pub open spec fn itok(i: TrIt) -> bool { let t = tv(i.trie_.val());
    i.end_ || vok(t, i.n_ as int, i.offset_ as int, pq(i)) && (i.buffer_@.len() == 0 || i.buffer_@.len() >= 2 && leafp(t, i.buffer_@.drop_last()) && markof(t, i.buffer_@.drop_last(), i.buffer_@.last() as int)) }
// from the position (q, o) the iterator has moved to the next leaf, or to the end if there is none
pub open spec fn moved_to(q: Seq<i32>, o: int, i: TrIt) -> bool { let t = tv(i.trie_.val());
    itok(i) && (if i.end_ { forall|u: Seq<i32>| #[trigger] leafp(t, u) ==> !geq(q, o, u) } else { i.buffer_@.len() >= 2 && found(t, q, o, i.buffer_@.drop_last(), pq(i), i.offset_ as int) }) }

@fn cuhksz::Trie::iterator::operator++ as tit_next
@opt retunit
@requires inz(old(this).trie_.val(), -1), itok(*old(this))
@ensures final(this).trie_ == old(this).trie_, itok(*final(this)), old(this).end_ ==> *final(this) == *old(this), !old(this).end_ ==> moved_to(pq(*old(this)), old(this).offset_ as int, *final(this))

@fn cuhksz::Trie::iterator::iterator as tit_new sig void (Trie *, bool)
@opt ctorof cuhksz::Trie::iterator
@params trie end
@requires inz(trie.val(), -1)
@ensures r.trie_ == trie, itok(r), end ==> r.end_, !end ==> moved_to(Seq::<i32>::empty(), 1, r)

@prelude
pub open spec fn chars(f: MI, s: Seq<i32>) -> Seq<i8> { Seq::new(s.len(), |i: int| f.ap(s[i])) }
// the word of a leaf: the characters of its codes, and its tail without the end mark
pub open spec fn wordof(t: Trie, s: Seq<i32>) -> Seq<i8> { if s.last() == 1 { chars(t.mapInt, s.drop_last()) } else { chars(t.mapInt, s) + lw(tv(t), ndp(tv(t), s)).drop_last() } }

pub proof fn leaf_codes(t: Tr, f: MC, s: Seq<i32>) requires wfo(t, f, -1), leafp(t, s)
    ensures forall|k: int| 0 <= k < s.len() - 1 ==> 1 < #[trigger] s[k] <= 256, 1 <= s.last() <= 256, s.last() != 1 ==> t.b[ndp(t, s)] <= -2 && ew(f, lw(t, ndp(t, s))), isn(t, ndp(t, s))
{
    nd_pos(t, f, s); assert(nodeok(t, f, -1, ndp(t, s)));
    assert(arc(t, ndp(t, s)) == s.last());
    assert forall|k: int| 0 <= k < s.len() - 1 implies 1 < #[trigger] s[k] <= 256 by {
        nd_take(t, f, s, k); nd_take(t, f, s, k + 1); let u = s.take(k + 1); let x = ndp(t, u); nd_pos(t, f, u); assert(isn(t, x)); assert(nodeok(t, f, -1, x)); assert(u.drop_last() =~= s.take(k)); assert(u.last() == s[k]); assert(arc(t, x) == s[k]);
    }
}

@fn cuhksz::Trie::iterator::operator* as tit_word
@opt this ref
@requires inz(this.trie_.val(), -1), itok(*this), !this.end_, this.buffer_@.len() >= 2
@ensures r@ == wordof(this.trie_.val(), this.buffer_@.drop_last())
@entry
let ghost T = this.trie_.val(); let ghost s = this.buffer_@.drop_last(); let ghost x = ndp(tv(T), s);
proof { leaf_codes(tv(T), T.mapChar, s); if s.last() != 1 { assert(tused(T, ti(T, x))); } assert(this.buffer_@ =~= s.push(this.buffer_@.last())); }
@loop 1
@attr #[verifier::allow_complex_invariants]
@invariant T == this.trie_.val(), s == this.buffer_@.drop_last(), s.len() == this.buffer_@.len() - 1, s.len() >= 1, x == ndp(tv(T), s), inz(T, -1), itok(*this), !this.end_, forall|k: int| 0 <= k < s.len() - 1 ==> 1 < #[trigger] s[k] <= 256, 1 <= s.last() <= 256, forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == this.buffer_@[k], s.last() != 1 ==> tv(T).b[x] <= -2 && ew(T.mapChar, lw(tv(T), x)) && tused(T, ti(T, x)), markof(tv(T), s, this.buffer_@.last() as int)
@invariant_except_break it <= s.len(), s.last() == 1 ==> it < s.len(), rtn@ == chars(T.mapInt, s.take(it as int))
@loop_ensures rtn@ == wordof(T, s)
@decreases this.buffer_@.len() - it
@begin
proof { if it < s.len() { assert(s.take(it + 1) =~= s.take(it as int).push(s[it as int])); assert(chars(T.mapInt, s.take(it + 1)) =~= chars(T.mapInt, s.take(it as int)).push(T.mapInt.ap(s[it as int]))); if it == s.len() - 1 { assert(s[it as int] == s.last()); if s.last() == 1 { assert(s.take(it as int) =~= s.drop_last()); } } } else { assert(s.take(it as int) =~= s); let l = lw(tv(T), x); assert(l.subrange(0, l.len() - 1) =~= l.drop_last()); } }
@prelude
// mapInt gives back the character of a number
pub open spec fn backs(t: Trie) -> bool { forall|a: i8| okc(t.mapChar, a) ==> t.mapInt.ap(#[trigger] code(t.mapChar, a) as i32) == a }
pub open spec fn codes(f: MC, u: Seq<i8>) -> Seq<i32> { Seq::new(u.len(), |i: int| code(f, u[i]) as i32) }
pub proof fn path_codes(t: Tr, f: MC, u: Seq<i8>) requires alph(f), okchars(f, u) ensures ndp(t, codes(f, u)) == path(t, f, u) decreases u.len()
{ if u.len() > 0 { let d = u.drop_last(); assert(okchars(f, d)); path_codes(t, f, d); assert(codes(f, u).drop_last() =~= codes(f, d)); assert(okc(f, u[u.len() - 1])); } }
pub proof fn codes_back(t: Trie, u: Seq<i8>) requires alph(t.mapChar), backs(t), okchars(t.mapChar, u) ensures chars(t.mapInt, codes(t.mapChar, u)) == u
{ assert forall|i: int| 0 <= i < u.len() implies t.mapInt.ap(codes(t.mapChar, u)[i]) == u[i] by { assert(okc(t.mapChar, u[i])); } assert(chars(t.mapInt, codes(t.mapChar, u)) =~= u); }
// every word of the set is the word of a leaf
pub proof fn word_has_leaf(t: Trie, w: Seq<i8>) -> (s: Seq<i32>) requires inz(t, -1), backs(t), okw(t.mapChar, w), has(t, w) ensures leafp(tv(t), s), wordof(t, s) == w
{
    let f = t.mapChar; let T = tv(t); let v = w.push(1i8); ew_push(f, w);
    let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(T, f, -1, v, k);
    let u = v.take(k); let s = codes(f, u); assert(okchars(f, u)); path_codes(T, f, u); codes_back(t, u);
    if k == 0 { assert(path(T, f, u) == 0); }
    assert(u[k - 1] == v[k - 1]); assert(s.last() == code(f, v[k - 1]) as i32); assert(okc(f, v[k - 1]));
    if k == v.len() { assert(v[k - 1] == 1i8); assert(chars(t.mapInt, s.drop_last()) =~= chars(t.mapInt, s).drop_last()); assert(u =~= v); assert(v.drop_last() =~= w); }
    else { assert(v[k - 1] == w[k - 1]); assert(s.last() != 1) by { if code(f, v[k - 1]) == 1 { assert(code(f, 1i8) == 1); } } assert(u + v.skip(k).drop_last() =~= w); }
    s
}
// every leaf's word is in the set, and different leaves have different words
pub proof fn codes_ok(f: MC, s: Seq<i32>) -> (u: Seq<i8>) requires alph(f), forall|k: int| 0 <= k < s.len() ==> isc(f, #[trigger] s[k] as int) ensures okchars(f, u), codes(f, u) == s
{ let u = Seq::new(s.len(), |i: int| choose|a: i8| okc(f, a) && #[trigger] code(f, a) == s[i]);
  assert forall|i: int| 0 <= i < s.len() implies okc(f, #[trigger] u[i]) && code(f, u[i]) == s[i] by { assert(isc(f, s[i] as int)); }
  assert(codes(f, u) =~= s); u }
pub proof fn leaf_isc(t: Tr, f: MC, s: Seq<i32>) requires wfo(t, f, -1), leafp(t, s) ensures forall|k: int| 0 <= k < s.len() ==> isc(f, #[trigger] s[k] as int)
{ assert forall|k: int| 0 <= k < s.len() implies isc(f, #[trigger] s[k] as int) by {
      nd_take(t, f, s, k); nd_take(t, f, s, k + 1); let u = s.take(k + 1); let x = ndp(t, u); nd_pos(t, f, u); assert(isn(t, x)); assert(nodeok(t, f, -1, x)); assert(u.drop_last() =~= s.take(k)); assert(u.last() == s[k]); assert(arc(t, x) == s[k]); } }
pub proof fn leaf_has_word(t: Trie, s: Seq<i32>) requires inz(t, -1), backs(t), leafp(tv(t), s) ensures okw(t.mapChar, wordof(t, s)), has(t, wordof(t, s)), mtch(tv(t), t.mapChar, -1, wordof(t, s).push(1i8), s.len() as int), codes(t.mapChar, wordof(t, s).push(1i8).take(s.len() as int)) == s
{
    let f = t.mapChar; let T = tv(t); leaf_codes(T, f, s); leaf_isc(T, f, s); let u = codes_ok(f, s); path_codes(T, f, u); codes_back(t, u);
    let x = ndp(T, s); let w = wordof(t, s); let v = w.push(1i8); let k = s.len() as int; assert(nodeok(T, f, -1, x)); nd_pos(T, f, s); assert(arc(T, x) == s.last());
    assert forall|i: int| 0 <= i < k && s[i] != 1 implies u[i] != 1i8 by { assert(codes(f, u)[i] == s[i]); }
    assert(codes(f, u)[k - 1] == s[k - 1]); assert(okc(f, u[k - 1]));
    assert forall|i: int| 0 <= i < k - 1 implies #[trigger] s[i] != 1 by { }
    if s.last() == 1 {
        assert(u[k - 1] == 1i8); assert(chars(t.mapInt, s.drop_last()) =~= u.drop_last()); assert(w == u.drop_last()); assert(v =~= u); assert(v.take(k) =~= u); assert(v.skip(k) =~= Seq::<i8>::empty()); assert(lw(T, x).len() == 0);
        assert forall|i: int| 0 <= i < w.len() implies okc(f, #[trigger] w[i]) && w[i] != 1i8 by { assert(u[i] == w[i]); assert(s[i] != 1); }
    } else {
        let l = lw(T, x); assert(w == u + l.drop_last()); assert(v =~= u + l); assert(v.take(k) =~= u); assert(v.skip(k) =~= l);
        assert forall|i: int| 0 <= i < w.len() implies okc(f, #[trigger] w[i]) && w[i] != 1i8 by { if i < k { assert(u[i] == w[i]); assert(s[i] != 1); } else { assert(l.drop_last()[i - k] == w[i]); } }
    }
    assert(mtch(T, f, -1, v, k));
}
pub proof fn leaf_word_inj(t: Trie, s: Seq<i32>, z: Seq<i32>) requires inz(t, -1), backs(t), leafp(tv(t), s), leafp(tv(t), z), wordof(t, s) == wordof(t, z) ensures s == z
{
    leaf_has_word(t, s); leaf_has_word(t, z); let v = wordof(t, s).push(1i8); let k = s.len() as int; let j = z.len() as int; let T = tv(t); let f = t.mapChar;
    if k < j { path_take(T, f, -1, v, k, j); } else if j < k { path_take(T, f, -1, v, j, k); }
}

@prelude
// iterators of a trie are equal when both are at the end, or both at the same leaf
pub open spec fn same(a: TrIt, b: TrIt) -> bool { if a.end_ || b.end_ { a.end_ && b.end_ } else { a.trie_.adr() == b.trie_.adr() && a.n_ == b.n_ && a.offset_ == b.offset_ && a.buffer_@ == b.buffer_@ } }

@fn cuhksz::Trie::iterator::operator== as tit_eq
@params iter
@ensures r == same(*this, *iter)

@fn cuhksz::Trie::iterator::operator!= as tit_ne
@params iter
@ensures r == !same(*this, *iter)

@fn cuhksz::Trie::iterator::iterator as tit_new1 sig void (Trie *)
@opt ctorof cuhksz::Trie::iterator
@params trie
@requires inz(trie.val(), -1)
@ensures r.trie_ == trie, itok(r), moved_to(Seq::<i32>::empty(), 1, r)

@fn cuhksz::Trie::iterator::iterator as tit_copy sig void (const iterator &)
@opt ctorof cuhksz::Trie::iterator
@params iter
@ensures r.trie_ == iter.trie_, r.n_ == iter.n_, r.offset_ == iter.offset_, r.end_ == iter.end_, r.buffer_@ == iter.buffer_@

@prelude
// every leaf is ahead of a new iterator
pub proof fn all_ahead(t: Tr, f: MC, u: Seq<i32>) requires wfo(t, f, -1), leafp(t, u) ensures geq(Seq::<i32>::empty(), 1, u)
{ leaf_codes(t, f, u); let q = Seq::<i32>::empty(); assert(u.take(0) =~= q); if u.len() == 1 { assert(u[0] == u.last()); } }

@fn cuhksz::Trie::begin as t_begin
@opt names iterator=TrIt
@opt this ref
@requires inz(*this, -1)
@ensures r.trie_.val() == *this, itok(r), moved_to(Seq::<i32>::empty(), 1, r)

@fn cuhksz::Trie::end as t_end
@opt names iterator=TrIt
@opt this ref
@requires inz(*this, -1)
@ensures r.trie_.val() == *this, r.end_
