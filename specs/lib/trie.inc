@prelude
use vstd::imap::*;
use vstd::iset::*;
pub struct Tr { pub b: IMap<int, int>, pub c: IMap<int, int>, pub tl: IMap<int, Seq<i8>> }
pub open spec fn code(f: MC, ch: i8) -> int { f.ap(ch) as int }
// what the documentation asks of mapChar: '\001' is 1, and different characters have different numbers from 1 on
pub open spec fn alph(f: MC) -> bool {
    &&& okc(f, 1i8) && code(f, 1i8) == 1
    &&& forall|a: i8| okc(f, a) ==> 1 <= #[trigger] code(f, a) <= 256
    &&& forall|a: i8, d: i8| okc(f, a) && okc(f, d) && #[trigger] code(f, a) == #[trigger] code(f, d) ==> a == d }
pub open spec fn okw(f: MC, s: Seq<i8>) -> bool { forall|i: int| 0 <= i < s.len() ==> okc(f, #[trigger] s[i]) && s[i] != 1i8 }
pub open spec fn okchars(f: MC, s: Seq<i8>) -> bool { forall|i: int| 0 <= i < s.len() ==> okc(f, #[trigger] s[i]) }
pub open spec fn ew(f: MC, v: Seq<i8>) -> bool { v.len() >= 1 && v.last() == 1i8 && okw(f, v.drop_last()) }
pub open spec fn path(t: Tr, f: MC, u: Seq<i8>) -> int decreases u.len()
{ if u.len() == 0 { 0 } else { let y = path(t, f, u.drop_last()); if y < 0 { -1 } else { let x = t.b[y] + code(f, u.last()); if t.c[x] == y { x } else { -1 } } } }
pub open spec fn arc(t: Tr, x: int) -> int { x - t.b[t.c[x]] }
pub open spec fn lw(t: Tr, y: int) -> Seq<i8> { if t.b[y] == -1 { Seq::empty() } else { t.tl[-t.b[y] - 2] } }
pub open spec fn kind(t: Tr, f: MC, x: int) -> bool {
    if t.b[x] >= 0 { arc(t, x) != 1 } else if t.b[x] == -1 { arc(t, x) == 1 } else if arc(t, x) == 1 { lw(t, x).len() == 0 } else { ew(f, lw(t, x)) } }
pub open spec fn isn(t: Tr, x: int) -> bool { t.c[x] != -1 }
// n is the number of a character
pub open spec fn isc(f: MC, n: int) -> bool { exists|a: i8| okc(f, a) && #[trigger] code(f, a) == n }
pub open spec fn nodeok(t: Tr, f: MC, z: int, x: int) -> bool {
    x >= 1 && t.c[x] >= 0 && t.c[x] != x && (t.c[x] == 0 || isn(t, t.c[x])) && t.b[t.c[x]] >= 0 && 1 <= arc(t, x) <= 256 && isc(f, arc(t, x)) && t.c[x] != z && (x == z || kind(t, f, x)) }
pub open spec fn wfo(t: Tr, f: MC, z: int) -> bool {
    &&& alph(f) && t.b[0] >= 0 && t.c[0] == -1 && (z == -1 || z >= 1 && isn(t, z))
    &&& forall|x: int| #[trigger] isn(t, x) ==> nodeok(t, f, z, x)
    &&& forall|x: int, y: int| #[trigger] isn(t, x) && #[trigger] isn(t, y) && x != z && y != z && t.b[x] <= -2 && t.b[x] == t.b[y] ==> x == y }
pub open spec fn mtch(t: Tr, f: MC, z: int, v: Seq<i8>, k: int) -> bool { let y = path(t, f, v.take(k)); y > 0 && y != z && t.b[y] < 0 && v.skip(k) =~= lw(t, y) }
pub open spec fn lang(t: Tr, f: MC, z: int, v: Seq<i8>) -> bool { exists|k: int| 0 <= k <= v.len() && #[trigger] mtch(t, f, z, v, k) }

pub proof fn path_pos(t: Tr, f: MC, z: int, u: Seq<i8>) requires wfo(t, f, z)
    ensures path(t, f, u) >= 0 && u.len() > 0 ==> path(t, f, u) >= 1 && isn(t, path(t, f, u)) && t.c[path(t, f, u)] == path(t, f, u.drop_last()) && path(t, f, u.drop_last()) >= 0 && arc(t, path(t, f, u)) == code(f, u.last()),
      path(t, f, u) == 0 <==> u.len() == 0, path(t, f, u) >= -1
    decreases u.len()
{ if u.len() > 0 { path_pos(t, f, z, u.drop_last()); let x = t.b[path(t, f, u.drop_last())] + code(f, u.last()); assert(isn(t, x) ==> nodeok(t, f, z, x)); } }
pub proof fn path_inj(t: Tr, f: MC, z: int, u: Seq<i8>, w: Seq<i8>) requires wfo(t, f, z), okchars(f, u), okchars(f, w), path(t, f, u) >= 0, path(t, f, u) == path(t, f, w) ensures u == w decreases u.len()
{ path_pos(t, f, z, u); path_pos(t, f, z, w);
  if u.len() > 0 && w.len() > 0 {
      assert(okchars(f, u.drop_last())); assert(okchars(f, w.drop_last()));
      path_inj(t, f, z, u.drop_last(), w.drop_last());
      assert(okc(f, u[u.len() - 1]) && okc(f, w[w.len() - 1])); assert(code(f, u.last()) == code(f, w.last()));
      assert(u.last() == w.last());
      assert(u =~= u.drop_last().push(u.last())); assert(w =~= w.drop_last().push(w.last())); }
  assert(u =~= w); }
pub proof fn path_take(t: Tr, f: MC, z: int, v: Seq<i8>, k: int, j: int) requires wfo(t, f, z), 0 <= k <= j <= v.len(), path(t, f, v.take(j)) >= 0
    ensures path(t, f, v.take(k)) >= 0, k < j ==> t.b[path(t, f, v.take(k))] >= 0 && path(t, f, v.take(k)) != z decreases j - k
{ if k < j { path_pos(t, f, z, v.take(j)); assert(v.take(j).drop_last() =~= v.take(j - 1)); let x = path(t, f, v.take(j)); assert(isn(t, x)); assert(nodeok(t, f, z, x)); path_take(t, f, z, v, k, j - 1); } }
// what a word's walk says about the word
pub proof fn lang_stuck(t: Tr, f: MC, z: int, v: Seq<i8>, k: int) requires wfo(t, f, z), 0 <= k < v.len(), path(t, f, v.take(k)) >= 0, t.b[path(t, f, v.take(k))] >= 0, path(t, f, v.take(k + 1)) < 0 ensures !lang(t, f, z, v)
{ assert forall|j: int| 0 <= j <= v.len() implies !#[trigger] mtch(t, f, z, v, j) by {
      if j > k { if path(t, f, v.take(j)) >= 0 { path_take(t, f, z, v, k + 1, j); } }
      else { path_take(t, f, z, v, j, k); } } }
pub proof fn lang_leaf(t: Tr, f: MC, z: int, v: Seq<i8>, k: int) requires wfo(t, f, z), 0 <= k <= v.len(), path(t, f, v.take(k)) >= 0, t.b[path(t, f, v.take(k))] < 0 || path(t, f, v.take(k)) == z
    ensures lang(t, f, z, v) == (path(t, f, v.take(k)) != z && v.skip(k) =~= lw(t, path(t, f, v.take(k))))
{ let y = path(t, f, v.take(k)); path_pos(t, f, z, v.take(k));
  assert(y > 0) by { if y == 0 { assert(t.b[0] >= 0); assert(z != 0); } }
  assert forall|j: int| 0 <= j <= v.len() && j != k implies !#[trigger] mtch(t, f, z, v, j) by {
      if j > k { if path(t, f, v.take(j)) >= 0 { path_take(t, f, z, v, k, j); } }
      else { path_take(t, f, z, v, j, k); } }
  if y != z && v.skip(k) =~= lw(t, y) { assert(mtch(t, f, z, v, k)); } }
pub proof fn path_push(t: Tr, f: MC, u: Seq<i8>, ch: i8) requires path(t, f, u) >= 0
    ensures path(t, f, u.push(ch)) == (if t.c[t.b[path(t, f, u)] + code(f, ch)] == path(t, f, u) { t.b[path(t, f, u)] + code(f, ch) } else { -1 })
{ assert(u.push(ch).drop_last() =~= u); }

// a new child y of n (n is the open node z, or has its base already)
pub open spec fn grows(t: Tr, t2: Tr, f: MC, z: int, u: Seq<i8>, ch: i8, n: int, y: int) -> bool {
    &&& wfo(t, f, z) && okchars(f, u) && okc(f, ch) && path(t, f, u) == n && n >= 0 && !isn(t, y) && y >= 1 && y != n
    &&& (forall|x: int| #[trigger] t2.c[x] == (if x == y { n } else { t.c[x] }))
    &&& (forall|x: int| (isn(t, x) || x == 0) && x != z ==> #[trigger] t2.b[x] == t.b[x])
    &&& t2.b[n] + code(f, ch) == y }
pub proof fn grow_path(t: Tr, t2: Tr, f: MC, z: int, u: Seq<i8>, ch: i8, n: int, y: int, w: Seq<i8>) requires grows(t, t2, f, z, u, ch, n, y), okchars(f, w)
    ensures path(t2, f, w) == (if path(t, f, w) >= 0 { path(t, f, w) } else if w == u.push(ch) { y } else { -1 }) decreases w.len()
{ path_pos(t, f, z, w);
  if w.len() > 0 {
      let w1 = w.drop_last(); let d = w.last(); assert(okchars(f, w1)); assert(okc(f, w[w.len() - 1]));
      grow_path(t, t2, f, z, u, ch, n, y, w1); path_pos(t, f, z, w1);
      assert(u.push(ch).drop_last() =~= u); assert(w =~= w1.push(d));
      let m = path(t, f, w1);
      if m >= 0 {
          assert(m == 0 || isn(t, m)); let x = t2.b[m] + code(f, d); let x0 = t.b[m] + code(f, d);
          assert(isn(t, x0) ==> nodeok(t, f, z, x0)); assert(isn(t, x) ==> nodeok(t, f, z, x)); assert(t2.c[x] == (if x == y { n } else { t.c[x] }));
          if m == n { path_inj(t, f, z, w1, u); if x == y { assert(code(f, d) == code(f, ch)); } if d == ch { assert(x == y); } }
      } else if w1 == u.push(ch) {
          let x = t2.b[y] + code(f, d); assert(t2.c[x] == (if x == y { n } else { t.c[x] })); assert(isn(t, x) ==> nodeok(t, f, z, x));
          assert(w != u.push(ch)) by { assert(w.len() == w1.len() + 1); }
      } else { if w == u.push(ch) { assert(w1 == u); } }
  } }
pub open spec fn grown(t: Tr, t2: Tr, f: MC, z: int, z2: int, u: Seq<i8>, ch: i8, n: int, y: int) -> bool {
    &&& grows(t, t2, f, z, u, ch, n, y)
    &&& (n == z || t.b[n] >= 0) && t2.b[n] >= 0 && (z2 == -1 || z2 == y) && (z == -1 || z == n) && (n != z || n == 0 || arc(t, z) != 1)
    &&& (y == z2 || kind(t2, f, y) && t2.b[y] < 0)
    &&& (forall|x: int| #[trigger] isn(t, x) && x != z && t.b[x] <= -2 ==> t2.tl[-t.b[x] - 2] == t.tl[-t.b[x] - 2] && (y == z2 || t2.b[y] != t.b[x])) }
pub proof fn grow(t: Tr, t2: Tr, f: MC, z: int, z2: int, u: Seq<i8>, ch: i8, n: int, y: int) requires grown(t, t2, f, z, z2, u, ch, n, y)
    ensures wfo(t2, f, z2), path(t2, f, u) == n, path(t2, f, u.push(ch)) == y,
      forall|v: Seq<i8>| okchars(f, v) ==> (#[trigger] lang(t2, f, z2, v) == (lang(t, f, z, v) || y != z2 && v =~= u.push(ch) + lw(t2, y)))
{ assert(t2.c[y] == n);
  path_pos(t, f, z, u);
  assert(t2.b[0] >= 0) by { if z != 0 { assert(t2.b[0] == t.b[0]); } }
  assert(t2.c[0] == t.c[0]);
  assert forall|x: int| #[trigger] isn(t2, x) implies nodeok(t2, f, z2, x) by {
      assert(t2.c[x] == (if x == y { n } else { t.c[x] }));
      if x == y { assert(code(f, ch) >= 1); assert(n == 0 || isn(t, n)); assert(t2.c[n] == t.c[n]); }
      else { assert(isn(t, x)); assert(nodeok(t, f, z, x)); let p = t.c[x]; assert(t2.c[p] == (if p == y { n } else { t.c[p] })); assert(t2.b[p] == t.b[p]); if x != z { assert(t2.b[x] == t.b[x]); } else { assert(arc(t2, x) == arc(t, x)); } }
  }
  assert forall|x: int, x2: int| #[trigger] isn(t2, x) && #[trigger] isn(t2, x2) && x != z2 && x2 != z2 && t2.b[x] <= -2 && t2.b[x] == t2.b[x2] implies x == x2 by {
      assert(t2.c[x] == (if x == y { n } else { t.c[x] })); assert(t2.c[x2] == (if x2 == y { n } else { t.c[x2] }));
      if x != y { assert(isn(t, x)); assert(x != z); assert(t2.b[x] == t.b[x]); }
      if x2 != y { assert(isn(t, x2)); assert(x2 != z); assert(t2.b[x2] == t.b[x2]); }
  }
  assert(okchars(f, u.push(ch)));
  grow_path(t, t2, f, z, u, ch, n, y, u); grow_path(t, t2, f, z, u, ch, n, y, u.push(ch));
  path_push(t, f, u, ch);
  assert(path(t, f, u.push(ch)) < 0) by { if path(t, f, u.push(ch)) >= 0 { let x = t.b[n] + code(f, ch); assert(isn(t, x)); assert(nodeok(t, f, z, x)); assert(n != z); assert(t2.b[n] == t.b[n]); } }
  assert forall|v: Seq<i8>| okchars(f, v) implies (#[trigger] lang(t2, f, z2, v) == (lang(t, f, z, v) || y != z2 && v =~= u.push(ch) + lw(t2, y))) by {
      assert forall|k: int| 0 <= k <= v.len() implies (#[trigger] mtch(t2, f, z2, v, k) == (mtch(t, f, z, v, k) || y != z2 && v.take(k) =~= u.push(ch) && v.skip(k) =~= lw(t2, y))) by {
          let w = v.take(k); assert(okchars(f, w)); grow_path(t, t2, f, z, u, ch, n, y, w); path_pos(t, f, z, w);
          let x = path(t, f, w);
          if x > 0 { assert(isn(t, x)); assert(x != y); assert(nodeok(t, f, z, x)); if x != z { assert(t2.b[x] == t.b[x]); if t.b[x] < 0 { assert(lw(t2, x) == lw(t, x)); } } }
      }
      if lang(t2, f, z2, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t2, f, z2, v, k); assert(v =~= v.take(k) + v.skip(k)); if mtch(t, f, z, v, k) {} }
      if lang(t, f, z, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t, f, z, v, k); assert(mtch(t2, f, z2, v, k)); }
      if y != z2 && v =~= u.push(ch) + lw(t2, y) { let k = u.len() as int + 1; assert(v.take(k) =~= u.push(ch)); assert(v.skip(k) =~= lw(t2, y)); assert(mtch(t2, f, z2, v, k)); }
  } }
// a leaf taken out of the language: it becomes the open node
pub proof fn open_leaf(t: Tr, f: MC, z: int, u: Seq<i8>) requires wfo(t, f, -1), okchars(f, u), path(t, f, u) == z, z > 0, t.b[z] < 0
    ensures wfo(t, f, z), forall|v: Seq<i8>| okchars(f, v) ==> (#[trigger] lang(t, f, -1, v) == (lang(t, f, z, v) || v =~= u + lw(t, z))), !lang(t, f, z, u + lw(t, z))
{ path_pos(t, f, -1, u);
  assert forall|x: int| #[trigger] isn(t, x) implies nodeok(t, f, z, x) by { assert(nodeok(t, f, -1, x)); }
  assert forall|v: Seq<i8>| okchars(f, v) implies (#[trigger] lang(t, f, -1, v) == (lang(t, f, z, v) || v =~= u + lw(t, z))) by {
      if lang(t, f, -1, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t, f, -1, v, k); assert(okchars(f, v.take(k))); if path(t, f, v.take(k)) == z { path_inj(t, f, -1, v.take(k), u); assert(v =~= v.take(k) + v.skip(k)); } else { assert(mtch(t, f, z, v, k)); } }
      if lang(t, f, z, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t, f, z, v, k); assert(mtch(t, f, -1, v, k)); }
      if v =~= u + lw(t, z) { let k = u.len() as int; assert(v.take(k) =~= u); assert(v.skip(k) =~= lw(t, z)); assert(mtch(t, f, -1, v, k)); }
  }
  let v = u + lw(t, z); assert(v.take(u.len() as int) =~= u); lang_leaf(t, f, z, v, u.len() as int); }
// the open node freed
pub proof fn cut(t: Tr, t2: Tr, f: MC, z: int) requires wfo(t, f, z), z > 0, t2.tl == t.tl,
        forall|x: int| #[trigger] t2.c[x] == (if x == z { -1 } else { t.c[x] }), forall|x: int| x != z ==> #[trigger] t2.b[x] == t.b[x]
    ensures wfo(t2, f, -1), forall|v: Seq<i8>| #[trigger] lang(t2, f, -1, v) == lang(t, f, z, v)
{ assert forall|x: int| #[trigger] isn(t2, x) implies nodeok(t2, f, -1, x) by { assert(isn(t, x)); assert(nodeok(t, f, z, x)); let p = t.c[x]; assert(t2.c[p] == t.c[p]); assert(t2.b[p] == t.b[p]); assert(t2.b[x] == t.b[x]); }
  assert forall|x: int, y: int| #[trigger] isn(t2, x) && #[trigger] isn(t2, y) && x != -1 && y != -1 && t2.b[x] <= -2 && t2.b[x] == t2.b[y] implies x == y by { assert(isn(t, x) && isn(t, y)); }
  assert forall|v: Seq<i8>| #[trigger] lang(t2, f, -1, v) == lang(t, f, z, v) by {
      assert forall|k: int| 0 <= k <= v.len() implies #[trigger] mtch(t2, f, -1, v, k) == mtch(t, f, z, v, k) by { cut_path(t, t2, f, z, v.take(k)); path_pos(t, f, z, v.take(k)); }
      if lang(t2, f, -1, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t2, f, -1, v, k); assert(mtch(t, f, z, v, k)); }
      if lang(t, f, z, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t, f, z, v, k); assert(mtch(t2, f, -1, v, k)); }
  } }
pub proof fn cut_path(t: Tr, t2: Tr, f: MC, z: int, w: Seq<i8>) requires wfo(t, f, z), z > 0,
        forall|x: int| #[trigger] t2.c[x] == (if x == z { -1 } else { t.c[x] }), forall|x: int| x != z ==> #[trigger] t2.b[x] == t.b[x]
    ensures path(t2, f, w) == (if path(t, f, w) == z { -1 } else { path(t, f, w) }) decreases w.len()
{ if w.len() > 0 { cut_path(t, t2, f, z, w.drop_last()); path_pos(t, f, z, w.drop_last()); let m = path(t, f, w.drop_last());
      if m >= 0 { let x = t.b[m] + code(f, w.last()); assert(isn(t, x) ==> nodeok(t, f, z, x)); assert(t2.c[x] == (if x == z { -1 } else { t.c[x] })); if m != z { assert(t2.b[m] == t.b[m]); } } } }

// the children of m moved from base ob to base nb: those with arcs in the set d are done
pub open spec fn mvd(t: Tr, m: int, d: ISet<int>, x: int) -> bool { t.c[x] == m && d.contains(x - t.b[m]) }
pub open spec fn rho(t: Tr, m: int, nb: int, d: ISet<int>, x: int) -> int { if mvd(t, m, d, x) { x - t.b[m] + nb } else { x } }
pub open spec fn moving(t: Tr, t2: Tr, m: int, nb: int, d: ISet<int>) -> bool {
    &&& t2.tl == t.tl
    &&& forall|x: int| #[trigger] t2.b[x] == (if mvd(t, m, d, x - nb + t.b[m]) { t.b[x - nb + t.b[m]] } else if mvd(t, m, d, x) { -1 } else if x == m { nb } else { t.b[x] })
    &&& forall|x: int| #[trigger] t2.c[x] == (if mvd(t, m, d, x - nb + t.b[m]) { m } else if mvd(t, m, d, x) { -1 } else { rho(t, m, nb, d, t.c[x]) }) }
pub open spec fn canmove(t: Tr, f: MC, m: int, nb: int) -> bool { wfo(t, f, -1) && nb >= 0 && (m == 0 || isn(t, m)) && t.b[m] >= 0 && forall|x: int| #[trigger] t.c[x] == m ==> t.c[x - t.b[m] + nb] == -1 }
pub open spec fn alld() -> ISet<int> { ISet::new(|k: int| true) }
pub proof fn moved_at(t: Tr, t2: Tr, f: MC, m: int, nb: int, x: int) requires canmove(t, f, m, nb), moving(t, t2, m, nb, alld()), isn(t, x) || x == 0
    ensures ({ let y = rho(t, m, nb, alld(), x); &&& (x == 0 ==> y == 0) &&& (x != 0 ==> y >= 1 && t2.c[y] == rho(t, m, nb, alld(), t.c[x]) && isn(t2, y)) &&& t2.b[y] == (if x == m { nb } else { t.b[x] }) &&& (t.c[y] == -1 || y == x) })
{ let d = alld(); let ob = t.b[m]; let y = rho(t, m, nb, d, x); assert(isn(t, x) ==> nodeok(t, f, -1, x));
  let o = y - nb + ob; assert(t2.b[y] == (if mvd(t, m, d, o) { t.b[o] } else if mvd(t, m, d, y) { -1 } else if y == m { nb } else { t.b[y] }));
  assert(t2.c[y] == (if mvd(t, m, d, o) { m } else if mvd(t, m, d, y) { -1 } else { rho(t, m, nb, d, t.c[y]) }));
  assert(isn(t, m) ==> nodeok(t, f, -1, m));
  if mvd(t, m, d, x) { assert(t.c[x] == m); assert(o == x); assert(t.c[x - ob + nb] == -1); }
  else { if mvd(t, m, d, o) { assert(t.c[o] == m); assert(t.c[o - ob + nb] == -1); assert(x == 0); assert(isn(t, o)); assert(nodeok(t, f, -1, o)); assert(o - ob >= 1); } } }
pub proof fn move_path(t: Tr, t2: Tr, f: MC, m: int, nb: int, w: Seq<i8>) requires canmove(t, f, m, nb), moving(t, t2, m, nb, alld()), okchars(f, w)
    ensures path(t2, f, w) == (if path(t, f, w) < 0 { -1 } else { rho(t, m, nb, alld(), path(t, f, w)) }) decreases w.len()
{ let d = alld(); let ob = t.b[m]; path_pos(t, f, -1, w);
  if w.len() == 0 { assert(t.c[0] == -1); }
  else {
      let w1 = w.drop_last(); assert(okchars(f, w1)); move_path(t, t2, f, m, nb, w1); path_pos(t, f, -1, w1); let k = code(f, w.last()); assert(okc(f, w[w.len() - 1]));
      let p = path(t, f, w1);
      if p >= 0 {
          let q = rho(t, m, nb, d, p); moved_at(t, t2, f, m, nb, p);
          let x = t.b[p] + k; let y = t2.b[q] + k;
          assert(t2.c[y] == (if mvd(t, m, d, y - nb + ob) { m } else if mvd(t, m, d, y) { -1 } else { rho(t, m, nb, d, t.c[y]) }));
          assert(isn(t, x) ==> nodeok(t, f, -1, x)); assert(isn(t, y) ==> nodeok(t, f, -1, y));
          if t.c[x] == p { moved_at(t, t2, f, m, nb, x); }
          else {
              // no arc before, so none after
              if t2.c[y] == q {
                  if mvd(t, m, d, y - nb + ob) {
                      if p == m { assert(y - nb + ob == x); } else { assert(q == m); assert(q != p); assert(t.c[q] == -1); assert(m == 0); assert(q >= 1) by { assert(isn(t, p)); moved_at(t, t2, f, m, nb, p); } }
                  } else {
                      assert(isn(t, -1) ==> nodeok(t, f, -1, -1)); assert(isn(t, m) ==> nodeok(t, f, -1, m)); assert(isn(t, y));
                      let g = t.c[y]; assert(g == 0 || isn(t, g)); moved_at(t, t2, f, m, nb, g);
                      // rho is injective on nodes
                      assert(g == p) by { if g != p { if mvd(t, m, d, g) && !mvd(t, m, d, p) { assert(t.c[q] == -1); assert(p == 0); moved_at(t, t2, f, m, nb, g); } if !mvd(t, m, d, g) && mvd(t, m, d, p) { assert(g == q); assert(t.c[g] == -1); assert(g == 0); } } }
                      if p == m { assert(mvd(t, m, d, y)); } else { assert(y == x); }
                  }
              }
          }
      }
  } }
pub proof fn moved(t: Tr, t2: Tr, f: MC, m: int, nb: int) requires canmove(t, f, m, nb), moving(t, t2, m, nb, alld())
    ensures wfo(t2, f, -1), forall|v: Seq<i8>| okchars(f, v) ==> #[trigger] lang(t2, f, -1, v) == lang(t, f, -1, v)
{ let d = alld(); let ob = t.b[m];
  moved_at(t, t2, f, m, nb, 0);
  assert(t2.c[0] == -1) by { assert(t2.c[0] == (if mvd(t, m, d, 0 - nb + ob) { m } else if mvd(t, m, d, 0) { -1 } else { rho(t, m, nb, d, t.c[0]) })); if mvd(t, m, d, 0 - nb + ob) { assert(isn(t, 0 - nb + ob)); assert(nodeok(t, f, -1, 0 - nb + ob)); } if mvd(t, m, d, -1) { assert(isn(t, -1)); assert(nodeok(t, f, -1, -1)); } }
  assert forall|y: int| #[trigger] isn(t2, y) implies nodeok(t2, f, -1, y) && isn(t, inv_rho(t, m, nb, y)) && y == rho(t, m, nb, d, inv_rho(t, m, nb, y)) by { move_node(t, t2, f, m, nb, y); }
  assert forall|y: int, y2: int| #[trigger] isn(t2, y) && #[trigger] isn(t2, y2) && y != -1 && y2 != -1 && t2.b[y] <= -2 && t2.b[y] == t2.b[y2] implies y == y2 by {
      move_node(t, t2, f, m, nb, y); move_node(t, t2, f, m, nb, y2); let x = inv_rho(t, m, nb, y); let x2 = inv_rho(t, m, nb, y2); moved_at(t, t2, f, m, nb, x); moved_at(t, t2, f, m, nb, x2); assert(isn(t, x) && isn(t, x2)); }
  assert forall|v: Seq<i8>| okchars(f, v) implies #[trigger] lang(t2, f, -1, v) == lang(t, f, -1, v) by {
      assert forall|k: int| 0 <= k <= v.len() implies #[trigger] mtch(t2, f, -1, v, k) == mtch(t, f, -1, v, k) by { assert(okchars(f, v.take(k))); move_path(t, t2, f, m, nb, v.take(k)); path_pos(t, f, -1, v.take(k)); let x = path(t, f, v.take(k)); if x >= 0 { moved_at(t, t2, f, m, nb, x); } }
      if lang(t2, f, -1, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t2, f, -1, v, k); assert(mtch(t, f, -1, v, k)); }
      if lang(t, f, -1, v) { let k = choose|k: int| 0 <= k <= v.len() && #[trigger] mtch(t, f, -1, v, k); assert(mtch(t2, f, -1, v, k)); }
  } }
pub open spec fn inv_rho(t: Tr, m: int, nb: int, y: int) -> int { if t.c[y - nb + t.b[m]] == m { y - nb + t.b[m] } else { y } }
pub proof fn move_node(t: Tr, t2: Tr, f: MC, m: int, nb: int, y: int) requires canmove(t, f, m, nb), moving(t, t2, m, nb, alld()), isn(t2, y)
    ensures nodeok(t2, f, -1, y), isn(t, inv_rho(t, m, nb, y)), y == rho(t, m, nb, alld(), inv_rho(t, m, nb, y))
{ let d = alld(); let ob = t.b[m]; let x = inv_rho(t, m, nb, y); let o = y - nb + ob;
  assert(t2.c[y] == (if mvd(t, m, d, o) { m } else if mvd(t, m, d, y) { -1 } else { rho(t, m, nb, d, t.c[y]) }));
  assert(isn(t, x)) by { if t.c[o] == m { } else { if t.c[y] == -1 { assert(!isn(t, -1)) by { if isn(t, -1) { assert(nodeok(t, f, -1, -1)); } } assert(t.c[-1] == -1); assert(m >= 0) by { if isn(t, m) { assert(nodeok(t, f, -1, m)); } } } } }
  assert(y == rho(t, m, nb, d, x)) by { if t.c[o] != m { assert(x == y); assert(!mvd(t, m, d, y)); } else { assert(t.c[o] == m); } }
  assert(nodeok(t, f, -1, x));
  moved_at(t, t2, f, m, nb, x); let p = t.c[x]; moved_at(t, t2, f, m, nb, p); let q = rho(t, m, nb, d, p);
  assert(t2.c[y] == q); assert(t2.b[q] == (if p == m { nb } else { t.b[p] }));
  assert(arc(t2, y) == arc(t, x)) by { if p == m { assert(mvd(t, m, d, x)); } else { assert(!mvd(t, m, d, x)); } }
  assert(q != y) by { if p == m { assert(q == m) by { if mvd(t, m, d, m) { assert(isn(t, m)); assert(nodeok(t, f, -1, m)); } } assert(t.c[y] == -1 || y == x); if y == m { assert(m == 0 || isn(t, m)); } } else { assert(y == x); } }
  if x != m { assert(t2.b[y] == t.b[x]); assert(kind(t, f, x)); assert(lw(t2, y) == lw(t, x)); assert(kind(t2, f, y)); } else { assert(t2.b[y] == nb); assert(kind(t2, f, y)); } }

