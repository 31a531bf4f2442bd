@# SegmentTree<ValueType>, instance double, with exact real arithmetic on the values
@driver
#include "/repo/src/include/graph/SegmentTree.h"
namespace cuhksz {
template class SegmentTree<double>;
}

@struct cuhksz::SegmentTree<double> => Seg
@optype double => Num
@trusted the arithmetic of the element type is exact (double treated as the reals)
@prelude
#[verifier::inline]
pub open spec fn mn(t: Seg, k: int) -> real { t.minVal@[k].v() }
#[verifier::inline]
pub open spec fn mx(t: Seg, k: int) -> real { t.maxVal@[k].v() }
#[verifier::inline]
pub open spec fn sm(t: Seg, k: int) -> real { t.sumVal@[k].v() }
#[verifier::inline]
pub open spec fn ml(t: Seg, k: int) -> real { t.mulFlag@[k].v() }
#[verifier::inline]
pub open spec fn ad(t: Seg, k: int) -> real { t.addFlag@[k].v() }
#[verifier::inline]
pub open spec fn hm(t: Seg, k: int) -> bool { t.hasMulFlag@[k] }
#[verifier::inline]
pub open spec fn ha(t: Seg, k: int) -> bool { t.hasAddFlag@[k] }
pub open spec fn lens(t: Seg, n: int) -> bool {
    t.minVal@.len() == n && t.maxVal@.len() == n && t.sumVal@.len() == n && t.mulFlag@.len() == n && t.addFlag@.len() == n && t.hasMulFlag@.len() == n && t.hasAddFlag@.len() == n
}
// pending operations of a node applied to a value
pub open spec fn app(t: Seg, o: int, x: real) -> real { let y = if hm(t, o) { x * ml(t, o) } else { x }; if ha(t, o) { y + ad(t, o) } else { y } }
pub open spec fn apps(t: Seg, o: int, s: Seq<real>) -> Seq<real> { Seq::new(s.len(), |i: int| app(t, o, s[i])) }
// the values stored below node o, which covers n elements: without / with the operations pending at o
pub open spec fn raw(t: Seg, o: int, n: int) -> Seq<real> decreases n, 0int
{ if n <= 1 { seq![sm(t, o)] } else { cur(t, 2 * o, (n + 1) / 2) + cur(t, 2 * o + 1, n / 2) } }
pub open spec fn cur(t: Seg, o: int, n: int) -> Seq<real> decreases n, 1int
{ apps(t, o, raw(t, o, n)) }
pub open spec fn ismin(s: Seq<real>, m: real) -> bool { (forall|i: int| 0 <= i < s.len() ==> m <= #[trigger] s[i]) && (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m) }
pub open spec fn ismax(s: Seq<real>, m: real) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m) && (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m) }
pub open spec fn ssum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { ssum(s.drop_last()) + s.last() } }
pub open spec fn node_ok(t: Seg, o: int, s: Seq<real>) -> bool { ismin(s, mn(t, o)) && ismax(s, mx(t, o)) && ssum(s) == sm(t, o) }
pub open spec fn ok(t: Seg, o: int, n: int) -> bool decreases n
{ node_ok(t, o, raw(t, o, n)) && (n > 1 ==> ok(t, 2 * o, (n + 1) / 2) && ok(t, 2 * o + 1, n / 2)) }
// node o with n elements has all its descendants below index cap
pub open spec fn span(n: int) -> int decreases n { if n <= 1 { 1 } else { 2 * span((n + 1) / 2) } }
pub open spec fn fits(o: int, n: int, cap: int) -> bool { o >= 1 && n >= 1 && (o + 1) * span(n) <= cap }
pub open spec fn insub(o: int, k: int) -> bool decreases k when o >= 1 { k == o || (k > o && insub(o, k / 2)) }
pub open spec fn sameat(a: Seg, b: Seg, k: int) -> bool { a.minVal@[k] == b.minVal@[k] && a.maxVal@[k] == b.maxVal@[k] && a.sumVal@[k] == b.sumVal@[k] && a.mulFlag@[k] == b.mulFlag@[k] && a.addFlag@[k] == b.addFlag@[k] && hm(a, k) == hm(b, k) && ha(a, k) == ha(b, k) }
// b differs from a at most below node o
pub open spec fn frame(a: Seg, b: Seg, o: int) -> bool { a.size == b.size && a.minVal@.len() == b.minVal@.len() && (forall|k: int| 0 <= k < a.minVal@.len() && !insub(o, k) ==> #[trigger] sameat(a, b, k)) }
pub open spec fn inv(t: Seg, o: int, n: int) -> bool { 0 <= t.size <= 0x0fff_ffff && lens(t, 4 * t.size) && fits(o, n, 4 * t.size) && ok(t, o, n) }
// the array that the tree represents
pub open spec fn wf(t: Seg) -> bool { 0 <= t.size <= 0x0fff_ffff && lens(t, 4 * t.size) && (t.size > 0 ==> ok(t, 1, t.size as int)) }
pub open spec fn arr(t: Seg) -> Seq<real> { if t.size <= 0 { Seq::<real>::empty() } else { cur(t, 1, t.size as int) } }
// the elements l + i of s with lv <= l + i <= rv
pub open spec fn ismaxr(s: Seq<real>, l: int, lv: int, rv: int, m: real) -> bool { (forall|i: int| 0 <= i < s.len() && lv <= l + i <= rv ==> #[trigger] s[i] <= m) && (exists|i: int| 0 <= i < s.len() && lv <= l + i <= rv && #[trigger] s[i] == m) }
pub open spec fn isminr(s: Seq<real>, l: int, lv: int, rv: int, m: real) -> bool { (forall|i: int| 0 <= i < s.len() && lv <= l + i <= rv ==> m <= #[trigger] s[i]) && (exists|i: int| 0 <= i < s.len() && lv <= l + i <= rv && #[trigger] s[i] == m) }
pub open spec fn mask(s: Seq<real>, l: int, lv: int, rv: int) -> Seq<real> { Seq::new(s.len(), |i: int| if lv <= l + i <= rv { s[i] } else { 0real }) }
pub open spec fn addr(s: Seq<real>, l: int, lv: int, rv: int, x: real) -> Seq<real> { Seq::new(s.len(), |i: int| if lv <= l + i <= rv { s[i] + x } else { s[i] }) }
pub open spec fn mulr(s: Seq<real>, l: int, lv: int, rv: int, x: real) -> Seq<real> { Seq::new(s.len(), |i: int| if lv <= l + i <= rv { s[i] * x } else { s[i] }) }

pub proof fn raw_len(t: Seg, o: int, n: int) requires n >= 1 ensures raw(t, o, n).len() == n, cur(t, o, n).len() == n decreases n
{ if n > 1 { raw_len(t, 2 * o, (n + 1) / 2); raw_len(t, 2 * o + 1, n / 2); } }
pub proof fn span_mono(a: int, b: int) requires 1 <= a <= b ensures 1 <= span(a) <= span(b) decreases b
{ if b > 1 { if a > 1 { span_mono((a + 1) / 2, (b + 1) / 2); } else { span_mono(1, (b + 1) / 2); } } }
pub proof fn span_bound(n: int) requires n >= 1 ensures 1 <= span(n), n >= 2 ==> span(n) <= 2 * (n - 1), n == 1 ==> span(n) == 1 decreases n
{ reveal_with_fuel(span, 3); if n > 1 { span_bound((n + 1) / 2); } }
pub proof fn fits_root(n: int) requires n >= 1 ensures fits(1, n, 4 * n) { span_bound(n); }
pub proof fn fits_child(o: int, n: int, cap: int) requires fits(o, n, cap)
    ensures o < cap, n > 1 ==> fits(2 * o, (n + 1) / 2, cap) && fits(2 * o + 1, n / 2, cap) && 2 * o + 1 < cap
{
    span_mono(1, n); let s = span(n); assert((o + 1) * s >= o + 1) by (nonlinear_arith) requires s >= 1, o >= 1;
    if n > 1 {
        let h = span((n + 1) / 2); let g = span(n / 2); span_mono(n / 2, (n + 1) / 2); span_mono(1, n / 2);
        assert((o + 1) * (2 * h) == (2 * o + 2) * h) by (nonlinear_arith);
        assert((2 * o + 1) * h <= (2 * o + 2) * h) by (nonlinear_arith) requires h >= 1;
        assert((2 * o + 2) * g <= (2 * o + 2) * h) by (nonlinear_arith) requires 1 <= g <= h, o >= 1;
        assert((2 * o + 2) * g >= 2 * o + 2) by (nonlinear_arith) requires 1 <= g, o >= 1;
    }
}
pub proof fn sub_up(o: int, k: int) requires o >= 1, k >= 0 ensures insub(2 * o, k) || insub(2 * o + 1, k) ==> insub(o, k) && k > o, !(insub(2 * o, k) && insub(2 * o + 1, k)) decreases k
{ if k > 2 * o { sub_up(o, k / 2); } if k > 0 { assert(k == 2 * o || k == 2 * o + 1 ==> k / 2 == o && insub(o, k / 2)); } }
// a change below one child leaves the other child and the node itself alone
pub proof fn frame_child(a: Seg, b: Seg, o: int, c: int)
    requires o >= 1, c == 2 * o || c == 2 * o + 1, frame(a, b, c)
    ensures frame(a, b, o), o < a.minVal@.len() ==> sameat(a, b, o), forall|k: int| 0 <= k < a.minVal@.len() && insub((if c == 2 * o { 2 * o + 1 } else { 2 * o }), k) ==> #[trigger] sameat(a, b, k)
{
    assert forall|k: int| 0 <= k < a.minVal@.len() && !insub(o, k) implies #[trigger] sameat(a, b, k) by { sub_up(o, k); }
    assert forall|k: int| 0 <= k < a.minVal@.len() && insub((if c == 2 * o { 2 * o + 1 } else { 2 * o }), k) implies #[trigger] sameat(a, b, k) by { sub_up(o, k); }
    sub_up(o, o);
}
// the represented values depend only on the nodes below o
pub proof fn agree(a: Seg, b: Seg, o: int, n: int, cap: int)
    requires lens(a, cap), lens(b, cap), fits(o, n, cap), forall|k: int| 0 <= k < cap && insub(o, k) ==> #[trigger] sameat(a, b, k)
    ensures raw(a, o, n) == raw(b, o, n), cur(a, o, n) == cur(b, o, n), ok(a, o, n) == ok(b, o, n)
    decreases n
{
    fits_child(o, n, cap); assert(insub(o, o)); assert(sameat(a, b, o));
    if n > 1 {
        assert forall|k: int| 0 <= k < cap && insub(2 * o, k) implies #[trigger] sameat(a, b, k) by { sub_up(o, k); }
        assert forall|k: int| 0 <= k < cap && insub(2 * o + 1, k) implies #[trigger] sameat(a, b, k) by { sub_up(o, k); }
        agree(a, b, 2 * o, (n + 1) / 2, cap); agree(a, b, 2 * o + 1, n / 2, cap);
    }
    assert(cur(a, o, n) =~= cur(b, o, n));
}
pub proof fn sum_cat(x: Seq<real>, y: Seq<real>) ensures ssum(x + y) == ssum(x) + ssum(y) decreases y.len()
{ if y.len() > 0 { sum_cat(x, y.drop_last()); assert((x + y).drop_last() =~= x + y.drop_last()); } else { assert(x + y =~= x); } }
pub proof fn sum_app(t: Seg, o: int, s: Seq<real>)
    ensures ssum(apps(t, o, s)) == (if ha(t, o) { (if hm(t, o) { ssum(s) * ml(t, o) } else { ssum(s) }) + ad(t, o) * (s.len() as real) } else { if hm(t, o) { ssum(s) * ml(t, o) } else { ssum(s) } })
    decreases s.len()
{
    let (m, d) = (ml(t, o), ad(t, o));
    if s.len() > 0 {
        let p = s.drop_last(); sum_app(t, o, p); assert(apps(t, o, s).drop_last() =~= apps(t, o, p));
        let (u, v, n) = (ssum(p), s.last(), p.len() as real); assert((u + v) * m == u * m + v * m) by (nonlinear_arith); assert(d * (n + 1real) == d * n + d) by (nonlinear_arith);
        assert(s.len() as real == n + 1real);
    } else { assert(0real * m == 0real && d * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn minmax_app(t: Seg, o: int, s: Seq<real>, lo: real, hi: real)
    requires ismin(s, lo), ismax(s, hi)
    ensures ({ let (p, q) = (app(t, o, lo), app(t, o, hi)); if q < p { ismin(apps(t, o, s), q) && ismax(apps(t, o, s), p) } else { ismin(apps(t, o, s), p) && ismax(apps(t, o, s), q) } })
{
    let m = ml(t, o); let z = apps(t, o, s);
    let a = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == lo; let b = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == hi;
    assert(z[a] == app(t, o, lo) && z[b] == app(t, o, hi));
    assert forall|i: int| 0 <= i < s.len() implies (if m >= 0real { lo * m <= #[trigger] s[i] * m <= hi * m } else { hi * m <= s[i] * m <= lo * m }) by {
        let x = s[i]; assert(lo <= x <= hi);
        if m >= 0real { assert(lo * m <= x * m && x * m <= hi * m) by (nonlinear_arith) requires m >= 0real, lo <= x, x <= hi; }
        else { assert(hi * m <= x * m && x * m <= lo * m) by (nonlinear_arith) requires m <= 0real, lo <= x, x <= hi; }
    }
    assert forall|i: int| 0 <= i < z.len() implies (app(t, o, lo) <= #[trigger] z[i] <= app(t, o, hi) || app(t, o, hi) <= z[i] <= app(t, o, lo)) by { let x = s[i]; assert(lo <= x <= hi); }
    let (p, q) = (app(t, o, lo), app(t, o, hi));
    assert forall|i: int| 0 <= i < z.len() implies (if q < p { q <= #[trigger] z[i] <= p } else { p <= z[i] <= q }) by { }
}
// the single steps of update: b is a with the operations pending at o applied to o and handed to its children
pub open spec fn child_eq(a: Seg, b: Seg, o: int, c: int) -> bool {
    hm(b, c) == (hm(a, c) || hm(a, o)) && ha(b, c) == (ha(a, c) || ha(a, o)) && a.minVal@[c] == b.minVal@[c] && a.maxVal@[c] == b.maxVal@[c] && a.sumVal@[c] == b.sumVal@[c]
    && (hm(b, c) ==> ml(b, c) == (if !hm(a, o) { ml(a, c) } else if hm(a, c) { ml(a, c) * ml(a, o) } else { ml(a, o) }))
    && (ha(b, c) ==> ad(b, c) == ({ let x = if hm(a, o) { ad(a, c) * ml(a, o) } else { ad(a, c) }; if !ha(a, o) { x } else if ha(a, c) { x + ad(a, o) } else { ad(a, o) } }))
}
pub open spec fn updated(a: Seg, b: Seg, o: int, n: int) -> bool {
    a.size == b.size && lens(b, a.minVal@.len() as int) && !hm(b, o) && !ha(b, o)
    && sm(b, o) == ({ let y = if hm(a, o) { sm(a, o) * ml(a, o) } else { sm(a, o) }; if ha(a, o) { y + ad(a, o) * (n as real) } else { y } })
    && ({ let (p, q) = (app(a, o, mn(a, o)), app(a, o, mx(a, o))); if n > 1 && q < p { mn(b, o) == q && mx(b, o) == p } else { mn(b, o) == p && mx(b, o) == q } })
    && (n > 1 ==> child_eq(a, b, o, 2 * o) && child_eq(a, b, o, 2 * o + 1))
    && (forall|k: int| 0 <= k < a.minVal@.len() && k != o && (n <= 1 || k != 2 * o && k != 2 * o + 1) ==> #[trigger] sameat(a, b, k))
}
pub proof fn app_compose(a: Seg, b: Seg, o: int, c: int, x: real) requires child_eq(a, b, o, c) ensures app(b, c, x) == app(a, o, app(a, c, x))
{
    let (m, d, mo) = (ml(a, c), ad(a, c), ml(a, o));
    assert((x * m) * mo == x * (m * mo)) by (nonlinear_arith);
    assert((x * m + d) * mo == x * (m * mo) + d * mo) by (nonlinear_arith);
    assert((x + d) * mo == x * mo + d * mo) by (nonlinear_arith);
}
pub proof fn child_cur(a: Seg, b: Seg, o: int, c: int, n: int, cap: int)
    requires lens(a, cap), lens(b, cap), fits(c, n, cap), child_eq(a, b, o, c), forall|k: int| 0 <= k < cap && insub(c, k) && k != c ==> #[trigger] sameat(a, b, k)
    ensures cur(b, c, n) == apps(a, o, cur(a, c, n)), ok(b, c, n) == ok(a, c, n), cur(a, c, n).len() == n
{
    fits_child(c, n, cap);
    if n > 1 {
        assert forall|k: int| 0 <= k < cap && insub(2 * c, k) implies #[trigger] sameat(a, b, k) by { sub_up(c, k); }
        assert forall|k: int| 0 <= k < cap && insub(2 * c + 1, k) implies #[trigger] sameat(a, b, k) by { sub_up(c, k); }
        agree(a, b, 2 * c, (n + 1) / 2, cap); agree(a, b, 2 * c + 1, n / 2, cap);
    }
    assert(raw(a, c, n) == raw(b, c, n)); raw_len(a, c, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] cur(b, c, n)[i] == apps(a, o, cur(a, c, n))[i] by { app_compose(a, b, o, c, raw(a, c, n)[i]); }
    assert(cur(b, c, n) =~= apps(a, o, cur(a, c, n)));
}
pub proof fn update_ok(a: Seg, b: Seg, o: int, n: int)
    requires inv(a, o, n), updated(a, b, o, n)
    ensures inv(b, o, n), frame(a, b, o), cur(b, o, n) == cur(a, o, n), raw(b, o, n) == cur(a, o, n)
{
    let cap = a.minVal@.len() as int; fits_child(o, n, cap); raw_len(a, o, n); raw_len(b, o, n);
    let s = raw(a, o, n);
    sum_app(a, o, s); minmax_app(a, o, s, mn(a, o), mx(a, o));
    if n > 1 {
        let (h, g) = ((n + 1) / 2, n / 2);
        assert forall|k: int| 0 <= k < cap && insub(2 * o, k) && k != 2 * o implies #[trigger] sameat(a, b, k) by { sub_up(o, k); assert(insub(2 * o + 1, 2 * o + 1)); }
        assert forall|k: int| 0 <= k < cap && insub(2 * o + 1, k) && k != 2 * o + 1 implies #[trigger] sameat(a, b, k) by { sub_up(o, k); assert(insub(2 * o, 2 * o)); }
        child_cur(a, b, o, 2 * o, h, cap); child_cur(a, b, o, 2 * o + 1, g, cap);
        raw_len(a, 2 * o, h); raw_len(a, 2 * o + 1, g);
        assert(raw(b, o, n) =~= apps(a, o, s));
    } else { assert(raw(b, o, n) =~= apps(a, o, s)); assert(s[0] == sm(a, o)); assert(ad(a, o) * 1real == ad(a, o)) by (nonlinear_arith); assert(n == 1); let z = apps(a, o, s); assert(z[0] == app(a, o, s[0])); }
    assert(cur(b, o, n) =~= raw(b, o, n));
    assert(node_ok(b, o, raw(b, o, n)));
    assert forall|k: int| 0 <= k < cap && !insub(o, k) implies #[trigger] sameat(a, b, k) by { if n > 1 { assert(insub(o, (2 * o) / 2) && insub(o, (2 * o + 1) / 2)); assert(insub(o, 2 * o) && insub(o, 2 * o + 1)); } }
}
pub proof fn ismin_cat(x: Seq<real>, y: Seq<real>, a: real, b: real)
    requires ismin(x, a), ismin(y, b) ensures ismin(x + y, if b < a { b } else { a })
{
    let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == a; let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j] == b;
    assert((x + y)[i] == a && (x + y)[x.len() + j] == b);
    assert forall|k: int| 0 <= k < (x + y).len() implies (if b < a { b } else { a }) <= #[trigger] (x + y)[k] by { if k < x.len() { assert(x[k] >= a); } else { assert(y[k - x.len()] >= b); } }
}
pub proof fn ismax_cat(x: Seq<real>, y: Seq<real>, a: real, b: real)
    requires ismax(x, a), ismax(y, b) ensures ismax(x + y, if a < b { b } else { a })
{
    let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == a; let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j] == b;
    assert((x + y)[i] == a && (x + y)[x.len() + j] == b);
    assert forall|k: int| 0 <= k < (x + y).len() implies #[trigger] (x + y)[k] <= (if a < b { b } else { a }) by { if k < x.len() { assert(x[k] <= a); } else { assert(y[k - x.len()] <= b); } }
}
// a node without pending operations whose values come from its children, the children without pending operations
pub proof fn join_ok(t: Seg, o: int, n: int)
    requires n > 1, lens(t, 4 * t.size), 0 <= t.size <= 0x0fff_ffff, fits(o, n, 4 * t.size), ok(t, 2 * o, (n + 1) / 2), ok(t, 2 * o + 1, n / 2), !hm(t, 2 * o), !ha(t, 2 * o), !hm(t, 2 * o + 1), !ha(t, 2 * o + 1),
      mn(t, o) == (if mn(t, 2 * o + 1) < mn(t, 2 * o) { mn(t, 2 * o + 1) } else { mn(t, 2 * o) }), mx(t, o) == (if mx(t, 2 * o) < mx(t, 2 * o + 1) { mx(t, 2 * o + 1) } else { mx(t, 2 * o) }), sm(t, o) == sm(t, 2 * o) + sm(t, 2 * o + 1)
    ensures inv(t, o, n)
{
    let (h, g) = ((n + 1) / 2, n / 2);
    assert(cur(t, 2 * o, h) =~= raw(t, 2 * o, h)); assert(cur(t, 2 * o + 1, g) =~= raw(t, 2 * o + 1, g));
    let (x, y) = (raw(t, 2 * o, h), raw(t, 2 * o + 1, g));
    assert(node_ok(t, 2 * o, x) && node_ok(t, 2 * o + 1, y));
    ismin_cat(x, y, mn(t, 2 * o), mn(t, 2 * o + 1)); ismax_cat(x, y, mx(t, 2 * o), mx(t, 2 * o + 1)); sum_cat(x, y);
    assert(raw(t, o, n) =~= x + y);
}

// b differs from a at most in node o itself
pub open spec fn only(a: Seg, b: Seg, o: int) -> bool { a.size == b.size && (forall|k: int| 0 <= k < a.minVal@.len() && k != o ==> #[trigger] sameat(a, b, k)) }
pub proof fn only_node(a: Seg, b: Seg, o: int, n: int)
    requires inv0(a, o, n), lens(b, 4 * a.size), only(a, b, o)
    ensures frame(a, b, o), n > 1 ==> cur(a, 2 * o, (n + 1) / 2) == cur(b, 2 * o, (n + 1) / 2) && ok(a, 2 * o, (n + 1) / 2) == ok(b, 2 * o, (n + 1) / 2) && cur(a, 2 * o + 1, n / 2) == cur(b, 2 * o + 1, n / 2) && ok(a, 2 * o + 1, n / 2) == ok(b, 2 * o + 1, n / 2) && raw(a, o, n) == raw(b, o, n)
{
    let cap = 4 * a.size; fits_child(o, n, cap);
    assert forall|k: int| 0 <= k < cap && !insub(o, k) implies #[trigger] sameat(a, b, k) by { assert(insub(o, o)); }
    if n > 1 {
        assert forall|k: int| 0 <= k < cap && insub(2 * o, k) implies #[trigger] sameat(a, b, k) by { sub_up(o, k); }
        assert forall|k: int| 0 <= k < cap && insub(2 * o + 1, k) implies #[trigger] sameat(a, b, k) by { sub_up(o, k); }
        agree(a, b, 2 * o, (n + 1) / 2, cap); agree(a, b, 2 * o + 1, n / 2, cap);
    }
}
pub open spec fn inv0(t: Seg, o: int, n: int) -> bool { 0 <= t.size <= 0x0fff_ffff && lens(t, 4 * t.size) && fits(o, n, 4 * t.size) }
// what operations below one child do to the rest of the tree
pub proof fn frames(o: int, n: int)
    requires o >= 1, n >= 1
    ensures
      forall|a: Seg, b: Seg| #[trigger] frame(a, b, 2 * o) && n > 1 && inv0(a, o, n) && inv0(b, o, n) ==> frame(a, b, o) && sameat(a, b, o) && sameat(a, b, 2 * o + 1) && cur(a, 2 * o + 1, n / 2) == cur(b, 2 * o + 1, n / 2) && ok(a, 2 * o + 1, n / 2) == ok(b, 2 * o + 1, n / 2)
        && (cur(a, 2 * o, (n + 1) / 2) == cur(b, 2 * o, (n + 1) / 2) && ok(b, 2 * o, (n + 1) / 2) && ok(a, o, n) ==> ok(b, o, n) && raw(a, o, n) == raw(b, o, n) && cur(a, o, n) == cur(b, o, n)),
      forall|a: Seg, b: Seg| #[trigger] frame(a, b, 2 * o + 1) && n > 1 && inv0(a, o, n) && inv0(b, o, n) ==> frame(a, b, o) && sameat(a, b, o) && sameat(a, b, 2 * o) && cur(a, 2 * o, (n + 1) / 2) == cur(b, 2 * o, (n + 1) / 2) && ok(a, 2 * o, (n + 1) / 2) == ok(b, 2 * o, (n + 1) / 2)
        && (cur(a, 2 * o + 1, n / 2) == cur(b, 2 * o + 1, n / 2) && ok(b, 2 * o + 1, n / 2) && ok(a, o, n) ==> ok(b, o, n) && raw(a, o, n) == raw(b, o, n) && cur(a, o, n) == cur(b, o, n)),
      forall|a: Seg, b: Seg, c: Seg| #[trigger] frame(a, b, o) && #[trigger] frame(b, c, o) ==> frame(a, c, o),
      forall|a: Seg| frame(a, a, o), forall|t: Seg| n > 1 && #[trigger] ok(t, o, n) ==> ok(t, 2 * o, (n + 1) / 2) && ok(t, 2 * o + 1, n / 2),
      forall|t: Seg| n > 1 ==> #[trigger] raw(t, o, n) == cur(t, 2 * o, (n + 1) / 2) + cur(t, 2 * o + 1, n / 2),
      forall|t: Seg| n > 1 ==> (#[trigger] cur(t, 2 * o, (n + 1) / 2)).len() == (n + 1) / 2, forall|t: Seg| n > 1 ==> (#[trigger] cur(t, 2 * o + 1, n / 2)).len() == n / 2, forall|t: Seg| (#[trigger] cur(t, o, n)).len() == n,
      forall|cap: int| #[trigger] fits(o, n, cap) ==> o < cap && (n > 1 ==> fits(2 * o, (n + 1) / 2, cap) && fits(2 * o + 1, n / 2, cap) && 2 * o + 1 < cap),
      pow2(1) == 2
{
    lemma2_to64();
    let (h, g) = ((n + 1) / 2, n / 2);
    assert forall|a: Seg, b: Seg| #[trigger] frame(a, b, 2 * o) && n > 1 && inv0(a, o, n) && inv0(b, o, n) implies frame(a, b, o) && sameat(a, b, o) && sameat(a, b, 2 * o + 1) && cur(a, 2 * o + 1, g) == cur(b, 2 * o + 1, g) && ok(a, 2 * o + 1, g) == ok(b, 2 * o + 1, g)
        && (cur(a, 2 * o, h) == cur(b, 2 * o, h) && ok(b, 2 * o, h) && ok(a, o, n) ==> ok(b, o, n) && raw(a, o, n) == raw(b, o, n) && cur(a, o, n) == cur(b, o, n)) by {
        fits_child(o, n, 4 * a.size); frame_child(a, b, o, 2 * o); assert(insub(2 * o + 1, 2 * o + 1)); agree(a, b, 2 * o + 1, g, 4 * a.size);
    }
    assert forall|a: Seg, b: Seg| #[trigger] frame(a, b, 2 * o + 1) && n > 1 && inv0(a, o, n) && inv0(b, o, n) implies frame(a, b, o) && sameat(a, b, o) && sameat(a, b, 2 * o) && cur(a, 2 * o, h) == cur(b, 2 * o, h) && ok(a, 2 * o, h) == ok(b, 2 * o, h)
        && (cur(a, 2 * o + 1, g) == cur(b, 2 * o + 1, g) && ok(b, 2 * o + 1, g) && ok(a, o, n) ==> ok(b, o, n) && raw(a, o, n) == raw(b, o, n) && cur(a, o, n) == cur(b, o, n)) by {
        fits_child(o, n, 4 * a.size); frame_child(a, b, o, 2 * o + 1); assert(insub(2 * o, 2 * o)); agree(a, b, 2 * o, h, 4 * a.size);
    }
    assert forall|a: Seg, b: Seg, c: Seg| #[trigger] frame(a, b, o) && #[trigger] frame(b, c, o) implies frame(a, c, o) by {
        assert forall|k: int| 0 <= k < a.minVal@.len() && !insub(o, k) implies #[trigger] sameat(a, c, k) by { assert(sameat(a, b, k) && sameat(b, c, k)); }
    }
    assert forall|t: Seg| n > 1 implies (#[trigger] cur(t, 2 * o, h)).len() == h by { raw_len(t, 2 * o, h); }
    assert forall|t: Seg| n > 1 implies (#[trigger] cur(t, 2 * o + 1, g)).len() == g by { raw_len(t, 2 * o + 1, g); }
    assert forall|t: Seg| (#[trigger] cur(t, o, n)).len() == n by { raw_len(t, o, n); }
    assert forall|cap: int| #[trigger] fits(o, n, cap) implies o < cap && (n > 1 ==> fits(2 * o, h, cap) && fits(2 * o + 1, g, cap) && 2 * o + 1 < cap) by { fits_child(o, n, cap); }
}
pub open spec fn vals(v: Seq<Num>) -> Seq<real> { Seq::new(v.len(), |i: int| v[i].v()) }
pub open spec fn noflags(t: Seg) -> bool { (forall|k: int| 0 <= k < t.hasMulFlag@.len() ==> !#[trigger] hm(t, k)) && (forall|k: int| 0 <= k < t.hasAddFlag@.len() ==> !#[trigger] ha(t, k)) }
// results on the concatenation of two parts
pub proof fn maxr_cat(x: Seq<real>, y: Seq<real>, l: int, lv: int, rv: int)
    ensures
      forall|a: real, b: real| #[trigger] ismaxr(x, l, lv, rv, a) && #[trigger] ismaxr(y, l + x.len(), lv, rv, b) ==> ismaxr(x + y, l, lv, rv, if a < b { b } else { a }),
      forall|a: real| rv < l + x.len() && #[trigger] ismaxr(x, l, lv, rv, a) ==> ismaxr(x + y, l, lv, rv, a),
      forall|b: real| lv >= l + x.len() && #[trigger] ismaxr(y, l + x.len(), lv, rv, b) ==> ismaxr(x + y, l, lv, rv, b)
{
    let z = x + y; assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == (if i < x.len() { x[i] } else { y[i - x.len()] }) by {}
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == z[i] by {} assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == z[x.len() + i] by {}
}
pub proof fn minr_cat(x: Seq<real>, y: Seq<real>, l: int, lv: int, rv: int)
    ensures
      forall|a: real, b: real| #[trigger] isminr(x, l, lv, rv, a) && #[trigger] isminr(y, l + x.len(), lv, rv, b) ==> isminr(x + y, l, lv, rv, if b < a { b } else { a }),
      forall|a: real| rv < l + x.len() && #[trigger] isminr(x, l, lv, rv, a) ==> isminr(x + y, l, lv, rv, a),
      forall|b: real| lv >= l + x.len() && #[trigger] isminr(y, l + x.len(), lv, rv, b) ==> isminr(x + y, l, lv, rv, b)
{
    let z = x + y; assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == (if i < x.len() { x[i] } else { y[i - x.len()] }) by {}
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == z[i] by {} assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == z[x.len() + i] by {}
}
pub proof fn mask_zero(s: Seq<real>, l: int, lv: int, rv: int) requires rv < l || lv >= l + s.len() ensures ssum(mask(s, l, lv, rv)) == 0real decreases s.len()
{ if s.len() > 0 { mask_zero(s.drop_last(), l, lv, rv); assert(mask(s, l, lv, rv).drop_last() =~= mask(s.drop_last(), l, lv, rv)); } }
pub proof fn mask_cat(x: Seq<real>, y: Seq<real>, l: int, lv: int, rv: int)
    ensures ssum(mask(x + y, l, lv, rv)) == ssum(mask(x, l, lv, rv)) + ssum(mask(y, l + x.len(), lv, rv)), rv < l + x.len() ==> ssum(mask(y, l + x.len(), lv, rv)) == 0real, lv >= l + x.len() ==> ssum(mask(x, l, lv, rv)) == 0real
{
    assert(mask(x + y, l, lv, rv) =~= mask(x, l, lv, rv) + mask(y, l + x.len(), lv, rv)); sum_cat(mask(x, l, lv, rv), mask(y, l + x.len(), lv, rv));
    if rv < l + x.len() { mask_zero(y, l + x.len(), lv, rv); } if lv >= l + x.len() { mask_zero(x, l, lv, rv); }
}
pub proof fn upd_cat(x: Seq<real>, y: Seq<real>, l: int, lv: int, rv: int, v: real)
    ensures addr(x + y, l, lv, rv, v) == addr(x, l, lv, rv, v) + addr(y, l + x.len(), lv, rv, v), mulr(x + y, l, lv, rv, v) == mulr(x, l, lv, rv, v) + mulr(y, l + x.len(), lv, rv, v),
      rv < l + x.len() ==> addr(y, l + x.len(), lv, rv, v) == y && mulr(y, l + x.len(), lv, rv, v) == y, lv >= l + x.len() ==> addr(x, l, lv, rv, v) == x && mulr(x, l, lv, rv, v) == x
{
    assert(addr(x + y, l, lv, rv, v) =~= addr(x, l, lv, rv, v) + addr(y, l + x.len(), lv, rv, v)); assert(mulr(x + y, l, lv, rv, v) =~= mulr(x, l, lv, rv, v) + mulr(y, l + x.len(), lv, rv, v));
    if rv < l + x.len() { assert(addr(y, l + x.len(), lv, rv, v) =~= y); assert(mulr(y, l + x.len(), lv, rv, v) =~= y); }
    if lv >= l + x.len() { assert(addr(x, l, lv, rv, v) =~= x); assert(mulr(x, l, lv, rv, v) =~= x); }
}
// all elements in range
pub proof fn full(s: Seq<real>, l: int, lv: int, rv: int)
    requires lv <= l, rv >= l + s.len() - 1
    ensures mask(s, l, lv, rv) == s, forall|m: real| #[trigger] ismax(s, m) ==> ismaxr(s, l, lv, rv, m), forall|m: real| #[trigger] ismin(s, m) ==> isminr(s, l, lv, rv, m)
{ assert(mask(s, l, lv, rv) =~= s); }

@fn cuhksz::SegmentTree<double>::update as seg_update
@params o l r
@requires
0 <= l <= r < old(this).size, inv(*old(this), o as int, r - l + 1)
@ensures
inv(*final(this), o as int, r - l + 1), frame(*old(this), *final(this), o as int), cur(*final(this), o as int, r - l + 1) == cur(*old(this), o as int, r - l + 1), raw(*final(this), o as int, r - l + 1) == cur(*old(this), o as int, r - l + 1), !hm(*final(this), o as int), !ha(*final(this), o as int)
@entry
proof { frames(o as int, r - l + 1); }
@ret
let d0 = ad(*old(this), o as int); assert(d0 * 1real == d0) by (nonlinear_arith);
assert(updated(*old(this), *this, o as int, r - l + 1));
update_ok(*old(this), *this, o as int, r - l + 1);

@fn cuhksz::SegmentTree<double>::pullUp as seg_pull
@params o l r
@requires
0 <= l < r < old(this).size, inv0(*old(this), o as int, r - l + 1), !hm(*old(this), o as int), !ha(*old(this), o as int), ok(*old(this), 2 * o, (r - l + 2) / 2), ok(*old(this), 2 * o + 1, (r - l + 1) / 2)
@ensures
inv(*final(this), o as int, r - l + 1), frame(*old(this), *final(this), o as int), cur(*final(this), o as int, r - l + 1) == cur(*old(this), 2 * o, (r - l + 2) / 2) + cur(*old(this), 2 * o + 1, (r - l + 1) / 2)
@entry
let ghost mut g1 = *this;
proof { frames(o as int, r - l + 1); }
@aftercall seg_update 2
g1 = *this;
@ret
only_node(g1, *this, o as int, r - l + 1);
join_ok(*this, o as int, r - l + 1);
assert(cur(*this, o as int, r - l + 1) =~= raw(*this, o as int, r - l + 1));

@fn cuhksz::SegmentTree<double>::init as seg_init
@params v l r o
@requires
0 <= l <= r < old(this).size, r < old(v)@.len(), inv0(*old(this), o as int, r - l + 1), noflags(*old(this))
@ensures
inv(*final(this), o as int, r - l + 1), noflags(*final(this)), frame(*old(this), *final(this), o as int), final(v)@ == old(v)@, cur(*final(this), o as int, r - l + 1) == vals(old(v)@).subrange(l as int, r + 1)
@decreases r - l
@entry
let ghost mut g1 = *this;
proof { frames(o as int, r - l + 1); }
@aftercall seg_init 2
g1 = *this;
@ret
only_node(if l == r { *old(this) } else { g1 }, *this, o as int, r - l + 1);
if l < r {
    join_ok(*this, o as int, r - l + 1);
    assert(raw(*this, o as int, r - l + 1) =~= vals(v@).subrange(l as int, r + 1));
} else { let s = raw(*this, o as int, r - l + 1); assert(s =~= vals(v@).subrange(l as int, r + 1)); assert(s[0] == v@[l as int].v()); assert(s.drop_last() =~= Seq::<real>::empty()); assert(ssum(s.drop_last()) == 0real); }
assert(cur(*this, o as int, r - l + 1) =~= raw(*this, o as int, r - l + 1));

@fn cuhksz::SegmentTree<double>::SegmentTree as seg_new sig void (std::vector<double> &)
@opt ctorof cuhksz::SegmentTree<double>
@params v
@requires
old(v)@.len() <= 0x0fff_ffff
@ensures
final(v)@ == old(v)@, wf(r), r.size == old(v)@.len(), arr(r) == vals(old(v)@)
@loop 1
@invariant
v@ == old(v)@, 0 <= i <= 4 * this_.size, this_.size == v@.len(), this_.size <= 0x0fff_ffff, lens(this_, i as int), noflags(this_)
@decreases 4 * this_.size - i
@after
proof { if this_.size > 0 { fits_root(this_.size as int); assert(vals(v@).subrange(0, v@.len() as int) =~= vals(v@)); } else { assert(vals(v@) =~= Seq::<real>::empty()); } }

@repeat Q=queryMax P=ismaxr C=maxr ; Q=queryMin P=isminr C=minr
@fn cuhksz::SegmentTree<double>::$Q as seg_$Q_ sig double (int, int, int, int, int)
@params lv rv l r o
@requires
0 <= l <= r < old(this).size, lv <= rv, lv <= r, l <= rv, inv(*old(this), o as int, r - l + 1)
@ensures
inv(*final(this), o as int, r - l + 1), frame(*old(this), *final(this), o as int), cur(*final(this), o as int, r - l + 1) == cur(*old(this), o as int, r - l + 1), $P(cur(*old(this), o as int, r - l + 1), l as int, lv as int, rv as int, res.v())
@opt result res
@decreases r - l
@entry
let ghost a0 = *this;
proof { frames(o as int, r - l + 1); if l < r { $C_cat(cur(a0, 2 * o, (r - l + 2) / 2), cur(a0, 2 * o + 1, (r - l + 1) / 2), l as int, lv as int, rv as int); } if lv <= l && rv >= r { full(cur(a0, o as int, r - l + 1), l as int, lv as int, rv as int); } }
@aftercall seg_update 1
if l < r { $C_cat(cur(*this, 2 * o, (r - l + 2) / 2), cur(*this, 2 * o + 1, (r - l + 1) / 2), l as int, lv as int, rv as int); }

@fn cuhksz::SegmentTree<double>::$Q as seg_$Q sig double (int, int)
@params lv rv
@requires
wf(*old(this)), lv <= rv, 0 < old(this).size, lv < old(this).size, 0 <= rv
@ensures
wf(*final(this)), final(this).size == old(this).size, arr(*final(this)) == arr(*old(this)), $P(arr(*old(this)), 0, lv as int, rv as int, res.v())
@opt result res
@entry
proof { fits_root(this.size as int); }
@endrepeat

@fn cuhksz::SegmentTree<double>::querySum as seg_querySum_ sig double (int, int, int, int, int)
@params lv rv l r o
@requires
0 <= l <= r < old(this).size, lv <= rv, lv <= r, l <= rv, inv(*old(this), o as int, r - l + 1)
@ensures
inv(*final(this), o as int, r - l + 1), frame(*old(this), *final(this), o as int), cur(*final(this), o as int, r - l + 1) == cur(*old(this), o as int, r - l + 1), res.v() == ssum(mask(cur(*old(this), o as int, r - l + 1), l as int, lv as int, rv as int))
@opt result res
@decreases r - l
@entry
proof { frames(o as int, r - l + 1); if lv <= l && rv >= r { full(cur(*this, o as int, r - l + 1), l as int, lv as int, rv as int); } }
@aftercall seg_update 1
if l < r { mask_cat(cur(*this, 2 * o, (r - l + 2) / 2), cur(*this, 2 * o + 1, (r - l + 1) / 2), l as int, lv as int, rv as int); }

@fn cuhksz::SegmentTree<double>::querySum as seg_querySum sig double (int, int)
@params lv rv
@requires
wf(*old(this)), lv <= rv, 0 < old(this).size, lv < old(this).size, 0 <= rv
@ensures
wf(*final(this)), final(this).size == old(this).size, arr(*final(this)) == arr(*old(this)), res.v() == ssum(mask(arr(*old(this)), 0, lv as int, rv as int))
@opt result res
@entry
proof { fits_root(this.size as int); }

@repeat Q=addInterval F=addr ; Q=mulInterval F=mulr
@fn cuhksz::SegmentTree<double>::$Q as seg_$Q_ sig void (int, int, double, int, int, int)
@params lv rv x l r o
@requires
0 <= l <= r < old(this).size, lv <= rv, lv <= r, l <= rv, inv(*old(this), o as int, r - l + 1)
@ensures
inv(*final(this), o as int, r - l + 1), frame(*old(this), *final(this), o as int), cur(*final(this), o as int, r - l + 1) == $F(cur(*old(this), o as int, r - l + 1), l as int, lv as int, rv as int, x.v())
@decreases r - l
@entry
let ghost mut u = *this;
proof { frames(o as int, r - l + 1); }
@aftercall seg_update 1
u = *this;
if l < r { upd_cat(cur(*this, 2 * o, (r - l + 2) / 2), cur(*this, 2 * o + 1, (r - l + 1) / 2), l as int, lv as int, rv as int, x.v()); }
@ret
if lv <= l && rv >= r { only_node(u, *this, o as int, r - l + 1); assert(cur(*this, o as int, r - l + 1) =~= $F(raw(u, o as int, r - l + 1), l as int, lv as int, rv as int, x.v())); }

@fn cuhksz::SegmentTree<double>::$Q as seg_$Q sig void (int, int, double)
@params lv rv x
@requires
wf(*old(this)), lv <= rv, 0 < old(this).size, lv < old(this).size, 0 <= rv
@ensures
wf(*final(this)), final(this).size == old(this).size, arr(*final(this)) == $F(arr(*old(this)), 0, lv as int, rv as int, x.v())
@entry
proof { fits_root(this.size as int); }
@endrepeat

@fn cuhksz::SegmentTree<double>::getSize as seg_size
@opt this ref
@ensures
r == this.size
