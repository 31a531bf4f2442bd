@# Tree: power-of-two ancestor tables and lowest common ancestors
@driver
#include "/repo/src/graph/Tree.cpp"

@heap Node
@struct cuhksz::Tree => Tree
@trusted Tree: the number of nodes on a path fits 2^30
@prelude
#[verifier::inline]
pub open spec fn fa(h: Heap, p: Ptr) -> Ptr { h.objs_Node()[p].fa }
#[verifier::inline]
pub open spec fn ht(h: Heap, p: Ptr) -> int { h.objs_Node()[p].height as int }
#[verifier::inline]
pub open spec fn an(h: Heap, p: Ptr) -> Seq<Ptr> { h.objs_Node()[p].ancestor }
#[verifier::inline]
pub open spec fn has(h: Heap, p: Ptr) -> bool { h.objs_Node().dom().contains(p) }
// the k-th ancestor
pub open spec fn up(h: Heap, p: Ptr, k: int) -> Ptr decreases k { if k <= 0 { p } else { up(h, fa(h, p), k - 1) } }
// p and everything above it up to a root is in order
pub open spec fn good(h: Heap, p: Ptr) -> bool decreases ht(h, p) {
    has(h, p) && p != 0 && 0 <= ht(h, p) <= 0x3fff_ffff && (ht(h, p) == 0 ==> fa(h, p) == 0)
    && (ht(h, p) > 0 ==> ht(h, fa(h, p)) == ht(h, p) - 1 && good(h, fa(h, p)))
    && table(h, p)
}
pub open spec fn table(h: Heap, p: Ptr) -> bool {
    (forall|i: int| #![trigger an(h, p)[i]] #![trigger pow2(i as nat)] 0 <= i ==> (i < an(h, p).len() <==> pow2(i as nat) <= ht(h, p)))
    && (forall|i: int| 0 <= i < an(h, p).len() ==> #[trigger] an(h, p)[i] == up(h, p, pow2(i as nat) as int))
}
pub open spec fn rootof(h: Heap, p: Ptr) -> Ptr { up(h, p, ht(h, p)) }
// node q does not occur on the path from p to its root
pub open spec fn off(h: Heap, p: Ptr, q: Ptr) -> bool { forall|k: int| 0 <= k <= ht(h, p) ==> #[trigger] up(h, p, k) != q }
pub open spec fn same(a: Heap, b: Heap, q: Ptr) -> bool { forall|p: Ptr| p != q && has(a, p) ==> #[trigger] has(b, p) && fa(a, p) == fa(b, p) && ht(a, p) == ht(b, p) && an(a, p) == an(b, p) }

pub open spec fn is_lca(h: Heap, x: Ptr, y: Ptr, c: Ptr) -> bool {
    good(h, c) && ht(h, c) <= ht(h, x) && ht(h, c) <= ht(h, y) && up(h, x, ht(h, x) - ht(h, c)) == c && up(h, y, ht(h, y) - ht(h, c)) == c
    && forall|j: int| ht(h, c) < j <= ht(h, x) && j <= ht(h, y) ==> #[trigger] up(h, x, ht(h, x) - j) != up(h, y, ht(h, y) - j)
}
// where two paths have met they stay together
pub proof fn met(h: Heap, x: Ptr, y: Ptr, a: int, b: int, d: int) requires up(h, x, a) == up(h, y, b), a >= 0, b >= 0, d >= 0 ensures up(h, x, a + d) == up(h, y, b + d)
{ up_add(h, x, a, d); up_add(h, y, b, d); }
pub proof fn p2u(i: nat) ensures pow2(i + 1) == 2 * pow2(i), pow2(i) >= 1 { lemma_pow2_unfold(i + 1); lemma_pow2_pos(i); }
pub proof fn up_add(h: Heap, p: Ptr, a: int, b: int) requires a >= 0, b >= 0 ensures up(h, up(h, p, a), b) == up(h, p, a + b) decreases a
{ if a > 0 { up_add(h, fa(h, p), a - 1, b); } }
// everything on the path is in order
pub proof fn good_up(h: Heap, p: Ptr, k: int) requires good(h, p), 0 <= k <= ht(h, p)
    ensures good(h, up(h, p, k)), ht(h, up(h, p, k)) == ht(h, p) - k, rootof(h, up(h, p, k)) == rootof(h, p) decreases k
{ if k > 0 { good_up(h, fa(h, p), k - 1); } else { } }
// only the path matters
pub proof fn frame(a: Heap, b: Heap, q: Ptr, p: Ptr) requires same(a, b, q), good(a, p), off(a, p, q)
    ensures good(b, p), ht(b, p) == ht(a, p), an(b, p) == an(a, p), has(b, p), forall|k: int| 0 <= k <= ht(a, p) ==> #[trigger] up(b, p, k) == up(a, p, k)
    decreases ht(a, p)
{
    assert(up(a, p, 0) != q); assert(has(b, p));
    if ht(a, p) > 0 {
        let f = fa(a, p);
        assert forall|k: int| 0 <= k <= ht(a, f) implies #[trigger] up(a, f, k) != q by { assert(up(a, p, k + 1) == up(a, f, k)); }
        frame(a, b, q, f);
    }
    assert forall|k: int| 0 <= k <= ht(a, p) implies #[trigger] up(b, p, k) == up(a, p, k) by { if k > 0 { assert(up(b, fa(b, p), k - 1) == up(a, fa(a, p), k - 1)); } }
    assert forall|i: int| 0 <= i < an(b, p).len() implies #[trigger] an(b, p)[i] == up(b, p, pow2(i as nat) as int) by { assert(an(a, p)[i] == up(a, p, pow2(i as nat) as int)); assert(pow2(i as nat) <= ht(a, p)); }
    assert(table(b, p)) by { assert(table(a, p)); assert forall|i: int| #![trigger an(b, p)[i]] #![trigger pow2(i as nat)] 0 <= i implies (i < an(b, p).len() <==> pow2(i as nat) <= ht(b, p)) by { assert(i < an(a, p).len() <==> pow2(i as nat) <= ht(a, p)); } }
}
pub proof fn band_pow(a: int, i: nat) requires a >= 0 ensures band(a, pow2(i) as int) == ((a / pow2(i) as int) % 2) * pow2(i) decreases i
{
    lemma_pow2_pos(i); let m = pow2(i) as int;
    if a == 0 { assert(0int / m == 0) by (nonlinear_arith) requires m > 0; assert((0int % 2) * m == 0) by (nonlinear_arith); }
    else if i == 0 { lemma2_to64(); band_zero(a / 2); assert(((a / 1) % 2) * 1 == a % 2); }
    else {
        p2u((i - 1) as nat); band_pow(a / 2, (i - 1) as nat); let d = pow2((i - 1) as nat) as int;
        vstd::arithmetic::div_mod::lemma_div_denominator(a, 2, d);
        assert(m % 2 == 0 && m / 2 == d); let q = (a / 2 / d) % 2; assert(2 * (q * d) == q * (2 * d)) by (nonlinear_arith);
    }
}
pub proof fn band_zero(a: int) requires a >= 0 ensures band(a, 0) == 0 decreases a { if a > 0 { band_zero(a / 2); } }
// the low bits of a, and the next one
pub proof fn low_bits(a: int, i: nat) requires a >= 0 ensures a % pow2(i + 1) as int == a % pow2(i) as int + ((a / pow2(i) as int) % 2) * pow2(i)
{
    p2u(i); let m = pow2(i) as int; let q = a / m; let r = a % m;
    assert(a == q * m + r) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m); assert(m * q == q * m) by (nonlinear_arith); }
    let q2 = q / 2; let b = q % 2; assert(0 <= r < m);
    assert(a == q2 * (2 * m) + (r + b * m)) by (nonlinear_arith) requires a == q * m + r, q == 2 * q2 + b;
    assert(0 <= r + b * m < 2 * m) by (nonlinear_arith) requires 0 <= r < m, b == 0 || b == 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, 2 * m, q2, r + b * m);
}
pub proof fn pow_le(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) decreases b { if a < b { pow_le(a, (b - 1) as nat); p2u((b - 1) as nat); } }
pub proof fn proof_step(o: Heap, a: Heap, b: Heap, node: Ptr, par: Ptr, i: int)
    requires i >= 1, same(o, a, node), same(o, b, node), has(a, node), has(b, node), fa(a, node) == par, fa(b, node) == par, good(o, par), off(o, par, node), ht(b, node) == ht(o, par) + 1, ht(a, node) == ht(b, node), an(a, node).len() == i,
        forall|j: int| 0 <= j < i ==> #[trigger] an(a, node)[j] == up(a, node, pow2(j as nat) as int),
        pow2((i - 1) as nat) <= ht(a, node), ({ let m = pow2((i - 1) as nat) as int; m <= ht(a, up(a, node, m)) && ht(a, up(a, node, m)) == ht(a, node) - m && an(b, node) == an(a, node).push(up(a, node, 2 * m)) })
    ensures pow2(i as nat) <= ht(b, node), forall|j: int| 0 <= j <= i ==> #[trigger] an(b, node)[j] == up(b, node, pow2(j as nat) as int)
{
    frame(o, a, node, par); frame(o, b, node, par); p2u((i - 1) as nat);
    assert forall|k: int| 1 <= k <= ht(b, node) implies #[trigger] up(b, node, k) == up(a, node, k) by { assert(up(b, par, k - 1) == up(o, par, k - 1) == up(a, par, k - 1)); }
    assert forall|j: int| 0 <= j <= i implies #[trigger] an(b, node)[j] == up(b, node, pow2(j as nat) as int) by { lemma_pow2_pos(j as nat); if j < i { pow_le(j as nat, (i - 1) as nat); assert(an(a, node)[j] == up(a, node, pow2(j as nat) as int)); } }
}
pub proof fn tab(h: Heap, p: Ptr, i: int) requires table(h, p), i >= 0 ensures i < an(h, p).len() <==> pow2(i as nat) <= ht(h, p) { }
// the table has at most 30 entries
pub proof fn sized(h: Heap, x: Ptr, y: Ptr) requires good(h, x), good(h, y) ensures an(h, x).len() <= 30, pow2(an(h, x).len()) > ht(h, x), an(h, y).len() <= 30, pow2(an(h, y).len()) > ht(h, y)
{ lemma2_to64(); assert(pow2(30) == 0x4000_0000); tab(h, x, 30); tab(h, y, 30); tab(h, x, an(h, x).len() as int); tab(h, y, an(h, y).len() as int); }
pub open spec fn tsz(h: Heap, x: Ptr) -> bool { an(h, x).len() <= 30 && pow2(an(h, x).len()) > ht(h, x) }
pub proof fn jump(h: Heap, x: Ptr, y: Ptr) requires good(h, x), good(h, y)
    ensures ht(h, x) <= ht(h, y) ==> good(h, up(h, y, ht(h, y) - ht(h, x))) && ht(h, up(h, y, ht(h, y) - ht(h, x))) == ht(h, x) && tsz(h, up(h, y, ht(h, y) - ht(h, x))) && tsz(h, x), ht(h, x) >= ht(h, y) ==> good(h, up(h, x, ht(h, x) - ht(h, y))) && ht(h, up(h, x, ht(h, x) - ht(h, y))) == ht(h, y) && tsz(h, up(h, x, ht(h, x) - ht(h, y))) && tsz(h, y)
{ if ht(h, x) <= ht(h, y) { good_up(h, y, ht(h, y) - ht(h, x)); sized(h, up(h, y, ht(h, y) - ht(h, x)), x); } if ht(h, x) >= ht(h, y) { good_up(h, x, ht(h, x) - ht(h, y)); sized(h, up(h, x, ht(h, x) - ht(h, y)), y); } }
pub proof fn lca_step(h: Heap, x: Ptr, y: Ptr, x0: Ptr, y0: Ptr, i: int)
    requires 0 <= i <= 30, good(h, x), good(h, y), x != y, ht(h, x) == ht(h, y), good(h, x0), good(h, y0), ht(h, x) <= ht(h, x0), ht(h, y) <= ht(h, y0), x == up(h, x0, ht(h, x0) - ht(h, x)), y == up(h, y0, ht(h, y0) - ht(h, y))
    ensures pow2((i + 1) as nat) == 2 * pow2(i as nat), pow2(i as nat) >= 1,
        i < an(h, x).len() <==> pow2(i as nat) <= ht(h, x), an(h, x).len() == an(h, y).len() || (i < an(h, y).len() <==> i < an(h, x).len()),
        i < an(h, x).len() ==> ({ let m = pow2(i as nat) as int; let (u, v) = (up(h, x, m), up(h, y, m)); an(h, x)[i] == u && an(h, y)[i] == v && good(h, u) && good(h, v) && ht(h, u) == ht(h, x) - m && ht(h, v) == ht(h, y) - m
            && up(h, u, m) == up(h, x, 2 * m) && up(h, v, m) == up(h, y, 2 * m) && u == up(h, x0, ht(h, x0) - ht(h, u)) && v == up(h, y0, ht(h, y0) - ht(h, v)) })
{
    p2u(i as nat); let m = pow2(i as nat) as int; assert(i < an(h, x).len() <==> pow2(i as nat) <= ht(h, x)); assert(i < an(h, y).len() <==> pow2(i as nat) <= ht(h, y));
    if m <= ht(h, x) { good_up(h, x, m); good_up(h, y, m); up_add(h, x, m, m); up_add(h, y, m, m); up_add(h, x0, ht(h, x0) - ht(h, x), m); up_add(h, y0, ht(h, y0) - ht(h, y), m); assert(an(h, x)[i] == up(h, x, m)); assert(an(h, y)[i] == up(h, y, m)); }
}
pub proof fn lca_done(h: Heap, x: Ptr, y: Ptr, x0: Ptr, y0: Ptr, r: Ptr)
    requires good(h, x), good(h, y), ht(h, x) == ht(h, y), good(h, x0), good(h, y0), ht(h, x) <= ht(h, x0), ht(h, y) <= ht(h, y0), x == up(h, x0, ht(h, x0) - ht(h, x)), y == up(h, y0, ht(h, y0) - ht(h, y)), rootof(h, x0) == rootof(h, y0),
        x == y ==> r == x && (ht(h, x) == ht(h, x0) || ht(h, x) == ht(h, y0)), x != y ==> r == fa(h, x) && (1 > ht(h, x) || up(h, x, 1) == up(h, y, 1))
    ensures is_lca(h, x0, y0, r)
{
    let (hx, hy) = (ht(h, x0), ht(h, y0));
    if x != y {
        up_add(h, x0, hx - ht(h, x), ht(h, x)); up_add(h, y0, hy - ht(h, y), ht(h, y));
        assert(ht(h, x) > 0); good_up(h, x, 1); assert(up(h, x, 1) == up(h, fa(h, x), 0)); assert(up(h, y, 1) == up(h, fa(h, y), 0));
        up_add(h, x0, hx - ht(h, x), 1); up_add(h, y0, hy - ht(h, y), 1);
        assert forall|j: int| ht(h, r) < j <= hx && j <= hy implies #[trigger] up(h, x0, hx - j) != up(h, y0, hy - j) by { if up(h, x0, hx - j) == up(h, y0, hy - j) { met(h, x0, y0, hx - j, hy - j, j - ht(h, x)); } }
    }
}

@fn cuhksz::Node::Node as node_new sig void (int, int)
@opt heap mut
@params id val
@requires
has(*old(h), this)
@ensures
final(h).objs_Node() == old(h).objs_Node().insert(this, final(h).objs_Node()[this]), fa(*final(h), this) == 0, an(*final(h), this).len() == 0, final(h).objs_Node()[this].son.len() == 0, final(h).objs_Node()[this].id == id, final(h).objs_Node()[this].val == val
@ret
assert(h.objs_Node() =~= old(h).objs_Node().insert(this, h.objs_Node()[this]));

@fn cuhksz::Node::getAncestor as getAncestor
@opt heap ref
@params level
@requires
good(*h, this), 0 <= level <= ht(*h, this)
@ensures
r == up(*h, this, level as int)
@entry
proof { lemma2_to64(); assert(level as int % 1 == 0); }
@loop 1
@invariant
good(*h, this), 0 <= level <= ht(*h, this) <= 0x3fff_ffff, 0 <= i <= 30, i > 0 ==> pow2((i - 1) as nat) <= level, cur == up(*h, this, level as int % pow2(i as nat) as int), 0 <= level as int % pow2(i as nat) as int <= level, pow2(i as nat) <= 0x4000_0000, pow2(30) == 0x4000_0000, pow2(31) == 0x8000_0000
@decreases 31 - i
@begin
proof {
    p2u(i as nat); let l = level as int; let m = pow2(i as nat) as int; band_pow(l, i as nat); low_bits(l, i as nat); let k = l % m; let b = (l / m) % 2;
    good_up(*h, this, k); up_add(*h, this, k, m);
    assert(b * m == 0 || b * m == m) by (nonlinear_arith) requires b == 0 || b == 1;
    if b == 1 {
        let q = l / m; assert(l == q * m + k) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, m); assert(m * q == q * m) by (nonlinear_arith); }
        assert(q * m >= m) by (nonlinear_arith) requires q >= 1, m > 0;
        assert(an(*h, cur)[i as int] == up(*h, cur, m));
    }
    if i >= 29 { if i > 30 { } }
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(i as nat, 31);
    if l < 2 * m { vstd::arithmetic::div_mod::lemma_small_mod(l as nat, (2 * m) as nat); }
}
@after
proof { vstd::arithmetic::div_mod::lemma_small_mod(level as nat, pow2(i as nat)); }

@fn cuhksz::Tree::setRoot as setRoot
@opt heap mut
@params newRoot
@requires
has(*old(h), newRoot), newRoot != 0, an(*old(h), newRoot).len() == 0
@ensures
final(this).root == newRoot, good(*final(h), newRoot), ht(*final(h), newRoot) == 0, fa(*final(h), newRoot) == 0,
same(*old(h), *final(h), newRoot), has(*final(h), newRoot),
forall|p: Ptr| good(*old(h), p) && off(*old(h), p, newRoot) ==> #[trigger] good(*final(h), p)
@ret
assert(table(*h, newRoot)) by { assert forall|i: int| #![trigger pow2(i as nat)] 0 <= i implies pow2(i as nat) > 0 by { lemma_pow2_pos(i as nat); } }
assert forall|p: Ptr| good(*old(h), p) && off(*old(h), p, newRoot) implies #[trigger] good(*h, p) by { frame(*old(h), *h, newRoot, p); }

@fn cuhksz::Tree::addNode as addNode
@opt heap mut
@params node par
@requires
good(*old(h), par), has(*old(h), node), node != 0, an(*old(h), node).len() == 0, off(*old(h), par, node), ht(*old(h), par) < 0x3fff_ffff
@ensures
good(*final(h), node), fa(*final(h), node) == par, ht(*final(h), node) == ht(*old(h), par) + 1,
same(*old(h), *final(h), node), good(*final(h), par), rootof(*final(h), node) == rootof(*old(h), par),
forall|p: Ptr| good(*old(h), p) && off(*old(h), p, node) ==> #[trigger] good(*final(h), p) && rootof(*final(h), p) == rootof(*old(h), p),
final(h).objs_Node()[par].son == old(h).objs_Node()[par].son.push(node)
@entry
proof { lemma2_to64(); assert(up(*old(h), par, 0) != node); }
@loop 1
@before
proof { assert(up(*h, node, 1) == up(*h, par, 0)); }
@invariant
0 <= i <= 30, same(*old(h), *h, node), has(*h, node), node != par, good(*old(h), par), off(*old(h), par, node), 0 <= ht(*old(h), par) < 0x3fff_ffff, ht(*h, node) == ht(*old(h), par) + 1, fa(*h, node) == par,
an(*h, node).len() == i + 1, pow2(i as nat) <= ht(*h, node), pow2(30) == 0x4000_0000, pow2(0) == 1,
forall|j: int| 0 <= j <= i ==> #[trigger] an(*h, node)[j] == up(*h, node, pow2(j as nat) as int),
h.objs_Node()[par].son == old(h).objs_Node()[par].son.push(node)
@decreases 31 - i
@begin
let ghost h0 = *h;
proof {
    frame(*old(h), *h, node, par); let m = pow2(i as nat) as int; p2u(i as nat); lemma_pow2_pos(i as nat);
    assert(an(*h, node)[i as int] == up(*h, node, m)); assert(up(*h, node, m) == up(*h, par, m - 1)); good_up(*h, par, m - 1);
    let q = up(*h, node, m); up_add(*h, node, m, m); assert(i < an(*h, q).len() <==> pow2(i as nat) <= ht(*h, q)); assert(an(*h, q).len() > i ==> an(*h, q)[i as int] == up(*h, q, m));
    if i == 30 { assert(false); } assert(q != node);
}
@end
proof_step(*old(h), h0, *h, node, par, i as int);
@ret
frame(*old(h), *h, node, par);
let k = an(*h, node).len() as int;
assert(table(*h, node)) by {
    assert forall|j: int| #![trigger an(*h, node)[j]] #![trigger pow2(j as nat)] 0 <= j implies (j < an(*h, node).len() <==> pow2(j as nat) <= ht(*h, node)) by {
        if j < k { pow_le(j as nat, (k - 1) as nat); } else { pow_le(k as nat, j as nat); p2u((k - 1) as nat); }
    }
}
up_add(*h, node, 1, ht(*h, par)); assert(up(*h, node, 1) == up(*h, par, 0)); 
assert forall|p: Ptr| good(*old(h), p) && off(*old(h), p, node) implies #[trigger] good(*h, p) && rootof(*h, p) == rootof(*old(h), p) by { frame(*old(h), *h, node, p); }

@fn cuhksz::Tree::LCA as LCA
@opt heap ref
@opt this ref
@params x y
@requires
good(*h, x), good(*h, y), rootof(*h, x) == rootof(*h, y)
@ensures
is_lca(*h, x, y, r)
@loop 1
@invariant
-1 <= i <= 30, good(*h, x), good(*h, y), good(*h, x_0), good(*h, y_0), x != y, ht(*h, x) == ht(*h, y), ht(*h, x) <= ht(*h, x_0), ht(*h, y) <= ht(*h, y_0), rootof(*h, x_0) == rootof(*h, y_0),
x == up(*h, x_0, ht(*h, x_0) - ht(*h, x)), y == up(*h, y_0, ht(*h, y_0) - ht(*h, y)),
pow2((i + 1) as nat) > ht(*h, x) || up(*h, x, pow2((i + 1) as nat) as int) == up(*h, y, pow2((i + 1) as nat) as int)
@decreases i + 2
@begin
proof { lca_step(*h, x, y, x_0, y_0, i as int); }
@entry
proof { lemma2_to64(); jump(*h, x, y); }
@ret
lca_done(*h, x, y, x_0, y_0, ret_v);

@fn cuhksz::Tree::getDistance as getDistance
@opt heap ref
@opt this ref
@params x y
@requires
good(*h, x), good(*h, y), rootof(*h, x) == rootof(*h, y)
@ensures
exists|c: Ptr| is_lca(*h, x, y, c) && r == (ht(*h, x) - ht(*h, c)) + (ht(*h, y) - ht(*h, c))
