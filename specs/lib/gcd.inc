@prelude
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn divides(d: int, x: int) -> bool { exists|k: int| x == #[trigger] (d * k) }
// g is the greatest common divisor of a and b (0 for gcd(0,0))
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    g >= 0 && divides(g, a) && divides(g, b) && (a == 0 && b == 0 ==> g == 0)
    && (a != 0 || b != 0 ==> g > 0 && forall|d: int| d > 0 && #[trigger] divides(d, a) && divides(d, b) ==> d <= g)
}
pub open spec fn same_cd(a: int, b: int, c: int, d: int) -> bool {
    forall|x: int| #![trigger divides(x, a)] #![trigger divides(x, c)] #![trigger divides(x, b)] #![trigger divides(x, d)] x > 0 ==> (divides(x, a) && divides(x, b)) == (divides(x, c) && divides(x, d))
}
pub proof fn divides_lin(d: int, x: int, y: int, q: int)
    requires divides(d, x), divides(d, y)
    ensures divides(d, x - y * q), divides(d, x + y * q)
{
    let k = choose|k: int| x == #[trigger] (d * k); let m = choose|m: int| y == #[trigger] (d * m);
    assert(x - y * q == d * (k - m * q)) by (nonlinear_arith) requires x == d * k, y == d * m;
    assert(x + y * q == d * (k + m * q)) by (nonlinear_arith) requires x == d * k, y == d * m;
}
pub proof fn trem_props(a: int, b: int)
    requires b != 0
    ensures a == b * tdiv(a, b) + trem(a, b), iabs(trem(a, b)) < iabs(b), iabs(trem(a, b)) <= iabs(a),
        a >= 0 ==> trem(a, b) >= 0, a <= 0 ==> trem(a, b) <= 0, iabs(tdiv(a, b)) <= iabs(a)
{
    let x = iabs(a); let y = iabs(b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, y);
    assert(x % y <= x) by { vstd::arithmetic::div_mod::lemma_mod_decreases(x as nat, y as nat); }
    assert(0 <= x / y <= x) by (nonlinear_arith) requires x >= 0, y > 0;
    let q = x / y;
    assert(y * q == (-y) * (-q)) by (nonlinear_arith);
    assert(-(y * q) == (-y) * q && -(y * q) == y * (-q)) by (nonlinear_arith);
}
pub proof fn step_cd(a: int, b: int)
    requires b != 0
    ensures same_cd(a, b, trem(a, b), b), same_cd(b, a, b, trem(a, b)),
{
    trem_props(a, b);
    let q = tdiv(a, b); let t = trem(a, b);
    assert forall|x: int| x > 0 implies (#[trigger] divides(x, a) && divides(x, b)) == (divides(x, t) && divides(x, b)) by {
        if divides(x, a) && divides(x, b) { divides_lin(x, a, b, q); assert(t == a - b * q); }
        if divides(x, t) && divides(x, b) { divides_lin(x, t, b, q); assert(a == t + b * q); }
    }
}
pub broadcast proof fn rem_step(a: int, b: int)
    requires b != 0
    ensures #![trigger trem(a, b)] same_cd(a, b, trem(a, b), b), same_cd(b, a, b, trem(a, b)), a == b * tdiv(a, b) + trem(a, b),
        iabs(trem(a, b)) < iabs(b), iabs(trem(a, b)) <= iabs(a), a >= 0 ==> trem(a, b) >= 0, a <= 0 ==> trem(a, b) <= 0
{ step_cd(a, b); trem_props(a, b); }
pub proof fn divides_zero(d: int) ensures divides(d, 0) { assert(0 == d * 0); }
pub proof fn divides_self(d: int) ensures divides(d, d), divides(d, -d) { assert(d == d * 1); assert(-d == d * -1) by (nonlinear_arith); }
pub proof fn divides_le(d: int, x: int)
    requires divides(d, x), d > 0, x != 0 ensures d <= iabs(x)
{ let k = choose|k: int| x == #[trigger] (d * k); assert(d <= iabs(x)) by (nonlinear_arith) requires x == d * k, d > 0, x != 0; }
// the loop ends with one operand zero: the other one is the gcd
pub proof fn gcd_done(a: int, b: int, a0: int, b0: int, r: int)
    requires same_cd(a, b, a0, b0), a == 0 || b == 0, r == a + b, (a == 0 && b == 0) == (a0 == 0 && b0 == 0)
    ensures is_gcd(iabs(r), a0, b0)
{
    let g = iabs(r);
    divides_zero(g); divides_self(r); divides_self(g);
    if a0 == 0 && b0 == 0 { } else {
        assert(divides(g, a) && divides(g, b));
        assert(divides(g, a0) && divides(g, b0));
        assert forall|d: int| d > 0 && #[trigger] divides(d, a0) && divides(d, b0) implies d <= g by {
            assert(divides(d, a) && divides(d, b));
            divides_le(d, r);
        }
    }
}
// ---- lcm
pub proof fn bezout(a: nat, b: nat) -> (r: (int, int, int))
    ensures is_gcd(r.2, a as int, b as int), a * r.0 + b * r.1 == r.2
    decreases b
{
    if b == 0 {
        divides_zero(a as int); divides_self(a as int);
        assert forall|d: int| d > 0 && #[trigger] divides(d, a as int) && divides(d, b as int) && a != 0 implies d <= a by { divides_le(d, a as int); }
        (1, 0, a as int)
    } else {
        let t = (a % b) as int; let q = (a / b) as int;
        let (x, y, g) = bezout(b, (a % b) as nat);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        assert(a == b * q + t);
        divides_lin(g, t, b as int, q);
        assert forall|d: int| d > 0 && #[trigger] divides(d, a as int) && divides(d, b as int) implies d <= g by {
            divides_lin(d, a as int, b as int, q); assert(t == a - b * q);
            assert(divides(d, b as int) && divides(d, t));
        }
        assert(a * y + b * (x - q * y) == b * x + t * y) by (nonlinear_arith) requires a == b * q + t;
        (y, x - q * y, g)
    }
}
pub proof fn gcd_unique(g: int, h: int, a: int, b: int)
    requires is_gcd(g, a, b), is_gcd(h, a, b) ensures g == h
{ }
pub open spec fn is_lcm(l: int, a: int, b: int) -> bool {
    divides(a, l) && divides(b, l) && forall|m: int| #[trigger] divides(a, m) && divides(b, m) ==> divides(l, m)
}
pub proof fn lcm_ok(a: int, b: int, g: int, l: int)
    requires a >= 0, b >= 0, a != 0 || b != 0, is_gcd(g, a, b), l == tdiv(a * b, g)
    ensures is_lcm(l, a, b), l >= 0
{
    let (x, y, h) = bezout(a as nat, b as nat);
    gcd_unique(g, h, a, b);
    let ka = choose|k: int| a == #[trigger] (g * k); let kb = choose|k: int| b == #[trigger] (g * k);
    assert((g * ka) * b == g * (ka * b)) by (nonlinear_arith);
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
    assert(l == (a * b) / g);
    assert((a * b) / g == ka * b) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(ka * b, g); }
    assert(ka * b == b * ka) by (nonlinear_arith);
    assert(ka * (g * kb) == (g * ka) * kb) by (nonlinear_arith);
    assert(l == a * kb);
    let p = a * b;
    assert(p / g >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, g); }
    assert forall|m: int| #[trigger] divides(a, m) && divides(b, m) implies divides(l, m) by {
        let u = choose|u: int| m == #[trigger] (a * u); let v = choose|v: int| m == #[trigger] (b * v);
        // m*g == m*(a x + b y) == a*b*(v x + u y) == l*g*(v x + u y)
        let w = v * x + u * y;
        let (ax, by) = (a * x, b * y);
        assert(m * (ax + by) == m * ax + m * by) by (nonlinear_arith);
        assert((b * v) * (a * x) == (a * b) * (v * x)) by (nonlinear_arith);
        assert((a * u) * (b * y) == (a * b) * (u * y)) by (nonlinear_arith);
        let (p, vx, uy) = (a * b, v * x, u * y);
        assert(p * vx + p * uy == p * (vx + uy)) by (nonlinear_arith);
        assert(m * g == p * w);
        assert((g * l) * w == g * (l * w)) by (nonlinear_arith);
        let z = l * w;
        assert(m == z) by (nonlinear_arith) requires m * g == g * z, g > 0;
    }
}
pub proof fn divides_neg(d: int, x: int) ensures divides(d, x) == divides(d, -x), divides(d, x) == divides(-d, x), divides(d, iabs(x)) == divides(d, x), divides(iabs(d), x) == divides(d, x)
{
    if divides(d, x) { let k = choose|k: int| x == #[trigger] (d * k); assert(-x == d * (-k) && x == (-d) * (-k)) by (nonlinear_arith) requires x == d * k; }
    if divides(d, -x) { let k = choose|k: int| -x == #[trigger] (d * k); assert(x == d * (-k)) by (nonlinear_arith) requires -x == d * k; }
    if divides(-d, x) { let k = choose|k: int| x == #[trigger] (-d * k); assert(x == d * (-k)) by (nonlinear_arith) requires x == -d * k; }
}
pub proof fn iabs_mul(a: int, b: int) ensures iabs(a * b) == iabs(a) * iabs(b)
{ assert(iabs(a * b) == iabs(a) * iabs(b)) by (nonlinear_arith); }
// every value a*b/g with |g| a gcd is, up to sign, the lcm
pub proof fn lcm_all(a: int, b: int)
    requires a != 0 || b != 0
    ensures forall|g: int| #[trigger] is_gcd(iabs(g), a, b) ==> is_lcm(iabs(tdiv(a * b, g)), a, b) && (a >= 0 && b >= 0 && g >= 0 ==> tdiv(a * b, g) >= 0)
{
    let (x, y, g0) = bezout(iabs(a) as nat, iabs(b) as nat);
    let (aa, bb) = (iabs(a), iabs(b));
    lcm_ok(aa, bb, g0, tdiv(aa * bb, g0));
    iabs_mul(a, b);
    assert forall|g: int| #[trigger] is_gcd(iabs(g), a, b) implies is_lcm(iabs(tdiv(a * b, g)), a, b) && (a >= 0 && b >= 0 && g >= 0 ==> tdiv(a * b, g) >= 0) by {
        assert(is_gcd(iabs(g), aa, bb)) by {
            divides_neg(iabs(g), a); divides_neg(iabs(g), b);
            assert forall|d: int| d > 0 && #[trigger] divides(d, aa) && divides(d, bb) implies d <= iabs(g) by { divides_neg(d, a); divides_neg(d, b); }
        }
        gcd_unique(g0, iabs(g), aa, bb);
        assert(aa * bb >= 0) by (nonlinear_arith) requires aa >= 0, bb >= 0;
        let pp = aa * bb; assert(pp / g0 >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(pp, g0); }
        let l = iabs(tdiv(a * b, g));
        assert(l == tdiv(aa * bb, g0));
        divides_neg(a, l); divides_neg(b, l);
        assert forall|m: int| #[trigger] divides(a, m) && divides(b, m) implies divides(l, m) by { divides_neg(a, m); divides_neg(b, m); assert(divides(aa, m) && divides(bb, m)); }
    }
}

