@# Point<N> (any N), Line, Circle with exact real coordinates
@driver
#include "/repo/src/include/geometry/Point.h"
#include "/repo/src/include/geometry/Line.h"
#include "/repo/src/include/geometry/Circle.h"
#include "/repo/src/geometry/Line.cpp"
namespace cuhksz {
template <int N> void use_(std::ostream& o, Point<N>& a, const Point<N>& b, const Point<N> c, double k) {
  Point<N> z, y(b); z = b; a[0] = b[0]; a + b; a - b; a += b; a -= b; a * b; a * k; k * a; a *= k; a / k; a /= k;
  a == b; a != b; a < b; a <= b; a > b; a >= b; o << a; dot(a, b); a.len(); a.normalize();
}
template void use_<1237>(std::ostream&, Point<1237>&, const Point<1237>&, const Point<1237>, double);
template void use_<2>(std::ostream&, Point<2>&, const Point<2>&, const Point<2>, double);
void use2_(Line l, Point<2> p, Circle c) { Point<1> a(1.0); Point<2> b(1.0, 2.0); Point<3> d(1.0, 2.0, 3.0); cross(b, b); Line m(l); m = l; m.len(); Circle c1; Circle c2(2.0); Circle c3(b); Circle c4(b, 2.0); c.getArea(); c.getPerimeter(); c.getPoint(1.0); }
}

@optype double => Num
@struct cuhksz::Point<1237> => PointN
@struct cuhksz::Point<2> => Point2
@struct cuhksz::Point<1> => Point1
@struct cuhksz::Point<3> => Point3
@struct cuhksz::Line => Line
@struct cuhksz::Circle => Circle
@type cuhksz::Point<> => Point2
@type Point<> => Point2
@nttp 1237 => dim()
@trusted double arithmetic is exact (rounding is not modelled)
@trusted the template parameter N is any number between 1 and 10,000,000
@trusted sqrt is the non-negative square root; sin and cos are functions with sin^2 + cos^2 = 1
@prelude
pub uninterp spec fn DIM() -> int;
#[verifier::external_body]
pub fn dim() -> (r: i32) ensures r == DIM(), 1 <= DIM() <= 10_000_000 { unimplemented!() }
#[verifier::external_body]
pub proof fn dim_bound() ensures 1 <= DIM() <= 10_000_000 { }
pub open spec fn vs(s: Seq<Num>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn dot_(a: Seq<Num>, b: Seq<Num>, n: int) -> real decreases n { if n <= 0 { 0real } else { dot_(a, b, n - 1) + a[n - 1].v() * b[n - 1].v() } }
pub open spec fn lexlt(a: Seq<Num>, b: Seq<Num>, i: int, n: int) -> bool decreases n - i { if i >= n { false } else if a[i].v() != b[i].v() { a[i].v() < b[i].v() } else { lexlt(a, b, i + 1, n) } }
pub open spec fn same(a: Seq<Num>, b: Seq<Num>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] a[k].v() == b[k].v() }
pub open spec fn eps() -> real { 1real / 1000000real }
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
// a is l times b
pub open spec fn multiple(a: Seq<Num>, l: real, b: Seq<Num>, n: int) -> bool { l > 0real && forall|k: int| 0 <= k < n ==> #[trigger] a[k].v() == l * b[k].v() }
// "(" x0 ", " x1 ... for the first n coordinates
pub open spec fn coords(s: Seq<Num>, n: int) -> Seq<i8> decreases n { if n <= 1 { seq![40i8] + num_text(s[0]) } else { coords(s, n - 1) + seq![44i8, 32i8] + num_text(s[n - 1]) } }
pub proof fn dot_nonneg(s: Seq<Num>, n: int) ensures dot_(s, s, n) >= 0real decreases n { if n > 0 { dot_nonneg(s, n - 1); let x = s[n - 1].v(); assert(x * x >= 0real) by (nonlinear_arith); } }
pub proof fn dot_scaled(a: Seq<Num>, b: Seq<Num>, l: real, n: int) requires l > 0real, forall|k: int| 0 <= k < n ==> #[trigger] b[k].v() == a[k].v() / l
    ensures dot_(a, a, n) == l * l * dot_(b, b, n), forall|k: int| 0 <= k < n ==> #[trigger] a[k].v() == l * b[k].v() decreases n
{
    if n > 0 {
        dot_scaled(a, b, l, n - 1);
        let (x, y, d) = (a[n - 1].v(), b[n - 1].v(), dot_(b, b, n - 1)); assert(y == x / l); assert(x == l * y) by (nonlinear_arith) requires y == x / l, l > 0real;
        assert(l * l * (d + y * y) == l * l * d + x * x) by (nonlinear_arith) requires x == l * y;
    } else { assert(l * l * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn norm_unit(a: Seq<Num>, b: Seq<Num>, l: real, n: int) requires n >= 0, l > 0real, l * l == dot_(a, a, n), forall|k: int| 0 <= k < n ==> #[trigger] b[k].v() == a[k].v() / l
    ensures dot_(b, b, n) == 1real, forall|k: int| 0 <= k < n ==> #[trigger] a[k].v() == l * b[k].v()
{ dot_scaled(a, b, l, n); let (q, d) = (l * l, dot_(b, b, n)); assert(q > 0real) by (nonlinear_arith) requires q == l * l, l > 0real; assert(d == 1real) by (nonlinear_arith) requires q == q * d, q > 0real; }

pub open spec fn px(p: Point2) -> real { p.elem@[0].v() }
pub open spec fn py(p: Point2) -> real { p.elem@[1].v() }
pub open spec fn crs(v: Point2, w: Point2) -> real { px(v) * py(w) - py(v) * px(w) }
pub open spec fn dt(v: Point2, w: Point2) -> real { px(v) * px(w) + py(v) * py(w) }
pub open spec fn wfl(l: Line) -> bool { l.A.elem@.len() == 2 && l.v.elem@.len() == 2 }
// p is the point of l at parameter t
pub open spec fn on_at(l: Line, t: real, p: Point2) -> bool { px(p) == px(l.A) + t * px(l.v) && py(p) == py(l.A) + t * py(l.v) }
// squared distance of p from the point of l at parameter t
pub open spec fn d2(p: Point2, l: Line, t: real) -> real { (px(p) - px(l.A) - t * px(l.v)) * (px(p) - px(l.A) - t * px(l.v)) + (py(p) - py(l.A) - t * py(l.v)) * (py(p) - py(l.A) - t * py(l.v)) }
// m is the least squared distance of p from the points of the segment (parameters 0 to 1)
pub open spec fn segmin(p: Point2, l: Line, m: real) -> bool { (forall|t: real| 0real <= t <= 1real ==> m <= #[trigger] d2(p, l, t)) && (exists|t: real| 0real <= t <= 1real && m == #[trigger] d2(p, l, t)) }
pub proof fn dt_dot(a: Point2, b: Point2) ensures dot_(a.elem@, b.elem@, 2) == dt(a, b) { reveal_with_fuel(dot_, 3); }
// the parameter of the intersection on l1
pub open spec fn meet_t(l1: Line, l2: Line) -> real { (px(l2.v) * (py(l1.A) - py(l2.A)) - py(l2.v) * (px(l1.A) - px(l2.A))) / crs(l1.v, l2.v) }
pub proof fn meet(l1: Line, l2: Line, p: Point2)
    requires crs(l1.v, l2.v) != 0real, on_at(l1, meet_t(l1, l2), p) || px(p) == px(l1.A) + px(l1.v) * meet_t(l1, l2) && py(p) == py(l1.A) + py(l1.v) * meet_t(l1, l2)
    ensures exists|s: real| on_at(l1, s, p), exists|s: real| on_at(l2, s, p)
{
    let (ax, ay, bx, by, cx, cy, dx, dy) = (px(l1.A), py(l1.A), px(l1.v), py(l1.v), px(l2.A), py(l2.A), px(l2.v), py(l2.v));
    let t = meet_t(l1, l2); assert(t * bx == bx * t && t * by == by * t) by (nonlinear_arith); assert(on_at(l1, t, p));
    let c = bx * dy - by * dx; let (u, w) = (ax - cx, ay - cy); let (p0, q0) = (dx * w - dy * u, bx * w - by * u); let s = q0 / c;
    divmul(q0, c); divmul(p0, c);
    assert((bx * dy - by * dx) * u + (dx * w - dy * u) * bx - (bx * w - by * u) * dx == 0real) by (nonlinear_arith);
    assert((bx * dy - by * dx) * w + (dx * w - dy * u) * by - (bx * w - by * u) * dy == 0real) by (nonlinear_arith);
    lin(c, ax, t, bx, p0); lin(c, cx, s, dx, q0); lin(c, ay, t, by, p0); lin(c, cy, s, dy, q0);
    assert(c * u == c * ax - c * cx) by (nonlinear_arith) requires u == ax - cx; assert(c * w == c * ay - c * cy) by (nonlinear_arith) requires w == ay - cy;
    cancel(c, ax + t * bx, cx + s * dx); cancel(c, ay + t * by, cy + s * dy);
    assert(on_at(l2, s, p));
}
pub open spec fn is_root(x: real, a: real) -> bool { x >= 0real && x * x == a && (a > 0real ==> x > 0real) }
pub proof fn root_pos(x: real) requires x >= 0real ensures x * x > 0real ==> x > 0real { assert(x * x > 0real ==> x > 0real) by (nonlinear_arith) requires x >= 0real; }
pub proof fn sq_nonneg(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by (nonlinear_arith); }
// with w = p - A: c = v x w, e = v . w, V = v . v
pub open spec fn wx(p: Point2, l: Line) -> real { px(p) - px(l.A) }
pub open spec fn wy(p: Point2, l: Line) -> real { py(p) - py(l.A) }
pub open spec fn cc(p: Point2, l: Line) -> real { px(l.v) * wy(p, l) - py(l.v) * wx(p, l) }
pub open spec fn ee(p: Point2, l: Line) -> real { px(l.v) * wx(p, l) + py(l.v) * wy(p, l) }
pub open spec fn ww(p: Point2, l: Line) -> real { wx(p, l) * wx(p, l) + wy(p, l) * wy(p, l) }
pub open spec fn vv(l: Line) -> real { dt(l.v, l.v) }
pub proof fn dist(t: real, x: real, y: real) ensures t * (x + y) == t * x + t * y { assert(t * (x + y) == t * x + t * y) by (nonlinear_arith); }
pub proof fn sq_lin(x: real, t: real, a: real) ensures (x - t * a) * (x - t * a) == x * x - 2real * (t * (a * x)) + (t * t) * (a * a) { assert((x - t * a) * (x - t * a) == x * x - 2real * (t * (a * x)) + (t * t) * (a * a)) by (nonlinear_arith); }
pub proof fn sq_diff(e: real, t: real, v: real) ensures (e - t * v) * (e - t * v) == e * e - 2real * ((t * e) * v) + ((t * t) * v) * v { assert((e - t * v) * (e - t * v) == e * e - 2real * ((t * e) * v) + ((t * t) * v) * v) by (nonlinear_arith); }
pub proof fn mm(a: real, x: real) ensures (x * x) * (a * a) == (a * x) * (a * x) { assert((x * x) * (a * a) == (a * x) * (a * x)) by (nonlinear_arith); }
pub proof fn foil(p: real, q: real, r: real, s: real) ensures (p + q) * (r + s) == p * r + p * s + q * r + q * s { assert((p + q) * (r + s) == p * r + p * s + q * r + q * s) by (nonlinear_arith); }
pub proof fn sqm(p: real, q: real) ensures (p - q) * (p - q) == p * p - 2real * (p * q) + q * q { assert((p - q) * (p - q) == p * p - 2real * (p * q) + q * q) by (nonlinear_arith); }
pub proof fn sqp(p: real, q: real) ensures (p + q) * (p + q) == p * p + 2real * (p * q) + q * q { assert((p + q) * (p + q) == p * p + 2real * (p * q) + q * q) by (nonlinear_arith); }
pub proof fn swap4(a: real, y: real, b: real, x: real) ensures (a * y) * (b * x) == (a * x) * (b * y) { assert((a * y) * (b * x) == (a * x) * (b * y)) by (nonlinear_arith); }
pub proof fn lagrange(x: real, y: real, a: real, b: real) ensures (x * x + y * y) * (a * a + b * b) == (a * y - b * x) * (a * y - b * x) + (a * x + b * y) * (a * x + b * y)
{
    foil(x * x, y * y, a * a, b * b); mm(a, x); mm(b, x); mm(a, y); mm(b, y); sqm(a * y, b * x); sqp(a * x, b * y); swap4(a, y, b, x);
}
pub proof fn d2_poly(p: Point2, l: Line, t: real)
    ensures d2(p, l, t) == ww(p, l) - 2real * (t * ee(p, l)) + (t * t) * vv(l), d2(p, l, t) * vv(l) == cc(p, l) * cc(p, l) + (ee(p, l) - t * vv(l)) * (ee(p, l) - t * vv(l))
{
    let (a, b, x, y) = (px(l.v), py(l.v), wx(p, l), wy(p, l));
    let (w, e, v, c) = (x * x + y * y, a * x + b * y, a * a + b * b, a * y - b * x);
    sq_lin(x, t, a); sq_lin(y, t, b); dist(t, a * x, b * y); dist(t * t, a * a, b * b);
    lagrange(x, y, a, b);
    let (te, ttv) = (t * e, (t * t) * v);
    assert((w - 2real * te + ttv) * v == w * v - 2real * (te * v) + ttv * v) by (nonlinear_arith);
    sq_diff(e, t, v);
}
pub proof fn le_cancel(a: real, b: real, v: real) requires v > 0real, a * v <= b * v ensures a <= b { assert(a <= b) by (nonlinear_arith) requires v > 0real, a * v <= b * v; }
// r is the distance from the line
pub open spec fn perp(p: Point2, l: Line, r: real) -> bool { r >= 0real && r * r * vv(l) == cc(p, l) * cc(p, l) }
pub proof fn perp_intro(p: Point2, l: Line, r: real, n: real) requires is_root(n, vv(l)), vv(l) > 0real, r == rabs(cc(p, l) / n) ensures perp(p, l, r)
{ let (c, q) = (cc(p, l), cc(p, l) / n); divmul(c, n); assert(r * r * (n * n) == (q * n) * (q * n)) by (nonlinear_arith) requires r == q || r == 0real - q; }
pub proof fn perp_intro2(p: Point2, l: Line, r: real) requires vv(l) > 0real, exists|n: real| #[trigger] is_root(n, vv(l)) && r == rabs(cc(p, l) / n) ensures perp(p, l, r)
{ let n = choose|n: real| #[trigger] is_root(n, vv(l)) && r == rabs(cc(p, l) / n); perp_intro(p, l, r, n); }
pub proof fn lin1(p: Point2, l: Line) ensures d2(p, l, 1real) == (wx(p, l) - px(l.v)) * (wx(p, l) - px(l.v)) + (wy(p, l) - py(l.v)) * (wy(p, l) - py(l.v)), w1(p, l) == d2(p, l, 1real)
{ d2_poly(p, l, 1real); let (a, b, e, v) = (px(l.v), py(l.v), ee(p, l), vv(l)); assert(1real * a == a && 1real * b == b && 1real * e == e && (1real * 1real) * v == v) by (nonlinear_arith); }
pub proof fn line_dist(p: Point2, l: Line, r: real) requires vv(l) > 0real, perp(p, l, r)
    ensures forall|t: real| r * r <= #[trigger] d2(p, l, t), exists|t: real| r * r == #[trigger] d2(p, l, t)
{
    let v = vv(l);
    assert forall|t: real| r * r <= #[trigger] d2(p, l, t) by { d2_poly(p, l, t); sq_nonneg(ee(p, l) - t * v); le_cancel(r * r, d2(p, l, t), v); }
    let t = ee(p, l) / v; divmul(ee(p, l), v); d2_poly(p, l, t); let z = ee(p, l) - t * v; assert(z == 0real); assert(z * z == 0real) by (nonlinear_arith) requires z == 0real;
    le_cancel(d2(p, l, t), r * r, v); assert(r * r == d2(p, l, t));
}
// end of the segment at parameter 0 / 1 is the nearest point
pub proof fn near0(p: Point2, l: Line) requires ee(p, l) <= 0real, vv(l) > 0real ensures segmin(p, l, ww(p, l))
{
    let (e, v) = (ee(p, l), vv(l));
    assert forall|t: real| 0real <= t <= 1real implies ww(p, l) <= #[trigger] d2(p, l, t) by { d2_poly(p, l, t); sq_nonneg(t); let q = t * t; assert(t * e <= 0real) by (nonlinear_arith) requires t >= 0real, e <= 0real; assert(q * v >= 0real) by (nonlinear_arith) requires q >= 0real, v > 0real; }
    d2_poly(p, l, 0real); assert(0real * e == 0real && (0real * 0real) * v == 0real) by (nonlinear_arith); assert(d2(p, l, 0real) == ww(p, l));
}
pub open spec fn w1(p: Point2, l: Line) -> real { ww(p, l) - 2real * ee(p, l) + vv(l) }
pub proof fn near1(p: Point2, l: Line) requires ee(p, l) >= vv(l), vv(l) > 0real ensures segmin(p, l, w1(p, l))
{
    let (e, v) = (ee(p, l), vv(l));
    assert forall|t: real| 0real <= t <= 1real implies w1(p, l) <= #[trigger] d2(p, l, t) by {
        d2_poly(p, l, t); let s = 1real - t; let g = e - v;
        assert(t * e == e - s * e) by (nonlinear_arith) requires s == 1real - t;
        assert((t * t) * v == v - 2real * (s * v) + (s * s) * v) by (nonlinear_arith) requires s == 1real - t;
        assert(s * e - s * v >= 0real) by (nonlinear_arith) requires s >= 0real, e >= v;
        sq_nonneg(s); let q = s * s; assert(q * v >= 0real) by (nonlinear_arith) requires q >= 0real, v > 0real;
    }
    d2_poly(p, l, 1real); assert(1real * e == e && (1real * 1real) * v == v) by (nonlinear_arith); assert(d2(p, l, 1real) == w1(p, l));
}
pub open spec fn seg_ok(p: Point2, l: Line, r: real) -> bool { exists|m: real| #[trigger] segmin(p, l, m) && r * r * vv(l) <= m * vv(l) <= r * r * vv(l) + eps() * eps() }
pub proof fn distm(a: real, x: real) ensures a * (x - a) == a * x - a * a { assert(a * (x - a) == a * x - a * a) by (nonlinear_arith); }
pub open spec fn pilo() -> real { 31415926real / 10000000real }
pub open spec fn pihi() -> real { 31415927real / 10000000real }
pub proof fn area_ok(c: real, x: real) requires pilo() <= c <= pihi() ensures pilo() * (x * x) <= (c * x) * x <= pihi() * (x * x), pilo() * (x * x) <= c * (x * x) <= pihi() * (x * x)
{ let q = x * x; sq_nonneg(x); assert((c * x) * x == c * (x * x)) by (nonlinear_arith); let (l, h) = (pilo(), pihi()); assert(l * q <= c * q <= h * q) by (nonlinear_arith) requires l <= c, c <= h, q >= 0real; }
pub proof fn perim_ok(c: real, x: real) requires x >= 0real, pilo() <= c <= pihi() ensures 2real * (pilo() * x) <= 2real * (c * x) <= 2real * (pihi() * x), (2real * c) * x == 2real * (c * x)
{ let (l, h) = (pilo(), pihi()); assert(l * x <= c * x <= h * x) by (nonlinear_arith) requires l <= c, c <= h, x >= 0real; assert((2real * c) * x == 2real * (c * x)) by (nonlinear_arith); }
pub proof fn circ(x: real, t: real) ensures (x * cos_(t)) * (x * cos_(t)) + (x * sin_(t)) * (x * sin_(t)) == x * x
{ sin_cos(t); let (c, s, q) = (cos_(t), sin_(t), x * x); mm(x, c); mm(x, s); dist(q, c * c, s * s); assert((c * c) * q == q * (c * c) && (s * s) * q == q * (s * s)) by (nonlinear_arith); assert(q * 1real == q) by (nonlinear_arith); }
pub open spec fn mpi() -> real { 3141592653589793real / 1000000000000000real }
pub proof fn eps_sq() ensures eps() * eps() >= 0real { sq_nonneg(eps()); }
pub proof fn seg0(p: Point2, l: Line, r: real) requires vv(l) > 0real, ee(p, l) <= 0real, r * r == ww(p, l) ensures seg_ok(p, l, r) { near0(p, l); eps_sq(); assert(segmin(p, l, ww(p, l))); }
pub proof fn seg1(p: Point2, l: Line, r: real) requires vv(l) > 0real, ee(p, l) >= vv(l), r * r == w1(p, l) ensures seg_ok(p, l, r) { near1(p, l); eps_sq(); assert(segmin(p, l, w1(p, l))); }
pub proof fn small_sq(x: real) requires 0real - eps() < x < eps() ensures x * x <= eps() * eps() { let e = eps(); assert(x * x <= e * e) by (nonlinear_arith) requires 0real - e < x, x < e; }
pub proof fn segp(p: Point2, l: Line, r: real) requires vv(l) > 0real, perp(p, l, r), ee(p, l) > 0real - eps(), ee(p, l) - vv(l) < eps() ensures seg_ok(p, l, r)
{
    let (e, v) = (ee(p, l), vv(l)); eps_sq();
    if e < 0real {
        near0(p, l); d2_poly(p, l, 0real); assert(0real * e == 0real && 0real * v == 0real && (0real * 0real) * v == 0real) by (nonlinear_arith); small_sq(e); sq_nonneg(e); assert(segmin(p, l, ww(p, l))); assert(ww(p, l) * v == cc(p, l) * cc(p, l) + e * e);
    } else if e > v {
        near1(p, l); d2_poly(p, l, 1real); assert(1real * e == e && 1real * v == v && (1real * 1real) * v == v) by (nonlinear_arith); let z = e - v; small_sq(z); sq_nonneg(z); assert(segmin(p, l, w1(p, l))); assert(w1(p, l) * v == cc(p, l) * cc(p, l) + z * z);
    } else {
        line_dist(p, l, r); let t = e / v; divmul(e, v); assert(0real <= t <= 1real) by (nonlinear_arith) requires t * v == e, 0real <= e, e <= v, v > 0real;
        d2_poly(p, l, t); let z = e - t * v; assert(z * z == 0real) by (nonlinear_arith) requires z == 0real; le_cancel(d2(p, l, t), r * r, v); assert(r * r == d2(p, l, t)); assert(segmin(p, l, r * r));
    }
}
pub proof fn divmul(a: real, c: real) requires c != 0real ensures (a / c) * c == a { let q = a / c; assert(q * c == a) by (nonlinear_arith) requires q == a / c, c != 0real; }
pub proof fn lin(c: real, a: real, t: real, b: real, p: real) requires t * c == p ensures c * (a + t * b) == c * a + p * b { assert(c * (a + t * b) == c * a + (t * c) * b) by (nonlinear_arith); }
pub proof fn cancel(c: real, x: real, y: real) requires c != 0real, c * x == c * y ensures x == y { assert(x == y) by (nonlinear_arith) requires c != 0real, c * x == c * y; }

@repeat AP=Point<1237> CP=Point<1237> P=PointN XD=true XL=true Q=pn D=DIM() ; AP=Point<> CP=Point<2> P=Point2 XD=r.v()~==~dt(*this,~*other) XL=is_root(r.v(),~dt(*old(this),~*old(this))) Q=p2 D=2
@fn cuhksz::$CP::Point as $Q_new sig void ()
@opt ctorof cuhksz::$CP
@ensures
r.elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] r.elem@[k].v() == 0real

@fn cuhksz::$CP::Point as $Q_copy sig void (const $AP &)
@params src
@opt ctorof cuhksz::$CP
@requires
src.elem@.len() == $D
@ensures
r.elem@ == src.elem@
@ret
assert(this_.elem@ =~= src.elem@);

@fn cuhksz::$CP::operator= as $Q_assign
@params src
@opt retunit
@requires
old(this).elem@.len() == $D, src.elem@.len() == $D
@ensures
final(this).elem@ =~= src.elem@

@fn cuhksz::$CP::operator[] as $Q_at sig double (const int) const
@params index
@requires
this.elem@.len() == $D, 0 <= index < $D
@ensures
r == this.elem@[index as int]

@fn cuhksz::$CP::operator[] as $Q_ref sig double &(const int)
@params index
@opt refidx
@opt this mut
@requires
old(this).elem@.len() == $D, 0 <= index < $D
@ensures
r == index, final(this).elem@ == old(this).elem@

@fn cuhksz::$CP::operator+ as $Q_add
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r.elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] r.elem@[k].v() == this.elem@[k].v() + other.elem@[k].v()
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, ret.elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] ret.elem@[k].v() == this.elem@[k].v() + other.elem@[k].v()
@decreases
$D - i

@fn cuhksz::$CP::operator- as $Q_sub
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r.elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] r.elem@[k].v() == this.elem@[k].v() - other.elem@[k].v()
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, ret.elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] ret.elem@[k].v() == this.elem@[k].v() - other.elem@[k].v()
@decreases
$D - i

@fn cuhksz::$CP::operator+= as $Q_addeq
@params other
@opt retunit
@requires
old(this).elem@.len() == $D, other.elem@.len() == $D
@ensures
final(this).elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] final(this).elem@[k].v() == old(this).elem@[k].v() + other.elem@[k].v()
@loop 1
@invariant
0 <= i <= $D, other.elem@.len() == $D, this.elem@.len() == $D, old(this).elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] this.elem@[k].v() == old(this).elem@[k].v() + other.elem@[k].v(), forall|k: int| i <= k < $D ==> #[trigger] this.elem@[k] == old(this).elem@[k]
@decreases
$D - i

@fn cuhksz::$CP::operator-= as $Q_subeq
@params other
@opt retunit
@requires
old(this).elem@.len() == $D, other.elem@.len() == $D
@ensures
final(this).elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] final(this).elem@[k].v() == old(this).elem@[k].v() - other.elem@[k].v()
@loop 1
@invariant
0 <= i <= $D, other.elem@.len() == $D, this.elem@.len() == $D, old(this).elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] this.elem@[k].v() == old(this).elem@[k].v() - other.elem@[k].v(), forall|k: int| i <= k < $D ==> #[trigger] this.elem@[k] == old(this).elem@[k]
@decreases
$D - i

@fn cuhksz::$CP::operator*= as $Q_muleq
@params constant
@opt retunit
@requires
old(this).elem@.len() == $D, true
@ensures
final(this).elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] final(this).elem@[k].v() == old(this).elem@[k].v() * constant.v()
@loop 1
@invariant
0 <= i <= $D, true, this.elem@.len() == $D, old(this).elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] this.elem@[k].v() == old(this).elem@[k].v() * constant.v(), forall|k: int| i <= k < $D ==> #[trigger] this.elem@[k] == old(this).elem@[k]
@decreases
$D - i

@fn cuhksz::$CP::operator/= as $Q_diveq
@params constant
@opt retunit
@requires
old(this).elem@.len() == $D, constant.v() != 0real
@ensures
final(this).elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] final(this).elem@[k].v() == old(this).elem@[k].v() / constant.v()
@loop 1
@invariant
0 <= i <= $D, constant.v() != 0real, this.elem@.len() == $D, old(this).elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] this.elem@[k].v() == old(this).elem@[k].v() / constant.v(), forall|k: int| i <= k < $D ==> #[trigger] this.elem@[k] == old(this).elem@[k]
@decreases
$D - i

@fn cuhksz::$CP::operator* as $Q_scale sig (const double &)
@params constant
@requires
this.elem@.len() == $D, true
@ensures
r.elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] r.elem@[k].v() == this.elem@[k].v() * constant.v()
@loop 1
@invariant
0 <= i <= $D, true, this.elem@.len() == $D, ret.elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] ret.elem@[k].v() == this.elem@[k].v() * constant.v()
@decreases
$D - i

@fn cuhksz::$CP::operator/ as $Q_div sig (const double &)
@params constant
@requires
this.elem@.len() == $D, constant.v() != 0real
@ensures
r.elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] r.elem@[k].v() == this.elem@[k].v() / constant.v()
@loop 1
@invariant
0 <= i <= $D, constant.v() != 0real, this.elem@.len() == $D, ret.elem@.len() == $D, forall|k: int| 0 <= k < i ==> #[trigger] ret.elem@[k].v() == this.elem@[k].v() / constant.v()
@decreases
$D - i

@fn cuhksz::$CP::operator* as $Q_dotop sig double (
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r.v() == dot_(this.elem@, other.elem@, $D), $XD
@entry
proof { reveal_with_fuel(dot_, 3); }
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, ret.v() == dot_(this.elem@, other.elem@, i as int)
@decreases
$D - i

@fn cuhksz::operator* as $Q_lscale sig (const double &, const $AP &)
@params constant self_
@requires
self_.elem@.len() == $D
@ensures
r.elem@.len() == $D, forall|k: int| 0 <= k < $D ==> #[trigger] r.elem@[k].v() == self_.elem@[k].v() * constant.v()

@fn cuhksz::dot as $Q_dot sig (const $AP &, const $AP &)
@params v w
@requires
v.elem@.len() == $D, w.elem@.len() == $D
@ensures
r.v() == dot_(v.elem@, w.elem@, $D)
@loop 1
@invariant
0 <= i <= $D, v.elem@.len() == $D, w.elem@.len() == $D, ret.v() == dot_(v.elem@, w.elem@, i as int)
@decreases
$D - i

@fn cuhksz::$CP::operator== as $Q_eq
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r == (forall|k: int| 0 <= k < $D ==> rabs(#[trigger] this.elem@[k].v() - other.elem@[k].v()) <= eps())
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, forall|k: int| 0 <= k < i ==> rabs(#[trigger] this.elem@[k].v() - other.elem@[k].v()) <= eps()
@decreases
$D - i

@fn cuhksz::$CP::operator!= as $Q_ne
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r == !(forall|k: int| 0 <= k < $D ==> rabs(#[trigger] this.elem@[k].v() - other.elem@[k].v()) <= eps())

@fn cuhksz::$CP::len as $Q_len
@opt this mut
@requires
old(this).elem@.len() == $D
@ensures
final(this).elem@ == old(this).elem@, is_root(r.v(), dot_(old(this).elem@, old(this).elem@, $D)), $XL
@entry
proof { reveal_with_fuel(dot_, 3); }
@ret
root_pos(ret_v.v());
@loop 1
@invariant
0 <= i <= $D, this.elem@ == old(this).elem@, this.elem@.len() == $D, ret.v() == dot_(this.elem@, this.elem@, i as int)
@decreases
$D - i
@after
proof { dot_nonneg(this.elem@, $D); }

@fn cuhksz::$CP::normalize as $Q_normalize
@requires
old(this).elem@.len() == $D, dot_(old(this).elem@, old(this).elem@, $D) > 0real
@ensures
final(this).elem@.len() == $D, dot_(final(this).elem@, final(this).elem@, $D) == 1real,
exists|l: real| #[trigger] multiple(old(this).elem@, l, final(this).elem@, $D)
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, old(this).elem@.len() == $D, l.v() > 0real, l.v() * l.v() == dot_(old(this).elem@, old(this).elem@, $D), forall|k: int| 0 <= k < i ==> #[trigger] this.elem@[k].v() == old(this).elem@[k].v() / l.v(), forall|k: int| i <= k < $D ==> #[trigger] this.elem@[k] == old(this).elem@[k]
@decreases
$D - i
@after
proof { norm_unit(old(this).elem@, this.elem@, l.v(), $D); assert(multiple(old(this).elem@, l.v(), this.elem@, $D)); }

@fn cuhksz::$CP::operator< as $Q_lt
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r == lexlt(this.elem@, other.elem@, 0, $D)
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, lexlt(this.elem@, other.elem@, 0, $D) == lexlt(this.elem@, other.elem@, i as int, $D)
@decreases
$D - i

@fn cuhksz::$CP::operator<= as $Q_le
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r == !lexlt(other.elem@, this.elem@, 0, $D)
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, lexlt(other.elem@, this.elem@, 0, $D) == lexlt(other.elem@, this.elem@, i as int, $D)
@decreases
$D - i

@fn cuhksz::$CP::operator> as $Q_gt
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r == lexlt(other.elem@, this.elem@, 0, $D)
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, lexlt(other.elem@, this.elem@, 0, $D) == lexlt(other.elem@, this.elem@, i as int, $D)
@decreases
$D - i

@fn cuhksz::$CP::operator>= as $Q_ge
@params other
@requires
this.elem@.len() == $D, other.elem@.len() == $D
@ensures
r == !lexlt(this.elem@, other.elem@, 0, $D)
@loop 1
@invariant
0 <= i <= $D, this.elem@.len() == $D, other.elem@.len() == $D, lexlt(this.elem@, other.elem@, 0, $D) == lexlt(this.elem@, other.elem@, i as int, $D)
@decreases
$D - i

@fn cuhksz::operator<< as $Q_out sig (std::ostream &, const $AP)
@params os self_
@opt retunit
@requires
self_.elem@.len() == $D, old(os).width == 0
@ensures
final(os)@ == old(os)@ + coords(self_.elem@, $D) + seq![41i8]
@loop 1
@invariant
1 <= i <= $D, self_.elem@.len() == $D, os.width == 0, os@ == old(os)@ + coords(self_.elem@, i as int)
@decreases
$D - i
@before
proof { assert(os@ =~= old(os)@ + coords(self_.elem@, 1)); }
@begin
let ghost o1 = os@;
@bodyend
assert(os@ =~= o1 + seq![44i8, 32i8] + num_text(self_.elem@[i as int])); assert(coords(self_.elem@, i + 1) == coords(self_.elem@, i as int) + seq![44i8, 32i8] + num_text(self_.elem@[i as int])); assert(os@ =~= old(os)@ + coords(self_.elem@, i + 1));
@entry
proof { dim_bound(); }
@ret
assert(os@ =~= old(os)@ + coords(self_.elem@, $D) + seq![41i8]);

@endrepeat

@fn cuhksz::Point<1>::Point as p1_x sig void (const double)
@params x
@ensures
r.elem@.len() == 1, r.elem@[0] == x

@fn cuhksz::Point<2>::Point as p2_xy sig void (const double, const double)
@opt ctorof cuhksz::Point<2>
@params x y
@ensures
r.elem@.len() == 2, r.elem@[0] == x, r.elem@[1] == y

@fn cuhksz::Point<3>::Point as p3_xyz sig void (const double, const double, const double)
@params x y z
@ensures
r.elem@.len() == 3, r.elem@[0] == x, r.elem@[1] == y, r.elem@[2] == z

@fn cuhksz::cross as p2_cross sig (const Point<> &, const Point<> &)
@params v w
@requires
v.elem@.len() == 2, w.elem@.len() == 2
@ensures
r.v() == crs(*v, *w)

@fn cuhksz::Line::Line as line_new sig void (Point<2>, GVector<2>)
@opt ctorof cuhksz::Line
@params A0 v0
@requires
A0.elem@.len() == 2, v0.elem@.len() == 2
@ensures
r.A.elem@ == A0.elem@, r.v.elem@ == v0.elem@

@fn cuhksz::Line::Line as line_copy sig void (const Line &)
@opt ctorof cuhksz::Line
@params src
@requires
wfl(*src)
@ensures
r.A.elem@ == src.A.elem@, r.v.elem@ == src.v.elem@

@fn cuhksz::Line::operator= as line_assign
@params src
@opt retunit
@requires
wfl(*src), wfl(*old(this))
@ensures
final(this).A.elem@ == src.A.elem@, final(this).v.elem@ == src.v.elem@

@fn cuhksz::Line::len as line_len
@opt this mut
@requires
wfl(*old(this))
@ensures
final(this).A == old(this).A, final(this).v.elem@ == old(this).v.elem@, is_root(r.v(), dt(old(this).v, old(this).v))

@fn cuhksz::getIntersection as intersection
@params l1 l2
@requires
wfl(*l1), wfl(*l2), crs(l1.v, l2.v) != 0real
@ensures
r.elem@.len() == 2, exists|t: real| on_at(*l1, t, r), exists|t: real| on_at(*l2, t, r)
@ret
meet(*l1, *l2, ret_v);

@fn dcmp as dcmp
@params x
@ensures
r == (if rabs(x.v()) < eps() { 0int } else if x.v() > 0real { 1int } else { -1int })

@fn cuhksz::disToLine as disToLine
@params P l
@requires
P.elem@.len() == 2, wfl(l), dt(l.v, l.v) > 0real
@ensures
r.v() >= 0real, forall|t: real| r.v() * r.v() <= #[trigger] d2(P, l, t), exists|t: real| r.v() * r.v() == #[trigger] d2(P, l, t)
@ret
perp_intro2(P_0, l_0, ret_v.v()); line_dist(P_0, l_0, ret_v.v());

@fn cuhksz::disToSegment as disToSegment
@params P l
@requires
P.elem@.len() == 2, wfl(l), dt(l.v, l.v) > 0real
@ensures
r.v() >= 0real, seg_ok(P, l, r.v())
@ret
let rr = ret_v.v(); let (pp, ll) = (P_0, l_0); distm(px(ll.v), wx(pp, ll)); distm(py(ll.v), wy(pp, ll)); assert(w1(pp, ll) == (wx(pp, ll) - px(ll.v)) * (wx(pp, ll) - px(ll.v)) + (wy(pp, ll) - py(ll.v)) * (wy(pp, ll) - py(ll.v))) by { d2_poly(pp, ll, 1real); lin1(pp, ll); }
if ee(pp, ll) <= 0real - eps() { seg0(pp, ll, rr); } else if ee(pp, ll) - vv(ll) >= eps() { seg1(pp, ll, rr); } else { perp_intro2(pp, ll, rr); segp(pp, ll, rr); }


@fn cuhksz::Circle::Circle as circle_new sig void ()
@opt ctorof cuhksz::Circle
@ensures
r.O.elem@.len() == 2, px(r.O) == 0real, py(r.O) == 0real, r.r.v() == 1real

@fn cuhksz::Circle::Circle as circle_r sig void (double)
@opt ctorof cuhksz::Circle
@params radius
@ensures
r.O.elem@.len() == 2, px(r.O) == 0real, py(r.O) == 0real, r.r == radius

@fn cuhksz::Circle::Circle as circle_o sig void (Point<2>)
@opt ctorof cuhksz::Circle
@params o
@requires
o.elem@.len() == 2
@ensures
r.O.elem@ == o.elem@, r.r.v() == 1real

@fn cuhksz::Circle::Circle as circle_or sig void (Point<2>, double)
@opt ctorof cuhksz::Circle
@params o radius
@requires
o.elem@.len() == 2
@ensures
r.O.elem@ == o.elem@, r.r == radius

@fn cuhksz::Circle::getArea as circle_area
@ensures
*final(this) == *old(this), pilo() * (old(this).r.v() * old(this).r.v()) <= r.v() <= pihi() * (old(this).r.v() * old(this).r.v())
@ret
area_ok(pilo(), old(this).r.v()); area_ok(mpi(), old(this).r.v());

@fn cuhksz::Circle::getPerimeter as circle_perimeter
@requires
old(this).r.v() >= 0real
@ensures
*final(this) == *old(this), 2real * (pilo() * old(this).r.v()) <= r.v() <= 2real * (pihi() * old(this).r.v())
@ret
perim_ok(pilo(), old(this).r.v()); perim_ok(mpi(), old(this).r.v());

@fn cuhksz::Circle::getPoint as circle_point
@params rad
@requires
old(this).O.elem@.len() == 2
@ensures
*final(this) == *old(this), r.elem@.len() == 2, px(r) == px(old(this).O) + old(this).r.v() * cos_(rad.v()), py(r) == py(old(this).O) + old(this).r.v() * sin_(rad.v()), (px(r) - px(old(this).O)) * (px(r) - px(old(this).O)) + (py(r) - py(old(this).O)) * (py(r) - py(old(this).O)) == old(this).r.v() * old(this).r.v()
@ret
circ(old(this).r.v(), rad_0.v()); assert(px(ret_v) - px(old(this).O) == old(this).r.v() * cos_(rad_0.v()) && py(ret_v) - py(old(this).O) == old(this).r.v() * sin_(rad_0.v()));
