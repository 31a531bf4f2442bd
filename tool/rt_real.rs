verus! {
// power with an integer exponent, and functions of which only what is stated here is assumed
pub open spec fn rpow(x: real, n: int) -> real decreases n { if n <= 0 { 1real } else { rpow(x, n - 1) * x } }
pub uninterp spec fn rpowr(x: real, y: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
#[verifier::external_body]
pub proof fn rexp_pos(x: real) ensures rexp(x) > 0real { }
pub uninterp spec fn rlog(x: real) -> real;
#[verifier::external_body]
pub proof fn rlog_neg(x: real) requires 0real < x <= 1real ensures rlog(x) <= 0real { }
#[verifier::external_body]
pub proof fn rnext_below(x: real, y: real) requires y < x ensures y <= rnext(x, y) < x { }
pub uninterp spec fn rfloor(x: real) -> int;
#[verifier::external_body]
pub proof fn rfloor_def(x: real) ensures (rfloor(x) as real) <= x < (rfloor(x) as real) + 1real { }
#[verifier::external_body]
pub fn num_powi(a: Num, n: i32) -> (r: Num) requires n >= 0 ensures r.v() == rpow(a.v(), n as int) { unimplemented!() }
#[verifier::external_body]
pub fn num_pow(a: Num, b: Num) -> (r: Num) requires a.v() > 0real ensures r.v() == rpowr(a.v(), b.v()), r.v() > 0real { unimplemented!() }
#[verifier::external_body]
pub fn num_exp(a: Num) -> (r: Num) ensures r.v() == rexp(a.v()), r.v() > 0real { unimplemented!() }
#[verifier::external_body]
pub fn num_log(a: Num) -> (r: Num) requires a.v() > 0real ensures r.v() == rlog(a.v()), a.v() <= 1real ==> r.v() <= 0real, a.v() < 1real ==> r.v() < 0real { unimplemented!() }
#[verifier::external_body]
pub fn num_floor(a: Num) -> (r: Num) ensures r.v() == rfloor(a.v()) as real, r.v() <= a.v() < r.v() + 1real { unimplemented!() }
#[verifier::external_body]
pub fn num_to_i32(a: Num) -> (r: i32) requires -2147483649real < a.v() < 2147483648real ensures a.v() >= 0real ==> (r as real) <= a.v() < (r as real) + 1real && r == rfloor(a.v()), a.v() <= 0real ==> a.v() <= (r as real) < a.v() + 1real { unimplemented!() }
pub uninterp spec fn rnext(x: real, y: real) -> real;      // the number next to x in the direction of y
#[verifier::external_body]
pub fn num_nextafter(a: Num, b: Num) -> (r: Num) ensures r.v() == rnext(a.v(), b.v()), b.v() < a.v() ==> b.v() <= r.v() < a.v(), a.v() < b.v() ==> a.v() < r.v() <= b.v() { unimplemented!() }
// the time of day in seconds: any number
#[verifier::external_body]
pub fn c_time() -> (r: i64) { unimplemented!() }
}
