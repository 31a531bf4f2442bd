@# Random: integers and booleans
@driver
#include "/repo/src/random/Random.cpp"

@struct cuhksz::Random => Rng
@trusted std::mt19937_64 is a deterministic engine: its outputs depend on the seed and the number of calls only
@prelude
// uniform up to the rounding a 64-bit engine cannot avoid: g mod w takes every value of 0..w, and the
// numbers of 64-bit g that give two values of 0..w differ by at most one
pub open spec fn pick(g: u64, w: int) -> int { (g as int) % w }
pub open spec fn seed_of(s: i32) -> u64 { if s < 0 { (0x1_0000_0000_0000_0000 + s) as u64 } else { s as u64 } }
pub proof fn pick_onto(w: int, v: int) requires 0 < w <= 0x1_0000_0000, 0 <= v < w ensures exists|g: u64| pick(g, w) == v { assert(pick(v as u64, w) == v) by (nonlinear_arith) requires 0 <= v < w, v <= u64::MAX, pick(v as u64, w) == v % w; }

@fn cuhksz::Random::nextInt as next_range sig int (int, int)
@params lo hi
@exit_ok
hi <= lo
@ensures
lo < hi, lo <= r < hi, r == lo + pick(mt_out(old(this).randomGenerator), hi - lo), final(this).randomGenerator == mt_step(old(this).randomGenerator)

@fn cuhksz::Random::nextInt as next_max sig int (int)
@params hi
@exit_ok
hi <= 0
@ensures
0 < hi, 0 <= r < hi, r == pick(mt_out(old(this).randomGenerator), hi as int), final(this).randomGenerator == mt_step(old(this).randomGenerator)

@fn cuhksz::Random::nextInt as next_int sig int ()
@ensures
r == i32::MIN + pick(mt_out(old(this).randomGenerator), 0x1_0000_0000), final(this).randomGenerator == mt_step(old(this).randomGenerator)

@fn cuhksz::Random::nextBool as next_bool
@ensures
r == (pick(mt_out(old(this).randomGenerator), 2) != 0), final(this).randomGenerator == mt_step(old(this).randomGenerator)

@fn cuhksz::Random::setSeed as set_seed
@params seed
@ensures
final(this).randomGenerator == mt_seed(seed_of(seed))

@fn cuhksz::Random::Random as rnd_new sig void (int)
@params seed
@ensures
r.randomGenerator == mt_seed(seed_of(seed))
