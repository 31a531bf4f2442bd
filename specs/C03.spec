@# base64Encode / base64Decode
@driver
#include "/repo/src/base64/base64_functions.cpp"

@prelude
// the RFC 4648 alphabet
pub open spec fn alpha(v: int) -> i8 {
    if v < 26 { (65 + v) as i8 } else if v < 52 { (97 + v - 26) as i8 } else if v < 62 { (48 + v - 52) as i8 } else if v == 62 { 43i8 } else { 47i8 } }
pub open spec fn unalpha(c: i8) -> int {
    if 65 <= c <= 90 { c - 65 } else if 97 <= c <= 122 { c - 97 + 26 } else if 48 <= c <= 57 { c - 48 + 52 } else if c == 43 { 62 } else { 63 } }
pub open spec fn valid(c: i8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 || 48 <= c <= 57 || c == 43 || c == 47 }
pub open spec fn byte(c: i8) -> int { wrap_u8(c as int) }
// bit i of the byte string, most significant bit of each byte first; 0 beyond the end
pub open spec fn bit8(s: Seq<i8>, i: int) -> i8 { if 0 <= i < 8 * s.len() { bitc(byte(s[i / 8]), 7 - i % 8) } else { 48i8 } }
pub open spec fn bits8(s: Seq<i8>) -> Seq<i8> { Seq::new(8 * s.len(), |i: int| bit8(s, i)) }
pub open spec fn bv(c: i8) -> int { if c == 49i8 { 1 } else { 0 } }
pub open spec fn sextet(s: Seq<i8>, k: int) -> int {
    32 * bv(bit8(s, 6*k)) + 16 * bv(bit8(s, 6*k+1)) + 8 * bv(bit8(s, 6*k+2)) + 4 * bv(bit8(s, 6*k+3)) + 2 * bv(bit8(s, 6*k+4)) + bv(bit8(s, 6*k+5)) }
pub open spec fn enc_body(s: Seq<i8>) -> Seq<i8> { Seq::new(((8 * s.len() + 5) / 6) as nat, |k: int| alpha(sextet(s, k))) }
pub open spec fn eqs(n: int) -> Seq<i8> { Seq::new(n as nat, |k: int| 61i8) }
// RFC 4648 section 4: groups of 4 characters, padded with '='
pub open spec fn rfc4648(s: Seq<i8>) -> Seq<i8> { let e = enc_body(s); e + eqs((4 - e.len() % 4) % 4) }
// decoding: padding is ignored, incomplete trailing bits dropped
pub open spec fn strip(t: Seq<i8>) -> Seq<i8> decreases t.len()
{ if t.len() == 0 { t } else if t.last() == 61i8 { strip(t.drop_last()) } else { strip(t.drop_last()).push(t.last()) } }
pub open spec fn bit6(t: Seq<i8>, i: int) -> i8 { bitc(unalpha(t[i / 6]), 5 - i % 6) }
pub open spec fn bits6(t: Seq<i8>) -> Seq<i8> { Seq::new(6 * t.len(), |i: int| bit6(t, i)) }
pub open spec fn octet(t: Seq<i8>, k: int) -> int {
    128 * bv(bit6(t, 8*k)) + 64 * bv(bit6(t, 8*k+1)) + 32 * bv(bit6(t, 8*k+2)) + 16 * bv(bit6(t, 8*k+3)) + 8 * bv(bit6(t, 8*k+4)) + 4 * bv(bit6(t, 8*k+5)) + 2 * bv(bit6(t, 8*k+6)) + bv(bit6(t, 8*k+7)) }
pub open spec fn dec(t: Seq<i8>) -> Seq<i8> { let u = strip(t); Seq::new((6 * u.len() / 8) as nat, |k: int| wrap_i8(octet(u, k)) as i8) }
pub open spec fn all_valid(t: Seq<i8>) -> bool { forall|k: int| 0 <= k < t.len() ==> #[trigger] valid(t[k]) || t[k] == 61i8 }

pub proof fn bits_of(v: int, n: int)
    requires 0 <= v < p2(n), n == 6 || n == 8
    ensures n == 6 ==> v == 32 * bv(bitc(v, 5)) + 16 * bv(bitc(v, 4)) + 8 * bv(bitc(v, 3)) + 4 * bv(bitc(v, 2)) + 2 * bv(bitc(v, 1)) + bv(bitc(v, 0)),
      n == 8 ==> v == 128 * bv(bitc(v, 7)) + 64 * bv(bitc(v, 6)) + 32 * bv(bitc(v, 5)) + 16 * bv(bitc(v, 4)) + 8 * bv(bitc(v, 3)) + 4 * bv(bitc(v, 2)) + 2 * bv(bitc(v, 1)) + bv(bitc(v, 0))
{
    let (a1, a2, a3, a4, a5, a6, a7) = (v / 2, v / 4, v / 8, v / 16, v / 32, v / 64, v / 128);
    assert(a2 == a1 / 2 && a3 == a2 / 2 && a4 == a3 / 2 && a5 == a4 / 2 && a6 == a5 / 2 && a7 == a6 / 2);
}
pub proof fn bits_back(b0: int, b1: int, b2: int, b3: int, b4: int, b5: int)
    requires 0 <= b0 <= 1, 0 <= b1 <= 1, 0 <= b2 <= 1, 0 <= b3 <= 1, 0 <= b4 <= 1, 0 <= b5 <= 1
    ensures ({ let v = 32 * b0 + 16 * b1 + 8 * b2 + 4 * b3 + 2 * b4 + b5;
        0 <= v < 64 && bv(bitc(v, 5)) == b0 && bv(bitc(v, 4)) == b1 && bv(bitc(v, 3)) == b2 && bv(bitc(v, 2)) == b3 && bv(bitc(v, 1)) == b4 && bv(bitc(v, 0)) == b5 })
{ }
pub proof fn binval6(s: Seq<i8>) requires s.len() == 6, is_bin(s)
    ensures binval(s) == 32 * bv(s[0]) + 16 * bv(s[1]) + 8 * bv(s[2]) + 4 * bv(s[3]) + 2 * bv(s[4]) + bv(s[5]), 0 <= binval(s) < 64
{ reveal_with_fuel(binval, 8); }
pub proof fn binval8(s: Seq<i8>) requires s.len() == 8, is_bin(s)
    ensures binval(s) == 128 * bv(s[0]) + 64 * bv(s[1]) + 32 * bv(s[2]) + 16 * bv(s[3]) + 8 * bv(s[4]) + 4 * bv(s[5]) + 2 * bv(s[6]) + bv(s[7]), 0 <= binval(s) < 256
{ reveal_with_fuel(binval, 10); }
pub proof fn bits8_push(s: Seq<i8>, it: int)
    requires 0 <= it < s.len()
    ensures bits8(s.subrange(0, it + 1)) == bits8(s.subrange(0, it)) + Seq::new(8, |i: int| bitc(wrap_u64(s[it] as int) % 256, 8 - 1 - i)), is_bin(bits8(s.subrange(0, it + 1)))
{
    assert(wrap_u64(s[it] as int) % 256 == byte(s[it]));
    assert(bits8(s.subrange(0, it + 1)) =~= bits8(s.subrange(0, it)) + Seq::new(8, |i: int| bitc(wrap_u64(s[it] as int) % 256, 8 - 1 - i)));
}
pub proof fn enc_step(s: Seq<i8>, b: Seq<i8>, i: int)
    requires i % 6 == 0, 0 <= i, i + 6 <= b.len(), b.len() == 6 * ((8 * s.len() + 5) / 6), forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == bit8(s, k)
    ensures is_bin(b.subrange(i, i + 6)), b.subrange(i, i + 6).subrange(0, 6) == b.subrange(i, i + 6), binval(b.subrange(i, i + 6)) == sextet(s, i / 6), 0 <= sextet(s, i / 6) < 64
{
    let u = b.subrange(i, i + 6); let k = i / 6;
    assert(u.subrange(0, 6) =~= u);
    assert(6 * k == i);
    assert(u[0] == bit8(s, 6*k) && u[1] == bit8(s, 6*k+1) && u[2] == bit8(s, 6*k+2) && u[3] == bit8(s, 6*k+3) && u[4] == bit8(s, 6*k+4) && u[5] == bit8(s, 6*k+5));
    binval6(u);
}
pub proof fn codes_alpha()
    ensures forall|v: int| 0 <= v < 64 ==> #[trigger] spec_glob_codes()[v] == alpha(v), spec_glob_codes().len() == 66, spec_glob_codes()[64] == 61i8, spec_glob_codes()[65] == 0i8
{
    let c = spec_glob_codes();
    assert forall|v: int| 0 <= v < 64 implies #[trigger] c[v] == alpha(v) by {
        if v < 16 { if v < 8 { if v < 4 {} else {} } else { } } else if v < 32 { } else if v < 48 { } else { }
    }
}
pub proof fn unalpha_alpha(v: int) requires 0 <= v < 64 ensures unalpha(alpha(v)) == v, valid(alpha(v)) { }
pub proof fn alpha_unalpha(c: i8) requires valid(c) ensures alpha(unalpha(c)) == c, 0 <= unalpha(c) < 64 { }
// position of a valid character in the table
pub proof fn find_code(c: i8)
    requires valid(c)
    ensures spec_glob_codes().len() == 66, find_from(spec_glob_codes(), 0, 0) == 65, find_from(spec_glob_codes().subrange(0, 65), c, 0) == unalpha(c), 0 <= unalpha(c) < 64
{
    codes_alpha(); alpha_unalpha(c);
    let v = unalpha(c); let t = spec_glob_codes().subrange(0, 65);
    assert forall|k: int| 0 <= k < 65 implies spec_glob_codes()[k] != 0 by { if k < 64 { assert(spec_glob_codes()[k] == alpha(k)); } }
    find_is(spec_glob_codes(), 0, 0, 65);
    assert(spec_glob_codes()[v] == alpha(v));
    assert forall|k: int| 0 <= k < v implies t[k] != c by { assert(spec_glob_codes()[k] == alpha(k)); unalpha_alpha(k); }
    find_is(t, c, 0, v);
}
pub proof fn bits6_push(t: Seq<i8>, c: i8)
    requires 0 <= unalpha(c) < 64
    ensures bits6(t.push(c)) == bits6(t) + Seq::new(6, |i: int| bitc(unalpha(c), 6 - 1 - i)), is_bin(bits6(t.push(c)))
{ assert(bits6(t.push(c)) =~= bits6(t) + Seq::new(6, |i: int| bitc(unalpha(c), 6 - 1 - i))); }
pub proof fn strip_step(t: Seq<i8>, it: int)
    requires 0 <= it < t.len()
    ensures strip(t.subrange(0, it + 1)) == (if t[it] == 61i8 { strip(t.subrange(0, it)) } else { strip(t.subrange(0, it)).push(t[it]) })
{ assert(t.subrange(0, it + 1).drop_last() =~= t.subrange(0, it)); }
pub proof fn dec_step(t: Seq<i8>, i: int)
    requires i % 8 == 0, 0 <= i, i + 8 <= 6 * t.len()
    ensures is_bin(bits6(t).subrange(i, i + 8)), bits6(t).subrange(i, i + 8).subrange(0, 8) == bits6(t).subrange(i, i + 8), binval(bits6(t).subrange(i, i + 8)) == octet(t, i / 8), 0 <= octet(t, i / 8) < 256
{
    let u = bits6(t).subrange(i, i + 8); let k = i / 8;
    assert(u.subrange(0, 8) =~= u);
    assert(8 * k == i);
    assert(u[0] == bit6(t, 8*k) && u[1] == bit6(t, 8*k+1) && u[2] == bit6(t, 8*k+2) && u[3] == bit6(t, 8*k+3) && u[4] == bit6(t, 8*k+4) && u[5] == bit6(t, 8*k+5) && u[6] == bit6(t, 8*k+6) && u[7] == bit6(t, 8*k+7));
    binval8(u);
}
pub proof fn strip_eqs(t: Seq<i8>, n: nat)
    requires forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] != 61i8
    ensures strip(t + eqs(n as int)) == t
    decreases n + t.len()
{
    if n == 0 {
        assert(t + eqs(0) =~= t);
        if t.len() > 0 { let d = t.drop_last(); assert(d + eqs(0) =~= d); strip_eqs(d, 0); assert(d.push(t.last()) =~= t); }
    } else {
        assert((t + eqs(n as int)).drop_last() =~= t + eqs(n - 1)); strip_eqs(t, (n - 1) as nat);
    }
}
pub proof fn enc_bit(s: Seq<i8>, i: int)
    requires 0 <= i < 6 * enc_body(s).len()
    ensures bit6(enc_body(s), i) == bit8(s, i)
{
    let k = i / 6; let j = i % 6;
    let (b0, b1, b2, b3, b4, b5) = (bv(bit8(s, 6*k)), bv(bit8(s, 6*k+1)), bv(bit8(s, 6*k+2)), bv(bit8(s, 6*k+3)), bv(bit8(s, 6*k+4)), bv(bit8(s, 6*k+5)));
    bits_back(b0, b1, b2, b3, b4, b5); unalpha_alpha(sextet(s, k));
    assert(i == 6 * k + j);
    assert(unalpha(enc_body(s)[k]) == sextet(s, k));
}
// decoding inverts encoding, for every byte string and any amount of padding
pub proof fn octet_back(s: Seq<i8>, k: int)
    requires 0 <= k < s.len() ensures octet(enc_body(s), k) == byte(s[k])
{
    assert(8 * k + 7 < 6 * enc_body(s).len());
    let b = byte(s[k]);
    assert((8 * k) / 8 == k && (8 * k + 1) / 8 == k && (8 * k + 2) / 8 == k && (8 * k + 3) / 8 == k && (8 * k + 4) / 8 == k && (8 * k + 5) / 8 == k && (8 * k + 6) / 8 == k && (8 * k + 7) / 8 == k);
    enc_bit(s, 8*k); enc_bit(s, 8*k+1); enc_bit(s, 8*k+2); enc_bit(s, 8*k+3); enc_bit(s, 8*k+4); enc_bit(s, 8*k+5); enc_bit(s, 8*k+6); enc_bit(s, 8*k+7);
    assert(bit8(s, 8*k) == bitc(b, 7)); assert(bit8(s, 8*k+1) == bitc(b, 6)); assert(bit8(s, 8*k+2) == bitc(b, 5)); assert(bit8(s, 8*k+3) == bitc(b, 4));
    assert(bit8(s, 8*k+4) == bitc(b, 3)); assert(bit8(s, 8*k+5) == bitc(b, 2)); assert(bit8(s, 8*k+6) == bitc(b, 1)); assert(bit8(s, 8*k+7) == bitc(b, 0));
    bits_of(b, 8);
}
pub proof fn enc_valid(s: Seq<i8>, k: int)
    requires 0 <= k < enc_body(s).len() ensures valid(enc_body(s)[k]), enc_body(s)[k] != 61i8
{
    bits_back(bv(bit8(s, 6*k)), bv(bit8(s, 6*k+1)), bv(bit8(s, 6*k+2)), bv(bit8(s, 6*k+3)), bv(bit8(s, 6*k+4)), bv(bit8(s, 6*k+5)));
    unalpha_alpha(sextet(s, k));
}
pub proof fn dec_at(t: Seq<i8>, u: Seq<i8>, k: int)
    requires u == strip(t), 0 <= k < 6 * u.len() / 8
    ensures dec(t)[k] == wrap_i8(octet(u, k))
{ }
pub proof fn roundtrip(s: Seq<i8>, n: nat)
    ensures dec(enc_body(s) + eqs(n as int)) == s, all_valid(enc_body(s) + eqs(n as int))
{
    hide(octet); hide(sextet); hide(bit8); hide(bit6); hide(alpha);
    let e = enc_body(s); let t = e + eqs(n as int);
    assert forall|k: int| 0 <= k < e.len() implies #[trigger] e[k] != 61i8 && valid(e[k]) by { enc_valid(s, k); }
    strip_eqs(e, n);
    assert(e.len() == (8 * s.len() + 5) / 6);
    assert(6 * e.len() / 8 == s.len());
    let d = dec(t);
    assert(d.len() == s.len());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] d[k] == s[k] by { octet_back(s, k); dec_at(t, e, k); assert(wrap_i8(byte(s[k])) == s[k]); }
    assert(d =~= s);
}
pub proof fn roundtrip_rfc(s: Seq<i8>) ensures dec(rfc4648(s)) == s, all_valid(rfc4648(s)) { roundtrip(s, ((4 - enc_body(s).len() % 4) % 4) as nat); }

@fn cuhksz::base64Encode as base64_encode
@params s length
@head
hide(sextet); hide(octet); hide(alpha); hide(unalpha); hide(bitc); hide(binval); hide(spec_glob_codes);
@requires
s@.len() < 0x2000_0000
@ensures
length == -1 ==> r@ == rfc4648(s@),
length < -1 ==> r@.len() == 0,
length >= 0 && length < enc_body(s@).len() ==> r@.len() == 0,
length >= 0 && length >= enc_body(s@).len() ==> r@ == enc_body(s@) + eqs(length - enc_body(s@).len()),
@loop 1
@invariant
0 <= it <= s@.len(), s@ == s_0@, s@.len() < 0x2000_0000, binaryStr@ == bits8(s@.subrange(0, it as int))
@decreases s@.len() - it
@begin
proof { bits8_push(s@, it as int); }
@after
proof { assert(s@.subrange(0, s@.len() as int) =~= s@); }
@loop 2
@invariant
i % 6 == 0, 0 <= i <= size, size == binaryStr@.len(), size == 6 * ((8 * s@.len() + 5) / 6), s@.len() < 0x2000_0000, s@ == s_0@,
forall|k: int| 0 <= k < size ==> #[trigger] binaryStr@[k] == bit8(s@, k), encoded.width == 0,
encoded@.len() == i / 6, forall|k: int| 0 <= k < i / 6 ==> #[trigger] encoded@[k] == alpha(sextet(s@, k))
@decreases size - i
@begin
proof { enc_step(s@, binaryStr@, i as int); codes_alpha(); }
@after
proof { assert(encoded@ =~= enc_body(s@)); }
@ret
assert(eqs(0) =~= Seq::<i8>::empty()); assert(eqs(1) =~= seq![61i8]); assert(eqs(2) =~= seq![61i8, 61i8]);
assert(enc_body(s_0@) + eqs(0) =~= enc_body(s_0@));
if ret_v@.len() > 0 && length_0 >= 0 { assert(ret_v@ =~= enc_body(s_0@) + eqs(length_0 - enc_body(s_0@).len())); }
assert(enc_body(s_0@).len() % 4 != 1);

@fn cuhksz::base64Decode as base64_decode
@params decodeStr
@head
hide(sextet); hide(octet); hide(alpha); hide(unalpha); hide(bitc); hide(binval); hide(spec_glob_codes);
@requires
decodeStr@.len() < 0x2000_0000_0000, all_valid(decodeStr@)
@ensures
r@ == dec(decodeStr@)
@loop 1
@invariant
0 <= it <= decodeStr@.len(), decodeStr@ == decodeStr_0@, decodeStr@.len() < 0x2000_0000_0000, binaryDecodeStr@ == bits6(strip(decodeStr@.subrange(0, it as int))),
strip(decodeStr@.subrange(0, it as int)).len() <= it
@decreases decodeStr@.len() - it
@begin
proof { strip_step(decodeStr@, it as int);
  let cc = decodeStr@[it as int]; assert(valid(cc) || cc == 61i8);
  if valid(cc) { find_code(cc); bits6_push(strip(decodeStr@.subrange(0, it as int)), cc); } }
@after
proof { assert(decodeStr@.subrange(0, decodeStr@.len() as int) =~= decodeStr@); }
@loop 2
@invariant
i % 8 == 0, 0 <= i <= size, size % 8 == 0, size <= binaryDecodeStr@.len() < size + 8, binaryDecodeStr@ == bits6(strip(decodeStr_0@)), decoded.width == 0, strip(decodeStr_0@).len() < 0x2000_0000_0000,
decoded@.len() == i / 8, forall|k: int| 0 <= k < i / 8 ==> #[trigger] decoded@[k] == wrap_i8(octet(strip(decodeStr_0@), k))
@decreases size - i
@begin
proof { dec_step(strip(decodeStr_0@), i as int); }
@after
proof { assert(decoded@ =~= dec(decodeStr_0@)); }
