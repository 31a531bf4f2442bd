@# urlEncode / urlDecode
@driver
#include "/repo/src/network/network_functions.cpp"

@prelude
pub open spec fn byte(c: i8) -> int { wrap_u8(c as int) }
// RFC 3986 unreserved characters
pub open spec fn unreserved(c: i8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 || c == 45 || c == 95 || c == 46 || c == 126 }
pub open spec fn hexu(d: int) -> i8 { if d < 10 { (48 + d) as i8 } else { (55 + d) as i8 } }
pub open spec fn enc1(c: i8) -> Seq<i8> { if unreserved(c) { seq![c] } else { seq![37i8, hexu(byte(c) / 16), hexu(byte(c) % 16)] } }
// percent-encoding of s[i..]
pub open spec fn uenc(s: Seq<i8>, i: int) -> Seq<i8> decreases s.len() - i
{ if i < 0 || i >= s.len() { Seq::empty() } else { enc1(s[i]) + uenc(s, i + 1) } }
pub open spec fn is_hex(c: i8) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn hexv(c: i8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
// s[i..] has only complete escapes
pub open spec fn wf(s: Seq<i8>, i: int) -> bool decreases s.len() - i
{ if i < 0 || i >= s.len() { true } else if s[i] == 37i8 { i + 2 < s.len() && is_hex(s[i + 1]) && is_hex(s[i + 2]) && wf(s, i + 3) } else { wf(s, i + 1) } }
// percent-decoding of s[i..] ('+' is a space)
pub open spec fn udec(s: Seq<i8>, i: int) -> Seq<i8> decreases s.len() - i
{ if i < 0 || i >= s.len() { Seq::empty() }
  else if s[i] == 43i8 { seq![32i8] + udec(s, i + 1) }
  else if s[i] == 37i8 && i + 2 < s.len() { seq![wrap_i8(16 * hexv(s[i + 1]) + hexv(s[i + 2])) as i8] + udec(s, i + 3) }
  else { seq![s[i]] + udec(s, i + 1) } }
pub proof fn hex2(b: int)
    requires 0 <= b < 256
    ensures padded(hexdigits(wrap_u32(b), true), 2, 48i8) == seq![hexu(b / 16), hexu(b % 16)], is_hex(hexu(b / 16)), is_hex(hexu(b % 16)), 16 * hexv(hexu(b / 16)) + hexv(hexu(b % 16)) == b
{
    reveal_with_fuel(hexdigits, 3);
    assert(padded(hexdigits(wrap_u32(b), true), 2, 48i8) =~= seq![hexu(b / 16), hexu(b % 16)]);
}
// decoding inverts encoding
pub proof fn roundtrip_at(p: Seq<i8>, s: Seq<i8>, i: int)
    requires 0 <= i <= s.len()
    ensures udec(p + uenc(s, i), p.len() as int) == s.subrange(i, s.len() as int), wf(p + uenc(s, i), p.len() as int)
    decreases s.len() - i
{
    let t = p + uenc(s, i); let n = p.len() as int;
    if i < s.len() {
        let e = enc1(s[i]); let q = p + e;
        assert(t =~= q + uenc(s, i + 1));
        roundtrip_at(q, s, i + 1);
        hex2(byte(s[i]));
        assert(t[n] == e[0]);
        if !unreserved(s[i]) { assert(t[n + 1] == e[1] && t[n + 2] == e[2]); assert(wrap_i8(byte(s[i])) == s[i]); }
        assert(s.subrange(i, s.len() as int) =~= seq![s[i]] + s.subrange(i + 1, s.len() as int));
    } else { assert(s.subrange(i, s.len() as int) =~= Seq::<i8>::empty()); assert(t.len() == n); }
}
pub proof fn roundtrip(s: Seq<i8>) ensures udec(uenc(s, 0), 0) == s, wf(uenc(s, 0), 0)
{ roundtrip_at(Seq::empty(), s, 0); assert(Seq::<i8>::empty() + uenc(s, 0) =~= uenc(s, 0)); assert(s.subrange(0, s.len() as int) =~= s); }
// the encoding consists of unreserved characters and escapes
pub proof fn enc_charset(s: Seq<i8>, i: int, k: int)
    requires 0 <= i, 0 <= k < uenc(s, i).len()
    ensures ({ let c = uenc(s, i)[k]; unreserved(c) || c == 37i8 })
    decreases s.len() - i
{ if i < s.len() { hex2(byte(s[i])); let e = enc1(s[i]); if k >= e.len() { enc_charset(s, i + 1, k - e.len()); } } }

@fn cuhksz::urlEncode as url_encode
@params s
@ensures
r@ == uenc(s@, 0)
@loop 1
@invariant
0 <= it <= s@.len(), escaped.hex, escaped.fillc == 48i8, escaped.width == 0,
escaped@ + uenc(s@, it as int) == uenc(s@, 0)
@decreases s@.len() - it
@begin
let ghost e0 = escaped@; let ghost it0 = it as int;
proof { hex2(byte(s@[it as int])); }
@end
assert(e0 + (enc1(s@[it0]) + uenc(s@, it0 + 1)) =~= (e0 + enc1(s@[it0])) + uenc(s@, it0 + 1));
assert(escaped@ =~= e0 + enc1(s@[it0]));
@after
proof { assert(escaped@ + Seq::<i8>::empty() =~= escaped@); }

@fn cuhksz::urlDecode as url_decode
@params s
@requires
s@.len() < 0x7fff_ffff_ffff_0000
@ensures
wf(s@, 0) ==> r@ == udec(s@, 0)
@loop 1
@invariant
0 <= i <= s@.len(), s@.len() < 0x7fff_ffff_ffff_0000, length == s@.len(), s@ == s_0@, escaped.width == 0, wf(s@, 0) ==> wf(s@, i as int) && escaped@ + udec(s@, i as int) == udec(s@, 0)
@decreases s@.len() - i
@begin
let ghost e0 = escaped@; let ghost i0 = i as int;
@end
assert(i == i0 + 1 || i == i0 + 3);
if wf(s@, 0) {
 assert(udec(s@, i0) =~= seq![udec(s@, i0)[0]] + udec(s@, i as int));
 assert(escaped@ =~= e0 + seq![udec(s@, i0)[0]]);
 assert(e0 + udec(s@, i0) =~= (e0 + seq![udec(s@, i0)[0]]) + udec(s@, i as int)); }
@after
proof { assert(escaped@ + Seq::<i8>::empty() =~= escaped@); }
