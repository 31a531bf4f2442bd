@include json
@driver
namespace cuhksz { static void drv2_() { std::string a; int x = stringCast<int>(a); double y = stringCast<double>(a); loadJSON(a); JSONObject o; o.dump(); } }

@struct cuhksz::stringCast<int> => ScInt
@struct cuhksz::stringCast<double> => ScDbl

@prelude
// ---------------------------------------------------------------- what a text means
pub open spec fn at0(s: Seq<i8>, i: int) -> i8 { if 0 <= i < s.len() { s[i] } else { 0i8 } }
pub open spec fn ws(s: Seq<i8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && sp_(s[i]) { ws(s, i + 1) } else { i } }
pub proof fn ws_prop(s: Seq<i8>, i: int) requires 0 <= i <= s.len() ensures i <= ws(s, i) <= s.len(), ws(s, ws(s, i)) == ws(s, i), !sp_(at0(s, ws(s, i))) decreases s.len() - i { if i < s.len() && sp_(s[i]) { ws_prop(s, i + 1); } }
pub open spec fn hexd(c: i8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 || 65 <= c <= 70 }
pub open spec fn unesc(c: i8) -> i8 { if c == 34 || c == 92 || c == 47 { c } else if c == 98 { 8i8 } else if c == 102 { 12i8 } else if c == 110 { 10i8 } else if c == 114 { 13i8 } else if c == 116 { 9i8 } else { 92i8 } }
// the characters of a string from i on, up to the closing quote, after acc: the text and the place behind the quote
pub open spec fn strb(s: Seq<i8>, i: int, acc: Seq<i8>) -> Option<(Seq<i8>, int)> decreases s.len() - i
{ if !(0 <= i < s.len()) { None }
  else if s[i] == 34 { Some((acc, i + 1)) }
  else if s[i] == 92 {
      if i + 1 >= s.len() { None }
      else if s[i + 1] == 117 { if hexd(at0(s, i + 2)) && hexd(at0(s, i + 3)) && hexd(at0(s, i + 4)) && hexd(at0(s, i + 5)) { strb(s, i + 6, acc + seq![92i8, 117i8, s[i + 2], s[i + 3], s[i + 4], s[i + 5]]) } else { None } }
      else { strb(s, i + 2, acc.push(unesc(s[i + 1]))) } }
  else { strb(s, i + 1, acc.push(s[i])) } }
pub open spec fn nrun(s: Seq<i8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && numch(s[i]) { nrun(s, i + 1) } else { i } }
pub proof fn nrun_prop(s: Seq<i8>, i: int) requires 0 <= i <= s.len() ensures i <= nrun(s, i) <= s.len(), !numch(at0(s, nrun(s, i))) decreases s.len() - i { if i < s.len() && numch(s[i]) { nrun_prop(s, i + 1); } }
pub proof fn nrun_gt(s: Seq<i8>, i: int) requires 0 <= i < s.len(), numch(s[i]) ensures i < nrun(s, i) { nrun_prop(s, i + 1); }
pub proof fn digrun_prop(s: Seq<i8>, i: int) requires 0 <= i <= s.len() ensures i <= digrun(s, i) <= s.len(), !(48 <= at0(s, digrun(s, i)) <= 57) decreases s.len() - i { if i < s.len() && 48 <= s[i] <= 57 { digrun_prop(s, i + 1); } }
pub open spec fn dot(s: Seq<i8>, i: int, j: int) -> bool { exists|k: int| i <= k < j && #[trigger] s[k] == 46i8 }
pub open spec fn delim(c: i8) -> bool { sp_(c) || c == 44 || c == 93 || c == 125 || c == 0 }
pub open spec fn castd(s: Seq<i8>) -> Dbl { if blank(s) { d_zero() } else { d_scan(s) } }
pub open spec fn casti(s: Seq<i8>) -> int { if blank(s) { 0 } else { scan_int(s) } }
pub open spec fn pnum(s: Seq<i8>, i: int) -> Option<(V, int)>
{ let j = nrun(s, i); let t = s.subrange(i, j); let c = at0(s, j);
  if c == 69 || c == 101 {
      if j + 1 >= s.len() { None } else {
      let neg = s[j + 1] == 45; let k = if s[j + 1] == 45 || s[j + 1] == 43 { j + 2 } else { j + 1 }; let e = digrun(s, k); let x = s.subrange(k, e);
      if delim(at0(s, e)) && e > k { Some((V::Float(d_mul(castd(t), d_pow(10, casti(if neg { seq![45i8] + x } else { x })))), e)) } else { None } } }
  else if !delim(c) { None }
  else if dot(s, i, j) { Some((V::Float(d_mul(castd(t), d_pow(10, 0))), j)) }
  else { Some((V::Int(casti(t) as i32), j)) } }
pub open spec fn word(s: Seq<i8>, i: int, w: Seq<i8>) -> bool { 0 <= i && i + w.len() <= s.len() && s.subrange(i, i + w.len()) == w }
pub open spec fn pnext(s: Seq<i8>, i: int) -> Option<(V, int)> decreases s.len() - i, 1nat
{ let j = ws(s, i); let c = at0(s, j);
  if !(0 <= i <= j < s.len()) { None }
  else if c == 91 { parr(s, j) }
  else if c == 123 { pobj(s, j) }
  else if c == 34 { match strb(s, j + 1, Seq::empty()) { Some((t, k)) => Some((V::Str(t), k)), None => None } }
  else if c == 116 || c == 102 { pbool(s, j) }
  else if c == 110 { pnull(s, j) }
  else if 48 <= c <= 57 || c == 45 { pnum(s, j) }
  else { None } }
pub open spec fn pbool(s: Seq<i8>, j: int) -> Option<(V, int)> { if word(s, j, seq![116i8, 114i8, 117i8, 101i8]) { Some((V::Bool(true), j + 4)) } else if word(s, j, seq![102i8, 97i8, 108i8, 115i8, 101i8]) { Some((V::Bool(false), j + 5)) } else { None } }
pub open spec fn pnull(s: Seq<i8>, j: int) -> Option<(V, int)> { if word(s, j, seq![110i8, 117i8, 108i8, 108i8]) { Some((V::Null, j + 4)) } else { None } }
pub open spec fn parr(s: Seq<i8>, j: int) -> Option<(V, int)> decreases s.len() - j, 0nat
{ if !(0 <= j < s.len()) { None } else { let k = ws(s, j + 1); if !(j < k <= s.len()) { None } else if at0(s, k) == 93 { Some((V::Arr(Seq::empty()), k + 1)) } else { aitems(s, k, Seq::empty()) } } }
pub open spec fn pobj(s: Seq<i8>, j: int) -> Option<(V, int)> decreases s.len() - j, 0nat
{ if !(0 <= j < s.len()) { None } else { let k = ws(s, j + 1); if !(j < k <= s.len()) { None } else if at0(s, k) == 125 { Some((V::Obj(Seq::empty(), Seq::empty()), k + 1)) } else { oitems(s, k, V::Obj(Seq::empty(), Seq::empty())) } } }
// the rest of an array whose elements so far are acc
pub open spec fn aitems(s: Seq<i8>, i: int, acc: Seq<V>) -> Option<(V, int)> decreases s.len() - i, 2nat
{ match pnext(s, i) { None => None, Some((v, j)) => { let k = ws(s, j);
    if !(0 <= i < j <= k < s.len()) { None } else if s[k] == 44 { aitems(s, k + 1, acc.push(v)) } else if s[k] == 93 { Some((V::Arr(acc.push(v)), k + 1)) } else { None } } } }
// a key: a string, or the text of any other value
pub open spec fn pkey(q: bool, t: Option<(Seq<i8>, int)>, v: Option<(V, int)>) -> Option<(Seq<i8>, int)>
{ if q { t } else { match v { None => None, Some((v, j)) => Some((if v is Str { escs(v->Str_0, v->Str_0.len() as int) } else { Seq::empty() }, j)) } } }
pub proof fn grow_last() ensures forall|a: Seq<V>, n: int, m: int, x: V| n == a.len() + 1 && m == a.len() ==> #[trigger] grow(a, n).update(m, x) == a.push(x) { assert forall|a: Seq<V>, n: int, m: int, x: V| n == a.len() + 1 && m == a.len() implies #[trigger] grow(a, n).update(m, x) == a.push(x) by { assert(grow(a, n).update(m, x) =~= a.push(x)); } }
// the rest of an object whose entries so far are acc
pub open spec fn oitems(s: Seq<i8>, i: int, acc: V) -> Option<(V, int)> decreases s.len() - i, 3nat
{ let i1 = ws(s, i); if !(0 <= i <= i1 <= s.len()) { None } else { match pkey(at0(s, i1) == 34, strb(s, i1 + 1, Seq::empty()), pnext(s, i1)) { None => None, Some((k, j)) => { let c = ws(s, j);
    if !(i1 < j <= c < s.len()) || s[c] != 58 { None } else { let w = ws(s, c + 1); if !(c < w <= s.len()) { None } else { match pnext(s, w) { None => None, Some((v, j2)) => { let e = ws(s, j2);
      if !(w < j2 <= e < s.len()) { None } else if s[e] == 44 { oitems(s, e + 1, put(acc, k, v)) } else if s[e] == 125 { Some((put(acc, k, v), e + 1)) } else { None } } } } } } } } }

// ---------------------------------------------------------------- the text of a value
pub open spec fn rep(tab: Seq<i8>, n: int) -> Seq<i8> decreases n { if n <= 0 { Seq::empty() } else { rep(tab, n - 1) + tab } }
pub open spec fn cut2(s: Seq<i8>) -> Seq<i8> { if s.len() < 2 { Seq::empty() } else { s.subrange(2, s.len() as int) } }
pub open spec fn dumps(v: V, depth: int, tab: Seq<i8>) -> Seq<i8> decreases v, 0nat
{ match v {
    V::Null => seq![110i8, 117i8, 108i8, 108i8],
    V::Bool(b) => if b { seq![116i8, 114i8, 117i8, 101i8] } else { seq![102i8, 97i8, 108i8, 115i8, 101i8] },
    V::Int(i) => fmt_dec(i as int),
    V::Float(d) => d_text(d),
    V::Str(s) => seq![34i8] + escs(s, s.len() as int) + seq![34i8],
    V::Arr(s) => seq![91i8] + dumpa(s, s.len(), depth, tab) + seq![93i8],
    V::Obj(k, s) => seq![123i8, 10i8] + dumpo(k, s, s.len(), depth, tab) + (seq![10i8] + cut2(rep(tab, depth)) + seq![125i8]) } }
pub open spec fn dumpa(s: Seq<V>, n: nat, depth: int, tab: Seq<i8>) -> Seq<i8> decreases s, n
{ if n == 0 || n > s.len() { Seq::empty() } else { dumpa(s, (n - 1) as nat, depth, tab) + (if n > 1 { seq![44i8, 32i8] } else { Seq::empty() }) + dumps(s[n - 1], depth + 1, tab) } }
pub open spec fn dumpo(k: Seq<Seq<i8>>, s: Seq<V>, n: nat, depth: int, tab: Seq<i8>) -> Seq<i8> decreases s, n
{ if n == 0 || n > s.len() { Seq::empty() } else { dumpo(k, s, (n - 1) as nat, depth, tab) + (if n > 1 { seq![44i8, 10i8] } else { Seq::empty() }) + entry(k[n - 1], rep(tab, depth), dumps(s[n - 1], depth + 1, tab)) } }
pub open spec fn entry(k: Seq<i8>, pad: Seq<i8>, d: Seq<i8>) -> Seq<i8> { pad + seq![34i8] + escs(k, k.len() as int) + seq![34i8, 32i8, 58i8, 32i8] + d }

// ---------------------------------------------------------------- reading what was written
pub open spec fn mat(s: Seq<i8>, i: int, t: Seq<i8>) -> bool { 0 <= i && i + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == s[i + k] }
pub proof fn mat_cat(s: Seq<i8>, i: int, a: Seq<i8>, b: Seq<i8>) requires mat(s, i, a + b) ensures mat(s, i, a), mat(s, i + a.len(), b)
{ let t = a + b; assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == s[i + k] by { assert(t[k] == a[k]); } assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == s[i + a.len() + k] by { assert(t[a.len() + k] == b[k]); } }
pub proof fn mat_sub(s: Seq<i8>, i: int, t: Seq<i8>) requires mat(s, i, t) ensures s.subrange(i, i + t.len()) == t { assert(s.subrange(i, i + t.len()) =~= t); }
pub proof fn ws_over(s: Seq<i8>, i: int, w: Seq<i8>) requires mat(s, i, w), blank(w) ensures ws(s, i) == ws(s, i + w.len()) decreases w.len()
{ if w.len() > 0 { let v = w.subrange(1, w.len() as int); assert(w =~= seq![w[0]] + v); mat_cat(s, i, seq![w[0]], v); assert(w[0] == s[i]); assert(sp_(s[i])); ws_over(s, i + 1, v); } }
pub proof fn ws_here(s: Seq<i8>, i: int) requires 0 <= i, i >= s.len() || !sp_(s[i]) ensures ws(s, i) == i { }
pub open spec fn nf(d: Dbl) -> Dbl { d_scan(d_text(d)) }
// the value with every float as its text shows it
pub open spec fn norm(v: V) -> V decreases v
{ match v { V::Float(d) => V::Float(nf(d)), V::Arr(s) => V::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { norm(s[i]) } else { V::Null })), V::Obj(k, s) => V::Obj(k, Seq::new(s.len(), |i: int| if 0 <= i < s.len() { norm(s[i]) } else { V::Null })), _ => v } }
pub open spec fn norms(s: Seq<V>) -> Seq<V> { Seq::new(s.len(), |i: int| norm(s[i])) }
// finite floats, objects with distinct keys in order
pub open spec fn fin(v: V) -> bool decreases v
{ match v { V::Float(d) => d_finite(d), V::Arr(s) => forall|i: int| 0 <= i < s.len() ==> fin(#[trigger] s[i]), V::Obj(k, s) => k.len() == s.len() && sorted(k) && forall|i: int| 0 <= i < s.len() ==> fin(#[trigger] s[i]), _ => true } }
pub open spec fn escf(t: Seq<i8>, m: int) -> Seq<i8> decreases t.len() - m { if 0 <= m < t.len() { esc(t[m]) + escf(t, m + 1) } else { Seq::empty() } }
pub proof fn escs_cat(t: Seq<i8>, m: int) requires 0 <= m <= t.len() ensures escs(t, t.len() as int) == escs(t, m) + escf(t, m) decreases t.len() - m
{ if m < t.len() { escs_cat(t, m + 1); assert(escs(t, m + 1) + escf(t, m + 1) =~= escs(t, m) + (esc(t[m]) + escf(t, m + 1))); } else { assert(escs(t, m) + escf(t, m) =~= escs(t, m)); } }
pub proof fn str_rt(s: Seq<i8>, i: int, acc: Seq<i8>, t: Seq<i8>, m: int) requires 0 <= m <= t.len(), mat(s, i, escf(t, m) + seq![34i8])
    ensures strb(s, i, acc) == Some((acc + t.subrange(m, t.len() as int), i + escf(t, m).len() + 1)) decreases t.len() - m
{
    mat_cat(s, i, escf(t, m), seq![34i8]);
    if m < t.len() {
        let e = esc(t[m]); let f = escf(t, m + 1);
        assert(escf(t, m) + seq![34i8] =~= e + (f + seq![34i8])); mat_cat(s, i, e, f + seq![34i8]);
        let a1 = acc.push(t[m]);
        str_rt(s, i + e.len(), a1, t, m + 1);
        assert(a1 + t.subrange(m + 1, t.len() as int) =~= acc + t.subrange(m, t.len() as int));
        assert(e[0] == s[i]);
        if e.len() == 2 { assert(e[1] == s[i + 1]); }
        assert(strb(s, i, acc) == strb(s, i + e.len(), a1));
    } else {
        assert(acc + t.subrange(m, t.len() as int) =~= acc);
        assert(seq![34i8][0] == s[i + escf(t, m).len()]);
    }
}
pub proof fn str_rt0(s: Seq<i8>, i: int, t: Seq<i8>) requires mat(s, i, escs(t, t.len() as int) + seq![34i8]) ensures strb(s, i, Seq::empty()) == Some((t, i + escs(t, t.len() as int).len() + 1))
{ escs_cat(t, 0); assert(escs(t, 0) + escf(t, 0) =~= escf(t, 0)); str_rt(s, i, Seq::empty(), t, 0); assert(Seq::<i8>::empty() + t.subrange(0, t.len() as int) =~= t); }
pub proof fn decd(v: int) requires v >= 0 ensures decdigits(v).len() > 0, all_digits(decdigits(v)), dec_value(decdigits(v)) == v decreases v
{ if v >= 10 { decd(v / 10); let a = decdigits(v / 10); let r = decdigits(v); assert(r.drop_last() =~= a); assert(r.last() == digit_char(v % 10, false)); assert forall|k: int| 0 <= k < r.len() implies 48 <= #[trigger] r[k] <= 57 by { if k < a.len() { assert(r[k] == a[k]); } } }
  else { let r = decdigits(v); assert(r =~= seq![digit_char(v, false)]); assert(r.drop_last() =~= Seq::<i8>::empty()); assert(dec_value(r.drop_last()) == 0); } }
pub proof fn digrun_all(s: Seq<i8>, i: int) requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> 48 <= #[trigger] s[k] <= 57 ensures digrun(s, i) == s.len() decreases s.len() - i { if i < s.len() { digrun_all(s, i + 1); } }
pub proof fn scan_dec(x: int) requires -0x8000_0000 <= x <= 0x7fff_ffff ensures casti(fmt_dec(x)) == x
{
    let s = fmt_dec(x); let a = if x >= 0 { x } else { -x }; let d = decdigits(a); decd(a);
    if x >= 0 { assert(s[0] == d[0]); assert(!sp_(s[0])); digrun_all(s, 0); assert(s.subrange(0, s.len() as int) =~= d); }
    else { assert(s[0] == 45); assert(!sp_(s[0])); assert forall|k: int| 1 <= k < s.len() implies 48 <= #[trigger] s[k] <= 57 by { assert(s[k] == d[k - 1]); } digrun_all(s, 1); assert(s.subrange(1, s.len() as int) =~= d); }
}
pub proof fn nrun_over(s: Seq<i8>, i: int, t: Seq<i8>) requires mat(s, i, t), forall|k: int| 0 <= k < t.len() ==> numch(#[trigger] t[k]), !numch(at0(s, i + t.len())) ensures nrun(s, i) == i + t.len() decreases t.len()
{ if t.len() > 0 { let v = t.subrange(1, t.len() as int); assert(t =~= seq![t[0]] + v); mat_cat(s, i, seq![t[0]], v); assert(t[0] == s[i]); nrun_over(s, i + 1, v); } }
pub proof fn int_rt(s: Seq<i8>, i: int, x: int) requires -0x8000_0000 <= x <= 0x7fff_ffff, mat(s, i, fmt_dec(x)), delim(at0(s, i + fmt_dec(x).len())) ensures pnum(s, i) == Some((V::Int(x as i32), i + fmt_dec(x).len())), fmt_dec(x).len() > 0, s[i] == 45 || 48 <= s[i] <= 57
{
    let t = fmt_dec(x); let d = decdigits(if x >= 0 { x } else { -x }); decd(if x >= 0 { x } else { -x }); scan_dec(x);
    assert forall|k: int| 0 <= k < t.len() implies numch(#[trigger] t[k]) && t[k] != 46 by { if x < 0 && k > 0 { assert(t[k] == d[k - 1]); } }
    nrun_over(s, i, t); mat_sub(s, i, t);
    assert(!dot(s, i, i + t.len())) by { if dot(s, i, i + t.len()) { let k = choose|k: int| i <= k < i + t.len() && #[trigger] s[k] == 46i8; assert(t[k - i] == s[i + (k - i)]); } }
    assert(t[0] == s[i]); assert(numch(t[0]));
}
pub proof fn float_rt(s: Seq<i8>, i: int, x: Dbl) requires d_finite(x), mat(s, i, d_text(x)), delim(at0(s, i + d_text(x).len())) ensures pnum(s, i) == Some((V::Float(nf(x)), i + d_text(x).len())), d_text(x).len() > 0, s[i] == 45 || 48 <= s[i] <= 57
{
    ax_text(x); let t = d_text(x); ax_pow0(nf(x)); nrun_over(s, i, t); mat_sub(s, i, t);
    let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == 46i8; assert(s[i + k] == 46); assert(dot(s, i, i + t.len()));
    assert(t[0] == s[i]); assert(numch(t[0])); assert(!blank(t)) by { assert(!sp_(t[0])); }
}
// the text of the elements from m on
pub open spec fn sfxa(s: Seq<V>, m: int, depth: int, tab: Seq<i8>) -> Seq<i8> decreases s.len() - m
{ if 0 <= m < s.len() { dumps(s[m], depth + 1, tab) + (if m + 1 < s.len() { seq![44i8, 32i8] } else { Seq::empty() }) + sfxa(s, m + 1, depth, tab) } else { Seq::empty() } }
pub proof fn dumpa_cat(s: Seq<V>, m: int, depth: int, tab: Seq<i8>) requires 0 <= m <= s.len()
    ensures dumpa(s, s.len(), depth, tab) == dumpa(s, m as nat, depth, tab) + (if 0 < m < s.len() { seq![44i8, 32i8] } else { Seq::empty() }) + sfxa(s, m, depth, tab) decreases s.len() - m
{
    if m < s.len() { dumpa_cat(s, m + 1, depth, tab);
        assert(dumpa(s, s.len(), depth, tab) =~= dumpa(s, m as nat, depth, tab) + (if 0 < m < s.len() { seq![44i8, 32i8] } else { Seq::empty() }) + sfxa(s, m, depth, tab)); }
    else { assert(dumpa(s, s.len(), depth, tab) =~= dumpa(s, m as nat, depth, tab) + Seq::empty() + sfxa(s, m, depth, tab)); }
}
pub open spec fn sfxo(k: Seq<Seq<i8>>, s: Seq<V>, m: int, depth: int, tab: Seq<i8>) -> Seq<i8> decreases s.len() - m
{ if 0 <= m < s.len() { entry(k[m], rep(tab, depth), dumps(s[m], depth + 1, tab)) + (if m + 1 < s.len() { seq![44i8, 10i8] } else { Seq::empty() }) + sfxo(k, s, m + 1, depth, tab) } else { Seq::empty() } }
pub proof fn dumpo_cat(k: Seq<Seq<i8>>, s: Seq<V>, m: int, depth: int, tab: Seq<i8>) requires 0 <= m <= s.len()
    ensures dumpo(k, s, s.len(), depth, tab) == dumpo(k, s, m as nat, depth, tab) + (if 0 < m < s.len() { seq![44i8, 10i8] } else { Seq::empty() }) + sfxo(k, s, m, depth, tab) decreases s.len() - m
{
    if m < s.len() { dumpo_cat(k, s, m + 1, depth, tab);
        assert(dumpo(k, s, s.len(), depth, tab) =~= dumpo(k, s, m as nat, depth, tab) + (if 0 < m < s.len() { seq![44i8, 10i8] } else { Seq::empty() }) + sfxo(k, s, m, depth, tab)); }
    else { assert(dumpo(k, s, s.len(), depth, tab) =~= dumpo(k, s, m as nat, depth, tab) + Seq::empty() + sfxo(k, s, m, depth, tab)); }
}
pub proof fn rep_blank(tab: Seq<i8>, n: int) requires blank(tab) ensures blank(rep(tab, n)) decreases n
{ if n > 0 { rep_blank(tab, n - 1); let a = rep(tab, n - 1); let r = rep(tab, n); assert forall|k: int| 0 <= k < r.len() implies sp_(#[trigger] r[k]) by { if k < a.len() { assert(r[k] == a[k]); } else { assert(r[k] == tab[k - a.len()]); } } } }
pub proof fn put_last(ks: Seq<Seq<i8>>, vs: Seq<V>, n: int, v: V) requires sorted(ks), 0 <= n < ks.len(), vs.len() == n ensures put(V::Obj(ks.subrange(0, n), vs), ks[n], v) == V::Obj(ks.subrange(0, n + 1), vs.push(v))
{
    let p = ks.subrange(0, n); lb_prop(p, ks[n], 0); let q = lb(p, ks[n], 0);
    if q < n { assert(p[q] == ks[q]); assert(slt(ks[q], ks[n])); }
    assert(q == n); assert(p.insert(n, ks[n]) =~= ks.subrange(0, n + 1)); assert(vs.insert(n, v) =~= vs.push(v));
}
pub proof fn dump_first(v: V, depth: int, tab: Seq<i8>) requires fin(v) ensures dumps(v, depth, tab).len() > 0, ({ let c = dumps(v, depth, tab)[0]; !sp_(c) && c != 93 && c != 125 })
{ match v { V::Int(x) => { let y = x as int; decd(if y >= 0 { y } else { -y }); } V::Float(d) => { ax_text(d); assert(numch(d_text(d)[0])); } _ => {} } }
pub proof fn obj_end(s: Seq<i8>, i: int, depth: int, tab: Seq<i8>) requires blank(tab), mat(s, i, seq![10i8] + cut2(rep(tab, depth)) + seq![125i8]) ensures ws(s, i) == i + 1 + cut2(rep(tab, depth)).len(), s[ws(s, i)] == 125
{
    rep_blank(tab, depth); let p = rep(tab, depth); let c = cut2(p); let w = seq![10i8] + c;
    assert forall|k: int| 0 <= k < w.len() implies sp_(#[trigger] w[k]) by { if k > 0 { assert(w[k] == p[k + 1]); } }
    mat_cat(s, i, w, seq![125i8]); assert(seq![125i8][0] == s[i + w.len()]); ws_over(s, i, w);
}
// the value v, written at i0 after blanks and followed by a delimiter, is read back
pub proof fn rt(v: V, s: Seq<i8>, i0: int, i: int, depth: int, tab: Seq<i8>)
    requires fin(v), blank(tab), 0 <= i0 <= i, ws(s, i0) == ws(s, i), mat(s, i, dumps(v, depth, tab)), delim(at0(s, i + dumps(v, depth, tab).len()))
    ensures pnext(s, i0) == Some((norm(v), i + dumps(v, depth, tab).len())), dumps(v, depth, tab).len() > 0
    decreases v, 0int
{
    let t = dumps(v, depth, tab);
    match v {
        V::Null => { assert(t[0] == s[i]); mat_sub(s, i, t); }
        V::Bool(b) => { assert(t[0] == s[i]); mat_sub(s, i, t); if !b { assert(!word(s, i, seq![116i8, 114i8, 117i8, 101i8])) by { if word(s, i, seq![116i8, 114i8, 117i8, 101i8]) { assert(s.subrange(i, i + 4)[0] == s[i]); } } } }
        V::Int(x) => { int_rt(s, i, x as int); }
        V::Float(d) => { float_rt(s, i, d); }
        V::Str(c) => { let e = escs(c, c.len() as int); assert(t =~= seq![34i8] + (e + seq![34i8])); mat_cat(s, i, seq![34i8], e + seq![34i8]); str_rt0(s, i + 1, c); assert(seq![34i8][0] == s[i]); }
        V::Arr(a) => { rt_arr(a, s, i0, i, depth, tab); }
        V::Obj(k, a) => { rt_obj(k, a, s, i0, i, depth, tab); }
    }
}
pub proof fn rt_arr(a: Seq<V>, s: Seq<i8>, i0: int, i: int, depth: int, tab: Seq<i8>)
    requires forall|j: int| 0 <= j < a.len() ==> fin(#[trigger] a[j]), blank(tab), 0 <= i0 <= i, ws(s, i0) == ws(s, i), mat(s, i, dumps(V::Arr(a), depth, tab))
    ensures pnext(s, i0) == Some((norm(V::Arr(a)), i + dumps(V::Arr(a), depth, tab).len())), dumps(V::Arr(a), depth, tab).len() > 0
    decreases a, a.len() + 1
{
            let v = V::Arr(a); let t = dumps(v, depth, tab);
            dumpa_cat(a, 0, depth, tab); let d = sfxa(a, 0, depth, tab);
            assert(dumpa(a, a.len(), depth, tab) =~= d); assert(t =~= seq![91i8] + (d + seq![93i8])); mat_cat(s, i, seq![91i8], d + seq![93i8]); assert(seq![91i8][0] == s[i]);
            assert(ws(s, i) == i);
            if a.len() == 0 { assert(d =~= Seq::<i8>::empty()); mat_cat(s, i + 1, d, seq![93i8]); assert(seq![93i8][0] == s[i + 1]); assert(ws(s, i + 1) == i + 1); assert(norm(v)->Arr_0 =~= Seq::<V>::empty()); }
            else {
                dump_first(a[0], depth + 1, tab); assert(d[0] == dumps(a[0], depth + 1, tab)[0]); assert((d + seq![93i8])[0] == s[i + 1 + 0]); assert(ws(s, i + 1) == i + 1);
                assert(norms(a).subrange(0, 0) =~= Seq::<V>::empty());
                rta(a, 0, s, i + 1, i + 1, depth, tab); assert(norm(v)->Arr_0 =~= norms(a));
            }
            assert(pnext(s, i0) == parr(s, i)); assert(pnext(s, i0) == Some((norm(v), i + t.len())));
}
pub proof fn rt_obj(k: Seq<Seq<i8>>, a: Seq<V>, s: Seq<i8>, i0: int, i: int, depth: int, tab: Seq<i8>)
    requires k.len() == a.len(), sorted(k), forall|j: int| 0 <= j < a.len() ==> fin(#[trigger] a[j]), blank(tab), 0 <= i0 <= i, ws(s, i0) == ws(s, i), mat(s, i, dumps(V::Obj(k, a), depth, tab))
    ensures pnext(s, i0) == Some((norm(V::Obj(k, a)), i + dumps(V::Obj(k, a), depth, tab).len())), dumps(V::Obj(k, a), depth, tab).len() > 0
    decreases a, a.len() + 1
{
            let v = V::Obj(k, a); let t = dumps(v, depth, tab);
            dumpo_cat(k, a, 0, depth, tab); let d = sfxo(k, a, 0, depth, tab); let e = seq![10i8] + cut2(rep(tab, depth)) + seq![125i8];
            assert(dumpo(k, a, a.len(), depth, tab) =~= d);
            assert(t =~= seq![123i8] + (seq![10i8] + (d + e))); mat_cat(s, i, seq![123i8], seq![10i8] + (d + e)); assert(seq![123i8][0] == s[i]);
            mat_cat(s, i + 1, seq![10i8], d + e); assert(seq![10i8][0] == s[i + 1]); assert(ws(s, i + 1) == ws(s, i + 2));
            assert(ws(s, i) == i); rep_blank(tab, depth);
            if a.len() == 0 { assert(d =~= Seq::<i8>::empty()); mat_cat(s, i + 2, d, e); obj_end(s, i + 2, depth, tab); assert(norm(v)->Obj_1 =~= Seq::<V>::empty()); assert(k =~= Seq::<Seq<i8>>::empty()); assert(ws(s, i + 1) > i) by { ws_prop(s, i + 1); } }
            else {
                ws_prop(s, i + 1); let q = ws(s, i + 1);
                assert(norms(a).subrange(0, 0) =~= Seq::<V>::empty()); assert(k.subrange(0, 0) =~= Seq::<Seq<i8>>::empty());
                rto(k, a, 0, s, q, i + 2, depth, tab); assert(norm(v)->Obj_1 =~= norms(a));
                assert(at0(s, q) != 125) by { let pad = rep(tab, depth); let en = entry(k[0], pad, dumps(a[0], depth + 1, tab)); let f = en.subrange(pad.len() as int, en.len() as int);
                    assert(d + e =~= pad + (f + (d + e).subrange(en.len() as int, (d + e).len() as int))); mat_cat(s, i + 2, pad, f + (d + e).subrange(en.len() as int, (d + e).len() as int)); ws_over(s, i + 2, pad);
                    assert((f + (d + e).subrange(en.len() as int, (d + e).len() as int))[0] == s[i + 2 + pad.len() + 0]); assert(f[0] == 34); }
            }
            assert(pnext(s, i0) == pobj(s, i));
}
pub proof fn rta(a: Seq<V>, m: int, s: Seq<i8>, i0: int, i: int, depth: int, tab: Seq<i8>)
    requires forall|j: int| 0 <= j < a.len() ==> fin(#[trigger] a[j]), blank(tab), 0 <= m < a.len(), 0 <= i0 <= i, ws(s, i0) == ws(s, i), mat(s, i, sfxa(a, m, depth, tab) + seq![93i8])
    ensures aitems(s, i0, norms(a).subrange(0, m)) == Some((V::Arr(norms(a)), i + sfxa(a, m, depth, tab).len() + 1))
    decreases a, a.len() - m
{
    let d = dumps(a[m], depth + 1, tab); let rest = sfxa(a, m + 1, depth, tab); let sep = if m + 1 < a.len() { seq![44i8, 32i8] } else { Seq::empty() };
    let tail = sep + rest + seq![93i8]; assert(sfxa(a, m, depth, tab) + seq![93i8] =~= d + tail); mat_cat(s, i, d, tail);
    let j = i + d.len(); assert(tail[0] == s[j + 0]);
    if m + 1 >= a.len() { assert(rest =~= Seq::<i8>::empty()); assert(tail =~= seq![93i8]); }
    rt(a[m], s, i0, i, depth + 1, tab);
    assert(ws(s, j) == j);
    assert(norms(a).subrange(0, m).push(norm(a[m])) =~= norms(a).subrange(0, m + 1));
    if m + 1 < a.len() {
        assert(tail =~= sep + (rest + seq![93i8])); mat_cat(s, j, sep, rest + seq![93i8]); assert(tail[1] == s[j + 1]); assert(ws(s, j + 1) == ws(s, j + 2));
        rta(a, m + 1, s, j + 1, j + 2, depth, tab);
    } else { assert(norms(a).subrange(0, m + 1) =~= norms(a)); }
}
pub proof fn rto(k: Seq<Seq<i8>>, a: Seq<V>, m: int, s: Seq<i8>, i0: int, i: int, depth: int, tab: Seq<i8>)
    requires k.len() == a.len(), sorted(k), forall|j: int| 0 <= j < a.len() ==> fin(#[trigger] a[j]), blank(tab), 0 <= m < a.len(), 0 <= i0 <= s.len(), 0 <= i, ws(s, i0) == ws(s, i), mat(s, i, sfxo(k, a, m, depth, tab) + (seq![10i8] + cut2(rep(tab, depth)) + seq![125i8]))
    ensures oitems(s, i0, V::Obj(k.subrange(0, m), norms(a).subrange(0, m))) == Some((V::Obj(k, norms(a)), i + sfxo(k, a, m, depth, tab).len() + cut2(rep(tab, depth)).len() + 2))
    decreases a, a.len() - m
{
    let d = dumps(a[m], depth + 1, tab); let rest = sfxo(k, a, m + 1, depth, tab); let sep = if m + 1 < a.len() { seq![44i8, 10i8] } else { Seq::empty() }; let e = seq![10i8] + cut2(rep(tab, depth)) + seq![125i8];
    let pad = rep(tab, depth); let x = escs(k[m], k[m].len() as int); let tail = sep + rest + e;
    let t1 = x + seq![34i8]; let t2 = seq![32i8, 58i8, 32i8];
    assert(sfxo(k, a, m, depth, tab) + e =~= pad + (seq![34i8] + (t1 + (t2 + (d + tail)))));
    mat_cat(s, i, pad, seq![34i8] + (t1 + (t2 + (d + tail)))); let q = i + pad.len(); mat_cat(s, q, seq![34i8], t1 + (t2 + (d + tail))); mat_cat(s, q + 1, t1, t2 + (d + tail));
    let j = q + 1 + t1.len(); mat_cat(s, j, t2, d + tail); mat_cat(s, j + 3, d, tail); let j2 = j + 3 + d.len();
    rep_blank(tab, depth); ws_over(s, i, pad); assert(seq![34i8][0] == s[q + 0]); assert(ws(s, q) == q); ws_prop(s, i0);
    str_rt0(s, q + 1, k[m]);
    assert(t2[0] == s[j + 0] && t2[1] == s[j + 1] && t2[2] == s[j + 2]); assert(ws(s, j) == ws(s, j + 1) && ws(s, j + 1) == j + 1);
    dump_first(a[m], depth + 1, tab); assert(d[0] == s[j + 3 + 0]); assert(ws(s, j + 2) == ws(s, j + 3) && ws(s, j + 3) == j + 3);
    assert(tail[0] == s[j2 + 0]);
    if m + 1 >= a.len() { assert(rest =~= Seq::<i8>::empty()); assert(tail =~= e); }
    rt(a[m], s, j + 3, j + 3, depth + 1, tab);
    put_last(k, norms(a).subrange(0, m), m, norm(a[m]));
    assert(norms(a).subrange(0, m).push(norm(a[m])) =~= norms(a).subrange(0, m + 1));
    if m + 1 < a.len() {
        assert(ws(s, j2) == j2);
        assert(tail =~= sep + (rest + e)); mat_cat(s, j2, sep, rest + e); assert(tail[1] == s[j2 + 1]); assert(ws(s, j2 + 1) == ws(s, j2 + 2));
        rto(k, a, m + 1, s, j2 + 1, j2 + 2, depth, tab);
    } else { obj_end(s, j2, depth, tab); assert(norms(a).subrange(0, m + 1) =~= norms(a)); assert(k.subrange(0, m + 1) =~= k); }
}
// loading a dump gives the value back (floats as printed)
pub proof fn round_trip(v: V, depth: int, tab: Seq<i8>) requires fin(v), blank(tab) ensures pnext(dumps(v, depth, tab), 0) == Some((norm(v), dumps(v, depth, tab).len() as int))
{ let s = dumps(v, depth, tab); assert(mat(s, 0, s)); rt(v, s, 0, 0, depth, tab); }
// what a well-formed JSONObject stands for has distinct keys in order
pub open spec fn finj(v: V) -> bool decreases v { match v { V::Float(d) => d_finite(d), V::Arr(s) => forall|i: int| 0 <= i < s.len() ==> finj(#[trigger] s[i]), V::Obj(k, s) => forall|i: int| 0 <= i < s.len() ==> finj(#[trigger] s[i]), _ => true } }
pub proof fn wf_fin(j: Json) requires wf(j), finj(jval(j)) ensures fin(jval(j)) decreases j
{ match j.Data {
    JData::List(l) => { val_arr(j); assert(finj(V::Arr(vals(l.v@)))); assert(fin(V::Arr(vals(l.v@))) == (forall|i: int| 0 <= i < vals(l.v@).len() ==> fin(#[trigger] vals(l.v@)[i]))); assert forall|i: int| 0 <= i < l.v@.len() implies fin(#[trigger] vals(l.v@)[i]) by { assert(vals(l.v@)[i] == jval(l.v@[i])); assert(finj(vals(l.v@)[i])); wf_fin(l.v@[i]); } }
    JData::Map(m) => { val_obj(j); let kk = keys(m.ks@); let ss = vals(m.vs@); let o = V::Obj(kk, ss); assert(finj(o)); assert(finj(o) == (forall|i: int| 0 <= i < ss.len() ==> finj(#[trigger] ss[i]))); assert forall|i: int| 0 <= i < m.vs@.len() implies fin(#[trigger] vals(m.vs@)[i]) by { assert(vals(m.vs@)[i] == jval(m.vs@[i])); assert(finj(vals(m.vs@)[i])); wf_fin(m.vs@[i]); } }
    _ => {} } }

@fn cuhksz::stringCast<int>::stringCast as scint_new
@opt ctorof cuhksz::stringCast<int>
@params from
@ensures r.m_from@ == from@
@end_fn
@fn cuhksz::stringCast<int>::operator int as scint_get
@ensures r == casti(this.m_from@)
@end_fn
@fn cuhksz::stringCast<double>::stringCast as scdbl_new
@opt ctorof cuhksz::stringCast<double>
@params from
@ensures r.m_from@ == from@
@end_fn
@fn cuhksz::stringCast<double>::operator double as scdbl_get
@ensures r == castd(this.m_from@)
@end_fn
@fn cuhksz::skip_whitespaces as skip_ws
@params t offset
@requires *old(offset) <= t@.len(), t@.len() < 0x7fff_ffff
@ensures *final(offset) == ws(t@, *old(offset) as int), *old(offset) <= *final(offset) <= t@.len(), !sp_(at0(t@, *final(offset) as int))
@entry
proof { ws_prop(t@, *offset as int); }
@loop 1
@invariant *offset <= t@.len(), ws(t@, *offset as int) == ws(t@, offset_0 as int)
@decreases t@.len() - *offset
@end_fn
@fn cuhksz::parse_string_value as p_strval
@params t offset
@requires *old(offset) < t@.len(), t@.len() < 0x7fff_ffff
@ensures strb(t@, *old(offset) + 1, Seq::empty()) == Some((r@, *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok strb(t@, offset_0 + 1, Seq::empty()) is None
@loop 1
@invariant offset_0 < *offset <= t@.len(), t@.len() < 0x7fff_ffff, c == at0(t@, *offset as int), strb(t@, *offset as int, val@) == strb(t@, offset_0 + 1, Seq::empty())
@decreases t@.len() - *offset
@begin
let ghost v0 = val@;
@loop 2
@before
let ghost w0 = val@;
@invariant 1 <= i <= 5, offset_0 < *offset < t@.len(), *offset + i <= t@.len(), t@.len() < 0x7fff_ffff, t@[*offset as int] == 117, val@ == w0 + t@.subrange(*offset + 1, *offset + i),
  forall|k: int| *offset + 1 <= k < *offset + i ==> hexd(#[trigger] t@[k]),
  !(hexd(at0(t@, *offset + 1)) && hexd(at0(t@, *offset + 2)) && hexd(at0(t@, *offset + 3)) && hexd(at0(t@, *offset + 4))) ==> strb(t@, offset_0 + 1, Seq::empty()) is None
@decreases 5 - i
@bodyend
assert(val@ =~= w0 + t@.subrange(*offset + 1, *offset + i + 1));
@after
proof { assert(t@.subrange(*offset + 1, *offset + 5) =~= seq![t@[*offset + 1], t@[*offset + 2], t@[*offset + 3], t@[*offset + 4]]); assert(val@ =~= v0 + seq![92i8, 117i8, t@[*offset + 1], t@[*offset + 2], t@[*offset + 3], t@[*offset + 4]]); }
@end_fn
@fn cuhksz::parse_string as p_string
@params t offset
@requires *old(offset) < t@.len(), t@.len() < 0x7fff_ffff
@ensures ({ let p = strb(t@, *old(offset) + 1, Seq::empty()); p is Some && wf(r) && jval(r) == V::Str(p->Some_0.0) && *final(offset) == p->Some_0.1 }), *old(offset) < *final(offset) <= t@.len()
@exit_ok strb(t@, offset_0 + 1, Seq::empty()) is None
@end_fn
@fn cuhksz::parse_bool as p_bool
@params t offset
@requires *old(offset) <= t@.len(), t@.len() < 0x7fff_ffff
@ensures wf(r), pbool(t@, *old(offset) as int) == Some((jval(r), *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok pbool(t@, offset_0 as int) is None
@end_fn
@fn cuhksz::parse_null as p_null
@params t offset
@requires *old(offset) <= t@.len(), t@.len() < 0x7fff_ffff
@ensures wf(r), pnull(t@, *old(offset) as int) == Some((jval(r), *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok pnull(t@, offset_0 as int) is None
@end_fn
@fn cuhksz::parse_number as p_number
@attr #[verifier::allow_complex_invariants]
@params t offset
@requires *old(offset) < t@.len(), t@.len() < 0x7fff_ffff, numch(t@[*old(offset) as int])
@ensures wf(r), pnum(t@, *old(offset) as int) == Some((jval(r), *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok pnum(t@, offset_0 as int) is None
@loop 1
@before
proof { nrun_prop(t@, offset_0 as int); nrun_gt(t@, offset_0 as int); assert(val@ =~= t@.subrange(offset_0 as int, offset_0 as int)); }
@invariant_except_break
 offset_0 <= *offset <= t@.len(), nrun(t@, *offset as int) == nrun(t@, offset_0 as int), val@ == t@.subrange(offset_0 as int, *offset as int), isDouble == dot(t@, offset_0 as int, *offset as int)
@invariant exp == 0, exp_str@.len() == 0, offset_0 < nrun(t@, offset_0 as int) <= t@.len(), t@.len() < 0x7fff_ffff
@loop_ensures *offset == nrun(t@, offset_0 as int) + 1, c == at0(t@, nrun(t@, offset_0 as int)), val@ == t@.subrange(offset_0 as int, nrun(t@, offset_0 as int)), isDouble == dot(t@, offset_0 as int, nrun(t@, offset_0 as int))
@decreases t@.len() - *offset
@bodyend
assert(val@ =~= t@.subrange(offset_0 as int, *offset as int)); assert(t@[*offset - 1] == c); assert(dot(t@, offset_0 as int, *offset as int) == (dot(t@, offset_0 as int, *offset - 1) || c == 46));
@loop 2
@before
let ghost k0 = *offset as int; let ghost e0 = exp_str@; proof { digrun_prop(t@, k0); assert(exp_str@ =~= e0 + t@.subrange(k0, k0)); }
@invariant_except_break
 k0 <= *offset <= t@.len(), digrun(t@, *offset as int) == digrun(t@, k0), exp_str@ == e0 + t@.subrange(k0, *offset as int)
@invariant k0 <= digrun(t@, k0) <= t@.len(), t@.len() < 0x7fff_ffff, !delim(at0(t@, digrun(t@, k0))) ==> pnum(t@, offset_0 as int) is None
@loop_ensures *offset == digrun(t@, k0), delim(at0(t@, digrun(t@, k0))), exp_str@ == e0 + t@.subrange(k0, digrun(t@, k0))
@decreases t@.len() - *offset
@bodyend
assert(exp_str@ =~= e0 + t@.subrange(k0, *offset as int));
@after
proof { let x = t@.subrange(k0, digrun(t@, k0)); assert(Seq::<i8>::empty() + x =~= x); if x.len() > 0 { assert(x[0] == t@[k0]); } else { assert(seq![45i8] + x =~= seq![45i8]); } assert(e0 =~= Seq::<i8>::empty() || e0 =~= seq![45i8]); }
@end_fn
@fn cuhksz::parse_next as p_next
@params t offset
@requires *old(offset) <= t@.len(), t@.len() < 0x7fff_ffff
@ensures wf(r), pnext(t@, *old(offset) as int) == Some((jval(r), *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok pnext(t@, offset_0 as int) is None
@decreases t@.len() - *old(offset), 1nat
@end_fn
@fn cuhksz::parse_array as p_array
@attr #[verifier::allow_complex_invariants]
@params t offset
@requires *old(offset) < t@.len(), t@.len() < 0x7fff_ffff
@ensures wf(r), parr(t@, *old(offset) as int) == Some((jval(r), *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok parr(t@, offset_0 as int) is None
@decreases t@.len() - *old(offset), 0nat
@loop 1
@invariant offset_0 < *offset <= t@.len(), t@.len() < 0x7fff_ffff, wf(Array), jval(Array) is Arr, index == jval(Array)->Arr_0.len(), index + offset_0 < *offset
@invariant_except_break
 aitems(t@, *offset as int, jval(Array)->Arr_0) == parr(t@, offset_0 as int)
@loop_ensures parr(t@, offset_0 as int) == Some((jval(Array), *offset as int))
@decreases t@.len() - *offset
@begin
proof { grow_last(); }
@end_fn
@fn cuhksz::parse_object as p_object
@attr #[verifier::allow_complex_invariants]
@params t offset
@requires *old(offset) < t@.len(), t@.len() < 0x7fff_ffff
@ensures wf(r), pobj(t@, *old(offset) as int) == Some((jval(r), *final(offset) as int)), *old(offset) < *final(offset) <= t@.len()
@exit_ok pobj(t@, offset_0 as int) is None
@decreases t@.len() - *old(offset), 0nat
@loop 1
@invariant offset_0 < *offset <= t@.len(), t@.len() < 0x7fff_ffff, wf(Object), jval(Object) is Obj
@invariant_except_break
 oitems(t@, *offset as int, jval(Object)) == pobj(t@, offset_0 as int)
@loop_ensures pobj(t@, offset_0 as int) == Some((jval(Object), *offset as int))
@decreases t@.len() - *offset
@end_fn
@fn cuhksz::loadJSON as load_json
@params t
@requires t@.len() < 0x7fff_ffff
@ensures wf(r), pnext(t@, 0) is Some, jval(r) == pnext(t@, 0)->Some_0.0
@exit_ok pnext(t@, 0) is None
@end_fn
@fn cuhksz::JSONObject::dump as json_dump
@params depth tab
@requires wf(*this), depth + ht(jval(*this)) <= i32::MAX
@ensures r@ == dumps(jval(*this), depth as int, tab@)
@decreases ht(jval(*this))
@loop 1
@invariant 0 <= i, i <= depth || i == 0, pad@ == rep(tab@, i as int)
@decreases depth - i
@loop 2
@before
proof { val_obj(*this); }
@invariant it <= this.Data->Map_0.vs@.len(), skip == (it == 0), s@ == seq![123i8, 10i8] + dumpo(keys(this.Data->Map_0.ks@), vals(this.Data->Map_0.vs@), it as nat, depth as int, tab@)
@decreases this.Data->Map_0.vs@.len() - it
@begin
let ghost s0 = s@; proof { let vs = vals(this.Data->Map_0.vs@); sht_ge(vs, vs.len(), it as int); assert(vs[it as int] == jval(this.Data->Map_0.vs@[it as int])); assert(keys(this.Data->Map_0.ks@)[it as int] == this.Data->Map_0.ks@[it as int]@); }
@bodyend
let vs = vals(this.Data->Map_0.vs@); let ks = keys(this.Data->Map_0.ks@); assert(s@ =~= s0 + ((if it > 0 { seq![44i8, 10i8] } else { Seq::empty() }) + entry(ks[it as int], rep(tab@, depth as int), dumps(vs[it as int], depth + 1, tab@))));
assert(s@ =~= seq![123i8, 10i8] + dumpo(ks, vs, (it + 1) as nat, depth as int, tab@));
@loop 3
@before
proof { val_arr(*this); }
@invariant it <= this.Data->List_0.v@.len(), skip == (it == 0), s@ == seq![91i8] + dumpa(vals(this.Data->List_0.v@), it as nat, depth as int, tab@)
@decreases this.Data->List_0.v@.len() - it
@begin
let ghost s0 = s@; proof { let vs = vals(this.Data->List_0.v@); sht_ge(vs, vs.len(), it as int); assert(vs[it as int] == jval(this.Data->List_0.v@[it as int])); }
@bodyend
let vs = vals(this.Data->List_0.v@); assert(s@ =~= s0 + ((if it > 0 { seq![44i8, 32i8] } else { Seq::empty() }) + dumps(vs[it as int], depth + 1, tab@)));
assert(s@ =~= seq![91i8] + dumpa(vs, (it + 1) as nat, depth as int, tab@));
@ret
assert(ret_v@ =~= dumps(jval(*this), depth as int, tab@));
@end_fn
@fn cuhksz::operator<< as json_out sig std::ostream &(std::ostream &, const JSONObject &)
@opt retunit
@params os json
@requires wf(*json), 1 + ht(jval(*json)) <= i32::MAX
@ensures oss_put(old(os), final(os), dumps(jval(*json), 1, seq![32i8, 32i8]))
@end_fn
