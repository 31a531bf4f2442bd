@runtime json
@driver
#include "/repo/src/json/Json.cpp"
#include "/repo/src/json/json_functions.cpp"
namespace cuhksz { static void drv_() { JSONObject a(true), b(1), c(1.5), d(std::string("x")), e("lit"), n(nullptr); a = true; a = 1; a = 1.5; a = std::string("y"); a = "zz"; a = nullptr;
  a.append(b); a.append(1); a.append(true); a.append(1.5); a.append(std::string("z")); a.append(b, 1); JSONObject::Array(1, true); } }

@type cuhksz::JSONObject::Type => i32
@type Type => i32
@type cuhksz::JSONObject * => It
@type JSONObject * => It
@type std::deque<JSONObject> => JList
@type std::deque<cuhksz::JSONObject> => JList
@type std::map<std::string, JSONObject> => JMap
@type std::map<std::basic_string<char>, cuhksz::JSONObject> => JMap
@rvref Json
@union cuhksz::JSONObject::data => JData
@struct cuhksz::JSONObject => Json

@extern emplace_i32 => json_of_int
@extern emplace_bool => json_of_bool
@extern emplace_Dbl => json_of_float
@extern emplace_Str => json_of_string

@prelude
// the value a JSONObject stands for
pub enum V { Null, Bool(bool), Int(i32), Float(Dbl), Str(Seq<i8>), Arr(Seq<V>), Obj(Seq<Seq<i8>>, Seq<V>) }
pub open spec fn jval(j: Json) -> V decreases j
{ match j.Data {
    JData::Bool(b) => if j.objType == 6 { V::Bool(b) } else { V::Null },
    JData::Int(i) => if j.objType == 5 { V::Int(i) } else { V::Null },
    JData::Float(d) => if j.objType == 4 { V::Float(d) } else { V::Null },
    JData::String(s) => V::Str(s@),
    JData::List(l) => V::Arr(Seq::new(l.v@.len(), |i: int| if 0 <= i < l.v@.len() { jval(l.v@[i]) } else { V::Null })),
    JData::Map(m) => V::Obj(keys(m.ks@), Seq::new(m.vs@.len(), |i: int| if 0 <= i < m.vs@.len() { jval(m.vs@[i]) } else { V::Null })),
    _ => V::Null } }
// the type tag says which union member is live, what is owned is owned by exactly one object, and the parts are well formed
pub open spec fn wf(j: Json) -> bool decreases j
{ match j.Data {
    JData::Bool(b) => j.objType == 6 || j.objType == 0,
    JData::Int(i) => j.objType == 5 || j.objType == 0,
    JData::Float(d) => j.objType == 4 || j.objType == 0,
    JData::String(s) => j.objType == 3,
    JData::List(l) => j.objType == 2 && forall|i: int| 0 <= i < l.v@.len() ==> wf(#[trigger] l.v@[i]),
    JData::Map(m) => j.objType == 1 && jm_wf(m) && forall|i: int| 0 <= i < m.vs@.len() ==> wf(#[trigger] m.vs@[i]),
    _ => j.objType == 0 } }
pub open spec fn vals(s: Seq<Json>) -> Seq<V> { Seq::new(s.len(), |i: int| jval(s[i])) }
pub open spec fn allwf(s: Seq<Json>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
pub open spec fn tag(v: V) -> int { match v { V::Null => 0, V::Obj(_, _) => 1, V::Arr(_) => 2, V::Str(_) => 3, V::Float(_) => 4, V::Int(_) => 5, V::Bool(_) => 6 } }
pub open spec fn defv(t: int) -> V { if t == 1 { V::Obj(Seq::empty(), Seq::empty()) } else if t == 2 { V::Arr(Seq::empty()) } else if t == 3 { V::Str(Seq::empty()) } else if t == 4 { V::Float(d_zero()) } else if t == 5 { V::Int(0) } else if t == 6 { V::Bool(false) } else { V::Null } }
// v seen as a value of type t: itself, or the empty value of that type
pub open spec fn as_type(v: V, t: int) -> V { if tag(v) == t { v } else { defv(t) } }
pub proof fn val_arr(j: Json) requires j.Data is List ensures jval(j) == V::Arr(vals(j.Data->List_0.v@)) { assert(jval(j)->Arr_0 =~= vals(j.Data->List_0.v@)); }
pub proof fn val_obj(j: Json) requires j.Data is Map ensures jval(j) == V::Obj(keys(j.Data->Map_0.ks@), vals(j.Data->Map_0.vs@)) { assert(jval(j)->Obj_1 =~= vals(j.Data->Map_0.vs@)); }
pub broadcast proof fn tag_of(j: Json) requires wf(j) ensures #[trigger] tag(jval(j)) == j.objType { }
// insertion of a key into an object
pub open spec fn insk(ks: Seq<Seq<i8>>, k: Seq<i8>) -> Seq<Seq<i8>> { if hask(ks, k) { ks } else { ks.insert(lb(ks, k, 0), k) } }
pub open spec fn insv(ks: Seq<Seq<i8>>, vs: Seq<V>, k: Seq<i8>, v: V) -> Seq<V> { if hask(ks, k) { vs.update(lb(ks, k, 0), v) } else { vs.insert(lb(ks, k, 0), v) } }
pub open spec fn put(o: V, k: Seq<i8>, v: V) -> V { V::Obj(insk(o->Obj_0, k), insv(o->Obj_0, o->Obj_1, k, v)) }
pub open spec fn getv(o: V, k: Seq<i8>) -> V { if hask(o->Obj_0, k) { o->Obj_1[lb(o->Obj_0, k, 0)] } else { V::Null } }
// an array with at least n elements: null is added
pub open spec fn grow(s: Seq<V>, n: int) -> Seq<V> { if s.len() >= n { s } else { s + Seq::new((n - s.len()) as nat, |i: int| V::Null) } }
pub proof fn lb_prop(ks: Seq<Seq<i8>>, k: Seq<i8>, i: int) requires 0 <= i <= ks.len()
    ensures i <= lb(ks, k, i) <= ks.len(), forall|x: int| i <= x < lb(ks, k, i) ==> slt(#[trigger] ks[x], k), lb(ks, k, i) < ks.len() ==> !slt(ks[lb(ks, k, i)], k) decreases ks.len() - i
{ if i < ks.len() && slt(ks[i], k) { lb_prop(ks, k, i + 1); } }
pub proof fn ins_sorted(ks: Seq<Seq<i8>>, k: Seq<i8>) requires sorted(ks) ensures sorted(insk(ks, k))
{
    lb_prop(ks, k, 0); let p = lb(ks, k, 0); let r = insk(ks, k);
    if !hask(ks, k) {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies slt(#[trigger] r[i], #[trigger] r[j]) by {
            if p < ks.len() { slt_total(ks[p], k); }
            if i == p { if j - 1 > p { slt_trans(k, ks[p], ks[j - 1]); } }
        }
    }
}
pub broadcast proof fn lb_rng(ks: Seq<Seq<i8>>, k: Seq<i8>) ensures 0 <= #[trigger] lb(ks, k, 0) <= ks.len() { lb_prop(ks, k, 0); }
// heights
pub open spec fn ht(v: V) -> nat decreases v, 0nat { match v { V::Arr(s) => 1 + sht(s, s.len()), V::Obj(k, s) => 1 + sht(s, s.len()), _ => 0 } }
pub open spec fn sht(s: Seq<V>, n: nat) -> nat decreases s, n { if n == 0 || n > s.len() { 0 } else { let a = sht(s, (n - 1) as nat); let b = ht(s[n - 1]); if a < b { b } else { a } } }
pub proof fn sht_ge(s: Seq<V>, n: nat, i: int) requires 0 <= i < n <= s.len() ensures ht(s[i]) <= sht(s, n) decreases n { if i < n - 1 { sht_ge(s, (n - 1) as nat, i); } }
// writing one element / entry
pub proof fn idx_upd(j: Json, i: int) requires j.Data is List, wf(j), 0 <= i < j.Data->List_0.v@.len()
    ensures forall|k: Json| k.objType == j.objType && k.Data is List && #[trigger] k.Data->List_0.v@ == j.Data->List_0.v@.update(i, k.Data->List_0.v@[i]) ==> jval(k) == V::Arr(jval(j)->Arr_0.update(i, jval(k.Data->List_0.v@[i]))) && (wf(k.Data->List_0.v@[i]) ==> wf(k))
{
    assert forall|k: Json| k.objType == j.objType && k.Data is List && #[trigger] k.Data->List_0.v@ == j.Data->List_0.v@.update(i, k.Data->List_0.v@[i]) implies jval(k) == V::Arr(jval(j)->Arr_0.update(i, jval(k.Data->List_0.v@[i]))) && (wf(k.Data->List_0.v@[i]) ==> wf(k)) by {
        assert(jval(k)->Arr_0 =~= jval(j)->Arr_0.update(i, jval(k.Data->List_0.v@[i])));
    }
}
pub proof fn key_upd(j: Json, key: Seq<i8>) requires j.Data is Map, wf(j)
    ensures forall|k: Json| k.objType == j.objType && k.Data is Map && #[trigger] km_upd(j.Data->Map_0, k.Data->Map_0, key) ==> jval(k) == put(jval(j), key, jval(k.Data->Map_0.vs@[lb(keys(j.Data->Map_0.ks@), key, 0)])) && (wf(k.Data->Map_0.vs@[lb(keys(j.Data->Map_0.ks@), key, 0)]) ==> wf(k))
{
    assert forall|k: Json| k.objType == j.objType && k.Data is Map && #[trigger] km_upd(j.Data->Map_0, k.Data->Map_0, key) implies jval(k) == put(jval(j), key, jval(k.Data->Map_0.vs@[lb(keys(j.Data->Map_0.ks@), key, 0)])) && (wf(k.Data->Map_0.vs@[lb(keys(j.Data->Map_0.ks@), key, 0)]) ==> wf(k)) by {
        let ks = keys(j.Data->Map_0.ks@); let p = lb(ks, key, 0); lb_prop(ks, key, 0); ins_sorted(ks, key); val_obj(j); val_obj(k);
        let x = jval(k.Data->Map_0.vs@[p]);
        assert(jval(k)->Obj_1 =~= put(jval(j), key, x)->Obj_1);
        if wf(k.Data->Map_0.vs@[p]) { let m = k.Data->Map_0; assert forall|i: int| 0 <= i < m.vs@.len() implies wf(#[trigger] m.vs@[i]) by { if !hask(ks, key) && i > p { assert(m.vs@[i] == j.Data->Map_0.vs@[i - 1]); } } }
    }
}
// the object given by the first n elements of key, value, key, value ...: later entries replace earlier ones, a key that is no string is ""
pub open spec fn keytext(v: V) -> Seq<i8> { if v is Str { v->Str_0 } else { Seq::empty() } }
pub open spec fn built(l: Seq<V>, n: int) -> V decreases n { if n < 2 { V::Obj(Seq::empty(), Seq::empty()) } else { put(built(l, n - 2), keytext(l[n - 2]), l[n - 1]) } }
// the escape sequence of a character, and of the first n characters of a text
pub open spec fn esc(c: i8) -> Seq<i8> { if c == 34 { seq![92i8, 34i8] } else if c == 92 { seq![92i8, 92i8] } else if c == 8 { seq![92i8, 98i8] } else if c == 12 { seq![92i8, 102i8] } else if c == 10 { seq![92i8, 110i8] } else if c == 13 { seq![92i8, 114i8] } else if c == 9 { seq![92i8, 116i8] } else { seq![c] } }
pub open spec fn escs(s: Seq<i8>, n: int) -> Seq<i8> decreases n { if n <= 0 || n > s.len() { Seq::empty() } else { escs(s, n - 1) + esc(s[n - 1]) } }
// std::deque / std::map range construction: every element copied in order
pub fn jlist_copy(l: &JList) -> (r: JList) requires allwf(l.v@) ensures allwf(r.v@), vals(r.v@) == vals(l.v@) decreases sht(vals(l.v@), vals(l.v@).len()), 1nat
{
    let mut r = JList::new(); let mut k: u64 = 0; let n = l.size();
    while k < n invariant k <= n, n == l.v@.len(), allwf(l.v@), allwf(r.v@), r.v@.len() == k, forall|i: int| 0 <= i < k ==> jval(#[trigger] r.v@[i]) == jval(l.v@[i]) decreases n - k
    { proof { sht_ge(vals(l.v@), l.v@.len(), k as int); assert(vals(l.v@)[k as int] == jval(l.v@[k as int])); } r.push_back(json_copy(l.at_ref(k))); k = k + 1; }
    proof { assert(vals(r.v@) =~= vals(l.v@)); }
    r
}
pub fn jmap_copy(m: &JMap) -> (r: JMap) requires jm_wf(*m), allwf(m.vs@) ensures jm_wf(r), allwf(r.vs@), vals(r.vs@) == vals(m.vs@), keys(r.ks@) == keys(m.ks@) decreases sht(vals(m.vs@), vals(m.vs@).len()), 1nat
{
    let mut r = JMap::new(); let mut k: u64 = 0; let n = m.size();
    while k < n invariant k <= n, n == m.vs@.len(), jm_wf(*m), allwf(m.vs@), jm_wf(r), allwf(r.vs@), r.vs@.len() == k, forall|i: int| 0 <= i < k ==> jval(#[trigger] r.vs@[i]) == jval(m.vs@[i]), forall|i: int| 0 <= i < k ==> #[trigger] keys(r.ks@)[i] == keys(m.ks@)[i] decreases n - k
    { proof { sht_ge(vals(m.vs@), m.vs@.len(), k as int); assert(vals(m.vs@)[k as int] == jval(m.vs@[k as int])); if k > 0 { assert(keys(r.ks@)[k - 1] == keys(m.ks@)[k - 1]); assert(keys(m.ks@)[k as int] == m.ks@[k as int]@); } }
      let ghost r0 = r;
      r.push_back(m.key_at(k), json_copy(m.val_at(k)));
      proof { assert forall|i: int, j: int| 0 <= i < j < keys(r.ks@).len() implies slt(#[trigger] keys(r.ks@)[i], #[trigger] keys(r.ks@)[j]) by { assert(keys(m.ks@)[k as int] == m.ks@[k as int]@); assert(keys(r.ks@)[i] == keys(m.ks@)[i]); assert(keys(r.ks@)[j] == keys(m.ks@)[j]); } }
      k = k + 1; }
    proof { assert(vals(r.vs@) =~= vals(m.vs@)); assert(keys(r.ks@) =~= keys(m.ks@)); }
    r
}
// std::deque::resize: default-constructed elements are added, or elements removed at the end
pub fn jlist_resize(l: &mut JList, n: u64) requires allwf(old(l).v@)
    ensures allwf(final(l).v@), vals(final(l).v@) == (if n >= old(l).v@.len() { grow(vals(old(l).v@), n as int) } else { vals(old(l).v@).subrange(0, n as int) })
{
    while l.size() < n invariant old(l).v@.len() <= l.v@.len(), l.v@.len() <= n || l.v@.len() == old(l).v@.len(), allwf(l.v@), forall|i: int| 0 <= i < old(l).v@.len() ==> l.v@[i] == old(l).v@[i], forall|i: int| old(l).v@.len() <= i < l.v@.len() ==> jval(#[trigger] l.v@[i]) == V::Null decreases n - l.v@.len()
    { l.push_back(json_new()); }
    while n < l.size() invariant n >= old(l).v@.len() ==> l.v@.len() == n, n < old(l).v@.len() ==> n <= l.v@.len() <= old(l).v@.len(), allwf(l.v@), n < old(l).v@.len() ==> forall|i: int| 0 <= i < l.v@.len() ==> l.v@[i] == old(l).v@[i],
        n >= old(l).v@.len() ==> vals(l.v@) =~= grow(vals(old(l).v@), n as int) decreases l.v@.len()
    { l.pop_back(); }
    proof { if n < old(l).v@.len() { assert(vals(l.v@) =~= vals(old(l).v@).subrange(0, n as int)); } }
}

@# ---------------------------------------------------------------- construction and assignment
@fn cuhksz::JSONObject::JSONObject as json_new sig void ()
@opt ctorof cuhksz::JSONObject
@ensures wf(r), jval(r) == V::Null
@end_fn
@repeat T=bool N=bool TY=bool C=Bool; T=int N=int TY=i32 C=Int; T=double N=float TY=Dbl C=Float
@fn cuhksz::JSONObject::JSONObject as json_of_$N sig void ($T, typename
@opt ctorof cuhksz::JSONObject
@params x
@ensures wf(r), jval(r) == V::$C(x)
@end_fn
@fn cuhksz::JSONObject::operator= as json_set_$N sig JSONObject ($T)
@params x
@requires wf(*old(this))
@ensures wf(*final(this)), jval(*final(this)) == V::$C(x), wf(r), jval(r) == V::$C(x)
@end_fn
@endrepeat
@fn cuhksz::JSONObject::JSONObject as json_of_string sig void (std::basic_string<char>, typename
@opt ctorof cuhksz::JSONObject
@params x
@ensures wf(r), jval(r) == V::Str(x@)
@end_fn
@fn cuhksz::JSONObject::JSONObject as json_of_null sig void (std::nullptr_t)
@opt ctorof cuhksz::JSONObject
@params x
@ensures wf(r), jval(r) == V::Null
@end_fn
@fn cuhksz::JSONObject::operator= as json_set_null sig JSONObject (std::nullptr_t)
@params x
@requires wf(*old(this))
@ensures wf(*final(this)), jval(*final(this)) == V::Null, wf(r), jval(r) == V::Null
@end_fn
@fn cuhksz::JSONObject::operator= as json_set_string sig JSONObject (std::basic_string<char>)
@params x
@requires wf(*old(this))
@ensures wf(*final(this)), jval(*final(this)) == V::Str(x@), wf(r), jval(r) == V::Str(x@)
@end_fn
@fn cuhksz::JSONObject::JSONObject as json_of_cstr sig void (const char *, typename
@opt ctorof cuhksz::JSONObject
@params x
@requires find_from(x@, 0, 0) < x@.len()
@ensures wf(r), jval(r) == V::Str(x@.subrange(0, find_from(x@, 0, 0)))
@end_fn
@fn cuhksz::JSONObject::operator= as json_set_cstr sig JSONObject (const char *)
@params x
@requires wf(*old(this)), find_from(x@, 0, 0) < x@.len()
@ensures wf(*final(this)), jval(*final(this)) == V::Str(x@.subrange(0, find_from(x@, 0, 0))), wf(r), jval(r) == jval(*final(this))
@end_fn
@fn cuhksz::JSONObject::JSONObject as json_copy sig void (const JSONObject &)
@opt ctorof cuhksz::JSONObject
@params src
@requires wf(*src)
@ensures wf(r), jval(r) == jval(*src)
@decreases ht(jval(*src)), 0nat
@entry
proof { if src.Data is List { val_arr(*src); } if src.Data is Map { val_obj(*src); } }
@ret
if this_.Data is List { val_arr(this_); } if this_.Data is Map { val_obj(this_); }
@end_fn
@fn cuhksz::JSONObject::JSONObject as json_move sig void (JSONObject &&)
@opt ctorof cuhksz::JSONObject
@params other
@requires wf(*old(other))
@ensures wf(r), jval(r) == jval(*old(other)), wf(*final(other)), jval(*final(other)) == V::Null
@end_fn
@fn cuhksz::JSONObject::operator= as json_assign_move sig JSONObject &(JSONObject &&)
@opt retunit
@params src
@requires wf(*old(this)), wf(*old(src))
@ensures wf(*final(this)), jval(*final(this)) == jval(*old(src)), wf(*final(src)), jval(*final(src)) == V::Null
@end_fn
@fn cuhksz::JSONObject::operator= as json_assign sig JSONObject &(const JSONObject &)
@opt retunit
@params src
@requires wf(*old(this)), wf(*src)
@ensures wf(*final(this)), jval(*final(this)) == jval(*src)
@ret
if src.Data is List { val_arr(*src); val_arr(*this); } if src.Data is Map { val_obj(*src); val_obj(*this); }
@end_fn
@fn cuhksz::JSONObject::setType as json_setType
@params t
@requires wf(*old(this)), 0 <= t <= 6
@ensures wf(*final(this)), jval(*final(this)) == as_type(jval(*old(this)), t as int), final(this).objType == t
@ret
if this.Data is List { val_arr(*this); assert(tag(jval(*old(this))) != t ==> vals(this.Data->List_0.v@) =~= Seq::<V>::empty()); } if this.Data is Map { val_obj(*this); assert(tag(jval(*old(this))) != t ==> vals(this.Data->Map_0.vs@) =~= Seq::<V>::empty() && keys(this.Data->Map_0.ks@) =~= Seq::<Seq<i8>>::empty()); }
@end_fn
@fn cuhksz::JSONObject::clearData as json_clearData
@requires wf(*old(this))
@ensures !final(this).Data.owns(), final(this).objType == old(this).objType, !old(this).Data.owns() ==> final(this).Data == old(this).Data
@end_fn
@fn cuhksz::JSONObject::~JSONObject as json_destroy
@requires wf(*old(this))
@ensures !final(this).Data.owns()
@end_fn
@fn cuhksz::JSONObject::Build as json_build
@params t
@requires 0 <= t <= 6
@ensures wf(r), jval(r) == defv(t as int)
@end_fn
@# ---------------------------------------------------------------- access
@fn cuhksz::JSONObject::operator[] as json_key_c sig JSONObject &(const char *)
@opt retmut
@params key
@requires wf(*old(this)), find_from(key@, 0, 0) < key@.len()
@ensures
  ({ let o = as_type(jval(*old(this)), 1); let k = key@.subrange(0, find_from(key@, 0, 0)); wf(*r) && jval(*r) == getv(o, k) && (wf(*final(r)) ==> wf(*final(this)) && jval(*final(this)) == put(o, k, jval(*final(r)))) }),
@aftercall json_setType
val_obj(*this); key_upd(*this, key@.subrange(0, find_from(key@, 0, 0)));
@end_fn
@fn cuhksz::JSONObject::operator[] as json_key sig JSONObject &(const std::string &)
@opt retmut
@params key
@requires wf(*old(this))
@ensures
  ({ let o = as_type(jval(*old(this)), 1); wf(*r) && jval(*r) == getv(o, key@) && (wf(*final(r)) ==> wf(*final(this)) && jval(*final(this)) == put(o, key@, jval(*final(r)))) }),
@aftercall json_setType
val_obj(*this); key_upd(*this, key@);
@end_fn
@fn cuhksz::JSONObject::operator[] as json_idx sig JSONObject &(int)
@opt retmut
@params index
@requires wf(*old(this)), 0 <= index < i32::MAX, as_type(jval(*old(this)), 2)->Arr_0.len() <= i32::MAX
@ensures
  ({ let a = grow(as_type(jval(*old(this)), 2)->Arr_0, index + 1); wf(*r) && jval(*r) == a[index as int] && (wf(*final(r)) ==> wf(*final(this)) && jval(*final(this)) == V::Arr(a.update(index as int, jval(*final(r))))) }),
@aftercall json_setType
val_arr(*this);
@ret
val_arr(*this); idx_upd(*this, index as int);
@end_fn
@fn cuhksz::JSONObject::at as json_at_key sig JSONObject &(const std::string &)
@opt retmut
@params key
@requires wf(*old(this))
@ensures
  ({ let o = as_type(jval(*old(this)), 1); wf(*r) && jval(*r) == getv(o, key@) && (wf(*final(r)) ==> wf(*final(this)) && jval(*final(this)) == put(o, key@, jval(*final(r)))) }),
@end_fn
@fn cuhksz::JSONObject::at as json_at_idx sig JSONObject &(unsigned int)
@opt retmut
@params index
@requires wf(*old(this)), 0 <= index < i32::MAX, as_type(jval(*old(this)), 2)->Arr_0.len() <= i32::MAX
@ensures
  ({ let a = grow(as_type(jval(*old(this)), 2)->Arr_0, index + 1); wf(*r) && jval(*r) == a[index as int] && (wf(*final(r)) ==> wf(*final(this)) && jval(*final(this)) == V::Arr(a.update(index as int, jval(*final(r))))) }),
@end_fn
@fn cuhksz::JSONObject::at as json_at_key_const sig const JSONObject &(const std::string &) const
@opt retcref
@params key
@requires wf(*this), jval(*this) is Obj, hask(jval(*this)->Obj_0, key@)
@ensures wf(*r), jval(*r) == getv(jval(*this), key@)
@entry
proof { val_obj(*this); lb_prop(keys(this.Data->Map_0.ks@), key@, 0); }
@end_fn
@fn cuhksz::JSONObject::at as json_at_idx_const sig const JSONObject &(unsigned int) const
@opt retcref
@params index
@requires wf(*this), jval(*this) is Arr, index < jval(*this)->Arr_0.len()
@ensures wf(*r), jval(*r) == jval(*this)->Arr_0[index as int]
@entry
proof { val_arr(*this); }
@end_fn
@# ---------------------------------------------------------------- appending
@fn cuhksz::JSONObject::append as json_append sig void (cuhksz::JSONObject)
@params x
@requires wf(*old(this)), wf(x)
@ensures wf(*final(this)), jval(*final(this)) == V::Arr(as_type(jval(*old(this)), 2)->Arr_0.push(jval(x)))
@aftercall json_setType
val_arr(*this);
@ret
val_arr(*this); assert(jval(*this)->Arr_0 =~= as_type(jval(*old(this)), 2)->Arr_0.push(jval(x)));
@end_fn
@repeat T=bool N=bool C=Bool; T=int N=int C=Int; T=double N=float C=Float
@fn cuhksz::JSONObject::append as json_append_$N sig void ($T)
@params x
@requires wf(*old(this))
@ensures wf(*final(this)), jval(*final(this)) == V::Arr(as_type(jval(*old(this)), 2)->Arr_0.push(V::$C(x)))
@aftercall json_setType
val_arr(*this);
@ret
val_arr(*this); assert(jval(*this)->Arr_0 =~= as_type(jval(*old(this)), 2)->Arr_0.push(V::$C(x)));
@end_fn
@endrepeat
@fn cuhksz::JSONObject::append as json_append_string sig void (std::basic_string<char>)
@params x
@requires wf(*old(this))
@ensures wf(*final(this)), jval(*final(this)) == V::Arr(as_type(jval(*old(this)), 2)->Arr_0.push(V::Str(x@)))
@aftercall json_setType
val_arr(*this);
@ret
val_arr(*this); assert(jval(*this)->Arr_0 =~= as_type(jval(*old(this)), 2)->Arr_0.push(V::Str(x@)));
@end_fn
@fn cuhksz::JSONObject::append as json_append_2 sig void (cuhksz::JSONObject, int)
@params x y
@requires wf(*old(this)), wf(x)
@ensures wf(*final(this)), jval(*final(this)) == V::Arr(as_type(jval(*old(this)), 2)->Arr_0.push(jval(x)).push(V::Int(y)))
@end_fn
@fn cuhksz::JSONObject::append as json_append_ib sig void (int, bool)
@params x y
@requires wf(*old(this))
@ensures wf(*final(this)), jval(*final(this)) == V::Arr(as_type(jval(*old(this)), 2)->Arr_0.push(V::Int(x)).push(V::Bool(y)))
@end_fn
@fn cuhksz::JSONObject::Array as json_array_ib sig JSONObject (int, bool)
@params x y
@ensures wf(r), jval(r) == V::Arr(seq![V::Int(x), V::Bool(y)])
@ret
assert(jval(ret_v)->Arr_0 =~= seq![V::Int(x), V::Bool(y)]);
@end_fn
@fn cuhksz::JSONObject::Array as json_array sig JSONObject ()
@ensures wf(r), jval(r) == V::Arr(Seq::empty())
@end_fn
@fn cuhksz::JSONObject::Object as json_object sig JSONObject ()
@ensures wf(r), jval(r) == V::Obj(Seq::empty(), Seq::empty())
@end_fn
@# ---------------------------------------------------------------- reading
@fn cuhksz::JSONObject::length as json_length
@requires wf(*this), jval(*this) is Arr ==> jval(*this)->Arr_0.len() <= i32::MAX
@ensures r == (if jval(*this) is Arr { jval(*this)->Arr_0.len() as int } else { -1 })
@end_fn
@fn cuhksz::JSONObject::size as json_size
@requires wf(*this), jval(*this) is Arr ==> jval(*this)->Arr_0.len() <= i32::MAX, jval(*this) is Obj ==> jval(*this)->Obj_0.len() <= i32::MAX
@ensures r == (if jval(*this) is Arr { jval(*this)->Arr_0.len() as int } else if jval(*this) is Obj { jval(*this)->Obj_0.len() as int } else { -1 })
@end_fn
@fn cuhksz::JSONObject::hasKey as json_hasKey
@params key
@requires wf(*this)
@ensures r == (jval(*this) is Obj && hask(jval(*this)->Obj_0, key@))
@end_fn
@fn cuhksz::JSONObject::getType as json_getType
@requires wf(*this)
@ensures r == tag(jval(*this))
@end_fn
@fn cuhksz::JSONObject::isNull as json_isNull
@requires wf(*this)
@ensures r == (jval(*this) is Null)
@end_fn
@repeat F=toDouble OP=operator~double N=d T=Dbl C=Float Z=d_zero(); F=toInt OP=operator~int N=i T=i32 C=Int Z=0; F=toBool OP=operator~bool N=b T=bool C=Bool Z=false
@fn cuhksz::JSONObject::$F as json_to_$N
@requires wf(*this)
@ensures r == (if jval(*this) is $C { jval(*this)->$C_0 } else { $Z })
@end_fn
@fn cuhksz::JSONObject::$OP as json_op_$N
@requires wf(*this)
@ensures r == (if jval(*this) is $C { jval(*this)->$C_0 } else { $Z })
@end_fn
@endrepeat
@fn cuhksz::jsonEscape as json_escape
@params s
@ensures r@ == escs(s@, s@.len() as int)
@loop 1
@invariant it <= s@.len(), output@ == escs(s@, it as int)
@decreases s@.len() - it
@bodyend
assert(output@ =~= escs(s@, it + 1));
@end_fn
@fn cuhksz::JSONObject::toString as json_to_s
@requires wf(*this)
@ensures r@ == (if jval(*this) is Str { escs(jval(*this)->Str_0, jval(*this)->Str_0.len() as int) } else { Seq::<i8>::empty() })
@end_fn
@fn cuhksz::JSONObject::operator basic_string as json_op_s
@requires wf(*this)
@ensures r@ == (if jval(*this) is Str { escs(jval(*this)->Str_0, jval(*this)->Str_0.len() as int) } else { Seq::<i8>::empty() })
@end_fn
@fn cuhksz::JSONObject::JSONObject as json_of_list sig void (std::initializer_list<JSONObject>)
@opt ctorof cuhksz::JSONObject
@params list
@requires allwf(list.v@), list.v@.len() % 2 == 0
@ensures wf(r), jval(r) == built(vals(list.v@), list.v@.len() as int)
@loop 1
@invariant e == list.v@.len(), i <= e, i % 2 == 0, e % 2 == 0, allwf(list.v@), wf(this_), this_.objType == 1, jval(this_) == built(vals(list.v@), i as int)
@decreases e - i
@begin
assert(vals(list.v@)[i as int] == jval(list.v@[i as int])); assert(vals(list.v@)[i + 1] == jval(list.v@[i + 1]));
@end_fn
