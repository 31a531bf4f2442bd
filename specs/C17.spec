@# associative containers: Set, MultiSet, Map, MultiMap (instance int / int -> int)
@driver
#include "/repo/src/include/containers/Set.h"
#include "/repo/src/include/containers/MultiSet.h"
#include "/repo/src/include/containers/Map.h"
#include "/repo/src/include/containers/MultiMap.h"
namespace cuhksz {
template class Set<int>;
template class MultiSet<int>;
template class Map<int, int>;
template class MultiMap<int, int>;
}

@runtime containers
@type stlSet => CSet
@type stlMultiset => CMultiSet
@type stlMap => CMap
@type stlMultimap => CMultiMap
@type StdValueType => (i32, i32)
@struct cuhksz::Set<int> => CzSet
@struct cuhksz::MultiSet<int> => CzMSet
@struct cuhksz::Map<int, int> => CzMap
@struct cuhksz::MultiMap<int, int> => CzMMap
@trusted the container operations of the C++ standard library do what the standard says (tool/rt_containers.rs)
@prelude
// the value kept for a key that occurs once in s
pub proof fn lookup_at(s: Seq<(i32, i32)>, i: int) requires ssortedk(s), 0 <= i < s.len() ensures lookup(s, s[i].0) == Some(s[i].1) decreases s.len()
{ if i > 0 { let t = s.subrange(1, s.len() as int); assert(t[i - 1] == s[i]); assert(s[0].0 < s[i].0); assert(ssortedk(t)) by { assert forall|a: int, b: int| 0 <= a < b < t.len() implies t[a].0 < t[b].0 by { assert(s[a + 1].0 < s[b + 1].0); } } lookup_at(t, i - 1); } }
pub proof fn lookup_without(s: Seq<(i32, i32)>, k: i32) ensures forall|q: i32| #[trigger] lookup(CMap::without(s, k), q) == (if q == k { None::<i32> } else { lookup(s, q) }) decreases s.len()
{ if s.len() > 0 { let t = s.subrange(1, s.len() as int); lookup_without(t, k); let w = CMap::without(s, k); if s[0].0 != k { assert(w.subrange(1, w.len() as int) =~= CMap::without(t, k)); assert(w[0] == s[0]); }
 assert forall|q: i32| #[trigger] lookup(CMap::without(s, k), q) == (if q == k { None::<i32> } else { lookup(s, q) }) by { assert(lookup(CMap::without(t, k), q) == (if q == k { None::<i32> } else { lookup(t, q) })); } } }
pub proof fn set_without(a: &CSet, b: &CSet, k: i32) requires b@ == CSet::without(a@, k) ensures forall|q: i32| #[trigger] b.has(q) == (q != k && a.has(q))
{ CSet::without_spec(a@, k); assert forall|q: i32| #[trigger] b.has(q) == (q != k && a.has(q)) by {
    assert(b.has(q) == b@.contains(q)) by { if b@.contains(q) { let i = choose|i: int| 0 <= i < b@.len() && b@[i] == q; assert(CSet::key(b@[i]) == q); } }
    assert(a.has(q) == a@.contains(q)) by { if a@.contains(q) { let i = choose|i: int| 0 <= i < a@.len() && a@[i] == q; assert(CSet::key(a@[i]) == q); } } } }

@repeat Q=Set<int> C=Set P=s F=privateSet E=i32 LT=lex_lt STL=stlSet TO=toStlSet SO=ssortedi ; Q=MultiSet<int> C=MultiSet P=ms F=privateMultiset E=i32 LT=lex_lt STL=stlMultiset TO=toStlMultiset SO=sortedi ; Q=Map<int,~int> C=Map P=m F=privateMap E=(i32,~i32) LT=lex_ltp STL=stlMap TO=toStlMap SO=ssortedk ; Q=MultiMap<int,~int> C=MultiMap P=mm F=privateMultimap E=(i32,~i32) LT=lex_ltp STL=stlMultimap TO=toStlMultimap SO=sortedk
@fn cuhksz::$Q::$C as $P_new sig void ()
@opt ctorof cuhksz::$Q
@ensures
r.$F@ == Seq::<$E>::empty()

@fn cuhksz::$Q::$C as $P_stl sig void ($STL &)
@params other
@ensures
r.$F@ == old(other)@, final(other)@ == old(other)@

@fn cuhksz::$Q::isEmpty as $P_empty
@ensures
r == (this.$F@.len() == 0)

@fn cuhksz::$Q::size as $P_size
@ensures
this.$F@.len() <= i32::MAX ==> r == this.$F@.len()

@fn cuhksz::$Q::clear as $P_clear
@ensures
final(this).$F@ == Seq::<$E>::empty()

@fn cuhksz::$Q::$TO as $P_tostl
@opt this ref
@ensures
r@ == this.$F@, $SO(r@)
@ret
this.$F.sorted_inv();

@fn cuhksz::$Q::operator== as $P_eq
@opt this ref
@params other
@ensures
r == (this.$F@ == other.$F@)

@fn cuhksz::$Q::operator!= as $P_ne
@opt this ref
@params other
@ensures
r == (this.$F@ != other.$F@)

@fn cuhksz::$Q::operator< as $P_lt
@opt this ref
@params other
@ensures
r == $LT(this.$F@, other.$F@)

@fn cuhksz::$Q::operator> as $P_gt
@opt this ref
@params other
@ensures
r == $LT(other.$F@, this.$F@)

@fn cuhksz::$Q::operator<= as $P_le
@opt this ref
@params other
@ensures
r == !$LT(other.$F@, this.$F@)

@fn cuhksz::$Q::operator>= as $P_ge
@opt this ref
@params other
@ensures
r == !$LT(this.$F@, other.$F@)
@endrepeat

@fn cuhksz::Set<int>::Set as s_init sig void (std::initializer_list<int>)
@params init
@ensures
forall|q: i32| #[trigger] r.privateSet.has(q) == init@.contains(q), ssortedi(r.privateSet@)

@fn cuhksz::Set<int>::operator= as s_assign sig Set<int> &(const Set<int> &)
@opt retunit
@params other
@ensures
final(this).privateSet@ == other.privateSet@

@fn cuhksz::Set<int>::insert as s_insert
@params x
@ensures
forall|q: i32| #[trigger] final(this).privateSet.has(q) == (q == x || old(this).privateSet.has(q)), ssortedi(final(this).privateSet@)

@fn cuhksz::Set<int>::erase as s_erase
@params x
@ensures
forall|q: i32| #[trigger] final(this).privateSet.has(q) == (q != x && old(this).privateSet.has(q)), ssortedi(final(this).privateSet@)
@ret
if this.privateSet@ == CSet::without(old(this).privateSet@, x) { set_without(&old(this).privateSet, &this.privateSet, x); }
this.privateSet.sorted_inv();

@fn cuhksz::Set<int>::contains as s_contains
@params x
@ensures
r == this.privateSet.has(x)

@fn cuhksz::MultiSet<int>::MultiSet as ms_init sig void (std::initializer_list<int>)
@params init
@ensures
r.privateMultiset@.to_multiset() == init@.to_multiset(), sortedi(r.privateMultiset@)

@fn cuhksz::MultiSet<int>::operator= as ms_assign sig MultiSet<int> &(const MultiSet<int> &)
@opt retunit
@params other
@ensures
final(this).privateMultiset@ == other.privateMultiset@

@fn cuhksz::MultiSet<int>::insert as ms_insert
@params x
@ensures
final(this).privateMultiset@.to_multiset() == old(this).privateMultiset@.to_multiset().insert(x), sortedi(final(this).privateMultiset@)

@fn cuhksz::MultiSet<int>::erase as ms_erase
@params x
@exit_ok
!this.privateMultiset.has(x)
@ensures
old(this).privateMultiset.has(x), final(this).privateMultiset@ == CMultiSet::without(old(this).privateMultiset@, x)

@fn cuhksz::MultiSet<int>::contains as ms_contains
@params x
@ensures
r == this.privateMultiset.has(x)

@fn cuhksz::MultiSet<int>::count as ms_count
@params x
@ensures
CMultiSet::cnt(this.privateMultiset@, x) <= i32::MAX ==> r == CMultiSet::cnt(this.privateMultiset@, x)

@fn cuhksz::Map<int, int>::Map as m_init sig void (std::initializer_list<StdValueType>)
@params init
@ensures
forall|q: i32| #[trigger] lookup(r.privateMap@, q) == lookup(init@, q), ssortedk(r.privateMap@)

@fn cuhksz::Map<int, int>::operator= as m_assign sig Map<int, int> &(Map<int, int> &)
@opt retunit
@params other
@ensures
final(this).privateMap@ == old(other).privateMap@, final(other).privateMap@ == old(other).privateMap@

@fn cuhksz::Map<int, int>::keyCheck as m_check
@params k
@exit_ok
lookup(this.privateMap@, k) is None
@ensures
lookup(this.privateMap@, k) is Some, this.privateMap.has(k)
@entry
proof { lookup_has(this.privateMap@, k); }

@fn cuhksz::Map<int, int>::get as m_get sig int &(const int &)
@opt refidx
@params k
@exit_ok
lookup(this.privateMap@, k) is None
@ensures
final(this).privateMap@ == old(this).privateMap@, r < old(this).privateMap@.len(), old(this).privateMap@[r as int].0 == k
@entry
proof { lookup_has(this.privateMap@, k); }

@fn cuhksz::Map<int, int>::get as m_cget sig const int &(const int &) const
@params k
@exit_ok
lookup(this.privateMap@, k) is None
@ensures
lookup(this.privateMap@, k) == Some(r)
@entry
proof { lookup_has(this.privateMap@, k); }

@fn cuhksz::Map<int, int>::set as m_set
@params k x
@ensures
ssortedk(final(this).privateMap@), forall|q: i32| #[trigger] lookup(final(this).privateMap@, q) == (if q == k { Some(x) } else { lookup(old(this).privateMap@, q) })

@fn cuhksz::Map<int, int>::operator[] as m_index
@opt refidx
@params k
@ensures
r < final(this).privateMap@.len(), final(this).privateMap@[r as int].0 == k, ssortedk(final(this).privateMap@),
old(this).privateMap.has(k) ==> final(this).privateMap@ == old(this).privateMap@,
!old(this).privateMap.has(k) ==> lookup(final(this).privateMap@, k) == Some(0i32),
forall|q: i32| q != k ==> #[trigger] lookup(final(this).privateMap@, q) == lookup(old(this).privateMap@, q)

@fn cuhksz::Map<int, int>::contains as m_contains
@opt this ref
@params k
@ensures
r == (lookup(this.privateMap@, k) is Some)
@entry
proof { lookup_has(this.privateMap@, k); }

@fn cuhksz::Map<int, int>::erase as m_erase
@params k
@ensures
ssortedk(final(this).privateMap@), forall|q: i32| #[trigger] lookup(final(this).privateMap@, q) == (if q == k { None::<i32> } else { lookup(old(this).privateMap@, q) })
@ret
lookup_without(old(this).privateMap@, k);
this.privateMap.sorted_inv();

@fn cuhksz::MultiMap<int, int>::MultiMap as mm_init sig void (std::initializer_list<StdValueType>)
@params init
@ensures
r.privateMultimap@.to_multiset() == init@.to_multiset(), sortedk(r.privateMultimap@)

@fn cuhksz::MultiMap<int, int>::operator= as mm_assign sig MultiMap<int, int> &(MultiMap<int, int> &)
@opt retunit
@params other
@ensures
final(this).privateMultimap@ == old(other).privateMultimap@, final(other).privateMultimap@ == old(other).privateMultimap@

@fn cuhksz::MultiMap<int, int>::erase as mm_erase
@params k
@ensures
final(this).privateMultimap@ == CMultiMap::without(old(this).privateMultimap@, k)

@fn cuhksz::MultiMap<int, int>::count as mm_count
@params k
@ensures
CMultiMap::cnt(this.privateMultimap@, k) <= i32::MAX ==> r == CMultiMap::cnt(this.privateMultimap@, k)

@fn cuhksz::MultiMap<int, int>::find as mm_find
@opt this ref
@params k
@ensures
ssortedi(r.privateSet@), forall|v: i32| #[trigger] r.privateSet.has(v) == this.privateMultimap@.contains((k, v))
@loop 1
@invariant
elementsFound.0 <= i <= elementsFound.1 <= this.privateMultimap@.len(),
ssortedi(valueSet.privateSet@),
forall|v: i32| #[trigger] valueSet.privateSet.has(v) == (exists|j: int| elementsFound.0 <= j < i && #[trigger] this.privateMultimap@[j] == (k, v)),
forall|j: int| 0 <= j < this.privateMultimap@.len() ==> ((elementsFound.0 <= j < elementsFound.1) == ((#[trigger] this.privateMultimap@[j]).0 == k))
@decreases
elementsFound.1 - i
