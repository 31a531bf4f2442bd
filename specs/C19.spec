@# algorithm: mapAll, filterContainer, Zip
@driver
#include <vector>
#include <list>
#include <type_traits>
#include "/repo/src/include/algorithm/Map.h"
#include "/repo/src/include/algorithm/Filter.h"
#include "/repo/src/include/algorithm/Zip.h"
namespace cuhksz {
typedef int (*FI)(int);
typedef bool (*FB)(int);
template std::vector<int> mapAll<std::vector<int>, FI>(std::vector<int>&, FI);
template std::vector<int> mapAll<std::list<int>, FI>(std::list<int>&, FI);
template std::vector<int> filterContainer<std::vector<int>, FB>(std::vector<int>&, FB);
template std::vector<int> filterContainer<std::list<int>, FB>(std::list<int>&, FB);
template class Zip<std::vector<int>>;
template std::vector<std::vector<int>> zip<std::vector<int>>(const std::vector<int>&);
template std::vector<std::vector<int>> zip<std::vector<int>, std::vector<int>>(const std::vector<int>&, const std::vector<int>&);
template std::vector<std::vector<int>> zip<std::vector<int>, std::vector<int>, std::vector<int>>(const std::vector<int>&, const std::vector<int>&, const std::vector<int>&);
}
@runtime containers
@prelude
pub open spec fn min0(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn outs<B>(f: CFn<i32, B>, s: Seq<i32>) -> Seq<B> { Seq::new(s.len(), |i: int| fn_out::<i32, B>(f.f(), f.h() + s.take(i), s[i])) }
// the elements among the first n for which the answer was true, in order
pub open spec fn kept(s: Seq<i32>, b: Seq<bool>, n: int) -> Seq<i32> decreases n { if n <= 0 { Seq::empty() } else if b[n - 1] { kept(s, b, n - 1).push(s[n - 1]) } else { kept(s, b, n - 1) } }

@repeat C=vector P=v ; C=list P=l
@fn cuhksz::mapAll as mapAll_$P sig (std::$C<int> &, int (*)(int))
@params cont func
@ensures
final(cont)@ == old(cont)@, r@ == outs(func, old(cont)@)
@loop 1
@invariant
cont@ == old(cont)@, 0 <= it <= cont@.len(), func.f() == func_0.f(), func.h() == func_0.h() + cont@.take(it as int), ret@ == outs(func_0, cont@).take(it as int)
@decreases
cont@.len() - it
@begin
proof { assert(cont@.take(it + 1) =~= cont@.take(it as int).push(cont@[it as int])); }

@fn cuhksz::filterContainer as filter_$P sig (std::$C<int> &, bool (*)(int))
@params cont func
@ensures
final(cont)@ == old(cont)@, r@ == kept(old(cont)@, outs(func, old(cont)@), old(cont)@.len() as int)
@loop 1
@invariant
cont@ == old(cont)@, 0 <= it <= cont@.len(), func.f() == func_0.f(), func.h() == func_0.h() + cont@.take(it as int), ret@ == kept(cont@, outs(func_0, cont@), it as int)
@decreases
cont@.len() - it
@begin
proof { assert(cont@.take(it + 1) =~= cont@.take(it as int).push(cont@[it as int])); }
@endrepeat

@struct cuhksz::Zip<std::vector<int>> => Zip_
@type container => CVec<CVec<i32>>

@fn cuhksz::Zip<std::vector<int>>::zip_ as zip_0 sig void ()
@requires
old(this).items@.len() >= old(this).min_, old(this).items@.len() <= i32::MAX
@ensures
final(this).min_ == old(this).min_ as int, final(this).items@.len() == final(this).min_,
forall|i: int| 0 <= i < final(this).min_ ==> (#[trigger] final(this).items@[i])@ == old(this).items@[i]@ + Seq::<i32>::empty()

@fn cuhksz::Zip<std::vector<int>>::zip_ as zip_1 sig void (const std::vector<int> &)
@params head
@requires
old(this).items@.len() >= old(this).min_, old(this).items@.len() <= i32::MAX
@ensures
final(this).min_ == min0(old(this).min_ as int, head@.len() as int), final(this).items@.len() == final(this).min_,
forall|i: int| 0 <= i < final(this).min_ ==> (#[trigger] final(this).items@[i])@ == old(this).items@[i]@ + seq![head@[i]]
@loop 1
@invariant
0 <= i <= this.min_, this.min_ == min0(old(this).min_ as int, head@.len() as int), this.items@.len() == old(this).items@.len(), this.items@.len() >= old(this).min_, this.items@.len() <= i32::MAX,
forall|k: int| 0 <= k < i ==> (#[trigger] this.items@[k])@ == old(this).items@[k]@.push(head@[k]),
forall|k: int| i <= k < this.items@.len() ==> (#[trigger] this.items@[k])@ == old(this).items@[k]@
@decreases
this.min_ - i

@fn cuhksz::Zip<std::vector<int>>::zip_ as zip_2 sig void (const std::vector<int> &, const std::vector<int> &)
@params head b
@requires
old(this).items@.len() >= old(this).min_, old(this).items@.len() <= i32::MAX
@ensures
final(this).min_ == min0(min0(old(this).min_ as int, head@.len() as int), b@.len() as int), final(this).items@.len() == final(this).min_,
forall|i: int| 0 <= i < final(this).min_ ==> (#[trigger] final(this).items@[i])@ == old(this).items@[i]@ + seq![head@[i], b@[i]]
@loop 1
@invariant
0 <= i <= this.min_, this.min_ == min0(old(this).min_ as int, head@.len() as int), this.items@.len() == old(this).items@.len(), this.items@.len() >= old(this).min_, this.items@.len() <= i32::MAX,
forall|k: int| 0 <= k < i ==> (#[trigger] this.items@[k])@ == old(this).items@[k]@.push(head@[k]),
forall|k: int| i <= k < this.items@.len() ==> (#[trigger] this.items@[k])@ == old(this).items@[k]@
@decreases
this.min_ - i

@fn cuhksz::Zip<std::vector<int>>::zip_ as zip_3 sig void (const std::vector<int> &, const std::vector<int> &, const std::vector<int> &)
@params head b c
@requires
old(this).items@.len() >= old(this).min_, old(this).items@.len() <= i32::MAX
@ensures
final(this).min_ == min0(min0(min0(old(this).min_ as int, head@.len() as int), b@.len() as int), c@.len() as int), final(this).items@.len() == final(this).min_,
forall|i: int| 0 <= i < final(this).min_ ==> (#[trigger] final(this).items@[i])@ == old(this).items@[i]@ + seq![head@[i], b@[i], c@[i]]
@loop 1
@invariant
0 <= i <= this.min_, this.min_ == min0(old(this).min_ as int, head@.len() as int), this.items@.len() == old(this).items@.len(), this.items@.len() >= old(this).min_, this.items@.len() <= i32::MAX,
forall|k: int| 0 <= k < i ==> (#[trigger] this.items@[k])@ == old(this).items@[k]@.push(head@[k]),
forall|k: int| i <= k < this.items@.len() ==> (#[trigger] this.items@[k])@ == old(this).items@[k]@
@decreases
this.min_ - i

@fn cuhksz::Zip<std::vector<int>>::Zip as zip_ctor1 sig void (const std::vector<int> &)
@opt ctorof cuhksz::Zip<std::vector<int>>
@params head
@requires
head@.len() <= i32::MAX
@ensures
r.min_ == head@.len() as int, r.items@.len() == r.min_, forall|i: int| 0 <= i < r.min_ ==> (#[trigger] r.items@[i])@ == seq![head@[i]]

@fn cuhksz::zip as zip_f1 sig (const std::vector<int> &)
@params head
@requires
head@.len() <= i32::MAX
@ensures
r@.len() == head@.len() as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == seq![head@[i]]

@fn cuhksz::Zip<std::vector<int>>::Zip as zip_ctor2 sig void (const std::vector<int> &, const std::vector<int> &)
@opt ctorof cuhksz::Zip<std::vector<int>>
@params head b
@requires
head@.len() <= i32::MAX
@ensures
r.min_ == min0(head@.len() as int, b@.len() as int), r.items@.len() == r.min_, forall|i: int| 0 <= i < r.min_ ==> (#[trigger] r.items@[i])@ == seq![head@[i], b@[i]]

@fn cuhksz::zip as zip_f2 sig (const std::vector<int> &, const std::vector<int> &)
@params head b
@requires
head@.len() <= i32::MAX
@ensures
r@.len() == min0(head@.len() as int, b@.len() as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == seq![head@[i], b@[i]]

@fn cuhksz::Zip<std::vector<int>>::Zip as zip_ctor3 sig void (const std::vector<int> &, const std::vector<int> &, const std::vector<int> &)
@opt ctorof cuhksz::Zip<std::vector<int>>
@params head b c
@requires
head@.len() <= i32::MAX
@ensures
r.min_ == min0(min0(head@.len() as int, b@.len() as int), c@.len() as int), r.items@.len() == r.min_, forall|i: int| 0 <= i < r.min_ ==> (#[trigger] r.items@[i])@ == seq![head@[i], b@[i], c@[i]]

@fn cuhksz::zip as zip_f3 sig (const std::vector<int> &, const std::vector<int> &, const std::vector<int> &)
@params head b c
@requires
head@.len() <= i32::MAX
@ensures
r@.len() == min0(min0(head@.len() as int, b@.len() as int), c@.len() as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == seq![head@[i], b@[i], c@[i]]

@fn cuhksz::Zip<std::vector<int>>::operator() as zip_call
@ensures
r@ == this.items@

@fn cuhksz::Zip<std::vector<int>>::operator vector as zip_conv
@ensures
r@ == this.items@
