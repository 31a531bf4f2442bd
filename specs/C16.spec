@# sequence containers: Vector, List, Stack, Queue (instance int)
@driver
#include "/repo/src/include/containers/Vector.h"
#include "/repo/src/include/containers/List.h"
#include "/repo/src/include/containers/Stack.h"
#include "/repo/src/include/containers/Queue.h"
namespace cuhksz {
template class Vector<int>;
template class List<int>;
template class Stack<int>;
template class Queue<int>;
}

@runtime containers
@type stlVector => CVec<i32>
@type stlList => CList<i32>
@type stlStack => CStack<i32>
@type stlQueue => CQueue<i32>
@struct cuhksz::Vector<int> => CzVec
@struct cuhksz::List<int> => CzList
@struct cuhksz::Stack<int> => CzStack
@struct cuhksz::Queue<int> => CzQueue
@trusted the container operations of the C++ standard library do what the standard says (tool/rt_containers.rs)
@prelude
pub open spec fn inr(i: i32, n: nat) -> bool { 0 <= i < n }

@repeat C=Vector P=v S=stlVector F=vec STL=std::vector<int> ; C=List P=l S=stlList F=privateList STL=std::list<int>
@fn cuhksz::$C<int>::$C as $P_new sig void ()
@ensures
r.$F@ == Seq::<i32>::empty()
@ret
assert(this_.$F@ =~= Seq::<i32>::empty());

@fn cuhksz::$C<int>::$C as $P_fill sig void (int, int)
@params n value
@requires
n >= 0
@ensures
r.$F@ == Seq::new(n as nat, |i: int| value)
@ret
assert(this_.$F@ =~= Seq::new(n as nat, |i: int| value));

@fn cuhksz::$C<int>::$C as $P_init sig void (std::initializer_list<int>)
@params init
@ensures
r.$F@ == init@

@fn cuhksz::$C<int>::$C as $P_stl sig void ($S &)
@params other
@ensures
r.$F@ == old(other)@, final(other)@ == old(other)@

@fn cuhksz::$C<int>::boundaryCheck as $P_bcheck
@params index
@exit_ok
!inr(index, this.$F@.len())
@ensures
inr(index, this.$F@.len())

@fn cuhksz::$C<int>::emptyCheck as $P_echeck
@exit_ok
this.$F@.len() == 0
@ensures
this.$F@.len() > 0

@fn cuhksz::$C<int>::first as $P_first sig int &()
@opt refidx
@exit_ok
this.$F@.len() == 0
@ensures
final(this).$F@ == old(this).$F@, old(this).$F@.len() > 0, r == 0

@fn cuhksz::$C<int>::first as $P_cfirst sig const int &() const
@exit_ok
this.$F@.len() == 0
@ensures
this.$F@.len() > 0, r == this.$F@[0]

@fn cuhksz::$C<int>::last as $P_last sig int &()
@opt refidx
@exit_ok
this.$F@.len() == 0
@ensures
final(this).$F@ == old(this).$F@, old(this).$F@.len() > 0, r == old(this).$F@.len() - 1

@fn cuhksz::$C<int>::last as $P_clast sig const int &() const
@exit_ok
this.$F@.len() == 0
@ensures
this.$F@.len() > 0, r == this.$F@.last()

@fn cuhksz::$C<int>::isEmpty as $P_empty
@ensures
r == (this.$F@.len() == 0)

@fn cuhksz::$C<int>::size as $P_size
@ensures
this.$F@.len() <= i32::MAX ==> r == this.$F@.len()

@fn cuhksz::$C<int>::clear as $P_clear
@ensures
final(this).$F@ == Seq::<i32>::empty()

@fn cuhksz::$C<int>::insert as $P_insert
@params index value
@exit_ok
!(0 <= index <= this.$F@.len())
@ensures
0 <= index <= old(this).$F@.len(), final(this).$F@ == old(this).$F@.insert(index as int, value)

@fn cuhksz::$C<int>::erase as $P_erase
@params index
@exit_ok
!inr(index, this.$F@.len())
@ensures
inr(index, old(this).$F@.len()), final(this).$F@ == old(this).$F@.remove(index as int)

@fn cuhksz::$C<int>::push as $P_push
@params value
@ensures
final(this).$F@ == old(this).$F@.push(value)

@fn cuhksz::$C<int>::pop as $P_pop
@exit_ok
this.$F@.len() == 0
@ensures
old(this).$F@.len() > 0, final(this).$F@ == old(this).$F@.drop_last(), r == old(this).$F@.last()

@fn cuhksz::$C<int>::toStl$C as $P_tostl
@opt this ref
@ensures
r@ == this.$F@
@endrepeat

@repeat C=Vector P=v F=vec A=v2 ; C=List P=l F=privateList A=list2 ; C=Stack P=s F=privateStack A=stack2 ; C=Queue P=q F=privateQueue A=queue2
@fn cuhksz::$C<int>::operator== as $P_eq
@opt this ref
@params other
@ensures
r == (this.$F@ == other.$F@)

@fn cuhksz::$C<int>::operator!= as $P_ne
@opt this ref
@params other
@ensures
r == (this.$F@ != other.$F@)

@fn cuhksz::$C<int>::operator< as $P_lt
@opt this ref
@params other
@ensures
r == lex_lt(this.$F@, other.$F@)

@fn cuhksz::$C<int>::operator> as $P_gt
@opt this ref
@params other
@ensures
r == lex_lt(other.$F@, this.$F@)

@fn cuhksz::$C<int>::operator<= as $P_le
@opt this ref
@params other
@ensures
r == !lex_lt(other.$F@, this.$F@)

@fn cuhksz::$C<int>::operator>= as $P_ge
@opt this ref
@params other
@ensures
r == !lex_lt(this.$F@, other.$F@)
@endrepeat

@fn cuhksz::Vector<int>::set as v_set
@params index value
@exit_ok
!inr(index, this.vec@.len())
@ensures
inr(index, old(this).vec@.len()), final(this).vec@ == old(this).vec@.update(index as int, value)

@repeat N=get R=get ; N=operator[] R=idx
@fn cuhksz::Vector<int>::$N as v_c$R sig const int &(int) const
@params index
@exit_ok
!inr(index, this.vec@.len())
@ensures
inr(index, this.vec@.len()), r == this.vec@[index as int]

@fn cuhksz::Vector<int>::$N as v_$R sig int &(int)
@opt refidx
@params index
@exit_ok
!inr(index, this.vec@.len())
@ensures
final(this).vec@ == old(this).vec@, inr(index, old(this).vec@.len()), r == index
@endrepeat

@fn cuhksz::List<int>::operator[] as l_cidx sig const int &(int) const
@params index
@exit_ok
!inr(index, this.privateList@.len())
@ensures
inr(index, this.privateList@.len()), r == this.privateList@[index as int]
@loop 1
@invariant
0 <= i <= index, index < this.privateList@.len(), iterator == i
@decreases
index - i

@fn cuhksz::List<int>::operator[] as l_idx sig int &(int)
@opt refidx
@params index
@exit_ok
!inr(index, this.privateList@.len())
@ensures
final(this).privateList@ == old(this).privateList@, inr(index, old(this).privateList@.len()), r == index
@loop 1
@invariant
0 <= i <= index, index < this.privateList@.len(), iterator == i, this.privateList@ == old(this).privateList@
@decreases
index - i

@fn cuhksz::List<int>::operator= as l_assign
@opt retunit
@params other
@ensures
final(this).privateList@ == other.privateList@

@fn cuhksz::List<int>::push_front as l_pushf
@params value
@ensures
final(this).privateList@ == old(this).privateList@.insert(0, value)

@fn cuhksz::List<int>::pop_front as l_popf
@exit_ok
this.privateList@.len() == 0
@ensures
old(this).privateList@.len() > 0, final(this).privateList@ == old(this).privateList@.remove(0), r == old(this).privateList@[0]

@fn cuhksz::List<int>::sort as l_sort
@ensures
sortedi(final(this).privateList@), final(this).privateList@.to_multiset() == old(this).privateList@.to_multiset()

@fn cuhksz::List<int>::reverse as l_reverse
@ensures
final(this).privateList@ == old(this).privateList@.reverse()

@fn cuhksz::List<int>::merge as l_merge
@params other
@requires
sortedi(old(this).privateList@), sortedi(old(other).privateList@)
@ensures
sortedi(final(this).privateList@), final(this).privateList@.to_multiset() == old(this).privateList@.to_multiset().add(old(other).privateList@.to_multiset()), final(other).privateList@.len() == 0

@repeat C=Stack P=s F=privateStack ; C=Queue P=q F=privateQueue
@fn cuhksz::$C<int>::$C as $P_new sig void ()
@ensures
r.$F@ == Seq::<i32>::empty()

@fn cuhksz::$C<int>::$C as $P_stl sig void (stl$C &)
@params other
@ensures
r.$F@ == old(other)@, final(other)@ == old(other)@

@fn cuhksz::$C<int>::operator= as $P_assign
@params other
@ensures
final(this).$F@ == other.$F@, r.$F@ == other.$F@

@fn cuhksz::$C<int>::size as $P_size
@ensures
this.$F@.len() <= i32::MAX ==> r == this.$F@.len()

@fn cuhksz::$C<int>::isEmpty as $P_empty
@opt this ref
@ensures
r == (this.$F@.len() == 0)

@fn cuhksz::$C<int>::emptyCheck as $P_echeck
@exit_ok
this.$F@.len() == 0
@ensures
this.$F@.len() > 0

@fn cuhksz::$C<int>::clear as $P_clear
@requires
old(this).$F@.len() <= i32::MAX
@ensures
final(this).$F@ == Seq::<i32>::empty()
@loop 1
@invariant
size == old(this).$F@.len(), 0 <= i <= size, this.$F@.len() == size - i
@decreases
size - i
@ret
assert(this.$F@ =~= Seq::<i32>::empty());

@fn cuhksz::$C<int>::toStl$C as $P_tostl
@opt this ref
@ensures
r@ == this.$F@
@endrepeat

@repeat N=top C=Stack P=s R=this.$F@.last() I=r==old(this).$F@.len()-1 F=privateStack ; N=first C=Queue P=q R=this.$F@[0] I=r==0 F=privateQueue ; N=last C=Queue P=q R=this.$F@.last() I=r==old(this).$F@.len()-1 F=privateQueue
@fn cuhksz::$C<int>::$N as $P_c$N sig const int &() const
@exit_ok
this.$F@.len() == 0
@ensures
this.$F@.len() > 0, r == $R

@fn cuhksz::$C<int>::$N as $P_$N sig int &()
@opt refidx
@exit_ok
this.$F@.len() == 0
@ensures
final(this).$F@ == old(this).$F@, old(this).$F@.len() > 0, r < old(this).$F@.len(), $I
@endrepeat

@fn cuhksz::Stack<int>::push as s_push
@params value
@ensures
final(this).privateStack@ == old(this).privateStack@.push(value)

@fn cuhksz::Stack<int>::pop as s_pop
@exit_ok
this.privateStack@.len() == 0
@ensures
old(this).privateStack@.len() > 0, final(this).privateStack@ == old(this).privateStack@.drop_last(), r == old(this).privateStack@.last()

@fn cuhksz::Queue<int>::enqueue as q_enq
@params value
@ensures
final(this).privateQueue@ == old(this).privateQueue@.push(value)

@fn cuhksz::Queue<int>::dequeue as q_deq
@exit_ok
this.privateQueue@.len() == 0
@ensures
old(this).privateQueue@.len() > 0, final(this).privateQueue@ == old(this).privateQueue@.remove(0), r == old(this).privateQueue@[0]
