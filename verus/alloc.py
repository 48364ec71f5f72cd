"""fallible_repeat, fallible_vec_from_element and try_with_capacity_stable against the allocation limit."""
F = 'lofty/src/util/alloc.rs'
ASSUMED = ['Vec: try_reserve(n) reserves room for n more elements or fails, writing through the pointer initialises one slot, set_len reveals initialised slots (the struct Buf)',
           'an element equals its clone', 'the global options of the thread are the value `limit()`']
DROPS = ['the raw pointer writes become contracted slot writes, whose preconditions (within the reserved room; only initialised slots revealed) are proved', 'trait methods on Vec are inherent methods of the same text', '`unsafe` blocks lose the keyword']
SUBS = [('re:unsafe \\{([^{}]*)\\}', r'\1', '*')]
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct TryReserveError {}
pub enum AllocationError { LimitExceeded, ReserveError(TryReserveError) }
pub struct Options { pub allocation_limit: usize }
pub uninterp spec fn limit() -> nat;
#[verifier::external_body]
fn global_options() -> (r: Options) ensures r.allocation_limit == limit() { unimplemented!() }
pub uninterp spec fn width<T>() -> nat;
#[verifier::external_body]
fn size_of<T>() -> (r: usize) ensures r == width::<T>() { core::mem::size_of::<T>() }
fn sat_mul(a: usize, b: usize) -> (r: usize) ensures r == if a * b > usize::MAX { usize::MAX as int } else { a * b }
{ if let Some(c) = a.checked_mul(b) { c } else { usize::MAX } }
/// a Vec whose spare room may hold initialised elements
pub struct Buf<T> { v: Vec<T> }
pub struct Slots<T> { pub reserved: nat, pub slots: Seq<Option<T>>, pub len: nat }
impl<T> Buf<T> {
    pub uninterp spec fn st(&self) -> Slots<T>;
    /// the most that was ever requested from the allocator, in elements
    pub uninterp spec fn requested(&self) -> nat;
    pub open spec fn wf(&self) -> bool { self.st().len <= self.st().reserved && self.st().slots.len() == self.st().reserved && forall|i: int| 0 <= i < self.st().len ==> self.st().slots[i] is Some }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.wf(), r.st().len == 0, r.requested() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn try_reserve(&mut self, n: usize) -> (r: Result<(), TryReserveError>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).st().len == old(self).st().len, forall|i: int| 0 <= i < old(self).st().len ==> final(self).st().slots[i] == old(self).st().slots[i],
            r is Ok ==> final(self).st().reserved >= old(self).st().len + n, final(self).requested() == old(self).requested() + n
    { unimplemented!() }
    #[verifier::external_body]
    fn slot_write(&mut self, i: usize, x: T)
        requires old(self).st().slots.len() == old(self).st().reserved, i < old(self).st().reserved,
        ensures final(self).st() == (Slots { slots: old(self).st().slots.update(i as int, Some(x)), ..old(self).st() }), final(self).requested() == old(self).requested()
    { unimplemented!() }
    #[verifier::external_body]
    fn set_len(&mut self, n: usize)
        requires n <= old(self).st().reserved, forall|i: int| 0 <= i < n ==> old(self).st().slots[i] is Some,
        ensures final(self).st() == (Slots { len: n as nat, ..old(self).st() }), final(self).requested() == old(self).requested()
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.st().len { unimplemented!() }
}
#[verifier::external_body]
fn cloned<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
fn reserve_err<V>(r: Result<V, TryReserveError>) -> (o: Result<V, AllocationError>)
    ensures r is Ok <==> o is Ok, r matches Ok(v) ==> o == Ok::<V, AllocationError>(v), o matches Err(e) ==> e is ReserveError
{ match r { Ok(v) => Ok(v), Err(e) => Err(AllocationError::ReserveError(e)) } }
/// more than the limit, in bytes
pub open spec fn too_big<T>(n: nat) -> bool { (if n * width::<T>() > 0xffff_ffff_ffff_ffff { 0xffff_ffff_ffff_ffff } else { n * width::<T>() }) > limit() }
''',
Fn(F, 'exceeds_limit', spec='ensures r == too_big::<T>(len as nat),',
   subs=SUBS + [('re:(\\w+)\\.saturating_mul\\(([^;]*?)\\) >', r'sat_mul(\1, \2) >')]),
'impl<T> Buf<T> {',
Fn(F, 'fallible_repeat', impl='impl<T> VecFallibleRepeat<T> for Vec<T>', sig=[('mut self', 'self')],
   spec='''requires self.wf(), self.st().len == 0, self.requested() == 0,
    ensures
      too_big::<T>(expected_size as nat) && expected_size > 0 ==> r == Err::<Self, AllocationError>(AllocationError::LimitExceeded),
      r matches Ok(v) ==> v.wf() && v.st().len == expected_size && (forall|i: int| 0 <= i < expected_size ==> v.st().slots[i] == Some(element)) && v.requested() <= expected_size
         && (expected_size == 0 || !too_big::<T>(expected_size as nat)),
      r is Err ==> too_big::<T>(expected_size as nat) || (r matches Err(e) && e is ReserveError),''',
   subs=SUBS + [('self.', 'this.', '*'), ('Ok(self)', 'Ok(this)', '*'), ('this.try_reserve(expected_size)?', 'reserve_err(this.try_reserve(expected_size))?'), ('let ptr = this.as_mut_ptr();', ''),
      ('re:ptr\\.add\\((\\w+)\\)\\.write\\(element\\.clone\\(\\)\\)', r'this.slot_write(\1, cloned(&element))')],
   loops=['''invariant this.st().len == 0, this.st().slots.len() == this.st().reserved, this.st().reserved >= expected_size, current_length <= expected_size, this.requested() <= expected_size,
        forall|i: int| 0 <= i < current_length ==> this.st().slots[i] == Some(element),
      decreases expected_size - current_length,'''],
   ins=[('start', '', 'let mut this = self;')]),
Fn(F, 'try_with_capacity_stable', impl='impl<T> VecFallibleCapacity<T> for Vec<T>',
   spec='''ensures too_big::<T>(capacity as nat) ==> r == Err::<Self, AllocationError>(AllocationError::LimitExceeded),
      r matches Ok(v) ==> v.wf() && v.st().len == 0 && v.st().reserved >= capacity && v.requested() <= capacity && !too_big::<T>(capacity as nat),
      r is Err ==> too_big::<T>(capacity as nat) || (r matches Err(e) && e is ReserveError),''',
   subs=SUBS + [('Vec::new()', 'Buf::<T>::new()'), ('v.try_reserve(capacity)?', 'reserve_err(v.try_reserve(capacity))?')]),
'}',
Fn(F, 'fallible_vec_from_element', sig=[('Vec<T>', 'Buf<T>')],
   spec='''ensures
      too_big::<T>(expected_size as nat) && expected_size > 0 ==> r == Err::<Buf<T>, AllocationError>(AllocationError::LimitExceeded),
      r matches Ok(v) ==> v.wf() && v.st().len == expected_size && (forall|i: int| 0 <= i < expected_size ==> v.st().slots[i] == Some(element)) && v.requested() <= expected_size,''',
   subs=[('Vec::new()', 'Buf::new()')]),
'''
} // verus!
''']
