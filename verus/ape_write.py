"""Writing an APE tag: header, items and footer."""
W = 'lofty/src/ape/tag/write.rs'
ASSUMED = ['std::io::Cursor and byteorder: writes go to the position, a cursor over a vector never fails, one over an array fails past its end', 'at most 2^32 - 1 items; all lengths below 2^63']
DROPS = ['errors carry nothing', 'strings are the bytes they hold', 'the iterator of items is a slice and the `for` an index loop; of the read-only items only whether there are any', 'APE_PREAMBLE and `splice(0..0, _)` become contracted functions']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct AErr {}
pub open spec fn le4(n: u32) -> Seq<u8> { seq![(n & 0xFF) as u8, ((n >> 8u32) & 0xFF) as u8, ((n >> 16u32) & 0xFF) as u8, ((n >> 24u32) & 0xFF) as u8] }
pub open spec fn zeros8() -> Seq<u8> { seq![0u8, 0, 0, 0, 0, 0, 0, 0] }
pub open spec fn preamble() -> Seq<u8> { seq![0x41u8, 0x50, 0x45, 0x54, 0x41, 0x47, 0x45, 0x58] }
/// v with b written at p (p is not beyond the end)
pub open spec fn put(v: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> { if p + b.len() <= v.len() { v.take(p) + b + v.skip(p + b.len() as int) } else { v.take(p) + b } }
pub struct LittleEndian;
pub trait Order {}
impl Order for LittleEndian {}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// a Cursor over a growing vector, or over an array
pub struct Cur { pub v: Vec<u8>, pub at: Ghost<int>, pub fixed: Ghost<bool> }
impl Cur {
    pub open spec fn wf(&self) -> bool { 0 <= self.at@ <= self.v@.len() }
    pub open spec fn wrote(&self, o: &Cur, b: Seq<u8>, ok: bool) -> bool {
        &&& self.fixed == o.fixed
        &&& ok ==> self.v@ == put(o.v@, o.at@, b) && self.at@ == o.at@ + b.len() && (o.fixed@ ==> o.at@ + b.len() <= o.v@.len())
        &&& ok && !o.fixed@ && o.at@ == o.v@.len() ==> self.v@ == o.v@ + b
        &&& ok && o.fixed@ ==> self.v@.len() == o.v@.len() && self.v@.take(self.at@) == o.v@.take(o.at@) + b && self.v@.skip(self.at@) == o.v@.skip(self.at@)
        &&& !ok ==> o.fixed@ && o.at@ + b.len() > o.v@.len()
    }
    #[verifier::external_body]
    fn growing() -> (r: Cur) ensures r.v@.len() == 0, r.at@ == 0, !r.fixed@ { unimplemented!() }
    #[verifier::external_body]
    fn array(a: [u8; 32]) -> (r: Cur) ensures r.v@ == a@, r.at@ == 0, r.fixed@ { unimplemented!() }
    #[verifier::external_body]
    fn write_u8(&mut self, n: u8) -> (r: Result<(), AErr>) requires old(self).wf(), ensures final(self).wrote(old(self), seq![n], r is Ok) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32<O: Order>(&mut self, n: u32) -> (r: Result<(), AErr>) requires old(self).wf(), ensures final(self).wrote(old(self), le4(n), r is Ok) { unimplemented!() }
    /// the code writes 0 only
    #[verifier::external_body]
    fn write_u64<O: Order>(&mut self, n: u64) -> (r: Result<(), AErr>) requires old(self).wf(), n == 0, ensures final(self).wrote(old(self), zeros8(), r is Ok) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), AErr>) requires old(self).wf(), ensures final(self).wrote(old(self), b@, r is Ok) { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, AErr>)
        requires old(self).wf(), to matches SeekFrom::Current(d) && 0 <= old(self).at@ + d <= old(self).v@.len(),
        ensures r is Ok, final(self).v@ == old(self).v@, final(self).fixed == old(self).fixed, final(self).at@ == old(self).at@ + to->Current_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_ref(&self) -> (r: &[u8]) ensures r@ == self.v@ { unimplemented!() }
    #[verifier::external_body]
    fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.v@ { unimplemented!() }
}
#[verifier::external_body]
fn lit_preamble() -> (r: &'static [u8]) ensures r@ == preamble() { b"APETAGEX" }
#[verifier::external_body]
fn prepend(v: &mut Vec<u8>, b: &Vec<u8>) ensures final(v)@ == b@ + old(v)@ { unimplemented!() }
#[derive(Clone, Copy)]
pub enum ItemValueRef<'a> { Text(&'a [u8]), Locator(&'a [u8]), Binary(&'a [u8]) }
pub struct ApeItemRef<'a> { pub read_only: bool, pub key: &'a [u8], pub value: ItemValueRef<'a> }
pub struct ApeTagRef<'a> { pub read_only: bool, pub items: &'a [ApeItemRef<'a>] }
pub struct WriteOptions { pub respect_read_only: bool }
pub open spec fn value_of(v: ItemValueRef) -> Seq<u8> { match v { ItemValueRef::Text(b) => b@, ItemValueRef::Locator(b) => b@, ItemValueRef::Binary(b) => b@ } }
/// bits 1 and 2 of an item's flags: 0 text, 1 binary, 2 locator; bit 0: read only
pub open spec fn flags_of(i: ApeItemRef) -> u32 {
    let k = match i.value { ItemValueRef::Text(_) => 0u32, ItemValueRef::Binary(_) => 2, ItemValueRef::Locator(_) => 4 };
    if i.read_only { k | 1 } else { k }
}
pub open spec fn enc(i: ApeItemRef) -> Seq<u8> { le4(value_of(i.value).len() as u32) + le4(flags_of(i)) + i.key@ + seq![0u8] + value_of(i.value) }
pub open spec fn encs(s: Seq<ApeItemRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { encs(s.drop_last()) + enc(s.last()) } }
/// a header or footer
pub open spec fn frame(size: u32, count: u32, flags: u32) -> Seq<u8> { preamble() + le4(2000) + le4(size) + le4(count) + le4(flags) + zeros8() }
pub open spec fn with_bit(n: u32, b: bool) -> u32 { if b { n | 1 } else { n } }
pub proof fn extend(v: Seq<u8>, b: Seq<u8>) ensures put(v, v.len() as int, b) =~= v + b {}
pub proof fn at_within(v: Seq<u8>, p: int, b: Seq<u8>) requires 0 <= p, p + b.len() <= v.len(), ensures put(v, p, b).len() == v.len(), put(v, p, b).take(p + b.len() as int) =~= v.take(p) + b, put(v, p, b).skip(p + b.len() as int) =~= v.skip(p + b.len() as int) {}
''',
Fn(W, 'create_ape_tag', sig=[("<'a, 'b, I, R>", "<'a>"), ("tag: &mut ApeTagRef<'a, I>", "tag: &ApeTagRef<'a>"), ('mut read_only: R,', 'have_read_only: bool,'), ('ApeTagEncodingError', 'AErr'), ("where I: Iterator<Item = ApeItemRef<'a>>, R: Iterator<Item = ApeItemRef<'b>>,", '')],
   spec='''requires tag.items@.len() <= u32::MAX,
   ensures r matches Ok(v) ==> ({ let body = encs(tag.items@);
       if tag.items@.len() == 0 { v@.len() == 0 } else {
         &&& body.len() + 32 <= u32::MAX
         &&& v@ == frame((body.len() + 32) as u32, tag.items@.len() as u32, with_bit(0xE000_0000, tag.read_only)) + body + frame((body.len() + 32) as u32, tag.items@.len() as u32, with_bit(0xC000_0000, tag.read_only)) } }),
     r is Err ==> encs(tag.items@).len() + 32 > u32::MAX,''',
   subs=[('let items = &mut tag.items;', ''), ('let mut peek = items.peekable();', 'let peek = tag.items;'), ('peek.peek().is_none()', 'peek.len() == 0'), ('read_only.next().is_some()', 'have_read_only'), ('drop(read_only);', ''),
     ('Vec::<u8>::new()', 'Vec::new()', 2), ('Cursor::new(Vec::new())', 'Cur::growing()'),
     ('re:for item in peek \\{', 'let mut k__: usize = 0; while k__ < peek.len() { let item = &peek[k__]; k__ = k__ + 1; let ghost v0 = tag_write.v@; proof { assert(1u32 << 1 == 2u32) by (bit_vector); assert(2u32 << 1 == 4u32) by (bit_vector);  assert(tag.items@.take(k__ as int).drop_last() =~= tag.items@.take(k__ - 1)); }'),
     ('(ref value)', '(value)'), ('value.as_bytes()', 'value', 2), ('item.key.as_bytes()', 'item.key'), ('tag_write.get_ref().len()', 'tag_write.get_ref().len()'),
     ('size as u64 + 32 > u64::from(u32::MAX)', 'size as u64 > u32::MAX as u64 - 32'), ('TooMuchDataError.into()', 'AErr {}'), ('Cursor::new(&mut footer[..])', 'Cur::array(footer)'), ('APE_PREAMBLE', 'lit_preamble()'),
     ('tag_write.splice(0..0, header.to_vec());', 'prepend(&mut tag_write, &header);')],
   loops=['''invariant peek@ == tag.items@, k__ <= peek@.len(), peek@.len() <= u32::MAX, item_count == k__, !tag_write.fixed@, tag_write.at@ == tag_write.v@.len(),
        tag_write.v@.len() == encs(tag.items@.take(k__ as int)).len(), tag_write.v@.len() <= u32::MAX ==> tag_write.v@ == encs(tag.items@.take(k__ as int)),
      decreases peek.len() - k__'''],
   ins=[('before', 'let mut item_count', 'proof { assert(encs(tag.items@.take(0)) =~= seq![]); }'),
        ('before', 'item_count += 1;', 'proof { if tag_write.v@.len() <= u32::MAX { assert(tag_write.v@ =~= v0 + enc(*item)); } }'),
        ('before', 'let mut footer_flags', 'proof { assert((1u32 << 30) | (1u32 << 31) == 0xC000_0000u32) by (bit_vector); assert((1u32 << 29) | (1u32 << 30) | (1u32 << 31) == 0xE000_0000u32) by (bit_vector); }'),
        ('before', 'tag_write.write_all(footer.get_ref())', 'proof { assert(footer.v@.take(32) =~= footer.v@); assert(footer.v@ =~= frame((size + 32) as u32, item_count, footer_flags)); }'),
        ('after', 'footer.seek(SeekFrom::Current(-12))?;', 'let ghost f0 = footer.v@;'),
        ('before', 'let header = footer', 'proof { assert(f0.skip(24) =~= zeros8()); assert(footer.v@ =~= footer.v@.take(24) + footer.v@.skip(24)); assert(f0.take(20) =~= preamble() + le4(2000) + le4((size + 32) as u32) + le4(item_count)); assert(footer.v@ =~= frame((size + 32) as u32, item_count, header_flags)); }'),
        ('before', 'let size =', 'proof { assert(tag.items@.take(tag.items@.len() as int) =~= tag.items@); }'),
   ]),
'''
} // verus!
''']
