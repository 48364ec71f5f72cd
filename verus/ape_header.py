"""The header or footer of an APE tag, and its items."""
import rd
H = 'lofty/src/ape/tag/header.rs'
R = 'lofty/src/ape/tag/read.rs'
ASSUMED = rd.ASSUMED + ['stream_len_hack gives the length of the stream', 'utf8_decode: a function of the bytes given to it; ApeItem::new keeps what it is given or fails; the keys of pictures are not looked into', 'ApeTag::insert is the log of what is inserted']
DROPS = ['errors carry nothing', 'texts are the bytes they are decoded from', 'the nested function is verified on its own', 'try_vec! becomes a contracted function, which may fail']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct AErr {}
''', rd.prelude('AErr'), '''
#[verifier::external_body]
fn stream_len<R: Rd>(r: &mut R) -> (x: Result<u64, AErr>) ensures moved(final(r).g(), old(r).g(), 0), x matches Ok(n) ==> n == old(r).g().data.len(), x is Err ==> old(r).g().faulty { unimplemented!() }
fn sat_add(a: u32, b: u32) -> (r: u32) ensures r == if a + b <= u32::MAX { a + b } else { u32::MAX as int } { if a <= u32::MAX - b { a + b } else { u32::MAX } }
pub struct Text { pub raw: Ghost<Seq<u8>> }
pub uninterp spec fn decodes(b: Seq<u8>) -> bool;
#[verifier::external_body]
fn utf8_decode(b: Vec<u8>) -> (r: Result<Text, AErr>) ensures r is Ok <==> decodes(b@), r matches Ok(t) ==> t.raw@ == b@ { unimplemented!() }
#[verifier::external_body]
fn zeros(n: usize) -> (r: Result<Vec<u8>, AErr>) ensures r matches Ok(v) ==> v@.len() == n { unimplemented!() }
pub uninterp spec fn picture_key(b: Seq<u8>) -> bool;
#[verifier::external_body]
fn is_picture(k: &Text) -> (r: bool) ensures r == picture_key(k.raw@) { unimplemented!() }
pub enum ItemValue { Text(Text), Locator(Text), Binary(Vec<u8>) }
pub struct ApeItem { pub read_only: bool, pub key: Text, pub value: ItemValue }
pub uninterp spec fn valid_key(b: Seq<u8>) -> bool;
impl ApeItem {
    #[verifier::external_body]
    fn new(key: Text, value: ItemValue) -> (r: Result<ApeItem, AErr>)
        ensures r is Ok <==> valid_key(key.raw@), r matches Ok(i) ==> i.key == key && i.value == value && !i.read_only
    { unimplemented!() }
}
/// an item: key, kind and value
pub struct Entry { pub key: Seq<u8>, pub kind: u32, pub value: Seq<u8>, pub read_only: bool }
pub open spec fn entry(i: ApeItem) -> Entry {
    Entry { key: i.key.raw@, kind: match i.value { ItemValue::Text(_) => 0u32, ItemValue::Binary(_) => 1, ItemValue::Locator(_) => 2 },
        value: match i.value { ItemValue::Text(t) => t.raw@, ItemValue::Binary(b) => b@, ItemValue::Locator(t) => t.raw@ }, read_only: i.read_only }
}
pub struct ApeTag { pub log: Ghost<Seq<Entry>> }
impl ApeTag {
    #[verifier::external_body]
    fn default() -> (r: ApeTag) ensures r.log@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, i: ApeItem) ensures final(self).log@ == old(self).log@.push(entry(i)) { unimplemented!() }
}
pub struct ParseOptions { pub read_cover_art: bool }
/// where the key that starts at `p` ends
pub open spec fn key_end(d: Seq<u8>, p: int) -> int decreases d.len() - p { if p >= d.len() || p < 0 || d[p] == 0 { p } else { key_end(d, p + 1) } }
pub open spec fn value_len(d: Seq<u8>, p: int) -> u32 { le32(d.subrange(p, p + 4)) }
pub open spec fn flags_at(d: Seq<u8>, p: int) -> u32 { le32(d.subrange(p + 4, p + 8)) }
pub open spec fn value_at(d: Seq<u8>, p: int) -> int { key_end(d, p + 8) + 1 }
pub open spec fn entry_at(d: Seq<u8>, p: int) -> Entry {
    Entry { key: d.subrange(p + 8, key_end(d, p + 8)), kind: (flags_at(d, p) >> 1u32) & 3, value: if value_len(d, p) == 0 { seq![] } else { d.subrange(value_at(d, p), value_at(d, p) + value_len(d, p)) }, read_only: flags_at(d, p) & 1 == 1 }
}
pub open spec fn entry_end(d: Seq<u8>, p: int) -> int { value_at(d, p) + value_len(d, p) }
/// the k-th item starts here
pub open spec fn nth(d: Seq<u8>, p: int, k: nat) -> int decreases k { if k == 0 { p } else { entry_end(d, nth(d, p, (k - 1) as nat)) } }
/// the items a reader at `p` gives, the first k of them
pub open spec fn entries(d: Seq<u8>, p: int, k: nat, cover: bool) -> Seq<Entry> decreases k {
    if k == 0 { seq![] } else {
        let rest = entries(d, p, (k - 1) as nat, cover);
        let q = nth(d, p, (k - 1) as nat);
        if picture_key(entry_at(d, q).key) && !cover { rest } else { rest.push(entry_at(d, q)) }
    }
}
/// as many items as there are, with 11 bytes at least for each
pub open spec fn count(size: u32, n: u32) -> nat { if size < 11 { 0 } else { let most = (size as int - 11) / 4 + 1; if (n as int) < most { n as nat } else { most as nat } } }
''', Item(H, 'struct', 'ApeHeader'),
Fn(H, 'read_ape_header', sig=[('ApeTagParseError', 'AErr'), ('R: Read + Seek', 'R: Rd')],
   spec='''requires old(data).g().data.len() < 0x8000_0000_0000_0000,
   ensures same(final(data).g(), old(data).g()),
     r matches Ok(h) ==> ({ let s = old(data).g(); let p = s.at as int;
        let version = le32(s.data.subrange(p, p + 4)); let size = le32(s.data.subrange(p + 4, p + 8)); let flags = le32(s.data.subrange(p + 12, p + 16));
        &&& p + 16 <= s.data.len() && size >= 32
        &&& h.item_count == le32(s.data.subrange(p + 8, p + 12))
        &&& h.size == (if version == 2000 && (!footer || flags >> 31u32 == 1) { if size + 32 <= u32::MAX { size + 32 } else { u32::MAX as int } } else { size as int })
        &&& h.size <= s.data.len()
        &&& final(data).g().at == (if footer { p + 24 - size } else { p + 24 }) }),
     r is Err ==> ({ let s = old(data).g(); let p = s.at as int; let size = le32(s.data.subrange(p + 4, p + 8));
        s.faulty || p + 16 > s.data.len() || size < 32 || size + 32 > s.data.len() || (footer && p + 24 < size) || p + 24 > u64::MAX }),''',
   subs=[('SizeMismatchError.into()', 'AErr {}', '*'), ('size.saturating_add(32)', 'sat_add(size, 32)'), ('data.stream_len_hack()?', 'stream_len(data)?'), ('re:u64::from\\(size\\)', 'size as u64'), ('re:i64::from\\(size\\)', 'size as i64')]),
Fn(R, 'parse_item_with_key', within='read_ape_tag_with_header', sig=[('ApeTagItemParseError', 'AErr'), ('R: Read + Seek', 'R: Rd'), ('key: String', 'key: Text')],
   spec='''requires old(reader).g().data.len() < 0x8000_0000_0000_0000,
   ensures same(final(reader).g(), old(reader).g()),
     r matches Ok(i) ==> avail(old(reader).g(), value_size as int) && moved(final(reader).g(), old(reader).g(), value_size as int)
        && entry(i) == (Entry { key: key.raw@, kind: (flags >> 1u32) & 3, value: next(old(reader).g(), value_size as int), read_only: flags & 1 == 1 }),
     r is Err ==> true,''',
   subs=[('re:try_vec!\\[0; (.*?)\\]', r'zeros(\1)'), ('re:\\(key, e\\)\\.into\\(\\)', 'AErr {}', '*'), ('re:ApeTagItemParseError::from\\(\\(key, e\\)\\)', 'AErr {}', '*'), ('ApeTagItemParseError::illegal_item_type(key)', 'AErr {}'), ('reader.read_exact(&mut value)', 'reader.read_exact_vec(&mut value)')]),
Fn(R, 'read_ape_tag_with_header', without=['parse_item_with_key'], sig=[('ApeTagParseError', 'AErr'), ('R: Read + Seek', 'R: Rd')],
   spec='''requires old(reader).g().data.len() < 0x8000_0000_0000_0000,
   ensures same(final(reader).g(), old(reader).g()),
     r matches Ok(t) ==> ({ let s = old(reader).g(); let n = count(header.size, header.item_count);
        &&& t.log@ == entries(s.data, s.at as int, n, parse_options.read_cover_art)
        &&& final(reader).g().at == nth(s.data, s.at as int, n) + 32 }),''',
   subs=[('re:for _ in 0\\.\\.header\\.item_count \\{', 'let mut k__: u32 = 0; while k__ < header.item_count {'),
     ('SizeMismatchError.into()', 'AErr {}', '*'), ('re:\\.map_err\\(ApeTagItemParseError::from\\)', ''), ('APE_PICTURE_TYPES.contains(&&*key)', 'is_picture(&key)'), ('re:i64::from\\(value_size\\)', 'value_size as i64'),
     ('re:continue;', 'k__ = k__ + 1; continue;'), ('re:tag\\.insert\\(item\\);', 'tag.insert(item); k__ = k__ + 1;')],
   loops=[('''invariant_except_break header.size == remaining_size + 4 * k__,
      invariant same(reader.g(), s0), s0 == old(reader).g(), k__ <= header.item_count, k__ <= count(header.size, header.item_count),
         header.size == remaining_size + 4 * k__,
         tag.log@ =~= entries(s0.data, s0.at as int, k__ as nat, parse_options.read_cover_art), reader.g().at == nth(s0.data, s0.at as int, k__ as nat),
      ensures k__ == count(header.size, header.item_count),
      decreases header.item_count - k__''', 'let ghost s0 = reader.g();'),
     '''invariant same(reader.g(), s0), s0 == old(reader).g(), q + 8 <= reader.g().at - 1, reader.g().at <= s0.data.len(), 0 <= q,
         key_char == s0.data[reader.g().at - 1], key@ =~= s0.data.subrange(q + 8, reader.g().at - 1),
         key_end(s0.data, q + 8) == key_end(s0.data, reader.g().at - 1),
       decreases s0.data.len() - reader.g().at'''],
   ins=[('before', 'let value_size', 'let ghost q = nth(s0.data, s0.at as int, k__ as nat);'),
        ('before', 'let key = utf8_decode', '''proof {
          reveal_with_fuel(key_end, 2);
          assert(key_end(s0.data, q + 8) == reader.g().at - 1); assert(key@ == s0.data.subrange(q + 8, key_end(s0.data, q + 8)));
          assert(value_at(s0.data, q) == reader.g().at);
          reveal_with_fuel(nth, 2); reveal_with_fuel(entries, 2); }'''),
   ]),
'''
} // verus!
''']
