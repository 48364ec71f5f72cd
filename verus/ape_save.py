"""Finding the APE tags of a file and replacing them; Lyrics3v2."""
import rd
W = 'lofty/src/ape/tag/write.rs'
R = 'lofty/src/ape/tag/read.rs'
M = 'lofty/src/id3/mod.rs'
ASSUMED = rd.FILE_ASSUMED + ['find_id3v2, find_id3v1 and read_ape_header: their contracts of id3v2_header.py, id3v1_find.py and ape_header.py, stated over the file', 'read_ape_tag_with_header leaves the file as it is', 'create_ape_tag gives some bytes', 'the digits of a Lyrics3v2 size: a function of the six bytes, below 10^6', 'Vec::{splice, drain}', 'files below 2^61 bytes']
DROPS = ['errors carry nothing', 'the file is passed as it is (the original unwraps a VerifiedFile)', 'the items that are marked read-only: create_ape_tag does not use them', '`if let` with a condition becomes two']
FL = rd.file_prelude('AErr')
PARTS = ['''
use vstd::prelude::*;
use core::ops::Range;
verus! {
global size_of usize == 8;
pub struct AErr {}
''', FL, '''
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
impl Copy for ParsingMode {} impl Clone for ParsingMode { fn clone(&self) -> Self { *self } }
pub struct ParseOptions { pub read_tags: bool, pub parsing_mode: ParsingMode }
impl Copy for ParseOptions {} impl Clone for ParseOptions { fn clone(&self) -> Self { *self } }
pub struct WriteOptions { pub parse_options: ParseOptions, pub respect_read_only: bool, pub rest: Ghost<int> }
impl Copy for WriteOptions {} impl Clone for WriteOptions { fn clone(&self) -> Self { *self } }
pub open spec fn le32(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8u32) | ((s[2] as u32) << 16u32) | ((s[3] as u32) << 24u32) }
pub open spec fn preamble() -> Seq<u8> { seq![0x41u8, 0x50, 0x45, 0x54, 0x41, 0x47, 0x45, 0x58] }
pub open spec fn lyrics() -> Seq<u8> { seq![0x4cu8, 0x59, 0x52, 0x49, 0x43, 0x53, 0x32, 0x30, 0x30] }
// ---- where things are
/// the end of a leading ID3v2 tag, or 0 (id3v2_header.py)
pub uninterp spec fn v2_end(d: Seq<u8>) -> int;
/// the last 128 bytes are an ID3v1 tag (id3v1_find.py)
pub uninterp spec fn has_v1(d: Seq<u8>) -> bool;
pub uninterp spec fn number(s: Seq<u8>) -> Option<u32>;
pub open spec fn v1_start(d: Seq<u8>) -> int { if has_v1(d) { d.len() - 128 } else { d.len() as int } }
pub open spec fn lyrics_at(d: Seq<u8>, q: int) -> bool { q >= 15 && d.subrange(q - 9, q) == lyrics() }
/// where a Lyrics3v2 tag that ends at q starts
pub open spec fn before_lyrics(d: Seq<u8>, q: int) -> int { if lyrics_at(d, q) { q - 15 - number(d.subrange(q - 15, q - 9))->0 } else { q } }
/// where an APE tag at the end ends, or would
pub open spec fn foot(d: Seq<u8>) -> int { before_lyrics(d, v1_start(d)) }
pub open spec fn ape_at(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 8 <= d.len() && d.subrange(p, p + 8) == preamble() }
/// the size of the whole tag, from the header or footer that starts at p
pub open spec fn ape_size(d: Seq<u8>, p: int, footer: bool) -> int {
    let version = le32(d.subrange(p + 8, p + 12)); let size = le32(d.subrange(p + 12, p + 16)); let flags = le32(d.subrange(p + 20, p + 24));
    if version == 2000 && (!footer || flags >> 31u32 == 1) { if size + 32 <= u32::MAX { size + 32 } else { u32::MAX as int } } else { size as int }
}
pub open spec fn trailing(d: Seq<u8>) -> Option<(int, int)> { let q = foot(d); if ape_at(d, q - 32) { Some((q - ape_size(d, q - 32, true), q)) } else { None } }
pub open spec fn leading(d: Seq<u8>) -> Option<(int, int)> {
    let p = v2_end(d);
    if ape_at(d, p) && trailing(d) != Some((p, p + ape_size(d, p, false))) { Some((p, p + ape_size(d, p, false))) } else { None }
}
/// the new tag takes the place of the trailing one, or comes where it belongs; a leading one goes; all else stays
pub open spec fn saved(d: Seq<u8>, t: Seq<u8>) -> Seq<u8> {
    let (x, y) = match trailing(d) { Some(r) => r, None => (foot(d), foot(d)) };
    match leading(d) {
        Some((a, b)) => d.take(a) + d.subrange(b, x) + t + d.skip(y),
        None => d.take(x) + t + d.skip(y),
    }
}
// ---- helpers with contracts
#[verifier::external_body]
fn fill<F: Fl, const N: usize>(f: &mut F, b: &mut [u8; N]) -> (r: Result<(), AErr>)
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty,
        r is Ok ==> old(f).g().at + N <= old(f).g().data.len() && final(f).g().at == old(f).g().at + N && final(b)@ == old(f).g().data.subrange(old(f).g().at as int, old(f).g().at + N),
        r is Err ==> old(f).g().faulty || old(f).g().at + N > old(f).g().data.len()
{ unimplemented!() }
fn failed(r: Result<u64, AErr>) -> (b: bool) ensures b == (r is Err) { r.is_err() }
#[verifier::external_body]
fn is_lyrics(b: &[u8; 15]) -> (r: bool) ensures r == (b@.subrange(6, 15) == lyrics()) { unimplemented!() }
#[verifier::external_body]
fn digits(b: &[u8; 15]) -> (r: Result<u32, AErr>) ensures r matches Ok(n) ==> number(b@.take(6)) == Some(n) && n <= 999_999, r is Err ==> number(b@.take(6)) is None { unimplemented!() }
#[verifier::external_body]
fn is_preamble(b: &[u8; 8]) -> (r: bool) ensures r == (b@ == preamble()) { unimplemented!() }
pub struct ID3FindResults<H, C>(pub Option<H>, pub C);
pub struct ApeHeader { pub size: u32, pub item_count: u32 }
impl Copy for ApeHeader {} impl Clone for ApeHeader { fn clone(&self) -> Self { *self } }
pub struct ApeTag { pub items: Vec<u8> }
pub struct ApeTagRef { pub bytes: Ghost<int> }
pub uninterp spec fn made(t: int, o: WriteOptions) -> Option<Seq<u8>>;
#[verifier::external_body]
fn create_ape_tag(t: &mut ApeTagRef, o: WriteOptions) -> (r: Result<Vec<u8>, AErr>) ensures r matches Ok(v) ==> made(old(t).bytes@, o) == Some(v@) && v@.len() < 0x1_0000_0020, r is Err ==> made(old(t).bytes@, o) is None { unimplemented!() }
#[verifier::external_body]
fn find_id3v2<F: Fl>(f: &mut F) -> (r: Result<(), AErr>)
    requires old(f).g().at == 0,
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty, r is Ok && !old(f).g().faulty ==> final(f).g().at == v2_end(old(f).g().data), r is Ok ==> final(f).g().at < 0x2000_0000, r is Err ==> old(f).g().faulty
{ unimplemented!() }
#[verifier::external_body]
fn find_id3v1<F: Fl>(f: &mut F, read: bool, m: ParsingMode) -> (r: Result<(), AErr>)
    requires !read,
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty,
      r is Ok && !old(f).g().faulty ==> final(f).g().at == v1_start(old(f).g().data), r is Ok ==> final(f).g().at <= old(f).g().data.len(), r is Err ==> old(f).g().faulty
{ unimplemented!() }
#[verifier::external_body]
fn read_ape_header<F: Fl>(f: &mut F, footer: bool) -> (r: Result<ApeHeader, AErr>)
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty,
      r matches Ok(h) ==> old(f).g().at >= 8 && h.size == ape_size(old(f).g().data, old(f).g().at - 8, footer) && 32 <= h.size <= old(f).g().data.len()
{ unimplemented!() }
#[verifier::external_body]
fn read_ape_tag_with_header<F: Fl>(f: &mut F, h: ApeHeader, o: ParseOptions) -> (r: Result<ApeTag, AErr>)
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty
{ unimplemented!() }
#[verifier::external_body]
fn only_read_only(t: &mut ApeTag) { unimplemented!() }
fn is_empty(t: &ApeTag) -> bool { t.items.len() == 0 }
#[verifier::external_body]
fn extend(t: &mut ApeTag, o: ApeTag) { unimplemented!() }
fn sub_checked(a: usize, b: usize) -> (r: Option<usize>) ensures r == (if a >= b { Some((a - b) as usize) } else { None::<usize> }) { if a >= b { Some(a - b) } else { None } }
fn same_range(a: &Option<Range<usize>>, b: &Option<Range<usize>>) -> (r: bool) ensures r == (*a == *b)
{ match (a, b) { (Some(x), Some(y)) => x.start == y.start && x.end == y.end, (None, None) => true, _ => false } }
#[verifier::external_body]
fn read_to_end<W: Fl>(f: &mut W, v: &mut Vec<u8>) -> (r: Result<(), AErr>)
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty, r is Err ==> old(f).g().faulty,
        r is Ok ==> final(v)@ == old(v)@ + (if old(f).g().at <= old(f).g().data.len() { old(f).g().data.skip(old(f).g().at as int) } else { seq![] })
{ unimplemented!() }
#[verifier::external_body]
fn splice_in(v: &mut Vec<u8>, a: usize, b: usize, t: Vec<u8>) requires a <= b <= old(v)@.len(), ensures final(v)@ == old(v)@.take(a as int) + t@ + old(v)@.skip(b as int) { unimplemented!() }
#[verifier::external_body]
fn drain_out(v: &mut Vec<u8>, a: usize, b: usize) requires a <= b <= old(v)@.len(), ensures final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int) { unimplemented!() }
''', Item(W, 'struct', 'ApeTags'),
Fn(M, 'find_lyrics3v2', sig=[('R: Read + Seek', 'R: Fl'), ('Lyrics3v2ParseError', 'AErr')],
   spec='''requires old(data).g().data.len() < 0x2000_0000_0000_0000, old(data).g().at <= old(data).g().data.len(),
    ensures final(data).g().data == old(data).g().data, final(data).g().faulty == old(data).g().faulty,
      r is Ok ==> final(data).g().at <= old(data).g().at,
      r is Ok && !old(data).g().faulty ==> final(data).g().at == before_lyrics(old(data).g().data, old(data).g().at as int) && final(data).g().at <= old(data).g().at,''',
   subs=[('data.seek(SeekFrom::Current(-15)).is_err()', 'failed(data.seek(SeekFrom::Current(-15)))'), ('let mut lyrics3v2 = [0; 15];', 'let mut lyrics3v2 = [0u8; 15];'), ('data.read_exact(&mut lyrics3v2)?', 'fill(data, &mut lyrics3v2)?'),
     ('re:&lyrics3v2\\[6\\.\\.\\] == b"LYRICS200"', 'is_lyrics(&lyrics3v2)'), ('re:let lyrics_size = utf8_decode_str\\(&lyrics3v2\\[\\.\\.6\\]\\)\\?;\\s*let lyrics_size = lyrics_size\\.parse::<u32>\\(\\)\\?;', 'let lyrics_size = digits(&lyrics3v2)?;'),
     ('re:i64::from\\(([^()]*)\\)\\.neg\\(\\)', r'(-((\1) as i64))')],
   ins=[('after', 'fill(data, &mut lyrics3v2)?;', 'proof { let d = old(data).g().data; let q = old(data).g().at as int; assert(lyrics3v2@.subrange(6, 15) =~= d.subrange(q - 9, q)); assert(lyrics3v2@.take(6) =~= d.subrange(q - 15, q - 9)); }')]),
Fn(R, 'read_ape_tag', sig=[('R: Read + Seek', 'R: Fl'), ('ApeTagParseError', 'AErr')],
   spec='''ensures final(reader).g().data == old(reader).g().data, final(reader).g().faulty == old(reader).g().faulty,
      ({ let d = old(reader).g().data; let p = old(reader).g().at as int;
        &&& r matches Ok((_, Some(h))) ==> ape_at(d, p) && h.size == ape_size(d, p, footer) && 32 <= h.size <= d.len()
        &&& r matches Ok((_, None)) ==> !ape_at(d, p) && p + 8 <= d.len() && final(reader).g().at == p + 8 }),''',
   subs=[('let mut ape_preamble = [0; 8];', 'let mut ape_preamble = [0u8; 8];'), ('reader.read_exact(&mut ape_preamble)?', 'fill(reader, &mut ape_preamble)?'), ('re:&ape_preamble == APE_PREAMBLE', 'is_preamble(&ape_preamble)'), ('header::read_ape_header', 'read_ape_header')]),
Fn(W, 'find_existing_ape_tags', sig=[('<F>', '<F: Fl>'), ('where F: FileLike,', ''), ('FileParseError', 'AErr')],
   spec='''requires old(file).g().at == 0, old(file).g().data.len() < 0x2000_0000_0000_0000,
    ensures final(file).g().data == old(file).g().data, final(file).g().faulty == old(file).g().faulty,
      r matches Ok(t) ==> ({ let d = old(file).g().data; let x = match t.footer { Some(f) => f.start, None => t.write_position as usize };
        &&& t.write_position <= d.len()
        &&& t.footer matches Some(f) ==> f.start <= f.end <= d.len()
        &&& t.header matches Some(h) ==> h.start <= h.end <= x
        &&& !old(file).g().faulty ==> t.write_position == foot(d) && (match t.footer { Some(f) => trailing(d) == Some((f.start as int, f.end as int)), None => trailing(d) is None })
            && (match t.header { Some(h) => leading(d) == Some((h.start as int, h.end as int)), None => leading(d) is None }) }),''',
   subs=[('re:find_id3v2\\(file, FindId3v2Config::NO_READ_TAG\\)\\.map_err\\(TagParseError::from\\)\\?', 'find_id3v2(file)?'), ('re:\\s*\\.map_err\\(TagParseError::from\\)', '', '*'), ('re:read::read_ape_tag', 'read_ape_tag', 2),
     ('re:existing_tag\\.items\\.retain\\(\\|i\\| i\\.read_only\\);', 'only_read_only(&mut existing_tag);', 2), ('re:existing_tag\\.items\\.is_empty\\(\\)', 'is_empty(&existing_tag)', 2), ('read_only.items.extend(existing_tag.items);', 'extend(&mut read_only, existing_tag);'),
     ('re:let Some\\(start\\) = start\\.checked_sub\\((.*?)\\) else \\{(.*?)\\};', r'let start = match sub_checked(start, \1) { Some(s) => s, None => {\2} };'), ('re:SizeMismatchError\\.into\\(\\)', 'AErr {}', '*'),
     ('header_tag_location == footer_tag_location', 'same_range(&header_tag_location, &footer_tag_location)')],
   ins=[]),
Fn(W, 'write_tag', sig=[('<F>', '<F: Fl>'), ('where F: FileLike,', ''), ('FileEncodingError', 'AErr')],
   spec='''requires old(file).g().data.len() < 0x2000_0000_0000_0000, new_tag@.len() < 0x1_0000_0020, ape_tags.write_position <= old(file).g().data.len(),
      ape_tags.footer matches Some(f) ==> f.start <= f.end <= old(file).g().data.len(),
      ape_tags.header matches Some(h) ==> h.start <= h.end <= match ape_tags.footer { Some(f) => f.start, None => ape_tags.write_position as usize },
    ensures final(file).g().faulty == old(file).g().faulty, r is Err ==> old(file).g().faulty,
      r is Ok && !old(file).g().faulty ==> ({ let d = old(file).g().data; let (x, y) = match ape_tags.footer { Some(f) => (f.start as int, f.end as int), None => (ape_tags.write_position as int, ape_tags.write_position as int) };
        final(file).g().data == match ape_tags.header { Some(h) => d.take(h.start as int) + d.subrange(h.end as int, x) + new_tag@ + d.skip(y), None => d.take(x) + new_tag@ + d.skip(y) } }),''',
   subs=[('file.read_to_end(&mut file_bytes)?', 'read_to_end(file, &mut file_bytes)?'), ('re:file_bytes\\.splice\\(range, new_tag\\);', 'splice_in(&mut file_bytes, range.start, range.end, new_tag);'),
     ('re:file_bytes\\.splice\\(\\s*(.*?)\\.\\.(.*?),\\s*new_tag,?\\s*\\);', r'splice_in(&mut file_bytes, \1, \2, new_tag);'), ('file_bytes.drain(range);', 'drain_out(&mut file_bytes, range.start, range.end);'), ('file.write_all(&file_bytes)?', 'file.write_all(file_bytes.as_slice())?')],
   ins=[('start', '', 'let ghost d = file.g().data; let ghost t = new_tag@; let ghost (x, y) = match &ape_tags.footer { Some(f) => (f.start as int, f.end as int), None => (ape_tags.write_position as int, ape_tags.write_position as int) }; let ghost (hh, hs, he) = match &ape_tags.header { Some(h) => (true, h.start as int, h.end as int), None => (false, 0int, 0int) };'),
        ('before', 'if let Some(range) = ape_tags.header', 'proof { assert(file_bytes@ =~= d.take(x) + t + d.skip(y)); }'),
        ('before', 'file.rewind()?; file.truncate', 'proof { if hh { assert(file_bytes@ =~= d.take(hs) + d.subrange(he, x) + t + d.skip(y)); } }'),
        ('after', 'file.write_all(file_bytes.as_slice())?;', 'proof { assert(file.g().data =~= file_bytes@); }')]),
Fn(W, 'write_to', sig=[("<'a, F, I>", '<F: Fl>'), ("file: VerifiedFile<'_, F>", 'file: &mut F'), ("&mut ApeTagRef<'a, I>", '&mut ApeTagRef'), ('FileEncodingError', 'AErr'), ("where I: Iterator<Item = ApeItemRef<'a>>, F: FileLike,", '')],
   spec='''requires old(file).g().at == 0, old(file).g().data.len() < 0x2000_0000_0000_0000,
    ensures ({ let d = old(file).g().data; let m = made(old(tag_ref).bytes@, write_options);
      &&& r is Ok && !old(file).g().faulty ==> m is Some && final(file).g().data == saved(d, m->0)
      &&& r is Err && !old(file).g().faulty ==> final(file).g().data == d }),''',
   subs=[('let mut file = file.into_inner();', ''), ('find_existing_ape_tags(&mut file, write_options)', 'find_existing_ape_tags(file, write_options)'),
     ('re:create_ape_tag\\(\\s*tag_ref,\\s*(?:read_only\\.items\\.iter\\(\\)\\.map\\(Into::into\\)|std::iter::empty\\(\\)),\\s*write_options,?\\s*\\)\\s*\\.map_err\\(TagEncodingError::from\\)\\?', 'create_ape_tag(tag_ref, write_options)?', 2), ('write_tag(original_tags, tag, &mut file)', 'write_tag(original_tags, tag, file)')]),
'''
} // verus!
''']
