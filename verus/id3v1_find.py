"""Finding an ID3v1 tag, replacing it, adding it and removing it."""
import rd
M = 'lofty/src/id3/mod.rs'
W = 'lofty/src/id3/v1/write.rs'
ASSUMED = rd.ASSUMED + rd.FILE_ASSUMED + ['Id3v1Tag::parse and encode: their contracts of id3v1.py, of which only that encode gives 128 bytes matters here', 'write_id3v1 uses the contract of find_id3v1, stated over a file instead of a reader', 'files below 2^62 bytes']
DROPS = ['errors carry nothing', 'the file is passed as it is (the original unwraps a VerifiedFile)', 'reading into a fixed array is one call']
RD = rd.prelude('IErr')
FL = rd.file_prelude('IErr')
# one SeekFrom and one target() for both
FL = FL[FL.index('/// The ghost state of a file'):]
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IErr {}
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
''', RD, FL, '''
pub open spec fn marker() -> Seq<u8> { seq![0x54u8, 0x41, 0x47] }
pub open spec fn preamble() -> Seq<u8> { seq![0x41u8, 0x50, 0x45, 0x54, 0x41, 0x47, 0x45, 0x58] }
/// the last 128 bytes are an ID3v1 tag, and not the end of an APE tag
pub open spec fn has_tag(d: Seq<u8>) -> bool {
    d.len() >= 128 && d.subrange(d.len() - 128, d.len() - 125) == marker() && !(d.len() >= 131 && d.subrange(d.len() - 131, d.len() - 123) == preamble())
}
pub struct ID3FindResults<H, C>(pub Option<H>, pub C);
pub struct Id3v1Tag { pub of: Ghost<Seq<u8>> }
pub uninterp spec fn parses(b: Seq<u8>, strict: bool) -> bool;
impl Id3v1Tag {
    #[verifier::external_body]
    fn parse(b: [u8; 128], m: ParsingMode) -> (r: Result<Id3v1Tag, IErr>) ensures r matches Ok(t) ==> t.of@ == b@, r is Ok <==> parses(b@, m is Strict) { unimplemented!() }
}
#[verifier::external_body]
fn is_marker(b: &[u8; 3]) -> (r: bool) ensures r == (b@ == marker()) { unimplemented!() }
#[verifier::external_body]
fn is_preamble(b: &[u8; 8]) -> (r: bool) ensures r == (b@ == preamble()) { unimplemented!() }
pub trait Filled<R: Rd> { }
#[verifier::external_body]
fn fill<R: Rd, const N: usize>(r: &mut R, b: &mut [u8; N]) -> (x: Result<(), IErr>)
    ensures same(final(r).g(), old(r).g()),
        x is Ok ==> avail(old(r).g(), N as int) && moved(final(r).g(), old(r).g(), N as int) && final(b)@ == next(old(r).g(), N as int),
        x is Err ==> old(r).g().faulty || !avail(old(r).g(), N as int)
{ unimplemented!() }
''',
Fn(M, 'is_ape_preamble', sig=[('std::io::Result', 'IoResult'), ('R: Read + Seek', 'R: Rd')],
   spec='''requires old(data).g().at + 8 <= old(data).g().data.len(), old(data).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(data).g(), old(data).g()), r is Err ==> old(data).g().faulty,
      r matches Ok(b) ==> final(data).g().at == old(data).g().at && b == (old(data).g().at >= 3 && old(data).g().data.subrange(old(data).g().at - 3, old(data).g().at + 5) == preamble()),''',
   subs=[('let mut preamble = [0; APE_PREAMBLE.len()];', 'let mut preamble = [0u8; 8];'), ('data.read_exact(&mut preamble)?', 'fill(data, &mut preamble)?'), ('preamble == *APE_PREAMBLE', 'is_preamble(&preamble)'), ('const BYTES_BEFORE: usize = 3;', 'let BYTES_BEFORE: usize = 3;')]),
Fn(M, 'find_id3v1', sig=[('R: Read + Seek', 'R: Rd'), ('Option<v1::tag::Id3v1Tag>', 'Option<Id3v1Tag>'), ('Id3v1ParseError', 'IErr')],
   spec='''requires old(data).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(data).g(), old(data).g()),
      r matches Ok(f) ==> (!old(data).g().faulty ==> (f.0 is Some) == has_tag(old(data).g().data)) && (f.0 is Some ==> has_tag(old(data).g().data)) && (if f.0 is Some { final(data).g().at == old(data).g().data.len() - 128 } else { final(data).g().at == old(data).g().data.len() })
         && (f.1 is Some) == (f.0 is Some && read) && (f.1 matches Some(t) ==> t.of@ == old(data).g().data.skip(old(data).g().data.len() - 128)),
      r is Err ==> old(data).g().faulty || (read && has_tag(old(data).g().data) && !parses(old(data).g().data.skip(old(data).g().data.len() - 128), parse_mode is Strict)),''',
   subs=[('data.seek(SeekFrom::End(-128)).is_err()', 'failed(data.seek(SeekFrom::End(-128)))'), ('let mut id3v1_header = [0; 3];', 'let mut id3v1_header = [0u8; 3];'), ('data.read_exact(&mut id3v1_header)?', 'fill(data, &mut id3v1_header)?'),
     ('id3v1_header != ID3V1_TAG_MARKER', '!is_marker(&id3v1_header)'), ('let mut id3v1_tag = [0; 128];', 'let mut id3v1_tag = [0u8; 128];'), ('data.read_exact(&mut id3v1_tag)?', 'fill(data, &mut id3v1_tag)?'), ('v1::tag::Id3v1Tag::parse', 'Id3v1Tag::parse')],
   ins=[('after', 'fill(data, &mut id3v1_header)?;', 'proof { let d = old(data).g().data; assert(id3v1_header@ == d.subrange(d.len() - 128, d.len() - 125)); }'),
     ('after', 'fill(data, &mut id3v1_tag)?;', 'proof { let d = old(data).g().data; assert(id3v1_tag@ =~= d.skip(d.len() - 128)); }')]),
'''
fn failed(r: Result<u64, IErr>) -> (b: bool) ensures b == (r is Err) { r.is_err() }
type IoResult<T> = core::result::Result<T, IErr>;
pub struct ParseOptions { pub parsing_mode: ParsingMode }
pub struct WriteOptions { pub parse_options: ParseOptions }
impl Copy for ParsingMode {} impl Clone for ParsingMode { fn clone(&self) -> Self { *self } }
impl Copy for ParseOptions {} impl Clone for ParseOptions { fn clone(&self) -> Self { *self } }
impl Copy for WriteOptions {} impl Clone for WriteOptions { fn clone(&self) -> Self { *self } }
pub struct Id3v1TagRef { pub empty: bool, pub bytes: Ghost<Option<Seq<u8>>> }
impl Id3v1TagRef { fn is_empty(&self) -> (r: bool) ensures r == self.empty { self.empty } }
#[verifier::external_body]
fn encode(tag: &Id3v1TagRef, o: WriteOptions) -> (r: Result<Vec<u8>, IErr>)
    ensures r matches Ok(v) ==> v@.len() == 128 && tag.bytes@ == Some(v@), r is Err <==> tag.bytes@ is None
{ unimplemented!() }
#[verifier::external_body]
fn find_in_file<F: Fl>(f: &mut F, read: bool, m: ParsingMode) -> (r: Result<ID3FindResults<(), Option<Id3v1Tag>>, IErr>)
    requires !read,
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty,
      r matches Ok(x) ==> (!old(f).g().faulty ==> (x.0 is Some) == has_tag(old(f).g().data)) && (x.0 is Some ==> has_tag(old(f).g().data)) && final(f).g().at == old(f).g().data.len() - (if x.0 is Some { 128int } else { 0 }), r is Err ==> old(f).g().faulty
{ unimplemented!() }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a < b { 0 } else { a - b } { if a < b { 0 } else { a - b } }
''',
Fn(W, 'write_id3v1', sig=[("file: VerifiedFile<'_, F>", 'file: &mut F'), ("&Id3v1TagRef<'_>", '&Id3v1TagRef'), ('FileEncodingError', 'IErr'), ('F: FileLike', 'F: Fl')],
   spec='''requires old(file).g().data.len() < 0x4000_0000_0000_0000,
    ensures ({ let d = old(file).g().data; let keep = if has_tag(d) { d.take(d.len() - 128) } else { d };
       &&& r is Ok && !old(file).g().faulty ==> final(file).g().data == (if tag.empty { keep } else { keep + tag.bytes@.unwrap() })
       &&& r is Err ==> old(file).g().faulty || (!tag.empty && tag.bytes@ is None && final(file).g().data == d) }),''',
   subs=[('let mut file = file.into_inner();', ''), ('find_id3v1(&mut file, false, write_options.parse_options.parsing_mode) .map_err(TagParseError::from)?', 'find_in_file(file, false, write_options.parse_options.parsing_mode)?'),
      ('file.len()?.saturating_sub(128)', 'sat_sub(file.len()?, 128)'), ('encode(tag, write_options).map_err(TagEncodingError::from)?', 'encode(tag, write_options)?'), ('file.write_all(&tag)?', 'file.write_all(tag.as_slice())?')],
   ins=[('after', 'file.write_all(tag.as_slice())?;', 'proof { assert(file.g().data =~= (if at0 < d0.len() { d0.take(d0.len() - 128) } else { d0 }) + tag@); }'),('start', '', 'let ghost d0 = file.g().data;'), ('before', 'if tag.is_empty()', 'let ghost at0 = file.g().at;')]),
'''
} // verus!
''']
