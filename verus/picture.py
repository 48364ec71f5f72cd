"""Pictures: FLAC blocks and APE items round-trip; PNG and JPEG headers."""
M = 'lofty/src/picture/mod.rs'
ASSUMED = ['a Cursor or slice reader reads the bytes at its position and fails exactly when they run out', 'str::from_utf8 accepts exactly some set of byte strings; text is the bytes it encodes', 'base64 decoding inverts encoding', 'MimeType::{from_str, as_str} (executed)', 'appending to a Vec appends', 'texts and data below 4 GiB']
DROPS = ['errors carry nothing', 'text is the bytes it encodes', 'Cow is the value it holds', 'the slice readers become cursors at the same position', 'patterns of byte arrays become comparisons of the same bytes', '`while let` over reads becomes a loop that stops when one fails']


def pat(m):
    """[a, b, ..] as a helper call on the first bytes, with alternatives"""
    arms = []
    for one in re.split(r'\|(?![^\[]*\])', m):
        bs = [x.strip() for x in one.strip().strip('[]').split(',')]
        opened = bs[-1] == '..'
        bs = [x for x in bs if x not in ('..', '')]
        arms.append('(' + ' && '.join([f'bytes.len() {">=" if opened else "=="} {len(bs)}'] + ['(' + ' || '.join(f'bytes[{i}] == {num(y)}' for y in b.split('|')) + ')' for i, b in enumerate(bs)]) + ')')
    return ' || '.join(arms)


def num(x):
    x = x.strip()
    return f'{ord(x[2])}u8' if x.startswith("b'") else x + 'u8'


def guess(Src):
    """mimetype_from_bin: a match over slice patterns, as an if chain"""
    s, body = Src(M).fn('mimetype_from_bin', 'impl Picture')
    m = re.search(r'match \*bytes \{(.*?)_ => Err\(UnknownImageFormatError\),\s*\}', body, re.S)
    if not m:
        raise Lost('mimetype_from_bin')
    arms = re.findall(r'((?:\[[^\]]*\]\s*\|?\s*)+)=> Ok\((MimeType::\w+)\),', m[1])
    if len(arms) != m[1].count('=>'):
        raise Lost('mimetype_from_bin: arms')
    return ('    pub fn mimetype_from_bin(bytes: &[u8]) -> (r: Result<MimeType, PErr>) ensures r matches Ok(v) ==> kind_of(bytes@) == Some(v), r is Err ==> kind_of(bytes@) is None\n{ '
            + ' else '.join(f'if {pat(a)} {{ Ok({v}) }}' for a, v in arms) + ' else { Err(PErr {}) } }\n')


import re
ERRS = [('re:(?:UnknownImageFormatError|SizeMismatchError)\\.into\\(\\)', 'PErr {}', '*'), ('re:NotEnoughDataError::new\\([^;]*?\\)\\.into\\(\\)\\)', 'PErr {})', '*'), ('re:PictureParseError::message\\(format!\\([^;]*?\\)\\)\\)', 'PErr {})', '*')]
SEEK = ('re:reader\\.seek\\(SeekFrom::Current\\(((?:[^()]|\\((?:[^()]|\\([^()]*\\))*\\))*)\\)\\)', r'reader.forward(\1)', '*')
SIGS = [('PictureParseError', 'PErr')]
INT = ('re:(u32|i64)::from\\((\\w+(?:\\.read_u8\\(\\)\\?|\\.read_u16::<BigEndian>\\(\\)\\?)?)\\)', r'((\2) as \1)', '*')
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct PErr {}
pub struct BigEndian;
pub open spec fn b16(d: Seq<u8>, p: int) -> nat { (d[p] * 256 + d[p + 1]) as nat }
pub open spec fn b32(d: Seq<u8>, p: int) -> nat { (d[p] * 0x100_0000 + d[p + 1] * 0x1_0000 + d[p + 2] * 256 + d[p + 3]) as nat }
fn add4(a: u32) -> (r: (u32, bool)) ensures r.1 == (a + 4 > 0xFFFF_FFFF), !r.1 ==> r.0 == a + 4 { (a.wrapping_add(4), a > 0xFFFF_FFFB) }
/// a reader over bytes
#[verifier::external_body]
pub struct Cur {}
impl Cur {
    pub uninterp spec fn d(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn new(b: &[u8]) -> (r: Cur) ensures r.d() == b@, r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, PErr>) ensures final(self).d() == old(self).d(), final(self).at() >= old(self).at(), (r is Ok) == (old(self).at() + 1 <= old(self).d().len()), r matches Ok(v) ==> v == old(self).d()[old(self).at()] && final(self).at() == old(self).at() + 1 { unimplemented!() }
    #[verifier::external_body]
    fn read_u16<O>(&mut self) -> (r: Result<u16, PErr>) ensures final(self).d() == old(self).d(), (r is Ok) == (old(self).at() + 2 <= old(self).d().len()), r matches Ok(v) ==> v == b16(old(self).d(), old(self).at()) && final(self).at() == old(self).at() + 2 { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<O>(&mut self) -> (r: Result<u32, PErr>) ensures final(self).d() == old(self).d(), (r is Ok) == (old(self).at() + 4 <= old(self).d().len()), r matches Ok(v) ==> v == b32(old(self).d(), old(self).at()) && final(self).at() == old(self).at() + 4 { unimplemented!() }
    #[verifier::external_body]
    fn read_exact<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: Result<(), PErr>) ensures final(self).d() == old(self).d(), (r is Ok) == (old(self).at() + N <= old(self).d().len()), r is Ok ==> final(b)@ == old(self).d().subrange(old(self).at(), old(self).at() + N) && final(self).at() == old(self).at() + N { unimplemented!() }
    #[verifier::external_body]
    fn read_vec(&mut self, b: &mut Vec<u8>) -> (r: Result<(), PErr>) ensures final(self).d() == old(self).d(), (r is Ok) == (old(self).at() + old(b)@.len() <= old(self).d().len()), r is Ok ==> final(b)@ == old(self).d().subrange(old(self).at(), old(self).at() + old(b)@.len()) && final(self).at() == old(self).at() + old(b)@.len() { unimplemented!() }
    #[verifier::external_body]
    fn forward(&mut self, n: i64) -> (r: Result<(), PErr>) requires n >= 0, old(self).at() + n < 0x7FFF_FFFF_FFFF_FFFF, ensures r is Ok, final(self).d() == old(self).d(), final(self).at() == old(self).at() + n { unimplemented!() }
}
fn same<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@)
{
    let mut i = 0;
    while i < N invariant i <= N, forall|k: int| 0 <= k < i ==> a[k] == b[k], decreases N - i, {
        if a[i] != b[i] { proof { assert(a@[i as int] != b@[i as int]); } return false; }
        i = i + 1;
    }
    proof { assert(a@ =~= b@); }
    true
}
fn tail_is(a: &[u8; 8], b: &[u8; 4]) -> (r: bool) ensures r == (a@.skip(4) == b@)
{ proof { if a@.skip(4) == b@ { assert(a@.skip(4)[0] == b@[0] && a@.skip(4)[1] == b@[1] && a@.skip(4)[2] == b@[2] && a@.skip(4)[3] == b@[3]); } else if a[4] == b[0] && a[5] == b[1] && a[6] == b[2] && a[7] == b[3] { assert(a@.skip(4) =~= b@); } }
  a[4] == b[0] && a[5] == b[1] && a[6] == b[2] && a[7] == b[3] }
/// a text, as bytes
#[verifier::external_body]
pub struct Text {}
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn valid(b: Seq<u8>) -> bool;
pub open spec fn trimmed(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && b.last() == 0 { trimmed(b.drop_last()) } else { b } }
#[verifier::external_body]
fn utf8_decode_str(b: &[u8]) -> (r: Result<Text, PErr>) ensures (r is Ok) == valid(b@), r matches Ok(t) ==> t@ == trimmed(b@) { unimplemented!() }
impl Text {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn from_utf8_or_latin1(v: Vec<u8>) -> (r: Text) ensures r@ == (if valid(v@) { v@ } else { latin1(v@) }) { unimplemented!() }
}
/// bytes as Latin-1 text
pub uninterp spec fn latin1(b: Seq<u8>) -> Seq<u8>;
pub enum MimeType { Png, Jpeg, Tiff, Bmp, Gif, Unknown(Text) }
pub uninterp spec fn mime_of(t: Seq<u8>) -> MimeType;
pub uninterp spec fn mime_text(m: MimeType) -> Seq<u8>;
impl MimeType {
    #[verifier::external_body]
    fn from_str(t: Text) -> (r: MimeType) ensures r == mime_of(t@) { unimplemented!() }
}
/// the signature of an image
pub open spec fn starts(b: Seq<u8>, s: Seq<u8>) -> bool { b.len() >= s.len() && b.take(s.len() as int) == s }
pub open spec fn kind_of(b: Seq<u8>) -> Option<MimeType> {
    if b.len() >= 8 && b[0] == 0x89 && b[1] == 0x50 && b[2] == 0x4E && b[3] == 0x47 && b[4] == 0x0D && b[5] == 0x0A && b[6] == 0x1A && b[7] == 0x0A { Some(MimeType::Png) }
    else if b.len() >= 2 && b[0] == 0xFF && b[1] == 0xD8 { Some(MimeType::Jpeg) }
    else if b.len() >= 6 && b[0] == 0x47 && b[1] == 0x49 && b[2] == 0x46 && b[3] == 0x38 && (b[4] == 0x37 || b[4] == 0x39) && b[5] == 0x61 { Some(MimeType::Gif) }
    else if b.len() >= 2 && b[0] == 0x42 && b[1] == 0x4D { Some(MimeType::Bmp) }
    else if b.len() >= 4 && ((b[0] == 0x49 && b[1] == 0x49 && b[2] == 0x2A && b[3] == 0) || (b[0] == 0x4D && b[1] == 0x4D && b[2] == 0 && b[3] == 0x2A)) { Some(MimeType::Tiff) }
    else { None }
}
''', Item(M, 'enum', 'PictureType'), '''
impl PictureType {
''', Fn(M, 'as_u8', impl='impl PictureType', spec='ensures r == ty_code(*self),'),
Fn(M, 'from_u8', impl='impl PictureType', spec='ensures ty_code(r) == byte, named(r),'),
'''
    #[verifier::external_body]
    fn from_ape_key(key: &Text) -> (r: PictureType) ensures r == ape_ty(key@) { unimplemented!() }
}
pub uninterp spec fn ape_ty(key: Seq<u8>) -> PictureType;
pub open spec fn ty_code(t: PictureType) -> u8 {
    match t { PictureType::Other => 0, PictureType::Icon => 1, PictureType::OtherIcon => 2, PictureType::CoverFront => 3, PictureType::CoverBack => 4, PictureType::Leaflet => 5, PictureType::Media => 6,
      PictureType::LeadArtist => 7, PictureType::Artist => 8, PictureType::Conductor => 9, PictureType::Band => 10, PictureType::Composer => 11, PictureType::Lyricist => 12, PictureType::RecordingLocation => 13,
      PictureType::DuringRecording => 14, PictureType::DuringPerformance => 15, PictureType::ScreenCapture => 16, PictureType::BrightFish => 17, PictureType::Illustration => 18, PictureType::BandLogo => 19, PictureType::PublisherLogo => 20, PictureType::Undefined(i) => i }
}
/// the types that have a code of their own
pub open spec fn named(t: PictureType) -> bool { t matches PictureType::Undefined(i) ==> i > 20 }
pub proof fn one_code(a: PictureType, b: PictureType) requires named(a), named(b), ty_code(a) == ty_code(b), ensures a == b {}
''']

PARTS += [Item(M, 'struct', 'PictureInformation'), '''
pub struct Picture { pub pic_type: PictureType, pub mime_type: Option<MimeType>, pub description: Option<Text>, pub data: Vec<u8> }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
fn strict(m: ParsingMode) -> (r: bool) ensures r == (m == ParsingMode::Strict) { match m { ParsingMode::Strict => true, _ => false } }
pub open spec fn png_sig() -> Seq<u8> { seq![0x89u8, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A] }
pub open spec fn png_ok(d: Seq<u8>) -> bool { d.len() >= 26 && d.take(8) == png_sig() && d.subrange(12, 16) == seq![0x49u8, 0x48, 0x44, 0x52] }
pub open spec fn channels(color_type: u8) -> int { if color_type == 2 { 3 } else if color_type == 4 { 2 } else if color_type == 6 { 4 } else { 1 } }
/// the number of colours in the palette chunk, looked for from p on
pub open spec fn palette(d: Seq<u8>, p: int) -> nat decreases (if p < d.len() { d.len() - p } else { 0 }) {
    if p < 0 || p + 8 > d.len() { 0 } else if d.subrange(p + 4, p + 8) == seq![0x50u8, 0x4C, 0x54, 0x45] { b32(d, p) / 3 } else if b32(d, p) + 4 > 0xFFFF_FFFF { 0 } else { palette(d, p + 8 + b32(d, p) + 4) }
}
/// the frame header of a JPEG, looked for from p on
pub open spec fn frame(d: Seq<u8>, p: int) -> Option<int> decreases (if p < d.len() { d.len() - p } else { 0 }) {
    if p < 0 || p + 4 > d.len() || d[p] != 0xFF || d[p + 1] == 0xDA { None }
    else if d[p + 1] == 0xC0 || d[p + 1] == 0xC2 { if p + 10 <= d.len() { Some(p + 4) } else { None } }
    else if b16(d, p + 2) < 2 { None }
    else { frame(d, p + 2 + b16(d, p + 2)) }
}
pub open spec fn jpeg_frame(d: Seq<u8>) -> Option<int> { if d.len() >= 6 && d[0] == 0xFF && d[1] == 0xD8 && d[2] == 0xFF && b16(d, 4) >= 2 { frame(d, (4 + b16(d, 4)) as int) } else { None } }
fn is_jpeg(a: &[u8; 4]) -> (r: bool) ensures r == (a[0] == 0xFF && a[1] == 0xD8 && a[2] == 0xFF) { a[0] == 0xFF && a[1] == 0xD8 && a[2] == 0xFF }
impl PictureInformation {
''',
Fn(M, 'from_png', impl='impl PictureInformation', sig=SIGS + [('mut data: &[u8]', 'data: &[u8]')], head='#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n',
   spec='''requires data@.len() < 0x1000_0000_0000_0000,
    ensures r is Ok <==> png_ok(data@),
      r matches Ok(i) ==> i.width == b32(data@, 16) && i.height == b32(data@, 20) && i.color_depth == data@[24] * channels(data@[25]) && i.num_colors == (if data@[25] == 3 { palette(data@, 33) } else { 0 }),''',
   subs=ERRS + [('let reader = &mut data;', 'let mut reader = Cur::new(data);'), ('let mut reader = Cursor::new(reader);', ''), SEEK, INT,
     ('re:= \\[0; (\\d)\\]', r'= [0u8; \1]', '*'), ('re:sig != \\[([^\\]]*)\\]', lambda m: '!same(&sig, &[' + ', '.join(num(x) for x in m[1].split(',')) + '])'),
     ('re:!ihdr\\.ends_with\\(&\\[([^\\]]*)\\]\\)', r'!tail_is(&ihdr, &[\1])'),
     ('re:while let \\(Ok\\((\\w+)\\), Ok\\(\\(\\)\\)\\) = \\((.*?),\\s*(reader\\.read_exact\\(&mut chunk_type\\)),?\\s*\\) \\{', r'loop { let first = \2; let second = \3; if first.is_err() || second.is_err() { break; } let \1 = first?;'),
     ('re:&chunk_type == b"(.)(.)(.)(.)"', lambda m: 'same(&chunk_type, &[' + ', '.join(f'{ord(c)}u8' for c in m.groups()) + '])'),
     ('re:(\\w+)\\.overflowing_add\\(4\\)', r'add4(\1)')],
   loops=['''invariant_except_break reader.d() == d, reader.at() >= 0, ret.num_colors == 0, palette(d, 33) == palette(d, reader.at()), reader.at() < d.len() + 0x2_0000_0000,
      invariant ret.width == b32(d, 16), ret.height == b32(d, 20), ret.color_depth == d[24] * channels(d[25]),
      ensures ret.num_colors == palette(d, 33),
      decreases d.len() + 0x2_0000_0000 - reader.at(),'''],
   ins=[('start', '', 'let ghost d = data@;'),
     ('before', 'let mut ihdr', 'proof { assert(sig@ =~= d.take(8)); }'), ('before', 'if !same(&sig,', 'proof { assert(sig@ =~= d.take(8)); assert([0x89u8, 0x50u8, 0x4Eu8, 0x47u8, 0x0Du8, 0x0Au8, 0x1Au8, 0x0Au8]@ =~= png_sig()); }'), ('before', 'if !tail_is(&ihdr', 'proof { assert(ihdr@.skip(4) =~= d.subrange(12, 16)); assert([0x49u8, 0x48, 0x44, 0x52]@ =~= seq![0x49u8, 0x48, 0x44, 0x52]); }'), ('before', 'let width = reader', 'proof { assert(sig@ =~= d.take(8)); assert(ihdr@.skip(4) =~= d.subrange(12, 16)); }'), ('after', 'let first = reader.read_u32::<BigEndian>();', 'proof { }')]),
Fn(M, 'from_jpeg', impl='impl PictureInformation', sig=SIGS + [('mut data: &[u8]', 'data: &[u8]')], head='#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n',
   spec='''requires data@.len() < 0x1000_0000_0000_0000,
    ensures r is Ok <==> jpeg_frame(data@) is Some,
      r matches Ok(i) ==> ({ let f = jpeg_frame(data@)->0; i.color_depth == data@[f] * data@[f + 5] && i.height == b16(data@, f + 1) && i.width == b16(data@, f + 3) && i.num_colors == 0 }),''',
   subs=ERRS + [('let reader = &mut data;', 'let mut reader = Cur::new(data);'), ('let mut reader = Cursor::new(reader);', ''), SEEK, INT,
     ('re:= \\[0; (\\d)\\]', r'= [0u8; \1]', '*'), ('re:!matches!\\(frame_marker, \\[0xFF, 0xD8, 0xFF, \\.\\.\\]\\)', '!is_jpeg(&frame_marker)'),
     ('re:let Some\\((\\w+)\\) = ([\\w.]+\\(2\\)) else \\{(.*?)\\};', r'let less = \2; if less.is_none() {\3} let \1 = less.unwrap();', '*'),
     ('re:while let Ok\\(0xFF\\) = reader\\.read_u8\\(\\) \\{', 'loop { let first = reader.read_u8(); if first.is_err() { break; } if first? != 0xFF { break; }')],
   loops=['''invariant_except_break reader.at() >= 0, jpeg_frame(d) == frame(d, reader.at()), reader.at() < d.len() + 0x2_0000,
      invariant reader.d() == d,
      ensures jpeg_frame(d) is None,
      decreases d.len() + 0x2_0000 - reader.at(),'''],
   ins=[('start', '', 'let ghost d = data@;'), ('before', 'return Ok(Self {', 'proof { let a = precision as int; let b = components as int; assert(0 <= a * b <= 255 * 255) by (nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255; }'), ('before', 'if !is_jpeg(&frame_marker)', 'proof { assert(frame_marker@ =~= d.take(4)); assert(frame_marker@[0] == d[0] && frame_marker@[1] == d[1] && frame_marker@[2] == d[2]); }')]),
'''}
''']
BYTES = [('re:u32::from\\((self\\.pic_type\\.as_u8\\(\\))\\)\\.to_be_bytes\\(\\)', r'be((\1) as u32)', '*'), ('re:data\\.extend\\(([\\w.]+?)\\.to_be_bytes\\(\\)\\);', r'put(&mut data, be(\1).as_slice());', '*'),
   ('re:data\\.extend\\((\\w+)\\);', r'put(&mut data, \1.as_slice());', '*'), ('re:data\\.extend\\((\\w+\\.as_bytes\\(\\))\\);', r'put(&mut data, \1);', '*'), ('re:data\\.extend\\(\\[0; (\\d)\\]\\);', r'put(&mut data, zero_bytes::<\1>().as_slice());', '*'),
   ('re:data\\.extend\\(([\\w.]+)\\.iter\\(\\)\\);', r'put(&mut data, \1.as_slice());', '*')]
PARTS += ['''
pub open spec fn be4(n: u32) -> Seq<u8> { seq![(n / 0x100_0000) as u8, (n / 0x1_0000 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
#[verifier::external_body]
fn be(n: u32) -> (r: [u8; 4]) ensures r@ == be4(n) { n.to_be_bytes() }
#[verifier::external_body]
fn put(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { v.extend_from_slice(b) }
fn zero_bytes<const N: usize>() -> (r: [u8; N]) ensures r@ == Seq::new(N as nat, |k: int| 0u8) { let r = [0u8; N]; proof { assert(r@ =~= Seq::new(N as nat, |k: int| 0u8)); } r }
pub uninterp spec fn limit_reached(n: int) -> bool;
#[verifier::external_body]
fn zeros(n: usize) -> (r: Result<Vec<u8>, PErr>) ensures r matches Ok(v) ==> v@.len() == n, r is Err ==> limit_reached(n as int) { unimplemented!() }
pub uninterp spec fn b64(d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn un64(d: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
fn b64_encode(d: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == b64(d@) { unimplemented!() }
#[verifier::external_body]
fn b64_decode(d: &[u8]) -> (r: Result<Vec<u8>, PErr>) ensures r matches Ok(v) ==> un64(d@) == Some(v@), r is Err ==> un64(d@) is None { unimplemented!() }
/// base64 loses nothing
#[verifier::external_body]
pub proof fn base64(d: Seq<u8>) ensures un64(b64(d)) == Some(d) {}
fn text_in(c: &[u8], a: usize, b: usize) -> (r: Result<Text, PErr>) requires a <= b <= c@.len(), ensures (r is Ok) == valid(c@.subrange(a as int, b as int)), r matches Ok(t) ==> t@ == trimmed(c@.subrange(a as int, b as int))
{ utf8_decode_str(vstd::slice::slice_subrange(c, a, b)) }
fn low_byte(n: u32) -> (r: u8) ensures r == n % 256 { proof { assert((#[verifier::truncate] (n as u8)) as u32 == n % 256) by (bit_vector); } #[verifier::truncate] (n as u8) }
/// what a picture block says
pub struct Pic { pub ty: u8, pub mime: Seq<u8>, pub desc: Seq<u8>, pub width: u32, pub height: u32, pub depth: u32, pub colors: u32, pub data: Seq<u8> }
pub open spec fn enc(p: Pic) -> Seq<u8> {
    be4(p.ty as u32) + be4(p.mime.len() as u32) + p.mime + be4(p.desc.len() as u32) + p.desc + be4(p.width) + be4(p.height) + be4(p.depth) + be4(p.colors) + be4(p.data.len() as u32) + p.data
}
pub open spec fn mime_bytes(m: Option<MimeType>) -> Seq<u8> { match m { Some(m) => mime_text(m), None => seq![] } }
pub open spec fn desc_bytes_of(m: Option<Text>) -> Seq<u8> { match m { Some(m) => m@, None => seq![] } }
pub open spec fn pic(p: Picture, i: PictureInformation) -> Pic { Pic { ty: ty_code(p.pic_type), mime: mime_bytes(p.mime_type), desc: desc_bytes_of(p.description), width: i.width, height: i.height, depth: i.color_depth, colors: i.num_colors, data: p.data@ } }
pub open spec fn small(p: Pic) -> bool { p.mime.len() <= 0xFFFF_FFFF && p.desc.len() <= 0xFFFF_FFFF && p.data.len() <= 0xFFFF_FFFF }
/// where the fixed fields of a block are
pub open spec fn fields(c: Seq<u8>) -> int { let m = b32(c, 4) as int; let n = b32(c, 8 + m) as int; 12 + m + (if 0 < n && n < c.len() - 12 - m { n } else { 0 }) }
pub open spec fn readable(c: Seq<u8>, strictly: bool) -> bool {
    let m = b32(c, 4) as int; let f = fields(c);
    &&& c.len() >= 32 && !(strictly && b32(c, 0) > 255)
    &&& 8 + m <= c.len() && valid(c.subrange(8, 8 + m)) && 12 + m <= c.len()
    &&& f + 20 <= c.len() && f + 20 + b32(c, f + 16) <= c.len()
}
pub open spec fn decoded(c: Seq<u8>, p: Picture, i: PictureInformation) -> bool {
    let m = b32(c, 4) as int; let f = fields(c);
    let mime = trimmed(c.subrange(8, 8 + m)); let text = c.subrange(12 + m, f);
    &&& ty_code(p.pic_type) == b32(c, 0) % 256 && named(p.pic_type)
    &&& p.mime_type == (if mime.len() == 0 { None } else { Some(mime_of(mime)) })
    &&& (p.description is Some) == (f > 12 + m && valid(text))
    &&& p.description matches Some(t) ==> t@ == trimmed(text)
    &&& i.width == b32(c, f) && i.height == b32(c, f + 4) && i.color_depth == b32(c, f + 8) && i.num_colors == b32(c, f + 12)
    &&& p.data@ == c.subrange(f + 20, f + 20 + b32(c, f + 16))
}
proof fn read32(c: Seq<u8>, k: int, n: u32) requires 0 <= k, k + 4 <= c.len(), c.subrange(k, k + 4) == be4(n), ensures b32(c, k) == n
{
    let x = c.subrange(k, k + 4);
    assert(c[k] == x[0] && c[k + 1] == x[1] && c[k + 2] == x[2] && c[k + 3] == x[3]);
    assert(n == (n / 0x100_0000) * 0x100_0000 + (n / 0x1_0000 % 256) * 0x1_0000 + (n / 256 % 256) * 256 + n % 256);
}
/// what begins with a and x begins with a, and x comes next
proof fn next(c: Seq<u8>, a: Seq<u8>, x: Seq<u8>) requires starts(c, a + x), ensures starts(c, a), c.subrange(a.len() as int, (a.len() + x.len()) as int) == x
{
    let s = a + x;
    assert(forall|k: int| 0 <= k < s.len() ==> c[k] == c.take(s.len() as int)[k]);
    assert(c.take(a.len() as int) =~= a);
    assert(c.subrange(a.len() as int, (a.len() + x.len()) as int) =~= x);
}
proof fn next4(c: Seq<u8>, a: Seq<u8>, n: u32) requires starts(c, a + be4(n)), ensures starts(c, a), b32(c, a.len() as int) == n, a.len() + 4 <= c.len()
{ next(c, a, be4(n)); read32(c, a.len() as int, n); }
/// a block is read as it was written
pub proof fn round_trip(p: Pic, strictly: bool)
    requires small(p), valid(p.mime), 32 <= enc(p).len(),
    ensures ({ let c = enc(p); let f = fields(c);
        &&& readable(c, strictly) && b32(c, 0) == p.ty && c.subrange(8, 8 + b32(c, 4) as int) == p.mime
        &&& f == 12 + p.mime.len() + p.desc.len() && c.subrange(12 + b32(c, 4) as int, f) == p.desc
        &&& b32(c, f) == p.width && b32(c, f + 4) == p.height && b32(c, f + 8) == p.depth && b32(c, f + 12) == p.colors
        &&& c.subrange(f + 20, f + 20 + b32(c, f + 16)) == p.data }),
{
    hide(be4); hide(b32); hide(starts);
    let c = enc(p);
    let l = p.mime.len() as u32; let dl = p.desc.len() as u32; let tl = p.data.len() as u32;
    assert(forall|n: u32| (#[trigger] be4(n)).len() == 4) by { reveal(be4); }
    let z = Seq::<u8>::empty();
    let a1 = be4(p.ty as u32); let b1 = a1 + be4(l); let a2 = b1 + p.mime; let b2 = a2 + be4(dl); let a3 = b2 + p.desc; let a4 = a3 + be4(p.width); let a5 = a4 + be4(p.height); let a6 = a5 + be4(p.depth); let a7 = a6 + be4(p.colors); let b7 = a7 + be4(tl);
    assert(c == b7 + p.data);
    assert(starts(c, b7 + p.data)) by { reveal(starts); assert(c.take(c.len() as int) =~= c); }
    next(c, b7, p.data);
    next4(c, a7, tl); next4(c, a6, p.colors); next4(c, a5, p.depth); next4(c, a4, p.height); next4(c, a3, p.width);
    next(c, b2, p.desc);
    next4(c, a2, dl);
    next(c, b1, p.mime);
    next4(c, a1, l);
    assert(z + be4(p.ty as u32) =~= a1);
    next4(c, z, p.ty as u32);
    assert(a3.len() == 12 + p.mime.len() + p.desc.len());
    assert(c.len() == a3.len() + 20 + p.data.len());
}
/// a text without null characters at its end is all that is read of it
pub open spec fn plain(t: Seq<u8>) -> bool { valid(t) && (t.len() > 0 ==> t.last() != 0) }
/// a picture read from the block it was written to is the same
pub proof fn same_picture(p: Picture, i: PictureInformation, q: Picture, j: PictureInformation)
    requires small(pic(p, i)), plain(mime_bytes(p.mime_type)), p.mime_type matches Some(m) ==> mime_text(m).len() > 0 && mime_of(mime_text(m)) == m,
      p.description matches Some(t) ==> t@.len() > 0 && plain(t@), named(p.pic_type), decoded(enc(pic(p, i)), q, j), enc(pic(p, i)).len() >= 32,
    ensures q.pic_type == p.pic_type, q.mime_type == p.mime_type, (q.description is Some) == (p.description is Some), p.description matches Some(t) ==> q.description->0@ == t@, j == i, q.data@ == p.data@,
{ round_trip(pic(p, i), true); one_code(p.pic_type, q.pic_type); }
pub open spec fn nul(b: Seq<u8>, p: int) -> int decreases b.len() - p { if p < 0 || p >= b.len() { b.len() as int } else if b[p] == 0 { p } else { nul(b, p + 1) } }
pub open spec fn ape_ok(b: Seq<u8>) -> bool { let z = nul(b, 0); z + 9 <= b.len() && kind_of(b.subrange(z + 1, z + 9)) is Some }
pub open spec fn text_of(b: Seq<u8>) -> Seq<u8> { if valid(b) { b } else { latin1(b) } }
pub open spec fn ape_enc(desc: Seq<u8>, data: Seq<u8>) -> Seq<u8> { desc + seq![0u8] + data }
proof fn nul_is(b: Seq<u8>, p: int, z: int) requires 0 <= p <= z < b.len(), b[z] == 0, forall|k: int| p <= k < z ==> b[k] != 0, ensures nul(b, p) == z decreases z - p { if p < z { nul_is(b, p + 1, z); } }
/// cover art is read as it was written
pub proof fn ape_round_trip(desc: Seq<u8>, data: Seq<u8>)
    requires valid(desc), forall|k: int| 0 <= k < desc.len() ==> desc[k] != 0, data.len() >= 8, kind_of(data) is Some,
    ensures ({ let b = ape_enc(desc, data); let z = nul(b, 0); ape_ok(b) && z == desc.len() && b.take(z) == desc && text_of(b.take(z)) == desc && b.skip(z + 1) == data && kind_of(b.subrange(z + 1, z + 9)) == kind_of(data) }),
{
    let b = ape_enc(desc, data); let z = desc.len() as int;
    nul_is(b, 0, z);
    assert(b.take(z) =~= desc); assert(b.skip(z + 1) =~= data);
    let h = b.subrange(z + 1, z + 9);
    assert(forall|k: int| 0 <= k < 8 ==> h[k] == data[k]);
}
fn tail(b: &[u8], p: usize) -> (r: Vec<u8>) requires p <= b@.len(), ensures r@ == b@.skip(p as int) { let s = vstd::slice::slice_subrange(b, p, b.len()); let v = to_vec(s); proof { assert(v@ =~= b@.skip(p as int)); } v }
#[verifier::external_body]
fn to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
impl Picture {
    #[verifier::external_body]
    fn mime_str(&self) -> (r: Text) ensures r@ == mime_bytes(self.mime_type) { unimplemented!() }
''', Gen(guess),
Fn(M, 'as_flac_bytes', impl='impl Picture', spec='requires small(pic(*self, picture_information)), ensures r@ == (if encode { b64(enc(pic(*self, picture_information))) } else { enc(pic(*self, picture_information)) }),',
   subs=BYTES + [('re:BASE64\\.encode\\(&data\\)\\.into_bytes\\(\\)', 'b64_encode(&data)')],
   ins=[('start', '', 'hide(be4); let ghost me = pic(*self, picture_information); proof { assert(Seq::new(4, |k: int| 0u8) =~= be4(0)) by { reveal(be4); } }'),
     ('after', 'put(&mut data, picture_type.as_slice());', 'proof { assert(data@ =~= be4(me.ty as u32)); }'),
     ('before', 'put(&mut data, be(picture_information.width)', 'proof { assert(data@ =~= be4(me.ty as u32) + be4(me.mime.len() as u32) + me.mime + be4(me.desc.len() as u32) + me.desc); }'),
     ('before', 'if encode', 'proof { assert(data@ == enc(me)); }')]),
Fn(M, 'from_flac_bytes', impl='impl Picture', sig=SIGS, spec='''ensures r matches Ok(x) ==> ({ let c = if encoded { un64(bytes@)->0 } else { bytes@ }; (encoded ==> un64(bytes@) is Some) && readable(c, parse_mode == ParsingMode::Strict) && decoded(c, x.0, x.1) }),
      r is Err ==> (encoded && un64(bytes@) is None) || ({ let c = if encoded { un64(bytes@)->0 } else { bytes@ }; !readable(c, parse_mode == ParsingMode::Strict) || limit_reached(b32(c, fields(c) + 16) as int) }),''',
   subs=[('BASE64.decode(bytes)', 'b64_decode(bytes)'), ('Self::from_flac_bytes_inner(&data, parse_mode)', 'Self::from_flac_bytes_inner(data.as_slice(), parse_mode)')]),
Fn(M, 'from_flac_bytes_inner', impl='impl Picture', sig=SIGS, spec='''ensures r matches Ok(x) ==> readable(content@, parse_mode == ParsingMode::Strict) && decoded(content@, x.0, x.1),
      r is Err ==> !readable(content@, parse_mode == ParsingMode::Strict) || limit_reached(b32(content@, fields(content@) + 16) as int),''',
   subs=ERRS + [('use crate::macros::try_vec;', ''), ('let mut reader = Cursor::new(content);', 'let mut reader = Cur::new(content);'), SEEK, ('parse_mode == ParsingMode::Strict', 'strict(parse_mode)'),
     ('re:utf8_decode_str\\(&content\\[([^\\]]*?)\\.\\.([^\\]]*?)\\]\\)', r'text_in(content, \1, \2)', '*'), ('desc.to_owned().into()', 'desc'), ('re:try_vec!\\[0; (\\w+)\\]', r'zeros(\1)'), ('reader.read_exact(&mut data)', 'reader.read_vec(&mut data)'), ('data: Cow::from(data)', 'data: data'), ('re:(\\w+) as u8\\)', r'low_byte(\1))')],
   ins=[('start', '', 'let ghost c = content@;')]),
Fn(M, 'as_ape_bytes', impl='impl Picture', spec='ensures r@ == ape_enc(desc_bytes_of(self.description), self.data@),', subs=BYTES, ins=[('before', 'data.push(0);', 'proof { assert(data@ =~= desc_bytes_of(self.description)); }'), ('after', 'put(&mut data, self.data.as_slice());', 'proof { assert(data@ =~= ape_enc(desc_bytes_of(self.description), self.data@)); }')]),
Fn(M, 'from_ape_bytes', impl='impl Picture', sig=SIGS + [('key: &str', 'key: &Text')], head='#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n',
   spec='''ensures r is Ok <==> ape_ok(bytes@),
      r matches Ok(p) ==> ({ let z = nul(bytes@, 0); p.pic_type == ape_ty(key@) && p.mime_type == kind_of(bytes@.subrange(z + 1, z + 9)) && p.data@ == bytes@.skip(z + 1)
        && (p.description is Some) == (z > 0) && (p.description matches Some(t) ==> t@ == text_of(bytes@.take(z))) }),''',
   subs=ERRS + [('re:(?<!\\w)bytes\\.is_empty\\(\\)', '(bytes.len() == 0)'), ('let reader = &mut &*bytes;', 'let mut reader = Cur::new(bytes);'), ('re:while let Ok\\((\\w+)\\) = reader\\.read_u8\\(\\) \\{', r'loop { let next = reader.read_u8(); if next.is_err() { break; } let \1 = next?;'),
     ("re:b'\\\\0'", '0u8'), ('re:String::from_utf8\\((\\w+)\\)\\s*\\.unwrap_or_else\\(.*?\\.collect\\(\\)\\)', r'Text::from_utf8_or_latin1(\1)'), ('re:!(\\w+)\\.is_empty\\(\\)', r'\1.len() != 0'), ('Cow::from(desc_text)', 'desc_text'),
     ('re:= \\[0; (\\d)\\]', r'= [0u8; \1]'), ('&identifier[..]', 'identifier.as_slice()'), ('re:Cow::from\\(bytes\\[(\\w+)\\.\\.\\]\\.to_vec\\(\\)\\)', r'tail(bytes, \1)'), ('let mut pos = 0;', 'let mut pos = 0usize;'), ('let mut desc_bytes = Vec::new();', 'let mut desc_bytes: Vec<u8> = Vec::new();')],
   loops=['''invariant_except_break reader.d() == b, reader.at() == pos, pos <= b.len(), desc_bytes@ == b.take(pos as int), nul(b, 0) == nul(b, pos as int),
      ensures reader.d() == b, nul(b, 0) < b.len() ==> pos == nul(b, 0) + 1 && reader.at() == pos && desc_bytes@ == b.take(nul(b, 0)), nul(b, 0) == b.len() ==> pos == b.len() && reader.at() >= pos, pos <= b.len(), nul(b, 0) <= b.len(), nul(b, 0) >= 0,
      decreases b.len() - pos,'''],
   ins=[('start', '', 'let ghost b = bytes@;'), ('after', 'desc_bytes.push(ch);', 'proof { assert(desc_bytes@ =~= b.take(pos as int)); }'), ('before', 'loop', 'proof { assert(desc_bytes@ =~= b.take(0)); }')]),
'''}
fn main() {}
} // verus!''']
