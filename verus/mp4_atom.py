"""AtomInfo::read (with freeform identifiers), header_size and skip_atom."""
F = 'lofty/src/mp4/atom_info.rs'
R = 'lofty/src/mp4/read/mod.rs'
ASSUMED = ['std::io::{Read, Seek} and byteorder over a ghost stream of less than 2^63 bytes; seeking to the end goes to the end of the stream or of the bounds of an AtomReader (which mp4_reader proves)',
           'utf8_decode: a function of the bytes given to it', 'the identifier check of each byte (executed for every byte value)']
DROPS = ['errors carry nothing', "`Cow<'_, str>` becomes the text it holds", 'identifiers are compared by a contracted function', 'try_vec![0; n] becomes a contracted function, which may fail']
MSG = r're:AtomParseError::message\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)'
SIG = ('AtomParseError', 'AErr')
HL = ('re:(?:NotEnoughDataError::new\\((?:[^()]|\\([^()]*\\))*\\)|SizeMismatchError|TooMuchDataError)\\.into\\(\\)', 'AErr {}')
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct AErr {}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn be32(s: Seq<u8>) -> u32 { (s[3] as u32) | ((s[2] as u32) << 8u32) | ((s[1] as u32) << 16u32) | ((s[0] as u32) << 24u32) }
pub open spec fn be64(s: Seq<u8>) -> u64 { (be32(s.skip(4)) as u64) | ((be32(s.take(4)) as u64) << 32u64) }
pub struct BigEndian;
pub trait Order {}
impl Order for BigEndian {}
/// `end` is where seeking to the end goes
pub struct St { pub data: Seq<u8>, pub at: u64, pub end: u64, pub faulty: bool }
pub open spec fn same(r: St, o: St) -> bool { r.data == o.data && r.faulty == o.faulty && r.end == o.end && r.data.len() < 0x8000_0000_0000_0000 }
pub open spec fn avail(r: St, n: int) -> bool { n == 0 || r.at + n <= r.data.len() }
pub open spec fn bytes(r: St, at: int, n: int) -> Seq<u8> { if n == 0 { seq![] } else { r.data.subrange(at, at + n) } }
pub open spec fn moved(r: St, o: St, n: int) -> bool { same(r, o) && r.at == o.at + n }
pub trait Rd: Sized {
    spec fn g(&self) -> St;
    fn stream_position(&mut self) -> (r: Result<u64, AErr>)
        ensures moved(final(self).g(), old(self).g(), 0), r matches Ok(p) ==> p == old(self).g().at, r is Err ==> old(self).g().faulty;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, AErr>)
        ensures same(final(self).g(), old(self).g()),
            r matches Ok(p) ==> final(self).g().at == p && (match to {
                SeekFrom::Start(s) => s <= old(self).g().end ==> p == s,
                SeekFrom::End(d) => d == 0 ==> p == old(self).g().end,
                SeekFrom::Current(d) => p == old(self).g().at + d }),
            r is Err ==> old(self).g().faulty || !(0 <= (match to { SeekFrom::Start(s) => s as int, SeekFrom::End(d) => d as int, SeekFrom::Current(d) => old(self).g().at + d }) <= 0xffff_ffff_ffff_ffff);
    fn read_u32<O: Order>(&mut self) -> (r: Result<u32, AErr>)
        ensures same(final(self).g(), old(self).g()),
            r matches Ok(v) ==> avail(old(self).g(), 4) && v == be32(bytes(old(self).g(), old(self).g().at as int, 4)) && moved(final(self).g(), old(self).g(), 4),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), 4);
    fn read_u64<O: Order>(&mut self) -> (r: Result<u64, AErr>)
        ensures same(final(self).g(), old(self).g()),
            r matches Ok(v) ==> avail(old(self).g(), 8) && v == be64(bytes(old(self).g(), old(self).g().at as int, 8)) && moved(final(self).g(), old(self).g(), 8),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), 8);
    fn read_exact4(&mut self, buf: &mut [u8; 4]) -> (r: Result<(), AErr>)
        ensures same(final(self).g(), old(self).g()),
            r is Ok ==> avail(old(self).g(), 4) && final(buf)@ == bytes(old(self).g(), old(self).g().at as int, 4) && moved(final(self).g(), old(self).g(), 4),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), 4);
    fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), AErr>)
        ensures same(final(self).g(), old(self).g()), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> avail(old(self).g(), old(buf)@.len() as int) && final(buf)@ == bytes(old(self).g(), old(self).g().at as int, old(buf)@.len() as int) && moved(final(self).g(), old(self).g(), old(buf)@.len() as int),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), old(buf)@.len() as int);
}
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
fn is_strict(m: ParsingMode) -> (r: bool) ensures r == (m is Strict) { matches!(m, ParsingMode::Strict) }
fn is_relaxed(m: ParsingMode) -> (r: bool) ensures r == (m is Relaxed) { matches!(m, ParsingMode::Relaxed) }
fn copy_mode(m: &ParsingMode) -> (r: ParsingMode) ensures r == *m { match m { ParsingMode::Strict => ParsingMode::Strict, ParsingMode::BestAttempt => ParsingMode::BestAttempt, ParsingMode::Relaxed => ParsingMode::Relaxed } }
/// decoded text, by the bytes it was decoded from
pub struct Text { pub raw: Ghost<Seq<u8>> }
pub enum AtomIdent { Fourcc([u8; 4]), Freeform { mean: Text, name: Text } }
pub uninterp spec fn decodes(b: Seq<u8>) -> bool;
#[verifier::external_body]
fn utf8_decode(b: Vec<u8>) -> (r: Result<Text, AErr>) ensures r is Ok <==> decodes(b@), r matches Ok(t) ==> t.raw@ == b@ { unimplemented!() }
#[verifier::external_body]
fn zeros(n: usize) -> (r: Result<Vec<u8>, AErr>) ensures r matches Ok(v) ==> v@.len() == n { unimplemented!() }
pub open spec fn byte_ok(b: u8) -> bool { 0x20 <= b <= 0x7E || b == 0xA9 }
pub open spec fn ident_ok(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> byte_ok(#[trigger] b[i]) }
#[verifier::external_body]
fn all_valid(b: [u8; 4]) -> (r: bool) ensures r == ident_ok(b@) { unimplemented!() }
pub open spec fn dashes() -> Seq<u8> { seq![0x2du8, 0x2d, 0x2d, 0x2d] }
pub open spec fn free() -> Seq<u8> { seq![0x66u8, 0x72, 0x65, 0x65] }
pub open spec fn mean() -> Seq<u8> { seq![0x6du8, 0x65, 0x61, 0x6e] }
pub open spec fn name_() -> Seq<u8> { seq![0x6eu8, 0x61, 0x6d, 0x65] }
#[verifier::external_body]
fn is_dashes(b: [u8; 4]) -> (r: bool) ensures r == (b@ == dashes()) { b == *b"----" }
#[verifier::external_body]
fn is_free(b: [u8; 4]) -> (r: bool) ensures r == (b@ == free()) { b == *b"free" }
#[verifier::external_body]
fn lit_mean() -> (r: [u8; 4]) ensures r@ == mean() { *b"mean" }
#[verifier::external_body]
fn lit_name() -> (r: [u8; 4]) ensures r@ == name_() { *b"name" }
#[verifier::external_body]
fn differ(a: [u8; 4], b: &[u8; 4]) -> (r: bool) ensures r == (a@ != b@) { a != *b }
/// what ISO 14496-12 says the length of the atom at `p` is
pub open spec fn raw_len(s: St, p: int) -> u32 { be32(s.data.subrange(p, p + 4)) }
pub open spec fn ident_at(s: St, p: int) -> Seq<u8> { s.data.subrange(p + 4, p + 8) }
pub open spec fn ext(s: St, p: int) -> bool { raw_len(s, p) == 1 }
pub open spec fn hdr(s: St, p: int) -> int { if ext(s, p) { 16 } else { 8 } }
pub open spec fn len_at(s: St, p: int) -> int {
    if raw_len(s, p) == 0 { if s.end >= p { s.end - p } else { 0 } }
    else if ext(s, p) { be64(s.data.subrange(p + 8, p + 16)) as int }
    else { raw_len(s, p) as int }
}
/// an atom that fits into `size` bytes
pub open spec fn fits(s: St, p: int, size: int) -> bool {
    p + hdr(s, p) <= s.data.len() && ident_ok(ident_at(s, p)) && hdr(s, p) <= len_at(s, p) <= size
}
/// the content of a "mean" or "name" atom at `p`, after its version and flags
pub open spec fn text_at(s: St, p: int) -> Seq<u8> { bytes(s, p + hdr(s, p) + 4, len_at(s, p) - 12) }
/// only atoms with a 32-bit length carry a text this way
pub open spec fn text_ok(s: St, p: int, size: int, want: Seq<u8>) -> bool {
    fits(s, p, size) && ident_at(s, p) == want && len_at(s, p) >= 12
}
''',
Item(F, 'const', 'FOURCC_LEN'), Item(F, 'const', 'IDENTIFIER_LEN'), Item(F, 'const', 'ATOM_HEADER_LEN'),
Item(F, 'struct', 'AtomInfo', subs=[("AtomIdent<'static>", 'AtomIdent')]),
'impl AtomInfo {',
Fn(F, 'read', impl='impl AtomInfo', sig=[SIG, ('R: Read + Seek', 'R: Rd')], spec='''
    requires old(reader).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(reader).g(), old(reader).g()),
      r matches Ok(Some(a)) ==> ({ let s = old(reader).g(); let p = s.at as int;
        &&& fits(s, p, reader_size as int)
        &&& a.start == p && a.len == len_at(s, p) && a.extended == ext(s, p)
        &&& a.ident matches AtomIdent::Fourcc(f) ==> f@ == ident_at(s, p) && f@ != dashes() && final(reader).g().at == p + hdr(s, p)
        &&& a.ident matches AtomIdent::Freeform { mean: m, name: n } ==> ident_at(s, p) == dashes() && ({
            let q = p + hdr(s, p); let left = len_at(s, p) - hdr(s, p);
            &&& text_ok(s, q, left, mean()) && m.raw@ == text_at(s, q)
            &&& ext(s, q) || ({ let q2 = q + len_at(s, q);
                &&& text_ok(s, q2, left - len_at(s, q), name_()) && n.raw@ == text_at(s, q2)
                &&& ext(s, q2) || final(reader).g().at == q2 + len_at(s, q2) && final(reader).g().at <= p + a.len }) }) }),
      r matches Ok(None) ==> ({ let s = old(reader).g(); let p = s.at as int;
        !(parse_mode is Strict) && p + 8 <= s.data.len() && (!ident_ok(ident_at(s, p)) || hdr(s, p) <= len_at(s, p) && len_at(s, p) > reader_size && (parse_mode is Relaxed || ident_at(s, p) == free())) }),
      r is Err ==> ({ let s = old(reader).g(); let p = s.at as int;
        s.faulty || s.end > 0x7fff_ffff_ffff_ffff || p + 8 > s.data.len() || !fits(s, p, reader_size as int) || ident_at(s, p) == dashes() }),'''),
Fn(F, 'read_inner', impl='impl AtomInfo', sig=[SIG, ('R: Read + Seek', 'R: Rd')], spec='''
    requires old(reader).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(reader).g(), old(reader).g()),
      r matches Ok(Some(a)) ==> ({ let s = old(reader).g(); let p = s.at as int;
        &&& fits(s, p, reader_size as int)
        &&& a.start == p && a.len == len_at(s, p) && a.extended == ext(s, p)
        &&& a.ident matches AtomIdent::Fourcc(f) ==> f@ == ident_at(s, p) && (f@ != dashes() || in_freeform) && final(reader).g().at == p + hdr(s, p)
        &&& a.ident matches AtomIdent::Freeform { mean: m, name: n } ==> !in_freeform && ident_at(s, p) == dashes() && ({
            let q = p + hdr(s, p); let left = len_at(s, p) - hdr(s, p);
            &&& text_ok(s, q, left, mean()) && m.raw@ == text_at(s, q)
            &&& ext(s, q) || ({ let q2 = q + len_at(s, q);
                &&& text_ok(s, q2, left - len_at(s, q), name_()) && n.raw@ == text_at(s, q2)
                &&& ext(s, q2) || final(reader).g().at == q2 + len_at(s, q2) && final(reader).g().at <= p + a.len }) }) }),
      r matches Ok(None) ==> ({ let s = old(reader).g(); let p = s.at as int;
        !(parse_mode is Strict) && p + 8 <= s.data.len() && (!ident_ok(ident_at(s, p)) || hdr(s, p) <= len_at(s, p) && len_at(s, p) > reader_size && (parse_mode is Relaxed || ident_at(s, p) == free())) }),
      r is Err ==> ({ let s = old(reader).g(); let p = s.at as int;
        s.faulty || s.end > 0x7fff_ffff_ffff_ffff || p + 8 > s.data.len() || !fits(s, p, reader_size as int) || !in_freeform && ident_at(s, p) == dashes() }),
    decreases if in_freeform { 0int } else { 3 },''',
   subs=[(MSG, 'AErr {}', '*'), (HL[0], HL[1], '*'), ('identifier.iter().copied().all(is_valid_identifier_byte)', 'all_valid(identifier)'),
     ('re:u64::from\\(', 'to_u64(', '*'), ('re:let mut identifier = \\[0; IDENTIFIER_LEN as usize\\]', 'let mut identifier = [0u8; 4]'), ('reader.read_exact(&mut identifier)?', 'reader.read_exact4(&mut identifier)?'),
     ('re:identifier == \\*b"----"', 'is_dashes(identifier)'), ('re:identifier == \\*b"free"', 'is_free(identifier)'),
     ('re:parse_mode != ParsingMode::Strict', '!is_strict(copy_mode(&parse_mode))'), ('re:parse_mode == ParsingMode::Relaxed', 'is_relaxed(copy_mode(&parse_mode))'), ('re:match parse_mode', 'match copy_mode(&parse_mode)'),
     ('re:(\\w+)\\.saturating_sub\\((\\w+)\\)', r'sat_sub(\1, \2)', '*')],
   ins=[('before', 'let (len, extended)', '''proof { let s = old(reader).g(); let p = s.at as int;
       assert(p + 8 <= s.data.len()); assert(len_raw == raw_len(s, p)); assert(identifier@ =~= ident_at(s, p)); }'''),
     ('before', 'let header_len', 'proof { let s = old(reader).g(); let p = s.at as int; assert(len == len_at(s, p)); assert(extended == ext(s, p)); }'),]),
Fn(F, 'header_size', impl='impl AtomInfo', spec='ensures r == if self.extended { 16u64 } else { 8 },'),
'}',
Fn(F, 'parse_freeform', sig=[SIG, ('R: Read + Seek', 'R: Rd'), ("AtomIdent<'static>", 'AtomIdent')], spec='''
    requires old(data).g().data.len() < 0x8000_0000_0000_0000, 
    ensures same(final(data).g(), old(data).g()),
      r matches Ok(x) ==> (x matches AtomIdent::Freeform { mean: m, name: n } && ({
            let s = old(data).g(); let q = s.at as int; let left = atom_len as int;
            &&& text_ok(s, q, left, mean()) && m.raw@ == text_at(s, q)
            &&& ext(s, q) || ({ let q2 = q + len_at(s, q);
                &&& text_ok(s, q2, left - len_at(s, q), name_()) && n.raw@ == text_at(s, q2)
                &&& ext(s, q2) || final(data).g().at == q2 + len_at(s, q2) && final(data).g().at <= q + left }) })),
    decreases 2int,''',
   subs=[(HL[0], HL[1], '*'), ('re:b"mean"', '&lit_mean()'), ('re:b"name"', '&lit_name()'), ('re:freeform_chunk\\(([^()]*(?:\\(\\)[^()]*)?), parse_mode\\)', r'freeform_chunk(\1, copy_mode(&parse_mode))', 2), ('re:mean\\.into\\(\\)', 'mean'), ('re:name\\.into\\(\\)', 'name')]),
Fn(F, 'freeform_chunk', sig=[SIG, ('R: Read + Seek', 'R: Rd'), ('Result<String, AErr>', 'Result<Text, AErr>') if False else ('String', 'Text'), ('name: &[u8]', 'name: &[u8; 4]')], spec='''
    requires old(data).g().data.len() < 0x8000_0000_0000_0000, name@ != dashes(),
    ensures same(final(data).g(), old(data).g()),
      r matches Ok(t) ==> ({ let s = old(data).g(); let q = s.at as int;
          &&& text_ok(s, q, *old(reader_size) as int, name@) && t.raw@ == text_at(s, q)
          &&& *final(reader_size) == *old(reader_size) - len_at(s, q)
          &&& final(data).g().at == q + hdr(s, q) + 4 + (len_at(s, q) - 12) }),
    decreases 1int,''',
   subs=[(HL[0], HL[1], '*'), (MSG, 'AErr {}', '*'), ('re:fourcc != name', 'differ(fourcc, name)'), ('re:try_vec!\\[0; (.*?)\\]\\?', r'zeros(\1)?'), ('re:\\.map_err\\(Into::into\\)', '')]),
Fn(R, 'skip_atom', sig=[SIG, ('R: Read + Seek', 'R: Rd')], spec='''
    requires old(reader).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(reader).g(), old(reader).g()),
      r is Ok ==> final(reader).g().at == old(reader).g().at + len - (if extended { 16int } else { 8 }),
      r is Err ==> old(reader).g().faulty || len < (if extended { 16int } else { 8 }) || len > 0x7fff_ffff_ffff_ffff || old(reader).g().at + len > 0xffff_ffff_ffff_ffff,''',
   subs=[(HL[0], HL[1], '*'), ('re:len\\s*\\.checked_sub\\((\\w+)\\)\\s*\\.and_then\\(\\|content_len\\| i64::try_from\\(content_len\\)\\.ok\\(\\)\\)', r'sub_i64(len, \1)')]),
'''
proof fn distinct() ensures mean() != dashes(), name_() != dashes() { assert(mean()[0] != dashes()[0]); assert(name_()[0] != dashes()[0]); }
fn to_u64(n: u32) -> (r: u64) ensures r == n { n as u64 }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
fn sub_i64(a: u64, b: u64) -> (r: Option<i64>) ensures r == if a >= b && a - b <= i64::MAX { Some((a - b) as i64) } else { None } { if a >= b && a - b <= i64::MAX as u64 { Some((a - b) as i64) } else { None } }
} // verus!
''']
