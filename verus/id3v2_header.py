"""The header and extended header of an ID3v2 tag, the search for one, and saving one."""
import rd
H = 'lofty/src/id3/v2/header.rs'
M = 'lofty/src/id3/mod.rs'
W = 'lofty/src/id3/v2/write/mod.rs'
ASSUMED = rd.ASSUMED + rd.FILE_ASSUMED + ['write_id3v2 uses the contract of find_id3v2, stated over a file instead of a reader; create_tag gives some bytes; write_to_chunk_file: its contract of chunk_file.py', 'Vec::splice', 'SynchsafeInteger::unsynch for u32 and TagRestrictions::from_byte: their contracts, decided for every value in P01 and P08']
DROPS = ['errors carry nothing', 'Read::take and Read::bytes over a reader become one contracted window on it', 'try_vec! becomes a contracted function, which may fail', 'the loop over the bytes of an array and the one over the three flags are loops over their indices']
FL = rd.file_prelude('HErr')
# one SeekFrom and one target() for both
FL = FL[FL.index('/// The ghost state of a file'):]
WHERE = '''
pub open spec fn marker_at(d: Seq<u8>, p: int) -> bool { d.subrange(p, p + 3) == id3() }
/// the first "ID3" that starts at p or later and ends by e, or -1
pub open spec fn first(d: Seq<u8>, p: int, e: int) -> int decreases e - p { if p + 3 > e { -1 } else if marker_at(d, p) { p } else { first(d, p + 1, e) } }
pub open spec fn limit(d: Seq<u8>, p: int, w: u64) -> int { if p + w < d.len() { p + w } else { d.len() as int } }
/// where the tag is: here, or, where junk is allowed, at the first "ID3"
pub open spec fn spot(d: Seq<u8>, p: int, junk: Option<u64>) -> Option<int> {
    match junk {
        None => if header_at(d, p) { Some(p) } else { None },
        Some(w) => { let i = first(d, p, limit(d, p, w)); if i >= 0 && header_at(d, i) { Some(i) } else { None } }
    }
}
pub open spec fn footer_at(d: Seq<u8>, p: int) -> bool { d[p + 3] != 2 && d[p + 5] & 0x10 == 0x10 }
pub open spec fn tag_len(d: Seq<u8>, p: int) -> int { 10 + size_at(d, p) + (if footer_at(d, p) { 10int } else { 0 }) }
'''
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct HErr {}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum Id3v2Version { V2, V3, V4 }
impl Id3v2Version {
    fn is(self, o: Id3v2Version) -> (r: bool) ensures r == (self == o) { match (self, o) { (Id3v2Version::V2, Id3v2Version::V2) | (Id3v2Version::V3, Id3v2Version::V3) | (Id3v2Version::V4, Id3v2Version::V4) => true, _ => false } }
}
#[derive(Clone, Copy)]
pub struct TagRestrictions { pub byte: u8 }
impl TagRestrictions { fn from_byte(b: u8) -> (r: TagRestrictions) ensures r.byte == b { TagRestrictions { byte: b } } }
''', rd.prelude('HErr'), '''
/// the synchsafe integer
pub open spec fn un(n: u32) -> u32 { ((n & 0x7f000000) >> 3u32) | ((n & 0x7f0000) >> 2u32) | ((n & 0x7f00) >> 1u32) | (n & 0x7f) }
proof fn un_small(n: u32) ensures un(n) < 0x1000_0000 { assert((((n & 0x7f000000) >> 3u32) | ((n & 0x7f0000) >> 2u32) | ((n & 0x7f00) >> 1u32) | (n & 0x7f)) < 0x1000_0000u32) by (bit_vector); }
#[verifier::external_body]
fn unsynch(n: u32) -> (r: u32) ensures r == un(n) { unimplemented!() }
#[verifier::external_body]
fn from_be(b: &[u8; 4]) -> (r: u32) ensures r == be32(b@) { unimplemented!() }
#[verifier::external_body]
fn be_at6(b: &[u8; 10]) -> (r: u32) ensures r == be32(b@.subrange(6, 10)) { unimplemented!() }
pub open spec fn id3() -> Seq<u8> { seq![0x49u8, 0x44, 0x33] }
fn is_id3(b: &[u8; 10]) -> (r: bool) ensures r == (b@.take(3) == id3())
{
    let r = b[0] == 0x49 && b[1] == 0x44 && b[2] == 0x33;
    proof { if r { assert(b@.take(3) =~= id3()); } else { assert(b@.take(3)[0] == b[0] && b@.take(3)[1] == b[1] && b@.take(3)[2] == b[2]); } }
    r
}
#[verifier::external_body]
fn fill<R: Rd, const N: usize>(r: &mut R, b: &mut [u8; N]) -> (x: Result<(), HErr>)
    ensures same(final(r).g(), old(r).g()),
        x is Ok ==> avail(old(r).g(), N as int) && moved(final(r).g(), old(r).g(), N as int) && final(b)@ == next(old(r).g(), N as int),
        x is Err ==> old(r).g().faulty || !avail(old(r).g(), N as int)
{ unimplemented!() }
/// bytes taken one by one from p on; where `uns`, a zero byte after 0xFF is not one of them
pub struct Cu { pub at: int, pub last: u8 }
pub open spec fn step(d: Seq<u8>, c: Cu, uns: bool) -> Cu {
    if uns && c.last == 0xff && d[c.at] == 0 { Cu { at: c.at + 2, last: d[c.at + 1] } } else { Cu { at: c.at + 1, last: d[c.at] } }
}
pub open spec fn steps(d: Seq<u8>, p: int, uns: bool, n: nat) -> Cu decreases n { if n == 0 { Cu { at: p, last: 0 } } else { step(d, steps(d, p, uns, (n - 1) as nat), uns) } }
proof fn mono(d: Seq<u8>, p: int, uns: bool, a: nat, b: nat) requires a <= b ensures steps(d, p, uns, a).at + (b - a) <= steps(d, p, uns, b).at <= steps(d, p, uns, a).at + 2 * (b - a) decreases b - a
{ if a < b { mono(d, p, uns, a, (b - 1) as nat); } }
pub open spec fn four(d: Seq<u8>, p: int, uns: bool) -> Seq<u8> { seq![steps(d, p, uns, 1).last, steps(d, p, uns, 2).last, steps(d, p, uns, 3).last, steps(d, p, uns, 4).last] }
/// the announced size
pub open spec fn announced(d: Seq<u8>, p: int, uns: bool, v4: bool) -> u32 { if v4 { un(be32(four(d, p, uns))) } else { be32(four(d, p, uns)) } }
/// the bytes of the whole extended header, unsynchronisation undone
pub open spec fn total(d: Seq<u8>, p: int, uns: bool, v4: bool) -> nat { if v4 { announced(d, p, uns, v4) as nat } else { announced(d, p, uns, v4) as nat + 4 } }
pub open spec fn used(ef: u8, k: int) -> int { 6 + (if k > 0 && ef & 0x40 != 0 { 1int } else { 0 }) + (if k > 1 && ef & 0x20 != 0 { 6int } else { 0 }) + (if k > 2 && ef & 0x10 != 0 { 2int } else { 0 }) }
pub open spec fn extended_ok(d: Seq<u8>, p: int, uns: bool, v4: bool, size: u32) -> bool {
    let n = announced(d, p, uns, v4);
    &&& 6 <= n < size
    &&& v4 ==> used(steps(d, p, uns, 6).last, 3) <= n
    &&& steps(d, p, uns, total(d, p, uns, v4)).at <= d.len()
    &&& steps(d, p, uns, total(d, p, uns, v4)).at - p < size
}
''', Item(H, 'struct', 'Id3v2TagFlags'), Item(H, 'struct', 'Id3v2Header'), Item(H, 'struct', 'ExtendedHeaderReader'), '''
impl<R: Rd> ExtendedHeaderReader<'_, R> {
    pub open spec fn ok(&self, d: Seq<u8>, p: int, n: nat) -> bool {
        let c = steps(d, p, self.unsynchronised, n);
        self.reader.g().data == d && d.len() < 0x8000_0000_0000_0000 && 0 <= p && self.reader.g().at == c.at && self.last_byte == c.last && self.bytes_read == c.at - p && n <= 0x1000_0004
    }
    #[verifier::prophetic] pub open spec fn kept(&self, o: &Self) -> bool { self.reader.g().faulty == o.reader.g().faulty && self.unsynchronised == o.unsynchronised && *final(self.reader) == *final(o.reader) }
''',
Fn(H, 'next_byte', impl="impl<R: Read> ExtendedHeaderReader<'_, R>", sig=[('fn next_byte(&mut self)', 'fn next_byte(&mut self, p: Ghost<int>, n: Ghost<nat>)'), ('Id3v2ParseError', 'HErr')],
   spec='''requires old(self).ok(old(self).reader.g().data, p@, n@), n@ < 0x1000_0004,
    ensures final(self).kept(old(self)), final(self).reader.g().data == old(self).reader.g().data,
      r matches Ok(b) ==> final(self).ok(old(self).reader.g().data, p@, n@ + 1) && b == final(self).last_byte && final(self).reader.g().at <= final(self).reader.g().data.len(),
      r is Err ==> old(self).reader.g().faulty || steps(old(self).reader.g().data, p@, old(self).unsynchronised, n@ + 1).at > old(self).reader.g().data.len(),''',
   ins=[('start', '', 'proof { mono(self.reader.g().data, p@, self.unsynchronised, 0, n@); }')]),
Fn(H, 'next_u32', impl="impl<R: Read> ExtendedHeaderReader<'_, R>", sig=[('fn next_u32(&mut self)', 'fn next_u32(&mut self, p: Ghost<int>)'), ('Id3v2ParseError', 'HErr')],
   spec='''requires old(self).ok(old(self).reader.g().data, p@, 0),
    ensures final(self).kept(old(self)), final(self).reader.g().data == old(self).reader.g().data,
      r matches Ok(v) ==> final(self).ok(old(self).reader.g().data, p@, 4) && v == be32(four(old(self).reader.g().data, p@, old(self).unsynchronised)) && final(self).reader.g().at <= final(self).reader.g().data.len(),
      r is Err ==> old(self).reader.g().faulty || steps(old(self).reader.g().data, p@, old(self).unsynchronised, 4).at > old(self).reader.g().data.len(),''',
   subs=[('let mut bytes = [0; 4];', 'let mut bytes = [0u8; 4];'), ('re:for byte in &mut bytes \\{\\s*\\*byte = self\\.next_byte\\(\\)\\?;', 'let mut k__: usize = 0; while k__ < 4 { proof { mono(d, p@, self.unsynchronised, (k__ + 1) as nat, 4); } bytes[k__] = self.next_byte(p, Ghost(k__ as nat))?; k__ = k__ + 1;'),
     ('u32::from_be_bytes(bytes)', 'from_be(&bytes)')],
   loops=[('''invariant k__ <= 4, self.kept(old(self)), d == old(self).reader.g().data, self.reader.g().data == d, self.ok(d, p@, k__ as nat), k__ > 0 ==> self.reader.g().at <= d.len(), self.unsynchronised == old(self).unsynchronised,
       forall|i: int| 0 <= i < k__ ==> bytes@[i] == steps(d, p@, self.unsynchronised, (i + 1) as nat).last,
     decreases 4 - k__''', 'let ghost d = self.reader.g().data;')],
   ins=[('before', 'Ok(', 'proof { assert(bytes@ =~= four(d, p@, self.unsynchronised)); }')]),
'''
}
''',
Fn(H, 'read_extended_header', sig=[('R: Read', 'R: Rd'), ('Id3v2ParseError', 'HErr')],
   head='#[verifier::loop_isolation(false)] #[verifier::rlimit(60)]\n',
   spec='''requires version is V3 || version is V4, tag_size < 0x1000_0000, old(reader).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(reader).g(), old(reader).g()),
      ({ let d = old(reader).g().data; let p = old(reader).g().at as int; let v4 = version is V4; let uns = version is V3 && old(flags).unsynchronisation; let t = total(d, p, uns, v4); let ef = steps(d, p, uns, 6).last;
        &&& r matches Ok(n) ==> extended_ok(d, p, uns, v4, tag_size) && n == steps(d, p, uns, t).at - p && final(reader).g().at == p + n
              && *final(flags) == (Id3v2TagFlags {
                    crc: if v4 { old(flags).crc || ef & 0x20 != 0 } else { steps(d, p, uns, 5).last & 0x80 == 0x80 },
                    restrictions: if v4 && ef & 0x10 != 0 { Some(TagRestrictions { byte: steps(d, p, uns, used(ef, 3) as nat).last }) } else { old(flags).restrictions },
                    ..*old(flags) })
        &&& r is Err ==> old(reader).g().faulty || !extended_ok(d, p, uns, v4, tag_size) }),''',
   subs=[('re:Err\\((?:Id3v2HeaderError::BadExtendedHeaderSize)\\.into\\(\\)\\)', 'Err(HErr {})', '*'), ('re:version == Id3v2Version::(\\w+)', r'version.is(Id3v2Version::\1)', '*'), ('remaining = remaining.unsynch();', 'remaining = unsynch(remaining);'),
     ('reader.next_u32()?', 'reader.next_u32(Ghost(p))?'),
     ('re:reader\\.next_byte\\(\\)\\?', r'{ proof { if n + 1 <= t { mono(d, p, uns, n + 1, t); } mono(d, p, uns, 0, n); } let b__ = reader.next_byte(Ghost(p), Ghost(n))?; proof { n = n + 1; } b__ }', '*'),
     ('re:for flag in \\[(.*?)\\] \\{', r'let list__: [u8; 3] = [\1]; let mut k__: usize = 0; while k__ < 3 { let flag = list__[k__]; k__ = k__ + 1;'),
     ('re:for _ in 0\\.\\.data_length \\{', 'for i__ in 0..data_length {'), ('re:for _ in 0\\.\\.remaining \\{', 'for j__ in 0..remaining {')],
   loops=['''invariant k__ <= 3, reader.ok(d, p, n), reader.kept(&e0), reader.reader.g().data == d, reader.reader.g().at <= d.len(), remaining + n == t, n == used(ef, k__ as int), list__@ == seq![0x40u8, 0x20, 0x10],
        flags.crc == (f0.crc || (k__ > 1 && ef & 0x20 != 0)), flags.restrictions == (if k__ > 2 && ef & 0x10 != 0 { Some(TagRestrictions { byte: steps(d, p, uns, used(ef, 3) as nat).last }) } else { f0.restrictions }),
        flags.unsynchronisation == f0.unsynchronisation, flags.footer == f0.footer, flags.experimental == f0.experimental,
      decreases 3 - k__''',
     '''invariant reader.ok(d, p, n), reader.kept(&e0), reader.reader.g().data == d, reader.reader.g().at <= d.len(), n == used(ef, k__ - 1) + 1 + i__, n + data_length - i__ + remaining == t, last_byte == reader.last_byte, t <= 0x1000_0004''',
     '''invariant reader.ok(d, p, n), reader.kept(&e0), reader.reader.g().data == d, reader.reader.g().at <= d.len(), n + remaining - j__ == t, t <= 0x1000_0004'''],
   ins=[('start', '', 'hide(steps); hide(be32); hide(un); let ghost d = reader.g().data; let ghost p = reader.g().at as int; let ghost v4 = version is V4; let ghost uns = version is V3 && flags.unsynchronisation; let ghost t = total(d, p, uns, v4); let ghost ef = steps(d, p, uns, 6).last; let ghost f0 = *flags; let ghost mut n: nat = 0;'
          'proof { un_small(be32(four(d, p, uns))); if 4 <= t { mono(d, p, uns, 4, t); } assert(ef & 0x40 != 0 || ef & 0x40 == 0); }'),
        ('before', 'let mut remaining', 'let ghost e0 = reader; proof { assert(steps(d, p, uns, 0) == (Cu { at: p, last: 0u8 })) by { reveal_with_fuel(steps, 1); } }'),
        ('after', 'let mut remaining = reader.next_u32(Ghost(p))?;', 'proof { n = 4; }')]),
'''
pub open spec fn ver(b: u8) -> Id3v2Version { if b == 2 { Id3v2Version::V2 } else if b == 3 { Id3v2Version::V3 } else { Id3v2Version::V4 } }
pub open spec fn extended(d: Seq<u8>, p: int) -> bool { d[p + 3] != 2 && d[p + 5] & 0x40 == 0x40 }
pub open spec fn size_at(d: Seq<u8>, p: int) -> u32 { un(be32(d.subrange(p + 6, p + 10))) }
/// a tag header starts at p
pub open spec fn header_at(d: Seq<u8>, p: int) -> bool {
    &&& p + 10 <= d.len() && d.subrange(p, p + 3) == id3() && 2 <= d[p + 3] <= 4
    &&& !(d[p + 3] == 2 && d[p + 5] & 0x40 == 0x40)
    &&& extended(d, p) ==> extended_ok(d, p + 10, d[p + 3] == 3 && d[p + 5] & 0x80 == 0x80, d[p + 3] == 4, size_at(d, p))
}
pub open spec fn ext_len(d: Seq<u8>, p: int) -> int {
    if !extended(d, p) { 0 } else { let uns = d[p + 3] == 3 && d[p + 5] & 0x80 == 0x80; steps(d, p + 10, uns, total(d, p + 10, uns, d[p + 3] == 4)).at - (p + 10) }
}
impl Id3v2Header {
''',
Fn(H, 'parse', impl='impl Id3v2Header', sig=[('R: Read', 'R: Rd'), ('Id3v2ParseError', 'HErr')],
   spec='''requires old(bytes).g().data.len() < 0x8000_0000_0000_0000,
    ensures same(final(bytes).g(), old(bytes).g()),
      ({ let d = old(bytes).g().data; let p = old(bytes).g().at as int;
        &&& r matches Ok(h) ==> header_at(d, p) && h.version == ver(d[p + 3]) && h.size == size_at(d, p) && h.size < 0x1000_0000 && h.extended_size == ext_len(d, p) && (h.extended_size == 0 || h.extended_size < h.size)
            && final(bytes).g().at == p + 10 + ext_len(d, p) && h.flags.unsynchronisation == (d[p + 5] & 0x80 == 0x80)
            && h.flags.experimental == (d[p + 3] != 2 && d[p + 5] & 0x20 == 0x20) && h.flags.footer == (d[p + 3] != 2 && d[p + 5] & 0x10 == 0x10)
            && (!extended(d, p) ==> !h.flags.crc && h.flags.restrictions is None)
            && (extended(d, p) ==> ({ let v4 = d[p + 3] == 4; let uns = d[p + 3] == 3 && d[p + 5] & 0x80 == 0x80; let ef = steps(d, p + 10, uns, 6).last;
                h.flags.crc == (if v4 { ef & 0x20 != 0 } else { steps(d, p + 10, uns, 5).last & 0x80 == 0x80 })
                && h.flags.restrictions == (if v4 && ef & 0x10 != 0 { Some(TagRestrictions { byte: steps(d, p + 10, uns, used(ef, 3) as nat).last }) } else { None }) }))
        &&& r is Err ==> old(bytes).g().faulty || !header_at(d, p) }),''',
   head='#[verifier::rlimit(40)]\n',
   subs=[('let mut header = [0; 10];', 'let mut header = [0u8; 10];'), ('bytes.read_exact(&mut header)?', 'fill(bytes, &mut header)?'), ('re:&header\\[\\.\\.3\\] != b"ID3"', '!is_id3(&header)'), ('re:Err\\((?:FakeTagError|Id3v2HeaderError::\\w+(?:\\([^;]*?\\))?)\\.into\\(\\)\\)', 'Err(HErr {})', '*'),
     ('re:version == Id3v2Version::(\\w+)', r'version.is(Id3v2Version::\1)', '*'), ('re:BigEndian::read_u32\\(&header\\[6\\.\\.\\]\\)\\.unsynch\\(\\)', 'unsynch(be_at6(&header))')],
   ins=[('start', '', 'hide(steps); hide(be32); hide(un); let ghost d = bytes.g().data; let ghost p = bytes.g().at as int;'), ('after', 'fill(bytes, &mut header)?;', 'proof { assert(header@ =~= d.subrange(p, p + 10)); assert(header@.take(3) =~= d.subrange(p, p + 3)); assert(header@.subrange(6, 10) =~= d.subrange(p + 6, p + 10)); un_small(be32(header@.subrange(6, 10))); }')]),
Fn(H, 'full_tag_size', impl='impl Id3v2Header', spec='requires self.size < 0x1000_0000, ensures r == self.size + 10 + (if self.flags.footer { 10int } else { 0 }),'),
'''
}
''' + WHERE + '''
pub struct ID3FindResults<H, C>(pub Option<H>, pub C);
/// Read::take: the next `left` bytes of a reader
pub struct Win<'a, R> { pub r: &'a mut R, pub left: u64 }
#[verifier::external_body]
fn window_byte<R: Rd>(w: &mut Win<'_, R>) -> (x: Option<Result<u8, HErr>>)
    ensures same(final(w).r.g(), old(w).r.g()), *final(final(w).r) == *final(old(w).r),
      match x {
        None => (old(w).left == 0 || old(w).r.g().at >= old(w).r.g().data.len()) && final(w).r.g() == old(w).r.g() && final(w).left == old(w).left,
        Some(Ok(b)) => old(w).left > 0 && avail(old(w).r.g(), 1) && b == old(w).r.g().data[old(w).r.g().at as int] && moved(final(w).r.g(), old(w).r.g(), 1) && final(w).left == old(w).left - 1,
        Some(Err(_)) => old(w).r.g().faulty,
      }
{ unimplemented!() }
#[verifier::external_body]
fn zeros(n: usize) -> (r: Result<Vec<u8>, HErr>) ensures r matches Ok(v) ==> v@.len() == n { unimplemented!() }
fn is_marker(b: &[u8; 3]) -> (r: bool) ensures r == (b@ == id3())
{
    let r = b[0] == 0x49 && b[1] == 0x44 && b[2] == 0x33;
    proof { if r { assert(b@ =~= id3()); } else { assert(b@[0] == b[0] && b@[1] == b[1] && b@[2] == b[2]); } }
    r
}
''', Item(M, 'struct', 'FindId3v2Config'),
Fn(M, 'find_id3v2_in_junk', sig=[('R: Read', 'R: Rd'), ('reader: &mut R', "reader: &mut Win<'_, R>"), ('Id3v2ParseError', 'HErr')],
   spec='''requires old(reader).r.g().data.len() < 0x8000_0000_0000_0000, old(reader).r.g().at <= old(reader).r.g().data.len(),
    ensures same(final(reader).r.g(), old(reader).r.g()), *final(final(reader).r) == *final(old(reader).r), r is Err ==> old(reader).r.g().faulty,
      ({ let d = old(reader).r.g().data; let p = old(reader).r.g().at as int; let i = first(d, p, limit(d, p, old(reader).left));
        &&& r matches Ok(Some(o)) ==> i >= 0 && i == p + o && final(reader).r.g().at == i + 3
        &&& r matches Ok(None) ==> i < 0 }),''',
   head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
   subs=[('let bytes = reader.bytes();', ''), ('let mut id3v2_header = [0; 3];', 'let mut id3v2_header = [0u8; 3];'), ('re:for \\(index, byte\\) in bytes\\.enumerate\\(\\) \\{', 'let mut n__: usize = 0; loop { let index = n__; let byte = match window_byte(reader) { Some(b) => b, None => break }; proof { assert(q == p + n__); q = q + 1; reveal_with_fuel(first, 2); } n__ = n__ + 1;'),
     ('re:id3v2_header == \\*b"ID3"', 'is_marker(&id3v2_header)')],
   loops=['''invariant_except_break
        same(reader.r.g(), old(reader).r.g()), *final(reader.r) == *final(old(reader).r), reader.r.g().at == q, q == p + n__, reader.left + n__ == old(reader).left, q <= d.len(), q <= e,
        first(d, p, e) == first(d, if n__ < 2 { p } else { q - 2 }, e),
        n__ >= 2 ==> id3v2_header@[1] == d[q - 2], n__ >= 1 ==> id3v2_header@[2] == d[q - 1], n__ == 0 ==> id3v2_header@[2] == 0, n__ <= 1 ==> id3v2_header@[1] == 0,
      ensures same(reader.r.g(), old(reader).r.g()), *final(reader.r) == *final(old(reader).r), first(d, p, e) < 0,
      decreases reader.left'''],
   ins=[('start', '', 'let ghost d = reader.r.g().data; let ghost p = reader.r.g().at as int; let ghost e = limit(d, p, reader.left); let ghost mut q: int = p; proof { reveal_with_fuel(first, 3); }'),
        ('before', 'if is_marker', 'proof { if n__ >= 3 { assert(id3v2_header@ =~= d.subrange(q - 3, q)); } else { assert(id3v2_header@[0] == 0); assert(id3()[0] == 0x49); } }')]),
Fn(M, 'find_id3v2', sig=[('R: Read + Seek', 'R: Rd'), ('Id3v2ParseError', 'HErr')],
   spec='''requires old(reader).g().data.len() < 0x4000_0000_0000_0000, old(reader).g().at <= old(reader).g().data.len(),
    ensures same(final(reader).g(), old(reader).g()),
      ({ let d = old(reader).g().data; let p = old(reader).g().at as int;
        &&& r matches Ok(f) ==> match f.0 {
              Some(h) => spot(d, p, config.allowed_junk_window) is Some && ({ let i = spot(d, p, config.allowed_junk_window)->0;
                h.size == size_at(d, i) && h.size < 0x1000_0000 && h.extended_size == ext_len(d, i) && h.flags.footer == footer_at(d, i) && h.version == ver(d[i + 3])
                && final(reader).g().at == i + tag_len(d, i)
                && (if config.read { f.1 matches Some(c) && i + 10 + size_at(d, i) <= d.len() && c@ == d.subrange(i + 10 + ext_len(d, i), i + 10 + size_at(d, i)) } else { f.1 is None }) }),
              None => (!old(reader).g().faulty ==> spot(d, p, config.allowed_junk_window) is None) && f.1 is None && final(reader).g().at == p }
        &&& r is Err && !config.read ==> old(reader).g().faulty }),''',
   subs=[('reader.by_ref().take(junk_window)', 'Win { r: &mut *reader, left: junk_window }'), ('re:let Some\\(id3v2_offset\\) = (.*?) else \\{(.*?)\\};', r'let id3v2_offset = match \1 { Some(o) => o, None => {\2} };'),
     ('re:try_vec!\\[0; (.*?)\\]', r'zeros(\1)'), ('reader.read_exact(&mut tag)?', 'reader.read_exact_vec(&mut tag)?'), ('re:i64::from\\((\\w+)\\)', r'(\1 as i64)')]),
FL, '''
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum FileType { Wav, Aiff, Other }
fn is_type(a: FileType, b: FileType) -> (r: bool) ensures r == (a == b) { match (a, b) { (FileType::Wav, FileType::Wav) | (FileType::Aiff, FileType::Aiff) | (FileType::Other, FileType::Other) => true, _ => false } }
pub struct ParseOptions { pub max_junk_bytes: usize }
pub struct WriteOptions { pub parse_options: ParseOptions, pub rest: Ghost<int> }
impl Copy for ParseOptions {} impl Clone for ParseOptions { fn clone(&self) -> Self { *self } }
impl Copy for WriteOptions {} impl Clone for WriteOptions { fn clone(&self) -> Self { *self } }
pub struct Id3v2TagRef { pub flags: Id3v2TagFlags, pub frames: Ghost<int> }
/// what create_tag gives
pub uninterp spec fn made(frames: int, flags: Id3v2TagFlags, o: WriteOptions) -> Option<Seq<u8>>;
#[verifier::external_body]
fn create_tag(tag: &mut Id3v2TagRef, o: WriteOptions) -> (r: Result<Vec<u8>, HErr>)
    ensures r matches Ok(v) ==> made(old(tag).frames@, old(tag).flags, o) == Some(v@) && v@.len() < 0x2000_0000, r is Err ==> made(old(tag).frames@, old(tag).flags, o) is None
{ unimplemented!() }
/// what write_to_chunk_file guarantees (chunk_file.py)
pub uninterp spec fn chunk_saved(d: Seq<u8>, n: Seq<u8>, tag: Seq<u8>, o: WriteOptions, little: bool) -> bool;
#[verifier::external_body]
fn chunk_write<F: Fl>(f: &mut F, tag: &Vec<u8>, o: WriteOptions, little: bool) -> (r: Result<(), HErr>)
    requires old(f).g().at == 0,
    ensures r is Ok && !old(f).g().faulty ==> chunk_saved(old(f).g().data, final(f).g().data, tag@, o, little),
{ unimplemented!() }
const NO_READ_TAG: FindId3v2Config = FindId3v2Config { read: false, allowed_junk_window: None };
#[verifier::external_body]
fn find_in_file<F: Fl>(f: &mut F, config: FindId3v2Config) -> (r: Result<ID3FindResults<Id3v2Header, Option<Vec<u8>>>, HErr>)
    requires !config.read, old(f).g().data.len() < 0x4000_0000_0000_0000, old(f).g().at <= old(f).g().data.len(),
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty,
      ({ let d = old(f).g().data; let p = old(f).g().at as int;
        &&& r matches Ok(x) ==> match x.0 {
              Some(h) => spot(d, p, config.allowed_junk_window) is Some && ({ let i = spot(d, p, config.allowed_junk_window)->0; h.size == size_at(d, i) && h.size < 0x1000_0000 && h.flags.footer == footer_at(d, i) && final(f).g().at == i + tag_len(d, i) }),
              None => (!old(f).g().faulty ==> spot(d, p, config.allowed_junk_window) is None) && final(f).g().at == p }
        &&& r is Err ==> old(f).g().faulty })
{ unimplemented!() }
proof fn spot_range(d: Seq<u8>, p: int, w: u64) requires 0 <= p
    ensures spot(d, p, Some(w)) matches Some(i) ==> p <= i && i + 10 <= d.len()
{ let e = limit(d, p, w); first_range(d, p, e); }
proof fn first_range(d: Seq<u8>, p: int, e: int) ensures first(d, p, e) == -1 || p <= first(d, p, e) <= e - 3 decreases e - p { if p + 3 <= e && !marker_at(d, p) { first_range(d, p + 1, e); } }
#[verifier::external_body]
fn read_to_end<W: Fl>(f: &mut W, v: &mut Vec<u8>) -> (r: Result<(), HErr>)
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty, r is Err ==> old(f).g().faulty,
        r is Ok ==> final(v)@ == old(v)@ + (if old(f).g().at <= old(f).g().data.len() { old(f).g().data.skip(old(f).g().at as int) } else { seq![] })
{ unimplemented!() }
#[verifier::external_body]
fn splice_in(v: &mut Vec<u8>, a: usize, b: usize, t: Vec<u8>) requires a <= b <= old(v)@.len(), ensures final(v)@ == old(v)@.take(a as int) + t@ + old(v)@.skip(b as int) { unimplemented!() }
fn smaller(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
/// the file with its tag replaced, wherever it was, or put at the start
pub open spec fn saved(d: Seq<u8>, junk: u64, t: Seq<u8>) -> Seq<u8> {
    match spot(d, 0, Some(junk)) {
        None => t + d,
        Some(i) => d.take(i) + t + (if i + tag_len(d, i) < d.len() { d.skip(i + tag_len(d, i)) } else { seq![] })
    }
}
''',
Fn(W, 'write_id3v2', sig=[("<'a, F, I>", '<F: Fl>'), ("file: VerifiedFile<'_, F>", 'file: &mut F, format: FileType'), ("&mut Id3v2TagRef<'a, I>", '&mut Id3v2TagRef'), ('FileEncodingError', 'HErr'), ("where F: FileLike, I: Iterator<Item = Frame<'a>> + 'a,", '')],
   spec='''requires old(file).g().at == 0, old(file).g().data.len() < 0x2000_0000_0000_0000,
    ensures ({ let d = old(file).g().data; let iff = format is Wav || format is Aiff; let flags = if iff { Id3v2TagFlags { footer: false, ..old(tag).flags } } else { old(tag).flags };
        let made = made(old(tag).frames@, flags, write_options);
        &&& r is Ok && !old(file).g().faulty ==> made is Some && (if iff { chunk_saved(d, final(file).g().data, made->0, write_options, format is Wav) } else { final(file).g().data == saved(d, write_options.parse_options.max_junk_bytes as u64, made->0) })
        &&& r is Err && !old(file).g().faulty && !iff ==> final(file).g().data == d && made is None }),''',
   subs=[('re:file\\.format\\(\\)', 'format', '*'), ('re:format == FileType::(\\w+)', r'is_type(format, FileType::\1)', 2), ('create_tag(tag, write_options).map_err(TagEncodingError::from)?', 'create_tag(tag, write_options)?'),
     ('re:chunk_file::write_to_chunk_file::<F, (\\w+)>\\(\\s*file,\\s*&id3v2,\\s*write_options,\\s*\\)', lambda m: f"chunk_write(file, &id3v2, write_options, {'true' if m[1] == 'LittleEndian' else 'false'})", 2),
     ('let mut file = file.into_inner();', ''), ('FindId3v2Config::NO_READ_TAG', 'NO_READ_TAG'), ('re:find_id3v2\\(&mut file, id3v2_config\\)\\s*\\.map_err\\(TagParseError::from\\)\\?', 'find_in_file(file, id3v2_config)?'),
     ('re:u64::from\\(header\\.full_tag_size\\(\\)\\)', '(header.full_tag_size() as u64)'), ('file.read_to_end(&mut file_bytes)?', 'read_to_end(file, &mut file_bytes)?'), ('re:tag_end\\.min\\(', 'smaller(tag_end, '),
     ('re:file_bytes\\.splice\\((.*?)\\.\\.(.*?), id3v2\\);', r'splice_in(&mut file_bytes, \1, \2, id3v2);'), ('file.write_all(&file_bytes)?', 'file.write_all(file_bytes.as_slice())?'), ('_ => unreachable!(),', '_ => { assert(false); },', '*')],
   ins=[('start', '', 'let ghost d = file.g().data; let ghost j = write_options.parse_options.max_junk_bytes as u64; proof { spot_range(d, 0, j); }'),
        ('before', 'splice_in(&mut', 'let ghost t = id3v2@; proof { assert(file_bytes@ =~= d); }'),
        ('after', 'splice_in(&mut file_bytes, tag_start as usize, tag_end as usize, id3v2);', 'proof { if !file.g().faulty { assert(file_bytes@ =~= saved(d, j, t)); } }'),
        ('after', 'file.write_all(file_bytes.as_slice())?;', 'proof { assert(file.g().data =~= file_bytes@); }')]),
'''
} // verus!
''']
