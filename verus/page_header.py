"""Ogg page headers: PageHeader::read takes every field from its offset and accepts exactly the well-formed headers; Page::read the content after it."""
import rd
H = 'ogg_pager/src/header.rs'
L = 'ogg_pager/src/lib.rs'
ASSUMED = rd.ASSUMED + ['to_le_bytes gives the bytes in little endian order', 'Vec::extend appends']
DROPS = ['the iterator sum in content_size becomes a proved loop', '`bytes.extend(x)` becomes a contracted helper per operand type', 'PageError::Io carries no cause', '`R: Read + Seek` becomes the ghost trait Rd', '`&sig != b"OggS"` compares through a contracted helper', '`read_exact(&mut vec)` goes through the slice of the vector']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
''', Item('ogg_pager/src/error.rs', 'enum', 'PageError', subs=[('std::io::Error', 'IoError')]), '''
pub type PResult<T> = core::result::Result<T, PageError>;
''', rd.prelude('PageError'), Item(H, 'const', 'PAGE_HEADER_SIZE'), Item(H, 'struct', 'PageHeader'), Item(L, 'struct', 'Page'), '''
fn bytes_eq(a: &[u8; 4], b: &[u8; 4]) -> (r: bool) ensures r == (a@ == b@)
{
    if a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] { assert(a@ =~= b@); true } else { assert(a@[0] != b@[0] || a@[1] != b@[1] || a@[2] != b@[2] || a@[3] != b@[3]); false }
}
pub open spec fn capture() -> Seq<u8> { seq![0x4fu8, 0x67u8, 0x67u8, 0x53u8] }
pub open spec fn sum(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat } }
pub proof fn sum_bound(s: Seq<u8>) ensures sum(s) <= 255 * s.len() decreases s.len() { if s.len() > 0 { sum_bound(s.drop_last()); } }

fn sum_bytes(s: &Vec<u8>) -> (r: usize) requires s@.len() < 0x1_0000_0000, ensures r == sum(s@)
{
    let mut i: usize = 0; let mut t: usize = 0;
    while i < s.len() invariant i <= s.len(), s@.len() < 0x1_0000_0000, t == sum(s@.take(i as int)), t <= 255 * i, decreases s.len() - i,
    { assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); t = t + s[i] as usize; i = i + 1; }
    assert(s@.take(i as int) =~= s@);
    t
}
pub open spec fn le32_bytes(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8u32) & 0xff) as u8, ((x >> 16u32) & 0xff) as u8, ((x >> 24u32) & 0xff) as u8] }
pub open spec fn le64_bytes(x: u64) -> Seq<u8> { le32_bytes((x & 0xffff_ffff) as u32) + le32_bytes((x >> 32u64) as u32) }
proof fn le32_inv(x: u32) ensures le32(le32_bytes(x)) == x {
    assert((((x & 0xff) as u8) as u32) | ((((x >> 8u32) & 0xff) as u8) as u32) << 8u32 | ((((x >> 16u32) & 0xff) as u8) as u32) << 16u32 | ((((x >> 24u32) & 0xff) as u8) as u32) << 24u32 == x) by (bit_vector);
}
proof fn le64_inv(x: u64) ensures le64(le64_bytes(x)) == x {
    le32_inv((x & 0xffff_ffff) as u32); le32_inv((x >> 32u64) as u32);
    assert(le64_bytes(x).take(4) =~= le32_bytes((x & 0xffff_ffff) as u32));
    assert(le64_bytes(x).skip(4) =~= le32_bytes((x >> 32u64) as u32));
    assert((((x & 0xffff_ffff) as u32) as u64) | ((((x >> 32u64) as u32) as u64) << 32u64) == x) by (bit_vector);
}
#[verifier::external_body]
fn put_u64(v: &mut Vec<u8>, x: u64) ensures final(v)@ == old(v)@ + le64_bytes(x)
{ v.extend(x.to_le_bytes()); }
#[verifier::external_body]
fn put_u32(v: &mut Vec<u8>, x: u32) ensures final(v)@ == old(v)@ + le32_bytes(x)
{ v.extend(x.to_le_bytes()); }
#[verifier::external_body]
fn put(v: &mut Vec<u8>, x: &[u8]) ensures final(v)@ == old(v)@ + x@
{ v.extend(x); }
/// The serialised form of a page
pub open spec fn page_bytes(h: PageHeader, content: Seq<u8>) -> Seq<u8> {
    capture() + seq![0u8, h.header_type_flag] + le64_bytes(h.abgp) + le32_bytes(h.stream_serial) + le32_bytes(h.sequence_number)
        + le32_bytes(h.checksum) + seq![h.segments@.len() as u8] + h.segments@ + content
}
/// The remainder of the polynomial division, as unit crc proves of crc32
pub uninterp spec fn ogg_crc(s: Seq<u8>) -> u32;
#[verifier::external_body]
fn crc32(page: &[u8]) -> (r: u32) ensures r == ogg_crc(page@) { unimplemented!() }
/// What the bytes of a stream say about the header at position p
pub open spec fn well_formed(d: Seq<u8>, p: int) -> bool {
    p + 27 <= d.len() && d.subrange(p, p + 4) == capture() && d[p + 4] == 0 && d[p + 26] >= 1 && p + 27 + d[p + 26] <= d.len()
}
pub open spec fn header_is(h: PageHeader, d: Seq<u8>, p: int) -> bool {
    &&& h.start == p
    &&& h.header_type_flag == d[p + 5]
    &&& h.abgp == le64(d.subrange(p + 6, p + 14))
    &&& h.stream_serial == le32(d.subrange(p + 14, p + 18))
    &&& h.sequence_number == le32(d.subrange(p + 18, p + 22))
    &&& h.checksum == le32(d.subrange(p + 22, p + 26))
    &&& h.segments@ == d.subrange(p + 27, p + 27 + d[p + 26])
}
''', 'impl PageHeader {', Fn(H, 'new', 'impl PageHeader', spec='ensures r.start == 0, r.header_type_flag == header_type_flag, r.abgp == abgp, r.stream_serial == stream_serial, r.sequence_number == sequence_number, r.segments@.len() == 0, r.checksum == 0,'),
   Fn(H, 'read', 'impl PageHeader', sig=[('R: Read + Seek', 'R: Rd'), ('Result<Self>', 'PResult<Self>')],
      subs=[('re:&(\\w+)\\s*!=\\s*b"OggS"', r"!bytes_eq(&\1, &[0x4fu8, 0x67u8, 0x67u8, 0x53u8])"), ('data.read_exact(&mut segment_table)', 'data.read_exact_vec(&mut segment_table)')],
      ins=[('start', '', 'let ghost d = data.g().data; let ghost p = data.g().at as int; assert([0x4fu8, 0x67u8, 0x67u8, 0x53u8]@ =~= capture());')],
      spec='''ensures same(final(data).g(), old(data).g()),
        r matches Ok(h) ==> well_formed(old(data).g().data, old(data).g().at as int) && header_is(h, old(data).g().data, old(data).g().at as int) && final(data).g().at as int == old(data).g().at + 27 + old(data).g().data[old(data).g().at + 26],
        r is Err ==> old(data).g().faulty || !well_formed(old(data).g().data, old(data).g().at as int),'''),
   Fn(H, 'content_size', 'impl PageHeader', spec='requires self.segments@.len() < 0x1_0000_0000, ensures r == sum(self.segments@),',
      subs=[('self.segments.iter().map(|&b| usize::from(b)).sum::<usize>()', 'sum_bytes(&self.segments)')]),
   Fn(H, 'header_type_flag', 'impl PageHeader', spec='ensures r == self.header_type_flag,'),
   Fn(H, 'checksum', 'impl PageHeader', spec='ensures r == self.checksum,'),
 '}', 'impl Page {', Fn(L, 'read', 'impl Page', sig=[('V: Read + Seek', 'V: Rd'), ('Result<Self>', 'PResult<Self>')], subs=[('data.read_exact(&mut content)', 'data.read_exact_vec(&mut content)')],
   spec='''ensures
        r matches Ok(pg) ==> {
            let d = old(data).g().data; let p = old(data).g().at as int; let n = p + 27 + d[p + 26];
            &&& well_formed(d, p) && header_is(pg.header, d, p)
            &&& n + sum(pg.header.segments@) <= d.len()
            &&& pg.content@ == d.subrange(n, n + sum(pg.header.segments@))
            &&& pg.end as int == n + sum(pg.header.segments@) && final(data).g().at == pg.end
        },
        r is Err ==> old(data).g().faulty || {
            let d = old(data).g().data; let p = old(data).g().at as int; let n = p + 27 + d[p + 26];
            !well_formed(d, p) || n + sum(d.subrange(p + 27, n)) > d.len() },''',
   ),
   Fn(L, 'as_bytes', 'impl Page', spec='''requires self.header.segments@.len() <= 255, self.content@.len() + 300 <= usize::MAX,
        ensures r@ == page_bytes(self.header, self.content@),
            r@.len() == 27 + self.header.segments@.len() + self.content@.len(),
            r@.skip(27 + self.header.segments@.len() as int) == self.content@,
            self.header.segments@.len() >= 1 ==> well_formed(r@, 0) && header_is(PageHeader { start: 0, ..self.header }, r@, 0),''',
      subs=[('re:bytes\\.extend\\(b"OggS"\\)', 'put(&mut bytes, [0x4fu8, 0x67u8, 0x67u8, 0x53u8].as_slice())'),
            ('re:bytes\\.extend\\(self\\.header\\.abgp\\.to_le_bytes\\(\\)\\)', 'put_u64(&mut bytes, self.header.abgp)'),
            ('re:bytes\\.extend\\((self\\.header\\.\\w+)\\.to_le_bytes\\(\\)\\)', r'put_u32(&mut bytes, \1)', 3),
            ('bytes.extend(segment_table)', 'put(&mut bytes, segment_table.as_slice())'),
            ('bytes.extend(self.content.iter())', 'put(&mut bytes, self.content.as_slice())'),
            ('re:Vec::with_capacity\\([^;]*\\);', 'Vec::new();')],
      ins=[('before', 'put(&mut bytes, segment_table.as_slice())', '''proof {
        le64_inv(self.header.abgp); le32_inv(self.header.stream_serial); le32_inv(self.header.sequence_number); le32_inv(self.header.checksum);
        assert([0x4fu8, 0x67u8, 0x67u8, 0x53u8]@ =~= capture());
        assert(bytes@.subrange(0, 4) =~= capture());
        assert(bytes@.subrange(6, 14) =~= le64_bytes(self.header.abgp));
        assert(bytes@.subrange(14, 18) =~= le32_bytes(self.header.stream_serial));
        assert(bytes@.subrange(18, 22) =~= le32_bytes(self.header.sequence_number));
        assert(bytes@.subrange(22, 26) =~= le32_bytes(self.header.checksum));
    }
    let ghost v1 = bytes@;'''), ('after', 'put(&mut bytes, self.content.as_slice());', '''proof {
        assert(bytes@.take(27) =~= v1);
        assert(bytes@.subrange(0, 4) =~= v1.subrange(0, 4));
        assert(bytes@.subrange(6, 14) =~= v1.subrange(6, 14));
        assert(bytes@.subrange(14, 18) =~= v1.subrange(14, 18));
        assert(bytes@.subrange(18, 22) =~= v1.subrange(18, 22));
        assert(bytes@.subrange(22, 26) =~= v1.subrange(22, 26));
        assert(bytes@.subrange(27, 27 + self.header.segments@.len() as int) =~= self.header.segments@);
        assert(bytes@ =~= page_bytes(self.header, self.content@));
        assert(bytes@.skip(27 + self.header.segments@.len() as int) =~= self.content@);
    }''')]),
   Fn(L, 'gen_crc', 'impl Page', spec='''requires old(self).header.segments@.len() <= 255, old(self).content@.len() + 300 <= usize::MAX,
      ensures final(self).content == old(self).content, final(self).end == old(self).end, final(self).header == (PageHeader { checksum: ogg_crc(page_bytes(PageHeader { checksum: 0, ..old(self).header }, old(self).content@)), ..old(self).header }),''',
      subs=[('re:crc::crc32\\(&self\\.as_bytes\\(\\)\\)', 'crc32(self.as_bytes().as_slice())')]),
   Fn(L, 'content', 'impl Page', spec='ensures r@ == self.content@,'),
   Fn(L, 'take_content', 'impl Page', spec='ensures r@ == self.content@,'),
 '}', '''
} // verus!
''']
