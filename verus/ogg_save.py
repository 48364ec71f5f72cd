"""Saving Vorbis comments into an Ogg file: the header packets repaginated with the new comment packet, the pages of
the stream behind them renumbered, everything else as it was."""
import re
import ogg
import rd
W = 'lofty/src/ogg/tag/write.rs'
M = 'lofty/src/ogg/mod.rs'
C = 'lofty/src/ogg/constants.rs'
H = 'ogg_pager/src/header.rs'
L = 'ogg_pager/src/lib.rs'
K = 'ogg_pager/src/packets.rs'
ASSUMED = rd.FILE_ASSUMED + ['reading from a file takes the bytes at its position', 'Packets::read_count, get, set, paginate, PageHeader::read, Page::read, as_bytes, gen_crc, create_metadata_packet: the contracts proved in read_packets, packets, paginate, page_header, ogg_comments',
   'one logical stream begins the file, which is read from its start; files below 2^35 bytes, tags below 2^36', 'a page is read to its end or not at all from bytes in memory']
DROPS = ['errors carry nothing', 'VerifiedFile is the file and its format', 'text is the bytes it encodes', '`while let` becomes loop/match, `for` over the pages a loop that takes them from the front', 'slices of byte strings are compared and cut by contracted functions']
T = rd.file_prelude('E')
T = T[:T.rindex('}')] + '''
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<(), E>)
        requires old(self).g().at <= old(self).g().data.len(),
        ensures final(self).g().data == old(self).g().data, final(self).g().faulty == old(self).g().faulty,
            r is Ok ==> final(b)@ == old(b)@ + old(self).g().data.skip(old(self).g().at as int),
            r is Err ==> old(self).g().faulty;
}
'''
LE = '''
pub open spec fn le32(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8u32) | ((s[2] as u32) << 16u32) | ((s[3] as u32) << 24u32) }
pub open spec fn le64(s: Seq<u8>) -> u64 { (le32(s.take(4)) as u64) | ((le32(s.skip(4)) as u64) << 32u64) }
'''


def consts(Src):
    t = Src(C).text
    out = ''
    for n in ('OPUSTAGS', 'VORBIS_COMMENT_HEAD'):
        m = re.search(r'const ' + n + r': &\[u8\] = &\[([0-9, ]+)\];', t)
        if not m:
            raise Lost(n)
        vals = ', '.join(v.strip() + 'u8' for v in m[1].split(',') if v.strip())
        out += f"#[verifier::external_body]\nfn {n.lower()}() -> (r: &'static [u8]) ensures r@ == seq![{vals}] {{ unimplemented!() }}\n"
    return out


ERRS = [('re:FileParseError::message\\(\\s*None,\\s*"[^"]*"\\s*,?\\s*\\)\\.into\\(\\)', 'E {}', '*'), ('re:FileParseError::message\\(\\s*None,\\s*"[^"]*"\\s*,?\\s*\\)', 'E {}', '*'), ('re:\\.map_err\\((?:FileParseError|TagEncodingError)::from\\)', '', '*'), ('re:\\.map_err\\(\\|e\\| FileEncodingError::new\\(format, e\\.into\\(\\)\\)\\)', '', '*')]
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct E {}
pub struct LittleEndian;
''', T, LE, ogg.LE, ogg.COMMENTS, Item(H, 'struct', 'PageHeader'), Item(L, 'struct', 'Page'), Item(K, 'struct', 'Packets'),
ogg.PAGES, ogg.RUN, ogg.PAGINATED, ogg.SLICES, ogg.PAGE_BYTES, ogg.PAGED, ogg.HEADER_IS, Item(L, 'const', 'CONTAINS_FIRST_PAGE_OF_BITSTREAM'), Gen(consts), '''
pub enum FileType { Opus, Vorbis, Speex, Other }
#[derive(Clone, Copy)]
pub struct WriteOptions {}
''', ogg.VIEW, '''impl PageHeader {
    #[verifier::external_body]
    fn read<F: Fl>(data: &mut F) -> (r: Result<PageHeader, E>)
      ensures final(data).g().data == old(data).g().data, final(data).g().faulty == old(data).g().faulty,
        r matches Ok(h) ==> well_formed(old(data).g().data, old(data).g().at as int) && header_is(h, old(data).g().data, old(data).g().at as int),
        r is Err ==> old(data).g().faulty || !well_formed(old(data).g().data, old(data).g().at as int),
    { unimplemented!() }
}
/// a reader over bytes in memory
#[verifier::external_body]
pub struct Mem<'a> { b: &'a [u8] }
impl<'a> Mem<'a> {
    pub uninterp spec fn d(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn new(b: &'a Vec<u8>) -> (r: Mem<'a>) ensures r.d() == b@, r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn position(&self) -> (r: u64) ensures r == self.at() { unimplemented!() }
}
spec fn page_end(d: Seq<u8>, p: int) -> int { p + 27 + segs(d, p).len() + sum(segs(d, p)) }
impl Page {
    #[verifier::external_body]
    fn read<'a>(data: &mut Mem<'a>) -> (r: Result<Page, E>)
      ensures final(data).d() == old(data).d(),
        r matches Ok(pg) ==> {
            let d = old(data).d(); let p = old(data).at();
            page_fits(d, p) && header_is(pg.header, d, p) && pg.content@ == d.subrange(p + 27 + segs(d, p).len(), page_end(d, p)) && final(data).at() == page_end(d, p)
        },
        r is Err ==> !page_fits(old(data).d(), old(data).at()),
    { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: Vec<u8>) requires self.header.segments@.len() <= 255, self.content@.len() + 300 <= usize::MAX, ensures r@ == page_bytes(self.header, self.content@) { unimplemented!() }
    #[verifier::external_body]
    fn gen_crc(&mut self) requires old(self).header.segments@.len() <= 255, old(self).content@.len() + 300 <= usize::MAX,
      ensures final(self).content == old(self).content, final(self).end == old(self).end, final(self).header == (PageHeader { checksum: ogg_crc(page_bytes(PageHeader { checksum: 0, ..old(self).header }, old(self).content@)), ..old(self).header }) { unimplemented!() }
}
proof fn off_mono(s: Seq<u64>, i: int, j: int) requires 0 <= i <= j <= s.len(), ensures 0 <= off(s, i) <= off(s, j), j > i ==> off(s, i) + s[i] <= off(s, j), decreases j - i { off_pos(s, i); if i < j { off_mono(s, i, j - 1); } }
proof fn off_pos(s: Seq<u64>, i: int) ensures 0 <= off(s, i) decreases i { if i > 0 { off_pos(s, i - 1); } }
/// the number of pages of some packets
proof fn offset_bound(ps: Seq<&[u8]>, content: Seq<u8>, s: Seq<u64>, i: int)
    requires slices_of(ps, content, s), wf(content, s), 0 <= i <= s.len(),
    ensures 0 <= offset(ps.take(i)) <= off(s, i) / 8160 + i, decreases i
{
    if i > 0 {
        offset_bound(ps, content, s, i - 1); off_mono(s, i, s.len() as int); off_mono(s, i - 1, i);
        assert(ps.take(i).drop_last() =~= ps.take(i - 1));
        assert(ps[i - 1]@.len() == s[i - 1]);
    }
}
proof fn fits_all(content: Seq<u8>, s: Seq<u64>) requires wf(content, s), content.len() < 0x40_0000_0000, s.len() <= 3,
    ensures forall|ps: Seq<&[u8]>| #[trigger] slices_of(ps, content, s) ==> fits(ps) && offset(ps) <= 0x400_0000 {
    assert forall|ps: Seq<&[u8]>| #[trigger] slices_of(ps, content, s) implies fits(ps) && offset(ps) <= 0x400_0000 by {
        offset_bound(ps, content, s, s.len() as int); assert(ps.take(s.len() as int) =~= ps);
        assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] ps[j])@.len() < 0x4000_0000_0000_0000 by { off_mono(s, j, j + 1); off_mono(s, j + 1, s.len() as int); }
    }
}
#[verifier::external_body]
fn first(v: &mut Vec<Page>) -> (r: Page) requires old(v)@.len() > 0, ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { unimplemented!() }
''', 'impl Packets {', '''
    #[verifier::external_body]
    fn read_count<F: Fl>(data: &mut F, count: isize) -> (r: Result<Packets, E>)
      requires count > 0, old(data).g().data.len() < 0x8000_0000_0000_0000,
      ensures final(data).g().data == old(data).g().data, final(data).g().faulty == old(data).g().faulty,
        r matches Ok(list) ==> list.packet_sizes@.len() == count && some_run(list.content@, list.packet_sizes@, old(data).g().data, old(data).g().at as int, final(data).g().at as int)
            && off(list.packet_sizes@, count as int) == list.content@.len() && list.content@.len() <= old(data).g().data.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, idx: usize) -> (r: Option<&[u8]>)
      requires wf(self.content@, self.packet_sizes@), self.content@.len() < 0x8000_0000_0000_0000,
      ensures r is Some == (idx < self.packet_sizes@.len()), r matches Some(p) ==> p@ == view(self.content@, self.packet_sizes@)[idx as int],
    { unimplemented!() }
    #[verifier::external_body]
    fn set(&mut self, idx: usize, content: Vec<u8>) -> (r: bool)
      requires wf(old(self).content@, old(self).packet_sizes@), old(self).content@.len() < 0x8000_0000_0000_0000,
      ensures r == (idx < old(self).packet_sizes@.len()),
        !r ==> *final(self) == *old(self),
        r ==> view(final(self).content@, final(self).packet_sizes@) == view(old(self).content@, old(self).packet_sizes@).update(idx as int, content@) && wf(final(self).content@, final(self).packet_sizes@)
          && final(self).packet_sizes@.len() == old(self).packet_sizes@.len() && final(self).content@.len() <= old(self).content@.len() + content@.len(),
    { unimplemented!() }
''',
'''    #[verifier::external_body]
    fn write_to<F: Fl>(&self, writer: &mut F, stream_serial: u32, abgp: u64, flags: u8) -> (r: Result<usize, E>)
        ''', ogg.WRITE_TO, ''' { unimplemented!() }
''',
'}', '''
proof fn bytes_len(h: PageHeader, c: Seq<u8>) ensures page_bytes(h, c).len() == 27 + h.segments@.len() + c.len() {}
''']
PARTS += ['''
fn is_empty(v: &Vec<u8>) -> (r: bool) ensures r == (v@.len() == 0) { v.len() == 0 }
fn starts_with4(v: &Vec<u8>, a: u8, b: u8, c: u8, d: u8) -> (r: bool) ensures r == (v@.len() >= 4 && v@.subrange(0, 4) == seq![a, b, c, d])
{ proof { if v@.len() >= 4 { let s = v@.subrange(0, 4); if v[0] == a && v[1] == b && v[2] == c && v[3] == d { assert(s =~= seq![a, b, c, d]); } else if s == seq![a, b, c, d] { assert(s[0] == a && s[1] == b && s[2] == c && s[3] == d); assert(s[0] == v[0] && s[1] == v[1] && s[2] == v[2] && s[3] == v[3]); } } } v.len() >= 4 && v[0] == a && v[1] == b && v[2] == c && v[3] == d }
#[verifier::external_body]
fn front(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len(), ensures r@ == s@.take(n as int) { unimplemented!() }
#[verifier::external_body]
fn behind(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len(), ensures r@ == s@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
fn same_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn or_empty(o: Option<&'static [u8]>) -> (r: &'static [u8]) ensures r@ == (match o { Some(s) => s@, None => Seq::<u8>::empty() }) { unimplemented!() }
#[verifier::external_body]
fn zeros(n: usize) -> (r: Result<Vec<u8>, E>) ensures r matches Ok(v) ==> v@.len() == n { unimplemented!() }
/// reading from a slice
#[verifier::external_body]
pub struct Bytes<'a> { b: &'a [u8] }
impl<'a> Bytes<'a> {
    pub uninterp spec fn left(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn new(b: &'a [u8]) -> (r: Bytes<'a>) ensures r.left() == b@ { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<O>(&mut self) -> (r: Result<u32, E>) ensures (r is Ok) == (old(self).left().len() >= 4), r matches Ok(v) ==> v == le32(old(self).left()) && final(self).left() == old(self).left().skip(4) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, v: &mut Vec<u8>) -> (r: Result<(), E>) ensures (r is Ok) == (old(self).left().len() >= old(v)@.len()), final(v)@.len() == old(v)@.len(), r is Ok ==> final(v)@ == old(self).left().take(old(v)@.len() as int) { unimplemented!() }
}
''', Fn(M, 'verify_signature', sig=[('FileParseError', 'E')], spec='ensures (r is Ok) == (content@.len() >= sig@.len() && content@.take(sig@.len() as int) == sig@),',
   subs=ERRS + [('re:&content\\[\\.\\.sig_len\\] != sig', '!same_bytes(front(content, sig_len), sig)')]), '''
#[verifier::external_body]
fn create_metadata_packet(tag: &mut CommentsRef, comment_signature: &[u8], add_framing_bit: bool) -> (r: Result<Vec<u8>, E>)
    requires counted(old(tag).items@, old(tag).pictures@), old(tag).vendor@.len() <= 0xFFFF_FFFF,
    ensures (r is Ok) == !too_long(all_fields(old(tag).items@, old(tag).pictures@)),
      r matches Ok(v) ==> v@ == meta(comment_signature@, old(tag).vendor@, old(tag).items@, old(tag).pictures@, add_framing_bit),
{ unimplemented!() }

// ---- what a saved file is
spec fn signature(f: FileType) -> Seq<u8> { match f { FileType::Opus => seq![79u8, 112, 117, 115, 84, 97, 103, 115], FileType::Vorbis => seq![3u8, 118, 111, 114, 98, 105, 115], _ => seq![] } }
spec fn packet_count(f: FileType) -> int { if f is Vorbis { 3 } else { 2 } }
/// the vendor of a comment packet: kept, unless it is not text
spec fn kept_vendor(old_packet: Seq<u8>, f: FileType) -> Seq<u8> {
    let b = old_packet.skip(signature(f).len() as int);
    let v = b.skip(4).take(le32(b) as int);
    if Text::valid(v) { v } else { seq![] }
}
spec fn readable(old_packet: Seq<u8>, f: FileType) -> bool {
    let n = signature(f).len() as int;
    old_packet.len() >= n && old_packet.take(n) == signature(f) && old_packet.len() >= n + 4 && old_packet.len() >= n + 4 + le32(old_packet.skip(n))
}
spec fn serial_at(d: Seq<u8>, p: int) -> u32 { le32(d.subrange(p + 14, p + 18)) }
/// the page in x with the number n and its checksum
spec fn unnumbered(x: Seq<u8>, n: u32) -> Seq<u8> { x.take(18) + le32_bytes(n) + le32_bytes(0) + x.skip(26) }
spec fn numbered(x: Seq<u8>, n: u32) -> Seq<u8> { x.take(18) + le32_bytes(n) + le32_bytes(ogg_crc(unnumbered(x, n))) + x.skip(26) }
/// what is made of the bytes from p on: pages of the stream are renumbered from n on, until the first unreadable one
spec fn renumbered(d: Seq<u8>, p: int, serial: u32, n: int) -> Seq<u8> decreases (if p < d.len() { d.len() - p } else { 0 }) {
    if !page_fits(d, p) || p < 0 { d.skip(p) }
    else if serial_at(d, p) == serial { numbered(d.subrange(p, page_end(d, p)), n as u32) + renumbered(d, page_end(d, p), serial, n + 1) }
    else { d.subrange(p, page_end(d, p)) + renumbered(d, page_end(d, p), serial, n) }
}
spec fn saved_with(d: Seq<u8>, e: Seq<u8>, f: FileType, items: Seq<Field>, pics: Seq<Seq<u8>>, content: Seq<u8>, sizes: Seq<u64>, end: int, pages: Seq<Page>) -> bool {
    let was = view(content, sizes);
    &&& well_formed(d, 0) && sizes.len() == packet_count(f) && some_run(content, sizes, d, 0, end) && 0 <= end <= d.len()
    &&& readable(was[1], f)
    // the new header packets
    &&& paged(pages, was.update(1, meta(signature(f), kept_vendor(was[1], f), items, pics, f is Vorbis)), serial_at(d, 0), 0, 2)
    &&& e == flat(pages, pages.len() as int) + renumbered(d.skip(end), 0, serial_at(d, 0), pages.len() as int)
}
spec fn saved(d: Seq<u8>, e: Seq<u8>, f: FileType, items: Seq<Field>, pics: Seq<Seq<u8>>) -> bool {
    exists|content: Seq<u8>, sizes: Seq<u64>, end: int, pages: Seq<Page>| #[trigger] saved_with(d, e, f, items, pics, content, sizes, end, pages)
}
proof fn run_in(content: Seq<u8>, sizes: Seq<u64>, d: Seq<u8>, end: int) requires some_run(content, sizes, d, 0, end), ensures 0 <= end <= d.len() {
    let (k, j) = choose|k: int, j: int| #[trigger] is_run(content, sizes, d, 0, k, j) && run_end(d, 0, k, j) == end;
    pos_in(d, k);
}
proof fn pos_in(d: Seq<u8>, k: int) requires pages_ok(d, 0, k), ensures 0 <= pos(d, 0, k) <= d.len() decreases k { if k > 0 { assert(page_fits(d, pos(d, 0, k - 1))); pos_in(d, k - 1); } }
proof fn sum_bound(s: Seq<u8>) ensures sum(s) <= 255 * s.len() decreases s.len() { if s.len() > 0 { sum_bound(s.drop_last()); } }
proof fn bytes_le32(s: Seq<u8>) requires s.len() == 4, ensures le32_bytes(le32(s)) == s {
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    let x = (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert((x & 0xff) as u8 == a && ((x >> 8u32) & 0xff) as u8 == b && ((x >> 16u32) & 0xff) as u8 == c && ((x >> 24u32) & 0xff) as u8 == d) by (bit_vector)
        requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(le32_bytes(x) =~= s);
}
proof fn bytes_le64(s: Seq<u8>) requires s.len() == 8, ensures le64_bytes(le64(s)) == s {
    let lo = le32(s.take(4)); let hi = le32(s.skip(4)); let x = (lo as u64) | ((hi as u64) << 32u64);
    assert((x & 0xffff_ffff) as u32 == lo && (x >> 32u64) as u32 == hi) by (bit_vector) requires x == (lo as u64) | ((hi as u64) << 32u64);
    bytes_le32(s.take(4)); bytes_le32(s.skip(4)); assert(s.take(4) + s.skip(4) =~= s);
}
/// a page that was read is written as it was
proof fn page_same(d: Seq<u8>, p: int, h: PageHeader, c: Seq<u8>)
    requires page_fits(d, p), p >= 0, header_is(h, d, p), c == d.subrange(p + 27 + segs(d, p).len(), page_end(d, p)),
    ensures page_bytes(h, c) == d.subrange(p, page_end(d, p)), h.segments@.len() <= 255, c.len() <= 65025,
{
    sum_bound(segs(d, p));
    bytes_le64(d.subrange(p + 6, p + 14)); bytes_le32(d.subrange(p + 14, p + 18)); bytes_le32(d.subrange(p + 18, p + 22)); bytes_le32(d.subrange(p + 22, p + 26));
    let x = page_bytes(h, c); let y = d.subrange(p, page_end(d, p));
    assert(segs(d, p).len() == d[p + 26]);
    assert(x.len() == y.len());
    let a = d.subrange(p, p + 4) + seq![d[p + 4], d[p + 5]] + d.subrange(p + 6, p + 14) + d.subrange(p + 14, p + 18) + d.subrange(p + 18, p + 22) + d.subrange(p + 22, p + 26) + seq![d[p + 26]] + segs(d, p) + c;
    assert(x =~= a);
    assert(a =~= y);
}
/// a page with another number and its checksum
proof fn page_numbered(d: Seq<u8>, p: int, h: PageHeader, c: Seq<u8>, n: u32)
    requires page_fits(d, p), p >= 0, header_is(h, d, p), c == d.subrange(p + 27 + segs(d, p).len(), page_end(d, p)),
    ensures ({ let z = PageHeader { sequence_number: n, checksum: 0, ..h }; page_bytes(PageHeader { checksum: ogg_crc(page_bytes(z, c)), ..z }, c) == numbered(d.subrange(p, page_end(d, p)), n) }),
{
    page_same(d, p, h, c);
    let y = page_bytes(h, c); let z = PageHeader { sequence_number: n, checksum: 0, ..h };
    assert(page_bytes(z, c) =~= unnumbered(y, n));
    let k = ogg_crc(page_bytes(z, c));
    assert(page_bytes(PageHeader { checksum: k, ..z }, c) =~= numbered(y, n));
}
''',
'''
proof fn next_page(d: Seq<u8>, p: int, serial: u32, n: int) requires page_fits(d, p), p >= 0,
    ensures page_end(d, p) >= p + 28, page_end(d, p) <= d.len(), renumbered(d, p, serial, n) == (if serial_at(d, p) == serial { numbered(d.subrange(p, page_end(d, p)), n as u32) + renumbered(d, page_end(d, p), serial, n + 1) }
      else { d.subrange(p, page_end(d, p)) + renumbered(d, page_end(d, p), serial, n) }) {}
proof fn last_page(d: Seq<u8>, p: int, serial: u32, n: int) requires !page_fits(d, p), ensures renumbered(d, p, serial, n) == d.skip(p) {}
spec fn resealed(h: PageHeader, c: Seq<u8>, n: u32) -> PageHeader { let z = PageHeader { sequence_number: n, checksum: 0, ..h }; PageHeader { checksum: ogg_crc(page_bytes(z, c)), ..z } }
proof fn few_pages(pages: Seq<Page>, content: Seq<u8>, s: Seq<u64>, serial: u32, abgp: u64, flags: u8)
    requires paged(pages, view(content, s), serial, abgp, flags), wf(content, s), content.len() < 0x40_0000_0000, s.len() <= 3, ensures pages.len() <= 0x400_0000 {
    let q = choose|q: Seq<&[u8]>| #[trigger] the_slices(q, view(content, s)) && all_ok(pages, q, serial, abgp, flags, if flags & 4 != 0 { offset(q) - 1 } else { -1 });
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] q[i])@ == content.subrange(off(s, i), off(s, i + 1)) by { assert(q[i]@ == view(content, s)[i]); }
    assert(slices_of(q, content, s)); fits_all(content, s);
}
proof fn few_pages_all(content: Seq<u8>, s: Seq<u64>, serial: u32, abgp: u64, flags: u8) requires wf(content, s), content.len() < 0x40_0000_0000, s.len() <= 3,
    ensures forall|pages: Seq<Page>| #[trigger] paged(pages, view(content, s), serial, abgp, flags) ==> pages.len() <= 0x400_0000 {
    assert forall|pages: Seq<Page>| #[trigger] paged(pages, view(content, s), serial, abgp, flags) implies pages.len() <= 0x400_0000 by { few_pages(pages, content, s, serial, abgp, flags); }
}
proof fn meta_len(sig: Seq<u8>, vendor: Seq<u8>, items: Seq<Field>, pics: Seq<Seq<u8>>, framing: bool) ensures meta(sig, vendor, items, pics, framing).len() <= sig.len() + vendor.len() + 8 + pack(all_fields(items, pics)).len() + 1 {}
proof fn page_len(d: Seq<u8>, p: int, h: PageHeader, c: Seq<u8>)
    requires page_fits(d, p), p >= 0, header_is(h, d, p), c == d.subrange(p + 27 + segs(d, p).len(), page_end(d, p)),
    ensures h.segments@.len() <= 255, c.len() <= 65025, page_end(d, p) >= p + 28, page_end(d, p) <= d.len() { page_same(d, p, h, c); }
/// one more page written
proof fn step(d: Seq<u8>, p: int, h: PageHeader, c: Seq<u8>, w: PageHeader, serial: u32, n: int, n2: int, f: Seq<u8>, target: Seq<u8>)
    requires page_fits(d, p), p >= 0, header_is(h, d, p), c == d.subrange(p + 27 + segs(d, p).len(), page_end(d, p)),
      w == (if h.stream_serial == serial { resealed(h, c, n as u32) } else { h }), n2 == (if h.stream_serial == serial { n + 1 } else { n }),
      f + renumbered(d, p, serial, n) == target,
    ensures f + page_bytes(w, c) + renumbered(d, page_end(d, p), serial, n2) == target, page_bytes(w, c).len() == page_end(d, p) - p, page_end(d, p) >= p + 28, page_end(d, p) <= d.len(),
{
    hide(page_bytes); hide(page_fits); hide(numbered); hide(renumbered);
    page_same(d, p, h, c); page_numbered(d, p, h, c, n as u32); next_page(d, p, serial, n);
    bytes_len(h, c); bytes_len(w, c);
    let t = renumbered(d, page_end(d, p), serial, n2); let x = page_bytes(w, c);
    assert(f + (x + t) =~= f + x + t);
}
''',
Fn(W, 'write', head='#[verifier::rlimit(60)]\n#[verifier::allow_complex_invariants]\n#[verifier::loop_isolation(false)]\n', sig=[("re:write<'a, F, II, IP>", 'write<F: Fl>'), ("file: VerifiedFile<'_, F>", 'file: &mut F, format: FileType'), ("tag: &mut VorbisCommentsRef<'a, II, IP>", 'tag: &mut CommentsRef'), ('FileEncodingError', 'E'), ('re:where.*', '')],
   spec='''requires old(file).g().at == 0, old(file).g().data.len() < 0x8_0000_0000, !(format is Other), counted(old(tag).items@, old(tag).pictures@), pack(all_fields(old(tag).items@, old(tag).pictures@)).len() < 0x10_0000_0000,
    ensures r is Ok ==> saved(old(file).g().data, final(file).g().data, format, old(tag).items@, old(tag).pictures@),
      r is Err ==> old(file).g().faulty || final(file).g().data == old(file).g().data,''',
   subs=[ERRS[0], ERRS[2], ERRS[3], ('let format = file.format();', ''), ('let mut file = file.into_inner();', ''), ('re:&mut file\\b', 'file', '*'),
      ('Some(OPUSTAGS)', 'Some(opustags())'), ('Some(VORBIS_COMMENT_HEAD)', 'Some(vorbis_comment_head())'), ('re:_ => unreachable!\\("[^"]*"\\)', '_ => vstd::pervasive::unreached()'),
      ('re:(\\w+)\\.is_empty\\(\\)', r'is_empty(&\1)', 1), ('re:(\\w+)\\.starts_with\\(b"(.)(.)(.)(.)"\\)', lambda m: f'starts_with4(&{m[1]}, ' + ', '.join(str(ord(m[i])) for i in (2, 3, 4, 5)) + ')'),
      ('re:let comment_packet = packets\\s*\\.get\\((\\d+)\\)\\s*\\.ok_or_else\\(\\|\\| FileParseError::message\\([^()]*\\)\\)\\?;', r'let comment_packet = match packets.get(\1) { Some(x) => x, None => { return Err(E {}); } };'),
      ('comment_signature.unwrap_or_default()', 'or_empty(comment_signature)'), ('re:let md_reader = &mut &comment_packet\\[comment_signature\\.len\\(\\)\\.\\.\\];', 'let mut md_reader = Bytes::new(behind(comment_packet, comment_signature.len()));'),
      ('re:try_vec!\\[0; ((?:[^\\[\\]])*)\\]', r'zeros(\1)'), ('String::from_utf8', 'Text::from_utf8'), ('re:Cow::Owned\\((\\w+)\\)', r'\1'), ('re:Cow::Borrowed\\(""\\)', 'Text::empty()'),
      ('format == FileType::Vorbis', 'matches!(format, FileType::Vorbis)'),
      ('re:Cursor::new\\(&(\\w+)\\[\\.\\.\\]\\)', r'Mem::new(&\1)'), ('re:while let Ok\\((mut )?(\\w+)\\) = Page::read\\(&mut (\\w+)\\) \\{', r'loop { let mut \2 = match Page::read(&mut \3) { Ok(x) => x, Err(_) => { break; } };'),
      ('page.header_mut()', '&mut page.header'), ('let mut idx = 0;', 'let mut idx: u32 = 0;'), ('let mut pages_end = 0;', 'let mut pages_end: usize = 0;'), ('re:file\\.write_all\\(&page\\.as_bytes\\(\\)\\)', 'file.write_all(page.as_bytes().as_slice())'), ('re:&remaining_file_content\\[(\\w+)\\.\\.\\]', r'behind(remaining_file_content.as_slice(), \1)')],
   loops=['''invariant_except_break pages_end == pages_reader.at(),
      invariant 0 <= pages_end <= rem.len(), pages_reader.d() == rem, idx * 28 <= pages_end, file.g().faulty == faulty, faulty == old(file).g().faulty, file.g().at == file.g().data.len(), file.g().data.len() <= base + pages_end,
        file.g().data + renumbered(rem, pages_end as int, serial, pages_written + idx) == head + renumbered(rem, 0, serial, pages_written as int),
      ensures !page_fits(rem, pages_end as int),
      decreases rem.len() - pages_end,'''],
   ins=[('start', '', 'hide(renumbered); hide(meta); hide(pack); hide(page_bytes); hide(paged); hide(flat); hide(numbered); hide(page_fits); hide(well_formed); hide(some_run); hide(all_fields); hide(segs); hide(sum); hide(page_end); let ghost d = file.g().data; let ghost faulty = file.g().faulty; let ghost items = tag.items@; let ghost pics = tag.pictures@; let ghost all = all_fields(items, pics);'),
     ('before', 'let mut remaining_file_content', 'let ghost content0 = packets.content@; let ghost sizes0 = packets.packet_sizes@; let ghost end = file.g().at as int; let ghost was = view(content0, sizes0); let ghost serial = stream_serial; proof { run_in(content0, sizes0, d, end); }'),
     ('after', 'file.read_to_end(&mut remaining_file_content)?;', 'let ghost rem = d.skip(end); proof { assert(remaining_file_content@ =~= rem); }'),
     ('before', 'let vendor_len = md_reader', 'proof { assert(comment_packet@ == was[1]); }'),
     ('before', 'let vendor_str;', 'proof { let sg = signature(format); let n = sg.len() as int; assert(comment_signature@ == sg); assert(was[1].take(n) == sg); assert(was[1].skip(n).len() == was[1].len() - n); assert(vendor_len == le32(was[1].skip(n))); assert(was[1].skip(n).skip(4).len() >= vendor_len); assert(readable(was[1], format)); assert(vendor@ == was[1].skip(signature(format).len() as int).skip(4).take(vendor_len as int)); }'),
     ('after', 'tag.vendor = vendor_str;', 'proof { assert(tag.vendor@ == kept_vendor(was[1], format)); }'),
     ('before', 'packets.set(1, new_metadata_packet);', 'let ghost m = new_metadata_packet@; proof { assert(m == meta(signature(format), kept_vendor(was[1], format), items, pics, format is Vorbis)); meta_len(signature(format), kept_vendor(was[1], format), items, pics, format is Vorbis); assert(m.len() <= 8 + 8 + 0xFFFF_FFFF + pack(all).len() + 1); }'),
     ('before', 'let pages_written', 'proof { fits_all(packets.content@, packets.packet_sizes@); few_pages_all(packets.content@, packets.packet_sizes@, serial, 0, 2); }'),
     ('before', 'let mut pages_reader', '''let ghost pages = choose|pages: Seq<Page>| #[trigger] paged(pages, was.update(1, m), serial, 0, 2) && pages_written == pages.len() && file.g().data == Seq::<u8>::empty() + flat(pages, pages.len() as int);
        let ghost head = file.g().data; let ghost base = head.len() as int;
        proof { assert(head =~= flat(pages, pages.len() as int)); }'''),
     ('after', 'let mut idx: u32 = 0;', 'proof { assert(rem.skip(0) =~= rem); }'),
     ('before', 'pages_end = pages_reader', '''let ghost p0 = pages_end as int; let ghost h0 = page.header; let ghost c0 = page.content@; let ghost f0 = file.g().data; let ghost i0 = idx; let ghost nx = pages_written + idx; proof { page_len(rem, p0, h0, c0); }'''),
     ('before', 'file.write_all(page.as_bytes().as_slice())?;', 'proof { bytes_len(page.header, page.content@); assert(page.content@ == c0 && page.header.segments == h0.segments); assert(base < 0x1000_0000_0000_0000); }'),
     ('after', 'file.write_all(page.as_bytes().as_slice())?;', '''proof {
        assert(page.header == if h0.stream_serial == serial { resealed(h0, c0, nx as u32) } else { h0 }); assert(page.content@ == c0);
        step(rem, p0, h0, c0, page.header, serial, nx, pages_written + idx, f0, head + renumbered(rem, 0, serial, pages_written as int));
        assert(file.g().data =~= f0 + page_bytes(page.header, c0));
     }'''),
     ('before', 'file.write_all(behind(remaining_file_content', 'let ghost f1 = file.g().data; proof { last_page(rem, pages_end as int, serial, pages_written + idx); }'),
     ('before', 'Ok(())', 'proof { assert(file.g().data =~= f1 + rem.skip(pages_end as int)); assert(saved_with(d, file.g().data, format, items, pics, content0, sizes0, end, pages)); }'),
   ]),
'''
} // verus!
''']
