"""What a Vorbis comment packet is, shared by the units that build and save one."""
LE = '''
pub open spec fn le32_bytes(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8u32) & 0xff) as u8, ((x >> 16u32) & 0xff) as u8, ((x >> 24u32) & 0xff) as u8] }
'''
COMMENTS = '''
pub type Field = (Seq<u8>, Seq<u8>);
/// KEY=value
pub open spec fn field(k: Seq<u8>, v: Seq<u8>) -> Seq<u8> { k + seq![0x3du8] + v }
/// the fields of the first n items: those without a value are left out
pub open spec fn fields(q: Seq<Field>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { seq![] } else if q[n - 1].1.len() == 0 { fields(q, n - 1) } else { fields(q, n - 1).push(field(q[n - 1].0, q[n - 1].1)) }
}
pub open spec fn picture_key() -> Seq<u8> { seq![77u8, 69, 84, 65, 68, 65, 84, 65, 95, 66, 76, 79, 67, 75, 95, 80, 73, 67, 84, 85, 82, 69, 61] }
/// the fields of the first n pictures, given the base64 text of each
pub open spec fn pictures(q: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { seq![] } else { pictures(q, n - 1).push(picture_key() + q[n - 1]) } }
/// each field after its length
pub open spec fn pack(f: Seq<Seq<u8>>) -> Seq<u8> decreases f.len() { if f.len() == 0 { seq![] } else { pack(f.drop_last()) + le32_bytes(f.last().len() as u32) + f.last() } }
pub open spec fn too_long(f: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).len() > 0xFFFF_FFFF }
pub open spec fn all_fields(items: Seq<Field>, pics: Seq<Seq<u8>>) -> Seq<Seq<u8>> { fields(items, items.len() as int) + pictures(pics, pics.len() as int) }
pub open spec fn counted(items: Seq<Field>, pics: Seq<Seq<u8>>) -> bool { items.len() < 0x7FFF_FFFF && pics.len() < 0x7FFF_FFFF }
/// the whole packet
pub open spec fn meta(sig: Seq<u8>, vendor: Seq<u8>, items: Seq<Field>, pics: Seq<Seq<u8>>, framing: bool) -> Seq<u8> {
    sig + le32_bytes(vendor.len() as u32) + vendor + le32_bytes(all_fields(items, pics).len() as u32) + pack(all_fields(items, pics)) + (if framing { seq![1u8] } else { seq![] })
}
/// a text, as bytes
#[verifier::external_body]
pub struct Text {}
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Text {
    pub uninterp spec fn valid(b: Seq<u8>) -> bool;
    #[verifier::external_body]
    fn from_utf8(v: Vec<u8>) -> (r: Result<Text, E>) ensures (r is Ok) == Self::valid(v@), r matches Ok(t) ==> t@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
pub struct Picture {}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PictureInformation {}
pub uninterp spec fn picture_text(p: &Picture, i: PictureInformation) -> Seq<u8>;
impl Picture {
    #[verifier::external_body]
    fn as_flac_bytes(&self, info: PictureInformation, encode: bool) -> (r: Vec<u8>) ensures encode ==> r@ == picture_text(self, info) { unimplemented!() }
}
/// what is left of the iterators
#[verifier::external_body]
pub struct Items {}
impl View for Items { type V = Seq<Field>; uninterp spec fn view(&self) -> Seq<Field>; }
impl Items {
    #[verifier::external_body]
    fn any(&mut self) -> (r: bool) ensures final(self)@ == old(self)@, r == (old(self)@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: (&'static Text, &'static Text)) requires old(self)@.len() > 0, ensures (r.0@, r.1@) == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
#[verifier::external_body]
pub struct Pictures {}
impl View for Pictures { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl Pictures {
    #[verifier::external_body]
    fn any(&mut self) -> (r: bool) ensures final(self)@ == old(self)@, r == (old(self)@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: (&'static Picture, PictureInformation)) requires old(self)@.len() > 0, ensures picture_text(r.0, r.1) == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
pub struct CommentsRef { pub vendor: Text, pub items: Items, pub pictures: Pictures }
'''
PAGES = '''
spec fn sum(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat } }
proof fn sum_step(s: Seq<u8>, i: int) requires 0 <= i < s.len(), ensures sum(s.take(i + 1)) == sum(s.take(i)) + s[i]
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
spec fn capture() -> Seq<u8> { seq![0x4fu8, 0x67u8, 0x67u8, 0x53u8] }
spec fn well_formed(d: Seq<u8>, p: int) -> bool {
    p + 27 <= d.len() && d.subrange(p, p + 4) == capture() && d[p + 4] == 0 && d[p + 26] >= 1 && p + 27 + d[p + 26] <= d.len()
}
spec fn segs(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p + 27, p + 27 + d[p + 26]) }
'''
RUN = '''
/// What the lacing values delimit: the sizes of the finished packets, and the bytes of the one still open
struct Run { sizes: Seq<u64>, open: int }
spec fn run(l: Seq<u8>) -> Run decreases l.len() {
    if l.len() == 0 { Run { sizes: seq![], open: 0 } } else {
        let r = run(l.drop_last());
        if l.last() < 255 { Run { sizes: r.sizes.push((r.open + l.last()) as u64), open: 0 } } else { Run { sizes: r.sizes, open: r.open + 255 } }
    }
}
/// Position, lacing values and content of the first k pages at p
spec fn pos(d: Seq<u8>, p: int, k: int) -> int decreases k { if k <= 0 { p } else { let q = pos(d, p, k - 1); q + 27 + segs(d, q).len() + sum(segs(d, q)) } }
spec fn lac(d: Seq<u8>, p: int, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { lac(d, p, k - 1) + segs(d, pos(d, p, k - 1)) } }
spec fn con(d: Seq<u8>, p: int, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { let q = pos(d, p, k - 1); con(d, p, k - 1) + d.subrange(q + 27 + segs(d, q).len() as int, pos(d, p, k)) } }
spec fn pages_ok(d: Seq<u8>, p: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> page_fits(d, #[trigger] pos(d, p, i)) }
spec fn page_fits(d: Seq<u8>, q: int) -> bool { well_formed(d, q) && q + 27 + segs(d, q).len() + sum(segs(d, q)) <= d.len() }
/// the list is what the first k pages and j lacing values of the next one delimit
spec fn is_run(content: Seq<u8>, sizes: Seq<u64>, d: Seq<u8>, p: int, k: int, j: int) -> bool {
    let q = pos(d, p, k);
    let s = segs(d, q);
    let c = q + 27 + s.len() as int;
    &&& pages_ok(d, p, k) && 0 <= k && 0 <= j && (j > 0 ==> well_formed(d, q) && j <= s.len() && c + sum(s.take(j)) <= d.len())
    &&& sizes == run(if j > 0 { lac(d, p, k) + s.take(j) } else { lac(d, p, k) }).sizes
    &&& content == if j > 0 { con(d, p, k) + d.subrange(c, c + sum(s.take(j)) as int) } else { con(d, p, k) }
}
spec fn off(s: Seq<u64>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(s, i - 1) + s[i - 1] } }
proof fn off_push(s: Seq<u64>, v: u64, i: int) requires 0 <= i <= s.len(), ensures off(s.push(v), i) == off(s, i), i == s.len() ==> off(s.push(v), i + 1) == off(s, i) + v, decreases i { if i > 0 { off_push(s, v, i - 1); } }
/// where the first k pages and j lacing values of the next one end
spec fn run_end(d: Seq<u8>, p: int, k: int, j: int) -> int { let q = pos(d, p, k); if j > 0 { q + 27 + segs(d, q).len() + sum(segs(d, q).take(j)) } else { q } }
spec fn some_run(content: Seq<u8>, sizes: Seq<u64>, d: Seq<u8>, p: int, end: int) -> bool { exists|k: int, j: int| #[trigger] is_run(content, sizes, d, p, k, j) && run_end(d, p, k, j) == end }
'''
PAGINATED = '''
spec fn ceil_pages(n: int) -> int { n / 8160 + 1 }
/// page k of a packet of n bytes
spec fn page_ok(pg: Page, packet: Seq<u8>, k: int, idx: int, serial: u32, abgp: u64, bos: bool, eos: bool) -> bool {
    let n = packet.len() as int;
    let lo = k * 8160;
    let last = k == n / 8160;
    let hi = if last { n } else { lo + 8160 };
    &&& pg.content@ == packet.subrange(lo, hi)
    &&& pg.header.start == lo && pg.end == hi
    &&& pg.header.segments@ == Seq::new(((hi - lo) / 255) as nat, |i: int| 255u8) + (if last { seq![((hi - lo) % 255) as u8] } else { seq![] })
    &&& pg.header.abgp == (if last { abgp } else { 0xffff_ffff_ffff_ffffu64 })
    &&& pg.header.stream_serial == serial
    &&& pg.header.sequence_number == idx
    &&& pg.header.header_type_flag == (if k > 0 { if eos { 5u8 } else { 1u8 } } else if bos { if eos { 6u8 } else { 2u8 } } else { if eos { 4u8 } else { 0u8 } })
    &&& pg.header.checksum == 0
}
spec fn offset(packets: Seq<&[u8]>) -> int decreases packets.len() {
    if packets.len() == 0 { 0 } else { offset(packets.drop_last()) + ceil_pages(packets.last()@.len() as int) }
}
/// packet j occupies the pages from offset(first j packets) on; `eos` is the index of the page with the end mark, or -1
spec fn packet_ok(pages: Seq<Page>, packets: Seq<&[u8]>, j: int, serial: u32, abgp: u64, flags: u8, eos: int) -> bool {
    let at = offset(packets.take(j));
    let n = ceil_pages(packets[j]@.len() as int);
    at + n <= pages.len() && forall|i: int| at <= i < at + n ==> page_ok(#[trigger] pages[i], packets[j]@, i - at, i, serial, abgp, flags & 2 != 0 && at == 0, i == eos)
}
spec fn all_ok(pages: Seq<Page>, packets: Seq<&[u8]>, serial: u32, abgp: u64, flags: u8, eos: int) -> bool {
    &&& pages.len() == offset(packets)
    &&& forall|j: int| 0 <= j < packets.len() ==> #[trigger] packet_ok(pages, packets, j, serial, abgp, flags, eos)
}
spec fn fits(packets: Seq<&[u8]>) -> bool {
    offset(packets) < 0x1_0000_0000 && forall|j: int| 0 <= j < packets.len() ==> (#[trigger] packets[j])@.len() < 0x4000_0000_0000_0000
}
spec fn small(pg: Page) -> bool { pg.header.segments@.len() <= 255 && pg.content@.len() <= 8160 }
spec fn all_small(pages: Seq<Page>) -> bool { forall|i: int| 0 <= i < pages.len() ==> small(#[trigger] pages[i]) }
'''
SLICES = '''
/// ps are the packets of the list
spec fn slices_of(ps: Seq<&[u8]>, content: Seq<u8>, s: Seq<u64>) -> bool {
    ps.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] ps[i])@ == content.subrange(off(s, i), off(s, i + 1))
}
spec fn paginated(pages: Seq<Page>, content: Seq<u8>, s: Seq<u64>, serial: u32, abgp: u64, flags: u8) -> bool {
    exists|ps: Seq<&[u8]>| #[trigger] slices_of(ps, content, s) && all_ok(pages, ps, serial, abgp, flags, if flags & 4 != 0 { offset(ps) - 1 } else { -1 })
}
'''
PAGE_BYTES = '''
pub open spec fn le64_bytes(x: u64) -> Seq<u8> { le32_bytes((x & 0xffff_ffff) as u32) + le32_bytes((x >> 32u64) as u32) }
/// The serialised form of a page
pub open spec fn page_bytes(h: PageHeader, content: Seq<u8>) -> Seq<u8> {
    capture() + seq![0u8, h.header_type_flag] + le64_bytes(h.abgp) + le32_bytes(h.stream_serial) + le32_bytes(h.sequence_number)
        + le32_bytes(h.checksum) + seq![h.segments@.len() as u8] + h.segments@ + content
}
/// The remainder of the polynomial division, as unit crc proves of crc32
pub uninterp spec fn ogg_crc(s: Seq<u8>) -> u32;
'''
HEADER_IS = '''
pub open spec fn header_is(h: PageHeader, d: Seq<u8>, p: int) -> bool {
    &&& h.start == p
    &&& h.header_type_flag == d[p + 5]
    &&& h.abgp == le64(d.subrange(p + 6, p + 14))
    &&& h.stream_serial == le32(d.subrange(p + 14, p + 18))
    &&& h.sequence_number == le32(d.subrange(p + 18, p + 22))
    &&& h.checksum == le32(d.subrange(p + 22, p + 26))
    &&& h.segments@ == d.subrange(p + 27, p + 27 + d[p + 26])
}
'''
VIEW = '''
spec fn view(content: Seq<u8>, s: Seq<u64>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| content.subrange(off(s, i), off(s, i + 1))) }
spec fn wf(content: Seq<u8>, s: Seq<u64>) -> bool { off(s, s.len() as int) <= content.len() }
'''
PAGED = '''
/// a page with its checksum
spec fn sealed(pg: Page) -> Seq<u8> { page_bytes(PageHeader { checksum: ogg_crc(page_bytes(PageHeader { checksum: 0, ..pg.header }, pg.content@)), ..pg.header }, pg.content@) }
spec fn flat(pages: Seq<Page>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { flat(pages, n - 1) + sealed(pages[n - 1]) } }
spec fn the_slices(q: Seq<&[u8]>, ps: Seq<Seq<u8>>) -> bool { q.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] q[i])@ == ps[i] }
spec fn paged(pages: Seq<Page>, ps: Seq<Seq<u8>>, serial: u32, abgp: u64, flags: u8) -> bool {
    exists|q: Seq<&[u8]>| #[trigger] the_slices(q, ps) && all_ok(pages, q, serial, abgp, flags, if flags & 4 != 0 { offset(q) - 1 } else { -1 })
}
'''
WRITE_TO = '''requires wf(self.content@, self.packet_sizes@), self.content@.len() < 0x8000_0000_0000_0000, forall|ps: Seq<&[u8]>| #[trigger] slices_of(ps, self.content@, self.packet_sizes@) ==> fits(ps),
      old(writer).g().at == old(writer).g().data.len(), old(writer).g().at < 0x1000_0000_0000_0000,
    ensures final(writer).g().faulty == old(writer).g().faulty,
      r matches Ok(n) ==> exists|pages: Seq<Page>| #[trigger] paged(pages, view(self.content@, self.packet_sizes@), stream_serial, abgp, flags) && n == pages.len()
        && final(writer).g().data == old(writer).g().data + flat(pages, pages.len() as int) && final(writer).g().at == final(writer).g().data.len() && final(writer).g().data.len() <= old(writer).g().data.len() + 8442 * pages.len(),
      r is Err ==> old(writer).g().faulty,'''
