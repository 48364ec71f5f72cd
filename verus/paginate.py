"""Paginating: the pages of a packet list carry its bytes in order, delimit the packets by their lacing
values, and have the fields the framing asks for, for packets of every length."""
import ogg
P = 'ogg_pager/src/paginate.rs'
H = 'ogg_pager/src/header.rs'
L = 'ogg_pager/src/lib.rs'
K = 'ogg_pager/src/packets.rs'
ASSUMED = ['`packet.take(n).read_to_end(&mut v)` on a slice appends its first min(n, len) bytes and gives their number', 'fewer than 2^32 pages, packets shorter than 2^62 bytes in total']
DROPS = ['the packet iterator becomes a slice of packets and the `for` an index loop', 'let chains become nested ifs', 'PageError::Io carries no cause']
CTX = 'impl PaginateContext'

SPEC = '''
''' + ogg.PAGINATED + '''
proof fn offset_mono(packets: Seq<&[u8]>, j: int)
    requires 0 <= j <= packets.len(),
    ensures offset(packets.take(j)) <= offset(packets), j == 0 ==> offset(packets.take(j)) == 0, 0 <= offset(packets.take(j)),
      j < packets.len() ==> offset(packets.take(j + 1)) == offset(packets.take(j)) + ceil_pages(packets[j]@.len() as int) && offset(packets.take(j + 1)) <= offset(packets),
    decreases packets.len(),
{
    if j < packets.len() {
        assert(packets.take(j + 1).drop_last() =~= packets.take(j));
        offset_mono(packets.drop_last(), j);
        assert(packets.drop_last().take(j) =~= packets.take(j));
        if j + 1 <= packets.drop_last().len() { assert(packets.drop_last().take(j + 1) =~= packets.take(j + 1)); } else { assert(packets.take(j + 1) =~= packets); }
    } else {
        assert(packets.take(j) =~= packets);
        if j > 0 { offset_mono(packets.drop_last(), j - 1); }
    }
}
#[verifier::external_body]
fn last_mut(v: &mut Vec<Page>) -> (r: Option<&mut Page>)
    ensures match r {
        Some(p) => old(v)@.len() > 0 && *p == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(p)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@,
    }
{ v.last_mut() }
'''

PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
''', Item('ogg_pager/src/error.rs', 'enum', 'PageError', subs=[('std::io::Error', 'IoError')]), '''
pub type PResult<T> = core::result::Result<T, PageError>;
''', Item(H, 'struct', 'PageHeader'), Item(L, 'struct', 'Page'),
 *[Item(L, 'const', c) for c in ('CONTINUED_PACKET', 'MAX_WRITTEN_SEGMENT_COUNT', 'MAX_WRITTEN_CONTENT_SIZE', 'CONTAINS_FIRST_PAGE_OF_BITSTREAM', 'CONTAINS_LAST_PAGE_OF_BITSTREAM')],
 Item(P, 'struct', 'PaginateContext'), Item(P, 'struct', 'PaginateContextFlags'), SPEC, '''
#[verifier::external_body]
fn take_content_of(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r@ == old(v)@, final(v)@.len() == 0
{ core::mem::take(v) }
#[verifier::external_body]
fn take_read_to_end(packet: &[u8], n: u64, out: &mut Vec<u8>) -> (r: PResult<usize>)
    ensures r matches Ok(k) && k as int == if packet@.len() < n { packet@.len() as int } else { n as int } && final(out)@ == old(out)@ + packet@.take(k as int)
{ unimplemented!() }
fn slice_from(packet: &[u8], k: usize) -> (r: &[u8]) requires k <= packet@.len(), ensures r@ == packet@.skip(k as int)
{ vstd::slice::slice_subrange(packet, k, packet.len()) }
''', 'impl PaginateContext {',
 Fn(P, 'new', CTX, spec='''ensures r.pages@.len() == 0, r.abgp == abgp, r.stream_serial == stream_serial, r.header_flags == header_flags,
    r.flags.first_page, !r.flags.packet_finished_on_page, r.idx == 0, r.remaining_page_size == 8160, r.pos == 0,'''),
 Fn(P, 'fresh_packet', CTX, spec='''requires packet@.len() < 0x4000_0000_0000_0000,
    ensures *final(self) == (PaginateContext { flags: PaginateContextFlags { fresh_packet: true, ..old(self).flags }, pos: 0, current_packet_len: packet@.len() as usize, last_segment_size: Some((packet@.len() % 255) as u8), ..*old(self) }),'''),
 Fn(P, 'flush_page', CTX, spec='''requires
        old(content)@.len() <= 8160, old(self).last_segment_size is Some,
        old(self).pos + old(content)@.len() <= old(self).current_packet_len, old(self).idx < usize::MAX,
    ensures
        final(content)@.len() == 0,
        final(self).pages@ == old(self).pages@.push(final(self).pages@.last()), final(self).pages@.len() == old(self).pages@.len() + 1,
        ({
            let p = final(self).pages@.last();
            &&& p.content@ == old(content)@
            &&& p.end == old(self).pos + old(content)@.len()
            &&& p.header.start == old(self).pos
            &&& p.header.header_type_flag == (if old(self).flags.first_page && old(self).header_flags & 2 != 0 { 2u8 } else if !old(self).flags.fresh_packet { 1u8 } else { 0u8 })
            &&& p.header.abgp == (if old(self).flags.packet_finished_on_page { old(self).abgp } else { 0xffff_ffff_ffff_ffffu64 })
            &&& p.header.stream_serial == old(self).stream_serial
            &&& p.header.sequence_number == old(self).idx as u32
            &&& p.header.checksum == 0
            &&& p.header.segments@ == Seq::new((old(content)@.len() / 255) as nat, |i: int| 255u8)
                + (if old(content)@.len() == 8160 { seq![] } else { seq![old(self).last_segment_size->Some_0] })
        }),
        final(self).flags == (PaginateContextFlags { packet_finished_on_page: false, ..old(self).flags }),
        final(self).idx == old(self).idx + 1, final(self).remaining_page_size == 8160, final(self).pos == old(self).pos + old(content)@.len(),
        final(self).abgp == old(self).abgp, final(self).stream_serial == old(self).stream_serial, final(self).header_flags == old(self).header_flags,
        final(self).current_packet_len == old(self).current_packet_len, final(self).last_segment_size == old(self).last_segment_size,''',
    subs=[('core::mem::take(content)', 'take_content_of(content)'), ('1_u64.wrapping_neg()', '0u64.wrapping_sub(1)')],
    ins=[('before', 'self.pages.push(', 'proof { assert(header.segments@ =~= Seq::new((content@.len() / 255) as nat, |i: int| 255u8) + (if content@.len() == 8160 { seq![] } else { seq![self.last_segment_size->Some_0] })); }'),
      ('start', '', 'proof { broadcast use vstd::std_specs::vec::group_vec_axioms; }')]),
 '}',
 '''
spec fn ready(c: PaginateContext) -> bool {
    &&& c.idx == c.pages@.len() && c.remaining_page_size == 8160 && !c.flags.packet_finished_on_page
    &&& c.flags.first_page == (c.pages@.len() == 0)
}
spec fn same_stream(a: PaginateContext, b: PaginateContext) -> bool {
    a.abgp == b.abgp && a.stream_serial == b.stream_serial && a.header_flags == b.header_flags
}
/// pages at..at+k are the first k of a packet
spec fn prefix_ok(pages: Seq<Page>, at: int, k: int, packet: Seq<u8>, c: PaginateContext) -> bool {
    at + k == pages.len() && forall|i: int| at <= i < at + k ==> page_ok(#[trigger] pages[i], packet, i - at, i, c.stream_serial, c.abgp, c.header_flags & 2 != 0 && at == 0, false)
}
''',
 Fn(P, 'paginate_packet', head='#[verifier::rlimit(60)]\n', sig=[('Result<()>', 'PResult<()>')], spec='''requires
        ready(*old(ctx)), packet@.len() < 0x4000_0000_0000_0000, old(ctx).pages@.len() + ceil_pages(packet@.len() as int) < 0x1_0000_0000,
        old(ctx).flags.fresh_packet, old(ctx).pos == 0, old(ctx).current_packet_len == packet@.len(), old(ctx).last_segment_size == Some((packet@.len() % 255) as u8),
    ensures
        r is Ok, ready(*final(ctx)), same_stream(*old(ctx), *final(ctx)),
        final(ctx).pages@.take(old(ctx).pages@.len() as int) == old(ctx).pages@,
        prefix_ok(final(ctx).pages@, old(ctx).pages@.len() as int, ceil_pages(packet@.len() as int), packet@, *final(ctx)),''',
    subs=[('re:packet\\s*\\.take\\(([^()]*)\\)\\s*\\.read_to_end\\(&mut page_content\\)', r'take_read_to_end(packet, \1, &mut page_content)'),
          ('&packet[bytes_read..]', 'slice_from(packet, bytes_read)'),
          ('re:ctx\\s*\\.current_packet_len\\s*\\.is_multiple_of\\(([^()]*)\\)', r'(ctx.current_packet_len % (\1) == 0)')],
    loops=['''invariant
        same_stream(*old(ctx), *ctx), packet@.len() <= whole.len(), whole.len() < 0x4000_0000_0000_0000, at + ceil_pages(whole.len() as int) < 0x1_0000_0000,
        packet@ == whole.skip(whole.len() - packet@.len()), page_content@.len() == 0,
        ctx.pos == whole.len() - packet@.len(), ctx.current_packet_len == whole.len(), ctx.last_segment_size == Some((whole.len() % 255) as u8),
        ctx.remaining_page_size == 8160, ctx.idx == ctx.pages@.len(), !ctx.flags.packet_finished_on_page,
        packet@.len() > 0 ==> ctx.pos as int % 8160 == 0 && (ctx.flags.fresh_packet == (ctx.pos == 0)),
        packet@.len() == 0 && whole.len() > 0 ==> !ctx.flags.fresh_packet,
        whole.len() == 0 ==> ctx.flags.fresh_packet,
        ctx.flags.first_page == (ctx.pages@.len() == 0),
        at <= ctx.pages@.len(), at == old(ctx).pages@.len(), ctx.pages@.take(at) == old(ctx).pages@,
        prefix_ok(ctx.pages@, at, if packet@.len() > 0 { ctx.pos as int / 8160 } else { (whole.len() as int + 8159) / 8160 }, whole, *ctx),
      ensures packet@.len() == 0,
      decreases packet@.len(),'''],
    ins=[('start', '', 'let ghost whole = packet@; let ghost at = old(ctx).pages@.len() as int; proof { assert(packet@ =~= whole.skip(0)); assert(ctx.pages@.take(at) =~= old(ctx).pages@); }'),
         ('before', 'let bytes_read', 'let ghost c0 = *ctx; let ghost p0 = packet@; let ghost k = ctx.pos as int / 8160;'),
         ('before', 'ctx.flags.first_page = false; ctx.flags.fresh_packet', '''proof {
            let b = bytes_read as int;
            assert(packet@ =~= whole.skip(whole.len() - packet@.len()));
            assert(p0.take(b) =~= whole.subrange(c0.pos as int, c0.pos + b));
            assert(page_content@.len() == 0);
            let pg = ctx.pages@.last();
            assert(ctx.pages@.len() == c0.pages@.len() + 1);
            assert(b % 255 == whole.len() % 255 || b == 8160);
            assert(pg.header.segments@ =~= Seq::new((b / 255) as nat, |i: int| 255u8) + (if k == whole.len() / 8160 { seq![(b % 255) as u8] } else { seq![] }));
            assert(page_ok(pg, whole, k, ctx.pages@.len() - 1, ctx.stream_serial, ctx.abgp, ctx.header_flags & 2 != 0 && at == 0, false));
            assert(ctx.pages@.take(at) =~= c0.pages@.take(at));
            assert forall|i: int| at <= i < ctx.pages@.len() implies page_ok(#[trigger] ctx.pages@[i], whole, i - at, i, ctx.stream_serial, ctx.abgp, ctx.header_flags & 2 != 0 && at == 0, false) by {
                if i < c0.pages@.len() { assert(ctx.pages@[i] == c0.pages@[i]); }
            }
        }'''),
         ('before', 'ctx.flags.packet_finished_on_page = true; let mut nil_content', 'let ghost c1 = *ctx;'),
         ('after', 'ctx.flush_page(&mut nil_content);', '''proof {
            let pg = ctx.pages@.last();
            let k = whole.len() as int / 8160;
            assert(pg.content@ =~= whole.subrange(whole.len() as int, whole.len() as int));
            assert(pg.header.segments@ =~= Seq::new(0, |i: int| 255u8) + seq![0u8]);
            assert(page_ok(pg, whole, k, ctx.pages@.len() - 1, ctx.stream_serial, ctx.abgp, ctx.header_flags & 2 != 0 && at == 0, false));
            assert(ctx.pages@.take(at) =~= c1.pages@.take(at));
            assert forall|i: int| at <= i < ctx.pages@.len() implies page_ok(#[trigger] ctx.pages@[i], whole, i - at, i, ctx.stream_serial, ctx.abgp, ctx.header_flags & 2 != 0 && at == 0, false) by {
                if i < c1.pages@.len() { assert(ctx.pages@[i] == c1.pages@[i]); }
            }
        }'''),
    ]),
 Fn(P, 'paginate', sig=[("<'a, I>", "<'a>"), ('packets: I', "packets: &[&'a [u8]]"), ('Result<Vec<Page>>', 'PResult<Vec<Page>>'), ("where I: IntoIterator<Item = &'a [u8]> + 'a,", '')],
    spec='''requires fits(packets@),
    ensures r matches Ok(pages) && all_small(pages@) && all_ok(pages@, packets@, stream_serial, abgp, flags, if flags & 4 != 0 { offset(packets@) - 1 } else { -1 }),''',
    subs=[('re:for\\s+(\\w+)\\s+in\\s+packets\\s*\\{', r'let mut vx_i: usize = 0; while vx_i < packets.len() { let \1 = packets[vx_i]; let ghost c0 = ctx; proof { offset_mono(packets@, vx_i as int); }'),
          ('ctx.pages.last_mut()', 'last_mut(&mut ctx.pages)')],
    loops=['''invariant fits(packets@), vx_i <= packets@.len(), ready(ctx), ctx.abgp == abgp, ctx.stream_serial == stream_serial, ctx.header_flags == flags,
        ctx.pages@.len() == offset(packets@.take(vx_i as int)), all_small(ctx.pages@),
        forall|j: int| 0 <= j < vx_i ==> #[trigger] packet_ok(ctx.pages@, packets@, j, stream_serial, abgp, flags, -1),
      decreases packets@.len() - vx_i,'''],
    ins=[('after', 'paginate_packet(&mut ctx, packet)?;', '''vx_i = vx_i + 1;
       proof {
         offset_mono(packets@, vx_i - 1);
         assert forall|i: int| 0 <= i < ctx.pages@.len() implies small(#[trigger] ctx.pages@[i]) by { if i < c0.pages@.len() { assert(c0.pages@[i] == ctx.pages@.take(c0.pages@.len() as int)[i]); } }
         assert forall|j: int| 0 <= j < vx_i implies #[trigger] packet_ok(ctx.pages@, packets@, j, stream_serial, abgp, flags, -1) by {
            offset_mono(packets@, j);
            let at = offset(packets@.take(j));
            if j < vx_i - 1 {
                assert(packet_ok(c0.pages@, packets@, j, stream_serial, abgp, flags, -1));
                assert forall|i: int| at <= i < at + ceil_pages(packets@[j]@.len() as int) implies page_ok(#[trigger] ctx.pages@[i], packets@[j]@, i - at, i, stream_serial, abgp, flags & 2 != 0 && at == 0, i == -1) by {
                    assert(c0.pages@[i] == ctx.pages@.take(c0.pages@.len() as int)[i]);
                }
            }
         }
       }'''),
       ('before', 'if flags & CONTAINS_LAST_PAGE_OF_BITSTREAM', 'let ghost c1 = ctx; proof { assert(packets@.take(packets@.len() as int) =~= packets@); }'),
       ('before', 'Ok(ctx.pages)', '''proof {
         assert forall|i: int| 0 <= i < ctx.pages@.len() implies small(#[trigger] ctx.pages@[i]) by { assert(small(c1.pages@[i])); }
         assert(flags & 4 == 4 || flags & 4 == 0) by (bit_vector);
         let eos = if flags & 4 != 0 { offset(packets@) - 1 } else { -1 };
         assert forall|x: u8| x == 0 || x == 1 || x == 2 implies #[trigger] (x | 4u8) == (if x == 0 { 4u8 } else if x == 1 { 5u8 } else { 6u8 }) by {
            assert(0u8 | 4u8 == 4u8 && 1u8 | 4u8 == 5u8 && 2u8 | 4u8 == 6u8) by (bit_vector);
         }
         assert forall|j: int| 0 <= j < packets@.len() implies #[trigger] packet_ok(ctx.pages@, packets@, j, stream_serial, abgp, flags, eos) by {
            offset_mono(packets@, j);
            assert(packet_ok(c1.pages@, packets@, j, stream_serial, abgp, flags, -1));
            let at = offset(packets@.take(j));
            assert forall|i: int| at <= i < at + ceil_pages(packets@[j]@.len() as int) implies page_ok(#[trigger] ctx.pages@[i], packets@[j]@, i - at, i, stream_serial, abgp, flags & 2 != 0 && at == 0, i == eos) by {
                assert(page_ok(c1.pages@[i], packets@[j]@, i - at, i, stream_serial, abgp, flags & 2 != 0 && at == 0, false));
            }
         }
       }''')]),
 Item(K, 'struct', 'Packets'), '''
spec fn off(s: Seq<u64>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(s, i - 1) + s[i - 1] } }
proof fn off_mono(s: Seq<u64>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures 0 <= off(s, i) <= off(s, j), j > i ==> off(s, i) + s[i] <= off(s, j),
    decreases j - i,
{
    off_pos(s, i);
    if i < j { off_mono(s, i, j - 1); }
}
proof fn off_pos(s: Seq<u64>, i: int) ensures 0 <= off(s, i) decreases i { if i > 0 { off_pos(s, i - 1); } }
''', ogg.SLICES, '''
#[verifier::external_body]
fn slice_of(v: &Vec<u8>, a: usize, b: usize) -> (s: &[u8]) requires a <= b <= v@.len(), ensures s@ == v@.subrange(a as int, b as int)
{ &v[a..b] }
impl Packets {
''', Fn(K, 'paginate', 'impl Packets', sig=[('Result<Vec<Page>>', 'PResult<Vec<Page>>')],
    spec='''requires off(self.packet_sizes@, self.packet_sizes@.len() as int) <= self.content@.len(), self.content@.len() < 0x8000_0000_0000_0000,
        forall|ps: Seq<&[u8]>| #[trigger] slices_of(ps, self.content@, self.packet_sizes@) ==> fits(ps),
    ensures r matches Ok(pages) && all_small(pages@) && paginated(pages@, self.content@, self.packet_sizes@, stream_serial, abgp, flags),''',
    subs=[('re:let mut packets = Vec::new\\(\\)', 'let mut packets: Vec<&[u8]> = Vec::new()'), ('re:let mut pos = 0;', 'let mut pos: usize = 0;'),
      ('re:for (\\w+) in self\\.packet_sizes\\.iter\\(\\)\\.copied\\(\\)\\s*\\{', r'let mut vx_i: usize = 0; while vx_i < self.packet_sizes.len() { let \1 = self.packet_sizes[vx_i]; proof { off_mono(self.packet_sizes@, vx_i + 1, self.packet_sizes@.len() as int); off_mono(self.packet_sizes@, vx_i as int, vx_i + 1); } vx_i = vx_i + 1;'),
      ('re:&self\\.content\\[([^\\[\\]]*)\\.\\.([^\\[\\]]*)\\]', r'slice_of(&self.content, \1, \2)'),
      ('re:\\bpaginate\\(packets,', 'paginate(packets.as_slice(),')],
    loops=['''invariant vx_i <= self.packet_sizes@.len(), pos == off(self.packet_sizes@, vx_i as int), off(self.packet_sizes@, self.packet_sizes@.len() as int) <= self.content@.len(), self.content@.len() < 0x8000_0000_0000_0000,
        packets@.len() == vx_i, forall|i: int| 0 <= i < vx_i ==> (#[trigger] packets@[i])@ == self.content@.subrange(off(self.packet_sizes@, i), off(self.packet_sizes@, i + 1)),
      decreases self.packet_sizes@.len() - vx_i,'''],
    ins=[('before', 'paginate(packets.as_slice()', 'proof { assert(slices_of(packets@, self.content@, self.packet_sizes@)); }')]),
 '}',
 '''
} // verus!
''']
