"""Writing a packet list as pages: Packets::write_to over the contract of Packets::paginate (unit paginate)."""
import ogg
import rd
H = 'ogg_pager/src/header.rs'
L = 'ogg_pager/src/lib.rs'
K = 'ogg_pager/src/packets.rs'
ASSUMED = rd.FILE_ASSUMED + ['Packets::paginate, Page::as_bytes, gen_crc: the contracts proved in paginate and page_header', 'the writer stands at the end of what it has']
DROPS = ['errors carry nothing', '`for` over the pages becomes a loop that takes them from the front']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct E {}
''', rd.file_prelude('E'), ogg.LE, Item(H, 'struct', 'PageHeader'), Item(L, 'struct', 'Page'), Item(K, 'struct', 'Packets'),
'''
spec fn off(s: Seq<u64>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(s, i - 1) + s[i - 1] } }
spec fn capture() -> Seq<u8> { seq![0x4fu8, 0x67u8, 0x67u8, 0x53u8] }
''', ogg.PAGINATED, ogg.SLICES, ogg.PAGE_BYTES, ogg.VIEW, ogg.PAGED, '''
impl Page {
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: Vec<u8>) requires self.header.segments@.len() <= 255, self.content@.len() + 300 <= usize::MAX, ensures r@ == page_bytes(self.header, self.content@) { unimplemented!() }
    #[verifier::external_body]
    fn gen_crc(&mut self) requires old(self).header.segments@.len() <= 255, old(self).content@.len() + 300 <= usize::MAX,
      ensures final(self).content == old(self).content, final(self).end == old(self).end, final(self).header == (PageHeader { checksum: ogg_crc(page_bytes(PageHeader { checksum: 0, ..old(self).header }, old(self).content@)), ..old(self).header }) { unimplemented!() }
}
#[verifier::external_body]
fn first(v: &mut Vec<Page>) -> (r: Page) requires old(v)@.len() > 0, ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { unimplemented!() }
proof fn bytes_len(h: PageHeader, c: Seq<u8>) ensures page_bytes(h, c).len() == 27 + h.segments@.len() + c.len() {}
impl Packets {
    #[verifier::external_body]
    fn paginate(&self, stream_serial: u32, abgp: u64, flags: u8) -> (r: Result<Vec<Page>, E>)
      requires wf(self.content@, self.packet_sizes@), self.content@.len() < 0x8000_0000_0000_0000, forall|ps: Seq<&[u8]>| #[trigger] slices_of(ps, self.content@, self.packet_sizes@) ==> fits(ps),
      ensures r matches Ok(pages) && all_small(pages@) && paginated(pages@, self.content@, self.packet_sizes@, stream_serial, abgp, flags),
    { unimplemented!() }
''',
Fn(K, 'write_to', 'impl Packets', head='#[verifier::loop_isolation(false)]\n', sig=[('W: Write', 'W: Fl'), ('Result<usize>', 'Result<usize, E>')],
   spec=ogg.WRITE_TO,
   subs=[('let paginated = self', 'let mut paginated = self'), ('re:for (?:mut )?(\\w+) in paginated \\{', r'while paginated.len() > 0 { let mut \1 = first(&mut paginated);'), ('writer.write_all(&page.as_bytes())?', 'writer.write_all(page.as_bytes().as_slice())?')],
   loops=['''invariant 0 <= done <= pages.len(), paginated@ == pages.skip(done), pages.len() < 0x1_0000_0000, all_small(pages), writer.g().faulty == old(writer).g().faulty, writer.g().at == writer.g().data.len(), writer.g().data == d0 + flat(pages, done), writer.g().data.len() <= d0.len() + 8442 * done,
      decreases pages.len() - done,'''],
   ins=[('start', '', 'let ghost d0 = writer.g().data; let ghost mut done: int = 0; let ghost vs = view(self.content@, self.packet_sizes@); '),
     ('before', 'let num_pages', '''let ghost pages = paginated@;
        proof {
            let q = choose|q: Seq<&[u8]>| #[trigger] slices_of(q, self.content@, self.packet_sizes@) && all_ok(pages, q, stream_serial, abgp, flags, if flags & 4 != 0 { offset(q) - 1 } else { -1 });
            assert(the_slices(q, vs));
            assert(paged(pages, vs, stream_serial, abgp, flags)); assert(pages.skip(0) =~= pages); assert(d0 + flat(pages, 0) =~= d0);
        }'''),
     ('after', '= first(&mut paginated);', 'let ghost pg = page; proof { assert(pg == pages[done]); assert(small(pages[done])); done = done + 1; assert(pages.skip(done) =~= paginated@); }'),
     ('after', 'writer.write_all(page.as_bytes().as_slice())?;', 'proof { assert(writer.g().data =~= d0 + flat(pages, done - 1) + sealed(pg)); assert(writer.g().data =~= d0 + flat(pages, done)); bytes_len(page.header, page.content@); }'),
     ]),
'''
}
} // verus!
''']
