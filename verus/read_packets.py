"""Packets::read_count yields exactly the packets the lacing values delimit, however they are spread over pages."""
import ogg
import rd
F = 'ogg_pager/src/packets.rs'
H = 'ogg_pager/src/header.rs'
ASSUMED = rd.ASSUMED + ['PageHeader::read has the contract proved in unit page_header', 'Vec::append appends', 'what an Err says is not specified here (it is executed)']
DROPS = ['`while let Ok(h)` becomes loop/match, `for i in segments` an index loop', 'PageError::Io carries no cause', 'the buffer declared before the loop is declared where it is assigned']
I = 'impl Packets'
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
''', Item('ogg_pager/src/error.rs', 'enum', 'PageError', subs=[('std::io::Error', 'IoError')]), '''
pub type PResult<T> = core::result::Result<T, PageError>;
''', rd.prelude('PageError'), Item(H, 'struct', 'PageHeader'), Item(F, 'struct', 'Packets'), '''
''', ogg.PAGES, '''
impl PageHeader {
    #[verifier::external_body]
    fn read<R: Rd>(data: &mut R) -> (r: PResult<PageHeader>)
      ensures same(final(data).g(), old(data).g()),
        r matches Ok(h) ==> well_formed(old(data).g().data, old(data).g().at as int) && h.segments@ == segs(old(data).g().data, old(data).g().at as int)
            && final(data).g().at as int == old(data).g().at + 27 + old(data).g().data[old(data).g().at + 26],
        r is Err ==> old(data).g().faulty || !well_formed(old(data).g().data, old(data).g().at as int),
    { unimplemented!() }
}
''', ogg.RUN, '''
spec fn whole_run(content: Seq<u8>, sizes: Seq<u64>, d: Seq<u8>, p: int, faulty: bool) -> bool {
    exists|k: int| #[trigger] is_run(content, sizes, d, p, k, 0) && (faulty || !well_formed(d, pos(d, p, k)))
}
''', 'impl Packets {', Fn(F, 'get_byte_count_to_read', I, spec='''requires *old(packet_bytes_already_read) matches Some(x) ==> x <= packet_size,
    ensures r == packet_size - (match *old(packet_bytes_already_read) { Some(x) => x as int, None => 0int }), *final(packet_bytes_already_read) == Some(packet_size),'''),
 Fn(F, 'read_count', I, sig=[('R: Read + Seek', 'R: Rd'), ('Result<Self>', 'PResult<Self>')],
    spec='''requires old(data).g().data.len() < 0x8000_0000_0000_0000,
    ensures
      (count == 0 || count < -1) ==> (r matches Ok(list) && list.packet_sizes@.len() == 0 && list.content@.len() == 0),
      count > 0 ==> (r matches Ok(list) ==> list.packet_sizes@.len() == count),
      count > 0 ==> (r matches Ok(list) ==> some_run(list.content@, list.packet_sizes@, old(data).g().data, old(data).g().at as int, final(data).g().at as int)),
      count > 0 ==> same(final(data).g(), old(data).g()),
      count > 0 ==> (r matches Ok(list) ==> list.content@.len() <= old(data).g().data.len()),
      count > 0 ==> (r matches Ok(list) ==> off(list.packet_sizes@, list.packet_sizes@.len() as int) == list.content@.len()),
      count == -1 ==> (r matches Ok(list) ==> whole_run(list.content@, list.packet_sizes@, old(data).g().data, old(data).g().at as int, old(data).g().faulty)),''',
    subs=[("re:'outer:\\s*while let Ok\\(header\\) = PageHeader::read\\(data\\)\\s*\\{", "'outer: loop { let header = match PageHeader::read(data) { Ok(h) => h, Err(_) => { break 'outer; } };"),
          ('re:for (\\w+) in header\\.segments\\s*\\{', r'let mut vx_j: usize = 0; while vx_j < header.segments.len() { let \1 = header.segments[vx_j]; proof { assert((l0 + header.segments@.take(vx_j + 1)).drop_last() =~= l0 + header.segments@.take(vx_j as int)); sum_step(header.segments@, vx_j as int); } vx_j = vx_j + 1;'),
          ('let mut current_packet_content;', ''),
          ('re:let mut packet_bytes_already_read = None', 'let mut packet_bytes_already_read: Option<u64> = None'),
          ('re:current_packet_content = vec', 'let mut current_packet_content = vec', 2),
          ('data.read_exact(&mut current_packet_content)', 'data.read_exact_vec(&mut current_packet_content)', 2),
          ],
    loops=['''invariant_except_break
        is_run(content@, packet_sizes@, d, p, k, 0), j == 0, data.g().at as int == pos(d, p, k),
        packet_size as int == run(lac(d, p, k)).open, packet_size <= content@.len(), content@.len() <= d.len(), content@.len() <= data.g().at,
        count > 0 ==> packets_read == packet_sizes@.len() && packets_read < count, count == -1 ==> packets_read == 0,
        match packet_bytes_already_read { Some(x) => x == packet_size, None => packet_size == 0 },
        off(packet_sizes@, packet_sizes@.len() as int) + packet_size == content@.len(),
      invariant same(data.g(), old(data).g()), d == data.g().data, d == old(data).g().data, p == old(data).g().at, count == -1 || count > 0,
      ensures is_run(content@, packet_sizes@, d, p, k, j), count > 0 && packet_sizes@.len() == count ==> data.g().at == run_end(d, p, k, j) && off(packet_sizes@, count as int) == content@.len() && content@.len() <= d.len(), same(data.g(), old(data).g()), count == -1 ==> j == 0 && (old(data).g().faulty || !well_formed(d, pos(d, p, k))),
      decreases d.len() - data.g().at,''',
      '''invariant
        vx_j <= s.len(), j == 0,
        packet_size as int == run(l0 + s.take(vx_j as int)).open,
        packet_sizes@ == run(l0 + s.take(vx_j as int)).sizes,
        match packet_bytes_already_read { Some(x) => x <= packet_size && x <= content@.len(), None => true },
        packet_size - (match packet_bytes_already_read { Some(x) => x as int, None => 0int }) == sum(s.take(vx_j as int)) - (data.g().at - c),
        packet_size <= d.len() + 255 * vx_j, content@.len() <= d.len(),
        off(packet_sizes@, packet_sizes@.len() as int) + (match packet_bytes_already_read { Some(x) => x as int, None => 0int }) == content@.len(),
        c <= data.g().at <= c + sum(s.take(vx_j as int)),
        content@ == con0 + d.subrange(c, data.g().at as int), data.g().at <= d.len() || data.g().at == c,
        packet_size == 0 || data.g().at <= c + sum(s.take(vx_j as int)),
        count > 0 ==> packets_read == packet_sizes@.len() && packets_read < count, count == -1 ==> packets_read == 0,
        same(data.g(), old(data).g()), d == data.g().data, d == old(data).g().data, p == old(data).g().at, count == -1 || count > 0, s == header.segments@, 
        s.len() <= 255, l0 == lac(d, p, k), con0 == con(d, p, k), con0.len() <= c, c == pos(d, p, k) + 27 + s.len(), s == segs(d, pos(d, p, k)), pages_ok(d, p, k), k >= 0, well_formed(d, pos(d, p, k)), c <= d.len(),
      decreases s.len() - vx_j,'''],
    ins=[('before', "'outer: loop", 'let ghost d = data.g().data; let ghost p = data.g().at as int; let ghost mut k: int = 0; let ghost mut j: int = 0;'),
         ('before', 'let mut vx_j', '''let ghost s = header.segments@; let ghost l0 = lac(d, p, k); let ghost con0 = con(d, p, k); let ghost c = data.g().at as int;
            proof { assert(l0 + s.take(0) =~= l0); }'''),
         ('before', 'packet_sizes.push(packet_size);', 'proof { off_push(packet_sizes@, packet_size, packet_sizes@.len() as int); }'),
         ('before', 'if packets_read == count', '''proof {
            assert(l0 + s.take(vx_j as int) =~= lac(d, p, k) + segs(d, pos(d, p, k)).take(vx_j as int));
            assert(content@ =~= con0 + d.subrange(c, data.g().at as int));
            assert(is_run(content@, packet_sizes@, d, p, k, vx_j as int));
            if packets_read == count { j = vx_j as int; }
         }'''),
         ('before', 'if count != -1 && packet_sizes.len()', '''proof {
            assert(is_run(content@, packet_sizes@, d, p, k, j));
            assert(d == old(data).g().data);
            assert(p == old(data).g().at as int);
            if count > 0 && packet_sizes@.len() == count { assert(some_run(content@, packet_sizes@, d, p, data.g().at as int)); }
            assert(count == -1 ==> whole_run(content@, packet_sizes@, d, p, old(data).g().faulty));
         }'''),
         ('before', 'continue;', '''proof {
            assert(s.take(s.len() as int) =~= s);
            assert(content@ =~= con0 + d.subrange(c, data.g().at as int));
            assert(data.g().at == pos(d, p, k + 1));
            assert(con(d, p, k + 1) =~= content@);
            assert(lac(d, p, k + 1) =~= l0 + s);
            assert(pages_ok(d, p, k + 1));
            k = k + 1;
         }'''),
        ]),
 '}',
 '''
} // verus!
''']
