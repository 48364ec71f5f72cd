"""The comment packet of a tag: signature, vendor, the number of fields, each field after its length, the framing bit."""
import ogg
W = 'lofty/src/ogg/tag/write.rs'
ASSUMED = ['Cursor<Vec<u8>>: the struct Cur (writes replace the bytes at the position and extend the vector; they do not fail)', 'Picture::as_flac_bytes: some text (P21 decides which)', 'format!("{k}={v}") is k, `=`, v', 'fewer than 2^31 items and pictures, a vendor shorter than 2^32 bytes (it is read from a 32-bit length)']
DROPS = ['errors carry nothing', 'text is the bytes it encodes', 'the iterators of items and pictures become queues, `for` a loop over them', 'let-else becomes match']
LETELSE = ('re:let Ok\\((\\w+)\\) = u32::try_from\\((.*?)\\) else \\{(.*?)\\};', r'let \1 = match to_u32(\2) { Some(x) => x, None => {\3} };')
ERR = ('re:TooMuchDataError\\.into\\(\\)', 'E {}', '*')


def key(m):
    return 'let the_key = [' + ', '.join(f'{b}u8' for b in m[1].encode()) + '];'


PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct E {}
pub struct LittleEndian;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
''', ogg.LE, ogg.COMMENTS, '''
/// d with b written at p
pub open spec fn over(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if p + b.len() <= d.len() { d.take(p) + b + d.skip(p + b.len() as int) } else { d.take(p) + b }
}
/// bytes in memory, and the position in them
#[verifier::external_body]
pub struct Cur { b: std::io::Cursor<Vec<u8>> }
impl Cur {
    pub uninterp spec fn d(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.at() <= self.d().len() }
    #[verifier::external_body]
    fn new(v: Vec<u8>) -> (r: Cur) ensures r.d() == v@, r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), E>) requires old(self).wf(), ensures r is Ok, final(self).d() == over(old(self).d(), old(self).at(), b@), final(self).at() == old(self).at() + b@.len() { unimplemented!() }
    #[verifier::external_body]
    fn write_u32<O>(&mut self, n: u32) -> (r: Result<(), E>) requires old(self).wf(), ensures r is Ok, final(self).d() == over(old(self).d(), old(self).at(), le32_bytes(n)), final(self).at() == old(self).at() + 4 { unimplemented!() }
    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: Result<u64, E>) ensures final(self).d() == old(self).d(), final(self).at() == old(self).at(), r matches Ok(p) && p == old(self).at() { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, E>) requires to is Start, ensures r is Ok, final(self).d() == old(self).d(), final(self).at() == to->Start_0 { unimplemented!() }
    #[verifier::external_body]
    fn push_byte(&mut self, b: u8) ensures final(self).d() == old(self).d().push(b) { unimplemented!() }
    #[verifier::external_body]
    fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.d() { unimplemented!() }
}
#[verifier::external_body]
fn joined(k: &Text, v: &Text) -> (r: Text) ensures r@ == field(k@, v@) { unimplemented!() }
fn to_u32(n: usize) -> (r: Option<u32>) ensures r is Some == (n <= 0xFFFF_FFFF), r matches Some(x) ==> x == n { if n <= 0xFFFF_FFFF { Some(n as u32) } else { None } }
proof fn pack_push(f: Seq<Seq<u8>>, x: Seq<u8>) ensures pack(f.push(x)) == pack(f) + le32_bytes(x.len() as u32) + x { assert(f.push(x).drop_last() =~= f); }
proof fn pack_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures pack(a + b) == pack(a) + pack(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(pack(a) + pack(b) =~= pack(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); pack_add(a, b.drop_last()); assert(pack(a + b) =~= pack(a) + pack(b)); }
}
proof fn fields_len(q: Seq<Field>, n: int) requires n >= 0, ensures fields(q, n).len() <= n decreases n { if n > 0 { fields_len(q, n - 1); } }
proof fn pictures_len(q: Seq<Seq<u8>>, n: int) requires n >= 0, ensures pictures(q, n).len() == n decreases n { if n > 0 { pictures_len(q, n - 1); } }
/// a field of a shorter list is one of the longer
proof fn fields_in(q: Seq<Field>, m: int, n: int, i: int) requires 0 <= m <= n, 0 <= i < fields(q, m).len(), ensures i < fields(q, n).len(), fields(q, n)[i] == fields(q, m)[i] decreases n - m { if m < n { fields_in(q, m, n - 1, i); } }
proof fn pictures_in(q: Seq<Seq<u8>>, m: int, n: int, i: int) requires 0 <= m <= n, 0 <= i < pictures(q, m).len(), ensures i < pictures(q, n).len(), pictures(q, n)[i] == pictures(q, m)[i] decreases n - m { if m < n { pictures_in(q, m, n - 1, i); } }
proof fn long_part(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures too_long(a) ==> too_long(a + b), too_long(b) ==> too_long(a + b) {
    if too_long(a) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() > 0xFFFF_FFFF; assert((a + b)[i] == a[i]); }
    if too_long(b) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).len() > 0xFFFF_FFFF; assert((a + b)[a.len() + i] == b[i]); }
}
''',
Fn(W, 'create_comments', head='#[verifier::loop_isolation(false)]\n', sig=[('packet: &mut impl Write', 'packet: &mut Cur'), ('re:items: &mut dyn Iterator<Item = \\(&str, &str\\)>', 'items: &mut Items'), ('VorbisCommentsEncodingError', 'E')],
   spec='''requires old(packet).wf(), old(packet).at() == old(packet).d().len(), *old(count) + old(items)@.len() <= 0xFFFF_FFFF,
    ensures ({ let q = old(items)@; let f = fields(q, q.len() as int);
        &&& (r is Ok) == !too_long(f)
        &&& r is Ok ==> final(packet).d() == old(packet).d() + pack(f) && final(packet).at() == final(packet).d().len() && *final(count) == *old(count) + f.len() }),''',
   subs=[('re:for \\((\\w+), (\\w+)\\) in items \\{', r'while items.any() { let (\1, \2) = items.pop();'), ('re:format!\\("\\{(\\w+)\\}=\\{(\\w+)\\}"\\)', r'joined(\1, \2)'), LETELSE, ERR],
   loops=['''invariant 0 <= done <= q.len(), items@ == q.skip(done), packet.wf(), packet.at() == packet.d().len(), packet.d() == d0 + pack(fields(q, done)), *count == c0 + fields(q, done).len(), !too_long(fields(q, done)), c0 + q.len() <= 0xFFFF_FFFF,
      decreases q.len() - done,'''],
   ins=[('start', '', 'let ghost q = items@; let ghost d0 = packet.d(); let ghost c0 = *count; let ghost mut done: int = 0; proof { assert(q.skip(0) =~= q); assert(d0 + pack(fields(q, 0)) =~= d0); }'),
     ('after', '= items.pop();', 'let ghost f0 = fields(q, done); proof { fields_len(q, done); done = done + 1; assert(q.skip(done) =~= items@); if q[done - 1].1.len() > 0 { let f = field(q[done - 1].0, q[done - 1].1); pack_push(f0, f); let fs = fields(q, done); assert(fs == f0.push(f)); if f.len() > 0xFFFF_FFFF { assert(fs[fs.len() - 1].len() > 0xFFFF_FFFF); fields_in(q, done, q.len() as int, fs.len() - 1); assert(too_long(fields(q, q.len() as int))); } } }'),
     ('after', 'packet.write_all(comment_bytes)?;', 'proof { assert(packet.d() =~= d0 + (pack(f0) + le32_bytes(bytes_len) + comment_bytes@)); let fs = fields(q, done); assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).len() <= 0xFFFF_FFFF by { if i < f0.len() { assert(fs[i] == f0[i]); } } }')]),
Fn(W, 'create_pictures', head='#[verifier::loop_isolation(false)]\n', sig=[('packet: &mut impl Write', 'packet: &mut Cur'), ('re:pictures: &mut dyn Iterator<Item = \\(&Picture, PictureInformation\\)>', 'pics: &mut Pictures'), ('VorbisCommentsEncodingError', 'E')],
   spec='''requires old(packet).wf(), old(packet).at() == old(packet).d().len(), *old(count) + old(pics)@.len() <= 0xFFFF_FFFF, forall|i: int| 0 <= i < old(pics)@.len() ==> (#[trigger] old(pics)@[i]).len() < 0x4000_0000_0000_0000,
    ensures ({ let q = old(pics)@; let f = pictures(q, q.len() as int);
        &&& (r is Ok) == !too_long(f)
        &&& r is Ok ==> final(packet).d() == old(packet).d() + pack(f) && final(packet).at() == final(packet).d().len() && *final(count) == *old(count) + f.len() }),''',
   subs=[('re:const PICTURE_KEY: &str = "([^"]*)";', key), ('PICTURE_KEY.as_bytes()', 'the_key.as_slice()', '*'), ('PICTURE_KEY.len()', 'the_key.as_slice().len()', '*'), ('re:\\bpictures\\b', 'pics', '*'),
      ('re:for \\((\\w+), (\\w+)\\) in pics \\{', r'while pics.any() { let (\1, \2) = pics.pop();'), ('re:u32::try_from\\(picture\\.len\\(\\)', 'u32::try_from(picture.as_slice().len()'), LETELSE, ERR, ('packet.write_all(&picture)', 'packet.write_all(picture.as_slice())')],
   loops=['''invariant 0 <= done <= q.len(), pics@ == q.skip(done), packet.wf(), packet.at() == packet.d().len(), packet.d() == d0 + pack(pictures(q, done)), *count == c0 + done, !too_long(pictures(q, done)), c0 + q.len() <= 0xFFFF_FFFF,
      decreases q.len() - done,'''],
   ins=[('start', '', 'let ghost q = pics@; let ghost d0 = packet.d(); let ghost c0 = *count; let ghost mut done: int = 0; proof { pictures_len(q, q.len() as int); assert(q.skip(0) =~= q); assert(d0 + pack(pictures(q, 0)) =~= d0); }'),
     ('before', 'while pics.any()', 'proof { assert(the_key@ =~= picture_key()); }'),
     ('after', '= pics.pop();', 'let ghost f0 = pictures(q, done); proof { pictures_len(q, done); done = done + 1; assert(q.skip(done) =~= pics@); let f = picture_key() + q[done - 1]; pack_push(f0, f); let fs = pictures(q, done); assert(fs == f0.push(f)); if f.len() > 0xFFFF_FFFF { assert(fs[fs.len() - 1].len() > 0xFFFF_FFFF); pictures_in(q, done, q.len() as int, fs.len() - 1); assert(too_long(pictures(q, q.len() as int))); } }'),
     ('after', 'packet.write_all(picture.as_slice())?;', 'proof { assert(packet.d() =~= d0 + (pack(f0) + le32_bytes(bytes_len) + (picture_key() + picture@))); let fs = pictures(q, done); assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).len() <= 0xFFFF_FFFF by { if i < f0.len() { assert(fs[i] == f0[i]); } } }')]),
Fn(W, 'create_metadata_packet', sig=[("re:(?<=packet)<'a, II, IP>", ''), ("tag: &mut VorbisCommentsRef<'a, II, IP>", 'tag: &mut CommentsRef'), ('VorbisCommentsEncodingError', 'E'), ('re:where.*', '')],
   spec='''requires counted(old(tag).items@, old(tag).pictures@), old(tag).vendor@.len() <= 0xFFFF_FFFF, forall|i: int| 0 <= i < old(tag).pictures@.len() ==> (#[trigger] old(tag).pictures@[i]).len() < 0x4000_0000_0000_0000,
    ensures (r is Ok) == !too_long(all_fields(old(tag).items@, old(tag).pictures@)),
      r matches Ok(v) ==> v@ == meta(comment_signature@, old(tag).vendor@, old(tag).items@, old(tag).pictures@, add_framing_bit),''',
   subs=[('Cursor::new(Vec::new())', 'Cur::new(Vec::new())'), ('new_comment_packet.get_mut().push(1)', 'new_comment_packet.push_byte(1)')],
   ins=[('start', '', 'let ghost items = tag.items@; let ghost pics = tag.pictures@; let ghost fs = fields(items, items.len() as int); let ghost ps = pictures(pics, pics.len() as int); let ghost vendor = tag.vendor@; proof { fields_len(items, items.len() as int); pictures_len(pics, pics.len() as int); long_part(fs, ps); pack_add(fs, ps); if too_long(fs + ps) { let i = choose|i: int| 0 <= i < (fs + ps).len() && (#[trigger] (fs + ps)[i]).len() > 0xFFFF_FFFF; if i < fs.len() { assert(fs[i] == (fs + ps)[i]); assert(too_long(fs)); } else { assert(ps[i - fs.len()] == (fs + ps)[i]); assert(too_long(ps)); } } }'),
     ('before', 'let mut count = 0;', 'let ghost front = comment_signature@ + le32_bytes(vendor.len() as u32) + vendor; proof { assert(new_comment_packet.d() =~= front + le32_bytes(0)); }'),
     ('before', 'new_comment_packet.seek(', 'proof { assert(new_comment_packet.d() =~= front + le32_bytes(0) + pack(fs + ps)); }'),
     ('before', 'if add_framing_bit', 'proof { assert(new_comment_packet.d() =~= front + le32_bytes(count) + pack(fs + ps)); assert(count == (fs + ps).len()); }'),
     ('before', 'Ok(new_comment_packet.into_inner())', 'proof { assert(new_comment_packet.d() =~= meta(comment_signature@, vendor, items, pics, add_framing_bit)); }')]),
'''
} // verus!
''']
