"""FLAC metadata blocks: reading and writing one, and replacing the tag of a file."""
import re
import rd
D = 'lofty/src/flac/'
B, R, W = D + 'block.rs', D + 'read.rs', D + 'write.rs'
ASSUMED = rd.FILE_ASSUMED + ['reading from a file takes the bytes at its position and fails exactly when they run out (or the file is faulty, or the allocation limit is reached)', 'replace_range: its contract of replace_range.py',
   'find_id3v2 leaves the file unchanged, at some position', 'Picture::as_flac_bytes and the contents of a comment block: some bytes', 'writing to a Vec appends', 'files below 2^60 bytes, tags below 2^32 pictures']
DROPS = ['errors carry nothing', 'the closures that choose which blocks are read become structs with the same body', 'text is the bytes it encodes', 'the peekable iterators of comments and pictures become one queue', '`for` over blocks and pictures are loops over an index and over the queue', 'sum, min, max, saturating_sub, last_mut, extend: contracted helpers']
T = rd.file_prelude('FErr')
T = T[:T.rindex('}')] + '''
    fn read_u8(&mut self) -> (r: Result<u8, FErr>)
        ensures final(self).g().data == old(self).g().data, final(self).g().faulty == old(self).g().faulty,
            r matches Ok(v) ==> old(self).g().at + 1 <= old(self).g().data.len() && final(self).g().at == old(self).g().at + 1 && v == old(self).g().data[old(self).g().at as int],
            r is Err ==> old(self).g().faulty || old(self).g().at + 1 > old(self).g().data.len();
    fn read_u24<O: Order>(&mut self) -> (r: Result<u32, FErr>)
        ensures final(self).g().data == old(self).g().data, final(self).g().faulty == old(self).g().faulty,
            r matches Ok(v) ==> old(self).g().at + 3 <= old(self).g().data.len() && final(self).g().at == old(self).g().at + 3 && v == O::v24(old(self).g().data, old(self).g().at as int),
            r is Err ==> old(self).g().faulty || old(self).g().at + 3 > old(self).g().data.len();
    fn read_exact_vec(&mut self, b: &mut Vec<u8>) -> (r: Result<(), FErr>)
        ensures final(self).g().data == old(self).g().data, final(self).g().faulty == old(self).g().faulty,
            r is Ok ==> old(self).g().at + old(b)@.len() <= old(self).g().data.len() && final(self).g().at == old(self).g().at + old(b)@.len() && final(b)@ == old(self).g().data.subrange(old(self).g().at as int, old(self).g().at + old(b)@.len()),
            r is Err ==> old(self).g().faulty || old(self).g().at + old(b)@.len() > old(self).g().data.len();
    fn read_four(&mut self, b: &mut [u8; 4]) -> (r: Result<(), FErr>)
        ensures final(self).g().data == old(self).g().data, final(self).g().faulty == old(self).g().faulty,
            r is Ok ==> old(self).g().at + 4 <= old(self).g().data.len() && final(self).g().at == old(self).g().at + 4 && final(b)@ == old(self).g().data.subrange(old(self).g().at as int, old(self).g().at + 4),
            r is Err ==> old(self).g().faulty || old(self).g().at + 4 > old(self).g().data.len();
}
'''


def consts(Src):
    t = Src(B).text
    out = ''
    for n, ty in (('BLOCK_HEADER_SIZE', 'usize'), ('MAX_CONTENT_SIZE', 'u32')):
        m = re.search(r'const ' + n + r': ' + ty + r' = ([0-9_]+);', t)
        if not m:
            raise Lost(n)
        out += f'pub const B_{n}: {ty} = {m[1]};\n'
    return out


def asker(Src):
    """the closure that chooses the blocks to be read, as a struct"""
    m = re.search(r'Block::read\(&mut file, \|ty\| (match ty \{.*?\n\t\t\})\)', Src(W).text, re.S)
    if not m:
        raise Lost('closure of write_to_inner')
    body = re.sub(r'\b(has_blocks_to_remove|skip|has_padding) = true', r'self.\1 = true', m[1])
    return '''pub struct Ask { pub has_blocks_to_remove: bool, pub skip: bool, pub has_padding: bool }
impl Pred for Ask {
    open spec fn wants(&self, ty: u8) -> bool { ty != 6 }
    open spec fn after(&self, ty: u8) -> Self { Ask { has_blocks_to_remove: self.has_blocks_to_remove || ty == 6, skip: self.skip || ty == 6, has_padding: self.has_padding || ty == 1 } }
    fn ask(&mut self, ty: u8) -> (r: bool) { ''' + body + ''' }
}
'''


CONSTS = [('re:(?:Self|Block)::(BLOCK_HEADER_SIZE|MAX_CONTENT_SIZE)', r'B_\1', '*')]
ERRS = [('re:TooMuchDataError\\.into\\(\\)', 'FErr {}', '*'), ('re:SizeMismatchError\\.into\\(\\)', 'FErr {}', '*'), ('re:FlacParseError::message\\(\\s*"(?:[^"\\\\]|\\\\.)*",?\\s*\\)', 'FErr {}', '*'), ('re:\\.map_err\\((?:FileParseError|TagParseError)::from\\)', '', '*')]
ZEROS = ('re:try_vec!\\[0; ((?:[^\\[\\]])*)\\]', r'zeros(\1)', '*')
SIGS = [('re:Flac(?:Parse|Encoding)Error|FileEncodingError', 'FErr')]
PARTS = ['''
use vstd::prelude::*;
use core::ops::Range;
verus! {
global size_of usize == 8;
pub struct FErr {}
pub struct BigEndian;
pub struct LittleEndian;
pub trait Order: Sized { spec fn v24(s: Seq<u8>, p: int) -> u32; }
pub open spec fn n24(s: Seq<u8>, p: int) -> int { s[p] * 65536 + s[p + 1] * 256 + s[p + 2] }
impl Order for BigEndian { open spec fn v24(s: Seq<u8>, p: int) -> u32 { n24(s, p) as u32 } }
''', T, Item(B, 'const', 'BLOCK_ID_STREAMINFO'), Item(B, 'const', 'BLOCK_ID_PADDING'), Item(B, 'const', 'BLOCK_ID_VORBIS_COMMENTS'), Item(B, 'const', 'BLOCK_ID_PICTURE'),
Gen(consts), Item(B, 'struct', 'Block'), '''
pub const BLOCK_HEADER_SIZE: u64 = 4;
pub uninterp spec fn limit_reached(n: int) -> bool;
#[verifier::external_body]
fn zeros(n: usize) -> (r: Result<Vec<u8>, FErr>) ensures r matches Ok(v) ==> v@.len() == n && (forall|i: int| 0 <= i < n ==> v@[i] == 0), r is Err ==> limit_reached(n as int) { unimplemented!() }
/// what decides whether a block is read
pub trait Pred: Sized {
    spec fn wants(&self, ty: u8) -> bool;
    spec fn after(&self, ty: u8) -> Self;
    fn ask(&mut self, ty: u8) -> (r: bool) ensures r == old(self).wants(ty), *final(self) == old(self).after(ty);
}
pub struct Always {}
impl Pred for Always {
    open spec fn wants(&self, ty: u8) -> bool { true }
    open spec fn after(&self, ty: u8) -> Self { *self }
    fn ask(&mut self, ty: u8) -> (r: bool) { true }
}
/// a block: its type and content
pub struct Blk { pub ty: u8, pub content: Seq<u8> }
pub open spec fn size_at(d: Seq<u8>, p: int) -> int { n24(d, p + 1) }
pub open spec fn last_at(d: Seq<u8>, p: int) -> bool { d[p] >= 0x80 }
pub open spec fn ty_at(d: Seq<u8>, p: int) -> u8 { (d[p] % 128) as u8 }
pub open spec fn fits(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= d.len() && p + 4 + size_at(d, p) <= d.len() }
pub open spec fn end_at(d: Seq<u8>, p: int) -> int { p + 4 + size_at(d, p) }
pub open spec fn blk_at(d: Seq<u8>, p: int) -> Blk { Blk { ty: ty_at(d, p), content: d.subrange(p + 4, end_at(d, p)) } }
pub open spec fn bv(b: Block) -> Blk { Blk { ty: b.ty, content: b.content@ } }
/// the block that is at p, its content only if it was asked for
pub open spec fn read_at(b: Block, d: Seq<u8>, p: int, wanted: bool) -> bool {
    &&& p + 4 <= d.len() && b.ty == ty_at(d, p) && b.last == last_at(d, p) && b.start == p && b.end == end_at(d, p)
    &&& wanted ==> fits(d, p) && b.content@ == blk_at(d, p).content
    &&& !wanted ==> b.content@.len() == 0
}
/// the bytes of a block
pub open spec fn one(b: Blk, last: bool) -> Seq<u8> {
    seq![(if last { b.ty + 128 } else { b.ty as int }) as u8, (b.content.len() / 65536) as u8, (b.content.len() / 256 % 256) as u8, (b.content.len() % 256) as u8] + b.content
}
pub open spec fn good(b: Blk) -> bool { b.ty < 128 && b.content.len() <= 0xFF_FFFF }
/// what is written is read back
pub proof fn round_trip(pre: Seq<u8>, b: Blk, last: bool, post: Seq<u8>)
    requires good(b),
    ensures ({ let d = pre + one(b, last) + post; let p = pre.len() as int; fits(d, p) && blk_at(d, p) == b && last_at(d, p) == last && end_at(d, p) == p + one(b, last).len() }),
{
    let d = pre + one(b, last) + post; let p = pre.len() as int;
    assert(forall|i: int| 0 <= i < one(b, last).len() ==> #[trigger] d[p + i] == one(b, last)[i]);
    assert(d[p + 0] == one(b, last)[0]); assert(d[p + 1] == one(b, last)[1]); assert(d[p + 2] == one(b, last)[2]); assert(d[p + 3] == one(b, last)[3]);
    let n = b.content.len();
    assert(n == (n / 65536) * 65536 + (n / 256 % 256) * 256 + n % 256);
    assert(d.subrange(p + 4, p + 4 + n) =~= b.content);
}
pub trait Wr: Sized {
    spec fn w(&self) -> Seq<u8>;
    spec fn wfaulty(&self) -> bool;
    fn write_u8(&mut self, v: u8) -> (r: Result<(), FErr>) ensures final(self).wfaulty() == old(self).wfaulty(), r is Ok ==> final(self).w() == old(self).w().push(v), r is Err ==> old(self).wfaulty();
    fn write_u24<O: Order>(&mut self, v: u32) -> (r: Result<(), FErr>) requires v <= 0xFF_FFFF, ensures final(self).wfaulty() == old(self).wfaulty(), r is Ok ==> final(self).w().len() == old(self).w().len() + 3 && final(self).w().take(old(self).w().len() as int) == old(self).w() && O::v24(final(self).w(), old(self).w().len() as int) == v, r is Err ==> old(self).wfaulty();
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), FErr>) ensures final(self).wfaulty() == old(self).wfaulty(), r is Ok ==> final(self).w() == old(self).w() + b@, r is Err ==> old(self).wfaulty();
}
fn bit(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0 }) { if b { 1 } else { 0 } }
proof fn head_bits(b: u8) ensures (b & 0x80u8 != 0) == (b >= 0x80), b & 0x7Fu8 == b % 128 { assert((b & 0x80u8 != 0) == (b >= 0x80)) by (bit_vector); assert(b & 0x7Fu8 == b % 128) by (bit_vector); }
proof fn join_bits(ty: u8, l: u8) requires l <= 1, ensures ((ty & 0x7Fu8) | (l << 7u8)) == (ty % 128) + 128 * l { assert(((ty & 0x7Fu8) | (l << 7u8)) == (ty % 128) + 128 * l) by (bit_vector) requires l <= 1u8; }
impl Block {
''',
Fn(B, 'read', impl='impl Block', sig=[SIGS[0], ('mut predicate: P', 'predicate: &mut P'), ('R: Read + Seek', 'R: Fl'), ('P: FnMut(u8) -> bool', 'P: Pred')],
   spec='''requires old(data).g().data.len() < 0x4000_0000_0000_0000,
    ensures final(data).g().data == old(data).g().data, final(data).g().faulty == old(data).g().faulty,
      r matches Ok(b) ==> read_at(b, old(data).g().data, old(data).g().at as int, old(predicate).wants(b.ty)) && final(data).g().at == b.end && *final(predicate) == old(predicate).after(b.ty),
      r is Err ==> old(data).g().faulty || old(data).g().at + 4 > old(data).g().data.len() || !fits(old(data).g().data, old(data).g().at as int) || limit_reached(size_at(old(data).g().data, old(data).g().at as int)),''',
   subs=[('predicate(ty)', 'predicate.ask(ty)'), ZEROS, ('data.read_exact(&mut content)?', 'data.read_exact_vec(&mut content)?'), ('re:i64::from\\((\\w+)\\)', r'(\1 as i64)'), ('re:u64::from\\((\\w+)\\)', r'(\1 as u64)')],
   ins=[('start', '', 'let ghost d = data.g().data; let ghost p = data.g().at as int;'), ('after', 'let byte = data.read_u8()?;', 'proof { head_bits(byte); }'),
     ('after', 'data.read_exact_vec(&mut content)?;', 'proof { assert(content@ == blk_at(d, p).content); }')]),
Fn(B, 'len', impl='impl Block', spec='requires self.content@.len() <= 0xFF_FFFF, ensures r == 4 + self.content@.len(),', subs=CONSTS),
Fn(B, 'new_padding', impl='impl Block', sig=SIGS, spec='ensures r matches Ok(b) ==> bv(b).ty == 1 && !b.last && b.content@.len() == (if size < 0xFF_FFFF { size as int } else { 0xFF_FFFF }) && (forall|i: int| 0 <= i < b.content@.len() ==> b.content@[i] == 0), r matches Err(_) ==> limit_reached(if size < 0xFF_FFFF { size as int } else { 0xFF_FFFF }),',
   subs=CONSTS + [ZEROS, ('core::cmp::min', 'min_usize')]),
Fn(B, 'new_picture', impl='impl Block', sig=SIGS, spec='ensures r matches Ok(b) ==> b.ty == 6 && !b.last && b.content@ == picture_bytes(picture, info) && b.content@.len() <= 0xFF_FFFF, r is Err ==> picture_bytes(picture, info).len() > 0xFF_FFFF,',
   subs=CONSTS + ERRS),
'''
    #[verifier::external_body]
    fn new_comments(vendor: &Text, items: &mut Queue) -> (r: Result<Block, FErr>)
        ensures r matches Ok(b) ==> b.ty == 4 && !b.last && b.content@ == comment_bytes(vendor@, old(items)@) && b.content@.len() <= 0xFF_FFFF, r is Err ==> comments_fail(vendor@, old(items)@)
    { unimplemented!() }
''',
Fn(B, 'write_to', impl='impl Block', sig=[SIGS[0], ('W: Write', 'W: Wr')],
   spec='''ensures final(writer).wfaulty() == old(writer).wfaulty(),
      r matches Ok(n) ==> self.content@.len() <= 0xFF_FFFF && final(writer).w() == old(writer).w() + one(Blk { ty: (self.ty % 128) as u8, content: self.content@ }, self.last) && n == 4 + self.content@.len(),
      r is Err ==> old(writer).wfaulty() || self.content@.len() > 0xFF_FFFF,''',
   subs=CONSTS + ERRS + [('re:u8::from\\((self\\.last)\\)', r'bit(\1)'), ('writer.write_all(&self.content)', 'writer.write_all(self.content.as_slice())')],
   ins=[('start', '', 'let ghost w0 = writer.w(); proof { join_bits(self.ty, if self.last { 1u8 } else { 0u8 }); }'),
     ('before', 'writer.write_all(self.content.as_slice())?', '''proof {
        let w = writer.w(); let n = self.content@.len() as int; let k = w0.len() as int;
        let h = one(Blk { ty: (self.ty % 128) as u8, content: self.content@ }, self.last);
        assert(w.len() == k + 4); assert(n24(w, k + 1) == n);
        assert(w[k + 1] == n / 65536); assert(w[k + 2] == n / 256 % 256); assert(w[k + 3] == n % 256);
        assert(w.take(k + 1)[k] == h[0]);
        assert(w[k] == h[0]);
        assert(w =~= w0 + h.take(4)) by { assert(w.take(k + 1).take(k) =~= w0); assert forall|i: int| 0 <= i < k implies w[i] == w0[i] by { assert(w.take(k + 1)[i] == w[i]); } }
        assert(w0 + h.take(4) + self.content@ =~= w0 + h);
     }''')]),
'''}
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn max_u64(a: u64, b: u64) -> (r: u64) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a > b { a - b } else { 0 } { if a > b { a - b } else { 0 } }
/// a text, as bytes
#[verifier::external_body]
pub struct Text {}
impl Text {
    pub uninterp spec fn valid(b: Seq<u8>) -> bool;
    #[verifier::external_body]
    fn from_utf8(v: Vec<u8>) -> (r: Result<Text, FErr>) ensures (r is Ok) == Self::valid(v@), r matches Ok(t) ==> t@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Picture {}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PictureInformation {}
pub uninterp spec fn picture_bytes(p: &Picture, i: PictureInformation) -> Seq<u8>;
impl Picture {
    #[verifier::external_body]
    fn as_flac_bytes(&self, info: PictureInformation, encode: bool) -> (r: Vec<u8>) ensures !encode ==> r@ == picture_bytes(self, info) { unimplemented!() }
}
pub type Entry = (&'static Picture, PictureInformation);
/// what is left of an iterator
#[verifier::external_body]
pub struct Queue {}
impl View for Queue { type V = Seq<Entry>; uninterp spec fn view(&self) -> Seq<Entry>; }
impl Queue {
    #[verifier::external_body]
    fn any(&mut self) -> (r: bool) ensures final(self)@ == old(self)@, r == (old(self)@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Entry) requires old(self)@.len() > 0, ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
pub uninterp spec fn comment_bytes(vendor: Seq<u8>, items: Seq<Entry>) -> Seq<u8>;
pub uninterp spec fn comments_fail(vendor: Seq<u8>, items: Seq<Entry>) -> bool;
fn is4(m: &[u8; 4], a: u8, b: u8, c: u8, d: u8) -> (r: bool) ensures r == (m@ == seq![a, b, c, d])
{ proof { if m[0] == a && m[1] == b && m[2] == c && m[3] == d { assert(m@ =~= seq![a, b, c, d]); } else if m@ == seq![a, b, c, d] { assert(m@[0] == a && m@[1] == b && m@[2] == c && m@[3] == d); } } m[0] == a && m[1] == b && m[2] == c && m[3] == d }
pub open spec fn magic() -> Seq<u8> { seq![0x66u8, 0x4C, 0x61, 0x43] }
''',
Fn(R, 'verify_flac', sig=[SIGS[0], ('R: Read + Seek', 'R: Fl')],
   spec='''requires old(data).g().data.len() < 0x4000_0000_0000_0000,
    ensures final(data).g().data == old(data).g().data, final(data).g().faulty == old(data).g().faulty,
      r matches Ok(b) ==> ({ let d = old(data).g().data; let p = old(data).g().at as int; p + 4 <= d.len() && d.subrange(p, p + 4) == magic() && read_at(b, d, p + 4, true) && b.ty == 0 && final(data).g().at == b.end }),
      r is Err ==> old(data).g().faulty || ({ let d = old(data).g().data; let p = old(data).g().at as int; p + 4 > d.len() || d.subrange(p, p + 4) != magic() || !fits(d, p + 4) || ty_at(d, p + 4) != 0 || limit_reached(size_at(d, p + 4)) }),''',
   subs=ERRS + [('let mut marker = [0; 4];', 'let mut marker = [0u8; 4];'), ('data.read_exact(&mut marker)?', 'data.read_four(&mut marker)?'),
      ('re:&marker != b"(.)(.)(.)(.)"', lambda m: '!is4(&marker, ' + ', '.join(str(ord(c)) for c in m.groups()) + ')'), ('re:Block::read\\(data, \\|_\\| true\\)', 'Block::read(data, &mut Always {})')]),
'''
/// the blocks from p on, and where they end
pub open spec fn chain(d: Seq<u8>, p: int) -> Option<(Seq<Blk>, int)> decreases d.len() - p {
    if !fits(d, p) { None } else if last_at(d, p) { Some((seq![blk_at(d, p)], end_at(d, p))) } else { cons(seq![blk_at(d, p)], chain(d, end_at(d, p))) }
}
pub open spec fn cons(a: Seq<Blk>, o: Option<(Seq<Blk>, int)>) -> Option<(Seq<Blk>, int)> { match o { None => None, Some(x) => Some((a + x.0, x.1)) } }
pub open spec fn tagged(ty: u8) -> bool { ty == 4 || ty == 6 }
pub open spec fn kept(s: Seq<Blk>) -> Seq<Blk> decreases s.len() { if s.len() == 0 { s } else if tagged(s.last().ty) { kept(s.drop_last()) } else { kept(s.drop_last()).push(s.last()) } }
pub open spec fn some_tagged(s: Seq<Blk>) -> bool { exists|i: int| 0 <= i < s.len() && tagged(#[trigger] s[i].ty) }
pub open spec fn some_padding(s: Seq<Blk>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].ty == 1 }
pub open spec fn views(s: Seq<Block>) -> Seq<Blk> { Seq::new(s.len(), |i: int| bv(s[i])) }
pub open spec fn all_good(s: Seq<Block>) -> bool { forall|i: int| 0 <= i < s.len() ==> good(bv(#[trigger] s[i])) && !s[i].last }
pub open spec fn total(s: Seq<Blk>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + 4 + s.last().content.len() } }
/// the bytes of the first n blocks of a list, whose last one is marked
pub open spec fn ser(s: Seq<Blk>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { ser(s, n - 1) + one(s[n - 1], n == s.len()) } }
pub open spec fn pictures(q: Seq<Entry>, n: int) -> Seq<Blk> decreases n { if n <= 0 { seq![] } else { pictures(q, n - 1).push(Blk { ty: 6, content: picture_bytes(q[n - 1].0, q[n - 1].1) }) } }
pub open spec fn tag_blocks(vendor: Seq<u8>, c: Seq<Entry>, q: Seq<Entry>) -> Seq<Blk> { (if c.len() > 0 { seq![Blk { ty: 4, content: comment_bytes(vendor, c) }] } else { seq![] }) + pictures(q, q.len() as int) }
pub proof fn total_push(s: Seq<Blk>, b: Blk) ensures total(s.push(b)) == total(s) + 4 + b.content.len() { assert(s.push(b).drop_last() =~= s); }
pub proof fn total_add(a: Seq<Blk>, b: Seq<Blk>) ensures total(a + b) == total(a) + total(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); total_add(a, b.drop_last()); }
}
pub proof fn total_nonneg(a: Seq<Blk>) ensures total(a) >= 0 decreases a.len() { if a.len() > 0 { total_nonneg(a.drop_last()); } }
pub proof fn ser_len(s: Seq<Blk>, n: int) requires 0 <= n <= s.len(), ensures ser(s, n).len() == total(s.take(n)) decreases n {
    if n > 0 { ser_len(s, n - 1); assert(s.take(n).drop_last() =~= s.take(n - 1)); assert(s.take(n).last() == s[n - 1]); }
}
pub proof fn cons_cons(a: Seq<Blk>, b: Seq<Blk>, o: Option<(Seq<Blk>, int)>) ensures cons(a, cons(b, o)) == cons(a + b, o) { if let Some(x) = o { assert(a + (b + x.0) =~= a + b + x.0); } }
pub proof fn kept_push(s: Seq<Blk>, b: Blk) ensures kept(s.push(b)) == if tagged(b.ty) { kept(s) } else { kept(s).push(b) } { assert(s.push(b).drop_last() =~= s); }
pub proof fn some_push(s: Seq<Blk>, b: Blk) ensures some_tagged(s.push(b)) == (some_tagged(s) || tagged(b.ty)), some_padding(s.push(b)) == (some_padding(s) || b.ty == 1) {
    let t = s.push(b);
    if some_tagged(s) { let i = choose|i: int| 0 <= i < s.len() && tagged(#[trigger] s[i].ty); assert(t[i] == s[i]); }
    if some_padding(s) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].ty == 1; assert(t[i] == s[i]); }
    assert(t[s.len() as int] == b);
    if some_tagged(t) { let i = choose|i: int| 0 <= i < t.len() && tagged(#[trigger] t[i].ty); if i < s.len() { assert(t[i] == s[i]); } }
    if some_padding(t) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].ty == 1; if i < s.len() { assert(t[i] == s[i]); } }
}
pub proof fn pictures_total(q: Seq<Entry>, n: int) requires 0 <= n <= q.len(), forall|i: int| 0 <= i < n ==> picture_bytes(#[trigger] q[i].0, q[i].1).len() <= 0xFF_FFFF, ensures total(pictures(q, n)) <= n * 0x100_0004 decreases n {
    if n > 0 { pictures_total(q, n - 1); total_push(pictures(q, n - 1), Blk { ty: 6, content: picture_bytes(q[n - 1].0, q[n - 1].1) }); }
}
/// the new list of blocks is read back as it is
pub proof fn reparsed(pre: Seq<u8>, s: Seq<Blk>, n: int, post: Seq<u8>)
    requires 0 <= n < s.len(), forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i]),
    ensures chain(pre + ser(s, s.len() as int) + post, (pre.len() + ser(s, n).len()) as int) == Some((s.skip(n), (pre.len() + ser(s, s.len() as int).len()) as int)),
    decreases s.len() - n
{
    let d = pre + ser(s, s.len() as int) + post; let p = (pre.len() + ser(s, n).len()) as int;
    ser_split(s, n + 1);
    let t = ser_rest(s, n + 1);
    let a = pre + ser(s, n);
    assert(d =~= a + one(s[n], n + 1 == s.len()) + (t + post));
    round_trip(a, s[n], n + 1 == s.len(), t + post);
    assert(s.skip(n) =~= seq![s[n]] + s.skip(n + 1));
    assert(ser(s, n + 1).len() == ser(s, n).len() + one(s[n], n + 1 == s.len()).len());
    if n + 1 < s.len() { reparsed(pre, s, n + 1, post); } else { assert(s.skip(n) =~= seq![s[n]]); }
}
/// what follows the first n blocks
pub open spec fn ser_rest(s: Seq<Blk>, n: int) -> Seq<u8> decreases s.len() - n { if n >= s.len() { seq![] } else { one(s[n], n + 1 == s.len()) + ser_rest(s, n + 1) } }
pub proof fn ser_split(s: Seq<Blk>, n: int) requires 0 <= n <= s.len(), ensures ser(s, s.len() as int) == ser(s, n) + ser_rest(s, n) decreases s.len() - n {
    if n < s.len() { ser_split(s, n + 1); assert(ser(s, n) + one(s[n], n + 1 == s.len()) + ser_rest(s, n + 1) =~= ser(s, n) + (one(s[n], n + 1 == s.len()) + ser_rest(s, n + 1))); } else { assert(ser(s, n) + seq![] =~= ser(s, n)); }
}
pub open spec fn tag_fails(vendor: Seq<u8>, c: Seq<Entry>, q: Seq<Entry>) -> bool {
    ||| c.len() > 0 && comments_fail(vendor, c)
    ||| exists|i: int| 0 <= i < q.len() && picture_bytes(#[trigger] q[i].0, q[i].1).len() > 0xFF_FFFF
}
pub open spec fn sized(q: Seq<Entry>) -> bool { q.len() < 0x1_0000_0000 }
''',
Fn(W, 'encode_tag', head='#[verifier::loop_isolation(false)]\n', sig=[SIGS[0], ("re:<'a, II, IP>", ''), ('vendor: &str', 'vendor: &Text'), ('mut comments_peek: Peekable<&mut II>', 'mut comments_peek: Queue'), ('pictures_peek: Peekable<&mut IP>', 'mut pictures_peek: Queue'), ('re:where.*', '')],
   spec='''requires sized(pictures_peek@),
    ensures r matches Ok(v) ==> views(v@) == tag_blocks(vendor@, comments_peek@, pictures_peek@) && all_good(v@) && total(views(v@)) < 0x0200_0000_0000_0000,
      r is Err ==> tag_fails(vendor@, comments_peek@, pictures_peek@),''',
   subs=[('comments_peek.peek().is_some()', 'comments_peek.any()'), ('re:for \\((\\w+), (\\w+)\\) in pictures_peek \\{', r'while pictures_peek.any() { let (\1, \2) = pictures_peek.pop();')],
   loops=['''invariant v0 == views(metadata_blocks@), sized(q), 0 <= done <= q.len(), pictures_peek@ == q.skip(done), all_good(metadata_blocks@), views(metadata_blocks@) == (if c.len() > 0 { seq![Blk { ty: 4, content: comment_bytes(vendor@, c) }] } else { seq![] }) + pictures(q, done),
      total(views(metadata_blocks@)) <= 0x100_0004 * (done + 1),
      decreases q.len() - done,'''],
   ins=[('start', '', 'let ghost c = comments_peek@; let ghost q = pictures_peek@; let ghost mut done: int = 0;'),
     ('before', 'while pictures_peek.any()', 'proof { assert(q.skip(0) =~= q); let v = views(metadata_blocks@); if c.len() > 0 { assert(v =~= seq![Blk { ty: 4, content: comment_bytes(vendor@, c) }] + pictures(q, 0)); assert(v.drop_last() =~= Seq::<Blk>::empty()); assert(total(v) == total(v.drop_last()) + 4 + v.last().content.len()); assert(total(v.drop_last()) == 0); } else { assert(v =~= Seq::<Blk>::empty() + pictures(q, 0)); } } let ghost mut v0 = views(metadata_blocks@);'),
     ('before', 'metadata_blocks.push(Block::new_picture(picture, info)?);', 'proof { assert(q.skip(done)[0] == q[done]); assert(picture == q[done].0 && info == q[done].1); if picture_bytes(picture, info).len() > 0xFF_FFFF { assert(tag_fails(vendor@, c, q)); } }'),
     ('after', 'metadata_blocks.push(Block::new_picture(picture, info)?);', '''proof {
        let v = views(metadata_blocks@); let b = v.last();
        assert(v =~= v0.push(b)); total_push(v0, b);
        done = done + 1;
        assert(q.skip(done) =~= q.skip(done - 1).skip(1));
        assert(v =~= (if c.len() > 0 { seq![Blk { ty: 4, content: comment_bytes(vendor@, c) }] } else { seq![] }) + pictures(q, done));
        v0 = v;
     }''')]),
]
PARTS += ['''
impl Wr for Vec<u8> {
    open spec fn w(&self) -> Seq<u8> { self@ }
    open spec fn wfaulty(&self) -> bool { false }
    #[verifier::external_body]
    fn write_u8(&mut self, v: u8) -> (r: Result<(), FErr>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u24<O: Order>(&mut self, v: u32) -> (r: Result<(), FErr>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), FErr>) { unimplemented!() }
}
/// the content of a comment block, read from its start
pub struct Bytes { pub left: Vec<u8> }
pub open spec fn vendor_len(c: Seq<u8>) -> int { c[0] + 256 * c[1] + 65536 * c[2] + 0x100_0000 * c[3] }
pub open spec fn bad_vendor(c: Seq<u8>) -> bool { c.len() < 4 || vendor_len(c) > c.len() - 4 || limit_reached(vendor_len(c)) }
impl Bytes {
    #[verifier::external_body]
    fn new(c: &Vec<u8>) -> (r: Bytes) ensures r.left@ == c@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.left@.len() { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<O>(&mut self) -> (r: Result<u32, FErr>) ensures (r is Err) == (old(self).left@.len() < 4), r matches Ok(v) ==> v == vendor_len(old(self).left@) && final(self).left@ == old(self).left@.skip(4) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: Result<(), FErr>) ensures (r is Err) == (old(self).left@.len() < old(b)@.len()), r is Ok ==> final(b)@ == old(self).left@.take(old(b)@.len() as int) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Nz { pub n: u32 }
impl Nz { fn get(&self) -> (r: u32) ensures r == self.n { self.n } }
pub struct WriteOptions { pub preferred_padding: Option<Nz> }
pub struct CommentsRef { pub vendor: Text, pub items: Queue, pub pictures: Queue }
impl Queue {
    #[verifier::external_body]
    fn taken(&mut self) -> (r: Queue) ensures r@ == old(self)@ { unimplemented!() }
}
fn some(o: Option<Nz>) -> (r: bool) ensures r == (o is Some) { o.is_some() }
fn vec1(b: Block) -> (r: Vec<Block>) ensures r@ == seq![b] { let mut v = Vec::new(); v.push(b); proof { assert(v@ =~= seq![b]); } v }
fn append(a: &mut Vec<Block>, b: Vec<Block>) ensures final(a)@ == old(a)@ + b@ { let mut b = b; a.append(&mut b); }
#[verifier::external_body]
fn last_mut(v: &mut Vec<Block>) -> (r: Option<&mut Block>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> (r matches Some(b) && *b == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(b))),
{ v.last_mut() }
fn total_len(v: &Vec<Block>) -> (r: u64)
    requires all_good(v@), total(views(v@)) < 0x4000_0000_0000_0000,
    ensures r == total(views(v@)),
{
    let mut n = 0u64; let mut i = 0usize;
    proof { assert(views(v@).take(0) =~= Seq::<Blk>::empty()); }
    while i < v.len()
        invariant all_good(v@), i <= v@.len(), n == total(views(v@).take(i as int)), total(views(v@)) < 0x4000_0000_0000_0000,
        decreases v@.len() - i,
    {
        proof {
            let w = views(v@);
            assert(w.take(i + 1).drop_last() =~= w.take(i as int)); assert(w.take(i + 1).last() == bv(v@[i as int]));
            assert(good(bv(v@[i as int])));
            assert(w =~= w.take(i + 1) + w.skip(i + 1)); total_add(w.take(i + 1), w.skip(i + 1)); total_nonneg(w.skip(i + 1));
        }
        n = n + v[i].len() as u64;
        i = i + 1;
    }
    proof { assert(views(v@).take(v@.len() as int) =~= views(v@)); }
    n
}
/// where the stream starts, behind an ID3v2 tag
pub uninterp spec fn stream_start(d: Seq<u8>) -> int;
pub uninterp spec fn no_start(d: Seq<u8>) -> bool;
#[verifier::external_body]
fn skip_id3v2<F: Fl>(file: &mut F) -> (r: Result<(), FErr>)
    ensures final(file).g().data == old(file).g().data, final(file).g().faulty == old(file).g().faulty, r is Ok ==> final(file).g().at == stream_start(old(file).g().data), r is Err ==> old(file).g().faulty || no_start(old(file).g().data)
{ unimplemented!() }
#[verifier::external_body]
fn replace_range<F: Fl>(file: &mut F, range: Range<u64>, replacement: &[u8]) -> (r: Result<(), FErr>)
    requires old(file).g().data.len() + replacement@.len() < 0x4000_0000_0000_0000,
    ensures
      r is Ok ==> range.start <= range.end <= old(file).g().data.len()
        && final(file).g().data == old(file).g().data.take(range.start as int) + replacement@ + old(file).g().data.skip(range.end as int),
      !(range.start <= range.end <= old(file).g().data.len()) ==> r is Err && final(file).g().data == old(file).g().data,
      r is Err ==> old(file).g().faulty || !(range.start <= range.end <= old(file).g().data.len()),
{ unimplemented!() }
/// the blocks of the saved file: the others in order, the tag, and padding where there was none
pub open spec fn laid(l: Seq<Blk>, bs: Seq<Blk>, tag: Seq<Blk>, pref: Option<Nz>) -> bool {
    let base = kept(bs) + tag;
    if some_padding(bs) || pref is None { l == base }
    else {
        &&& l.len() == base.len() + 1 && l.drop_last() == base && l.last().ty == 1
        &&& (forall|i: int| 0 <= i < l.last().content.len() ==> l.last().content[i] == 0)
        &&& l.last().content.len() >= (if pref->0.n < 0xFF_FFFF { pref->0.n as int } else { 0xFF_FFFF })
    }
}
pub open spec fn replaced(d: Seq<u8>, e: Seq<u8>, p: int, end: int, l: Seq<Blk>) -> bool {
    &&& e == d.take(p) + ser(l, l.len() as int) + d.skip(end)
    // what was written is read back
    &&& chain(e, p) == Some((l, p + ser(l, l.len() as int).len() as int))
}
pub open spec fn saved(d: Seq<u8>, e: Seq<u8>, p: int, vendor: Seq<u8>, c: Seq<Entry>, q: Seq<Entry>, pref: Option<Nz>) -> bool {
    &&& p >= 0 && p + 4 <= d.len() && d.subrange(p, p + 4) == magic()
    &&& chain(d, p + 4) is Some
    &&& (chain(d, p + 4)->0).0[0].ty == 0
    &&& ({ let bs = (chain(d, p + 4)->0).0; let end = (chain(d, p + 4)->0).1;
        if !some_tagged(bs) && c.len() == 0 && q.len() == 0 { e == d }
        else { exists|l: Seq<Blk>| laid(l, bs, tag_blocks(vendor, c, q), pref) && #[trigger] replaced(d, e, p + 4, end, l) } })
}
pub open spec fn some_bad(s: Seq<Blk>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ty == 4 && bad_vendor(s[i].content) }
pub proof fn bad_push(s: Seq<Blk>, b: Blk) ensures some_bad(s.push(b)) == (some_bad(s) || (b.ty == 4 && bad_vendor(b.content))) {
    let t = s.push(b);
    if some_bad(s) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ty == 4 && bad_vendor(s[i].content); assert(t[i] == s[i]); }
    assert(t[s.len() as int] == b);
    if some_bad(t) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).ty == 4 && bad_vendor(t[i].content); if i < s.len() { assert(t[i] == s[i]); } }
}
pub proof fn bad_prefix(s: Seq<Blk>, t: Seq<Blk>) ensures some_bad(s) ==> some_bad(s + t) {
    if some_bad(s) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ty == 4 && bad_vendor(s[i].content); assert((s + t)[i] == s[i]); }
}
pub open spec fn some_limit() -> bool { exists|n: int| limit_reached(n) }
/// why a save may fail on a file that works
pub open spec fn excuse(d: Seq<u8>, vendor: Seq<u8>, c: Seq<Entry>, q: Seq<Entry>) -> bool {
    let p = stream_start(d);
    ||| no_start(d) || p + 4 > d.len() || d.subrange(p, p + 4) != magic() || chain(d, p + 4) is None || ty_at(d, p + 4) != 0
    ||| some_limit() || (chain(d, p + 4) is Some && some_bad((chain(d, p + 4)->0).0))
    ||| tag_fails(vendor, c, q)
}
/// a comment block that cannot be read is an excuse, whatever follows it
pub proof fn bad_excuse(d: Seq<u8>, p0: int, acc: Seq<Blk>, q: int)
    requires some_bad(acc), chain(d, p0) == cons(acc, chain(d, q)) || (exists|e: int| chain(d, p0) == Some((acc, e))),
    ensures chain(d, p0) is Some ==> some_bad((chain(d, p0)->0).0),
{ if let Some(x) = chain(d, q) { bad_prefix(acc, x.0); } }
pub proof fn first_kept(s: Seq<Blk>) requires s.len() == 1, !tagged(s[0].ty), ensures kept(s) == s, total(s) == 4 + s[0].content.len(), some_tagged(s) == false, some_padding(s) == (s[0].ty == 1)
{ assert(s.drop_last() =~= Seq::<Blk>::empty()); assert(kept(s.drop_last()) =~= s.drop_last()); assert(kept(s) =~= s); assert(total(s.drop_last()) == 0); if s[0].ty == 1 { assert(s[0].ty == 1); } }
pub proof fn saved_intro(d: Seq<u8>, e: Seq<u8>, p: int, vendor: Seq<u8>, c: Seq<Entry>, q: Seq<Entry>, pref: Option<Nz>, acc: Seq<Blk>, end: int, l: Seq<Blk>)
    requires p >= 0, p + 4 <= d.len(), d.subrange(p, p + 4) == magic(), chain(d, p + 4) == Some((acc, end)), acc[0].ty == 0, some_tagged(acc) || c.len() > 0 || q.len() > 0, laid(l, acc, tag_blocks(vendor, c, q), pref), replaced(d, e, p + 4, end, l),
    ensures saved(d, e, p, vendor, c, q, pref)
{ let o = chain(d, p + 4); assert(o->0 == (acc, end)); assert((o->0).0 == acc && (o->0).1 == end); assert(laid(l, acc, tag_blocks(vendor, c, q), pref) && replaced(d, e, p + 4, end, l)); assert(exists|m: Seq<Blk>| laid(m, acc, tag_blocks(vendor, c, q), pref) && #[trigger] replaced(d, e, p + 4, end, m)); assert(((chain(d, p + 4)->0).0)[0].ty == 0); }
pub proof fn unfit(d: Seq<u8>, p: int) ensures !fits(d, p) ==> chain(d, p) is None {}
pub proof fn no_ser(s: Seq<Blk>) ensures ser(s, 0) == Seq::<u8>::empty() {}
pub proof fn next_ser(s: Seq<Blk>, n: int) requires 0 <= n < s.len(), ensures ser(s, n + 1) == ser(s, n) + one(s[n], n + 1 == s.len()) {}
pub proof fn views_push(s: Seq<Block>, b: Block) ensures views(s.push(b)) == views(s).push(bv(b)) { assert(views(s.push(b)) =~= views(s).push(bv(b))); }
pub proof fn one_step(d: Seq<u8>, p: int) requires fits(d, p), ensures chain(d, p) == (if last_at(d, p) { Some((seq![blk_at(d, p)], end_at(d, p))) } else { cons(seq![blk_at(d, p)], chain(d, end_at(d, p))) }) {}
/// a step of the walk over the blocks
pub proof fn step(d: Seq<u8>, p0: int, acc: Seq<Blk>, q: int)
    requires fits(d, q), chain(d, p0) == cons(acc, chain(d, q)),
    ensures last_at(d, q) ==> chain(d, p0) == Some((acc.push(blk_at(d, q)), end_at(d, q))), !last_at(d, q) ==> chain(d, p0) == cons(acc.push(blk_at(d, q)), chain(d, end_at(d, q))),
{ cons_cons(acc, seq![blk_at(d, q)], chain(d, end_at(d, q))); assert(acc + seq![blk_at(d, q)] =~= acc.push(blk_at(d, q))); }
proof fn small(d: Seq<u8>, p: int) requires p >= 0, p + 4 <= d.len(), ensures 0 <= size_at(d, p) <= 0xFF_FFFF, ty_at(d, p) < 128 {}
''', Gen(asker),
Fn(W, 'write_to_inner', sig=[SIGS[0], ("re:<'a, F, II, IP>", '<F: Fl>'), ("file: VerifiedFile<'_, F>", 'file: &mut F'), ("tag: &mut VorbisCommentsRef<'a, II, IP>", 'tag: &mut CommentsRef'), ('re:where.*', '')],
   head='#[verifier::rlimit(100)]\n#[verifier::loop_isolation(false)]\n',
   spec='''requires old(file).g().data.len() < 0x0800_0000_0000_0000, sized(old(tag).pictures@),
    ensures r is Ok ==> saved(old(file).g().data, final(file).g().data, stream_start(old(file).g().data), final(tag).vendor@, old(tag).items@, old(tag).pictures@, write_options.preferred_padding),
      r is Err ==> old(file).g().faulty || (final(file).g().data == old(file).g().data && excuse(old(file).g().data, final(tag).vendor@, old(tag).items@, old(tag).pictures@)),''',
   subs=CONSTS + ERRS + [ZEROS, ('let mut file = file.into_inner();', ''), ('re:find_id3v2\\(&mut file, FindId3v2Config::NO_READ_TAG\\)', 'skip_id3v2(file)'), ('verify_flac(&mut file)', 'verify_flac(file)'),
      ('re:vec!\\[(\\w+)\\]', r'vec1(\1)'),
      ('re:let mut (\\w+) = Block::read\\(&mut file, \\|ty\\| match ty \\{.*?\\n\\t\\t\\}\\)\\s*\\?;', r'let mut ask = Ask { has_blocks_to_remove, skip, has_padding }; let got = Block::read(file, &mut ask); has_blocks_to_remove = ask.has_blocks_to_remove; skip = ask.skip; has_padding = ask.has_padding; let mut \1 = got?;'),
      ('let reader = &mut &block.content[..];', 'let mut reader = Bytes::new(&block.content);'), ('String::from_utf8', 'Text::from_utf8'), ('re:Cow::Owned\\((\\w+)\\)', r'\1'), ('re:Cow::Borrowed\\(""\\)', 'Text::empty()'),
      ('re:\\(&mut (tag\\.\\w+)\\)\\.peekable\\(\\)', r'\1.taken()', 2), ('re:(\\w+)\\.peek\\(\\)\\.is_some\\(\\)', r'\1.any()', 2), ('re:blocks\\.extend\\((\\w+)\\)', r'append(&mut blocks, \1)'),
      ('write_options.preferred_padding.is_some()', 'some(write_options.preferred_padding)'),
      ('re:blocks\\s*\\.iter\\(\\)\\s*\\.map\\(\\|block\\| u64::from\\(block\\.len\\(\\)\\)\\)\\s*\\.sum::<u64>\\(\\)', 'total_len(&blocks)'),
      ('re:= (\\w+)\\s*\\.saturating_sub\\(([^()]*)\\)\\s*\\.saturating_sub\\(([^()]*)\\);', r'= sat_sub(sat_sub(\1, \2), \3);'),
      ('re:= (\\w+)\\s*\\.max\\(u64::from\\(([^;]*?)\\)\\)\\s*\\.min\\(u64::from\\(([^()]*)\\)\\);', r'= min_u64(max_u64(\1, \2 as u64), \3 as u64);'),
      ('re:usize::try_from\\((\\w+)\\)\\.map_err\\(\\|_\\| SizeMismatchError\\)\\?', r'\1 as usize'),
      ('blocks.last_mut()', 'last_mut(&mut blocks)'),
      ('re:for block in blocks \\{', 'let mut i = 0usize; while i < blocks.len() { let block = &blocks[i]; i = i + 1;'),
      ('replace_range(&mut file, metadata_range, &encoded_metadata)', 'replace_range(file, metadata_range, encoded_metadata.as_slice())')],
   loops=['''invariant
        file.g().data == d, file.g().faulty == faulty, tag.items@ == old(tag).items@, tag.pictures@ == old(tag).pictures@,
        metadata_range.start == p0, file.g().at == metadata_range.end, p0 + 4 <= metadata_range.end, metadata_range.end <= d.len() + 0x100_0003,
        acc.len() > 0 && acc[0].ty == 0, views(blocks@) == kept(acc) || lost, all_good(blocks@), blocks@.len() > 0, total(views(blocks@)) <= metadata_range.end - p0,
        lost ==> chain(d, p0) is None && metadata_range.end > d.len() && has_blocks_to_remove,
        !lost ==> metadata_range.end <= d.len() && has_blocks_to_remove == some_tagged(acc) && has_padding == some_padding(acc),
        !lost && is_last_block ==> chain(d, p0) == Some((acc, metadata_range.end as int)),
        !lost && !is_last_block ==> chain(d, p0) == cons(acc, chain(d, metadata_range.end as int)),
      decreases d.len() + 0x200_0000 - metadata_range.end,''',
     '''invariant i <= blocks@.len(), encoded_metadata@ == ser(list, i as int), file.g().data == d, file.g().faulty == faulty,
      decreases blocks@.len() - i,'''],
   ins=[('start', '', 'hide(chain); hide(ser); hide(one); hide(total); hide(kept); hide(pictures); hide(tag_blocks); let ghost d = file.g().data; let ghost faulty = file.g().faulty; let ghost p0 = stream_start(d) + 4; let ghost c = tag.items@; let ghost q = tag.pictures@;'),
     ('before', 'let mut stream_info = verify_flac', 'proof { unfit(d, p0); }'),
     ('before', 'let mut is_last_block = stream_info.last;', 'let ghost mut acc = seq![bv(stream_info)]; let ghost mut lost = false; proof { small(d, p0); one_step(d, p0); assert(bv(stream_info) == blk_at(d, p0)); first_kept(acc); }'),
     ('after', 'let mut blocks = vec1(stream_info);', 'proof { assert(views(blocks@) =~= acc); first_kept(acc); }'),
     ('before', 'let mut skip = false;', 'let ghost at = metadata_range.end as int; let ghost bs0 = blocks@; let ghost acc0 = acc; proof { unfit(d, at); }'),
     ('after', 'let mut block = got?;', '''proof {
        small(d, at); assert(!lost);
        if fits(d, at) { step(d, p0, acc, at); acc = acc.push(blk_at(d, at)); kept_push(acc0, blk_at(d, at)); some_push(acc0, blk_at(d, at)); bad_push(acc0, blk_at(d, at)); }
        else { lost = true; assert(chain(d, at) is None); }
     }'''),
     ('before', 'let vendor_len = reader.read_u32', 'proof { if bad_vendor(block.content@) { assert(some_bad(acc)); bad_excuse(d, p0, acc, end_at(d, at)); } }'),
     ('before', 'if !skip {', 'let ghost blk = bv(block); proof { assert(skip == tagged(block.ty)); assert(blk.content.len() <= 0xFF_FFFF && blk.ty < 128); if !skip { assert(!lost && blk == blk_at(d, at)); total_push(views(blocks@), blk); } }'),
     ('after', 'blocks.push(block);', 'proof { views_push(bs0, block); assert(bv(block) == blk); assert(views(blocks@) == views(bs0).push(blk)); }'),
     ('before', 'let metadata_blocks = encode_tag', 'let ghost vendor = tag.vendor@; let ghost end = metadata_range.end as int; let ghost tb = tag_blocks(vendor, c, q); let ghost base = views(blocks@) + tb; proof { total_add(views(blocks@), tb); assert(chain(d, p0) is None || chain(d, p0) == Some((acc, end))); }'),
     ('after', 'append(&mut blocks, metadata_blocks);', 'proof { assert(views(blocks@) =~= base); assert(total(base) < 0x0F00_0000_0000_0000); }'),
     ('before', 'if let Some(block) = last_mut(&mut blocks)', '''let ghost list = views(blocks@); let ghost bs1 = blocks@;
        proof { if will_write_padding { total_push(base, list.last()); assert(list.drop_last() =~= base); assert(list =~= base.push(list.last())); } assert(list.len() > 0); assert(lost || laid(list, acc, tb, write_options.preferred_padding)); assert(total(list) < 0x1000_0000_0000_0000); assert(all_good(bs1)); }'''),
     ('after', 'let mut encoded_metadata = Vec::new();', '''proof { assert(views(blocks@) =~= list); assert(forall|k: int| 0 <= k < blocks@.len() ==> good(bv(#[trigger] blocks@[k])) && blocks@[k].last == (k + 1 == blocks@.len()));
        assert(forall|k: int| 0 <= k < list.len() ==> #[trigger] list[k] == bv(blocks@[k])); no_ser(list); }'''),
     ('before', 'block.write_to(&mut encoded_metadata)?;', 'proof { assert(list[i - 1] == bv(blocks@[i - 1])); assert(good(bv(blocks@[i - 1]))); next_ser(list, i - 1); assert((block.ty % 128) as u8 == block.ty); }'),
     ('before', 'replace_range(file, metadata_range', '''proof { ser_len(list, list.len() as int); assert(list.take(list.len() as int) =~= list);
        if !lost { assert(forall|k: int| 0 <= k < list.len() ==> good(#[trigger] list[k])); reparsed(d.take(p0), list, 0, d.skip(end)); assert(list.skip(0) =~= list);
          let e = d.take(p0) + encoded_metadata@ + d.skip(end);
          assert(replaced(d, e, p0, end, list)); } }'''),
     ('after', 'replace_range(file, metadata_range, encoded_metadata.as_slice())?;', '''proof { assert(!lost); assert(chain(d, p0) == Some((acc, end)));
        assert(file.g().data == d.take(p0) + encoded_metadata@ + d.skip(end));
        assert(laid(list, acc, tb, write_options.preferred_padding) && replaced(d, file.g().data, p0, end, list));
        assert(some_tagged(acc) || c.len() > 0 || q.len() > 0);
        assert(p0 >= 4); assert(d.subrange(p0 - 4, p0) == magic()); assert(acc[0].ty == 0);
        assert(p0 <= d.len()); assert(!(!some_tagged(acc) && c.len() == 0 && q.len() == 0));
        saved_intro(d, file.g().data, p0 - 4, tag.vendor@, c, q, write_options.preferred_padding, acc, end, list);
        assert(saved(d, file.g().data, stream_start(d), tag.vendor@, c, q, write_options.preferred_padding)); }'''),
     ]),
'''
} // verus!
''']
