"""Chunks::{new, next, skip, lock, unlock, correct_position} and Chunk::{read, seek, content}."""
import rd
F = 'lofty/src/iff/chunk.rs'
ASSUMED = rd.ASSUMED + ['valid_fourcc: the contract that Kani proves for every identifier (p13_fourcc)', 'the standard contract of io::Take: read and seek stay within the limit']
DROPS = ['errors carry nothing', 'the three borrows of a Chunk (of the reader and two counters of Chunks) are values; Chunk::read and Chunk::seek are verified against those counters by themselves', '`impl Read/Seek for Chunk` become inherent methods of the same text', 'reading into a part of an array is one call']
ERRS = ('SizeMismatchError.into()', 'ChunkErr {}')
PARTS = ['''
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
pub struct ChunkErr {}
''', rd.prelude('ChunkErr'), Item(F, 'const', 'IFF_CHUNK_HEADER_SIZE'), '''
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
fn is_strict(m: ParsingMode) -> (r: bool) ensures r == (m is Strict) { matches!(m, ParsingMode::Strict) }
pub open spec fn fourcc_ok(b: Seq<u8>) -> bool {
    (forall|i: int| 0 <= i < 4 ==> 0x20 <= #[trigger] b[i] <= 0x7E) && (forall|i: int, j: int| 0 <= i < j < 4 && #[trigger] b[i] == 0x20 ==> #[trigger] b[j] == 0x20)
}
#[verifier::external_body]
fn valid_fourcc(b: [u8; 4]) -> (r: bool) ensures r == fourcc_ok(b@) { unimplemented!() }
fn even(n: u32) -> (r: bool) ensures r == (n % 2 == 0) { n % 2 == 0 }
#[verifier::external_body]
fn read_tail<R: Rd>(r: &mut R, b: &mut [u8; 4]) -> (x: Result<(), ChunkErr>)
    ensures same(final(r).g(), old(r).g()), final(b)@.len() == 4,
        x is Ok ==> avail(old(r).g(), 3) && moved(final(r).g(), old(r).g(), 3) && final(b)@ == seq![old(b)@[0]] + next(old(r).g(), 3),
        x is Err ==> old(r).g().faulty || !avail(old(r).g(), 3)
{ unimplemented!() }
#[verifier::external_body]
fn read4<R: Rd>(r: &mut R, b: &mut [u8; 4]) -> (x: Result<(), ChunkErr>)
    ensures same(final(r).g(), old(r).g()),
        x is Ok ==> avail(old(r).g(), 4) && moved(final(r).g(), old(r).g(), 4) && final(b)@ == next(old(r).g(), 4),
        x is Err ==> old(r).g().faulty || !avail(old(r).g(), 4)
{ unimplemented!() }
pub struct Chunk { start_pos: u64, fourcc: [u8; 4], size: u32, content_at: Ghost<int> }
''', Item(F, 'struct', 'Chunks'), '''
/// a position in the list: where the reader is and how much of the list is left
pub struct Pos { pub at: int, pub left: int }
/// past the pad byte, if there is one: an odd chunk is padded, unless an identifier follows at once
pub open spec fn padded(d: Seq<u8>, p: Pos, size: int) -> Pos {
    if size % 2 == 0 || p.left < 1 { p }
    else if d[p.at] != 0 && p.left > 4 && fourcc_ok(d.subrange(p.at, p.at + 4)) { p }
    else { Pos { at: p.at + 1, left: p.left - 1 } }
}
impl<R: Rd, B: Order> Chunks<R, B> {
    pub closed spec fn wf(&self) -> bool {
        self.current_chunk_remaining_size <= self.remaining_size <= self.total_size
        && (self.lock_state matches Some(x) ==> self.remaining_size <= 0xffff_ffff && x.0 <= self.total_size)
        && self.reader.g().data.len() < 0x8000_0000_0000_0000
    }
    pub closed spec fn rd(&self) -> St { self.reader.g() }
    /// after the content of the current chunk and its padding
    pub closed spec fn after(&self) -> Pos {
        padded(self.rd().data, Pos { at: self.rd().at + self.current_chunk_remaining_size, left: self.remaining_size - self.current_chunk_remaining_size }, self.current_chunk_size as int)
    }
    pub closed spec fn here(&self) -> Pos { Pos { at: self.rd().at as int, left: self.remaining_size as int } }
    pub closed spec fn keeps(&self, o: &Self) -> bool { self.total_size == o.total_size && same(self.rd(), o.rd()) }
''',
Fn(F, 'new', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', spec='''requires reader.g().data.len() < 0x8000_0000_0000_0000,
    ensures r.wf(), r.here() == (Pos { at: reader.g().at as int, left: file_size as int }), r.after() == r.here(), r.rd() == reader.g(), r.total_size == file_size, r.lock_state is None,'''),
Fn(F, 'stream_position', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', spec='''requires self.wf(), ensures r == self.total_size - self.here().left,'''),
Fn(F, 'correct_position', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', sig=[('ChunkParseError', 'ChunkErr')],
   spec='''requires old(self).wf(), old(self).current_chunk_remaining_size == 0,
    ensures final(self).wf(), final(self).keeps(old(self)), final(self).lock_state == old(self).lock_state, final(self).current_chunk_remaining_size == 0, final(self).current_chunk_size == old(self).current_chunk_size,
      r is Ok ==> final(self).here() == padded(old(self).rd().data, old(self).here(), current_chunk_size as int),
      r is Err ==> old(self).rd().faulty || old(self).here().at + 4 > old(self).rd().data.len() || old(self).here().at + 1 > old(self).rd().data.len(),''',
   subs=[('re:(\\w+)\\.is_multiple_of\\(2\\)', r'even(\1)'), ('self.reader.read_exact(&mut next_fourcc[1..])?', 'read_tail(&mut self.reader, &mut next_fourcc)?'),
     ('let _ = next_fourcc.escape_ascii();', '', '*'), ('let seek_back;', 'let seek_back: i64;', '*')],
   ins=[('after', 'read_tail(&mut self.reader, &mut next_fourcc)?;', 'proof { let p = old(self).rd().at as int; let d = old(self).rd().data; assert(next_fourcc@ =~= d.subrange(p, p + 4)); }')]),
Fn(F, 'skip', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', sig=[('ChunkParseError', 'ChunkErr')],
   spec='''requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)), final(self).lock_state == old(self).lock_state,
      r is Ok ==> final(self).here() == old(self).after() && final(self).after() == final(self).here() && final(self).current_chunk_remaining_size == 0 && final(self).current_chunk_size == 0,
      r is Err ==> old(self).rd().faulty || old(self).here().at + old(self).current_chunk_remaining_size + 4 > old(self).rd().data.len(),''',
   subs=[('i64::from', 'to_i64', '*'), ('u64::from', 'to_u64', '*')],
   ),
Fn(F, 'next', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', sig=[("Option<Chunk<'_, R>>", 'Option<Chunk>'), ('ChunkParseError', 'ChunkErr')],
   spec='''requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)), final(self).lock_state == old(self).lock_state,
      r matches Ok(Some(c)) ==> ({ let p = old(self).after(); let d = old(self).rd().data;
        &&& p.left >= 8 && p.at + 8 <= d.len()
        &&& c.fourcc@ == d.subrange(p.at, p.at + 4) && fourcc_ok(c.fourcc@)
        &&& c.size == B::v32(d.subrange(p.at + 4, p.at + 8))
        &&& c.start_pos == old(self).total_size - p.left
        &&& c.size <= p.left - 8
        &&& final(self).here() == (Pos { at: p.at + 8, left: p.left - 8 })
        &&& c.content_at@ == p.at + 8
        &&& final(self).after() == padded(d, Pos { at: p.at + 8 + c.size, left: p.left - 8 - c.size }, c.size as int) }),
      r matches Ok(None) ==> ({ let p = old(self).after(); let d = old(self).rd().data;
        p.left < 8 || (!(parse_mode is Strict) && (!fourcc_ok(d.subrange(p.at, p.at + 4)) || B::v32(d.subrange(p.at + 4, p.at + 8)) > p.left - 8) && final(self).here().left == 0) }),
      r is Err ==> old(self).rd().faulty || ({ let p = old(self).after(); let d = old(self).rd().data;
        old(self).here().at + old(self).current_chunk_remaining_size + 4 > d.len()
        || (p.left >= 8 && (p.at + 8 > d.len() || (parse_mode is Strict && (!fourcc_ok(d.subrange(p.at, p.at + 4)) || B::v32(d.subrange(p.at + 4, p.at + 8)) > p.left - 8)))) }),''',
   subs=[('u64::from', 'to_u64', '*'), ('parse_mode == ParsingMode::Strict', 'is_strict(parse_mode)', '*'), (ERRS[0], ERRS[1], '*'),
     ('self.reader.read_exact(&mut fourcc)?', 'read4(&mut self.reader, &mut fourcc)?'), ('re:let mut fourcc = \\[0; 4\\]', 'let mut fourcc = [0u8; 4]'),
     ('re:Ok\\(Some\\(Chunk \\{.*?\\}\\)\\)', 'Ok(Some(Chunk { start_pos, fourcc, size, content_at: Ghost(self.rd().at as int) }))')],
   ),
Fn(F, 'lock', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', ret='_r',
   spec='''requires old(self).wf(), old(self).lock_state is None,
    ensures final(self).wf(), final(self).keeps(old(self)),
      final(self).here() == (Pos { at: old(self).here().at, left: old(self).current_chunk_remaining_size as int }), final(self).after() == final(self).here(),
      final(self).lock_state == Some(((old(self).remaining_size - old(self).current_chunk_remaining_size) as u64, old(self).current_chunk_size)),''',
   subs=[('re:assert!\\(([^,]*), "[^"]*"\\)', r'assert(\1)'), ('u64::from', 'to_u64', '*')]),
Fn(F, 'unlock', impl='impl<R: Read + Seek, B: ByteOrder> Chunks<R, B>', sig=[('ChunkParseError', 'ChunkErr')],
   spec='''requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)), 
      r is Ok ==> final(self).lock_state is None,
      r is Ok && old(self).lock_state is Some ==> ({ let (outer, size) = old(self).lock_state.unwrap(); let p = old(self).after();
        final(self).here() == padded(old(self).rd().data, Pos { at: p.at + p.left, left: outer as int }, size as int) && final(self).after() == final(self).here() }),''',
   ),
'''
}
fn to_u64(n: u32) -> (r: u64) ensures r == n { n as u64 }
fn to_i64(n: u32) -> (r: i64) ensures r == n { n as i64 }
} // verus!
''']
