"""Chunk::{read, seek}: the counters of the list follow the reader, which stays within the chunk."""
F = 'lofty/src/iff/chunk.rs'
ASSUMED = ['the contract of std::io::Take: it reads at most its limit and seeks only within its length, and the limit is what is left of it']
DROPS = ['the two borrowed counters of a Chunk are values here; `impl Read/Seek for Chunk` become inherent methods of the same text']
VAL = ('re:\\*self\\.(file_remaining_size|chunk_remaining_size)', r'self.\1', '*')
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
type IoResult<T> = core::result::Result<T, IoError>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// io::Take over the content of a chunk: `left` bytes of its `len` are left
pub struct Take { pub left: u64, pub len: u64 }
impl Take {
    #[verifier::external_body]
    fn limit(&self) -> (r: u64) ensures r == self.left { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>)
        ensures final(self).len == old(self).len, final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> n <= old(buf)@.len() && n <= old(self).left && final(self).left == old(self).left - n,
            r is Err ==> final(self).left == old(self).left,
    { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, pos: SeekFrom) -> (r: IoResult<u64>)
        ensures final(self).len == old(self).len,
            r matches Ok(p) ==> p <= old(self).len && final(self).left == old(self).len - p,
            r is Err ==> final(self).left == old(self).left,
    { unimplemented!() }
}
pub struct Chunk { file_remaining_size: u64, chunk_remaining_size: u32, reader: Take }
impl Chunk {
    pub closed spec fn wf(&self) -> bool {
        self.reader.left <= self.reader.len <= 0xffff_ffff && self.chunk_remaining_size == self.reader.left && 0 <= self.outer() < 0x7fff_0000_0000_0000
    }
    pub closed spec fn outer(&self) -> int { self.file_remaining_size - self.chunk_remaining_size }
''',
Fn(F, 'read', impl="impl<R: Read> Read for Chunk<'_, R>", sig=[('std::io::Result<usize>', 'IoResult<usize>')], subs=[VAL],
   spec='''requires old(self).wf(),
     ensures final(self).wf(), final(self).outer() == old(self).outer(), r matches Ok(n) ==> n <= old(self).chunk_remaining_size && final(self).chunk_remaining_size == old(self).chunk_remaining_size - n,'''),
Fn(F, 'seek', impl="impl<R: Seek> Seek for Chunk<'_, R>", sig=[('std::io::Result<u64>', 'IoResult<u64>')], subs=[VAL, ('i64::from', 'to_i64', '*')],
   spec='''requires old(self).wf(),
     ensures final(self).wf(), final(self).outer() == old(self).outer(), r matches Ok(p) ==> p <= old(self).reader.len && final(self).chunk_remaining_size == old(self).reader.len - p,'''),
'''
}
fn to_i64(n: u32) -> (r: i64) ensures r == n { n as i64 }
} // verus!
''']
