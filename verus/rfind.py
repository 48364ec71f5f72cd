"""RevPatternSearcher::search finds the last occurrence, for every stream, pattern, buffer size and range."""
import rd
F = 'lofty/src/util/io.rs'
ASSUMED = rd.ASSUMED + ['slice::windows/enumerate/rev/find_map: last_match gives the index of the last window equal to the pattern', 'a buffer of the requested size can be allocated']
DROPS = ['the searcher owns its reader (the original borrows it)', 'reading into a prefix of the buffer is one call', 'the iterator chain over the windows is the call last_match, whose text is checked to be that chain']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
type IoResult<T> = core::result::Result<T, IoError>;
''', rd.prelude('IoError'), Item(F, 'enum', 'RevSearchStart'), Item(F, 'enum', 'RevSearchEnd'), '''
pub struct RevPatternSearcher<'a, T> { start: RevSearchStart, end: RevSearchEnd, buffer_size: u64, pattern: &'a [u8], reader: T }
/// the pattern occurs in d at p
pub open spec fn occurs(d: Seq<u8>, pat: Seq<u8>, p: int) -> bool { 0 <= p && p + pat.len() <= d.len() && d.subrange(p, p + pat.len()) == pat }
/// p is the last occurrence within [lo, hi)
pub open spec fn last_in(d: Seq<u8>, pat: Seq<u8>, lo: int, hi: int, p: int) -> bool {
    lo <= p && p + pat.len() <= hi && occurs(d, pat, p) && forall|q: int| p < q && q + pat.len() <= hi ==> !#[trigger] occurs(d, pat, q)
}
pub open spec fn none_in(d: Seq<u8>, pat: Seq<u8>, lo: int, hi: int) -> bool {
    forall|q: int| lo <= q && q + pat.len() <= hi ==> !#[trigger] occurs(d, pat, q)
}
#[verifier::external_body]
fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { vec![0; n] }
fn is_empty(s: &[u8]) -> (r: bool) ensures r == (s@.len() == 0) { s.len() == 0 }
fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
#[verifier::external_body]
fn last_match(w: &[u8], pat: &[u8]) -> (r: Option<usize>)
    requires pat@.len() > 0,
    ensures r matches Some(i) ==> last_in(w@, pat@, 0, w@.len() as int, i as int), r is None ==> none_in(w@, pat@, 0, w@.len() as int)
{ unimplemented!() }
#[verifier::external_body]
fn read_window<'b, T: Rd>(r: &mut T, buf: &'b mut Vec<u8>, n: usize) -> (w: IoResult<&'b [u8]>)
    requires n <= old(buf)@.len(),
    ensures same(final(r).g(), old(r).g()), final(buf)@.len() == old(buf)@.len(),
      w matches Ok(s) ==> avail(old(r).g(), n as int) && s@ == next(old(r).g(), n as int) && moved(final(r).g(), old(r).g(), n as int),
      w is Err ==> old(r).g().faulty || !avail(old(r).g(), n as int)
{ unimplemented!() }
/// an occurrence in a part of d is one in d
proof fn part(d: Seq<u8>, pat: Seq<u8>, a: int, b: int, q: int)
    requires 0 <= a <= b <= d.len(), a <= q, q + pat.len() <= b,
    ensures occurs(d, pat, q) == occurs(d.subrange(a, b), pat, q - a)
{ assert(d.subrange(a, b).subrange(q - a, q - a + pat.len()) =~= d.subrange(q, q + pat.len())); }
impl<'a, T: Rd> RevPatternSearcher<'a, T> {
    pub closed spec fn rd(&self) -> St { self.reader.g() }
    pub closed spec fn hi(&self) -> int { match self.start { RevSearchStart::FromEnd => self.rd().data.len() as int, RevSearchStart::FromCurrent => self.rd().at as int } }
    pub closed spec fn lo(&self) -> int { match self.end { RevSearchEnd::StreamStart => 0, RevSearchEnd::FromCurrent => self.rd().at as int, RevSearchEnd::Pos(p) => p as int } }
''',
Fn(F, 'search', sig=[('std::io::Result<bool>', 'IoResult<bool>')], impl="impl<T> RevPatternSearcher<'_, T> where T: Read + Seek,",
   spec='''requires old(self).rd().data.len() < 0x8000_0000_0000_0000, old(self).rd().at <= old(self).rd().data.len(),
    ensures same(final(self).rd(), old(self).rd()),
      r is Err ==> old(self).rd().faulty,
      old(self).pattern@.len() == 0 && r is Ok ==> r == Ok::<bool, IoError>(true) && final(self).rd() == old(self).rd(),
      old(self).pattern@.len() > 0 && r == Ok::<bool, IoError>(true) ==> last_in(old(self).rd().data, old(self).pattern@, old(self).lo(), old(self).hi(), final(self).rd().at as int),
      old(self).pattern@.len() > 0 && r == Ok::<bool, IoError>(false) ==> final(self).rd().at == old(self).rd().at
        && (old(self).buffer_size >= old(self).pattern@.len() ==> none_in(old(self).rd().data, old(self).pattern@, old(self).lo(), old(self).hi())),''',
   subs=[('self.pattern.is_empty()', 'is_empty(self.pattern)', '*'), ('vec![0; self.buffer_size as usize]', 'zeroed(self.buffer_size as usize)'),
     ('std::cmp::min', 'min_u64', '*'),
     ('let window = &mut buf[..read_size as usize]; self.reader.read_exact(window)?;', 'let window = read_window(&mut self.reader, &mut buf, read_size as usize)?;'),
     ('window .windows(self.pattern.len()) .enumerate() .rev() .find_map(|(idx, window)| { if window == self.pattern { Some(idx) } else { None } })', 'last_match(window, self.pattern)')],
   loops=['''invariant self.pattern == old(self).pattern, self.buffer_size == old(self).buffer_size, same(self.rd(), old(self).rd()),
       self.pattern@.len() == pattern_len, 0 < pattern_len <= self.buffer_size, overlap_step == self.buffer_size - (pattern_len - 1),
       buf@.len() == self.buffer_size, original_pos == old(self).rd().at, end_pos == old(self).lo(), start_pos == old(self).hi(),
       end_pos <= current_pos <= start_pos, start_pos <= self.rd().data.len(),
       forall|q: int| end_pos <= q && current_pos - (pattern_len - 1) <= q && q + pattern_len <= start_pos ==> !#[trigger] occurs(self.rd().data, self.pattern@, q),
     decreases current_pos,'''],
   ins=[('before', 'if let Some(match_offset)', '''proof {
         let d = self.rd().data; let pat = self.pattern@; let a = read_start as int; let b = current_pos as int;
         assert(window@ == d.subrange(a, b));
         assert forall|q: int| a <= q && q + pat.len() <= b implies #[trigger] occurs(d, pat, q) == occurs(window@, pat, q - a) by { part(d, pat, a, b, q); }
     }''')]),
'''
}
} // verus!
''']
