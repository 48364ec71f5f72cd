"""AtomReader: its position is that of the inner reader, and what remains never exceeds its bounds."""
import rd
F = 'lofty/src/mp4/read/atom_reader.rs'
ASSUMED = rd.ASSUMED + ['AtomInfo::read: the contract proved in mp4_atom']
DROPS = ['errors carry nothing', '`impl Read/Seek for AtomReader` become inherent methods of the same text', 'max, min and saturating operations are contracted functions']
G = [('re:(\\w+(?:\\.\\w+)*)\\.saturating_sub\\(', r'sat_sub(\1, ', '*'), ('re:(self\\.start)\\.saturating_add\\(', r'sat_add(\1, ', '*')]
IMPL = 'impl<R> AtomReader<R> where R: Read + Seek,'
def rdn(n, bits):
    return Fn(F, f'read_u{bits}', impl=IMPL, sig=[('std::io::Result', 'IoResult')], subs=G + ([('byteorder', 'byteorder', '*')]),
      spec=f'''requires old(self).wf(), ensures r is Ok ==> final(self).wf(), final(self).bounds(old(self)),
        r matches Ok(v) ==> avail(old(self).rd(), {n}) && moved(final(self).rd(), old(self).rd(), {n}) && v == {'be%d(next(old(self).rd(), %d))' % (bits, n) if n > 1 else 'old(self).rd().data[old(self).rd().at as int]'},''')
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
type IoResult<T> = core::result::Result<T, IoError>;
''', rd.prelude('IoError'), '''
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
fn copy_mode(m: &ParsingMode) -> (r: ParsingMode) ensures r == *m { match m { ParsingMode::Strict => ParsingMode::Strict, ParsingMode::BestAttempt => ParsingMode::BestAttempt, ParsingMode::Relaxed => ParsingMode::Relaxed } }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
fn sat_add(a: u64, b: u64) -> (r: u64) ensures r == if a + b <= u64::MAX { a + b } else { u64::MAX as int } { if a <= u64::MAX - b { a + b } else { u64::MAX } }
fn max_(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
fn min_(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn abs_(a: i64) -> (r: u64) ensures r == if a < 0 { -a } else { a as int } { if a < 0 { (-(a + 1)) as u64 + 1 } else { a as u64 } }
/// an atom header: where it is, and the length it announces
pub struct AtomInfo { pub start: u64, pub len: u64 }
''', Item(F, 'struct', 'AtomReader', subs=[('where R: Read + Seek,', '')]), '''
impl<R: Rd> AtomReader<R> {
    pub closed spec fn rd(&self) -> St { self.reader.g() }
    pub closed spec fn end(&self) -> int { if self.start + self.len <= u64::MAX { self.start + self.len } else { u64::MAX as int } }
    pub closed spec fn wf(&self) -> bool { self.rd().data.len() < 0x8000_0000_0000_0000 && (self.remaining_size == 0 || self.rd().at + self.remaining_size <= self.end()) }
    pub closed spec fn bounds(&self, o: &Self) -> bool { self.start == o.start && self.len == o.len && self.parse_mode == o.parse_mode && same(self.rd(), o.rd()) }
    pub closed spec fn left(&self) -> int { self.remaining_size as int }
    /// AtomInfo::read on this reader (contract: unit mp4_atom)
    #[verifier::external_body]
    fn atom_read(&mut self, size: u64, m: ParsingMode) -> (r: Result<Option<AtomInfo>, IoError>)
        requires old(self).wf(),
        ensures r is Ok ==> final(self).wf(), final(self).bounds(old(self)),
            r matches Ok(Some(a)) ==> a.start == old(self).rd().at && 8 <= a.len <= size,
    { unimplemented!() }
    #[verifier::external_body]
    fn inner_read(r: &mut R, buf: &mut [u8]) -> (x: IoResult<usize>)
        ensures same(final(r).g(), old(r).g()), final(buf)@.len() == old(buf)@.len(),
            x matches Ok(n) ==> n <= old(buf)@.len() && avail(old(r).g(), n as int) && moved(final(r).g(), old(r).g(), n as int) && final(buf)@.take(n as int) =~= next(old(r).g(), n as int),
            x is Err ==> moved(final(r).g(), old(r).g(), 0),
    { unimplemented!() }
''',
Fn(F, 'reset_bounds', impl=IMPL, ret='_r', spec='''requires old(self).rd().data.len() < 0x8000_0000_0000_0000, start_position + len <= u64::MAX,
    ensures final(self).end() == start_position + len, final(self).rd() == old(self).rd(), final(self).start == start_position, final(self).left() == len, old(self).rd().at <= start_position ==> final(self).wf(),'''),
rdn(1, 8), rdn(2, 16), rdn(4, 32), rdn(8, 64),
Fn(F, 'next', impl=IMPL, sig=[('AtomParseError', 'IoError')], subs=[('SizeMismatchError.into()', 'IoError {}'), ('re:AtomInfo::read\\(self, self\\.remaining_size, self\\.parse_mode\\)', 'let size = self.remaining_size; let m = copy_mode(&self.parse_mode); self.atom_read(size, m)')],
   spec='''requires old(self).wf(), ensures r is Ok ==> final(self).wf(), final(self).bounds(old(self)),
     r matches Ok(Some(a)) ==> a.start == old(self).rd().at && a.start + a.len <= final(self).end() && a.len <= old(self).left(),
     old(self).left() == 0 ==> r matches Ok(None), 0 < old(self).left() < 8 ==> r is Err,'''),
Fn(F, 'seek', impl='impl<R> Seek for AtomReader<R> where R: Read + Seek,', sig=[('std::io::Result', 'IoResult')],
   subs=[('re:s\\.max\\(self\\.start\\)\\.min\\(bound_end\\)', 'min_(max_(s, self.start), bound_end)'), ('re:bound_end\\s*\\.saturating_sub\\(s\\.unsigned_abs\\(\\)\\)\\s*\\.max\\(self\\.start\\)', 'max_(sat_sub(bound_end, abs_(s)), self.start)'),
      ('SeekFrom::Current(_) => self.reader.seek(pos)?,', 'SeekFrom::Current(d) => self.reader.seek(SeekFrom::Current(d))?,')] + G,
   spec='''requires old(self).rd().data.len() < 0x8000_0000_0000_0000,
     ensures final(self).bounds(old(self)), r is Ok ==> final(self).wf(), old(self).wf() ==> final(self).wf(),
       r matches Ok(p) ==> ({
         &&& p == final(self).rd().at
         &&& final(self).left() == (if p <= final(self).end() { final(self).end() - p } else { 0 })
         &&& match pos {
           SeekFrom::Start(s) => (old(self).start <= s <= old(self).end() ==> p == s) && old(self).start <= p <= old(self).end(),
           SeekFrom::End(d) => old(self).start <= p <= old(self).end() && (d == 0 ==> p == old(self).end()) && (old(self).start <= old(self).end() + d <= old(self).end() ==> p == old(self).end() + d),
           SeekFrom::Current(d) => p == old(self).rd().at + d } }),'''),
Fn(F, 'read', impl='impl<R> Read for AtomReader<R> where R: Read + Seek,', sig=[('std::io::Result', 'IoResult')], subs=G + [('self.reader.read(buf)?', 'Self::inner_read(&mut self.reader, buf)?')],
   spec='''requires old(self).wf(), ensures final(self).wf(), final(self).bounds(old(self)), final(buf)@.len() == old(buf)@.len(),
      r matches Ok(n) ==> n <= old(buf)@.len() && moved(final(self).rd(), old(self).rd(), n as int) && avail(old(self).rd(), n as int) && final(buf)@.take(n as int) =~= next(old(self).rd(), n as int),
      old(self).left() == 0 ==> r == Ok::<usize, IoError>(0),'''),
'''
}
} // verus!
''']
