"""The assumed contract of the reader a function is given: std::io::{Read, Seek} and byteorder's typed
reads, over a ghost byte string and position. `faulty` readers may fail anywhere; others fail exactly
when the bytes run out (or a seek leaves 0..2^64)."""
ASSUMED = ['std::io::Read/Seek and byteorder: the trait Rd of vlib/rd.py, over a ghost stream whose length is below 2^63; the numeric reads return the bytes at the position in the named order']


def prelude(err, writer=False):
    s = '''
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.skip(1)) } }
pub open spec fn le16(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8u16) }
pub open spec fn be16(s: Seq<u8>) -> u16 { (s[1] as u16) | ((s[0] as u16) << 8u16) }
pub open spec fn le32(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8u32) | ((s[2] as u32) << 16u32) | ((s[3] as u32) << 24u32) }
pub open spec fn be32(s: Seq<u8>) -> u32 { (s[3] as u32) | ((s[2] as u32) << 8u32) | ((s[1] as u32) << 16u32) | ((s[0] as u32) << 24u32) }
pub open spec fn le64(s: Seq<u8>) -> u64 { (le32(s.take(4)) as u64) | ((le32(s.skip(4)) as u64) << 32u64) }
pub open spec fn be64(s: Seq<u8>) -> u64 { (be32(s.skip(4)) as u64) | ((be32(s.take(4)) as u64) << 32u64) }
pub struct LittleEndian;
pub struct BigEndian;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait Order: Sized {
    spec fn v16(s: Seq<u8>) -> u16;
    spec fn v32(s: Seq<u8>) -> u32;
    spec fn v64(s: Seq<u8>) -> u64;
}
impl Order for LittleEndian {
    open spec fn v16(s: Seq<u8>) -> u16 { le16(s) }
    open spec fn v32(s: Seq<u8>) -> u32 { le32(s) }
    open spec fn v64(s: Seq<u8>) -> u64 { le64(s) }
}
impl Order for BigEndian {
    open spec fn v16(s: Seq<u8>) -> u16 { be16(s) }
    open spec fn v32(s: Seq<u8>) -> u32 { be32(s) }
    open spec fn v64(s: Seq<u8>) -> u64 { be64(s) }
}
pub open spec fn target(to: SeekFrom, at: int, len: int) -> int {
    match to { SeekFrom::Start(p) => p as int, SeekFrom::End(d) => len + d, SeekFrom::Current(d) => at + d }
}
/// The ghost state of a reader
pub struct St { pub data: Seq<u8>, pub at: u64, pub faulty: bool }
pub open spec fn avail(r: St, n: int) -> bool { n == 0 || r.at as int + n <= r.data.len() }
pub open spec fn next(r: St, n: int) -> Seq<u8> { if n == 0 { seq![] } else { r.data.subrange(r.at as int, r.at as int + n) } }
pub open spec fn same(r: St, o: St) -> bool { r.data == o.data && r.faulty == o.faulty && r.data.len() < 0x8000_0000_0000_0000 }
pub open spec fn moved(r: St, o: St, n: int) -> bool { same(r, o) && r.at as int == o.at + n }
pub trait Rd: Sized {
    spec fn g(&self) -> St;
    fn stream_position(&mut self) -> (r: Result<u64, ERR>)
        ensures moved(final(self).g(), old(self).g(), 0), r matches Ok(p) ==> p == old(self).g().at, r is Err ==> old(self).g().faulty;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, ERR>)
        ensures same(final(self).g(), old(self).g()),
            r matches Ok(p) ==> p as int == target(to, old(self).g().at as int, old(self).g().data.len() as int) && final(self).g().at == p,
            r is Err ==> final(self).g().at == old(self).g().at && (old(self).g().faulty || !(0 <= target(to, old(self).g().at as int, old(self).g().data.len() as int) <= 0xffff_ffff_ffff_ffff));
    fn rewind(&mut self) -> (r: Result<(), ERR>)
        ensures same(final(self).g(), old(self).g()), r is Ok ==> final(self).g().at == 0, r is Err ==> old(self).g().faulty && final(self).g().at == old(self).g().at;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), ERR>)
        ensures same(final(self).g(), old(self).g()), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> avail(old(self).g(), old(buf)@.len() as int) && final(buf)@ == next(old(self).g(), old(buf)@.len() as int) && moved(final(self).g(), old(self).g(), old(buf)@.len() as int),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), old(buf)@.len() as int);
    fn read_exact_vec(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), ERR>)
        ensures same(final(self).g(), old(self).g()), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> avail(old(self).g(), old(buf)@.len() as int) && final(buf)@ == next(old(self).g(), old(buf)@.len() as int) && moved(final(self).g(), old(self).g(), old(buf)@.len() as int),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), old(buf)@.len() as int);
    fn read_u8(&mut self) -> (r: Result<u8, ERR>)
        ensures same(final(self).g(), old(self).g()),
            r matches Ok(v) ==> avail(old(self).g(), 1) && v == old(self).g().data[old(self).g().at as int] && moved(final(self).g(), old(self).g(), 1),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), 1);
'''
    for bits, n in ((16, 2), (32, 4), (64, 8)):
        s += f'''    fn read_u{bits}<O: Order>(&mut self) -> (r: Result<u{bits}, ERR>)
        ensures same(final(self).g(), old(self).g()),
            r matches Ok(v) ==> avail(old(self).g(), {n}) && v == O::v{bits}(next(old(self).g(), {n})) && moved(final(self).g(), old(self).g(), {n}),
            r is Err ==> old(self).g().faulty || !avail(old(self).g(), {n});
'''
    s += '}\n'
    return s.replace('ERR', err)

FILE_ASSUMED = ['std::fs-like files: the trait Fl of vlib/rd.py; writing replaces the bytes from the position on and extends the file, seeking and truncating do what std documents']


def file_prelude(err):
    return '''
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn target(to: SeekFrom, at: int, len: int) -> int {
    match to { SeekFrom::Start(p) => p as int, SeekFrom::End(d) => len + d, SeekFrom::Current(d) => at + d }
}
/// The ghost state of a file
pub struct FSt { pub data: Seq<u8>, pub at: u64, pub faulty: bool }
/// d with b written at p
pub open spec fn overwrite(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if p + b.len() <= d.len() { d.take(p) + b + d.skip(p + b.len() as int) }
    else if p <= d.len() { d.take(p) + b }
    else if b.len() == 0 { d }
    else { d + Seq::new((p - d.len()) as nat, |i: int| 0u8) + b }
}
pub trait Fl: Sized {
    spec fn g(&self) -> FSt;
    fn len(&mut self) -> (r: Result<u64, ERR>)
        ensures final(self).g() == old(self).g(), r matches Ok(n) ==> n == old(self).g().data.len(), r is Err ==> old(self).g().faulty;
    fn stream_position(&mut self) -> (r: Result<u64, ERR>)
        ensures final(self).g() == old(self).g(), r matches Ok(n) ==> n == old(self).g().at, r is Err ==> old(self).g().faulty;
    fn rewind(&mut self) -> (r: Result<(), ERR>)
        ensures r is Ok ==> final(self).g() == (FSt { at: 0, ..old(self).g() }), r is Err ==> final(self).g() == old(self).g() && old(self).g().faulty;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, ERR>)
        ensures r matches Ok(p) ==> p as int == target(to, old(self).g().at as int, old(self).g().data.len() as int) && final(self).g() == (FSt { at: p, ..old(self).g() }),
            r is Err ==> final(self).g() == old(self).g() && (old(self).g().faulty || !(0 <= target(to, old(self).g().at as int, old(self).g().data.len() as int) <= 0xffff_ffff_ffff_ffff));
    fn read_exact_prefix(&mut self, buf: &mut [u8], n: usize) -> (r: Result<(), ERR>)
        requires n <= old(buf)@.len(),
        ensures final(buf)@.len() == old(buf)@.len(), final(self).g().data == old(self).g().data, final(self).g().faulty == old(self).g().faulty,
            r is Ok ==> old(self).g().at + n <= old(self).g().data.len() && final(self).g().at == old(self).g().at + n
                && final(buf)@.take(n as int) == old(self).g().data.subrange(old(self).g().at as int, old(self).g().at + n),
            r is Err ==> old(self).g().faulty || old(self).g().at + n > old(self).g().data.len();
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), ERR>)
        ensures final(self).g().faulty == old(self).g().faulty,
            r is Ok ==> final(self).g().data == overwrite(old(self).g().data, old(self).g().at as int, buf@) && final(self).g().at == old(self).g().at + buf@.len(),
            r is Err ==> old(self).g().faulty || old(self).g().at + buf@.len() >= 0x8000_0000_0000_0000;
    fn truncate(&mut self, n: u64) -> (r: Result<(), ERR>)
        ensures final(self).g().at == old(self).g().at, final(self).g().faulty == old(self).g().faulty,
            r is Ok ==> final(self).g().data == (if n <= old(self).g().data.len() { old(self).g().data.take(n as int) } else { old(self).g().data + Seq::new((n - old(self).g().data.len()) as nat, |i: int| 0u8) }),
            r is Err ==> old(self).g().faulty;
}
'''.replace('ERR', err)
