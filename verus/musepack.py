"""Musepack: SV8 packets and headers, the SV7 and the SV4-6 header."""
import rd
D = 'lofty/src/musepack/'
R8, P8, P7, P6, C = D + 'sv8/read.rs', D + 'sv8/properties.rs', D + 'sv7/properties.rs', D + 'sv4to6/properties.rs', D + 'constants.rs'
ASSUMED = ['std::io::Read and byteorder: the trait In, whose reads take the bytes at the position and fail exactly when they run out (or the reader is faulty)', 'the same reads on a PacketReader: those of its own `read`, which is verified, as read_exact makes them',
   'io::Take and io::copy: skipping stops at the end of the stream', '4^n, rounded division, Duration::from_millis', 'the float arithmetic of gains, peaks and the durations of SV7 and bitrates of SV4-6 (executed)']
DROPS = ['errors carry nothing', 'the encoder profile is in eighths', 'packet keys are compared as bytes', '`while let` and `match` on keys are a loop and tests', 'stream lengths below 2^44 in SV7']
MSG = (r're:MpcParseError::message\(\s*"[^"]*",?\s*\)', 'MErr {}', '*')
LEAF = rd.prelude('MErr'); LEAF = LEAF[:LEAF.index('pub open spec fn target')].replace('pub enum SeekFrom { Start(u64), End(i64), Current(i64) }\n', '')
def key(Src, name, f, want):
    import re
    m = re.search(r'b"([A-Z])([A-Z])"', Src(R8).item('const', name))
    if not m:
        raise Lost(f'const {name}')
    return f'fn {f}(k: [u8; 2]) -> (r: bool) ensures r == (k@ == seq![{want}]) {{ is_key(k, {ord(m[1])}, {ord(m[2])}) }}\n'


PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub struct MErr {}
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
''', LEAF, '''
/// a stream that is read up to lim
pub struct St { pub data: Seq<u8>, pub at: int, pub lim: int, pub faulty: bool }
pub open spec fn good(r: St) -> bool { 0 <= r.at <= r.lim <= r.data.len() < 0x2000_0000_0000_0000 }
pub open spec fn avail(r: St, n: int) -> bool { r.at + n <= r.lim }
pub open spec fn next(r: St, n: int) -> Seq<u8> { r.data.subrange(r.at, r.at + n) }
pub open spec fn same(r: St, o: St) -> bool { r.data == o.data && r.lim == o.lim && r.faulty == o.faulty && (good(o) ==> good(r)) }
pub open spec fn moved(r: St, o: St, n: int) -> bool { same(r, o) && r.at == o.at + n }
pub trait In: Sized {
    spec fn g(&self) -> St;
    fn read_u8(&mut self) -> (r: Result<u8, MErr>)
        ensures same(final(self).g(), old(self).g()), r is Err ==> old(self).g().faulty || !avail(old(self).g(), 1),
            r matches Ok(v) ==> avail(old(self).g(), 1) && v == old(self).g().data[old(self).g().at] && moved(final(self).g(), old(self).g(), 1);
    fn read_u16<O: Order>(&mut self) -> (r: Result<u16, MErr>)
        ensures same(final(self).g(), old(self).g()), r is Err ==> old(self).g().faulty || !avail(old(self).g(), 2),
            r matches Ok(v) ==> avail(old(self).g(), 2) && v == O::v16(next(old(self).g(), 2)) && moved(final(self).g(), old(self).g(), 2);
    fn read_u32<O: Order>(&mut self) -> (r: Result<u32, MErr>)
        ensures same(final(self).g(), old(self).g()), r is Err ==> old(self).g().faulty || !avail(old(self).g(), 4),
            r matches Ok(v) ==> avail(old(self).g(), 4) && v == O::v32(next(old(self).g(), 4)) && moved(final(self).g(), old(self).g(), 4);
    fn read_two(&mut self, b: &mut [u8; 2]) -> (r: Result<(), MErr>)
        ensures same(final(self).g(), old(self).g()), r is Err ==> old(self).g().faulty || !avail(old(self).g(), 2),
            r is Ok ==> avail(old(self).g(), 2) && final(b)@ == next(old(self).g(), 2) && moved(final(self).g(), old(self).g(), 2);
    fn read_words(&mut self, b: &mut [u32; 8]) -> (r: Result<(), MErr>)
        ensures same(final(self).g(), old(self).g()), r is Err ==> old(self).g().faulty || !avail(old(self).g(), 32),
            r is Ok ==> avail(old(self).g(), 32) && moved(final(self).g(), old(self).g(), 32) && (forall|i: int| 0 <= i < 8 ==> #[trigger] final(b)@[i] == le32(old(self).g().data.subrange(old(self).g().at + 4 * i, old(self).g().at + 4 * i + 4)));
    /// take(n).read(b)
    fn read_within(&mut self, n: u64, b: &mut [u8]) -> (r: Result<usize, MErr>)
        ensures same(final(self).g(), old(self).g()), final(b)@.len() == old(b)@.len(), r is Err ==> old(self).g().faulty && final(self).g().at == old(self).g().at,
            r matches Ok(k) ==> k <= n && k <= old(b)@.len() && moved(final(self).g(), old(self).g(), k as int) && (good(old(self).g()) ==> avail(old(self).g(), k as int)) && final(b)@.take(k as int) == next(old(self).g(), k as int);
    /// copy(take(n), sink())
    fn discard(&mut self, n: u64) -> (r: Result<u64, MErr>)
        ensures same(final(self).g(), old(self).g()), r is Err ==> old(self).g().faulty,
            r is Ok && good(old(self).g()) ==> final(self).g().at == (if old(self).g().at + n <= old(self).g().lim { old(self).g().at + n } else { old(self).g().lim });
}
''', Item(C, 'const', 'FREQUENCY_TABLE'), Item(C, 'const', 'MPC_DECODER_SYNTH_DELAY'), Item(C, 'const', 'MPC_FRAME_LENGTH'),
Item(R8, 'struct', 'PacketReader'), '''
impl<R: In> PacketReader<R> {
    pub closed spec fn cap(&self) -> int { self.capacity as int }
    pub closed spec fn inner(&self) -> St { self.reader.g() }
    /// the stream it reads: the inner one up to the end of the packet
    pub open spec fn st(&self) -> St { St { lim: if self.inner().at + self.cap() <= self.inner().lim { self.inner().at + self.cap() } else { self.inner().lim }, ..self.inner() } }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, MErr>)
        ensures within(final(self), old(self)), same(final(self).st(), old(self).st()), r is Err ==> old(self).st().faulty || !avail(old(self).st(), 1),
            r matches Ok(v) ==> avail(old(self).st(), 1) && v == old(self).st().data[old(self).st().at] && moved(final(self).st(), old(self).st(), 1) { unimplemented!() }
    #[verifier::external_body]
    fn read_u16<O: Order>(&mut self) -> (r: Result<u16, MErr>)
        ensures within(final(self), old(self)), same(final(self).st(), old(self).st()), r is Err ==> old(self).st().faulty || !avail(old(self).st(), 2),
            r matches Ok(v) ==> avail(old(self).st(), 2) && v == O::v16(next(old(self).st(), 2)) && moved(final(self).st(), old(self).st(), 2) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<O: Order>(&mut self) -> (r: Result<u32, MErr>)
        ensures within(final(self), old(self)), same(final(self).st(), old(self).st()), r is Err ==> old(self).st().faulty || !avail(old(self).st(), 4),
            r matches Ok(v) ==> avail(old(self).st(), 4) && v == O::v32(next(old(self).st(), 4)) && moved(final(self).st(), old(self).st(), 4) { unimplemented!() }
    /// read_size with the reader being this one (the contract proved for every reader)
    #[verifier::external_body]
    fn size_within(r0: &mut Self) -> (r: Result<(u64, u8), MErr>)
        requires good(old(r0).st()),
        ensures within(final(r0), old(r0)), same(final(r0).st(), old(r0).st()), sized(r, old(r0).st(), final(r0).st()) { unimplemented!() }
}
/// what reading from a packet does to the stream underneath
pub open spec fn within<R: In>(r: &PacketReader<R>, o: &PacketReader<R>) -> bool {
    same(r.inner(), o.inner()) && r.cap() >= 0 && r.inner().at + r.cap() == o.inner().at + o.cap()
}
/// a number of seven bits per byte, the most significant first, in at most nine bytes
pub open spec fn vle(s: Seq<u8>, i: int, v: int) -> Option<(int, int)> decreases 9 - i {
    if i < 0 || i >= 9 || i >= s.len() { None }
    else { let w = v * 128 + s[i] % 128; if s[i] < 128 { Some((w, i + 1)) } else { vle(s, i + 1, w) } }
}
pub open spec fn sized(r: Result<(u64, u8), MErr>, o: St, f: St) -> bool {
    let s = o.data.subrange(o.at, o.lim);
    &&& r matches Ok(x) ==> vle(s, 0, 0) == Some((x.0 as int, x.1 as int)) && f.at == o.at + x.1 && 1 <= x.1 <= 9 && x.0 < 0x8000_0000_0000_0000 && f.at <= f.lim
    &&& r is Err ==> o.faulty || vle(s, 0, 0) is None
}
pub open spec fn p7(i: int) -> int decreases i { if i <= 0 { 1 } else { 128 * p7(i - 1) } }
/// an uppercase key
pub open spec fn upper(b: u8) -> bool { 0x41 <= b <= 0x5A }
fn is_upper(b: u8) -> (r: bool) ensures r == upper(b) { b >= 0x41 && b <= 0x5A }
fn is_key(k: [u8; 2], a: u8, b: u8) -> (r: bool) ensures r == (k@ == seq![a, b]) { proof { if k[0] == a && k[1] == b { assert(k@ =~= seq![a, b]); } else if k@ == seq![a, b] { assert(k@[0] == a); assert(k@[1] == b); } } k[0] == a && k[1] == b }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a > b { a - b } else { 0 } { if a > b { a - b } else { 0 } }
fn sat_sub32(a: u32, b: u32) -> (r: u32) ensures r == if a > b { a - b } else { 0 } { if a > b { a - b } else { 0 } }
/// the packet that starts at p: its key, and how much content follows at where
pub struct Packet { pub key: Seq<u8>, pub size: int, pub content: int }
pub open spec fn packet(d: Seq<u8>, p: int) -> Option<Packet> {
    if p < 0 || p + 2 > d.len() || !upper(d[p]) || !upper(d[p + 1]) { None }
    else { match vle(d.skip(p + 2), 0, 0) { None => None, Some(x) => Some(Packet { key: d.subrange(p, p + 2), size: if x.0 > 2 + x.1 { x.0 - 2 - x.1 } else { 0 }, content: p + 2 + x.1 }) } }
}
''',
'impl<R: In> PacketReader<R> {',
Fn(R8, 'new', impl='impl<R: Read> PacketReader<R>', spec='ensures r.inner() == reader.g(), r.cap() == 0,'),
Fn(R8, 'read_size', impl='impl<R: Read> PacketReader<R>', sig=[('MpcParseError', 'MErr')],
   spec='requires good(old(reader).g()), ensures same(final(reader).g(), old(reader).g()), sized(r, old(reader).g(), final(reader).g()),',
   subs=[('TooMuchDataError.into()', 'MErr {}'), ('let mut bytes_read = 0;', 'let mut bytes_read: u8 = 0;')],
   ins=[('start', '', 'let ghost g0 = reader.g(); let ghost s = g0.data.subrange(g0.at, g0.lim); reveal_with_fuel(p7, 10);'),
     ('after', 'current = reader.read_u8()?;', 'proof { assert(current == s[bytes_read as int]); assert((current & 0x7F) == current % 128) by (bit_vector); assert((current & 0x80 == 0) == (current < 128)) by (bit_vector); }'),
     ('before', 'size = (size << 7)', 'proof { let c = current % 128; assert(size < 0x100_0000_0000_0000) by { assert(bytes_read <= 9); } assert(((size << 7u64) | (c as u64)) == size * 128 + c) by (bit_vector) requires c < 128, size < 0x100_0000_0000_0000; }')],
   loops=['''invariant_except_break vle(s, bytes_read as int, size as int) == vle(s, 0, 0),
      invariant g0 == old(reader).g(), good(g0), s == g0.data.subrange(g0.at, g0.lim), bytes_read <= 9, size < p7(bytes_read as int), moved(reader.g(), g0, bytes_read as int), reader.g().at <= g0.lim, p7(0) == 1, p7(1) == 0x80, p7(2) == 0x4000, p7(3) == 0x20_0000, p7(4) == 0x1000_0000, p7(5) == 0x8_0000_0000, p7(6) == 0x400_0000_0000, p7(7) == 0x2_0000_0000_0000, p7(8) == 0x100_0000_0000_0000, p7(9) == 0x8000_0000_0000_0000,
      ensures vle(s, 0, 0) == Some((size as int, bytes_read as int)), bytes_read >= 1,
      decreases 10 - bytes_read,''']),
Fn(R8, 'next', impl='impl<R: Read> PacketReader<R>', sig=[('MpcParseError', 'MErr')],
   spec='''requires good(old(self).inner()),
    ensures same(final(self).inner(), old(self).inner()),
      r matches Ok(x) ==> packet(old(self).inner().data.take(old(self).inner().lim), old(self).st().lim) == Some(Packet { key: x.0@, size: x.1 as int, content: final(self).inner().at }) && final(self).cap() == x.1 && x.1 < 0x8000_0000_0000_0000 && final(self).inner().at >= old(self).st().lim + 3
          && (old(self).cap() + old(self).inner().at < old(self).inner().lim),
      r is Err ==> old(self).inner().faulty || packet(old(self).inner().data.take(old(self).inner().lim), old(self).st().lim) is None,''',
   subs=[(r're:std::io::copy\(.*?\)\?;', 'self.reader.discard(self.capacity)?;'), ('let mut key = [0; 2];', 'let mut key = [0u8; 2];'), ('self.reader.read_exact(&mut key)?', 'self.reader.read_two(&mut key)?'), MSG,
      (r're:(key\[\d\])\.is_ascii_uppercase\(\)', r'is_upper(\1)', '*'), (r're:packet_size\.saturating_sub\(([^;]*)\);', r'sat_sub(packet_size, \1);')],
   ins=[('start', '', 'let ghost d = self.reader.g().data.take(self.reader.g().lim); let ghost p = self.st().lim;'),
     ('after', 'self.reader.read_two(&mut key)?;', 'proof { assert(key@[0] == d[p]); assert(key@[1] == d[p + 1]); assert(key@ =~= d.subrange(p, p + 2)); let g = self.reader.g(); assert(g.data.subrange(g.at, g.lim) =~= d.skip(p + 2)); }')]),
Fn(R8, 'read', impl='impl<R: Read> Read for PacketReader<R>', sig=[('std::io::Result<usize>', 'Result<usize, MErr>')],
   spec='''requires good(old(self).inner()),
    ensures within(final(self), old(self)), same(final(self).st(), old(self).st()), final(buf)@.len() == old(buf)@.len(), r is Err ==> old(self).st().faulty,
      r matches Ok(k) ==> k <= old(buf)@.len() && avail(old(self).st(), k as int) && moved(final(self).st(), old(self).st(), k as int) && final(buf)@.take(k as int) == next(old(self).st(), k as int),''',
   subs=[('self.reader.by_ref().take(self.capacity).read(buf)?', 'self.reader.read_within(self.capacity, buf)?'), ('self.capacity.saturating_sub(bytes_read as u64)', 'sat_sub(self.capacity, bytes_read as u64)')]),
'}',
Item(P8, 'struct', 'StreamHeader', prefix='#[derive(Clone, Copy)]\n'), Item(P8, 'struct', 'ReplayGain', prefix='#[derive(Clone, Copy)]\n'), Item(P8, 'struct', 'EncoderInfo', subs=[('profile: f32', 'profile: Eighths')], prefix='#[derive(Clone, Copy)]\n'),
Item(P8, 'struct', 'MpcSv8Properties'), '''
#[derive(Clone, Copy)]
pub struct Eighths(u8);
fn eighths(n: u8) -> (r: Eighths) ensures r.0 == n { Eighths(n) }
#[derive(Clone, Copy)]
pub struct Duration { ms: u64 }
pub open spec fn zero() -> Duration { Duration { ms: 0 } }
fn duration_zero() -> (r: Duration) ensures r == zero() { Duration { ms: 0 } }
fn from_millis(ms: u64) -> (r: Duration) ensures r.ms == ms { Duration { ms } }
pub open spec fn p4(n: int) -> int { if n == 0 { 1 } else if n == 1 { 4 } else if n == 2 { 16 } else if n == 3 { 64 } else if n == 4 { 256 } else if n == 5 { 1024 } else if n == 6 { 4096 } else { 16384 } }
#[verifier::external_body]
fn pow4(n: u32) -> (r: u16) requires n < 8, ensures r == p4(n as int) { 4u16.pow(n) }
#[verifier::external_body]
fn div_round(a: u128, b: u128) -> (r: u128) requires b > 0, a + b / 2 <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, ensures r == (a + b / 2) / (b as int) { (a + (b >> 1)) / b }
pub open spec fn no_header() -> StreamHeader { StreamHeader { crc: 0, stream_version: 0, sample_count: 0, beginning_silence: 0, sample_rate: 0, max_used_bands: 0, channels: 0, ms_used: false, audio_block_frames: 0 } }
pub open spec fn no_gain() -> ReplayGain { ReplayGain { version: 0, title_gain: 0, title_peak: 0, album_gain: 0, album_peak: 0 } }
#[verifier::external_body]
fn default_header() -> (r: StreamHeader) ensures r == no_header() { unimplemented!() }
#[verifier::external_body]
fn default_gain() -> (r: ReplayGain) ensures r == no_gain() { unimplemented!() }
/// the stream header in the bytes c
pub open spec fn header(c: Seq<u8>) -> Option<StreamHeader> {
    if c.len() < 5 { None } else { match vle(c.skip(5), 0, 0) { None => None, Some(x) => match vle(c.skip(5 + x.1), 0, 0) { None => None, Some(y) => {
        let k = 5 + x.1 + y.1;
        if k + 2 > c.len() { None } else { Some(StreamHeader {
            crc: be32(c.take(4)), stream_version: c[4], sample_count: x.0 as u64, beginning_silence: y.0 as u64,
            sample_rate: FREQUENCY_TABLE@[(c[k] / 32) as int], max_used_bands: (c[k] % 32 + 1) as u8,
            channels: (c[k + 1] / 16 + 1) as u8, ms_used: (c[k + 1] / 8) % 2 == 1, audio_block_frames: p4((c[k + 1] % 8) as int) as u16 }) } } } } }
}
pub open spec fn gain(c: Seq<u8>) -> Option<ReplayGain> {
    if c.len() < 9 { None } else { Some(ReplayGain { version: c[0], title_gain: be16(c.subrange(1, 3)), title_peak: be16(c.subrange(3, 5)), album_gain: be16(c.subrange(5, 7)), album_peak: be16(c.subrange(7, 9)) }) }
}
pub open spec fn encoder(c: Seq<u8>) -> Option<EncoderInfo> {
    if c.len() < 4 { None } else { Some(EncoderInfo { profile: Eighths(c[0] / 2), pns_tool: c[0] % 2 == 1, major: c[1], minor: c[2], build: c[3] }) }
}
pub open spec fn rest(r: St) -> Seq<u8> { r.data.subrange(r.at, r.lim) }
''',
'impl StreamHeader {',
Fn(P8, 'read', impl='impl StreamHeader', sig=[('R: Read', 'R: In'), ('MpcParseError', 'MErr')], head='#[verifier::rlimit(60)]\n',
   spec='''requires good(old(reader).st()),
    ensures within(final(reader), old(reader)), good(final(reader).st()), r matches Ok(h) ==> header(rest(old(reader).st())) == Some(h) && sane(h), r is Err ==> old(reader).st().faulty || header(rest(old(reader).st())) is None,''',
   subs=[('PacketReader::read_size(reader)?', 'PacketReader::size_within(reader)?', 2), ('4u16.pow(u32::from(audio_block_frames_value))', 'pow4(u32::from(audio_block_frames_value))')],
   ins=[('start', '', 'hide(be32); let ghost g0 = reader.st(); let ghost c = rest(g0);'),
     ('after', 'let crc = reader.read_u32::<BigEndian>()?;', 'proof { assert(crc == be32(next(g0, 4))); assert(next(g0, 4) =~= c.take(4)); }'),
     ('after', 'let stream_version = reader.read_u8()?;', 'proof { assert(rest(reader.st()) =~= c.skip(5)); }'),
     ('after', 'let (sample_count, _) = PacketReader::size_within(reader)?;', 'let ghost k1 = reader.st().at - g0.at; proof { assert(rest(reader.st()) =~= c.skip(k1)); }'),
     ('after', 'let remaining_flags_byte_1 = reader.read_u8()?;', '''let ghost k = reader.st().at - 1 - g0.at; proof { let b = remaining_flags_byte_1; assert(b == c[k]);
         assert((b & 0xE0) >> 5u8 == b / 32) by (bit_vector); assert((b & 0x1F) == b % 32) by (bit_vector); assert(b / 32 < 8) by (bit_vector); }'''),
     ('after', 'let remaining_flags_byte_2 = reader.read_u8()?;', '''proof { let b = remaining_flags_byte_2; assert(b == c[k + 1]);
         assert(b >> 4u8 == b / 16) by (bit_vector); assert((b & 0x08 == 0x08) == ((b / 8) % 2 == 1)) by (bit_vector); assert(b & 0x07 == b % 8) by (bit_vector); }''')]),
'}\nimpl ReplayGain {',
Fn(P8, 'read', impl='impl ReplayGain', sig=[('R: Read', 'R: In'), ('MpcParseError', 'MErr')], emit_name=None,
   spec='''requires good(old(reader).st()),
    ensures within(final(reader), old(reader)), good(final(reader).st()), r matches Ok(h) ==> gain(rest(old(reader).st())) == Some(h), r is Err ==> old(reader).st().faulty || gain(rest(old(reader).st())) is None,''',
   ins=[('start', '', 'hide(be16); let ghost g0 = reader.st(); let ghost c = rest(g0); proof { if c.len() >= 9 { assert(c.subrange(1, 3) =~= g0.data.subrange(g0.at + 1, g0.at + 3)); assert(c.subrange(3, 5) =~= g0.data.subrange(g0.at + 3, g0.at + 5)); assert(c.subrange(5, 7) =~= g0.data.subrange(g0.at + 5, g0.at + 7)); assert(c.subrange(7, 9) =~= g0.data.subrange(g0.at + 7, g0.at + 9)); } }')]),
'}\nimpl EncoderInfo {',
Fn(P8, 'read', impl='impl EncoderInfo', sig=[('R: Read', 'R: In'), ('MpcParseError', 'MErr')],
   spec='''requires good(old(reader).st()),
    ensures within(final(reader), old(reader)), good(final(reader).st()), r matches Ok(h) ==> encoder(rest(old(reader).st())) == Some(h), r is Err ==> old(reader).st().faulty || encoder(rest(old(reader).st())) is None,''',
   subs=[(r're:f32::from\(([^;]*)\) / 8\.0', r'eighths(\1)')],
   ins=[('after', 'let byte1 = reader.read_u8()?;', 'proof { assert((byte1 & 0xFE) >> 1u8 == byte1 / 2) by (bit_vector); assert((byte1 & 0x01 == 1) == (byte1 % 2 == 1)) by (bit_vector); }')]),
'''}
/// duration and bitrate of n samples
pub open spec fn timed(h: StreamHeader, len: int) -> (int, int) {
    let n = h.sample_count - h.beginning_silence;
    if h.sample_rate == 0 || n == 0 { (0, 0) } else { ((n * 1000 + h.sample_rate / 2) / (h.sample_rate as int), (len * 8 * h.sample_rate) / (n * 1000) % 0x1_0000_0000) }
}
''',
Fn(P8, 'read', emit_name='read_properties', sig=[('MpcParseError', 'MErr'), ('fn read(', 'fn read_properties(')],
   spec='''requires stream_header.sample_count < 0x8000_0000_0000_0000, stream_header.sample_rate == 0 || stream_header.sample_rate >= 1000,
    ensures r is Err <==> stream_header.beginning_silence > stream_header.sample_count,
      r matches Ok(p) ==> p.stream_header == stream_header && p.replay_gain == replay_gain && p.encoder_info == encoder_info && p.duration.ms == timed(stream_header, stream_length as int).0 && p.average_bitrate == timed(stream_header, stream_length as int).1,''',
   subs=[('Duration::ZERO', 'duration_zero()'), MSG, (r're:(\w+)\.div_round\(([^;]*)\);', r'div_round(\1, \2);'), ('Duration::from_millis', 'from_millis')],
   ins=[('before', 'let length =', 'proof { assert(total_millis == total_samples * 1000); }'),
     ('before', 'properties.duration =', '''proof { let r = sample_rate as int; let t = total_samples as int; assert((t * 1000 + r / 2) / r < 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires 1000 <= r <= 0xffff_ffff, 0 <= t < 0x8000_0000_0000_0000; assert((stream_length as u128 * 8) * (sample_rate as u128) <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by (nonlinear_arith) requires stream_length <= 0xffff_ffff_ffff_ffff, sample_rate <= 0xffff_ffff; let qi = ((stream_length * 8) * sample_rate) / (total_millis as int); assert(0 <= qi <= (stream_length * 8) * sample_rate) by (nonlinear_arith) requires qi == ((stream_length * 8) * sample_rate) / (total_millis as int), total_millis > 0, stream_length >= 0, sample_rate >= 0; let q = qi as u128; assert(q as u32 == q % 0x1_0000_0000) by (bit_vector); }''')]),
'''
/// what the packets seen so far said
pub struct Acc { pub sh: Option<StreamHeader>, pub rg: Option<ReplayGain>, pub ei: Option<EncoderInfo>, pub len: int, pub end: bool }
pub open spec fn lower(a: int, b: int) -> int { if a < b { a } else { b } }
/// the packets from p on; None if one of them is broken
pub open spec fn walk(d: Seq<u8>, p: int, a: Acc) -> Option<Acc> decreases d.len() - p {
    match packet(d, p) {
        None => Some(a),
        Some(k) => {
            let e = lower(k.content + k.size, d.len() as int);
            let c = d.subrange(k.content, e);
            let b = Acc { len: a.len + k.size, ..a };
            if e <= p { None }
            else if k.key == seq![0x53u8, 0x48] { match header(c) { None => None, Some(h) => walk(d, e, Acc { sh: Some(h), ..b }) } }
            else if k.key == seq![0x52u8, 0x47] { match gain(c) { None => None, Some(h) => walk(d, e, Acc { rg: Some(h), ..b }) } }
            else if k.key == seq![0x45u8, 0x49] { match encoder(c) { None => None, Some(h) => walk(d, e, Acc { ei: Some(h), ..b }) } }
            else if k.key == seq![0x53u8, 0x45] { Some(Acc { end: true, ..b }) }
            else { walk(d, e, b) }
        },
    }
}
pub open spec fn start() -> Acc { Acc { sh: None, rg: None, ei: None, len: 0, end: false } }
/// the properties of an SV8 stream
pub open spec fn sv8(d: Seq<u8>, p: int, strict: bool) -> Option<MpcSv8Properties> {
    match walk(d, p, start()) { None => None, Some(a) => {
        let h = match a.sh { Some(h) => h, None => no_header() };
        if strict && (a.sh is None || a.rg is None || a.len == 0 || !a.end) { None }
        else if h.beginning_silence > h.sample_count { None }
        else { let t = timed(h, a.len); Some(MpcSv8Properties { duration: Duration { ms: t.0 as u64 }, average_bitrate: t.1 as u32, stream_header: h, replay_gain: match a.rg { Some(g) => g, None => no_gain() }, encoder_info: a.ei }) }
    } }
}
pub open spec fn sane(h: StreamHeader) -> bool { h.sample_count < 0x8000_0000_0000_0000 && (h.sample_rate == 0 || h.sample_rate >= 1000) }
''',
*[Gen(lambda Src, n=n, f=f, v=v: key(Src, n, f, v)) for n, f, v in (('STREAM_HEADER_KEY', 'is_sh', '0x53u8, 0x48'), ('REPLAYGAIN_KEY', 'is_rg', '0x52u8, 0x47'), ('ENCODER_INFO_KEY', 'is_ei', '0x45u8, 0x49'), ('STREAM_END_KEY', 'is_se', '0x53u8, 0x45'))],
Fn(R8, 'read_from', sig=[('data: &mut R', 'data: R'), ('R: Read', 'R: In'), ('MpcParseError', 'MErr')], head='#[verifier::rlimit(60)]\n',
   spec='''requires good(data.g()), data.g().lim == data.g().data.len(),
    ensures !data.g().faulty ==> r is Ok == (sv8(data.g().data, data.g().at, parse_mode is Strict) is Some), !data.g().faulty && r is Ok ==> Some(r->Ok_0) == sv8(data.g().data, data.g().at, parse_mode is Strict),''',
   subs=[('while let Ok((packet_id, packet_length)) = packet_reader.next() {', 'loop { let step = packet_reader.next(); if step.is_err() { break; } let (packet_id, packet_length) = step.unwrap();'),
     (r're:match packet_id \{\s*STREAM_HEADER_KEY => (.*?),\s*REPLAYGAIN_KEY => (.*?),\s*ENCODER_INFO_KEY => (.*?),\s*STREAM_END_KEY => (\{.*?\}),\s*_ => \{\},?\s*\}',
       r'if is_sh(packet_id) { \1; } else if is_rg(packet_id) { \2; } else if is_ei(packet_id) { \3; } else if is_se(packet_id) \4'),
     MSG, ('StreamHeader::default()', 'default_header()'), ('ReplayGain::default()', 'default_gain()'), ('super::properties::read(', 'read_properties('),
     ('let mut stream_length = 0;', 'let mut stream_length: u64 = 0;')],
   loops=['''invariant_except_break !faulty ==> walk(d, packet_reader.st().lim, Acc { sh: stream_header, rg: replay_gain, ei: encoder_info, len: stream_length as int, end: found_stream_end }) == walk(d, p0, start()), !found_stream_end, stream_length <= packet_reader.inner().at + packet_reader.cap(),
      invariant d == data.g().data, p0 == data.g().at, faulty == data.g().faulty, good(packet_reader.inner()), packet_reader.inner().data == d, packet_reader.inner().lim == d.len(), packet_reader.inner().faulty == faulty, packet_reader.cap() >= 0,
        d.take(d.len() as int) == d, stream_header matches Some(h) ==> sane(h),
      ensures !faulty ==> walk(d, p0, start()) == Some(Acc { sh: stream_header, rg: replay_gain, ei: encoder_info, len: stream_length as int, end: found_stream_end }),
      decreases d.len() - packet_reader.st().lim,'''],
   ins=[('start', '', 'hide(packet); hide(header); hide(gain); hide(encoder); let ghost d = data.g().data; let ghost p0 = data.g().at; let ghost faulty = data.g().faulty; proof { assert(d.take(d.len() as int) =~= d); }'),
     ('before', 'if is_sh(packet_id)', 'let ghost k = packet_reader.inner().at; proof { assert(rest(packet_reader.st()) == d.subrange(k, lower(k + packet_length, d.len() as int))); }')]),
Item(P7, 'enum', 'Profile', prefix='#[derive(Clone, Copy)]\n'), Item(P7, 'enum', 'Link', prefix='#[derive(Clone, Copy)]\n'), Item(P7, 'struct', 'MpcSv7Properties'), '''
pub open spec fn profile(n: int) -> Profile {
    if n == 0 { Profile::None } else if n == 1 { Profile::Unstable } else if n < 5 { Profile::Unused } else if n == 5 { Profile::BelowTelephone0 } else if n == 6 { Profile::BelowTelephone1 }
    else if n == 7 { Profile::Telephone } else if n == 8 { Profile::Thumb } else if n == 9 { Profile::Radio } else if n == 10 { Profile::Standard } else if n == 11 { Profile::Xtreme }
    else if n == 12 { Profile::Insane } else if n == 13 { Profile::BrainDead } else if n == 14 { Profile::AboveBrainDead9 } else { Profile::AboveBrainDead10 }
}
pub open spec fn link(n: int) -> Link { if n == 0 { Link::VeryLowStartOrEnd } else if n == 1 { Link::LoudEnd } else if n == 2 { Link::LoudStart } else { Link::LoudStartAndEnd } }
''',
'impl Profile {', Fn(P7, 'from_u8', impl='impl Profile', spec='ensures value <= 15 ==> r == Some(profile(value as int)), value > 15 ==> r is None,'),
'}\nimpl Link {', Fn(P7, 'from_u8', impl='impl Link', spec='ensures value <= 3 ==> r == Some(link(value as int)), value > 3 ==> r is None,'), '''}
pub open spec fn none7() -> MpcSv7Properties {
    MpcSv7Properties { duration: zero(), average_bitrate: 0, channels: 0, frame_count: 0, intensity_stereo: false, mid_side_stereo: false, max_band: 0, profile: Profile::None, link: Link::VeryLowStartOrEnd, sample_freq: 0, max_level: 0,
        title_gain: 0, title_peak: 0, album_gain: 0, album_peak: 0, true_gapless: false, last_frame_length: 0, fast_seeking_safe: false, encoder_version: 0 }
}
/// the float arithmetic of gains, peaks and durations
pub uninterp spec fn old_gain(g: u16) -> i16;
pub uninterp spec fn old_peak(g: u16) -> u16;
pub uninterp spec fn frames_duration(frames: u32, rate: u32) -> Duration;
#[verifier::external_body]
fn replay_gain(g: u16) -> (r: i16) ensures r == old_gain(g) { unimplemented!() }
#[verifier::external_body]
fn replay_peak(g: u16) -> (r: u16) ensures r == old_peak(g) { unimplemented!() }
#[verifier::external_body]
fn duration_of(frames: u32, rate: u32) -> (r: Duration) ensures r == frames_duration(frames, rate) { unimplemented!() }
pub open spec fn w16(b: Seq<u8>, i: int) -> u16 { le16(b.subrange(i, i + 2)) }
pub open spec fn w32(b: Seq<u8>, i: int) -> u32 { le32(b.subrange(i, i + 4)) }
/// the fields of an SV7 header
pub open spec fn fields7(b: Seq<u8>) -> MpcSv7Properties {
    let gapless = b[20] >= 128;
    MpcSv7Properties { channels: 2, frame_count: w32(b, 1), intensity_stereo: b[8] >= 128, mid_side_stereo: (b[8] / 64) % 2 == 1, max_band: b[8] % 64, profile: profile((b[7] / 16) as int), link: link(((b[7] / 4) % 4) as int),
        sample_freq: FREQUENCY_TABLE@[(b[7] % 4) as int], max_level: w16(b, 5), title_peak: old_peak(w16(b, 9)), title_gain: old_gain(w16(b, 11)), album_peak: old_peak(w16(b, 13)), album_gain: old_gain(w16(b, 15)),
        true_gapless: gapless, last_frame_length: if gapless { ((b[20] % 128) * 16 + b[19] / 16) as u16 } else { 0 }, fast_seeking_safe: (b[19] / 8) % 2 == 1, encoder_version: b[21], ..none7() }
}
pub open spec fn sv7(b: Seq<u8>, len: int) -> Option<MpcSv7Properties> {
    let f = fields7(b);
    if b.len() < 22 || b[0] % 16 != 7 || f.last_frame_length > 1152 { None }
    else if f.frame_count == 0 { Some(f) }
    else {
        let q = MpcSv7Properties { duration: frames_duration(f.frame_count, f.sample_freq), ..f };
        let n = f.frame_count * 1152 - if f.true_gapless { 1152 - f.last_frame_length as int } else { 481 };
        if n == 0 { Some(q) } else { Some(MpcSv7Properties { average_bitrate: ((len * 8 * f.sample_freq) / (n * 1000) % 0x1_0000_0000) as u32, ..q }) }
    }
}
proof fn bytes32(s: Seq<u8>) requires s.len() == 4,
    ensures (((le32(s) & 0xFF00_0000) >> 24u32) as u8) == s[3], (((le32(s) & 0xFF_0000) >> 16u32) as u8) == s[2], ((le32(s) & 0xFFFF) as u16) == le16(s.take(2)),
      (le32(s) >> 31u32 == 1) == (s[3] >= 128), ((le32(s) >> 20u32) & 0x7FF) as u16 == (s[3] % 128) * 16 + s[2] / 16, ((le32(s) >> 19u32) & 1 == 1) == ((s[2] / 8) % 2 == 1), ((le32(s) >> 20u32) & 0x7FF) < 2048,
{
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    let x = (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(x == le32(s));
    assert((((x & 0xFF00_0000) >> 24u32) as u8) == d) by (bit_vector) requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert((((x & 0xFF_0000) >> 16u32) as u8) == c) by (bit_vector) requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(((x & 0xFFFF) as u16) == (a as u16) | ((b as u16) << 8u16)) by (bit_vector) requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert((x >> 31u32 == 1) == (d >= 128)) by (bit_vector) requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert((x >> 20u32) & 0x7FF == ((d as u32) % 128) * 16 + (c as u32) / 16) by (bit_vector) requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(((x >> 19u32) & 1 == 1) == ((c / 8) % 2 == 1)) by (bit_vector) requires x == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(((x >> 20u32) & 0x7FF) < 2048) by (bit_vector);
    assert(s.take(2)[0] == a && s.take(2)[1] == b);
}
''',
'impl MpcSv7Properties {\n    #[verifier::external_body]\n    fn default() -> (r: Self) ensures r == none7() { unimplemented!() }\n',
Fn(P7, 'read', impl='impl MpcSv7Properties', sig=[('R: Read', 'R: In'), ('MpcParseError', 'MErr')], head='#[verifier::rlimit(60)]\n',
   spec='''requires good(old(reader).g()), stream_length < 0x1000_0000_0000,
    ensures r matches Ok(p) ==> sv7(rest(old(reader).g()), stream_length as int) == Some(p), r is Err ==> old(reader).g().faulty || sv7(rest(old(reader).g()), stream_length as int) is None,''',
   subs=[MSG, ('TooMuchDataError.into()', 'MErr {}'), (r're:let set_replay_gain = \|gain: u16\| -> i16 \{.*?gain\s*\};', ''), (r're:let set_replay_peak = \|peak: u16\| -> u16 \{.*?as u16\s*\};', ''),
     ('set_replay_gain(', 'replay_gain(', 2), ('set_replay_peak(', 'replay_peak(', 2), (r're:let time_per_frame = .*?from_millis\(length as u64\);', 'properties.duration = duration_of(properties.frame_count, properties.sample_freq);')],
   ins=[('start', '', 'hide(le32); hide(le16); let ghost b = rest(reader.g()); let ghost g0 = reader.g();'),
     ('after', 'let version = reader.read_u8()?;', 'proof { assert(version & 0x0F == version % 16) by (bit_vector); assert(b[0] == version); }'),
     ('after', 'properties.frame_count = reader.read_u32::<LittleEndian>()?;', 'proof { assert(b.subrange(1, 5) =~= g0.data.subrange(g0.at + 1, g0.at + 5)); }'),
     ('before', 'let byte1 =', 'proof { let s = b.subrange(5, 9); assert(s =~= g0.data.subrange(g0.at + 5, g0.at + 9)); bytes32(s); assert(s[3] == b[8] && s[2] == b[7]); assert(s.take(2) =~= b.subrange(5, 7)); }'),
     ('before', 'properties.intensity_stereo =', 'proof { assert(byte1 == b[8]); assert(((byte1 & 0x80) >> 7u8 == 1) == (byte1 >= 128)) by (bit_vector); assert(((byte1 & 0x40) >> 6u8 == 1) == ((byte1 / 64) % 2 == 1)) by (bit_vector); assert(byte1 & 0x3F == byte1 % 64) by (bit_vector); }'),
     ('before', 'properties.profile =', 'proof { assert(byte2 == b[7]); assert((byte2 & 0xF0) >> 4u8 == byte2 / 16) by (bit_vector); assert((byte2 & 0x0C) >> 2u8 == (byte2 / 4) % 4) by (bit_vector); assert(byte2 & 0x03 == byte2 % 4) by (bit_vector); }'),
     ('after', 'let album_gain = reader.read_u16::<LittleEndian>()?;', 'proof { assert(b.subrange(9, 11) =~= g0.data.subrange(g0.at + 9, g0.at + 11)); assert(b.subrange(11, 13) =~= g0.data.subrange(g0.at + 11, g0.at + 13)); assert(b.subrange(13, 15) =~= g0.data.subrange(g0.at + 13, g0.at + 15)); assert(b.subrange(15, 17) =~= g0.data.subrange(g0.at + 15, g0.at + 17)); }'),
     ('before', 'properties.true_gapless =', 'proof { let s = b.subrange(17, 21); assert(s =~= g0.data.subrange(g0.at + 17, g0.at + 21)); bytes32(s); assert(s[3] == b[20] && s[2] == b[19]); }'),
     ('before', 'if properties.last_frame_length > MPC_FRAME_LENGTH as u16', 'proof { assert(properties == fields7(b)); assert(properties.sample_freq >= 32000); }'),
     ('before', 'properties.average_bitrate =', '''proof { let n = total_samples as int; let f = properties.sample_freq as int; assert(f <= 48000);
        let qi = (stream_length * 8 * f) / (n * 1000); assert(0 <= qi <= stream_length * 8 * f) by (nonlinear_arith) requires qi == (stream_length * 8 * f) / (n * 1000), n > 0, stream_length * 8 * f >= 0;
        assert(stream_length * 8 * f <= 0x1000_0000_0000 * 8 * 48000) by (nonlinear_arith) requires stream_length < 0x1000_0000_0000, 0 <= f <= 48000;
        let q = qi as u64; assert(q as u32 == q % 0x1_0000_0000) by (bit_vector); }''')]),
'}\n',
Item(P6, 'struct', 'MpcSv4to6Properties'), '''
pub open spec fn none6() -> MpcSv4to6Properties { MpcSv4to6Properties { duration: zero(), channels: 0, sample_rate: 0, average_bitrate: 0, mid_side_stereo: false, stream_version: 0, max_band: 0, frame_count: 0 } }
pub uninterp spec fn estimated(len: u64, frames: u64) -> u32;
#[verifier::external_body]
fn estimate(len: u64, rate: u32, frames: u64) -> (r: u32) ensures r == estimated(len, frames) { unimplemented!() }
#[verifier::external_body]
fn div_round64(a: u64, b: u64) -> (r: u64) requires b > 0, a + b / 2 <= 0xffff_ffff_ffff_ffff, ensures r == (a + b / 2) / (b as int) { (a + (b >> 1)) / b }
pub open spec fn sv4to6(b: Seq<u8>, strict: bool, len: u64) -> Option<MpcSv4to6Properties> {
    let w = w32(b, 0); let f = w32(b, 4);
    let version = (w / 2048) % 1024;
    if b.len() < 32 || version < 4 || version > 6 || (strict && (w / 0x80_0000 != 0 || (w / 0x40_0000) % 2 == 1 || w % 64 != 1)) { None }
    else {
        let n: int = if version >= 5 { f as int } else { (f / 65536) as int };
        let frames = if version < 6 && n > 0 { n - 1 } else { n };
        let p = MpcSv4to6Properties { duration: zero(), channels: 2, sample_rate: 44100, average_bitrate: (w / 0x80_0000) as u32, mid_side_stereo: (w / 0x20_0000) % 2 == 1, stream_version: version as u16, max_band: ((w / 64) % 32) as u8, frame_count: frames as u32 };
        if frames == 0 { Some(p) } else {
            let pcm = frames * 1152 - 576;
            Some(MpcSv4to6Properties { duration: Duration { ms: (((frames * 1152 - 481) * 1000 + 22050) / 44100) as u64 }, average_bitrate: estimated(len, pcm as u64), ..p }) }
    }
}
fn sat_sub64(a: u64, b: u64) -> (r: u64) ensures r == if a > b { a - b } else { 0 } { if a > b { a - b } else { 0 } }
''',
'impl MpcSv4to6Properties {\n    #[verifier::external_body]\n    fn default() -> (r: Self) ensures r == none6() { unimplemented!() }\n',
Fn(P6, 'read', impl='impl MpcSv4to6Properties', sig=[('R: Read', 'R: In'), ('MpcParseError', 'MErr')], head='#[verifier::rlimit(60)]\n',
   spec='''requires good(old(reader).g()),
    ensures r matches Ok(p) ==> sv4to6(rest(old(reader).g()), parse_mode is Strict, stream_length) == Some(p), r is Err ==> old(reader).g().faulty || sv4to6(rest(old(reader).g()), parse_mode is Strict, stream_length) is None,''',
   subs=[MSG, ('reader.read_u32_into::<LittleEndian>(&mut header_data)?', 'reader.read_words(&mut header_data)?'), ('!(4..=6).contains(&properties.stream_version)', '!(4 <= properties.stream_version && properties.stream_version <= 6)'),
     (r're:properties\.frame_count\.saturating_sub\(([^;]*)\);', r'sat_sub32(properties.frame_count, \1);'), (r're:let samples = \(([^;]*)\)\s*\.saturating_sub\(([^;]*)\);', r'let samples = sat_sub64(\1, \2);'),
     (r're:\((samples [^;()]*)\)\.div_round\(([^;]*)\);', r'div_round64(\1, \2);'), ('Duration::from_millis', 'from_millis'),
     ('(MPC_FRAME_LENGTH * u64::from(properties.frame_count)).saturating_sub(576)', 'sat_sub64(MPC_FRAME_LENGTH * u64::from(properties.frame_count), 576)'),
     (r're:\(\(stream_length as f64.*?MPC_FRAME_LENGTH as f64\)\) as u32', 'estimate(stream_length, properties.sample_rate, pcm_frames)')],
   ins=[('start', '', 'hide(le32); let ghost b = rest(reader.g()); let ghost g0 = reader.g();'),
     ('after', 'reader.read_words(&mut header_data)?;', '''proof { assert(b.subrange(0, 4) =~= g0.data.subrange(g0.at, g0.at + 4)); assert(b.subrange(4, 8) =~= g0.data.subrange(g0.at + 4, g0.at + 8)); assert(header_data@[0] == le32(g0.data.subrange(g0.at + 4 * 0, g0.at + 4 * 0 + 4))); assert(header_data@[1] == le32(g0.data.subrange(g0.at + 4 * 1, g0.at + 4 * 1 + 4)));
         let w = header_data@[0]; let f = header_data@[1]; assert(w == w32(b, 0) && f == w32(b, 4));
         assert((w >> 23u32) & 0x1FF == w / 0x80_0000) by (bit_vector); assert(((w >> 22u32) & 1 == 1) == ((w / 0x40_0000) % 2 == 1)) by (bit_vector); assert(((w >> 21u32) & 1 == 1) == ((w / 0x20_0000) % 2 == 1)) by (bit_vector);
         assert((w >> 11u32) & 0x3FF == (w / 2048) % 1024) by (bit_vector); assert((w >> 6u32) & 0x1F == (w / 64) % 32) by (bit_vector); assert(w & 0x3F == w % 64) by (bit_vector); assert(f >> 16u32 == f / 65536) by (bit_vector); }''')]),
'}\n',
'''
} // verus!
''']
