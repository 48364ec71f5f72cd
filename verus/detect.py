"""Guessing the file type of a buffer and of a reader."""
import re, rd
T = 'lofty/src/file/file_type.rs'
M = 'lofty/src/mpeg/header.rs'
P = 'lofty/src/probe.rs'
ASSUMED = rd.ASSUMED + ['u32::unsynch: 7 bits of each byte (proved for every u32 by the contracts of P01)',
    'std::io::copy from take(n): fills as much of the buffer as the reader has; Read::bytes and Read::take: the bytes of the reader, in order, and no more than the limit',
    'stream positions below 2^62']
DROPS = ['custom resolvers: the global option is taken as off', 'probe.rs: the reader is the argument itself instead of the field `inner`']


def lit(s):
    return '[' + ', '.join(f'{ord(c)}u8' for c in s) + ']'


# byte-string comparisons become calls of contracted functions; bounds stay obligations
def eqs(var):
    return [
        (r're:%s\.starts_with\(b"([^"]*)"\)' % var, lambda m: f'starts({var}, &{lit(m.group(1))})', '*'),
        (r're:&%s\[(\d*)\.\.(\d+)\] == b"([^"]*)"' % var, lambda m: f'part_is({var}, {m.group(1) or 0}, {m.group(2)}, &{lit(m.group(3))})', '*'),
        (r're:\bid == b"([^"]*)"', lambda m: f'is(id, &{lit(m.group(1))})', '*'),
        (r're:= &%s\[(\d+)\.\.(\d+)\]' % var, lambda m: f'= part({var}, {m.group(1)}, {m.group(2)})', '*'),
    ]


def arms_to_ifs(m):
    """A match with guards over one byte, arm by arm, as the if-chain it means"""
    body, k, out = m.group(1), 0, ''
    while body[k:].strip():
        a = re.compile(r'\s*(\w+)\s*(?:if\s+(.*?))?\s*=>\s*', re.S).match(body, k)
        k, d = a.end(), 0
        braced = body[k] == '{'
        while k < len(body):
            c = body[k]
            if c == ',' and d == 0:
                break
            d += (c in '([{') - (c in ')]}')
            k += 1
            if braced and d == 0 and c == '}':
                break
        e = body[a.end():k].strip()
        k += len(re.match(r'\s*,?', body[k:]).group(0))
        cs = ([] if a.group(1) == '_' else [f'head == {a.group(1)}']) + ([f'({a.group(2)})'] if a.group(2) else [])
        out += (f'if {" && ".join(cs)} {{ {e} }} else ' if cs else f'{{ {e} }}')
    return 'let head = buf[0]; ' + out + ' }'


def pattern(m):
    s = m.group(1)
    if s.startswith('b"'):
        v = int.from_bytes(s[2:-1].encode(), 'big')
        return f'{v}u32'
    cs = re.findall(r"b'(.)'", s)
    hi = int.from_bytes(''.join(cs).encode(), 'big') << 8 * (4 - len(cs))
    return f'{hi}u32..={hi + (1 << 8 * (4 - len(cs))) - 1}u32'


PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct DErr {}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum FileType { Aac, Aiff, Ape, Flac, Mpeg, Mp4, Mpc, Opus, Vorbis, Speex, Wav, WavPack }
pub enum FileTypeGuessResult { Determined(FileType), MaybePrecededById3(u32), MaybePrecededByJunk }
''', rd.prelude('DErr'), '''
type IoResult<T> = core::result::Result<T, DErr>;
pub open spec fn at_is(b: Seq<u8>, p: int, s: Seq<u8>) -> bool { p + s.len() <= b.len() && b.subrange(p, p + s.len()) == s }
pub open spec fn sync(a: u8, b: u8) -> bool { a == 0xff && b >= 0xe0 }
/// ADTS: twelve sync bits and layer 0. Everything else with eleven sync bits is MPEG.
pub open spec fn adts(b: u8) -> bool { b == 0xf0 || b == 0xf1 || b == 0xf8 || b == 0xf9 }
pub open spec fn sync_kind(b: u8) -> FileType { if adts(b) { FileType::Aac } else { FileType::Mpeg } }
/// The signatures, each at its offset
pub open spec fn kind(b: Seq<u8>) -> Option<FileType> {
    if b.len() >= 2 && sync(b[0], b[1]) { Some(sync_kind(b[1])) }
    else if at_is(b, 0, seq![0x4du8, 0x41, 0x43]) { Some(FileType::Ape) }
    else if at_is(b, 0, seq![0x66u8, 0x4c, 0x61, 0x43]) { Some(FileType::Flac) }
    else if at_is(b, 0, seq![0x77u8, 0x76, 0x70, 0x6b]) { Some(FileType::WavPack) }
    else if b.len() >= 12 && at_is(b, 0, seq![0x46u8, 0x4f, 0x52, 0x4d]) {
        if at_is(b, 8, seq![0x41u8, 0x49, 0x46, 0x46]) || at_is(b, 8, seq![0x41u8, 0x49, 0x46, 0x43]) { Some(FileType::Aiff) } else { None } }
    else if b.len() >= 12 && at_is(b, 0, seq![0x52u8, 0x49, 0x46, 0x46]) {
        if at_is(b, 8, seq![0x57u8, 0x41, 0x56, 0x45]) { Some(FileType::Wav) } else { None } }
    else if b.len() >= 36 && at_is(b, 0, seq![0x4fu8, 0x67, 0x67, 0x53]) {
        if at_is(b, 29, seq![0x76u8, 0x6f, 0x72, 0x62, 0x69, 0x73]) { Some(FileType::Vorbis) }
        else if at_is(b, 28, seq![0x4fu8, 0x70, 0x75, 0x73, 0x48, 0x65, 0x61, 0x64]) { Some(FileType::Opus) }
        else if at_is(b, 28, seq![0x53u8, 0x70, 0x65, 0x65, 0x78, 0x20, 0x20, 0x20]) { Some(FileType::Speex) } else { None } }
    else if at_is(b, 4, seq![0x66u8, 0x74, 0x79, 0x70]) { Some(FileType::Mp4) }
    else if at_is(b, 0, seq![0x4du8, 0x50, 0x43, 0x4b]) || at_is(b, 0, seq![0x4du8, 0x50, 0x2b]) { Some(FileType::Mpc) }
    else { None }
}
pub open spec fn id3(b: Seq<u8>) -> bool { at_is(b, 0, seq![0x49u8, 0x44, 0x33]) && b.len() >= 10 }
pub open spec fn synchsafe(b: Seq<u8>) -> nat { ((b[6] % 128) as nat) * 2097152 + ((b[7] % 128) as nat) * 16384 + ((b[8] % 128) as nat) * 128 + (b[9] % 128) as nat }
proof fn same_seq(a: Seq<u8>, b: Seq<u8>) requires a =~= b ensures a == b {}

fn starts<const N: usize>(b: &[u8], s: &[u8; N]) -> (r: bool) ensures r == at_is(b@, 0, s@)
{
    if b.len() < N { return false; }
    let mut k = 0;
    while k < N invariant k <= N <= b@.len(), s@.len() == N, forall|i: int| 0 <= i < k ==> b@[i] == s@[i], decreases N - k
    { if b[k] != s[k] { assert(b@.subrange(0, N as int)[k as int] == b@[k as int]); return false; } k += 1; }
    assert(b@.subrange(0, N as int) =~= s@);
    true
}
fn is<const N: usize>(b: &[u8], s: &[u8; N]) -> (r: bool) ensures r == (b@ == s@)
{
    if b.len() != N { return false; }
    let r = starts(b, s);
    proof { assert(b@.subrange(0, N as int) =~= b@); }
    r
}
fn part(b: &[u8], from: usize, to: usize) -> (r: &[u8]) requires from <= to <= b@.len(), ensures r@ == b@.subrange(from as int, to as int)
{ vstd::slice::slice_subrange(b, from, to) }
fn part_is<const N: usize>(b: &[u8], from: usize, to: usize, s: &[u8; N]) -> (r: bool) requires from <= to <= b@.len(), ensures r == (b@.subrange(from as int, to as int) == s@)
{ is(part(b, from, to), s) }
fn be_at(b: &[u8], from: usize, to: usize) -> (r: u32) requires to == from + 4, to <= b@.len(),
    ensures r == be32(b@.subrange(from as int, to as int))
{ (b[from + 3] as u32) | ((b[from + 2] as u32) << 8u32) | ((b[from + 1] as u32) << 16u32) | ((b[from] as u32) << 24u32) }
#[verifier::external_body]
fn unsynch(n: u32) -> (r: u32)
    ensures r == (n & 0x7f) + ((n >> 8u32) & 0x7f) * 128 + ((n >> 16u32) & 0x7f) * 16384 + ((n >> 24u32) & 0x7f) * 2097152
{ unimplemented!() }
proof fn size_bytes(b: Seq<u8>) requires b.len() == 4
    ensures (be32(b) & 0x7f) == b[3] % 128, ((be32(b) >> 8u32) & 0x7f) == b[2] % 128, ((be32(b) >> 16u32) & 0x7f) == b[1] % 128, ((be32(b) >> 24u32) & 0x7f) == b[0] % 128
{
    let (x, y, z, w) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    let n = be32(b);
    assert(n == (w | (z << 8u32) | (y << 16u32) | (x << 24u32)));
    assert((n & 0x7f) == w % 128 && ((n >> 8u32) & 0x7f) == z % 128 && ((n >> 16u32) & 0x7f) == y % 128 && ((n >> 24u32) & 0x7f) == x % 128) by (bit_vector)
        requires n == (w | (z << 8u32) | (y << 16u32) | (x << 24u32)), x < 256, y < 256, z < 256, w < 256;
}
''',
Fn(M, 'verify_frame_sync', spec='ensures r == sync(frame_sync@[0], frame_sync@[1]),',
   ins=[('start', '', 'proof { let s = frame_sync@[1]; assert((s >> 5u8 == 7) == (s >= 0xe0)) by (bit_vector); }')]),
Fn(T, 'quick_type_guess', impl='impl FileType', sig=[('Option<Self>', 'Option<FileType>')],
   spec='requires buf@.len() > 0, ensures r == kind(buf@),',
   subs=[('use crate::mpeg::header::verify_frame_sync;', ''), ('re:\\bSelf::', 'FileType::', '*')] + eqs('buf') + [(r're:match buf\[0\] \{(.*)\}\s*\}\s*\Z', arms_to_ifs)],
   ins=[('start', '', '''proof {
        let b = buf@;
        assert forall|p: int, n: int| 0 <= p && 0 <= n && p + n <= b.len() implies #[trigger] b.subrange(p, p + n).len() == n by {}
        if b.len() >= 2 { let x = b[1]; assert(((x & 16) > 0 && (x & 6) == 0) && x >= 0xe0 <==> (x == 0xf0 || x == 0xf1 || x == 0xf8 || x == 0xf9)) by (bit_vector); }
        let heads = seq![seq![0x4du8, 0x41, 0x43], seq![0x66u8, 0x4c, 0x61, 0x43], seq![0x77u8, 0x76, 0x70, 0x6b], seq![0x46u8, 0x4f, 0x52, 0x4d], seq![0x52u8, 0x49, 0x46, 0x46], seq![0x4fu8, 0x67, 0x67, 0x53], seq![0x4du8, 0x50, 0x43, 0x4b], seq![0x4du8, 0x50, 0x2b]];
        assert forall|i: int| 0 <= i < heads.len() && at_is(b, 0, #[trigger] heads[i]) implies b[0] == heads[i][0] by { assert(b.subrange(0, heads[i].len() as int)[0] == b[0]); }
        assert(at_is(b, 0, heads[0]) ==> b[0] == 0x4d); assert(at_is(b, 0, heads[1]) ==> b[0] == 0x66); assert(at_is(b, 0, heads[2]) ==> b[0] == 0x77);
        assert(at_is(b, 0, heads[3]) ==> b[0] == 0x46); assert(at_is(b, 0, heads[4]) ==> b[0] == 0x52); assert(at_is(b, 0, heads[5]) ==> b[0] == 0x4f);
        assert(at_is(b, 0, heads[6]) ==> b[0] == 0x4d); assert(at_is(b, 0, heads[7]) ==> b[0] == 0x4d);
        assert(at_is(b, 0, heads[0]) ==> b.subrange(0, 3)[1] == b[1]); assert(at_is(b, 0, heads[6]) ==> b.subrange(0, 4)[1] == b[1]); assert(at_is(b, 0, heads[7]) ==> b.subrange(0, 3)[1] == b[1]);
    }''')]),
Fn(T, 'from_buffer_inner', impl='impl FileType',
   spec='''ensures r matches Some(g) ==> (match g { FileTypeGuessResult::Determined(t) => kind(buf@) == Some(t), FileTypeGuessResult::MaybePrecededById3(n) => kind(buf@) is None && id3(buf@) && n == synchsafe(buf@),
            FileTypeGuessResult::MaybePrecededByJunk => kind(buf@) is None && !id3(buf@) }),
        r is None <==> buf@.len() == 0,''',
   subs=[('use crate::id3::v2::util::synchsafe::SynchsafeInteger;', ''), ('re:\\bSelf::', '', '*'),
         (r're:if let Ok\(arr\) = buf\[(\d+)\.\.(\d+)\]\.try_into\(\) \{(.*?)u32::from_be_bytes\(arr\)\.unsynch\(\),?(.*?)\}', r'{ let arr = be_at(buf, \1, \2); proof { size_bytes(buf@.subrange(\1, \2)); }\3unsynch(arr)\4}')] + eqs('buf')),
Fn(T, 'from_buffer', impl='impl FileType', sig=[('Option<Self>', 'Option<FileType>')],
   spec='ensures r == (if buf@.len() == 0 { None } else { kind(buf@) }),', subs=[('re:\\bSelf::', '', '*')]),
'''
/// the first sync word that starts at `p` or later, within `end`
pub open spec fn first_sync(d: Seq<u8>, p: int, end: int) -> Option<int> decreases end - p
{ if p < 0 || p + 2 > end { None } else if sync(d[p], d[p + 1]) { Some(p) } else { first_sync(d, p + 1, end) } }
/// Read::bytes over the reader
pub struct Bytes { pub data: Ghost<Seq<u8>>, pub at: Ghost<int>, pub faulty: Ghost<bool> }
#[verifier::external_body]
fn pull<R: Rd>(r: &mut R) -> (x: Option<Result<u8, DErr>>)
    ensures same(final(r).g(), old(r).g()),
        x matches Some(Ok(v)) ==> avail(old(r).g(), 1) && v == old(r).g().data[old(r).g().at as int] && moved(final(r).g(), old(r).g(), 1),
        x matches Some(Err(_)) ==> old(r).g().faulty, x is None ==> old(r).g().at >= old(r).g().data.len() && final(r).g().at == old(r).g().at
{ unimplemented!() }
''',
Fn(M, 'search_for_frame_sync', sig=[('std::io::Result', 'IoResult'), ('R: Read', 'R: Rd')], head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
   spec='''requires old(input).g().at <= old(input).g().data.len(), old(input).g().data.len() < 0x4000_0000_0000_0000,
    ensures same(final(input).g(), old(input).g()),
        r matches Ok(x) ==> (match first_sync(old(input).g().data, old(input).g().at as int, old(input).g().data.len() as int) {
            Some(p) => x == Some((p - old(input).g().at) as u64) && final(input).g().at == p + 2, None => x is None }),
        r is Err ==> old(input).g().faulty,''',
   subs=[('let mut iterator = input.bytes();', ''), ('if let Some(byte) = iterator.next() {', 'let ghost mut done = false; if let Some(byte) = pull(input) {'),
         ('for (index, byte) in iterator.enumerate() {', 'let mut count: usize = 0; loop { let ghost here = input.g().at as int; let byte = match pull(input) { Some(byte) => byte, None => break }; let index = count; count = count + 1;')],
   loops=['''invariant_except_break same(input.g(), old(input).g()), old(input).g().at <= old(input).g().data.len() < 0x4000_0000_0000_0000,
            input.g().at <= old(input).g().data.len(),
            (old(input).g().at == old(input).g().data.len() && count == 0 && input.g().at == old(input).g().at) || (input.g().at == old(input).g().at + count + 1 && buffer@[0] == old(input).g().data[input.g().at - 1]
              && first_sync(old(input).g().data, old(input).g().at as int, old(input).g().data.len() as int) == first_sync(old(input).g().data, input.g().at - 1, old(input).g().data.len() as int)),
        ensures same(input.g(), old(input).g()), first_sync(old(input).g().data, old(input).g().at as int, old(input).g().data.len() as int) is None,
        decreases old(input).g().data.len() - input.g().at''']),
'''
pub struct ParseOptions { pub max_junk_bytes: usize }
pub struct Probe<R: Rd> { pub inner: R, pub options: Option<ParseOptions>, pub f_ty: Option<FileType> }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// search_for_frame_sync on the reader limited to `n` bytes: its contract with the data cut there
#[verifier::external_body]
fn search_limited<R: Rd>(r: &mut R, n: u64) -> (x: Result<Option<u64>, DErr>)
    ensures same(final(r).g(), old(r).g()),
        x matches Ok(o) ==> (match first_sync(old(r).g().data, old(r).g().at as int, min(old(r).g().data.len() as int, old(r).g().at + n)) {
            Some(p) => o == Some((p - old(r).g().at) as u64) && final(r).g().at == p + 2, None => o is None }),
        x is Err ==> old(r).g().faulty,
{ unimplemented!() }
#[verifier::external_body]
fn read_exact2<R: Rd>(r: &mut R, b: &mut [u8; 2]) -> (x: Result<(), DErr>)
    ensures same(final(r).g(), old(r).g()),
        x is Ok ==> avail(old(r).g(), 2) && moved(final(r).g(), old(r).g(), 2) && final(b)@ == next(old(r).g(), 2),
        x is Err ==> old(r).g().faulty || !avail(old(r).g(), 2)
{ unimplemented!() }
/// copy(take(N)) into the buffer
#[verifier::external_body]
fn fill_some<R: Rd, const N: usize>(r: &mut R, b: &mut [u8; N]) -> (x: Result<u64, DErr>)
    ensures same(final(r).g(), old(r).g()),
        x matches Ok(n) ==> ({ let left = if old(r).g().at <= old(r).g().data.len() { old(r).g().data.len() - old(r).g().at } else { 0 };
            n == min(N as int, left) && moved(final(r).g(), old(r).g(), n as int) && final(b)@.take(n as int) == next(old(r).g(), n as int) && final(b)@.skip(n as int) == old(b)@.skip(n as int) }),
        x is Err ==> old(r).g().faulty,
{ unimplemented!() }
fn word(b: &[u8; 4]) -> (r: u32) ensures r == be32(b@) { (b[3] as u32) | ((b[2] as u32) << 8u32) | ((b[1] as u32) << 16u32) | ((b[0] as u32) << 24u32) }
proof fn word_bytes(b: Seq<u8>) requires b.len() == 4
    ensures b == seq![0x66u8, 0x4c, 0x61, 0x43] <==> be32(b) == 0x664c6143, b == seq![0x4du8, 0x50, 0x43, 0x4b] <==> be32(b) == 0x4d50434b,
        b.take(3) == seq![0x4du8, 0x41, 0x43] <==> 0x4d414300 <= be32(b) <= 0x4d4143ff, b.take(3) == seq![0x4du8, 0x50, 0x2b] <==> 0x4d502b00 <= be32(b) <= 0x4d502bff
{
    let (x, y, z, w) = (b[0], b[1], b[2], b[3]);
    let n = be32(b);
    assert((n == 0x664c6143 <==> (x == 0x66 && y == 0x4c && z == 0x61 && w == 0x43)) && (n == 0x4d50434b <==> (x == 0x4d && y == 0x50 && z == 0x43 && w == 0x4b))
        && (0x4d414300 <= n && n <= 0x4d4143ff <==> (x == 0x4d && y == 0x41 && z == 0x43)) && (0x4d502b00 <= n && n <= 0x4d502bff <==> (x == 0x4d && y == 0x50 && z == 0x2b))) by (bit_vector)
        requires n == ((w as u32) | ((z as u32) << 8u32) | ((y as u32) << 16u32) | ((x as u32) << 24u32));
    let t = b.take(3);
    assert(t.len() == 3 && t[0] == b[0] && t[1] == b[1] && t[2] == b[2]);
    let (p, q, u, v) = (seq![0x66u8, 0x4c, 0x61, 0x43], seq![0x4du8, 0x50, 0x43, 0x4b], seq![0x4du8, 0x41, 0x43], seq![0x4du8, 0x50, 0x2b]);
    if x == 0x66 && y == 0x4c && z == 0x61 && w == 0x43 { assert(b =~= p); }
    if x == 0x4d && y == 0x50 && z == 0x43 && w == 0x4b { assert(b =~= q); }
    if x == 0x4d && y == 0x41 && z == 0x43 { assert(t =~= u); }
    if x == 0x4d && y == 0x50 && z == 0x2b { assert(t =~= v); }
    assert(p[0] == 0x66 && p[1] == 0x4c && p[2] == 0x61 && p[3] == 0x43); assert(q[0] == 0x4d && q[1] == 0x50 && q[2] == 0x43 && q[3] == 0x4b);
    assert(u[0] == 0x4d && u[1] == 0x41 && u[2] == 0x43); assert(v[0] == 0x4d && v[1] == 0x50 && v[2] == 0x2b);
}
/// what a search for a sync word, at most `junk` bytes from `p` on, makes of the stream
pub open spec fn searched(d: Seq<u8>, p: int, junk: int) -> Option<FileType> {
    match first_sync(d, p, min(d.len() as int, p + junk)) { Some(q) => Some(sync_kind(d[q + 1])), None => None }
}
/// the four bytes at p, zeroes past the end
pub open spec fn four(d: Seq<u8>, p: int) -> Seq<u8> { Seq::new(4, |i: int| if p + i < d.len() { d[p + i] } else { 0u8 }) }
pub open spec fn after_id3(d: Seq<u8>, p: int, junk: int) -> Option<FileType> {
    let w = four(d, p);
    if w.take(3) == seq![0x4du8, 0x41, 0x43] { Some(FileType::Ape) }
    else if w == seq![0x66u8, 0x4c, 0x61, 0x43] { Some(FileType::Flac) }
    else if w == seq![0x4du8, 0x50, 0x43, 0x4b] || w.take(3) == seq![0x4du8, 0x50, 0x2b] { Some(FileType::Mpc) }
    else { searched(d, p, junk) }
}
/// what the stream is, from position p on
pub open spec fn stream_kind(d: Seq<u8>, p: int, junk: int) -> Option<FileType> {
    let h = d.subrange(p, p + min(36, d.len() - p));
    if h.len() == 0 { None }
    else if kind(h) is Some { kind(h) }
    else if id3(h) { after_id3(d, p + 10 + synchsafe(h), junk) }
    else { searched(d, p, junk) }
}
proof fn sync_in(d: Seq<u8>, p: int, end: int) requires 0 <= p, end <= d.len()
    ensures first_sync(d, p, end) matches Some(q) ==> p <= q && q + 2 <= end && sync(d[q], d[q + 1]) decreases end - p
{ if p + 2 <= end && !sync(d[p], d[p + 1]) { sync_in(d, p + 1, end); } }
impl<R: Rd> Probe<R> {
''',
Fn(P, 'check_mpeg_or_aac', impl='impl<R: Read + Seek> Probe<R>', sig=[('std::io::Result', 'IoResult')],
   spec='''requires old(self).inner.g().data.len() < 0x4000_0000_0000_0000, old(self).inner.g().at < 0x4000_0000_0000_0000,
    ensures same(final(self).inner.g(), old(self).inner.g()), final(self).options == old(self).options, final(self).f_ty == old(self).f_ty,
        r matches Ok(x) ==> x == searched(old(self).inner.g().data, old(self).inner.g().at as int, max_junk_bytes as int),
        r is Err ==> old(self).inner.g().faulty,''',
   subs=[('re:let mut restricted_reader = self\\.inner\\.by_ref\\(\\)\\.take\\((.*?)\\);\\s*if search_for_frame_sync\\(&mut restricted_reader\\)\\?', r'if search_limited(&mut self.inner, \1)?'),
         ('let mut buf = [0; 2];', 'let mut buf = [0u8; 2];'), ('self.inner.read_exact(&mut buf)?', 'read_exact2(&mut self.inner, &mut buf)?')],
   ins=[('start', '', '''proof { let g = self.inner.g(); sync_in(g.data, g.at as int, min(g.data.len() as int, g.at + max_junk_bytes));
        match first_sync(g.data, g.at as int, min(g.data.len() as int, g.at + max_junk_bytes)) { Some(p) => { let x = g.data[p + 1];
            assert(((x & 16) > 0 && (x & 6) == 0) && x >= 0xe0 <==> (x == 0xf0 || x == 0xf1 || x == 0xf8 || x == 0xf9)) by (bit_vector); }, None => {} } }''')]),
Fn(P, 'guess_inner', impl='impl<R: Read + Seek> Probe<R>', sig=[('std::io::Result', 'IoResult')],
   spec='''requires old(self).inner.g().data.len() < 0x2000_0000_0000_0000, old(self).inner.g().at <= old(self).inner.g().data.len(),
    ensures same(final(self).inner.g(), old(self).inner.g()), final(self).options == old(self).options, final(self).f_ty == old(self).f_ty,
        r matches Ok(x) ==> x == stream_kind(old(self).inner.g().data, old(self).inner.g().at as int, max_junk_bytes as int) && final(self).inner.g().at == old(self).inner.g().at,
        r is Err ==> old(self).inner.g().faulty,''',
   subs=[('let mut buf = [0; 36];', 'let mut buf = [0u8; 36];'), ('let mut ident = [0; 4];', 'let mut ident = [0u8; 4];'),
         ('re:std::io::copy\\(\\s*&mut self\\.inner\\.by_ref\\(\\)\\.take\\((\\w+)\\.len\\(\\) as u64\\),\\s*&mut Cursor::new\\(&mut (\\w+)\\[\\.\\.\\]\\),\\s*\\)\\?', r'fill_some(&mut self.inner, &mut \2)?', 2),
         ('re:if unsafe \\{ global_options\\(\\)\\.use_custom_resolvers \\}.*?(?=let Some\\(file_type_guess\\))', ''),
         ('re:let Some\\(file_type_guess\\) = FileType::from_buffer_inner\\((.*?)\\) else \\{(.*?)\\};', r'let file_type_guess = match from_buffer_inner(\1) { Some(g) => g, None => {\2} };'),
         ('&buf[..buf_len]', 'part(&buf, 0, buf_len)'), ('re:i64::from\\((.*?)\\)\\)', r'(\1) as i64)'),
         ('let file_type_after_id3_block = match &ident {', 'let code = word(&ident); let file_type_after_id3_block = match code {'), (r"re:(b\"[^\"]{4}\"|\[b'[^\]]*\.\.\])", pattern, '*')],
   ins=[('before', 'let file_type_guess = ', 'proof { let g = old(self).inner.g(); assert(buf@.subrange(0, buf_len as int) =~= g.data.subrange(g.at as int, g.at + min(36, g.data.len() - g.at))); }'),
        ('before', 'let code = word(&ident);', 'proof { let g = old(self).inner.g(); let n = min(4, if position_after_id3_block <= g.data.len() { g.data.len() - position_after_id3_block } else { 0 }); assert(ident@.len() == 4); '
         'assert forall|i: int| 0 <= i < 4 implies ident@[i] == four(g.data, position_after_id3_block as int)[i] by { if i < n { assert(ident@.take(n)[i] == ident@[i]); } else { assert(ident@.skip(n)[i - n] == ident@[i]); assert(seq![0u8, 0u8, 0u8, 0u8].skip(n)[i - n] == 0); } } '
         'assert(ident@ =~= four(g.data, position_after_id3_block as int)); word_bytes(ident@); }')]),
'''
}
} // verus!
''']
