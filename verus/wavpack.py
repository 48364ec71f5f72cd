"""WavPack streams: block headers, metadata sub-blocks, the walk over the blocks."""
import rd
F = 'lofty/src/wavpack/properties.rs'
ASSUMED = rd.ASSUMED + ['slices as readers: Sl, whose reads take the bytes in front', 'a block of at most 1 MB can be allocated, or the reader counts as failing', 'the float arithmetic of durations and bitrates (executed)']
DROPS = ['errors carry nothing', 'duration and bitrates are what `timed` makes of the sample count and rate', 'the identifiers of the sub-blocks are compared by literals of their constants']
import re
NOMSG = ('re:WavPackParseError::message\\(\\s*"[^"]*",?\\s*\\)', 'WErr {}')
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct WErr {}
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
''', rd.prelude('WErr'), *[Item(F, 'const', n) for n in ('BYTES_PER_SAMPLE_MASK', 'BIT_DEPTH_SHL', 'BIT_DEPTH_SHIFT_MASK', 'FLAG_INITIAL_BLOCK', 'FLAG_FINAL_BLOCK', 'FLAG_MONO', 'FLAG_DSD', 'FLAG_HYBRID_COMPRESSION',
   'ID_FLAG_ODD_SIZE', 'ID_FLAG_LARGE_SIZE', 'ID_MULTICHANNEL', 'ID_NON_STANDARD_SAMPLE_RATE', 'ID_DSD', 'MIN_STREAM_VERSION', 'MAX_STREAM_VERSION', 'WV_BLOCK_MAX_SIZE', 'SAMPLE_RATES')], '''
#[derive(Clone, Copy)]
pub struct ChannelMask(pub u32);
impl ChannelMask {
    fn mono() -> (r: Self) ensures r.0 == 4 { ChannelMask(4) }
    fn stereo() -> (r: Self) ensures r.0 == 3 { ChannelMask(3) }
}
pub struct Timing {}
pub struct WavPackProperties { version: u16, sample_rate: u32, channels: u16, channel_mask: ChannelMask, bit_depth: u8, lossless: bool, timing: Ghost<Option<u32>> }
impl WavPackProperties {
    fn default() -> (r: Self) ensures r == none() { WavPackProperties { version: 0, sample_rate: 0, channels: 0, channel_mask: ChannelMask(0), bit_depth: 0, lossless: false, timing: Ghost(None) } }
}
pub open spec fn none() -> WavPackProperties { WavPackProperties { version: 0, sample_rate: 0, channels: 0, channel_mask: ChannelMask(0), bit_depth: 0, lossless: false, timing: Ghost(None) } }
''', Item(F, 'struct', 'WVHeader'), '''
/// a slice that is read from its front
pub struct Sl<'a> { pub rest: &'a [u8] }
impl<'a> Sl<'a> {
    fn len(&self) -> (r: usize) ensures r == self.rest@.len() { self.rest.len() }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, WErr>)
        ensures r matches Ok(b) ==> old(self).rest@.len() >= 1 && b == old(self).rest@[0] && final(self).rest@ == old(self).rest@.skip(1), r is Err ==> old(self).rest@.len() < 1 { unimplemented!() }
    #[verifier::external_body]
    fn read_u24(&mut self) -> (r: Result<u32, WErr>)
        ensures r matches Ok(b) ==> old(self).rest@.len() >= 3 && b == le(old(self).rest@.take(3)) && final(self).rest@ == old(self).rest@.skip(3), r is Err ==> old(self).rest@.len() < 3 { unimplemented!() }
    #[verifier::external_body]
    fn read_prefix(&mut self, b: &mut [u8; 4], n: usize) -> (r: Result<(), WErr>)
        requires n <= 4, forall|i: int| 0 <= i < 4 ==> old(b)@[i] == 0,
        ensures r is Ok ==> old(self).rest@.len() >= n && le(final(b)@) == le(old(self).rest@.take(n as int)) && final(self).rest@ == old(self).rest@.skip(n as int), r is Err ==> old(self).rest@.len() < n { unimplemented!() }
    #[verifier::external_body]
    fn skip_front(&mut self, n: usize)
        requires n <= old(self).rest@.len(), ensures final(self).rest@ == old(self).rest@.skip(n as int) { unimplemented!() }
}
#[verifier::external_body]
fn u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == le(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
fn zeroed<R: Rd>(n: usize, r: &R) -> (v: Result<Vec<u8>, WErr>) requires n <= 0x10_0000, ensures v matches Ok(x) ==> x@.len() == n, v is Err ==> r.g().faulty { unimplemented!() }
pub open spec fn bit(n: u32, m: u32) -> bool { n & m != 0 }

/// what one metadata sub-block says: (whether it is well formed, the properties, whether it is the last one looked at)
pub open spec fn says(id: int, body: Seq<u8>, p: WavPackProperties, strict: bool) -> (bool, WavPackProperties, bool) {
    if id == 0x27 { (body.len() >= 3, if body.len() >= 3 { WavPackProperties { sample_rate: le(body.take(3)) as u32, ..p } } else { p }, false) }
    else if id == 0x0E {
        if body.len() < 2 { (false, p, true) }
        else if body[0] > 30 { (!strict, p, true) }
        else { (true, WavPackProperties { sample_rate: ((p.sample_rate * (1u32 << (body[0] as u32))) % 0x1_0000_0000) as u32, ..p }, false) }
    } else if id == 0x0D {
        let n = body.len() as int;
        if n < 2 { (false, p, true) }
        else if n > 7 { (false, WavPackProperties { channels: body[0] as u16, ..p }, true) }
        else if n <= 5 { (true, WavPackProperties { channels: body[0] as u16, channel_mask: ChannelMask(le(body.skip(1)) as u32), ..p }, false) }
        else { (true, WavPackProperties { channels: (body[0] + 256 * (body[2] % 16) + 1) as u16, channel_mask: ChannelMask(le(body.skip(3)) as u32), ..p }, false) }
    } else { (true, p, false) }
}
pub open spec fn head(s: Seq<u8>) -> int { if s[0] >= 128 { 4 } else { 2 } }
pub open spec fn length(s: Seq<u8>) -> int { 2 * (s[1] + (if s[0] >= 128 { 256 * s[2] + 65536 * s[3] } else { 0int })) }
/// the metadata of a block: (whether it is well formed, the properties)
pub open spec fn meta(s: Seq<u8>, p: WavPackProperties, strict: bool) -> (bool, WavPackProperties) decreases s.len() {
    if s.len() < 2 { (true, p) }
    else if s.len() < head(s) { (false, p) }
    else if length(s) == 0 { meta(s.skip(head(s)), p, strict) }
    else if length(s) > s.len() - head(s) { (false, p) }
    else {
        let body = s.subrange(head(s), head(s) + length(s) - (if s[0] & 0x40 != 0 { 1int } else { 0 }));
        let x = says((s[0] & 0x3F) as int, body, p, strict);
        if !x.0 { (false, x.1) } else if x.2 { (true, x.1) } else { meta(s.skip(head(s) + length(s)), x.1, strict) }
    }
}
pub open spec fn body_of(s: Seq<u8>) -> Seq<u8> { s.subrange(head(s), head(s) + length(s) - (if s[0] & 0x40 != 0 { 1int } else { 0 })) }
proof fn unfold(s: Seq<u8>, p: WavPackProperties, strict: bool)
    ensures s.len() < 2 ==> meta(s, p, strict) == (true, p),
      s.len() >= 2 && s.len() < head(s) ==> meta(s, p, strict) == (false, p),
      s.len() >= head(s) && s.len() >= 2 && length(s) == 0 ==> meta(s, p, strict) == meta(s.skip(head(s)), p, strict),
      s.len() >= head(s) && s.len() >= 2 && length(s) > s.len() - head(s) ==> meta(s, p, strict) == (false, p),
      s.len() >= head(s) && s.len() >= 2 && 0 < length(s) <= s.len() - head(s) ==> ({
        let x = says((s[0] & 0x3F) as int, body_of(s), p, strict);
        &&& !x.0 ==> meta(s, p, strict) == (false, x.1)
        &&& x.0 && x.2 ==> meta(s, p, strict) == (true, x.1)
        &&& x.0 && !x.2 ==> meta(s, p, strict) == meta(s.skip(head(s) + length(s)), x.1, strict) }),
{}
''',
Fn(F, 'get_extended_meta_info', sig=[('WavPackParseError', 'WErr')],
   spec='''ensures r is Ok <==> meta(block_content@, *old(properties), parse_mode is Strict).0,
      *final(properties) == meta(block_content@, *old(properties), parse_mode is Strict).1,''',
   head='#[verifier::rlimit(200)]\n',
   subs=[('let reader = &mut &block_content[..];', 'let mut reader = Sl { rest: block_content };'), ('SizeMismatchError.into()', 'WErr {}', '*'), ('re:WavPackParseError::message\\(\\s*"[^"]*",?\\s*\\)', 'WErr {}', '*'),
     ('read_u24::<LittleEndian>()', 'read_u24()'), ('let mut mask = [0; 4];', 'let mut mask = [0u8; 4];'), ('reader.read_exact(&mut mask[..mask_size as usize])?', 'reader.read_prefix(&mut mask, mask_size as usize)?'),
     ('u32::from_le_bytes(mask)', 'u32_from_le(mask)'), ('let (_, rem) = reader.split_at(size as usize); *reader = rem;', 'reader.skip_front(size as usize);'),
     ('if id & ID_FLAG_ODD_SIZE > 0 { let _ = reader.read_u8()?; }', 'if id & ID_FLAG_ODD_SIZE > 0 { let _pad = reader.read_u8()?; } proof { assert(reader.rest@ =~= s.skip(head(s) + length(s))); }')],
   loops=['''invariant_except_break meta(reader.rest@, *properties, strict) == meta(block_content@, *old(properties), strict),
      invariant strict == (parse_mode is Strict),
      ensures meta(block_content@, *old(properties), strict) == (true, *properties),
      decreases reader.rest@.len(),'''],
   ins=[('start', '', 'hide(meta); hide(le); let ghost strict = parse_mode is Strict;'),
     ('before', 'if reader.len() < 2', 'let ghost s = reader.rest@; let ghost p = *properties; proof { unfold(s, p, strict); }'),
     ('before', 'if is_large', '''proof { assert(id == s[0]); assert((id & 0x80u8 > 0) == (id >= 128)) by (bit_vector); let y = s[1] as u32; assert(y << 1u32 == 2 * y) by (bit_vector) requires y < 256; assert(size == 2 * s[1]); }'''),
     ('after', 'let is_large = id & ID_FLAG_LARGE_SIZE > 0;', 'proof { let z = if s.len() > 2 { s[2] as u32 } else { 0 }; let w = if s.len() > 3 { s[3] as u32 } else { 0 }; assert(z << 9u32 == 512 * z) by (bit_vector) requires z < 256; assert(w << 17u32 == 131072 * w) by (bit_vector) requires w < 256; }'),
     ('before', 'if size == 0', 'proof { assert(s.len() >= head(s)); assert(reader.rest@ =~= s.skip(head(s))); assert(size == length(s)); }'),
     ('before', 'match id & 0x3F', '''let ghost odd = id & 0x40 != 0; let ghost r0 = reader.rest@; let ghost full = length(s); let ghost body = body_of(s);
        proof { assert((id & 0x40u8 > 0) == (id & 0x40u8 != 0)) by (bit_vector); assert(body.len() == size); assert(body =~= r0.take(size as int));
          let c = body[0] as u16; let e = if body.len() > 2 { body[2] } else { 0 };
          assert(e & 0xF == e % 16) by (bit_vector); assert(c | (((e & 0xFu8) as u16) << 8u16) == c + 256 * ((e % 16) as u16)) by (bit_vector) requires c < 256;
          let i = id & 0x3F; assert(says(i as int, body, p, strict) == says((s[0] & 0x3F) as int, body, p, strict));
          assert(body.skip(1) =~= r0.skip(1).take(size - 1)); if size >= 3 { assert(body.skip(3) =~= r0.skip(1).skip(1).skip(1).take(size - 3)); assert(body.take(3) =~= r0.take(3)); } }'''),
     ('before', 'reader.skip_front(size as usize);', 'assert(says((id & 0x3F) as int, body, p, strict) == (true, *properties, false)); assert(reader.rest@ =~= r0.skip(body.len() - size));')]),
'''
/// the header of the block at off
pub open spec fn hdr(d: Seq<u8>, off: int) -> Option<WVHeader> {
    if off + 28 > d.len() { None }
    else {
        let n = le32(d.subrange(off + 4, off + 8));
        if d.subrange(off, off + 4) != seq![0x77u8, 0x76, 0x70, 0x6B] || n < 24 || n > 1048576 { None }
        else { Some(WVHeader { block_size: n, version: le16(d.subrange(off + 8, off + 10)), total_samples: le32(d.subrange(off + 12, off + 16)), samples: le32(d.subrange(off + 20, off + 24)), flags: le32(d.subrange(off + 24, off + 28)) }) }
    }
}
#[verifier::external_body]
fn is_wvpk(b: &[u8; 4]) -> (r: bool) ensures r == (b@ == seq![0x77u8, 0x76, 0x70, 0x6B]) { b == b"wvpk" }
#[verifier::external_body]
fn fill4<R: Rd>(r: &mut R, b: &mut [u8; 4]) -> (x: Result<(), WErr>)
    ensures same(final(r).g(), old(r).g()),
        x is Ok ==> avail(old(r).g(), 4) && moved(final(r).g(), old(r).g(), 4) && final(b)@ == next(old(r).g(), 4),
        x is Err ==> old(r).g().faulty || !avail(old(r).g(), 4)
{ unimplemented!() }
''',
Fn(F, 'parse_wv_header', sig=[('R: Read + Seek', 'R: Rd'), ('WavPackParseError', 'WErr')],
   spec='''requires old(reader).g().data.len() < 0x4000_0000_0000_0000, old(reader).g().at <= 0x4000_0000_0000_0000,
    ensures same(final(reader).g(), old(reader).g()),
      r matches Ok(h) ==> hdr(old(reader).g().data, old(reader).g().at as int) == Some(h) && final(reader).g().at == old(reader).g().at + 32,
      r is Err ==> old(reader).g().faulty || hdr(old(reader).g().data, old(reader).g().at as int) is None,''',
   subs=[('let mut wv_ident = [0; 4];', 'let mut wv_ident = [0u8; 4];'), ('reader.read_exact(&mut wv_ident)?', 'fill4(reader, &mut wv_ident)?'), ('&wv_ident != b"wvpk"', '!is_wvpk(&wv_ident)'),
     ('UnknownFormatError.into()', 'WErr {}'), ('NotEnoughDataError::new(Some(24)).into()', 'WErr {}'), ('TooMuchDataError.into()', 'WErr {}')],
   ins=[('start', '', 'hide(le32); hide(le16); let ghost d = reader.g().data; let ghost o = reader.g().at as int;'),
     ('after', 'let block_size = reader.read_u32::<LittleEndian>()?;', 'proof { assert(o + 8 <= d.len()); assert(block_size == le32(d.subrange(o + 4, o + 8))); }')]),
'''
/// the properties the flags of an initial block give
pub open spec fn initial(h: WVHeader, p: WavPackProperties) -> WavPackProperties {
    let depth = 8 * (h.flags % 4 + 1) - (h.flags >> 13u32) % 32;
    let q = WavPackProperties { version: h.version, bit_depth: (if depth > 0 { depth } else { 0 }) as u8, lossless: !bit(h.flags, 8), ..p };
    if bit(h.flags, 0x1000) { if bit(h.flags, 4) { WavPackProperties { channels: 1, channel_mask: ChannelMask(4), ..q } } else { WavPackProperties { channels: 2, channel_mask: ChannelMask(3), ..q } } } else { q }
}
pub open spec fn index(h: WVHeader) -> int { ((h.flags >> 23u32) & 0xF) as int }
/// whether the block must be read for the sample rate
pub open spec fn extended(h: WVHeader) -> bool { index(h) == 15 || bit(h.flags, 0x8000_0000) }
pub struct Sum { pub ok: bool, pub p: WavPackProperties, pub total: u32 }
pub open spec fn content(d: Seq<u8>, off: int, h: WVHeader) -> Seq<u8> { if h.block_size == 24 { seq![] } else { d.subrange(off + 32, off + 8 + h.block_size) } }
pub open spec fn rated(h: WVHeader, p: WavPackProperties) -> WavPackProperties { WavPackProperties { sample_rate: SAMPLE_RATES@[index(h)], ..p } }
/// what the blocks from off on say
pub open spec fn blocks(d: Seq<u8>, off: int, p: WavPackProperties, total: u32, strict: bool) -> Sum decreases (if d.len() > off { d.len() - off } else { 0 }) {
    match hdr(d, off) {
        None => Sum { ok: !strict, p, total },
        Some(h) => {
            let p1 = rated(h, p);
            let m = meta(content(d, off, h), p1, strict);
            let p2 = if extended(h) { m.1 } else { p1 };
            if extended(h) && h.block_size > 24 && off + 8 + h.block_size > d.len() { Sum { ok: false, p: p1, total } }
            else if extended(h) && (!m.0 || (index(h) == 15 && p2.sample_rate == 0)) { Sum { ok: !strict, p: p2, total } }
            else if bit(h.flags, 0x800) && !(0x402 <= h.version <= 0x410) { Sum { ok: !strict, p: p2, total } }
            else {
                let q = if bit(h.flags, 0x800) { (initial(h, p2), h.total_samples) } else { (p2, total) };
                if h.samples != 0 && bit(h.flags, 0x1000) { Sum { ok: true, p: q.0, total: q.1 } }
                else { blocks(d, off + 8 + h.block_size, q.0, q.1, strict) }
            }
        },
    }
}
pub open spec fn stream(d: Seq<u8>, strict: bool) -> Sum {
    let s = blocks(d, 0, none(), 0, strict);
    if !s.ok || s.total == u32::MAX { s }
    else if s.total == 0 || s.p.sample_rate == 0 { Sum { ok: !strict, ..s } }
    else { Sum { p: WavPackProperties { timing: Ghost(Some(s.total)), ..s.p }, ..s } }
}
/// duration and bitrates from the total and the rate
#[verifier::external_body]
fn timed<R: Rd>(reader: &mut R, p: &mut WavPackProperties, total: u32) -> (r: Result<(), WErr>)
    ensures final(reader).g().data == old(reader).g().data, r is Err ==> old(reader).g().faulty, r is Ok ==> *final(p) == (WavPackProperties { timing: Ghost(Some(total)), ..*old(p) })
{ unimplemented!() }
fn sat_sub(a: u32, b: u32) -> (r: u32) ensures r == if a > b { a - b } else { 0 } { if a > b { a - b } else { 0 } }
proof fn flags_bits(f: u32)
    ensures (f & 0x8000_0000u32 == 0x8000_0000u32) == bit(f, 0x8000_0000), (f & 0x800u32 == 0x800u32) == bit(f, 0x800), (f & 0x1000u32 == 0x1000u32) == bit(f, 0x1000), (f & 0x1000u32 > 0) == bit(f, 0x1000),
      (f & 4u32 > 0) == bit(f, 4), (f & 8u32 == 0) == !bit(f, 8), f & 3u32 == f % 4, (f & (0x1Fu32 << 13u32)) >> 13u32 == (f >> 13u32) % 32, ((f >> 23u32) & 0xFu32) < 16, (f & (0x1Fu32 << 13u32)) >> 13u32 < 32
{
    assert((f & 0x8000_0000u32 == 0x8000_0000u32) == (f & 0x8000_0000u32 != 0)) by (bit_vector);
    assert((f & 0x800u32 == 0x800u32) == (f & 0x800u32 != 0)) by (bit_vector);
    assert((f & 0x1000u32 == 0x1000u32) == (f & 0x1000u32 != 0)) by (bit_vector);
    assert((f & 0x1000u32 > 0) == (f & 0x1000u32 != 0)) by (bit_vector);
    assert((f & 4u32 > 0) == (f & 4u32 != 0)) by (bit_vector);
    assert(f & 3u32 == f % 4) by (bit_vector);
    assert((f & (0x1Fu32 << 13u32)) >> 13u32 == (f >> 13u32) % 32) by (bit_vector);
    assert(((f >> 23u32) & 0xFu32) < 16) by (bit_vector);
}
''',
Fn(F, 'read_properties', sig=[('R: Read + Seek', 'R: Rd'), ('WavPackParseError', 'WErr')],
   head='#[verifier::rlimit(60)]\n',
   spec='''requires old(reader).g().data.len() < 0x2000_0000_0000_0000,
    ensures !old(reader).g().faulty ==> (r is Ok) == stream(old(reader).g().data, parse_mode is Strict).ok,
      !old(reader).g().faulty && r is Ok ==> r->Ok_0 == stream(old(reader).g().data, parse_mode is Strict).p,''',
   subs=[(r're:let length = f64::from.*?Ok\(properties\)\s*\}$', 'timed(reader, &mut properties, total_samples)?; Ok(properties) }'),
      ('Err(e) if parse_mode == ParsingMode::Strict => return Err(e), _ => break,', 'Err(e) => { if parse_mode == ParsingMode::Strict { return Err(e); } break; }'),
      ('try_vec![0; (block_header.block_size - 24) as usize]?', 'zeroed((block_header.block_size - 24) as usize, reader)?'), ('reader.read_exact(&mut block_contents)?', 'reader.read_exact_vec(&mut block_contents)?'),
      ('get_extended_meta_info(parse_mode, &block_contents, &mut properties)', 'get_extended_meta_info(parse_mode, block_contents.as_slice(), &mut properties)'),
      (r're:\((\(\(flags & [^;=]*?)\)\.saturating_sub\(((?:[^()]|\([^()]*\))*)\)', r'sat_sub(\1, \2)'),
      ('re:WavPackParseError::message\\(\\s*"[^"]*",?\\s*\\)', 'WErr {}', '*')],
   loops=['''invariant_except_break !faulty ==> blocks(d, offset as int, properties, total_samples, strict) == blocks(d, 0, none(), 0, strict),
      invariant strict == (parse_mode is Strict), same(reader.g(), old(reader).g()), d == old(reader).g().data, faulty == old(reader).g().faulty, d.len() < 0x2000_0000_0000_0000, offset <= d.len() + 0x20_0000,
      ensures !faulty ==> blocks(d, 0, none(), 0, strict) == (Sum { ok: true, p: properties, total: total_samples }),
      decreases d.len() + 0x20_0000 - offset,'''],
   ins=[('start', '', 'hide(meta); hide(hdr); let ghost strict = parse_mode is Strict; let ghost d = reader.g().data; let ghost faulty = reader.g().faulty;'),
     ('before', 'reader.seek(SeekFrom::Start(offset))?', 'let ghost p0 = properties; let ghost t0 = total_samples; let ghost o = offset as int;'),
     ('after', 'let flags = block_header.flags;', 'let ghost h = block_header; proof { flags_bits(flags); assert(hdr(d, o) == Some(h)); size_of_block(d, o); }'),
     ('after', 'properties.sample_rate = SAMPLE_RATES[sample_rate_idx];', 'let ghost m = meta(content(d, o, h), rated(h, p0), strict); proof { assert(sample_rate_idx == index(h)); assert(properties == rated(h, p0)); }'),
     ('after', 'reader.read_exact_vec(&mut block_contents)?;', 'proof { assert(block_contents@ =~= content(d, o, h)); }'),
     ('before', 'if flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK', 'let ghost p2 = properties; proof { assert(p2 == if extended(h) { m.1 } else { rated(h, p0) }); }'),
     ('before', 'if block_header.samples == 0', 'proof { assert((properties, total_samples) == if bit(h.flags, 0x800) { (initial(h, p2), h.total_samples) } else { (p2, t0) }); }')]),
'''
pub proof fn size_of_block(d: Seq<u8>, off: int) ensures hdr(d, off) matches Some(h) ==> 24 <= h.block_size <= 1048576 && off + 28 <= d.len() {}
} // verus!
''']
