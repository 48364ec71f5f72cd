"""Saving an ID3v2 tag into a WAV or AIFF file."""
import re, rd
F = 'lofty/src/id3/v2/write/chunk_file.rs'
I = 'lofty/src/iff/chunk.rs'
ASSUMED = rd.FILE_ASSUMED + ['Chunks::{new, next, skip, stream_position}: the contracts proved in chunks.py, stated over the file instead of the reader', 'Vec::{splice, drain}, Cursor<Vec<u8>>: writing replaces the bytes at the position', 'byteorder: write_u32 and read_u32 of one byte order are inverse', 'files and tags below 2^61 bytes']
DROPS = ['errors carry nothing', 'the file is passed as it is (the original unwraps a VerifiedFile), next to the Chunks that borrow it in the original', 'Cursor<Vec<u8>> is its vector']


def names(Src):
    t = Src(F).text
    out = ''
    for n in ('CHUNK_NAME_UPPER', 'CHUNK_NAME_LOWER', 'JUNK_CHUNK_NAME'):
        m = re.search(r'const %s: \[u8; 4\] = \*b"(.{4})";' % n, t)
        if not m:
            raise Lost(f'constant {n}')
        b = ', '.join(f'{ord(c)}u8' for c in m.group(1))
        out += f'exec const {n}: [u8; 4] ensures {n}@ == seq![{b}] {{ let r = [{b}]; proof {{ assert(r@ =~= seq![{b}]); }} r }}\n'
    return out


WRITE = [('re:writer\\.write_all\\(&(\\w+)\\)\\?', r'PUT4(writer, &\1)?', 2), ('re:writer\\.write_u32::<B>\\((.*?)\\)\\?;', r'PUT32::<B>(writer, \1)?;'),
         ('writer.write_all(tag)?', 'PUT(writer, tag)?'), ('writer.write_u8(0)?', 'PUT8(writer, 0)?'), ('re:!tag\\.len\\(\\)\\.is_multiple_of\\(2\\)', '!even(tag.len())')]


def to(kind, gen):
    out = []
    for s in WRITE:
        b = re.sub(r'PUT(\w*)', kind + r'\1', s[1])
        if gen:
            b = b.replace(kind + '32::<B>', kind + '32::<W, B>')
        out.append((s[0], b) + s[2:])
    return out


PARTS = ['''
use vstd::prelude::*;
use core::ops::Range;
verus! {
global size_of usize == 8;
pub struct WErr {}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum FileType { Wav, Aiff, Other }
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
impl Copy for ParsingMode {} impl Clone for ParsingMode { fn clone(&self) -> Self { *self } }
pub struct ParseOptions { pub parsing_mode: ParsingMode }
impl Copy for ParseOptions {} impl Clone for ParseOptions { fn clone(&self) -> Self { *self } }
#[derive(Clone, Copy)]
pub struct NonZero { pub n: u32 }
pub struct WriteOptions { pub uppercase_id3v2_chunk: bool, pub preferred_padding: Option<NonZero>, pub parse_options: ParseOptions }
impl Copy for WriteOptions {} impl Clone for WriteOptions { fn clone(&self) -> Self { *self } }
''', rd.file_prelude('WErr'), '''
pub trait Order: Sized { }
pub uninterp spec fn v32<B: Order>(s: Seq<u8>) -> u32;
pub uninterp spec fn b32<B: Order>(n: u32) -> Seq<u8>;
#[verifier::external_body]
proof fn b32_ok<B: Order>(n: u32) ensures b32::<B>(n).len() == 4, v32::<B>(b32::<B>(n)) == n {}
pub open spec fn fourcc_ok(b: Seq<u8>) -> bool {
    (forall|i: int| 0 <= i < 4 ==> 0x20 <= #[trigger] b[i] <= 0x7E) && (forall|i: int, j: int| 0 <= i < j < 4 && #[trigger] b[i] == 0x20 ==> #[trigger] b[j] == 0x20)
}
pub open spec fn upper() -> Seq<u8> { seq![0x49u8, 0x44, 0x33, 0x20] }
pub open spec fn lower() -> Seq<u8> { seq![0x69u8, 0x64, 0x33, 0x20] }
pub open spec fn junk() -> Seq<u8> { seq![0x4au8, 0x55, 0x4e, 0x4b] }
// ---- well-formed chunk lists
pub open spec fn name(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, p + 4) }
pub open spec fn size<B: Order>(d: Seq<u8>, p: int) -> int { v32::<B>(d.subrange(p + 4, p + 8)) as int }
pub open spec fn past<B: Order>(d: Seq<u8>, p: int) -> int { p + 8 + size::<B>(d, p) + size::<B>(d, p) % 2 }
/// a chunk starts at p and ends, with a zero pad byte where its size is odd, within e
pub open spec fn one<B: Order>(d: Seq<u8>, p: int, e: int) -> bool {
    0 <= p && p + 8 <= e <= d.len() && fourcc_ok(name(d, p)) && past::<B>(d, p) <= e && (size::<B>(d, p) % 2 == 1 ==> d[past::<B>(d, p) - 1] == 0)
}
pub open spec fn list<B: Order>(d: Seq<u8>, p: int, e: int) -> bool decreases e - p {
    (p == e && 0 <= p <= d.len()) || (p < e && one::<B>(d, p, e) && list::<B>(d, past::<B>(d, p), e))
}
pub open spec fn is_tag(d: Seq<u8>, p: int) -> bool { name(d, p) == upper() || name(d, p) == lower() }
pub open spec fn is_junk(d: Seq<u8>, p: int) -> bool { name(d, p) == junk() }
/// the chunks that are neither ID3v2 tags nor padding, whole, in order
pub open spec fn others<B: Order>(d: Seq<u8>, p: int, e: int) -> Seq<Seq<u8>> decreases e - p {
    if p >= e || !one::<B>(d, p, e) { seq![] }
    else if is_tag(d, p) || is_junk(d, p) { others::<B>(d, past::<B>(d, p), e) }
    else { seq![d.subrange(p, past::<B>(d, p))] + others::<B>(d, past::<B>(d, p), e) }
}
/// the contents of the ID3v2 chunks
pub open spec fn tags<B: Order>(d: Seq<u8>, p: int, e: int) -> Seq<Seq<u8>> decreases e - p {
    if p >= e || !one::<B>(d, p, e) { seq![] }
    else if is_tag(d, p) { seq![d.subrange(p + 8, p + 8 + size::<B>(d, p))] + tags::<B>(d, past::<B>(d, p), e) }
    else { tags::<B>(d, past::<B>(d, p), e) }
}
pub open spec fn end<B: Order>(d: Seq<u8>) -> int { 8 + size::<B>(d, 0) }
/// a container: its size field delimits a chunk list
pub open spec fn well<B: Order>(d: Seq<u8>) -> bool { d.len() >= 12 && fourcc_ok(name(d, 0)) && 12 <= end::<B>(d) <= d.len() && list::<B>(d, 12, end::<B>(d)) }
/// the new file: a container of the same kind, the same other chunks, exactly the new tag, the same trailing bytes
pub open spec fn saved<B: Order>(d: Seq<u8>, n: Seq<u8>, tag: Seq<u8>) -> bool {
    well::<B>(n) && n.take(4) == d.take(4) && n.subrange(8, 12) == d.subrange(8, 12)
    && others::<B>(n, 12, end::<B>(n)) == others::<B>(d, 12, end::<B>(d))
    && tags::<B>(n, 12, end::<B>(n)) == (if tag.len() == 0 { seq![] } else { seq![tag] })
    && n.skip(end::<B>(n)) == d.skip(end::<B>(d))
}
proof fn bounds<B: Order>(d: Seq<u8>, p: int, e: int) requires list::<B>(d, p, e) ensures 0 <= p <= e <= d.len() decreases e - p
{ if p < e { bounds::<B>(d, past::<B>(d, p), e); } }
proof fn join<B: Order>(d: Seq<u8>, p: int, m: int, e: int)
    requires list::<B>(d, p, m), list::<B>(d, m, e)
    ensures list::<B>(d, p, e), others::<B>(d, p, e) == others::<B>(d, p, m) + others::<B>(d, m, e), tags::<B>(d, p, e) == tags::<B>(d, p, m) + tags::<B>(d, m, e)
    decreases m - p
{
    bounds::<B>(d, p, m); bounds::<B>(d, m, e);
    if p < m {
        let q = past::<B>(d, p);
        join::<B>(d, q, m, e);
        assert(one::<B>(d, p, e));
        assert(others::<B>(d, p, e) =~= others::<B>(d, p, m) + others::<B>(d, m, e));
        assert(tags::<B>(d, p, e) =~= tags::<B>(d, p, m) + tags::<B>(d, m, e));
    } else {
        assert(others::<B>(d, p, e) =~= others::<B>(d, p, m) + others::<B>(d, m, e));
        assert(tags::<B>(d, p, e) =~= tags::<B>(d, p, m) + tags::<B>(d, m, e));
    }
}
pub open spec fn eq_at(d: Seq<u8>, p: int, n: Seq<u8>, q: int, k: int) -> bool { 0 <= p && 0 <= q && p + k <= d.len() && q + k <= n.len() && d.subrange(p, p + k) == n.subrange(q, q + k) }
proof fn eq_part(d: Seq<u8>, p: int, n: Seq<u8>, q: int, k: int, a: int, b: int) requires eq_at(d, p, n, q, k), 0 <= a <= b <= k
    ensures d.subrange(p + a, p + b) == n.subrange(q + a, q + b)
{
    assert(d.subrange(p + a, p + b) =~= d.subrange(p, p + k).subrange(a, b));
    assert(n.subrange(q + a, q + b) =~= n.subrange(q, q + k).subrange(a, b));
}
/// equal bytes are equal lists, wherever they are
proof fn moved<B: Order>(d: Seq<u8>, p: int, e: int, n: Seq<u8>, q: int)
    requires list::<B>(d, p, e), eq_at(d, p, n, q, e - p)
    ensures list::<B>(n, q, q + e - p), others::<B>(n, q, q + e - p) == others::<B>(d, p, e), tags::<B>(n, q, q + e - p) == tags::<B>(d, p, e)
    decreases e - p
{
    bounds::<B>(d, p, e);
    if p < e {
        let k = e - p;
        let x = past::<B>(d, p);
        bounds::<B>(d, x, e);
        eq_part(d, p, n, q, k, 0, 4); eq_part(d, p, n, q, k, 4, 8); eq_part(d, p, n, q, k, 0, x - p); eq_part(d, p, n, q, k, 8, 8 + size::<B>(d, p)); eq_part(d, p, n, q, k, x - p, k);
        if size::<B>(d, p) % 2 == 1 { eq_part(d, p, n, q, k, x - p - 1, x - p); assert(d.subrange(x - 1, x)[0] == n.subrange(q + x - p - 1, q + x - p)[0]); }
        assert(past::<B>(n, q) == q + x - p);
        assert(one::<B>(n, q, q + k));
        moved::<B>(d, x, e, n, q + x - p);
    }
}
pub open spec fn pad(t: Seq<u8>) -> Seq<u8> { if t.len() % 2 == 1 { seq![0u8] } else { seq![] } }
pub open spec fn chunk_of<B: Order>(nm: Seq<u8>, t: Seq<u8>) -> Seq<u8> { nm + b32::<B>(t.len() as u32) + t + pad(t) }
proof fn names_ok() ensures fourcc_ok(upper()), fourcc_ok(lower()), fourcc_ok(junk()), upper() != junk(), lower() != junk()
{ assert(upper()[0] == 0x49 && lower()[0] == 0x69 && junk()[0] == 0x4a); }
/// a tag chunk that was written is one
proof fn written<B: Order>(n: Seq<u8>, p: int, nm: Seq<u8>, t: Seq<u8>)
    requires nm == upper() || nm == lower(), t.len() <= 0xffff_ffff, eq_at(n, p, chunk_of::<B>(nm, t), 0, chunk_of::<B>(nm, t).len() as int)
    ensures list::<B>(n, p, p + 8 + t.len() + t.len() % 2), others::<B>(n, p, p + 8 + t.len() + t.len() % 2) =~= seq![], tags::<B>(n, p, p + 8 + t.len() + t.len() % 2) =~= seq![t],
        chunk_of::<B>(nm, t).len() == 8 + t.len() + t.len() % 2
{
    names_ok(); b32_ok::<B>(t.len() as u32);
    let c = chunk_of::<B>(nm, t);
    let k = c.len() as int;
    eq_part(n, p, c, 0, k, 0, 4); eq_part(n, p, c, 0, k, 4, 8); eq_part(n, p, c, 0, k, 8, (8 + t.len()) as int);
    assert(c.subrange(0, 4) =~= nm); assert(c.subrange(4, 8) =~= b32::<B>(t.len() as u32)); assert(c.subrange(8, (8 + t.len()) as int) =~= t);
    if t.len() % 2 == 1 { eq_part(n, p, c, 0, k, k - 1, k); assert(c.subrange(k - 1, k)[0] == 0); assert(n.subrange(p + k - 1, p + k)[0] == n[p + k - 1]); }
    assert(past::<B>(n, p) == p + k);
    assert(one::<B>(n, p, p + k));
    reveal_with_fuel(list, 2); reveal_with_fuel(others, 2); reveal_with_fuel(tags, 2);
}
/// a padding chunk
proof fn padding<B: Order>(n: Seq<u8>, p: int, e: int)
    requires 0 <= p, p + 8 <= e <= n.len(), name(n, p) == junk(), past::<B>(n, p) == e, size::<B>(n, p) % 2 == 1 ==> n[e - 1] == 0
    ensures list::<B>(n, p, e), others::<B>(n, p, e) =~= seq![], tags::<B>(n, p, e) =~= seq![]
{ names_ok(); reveal_with_fuel(list, 2); reveal_with_fuel(others, 2); reveal_with_fuel(tags, 2); }
/// n is m with its size field set to k
proof fn header<B: Order>(d: Seq<u8>, m: Seq<u8>, k: u32)
    requires m.len() >= 12, d.len() >= 12, m.take(12) == d.take(12)
    ensures ({ let n = overwrite(m, 4, b32::<B>(k)); n.len() == m.len() && n.take(4) == d.take(4) && n.subrange(8, 12) == d.subrange(8, 12) && end::<B>(n) == 8 + k && n.skip(12) == m.skip(12) })
{
    b32_ok::<B>(k);
    let n = overwrite(m, 4, b32::<B>(k));
    assert(n.take(4) =~= m.take(12).take(4)); assert(d.take(4) =~= d.take(12).take(4));
    assert(n.subrange(8, 12) =~= m.take(12).subrange(8, 12)); assert(d.subrange(8, 12) =~= d.take(12).subrange(8, 12));
    assert(n.subrange(4, 8) =~= b32::<B>(k)); assert(n.skip(12) =~= m.skip(12));
}
proof fn skipped(n: Seq<u8>, m: Seq<u8>, p: int, c: Seq<u8>) requires n.len() == m.len(), n.skip(12) == m.skip(12), 12 <= p, p + c.len() <= m.len(), m.subrange(p, p + c.len()) == c
    ensures n.subrange(p, p + c.len()) == c
{
    assert(n.subrange(p, p + c.len()) =~= n.skip(12).subrange(p - 12, p - 12 + c.len()));
    assert(m.subrange(p, p + c.len()) =~= m.skip(12).subrange(p - 12, p - 12 + c.len()));
}
/// where the old tag is: nowhere, or the chunk from s to x
pub open spec fn spot<B: Order>(d: Seq<u8>, s: int, x: int) -> bool {
    let e = end::<B>(d);
    list::<B>(d, 12, s) && tags::<B>(d, 12, s) == Seq::<Seq<u8>>::empty() && list::<B>(d, x, e) && (if s == x { s == e } else { one::<B>(d, s, e) && is_tag(d, s) && x == past::<B>(d, s) })
}
proof fn spotted<B: Order>(d: Seq<u8>, s: int, x: int)
    requires well::<B>(d), tags::<B>(d, 12, end::<B>(d)).len() <= 1, spot::<B>(d, s, x)
    ensures 12 <= s <= x <= end::<B>(d), others::<B>(d, 12, end::<B>(d)) == others::<B>(d, 12, s) + others::<B>(d, x, end::<B>(d)), s != x ==> tags::<B>(d, x, end::<B>(d)) == Seq::<Seq<u8>>::empty(),
        s == x ==> tags::<B>(d, 12, end::<B>(d)) == Seq::<Seq<u8>>::empty()
{
    let e = end::<B>(d);
    bounds::<B>(d, 12, s); bounds::<B>(d, x, e);
    names_ok();
    reveal_with_fuel(list, 2);
    assert(list::<B>(d, s, e));
    join::<B>(d, 12, s, e);
    if s != x {
        assert(tags::<B>(d, s, e).len() == 1 + tags::<B>(d, x, e).len());
        assert(tags::<B>(d, x, e) =~= Seq::<Seq<u8>>::empty());
    } else { assert(tags::<B>(d, 12, e) =~= seq![]); assert(others::<B>(d, s, e) =~= seq![]); }
    assert(others::<B>(d, s, e) == others::<B>(d, x, e));
}
/// before s as it was, then the chunks at s: `mid` without others but perhaps the tag, `rest` as after x, in this or the other order
proof fn put<B: Order>(d: Seq<u8>, s: int, x: int, n: Seq<u8>, tag: Seq<u8>, a: int, b: int, rest: bool)
    requires well::<B>(d), tags::<B>(d, 12, end::<B>(d)).len() <= 1, spot::<B>(d, s, x), n.len() >= 12, n.take(4) == d.take(4), n.subrange(8, 12) == d.subrange(8, 12),
        12 <= end::<B>(n) <= n.len(), n.skip(end::<B>(n)) == d.skip(end::<B>(d)), eq_at(d, 12, n, 12, s - 12),
        // from s to a, from a to b, the end
        s <= a <= b, b == end::<B>(n),
        ({ let (p, q) = if rest { (a, b) } else { (s, a) };   // where the rest is
           eq_at(d, x, n, p, end::<B>(d) - x) && q == p + end::<B>(d) - x }),
        ({ let (p, q) = if rest { (s, a) } else { (a, b) };   // where the new chunk is, or padding, or nothing
           list::<B>(n, p, q) && others::<B>(n, p, q) == Seq::<Seq<u8>>::empty() && tags::<B>(n, p, q) == (if tag.len() == 0 { seq![] } else { seq![tag] }) })
    ensures saved::<B>(d, n, tag)
{
    spotted::<B>(d, s, x);
    let e = end::<B>(d);
    moved::<B>(d, 12, s, n, 12);
    moved::<B>(d, x, e, n, if rest { a } else { s });
    join::<B>(n, 12, s, a);
    join::<B>(n, 12, a, b);
    assert(name(n, 0) =~= n.take(4)); assert(name(d, 0) =~= d.take(4));
    assert(tags::<B>(d, 12, s) == Seq::<Seq<u8>>::empty());
    assert(tags::<B>(d, x, e) =~= Seq::<Seq<u8>>::empty());
    assert(tags::<B>(n, 12, b) =~= (if tag.len() == 0 { seq![] } else { seq![tag] }));
    assert(others::<B>(n, 12, b) =~= others::<B>(d, 12, s) + others::<B>(d, x, e));
}
pub open spec fn fits<B: Order>(d: Seq<u8>, s: int, x: int) -> bool { well::<B>(d) && tags::<B>(d, 12, end::<B>(d)).len() <= 1 && spot::<B>(d, s, x) }
pub open spec fn nm(up: bool) -> Seq<u8> { if up { upper() } else { lower() } }
pub open spec fn bytes<B: Order>(up: bool, tag: Seq<u8>) -> Seq<u8> { if tag.len() == 0 { seq![] } else { chunk_of::<B>(nm(up), tag) } }
/// the old tag was last: the new one takes its place
proof fn case_last<B: Order>(d: Seq<u8>, s: int, x: int, m: Seq<u8>, tag: Seq<u8>, up: bool, k: u32)
    requires fits::<B>(d, s, x), x == end::<B>(d), x == d.len(), tag.len() <= 0xffff_ffff, m == d.take(s) + bytes::<B>(up, tag), m.len() == 8 + k
    ensures saved::<B>(d, overwrite(m, 4, b32::<B>(k)), tag)
{
    spotted::<B>(d, s, x);
    let n = overwrite(m, 4, b32::<B>(k));
    assert(m.take(12) =~= d.take(12));
    header::<B>(d, m, k);
    let c = bytes::<B>(up, tag);
    assert(m.subrange(s, s + c.len()) =~= c);
    skipped(n, m, s, c);
    assert(c.subrange(0, c.len() as int) =~= c);
    if tag.len() > 0 { written::<B>(n, s, nm(up), tag); }
    assert(m.subrange(12, s) =~= d.subrange(12, s)); skipped(n, m, 12, d.subrange(12, s));
    assert(n.skip(end::<B>(n)) =~= d.skip(end::<B>(d)));
    assert(d.subrange(x, x) =~= n.subrange(n.len() as int, n.len() as int));
    assert(c =~= chunk_of::<B>(nm(up), tag) || tag.len() == 0);
    put::<B>(d, s, x, n, tag, s + c.len(), n.len() as int, true);
}
/// the old tag becomes padding
proof fn case_junk<B: Order>(d: Seq<u8>, s: int, x: int, tag: Seq<u8>)
    requires fits::<B>(d, s, x), s < x, tag.len() == 0
    ensures saved::<B>(d, overwrite(d, s, junk()), tag)
{
    spotted::<B>(d, s, x);
    let n = overwrite(d, s, junk()); let e = end::<B>(d);
    assert(one::<B>(d, s, e));
    assert(n.subrange(4, 8) =~= d.subrange(4, 8)); assert(n.take(4) =~= d.take(4)); assert(n.subrange(8, 12) =~= d.subrange(8, 12)); assert(n.skip(e) =~= d.skip(e));
    assert(n.subrange(s + 4, s + 8) =~= d.subrange(s + 4, s + 8)); assert(name(n, s) =~= junk());
    assert(n.subrange(12, s) =~= d.subrange(12, s)); assert(n.subrange(x, e) =~= d.subrange(x, e));
    padding::<B>(n, s, x);
    put::<B>(d, s, x, n, tag, x, e, true);
}
/// the new tag and padding take the place of the old one
#[verifier::rlimit(40)]
proof fn case_fit<B: Order>(d: Seq<u8>, s: int, x: int, tag: Seq<u8>, up: bool, k: u32)
    requires fits::<B>(d, s, x), s < x, 0 < tag.len() <= 0xffff_ffff, s + bytes::<B>(up, tag).len() + 8 + k == x
    ensures saved::<B>(d, overwrite(overwrite(overwrite(d, s, bytes::<B>(up, tag)), s + bytes::<B>(up, tag).len(), junk()), s + bytes::<B>(up, tag).len() + 4, b32::<B>(k)), tag)
{
    spotted::<B>(d, s, x);
    let c = bytes::<B>(up, tag);
    b32_ok::<B>(k); b32_ok::<B>(tag.len() as u32);
    over2(d, s, c, junk()); over2(d, s, c + junk(), b32::<B>(k));
    assert(junk().len() == 4); assert((c + junk()).len() == c.len() + 4);
    let w = c + junk() + b32::<B>(k);
    let n = overwrite(d, s, w); let e = end::<B>(d); let a = s + c.len();
    assert(w.len() == c.len() + 8);
    let y = a + 8; over_at(d, s, w, y);
    assert(n.subrange(4, 8) =~= n.take(s).subrange(4, 8)); assert(d.subrange(4, 8) =~= d.take(s).subrange(4, 8));
    assert(n.take(4) =~= n.take(s).take(4)); assert(d.take(4) =~= d.take(s).take(4));
    assert(n.subrange(8, 12) =~= n.take(s).subrange(8, 12)); assert(d.subrange(8, 12) =~= d.take(s).subrange(8, 12));
    assert(n.subrange(12, s) =~= n.take(s).subrange(12, s)); assert(d.subrange(12, s) =~= d.take(s).subrange(12, s));
    assert(n.skip(e) =~= n.skip(y).skip(e - y)); assert(d.skip(e) =~= d.skip(y).skip(e - y));
    assert(n.subrange(x, e) =~= n.skip(y).subrange(x - y, e - y)); assert(d.subrange(x, e) =~= d.skip(y).subrange(x - y, e - y));
    assert(n.subrange(s, a) =~= n.subrange(s, y).take(c.len() as int)); assert(w.take(c.len() as int) =~= c); assert(c.subrange(0, c.len() as int) =~= c);
    assert(n.subrange(a, a + 4) =~= n.subrange(s, y).subrange(a - s, a - s + 4)); assert(w.subrange(a - s, a - s + 4) =~= junk());
    assert(n.subrange(a + 4, a + 8) =~= n.subrange(s, y).subrange(a - s + 4, a - s + 8)); assert(w.subrange(a - s + 4, a - s + 8) =~= b32::<B>(k));
    assert(end::<B>(n) == e);
    fit2::<B>(d, s, x, n, tag, up);
}
proof fn over_at(d: Seq<u8>, s: int, w: Seq<u8>, x: int) requires 0 <= s, s + w.len() == x, x <= d.len()
    ensures ({ let n = overwrite(d, s, w); n.len() == d.len() && n.take(s) == d.take(s) && n.skip(x) == d.skip(x) && n.subrange(s, x) == w })
{ let n = overwrite(d, s, w); assert(n.take(s) =~= d.take(s)); assert(n.skip(x) =~= d.skip(x)); assert(n.subrange(s, x) =~= w); }
proof fn fit2<B: Order>(d: Seq<u8>, s: int, x: int, n: Seq<u8>, tag: Seq<u8>, up: bool)
    requires fits::<B>(d, s, x), s < x, 0 < tag.len() <= 0xffff_ffff, ({ let c = bytes::<B>(up, tag); let a = s + c.len(); let e = end::<B>(d);
        n.len() == d.len() && end::<B>(n) == e && n.take(4) == d.take(4) && n.subrange(8, 12) == d.subrange(8, 12) && n.subrange(12, s) == d.subrange(12, s) && n.skip(e) == d.skip(e) && n.subrange(x, e) == d.subrange(x, e)
        && a + 8 <= x && n.subrange(s, a) == c && c.subrange(0, c.len() as int) == c && name(n, a) == junk() && a + 8 + size::<B>(n, a) == x })
    ensures saved::<B>(d, n, tag)
{
    spotted::<B>(d, s, x);
    let c = bytes::<B>(up, tag); let a = s + c.len(); let e = end::<B>(d);
    b32_ok::<B>(tag.len() as u32);
    written::<B>(n, s, nm(up), tag);
    assert(one::<B>(d, s, e));
    assert((x - s) % 2 == 0); assert((a - s) % 2 == 0);
    padding::<B>(n, a, x);
    join::<B>(n, s, a, x);
    assert(tags::<B>(n, s, x) =~= seq![tag]); assert(others::<B>(n, s, x) =~= seq![]);
    put::<B>(d, s, x, n, tag, x, e, true);
}
/// the old tag goes, the new one is put at the end
proof fn case_rewrite<B: Order>(d: Seq<u8>, s: int, x: int, tag: Seq<u8>, up: bool, k: u32)
    requires fits::<B>(d, s, x), tag.len() <= 0xffff_ffff, end::<B>(d) - (x - s) + bytes::<B>(up, tag).len() == 8 + k
    ensures ({ let e = end::<B>(d); let v = d.take(e) + bytes::<B>(up, tag) + d.skip(e); let m = v.take(s) + v.skip(x); saved::<B>(d, overwrite(m, 4, b32::<B>(k)), tag) })
{
    spotted::<B>(d, s, x);
    let e = end::<B>(d); let c = bytes::<B>(up, tag); let v = d.take(e) + c + d.skip(e); let m = v.take(s) + v.skip(x); let n = overwrite(m, 4, b32::<B>(k));
    let a = s + e - x;
    assert(m.take(12) =~= d.take(12));
    header::<B>(d, m, k);
    assert(m.subrange(12, s) =~= d.subrange(12, s)); skipped(n, m, 12, d.subrange(12, s));
    assert(m.subrange(s, a) =~= d.subrange(x, e)); skipped(n, m, s, d.subrange(x, e));
    assert(m.subrange(a, a + c.len()) =~= c); skipped(n, m, a, c);
    assert(m.subrange(a + c.len(), m.len() as int) =~= d.skip(e)); skipped(n, m, a + c.len(), d.skip(e));
    assert(n.skip(end::<B>(n)) =~= n.subrange(a + c.len(), n.len() as int));
    assert(c.subrange(0, c.len() as int) =~= c);
    if tag.len() > 0 { written::<B>(n, a, nm(up), tag); }
    put::<B>(d, s, x, n, tag, a, a + c.len(), false);
}
proof fn over2(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>) requires 0 <= p <= d.len()
    ensures overwrite(overwrite(d, p, a), p + a.len(), b) == overwrite(d, p, a + b), overwrite(d, p, a).len() == (if p + a.len() > d.len() { p + a.len() } else { d.len() as int })
{ assert(overwrite(overwrite(d, p, a), p + a.len(), b) =~= overwrite(d, p, a + b)); }
proof fn over_parts(d: Seq<u8>, p: int, a: Seq<u8>) requires 0 <= p <= d.len()
    ensures ({ let n = overwrite(d, p, a); n.len() == (if p + a.len() > d.len() { p + a.len() } else { d.len() as int }) && n.take(p) == d.take(p) && n.subrange(p, p + a.len()) == a && (p + a.len() <= d.len() ==> n.skip(p + a.len()) == d.skip(p + a.len())) })
{
    let n = overwrite(d, p, a);
    assert(n.take(p) =~= d.take(p)); assert(n.subrange(p, p + a.len()) =~= a);
    if p + a.len() <= d.len() { assert(n.skip(p + a.len()) =~= d.skip(p + a.len())); }
}
// ---- helpers with contracts
fn even(n: usize) -> (r: bool) ensures r == (n % 2 == 0) { n % 2 == 0 }
fn len_u64(n: usize) -> (r: Result<u64, WErr>) ensures r == Ok::<u64, WErr>(n as u64) { Ok(n as u64) }
fn wide(n: u32) -> (r: u64) ensures r == n { n as u64 }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a < b { 0 } else { a - b } { if a < b { 0 } else { a - b } }
fn is_name(a: &[u8; 4], b: &[u8; 4]) -> (r: bool) ensures r == (a@ == b@)
{
    let r = a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3];
    proof { if r { assert(a@ =~= b@); } }
    r
}
fn copy_range(r: &Option<Range<u64>>) -> (x: Option<Range<u64>>) ensures x == *r { match r { Some(t) => Some(Range { start: t.start, end: t.end }), None => None } }
fn file_put4<W: Fl>(f: &mut W, b: &[u8; 4]) -> (r: Result<(), WErr>)
    ensures final(f).g().faulty == old(f).g().faulty,
        r is Ok ==> final(f).g().data == overwrite(old(f).g().data, old(f).g().at as int, b@) && final(f).g().at == old(f).g().at + 4, r is Err ==> old(f).g().faulty || old(f).g().at + 4 >= 0x8000_0000_0000_0000
{ f.write_all(b.as_slice()) }
fn file_put<W: Fl>(f: &mut W, b: &[u8]) -> (r: Result<(), WErr>)
    ensures final(f).g().faulty == old(f).g().faulty,
        r is Ok ==> final(f).g().data == overwrite(old(f).g().data, old(f).g().at as int, b@) && final(f).g().at == old(f).g().at + b@.len(), r is Err ==> old(f).g().faulty || old(f).g().at + b@.len() >= 0x8000_0000_0000_0000
{ f.write_all(b) }
#[verifier::external_body]
fn file_put32<W: Fl, B: Order>(f: &mut W, n: u32) -> (r: Result<(), WErr>)
    ensures final(f).g().faulty == old(f).g().faulty,
        r is Ok ==> final(f).g().data == overwrite(old(f).g().data, old(f).g().at as int, b32::<B>(n)) && final(f).g().at == old(f).g().at + 4, r is Err ==> old(f).g().faulty || old(f).g().at + 4 >= 0x8000_0000_0000_0000
{ unimplemented!() }
#[verifier::external_body]
fn file_put8<W: Fl>(f: &mut W, n: u8) -> (r: Result<(), WErr>)
    ensures final(f).g().faulty == old(f).g().faulty,
        r is Ok ==> final(f).g().data == overwrite(old(f).g().data, old(f).g().at as int, seq![n]) && final(f).g().at == old(f).g().at + 1, r is Err ==> old(f).g().faulty || old(f).g().at + 1 >= 0x8000_0000_0000_0000
{ unimplemented!() }
#[verifier::external_body]
fn vec_put4(f: &mut Vec<u8>, b: &[u8; 4]) -> (r: Result<(), WErr>) ensures r is Ok, final(f)@ == old(f)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn vec_put(f: &mut Vec<u8>, b: &[u8]) -> (r: Result<(), WErr>) ensures r is Ok, final(f)@ == old(f)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn vec_put32<B: Order>(f: &mut Vec<u8>, n: u32) -> (r: Result<(), WErr>) ensures r is Ok, final(f)@ == old(f)@ + b32::<B>(n) { unimplemented!() }
#[verifier::external_body]
fn vec_put8(f: &mut Vec<u8>, n: u8) -> (r: Result<(), WErr>) ensures r is Ok, final(f)@ == old(f)@ + seq![n] { unimplemented!() }
#[verifier::external_body]
fn read_to_end<W: Fl>(f: &mut W, v: &mut Vec<u8>) -> (r: Result<(), WErr>)
    ensures final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty, r is Err ==> old(f).g().faulty,
        r is Ok ==> final(v)@ == old(v)@ + (if old(f).g().at <= old(f).g().data.len() { old(f).g().data.skip(old(f).g().at as int) } else { seq![] })
{ unimplemented!() }
#[verifier::external_body]
fn splice_in(v: &mut Vec<u8>, a: usize, b: usize, t: &Vec<u8>) requires a <= b <= old(v)@.len(), ensures final(v)@ == old(v)@.take(a as int) + t@ + old(v)@.skip(b as int) { unimplemented!() }
#[verifier::external_body]
fn drain_out(v: &mut Vec<u8>, a: usize, b: usize) requires a <= b <= old(v)@.len(), ensures final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int) { unimplemented!() }
#[verifier::external_body]
fn vec_at32<B: Order>(v: &mut Vec<u8>, at: u64, n: u32) -> (r: Result<(), WErr>) ensures r is Ok, final(v)@ == overwrite(old(v)@, at as int, b32::<B>(n)) { unimplemented!() }
fn vec_cap(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
// ---- the chunk iterator (proved in chunks.py)
pub struct Pos { pub at: int, pub left: int }
pub open spec fn padded(d: Seq<u8>, p: Pos, size: int) -> Pos {
    if size % 2 == 0 || p.left < 1 { p }
    else if d[p.at] != 0 && p.left > 4 && fourcc_ok(d.subrange(p.at, p.at + 4)) { p }
    else { Pos { at: p.at + 1, left: p.left - 1 } }
}
pub struct Chunks { pub total: u64, pub at: Ghost<int>, pub left: Ghost<int>, pub rem: Ghost<int>, pub size: Ghost<int> }
pub struct Chunk { pub fourcc: [u8; 4], pub start: u64, pub len: u32 }
impl Chunk {
    fn size(&self) -> (r: u32) ensures r == self.len { self.len }
    fn start(&self) -> (r: u64) ensures r == self.start { self.start }
}
impl Chunks {
    pub open spec fn wf(&self) -> bool { 0 <= self.rem@ <= self.left@ <= self.total }
    pub open spec fn after(&self, d: Seq<u8>) -> Pos { padded(d, Pos { at: self.at@ + self.rem@, left: self.left@ - self.rem@ }, self.size@) }
    #[verifier::external_body]
    fn new<W: Fl>(f: &W, n: u64) -> (r: Chunks) ensures r.total == n, r.at@ == f.g().at, r.left@ == n, r.rem@ == 0, r.size@ == 0 { unimplemented!() }
    #[verifier::external_body]
    fn stream_position(&self) -> (r: u64) requires self.wf(), ensures r == self.total - self.left@ { unimplemented!() }
    #[verifier::external_body]
    fn next<W: Fl, B: Order>(&mut self, f: &mut W, m: ParsingMode) -> (r: Result<Option<Chunk>, WErr>)
        requires old(self).wf(), old(f).g().at == old(self).at@, old(f).g().data.len() < 0x8000_0000_0000_0000,
        ensures final(self).wf(), final(self).total == old(self).total, final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty, final(f).g().at == final(self).at@,
          r matches Ok(Some(c)) ==> ({ let d = old(f).g().data; let p = old(self).after(d);
            &&& p.left >= 8 && p.at + 8 <= d.len()
            &&& c.fourcc@ == d.subrange(p.at, p.at + 4) && fourcc_ok(c.fourcc@)
            &&& c.len == v32::<B>(d.subrange(p.at + 4, p.at + 8))
            &&& c.start == old(self).total - p.left
            &&& c.len <= p.left - 8
            &&& final(self).at@ == p.at + 8 && final(self).left@ == p.left - 8 && final(self).rem@ == c.len && final(self).size@ == c.len }),
          r matches Ok(None) ==> ({ let d = old(f).g().data; let p = old(self).after(d);
            p.left < 8 || (!(m is Strict) && (!fourcc_ok(d.subrange(p.at, p.at + 4)) || v32::<B>(d.subrange(p.at + 4, p.at + 8)) > p.left - 8)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn skip<W: Fl>(&mut self, f: &mut W) -> (r: Result<(), WErr>)
        requires old(self).wf(), old(f).g().at == old(self).at@, old(f).g().data.len() < 0x8000_0000_0000_0000,
        ensures final(self).wf(), final(self).total == old(self).total, final(f).g().data == old(f).g().data, final(f).g().faulty == old(f).g().faulty, final(f).g().at == final(self).at@,
          r is Ok ==> ({ let p = old(self).after(old(f).g().data); final(self).at@ == p.at && final(self).left@ == p.left && final(self).rem@ == 0 && final(self).size@ == 0 }),
    { unimplemented!() }
}
''', Item(I, 'const', 'IFF_CHUNK_HEADER_SIZE'), Gen(names), Item(F, 'struct', 'IffFileContext'),
Fn(F, 'write_id3v2_chunk', emit_name='write_chunk_file', sig=[('<W, B>', '<W: Fl, B: Order>'), ('where W: Write, B: ByteOrder,', ''), ('FileEncodingError', 'WErr')],
   spec='''requires old(writer).g().at <= old(writer).g().data.len(), old(writer).g().data.len() + tag@.len() < 0x4000_0000_0000_0000,
    ensures final(writer).g().faulty == old(writer).g().faulty, r is Err ==> old(writer).g().faulty,
      r is Ok ==> ({ let c = chunk_of::<B>(if write_options.uppercase_id3v2_chunk { upper() } else { lower() }, tag@);
        final(writer).g().data == overwrite(old(writer).g().data, old(writer).g().at as int, c) && final(writer).g().at == old(writer).g().at + c.len() && c.len() == 8 + tag@.len() + tag@.len() % 2 }),''',
   subs=to('file_put', True),
   ins=[('start', '', 'let ghost d = writer.g().data; let ghost p = writer.g().at as int; proof { b32_ok::<B>(tag.len() as u32); let nm = if write_options.uppercase_id3v2_chunk { upper() } else { lower() }; let s = b32::<B>(tag.len() as u32); over2(d, p, nm, s); over2(d, p, nm + s, tag@); over2(d, p, nm + s + tag@, seq![0u8]); '
         'assert(nm + s + tag@ + Seq::<u8>::empty() =~= nm + s + tag@); }')]),
Fn(F, 'write_id3v2_chunk', emit_name='write_chunk_vec', sig=[('<W, B>', '<B: Order>'), ('where W: Write, B: ByteOrder,', ''), ('writer: &mut W', 'writer: &mut Vec<u8>'), ('FileEncodingError', 'WErr')],
   spec='''requires tag@.len() <= 0xffff_ffff,
    ensures r is Ok, ({ let c = chunk_of::<B>(if write_options.uppercase_id3v2_chunk { upper() } else { lower() }, tag@); final(writer)@ =~= old(writer)@ + c && c.len() == 8 + tag@.len() + tag@.len() % 2 }),''',
   subs=to('vec_put', False), ins=[('start', '', 'proof { b32_ok::<B>(tag.len() as u32); }')]),
Fn(F, 'find_existing_id3v2_tag', sig=[('<F, B: ByteOrder>', '<F: Fl, B: Order>'), ('where F: FileLike,', ''), ('FileParseError', 'WErr')], head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(40)]\n',
   spec='''requires old(file).g().at == 0, file_len == old(file).g().data.len(), file_len < 0x2000_0000_0000_0000,
    ensures final(file).g().data == old(file).g().data, final(file).g().faulty == old(file).g().faulty,
      r matches Ok(c) ==> 8 <= c.stream_length <= file_len && c.stream_length <= 0x1_0000_0007 && (c.existing_id3_tag matches Some(t) ==> 12 <= t.start && t.start + 8 <= t.end <= c.stream_length),
      (r is Ok && well::<B>(old(file).g().data)) ==> ({ let d = old(file).g().data; let c = r->Ok_0;
        &&& c.stream_length == end::<B>(d)
        &&& match c.existing_id3_tag { Some(t) => t.start < t.end && spot::<B>(d, t.start as int, t.end as int), None => spot::<B>(d, end::<B>(d), end::<B>(d)) } }),''',
   subs=[('re:\\.map_err\\(\\|e\\| handle_chunk_error\\(format, e\\)\\)', '', '*'), ('const FIRST_CHUNK_LEN: u64 = (IFF_CHUNK_HEADER_SIZE as u64) + 4;', 'let FIRST_CHUNK_LEN: u64 = (IFF_CHUNK_HEADER_SIZE as u64) + 4;'),
      ('re:let Some\\(first_chunk\\) = (.*?)\\s+else \\{(.*?)\\};', r'let first_chunk = match \1 { Some(c) => c, None => {\2} };'),
      ('re:while let Some\\(chunk\\) = (.*?)\\{', r'loop { let chunk = match \1 { Some(c) => c, None => { proof { if well::<B>(d) { let q = chunks.after(d); assert(end::<B>(d) - p == 0) by { if p < end::<B>(d) { assert(one::<B>(d, p, end::<B>(d))); } } } } break } };'),
      ('Chunks::<_, B>::new(', 'Chunks::new(', 2), ('re:chunks\\s*\\.next\\(', 'chunks.next::<F, B>(file, ', 2), ('chunks.skip()', 'chunks.skip(file)'), ('let file = chunks.into_inner();', ''),
      ('re:return Err\\(\\w+\\.into\\(\\)\\)', 'return Err(WErr {})', '*'), ('re:u64::from\\(', 'wide(', '*'), ('re:(context\\.stream_length)\\.saturating_sub\\(', r'sat_sub(\1, '),
      ('re:chunk\\.fourcc == (\\w+)', r'is_name(&chunk.fourcc, &\1)', 2)],
   ins=[('start', '', 'let ghost d = file.g().data; let ghost mut p: int = 12; proof { assert(d =~= old(file).g().data); if well::<B>(d) { assert(list::<B>(d, 12, 12)); } }'),
        ('before', 'if is_name(', 'let ghost q = p; proof { if well::<B>(d) { reveal_with_fuel(list, 2); reveal_with_fuel(tags, 2); assert(name(d, p) == chunk.fourcc@); assert(one::<B>(d, p, end::<B>(d))); p = past::<B>(d, q); '
          'if !is_tag(d, q) { assert(one::<B>(d, q, p)); assert(list::<B>(d, q, p)); join::<B>(d, 12, q, p); assert(tags::<B>(d, q, p) == Seq::<Seq<u8>>::empty()); } } }')],
   loops=['''invariant_except_break
        chunks.wf(), chunks.at@ == file.g().at, chunks.total == context.stream_length - 12 || chunks.total == 0, chunks.total <= context.stream_length,
        file.g().data == d, d == old(file).g().data, d.len() < 0x2000_0000_0000_0000, context.existing_id3_tag is None, context.stream_length <= d.len(), 8 <= context.stream_length <= 0x1_0000_0007, chunks.total > 0 ==> context.stream_length >= 12,
        FIRST_CHUNK_LEN == 12,
        file.g().faulty == old(file).g().faulty,
        well::<B>(d) ==> ({ let e = end::<B>(d); let a = chunks.after(d);
            context.stream_length == e && chunks.total == e - 12 && a.at == p && a.left == e - p && list::<B>(d, 12, p) && list::<B>(d, p, e) && tags::<B>(d, 12, p) == Seq::<Seq<u8>>::empty() }),
      ensures file.g().data == d, file.g().faulty == old(file).g().faulty, context.stream_length <= d.len(), 8 <= context.stream_length <= 0x1_0000_0007,
        (context.existing_id3_tag matches Some(t) ==> 12 <= t.start && t.start + 8 <= t.end <= context.stream_length),
        well::<B>(d) ==> ({ let e = end::<B>(d);
            context.stream_length == e && match context.existing_id3_tag { Some(t) => t.start < t.end && spot::<B>(d, t.start as int, t.end as int), None => spot::<B>(d, e, e) } }),
      decreases chunks.left@ ''']),
'''
fn write_u32<W: Fl, B: Order>(f: &mut W, n: u32) -> (r: Result<(), WErr>)
    ensures final(f).g().faulty == old(f).g().faulty,
        r is Ok ==> final(f).g().data == overwrite(old(f).g().data, old(f).g().at as int, b32::<B>(n)) && final(f).g().at == old(f).g().at + 4, r is Err ==> old(f).g().faulty || old(f).g().at + 4 >= 0x8000_0000_0000_0000
{ file_put32::<W, B>(f, n) }
''',
Fn(F, 'write_to_chunk_file', sig=[('<F, B>', '<F: Fl, B: Order>'), ('where F: FileLike, B: ByteOrder,', ''), ("file: VerifiedFile<'_, F>", 'file: &mut F, format: FileType'), ('FileEncodingError', 'WErr')], head='#[verifier::rlimit(60)]\n',
   spec='''requires old(file).g().at == 0, old(file).g().data.len() + tag@.len() < 0x1000_0000_0000_0000,
    ensures
      r is Err && !old(file).g().faulty ==> final(file).g().data == old(file).g().data,
      r is Ok && !old(file).g().faulty && well::<B>(old(file).g().data) && tags::<B>(old(file).g().data, 12, end::<B>(old(file).g().data)).len() <= 1 ==> saved::<B>(old(file).g().data, final(file).g().data, tag@),''',
   subs=[('re:\\(tag\\.len\\(\\) \\+ IFF_CHUNK_HEADER_SIZE as usize\\)\\s*\\.try_into\\(\\)\\s*\\.map_err\\(.*?\\)\\)\\?;', 'len_u64(tag.len() + IFF_CHUNK_HEADER_SIZE as usize)?;'), ('re:!tag\\.len\\(\\)\\.is_multiple_of\\(2\\)', '!even(tag.len())'),
      ('let format = file.format();', ''), ('let mut file = file.into_inner();', ''), ('find_existing_id3v2_tag::<_, B>(&mut file,', 'find_existing_id3v2_tag::<F, B>(file,'),
      ('re:file_context\\s*\\.existing_id3_tag\\s*\\.as_ref\\(\\)\\s*\\.map_or\\((.*?), \\|tag\\| (.*?)\\)', r'match &file_context.existing_id3_tag { Some(tag) => \2, None => \1 }'),
      ('file_context.existing_id3_tag.clone()', 'copy_range(&file_context.existing_id3_tag)'), ('re:u64::from\\(', 'wide(', '*'), ('u32::MAX', '0xffff_ffffu32', '*'),
      ('re:Err\\(TagEncodingError::new\\(.*?\\)\\.into\\(\\)\\)', 'Err(WErr {})', '*'),
      ('re:write_id3v2_chunk::<_, B>\\(tag, write_options, &mut file\\)', 'write_chunk_file::<F, B>(tag, write_options, file)', 2), ('re:write_id3v2_chunk::<_, B>\\(tag, write_options, &mut tag_bytes\\)', 'write_chunk_vec::<B>(tag, write_options, &mut tag_bytes)'),
      ('file.write_all(&JUNK_CHUNK_NAME)?', 'file_put4(file, &JUNK_CHUNK_NAME)?', 2), ('re:file\\.write_u32::<B>\\(', 'write_u32::<F, B>(file, ', 2),
      ('write_options.preferred_padding.is_some()', 'some(write_options.preferred_padding)'), ('re:format == FileType::Wav', 'is_wav(format)'),
      ('re:let mut file_bytes = Cursor::new\\(Vec::with_capacity\\((.*?) as usize\\)\\);', r'let mut file_bytes = vec_cap(\1 as usize);'), ('file.read_to_end(file_bytes.get_mut())?', 'read_to_end(file, &mut file_bytes)?'),
      ('re:file_bytes\\s*\\.get_mut\\(\\)\\s*\\.splice\\(\\s*(.*?)\\.\\.(.*?),\\s*(\\w+)\\.iter\\(\\)\\.copied\\(\\),?\\s*\\);', r'splice_in(&mut file_bytes, \1, \2, &\3);', '*'),
      ('re:file_bytes\\s*\\.get_mut\\(\\)\\s*\\.drain\\((.*?)\\.\\.(.*?)\\);', r'drain_out(&mut file_bytes, \1, \2);'),
      ('re:file_bytes\\.seek\\(SeekFrom::Start\\((\\d+)\\)\\)\\?;\\s*file_bytes\\.write_u32::<B>\\(', r'vec_at32::<B>(&mut file_bytes, \1, '), ('file.write_all(file_bytes.get_ref())?', 'file.write_all(file_bytes.as_slice())?'),
      ('re:(file_put4\\(file, &JUNK_CHUNK_NAME\\)\\?;\\s*)return', r'\1 proof { if !file.g().faulty && fits::<B>(d, s, x) { case_junk::<B>(d, s, x, tag@); } } return'),
      ('re:(write_u32::<F, B>\\(file, [^;]*remainder[^;]*;)', r'\1 proof { if !file.g().faulty && fits::<B>(d, s, x) { case_fit::<B>(d, s, x, tag@, up, (x - s - c.len() - 8) as u32); } }'),
      ('re:else if tag\\.is_empty\\(\\) \\{', r'else if tag.is_empty() { proof { if fits::<B>(d, s, x) { spotted::<B>(d, s, x); } }')],
   ins=[('start', '', 'let ghost d = file.g().data; let ghost e = end::<B>(d); let ghost up = write_options.uppercase_id3v2_chunk; let ghost c = bytes::<B>(up, tag@); let ghost ok = false; let ghost mut s: int = 0; let ghost mut x: int = 0; proof { b32_ok::<B>(tag.len() as u32); }'),
        ('before', 'let existing_tag_len', 'proof { match &file_context.existing_id3_tag { Some(t) => { s = t.start as int; x = t.end as int; } None => { s = file_context.stream_length as int; x = s; } } }'),
        ('after', 'let mut updated_stream_len = file_context.stream_length;', 'proof { assert(d.len() == x); }'),
        ('before', 'file.seek(SeekFrom::Start(4))?;', 'let ghost m = file.g().data; proof { if !file.g().faulty { assert(m =~= d.take(s) + c); if fits::<B>(d, s, x) { case_last::<B>(d, s, x, m, tag@, up, (updated_stream_len - 8) as u32); } } }'),
        ('before', 'splice_in(&mut', 'proof { assert(tag_bytes@ =~= c); assert(file_bytes@ =~= d); }'),
        ('before', 'if let Some(existing_id3_tag) = file_context.existing_id3_tag {', 'let ghost v = file_bytes@; proof { assert(v.len() == d.len() + c.len()); assert(v =~= v.take(x) + v.skip(x)); }'),
        ('before', 'file_context.stream_length += tag_chunk_size;', 'let ghost m = file_bytes@; proof { assert(m =~= v.take(s) + v.skip(x)); }'),
        ('before', 'file.rewind()?; file.truncate(0)?;', 'proof { b32_ok::<B>(((file_context.stream_length - 8) as u64) as u32); assert(file_bytes@ == overwrite(m, 4, b32::<B>(((file_context.stream_length - 8) as u64) as u32))); assert(file_bytes@.len() < 0x4000_0000_0000_0000); }'),
        ('after', 'file.write_all(file_bytes.as_slice())?;', 'proof { if !file.g().faulty { assert(file.g().data =~= file_bytes@); if fits::<B>(d, s, x) { case_rewrite::<B>(d, s, x, tag@, up, (e - (x - s) + c.len() - 8) as u32); } } }')]),
'''
fn some(o: Option<NonZero>) -> (r: bool) ensures r == (o is Some) { o.is_some() }
fn is_wav(f: FileType) -> (r: bool) ensures r == (f is Wav) { matches!(f, FileType::Wav) }
} // verus!
''']
