"""What the atoms of an MP4 file in memory are, and the contract of AtomInfo::read over it."""
import re
ASSUMED = ['Cursor<Vec<u8>>: the struct Buf of vlib/mp4.py (reads, writes, seeks and splices in memory of less than 2^63 bytes)',
           'AtomInfo::read: the contract proved in mp4_atom.py, over bytes in memory']
PRELUDE = '''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct E {}
impl E { fn new() -> (r: E) { E {} } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn target(to: SeekFrom, at: int, len: int) -> int {
    match to { SeekFrom::Start(p) => p as int, SeekFrom::End(d) => len + d, SeekFrom::Current(d) => at + d }
}
pub struct BigEndian;
pub open spec fn be32(s: Seq<u8>) -> u32 { (s[3] as u32) | ((s[2] as u32) << 8u32) | ((s[1] as u32) << 16u32) | ((s[0] as u32) << 24u32) }
pub open spec fn be64(s: Seq<u8>) -> u64 { (be32(s.skip(4)) as u64) | ((be32(s.take(4)) as u64) << 32u64) }
pub open spec fn be24(s: Seq<u8>) -> u32 { (s[2] as u32) | ((s[1] as u32) << 8u32) | ((s[0] as u32) << 16u32) }
pub uninterp spec fn p32(n: u32) -> Seq<u8>;
pub uninterp spec fn p64(n: u64) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn p32_ok(n: u32) ensures (#[trigger] p32(n)).len() == 4, be32(p32(n)) == n {}
#[verifier::external_body]
pub broadcast proof fn p64_ok(n: u64) ensures (#[trigger] p64(n)).len() == 8, be64(p64(n)) == n {}
/// bytes in memory, and the position in them
pub struct St { pub data: Seq<u8>, pub at: u64 }
/// d with b written at p
pub open spec fn over(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if p + b.len() <= d.len() { d.take(p) + b + d.skip(p + b.len() as int) }
    else if p <= d.len() { d.take(p) + b }
    else if b.len() == 0 { d }
    else { d + Seq::new((p - d.len()) as nat, |i: int| 0u8) + b }
}
pub open spec fn big(d: Seq<u8>) -> bool { d.len() >= 0x4000_0000_0000_0000 }
pub open spec fn cut(d: Seq<u8>, p: int, n: int) -> Seq<u8> { d.subrange(p, p + n) }
#[verifier::external_body]
pub struct Buf { b: std::io::Cursor<Vec<u8>> }
impl Buf {
    pub uninterp spec fn g(&self) -> St;
    #[verifier::external_body]
    pub fn over(v: Vec<u8>) -> (r: Buf) ensures r.g() == (St { data: v@, at: 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_contents(self) -> (r: Vec<u8>) ensures r@ == self.g().data { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.g().data.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: Result<u64, E>) ensures final(self).g() == old(self).g(), r == Ok::<u64, E>(old(self).g().at) { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: Result<(), E>) ensures final(self).g() == (St { at: 0, ..old(self).g() }), r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, E>)
        ensures final(self).g().data == old(self).g().data, ({ let t = target(to, old(self).g().at as int, old(self).g().data.len() as int);
            if 0 <= t <= 0xffff_ffff_ffff_ffff { r == Ok::<u64, E>(t as u64) && final(self).g().at == t } else { r is Err } }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u24<O>(&mut self) -> (r: Result<u32, E>)
        ensures final(self).g().data == old(self).g().data, r is Ok <==> old(self).g().at + 3 <= old(self).g().data.len(),
            r matches Ok(v) ==> v == be24(cut(old(self).g().data, old(self).g().at as int, 3)) && final(self).g().at == old(self).g().at + 3 { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32<O>(&mut self) -> (r: Result<u32, E>)
        ensures final(self).g().data == old(self).g().data, r is Ok <==> old(self).g().at + 4 <= old(self).g().data.len(),
            r matches Ok(v) ==> v == be32(cut(old(self).g().data, old(self).g().at as int, 4)) && final(self).g().at == old(self).g().at + 4 { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64<O>(&mut self) -> (r: Result<u64, E>)
        ensures final(self).g().data == old(self).g().data, r is Ok <==> old(self).g().at + 8 <= old(self).g().data.len(),
            r matches Ok(v) ==> v == be64(cut(old(self).g().data, old(self).g().at as int, 8)) && final(self).g().at == old(self).g().at + 8 { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact4(&mut self, b: &mut [u8; 4]) -> (r: Result<(), E>)
        ensures final(self).g().data == old(self).g().data, r is Ok <==> old(self).g().at + 4 <= old(self).g().data.len(),
            r is Ok ==> final(b)@ == cut(old(self).g().data, old(self).g().at as int, 4) && final(self).g().at == old(self).g().at + 4 { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u32<O>(&mut self, n: u32) -> (r: Result<(), E>)
        ensures r is Ok ==> final(self).g().data == over(old(self).g().data, old(self).g().at as int, p32(n)) && final(self).g().at == old(self).g().at + 4 { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64<O>(&mut self, n: u64) -> (r: Result<(), E>)
        ensures r is Ok ==> final(self).g().data == over(old(self).g().data, old(self).g().at as int, p64(n)) && final(self).g().at == old(self).g().at + 8 { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), E>)
        ensures r is Ok ==> final(self).g().data == over(old(self).g().data, old(self).g().at as int, b@) && final(self).g().at == old(self).g().at + b@.len() { unimplemented!() }
    /// Vec::insert, which panics behind the end
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, b: u8)
        requires i <= old(self).g().data.len()
        ensures final(self).g().data == old(self).g().data.insert(i as int, b), final(self).g().at == old(self).g().at { unimplemented!() }
    /// Vec::splice, which panics on ranges that are not in it
    #[verifier::external_body]
    pub fn splice(&mut self, range: core::ops::Range<usize>, new: Vec<u8>)
        requires range.start <= range.end <= old(self).g().data.len()
        ensures final(self).g().data == old(self).g().data.take(range.start as int) + new@ + old(self).g().data.skip(range.end as int), final(self).g().at == old(self).g().at { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
pub struct Text { pub raw: Ghost<Seq<u8>> }
pub enum AtomIdent { Fourcc([u8; 4]), Freeform { mean: Text, name: Text } }
pub open spec fn byte_ok(b: u8) -> bool { 0x20 <= b <= 0x7E || b == 0xA9 }
pub open spec fn ident_ok(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> byte_ok(#[trigger] b[i]) }
/// what ISO 14496-12 says the length of the atom at `p` is
pub open spec fn raw_len(d: Seq<u8>, p: int) -> u32 { be32(cut(d, p, 4)) }
pub open spec fn ident_at(d: Seq<u8>, p: int) -> Seq<u8> { cut(d, p + 4, 4) }
pub open spec fn ext(d: Seq<u8>, p: int) -> bool { raw_len(d, p) == 1 }
pub open spec fn hdr(d: Seq<u8>, p: int) -> int { if ext(d, p) { 16 } else { 8 } }
pub open spec fn len_at(d: Seq<u8>, p: int) -> int {
    if raw_len(d, p) == 0 { d.len() - p } else if ext(d, p) { be64(cut(d, p + 8, 8)) as int } else { raw_len(d, p) as int }
}
/// an atom that fits into `size` bytes
pub open spec fn fits(d: Seq<u8>, p: int, size: int) -> bool { p + hdr(d, p) <= d.len() && ident_ok(ident_at(d, p)) && hdr(d, p) <= len_at(d, p) <= size }
pub open spec fn is_named(i: AtomIdent, n: Seq<u8>) -> bool { i matches AtomIdent::Fourcc(f) && f@ == n }
pub open spec fn dashes() -> Seq<u8> { seq![0x2du8, 0x2d, 0x2d, 0x2d] }
/// `a` is the atom at `p`
pub open spec fn is_atom(d: Seq<u8>, p: int, a: AtomInfo) -> bool {
    &&& 0 <= p && a.start == p && a.len == len_at(d, p) && a.extended == ext(d, p) && hdr(d, p) <= a.len && p + a.len <= d.len()
    &&& match a.ident { AtomIdent::Fourcc(f) => f@ == ident_at(d, p) && f@ != dashes(), _ => ident_at(d, p) == dashes() }
}
'''
NAMES = ['moov', 'udta', 'trak', 'mdia', 'minf', 'stbl', 'moof', 'traf', 'meta', 'ilst', 'free', 'stco', 'co64', 'tfhd']
def seq(n): return 'seq![' + ', '.join(f'{ord(c):#x}u8' for c in n) + ']'
for _n in NAMES:
    PRELUDE += f'''pub open spec fn {_n}_() -> Seq<u8> {{ {seq(_n)} }}
#[verifier::external_body]
fn lit_{_n}() -> (r: [u8; 4]) ensures r@ == {_n}_() {{ *b"{_n}" }}
'''
PRELUDE += '#[verifier::external_body]\nfn lit_ilst_slice() -> (r: &\'static [u8]) ensures r@ == ilst_() { b"ilst" }\n'
PRELUDE += 'pub proof fn names() ensures\n' + ''.join(f'    {a}_() != {b}_(),\n' for i, a in enumerate(NAMES) for b in NAMES[i + 1:]) + ''.join(f'    {a}_() != dashes(),\n' for a in NAMES) + '{\n' \
  + ''.join(f'    assert({a}_() =~= {seq(a)});\n' for a in NAMES) \
  + ''.join(f'    assert({a}_()[{next(k for k in range(4) if a[k] != b[k])}] != {b}_()[{next(k for k in range(4) if a[k] != b[k])}]);\n' for i, a in enumerate(NAMES) for b in NAMES[i + 1:]) \
  + ''.join(f'    assert({a}_()[0] != dashes()[0]);\n' for a in NAMES) + '}\n'
READ = '''
impl AtomInfo {
    #[verifier::external_body]
    fn read(reader: &mut Buf, reader_size: u64, parse_mode: ParsingMode) -> (r: Result<Option<AtomInfo>, E>)
        requires old(reader).g().data.len() < 0x8000_0000_0000_0000,
        ensures final(reader).g().data == old(reader).g().data,
            r matches Ok(Some(a)) ==> ({ let d = old(reader).g().data; let p = old(reader).g().at as int;
                &&& fits(d, p, reader_size as int) && a.start == p && a.len == len_at(d, p) && a.extended == ext(d, p)
                &&& match a.ident { AtomIdent::Fourcc(f) => f@ == ident_at(d, p) && f@ != dashes() && final(reader).g().at == p + hdr(d, p), _ => ident_at(d, p) == dashes() } }),
            r matches Ok(None) ==> !fits(old(reader).g().data, old(reader).g().at as int, reader_size as int),
            r is Err ==> !fits(old(reader).g().data, old(reader).g().at as int, reader_size as int) || ident_at(old(reader).g().data, old(reader).g().at as int) == dashes(),
    { unimplemented!() }
'''
# what the functions of a file are given: the buffer itself
GEN = [('re:<R>', '')]


def containers(Src, Lost):
    """IMPORTANT_CONTAINERS as a predicate"""
    t = Src('lofty/src/mp4/write.rs').text
    m = re.search(r'const IMPORTANT_CONTAINERS: &\[\[u8; 4\]\] = &\[(.*?)\];', t, re.S)
    if not m:
        raise Lost('IMPORTANT_CONTAINERS')
    l = re.findall(r'\*b"(.{4})"', m.group(1))
    return 'pub open spec fn is_container(n: Seq<u8>) -> bool { ' + ' || '.join(f'n == {seq(x)}' for x in l) + ' }\n'


TREE = '''
pub struct ContextualAtom { pub info: AtomInfo, pub children: Vec<ContextualAtom> }
/// where the atom behind the first `i` is
pub open spec fn pos(v: Seq<ContextualAtom>, p: int, i: int) -> int { if i == 0 { p } else { v[i - 1].info.start + v[i - 1].info.len } }
/// `a` is the atom at `p`, with all of the atoms in it when it is a container
pub open spec fn shape(d: Seq<u8>, p: int, a: ContextualAtom) -> bool decreases a {
    &&& is_atom(d, p, a.info)
    &&& if (a.info.ident matches AtomIdent::Fourcc(f) && is_container(f@)) {
            (forall|i: int| 0 <= i < a.children@.len() ==> shape(d, pos(a.children@, p + hdr(d, p), i), #[trigger] a.children@[i]))
            && pos(a.children@, p + hdr(d, p), a.children@.len() as int) == p + a.info.len
        } else { a.children@.len() == 0 }
}
/// the atoms of `v` fill the bytes from `p` to `end`
pub open spec fn chain(d: Seq<u8>, p: int, end: int, v: Seq<ContextualAtom>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> shape(d, pos(v, p, i), #[trigger] v[i])) && pos(v, p, v.len() as int) == end
}
/// the atoms named `x` among the ones of `v` from `i` on, and in them
pub open spec fn coll(v: Vec<ContextualAtom>, i: int, x: Seq<u8>, deep: bool) -> Seq<AtomInfo> decreases v, v@.len() - i {
    if i < 0 || i >= v@.len() { seq![] }
    else if is_named(v@[i].info.ident, x) { seq![v@[i].info] + coll(v, i + 1, x, deep) }
    else if v@[i].info.ident is Fourcc && deep { coll(v@[i].children, 0, x, deep) + coll(v, i + 1, x, deep) }
    else { coll(v, i + 1, x, deep) }
}
'''
