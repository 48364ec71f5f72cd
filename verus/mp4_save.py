"""Saving a tag into an MP4 file: reading its atoms, moving the offsets of its media data, replacing the tag."""
import re
import mp4
A = 'lofty/src/mp4/atom_info.rs'
W = 'lofty/src/mp4/write.rs'
R = 'lofty/src/mp4/read/mod.rs'
ASSUMED = mp4.ASSUMED + ['slice::Iter: a vector and an index (struct Iter)', 'that AtomFindAll::next returns (its recursion goes into the children of an atom)']
DROPS = ['errors carry nothing', 'readers are the buffer in memory', 'slices of byte strings are compared by contracted functions']
MSG = r're:AtomParseError::message\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)'
GEN = [('R: Read + Seek', 'Buf: Sized'), ('reader: &mut R', 'reader: &mut Buf')]


def sig(name, err='AtomParseError'):
    return [('fn %s<R>' % name, 'fn ' + name), ('reader: &mut R', 'reader: &mut Buf'), ('where R: Read + Seek,', ''), (err, 'E')]


NOW = 'old(reader).g().data.len() < 0x8000_0000_0000_0000'
LEMMAS = '''
pub open spec fn ones(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 1u8) }
/// a `free` atom of `n` bytes
pub open spec fn free_atom(n: int) -> Seq<u8> { p32(n as u32) + free_() + ones(n - 8) }
/// an offset, after everything from `at` on has moved by `diff`
pub open spec fn mv(v: int, at: int, diff: int) -> int { if v < at { v } else { v + diff } }
pub open spec fn dec(s: Seq<u8>, w: int) -> int { if w == 4 { be32(s) as int } else { be64(s) as int } }
pub open spec fn enc(v: int, w: int) -> Seq<u8> { if w == 4 { p32(v as u32) } else { p64(v as u64) } }
pub open spec fn mv_entry(s: Seq<u8>, o: int, w: int, at: int, diff: int) -> Seq<u8> {
    if dec(cut(s, o, w), w) < at { s } else { over(s, o, enc(dec(cut(s, o, w), w) + diff, w)) }
}
/// `s` with the first `n` of its offsets moved, which are `w` bytes wide and start at `o`
pub open spec fn tab(s: Seq<u8>, o: int, w: int, n: int, at: int, diff: int) -> Seq<u8> decreases n {
    if n <= 0 { s } else { mv_entry(tab(s, o, w, n - 1, at, diff), o + w * (n - 1), w, at, diff) }
}
/// the kinds of atoms that hold offsets into the file (ISO 14496-12 8.7.5, 8.8.7)
pub enum Kind { Stco, Co64, Tfhd }
pub open spec fn name_of(k: Kind) -> Seq<u8> { match k { Kind::Stco => stco_(), Kind::Co64 => co64_(), Kind::Tfhd => tfhd_() } }
pub open spec fn head(s: Seq<u8>) -> int { if be32(cut(s, 0, 4)) == 1 { 16 } else { 8 } }
/// where the offsets of an atom start, how wide and how many they are; `s` is the whole atom
pub open spec fn first_at(k: Kind, s: Seq<u8>) -> int { if k is Tfhd { 16 } else { head(s) + 8 } }
pub open spec fn width(k: Kind) -> int { if k is Stco { 4 } else { 8 } }
pub open spec fn how_many(k: Kind, s: Seq<u8>) -> int { if k is Tfhd { if be24(cut(s, 9, 3)) & 1 != 0 { 1 } else { 0 } } else { be32(cut(s, head(s) + 4, 4)) as int } }
pub open spec fn moved_atom(k: Kind, s: Seq<u8>, at: int, diff: int) -> Seq<u8> { tab(s, first_at(k, s), width(k), how_many(k, s), at, diff) }
/// the offsets are all in the atom
pub open spec fn holds(k: Kind, s: Seq<u8>) -> bool { head(s) + 8 <= s.len() && (k is Tfhd ==> s.len() >= 16) && first_at(k, s) + width(k) * how_many(k, s) <= s.len() }
pub open spec fn body(d: Seq<u8>, a: AtomInfo) -> Seq<u8> { cut(d, a.start as int, a.len as int) }
pub open spec fn apart(a: AtomInfo, b: AtomInfo) -> bool { a.start + a.len <= b.start || b.start + b.len <= a.start }
pub open spec fn inside(d: Seq<u8>, l: Seq<AtomInfo>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).start + l[i].len <= d.len() }
pub open spec fn apart1(l: Seq<AtomInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> apart(#[trigger] l[i], #[trigger] l[j]) }
pub open spec fn apart2(l: Seq<AtomInfo>, m: Seq<AtomInfo>) -> bool { forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < m.len() ==> apart(#[trigger] l[i], #[trigger] m[j]) }
pub open spec fn whole(d: Seq<u8>, k: Kind, l: Seq<AtomInfo>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).start + l[i].len <= d.len() && holds(k, body(d, l[i])) && l[i].extended == (head(body(d, l[i])) == 16)
}
/// byte `b` is in none of the first `n` atoms of `l`
pub open spec fn outside(l: Seq<AtomInfo>, n: int, b: int) -> bool { forall|i: int| 0 <= i < n ==> b < (#[trigger] l[i]).start || b >= l[i].start + l[i].len }
/// `d1` is `d` with the offsets in the first `n` atoms of `l` moved, and nothing else changed
pub open spec fn pass(d: Seq<u8>, d1: Seq<u8>, k: Kind, l: Seq<AtomInfo>, n: int, at: int, diff: int) -> bool {
    &&& d1.len() == d.len()
    &&& forall|i: int| 0 <= i < n ==> body(d1, #[trigger] l[i]) == moved_atom(k, body(d, l[i]), at, diff)
    &&& forall|b: int| 0 <= b < d.len() && outside(l, n, b) ==> #[trigger] d1[b] == d[b]
}
proof fn tab_len(s: Seq<u8>, o: int, w: int, n: int, at: int, diff: int)
    requires 0 <= o, o + w * n <= s.len(), w == 4 || w == 8,
    ensures tab(s, o, w, n, at, diff).len() == s.len(),
        forall|b: int| 0 <= b < s.len() && (b < o || b >= o + w * n) ==> #[trigger] tab(s, o, w, n, at, diff)[b] == s[b],
    decreases n
{
    broadcast use p32_ok, p64_ok;
    if n > 0 { assert(w * (n - 1) == w * n - w) by (nonlinear_arith); tab_len(s, o, w, n - 1, at, diff); }
}
/// one more offset moved
proof fn tab_step(s: Seq<u8>, o: int, w: int, n: int, at: int, diff: int)
    requires 0 <= o, o + w * (n + 1) <= s.len(), w == 4 || w == 8, n >= 0,
    ensures cut(tab(s, o, w, n, at, diff), o + w * n, w) =~= cut(s, o + w * n, w),
{
    assert(w * (n + 1) == w * n + w) by (nonlinear_arith);
    assert(w * n >= 0) by (nonlinear_arith) requires w > 0, n >= 0;
    tab_len(s, o, w, n, at, diff);
}
/// an atom's bytes, in the bytes around it
proof fn over_in(d: Seq<u8>, a: AtomInfo, p: int, x: Seq<u8>)
    requires a.start <= p, p + x.len() <= a.start + a.len, a.start + a.len <= d.len(),
    ensures body(over(d, p, x), a) =~= over(body(d, a), p - a.start, x), over(d, p, x).len() == d.len(),
        forall|b: int| 0 <= b < d.len() && (b < a.start || b >= a.start + a.len) ==> #[trigger] over(d, p, x)[b] == d[b],
{}
proof fn cut_in(d: Seq<u8>, a: AtomInfo, p: int, n: int)
    requires a.start <= p, 0 <= n, p + n <= a.start + a.len, a.start + a.len <= d.len(),
    ensures cut(d, p, n) =~= cut(body(d, a), p - a.start, n),
{}
proof fn pass_step(d: Seq<u8>, d1: Seq<u8>, d2: Seq<u8>, k: Kind, l: Seq<AtomInfo>, n: int, at: int, diff: int)
    requires pass(d, d1, k, l, n, at, diff), 0 <= n < l.len(), apart1(l), whole(d, k, l), d2.len() == d.len(),
        body(d2, l[n]) == moved_atom(k, body(d1, l[n]), at, diff),
        forall|b: int| 0 <= b < d.len() && (b < l[n].start || b >= l[n].start + l[n].len) ==> #[trigger] d2[b] == d1[b],
    ensures pass(d, d2, k, l, n + 1, at, diff),
{
    let a = l[n];
    assert(body(d1, a) =~= body(d, a)) by {
        assert forall|b: int| a.start <= b < a.start + a.len implies d1[b] == d[b] by { assert(outside(l, n, b)) by { assert forall|i: int| 0 <= i < n implies b < (#[trigger] l[i]).start || b >= l[i].start + l[i].len by { assert(apart(l[i], l[n])); } } }
    }
    assert forall|i: int| 0 <= i < n + 1 implies body(d2, #[trigger] l[i]) == moved_atom(k, body(d, l[i]), at, diff) by {
        if i < n { assert(apart(l[i], l[n])); assert(body(d2, l[i]) =~= body(d1, l[i])); }
    }
    assert forall|b: int| 0 <= b < d.len() && outside(l, n + 1, b) implies #[trigger] d2[b] == d[b] by { assert(b < l[n].start || b >= l[n].start + l[n].len); assert(outside(l, n, b)); }
}
/// in bytes that differ from `d` outside of `m` only, the atoms of `m` are as whole
proof fn whole_kept(d: Seq<u8>, d1: Seq<u8>, k: Kind, l: Seq<AtomInfo>, k2: Kind, m: Seq<AtomInfo>, at: int, diff: int)
    requires pass(d, d1, k, l, l.len() as int, at, diff), apart2(l, m), whole(d, k2, m),
    ensures whole(d1, k2, m), forall|j: int| 0 <= j < m.len() ==> body(d1, #[trigger] m[j]) == body(d, m[j]),
{
    assert forall|j: int| 0 <= j < m.len() implies body(d1, #[trigger] m[j]) == body(d, m[j]) by {
        let a = m[j];
        assert forall|b: int| a.start <= b < a.start + a.len implies d1[b] == d[b] by { assert(outside(l, l.len() as int, b)) by { assert forall|i: int| 0 <= i < l.len() implies b < (#[trigger] l[i]).start || b >= l[i].start + l[i].len by { assert(apart(l[i], m[j])); } } }
        assert(body(d1, a) =~= body(d, a));
    }
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).start + m[i].len <= d1.len() && holds(k2, body(d1, m[i])) && m[i].extended == (head(body(d1, m[i])) == 16) by { assert(body(d1, m[i]) == body(d, m[i])); }
}
/// the atoms with offsets that are in the file
pub struct Tables { pub s: Seq<AtomInfo>, pub c: Seq<AtomInfo>, pub t: Seq<AtomInfo> }
pub open spec fn tfhds(v: Vec<ContextualAtom>, i: int) -> Seq<AtomInfo> decreases v@.len() - i {
    if i < 0 || i >= v@.len() { seq![] }
    else if is_named(v@[i].info.ident, moof_()) { coll(v@[i].children, 0, tfhd_(), true) + tfhds(v, i + 1) }
    else { tfhds(v, i + 1) }
}
pub open spec fn tables(v: Vec<ContextualAtom>, moov: ContextualAtom) -> Tables { Tables { s: coll(moov.children, 0, stco_(), true), c: coll(moov.children, 0, co64_(), true), t: tfhds(v, 0) } }
pub open spec fn tables_ok(d: Seq<u8>, x: Tables) -> bool {
    whole(d, Kind::Stco, x.s) && whole(d, Kind::Co64, x.c) && whole(d, Kind::Tfhd, x.t) && apart1(x.s) && apart1(x.c) && apart1(x.t) && apart2(x.s, x.c) && apart2(x.s, x.t) && apart2(x.c, x.t)
}
pub open spec fn in_none(x: Tables, b: int) -> bool { outside(x.s, x.s.len() as int, b) && outside(x.c, x.c.len() as int, b) && outside(x.t, x.t.len() as int, b) }
/// every offset of the tables is moved, and nothing else
pub open spec fn moved_all(d: Seq<u8>, d1: Seq<u8>, x: Tables, at: int, diff: int) -> bool {
    &&& d1.len() == d.len()
    &&& forall|i: int| 0 <= i < x.s.len() ==> body(d1, #[trigger] x.s[i]) == moved_atom(Kind::Stco, body(d, x.s[i]), at, diff)
    &&& forall|i: int| 0 <= i < x.c.len() ==> body(d1, #[trigger] x.c[i]) == moved_atom(Kind::Co64, body(d, x.c[i]), at, diff)
    &&& forall|i: int| 0 <= i < x.t.len() ==> body(d1, #[trigger] x.t[i]) == moved_atom(Kind::Tfhd, body(d, x.t[i]), at, diff)
    &&& forall|b: int| 0 <= b < d.len() && in_none(x, b) ==> #[trigger] d1[b] == d[b]
}
proof fn passes(d: Seq<u8>, d1: Seq<u8>, d2: Seq<u8>, d3: Seq<u8>, x: Tables, at: int, diff: int)
    requires tables_ok(d, x), pass(d, d1, Kind::Stco, x.s, x.s.len() as int, at, diff), pass(d1, d2, Kind::Co64, x.c, x.c.len() as int, at, diff), pass(d2, d3, Kind::Tfhd, x.t, x.t.len() as int, at, diff),
    ensures moved_all(d, d3, x, at, diff),
{
    whole_kept(d, d1, Kind::Stco, x.s, Kind::Co64, x.c, at, diff);
    whole_kept(d, d1, Kind::Stco, x.s, Kind::Tfhd, x.t, at, diff);
    whole_kept(d1, d2, Kind::Co64, x.c, Kind::Tfhd, x.t, at, diff);
    assert forall|i: int| 0 <= i < x.s.len() implies body(d3, #[trigger] x.s[i]) == moved_atom(Kind::Stco, body(d, x.s[i]), at, diff) by {
        let a = x.s[i];
        assert forall|b: int| a.start <= b < a.start + a.len implies d3[b] == d1[b] by {
            assert(outside(x.c, x.c.len() as int, b)) by { assert forall|j: int| 0 <= j < x.c.len() implies b < (#[trigger] x.c[j]).start || b >= x.c[j].start + x.c[j].len by { assert(apart(x.s[i], x.c[j])); } }
            assert(outside(x.t, x.t.len() as int, b)) by { assert forall|j: int| 0 <= j < x.t.len() implies b < (#[trigger] x.t[j]).start || b >= x.t[j].start + x.t[j].len by { assert(apart(x.s[i], x.t[j])); } }
            assert(d2[b] == d1[b]); assert(d3[b] == d2[b]);
        }
        assert(body(d3, a) =~= body(d1, a));
    }
    assert forall|i: int| 0 <= i < x.c.len() implies body(d3, #[trigger] x.c[i]) == moved_atom(Kind::Co64, body(d, x.c[i]), at, diff) by {
        let a = x.c[i];
        assert forall|b: int| a.start <= b < a.start + a.len implies d3[b] == d2[b] by {
            assert(outside(x.t, x.t.len() as int, b)) by { assert forall|j: int| 0 <= j < x.t.len() implies b < (#[trigger] x.t[j]).start || b >= x.t[j].start + x.t[j].len by { assert(apart(x.c[i], x.t[j])); } }
        }
        assert(body(d3, a) =~= body(d2, a));
    }
    assert forall|i: int| 0 <= i < x.t.len() implies body(d3, #[trigger] x.t[i]) == moved_atom(Kind::Tfhd, body(d, x.t[i]), at, diff) by { assert(body(d2, x.t[i]) == body(d1, x.t[i])); }
    assert forall|b: int| 0 <= b < d.len() && in_none(x, b) implies #[trigger] d3[b] == d[b] by { assert(d1[b] == d[b]); assert(d2[b] == d1[b]); }
}
'''

HANDLE = [('re:let mut write_handle = (?:atom_)?writer\\.start_write\\(\\);', '', '*'), ('re:drop\\(write_handle\\);', '', '*')]


def table(kind, f, w, o):
    '''one pass over the atoms of a kind: the loop over them, and the one over their offsets'''
    outer = f'''invariant good(it_{kind}), todo(it_{kind}) =~= x.{f}.skip(k{f}), 0 <= k{f} <= x.{f}.len(), tables_ok(d0, x), whole(D{f}, Kind::{kind}, x.{f}), apart1(x.{f}),
        pass(D{f}, write_handle.g().data, Kind::{kind}, x.{f}, k{f}, at, diff), D{f}.len() == d0.len(), d0.len() < 0x4000_0000_0000_0000, at == ilst_offset, diff == difference, -0x4000_0000_0000_0000 < difference < 0x4000_0000_0000_0000,
      ensures k{f} == x.{f}.len(),
      decreases x.{f}.len() - k{f}'''
    inner = f'''invariant i_ <= count, count == how_many(Kind::{kind}, s), holds(Kind::{kind}, s), s.len() == a.len, a.start + a.len <= dk.len(), dk.len() < 0x4000_0000_0000_0000, at == ilst_offset, diff == difference, -0x4000_0000_0000_0000 < difference < 0x4000_0000_0000_0000, {o} == first_at(Kind::{kind}, s),
        write_handle.g().data.len() == dk.len(), write_handle.g().at == a.start + {o} + {w} * i_, body(write_handle.g().data, a) =~= tab(s, {o}, {w}, i_ as int, at, diff),
        forall|b: int| 0 <= b < dk.len() && (b < a.start || b >= a.start + a.len) ==> #[trigger] write_handle.g().data[b] == dk[b],
      decreases count - i_'''
    return outer, inner


STEP = '''proof { tab_step(s, O, W, i_ as int - 1, at, diff); tab_len(s, O, W, i_ as int - 1, at, diff); cut_in(write_handle.g().data, a, a.start + O + W * (i_ - 1), W); broadcast use p32_ok, p64_ok; reveal_with_fuel(tab, 2); }'''
BEGIN = '''let ghost a = *NAME; let ghost dk = write_handle.g().data; let ghost s = body(dk, a);
   proof { assert(a == x.F[kF]); assert(apart1(x.F)); assert(s =~= body(DF, a)) by { assert forall|b: int| a.start <= b < a.start + a.len implies dk[b] == DF[b] by { assert(outside(x.F, kF, b)) by { assert forall|i: int| 0 <= i < kF implies b < (#[trigger] x.F[i]).start || b >= x.F[i].start + x.F[i].len by { assert(apart(x.F[i], x.F[kF])); } } } }
     assert(holds(Kind::KIND, s)); cut_in(dk, a, a.start as int, 4); cut_in(dk, a, a.start + head(s) + 4, 4); }'''
END = '''proof { pass_step(DF, dk, write_handle.g().data, Kind::KIND, x.F, kF, at, diff); kF = kF + 1; }'''


def fill(t, **k):
    for n, v in k.items():
        t = re.sub(r'(?<![A-Za-z])%s(?![a-z_])' % n if n in ('O', 'W') else n, str(v), t)
    return t


def begin(name, f, kind): return BEGIN.replace('NAME', name).replace('KIND', kind).replace('kF', 'k' + f).replace('DF', 'D' + f).replace('.F', '.' + f)
def end(f, kind): return END.replace('KIND', kind).replace('kF', 'k' + f).replace('DF', 'D' + f).replace('.F', '.' + f)
def step(o, w): return re.sub(r'\bO\b', o, re.sub(r'\bW\b', w, STEP))


def over_step(o, w, var='new_offset'):
    return f'''proof {{ over_in(dn, a, a.start + {o} + {w} * (i_ - 1), p{'32' if w == '4' else '64'}({var})); }}'''


CO = '(head(s) + 8)'


def nth(*l):
    """the replacements of the first, second, ... match"""
    state = {}
    def f(m):
        # a fresh run over a text starts again at the first
        if state.get('s') is not m.string: state.update(s=m.string, n=0)
        state['n'] += 1
        return l[state['n'] - 1]
    return f


OFFSETS = [
'''
fn to_u32(n: i64) -> (r: Result<u32, E>) ensures r matches Ok(v) ==> v == n { if n >= 0 && n <= 0xffff_ffff { Ok(n as u32) } else { Err(E {}) } }
fn add_signed(a: u64, b: i64) -> (r: Result<u64, E>) ensures r matches Ok(v) ==> v == a + b
{ let n = a as i128 + b as i128; if n >= 0 && n <= 0xffff_ffff_ffff_ffff { Ok(n as u64) } else { Err(E {}) } }
''',
Fn('lofty/src/mp4/ilst/write.rs', 'update_offsets', sig=[('writer: &AtomWriter', 'write_handle: &mut Buf, atoms: &Vec<ContextualAtom>'), ('FileEncodingError', 'E')], spec='''
    requires tables_ok(old(write_handle).g().data, tables(*atoms, *moov)), old(write_handle).g().data.len() < 0x4000_0000_0000_0000, -0x4000_0000_0000_0000 < difference < 0x4000_0000_0000_0000,
    ensures r is Ok ==> moved_all(old(write_handle).g().data, final(write_handle).g().data, tables(*atoms, *moov), ilst_offset as int, difference as int),''',
  subs=HANDLE + [('re:return Err\\(FileParseError::from\\(AtomParseError::message\\(.*?\\)\\)\\s*\\.into\\(\\)\\);', 'return Err(E::new());', 2),
    ('re:u32::try_from\\(([^;]*?)\\)\\s*\\.map_err\\(\\|_\\| TooMuchDataError\\)\\?', r'to_u32(\1)?'),
    ('re:read_offset\\s*\\.checked_add_signed\\(difference\\)\\s*\\.ok_or\\(TooMuchDataError\\)\\?', 'add_signed(read_offset, difference)?', 2),
    ('re:i64::from\\(read_offset\\)', '(read_offset as i64)'), ('re:u64::from\\(read_offset\\)', '(read_offset as u64)'),
    ('re:for stco in moov\\.find_all_children\\(\\*b"stco", true\\) \\{', 'let ghost Ds = write_handle.g().data; let ghost mut ks: int = 0; let mut it_Stco = moov.find_all_children(lit_stco(), true); loop { let stco = match it_Stco.next() { Some(a) => a, None => break }; proof { assert(*stco == x.s.skip(ks)[0]); } ' + begin('stco', 's', 'Stco')),
    ('re:for co64 in moov\\.find_all_children\\(\\*b"co64", true\\) \\{', 'let ghost Dc = write_handle.g().data; let ghost mut kc: int = 0; proof { whole_kept(d0, Dc, Kind::Stco, x.s, Kind::Co64, x.c, at, diff); whole_kept(d0, Dc, Kind::Stco, x.s, Kind::Tfhd, x.t, at, diff); } let mut it_Co64 = moov.find_all_children(lit_co64(), true); loop { let co64 = match it_Co64.next() { Some(a) => a, None => break }; proof { assert(*co64 == x.c.skip(kc)[0]); } ' + begin('co64', 'c', 'Co64')),
    ('re:let tfhds = writer\\s*\\.find_contextual_atoms\\(\\*b"moof"\\)\\s*\\.flat_map\\(\\|moof\\| moof\\.find_all_children\\(\\*b"tfhd", true\\)\\);\\s*for tfhd in tfhds (\\{.*\\})(?=\\s*Ok\\(\\(\\)\\))', r'''let ghost Dt = write_handle.g().data; let ghost mut kt: int = 0; let mut m: usize = 0; proof { assert(x.t.skip(0) =~= x.t); }
      proof { whole_kept(Dc, Dt, Kind::Co64, x.c, Kind::Tfhd, x.t, at, diff); }
      while m < atoms.len() { let moof = &atoms[m]; proof { assert(tfhds(*atoms, m as int) =~= (if is_named(moof.info.ident, moof_()) { coll(moof.children, 0, tfhd_(), true) } else { seq![] }) + tfhds(*atoms, m + 1)); } m = m + 1; if named(&moof.info.ident, &lit_moof()) {
        let mut it_Tfhd = moof.find_all_children(lit_tfhd(), true); loop { let ghost tt = todo(it_Tfhd); let tfhd = match it_Tfhd.next() { Some(a) => a, None => break }; proof { assert(*tfhd == tt[0]); assert((tt + tfhds(*atoms, m as int)).len() > 0); assert((tt + tfhds(*atoms, m as int))[0] == x.t.skip(kt)[0]); assert(x.t.skip(kt).skip(1) =~= x.t.skip(kt + 1)); assert((tt + tfhds(*atoms, m as int)).skip(1) =~= tt.skip(1) + tfhds(*atoms, m as int)); } ''' + begin('tfhd', 't', 'Tfhd') + r''' let ghost i_: int = 1; \1 } } } proof { assert(x.t.skip(kt).len() == 0); passes(d0, Dc, Dt, write_handle.g().data, x, at, diff); }'''),
    ('re:for _ in 0\\.\\.count \\{', 'let mut i_: u32 = 0; while i_ < count { i_ = i_ + 1;', 2),
    ('re:let read_offset = write_handle\\.read_u32::<BigEndian>\\(\\)\\?;', step('16', '4') + 'let read_offset = write_handle.read_u32::<BigEndian>()?;'),
    ('re:let read_offset = write_handle\\.read_u64::<BigEndian>\\(\\)\\?;', nth(step(CO, '8') + 'let read_offset = write_handle.read_u64::<BigEndian>()?;', step('16', '8') + 'let read_offset = write_handle.read_u64::<BigEndian>()?;'), 2),
    ('re:write_handle\\.write_u64::<BigEndian>\\(new_offset\\)\\?;\\s*\\}', nth('let ghost dn = write_handle.g().data; write_handle.write_u64::<BigEndian>(new_offset)?;' + over_step(CO, '8') + '}' + end('c', 'Co64'),
      'let ghost dn = write_handle.g().data; write_handle.write_u64::<BigEndian>(new_offset)?;' + over_step('16', '8') + '}' + end('t', 'Tfhd')), 2),
    ('re:if read_offset < ilst_offset \\{\\s*continue;\\s*\\}', nth('if read_offset < ilst_offset { continue; }', 'if read_offset < ilst_offset {' + end('t', 'Tfhd') + ' continue; }'), 2),
    ('re:write_handle\\.write_u32::<BigEndian>\\(new_offset\\)\\?;\\s*\\}', 'let ghost dn = write_handle.g().data; write_handle.write_u32::<BigEndian>(new_offset)?;' + over_step('16', '4') + '}' + end('s', 'Stco')),
  ],
  loops=[table('Stco', 's', 4, '16')[0], table('Stco', 's', 4, '16')[1], table('Co64', 'c', 8, '(head(s) + 8)')[0], table('Co64', 'c', 8, '(head(s) + 8)')[1],
    '''invariant m <= atoms@.len(), x.t.skip(kt) == tfhds(*atoms, m as int), 0 <= kt <= x.t.len(), whole(Dt, Kind::Tfhd, x.t), pass(Dt, write_handle.g().data, Kind::Tfhd, x.t, kt, at, diff), Dt.len() == d0.len(), d0.len() < 0x4000_0000_0000_0000, apart1(x.t), x == tables(*atoms, *moov), at == ilst_offset, diff == difference, -0x4000_0000_0000_0000 < difference < 0x4000_0000_0000_0000,
      decreases atoms@.len() - m''',
    '''invariant good(it_Tfhd), m <= atoms@.len(), todo(it_Tfhd) + tfhds(*atoms, m as int) == x.t.skip(kt), 0 <= kt <= x.t.len(), whole(Dt, Kind::Tfhd, x.t), pass(Dt, write_handle.g().data, Kind::Tfhd, x.t, kt, at, diff), Dt.len() == d0.len(), d0.len() < 0x4000_0000_0000_0000, apart1(x.t), x == tables(*atoms, *moov), at == ilst_offset, diff == difference, -0x4000_0000_0000_0000 < difference < 0x4000_0000_0000_0000,
      ensures x.t.skip(kt) == tfhds(*atoms, m as int),
      decreases x.t.len() - kt'''],
  ins=[('start', '', 'let ghost d0 = write_handle.g().data; let ghost x = tables(*atoms, *moov); let ghost at = ilst_offset as int; let ghost diff = difference as int;')]),
]

IW = 'lofty/src/mp4/ilst/write.rs'
HELPERS = ['''
#[verifier::external_body]
fn ones_vec(n: usize) -> (r: Result<Vec<u8>, E>) ensures r matches Ok(v) ==> v@ == ones(n as int) { unimplemented!() }
proof fn over2(d: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    requires 0 <= p <= d.len(),
    ensures over(over(d, p, x), p + x.len(), y) =~= over(d, p, x + y),
{}
/// the header of the atom at `p` with another length
pub open spec fn set_len(d: Seq<u8>, p: int, extended: bool, n: int) -> Seq<u8> {
    if extended { over(over(d, p, p32(1)), p + 8, p64(n as u64)) } else { over(d, p, p32(n as u32)) }
}
#[derive(Clone, Copy)]
pub struct WriteOptions { pub preferred_padding: Option<Nz>, pub parse_options: ParseOptions }
#[derive(Clone, Copy)]
pub struct ParseOptions { pub parsing_mode: ParsingMode }
#[derive(Clone, Copy)]
pub struct Nz { pub n: u32 }
impl Nz { fn get(self) -> (r: u32) ensures r == self.n { self.n } }
fn abs64(n: i64) -> (r: i64) requires n > -0x7fff_ffff_ffff_ffff ensures r == if n < 0 { -n } else { n as int } { if n < 0 { -n } else { n } }
/// how many bytes of padding follow the new tag when the atom would get `diff` bytes longer
pub open spec fn padding(diff: int, o: WriteOptions) -> int {
    if diff > 0 { 0 } else if diff <= -8 { -diff } else if (o.preferred_padding matches Some(n) && n.n >= 8) { o.preferred_padding->0.n as int } else { 0 }
}
fn at_least(o: Option<Nz>, n: u64) -> (r: Option<Nz>) ensures r == if (o matches Some(k) && k.n >= n) { o } else { None }
{ match o { Some(k) => if (k.n as u64) >= n { Some(k) } else { None }, None => None } }
''',
Fn(IW, 'write_free_atom', sig=[('write_free_atom<W>', 'write_free_atom'), ('&mut W', '&mut Buf'), ('FileEncodingError', 'E'), ('where W: Write,', '')], spec='''
    requires size >= 8, old(writer).g().at <= old(writer).g().data.len(), old(writer).g().at + size < 0x8000_0000_0000_0000,
    ensures r is Ok ==> final(writer).g().data == over(old(writer).g().data, old(writer).g().at as int, free_atom(size as int)) && final(writer).g().at == old(writer).g().at + size,''',
  subs=[('re:write_all\\(b"free"\\)', 'write_all(&lit_free())'), ('re:&try_vec!\\[1; (.*?)\\]\\?', r'&ones_vec(\1)?')],
  ins=[('start', '', 'broadcast use p32_ok; let ghost d = writer.g().data; let ghost p = writer.g().at as int; proof { over2(d, p, p32(size), free_()); over2(d, p, p32(size) + free_(), ones(size - 8)); assert(free_().len() == 4); }')]),
Fn(IW, 'pad_atom', sig=[('pad_atom<W>', 'pad_atom'), ('&mut W', '&mut Buf'), ('FileEncodingError', 'E'), ('where W: Write + Seek,', '')], spec='''
    requires -0xffff_ffff <= atom_size_difference < 0x4000_0000_0000_0000, old(writer).g().data.len() < 0x4000_0000_0000_0000,
    ensures r matches Ok((diff, n)) ==> ({ let k = padding(atom_size_difference as int, write_options);
        n == k && diff == atom_size_difference + k && final(writer).g().data =~= if k == 0 { old(writer).g().data } else { old(writer).g().data + free_atom(k) } }),''',
  subs=[('atom_size_difference.is_positive()', '(atom_size_difference > 0)'), ('atom_size_difference.abs()', 'abs64(atom_size_difference)'),
    ('re:let Some\\(preferred_padding\\) = write_options\\s*\\.preferred_padding\\s*\\.filter\\(\\|padding\\| u64::from\\(padding\\.get\\(\\)\\) >= (\\w+)\\)\\s*else\\s*\\{(.*?)\\};', r'let chosen = at_least(write_options.preferred_padding, \1); if chosen.is_none() { \2 } let preferred_padding = chosen.unwrap();'),
    ('re:i64::from\\((.*?)\\)(?=;)', r'(\1 as i64)'), ('re:u64::from\\((preferred_padding\\.get\\(\\))\\)', r'(\1 as u64)')],
  ins=[('start', '', 'broadcast use p32_ok; proof { assert(free_().len() == 4); }')]),
'impl Buf {',
Fn(W, 'write_atom_size', impl="impl AtomWriterCompanion<'_>", sig=[('std::io::Result<()>', 'Result<(), E>')], spec='''
    requires old(self).g().at == start, start + (if extended { 16int } else { 8 }) <= old(self).g().data.len(), extended || size <= 0xffff_ffff, old(self).g().data.len() < 0x4000_0000_0000_0000,
    ensures r is Ok ==> final(self).g().data == set_len(old(self).g().data, start as int, extended, size as int) && final(self).g().at == start + (if extended { 16int } else { 8 }) && final(self).g().data.len() == old(self).g().data.len(),''',
  subs=[('u32::try_from(size).is_ok()', 'size <= 0xffff_ffff'), ('let extended_size = size.to_be_bytes();', ''),
    ('re:for \\(index, b\\) in extended_size\\.into_iter\\(\\)\\.enumerate\\(\\) \\{.*?\\}\\s*self\\.seek', 'unreachable_(); self.seek')],
  ins=[('start', '', 'broadcast use p32_ok, p64_ok;')]),
'}', '''
/// an atom of 4 GiB and more gets a longer header, which these contracts exclude
fn unreachable_() requires false {}
''',
]

TREES = '''
pub open spec fn end_of(a: AtomInfo) -> int { a.start + a.len }
/// every offset up to the end of the chain is behind the ones before it
proof fn pos_le(d: Seq<u8>, p: int, e: int, v: Seq<ContextualAtom>, i: int, j: int)
    requires chain(d, p, e, v), 0 <= i <= j <= v.len(),
    ensures pos(v, p, i) <= pos(v, p, j), pos(v, p, j) <= e, j < v.len() ==> v[j].info.start == pos(v, p, j) && is_atom(d, pos(v, p, j), v[j].info),
    decreases v.len() - i + v.len() - j
{
    if j < v.len() { assert(shape(d, pos(v, p, j), v[j])); pos_le(d, p, e, v, i, j + 1); }
    if i < j { assert(shape(d, pos(v, p, i), v[i])); pos_le(d, p, e, v, i + 1, j); }
}
pub open spec fn found(d: Seq<u8>, l: Seq<AtomInfo>, x: Seq<u8>, lo: int, hi: int) -> bool {
    forall|i: int| 0 <= i < l.len() ==> lo <= (#[trigger] l[i]).start && end_of(l[i]) <= hi && is_named(l[i].ident, x) && is_atom(d, l[i].start as int, l[i])
}
pub open spec fn sorted(l: Seq<AtomInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> end_of(#[trigger] l[i]) <= (#[trigger] l[j]).start }
proof fn joined(d: Seq<u8>, l: Seq<AtomInfo>, m: Seq<AtomInfo>, x: Seq<u8>, lo: int, mid: int, hi: int)
    requires found(d, l, x, lo, mid), found(d, m, x, mid, hi), sorted(l), sorted(m), lo <= mid <= hi,
    ensures found(d, l + m, x, lo, hi), sorted(l + m),
{
    let r = l + m;
    assert forall|i: int| 0 <= i < r.len() implies lo <= (#[trigger] r[i]).start && end_of(r[i]) <= hi && is_named(r[i].ident, x) && is_atom(d, r[i].start as int, r[i]) by { if i < l.len() { assert(r[i] == l[i]); } else { assert(r[i] == m[i - l.len()]); } }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies end_of(#[trigger] r[i]) <= (#[trigger] r[j]).start by {
        if j < l.len() { assert(r[i] == l[i] && r[j] == l[j]); } else if i >= l.len() { assert(r[i] == m[i - l.len()] && r[j] == m[j - l.len()]); } else { assert(r[i] == l[i] && r[j] == m[j - l.len()]); }
    }
}
proof fn below_chain(d: Seq<u8>, p: int, a: ContextualAtom)
    requires shape(d, p, a),
    ensures (a.info.ident matches AtomIdent::Fourcc(f) && is_container(f@)) ==> chain(d, p + hdr(d, p), p + a.info.len, a.children@),
        !(a.info.ident matches AtomIdent::Fourcc(f) && is_container(f@)) ==> a.children@.len() == 0,
{ }
/// what a chain says of its atom `i`
proof fn link(d: Seq<u8>, p: int, e: int, v: Seq<ContextualAtom>, i: int)
    requires chain(d, p, e, v), 0 <= i < v.len(),
    ensures v[i].info.start == pos(v, p, i), is_atom(d, pos(v, p, i), v[i].info), pos(v, p, i + 1) == end_of(v[i].info), pos(v, p, i) + 8 <= pos(v, p, i) + hdr(d, pos(v, p, i)) <= pos(v, p, i + 1) <= e,
        v[i].info.len == len_at(d, pos(v, p, i)), v[i].info.ident is Fourcc ==> is_named(v[i].info.ident, ident_at(d, pos(v, p, i))),
        !(v[i].info.ident is Fourcc) ==> ident_at(d, pos(v, p, i)) == dashes(),
        if (v[i].info.ident matches AtomIdent::Fourcc(f) && is_container(f@)) { chain(d, pos(v, p, i) + hdr(d, pos(v, p, i)), pos(v, p, i + 1), v[i].children@) } else { v[i].children@.len() == 0 },
{ assert(shape(d, pos(v, p, i), v[i])); pos_le(d, p, e, v, i, i); pos_le(d, p, e, v, i, i + 1); below_chain(d, pos(v, p, i), v[i]); }
proof fn ends(d: Seq<u8>, p: int, e: int, v: Seq<ContextualAtom>) requires chain(d, p, e, v) ensures pos(v, p, v.len() as int) == e, pos(v, p, 0) == p {}
/// what is found in a chain is in it, in order
proof fn coll_in(d: Seq<u8>, p: int, e: int, v: Vec<ContextualAtom>, i: int, x: Seq<u8>)
    requires chain(d, p, e, v@), 0 <= i <= v@.len(),
    ensures found(d, coll(v, i, x, true), x, pos(v@, p, i), e), sorted(coll(v, i, x, true)),
    decreases v, v@.len() - i
{
    hide(shape); hide(chain); hide(is_atom); hide(is_container); hide(pos);
    ends(d, p, e, v@);
    if i < v@.len() {
        link(d, p, e, v@, i);
        coll_in(d, p, e, v, i + 1, x);
        let rest = coll(v, i + 1, x, true); let mid = pos(v@, p, i + 1);
        if is_named(v@[i].info.ident, x) { let one = seq![v@[i].info]; joined(d, one, rest, x, pos(v@, p, i), mid, e); }
        else if v@[i].info.ident is Fourcc {
            let c = v@[i].children;
            if c@.len() == 0 { assert(coll(c, 0, x, true) =~= seq![]); assert(coll(v, i, x, true) =~= rest); }
            else { coll_in(d, pos(v@, p, i) + hdr(d, pos(v@, p, i)), mid, c, 0, x); ends(d, pos(v@, p, i) + hdr(d, pos(v@, p, i)), mid, c@); joined(d, coll(c, 0, x, true), rest, x, pos(v@, p, i), mid, e); }
        }
    }
}
proof fn apart_joined(l1: Seq<AtomInfo>, l2: Seq<AtomInfo>, m1: Seq<AtomInfo>, m2: Seq<AtomInfo>)
    requires apart2(l1, m1), apart2(l1, m2), apart2(l2, m1), apart2(l2, m2),
    ensures apart2(l1 + l2, m1 + m2),
{
    let l = l1 + l2; let m = m1 + m2;
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < m.len() implies apart(#[trigger] l[i], #[trigger] m[j]) by {
        if i < l1.len() { assert(l[i] == l1[i]); if j < m1.len() { assert(m[j] == m1[j]); } else { assert(m[j] == m2[j - m1.len()]); } }
        else { assert(l[i] == l2[i - l1.len()]); if j < m1.len() { assert(m[j] == m1[j]); } else { assert(m[j] == m2[j - m1.len()]); } }
    }
}
proof fn split(d: Seq<u8>, l: Seq<AtomInfo>, x: Seq<u8>, lo: int, mid: int, m: Seq<AtomInfo>, y: Seq<u8>, hi: int)
    requires found(d, l, x, lo, mid), found(d, m, y, mid, hi),
    ensures apart2(l, m), apart2(m, l),
{}
/// atoms of different kinds, neither of which holds others, are not in each other
proof fn coll_apart(d: Seq<u8>, p: int, e: int, v: Vec<ContextualAtom>, i: int, x: Seq<u8>, y: Seq<u8>)
    requires chain(d, p, e, v@), 0 <= i <= v@.len(), x != y, !is_container(x), !is_container(y),
    ensures apart2(coll(v, i, x, true), coll(v, i, y, true)),
    decreases v, v@.len() - i
{
    hide(shape); hide(chain); hide(is_atom); hide(is_container); hide(pos);
    if i < v@.len() {
        let q = pos(v@, p, i); let mid = pos(v@, p, i + 1); let a = v@[i]; let none: Seq<AtomInfo> = seq![];
        link(d, p, e, v@, i);
        coll_apart(d, p, e, v, i + 1, x, y);
        coll_in(d, p, e, v, i + 1, x); coll_in(d, p, e, v, i + 1, y);
        let rx = coll(v, i + 1, x, true); let ry = coll(v, i + 1, y, true);
        let cx = coll(a.children, 0, x, true); let cy = coll(a.children, 0, y, true);
        if is_named(a.info.ident, x) {
            assert(a.children@.len() == 0); assert(cy =~= none); assert(coll(v, i, y, true) =~= none + ry);
            let one = seq![a.info]; split(d, one, x, q, mid, ry, y, e); apart_joined(one, rx, none, ry);
        } else if is_named(a.info.ident, y) {
            assert(a.children@.len() == 0); assert(cx =~= none); assert(coll(v, i, x, true) =~= none + rx);
            let one = seq![a.info]; split(d, one, y, q, mid, rx, x, e); apart_joined(none, rx, one, ry);
        } else if a.info.ident is Fourcc && a.children@.len() > 0 {
            let c = a.children; let q2 = q + hdr(d, q);
            coll_in(d, q2, mid, c, 0, x); coll_in(d, q2, mid, c, 0, y);
            coll_apart(d, q2, mid, c, 0, x, y);
            ends(d, q2, mid, c@); split(d, cx, x, q2, mid, ry, y, e); split(d, cy, y, q2, mid, rx, x, e);
            apart_joined(cx, rx, cy, ry);
        } else { assert(cx =~= none); assert(cy =~= none); assert(coll(v, i, x, true) =~= rx); assert(coll(v, i, y, true) =~= ry); }
    }
}
/// none of the atoms is in the bytes from `lo` to `hi`
pub open spec fn clear(l: Seq<AtomInfo>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < l.len() ==> end_of(#[trigger] l[i]) <= lo || l[i].start >= hi }
/// the bytes of an atom that its children are not in
pub open spec fn own(d: Seq<u8>, a: AtomInfo) -> int { if (a.ident matches AtomIdent::Fourcc(f) && is_container(f@)) { a.start + hdr(d, a.start as int) } else { end_of(a) } }
proof fn coll_clear(d: Seq<u8>, p: int, e: int, v: Vec<ContextualAtom>, i: int, x: Seq<u8>, j: int)
    requires chain(d, p, e, v@), 0 <= i <= v@.len(), 0 <= j < v@.len(), !is_named(v@[j].info.ident, x),
    ensures clear(coll(v, i, x, true), v@[j].info.start as int, own(d, v@[j].info)),
    decreases v@.len() - i
{
    if i < v@.len() {
        let q = pos(v@, p, i); let mid = pos(v@, p, i + 1); let a = v@[i]; let b = v@[j].info;
        assert(shape(d, q, a));
        assert(shape(d, pos(v@, p, j), v@[j]));
        pos_le(d, p, e, v@, i, i); pos_le(d, p, e, v@, i, i + 1); pos_le(d, p, e, v@, j, j);
        if i < j { pos_le(d, p, e, v@, i + 1, j); } else if j < i { pos_le(d, p, e, v@, j + 1, i); pos_le(d, p, e, v@, j, j + 1); }
        coll_clear(d, p, e, v, i + 1, x, j);
        below_chain(d, q, a);
        let cx = coll(a.children, 0, x, true); let rx = coll(v, i + 1, x, true); let all = coll(v, i, x, true);
        let mine = if is_named(a.info.ident, x) { seq![a.info] } else if a.info.ident is Fourcc { cx } else { seq![] };
        assert(all =~= mine + rx);
        assert(own(d, b) <= end_of(b));
        if a.children@.len() > 0 { coll_in(d, q + hdr(d, q), mid, a.children, 0, x); } else { assert(cx =~= seq![]); }
        assert forall|k: int| 0 <= k < all.len() implies end_of(#[trigger] all[k]) <= b.start || all[k].start >= own(d, b) by {
            if k < mine.len() { assert(all[k] == mine[k]); } else { assert(all[k] == rx[k - mine.len()]); }
        }
    }
}
/// the same, one level down
proof fn coll_clear2(d: Seq<u8>, p: int, e: int, v: Vec<ContextualAtom>, i: int, x: Seq<u8>, j: int, k: int)
    requires chain(d, p, e, v@), 0 <= i <= v@.len(), 0 <= j < v@.len(), !is_named(v@[j].info.ident, x), 0 <= k < v@[j].children@.len(), !is_named(v@[j].children@[k].info.ident, x),
    ensures clear(coll(v, i, x, true), v@[j].children@[k].info.start as int, own(d, v@[j].children@[k].info)),
    decreases v@.len() - i
{
    if i < v@.len() {
        let q = pos(v@, p, i); let mid = pos(v@, p, i + 1); let a = v@[i]; let c = v@[j].children; let b = c@[k].info; let u = pos(v@, p, j); let u2 = u + hdr(d, u);
        assert(shape(d, q, a));
        assert(shape(d, u, v@[j]));
        pos_le(d, p, e, v@, i, i); pos_le(d, p, e, v@, i, i + 1); pos_le(d, p, e, v@, j, j); pos_le(d, p, e, v@, j, j + 1);
        if i < j { pos_le(d, p, e, v@, i + 1, j); } else if j < i { pos_le(d, p, e, v@, j + 1, i); }
        below_chain(d, u, v@[j]);
        pos_le(d, u2, u + v@[j].info.len, c@, k, k); pos_le(d, u2, u + v@[j].info.len, c@, 0, k); pos_le(d, u2, u + v@[j].info.len, c@, k, k + 1);
        assert(shape(d, pos(c@, u2, k), c@[k]));
        coll_clear2(d, p, e, v, i + 1, x, j, k);
        below_chain(d, q, a);
        let cx = coll(a.children, 0, x, true); let rx = coll(v, i + 1, x, true); let all = coll(v, i, x, true);
        let mine = if is_named(a.info.ident, x) { seq![a.info] } else if a.info.ident is Fourcc { cx } else { seq![] };
        assert(all =~= mine + rx);
        assert(own(d, b) <= end_of(b));
        if a.children@.len() > 0 { coll_in(d, q + hdr(d, q), mid, a.children, 0, x); } else { assert(cx =~= seq![]); }
        if i == j { coll_clear(d, u2, u + v@[j].info.len, c, 0, x, k); }
        assert forall|m: int| 0 <= m < all.len() implies end_of(#[trigger] all[m]) <= b.start || all[m].start >= own(d, b) by {
            if m < mine.len() { assert(all[m] == mine[m]); } else { assert(all[m] == rx[m - mine.len()]); }
        }
    }
}
/// the offsets of fragments are in the file, in order, and not in its `moov`
proof fn order(d: Seq<u8>, p: int, e: int, v: Seq<ContextualAtom>, i: int, m: int)
    requires chain(d, p, e, v), 0 <= i <= v.len(), 0 <= m < v.len(),
    ensures pos(v, p, i) <= e, i < m ==> i + 1 <= v.len() && pos(v, p, i + 1) <= pos(v, p, m), m < i ==> pos(v, p, m + 1) <= pos(v, p, i),
{ pos_le(d, p, e, v, i, i); if i < m { pos_le(d, p, e, v, i + 1, m); } else if m < i { pos_le(d, p, e, v, m + 1, i); } }
proof fn tfhds_in(d: Seq<u8>, e: int, v: Vec<ContextualAtom>, i: int, m: int)
    requires chain(d, 0, e, v@), 0 <= i <= v@.len(), 0 <= m < v@.len(), is_named(v@[m].info.ident, moov_()),
    ensures found(d, tfhds(v, i), tfhd_(), pos(v@, 0, i), e), sorted(tfhds(v, i)), clear(tfhds(v, i), v@[m].info.start as int, end_of(v@[m].info)),
    decreases v@.len() - i
{
    hide(shape); hide(chain); hide(is_atom); hide(is_container); hide(pos);
    names(); containers_ok();
    link(d, 0, e, v@, m); ends(d, 0, e, v@); order(d, 0, e, v@, i, m);
    if i < v@.len() {
        let q = pos(v@, 0, i); let mid = pos(v@, 0, i + 1); let a = v@[i];
        link(d, 0, e, v@, i);
        tfhds_in(d, e, v, i + 1, m);
        if is_named(a.info.ident, moof_()) {
            ends(d, q + hdr(d, q), mid, a.children@);
            coll_in(d, q + hdr(d, q), mid, a.children, 0, tfhd_());
            let l = coll(a.children, 0, tfhd_(), true); let r = tfhds(v, i + 1); let all = tfhds(v, i);
            assert(all =~= l + r);
            assert(found(d, l, tfhd_(), q, mid));
            joined(d, l, r, tfhd_(), q, mid, e);
            assert forall|k: int| 0 <= k < all.len() implies end_of(#[trigger] all[k]) <= v@[m].info.start || all[k].start >= end_of(v@[m].info) by { if k < l.len() { assert(all[k] == l[k]); } else { assert(all[k] == r[k - l.len()]); } }
        }
    }
}
/// looking for an atom finds one of the chain
proof fn first_in(d: Seq<u8>, p: int, e: int, v: Seq<ContextualAtom>, i: int, x: Seq<u8>) -> (j: int)
    requires chain(d, p, e, v), 0 <= i <= v.len(), x != dashes(), first(d, pos(v, p, i), e - pos(v, p, i), x) is Some,
    ensures i <= j < v.len(), first(d, pos(v, p, i), e - pos(v, p, i), x) == Some(v[j].info.start as int), is_named(v[j].info.ident, x),
    decreases v.len() - i
{
    hide(shape); hide(chain); hide(is_atom); hide(pos); hide(ident_ok);
    ends(d, p, e, v);
    if i == v.len() { assert(false); i }
    else {
        link(d, p, e, v, i);
        if ident_at(d, pos(v, p, i)) == x { i } else { first_in(d, p, e, v, i + 1, x) }
    }
}
/// a file whose tables are all in their atoms
pub open spec fn tables_fit(d: Seq<u8>, x: Tables) -> bool {
    (forall|i: int| 0 <= i < x.s.len() ==> holds(Kind::Stco, body(d, #[trigger] x.s[i]))) && (forall|i: int| 0 <= i < x.c.len() ==> holds(Kind::Co64, body(d, #[trigger] x.c[i]))) && (forall|i: int| 0 <= i < x.t.len() ==> holds(Kind::Tfhd, body(d, #[trigger] x.t[i])))
}
proof fn made_whole(d: Seq<u8>, k: Kind, l: Seq<AtomInfo>, lo: int, hi: int)
    requires found(d, l, name_of(k), lo, hi), forall|i: int| 0 <= i < l.len() ==> holds(k, body(d, #[trigger] l[i])),
    ensures whole(d, k, l),
{
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).start + l[i].len <= d.len() && holds(k, body(d, l[i])) && l[i].extended == (head(body(d, l[i])) == 16) by { assert(cut(body(d, l[i]), 0, 4) =~= cut(d, l[i].start as int, 4)); }
}
/// the tables of a file's tree are whole and apart
proof fn tree_tables(d: Seq<u8>, e: int, v: Vec<ContextualAtom>, m: int)
    requires chain(d, 0, e, v@), 0 <= m < v@.len(), is_named(v@[m].info.ident, moov_()), tables_fit(d, tables(v, v@[m])),
    ensures tables_ok(d, tables(v, v@[m])), clear(tables(v, v@[m]).t, v@[m].info.start as int, end_of(v@[m].info)),
{
    names(); containers_ok();
    let x = tables(v, v@[m]); let q = pos(v@, 0, m); let c = v@[m].children;
    pos_le(d, 0, e, v@, m, m);
    assert(shape(d, q, v@[m]));
    below_chain(d, q, v@[m]);
    coll_in(d, q + hdr(d, q), q + v@[m].info.len, c, 0, stco_()); coll_in(d, q + hdr(d, q), q + v@[m].info.len, c, 0, co64_());
    coll_apart(d, q + hdr(d, q), q + v@[m].info.len, c, 0, stco_(), co64_());
    tfhds_in(d, e, v, 0, m);
    made_whole(d, Kind::Stco, x.s, q + hdr(d, q), q + v@[m].info.len); made_whole(d, Kind::Co64, x.c, q + hdr(d, q), q + v@[m].info.len); made_whole(d, Kind::Tfhd, x.t, 0, e);
}
/// where nothing of a table is, other bytes leave the tables as they are
proof fn kept_clear(d: Seq<u8>, d1: Seq<u8>, k: Kind, l: Seq<AtomInfo>, lo: int, hi: int)
    requires whole(d, k, l), clear(l, lo, hi), d1.len() == d.len(), forall|b: int| 0 <= b < d.len() && (b < lo || b >= hi) ==> #[trigger] d1[b] == d[b],
    ensures whole(d1, k, l), forall|i: int| 0 <= i < l.len() ==> body(d1, #[trigger] l[i]) == body(d, l[i]),
{
    assert forall|i: int| 0 <= i < l.len() implies body(d1, #[trigger] l[i]) == body(d, l[i]) by { assert(body(d1, l[i]) =~= body(d, l[i])); }
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).start + l[i].len <= d1.len() && holds(k, body(d1, l[i])) && l[i].extended == (head(body(d1, l[i])) == 16) by { assert(body(d1, l[i]) == body(d, l[i])); }
}
pub open spec fn clear_all(x: Tables, lo: int, hi: int) -> bool { clear(x.s, lo, hi) && clear(x.c, lo, hi) && clear(x.t, lo, hi) }
proof fn kept_all(d: Seq<u8>, d1: Seq<u8>, x: Tables, lo: int, hi: int)
    requires tables_ok(d, x), clear_all(x, lo, hi), d1.len() == d.len(), forall|b: int| 0 <= b < d.len() && (b < lo || b >= hi) ==> #[trigger] d1[b] == d[b],
    ensures tables_ok(d1, x),
{ kept_clear(d, d1, Kind::Stco, x.s, lo, hi); kept_clear(d, d1, Kind::Co64, x.c, lo, hi); kept_clear(d, d1, Kind::Tfhd, x.t, lo, hi); }
'''

def lits(m):
    '''the byte string written, as a vector'''
    s = m.group(1)
    b = [ord(c) for c in s] if m.group(0).count('"') else [ord(x.strip()[2]) if x.strip().startswith("b'") else int(x) for x in s.split(',') if x.strip()]
    return 'write_all(&vec![' + ', '.join('%du8' % x for x in b) + '])'


BYTES = [('re:write_all\\(&\\[([^\\]]*)\\]\\)', lits, '*'), ('re:write_all\\(b"([^"]*)"\\)', lits, '*')]


def udta_head(m): return m.group(2) + 'let mut buf: Vec<u8> = vec![' + ', '.join('%du8' % (ord(x.strip()[2]) if x.strip().startswith("b'") else int(x)) for x in m.group(1).split(',')) + '];'


NEW = ['''
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// a `meta` atom with the handler iTunes uses, and the tag
pub open spec fn meta_bytes(ilst: Seq<u8>) -> Seq<u8> {
    p32((45 + ilst.len()) as u32) + meta_() + zeros(4) + p32(33) + seq![0x68u8, 0x64, 0x6c, 0x72] + p64(0) + seq![0x6du8, 0x64, 0x69, 0x72, 0x61, 0x70, 0x70, 0x6c] + zeros(9) + ilst
}
pub open spec fn udta_bytes(ilst: Seq<u8>) -> Seq<u8> { p32((53 + ilst.len()) as u32) + udta_() + meta_bytes(ilst) }
proof fn at_end(d: Seq<u8>, b: Seq<u8>) ensures over(d, d.len() as int, b) =~= d + b {}
''', Item(IW, 'const', 'FULL_ATOM_SIZE'), Item(IW, 'const', 'HDLR_SIZE'),
Fn(IW, 'create_meta', sig=[('writer: &AtomWriter', 'write_handle: &mut Buf'), ('ilst: &[u8]', 'ilst: &Vec<u8>'), ('FileEncodingError', 'E')], spec='''
    requires old(write_handle).g().at == old(write_handle).g().data.len(), old(write_handle).g().data.len() < 0x1000_0000, ilst@.len() <= 0xffff_0000,
    ensures r is Ok ==> final(write_handle).g().data =~= old(write_handle).g().data + meta_bytes(ilst@),''',
  subs=HANDLE + BYTES,
  ins=[('start', '', 'let ghost d0 = write_handle.g().data; let ghost n = ilst@.len(); proof { names(); } broadcast use p32_ok, p64_ok;'),
    ('before', 'write_handle.seek(SeekFrom::Start(start))?;', 'let ghost d1 = write_handle.g().data; proof { assert(d1 =~= d0 + seq![0u8, 0, 0, 0] + meta_() + zeros(4) + p32(0) + seq![0x68u8, 0x64, 0x6c, 0x72] + p64(0) + seq![0x6du8, 0x64, 0x69, 0x72, 0x61, 0x70, 0x70, 0x6c] + zeros(9)); }'),
    ('before', 'write_handle.write_all(ilst)?;', 'proof { assert(write_handle.g().data =~= d0 + p32((45 + n) as u32) + meta_() + zeros(4) + p32(33) + seq![0x68u8, 0x64, 0x6c, 0x72] + p64(0) + seq![0x6du8, 0x64, 0x69, 0x72, 0x61, 0x70, 0x70, 0x6c] + zeros(9)); }')]),
Fn(IW, 'create_udta', sig=[('ilst: &[u8]', 'ilst: &Vec<u8>'), ('FileEncodingError', 'E')], spec='''
    requires ilst@.len() <= 0xffff_0000,
    ensures r matches Ok(v) ==> v@ =~= udta_bytes(ilst@),''',
  subs=[('re:const UDTA_HEADER: \\[u8; 8\\] = \\[([^\\]]*)\\];(.*?)let mut buf = Vec::try_with_capacity_stable\\(capacity as usize\\)\\?;', udta_head), ('buf.write_all(&UDTA_HEADER)?;', ''),
    ('re:let udta_writer = AtomWriter::new\\(buf, [\\w.]+\\);', 'let mut write_handle = Buf::over(buf);'), ('re:let mut write_handle = udta_writer\\.start_write\\(\\);', '', 2), ('re:drop\\(write_handle\\);', '', '*'),
    ('UDTA_HEADER.len() as i64', '8i64'), ('create_meta(&udta_writer, ilst)', 'create_meta(&mut write_handle, ilst)'), ('udta_writer.into_contents()', 'write_handle.into_contents()')],
  ins=[('start', '', 'proof { names(); } broadcast use p32_ok, p64_ok;')]),
'''
impl Buf {
    #[verifier::external_body]
    fn truncate(&mut self, n: u64) -> (r: Result<(), E>) ensures r is Ok ==> final(self).g().data.len() == n && final(self).g().data == old(self).g().data.take(n as int) && final(self).g().at == old(self).g().at { unimplemented!() }
    #[verifier::external_body]
    fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.g().data { unimplemented!() }
    /// the rest of a file
    #[verifier::external_body]
    fn rest(&mut self) -> (r: Result<Vec<u8>, E>) ensures final(self).g().data == old(self).g().data, r matches Ok(v) ==> v@ == old(self).g().data.skip(old(self).g().at as int) { unimplemented!() }
}
/// the file at its end, or before something that is not an atom
pub open spec fn parsed(d: Seq<u8>, v: Seq<ContextualAtom>) -> bool { exists|e: int| e <= d.len() && #[trigger] chain(d, 0, e, v) }
''',
Fn(W, 'new_from_file', impl='impl AtomWriter', sig=[('new_from_file<F>', 'new_from_file'), ('file: &mut F', 'file: &mut Buf'), ('Result<Self, Mp4ParseError>', 'Result<(Buf, Vec<ContextualAtom>), E>'), ('where F: FileLike,', '')], spec='''
    requires old(file).g().data.len() < 0x4000_0000_0000_0000, old(file).g().at == 0,
    ensures final(file).g().data == old(file).g().data, r matches Ok((b, atoms)) ==> b.g() == (St { data: old(file).g().data, at: 0 }) && parsed(old(file).g().data, atoms@),''',
  head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
  subs=[('re:let mut contents = Cursor::new\\(Vec::new\\(\\)\\);\\s*file\\.read_to_end\\(contents\\.get_mut\\(\\)\\)\\?;', 'let mut contents = Buf::over(file.rest()?); proof { assert(contents.g().data =~= d); }'),
    ('contents.get_ref().len() as u64', 'contents.len() as u64'), ('let mut atoms = Vec::new();', 'let mut atoms: Vec<ContextualAtom> = Vec::new();'),
    ('re:while let Some\\(atom\\) = (ContextualAtom::read\\(.*?\\)\\?) \\{\\s*atoms\\.push\\(atom\\);\\s*\\}', r'''loop { let next = \1; if next.is_none() { break; } let atom = next.unwrap(); let ghost v0 = atoms@; atoms.push(atom);
        proof { assert forall|i: int| 0 <= i < atoms@.len() implies shape(d, pos(atoms@, 0, i), #[trigger] atoms@[i]) by { if i < v0.len() { assert(atoms@[i] == v0[i]); if i > 0 { assert(atoms@[i - 1] == v0[i - 1]); } assert(pos(atoms@, 0, i) == pos(v0, 0, i)); }
          else { assert(atoms@[i] == atom); if i > 0 { assert(atoms@[i - 1] == v0[i - 1]); } assert(pos(atoms@, 0, i) == pos(v0, 0, i)); } } } }'''),
    ('re:Ok\\(Self \\{\\s*contents: RefCell::new\\(contents\\),\\s*atoms,\\s*\\}\\)', 'proof { assert(chain(d, 0, pos(atoms@, 0, atoms@.len() as int), atoms@)); } Ok((contents, atoms))')],
  loops=['''invariant_except_break contents.g().at == pos(atoms@, 0, atoms@.len() as int), contents.g().at + len == d.len(),
      invariant contents.g().data == d, forall|i: int| 0 <= i < atoms@.len() ==> shape(d, pos(atoms@, 0, i), #[trigger] atoms@[i]), pos(atoms@, 0, atoms@.len() as int) <= d.len(),
      decreases len'''],
  ins=[('start', '', 'let ghost d = file.g().data;')]),
Fn(W, 'find_contextual_atom', impl='impl AtomWriter', sig=[('&self', 'atoms: &Vec<ContextualAtom>')], spec='''
    ensures match r { Some(a) => exists|i: int| 0 <= i < atoms@.len() && #[trigger] atoms@[i] == *a && is_named(a.info.ident, fourcc@) && forall|j: int| 0 <= j < i ==> !is_named((#[trigger] atoms@[j]).info.ident, fourcc@),
      None => forall|j: int| 0 <= j < atoms@.len() ==> !is_named((#[trigger] atoms@[j]).info.ident, fourcc@) },''',
  subs=[('re:self\\.atoms\\s*\\.iter\\(\\)\\s*\\.find\\(\\|atom\\| matches!\\(atom\\.info\\.ident, AtomIdent::Fourcc\\(ident\\) if ident == fourcc\\)\\)', 'let mut i: usize = 0; while i < atoms.len() { let atom = &atoms[i]; if named(&atom.info.ident, &fourcc) { return Some(atom); } i = i + 1; } None')],
  loops=['''invariant i <= atoms@.len(), forall|j: int| 0 <= j < i ==> !is_named((#[trigger] atoms@[j]).info.ident, fourcc@), decreases atoms@.len() - i''']),
Fn(W, 'save_to', impl='impl AtomWriter', sig=[('save_to<F>', 'save_to'), ('&mut self', 'contents: &Buf'), ('file: &mut F', 'file: &mut Buf'), ('FileEncodingError', 'E'), ('where F: FileLike,', '')], spec='''
    ensures r is Ok ==> final(file).g().data =~= contents.g().data,''',
  subs=[('self.contents.borrow().get_ref()', 'contents.get_ref()')]),
]

SAVE = ['''
pub open spec fn spliced(d: Seq<u8>, a: int, b: int, new: Seq<u8>) -> Seq<u8> { d.take(a) + new + d.skip(b) }
/// the atoms from `p` on that are in the next `n` bytes
pub open spec fn whole_row(d: Seq<u8>, p: int, n: int, t: Seq<AtomInfo>) -> bool {
    row(d, p, t) && row_end(p, t) <= p + n && (p + n - row_end(p, t) < 8 || !fits(d, row_end(p, t), p + n - row_end(p, t)))
}
/// from `a` to `b`: the tag that is there, and padding around it
pub open spec fn tag_at(t: Seq<AtomInfo>, lo: int, i: int, hi: int, a: int, b: int) -> bool {
    0 <= lo <= i <= hi < t.len() && a == t[lo].start && b == end_of(t[hi]) && forall|j: int| lo <= j <= hi && j != i ==> is_named((#[trigger] t[j]).ident, free_())
}
/// the bytes from `a` to `b` are what a new tag takes the place of
pub open spec fn place(d: Seq<u8>, meta: AtomInfo, t: Seq<AtomInfo>, a: int, b: int) -> bool {
    match last_named(t, ilst_()) { None => a == end_of(meta) && b == a, Some(i) => exists|lo: int, hi: int| #[trigger] tag_at(t, lo, i, hi, a, b) }
}
/// the new tag, and padding after it
pub open spec fn fresh(new: Seq<u8>, ilst: Seq<u8>) -> bool { new == ilst || exists|k: int| 8 <= k <= 0xffff_ffff && new == ilst + #[trigger] free_atom(k) }
/// the sizes of the two atoms are set, the offsets behind `a` moved, and the bytes from `a` to `b` replaced
pub open spec fn resized(d: Seq<u8>, out: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, a: int, b: int, new: Seq<u8>) -> bool {
    let diff = new.len() - (b - a);
    exists|d2: Seq<u8>| #[trigger] moved_all(set_len(set_len(d, meta.start as int, meta.extended, meta.len + diff), udta.start as int, udta.extended, udta.len + diff), d2, x, a, diff) && out == spliced(d2, a, b, new)
}
pub open spec fn saved(d: Seq<u8>, out: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>, a: int, b: int, new: Seq<u8>) -> bool {
    &&& whole_row(d, p, n, t) && place(d, meta, t, a, b) && fresh(new, ilst)
    &&& meta.start + hdr(d, meta.start as int) <= a <= b <= end_of(meta)
    &&& if new.len() == b - a { out == spliced(d, a, b, new) } else { resized(d, out, x, meta, udta, a, b, new) }
}
pub open spec fn preferred(o: WriteOptions) -> int { match o.preferred_padding { Some(n) => n.n as int, None => 0 } }
proof fn row_step(d: Seq<u8>, p: int, t: Seq<AtomInfo>, i: int)
    requires row(d, p, t), 0 <= i < t.len(),
    ensures t[i].start == if i == 0 { p } else { end_of(t[i - 1]) }, t[i].len >= 8, end_of(t[i]) <= d.len(),
{ assert(is_atom(d, if i == 0 { p } else { t[i - 1].start + t[i - 1].len }, t[i])); }
proof fn row_in(d: Seq<u8>, p: int, t: Seq<AtomInfo>, i: int)
    requires row(d, p, t), 0 <= i < t.len(),
    ensures p <= t[i].start, end_of(t[i]) <= row_end(p, t),
    decreases t.len()
{
    hide(row); hide(is_atom);
    row_step(d, p, t, i);
    if i > 0 { row_below(d, p, t, i); }
    row_above(d, p, t, i);
}
proof fn row_below(d: Seq<u8>, p: int, t: Seq<AtomInfo>, i: int) requires row(d, p, t), 0 <= i < t.len() ensures p <= t[i].start decreases i { hide(row); hide(is_atom); row_step(d, p, t, i); if i > 0 { row_below(d, p, t, i - 1); } }
proof fn row_above(d: Seq<u8>, p: int, t: Seq<AtomInfo>, i: int) requires row(d, p, t), 0 <= i < t.len() ensures end_of(t[i]) <= row_end(p, t) decreases t.len() - i { hide(row); hide(is_atom); if i + 1 < t.len() { row_step(d, p, t, i + 1); row_above(d, p, t, i + 1); } }
proof fn last_in(t: Seq<AtomInfo>, x: Seq<u8>) ensures last_named(t, x) matches Some(i) ==> 0 <= i < t.len() && is_named(t[i].ident, x) decreases t.len()
{ if t.len() > 0 && !is_named(t.last().ident, x) { last_in(t.drop_last(), x); } }
proof fn set_len_kept(d: Seq<u8>, p: int, extended: bool, n: int)
    requires 0 <= p, p + (if extended { 16int } else { 8 }) <= d.len(),
    ensures set_len(d, p, extended, n).len() == d.len(), forall|b: int| 0 <= b < d.len() && (b < p || b >= p + (if extended { 16int } else { 8 })) ==> #[trigger] set_len(d, p, extended, n)[b] == d[b],
{ broadcast use p32_ok, p64_ok; }
proof fn atom_facts(d: Seq<u8>, a: AtomInfo) requires is_atom(d, a.start as int, a) ensures a.extended == ext(d, a.start as int), hdr(d, a.start as int) == (if a.extended { 16int } else { 8 }), hdr(d, a.start as int) <= a.len, end_of(a) <= d.len() {}
proof fn free_len(k: int) requires 8 <= k <= 0xffff_ffff ensures free_atom(k).len() == k { broadcast use p32_ok; assert(free_().len() == 4); }
proof fn over_len(d: Seq<u8>, p: int, b: Seq<u8>) requires 0 <= p, p + b.len() <= d.len() ensures over(d, p, b).len() == d.len() {}
proof fn ilst_named() ensures ilst_() != dashes() { names(); }
/// the tag written over the one that is there
proof fn in_place(d: Seq<u8>, out: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>, lo: int, i: int, hi: int, k: int)
    requires whole_row(d, p, n, t), last_named(t, ilst_()) == Some(i), tag_at(t, lo, i, hi, t[lo].start as int, end_of(t[hi])), 8 <= k <= 0xffff_ffff, ilst.len() + k == end_of(t[hi]) - t[lo].start,
        n > 0 ==> p + n <= end_of(meta), meta.start + hdr(d, meta.start as int) <= p,
        out == over(over(d, t[lo].start as int, ilst), t[lo].start + ilst.len(), free_atom(k)),
    ensures saved(d, out, x, meta, udta, p, n, t, ilst, t[lo].start as int, end_of(t[hi]), ilst + free_atom(k)),
{
    hide(is_atom); hide(fits); hide(row);
    let a = t[lo].start as int; let b = end_of(t[hi]); let new = ilst + free_atom(k);
    free_len(k);
    row_in(d, p, t, hi); row_in(d, p, t, lo); row_step(d, p, t, hi);
    over2(d, a, ilst, free_atom(k));
    assert(out =~= spliced(d, a, b, new)); assert(fresh(new, ilst)); assert(tag_at(t, lo, i, hi, a, b)); assert(last_named(t, ilst_()) is Some); assert(last_named(t, ilst_())->0 == i); assert(exists|l: int, h: int| #[trigger] tag_at(t, l, i, h, a, b)); assert(place(d, meta, t, a, b));
}
/// no tag, and none to write
proof fn as_it_was(d: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>)
    requires whole_row(d, p, n, t), last_named(t, ilst_()) is None, is_atom(d, meta.start as int, meta), ilst.len() == 0,
    ensures saved(d, d, x, meta, udta, p, n, t, ilst, end_of(meta), end_of(meta), seq![]),
{
    hide(fits); hide(row); hide(row_end);
    let b = end_of(meta); let new: Seq<u8> = seq![]; assert(new =~= ilst); assert(d =~= spliced(d, b, b, new)); assert(place(d, meta, t, b, b));
}
/// the tag put in the place of the one that is there, or at the end
proof fn put(d: Seq<u8>, d2: Seq<u8>, out: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>, a: int, b: int, new: Seq<u8>)
    requires whole_row(d, p, n, t), place(d, meta, t, a, b), fresh(new, ilst), meta.start + hdr(d, meta.start as int) <= a <= b <= end_of(meta), out == spliced(d2, a, b, new),
        if new.len() == b - a { d2 == d } else { moved_all(set_len(set_len(d, meta.start as int, meta.extended, meta.len + (new.len() - (b - a))), udta.start as int, udta.extended, udta.len + (new.len() - (b - a))), d2, x, a, new.len() - (b - a)) },
    ensures saved(d, out, x, meta, udta, p, n, t, ilst, a, b, new),
{
    hide(is_atom); hide(fits); hide(row); hide(set_len); hide(moved_all); hide(place); hide(fresh); hide(whole_row); hide(spliced);
    if new.len() != b - a { assert(resized(d, out, x, meta, udta, a, b, new)); }
}
proof fn taken(d: Seq<u8>, meta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, lo: int, i: int)
    requires whole_row(d, p, n, t), last_named(t, ilst_()) == Some(i), tag_at(t, lo, i, i, t[lo].start as int, end_of(t[i])), n > 0 ==> p + n <= end_of(meta), meta.start + hdr(d, meta.start as int) <= p,
    ensures place(d, meta, t, t[lo].start as int, end_of(t[i])), meta.start + hdr(d, meta.start as int) <= t[lo].start <= end_of(t[i]) <= end_of(meta),
{ hide(is_atom); hide(fits); hide(row); row_in(d, p, t, lo); row_in(d, p, t, i); row_step(d, p, t, i); if lo < i { row_order(d, p, t, lo, i); } assert(last_named(t, ilst_())->0 == i); assert(place(d, meta, t, t[lo].start as int, end_of(t[i]))); }
proof fn row_order(d: Seq<u8>, p: int, t: Seq<AtomInfo>, i: int, j: int) requires row(d, p, t), 0 <= i <= j < t.len() ensures t[i].start <= t[j].start decreases j - i { hide(row); hide(is_atom); if i < j { row_step(d, p, t, j); row_step(d, p, t, j - 1); row_order(d, p, t, i, j - 1); } }
proof fn row_made(d: Seq<u8>, p: int, n: int, t: Seq<AtomInfo>) requires row(d, p, t), row_end(p, t) <= p + n, p + n - row_end(p, t) < 8 || !fits(d, row_end(p, t), p + n - row_end(p, t)) ensures whole_row(d, p, n, t) {}
proof fn nowhere(d: Seq<u8>, meta: AtomInfo, t: Seq<AtomInfo>) requires last_named(t, ilst_()) is None ensures place(d, meta, t, end_of(meta), end_of(meta)) {}
proof fn freshly(new: Seq<u8>, ilst: Seq<u8>, k: int) requires if k == 0 { new == ilst } else { 8 <= k <= 0xffff_ffff && new == ilst + free_atom(k) } ensures fresh(new, ilst) {}
proof fn tagged(t: Seq<AtomInfo>, lo: int, i: int, hi: int) requires 0 <= lo <= i <= hi < t.len(), forall|j: int| lo <= j < i ==> is_named((#[trigger] t[j]).ident, free_()), forall|j: int| i < j <= hi ==> is_named((#[trigger] t[j]).ident, free_()) ensures tag_at(t, lo, i, hi, t[lo].start as int, end_of(t[hi])) {}
proof fn moved_len(d: Seq<u8>, d1: Seq<u8>, x: Tables, at: int, diff: int) requires moved_all(d, d1, x, at, diff) ensures d1.len() == d.len() {}
/// setting the sizes of the parents leaves the tables as they are
proof fn headers(d: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, n: int, m: int)
    requires tables_ok(d, x), is_atom(d, meta.start as int, meta), is_atom(d, udta.start as int, udta), clear_all(x, udta.start as int, udta.start + hdr(d, udta.start as int)), clear_all(x, meta.start as int, end_of(meta)),
    ensures tables_ok(set_len(set_len(d, meta.start as int, meta.extended, n), udta.start as int, udta.extended, m), x), set_len(set_len(d, meta.start as int, meta.extended, n), udta.start as int, udta.extended, m).len() == d.len(),
{
    hide(tables_ok); hide(is_atom); hide(clear); hide(set_len);
    atom_facts(d, meta); atom_facts(d, udta);
    let d1 = set_len(d, meta.start as int, meta.extended, n);
    set_len_kept(d, meta.start as int, meta.extended, n); set_len_kept(d1, udta.start as int, udta.extended, m);
    kept_all(d, d1, x, meta.start as int, end_of(meta));
    kept_all(d1, set_len(d1, udta.start as int, udta.extended, m), x, udta.start as int, udta.start + hdr(d, udta.start as int));
}
fn span(r: &core::ops::Range<usize>) -> (n: usize) requires r.start <= r.end ensures n == r.end - r.start { r.end - r.start }
''',
Fn(IW, 'save_to_existing', sig=[('writer: &AtomWriter,', 'write_handle: &mut Buf, atoms: &Vec<ContextualAtom>,'), ('(meta, meta_data_len, udta): (AtomInfo, u64, AtomInfo)', 'meta: AtomInfo, meta_data_len: u64, udta: AtomInfo'), ('FileEncodingError', 'E')], spec='''
    requires ({ let d = old(write_handle).g().data; let p = old(write_handle).g().at as int; let x = tables(*atoms, *moov);
      &&& d.len() < 0x2000_0000_0000_0000
      &&& is_atom(d, meta.start as int, meta) && is_atom(d, udta.start as int, udta) && udta.start + hdr(d, udta.start as int) <= meta.start && end_of(meta) <= end_of(udta)
      &&& meta.start + hdr(d, meta.start as int) <= p && p + meta_data_len <= d.len() && (meta_data_len > 0 ==> p + meta_data_len <= end_of(meta))
      &&& tables_ok(d, x) && clear_all(x, udta.start as int, udta.start + hdr(d, udta.start as int)) && clear_all(x, meta.start as int, end_of(meta))
      &&& udta.len + ilst@.len() + preferred(write_options) <= 0xffff_ffff && *old(new_udta_size) == udta.len && remove_tag == (ilst@.len() == 0) }),
    ensures r is Ok ==> exists|t: Seq<AtomInfo>, a: int, b: int, new: Seq<u8>| #[trigger] saved(old(write_handle).g().data, final(write_handle).g().data, tables(*atoms, *moov), meta, udta, old(write_handle).g().at as int, meta_data_len as int, t, ilst@, a, b, new)
      && *final(new_udta_size) == udta.len + new.len() - (b - a), r is Ok ==> *final(new_udta_size) <= udta.len + ilst@.len() + preferred(write_options),''',
  head='#[verifier::rlimit(60)]\n',
  subs=HANDLE + [('&mut write_handle', 'write_handle', '*'), ('b"ilst"', 'lit_ilst_slice()'), ('re:\\.map_err\\(Into::<FileParseError>::into\\)\\?', '?', '*'),
    ('re:(\\w+\\.ident) != AtomIdent::Fourcc\\(\\*b"free"\\)', r'!named(&\1, &lit_free())', '*'), ('Err(TooMuchDataError.into())', 'Err(E::new())'),
    ('u64::from(u32::MAX)', '0xffff_ffffu64'), ('Cursor::new(replacement)', 'Buf::over(replacement)'), ('ilst_writer.into_inner()', 'ilst_writer.into_contents()'),
    ('range.len()', 'span(&range)', '*'), ('update_offsets(writer, moov', 'update_offsets(write_handle, atoms, moov'),
    ('let mut replacement;', 'let mut replacement: Vec<u8>;'), ('let range;', 'let range: core::ops::Range<usize>; let ghost mut lo: int = 0; let ghost mut hi: int = 0; let ghost mut gk: int = 0;'),
    ('range_start = atom.start;', 'proof { row_step(d, p, tree@, i as int); row_step(d, p, tree@, i - 1); lo = i - 1; } range_start = atom.start;'),
    ('available_space += atom.len; i += 1;', 'proof { row_step(d, p, tree@, i + 1); hi = i + 1; } available_space += atom.len; i += 1;'),
    ('available_space += atom.len; proof', 'proof { row_step(d, p, tree@, i as int); row_step(d, p, tree@, i - 1); } available_space += atom.len; proof'),
    ('let existing_ilst = &tree[ilst_idx];', 'let existing_ilst = &tree[ilst_idx]; proof { lo = ilst_idx as int; hi = ilst_idx as int; row_step(d, p, tree@, ilst_idx as int); row_in(d, p, tree@, ilst_idx as int); }'),
    ('re:if let Some\\(ilst_idx\\) = ilst_idx \\{', 'proof { last_in(tree@, ilst_()); row_made(d, p, meta_data_len as int, tree@); } if let Some(ilst_idx) = ilst_idx {'),
    ('re:return Ok\(\(\)\);', nth("""proof { tagged(tree@, lo, ilst_idx as int, hi); in_place(d, write_handle.g().data, x, meta, udta, p, meta_data_len as int, tree@, new0, lo, ilst_idx as int, hi, remaining_space as int); free_len(remaining_space as int); } return Ok(());""",
      """proof { as_it_was(d, x, meta, udta, p, meta_data_len as int, tree@, new0); } return Ok(());"""), 2),
    ('difference = atom_size_difference;', 'difference = atom_size_difference; proof { gk = padding_size as int; if padding_size > 0 { free_len(padding_size as int); } }'),
    ('let remaining_space = remaining_space as u32;', 'let remaining_space = remaining_space as u32; proof { over_len(d, range_start as int, new0); row_in(d, p, tree@, hi); }'),
    ('re:let mut new_meta_size', """let ghost a = range.start as int; let ghost b = range.end as int;
      proof { if ilst_idx is Some { tagged(tree@, lo, ilst_idx->0 as int, ilst_idx->0 as int); taken(d, meta, p, meta_data_len as int, tree@, lo, ilst_idx->0 as int); } else { nowhere(d, meta, tree@); }
        assert(replacement@ =~= new0); } let mut new_meta_size"""),
    ('re:if new_meta_size != meta\\.len \\{', """let ghost nw = replacement@; let ghost diff = nw.len() - (b - a);
      proof { freshly(nw, new0, gk); assert(difference == diff); assert(new_meta_size == meta.len + diff); headers(d, x, meta, udta, meta.len + diff, udta.len + diff); } if new_meta_size != meta.len {"""),
    ('re:writer\\.splice\\(range, replacement\\);|write_handle\\.splice\\(range, replacement\\);', """let ghost d2 = write_handle.g().data; proof { if diff != 0 { moved_len(set_len(set_len(d, meta.start as int, meta.extended, meta.len + diff), udta.start as int, udta.extended, udta.len + diff), d2, x, a, diff); } } write_handle.splice(range, replacement);
      proof { put(d, d2, write_handle.g().data, x, meta, udta, p, meta_data_len as int, tree@, new0, a, b, nw); }"""),
  ],
  loops=['''invariant row(d, p, tree@), d.len() < 0x2000_0000_0000_0000, hi == ilst_idx, 0 <= i <= ilst_idx < tree@.len(), lo == i, range_start == tree@[i as int].start, available_space == end_of(tree@[ilst_idx as int]) - range_start, end_of(tree@[ilst_idx as int]) <= d.len(), forall|j: int| i <= j < ilst_idx ==> is_named((#[trigger] tree@[j]).ident, free_()),
      decreases i''',
    '''invariant row(d, p, tree@), d.len() < 0x2000_0000_0000_0000, ilst_idx <= i < tree@.len(), hi == i, available_space == end_of(tree@[i as int]) - range_start, end_of(tree@[i as int]) <= d.len(), forall|j: int| ilst_idx < j <= i ==> is_named((#[trigger] tree@[j]).ident, free_()),
      decreases tree@.len() - i'''],
  ins=[('start', '', 'hide(row); hide(is_atom); hide(tables_ok); hide(moved_all); hide(last_named); hide(fits); hide(tables); hide(ident_ok); hide(saved); hide(free_atom); hide(clear_all); hide(set_len); hide(over); hide(resized); hide(place); hide(fresh); hide(whole_row); hide(tag_at); hide(meta_bytes); hide(clear); hide(ext); hide(raw_len); hide(row_end); let ghost d = write_handle.g().data; let ghost p = write_handle.g().at as int; let ghost x = tables(*atoms, *moov); let ghost new0 = ilst@; proof { ilst_named(); atom_facts(d, meta); atom_facts(d, udta); }'),
    ('before', 're-none', '')] [:1]),
]

TOP = ['''
/// the tables fit in their atoms, and with the new tag `moov` stays below 4 GiB
pub open spec fn savable(d: Seq<u8>, n: int) -> bool {
    forall|e: int, v: Vec<ContextualAtom>, m: int| #[trigger] chain(d, 0, e, v@) && 0 <= m < v@.len() && is_named((#[trigger] v@[m]).info.ident, moov_()) ==> tables_fit(d, tables(v, v@[m])) && v@[m].info.len + n <= 0xffff_ffff
}
/// `new` put in at `a`, after the offsets behind it have moved
pub open spec fn put_in(d2: Seq<u8>, a: int, new: Seq<u8>) -> Seq<u8> { spliced(d2, a, a, new) }
/// a `moov` without `udta` gets one, at its start
pub open spec fn new_udta(d: Seq<u8>, out: Seq<u8>, x: Tables, moov: AtomInfo, ilst: Seq<u8>) -> bool {
    let p = moov.start + hdr(d, moov.start as int); let new = udta_bytes(ilst); let k = new.len() as int;
    &&& first(d, p, moov.len - hdr(d, moov.start as int), udta_()) is None
    &&& exists|d2: Seq<u8>| #[trigger] moved_all(d, d2, x, p, k) && out == set_len(put_in(d2, p, new), moov.start as int, moov.extended, moov.len + k)
}
/// a `udta` without `meta` gets one, at its start
pub open spec fn new_meta(d: Seq<u8>, out: Seq<u8>, x: Tables, moov: AtomInfo, udta: AtomInfo, ilst: Seq<u8>) -> bool {
    let p = udta.start + hdr(d, udta.start as int); let new = meta_bytes(ilst); let k = new.len() as int;
    &&& is_atom(d, udta.start as int, udta) && first(d, moov.start + hdr(d, moov.start as int), moov.len - hdr(d, moov.start as int), udta_()) == Some(udta.start as int)
    &&& first(d, p, udta.len - hdr(d, udta.start as int), meta_()) is None
    &&& exists|d2: Seq<u8>| #[trigger] moved_all(d, d2, x, p, k) && out == set_len(put_in(set_len(d2, udta.start as int, udta.extended, udta.len + k), p, new), moov.start as int, moov.extended, moov.len + k)
}
/// the tag of a `meta` is replaced
pub open spec fn new_tag(d: Seq<u8>, out: Seq<u8>, x: Tables, moov: AtomInfo, udta: AtomInfo, meta: AtomInfo, mid: Seq<u8>, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>, a: int, b: int, new: Seq<u8>) -> bool {
    &&& is_atom(d, udta.start as int, udta) && first(d, moov.start + hdr(d, moov.start as int), moov.len - hdr(d, moov.start as int), udta_()) == Some(udta.start as int)
    &&& is_atom(d, meta.start as int, meta) && first(d, udta.start + hdr(d, udta.start as int), udta.len - hdr(d, udta.start as int), meta_()) == Some(meta.start as int)
    &&& saved(d, mid, x, meta, udta, p, n, t, ilst, a, b, new)
    &&& out == set_len(mid, moov.start as int, moov.extended, moov.len + new.len() - (b - a))
}
/// what saving may make of a file
pub open spec fn outcome(d: Seq<u8>, out: Seq<u8>, v: Vec<ContextualAtom>, m: int, ilst: Seq<u8>) -> bool {
    let x = tables(v, v@[m]); let moov = v@[m].info;
    ||| ilst.len() == 0 && out == d
    ||| new_udta(d, out, x, moov, ilst)
    ||| exists|udta: AtomInfo| #[trigger] new_meta(d, out, x, moov, udta, ilst)
    ||| exists|udta: AtomInfo, meta: AtomInfo, mid: Seq<u8>, p: int, n: int, t: Seq<AtomInfo>, a: int, b: int, new: Seq<u8>| #[trigger] new_tag(d, out, x, moov, udta, meta, mid, p, n, t, ilst, a, b, new)
}
/// a file's atoms up to the first that cannot be read, and the first `moov` among them
pub open spec fn result(d: Seq<u8>, out: Seq<u8>, v: Vec<ContextualAtom>, e: int, m: int, ilst: Seq<u8>) -> bool {
    chain(d, 0, e, v@) && 0 <= m < v@.len() && is_named(v@[m].info.ident, moov_()) && (forall|j: int| 0 <= j < m ==> !is_named((#[trigger] v@[j]).info.ident, moov_())) && outcome(d, out, v, m, ilst)
}
/// reads the file
#[verifier::external_body]
fn verified(file: &mut Buf) -> (r: Result<(), E>) ensures final(file).g().data == old(file).g().data { unimplemented!() }
/// the tables are not in the headers of `moov` and `udta`, and not in `meta`
proof fn moov_clear(d: Seq<u8>, e: int, v: Vec<ContextualAtom>, m: int, udta: AtomInfo)
    requires chain(d, 0, e, v@), 0 <= m < v@.len(), is_named(v@[m].info.ident, moov_()), tables_fit(d, tables(v, v@[m])), is_atom(d, udta.start as int, udta), is_named(udta.ident, udta_()),
        first(d, v@[m].info.start + hdr(d, v@[m].info.start as int), v@[m].info.len - hdr(d, v@[m].info.start as int), udta_()) == Some(udta.start as int),
    ensures clear_all(tables(v, v@[m]), udta.start as int, udta.start + hdr(d, udta.start as int)), v@[m].info.start + hdr(d, v@[m].info.start as int) <= udta.start, end_of(udta) <= end_of(v@[m].info), udta.len <= v@[m].info.len,
{
    hide(shape); hide(pos); hide(chain); hide(is_atom); hide(coll); hide(first); hide(tfhds);
    names(); containers_ok(); link(d, 0, e, v@, m); tree_tables(d, e, v, m);
    let q = pos(v@, 0, m) + hdr(d, pos(v@, 0, m)); let end = end_of(v@[m].info); let c = v@[m].children;
    ends(d, q, end, c@);
    let j = first_in(d, q, end, c@, 0, udta_());
    link(d, q, end, c@, j); pos_le(d, q, end, c@, 0, j);
    coll_clear(d, q, end, c, 0, stco_(), j); coll_clear(d, q, end, c, 0, co64_(), j);
    same_atom(d, udta, c@[j].info);
}
proof fn same_atom(d: Seq<u8>, a: AtomInfo, b: AtomInfo) requires is_atom(d, a.start as int, a), is_atom(d, b.start as int, b), a.start == b.start ensures a.len == b.len, a.extended == b.extended, end_of(a) == end_of(b) {}
proof fn meta_clear(d: Seq<u8>, e: int, v: Vec<ContextualAtom>, m: int, udta: AtomInfo, meta: AtomInfo)
    requires chain(d, 0, e, v@), 0 <= m < v@.len(), is_named(v@[m].info.ident, moov_()), tables_fit(d, tables(v, v@[m])), is_atom(d, udta.start as int, udta), is_named(udta.ident, udta_()), is_udta_container(),
        first(d, v@[m].info.start + hdr(d, v@[m].info.start as int), v@[m].info.len - hdr(d, v@[m].info.start as int), udta_()) == Some(udta.start as int),
        is_atom(d, meta.start as int, meta), is_named(meta.ident, meta_()), first(d, udta.start + hdr(d, udta.start as int), udta.len - hdr(d, udta.start as int), meta_()) == Some(meta.start as int),
    ensures clear_all(tables(v, v@[m]), meta.start as int, end_of(meta)), udta.start + hdr(d, udta.start as int) <= meta.start, end_of(meta) <= end_of(udta),
{
    hide(shape); hide(pos); hide(chain); hide(is_atom); hide(coll); hide(first); hide(tfhds);
    names(); containers_ok(); link(d, 0, e, v@, m); tree_tables(d, e, v, m);
    let q = pos(v@, 0, m) + hdr(d, pos(v@, 0, m)); let end = end_of(v@[m].info); let c = v@[m].children;
    ends(d, q, end, c@);
    let j = first_in(d, q, end, c@, 0, udta_());
    link(d, q, end, c@, j); pos_le(d, q, end, c@, 0, j);
    same_atom(d, udta, c@[j].info);
    let u = c@[j].info; let q2 = u.start + hdr(d, u.start as int); let end2 = end_of(u); let c2 = c@[j].children;
    ends(d, q2, end2, c2@);
    let k = first_in(d, q2, end2, c2@, 0, meta_());
    link(d, q2, end2, c2@, k); pos_le(d, q2, end2, c2@, 0, k);
    same_atom(d, meta, c2@[k].info);
    coll_clear2(d, q, end, c, 0, stco_(), j, k); coll_clear2(d, q, end, c, 0, co64_(), j, k);
}
/// `now` is what comes before the size of `moov` grows by `k`
pub open spec fn ready(d: Seq<u8>, now: Seq<u8>, v: Vec<ContextualAtom>, m: int, ilst: Seq<u8>, k: int) -> bool { outcome(d, set_len(now, v@[m].info.start as int, v@[m].info.extended, v@[m].info.len + k), v, m, ilst) }
proof fn ready_udta(d: Seq<u8>, d2: Seq<u8>, v: Vec<ContextualAtom>, m: int, ilst: Seq<u8>)
    requires ({ let moov = v@[m].info; let p = moov.start + hdr(d, moov.start as int); let new = udta_bytes(ilst);
      first(d, p, moov.len - hdr(d, moov.start as int), udta_()) is None && moved_all(d, d2, tables(v, v@[m]), p, new.len() as int) }),
    ensures ready(d, put_in(d2, v@[m].info.start + hdr(d, v@[m].info.start as int), udta_bytes(ilst)), v, m, ilst, udta_bytes(ilst).len() as int),
{
    hide(moved_all); hide(first); hide(set_len); hide(udta_bytes); hide(put_in); hide(tables); hide(hdr);
    let moov = v@[m].info; let p = moov.start + hdr(d, moov.start as int); let new = udta_bytes(ilst); let k = new.len() as int;
    assert(new_udta(d, set_len(put_in(d2, p, new), moov.start as int, moov.extended, moov.len + k), tables(v, v@[m]), moov, ilst));
}
proof fn ready_meta(d: Seq<u8>, d2: Seq<u8>, v: Vec<ContextualAtom>, m: int, udta: AtomInfo, ilst: Seq<u8>)
    requires ({ let moov = v@[m].info; let p = udta.start + hdr(d, udta.start as int); let new = meta_bytes(ilst);
      is_atom(d, udta.start as int, udta) && first(d, moov.start + hdr(d, moov.start as int), moov.len - hdr(d, moov.start as int), udta_()) == Some(udta.start as int) && first(d, p, udta.len - hdr(d, udta.start as int), meta_()) is None && moved_all(d, d2, tables(v, v@[m]), p, new.len() as int) }),
    ensures ready(d, put_in(set_len(d2, udta.start as int, udta.extended, udta.len + meta_bytes(ilst).len()), udta.start + hdr(d, udta.start as int), meta_bytes(ilst)), v, m, ilst, meta_bytes(ilst).len() as int),
{
    hide(moved_all); hide(first); hide(set_len); hide(meta_bytes); hide(put_in); hide(tables); hide(is_atom); hide(hdr);
    let moov = v@[m].info; let p = udta.start + hdr(d, udta.start as int); let new = meta_bytes(ilst); let k = new.len() as int;
    assert(new_meta(d, set_len(put_in(set_len(d2, udta.start as int, udta.extended, udta.len + k), p, new), moov.start as int, moov.extended, moov.len + k), tables(v, v@[m]), moov, udta, ilst));
}
proof fn ready_tag(d: Seq<u8>, mid: Seq<u8>, v: Vec<ContextualAtom>, m: int, udta: AtomInfo, meta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>, a: int, b: int, new: Seq<u8>)
    requires ({ let moov = v@[m].info;
      is_atom(d, udta.start as int, udta) && first(d, moov.start + hdr(d, moov.start as int), moov.len - hdr(d, moov.start as int), udta_()) == Some(udta.start as int)
      && is_atom(d, meta.start as int, meta) && first(d, udta.start + hdr(d, udta.start as int), udta.len - hdr(d, udta.start as int), meta_()) == Some(meta.start as int)
      && saved(d, mid, tables(v, moov_of(v, m)), meta, udta, p, n, t, ilst, a, b, new) }),
    ensures ready(d, mid, v, m, ilst, new.len() - (b - a)),
{
    hide(saved); hide(first); hide(set_len); hide(tables); hide(is_atom); hide(hdr);
    let moov = v@[m].info;
    assert(new_tag(d, set_len(mid, moov.start as int, moov.extended, moov.len + new.len() - (b - a)), tables(v, v@[m]), moov, udta, meta, mid, p, n, t, ilst, a, b, new));
}
proof fn nothing(d: Seq<u8>, v: Vec<ContextualAtom>, m: int, ilst: Seq<u8>) requires ilst.len() == 0 ensures outcome(d, d, v, m, ilst) {}
proof fn done(d: Seq<u8>, now: Seq<u8>, v: Vec<ContextualAtom>, m: int, ilst: Seq<u8>, k: int) requires ready(d, now, v, m, ilst, k) ensures outcome(d, set_len(now, v@[m].info.start as int, v@[m].info.extended, v@[m].info.len + k), v, m, ilst) {}
proof fn saved_len(d: Seq<u8>, out: Seq<u8>, x: Tables, meta: AtomInfo, udta: AtomInfo, p: int, n: int, t: Seq<AtomInfo>, ilst: Seq<u8>, a: int, b: int, new: Seq<u8>)
    requires saved(d, out, x, meta, udta, p, n, t, ilst, a, b, new), is_atom(d, meta.start as int, meta), is_atom(d, udta.start as int, udta),
    ensures out.len() >= meta.start, out.len() == d.len() + new.len() - (b - a),
{
    hide(moved_all); hide(whole_row); hide(place); hide(fresh); hide(set_len);
    atom_facts(d, meta); atom_facts(d, udta);
    if new.len() != b - a {
        let diff = new.len() - (b - a); let d0 = set_len(d, meta.start as int, meta.extended, meta.len + diff); let d1 = set_len(d0, udta.start as int, udta.extended, udta.len + diff);
        set_len_kept(d, meta.start as int, meta.extended, meta.len + diff); set_len_kept(d0, udta.start as int, udta.extended, udta.len + diff);
        let d2 = choose|d2: Seq<u8>| #[trigger] moved_all(d1, d2, x, a, diff) && out == spliced(d2, a, b, new);
        moved_len(d1, d2, x, a, diff);
    }
}
pub open spec fn moov_of(v: Vec<ContextualAtom>, m: int) -> ContextualAtom { v@[m] }
pub open spec fn is_udta_container() -> bool { is_container(udta_()) }
proof fn udta_container() ensures is_udta_container() { names(); }
proof fn lens(ilst: Seq<u8>) requires ilst.len() <= 0xffff_0000 ensures meta_bytes(ilst).len() == 45 + ilst.len(), udta_bytes(ilst).len() == 53 + ilst.len() { broadcast use p32_ok, p64_ok; names(); }
proof fn five() ensures udta_() != dashes(), meta_() != dashes(), moov_() != dashes() { names(); }
''',
Fn(IW, 'write_to', sig=[("write_to<'a, F, I>", 'write_to'), ("file: VerifiedFile<'_, F>", 'file: &mut Buf'), ("tag: &mut IlstRef<'a, I>", 'built: Result<Vec<u8>, E>'), ('FileEncodingError', 'E'), ("where F: FileLike, I: IntoIterator<Item = &'a AtomData> + 'a,", '')], spec='''
    requires old(file).g().data.len() < 0x1000_0000_0000_0000, built matches Ok(l) ==> savable(old(file).g().data, l@.len() + preferred(write_options) + 0x10000),
    ensures r is Ok ==> (built matches Ok(l) && exists|v: Vec<ContextualAtom>, e: int, m: int| #[trigger] result(old(file).g().data, final(file).g().data, v, e, m, l@)),''',
  head='',
  subs=[('re:let file = file\\.into_inner\\(\\);.*?let mut file = reader\\.into_inner\\(\\);', 'verified(file)?;'),
    ('re:let mut atom_writer =\\s*AtomWriter::new_from_file\\(&mut file, ([\\w.]+)\\)\\s*\\.map_err\\(Into::<FileParseError>::into\\)\\?;', r'let (write_handle0, atoms) = new_from_file(file, \1)?; let mut write_handle = write_handle0;'),
    ('re:let Some\\(moov\\) = atom_writer\\.find_contextual_atom\\(\\*b"moov"\\) else \\{(.*?)\\};', r'let next = find_contextual_atom(&atoms, lit_moov()); if next.is_none() { \1 } let moov = next.unwrap();\n      let ghost e = choose|e: int| e <= d.len() && #[trigger] chain(d, 0, e, atoms@); let ghost m = choose|i: int| 0 <= i < atoms@.len() && #[trigger] atoms@[i] == *moov && is_named(moov.info.ident, moov_()) && forall|j: int| 0 <= j < i ==> !is_named((#[trigger] atoms@[j]).info.ident, moov_());\n      let ghost x = tables(atoms, *moov); proof { link(d, 0, e, atoms@, m); atom_facts(d, moov.info); }'),
    ('re:FileParseError::from\\(Mp4ParseError::missing_moov\\(\\)\\)\\.into\\(\\)', 'E::new()'),
    ('re:(?:let mut )?write_handle = atom_writer\\.start_write\\(\\);', '', '*'), ('re:drop\\(write_handle\\);', '', '*'),
    ('re:let ilst = build_ilst\\(&mut tag\\.atoms, write_options\\)\\.map_err\\(TagEncodingError::from\\)\\?;', 'let ilst = built?; let ghost il = ilst@; proof { assert(chain(d, 0, e, atoms@) && atoms@[m] == *moov); assert(tables_fit(d, x)); tree_tables(d, e, atoms, m); lens(il); } '),
    ('re:\\s*\\.map_err\\(handle_atom_parse_error\\)\\?', '?', '*'), ('*b"udta"', 'lit_udta()'), ('*b"meta"', 'lit_meta()'),
    ('meta_data_len.saturating_sub(4)', 'sat_sub(meta_data_len, 4)'),
    ('re:save_to_existing\\(\\s*&atom_writer,\\s*moov,\\s*\\(meta, meta_data_len, udta\\),(.*?)\\)\\?', r'''let ghost p = write_handle.g().at as int; let ghost gm = meta; let ghost gu = udta; proof { meta_clear(d, e, atoms, m, udta, meta); }
      save_to_existing(&mut write_handle, &atoms, moov, meta, meta_data_len, udta,\1)?;
      proof { let (t, a, b, new) = choose|t: Seq<AtomInfo>, a: int, b: int, new: Seq<u8>| #[trigger] saved(d, write_handle.g().data, x, gm, gu, p, meta_data_len as int, t, il, a, b, new) && new_udta_size == gu.len + new.len() - (b - a);
        saved_len(d, write_handle.g().data, x, gm, gu, p, meta_data_len as int, t, il, a, b, new); ready_tag(d, write_handle.g().data, atoms, m, gu, gm, p, meta_data_len as int, t, il, a, b, new); }'''),
    ('re:update_offsets\(&atom_writer, moov, (.*?)\)\?;', nth('update_offsets(&mut write_handle, &atoms, moov, bytes.len() as i64, meta_start_pos)?; let ghost d2 = write_handle.g().data; proof { moved_len(d, d2, x, meta_start_pos as int, bytes@.len() as int); }',
       'update_offsets(&mut write_handle, &atoms, moov, bytes.len() as i64, moov_data_start)?; let ghost d2 = write_handle.g().data; proof { moved_len(d, d2, x, moov_data_start as int, bytes@.len() as int); }'), 2),
    ('write_handle.splice(meta_start_pos..meta_start_pos, bytes);', 'write_handle.splice(meta_start_pos..meta_start_pos, bytes); proof { ready_meta(d, d2, atoms, m, udta, il); }'),
    ('write_handle.splice(udta_pos..udta_pos, bytes);', 'write_handle.splice(udta_pos..udta_pos, bytes); proof { ready_udta(d, d2, atoms, m, il); }'),
    ('re:return Ok\(\(\)\);', 'proof { nothing(d, atoms, m, il); assert(result(d, file.g().data, atoms, e, m, il)); } return Ok(());', 2),
    ('let new_moov_length =', 'let ghost now = write_handle.g().data; let ghost k = new_udta_size - existing_udta_size; proof { assert(ready(d, now, atoms, m, il, k)); } let new_moov_length ='),
    ('re:if let Some\(udta\) = udta \{', 'if let Some(udta) = udta { proof { moov_clear(d, e, atoms, m, udta); atom_facts(d, udta); }'),
    ('re:Some\(meta\) => \{', 'Some(meta) => { proof { atom_facts(d, meta); }'),
    ('re:let meta_writer =\\s*AtomWriter::new\\(buf, [\\w.]+\\);', 'let mut meta_writer = Buf::over(buf);'), ('create_meta(&meta_writer, &ilst)', 'create_meta(&mut meta_writer, &ilst)'),
    ('let buf = Vec::with_capacity(capacity);', 'let buf: Vec<u8> = Vec::with_capacity(capacity);'),
    ('atom_writer.save_to(&mut file)?;', 'save_to(&write_handle, file)?; proof { done(d, now, atoms, m, il, k); assert(result(d, file.g().data, atoms, e, m, il)); }'),
  ],
  ins=[('start', '', 'hide(chain); hide(is_atom); hide(tables_ok); hide(tables_fit); hide(first); hide(fits); hide(tables); hide(clear_all); hide(set_len); hide(saved); hide(meta_bytes); hide(udta_bytes); hide(moved_all); hide(ident_ok); hide(is_container); hide(outcome); hide(ready); let ghost d = file.g().data; proof { five(); udta_container(); }'),
  ]),
]
PARTS = [mp4.PRELUDE, Item(A, 'const', 'FOURCC_LEN'), Item(A, 'const', 'IDENTIFIER_LEN'), Item(A, 'const', 'ATOM_HEADER_LEN'),
Item(A, 'struct', 'AtomInfo', subs=[("AtomIdent<'static>", 'AtomIdent')]), mp4.READ,
Fn(A, 'header_size', impl='impl AtomInfo', spec='ensures r == if self.extended { 16u64 } else { 8 },'),
'}', Gen(lambda Src: mp4.containers(Src, Lost)), mp4.TREE, '''
/// the atoms the offsets of the media data are in can be found: ISO 14496-12 8.1 to 8.8
proof fn containers_ok()
    ensures is_container(moov_()), is_container(trak_()), is_container(mdia_()), is_container(minf_()), is_container(stbl_()), is_container(moof_()), is_container(traf_()),
        !is_container(meta_()), !is_container(stco_()), !is_container(co64_()), !is_container(tfhd_()), !is_container(dashes()),
{ names(); assert(dashes()[0] == 0x2d); }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
#[verifier::external_body]
fn important(i: &AtomIdent) -> (r: bool) ensures r == (i matches AtomIdent::Fourcc(f) && is_container(f@)) { unimplemented!() }
#[verifier::external_body]
fn is_meta(i: &AtomIdent) -> (r: bool) ensures r == is_named(*i, meta_()) { unimplemented!() }
#[verifier::external_body]
fn bare(i: &[u8; 4]) -> (r: bool) ensures r == (i@ == seq![0x68u8, 0x64, 0x6c, 0x72] || i@ == ilst_() || i@ == seq![0x6du8, 0x68, 0x64, 0x72] || i@ == seq![0x63u8, 0x74, 0x72, 0x79] || i@ == seq![0x6cu8, 0x61, 0x6e, 0x67]) { unimplemented!() }
fn same4(a: &[u8; 4], b: &[u8; 4]) -> (r: bool) ensures r == (a@ == b@) { if a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] { proof { assert(a@ =~= b@); } true } else { false } }
#[verifier::external_body]
fn same_slice(a: &[u8; 4], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// the first child named `x` of the atoms from `p` on
pub open spec fn first(d: Seq<u8>, p: int, len: int, x: Seq<u8>) -> Option<int> decreases len {
    if len < 8 || !fits(d, p, len) { None } else if ident_at(d, p) == x { Some(p) } else { first(d, p + len_at(d, p), len - len_at(d, p), x) }
}
/// the atoms `t` from `p` on, as far as they can be read
pub open spec fn row(d: Seq<u8>, p: int, t: Seq<AtomInfo>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> is_atom(d, if i == 0 { p } else { t[i - 1].start + t[i - 1].len }, #[trigger] t[i])
}
pub open spec fn row_end(p: int, t: Seq<AtomInfo>) -> int { if t.len() == 0 { p } else { t.last().start + t.last().len } }
pub open spec fn last_named(t: Seq<AtomInfo>, x: Seq<u8>) -> Option<int> decreases t.len() {
    if t.len() == 0 { None } else if is_named(t.last().ident, x) { Some(t.len() - 1) } else { last_named(t.drop_last(), x) }
}
''',
Fn(R, 'find_child_atom', sig=sig('find_child_atom'), spec=f'''
    requires {NOW}, old(reader).g().at + len <= old(reader).g().data.len(), expected@ != dashes(),
    ensures final(reader).g().data == old(reader).g().data,
      r matches Ok(Some(a)) ==> ({{ let d = old(reader).g().data; first(d, old(reader).g().at as int, len as int, expected@) == Some(a.start as int) && is_atom(d, a.start as int, a) && is_named(a.ident, expected@)
          && a.start >= old(reader).g().at && a.start + a.len <= old(reader).g().at + len && final(reader).g().at == a.start + hdr(d, a.start as int) }}),
      r matches Ok(None) ==> first(old(reader).g().data, old(reader).g().at as int, len as int, expected@) is None,''',
   head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
   subs=[('re:match atom\\.ident \\{\\s*AtomIdent::Fourcc\\(fourcc\\) if fourcc == expected => (\\{.*?\\}),\\s*_ => (\\{.*?\\}),\\s*\\}', r'if named(&atom.ident, &expected) \1 else \2'),
     ('let mut ret = None', 'let mut ret: Option<AtomInfo> = None'), ('re:len\\.saturating_sub\\(atom\\.len\\)', 'sat_sub(len, atom.len)'),
     ('re:let Some\\(atom\\) = (.*?)\\s+else\\s*\\{\\s*break;\\s*\\};', r'let next = \1; if next.is_none() { break; } let atom = next.unwrap();')],
   loops=['''invariant_except_break reader.g().at + len <= d.len(), at0 <= reader.g().at, ret is None, reader.g().at + len == at0 + len0,
        first(d, reader.g().at as int, len as int, expected@) == first(d, at0, len0, expected@),
      invariant reader.g().data == d, d.len() < 0x8000_0000_0000_0000, expected@ != dashes(),
      ensures
        ret matches Some(a) ==> first(d, at0, len0, expected@) == Some(a.start as int) && is_atom(d, a.start as int, a) && is_named(a.ident, expected@) && at0 <= a.start && a.start + a.len <= at0 + len0 && reader.g().at == a.start + hdr(d, a.start as int),
        ret is None ==> first(d, at0, len0, expected@) is None,
      decreases len'''],
   ins=[('start', '', 'let ghost d = reader.g().data; let ghost at0 = reader.g().at as int; let ghost len0 = len as int;')]),
'''
fn named(i: &AtomIdent, x: &[u8; 4]) -> (r: bool) ensures r == is_named(*i, x@) { match i { AtomIdent::Fourcc(f) => same4(f, x), _ => false } }
fn named_slice(i: &AtomIdent, x: &[u8]) -> (r: bool) ensures r == is_named(*i, x@) { match i { AtomIdent::Fourcc(f) => same_slice(f, x), _ => false } }
''',
Fn(R, 'atom_tree', sig=sig('atom_tree', 'Mp4ParseError'), spec=f'''
    requires {NOW}, old(reader).g().at + len <= old(reader).g().data.len(), up_to@ != dashes(),
    ensures final(reader).g().data == old(reader).g().data,
      r matches Ok((found, t)) ==> ({{ let d = old(reader).g().data; let p = old(reader).g().at as int;
          &&& row(d, p, t@) && row_end(p, t@) <= p + len
          &&& p + len - row_end(p, t@) < 8 || !fits(d, row_end(p, t@), p + len - row_end(p, t@))
          &&& match found {{ Some(i) => last_named(t@, up_to@) == Some(i as int), None => last_named(t@, up_to@) is None }} }}),''',
   head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
   subs=[('re:if let AtomIdent::Fourcc\\(ref fourcc\\) = atom\\.ident\\s*\\{ if\\s+fourcc == up_to\\s*(\\{.*?\\}) \\}', r'if named_slice(&atom.ident, up_to) \1'),
     ('re:len\\.saturating_sub\\(atom\\.len\\)', 'sat_sub(len, atom.len)'),
     ('re:let Some\\(atom\\) = (.*?)\\s+else\\s*\\{\\s*break;\\s*\\};', r'let next = \1; if next.is_none() { break; } let atom = next.unwrap();'),
     ('let mut buf = Vec::new()', 'let mut buf: Vec<AtomInfo> = Vec::new()'), ('let mut found_idx = None', 'let mut found_idx: Option<usize> = None'),
     ('buf.push(atom);', '''let ghost t0 = buf@; buf.push(atom); proof { assert(buf@.drop_last() =~= t0); assert(buf@.last() == atom);
        assert forall|i: int| 0 <= i < buf@.len() implies is_atom(d, if i == 0 { p } else { buf@[i - 1].start + buf@[i - 1].len }, #[trigger] buf@[i]) by { if i < t0.len() { assert(buf@[i] == t0[i]); if i > 0 { assert(buf@[i - 1] == t0[i - 1]); } } else { if i > 0 { assert(buf@[i - 1] == t0.last()); } } } }''')],
   loops=['''invariant_except_break reader.g().at + len <= d.len(), reader.g().at == row_end(p, buf@), p + len0 == reader.g().at + len,
      invariant reader.g().data == d, d.len() < 0x8000_0000_0000_0000, up_to@ != dashes(), row(d, p, buf@), row_end(p, buf@) <= p + len0,
        match found_idx { Some(i) => last_named(buf@, up_to@) == Some(i as int), None => last_named(buf@, up_to@) is None },
      ensures p + len0 - row_end(p, buf@) < 8 || !fits(d, row_end(p, buf@), p + len0 - row_end(p, buf@)),
      decreases len'''],
   ins=[('start', '', 'let ghost d = reader.g().data; let ghost p = reader.g().at as int; let ghost len0 = len as int;')]),
Fn(R, 'meta_is_full', sig=sig('meta_is_full'), spec=f'''
    requires {NOW},
    ensures final(reader).g().data == old(reader).g().data,
      r matches Ok(full) ==> old(reader).g().at + 8 <= old(reader).g().data.len() && final(reader).g().at == old(reader).g().at + (if full {{ 4int }} else {{ 0 }}),''',
   subs=[('re:match &possible_ident \\{\\s*b"hdlr" \\| b"ilst" \\| b"mhdr" \\| b"ctry" \\| b"lang" => (\\{.*?\\}),\\s*_ => (\\{.*?\\}),\\s*\\}', r'if bare(&possible_ident) \1 else \2'),
     ('re:let mut possible_ident = \\[0; 4\\]', 'let mut possible_ident = [0u8; 4]'), ('reader.read_exact(&mut possible_ident)', 'reader.read_exact4(&mut possible_ident)')]),
'impl ContextualAtom {',
Fn(W, 'read', impl='impl ContextualAtom', sig=sig('read'), spec=f'''
    requires {NOW}, old(reader).g().at + *old(reader_len) <= old(reader).g().data.len(),
    ensures final(reader).g().data == old(reader).g().data,
      r matches Ok(Some(a)) ==> ({{ let p = old(reader).g().at as int;
          &&& shape(old(reader).g().data, p, a)
          &&& a.info.len <= *old(reader_len) && *final(reader_len) == *old(reader_len) - a.info.len && final(reader).g().at == p + a.info.len }}),
      r matches Ok(None) ==> *final(reader_len) == *old(reader_len) && (if *old(reader_len) == 0 {{ final(reader).g().at == old(reader).g().at }} else {{ !fits(old(reader).g().data, old(reader).g().at as int, *old(reader_len) as int) }}),
    decreases *old(reader_len),''',
   head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
   subs=[(MSG, 'E::new()', '*'),
     ('re:match info\\.ident \\{\\s*AtomIdent::Fourcc\\(ident\\) if IMPORTANT_CONTAINERS\\.contains\\(&ident\\) => \\{\\},\\s*_ => (\\{.*?children: Vec::new\\(\\),?\\s*\\}\\)\\);\\s*\\}),\\s*\\}', r'if !important(&info.ident) \1'),
     ('re:(\\w+)\\.saturating_sub\\(info\\.len\\)', r'sat_sub(*\1, info.len)', 2), ('info.ident == META_ATOM_IDENT', 'is_meta(&info.ident)'),
     ('re:let Some\\(info\\) = (.*?)\\s+else\\s*\\{\\s*return Ok\\(None\\);\\s*\\};', r'let next = \1; if next.is_none() { return Ok(None); } let info = next.unwrap();'),
     ('Ok(Some(ContextualAtom { info, children }))', 'let a0 = ContextualAtom { info, children }; proof { assert(is_atom(d, p, a0.info)); assert(shape(d, p, a0)); } Ok(Some(a0))'),
     ('let mut children = Vec::new();', 'let mut children: Vec<ContextualAtom> = Vec::new();'),
     ('re:while let Some\\(child\\) = (Self::read\\(.*?\\)\\?) \\{\\s*children\\.push\\(child\\);\\s*\\}', r'''loop { let next = \1; if next.is_none() { break; } let child = next.unwrap(); let ghost v0 = children@; let ghost l0 = pos(v0, q, v0.len() as int); children.push(child);
        proof { assert forall|i: int| 0 <= i < children@.len() implies shape(d, pos(children@, q, i), #[trigger] children@[i]) by { if i < v0.len() { assert(children@[i] == v0[i]); if i > 0 { assert(children@[i - 1] == v0[i - 1]); } assert(pos(children@, q, i) == pos(v0, q, i)); }
          else { assert(children@[i] == child); if i > 0 { assert(children@[i - 1] == v0[i - 1]); } assert(pos(children@, q, i) == pos(v0, q, i)); } } } }''')],
   loops=['''invariant_except_break reader.g().at == pos(children@, q, children@.len() as int), reader.g().at + len == p + info.len,
      invariant reader.g().data == d, forall|i: int| 0 <= i < children@.len() ==> shape(d, pos(children@, q, i), #[trigger] children@[i]),
        len < *old(reader_len),
      ensures len == 0 ==> pos(children@, q, children@.len() as int) == p + info.len && reader.g().at == p + info.len,
      decreases len'''],
   ins=[('start', '', 'let ghost d = reader.g().data; let ghost p = reader.g().at as int; let ghost q = p + hdr(d, p); proof { names(); containers_ok(); }')]),
Fn(W, 'find_all_children', impl='impl ContextualAtom', sig=[("AtomFindAll<std::slice::Iter<'_, ContextualAtom>>", "AtomFindAll<'_>")], spec='''
    ensures todo(r) == coll(self.children, 0, expected@, recurse), good(r), r.expected_fourcc == expected, r.recurse == recurse,''',
   subs=[('self.children.iter()', 'Iter { v: &self.children, i: 0 }')]),
'}', '''
struct Iter<'a> { v: &'a Vec<ContextualAtom>, i: usize }
impl<'a> Iter<'a> {
    fn next(&mut self) -> (r: Option<&'a ContextualAtom>)
        requires old(self).i <= old(self).v@.len(),
        ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(),
            match r { Some(a) => old(self).i < old(self).v@.len() && *a == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
    { if self.i < self.v.len() { let a = &self.v[self.i]; self.i = self.i + 1; Some(a) } else { None } }
}
spec fn good(s: AtomFindAll) -> bool decreases s {
    s.atoms.i <= s.atoms.v@.len() && match s.current_container { Some(b) => good(*b) && b.expected_fourcc == s.expected_fourcc && b.recurse == s.recurse, None => true }
}
/// what is still to come
spec fn todo(s: AtomFindAll) -> Seq<AtomInfo> decreases s {
    (match s.current_container { Some(b) => todo(*b), None => seq![] }) + coll(*s.atoms.v, s.atoms.i as int, s.expected_fourcc@, s.recurse)
}
''',
Item(W, 'struct', 'AtomFindAll', subs=[('AtomFindAll<I> {', "AtomFindAll<'a> {"), ('atoms: I', "atoms: Iter<'a>"), ('Box<AtomFindAll<I>>', "Box<AtomFindAll<'a>>")]),
"impl<'a> AtomFindAll<'a> {",
Fn(W, 'next', impl="impl<'a> Iterator for AtomFindAll<std::slice::Iter<'a, ContextualAtom>>", sig=[('Option<Self::Item>', "Option<&'a AtomInfo>")], spec='''
    requires good(*old(self)),
    ensures good(*final(self)), final(self).expected_fourcc == old(self).expected_fourcc, final(self).recurse == old(self).recurse,
      match r { Some(a) => todo(*old(self)).len() > 0 && *a == todo(*old(self))[0] && todo(*final(self)) == todo(*old(self)).skip(1), None => todo(*old(self)).len() == 0 && todo(*final(self)).len() == 0 },''',
   head='#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
   subs=[('re:let AtomIdent::Fourcc\\(fourcc\\) = atom\\.info\\.ident else \\{\\s*continue;\\s*\\};', 'if !is_fourcc(&atom.info.ident) { continue; } let fourcc = fourcc_of(&atom.info.ident);'),
     ('fourcc == self.expected_fourcc', 'same4(&fourcc, &self.expected_fourcc)'),
     ('let atom = self.atoms.next()?;', '''let ghost i0 = self.atoms.i as int; let ghost v0 = *self.atoms.v; let ghost x0 = self.expected_fourcc@; let ghost r0 = self.recurse;
        proof { assert(todo(*self) =~= coll(v0, i0, x0, r0)); }
        let atom = match self.atoms.next() { Some(a) => a, None => { return None; } };
        proof { assert(todo(*self) =~= coll(v0, i0 + 1, x0, r0)); assert(coll(atom.children, 0, x0, r0).len() == 0 || atom.children@.len() > 0); }''')],
   loops=['''invariant good(*self), self.current_container is None, todo(*self) =~= t0, self.expected_fourcc == old(self).expected_fourcc, self.recurse == old(self).recurse,'''],
   ins=[('before', 'return self.next();', 'proof { assert(todo(*self) =~= coll(atom.children, 0, x0, r0) + coll(v0, i0 + 1, x0, r0)); }'), ('before', 'loop {', 'let ghost t0 = todo(*self); proof { assert(t0 =~= todo(*old(self))); }')]),
'}', '''
fn is_fourcc(i: &AtomIdent) -> (r: bool) ensures r == (i is Fourcc) { match i { AtomIdent::Fourcc(_) => true, _ => false } }
fn fourcc_of(i: &AtomIdent) -> (r: [u8; 4]) requires i is Fourcc ensures is_named(*i, r@) { match i { AtomIdent::Fourcc(f) => *f, _ => [0, 0, 0, 0] } }
''']
PARTS += [LEMMAS]
PARTS += OFFSETS + HELPERS + [TREES] + NEW + SAVE + TOP
PARTS += ['} // verus!\n']
