"""A packet list is a sequence of byte strings: get, set, iteration and length over any list."""
F = 'ogg_pager/src/packets.rs'
ASSUMED = ['Vec::splice replaces the range by the given vector', 'the lengths of all packets together stay below 2^63']
DROPS = ['`impl Into<Vec<u8>>` arguments are already vectors', 'the iterator sum over the sizes becomes a proved loop', 'the closure in get is inlined']
I = 'impl Packets'
PARTS = ['''
use vstd::prelude::*;
use core::ops::Range;
verus! {
global size_of usize == 8;
''', Item(F, 'struct', 'Packets'), Item(F, 'struct', 'PacketsIter'), '''
spec fn off(s: Seq<u64>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(s, i - 1) + s[i - 1] } }
/// The packets of a list
spec fn view(content: Seq<u8>, s: Seq<u64>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| content.subrange(off(s, i), off(s, i + 1))) }
spec fn wf(content: Seq<u8>, s: Seq<u64>) -> bool { off(s, s.len() as int) <= content.len() }
proof fn off_mono(s: Seq<u64>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures off(s, i) <= off(s, j), 0 <= off(s, i), j > i ==> off(s, i) + s[i] <= off(s, j),
    decreases j - i,
{
    off_pos(s, i);
    if i < j { off_mono(s, i, j - 1); }
}
proof fn off_pos(s: Seq<u64>, i: int) ensures 0 <= off(s, i) decreases i { if i > 0 { off_pos(s, i - 1); } }
proof fn off_same(a: Seq<u64>, b: Seq<u64>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|k: int| 0 <= k < i ==> a[k] == b[k],
    ensures off(a, i) == off(b, i), decreases i,
{ if i > 0 { off_same(a, b, i - 1); } }
/// One entry changed
proof fn off_update(s: Seq<u64>, k: int, v: u64, i: int)
    requires 0 <= k < s.len(), 0 <= i <= s.len(),
    ensures off(s.update(k, v), i) == if i <= k { off(s, i) } else { off(s, i) - s[k] + v }, decreases i,
{ if i > 0 { off_update(s, k, v, i - 1); } }
proof fn off_tail(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(),
    ensures off(s.skip(1), i) == off(s, i + 1) - s[0], decreases i,
{ reveal_with_fuel(off, 2); if i > 0 { off_tail(s, i - 1); } }

fn sum_sizes(s: &Vec<u64>, k: usize) -> (r: u64) requires k <= s@.len(), off(s@, s@.len() as int) < 0x8000_0000_0000_0000, ensures r == off(s@, k as int)
{
    let mut i: usize = 0; let mut t: u64 = 0;
    while i < k invariant i <= k <= s@.len(), off(s@, s@.len() as int) < 0x8000_0000_0000_0000, t == off(s@, i as int), decreases k - i,
    { proof { off_mono(s@, i as int + 1, s@.len() as int); off_mono(s@, i as int, s@.len() as int); } t = t + s[i]; i = i + 1; }
    t
}
#[verifier::external_body]
fn slice_of(v: &Vec<u8>, r: Range<usize>) -> (s: &[u8]) requires r.start <= r.end <= v@.len(), ensures s@ == v@.subrange(r.start as int, r.end as int)
{ &v[r] }
#[verifier::external_body]
fn splice(v: &mut Vec<u8>, r: Range<usize>, c: Vec<u8>) requires r.start <= r.end <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(r.start as int) + c@ + old(v)@.skip(r.end as int)
{ v.splice(r, c); }
#[verifier::external_body]
fn split_at(s: &[u8], k: usize) -> (r: (&[u8], &[u8])) requires k <= s@.len(), ensures r.0@ == s@.take(k as int), r.1@ == s@.skip(k as int)
{ s.split_at(k) }
#[verifier::external_body]
fn tail(s: &[u64]) -> (r: &[u64]) requires s@.len() >= 1, ensures r@ == s@.skip(1)
{ &s[1..] }
''', 'impl Packets {',
 Fn(F, 'len', I, spec='ensures r == self.packet_sizes@.len(),'),
 Fn(F, 'is_empty', I, spec='ensures r == (self.packet_sizes@.len() == 0),'),
 Fn(F, 'packet_span', I, spec='''requires wf(self.content@, self.packet_sizes@), self.content@.len() < 0x8000_0000_0000_0000,
    ensures r is Some == (idx < self.packet_sizes@.len()),
      r matches Some(g) ==> g.start as int == off(self.packet_sizes@, idx as int) && g.end as int == off(self.packet_sizes@, idx + 1) && g.start <= g.end <= self.content@.len(),''',
    subs=[('re:self\\.packet_sizes\\[\\.\\.(\\w+)\\]\\s*\\.iter\\(\\)\\s*\\.sum::<u64>\\(\\)', r'sum_sizes(&self.packet_sizes, \1)')],
    ins=[('start', '', 'proof { if idx < self.packet_sizes@.len() { off_mono(self.packet_sizes@, idx + 1, self.packet_sizes@.len() as int); off_mono(self.packet_sizes@, idx as int, self.packet_sizes@.len() as int); } }')]),
 Fn(F, 'get', I, spec='''requires wf(self.content@, self.packet_sizes@), self.content@.len() < 0x8000_0000_0000_0000,
    ensures r is Some == (idx < self.packet_sizes@.len()), r matches Some(p) ==> p@ == view(self.content@, self.packet_sizes@)[idx as int],''',
    subs=[('re:self\\.packet_span\\(idx\\)\\s*\\.map\\(\\|(\\w+)\\|\\s*&self\\.content\\[\\w+\\]\\)', r'match self.packet_span(idx) { Some(\1) => Some(slice_of(&self.content, \1)), None => None }')]),
 Fn(F, 'set', I, sig=[('impl Into<Vec<u8>>', 'Vec<u8>')], spec='''requires wf(old(self).content@, old(self).packet_sizes@), old(self).content@.len() < 0x8000_0000_0000_0000,
    ensures r == (idx < old(self).packet_sizes@.len()),
      !r ==> *final(self) == *old(self),
      r ==> view(final(self).content@, final(self).packet_sizes@) == view(old(self).content@, old(self).packet_sizes@).update(idx as int, content@) && wf(final(self).content@, final(self).packet_sizes@)
        && final(self).packet_sizes@.len() == old(self).packet_sizes@.len()
        && final(self).content@.len() <= old(self).content@.len() + content@.len(),''',
    subs=[('let content = content.into();', ''), ('self.content.splice(range, content)', 'splice(&mut self.content, range, content)')],
    ins=[('start', '', 'let ghost new = content@;'), ('before', 'true }', '''proof {
        let s0 = old(self).packet_sizes@; let s1 = self.packet_sizes@; let c0 = old(self).content@; let c1 = self.content@;
        let k = idx as int; let n = s0.len() as int;
        assert(new.len() <= usize::MAX);
        off_update(s0, k, s1[k], n);
        off_mono(s0, k + 1, n); off_mono(s0, 0, k); 
        assert(s1 =~= s0.update(k, s1[k]));
        let v0 = view(c0, s0).update(k, new); let v1 = view(c1, s1);
        assert forall|i: int| 0 <= i < n implies v0[i] == v1[i] by {
            off_update(s0, k, s1[k], i); off_update(s0, k, s1[k], i + 1);
            off_mono(s0, i, n); off_mono(s0, i + 1, n); off_mono(s0, i, i + 1);
            if i < k { off_mono(s0, i + 1, k); }
            if i > k { off_mono(s0, k + 1, i); }
            assert(v0[i] =~= v1[i]);
        }
        assert(v0 =~= v1);
    }''')]),
 '}', "impl<'a> PacketsIter<'a> {",
 Fn(F, 'next', "impl<'a> Iterator for PacketsIter<'a>", sig=[('Self::Item', "&'a [u8]")],
    spec='''requires wf(old(self).content@, old(self).packet_sizes@), old(self).cap == old(self).packet_sizes@.len(), old(self).content@.len() < 0x8000_0000_0000_0000,
      ensures wf(final(self).content@, final(self).packet_sizes@), final(self).cap == final(self).packet_sizes@.len(),
        ({
            let v = view(old(self).content@, old(self).packet_sizes@);
            match r {
                None => v.len() == 0 && *final(self) == *old(self),
                Some(p) => v.len() > 0 && p@ == v[0] && view(final(self).content@, final(self).packet_sizes@) == v.skip(1),
            }
        }),''',
    subs=[('&self.packet_sizes[1..]', 'tail(self.packet_sizes)'), ('re:self\\.content\\.split_at\\(', 'split_at(self.content, ')],
    ins=[('before', 'let packet_size', '''proof {
        let s = self.packet_sizes@; let n = s.len() as int;
        off_mono(s, 1, n); reveal_with_fuel(off, 2);
    }'''), ('before', 'Some(ret)', '''proof {
        let s = old(self).packet_sizes@; let c = old(self).content@; let n = s.len() as int;
        reveal_with_fuel(off, 2);
        off_tail(s, n - 1);
        let v = view(c, s); let w = view(self.content@, self.packet_sizes@);
        assert(v[0] =~= ret@);
        assert forall|i: int| 0 <= i < n - 1 implies v.skip(1)[i] == w[i] by {
            off_tail(s, i); off_mono(s, i + 1, i + 2); off_mono(s, 1, i + 1); off_mono(s, i + 2, n);
            if i + 1 < n - 1 { off_tail(s, i + 1); } else { off_tail(s, n - 1); }
            assert(v.skip(1)[i] =~= w[i]);
        }
        assert(v.skip(1) =~= w);
    }''')]),
 '}',
 '''
} // verus!
''']
