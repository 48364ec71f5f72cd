"""Ogg CRC-32: crc32 is the remainder of the message polynomial modulo 0x104C11DB7, for every byte string."""
import re
F = 'ogg_pager/src/crc.rs'


def table(Src):
    t = Src(F).item('static', 'CRC_LOOKUP_ARRAY')
    nums = re.findall(r'0x[0-9A-Fa-f_]+|\b\d+\b', t[t.index('=') + 1:])
    if len(nums) != 256:
        raise Lost(f'CRC_LOOKUP_ARRAY has {len(nums)} entries')
    spec = ', '.join(n.replace('_', '') + 'u32' for n in nums)
    chk = '\n'.join(f'    assert(byte_step({i:#x}000000u32) == {n.replace("_", "")}u32) by (compute_only);' if i else f'    assert(byte_step(0u32) == {n.replace("_", "")}u32) by (compute_only);' for i, n in enumerate(nums))
    return f'''
pub open spec fn table_spec() -> Seq<u32> {{ seq![{spec}] }}

fn crc_lookup(i: usize) -> (r: u32)
    requires i < 256,
    ensures r == byte_step((i as u32) << 24u32),
{{
    let table: [u32; 256] = [{', '.join(nums)}];
    proof {{
        assert(table@ =~= table_spec());
        table_is_right(i as int);
    }}
    table[i]
}}

pub open spec fn all_ok(i: int) -> bool decreases 256 - i {{
    if i >= 256 || i < 0 {{ true }} else {{ table_spec()[i] == byte_step((i as u32) << 24u32) && all_ok(i + 1) }}
}}
pub proof fn all_from(k: int, i: int)
    requires 0 <= k <= i < 256, all_ok(k),
    ensures table_spec()[i] == byte_step((i as u32) << 24u32),
    decreases i - k,
{{
    reveal_with_fuel(all_ok, 2);
    if k < i {{ all_from(k + 1, i); }}
}}
pub proof fn table_is_right(i: int)
    requires 0 <= i < 256,
    ensures table_spec()[i] == byte_step((i as u32) << 24u32),
{{
    assert(all_ok(0)) by (compute_only);
    all_from(0, i);
}}
'''


PARTS = ['''
use vstd::prelude::*;
verus! {

/// One bit of polynomial division: the register shifts left, and the generator is subtracted if a bit fell out.
pub open spec fn bit_step(crc: u32) -> u32 {
    if crc & 0x8000_0000u32 != 0 { (crc << 1u32) ^ 0x04C1_1DB7u32 } else { crc << 1u32 }
}
pub open spec fn byte_step(crc: u32) -> u32 {
    bit_step(bit_step(bit_step(bit_step(bit_step(bit_step(bit_step(bit_step(crc))))))))
}
/// The register after the bytes of `s`, zero initial value, most significant bit first, no final inversion
pub open spec fn ogg_crc(s: Seq<u8>) -> u32 decreases s.len() {
    if s.len() == 0 { 0 } else { byte_step(ogg_crc(s.drop_last()) ^ ((s.last() as u32) << 24u32)) }
}
''', Gen(table), '''
pub proof fn linear(x: u32, y: u32)
    ensures bit_step(x ^ y) == bit_step(x) ^ bit_step(y),
{
    assert(bit_step(x ^ y) == bit_step(x) ^ bit_step(y)) by {
        let g = 0x04C1_1DB7u32;
        assert((x ^ y) & 0x8000_0000u32 != 0 <==> ((x & 0x8000_0000u32 != 0) != (y & 0x8000_0000u32 != 0))) by (bit_vector);
        assert((x ^ y) << 1u32 == (x << 1u32) ^ (y << 1u32)) by (bit_vector);
        let a = x << 1u32;
        let b = y << 1u32;
        assert((a ^ g) ^ (b ^ g) == a ^ b) by (bit_vector);
        assert((a ^ g) ^ b == (a ^ b) ^ g) by (bit_vector);
        assert(a ^ (b ^ g) == (a ^ b) ^ g) by (bit_vector);
    }
}
pub proof fn linear8(x: u32, y: u32)
    ensures byte_step(x ^ y) == byte_step(x) ^ byte_step(y),
{
    let (x1, y1) = (bit_step(x), bit_step(y)); linear(x, y);
    let (x2, y2) = (bit_step(x1), bit_step(y1)); linear(x1, y1);
    let (x3, y3) = (bit_step(x2), bit_step(y2)); linear(x2, y2);
    let (x4, y4) = (bit_step(x3), bit_step(y3)); linear(x3, y3);
    let (x5, y5) = (bit_step(x4), bit_step(y4)); linear(x4, y4);
    let (x6, y6) = (bit_step(x5), bit_step(y5)); linear(x5, y5);
    let (x7, y7) = (bit_step(x6), bit_step(y6)); linear(x6, y6);
    linear(x7, y7);
}
/// A register without set bits in its top byte only shifts
pub proof fn shifts(x: u32)
    requires x & 0xFF00_0000u32 == 0,
    ensures byte_step(x) == x << 8u32,
{
    let x1 = x << 1u32; assert(x & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0;
    let x2 = x1 << 1u32; assert(x1 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x1 == x << 1u32;
    let x3 = x2 << 1u32; assert(x2 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x1 == x << 1u32, x2 == x1 << 1u32;
    let x4 = x3 << 1u32; assert(x3 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x1 == x << 1u32, x2 == x1 << 1u32, x3 == x2 << 1u32;
    let x5 = x4 << 1u32; assert(x4 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x1 == x << 1u32, x2 == x1 << 1u32, x3 == x2 << 1u32, x4 == x3 << 1u32;
    assert(x4 == x << 4u32) by (bit_vector) requires x1 == x << 1u32, x2 == x1 << 1u32, x3 == x2 << 1u32, x4 == x3 << 1u32;
    let x6 = x5 << 1u32; assert(x5 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x4 == x << 4u32, x5 == x4 << 1u32;
    let x7 = x6 << 1u32; assert(x6 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x4 == x << 4u32, x5 == x4 << 1u32, x6 == x5 << 1u32;
    let x8 = x7 << 1u32; assert(x7 & 0x8000_0000u32 == 0) by (bit_vector) requires x & 0xFF00_0000u32 == 0, x4 == x << 4u32, x5 == x4 << 1u32, x6 == x5 << 1u32, x7 == x6 << 1u32;
    assert(x8 == x << 8u32) by (bit_vector) requires x4 == x << 4u32, x5 == x4 << 1u32, x6 == x5 << 1u32, x7 == x6 << 1u32, x8 == x7 << 1u32;
}
/// The table-driven step is eight bit steps
pub proof fn table_step(crc: u32, b: u8)
    ensures
        ((b as u32) ^ (crc >> 24u32)) < 256,
        (crc << 8u32) ^ byte_step((((b as u32) ^ (crc >> 24u32)) as u32) << 24u32) == byte_step(crc ^ ((b as u32) << 24u32)),
{
    let w = b as u32;
    assert(w < 256);
    let lo = crc & 0x00FF_FFFFu32;
    let hi = (w ^ (crc >> 24u32)) << 24u32;
    assert((w ^ (crc >> 24u32)) < 256) by (bit_vector) requires w < 256;
    assert(crc ^ (w << 24u32) == lo ^ hi) by (bit_vector) requires lo == crc & 0x00FF_FFFFu32, hi == (w ^ (crc >> 24u32)) << 24u32;
    assert(lo & 0xFF00_0000u32 == 0) by (bit_vector) requires lo == crc & 0x00FF_FFFFu32;
    assert(lo << 8u32 == crc << 8u32) by (bit_vector) requires lo == crc & 0x00FF_FFFFu32;
    shifts(lo);
    linear8(lo, hi);
}
''', Fn(F, 'crc32', spec='    ensures r == ogg_crc(page@),',
    subs=[('re:for\\s+(\\w+)\\s+in\\s+(\\w+)(?:\\.iter\\(\\))?\\s*\\{', r'let mut vx_i: usize = 0; while vx_i < \2.len() { let \1 = &\2[vx_i]; vx_i = vx_i + 1; proof { assert(page@.take(vx_i as int).drop_last() =~= page@.take(vx_i - 1)); assert(page@.take(vx_i as int).last() == *\1); table_step(crc, *\1); }'),
          ('re:CRC_LOOKUP_ARRAY\\[((?:[^\\[\\]])*)\\]', r'crc_lookup(\1)')],
    loops=['invariant page@.take(page@.len() as int) =~= page@, vx_i <= page.len(), crc == ogg_crc(page@.take(vx_i as int)), decreases page.len() - vx_i,'],
    ins=[]), '''
} // verus!
''']
DROPS = ['`for p in page` over the slice becomes an index loop', 'the table static becomes a local array behind `crc_lookup`, whose text is the table in /repo']
