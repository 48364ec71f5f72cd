"""Regenerates harness/src/lib.rs: one cfg-gated module per property."""
import os
B = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src')
ids = [i for i in ("P%02d" % i for i in range(1, 100)) if os.path.exists(f'{B}/{i.lower()}.rs')]
s = '''//! Contracts on the real code of /repo, one module per property.
#![allow(unexpected_cfgs, clippy::all)]

#[macro_use]
pub mod nd;

/// Payload of a failed `chk!`
pub struct Violated(pub &'static str);

'''
for i in ids:
    s += ('#[cfg(any(prop = "P04", prop = "P06"))]' if i == 'P04' else f'#[cfg(prop = "{i}")]') + f'\npub mod {i.lower()};\n'
s += '''
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, &'static str, fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, &'static str, fn())> = Vec::new();
'''
for i in ids:
    s += f'    #[cfg(prop = "{i}")]\n    v.extend({i.lower()}::ALL);\n'
s += '    v\n}\n'
open(f'{B}/lib.rs', 'w').write(s)
