//! P01: synchsafe integers
use crate::{chk, nd, reach};
use lofty::id3::v2::util::synchsafe::SynchsafeInteger;

/// the 7-bit groups of `x`, most significant first, one per byte
fn spread(x: u128, bytes: u32) -> u128 {
    let mut out = 0u128;
    let mut i = 0;
    while i < bytes {
        out |= ((x >> (7 * i)) & 0x7F) << (8 * i);
        i += 1;
    }
    out
}

/// the concatenation of the low 7 bits of each byte
fn gather(x: u128, bytes: u32) -> u128 {
    let mut out = 0u128;
    let mut i = 0;
    while i < bytes {
        out |= ((x >> (8 * i)) & 0x7F) << (7 * i);
        i += 1;
    }
    out
}

macro_rules! contract {
    ($t:ty, $w:ty, $nd:ident) => {{
        let x: $t = nd::$nd() as $t;
        let bytes = core::mem::size_of::<$t>() as u32;
        let wide = core::mem::size_of::<$w>() as u32;
        match x.synch() {
            Ok(y) => {
                reach!("a value that fits");
                chk!(u128::from(x) < 1u128 << (7 * bytes), "synch: a value that does not fit is an error");
                chk!(u128::from(y) == spread(u128::from(x), bytes), "synch: 7 bits per byte, most significant first");
                chk!(y.unsynch() == x, "unsynch(synch(x)) == x");
            },
            Err(e) => {
                reach!("a value that does not fit");
                core::mem::forget(e);
                chk!(u128::from(x) >= 1u128 << (7 * bytes), "synch: a value that fits is encoded");
            },
        }
        chk!(u128::from(x.unsynch()) == gather(u128::from(x), bytes), "unsynch: concatenates the low 7 bits of each byte");
        let w: $w = x.widening_synch();
        chk!(u128::from(w) == spread(u128::from(x), wide), "widening_synch: 7 bits per byte, nothing lost");
        chk!(u128::from(w.gathered()) == u128::from(x), "unsynch(widening_synch(x)) == x");
    }};
}

trait Gathered { fn gathered(self) -> u128; }
impl Gathered for u16 { fn gathered(self) -> u128 { u128::from(self.unsynch()) } }
impl Gathered for u32 { fn gathered(self) -> u128 { u128::from(self.unsynch()) } }
impl Gathered for u64 { fn gathered(self) -> u128 { gather(u128::from(self), 8) } }

harnesses! {
    /// u8: synch, unsynch and widening_synch against the 7-bits-per-byte specification, every value
    proof p01_u8 [unwind(9)] { contract!(u8, u16, u8) }
    /// u16, every value
    proof p01_u16 [unwind(9)] { contract!(u16, u32, u16) }
    /// u32, every value
    proof p01_u32 [unwind(9)] { contract!(u32, u64, u32) }
}
