//! One source of inputs for both back ends of a contract harness.
//!
//! * under Kani every `nd::*` call is an unconstrained symbolic value, so a harness that is accepted
//!   holds for every value of every input;
//! * compiled natively the same calls draw from a replay vector (Kani's counterexample bytes) or from
//!   a seeded generator, so the same contract text is executed against the real code.
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn usize() -> usize { kani::any::<u64>() as usize }
    pub fn bool() -> bool { kani::any::<u8>() & 1 == 1 }
    pub fn bytes<const N: usize>() -> [u8; N] { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
    /// Natively a hint that makes interesting values likelier; symbolically just any value.
    pub fn u8_of(_hints: &[u8]) -> u8 { kani::any() }
    pub fn u32_of(_hints: &[u32]) -> u32 { kani::any() }
    pub fn u64_of(_hints: &[u64]) -> u64 { kani::any() }
    pub fn bytes_like<const N: usize>(_template: [u8; N]) -> [u8; N] { kani::any() }
    pub fn below(n: u64) -> u64 { let v: u64 = kani::any(); kani::assume(v < n); v }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Rejected;

    pub struct Source {
        pub replay: Option<Vec<u8>>,
        pub pos: usize,
        pub rng: u64,
        pub log: Vec<u8>,
    }

    thread_local! {
        pub static SRC: RefCell<Source> = const { RefCell::new(Source { replay: None, pos: 0, rng: 1, log: Vec::new() }) };
        pub static REACHED: RefCell<std::collections::BTreeMap<&'static str, u64>> = const { RefCell::new(std::collections::BTreeMap::new()) };
    }

    pub fn start(replay: Option<Vec<u8>>, seed: u64) {
        SRC.with(|s| *s.borrow_mut() = Source { replay, pos: 0, rng: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1, log: Vec::new() });
    }

    pub fn log() -> Vec<u8> { SRC.with(|s| s.borrow().log.clone()) }

    /// A raw random number of the generator, outside the logged inputs
    fn raw() -> u64 {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            s.rng ^= s.rng << 13;
            s.rng ^= s.rng >> 7;
            s.rng ^= s.rng << 17;
            s.rng.wrapping_mul(0x2545_F491_4F6C_DD1D)
        })
    }

    fn replaying() -> bool { SRC.with(|s| s.borrow().replay.is_some()) }

    fn take(n: usize, fresh: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
        let v = if replaying() {
            // a generator that loops on the zeroes behind the end of its input
            if SRC.with(|s| { let s = s.borrow(); s.pos > s.replay.as_ref().unwrap().len() + (1 << 22) }) { std::panic::panic_any(Rejected) }
            SRC.with(|s| {
                let mut s = s.borrow_mut();
                let pos = s.pos;
                s.pos += n;
                let r = s.replay.as_ref().unwrap();
                (pos..pos + n).map(|i| r.get(i).copied().unwrap_or(0)).collect()
            })
        } else {
            fresh()
        };
        SRC.with(|s| s.borrow_mut().log.extend_from_slice(&v));
        v
    }

    fn word(bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let r = raw() >> 8;
        let v = match r % 8 {
            0 | 1 => raw(),
            2 => raw() % 20,
            3 => max - raw() % 20,
            4 => (1u64 << (raw() % u64::from(bits))).wrapping_add(raw() % 3).wrapping_sub(1),
            5 => raw() & raw() & raw(),
            6 => raw() | raw() | raw(),
            _ => raw() >> (raw() % 64),
        };
        v & max
    }

    pub fn u8() -> u8 { take(1, || vec![word(8) as u8])[0] }
    pub fn u16() -> u16 { u16::from_ne_bytes(take(2, || (word(16) as u16).to_ne_bytes().to_vec()).try_into().unwrap()) }
    pub fn u32() -> u32 { u32::from_ne_bytes(take(4, || (word(32) as u32).to_ne_bytes().to_vec()).try_into().unwrap()) }
    pub fn u64() -> u64 { u64::from_ne_bytes(take(8, || word(64).to_ne_bytes().to_vec()).try_into().unwrap()) }
    pub fn usize() -> usize { u64() as usize }
    pub fn bool() -> bool { take(1, || vec![(raw() >> 9) as u8 & 1])[0] & 1 == 1 }

    pub fn bytes<const N: usize>() -> [u8; N] {
        take(N, || {
            let mode = raw() >> 8;
            (0..N).map(|_| match mode % 4 {
                0 => (raw() >> 11) as u8,
                1 => word(8) as u8,
                2 => b' ' + (raw() >> 11) as u8 % 95,
                _ => if (raw() >> 11) % 4 == 0 { word(8) as u8 } else { 0 },
            }).collect()
        }).try_into().unwrap()
    }

    pub fn bytes_like<const N: usize>(template: [u8; N]) -> [u8; N] {
        take(N, || {
            let mut v = template.to_vec();
            match (raw() >> 8) % 8 {
                0 => {},
                1 => for b in &mut v { *b = (raw() >> 11) as u8 },
                n => for _ in 0..n {
                    let i = (raw() >> 8) as usize % N;
                    v[i] = word(8) as u8;
                },
            }
            v
        }).try_into().unwrap()
    }

    pub fn u8_of(h: &[u8]) -> u8 {
        take(1, || vec![if (raw() >> 9) % 3 == 0 { word(8) as u8 } else { h[(raw() >> 9) as usize % h.len()] }])[0]
    }
    pub fn u32_of(h: &[u32]) -> u32 {
        u32::from_ne_bytes(take(4, || (if (raw() >> 9) % 3 == 0 { word(32) as u32 } else { h[(raw() >> 9) as usize % h.len()] }).to_ne_bytes().to_vec()).try_into().unwrap())
    }
    pub fn u64_of(h: &[u64]) -> u64 {
        u64::from_ne_bytes(take(8, || (if (raw() >> 9) % 3 == 0 { word(64) } else { h[(raw() >> 9) as usize % h.len()] }).to_ne_bytes().to_vec()).try_into().unwrap())
    }
    pub fn below(n: u64) -> u64 {
        let v = u64::from_ne_bytes(take(8, || {
            let mut v = word(64);
            if v >= n { v %= n }
            v.to_ne_bytes().to_vec()
        }).try_into().unwrap());
        assume(v < n);
        v
    }
    pub fn assume(c: bool) {
        if !c { std::panic::panic_any(Rejected) }
    }
}

pub use imp::*;

/// A byte buffer of any length up to `N`
pub fn buf<const N: usize>() -> ([u8; N], usize) {
    let b = bytes::<N>();
    let n = below(N as u64 + 1) as usize;
    (b, n)
}

/// A named obligation.
#[macro_export]
macro_rules! chk {
    ($c:expr, $l:literal) => {{
        #[cfg(kani)]
        kani::assert($c, $l);
        #[cfg(not(kani))]
        if !$c {
            std::panic::panic_any($crate::Violated($l));
        }
    }};
}

/// A vacuity guard: some input must get here.
#[macro_export]
macro_rules! reach {
    ($l:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $l);
        #[cfg(not(kani))]
        $crate::nd::REACHED.with(|r| *r.borrow_mut().entry($l).or_insert(0) += 1);
    }};
}

/// Declares contract harnesses.
///
/// * `proof`: loop-free or bounded only by the width of its operands: complete for every input;
/// * `bounded`: Kani up to the stated input size;
/// * `native`: executed on generated inputs, not proved;
/// * `once`: an enumeration, executed once.
///
/// Options in brackets become Kani attributes: `unwind(9)`, `stub(path, path)`, `solver(kissat)`.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[doc = $d:literal])* $kind:ident $name:ident $([$($opt:ident ($($val:tt)*)),*])? $body:block )*) => {
        $( $crate::harness_one! { $kind $name [$($($opt ($($val)*)),*)?] $body } )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, &str, fn())] = &[$((stringify!($name), stringify!($kind), $name as fn())),*];
    };
}

#[macro_export]
macro_rules! harness_one {
    (native $name:ident [] $body:block) => {
        #[cfg(not(kani))]
        pub fn $name() $body
    };
    (once $name:ident [] $body:block) => {
        #[cfg(not(kani))]
        pub fn $name() $body
    };
    ($kind:ident $name:ident [$($opt:ident ($($val:tt)*)),*] $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::stub(std::fmt::format, crate::nd::stub_format))]
        #[cfg_attr(kani, kani::stub(<std::io::Error as std::error::Error>::source, crate::nd::no_source))]
        #[cfg_attr(kani, kani::stub(<std::io::Error as std::error::Error>::cause, crate::nd::no_source))]
        $( #[cfg_attr(kani, kani::$opt($($val)*))] )*
        pub fn $name() $body
    };
}

/// Contract of `lofty::util::alloc::fallible_vec_from_element` under the default limit, as P22 proves it
#[cfg(kani)]
pub fn stub_vec<T: Clone>(element: T, n: usize) -> Result<Vec<T>, lofty::error::AllocationError> {
    if n > 16 * 1024 * 1024 {
        return Err(lofty::error::AllocationError::LimitExceeded);
    }
    Ok(vec![element; n])
}

/// The cause of an I/O error, which no contract looks at
#[cfg(kani)]
pub fn no_source(_: &std::io::Error) -> Option<&(dyn std::error::Error + 'static)> { None }

#[cfg(kani)]
pub fn stub_format(_: core::fmt::Arguments<'_>) -> String { String::new() }

/// A reader over a window of `len` bytes that starts at stream position `base`; nothing else can be
/// read. Like a file, it can be positioned anywhere.
pub struct At<const N: usize> {
    pub base: u64,
    pub data: [u8; N],
    pub len: usize,
    pub pos: u64,
}

impl<const N: usize> At<N> {
    pub fn new(base: u64, data: [u8; N], len: usize) -> Self {
        At { base, data, len, pos: base }
    }
}

impl<const N: usize> std::io::Read for At<N> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let end = self.base + self.len as u64;
        if self.pos < self.base || self.pos >= end || buf.is_empty() {
            return Ok(0);
        }
        let off = (self.pos - self.base) as usize;
        let n = core::cmp::min(buf.len(), self.len - off);
        buf[..n].copy_from_slice(&self.data[off..off + n]);
        self.pos += n as u64;
        Ok(n)
    }

    fn read_exact(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
        if buf.is_empty() {
            return Ok(());
        }
        let end = self.base + self.len as u64;
        if self.pos < self.base || self.pos >= end || (end - self.pos) < buf.len() as u64 {
            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
        }
        let off = (self.pos - self.base) as usize;
        buf.copy_from_slice(&self.data[off..off + buf.len()]);
        self.pos += buf.len() as u64;
        Ok(())
    }
}

impl<const N: usize> std::io::Seek for At<N> {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match to {
            std::io::SeekFrom::Start(p) => Some(p),
            std::io::SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            std::io::SeekFrom::End(d) => (self.base + self.len as u64).checked_add_signed(d),
        };
        match to {
            Some(p) => {
                self.pos = p;
                Ok(p)
            },
            None => Err(std::io::Error::from(std::io::ErrorKind::InvalidInput)),
        }
    }

    fn stream_position(&mut self) -> std::io::Result<u64> {
        Ok(self.pos)
    }
}
