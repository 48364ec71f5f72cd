//! P02: removing unsynchronisation
use crate::{chk, nd, reach};
use lofty::id3::v2::util::synchsafe::UnsynchronizedStream;
use std::io::Read;

#[cfg(not(kani))]
struct Slow {
    data: Vec<u8>,
    at: usize,
    seed: u64,
    mode: u64,
}

#[cfg(not(kani))]
impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (self.seed >> 40) as usize;
        let left = self.data.len() - self.at;
        let n = match self.mode {
            0 => left,
            1 => 1,
            2 => 1 + r % 5,
            _ => {
                if r % 4 == 0 { return Err(std::io::ErrorKind::Interrupted.into()) }
                1 + r % 9000
            },
        };
        let n = n.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

#[cfg(not(kani))]
fn content() -> Vec<u8> {
    let n = match nd::below(4) {
        0 => nd::below(20),
        1 => 8192 * (1 + nd::below(2)) - nd::below(3),
        2 => 8192 * (1 + nd::below(2)) + nd::below(3),
        _ => nd::below(30_000),
    } as usize;
    let mut s = nd::u64();
    let kind = nd::below(3);
    (0..n).map(|i| {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (s >> 40) as u32;
        match kind {
            0 => if r & 1 == 0 { 0xFF } else { 0 },
            1 => [0xFF, 0, 0xFF, 0, 1, 0xE0, (r >> 8) as u8, 0][(r % 8) as usize],
            _ => if i % 8192 >= 8190 { 0xFF } else if i % 8192 < 2 { 0 } else { r as u8 },
        }
    }).collect()
}

#[cfg(not(kani))]
fn want(d: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < d.len() {
        out.push(d[i]);
        i += if d[i] == 0xFF && d.get(i + 1) == Some(&0) { 2 } else { 1 };
    }
    out
}

harnesses! {
    /// any content, any sizes of the reads on both sides, interruptions included
    native p02_decode {
        let d = content();
        let w = want(&d);
        let mut r = UnsynchronizedStream::new(Slow { data: d, at: 0, seed: nd::u64(), mode: nd::below(4) });
        let mut out = Vec::new();
        let mut seed = nd::u64();
        let mode = nd::below(4);
        let mut ends = 0;
        while ends < 2 {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let n = match mode { 0 => 1, 1 => 1 + (seed >> 40) as usize % 3, 2 => 1 + (seed >> 40) as usize % 10_000, _ => 50_000 };
            let mut b = vec![0xAA; n];
            match r.read(&mut b) {
                Ok(0) => ends += 1,
                Ok(k) => {
                    chk!(k <= n && ends == 0, "unsynchronisation: reads no more than asked for, and nothing after the end");
                    chk!(b[k..].iter().all(|x| *x == 0xAA), "unsynchronisation: nothing is written past what is reported");
                    out.extend_from_slice(&b[..k]);
                },
                Err(e) => {
                    reach!("an interruption");
                    chk!(e.kind() == std::io::ErrorKind::Interrupted, "unsynchronisation: the error is the reader's");
                },
            }
            chk!(out.len() <= w.len(), "unsynchronisation: no byte more");
        }
        reach!("a decoded stream");
        chk!(out == w, "unsynchronisation: exactly the zero after each FF is dropped");
    }
}
