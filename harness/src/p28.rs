//! P28: searching backwards for a pattern
use crate::{chk, nd, reach};
use lofty::__verif_util::rfind;
use std::io::{Cursor, Seek};

#[cfg(not(kani))]
fn check(d: &[u8], pat: &[u8], buf: u64, start: u8, end: u8, at: u64, pos: u64) {
    let hi = if start == 0 { d.len() as u64 } else { at };
    let lo = match end { 0 => 0, 1 => at, _ => pos };
    let want = if lo > hi { None } else {
        (lo..=hi).rev().find(|&q| q + pat.len() as u64 <= hi && d[q as usize..].starts_with(pat))
    };
    let mut c = Cursor::new(d.to_vec());
    c.set_position(at);
    let got = rfind(&mut c, pat, buf, start, end, pos);
    let now = c.stream_position().unwrap();
    chk!(got.is_ok(), "search: no error on a reader that never fails");
    let got = got.unwrap();
    if pat.is_empty() {
        chk!(got, "search: the empty pattern is found");
        return;
    }
    if got {
        reach!("found");
        chk!(want == Some(now), "search: the reader is at the start of the last occurrence in the range");
    } else {
        reach!("absent");
        chk!(now == at, "search: the reader is back where it was");
        if buf >= pat.len() as u64 { chk!(want.is_none(), "search: absence is reported only if there is none") }
    }
}

harnesses! {
    /// streams over a small alphabet, buffers of every size around the pattern's, all kinds of start and end
    native p28_search {
        let n = match nd::below(4) { 0 => nd::below(8), 1 => nd::below(40), 2 => nd::below(200), _ => 20 } as usize;
        let alphabet = 1 + nd::below(3) as u8;
        let mut s = nd::u64();
        let mut d: Vec<u8> = (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 60) as u8 % alphabet }).collect();
        let m = match nd::below(8) { 0 => 0, 1 => 1, 2 => 1 + nd::below(80), 3 => n as u64, _ => 1 + nd::below(9) } as usize;
        let pat: Vec<u8> = (0..m).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 60) as u8 % alphabet }).collect();
        if nd::bool() && m > 0 && n >= m {
            let p = nd::below((n - m + 1) as u64) as usize;
            d[p..p + m].copy_from_slice(&pat);
        }
        let buf = match nd::below(5) { 0 => nd::below(m as u64 + 1), 1 => m as u64, 2 => m as u64 + 1, 3 => 1024, _ => m as u64 + nd::below(30) };
        let (start, end) = (nd::below(2) as u8, nd::below(3) as u8);
        let at = nd::below(n as u64 + 1);
        let pos = nd::below(n as u64 + 2);
        check(&d, &pat, buf, start, end, at, pos);
    }
    /// the sizes the library uses: long streams, the default buffer, occurrences around its edges
    native p28_long {
        let n = 1000 + nd::below(6000) as usize;
        let mut d = vec![b'.'; n];
        let pat: &[u8] = [&b"APETAGEX"[..], b"LYRICS200", b"TAG", b"\xFF", b"a pattern of many more bytes than any of those", &[7; 700]][nd::below(6) as usize];
        for _ in 0..1 + nd::below(4) {
            let from_end = 1024 * nd::below(4) + nd::below(24 + pat.len() as u64);
            let from_end = if nd::bool() { nd::below(n as u64) } else { from_end } as usize;
            let p = n.saturating_sub(from_end);
            let m = pat.len().min(n - p);
            d[p..p + m].copy_from_slice(&pat[..m]);
        }
        let buf = [1024, 64, pat.len() as u64, 1023, 4096][nd::below(5) as usize];
        let at = match nd::below(3) { 0 => 0, 1 => n as u64, _ => nd::below(n as u64 + 1) };
        check(&d, pat, buf, nd::below(2) as u8, nd::below(3) as u8, at, nd::below(n as u64));
    }
}
