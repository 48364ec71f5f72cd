//! P03: Ogg page checksums (RFC 3533 6, checksum field)
use crate::{chk, nd, reach};
use ogg_pager::Page;
use std::io::Cursor;

/// Bit-by-bit polynomial division
pub fn reference(bytes: &[u8]) -> u32 {
    let mut r = 0u32;
    for b in bytes {
        for i in (0..8).rev() {
            let bit = (r >> 31) ^ u32::from(b >> i & 1);
            r <<= 1;
            if bit != 0 { r ^= 0x04C1_1DB7; }
        }
    }
    r
}

/// A well-formed page with any header fields
pub fn page_bytes(segments: usize, fill: u8) -> Vec<u8> {
    let h = nd::bytes::<21>();
    let mut v = b"OggS\0".to_vec();
    v.extend(h);
    v.push(segments as u8);
    let mut total = 0usize;
    for i in 0..segments {
        let s = if i + 1 < segments { 255 } else { nd::u8() };
        total += usize::from(s);
        v.push(s);
    }
    v.extend((0..total).map(|i| (i as u8).wrapping_mul(29).wrapping_add(fill)));
    v
}

harnesses! {
    /// every message of one to four bytes, in one division step per bit
    bounded p03_short [unwind(9)] {
        let b = nd::bytes::<4>();
        let n = nd::below(5) as usize;
        let mut r = 0u32;
        let mut i = 0;
        while i < 4 {
            if i < n {
                r ^= u32::from(b[i]) << 24;
                let mut k = 0;
                while k < 8 {
                    r = if r >> 31 != 0 { r << 1 ^ 0x04C1_1DB7 } else { r << 1 };
                    k += 1;
                }
            }
            i += 1;
        }
        chk!(ogg_pager::crc32(&b[..n]) == r, "crc: the remainder of the message polynomial");
        reach!("a checksum");
    }

    /// messages of any length
    native p03_any {
        let n = nd::below(700) as usize;
        let mut v = vec![0u8; n];
        let a = nd::bytes::<64>();
        for (i, x) in v.iter_mut().enumerate() { *x = a[i % 64].wrapping_add((i / 64) as u8); }
        reach!("a checksum");
        chk!(ogg_pager::crc32(&v) == reference(&v), "crc: the remainder of the message polynomial");
    }

    /// `gen_crc` stores the checksum of the serialised page with a zero checksum field, whatever was there before
    native p03_page {
        let n = match nd::below(8) { 0 => 255, 1 => 1, k => k as usize * 3 };
        let v = page_bytes(n, nd::u8());
        let Ok(mut page) = Page::read(&mut Cursor::new(&v)) else { chk!(false, "page: a well-formed page is read"); return; };
        reach!("a page");
        let mut zero = v.clone();
        zero[22..26].fill(0);
        page.gen_crc();
        chk!(page.header().checksum() == reference(&zero), "page: the checksum is taken over the page with a zero checksum field");
        let out = page.as_bytes();
        chk!(out[22..26] == reference(&zero).to_le_bytes(), "page: the checksum is stored little endian at its place");
        chk!(out[..22] == v[..22] && out[26..] == v[26..], "page: nothing else of the page changes");
    }
}
