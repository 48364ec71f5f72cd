//! P11: FLAC metadata block headers and STREAMINFO (RFC 9639 8.1, 8.2)
use crate::nd::At;
use crate::{chk, nd, reach};
use lofty::flac::verif as f;

harnesses! {
    /// every 4-byte block header at every stream position: last-block bit, type, 24-bit length, start and end offset; skipping moves past the content
    proof p11_header [unwind(6)] {
        let b = nd::bytes::<4>();
        let n = nd::below(5) as usize;
        let base = nd::u64();
        nd::assume(base < 1 << 60);
        let mut r = At::new(base, b, n);
        let size = u64::from(u32::from_be_bytes([0, b[1], b[2], b[3]]));
        match f::block_read(&mut r, false) {
            Ok(k) => {
                reach!("a block header");
                chk!(n == 4, "block: a truncated header is an error");
                chk!(k.last == (b[0] & 0x80 != 0), "block: last-block bit");
                chk!(k.ty == b[0] & 0x7F, "block: 7-bit type");
                chk!(k.start == base, "block: starts at its header");
                chk!(k.end == base + 4 + size, "block: ends after the announced 24-bit length");
                chk!(k.content.is_empty(), "block: a skipped content is not read");
                chk!(r.pos == base + 4 + size, "block: skipping moves past the content");
            },
            Err(()) => {
                reach!("a truncated header");
                chk!(n < 4, "block: a complete header is decoded");
            },
        }
    }

    /// the content of a block is exactly the announced bytes, in streams of up to 40 bytes
    bounded p11_content [unwind(6), stub(lofty::util::alloc::fallible_vec_from_element, crate::nd::stub_vec)] {
        let b = nd::bytes_like::<40>([0, 0, 0, 20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36]);
        let n = nd::below(41) as usize;
        let mut r = At::new(0, b, n);
        let size = u32::from_be_bytes([0, b[1], b[2], b[3]]) as usize;
        let i = nd::below(36) as usize;
        match f::block_read(&mut r, true) {
            Ok(k) => {
                reach!("a block");
                chk!(n >= 4 && size <= n - 4, "block: a truncated block is an error");
                chk!(k.content.len() == size, "block: content length");
                chk!(i >= size || k.content[i] == b[4 + i], "block: content bytes in order");
                chk!(k.end == 4 + size as u64 && k.start == 0, "block: offsets");
                chk!(r.pos == k.end, "block: the reader is left at the end of the block");
                chk!(k.last == (b[0] & 0x80 != 0) && k.ty == b[0] & 0x7F, "block: last-block bit and type");
            },
            Err(()) => {
                reach!("a truncated block");
                chk!(n < 4 || size > n - 4, "block: a complete block is decoded");
            },
        }
    }

    /// a content longer than 24 bits can express is an error and writes nothing
    proof p11_write_too_long {
        let n = nd::u32() as usize;
        nd::assume(n > 0xFF_FFFF && n < 0x0200_0000);
        let b = f::B { ty: nd::u8(), last: nd::bool(), content: vec![0; n], start: 0, end: 0 };
        let mut out = Vec::new();
        reach!("too long");
        chk!(f::block_write(b, &mut out).is_err(), "block: a content over 24 bits is an error");
        chk!(out.is_empty(), "block: a refused block writes nothing");
    }

    /// writing a block of up to 16 bytes: header bits, length and content
    bounded p11_write [unwind(20)] {
        let c = nd::bytes::<16>();
        let n = nd::below(17) as usize;
        let (ty, last) = (nd::u8(), nd::bool());
        let b = f::B { ty, last, content: c[..n].to_vec(), start: nd::u64(), end: nd::u64() };
        let mut out = Vec::new();
        let r = f::block_write(b, &mut out);
        reach!("written");
        chk!(r == Ok(n + 4), "block: reports the bytes written");
        chk!(out.len() == n + 4, "block: header and content are written");
        chk!(out[0] == (ty & 0x7F) | if last { 0x80 } else { 0 }, "block: last-block bit and type are written");
        chk!(out[1] == 0 && out[2] == 0 && out[3] == n as u8, "block: 24-bit length is written");
        let i = nd::below(16) as usize;
        chk!(i >= n || out[4 + i] == c[i], "block: content is written");
    }

    /// a block written out reads back with the same bits and content (any length, up to and around the 24-bit limit)
    native p11_round_trip {
        let n = match nd::below(40) {
            0 => 0xFF_FFFF - nd::below(3) as usize,
            1 => 0x1_0000 - 2 + nd::below(5) as usize,
            2 => 0x100 - 2 + nd::below(5) as usize,
            _ => nd::below(600) as usize,
        };
        let seed = nd::u8();
        let content: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31) ^ seed).collect();
        let b = f::B { ty: nd::u8() & 0x7F, last: nd::bool(), content, start: 0, end: n as u64 + 4 };
        let mut out = Vec::new();
        chk!(f::block_write(b.clone(), &mut out) == Ok(n + 4), "block: reports the bytes written");
        reach!("written");
        let got = f::block_read(&mut std::io::Cursor::new(&out), true);
        chk!(got == Ok(b), "block: written and read back is the same block");
    }

    /// every STREAMINFO content of up to 40 bytes
    proof p11_stream_info [unwind(18)] {
        let b = nd::bytes_like::<40>([16, 0, 16, 0, 0, 0, 14, 0, 32, 0, 0x0A, 0xC4, 0x42, 0xF0, 0, 10, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0, 0, 0, 0, 0, 0]);
        let n = nd::below(41) as usize;
        let (stream_len, file_len) = (nd::u64(), nd::u64());
        nd::assume(stream_len < 1 << 60 && file_len < 1 << 60);
        match f::read_properties(&b[..n], stream_len, file_len) {
            Ok(p) => {
                reach!("a STREAMINFO");
                chk!(n >= 34, "STREAMINFO: a truncated one is an error");
                let w = u64::from_be_bytes([b[10], b[11], b[12], b[13], b[14], b[15], b[16], b[17]]);
                chk!(u64::from(p.sample_rate()) == w >> 44, "STREAMINFO: 20-bit sample rate");
                chk!(u64::from(p.channels()) == (w >> 41 & 7) + 1, "STREAMINFO: 3-bit channel count");
                chk!(u64::from(p.bit_depth()) == (w >> 36 & 31) + 1, "STREAMINFO: 5-bit depth");
                let s = u128::from_be_bytes([b[18], b[19], b[20], b[21], b[22], b[23], b[24], b[25], b[26], b[27], b[28], b[29], b[30], b[31], b[32], b[33]]);
                chk!(p.signature() == s, "STREAMINFO: MD5 signature");
            },
            Err(()) => {
                reach!("a truncated STREAMINFO");
                chk!(n < 34, "STREAMINFO: a complete one is decoded");
            },
        }
    }

    /// the duration and bitrates follow from the 36-bit sample total and the sample rate
    native p11_duration {
        let mut b = [0u8; 34];
        let rate = nd::u32_of(&[44100, 48000, 8000, 1, 0, 655350]) & 0xF_FFFF;
        let total = nd::u64_of(&[44100, 1, 0, (1 << 36) - 1, 1 << 32]) & 0xF_FFFF_FFFF;
        b[10..18].copy_from_slice(&(u64::from(rate) << 44 | 1 << 41 | 15 << 36 | total).to_be_bytes());
        let (stream_len, file_len) = (nd::u64() >> 24, nd::u64() >> 24);
        let p = match f::read_properties(&b, stream_len, file_len) { Ok(p) => p, Err(()) => { chk!(false, "STREAMINFO: a complete one is decoded"); return } };
        if rate == 0 || total == 0 {
            chk!(p.duration().is_zero(), "STREAMINFO: no duration without a rate and samples");
        } else {
            reach!("a duration");
            let ms = u128::from(total) * 1000 / u128::from(rate);
            chk!(p.duration().as_millis() == ms, "STREAMINFO: duration is samples over rate");
            if ms > 0 && stream_len > 0 && file_len > 0 {
                chk!(p.audio_bitrate() == (u128::from(stream_len) * 8 / ms) as u32, "STREAMINFO: audio bitrate");
                chk!(p.overall_bitrate() == (u128::from(file_len) * 8 / ms) as u32, "STREAMINFO: overall bitrate");
            }
        }
    }
}
