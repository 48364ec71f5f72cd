//! P12: AIFF 'COMM' and WAV 'fmt ' chunks, 80-bit extended floats
use crate::{chk, nd, reach};
use lofty::__verif_util as u;
use lofty::iff::aiff::AiffCompressionType as T;
use lofty::iff::verif::{aiff, wav};
use lofty::iff::wav::WavFormat;

/// nearest integer to a non-negative extended float (halves away from zero), saturating
fn f80_round(e: u16, m: u64) -> u32 {
    if m == 0 { return 0 }
    // value = m * 2^(e - 16383 - 63)
    let sh = 16383 + 63 - i32::from(e);
    if sh <= -32 { return u32::MAX }
    if sh <= 0 {
        let r = u128::from(m) << -sh;
        return if r > u128::from(u32::MAX) { u32::MAX } else { r as u32 };
    }
    if sh > 64 { return 0 }
    let twice = if sh == 64 { m >> 63 } else { m >> (sh - 1) };
    let r = (twice >> 1) + (twice & 1);
    if r > u64::from(u32::MAX) { u32::MAX } else { r as u32 }
}

harnesses! {
    /// every 80-bit extended float: sign, zero, infinity/NaN, and the value to 53 bits
    proof p12_f80 {
        let b = nd::bytes_like::<10>([0x40, 0x0E, 0xAC, 0x44, 0, 0, 0, 0, 0, 0]);
        let e = u16::from_be_bytes([b[0] & 0x7F, b[1]]);
        let m = u64::from_be_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]);
        let neg = b[0] & 0x80 != 0;
        let v = u::f80(b);
        chk!(v.is_sign_negative() == neg, "F80: sign");
        let mag = v.to_bits() & !(1 << 63);
        if e == 32767 {
            chk!(!v.is_finite(), "F80: infinities and NaN are not finite");
        } else if m == 0 {
            chk!(mag == 0, "F80: zero");
        } else {
            let lz = m.leading_zeros();
            let x = i32::from(e) - 16383 - lz as i32;
            let f = m << lz;
            if x > 1023 {
                chk!(mag == 0x7FF0_0000_0000_0000, "F80: a value out of range is infinite");
            } else if x < -1022 {
                chk!(mag < 0x0010_0000_0000_0000, "F80: a value below the range is no normal number");
            } else {
                reach!("a representable value");
                let t = ((x + 1023) as u64) << 52 | (f << 1 >> 12);
                chk!(mag == t || (f & 0x400 != 0 && mag == t + 1), "F80: the value to 53 bits");
            }
        }
    }

    /// every uncompressed 'COMM' content of up to 22 bytes
    proof p12_aiff [unwind(4)] {
        let b = nd::bytes_like::<22>([0, 2, 0, 1, 0, 0, 0, 16, 0x40, 0x0E, 0xAC, 0x44, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let n = nd::below(23) as usize;
        let (stream_len, file_len) = (nd::u32(), nd::u64());
        let e = u16::from_be_bytes([b[8] & 0x7F, b[9]]);
        let m = u64::from_be_bytes([b[10], b[11], b[12], b[13], b[14], b[15], b[16], b[17]]);
        let channels = u16::from_be_bytes([b[0], b[1]]);
        let r = aiff::read_properties(&b[..n], false, stream_len, file_len);
        if n < 18 || channels == 0 || e == 32767 || b[8] & 0x80 != 0 {
            reach!("an invalid one");
            chk!(r.is_err(), "COMM: no channels, or a negative or infinite rate, is an error");
            return;
        }
        match r {
            Ok(p) => {
                reach!("a valid one");
                chk!(p.channels() == channels, "COMM: channel count");
                chk!(p.sample_size() == u16::from_be_bytes([b[6], b[7]]), "COMM: sample size");
                chk!(p.sample_rate() == f80_round(e, m), "COMM: sample rate");
                chk!(p.compression_type().is_none(), "COMM: no compression type in an AIFF file");
                core::mem::forget(p);
            },
            Err(()) => {
                // only rates beyond the range of a double may be refused
                chk!(e > 16383 + 1000, "COMM: a valid one is decoded");
            },
        }
    }

    /// the compression type of an AIFC 'COMM' of 18 to 26 bytes, for every known type (enumerated)
    once p12_aifc {
        let known: [(&[u8; 4], T); 13] = [
            (b"NONE", T::None), (b"ACE2", T::ACE2), (b"ACE8", T::ACE8), (b"MAC3", T::MAC3), (b"MAC6", T::MAC6),
            (b"sowt", T::sowt), (b"fl32", T::fl32), (b"fl64", T::fl64), (b"alaw", T::alaw), (b"ulaw", T::ulaw),
            (b"ULAW", T::ULAW), (b"ALAW", T::ALAW), (b"FL32", T::FL32),
        ];
        for n in 18..27usize {
        let mut k = 0;
        while k < 13 {
            let mut b = *b"\x00\x02\x00\x00\x00\x00\x00\x10\x40\x0E\xAC\x44\x00\x00\x00\x00\x00\x00____\x00\x00\x00\x00";
            b[18] = known[k].0[0];
            b[19] = known[k].0[1];
            b[20] = known[k].0[2];
            b[21] = known[k].0[3];
            match aiff::read_properties(&b[..n], true, 0, 0) {
                Ok(p) => {
                    chk!(p.channels() == 2 && p.sample_size() == 16 && p.sample_rate() == 44100, "COMM: the fields before the compression type");
                    if n >= 23 {
                        reach!("a compression type");
                        chk!(p.compression_type() == Some(&known[k].1), "COMM: compression type");
                    } else {
                        chk!(p.compression_type().is_none(), "COMM: no compression type without its bytes");
                    }
                    core::mem::forget(p);
                },
                Err(()) => chk!(false, "COMM: a valid one is decoded"),
            }
            k += 1;
        }
        }
    }

    /// AIFC contents with any compression type and compression name
    native p12_aifc_other {
        let b = nd::bytes_like::<48>(*b"\x00\x02\x00\x01\x00\x00\x00\x10\x40\x0E\xAC\x44\x00\x00\x00\x00\x00\x00abcd\x05hello12345678901234567890");
        let n = nd::below(49) as usize;
        let r = aiff::read_properties(&b[..n], true, nd::u32(), nd::u64());
        let known: [&[u8; 4]; 13] = [b"NONE", b"ACE2", b"ACE8", b"MAC3", b"MAC6", b"sowt", b"fl32", b"fl64", b"alaw", b"ulaw", b"ULAW", b"ALAW", b"FL32"];
        let ty = [b[18], b[19], b[20], b[21]];
        if let Ok(p) = r {
            if n >= 23 && !known.contains(&&ty) {
                reach!("another compression type");
                let len = usize::from(b[22]);
                chk!(23 + len <= n, "COMM: a truncated compression name is an error");
                match p.compression_type() {
                    Some(T::Other { compression_type, compression_name }) => {
                        chk!(*compression_type == ty, "COMM: unknown compression type is kept");
                        let want = std::str::from_utf8(&b[23..23 + len]).unwrap_or("?").trim_end_matches('\0');
                        chk!(compression_name == want, "COMM: compression name");
                    },
                    _ => chk!(false, "COMM: unknown compression type is kept"),
                }
            }
        }
    }

    /// every 'fmt ' content of up to 48 bytes: never panics, and every field is taken from its position
    proof p12_wav [unwind(4)] {
        let b = nd::bytes_like::<48>([1, 0, 2, 0, 0x44, 0xAC, 0, 0, 0x10, 0xB1, 2, 0, 4, 0, 16, 0, 22, 0, 16, 0, 3, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71, 0, 0, 0, 0, 0, 0, 0, 0]);
        let n = nd::below(49) as usize;
        let (samples, stream_len, file_len) = (nd::u32(), nd::u32(), nd::u64());
        nd::assume(file_len < 1 << 60);
        let le16 = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
        let le32 = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let ext = le16(0) == 0xFFFE;
        nd::assume(le16(2) < 256);
        let r = wav::read_properties(&b[..n], samples, stream_len, file_len);
        let bits = le16(14);
        let tag = if ext && n >= 40 { le16(24) } else { le16(0) };
        let pcm = tag == 1 || tag == 3;
        let bad = n < 16 || stream_len == 0 || (ext && n < 40) || le16(2) == 0 || bits % 8 != 0 || (!pcm && samples == 0);
        match r {
            Ok(p) => {
                reach!("a valid one");
                chk!(!bad, "fmt: an invalid one is an error");
                chk!(u16::from(p.channels()) == le16(2), "fmt: channel count");
                chk!(p.sample_rate() == le32(4), "fmt: sample rate");
                let depth = if ext && le16(18) > 0 { le16(18) as u8 } else if bits > 0 { bits as u8 } else { (le16(12) / le16(2)).saturating_mul(8) as u8 };
                chk!(p.bit_depth() == depth, "fmt: bit depth");
                chk!(p.channel_mask().map(|m| m.bits()) == if ext { Some(le32(20)) } else { None }, "fmt: channel mask");
                chk!(*p.format() == match tag { 1 => WavFormat::PCM, 3 => WavFormat::IEEE_FLOAT, o => WavFormat::Other(o) }, "fmt: format");
            },
            Err(()) => {
                reach!("an invalid one");
                chk!(bad, "fmt: a valid one is decoded");
            },
        }
    }

    /// AIFF duration and bitrates: frames over rate, sizes over duration
    native p12_aiff_duration {
        let mut b = [0u8, 2, 0, 1, 0, 0, 0, 16, 0x40, 0x0E, 0xAC, 0x44, 0, 0, 0, 0, 0, 0];
        let frames = nd::u32();
        let rate = nd::u32_of(&[44100, 48000, 192000, 8000, 1, 2, 3, u32::MAX]);
        nd::assume(rate > 0);
        b[2..6].copy_from_slice(&frames.to_be_bytes());
        let lz = rate.leading_zeros();
        b[8..10].copy_from_slice(&(16383 + 31 - lz as u16).to_be_bytes());
        b[10..18].copy_from_slice(&(u64::from(rate << lz) << 32).to_be_bytes());
        let (stream_len, file_len) = (nd::u32(), nd::u64() >> 12);
        let Ok(p) = aiff::read_properties(&b, false, stream_len, file_len) else { chk!(false, "COMM: a valid one is decoded"); return };
        chk!(p.sample_rate() == rate, "COMM: sample rate");
        let ms = u128::from(frames) * 1000 / u128::from(rate);
        let got = p.duration().as_millis();
        chk!(got <= ms + 1 && ms <= got + 1, "COMM: duration is the number of frames over the rate");
        if frames > 0 {
            reach!("a duration");
            // bits per millisecond, rounded
            let kbps = |n: u64| { let (a, c) = (u128::from(n) * 8 * u128::from(rate), u128::from(frames) * 1000); (a + c / 2) / c };
            let near = |k: u32, n: u64| { let w = kbps(n).min(u128::from(u32::MAX)); let k = u128::from(k); k <= w + 1 && w <= k + 1 };
            chk!(near(p.overall_bitrate(), file_len), "COMM: overall bitrate is the file's size over the duration");
            chk!(near(p.audio_bitrate(), u64::from(stream_len)), "COMM: audio bitrate is the stream's size over the duration");
        }
    }

    /// WAV duration and bitrates
    native p12_wav_duration {
        let mut b = [0u8; 16];
        let channels = 1 + nd::below(8) as u32;
        let bits = 8 * (1 + nd::below(4) as u32);
        let rate = nd::u32_of(&[44100, 48000, 8000, 192000, 1]);
        let bps = nd::u32_of(&[176400, 96000, 0]);
        b[0] = 1;
        b[2] = channels as u8;
        b[4..8].copy_from_slice(&rate.to_le_bytes());
        b[8..12].copy_from_slice(&bps.to_le_bytes());
        b[12] = (channels * bits / 8) as u8;
        b[14] = bits as u8;
        let (stream_len, file_len) = (nd::u32(), nd::u64() >> 10);
        nd::assume(stream_len > 0 && rate > 0);
        let Ok(p) = wav::read_properties(&b, 0, stream_len, file_len) else { chk!(false, "fmt: a valid one is decoded"); return };
        let samples = u64::from(stream_len / (channels * bits / 8));
        if samples > 0 {
            reach!("a duration");
            let ms = (samples * 1000 + u64::from(rate) / 2) / u64::from(rate);
            chk!(p.duration().as_millis() as u64 == ms, "fmt: duration is the sample count over the rate");
        }
    }
}
