//! P27: Musepack, WavPack and Monkey's Audio stream headers
use crate::nd::At;
use crate::{chk, nd, reach};
use lofty::ape::verif as ape;
use lofty::config::ParsingMode;
use lofty::musepack::sv8::{EncoderInfo, ReplayGain, StreamHeader};
use lofty::musepack::verif as mpc;
use lofty::wavpack::verif as wv;
use std::io::Cursor;

fn mode() -> ParsingMode {
    match nd::below(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed }
}

const FREQ: [u32; 8] = [44100, 48000, 37800, 32000, 0, 0, 0, 0];

/// the fields of one 'SH' payload after its two sizes
fn sh_fields(b1: u8, b2: u8) -> (u32, u8, u8, bool, u16) {
    (FREQ[usize::from(b1 >> 5)], (b1 & 0x1F) + 1, (b2 >> 4) + 1, b2 & 8 != 0, 1u16 << (2 * (b2 & 7)))
}

#[cfg(not(kani))]
fn vle(v: u64) -> Vec<u8> {
    let mut out = vec![(v & 0x7F) as u8];
    let mut v = v >> 7;
    while v > 0 {
        out.insert(0, 0x80 | (v & 0x7F) as u8);
        v >>= 7;
    }
    out
}

/// leaves the fields of the header alone
#[cfg(kani)]
fn stub_duration(_: &mut lofty::ape::ApeProperties, _: u64, _: u32, _: u32, _: u32, _: u64) {}

/// not called for a block with a standard sample rate and no DSD audio
#[cfg(kani)]
fn stub_meta(_: ParsingMode, _: &[u8], _: &mut lofty::wavpack::WavPackProperties) -> Result<(), lofty::wavpack::error::WavPackParseError> {
    kani::assert(false, "WavPack: the metadata is only read if it is needed");
    Ok(())
}

harnesses! {
    /// every variable-length size: up to ten bytes of input
    proof p27_sv8_size [unwind(12)] {
        let b = nd::bytes::<10>();
        let n = nd::below(11) as usize;
        let mut want = 0u64;
        let mut used = 0usize;
        let mut ended = false;
        let mut i = 0;
        while i < 9 {
            if !ended && i < n {
                want = want << 7 | u64::from(b[i] & 0x7F);
                used = i + 1;
                ended = b[i] & 0x80 == 0;
            }
            i += 1;
        }
        let mut c = Cursor::new(&b[..n]);
        match mpc::sv8_parts::read_size(&mut c) {
            Ok((v, k)) => {
                reach!("a size");
                chk!(ended, "SV8 size: a truncated or overlong one is an error");
                chk!(v == want, "SV8 size: seven bits per byte, most significant first");
                chk!(usize::from(k) == used && c.position() == used as u64, "SV8 size: exactly its bytes are read");
            },
            Err(()) => {
                reach!("no size");
                chk!(!ended, "SV8 size: a complete one is decoded");
            },
        }
    }

    /// SV8 durations and bitrates for any header content
    native p27_sv8_properties {
        let mut h = StreamHeader::default();
        h.sample_count = nd::u64() >> 1;
        h.beginning_silence = nd::u64_of(&[0, 1, 481]) >> 1;
        h.sample_rate = FREQ[nd::below(8) as usize];
        h.channels = 2;
        let len = nd::u64() >> 1;
        let r = mpc::sv8_parts::properties(len, h, ReplayGain::default(), Some(EncoderInfo::default()));
        if h.beginning_silence > h.sample_count {
            chk!(r.is_err(), "SV8: a silence longer than the stream is an error");
            return;
        }
        let Ok(p) = r else { chk!(false, "SV8: a valid header is accepted"); return };
        chk!(p.stream_header == h, "SV8: the stream header is kept");
        let n = u128::from(h.sample_count - h.beginning_silence);
        if n == 0 || h.sample_rate == 0 {
            chk!(p.duration().is_zero() && p.average_bitrate() == 0, "SV8: no duration without samples and a rate");
        } else {
            reach!("a duration");
            let r = u128::from(h.sample_rate);
            chk!(p.duration().as_millis() == (n * 1000 + r / 2) / r, "SV8: duration is samples over rate");
            chk!(p.average_bitrate() == (u128::from(len) * 8 * r / (n * 1000)) as u32, "SV8: average bitrate");
        }
    }

    /// a whole SV8 stream: packets in any order and of any announced size, every field from its bits
    native p27_sv8_stream {
        let b = nd::bytes_like::<24>([1, 2, 3, 4, 8, 0x0B, 0x21, 0, 0, 0, 1, 0x4E, 0x8F, 0x60, 0xC1, 0x4E, 0x8F, 0x60, 0xC1, 0xA1, 1, 30, 0, 0]);
        let (count, silence) = (nd::u64() >> 1, nd::u64_of(&[0, 481]) >> 1);
        let extra = nd::below(4) as usize;
        let mut sh = vec![b[0], b[1], b[2], b[3], b[4]];
        sh.extend(vle(count));
        sh.extend(vle(silence));
        sh.extend([b[5], b[6]]);
        sh.extend(std::iter::repeat(0xEE).take(extra));
        let mut f = Vec::new();
        let packet = |f: &mut Vec<u8>, k: &[u8; 2], c: &[u8]| { f.extend(k); f.extend(vle(c.len() as u64 + 3)); f.extend(c); };
        let ap = vec![0x55; nd::below(60) as usize];
        if nd::bool() { packet(&mut f, b"SO", &[1, 2, 3]); }
        packet(&mut f, b"SH", &sh);
        packet(&mut f, b"RG", &b[10..19]);
        packet(&mut f, b"EI", &b[19..23]);
        packet(&mut f, b"AP", &ap);
        packet(&mut f, b"SE", &[]);
        packet(&mut f, b"RG", &[0; 9]);
        let r = mpc::sv8(&mut Cursor::new(&f), mode());
        if silence > count { chk!(r.is_err(), "SV8: a silence longer than the stream is an error"); return; }
        let Ok(p) = r else { chk!(false, "SV8: a well-formed stream is decoded"); return };
        reach!("a stream");
        let h = p.stream_header;
        chk!(h.crc == u32::from_be_bytes([b[0], b[1], b[2], b[3]]) && h.stream_version == b[4], "SV8: CRC and version");
        chk!(h.sample_count == count && h.beginning_silence == silence, "SV8: sample counts");
        chk!((h.sample_rate, h.max_used_bands, h.channels, h.ms_used, h.audio_block_frames) == sh_fields(b[5], b[6]), "SV8: stream header bit fields");
        let be = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
        let g = p.replay_gain;
        chk!(g.version == b[10] && g.title_gain == be(11) && g.title_peak == be(13) && g.album_gain == be(15) && g.album_peak == be(17), "SV8: replay gain fields");
        let Some(e) = p.encoder_info else { chk!(false, "SV8: encoder info"); return };
        chk!(e.profile == f32::from(b[19] >> 1) / 8.0 && e.pns_tool == (b[19] & 1 == 1) && (e.major, e.minor, e.build) == (b[20], b[21], b[22]), "SV8: encoder info fields");
    }

    /// arbitrary SV8 streams
    native p27_sv8_any {
        let b = nd::bytes_like::<62>(*b"SH\x10\x01\x02\x03\x04\x08\x85\x10\x00\x0B\x21\x00\x00\x00RG\x0C\x01\x00\x00\x00\x00\x00\x00\x00\x00EI\x07\xA1\x01\x1E\x00AP\x0Fabcdefghijkl\x00SE\x03\x00\x00\x00\x00\x00\x00\x00\x00");
        let n = nd::below(63) as usize;
        let _ = mpc::sv8(&mut Cursor::new(&b[..n]), mode());
    }

    /// every 25-byte SV7 header
    native p27_sv7 {
        let b = nd::bytes_like::<25>([0x17, 0, 1, 0, 0, 0, 0, 0x8A, 0xC0, 1, 0, 2, 0, 3, 0, 4, 0, 0, 0, 0x18, 0x80, 115, 0, 0, 0]);
        let n = nd::below(26) as usize;
        let len = nd::u64() >> 20;
        let r = mpc::sv7(&mut Cursor::new(&b[..n]), len);
        if n < 22 || b[0] & 15 != 7 { chk!(r.is_err(), "SV7: a truncated header or another version is an error"); return; }
        let gapless = b[20] & 0x80 != 0;
        let last = if gapless { (u16::from(b[20]) << 8 | u16::from(b[19])) >> 4 & 0x7FF } else { 0 };
        if last > 1152 { chk!(r.is_err(), "SV7: an impossible last frame length is an error"); return; }
        let Ok(p) = r else { chk!(false, "SV7: a complete header is decoded"); return };
        reach!("an SV7 header");
        let le = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
        let frames = u32::from_le_bytes([b[1], b[2], b[3], b[4]]);
        chk!(p.frame_count() == frames && p.channels() == 2, "SV7: frame count");
        chk!(p.intensity_stereo() == (b[8] & 0x80 != 0) && p.mid_side_stereo() == (b[8] & 0x40 != 0) && p.max_band() == b[8] & 0x3F, "SV7: stereo flags and maximum band");
        chk!(p.profile() == lofty::musepack::sv7::Profile::from_u8(b[7] >> 4).unwrap() && p.link() == lofty::musepack::sv7::Link::from_u8(b[7] >> 2 & 3).unwrap(), "SV7: profile and link");
        chk!(p.sample_rate() == FREQ[usize::from(b[7] & 3)] && p.max_level() == le(5), "SV7: sample rate and level");
        chk!(p.true_gapless() == gapless && p.last_frame_length() == last, "SV7: gapless flag and last frame length");
        chk!(p.fast_seeking_safe() == (b[19] & 8 != 0) && p.encoder_version() == b[21], "SV7: seeking flag and encoder version");
        let gain = |g: u16| { if g == 0 { return 0 } let v = ((64.82f32 - f32::from(g) / 100.0) * 256.0 + 0.5) as i16; if (0..i16::MAX).contains(&v) { v } else { 0 } };
        let peak = |g: u16| if g == 0 { 0 } else { (f64::from(g).log10() * 5120.0 + 0.5) as i32 };
        chk!(p.title_gain() == gain(le(11)) && p.album_gain() == gain(le(15)), "SV7: gains");
        chk!((i32::from(p.title_peak()) - peak(le(9))).abs() <= 1 && (i32::from(p.album_peak()) - peak(le(13))).abs() <= 1, "SV7: peaks");
        if frames > 0 {
            let ms = u128::from(frames) * 1152 * 1000 / u128::from(p.sample_rate());
            let got = p.duration().as_millis();
            chk!(got <= ms && ms - got <= 1, "SV7: duration is frames over rate");
            let samples = u128::from(frames) * 1152 - if gapless { 1152 - u128::from(last) } else { 481 };
            if samples > 0 {
                chk!(p.average_bitrate() == (u128::from(len) * 8 * u128::from(p.sample_rate()) / (samples * 1000)) as u32, "SV7: average bitrate");
            }
        }
    }

    /// every 32-byte SV4-6 header
    native p27_sv4to6 {
        let b = nd::bytes_like::<33>([0x41, 0x28, 0x20, 0, 0, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let n = nd::below(34) as usize;
        let m = mode();
        let len = nd::u64() >> 20;
        let r = mpc::sv4to6(&mut Cursor::new(&b[..n]), m, len);
        let w = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let version = (w >> 11 & 0x3FF) as u16;
        let strict = m == ParsingMode::Strict;
        if n < 32 || !(4..=6).contains(&version) || (strict && (w >> 23 != 0 || w >> 22 & 1 == 1 || w & 0x3F != 1)) {
            chk!(r.is_err(), "SV4-6: a truncated or unsupported header is an error");
            return;
        }
        let Ok(p) = r else { chk!(false, "SV4-6: a complete header is decoded"); return };
        reach!("an SV4-6 header");
        let f = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
        let f = if version >= 5 { f } else { f >> 16 };
        let f = if version < 6 { f.saturating_sub(1) } else { f };
        chk!(p.stream_version() == version && p.frame_count() == f, "SV4-6: version and frame count");
        chk!(p.mid_side_stereo() == (w >> 21 & 1 == 1) && u32::from(p.max_band()) == w >> 6 & 0x1F, "SV4-6: stereo flag and maximum band");
        chk!(p.sample_rate() == 44100 && p.channels() == 2, "SV4-6: rate and channels");
        if f == 0 {
            chk!(p.average_bitrate() == w >> 23 && p.duration().is_zero(), "SV4-6: without frames the stored bitrate");
        } else {
            let ms = ((u64::from(f) * 1152).saturating_sub(481) * 1000 + 22050) / 44100;
            chk!(p.duration().as_millis() as u64 == ms, "SV4-6: duration is samples over rate");
        }
    }

    /// every WavPack block header: fields from their bits
    proof p27_wv_header [unwind(6), stub(lofty::util::alloc::fallible_vec_from_element, crate::nd::stub_vec), stub(lofty::wavpack::properties::get_extended_meta_info, stub_meta)] {
        let mut b = nd::bytes_like::<32>(*b"wvpk\x18\x00\x00\x00\x07\x04\x00\x00\x44\xAC\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x21\x18\x80\x04\x00\x00\x00\x00");
        for i in 12..16 { b[i] = 0xFF }
        let le = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let flags = le(24);
        let version = u16::from_le_bytes([b[8], b[9]]);
        // the only block: first and last, standard rate, no DSD, with samples, unknown length
        nd::assume(le(20) != 0 && flags & 0x1800 == 0x1800 && flags >> 23 & 15 != 15 && flags & 0x8000_0000 == 0);
        let mut r = At::new(0, b, 32);
        let p = wv::read_properties(&mut r, nd::u64(), ParsingMode::Strict);
        let bad = b[..4] != *b"wvpk" || le(4) < 24 || le(4) > 1_048_576 || version < 0x402 || version > 0x410;
        match p {
            Ok(p) => {
                reach!("a block");
                chk!(!bad, "WavPack: an unsupported block is an error in strict mode");
                let depth = (((flags & 3) + 1) * 8).saturating_sub(flags >> 13 & 31) as u8;
                chk!(p.version() == version, "WavPack: version");
                chk!(p.bit_depth() == depth, "WavPack: bytes per sample less the shift");
                chk!(p.channels() == if flags & 4 != 0 { 1 } else { 2 }, "WavPack: mono flag");
                chk!(p.is_lossless() == (flags & 8 == 0), "WavPack: hybrid flag");
                chk!(p.sample_rate() == [6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192000, 0][(flags >> 23 & 15) as usize], "WavPack: sample rate");
            },
            Err(()) => {
                reach!("an unsupported block");
                chk!(bad, "WavPack: a supported block is decoded");
            },
        }
    }

    /// WavPack metadata: one channel-information, sample-rate or DSD sub-block followed by a marker sub-block
    native p27_wv_meta {
        let kind = nd::below(4);
        let data = nd::bytes::<9>();
        let n = 1 + nd::below(9) as usize;
        let large = nd::bool();
        let id = match kind { 0 => 0x0D, 1 => 0x27, 2 => 0x0E, _ => 0x21u8 };
        let mut b = Vec::new();
        let words = (n as u32 + 1) / 2;
        b.push(id | if n % 2 == 1 { 0x40 } else { 0 } | if large { 0x80 } else { 0 });
        b.push(words as u8);
        if large { b.extend([0, 0]); }
        b.extend(&data[..n]);
        if n % 2 == 1 { b.push(0xEE); }
        // the marker: a sample rate in its own sub-block
        let marker = kind != 1;
        if marker { b.extend([0x67, 2, 0x11, 0x22, 0x33, 0]); }
        let mut p = Default::default();
        let m = mode();
        let r = wv::properties::extended_meta_info(m, &b, &mut p);
        let le = |k: &[u8]| k.iter().rev().fold(0u32, |a, x| a << 8 | u32::from(*x));
        match kind {
            0 => {
                if n < 2 || n > 7 { chk!(r.is_err(), "WavPack: channel information of an impossible size is an error"); return; }
                reach!("channel information");
                let (c, mask) = if n >= 6 {
                    ((u16::from(data[0]) | u16::from(data[2] & 15) << 8) + 1, le(&data[3..n]))
                } else {
                    (u16::from(data[0]), le(&data[1..n]))
                };
                chk!(r.is_ok(), "WavPack: valid metadata is decoded");
                chk!(p.channels() == c, "WavPack: channel count");
                chk!(p.channel_mask().bits() == mask, "WavPack: channel mask");
            },
            1 => {
                if n < 3 { chk!(r.is_err(), "WavPack: a sample rate of an impossible size is an error"); return; }
                chk!(r.is_ok() && p.sample_rate() == le(&data[..3]), "WavPack: sample rate");
            },
            2 => {
                if n < 2 || (m == ParsingMode::Strict && data[0] > 30) { chk!(r.is_err(), "WavPack: an invalid DSD block is an error"); return; }
                if data[0] > 30 { return; }
                chk!(r.is_ok(), "WavPack: valid metadata is decoded");
            },
            _ => chk!(r.is_ok(), "WavPack: an unknown sub-block is skipped"),
        }
        if marker {
            reach!("the next sub-block");
            chk!(p.sample_rate() == 0x33_22_11, "WavPack: a sub-block is skipped by exactly its size");
        }
    }

    /// large sub-blocks: every byte of the size counts
    native p27_wv_meta_large {
        let words = match nd::below(8) { 0 => nd::u32() % 0x7_F000, 1 => (0x100 << nd::below(11)) - nd::below(2) as u32, _ => nd::below(0x4000) as u32 };
        let odd = words > 0 && nd::bool();
        let mut b = vec![0xA1 | if odd { 0x40 } else { 0 }, words as u8, (words >> 8) as u8, (words >> 16) as u8];
        let short = nd::below(8) == 0 && words > 0;
        b.resize(4 + 2 * words as usize - usize::from(short), 0xEE);
        if !short { b.extend([0x67, 2, 0x11, 0x22, 0x33, 0]); }
        let mut p = Default::default();
        let r = wv::properties::extended_meta_info(mode(), &b, &mut p);
        if short { chk!(r.is_err(), "WavPack: a sub-block that does not fit is an error"); return }
        reach!("the next sub-block");
        chk!(r.is_ok() && p.sample_rate() == 0x33_22_11, "WavPack: a sub-block is skipped by exactly its size");
    }

    /// WavPack metadata of arbitrary bytes
    native p27_wv_meta_any {
        let (b, n) = nd::buf::<40>();
        let mut p = Default::default();
        let r = wv::properties::extended_meta_info(ParsingMode::BestAttempt, &b[..n], &mut p);
        if r.is_ok() { reach!("accepted") } else { reach!("refused") }
    }

    /// arbitrary WavPack streams of several blocks
    native p27_wv_any {
        let b = nd::bytes_like::<76>(*b"wvpk\x1E\x00\x00\x00\x07\x04\x00\x00\x44\xAC\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x21\x08\x80\x07\x00\x00\x00\x00\x67\x02\x11\x22\x33\x00wvpk\x1E\x00\x00\x00\x07\x04\x00\x00\x44\xAC\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x21\x10\x80\x07\x00\x00\x00\x00\x67\x02\x11\x22\x33\x00");
        let n = nd::below(77) as usize;
        let _ = wv::read_properties(&mut Cursor::new(&b[..n]), nd::u64(), mode());
    }

    /// every Monkey's Audio header from 3.98 on with the standard descriptor; the duration has its own contract
    proof p27_ape_new [unwind(2), stub(lofty::ape::properties::get_duration_bitrate, stub_duration)] {
        let mut b = nd::bytes_like::<72>([0x8C, 0x0F, 0, 0, 52, 0, 0, 0, 24, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xD0, 7, 0, 0, 0, 0x20, 1, 0, 0, 1, 0, 0, 3, 0, 0, 0, 16, 0, 2, 0, 0x44, 0xAC, 0, 0]);
        let version = u16::from_le_bytes([b[0], b[1]]);
        nd::assume(version >= 3980);
        b[4] = 52; b[5] = 0; b[6] = 0; b[7] = 0;
        let mut r = Cursor::new(&b[..]);
        let p = ape::read_properties(&mut r, nd::u64(), nd::u64(), ParsingMode::Strict);
        let bad = !(1..=32).contains(&b[66]) || u32::from_le_bytes([b[60], b[60 + 1], b[60 + 2], b[60 + 3]]) == 0;
        let Ok(p) = p else { chk!(bad, "Monkey's Audio: a complete header is decoded"); return };
        chk!(!bad, "Monkey's Audio: no frames or an impossible channel count is an error in strict mode");
        reach!("a header");
        chk!(p.version() == version, "Monkey's Audio: version");
        chk!(p.bit_depth() == b[64] && p.channels() == b[66], "Monkey's Audio: bit depth and channels");
        chk!(p.sample_rate() == u32::from_le_bytes([b[68], b[69], b[70], b[71]]), "Monkey's Audio: sample rate");
    }

    /// every Monkey's Audio header before 3.98; the duration has its own contract
    proof p27_ape_old [unwind(2), stub(lofty::ape::properties::get_duration_bitrate, stub_duration)] {
        let b = nd::bytes_like::<28>([0x6E, 0x0F, 0xD0, 7, 0, 0, 2, 0, 0x44, 0xAC, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 1, 0, 0]);
        let version = u16::from_le_bytes([b[0], b[1]]);
        nd::assume(version < 3980);
        let mut r = Cursor::new(&b[..]);
        let p = ape::read_properties(&mut r, nd::u64(), nd::u64(), ParsingMode::Strict);
        let bad = !(1..=32).contains(&b[6]) || u32::from_le_bytes([b[20], b[20 + 1], b[20 + 2], b[20 + 3]]) == 0;
        let Ok(p) = p else { chk!(bad, "Monkey's Audio: a complete header is decoded"); return };
        chk!(!bad, "Monkey's Audio: no frames or an impossible channel count is an error in strict mode");
        reach!("a header");
        chk!(p.version() == version, "Monkey's Audio: version");
        chk!(p.bit_depth() == if b[4] & 1 != 0 { 8 } else if b[4] & 8 != 0 { 24 } else { 16 }, "Monkey's Audio: bit depth from the format flags");
        chk!(p.channels() == b[6], "Monkey's Audio: channels");
        chk!(p.sample_rate() == u32::from_le_bytes([b[8], b[9], b[10], b[11]]), "Monkey's Audio: sample rate");
    }

    /// truncated Monkey's Audio headers and longer descriptors
    native p27_ape_any {
        let b = nd::bytes_like::<76>([0x8C, 0x0F, 0, 0, 52, 0, 0, 0, 24, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xD0, 7, 0, 0, 0, 0x20, 1, 0, 0, 1, 0, 0, 3, 0, 0, 0, 16, 0, 2, 0, 0x44, 0xAC, 0, 0, 0, 0, 0, 0]);
        let version = u16::from_le_bytes([b[0], b[1]]);
        let n = nd::below(77) as usize;
        let dl = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
        let extra = u64::from(dl.saturating_sub(52));
        let mut r = Cursor::new(&b[..n]);
        let p = ape::read_properties(&mut r, nd::u64(), nd::u64(), ParsingMode::BestAttempt);
        let need = if version < 3980 { 28 } else { 72 + extra };
        if (n as u64) < need {
            chk!(p.is_err(), "Monkey's Audio: a truncated header is an error");
        } else {
            reach!("a header");
            let Ok(p) = p else { chk!(false, "Monkey's Audio: a complete header is decoded"); return };
            if version >= 3980 {
                let at = |i: usize| b[extra as usize + i];
                chk!(p.bit_depth() == at(64) && p.channels() == at(66) && p.sample_rate() == u32::from_le_bytes([at(68), at(69), at(70), at(71)]), "Monkey's Audio: fields after a longer descriptor");
            }
        }
    }

    /// Monkey's Audio durations
    native p27_ape_duration {
        let mut b = [0u8; 72];
        let version = nd::u32_of(&[3970, 3990, 3940, 3890, 3790]) as u16;
        let level = nd::u32_of(&[1000, 4000]) as u16;
        let (last, frames, rate) = (nd::u32_of(&[0, 1, 2, 1152]), nd::u32_of(&[1, 2, 5000]), nd::u32_of(&[44100, 48000]));
        let mut bpf = nd::u32_of(&[73728, 294912]);
        let (stream_len, file_len) = (nd::u64() >> 8, nd::u64() >> 8);
        b[..2].copy_from_slice(&version.to_le_bytes());
        if version >= 3980 {
            b[4] = 52;
            b[52..56].copy_from_slice(&bpf.to_le_bytes());
            b[56..60].copy_from_slice(&last.to_le_bytes());
            b[60..64].copy_from_slice(&frames.to_le_bytes());
            b[64] = 16;
            b[66] = 2;
            b[68..72].copy_from_slice(&rate.to_le_bytes());
        } else {
            bpf = if version >= 3950 { 73728 * 4 } else if version >= 3900 || (version >= 3800 && level >= 4000) { 73728 } else { 9216 };
            b[2..4].copy_from_slice(&level.to_le_bytes());
            b[6] = 2;
            b[8..12].copy_from_slice(&rate.to_le_bytes());
            b[20..24].copy_from_slice(&frames.to_le_bytes());
            b[24..28].copy_from_slice(&last.to_le_bytes());
        }
        let Ok(p) = ape::read_properties(&mut Cursor::new(&b), stream_len, file_len, ParsingMode::BestAttempt) else { chk!(false, "Monkey's Audio: a complete header is decoded"); return };
        if frames > 0 && rate > 0 {
            let samples = u128::from(last) + u128::from(bpf) * u128::from(frames - 1);
            if samples < 1 << 40 {
                reach!("a duration");
                let ms = (samples * 1000 + u128::from(rate) / 2) / u128::from(rate);
                let got = p.duration().as_millis();
                chk!(got <= ms + 1 && ms <= got + 1, "Monkey's Audio: duration is samples over rate");
            }
        }
    }
}
