//! P10: ADTS frame headers (ISO 14496-3 1.A.3.2)
use crate::{chk, nd, reach};
use lofty::aac::verif as a;
use lofty::config::ParsingMode;
use lofty::mp4::AudioObjectType;
use lofty::mpeg::MpegVersion;
use std::io::Cursor;

harnesses! {
    /// every header of 7 bytes with everything that may follow it (up to 12 bytes), at every position
    proof p10_header [unwind(14)] {
        let b = nd::bytes_like::<12>([0xFF, 0xF1, 0x50, 0x80, 0x02, 0x1F, 0xFC, 0, 0, 0, 0, 0]);
        let n = nd::below(13) as usize;
        let mode = match nd::below(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed };
        let mut c = Cursor::new(&b[..n]);
        let r = a::header_read(&mut c, mode);
        if n < 7 {
            chk!(r.is_err(), "ADTS: a truncated header is an error");
            return;
        }
        // bit `i` of the header, counted from its first bit
        let bits = |from: usize, len: usize| -> u32 {
            let w = u64::from_be_bytes([0, b[0], b[1], b[2], b[3], b[4], b[5], b[6]]);
            ((w >> (56 - from - len)) & ((1 << len) - 1)) as u32
        };
        let idx = bits(18, 4);
        if idx == 15 {
            chk!(r.is_err(), "ADTS: the forbidden sample rate index is an error");
            return;
        }
        let Ok(Some(h)) = r else { chk!(false, "ADTS: a complete header is decoded"); return };
        reach!("a header");
        let rate = [96000u32, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0][idx as usize];
        chk!(h.version == if bits(12, 1) == 0 { MpegVersion::V4 } else { MpegVersion::V2 }, "ADTS: MPEG version");
        chk!(h.audio_object_ty == match bits(16, 2) { 0 => AudioObjectType::AacMain, 1 => AudioObjectType::AacLowComplexity, 2 => AudioObjectType::AacScalableSampleRate, _ => AudioObjectType::AacLongTermPrediction }, "ADTS: profile");
        chk!(h.sample_rate == rate, "ADTS: sample rate");
        chk!(u32::from(h.channels) == bits(23, 3), "ADTS: channel configuration");
        chk!(h.original == (bits(26, 1) == 1), "ADTS: original bit");
        chk!(h.copyright == (bits(27, 1) == 1), "ADTS: copyright bit");
        chk!(u32::from(h.len) == bits(30, 13), "ADTS: 13-bit frame length");
        chk!(h.has_crc == (bits(15, 1) == 0), "ADTS: CRC presence");
        let mut i = 0;
        while i < 7 { chk!(h.bytes[i] == b[i], "ADTS: the header bytes are kept"); i += 1; }
        chk!(h.bitrate == (bits(30, 13) * rate / 1024) * 8 / 1024, "ADTS: bitrate of a 1024-sample frame in kibibits");
        chk!(c.position() == if h.has_crc { 9 } else { 7 }, "ADTS: the reader is left after the header and its CRC");
    }
}
