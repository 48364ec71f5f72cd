//! P09: MPEG audio frame headers. The oracle is transcribed from ISO 11172-3 / 13818-3.
use crate::{chk, nd, reach};
use lofty::mpeg::verif as m;
use lofty::mpeg::{ChannelMode, Emphasis, Layer, MpegVersion};

/// kbit/s by (V1?, layer 1..=3, index); 0 = free format, forbidden
fn bitrate(v1: bool, layer: u32, i: u32) -> u32 {
    let t: [u32; 16] = match (v1, layer) {
        (true, 1) => [0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 0],
        (true, 2) => [0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 0],
        (true, _) => [0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0],
        (false, 1) => [0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256, 0],
        (false, _) => [0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0],
    };
    t[i as usize]
}

harnesses! {
    /// every one of the 2^32 header words against the ISO tables and field positions
    proof p09_header_word {
        let w = nd::u32();
        let version = (w >> 19) & 3;
        let layer_bits = (w >> 17) & 3;
        let br = (w >> 12) & 15;
        let sr = (w >> 10) & 3;
        let pad = (w >> 9) & 1;
        let r = m::header_read(w);
        let reserved = version == 1 || layer_bits == 0 || br == 0 || br == 15 || sr == 3;
        chk!(r.is_none() == reserved, "header: nothing exactly when reserved, invalid or free-format");
        if let Some(h) = r {
            reach!("a valid header");
            let v1 = version == 3;
            let layer = 4 - layer_bits;
            chk!(h.version == match version { 0 => MpegVersion::V2_5, 2 => MpegVersion::V2, _ => MpegVersion::V1 }, "header: version");
            chk!(h.layer == match layer { 1 => Layer::Layer1, 2 => Layer::Layer2, _ => Layer::Layer3 }, "header: layer");
            let kbps = bitrate(v1, layer, br);
            chk!(h.bitrate == kbps, "header: bitrate");
            let base = [44100u32, 48000, 32000][sr as usize];
            let rate = match version { 3 => base, 2 => base / 2, _ => base / 4 };
            chk!(h.sample_rate == rate, "header: sample rate");
            let spf: u32 = match layer { 1 => 384, 2 => 1152, _ => if v1 { 1152 } else { 576 } };
            chk!(u32::from(h.samples) == spf, "header: samples per frame");
            let mode = (w >> 6) & 3;
            chk!(h.channel_mode == match mode { 0 => ChannelMode::Stereo, 1 => ChannelMode::JointStereo, 2 => ChannelMode::DualChannel, _ => ChannelMode::SingleChannel }, "header: channel mode");
            chk!(h.mode_extension == if mode == 1 { Some(((w >> 4) & 3) as u8) } else { None }, "header: mode extension");
            chk!(h.copyright == ((w >> 3) & 1 == 1), "header: copyright");
            chk!(h.original == ((w >> 2) & 1 == 1), "header: original");
            chk!(h.emphasis == match w & 3 { 0 => None, 1 => Some(Emphasis::MS5015), 2 => Some(Emphasis::Reserved), _ => Some(Emphasis::CCIT_J17) }, "header: emphasis");
            let side = match (v1, mode == 3) { (true, false) => 32, (true, true) => 17, (false, false) => 17, (false, true) => 9 };
            chk!(h.data_start == side + 4, "header: start of the main data");
            // ISO 11172-3 2.4.3.1: slots of 4 bytes in Layer I, of 1 byte otherwise
            let len = match layer {
                1 => (12 * kbps * 1000 / rate + pad) * 4,
                _ => spf / 8 * kbps * 1000 / rate + pad,
            };
            chk!(h.len == len, "header: frame length");
        }
    }

    /// a frame sync is eleven set bits
    proof p09_frame_sync {
        let b = nd::bytes::<2>();
        chk!(m::verify_frame_sync(b) == (b[0] == 0xFF && b[1] >= 0xE0), "frame sync: eleven set bits");
    }

    /// two headers belong to one stream exactly when version, layer and sample rate agree
    proof p09_same_stream {
        let (a, b) = (nd::u32(), nd::u32());
        let (ra, rb) = (m::header_read(a), m::header_read(b));
        if let (Some(x), Some(y)) = (ra, rb) {
            reach!("two headers");
            chk!(m::header_cmp(a, b) == Some(x.version == y.version && x.layer == y.layer && x.sample_rate == y.sample_rate), "headers: the same stream exactly when version, layer and sample rate agree");
        }
    }

    /// the forward search returns the first frame sync, for every input of up to 6 bytes
    bounded p09_sync_search [unwind(8)] {
        let (b, n) = nd::buf::<6>();
        let mut r = &b[..n];
        let got = match m::search_for_frame_sync(&mut r) {
            Ok(g) => g,
            Err(_) => { chk!(false, "sync search: no error on a memory reader"); return; },
        };
        let mut want = None;
        let mut i = 0;
        while i + 1 < n {
            if want.is_none() && b[i] == 0xFF && b[i + 1] >= 0xE0 { want = Some(i as u64) }
            i += 1;
        }
        if want.is_some() { reach!("found") } else { reach!("not found") }
        chk!(got == want, "sync search: the first position with eleven set bits");
        if let Some(i) = want {
            chk!(r.len() == n - i as usize - 2, "sync search: the reader is left after the sync bytes");
        }
    }

    /// Xing/Info and VBRI headers of up to 40 bytes
    proof p09_vbr_header [unwind(41)] {
        let t = nd::below(4);
        let mut b = nd::bytes::<40>();
        let n = nd::below(41) as usize;
        match t {
            0 => b[..4].copy_from_slice(b"Xing"),
            1 => b[..4].copy_from_slice(b"Info"),
            2 => b[..4].copy_from_slice(b"VBRI"),
            _ => {},
        }
        let r = m::vbr_header_read(&b[..n]);
        let be = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let id = [b[0], b[1], b[2], b[3]];
        let xing = id == *b"Xing" || id == *b"Info";
        let vbri = id == *b"VBRI";
        if n < 4 || (xing && n < 16) || (vbri && n < 32) {
            chk!(r.is_err(), "VBR header: a truncated one is an error");
        } else if xing {
            let Ok(r) = r else { chk!(false, "VBR header: a complete one is decoded"); return };
            if b[7] & 3 != 3 {
                chk!(r.is_none(), "Xing header: nothing without the frame and byte counts");
            } else {
                reach!("a Xing header");
                chk!(r == Some((if id[0] == b'X' { 0 } else { 1 }, be(8), be(12))), "Xing header: frame and byte counts from their positions");
            }
        } else if vbri {
            reach!("a VBRI header");
            chk!(r == Ok(Some((2, be(14), be(10)))), "VBRI header: frame and byte counts from their positions");
        } else {
            chk!(r == Ok(None), "VBR header: nothing for any other content");
        }
    }
}
