//! P08: ID3v2 frame flags and tag restrictions
use crate::{chk, nd, reach};
use lofty::config::ParseOptions;
use lofty::id3::v2::verif as v;
use lofty::id3::v2::{FrameFlags, ImageSizeRestrictions, TagRestrictions, TagSizeRestrictions, TextSizeRestrictions};

fn any_flags() -> FrameFlags {
    let b = nd::bytes::<5>();
    let mut f = FrameFlags::default();
    f.tag_alter_preservation = b[0] & 1 != 0;
    f.file_alter_preservation = b[0] & 2 != 0;
    f.read_only = b[0] & 4 != 0;
    f.grouping_identity = (b[0] & 8 != 0).then_some(b[1]);
    f.compression = b[0] & 16 != 0;
    f.encryption = (b[0] & 32 != 0).then_some(b[2]);
    f.unsynchronisation = b[0] & 64 != 0;
    f.data_length_indicator = (b[0] & 128 != 0).then_some(u32::from(b[3]) << 8 | u32::from(b[4]));
    f
}

/// ID3v2.4.0-structure 4.1: %0abc0000 %0h00kmnp
fn bits24(f: &FrameFlags) -> u16 {
    (f.tag_alter_preservation as u16) << 14 | (f.file_alter_preservation as u16) << 13 | (f.read_only as u16) << 12
        | (f.grouping_identity.is_some() as u16) << 6 | (f.compression as u16) << 3 | (f.encryption.is_some() as u16) << 2
        | (f.unsynchronisation as u16) << 1 | (f.data_length_indicator.is_some() as u16)
}

/// ID3v2.3.0 3.3.1: %abc00000 %ijk00000
fn bits23(f: &FrameFlags) -> u16 {
    (f.tag_alter_preservation as u16) << 15 | (f.file_alter_preservation as u16) << 14 | (f.read_only as u16) << 13
        | (f.compression as u16) << 7 | (f.encryption.is_some() as u16) << 6 | (f.grouping_identity.is_some() as u16) << 5
}

harnesses! {
    /// every flag combination writes exactly its ID3v2.4 bits, and they decode to the same flags
    proof p08_flags_v24 {
        let f = any_flags();
        let w = f.as_id3v24_bytes();
        chk!(w == bits24(&f), "v2.4 flags: every flag in its own bit and no other bit");
        let g = FrameFlags::parse_id3v24(w);
        chk!(bits24(&g) == bits24(&f), "v2.4 flags: encode then decode gives every flag back");
    }
    /// every flag combination writes exactly its ID3v2.3 bits, and they decode to the same flags
    proof p08_flags_v23 {
        let f = any_flags();
        let w = f.as_id3v23_bytes();
        chk!(w == bits23(&f), "v2.3 flags: every flag in its own bit and no other bit");
        let g = FrameFlags::parse_id3v23(w);
        chk!(bits23(&g) == bits23(&f), "v2.3 flags: encode then decode gives every flag back");
    }
    /// every 16-bit flag word decodes to the flags the two specifications assign to its bits
    proof p08_flag_words {
        let w = nd::u16();
        let f = FrameFlags::parse_id3v24(w);
        chk!(bits24(&f) == w & 0x704F, "v2.4 flags: decoded from their own bits only");
        let f = FrameFlags::parse_id3v23(w);
        chk!(bits23(&f) == w & 0xE0E0, "v2.3 flags: decoded from their own bits only");
        chk!(!f.unsynchronisation && f.data_length_indicator.is_none(), "v2.3 flags: no v2.4-only flag is decoded");
    }
    /// all 256 restriction bytes
    proof p08_restrictions {
        let b = nd::u8();
        let r = TagRestrictions::from_byte(b);
        chk!(r.size == match b >> 6 { 0 => TagSizeRestrictions::S_128F_1M, 1 => TagSizeRestrictions::S_64F_128K, 2 => TagSizeRestrictions::S_32F_40K, _ => TagSizeRestrictions::S_32F_4K }, "restrictions: tag size from bits 7-6");
        chk!(r.text_encoding == (b & 0x20 != 0), "restrictions: text encoding from bit 5");
        chk!(r.text_fields_size == match b >> 3 & 3 { 0 => None, 1 => Some(TextSizeRestrictions::C_1024), 2 => Some(TextSizeRestrictions::C_128), _ => Some(TextSizeRestrictions::C_30) }, "restrictions: text field size from bits 4-3");
        chk!(r.image_encoding == (b & 4 != 0), "restrictions: image encoding from bit 2");
        chk!(r.image_size == match b & 3 { 0 => None, 1 => Some(ImageSizeRestrictions::P_256), 2 => Some(ImageSizeRestrictions::P_64), _ => Some(ImageSizeRestrictions::P_64_64) }, "restrictions: image size from bits 1-0");
        chk!(r.as_bytes() == b, "restrictions: decode then encode gives the byte back");
    }
    /// a 10-byte frame header: size and flags from their own bytes, synchsafe size in ID3v2.4 only
    native p08_frame_header {
        let v24 = nd::bool();
        let ids: [&[u8; 4]; 4] = [b"TPE1", b"APIC", b"TXXX", b"PRIV"];
        let id = ids[nd::below(4) as usize];
        let size = nd::u32();
        let flags = nd::u16();
        let mut h = [0u8; 10];
        h[..4].copy_from_slice(id);
        h[4..8].copy_from_slice(&size.to_be_bytes());
        h[8..].copy_from_slice(&flags.to_be_bytes());
        let Ok(Some((got, n, f))) = v::frame::frame_header(&h, v24, ParseOptions::new()) else {
            chk!(false, "frame header: a well-formed header is decoded");
            return;
        };
        reach!("a frame header");
        chk!(got.as_bytes() == id, "frame header: identifier");
        let b = size.to_be_bytes().map(|b| u32::from(b & 0x7F));
        let want = if v24 { b[0] << 21 | b[1] << 14 | b[2] << 7 | b[3] } else { size };
        chk!(n == want, "frame header: size, synchsafe exactly in ID3v2.4");
        if v24 {
            chk!(bits24(&f) == flags & 0x704F, "frame header: v2.4 flags");
        } else {
            chk!(bits23(&f) == flags & 0xE0E0, "frame header: v2.3 flags");
        }
    }
}
