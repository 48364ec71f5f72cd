//! P07: ID3v2 tag headers (id3v2.4.0-structure 3.1-3.4, id3v2.3.0 3.1-3.2, id3v2-00 3.1)
use crate::nd::At;
use crate::{chk, nd, reach};
use lofty::id3::v2::verif as v;
use lofty::id3::v2::{Id3v2TagFlags, Id3v2Version, TagRestrictions};

fn synchsafe(b: &[u8]) -> u32 {
    u32::from(b[0] & 0x7F) << 21 | u32::from(b[1] & 0x7F) << 14 | u32::from(b[2] & 0x7F) << 7 | u32::from(b[3] & 0x7F)
}

/// A refusal is allowed for: a foreign signature, an unknown major version, an ID3v2.2 tag with its compression bit
fn readable(b: &[u8]) -> bool {
    b[0] == b'I' && b[1] == b'D' && b[2] == b'3' && (b[3] == 3 || b[3] == 4 || (b[3] == 2 && b[5] & 0x40 == 0))
}

fn version(major: u8) -> Id3v2Version {
    match major { 2 => Id3v2Version::V2, 3 => Id3v2Version::V3, _ => Id3v2Version::V4 }
}

fn base_fields(b: &[u8], h: &v::H) {
    chk!(readable(b), "header: only the ID3 signature with a supported version is a tag");
    chk!(h.version == version(b[3]), "header: version from the major version byte");
    chk!(h.flags.unsynchronisation == (b[5] & 0x80 != 0), "header: unsynchronisation flag");
    chk!(h.flags.experimental == (b[3] >= 3 && b[5] & 0x20 != 0), "header: experimental flag, from ID3v2.3 on");
    if b[3] == 4 {
        chk!(h.flags.footer == (b[5] & 0x10 != 0), "header: footer flag of ID3v2.4");
    }
    if b[3] == 2 {
        chk!(!h.flags.footer, "header: ID3v2.2 has no footer");
    }
    chk!(h.size == synchsafe(&b[6..10]), "header: synchsafe size");
    chk!(h.full_tag_size == h.size + 10 + if h.flags.footer { 10 } else { 0 }, "header: total size is header, declared size and footer");
}

/// What the two specifications say about the extended header at the start of `x`.
/// `None`: not well formed, so nothing is demanded.
/// `Some((bytes, crc, restrictions))`
fn ext_header(major: u8, unsync: bool, x: &[u8]) -> Option<(u32, bool, Option<u8>)> {
    if major == 4 {
        if x.len() < 6 || x[..4].iter().any(|b| *b > 0x7F) || x[4] != 1 {
            return None;
        }
        let (size, fl) = (synchsafe(x), x[5]);
        let (mut at, mut crc, mut res) = (6usize, false, None);
        if fl & 0x40 != 0 {
            if *x.get(at)? != 0 { return None; }
            at += 1;
        }
        if fl & 0x20 != 0 {
            if *x.get(at)? != 5 { return None; }
            crc = true;
            at += 6;
        }
        if fl & 0x10 != 0 {
            if *x.get(at)? != 1 { return None; }
            res = Some(*x.get(at + 1)?);
            at += 2;
        }
        if size as usize != at || at > x.len() { return None; }
        Some((size, crc, res))
    } else {
        let (mut at, mut last) = (0usize, 0u8);
        let mut head = [0u8; 14];
        let mut want = 4usize;
        let mut k = 0;
        while k < want {
            let mut c = *x.get(at)?;
            at += 1;
            if unsync && last == 0xFF && c == 0 {
                c = *x.get(at)?;
                at += 1;
            }
            last = c;
            head[k] = c;
            k += 1;
            if k == 4 {
                let size = u32::from_be_bytes([head[0], head[1], head[2], head[3]]);
                if size != 6 && size != 10 { return None; }
                want = 4 + size as usize;
            }
        }
        let crc = head[4] & 0x80 != 0;
        if crc != (want == 14) { return None; }
        Some((at as u32, crc, None))
    }
}

fn ext_contract(b: &[u8]) {
    let mut r = b;
    let n = b.len();
    let out = v::header_parse(&mut r);
    let used = n - r.len();
    let want = if n >= 10 && readable(b) && b[3] >= 3 && b[5] & 0x40 != 0 { ext_header(b[3], b[5] & 0x80 != 0, &b[10..]) } else { None };
    match out {
        Ok(h) => {
            reach!("an extended header");
            base_fields(b, &h);
            chk!(used == 10 + h.extended_size as usize, "extended header: the reader is left at the end of the headers");
            chk!(h.extended_size <= h.size, "extended header: within the tag");
            if b[5] & 0x40 != 0 && b[3] >= 3 {
                chk!(h.extended_size >= 6, "extended header: at least its six mandatory bytes");
                if b[3] == 4 {
                    chk!(h.extended_size == synchsafe(&b[10..14]), "extended header: exactly its announced bytes belong to it (ID3v2.4)");
                }
            } else {
                chk!(h.extended_size == 0, "extended header: none without its flag");
            }
            if let Some((size, crc, res)) = want {
                reach!("well formed");
                chk!(h.extended_size == size, "extended header: all of its bytes belong to it");
                chk!(h.flags.crc == crc, "extended header: CRC flag");
                match (h.flags.restrictions, res) {
                    (None, None) => {},
                    (Some(got), Some(byte)) => chk!(got == TagRestrictions::from_byte(byte), "extended header: restrictions byte"),
                    _ => chk!(false, "extended header: restrictions flag"),
                }
            }
        },
        Err(()) => {
            reach!("refused");
            if let Some((size, _, _)) = want {
                chk!(size >= synchsafe(&b[6..10]), "extended header: a well-formed one inside of the tag is read");
            }
        },
    }
}

harnesses! {
    /// every byte string of up to 10 bytes without an extended header, followed by anything
    proof p07_header [unwind(4)] {
        let b = nd::bytes_like::<10>([b'I', b'D', b'3', 4, 0, 0x10, 0, 0, 7, 9]);
        let n = nd::below(11) as usize;
        nd::assume(b[3] == 2 || b[5] & 0x40 == 0);
        let mut r = &b[..n];
        match v::header_parse(&mut r) {
            Ok(h) => {
                reach!("a header");
                chk!(n == 10, "header: a truncated header is an error");
                base_fields(&b, &h);
                chk!(h.extended_size == 0, "header: no extended header without its flag");
                chk!(!h.flags.crc && h.flags.restrictions.is_none(), "header: no extended flags without an extended header");
                chk!(r.is_empty(), "header: ten bytes are read");
            },
            Err(()) => {
                reach!("refused");
                chk!(n < 10 || !readable(&b), "header: a supported version is read");
            },
        }
    }

    /// every ID3v2.3 and ID3v2.4 header with an extended header that fits 14 bytes
    native p07_extended {
        let b = nd::bytes_like::<24>([b'I', b'D', b'3', 4, 0, 0x50, 0, 0, 7, 9, 0, 0, 0, 14, 1, 0x30, 5, 1, 2, 3, 4, 5, 1, 0xA5]);
        nd::assume((b[3] == 3 || b[3] == 4) && b[5] & 0x40 != 0 && b[0] == b'I' && b[1] == b'D' && b[2] == b'3');
        ext_contract(&b);
    }

    /// extended headers of any length, generated
    native p07_extended_any {
        let major = 3 + nd::u8() % 2;
        let mut b = vec![b'I', b'D', b'3', major, 0, nd::u8() | 0x40, 0, 0, nd::u8() & 3, nd::u8() & 0x7F];
        let fl = nd::u8() & 0xF0;
        let noise = nd::bytes::<24>();
        if major == 4 {
            let mut x = vec![1, fl];
            if fl & 0x40 != 0 { x.push(0); }
            if fl & 0x20 != 0 { x.extend([5, 1, 2, 3, 4, 5]); }
            if fl & 0x10 != 0 { x.extend([1, nd::u8()]); }
            let extra = nd::below(5);
            let mut size = (x.len() + 4) as u32;
            if extra == 4 { size = nd::u32_of(&[0, 5, 6, 7, 40]); }
            b.extend([(size >> 21) as u8 & 0x7F, (size >> 14) as u8 & 0x7F, (size >> 7) as u8 & 0x7F, size as u8 & 0x7F]);
            b.extend(x);
        } else {
            let size = nd::u32_of(&[6, 10, 10, 5, 11]);
            let mut x = size.to_be_bytes().to_vec();
            x.extend([fl & 0x80, 0]);
            x.extend(nd::u32().to_be_bytes());
            if size > 6 { x.extend(nd::u32().to_be_bytes()); }
            if b[5] & 0x80 != 0 {
                let mut y = Vec::new();
                for c in x {
                    y.push(c);
                    if c == 0xFF { y.push(0); }
                }
                x = y;
            }
            b.extend(x);
        }
        b.extend(noise);
        ext_contract(&b);
    }

    /// `find_id3v2` without reading the tag, at every stream position: the reader is left at the first
    /// byte after the tag, or where it started when there is none
    native p07_find {
        let b = nd::bytes_like::<10>([b'I', b'D', b'3', 4, 0, 0x10, 0, 0, 7, 9]);
        let n = nd::below(11) as usize;
        nd::assume(b[3] == 2 || b[5] & 0x40 == 0);
        let base = nd::u64();
        nd::assume(base < 1 << 60);
        let mut r = At::new(base, b, n);
        match v::find_id3v2(&mut r, false, None) {
            Ok((Some(h), content)) => {
                reach!("a tag");
                chk!(n == 10, "find: a truncated header is no tag");
                base_fields(&b, &h);
                chk!(content.is_none(), "find: a tag that is not read has no content");
                chk!(r.pos == base + u64::from(h.full_tag_size), "find: the reader is left at the end of the tag");
            },
            Ok((None, content)) => {
                reach!("no tag");
                chk!(n < 10 || !readable(&b), "find: a tag is found");
                chk!(content.is_none(), "find: no content without a tag");
                chk!(r.pos == base, "find: without a tag the reader is left where it was");
            },
            Err(()) => chk!(false, "find: a stream without a tag is no error"),
        }
    }

    /// `find_id3v2` over whole streams: junk before the tag, extended headers, content, footer
    native p07_find_streams {
        let window = nd::bool();
        let junk = if window { nd::below(12) as usize } else { 0 };
        let mut s: Vec<u8> = (0..junk).map(|i| [0u8, b'I', b'D', 0xFF][(i * 7 + nd::u8() as usize) % 4]).collect();
        let start = nd::below(3) as usize;
        let mut pre = vec![0x55; start];
        let major = 2 + nd::u8() % 3;
        let flags = nd::u8_of(&[0, 0x80, 0x10, 0x30, 0x40, 0x50]);
        nd::assume(major != 2 || flags & 0x40 == 0);
        let body = nd::bytes::<20>();
        let size = nd::below(21) as usize;
        let at = s.len();
        s.extend([b'I', b'D', b'3', major, 0, flags, 0, 0, 0, size as u8]);
        s.extend(&body[..size]);
        let footer = major == 4 && flags & 0x10 != 0;
        if footer { s.extend([b'3', b'D', b'I', major, 0, flags, 0, 0, 0, size as u8]); }
        s.extend([0xFF, 0xFB, 0x90, 0x64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
        nd::assume(!s[..at + 2].windows(3).any(|w| w == b"ID3"));
        nd::assume(major != 3 || flags & 0x10 == 0);
        pre.extend(&s);
        let read = nd::bool();
        let limit = nd::below(30);
        let mut c = std::io::Cursor::new(pre);
        c.set_position(start as u64);
        let within = !window || at as u64 + 3 <= limit;
        let out = v::find_id3v2(&mut c, read, window.then_some(limit));
        let ext = if flags & 0x40 != 0 { ext_header(major, flags & 0x80 != 0, &s[at + 10..]) } else { Some((0, false, None)) };
        let Ok((h, content)) = out else { chk!(false, "find: no error on a complete stream"); return; };
        if !within {
            chk!(h.is_none() && content.is_none(), "find: junk is only searched inside of its window");
            chk!(c.position() == start as u64, "find: without a tag the reader is left where it was");
            return;
        }
        match h {
            Some(h) => {
                reach!("a tag");
                chk!(c.position() == (start + at + 10 + size + if footer { 10 } else { 0 }) as u64, "find: the reader is left at the end of the tag");
                match content {
                    Some(x) => chk!(read && x[..] == body[h.extended_size as usize..size], "find: the content is everything between the headers and the footer"),
                    None => chk!(!read, "find: a tag that is read has content"),
                }
            },
            None => {
                chk!(c.position() == start as u64, "find: without a tag the reader is left where it was");
                chk!(!matches!(ext, Some((n, _, _)) if n == 0 || (n as usize) < size), "find: a well-formed tag is found");
            },
        }
    }

    /// headers as lofty writes them: the header parses back with the written flags and the exact size
    native p07_written {
        use lofty::prelude::*;
        let mut tag = lofty::id3::v2::Id3v2Tag::default();
        let text: String = (0..nd::below(60)).map(|_| char::from(b'a' + nd::u8() % 26)).collect();
        nd::assume(!text.is_empty());
        tag.set_artist(text.clone());
        let v3 = nd::bool();
        let b = nd::u8();
        let res = nd::u8();
        let mut fl = Id3v2TagFlags::default();
        fl.unsynchronisation = b & 1 != 0;
        fl.experimental = b & 2 != 0;
        fl.footer = b & 4 != 0;
        fl.crc = b & 8 != 0;
        fl.restrictions = (b & 16 != 0).then_some(TagRestrictions::from_byte(res));
        tag.set_flags(fl);
        let padding = nd::below(300) as u32;
        let mut out = Vec::new();
        let opts = lofty::config::WriteOptions::new().use_id3v23(v3).preferred_padding(padding);
        chk!(tag.dump_to(&mut out, opts).is_ok(), "written: the tag is written");
        reach!("written");
        let footer = fl.footer && !v3;
        let mut r = &out[..];
        let Ok(h) = v::header_parse(&mut r) else { chk!(false, "written: the header parses back"); return; };
        chk!(h.version == if v3 { Id3v2Version::V3 } else { Id3v2Version::V4 }, "written: version");
        chk!(h.flags.experimental == fl.experimental, "written: experimental flag");
        chk!(h.flags.footer == footer, "written: footer flag");
        chk!(h.flags.crc == fl.crc, "written: CRC flag");
        chk!(v3 || h.flags.restrictions == fl.restrictions, "written: restrictions");
        chk!(h.full_tag_size as usize == out.len(), "written: the declared size is the size of the tag");
        if footer {
            let n = out.len();
            chk!(&out[n - 10..n - 7] == b"3DI" && out[n - 7..] == out[3..10], "written: the footer repeats the header");
        }
        let frames = 10 + h.extended_size as usize;
        chk!(&out[frames..frames + 4] == b"TPE1", "written: the frames follow the headers");
        // the tag inside of a stream
        let n = out.len();
        out.extend([0xFF, 0xFB, 0x90, 0x64]);
        let mut c = std::io::Cursor::new(out);
        let f = v::find_id3v2(&mut c, false, None);
        chk!(matches!(f, Ok((Some(_), None))) && c.position() == n as u64, "written: the reader is left at the end of the tag");
    }
}
