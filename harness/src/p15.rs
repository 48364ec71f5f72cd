//! P15: APE tags
use crate::{chk, nd, reach};
use lofty::ape::verif::{header_read, tag_read};
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::{ParseOptions, WriteOptions};
use lofty::tag::{ItemValue, TagExt};
use std::io::Cursor;

#[cfg(not(kani))]
fn header() {
    let front = nd::below(60) as usize;
    let version = nd::u32_of(&[2000, 2000, 1000, 0, 2001]);
    let body = nd::below(60) as u32;
    let size = match nd::below(6) { 0 => nd::u32(), 1 => nd::below(80) as u32, _ => body + 32 };
    let count = nd::u32_of(&[0, 1, 2]);
    let flags = nd::u32_of(&[1 << 31, 0, 3 << 30, 7 << 29, 1 << 29]);
    let mut d = vec![1; front];
    for v in [version, size, count, flags] { d.extend(v.to_le_bytes()) }
    d.extend([0; 8]);
    d.extend(vec![2; nd::below(100) as usize]);
    if nd::below(8) == 0 { d.truncate(front + nd::below(24) as usize) }
    let footer = nd::bool();
    let mut r = Cursor::new(d.clone());
    r.set_position(front as u64);
    let got = header_read(&mut r, footer);
    let whole = if version == 2000 && (!footer || flags >> 31 == 1) { size as u64 + 32 } else { size as u64 };
    match got {
        Ok((s, c)) => {
            reach!("decodes");
            chk!(d.len() >= front + 16 && size >= 32, "ape: an inconsistent header is an error");
            chk!(c == count, "ape: the item count as stored");
            chk!(s as u64 == whole.min(u32::MAX as u64) && s as usize <= d.len(), "ape: the size includes the header where there is one");
            let at = if footer { (front + 24) as i64 - size as i64 } else { (front + 24) as i64 };
            chk!(r.position() as i64 == at, "ape: the reader is at the first item");
        },
        Err(()) => {
            reach!("errors");
            let short = d.len() < front + 16;
            chk!(short || size < 32 || whole > d.len() as u64 || (footer && (front + 24) < size as usize), "ape: a consistent header is decoded");
        },
    }
}

#[cfg(not(kani))]
fn key(i: usize) -> String {
    let keys = ["Title", "Artist", "Cover Art (Front)", "ab", "a b", "~~", "Comment", "Track", "ISRC", "Year"];
    match nd::below(4) {
        0 => "k".repeat(nd::u8_of(&[2, 255, 254, 3]).max(2) as usize) + "",
        _ => keys[(i + nd::below(2) as usize * 5) % 10].to_string(),
    }
}

#[cfg(not(kani))]
fn tag() -> ApeTag {
    let mut t = ApeTag::default();
    for i in 0..nd::below(6) as usize {
        let texts = ["", "a", "\u{e9}\u{4e2d}", "a\0b", "https://x.y"];
        let v = match nd::below(4) {
            0 => ItemValue::Binary((0..nd::below(300)).map(|_| nd::u8()).collect()),
            1 => ItemValue::Locator(texts[nd::below(5) as usize].to_string()),
            2 => ItemValue::Text("x".repeat(nd::below(600) as usize)),
            _ => ItemValue::Text(texts[nd::below(5) as usize].to_string()),
        };
        if let Ok(mut item) = ApeItem::new(key(i), v) {
            item.read_only = nd::below(4) == 0;
            t.insert(item);
        }
    }
    t.read_only = nd::below(4) == 0;
    t
}

#[cfg(not(kani))]
fn encode(t: &ApeTag) -> Vec<u8> {
    let mut body = Vec::new();
    let mut n = 0u32;
    for i in t {
        let (k, v) = match i.value() { ItemValue::Text(s) => (0u32, s.as_bytes()), ItemValue::Binary(b) => (1, &b[..]), ItemValue::Locator(s) => (2, s.as_bytes()) };
        body.extend((v.len() as u32).to_le_bytes());
        body.extend((k << 1 | u32::from(i.read_only)).to_le_bytes());
        body.extend(i.key().as_bytes());
        body.push(0);
        body.extend(v);
        n += 1;
    }
    if n == 0 { return body }
    let frame = |flags: u32| {
        let mut f = b"APETAGEX".to_vec();
        for v in [2000, body.len() as u32 + 32, n, flags | u32::from(t.read_only)] { f.extend(v.to_le_bytes()) }
        f.extend([0; 8]);
        f
    };
    let mut out = frame(7 << 29);
    out.extend(&body);
    out.extend(frame(3 << 30));
    out
}

/// bit 30, "there is no footer", is left to the tests, which expect it set
#[cfg(not(kani))]
fn mask(mut v: Vec<u8>) -> Vec<u8> {
    let n = v.len();
    if n >= 64 { v[23] &= !0x40; v[n - 9] &= !0x40 }
    v
}

#[cfg(not(kani))]
fn round() {
    let t = tag();
    let mut out = Vec::new();
    chk!(t.dump_to(&mut out, WriteOptions::default()).is_ok(), "ape: a tag is written");
    chk!(mask(out.clone()) == mask(encode(&t)), "ape: header, items and footer as specified");
    if t.is_empty() { return }
    reach!("a tag");
    // by its header, and by its footer, within a file
    let front = nd::below(40) as usize;
    let mut d = vec![5; front];
    d.extend(&out);
    d.extend(vec![6; nd::below(40) as usize]);
    let trimmed = |v: &ItemValue| match v { ItemValue::Text(s) => (0, s.trim_end_matches('\0').as_bytes().to_vec()), ItemValue::Locator(s) => (2, s.trim_end_matches('\0').as_bytes().to_vec()), ItemValue::Binary(b) => (1, b.clone()) };
    for footer in [false, true] {
        let mut r = Cursor::new(d.clone());
        r.set_position(if footer { front + out.len() - 32 } else { front } as u64);
        let Ok(Some(got)) = tag_read(&mut r, footer, ParseOptions::new()) else { chk!(false, "ape: a written tag reads back"); return };
        chk!(got.len() == t.len(), "ape: every item reads back");
        for (a, b) in (&got).into_iter().zip(&t) {
            chk!(a.key() == b.key() && a.read_only == b.read_only && trimmed(a.value()) == trimmed(b.value()), "ape: every item reads back byte for byte");
        }
        chk!(r.position() as usize == front + out.len(), "ape: the reader is behind the tag");
    }
    // and without its cover art
    let mut r = Cursor::new(d.clone());
    r.set_position(front as u64);
    let Ok(Some(got)) = tag_read(&mut r, false, ParseOptions::new().read_cover_art(false)) else { chk!(false, "ape: a written tag reads back"); return };
    let want: Vec<_> = (&t).into_iter().filter(|i| i.key() != "Cover Art (Front)").map(|i| i.key()).collect();
    chk!((&got).into_iter().map(|i| i.key()).collect::<Vec<_>>() == want, "ape: every item but the cover reads back");
}

#[cfg(not(kani))]
fn hostile() {
    let mut d = encode(&tag());
    if d.is_empty() { d = b"APETAGEX".to_vec(); d.extend((0..60).map(|_| nd::u8())) }
    for _ in 0..nd::below(6) {
        let i = nd::below(d.len() as u64) as usize;
        d[i] = nd::u8_of(&[0, 255, 128, 32, 11]);
    }
    if nd::below(3) == 0 { d.truncate(nd::below(d.len() as u64) as usize) }
    let footer = nd::bool();
    let mut r = Cursor::new(d.clone());
    if footer { r.set_position(d.len().saturating_sub(32) as u64) }
    let _ = tag_read(&mut r, footer, ParseOptions::new());
    reach!("read");
}

harnesses! {
    /// any header or footer
    native p15_header { header() }
    /// any tag, written and read by its header and by its footer
    native p15_round { round() }
    /// damaged tags
    native p15_hostile { hostile() }
}
