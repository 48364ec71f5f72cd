//! P17: ID3v1 tags
use crate::{chk, nd, reach};
use lofty::config::{ParsingMode, WriteOptions};
use lofty::id3::v1::{Id3v1Tag, GENRES};
use lofty::id3::v2::verif as _;
use lofty::tag::{TagExt, TagType};
use std::io::{Cursor, Seek};

#[cfg(not(kani))]
fn mode() -> ParsingMode { match nd::below(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed } }

#[cfg(not(kani))]
fn field(b: &[u8]) -> Option<String> {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    if n == 0 { None } else { Some(b[..n].iter().map(|c| char::from(*c)).collect()) }
}
#[cfg(not(kani))]
fn year(b: &[u8]) -> Option<u16> {
    if b.iter().all(u8::is_ascii_digit) { Some(b.iter().fold(0, |y, c| y * 10 + u16::from(c - b'0'))) } else { None }
}
/// what the 128 bytes mean
#[cfg(not(kani))]
fn meaning(b: &[u8; 128]) -> Id3v1Tag {
    let v11 = b[125] == 0 && b[126] != 0;
    let mut t = Id3v1Tag::default();
    t.title = field(&b[3..33]);
    t.artist = field(&b[33..63]);
    t.album = field(&b[63..93]);
    t.year = year(&b[93..97]);
    t.comment = field(if v11 { &b[97..125] } else { &b[97..127] });
    t.track_number = if v11 { Some(b[126]) } else { None };
    t.genre = if usize::from(b[127]) < GENRES.len() { Some(b[127]) } else { None };
    t
}
#[cfg(not(kani))]
fn block() -> [u8; 128] {
    let mut b = [0; 128];
    b[..3].copy_from_slice(b"TAG");
    for (s, n) in [(3, 30), (33, 30), (63, 30), (93, 4), (97, 30)] {
        let k = match nd::below(4) { 0 => 0, 1 => n, _ => nd::below(n as u64 + 1) as usize };
        let mut x = nd::u64() | 1;
        for i in 0..k {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            b[s + i] = match n { 4 => b'0' + (x >> 60) as u8 % 10, _ => (x >> 40) as u8 };
        }
        if nd::below(6) == 0 { b[s + nd::below(n as u64) as usize] = nd::u8() }
    }
    b[125] = nd::u8_of(&[0, 0, 1]);
    b[126] = nd::u8_of(&[0, 1, 255]);
    b[127] = nd::u8();
    if nd::below(20) == 0 { b[nd::below(3) as usize] = nd::u8() }
    b
}
#[cfg(not(kani))]
fn text(fits: usize) -> Option<String> {
    let n = match nd::below(5) { 0 => return None, 1 => fits, 2 => fits + nd::below(20) as usize, _ => 1 + nd::below(fits as u64) as usize };
    let mut x = nd::u64() | 1;
    let wide = nd::below(4) == 0;
    Some((0..n).map(|_| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let c = (x >> 40) as u32;
        if wide && c % 16 == 0 { ['\u{100}', '語', '\u{1F600}', 'Ā'][(c >> 8) as usize % 4] } else { char::from((1 + c % 255) as u8) }
    }).collect())
}
#[cfg(not(kani))]
fn pad(t: &Option<String>, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = t.iter().flat_map(|s| s.chars()).take(n).map(|c| u8::try_from(u32::from(c)).unwrap_or(b'?')).collect();
    v.resize(n, 0);
    v
}
#[cfg(not(kani))]
fn latin(t: &Option<String>, n: usize) -> bool { t.iter().flat_map(|s| s.chars().take(n)).all(|c| u32::from(c) < 256) }
#[cfg(not(kani))]
fn tag() -> Id3v1Tag {
    let mut t = Id3v1Tag::default();
    t.title = text(30);
    t.artist = text(30);
    t.album = text(30);
    t.comment = text(28);
    t.year = if nd::bool() { Some(nd::u16() % if nd::bool() { 10000 } else { 65535 }) } else { None };
    t.track_number = if nd::bool() { Some(nd::u8()) } else { None };
    t.genre = if nd::bool() { Some(nd::u8()) } else { None };
    t
}
#[cfg(not(kani))]
fn written(t: &Id3v1Tag) -> Vec<u8> {
    let mut w = b"TAG".to_vec();
    w.extend(pad(&t.title, 30));
    w.extend(pad(&t.artist, 30));
    w.extend(pad(&t.album, 30));
    w.extend(t.year.map_or(vec![0; 4], |y| format!("{:04}", y.min(9999)).into_bytes()));
    w.extend(pad(&t.comment, 28));
    w.extend([0, t.track_number.unwrap_or(0), t.genre.unwrap_or(255)]);
    w
}

harnesses! {
    /// any 128 bytes: every field from its own place
    native p17_parse {
        let b = block();
        let m = mode();
        let got = Id3v1Tag::parse(b, m);
        let strict_year = m == ParsingMode::Strict && year(&b[93..97]).is_none();
        chk!(got.is_ok() == (b.starts_with(b"TAG") && !strict_year), "parse: exactly the blocks that begin with TAG are tags");
        if let Ok(t) = got {
            reach!("a tag");
            chk!(t == meaning(&b), "parse: every field is taken from its own place");
        }
    }
    /// every genre byte, every track number
    once p17_every_genre {
        for g in 0..=255 {
            let mut b = [0; 128];
            b[..3].copy_from_slice(b"TAG");
            b[127] = g;
            b[126] = g;
            let t = Id3v1Tag::parse(b, ParsingMode::Relaxed);
            chk!(matches!(&t, Ok(t) if *t == meaning(&b)), "parse: every genre and track number");
            chk!(GENRES.len() == 192, "genres: there are 192");
        }
    }
    /// any tag: 128 bytes with every field in its place, and back
    native p17_encode {
        let t = tag();
        let lossy = nd::bool();
        let mut out = Vec::new();
        let r = t.dump_to(&mut out, WriteOptions::new().lossy_text_encoding(lossy));
        let can = lossy || (latin(&t.title, 30) && latin(&t.artist, 30) && latin(&t.album, 30) && latin(&t.comment, 28));
        chk!(r.is_ok() == can, "encode: fails exactly on characters that it may not replace");
        if r.is_err() { return }
        chk!(out.len() == 128, "encode: 128 bytes");
        chk!(out == written(&t), "encode: every field in its place");
        let fits = |s: &Option<String>, n| latin(s, n) && s.as_ref().is_none_or(|s| s.chars().count() <= n);
        if fits(&t.title, 30) && fits(&t.artist, 30) && fits(&t.album, 30) && fits(&t.comment, 28)
            && t.track_number != Some(0) && t.genre.is_none_or(|g| g < 192) && t.year.is_none_or(|y| y < 10000) {
            reach!("a tag that fits");
            let mut b = [0; 128];
            b.copy_from_slice(&out);
            chk!(matches!(Id3v1Tag::parse(b, ParsingMode::BestAttempt), Ok(u) if u == t), "a tag that fits reads back unchanged");
        }
    }
    /// found exactly when the last 128 bytes are one, also behind an APE tag
    native p17_find {
        let n = match nd::below(3) { 0 => nd::below(140), 1 => 120 + nd::below(20), _ => nd::below(400) } as usize;
        let mut d = vec![b'a'; n];
        let mut want = false;
        if n >= 128 && nd::bool() {
            d[n - 128..].copy_from_slice(&block());
            if nd::below(3) == 0 { let k = (3 + nd::below(5)) as usize; d[n - 128..n - 128 + k].copy_from_slice(&b"TAGEXTRA"[..k]); }
            if n >= 131 && nd::below(3) == 0 { d[n - 131..n - 128].copy_from_slice(b"APE"); }
            if n >= 131 && nd::below(3) == 0 { d[n - 131..n - 123].copy_from_slice(b"APETAGEX"); }
            want = d[n - 128..].starts_with(b"TAG") && !(n >= 131 && d[n - 131..].starts_with(b"APETAGEX"));
        }
        let read = nd::bool();
        let mut c = Cursor::new(d.clone());
        c.set_position(nd::below(n as u64 + 1));
        let m = mode();
        let r = lofty::id3::v2::verif::find_id3v1(&mut c, read, m);
        let bad_year = want && read && m == ParsingMode::Strict && year(&d[n - 35..n - 31]).is_none();
        chk!(r.is_ok() != bad_year, "find: fails only on a tag that is invalid");
        if let Ok((found, t)) = r {
            chk!(found == want, "find: a tag is found exactly when the last 128 bytes are one");
            chk!(c.stream_position().unwrap() == if want { n as u64 - 128 } else { n as u64 }, "find: the reader is at the tag, or at the end");
            chk!(t.is_some() == (want && read), "find: the tag is returned when asked for");
            if let Some(t) = t {
                reach!("a tag");
                let mut b = [0; 128];
                b.copy_from_slice(&d[n - 128..]);
                chk!(t == meaning(&b), "find: the tag is the one in the last 128 bytes");
            }
        }
    }
    /// saving replaces or appends 128 bytes, removing cuts them off; nothing else changes
    native p17_save {
        let mut d = b"\xFF\xFB\x90\x64".to_vec();
        d.resize(417 * 3, 0x55);
        for k in 1..3 { d[417 * k..417 * k + 4].copy_from_slice(b"\xFF\xFB\x90\x64"); }
        let audio = d.clone();
        let had = nd::bool();
        if had { let mut b = block(); b[..3].copy_from_slice(b"TAG"); d.extend_from_slice(&b); }
        let mut c = Cursor::new(d);
        let o = WriteOptions::new().lossy_text_encoding(true);
        let t = tag();
        let removing = nd::below(3) == 0;
        let r = if removing { TagType::Id3v1.remove_from(&mut c, o).is_ok() } else { t.save_to(&mut c, o).is_ok() };
        chk!(r, "save: succeeds");
        let mut want = audio;
        if !removing && !t.is_empty() { want.extend(written(&t)) }
        reach!("a saved file");
        chk!(c.into_inner() == want, "save: the last 128 bytes are the tag, or gone, and the rest is as it was");
    }
}
