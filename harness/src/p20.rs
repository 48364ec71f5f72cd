//! P20: text encodings
#![cfg(not(kani))]
use crate::{chk, nd, reach};
use lofty::TextEncoding as E;
use lofty::__verif_util::{decode, encode, encode_valid_up_to, latin1_decode, utf16_decode_maybe_bom};
use std::io::Cursor;

const ENCODINGS: [E; 4] = [E::Latin1, E::UTF16, E::UTF16BE, E::UTF8];
fn wide(e: E) -> bool { matches!(e, E::UTF16 | E::UTF16BE) }
fn a_char() -> char {
    for _ in 0..64 {
        let n = match nd::below(8) { 0 => nd::u8().into(), 1 => nd::u16().into(), 2 => nd::u32_of(&[0xFEFF, 0xFFFE, 0xFF, 0x100, 0x7F, 0x80, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]), 3 => nd::u32() % 0x110000, 4 => ((1 + nd::below(16) as u32) << 16) + u32::from(nd::u8()), _ => 0x20 + u32::from(nd::u8()) % 0x5F };
        if let Some(c) = char::from_u32(n) { if c != '\0' { return c } }
    }
    'a'
}
fn a_text() -> String { (0..nd::below(9)).map(|_| a_char()).collect() }
fn latin(s: &str) -> bool { s.chars().all(|c| u32::from(c) < 256) }
fn utf16(s: &str, big: bool) -> Vec<u8> { s.encode_utf16().flat_map(|w| if big { w.to_be_bytes() } else { w.to_le_bytes() }).collect() }
/// what is written, and with which terminator
fn written(e: E, s: &str, terminated: bool) -> Vec<u8> {
    let mut v = match e {
        E::Latin1 => s.chars().map(|c| u8::try_from(u32::from(c)).unwrap_or(b'?')).collect(),
        E::UTF16 => { let big = cfg!(target_endian = "big"); [utf16("\u{FEFF}", big), utf16(s, big)].concat() },
        E::UTF16BE => utf16(s, true),
        E::UTF8 => s.as_bytes().to_vec(),
    };
    if terminated { v.extend(&[0, 0][..if wide(e) { 2 } else { 1 }]) }
    v
}
/// where the text ends, and how long its terminator is
fn end(e: E, d: &[u8]) -> (usize, usize) {
    if wide(e) {
        let mut k = 0;
        while d.len() - k >= 2 { if d[k] == 0 && d[k + 1] == 0 { return (k, 2) } k += 2; }
        (k, 0)
    } else { match d.iter().position(|b| *b == 0) { Some(k) => (k, 1), None => (d.len(), 0) } }
}
/// the words, without the mark at the start of each string
fn words(raw: &[u8], big: bool) -> Vec<u16> {
    let mut v = Vec::new();
    let mut start = true;
    for c in raw.chunks_exact(2) {
        let mark = start && (c == [0xFF, 0xFE] || c == [0xFE, 0xFF]);
        start = c == [0, 0];
        if !mark { v.push(if big { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }) }
    }
    v
}
fn trimmed(s: String) -> String { s.trim_end_matches('\0').to_string() }
fn meaning(e: E, raw: &[u8], bom: [u8; 2]) -> Option<String> {
    match e {
        E::Latin1 => Some(raw.iter().map(|b| char::from(*b)).collect()),
        E::UTF16 => {
            if raw.len() < 2 || raw.len() % 2 != 0 { return None }
            let m = if bom == [0, 0] { [raw[0], raw[1]] } else { bom };
            if m != [0xFF, 0xFE] && m != [0xFE, 0xFF] { return None }
            String::from_utf16(&words(raw, m[0] == 0xFE)).ok()
        },
        E::UTF16BE => String::from_utf16(&words(raw, true)).ok(),
        E::UTF8 => String::from_utf8(raw.to_vec()).ok(),
    }.map(trimmed)
}
fn round_trip(e: E, s: &str, terminated: bool, rest: &[u8]) {
    let r = encode(e, s, terminated, false);
    chk!(r.is_ok() == (e != E::Latin1 || latin(s)), "encode: fails exactly on what Latin-1 cannot express");
    let Ok(mut v) = r else { return };
    chk!(v == written(e, s, terminated), "encode: the text in its encoding, and its terminator");
    let n = v.len();
    if terminated { v.extend(rest) }
    if e == E::UTF16BE && s.starts_with(['\u{FEFF}', '\u{FFFE}']) { return }
    let mut c = Cursor::new(v);
    let got = decode(&mut c, e, terminated, [0, 0]);
    chk!(matches!(&got, Ok((t, k, _)) if t == s && *k == n), "round trip: the text comes back, and only it is consumed");
    chk!(c.position() == n as u64, "round trip: what is behind the terminator is left alone");
    if wide(e) && terminated {
        c.set_position(0);
        let got = utf16_decode_maybe_bom(&mut c, e == E::UTF16BE);
        chk!(matches!(&got, Ok((t, k)) if t == s && *k == n), "round trip: also when the byte order mark is optional");
    }
    reach!("a round trip");
}

harnesses! {
    /// any text, in every encoding, terminated or not
    native p20_round_trip {
        let s = a_text();
        let e = ENCODINGS[nd::below(4) as usize];
        let rest: Vec<u8> = (0..nd::below(5)).map(|_| nd::u8_of(&[0, 0xFF, 0xFE])).collect();
        round_trip(e, &s, nd::bool(), &rest);
    }
    /// every character, alone and between others
    once p20_every_char {
        for n in 1..0x110000 {
            let Some(c) = char::from_u32(n) else { continue };
            let t = format!("a{c}b");
            for e in ENCODINGS {
                if e == E::Latin1 && n > 0x120 && n % 257 != 0 { continue }
                round_trip(e, &t, n % 2 == 0, &[]);
            }
            if n < 0x300 || n % 97 == 0 || n & 0xFF00 == 0xFE00 || n & 0xFF00 == 0xFF00 { for e in ENCODINGS { round_trip(e, &c.to_string(), true, &[]); round_trip(e, &c.to_string(), false, &[]); } }
        }
    }
    /// lossy: only what Latin-1 cannot express is replaced; otherwise the error names where it is
    native p20_latin1 {
        let s = a_text();
        let t = nd::bool();
        chk!(encode(E::Latin1, &s, t, true).ok() == Some(written(E::Latin1, &s, t)), "lossy: exactly the characters beyond U+00FF become question marks");
        let bad = s.char_indices().find(|(_, c)| u32::from(*c) > 255).map(|(i, _)| i);
        chk!(encode_valid_up_to(E::Latin1, &s).err() == bad, "encode: the error holds the byte index of the first character that cannot be expressed");
        for e in [E::UTF16, E::UTF16BE, E::UTF8] { let l = nd::bool(); chk!(encode(e, &s, t, l).ok() == Some(written(e, &s, t)), "lossy: changes nothing but Latin-1"); }
        reach!("a text");
    }
    /// any bytes: the text up to its terminator, or an error exactly when they are none
    native p20_decode {
        let e = ENCODINGS[nd::below(4) as usize];
        let mut d: Vec<u8> = match nd::below(4) {
            0 => written(E::UTF16, &a_text(), nd::bool()),
            1 => [written(e, &a_text(), true), written(e, &a_text(), true)].concat(),
            2 => [utf16("\u{FEFF}", nd::bool()), (0..nd::below(10)).map(|_| nd::u8_of(&[0, 0xD8, 0xDC, 0xFF, 0xFE])).collect()].concat(),
            _ => (0..nd::below(12)).map(|_| nd::u8_of(&[0, 0, 0xFF, 0xFE, 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xF0])).collect(),
        };
        if nd::below(3) == 0 && !d.is_empty() { let k = nd::below(d.len() as u64) as usize; d[k] = nd::u8_of(&[0]); }
        let terminated = nd::bool();
        let bom = match nd::below(4) { 0 => [0xFF, 0xFE], 1 => [0xFE, 0xFF], 2 => [nd::u8_of(&[0, 0xFF]), nd::u8_of(&[0, 0xFE])], _ => [0, 0] };
        let (k, t) = if terminated { end(e, &d) } else { (d.len(), 0) };
        let raw = &d[..k];
        let mut c = Cursor::new(&d);
        let got = decode(&mut c, e, terminated, bom);
        let want = if k == 0 { Some(String::new()) } else { meaning(e, raw, bom) };
        chk!(got.is_ok() == want.is_some(), "decode: fails exactly on bytes that are no text of the encoding");
        chk!(c.position() == if t > 0 { k + t } else { d.len() } as u64, "decode: the text and its terminator are consumed");
        if let (Ok((s, n, b)), Some(w)) = (got, want) {
            reach!("a text");
            chk!(s == w, "decode: the text, without NULs at its end");
            chk!(n == k + t, "decode: as many bytes as were read");
            chk!(b == if e != E::UTF16 || k == 0 { [0, 0] } else if bom == [0, 0] { [d[0], d[1]] } else { bom }, "decode: the byte order mark that was used");
        }
        if e == E::Latin1 { chk!(Some(latin1_decode(raw)) == meaning(e, raw, bom), "decode: Latin-1") }
    }
    /// terminated UTF-16 with or without a mark
    native p20_maybe_bom {
        let mut d = match nd::below(3) { 0 => vec![], 1 => vec![0xFF, 0xFE], _ => vec![0xFE, 0xFF] };
        let big0 = nd::bool();
        d.extend(utf16(&a_text(), nd::bool()));
        if nd::bool() { d.extend([0, 0]); }
        for _ in 0..nd::below(4) { d.push(nd::u8()) }
        let (k, t) = end(E::UTF16, &d);
        let big = match &d[..k] { [0xFF, 0xFE, ..] => false, [0xFE, 0xFF, ..] => true, _ => big0 };
        let mut c = Cursor::new(&d);
        let got = utf16_decode_maybe_bom(&mut c, big0);
        chk!(got.ok() == String::from_utf16(&words(&d[..k], big)).ok().map(|s| (trimmed(s), k + t)), "maybe bom: the mark decides, or what was given");
        chk!(c.position() == if t > 0 { k + t } else { d.len() } as u64, "maybe bom: the text and its terminator are consumed");
    }
}
