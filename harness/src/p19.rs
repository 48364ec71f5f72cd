//! P19: timestamps
use crate::{chk, nd, reach};
use lofty::tag::items::Timestamp;
#[cfg(not(kani))]
use lofty::{config::{ParsingMode, WriteOptions}, id3::v2::{Frame, FrameId, Id3v2Tag, TimestampFrame}, tag::TagExt, TextEncoding};
use std::cmp::Ordering;

fn opt() -> Option<u8> { if nd::bool() { Some(nd::u8()) } else { None } }
fn any() -> Timestamp { Timestamp { year: nd::u16(), month: opt(), day: opt(), hour: opt(), minute: opt(), second: opt() } }
/// absent before 0 before 1 ..
fn rank(o: Option<u8>) -> u16 { match o { None => 0, Some(n) => u16::from(n) + 1 } }
/// chronologically: the first field that differs decides
fn order(a: &Timestamp, b: &Timestamp) -> Ordering {
    let x = [a.year, rank(a.month), rank(a.day), rank(a.hour), rank(a.minute), rank(a.second)];
    let y = [b.year, rank(b.month), rank(b.day), rank(b.hour), rank(b.minute), rank(b.second)];
    let mut k = 0;
    while k < 6 {
        if x[k] < y[k] { return Ordering::Less }
        if x[k] > y[k] { return Ordering::Greater }
        k += 1;
    }
    Ordering::Equal
}
#[cfg(not(kani))]
fn valid(t: &Timestamp) -> bool {
    let ok = |f: Option<u8>, max, parent: bool| f.is_none_or(|n| n <= max && parent);
    t.year <= 9999 && ok(t.month, 12, true) && ok(t.day, 31, t.month.is_some()) && ok(t.hour, 23, t.day.is_some())
        && ok(t.minute, 59, t.hour.is_some()) && ok(t.second, 59, t.minute.is_some())
}
#[cfg(not(kani))]
fn printed(t: &Timestamp) -> String {
    let mut s = format!("{:04}", t.year);
    for (f, c) in [(t.month, '-'), (t.day, '-'), (t.hour, 'T'), (t.minute, ':'), (t.second, ':')] {
        let Some(n) = f else { break };
        s.push(c);
        s.push(char::from(b'0' + n / 10));
        s.push(char::from(b'0' + n % 10));
    }
    s
}
#[cfg(not(kani))]
const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];
#[cfg(not(kani))]
fn some_valid() -> Timestamp {
    let mut t = Timestamp { year: nd::u16() % 10000, ..Timestamp::default() };
    let k = nd::below(6);
    if k > 0 { t.month = Some(nd::u8() % 13) }
    if k > 1 { t.day = Some(nd::u8() % 32) }
    if k > 2 { t.hour = Some(nd::u8() % 24) }
    if k > 3 { t.minute = Some(nd::u8() % 60) }
    if k > 4 { t.second = Some(nd::u8() % 60) }
    t
}

harnesses! {
    /// every pair of timestamps compares field by field, the first difference deciding
    proof p19_order [unwind(8)] {
        let a = any();
        let b = any();
        let o = order(&a, &b);
        chk!(a.cmp(&b) == o, "order: the first field that differs decides");
        chk!(a.partial_cmp(&b) == Some(o), "order: partial and total order agree");
        chk!((a == b) == (o == Ordering::Equal), "order: equal exactly when every field is");
        reach!("compared");
    }
    /// the same, executed, with fields that are often equal
    native p19_order_close {
        let a = some_valid();
        let mut b = a;
        match nd::below(7) { 0 => b.year = nd::u16(), 1 => b.month = opt(), 2 => b.day = opt(), 3 => b.hour = opt(), 4 => b.minute = opt(), 5 => b.second = opt(), _ => {} }
        if nd::bool() { match nd::below(3) { 0 => b.day = opt(), 1 => b.minute = opt(), _ => b.second = opt() } }
        chk!(a.cmp(&b) == order(&a, &b) && (a < b) == (order(&a, &b) == Ordering::Less), "order: the first field that differs decides");
    }
    /// a valid timestamp prints in its ISO form and parses back in every mode
    native p19_round_trip {
        let t = some_valid();
        let s = t.to_string();
        chk!(s == printed(&t), "print: the ISO 8601 form, up to the last field");
        for m in MODES {
            chk!(matches!(Timestamp::parse(&mut s.as_bytes(), m), Ok(Some(u)) if u == t), "parse: what was printed comes back");
        }
        chk!(matches!(s.parse::<Timestamp>(), Ok(u) if u == t), "parse: what was printed comes back");
        reach!("parsed");
    }
    /// every year, and every value of every field under one parent
    once p19_every_field {
        let mut all: Vec<Timestamp> = (0..10000).map(|year| Timestamp { year, ..Timestamp::default() }).collect();
        let base = Timestamp { year: 2024, month: Some(6), day: Some(5), hour: Some(4), minute: Some(3), second: Some(2) };
        for n in 0..60u8 {
            if n <= 12 { all.push(Timestamp { month: Some(n), ..base }); all.push(Timestamp { year: 7, month: Some(n), ..Timestamp::default() }); }
            if n <= 31 { all.push(Timestamp { day: Some(n), ..base }); all.push(Timestamp { day: Some(n), hour: None, minute: None, second: None, ..base }); }
            if n <= 23 { all.push(Timestamp { hour: Some(n), ..base }); all.push(Timestamp { hour: Some(n), minute: None, second: None, ..base }); }
            all.push(Timestamp { minute: Some(n), ..base });
            all.push(Timestamp { minute: Some(n), second: None, ..base });
            all.push(Timestamp { second: Some(n), ..base });
        }
        for t in all {
            let s = t.to_string();
            chk!(s == printed(&t), "print: the ISO 8601 form, up to the last field");
            for m in MODES {
                chk!(matches!(Timestamp::parse(&mut s.as_bytes(), m), Ok(Some(u)) if u == t), "parse: what was printed comes back");
            }
        }
    }
    /// any bytes: a timestamp whose fields nest, or an error
    native p19_parse_any {
        let n = nd::below(26) as usize;
        let mut s: Vec<u8> = match nd::below(3) {
            0 => some_valid().to_string().into_bytes(),
            1 => some_valid().to_string().bytes().filter(|c| c.is_ascii_digit() || *c == b'T').collect(),
            _ => (0..n).map(|_| nd::u8_of(b"0123456789-.T: \t\n0123456789")).collect(),
        };
        for _ in 0..nd::below(4) {
            if s.is_empty() { break }
            let k = nd::below(s.len() as u64) as usize;
            match nd::below(4) { 0 => { s.remove(k); }, 1 => s.insert(k, nd::u8_of(b" 0-.T:")), 2 => s.truncate(k), _ => s[k] = nd::u8() }
        }
        if nd::below(4) == 0 { s.splice(0..0, *b" \t"); }
        for m in MODES {
            if let Ok(Some(t)) = Timestamp::parse(&mut &s[..], m) {
                reach!("a timestamp");
                chk!(t.year <= 9999, "parse: four digits of a year");
                chk!((t.day.is_none() || t.month.is_some()) && (t.hour.is_none() || t.day.is_some()) && (t.minute.is_none() || t.hour.is_some()) && (t.second.is_none() || t.minute.is_some()), "parse: no field without the one before it");
                chk!([t.month, t.day, t.hour, t.minute, t.second].iter().flatten().all(|n| *n < 100), "parse: two digits of a field");
                chk!(m != ParsingMode::Strict || s[..4].iter().all(u8::is_ascii_digit), "parse: strictly, the year begins at once");
            }
        }
    }
    /// a timestamp can be written exactly when it is valid, and is then in the frame as it prints
    native p19_verify {
        let mut t = some_valid();
        match nd::below(8) { 0 => t.year = nd::u16(), 1 => t.month = opt(), 2 => t.day = opt(), 3 => t.hour = opt(), 4 => t.minute = opt(), 5 => t.second = opt(), 6 => t = any(), _ => {} }
        if nd::bool() { match nd::below(5) { 0 => t.month = Some(nd::u8_of(&[0, 12, 13])), 1 => t.day = Some(nd::u8_of(&[0, 31, 32])), 2 => t.hour = Some(nd::u8_of(&[0, 23, 24])), 3 => t.minute = Some(nd::u8_of(&[0, 59, 60])), _ => t.second = Some(nd::u8_of(&[0, 59, 60])) } }
        let mut tag = Id3v2Tag::new();
        tag.insert(Frame::Timestamp(TimestampFrame::new(FrameId::Valid("TDRC".into()), TextEncoding::UTF8, t)));
        let mut out = Vec::new();
        let r = tag.dump_to(&mut out, WriteOptions::default().preferred_padding(0));
        chk!(r.is_ok() == valid(&t), "verify: exactly the valid timestamps can be written");
        if r.is_ok() {
            reach!("written");
            let s = printed(&t);
            chk!(out.len() >= 21 && out[10..14] == *b"TDRC" && out[20] == 3 && out[21..].starts_with(s.as_bytes()), "verify: the frame holds the printed timestamp");
        }
    }
}
