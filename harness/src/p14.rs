//! P14: MP4 atom headers
use crate::{chk, nd, reach};
use lofty::config::ParsingMode;
use lofty::mp4::verif::{atom_read, skip_atom, AR};
use lofty::mp4::AtomIdent;
use std::io::{Cursor, SeekFrom};

#[cfg(not(kani))]
fn mode() -> ParsingMode {
    match nd::below(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed }
}

#[cfg(not(kani))]
fn byte_ok(b: u8) -> bool { (0x20..=0x7E).contains(&b) || b == 0xA9 }

/// (length, header) of an atom header as ISO 14496-12 defines them
#[cfg(not(kani))]
fn len_of(d: &[u8], p: usize) -> Option<(u64, u64)> {
    let at = |i: usize, n: usize| d.get(p + i..p + i + n).map(|s| s.iter().fold(0u64, |a, b| a << 8 | u64::from(*b)));
    match at(0, 4)? {
        0 => { at(4, 4)?; Some(((d.len() - p) as u64, 8)) },
        1 => at(8, 8).map(|l| (l, 16)),
        n => { at(4, 4)?; Some((n, 8)) },
    }
}

#[cfg(not(kani))]
fn header(id: &[u8; 4], len: u64, how: u64) -> Vec<u8> {
    let mut v = Vec::new();
    match how {
        0 => { v.extend([0; 4]); v.extend(id) },
        1 => { v.extend([0, 0, 0, 1]); v.extend(id); v.extend(len.to_be_bytes()) },
        _ => { v.extend((len as u32).to_be_bytes()); v.extend(id) },
    }
    v
}

#[cfg(not(kani))]
fn near(n: u64) -> u64 {
    match nd::below(8) { 0 => nd::below(40), 1 => n + nd::below(4), 2 => n.saturating_sub(nd::below(4)), 3 => nd::u64(), 4 => nd::below(1 << 33), _ => n }
}

#[cfg(not(kani))]
fn plain() {
    let front = nd::below(20) as usize;
    let n = nd::below(40);
    let how = nd::below(4);
    let id = match nd::below(8) { 0 => *b"free", 1 => [nd::u8(), nd::u8(), nd::u8(), nd::u8()], 2 => *b"\xA9nam", 3 => [b'a', nd::u8(), b'c', b'd'], _ => *b"abcd" };
    nd::assume(&id != b"----");
    let len = near(n + if how == 1 { 16 } else { 8 });
    let mut d = vec![7; front];
    d.extend(header(&id, len, how));
    d.extend((0..n).map(|i| i as u8));
    d.truncate(front + near(d.len() as u64 - front as u64).min(d.len() as u64 - front as u64) as usize);
    let left = near((d.len() - front) as u64);
    let m = mode();
    let want = len_of(&d, front);
    let mut r = Cursor::new(d.clone());
    r.set_position(front as u64);
    let got = atom_read(&mut r, left, m);
    let bad = d.len() >= front + 8 && !id.iter().all(|b| byte_ok(*b));
    let Some((len, header)) = want else {
        chk!(!matches!(got, Ok(Some(_))), "atoms: a header that does not fit is not decoded");
        chk!(bad || got.is_err(), "atoms: a header that does not fit is an error");
        return;
    };
    if bad {
        reach!("an identifier with invalid characters");
        if m == ParsingMode::Strict { chk!(got.is_err(), "atoms: in strict mode, an invalid identifier is an error") }
        else { chk!(matches!(got, Ok(None)), "atoms: otherwise, an invalid identifier ends the atoms") }
        return;
    }
    if len < header {
        reach!("a length smaller than the header");
        chk!(got.is_err(), "atoms: a length smaller than the header is an error");
        return;
    }
    if len > left {
        reach!("a length past the end");
        let skip = m == ParsingMode::Relaxed || (m == ParsingMode::BestAttempt && &id == b"free");
        if skip { chk!(matches!(got, Ok(None)), "atoms: a tolerated length past the end ends the atoms") }
        else { chk!(got.is_err(), "atoms: a length past the end is an error") }
        return;
    }
    let Ok(Some(a)) = got else { chk!(false, "atoms: an atom that fits is decoded"); return };
    reach!("an atom");
    chk!(a.start == front as u64, "atoms: the position is where the header starts");
    chk!(a.len == len, "atoms: the length as stored");
    chk!(a.header_size == header && a.extended == (header == 16), "atoms: the size of the header");
    chk!(a.ident == AtomIdent::Fourcc(id), "atoms: the identifier as stored");
    chk!(r.position() == front as u64 + header, "atoms: the reader is at the content");
    // and over it
    let ok = skip_atom(&mut r, a.extended, a.len);
    if len <= i64::MAX as u64 { chk!(ok.is_ok() && r.position() == front as u64 + len, "atoms: skipping an atom leaves its content") }
}

#[cfg(not(kani))]
fn part(id: &[u8; 4], text: &[u8]) -> (Vec<u8>, bool) {
    let mut id = *id;
    let mut len = text.len() as u64 + 12;
    let mut good = true;
    if nd::below(12) == 0 { let l = near(len); good &= l == len; len = l }
    if nd::below(20) == 0 { id = *b"data"; good = false }
    let mut v = header(&id, len & 0xFFFF_FFFF, 2);
    if len & 0xFFFF_FFFF != len { good = false }
    v.extend([0, 0, 0, nd::u8()]);
    v.extend(text);
    (v, good)
}

#[cfg(not(kani))]
fn freeform() {
    let texts: [&[u8]; 5] = [b"com.apple.iTunes", b"", "\u{e9}\u{4e2d}".as_bytes(), b"a\0b", b"\xff\xfe"];
    let t = texts[nd::below(5) as usize];
    let u = texts[nd::below(5) as usize];
    let (m1, g1) = part(b"mean", t);
    let (n1, g2) = part(b"name", u);
    let how = nd::below(3);
    let rest = nd::below(20);
    let whole = if how == 1 { 16 } else { 8 } + m1.len() as u64 + n1.len() as u64 + rest;
    let mut len = whole;
    if nd::below(6) == 0 { len = near(whole) }
    let mut d = header(b"----", len, how);
    d.extend(&m1);
    d.extend(&n1);
    d.extend(vec![9; rest as usize]);
    let mut r = Cursor::new(d.clone());
    let got = atom_read(&mut r, d.len() as u64, mode());
    let utf8 = |b: &[u8]| std::str::from_utf8(b).is_ok();
    // a zero length reaches to the end; lengths are the stored ones otherwise
    let fits = how == 0 || (how == 1 && len <= whole && len >= whole - rest) || (how > 1 && len as u32 as u64 == len && len <= whole && len >= whole - rest);
    let good = g1 && g2 && fits && utf8(t) && utf8(u);
    match got {
        Ok(Some(a)) => {
            let Some((l, h)) = len_of(&d, 0) else { chk!(false, "atoms: a header that does not fit is not decoded"); return };
            chk!(a.len == l && a.header_size == h && a.start == 0, "freeform: length and position as stored");
            let AtomIdent::Freeform { mean, name } = a.ident else { chk!(false, "freeform: decoded as one"); return };
            if good {
                reach!("a freeform identifier");
                chk!(mean.trim_end_matches('\0').as_bytes() == std::str::from_utf8(t).unwrap().trim_end_matches('\0').as_bytes(), "freeform: the mean as stored");
                chk!(name.trim_end_matches('\0').as_bytes() == std::str::from_utf8(u).unwrap().trim_end_matches('\0').as_bytes(), "freeform: the name as stored");
                chk!(r.position() == h + m1.len() as u64 + n1.len() as u64, "freeform: the reader is behind the name");
            }
            chk!(r.position() <= a.len, "freeform: nothing behind the atom is read");
        },
        _ => chk!(!good, "freeform: a well-formed identifier is decoded"),
    }
}

#[cfg(not(kani))]
fn reader() {
    // a file of atoms, and a reader bounded to a part of it
    let mut d = Vec::new();
    for _ in 0..nd::below(6) {
        let n = nd::below(12);
        let how = if nd::below(4) == 0 { 1 } else { 2 };
        d.extend(header(b"abcd", n + if how == 1 { 16 } else { 8 }, how));
        d.extend(vec![b'x'; n as usize]);
    }
    let Ok(mut r) = AR::new(Cursor::new(d.clone()), ParsingMode::Strict) else { chk!(false, "reader: opens"); return };
    let mut start = 0u64;
    let mut end = d.len() as u64;
    let mut at = 0u64;
    for _ in 0..nd::below(10) {
        match nd::below(6) {
            0 => {
                // reset_bounds expects the reader to be at the start of what it bounds
                start = nd::below(end + 1);
                let Ok(p) = r.seek(SeekFrom::Start(start.max(start))) else { chk!(false, "reader: seeks"); return };
                at = p;
                start = at;
                end = start + nd::below(d.len() as u64 - start + 1);
                r.reset_bounds(start, end - start);
            },
            1 => {
                let t = nd::below(d.len() as u64 + 10);
                let got = r.seek(SeekFrom::Start(t));
                let want = t.max(start).min(end);
                chk!(matches!(got, Ok(p) if p == want), "reader: seeking to a position within the bounds goes there");
                at = want;
            },
            2 => {
                let k = nd::below(20) as i64 - 15;
                let got = r.seek(SeekFrom::End(k));
                let Ok(p) = got else { chk!(false, "reader: seeks from the end"); return };
                let t = end as i64 + k;
                chk!(p >= start && p <= end, "reader: stays within its bounds");
                if k <= 0 && t >= start as i64 { chk!(p as i64 == t, "reader: seeking from the end counts from the bound") }
                at = p;
            },
            3 => {
                let k = nd::below(20) as i64 - 8;
                let t = at as i64 + k;
                let got = r.seek(SeekFrom::Current(k));
                if t >= 0 { chk!(matches!(got, Ok(p) if p as i64 == t), "reader: a relative seek is relative to the position"); at = t as u64 }
                else { chk!(got.is_err(), "reader: seeking in front of the file is an error") }
            },
            4 => {
                let mut b = vec![0; nd::below(12) as usize];
                let got = r.read(&mut b);
                if at >= end { chk!(matches!(got, Ok(0)), "reader: nothing is read at the bound") }
                else {
                    let Ok(n) = got else { chk!(false, "reader: reads"); return };
                    chk!(n <= b.len() && b[..n] == d[at as usize..at as usize + n], "reader: the bytes of the file");
                    chk!(b.is_empty() || n > 0, "reader: reads something");
                    at += n as u64;
                }
            },
            _ => {
                let got = r.next();
                if at >= end { chk!(matches!(got, Ok(None)), "reader: no atom at the bound") }
                else if end - at < 8 { chk!(got.is_err(), "reader: less than a header is an error") }
                match got {
                    Ok(Some(a)) => {
                        reach!("an atom");
                        chk!(a.start == at && a.start + a.len <= end, "reader: an atom lies within the bounds");
                        chk!(len_of(&d, at as usize) == Some((a.len, a.header_size)), "reader: an atom as stored");
                        at += a.header_size;
                    },
                    // where an erroneous header leaves the reader is not defined
                    _ if at < end => return,
                    _ => {},
                }
            },
        }
    }
}

harnesses! {
    /// a header of each kind, at any position, in any mode
    native p14_atom { plain() }

    /// freeform identifiers
    native p14_freeform { freeform() }

    /// every value of each identifier byte
    once p14_ident_bytes {
        for i in 0..4 {
            for b in 0..=255u8 {
                let mut id = *b"abcd";
                id[i] = b;
                let mut r = Cursor::new(header(&id, 8, 2));
                let got = atom_read(&mut r, 8, ParsingMode::BestAttempt);
                if byte_ok(b) { chk!(matches!(got, Ok(Some(a)) if a.ident == AtomIdent::Fourcc(id)), "atoms: the identifier as stored") }
                else { chk!(matches!(got, Ok(None)), "atoms: otherwise, an invalid identifier ends the atoms") }
            }
        }
    }

    /// histories of a bounded reader
    native p14_reader { reader() }
}
