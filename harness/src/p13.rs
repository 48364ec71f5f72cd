//! P13: chunks of RIFF and AIFF files
use crate::{chk, nd, reach};
use byteorder::{BigEndian, ByteOrder, LittleEndian};
use lofty::config::ParsingMode;
use lofty::iff::verif::{valid_fourcc, C};
use std::io::{Cursor, SeekFrom};

fn ok4(b: [u8; 4]) -> bool {
    let mut i = 0;
    while i < 4 {
        if b[i] < 0x20 || b[i] > 0x7E { return false }
        let mut j = i + 1;
        while j < 4 {
            if b[i] == 0x20 && b[j] != 0x20 { return false }
            j += 1;
        }
        i += 1;
    }
    true
}

#[cfg(not(kani))]
struct Want { id: [u8; 4], size: usize, start: usize }

/// every chunk of the list, and whether it ends well (with fewer than 8 bytes left)
#[cfg(not(kani))]
fn walk<B: ByteOrder>(d: &[u8]) -> (Vec<Want>, bool) {
    let mut out = Vec::new();
    let mut p = 0;
    while d.len() - p >= 8 {
        let id: [u8; 4] = d[p..p + 4].try_into().unwrap();
        let size = B::read_u32(&d[p + 4..p + 8]) as usize;
        if !ok4(id) || size > d.len() - p - 8 { return (out, false) }
        out.push(Want { id, size, start: p });
        p += 8 + size;
        // a missing pad byte is tolerated where an identifier follows at once
        if size % 2 == 1 && p < d.len() {
            let missing = d[p] != 0 && d.len() - p > 4 && ok4(d[p..p + 4].try_into().unwrap());
            if !missing { p += 1 }
        }
    }
    (out, true)
}

#[cfg(not(kani))]
fn stream<B: ByteOrder>(depth: u32) -> Vec<u8> {
    let mut d = Vec::new();
    for _ in 0..nd::below(6) {
        d.extend_from_slice(&match nd::below(8) { 0 => nd::bytes::<4>(), 1 => *b"ab  ", 2 => *b"a b ", 3 => *b"LIST", _ => *b"data" });
        let content = if depth > 0 && nd::below(3) == 0 { stream::<B>(depth - 1) } else {
            let n = nd::below(12) as usize;
            (0..n).map(|i| b"aA\x01\x00zZ~\x7f    "[i]).collect()
        };
        let mut size = content.len() as u32;
        if nd::below(12) == 0 { size = size.wrapping_add(nd::below(20) as u32).wrapping_sub(10) }
        if nd::below(30) == 0 { size = nd::u32() }
        let mut b = [0; 4];
        B::write_u32(&mut b, size);
        d.extend_from_slice(&b);
        d.extend_from_slice(&content);
        if content.len() % 2 == 1 {
            match nd::below(6) { 0 => {}, 1 => d.push(nd::u8()), _ => d.push(0) }
        }
    }
    d
}

#[cfg(not(kani))]
fn mode() -> ParsingMode {
    match nd::below(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed }
}

#[cfg(not(kani))]
fn list<B: ByteOrder>() {
    let front = nd::below(20) as usize;
    let d = stream::<B>(0);
    let mut file = vec![b'x'; front];
    file.extend_from_slice(&d);
    let m = mode();
    let (want, well) = walk::<B>(&d);
    let mut r = Cursor::new(file);
    r.set_position(front as u64);
    let mut c = C::<_, B>::new(r, d.len() as u64);
    for w in want {
        let action = nd::below(20) as u32;
        let r = c.next(m, action);
        let Ok(Some((id, size, start, content))) = r else { chk!(false, "chunks: every chunk within the stream is visited"); return };
        reach!("a chunk");
        chk!(id == w.id && size as usize == w.size && start as usize == w.start, "chunks: identifier, size and start as stored");
        let all = &d[w.start + 8..w.start + 8 + w.size];
        match (action, content) {
            (1, Some(v)) => chk!(v == all, "chunks: the content is the bytes after the header"),
            (n, Some(v)) => chk!(v[..] == all[..v.len()] && v.len() <= n as usize - 1 && (v.len() == (n as usize - 1).min(w.size)), "chunks: a part of the content"),
            _ => {},
        }
        if nd::below(4) == 0 { chk!(c.skip().is_ok(), "chunks: skipping a chunk within the stream") }
        if nd::below(8) == 0 { chk!(c.skip().is_ok(), "chunks: skipping twice is skipping once") }
        chk!(c.stream_position() <= d.len() as u64, "chunks: the position is within the stream");
    }
    let end = c.next(m, 0);
    if well {
        reach!("a well-formed list");
        chk!(matches!(end, Ok(None)), "chunks: the list ends with the stream");
    } else if m == ParsingMode::Strict {
        reach!("an error");
        chk!(end.is_err(), "chunks: in strict mode, a chunk that exceeds the stream or has no identifier is an error");
    } else {
        reach!("a tolerated error");
        chk!(matches!(end, Ok(None)), "chunks: otherwise it ends the list");
    }
    chk!(c.stream_position() <= d.len() as u64, "chunks: the position is within the stream");
}

#[cfg(not(kani))]
fn nested<B: ByteOrder>() {
    // one chunk with chunks in it, and what follows
    let inner = stream::<B>(0);
    let mut rest = Vec::new();
    for _ in 0..nd::below(3) {
        rest.extend_from_slice(b"next\x00\x00\x00\x00");
    }
    let skip = nd::below(5) as usize;
    let n = skip + inner.len();
    let mut d = b"LIST\x00\x00\x00\x00".to_vec();
    B::write_u32(&mut d[4..8], n as u32);
    d.extend(vec![b'y'; skip]);
    d.extend_from_slice(&inner);
    if n % 2 == 1 { d.push(0) }
    d.extend_from_slice(&rest);
    let mut c = C::<_, B>::new(Cursor::new(d.clone()), d.len() as u64);
    let m = ParsingMode::BestAttempt;
    let Ok(Some((id, _, _, _))) = c.next(m, 1 + skip as u32) else { chk!(false, "chunks: every chunk within the stream is visited"); return };
    chk!(id == *b"LIST", "chunks: identifier, size and start as stored");
    // action 1 reads everything: an empty rest to look at
    let inner = if skip == 0 { &inner[inner.len()..] } else { &inner[..] };
    let (want, well) = walk::<B>(inner);
    c.lock();
    let mut bad = false;
    for w in want.iter().take(nd::below(8) as usize) {
        let Ok(Some((id, size, _, _))) = c.next(m, nd::below(10) as u32) else { bad = true; break };
        chk!(id == w.id && size as usize == w.size, "chunks: identifier and size within a locked chunk");
    }
    chk!(!bad, "chunks: every chunk within a locked chunk is visited");
    if well {
        chk!(c.unlock().is_ok(), "chunks: unlocking");
        for _ in 0..rest.len() / 8 {
            let r = c.next(m, 0);
            reach!("after a locked chunk");
            chk!(matches!(r, Ok(Some((id, 0, _, _))) if id == *b"next"), "chunks: unlocking leaves the locked chunk and its padding");
        }
        chk!(matches!(c.next(m, 0), Ok(None)), "chunks: the list ends with the stream");
    }
}

#[cfg(not(kani))]
fn seeks<B: ByteOrder>() {
    let n = nd::below(40) as usize;
    let mut d = b"abcd\x00\x00\x00\x00".to_vec();
    B::write_u32(&mut d[4..8], n as u32);
    d.extend(vec![b'c'; n]);
    d.extend(vec![0; n % 2]);
    d.extend_from_slice(b"next\x00\x00\x00\x00");
    let mut s = Vec::new();
    for _ in 0..nd::below(5) {
        let k = nd::below(60) as i64 - 30;
        s.push(match nd::below(3) { 0 => SeekFrom::Start(nd::below(50)), 1 => SeekFrom::Current(k), _ => SeekFrom::End(k) });
    }
    let mut c = C::<_, B>::new(Cursor::new(d.clone()), d.len() as u64);
    let Ok(Some((_, _, got))) = c.next_seek(ParsingMode::Strict, &s) else { chk!(false, "chunks: every chunk within the stream is visited"); return };
    let mut at = 0i64;
    for (s, g) in s.iter().zip(got) {
        let t = match s { SeekFrom::Start(p) => *p as i64, SeekFrom::Current(k) => at + k, SeekFrom::End(k) => n as i64 + k };
        if t < 0 { chk!(g.is_none(), "chunks: seeking in front of the content is an error") }
        if let Some(g) = g {
            chk!(g as usize <= n && (t > n as i64 || g as i64 == t), "chunks: seeking stays within the content");
            at = g as i64;
        }
    }
    reach!("seeks");
    let r = c.next(ParsingMode::Strict, 0);
    chk!(matches!(r, Ok(Some((id, 0, start, _))) if id == *b"next" && start as usize == 8 + n + n % 2), "chunks: the next chunk is found wherever the last one was left");
}

harnesses! {
    /// every identifier
    proof p13_fourcc [unwind(6)] {
        let b = nd::bytes_like::<4>(*b"ab  ");
        reach!("an identifier");
        chk!(valid_fourcc(b) == ok4(b), "chunks: an identifier is printable, spaces only at its end");
    }

    /// any list, little endian
    native p13_riff { list::<LittleEndian>() }

    /// any list, big endian
    native p13_aiff { list::<BigEndian>() }

    /// a list within a chunk
    native p13_nested { if nd::bool() { nested::<LittleEndian>() } else { nested::<BigEndian>() } }

    /// seeking within a chunk
    native p13_seek { if nd::bool() { seeks::<LittleEndian>() } else { seeks::<BigEndian>() } }
}
