//! P24: ID3v2 tags in WAV and AIFF files
use crate::{chk, nd, reach};
use lofty::config::WriteOptions;
use lofty::id3::v2::Id3v2Tag;
use lofty::tag::{Accessor, TagExt, TagType};
use std::io::Cursor;

#[cfg(not(kani))]
type List = Vec<(Vec<u8>, Vec<u8>)>;
#[cfg(not(kani))]
fn num(aiff: bool, n: usize) -> [u8; 4] { if aiff { (n as u32).to_be_bytes() } else { (n as u32).to_le_bytes() } }
#[cfg(not(kani))]
fn size(aiff: bool, b: &[u8]) -> usize { let b = [b[0], b[1], b[2], b[3]]; (if aiff { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }) as usize }
#[cfg(not(kani))]
fn build(aiff: bool, list: &List, rest: &[u8]) -> Vec<u8> {
    let mut b = if aiff { b"AIFF".to_vec() } else { b"WAVE".to_vec() };
    for (n, c) in list {
        b.extend(n);
        b.extend(num(aiff, c.len()));
        b.extend(c);
        if c.len() % 2 == 1 { b.push(0) }
    }
    let mut d = if aiff { b"FORM".to_vec() } else { b"RIFF".to_vec() };
    d.extend(num(aiff, b.len()));
    d.extend(b);
    d.extend(rest);
    d
}
/// an independent reader: the chunks and what follows the container, or None if it is not well formed
#[cfg(not(kani))]
fn parse(aiff: bool, d: &[u8]) -> Option<(List, Vec<u8>)> {
    if d.len() < 12 || &d[..4] != if aiff { b"FORM" } else { b"RIFF" } || &d[8..12] != if aiff { b"AIFF" } else { b"WAVE" } { return None }
    let end = 8 + size(aiff, &d[4..8]);
    if end < 12 || end > d.len() { return None }
    let mut list = List::new();
    let mut p = 12;
    while p < end {
        if p + 8 > end { return None }
        let n = size(aiff, &d[p + 4..p + 8]);
        if n > end - p - 8 { return None }
        list.push((d[p..p + 4].to_vec(), d[p + 8..p + 8 + n].to_vec()));
        p += 8 + n;
        if n % 2 == 1 {
            if p >= end || d[p] != 0 { return None }
            p += 1;
        }
    }
    Some((list, d[end..].to_vec()))
}
#[cfg(not(kani))]
fn is_tag(c: &(Vec<u8>, Vec<u8>)) -> bool { c.0 == b"ID3 " || c.0 == b"id3 " }
#[cfg(not(kani))]
fn others(l: &List) -> List { l.iter().filter(|c| !is_tag(c) && c.0 != b"JUNK").cloned().collect() }
#[cfg(not(kani))]
fn content(n: usize) -> Vec<u8> {
    let mut x = nd::u64() | 1;
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as u8 }).collect()
}
#[cfg(not(kani))]
fn some_list(aiff: bool) -> List {
    let names: &[&[u8; 4]] = if aiff { &[b"COMM", b"SSND", b"NAME", b"(c) ", b"FVER", b"JUNK"] } else { &[b"fmt ", b"data", b"LIST", b"bext", b"JUNK", b"cue "] };
    let mut l = List::new();
    for _ in 0..nd::below(6) {
        l.push((names[nd::below(names.len() as u64) as usize].to_vec(), content(nd::below(40) as usize)));
    }
    if nd::below(4) != 0 {
        let n = match nd::below(4) { 0 => nd::below(9), 1 => nd::below(60), _ => nd::below(400) } as usize;
        let at = nd::below(l.len() as u64 + 1) as usize;
        l.insert(at, (if nd::bool() { b"ID3 ".to_vec() } else { b"id3 ".to_vec() }, content(n)));
    }
    l
}

harnesses! {
    /// any well-formed file, any sequence of saves and removals
    native p24_saves {
        let aiff = nd::bool();
        let before = some_list(aiff);
        let rest = if nd::below(3) == 0 { content(1 + nd::below(12) as usize) } else { vec![] };
        let mut d = build(aiff, &before, &rest);
        for _ in 0..1 + nd::below(3) {
            let mut o = WriteOptions::new().preferred_padding(match nd::below(3) { 0 => 0, 1 => 1 + nd::below(30) as u32, _ => 1024 }).uppercase_id3v2_chunk(nd::bool());
            let upper = nd::bool();
            o = o.uppercase_id3v2_chunk(upper);
            let mut c = Cursor::new(d.clone());
            let removing = nd::below(3) == 0;
            let mut want = vec![];
            let ok = if removing && nd::bool() {
                TagType::Id3v2.remove_from(&mut c, o).is_ok()
            } else {
                let mut t = Id3v2Tag::default();
                if !removing {
                    t.set_title("x".repeat(1 + nd::below(60) as usize));
                    if nd::bool() { t.set_artist("y".repeat(1 + nd::below(300) as usize)) }
                    if t.dump_to(&mut want, o).is_err() { chk!(false, "dump: succeeds") }
                }
                t.save_to(&mut c, o).is_ok()
            };
            chk!(ok, "save: succeeds on a well-formed file");
            let new = c.into_inner();
            let was = parse(aiff, &d).map(|p| p.0);
            let Some((list, tail)) = parse(aiff, &new) else { chk!(false, "the file is a well-formed chunk list within the size of its container"); return };
            chk!(tail == rest, "what follows the container is as it was");
            chk!(Some(others(&list)) == was.as_ref().map(others), "every other chunk is as it was, in order");
            let tags: List = list.into_iter().filter(is_tag).collect();
            if removing {
                reach!("a removed tag");
                chk!(tags.is_empty(), "a removed tag is gone");
            } else {
                reach!("a saved tag");
                chk!(tags.len() == 1, "there is one tag");
                chk!(tags[0].1 == want, "the tag is the new one");
                chk!(tags[0].0 == if upper { b"ID3 " } else { b"id3 " }, "the chunk's name is the one asked for");
            }
            d = new;
        }
    }
}
