//! P23: file type detection
use crate::{chk, nd, reach};
use lofty::file::FileType;
#[cfg(not(kani))]
use lofty::{config::ParseOptions, probe::Probe};
#[cfg(not(kani))]
use std::io::{Cursor, Seek, SeekFrom};

fn has(b: &[u8], p: usize, s: &[u8]) -> bool {
    if b.len() < p + s.len() { return false }
    let mut k = 0;
    while k < s.len() {
        if b[p + k] != s[k] { return false }
        k += 1;
    }
    true
}
/// eleven set bits; ADTS has a twelfth and no layer
fn synced(a: u8, b: u8) -> Option<FileType> {
    if a != 0xff || b & 0xe0 != 0xe0 { return None }
    Some(if b & 0x16 == 0x10 { FileType::Aac } else { FileType::Mpeg })
}
/// the signature at the start of the bytes
fn signed(b: &[u8]) -> Option<FileType> {
    if b.len() >= 2 {
        if let Some(t) = synced(b[0], b[1]) { return Some(t) }
    }
    if has(b, 0, b"MAC") { return Some(FileType::Ape) }
    if has(b, 0, b"MPCK") || has(b, 0, b"MP+") { return Some(if has(b, 4, b"ftyp") { FileType::Mp4 } else { FileType::Mpc }) }
    if has(b, 0, b"fLaC") { return Some(FileType::Flac) }
    if has(b, 0, b"wvpk") { return Some(FileType::WavPack) }
    if has(b, 0, b"FORM") && b.len() >= 12 { return if has(b, 8, b"AIFF") || has(b, 8, b"AIFC") { Some(FileType::Aiff) } else { None } }
    if has(b, 0, b"RIFF") && b.len() >= 12 { return if has(b, 8, b"WAVE") { Some(FileType::Wav) } else { None } }
    if has(b, 0, b"OggS") && b.len() >= 36 {
        if has(b, 29, b"vorbis") { return Some(FileType::Vorbis) }
        if has(b, 28, b"OpusHead") { return Some(FileType::Opus) }
        return if has(b, 28, b"Speex   ") { Some(FileType::Speex) } else { None };
    }
    if has(b, 4, b"ftyp") { return Some(FileType::Mp4) }
    None
}
#[cfg(not(kani))]
fn search(d: &[u8], p: usize, junk: usize) -> Option<FileType> {
    let end = d.len().min(p.saturating_add(junk));
    (p..end.max(1) - 1).find_map(|k| synced(d[k], d[k + 1]))
}
#[cfg(not(kani))]
fn stream(d: &[u8], p: usize, junk: usize) -> Option<FileType> {
    let h = &d[p.min(d.len())..d.len().min(p + 36)];
    if h.is_empty() { return None }
    if let Some(t) = signed(h) { return Some(t) }
    if !has(h, 0, b"ID3") || h.len() < 10 { return search(d, p, junk) }
    let q = p + 10 + h[6..10].iter().fold(0usize, |n, x| n * 128 + usize::from(x % 128));
    let w = &d[q.min(d.len())..];
    if has(w, 0, b"MAC") { return Some(FileType::Ape) }
    if has(w, 0, b"fLaC") { return Some(FileType::Flac) }
    if has(w, 0, b"MPCK") || has(w, 0, b"MP+") { return Some(FileType::Mpc) }
    search(d, q, junk)
}
#[cfg(not(kani))]
const HEADS: [(&[u8], usize); 14] = [(b"MAC ", 0), (b"fLaC", 0), (b"wvpk", 0), (b"MPCK", 0), (b"MP+", 0), (b"ftypM4A ", 4), (b"FORM\0\0\0\0AIFF", 0), (b"FORM\0\0\0\0AIFC", 0), (b"RIFF\0\0\0\0WAVE", 0), (b"\xff\xfb", 0), (b"\xff\xf1", 0), (b"ID3\x04\0\0\0\0\0\0", 0), (b"OggS", 0), (b"ID3\x03\0\0\x7f\x7f\x7f\x7f", 0)];
/// a signature, perhaps damaged, perhaps short
#[cfg(not(kani))]
fn head() -> Vec<u8> {
    let (s, p) = HEADS[nd::below(14) as usize];
    let mut v = vec![0; p];
    v.extend_from_slice(s);
    if s == b"OggS" {
        v.resize(28, 0);
        v.extend_from_slice([&b"\x01vorbis\0"[..], b"OpusHead", b"Speex   ", b"\x7fFLAC\0\0\0", b"\x80theora\0"][nd::below(5) as usize]);
    }
    for _ in 0..nd::below(3) {
        let k = nd::below(v.len() as u64) as usize;
        v[k] = nd::u8();
    }
    if nd::below(4) == 0 { v.truncate(nd::below(v.len() as u64 + 1) as usize); }
    if nd::below(3) > 0 { for _ in 0..nd::below(40) { v.push(nd::u8()); } }
    v
}
#[cfg(not(kani))]
fn quiet(n: u64) -> Vec<u8> { (0..n).map(|_| nd::u8_of(&[0, 0xff, 1, 0x7f, 0xdf])).collect() }

harnesses! {
    /// every buffer of up to 40 bytes is what its signature says, and nothing without one
    proof p23_buffer [unwind(10)] {
        let b = nd::bytes::<40>();
        let n = nd::below(41) as usize;
        chk!(FileType::from_buffer(&b[..n]) == signed(&b[..n]), "buffer: the type is the one whose signature it carries");
        reach!("guessed");
    }
    /// the same, executed, around signatures and with longer buffers
    native p23_buffer_like {
        let v = head();
        chk!(FileType::from_buffer(&v) == signed(&v), "buffer: the type is the one whose signature it carries");
        for k in 0..v.len().min(44) {
            chk!(FileType::from_buffer(&v[..k]) == signed(&v[..k]), "buffer: nothing from an incomplete signature");
        }
        if signed(&v).is_some() { reach!("a signature"); }
    }
    /// every pair of first bytes
    once p23_pairs {
        for n in 0..=0xffffu16 {
            let mut b = [0; 40];
            b[..2].copy_from_slice(&n.to_be_bytes());
            chk!(FileType::from_buffer(&b) == signed(&b), "buffer: MPEG and ADTS by the sync and layer bits");
            chk!(FileType::from_buffer(&b[..2]) == signed(&b[..2]), "buffer: MPEG and ADTS by the sync and layer bits");
        }
    }
    /// a stream: the signature at its position, after an ID3v2 tag, or a sync word after junk; the position is kept
    native p23_stream {
        let at = nd::below(30) as usize;
        let mut d = quiet(at as u64);
        if nd::below(3) == 0 {
            let n = nd::below(300);
            d.extend_from_slice(b"ID3\x04\0\0\0\0");
            d.push((n / 128) as u8 | if nd::below(8) == 0 { 0x80 } else { 0 });
            d.push((n % 128) as u8);
            d.extend(quiet(n));
        }
        if nd::bool() { d.extend(quiet(nd::below(60))); }
        d.extend(head());
        if nd::below(6) == 0 { d.truncate(nd::below(d.len() as u64 + 1) as usize); }
        let at = at.min(d.len());
        let junk = if nd::bool() { 1024 } else { nd::below(80) as usize };
        let mut c = Cursor::new(&d);
        c.seek(SeekFrom::Start(at as u64)).unwrap();
        let p = Probe::new(c).options(ParseOptions::new().max_junk_bytes(junk)).guess_file_type();
        let Ok(p) = p else { chk!(false, "stream: a readable stream is no error"); return };
        let want = stream(&d, at, junk);
        if want.is_some() { reach!("a type"); }
        chk!(p.file_type() == want, "stream: the type of the signature, or of the sync word after a tag or junk");
        chk!(p.into_inner().position() == at as u64, "stream: the position is kept");
    }
    /// a type set before is kept when nothing is found, and replaced when something is
    native p23_guess_keeps {
        let v = head();
        let p = Probe::with_file_type(Cursor::new(&v), FileType::Speex).guess_file_type();
        let Ok(p) = p else { chk!(false, "stream: a readable stream is no error"); return };
        chk!(p.file_type() == stream(&v, 0, ParseOptions::DEFAULT_MAX_JUNK_BYTES).or(Some(FileType::Speex)), "stream: only a found type replaces the one set");
    }
}
