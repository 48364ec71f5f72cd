//! P22: the allocation limit
use crate::{chk, nd, reach};
use lofty::config::{apply_global_options, GlobalOptions};
use lofty::__verif_util::{try_vec, try_vec_cap};

fn set(limit: usize) { apply_global_options(GlobalOptions::new().allocation_limit(limit)) }

#[cfg(not(kani))]
mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! { pub static MOST: Cell<usize> = const { Cell::new(0) }; }
    pub struct Counting;
    fn note(n: usize) { let _ = MOST.try_with(|m| if n > m.get() { m.set(n) }); }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); unsafe { System.alloc(l) } }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); unsafe { System.alloc_zeroed(l) } }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); unsafe { System.realloc(p, l, n) } }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    }
    #[global_allocator]
    static A: Counting = Counting;
}

/// the largest single request made of the allocator meanwhile
#[cfg(not(kani))]
fn most<T>(f: impl FnOnce() -> T) -> (T, usize) {
    alloc::MOST.with(|m| m.set(0));
    let r = f();
    (r, alloc::MOST.with(|m| m.get()))
}

#[cfg(not(kani))]
mod files {
    use super::*;
    use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
    use lofty::file::TaggedFileExt;
    use lofty::probe::Probe;
    use lofty::tag::{Accessor, Tag, TagExt, TagType};
    use std::io::Cursor;

    const DIR: &str = "/repo/lofty/tests/files/assets/minimal/";
    pub const FILES: &[(&str, TagType)] = &[
        ("full_test.mp3", TagType::Ape), ("full_test.mp3", TagType::Id3v2), ("full_test.ape", TagType::Ape), ("full_test.wv", TagType::Ape),
        ("full_test.flac", TagType::VorbisComments), ("full_test.ogg", TagType::VorbisComments), ("full_test.opus", TagType::VorbisComments),
        ("full_test.spx", TagType::VorbisComments), ("m4a_codec_aac.m4a", TagType::Mp4Ilst), ("full_test.aiff", TagType::AiffText),
        ("full_test.aiff", TagType::Id3v2), ("wav_format_pcm.wav", TagType::RiffInfo), ("wav_format_pcm.wav", TagType::Id3v2),
    ];

    thread_local! { static CACHE: std::cell::RefCell<Vec<Option<Vec<u8>>>> = const { std::cell::RefCell::new(Vec::new()) }; }
    /// the file without tags
    pub fn bare(i: usize) -> Vec<u8> {
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            c.resize(FILES.len(), None);
            c[i].get_or_insert_with(|| {
                let mut f = Cursor::new(std::fs::read(format!("{DIR}{}", FILES[i].0)).unwrap());
                for t in [TagType::Id3v1, TagType::Id3v2, TagType::Ape, TagType::VorbisComments, TagType::Mp4Ilst, TagType::AiffText, TagType::RiffInfo] {
                    f.set_position(0);
                    let _ = t.remove_from(&mut f, WriteOptions::new());
                }
                f.into_inner()
            }).clone()
        })
    }
    pub fn with_title(i: usize, n: usize) -> Vec<u8> {
        set(GlobalOptions::DEFAULT_ALLOCATION_LIMIT);
        let mut f = Cursor::new(bare(i));
        let mut t = Tag::new(FILES[i].1);
        t.set_title("x".repeat(n));
        t.save_to(&mut f, WriteOptions::new().preferred_padding(0)).unwrap();
        f.into_inner()
    }
    /// the lengths of the titles that are read under a limit
    pub fn titles(f: &[u8], limit: usize, mode: ParsingMode) -> Vec<usize> {
        set(limit);
        let r = Probe::new(Cursor::new(f)).options(ParseOptions::new().parsing_mode(mode)).guess_file_type().unwrap().read();
        set(GlobalOptions::DEFAULT_ALLOCATION_LIMIT);
        match r {
            Ok(f) => f.tags().iter().filter_map(|t| t.title().map(|s| s.len())).collect(),
            Err(_) => vec![],
        }
    }
    pub fn mode() -> ParsingMode { match nd::below(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed } }
}

harnesses! {
    /// every size against every limit: a larger request is refused
    native p22_refused {
        let (n, l) = (nd::usize(), nd::usize());
        nd::assume(n > l);
        set(l);
        let a = try_vec(0, n).is_err();
        let b = try_vec_cap(n).is_err();
        set(GlobalOptions::DEFAULT_ALLOCATION_LIMIT);
        chk!(a, "a buffer above the limit is refused");
        chk!(b, "a capacity above the limit is refused");
    }
    /// the requested length, filled with the requested value, without asking for more than the limit
    native p22_vec {
        let l = nd::below(5000) as usize;
        let n = match nd::below(4) { 0 => l, 1 => l + 1, 2 => nd::below(5000) as usize, _ => nd::usize() };
        let x = nd::u8();
        set(l);
        let (v, m) = most(|| try_vec(x, n));
        let (c, k) = most(|| try_vec_cap(n));
        set(GlobalOptions::DEFAULT_ALLOCATION_LIMIT);
        chk!(v.is_ok() == (n <= l) && c.is_ok() == (n <= l), "requests up to the limit are granted, larger ones refused");
        // the allocator may round a small buffer up to 8 bytes
        chk!(m <= l.max(8) && k <= l.max(8), "never more than the limit is asked of the allocator");
        if let Ok(v) = v {
            reach!("a buffer");
            chk!(v.len() == n && v.iter().all(|b| *b == x), "the buffer has the requested length and value");
        }
        if let Ok(c) = c { chk!(c.is_empty() && c.capacity() >= n, "the capacity is there") }
    }
    /// a field above the limit is refused wherever it is, one below is read
    native p22_fields {
        let i = nd::below(files::FILES.len() as u64) as usize;
        let n = 1 + nd::below(4000) as usize;
        let f = files::with_title(i, n);
        let l = match nd::below(3) { 0 => nd::below(n as u64) as usize, 1 => n - 1, _ => f.len() };
        let got = files::titles(&f, l, files::mode());
        // text frames of a bare ID3v2 tag grow with what is read, they reserve nothing in advance
        if l < n && i == 1 { return }
        if l < n { chk!(!got.contains(&n), "a field above the limit is refused") }
        else { reach!("a field below the limit"); chk!(got.contains(&n), "a field below the limit is read") }
    }
    /// lengths that a file announces but does not have
    native p22_announced {
        let i = nd::below(files::FILES.len() as u64) as usize;
        let mut f = files::with_title(i, 1 + nd::below(60) as usize);
        for _ in 0..1 + nd::below(2) {
            let v = (20u32 << 20) + nd::below(60 << 20) as u32;
            // near a four letter code, or anywhere
            let at = if nd::below(4) > 0 {
                let codes: Vec<usize> = (0..f.len().min(4096).saturating_sub(12)).filter(|&p| f[p..p + 4].iter().all(|b| (0x20..0x7F).contains(b))).collect();
                if codes.is_empty() { 0 } else { (codes[nd::below(codes.len() as u64) as usize] + nd::below(13) as usize).saturating_sub(4) }
            } else { nd::below(f.len() as u64 - 4) as usize };
            let b = match nd::below(3) {
                0 => v.to_be_bytes(),
                1 => v.to_le_bytes(),
                _ => [(v >> 21) as u8 & 0x7F, (v >> 14) as u8 & 0x7F, (v >> 7) as u8 & 0x7F, v as u8 & 0x7F],
            };
            f[at..at + 4].copy_from_slice(&b);
        }
        let limit = 1 << 20;
        let (_, m) = most(|| std::panic::catch_unwind(|| files::titles(&f, limit, files::mode())));
        set(GlobalOptions::DEFAULT_ALLOCATION_LIMIT);
        chk!(m <= limit + 64 * f.len(), "an announced length above the limit reserves no memory");
    }
}
