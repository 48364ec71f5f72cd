//! P05: Ogg page headers (RFC 3533 6)
use crate::{chk, nd, reach};
use ogg_pager::{Page, PageHeader};
use std::io::{Cursor, Seek, SeekFrom};

fn template() -> [u8; 27] {
    let mut t = [0u8; 27];
    t[..4].copy_from_slice(b"OggS");
    t[26] = 3;
    t
}

const WINDOW: [u8; 31] = [b'O', b'g', b'g', b'S', 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 255, 3, 0, 0];

/// A stream with page-like bytes at `pos`, possibly cut short
fn stream() -> (Vec<u8>, usize) {
    let pos = nd::below(40) as usize;
    let mut v = vec![b'O'; pos];
    let h = nd::bytes_like::<27>(template());
    let segs = nd::u8_of(&[1, 2, 3, 4, 255, 254, h[26]]);
    let lace = nd::bytes::<8>();
    v.extend(&h[..26]);
    v.push(segs);
    for i in 0..usize::from(segs) { v.push(lace[i % 8]); }
    let total: usize = v[pos + 27..].iter().map(|b| usize::from(*b)).sum();
    let extra = nd::below(20) as usize;
    v.extend((0..total + extra).map(|i| (i as u8).wrapping_mul(11) ^ lace[i / 255 % 8]));
    let cut = match nd::u8() % 4 { 0 => nd::below(v.len() as u64 + 1) as usize, 1 => v.len() - nd::below(v.len().min(40) as u64) as usize, _ => v.len() };
    v.truncate(cut);
    (v, pos)
}

fn well_formed(d: &[u8], p: usize) -> bool {
    d.len() >= p + 27 && &d[p..p + 4] == b"OggS" && d[p + 4] == 0 && d[p + 26] != 0 && d.len() >= p + 27 + usize::from(d[p + 26])
}

fn fields(h: &PageHeader, d: &[u8], p: usize) {
    chk!(h.start == p as u64, "page: the start is the position of the capture pattern");
    chk!(h.header_type_flag() == d[p + 5], "page: the flags are byte 5");
    chk!(h.abgp == u64::from_le_bytes(d[p + 6..p + 14].try_into().unwrap()), "page: the granule position is at offset 6");
    chk!(h.stream_serial == u32::from_le_bytes(d[p + 14..p + 18].try_into().unwrap()), "page: the serial is at offset 14");
    chk!(h.sequence_number == u32::from_le_bytes(d[p + 18..p + 22].try_into().unwrap()), "page: the sequence number is at offset 18");
    chk!(h.checksum() == u32::from_le_bytes(d[p + 22..p + 26].try_into().unwrap()), "page: the checksum is at offset 22");
    let total: usize = d[p + 27..p + 27 + usize::from(d[p + 26])].iter().map(|b| usize::from(*b)).sum();
    chk!(h.content_size() == total, "page: the content is as long as the lacing values say");
}

harnesses! {
    /// PageHeader::read on a window with every header content and up to four lacing values, at every stream position
    bounded p05_header [unwind(6)] {
        let d = nd::bytes_like::<31>(WINDOW);
        let n = nd::below(32) as usize;
        nd::assume(d[26] <= 4);
        let base = nd::u64();
        nd::assume(base < 1 << 62);
        let mut r = nd::At::new(base, d, n);
        let ok = n >= 27 && d[0] == b'O' && d[1] == b'g' && d[2] == b'g' && d[3] == b'S' && d[4] == 0 && d[26] != 0 && n >= 27 + d[26] as usize;
        match PageHeader::read(&mut r) {
            Ok(h) => {
                chk!(ok, "page: only well-formed headers are accepted");
                chk!(h.start == base, "page: the start is the position of the capture pattern");
                chk!(h.header_type_flag() == d[5], "page: the flags are byte 5");
                chk!(h.abgp == u64::from_le_bytes([d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13]]), "page: the granule position is at offset 6");
                chk!(h.stream_serial == u32::from_le_bytes([d[14], d[15], d[16], d[17]]), "page: the serial is at offset 14");
                chk!(h.sequence_number == u32::from_le_bytes([d[18], d[19], d[20], d[21]]), "page: the sequence number is at offset 18");
                chk!(h.checksum() == u32::from_le_bytes([d[22], d[23], d[24], d[25]]), "page: the checksum is at offset 22");
                reach!("a header");
            },
            Err(e) => {
                chk!(!ok, "page: every well-formed header is accepted");
                core::mem::forget(e);
            },
        }
    }

    /// PageHeader::read and Page::read on streams with page-like content anywhere
    native p05_read {
        let (v, p) = stream();
        let mut c = Cursor::new(&v);
        c.seek(SeekFrom::Start(p as u64)).unwrap();
        let ok = well_formed(&v, p);
        match PageHeader::read(&mut c) {
            Ok(h) => {
                chk!(ok, "page: only well-formed headers are accepted");
                fields(&h, &v, p);
                chk!(c.position() == (p + 27 + usize::from(v[p + 26])) as u64, "page: reading a header stops before the content");
                reach!("a header");
            },
            Err(_) => chk!(!ok, "page: every well-formed header is accepted"),
        }
        c.seek(SeekFrom::Start(p as u64)).unwrap();
        let full = ok && {
            let n = usize::from(v[p + 26]);
            v.len() >= p + 27 + n + v[p + 27..p + 27 + n].iter().map(|b| usize::from(*b)).sum::<usize>()
        };
        match Page::read(&mut c) {
            Ok(page) => {
                chk!(full, "page: only complete pages are accepted");
                fields(page.header(), &v, p);
                let n = p + 27 + usize::from(v[p + 26]);
                let e = n + page.header().content_size();
                chk!(page.content() == &v[n..e], "page: the content follows the lacing values");
                chk!(page.end == e as u64 && c.position() == e as u64, "page: the end is the position after the content");
                chk!(page.as_bytes() == v[p..e], "page: serialising gives the bytes that were read");
                reach!("a page");
                let mut again = page.clone();
                let bytes = page.as_bytes();
                let back = Page::read(&mut Cursor::new(bytes)).ok();
                again.header_mut().start = 0;
                chk!(back.as_ref().is_some_and(|b| b.header() == again.header() && b.content() == again.content()), "page: a serialised page reads back the same");
                chk!(page.take_content() == v[n..e], "page: the content can be taken");
            },
            Err(_) => chk!(!full, "page: every complete page is accepted"),
        }
    }

    /// pages whose header fields were changed before they are serialised
    native p05_roundtrip {
        let (v, p) = stream();
        let mut c = Cursor::new(&v);
        c.seek(SeekFrom::Start(p as u64)).unwrap();
        if let Ok(mut page) = Page::read(&mut c) {
            let h = page.header_mut();
            (h.abgp, h.stream_serial, h.sequence_number) = (nd::u64(), nd::u32(), nd::u32());
            if nd::bool() { page.gen_crc(); }
            let back = Page::read(&mut Cursor::new(page.as_bytes())).ok();
            page.header_mut().start = 0;
            chk!(back.is_some_and(|b| b.header() == page.header() && b.content() == page.content()), "page: a serialised page reads back the same");
            reach!("a page");
        }
    }

    /// arbitrary bytes
    native p05_hostile {
        let n = nd::below(64) as usize;
        let b = nd::bytes::<64>();
        let r = Page::read(&mut Cursor::new(&b[..n]));
        chk!(r.is_err() || well_formed(&b[..n], 0), "page: only well-formed headers are accepted");
        reach!("a stream");
    }
}
