//! P04: paginating (RFC 3533 5, 6)
use crate::{chk, nd, reach};
use ogg_pager::{paginate, Packets, Page};
use std::io::Cursor;

pub fn length() -> usize {
    let near = [0u64, 255, 510, 8160, 8160 - 255, 16320, 24480, 65025][nd::below(8) as usize];
    match nd::u8() % 4 {
        0 => nd::below(600) as usize,
        1 => nd::below(30_000) as usize,
        _ => (near + nd::below(5)).saturating_sub(2) as usize,
    }
}

pub fn packet(len: usize, seed: u8) -> Vec<u8> {
    (0..len).map(|i| (i as u8) ^ ((i >> 8) as u8).wrapping_mul(7) ^ seed).collect()
}

pub fn lacing(page: &Page) -> Vec<u8> {
    let b = page.as_bytes();
    b[27..27 + usize::from(b[26])].to_vec()
}

pub fn check(packets: &[Vec<u8>], pages: &[Page], serial: u32, abgp: u64, flags: u8) {
    let mut got: Vec<Vec<u8>> = vec![];
    let mut open: Option<Vec<u8>> = None;
    for (i, p) in pages.iter().enumerate() {
        let l = lacing(p);
        let h = p.header();
        chk!(!l.is_empty() && l.len() <= 255, "pages: one to 255 segments");
        chk!(l.iter().map(|b| usize::from(*b)).sum::<usize>() == p.content().len(), "pages: the lacing values add up to the content");
        chk!(h.stream_serial == serial, "pages: the given serial number");
        chk!(h.sequence_number == i as u32, "pages: sequence numbers count up by one from zero");
        let f = h.header_type_flag();
        chk!((f & 1 != 0) == open.is_some(), "pages: continued exactly when the page starts within a packet");
        chk!((f & 2 != 0) == (i == 0 && flags & 2 != 0), "pages: the first-page mark is on the first page, if asked for");
        chk!((f & 4 != 0) == (i + 1 == pages.len() && flags & 4 != 0), "pages: the last-page mark is on the last page, if asked for");
        chk!(f & !7 == 0, "pages: no other flags");
        let mut rest = p.content();
        for s in &l {
            let (a, b) = rest.split_at(usize::from(*s));
            rest = b;
            open.get_or_insert_with(Vec::new).extend(a);
            if *s < 255 { got.push(open.take().unwrap()); }
        }
        let ends = l.iter().any(|s| *s < 255);
        chk!(h.abgp == if ends { abgp } else { u64::MAX }, "pages: the granule position is on pages where a packet ends, the marker on others");
    }
    chk!(open.is_none(), "pages: the last packet is terminated");
    chk!(got.len() == packets.len(), "pages: as many packets as were given");
    chk!(got == packets, "pages: every byte of every packet, in order");
}

harnesses! {
    /// paginate on lists of packets of interesting lengths
    native p04_paginate {
        let n = nd::below(5) as usize;
        let packets: Vec<Vec<u8>> = (0..n).map(|i| packet(length(), i as u8)).collect();
        let (serial, abgp, flags) = (nd::u32(), nd::u64_of(&[0, 1, u64::MAX]), nd::u8());
        let pages = paginate(packets.iter().map(|p| p.as_slice()), serial, abgp, flags);
        chk!(pages.is_ok(), "pages: paginating does not fail");
        check(&packets, &pages.unwrap(), serial, abgp, flags);
        reach!("a page list");
    }

    /// written packets read back the same
    native p04_write {
        let n = 1 + nd::below(4) as usize;
        let packets: Vec<Vec<u8>> = (0..n).map(|i| packet(length(), i as u8)).collect();
        let pages = paginate(packets.iter().map(|p| p.as_slice()), 7, 0, 2).unwrap();
        let mut bytes = vec![];
        for p in &pages { bytes.extend(p.as_bytes()); }
        let list = Packets::read(&mut Cursor::new(&bytes));
        chk!(list.is_ok(), "pages: what was written is readable");
        let list = list.unwrap();
        chk!(list.len() == packets.len() && list.iter().zip(&packets).all(|(a, b)| a == &b[..]), "pages: reading gives the packets back");
        let (serial, abgp, flags) = (nd::u32(), nd::u64(), nd::u8());
        let again = list.paginate(serial, abgp, flags);
        chk!(again.is_ok(), "pages: paginating does not fail");
        check(&packets, &again.unwrap(), serial, abgp, flags);
        let mut out = vec![];
        let k = list.write_to(&mut out, serial, abgp, flags);
        let mut c = Cursor::new(&out);
        let mut pages = vec![];
        while let Ok(p) = Page::read(&mut c) { pages.push(p); }
        chk!(k.is_ok_and(|k| k == pages.len()) && c.position() == out.len() as u64, "pages: writing reports the number of pages");
        for p in &pages {
            let mut q = p.clone();
            q.gen_crc();
            chk!(q.header().checksum() == p.header().checksum(), "pages: written pages have their checksum");
        }
        check(&packets, &pages, serial, abgp, flags);
        reach!("a stream");
    }

    /// every packet length up to five pages
    once p04_lengths {
        for n in 0..5 * 8160 + 3 {
            let p = [packet(n, 3)];
            check(&p, &paginate([&p[0][..]], 1, 5, 6).unwrap(), 1, 5, 6);
        }
        reach!("all");
    }
}
