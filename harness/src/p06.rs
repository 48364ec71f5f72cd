//! P06: packet lists
use crate::p04::{length, packet};
use crate::{chk, nd, reach};
use ogg_pager::Packets;
use std::io::Cursor;

/// The stream of a packet list, with page breaks anywhere and packets sharing pages. Returns the stream and where packet i is complete.
fn stream(packets: &[Vec<u8>], full: usize) -> (Vec<u8>, Vec<usize>) {
    let mut lace: Vec<(u8, usize)> = vec![];
    let mut content = vec![];
    for (i, p) in packets.iter().enumerate() {
        let mut rest = p.len();
        while rest >= 255 { lace.push((255, usize::MAX)); rest -= 255; }
        lace.push((rest as u8, i));
        content.extend(p);
    }
    let mut out = vec![];
    let mut done = vec![0; packets.len()];
    let mut content = &content[..];
    let mut lace = &lace[..];
    let mut seq = 0u32;
    while !lace.is_empty() {
        let k = match nd::u8() % 4 { 0 => 1, 1 => 255.min(full), _ => 1 + nd::below(full as u64) as usize }.min(lace.len());
        let n: usize = lace[..k].iter().map(|x| usize::from(x.0)).sum();
        out.extend(b"OggS\0");
        out.push(0);
        out.extend(nd::u64().to_le_bytes());
        out.extend(5u32.to_le_bytes());
        out.extend(seq.to_le_bytes());
        out.extend(nd::u32().to_le_bytes());
        out.push(k as u8);
        out.extend(lace[..k].iter().map(|x| x.0));
        let mut at = out.len();
        for l in &lace[..k] {
            at += usize::from(l.0);
            if l.1 != usize::MAX { done[l.1] = at; }
        }
        out.extend(&content[..n]);
        content = &content[n..];
        lace = &lace[k..];
        seq += 1;
    }
    (out, done)
}

fn same(list: &Packets, model: &[Vec<u8>]) {
    chk!(list.len() == model.len() && list.is_empty() == model.is_empty(), "packets: the number of packets");
    for (i, p) in model.iter().enumerate() {
        chk!(list.get(i) == Some(&p[..]), "packets: looking up a packet gives exactly its bytes");
    }
    chk!(list.get(model.len()).is_none() && list.get(usize::MAX).is_none() && list.get(model.len() + 1 + nd::below(9) as usize).is_none(), "packets: nothing outside of the list");
    let mut it = list.iter();
    for p in model {
        chk!(it.next() == Some(&p[..]), "packets: iterating gives every packet in order");
    }
    chk!(it.next().is_none() && it.next().is_none(), "packets: iteration ends after the last packet");
}

harnesses! {
    /// reading a stream, then any sequence of replacements
    native p06_history {
        let n = nd::below(6) as usize;
        let mut model: Vec<Vec<u8>> = (0..n).map(|i| packet(if nd::bool() { length() } else { nd::below(20) as usize }, i as u8 + 1)).collect();
        let (bytes, done) = stream(&model, 1 + nd::below(255) as usize);
        let list = Packets::read(&mut Cursor::new(&bytes));
        chk!(list.is_ok(), "packets: a well-formed stream is readable");
        let mut list = list.unwrap();
        same(&list, &model);
        let k = 1 + nd::below(6) as usize;
        let mut c = Cursor::new(&bytes);
        match Packets::read_count(&mut c, k as isize) {
            Ok(l) => {
                chk!(k <= n, "packets: not more packets than there are");
                same(&l, &model[..k]);
                chk!(c.position() == done[k - 1] as u64, "packets: reading a number of packets stops after the last of them");
            },
            Err(_) => chk!(k > n, "packets: a number of packets that is there is readable"),
        }
        for _ in 0..nd::below(6) {
            let i = nd::below(n as u64 + 2) as usize;
            let p = packet(match nd::below(5) {
                0 | 1 => length(),
                2 => nd::below(20) as usize,
                // around the length of the old one, also modulo the sizes of narrower integers
                _ => {
                    let old = model.get(i).map_or(0, Vec::len);
                    let step = [1usize, 2, 255, 256, 65025, 65536][nd::below(6) as usize];
                    if nd::bool() { old + step } else { old.saturating_sub(step) }
                },
            }, nd::u8());
            let r = list.set(i, p.clone());
            chk!(r == (i < n), "packets: replacing succeeds exactly within the list");
            if i < n { model[i] = p; }
            same(&list, &model);
            reach!("a replacement");
        }
        let pages = list.paginate(1, 2, 6).unwrap();
        crate::p04::check(&model, &pages, 1, 2, 6);
        reach!("a history");
    }
}
