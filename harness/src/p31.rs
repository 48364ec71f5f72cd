//! P31: saving into MP4 files
use crate::{chk, nd, reach};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::mp4::Ilst;
use lofty::tag::{Accessor, TagExt, TagType};
use std::io::Cursor;

/// an atom: the bytes before its children (version and flags of a full `meta`), its children or its content
#[cfg(not(kani))]
#[derive(Clone, Default, PartialEq, Debug)]
struct Atom { name: [u8; 4], wide: bool, to_end: bool, pre: Vec<u8>, body: Vec<u8>, kids: Option<Vec<Atom>>, at: usize, len: usize }
#[cfg(not(kani))]
fn leaf(name: &[u8; 4], body: Vec<u8>) -> Atom { Atom { name: *name, body, ..Atom::default() } }
#[cfg(not(kani))]
fn node(name: &[u8; 4], kids: Vec<Atom>) -> Atom { Atom { name: *name, kids: Some(kids), ..Atom::default() } }
#[cfg(not(kani))]
impl Atom {
    fn write(&self, d: &mut Vec<u8>) {
        let at = d.len();
        d.extend([0; 4]);
        d.extend(self.name);
        if self.wide { d.extend([0; 8]) }
        d.extend(&self.pre);
        d.extend(&self.body);
        for k in self.kids.iter().flatten() { k.write(d) }
        let n = d.len() - at;
        if self.wide { d[at..at + 4].copy_from_slice(&1u32.to_be_bytes()); d[at + 8..at + 16].copy_from_slice(&(n as u64).to_be_bytes()) }
        else if !self.to_end { d[at..at + 4].copy_from_slice(&(n as u32).to_be_bytes()) }
    }
    fn is(&self, n: &[u8; 4]) -> bool { self.name == *n }
    fn kid(&self, n: &[u8; 4]) -> Option<&Atom> { self.kids.iter().flatten().find(|k| k.is(n)) }
    fn all<'a>(&'a self, n: &[u8; 4], out: &mut Vec<&'a Atom>) { if self.is(n) { out.push(self) } for k in self.kids.iter().flatten() { k.all(n, out) } }
}
/// an independent reader
#[cfg(not(kani))]
fn parse(d: &[u8], base: usize, end: usize) -> Option<Vec<Atom>> {
    let mut v = vec![];
    let mut p = base;
    while p < end {
        if p + 8 > end { return None }
        let b = |i: usize, n: usize| d[i..i + n].iter().fold(0usize, |a, x| a << 8 | usize::from(*x));
        let name = [d[p + 4], d[p + 5], d[p + 6], d[p + 7]];
        let (len, h, wide) = match b(p, 4) { 0 => (end - p, 8, false), 1 => { if p + 16 > end { return None } (b(p + 8, 8), 16, true) }, n => (n, 8, false) };
        if len < h || len > end - p { return None }
        let mut a = Atom { name, wide, at: p, len, ..Atom::default() };
        match &name {
            b"moov" | b"udta" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"moof" | b"traf" => a.kids = Some(parse(d, p + h, p + len)?),
            b"meta" => {
                let full = d.get(p + h + 4..p + h + 8) != Some(b"hdlr");
                if full { if len < h + 4 { return None } a.pre = d[p + h..p + h + 4].to_vec() }
                a.kids = Some(parse(d, p + h + a.pre.len(), p + len)?);
            },
            _ => a.body = d[p + h..p + len].to_vec(),
        }
        v.push(a);
        p += len;
    }
    Some(v)
}
#[cfg(not(kani))]
fn noise(n: usize) -> Vec<u8> {
    let mut x = nd::u64() | 1;
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as u8 }).collect()
}
#[cfg(not(kani))]
fn free() -> Vec<Atom> { (0..nd::below(3)).map(|_| leaf(b"free", vec![0; nd::below(90) as usize])).collect() }
#[cfg(not(kani))]
fn hdlr(what: &[u8; 8]) -> Atom { let mut b = vec![0; 8]; b.extend(what); b.extend([0; 9]); leaf(b"hdlr", b) }
#[cfg(not(kani))]
fn some_file() -> Vec<Atom> {
    let n_traks = 1 + nd::below(2);
    let mut kids = vec![leaf(b"mvhd", noise(20))];
    for _ in 0..n_traks {
        let wide = nd::bool();
        let n = nd::below(4) as usize;
        let table = leaf(if wide { b"co64" } else { b"stco" }, [vec![0; 4], (n as u32).to_be_bytes().to_vec(), vec![0; n * if wide { 8 } else { 4 }]].concat());
        let mut stbl = vec![leaf(b"stsd", noise(12)), table];
        if nd::bool() { stbl.push(leaf(b"stsz", noise(9))) }
        kids.push(node(b"trak", vec![leaf(b"tkhd", noise(8)), node(b"mdia", vec![leaf(b"mdhd", noise(4)), hdlr(b"soun\0\0\0\0"), node(b"minf", vec![leaf(b"smhd", noise(8)), node(b"stbl", stbl)])])]));
    }
    if nd::below(4) != 0 {
        let mut udta = node(b"udta", vec![]);
        let k = udta.kids.as_mut().unwrap();
        if nd::below(3) == 0 { k.push(leaf(b"name", noise(5))) }
        if nd::below(4) != 0 {
            let mut m = node(b"meta", vec![]);
            if nd::below(4) != 0 { m.pre = vec![0; 4] }
            m.wide = nd::below(12) == 0;
            let l = m.kids.as_mut().unwrap();
            l.push(hdlr(b"mdirappl"));
            if nd::below(4) != 0 {
                l.extend(free());
                let n = if nd::bool() { nd::below(40) } else { nd::below(700) } as usize;
                let mut text = vec![0, 0, 0, 1, 0, 0, 0, 0];
                text.extend(vec![b'z'; n]);
                let mut nam = leaf(b"\xa9nam", vec![]);
                leaf(b"data", text).write(&mut nam.body);
                let mut ilst = leaf(b"ilst", vec![]);
                if n > 0 { nam.write(&mut ilst.body) }
                l.push(ilst);
                l.extend(free());
            }
            if nd::below(4) == 0 { l.push(leaf(b"xtra", noise(7))); l.extend(free()) }
            k.push(m);
        }
        if nd::below(3) == 0 { k.push(leaf(b"cprt", noise(6))) }
        udta.wide = nd::below(12) == 0;
        let at = 1 + nd::below(kids.len() as u64) as usize;
        kids.insert(at, udta);
    }
    let mut moov = node(b"moov", kids);
    moov.wide = nd::below(10) == 0;
    let mut top = vec![leaf(b"ftyp", [b"M4A \0\0\0\0".to_vec(), vec![b'x'; nd::below(8) as usize]].concat())];
    let mdat = |w: bool| { let mut m = leaf(b"mdat", noise(1 + nd::below(80) as usize)); m.wide = w; m };
    if nd::bool() { top.push(leaf(b"free", noise(nd::below(20) as usize))) }
    if nd::bool() { top.push(mdat(nd::below(6) == 0)) }
    top.push(moov);
    if nd::bool() { top.push(leaf(b"free", noise(nd::below(20) as usize))) }
    if nd::bool() { top.push(mdat(nd::below(6) == 0)) }
    for _ in 0..nd::below(3) * nd::below(2) {
        let mut trafs = vec![leaf(b"mfhd", noise(8))];
        for _ in 0..1 + nd::below(2) {
            let based = nd::bool();
            trafs.push(node(b"traf", vec![leaf(b"tfhd", [vec![0, 0, 0, u8::from(based)], noise(4), if based { vec![0; 8] } else { vec![] }].concat())]));
        }
        top.push(node(b"moof", trafs));
        top.push(mdat(false));
    }
    if nd::below(8) == 0 { top.last_mut().unwrap().to_end = true }
    top
}
#[cfg(not(kani))]
fn layout(top: &[Atom]) -> Vec<u8> { let mut d = vec![]; for a in top { a.write(&mut d) } d }
/// where the offsets of a file are: position and width
#[cfg(not(kani))]
fn offsets(top: &[Atom], d: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for t in top {
        let mut l = vec![];
        if t.is(b"moov") {
            for (n, w) in [(b"stco", 4), (b"co64", 8)] {
                l.clear();
                t.all(n, &mut l);
                for a in &l { for i in 0..a.body.len().saturating_sub(8) / w { v.push((a.at + a.len - a.body.len() + 8 + i * w, w)) } }
            }
        }
        if t.is(b"moof") {
            t.all(b"tfhd", &mut l);
            for a in &l { if d[a.at + 11] & 1 != 0 { v.push((a.at + 16, 8)) } }
        }
    }
    v
}
#[cfg(not(kani))]
fn value(d: &[u8], (p, w): (usize, usize)) -> usize { d[p..p + w].iter().fold(0, |a, x| a << 8 | usize::from(*x)) }
/// which byte of which atom of the top level an offset means
#[cfg(not(kani))]
fn place(top: &[Atom], o: usize) -> Option<(usize, usize)> { top.iter().enumerate().filter(|(_, a)| !a.is(b"moov")).find(|(_, a)| a.at <= o && o < a.at + a.len).map(|(i, a)| (i, o - a.at)) }
/// what saving must leave alone
#[cfg(not(kani))]
fn rest(top: &[Atom]) -> Vec<Atom> {
    fn strip(a: &Atom) -> Option<Atom> {
        if a.is(b"ilst") || (a.is(b"free") && a.at == 1) { return None }
        let mut r = Atom { name: a.name, pre: a.pre.clone(), body: a.body.clone(), ..Atom::default() };
        if a.is(b"stco") || a.is(b"co64") { r.body.truncate(8) }
        if a.is(b"tfhd") { r.body.truncate(8) }
        if let Some(k) = &a.kids {
            let k: Vec<Atom> = k.iter().filter(|x| !(a.is(b"meta") && x.is(b"free"))).filter_map(strip).collect();
            // an empty frame for a tag is no content
            if a.is(b"meta") && k.iter().all(|x| x.is(b"hdlr")) { return None }
            if a.is(b"udta") && k.is_empty() { return None }
            r.kids = Some(k);
        }
        Some(r)
    }
    top.iter().filter_map(strip).collect()
}
#[cfg(not(kani))]
fn tags(top: &[Atom]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for t in top { if t.is(b"moov") { if let Some(m) = t.kid(b"udta").and_then(|u| u.kid(b"meta")) { for k in m.kids.iter().flatten() { if k.is(b"ilst") { let mut d = vec![]; Atom { wide: false, ..k.clone() }.write(&mut d); v.push(d) } } } } }
    v
}

harnesses! {
    /// any file, any sequence of saves and removals
    native p31_saves {
        let top = some_file();
        let mut d = layout(&top);
        let Some(tree) = parse(&d, 0, d.len()) else { nd::assume(false); return };
        // point the offsets somewhere into the data
        let spots: Vec<usize> = tree.iter().filter(|a| a.is(b"mdat") || a.is(b"moof")).flat_map(|a| [a.at, a.at + 8, a.at + a.len - 1]).collect();
        for (p, w) in offsets(&tree, &d) {
            let o = if spots.is_empty() { 0 } else { spots[nd::below(spots.len() as u64) as usize] };
            d[p..p + w].copy_from_slice(&(o as u64).to_be_bytes()[8 - w..]);
        }
        let strict = nd::bool();
        for _ in 0..1 + nd::below(3) {
            let mut o = WriteOptions::new().parse_options(if strict { ParseOptions::new().parsing_mode(ParsingMode::Strict) } else { ParseOptions::new() });
            o = o.preferred_padding(match nd::below(3) { 0 => 0, 1 => 1 + nd::below(30) as u32, _ => 1024 });
            let Some(was) = parse(&d, 0, d.len()) else { chk!(false, "still an MP4 file"); return };
            let removing = nd::below(3) == 0;
            let mut want = vec![];
            let mut c = Cursor::new(d.clone());
            let ok = if removing { TagType::Mp4Ilst.remove_from(&mut c, o).is_ok() } else {
                let mut t = Ilst::default();
                t.set_title("x".repeat(1 + if nd::bool() { nd::below(40) } else { nd::below(700) } as usize));
                if nd::below(3) == 0 { t.set_artist("y".repeat(1 + nd::below(60) as usize)) }
                chk!(t.dump_to(&mut want, o).is_ok(), "dump: succeeds");
                t.save_to(&mut c, o).is_ok()
            };
            let new = c.into_inner();
            if !ok { chk!(new == d, "a failed save leaves the file as it was"); chk!(false, "saving succeeds"); return }
            let Some(now) = parse(&new, 0, new.len()) else { chk!(false, "the atoms fill the file and each container exactly"); return };
            chk!(rest(&now) == rest(&was), "every other atom is as it was, in order");
            if removing { reach!("a removed tag"); chk!(tags(&now).is_empty(), "a removed tag is gone") }
            else { reach!("a saved tag"); chk!(tags(&now) == [want], "the tag is the new one") }
            let (before, after) = (offsets(&was, &d), offsets(&now, &new));
            chk!(before.len() == after.len(), "the offset tables are as long as they were");
            for (x, y) in before.into_iter().zip(after) {
                let (x, y) = (value(&d, x), value(&new, y));
                if place(&was, x).is_some() { reach!("an offset"); chk!(place(&was, x) == place(&now, y), "an offset means the same byte as before") }
            }
            d = new;
        }
    }
}
