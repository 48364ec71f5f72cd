//! P32: saving Vorbis comments into Ogg Vorbis, Opus and Speex files
#![cfg(not(kani))]
use crate::{chk, nd, reach};
use data_encoding::BASE64;
use lofty::config::{ParseOptions, WriteOptions};
use lofty::file::AudioFile;
use lofty::ogg::tag::VorbisComments;
use lofty::ogg::{OggPictureStorage, OpusFile, SpeexFile, VorbisFile};
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::{ItemKey, Tag, TagExt, TagType};
use std::io::Cursor;

#[derive(Clone, PartialEq, Debug)]
struct Pg { flags: u8, granule: u64, serial: u32, seq: u32, segs: Vec<u8>, content: Vec<u8> }

/// one bit at a time
fn crc(d: &[u8]) -> u32 {
    let mut r = 0u32;
    for b in d {
        r ^= u32::from(*b) << 24;
        for _ in 0..8 { r = if r & 0x8000_0000 != 0 { (r << 1) ^ 0x04c1_1db7 } else { r << 1 } }
    }
    r
}
fn page(p: &Pg) -> Vec<u8> {
    let mut d = b"OggS\0".to_vec();
    d.push(p.flags);
    d.extend(p.granule.to_le_bytes());
    d.extend(p.serial.to_le_bytes());
    d.extend(p.seq.to_le_bytes());
    d.extend([0; 4]);
    d.push(p.segs.len() as u8);
    d.extend(&p.segs);
    d.extend(&p.content);
    let c = crc(&d);
    d[22..26].copy_from_slice(&c.to_le_bytes());
    d
}
/// the page at the front, its length and whether its checksum is right
fn take(d: &[u8]) -> Option<(Pg, usize, bool)> {
    if d.len() < 27 || &d[..5] != b"OggS\0" || d[26] == 0 { return None }
    let k = 27 + d[26] as usize;
    let segs = d.get(27..k)?.to_vec();
    let n = k + segs.iter().map(|x| *x as usize).sum::<usize>();
    let content = d.get(k..n)?.to_vec();
    let u = |a: usize| u32::from_le_bytes([d[a], d[a + 1], d[a + 2], d[a + 3]]);
    let mut zeroed = d[..n].to_vec();
    zeroed[22..26].fill(0);
    Some((Pg { flags: d[5], granule: u64::from(u(6)) | u64::from(u(10)) << 32, serial: u(14), seq: u(18), segs, content }, n, crc(&zeroed) == u(22)))
}
fn noise(n: usize) -> Vec<u8> {
    let mut x = nd::u64() | 1;
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as u8 }).collect()
}
fn lacing(n: usize) -> Vec<u8> { let mut s = vec![255; n / 255]; s.push((n % 255) as u8); s }
fn size() -> usize {
    (match nd::below(6) { 0 => nd::below(4), 1 => 255 * nd::below(6), 2 => 8160 * nd::below(3) + nd::below(3), 3 => 65025 + nd::below(3), 4 => nd::below(30_000), _ => nd::below(200) }) as usize
}
/// the header packets spread over pages: the first alone, the others together or not; some number of segments per page
fn header_pages(packets: &[Vec<u8>], serial: u32) -> Vec<Pg> {
    let most = [255, 32, 7][nd::below(3) as usize];
    let together = nd::bool();
    let mut out: Vec<Pg> = vec![];
    let fresh = |cont: bool, first: bool| Pg { flags: u8::from(cont) | if first { 2 } else { 0 }, granule: 0, serial, seq: 0, segs: vec![], content: vec![] };
    let mut cur = fresh(false, true);
    for (i, p) in packets.iter().enumerate() {
        let l = lacing(p.len());
        let mut at = 0;
        for (j, s) in l.iter().enumerate() {
            if cur.segs.len() == most { out.push(std::mem::replace(&mut cur, fresh(j > 0, false))); }
            cur.segs.push(*s);
            cur.content.extend(&p[at..at + *s as usize]);
            at += *s as usize;
        }
        if i == 0 || !together || i + 1 == packets.len() { out.push(std::mem::replace(&mut cur, fresh(false, false))); }
    }
    for (i, p) in out.iter_mut().enumerate() { p.seq = i as u32; }
    out
}
/// the header packets at the front, how they are paged, and where they end
fn headers(d: &[u8], want: usize) -> Option<(Vec<Vec<u8>>, Vec<Pg>, usize, bool)> {
    let (mut packets, mut pages, mut open, mut p) = (vec![], vec![], vec![], 0);
    let mut fine = true;
    while packets.len() < want {
        let (g, n, ok) = take(&d[p..])?;
        fine &= ok;
        let mut at = 0;
        for (i, s) in g.segs.iter().enumerate() {
            open.extend(&g.content[at..at + *s as usize]);
            at += *s as usize;
            if *s < 255 {
                packets.push(std::mem::take(&mut open));
                if packets.len() == want && i + 1 != g.segs.len() { return None }
            }
        }
        pages.push(g);
        p += n;
    }
    Some((packets, pages, p, fine))
}
#[derive(Clone, Copy, PartialEq)]
enum Kind { Vorbis, Opus, Speex }
fn signature(k: Kind) -> &'static [u8] { match k { Kind::Vorbis => b"\x03vorbis", Kind::Opus => b"OpusTags", Kind::Speex => b"" } }
fn text(n: u64) -> String {
    (0..nd::below(n)).map(|_| match nd::below(12) { 0 => 'é', 1 => '🎵', 2 => '=', 3 => ['\n', '\r', '\u{1}', '\u{7f}'][nd::below(4) as usize], 4 => '\0', 5 => ' ', 6 => '\u{feff}', 7 => (b' ' + nd::below(95) as u8) as char, _ => (b'a' + nd::below(26) as u8) as char }).collect()
}
fn comment_packet(k: Kind, vendor: &[u8], fields: &[Vec<u8>]) -> Vec<u8> {
    let mut p = signature(k).to_vec();
    p.extend((vendor.len() as u32).to_le_bytes());
    p.extend(vendor);
    p.extend((fields.len() as u32).to_le_bytes());
    for f in fields { p.extend((f.len() as u32).to_le_bytes()); p.extend(f); }
    if k == Kind::Vorbis { p.push(1) }
    p
}
fn id_packet(k: Kind) -> Vec<u8> {
    match k {
        Kind::Vorbis => { let mut p = b"\x01vorbis\0\0\0\0\x02\x44\xac\0\0".to_vec(); p.extend([0; 12]); p.extend([0xb8, 1]); p },
        Kind::Opus => { let mut p = b"OpusHead\x01\x02\x38\x01\x80\xbb\0\0\0\0\0".to_vec(); p.truncate(19); p },
        Kind::Speex => { let mut p = b"Speex   1.2".to_vec(); p.resize(80, 3); p },
    }
}
/// what follows the headers: pages of this stream and of others, perhaps something unreadable, perhaps pages after it
fn rest(serial: u32, from: u32) -> Vec<u8> {
    let mut d = vec![];
    let mut seq = from;
    for _ in 0..nd::below(8) {
        let other = nd::below(4) == 0;
        let s = if other { serial.wrapping_add(1 + nd::below(3) as u32) } else { serial };
        let n = 1 + nd::below(if nd::below(6) == 0 { 255 } else { 9 }) as usize;
        let segs: Vec<u8> = (0..n).map(|_| if nd::below(3) == 0 { 255 } else { nd::u8() }).collect();
        let content = noise(segs.iter().map(|x| *x as usize).sum());
        let q = if nd::below(5) == 0 { nd::u32() } else { seq };
        let mut p = page(&Pg { flags: nd::below(8) as u8, granule: nd::u64(), serial: s, seq: q, segs, content });
        if nd::below(12) == 0 { p[22] ^= 1 + nd::below(255) as u8 }
        d.extend(p);
        if !other { seq = seq.wrapping_add(1) }
        if nd::below(25) == 0 { d.extend(b"OggS\x01junk"); }
    }
    if nd::below(5) == 0 && !d.is_empty() { d.extend(noise(nd::below(90) as usize)); }
    if nd::below(8) == 0 && d.len() > 4 { let cut = nd::below(d.len() as u64 - 4) as usize + 4; d.truncate(cut); }
    d
}
fn picture() -> (Picture, PictureInformation) {
    let p = Picture::unchecked(noise(nd::below(if nd::below(4) == 0 { 20_000 } else { 60 }) as usize))
        .pic_type([PictureType::CoverFront, PictureType::Other, PictureType::Leaflet][nd::below(3) as usize])
        .mime_type(MimeType::Png).description(text(9)).build();
    (p, PictureInformation { width: nd::u32(), height: nd::u32(), color_depth: nd::u32(), num_colors: nd::u32() })
}
fn picture_field(p: &Picture, i: &PictureInformation) -> Vec<u8> {
    let mut b = vec![];
    let mut num = |b: &mut Vec<u8>, n: u32| b.extend(n.to_be_bytes());
    num(&mut b, u32::from(p.pic_type().as_u8()));
    num(&mut b, 9); b.extend(b"image/png");
    let desc = p.description().unwrap_or("");
    num(&mut b, desc.len() as u32); b.extend(desc.as_bytes());
    for n in [i.width, i.height, i.color_depth, i.num_colors] { num(&mut b, n) }
    num(&mut b, p.data().len() as u32); b.extend(p.data());
    let mut f = b"METADATA_BLOCK_PICTURE=".to_vec();
    f.extend(BASE64.encode(&b).into_bytes());
    f
}
fn read_back(k: Kind, d: &[u8]) -> Option<VorbisComments> {
    let mut c = Cursor::new(d);
    let o = ParseOptions::new().read_properties(false).implicit_conversions(false);
    Some(match k {
        Kind::Vorbis => VorbisFile::read_from(&mut c, o).ok()?.vorbis_comments().clone(),
        Kind::Opus => OpusFile::read_from(&mut c, o).ok()?.vorbis_comments().clone(),
        Kind::Speex => SpeexFile::read_from(&mut c, o).ok()?.vorbis_comments().clone(),
    })
}
fn kind() -> Kind { [Kind::Vorbis, Kind::Opus, Kind::Speex][nd::below(3) as usize] }
fn field() -> (String, String) {
    let key = ["TITLE", "ARTIST", "x y", "Comment", "LYRICS"][nd::below(5) as usize].to_string();
    let value = match nd::below(8) { 0 => String::new(), 1 => "v".repeat(size()), _ => text(20) };
    (key, value)
}
/// compare what follows the headers: pages of the stream renumbered from `next`, the others untouched, until an unreadable one
fn same_rest(was: &[u8], now: &[u8], serial: u32, mut next: u32) -> bool {
    let (mut a, mut b) = (was, now);
    while let Some((p, n, _)) = take(a) {
        let Some((q, m, ok)) = take(b) else { return false };
        if p.serial == serial {
            reach!("a page of the stream");
            let want = Pg { seq: next, ..p };
            if q != want || !ok { return false }
            next = next.wrapping_add(1);
        } else {
            reach!("a page of another stream");
            if a[..n] != b[..m] { return false }
        }
        a = &a[n..];
        b = &b[m..];
    }
    a == b
}

harnesses! {
    /// any sequence of saves into any file
    native p32_saves {
        let k = kind();
        let serial = nd::u32();
        let bad_vendor = nd::below(6) == 0;
        let mut vendor = text(30).into_bytes();
        if bad_vendor { let i = nd::below(vendor.len() as u64 + 1) as usize; if let Err(e) = std::str::from_utf8(&vendor[..i]) { vendor.truncate(e.valid_up_to()); vendor.push(0xff) } else { vendor.insert(i, 0xff) } }
        let mut packets = vec![id_packet(k), comment_packet(k, &vendor, &(0..nd::below(4)).map(|_| { let (k, v) = field(); format!("{k}={v}").into_bytes() }).collect::<Vec<_>>())];
        if k == Kind::Vorbis { let mut s = b"\x05vorbis".to_vec(); s.extend(noise(size())); packets.push(s) }
        let n = packets.len();
        let mut d = vec![];
        let hp = header_pages(&packets, serial);
        for p in &hp { d.extend(page(p)) }
        let tail = rest(serial, hp.len() as u32);
        d.extend(&tail);
        let mut was = d[d.len() - tail.len()..].to_vec();
        if bad_vendor { vendor = vec![] }
        for _ in 0..1 + nd::below(3) {
            let mut fields = vec![];
            let mut c = Cursor::new(d.clone());
            let mut t = VorbisComments::default();
            let how = nd::below(6);
            let ok = if how == 0 {
                reach!("a removal");
                TagType::VorbisComments.remove_from(&mut c, WriteOptions::new()).is_ok()
            } else if how == 1 {
                let mut g = Tag::new(TagType::VorbisComments);
                for (key, name) in [(ItemKey::TrackTitle, "TITLE"), (ItemKey::AlbumTitle, "ALBUM"), (ItemKey::Comment, "COMMENT")] {
                    let v = text(20);
                    if v.is_empty() { continue }
                    g.insert_text(key, v.clone());
                    fields.push(format!("{name}={v}").into_bytes());
                }
                g.save_to(&mut c, WriteOptions::new()).is_ok()
            } else {
                t.set_vendor(text(5));
                for _ in 0..nd::below(5) {
                    let (key, v) = field();
                    if !v.is_empty() { fields.push(format!("{key}={v}").into_bytes()) }
                    t.push(key, v);
                }
                for _ in 0..nd::below(3) {
                    let (p, i) = picture();
                    fields.push(picture_field(&p, &i));
                    t.insert_picture(p, Some(i)).unwrap();
                }
                t.save_to(&mut c, WriteOptions::new()).is_ok()
            };
            let new = c.into_inner();
            chk!(ok, "save: succeeds on a well-formed file");
            let Some((got, pages, at, fine)) = headers(&new, n) else { chk!(false, "the file starts with its header packets, on pages of their own"); return };
            chk!(fine, "the checksums of the header pages are right");
            chk!(pages.iter().enumerate().all(|(i, p)| p.seq == i as u32 && p.serial == serial), "the header pages are numbered from 0 and belong to the stream");
            chk!(pages.iter().enumerate().all(|(i, p)| (p.flags & 2 != 0) == (i == 0) && p.flags & 4 == 0), "the first page, and only it, begins the stream, and none ends it");
            chk!(pages[0].content == packets[0], "the identification packet has the first page to itself");
            chk!(got[0] == packets[0] && got.get(2) == packets.get(2), "the identification and setup packets are as they were");
            let want = comment_packet(k, &vendor, &fields);
            chk!(got[1] == want, "the comment packet: vendor kept, the fields of the tag in order, their number, the framing bit");
            chk!(same_rest(&was, &new[at..], serial, pages.len() as u32), "what follows the headers is as it was, the pages of the stream renumbered");
            if how > 1 {
                let Some(back) = read_back(k, &new) else { chk!(false, "the saved file reads back"); return };
                let kept: Vec<(String, String)> = t.items().filter(|x| !x.1.is_empty()).map(|(a, b)| (a.to_string(), b.trim_end_matches('\0').to_string())).collect();
                reach!("a tag read back");
                chk!(back.items().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>() == kept, "the fields read back");
                chk!(back.vendor() == std::str::from_utf8(&vendor).unwrap().trim_end_matches('\0'), "the vendor reads back");
                chk!(back.pictures().len() == t.pictures().len() && back.pictures().iter().zip(t.pictures()).all(|(a, b)| a.1 == b.1 && a.0.data() == b.0.data() && a.0.pic_type() == b.0.pic_type() && a.0.description().unwrap_or("") == b.0.description().unwrap_or("").trim_end_matches('\0')), "the pictures read back");
            }
            was = new[at..].to_vec();
            d = new;
        }
    }

    /// what cannot be saved is left as it was
    native p32_refused {
        let k = kind();
        let serial = nd::u32();
        let mut packets = vec![id_packet(k), comment_packet(k, b"vendor", &[b"A=b".to_vec()])];
        if k == Kind::Vorbis { let mut s = b"\x05vorbis".to_vec(); s.extend(noise(size())); packets.push(s) }
        let mut audio = vec![];
        match nd::below(5) {
            // a vendor string longer than the packet
            0 => { let n = signature(k).len(); let len = packets[1].len() as u32; packets[1][n..n + 4].copy_from_slice(&(len + nd::below(1000) as u32).to_le_bytes()) },
            // no comment header
            1 => { packets[1].truncate(nd::below(signature(k).len() as u64 + 4) as usize) },
            // a header packet missing
            2 => { packets.pop(); },
            // another signature
            3 => if k == Kind::Speex { packets[1].clear() } else { packets[1][nd::below(7) as usize] ^= 0x20 },
            // audio on the last header page
            _ => audio = noise(1 + nd::below(200) as usize),
        }
        let mut hp = header_pages(&packets, serial);
        if !audio.is_empty() {
            let l = hp.len() - 1;
            if hp[l].segs.len() + 1 > 255 || audio.starts_with(b"OggS") { return }
            hp[l].segs.push(audio.len() as u8);
            hp[l].content.extend(&audio);
        }
        let mut d = vec![];
        for p in &hp { d.extend(page(p)) }
        if packets.len() + usize::from(k != Kind::Vorbis) == 3 { d.extend(rest(serial, hp.len() as u32)) }
        let mut c = Cursor::new(d.clone());
        let mut t = VorbisComments::default();
        t.push("TITLE".to_string(), text(9) + "x");
        let ok = t.save_to(&mut c, WriteOptions::new()).is_ok();
        reach!("a refused save");
        chk!(!ok, "what has no comments to replace is refused");
        chk!(c.into_inner() == d, "a refused save leaves the file as it was");
    }
}
