//! P21: pictures
#![cfg(not(kani))]
use crate::{chk, nd, reach};
use lofty::config::ParsingMode;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use data_encoding::BASE64;

const MIMES: [(&str, MimeType); 5] = [("image/jpeg", MimeType::Jpeg), ("image/png", MimeType::Png), ("image/tiff", MimeType::Tiff), ("image/bmp", MimeType::Bmp), ("image/gif", MimeType::Gif)];
const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];
const SIGNATURES: [(&[u8], MimeType); 7] = [(b"\x89PNG\r\n\x1A\n", MimeType::Png), (b"\xFF\xD8", MimeType::Jpeg), (b"GIF87a", MimeType::Gif), (b"GIF89a", MimeType::Gif), (b"BM", MimeType::Bmp), (b"II*\0", MimeType::Tiff), (b"MM\0*", MimeType::Tiff)];
fn bytes(n: u64) -> Vec<u8> { (0..nd::below(n)).map(|_| nd::u8()).collect() }
fn a_char(nul: bool) -> char {
    for _ in 0..64 {
        let n = match nd::below(6) { 0 => nd::u8().into(), 1 => nd::u16().into(), 2 => nd::u32_of(&[0, 0x7F, 0x80, 0xFF, 0x100, 0xFEFF, 0x1F600]), _ => 0x20 + u32::from(nd::u8()) % 0x5F };
        if let Some(c) = char::from_u32(n) { if nul || c != '\0' { return c } }
    }
    'a'
}
fn a_text(nul: bool) -> String {
    let mut s: String = (0..1 + nd::below(12)).map(|_| a_char(nul)).collect();
    if nd::below(12) == 0 { s = s.repeat(25) }
    if s.ends_with('\0') { s.push('x') }
    s
}
fn known(s: &str) -> bool { let l = s.to_lowercase(); l == "image/jpg" || MIMES.iter().any(|(n, _)| *n == l) }
fn a_mime() -> Option<MimeType> {
    match nd::below(4) { 0 => None, 1 => { let s = if nd::bool() { a_text(true) } else { ["image/webp", "-->", "image/", "image/pngx", "PNG"][nd::below(5) as usize].to_string() }; (!known(&s)).then_some(MimeType::Unknown(s)) }, _ => Some(MIMES[nd::below(5) as usize].1.clone()) }
}
fn a_type() -> PictureType { PictureType::from_u8(if nd::below(5) == 0 { nd::u8() } else { nd::below(21) as u8 }) }
fn a_number() -> u32 { if nd::bool() { nd::below(3000) as u32 } else { nd::u32() } }
fn some_info() -> PictureInformation { PictureInformation { width: a_number(), height: a_number(), color_depth: a_number(), num_colors: a_number() } }
fn image() -> Vec<u8> {
    let mut d = SIGNATURES[nd::below(7) as usize].0.to_vec();
    if nd::below(6) == 0 { let n = nd::below(d.len() as u64) as usize; if nd::bool() { d.truncate(n) } else { d[n] ^= 1 << nd::below(8) } }
    d.extend(bytes(40));
    d
}
fn kind(d: &[u8]) -> Option<MimeType> { SIGNATURES.iter().find(|(s, _)| d.starts_with(s)).map(|(_, m)| m.clone()) }
fn be(d: &[u8], p: usize, n: usize) -> usize { d[p..p + n].iter().fold(0, |a, b| a << 8 | usize::from(*b)) }
fn built(t: PictureType, m: &Option<MimeType>, desc: &Option<String>, data: &[u8]) -> Picture {
    let mut p = Picture::unchecked(data.to_vec()).pic_type(t);
    if let Some(m) = m { p = p.mime_type(m.clone()) }
    if let Some(s) = desc { p = p.description(s.clone()) }
    p.build()
}
fn trim(s: &str) -> &str { s.trim_end_matches('\0') }
/// what a picture block says, written from its layout
fn decoded(c: &[u8], strict: bool) -> Option<(Picture, PictureInformation)> {
    if c.len() < 32 || (strict && be(c, 0, 4) > 255) { return None }
    let m = be(c, 4, 4);
    if 12 + m > c.len() { return None }
    let mime = trim(std::str::from_utf8(&c[8..8 + m]).ok()?);
    let n = be(c, 8 + m, 4);
    let has = n > 0 && n < c.len() - 12 - m;
    let f = 12 + m + if has { n } else { 0 };
    if f + 20 > c.len() || be(c, f + 16, 4) > c.len() - f - 20 { return None }
    let desc = if has { std::str::from_utf8(&c[12 + m..f]).ok().map(|s| trim(s).to_string()) } else { None };
    let l = mime.to_lowercase();
    let kind = if mime.is_empty() { None } else if l == "image/jpg" { Some(MimeType::Jpeg) } else { Some(MIMES.iter().find(|(s, _)| *s == l).map_or(MimeType::Unknown(mime.to_string()), |(_, k)| k.clone())) };
    let w = |k: usize| be(c, f + 4 * k, 4) as u32;
    Some((built(PictureType::from_u8(c[3]), &kind, &desc, &c[f + 20..f + 20 + be(c, f + 16, 4)]), PictureInformation { width: w(0), height: w(1), color_depth: w(2), num_colors: w(3) }))
}
fn encoded(t: u8, mime: &str, desc: &str, i: &PictureInformation, data: &[u8]) -> Vec<u8> {
    let n = |l: usize| (l as u32).to_be_bytes();
    [&[0, 0, 0, t][..], &n(mime.len()), mime.as_bytes(), &n(desc.len()), desc.as_bytes(), &i.width.to_be_bytes(), &i.height.to_be_bytes(), &i.color_depth.to_be_bytes(), &i.num_colors.to_be_bytes(), &n(data.len()), data].concat()
}
fn png(d: &[u8]) -> Option<PictureInformation> {
    if d.len() < 26 || &d[..8] != b"\x89PNG\r\n\x1A\n" || &d[12..16] != b"IHDR" { return None }
    let mut i = PictureInformation { width: be(d, 16, 4) as u32, height: be(d, 20, 4) as u32, color_depth: u32::from(d[24]) * match d[25] { 2 => 3, 4 => 2, 6 => 4, _ => 1 }, num_colors: 0 };
    let mut p = 33;
    while d[25] == 3 && p + 8 <= d.len() {
        if &d[p + 4..p + 8] == b"PLTE" { i.num_colors = be(d, p, 4) as u32 / 3; break }
        p += 12 + be(d, p, 4);
    }
    Some(i)
}
fn jpeg(d: &[u8]) -> Option<PictureInformation> {
    if d.len() < 6 || d[..3] != [0xFF, 0xD8, 0xFF] { return None }
    let mut p = 2;
    let mut first = true;
    loop {
        if p + 4 > d.len() || d[p] != 0xFF { return None }
        if !first && d[p + 1] == 0xDA { return None }
        if !first && (d[p + 1] == 0xC0 || d[p + 1] == 0xC2) {
            if p + 10 > d.len() { return None }
            return Some(PictureInformation { height: be(d, p + 5, 2) as u32, width: be(d, p + 7, 2) as u32, color_depth: u32::from(d[p + 4]) * u32::from(d[p + 9]), num_colors: 0 })
        }
        if be(d, p + 2, 2) < 2 { return None }
        p += 2 + be(d, p + 2, 2);
        first = false;
    }
}

harnesses! {
    /// a picture block, raw and in base64
    native p21_flac_round_trip {
        let (t, m, i) = (a_type(), a_mime(), some_info());
        let desc = nd::bool().then(|| a_text(true));
        let data = if nd::bool() { image() } else { bytes(60) };
        let p = built(t, &m, &desc, &data);
        let mime = m.as_ref().map_or("", |m| m.as_str());
        let raw = p.as_flac_bytes(i, false);
        chk!(raw == encoded(t.as_u8(), mime, desc.as_deref().unwrap_or(""), &i, &data), "FLAC: the block holds the type, MIME type, description, dimensions and data");
        let coded = p.as_flac_bytes(i, true);
        chk!(BASE64.decode(&coded).ok().as_ref() == Some(&raw), "FLAC: base64 of the same block");
        for mode in MODES {
            for (d, b) in [(&raw, false), (&coded, true)] {
                match Picture::from_flac_bytes(d, b, mode) {
                    Ok((q, j)) => { reach!("a picture"); chk!(q == p, "FLAC: the picture is the same again"); chk!(j == i, "FLAC: the dimensions are the same again") },
                    Err(_) => chk!(false, "FLAC: what was written can be read"),
                }
            }
        }
    }
    /// any bytes as a picture block
    native p21_flac_any {
        let mut d = encoded(nd::u8(), ["image/png", "image/JPG", "", "text", "Image/Gif\0"][nd::below(5) as usize], ["", "d", "\u{E9}\0", "desc"][nd::below(4) as usize], &some_info(), &bytes(20));
        for _ in 0..nd::below(4) { let k = nd::below(d.len() as u64) as usize; d[k] = nd::u8_of(&[0, 1, 2, 9, 20, 32, 0xFF, 0x80]) }
        if nd::below(3) == 0 { d.truncate(nd::below(d.len() as u64 + 1) as usize) }
        if nd::below(4) == 0 { d.extend(bytes(9)) }
        let mode = MODES[nd::below(3) as usize];
        let want = decoded(&d, mode == ParsingMode::Strict);
        let got = Picture::from_flac_bytes(&d, false, mode);
        chk!(got.is_ok() == want.is_some(), "FLAC: fails exactly on bytes that are no picture block");
        if want.is_some() { reach!("a block") }
        chk!(got.ok() == want, "FLAC: the fields of the block");
        let coded = BASE64.encode(&d).into_bytes();
        chk!(Picture::from_flac_bytes(&coded, true, mode).ok() == want, "FLAC: the fields of the block in base64");
        let noise = bytes(50);
        if BASE64.decode(&noise).is_err() { chk!(Picture::from_flac_bytes(&noise, true, mode).is_err(), "FLAC: what is not base64 is refused") }
    }
    /// cover art
    native p21_ape {
        let desc = nd::bool().then(|| a_text(false));
        let data = image();
        let t = PictureType::from_u8(nd::below(21) as u8);
        let m = if data.len() >= 8 { kind(&data) } else { None };
        let p = built(t, &m, &desc, &data);
        let d = p.as_ape_bytes();
        chk!(d == [desc.as_deref().unwrap_or("").as_bytes(), &[0], &data].concat(), "APE: description, null, data");
        let Some(key) = t.as_ape_key() else { chk!(false, "APE: a named type has a key"); return };
        let got = Picture::from_ape_bytes(key, &d);
        chk!(got.is_ok() == m.is_some(), "APE: refused exactly when the data is no image");
        if let Ok(q) = got { reach!("cover art"); chk!(q == p, "APE: the picture is the same again") }
        let mut e = d.clone();
        for _ in 0..nd::below(4) { let k = nd::below(e.len() as u64) as usize; e[k] = nd::u8() }
        e.truncate(nd::below(2 * e.len() as u64 + 1) as usize);
        let z = e.iter().position(|b| *b == 0);
        let ok = z.map_or(false, |z| e.len() >= z + 9 && kind(&e[z + 1..z + 9]).is_some());
        let got = Picture::from_ape_bytes(key, &e);
        chk!(got.is_ok() == ok, "APE: fails exactly on bytes that are no cover art");
        if let (Ok(q), Some(z)) = (got, z) {
            let text = std::str::from_utf8(&e[..z]).map_or_else(|_| e[..z].iter().map(|b| char::from(*b)).collect(), str::to_string);
            chk!(q == built(t, &kind(&e[z + 1..]), &(z > 0).then_some(text), &e[z + 1..]), "APE: the parts of the cover art");
        }
    }
    /// the keys, codes and names
    once p21_tables {
        for k in 0..=255u8 {
            let t = PictureType::from_u8(k);
            chk!(t.as_u8() == k, "types: a code and its type");
            chk!(matches!(t, PictureType::Undefined(_)) == (k > 20), "types: the first 21 codes are named");
            chk!(t.as_ape_key().is_some() == (k < 21), "types: the named types have APE keys");
            if let Some(key) = t.as_ape_key() { chk!(PictureType::from_ape_key(key) == t, "types: a key and its type") }
        }
        for (s, m) in MIMES {
            chk!(MimeType::from_str(s) == m && m.as_str() == s, "MIME types: name and type");
            chk!(MimeType::from_str(&s.to_uppercase()) == m, "MIME types: in any case");
        }
        chk!(MimeType::from_str("image/jpg") == MimeType::Jpeg, "MIME types: image/jpg");
        reach!("all of them");
    }
    /// the headers of images
    native p21_headers {
        let mut d;
        if nd::bool() {
            d = b"\x89PNG\r\n\x1A\n\0\0\0\x0DIHDR".to_vec();
            d.extend(a_number().to_be_bytes()); d.extend(a_number().to_be_bytes());
            d.push(nd::u8_of(&[1, 2, 4, 8, 16, 255])); d.push(nd::u8_of(&[0, 2, 3, 3, 3, 4, 6]));
            d.extend([0; 7]);
            for _ in 0..nd::below(3) { let b = bytes(12); d.extend((b.len() as u32).to_be_bytes()); d.extend([b"gAMA", b"tEXt", b"PLTe"][nd::below(3) as usize]); d.extend(b); d.extend([0; 4]) }
            let n = nd::below(257) as u32 * 3;
            if nd::below(4) != 0 { d.extend(n.to_be_bytes()); d.extend(b"PLTE"); if nd::bool() { d.extend(vec![1; n as usize]) } }
        } else {
            d = vec![0xFF, 0xD8];
            for k in 0..1 + nd::below(4) { d.extend([0xFF, if k == 0 { 0xE0 + nd::below(16) as u8 } else { [0xDB, 0xC4, 0xFE, 0xC1, 0xE1][nd::below(5) as usize] }]); let b = bytes(14); d.extend((b.len() as u16 + 2).to_be_bytes()); d.extend(b) }
            if nd::below(6) != 0 { d.extend([0xFF, [0xC0, 0xC2, 0xDA][nd::below(3) as usize], 0, 17, nd::u8()]); d.extend(nd::u16().to_be_bytes()); d.extend(nd::u16().to_be_bytes()); d.push(nd::u8()); d.extend(bytes(5)) }
        }
        for _ in 0..nd::below(5).saturating_sub(2) { let k = nd::below(d.len() as u64) as usize; d[k] = nd::u8_of(&[0, 1, 2, 0xFF, 0xFE, 0xC0, 0xC2, 3]) }
        if nd::below(4) == 0 { d.truncate(nd::below(d.len() as u64 + 1) as usize) }
        let (a, b) = (png(&d), jpeg(&d));
        if a.is_some() || b.is_some() { reach!("an image") }
        chk!(PictureInformation::from_png(&d).ok() == a, "PNG: dimensions, depth and palette of the header");
        chk!(PictureInformation::from_jpeg(&d).ok() == b, "JPEG: dimensions and depth of the first frame");
        let p = built(PictureType::Other, &None, &None, &d);
        chk!(PictureInformation::from_picture(&p).ok() == (d.len() >= 8).then(|| a.or(b).unwrap_or_default()), "an image's own information");
        let r = Picture::from_reader(&mut &d[..]);
        chk!(r.ok() == if d.len() >= 8 { kind(&d).map(|k| built(PictureType::Other, &Some(k), &None, &d)) } else { None }, "an image is recognised by its signature");
    }
    /// image data too short to be recognised, wherever it turns up
    native p21_short {
        let mut d = image();
        d.truncate(nd::below(12) as usize);
        if d.len() < 8 { reach!("short data") }
        let r = Picture::from_ape_bytes("Cover Art (Front)", &[&b"x\0"[..], &d].concat());
        chk!(r.is_ok() == (d.len() >= 8 && kind(&d).is_some()), "APE: short data");
        // COVERART of Vorbis comments
        use lofty::file::AudioFile;
        let art = BASE64.encode(&d);
        let field = format!("COVERART={art}");
        let comments = [&3u32.to_le_bytes()[..], b"ven", &1u32.to_le_bytes(), &(field.len() as u32).to_le_bytes(), field.as_bytes()].concat();
        let mut info = [0u8; 34];
        info[0] = 16; info[2] = 16; info[10] = 0x0A; info[11] = 0xC4; info[12] = 0x42; info[13] = 0xF0;
        let file = [&b"fLaC"[..], &[0, 0, 0, 34], &info, &[0x84, 0, (comments.len() >> 8) as u8, comments.len() as u8], &comments, b"\xFF\xF8audio"].concat();
        let f = lofty::flac::FlacFile::read_from(&mut std::io::Cursor::new(file), lofty::config::ParseOptions::new().parsing_mode(ParsingMode::Relaxed).read_properties(false));
        chk!(f.is_ok(), "COVERART: short data is no reason to fail");
    }
}
