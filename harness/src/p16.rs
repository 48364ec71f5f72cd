//! P16: replacing the metadata of a FLAC file
use crate::{chk, nd, reach};
use lofty::config::WriteOptions;
use lofty::flac::verif::write::replace_range;
use lofty::ogg::tag::VorbisComments;
use lofty::tag::TagExt;
use std::io::Cursor;

#[cfg(not(kani))]
fn noise(n: usize, mut s: u64) -> Vec<u8> {
    (0..n).map(|_| {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (s >> 56) as u8
    }).collect()
}

#[cfg(not(kani))]
fn len() -> usize {
    (match nd::below(5) {
        0 => nd::below(40),
        1 => 65536 * nd::below(4) + nd::below(5),
        2 => 65536 * (1 + nd::below(3)) - nd::below(5),
        3 => nd::below(300_000),
        _ => 0,
    }) as usize
}

#[cfg(not(kani))]
fn block(out: &mut Vec<u8>, ty: u8, last: bool, content: &[u8]) {
    out.push(ty | u8::from(last) << 7);
    out.extend_from_slice(&(content.len() as u32).to_be_bytes()[1..]);
    out.extend_from_slice(content);
}

/// the blocks and where they end
#[cfg(not(kani))]
fn blocks(file: &[u8], mut at: usize) -> Option<(Vec<(u8, Vec<u8>)>, usize)> {
    let mut out = Vec::new();
    loop {
        let h = file.get(at..at + 4)?;
        let n = (usize::from(h[1]) << 16) | (usize::from(h[2]) << 8) | usize::from(h[3]);
        out.push((h[0] & 0x7F, file.get(at + 4..at + 4 + n)?.to_vec()));
        at += 4 + n;
        if h[0] & 0x80 != 0 { return Some((out, at)) }
    }
}

harnesses! {
    /// prefix, replacement and suffix, byte for byte
    native p16_replace_range {
        let (pre, old, post, new) = (len(), len(), len(), len());
        let d = noise(pre + old + post, nd::u64());
        let r = noise(new, nd::u64());
        let mut file = Cursor::new(d.clone());
        file.set_position(nd::below(2) * nd::below(100));
        let ok = replace_range(&mut file, pre as u64..(pre + old) as u64, &r).is_ok();
        chk!(ok, "replace_range: a range within the file is replaced");
        let mut want = d[..pre].to_vec();
        want.extend_from_slice(&r);
        want.extend_from_slice(&d[pre + old..]);
        reach!("a replacement");
        chk!(file.into_inner() == want, "replace_range: prefix, replacement and suffix");
    }

    /// an invalid range changes nothing
    native p16_bad_range {
        let d = noise(nd::below(100) as usize, nd::u64());
        let r = noise(nd::below(100) as usize, nd::u64());
        let n = d.len() as u64;
        let (a, b) = (nd::u64_of(&[0, 1, n, n + 1, 5]), nd::u64_of(&[0, n, n + 1, 3, u64::MAX]));
        let mut file = Cursor::new(d.clone());
        let ok = replace_range(&mut file, a..b, &r).is_ok();
        if a <= b && b <= n {
            reach!("a valid range");
            chk!(ok, "replace_range: a range within the file is replaced");
        } else {
            reach!("an invalid range");
            chk!(!ok && file.into_inner() == d, "replace_range: an invalid range is an error that changes nothing");
        }
    }

    /// a whole save: every other block and the audio stay as they are
    native p16_save {
        let mut file = Vec::new();
        // a tag in front of the stream stays where it is
        let front = if nd::below(3) == 0 { b"ID3\x04\x00\x00\x00\x00\x00\x0a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00".to_vec() } else { Vec::new() };
        file.extend_from_slice(&front);
        file.extend_from_slice(b"fLaC");
        let n = nd::below(5) as usize;
        let mut kept = Vec::new();
        let info = noise(34, 5);
        block(&mut file, 0, n == 0, &info);
        kept.push((0u8, info));
        let mut padded = false;
        let mut removable = false;
        for i in 0..n {
            let ty = [1u8, 2, 3, 4, 5, 6][nd::below(6) as usize];
            let mut c = noise(nd::below(70) as usize, nd::u64());
            match ty {
                1 => { c.iter_mut().for_each(|x| *x = 0); padded = true; },
                4 => { c = b"\x03\x00\x00\x00abc\x01\x00\x00\x00\x05\x00\x00\x00A=old".to_vec(); removable = true; },
                6 => removable = true,
                _ => {},
            }
            block(&mut file, ty, i + 1 == n, &c);
            if ty != 4 && ty != 6 { kept.push((ty, c)); }
        }
        let audio = noise(if nd::below(8) == 0 { 140_000 } else { nd::below(400) as usize }, nd::u64());
        file.extend_from_slice(&audio);
        let before = file.clone();

        let mut tag = VorbisComments::default();
        let with_items = nd::below(4) != 0;
        if with_items {
            tag.push("TITLE".to_string(), "x".repeat(nd::below(200) as usize));
        }
        let mut opts = WriteOptions::new();
        let pad = if nd::below(2) == 0 { 0 } else { nd::below(2000) as u32 };
        opts = opts.preferred_padding(pad);
        let mut f = Cursor::new(file);
        let ok = tag.save_to(&mut f, opts).is_ok();
        let after = f.into_inner();
        chk!(ok, "FLAC save: a tag is saved to a well-formed file");
        if !with_items && !removable {
            reach!("nothing to do");
            chk!(after == before, "FLAC save: nothing to do changes nothing");
            return;
        }
        reach!("a saved tag");
        chk!(after.len() >= front.len() + 4 && after[..front.len() + 4] == before[..front.len() + 4], "FLAC save: what precedes the blocks stays");
        let Some((bl, end)) = blocks(&after, front.len() + 4) else { chk!(false, "FLAC save: the metadata is a chain of blocks"); return };
        chk!(after[end..] == audio[..], "FLAC save: the audio stays as it is");
        let others: Vec<_> = bl.iter().filter(|b| b.0 != 4).cloned().collect();
        let comments: Vec<_> = bl.iter().filter(|b| b.0 == 4).collect();
        chk!(comments.len() == usize::from(with_items), "FLAC save: one comment block, or none for an empty tag");
        let mut want = kept.clone();
        if !padded && pad > 0 {
            chk!(bl.last().map(|b| b.0) == Some(1), "FLAC save: padding is added where asked for and there is none");
            chk!(bl.last().is_some_and(|b| b.1.len() >= pad as usize && b.1.iter().all(|x| *x == 0)), "FLAC save: at least the preferred padding");
            want.push(bl.last().unwrap().clone());
        }
        chk!(others == want, "FLAC save: every other block stays, in order");
    }
}
