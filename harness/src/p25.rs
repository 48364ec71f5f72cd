//! P25: leading and trailing tags of a file
use crate::{chk, nd, reach};
use lofty::ape::ApeTag;
use lofty::config::WriteOptions;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::Id3v2Tag;
use lofty::tag::{Accessor, TagExt, TagType};
use std::io::Cursor;

/// the parts of a file, from the first byte to the last
#[cfg(not(kani))]
#[derive(Clone, Default)]
struct Parts { junk: Vec<u8>, v2: Vec<u8>, lead: Vec<u8>, audio: Vec<u8>, ape: Vec<u8>, lyrics: Vec<u8>, v1: Vec<u8> }
#[cfg(not(kani))]
impl Parts {
    fn bytes(&self) -> Vec<u8> { [&self.junk, &self.v2, &self.lead, &self.audio, &self.ape, &self.lyrics, &self.v1].into_iter().flatten().copied().collect() }
}
#[cfg(not(kani))]
fn noise(n: usize) -> Vec<u8> {
    let mut x = nd::u64() | 1;
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as u8 % 0x40 }).collect()
}
#[cfg(not(kani))]
fn audio() -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..3 + nd::below(2) {
        d.extend(b"\xFF\xFB\x90\x64");
        d.extend(noise(413));
    }
    // what is not whole stays too
    let rest = nd::below(40) as usize * nd::below(2) as usize;
    d.extend(noise(rest));
    d
}
#[cfg(not(kani))]
fn word() -> String { "x".repeat(1 + nd::below(60) as usize) }
#[cfg(not(kani))]
fn v2(o: WriteOptions) -> (Id3v2Tag, Vec<u8>) {
    let mut t = Id3v2Tag::default();
    t.set_title(word());
    if nd::bool() { t.set_artist("y".repeat(1 + nd::below(300) as usize)) }
    let mut d = vec![];
    chk!(t.dump_to(&mut d, o).is_ok(), "dump: succeeds");
    (t, d)
}
#[cfg(not(kani))]
fn ape(o: WriteOptions) -> (ApeTag, Vec<u8>) {
    let mut t = ApeTag::default();
    t.set_title(word());
    if nd::bool() { t.set_artist("y".repeat(1 + nd::below(300) as usize)) }
    let mut d = vec![];
    chk!(t.dump_to(&mut d, o).is_ok(), "dump: succeeds");
    (t, d)
}
#[cfg(not(kani))]
fn v1() -> (Id3v1Tag, Vec<u8>) {
    let mut t = Id3v1Tag::default();
    t.title = Some("x".repeat(1 + nd::below(30) as usize));
    t.genre = Some(nd::u8() % 100);
    let mut d = vec![];
    chk!(t.dump_to(&mut d, WriteOptions::new()).is_ok(), "dump: succeeds");
    (t, d)
}

harnesses! {
    /// any combination of tags, any sequence of saves and removals
    native p25_saves {
        let o = WriteOptions::new().preferred_padding(match nd::below(3) { 0 => 0, 1 => 1 + nd::below(30) as u32, _ => 1024 });
        let mut f = Parts { audio: audio(), ..Parts::default() };
        if nd::below(3) != 0 {
            f.v2 = v2(o).1;
            if nd::below(3) == 0 { let n = 1 + nd::below(100) as usize; f.junk = noise(n) }
            else if nd::below(3) == 0 { f.lead = ape(o).1 }
        }
        if nd::below(3) != 0 {
            f.ape = ape(o).1;
            if nd::below(3) == 0 {
                // APEv1: a footer alone
                f.ape.drain(..32);
                let n = f.ape.len();
                f.ape[n - 24..n - 20].copy_from_slice(&1000u32.to_le_bytes());
                f.ape[n - 12..n - 8].copy_from_slice(&[0; 4]);
            }
        }
        if nd::below(3) == 0 {
            let n = nd::below(40) as usize;
            f.lyrics = b"LYRICSBEGIN".to_vec();
            f.lyrics.extend(noise(n));
            f.lyrics.extend(format!("{:06}", 11 + n).bytes());
            f.lyrics.extend(b"LYRICS200");
        }
        if nd::bool() { f.v1 = v1().1 }
        let mut c = Cursor::new(f.bytes());
        for _ in 0..1 + nd::below(4) {
            let before = f.clone();
            let removing = nd::below(3) == 0;
            c.set_position(0);
            let r = match nd::below(3) {
                0 => {
                    let (t, d) = v2(o);
                    if f.v2.is_empty() { f.audio = [&f.junk[..], &f.audio].concat(); f.junk.clear() }
                    f.v2 = if removing { vec![] } else { d };
                    if removing { TagType::Id3v2.remove_from(&mut c, o).is_ok() } else { t.save_to(&mut c, o).is_ok() }
                },
                1 => {
                    let (t, d) = ape(o);
                    f.lead.clear();
                    f.ape = if removing { vec![] } else { d };
                    if removing { TagType::Ape.remove_from(&mut c, o).is_ok() } else { t.save_to(&mut c, o).is_ok() }
                },
                _ => {
                    let (t, d) = v1();
                    f.v1 = if removing { vec![] } else { d };
                    if removing { TagType::Id3v1.remove_from(&mut c, o).is_ok() } else { t.save_to(&mut c, o).is_ok() }
                },
            };
            // the format cannot always be told with a leading APE tag or junk
            if !r { chk!(!before.lead.is_empty() || !before.junk.is_empty() || before.audio[0] != 0xFF, "saving succeeds"); f = before }
            else if !before.lead.is_empty() { reach!("a file with a leading APE tag") }
            else if !before.junk.is_empty() { reach!("a file with junk") }
            else if removing { reach!("a removed tag") } else { reach!("a saved tag") }
            chk!(*c.get_ref() == f.bytes(), "the tag is the new one, or gone, and all other bytes are as they were, in order");
        }
    }
}
