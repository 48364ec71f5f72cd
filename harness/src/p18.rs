//! P18: star ratings and play counters
use crate::{chk, nd, reach};
use lofty::tag::items::popularimeter::{DefaultRatingProvider, MusicBeeProvider, PicardProvider, RatingProvider, StarRating, WindowsMediaPlayerProvider};
use lofty::tag::TagType;
#[cfg(not(kani))]
use lofty::{config::WriteOptions, id3::v2::{Frame, FrameFlags, Id3v2Tag, PopularimeterFrame}, ogg::tag::VorbisComments, tag::{items::popularimeter::Popularimeter, ItemKey, ItemValue, Tag, TagItem}};

const STARS: [StarRating; 5] = [StarRating::One, StarRating::Two, StarRating::Three, StarRating::Four, StarRating::Five];
const TYPES: [TagType; 7] = [TagType::Ape, TagType::Id3v1, TagType::Id3v2, TagType::Mp4Ilst, TagType::VorbisComments, TagType::RiffInfo, TagType::AiffText];
fn stars(s: StarRating) -> u8 { match s { StarRating::One => 1, StarRating::Two => 2, StarRating::Three => 3, StarRating::Four => 4, StarRating::Five => 5 } }

/// what a provider owes for one tag type, two raw values and two ratings
fn contract(p: &dyn RatingProvider, t: TagType, a: u8, b: u8, s: StarRating, u: StarRating) {
    chk!(stars(p.convert_raw(t, p.rate(t, s))) == stars(s), "provider: a stored rating reads back as the same number of stars");
    chk!(a > b || stars(p.convert_raw(t, a)) <= stars(p.convert_raw(t, b)), "provider: more never reads as fewer stars");
    chk!(stars(s) >= stars(u) || p.rate(t, s) < p.rate(t, u), "provider: more stars are stored as a greater value");
}
fn provider(k: u64) -> &'static dyn RatingProvider {
    match k { 0 => &MusicBeeProvider, 1 => &WindowsMediaPlayerProvider, 2 => &PicardProvider, _ => &DefaultRatingProvider }
}

#[cfg(not(kani))]
fn email() -> String {
    match nd::below(8) {
        0 => "Windows Media Player 9 Series".into(),
        1 => "MusicBee".into(),
        2 => "users@musicbrainz.org".into(),
        3 => String::new(),
        4 => ["foo@example.com", "a|b@c.de", "|", "x||1|2", "UPPER@CASE", " sp ace "][nd::below(6) as usize].into(),
        _ => (0..1 + nd::below(12)).map(|_| char::from(nd::u8_of(b"abz@.|09 ~") % 95 + 32)).collect(),
    }
}
#[cfg(not(kani))]
fn counter() -> u64 { match nd::below(4) { 0 => nd::u8().into(), 1 => (1u64 << nd::below(64)).wrapping_sub(nd::below(3)), 2 => nd::u32_of(&[u32::MAX]).into(), _ => nd::u64_of(&[u64::MAX, 1 << 32]) } }
#[cfg(not(kani))]
fn same(p: &Popularimeter<'_>, email: &str, s: StarRating, counter: u64) -> bool { p.email().unwrap_or("") == email && p.rating() == s && p.play_counter == counter }
/// the provider an e-mail selects
#[cfg(not(kani))]
fn by_email(e: &str) -> &'static dyn RatingProvider { match e { "Windows Media Player 9 Series" => provider(1), "users@musicbrainz.org" => provider(2), _ => provider(0) } }

harnesses! {
    /// every provider, tag type, pair of raw values and pair of ratings
    proof p18_providers [unwind(8)] {
        let t = TYPES[nd::below(7) as usize];
        let (s, u) = (STARS[nd::below(5) as usize], STARS[nd::below(5) as usize]);
        contract(provider(nd::below(4)), t, nd::u8(), nd::u8(), s, u);
        reach!("a provider");
    }
    /// the same, all of them
    once p18_providers_all {
        for k in 0..4 { for t in TYPES { for s in STARS { for u in STARS { for a in 0..=255 {
            contract(provider(k), t, a, a.saturating_add(1), s, u);
        } } } } }
    }
    /// a frame: e-mail, rating, and a counter of at least four bytes
    native p18_frame {
        let (e, r, c) = (email(), nd::u8(), counter());
        let f = PopularimeterFrame::new(e.clone(), r, c);
        let Ok(v) = f.as_bytes(WriteOptions::default()) else { chk!(false, "frame: an e-mail in Latin-1 can be written"); return };
        let be = c.to_be_bytes();
        let skip = (c.leading_zeros() as usize / 8).min(4);
        let mut want = e.clone().into_bytes();
        want.extend([0, r]);
        want.extend(&be[skip..]);
        chk!(v == want, "frame: the bytes are e-mail, rating and counter");
        let got = PopularimeterFrame::parse(&mut &v[..], FrameFlags::default());
        chk!(matches!(&got, Ok(g) if g.email == e && g.rating == r && g.counter == c), "frame: what was written comes back");
        reach!("a frame");
    }
    /// any bytes: the meaning of a frame, or an error exactly when the rating is missing
    native p18_parse {
        let d: Vec<u8> = (0..nd::below(16)).map(|_| nd::u8_of(&[0, 0, 1, 97, 233, 255])).collect();
        let n = d.iter().position(|b| *b == 0).unwrap_or(d.len());
        let got = PopularimeterFrame::parse(&mut &d[..], FrameFlags::default());
        chk!(got.is_ok() == (n + 1 < d.len()), "parse: exactly the frames with a rating are read");
        if let Ok(g) = got {
            let c = &d[n + 2..];
            let value = if c.len() > 8 { u64::MAX } else { c.iter().fold(0, |x, b| x << 8 | u64::from(*b)) };
            let text: String = d[..n].iter().map(|b| char::from(*b)).collect();
            chk!(g.email == text && g.rating == d[n + 1] && g.counter == value, "parse: e-mail, rating and counter from their places");
            reach!("a frame");
        }
    }
    /// through an ID3v2 tag: provider, stars and counter survive
    native p18_id3v2 {
        let (e, s, c) = (email(), STARS[nd::below(5) as usize], counter());
        let mut t = Tag::new(TagType::Id3v2);
        t.insert_text(ItemKey::Popularimeter, format!("{e}|{}|{c}", stars(s)));
        let id3 = Id3v2Tag::from(t);
        let raw = id3.into_iter().find_map(|f| match f { Frame::Popularimeter(p) => Some(p), _ => None });
        chk!(raw.is_some(), "id3v2: a rating is kept");
        let Some(raw) = raw else { return };
        chk!(raw.email == e && raw.counter == c && raw.rating == by_email(&e).rate(TagType::Id3v2, s), "id3v2: e-mail, counter and the value of the provider");
        let mut id3 = Id3v2Tag::new();
        id3.insert(Frame::Popularimeter(raw));
        let t = Tag::from(id3);
        let all: Vec<_> = t.ratings().collect();
        chk!(all.len() == 1 && same(&all[0], &e, s, c), "id3v2: the rating comes back with as many stars");
        reach!("a rating");
    }
    /// through Vorbis comments: provider and stars survive
    native p18_vorbis {
        let (e, s) = (email(), STARS[nd::below(5) as usize]);
        let mut t = Tag::new(TagType::VorbisComments);
        t.push(TagItem::new(ItemKey::Popularimeter, ItemValue::Text(format!("{e}|{}|7", stars(s)))));
        let v = VorbisComments::from(t);
        let key_ok = e.bytes().all(|b| (0x20..=0x7D).contains(&b) && b != b'=');
        let key = if e.is_empty() { "RATING".to_string() } else { format!("RATING:{e}") };
        let items: Vec<_> = v.items().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        let want = if key_ok { vec![(key, by_email(&e).rate(TagType::VorbisComments, s).to_string())] } else { vec![] };
        chk!(items == want, "vorbis: the e-mail is in the key, the value is the provider's");
        if !key_ok { return }
        let t = Tag::from(v);
        let all: Vec<_> = t.ratings().collect();
        chk!(all.len() == 1 && same(&all[0], &e, s, 0), "vorbis: the rating comes back with as many stars");
        reach!("a rating");
    }
}
