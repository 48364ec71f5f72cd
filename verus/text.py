"""Text encodings: what is written for every text, what is read from every byte string, and that the one undoes the other."""
F = 'lofty/src/util/text.rs'
ASSUMED = ['UTF-8 as in std: String::from_utf8 accepts exactly the encodings of texts, two texts never have the same encoding, and only U+0000 is encoded with a zero byte', 'std: encode_utf16 and String::from_utf16 are the UTF-16 of the Unicode standard (spelled out here as u16s)', 'std: char_indices, chars, chunks_exact, collect and trim_end_matches', 'std::io::Read: read_u8 takes the next byte or reports the end, read_to_end the rest']
DROPS = ['what an error says beyond its kind', 'the byte order passed as a function is passed as a flag', 'iterator chains are loops over the same closure bodies']
SUB_BO = [('re:\\bu16::(?:to|from)_be_bytes', 'true', '*'), ('re:\\bu16::(?:to|from)_le_bytes', 'false', '*'), ('re:\\bu16::to_ne_bytes', 'native_is_big()', '*')]
SIG = [('re:', '')]
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Clone, Copy)]
pub enum TextEncoding { Latin1, UTF16, UTF16BE, UTF8 }
#[derive(Clone, Copy)]
pub struct TextEncodingError { pub encoding: TextEncoding, pub valid_up_to: usize }
pub struct TextDecodingError { pub bad_length: bool }
impl TextDecodingError {
    fn utf16_bad_bom() -> (r: TextDecodingError) { TextDecodingError { bad_length: false } }
    fn utf16_bad_length() -> (r: TextDecodingError) { TextDecodingError { bad_length: true } }
    fn utf16_odd_length() -> (r: TextDecodingError) { TextDecodingError { bad_length: true } }
    fn io() -> (r: TextDecodingError) { TextDecodingError { bad_length: false } }
}
/// a text
pub struct Str { pub v: Ghost<Seq<char>> }
pub open spec fn one_len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// its length in UTF-8
pub open spec fn len8(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { len8(s.drop_last()) + one_len(s.last()) } }
impl Str {
    #[verifier::external_body]
    fn new() -> (r: Str) ensures r.v@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn chars(&self) -> (r: usize) ensures r == self.v@.len(), r < 0x7FFF_FFFF_FFFF_FFFF { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, k: usize) -> (r: char) requires k < self.v@.len(), ensures r == self.v@[k as int] { unimplemented!() }
    /// of char_indices
    #[verifier::external_body]
    fn index(&self, k: usize) -> (r: usize) requires k < self.v@.len(), ensures r == len8(self.v@.take(k as int)) { unimplemented!() }
}
/// UTF-16, for one character and for all of them
pub open spec fn cw(c: char) -> Seq<u16> { let n = c as u32 as int; if n < 0x10000 { seq![n as u16] } else { seq![(0xD800 + (n - 0x10000) / 0x400) as u16, (0xDC00 + (n - 0x10000) % 0x400) as u16] } }
pub open spec fn u16s(s: Seq<char>) -> Seq<u16> decreases s.len() { if s.len() == 0 { seq![] } else { cw(s[0]) + u16s(s.skip(1)) } }
#[verifier::external_body]
fn encode_utf16(t: &Str) -> (r: Vec<u16>) ensures r@ == u16s(t.v@) { unimplemented!() }
#[verifier::external_body]
fn from_utf16(w: &[u16]) -> (r: Result<Str, TextDecodingError>) ensures r matches Ok(t) ==> u16s(t.v@) == w@, r is Err ==> forall|s: Seq<char>| u16s(s) != w@ { unimplemented!() }
/// UTF-8
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn utf8_facts(s: Seq<char>, t: Seq<char>) ensures utf8(s) == utf8(t) ==> s == t, (exists|i: int| 0 <= i < utf8(s).len() && utf8(s)[i] == 0) ==> exists|i: int| 0 <= i < s.len() && s[i] as u32 == 0, utf8(s).len() == 0 <==> s.len() == 0 {}
#[verifier::external_body]
fn utf8_bytes(t: &Str) -> (r: Vec<u8>) ensures r@ == utf8(t.v@) { unimplemented!() }
#[verifier::external_body]
fn from_utf8(b: Vec<u8>) -> (r: Result<Str, TextDecodingError>) ensures r matches Ok(t) ==> utf8(t.v@) == b@, r is Err ==> forall|s: Seq<char>| utf8(s) != b@ { unimplemented!() }
/// Latin-1
pub open spec fn expressible(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 255 }
pub open spec fn latin(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| if s[i] as u32 <= 255 { s[i] as u8 } else { 0x3Fu8 }) }
pub open spec fn unlatin(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
#[verifier::external_body]
fn chars_of(b: &[u8]) -> (r: Str) ensures r.v@ == unlatin(b@) { unimplemented!() }
/// without the NULs at the end
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() as u32 == 0 { trimmed(s.drop_last()) } else { s } }
#[verifier::external_body]
fn trim_end_nulls(t: &mut Str) ensures final(t).v@ == trimmed(old(t).v@) { unimplemented!() }
#[verifier::external_body]
fn collect(items: Vec<Result<u8, TextEncodingError>>) -> (r: Result<Vec<u8>, TextEncodingError>)
   ensures r is Ok <==> (forall|i: int| 0 <= i < items@.len() ==> items@[i] is Ok),
      r matches Ok(v) ==> v@.len() == items@.len() && forall|i: int| 0 <= i < items@.len() ==> items@[i] == Ok::<u8, TextEncodingError>(#[trigger] v@[i]),
      r matches Err(e) ==> exists|i: int| 0 <= i < items@.len() && items@[i] == Err::<u8, TextEncodingError>(e) && forall|j: int| 0 <= j < i ==> items@[j] is Ok { unimplemented!() }
/// two bytes of a word
pub open spec fn two(w: u16, big: bool) -> Seq<u8> { if big { seq![(w / 256) as u8, (w % 256) as u8] } else { seq![(w % 256) as u8, (w / 256) as u8] } }
pub open spec fn word_of(a: u8, b: u8, big: bool) -> u16 { if big { (a * 256 + b) as u16 } else { (b * 256 + a) as u16 } }
fn to_bytes(big: bool, w: u16) -> (r: [u8; 2]) ensures r@ == two(w, big) { let r = if big { [(w / 256) as u8, (w % 256) as u8] } else { [(w % 256) as u8, (w / 256) as u8] }; assert(r@ =~= two(w, big)); r }
fn from_bytes(big: bool, c: [u8; 2]) -> (r: u16) ensures r == word_of(c@[0], c@[1], big) { if big { c[0] as u16 * 256 + c[1] as u16 } else { c[1] as u16 * 256 + c[0] as u16 } }
pub uninterp spec fn big_here() -> bool;
#[verifier::external_body]
fn native_is_big() -> (r: bool) ensures r == big_here() { cfg!(target_endian = "big") }
#[verifier::external_body]
fn extend(v: &mut Vec<u8>, w: &[u8]) ensures final(v)@ == old(v)@ + w@ { v.extend_from_slice(w) }
pub open spec fn enc16(w: Seq<u16>, big: bool) -> Seq<u8> decreases w.len() { if w.len() == 0 { seq![] } else { two(w[0], big) + enc16(w.skip(1), big) } }
pub proof fn enc16_push(w: Seq<u16>, x: u16, big: bool) ensures enc16(w.push(x), big) == enc16(w, big) + two(x, big) decreases w.len() {
    if w.len() == 0 { let y = w.push(x); assert(y.skip(1) =~= seq![]); assert(y[0] == x); reveal_with_fuel(enc16, 2); assert(enc16(y.skip(1), big) =~= seq![]); assert(enc16(y, big) =~= two(x, big)); assert(enc16(w, big) + two(x, big) =~= two(x, big)); }
    else { enc16_push(w.skip(1), x, big); assert(w.push(x).skip(1) =~= w.skip(1).push(x)); assert(enc16(w.push(x), big) =~= enc16(w, big) + two(x, big)); }
}
pub open spec fn end(terminated: bool, n: nat) -> Seq<u8> { if terminated { Seq::new(n, |i: int| 0u8) } else { seq![] } }
/// what is written for a text
pub open spec fn encoded(e: TextEncoding, s: Seq<char>, terminated: bool) -> Seq<u8> {
    match e {
        TextEncoding::Latin1 => latin(s) + end(terminated, 1),
        TextEncoding::UTF16 => two(0xFEFF, big_here()) + enc16(u16s(s), big_here()) + end(terminated, 2),
        TextEncoding::UTF16BE => enc16(u16s(s), true) + end(terminated, 2),
        TextEncoding::UTF8 => utf8(s) + end(terminated, 1),
    }
}
/// the words in the bytes, without the byte order mark at the start of each string
pub open spec fn bom2(a: u8, b: u8) -> bool { (a == 0xFF && b == 0xFE) || (a == 0xFE && b == 0xFF) }
fn is_bom2(c: [u8; 2]) -> (r: bool) ensures r == bom2(c@[0], c@[1]) { (c[0] == 0xFF && c[1] == 0xFE) || (c[0] == 0xFE && c[1] == 0xFF) }
fn is_zero2(c: [u8; 2]) -> (r: bool) ensures r == (c@[0] == 0 && c@[1] == 0) { c[0] == 0 && c[1] == 0 }
pub open spec fn dw(b: Seq<u8>, big: bool, start: bool) -> Seq<u16> decreases b.len() {
    if b.len() < 2 { seq![] } else if start && bom2(b[0], b[1]) { dw(b.skip(2), big, false) } else { seq![word_of(b[0], b[1], big)] + dw(b.skip(2), big, b[0] == 0 && b[1] == 0) }
}
pub struct Reader { pub data: Ghost<Seq<u8>>, pub faulty: bool }
impl Reader {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, ()>)
        ensures final(self).faulty == old(self).faulty, r matches Ok(b) ==> old(self).data@.len() > 0 && b == old(self).data@[0] && final(self).data@ == old(self).data@.skip(1), r is Err ==> final(self).data == old(self).data && (old(self).faulty || old(self).data@.len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, ()>)
        ensures r is Err ==> old(self).faulty, final(self).faulty == old(self).faulty, r is Ok ==> final(v)@ == old(v)@ + old(self).data@ && final(self).data@.len() == 0
    { unimplemented!() }
}
/// where the text ends: at the first zero, at the first zero word, or at the end of the data
pub open spec fn end1(d: Seq<u8>) -> int decreases d.len() { if d.len() == 0 || d[0] == 0 { 0 } else { 1 + end1(d.skip(1)) } }
pub open spec fn end2(d: Seq<u8>) -> int decreases d.len() { if d.len() < 2 || (d[0] == 0 && d[1] == 0) { 0 } else { 2 + end2(d.skip(2)) } }
pub open spec fn wide(e: TextEncoding) -> bool { e is UTF16 || e is UTF16BE }
pub open spec fn text_end(e: TextEncoding, d: Seq<u8>) -> int { if wide(e) { end2(d) } else { end1(d) } }
pub open spec fn term_len(e: TextEncoding, d: Seq<u8>) -> int { let k = text_end(e, d); if wide(e) { if d.len() - k >= 2 { 2 } else { 0 } } else { if k < d.len() { 1 } else { 0 } } }
pub proof fn ends(d: Seq<u8>) ensures 0 <= end1(d) <= d.len(), 0 <= end2(d) <= d.len(), end1(d) < d.len() ==> d[end1(d)] == 0, d.len() - end2(d) >= 2 ==> d[end2(d)] == 0 && d[end2(d) + 1] == 0, end2(d) % 2 == 0 decreases d.len() {
    if d.len() > 0 { ends(d.skip(1)); } if d.len() >= 2 { ends(d.skip(2)); }
}
pub struct DecodeTextResult { pub content: Str, pub bytes_read: usize, pub bom: [u8; 2] }
fn nothing(n: usize) -> (r: DecodeTextResult) ensures r.content.v@.len() == 0, r.bytes_read == n, r.bom@ == seq![0u8, 0] { let b = [0u8, 0u8]; assert(b@ =~= seq![0u8, 0]); DecodeTextResult { content: Str::new(), bytes_read: n, bom: b } }
#[derive(Clone, Copy)]
pub struct TextDecodeOptions { pub encoding: TextEncoding, pub terminated: bool, pub bom: [u8; 2] }
fn pair(a: u8, b: u8) -> (r: [u8; 2]) ensures r@ == seq![a, b] { let r = [a, b]; assert(r@ =~= seq![a, b]); r }
fn same2(a: [u8; 2], x: u8, y: u8) -> (r: bool) ensures r == (a@[0] == x && a@[1] == y) { a[0] == x && a[1] == y }
fn starts(v: &Vec<u8>, x: u8, y: u8) -> (r: bool) ensures r == (v@.len() >= 2 && v@[0] == x && v@[1] == y) { v.len() >= 2 && v[0] == x && v[1] == y }
/// the byte order mark that counts
pub open spec fn mark(raw: Seq<u8>, given: Seq<u8>) -> Seq<u8> { if given[0] == 0 && given[1] == 0 { raw.take(2) } else { given } }
/// whether the bytes are a text of the encoding, and which
pub open spec fn is_text16(raw: Seq<u8>, big: bool, s: Seq<char>) -> bool { exists|t: Seq<char>| #[trigger] u16s(t) == dw(raw, big, true) && s == trimmed(t) }
pub open spec fn means(e: TextEncoding, raw: Seq<u8>, given: Seq<u8>, s: Seq<char>) -> bool {
    match e {
        TextEncoding::Latin1 => s == trimmed(unlatin(raw)),
        TextEncoding::UTF16 => raw.len() >= 2 && raw.len() % 2 == 0 && bom2(mark(raw, given)[0], mark(raw, given)[1]) && is_text16(raw, mark(raw, given)[0] == 0xFE, s),
        TextEncoding::UTF16BE => is_text16(raw, true, s),
        TextEncoding::UTF8 => exists|t: Seq<char>| #[trigger] utf8(t) == raw && s == trimmed(t),
    }
}
pub open spec fn decodable16(raw: Seq<u8>, big: bool) -> bool { exists|t: Seq<char>| #[trigger] u16s(t) == dw(raw, big, true) }
pub open spec fn decodable(e: TextEncoding, raw: Seq<u8>, given: Seq<u8>) -> bool {
    match e {
        TextEncoding::Latin1 => true,
        TextEncoding::UTF16 => raw.len() >= 2 && raw.len() % 2 == 0 && bom2(mark(raw, given)[0], mark(raw, given)[1]) && decodable16(raw, mark(raw, given)[0] == 0xFE),
        TextEncoding::UTF16BE => decodable16(raw, true),
        TextEncoding::UTF8 => exists|t: Seq<char>| #[trigger] utf8(t) == raw,
    }
}
''',
Fn(F, 'latin1_encode', sig=[('&str', '&Str'), ('impl Iterator<Item = Result<u8, TextEncodingError>>', 'Vec<Result<u8, TextEncodingError>>')],
   spec='''ensures r@.len() == s.v@.len(),
     forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == item_of(s.v@, lossy, i),''',
   subs=[('re:\\A\\{\\s*s\\.char_indices\\(\\)\\.map\\(move \\|\\((\\w+), (\\w+)\\)\\| \\{(.*)\\}\\)\\s*\\}\\Z', r'{ let mut out__: Vec<Result<u8, TextEncodingError>> = Vec::new(); let mut k__: usize = 0; let n__ = s.chars(); while k__ < n__ { let \1 = s.index(k__); let \2 = s.at(k__); let item__ = {\3}; out__.push(item__); k__ = k__ + 1; } out__ }'),
     ("b'?'", '0x3Fu8')],
   loops=['''invariant k__ <= n__, n__ == s.v@.len(), out__@.len() == k__, s.v@.len() < 0x7FFF_FFFF_FFFF_FFFF,
     forall|i: int| 0 <= i < out__@.len() ==> (#[trigger] out__@[i]) == item_of(s.v@, lossy, i),
     decreases s.v@.len() - k__,''']),
Fn(F, 'utf16_encode', sig=[('&str', '&Str'), ('fn(u16) -> [u8; 2]', 'bool')],
   spec='''ensures r@ == (if bom { two(0xFEFF, endianness) } else { seq![] }) + enc16(u16s(text.v@), endianness) + end(terminated, 2),''',
   subs=[('re:encoded\\.extend_from_slice\\(&endianness\\(([^()]*)\\)\\)', r'extend(&mut encoded, &to_bytes(endianness, \1))', '*'), ('encoded.extend_from_slice(&[0, 0])', 'extend(&mut encoded, &pair(0, 0))'),
     ('for ch in text.encode_utf16() {', 'let ws__ = encode_utf16(text); let mut k__: usize = 0; while k__ < ws__.len() { let ch = ws__[k__]; k__ = k__ + 1;')],
   loops=['''invariant k__ <= ws__@.len(), ws__@ == u16s(text.v@), encoded@ == head + enc16(ws__@.take(k__ as int), endianness), decreases ws__@.len() - k__,'''],
   ins=[('before', 'let ws__ =', 'let ghost head = encoded@; proof { assert(head =~= (if bom { two(0xFEFF, endianness) } else { seq![] })); }'),
     ('before', 'while k__', 'proof { assert(ws__@.take(0) =~= seq![]); assert(head + enc16(ws__@.take(0), endianness) =~= head); }'),
     ('after', 'k__ = k__ + 1;', 'proof { enc16_push(ws__@.take(k__ - 1), ch, endianness); assert(ws__@.take(k__ - 1).push(ch) =~= ws__@.take(k__ as int)); assert(head + (enc16(ws__@.take(k__ - 1), endianness) + two(ch, endianness)) =~= head + enc16(ws__@.take(k__ - 1), endianness) + two(ch, endianness)); }'),
     ('before', 'if terminated', 'proof { assert(ws__@.take(ws__@.len() as int) =~= ws__@); assert(seq![0u8, 0] =~= end(true, 2)); assert(encoded@ + end(false, 2) =~= encoded@); }')]),
'impl TextEncoding {\n',
Fn(F, 'encode', impl='impl TextEncoding', sig=[('&str', '&Str')],
   spec='''ensures r is Ok <==> (self is Latin1 && !lossy ==> expressible(text.v@)),
     r matches Ok(v) ==> v@ == encoded(self, text.v@, terminated),
     r matches Err(e) ==> e.encoding is Latin1 && exists|i: int| 0 <= i < text.v@.len() && text.v@[i] as u32 > 255 && expressible(text.v@.take(i)) && #[trigger] len8(text.v@.take(i)) as usize == e.valid_up_to,''',
   subs=[('re:latin1_encode\\(text, lossy\\)\\.collect::<Result<Vec<u8>, _>>\\(\\)\\?', '{ let its__ = latin1_encode(text, lossy); let ghost gi = its__@; match collect(its__) { Ok(v) => { proof { all_fine(gi, text.v@, lossy, v@); } v } Err(e) => { proof { first_bad(gi, text.v@, lossy, e); } return Err(e) } } }'),
     ('text.as_bytes().to_vec()', 'utf8_bytes(text)')] + SUB_BO,
   ins=[('before', 'Ok(out)', '')] if False else []),
'''}
pub open spec fn item_of(s: Seq<char>, lossy: bool, i: int) -> Result<u8, TextEncodingError> { if s[i] as u32 <= 255 || lossy { Ok(latin(s)[i]) } else { Err(TextEncodingError { encoding: TextEncoding::Latin1, valid_up_to: len8(s.take(i)) as usize }) } }
pub proof fn all_fine(items: Seq<Result<u8, TextEncodingError>>, s: Seq<char>, lossy: bool, v: Seq<u8>)
   requires items.len() == s.len(), v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] items[i] == item_of(s, lossy, i), forall|i: int| 0 <= i < s.len() ==> items[i] == Ok::<u8, TextEncodingError>(#[trigger] v[i])
   ensures lossy || expressible(s), v == latin(s), v + end(false, 1) == latin(s) + end(false, 1), v.push(0) == latin(s) + end(true, 1)
{
   assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 255 || lossy by { assert(items[i] == item_of(s, lossy, i)); assert(items[i] == Ok::<u8, TextEncodingError>(v[i])); }
   assert(v =~= latin(s)) by { assert forall|i: int| 0 <= i < s.len() implies v[i] == latin(s)[i] by { assert(items[i] == item_of(s, lossy, i)); } }
   assert(v.push(0) =~= latin(s) + end(true, 1));
}
pub proof fn first_bad(items: Seq<Result<u8, TextEncodingError>>, s: Seq<char>, lossy: bool, e: TextEncodingError)
   requires items.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] items[i] == item_of(s, lossy, i), exists|i: int| 0 <= i < items.len() && items[i] == Err::<u8, TextEncodingError>(e) && forall|j: int| 0 <= j < i ==> items[j] is Ok
   ensures !lossy && !expressible(s), e.encoding is Latin1, exists|i: int| 0 <= i < s.len() && s[i] as u32 > 255 && expressible(s.take(i)) && #[trigger] len8(s.take(i)) as usize == e.valid_up_to
{
   let i = choose|i: int| 0 <= i < items.len() && items[i] == Err::<u8, TextEncodingError>(e) && forall|j: int| 0 <= j < i ==> items[j] is Ok;
   assert(items[i] == item_of(s, lossy, i));
   assert(s[i] as u32 > 255 && !lossy);
   assert forall|j: int| 0 <= j < i implies (#[trigger] s.take(i)[j]) as u32 <= 255 by { assert(items[j] == item_of(s, lossy, j)); assert(items[j] is Ok); }
   assert(expressible(s.take(i)));
   assert(len8(s.take(i)) as usize == e.valid_up_to);
}

''',
Fn(F, 'read_to_terminator', sig=[('<R>', ''), ('&mut R,', '&mut Reader,'), ('where R: Read,', '')],
   spec='''requires old(reader).data@.len() <= 0x3FFF_FFFF_FFFF_FFFF,
     ensures final(reader).faulty == old(reader).faulty,
     !old(reader).faulty ==> ({ let d = old(reader).data@; let k = text_end(encoding, d); r.0@ == d.take(k) && r.1 == term_len(encoding, d) && (r.1 > 0 ==> final(reader).data@ == d.skip(k + r.1)) && (r.1 == 0 ==> final(reader).data@.len() == 0) }),
     r.1 <= 2, r.0@.len() <= old(reader).data@.len(), wide(encoding) ==> r.0@.len() % 2 == 0,''',
   subs=[('let mut text_bytes = Vec::new();', 'let mut text_bytes: Vec<u8> = Vec::new();'), ('let mut terminator_len = 0;', 'let mut terminator_len: usize = 0;'),
     ('while let Ok(byte) = reader.read_u8() {', 'loop { let byte = match reader.read_u8() { Ok(byte) => byte, _ => break };'),
     ('while let (Ok(b1), Ok(b2)) = (reader.read_u8(), reader.read_u8()) {', 'loop { let one__ = reader.read_u8(); let two__ = reader.read_u8(); let (b1, b2) = match (one__, two__) { (Ok(b1), Ok(b2)) => (b1, b2), _ => break };')],
   loops=['''invariant_except_break terminator_len == 0, !reader.faulty ==> end1(d) == text_bytes@.len() + end1(reader.data@) && d == text_bytes@ + reader.data@,
       text_bytes@.len() + reader.data@.len() <= d.len(),
     invariant d == old(reader).data@, reader.faulty == old(reader).faulty,
     ensures terminator_len <= 1, text_bytes@.len() <= d.len(), !reader.faulty ==> text_bytes@ == d.take(end1(d)) && terminator_len == (if end1(d) < d.len() { 1int } else { 0 }) && reader.data@ == d.skip(end1(d) + terminator_len),
     decreases reader.data@.len(),''',
     '''invariant_except_break terminator_len == 0, !reader.faulty ==> end2(d) == text_bytes@.len() + end2(reader.data@) && d == text_bytes@ + reader.data@,
       text_bytes@.len() + reader.data@.len() <= d.len(),
     invariant d == old(reader).data@, reader.faulty == old(reader).faulty, text_bytes@.len() % 2 == 0,
     ensures terminator_len == 0 || terminator_len == 2, text_bytes@.len() <= d.len(), !reader.faulty ==> text_bytes@ == d.take(end2(d)) && terminator_len == (if d.len() - end2(d) >= 2 { 2int } else { 0 }) && (terminator_len == 2 ==> reader.data@ == d.skip(end2(d) + 2)) && (terminator_len == 0 ==> reader.data@.len() == 0),
     decreases reader.data@.len(),'''],
   ins=[('start', '', 'let ghost d = reader.data@; proof { ends(d); }'),
     ('before', 'let byte = match', 'let ghost r0 = reader.data@; proof { ends(r0); if !reader.faulty { assert(d.take(text_bytes@.len() as int) =~= text_bytes@); assert(d.skip(text_bytes@.len() as int) =~= r0); } }'),
     ('before', 'let one__ =', 'let ghost r0 = reader.data@; proof { ends(r0); if !reader.faulty { assert(d.take(text_bytes@.len() as int) =~= text_bytes@); assert(d.skip(text_bytes@.len() as int) =~= r0); } }'),
     ('after', '_ => break }; if byte', '') ][:3] + [
     ('after', 'terminator_len = 1;', 'proof { if !reader.faulty { assert(reader.data@ =~= d.skip(end1(d) + 1)); } }'),
     ('after', 'terminator_len = 2;', 'proof { if !reader.faulty { assert(r0.skip(1).skip(1) =~= r0.skip(2)); assert(reader.data@ =~= d.skip(end2(d) + 2)); } }'),
     ('before', 'text_bytes.push(byte)', 'proof { if !reader.faulty { assert(d =~= text_bytes@.push(byte) + reader.data@); } }'),
     ('before', 'text_bytes.push(b1)', 'proof { if !reader.faulty { assert(r0.skip(1).skip(1) =~= r0.skip(2)); assert(d =~= text_bytes@.push(b1).push(b2) + reader.data@); } }'),
   ]),
Fn(F, 'latin1_decode', sig=[('String', 'Str')], spec='ensures r.v@ == trimmed(unlatin(bytes@)),', subs=[('bytes.iter().map(|c| *c as char).collect::<String>()', 'chars_of(bytes)')]),
Fn(F, 'utf8_decode', sig=[('String', 'Str')], spec='ensures r is Ok <==> (exists|t: Seq<char>| utf8(t) == bytes@), r matches Ok(s) ==> exists|t: Seq<char>| #[trigger] utf8(t) == bytes@ && s.v@ == trimmed(t),',
   subs=[('re:String::from_utf8\\((\\w+)\\)\\s*\\.map\\(\\|mut text\\| \\{(.*?)\\}\\)\\s*\\.map_err\\(Into::into\\)', r'match from_utf8(\1) { Ok(mut text) => { let ghost t0 = text.v@; proof { assert(utf8(t0) == bytes@); } Ok({\2}) }, Err(e) => Err(e) }')]),
Fn(F, 'utf16_decode', sig=[('String', 'Str')], spec='ensures r is Ok <==> (exists|t: Seq<char>| u16s(t) == words_in@), r matches Ok(s) ==> exists|t: Seq<char>| #[trigger] u16s(t) == words_in@ && s.v@ == trimmed(t),'.replace("words_in", "words"),
   subs=[('re:String::from_utf16\\((\\w+)\\)\\s*\\.map\\(\\|mut text\\| \\{(.*?)\\}\\)\\s*\\.map_err\\(Into::into\\)', r'match from_utf16(\1) { Ok(mut text) => { let ghost t0 = text.v@; proof { assert(u16s(t0) == words@); } Ok({\2}) }, Err(e) => Err(e) }')]),
Fn(F, 'utf16_decode_bytes', sig=[('String', 'Str'), ('fn([u8; 2]) -> u16', 'bool')],
   spec='ensures r is Ok <==> decodable16(bytes@, endianness), r matches Ok(s) ==> is_text16(bytes@, endianness, s.v@),',
   subs=[('String::new()', 'Str::new()'),
     ('re:let unverified: Vec<u16> = bytes\\s*\\.chunks_exact\\(2\\)\\s*\\.filter_map\\(\\|c\\| \\{(.*)\\}\\)\\s*\\.collect\\(\\);', r'let mut unverified: Vec<u16> = Vec::new(); let mut k__: usize = 0; while bytes.len() - k__ >= 2 { let c = pair(bytes[k__], bytes[k__ + 1]); k__ = k__ + 2; let item__ = {\1}; if let Some(w) = item__ { unverified.push(w); } }'),
     ('matches!(c, [0xFF, 0xFE] | [0xFE, 0xFF])', 'is_bom2(c)'), ('c == [0, 0]', 'is_zero2(c)'), ('(!is_bom).then(|| endianness(c.try_into().unwrap()))', 'if !is_bom { Some(from_bytes(endianness, c)) } else { None }')],
   loops=['''invariant k__ <= bytes@.len(), unverified@ + dw(bytes@.skip(k__ as int), endianness, string_start) == dw(bytes@, endianness, true), decreases bytes@.len() - k__,'''],
   ins=[('before', 'return Ok(Str::new());', 'proof { let e = Seq::<char>::empty(); assert(u16s(e) =~= dw(bytes@, endianness, true)); assert(trimmed(e) =~= e); }'),
     ('before', 'while bytes.len()', 'proof { assert(bytes@.skip(0) =~= bytes@); assert(unverified@ + dw(bytes@, endianness, true) =~= dw(bytes@, endianness, true)); }'),
     ('after', 'k__ = k__ + 2;', 'let ghost u0 = unverified@; let ghost s0 = string_start; let ghost b0 = bytes@.skip(k__ - 2); proof { assert(b0.skip(2) =~= bytes@.skip(k__ as int)); assert(b0[0] == bytes@[k__ - 2] && b0[1] == bytes@[k__ - 1]); }'),
     ('after', 'if let Some(w) = item__ { unverified.push(w); }', 'proof { assert(unverified@ + dw(bytes@.skip(k__ as int), endianness, string_start) =~= u0 + dw(b0, endianness, s0)); }'),
     ('before', 'utf16_decode(', 'proof { assert(dw(bytes@.skip(k__ as int), endianness, string_start) =~= seq![]); assert(unverified@ =~= dw(bytes@, endianness, true)); }')]),
Fn(F, 'decode_text', sig=[('<R>', ''), ('&mut R,', '&mut Reader,'), ('where R: Read,', '')],
   spec='''requires old(reader).data@.len() <= 0x3FFF_FFFF_FFFF_FFFF,
     ensures !old(reader).faulty ==> ({
       let d = old(reader).data@; let e = options.encoding;
       let raw = if options.terminated { d.take(text_end(e, d)) } else { d };
       let n = if options.terminated { raw.len() + term_len(e, d) } else { d.len() as int };
       &&& r matches Ok(x) ==> x.bytes_read == n
       &&& raw.len() == 0 ==> (r matches Ok(x) && x.content.v@.len() == 0)
       &&& raw.len() > 0 ==> (r is Ok <==> decodable(e, raw, options.bom@))
       &&& raw.len() > 0 ==> (r matches Ok(x) ==> means(e, raw, options.bom@, x.content.v@) && (e is UTF16 ==> x.bom@ == mark(raw, options.bom@)))
       &&& options.terminated && term_len(e, d) > 0 ==> final(reader).data@ == d.skip(n)
       &&& (options.terminated && term_len(e, d) == 0) || !options.terminated ==> final(reader).data@.len() == 0
     }),''',
   subs=[('re:return Ok\\(DecodeTextResult \\{\\s*bytes_read: (\\w+),\\s*\\.\\.DecodeTextResult::default\\(\\)\\s*\\}\\)', r'return Ok(nothing(\1))'), ('return Ok(DecodeTextResult::default())', 'return Ok(nothing(0))'),
     ('let mut bytes = Vec::new();', 'let mut bytes: Vec<u8> = Vec::new();'),
     ('re:reader\\s*\\.read_to_end\\(&mut bytes\\)\\s*\\.map_err\\(\\|e\\| TextDecodingError \\{.*?\\}\\)\\?;', 'match reader.read_to_end(&mut bytes) { Ok(_) => (), Err(_) => return Err(TextDecodingError::io()) };'),
     ('bytes.is_empty()', 'bytes.len() == 0', 2), ('let mut bom = [0, 0];', 'let mut bom = pair(0, 0);'), ('options.bom == [0, 0]', 'same2(options.bom, 0, 0)'),
     ('bom = [raw_bytes[0], raw_bytes[1]];', 'bom = pair(raw_bytes[0], raw_bytes[1]);'),
     ('re:match bom \\{\\s*\\[(\\w+), (\\w+)\\] => (.*?),\\s*\\[(\\w+), (\\w+)\\] => (.*?),\\s*_ => (.*?),\\s*\\}', r'if same2(bom, \1, \2) { \3 } else if same2(bom, \4, \5) { \6 } else { \7 }'),
     ] + SUB_BO,
   ins=[('start', '', 'let ghost d = reader.data@; proof { ends(d); }')]),
Fn(F, 'utf16_decode_terminated_maybe_bom', sig=[('<R>', ''), ('&mut R,', '&mut Reader,'), ('where R: Read,', ''), ('fn([u8; 2]) -> u16', 'bool'), ('String', 'Str')],
   spec='''requires old(reader).data@.len() <= 0x3FFF_FFFF_FFFF_FFFF,
     ensures !old(reader).faulty ==> ({
       let d = old(reader).data@; let raw = d.take(end2(d));
       let big = if raw.len() >= 2 && bom2(raw[0], raw[1]) { raw[0] == 0xFE } else { endianness };
       &&& r is Ok <==> decodable16(raw, big)
       &&& r matches Ok(x) ==> is_text16(raw, big, x.0.v@) && x.1 == raw.len() + term_len(TextEncoding::UTF16, d)
       &&& term_len(TextEncoding::UTF16, d) > 0 ==> final(reader).data@ == d.skip(end2(d) + 2)
       &&& term_len(TextEncoding::UTF16, d) == 0 ==> final(reader).data@.len() == 0
     }),''',
   subs=[('re:match &\\*raw_text \\{\\s*\\[(\\w+), (\\w+), \\.\\.\\] => decoded = (.*?),\\s*\\[(\\w+), (\\w+), \\.\\.\\] => decoded = (.*?),\\s*_ => decoded = (.*?),\\s*\\}', r'if starts(&raw_text, \1, \2) { decoded = \3; } else if starts(&raw_text, \4, \5) { decoded = \6; } else { decoded = \7; }'),
     ('decoded.map(|d| (d, bytes_read))', 'match decoded { Ok(d) => Ok((d, bytes_read)), Err(e) => Err(e) }')] + SUB_BO,
   ins=[('start', '', 'let ghost d = reader.data@; proof { ends(d); }')]),
'''
pub open spec fn nul_free(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 != 0 }
pub open spec fn nonzero(w: Seq<u16>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) != 0 }
pub proof fn trimmed_same(s: Seq<char>) ensures nul_free(s) ==> trimmed(s) == s { if s.len() > 0 { let c = s[s.len() - 1]; assert(s.last() == c); } }
/// UTF-16 tells any two texts apart
pub proof fn u16s_inj(a: Seq<char>, b: Seq<char>) requires u16s(a) == u16s(b), ensures a == b decreases a.len() {
    let x = u16s(a);
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { assert(x.len() == cw(a[0]).len() + u16s(a.skip(1)).len()); }
        if b.len() > 0 { assert(x.len() == cw(b[0]).len() + u16s(b.skip(1)).len()); }
        assert(a =~= b);
    } else {
        let ca = cw(a[0]); let cb = cw(b[0]);
        assert(x[0] == ca[0] && x[0] == cb[0]);
        let na = a[0] as u32 as int; let nb = b[0] as u32 as int;
        assert(na < 0xD800 || 0xE000 <= na <= 0x10FFFF); assert(nb < 0xD800 || 0xE000 <= nb <= 0x10FFFF);
        if na >= 0x10000 { assert(x[1] == ca[1]); }
        if nb >= 0x10000 { assert(x[1] == cb[1]); }
        assert(na == nb);
        assert(a[0] == b[0]);
        assert(x.skip(ca.len() as int) =~= u16s(a.skip(1))); assert(x.skip(cb.len() as int) =~= u16s(b.skip(1)));
        u16s_inj(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    }
}
pub proof fn u16s_nonzero(s: Seq<char>) requires nul_free(s), ensures nonzero(u16s(s)), s.len() > 0 ==> u16s(s).len() > 0 && u16s(s)[0] == cw(s[0])[0] decreases s.len() {
    if s.len() > 0 {
        assert(nul_free(s.skip(1))) by { assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.skip(1)[i]) as u32 != 0 by { assert(s[i + 1] as u32 != 0); } }
        u16s_nonzero(s.skip(1));
        let c = cw(s[0]); let r = u16s(s.skip(1));
        assert(s[0] as u32 != 0);
        assert forall|i: int| 0 <= i < u16s(s).len() implies (#[trigger] u16s(s)[i]) != 0 by { if i >= c.len() { assert(u16s(s)[i] == r[i - c.len()]); } else { assert(u16s(s)[i] == c[i]); } }
    }
}
pub proof fn two_facts(w: u16, big: bool) ensures two(w, big).len() == 2, word_of(two(w, big)[0], two(w, big)[1], big) == w, (two(w, big)[0] == 0 && two(w, big)[1] == 0) <==> w == 0, bom2(two(w, big)[0], two(w, big)[1]) <==> (w == 0xFEFF || w == 0xFFFE) {
    assert(w / 256 * 256 + w % 256 == w);
}
/// reading undoes writing, word by word
pub proof fn dw_enc(w: Seq<u16>, big: bool, start: bool) requires nonzero(w), start && w.len() > 0 ==> w[0] != 0xFEFF && w[0] != 0xFFFE, ensures dw(enc16(w, big), big, start) == w, enc16(w, big).len() == 2 * w.len() decreases w.len() {
    if w.len() > 0 {
        let t = two(w[0], big); let b = enc16(w, big);
        two_facts(w[0], big);
        assert(w[0] != 0);
        assert(nonzero(w.skip(1))) by { assert forall|i: int| 0 <= i < w.len() - 1 implies (#[trigger] w.skip(1)[i]) != 0 by { assert(w[i + 1] != 0); } }
        dw_enc(w.skip(1), big, false);
        assert(b[0] == t[0] && b[1] == t[1]); assert(b.skip(2) =~= enc16(w.skip(1), big));
        assert(w =~= seq![w[0]] + w.skip(1));
    } else { assert(dw(enc16(w, big), big, start) =~= w); }
}
pub proof fn end2_enc(w: Seq<u16>, big: bool, tail: Seq<u8>) requires nonzero(w), ensures end2(enc16(w, big) + tail) == 2 * w.len() + end2(tail), enc16(w, big).len() == 2 * w.len() decreases w.len() {
    if w.len() > 0 {
        let b = enc16(w, big) + tail; let t = two(w[0], big);
        two_facts(w[0], big); assert(w[0] != 0);
        assert(nonzero(w.skip(1))) by { assert forall|i: int| 0 <= i < w.len() - 1 implies (#[trigger] w.skip(1)[i]) != 0 by { assert(w[i + 1] != 0); } }
        end2_enc(w.skip(1), big, tail);
        assert(b[0] == t[0] && b[1] == t[1]); assert(b.skip(2) =~= enc16(w.skip(1), big) + tail);
    } else { assert(enc16(w, big) + tail =~= tail); }
}
pub proof fn end1_at(d: Seq<u8>, n: int) requires 0 <= n <= d.len(), forall|i: int| 0 <= i < n ==> d[i] != 0, n < d.len() ==> d[n] == 0, ensures end1(d) == n decreases n { if n > 0 { assert(d[0] != 0); assert forall|i: int| 0 <= i < n - 1 implies d.skip(1)[i] != 0 by { assert(d[i + 1] != 0); } end1_at(d.skip(1), n - 1); } }
/// every text without NULs that the encoding can express comes back, and what is behind its terminator is left alone
pub proof fn round_trip(e: TextEncoding, s: Seq<char>, terminated: bool, rest: Seq<u8>)
   requires nul_free(s), e is Latin1 ==> expressible(s), e is UTF16BE && s.len() > 0 ==> s[0] as u32 != 0xFEFF && s[0] as u32 != 0xFFFE, !terminated ==> rest.len() == 0
   ensures ({
      let d = encoded(e, s, terminated) + rest; let given = seq![0u8, 0];
      let raw = if terminated { d.take(text_end(e, d)) } else { d };
      &&& terminated ==> raw.len() + term_len(e, d) == encoded(e, s, true).len() && term_len(e, d) > 0
      &&& raw.len() == 0 ==> s.len() == 0
      &&& raw.len() > 0 ==> decodable(e, raw, given) && forall|x: Seq<char>| means(e, raw, given, x) ==> x == s
   })
{
   let d = encoded(e, s, terminated) + rest; let given = seq![0u8, 0];
   let tail = end(terminated, if wide(e) { 2 } else { 1 }) + rest;
   let body = encoded(e, s, false);
   trimmed_same(s);
   assert(body + tail =~= d);
   let raw = if terminated { d.take(text_end(e, d)) } else { d };
   if wide(e) {
      let w = u16s(s); let big = if e is UTF16 { big_here() } else { true };
      u16s_nonzero(s);
      let all = if e is UTF16 { seq![0xFEFFu16] + w } else { w };
      assert(body =~= enc16(all, big)) by { if e is UTF16 { assert(all.skip(1) =~= w); } }
      assert(nonzero(all)) by { assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]) != 0 by { if e is UTF16 && i > 0 { assert(all[i] == w[i - 1]); } } }
      end2_enc(all, big, tail);
      if terminated { assert(tail[0] == 0 && tail[1] == 0); assert(text_end(e, d) == body.len()); }
      assert(raw =~= body);
      dw_enc(w, big, false);
      if e is UTF16 { two_facts(0xFEFF, big); assert(raw.skip(2) =~= enc16(w, big)); assert(raw[0] == two(0xFEFF, big)[0] && raw[1] == two(0xFEFF, big)[1]); assert(mark(raw, given) =~= raw.take(2)); assert((mark(raw, given)[0] == 0xFE) == big); }
      else { if w.len() > 0 { let n = s[0] as u32 as int; assert(w[0] == cw(s[0])[0]); } dw_enc(w, big, true); }
      assert(dw(raw, big, true) =~= u16s(s));
      assert(decodable16(raw, big));
      assert forall|x: Seq<char>| is_text16(raw, big, x) implies x == s by { let t = choose|t: Seq<char>| #[trigger] u16s(t) == dw(raw, big, true) && x == trimmed(t); u16s_inj(t, s); }
   } else {
      assert forall|i: int| 0 <= i < body.len() implies body[i] != 0 by { if e is UTF8 { utf8_facts(s, s); assert(body =~= utf8(s)); } else { assert(s[i] as u32 != 0); assert((s[i]) as u32 <= 255); } }
      assert(body.len() + tail.len() == d.len());
      assert forall|i: int| 0 <= i < body.len() implies d[i] != 0 by { assert(d[i] == body[i]); }
      if terminated { assert(tail[0] == 0); assert(d[body.len() as int] == tail[0]); }
      end1_at(d, body.len() as int);
      assert(raw =~= body);
      if e is UTF8 {
         assert(body =~= utf8(s)); utf8_facts(s, s);
         assert forall|x: Seq<char>| means(e, raw, given, x) implies x == s by { let t = choose|t: Seq<char>| #[trigger] utf8(t) == raw && x == trimmed(t); utf8_facts(t, s); }
      } else {
         assert(unlatin(raw) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies unlatin(raw)[i] == s[i] by { assert((s[i]) as u32 <= 255); assert(raw[i] == s[i] as u8); } }
      }
   }
}
} // verus!
''']
