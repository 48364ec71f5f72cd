"""ID3v1: decoding any 128 bytes, encoding any tag, and that one undoes the other."""
R = 'lofty/src/id3/v1/read.rs'
W = 'lofty/src/id3/v1/write.rs'
ASSUMED = ['latin1_decode of bytes without NUL is one character per byte; latin1_encode gives the bytes of the characters up to 255 (P20)', 'std::io::Cursor over a growing vector and Vec::write_all never fail', 'the leading decimal digits of four bytes: the iterator chain in try_parse_year', 'GENRES has 192 entries (executed: every index)']
DROPS = ['errors carry nothing', 'a text is the Latin-1 bytes of its characters, with None for a character above 255', 'iterator chains over bytes are contracted calls, the `for` over the encoded characters an index loop', 'log calls']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IErr {}
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
fn is_strict(m: ParsingMode) -> (r: bool) ensures r == (m is Strict) { matches!(m, ParsingMode::Strict) }
/// the characters of a text: its Latin-1 byte, or None
pub struct Text { pub chars: Ghost<Seq<Option<u8>>> }
pub open spec fn of_bytes(b: Seq<u8>) -> Seq<Option<u8>> { Seq::new(b.len(), |i: int| Some(b[i])) }
pub struct Id3v1Tag { pub title: Option<Text>, pub artist: Option<Text>, pub album: Option<Text>, pub year: Option<u16>, pub comment: Option<Text>, pub track_number: Option<u8>, pub genre: Option<u8> }
pub open spec fn marker() -> Seq<u8> { seq![0x54u8, 0x41, 0x47] }
#[verifier::external_body]
fn is_marker(b: &[u8; 128]) -> (r: bool) ensures r == (b@.take(3) == marker()) { b[..3] == *b"TAG" }
#[verifier::external_body]
fn from3(b: &[u8; 128]) -> (r: &[u8]) ensures r@ == b@.skip(3), r@.len() == 125 { &b[3..] }
#[verifier::external_body]
fn sub<'a>(b: &'a [u8], s: usize, e: usize) -> (r: &'a [u8]) requires s <= e <= b@.len(), ensures r@ == b@.subrange(s as int, e as int) { &b[s..e] }
#[verifier::external_body]
fn zero_position(b: &[u8]) -> (r: Option<usize>) ensures r == (if first_zero(b@, 0) == b@.len() { None } else { Some(first_zero(b@, 0) as usize) }) { unimplemented!() }
fn genres_len() -> (r: u8) ensures r == 192 { 192 }
/// the first zero byte from `p` on, or the end
pub open spec fn first_zero(b: Seq<u8>, p: int) -> int decreases b.len() - p { if p < 0 || p >= b.len() || b[p] == 0 { p } else { first_zero(b, p + 1) } }
pub proof fn zero_props(b: Seq<u8>, p: int) requires 0 <= p <= b.len(),
    ensures p <= first_zero(b, p) <= b.len(), forall|i: int| p <= i < first_zero(b, p) ==> b[i] != 0, first_zero(b, p) < b.len() ==> b[first_zero(b, p)] == 0
    decreases b.len() - p
{ if p < b.len() && b[p] != 0 { zero_props(b, p + 1); } }
/// a field: nothing if it starts with a zero, else everything before the first zero
pub open spec fn field(b: Seq<u8>) -> Option<Seq<Option<u8>>> { if b.len() == 0 || b[0] == 0 { None } else { Some(of_bytes(b.take(first_zero(b, 0)))) } }
pub open spec fn chars_of(t: Option<Text>) -> Option<Seq<Option<u8>>> { match t { Some(x) => Some(x.chars@), None => None } }
#[verifier::external_body]
fn latin1_decode(b: &[u8]) -> (r: Text) requires forall|i: int| 0 <= i < b@.len() ==> b@[i] != 0, ensures r.chars@ == of_bytes(b@) { unimplemented!() }
pub open spec fn digit(c: u8) -> bool { 0x30 <= c <= 0x39 }
pub open spec fn leading(b: Seq<u8>, p: int) -> int decreases b.len() - p { if p < 0 || p >= b.len() || !digit(b[p]) { p } else { leading(b, p + 1) } }
pub open spec fn four(b: Seq<u8>) -> bool { digit(b[0]) && digit(b[1]) && digit(b[2]) && digit(b[3]) }
pub open spec fn number(b: Seq<u8>) -> int { (b[0] - 0x30) * 1000 + (b[1] - 0x30) * 100 + (b[2] - 0x30) * 10 + (b[3] - 0x30) }
#[verifier::external_body]
fn leading_number(b: &[u8]) -> (r: (usize, u16)) requires b@.len() == 4, ensures (r.0 == 4) == four(b@), four(b@) ==> r.1 == number(b@) { unimplemented!() }
/// what the 128 bytes mean
pub open spec fn means(b: Seq<u8>, t: Id3v1Tag) -> bool {
    &&& chars_of(t.title) == field(b.subrange(3, 33)) && chars_of(t.artist) == field(b.subrange(33, 63)) && chars_of(t.album) == field(b.subrange(63, 93))
    &&& t.year == (if four(b.subrange(93, 97)) { Some(number(b.subrange(93, 97)) as u16) } else { None })
    &&& t.track_number == (if b[125] == 0 && b[126] != 0 { Some(b[126]) } else { None })
    &&& chars_of(t.comment) == (if b[125] == 0 && b[126] != 0 { field(b.subrange(97, 126)) } else { field(b.subrange(97, 127)) })
    &&& t.genre == (if b[127] < 192 { Some(b[127]) } else { None })
}
''',
Fn(R, 'decode_text', sig=[('String', 'Text')], spec='requires data@.len() > 0, ensures chars_of(r) == field(data@),',
   subs=[('data.iter().position(|&b| b == 0)', 'zero_position(data)'), ("re:if data\\[null_pos\\.\\.\\]\\.iter\\(\\)\\.any\\(\\|b\\| \\*b != b'\\\\0'\\) \\{\\s*\\}", ''), ('&data[..first_null_pos]', 'sub(data, 0, first_null_pos)')],
   ins=[('start', '', 'proof { zero_props(data@, 0); }')]),
Fn(R, 'try_parse_year', sig=[('Id3v1ParseError', 'IErr')], spec='''requires input@.len() == 4,
    ensures four(input@) ==> r == Ok::<Option<u16>, IErr>(Some(number(input@) as u16)),
      !four(input@) ==> if parse_mode is Strict { r is Err } else { r == Ok::<Option<u16>, IErr>(None) },''',
   subs=[("input .iter() .take_while(|c| (**c).is_ascii_digit()) .fold((0usize, 0u16), |(num_digits, year), c| { (num_digits + 1, year * 10 + u16::from(*c - b'0')) })", 'leading_number(input)'),
     ('parse_mode == ParsingMode::Strict', 'is_strict(parse_mode)', '*'), ('Id3v1ParseError::non_digit_year()', 'IErr {}')]),
'impl Id3v1Tag {',
Fn(R, 'parse', impl='impl Id3v1Tag', sig=[('Id3v1ParseError', 'IErr')], spec='''ensures
      r matches Ok(t) ==> reader@.take(3) == marker() && means(reader@, t),
      r is Err ==> reader@.take(3) != marker() || (parse_mode is Strict && !four(reader@.subrange(93, 97))),''',
   subs=[('reader[..3] != ID3V1_TAG_MARKER', '!is_marker(&reader)'), ('FakeTagError.into()', 'IErr {}'), ('let reader = &reader[3..];', 'let whole = reader; let reader = from3(&whole);'),
     ('&reader[range]', 'sub(reader, range.start, range.end)'), ('re:&reader\\[(\\d+)\\.\\.(\\d+)\\]', r'sub(reader, \1, \2)', '*'), ('re:&reader\\[\\.\\.(\\d+)\\]', r'sub(reader, 0, \1)', '*'), ('GENRES.len() as u8', 'genres_len()')],
   ins=[('before', 'tag.title =', '''proof { let w = whole@; assert(reader@.subrange(0, 30) =~= w.subrange(3, 33)); assert(reader@.subrange(30, 60) =~= w.subrange(33, 63)); assert(reader@.subrange(60, 90) =~= w.subrange(63, 93));
        assert(reader@.subrange(90, 94) =~= w.subrange(93, 97)); assert(reader@.subrange(94, 123) =~= w.subrange(97, 126)); assert(reader@.subrange(94, 124) =~= w.subrange(97, 127)); }''')]),
'''}
pub struct WriteOptions { pub lossy_text_encoding: bool }
pub struct Id3v1TagRef<'a> { pub title: Option<&'a Text>, pub artist: Option<&'a Text>, pub album: Option<&'a Text>, pub year: Option<u16>, pub comment: Option<&'a Text>, pub track_number: Option<u8>, pub genre: Option<u8> }
pub open spec fn byte_of(c: Option<u8>) -> u8 { match c { Some(b) => b, None => 0x3F } }
/// the i-th byte of a text in a field
pub open spec fn at(t: Option<Seq<Option<u8>>>, i: int) -> u8 { match t { Some(s) => if i < s.len() { byte_of(s[i]) } else { 0 }, None => 0 } }
pub open spec fn padded(t: Option<Seq<Option<u8>>>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| at(t, i)) }
/// every character that is written can be
pub open spec fn writable(t: Option<Seq<Option<u8>>>, n: int, lossy: bool) -> bool { lossy || (t matches Some(s) ==> forall|i: int| 0 <= i < n && i < s.len() ==> #[trigger] s[i] is Some) }
pub open spec fn ref_chars(t: Option<&Text>) -> Option<Seq<Option<u8>>> { match t { Some(x) => Some(x.chars@), None => None } }
#[verifier::external_body]
fn latin1_encode(t: &Text, lossy: bool) -> (r: Vec<Result<u8, IErr>>)
    ensures r@.len() == t.chars@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (match t.chars@[i] { Some(b) => Ok::<u8, IErr>(b), None => if lossy { Ok::<u8, IErr>(0x3F) } else { Err::<u8, IErr>(IErr {}) } })
{ unimplemented!() }
fn min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn min16(a: u16, b: u16) -> (r: u16) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
#[verifier::external_body]
fn get(v: &Vec<Result<u8, IErr>>, i: usize) -> (r: Result<u8, IErr>) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
pub struct Cur { v: Vec<u8>, at: Ghost<int> }
pub open spec fn put(v: Seq<u8>, p: int, b: u8) -> Seq<u8> { if p < v.len() { v.update(p, b) } else { v.push(b) } }
impl Cur {
    pub closed spec fn data(&self) -> Seq<u8> { self.v@ }
    pub closed spec fn pos(&self) -> int { self.at@ }
    #[verifier::external_body]
    fn zeros(n: usize) -> (r: Cur) ensures r.data() == Seq::new(n as nat, |i: int| 0u8), r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn rewind(&mut self) -> (r: Result<(), IErr>) ensures r is Ok, final(self).data() == old(self).data(), final(self).pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_u8(&mut self, b: u8) -> (r: Result<(), IErr>) requires 0 <= old(self).pos() <= old(self).data().len(),
        ensures r is Ok, final(self).data() == put(old(self).data(), old(self).pos(), b), final(self).pos() == old(self).pos() + 1 { unimplemented!() }
    #[verifier::external_body]
    fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.data() { unimplemented!() }
}
#[verifier::external_body]
fn with_capacity(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0 { Vec::with_capacity(n) }
#[verifier::external_body]
fn write_all(v: &mut Vec<u8>, b: &Vec<u8>) -> (r: Result<(), IErr>) ensures r is Ok, final(v)@ == old(v)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn write_year(v: &mut Vec<u8>, b: &[u8; 4]) -> (r: Result<(), IErr>) ensures r is Ok, final(v)@ == old(v)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn write_marker(v: &mut Vec<u8>) -> (r: Result<(), IErr>) ensures r is Ok, final(v)@ == old(v)@ + marker() { unimplemented!() }
#[verifier::external_body]
fn write_u8(v: &mut Vec<u8>, b: u8) -> (r: Result<(), IErr>) ensures r is Ok, final(v)@ == old(v)@.push(b) { unimplemented!() }
fn or(a: Option<u8>, d: u8) -> (r: u8) ensures r == (match a { Some(x) => x, None => d }) { match a { Some(x) => x, None => d } }
pub open spec fn or_else(a: Option<u8>, d: u8) -> u8 { match a { Some(x) => x, None => d } }
pub open spec fn year_of(y: Option<u16>) -> Seq<u8> {
    match y { None => seq![0u8, 0, 0, 0], Some(y) => { let n = if y < 9999 { y as int } else { 9999 }; seq![(0x30 + n / 1000 % 10) as u8, (0x30 + n / 100 % 10) as u8, (0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8] } }
}
pub open spec fn encoded(t: &Id3v1TagRef) -> Seq<u8> {
    marker() + padded(ref_chars(t.title), 30) + padded(ref_chars(t.artist), 30) + padded(ref_chars(t.album), 30) + year_of(t.year) + padded(ref_chars(t.comment), 28) + seq![0u8, or_else(t.track_number, 0), or_else(t.genre, 255)]
}
pub open spec fn all_writable(t: &Id3v1TagRef, lossy: bool) -> bool { writable(ref_chars(t.title), 30, lossy) && writable(ref_chars(t.artist), 30, lossy) && writable(ref_chars(t.album), 30, lossy) && writable(ref_chars(t.comment), 28, lossy) }
''',
Fn(W, 'resize_string', within='encode', sig=[('Option<&str>', 'Option<&Text>'), ('write_options: WriteOptions', 'write_options: &WriteOptions'), ('Id3v1EncodingError', 'IErr')],
   spec='''ensures r matches Ok(v) ==> v@ == padded(ref_chars(value), size as nat) && writable(ref_chars(value), size as int, write_options.lossy_text_encoding),
      r is Err ==> !writable(ref_chars(value), size as int, write_options.lossy_text_encoding),''',
   subs=[('Cursor::new(vec![0; size])', 'Cur::zeros(size)'),
     ('for b in latin1_encode(val, write_options.lossy_text_encoding).take(size) {', 'let it = latin1_encode(val, write_options.lossy_text_encoding); let n__ = min(it.len(), size); let mut k__: usize = 0; while k__ < n__ { let b = get(&it, k__); k__ = k__ + 1; let ghost v0 = cursor.data();')],
   loops=['''invariant n__ <= size, n__ <= it@.len(), k__ <= n__, value is Some, it@.len() == value.unwrap().chars@.len(), n__ == (if it@.len() < size { it@.len() } else { size as nat }), cursor.pos() == k__, cursor.data().len() == size,
        forall|i: int| 0 <= i < it@.len() ==> #[trigger] it@[i] == (match value.unwrap().chars@[i] { Some(b) => Ok::<u8, IErr>(b), None => if write_options.lossy_text_encoding { Ok::<u8, IErr>(0x3F) } else { Err::<u8, IErr>(IErr {}) } }),
        forall|i: int| 0 <= i < k__ && !write_options.lossy_text_encoding ==> #[trigger] value.unwrap().chars@[i] is Some,
        forall|i: int| 0 <= i < k__ ==> cursor.data()[i] == at(ref_chars(value), i), forall|i: int| k__ <= i < size ==> cursor.data()[i] == 0,
      decreases n__ - k__,'''],
   ins=[('after', 'let b = get(&it, k__);', 'proof { assert(it@[k__ as int] == b); assert(b is Err ==> value.unwrap().chars@[k__ as int] is None); }'),
     ('before', 'Ok(cursor.into_inner())', '''proof { assert(cursor.data() =~= padded(ref_chars(value), size as nat));
        if let Some(v) = value { assert forall|i: int| 0 <= i < size && i < v.chars@.len() && !write_options.lossy_text_encoding implies #[trigger] v.chars@[i] is Some by { assert(value.unwrap().chars@[i] is Some); } } }''')]),
Fn(W, 'encode', without=['resize_string'], sig=[('write_options: WriteOptions', 'write_options: &WriteOptions'), ('Id3v1EncodingError', 'IErr')],
   spec='''ensures r matches Ok(v) ==> v@ == encoded(tag) && v@.len() == 128 && all_writable(tag, write_options.lossy_text_encoding), r is Err ==> !all_writable(tag, write_options.lossy_text_encoding),''',
   subs=[('Vec::with_capacity(128)', 'with_capacity(128)'), ('writer.write_all(&ID3V1_TAG_MARKER)?', 'write_marker(&mut writer)?'), ('writer.write_all(&year)?', 'write_year(&mut writer, &year)?'), ('re:writer\\.write_all\\(&(\\w+)\\)\\?', r'write_all(&mut writer, &\1)?', '*'),
     ('re:writer\\.write_u8\\((\\w[\\w.]*)\\.unwrap_or\\((\\d+)\\)\\)\\?', r'write_u8(&mut writer, or(\1, \2))?', '*'), ('re:writer\\.write_u8\\((\\d+)\\)\\?', r'write_u8(&mut writer, \1)?', '*'),
     ('std::cmp::min(year_num, 9999)', 'min16(year_num, 9999)'), ('let mut year = [0; 4];', 'let mut year = [0u8; 4];'), ("b'0'", '0x30u8', '*'), ('let mut idx = 3;', 'let mut idx: usize = 3;')],
   loops=['''invariant_except_break 0 <= idx <= 3, year_num == n / pow10(3 - idx), 0 <= n <= 9999,
        forall|i: int| idx < i <= 3 ==> year@[i] == 0x30 + n / pow10(3 - i) % 10,
      ensures forall|i: int| 0 <= i <= 3 ==> year@[i] == 0x30 + n / pow10(3 - i) % 10,
      decreases idx,'''],
   ins=[('after', 'let mut year_num = min16(year_num, 9999);', 'let ghost n = year_num as int;'),
    ('before', 'year_num /= 10;', 'let ghost before = year_num as int;'),
    ('after', 'year_num /= 10;', 'proof { div10(n, 3 - idx as int); }'),
    ('before', 'write_year(&mut writer, &year)?', 'proof { if tag.year is Some { reveal_with_fuel(pow10, 5); assert(pow10(0) == 1 && pow10(1) == 10 && pow10(2) == 100 && pow10(3) == 1000); } assert(year@ =~= year_of(tag.year)); }'),
    ('before', 'Ok(writer)', 'proof { assert(writer@ =~= encoded(tag)); }')]),
'''
pub open spec fn pow10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * pow10(k - 1) } }
pub proof fn pow_pos(k: int) ensures pow10(k) >= 1 decreases k { if k > 0 { pow_pos(k - 1); } }
pub proof fn div10(n: int, k: int) requires 0 <= n, k >= 0, ensures n / pow10(k) / 10 == n / pow10(k + 1) {
    pow_pos(k);
    assert(n / pow10(k) / 10 == n / (pow10(k) * 10)) by { vstd::arithmetic::div_mod::lemma_div_denominator(n, pow10(k), 10); }
    assert(pow10(k) * 10 == pow10(k + 1)) by (nonlinear_arith) requires pow10(k + 1) == 10 * pow10(k);
}
/// a text that fits into n bytes
pub open spec fn fits(t: Option<Seq<Option<u8>>>, n: int) -> bool { t matches Some(s) ==> 0 < s.len() <= n && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some && s[i] != Some(0u8) }
pub proof fn zero_is(b: Seq<u8>, p: int, n: int) requires 0 <= p <= n <= b.len(), forall|i: int| p <= i < n ==> b[i] != 0, n == b.len() || b[n] == 0, ensures first_zero(b, p) == n decreases n - p { if p < n { zero_is(b, p + 1, n); } }
pub proof fn field_back(t: Option<Seq<Option<u8>>>, n: nat, b: Seq<u8>)
    requires fits(t, n as int), n > 0, b.len() >= n, b.take(n as int) == padded(t, n), b.len() > n ==> b[n as int] == 0,
    ensures field(b) == t
{
    assert forall|i: int| 0 <= i < n implies b[i] == at(t, i) by { assert(b.take(n as int)[i] == padded(t, n)[i]); }
    if let Some(s) = t {
        assert(s[0] is Some);
        zero_is(b, 0, s.len() as int);
        assert(of_bytes(b.take(s.len() as int)) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] of_bytes(b.take(s.len() as int))[i] == s[i] by { assert(s[i] is Some); } }
    }
}
/// reading what was written gives the tag back
pub proof fn round(t: &Id3v1TagRef, u: Id3v1Tag)
    requires fits(ref_chars(t.title), 30), fits(ref_chars(t.artist), 30), fits(ref_chars(t.album), 30), fits(ref_chars(t.comment), 28),
      t.year matches Some(y) ==> y <= 9999, t.track_number != Some(0u8), t.genre matches Some(g) ==> g < 192, means(encoded(t), u),
    ensures chars_of(u.title) == ref_chars(t.title), chars_of(u.artist) == ref_chars(t.artist), chars_of(u.album) == ref_chars(t.album), chars_of(u.comment) == ref_chars(t.comment),
      u.year == t.year, u.track_number == t.track_number, u.genre == t.genre
{
    let b = encoded(t);
    assert(b.len() == 128);
    assert(b.subrange(3, 33) =~= padded(ref_chars(t.title), 30)); assert(b.subrange(33, 63) =~= padded(ref_chars(t.artist), 30)); assert(b.subrange(63, 93) =~= padded(ref_chars(t.album), 30));
    assert(padded(ref_chars(t.title), 30).take(30) =~= padded(ref_chars(t.title), 30)); assert(padded(ref_chars(t.artist), 30).take(30) =~= padded(ref_chars(t.artist), 30)); assert(padded(ref_chars(t.album), 30).take(30) =~= padded(ref_chars(t.album), 30));
    field_back(ref_chars(t.title), 30, b.subrange(3, 33)); field_back(ref_chars(t.artist), 30, b.subrange(33, 63)); field_back(ref_chars(t.album), 30, b.subrange(63, 93));
    assert(b.subrange(93, 97) =~= year_of(t.year));
    assert(b[125] == 0); assert(b[126] == or_else(t.track_number, 0)); assert(b[127] == or_else(t.genre, 255));
    assert(b.subrange(97, 126).take(28) =~= padded(ref_chars(t.comment), 28)); assert(b.subrange(97, 126)[28] == 0);
    assert(b.subrange(97, 127).take(28) =~= padded(ref_chars(t.comment), 28)); assert(b.subrange(97, 127)[28] == 0);
    field_back(ref_chars(t.comment), 28, b.subrange(97, 126)); field_back(ref_chars(t.comment), 28, b.subrange(97, 127));
    if let Some(y) = t.year {
        let n = y as int;
        assert(number(year_of(t.year)) == n) by { assert(n / 1000 % 10 * 1000 + n / 100 % 10 * 100 + n / 10 % 10 * 10 + n % 10 == n); }
    }
}
} // verus!
''']
