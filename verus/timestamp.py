"""Timestamps: printing, parsing what was printed, verification, and that no input makes the parser panic."""
F = 'lofty/src/tag/items/timestamp.rs'
ASSUMED = ['std::io::Read: read_u8 takes the next byte or reports the end, take(n).read_to_end appends up to n bytes', 'write!(f, "{:04}"/"{:02}", n) prints the decimal digits of numbers below 10000 / 100', 'the iterator chains any(..) and position(..)']
DROPS = ['errors carry nothing but the kind UnexpectedEof', 'the byte slice being parsed is the struct Rest, `*content = &content[n..]` the call skip(n)', 'the macros read_segment! and parse_mode_choice! are expanded', 'a ghost parameter names the timestamp the round trip is about']
G = 'Ghost(want): Ghost<Timestamp>'
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Clone, Copy)]
pub enum ParsingMode { Strict, BestAttempt, Relaxed }
fn is_strict(m: ParsingMode) -> (r: bool) ensures r == (m is Strict) { matches!(m, ParsingMode::Strict) }
pub enum TimestampField { Year, Month, Day, Hour, Minute, Second }
pub enum TimestampParseError { Empty, BadYear, MissingSeparator, SegmentTooShort, ContainsSpaces, UnexpectedChar(u8), FieldTooLarge(TimestampField), Io(bool) }
pub struct IoErr { pub eof: bool }
fn io(e: IoErr) -> (r: TimestampParseError) ensures r is Io { TimestampParseError::Io(e.eof) }
#[derive(Clone, Copy)]
pub struct Timestamp { pub year: u16, pub month: Option<u8>, pub day: Option<u8>, pub hour: Option<u8>, pub minute: Option<u8>, pub second: Option<u8> }
fn default_timestamp() -> (r: Timestamp) ensures r == (Timestamp { year: 0, month: None, day: None, hour: None, minute: None, second: None }) { Timestamp { year: 0, month: None, day: None, hour: None, minute: None, second: None } }
pub open spec fn d2(n: int) -> Seq<u8> { seq![(0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8] }
pub open spec fn d4(n: int) -> Seq<u8> { seq![(0x30 + n / 1000 % 10) as u8, (0x30 + n / 100 % 10) as u8, (0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8] }
pub open spec fn p_second(t: Timestamp) -> Seq<u8> { if let Some(n) = t.second { seq![0x3Au8] + d2(n as int) } else { seq![] } }
pub open spec fn p_minute(t: Timestamp) -> Seq<u8> { if let Some(n) = t.minute { seq![0x3Au8] + d2(n as int) + p_second(t) } else { seq![] } }
pub open spec fn p_hour(t: Timestamp) -> Seq<u8> { if let Some(n) = t.hour { seq![0x54u8] + d2(n as int) + p_minute(t) } else { seq![] } }
pub open spec fn p_day(t: Timestamp) -> Seq<u8> { if let Some(n) = t.day { seq![0x2Du8] + d2(n as int) + p_hour(t) } else { seq![] } }
pub open spec fn p_month(t: Timestamp) -> Seq<u8> { if let Some(n) = t.month { seq![0x2Du8] + d2(n as int) + p_day(t) } else { seq![] } }
/// YYYY-MM-DDTHH:MM:SS, up to the last field there is
pub open spec fn printed(t: Timestamp) -> Seq<u8> { d4(t.year as int) + p_month(t) }
/// no field is beyond its maximum, or there without the one before it
pub open spec fn valid(t: Timestamp) -> bool {
    &&& t.year <= 9999
    &&& (t.month matches Some(n) ==> n <= 12)
    &&& (t.day matches Some(n) ==> n <= 31 && t.month is Some)
    &&& (t.hour matches Some(n) ==> n <= 23 && t.day is Some)
    &&& (t.minute matches Some(n) ==> n <= 59 && t.hour is Some)
    &&& (t.second matches Some(n) ==> n <= 59 && t.minute is Some)
}
/// no field without the one before it
pub open spec fn nested(t: Timestamp) -> bool { t.year <= 9999 && (t.day is Some ==> t.month is Some) && (t.hour is Some ==> t.day is Some) && (t.minute is Some ==> t.hour is Some) && (t.second is Some ==> t.minute is Some) }
pub struct Out { pub v: Ghost<Seq<u8>> }
#[verifier::external_body]
fn write4(f: &mut Out, n: u16) -> (r: Result<(), ()>) ensures r is Ok && n <= 9999 ==> final(f).v@ == old(f).v@ + d4(n as int) { unimplemented!() }
#[verifier::external_body]
fn write2(f: &mut Out, c: u8, n: u8) -> (r: Result<(), ()>) ensures r is Ok && n <= 99 ==> final(f).v@ == old(f).v@ + seq![c] + d2(n as int) { unimplemented!() }
pub struct Reader { pub data: Ghost<Seq<u8>>, pub faulty: bool }
impl Reader {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, IoErr>)
        ensures final(self).faulty == old(self).faulty, r matches Ok(b) ==> old(self).data@.len() > 0 && b == old(self).data@[0] && final(self).data@ == old(self).data@.skip(1), r is Err ==> old(self).faulty || (old(self).data@.len() == 0 && r->Err_0.eof),
           r is Err ==> final(self).data == old(self).data
    { unimplemented!() }
    #[verifier::external_body]
    fn take_to_end(&mut self, n: u64, v: &mut Vec<u8>) -> (r: Result<(), IoErr>)
        ensures r is Err ==> old(self).faulty, r is Ok ==> final(v)@ == old(v)@ + old(self).data@.take(if old(self).data@.len() < n { old(self).data@.len() as int } else { n as int })
    { unimplemented!() }
}
fn white(c: u8) -> (r: bool) ensures r == (c == 0x20 || c == 9 || c == 10 || c == 12 || c == 13) { c == 0x20 || c == 9 || c == 10 || c == 12 || c == 13 }
fn digit(c: u8) -> (r: bool) ensures r == (0x30 <= c <= 0x39) { 0x30 <= c && c <= 0x39 }
pub open spec fn separator(c: u8) -> bool { c == 0x2D || c == 0x2E || c == 0x54 || c == 0x3A }
fn is_separator(c: u8) -> (r: bool) ensures r == separator(c) { c == 0x2D || c == 0x2E || c == 0x54 || c == 0x3A }
#[verifier::external_body]
fn any_separator(v: &Vec<u8>) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && v@[i] != 0x54 && separator(#[trigger] v@[i]) { unimplemented!() }
#[verifier::external_body]
fn with_capacity(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0 { Vec::with_capacity(n) }
/// what is left to parse
pub struct Rest<'a> { b: &'a [u8] }
impl<'a> Rest<'a> {
    pub closed spec fn v(&self) -> Seq<u8> { self.b@ }
    #[verifier::external_body]
    fn of(v: &'a Vec<u8>) -> (r: Rest<'a>) ensures r.v() == v@ { Rest { b: &v[..] } }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { self.b.is_empty() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.v().len() { self.b.len() }
    #[verifier::external_body]
    fn at(&self, i: usize) -> (r: u8) requires i < self.v().len(), ensures r == self.v()[i as int] { self.b[i] }
    #[verifier::external_body]
    fn skip(&mut self, n: usize) requires n <= old(self).v().len(), ensures final(self).v() == old(self).v().skip(n as int) { self.b = &self.b[n..]; }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, IoErr>) ensures old(self).v().len() > 0 ==> r == Ok::<u8, IoErr>(old(self).v()[0]) && final(self).v() == old(self).v().skip(1), old(self).v().len() == 0 ==> r is Err && final(self).v() == old(self).v() { unimplemented!() }
}
#[verifier::external_body]
fn seps2() -> (r: &'static [u8]) ensures r@ == seq![0x2Du8, 0x2E] { b"-." }
#[verifier::external_body]
fn sep_t() -> (r: &'static [u8]) ensures r@ == seq![0x54u8] { b"T" }
#[verifier::external_body]
fn sep_colon() -> (r: &'static [u8]) ensures r@ == seq![0x3Au8] { b":" }
fn then_some(b: bool, s: &'static [u8]) -> (r: Option<&'static [u8]>) ensures r == (if b { Some(s) } else { None }) { if b { Some(s) } else { None } }
#[verifier::external_body]
fn position(s: &[u8], b: u8) -> (r: Option<usize>) ensures r matches Some(i) ==> i < s@.len() && s@[i as int] == b && forall|j: int| 0 <= j < i ==> s@[j] != b, r is None ==> forall|j: int| 0 <= j < s@.len() ==> s@[j] != b { unimplemented!() }
/// the decimal value of digits
pub open spec fn val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + (s.last() - 0x30) } }
pub open spec fn digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0x30 <= #[trigger] s[i] <= 0x39 }
pub open spec fn p10(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 10 } else if n == 2 { 100 } else if n == 3 { 1000 } else { 10000 } }
pub proof fn val2(n: int) requires 0 <= n <= 99, ensures digits(d2(n)), val(d2(n)) == n, d2(n).len() == 2 {
    let s = d2(n); reveal_with_fuel(val, 3);
    assert(s.drop_last() =~= seq![s[0]]); assert(s.drop_last().drop_last() =~= seq![]);
    assert(n / 10 % 10 * 10 + n % 10 == n);
}
pub proof fn val4(n: int) requires 0 <= n <= 9999, ensures digits(d4(n)), val(d4(n)) == n, d4(n).len() == 4 {
    let s = d4(n);
    let q1 = n / 10; let q2 = n / 100; let q3 = n / 1000;
    assert(q2 == q1 / 10 && q3 == q2 / 10 && q3 < 10);
    let s3 = s.drop_last(); let s2 = s3.drop_last(); let s1 = s2.drop_last();
    assert(s3 =~= seq![s[0], s[1], s[2]] && s2 =~= seq![s[0], s[1]] && s1 =~= seq![s[0]]);
    assert(s1.drop_last() =~= seq![]);
    assert(val(s1.drop_last()) == 0); assert(val(s1) == q3);
    assert(val(s2) == q2); assert(val(s3) == q1); assert(val(s) == n);
}
/// a segment of n digits, after its separator if there is one
pub open spec fn clean(c: Seq<u8>, sep: Option<&[u8]>, n: int) -> bool {
    match sep { Some(s) => s@.len() > 0 && c.len() >= n + 1 && c[0] == s@[0] && digits(c.subrange(1, n + 1)), None => c.len() >= n && digits(c.take(n)) }
}
pub open spec fn clean_val(c: Seq<u8>, sep: Option<&[u8]>, n: int) -> int { match sep { Some(s) => val(c.subrange(1, n + 1)), None => val(c.take(n)) } }
impl Timestamp {
''',
Fn(F, 'fmt', impl='impl Display for Timestamp', sig=[("std::fmt::Formatter<'_>", 'Out'), ('std::fmt::Result', 'Result<(), ()>')],
   spec='ensures r is Ok && valid(*self) ==> final(f).v@ == old(f).v@ + printed(*self),',
   subs=[('write!(f, "{:04}", self.year)?', 'write4(f, self.year)?'), ('re:write!\\(f, "-\\{:02\\}", (\\w+)\\)\\?', r'write2(f, 0x2D, \1)?', '*'), ('re:write!\\(f, "T\\{:02\\}", (\\w+)\\)\\?', r'write2(f, 0x54, \1)?', '*'), ('re:write!\\(f, ":\\{:02\\}", (\\w+)\\)\\?', r'write2(f, 0x3A, \1)?', '*')],
   ins=[('start', '', 'let ghost v0 = f.v@;'), ('before', 'Ok(())', 'proof { if valid(*self) { assert(f.v@ =~= v0 + printed(*self)); } }')]),
Fn(F, 'segment', impl='impl Timestamp', head='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n', sig=[('&mut &[u8]', "&mut Rest<'_>")],
   spec='''requires SIZE == 2 || SIZE == 4,
    ensures r matches Ok((n, k)) ==> k <= SIZE && n < p10(k as int) && n < 10000,
      final(content).v().len() <= old(content).v().len(),
      clean(old(content).v(), sep, SIZE as int) ==> r == Ok::<(u16, usize), TimestampParseError>((clean_val(old(content).v(), sep, SIZE as int) as u16, SIZE)) && final(content).v() == old(content).v().skip(SIZE + (if sep is Some { 1int } else { 0 })),
      old(content).v().len() == 0 ==> r == Ok::<(u16, usize), TimestampParseError>((0u16, 0usize)) && final(content).v() == old(content).v(),''',
   subs=[('const STOP_PARSING: (u16, usize) = (0, 0);', 'let stop_parsing: (u16, usize) = (0, 0);'), ('STOP_PARSING', 'stop_parsing', '*'),
     ('content.read_u8()?', 'match content.read_u8() { Ok(b) => b, Err(e) => return Err(io(e)) }'), ('sep.iter().position(|s| *s == byte)', 'position(sep, byte)'),
     ('byte as char', 'byte', '*'), ('i as char', 'i', '*'), ('re:if pos > 0 && parse_mode == ParsingMode::Strict', 'if pos > 0 && is_strict(parse_mode)', '*'),
     ('parse_mode == ParsingMode::Strict', 'is_strict(parse_mode)', '*'), ('parse_mode != ParsingMode::Strict', '!is_strict(parse_mode)', '*'),
     ("for i in content[..SIZE].iter().copied() {", 'let mut k__: usize = 0; while k__ < SIZE { let i = content.at(k__); k__ = k__ + 1;'),
     ("b' '", '0x20u8', '*'), ("b'0'", '0x30u8', '*'), ('!i.is_ascii_digit()', '!digit(i)'), ('Self::SEPARATORS.contains(&i)', 'is_separator(i)'),
     ('let mut num = None;', 'let mut num: Option<u16> = None;'), ('let mut byte_count = 0;', 'let mut byte_count: usize = 0;'),
     ('num.unwrap_or(0)', 'or0(num)', '*'), ('u16::from(i - 0x30u8)', '((i - 0x30u8) as u16)'),
     ('re:assert_ne!\\(\\s*parse_mode,\\s*ParsingMode::Strict,\\s*"[^"]*"\\s*\\);', 'assert(!(parse_mode is Strict));'),
     ('*content = &content[byte_count..];', 'content.skip(byte_count);')],
   loops=['''invariant_except_break byte_count == k__,
      invariant k__ <= SIZE <= content.v().len(), SIZE == 2 || SIZE == 4, byte_count <= k__, content.v() == c1,
        num matches Some(n) ==> n < p10(byte_count as int) && byte_count > 0,
        num is None && byte_count == k__ && k__ > 0 ==> !(parse_mode is Strict),
        digits(c1.take(SIZE as int)) ==> byte_count == k__ && (k__ > 0 ==> num == Some(val(c1.take(k__ as int)) as u16)),
        byte_count <= SIZE,
      ensures digits(c1.take(SIZE as int)) ==> k__ == SIZE, num is None ==> !(parse_mode is Strict),
      decreases SIZE - k__,'''],
   ins=[('before', 'let mut num: Option<u16>', '''let ghost c1 = content.v();
       proof { if sep is Some { let c0 = old(content).v(); if clean(c0, sep, SIZE as int) { assert(c1.take(SIZE as int) =~= c0.subrange(1, SIZE + 1)); assert(c1.skip(SIZE as int) =~= c0.skip(SIZE + 1)); } } }'''),
     ('after', 'k__ = k__ + 1;', '''let ghost n0 = num; proof {
          assert(i == c1.take(SIZE as int)[k__ - 1]);
          if digits(c1.take(SIZE as int)) { assert(c1.take(k__ as int).drop_last() =~= c1.take(k__ - 1)); assert(c1.take(k__ as int).last() == i); val_bound(c1.take(k__ as int)); if k__ == 1 { assert(c1.take(0) =~= seq![]); } else { val_bound(c1.take(k__ - 1)); } } }''')]),
Fn(F, 'parse', impl='impl Timestamp', sig=[('<R>', ''), ('&mut R,', '&mut Reader,'), ('parse_mode: ParsingMode,', 'parse_mode: ParsingMode, ' + G + ','), ('where R: Read,', '')],
   spec='''ensures r matches Ok(Some(t)) ==> nested(t), valid(want) && old(reader).data@ == printed(want) && !old(reader).faulty ==> r == Ok::<Option<Self>, TimestampParseError>(Some(want)),''',
   subs=[('re:macro_rules! read_segment \\{\\s*\\(\\$expr:expr\\) => \\{\\s*match \\$expr \\{\\s*Ok\\(\\(_, 0\\)\\) => break,\\s*Ok\\(\\(val, _\\)\\) => Some\\(val as u8\\),\\s*Err\\(e\\) => return Err\\(e\\),\\s*\\}\\s*\\};\\s*\\}', ''),
     ('re:read_segment!\\((Self::segment::<2>\\((?:[^()]|\\((?:[^()]|\\([^()]*\\))*\\))*\\))\\)', r'match \1 { Ok((_, 0)) => break, Ok((val, _)) => Some(val as u8), Err(e) => return Err(e) }', 5),
     ('Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof =>', 'Err(e) if e.eof =>'), ('Err(e) => return Err(e.into()),', 'Err(e) => return Err(io(e)),'),
     ('parse_mode == ParsingMode::Strict', 'is_strict(parse_mode)', '*'), ('parse_mode != ParsingMode::Strict', '!is_strict(parse_mode)', '*'),
     ('c.is_ascii_whitespace()', 'white(c)'), ('c = reader.read_u8()?;', 'c = match reader.read_u8() { Ok(b) => b, Err(e) => return Err(io(e)) };'),
     ('Timestamp::default()', 'default_timestamp()'), ('Vec::with_capacity(Self::MAX_LENGTH)', 'with_capacity(19)'),
     ('reader .take(Self::MAX_LENGTH as u64 - 1) .read_to_end(&mut content)?;', 'match reader.take_to_end(19 - 1, &mut content) { Ok(_) => (), Err(e) => return Err(io(e)) };'),
     ("content .iter() .any(|&b| b != b'T' && Self::SEPARATORS.contains(&b))", 'any_separator(&content)'),
     ('let reader = &mut &content[..];', 'let mut rest__ = Rest::of(&content); let reader_ = &mut rest__;'),
     ('re:(Self::segment::<\\d>\\(\\s*)reader,', r'\1reader_,', '*'), ('reader.is_empty()', 'reader_.is_empty()'),
     ('re:parse_mode_choice!\\(\\s*parse_mode,\\s*STRICT: (return Err\\(TimestampParseError::BadYear\\)),\\s*DEFAULT: (return Ok\\(None\\))\\s*\\)', r'if is_strict(parse_mode) { \1 } else { \2 }'),
     ('re:timestamp_contains_separators\\s*\\.then_some\\(&Self::SEPARATORS\\[\\.\\.2\\]\\)', 'then_some(timestamp_contains_separators, seps2())', '*'),
     ('re:timestamp_contains_separators\\s*\\.then_some\\(core::slice::from_ref\\(&Self::SEPARATORS\\[3\\]\\)\\)', 'then_some(timestamp_contains_separators, sep_colon())', '*'),
     ('Some(core::slice::from_ref(&Self::SEPARATORS[2]))', 'Some(sep_t())')],
   loops=['''invariant rt0 == (valid(want) && old(reader).data@ == printed(want) && !old(reader).faulty), rt0 ==> 0x30 <= c <= 0x39 && !reader.faulty && seq![c] + reader.data@ == printed(want), decreases reader.data@.len(),''', '''invariant_except_break timestamp.year <= 9999 && timestamp.month is None && timestamp.day is None && timestamp.hour is None && timestamp.minute is None && timestamp.second is None, rt ==> reader_.v() == p_month(want) && want.month is Some && timestamp == (Timestamp { month: None, day: None, hour: None, minute: None, second: None, ..want }) && timestamp_contains_separators,
      invariant rt == (valid(want) && old(reader).data@ == printed(want) && !old(reader).faulty),
      ensures rt ==> timestamp == want, nested(timestamp),
      decreases 0int,'''],
   ins=[('start', '', 'let ghost rt0 = valid(want) && reader.data@ == printed(want) && !reader.faulty; proof { if valid(want) { val4(want.year as int); } }'),
     ('before', 'if !is_strict(parse_mode) { while', 'proof { if rt0 { assert(printed(want)[0] == d4(want.year as int)[0]); assert(seq![c] + reader.data@ =~= printed(want)); } }'),
     ('before', 'let mut timestamp =', 'let ghost d0 = reader.data@;'),
     ('before', 'let timestamp_contains_separators', '''let ghost rt = rt0; proof { if rt { assert(d0.len() <= 18); assert(d0.take(d0.len() as int) =~= d0); assert(content@ =~= printed(want)); } }'''),
     ('before', 'let (year, bytes_read)', '''proof { if rt { let p = printed(want); assert(p.take(4) =~= d4(want.year as int)); assert(p.skip(4) =~= p_month(want)); if want.month is Some { assert(p[4] == 0x2D); } } }'''),
     ('before', 'timestamp.month = match', 'proof { if rt { val2(want.month.unwrap() as int); step(0x2D, want.month.unwrap() as int, p_day(want)); } }'),
     ('before', 'timestamp.day = match', 'proof { if rt { assert(timestamp.month == want.month); assert(reader_.v() == p_day(want)); if let Some(n) = want.day { val2(n as int); step(0x2D, n as int, p_hour(want)); } } }'),
     ('before', 'timestamp.hour = match', 'proof { if rt { assert(timestamp.day == want.day); assert(reader_.v() == p_hour(want)); if let Some(n) = want.hour { val2(n as int); step(0x54, n as int, p_minute(want)); } } }'),
     ('before', 'timestamp.minute = match', 'proof { if rt { assert(timestamp.hour == want.hour); assert(reader_.v() == p_minute(want)); if let Some(n) = want.minute { val2(n as int); step(0x3A, n as int, p_second(want)); } } }'),
     ('before', 'timestamp.second = match', 'proof { if rt { assert(timestamp.minute == want.minute); assert(reader_.v() == p_second(want)); if let Some(n) = want.second { val2(n as int); step(0x3A, n as int, seq![]); assert(seq![0x3Au8] + d2(n as int) + Seq::<u8>::empty() =~= seq![0x3Au8] + d2(n as int)); } } }'),
   ]),
Fn(F, 'verify_field', impl='impl Timestamp', within='verify', sig=[('std::result::Result', 'Result')],
   spec='ensures r is Ok <==> (field matches Some(n) ==> n <= limit && parent is Some),'),
Fn(F, 'verify', impl='impl Timestamp', without=['verify_field'], sig=[('std::result::Result', 'Result')],
   spec='ensures r is Ok <==> valid(*self),',
   subs=[('re:verify_field\\(TimestampField::Month', 'Self::verify_field(TimestampField::Month'), ('re:\\.and_then\\(\\|_\\| verify_field\\(([^()]*)\\)\\)', r'?; Self::verify_field(\1)', '*')]),
'''}
fn or0(n: Option<u16>) -> (r: u16) ensures r == (match n { Some(x) => x, None => 0 }) { match n { Some(x) => x, None => 0 } }
pub proof fn val_bound(s: Seq<u8>) requires digits(s), s.len() <= 4, ensures 0 <= val(s) < p10(s.len() as int) decreases s.len() { if s.len() > 0 { assert(digits(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies 0x30 <= #[trigger] s.drop_last()[i] <= 0x39 by { assert(s[i] == s.drop_last()[i]); } } val_bound(s.drop_last()); } }
pub proof fn step(c: u8, n: int, tail: Seq<u8>) requires 0 <= n <= 99,
   ensures ({ let s = seq![c] + d2(n) + tail; s.len() >= 3 && s[0] == c && s.subrange(1, 3) == d2(n) && s.skip(3) == tail })
{ let s = seq![c] + d2(n) + tail; assert(s.subrange(1, 3) =~= d2(n)); assert(s.skip(3) =~= tail); }
} // verus!
''']
