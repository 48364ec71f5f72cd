"""The popularimeter frame: e-mail, rating byte and play counter, written and read back."""
F = 'lofty/src/id3/v2/items/popularimeter.rs'
ASSUMED = ['Latin-1 coding of the e-mail: encode appends the terminator, decode_text takes the text up to its terminator', 'to_be_bytes / from_be_bytes', 'std::io::Read: read_u8 takes the next byte, read_to_end the rest', 'the iterator chain position(..), slices copied with copy_from_slice and extend']
DROPS = ['the frame header', 'errors carry nothing but whether they are about the text', 'e-mail texts are their characters']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct FrameFlags {}
pub enum Err { Text, Io, Alloc }
pub struct WriteOptions { pub lossy_text_encoding: bool }
pub struct Email { pub v: Ghost<Seq<char>> }
impl Email {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r <= 0x1000_0000_0000 { unimplemented!() }
}
pub struct PopularimeterFrame { pub email: Email, pub rating: u8, pub counter: u64 }
/// the Latin-1 bytes of a text, with '?' for what it cannot express
pub open spec fn latin(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| if s[i] as u32 <= 255 { s[i] as u8 } else { 0x3Fu8 }) }
pub open spec fn expressible(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 255 }
pub open spec fn unlatin(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
pub open spec fn nul(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s[0] == 0 { 0 } else { 1 + nul(s.skip(1)) } }
#[verifier::external_body]
fn with_capacity(n: usize) -> (r: Result<Vec<u8>, Err>) ensures r matches Ok(v) ==> v@.len() == 0, r is Err ==> r->Err_0 is Alloc { unimplemented!() }
#[verifier::external_body]
fn encode_latin1(e: &Email, terminated: bool, lossy: bool) -> (r: Result<Vec<u8>, Err>)
   ensures r is Ok <==> lossy || expressible(e.v@), r matches Ok(v) ==> v@ == latin(e.v@) + (if terminated { seq![0u8] } else { seq![] }), r is Err ==> r->Err_0 is Text { unimplemented!() }
#[verifier::external_body]
fn extend(v: &mut Vec<u8>, w: &[u8]) ensures final(v)@ == old(v)@ + w@ { v.extend_from_slice(w) }
#[verifier::external_body]
fn tail(a: &[u8; 8], i: usize) -> (r: &[u8]) requires i <= 8, ensures r@ == a@.skip(i as int) { &a[i..] }
#[verifier::external_body]
fn nonzero(a: &[u8; 8]) -> (r: Option<usize>) ensures r matches Some(i) ==> i < 8 && a@[i as int] != 0 && forall|j: int| 0 <= j < i ==> a@[j] == 0, r is None ==> forall|j: int| 0 <= j < 8 ==> a@[j] == 0 { a.iter().position(|b| *b != 0) }
fn or(i: Option<usize>, n: usize) -> (r: usize) ensures r == (match i { Some(k) => k, None => n }) { match i { Some(k) => k, None => n } }
/// n bytes, the most significant first
pub open spec fn be(c: int, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { be(c / 256, (n - 1) as nat).push((c % 256) as u8) } }
/// the number they stand for
pub open spec fn val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 256 + s.last() } }
pub open spec fn zeros(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
#[verifier::external_body]
fn be8(c: u64) -> (r: [u8; 8]) ensures r@ == be(c as int, 8) { c.to_be_bytes() }
#[verifier::external_body]
fn be4(c: u32) -> (r: [u8; 4]) ensures r@ == be(c as int, 4) { c.to_be_bytes() }
#[verifier::external_body]
fn from_be8(a: [u8; 8]) -> (r: u64) ensures r == val(a@) { u64::from_be_bytes(a) }
#[verifier::external_body]
fn copy_at(a: &mut [u8; 8], i: usize, v: &Vec<u8>) requires i + v@.len() == 8, ensures final(a)@ == old(a)@.take(i as int) + v@ { a[i..].copy_from_slice(v) }
fn to_u32(c: u64) -> (r: Result<u32, ()>) ensures r is Ok <==> c <= 0xFFFF_FFFF, r matches Ok(n) ==> n == c { if c <= 0xFFFF_FFFF { Ok(c as u32) } else { Err(()) } }
pub struct Reader { pub data: Ghost<Seq<u8>>, pub faulty: bool }
#[verifier::external_body]
fn decode_latin1_terminated(r: &mut Reader) -> (x: Result<Email, Err>)
   ensures x is Err ==> old(r).faulty, final(r).faulty == old(r).faulty,
      x matches Ok(e) ==> ({ let k = nul(old(r).data@); e.v@ == unlatin(old(r).data@.take(k)) && final(r).data@ == old(r).data@.skip(if k < old(r).data@.len() { k + 1 } else { k }) }) { unimplemented!() }
impl Reader {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, Err>)
        ensures final(self).faulty == old(self).faulty, r is Err ==> old(self).faulty || old(self).data@.len() == 0, r matches Ok(b) ==> old(self).data@.len() > 0 && b == old(self).data@[0] && final(self).data@ == old(self).data@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, Err>)
        ensures r is Err ==> old(self).faulty, r is Ok ==> final(v)@ == old(v)@ + old(self).data@ { unimplemented!() }
}
/// every number as bytes is the number again
pub proof fn be_val(c: int, n: nat) requires 0 <= c, ensures be(c, n).len() == n, n == 8 && c < 0x1_0000_0000_0000_0000 ==> val(be(c, n)) == c, n == 4 && c < 0x1_0000_0000 ==> val(be(c, n)) == c {
    be_val_pow(c, n); reveal_with_fuel(p, 9);
}
pub open spec fn p(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * p((n - 1) as nat) } }
pub proof fn be_val_pow(c: int, n: nat) requires 0 <= c, ensures be(c, n).len() == n, c < p(n) ==> val(be(c, n)) == c decreases n {
    if n > 0 {
        be_val_pow(c / 256, (n - 1) as nat);
        let s = be(c, n); assert(s.drop_last() =~= be(c / 256, (n - 1) as nat));
        assert(s.last() == (c % 256) as u8);
        let q = p((n - 1) as nat);
        assert(c < 256 * q ==> c / 256 < q);
    }
}
/// zeros in front change nothing
pub proof fn val_zeros(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), zeros(s.take(k)), ensures val(s) == val(s.skip(k)) decreases s.len() {
    if s.len() > k {
        assert(s.drop_last().take(k) =~= s.take(k));
        val_zeros(s.drop_last(), k);
        assert(s.skip(k).drop_last() =~= s.drop_last().skip(k));
    } else { val_zero(s); assert(s.take(k) =~= s); }
}
pub proof fn val_zero(s: Seq<u8>) ensures zeros(s) ==> val(s) == 0 decreases s.len() { if s.len() > 0 { val_zero(s.drop_last()); if zeros(s) { assert(zeros(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies s.drop_last()[i] == 0 by { assert(s[i] == 0); } } assert(s.last() == s[s.len() - 1]); } } }
/// at least four bytes that stand for the counter
pub open spec fn counts(s: Seq<u8>, c: int) -> bool { 4 <= s.len() <= 8 && val(s) == c && (s.len() > 4 ==> s[0] != 0) }
/// what the bytes of a frame mean
pub open spec fn means(d: Seq<u8>, email: Seq<char>, rating: u8, counter: u64) -> bool {
    let k = nul(d);
    &&& k + 1 < d.len() && email == unlatin(d.take(k)) && rating == d[k + 1]
    &&& counter == (if d.len() - k - 2 > 8 { 0xFFFF_FFFF_FFFF_FFFFu64 as int } else { val(d.skip(k + 2)) })
}
impl PopularimeterFrame {
''',
Fn(F, 'parse_inner', within='parse', impl="impl<'a> PopularimeterFrame<'a>", sig=[("<'a, R>", ''), ('&mut R,', '&mut Reader,'), ("PopularimeterFrame<'a>, FrameParseError", 'PopularimeterFrame, Err'), ('where R: Read,', '')],
   spec='''ensures !old(reader).faulty ==> (r is Ok <==> nul(old(reader).data@) + 1 < old(reader).data@.len()),
      r matches Ok(f) ==> means(old(reader).data@, f.email.v@, f.rating, f.counter),''',
   subs=[('re:decode_text\\(\\s*reader,\\s*TextDecodeOptions::new\\(\\)\\s*\\.encoding\\(TextEncoding::Latin1\\)\\s*\\.terminated\\(true\\),?\\s*\\)\\?', 'decode_latin1_terminated(reader)?'),
     ('let mut counter_content = Vec::new();', 'let mut counter_content: Vec<u8> = Vec::new();'), ('u64::MAX', '0xFFFF_FFFF_FFFF_FFFFu64'),
     ('[0; 8]', '[0u8; 8]'), ('counter_bytes[counter_start_pos..].copy_from_slice(&counter_content);', 'copy_at(&mut counter_bytes, counter_start_pos, &counter_content);'),
     ('u64::from_be_bytes(counter_bytes)', 'from_be8(counter_bytes)'), ('let header = FrameHeader::new(FRAME_ID, frame_flags);', ''), ('header,', ''), ('Cow::Owned(email.content)', 'email')],
   ins=[('start', '', 'let ghost d = reader.data@; proof { nul_bounds(d); }'), ('after', 'copy_at(&mut counter_bytes, counter_start_pos, &counter_content);', 'proof { let s = counter_bytes@; assert(s.take(counter_start_pos as int) =~= Seq::new(counter_start_pos as nat, |i: int| 0u8)); val_zeros(s, counter_start_pos as int); assert(s.skip(counter_start_pos as int) =~= counter_content@); }'),
     ('after', 'reader.read_to_end(&mut counter_content)?;', 'proof { assert(counter_content@ =~= d.skip(nul(d) + 2)); }')]),
Fn(F, 'as_bytes', impl="impl<'a> PopularimeterFrame<'a>", sig=[('FrameEncodingError', 'Err')],
   spec='''ensures r matches Ok(v) ==> v@.len() > self.email.v@.len() + 5 && v@.take(self.email.v@.len() as int + 2) == latin(self.email.v@).push(0u8).push(self.rating) && counts(v@.skip(self.email.v@.len() as int + 2), self.counter as int),
      r is Err && !(r->Err_0 is Alloc) ==> !write_options.lossy_text_encoding && !expressible(self.email.v@),
      !write_options.lossy_text_encoding && !expressible(self.email.v@) ==> r is Err,''',
   subs=[('Vec::try_with_capacity_stable(self.email.len() + 9)?', 'with_capacity(self.email.len() + 9)?'),
     ('re:content\\.extend\\(TextEncoding::Latin1\\.encode\\(\\s*&self\\.email,\\s*(\\w+),\\s*write_options\\.lossy_text_encoding,?\\s*\\)\\?\\)', r'extend(&mut content, encode_latin1(&self.email, \1, write_options.lossy_text_encoding)?.as_slice())'),
     ('u32::try_from(self.counter)', 'to_u32(self.counter)'), ('content.extend(counter.to_be_bytes())', 'let b4__ = be4(counter); extend(&mut content, &b4__);'),
     ('self.counter.to_be_bytes()', 'be8(self.counter)'), ('counter_bytes.iter().position(|b| *b != 0).unwrap_or(4)', 'or(nonzero(&counter_bytes), 4)'),
     ('content.extend(&counter_bytes[i..]);', 'extend(&mut content, tail(&counter_bytes, i));')],
   ins=[('after', 'content.push(self.rating);', 'let ghost head = content@; let ghost n = self.email.v@.len() as int; proof { assert(head =~= latin(self.email.v@).push(0u8).push(self.rating)); be_val(self.counter as int, 8); be_val(self.counter as int, 4); }'),
     ('after', 'let i = or(nonzero(&counter_bytes), 4);', 'proof { let s = counter_bytes@; val_zero(s); val_zeros(s, i as int); long(self.counter as int, s, i as int); }'),
     ('before', 'Ok(content)', 'proof { assert(content@.take(n + 2) =~= head); assert(content@ =~= head + content@.skip(n + 2)); }'),
     ('after', 'extend(&mut content, tail(&counter_bytes, i));', 'proof { assert(content@.skip(n + 2) =~= counter_bytes@.skip(i as int)); }'),
     ('after', 'extend(&mut content, &b4__);', 'proof { assert(content@.skip(n + 2) =~= b4__@); }')]),
'''}
pub proof fn nul_bounds(s: Seq<u8>) ensures 0 <= nul(s) <= s.len(), nul(s) < s.len() ==> s[nul(s)] == 0 decreases s.len() { if s.len() > 0 && s[0] != 0 { nul_bounds(s.skip(1)); } }
/// a value of k bytes is below 256^k
pub proof fn val_below(s: Seq<u8>) ensures 0 <= val(s) < p(s.len()) decreases s.len() { if s.len() > 0 { val_below(s.drop_last()); } }
/// a counter beyond 32 bits has more than four bytes after its zeros
pub proof fn long(c: int, s: Seq<u8>, i: int) requires c > 0xFFFF_FFFF, s.len() == 8, 0 <= i <= 8, val(s) == c, val(s) == val(s.skip(i)), ensures i < 4 { val_below(s.skip(i)); reveal_with_fuel(p, 9); }
/// whatever is written means what it was written from
pub proof fn round_trip(v: Seq<u8>, email: Seq<char>, rating: u8, counter: u64)
   requires expressible(email), forall|i: int| 0 <= i < email.len() ==> email[i] as u32 != 0,
     v.len() > email.len() + 5, v.take(email.len() as int + 2) == latin(email).push(0u8).push(rating), counts(v.skip(email.len() as int + 2), counter as int)
   ensures means(v, email, rating, counter)
{
   let n = email.len() as int;
   let h = v.take(n + 2);
   assert forall|i: int| 0 <= i < n implies v[i] != 0 && v[i] == email[i] as u8 by { assert(h[i] == v[i]); assert(latin(email)[i] == h[i]); assert(email[i] as u32 <= 255 && email[i] as u32 != 0); }
   assert(v[n] == 0) by { assert(h[n] == v[n]); }
   assert(v[n + 1] == rating) by { assert(h[n + 1] == v[n + 1]); }
   nul_at(v, n);
   assert(unlatin(v.take(n)) =~= email) by { assert forall|i: int| 0 <= i < n implies unlatin(v.take(n))[i] == email[i] by { assert(email[i] as u32 <= 255); assert(v[i] == email[i] as u8); } }
}
pub proof fn nul_at(s: Seq<u8>, n: int) requires 0 <= n < s.len(), s[n] == 0, forall|i: int| 0 <= i < n ==> s[i] != 0, ensures nul(s) == n decreases n { if n > 0 { assert(s[0] != 0); assert forall|i: int| 0 <= i < n - 1 implies s.skip(1)[i] != 0 by { assert(s[i + 1] != 0); } nul_at(s.skip(1), n - 1); } }
} // verus!
''']
