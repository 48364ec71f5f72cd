"""UnsynchronizedStream::read takes out one zero after each FF, whatever the sizes of the reads."""
F = 'lofty/src/id3/v2/util/synchsafe.rs'
ASSUMED = ['the inner std::io::Read: a trait over the ghost string of the bytes it still has; it may return any number of them, an error returns none (as std demands), and 0 only for an empty buffer or at the end']
DROPS = ['std::io::Error carries no text', '`impl Read for UnsynchronizedStream<R>` becomes an inherent method of the same text']
PARTS = ['''
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct IoError {}
type IoResult<T> = core::result::Result<T, IoError>;
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    fn read(&mut self, buf: &mut [u8; 8192]) -> (r: IoResult<usize>)
        ensures
            r matches Ok(n) ==> n <= 8192 && n <= old(self).rest().len()
                && final(buf)@.take(n as int) == old(self).rest().take(n as int)
                && final(self).rest() == old(self).rest().skip(n as int)
                && (n == 0 ==> old(self).rest().len() == 0),
            r is Err ==> final(self).rest() == old(self).rest();
}
/// one zero after each FF is taken out; `ff` is whether the byte before was an FF
spec fn decode(s: Seq<u8>, ff: bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if ff && s[0] == 0 { decode(s.skip(1), false) }
    else { seq![s[0]] + decode(s.skip(1), s[0] == 0xFF) }
}
''', Item(F, 'struct', 'UnsynchronizedStream'), '''
impl<R: Read> UnsynchronizedStream<R> {
    spec fn wf(&self) -> bool { self.pos <= self.bytes_available <= 8192 }
    /// what has not been looked at yet
    spec fn raw(&self) -> Seq<u8> { self.buf@.subrange(self.pos as int, self.bytes_available as int) + self.reader.rest() }
    /// what is still to be read
    spec fn todo(&self) -> Seq<u8> { decode(self.raw(), self.encountered_ff) }
''',
Fn(F, 'new', impl='impl<R> UnsynchronizedStream<R>', spec='ensures r.wf() && r.todo() == decode(reader.rest(), false),',
   subs=[('re:^\\{\\s*Self \\{', '{ let x = Self {'), ('re:\\}\\s*\\}$', '}; proof { assert(x.raw() =~= reader.rest()); } x }')]),
Fn(F, 'read', impl='impl<R: Read> Read for UnsynchronizedStream<R>',
   sig=[('std::io::Result<usize>', 'IoResult<usize>')],
   spec='''requires old(self).wf(),
   ensures final(self).wf(), final(buf)@.len() == old(buf)@.len(),
     r matches Ok(n) ==> n <= final(buf)@.len() && old(self).todo() == final(buf)@.take(n as int) + final(self).todo()
        && (n == 0 && old(buf)@.len() > 0 ==> final(self).todo().len() == 0),
     r is Err ==> final(self).todo() == old(self).todo(),''',
   loops=['''invariant self.wf(), dest_len == buf@.len(), dest_len == old(buf)@.len(), 0 < dest_len, dest_pos <= dest_len,
          old(self).todo() == buf@.take(dest_pos as int) + self.todo(),
        ensures dest_pos == 0 ==> self.todo().len() == 0,
        decreases self.raw().len(), 8192 - self.pos'''],
   ins=[('start', '', 'let ghost s0 = self.todo(); proof { assert(old(buf)@.take(0) + s0 =~= s0); }'),
     ('after', 'let mut dest_pos = 0;', 'proof { assert(buf@.take(0) + s0 =~= s0); }'),
     ('before', 'self.bytes_available = self.reader.read(&mut self.buf)?', 'let ghost rest0 = self.reader.rest(); proof { assert(self.raw() =~= rest0); assert(buf@.take(0) + self.todo() =~= self.todo()); }'),
     ('after', 'self.pos = 0;', '''proof {
         let n = self.bytes_available as int;
         assert(self.raw() =~= rest0) by {
             assert(self.buf@.subrange(0, n) =~= self.buf@.take(n));
             assert(rest0.take(n) + rest0.skip(n) =~= rest0);
         }
      }'''),
     ('before', 'if self.encountered_ff {', '''let ghost raw0 = self.raw();
        proof { assert(raw0.len() > 0); assert(raw0[0] == self.buf@[self.pos as int]); }'''),
     ('before', 'continue;', 'proof { assert(self.raw() =~= raw0.skip(1)); }'),
     ('before', 'let current_byte', 'let ghost b0 = buf@; let ghost p0 = dest_pos; let ghost t0 = decode(raw0, false);'),
     ('after', 'self.encountered_ff = true; }', '''proof {
        assert(self.raw() =~= raw0.skip(1));
        assert(b0.take(p0 as int) + (seq![current_byte] + self.todo()) =~= buf@.take(dest_pos as int) + self.todo());
     }'''),
   ]),
'''
}
} // verus!
''']
