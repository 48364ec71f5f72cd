"""replace_range leaves prefix + replacement + suffix, for every file, range and replacement."""
import rd
F = 'lofty/src/flac/write.rs'
ASSUMED = rd.FILE_ASSUMED + ['file and replacement together are below 2^62 bytes']
DROPS = ['io::Error::new(kind, text) carries neither', '`F: FileLike` becomes the ghost trait Fl', 'reading into / writing a prefix of the buffer is one call', '`u64::min`, `usize::try_from(..).expect(..)` and `cmp` are contracted helpers']
ERR = ('re:std::io::Error::new\\(\\s*ErrorKind::\\w+,\\s*"[^"]*",?\\s*\\)', 'IoError {}')
MIN = ('re:usize::try_from\\(([^;]*?)\\.min\\(([^()]*(?:\\([^()]*\\))?[^()]*)\\)\\)\\s*\\.expect\\("[^"]*"\\)', r'to_usize(min_u64(\1, \2))')
SIG = [('std::io::Result<()>', 'IoResult<()>'), ('F: FileLike', 'F: Fl')]
PARTS = ['''
use vstd::prelude::*;
use core::ops::Range;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
pub struct IoError {}
type IoResult<T> = core::result::Result<T, IoError>;
''', rd.file_prelude('IoError'), Item(F, 'const', 'MOVE_BUFFER_SIZE'), '''
fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn to_usize(a: u64) -> (r: usize) ensures r == a { a as usize }
fn cmp_u64(a: u64, b: u64) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater })
{ if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body]
fn prefix(b: &[u8], n: usize) -> (r: &[u8]) requires n <= b@.len(), ensures r@ == b@.take(n as int)
{ &b[..n] }
#[verifier::external_body]
fn len_u64(n: usize) -> (r: IoResult<u64>) ensures r == Ok::<u64, IoError>(n as u64) { unimplemented!() }
''',
Fn(F, 'extend_storage', sig=SIG, spec='''requires zeros@.len() > 0, forall|i: int| 0 <= i < zeros@.len() ==> zeros@[i] == 0, old(file).g().data.len() + amount < 0x4000_0000_0000_0000,
    ensures final(file).g().faulty == old(file).g().faulty, r is Err ==> old(file).g().faulty,
      r is Ok ==> final(file).g().data == old(file).g().data + Seq::new(amount as nat, |i: int| 0u8),''',
   subs=[MIN, ('re:file\\.write_all\\(&(\\w+)\\[\\.\\.(\\w+)\\]\\)', r'file.write_all(prefix(\1, \2))')],
   loops=['''invariant zeros@.len() > 0, forall|i: int| 0 <= i < zeros@.len() ==> zeros@[i] == 0, d0.len() + amount < 0x4000_0000_0000_0000, remaining <= amount,
       file.g().faulty == old(file).g().faulty, d0 == old(file).g().data,
       file.g().at == file.g().data.len(), file.g().data == d0 + Seq::new((amount - remaining) as nat, |i: int| 0u8),
     decreases remaining,'''],
   ins=[('start', '', 'let ghost d0 = file.g().data;'), ('after', 'file.seek(SeekFrom::End(0))?;', 'proof { assert(d0 + Seq::new(0, |i: int| 0u8) =~= d0); }'),
     ('after', 'remaining -= chunk_len as u64;', 'proof { assert(file.g().data =~= d0 + Seq::new((amount - remaining) as nat, |i: int| 0u8)); }')]),
Fn(F, 'shift_right', sig=SIG, spec='''requires old(buffer)@.len() > 0, start <= end, end + amount <= old(file).g().data.len(), old(file).g().data.len() < 0x4000_0000_0000_0000,
    ensures final(file).g().faulty == old(file).g().faulty, r is Err ==> old(file).g().faulty, final(buffer)@.len() == old(buffer)@.len(),
      r is Ok ==> ({ let d = old(file).g().data; let e = final(file).g().data;
        &&& e.len() == d.len()
        &&& e.take(start as int) == d.take(start as int)
        &&& e.subrange(start + amount, end + amount) == d.subrange(start as int, end as int)
        &&& e.skip(end + amount) == d.skip(end + amount) }),''',
   subs=[MIN, ('re:file\\.write_all\\(&(\\w+)\\[\\.\\.(\\w+)\\]\\)', r'file.write_all(prefix(\1, \2))'), ('re:file\\.read_exact\\(&mut (\\w+)\\[\\.\\.(\\w+)\\]\\)', r'file.read_exact_prefix(\1, \2)')],
   loops=['''invariant buffer@.len() > 0, buffer@.len() == old(buffer)@.len(), start <= cursor <= end, end + amount <= d.len(), d.len() < 0x4000_0000_0000_0000, d == old(file).g().data,
        file.g().faulty == old(file).g().faulty, file.g().data.len() == d.len(),
        forall|i: int| 0 <= i < cursor ==> file.g().data[i] == d[i],
        forall|i: int| cursor + amount <= i < end + amount ==> file.g().data[i] == d[i - amount],
        forall|i: int| end + amount <= i < d.len() ==> file.g().data[i] == d[i],
      decreases cursor,'''],
   ins=[('start', '', 'let ghost d = file.g().data;'),
     ('before', 'file.seek(SeekFrom::Start(source))?', 'let ghost f0 = file.g().data;'),
     ('before', 'cursor = source;', '''proof {
        let b = buffer@.take(chunk_len as int); let at = source + amount;
        assert(b == f0.subrange(source as int, cursor as int));
        assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == f0[source + i]);
        assert(file.g().data == f0.take(at) + b + f0.skip(at + b.len()));
        let f1 = file.g().data;
        assert forall|i: int| source + amount <= i < end + amount implies f1[i] == d[i - amount] by {
            if i < cursor + amount { assert(f1[i] == b[i - at]); } else { assert(f1[i] == f0[i]); }
        }
     }'''),
     ('before', 'Ok(())', '''proof {
        let e = file.g().data;
        assert(e.take(start as int) =~= d.take(start as int));
        assert(e.subrange(start + amount, end + amount) =~= d.subrange(start as int, end as int));
        assert(e.skip(end + amount) =~= d.skip(end + amount));
     }''')]),
Fn(F, 'shift_left', sig=SIG, spec='''requires old(buffer)@.len() > 0, amount <= start <= end, end <= old(file).g().data.len(), old(file).g().data.len() < 0x4000_0000_0000_0000,
    ensures final(file).g().faulty == old(file).g().faulty, r is Err ==> old(file).g().faulty, final(buffer)@.len() == old(buffer)@.len(),
      r is Ok ==> ({ let d = old(file).g().data; let e = final(file).g().data;
        &&& e.len() == d.len()
        &&& e.take(start - amount) == d.take(start - amount)
        &&& e.subrange(start - amount, end - amount) == d.subrange(start as int, end as int)
        &&& e.skip(end as int) == d.skip(end as int) }),''',
   subs=[MIN, ('re:file\\.write_all\\(&(\\w+)\\[\\.\\.(\\w+)\\]\\)', r'file.write_all(prefix(\1, \2))'), ('re:file\\.read_exact\\(&mut (\\w+)\\[\\.\\.(\\w+)\\]\\)', r'file.read_exact_prefix(\1, \2)')],
   loops=['''invariant buffer@.len() > 0, buffer@.len() == old(buffer)@.len(), amount <= start <= cursor <= end, end <= d.len(), d.len() < 0x4000_0000_0000_0000, d == old(file).g().data,
        file.g().faulty == old(file).g().faulty, file.g().data.len() == d.len(),
        forall|i: int| 0 <= i < start - amount ==> file.g().data[i] == d[i],
        forall|i: int| start - amount <= i < cursor - amount ==> file.g().data[i] == d[i + amount],
        forall|i: int| cursor <= i < d.len() ==> file.g().data[i] == d[i],
      decreases end - cursor,'''],
   ins=[('start', '', 'let ghost d = file.g().data;'),
     ('before', 'file.seek(SeekFrom::Start(cursor))?', 'let ghost f0 = file.g().data; let ghost c0 = cursor;'),
     ('after', 'cursor += chunk_len as u64;', '''proof {
        let b = buffer@.take(chunk_len as int); let at = c0 - amount;
        assert(b == f0.subrange(c0 as int, cursor as int));
        assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == f0[c0 + i]);
        assert(file.g().data == f0.take(at) + b + f0.skip(at + b.len()));
        let f1 = file.g().data;
        assert forall|i: int| start - amount <= i < cursor - amount implies f1[i] == d[i + amount] by {
            if i >= at { assert(f1[i] == b[i - at]); } else { assert(f1[i] == f0[i]); }
        }
     }'''),
     ('before', 'Ok(())', '''proof {
        let e = file.g().data;
        assert(e.take(start - amount) =~= d.take(start - amount));
        assert(e.subrange(start - amount, end - amount) =~= d.subrange(start as int, end as int));
        assert(e.skip(end as int) =~= d.skip(end as int));
     }''')]),
Fn(F, 'replace_range', sig=SIG, spec='''requires old(file).g().data.len() + replacement@.len() < 0x4000_0000_0000_0000,
    ensures
      r is Ok ==> range.start <= range.end <= old(file).g().data.len()
        && final(file).g().data == old(file).g().data.take(range.start as int) + replacement@ + old(file).g().data.skip(range.end as int),
      !(range.start <= range.end <= old(file).g().data.len()) ==> r is Err && final(file).g().data == old(file).g().data,
      r is Err ==> old(file).g().faulty || !(range.start <= range.end <= old(file).g().data.len()),''',
   subs=[(ERR[0], ERR[1], 3), ('Length::len(file)', 'file.len()'),
     ('re:u64::try_from\\((replacement\\.len\\(\\))\\)\\s*\\.map_err\\(\\|_\\|\\s*\\{?\\s*IoError \\{\\}\\s*\\}?\\)', r'len_u64(\1)'),
     ('re:(\\w+)\\.cmp\\(&(\\w+)\\)', r'cmp_u64(\1, \2)'), ('re:std::cmp::Ordering', 'Ordering', 3),
     ('extend_storage(file, difference, &buffer)', 'extend_storage(file, difference, buffer.as_slice())'),
     ('re:&mut buffer\\)', 'buffer.as_mut_slice())', 2)],
   ins=[('start', '', 'let ghost d = file.g().data;'), ('before', 'match cmp_u64(', 'proof { assert(forall|i: int| 0 <= i < buffer@.len() ==> buffer@[i] == 0); }'),
    ('after', 'shift_right(file, range.end, file_len, difference, buffer.as_mut_slice())?;', '''proof {
        let e = file.g().data; let x = d + Seq::new(difference as nat, |i: int| 0u8);
        assert(x.take(range.end as int) =~= d.take(range.end as int));
        assert(x.subrange(range.end as int, d.len() as int) =~= d.skip(range.end as int));
        assert(e.take(range.end as int) == d.take(range.end as int));
        assert(e.skip(range.end + difference) =~= e.subrange(range.end + difference, d.len() + difference));
        assert(e.take(range.start as int) =~= e.take(range.end as int).take(range.start as int));
        assert(d.take(range.start as int) =~= d.take(range.end as int).take(range.start as int));
     }'''),
    ('after', 'file.truncate(file_len - difference)?;', '''proof {
        let e = file.g().data;
        let lo = range.end - difference;
        assert(e.skip(lo) =~= d.skip(range.end as int));
        assert(e.take(lo) =~= d.take(lo));
        assert(e.take(range.start as int) =~= e.take(lo).take(range.start as int));
        assert(d.take(range.start as int) =~= d.take(lo).take(range.start as int));
     }'''),
    ('before', 'file.seek(SeekFrom::Start(range.start))?;', '''let ghost e = file.g().data;
      proof {
        assert(e.len() == d.len() - old_len + replacement_len);
        assert(e.take(range.start as int) =~= d.take(range.start as int));
        assert(e.skip(range.start + replacement@.len()) =~= d.skip(range.end as int));
      }'''),
    ('before', 'Ok(()) }', 'proof { assert(file.g().data =~= d.take(range.start as int) + replacement@ + d.skip(range.end as int)); }')]),
'''
} // verus!
''']
