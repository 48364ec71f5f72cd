#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L="lofty/src/"
p("P01", "Synchsafe integers are an exact, overflow-checked inverse pair",
  "For every 8-, 16- and 32-bit unsigned integer, encoding it as a synchsafe integer succeeds exactly when it fits in 7 usable bits per byte, the encoded form never has the top bit of any byte set, and decoding it gives the number back; an integer that does not fit is reported as an error and never silently truncated, while the widening encoding into the next larger width never loses a bit. Decoding ignores the top bit of every byte and concatenates the remaining 7-bit groups, most significant first, for every input.",
  ["inputs"], "every value of u8, u16 and u32, and their widening forms",
  "the suite samples a dozen values; a wrong shift in one byte lane or an off-by-one in the overflow bound only shows at specific bit patterns",
  [L+"id3/v2/util/synchsafe.rs"],
  [("synch/unsynch/widening_synch", L+"id3/v2/util/synchsafe.rs: trait SynchsafeInteger and its macro implementations")])

p("P02", "Removing ID3v2 unsynchronisation is exact and independent of chunking",
  "Reading any byte sequence through the unsynchronised-stream reader yields exactly that sequence with the zero byte after each 0xFF dropped (one zero per 0xFF), no byte more or less and in order. The result does not depend on the size of the caller's buffers, on how many bytes the underlying reader returns per call, or on where internal buffer boundaries fall.",
  ["inputs", "histories"], "every byte string of any length, every sequence of read sizes, every legal behaviour of the underlying reader",
  "tests use short literals well below the internal buffer size; FF/00 pairs straddling a refill or caller boundary are never exercised",
  [L+"id3/v2/util/synchsafe.rs"],
  [("UnsynchronizedStream::read", L+"id3/v2/util/synchsafe.rs: impl Read for UnsynchronizedStream")])

p("P03", "Ogg page checksums are the Ogg CRC-32 for every byte string",
  "For every byte string, the checksum the pager computes is the remainder of the message polynomial under generator 0x04C11DB7 with zero initial value, no bit reflection and no final inversion. Generating the checksum of a page stores, for every page content, exactly that checksum of the page's serialised bytes with the checksum field taken as zero.",
  ["inputs"], "byte strings of every length; every page",
  "tests compare a few whole files; one wrong table entry or an off-by-one in the indexing only shows for particular byte values",
  ["ogg_pager/src/crc.rs", "ogg_pager/src/lib.rs"],
  [("crc32 and its lookup table", "ogg_pager/src/crc.rs"), ("Page::gen_crc", "ogg_pager/src/lib.rs")])

p("P04", "Paginating packets loses nothing and yields well-formed Ogg pages",
  "Splitting any list of packets into pages keeps every byte of every packet in order, and the lacing values on the pages delimit exactly those packets again. Every page has one to 255 segments and the given serial number, sequence numbers count up by one from zero, a page is marked continued exactly when it starts in the middle of a packet, the beginning-of-stream mark is on the first page and the end-of-stream mark on the last page exactly when the caller asks for them, and the granule position is the given one on pages where a packet ends and the no-packet-ends marker on the others.",
  ["inputs"], "every list of packets of every length including empty ones, every serial number, granule position and flag byte",
  "tests paginate one or two fixed packets; the interesting lengths (multiples of 255 and of a full page) are points in an unbounded space",
  ["ogg_pager/src/paginate.rs", "ogg_pager/src/packets.rs"],
  [("paginate, paginate_packet, PaginateContext", "ogg_pager/src/paginate.rs"), ("Packets::{paginate,write_to}", "ogg_pager/src/packets.rs")])

p("P05", "Ogg page headers parse exactly and survive a write/read round trip",
  "Reading an Ogg page header accepts a byte string exactly when it starts with the capture pattern and version 0, has a flag byte and a segment table of at least one and as many entries as announced, and takes every field from its specified offset. Serialising any page and reading it back gives the same header fields and the same content, and no input whatever makes the reader panic.",
  ["inputs"], "every 27-byte header with every segment table, every page content",
  "tests parse pages of well-formed sample files only",
  ["ogg_pager/src/header.rs", "ogg_pager/src/lib.rs"],
  [("PageHeader::read", "ogg_pager/src/header.rs"), ("Page::read / Page::as_bytes", "ogg_pager/src/lib.rs")])

p("P06", "A packet list behaves as a sequence of byte strings",
  "Reading packets from a stream of pages yields exactly the packets that the lacing values delimit, however they are spread over pages and however pages are shared, and reading a number of packets takes the first that many. Replacing the packet at an index leaves every other packet and the packet count unchanged and makes that packet read back as the new content, growing or shrinking as needed; looking up or iterating yields each packet exactly, in order; an out-of-range index yields nothing and changes nothing.",
  ["inputs", "histories"], "every page layout, every packet list, every index, every replacement content, any sequence of replacements",
  "tests replace one packet in one fixed list",
  ["ogg_pager/src/packets.rs"],
  [("Packets::{read,read_count,len,get,set,iter}", "ogg_pager/src/packets.rs")])

p("P07", "ID3v2 tag headers decode exactly for every byte string",
  "Parsing an ID3v2 tag header succeeds exactly for the 'ID3' signature with a supported major version (2, 3 or 4, and no ID3v2.2 compression bit), takes every flag that the version defines from its own bit and the size as a synchsafe integer. The size of the whole tag computed from the header is exactly the header, the declared size (which includes the extended header), and a footer where the version has one. A well-formed extended header inside of the tag yields its CRC flag and restrictions, and exactly its bytes are taken out of the tag; one that announces fewer than six bytes is rejected. Searching for a tag leaves the reader at the first byte after it, or where it was when there is none. A tag that lofty writes with any combination of flags starts with a header that parses back to those flags, declares exactly the size that was written, and is followed by its first frame.",
  ["inputs"], "every 10-byte header, every extended header that follows it, every combination of tag flags written",
  "tests parse a handful of literal headers; flag bits are version dependent and never enumerated",
  [L+"id3/v2/header.rs", L+"id3/mod.rs", L+"id3/v2/write/mod.rs"],
  [("Id3v2Header::parse", L+"id3/v2/header.rs"), ("find_id3v2", L+"id3/mod.rs"), ("create_tag", L+"id3/v2/write/mod.rs")])

p("P08", "ID3v2 flag and restriction bytes are exact inverses of their decoded form",
  "Encoding frame flags for ID3v2.3 or ID3v2.4 and decoding the two bytes gives every flag back, each flag occupies exactly the bit its specification assigns, and no other bit is ever set. Decoding a tag-restrictions byte and encoding it again gives the same byte for every one of its 256 values, with each of the five fields taken from its own bits. A 10-byte frame header yields its identifier, its flags and its size, which is synchsafe exactly in ID3v2.4.",
  ["inputs"], "every flag combination, every restriction byte, both versions",
  "256 restriction bytes and every flag combination are not enumerated by tests, which check one value each",
  [L+"id3/v2/frame/header/mod.rs", L+"id3/v2/frame/mod.rs", L+"id3/v2/restrictions.rs", L+"id3/v2/frame/header/parse.rs"],
  [("FrameFlags::{parse_id3v24,parse_id3v23,as_id3v24_bytes,as_id3v23_bytes}", L+"id3/v2/frame/mod.rs"), ("TagRestrictions::{from_byte,as_bytes}", L+"id3/v2/restrictions.rs")])

p("P09", "MPEG audio frame headers decode per ISO 11172-3/13818-3 for every word",
  "For each of the 2^32 possible 4-byte frame headers, the decoder returns nothing exactly when version, layer, bitrate or sample rate is reserved, invalid or free-format, and otherwise the version, layer, bitrate, sample rate, channel mode, mode extension, copyright, original, emphasis, samples per frame and frame length in bytes that the standard prescribes. No header word makes it panic, and a frame sync is recognised exactly when the first eleven bits are set. Two headers belong to one stream exactly when version, layer and sample rate agree, and a Xing/Info or VBRI header yields its stored frame and byte counts.",
  ["inputs"], "all 2^32 header words",
  "fixtures contain a few dozen distinct header words, mostly Layer III at 44.1 kHz",
  [L+"mpeg/header.rs", L+"mpeg/constants.rs"],
  [("Header::read, verify_frame_sync", L+"mpeg/header.rs"), ("BITRATES, SAMPLE_RATES, SAMPLES, PADDING_SIZES", L+"mpeg/constants.rs")])

p("P10", "AAC ADTS frame headers decode exactly and never panic",
  "For every byte string, decoding an ADTS frame header takes profile, sample rate, channel configuration, copyright and original bits and the 13-bit frame length from their positions in the ADTS layout, derives the CRC presence and bitrate from them, leaves the reader after the header (and its CRC, if present), and returns an error exactly for a truncated header or the forbidden sample rate index. It never panics or mis-shifts a field.",
  ["inputs"], "every 7- and 9-byte header",
  "fixtures hold two ADTS files",
  [L+"aac/header.rs"], [("ADTSHeader::read", L+"aac/header.rs")])

p("P11", "FLAC metadata block headers and STREAMINFO decode exactly",
  "For every byte string, a FLAC metadata block is read with its last-block bit, 7-bit type and 24-bit length taken from their own bits, with the content exactly the following length bytes, and its start and end offsets are the positions of its first and one-past-last byte; a block written out reads back with the same bits and content, and a content longer than 24 bits can express is an error, not a truncated length. STREAMINFO decoding takes the 20-bit sample rate, 3-bit channel count, 5-bit depth and 36-bit sample total from their bit positions for every content, and no input makes it panic.",
  ["inputs"], "every 4-byte block header, every STREAMINFO content, every stream length",
  "fixtures contain three FLAC files with ordinary values",
  [L+"flac/block.rs", L+"flac/properties.rs"],
  [("Block::read / Block::write_to", L+"flac/block.rs"), ("read_properties", L+"flac/properties.rs")])

p("P12", "AIFF and WAV format chunks decode exactly and never panic",
  "For every content of the format chunk (WAV 'fmt ' or AIFF 'COMM') and every stream and file length, decoding reports channel count, sample rate, bit depth, channel mask and format from their specified positions (with fewer than 256 channels), with an 80-bit extended sample rate converted to the value it denotes, or returns an error exactly when the chunk is truncated or its values are unusable (no channels, a negative or infinite rate, and so on); it never panics, divides by zero or overflows.",
  ["inputs"], "every chunk content, stream length and file length below 2^60 bytes",
  "fixtures have 44.1/48 kHz 16-bit files; zero rates, extreme exponents and extensible formats are not covered",
  [L+"iff/aiff/properties.rs", L+"iff/wav/properties.rs", L+"util/math.rs"],
  [("read_properties (aiff, wav)", L+"iff/{aiff,wav}/properties.rs"), ("F80::as_f64", L+"util/math.rs")])

p("P13", "RIFF/AIFF chunk iteration visits chunk boundaries and stays in bounds",
  "Iterating over the chunks of any RIFF or AIFF stream yields each chunk with its identifier, size and start position as stored, and skipping a chunk moves exactly past its content and its pad byte to the next chunk (a missing pad byte is tolerated where a chunk identifier follows at once). The position in the list is right after any reading and seeking within a chunk, and after iterating over the chunks within a chunk. A chunk whose size exceeds what is left of the stream is an error in strict mode and never makes the iterator read or report a position outside the stream, whatever the bytes are.",
  ["inputs", "histories"], "every stream of every length, both byte orders, every sequence of next/skip/content operations",
  "tests hold a few well-formed files plus some padding cases",
  [L+"iff/chunk.rs"], [("Chunks::{next,skip,content}", L+"iff/chunk.rs")])

p("P14", "MP4 atom headers decode exactly, bounded by the file, without panicking",
  "For every byte sequence at an atom position, decoding an atom header gives the identifier, the position, and the 32-bit, 64-bit or to-end-of-file length as ISO 14496-12 defines, including '----' freeform identifiers, or an error. A length smaller than the header or reaching past the end of the enclosing data is reported as an error or clamped, and no arithmetic on lengths wraps or panics, in any parsing mode.",
  ["inputs", "configurations"], "every header content, every position and file size up to 2^63, every parsing mode",
  "fixtures contain well-formed atoms; 64-bit and zero lengths appear once each",
  [L+"mp4/atom_info.rs", L+"mp4/read/atom_reader.rs"],
  [("AtomInfo::read", L+"mp4/atom_info.rs"), ("AtomReader", L+"mp4/read/atom_reader.rs")])

p("P15", "APE tag headers and footers decode exactly and round-trip",
  "For every APE tag header or footer, the decoded item count and size are those stored (the size including the header where the flags say that there is one), a truncated one, a size below 32 or beyond the file is an error, and no content or file position makes decoding wrap or panic. Items decode to the stored key, kind, read-only flag and value, in order. Writing an APE tag produces a header and a footer that both carry the size and item count of the items actually written, with items laid out as specified, so that reading it back, by its header or its footer, yields the same items byte for byte (but for trailing null characters of texts).",
  ["inputs"], "every header/footer content and position; every list of items within the size limits",
  "tests read two fixture tags",
  [L+"ape/tag/header.rs", L+"ape/tag/read.rs", L+"ape/tag/write.rs"],
  [("read_ape_header", L+"ape/tag/header.rs"), ("create_ape_tag", L+"ape/tag/write.rs")])

p("P16", "Saving FLAC metadata replaces exactly the metadata range",
  "Replacing a byte range of a file by new metadata of any size leaves the file as prefix, new metadata and old suffix, byte for byte, with the length adjusted exactly, wherever the range is and whatever the relative sizes are. A range that is reversed or extends beyond the file is an error that changes nothing. Saving a tag to a FLAC file with any metadata blocks replaces its comment and picture blocks only: what precedes the blocks, every other block and the audio stay, in order.",
  ["inputs"], "every file content and length, every range, every replacement length (longer, shorter, equal), unbounded",
  "tests replace five fixed ranges; the move is done in 64 KiB steps whose boundaries depend on file size and on the shift",
  [L+"flac/write.rs"], [("replace_range, extend_storage, shift_right, shift_left", L+"flac/write.rs")])

p("P17", "ID3v1 tags occupy exactly 128 bytes and round-trip",
  "Encoding any ID3v1 tag yields exactly 128 bytes beginning with 'TAG', with every field at its fixed offset, cut to its fixed width and zero padded. Parsing any 128 bytes never panics and takes each field from its own offset, with the track number present exactly when the byte before it is zero and it is not, and a tag whose fields fit and are Latin-1 reads back unchanged. A tag is found in a file exactly when the last 128 bytes begin with 'TAG' and are not the end of an APE tag; saving replaces or appends those 128 bytes, removing cuts them off, and nothing else of the file changes.",
  ["inputs"], "every 128-byte block; every tag content including non-Latin-1 and over-long strings, every genre and year",
  "tests parse one fixture tag",
  [L+"id3/v1/read.rs", L+"id3/v1/write.rs"],
  [("Id3v1Tag::parse", L+"id3/v1/read.rs"), ("encode, write_id3v1", L+"id3/v1/write.rs"), ("find_id3v1", L+"id3/mod.rs")])

p("P18", "Star ratings and play counters survive each rating scheme",
  "For every rating provider and tag type, storing a star rating and reading it back gives the same number of stars, the mapping from raw values to stars is non-decreasing over all 256 raw values, and stored values increase strictly with the stars. A rating in a generic tag comes back from ID3v2 and Vorbis comments with its e-mail and number of stars. A popularimeter frame keeps its e-mail, its rating byte and any 64-bit play counter across a write/read round trip, storing the counter in at least four bytes.",
  ["inputs", "configurations"], "5 ratings x 256 raw values x every provider x every tag type; every 64-bit counter",
  "tests check single values per provider; counters above 2^32 are sampled once",
  [L+"tag/items/popularimeter.rs", L+"id3/v2/items/popularimeter.rs"],
  [("RatingProvider implementations", L+"tag/items/popularimeter.rs"), ("PopularimeterFrame::{parse,as_bytes}", L+"id3/v2/items/popularimeter.rs")])

p("P19", "Timestamps parse, validate, order and print consistently",
  "A timestamp may be written exactly when the year has at most four digits, no present field is beyond its largest calendar value (month 12, day 31, hour 23, minute and second 59; zero is accepted everywhere) and no field is present without all the larger ones. Every such timestamp prints in the ISO 8601 subset form that parses back to the same timestamp in every parsing mode, comparison orders timestamps chronologically field by field, and parsing any byte string returns an error or a timestamp in which no field is present without all the larger ones, without panicking.",
  ["inputs", "configurations"], "every combination of field values; every input string; every parsing mode",
  "tests cover about twenty strings; the field combinations number in the billions",
  [L+"tag/items/timestamp.rs"], [("Timestamp::{parse,verify,fmt,cmp}", L+"tag/items/timestamp.rs")])

p("P20", "Text encodings round-trip and reject what they cannot express",
  "For every Unicode string without U+0000, encoding it as UTF-8, UTF-16 with byte order mark or UTF-16 big endian and decoding it gives the string back, terminated or not (a byte order mark at the very start of UTF-16 big endian text is not part of the text); encoding as Latin-1 succeeds exactly when every character is below U+0100 (and then round-trips), and otherwise reports the byte index of the first one that is not, unless lossy mode is requested, which replaces only those. Decoding arbitrary bytes in any encoding consumes exactly the text and its terminator, fails exactly when the bytes are no text of that encoding, and never panics.",
  ["inputs", "configurations"], "every string and every byte string, four encodings, terminated or not, lossy or not",
  "tests use one 4-letter word per encoding",
  [L+"util/text.rs"], [("decode_text, TextEncoding::encode, latin1/utf16 helpers", L+"util/text.rs")])

p("P21", "Picture blocks round-trip and hostile image data never panics",
  "A picture of a type with a code of its own, with a canonical MIME type or none (a known one, or another non-empty text that is no name of a known one and does not end in null characters), a description that is absent or non-empty without null characters at its end, and up to 4 GiB of each, written as a FLAC/Vorbis picture block, raw or base64, reads back in every parsing mode with the same type, MIME type, description, dimensions and data; as an APE cover-art item (description without null characters, data of at least eight bytes with the signature of the MIME type) it reads back with the same type, description, MIME type and data. Decoding arbitrary bytes never panics: a picture block or cover-art item is read exactly as its layout says or refused; of a PNG or JPEG the dimensions, depth and palette size are those in its header.",
  ["inputs", "configurations"], "every picture type, MIME type, description and data; every byte string; three parsing modes",
  "tests decode a few fixture images with ASCII descriptions",
  [L+"picture/mod.rs"],
  [("Picture::{as_flac_bytes,from_flac_bytes,as_ape_bytes,from_ape_bytes,mimetype_from_bin}", L+"picture/mod.rs"), ("PictureInformation::{from_png,from_jpeg}", L+"picture/mod.rs"), ("PictureType::{as_u8,from_u8}", L+"picture/mod.rs")])

p("P22", "The allocation limit bounds every buffer sized by file contents",
  "Whatever sizes a file announces, a buffer requested through the library's fallible allocation never exceeds the configured allocation limit: a larger request is refused with an error before memory is reserved, and a smaller one yields a buffer of exactly the requested length filled with the requested value.",
  ["inputs", "configurations"], "every requested size, every configured limit",
  "tests try one size below and one above the default limit",
  [L+"util/alloc.rs", L+"config/global_options.rs"],
  [("fallible_repeat, try_with_capacity_stable", L+"util/alloc.rs")])

p("P23", "File type detection matches each format's signature and nothing else",
  "For every buffer, the file type guessed from its content is the one whose documented signature the buffer carries (magic bytes at their offsets, MPEG versus ADTS by the sync and layer bits), and nothing when no complete signature is present; a buffer of any length, including empty, never makes detection panic. A probe on a stream guesses the same from the bytes at its position; behind a leading ID3v2 tag or behind junk it finds the signature or the first sync word within the configured junk limit and no further, and it leaves the stream where it was.",
  ["inputs", "configurations"], "every buffer content and length, every stream, position and junk limit",
  "tests probe one fixture per format",
  [L+"file/file_type.rs", L+"probe.rs"], [("FileType::from_buffer", L+"file/file_type.rs"), ("Probe::guess_file_type", L+"probe.rs")])

p("P24", "Saving ID3v2 into WAV/AIFF keeps every other chunk and a valid container",
  "After writing or removing an ID3v2 tag in any well-formed WAV or AIFF file (a chunk list within the size of its container, zero pad bytes, at most one ID3v2 chunk), the file is again a well-formed chunk list whose container size field matches it, every other chunk is present with identical content and order (padding chunks aside), and it contains exactly the new tag, or none if it was removed; what follows the container stays. This holds wherever the old tag chunk is, and whether the new one is larger, smaller or equal.",
  ["inputs", "histories"], "every chunk layout, old and new tag size, padding preference, and sequence of saves",
  "tests save into fixtures whose tag happens to be last and shrinks",
  [L+"id3/v2/write/chunk_file.rs", L+"iff/chunk.rs"],
  [("write_to_chunk_file", L+"id3/v2/write/chunk_file.rs")])

p("P25", "Saving a trailing or leading tag leaves the rest of the file untouched",
  "Writing, rewriting or removing an ID3v1, APE or ID3v2 tag on any audio file leaves the bytes outside that tag, and every other tag in the file, identical and in order, and a removed tag leaves no trace.",
  ["inputs", "histories"], "every file content and combination of tags, every sequence of saves",
  "tests save into a few fixtures and compare parsed tags, not the surrounding bytes",
  [L+"id3/v1/write.rs", L+"ape/tag/write.rs", L+"id3/v2/write/mod.rs"],
  [("write_id3v1", L+"id3/v1/write.rs"), ("ape write_to", L+"ape/tag/write.rs"), ("id3v2 write", L+"id3/v2/write/mod.rs")])

p("P26", "Format keys and generic item keys map one-to-one per tag type",
  "For every tag type, a format key that maps to a generic item key maps back to a format key with the same meaning, no two generic keys share one format key, and mapping is insensitive to case exactly where the format is.",
  ["inputs"], "every item key x every tag type, every key string",
  "tests check a handful of keys",
  [L+"tag/item.rs"], [("ItemKey::{from_key,map_key}", L+"tag/item.rs")])

p("P27", "Musepack, WavPack and Monkey's Audio headers decode exactly, without panics",
  "For every byte string, decoding a Musepack SV8 variable-length size takes seven bits per byte while the continuation bit is set and reports a truncated or overlong one as an error. Decoding a Musepack SV4-6, SV7 or SV8 header, a WavPack block header, its metadata sub-blocks or a Monkey's Audio header takes every field from its specified bits, skips exactly the announced size of what it does not use, derives the duration from the sample count and rate, and returns a result or an error, never panicking, overflowing or dividing by zero.",
  ["inputs"], "every header content, every announced size and sample count",
  "fixtures hold one or two files per format",
  [L+"musepack/sv8/read.rs", L+"musepack/sv8/properties.rs", L+"musepack/sv7/properties.rs", L+"musepack/sv4to6/properties.rs", L+"wavpack/properties.rs", L+"ape/properties.rs"],
  [("PacketReader::{next,read_size}", L+"musepack/sv8/read.rs"), ("parse_wv_header, get_extended_meta_info", L+"wavpack/properties.rs"), ("properties_gt_3980, properties_lt_3980", L+"ape/properties.rs")])

p("P28", "Backward reads and pattern searches find the last occurrence",
  "Searching backwards from any position in any file finds the occurrence of the pattern closest before that position, wherever it falls relative to the internal buffer boundaries and even if occurrences overlap, leaves the reader at its start, and reports absence only if there is none.",
  ["inputs"], "every file content, pattern, starting position",
  "tests search two or three short buffers",
  [L+"util/io.rs"], [("RevPatternSearcher", L+"util/io.rs")])

p("P29", "Reading any file returns a value or an error, never a panic",
  "Probing and reading any byte sequence as any supported file type, with any parse options, terminates with a parsed file or an error; it never panics, overflows, or loops forever.",
  ["inputs", "configurations"], "every byte sequence, file type and parse option",
  "fuzzing fixtures cover known crashes only",
  [L+"probe.rs", L+"file/tagged_file.rs", L+"mp4/read/mod.rs", L+"id3/v2/read.rs"],
  [("Probe::read and every AudioFile::read_from", L+"probe.rs")])

p("P30", "Converting to a generic tag and back preserves the format-specific tag",
  "Splitting any ID3v2, MP4, APE or Vorbis tag into its generic part and a remainder and merging them again gives a tag with the same items; nothing is lost because it has no generic counterpart.",
  ["inputs"], "every tag content",
  "tests round-trip one fixture per format",
  [L+"tag/split_merge_tag.rs", L+"id3/v2/tag.rs", L+"mp4/ilst/mod.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs"],
  [("SplitTag/MergeTag implementations", L+"*/tag*.rs")])

p("P31", "Saving an MP4 tag keeps media data reachable and everything else as it was",
  "For every readable MP4 file with a moov atom of less than 4 GiB whose offset tables lie within their atoms, and every MP4 tag and preferred padding: saving replaces exactly the existing ilst atom and free atoms next to it (or puts a new one into the existing meta, udta or moov), gives every enclosing atom its new size, and changes every chunk offset (stco, co64, and the base data offsets of tfhd) that points behind the change by exactly the change in size, so that each still points at the same bytes; all other bytes of the file stay as they were, and a file that cannot be saved is reported as an error and left untouched.",
  ["inputs"], "every atom layout, size, offset table, tag and padding preference",
  "the tests save into a handful of fixtures and look at no offsets",
  [L+"mp4/ilst/write.rs", L+"mp4/write.rs", L+"mp4/read/mod.rs", L+"mp4/atom_info.rs"],
  [("write_to, save_to_existing, update_offsets, pad_atom", L+"mp4/ilst/write.rs"), ("ContextualAtom::read, AtomFindAll, AtomWriterCompanion::write_atom_size", L+"mp4/write.rs")])
p("P32", "Saving Vorbis comments into an Ogg file changes the comment packet only",
  "For every Ogg Vorbis, Opus or Speex file whose first logical stream begins with its header packets, and every set of Vorbis comments and pictures: after a successful save the header packets other than the comment packet are the same bytes, and the comment packet is the format's signature, the vendor string that was there (empty if it was not UTF-8), the number of fields, every non-empty item as KEY=value in order, every picture as METADATA_BLOCK_PICTURE, and for Vorbis the framing byte 1; every later page of the stream keeps its content, lacing values, flags, granule position and serial number, has a valid checksum, and is numbered consecutively after the header pages; pages of other logical streams, and everything from the first unreadable page on, are the same bytes. A save that fails leaves the file as it was.",
  ["inputs"], "every file, page layout, serial number, tag and picture",
  "the tests save into a handful of fixtures and look at the tag only",
  [L+"ogg/tag/write.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/lib.rs", "ogg_pager/src/paginate.rs"],
  [("write, create_metadata_packet, create_comments, create_pictures", L+"ogg/tag/write.rs"), ("Packets::set, Packets::write_to", "ogg_pager/src/packets.rs"), ("Page::gen_crc", "ogg_pager/src/lib.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
