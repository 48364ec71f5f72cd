"""What each property's check runs."""
PROPS = {}
NOT_APPLICABLE = {
    'P29': 'a guarantee over every path of every parser at once: no modular contract within reach of Kani or Verus covers the dynamic dispatch, generics and allocation of whole-file reading; the parts that are within reach are P05, P07, P09-P15, P17, P20-P23 and P27',
    'P30': 'the split/merge implementations move strings through hash maps, closures and iterator chains over library collections, which neither verifier can take symbolically; the key mapping they rest on is P26',
}


def P(pid, **kw):
    PROPS[pid] = kw


P('P01', level='proof', technique='Kani contracts on the real conversions, complete over every input',
  note='every operation on u8, u16, u32 and the widening forms, all values',
  functions=['id3::v2::util::synchsafe::SynchsafeInteger for u8/u16/u32: synch, widening_synch, unsynch'])
P('P02', level='proof', verus=['unsync'], technique='Verus contract on the real reader; the same contract executed',
  note='UnsynchronizedStream::{new, read} proved for every byte string, every read size and every reader that keeps the contract of std::io::Read',
  functions=['id3::v2::util::synchsafe::UnsynchronizedStream::{new, read}'])
P('P03', level='proof', verus=['crc', 'page_header'], technique='Verus contracts on the real checksum and serialisation functions; the same contracts executed, and checked to a bound with Kani',
  note='crc32 proved equal to the polynomial remainder for every byte string of any length; Page::gen_crc proved to store that remainder of the page\'s bytes with a zero checksum',
  functions=['ogg_pager::crc32', 'Page::{gen_crc, as_bytes}'])
P('P04', level='proof', verus=['paginate', 'packets_write'], technique='Verus contracts on the real pagination functions; the same contracts executed',
  note='paginate, paginate_packet, flush_page, fresh_packet, Packets::paginate and Packets::write_to proved for every packet list',
  functions=['ogg_pager::paginate::{paginate, paginate_packet}', 'PaginateContext::{new, fresh_packet, flush_page}', 'Packets::{paginate, write_to}'])
P('P05', level='proof', verus=['page_header'], technique='Verus contracts on the real page reader and writer; the same contracts executed, and checked to a bound with Kani',
  note='PageHeader::read, Page::read, Page::as_bytes and Page::gen_crc proved for every stream and every page, over an assumed contract of the reader',
  functions=['ogg_pager::PageHeader::{new, read, content_size, header_type_flag, checksum}', 'ogg_pager::Page::{read, as_bytes, gen_crc, content, take_content}'])
P('P06', level='proof', verus=['packets', 'read_packets'], technique='Verus contracts on the real packet list; the same contracts executed on histories',
  note='read_count (results that are Ok), get, set, packet_span, len, is_empty and the iterator proved for every stream and every list; errors of read_count executed',
  functions=['ogg_pager::Packets::{read_count, get_byte_count_to_read, len, is_empty, packet_span, get, set}', 'PacketsIter::next'])
P('P07', level='proof', hooks=['id3'], verus=['id3v2_header'], technique='Verus contracts on the real header, extended header and search functions, a complete Kani contract on the header decoder; the same contracts executed',
  note='every header with every extended header, every stream with junk and several tags, proved over an assumed contract of the reader; written tags are executed on generated inputs, not proved',
  functions=['id3::v2::header::Id3v2Header::{parse, full_tag_size}', 'id3::v2::header::{read_extended_header, ExtendedHeaderReader}', 'id3::{find_id3v2, find_id3v2_in_junk}', 'id3::v2::write::write_id3v2', 'executed only: id3::v2::write::{create_tag, create_tag_header}'])
P('P08', level='proof', hooks=['id3'], technique='Kani contracts on the real flag and restriction codecs, complete over every input',
  note='all flag combinations, all flag words, all 256 restriction bytes; the 10-byte frame header is executed, not proved',
  functions=['FrameFlags::{parse_id3v24,parse_id3v23,as_id3v24_bytes,as_id3v23_bytes}', 'TagRestrictions::{from_byte,as_bytes}', 'frame header parse_v2_header (executed only)'])
P('P09', level='proof', hooks=['mpeg'], technique='Kani contracts on the real header decoder, complete over every header word',
  note='all 2^32 header words against the tables of ISO 11172-3/13818-3; the sync search is bounded to 6 bytes',
  functions=['mpeg::header::Header::read', 'Header::cmp', 'verify_frame_sync', 'VbrHeader::read', 'search_for_frame_sync (bounded)'])
P('P10', level='proof', hooks=['aac'], technique='Kani contract on the real ADTS decoder, complete over every header',
  note='every header of up to 12 bytes in every parsing mode',
  functions=['aac::header::ADTSHeader::read'])
P('P11', level='proof', hooks=['flac'], verus=['flac_save'], technique='Verus contracts on the real block codec, a complete Kani contract on the STREAMINFO decoder; the same contracts executed',
  note='blocks of every type, size and position, and their round trip, proved over an assumed contract of the reader; every STREAMINFO',
  functions=['flac::block::Block::{read, write_to, len, new_padding, new_picture}', 'flac::read::verify_flac', 'flac::properties::read_properties'])
P('P12', level='proof', hooks=['iff', 'util'], technique='Kani contracts on the real COMM and fmt decoders and the 80-bit float conversion',
  note='every COMM content up to 22 bytes, every fmt content up to 48 bytes, every 80-bit float; compression types and durations executed, not proved',
  kani_timeout=dict(quick=450, thorough=900), kani_total=dict(quick=600, thorough=1500),
  functions=['iff::aiff::properties::read_properties', 'iff::wav::properties::read_properties', 'util::math::F80::{from_be_bytes,as_f64}'])
P('P13', level='proof', hooks=['iff'], verus=['chunks', 'chunk_read'], technique='Verus contracts on the real chunk iterator, Kani contract on the identifier check; the same contracts executed',
  note='new, next, skip, lock, unlock, correct_position, stream_position and the reads and seeks within a chunk proved for every stream and every history, over an assumed contract of the reader; Chunk::content executed',
  functions=['iff::chunk::Chunks::{new, next, skip, lock, unlock, correct_position, stream_position}', 'iff::chunk::Chunk::{read, seek}', 'iff::chunk::valid_fourcc', 'executed only: Chunk::content'])
P('P14', level='proof', hooks=['mp4'], verus=['mp4_atom', 'mp4_reader'], technique='Verus contracts on the real atom decoder and the bounded reader; the same contracts executed',
  note='AtomInfo::read with 32-bit, 64-bit and to-end lengths and freeform identifiers, skip_atom and every operation of AtomReader proved for every stream, over an assumed contract of the reader; the identifier check executed for every byte value',
  functions=['mp4::atom_info::AtomInfo::{read, read_inner, header_size}', 'mp4::atom_info::{parse_freeform, freeform_chunk}', 'mp4::read::skip_atom', 'mp4::read::AtomReader::{reset_bounds, read_u8, read_u16, read_u32, read_u64, next, seek, read}'])
P('P15', level='proof', hooks=['ape'], verus=['ape_header', 'ape_write'], technique='Verus contracts on the real reader and writer of APE tags; the same contracts executed',
  note='read_ape_header, read_ape_tag_with_header, parse_item_with_key proved for every stream and create_ape_tag for every list of items, over assumed contracts of the reader, the cursor and text decoding',
  functions=['ape::tag::header::read_ape_header', 'ape::tag::read::{read_ape_tag_with_header, parse_item_with_key}', 'ape::tag::write::create_ape_tag', 'executed only: read_ape_tag, ApeItem::new, ApeTag::insert'])
P('P16', level='proof', hooks=['flac'], verus=['replace_range', 'flac_save'], technique='Verus contracts on the real functions that save a FLAC tag and move the file contents; whole saves executed',
  note='write_to_inner proved for every list of blocks, every tag and every padding: the new blocks are the others in order, the tag and the padding, they read back as such, and the rest of the file is kept; replace_range, extend_storage, shift_right and shift_left proved for every file, range and replacement; over assumed contracts of the file, of find_id3v2 and of the encoders of comments and pictures',
  functions=['flac::write::{write_to_inner, encode_tag, replace_range, extend_storage, shift_right, shift_left}', 'flac::block::Block::{read, write_to, len, new_padding, new_picture}', 'flac::read::verify_flac', 'executed only: Block::new_comments, Picture::as_flac_bytes'])
P('P27', level='proof', hooks=['musepack', 'wavpack', 'ape'], verus=['wavpack', 'musepack'], technique='Verus contracts on the real WavPack and Musepack readers, complete Kani contracts on the Monkey\'s Audio and block headers; the same contracts executed on whole streams',
  note='WavPack block walk and metadata, Musepack SV8 packets and headers, SV7 and SV4-6 headers proved for every stream, over an assumed contract of the reader; both Monkey\'s Audio headers complete; the float arithmetic of durations and bitrates executed, not proved',
  functions=['wavpack::properties::{read_properties, parse_wv_header, get_extended_meta_info}', 'musepack::sv8::read::{read_from, PacketReader::new, next, read_size, read}', 'musepack::sv8::properties::{StreamHeader, ReplayGain, EncoderInfo}::read', 'musepack::sv8::properties::read', 'musepack::sv7::properties::{MpcSv7Properties::read, Profile::from_u8, Link::from_u8}', 'musepack::sv4to6::properties::MpcSv4to6Properties::read', 'ape::properties::{read_properties, properties_gt_3980, properties_lt_3980, verify}', 'executed only: ape::properties::get_duration_bitrate'])
P('P18', level='proof', hooks=['id3'], verus=['popm'], technique='complete Kani contract on the rating providers, Verus contracts on the real reader and writer of popularimeter frames; the same contracts executed',
  note='providers proved for every tag type, raw value and rating; frames for every e-mail, rating, counter and input, with their round trip as a lemma; the conversions between generic tags and formats are executed',
  functions=['tag::items::popularimeter::{MusicBeeProvider, WindowsMediaPlayerProvider, PicardProvider, DefaultRatingProvider}::{rate, convert_raw}', 'id3::v2::items::popularimeter::PopularimeterFrame::{parse, as_bytes}'])
P('P19', level='proof', hooks=['id3'], verus=['timestamp'], technique='Verus contracts on the real printer, parser and verifier of timestamps, a complete Kani contract on their order; the same contracts executed',
  note='print, segment, parse and verify proved for every timestamp and every input, with the round trip through every mode; Ord proved for every pair',
  functions=['tag::items::timestamp::{Timestamp::fmt, Timestamp::segment, Timestamp::parse, Timestamp::verify, verify_field, Timestamp::cmp}'])
P('P20', level='proof', hooks=['util'], verus=['text'], technique='Verus contracts on the real text encoders and decoders, with their round trip as a lemma; the same contracts executed',
  note='every text, every byte string, all encodings, terminated or not, lossy or not; UTF-8 is that of std, UTF-16 is spelled out and proved injective',
  functions=['util::text::{TextEncoding::encode, latin1_encode, utf16_encode, decode_text, read_to_terminator, latin1_decode, utf8_decode, utf16_decode, utf16_decode_bytes, utf16_decode_terminated_maybe_bom}'])
P('P21', level='proof', hooks=[], verus=['picture'], technique='Verus contracts on the real picture encoders and decoders, with their round trips as lemmas; the same contracts executed',
  note='every picture and every byte string; that base64 decoding inverts encoding is assumed (and executed), the MIME type names and APE keys are executed exhaustively; PictureInformation::from_picture, Picture::from_reader and COVERART fields executed only',
  functions=['picture::Picture::{as_flac_bytes, from_flac_bytes, from_flac_bytes_inner, as_ape_bytes, from_ape_bytes, mimetype_from_bin}', 'picture::PictureInformation::{from_png, from_jpeg}', 'picture::PictureType::{as_u8, from_u8}', 'executed only: MimeType::{from_str, as_str}, PictureType::{as_ape_key, from_ape_key}, PictureInformation::from_picture, Picture::from_reader'])
P('P22', level='proof', hooks=['util'], verus=['alloc'], technique='Verus contracts on the real allocation functions; the same contracts executed, also through whole files',
  note='exceeds_limit, fallible_repeat, fallible_vec_from_element and try_with_capacity_stable proved for every element type, size and limit, over an assumed contract of Vec; that a file\'s fields go through them is executed, not proved',
  functions=['util::alloc::{exceeds_limit, fallible_repeat, fallible_vec_from_element, try_with_capacity_stable}', 'executed only: reading whole files'])
P('P28', level='proof', hooks=['util'], verus=['rfind'], technique='Verus contract on the real search function; the same contract executed',
  note='RevPatternSearcher::search proved for every stream, pattern, buffer size, start and end, over assumed contracts of the reader and of the search within one buffer',
  functions=['util::io::RevPatternSearcher::search'])
P('P17', level='proof', hooks=['id3'], verus=['id3v1', 'id3v1_find'], technique='Verus contracts on the real reader, writer and search of ID3v1 tags; the same contracts executed',
  note='parse proved for every 128 bytes, encode for every tag, their round trip as a lemma; find_id3v1 and write_id3v1 for every file, over assumed contracts of reader, file and Latin-1',
  functions=['id3::v1::read::{Id3v1Tag::parse, decode_text, try_parse_year}', 'id3::v1::write::{encode, resize_string, write_id3v1}', 'id3::{find_id3v1, is_ape_preamble}'])
P('P23', level='proof', hooks=[], verus=['detect'], technique='Verus contracts on the real detection functions, a complete Kani contract on FileType::from_buffer up to 40 bytes; the same contracts executed',
  note='from_buffer, guess_inner and the search for a sync word proved for every buffer and every stream, over an assumed contract of the reader; custom resolvers left out',
  functions=['file::file_type::FileType::{from_buffer, from_buffer_inner, quick_type_guess}', 'probe::Probe::{guess_inner, check_mpeg_or_aac}', 'mpeg::header::{verify_frame_sync, search_for_frame_sync}'])
P('P24', level='proof', hooks=[], verus=['chunk_file'], technique='Verus contracts on the real functions that find and replace the tag chunk, over well-formed chunk lists; whole saves executed',
  note='find_existing_id3v2_tag, write_id3v2_chunk and write_to_chunk_file proved for every well-formed file with at most one tag chunk, every tag and every option, over assumed contracts of the file and of Vec::{splice, drain}; histories follow by induction, each save giving a well-formed file',
  functions=['id3::v2::write::chunk_file::{write_to_chunk_file, find_existing_id3v2_tag, write_id3v2_chunk}', 'executed only: create_tag'])
P('P25', level='proof', hooks=[], verus=['id3v2_header', 'ape_save', 'id3v1_find'], technique='Verus contracts on the real functions that find and replace the tags; sequences of saves executed',
  note='write_id3v2, the APE and the ID3v1 write_to and the searches they rest on proved for every file, every tag and every option, over assumed contracts of the file and of Vec::{splice, drain}; sequences of saves follow, each giving a file again',
  functions=['id3::v2::write::write_id3v2', 'id3::{find_id3v2, find_id3v2_in_junk, find_id3v1, find_lyrics3v2, is_ape_preamble}', 'ape::tag::write::{write_to, find_existing_ape_tags, write_tag}', 'ape::tag::read::read_ape_tag', 'id3::v1::write::write_id3v1', 'executed only: create_tag, create_ape_tag'])
P('P31', level='proof', hooks=[], verus=['mp4_atom', 'mp4_save'], technique='Verus contracts on the real functions that read the atoms of a file, replace its tag, resize its parents and move the offsets of its media data; whole saves executed',
  note='write_to and everything it calls proved for every file whose moov stays below 4 GiB and whose offset tables fit in their atoms, every tag and every preferred padding: exactly the tag and its padding are replaced, exactly the offsets behind it are moved, and every other byte is kept; over an assumed contract of Cursor<Vec<u8>>; build_ilst and verify_mp4 are executed',
  functions=['mp4::ilst::write::{write_to, save_to_existing, update_offsets, pad_atom, write_free_atom, create_meta, create_udta}', 'mp4::write::{ContextualAtom::read, ContextualAtom::find_all_children, AtomFindAll::next, AtomWriter::new_from_file, AtomWriter::find_contextual_atom, AtomWriter::save_to, AtomWriterCompanion::write_atom_size}', 'mp4::read::{find_child_atom, atom_tree, meta_is_full}', 'mp4::atom_info::{AtomInfo::read, AtomInfo::header_size}', 'executed only: build_ilst, verify_mp4'])
P('P32', level='proof', hooks=[], verus=['ogg_comments', 'ogg_save', 'read_packets', 'packets', 'paginate', 'packets_write', 'page_header'], technique='Verus contracts on the real functions that build the comment packet, repaginate the headers and renumber the pages behind them; whole saves executed',
  note='write, create_metadata_packet and what they call in ogg_pager proved for every file, tag and format, over assumed contracts of the file, of Cursor<Vec<u8>> and of the pictures\' base64 text; merging the tag and the choice of items are executed',
  functions=['ogg::tag::write::{write, create_metadata_packet, create_comments, create_pictures}', 'ogg::verify_signature', 'ogg_pager::Packets::{read_count, get, set, paginate, write_to}', 'ogg_pager::paginate::{paginate, paginate_packet}', 'ogg_pager::{PageHeader::read, Page::read, Page::as_bytes, Page::gen_crc}', 'executed only: write_to, VorbisComments::save_to'])
