#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L = "lofty/src/"
prop("C01", "Reading never crashes on any bytes",
  "For every byte sequence, every supported file type and every combination of parse options, reading the tags and audio properties returns either a value or an error: it never panics, never overflows, and does a bounded amount of reading and seeking for the size of the input.",
  ["inputs", "configurations"],
  "all byte strings (structure-aware mutations of valid files of all 12 formats, truncations, spliced tags, random bytes) x all parse option sets x probing with/without a known type",
  "The tests and past fuzz crashes are a few dozen fixed files; any length, count or offset field of any format can be hostile.",
  [L+"probe.rs", L+"mpeg/read.rs", L+"mp4/", L+"id3/", L+"ape/", L+"iff/", L+"flac/", L+"ogg/", L+"wavpack/", L+"musepack/", L+"aac/", L+"picture/mod.rs", "ogg_pager/src/"],
  [("bounded readers and checked arithmetic in every parser", L+"*/read.rs"), ("parsing modes", L+"config/parse_options.rs")],
  ["result of reading a tagged file", "panic", "number of stream operations"])
prop("C02", "Memory used while reading is bounded by the allocation limit",
  "While reading any file, no single allocation made on behalf of a length claimed in the file exceeds the configured allocation limit by more than a constant unless the file really holds that much data, and total memory stays within the limit plus an amount proportional to the size of the input; a small file claiming huge sizes is rejected or partially read, not served with huge buffers, while items well below the limit stay readable.",
  ["inputs", "configurations"],
  "all files whose size/count fields are inflated x allocation limits",
  "Tests use honest files; only inputs that lie about sizes in each of the dozens of length fields can reveal an unguarded allocation.",
  [L+"util/alloc.rs", L+"config/global_options.rs", L+"ogg/read.rs", L+"picture/mod.rs", L+"mp4/ilst/read.rs", L+"id3/v2/util/", L+"ape/tag/read.rs"],
  [("fallible limited allocation", L+"util/alloc.rs"), ("allocation limit option", L+"config/global_options.rs")],
  ["largest single allocation and peak heap during a read"])
prop("C03", "Saving or removing tags never crashes on any file",
  "For every byte sequence that is offered as a file of a supported type, and every tag, saving the tag into it or removing a tag from it returns success or an error and never panics, hangs or exhausts memory; and when it reports success on a well-formed file, the file can still be read as the same file type.",
  ["inputs", "configurations"],
  "all (possibly malformed) files of every format x all tag types x write options",
  "Write tests start from well-formed assets; the editors re-parse the file with separate code whose offset arithmetic is only exercised by odd layouts.",
  [L+"tag/utils.rs", L+"id3/v2/write/", L+"ape/tag/write.rs", L+"iff/", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"id3/v1/write.rs"],
  [("per format writers", L+"*/write.rs")],
  ["panic", "result of save/remove", "re-read of the file"])
prop("C04", "Reading is independent of how the stream delivers bytes; I/O errors surface",
  "Reading a file through a stream that returns arbitrarily short reads or transient interruptions gives exactly the same result as reading it from memory, wherever the stream's data comes from. If the stream fails with a genuine I/O error, reading returns an error or the identical result, and never a silently different one.",
  ["fault_sequences", "inputs"],
  "all valid files of every format x all sequences of short-read lengths, interruptions and one hard failure at any operation",
  "All tests read from a file or an in-memory cursor that always fills the buffer.",
  [L+"probe.rs", L+"util/io.rs", L+"mpeg/read.rs", L+"ape/read.rs", L+"id3/mod.rs", "ogg_pager/src/", L+"iff/chunk.rs"],
  [("exact reads", L+"*/read.rs"), ("error propagation", L+"error.rs")],
  ["result of reading a tagged file"])
prop("C05", "An I/O failure while saving is always reported, never swallowed",
  "If any read, write, seek or truncate of the file fails while a tag is being saved or removed, the operation returns an error rather than success or a panic. When saving returns success, the file holds exactly what it would hold had no failure been possible.",
  ["fault_sequences", "crash_points"],
  "all formats x tags x the position of one failing I/O operation (and short writes / interruptions that must be transparent)",
  "No test injects I/O faults.",
  [L+"util/io.rs", L+"tag/utils.rs", L+"id3/v2/write/", L+"ape/tag/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"iff/"],
  [("error propagation in writers", L+"*/write.rs")],
  ["result of save/remove on a fault-injecting file"])
prop("C06", "Tagging MPEG, AAC, Monkey's Audio, WavPack, Musepack keeps the audio bytes",
  "Saving or removing any supported tag in an MPEG, AAC, Monkey's Audio, WavPack or Musepack file changes only that tag: the audio bytes and every other tag in the file stay byte-for-byte identical and in the same order, wherever in the file the tags lie.",
  ["inputs", "histories"],
  "all files of these types composed of optional leading tags, audio, optional trailing tags, with any payload bytes x any tag saved/removed with any write options",
  "The tests check a few assets with fixed payloads and one tag layout and mostly compare tag values, not the audio bytes.",
  [L+"id3/v2/write/mod.rs", L+"id3/v1/write.rs", L+"ape/tag/write.rs", L+"id3/mod.rs"],
  [("locating existing tags", L+"id3/mod.rs"), ("splicing the new tag", L+"id3/v2/write/mod.rs"), ("APE trailer rewrite", L+"ape/tag/write.rs")],
  ["bytes of the file after saving/removing"])
prop("C07", "Tagging WAV and AIFF keeps all other chunks and a valid container",
  "Saving or removing a tag in a WAV or AIFF file leaves every chunk that does not belong to that tag byte-for-byte identical and in its original order. The result is a well-formed container: chunk sizes, pad bytes and the outer form size agree with the file's actual contents.",
  ["inputs", "histories"],
  "all well-formed chunk sequences (odd sizes, tags first/middle/last, unknown chunks) x any tag saved/removed, any padding options",
  "Tests use one asset per type where the tag position and parities are fixed.",
  [L+"iff/chunk.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v2/write/chunk_file.rs"],
  [("chunk walker", L+"iff/chunk.rs"), ("outer size update", L+"id3/v2/write/chunk_file.rs")],
  ["independently parsed chunk list after saving/removing"])
prop("C08", "Tagging FLAC keeps frames and unrelated metadata blocks",
  "Saving or removing tags in a FLAC file leaves the audio frames and every metadata block other than comments, pictures and padding byte-for-byte identical and in order. The resulting block list is well formed: exactly one final-block marker, stream info first, and sizes that lead exactly to the first frame.",
  ["inputs", "histories"],
  "all FLAC block lists (any order, sizes, unknown blocks, several pictures, padding sizes around the boundary) x any tag x padding option, with or without a leading ID3v2 tag",
  "Tests cover a handful of assets and padding configurations.",
  [L+"flac/write.rs", L+"flac/block.rs", L+"flac/read.rs"],
  [("block rewrite and padding", L+"flac/write.rs")],
  ["independently parsed block list and frames after saving/removing"])
prop("C09", "Tagging Ogg files keeps every audio packet and valid pages",
  "Saving or removing comments in an Ogg Vorbis, Opus or Speex file leaves every packet other than the comment header byte-for-byte identical, with the same granule positions, serial and begin/end-of-stream marks. The result is a valid physical stream: correct page checksums, consecutive page numbers and consistent continuation marks.",
  ["inputs", "histories"],
  "all logical streams (any packet sizes incl. multiples of 255, packets spanning pages, any header paging) x comment sizes from empty to many pages incl. growing and shrinking",
  "Tests write to three assets with small comments; lacing and page-boundary arithmetic depends on exact sizes.",
  [L+"ogg/tag/write.rs", L+"ogg/tag.rs", "ogg_pager/src/lib.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/paginate.rs"],
  [("page renumbering", L+"ogg/tag/write.rs"), ("pagination", "ogg_pager/src/paginate.rs"), ("checksum", "ogg_pager/src/crc.rs")],
  ["independently parsed pages and packets after saving/removing"])
prop("C10", "Tagging MP4 keeps media reachable and the atom tree well formed",
  "Saving or removing tags in an MP4 file leaves every atom outside the tag list byte-for-byte identical except for parent sizes and chunk offsets. Every recorded chunk or fragment offset still points to the same media bytes, and all atom sizes nest exactly and cover the file.",
  ["inputs", "histories"],
  "all atom trees (media before/after the movie atom, with or without user data/meta/tag list, padding of any size, 32/64-bit sizes and offsets, fragments) x tags that grow or shrink by any amount",
  "Tests use a few assets with one layout; offset fix-up depends on the order of atoms, sizes and available padding.",
  [L+"mp4/write.rs", L+"mp4/ilst/write.rs", L+"mp4/atom_info.rs"],
  [("chunk offset update", L+"mp4/ilst/write.rs"), ("parent size update", L+"mp4/write.rs"), ("padding reuse", L+"mp4/ilst/write.rs")],
  ["independently parsed atom tree and media bytes addressed by chunk offsets"])
prop("C11", "Any history of saves and removals equals its last writes",
  "After any sequence of saving and removing tags in one file, reading it yields for each tag type exactly the last tag saved (or none if removed last), independent of operations on other tag types. Saving the same tag again keeps the size of the file and every tag and moves at most padding, saving it once more changes nothing, and nothing of replaced tags remains as a duplicate.",
  ["histories"],
  "all sequences of save/remove/save-through-file-object operations over all tag types the format supports, in every format",
  "Tests do at most a write and a re-read or remove; interactions between tag types and repeated resizing are histories.",
  [L+"file/tagged_file.rs", L+"tag/tag_type.rs", L+"tag/mod.rs", L+"tag/utils.rs", L+"file/audio_file.rs"],
  [("tag dispatch on save/remove", L+"tag/utils.rs")],
  ["tags read back after each step", "bytes after a repeated save"])
prop("C12", "ID3v2 tags survive a write/read round trip",
  "Every ID3v2 tag built from valid frames of any supported kind reads back, after being written, with the same frames and values in both the 2.4 and the 2.3 layout (2.3 within that version's documented limits). An independent decoder of the written bytes finds the same frame ids and payloads.",
  ["inputs", "configurations"],
  "all tags over all frame kinds, text encodings, languages, descriptions, multi-values, sizes around 7-bit boundaries, picture types x {2.4, 2.3} x padding",
  "Frame tests are one literal byte string per frame kind.",
  [L+"id3/v2/write/", L+"id3/v2/frame/", L+"id3/v2/items/", L+"id3/v2/read.rs", L+"id3/v2/util/", L+"util/text.rs"],
  [("frame encoders", L+"id3/v2/items/"), ("frame dispatch", L+"id3/v2/frame/content.rs"), ("size coding", L+"id3/v2/util/synchsafe.rs")],
  ["tag read back", "written bytes"])
prop("C13", "Equivalent ID3v2 encodings decode to the same tag",
  "An ID3v2 tag that encodes the same frames with or without unsynchronisation, extended header, footer, padding, data length indicators, compression, or as an older version with the corresponding older frame ids decodes to the same content. Surrounding audio is not consumed.",
  ["inputs", "configurations"],
  "all frame sets x all transport flag combinations x versions 2.2/2.3/2.4, produced by an independent encoder",
  "Tests hold one or two literal samples per flag; combinations with payload bytes that need stuffing are not sampled.",
  [L+"id3/v2/header.rs", L+"id3/v2/read.rs", L+"id3/v2/frame/read.rs", L+"id3/v2/frame/header/", L+"id3/v2/util/synchsafe.rs", L+"id3/v2/util/upgrade.rs"],
  [("unsynchronised reader", L+"id3/v2/util/synchsafe.rs"), ("frame upgrade", L+"id3/v2/util/upgrade.rs")],
  ["decoded tag"])
prop("C14", "ID3v1 tags survive a round trip within the format's field limits",
  "Every ID3v1 tag written to a file reads back with each text field equal to the original cut to the format's field width, and with the same year, genre and track. The tag is always exactly the last 128 bytes of the file and an existing one is replaced, not duplicated.",
  ["inputs"],
  "all ID3v1 field values incl. over-long, empty, all genres/track numbers",
  "Tests use one sample tag.",
  [L+"id3/v1/"],
  [("field resize and encode", L+"id3/v1/write.rs"), ("field decode", L+"id3/v1/read.rs")],
  ["tag read back", "last 128 bytes"])
prop("C15", "APE tags survive a round trip and follow the APEv2 layout",
  "Every APE tag of valid items (text, binary, locator, read-only flags, multi-values) reads back after being written with the same items, and an independent APEv2 decoder of the written bytes finds the same items and correct size and item counts.",
  ["inputs"],
  "all sets of valid item keys and values of every type",
  "Tests use one sample tag.",
  [L+"ape/tag/", L+"ape/tag/header.rs", L+"ape/constants.rs"],
  [("item writer", L+"ape/tag/write.rs"), ("item reader", L+"ape/tag/read.rs")],
  ["tag read back", "written bytes"])
prop("C16", "Vorbis comments survive a round trip in every carrier format",
  "Every set of Vorbis comments (vendor, ordered possibly repeated keys, any non-empty text values, pictures) reads back after being written to Vorbis, Opus, Speex or FLAC with the same fields in the same order and the same pictures, and an independent decoder of the comment packet agrees. Comments written by other encoders read as the specification says: keys are taken in any case, TRACKNUMBER/DISCNUMBER of the form n/m are split when implicit conversions are on and kept raw otherwise, COVERART becomes a picture, fields without a separator are skipped, and fields with invalid keys, texts or pictures are dropped on their own - or refused in Strict mode.",
  ["inputs"],
  "all valid key/value lists and pictures, total sizes from empty to several pages",
  "Tests use one sample tag per format.",
  [L+"ogg/tag.rs", L+"ogg/tag/write.rs", L+"ogg/read.rs", L+"flac/write.rs"],
  [("comment encoder", L+"ogg/tag/write.rs"), ("comment decoder", L+"ogg/read.rs")],
  ["tag read back", "comment packet bytes"])
prop("C17", "MP4 item lists survive a round trip",
  "Every item list of valid atoms (fourcc or freeform identifiers; text, integer, boolean, picture, multi-value data) reads back after being written with the same atoms in the same order, and an independent decoder of the written atoms finds the same identifiers, type codes and payloads.",
  ["inputs"],
  "all sets of atoms with all data kinds and multi-values",
  "Tests use one sample tag and a few advisory rating checks.",
  [L+"mp4/ilst/"],
  [("atom writer", L+"mp4/ilst/write.rs"), ("atom reader", L+"mp4/ilst/read.rs")],
  ["tag read back", "written atoms"])
prop("C18", "RIFF INFO and AIFF text chunks survive a round trip",
  "Every RIFF INFO list (non-empty values) and every set of AIFF text chunks (name, author, copyright, annotations, comments with timestamps and markers) reads back after being written with the same entries, for all text lengths of either parity.",
  ["inputs"],
  "all key/value lists, text lengths of both parities, any number of comments/annotations",
  "Tests use one sample each; alignment only matters for particular lengths.",
  [L+"iff/wav/tag/", L+"iff/aiff/tag/mod.rs", L+"iff/chunk.rs"],
  [("INFO writer/reader", L+"iff/wav/tag/"), ("text chunk writer/reader", L+"iff/aiff/tag/mod.rs")],
  ["tag read back", "independently parsed chunks"])
prop("C19", "Converting between generic and native tags loses nothing supported",
  "Converting a generic tag to a native tag and back keeps every item whose key and value kind the native format supports, with equal values and order per key. Splitting a native tag into its generic part and remainder and merging them again restores a tag equivalent to the original.",
  ["inputs"],
  "all generic tags over all item keys and value kinds x all native tag types; all native tags incl. format specific items",
  "Conversion tests use a fixed short list of keys per format.",
  [L+"tag/split_merge_tag.rs", L+"tag/companion_tag.rs", L+"id3/v2/tag/conversion.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"id3/v1/tag.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs"],
  [("split/merge", L+"tag/split_merge_tag.rs"), ("per format conversions", L+"*/tag*")],
  ["generic tag after conversion", "native tag after split and merge"])
prop("C20", "A generic tag saved to a file reads back as the same generic tag",
  "Saving a generic tag into any file type that supports its tag type, then reading the file, gives the same values for every item the native format supports, and the file is the same as if the tag had first been converted to the native type and that had been saved. Items the format does not support are dropped without disturbing the others.",
  ["inputs", "configurations"],
  "all generic tags over all keys x all writable (file type, tag type) pairs x write options",
  "Tests write a few well known fields; the direct writer path and the conversion path are separate code.",
  [L+"tag/utils.rs", L+"tag/mod.rs", L+"id3/v2/tag/conversion.rs", L+"ape/tag/write.rs", L+"ogg/tag/write.rs", L+"iff/wav/tag/write.rs"],
  [("direct writers for generic tags", L+"tag/utils.rs")],
  ["tag read back", "bytes from both paths"])
prop("C21", "Tag editing operations behave like an ordered keyed collection",
  "Any sequence of insert, push, replace, remove, take and retain operations and of typed accessors on a generic or native tag yields exactly the contents of a simple reference model: replace affects only its own key, removal removes only and all matching entries, getters return the last value set, and unrelated items and pictures never change.",
  ["histories"],
  "all operation sequences over all keys on the generic tag and on each native tag type",
  "Unit tests call single operations on small tags.",
  [L+"tag/mod.rs", L+"tag/accessor.rs", L+"ogg/tag.rs", L+"ape/tag/mod.rs", L+"mp4/ilst/mod.rs", L+"id3/v2/tag.rs", L+"iff/wav/tag/mod.rs"],
  [("tag containers", L+"tag/mod.rs"), ("accessor methods", L+"tag/accessor.rs")],
  ["contents after each operation"])
prop("C22", "Item key mappings are mutually consistent",
  "For every tag type, each item key maps to the native name its format documents, and mapping an item key to its native name and that name back gives a key with the same native name, lookups of native names ignore case where the format does, and an item is accepted by a tag exactly when its key maps to that tag's type.",
  ["inputs"],
  "all item keys x all tag types x all letter-case variants, plus unknown names",
  "Tests check single examples of a table of several hundred entries.",
  [L+"tag/item.rs"],
  [("key maps", L+"tag/item.rs")],
  ["mapped names and keys"])
prop("C23", "Pictures survive every encoding they are stored in",
  "A picture encoded as a FLAC block, as a base64 comment or as an APE item decodes to the same type, MIME type, description, data and dimensions. Dimensions and MIME type detected from image data equal those stated in the image's own header, for PNG, JPEG, GIF, BMP and TIFF signatures.",
  ["inputs"],
  "all picture types, MIME types, descriptions, data; all generated PNG/JPEG headers",
  "Tests use one PNG and one JPEG.",
  [L+"picture/mod.rs"],
  [("FLAC/APE picture codecs", L+"picture/mod.rs"), ("image header parsers", L+"picture/mod.rs")],
  ["decoded picture and information"])
prop("C24", "Timestamps and small value types parse and print consistently",
  "Every valid timestamp prints to text that parses to the same timestamp, ordering agrees with chronological order, strict parsing rejects every text outside the grammar rather than misreading it, out-of-range or orphaned fields are never written, star ratings survive their textual and numeric encodings, number pairs are read with the number and the total in their places, and genre numbers, references and lists name the genres they stand for.",
  ["inputs"],
  "all timestamps of every precision, all near-miss strings, all ratings/providers/counters, all number pairs",
  "Tests list a few literals.",
  [L+"tag/items/timestamp.rs", L+"tag/items/popularimeter.rs", L+"tag/items/lang.rs", L+"id3/v2/items/popularimeter.rs", L+"util/text.rs"],
  [("timestamp codec", L+"tag/items/timestamp.rs"), ("rating maps", L+"tag/items/popularimeter.rs")],
  ["parsed/printed values"])
prop("C25", "Parse options only switch off what they name",
  "Turning off tags, properties or cover art when reading gives exactly the full result minus that part. A file accepted under a stricter parsing mode is accepted under every more lenient mode, and a well-formed file yields the same result in all modes.",
  ["configurations", "inputs"],
  "all files (well-formed and damaged) x all option combinations",
  "Tests set one option on one file.",
  [L+"config/parse_options.rs", L+"probe.rs", L+"mpeg/read.rs", L+"flac/read.rs", L+"ogg/read.rs", L+"mp4/", L+"id3/v2/"],
  [("option gates in readers", L+"*/read.rs")],
  ["results under different options"])
prop("C26", "File type detection finds the real type",
  "A well-formed file of any supported type is detected as that type from its contents alone, also behind ID3v2 tags of any size or junk within the configured limit, and reading via detection gives the same result as reading with the type given. Extension lookup is case-insensitive and consistent with detection, and data of no known type is not claimed as one.",
  ["inputs", "configurations"],
  "all well-formed files of each type x leading tags/junk lengths x junk limits",
  "Tests probe one asset per type.",
  [L+"probe.rs", L+"file/file_type.rs", L+"id3/mod.rs", L+"mpeg/header.rs"],
  [("content probe", L+"probe.rs"), ("magic detection", L+"file/file_type.rs")],
  ["guessed file type"])
prop("C27", "Audio properties match the file's headers",
  "For every well-formed file the reported sample rate, channel count, bit depth, duration and bitrate equal the values derived directly from the encoded stream headers and sizes, within rounding.",
  ["inputs"],
  "all header parameter combinations of WAV, AIFF, FLAC, MPEG (all versions/layers/bitrates, CBR and VBR headers), AAC, APE, WavPack, Musepack, Vorbis, Opus, Speex, MP4",
  "Tests check one or two assets per format.",
  [L+"iff/wav/properties.rs", L+"iff/aiff/properties.rs", L+"flac/properties.rs", L+"mpeg/properties.rs", L+"mpeg/header.rs", L+"aac/", L+"ape/properties.rs", L+"wavpack/properties.rs", L+"musepack/", L+"ogg/", L+"mp4/properties.rs"],
  [("per format property readers", L+"*/properties.rs")],
  ["file properties"])
prop("C28", "Retagging never changes the reported audio properties",
  "Saving or removing any tags of any size in a file leaves the reported audio properties (duration, sample rate, channels, bit depth, audio bitrate) unchanged.",
  ["inputs", "histories"],
  "all files of each format x tags of any size, present before and/or after",
  "Tests read properties from untouched assets only.",
  [L+"*/properties.rs", L+"*/read.rs"],
  [("stream length computed without tags", L+"*/read.rs")],
  ["properties before and after tagging"])
prop("C29", "Ogg packets survive paging; pages are valid",
  "Any list of packets turned into pages and read back gives the same packets, with any header-packet count and any position. Every produced page has a correct checksum, lacing that matches its contents, consecutive sequence numbers and continuation marks exactly where packets span pages, and a granule position exactly where a packet ends; pages that are cut or have a damaged capture pattern or version are rejected.",
  ["inputs"],
  "all packet lists with sizes incl. 0, multiples of 255 and beyond 64 KiB, all stream serials/flags",
  "Tests use two fixed files.",
  ["ogg_pager/src/lib.rs", "ogg_pager/src/header.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/paginate.rs", "ogg_pager/src/crc.rs"],
  [("pagination", "ogg_pager/src/paginate.rs"), ("packet reader", "ogg_pager/src/packets.rs")],
  ["pages and packets"])
prop("C30", "Write options change only what they name",
  "For every file and tag, the choice of preferred padding, and of removing other tags, changes the saved file only in the documented way: padding never alters any tag value or audio byte and appears only in tags that support it, other tags disappear exactly when requested, and read-only tags are never written.",
  ["configurations", "inputs"],
  "all write option combinations x formats x tags",
  "Tests fix the default options nearly everywhere.",
  [L+"config/write_options.rs", L+"file/tagged_file.rs", L+"tag/utils.rs", L+"flac/write.rs", L+"mp4/ilst/write.rs", L+"id3/v2/write/"],
  [("write options", L+"config/write_options.rs")],
  ["file after saving under different options"])
prop("C31", "In-memory dumps equal what is stored in files",
  "Dumping a tag to a buffer gives the same bytes a save places in a file (apart from padding and the file's own vendor text), whichever kind of output is used, and dumping never alters the tag or depends on anything but its contents and options.",
  ["inputs"],
  "all tags of all native types and generic tags",
  "Tests dump one sample tag per format.",
  [L+"tag/tag_ext.rs", L+"tag/utils.rs", L+"id3/v2/write/mod.rs", L+"ape/tag/write.rs", L+"mp4/ilst/write.rs", L+"ogg/tag/write.rs"],
  [("dump entry points", L+"tag/utils.rs")],
  ["dumped bytes vs file bytes"])
prop("C32", "Global options and custom resolvers are per thread and take effect",
  "Settings applied to one thread never affect reads on another thread and always affect later reads on the same thread: the allocation limit, custom resolver use, and preservation of format specific items behave as documented. A registered custom resolver is consulted before the built-in detection and its files are read by it; a registration that is refused, or a resolver that panics, has no effect on anything afterwards, and a resolver may use the library itself.",
  ["configurations", "histories"],
  "all settings x sequences of reads across threads x resolver match rules",
  "Tests exercise one resolver and no multi-thread history.",
  [L+"config/global_options.rs", L+"resolve.rs", L+"probe.rs", L+"util/alloc.rs"],
  [("thread local options", L+"config/global_options.rs"), ("resolver registry", L+"resolve.rs")],
  ["read results per thread"])

prop("C33", "File objects hold one tag per supported type and save what they hold",
  "A file object (generic, bound to its file, or a format's own) behaves as a set of tags by type: inserting replaces and returns the tag of that type and refuses types the format does not support, removing returns it, lookups and the primary and first tag agree with the contents, and changing the file type drops exactly the unreadable tags. Saving writes every held tag the format can write, leaves the tags of other types in the file alone and skips read-only ones, and a bound file no longer holds the empty tags afterwards.",
  ["histories", "api state"],
  "all formats x tag types x edit histories x the three kinds of file objects, with the file read again after every save",
  "Tests insert and remove single tags; no history, no format's full set of tag types, no agreement between object and file over several saves.",
  [L+"file/tagged_file.rs", L+"file/file_type.rs", "lofty_attr/src/lofty_file.rs", L+"flac/mod.rs"],
  [("generic file objects", L+"file/tagged_file.rs"), ("support tables", L+"file/file_type.rs"), ("derived file objects", "lofty_attr/src/lofty_file.rs")],
  ["the tags an object reports", "the tags of the file after saving"])

prop("C34", "ID3v2 building blocks encode and decode symmetrically on their own",
  "Each public ID3v2 building block works outside of tags as inside them: a frame's content, an encapsulated object, synchronized text or audio text frame written with as_bytes carries the documented layout for its version and encoding and parses back to the same value; synch-safe numbers round-trip and refuse what does not fit; unsynchronised streams decode to the original bytes however they are read; scrambling is its own inverse; and identifier upgrades follow the published tables. Malformed content gives an error or nothing, never a wrong value or a panic.",
  ["inputs"],
  "all frame values x versions x text encodings, all integers, all byte streams with any read pattern, all frame identifiers",
  "Tests parse one asset per frame type, mostly one encoding, and never write for ID3v2.3.",
  [L+"id3/v2/items/", L+"id3/v2/util/synchsafe.rs", L+"id3/v2/util/upgrade.rs", L+"id3/v2/util/mod.rs", L+"util/text.rs"],
  [("frame content codecs", L+"id3/v2/items/"), ("synch-safe numbers and unsynchronisation", L+"id3/v2/util/synchsafe.rs"), ("frame ID upgrades", L+"id3/v2/util/upgrade.rs")],
  ["bytes of as_bytes", "results of parse"])

prop("C35", "Values of any size are stored in full or refused",
  "A value or a number of entries of any size is either stored in full and read back equal, with every other value of the tag unchanged and the file readable with its audio intact, or the save is refused and the file left as it was. It is refused only when a length field of the format cannot hold it; nothing is ever cut, wrapped or dropped silently because of its size.",
  ["inputs"],
  "all formats x tag types x values up to several hundred megabytes and up to tens of thousands of entries, with sizes drawn around every power of two a length field could have",
  "Tests use small values; none reaches the size of a length field (16, 24, 28 bits) or a page, block or buffer boundary.",
  [L+"id3/v2/write/mod.rs", L+"id3/v2/write/frame.rs", L+"flac/block.rs", L+"flac/write.rs", L+"iff/aiff/tag/", L+"iff/wav/tag/write.rs", L+"ogg/tag/", L+"mp4/ilst/write.rs", L+"ape/tag/write.rs"],
  [("ID3v2 sizes", L+"id3/v2/write/mod.rs"), ("FLAC block sizes", L+"flac/write.rs"), ("AIFF comment sizes", L+"iff/aiff/tag/"), ("Ogg packets", L+"ogg/tag/")],
  ["tags read back after saving", "bytes of the file"])

prop("C36", "Tags copied from one format to another keep what both can hold",
  "A tag read from a file of one format, remapped to another format's tag type and saved there (and on through further formats) arrives with every value and picture that all the formats on the way can express, in order and under the key the target uses for it, with nothing else added. This is independent of how it is saved: directly, through a file object or through the format's own tag type.",
  ["inputs", "histories"],
  "all ordered chains of two to four formats and tag types x all keys the stops share x values within the strictest stop",
  "Tests convert a fixed tag to one other type in memory; none saves it in the other format, and none goes on from there.",
  [L+"tag/mod.rs", L+"tag/item.rs", L+"tag/tag_type.rs", L+"id3/v2/tag/conversion.rs", L+"ape/tag/mod.rs", L+"ogg/tag/mod.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v1/tag.rs"],
  [("remapping", L+"tag/mod.rs"), ("key tables", L+"tag/item.rs"), ("ID3v2 conversion", L+"id3/v2/tag/conversion.rs")],
  ["the generic tag read from each file of the chain"])

prop("C37", "Equality, hashes and order follow the contents",
  "Two tags of a native type compare equal exactly when they hold the same entries in the same order, however each came about: built in different ways, cloned, converted, or read back from a file. (ID3v2 tags with the same contents are equal, too; their frames are told apart as documented: user texts and addresses by description, comments and lyrics by language and description, ratings by email, file identifiers by owner, chapters by identifier, texts and addresses by frame ID, all others by everything they contain.) Equality is symmetric, equal values hash equally whether borrowed or owned, and where values are ordered the order is total and the larger unit of time decides.",
  ["inputs", "api state"],
  "all pairs of native tags that differ in origin or in one detail, all pairs of frames, pictures, items, identifiers and points in time",
  "Tests compare with == everywhere and so rely on it; none shows that different contents are unequal.",
  [L+"id3/v2/items/", L+"id3/v2/frame/", L+"mp4/ilst/atom.rs", L+"mp4/atom_info.rs", L+"ape/tag/", L+"tag/item.rs", L+"tag/items/timestamp.rs", L+"picture/mod.rs"],
  [("frame equality", L+"id3/v2/items/"), ("atom equality", L+"mp4/ilst/atom.rs"), ("timestamp order", L+"tag/items/timestamp.rs")],
  ["results of ==, hash and cmp"])

prop("C38", "A refused save leaves the file as it was",
  "Whenever saving or removing a tag is refused for any reason other than a failing file (a tag type the file does not take, a damaged or unknown file, a value that cannot be written), the file is byte-for-byte what it was before. Values that the format cannot hold are refused, never written in part: invalid languages and dates, texts, lists, codes and pictures beyond what the format can express, encrypted frames without their length. A text with characters outside its frame's encoding is refused when lossy encoding is off, and has exactly those characters replaced by question marks when it is on; every other text is written the same either way.",
  ["inputs", "api state"],
  "all files (well-formed, damaged, foreign) x all tags, writable or not x options",
  "Tests look at the error a refused save returns for a few tags, not at the file it leaves behind.",
  [L+"tag/tag_ext.rs", L+"tag/utils.rs", L+"id3/v2/write/", L+"mp4/ilst/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"ape/tag/write.rs", L+"id3/v1/write.rs", L+"util/text.rs", "lofty_attr/src/internal.rs"],
  [("support check", L+"tag/tag_ext.rs"), ("lossy Latin-1", L+"util/text.rs"), ("frame validation", L+"id3/v2/write/frame.rs"), ("atom validation", L+"mp4/ilst/write.rs")],
  ["the file's bytes after a refused save, and which saves are refused"])

prop("C39", "What was read can be saved and reads the same",
  "Every tag the library reads from a file, however odd or damaged the file and whatever the parsing mode, can be saved into a file of the same format and is read back with the same content, natively and through the generic tags of a file object. Saving what was read from a well-formed file is never refused, and nothing the library writes is something it later fails to read. (Frames without a successor in ID3v2.4, empty values and how a frame was stored are not content.)",
  ["inputs"],
  "well-formed and damaged files of all formats x parsing modes x tags x native and generic saving",
  "Round trips in the tests start from tags that were built; tags that come from odd files reach states no constructor makes.",
  [L+"tag/tag_ext.rs", L+"file/tagged_file.rs", L+"id3/v2/write/", L+"id3/v2/frame/", L+"id3/v2/tag/conversion.rs", L+"mp4/ilst/", L+"ogg/", L+"ape/tag/", L+"iff/"],
  [("frame writing", L+"id3/v2/write/frame.rs"), ("frame reading", L+"id3/v2/frame/read.rs"), ("ilst conversion", L+"mp4/ilst/mod.rs"), ("ID3v2 conversion", L+"id3/v2/tag/conversion.rs")],
  ["tags as read before and after a save"])

prop("C40", "Coded values mean what the formats say",
  "Every number a format gives a meaning (picture types, text encodings, event types, channel types, synchronised text content, timestamp formats, tag restrictions, MP4 data types and advisory ratings, MPEG-4 audio object types, Musepack profiles and links) is read as the value of that name and written as that number again; numbers without a meaning are refused, kept as they are, or read as the documented fallback, never as something else. A text is a frame ID exactly when it has 3 or 4 capital letters and digits, and is outdated exactly when it has 3.",
  ["inputs"],
  "all 256 numbers x all coded values; 32-bit data types; texts of any length and alphabet",
  "Tests use a handful of codes; a swapped or missing one is only seen by whoever uses it.",
  [L+"id3/v2/items/event_timing_codes_frame.rs", L+"id3/v2/items/sync_text.rs", L+"id3/v2/items/relative_volume_adjustment_frame.rs", L+"id3/v2/restrictions.rs", L+"id3/v2/frame/header/mod.rs", L+"picture/mod.rs", L+"util/text.rs", L+"mp4/ilst/data_type.rs", L+"mp4/ilst/advisory_rating.rs", L+"mp4/properties.rs", L+"musepack/sv7/properties.rs"],
  [("event types", L+"id3/v2/items/event_timing_codes_frame.rs"), ("data types", L+"mp4/ilst/data_type.rs"), ("picture types", L+"picture/mod.rs"), ("restrictions", L+"id3/v2/restrictions.rs")],
  ["the public conversions between numbers and named values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
