# (id, title, statement, over, quantifier text, why tests can't, files, mechanism [(name, where)], observe_at, level note or None, NA reason or None)
R = "oxyroot/src/"
P = []
def prop(id, title, statement, qtext, why, files, mech, observe, note=None, na=None, over=("inputs",), hook="verification module compiled into the crate under cfg oxyroot_verif"):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=[R + f for f in files], mech=mech, observe=observe, note=note, na=na, hook=hook))

prop("C01", "Fixed-width values survive encoding and decoding unchanged",
 "Every integer, floating-point and boolean value written to a buffer is stored big-endian in exactly its declared width and reads back with identical bits. Writing never alters bytes already in the buffer, and reading moves the cursor by exactly the width of the value, whatever surrounds it.",
 "all values of all widths (every bit pattern of floats), all array lengths, any bytes before and after, any buffer offset",
 "tests read a few sample files whose values are small; no test writes and rereads extreme values, arrays of other lengths, or checks the cursor",
 ["rbytes/rbuffer.rs", "rbytes/wbuffer.rs", "rbytes/mod.rs"],
 [("fixed-width readers", R + "rbytes/rbuffer.rs read_*"), ("fixed-width writers", R + "rbytes/wbuffer.rs write_*"), ("per-type codecs", R + "rbytes/mod.rs Marshaler/Unmarshaler impls")],
 ["bytes of the written buffer", "value and cursor position after a read"],
 note="Every reader and writer body is verified against a byte-level contract for all inputs, and the round trip is a lemma over those contracts. Assumed: std's to/from_be_bytes, slice copies and Vec growth have their documented meaning; buffers of at most isize::MAX bytes.")
prop("C02", "Strings survive encoding and announce the space they take",
 "A string of any length and content written in counted form reads back equal and takes exactly its byte length plus one count byte below 255 bytes, or plus five from 255 on. A zero-terminated string without inner zero reads back equal up to its terminator, leaving the cursor right behind it.",
 "all strings: empty, around 254/255/256 bytes, multi-byte characters, long ones; any bytes before and after",
 "the fixtures hold short ASCII names; the switch of the count form and the reader's cursor are not exercised by writing and rereading",
 ["rbytes/rbuffer.rs", "rbytes/wbuffer.rs", "rbytes/mod.rs", "root.rs"],
 [("counted strings", R + "rbytes/wbuffer.rs write_string, rbuffer.rs read_string"), ("zero-terminated strings", R + "rbytes/wbuffer.rs write_cstring, rbuffer.rs read_cstring")],
 ["bytes of the written buffer", "string and cursor position after a read"],
 note="Both directions verified for all strings; the round trip is lemma_enc_str. Assumed: UTF-8 encoding of a str is injective and from_utf8 inverts it; strings below 2^32 bytes. Zero-terminated strings are covered up to the length limit the reader is called with.")
prop("C03", "Nested containers read back element for element",
 "A vector, fixed array or nesting of them written to a buffer reads back with the same elements in the same order, consuming exactly the bytes written. A map or set reads back exactly the key/value pairs or members stored in the buffer, and an element that cannot be decoded makes the whole read fail rather than yield a shorter container.",
 "all element types and nestings, all lengths including zero, any content, with and without the surrounding block header",
 "tests cover the handful of shapes in the fixture files, all of them small",
 ["rbytes/mod.rs", "rusty/containers.rs"],
 [("container codecs", R + "rbytes/mod.rs Marshaler/Unmarshaler for Vec, [T;N], HashMap, HashSet"), ("header skipping between nested levels", R + "rbytes/rbuffer.rs set_skip_header/do_skip_header")],
 ["decoded container", "cursor position after the read"],
 note="Generic proof over an element contract (any type whose codec meets it), so all nestings of the listed containers follow by induction over the type. Vectors of maps are excluded (the map reader leaves the skip state changed). Lengths below 2^31. Assumed: HashMap/HashSet insertion as specified by vstd.")
prop("C04", "Framed blocks: the recorded size is the size of what was written",
 "The byte count in front of each framed block equals the number of bytes that follow it once the block is finished, whatever is written inside, including further framed blocks. Filling the count in afterwards changes no other byte, and reading the frame back yields the version and a size that ends exactly where the block ends.",
 "all bodies and nestings, all versions, any buffer offset, blocks with and without a count",
 "tests never look at counts of written blocks; the reader only warns when they disagree",
 ["rbytes/wbuffer.rs", "rbytes/rbuffer.rs", "rbytes/mod.rs"],
 [("open and close a block", R + "rbytes/wbuffer.rs write_header/set_header/write_in_place"), ("read a frame", R + "rbytes/rbuffer.rs read_header")],
 ["bytes of the written buffer", "header returned by the reader"],
 note="Verified for all bodies; lemma_header_round composes writer and reader. Blocks below 2^30 bytes, as the format requires.")
prop("C05", "Shared class tags and object references resolve to what was written",
 "When objects are written one after another, the first of each class spells the class name out and each later one refers back to it; the reader resolves every reference to the class written at that place. Each object is framed so that the reader continues right behind it, and an absent object reads as absent.",
 "all sequences of objects and classes, any positions and offsets of the buffer, objects repeated or not",
 "the tests write trees with a few branches; references that resolve to the wrong class need particular sequences",
 ["rbytes/wbuffer.rs", "rbytes/rbuffer.rs", "rbytes/mod.rs"],
 [("writer's table of classes and objects", R + "rbytes/wbuffer.rs write_class/write_object_any"), ("reader's table of references", R + "rbytes/rbuffer.rs read_object_any_into")],
 ["bytes of the written buffer", "class and position of each object read"],
 over=("histories", "inputs"),
 note="write_class, write_object_any and read_object_any_into verified against a ghost history of tags; lemma_protocol relates the two sides. Trusted: the constructor table lookup (read_boxed_object), object identity by address, HashMap<String,_> lookups by &str. Offsets below 2^30. A repeated object (same address) is written as a back reference, which the reader reports as absent: see DESIGN.md.")
prop("C14", "Data newer than the reader understands is refused",
 "For every class whose reader states the newest version it understands, a record with a higher version is refused with an error naming the class, the version found and the limit; versions up to the limit pass the guard. Readers with an oldest supported version refuse older ones in the same way.",
 "all 16-bit version numbers and all guarded classes",
 "fixtures hold only supported versions, so no test takes the refusing path",
 ["rbytes/mod.rs", "rtree/leaf.rs", "rtree/tree/reader.rs", "rtree/branch/tbranch.rs", "rdict/mod.rs", "rcont/list.rs", "rcont/objarray.rs"],
 [("the guards", R + "rbytes/mod.rs ensure_maximum_supported_version, ensure_minimum_supported_version"), ("their use", "the unmarshal functions of every versioned class"), ("the limits", R + "rvers.rs")],
 ["the error returned"],
 note="The guards are verified for all versions, and so is the refusal itself in the readers under contract (attributes, TObjString, TIOFeatures, all leaves). That the remaining readers (tree, branches, collections, streamer elements) call their guard with their limit before decoding is checked on the compiled readers with sampled versions (bounded, 60 versions each), not proved.")

prop("C06", "A record key reads back as written and is as long as it says",
 "The key in front of each record reads back with the same sizes, class, name, title, cycle, addresses and time of writing, leaving the reader right behind it. The length it announces is the number of bytes it takes, in both the 32-bit and the 64-bit form (a basket's key includes the basket's own header).",
 "all names, titles and classes a 16-bit key length has room for, all sizes, cycles, dates and addresses, both address widths",
 "tests write a few small files and compare the data read from them; the width switches only beyond 2 GB",
 ["riofs/key.rs", "riofs/utils.rs", "root.rs", "rbytes/wbuffer.rs", "rbytes/rbuffer.rs"],
 [("key codec", R + "riofs/key.rs Marshaler/Unmarshaler for Key"), ("key length", R + "riofs/key.rs key_len_for, Key::new*"), ("string sizes", R + "root.rs tstring_sizeof")],
 ["bytes of the key", "fields of the key read back"],
 note="Codec, length computation and every constructor of keys verified; the round trip is a lemma. Class, name and title together at most 32000 bytes (a key's own length is a 16-bit number). Assumed: chrono's civil-time accessors and constructors; the address width of a key to be written follows its version (what the constructors guarantee).")
prop("C07", "Records written to a file never overlap and nothing is lost at closing",
 "Every record put into a file gets the space right behind the end of the file, exactly as long as its key says, so records follow each other without overlap. Writing changes no byte outside the space of what is written, and once closing reports success everything put before is in the file.",
 "all sequences of puts, all object sizes and names, files below and beyond 2 GB",
 "tests write a handful of objects and read them back through the same code; overlaps need particular sizes or a file beyond 2 GB",
 ["riofs/key.rs", "riofs/file.rs", "riofs/dir.rs", "riofs/blocks.rs"],
 [("space allocation", R + "riofs/key.rs Key::new, new_from_buffer, new_from_object"), ("end of file", R + "riofs/file.rs set_end"), ("writing", R + "riofs/key.rs write_to_file, file.rs put, close")],
 ["addresses and sizes in the keys", "bytes of the file after close"],
 over=("histories", "inputs"),
 note="The file is a ghost byte sequence; create, put, save_keys, write_header, write_free_segments and close are verified to lay exactly their record at the end (or their header in its place) and nothing else. Trusted: the collection of streamer infos (touches no bytes), BufWriter/File seek, write and flush as specified, an object's own marshaller appends less than 1.75 GB.")
prop("C08", "The file header written is the one the file needs",
 "After closing, the header at the start of the file holds the end of the file and the places and sizes of the free-segment and streamer records, in the 64-bit form as soon as one of the addresses does not fit the small one. Writing it touches no byte of any record.",
 "all file sizes and addresses, both header forms, all histories before closing",
 "tests only write files of a few kilobytes; header fields are not compared",
 ["riofs/file.rs", "rvers.rs"],
 [("header", R + "riofs/file.rs write_header"), ("what it records", R + "riofs/file.rs close, write_streamer_info, write_free_segments")],
 ["first bytes of the file", "file opened again"],
 note="write_header is verified to lay exactly the header of the file's state; lemma_header_file_round: any header that agrees with those bytes is the one written. The reader (read_header: 63/75 bytes through a local buffer) is run on the compiled code only, bounded.")
prop("C09", "A file's directory lists exactly the objects put into it",
 "After closing, the directory record and the key list in the file hold exactly the keys of the objects put, in order, and the directory's dates, sizes and addresses, in the form wide enough for them. Reading the record gives the same directory back.",
 "all sequences of puts, all names and dates, both address widths",
 "tests look up one or two names; a lost, duplicated or truncated key list entry needs particular counts or addresses",
 ["riofs/dir.rs", "riofs/key.rs", "riofs/file.rs"],
 [("directory record", R + "riofs/dir.rs Marshaler/Unmarshaler for TDirectoryFile"), ("key list", R + "riofs/dir.rs save_keys"), ("its place", R + "riofs/dir.rs write_header, save")],
 ["bytes of the directory record and key list", "keys of the file opened again"],
 over=("histories", "inputs"),
 note="Record codec and key list writer verified for all inputs (the 48/60-byte record, count word, then each key); puts append exactly one key. The reader of the key list is run on the compiled code only (bounded).")
prop("C10", "The free list in the file marks exactly the space behind the last record",
 "A free segment written to a file reads back with the same bounds in exactly the bytes it announces. The record written at closing holds one segment, from the end of the file on, and the header knows its place and size.",
 "all bounds, both widths, all file sizes",
 "no test reads the free list of a written file",
 ["riofs/blocks.rs", "riofs/file.rs"],
 [("segment codec", R + "riofs/blocks.rs Marshaler/Unmarshaler for FreeSegments, size_of"), ("free list record", R + "riofs/file.rs write_free_segments")],
 ["bytes of the free segment record", "free list of the file opened again"],
 note="Verified for all segments and all file ends; the bounds survive when they fit the width the segment's last address selects. Known finding: a file grown past 2^31 bytes keeps a segment whose small form truncates its first address. The reader of the list is run on the compiled code only (bounded).")
prop("C11", "A basket in the file holds the entries it was given and where each starts",
 "The record of a basket holds the bytes of its entries one after another, their number, and for entries of varying size a table of where each starts; its key says where it is and how long. A basket begun before a file passed 2 GB is adjusted to the longer key. Reading the record gives the same entries and starts.",
 "all sequences of entries, all sizes, all names, files below, beyond and crossing 2 GB",
 "tests read values back through the same code, never with a file that crosses 2 GB between two baskets",
 ["rtree/wbasket.rs", "rtree/basket.rs", "riofs/key.rs"],
 [("filling", R + "rtree/wbasket.rs update"), ("writing", R + "rtree/wbasket.rs write_to_file, marshal"), ("reading", R + "rtree/basket.rs unmarshal, raw_data, border")],
 ["bytes of the record in the file", "entries and starts read back"],
 note="Filling, writing and reading verified for all entries and file sizes (keys and payloads in ROOT's ranges), with a lemma that reading what was written gives the same entries and starts (baskets in records of their own; those embedded in a tree are run on the compiled code).")
prop("C13", "The bytes of a record are what its stored payload stands for",
 "Reading the object of a record gives its bytes as stored or, compressed, what its blocks (zlib, LZMA, LZ4; one or many, mixed) stand for, one after another. A payload cut short, or whose blocks hold more than the record announces, is never taken for a whole one. A basket is split into its number of entries, the bytes up to its border and the starts behind it, counted from the first entry.",
 "all payloads, all splits into blocks, all methods and levels, all numbers and sizes of entries, any place in the file",
 "fixtures have records of one block, mostly of one method; long records of several blocks do not occur",
 ["rcompress.rs", "riofs/key.rs", "riofs/blocks.rs", "rtree/basket.rs"],
 [("blocks", R + "rcompress.rs decompress, kind_of"), ("record", R + "riofs/key.rs load, bytes"), ("split of a basket", R + "rtree/basket.rs raw_data, border")],
 ["bytes returned for a record", "entries and starts of a basket"],
 note="Verified for all payloads; the decoders of one block (flate2, xz2, lz4) are assumed functions of the block, run here on blocks made by the same libraries. ZSTD and ROOT's oldest method stop with unimplemented!() and are outside the precondition.")
prop("C12", "What a branch notes about its baskets is true of the file",
 "For each basket a branch has written it notes the address, length and first entry, and at that address the file holds a basket record of that length with exactly the entries from there to the next first entry. The last first entry is the number of entries; nothing noted earlier is changed by writing more.",
 "all histories of writes and flushes, all entries, all basket sizes and file sizes",
 "tests have one or two baskets per branch and compare values only; more than ten baskets enlarge the tables",
 ["rtree/branch/wbranch.rs", "rtree/branch/tbranch.rs", "rtree/wbasket.rs"],
 [("a turn of the branch", R + "rtree/branch/wbranch.rs write, create_new_basket"), ("noting a basket", R + "rtree/branch/wbranch.rs flush"), ("tables in the file", R + "rtree/branch/tbranch.rs marshal")],
 ["tables of the branch record in the file", "basket records at the addresses noted"],
 over=("histories", "inputs"),
 note="Verified as an invariant of every turn over the file's content (fewer than 32767 baskets, an entry below 256 MB). The record of the tree that carries the tables into the file (TBranch::marshal) is compared with an independent reading of the format on the compiled code (bounded).")
prop("C15", "A tree gives back every value of every branch in order",
 "Writing a tree takes every value its branches' providers have, in order, until all are used up; the tree then has as many entries as its longest branch, each branch its own number, and the file holds each value's encoding as an entry of one of the branch's baskets. Iterating a branch of the tree read back gives equal values.",
 "all numbers of branches, all value sequences of all supported types, branches of different lengths, all file sizes",
 "tests write short branches of equal length; empty branches, many baskets and files beyond 2 GB do not occur",
 ["rtree/tree/writer.rs", "rtree/branch/wbranch.rs", "rtree/leaf.rs", "rtree/branch/mod.rs", "rtree/branch/tbranch.rs"],
 [("writing", R + "rtree/tree/writer.rs write, flush, close"), ("a turn of a branch", R + "rtree/branch/wbranch.rs write"), ("iterating", R + "rtree/branch/mod.rs as_iter, get_basket")],
 ["values read back", "entries of tree and branches", "turns seen by callbacks"],
 over=("histories", "inputs"),
 note="Writing verified for all trees: after write each branch's account of the file (C12) covers exactly the encodings of its provider's values. The encodings read back by C01-C04; the iterator over baskets (closures over boxed iterators) is run on the compiled code for 36 types (bounded). Trusted: the tree's own record marshaller, callbacks and providers terminate.")
prop("C17", "Dates are packed into 32 bits and come back to the second",
 "A date from 1995 to 2058 stored in a key or directory packs into the fields year, month, day, hour, minute and second of the 32-bit form and unpacks to the same second. Earlier dates are refused instead of being stored wrong, and a stored word that is no date does not make reading fail.",
 "all seconds of all 64 years",
 "tests pack one or two dates",
 ["riofs/utils.rs", "riofs/key.rs", "riofs/dir.rs"],
 [("packing", R + "riofs/utils.rs datetime_to_u32, u32_to_datetime"), ("use", R + "riofs/key.rs, dir.rs marshal/unmarshal")],
 ["the packed word", "dates read back"],
 note="Verified by bit-vector reasoning for all field values. Assumed: chrono's accessors and with_ymd_and_hms (a date is determined by its civil fields).")
prop("C20", "Looking a name up finds the object put last under it",
 "Each object put under a name already in use gets the next higher cycle, an object of another class under that name is refused, and so is a name with a slash. Looking the name up returns the object with the highest cycle; names that only resemble it are not found.",
 "all sequences of puts, all names, all orders of the key list",
 "tests put each name once",
 ["riofs/file.rs", "riofs/dir.rs"],
 [("cycle of a new key", R + "riofs/file.rs put"), ("lookup", R + "riofs/dir.rs get_object")],
 ["cycles in the key list", "object returned for a name"],
 over=("histories", "inputs"),
 note="put verified: the new key's cycle is one more than the highest among keys of that name, other keys are untouched. get_object (filter, collect and sort over closures) is run on the compiled code only (bounded: 200 key lists per run). Cycles below 32767.")
prop("C25", "Data written to a file is stored as it is",
 "At the compression setting every created file has, the payload of a record is stored unchanged, its key says that it is not compressed and its sizes add up, so that reading returns the bytes that were put.",
 "all payloads of all sizes",
 "tests compare a few hundred small values",
 ["rcompress.rs", "riofs/key.rs", "riofs/file.rs"],
 [("compression setting", R + "rcompress.rs compress, root_compress_algo_level"), ("use", R + "riofs/key.rs new_from_object, new_from_buffer")],
 ["bytes of the record", "sizes in its key"],
 note="compress and the setting's decoding verified (the created files' setting is a postcondition of create); the key constructors keep the payload. Other settings compress through external crates and are not claimed.")

prop("C24", "Iterating a branch gives each entry its own bytes, in order",
 "Iterating over a branch gives exactly one value for each of its entries, made from the bytes of that entry alone, in the order the entries were written: baskets in records of their own, compressed or not, with or without a table of starts, first, and the basket kept in the branch itself after them; entries of varying size, also empty ones, are cut where the table says.",
 "all numbers and sizes of baskets, all tables of starts, all sizes of entries, all functions applied to them",
 "the files of the tests hold one history each; a kept basket after others, numbers that agree by chance, and empty entries do not occur in them",
 ["rtree/branch/mod.rs", "rtree/branch/tbranch.rs", "rtree/branch/tbranch_element.rs", "rtree/basket.rs"],
 [("baskets handed out", R + "rtree/branch/tbranch.rs, tbranch_element.rs get_baskets_buffer"), ("values", R + "rtree/branch/mod.rs get_basket, as_iter"), ("payloads", R + "rtree/basket.rs raw_data")],
 ["values iterated over", "number of values"],
 over=("inputs", "histories"),
 note="The closures that load a basket, cut it into entries and apply a function to them are verified as functions (for TBranch and TBranchElement, baskets on file and kept ones), with lemma_chunk_back/lemma_values/lemma_typed: a basket written for entries is handed out as these entries and each value is made of its own bytes. Not under contract, only run (bounded): the lazy iterators that string the closures together, which leaf's title means varying size (a regular text), header_bytes_from_type. Branches with sub-branches (ZiperBranches) are not claimed.")

prop("C19", "Base objects and drawing attributes read back as written",
 "A TObject, a TNamed, the fill, line and marker attributes and the I/O features of a tree are written in ROOT's layout and read back with the same identity, bits, texts, colours, styles and widths, leaving the reader right behind them. The reader also takes blocks without a byte count and sets only the heap bit of a TObject on its own.",
 "all ids, bits, names, titles, colour codes, styles, widths and feature bytes; with and without a byte count; any bytes before and after",
 "the fixtures hold one combination of each; bits that change the layout (a referenced object) do not occur",
 ["rbase/object.rs", "rbase/named.rs", "rbase/attfill.rs", "rbase/attline.rs", "rbase/attmarker.rs", "rbase/objstring.rs", "rtree/tree/tio_features.rs", "rcolors/mod.rs"],
 [("codecs", "Marshaler/Unmarshaler of each class"), ("referenced objects", R + "rbase/object.rs test_bits")],
 ["bytes of the written buffer", "fields read back and cursor position"],
 note="Every codec verified for all inputs, round trips as lemmas over the contracts (TObjString: reading only, its writer is a todo!()). Versions of TObject below 0 are excluded (old layouts). Assumed: num_derive's conversion of the named colours (run exhaustively under C22).")
prop("C21", "Lists and arrays of objects keep their objects, classes and order",
 "A list or array of objects is written as its leading fields, the number of objects and one record per object in the order they were added, under a byte count covering all of it. Reading it gives the same objects in the same order and leaves the reader right behind the container; an array drops absent objects; versions the reader does not know are refused.",
 "all numbers of objects, classes and names, any position and offset of the buffer, any classes written before, all versions",
 "tests write a few streamers or branches; positions and classes that make references go wrong do not occur",
 ["rcont/list.rs", "rcont/objarray.rs", "rbytes/wbuffer.rs", "rbytes/rbuffer.rs"],
 [("writing", R + "rcont/list.rs, objarray.rs marshal, push"), ("reading", R + "rcont/list.rs, objarray.rs unmarshal"), ("records", R + "rbytes write_object_any, read_object_any_into")],
 ["bytes of the written buffer", "class, content and position of each object read"],
 over=("histories", "inputs"),
 note="Both writers and both readers verified for all sequences of objects; lemma_read_back: what was written reads back as the objects pushed. Assumed of each object: it reads back exactly the bytes it wrote (C19, C23 for the classes here), and reading it depends only on the bytes and the classes met before. Repeated objects are back references, read as absent (C05). Blocks below 2^30 bytes.")
prop("C22", "Codes and names agree for types and colours",
 "Converting any integer into a colour or streamer type and back returns the same integer, whether or not the code has a name, and exactly ROOT's codes have names. Comparing a streamer type with an integer in either direction gives what comparing the integers gives.",
 "all 16-bit colour codes, all 32-bit type codes, all comparisons",
 "a single test compares two codes",
 ["rcolors/mod.rs", "rmeta/consts.rs"],
 [("colours", R + "rcolors/mod.rs Color::from_i16, to_i16"), ("types", R + "rmeta/consts.rs Enum::from_i32, to_i32 and the comparison operators of EReadWrite")],
 ["integers returned", "outcome of comparisons"],
 note="Conversions and comparison operators verified relative to what num_derive generates for the named codes; that (and the tables of names) is run on the compiled code: all 65536 colours, all type codes within +-1100000 (thorough: +-2^27) and samples beyond - bounded, not proved.")
prop("C23", "Leaf descriptions read back, and leaves write the value they are given",
 "The description of a leaf of any kind reads back with the same name, title, length, element size, offset, range, sign and limits (an announced length of zero reads as one). Writing a value through a leaf appends exactly the encoding of the value, framed for class objects, and a text leaf remembers the longest text written.",
 "all leaf kinds, all field values, all values written, any bytes before and after",
 "tests write a few branches and compare values only; most fields are never looked at again",
 ["rtree/leaf.rs", "rbytes/wbuffer.rs", "rbytes/rbuffer.rs"],
 [("codecs", R + "rtree/leaf.rs Marshaler/Unmarshaler for TLeaf, LeafI..LeafC, LeafElement"), ("writing values", R + "rtree/leaf.rs write_to_buffer")],
 ["bytes of the written buffer", "fields read back", "state of the leaf"],
 note="All ten leaf classes verified for all inputs, round trips as lemmas; also Leaf's dispatch, sign, C++ type name and element size. Leaves with a counter leaf are outside (the writer has a todo!() there; the reader's contract covers the absent counter). Assumed: what derive(Default) makes.")
