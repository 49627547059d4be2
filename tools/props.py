# One entry per property: the source of properties.jsonl and MANIFEST.json (tools/genmeta.py).
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, level="model_checking", observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], **({"observe_at": observe} if observe else {})),
        technique=technique, note=note, level=level))

prop("C01", "Byte streams answer any history of reads and seeks as a file of fixed content",
 "Every in-memory, file-backed or synthetic byte stream behaves as one fixed sequence of bytes with one cursor: after any history of seeks, reads, exact reads and positioned reads, each call returns exactly the bytes of that sequence at the cursor and moves the cursor accordingly. A read at or past the end returns nothing, an exact read that does not fit is an error, a seek to before the start is refused or leaves nothing to read, and no call changes the content, the size or (when it fails before reading) the cursor.",
 ["histories", "configurations"], "all histories up to the stated depth over an alphabet of seeks from every origin, reads of boundary sizes and positioned reads, for every stream kind and a grid of sizes",
 "The tests read a handful of fixed offsets in one order; that every order of operations agrees with one fixed content is a statement over histories.",
 ["keramics-core/src/data_stream.rs", "keramics-core/src/fake_data_stream.rs", "keramics-core/src/os_data_stream.rs", "keramics-core/src/macros.rs"],
 [("cursor arithmetic of seek", "keramics-core/src/fake_data_stream.rs: seek"), ("bounded copy of read", "keramics-core/src/fake_data_stream.rs: read"), ("positioned and exact reads", "keramics-core/src/data_stream.rs: read_at_position, read_exact")],
 "exhaustive enumeration of operation histories on the real streams against an explicit-state reference model",
 "All histories up to the bound on every stream kind; deeper histories and other sizes are not covered. Trusts the 60-line reference model of a file.")

prop("C02", "Diagnostic formatting of data is lossless and never fails",
 "For every byte sequence the hexadecimal dump shows each byte exactly once, in order, at its offset, in both the hexadecimal and the character column, and abbreviates only runs of repeated lines. Arrays of values are shown complete and in order, and formatting never fails or panics whatever the length or alignment of the data.",
 ["inputs"], "all lengths up to several dump lines with contents that vary and repeat line by line, all byte values in all columns, and all array lengths up to the stated bound",
 "Tests format two or three fixed buffers; lengths that are not a multiple of the line or group size, and runs of repetition, are a combinatorial space they do not enter.",
 ["keramics-core/src/formatters.rs", "keramics-core/src/mediator.rs"],
 [("hexdump line and group layout", "keramics-core/src/formatters.rs: format_as_hexdump, debug_format_array")],
 "exhaustive bounded enumeration of inputs, replaying each through an independent parser of the output",
 "Every length and repetition pattern within the bound, parsed back into bytes. Longer inputs repeat the same line logic but are not enumerated.")

prop("C03", "Checksums equal their definition for every input and every way of feeding it",
 "For every byte sequence and every way of splitting it over updates, an Adler-32 or CRC-32 calculation (either bit order, any polynomial and initial value) yields the value its mathematical definition gives for the whole sequence. A finished calculation can be used again and starts afresh.",
 ["inputs", "histories"], "all byte sequences up to 2 bytes, all splits of longer ones up to the bound, lengths around every internal block boundary, several polynomials and initial values",
 "The tests checksum one file in one piece; independence of the split and of the modulo-reduction block boundaries quantifies over all histories of updates.",
 ["keramics-checksums/src/adler32.rs", "keramics-checksums/src/crc32.rs"],
 [("deferred modulo reduction", "keramics-checksums/src/adler32.rs: update"), ("table lookup", "keramics-checksums/src/crc32.rs: update")],
 "exhaustive enumeration of update histories on the real contexts against a bit-by-bit definition",
 "Complete for short inputs and for all splits within the bound; block boundaries are enumerated around every internal limit. Trusts a bit-serial definition written for the check.")

prop("C04", "Message digests equal the standard for every input and every way of feeding it",
 "For every byte sequence and every way of splitting it over updates, an MD5, SHA-1 or SHA-2 digest equals the digest the standard defines for the whole sequence. The digest does not depend on the split, and a finished calculation can be used again.",
 ["inputs", "histories"], "all lengths over several blocks, all splits into pieces whose sizes straddle the block size, all one- and two-byte messages",
 "Tests hash one fixed file at once; the buffering of partial blocks and the length padding only go wrong for particular split and length combinations.",
 ["keramics-hashes/src/md5.rs", "keramics-hashes/src/sha1.rs", "keramics-hashes/src/sha256.rs", "keramics-hashes/src/sha512.rs"],
 [("partial block buffer", "update of each context"), ("padding and bit length", "finalize of each context")],
 "exhaustive enumeration of update histories on the real contexts against independent implementations",
 "Every length and split within the bound. Trusts the RustCrypto sha1 and sha2 crates and a direct transcription of RFC 1321.")

prop("C05", "Timestamps convert to the right calendar date over their whole range",
 "Every POSIX timestamp and FILETIME shows the proleptic Gregorian date and time of day that it denotes, before and after its epoch, across leap years and centuries, with its full fraction of a second. Every FAT timestamp shows exactly the year, month, day, hour, minute, second and fraction that its bits encode. Reading the stored bytes gives the same timestamp, and no value panics.",
 ["inputs"], "all FAT dates and times, all days of 400-year cycles at both ends of a day, all boundary seconds and fractions, and both extremes of every kind",
 "The tests convert one sample per kind; calendar errors live at century, leap and epoch boundaries and at the extremes of the integer ranges.",
 ["keramics-datetime/src/util.rs", "keramics-datetime/src/posix.rs", "keramics-datetime/src/fat.rs", "keramics-datetime/src/filetime.rs", "keramics-datetime/src/epoch.rs"],
 [("days to date conversion", "keramics-datetime/src/util.rs: get_date_values"), ("bit fields of a FAT date", "keramics-datetime/src/fat.rs")],
 "exhaustive enumeration of timestamps against an independent calendar",
 "All days of the stated ranges and all bit patterns of the 16-bit kinds; seconds within a day are enumerated at boundaries (thorough: all).")

prop("C06", "Single-byte character sets map exactly as their standards define",
 "Each supported single-byte character set decodes every byte to the character its standard assigns and reports an error for a byte it does not assign; encoding accepts exactly the characters of the set and decoding what it produced gives the character back. Each byte or character is treated independently of its neighbours and an error does not stop progress.",
 ["inputs"], "all bytes, all pairs of bytes, all Unicode code points and all pairs of characters of each repertoire for all 36 character sets",
 "The tests try one ASCII word and one unsupported value per character set; the mapping is a table of 256 entries and its inverse over 1.1 million code points.",
 ["keramics-encodings/src/iso8859_2.rs", "keramics-encodings/src/windows1252.rs", "keramics-encodings/src/koi8_r.rs", "keramics-encodings/src/character_decoder.rs", "keramics-encodings/src/character_encoder.rs"],
 [("decoding tables", "each DecoderX::next"), ("sparse encoding tables", "each EncoderX::next")],
 "exhaustive enumeration of the input space of every codec against independent reference tables",
 "Complete over bytes, pairs and code points. The reference tables come from the Python codecs; three Mac sets have none and are checked for reversibility only.")

prop("C07", "Windows 932 text converts as code page 932 defines",
 "Every one- and two-byte sequence that code page 932 assigns decodes to its character, each character encodes to the byte sequence Windows uses for it, and sequences decode character by character. Ill-formed or truncated input is reported as an error at its place, after all characters before it, and decoding always ends.",
 ["inputs"], "all sequences of up to two bytes, all three-byte sequences over the byte classes (thorough: all), chosen four-byte sequences, and all Unicode code points",
 "Tests decode one word; the code page has over nine thousand assignments, duplicates and gaps, and state between lead and trail byte.",
 ["keramics-encodings/src/windows932.rs"],
 [("lead and trail byte state", "DecoderWindows932::next"), ("encoding tables", "EncoderWindows932::next")],
 "exhaustive enumeration of byte sequences and code points against an independent reference table",
 "Complete for one and two bytes and all code points. Trusts the Python cp932 codec minus user-defined and best-fit entries.")

prop("C08", "UTF-8 decoding accepts exactly the well-formed sequences",
 "Decoding UTF-8 yields the characters of a well-formed sequence, in order, and nothing else. A sequence that is not well-formed (overlong, surrogate, beyond the last code point, truncated or stray) yields an error exactly where it first goes wrong, never a character, and decoding always ends.",
 ["inputs"], "all sequences up to two bytes, all sequences from a three-byte lead, all three- and four-byte sequences over the boundaries of the byte classes (thorough: all), all characters, and longer strings over the byte classes",
 "Tests decode a few characters and a few broken sequences; well-formedness is decided by the combination of up to four bytes.",
 ["keramics-encodings/src/utf8.rs"],
 [("byte class checks", "DecoderUtf8::next")],
 "exhaustive enumeration of byte sequences against an independent validator",
 "Complete up to three bytes with a three-byte lead, and (thorough) for all four-byte sequences with lead 0xf0-0xff. Trusts the Rust standard library validator.")

prop("C09", "Base64 decoding inverts encoding, rejects foreign characters and stays in bounds",
 "Decoding the Base64 form of any byte sequence gives back that sequence. A character outside the alphabet is an error unless it is white space that the caller asked to skip, incomplete padding is an error, and an output that is too small is an error, not a crash.",
 ["inputs"], "all byte sequences up to 2 bytes, all groups of four characters (quick: a subset), every byte at every position of a group, all short strings over the character classes, and long messages of every length modulo three",
 "Tests decode three strings; the state machine of sextets, padding and white space is a statement over all strings.",
 ["keramics-encodings/src/base64.rs"],
 [("sextet buffer", "Base64Stream::get_value"), ("padding validation", "Base64Context::decode")],
 "exhaustive enumeration of encoded strings against a reference decoder and encoder",
 "Complete for the classes and lengths stated. Leniency the specification leaves open (missing padding, discarded bits) is not judged.")

prop("C10", "Strings convert between encodings without loss or failure",
 "Reading a byte string or UTF-16 string from any bytes, in any encoding and byte order, never panics; the string ends at the terminator or the end of the data, and showing it renders exactly the characters the bytes encode, with undecodable elements replaced rather than causing a failure. Building strings from text and comparing, extending and converting them agrees with the same operation on the decoded text.",
 ["inputs", "configurations"], "all byte sequences over representative bytes up to the bound, in every encoding and both byte orders, all pairs of encodings for conversion, all 16-bit code units and pairs at class boundaries",
 "Tests read a few well-formed names; strings in real file systems are arbitrary bytes, and the failing cases are particular malformed combinations.",
 ["keramics-types/src/byte_string.rs", "keramics-types/src/utf16_string.rs", "keramics-types/src/ucs2_string.rs"],
 [("end-of-string detection", "ByteString::read_data, Utf16String::read_data"), ("conversion for display", "to_string of each string type")],
 "exhaustive enumeration of string contents and conversions against a decoded-text model",
 "All sequences over the stated alphabet and lengths; longer strings are covered only by element-wise repetition. One conversion to UTF-8 is a recorded finding.")

prop("C11", "UUIDs parse, print and read consistently in both byte orders",
 "Parsing the printed form of any UUID gives the same UUID, reading from bytes in big or little endian gives the fields those bytes hold, and a string that is not 32 hexadecimal digits in the standard grouping (optionally in braces) is an error, never a different UUID and never a panic.",
 ["inputs"], "every byte value in every position for reading, printing and parsing back, and every replacement, insertion, deletion and truncation at every position of valid strings",
 "Tests parse and print one UUID; acceptance of malformed strings depends on which character is wrong at which place.",
 ["keramics-types/src/uuid.rs"],
 [("field order of the byte orders", "Uuid::from_be_bytes, Uuid::from_le_bytes"), ("string grouping checks", "Uuid::from_string")],
 "exhaustive enumeration of byte values per position and of edits of valid strings against a reference",
 "Complete per byte position and for all single edits over the alphabet; combinations of several edits are bounded.")

prop("C12", "Signature scanning finds what a naive search finds",
 "For every set of signatures bound to the start, bound to the end or unbound, and for every data and every way of handing it over in buffers, the scanner can be built, ends, and reports only signatures that occur at the reported offset. If a bound signature lies at its offset inside a buffer, at least one of that kind is reported, and every unbound occurrence inside a buffer is reported unless a reported one overlaps it from before.",
 ["inputs", "histories", "configurations"], "all sets of up to four signatures over a two-letter alphabet with offsets 0-2, all data up to the bound and all splits of it, and all subsets up to a size of a set modelled on the real formats",
 "Tests scan for one or two fixed signatures; the scan tree built from a set depends on every interaction of shared prefixes, offsets and byte weights.",
 ["keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/signature_table.rs", "keramics-sigscan/src/scan_context.rs", "keramics-sigscan/src/signature.rs", "keramics-sigscan/src/skip_table.rs"],
 [("decision tree construction", "ScanTreeNode::build"), ("choice of significant offsets", "SignatureTable::get_most_significant_pattern_offset"), ("tree walk, skip and offset bookkeeping", "ScanContext::scan_buffer_with_scan_tree")],
 "exhaustive enumeration of signature sets, data and buffer splits on the real scanner against a naive matcher",
 "All sets, data and splits within the bounds. Patterns split over buffers and the choice among several simultaneous matches are deliberately unspecified.")

prop("C13", "Readers generated from a layout decode every member at its place",
 "For every structure layout that can be declared (integers, bit fields, dates, UUIDs, strings, nested structures, sequences and groups that depend on the size of the data, in either byte order), the generated reader takes exactly the bytes of the layout from the position asked for, and the generated printer shows every member once, in order, with the value its own bytes hold in its byte order, size and sign.",
 ["programs", "inputs"], "all layouts of one member and all ordered pairs of 40 member kinds in alternating byte orders, all divisions of 8-bit fields, all two-part divisions of 16, 32 and 64-bit fields, all groups; for each, every single bit set and cleared and every position of a stream",
 "The unit tests compare token streams of a few declarations; what a layout decodes depends on the combination of the members before it, which is a space of programs.",
 ["keramics-layout-map/src/structure.rs", "keramics-layout-map/src/macros.rs"],
 [("offset and size bookkeeping", "StructureLayout::generate_debug_read_data, get_data_size"), ("bit field extraction", "StructureLayout::generate_debug_read_bitfields"), ("byte order selection", "get_from_bytes_token_stream")],
 "exhaustive enumeration of layouts (as generated programs) and of bit patterns, against an interpreter of the layout",
 "All layouts within two members (three with a group) and all one-bit patterns. Trusts the date, UUID and string types, which other checks cover.")
DEC_TAIL = " Data that breaks the format is refused or gives the data before the break; whatever the input and the size of the output, decompression ends, does not panic, does not write past the output it reports, and its answer does not depend on what the output held before."
DEC_WHY = "Tests decompress a handful of samples; what a decoder does depends on the tables and symbols of each block and on where blocks, buffers and bytes end."
DEC_TECH = "exhaustive enumeration of streams made by an independent encoder, run on the real decoder and compared with what was encoded"

prop("C14", "DEFLATE and zlib decompression inverts compression",
 "Decompressing DEFLATE or zlib data of any block types, codes and matches gives exactly the data that was compressed, and zlib data whose checksum does not match is refused." + DEC_TAIL,
 ["inputs"], "all complete code length assignments up to a size, every length and distance symbol with the edges of its extra bits, all sequences of tokens and of block types up to a depth, every truncation, every output size, every value of every byte of small streams and all streams of up to two bytes (thorough: three)",
 DEC_WHY,
 ["keramics-compression/src/deflate.rs", "keramics-compression/src/zlib.rs", "keramics-compression/src/huffman.rs"],
 [("canonical Huffman codes", "HuffmanTree::build, HuffmanTree::decode_symbol"), ("block types and matches", "DeflateContext::decompress"), ("header and checksum", "ZlibContext::decompress")],
 DEC_TECH,
 "Complete for the codes, symbols and sequences within the bounds. Trusts the encoder in the harness; preset dictionaries are not covered.")

prop("C15", "bzip2 decompression inverts compression",
 "Decompressing bzip2 data gives exactly the data that was compressed, for every number of blocks, compression level, number and choice of Huffman tables, permutation, run and code lengths; block and stream checksums that do not match are refused." + DEC_TAIL,
 ["inputs"], "all data over a small alphabet up to a length, every run length around the edges of both run encodings, every number of tables and selector sequence up to a depth, code sizes 1-20, sequences of blocks, levels 1-9, truncation at every byte, every value of every byte",
 DEC_WHY,
 ["keramics-compression/src/bzip2.rs"],
 [("inverse Burrows-Wheeler transform", "Bzip2Context::read_block_data"), ("selectors and Huffman tables", "Bzip2Context::read_selectors, read_huffman_tree"), ("run lengths and move to front", "Bzip2Context::read_symbol_stack")],
 DEC_TECH,
 "Complete for the alphabets and lengths stated; randomised blocks are not covered.")

prop("C16", "ADC, LZNT1 and LZVN decompression follow the formats",
 "Decompressing ADC, LZNT1 or LZVN data gives exactly what the literals and matches of the format describe, for every opcode, length and distance, at every position; a distance before the start of the data or chunk, or of zero, is refused." + DEC_TAIL,
 ["inputs"], "every opcode with every edge of its operands after every size of history, all sequences of opcodes and tokens up to a depth, an LZNT1 match at every position of a chunk, sequences of chunks, truncation at every byte, all data of up to two bytes (thorough: three)",
 DEC_WHY,
 ["keramics-compression/src/adc.rs", "keramics-compression/src/lznt1.rs", "keramics-compression/src/lzvn.rs"],
 [("opcode operands", "AdcContext::decompress, LzvnContext::decompress"), ("length and distance bits by position", "Lznt1Context::decompress_block")],
 "exhaustive enumeration of opcode and token sequences on the real decoders against a reference interpreter",
 "Complete for the opcodes, histories and depths stated. LZNT1 chunks that describe more than 4096 bytes are only required to give an answer.")

prop("C17", "LZFSE decompression inverts compression",
 "Decompressing LZFSE data of any blocks (stored, LZVN, compressed with either header) gives exactly the data that was compressed, for every frequency table, state, symbol and extra bits; a frequency table or distance that leaves nothing to decode is refused." + DEC_TAIL,
 ["inputs"], "every frequency of a symbol of each of the four state machines, every final state, every symbol with the edges of its extra bits, all sequences of values and of blocks up to a depth, blocks at the size limit, truncation at every byte, every value of every byte",
 DEC_WHY,
 ["keramics-compression/src/lzfse.rs", "keramics-compression/src/lzvn.rs"],
 [("state machine tables", "LzfseContext::build_decoder_table, build_value_decoder_table"), ("backward bit stream", "LzfseBitstream::read_data"), ("frequencies of the header", "LzfseContext::read_block_v2_header")],
 DEC_TECH,
 "Complete for pairs of symbols in each machine and the sequences stated. Trusts the encoder in the harness, which partitions the states independently.")

prop("C18", "LZX decompression inverts compression",
 "Decompressing LZX data (as in WIM files) of any verbatim, aligned and stored blocks gives exactly the data that was compressed, for every distance slot, match size, recent distance, code and bit alignment, including the adjustment of call instructions." + DEC_TAIL,
 ["inputs"], "every distance slot and match size with the edges of its bits, all sequences of tokens and of blocks up to a depth, stored blocks at every bit alignment, call instructions at every position with the edges of their address, truncation at every byte, every value of every byte",
 DEC_WHY,
 ["keramics-compression/src/lzx.rs", "keramics-compression/src/huffman.rs"],
 [("code lengths relative to the previous block", "LzxContext::read_code_sizes"), ("recent distances and aligned offsets", "LzxContext::decompress_huffmann_encoded_block"), ("call instructions", "LzxContext::decompress_adjust_call_instructions")],
 DEC_TECH,
 "Complete for the slots, sizes and sequences stated. Call instructions in the last 10 bytes, on which descriptions differ, are left out.")
IMG_TAIL = " What is read does not depend on the order or size of the reads, reads past the end give nothing, and a file that is malformed or ends early is refused or gives an error, without a panic or an endless loop."
IMG_WHY = "Tests read a few sample images in one order; what a read gives depends on how every block before it was allocated, on where sizes are not a multiple of the block size, and on what was read before."
IMG_TECH = "exhaustive enumeration of images made by an independent builder and of histories of reads, run on the real code and compared with the content that was stored"

prop("C19", "The block map and the cache of the image formats give back what was stored",
 "The map of blocks that the image formats read through gives for every offset exactly the value that was inserted for the range the offset lies in, and nothing where nothing was inserted, for every size of the map, node and range, in every order of inserts; ranges that overlap, are not aligned or lie outside are refused. The cache holds at most its capacity and always the most recently used values.",
 ["inputs", "histories"], "all sequences of inserts of all ranges into small maps up to a depth with every offset looked up after each step, larger maps with many levels, all histories of cache operations up to a depth",
 "Tests insert a few ranges of one size; which node a range lands in depends on the sizes and on what was inserted before.",
 ["keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs", "keramics-formats/src/lru_cache.rs"],
 [("insert and lookup", "BlockTree::insert_value, BlockTree::get_value"), ("eviction", "LruCache::insert, LruCache::get")],
 "exhaustive enumeration of histories of operations on the real map and cache against a reference model",
 "Complete for the sizes and depths stated. What a refused insert leaves behind is not specified.")

prop("C20", "QCOW images read as the media they describe",
 "Every layer of a QCOW image (versions 1, 2 and 3) reads as exactly the media its tables describe: a cluster in the file, compressed, or zero as its entry says, one that is not allocated as the backing file (zeros beyond its end) or zeros, for every size of clusters, tables and media and every chain of backing files." + IMG_TAIL,
 ["inputs", "histories", "fault_sequences"], "every sequence of kinds of clusters up to a length with last clusters of several sizes, level 1 ranges left out or not, pairs (thorough: triples) of images in a chain with different sizes, compressed data at every offset of a sector, all pairs (thorough: triples) of reads around the edges, every history of seeks and reads of length two, failure of every read of the file, every value of every byte of the header, truncation at every byte",
 IMG_WHY,
 ["keramics-formats/src/qcow/file.rs", "keramics-formats/src/qcow/image.rs", "keramics-formats/src/qcow/file_header.rs", "keramics-formats/src/qcow/cluster_table.rs"],
 [("cluster tables", "QcowFile::read_cluster_block_entry"), ("reads across clusters", "QcowFile::read_data_from_blocks"), ("backing files", "QcowImage::open")],
 IMG_TECH,
 "Complete for the allocations and sizes stated. Encrypted images, external data files, snapshots and other compression methods are refused or not covered.")
prop("C21", "VHD images read as the media they describe",
 "Every layer of a VHD image (fixed, dynamic or differential) reads as exactly the media its footer, block table and sector bitmaps describe: sectors present in a block as stored, all others as the parent (zeros beyond its end) or zeros, for every block size, number of blocks, media size and chain of parents. The media has the size the footer states." + IMG_TAIL,
 ["inputs", "histories", "fault_sequences"], "every sequence of kinds of blocks up to a length, every sector bitmap pattern of small blocks, last blocks of several sizes, chains of parents with different sizes, every history of reads up to a depth, every read failing or falling short, truncation and every header field at its edges",
 IMG_WHY,
 ["keramics-formats/src/vhd/file.rs", "keramics-formats/src/vhd/image.rs", "keramics-formats/src/vhd/file_footer.rs", "keramics-formats/src/vhd/sector_bitmap.rs"],
 [("block and sector allocation", "VhdFile::read_block_ranges, VhdSectorBitmap"), ("reads across blocks", "VhdFile::read_data_from_blocks"), ("parents", "VhdImage::open")],
 IMG_TECH,
 "Complete for the allocations and sizes stated. Block tables of gigabytes in malformed files are left out.")

prop("C22", "VHDX images read as the media they describe",
 "Every layer of a VHDX image (fixed, dynamic or differential) reads as exactly the media its metadata, block allocation table and sector bitmaps describe: blocks present as stored, partially present ones sector by sector, all others as the parent (zeros beyond its end) or zeros, for every block size, sector size, media size and chain of parents; one damaged copy of a header does not matter." + IMG_TAIL,
 ["inputs", "histories", "fault_sequences"], "every sequence of block states up to a length, sector bitmap patterns at the edges of blocks and chunks, block and sector sizes, last blocks of several sizes, chains of parents with different sizes, every history of reads up to a depth, every read failing or falling short, damage of every header field",
 IMG_WHY,
 ["keramics-formats/src/vhdx/file.rs", "keramics-formats/src/vhdx/image.rs", "keramics-formats/src/vhdx/block_allocation_table.rs", "keramics-formats/src/vhdx/sector_bitmap.rs"],
 [("block allocation table with interleaved sector bitmaps", "VhdxFile::read_block_allocation_entry"), ("reads across blocks", "VhdxFile::read_data_from_blocks"), ("parents", "VhdxImage::open")],
 IMG_TECH,
 "Complete for the allocations and sizes stated. Log replay is not implemented by the code; fixed images of several chunks are left out.")

prop("C23", "UDIF images read as the media they describe",
 "Every UDIF image (uncompressed, or with raw, zero, ADC, zlib, bzip2 and LZFSE block ranges in one or more block tables) reads as exactly the media its block tables describe: each range as the data it names, unpacked, and ranges without data as zeros, wherever in the file the data lies and in whatever sequence it is read." + IMG_TAIL,
 ["inputs", "histories", "fault_sequences"], "every sequence of block range types up to a length, data offsets at the edges of the data fork, range and media sizes, several block tables, every history of reads up to a depth, every read failing or falling short, damage of every field of the footer and block tables",
 IMG_WHY,
 ["keramics-formats/src/udif/file.rs", "keramics-formats/src/udif/block_table.rs", "keramics-formats/src/udif/block_table_entry.rs", "keramics-formats/src/udif/file_footer.rs"],
 [("block ranges from block tables", "UdifFile::read_metadata"), ("reads across ranges and their cache", "UdifFile::read_data_from_blocks"), ("compressed ranges", "UdifFile::read_compressed_block")],
 IMG_TECH,
 "Complete for the range sequences and sizes stated. LZMA ranges are not implemented by the code; property lists above 64 KiB are left out.")

prop("C24", "Sparse disk images and bundles read as the media they describe",
 "Every sparse image and sparse bundle reads as exactly the media its band table or band files describe: each band as stored, wherever it is, and bands that are absent, empty or short as zeros, for every band size, number of bands, last band and media size." + IMG_TAIL,
 ["inputs", "histories", "fault_sequences"], "every assignment of bands to places up to a length, band and media sizes, band files missing or of every length at the edges, every history of reads up to a depth, every read failing or falling short, damage of every header field and plist value",
 IMG_WHY,
 ["keramics-formats/src/sparseimage/file.rs", "keramics-formats/src/sparseimage/file_header.rs", "keramics-formats/src/sparsebundle/image.rs"],
 [("band table", "SparseImageFile::read_header_block"), ("reads across bands", "SparseImageFile::read_data_from_bands"), ("band files", "SparseBundleImage::read_data_from_bands")],
 IMG_TECH,
 "Complete for the band assignments and sizes stated.")

prop("C25", "EWF images read as the media they describe",
 "Every EWF image (E01 and S01, of one or many segment files) reads as exactly the media its volume section and chunk tables describe: every chunk, stored or compressed, whatever the split of chunks over tables and segments, the sizes of sectors and chunks, the names and number of segment files and the sequence of reads; its header values, hashes and media type are those of its sections. Damage to what checksums protect gives an error, and segments that are cut, missing, swapped or of another set are refused." + IMG_TAIL,
 ["inputs", "histories", "fault_sequences"], "every sequence of chunk types up to a length in every layout, every split of chunks over tables and segments, numbers of segments past the file cache and through the naming scheme, sector and chunk sizes, offsets over 2 GiB and sector counts over 32 bits, every pair of header values, every history of reads up to a depth, every read failing or falling short, every byte changed, every cut, every pair of volume and table field values",
 IMG_WHY,
 ["keramics-formats/src/ewf/image.rs", "keramics-formats/src/ewf/file.rs", "keramics-formats/src/ewf/table.rs", "keramics-formats/src/ewf/header.rs", "keramics-formats/src/ewf/header2.rs", "keramics-formats/src/ewf/volume.rs"],
 [("chunk tables", "EwfImage::read_table_section"), ("reads across chunks and segments", "EwfImage::read_data_from_blocks"), ("segment files", "EwfImage::get_segment_file_extension"), ("sections of a segment file", "EwfFile::read_sections")],
 IMG_TECH,
 "Complete for the sequences, splits and sizes stated. The checksums of chunks that are stored as they are are not verified by the code (a TODO there).")

prop("C26", "Partitions are the ranges that the partition tables describe",
 "For every Apple partition map, GUID partition table and master boot record (with chains of extended boot records), the partitions are exactly those of the used table entries, in their order, with their identifiers, flags, offsets and sizes, and reading a partition gives exactly the bytes of that range of the disk. Partitions of one disk can be read in turns without disturbing each other. Tables whose signatures, checksums, sizes or block numbers do not hold, and chains of boot records that do not end, are refused, without a panic or an endless loop.",
 ["inputs", "histories", "fault_sequences"], "every sequence of table entries up to a length over ranges inside, overlapping, at and past the end of the disk, numbers of entries, places of the backup header, checksums, sector sizes, every layout of chains of extended boot records up to a depth and chains up to the supported length, every map of four records that never ends, histories of reads, every read failing, every cut, every byte of the tables changed",
 "Tests read one table of two partitions per format; a wrong base of a second logical partition or an unused slot shows only for chains and layouts that the sample does not have.",
 ["keramics-formats/src/apm/volume_system.rs", "keramics-formats/src/gpt/volume_system.rs", "keramics-formats/src/mbr/volume_system.rs", "keramics-formats/src/mbr/partition.rs", "keramics-formats/src/gpt/partition.rs", "keramics-formats/src/apm/partition.rs"],
 [("chains of extended boot records", "MbrVolumeSystem::read_extended_boot_record"), ("table header and entries", "GptVolumeSystem::read_partition_table"), ("partition map", "ApmVolumeSystem::read_partition_map")],
 IMG_TECH,
 "Complete for the sequences and sizes stated. Sectors of 512 bytes for APM. A disk with a master boot record and no extended partition does not store its sector size: a known finding covers what is guessed.")

prop("C27", "FAT file systems give the directories and file contents that the volume stores",
 "For every FAT-12, FAT-16 and FAT-32 volume, the directory tree, the names (long and short), flags, times, sizes and the contents of the files are exactly those that the boot record, the allocation table and the directory entries describe: a file has the bytes of the clusters of its chain in the order of the chain, a directory ends at its terminator, deleted and incomplete entries do not show, and lookups by path and by identifier give the same entries. Damaged chains and entries are refused or shown without a panic, an endless loop or bytes of another file.",
 ["inputs", "histories", "fault_sequences"], "every sequence of allocation table entries of small volumes, every 12-bit entry, every number of clusters around the format limits, layouts by sector size, cluster size, tables, reserved sectors and root entries, every sequence of directory entry pieces (deleted, label, short, parts of long names, terminator) up to a length, every tree up to a size, every length of name, every byte value of an entry, every time value, reads of all windows and histories of reads, every read failing, every cut, every identifier, entries damaged byte by byte",
 "Tests read one image per format with contiguous files; wrong chains, reused clusters, orphaned long names and reserved bits show only for volumes the samples do not have.",
 ["keramics-formats/src/fat/file_system.rs", "keramics-formats/src/fat/block_allocation_table.rs", "keramics-formats/src/fat/directory_entries.rs", "keramics-formats/src/fat/short_name_directory_entry.rs", "keramics-formats/src/fat/long_name_directory_entry.rs", "keramics-formats/src/fat/file_entry.rs", "keramics-formats/src/fat/block_stream.rs"],
 [("cluster chains", "FatBlockStream, FatBlockAllocationTable"), ("directory entries", "FatDirectoryEntries"), ("lookups", "FatFileSystem::get_file_entry_by_identifier, get_file_entry_by_path")],
 IMG_TECH,
 "Complete for the sequences and sizes stated. Identifiers have 32 bits and are offsets: three known findings cover what that loses.")

prop("C28", "ext file systems give the directories and file contents that the volume stores",
 "For every ext2, ext3 and ext4 volume, the directory tree, the names, modes, owners, times, link targets, sizes and the contents of the files are exactly those that the superblock, the group descriptors, the inodes and their block or extent trees describe: a file has the bytes of its blocks in order, holes and uninitialized extents are zeros, reads end at the stored size, and lookups by path and by inode number give the same entries. Structures whose checksum does not match are refused, and damaged volumes are refused or read without a panic, an endless loop or bytes of another file.",
 ["inputs", "histories", "fault_sequences"], "every sequence of block numbers (direct, indirect, holes) and of extents up to a length, every shape of extent tree, every length around the limits of a level, every sequence of directory entry pieces in a block, every tree up to a size, every mode, every time value around the limits, every length of link target, inline data and label, layouts by block size, inode size, groups, descriptor size, first block and features, every byte of the superblock and descriptors with edge values and pairs of them, damaged checksums, reads of all windows and histories of reads, every read failing, every cut, circular trees",
 "Tests read one ext2 image; extents, inline data, 64-bit descriptors, checksums, several groups, sparse files and times outside 1970 to 2038 do not occur in it.",
 ["keramics-formats/src/ext/file_system.rs", "keramics-formats/src/ext/superblock.rs", "keramics-formats/src/ext/group_descriptor.rs", "keramics-formats/src/ext/inode.rs", "keramics-formats/src/ext/inode_table.rs", "keramics-formats/src/ext/extents_tree.rs", "keramics-formats/src/ext/block_numbers_tree.rs", "keramics-formats/src/ext/directory_tree.rs", "keramics-formats/src/ext/block_stream.rs", "keramics-formats/src/ext/file_entry.rs"],
 [("block maps", "ExtBlockNumbersTree, ExtExtentsTree"), ("directories", "ExtDirectoryTree"), ("groups and checksums", "ExtBlockGroup, ExtInode"), ("lookups", "ExtFileSystem::get_file_entry_by_identifier, get_file_entry_by_path")],
 IMG_TECH,
 "Complete for the sequences and sizes stated; backups of the superblock are not used to repair, and volumes with meta block groups are refused as unsupported.")

prop("C29", "NTFS file systems give the directories and file contents that the volume stores",
 "For every NTFS volume, the directory tree, the names, flags, times, link targets, named data streams, sizes and the contents of the files are exactly those that the boot record, the master file table, the attributes and the directory index trees describe: a file has the bytes of its data runs in order whichever entries its attributes lie in, sparse runs and what is past the valid size are zeros, compressed units and overlay data are unpacked, reads end at the stored size, and lookups by path and by entry number give the same entries. Damaged volumes are refused or read without a panic, an endless loop or bytes of another file.",
 ["inputs", "histories", "fault_sequences"], "every sequence of data runs and sparse runs up to a length in several encodings, every split of a stream and of other attributes over entries and attribute lists, fragments of the master file table, every sequence of compression unit kinds and of overlay chunks up to a length in several layouts, every directory tree of two and three levels over small sets of names, deep and wide trees, every pair of names at the edges of the case table, every cluster, entry and index entry size, data and valid sizes, reparse points, every structure damaged byte by byte, sizes and numbers at the edges of what fits, fix-up values that do not match, circles, reads of all windows and histories of reads, every read failing, every cut, every path up to a depth",
 "There is no NTFS image among the tests: they parse single structures, so that the parts fit together, over fragments, lists of attributes and index trees, is not sampled at all.",
 ["keramics-formats/src/ntfs/file_system.rs", "keramics-formats/src/ntfs/boot_record.rs", "keramics-formats/src/ntfs/master_file_table.rs", "keramics-formats/src/ntfs/mft_entry.rs", "keramics-formats/src/ntfs/mft_attribute.rs", "keramics-formats/src/ntfs/mft_attributes.rs", "keramics-formats/src/ntfs/attribute_list.rs", "keramics-formats/src/ntfs/block_stream.rs", "keramics-formats/src/ntfs/compressed_stream.rs", "keramics-formats/src/ntfs/wof_compressed_stream.rs", "keramics-formats/src/ntfs/directory_index.rs", "keramics-formats/src/ntfs/file_entry.rs"],
 [("data runs over entries", "NtfsBlockStream, NtfsDataRun, NtfsMftAttributes"), ("directory index trees", "NtfsDirectoryIndex"), ("compression units", "NtfsCompressedStream"), ("overlay data", "NtfsWofCompressedStream"), ("lookups", "NtfsFileSystem::get_file_entry_by_identifier, get_file_entry_by_path")],
 IMG_TECH,
 "Complete for the sequences and sizes stated. XPRESS and LZX overlay chunks are stored ones only (the XPRESS source is not in the repository); a non-resident reparse point, stale sequence numbers and index entries over 65535 bytes are not decided.")

prop("C30", "The format scanner reports the formats whose signature a stream holds",
 "For every data stream and every set of formats a scanner is built for, in whichever order they were added, the reported formats all have their signature at the documented offset, wholly inside the stream, and at least one format is reported if one bound to the start (or to the end) is there; in particular a stream with a single known signature is reported as exactly that format, whatever its size and other contents. Streams shorter than the range of the signatures are scanned without error, a read that fails is an error or has no effect, and a scanner can be used again after it.",
 ["inputs", "configurations", "fault_sequences"], "all 4096 sets of formats × every signature × stream ends around the signature × contents of the rest, every set (quick: of up to 3 or at least 9 formats) × every two signatures in both orders of adding and placing, every signature with every byte changed to every other value, every signature at every offset up to 4200, every read failing",
 "Tests scan a handful of images for one format each; scan trees are built from the set of formats, so that a set, a size or a second signature makes a signature unreachable shows only for that set.",
 ["keramics-formats/src/scanner.rs", "keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/scan_context.rs"],
 [("signatures of the formats", "FormatScanner::add_*_signatures"), ("scan of header and footer", "FormatScanner::scan_data_stream")],
 "exhaustive enumeration of sets of formats and of streams with their signatures, run on the real code and compared with a plain comparison at the documented offsets",
 "Complete for the sets, placements and sizes stated.")

prop("C31", "The virtual file system gives what the layers under it hold, at their locations",
 "For every file system (FAT, ext, NTFS), every volume system (MBR, GPT, APM) and every storage media image, the virtual file system lists exactly the entries that are there, each with its name, type, times, link target, data streams and contents, and every listed entry, and nothing else, is found by its path; layers and partitions are found under exactly the names that are listed. A path or location equals another exactly if their components do, survives being written and read, and a parent joined with a file name is the path again. Whatever was opened, held, dropped or failed before in a context, a location gives what it gives in a context of its own, and what was given stays valid. Operating system entries have the type, times and contents that the system has for them.",
 ["histories", "inputs", "configurations"], "6 file systems, 13 kinds of images (with chains of layers) and MBR/GPT/APM of up to 3 partitions, complete; names from 20 stems × every tail of up to 3 characters out of 11, paths of up to 4 components out of 6; path algebra over every path of up to 3 (thorough: 4) components of 14 types; every name of up to 6 (7) characters out of 6; every pair of 2041 locations of up to 3 layers; 15 places in a file that is two file systems at once and in an image of it: every history of up to 3 (4) of 32 operations (open and drop, open and keep, drop all, new context); file resolvers from every base; OS entries of 8 kinds and 1296 pairs of times",
 "Tests open one image at a time with a fresh context; that a cache answers for another type, a name with a sign is accepted or a time wraps needs combinations of locations and values no test has.",
 ["keramics-vfs/src/context.rs", "keramics-vfs/src/file_system.rs", "keramics-vfs/src/file_entry.rs", "keramics-vfs/src/path.rs", "keramics-vfs/src/location.rs", "keramics-vfs/src/os/file_entry.rs", "keramics-vfs/src/file_resolver.rs", "keramics-formats/src/path_component.rs"],
 [("cache of file systems", "VfsContext::open_file_system"), ("entries by path", "VfsFileSystem::get_file_entry_by_path"), ("names of layers and partitions", "get_layer_index and get_partition_index"), ("OS times", "OsFileEntry::get_posix_datetime_value")],
 "exhaustive exploration of histories of a context over layered locations, and exhaustive enumeration of file systems, names, paths and locations, run on the real code against the model the files were built from",
 "Complete for the file systems, alphabets and depths stated.")

prop("C32", "The scanner finds exactly the layers and file systems that are in a file",
 "For every file that is a file system, a volume system or a storage media image of one of these, the scanner gives the tree of what is in it: the image with its newest layer, the volume system with each of its partitions in order, and the file system in each, at locations that can be opened and hold what was stored; where nothing known is stored there is no node. Files without any known format give an empty tree, what is not a file is refused, and scans do not depend on what was scanned or left open before.",
 ["configurations", "inputs", "histories"], "14 kinds of images (raw, EWF in one and three segments, QCOW 1-3, QCOW, VHD and VHDX chains, sparse, UDIF, fixed and dynamic VHD, VHDX) × every disk: 7 contents bare, MBR, GPT and APM with every 1 or 2 partitions out of 5 (thorough: 7) contents and 3 of three; 40 other files; every history of up to 3 (thorough: 4) scans out of 18 with one scanner",
 "Tests scan single image files and compare a few locations; which signature hides which, and which layer is looked at, depends on the combination of formats.",
 ["keramics-vfs/src/scanner/scanner.rs", "keramics-vfs/src/resolver.rs", "keramics-vfs/src/scanner/scan_node.rs"],
 [("what is looked for on a location", "VfsScanner::scan_for_format"), ("layers", "VfsScanner::scan_for_storage_media_image_sub_nodes"), ("partitions", "VfsScanner::scan_for_volume_system_sub_nodes")],
 "exhaustive enumeration of nestings of formats and of histories of scans, run on the real code and compared with the tree the file was built from, each location of which is opened",
 "Complete for the nestings and depths stated.")

prop("C33", "Debug output changes nothing but the output",
 "Whatever is read, with debug output switched on (the mediator the tools switch on for --debug) every operation gives the results it gives without: the same values, the same bytes, the same errors where there were errors, and no panic, for well-formed and for damaged data alike.",
 ["inputs", "configurations", "histories"], "the cases of C12, C14 to C18, C20 to C32, each run without and with debug output: every case of the families of up to 500 (thorough: 10,000) cases, one out of every 3 to 157 cases (a fixed prime per family, in the evidence) of larger or more expensive ones",
 "Tests run without debug output, and the code that shows a structure is generated from its layout and runs before or after the checks of its size: whether it is in bounds depends on every size in the data.",
 ["keramics-core/src/mediator.rs", "keramics-formats/src/ntfs/mft_attribute.rs", "keramics-layout-map/src/lib.rs", "keramics-compression/src/zlib.rs", "keramics-compression/src/lznt1.rs", "keramics-formats/src/ext/directory_tree.rs"],
 [("switch", "Mediator::make_current"), ("generated output", "debug_read_data"), ("output", "Mediator::debug_print_data")],
 "exhaustive enumeration of the executions of the other checks, each replayed on the real code in both modes, with verdict, explored states and observed outcomes compared",
 "Complete for the cases stated; what the output says is the subject of C02 and C13.")

prop("C34", "keramicshash tells the digest of every data stream there is, by its path",
 "For every file with storage media images, volume systems and file systems in it, keramicshash writes exactly one line for each data stream of each file entry that can be read (NTFS $BadClus:$Bad excepted), with the digest asked for of exactly its contents and its path: the volume by index or identifier, the names of the entries, and the name of the data stream; a file without a file system is digested itself, and without a file the standard input is. In paths, control characters, separators, unpaired surrogates and what cannot be decoded are escaped so that every path is printable, and names without escapes in them appear as they are. What cannot be read is not given a digest of other contents, and never ends the program with a panic.",
 ["inputs", "configurations"], "14 kinds of images × every disk of C32 (bare, MBR, GPT, APM with up to 3 partitions) × digests × volumes by index and identifier; plain files of 24 sizes and every sequence of up to 3 (thorough: 4) pieces as standard input × 5 digests; every character alone and in between; every path of up to 4 (5) of 13 characters pairwise distinct; every byte string of up to 4 (5) of 13 bytes; special names in FAT, ext and NTFS images; images cut at every 4096th (1024th) byte",
 "The command line tools have no tests for images in images, names that need escapes, or digests of standard input that arrives in pieces.",
 ["keramics-tools/src/hash_tool.rs", "keramics-tools/src/hasher.rs", "keramics-tools/src/display_path.rs", "keramics-vfs/src/finder"],
 [("digests of an image", "main of keramicshash"), ("digest of a stream", "DigestHasher::calculate_hash_from_reader"), ("paths", "DisplayPath::get_path")],
 "exhaustive enumeration of nestings of formats, names and pieces of input, run on the real program and its modules and compared with what the file was built from",
 "Complete for the disks, names and pieces stated. Names with unpaired surrogates are decided on the escape of the module and for their image; keramicsexport is documented as work in progress.")

prop("C35", "keramicsimage tells what is on an image: bodyfile, hierarchy and digest",
 "For every image, the bodyfile has exactly one line for each data stream of each file entry (and for entries without any), with the MD5 asked for, path, identifier, mode, owner, group, size and times of the entry; times are written exactly, as seconds since the POSIX epoch with the sign and the precision of the value for every value they can have, and what has no time is written as such. The hierarchy shows exactly the layers, partitions and file systems there are, with their identifiers and sizes. The digest of an image is that of its media, and a digest that is stored is given next to it. Damaged images end in an error or a shorter bodyfile, never in a panic or in wrong lines.",
 ["inputs", "configurations"], "14 kinds of images × every disk of C32; digests of EWF (with no, either or both sections of stored digests), sparse, UDIF and raw media of 8 sizes; every mode of ext (quick: 16 types × 512 permissions; thorough: × 4096); times of ext: 9 × 9 × 10 × 10 seconds and extra bits, of NTFS 13 × 13, of FAT 10 × 8 dates and times; every FAT date (65536), file times and POSIX times around every bound, sizes around every unit; special names; images cut at every 4096th (1024th) byte",
 "The tests of the tools check a few values of each formatter; negative times, absent times, carries at unit bounds and FAT entries show only for values that no test image has.",
 ["keramics-tools/src/image_tool.rs", "keramics-tools/src/bodyfile.rs", "keramics-tools/src/formatters.rs", "keramics-vfs/src/file_entry.rs"],
 [("bodyfile", "print_file_entry_as_bodyfile"), ("times", "Bodyfile::format_as_timestamp"), ("sizes", "format_as_bytesize"), ("digest", "main of keramicsimage")],
 "exhaustive enumeration of nestings of formats and of the values of file system metadata, run on the real program and its modules and compared with what the file was built from",
 "Complete for the disks and values stated. The target of a symbolic link is written without escapes (a TODO in the code) and left out; hash is documented not to support QCOW, VHD and VHDX yet; set-user-identifier bits are not shown.")

prop("C36", "keramicsinfo tells what a format holds, wherever in a file it starts",
 "For every image, volume system and file system, keramicsinfo names the format and tells its version, sizes, identifiers, partitions, feature and attribute flags as they are stored, each flag by its value and name. The hierarchy of a file system has exactly its entries (NTFS: their data streams); an entry given by its path and by its identifier is told with exactly its name, size, times, mode, flags and references (number before sequence number), and what does not exist is refused. With an offset the result is that of the file without what precedes the offset. Names are decoded with the encoding asked for. Damaged files end in a result or an error with a reason, never in a panic.",
 ["inputs", "configurations", "histories"], "14 kinds of images × every disk of C32 × offsets 512 and 4096 (thorough: 9 offsets up to 65537, in decimal and hexadecimal); 7 file systems: every entry by path and identifier, 100 other identifiers; every FAT attribute without that of labels, every NTFS attribute bit, modes of ext (thorough: 7 × 4096), each of 96 feature bits of ext; names of every byte in 6 encodings; file systems cut at every 4096th (thorough: 512th) byte; a third of the bytes of the first 768 and last 256 (thorough: all of 3072 and 1024) of 20 files replaced by 0xff (5 values); ranges of files of up to 4 bytes: every history of up to 3 (4) of 17 operations",
 "The functions that print have no tests (TODO in each file); a flag, an order of numbers or an offset that is not taken into account shows only for entries and files that have it.",
 ["keramics-tools/src/info_tool.rs", "keramics-tools/src/range_stream.rs", "keramics-tools/src/info/ext.rs", "keramics-tools/src/info/fat.rs", "keramics-tools/src/info/ntfs.rs", "keramics-tools/src/info/mbr.rs", "keramics-tools/src/info/gpt.rs", "keramics-tools/src/info/apm.rs", "keramics-tools/src/info/vhd.rs"],
 [("format of a file", "scan_for_formats"), ("range of a file", "FileRangeDataStream"), ("entries", "print_file_entry"), ("hierarchies", "print_hierarchy_file_entry"), ("attributes of NTFS", "NtfsInfo::print_attribute")],
 "exhaustive enumeration of nestings of formats, of flags and identifiers, of damage and of histories of the range stream, run on the real program and compared with what the file was built from and the library gives",
 "Complete for the files, flags and histories stated. The program ignores a VHD footer when another format is found and refuses UDIF files in which a second signature is found, both on purpose; names of kinds of partitions are not compared.")

NOT_APPLICABLE = []
