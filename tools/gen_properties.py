#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Data streams are cursors over one fixed byte sequence",
     "Every byte stream the library offers behaves as a cursor over one fixed byte sequence of its reported size: a read returns min(requested, bytes left) bytes of that sequence from the current position and advances by exactly that many, and a read at or past the end returns 0 bytes. Seeking from start, current position or end moves to exactly that offset (past the end is allowed), an exact read fails if fewer bytes are left than requested, and a seek to before byte 0 is an error that does not move the cursor. The bytes seen never depend on how reads are chunked or on earlier reads and seeks.",
     ["histories", "inputs"], "All histories of read/seek/get-size calls with all buffer sizes and offsets, on all contents and sizes.",
     "The unit tests make a handful of reads and seeks per stream; the guarantee is over every interleaving of chunk sizes and seeks, including ones across the end and across zero-filled tails.",
     ["keramics-core/src/data_stream.rs", "keramics-core/src/fake_data_stream.rs", "keramics-core/src/os_data_stream.rs"],
     [("DataStream trait and its provided methods", "keramics-core/src/data_stream.rs"),
      ("In-memory stream with zero-filled tail", "keramics-core/src/fake_data_stream.rs"),
      ("Operating-system file stream", "keramics-core/src/os_data_stream.rs")])

prop("C02", "Message digests equal the standard algorithms for every input and chunking",
     "Feeding any byte string to an MD5, SHA-1, SHA-224, SHA-256 or SHA-512 context in any sequence of chunks (including empty ones) yields exactly the digest that RFC 1321 / FIPS 180-4 define for the concatenation. Finalizing returns the digest and leaves the context as new, so it can be reused for the next message.",
     ["inputs", "histories"], "All messages of all lengths, and all ways of splitting them over update calls, with contexts reused after finalize.",
     "Tests hash a few fixed strings in one or two chunks; padding and block-buffer errors show only at particular lengths (around 55/56/64, 111/112/128) and chunk boundaries.",
     ["keramics-hashes/src/md5.rs", "keramics-hashes/src/sha1.rs", "keramics-hashes/src/sha224.rs", "keramics-hashes/src/sha256.rs", "keramics-hashes/src/sha512.rs"],
     [("update/finalize block buffering", "keramics-hashes/src/*.rs")])

prop("C03", "Checksums equal their definition for every input, chunking and initial value",
     "Adler-32, CRC-32 (most significant bit first) and reversed CRC-32 contexts return, for any byte string in any sequence of update calls, the value their bit-level definition gives for the concatenation with the chosen polynomial and initial value. A context started with a previous result as initial value continues that checksum, and finalizing returns the value and restores the context to its initial value.",
     ["inputs", "histories"], "All byte strings, all chunkings, all polynomials and initial values, and contexts reused after finalize.",
     "Tests check one value per checksum; reduction errors in Adler-32 appear only for long inputs of large bytes and block-boundary lengths, and state errors only for particular chunk histories.",
     ["keramics-checksums/src/adler32.rs", "keramics-checksums/src/crc32.rs"],
     [("Adler-32 deferred modulo", "keramics-checksums/src/adler32.rs"), ("table driven CRC", "keramics-checksums/src/crc32.rs")])

prop("C04", "Timestamps are rendered as the right Gregorian calendar date and time",
     "Every FILETIME, 32-bit POSIX and 64-bit POSIX timestamp, before and after its epoch, is rendered as the proleptic Gregorian date and time of day it denotes, with its fraction in full. Every FAT date, FAT date/time and FAT date/time with 10 ms fraction is rendered from its bit fields as FAT defines them, and all of these are read from bytes in the declared byte order.",
     ["inputs"], "All FILETIME and 32-bit POSIX values, all 64-bit POSIX values whose year lies in 0 to 9999, and all FAT values.",
     "Tests check about one timestamp per type; century, leap-day, month-end and pre-epoch boundaries each need their own inputs.",
     ["keramics-datetime/src/util.rs", "keramics-datetime/src/filetime.rs", "keramics-datetime/src/posix.rs", "keramics-datetime/src/fat.rs"],
     [("day count to date", "keramics-datetime/src/util.rs"), ("seconds to time of day", "keramics-datetime/src/util.rs")])

prop("C05", "Character codecs are inverse table codecs with faithful errors",
     "For every supported code page, decoding gives each mapped byte (or, for Windows 932, byte pair) the code point the published mapping table assigns, encoding is the inverse on every code point decoding can produce, and both work element by element in order on sequences of any length. Bytes or code points the table does not map give an error for that element, never a wrong value or a panic.",
     ["inputs"], "All code pages, all byte values and pairs, all code points, all sequences of them.",
     "Tests decode and encode one short string per code page; the tables have hundreds to thousands of entries and several range cut-offs each.",
     ["keramics-encodings/src/character_decoder.rs", "keramics-encodings/src/character_encoder.rs", "keramics-encodings/src/windows932.rs"],
     [("per code page tables and range tests", "keramics-encodings/src/*.rs"), ("codec selection", "keramics-encodings/src/character_decoder.rs")])

prop("C06", "UTF-8 and Base64 decoding accept exactly the well-formed input",
     "The UTF-8 decoder yields exactly the Unicode code points of a well-formed byte sequence, in order, and reports an error for ill-formed sequences (truncated, stray continuation, overlong, above U+10FFFF). The Base64 decoder yields exactly the bytes RFC 4648 assigns to the text for the chosen alphabet settings, in any chunking, and reports an error for text it does not allow.",
     ["inputs"], "All byte sequences for UTF-8; all texts, paddings and buffer sizes for Base64.",
     "Tests decode one or two well-formed strings; the guarantee is about all boundary code points, all truncations and all padding forms.",
     ["keramics-encodings/src/utf8.rs", "keramics-encodings/src/base64.rs"],
     [("UTF-8 multi-byte decode", "keramics-encodings/src/utf8.rs"), ("Base64 stream and context", "keramics-encodings/src/base64.rs")])

prop("C07", "UUID and string value types round-trip and compare faithfully",
     "A UUID read from 16 bytes in either byte order prints as its canonical text, and reading that text back gives the same UUID; malformed text is an error. Byte strings, UCS-2 and UTF-16 strings read from bytes stop at the first terminator, print the text they hold, round-trip through their element sequences, and compare as the sequence order of their elements (equal exactly when their elements are equal).",
     ["inputs"], "All 16-byte values and texts; all byte and 16-bit element sequences in both byte orders; all pairs for comparison.",
     "Tests use one or two sample values per type.",
     ["keramics-types/src/uuid.rs", "keramics-types/src/byte_string.rs", "keramics-types/src/ucs2_string.rs", "keramics-types/src/utf16_string.rs"],
     [("UUID parse/format", "keramics-types/src/uuid.rs"), ("string parse/compare", "keramics-types/src/ucs2_string.rs")])

prop("C08", "Declared structure layouts are read field by field at the right place",
     "The code generated from a structure layout declaration (fields with element counts, strings, bit fields, nested structures, groups with a size condition, per-field and structure byte order, modifiers and formats) reads every field from the offset that the sizes of the members before it determine, in the declared byte order, and shows exactly that value once, in order, under its name. Reading a structure at a position of a stream takes exactly the declared number of bytes there and hands them to the read hook, or is an error when the data is shorter; and integers of every width assembled from bytes have exactly the declared value.",
     ["programs", "inputs"], "All layout declarations, and all byte contents for them.",
     "Tests exercise a fixed handful of layouts; the macro is a compiler whose guarantee is over every layout and content.",
     ["keramics-layout-map/src/lib.rs", "keramics-types/src/macros.rs"],
     [("layout parsing and code generation", "keramics-layout-map/src"), ("integer-from-bytes macros", "keramics-types/src/macros.rs")])

prop("C09", "Signature scanning reports exactly the signatures present",
     "Scanning a byte sequence with a set of signatures (bound to an offset from the start, bound to an offset before the end, or unbound) reports a bound signature exactly when its pattern occurs at the place its binding allows, and unbound ones wherever their pattern occurs, from left to right and without overlapping each other, with the offset at which each occurs; of several that occur at the same offset the longest is reported. The result does not depend on how the data is split over buffers nor on signatures of the set that are not present.",
     ["inputs", "histories"], "All signature sets, all data, all buffer sizes.",
     "Tests scan a couple of fixed data sets; scan trees, skip tables and buffer carry-over are built per signature set and fail only for particular combinations.",
     ["keramics-sigscan/src/scanner.rs", "keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/scan_context.rs"],
     [("scan tree construction", "keramics-sigscan/src/scan_tree.rs"), ("buffer carry-over and footers", "keramics-sigscan/src/scan_context.rs")])

prop("C10", "Debug formatters show every byte and element exactly once",
     "The hexadecimal dump shows, 16 per line with the line's offset, every byte of the data exactly once in order in hexadecimal and as a printable-or-dot character, optionally collapsing runs of identical lines, and its last line is aligned as the others. The array, string and fixed-width value formatters list every element exactly once in order, for any number of elements including none.",
     ["inputs"], "All data lengths and contents, all array lengths and element types.",
     "Tests cover one or two lengths; errors hide at partial lines and array-length boundaries.",
     ["keramics-core/src/formatters.rs"],
     [("hexdump and array formatting", "keramics-core/src/formatters.rs")])

prop("C11", "Block trees and block caches answer as the map they stand for",
     "The block tree behaves as a map from disjoint, block-aligned extents to values: after any sequence of insertions that it accepts, a lookup returns the value of the extent that contains the offset and nothing where no extent was inserted, and overlapping or out-of-range insertions are refused without changing other answers. The least-recently-used cache never holds more than its capacity, and a lookup returns the value last inserted for that key or nothing.",
     ["histories"], "All sequences of insertions and lookups over all sizes, block sizes and capacities.",
     "Tests insert a few extents; node splitting and eviction errors need specific sequences of operations.",
     ["keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs", "keramics-formats/src/lru_cache.rs"],
     [("block tree insert/lookup", "keramics-formats/src/block_tree_node.rs"), ("cache eviction", "keramics-formats/src/lru_cache.rs")],
     hook_needed="the modules are private to the crate: a guarded module re-exports them")

prop("C12", "VHD images present the guest disk their block tables describe",
     "Opening a well-formed fixed, dynamic or differential VHD image presents exactly the bytes of the guest disk: in a fixed image the data area, in a dynamic image the stored sector of an allocated block and zeros for an unallocated block, and in a differential image the sector of the nearest layer whose sector bitmap marks it as present. The presented size is the size the footer declares, and the bytes do not depend on the order, chunking or history of reads.",
     ["inputs", "histories"], "All well-formed images (block sizes, tables, bitmaps, chains of layers) and all read histories.",
     "The repository has no VHD sample in this checkout that tests can open, and samples fix one block layout; bitmap and layering errors need particular patterns and read orders.",
     ["keramics-formats/src/vhd/file.rs", "keramics-formats/src/vhd/image.rs", "keramics-formats/src/vhd/sector_bitmap.rs", "keramics-formats/src/vhd/block_allocation_table.rs"],
     [("block ranges from allocation table and bitmaps", "keramics-formats/src/vhd/file.rs"), ("parent chain", "keramics-formats/src/vhd/image.rs")])

prop("C13", "VHDX images present the guest disk their block tables describe",
     "Opening a well-formed fixed, dynamic or differential VHDX image presents exactly the bytes of the guest disk: payload blocks that are present from their stored location, absent blocks as zeros (or from the parent in a differential image), and partially present blocks sector by sector as the sector bitmap selects between this layer and the parent. Size, sector sizes and identity come from the metadata of the currently active header and region table, and the bytes do not depend on the order, chunking or history of reads.",
     ["inputs", "histories"], "All well-formed images (block and sector sizes, block states, bitmaps, chains) and all read histories.",
     "No VHDX sample is available in this checkout to the tests; block state, chunk-ratio and bitmap handling need particular layouts and read orders.",
     ["keramics-formats/src/vhdx/file.rs", "keramics-formats/src/vhdx/image.rs", "keramics-formats/src/vhdx/sector_bitmap.rs", "keramics-formats/src/vhdx/block_allocation_table.rs"],
     [("block ranges from allocation table and bitmaps", "keramics-formats/src/vhdx/file.rs"), ("parent chain", "keramics-formats/src/vhdx/image.rs")])

prop("C14", "QCOW images present the guest disk through tables and backing files",
     "Opening a well-formed QCOW version 1, 2 or 3 image presents exactly the bytes of the guest disk: each guest cluster comes from the stored cluster its level 1 and level 2 tables reference, decompressed when marked compressed, as zeros when marked zero, and otherwise from the backing file or as zeros when there is none or it is too short. The bytes do not depend on the order, chunking or history of reads.",
     ["inputs", "histories"], "All well-formed images (versions, cluster sizes, tables, compressed clusters, backing chains) and all read histories.",
     "Sample images fix one version, one cluster size and no backing chain.",
     ["keramics-formats/src/qcow/file.rs", "keramics-formats/src/qcow/image.rs", "keramics-formats/src/qcow/cluster_table.rs"],
     [("cluster table walk", "keramics-formats/src/qcow/file.rs"), ("backing files", "keramics-formats/src/qcow/image.rs")])

prop("C15", "Sparse disk images and sparse bundles present the bands they contain",
     "Opening a well-formed Mac OS sparse disk image or sparse bundle presents exactly the bytes of the virtual disk: each band from where the band table or band file stores it and zeros for bands that are absent or shorter than the band size. The size is the declared size, and the bytes do not depend on the order, chunking or history of reads.",
     ["inputs", "histories"], "All well-formed images (band sizes, band order, absent and short bands, last partial band) and all read histories.",
     "The sample has one band layout; wrong placement shows only for permuted, absent or partial bands.",
     ["keramics-formats/src/sparseimage/file.rs", "keramics-formats/src/sparsebundle/image.rs"],
     [("band table to ranges", "keramics-formats/src/sparseimage/file.rs"), ("band files", "keramics-formats/src/sparsebundle/image.rs")])

prop("C16", "UDIF images present the disk their block tables describe",
     "Opening a well-formed UDIF image presents exactly the bytes of the disk: each block table entry's sectors come from the data fork raw, as zeros, or decompressed with the declared method (ADC, zlib, bzip2, LZFSE, LZMA as supported), at the sector the entry and its table declare. The bytes do not depend on the order, chunking or history of reads, and an unsupported or corrupt chunk gives an error rather than other data.",
     ["inputs", "histories"], "All well-formed images (tables, entry orders and sizes, chunk types) and all read histories.",
     "Samples hold one table shape per compression method.",
     ["keramics-formats/src/udif/file.rs", "keramics-formats/src/udif/block_table.rs", "keramics-formats/src/plist"],
     [("block tables to ranges", "keramics-formats/src/udif/file.rs"), ("chunk decompression", "keramics-formats/src/udif/file.rs")])

prop("C17", "EWF images present the acquired media and its stored metadata",
     "Opening a well-formed EWF (E01) image of one or more segment files presents exactly the bytes of the acquired media: each chunk from the table entry of its segment, stored or zlib-compressed, with the last chunk cut at the media size. Stored hashes and header values are presented as stored, a chunk or section whose checksum does not match is reported rather than served as good data, and the bytes do not depend on the order, chunking or history of reads.",
     ["inputs", "histories", "fault_sequences"], "All well-formed images (chunk sizes, segments, tables, compressed and stored chunks), all single corruptions of protected structures, and all read histories.",
     "The sample is one image with one segment file and one chunk size.",
     ["keramics-formats/src/ewf/image.rs", "keramics-formats/src/ewf/file.rs", "keramics-formats/src/ewf/table.rs"],
     [("chunk tables to ranges", "keramics-formats/src/ewf/image.rs"), ("section walk", "keramics-formats/src/ewf/file.rs")])

prop("C18", "MBR partition tables list exactly the partitions, as exact sub-ranges",
     "Reading a master boot record and its chain of extended boot records lists exactly the non-empty primary and logical partitions in table order, each with the type, offset and size the entries define relative to the right base. A partition's stream is exactly that sub-range of the disk, and a chain that loops or a record without a signature ends in an error or an end of list, never an endless walk.",
     ["inputs"], "All MBR/EBR chains, including looping and truncated ones.",
     "Tests use one fixed image with one extended partition.",
     ["keramics-formats/src/mbr/volume_system.rs", "keramics-formats/src/mbr/partition.rs", "keramics-formats/src/mbr/extended_boot_record.rs"],
     [("extended partition walk", "keramics-formats/src/mbr/volume_system.rs")])

prop("C19", "GPT lists exactly the partitions, as exact sub-ranges, surviving one bad header",
     "Reading a GUID partition table lists exactly the used entries in table order with their index, type, identifier and inclusive block range converted at the right block size. The backup header is used when the primary is unusable, corrupted headers or entry arrays are detected through their checksums, and a partition's stream is exactly its sub-range of the disk.",
     ["inputs", "fault_sequences"], "All tables (entry counts, entry sizes, block sizes) and corruption of either header or array.",
     "Tests use one fixed image with two partitions and no corruption.",
     ["keramics-formats/src/gpt/volume_system.rs", "keramics-formats/src/gpt/partition.rs", "keramics-formats/src/gpt/partition_table_header.rs"],
     [("header selection", "keramics-formats/src/gpt/volume_system.rs")])

prop("C20", "Apple partition maps list exactly the partitions, as exact sub-ranges",
     "Reading an Apple partition map lists exactly the map entries in order with their names, types, status, and offset and size in bytes. A partition's stream is exactly that sub-range of the disk, and malformed maps are errors.",
     ["inputs"], "All well-formed maps and entry counts, and malformed variants.",
     "Tests use one fixed image with two partitions.",
     ["keramics-formats/src/apm/volume_system.rs", "keramics-formats/src/apm/partition.rs"],
     [("map walk", "keramics-formats/src/apm/volume_system.rs")])

prop("C21", "FAT file systems present exactly the stored directories and file contents",
     "On a well-formed FAT-12, FAT-16 or FAT-32 volume, every directory lists exactly its live entries with their long name when a valid one is stored and else their short name, lookup by path finds exactly those entries, and a file's content is its cluster chain's bytes cut at its size. Attributes and timestamps are those stored; bytes read do not depend on read history; a chain that loops, leaves the volume or ends early gives an error rather than wrong data or an endless walk.",
     ["inputs", "histories"], "All well-formed volumes (FAT types, cluster sizes, fragmentation, long names, deleted entries) and damaged cluster chains, and all read histories.",
     "Tests open one small fixed volume per FAT type with contiguous files.",
     ["keramics-formats/src/fat/file_system.rs", "keramics-formats/src/fat/block_allocation_table.rs", "keramics-formats/src/fat/directory_entries.rs", "keramics-formats/src/fat/block_stream.rs"],
     [("cluster chain walk", "keramics-formats/src/fat/block_stream.rs"), ("directory entries and long names", "keramics-formats/src/fat/directory_entries.rs")])

prop("C22", "ext file systems present exactly the stored directories and file contents",
     "On a well-formed ext2, ext3 or ext4 volume, every directory lists exactly its live entries, lookup by path finds exactly those, and a file's content is what its direct/indirect block numbers or extent tree (sparse and uninitialized ranges as zeros), or inline data, describe, cut at its size. Mode, owner, links, size, timestamps, symbolic link targets, device identifiers and the number of extended attributes in the inode are those stored, and bytes read do not depend on read history.",
     ["inputs", "histories"], "All well-formed volumes (block sizes, inode sizes, trees of any depth, sparse files) and all read histories.",
     "Tests open one small fixed volume with a few unfragmented files.",
     ["keramics-formats/src/ext/file_system.rs", "keramics-formats/src/ext/block_numbers_tree.rs", "keramics-formats/src/ext/extents_tree.rs", "keramics-formats/src/ext/directory_tree.rs", "keramics-formats/src/ext/block_stream.rs"],
     [("block maps", "keramics-formats/src/ext/extents_tree.rs"), ("directories", "keramics-formats/src/ext/directory_tree.rs")])

prop("C23", "NTFS file systems present exactly the stored directories and file contents",
     "On a well-formed NTFS volume, every directory lists exactly its index entries, lookup by path (case-insensitive as the volume's case table defines) finds exactly those, and an attribute's content is its resident data or the bytes its data runs map (sparse runs and data past the valid size as zeros, compressed units decompressed), cut at its size. Records are only accepted with consistent fix-up values, attribute lists are followed, and bytes read do not depend on read history.",
     ["inputs", "histories"], "All well-formed volumes (cluster and record sizes, runs, sparse, compressed, multi-record attributes, index trees) and all read histories.",
     "No NTFS sample is available in this checkout; run decoding, fix-ups and index trees need many shapes.",
     ["keramics-formats/src/ntfs/file_system.rs", "keramics-formats/src/ntfs/block_stream.rs", "keramics-formats/src/ntfs/directory_index.rs", "keramics-formats/src/ntfs/data_run.rs", "keramics-formats/src/ntfs/compressed_stream.rs"],
     [("data runs", "keramics-formats/src/ntfs/data_run.rs"), ("directory index", "keramics-formats/src/ntfs/directory_index.rs"), ("compression units", "keramics-formats/src/ntfs/compressed_stream.rs")])

prop("C24", "LZ-family decompressors perform exactly the encoded copies",
     "Decompressing a well-formed ADC, LZNT1, LZVN, LZFSE or LZX stream yields exactly the bytes its literals and (possibly overlapping) back-references denote and reports exactly that size. A stream that is truncated, refers to before the start of the output, or would overflow the output buffer gives an error, never other bytes or a panic (a decompressor may stop without one once the output buffer is full).",
     ["inputs"], "All token sequences and encodings of them, all output sizes, and malformed streams.",
     "Tests decompress one sample per method.",
     ["keramics-compression/src/adc.rs", "keramics-compression/src/lznt1.rs", "keramics-compression/src/lzvn.rs", "keramics-compression/src/lzfse.rs", "keramics-compression/src/lzx.rs"],
     [("token decoding and copying", "keramics-compression/src")])

prop("C25", "Deflate, zlib and bzip2 decompression is the inverse of compression",
     "Decompressing a well-formed deflate, zlib or bzip2 stream, with every block type and code it may use, yields exactly the original bytes and their number. Truncated or corrupted streams (including ones whose checksum does not match) give an error, never silently other bytes or a panic.",
     ["inputs", "fault_sequences"], "All data, all block types and codings of it, and damaged streams.",
     "Tests decompress a few samples produced by one compressor.",
     ["keramics-compression/src/zlib.rs", "keramics-compression/src/deflate.rs", "keramics-compression/src/bzip2.rs", "keramics-compression/src/huffman.rs"],
     [("huffman codes", "keramics-compression/src/huffman.rs"), ("block decoding", "keramics-compression/src/deflate.rs")])

prop("C26", "Layered locations resolve to the same file data as the layers themselves",
     "Resolving a layered location (operating system path, image, partition, file system path) opens exactly the file entry, with the data, size, type and timestamps, that opening the layers one after the other gives; a location that does not exist is reported as absent. That does not depend on which locations were opened before, as which types, or are still in use. Scanning an image finds the chain of image layers, volume systems and file systems in it. Walking the tree from a root visits every file entry exactly once, and paths are composed, split and compared without losing or merging components.",
     ["inputs", "histories"], "All layer combinations, paths and directory trees, and repeated resolution through caches.",
     "Tests resolve a few fixed locations in fixed images.",
     ["keramics-vfs/src/resolver.rs", "keramics-vfs/src/location.rs", "keramics-vfs/src/file_system.rs", "keramics-vfs/src/file_entry.rs", "keramics-vfs/src/finder.rs", "keramics-vfs/src/context.rs"],
     [("resolver and caches", "keramics-vfs/src/context.rs"), ("finder", "keramics-vfs/src/finder.rs")])

prop("C27", "Format detection names exactly the formats whose signatures are present",
     "Scanning a data source for storage media image, volume system or file system formats reports exactly the formats whose signature is present at its defined place, whatever else the data contains and whatever its size. It never reports a format whose signature is absent and never fails because the data is short.",
     ["inputs"], "All data sizes and all combinations of signatures.",
     "Tests scan one sample per format.",
     ["keramics-formats/src/scanner.rs"],
     [("format scanner", "keramics-formats/src/scanner.rs")])

prop("C28", "The command-line tools report every file of a source once, with its path, metadata and hashes",
     "For any source (an image, disk or volume, with whatever is nested in it) keramicshash and the bodyfile of keramicsimage have one line for every file, directory, link and named data stream of every file system that a scan of the source finds, and none for anything else, with the partition and path it is at, the digest hash of exactly its bytes, and its identifier, mode, owner, group, size and times. Shown paths are unambiguous: names are escaped so that different paths never look alike and no name can break a line or a field. The hierarchy lists exactly the layers, partitions and file systems found. keramicsexport writes exactly the bytes of the stream named, or says that there is none.",
     ["inputs"], "All sources, names (control characters, separators, invalid encodings), times (before 1970, with fractions), modes and nesting.",
     "Tests check single helper functions on fixed values; nothing runs the tools over a source.",
     ["keramics-tools/src/hash_tool.rs", "keramics-tools/src/image_tool.rs", "keramics-tools/src/export_tool.rs", "keramics-tools/src/display_path.rs", "keramics-tools/src/bodyfile.rs", "keramics-tools/src/hasher.rs", "keramics-tools/src/writer.rs"],
     [("bodyfile", "keramics-tools/src/bodyfile.rs"), ("display paths", "keramics-tools/src/display_path.rs")])

prop("C29", "A path is the names that lead from the root to a file",
     "For every kind of path (ext, FAT, NTFS, of images and volumes, of the operating system) and all names: reading the text of a path gives the names it was made of, joining a name and going to the parent directory undo each other, the parent of the root is the root, the file name is the last name, its stem and extension are what is before and after its last dot unless that dot starts the name, and two paths of the same names are equal. This holds however the path was made (from text, from names in any form, by joining, by appending) and in whichever form the virtual file system is given the names; a form that a kind of path cannot take is refused and changes nothing.",
     ["inputs", "histories"], "All names, with dots anywhere, separators of other kinds and characters of any plane, and all sequences of operations.",
     "Tests take one or two fixed paths through each function.",
     ["keramics-formats/src/ext/path.rs", "keramics-formats/src/fat/path.rs", "keramics-formats/src/ntfs/path.rs", "keramics-formats/src/path_component.rs", "keramics-vfs/src/path.rs", "keramics-vfs/src/string_path.rs"],
     [("paths of the virtual file system", "keramics-vfs/src/path.rs"), ("path components", "keramics-formats/src/path_component.rs")])

prop("C30", "An XML property list is read as exactly the value it denotes",
     "For every well-formed XML property list, in whatever way it is written (white space, attributes, comments, processing instructions, references, character data sections, elements without content, line ends, declarations), reading gives exactly the value it denotes: dictionaries with exactly their keys, arrays in order, strings character by character, integers of 64 bits, reals, booleans, data bytes, and dates as the seconds since 2001. A document that is not well-formed, or that holds a wrong element, key or number, is an error, never another value or a panic, and what is read does not depend on what the same reader read before.",
     ["inputs", "histories"], "All values and all ways of writing them, all ways of damaging a document, and all sequences of documents.",
     "Tests read two fixed documents; disk image formats (UDIF, sparse bundles) rely on what is read.",
     ["keramics-formats/src/plist/xmlplist.rs", "keramics-formats/src/plist/xmlplist.pest", "keramics-formats/src/plist/object.rs"],
     [("grammar", "keramics-formats/src/plist/xmlplist.pest"), ("values", "keramics-formats/src/plist/xmlplist.rs")])

prop("C31", "keramicsinfo reports what an image, a volume system, a file system or a file holds",
     "For every storage media image, volume system, file system and file, wherever in the source it starts, keramicsinfo prints what was stored and nothing else: the sizes, identifiers, types, flags, names, versions, compression and case information of images, each partition once, in order, with its offset, size, type, name and flags, of file systems their label, identifiers, features and times, of files their size, mode, owner, flags, identifier, link target and times, and in the hierarchy each path once. Numbers are shown with their exact value, a shortened size is the nearest tenth of its unit, times have the value stored. What is not there, or cannot be read, is said to be so: the tool never panics or hangs.",
     ["inputs"], "All headers, sizes (of an exbibyte or more), flags, times, numbers of partitions and offsets of the source.",
     "Tests check single helper functions on fixed values; nothing runs the tool over a source.",
     ["keramics-tools/src/info_tool.rs", "keramics-tools/src/info", "keramics-tools/src/formatters.rs", "keramics-tools/src/range_stream.rs"],
     [("tool", "keramics-tools/src/info_tool.rs"), ("sizes", "keramics-tools/src/formatters.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
