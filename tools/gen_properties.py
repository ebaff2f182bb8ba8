#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept in one readable place; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

TEXT = ["objutils/hexfile.py", "objutils/ihex.py", "objutils/srec.py", "objutils/titxt.py", "objutils/tek.py",
        "objutils/etek.py", "objutils/sig.py", "objutils/rca.py", "objutils/mostec.py", "objutils/emon52.py",
        "objutils/fpc.py", "objutils/cosmac.py", "objutils/ash.py", "objutils/shf.py"]

prop("C01", "Hex-format round trip preserves every byte at its address",
     "For every supported text hex format, writing any non-empty image that the format can represent and reading the result back yields exactly the same set of (address, byte) pairs. This holds whatever the section layout (gaps, adjacency, alignment, 64K boundaries, edges of the address space), the byte values and the permitted row length, and writing the re-read image again produces the same text.",
     ["inputs", "configurations"], "all 13 text codecs x images whose addresses fit the codec x row lengths 1..the format's record limit",
     "The suite round-trips a couple of fixed images per codec near address 0x1000 with 16-byte rows; several codecs have no round-trip test at all.",
     TEXT, [("regex driven record reader", "hexfile.Reader.read"), ("row-by-row writer", "hexfile.Writer.dumps"), ("per codec compose_row/check_line", "objutils/<codec>.py")],
     ["objutils.loads(codec, objutils.dumps(codec, image))"])
prop("C02", "Written hex files are well-formed and mean the same to other tools",
     "Every file written in a hex format decodes, under an independent implementation of that format's published rules, to exactly the image that was written: record framing, lengths, addresses, extended-address records, every checksum and the terminator are all correct. No record carries more than the requested row length of data.",
     ["inputs", "configurations"], "all text codecs x representable images x row lengths; Intel HEX and S-record additionally through GNU objcopy",
     "Tests compare the output for two or three literal images; they never decode it independently, so a writer and reader that are wrong in the same way pass.",
     TEXT + ["objutils/checksums.py"], [("compose_row / compose_header / compose_footer", "objutils/<codec>.py"), ("lrc, nibble_sum, rotatedXOR", "objutils/checksums.py")],
     ["objutils.dumps(codec, image, ...)", "objutils.dump(...) file bytes"])
prop("C03", "Readers load conforming files from other producers exactly",
     "A file that conforms to a supported hex format loads to exactly the bytes it describes, whichever conforming choices its producer made: record order and size, mixed record sizes, upper or lower case digits where both are legal, LF, CRLF or CR line ends, extended-address, start-address, count, header and terminator records. Non-data records never add, move or drop data.",
     ["inputs"], "files produced by an independent generator for each codec (and by GNU objcopy for Intel HEX / S-record)",
     "Tests load a handful of literal files, mostly produced by this writer's own conventions.",
     TEXT, [("format patterns", "hexfile.FormatParser"), ("extended addressing", "ihex.Reader.special_processing"), ("record classification", "is_data_line in each codec")],
     ["objutils.loads(codec, text)", "objutils.load(codec, file)"])
prop("C04", "Corruption of a checksummed record is never accepted silently",
     "When one digit of a checksummed data record (its length, address, data or checksum field) is changed to another digit, or one data byte is dropped from or added to it (leaving at least one), loading the file never returns an image whose bytes differ from the original: the load raises, or the record is rejected with an error. This covers Intel HEX, S-record, Tektronix, extended Tektronix, Signetics, MOS Technology, EMON52 and SHF, within what each format's checksum covers (the address field of EMON52 and SHF is not covered). Of Four Packed Code, whose digits stand for several bytes at once, records from which whole groups of digits (but not all data) were dropped are not accepted silently.",
     ["inputs", "fault_sequences"], "every single-digit fault position of generated files, plus byte insertions/deletions",
     "Tests corrupt one digit in one record for two codecs.",
     TEXT + ["objutils/checksums.py"], [("check_line length and checksum tests", "objutils/<codec>.py"), ("SHA1/length test", "shf.Reader.load")],
     ["objutils.loads on the corrupted text: exception or resulting memory"])
prop("C05", "Unrepresentable addresses are refused, never wrapped or truncated",
     "An image with any byte at an address the target format cannot express (negative addresses included) is refused with an address-range error, while an image that fits, up to and including the last address of the format's address space, is written. The same holds for start addresses given for S-record files. A refused write leaves an already existing destination file untouched.",
     ["inputs", "configurations"], "all address-limited codecs x images around the 16/24/32-bit limits, including images whose widest section is not the last one",
     "The limit is tested for one codec and one image; nothing looks at the last representable byte or at the destination of a refused write.",
     ["objutils/hexfile.py", "objutils/srec.py", "objutils/binfile.py"], [("address width check", "hexfile.Writer.calculate_address_bits / dumps"), ("record type selection", "srec.Writer.pre_processing")],
     ["objutils.dumps / objutils.dump result or exception", "destination file content"])
prop("C06", "Writer options take effect exactly as requested",
     "Options given when writing are honoured: row length for every record-oriented text format; S-record record type (S1/S2/S3), S5 count record and start-address termination record; separator character of ASCII-Hex; filler byte (given as a byte or as an integer) for gaps in plain binary output, whose length is exactly the address span of the image. An option that a record-oriented text format does not know, a row length its records can not carry and an S-record type without data are rejected, no option changes the data the file describes, and options of one write never leak into another.",
     ["configurations", "inputs", "histories"], "option combinations x images x sequences of writes in one process",
     "The option tests of the suite fail or cover one literal value; nothing combines options or checks leakage between writes.",
     ["objutils/hexfile.py", "objutils/srec.py", "objutils/binfile.py"], [("set_parameters", "hexfile.Writer.set_parameters"), ("footer and record type", "srec.Writer"), ("gap filling", "binfile.Writer.dumps")],
     ["text/bytes of objutils.dumps and objutils.dump with options"])
prop("C07", "File, file-object and in-memory entry points agree and are side-effect free",
     "Saving to a path, to an open binary file and to memory yield the same bytes, and loading from a path, an open binary file, bytes and (for ASCII content) str yield the same image, for every codec. The (joined) image passed to a writer and the buffer passed to a reader are left unchanged, files opened by the library are closed when the call returns, and plain binary data loaded at an address and saved again is the identical byte string.",
     ["inputs", "histories"], "all codecs x images x the four entry points, repeated on the same objects",
     "Only the in-memory entry points are exercised by the suite, once each.",
     ["objutils/__init__.py", "objutils/hexfile.py", "objutils/shf.py", "objutils/binfile.py", "objutils/registry.py"], [("load/loads/dump/dumps", "objutils/__init__.py"), ("file handling", "Reader.load / Writer.dump")],
     ["return values, file bytes, deep snapshot of the image, open-file table"])
prop("C08", "An image behaves as a sparse byte-addressable memory",
     "After any sequence of operations, an image built from disjoint sections (joined, as by default) answers reads, writes, membership tests, total length, section lookup and hex dumps exactly as a sparse map from address to byte would. An access that is not entirely inside one contiguous region, or of negative length, is rejected with an invalid-address error and changes nothing, and a successful write changes exactly the addressed bytes.",
     ["histories", "inputs"], "random operation histories (construct, insert, read, write, typed access, lookups) against a shadow byte map",
     "Tests perform single operations on tiny fixed images.",
     ["objutils/image.py", "objutils/section.py"], [("section dispatch", "Image._call_address_function"), ("bounds checks", "Section.read/write/...")],
     ["Image/Section public methods", "full memory snapshot after every operation"],
     [("sections", "sorted list of contiguous blocks", "Image._sections")])
prop("C09", "Typed memory access reads back what was written, in the stated byte order",
     "Every integer and float width and byte order, scalar, array or numpy array, is stored as exactly the standard encoding of the value at the addressed location, reads back equal (with a bit mask applied when given), and touches no other byte. Values outside the type's range, unknown type names and accesses crossing the end of the memory are rejected without changing anything.",
     ["inputs"], "10 numeric types x 2 byte orders x values (boundaries, random, NaN payload-free floats) x offsets x array lengths x shapes, strings in single- and multi-byte encodings",
     "Tests cover one or two literal values per type at address 0x1000.",
     ["objutils/section.py", "objutils/image.py"], [("struct formats", "Section._getformat"), ("bit masks", "Section.apply_bitmask"), ("numpy access", "Section.read_ndarray/write_ndarray"), ("strings", "Section.read_string/write_string")],
     ["Image and Section typed accessors; raw bytes before/after"])
prop("C10", "Sections stay sorted, disjoint and maximally joined",
     "Whatever the order and contents in which sections are given or inserted, the sections of an image are ordered by address, cover exactly the inserted bytes (sections without data change nothing), and (unless joining is switched off) no two of them are adjacent. Inserting data that overlaps existing data in any way (partial, inside, identical or engulfing) is rejected with an invalid-address error and leaves the image unchanged, and inserting without an address continues directly behind the previous insertion.",
     ["histories", "inputs"], "permutations of section lists and insertion histories with joining on and off",
     "Tests insert two or three sections in fixed order; overlap is tested at two positions.",
     ["objutils/image.py", "objutils/section.py"], [("join_sections", "section.join_sections"), ("overlap check", "Image._address_contained / insert_section"), ("SortedList", "Image.__init__")],
     ["Image.sections / iteration / indexing after every step"])
prop("C11", "Images never alias or modify their inputs or one another",
     "Building (joined) images from sections, joining, inserting, loading, writing and re-reading never changes the caller's sections, lists or buffers, and two images or default-constructed sections built independently never share storage: writing through one is invisible in the other. Bytes returned by a read are a snapshot that later writes do not change.",
     ["histories"], "histories creating several images from the same inputs and mutating one of them",
     "No test mutates one image and looks at another or at its inputs.",
     ["objutils/section.py", "objutils/image.py", "objutils/hexfile.py"], [("data conversion", "section._data_converter"), ("joining", "section.join_sections")],
     ["byte snapshots of all live objects after each mutation"])
prop("C12", "Checksum and byte helper primitives compute their defined functions",
     "Each supported checksum (byte-, word- and double-word-wise modular sums, CRC-16, CRC-16/CCITT, CRC-32, LRC with none, ones' and twos' complement, XOR, nibble sum, rotated XOR) returns, for every byte sequence (of whole words where it sums words), the value of its defining algorithm; so do the helpers for bit reversal, rotation, splitting integers into bytes, slicing sequences, filling blocks, viewing files through memory mappings, translating Cygwin paths, partial application and structures with enumeration fields. Results depend only on the input, whatever was computed before and however the byte sequence is typed, and inputs are not modified.",
     ["inputs"], "byte sequences of all lengths 0..n for every algorithm, as list, bytes, bytearray; widths and rotation directions",
     "Tests check one nine-byte vector per algorithm.",
     ["objutils/checksums.py", "objutils/utils/__init__.py"], [("lookup tables", "checksums.CRC16, CRC16_CCITT"), ("check()", "checksums.check"), ("lrc/xor/nibble_sum/rotatedXOR", "checksums")],
     ["objutils.checksums public functions"])
prop("C13", "A hex dump shows exactly the section's contents",
     "The canonical hex dump of any section can be parsed back to the exact bytes and addresses: every 16-byte row shows its address (32 bits wide, or 64 where needed), hex values and printable characters; an elided run stands only for rows identical to the row shown before it; and the last row and the byte count are always shown. Dumps of several sections, or repeated dumps, do not influence each other.",
     ["inputs", "histories"], "sections of all lengths modulo 16 with repeated-row patterns, single and multi-section images",
     "Tests compare a few literal dumps.",
     ["objutils/hexdump.py", "objutils/section.py", "objutils/image.py"], [("row eliding", "hexdump.Dumper.dump_data"), ("row formatting", "hexdump.CanonicalDumper")],
     ["text produced by Section.hexdump / Image.hexdump"])
prop("C14", "A binary diff reconstructs the second input from the first",
     "Applying the differences reported for two byte strings to the first one yields the second one, for any two inputs. Differences are ordered, non-overlapping and minimal (modifications are maximal runs of unequal bytes, at most one tail is appended or deleted), and equal inputs yield none.",
     ["inputs"], "pairs of byte strings, exhaustively for small alphabets and lengths, plus random long ones",
     "Tests use four literal pairs, none of which ends in a difference.",
     ["objutils/utils/diff.py"], [("diff_bin", "objutils/utils/diff.py")], ["diff_bin(a, b)"])
prop("C15", "ELF metadata is reported exactly as encoded in the file",
     "For 32- and 64-bit, little- and big-endian ELF files, the parser reports every header field, program header, section (name, type, flags, address, offset, size, link, info, alignment, entry size, contents), symbol (name, value, size, binding, type, visibility, section), the compiler comment (ASCII names, NUL-terminated strings, standard entry sizes) and note entries exactly as encoded, and names machines and other codes as the ELF specification does. A file that is not an ELF file is rejected with an exception.",
     ["inputs", "programs"], "synthetic ELF files over class x endianness x arbitrary header/section/symbol values, and real objects from gcc/clang compared against readelf",
     "There are no ELF tests in the suite at all.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/elf/defs.py"], [("construct based parsing", "ElfParser._parse_*"), ("persisted model", "objutils/elf/model.py")],
     ["ElfParser properties, sections.fetch/get, symbols.fetch/get, segments, comment, notes"])
prop("C16", "The ELF information cache is never stale or partial",
     "Opening an ELF file gives the same answers whether its side-car database is absent, was written by an earlier opening of the same contents, or belongs to different contents. If any earlier opening was interrupted, by a process kill or an error at any point, the next opening still reports the complete information of the file as it is now.",
     ["crash_points", "histories", "fault_sequences"], "every database statement/commit of an opening as a kill point and as an exception point; histories that change the file between openings",
     "No test opens an ELF file; crash points need fault injection.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py"], [("hash check", "ElfParser.create_db_on_demand"), ("transaction boundaries", "ElfParser.load_data / _parse_symbol_section")],
     ["full dump of sections, symbols, headers, segments, notes after re-opening"],
     [("Meta.hash_value", "digest of the file the database describes", "objutils/elf/model.py")])
prop("C17", "ELF queries and image extraction select exactly the requested items",
     "Symbol and section queries return exactly the items satisfying all given criteria (section list, name pattern, binding, type and access letters; a list within one criterion means any of its members, patterns match from the start of the name), grouped by section and ordered as requested. Extracting a program image yields exactly the contents of the sections that occupy memory and have file contents, at their addresses, restricted by the include and exclude patterns, with the progress callback told about each of them.",
     ["inputs", "configurations"], "synthetic and compiled ELF files x query argument combinations x patterns",
     "There are no ELF tests in the suite.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py"], [("SymbolAPI.fetch", "objutils/elf/__init__.py"), ("SectionAPI.fetch", "objutils/elf/__init__.py"), ("ElfParser.create_image", "objutils/elf/__init__.py")],
     ["ElfParser.symbols / sections / create_image results", "callback event log"])
prop("C18", "ARM build attributes are decoded completely and correctly",
     "An ARM build-attributes section of either byte order with one file-scope subsection per vendor entry decodes, vendor by vendor (entries of the same vendor together) and in file order, to exactly the encoded tags and values (integers of any length and strings) together with the name and, for enumerated values, the meaning the ABI defines for them.",
     ["inputs"], "generated attribute sections: vendors x tags x values (multi-byte integers, empty strings) x byte order",
     "Tests decode one literal section per byte order.",
     ["objutils/elf/arm/attributes.py", "objutils/dwarf/encoding.py"], [("parse", "objutils/elf/arm/attributes.py"), ("ATTRIBUTES", "objutils/elf/arm/attributes.py")],
     ["attributes.parse(buffer, byteorder)", "ElfParser.arm_attributes"])
prop("C19", "Binary primitives decode exactly and consume exactly their bytes",
     "Unsigned and signed variable-length integers of any magnitude, fixed-width integers of either byte order, counted blocks, addresses, and terminated strings decode to the value they encode and consume exactly their own bytes, so consecutive values in one stream decode in sequence; encoding a value and decoding it returns it. Truncated input is reported as an error rather than returning a value.",
     ["inputs"], "values around all 7-bit boundaries up to 128 bits and random values, in random streams of mixed items, with truncation at every byte",
     "Tests decode about a dozen literal values.",
     ["objutils/dwarf/encoding.py", "objutils/readers.py"], [("ULEB/SLEB", "objutils/dwarf/encoding.py"), ("PlainBinaryReader", "objutils/readers.py"), ("blocks and strings", "objutils/dwarf/encoding.py")],
     ["parse/build of the encodings, reader positions"])
prop("C20", "DWARF debug entries are reported with their exact tree and values",
     "Reading the debug information of a file reports every entry of every compilation unit with its tag, its attributes in order with their decoded values, and its position in the parent/child tree as encoded, for both byte orders and address sizes, in the 32-bit DWARF format versions 2 to 5 with the attribute forms the reader supports. Tags, attributes, forms, operations, languages and the other codes of the specification bear the names it gives them. The entries a reading adds to the information database and the JSON form of its result say the same. Reading it does not depend on other files being processed in the same process.",
     ["inputs", "programs", "histories"], "synthetic DWARF 2-5 trees of arbitrary shape and attribute forms, and gcc/clang output compared with readelf",
     "There are no DWARF tests in the suite.",
     ["objutils/dwarf/__init__.py", "objutils/dwarf/encoding.py", "objutils/dwarf/constants.py"], [("do_dbg_info", "objutils/dwarf/__init__.py"), ("Abbrevations", "objutils/dwarf/__init__.py")],
     ["DwarfProcessor(...).do_dbg_info() result tree and map"])
prop("C21", "DWARF location expressions are rendered operation by operation",
     "Rendering a DWARF location expression made of standard or GNU operations which the library defines (other than DW_OP_GNU_encoded_addr) names every operation it contains, in order, with its operands decoded in the byte order and address size of the file it belongs to. The rendering of one file's expressions is not affected by processing another file of different byte order or word size.",
     ["inputs", "histories"], "random sequences of all supported operations and operand values, with two or more processors of different kinds interleaved",
     "There are no DWARF tests in the suite.",
     ["objutils/dwarf/sm.py", "objutils/dwarf/__init__.py"], [("StackMachine.evaluate", "objutils/dwarf/sm.py"), ("operation classes", "objutils/dwarf/sm.py")],
     ["DwarfProcessor.dwarf_expression(bytes)"])
prop("C22", "Calls do not influence each other: several threads, nested calls, reused objects",
     "Loading, writing, converting, editing and dumping different images from several threads at once gives each thread exactly the result (value, exception, last error report of its object) the same calls give sequentially, whatever the interleaving, and never blocks: codecs, options, error reports and the codec registry share no state that one call can see of another. The same holds for interleaved and nested use of several reader and writer objects in one thread, and a reader or writer object that was used before (successfully or not) gives the results of a new one. Several iterations over one image, nested or interleaved, each visit all its sections in order.",
     ["schedules", "histories"], "thread schedules with switches injected at lines, calls and opcodes; calls nested through file objects; sequences of calls of one object; all codecs; mixed options",
     "No test uses threads, interleaves codec objects or uses one twice.",
     TEXT + ["objutils/registry.py", "objutils/utils/__init__.py"], [("per call instances", "objutils/__init__.py load/dump"), ("double-checked singleton", "utils.SingletonBase"), ("state of readers and writers", "hexfile.Reader.read / Writer.dumps")],
     ["results of calls in each thread vs. a sequential run", "results of used objects vs. new ones"])
prop("C23", "Converting between formats preserves the image",
     "Loading a file in one format and writing it in another that can represent it, through any chain of formats, keeps every byte at its address and adds nothing (the file written is that of the same bytes given directly), including when the source file carried headers, start addresses, counts or other non-data records, and when bytes were changed or sections added between loading and writing. S-record header records are kept when the image is written as S-records again.",
     ["inputs", "histories"], "random chains of 2..6 codecs starting from independently generated files with non-data records",
     "Tests never write an image that came from another codec.",
     TEXT + ["objutils/__init__.py"], [("codec registry", "objutils/registry.py"), ("meta-data handling", "hexfile.Reader.read / srec.Writer.compose_header")],
     ["loads(b, dumps(b, loads(a, text)))"])
prop("C24", "Command line tools report and extract exactly what the files contain",
     "The hex-file information tool lists each section's address and length, the total and (on request) the dump of exactly the loaded file; the ELF extraction tool writes a hex file that loads to exactly the program image selected by its options; the ELF symbol tool lists exactly the symbols its options select, with their values, sizes, bindings, types and access flags; the ELF information tool shows the header, sections, segments, comment and notes and, of files with debugging information, the units, entries, attributes (with their values) and public names, and the ARM attribute tool the attributes of each vendor, as they are in the file. A missing or invalid input file gives a message and a non-zero exit status and writes no output.",
     ["inputs", "configurations"], "generated hex files in all 13 listed types, synthetic and compiled ELF files x option combinations",
     "No test runs a command line tool.",
     ["objutils/scripts/oj_hex_info.py", "objutils/scripts/oj_elf_extract.py", "objutils/scripts/oj_elf_syms.py", "objutils/scripts/oj_elf_info.py", "objutils/scripts/oj_elf_arm_attrs.py"], [("main()", "objutils/scripts/*.py")],
     ["stdout, exit status and output files of the tools"])
prop("C25", "Each registered codec name resolves to its own reader and writer",
     "Every registered format name, in any letter case, resolves to that format's reader and writer for the whole life of the process; unknown names are rejected with the does-not-exist error and registering an existing name is rejected with the already-exists error without replacing it. Registering further codecs leaves existing ones working, and every part of the program sees the same registry. All of this also holds when several threads register, look up and list codecs at the same time.",
     ["histories", "schedules"], "histories of register/get/list operations, also from several threads racing on first use",
     "Tests register one dummy codec.",
     ["objutils/registry.py", "objutils/utils/__init__.py", "objutils/__init__.py"], [("Registry", "objutils/registry.py"), ("SingletonBase", "objutils/utils/__init__.py")],
     ["registry.get/register/iteration/formats, objutils.load/dump by name"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
