"""The properties, and the wording of their checks."""


def P(id, title, statement, over, qtext, why, files, mech, technique="", note="", state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = state
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a,
                technique=technique, note=note)


SRC = ["src/lzw.rs", "src/lzss_huff.rs", "src/direct_ports/lzhuf.rs", "src/td0.rs"]
AI = "abstract interpretation of MIR (path-sensitive, calls inlined) "
ANOTE = ("Every path of every named entry point is covered by a fixpoint over the compiler's MIR; std's streams, bit_vec and HashMap are modelled, "
         "and anything unmodelled is assumed to do anything. Trusts the models in sa/models.py and the interpreter itself.")

BE = "abstract interpretation of the MIR in the domain of affine functions over GF(2), to a fixed point over buffer states"

PROPS = [
    P("C01", "Expanding what was compressed gives back the original bytes",
      "For every byte sequence within the size limit and every valid set of options, compressing and then expanding with the same options yields the original bytes.",
      ["inputs", "configurations"], "all inputs and option sets", "a test tries a few short texts",
      SRC, [("LZW dictionaries", "src/lzw.rs"), ("LZSS match finder and adaptive Huffman tree", "src/lzss_huff.rs, src/tools/adaptive_huff.rs")]),
    P("C02", "LZHUF port and the independent LZSS-Huffman codec emit identical streams",
      "For every input, the direct port and the independent implementation with standard options produce byte-identical output, and each expands the other's.",
      ["inputs"], "all inputs", "a test compares a few texts", SRC[1:3], [("two implementations", "src/lzss_huff.rs, src/direct_ports/lzhuf.rs")]),
    P("C03", "A failed stream operation is reported to the caller as that failure",
      "If any read, write, seek or flush on a caller's stream fails during compression or expansion, the call returns an error carrying exactly that failure: "
      "it neither returns success, nor panics, nor substitutes another error. Reaching the end of the input is not a failure for this purpose.",
      ["fault_sequences"], "every operation on either stream that can fail, at every point of every run of the eight entry points (LZW, LZSS-Huffman, LZHUF port, TD0; both directions)",
      "tests run on in-memory buffers that never fail; the point of failure is arbitrary",
      SRC + ["src/tools/adaptive_huff.rs"], [("stream operations of each codec and their error propagation", "src/lzw.rs, src/lzss_huff.rs, src/direct_ports/lzhuf.rs, src/td0.rs"),
                                             ("bit output and input", "src/tools/adaptive_huff.rs, src/lzw.rs")],
      AI + "tracking error values from the failing operation to the return", ANOTE),
    P("C04", "Success means every byte has reached the caller's stream",
      "When compression or expansion returns success, everything it produced has been written in full to the caller's output stream and that stream has been flushed: "
      "nothing is left in an internal buffer where a late failure would go unnoticed, and no write that the stream may shorten is left incomplete.",
      ["fault_sequences", "inputs"], "every success return of the eight entry points, for every stream and input",
      "with in-memory streams a buffer dropped late still arrives and writes are never short",
      SRC, [("buffered writer of each codec and its flush", "src/lzw.rs, src/lzss_huff.rs, src/direct_ports/lzhuf.rs"), ("TD0 header write", "src/td0.rs")],
      AI + "typestate of output wrappers (dirty/flushed)", ANOTE),
    P("C05", "Reported sizes are the input size and the size of what was written",
      "The pair returned with success is the size of the input and of the output, each counted from its configured offset; TD0 sizes include the header, and for the LZHUF port's "
      "expander the input size is the number of bytes consumed. The output stream is left positioned at the end of the output, so that size is where the output ends even when the "
      "destination was longer before.",
      ["inputs", "configurations"], "every success return of the eight entry points; every input, offset and earlier content of the destination",
      "tests compare output bytes on fresh buffers, not the sizes on prefilled ones",
      SRC, [("size computation at return", "src/lzw.rs, src/lzss_huff.rs, src/direct_ports/lzhuf.rs, src/td0.rs"), ("header patching and seek back", "src/lzw.rs")],
      AI + "linear relations between stream positions and returned values", ANOTE),
    P("C06", "Oversize inputs are refused before any output, and only those",
      "The codecs with a size limit (LZW and LZSS-Huffman in both directions, and the LZHUF port's compressor) refuse an input larger than the limit, counted from the input offset, with the "
      "too-large error before writing anything to the output. An input of at most the limit is never refused that way.",
      ["inputs", "configurations"], "every input length and every configured limit",
      "tests never reach a limit; the boundary is a single length out of 2^64",
      SRC[:3], [("limit test", "src/lzw.rs, src/lzss_huff.rs, src/direct_ports/lzhuf.rs")],
      AI + "path conditions on the input length at each write and return", ANOTE),
    P("C07", "Configured offsets are honoured in both streams",
      "With an input and an output offset configured, LZW and LZSS-Huffman start reading exactly at the input offset and writing exactly at the output offset, and never read or write "
      "before them; reads go to the input stream and writes to the output stream only.",
      ["inputs", "configurations"], "every pair of offsets, every input",
      "tests use offset 0, or 12 through TD0 only",
      SRC[:2], [("initial seeks and later repositioning", "src/lzw.rs, src/lzss_huff.rs")],
      AI + "linear relations between stream positions and offsets", ANOTE),
    P("C08", "TD0 conversion checks the header before acting and rewrites it correctly",
      "TD0 conversion writes output or starts converting only after the input's signature has been found right for the direction and its stored checksum equal to the checksum of the ten "
      "header bytes before it; a wrong signature is refused as a format mismatch and, with a right signature, a wrong checksum as a bad checksum, and nothing else is refused that way. "
      "The header it writes is the input's with the signature swapped for the other form and the checksum recomputed.",
      ["inputs"], "every 12-byte header, both directions", "tests convert two valid files; one wrong byte out of twelve at a time is 2^96 headers",
      ["src/td0.rs"], [("header test and header rewriting", "src/td0.rs")],
      AI + "path conditions over symbolic header bytes", ANOTE),
    P("C09", "TD0 version decides the method and its options",
      "TD0 conversion handles the body with LZW when the version byte is below 20 and with LZSS-Huffman from 20 on, in the direction asked for and with exactly the options that format fixes "
      "(body from offset 12, no length header, its chunking, codes, fill and size limit), once for every success.",
      ["inputs", "configurations"], "every version byte, both directions", "tests hold one file per method; versions are 256 values",
      ["src/td0.rs"], [("choice of codec", "src/td0.rs")],
      AI + "path conditions on the version byte at each codec call", ANOTE),
    P("C10", "The TD0 checksum is CRC-16 with polynomial A097",
      "The checksum used for TD0 headers is the 16-bit CRC with polynomial A097 processed most significant bit first, starting from the given seed, without final inversion, for every content of the buffer.",
      ["inputs"], "every seed and every content of buffers of each length analysed (0..32 bytes and some up to 512, thorough 0..257 and some up to 4096)", "the tests' headers exercise a handful of the 2^80 contents",
      ["src/td0.rs"], [("checksum", "src/td0.rs")],
      BE, "Complete for each buffer length analysed; TD0 headers have 10 bytes."),
    P("C11", "Output depends on nothing but the input and the options",
      "No operation of the library consults time, environment, randomness, threads, addresses, the order of a hash table, or state left by an earlier call: the same input bytes and options "
      "give the same output and sizes in every process and every run.",
      ["histories", "schedules"], "all calls in all processes, in any order", "a test that runs twice in one process proves nothing about another process or hash seed",
      SRC + ["src/tools/adaptive_huff.rs", "src/tools/ring_buffer.rs"], [("LZW dictionary lookups", "src/lzw.rs"), ("absence of globals", "src/")],
      "who-may-call rule over the resolved call graph of all monomorphic instances, plus statics", "Every call site of every instance compiled into the library is examined; std, bit_vec and log are trusted."),
    P("C12", "The library touches nothing but the caller's streams and the log",
      "No library operation accesses files, network, processes, threads, environment variables or the standard streams: its only effects are on the two streams it was given, its return value, and log records.",
      ["inputs", "histories"], "all calls of all library functions", "absence of an effect cannot be sampled",
      SRC + ["src/lib.rs"], [("module calls", "src/")],
      "who-may-call rule over the resolved call graph of all monomorphic instances", "Every call site of every instance compiled into the library is examined; std, bit_vec and log are trusted."),
    P("C13", "The program writes only the output path, and never over a file without consent",
      "The command-line program creates, opens for writing, truncates, renames or removes no file other than the one named by the output argument, and that one only if it did not exist or the "
      "user's answer on standard input was y or Y.",
      ["inputs", "histories"], "every invocation, every answer, every earlier state of the directory", "tests always use fresh directories and never answer the question",
      ["src/main.rs"], [("overwrite question", "src/main.rs"), ("opening of the files", "src/main.rs")],
      "abstract interpretation of the program's MIR (path-sensitive, helpers inlined) with command-line values, answers and open modes tracked",
      "Trusts the models of std::fs, std::io and clap in sa/cli.py."),
    P("C14", "Exit status 0 means the requested conversion is in the output file",
      "When the program exits with status 0 after a compress or expand command, then either the user declined to overwrite, or the input file was converted in that direction by the method named, with "
      "standard options, without any error, and the output file holds exactly the converted data and nothing that was there before, even if both arguments name the same file.",
      ["inputs", "fault_sequences", "histories"], "every invocation, every failure of opening, reading or writing, every earlier content of the output file",
      "tests run a few successful conversions into fresh files",
      ["src/main.rs"], [("choice of codec and error propagation", "src/main.rs"), ("length of the output file", "src/main.rs")],
      "abstract interpretation of the program's MIR (path-sensitive, helpers inlined) with command-line values, open files and failures tracked",
      "Trusts the models of std::fs, std::io and clap in sa/cli.py; what the codecs do is the subject of the other properties."),
    P("C15", "Neither the library nor the program contains unsafe code",
      "Library and program are written entirely in safe Rust: no unsafe blocks, functions or implementations and no foreign functions, so no input can cause memory corruption through this crate's own code.",
      ["inputs"], "all inputs", "memory unsafety on an untested input is invisible to tests",
      SRC + ["src/main.rs", "src/lib.rs"], [("whole crate", "src/")],
      "HIR visitor over all items and bodies", "Derive-macro output is exempt; std and dependencies are trusted."),
    P("C16", "Buffer-to-buffer functions are the stream functions on fresh buffers",
      "Each of the eight convenience functions on byte slices calls the stream function of the same codec and direction exactly once, with the whole slice as input from its start, a fresh empty "
      "output and the caller's options; it returns exactly the bytes that were written, or that function's error unchanged.",
      ["inputs", "configurations"], "all slices, all options", "tests check a few inputs for a few of the eight",
      SRC, [("slice wrappers", "src/lzw.rs, src/lzss_huff.rs, src/direct_ports/lzhuf.rs, src/td0.rs")],
      AI + "value tracking, codec call as an event", ANOTE),
    P("C18", "Both directions keep their adaptive model in step",
      "In the LZSS-Huffman codec and in the LZHUF port the compressor and the expander start from a model of the same number of symbols (256 + lookahead - threshold) and update it by the same function: exactly once for every "
      "symbol, with that very symbol, after its code has been found with the model as it was before. Positions do not touch the model, and nothing else changes it while coding. "
      "The whole of a symbol's code is written, even if it is longer than the 16 bits the bit writer takes at a time.",
      ["inputs", "histories"], "every symbol sequence of the four entry points",
      "tests code a few short texts; an update left out or made for another symbol in rare circumstances (a symbol value, a code length, the rebuild of the tree) shows nowhere, and no test has a code of more than 16 bits",
      SRC[1:3] + ["src/tools/adaptive_huff.rs"], [("symbol coders and decoders, update of the tree", "src/tools/adaptive_huff.rs, src/direct_ports/lzhuf.rs")],
      AI + "model updates as events, call graph and field write sets", ANOTE + " That the update itself keeps the tree well-formed is not decided."),
    P("C19", "The position code is the format's prefix code and is read back exactly",
      "A match position is written as the LZHUF format's prefix for its upper six bits (3 bits for class 0, then 4, 5, 6, 7 and 8 bits for classes from 1, 4, 12, 24 and 48 on, in increasing order) "
      "followed by its lower six bits, at whatever bit of a byte it starts. Reading it there gives the same position back and consumes exactly those bits, whatever follows; the LZHUF port and the "
      "independent implementation agree on this.",
      ["inputs", "histories"], "all 4096 positions, all bit alignments, everything read or written before", "the tests' short texts use only the nearest position classes at a few alignments",
      ["src/tools/adaptive_huff.rs", "src/direct_ports/lzhuf.rs"], [("position tables and position coding", "src/tools/adaptive_huff.rs, src/direct_ports/lzhuf.rs")],
      BE, "Complete for positions below 4096 over all buffer states the position code itself reaches; quick runs every class at every alignment once and one class per prefix length in all states."),
    P("C20", "LZW expansion follows chunk, stop and clear codes and refuses unknown codes",
      "The LZW expander reads exactly the codes its options frame (each header before its chunk, no code beyond the bits it declares, none after the stop code) and starts a new dictionary exactly at a clear code or a chunk's "
      "end. It adds one entry, extending the code before, for every code but a chunk's first, and writes output for a code only if that code or the entry just added for it is in the dictionary; any other code is "
      "answered with a format mismatch, never with invented data. It succeeds exactly after the stop code and at the end of the input.",
      ["inputs", "configurations", "histories"], "every input, well formed or not, for all combinations of stop code, clear code and header, all widths, chunk sizes and symbol ranges",
      "tests expand a few streams made by the compressor itself, mostly of one chunk, with one set of options",
      SRC[:1], [("expansion loop, chunk framing and dictionary", "src/lzw.rs")],
      AI + "code reads, dictionary operations and writes as events", ANOTE),
    P("C21", "Coded runs account for every input byte once and expand to their length",
      "The LZSS compressors code each stretch of input either as a literal, one symbol below 256 for one byte, or as a match: the symbol 255 - threshold + length, for a length above the threshold and at most "
      "the lookahead, followed by one position. The lengths coded add up to the input, whatever it is, all of which has been read. The expanders put out exactly the literal, or after reading one position exactly "
      "the length the symbol stands for, before they take the next symbol.",
      ["inputs", "configurations"], "every input, and every threshold up to 255 and lookahead up to 30000",
      "tests compress short texts with the standard threshold and lookahead; the end of the input meets a match in progress in few of them",
      SRC[1:3], [("compression and expansion loops", "src/lzss_huff.rs, src/direct_ports/lzhuf.rs")],
      AI + "linear relations between bytes read, lengths coded and bytes written", ANOTE),
    P("C23", "Compressed data starts with the expanded length as 32-bit little-endian",
      "When its header option is on, the LZSS-Huffman compressor writes the expanded length as four little-endian bytes before anything else, and with it off writes no such header; the LZHUF port's compressor always writes it.",
      ["inputs", "configurations"], "every input length and offset", "tests use lengths below 256, where three of the bytes are zero",
      SRC[1:3], [("length header", "src/lzss_huff.rs, src/direct_ports/lzhuf.rs")],
      AI + "symbolic bytes of the first write", ANOTE),
    P("C24", "Codes are packed without gaps in the bit order chosen and read back exactly",
      "Codes written one after the other occupy consecutive bits of the output, most or least significant bit first as the bit order says, with zero bits after the last one; reading codes of the same "
      "widths returns exactly those codes, for every code width and every alignment. Input that ends within a code is an error (zero bits for the LZHUF port, as in the original), never an invented code.",
      ["inputs", "histories", "configurations"], "every code value, width 1..32 (written 1..16 in the quick check), both bit orders, every alignment and fill of the buffers",
      "tests use width 12 and short streams; a reader's buffer is recycled only after 512 bits",
      ["src/lzw.rs", "src/tools/adaptive_huff.rs", "src/direct_ports/lzhuf.rs"], [("bit-level coders and decoders", "src/lzw.rs, src/tools/adaptive_huff.rs, src/direct_ports/lzhuf.rs")],
      BE, "Complete for the widths analysed (quick reads widths 1, 9, 12 and 16 in every buffer state and the others at every alignment) over all buffer states these reach; trusts the model of bit_vec."),
    P("C25", "LZW compression frames chunks as configured and leaves out no input",
      "The LZW compressor writes each code and header with its configured width, one code after the other; a chunk has as many codes as configured unless it is the last, is preceded by a header giving the bits of its codes divided by "
      "the divisor, and ends with the clear code and a new dictionary, as the options say. The stop code, if there is one, comes last and only there. After each code matching resumes at the very byte that ended "
      "the match, and success is returned only when a code has been written for every byte.",
      ["inputs", "configurations"], "every input, for all combinations of stop code, clear code and header, all widths, divisors and chunk sizes",
      "tests compress short texts with one set of options; none reaches the end of a chunk with a header at an odd bit position",
      SRC[:1], [("compression loop, chunk framing, header back-patching", "src/lzw.rs")],
      AI + "code writes, dictionary creation and reads as events", ANOTE),
    P("C26", "Published option sets have the values their formats fix",
      "The standard LZW and LZSS-Huffman options and the two TD0 option sets have the field values of their formats: code widths, reserved codes, chunk framing, window, lookahead, threshold, fill byte, header, offsets, size limit.",
      ["configurations"], "all fields of the four public option sets", "round-trip tests pass with any self-consistent values",
      SRC, [("option constants", "src/lzw.rs, src/lzss_huff.rs, src/td0.rs")],
      "compiler-evaluated constants against a format table", "Complete for the listed fields."),
    P("C27", "Expansion stops at the declared length and does not stop before it",
      "With a length header, the LZSS-Huffman expander and the LZHUF port's expander take the first four bytes of the input as the expanded length in little-endian order; they read no further code once that many bytes are out, and "
      "return success only when at least that many bytes are out or the input has ended. Without a length header (LZSS-Huffman options only) success is returned only when the input has ended, or at least 2^32-1 bytes are out.",
      ["inputs"], "every declared length, consistent with the rest of the input or not", "tests decode only consistent, short streams",
      SRC[1:3], [("length header and expansion loop", "src/lzss_huff.rs, src/direct_ports/lzhuf.rs")],
      AI + "linear relations between declared length and output position", ANOTE),
    P("C28", "Results do not depend on how the input stream divides its bytes into reads",
      "A stream may hand over its bytes in pieces of any size: no entry point takes a read that brought fewer bytes than asked for, but some, for the end of the input or for complete data. "
      "Only a read that brings nothing counts as the end.",
      ["schedules", "inputs"], "every division of the input into reads, for every input of the eight entry points",
      "tests read from in-memory buffers and small files, whose reads always bring all that was asked for",
      SRC, [("reads of each codec", "src/lzw.rs, src/lzss_huff.rs, src/direct_ports/lzhuf.rs"), ("header read", "src/td0.rs")],
      AI + "typestate of the input stream after partial reads", ANOTE),
    P("C29", "Codes given to LZW strings avoid reserved codes, fit the width and never repeat",
      "Every code the LZW compressor or expander gives to a new dictionary entry lies above the range of single symbols, is neither the clear nor the stop code, can be written in the configured "
      "code width, and is greater than every code given since the dictionary was last made new.",
      ["inputs", "configurations", "histories"], "every input, for all values of the stop and clear codes, symbol ranges and code widths",
      "tests use one set of reserved codes and never fill the dictionary",
      SRC[:1], [("code allocation and dictionary insertion", "src/lzw.rs")],
      AI + "linear relations on the code at each insertion", ANOTE),
    P("C30", "LZW codes and dictionary entries stand for the strings actually met",
      "The LZW compressor extends a match exactly as long as the code of the match with the next byte is in its dictionary, writes the code stored for the match (the last one included) and enters the match with the byte "
      "that ended it. The LZW expander writes for a code the string its entry is chained to, from the code read down to a single symbol, or for the code being defined the string before with its own first byte added; "
      "the entry it adds is the code before with the first byte of what the current code stands for.",
      ["inputs", "configurations", "histories"], "every input, for all combinations of stop code, clear code and header, and all dictionaries",
      "tests compress short texts; several places write codes and tests reach some of them only with single-symbol strings",
      SRC[:1], [("match loop, end-of-input branch, string reconstruction", "src/lzw.rs")],
      AI + "keys and values of dictionary operations, codes and output as events", ANOTE),
    P("C31", "Bytes enter and leave the sliding window at the positions the format gives them",
      "Both directions of the LZSS-Huffman codec and of the LZHUF port start with a window filled with the fill byte up to where the first byte goes (window size less lookahead). Every byte written (when compressing: read) "
      "is stored in the window just once, in order, at the next position modulo its size, before the next symbol. Byte k of a match with position p is a copy of the byte p+1 places before it, "
      "even if that byte belongs to the same match or lies before the first byte of the data; a literal written by a compressor is the first byte not coded yet.",
      ["inputs", "histories", "configurations"], "every input of the four entry points, every sequence of symbols and positions, all window sizes, lookaheads and thresholds",
      "tests expand a few short texts: the window of 4096 bytes hardly wraps and no match reaches before the first byte",
      SRC[1:3] + ["src/tools/ring_buffer.rs"], [("window set-up, expansion loop", "src/lzss_huff.rs, src/direct_ports/lzhuf.rs"), ("ring buffer", "src/tools/ring_buffer.rs")],
      AI + "window indices modulo the window's size", ANOTE + " Which match the compressors choose is not decided."),
]

NA = {
    "C01": "Equality of the expanded bytes with the original quantifies over the values in adaptive dictionaries and trees along unbounded runs; no static argument in reach bounds it. "
           "Structural clauses of it are claimed separately (C05, C07, C19, C23, C27).",
    "C02": "Byte equality of two implementations' outputs is a relation between runtime values of two programs of different structure; shared tables and parameters are claimed as C19.",
}
