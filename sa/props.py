"""What each check runs."""
import os
import adaptive, bitrules, callers, cli, codecs_, codes, engine, lints, lzwcodes, rules, td0rule, window
from codecs_ import CODECS


class Codec:
    """one path rule on one codec entry point"""

    def __init__(self, rule, name, extra=()):
        self.rule, self.name, self.extra = rule, name, extra

    def __str__(self):
        return self.name + (" (%s)" % self.rule.config() if hasattr(self.rule, "config") else "")

    def run(self, lib, bin_):
        r = self.rule()
        eng = codecs_.run(lib, self.name, [rules.EofTag(), r])
        if hasattr(r, "finish"):
            eng.reporting = True
            r.finish()
        return eng.reports, cover(eng, r), r.samples() if hasattr(r, "samples") else []


class Passes(Codec):
    """a rule that finds the places it has to follow while it runs: until no new one turns up"""

    def run(self, lib, bin_):
        homes = ()
        for _ in range(5):
            r = self.rule(homes)
            eng = codecs_.run(lib, self.name, [rules.EofTag(), r])
            if r.found == set(homes):
                return eng.reports, cover(eng, r), []
            homes = r.found
        raise engine.Unsupported("%s: the places that make up window positions do not settle" % self.name)


def cover(eng, r):
    cov = {"functions": {eng.fnof(n[0]).path for n in eng.states}, "block_contexts": len(eng.states),
           "abstract_states": sum(len(d) for d in eng.states.values()), "steps": eng.steps}
    for k, v in r.__dict__.items():
        if k in getattr(r, "counters", ()):
            cov[r.counters[k]] = {(r.entry,) + (x if isinstance(x, tuple) else (x,)) for x in v} if isinstance(v, set) else v
    return cov


class Wrapper:
    """C16 on one slice wrapper"""

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name + "_slice"

    def run(self, lib, bin_):
        r = callers.Slices(self.name)
        sp = CODECS[self.name]

        def init(e, st, fr):
            r.slice0, r.opt0 = st.mem[('l', fr, 1)], st.mem.get(('l', fr, 2))
        eng = codecs_.runfn(lib, sp["path"] + "_slice", [r], argc=2 if sp["opts"] else 1, entry=str(self), spec=sp, init=init)
        return eng.reports, cover(eng, r), []


class Program:
    """C13, C14 on the command-line program"""

    def __init__(self, rule):
        self.rule = rule

    def __str__(self):
        return "main"

    def run(self, lib, bin_):
        r = self.rule()
        eng = codecs_.runfn(bin_, "retrocompressor::main", [r], argc=0, entry="main")
        return eng.reports, cover(eng, r), []


class Crate:
    def __init__(self, lint):
        self.lint = lint

    def __str__(self):
        return "whole crate"

    def run(self, lib, bin_):
        l = self.lint()
        l.run(lib, bin_)
        return l.reports, l.cov, l.samples


class Bit:
    """one share of the work of a rule of the bit engine"""

    def __init__(self, rule, part, quick, thorough):
        self.rule, self.part, self.q, self.t = rule, part, quick, thorough

    def __str__(self):
        return "%s %d/%d" % (self.rule.__name__, self.part[0] + 1, self.part[1])

    def run(self, lib, bin_):
        r = self.rule(self.t if os.environ.get("VERIF_TIER") == "thorough" else self.q, part=self.part)
        r.run(lib)
        return r.reports, r.cov, r.smp


def bit(rule, n, quick, thorough):
    return [Bit(rule, (i, n), quick, thorough) for i in range(n)]


ALL = list(CODECS)
OPT = [k for k, v in CODECS.items() if v["opts"]]
ENGINE = ["the MIR of the two generic stream parameters instantiated with std's Cursor stands for every stream: streams are modelled by the contracts of "
          "Read, Write and Seek (sa/models.py), not by Cursor's code",
          "bodies of std, bit_vec and HashMap are replaced by models; an unmodelled callee may return anything and change whatever it can reach",
          "arithmetic is that of a build with overflow checks: a failed check ends the path"]


BITS = ["std's Vec, slices and iterators, bit_vec and the byte conversions behave as documented (sa/bitmodels.py); streams as by the contracts of Read, Write and Seek"]


def codec(rule, names):
    return [Codec(rule, n) for n in names]


def lzw(rule, names, hdrs=(0, 1)):
    return [Codec(lzwcodes.make(rule, s, c, h), n) for h in hdrs for s in (1, 0) for c in (1, 0) for n in names]


LZW = ["the dictionary is a HashMap or BTreeMap and the option sets satisfy LZW::create's own requirements, code width and header width differ, reserved codes differ, chunk size and "
       "code width are at least 1"]


PROPS = {
    "C03": dict(units=codec(rules.Surface, ALL), floors={"functions": 8, "fallible_operations": 12, "returns_after_failure": 4},
                rule="on every path of an entry point on which a stream operation fails (other than end of input), the value returned is Err and carries that "
                     "operation's error value; no path panics on it",
                explanation="abstract interpretation of the MIR of each codec: error values are tracked as symbols from the failing operation to the return",
                assumptions=ENGINE + ["an error of kind UnexpectedEof is taken as end of input"]),
    "C04": dict(units=codec(rules.Delivered, ALL), floors={"functions": 8, "write_sites": 4, "success_returns": 4},
                rule="at every success return no byte written through any wrapper is unflushed, and no write may be cut short",
                explanation="typestate of the output wrappers over all paths of each codec, calls inlined",
                assumptions=ENGINE),
    "C05": dict(units=codec(rules.Sizes, ALL), floors={"functions": 8, "success_returns": 4},
                rule="at every success return: first component == length of the input stream - in_offset (bytes consumed for lzhuf::decode); second component == "
                     "end of what was written - out_offset; output stream positioned at that end",
                explanation="linear relations between stream positions and returned values, over all paths of each codec",
                assumptions=ENGINE),
    "C06": dict(units=codec(rules.Limit, [n for n in ALL if CODECS[n]["limit"] is not None]),
                floors={"functions": 8, "write_sites": 2, "size_refusals": 3},
                rule="every write to the output and every success return is reached only with input size <= limit; FileTooLarge is returned only with input size > limit",
                explanation="path conditions on the input length over all paths of each codec with a limit",
                assumptions=ENGINE),
    "C07": dict(units=codec(rules.Offsets, OPT), floors={"functions": 8, "transfer_sites": 4},
                rule="the first read is at in_offset, the first write at out_offset, and no later one before it; each goes to the right stream",
                explanation="linear relations between stream positions and the offsets, over all paths of each codec that takes offsets",
                assumptions=ENGINE + ["a step back by one byte right after a transfer follows a transfer of at least one byte"]),
    "C08": dict(units=codec(td0rule.Td0, ["td0::compress", "td0::expand"]),
                floors={"checksum_computations": 2, "codec_calls": 2, "refusals": 2, "header_writes": 1},
                rule="output and codec calls only under 'signature right and stored checksum == crc16 of bytes 0..10'; FileFormatMismatch only with a wrong signature, "
                     "BadChecksum only with the right signature and a wrong checksum; the header written is the input's with signature swapped and checksum recomputed",
                explanation="path conditions over the symbolic header bytes; crc16 is an uninterpreted function of its bytes", assumptions=ENGINE),
    "C09": dict(units=codec(td0rule.Td0Version, ["td0::compress", "td0::expand"]), floors={"codec_calls": 2, "success_returns": 1},
                rule="codec calls: LZW exactly when byte 4 < 20, LZSS-Huffman otherwise, direction matching, caller's streams, option fields of the format; one per success",
                explanation="path conditions over the version byte at each codec call; field-wise constants of the options passed", assumptions=ENGINE),
    "C10": dict(units=[Bit(bitrules.Checksum, (0, 1), tuple(range(0, 33)) + (64, 128, 255, 256, 257, 512), tuple(range(0, 258)) + (512, 1024, 4096))],
                floors={"functions": 1, "buffer_lengths": 30, "checksum_bits_compared": 480},
                rule="each of the 16 result bits is the affine function of the seed's and the buffer's bits that CRC-16 with polynomial A097 (MSB first, no final xor) defines",
                explanation="abstract interpretation of the MIR of the checksum in the domain of affine functions over GF(2): complete for each buffer length",
                assumptions=BITS + ["longer buffers go through the same loop as those analysed"]),
    "C11": dict(units=[Crate(lints.Determinism)], floors={"functions": 30, "call_sites": 200},
                rule="no function of the library, generic or not, calls anything whose result is not a function of its arguments (time, environment, randomness, "
                     "threads, stdin, hash-table iteration), turns an address into a number, or has state that outlives a call",
                explanation="resolved call graph of every monomorphic instance in the library; every static and its mutability",
                assumptions=["what the caller's streams and logger do is up to the caller", "std, bit_vec and log behave as documented"]),
    "C12": dict(units=[Crate(lints.Effects)], floors={"functions": 30, "call_sites": 200},
                rule="no function of the library calls into the file system, processes, network, environment, threads or standard streams",
                explanation="resolved call graph of every monomorphic instance in the library",
                assumptions=["std, bit_vec and log behave as documented"]),
    "C13": dict(units=[Program(cli.Overwrite)], floors={"file_operations": 2, "success_exits": 1, "existence_tests": 1},
                rule="a file is opened for writing, truncated, created, renamed or removed only if it is the one named by the output argument, and only on paths on which "
                     "it was found absent or the line read from standard input was found to be y or Y",
                explanation="all paths of main and its helpers; command-line values, the answer, existence tests and open modes are tracked",
                assumptions=["clap, env_logger and std behave as documented", "nobody else creates the file between test and opening"]),
    "C14": dict(units=[Program(cli.Status)], floors={"file_operations": 2, "success_exits": 1, "failure_exits": 1, "codec_calls": 2},
                rule="a successful exit is reached only after exactly one successful call of the codec that subcommand and method name, from the input file to the output file with the "
                     "standard options, with the output file cut to the returned size - or without a subcommand, or after the user declined",
                explanation="all paths of main and its helpers; command-line values, open files and failures are tracked", assumptions=["clap, env_logger and std behave as documented"]),
    "C15": dict(units=[Crate(lints.NoUnsafe)], floors={"files": 3, "functions": 40},
                rule="no unsafe block, function, impl or trait, and no foreign declaration outside code generated by derive macros",
                explanation="HIR visit of every item and body of library and binary",
                assumptions=["derive macros of dependencies generate sound code", "std and dependencies are sound"]),
    "C16": dict(units=[Wrapper(n) for n in ALL], floors={"functions": 8, "codec_calls": 8, "success_returns": 8},
                rule="each slice wrapper calls its stream function exactly once, on a cursor at 0 over the whole slice, a cursor at 0 over an empty buffer and the "
                     "caller's options, and returns that function's error or that buffer",
                explanation="value tracking through the wrapper, codec call as an event", assumptions=ENGINE[1:]),
    "C19": dict(units=bit(bitrules.Position, 8, False, True),
                floors={"position_writers": 1, "position_readers": 1, "position_writes": 500, "position_reads": 5000},
                rule="for every class of positions with symbolic lower six bits and every reachable state of the coder: what the writer puts out is what was pending, the format's prefix "
                     "and the six bits; the reader gives that position back from those bits and has consumed exactly them, whatever follows",
                explanation="abstract interpretation of the MIR of the position functions in the domain of affine functions over GF(2), to a fixed point over the coder's buffer states",
                assumptions=BITS),
    "C20": dict(units=lzw(lzwcodes.Get, ["lzw::expand"]), floors={"functions": 3, "code_reads": 1, "expanded_writes": 1, "lookups_of_the_code": 1, "new_entries": 1, "new_dictionaries": 1, "success_returns": 8, "refusals": 8},
                rule="every code and header is read with its width; headers before each chunk, codes only within the bits it declares; nothing after the stop code; new dictionary exactly after a clear code or "
                     "the end of a chunk; output only for a code that was looked up, an unknown one only if it is the one just added; one entry per code but the first, made of the code before; "
                     "FileFormatMismatch only for an unknown code with nothing written; success only after the stop code or at the end of the input, which is no error",
                explanation="code reads, dictionary operations and writes as events over all paths of the expander, for each combination of stop code, clear code and header",
                assumptions=ENGINE + LZW + ["the function that reads codes may return any value"]),
    "C21": dict(units=codec(codes.Lengths, ["lzss_huff::compress", "lzhuf::encode"]) + codec(codes.Lengths, ["lzss_huff::expand", "lzhuf::decode"]),
                floors={"functions": 8, "symbol_writes": 2, "symbol_reads": 2, "position_codes": 4, "expanded_writes": 2, "success_returns": 4},
                rule="writing a symbol below 256 accounts for one byte, writing one of 256 and more for symbol-255+threshold bytes, at most the lookahead, and is followed by one position; what is accounted "
                     "for never exceeds what was read and equals it at success, where the input has ended; after reading a symbol the expander puts out that literal, or reads one position and "
                     "puts out just the length coded, before it goes on to the next symbol or succeeds",
                explanation="linear relations (affine at joins) between bytes read, lengths coded and bytes written, with the functions that code symbols and positions as events, over all paths of each codec",
                assumptions=ENGINE + ["threshold <= 255, threshold <= lookahead, 1 <= lookahead <= 30000", "the functions that read symbols and positions may return any value that is not negative"]),
    "C23": dict(units=codec(rules.LengthOut, ["lzss_huff::compress", "lzhuf::encode"]), floors={"functions": 5, "header_writes": 1, "success_returns": 2},
                rule="the first write puts exactly the four little-endian bytes of the expanded length; with the header option off none is put",
                explanation="symbolic bytes of the first write on every path", assumptions=ENGINE),
    "C24": dict(units=bit(bitrules.Writer, 2, range(1, 17), range(1, 33)) + bit(bitrules.Reader, 4, ((1, 9, 12, 16), range(1, 33)), range(1, 33)),
                floors={"bit_writers": 2, "bit_readers": 2, "coder_states": 8, "put_transitions": 256, "reader_states": 8, "get_transitions": 32},
                rule="from every reachable buffer state, writing a code of w symbolic bits leaves the stream with exactly the pending bits followed by the code in the option's bit order, zero "
                     "padded, positioned at the last incomplete byte; reading w bits returns exactly the next w bits of the stream in that order and fails if the input ends within them",
                explanation="abstract interpretation of the MIR of the bit writers and readers in the domain of affine functions over GF(2), to a fixed point over their buffer states",
                assumptions=BITS + ["counters that do not influence the result do not overflow"]),
    "C18": dict(units=[adaptive.InStep("lzss_huff::compress", "lzss_huff::expand"), adaptive.InStep("lzhuf::encode", "lzhuf::decode")],
                floors={"functions": 6, "model_updates": 4, "model_reads": 4, "success_returns": 4, "position_functions": 4, "coders_made": 2, "code_pieces": 2},
                rule="both directions update the model by one and the same function; on every path to success the function that codes a symbol calls it exactly once, for the symbol written or the one returned, and reads "
                     "nothing of the model afterwards; no call of a bit writer is given more bits of a code than its argument holds; nothing else called while coding changes what the update changes; the coder is made for 256 + lookahead - threshold symbols",
                explanation="call graph between coding functions and the model's update, field-level write sets, and the update as an event over all paths of each symbol function",
                assumptions=ENGINE + ["a symbol's code has at most 22 bits: frequencies add up to at most 0x8000, and a code of n bits needs fibonacci(n+2)",
                                      "the model is a structure whose fields only its own methods' code and the functions named reach (no interior mutability)",
                                      "that the update keeps the tree well-formed, and that walking it down inverts walking it up, is not decided"]),
    "C25": dict(units=lzw(lzwcodes.Put, ["lzw::compress"]), floors={"functions": 3, "code_writes": 1, "symbol_reads": 1, "new_dictionaries": 1, "success_returns": 8},
                rule="every code and header is written with its width, codes one after the other; the header's room before its chunk, its value codes * width / divisor, written once the chunk is complete; "
                     "at most chunk_size codes before the clear code or the next chunk and no chunk but the last shorter; clear code and new dictionary together; stop code last and only once all input is coded; "
                     "after a code reading resumes at the byte that ended the match, success only when every byte has been coded",
                explanation="code writes, dictionary creation and reads as events over all paths of the compressor, for each combination of stop code, clear code and header",
                assumptions=ENGINE + LZW + ["the code written for a match stands for the bytes matched (not decided)"]),
    "C26": dict(units=[Crate(lints.Presets)], floors={"option_sets": 4, "fields_checked": 20},
                rule="each published option set evaluates to the values its format requires",
                explanation="compiler-evaluated constants", assumptions=[]),
    "C27": dict(units=codec(rules.LengthIn, ["lzss_huff::expand", "lzhuf::decode"]), floors={"functions": 5, "reads_after_header": 2, "success_returns": 2, "success_returns_without_header": 1},
                rule="code is read only while fewer bytes than declared are out; success only once the declared length is reached or the input has ended; without a header only once the input has ended",
                explanation="linear relations between the declared length and the output position over all paths", assumptions=ENGINE),
    "C28": dict(units=codec(rules.Pieces, ALL) + [Crate(lints.Buffered)], floors={"functions": 8, "read_sites": 4, "returns": 8},
                rule="after a read that may have returned fewer bytes than asked for (and not none), no return and no step that moves on without reading the rest is reachable, "
                     "unless the path has established that it was complete; nothing inspects how much happens to be buffered",
                explanation="typestate of the input stream with the count returned by each partial read, over all paths of each codec", assumptions=ENGINE),
    "C29": dict(units=lzw(lzwcodes.Alloc, ["lzw::compress", "lzw::expand"], hdrs=(0,)), floors={"functions": 3, "new_entries": 2, "new_dictionaries": 2},
                rule="at each insertion made once coding has begun, the new code is neither the stop nor the clear code, exceeds max_symbol, is below 1 << code width, and exceeds the code given before "
                     "with the same dictionary",
                explanation="linear relations on the code at each dictionary insertion, paths that find it kept apart, over all paths of both directions for each combination of stop and clear code",
                assumptions=ENGINE + LZW),
    "C30": dict(units=lzw(lzwcodes.Match, ["lzw::compress"]) + lzw(lzwcodes.Chain, ["lzw::expand"]),
                floors={"functions": 5, "string_codes": 1, "dictionary_probes": 1, "new_entries": 2, "single_symbol_entries": 2, "chain_lookups": 1, "expanded_writes": 1},
                rule="compressing: each byte read is looked up with the code of the match so far (alone if there is none); the code written is the one stored for the key last found; the entry added is the key last "
                     "missed. Expanding: output for a known code follows lookups that start with that code, each at the code the one before holds, down to a single symbol; the entry added holds the code before and "
                     "the first byte of this output; an unknown code's output is extended by its own first byte only. Entries made before anything is read give a symbol its own code",
                explanation="dictionary operations, code reads and writes as events with the values of keys and entries, over all paths of both directions for each combination of stop code, clear code and header",
                assumptions=ENGINE + LZW + ["every byte is a symbol of the initial dictionary", "an entry found once is found again with the same value"]),
    "C31": dict(units=[Passes(window.Window, n) for n in ("lzss_huff::compress", "lzhuf::decode", "lzss_huff::expand", "lzhuf::encode")],
                floors={"functions": 8, "window_loads": 4, "window_stores": 4, "fill_stores": 4, "symbol_reads": 2, "symbol_writes": 2, "expanded_writes": 2},
                rule="before the first symbol or byte the window is filled with the fill byte from its start to where the first byte goes; byte n is stored at start+n modulo the size, once, in order, none missing when "
                     "the next symbol is read or written; a match at position p is copied from the place of byte n-1-p, read after the bytes before n are stored; a literal is the element at the place of the first byte not coded",
                explanation="window indices compared modulo the window's size by shadow counters for each variable that takes part in them, loads and stores of window elements, code reads and writes as events over all paths",
                assumptions=ENGINE + ["threshold <= 255, threshold <= lookahead, 1 <= lookahead <= 30000, 2 * lookahead <= window size <= 2^30",
                                      "the functions that read symbols and positions may return any value that is not negative", "an input stream that has ended stays ended",
                                      "elements beyond the window's size (the port's mirrored lookahead) are not compared"]),
}
