#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The properties themselves are edited here.
import json, os
FS = "src/compact1/font_set/mod.rs"
CID = "src/compact1/font_set/character_id_keyed.rs"
NAME = "src/compact1/font_set/character_name_keyed.rs"
IDX = "src/compact1/index/mod.rs"
OPS = "src/compact1/operation.rs"
NUM = "src/compact1/number.rs"
OFF = "src/compact1/offset.rs"
HDR = "src/compact1/header.rs"
ENC = "src/compact1/encoding.rs"
CS = "src/compact1/character_set.rs"
T2 = "src/type2/program.rs"
T2N = "src/type2/number.rs"
T2O = "src/type2/operation.rs"
STR = "src/compact1/index/strings.rs"
LOAD = [FS, CID, NAME, IDX, OPS, NUM, OFF, HDR, ENC, CS]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A well-formed font set loads exactly, however its stream delivers it",
  "Loading a well-formed font set succeeds and yields exactly what is stored: header, names, dictionaries, strings, global subroutines and, per font, charstrings, character set, encoding and name-keyed or CID-keyed records; the quick count equals the number of fonts. The outcome does not depend on where in the stream the font starts, what surrounds it, how the tables are laid out, or how the reader splits, interrupts, buffers or delays reads.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every well-formed CFF 1.0 font set (either keying, every table format, offset size and number encoding), every start position including beyond 4 GiB, every sequence of short reads and interrupted reads, buffered or not",
  "The tests load two name-keyed fonts from regular files at one offset each (the CID-keyed fixture is absent, so no CID-keyed path runs at all); a regular file never delivers a short or interrupted read.",
  LOAD, [("absolute positions from the starting position", FS), ("exact-size reads through tape::Read", "typeface tape/value"), ("per-format readers", ENC), ("per-font record readers", CID)],
  ["FontSet::read result", "FontSet::count result"])

p("C02", "A failing stream surfaces its own error",
  "If a read or a seek of the stream fails while a font set, a font count or one structure is being read, the call returns that very failure to its caller: never success, never a different error, never a panic. An interrupted read is not such a failure: it is retried.",
  ["fault_sequences", "inputs"],
  "every position in the sequence of stream operations, every error kind (OS code, bare kind, custom payload), persistent and one-shot faults, for every well-formed font set and structure",
  "No test injects an I/O error; a regular file on a healthy disk never fails.",
  LOAD, [("error propagation with ?", FS), ("peeking restores the position and returns the first error", ENC), ("dictionary reader distinguishes its end from a failure", OPS)],
  ["the io::Error returned (kind, OS code, payload identity)"])

p("C03", "A stream or structure cut short is never accepted",
  "If the stream ends before the last byte that a well-formed font set or structure needs, reading it fails with an unexpected-end error; it never succeeds with missing, defaulted or shortened content. A dictionary that ends in the middle of an operation is likewise rejected, not shortened. If every needed byte is present, the cut changes nothing.",
  ["crash_points", "inputs", "fault_sequences"],
  "every cut point of every well-formed font set and structure, whether stored (a torn save) or appearing while the read is in progress",
  "The fixtures are complete; no test truncates anything.",
  LOAD, [("exact-size reads", "typeface value/walue"), ("dictionary end detection", OPS), ("index objects read to their full size", IDX)],
  ["result of reading a prefix of the image"])

p("C04", "No stored bytes can crash or hang loading",
  "Reading a font set, a font count or any structure from arbitrary bytes always returns, with a value or an error: it does not panic, overflow, abort or exhaust the stack. It does so within a number of stream operations proportional to the bytes delivered to it.",
  ["inputs", "fault_sequences", "crash_points"],
  "every byte string: random, and every well-formed image damaged by bit rot, torn, lost, stale or misdirected sectors, and overwritten count, size, offset and operand fields",
  "The tests parse two intact fonts.",
  LOAD, [("offset and size operands are validated before use", FS), ("index offsets are checked to be monotonic", IDX), ("character sets are checked against the glyph count", CS)],
  ["completion of the call", "panics and process aborts", "stream operation counts"])

p("C05", "A damaged font set is rejected or read exactly as its bytes say",
  "A load from damaged bytes either fails or returns precisely what those bytes encode under the format's rules; it fails exactly when they break a rule (an unknown format or operator, a malformed number, dictionary, index, offset or identifier, a character set that does not cover the glyphs, a missing or ill-typed required operand, data past the end). It never invents, drops, shifts or wraps a value.",
  ["inputs", "fault_sequences", "crash_points"],
  "every image reachable from a well-formed one by storage faults",
  "The tests only read intact fonts, so no rejection path and no alternative reading is ever exercised.",
  LOAD, [("format and operator dispatch", OPS), ("index validation", IDX), ("coverage check of character sets", CS), ("operand typing", FS)],
  ["FontSet::read result compared with a reference reader on the same bytes"])

p("C06", "Loading needs memory in proportion to the bytes delivered",
  "The peak memory that reading a font set or structure occupies is bounded by a constant plus a constant factor of the bytes that the stream has actually delivered, whatever sizes and counts the bytes announce. All of it is released once the result is dropped.",
  ["inputs", "fault_sequences"],
  "every byte string, in particular images whose size, count or offset fields are damaged or that are cut short; every fault sequence during the load",
  "The tests neither measure memory nor read fonts that announce more data than they contain.",
  [IDX, NAME, CID, FS, CS, ENC], [("objects are read in bounded chunks", IDX), ("private dictionaries are read in bounded chunks", NAME)],
  ["allocator seam: live and peak bytes against bytes delivered"])

p("C07", "Structures can be read back to back from one stream",
  "Reading a structure (header, number, offset, index, character set, encoding, glyph-to-dictionary mapping) consumes exactly its own bytes: the stream is left right after its last byte, so consecutive structures can be read one after another with no seek in between. This holds however reads are split or interrupted, and peeking at a format never moves the stream.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every sequence of structures stored contiguously, every legal delivery, with failed attempts rewound and retried in between",
  "The tests read a few structures in a single fixed order from files and mostly by seeking to each.",
  [IDX, ENC, CS, CID, NUM, OFF, HDR], [("peek restores the position", "typeface tape"), ("tables are read field by field", ENC), ("empty index is two bytes", IDX)],
  ["stream position after each read", "values of the following structures"])

p("C08", "A failed or abandoned load leaves no residue",
  "After any number of loads that failed with a stream error, hit the end of the stream, met damaged bytes, or were abandoned in the middle by an unwinding reader, a load of a well-formed font set through the same or another stream succeeds exactly as if nothing had happened. Once the stream stops failing, the first attempt succeeds.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of failed and cancelled attempts (any operation, any fault kind, any mix of intact and damaged images) followed by a fault-free attempt",
  "Every test performs one successful load.",
  LOAD, [("loading keeps no state outside the call", FS)],
  ["result of the fault-free attempt after the history"])

p("C09", "Concurrent loads are isolated and never wait for each other",
  "Loads running at the same time on different threads through different streams each return what they would return alone, for every interleaving of their stream operations, including when some of them fail or are abandoned. A load whose stream is stalled does not keep other loads from finishing, and loaded font sets can be sent to and shared between threads.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving, at stream-operation granularity, of loads of intact and damaged images on several threads, with stalls and failures",
  "Each test loads one font at a time on its own thread and nothing controls the interleaving.",
  LOAD, [("no shared mutable state", "src"), ("plain owned data", FS)],
  ["result of each load", "progress while another load is stalled"])

p("C10", "A charstring's operations do not depend on how its steps are scheduled",
  "Stepping a charstring program yields exactly the operations, operands and width that its charstring and subroutines define under the Type 2 rules (for the operators the interpreter supports), up to its end or to the first point where it is malformed, which is reported as an error. This is independent of how its steps interleave with those of other programs over the same font set, of the threads they run on, and of programs abandoned midway.",
  ["schedules", "programs", "histories"],
  "every charstring with its global and local subroutines, every interleaving of the steps of several programs sharing them across threads, including abandonment, restart and migration between steps",
  "The tests check the operations of two glyphs and step one program at a time to its end.",
  [T2, T2N, T2O], [("per-program stack, stems and width", T2), ("subroutine call chain", T2), ("operand arity matching", T2)],
  ["Program::next results", "Program::width"],
  [("stack", "operands not yet consumed", T2), ("stems", "number of stem hints declared", T2), ("width", "width difference once known", T2)])

p("C11", "Stepping any charstring is safe",
  "For arbitrary bytes as the charstring and as the subroutines, every step returns an operation, the end or an error, and keeps doing so when stepping continues after an error: it does not panic, overflow, exhaust the call stack or loop forever. Subroutine calls nested up to ten levels are followed, and deeper or self-recursive calls are an error.",
  ["programs", "inputs", "fault_sequences", "histories"],
  "every charstring and subroutine bytes: random, well-formed ones damaged by storage faults, extreme operands, long runs of operators and arbitrary call graphs",
  "The tests run the intact charstrings of one font and part of another.",
  [T2, T2N], [("operand checks", T2), ("bounded nesting", T2), ("iteration instead of recursion", T2)],
  ["completion of Program::next on a small stack with overflow checks"])

p("C12", "The end of a charstring program is final",
  "Once a program has reported its end, every further step reports the end again and the width no longer changes, no matter what bytes follow the end operator, how deep in subroutines the end was met, or how often and from which thread it is stepped.",
  ["histories", "programs", "schedules"],
  "every charstring, every history of steps past the end, interleaved with the steps of other programs",
  "The tests stop stepping at the first end.",
  [T2], [("end of program", T2)],
  ["Program::next and Program::width after the end"])

p("C13", "Loading is deterministic",
  "Any two loads of the same bytes agree: both return equal font sets, or both fail with the same error kind and message. This holds across threads, processes, repetitions, hash seeds, stream positions and ways of delivering the bytes.",
  ["schedules", "configurations", "inputs", "histories"],
  "every image, intact or damaged, under every pair of deliveries, hash seeds, start positions, threads and load histories",
  "Each test loads once and compares with constants for intact fonts; nothing varies hashing or delivery, and no error is compared.",
  LOAD, [("dictionaries are hash maps that are only looked up by key", OPS), ("no ambient state", FS)],
  ["results and errors of repeated loads"])

p("C14", "Loading never looks before the start of the font",
  "Reading a font set or its count from a position inside a larger stream never reads a byte before that position, whatever offsets the font contains; the outcome is therefore unaffected by what precedes the font.",
  ["inputs", "fault_sequences", "configurations"],
  "every image including those with negative, overflowing or damaged offsets, at every start position",
  "The tests load intact fonts, whose offsets are all positive, and do not observe where reads occur.",
  [FS, CID, NAME], [("offset operands are validated as non-negative", FS), ("local subroutine offsets are checked against the private dictionary's", NAME)],
  ["positions of the reads seen by the stream"])

p("C15", "Predefined strings, encodings and character sets follow the CFF specification",
  "The standard strings, the Standard and Expert encodings and the ISOAdobe, Expert and ExpertSubset character sets answer every lookup with the entry that the CFF specification lists, and nothing for any other key.",
  ["inputs"], "every string identifier and key",
  "Two entries of the standard encoding and three strings are looked up.",
  [STR, ENC, CS], [("static match tables", STR)], ["Strings::get", "Encoding::get", "CharacterSet::get"])

p("C16", "Absent dictionary operators answer with the specified defaults",
  "Looking up an operator that a dictionary does not contain yields the default operands that the CFF specification lists for it, or nothing where it lists none.",
  ["inputs"], "every operator and every dictionary",
  "No test looks up an absent operator and compares the default.",
  [OPS], [("static default table", OPS)], ["Operations::get", "Operator::default"])

p("C17", "Glyph lookups through stored character sets and encodings",
  "For a font with a stored character set or encoding, looking up a glyph gives the name or string identifier that the table assigns to it.",
  ["inputs"], "every stored table and glyph",
  "No test looks up a glyph in a stored table; the lookups are not implemented and always answer nothing.",
  [CS, ENC], [("per-format lookup", CS)], ["CharacterSet::get", "Encoding::get"])

p("C18", "Stepping a charstring needs bounded memory",
  "The peak memory that a charstring program occupies while it is stepped is bounded by a constant plus a constant factor of the bytes of its charstring and subroutines, whatever its operators ask for. All of it is released once the program is dropped, also midway or after an error.",
  ["programs", "inputs", "histories"],
  "every charstring and subroutine bytes: well-formed, damaged and hostile, in particular subroutines that are called again and again; every history of steps, restarts and abandonment",
  "The tests neither measure memory nor run charstrings that ask for more than they contain.",
  [T2, T2N], [("operands are limited", T2), ("masks are skipped only as far as there is data", T2), ("calls are limited in depth", T2)],
  ["allocator seam: live and peak bytes against the bytes of the charstrings"])

p("C19", "A loaded font set answers the same at any time",
  "A font set that has been loaded is a value. Every question to it - a string by its identifier, the operands of an operator in one of its dictionaries (or the defaults), a dictionary or all of them out of the index, the names, the name of a glyph, what a code encodes, its fields, the program of a glyph - is answered according to what is stored, and for predefined tables and defaults as a process that does nothing else answers it. The answer is the same in any order, any number of times, from any thread, of the set or of a copy, whatever other font sets are loaded, copied, asked or let go before or at the same time, including loads that fail or are abandoned. No question waits for what another thread does, and neither asking nor copying changes the set.",
  ["schedules", "histories", "inputs"],
  "every font set that loads, every sequence of questions, loads, copies and drops, every interleaving of several threads that share font sets or have their own, down to single instructions, including the first questions of a process",
  "The tests ask one font set a few questions once, on one thread; nothing is asked of a copy, after another font set is gone, or by two threads at once.",
  [STR, ENC, CS, OPS, "src/compact1/index/dictionaries.rs", "src/compact1/index/names.rs", FS],
  [("look-ups take a shared reference and keep no state", STR), ("dictionaries are parsed anew at each request", "src/compact1/index/dictionaries.rs"), ("all fields are owned", FS)],
  ["Strings::get", "Operations::get, get_single, get_double", "Dictionaries::get and conversions", "CharacterSet::get", "Encoding::get", "FontSet::clone"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
