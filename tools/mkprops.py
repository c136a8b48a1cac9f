"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": [observe]} if observe else {})),
                  _t=technique, _n=note))


DEC, SUBB, SUBE, SUBM = "decoder_top.py", "sub_decoders/RTCM_BASE.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_MSM.py"
JP, MP, TOP, RUN, CTL = "printers/json_printer.py", "printers/margo_printer.py", "converter_top.py", "run_conversion.py", "controls.py"
UT, CRC, BITS, DCM = "utilities/RTCM_utilities.py", "utilities/CRC24Q.py", "utilities/bits.py", "gnss_types/data_class_methods.py"
PRT = "printer_top.py"

prop("C01", "Exactly the valid RTCM3 frames of a stream are extracted, in order",
     "From any byte stream, the messages extracted are exactly the non-overlapping frames found by scanning left to right for preamble 0xD3, six zero reserved bits, a 10-bit payload length (0 to 1023 bytes) and a matching CRC-24Q; each is delivered once, in stream order, byte for byte. "
     "Junk, false preambles, frames without payload, corrupted frames, frames nested inside a longer valid frame and frames hidden inside a corrupted one neither cause a valid frame to be lost nor anything else to be delivered (only a candidate still incomplete when the stream ends may stay pending).",
     ["inputs", "histories"], "every byte stream", "The set of byte streams is unbounded; tests feed a few intact files and never junk, nesting, false headers or truncated tails.",
     [DEC, CRC], [("frame parser", DEC), ("CRC", CRC)], "bytes returned by the parser for each chunk fed")
prop("C02", "Frame extraction does not depend on how the stream is cut into chunks",
     "For every way of cutting a byte stream into successive chunks (any sizes, including empty and single-byte chunks), the sequence of messages extracted is the same as for the uncut stream. "
     "A valid frame is delivered by the very call that supplies its last byte, unless an earlier still-unresolved frame candidate precedes it.",
     ["schedules", "inputs"], "every stream and every partition of it into chunks", "The number of partitions is exponential; tests read whole files in fixed 4096-byte chunks.",
     [DEC, RUN], [("frame parser", DEC), ("chunked reading", RUN)], "messages returned per chunk")
prop("C03", "Every gap between messages is counted exactly once",
     "The parsing-error counter equals the number of places where bytes had to be skipped between two consecutively extracted frames, however long or composite the skipped stretch is and however the stream is chunked. "
     "Bytes before the first frame and after the last one are not counted, and gap-free streams always report zero parsing errors.",
     ["inputs", "histories", "schedules"], "every byte stream and chunking", "Depends on the whole history of the stream; tests never look at the counter on damaged streams.",
     [DEC, TOP], [("gap accounting", DEC), ("statistics", TOP)], "parsing error counter after every chunk")
prop("C04", "A message with a wrong CRC-24Q is never delivered, a correct one never refused",
     "A candidate frame is delivered if and only if the CRC-24Q (polynomial 0x1864CFB, zero initial value) over its header and payload equals its last three bytes. "
     "This holds for every payload length from 0 to 1023 and for every corruption of payload or checksum: single-bit and multi-bit errors, swapped, zeroed, inverted or reordered bytes.",
     ["inputs"], "every frame and every corruption of it", "Tests only use intact frames, so a checksum comparison that ignores some bits or lengths passes them.",
     [CRC, DEC], [("CRC-24Q", CRC), ("frame acceptance", DEC)], "messages delivered")
prop("C05", "A message's outcome does not depend on the messages around it",
     "Whatever precedes or follows it in the same conversion (unsupported messages, malformed messages of any family, messages whose output cannot be written, gaps, repetitions), each message is accepted or rejected, and if accepted is published with exactly the content, that its own bytes and the controls determine. "
     "No message aborts the conversion and no value leaks from one message into another.",
     ["histories", "inputs", "fault_sequences"], "every sequence of good, malformed, foreign and unprintable messages in every output mode", "State leaking between messages shows only on particular sequences; tests convert homogeneous, well-formed files.",
     [TOP, DEC, PRT, SUBM, SUBE, SUBB, JP, MP], [("dispatch and error isolation", DEC), ("printing", PRT)], "published files and accept/reject results")
prop("C06", "Each message number goes to the right decoder and output file of each mode",
     "In JSON, JSON-B and JARGO modes exactly the supported numbers are decoded (MSM1-7 of the seven systems 1071-1137, ephemerides 1019, 1020, 1041, 1042, 1044-1046, station messages 1005-1008, 1013, 1029, 1033, 1230); in MARGO mode only the MSM numbers are. "
     "All other 12-bit numbers are ignored without being counted as decoding attempts or errors, and each supported message is published only under the folder and file named after its family, system and number, whose source label names the same number.",
     ["inputs", "configurations"], "all 4096 message numbers in all four output modes", "Tests cover a dozen numbers and never look for messages that must be ignored or for surplus output.",
     [TOP, DEC, PRT, SUBM, SUBE, SUBB, JP, UT], [("dispatch tables", DEC), ("mode set-up", TOP)], "attempt counter and output tree")
prop("C07", "Bare MSM output reproduces every transmitted field of every MSM type",
     "In JSON-B mode every accepted MSM message (types 1-7, all seven systems) is published with header fields, satellite-block fields and signal-block fields equal bit for bit to the transmitted integers (signed where the field is signed), each list in transmission order and complete. "
     "The announced satellites, signals and cells are exactly those of the transmitted masks.",
     ["inputs"], "every well-formed MSM payload", "The payload space is 2^8000; tests compare a handful of recorded messages that exercise few masks, signs and field extremes.",
     [SUBM, BITS, JP], [("MSM bit parsing", SUBM), ("bit access", BITS)], "JSON-B entries")
prop("C08", "Scaled MSM output equals the physical values the message encodes",
     "In JSON mode every accepted MSM message is published with ranges, phase ranges, range rates, carrier-to-noise ratios, lock times, half-cycle flags, rough and fine components, carrier frequencies, epoch and header data equal to what the RTCM 10403 field definitions assign to the transmitted integers, for every value of every field. "
     "This includes all lock-time indicator segments, all signs and the extremes of every field, for all seven systems and types 1-7.",
     ["inputs"], "every well-formed MSM payload with known signals", "Scale factors, segment tables and sign handling differ per type and system; sampled recordings never reach most segments and extremes.",
     [SUBM, UT, JP], [("scaling", SUBM), ("signal tables", UT)], "JSON entries")
prop("C09", "MSM values are attributed to the right cell and unavailable ones are left out",
     "Every published observable stands under the satellite and signal whose cell carries it, for every satellite mask, signal mask and cell mask, including satellites or signals without any cell. "
     "A value flagged unavailable by its reserved code (range, phase, rate or rough range) is omitted or shown as NaN for that cell only (in MSM3 a cell without range has no phase either), and never suppresses or alters another cell's value or a different observable that does not depend on it.",
     ["inputs"], "every combination of masks and unavailable-value codes", "Attribution errors need sparse masks and partially invalid cells, which recorded samples do not have in most positions.",
     [SUBM, MP, JP], [("cell attribution", SUBM)], "JSON, JSON-B and MARGO output")
prop("C10", "Ephemeris messages are published with exact field values and annotations",
     "Every accepted ephemeris message (1019, 1020, 1041, 1042, 1044, 1045, 1046) is published with every field at its transmitted value: as raw integers in JSON-B (two's complement or sign-magnitude as the field prescribes) and as scaled values and decoded annotations in JSON, for every bit pattern of every field.",
     ["inputs"], "every payload of every ephemeris message", "Each field has its own width, signedness and scale; tests check one recorded message per type.",
     [SUBE, BITS, JP], [("ephemeris parsing and scaling", SUBE)], "EPH output")
prop("C11", "Station messages are published with exact coordinates, texts and biases",
     "Every accepted station message (1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230) is published with its transmitted values: raw in JSON-B, scaled in JSON; strings of every length from empty to maximal keep every character, announcement lists of 1013 keep every entry and 1230 biases are assigned to the signals its mask announces.",
     ["inputs"], "every payload of every station message, including variable-length parts", "Variable-length strings, lists and optional biases give unbounded shapes; tests hold one recorded sample for some of them.",
     [SUBB, BITS, JP], [("station message parsing and scaling", SUBB)], "BASE output")
prop("C12", "A message is accepted exactly if its payload fits its announced structure",
     "A supported message is accepted if and only if its payload length fits the structure it announces (fixed layouts, MSM masks with at most 64 cells, string and list counters, bias masks) and its codes can be interpreted in the current mode. "
     "Truncated or inconsistent payloads, and over-long MSM and station payloads (an ephemeris may be followed by trailing bytes), are counted as one decoding error each, publish nothing, and never raise out of the converter.",
     ["inputs"], "every payload of every supported number", "Tests contain no malformed payload inside a valid frame.",
     [SUBM, SUBE, SUBB, DEC], [("length checks", SUBM), ("decoder error handling", DEC)], "decode results and counters")
prop("C13", "Each JSON output is one valid document with one entry per message, in order",
     "After any conversion that is brought to its end, every JSON file written is a single valid JSON array: one source label followed by exactly one entry per accepted message of that number, in order of arrival. "
     "A file exists for a message number if and only if at least one message of it was accepted.",
     ["histories", "inputs"], "every history of messages", "Well-formedness depends on the number and order of messages, including the first/last and empty cases, and on content needing escaping.",
     [JP, PRT, TOP], [("document writing", JP)], "JSON files on disk")
prop("C14", "JSON layout switches change only what they name",
     "For every combination of the pretty-view, header-data and auxiliary-data switches, the JSON outputs hold the same entries and observables; the header and auxiliary sections are present exactly when enabled, and the entries are spread over lines exactly when pretty view is enabled. "
     "Station and ephemeris entries are complete whatever the switches.",
     ["configurations", "inputs"], "all switch combinations over all message families", "Tests run with one set of controls.",
     [JP, CTL], [("JSON controls", JP)], "JSON files on disk")
prop("C15", "MARGO tables have one file per observable and one complete row per epoch",
     "In MARGO output each system, observable, signal and MSM type has its own file with a two-line header (satellite number and carrier frequency of each column) and exactly one row per message that carries that observable, in order of arrival, each row with the full number of columns. "
     "A file exists if and only if some message provided that observable for that signal.",
     ["histories", "inputs"], "every history of MSM messages of all systems and types", "Row/column bookkeeping depends on the sequence of messages and their masks.",
     [MP, PRT], [("MARGO files", MP)], "obs files on disk")
prop("C16", "MARGO values stand in the column of their satellite with the right value",
     "Every MARGO value (code, phase in cycles, Doppler, signal-to-noise, lock time, ambiguity flag) stands in the column of its satellite and equals the message's physical value to the printed precision; columns of satellites without the value hold NaN, and header frequencies match the signal and, for GLONASS, the configured channel number of each slot.",
     ["inputs", "configurations"], "every MSM payload and every channel table", "Column/frequency mistakes appear only for particular satellites, channels or signals.",
     [MP, SUBM], [("MARGO columns", MP)], "obs files on disk")
prop("C17", "MARGO time marks follow each system's clock for every epoch",
     "Every MARGO row carries the epoch of its message as milliseconds of the GPS week, for every transmitted epoch: BeiDou time is advanced by 14 s with week roll-over, GLONASS day of week and time of day are reduced by 3 h and advanced by the configured leap seconds with week roll-over, and the epochs of all other systems are printed unchanged.",
     ["inputs", "configurations"], "every epoch value of every system and every leap-second setting", "Roll-overs occur only in narrow windows at day and week boundaries.",
     [MP], [("time marks", MP)], "first columns of obs rows")
prop("C18", "MARGO switches add or omit only the files they name",
     "Half-cycle ambiguity and lock-time files appear exactly when the corresponding switch is on and the message carries such data. "
     "With the half-cycle switch off, phases flagged ambiguous are shown as NaN; with it on they are shown like any other. Apart from that neither switch changes any other output file.",
     ["configurations", "inputs"], "all switch combinations over all MSM types", "Tests run with one set of controls.",
     [MP, CTL], [("MARGO controls", MP)], "obs files on disk")
prop("C19", "JARGO mode delivers MARGO tables and JSON products side by side",
     "In JARGO mode every accepted MSM message is published as in MARGO mode and every accepted ephemeris and station message as in JSON mode, for every mixture and order of messages and every controls setting. "
     "Neither kind of product influences the other, and the statistics count each message once.",
     ["inputs", "histories", "configurations"], "every mixture of messages", "No test runs this mode on mixed content.",
     [TOP, PRT, JP, MP], [("JARGO set-up", TOP)], "output tree and statistics")
prop("C20", "Statistics and the final verdict are exact at every moment",
     "At every point of a conversion the attempt and error counters equal the number of messages handed to a decoder, of gaps, of rejected messages, of decoded messages handed to printing, and of messages whose output could not be written completely. "
     "The log of a conversion that reached its end says it finished without errors if and only if all three error counters are zero.",
     ["histories", "fault_sequences"], "every history of good, malformed and unprintable messages", "Counters are history-dependent; tests never compare them.",
     [TOP, DEC, PRT, RUN], [("statistics", TOP), ("verdict", RUN)], "statistics after each operation; log file")
prop("C21", "Each source of a session is converted on its own into a fresh folder",
     "In one invocation with any list of sources, every existing source file is converted into its own folder next to it, named after source (without extension) and mode, holding exactly the products of this source and its log with one verdict. "
     "Leftovers of earlier runs are gone, missing sources are skipped, a failing source does not stop the following ones, nothing else is created or modified, and without valid controls every source gets only a log saying so.",
     ["histories", "fault_sequences", "configurations"], "every list of sources, leftovers, failures and control states", "Interactions between sources of one session and with earlier runs are never exercised by the tests.",
     [RUN, CTL, "logger.py"], [("session loop", RUN), ("log handling", "logger.py")], "directory tree after the invocation")
prop("C22", "A fault or interrupt at any point still leaves complete, valid output",
     "If reading, parsing, decoding or printing is interrupted by the user or fails with an exception at any point of a conversion, the converter is still released, every file written is valid and holds all messages printed up to that point, the source is reported as terminated and the next source is processed normally.",
     ["crash_points", "fault_sequences"], "a fault at every call made by the conversion loop and every read", "Faults at particular points are never injected by the tests.",
     [RUN, TOP, JP], [("file loop", RUN), ("release", TOP)], "files after the fault; verdict in the log")
prop("C23", "Controls are the last setting given, over complete defaults only",
     "With complete default controls, each effective control equals the value of the last configuration file that sets it and every control not set by a user file keeps its default, for any number of user files, any subset of controls, unknown extra settings and missing or empty user files. "
     "If the defaults lack any required setting no controls are offered, whatever user files provide.",
     ["configurations", "histories"], "every sequence of configuration files", "The layering of partial files is combinatorial; tests use the shipped defaults only.",
     [CTL, RUN], [("controls manager", CTL)], "controls offered after each file; output of sessions run with them")
prop("C24", "Exactly the sources the user named or selected are converted, in order",
     "Every argument that names a file is converted, in the given order, and others are skipped. "
     "If the only argument is a folder, all and only the visible files (not folders) in it with the requested extension are listed with consecutive indexes, and exactly those whose index is given are converted, in the order given; out-of-range indexes are ignored, and an answer that is not a list of integers selects nothing.",
     ["inputs", "configurations"], "every argument list, folder content, extension and answer", "Tests never use the folder dialogue.",
     [RUN], [("source list", RUN)], "listing on the console and sources opened")
prop("C25", "Data objects compare by value within tolerance and copies are independent",
     "Comparing two data objects yields true exactly if they have the same type and all fields, recursively through nested objects, lists and dictionaries, match: integers, strings and flags exactly, floats within the given relative tolerance whatever their sign, NaN only with NaN, containers only with equal length and keys. "
     "A copy compares equal to its original, changing a field of a copy leaves the original unchanged, and a deep copy shares no nested data.",
     ["inputs", "configurations"], "all pairs of data objects and tolerances", "Comparisons are used by the tests themselves, on equal objects only; a comparison that is too lax cannot be noticed by them.",
     [DCM, "gnss_types/ephemeris.py", "gnss_types/base_station.py"], [("comparison and copying", DCM)], "results of compare, copy and deepcopy")

prop("C26", "Converters used as a library are independent of each other",
     "Any number of converters of any output modes may live in one process and be used in any interleaving: each one's messages, counters and products are determined by the calls made on it alone. "
     "Decoded objects may be printed at once, later, in another order, repeatedly or never, every print publishing exactly that object; releasing a converter completes its products and releasing it again changes nothing.",
     ["histories", "schedules"], "every interleaving of calls on several converters", "Shared state between instances shows only when calls on several of them interleave; tests use one converter at a time.",
     [TOP, DEC, PRT, JP, MP, SUBM], [("converter set-up", TOP), ("printer registration", PRT)], "call results, counters and products of every converter")
prop("C27", "Converting the same file again yields the same products byte for byte",
     "Products depend only on the content of the source, the output format and the controls: converting a source again, in the same process after other conversions, in a new process, with another hash seed, or under another file name, gives the same set of product files with identical bytes.",
     ["histories", "configurations", "inputs"], "every source and every history of conversions before it", "Repetition, process state and hash randomisation are not varied by the tests.",
     [RUN, TOP, JP, MP, PRT], [("session loop", RUN), ("product writing", JP)], "bytes of the products of repeated conversions")
prop("C28", "The conversion log accounts for every part and every rejected message",
     "While a file is read, the log of its conversion reports progress in consecutive steps, each with the share of the file read so far and the counters of that moment, and it names, in order of arrival, the number of every message decoded, of every message that could not be decoded and of every message that is not supported.",
     ["histories", "inputs"], "every source content and size", "Depends on the whole history of a conversion; tests never read the log.",
     [RUN, DEC, TOP, "logger.py"], [("progress report", RUN), ("decoder reports", DEC)], "log file after the conversion")
prop("C29", "The command line selects format, controls and extension, or is refused",
     "For any sequence of options and sources, the conversion uses the output format, user configuration and folder extension given last (MARGO, none and rtcm3 if not given), wherever the options stand. "
     "An unknown option or format, a missing value or a missing source is refused with a non-zero exit code; help and version are shown with exit code zero; neither creates anything.",
     ["inputs", "configurations"], "every sequence of command line words", "Combinations and positions of options are never exercised by the tests.",
     [RUN], [("argument parsing", RUN)], "exit code, console and files created")

prop("C30", "Only complete decoders and printers are registered, and each gets just its own",
     "A sub-decoder is registered if and only if it speaks the protocol, implements decoding and names at least one message; a sub-printer if and only if the output format is known and it implements printing, closing and at least one data class. "
     "After any sequence of registrations a message goes to the one sub-decoder in force (the last registered) for the subset it belongs to, if that implements its number, and a data object to exactly one registered sub-printer that supports its class; what fails or returns another class is counted as one error and yields nothing, and closing closes every registered printer once.",
     ["histories", "configurations"], "every sequence of registrations and uses", "Tests only use the four built-in combinations; the extension points are never exercised.",
     [DEC, PRT], [("decoder registration and dispatch", DEC), ("printer registration and dispatch", PRT)], "return values, counters and calls made on the registered parts")
prop("C31", "Bit-field access is exact for every position and width and never out of range",
     "Reading an unsigned or signed bit field of 1 to 128 bits at any bit position of any buffer yields exactly the value of those bits (two's complement when signed), and bit reversal yields the named bits in reverse order. "
     "Widths outside 1-128, negative positions and fields that reach beyond the buffer are refused with the bit error, whatever the buffer.",
     ["inputs"], "every buffer, position and width", "Tests reach the primitives only through the widths and positions of a few recorded messages.",
     [BITS], [("bit access", BITS)], "values returned and errors raised")

prop("C32", "Every message number, signal and clock code is classified as the standard says",
     "For every number whatsoever, the classification names the satellite system and subset (legacy, ephemeris or MSM 1 to 7) the RTCM catalogue gives it, and nothing for any other number; the general and the subset-specific classifications agree. "
     "For every satellite system and MSM signal number the RINEX signal code and its carrier frequency are those of the standard, and unknown systems and signal numbers have none.",
     ["inputs"], "all message numbers, satellite systems and signal numbers", "Tests touch only the few numbers and signals of recorded files.",
     [UT], [("classification", UT)], "results of the classification functions")
prop("C33", "Data blocks start empty, clear to empty and never share data",
     "Any number of data blocks of any classes may be made, written (also inside nested tables) and cleared in any order: a new or cleared block is empty, a written one holds exactly what was written, and no operation on one block shows in another. "
     "Epoch, GLONASS day and MSM kind read from a bare block always follow from its header.",
     ["histories", "inputs"], "every sequence of operations on any number of blocks", "Shared mutable defaults show only when several blocks live at once and nested data are changed in place.",
     ["gnss_types/observables.py", "gnss_types/ephemeris.py", "gnss_types/base_station.py"], [("data blocks", "gnss_types/observables.py")], "content of all blocks after each operation")
prop("C34", "The logger writes each record once, to the log in force only",
     "After any sequence of set-ups, releases and records: a record of at least information level is appended exactly once, with logger name, level and text, to the file of the set-up in force, and shown on the console if it is a warning or more severe; without a set-up it goes nowhere and does not fail. "
     "Earlier content of log files is kept, setting up a logger that is in use is refused without effect, and releasing is always possible.",
     ["histories"], "every sequence of set-ups, releases and records", "Tests never set the logger up.",
     ["logger.py"], [("logger", "logger.py")], "log files and console after each call")
prop("C35", "The predicted location of a JSON product and log is where they really are",
     "For any source path, output mode and message number, the paths of product, folder and log predicted by the JSON printer's location helper are exactly those at which a conversion of that source in that mode puts the JSON product of that message, its products and its log; a number with no JSON product is predicted at UNDEF/msg<number>.json in the same folder. "
     "Source names may have any number of dots, no extension, or lie in any folder.",
     ["inputs", "configurations"], "all source paths, modes and message numbers", "Tests use the helper only for the few file names of their own samples.",
     [JP, RUN], [("location helper", JP), ("work folder and log name", RUN)], "paths returned by the helper; files on disk after a conversion")

TECH = {
    "C32": "TLA+ message and signal catalogue; recorded classifications of all numbers validated by TLC",
    "C33": "TLA+ model of data blocks (TLC) + TLC-enumerated uses replayed, validated by TLC",
    "C35": "TLA+ catalogue and location rules; predictions and real conversions validated by TLC",
    "C34": "TLA+ logger model (TLC) + TLC-enumerated uses replayed, validated by TLC",
    "C01": "TLA+ framer model (TLC) + TLC-enumerated streams replayed, deliveries validated by TLC",
    "C02": "TLA+ framer model (TLC, all chunkings) + recorded chunked runs validated by TLC",
    "C03": "TLA+ framer model (TLC) + counter traces validated by TLC",
    "C04": "CRC-24Q in TLA+, delivered frames validated by TLC",
    "C05": "TLA+ converter model (TLC) + TLC-enumerated histories replayed, output validated by TLC",
    "C20": "TLA+ converter model (TLC) + TLC-enumerated histories, counter traces validated by TLC",
    "C21": "TLA+ session model (TLC) + TLC-enumerated sessions replayed, disk state validated by TLC",
    "C22": "TLA+ converter/session model with faults, fault at every call, traces validated by TLC",
    "C23": "TLA+ controls model (TLC) + TLC-enumerated layerings replayed, offered controls validated by TLC",
    "C24": "TLA+ source-selection model (TLC) + TLC-enumerated dialogues replayed, validated by TLC",
    "C25": "TLA+ value-comparison model; recorded comparisons validated by TLC",
    "C26": "TLA+ model of several converters (TLC) + TLC-enumerated interleavings replayed, validated by TLC",
    "C27": "TLA+ conversion semantics; repeated recorded conversions validated by TLC",
    "C28": "TLA+ converter/session model; recorded logs validated by TLC",
    "C30": "TLA+ model of the registries (TLC) + TLC-enumerated registrations replayed, validated by TLC",
    "C31": "TLA+ definition of bit fields; recorded accesses validated by TLC",
    "C29": "TLA+ command-line model (TLC) + TLC-enumerated command lines replayed, validated by TLC",
}
NOTE = {}


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, "harness"))
    from props import PROPS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in PROPS:
                f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        pid = p["id"]
        if pid not in PROPS:
            continue
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough", evidence_file=f"evidence/{pid}.json",
                           technique=TECH.get(pid, "TLA+ specification of the message semantics; recorded runs of the real converter validated by TLC"),
                           level="model_checking",
                           level_note=NOTE.get(pid, "The design model is explored exhaustively within its bounds where one is listed; the binding to the code is by "
                                               "validating recorded executions (bounded, seeded, partly enumerated by TLC), so code behaviour outside the generated executions is not covered.")))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
               notes="TLA+ (TLC). No hooks in /repo. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
