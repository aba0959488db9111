"""Configuration of the checks: translation units, number of simulated runs, descriptions for the evidence."""
SCAN = [("scan_tu.cpp", "-DINCS=%d" % k) for k in range(8)] + ["scan_main.cpp"]
READER = [("reader_tu.cpp", "-DINCS=%d" % k) for k in range(8)] + [("reader_main.cpp", "-DHAVE_SCANJB=1")]
PATH = [("path_tu.cpp", "-DATM=%d" % k) for k in range(4)] + ["path_main.cpp", "expr.cpp"]
PRINTER = [("printer_tu.cpp", "-DAPPCS=%d" % k) for k in range(8)] + ["printer_main.cpp", "prhist.cpp"]
BSCAN = [("scan_tu.cpp", "-DINCS=%d" % k, "-DBOUNDED=1") for k in range(8)] + ["scan_main.cpp"]
DOC = ["xmlgen.cpp", "sessions.cpp"]

CHECKS = {
    "C01": dict(
        technique="real scanners under a seeded scheduler of chunk deliveries, suspensions, short reads and stalls; refinement against the same document in one piece",
        units=SCAN + DOC + ["c01.cpp"],
        runs=dict(quick=200000, thorough=6000000),
        rule="a run is 1-4 documents (generated, damaged or random bytes) delivered to real scanners by a seeded schedule; non-trivial: a scanner was suspended at least twice or read from a stream; distinct by the hash of all delivery and item events",
        real=["TextScanner", "XMLScanner", "charsets", "SrcIterator", "IStreamIterator", "CStringIterator", "char* source"],
        stub=["producer (chunk source and IStream)", "clock"],
    ),
    "C02": dict(
        technique="real scanners under a seeded scheduler of deliveries; refinement against an independent document model (items known by construction)",
        units=SCAN + DOC + ["c02.cpp"],
        runs=dict(quick=200000, thorough=6000000),
        rule="a run is 1-4 documents built from records (so the expected items are known by construction), in one of 16 encodings, delivered by a seeded schedule over chunks, streams with short reads or strings; non-trivial: a document with more than two items; distinct by the hash of all delivery and item events",
        real=["TextScanner", "XMLScanner", "charsets", "SrcIterator", "IStreamIterator", "CStringIterator", "char* source"],
        stub=["producer (chunk source and IStream)", "clock"],
    ),
    "C13": dict(
        technique="real scanners under a seeded scheduler of deliveries; invariants on every reported position against the offsets of an independent document model; histories of source iterators against offsets",
        units=SCAN + DOC + ["iter.cpp", "c13.cpp"],
        runs=dict(quick=200000, thorough=6000000),
        rule="a run is 1-3 documents built from records (so the byte offset of every element is known) delivered by a seeded schedule over chunks (fed with putInput), streams with short reads or strings; non-trivial: more than two items and more than one suspension or a stream/string source; distinct by the hash of all delivery and item events",
        real=["TextScanner", "XMLScanner", "charsets", "SrcIterator", "IStreamIterator", "CStringIterator", "char* source"],
        stub=["producer (chunk source and IStream)", "clock"],
        assumptions=["positions of elements without text (header end, empty tag end, masked elements) are unspecified"],
    ),
    "C14": dict(
        technique="real scanners under a seeded scheduler of deliveries; bounded liveness: every element within the delivery that contains its delimiter (streams: at most one read more)",
        units=SCAN + DOC + ["c14.cpp"],
        runs=dict(quick=200000, thorough=6000000),
        rule="a run is 1-3 documents built from records (so the byte offset that completes every element is known) delivered by a seeded schedule; non-trivial: more than two items and more than one suspension or a stream source; distinct by the hash of all delivery and item events",
        real=["TextScanner", "XMLScanner", "charsets", "SrcIterator", "IStreamIterator"],
        stub=["producer (chunk source and IStream)", "clock"],
    ),
    "C03": dict(
        technique="real character readers under a seeded scheduler of chunk ends and operation histories; refinement against a list of code points with independent encoders",
        units=SCAN + DOC + READER + ["c03.cpp"],
        runs=dict(quick=600000, thorough=20000000),
        rule="a run is 1-3 texts in any of 16 encodings read by a seeded history of reader calls over chunks, streams with short reads or strings; non-trivial: more than one character and more than one suspension or a stream source; distinct by the hash of all delivery and operation events",
        real=["TextScanner", "charsets", "SrcIterator", "IStreamIterator", "CStringIterator", "char* source"],
        stub=["producer (chunk source and IStream)", "clock"],
    ),
    "C04": dict(
        technique="real scanners and readers on streams under a seeded schedule of short reads and read failures; refinement against the bytes delivered before the failure, leak accounting",
        units=SCAN + DOC + READER + ["c04.cpp"],
        runs=dict(quick=200000, thorough=6000000),
        rule="a run is 1-2 documents or texts read through an IStream or a std::istream whose reads are short and fail at a seeded byte with a seeded system error, once or persistently, with or without bytes already written; non-trivial: the failure was reached; distinct by the hash of all read, item and failure events",
        real=["IStreamIterator", "StdInputStream", "std::istream", "TextScanner", "XMLScanner", "charsets"],
        stub=["IStream / std::streambuf (the failing device)", "clock"],
    ),
    "C05": dict(
        technique="real scanners and readers on damaged and truncated input under a seeded scheduler of deliveries; step budget, memory checker, refinement against the undamaged document up to the damage",
        units=SCAN + DOC + READER + ["c05.cpp"],
        runs=dict(quick=200000, thorough=6000000),
        rule="a run is 1-2 documents or texts with 1-5 seeded damages (truncation, bytes replaced, inserted, lost, duplicated, reordered, bits flipped, long runs) delivered by a seeded schedule over chunks allocated with their exact size, streams or strings; non-trivial: the bytes were changed and something was reported; distinct by the hash of all delivery and item events",
        real=["TextScanner", "XMLScanner", "charsets", "SrcIterator", "IStreamIterator", "CStringIterator", "char* source"],
        stub=["producer (chunk source and IStream)", "clock"],
        assumptions=["the step bound is 20000 + 1500 control flow edges per byte and delivery (about seven times what is observed)"],
    ),
    "C06": dict(
        technique="real scanners and selections sharing one set of expressions under a seeded scheduler of deliveries and interleavings; refinement against reference path semantics over the document tree",
        units=SCAN + DOC + PATH + ["c06.cpp"],
        runs=dict(quick=100000, thorough=3000000),
        rule="a run is 1-9 generated expressions (builder calls or strings, with rejected ones in between) in one automaton shared by 1-3 selections, each fed by a real scanner whose document is delivered by a seeded schedule; non-trivial: more than one type was selected; distinct by the hash of all delivery, item and selection events",
        real=["XMLPathSelectAutomaton", "XMLPathSelectAutomatonParser", "XMLPathSelect", "XMLScanner", "TextScanner", "charsets", "sources"],
        stub=["producer (chunk source and IStream)", "clock"],
        assumptions=["attribute conditions select in the order in which attributes appear", "header elements belong to the document scope; expressions selecting a header as a tag are not generated"],
    ),
    "C07": dict(
        technique="real header parsers under a seeded scheduler of piecewise deliveries; refinement against an independent recogniser and against the same prefix at once",
        units=["c07.cpp"],
        runs=dict(quick=200000, thorough=10000000),
        rule="a run is 1-4 header parsers interleaved, each fed one or two headers (well-formed, absent, token soup or damaged) in one of 8 encodings in pieces by a seeded schedule, with repeated calls, copies and clear(); non-trivial: more than one piece was fed; distinct by the hash of all feeds and results",
        real=["XmlHdrParser"],
        stub=["producer of the pieces", "clock"],
        assumptions=["a parser that reported an error or completion is not asked again before clear()"],
    ),
    "C08": dict(
        technique="real printers under seeded histories of legal and rejected calls, interleaved by a seeded scheduler; refinement against a printing model, an independent recogniser of the output and real scanners reading it back",
        units=SCAN + DOC + PRINTER + ["c08.cpp"],
        runs=dict(quick=100000, thorough=5000000),
        rule="a run is 1-3 printers (application encoding x output encoding) executing interleaved seeded call histories with calls in wrong states, each document then read back by a real scanner under a seeded delivery; non-trivial: more than three printing calls; distinct by the hash of all call, output, delivery and item events",
        real=["XMLPrinter", "TagStack", "XMLScanner", "TextScanner", "charsets", "sources"],
        stub=["producer (chunk source and IStream)", "clock"],
        assumptions=["names, header encodings and DOCTYPE identifiers are valid for where they are printed (the printer does not check them)", "content at document level and a second root element are left to the caller"],
    ),
    "C09": dict(
        technique="real scanners, printers, encoders and buffers with seeded capacities and device failures under a seeded scheduler of deliveries and call histories; refinement against the same history with an unbounded sink",
        units=BSCAN + DOC + PATH + PRINTER + ["c09.cpp"],
        runs=dict(quick=100000, thorough=5000000),
        rule="a run is one of: 1-3 documents scanned into buffers of seeded capacity under a seeded delivery; a printing history into a fixed buffer or a stream whose device fails at a seeded byte (once, until cleared, or by exception; recovering on a seeded call); a history of calls of the buffer and its copies; characters copied and encoded; expressions with names around the internal limit; non-trivial: something overflowed or failed; distinct by the hash of all events",
        real=["StaticBuffer", "OstreamOutput", "std::ostream", "XMLScanner", "TextScanner", "XMLPrinter", "charsets", "Encoder", "XMLPathSelectAutomaton", "XMLPathSelectAutomatonParser", "XMLPathSelect", "SrcIterator"],
        stub=["producer of the chunks", "output device (streambuf)", "clock"],
        assumptions=["after a stream exception the printer is reset before it is used again"],
    ),
    "C10": dict(
        technique="real scanners, selections, expressions, printers, header parsers and buffers under seeded histories with seeded allocation failures (once, repeated, persistent, again while recovering); refinement against the history without failures, allocation accounting, memory checker",
        units=SCAN + DOC + READER + PATH + PRINTER + ["c10.cpp"],
        runs=dict(quick=100000, thorough=5000000),
        rule="a run is one history (scanning with copies, defining expressions and selecting, printing, header parsing, buffering, reading) executed without failure to count its allocations and then with the allocation chosen by the seed failing once, 2-4 times or until recovery; non-trivial: an allocation failed; distinct by the hash of all events",
        real=["XMLScanner", "TextScanner", "IStreamIterator", "XMLPathSelectAutomaton", "XMLPathSelectAutomatonParser", "XMLPathSelect", "XMLPrinter", "TagStack", "XmlHdrParser", "StaticBuffer", "charsets", "sources"],
        stub=["allocator (malloc, calloc, realloc, operator new fail on command)", "producer of the input", "clock"],
        assumptions=["static tables are initialised before the shortage", "an expression whose definition failed may be selected more than once after it was defined again"],
    ),
    "C12": dict(
        technique="real scanners, readers, header parsers, printers, expressions, selections and buffers under seeded histories of use, copy, assignment and destruction, also while suspended inside an element; refinement against an object of the same history that was never copied, memory checker, allocation accounting",
        units=BSCAN + DOC + READER + PATH + PRINTER + ["c12.cpp"],
        runs=dict(quick=200000, thorough=10000000),
        rule="a run is a history over up to five objects of one kind: use with seeded deliveries, copy construction, assignment (also to itself and onto objects in another state), destruction, reset, in any order; non-trivial: something was used after a copy was made; distinct by the hash of all events",
        real=["XMLScanner", "TextScanner", "XmlHdrParser", "XMLPrinter", "TagStack", "XMLPathSelectAutomaton", "XMLPathSelectAutomatonParser", "XMLPathSelect", "StaticBuffer", "charsets", "sources"],
        stub=["producer of the input", "clock"],
        assumptions=["copies of a reader on a stream share the stream, so only streams that were read completely are copied"],
    ),
    "C11": dict(
        technique="real library objects in simulated threads (fibers) preempted at memory accesses by a seeded scheduler, from a cold start of all static data; refinement against each thread alone, happens-before race detection, dead lock and progress bounds",
        units=DOC + ["expr.cpp", "prhist.cpp", "conc.cpp", "c11.cpp"],
        so=SCAN + READER + PATH[:-1] + PRINTER[:-1] + ["conc_tu.cpp", "conc_so.c"],
        runs=dict(quick=40000, thorough=2000000),
        rule="a run is 2-4 threads (scanning, scanning and selecting with shared expressions, defining expressions, copying and extending the shared expressions, printing, header parsing, character reading, buffering; often several of the same kind), each executed alone and then together under a seeded schedule of preemptions; non-trivial: more than one thread and at least one preemption; distinct by the hash of all events and thread switches",
        real=["XMLScanner", "TextScanner", "charsets", "sources", "XMLPathSelectAutomaton", "XMLPathSelectAutomatonParser", "XMLPathSelect", "XMLPrinter", "XmlHdrParser", "StaticBuffer"],
        stub=["threads (fibers of one OS thread)", "allocator (arena without reuse)", "initialisation guards, mutexes, once (same semantics, visible to the scheduler)", "producer of the input", "clock"],
        assumptions=["preemption is possible at memory accesses of the library and of std::string and container templates it instantiates, not inside of compiled libstdc++ or libc functions", "memory accesses are executed in the order chosen by the compiler (weak memory effects show as data races only)"],
    ),
}
