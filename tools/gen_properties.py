#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit the texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["include/textwolf/"+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Chunked delivery never changes what a scan reports",
 "Scanning a document in any supported encoding reports the same sequence of elements (type and content), including the same first error, however its bytes are delivered: in one block, as chunks of any size fed whenever the scanner runs out of input (also when a chunk ends inside a character, an entity, a keyword or an attribute value), or through an input stream with any buffer size and short reads. A scan that is suspended for lack of input and resumed, and several scans interleaved with each other, behave like one uninterrupted scan.",
 ["inputs","schedules","fault_sequences"],
 "Every document (well-formed or damaged), encoding, output character set, every splitting of its bytes into deliveries and every interleaving of concurrently suspended scans.",
 "The tests use a handful of fixed documents with fixed chunk sizes; the property quantifies over every split point of every document in every encoding, i.e. over all suspension points of the scanner.",
 ["textscanner.hpp","sourceiterator.hpp","istreamiterator.hpp","xmlscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp"],
 [("resumable state machine, state kept in the scanner across the longjmp","XMLScanner::nextItem"),("partial character buffer","TextScanner::getcode / charset fetchbytes"),("end-of-message escape","SrcIterator::operator*")],
 ["XMLScanner::nextItem results","iterator elements","SrcIterator::getPosition"],
 [("tokstate","progress inside one token","XMLScanner::TokState"),("buf","bytes of the current character fetched so far","TextScanner"),("m_abort/m_eof","what happens at the end of a chunk","SrcIterator")])
p("C02","A scan reports exactly the items of the document",
 "For every well-formed document in any supported encoding the scan reports exactly its header attributes, DOCTYPE parts, open tags, attribute names and values, text contents and close tags, in document order, followed by the end of document and no error, under any delivery of the input. Content is reported character for character in the selected output character set: entity and numeric references decoded (predefined and user defined ones), end of lines normalised to one newline, leading and in-content spaces handled as documented, characters the output set cannot represent as a numeric reference, and unknown or malformed references left verbatim. Masking element types out, also differently from call to call and in the middle of an element, suppresses only their content: which elements are reported, and the content of the others, does not depend on it.",
 ["inputs","schedules","configurations"],
 "Every document of the accepted language with every input encoding x output encoding and every delivery schedule, compared with an independent document model.",
 "The tests compare a few documents in a few encodings with recorded output; every combination of construct, adjacent constructs, character class and encoding is out of their reach.",
 ["xmlscanner.hpp","textscanner.hpp","charset_isolatin.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","char.hpp","codepages.hpp"],
 [("token state machine","XMLScanner::Statemachine"),("entity decoding","XMLScanner::parseEntity"),("character conversion","charset value/print")],
 ["XMLScanner::nextItem, getItemPtr, getItemSize","XMLScanner::getError"])
p("C03","Character reading is exact for any operation history and chunking",
 "Reading a text in a supported character encoding with any interleaving of looking at the current character, its class, copying it to another encoding and advancing yields each character of the text exactly once and in order, also when the input ends in the middle of a character and is continued later. Encoding any character (any value up to 0x7FFFFFFF the encoding has a form for) and decoding it again in the same encoding yields the same character, and a copy to a different encoding yields that character's encoding there or a numeric reference if it has none. Bytes that are no valid character (an incomplete UTF-8 character, an unpaired surrogate) are read as one value that is no character, and the characters after them are not affected.",
 ["inputs","histories","schedules"],
 "Every text, every encoding (UTF-8, UTF-16 BE/LE, UCS-2 BE/LE, UCS-4 BE/LE, IsoLatin 1-9 code pages as supported), every history of reader calls and every chunking of the bytes.",
 "Tests read a few characters with one fixed call order and no chunk boundary inside a character.",
 ["textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp","codepages.hpp","cstringiterator.hpp"],
 [("partial character buffer","TextScanner"),("encode/decode per character set","charset_*::value/print/skip/fetchbytes")],
 ["TextScanner::operator*, chr, control, ascii, copychar, ++"])
p("C04","Stream faults surface and never corrupt what was already read",
 "If reading from an input stream fails at any point, the reader gets a file read exception with the system error of the failure, after having received exactly the elements and characters of the bytes delivered before the failure, and never a regular end of data. Short reads are no errors, and no resource is leaked and no invalid memory touched after a failed read, however the reader is then used or destroyed. A stream object reports an error for exactly the reads that failed; after the caller repaired the stream it delivers what follows.",
 ["fault_sequences","inputs","schedules"],
 "Every document, stream kind, buffer size, sequence of short reads and every position and kind of a read failure.",
 "No test makes a stream fail; real streams do not fail at a chosen byte on request.",
 ["istreamiterator.hpp","exception.hpp","textscanner.hpp","xmlscanner.hpp"],
 [("IStream::errorcode check after each read","IStreamIterator::fillbuf"),("exception translation","StdInputStream::read")],
 ["exception type, cause and text","items before the exception"])
p("C05","Damaged or truncated input ends in a bounded, reported and safe way",
 "Whatever bytes the input consists of and wherever it is cut off, a scan terminates after a number of steps bounded by the input length, reports either an error or an unexpected end for documents that are not complete, never a regular end of the document in the middle of an open construct (a character cut off at the end counts as completed with zero bytes), and never reads outside the bytes delivered. The elements reported before the damage are those of the undamaged document, and which elements are reported does not depend on the types whose content is masked out (except that an undefined entity in a masked content is not looked up).",
 ["inputs","crash_points","fault_sequences"],
 "Every truncation point, every flipped, dropped, duplicated or inserted byte in every document, encoding and delivery.",
 "Tests contain a few broken documents; truncation at every byte with every delivery is not sampled.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","cstringiterator.hpp","sourceiterator.hpp"],
 [("end of text detection in the state machine","XMLScanner::nextItem"),("sequence checks","charset value")],
 ["ErrorOccurred/Exit items","tokens count","memory checker"])
p("C06","Path selection reports exactly the selected items",
 "For every set of path expressions (defined through the builder calls or as expression strings) and every balanced document, the selection reports, per element of the document and in document order, exactly those types whose expression selects that element, as often as expressions select it. This holds for any delivery of the document, for several selections interleaved over one shared set of expressions, index ranges given in several calls select their intersection, and a rejected expression changes nothing. An expression string is rejected exactly if it is not of the documented language, with the position of the first character that cannot belong to an expression. The states reported as waiting when an element was just opened (getTokenTypeMatchingStates, getEmmitedTokens) announce what its first items can select and, for unbounded selections, what they do select.",
 ["inputs","programs","histories","schedules"],
 "Every set of expressions of the documented language, every balanced document, every delivery and interleaving of several selections.",
 "The tests run fixed expression lists over fixed documents in one piece.",
 ["xmlpathautomaton.hpp","xmlpathautomatonparse.hpp","xmlpathselect.hpp","xmlscanner.hpp"],
 [("scope stack and active tokens","XMLPathSelect"),("automaton construction","XMLPathSelectAutomaton::PathElement"),("expression parser","XMLPathSelectAutomatonParser::addExpression")],
 ["XMLPathSelect::iterator elements"],
 [("scopestk/tokens/triggers/follows","what is being matched in the open scopes","XMLPathSelect")])
p("C07","Header detection is independent of how the header arrives",
 "Feeding the start of a document to the header parser in pieces of any size gives the same result as feeding it at once: more data is requested exactly until the header is complete (or known to be missing), and then the declared encoding, or none, is reported and never changes. The count of characters consumed is that of the non-blank characters read up to the verdict. A malformed header is reported as an error, once and with the same message for every delivery, and nothing outside the fed bytes is read.",
 ["inputs","schedules","fault_sequences"],
 "Every header spelling, one to four byte wide encodings, damaged headers and every splitting into pieces.",
 "Tests feed a few headers in one piece or byte by byte.",
 ["xmlhdrparser.hpp"],
 [("resumable state machine","XmlHdrParser::parse")],
 ["XmlHdrParser::parse, encoding, lasterror, charsConsumed"])
p("C08","Printed documents are well formed and read back unchanged",
 "A sequence of printing calls that the printer accepts yields a document which a scan in the same encoding reads back as exactly the tags, attributes, values and contents printed. A call that is not allowed in the current state is rejected with an error message, emits nothing and changes nothing: the calls after it continue as if it had not been made.",
 ["histories","inputs","configurations"],
 "Every history of legal and illegal printing calls with every content and every application and output encoding, read back under any delivery.",
 "Tests print a few fixed documents and hardly any illegal call.",
 ["xmlprinter.hpp","xmltagstack.hpp","xmlscanner.hpp","staticbuffer.hpp"],
 [("printer state machine","XMLPrinter::m_state"),("tag stack","TagStack")],
 ["output buffer","return values, XMLPrinter::lasterror"])
p("C09","A bounded or failing sink never yields an unnoticed partial result",
 "Writing output to a fixed-size buffer or a failing output stream either produces the complete result or is reported as overflow or stream failure; what the buffer holds is always a prefix of the complete result and nothing outside it is written or read. Once full or failed the sink stays so until it is cleared. This includes arrays and characters appended to the stream output directly.",
 ["fault_sequences","inputs","histories"],
 "Every result, every buffer size from zero up and every point of failure of an output stream, for scanning, selecting, printing and copying characters.",
 "Tests use buffers that are large enough or test the buffer alone.",
 ["staticbuffer.hpp","xmlscanner.hpp","xmlprinter.hpp","textscanner.hpp"],
 [("capacity check and overflow flag","StaticBuffer::push_back/resize"),("stream state","std::ostream sink")],
 ["StaticBuffer::overflow, size, ptr","bytes written"])
p("C10","A failed allocation leaves everything usable and nothing leaked",
 "If any memory allocation fails during scanning, selecting, copying, building expressions or printing, the failure is reported (by an exception or the documented error return) or the result is complete, what was delivered before it is correct, and no memory is leaked, freed twice or accessed after it was freed. After the failure every object can be destroyed, or reset (replaced) and used again with correct results; the original of a failed copy is not affected, and path expressions defined completely before the failure still select exactly what they did.",
 ["fault_sequences","histories"],
 "Every allocation of every history of calls failing once, repeatedly or from some point on.",
 "No test fails an allocation.",
 ["xmltagstack.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp","xmlpathselect.hpp","xmlprinter.hpp","xmlscanner.hpp","staticbuffer.hpp","istreamiterator.hpp","xmlhdrparser.hpp"],
 [("ownership in destructors, realloc handling","TagStack, StaticBuffer"),("containers with strong guarantees","std::vector/std::string members")],
 ["allocator accounting, memory checker, results after the failure"])
p("C11","Independent users of the library never disturb each other",
 "Scanners, selections, header parsers, readers and printers that do not share an object can be used by different threads under any interleaving, also when they share a finished set of path expressions or an entity map read-only, and also when they are the very first users in the process. Each of them gives the result it gives when it runs alone, and no unsynchronised conflicting access to shared memory happens.",
 ["schedules","inputs"],
 "Every interleaving of the memory accesses of several threads each running its own workload, including first use.",
 "All tests are single threaded.",
 ["xmlscanner.hpp","textscanner.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp","xmlpathselect.hpp","xmlprinter.hpp","xmlhdrparser.hpp","charset_isolatin.hpp","char.hpp","exception.hpp"],
 [("no shared mutable state except static tables initialised under the language's guards","XMLScanner::Statemachine, ControlCharMap")],
 ["results per thread, conflicting accesses"])
p("C12","A copy continues exactly like its original",
 "A copy (by construction or assignment) of a scanner, a selection, a set of path expressions, a header parser, a printer, a character reader or an output buffer, taken at any point of a history including in the middle of an element, gives from there on the same results as the original does. Using, changing or destroying one never influences the other, and all memory is released exactly once.",
 ["histories","inputs","schedules"],
 "Every object kind, every point in a history at which a copy is taken, every interleaving of the use of copy and original afterwards.",
 "The tests copy objects only before use, if at all.",
 ["xmlscanner.hpp","xmlpathselect.hpp","xmlhdrparser.hpp","xmlprinter.hpp","xmltagstack.hpp","staticbuffer.hpp","textscanner.hpp","sourceiterator.hpp","istreamiterator.hpp"],
 [("copy constructors and assignments","all classes above")],
 ["results of copy and original, allocator accounting"])
p("C13","Source positions are exact and independent of the delivery",
 "The position reported for an element with text (tag name, attribute name or value, content) is the byte offset of its first character in the document, the same for every splitting of the document into chunks. The position of the input never moves backwards and never passes the bytes delivered (apart from the end-of-data marker itself), and when the scan waits for more input the current chunk is consumed to its end, and when the end of the document is reported all of it has been passed. The characters, the position and the distance of copies of a source iterator are those of their offsets in the source, whatever the chunks or reads in between.",
 ["inputs","schedules"],
 "Every document, encoding and delivery schedule.",
 "Tests check positions, if at all, for one document fed in one piece.",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","istreamiterator.hpp","cstringiterator.hpp"],
 [("chunk base offset","SrcIterator::getPosition"),("token position","XMLScanner::getTokenPosition")],
 ["XMLScanner::getTokenPosition, getPosition"])
p("C14","Every element is reported as soon as its delimiter has arrived",
 "When the bytes of a document are fed in pieces as they arrive, each element is reported without waiting for input beyond the character that delimits it: a closing tag, a tag end or a quoted value at its last character, a content at the next tag's start. Reading through an input stream needs at most one read beyond that, so a peer that waits for the element before it sends more than that never waits forever.",
 ["inputs","schedules"],
 "Every document and encoding, delivered in pieces of any size.",
 "Tests look at what is reported, not at how much input was needed for it.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","sourceiterator.hpp","istreamiterator.hpp"],
 [("lazy fetching of characters","TextScanner::getcode"),("token end detection","XMLScanner::nextItem")],
 ["number of bytes delivered when an item is reported"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
