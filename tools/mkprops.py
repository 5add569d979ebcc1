#!/usr/bin/env python3
# Writes properties.jsonl (one JSON object per line) from the table below.
import json, os
J="include/configor/json.hpp"; V="include/configor/details/value.hpp"; P="include/configor/details/parser.hpp"
S="include/configor/details/serializer.hpp"; T="include/configor/details/stream.hpp"; C="include/configor/details/conversion.hpp"
W="include/configor/details/wrapper.hpp"; E="include/configor/details/encoding.hpp"; X="include/configor/details/exception.hpp"; I="include/configor/details/iterator.hpp"
def m(n,w): return {"name":n,"where":w}
P_=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P_.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":observe,"hook_needed":hook}})

prop("C01","A dump that reports no error delivered the whole document",
 "If dumping or streaming out a value (to a string, an output stream, an output adapter, narrow or wide) ends without an exception, without a call to the installed error handler and with the caller's stream still good, then the sink received exactly the characters a healthy sink receives for that value and those options. If the sink fails at any point (write refused, short write, exception, allocation failure), the failure is reported by one of those three means. Whatever was delivered before the failure is an exact prefix of the healthy text.",
 ["fault_sequences","inputs","configurations"],
 "every value, every formatting/encoding option, every sink kind and every point at which the sink or an allocation fails, once or persistently",
 "The tests only ever write to healthy std::stringstream / std::string / push_back adapters; no test makes a sink fail, and a failure can happen at any of the characters of any document.",
 [S,J,T,W],[m("serializer writes through its own ostream over the caller's buffer; stream state checked after the document",S),m("string/adapter output buffers",T),m("operator<< wrapper",W)],
 ["json::dump(os,v)","json::dump(v)","os << json::wrap(x)","oadapterstream"])
prop("C02","A read error is never taken for the end of the document",
 "If the source of a parse or stream-in (stream buffer, C FILE, input adapter, narrow or wide) raises a read error at any point while it is being read, the operation reports a failure: an exception, a call to the installed error handler, or a failed caller's stream. It never returns successfully with the value of a truncated or patched-together document, also when the error is transient and more data would follow.",
 ["fault_sequences","inputs"],
 "every document, every source kind and every point (before, inside and after the document) at which one or more read errors occur",
 "The tests read healthy strings and files only; no test makes a read fail, and for scalars or complete documents a swallowed error yields a plausible value.",
 [T,P,J,W],[m("FILE/adapter stream buffers map source errors to stream state",T),m("read_next checks the stream state after each decoded code point",J),m("operator>> wrapper and its sentry",W)],
 ["json::parse(FILE*)","json::parse(is)","in >> json::wrap(x)","iadapterstream"])
prop("C03","Parse result depends only on the bytes, not on source or chunking",
 "For one sequence of characters, valid or not, a parse gives the same outcome (same value, or failure) whether it comes from a std::string, a C string, an input stream with any buffering, a C FILE with any buffering, an input adapter, or operator>>; and however the source splits it into reads. This holds for narrow and wide sources, with the default and with user-supplied encodings, and for embedded NUL characters in every source that can carry them.",
 ["inputs","configurations","fault_sequences"],
 "every character sequence, every source kind, every split of the sequence into short reads and buffer refills",
 "Each test parses one literal from one source; none splits reads, and none compares sources on the same malformed or NUL-containing bytes.",
 [T,P,J,E],[m("string, buffer, cfile and adapter stream buffers (underflow/uflow/xsgetn)",T),m("parse overloads per source",P)],
 ["json::parse overloads","in >> json::wrap(v)"])
prop("C04","An acknowledged save loads back equal; a torn save never loads",
 "A value (finite floats, valid Unicode text) whose dump was acknowledged and fully stored loads back as an equal value with any whitespace formatting, unicode-escaping and UTF encoding choice, through any sink and any source, narrow or wide, over any history of saves, failed saves, retries, crashes and reloads. If a crash leaves only a proper prefix of a saved array, object or string (with or without a zero-filled tail), loading it reports an error instead of yielding a value.",
 ["crash_points","inputs","histories","configurations"],
 "every value, every option combination, every history of saves and every crash point inside a save",
 "The tests dump a handful of documents and never reload most of them; none covers control characters, escapes below U+1000, extreme numbers, or a file cut at every possible point.",
 [J,S,P,E,T],[m("string escaping and number formatting",J),m("token state machine of the parser",P),m("UTF-8/16/32 encode and decode",E)],
 ["json::dump","json::parse"])
prop("C05","A damaged document is rejected or read as exactly what it says",
 "For any document damaged in storage or transfer (flipped, lost, duplicated, swapped, zeroed or truncated bytes), parsing either fails with a deserialization error or yields exactly the value that the remaining bytes denote under the accepted grammar (JSON plus comments, trailing commas and a leading plus sign; first of duplicate keys wins) and well-formed UTF-8 (three-byte encodings of surrogates are let through). It never aborts, crashes, hangs, reads outside the input, or silently turns damaged digits, literals, escapes, separators or multi-byte characters into other data (integers out of range are an error). If memory runs out during a parse, it likewise fails or yields exactly that value.",
 ["fault_sequences","inputs"],
 "every document and every sequence of byte-level damage to it (nesting depth bounded by the call stack)",
 "test_parse_error lists about thirty malformed literals; damage can hit any byte of any document and the interesting cases (cut after a sign, lost colon, swallowed quote) are not among them.",
 [J,P,E],[m("scan_number/scan_string/scan_literal/skip_comments",J),m("do_parse grammar",P),m("utf8::decode",E)],
 ["json::parse"])
prop("C06","Error policy: every failure reaches the handler exactly once",
 "When a parse or dump with an installed error handler fails (malformed or undecodable text at any position including the first character, a failed read or write, unencodable text), the handler is called exactly once with the very error that would be thrown without a handler, and a handler that returns makes the operation return normally: ignore never throws, record keeps a non-empty message equal to the error's, strict rethrows. A successful operation never calls the handler, and an exception raised by the handler itself reaches the caller.",
 ["fault_sequences","inputs","configurations"],
 "every failing or succeeding document, every fault position, every policy and every API form that takes options",
 "test_error_policy uses a single malformed character with three policies; whether the policy also covers the first decoded character, I/O faults or the last character is outside what it samples.",
 [P,S,J,X],[m("catch(...) in parse and dump dispatches to error_handler::handle",P),m("same for the serializer",S),m("error_handler_with<policy>",X)],
 ["json::parser::with_error_handler","json::serializer::with_error_handler"])
prop("C07","No failure leaks, double-frees or corrupts memory",
 "Whatever sequence of operations runs on values (construction from any supported type, copy, move, assignment, insertion, erasure, conversion, comparison, parse, dump) and whichever allocation, user conversion hook, adapter or stream call fails inside them, once all values are destroyed every allocation has been released exactly once. No operation touches freed or out-of-bounds memory, and every value stays valid: it can still be inspected, assigned to and destroyed after the failure.",
 ["fault_sequences","histories"],
 "every operation history and every placement of failing allocations and throwing user callbacks in it",
 "No test makes an allocation or a user hook fail, and leaks are not observed by the tests at all.",
 [V,C,P,S],[m("value_constructor create_data/destroy/reset",V),m("converting constructor and copy-and-swap assignment",V),m("to_value/from_value for containers",C)],
 ["operator new/delete","basic_value API"])
prop("C08","A value behaves as a plain container model, also across failures",
 "Over any history of element access, insertion, erasure, iteration, lookup, clearing, copying, moving, swapping and assignment, a value behaves as the obvious model (null, scalar, string, vector, ordered map with unique keys): same contents, sizes, iteration order, results and error kinds; copies are independent of their originals; a moved-from value is null. If an operation fails (wrong type, missing key, allocation failure), its operands keep their previous contents, except that a null target may have become the empty container it was about to be.",
 ["histories","fault_sequences"],
 "every history of container operations on several values, aliasing included, with allocation failures injected at any point",
 "The tests run short fixed sequences without failures; aliasing (inserting a value into itself, moving from its own child) and the state after a failed operation are not sampled.",
 [V,I],[m("copy-and-swap assignment, auto-promotion of null, at/operator[]",V),m("iterator, reverse_iterator",I)],
 ["basic_value API"])
prop("C09","Concurrent use of separate or shared-const values does not interfere",
 "Threads that parse, dump, convert, copy, compare and iterate concurrently, each on its own values, streams, adapters and handlers, or all reading one shared value through const operations, each obtain exactly the result they would obtain running alone, under every interleaving. A shared value that is only read is never modified by those reads.",
 ["schedules","inputs"],
 "every interleaving of several threads' operations, preempted at any point inside the library, also while other threads hit failures",
 "The test suite is single-threaded; interference through hidden shared state shows only for particular interleavings.",
 [J,P,S,T,V,E],[m("no shared mutable state: per-call parser/serializer objects and stream buffers",J),m("function-local static stateless allocators",V)],
 ["all public operations"])
prop("C10","User callbacks may re-enter the library without disturbing it",
 "Any user code the library calls (stream buffers, input/output adapters, error handlers, to_value/from_value hooks, custom encodings) may itself call the library, at any depth and at any moment of the outer operation. Both the nested and the outer operation give the results they give on their own, also if the nested one fails and its exception is handled inside the callback.",
 ["schedules","inputs"],
 "every point at which the library calls user code and every nested operation started there, including failing ones",
 "No test calls the library from inside a callback other than plain field conversions.",
 [J,P,S,T,C],[m("per-call parser/serializer state",J),m("callbacks through adapters, encodings, handlers and binders",T)],
 ["iadapter::read","oadapter::write","streambuf virtuals","error_handler::handle","to_value/from_value"])
prop("C11","Ambient locale and stream flags never leak into or out of the text",
 "The characters written for a value and the value read from a text depend only on the documented knobs (stream width, fill, precision, float format; options): never on the process's global locale, on a locale imbued in the caller's stream, or on its integer base, sign, base-prefix, case, adjustment or decimal-point flags, even if the global locale changes in the middle of an operation. An operation leaves the caller's stream flags, precision, fill, locale and exception mask as they were, and two dumps to one stream produce the same text except that width applies once. (A locale whose ctype facet redefines the basic characters is out of scope: that facet is the caller's own.)",
 ["configurations","schedules","inputs"],
 "every combination of global and stream locale (digit grouping, decimal comma), stream flags, and every moment at which the global locale changes",
 "All tests run in the classic locale with default flags except fixed/precision/width.",
 [P,S,J],[m("private stream imbued with classic numeric facets",S),m("hand-written number scanner",J)],
 ["json::dump(os,v)","os << json::wrap(v)","json::parse"])
prop("C12","Parsing always terminates soon after its source ends",
 "For every source, healthy, malformed, cut short or failing, a parse finishes within a bounded number of steps once the source has signalled its end (end of file, an error, or the terminating NUL of an adapter): it performs only a handful of further reads, whatever construct (comment, string, number, nesting) was open at that moment. Until then it requests each unit of the source exactly once and in order.",
 ["fault_sequences","inputs"],
 "every source content and kind and every point at which the source ends or starts failing",
 "The tests end inputs at a few fixed places; a loop that spins after the end shows only for particular open constructs and source kinds.",
 [J,P,T],[m("eof/NUL checks in skip_comments, scan_string, scan",J),m("one-character look-ahead buffers",T)],
 ["iadapter::read calls","streambuf underflow/uflow calls","library steps"])
prop("C13","Conversions are all-or-reported, also when something fails inside",
 "Converting between values and C++ types (arithmetic, strings, smart pointers, arrays, sequences, sets, maps, bound structs, nested) round-trips, and if any part fails on the way (allocation, a throwing user hook, a mismatching element at any depth of a container, a missing required field) the failure is reported: an exception, or false from the try-get form. A conversion never reports success with part of the data missing because of an allocation failure, its source is never modified, a successful conversion into an existing container replaces the old elements, and a failed typed stream-in leaves its target untouched. (By design: in a bound struct a field that is present but does not convert keeps its value; an absent OPTIONAL field keeps its value; fixed-size arrays take the first min(size, N) elements; what null or an empty container becomes in a target of another shape is not specified.)",
 ["fault_sequences","inputs"],
 "every nested type/value pair and every point at which an allocation, hook or element conversion fails",
 "The conversion tests use matching data and never fail inside a conversion.",
 [C,V,W],[m("to_value/from_value overloads",C),m("get<T>() and try-get get(T&)",V),m("CONFIGOR_BIND field macros",C),m("operator>> converts into a temporary",W)],
 ["basic_value(T)","get<T>()","get(T&)","in >> json::wrap(x)"])
prop("C14","Adapter streams carry the adapter's characters exactly",
 "Reading a stream over an input adapter with any mix of standard input operations (get, peek, read, getline, ignore, extraction) yields exactly the adapter's characters, each once and in order, with the standard return values and counts, for every character value other than the adapter's end marker; writing any mix of characters and blocks to a stream over an output adapter delivers exactly those characters in order. If the adapter throws, the stream goes bad and no character delivered before is lost, repeated or altered.",
 ["histories","fault_sequences"],
 "every sequence of stream operations, every character content (NUL and non-ASCII included), narrow and wide, and every call at which the adapter fails",
 "test_adapter uses one fixed sequence of get/peek calls on ASCII text and never lets an adapter fail.",
 [T],[m("basic_iadapterstream::streambuf",T),m("basic_oadapterstream::streambuf",T)],
 ["iadapterstream","oadapterstream"])
prop("C15","Comparison operators are mutually consistent",
 "For any two values the six comparison operators agree with each other: != negates ==, <= and >= negate the reverse strict order, integers and floats compare by numeric value, containers compare lexicographically.",
 ["inputs"],"every pair of values","test_compare compares a few scalars.",[V],[m("friend comparison operators",V)],["operator==, <, <=, >, >="])
prop("C16","Decimal numbers are read and written to the promised accuracy",
 "A decimal literal within the range of double is read with a relative error of a few ulps, and a float is written with the requested precision and format.",
 ["inputs"],"every decimal literal and every double","The tests use Approx on about twenty literals.",[J],[m("scan_float/scan_exponent/put_float",J)],["json::parse","json::dump"])
prop("C17","Container and scalar types can be replaced through template arguments",
 "A value type instantiated with other conforming integer, float, string, array, map, allocator and binder types offers the same API with the same meaning as the shipped value types, through any history of operations and failures: documents are read and written and C++ values converted alike, objects iterate in the order of their map, integer literals beyond the replaced integer type are refused and never silently changed, a failed operation has no effect, and every block goes back to the replaced allocator with its size.",
 ["programs","histories","fault_sequences"],"every conforming set of template arguments (five sets that replace each of them are run), every sequence of operations and every allocation or I/O call that may fail","One test instantiates one insertion-ordered map and stores a few values.",[V,J,C,S],[m("basic_value<_Args>",V),m("json_parser::scan_integer/scan_string",J),m("to_value/from_value",C),m("fast_string_ostreambuf/fast_string_istreambuf",S)],["basic_value<Args>","basic_json<Args>"])
prop("C18","Every text is laid out by its own knobs alone, whatever was dumped before",
 "In any series of dumps, each text is exactly what its own formatting knobs ask for. The knobs are the options (later ones override earlier ones), else the caller's stream: width as indentation step (up to 255), fill as indentation character, precision and float format; a string has none. With step 0 there is no whitespace outside strings. With step n every element, every member and every closing bracket (also of an empty container) starts a new line, indented by n times its depth, and one indentation character follows each colon. Quote, backslash and control characters are always escaped, characters from U+007F up only with unicode escaping (\\uXXXX with four upper-case digits, surrogate pairs beyond U+FFFF), nothing else ever. Integral floats below 2^63 end in '.0'; other finite floats appear as a standard stream prints them with that precision and format (hexfloat counts as the general format). This holds for every value, depth, sink and encoding, for option objects that are used again, and after earlier dumps that failed (device, allocation, text that cannot be decoded); a dump leaves precision, fill and float format of the stream as they were and its width 0.",
 ["histories","inputs","configurations","fault_sequences"],"every value, every combination of knobs and every series of succeeding and failing dumps before it","The tests compare about ten short texts, each dumped once to a fresh stream with one or two knobs set.",[S,J],[m("indent",S),m("json_serializer::next/put_string/put_float, options",J),m("stream width/fill/precision taken over in the constructor",J)],["json::dump(os,v,options)","json::dump(v,options)","os << json::wrap(v)"])
prop("C19","Text crosses every encoding unchanged, or is refused",
 "Whatever encodings are chosen for a text and for the strings inside a value (utf8, utf16, utf32, auto, ignore, user-supplied; narrow and wide; source and target set alone, together or overridden), every key and string that a parse or dump moves arrives as exactly the same characters, written as the target encoding writes them. Units that do not form a character of the source encoding (damaged, cut short, overlong, out of range, too large for its unit size) and characters that the target encoding refuses or cannot write are reported, wherever they stand and whatever was moved before: they are never dropped, patched or taken for other characters, also not when a device or an allocation fails on the way. Sound text is never refused. (Not judged: lone surrogates, what `ignore` makes of units beyond ASCII, and user encodings that write ASCII differently on the target side of a parse.)",
 ["inputs","configurations","fault_sequences","histories"],
 "every text and string, every pair of encodings and character types, every damage to either, and every point at which an encoding, a device or an allocation refuses",
 "The tests convert a handful of sound strings between three encodings.",
 [E,J,P,S],[m("utf8/utf16/utf32/ignore encode and decode",E),m("scan_string, put_string, with_source_encoding/with_target_encoding/with_encoding",J)],
 ["json::parse with encoding options","json::dump with encoding options"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P_: f.write(json.dumps(p,ensure_ascii=False)+"\n")
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P_:
        jsonschema.validate(p,sch)
except ImportError:
    pass
print(len(P_))
