#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return value of the parse call", "reader position after the call"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IMPL="binread/src/binread_impls.rs"; LIB="binread/src/lib.rs"; ERR="binread/src/error.rs"; PTR="binread/src/file_ptr.rs"
HELP="binread/src/helpers.rs"; STR="binread/src/strings.rs"; PUN="binread/src/punctuated.rs"; POSV="binread/src/pos_value.rs"
NOSTD="binread/src/io/no_std.rs"; CUR="binread/src/io/cursor.rs"; IOERR="binread/src/io/error.rs"; IOM="binread/src/io/mod.rs"
TPL="binread/src/binary_template.rs"; PRIV="binread/src/private.rs"; OPT="binread/src/options.rs"
CG="binread_derive/src/codegen/read_options.rs"; CGS="binread_derive/src/codegen/read_options/struct.rs"
CGE="binread_derive/src/codegen/read_options/enum.rs"; CGD="binread_derive/src/codegen/read_options/debug_template.rs"
TOP="binread_derive/src/parser/top_level_attrs.rs"; FLD="binread_derive/src/parser/field_level_attrs.rs"; PM="binread_derive/src/parser/mod.rs"

p("C01","How the reader delivers its bytes never changes the result",
  "For every format, input and starting position, a parse returns the same value or the same error and leaves the reader at the same position no matter how the reader delivers its data: reads that return fewer bytes than asked for (down to one at a time) and reads that fail with `Interrupted` any number of times are invisible to the caller. This holds for numbers, containers, strings, repetition helpers, file pointers and derived types, with and without `std`.",
  ["schedules","inputs","configurations"],
  "every assignment of a delivered length (1..requested) or an Interrupted failure to every individual read call, for every format and input",
  "All existing parse tests read from an in-memory cursor that always delivers everything at once; only two no_std unit tests ever interrupt a read, once.",
  [IMPL,STR,HELP,NOSTD],[("read_exact retry loop",NOSTD),("read_exact into a fixed buffer",IMPL),("byte iterator used by null-terminated strings",STR),("read_bytes",HELP)])
p("C02","A failed parse puts the reader back where it started",
  "Whenever parsing a derived struct or enum, or a single number, fails for any reason (bad magic, failed assertion or pre-assertion, failed try_map, no matching variant, end of data, an error from any read or seek), the reader is left at the position where that parse began, unless the repositioning seek itself failed. This holds at every nesting level and from any starting position, so the caller can try another format at the same place.",
  ["inputs","fault_sequences","crash_points"],
  "every format, every failure cause and every reader call at which an injected read or seek error can strike, including several errors in one parse",
  "Existing rewind tests check five hand-picked failures on an in-memory cursor; none makes a reader call fail, none looks inside nested parses.",
  [CG,CGE,IMPL],[("outer save/rewind wrapper around every derived parse",CG),("rewind between enum variants",CGE),("number reads restore the position on error",IMPL)])
p("C03","Retrying after transient faults reads every record exactly once",
  "When a sequence of records is read from one reader and a read or seek fails transiently in the middle of a record, repeating the same call after the fault has cleared yields exactly the record the undisturbed run would have produced. Over a whole history of faults and retries the caller therefore sees every record exactly once, in order and intact, and as soon as faults stop the stream is finished within a bounded number of reader calls.",
  ["histories","fault_sequences","schedules"],
  "every sequence of records whose format declares no alternatives, every placement of transient read/seek errors (in the parse as well as in its cleanup), every retry history",
  "No test calls a parser again on a reader after a failure, and none uses a reader that fails and recovers.",
  [CG,IMPL,CGS,PTR],[("position restored on failure so the call can be repeated",CG),("number reads restore the position on error",IMPL),("file pointer targets are read after the record and the position restored",PTR)],
  observe=["sequence of returned records","reader position between calls"])
p("C04","Reader errors reach the caller unchanged and are never swallowed",
  "If a read or seek performed on behalf of a parse fails with an error other than an interruption, the parse does not succeed: it returns an `Io` error carrying that very error (same kind and, with std, same payload). The only exceptions are constructs that declare an alternative: a `try` field becomes `None`, a data-carrying enum goes on to its next variant and lists the error under the failing variant's name if no variant succeeds, and read-until-end-of-file stops only at a genuine end of file.",
  ["fault_sequences","inputs","configurations"],
  "every reader call of every parse as the point of failure, every error kind, every format",
  "Tests never inject an error into a parse; only end of data on a cursor is exercised, and only as `is_err`.",
  [ERR,HELP,PTR,CGS,CGE,STR,PRIV],[("From<io::Error> for the crate error",ERR),("until_eof distinguishes end of file from other errors",HELP),("`?` on every generated read and seek",CGS),("per-variant error list",CGE)])
p("C05","Truncated input is never accepted as complete",
  "If the input ends before a byte that the parse needs, wherever it is cut, the parse fails with an end-of-file I/O error and never returns a value containing bytes that were not in the input; this includes null-terminated strings whose terminator is missing. Read-until-end-of-file returns exactly the items that are completely present before the cut and then stops, also when the items are enums (for an enum item cut in the middle the parse may instead fail, listing the variants), and it always terminates.",
  ["crash_points","inputs"],
  "every cut point of every valid encoding of every format (the writer crashed after an arbitrary prefix)",
  "Tests cut the input in four places in total and mostly assert only that something failed.",
  [IMPL,STR,HELP,NOSTD,PUN],[("exact reads",IMPL),("string terminator loop",STR),("until_eof stop condition",HELP),("UnexpectedEof from read_exact",NOSTD)])
p("C06","Numbers are decoded at full width in the declared byte order",
  "Every number in a successfully returned value equals the bytes at its position, all of its width, decoded in the byte order given by the highest-precedence directive: field (including `is_big`/`is_little` conditions on data already read), then enum variant, then type, then the order requested by the caller, then the host's. A type-level byte order applies even when the type is embedded or called with another order, also when the type is read through `map`, and an embedded value without its own directive inherits the order of the field that holds it; neither faults nor delivery schedules ever change it.",
  ["inputs","programs","schedules"],
  "every combination of byte-order directives over nested types, containers and pointers, every requested order, every input, any delivery schedule",
  "Tests fix a handful of directive combinations at depth one or two with constants that often read the same in both orders.",
  [IMPL,CG,TOP,OPT,LIB,STR],[("decode by options.endian",IMPL),("endian setter in generated options",CG),("variant overrides enum byte order",TOP),("entry points set the requested order",LIB)])
p("C07","Positioning directives put the reader exactly where they say",
  "Padding, alignment, `seek_before`, `pad_size_to` and `restore_position` move the reader by exactly the declared amount relative to the actual stream position: fields are read from, and the reader is left at, the positions these directives define, in the order seek_before, pad_before, align_before, field, pad_size_to, pad_after, align_after. The result is the same from every starting position consistent with the alignment, for seeks forwards, backwards, relative to the end and beyond the end, and a seek to a negative position or a failing seek is an `Io` error, never a silently wrong position.",
  ["inputs","programs","fault_sequences","histories"],
  "every combination of positioning directives (constant or computed from earlier fields), every start position, every failing or short reader call",
  "Tests cover single directives from position 0 with small constants; combinations, data-dependent amounts, non-zero starts and failing seeks are not reached.",
  [CGS],[("generate_seek_before / generate_seek_after",CGS),("map_align, map_pad, wrap_save_restore",CGS)])
p("C08","Optional fields consume data only when they are present",
  "A field whose `if` condition is false reads nothing (not even its magic), leaves the reader where it was, and holds its alternate or default; a field whose condition is true is read normally; alternates are evaluated only when used. A `try` field holds the value if it parses, and otherwise - whatever the failure and however far it got - holds `None` and leaves the reader exactly where the field began, so that the next field reads from there.",
  ["inputs","fault_sequences","programs"],
  "every format with conditional and fallible fields, every input, and every read error or end of data striking inside such a field",
  "The `try` test never looks at the position after a partial failure and no test injects an error there; `if` tests use one byte.",
  [CGS,PRIV,IMPL],[("wrap_condition",CGS),("try_conversion",CGS),("try_after_parse",PRIV)])
p("C09","Enums pick the first variant that parses from a clean position",
  "A data-carrying enum returns the first variant, in declaration order, whose magic, pre-assertions, fields and assertions all succeed when read from the enum's own start position; nothing a failed variant read or moved influences later variants. If none succeeds the error lists, in order, every variant's name with its own error (or is a single no-match error if so declared); unit-only enums match on `repr` value or magic, honour the variants' pre-assertions and any type-level magic, and report no-match otherwise.",
  ["inputs","fault_sequences","programs"],
  "every enum shape, every input including ones on which early variants fail arbitrarily late, and read errors striking inside any variant",
  "Tests use two variants that differ in their first bytes; late failures after seeks, pointers or pre-assertions, and I/O errors inside variants are not exercised.",
  [CGE,TOP,CG],[("generate_data_enum tries variants in order with rewind",CGE),("generate_unit_enum_repr / _magic",CGE),("Enum::with_variant merges directives",TOP)])
p("C10","File pointers resolve to the right place and give the position back",
  "A file pointer, wherever it sits (field, option, box, array, vector, tuple, punctuated list, repetition helper, inside another pointer's target, or read directly through `read` and the reader methods), yields the value found at its declared base offset plus the stored pointer, read with the field's byte order, count and arguments, and afterwards the reader stands just after the record that held the pointer. Targets are read after all fields of the enclosing record, or immediately with `deref_now`, and `offset_after` may use fields read later. A pointer that cannot be represented or reached, or whose target cannot be read, is an error and never a value from another place.",
  ["inputs","programs","fault_sequences"],
  "every nesting of pointers with containers, offsets and widths, every pointer value including negative and huge ones, every failing call while following them",
  "Tests follow at most one level of pointer from valid data with small positive offsets.",
  [PTR,CGS,IMPL,HELP,PUN,PRIV],[("FilePtr after_parse",PTR),("containers forward after_parse",IMPL),("generated after_parse block with save/restore",CGS),("FilePtr::parse",PTR)])
p("C11","Validation accepts exactly the declared data and reports precisely",
  "A parse succeeds only if every magic, pre-assertion, assertion and try_map on its path holds, checked in declaration order, each before anything declared after it is read. Otherwise the error is the one belonging to the first failing check - bad magic with the position and value found, assertion failure with its message or custom value and the position of the enclosing value, or the error returned by the mapping function (as an `Io` error if it is one) - and message or error expressions of checks that hold are never evaluated.",
  ["inputs","programs","fault_sequences"],
  "every arrangement of checks over nested types, every input that makes any one of them fail at any depth, with read errors competing with the checks",
  "Tests make one check fail at a time, at position 0, in one-field types.",
  [CG,ERR,PRIV,CGS,TOP],[("get_assertions / get_magic / get_map_err",CG),("magic()",ERR),("assert()",PRIV)])
p("C12","Counted and terminated sequences stop exactly at their boundary",
  "Counted sequences (`count`, the count helper, byte blocks, arrays, tuples, punctuated lists with and without trailing separators) contain exactly the declared number of items, and terminated ones (until, until-exclusive, null-terminated narrow and wide strings) end at the first item meeting the condition, kept or dropped as documented; items appear in stream order. The reader is left immediately after the last item or terminator consumed, for every count including zero and every input, whatever the delivery schedule.",
  ["inputs","programs","schedules"],
  "every item type, count and terminator position, nested sequences included, under every delivery schedule",
  "Doc examples read one short list each; boundary counts, nested sequences, position afterwards and fragmented delivery are not checked.",
  [HELP,IMPL,PUN,STR],[("count / until / until_exclusive / read_bytes",HELP),("Vec, array and tuple readers",IMPL),("Punctuated::separated and separated_trailing",PUN),("null-terminated readers",STR)])
p("C13","Hostile input cannot crash, hang or exhaust memory",
  "For arbitrary bytes and arbitrary reader failures, parsing any format returns a value or an error: it does not panic (other than for a sequence type that was given no count at all), overflow, abort or loop. Memory requested stays within a constant factor of the bytes actually available however large the lengths, counts, pointers, paddings and alignments in the data are, and, for repeated items that occupy at least one byte, the number of reader calls is bounded by the size of the format and of the data.",
  ["inputs","fault_sequences","programs"],
  "every byte string, every length/offset/alignment value in it, any sequence of reader failures, for formats that trust these values",
  "No test feeds corrupt lengths or offsets; allocation and termination are never observed.",
  [HELP,PUN,IMPL,CGS,PTR,STR,CUR],[("incremental growth while reading",HELP),("signed position arithmetic in positioning code",CGS),("IntoSeekFrom conversions",PTR)],
  observe=["panics and aborts","bytes requested from the allocator","number of reader calls"])
p("C14","The no_std I/O layer behaves like std::io",
  "Without `std`, the crate's own cursor, seek, exact-read, byte-iterator and by-reference adaptors give, for every history of operations on every buffer and on any reader that delivers short, is interrupted, ends or fails, the same data, the same positions and the same error kinds as their `std::io` counterparts. In particular all three seek origins work, seeking before the start or past the representable range is an error that leaves the position alone, and seeking beyond the end is allowed.",
  ["histories","inputs","fault_sequences","schedules"],
  "every sequence of read/read_exact/bytes/seek/set_position/by_ref calls with any arguments, on cursors and on faulty readers",
  "One unit test compares seven calls with std; seeks from the end or to invalid positions are not among them.",
  [CUR,NOSTD,IOERR,IOM],[("Cursor Read and Seek",CUR),("Read::read_exact, Bytes, &mut R forwarding",NOSTD),("StreamPosition",IOM)],
  state=[("pos","cursor position",CUR)], observe=["return values of every operation","cursor position","bytes delivered"])
p("C15","All feature sets parse identically",
  "For every format, input and pattern of unreadable data, the crate built with default features, with all features (const generics and debug templates) and without `std` returns the same value or the same error and leaves the reader at the same position. Writing a debug template, or having one whose sink fails, never changes a parse.",
  ["configurations","inputs","fault_sequences"],
  "every format, input and media fault in each of the three feature sets the project tests, with and without an active template sink",
  "The suite runs the same few examples under each feature set but never compares results, and never with a template sink or with failing readers.",
  [IMPL,STR,PTR,ERR,TPL,CGD,NOSTD],[("cfg-dependent array readers",IMPL),("debug_template blocks in readers",STR),("generated error hooks",CGD),("template functions ignore sink errors",TPL)])
p("C16","Debug templates are truthful and untorn under concurrency",
  "When several threads parse while a debug template is being written, every record appears in the output as one contiguous block, naming the byte order and the position at which that thread read that item; the output contains exactly the records the same parses produce alone, each thread's in its own order, and automatically numbered names are never issued twice. Replacing or removing the output at any moment moves whole records only: each goes entirely to the old or entirely to the new output.",
  ["schedules","histories","inputs"],
  "every interleaving of the parsing threads' reader calls and template writes, every moment at which the output is switched or fails",
  "No test ever activates a template; none is multi-threaded.",
  [TPL,IMPL,STR,PTR],[("global output mutex",TPL),("atomic name and struct counters",TPL),("position taken before the read",IMPL)],
  state=[("FILE","current template output, shared by all threads",TPL),("CURRENT_VAR_NUM / CURRENT_STRUCT_NUM","name counters",TPL)],
  observe=["bytes received by the template output"], hook="yield points at the template's lock and counters so that the simulator decides who runs (cfg binread_sim)")
p("C17","Concurrent, interleaved and re-entrant parses do not influence each other",
  "Any number of parses in progress at once - on several threads, or nested because a reader or a custom parser itself parses something - each returns the value or error, and leaves its own reader at the position, that it would have on its own, for every interleaving of their reader calls and for every failure of one of them. Values parsed earlier, and failed or abandoned (panicking) parses, never affect a later parse.",
  ["schedules","histories","fault_sequences"],
  "every interleaving at reader-call granularity of several parses, every nesting, every point at which one of them fails or panics",
  "All tests run one parse at a time to completion and no reader used by them calls back into the crate.",
  [LIB,IMPL,CG,HELP,TPL],[("all parse state lives in the reader, options and stack frame",LIB),("ReadOptions passed by value/reference, never stored globally",CG)])
p("C18","Field data flow: arguments, maps and computed values see what was read",
  "Arguments, counts, conditions, maps, calculated values and custom parsers see exactly the values of the fields and imports declared before them, in the same parse; each field is read exactly once, in declaration order; temporary fields are read but not stored; recorded positions equal the stream position at which their value starts. Whatever fails or is retried on the way, a returned value is consistent: every computed part corresponds to the data parts returned with it.",
  ["inputs","programs","fault_sequences"],
  "every arrangement of imports, arguments, maps, calculations, defaults, temporaries and position-recording fields, every input and fault",
  "Tests use one argument or map at a time on constant data.",
  [CG,CGS,POSV,FLD,"binread_derive/src/lib.rs"],[("args and options are bound before the read",CGS),("import destructuring",CG),("PosValue",POSV),("temp fields removed from the type",FLD)])
p("C19","Contradictory or unknown directives are rejected at compile time",
  "A type whose directives are unknown, malformed, repeated or contradictory does not compile, and all independent mistakes in one type are reported together. Every documented spelling of a directive is accepted.",
  ["programs"],"every annotated type definition",
  "UI tests sample about thirty definitions.",
  ["binread_derive/src/parser/mod.rs",TOP,FLD,"binread_derive/src/parser/meta_types.rs","binread_derive/src/parser/macros.rs"],
  [("attr_struct/parse_any macros and TrySet","binread_derive/src/parser/macros.rs")], observe=["compiler diagnostics"])
p("C20","Converting parsed strings and values to text is total and faithful",
  "Converting a parsed null-terminated string to text never fails, is exact for valid UTF-8/UTF-16, and replaces only invalid units otherwise; the lossless conversions fail exactly on invalid input.",
  ["inputs"],"every string content","Tests convert four ASCII strings.",
  [STR],[("into_string, into_string_lossless, ToString",STR)], observe=["returned strings"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print("written",len(P))
