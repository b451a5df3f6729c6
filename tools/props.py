#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PARSER="src/internals/parser.rs"; OBJ="src/internals/objects.rs"; PRIM="src/internals/primitives.rs"
TOML="src/internals/toml.rs"; UTIL="src/internals/util.rs"; AST="src/internals/ast/structs.rs"; TYPES="src/types.rs"; LIB="src/lib.rs"; KIT="src/bin/tomlkit.rs"

p("C01","Parsing then printing reproduces the input byte for byte",
  "For every input string, the text printed by the parser returned from parsing, followed by the leftover text carried by a Partial or PartialError result (nothing for Full and FullError), is byte-for-byte the input, including whitespace, comments, newline style, key and value spelling and order. Reading values and children never changes what is printed.",
  ["inputs"],"every UTF-8 string given to TOMLParser::parse, whatever the ParseResult",
  "The suite compares ~45 asset files and a handful of literals whose results are Full; it never checks the leftover of a Partial result and cannot sample the cross product of layouts, comment placements, newline styles and values.",
  [PARSER,TOML,OBJ,AST,LIB],[("Parser::parse leftover/root","src/internals/parser.rs parse"),("Display for the syntax tree","src/internals/ast/structs.rs"),("expression grammar","src/internals/toml.rs")],
  observe=["ParseResult","Display for TOMLParser"])

p("C02","No input or call sequence panics, aborts, hangs or corrupts memory",
  "For every input text (values nested at most 48 deep) and every sequence of public API calls on the resulting parser with any keys and any values built from the public types, each call returns normally: no panic, arithmetic overflow, stack overflow, endless loop or memory error. Printing the parser and every value obtained from it also returns normally.",
  ["inputs","histories"],"all UTF-8 texts with bounded nesting x all finite sequences of get_value, get_children, set_value, combine_*, Display and Value constructor/validate calls, keys and values drawn from anything the public types can express",
  "Tests only call the API on well-formed documents with existing scalar keys; panicking branches are reached by hostile combinations of table headers, empty containers and type-changing updates that no test contains.",
  [PARSER,OBJ,PRIM,AST,TYPES],[("explicit panic!/unwrap/index sites","src/internals/*.rs"),("Display index arithmetic","src/internals/ast/structs.rs, src/types.rs"),("key map updates","src/internals/primitives.rs insert_keyval_into_map")])

p("C03","Looking a key up returns exactly the value written for it, or None",
  "For every document that obeys the format's rules (and so parses Full) and every key path of it (dotted table keys, quoted keys spelled with their quotes, [i] for array elements and arrays of tables), get_value returns exactly the value written at that path: same kind, same source text, same string type, elements and inline-table pairs in document order. For tables, arrays of tables and every path the document does not define it returns None.",
  ["inputs"],"all documents that obey the rules x all key paths, existing and not (neighbouring indexes, prefixes, misspellings, re-quoted keys)",
  "The tests look up a few dozen fixed paths in three fixed documents and none of the absent ones; the key map is built incrementally by a stateful table/array-of-tables tracker whose behaviour depends on the whole header history.",
  [PARSER,PRIM,OBJ],[("insert_keyval_into_map / get_full_key","src/internals/primitives.rs"),("table header tracking","src/internals/objects.rs std_table, array_table"),("get_value","src/internals/parser.rs")],
  state=[("map","full key path to value and children"),("last_array_tables, last_array_tables_index","open arrays of tables and their current index"),("keychain","key path of the value being parsed")])

p("C04","Children listings are exact, ordered and lead to every value",
  "For every document that obeys the format's rules (and so parses Full), get_children returns for the root (empty key), each table, implicit parent table, array-of-tables element and inline table exactly its direct sub-keys, each once, in order of first appearance, and for each array and array of tables exactly its element count (0 for scalars); it returns None for paths the document does not define. Consequently walking from the root by joining keys with combine_child_keys, combine_keys and combine_keys_index visits every value of the document exactly once and nothing else.",
  ["inputs"],"all documents that obey the rules x all key paths, plus the three combine functions over all key strings and indexes",
  "Tests check children of a few keys in fixed documents; they never walk a document or mix implicit tables, sub-arrays of tables and re-opened tables.",
  [PARSER,OBJ,PRIM,TYPES],[("add_implicit_tables, add_to_table_set, increment_array_table_index","src/internals/objects.rs"),("get_children","src/internals/parser.rs"),("Children::combine_*","src/types.rs")],
  state=[("HashValue.subkeys","children of a key: list of names or count")])

p("C05","Setting a value changes only that value's text",
  "When set_value succeeds on a scalar with a scalar, or on an array or inline table with a value of the same shape, the printed document equals the previous one with just the bytes of the replaced values substituted by the new values' text; every other byte (whitespace, comments, separators, other values, line ends) is unchanged, and get_value then returns the new value while every other unrelated key keeps its value.",
  ["inputs","histories"],"all documents parsing Full (or FullError, for keys the parser exposes) x all scalar or same-shape updates at any nesting depth",
  "Tests perform about twenty fixed updates on fixed documents; frame preservation must hold for every layout and every position, including elements nested in arrays and inline tables.",
  [PARSER,AST],[("same_structure / replace_values","src/internals/parser.rs"),("shared value cells between tree and key map","src/internals/parser.rs set_value")])

p("C06","Reshaping an array or inline table uses default layout and keeps keys live",
  "When set_value succeeds with an array or inline table whose shape differs from the current value, or switches between scalar and container, the printed document equals the previous one except that the old value's text is replaced by the new value in default layout ([a, b] and { k = v, k = v }). Afterwards get_value and get_children of the key and of every new element or sub-key report the new content, the old elements' keys are gone, and all unrelated keys are untouched.",
  ["inputs","histories"],"all documents parsing Full x all container-reshaping updates (growing, shrinking, renaming inline keys, nesting, emptying, scalar to container and back)",
  "The tests reshape four fixed values one level deep and compare the printed text only; stale or missing key-map entries and nested reshapes are never observed.",
  [PARSER,AST],[("convert_vector, rebuild_vector, get_all_subkeys","src/internals/parser.rs set_value"),("ArrayValue/TableKeyVal default and last","src/internals/ast/structs.rs")])

p("C07","A refused update changes nothing",
  "set_value returns false for every path that does not name a value (absent paths, tables, arrays of tables) and for every new value that is not representable in TOML at any nesting depth, and it returns true otherwise. After a false result the printed document, every value and every children listing are exactly as before.",
  ["inputs","histories"],"all parsed documents x all refused updates: absent keys, table keys, array-of-tables keys, invalid scalars, containers with an invalid element at any depth",
  "Tests only assert success; the failure path's side effects are observed by no test.",
  [PARSER,TYPES],[("early removal of sub-keys, validation in convert_vector","src/internals/parser.rs set_value"),("Value::validate","src/types.rs")])

p("C08","After any edit history the live view equals a fresh parse of the text",
  "After every step of any finite sequence of set_value calls (successful or refused) on a document that parsed Full, the printed document parses to its end with no error other than MixedArray for arrays the updates themselves made mixed, and a fresh parser over that text returns the same value and the same children for every key path as the edited parser does. A value read earlier is a snapshot: later updates never change it, and updating through one path (element, container) is seen through every overlapping path.",
  ["histories"],"all documents parsing Full x all finite update sequences mixing scalar, same-shape, reshaping and refused updates over overlapping paths",
  "Tests apply at most a few independent updates and never re-parse the result or compare the key map with the text afterwards.",
  [PARSER,AST,PRIM],[("key map vs tree sharing through Rc<RefCell>","src/internals/parser.rs"),("rebuild_vector","src/internals/parser.rs")])

p("C09","Every duplicate key is reported once, and the first value wins",
  "A key defined again in the same table, array-of-tables element or inline table (including a key equal to an already defined table or array of tables) yields exactly one DuplicateKey error carrying the full key path and the value of the later definition, in document order, and a document without duplicates yields none. Lookups keep returning the first definition, parsing continues to the end, and both definitions stay in the printed text.",
  ["inputs"],"all syntactically complete documents with any number of scalar duplicate definitions in any tables, array elements or inline tables",
  "One test with one duplicate in one table; near-duplicates (same key in sibling tables, in different array elements, differently quoted) and multiple duplicates are not sampled.",
  [PRIM],[("insert_keyval_into_map","src/internals/primitives.rs")])

p("C10","Mixed-type arrays are reported exactly, by key, and stay usable",
  "For every syntactically complete document each array whose direct elements are not all of one type (integer, float, boolean, datetime, string, array, inline table) yields exactly one MixedArray error carrying that array's own full key path, whatever other errors exist, and no homogeneous or empty array yields one. The reported key retrieves the array with get_value and updates it with set_value, as documented.",
  ["inputs"],"all documents with any number of arrays, nested to any depth, in tables, array elements and inline tables, mixed and homogeneous, in the presence of other error kinds",
  "Two tests with one mixed array each; a second mixed array, nested mixtures and documents that already contain another error are never tried.",
  [OBJ],[("array_value type tracking","src/internals/objects.rs"),("last_array_type stack","src/internals/objects.rs array")])

p("C11","Impossible dates and times are reported exactly, with key and text",
  "Every datetime in the document whose date does not exist in the proleptic Gregorian calendar (years 0001-9999) or whose time or offset fields are out of range (hour above 23, minute or second above 59) yields exactly one InvalidDateTime error with its full key path and its source text; every other datetime yields none. Parsing continues, the value stays retrievable, and fractional seconds of any length are accepted.",
  ["inputs"],"all datetime field values in all positions (table keys, array elements, inline tables, array-of-tables)",
  "One test uses one invalid date; the boundary of validity (month lengths, leap and century years, 23/59 limits, offsets) crossed with positions is far larger.",
  [PRIM,TYPES],[("date_time validation","src/internals/primitives.rs"),("Date/Time/TimeOffset validate","src/types.rs")])

p("C12","Invalid table headers are reported with their contents and isolated",
  "A [table] header is reported as InvalidTable when it repeats an explicitly defined table, names or passes through a key that holds a value, names an array of tables, or sits directly under a standard table that already has its own key/values; a [[table]] header is reported when it names a table or a key holding a value, or passes through a value; no other header is reported. The error carries the header's resolved key path and exactly the key/values that follow it up to the next header, and none of these becomes visible to lookups or disturbs the rest of the document.",
  ["inputs"],"all sequences of standard and array-of-tables headers with any key/values between them",
  "Three tests with one bad header each; validity depends on the whole header history (implicit parents, re-opened arrays of tables, nesting).",
  [OBJ,PRIM],[("std_table/array_table error branches","src/internals/objects.rs"),("get_array_table_key, key_has_children_with_values","src/internals/primitives.rs"),("array_error in keyval","src/internals/primitives.rs")])

p("C13","Documents obeying the rules parse Full, with no false error",
  "Every document that follows the supported TOML grammar and whose keys are unique, tables are defined once, arrays are homogeneous and datetimes exist parses with result Full: nothing is left over and no error is reported, whatever the layout, comments, newline style, table order (including interleaved tables and arrays of tables) or nesting.",
  ["inputs"],"all valid documents of the supported dialect",
  "The valid assets test round trip only and ignores the parse result; a handful of documents cannot cover the interleavings of headers and layouts.",
  [OBJ,PRIM,TOML,UTIL],[("grammar rules","src/internals/toml.rs, objects.rs, primitives.rs"),("table validity","src/internals/objects.rs")])

p("C14","Line numbers point at the offending line",
  "The line reported with each parse error lies within the lines occupied by the offending key/value or table header (1-based; exactly its line when it occupies one line), and the line reported with a Partial or PartialError result lies within the lines of the first construct that could not be parsed, counting both LF and CRLF. This holds whatever precedes it: comments, multi-line strings and multi-line arrays.",
  ["inputs"],"all documents with errors at any line after any mix of single- and multi-line constructs and newline styles",
  "Tests check five line numbers in documents without any multi-line construct before the error.",
  [UTIL,PRIM,OBJ,PARSER],[("line_count in newline, ml strings, arrays","src/internals/util.rs, primitives.rs, objects.rs")],
  state=[("line_count","current line")])

p("C15","Malformed text is refused exactly where it stops being valid",
  "Parsing consumes exactly the longest prefix made of complete lines and constructs of the supported grammar: the result is Partial or PartialError if and only if some of the input is not covered by it, and the leftover starts at the first construct that violates the grammar. In particular unterminated strings, arrays, inline tables and headers, bad escapes, control characters, malformed numbers and dates, missing values, missing separators between elements and text after a value are never accepted.",
  ["inputs"],"all UTF-8 strings; in particular all single and multiple edits of valid documents",
  "About 40 invalid assets, each checked only for 'not Full'; neither the stopping point nor the endless variety of malformations is examined.",
  [TOML,PRIM,OBJ,UTIL],[("token regular expressions","src/internals/primitives.rs"),("arrays and inline tables","src/internals/objects.rs"),("comment characters","src/internals/util.rs")])

p("C16","Value constructors accept exactly what TOML can express",
  "A Value constructor or validate accepts a text if and only if writing it as a value of that kind (with that kind's quotes; true and false in any case; floats built from an f64 that is not exactly integral) into a document parses back to exactly that value; containers validate only if every nested key and value does. An accepted value survives set_value, printing and re-parsing unchanged, and a rejected one is refused by set_value.",
  ["inputs"],"all strings for each of int_from_str, float_from_str, bool_from_str, the four string constructors, datetime_parse and the date/time constructors, and all i64 for int, all finite f64 for float, and all public Value trees",
  "Unit tests use a few accepted and rejected literals per constructor; trailing garbage, embedded quotes, control characters, signs and Unicode digits are unlimited.",
  [TYPES,PRIM],[("Value::validate and constructors","src/types.rs"),("quoteless_* and number regular expressions","src/internals/primitives.rs")])

p("C17","Date and time constructors follow the calendar exactly",
  "The date, time and datetime constructors (integer, string and parse forms) succeed if and only if the date exists in the Gregorian calendar with year 0001-9999, hour is at most 23, minute and second at most 59, offset at most 23:59 with an explicit sign, each field has its fixed width of decimal digits and fractions consist of one or more digits. All forms given the same fields agree with each other and print the canonical zero-padded text.",
  ["inputs"],"every calendar day of years 0-10000, every hour/minute/second, every offset, every constructor",
  "Tests try some forty field combinations; leap-year and month boundaries over ten thousand years, and agreement between the eighteen constructors, are not sampled.",
  [TYPES],[("Date/Time/TimeOffsetAmount validate","src/types.rs"),("Value::date*/datetime* constructors","src/types.rs")])

p("C18","Printing a Value gives TOML text that reads back as the same Value",
  "For every value returned by get_value or accepted by validate, including empty and nested arrays and inline tables, its Display text (default layout: [a, b] and {k = v, k = v}) placed after `key = ` parses Full, or with only MixedArray errors when it holds mixed arrays, and get_value of that key returns an equal value.",
  ["inputs"],"all valid Values of all seven kinds, nested arbitrarily, including empty containers",
  "No test prints an Array or InlineTable Value and reads it back.",
  [TYPES],[("Display for Value, DateTime, Time, TimeOffset","src/types.rs")])

p("C20","tomlkit queries answer exactly what the library answers",
  "For a document that parses Full, tomlkit --get-value, --has-value, --get-children and --has-children print for each listed key, in order and joined by the separator, the library's value, children or presence (with the documented formatting options applied), report an error instead if any key of a get is missing (or has no children to count), and never modify any file. Queries over several input files named on stdin print each file's answer in order.",
  ["inputs","configurations"],"all documents x key lists x option combinations (separators, array markers, --array-length, --set-true/--set-false, --strip-quotes, -i or stdin)",
  "The CLI has no tests at all.",
  [KIT],[("get_value, has_value, get_children, has_children","src/bin/tomlkit.rs")],observe=["tomlkit stdout and exit status","file system"])

p("C21","tomlkit set-value is all-or-nothing and touches only the target file",
  "tomlkit --set-value writes the document with all listed changes (and nothing else changed) to the output file, or back to the input file when none is given, if every listed key, value and type is accepted; otherwise it writes nothing at all. When an output file is given the input file keeps its content; the written text equals the library's result for the same updates, every typed value (including datetime offsets) is stored as given, Success is printed per change unless --quiet is given, and with --print-doc the same text is printed. The target is rewritten in place: its other names (a symbolic or hard link), its permissions and any file of a similar name beside it stay what they are.",
  ["inputs","configurations","fault_sequences"],"all documents x update triples of every type, valid and invalid, in any position of the list x output options, including unwritable outputs",
  "The CLI has no tests at all.",
  [KIT],[("set_value, write_to_file, process_document","src/bin/tomlkit.rs")],observe=["file contents before and after","stdout","exit status"])

p("C22","tomlkit refuses bad documents and arguments cleanly and changes nothing",
  "If an input file is missing, not UTF-8, or does not parse Full, tomlkit prints an error naming the file, exits with a failure status and leaves every file unchanged, whatever command was given. No document, key list, option list or update list makes it panic.",
  ["inputs","configurations"],"all byte strings as input file x all commands and option combinations",
  "The CLI has no tests at all.",
  [KIT],[("process_document error branches","src/bin/tomlkit.rs"),("per-key indexing of true/false values","src/bin/tomlkit.rs")])

p("C23","Parsing is deterministic and parsers are independent",
  "The same text and the same calls always give the same results, error lists, listings and printed text: in every run, in every process, and on any number of threads at once. Parsers and values never influence each other: any interleaving of operations on several live parsers gives each the result it would give alone, and a parser used to parse again behaves like a new one.",
  ["schedules","histories"],"all documents and call sequences x thread schedules and interleavings of operations on several parsers x hash seeds of different processes",
  "Every test runs one parser once; per-process hash seeds, concurrency and interleaving are not exercised.",
  [LIB,PARSER],[("HashMap-backed key map, ordered child lists","src/internals/parser.rs"),("absence of shared mutable state","src/internals/*.rs")])

p("C24","Memory use is linear in the document and fully released",
  "Heap memory held after parsing and the peak while parsing are bounded by a constant plus a constant factor times the length of the input and of the full key paths it defines, for every document, and repeating the same updates does not make a parser hold more and more. After the parser and every value read from it are dropped, all memory allocated since it was created is released, also after any number of updates.",
  ["inputs","histories"],"all documents of growing size in every dimension (keys, tables, arrays of tables, array length, nesting, string length, errors) and all update histories",
  "No test measures resources; leaks through reference cycles or quadratic blow-up do not change any asserted value.",
  [PARSER,PRIM,OBJ],[("Rc/RefCell sharing of tree and map","src/internals/parser.rs"),("per-error and per-key copies","src/internals/primitives.rs")])

p("C25","Values and results compare equal exactly when they are written the same",
  "Two Values (and likewise their public parts: dates, times and offsets) compare equal exactly when they are of the same kind and are written the same: same text of every field, same string type, equal elements and equal key/value pairs in the same order, at every nesting depth; it makes no difference whether they were built by hand, read from a document or cloned. Two parse results compare equal exactly when kind, leftover, position and reported errors agree, and two children listings exactly when their counts or their ordered keys agree.",
  ["inputs"],"all pairs of values, of parse results and of children listings, in particular pairs that differ in one field",
  "Tests compare values they expect to be equal; that different values differ, for every kind and field, is never asserted.",
  [TYPES],[("PartialEq of Value, DateTime, Date, Time, TimeOffset, TimeOffsetAmount, ParseResult, ParseError, Children","src/types.rs")],observe=["results of ==, != and clone"])

p("C26","White space, comments and line ends never change what a document means",
  "For every document covered by the grammar, with or without semantic errors, any other layout of the same statements (indentation, blank lines, comments, LF or CRLF, spaces around = and dots, line breaks, comments and trailing commas inside arrays and inline tables) gives the same kind of result, the same errors in the same order with the same keys and contents (line numbers aside), and the same answer to every value and children lookup.",
  ["inputs"],"all documents covered by the grammar x all layouts of their statements",
  "Tests pin a few layouts of a few documents.",
  [PARSER,OBJ,PRIM],[("ws, comment_or_nls, array_sep, keyval","src/internals/objects.rs"),("ws, newline, comment","src/internals/util.rs")],observe=["parse results","lookups and listings"])

p("C27","Unrelated parts of a document never disturb each other",
  "When two documents that share no top-level key are joined, one after the other or interleaved header by header (each keeping its own order, root key/values first), the errors about each part's keys are those it gives alone, in the same order, and every value and children lookup below its keys gives the same answer as alone; the same updates are accepted or refused as alone and show only in their own part.",
  ["inputs","histories"],"all pairs of documents covered by the grammar x all interleavings of their header sections x updates of either part",
  "Tests never compare a section's meaning in one context with its meaning in another; state carried from header to header shows only in particular neighbourhoods.",
  [PARSER,OBJ],[("table stacks, key chain and last-table state carried between expressions","src/internals/parser.rs"),("locate_table, add_implicit_tables, set_invalid_table","src/internals/objects.rs")],observe=["parse results","lookups and listings"])

for x in P: print(json.dumps(x,ensure_ascii=False))
