#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Encoding then decoding returns the original value",
  "For every schema the compiler accepts and every value of a generated Rust type, decoding the bytes the type's encoder wrote yields an equal value (floats bit for bit, maps and sets as collections). The decoder consumes exactly the bytes the encoder wrote and leaves any bytes that follow them untouched.",
  ["inputs", "programs"], "all schemas (named, unnamed and unit structs, enums, generics, modules, imports, every field type and nesting) and all values of their types, including empty, boundary and multi-kilobyte collections",
  "The tests compare generated source text with snapshots and round-trip a handful of values of a few runtime types; generated code is never run on generated values.",
  ["crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs", "crates/mabo/src/varint.rs", "crates/mabo-build/src/encode.rs", "crates/mabo-build/src/decode.rs", "crates/mabo-build/src/definition.rs"],
  [("encode_* / decode_* pairs", "crates/mabo/src/buf"), ("generated Encode/Decode impls", "crates/mabo-build/src/{encode,decode}.rs")],
  ["return value of Decode::decode", "Buf::remaining after decoding"])
p("C02", "The announced size is the encoded length",
  "For every generated Rust type, every runtime helper type and every value, the size computed without encoding equals the number of bytes that encoding the value writes. Collections therefore always announce the exact byte length of their content, however deeply they are nested.",
  ["inputs", "programs"], "all generated types and all values, including nested collections whose element counts and byte lengths fall on either side of each varint length boundary",
  "Size functions are only exercised on tiny values, where element count and byte length need the same number of varint bytes.",
  ["crates/mabo/src/buf/size.rs", "crates/mabo-build/src/size.rs"],
  [("size_* helpers", "crates/mabo/src/buf/size.rs"), ("generated Size impls", "crates/mabo-build/src/size.rs")],
  ["Size::size", "length of the buffer written by Encode::encode"])
p("C03", "Decoding untrusted bytes never panics, hangs or over-allocates",
  "Decoding arbitrary bytes as any generated Rust type returns either a value or an error: it never panics, never loops without consuming input, and never allocates memory out of proportion to the input. A proper prefix of a valid encoding is always rejected with an error, and any value that was accepted from hostile bytes encodes and decodes again to itself.",
  ["inputs", "programs"], "all byte strings, including truncated, bit-flipped, spliced, length-inflated and random ones, for all generated types",
  "No test feeds malformed bytes to a decoder.",
  ["crates/mabo/src/buf/decode.rs", "crates/mabo/src/varint.rs", "crates/mabo-build/src/decode.rs"],
  [("ensure_size!/InsufficientData", "crates/mabo/src/buf/decode.rs"), ("bounded varint decoding", "crates/mabo/src/varint.rs")],
  ["panics", "Buf call count", "allocator high-water mark", "Result of Decode::decode"])
p("C04", "Old and new schema versions read each other's data",
  "A reader whose schema lacks fields that the writer's schema has skips them and recovers every field both know; fields the writer lacks come back absent if optional and are reported as missing if required. Fields match by identifier only, so renaming, reordering the declaration, or a different field order in the data changes nothing, and newly added enum variants do not disturb the existing ones. A reader whose array is shorter takes the first elements and goes on behind the last, one whose array is longer reports insufficient data.",
  ["inputs", "programs", "histories"], "all pairs of schema versions related by adding, removing, renaming and reordering fields, adding variants and changing array lengths, all values of the writer's type, and all permutations of encoded fields",
  "No test decodes data written by a different version of a schema.",
  ["crates/mabo/src/buf/decode.rs", "crates/mabo-build/src/decode.rs", "crates/mabo/src/lib.rs", "crates/mabo-build/src/encode.rs"],
  [("decode_skip by field encoding", "crates/mabo/src/buf/decode.rs"), ("field encoding chosen per type", "crates/mabo-build/src/encode.rs")],
  ["result of decoding with the other version's type"])
p("C05", "Integers use canonical varints and survive exactly",
  "For every 16 to 128 bit integer, signed and unsigned, the encoding is the shortest base-128 little-endian form (zigzag for signed values), has exactly the length that is announced for it, and decodes to the same integer consuming exactly those bytes. Decoding returns an error, and never reads further, when the input ends before the final byte or the maximum length for that width passes without one.",
  ["inputs"], "all values of u16, u32, u64, u128, i16, i32, i64 and i128, and all byte strings",
  "The tests round-trip MIN, MAX and at most three values per width, and check the size of those only.",
  ["crates/mabo/src/varint.rs", "crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs", "crates/mabo/src/buf/size.rs"],
  [("varint! and zigzag! macros", "crates/mabo/src/varint.rs")],
  ["encode_*/decode_*/size_* of the runtime crate"])
p("C06", "Malformed data is rejected with the right reason",
  "Decoding reports a missing required field with that field's identifier and name, a zero or empty value for a non-zero type as such, an unknown enum variant with its number, an undefined field encoding as such, and invalid UTF-8 in strings as such. Data that ends too early is reported as insufficient data. An absent optional field decodes as none, and when a field occurs repeatedly the last occurrence counts.",
  ["inputs", "programs"], "all generated types, every field of them left out, zeroed, repeated or corrupted in turn, and all unassigned variant numbers and field encodings",
  "No test decodes data with missing or invalid parts.",
  ["crates/mabo/src/buf/decode.rs", "crates/mabo-build/src/decode.rs"],
  [("MissingField/Zero/UnknownVariant/UnknownEncoding/NonUtf8", "crates/mabo/src/buf/decode.rs"), ("compile_field_assigns", "crates/mabo-build/src/decode.rs")],
  ["error returned by Decode::decode"])
p("C07", "Decoding does not depend on how the buffer is fragmented",
  "Decoding gives the same value and consumes the same number of bytes, or gives the same kind of error, whether the data sits in one contiguous buffer or is split into chunks at arbitrary positions. This holds for valid and for malformed data.",
  ["inputs", "configurations"], "all byte strings and all ways of splitting them into chunks, for all generated types and runtime decode functions",
  "All tests decode from one contiguous slice.",
  ["crates/mabo/src/buf/decode.rs"],
  [("decoders over the Buf trait", "crates/mabo/src/buf/decode.rs")],
  ["result and remaining bytes for &[u8], Bytes, chained and segmented buffers"])
p("C08", "Encoded bytes follow the documented wire format",
  "The bytes written for any value are exactly those the wire format prescribes: field keys that combine identifier and encoding class, fixed-width and varint numbers, byte-length prefixed strings, bytes and collections, option tags, variant numbers, and one end marker per struct or variant that carries fields. An independent implementation of that format and the generated code can read each other's output.",
  ["inputs", "programs"], "all schemas and all values of their types, with both byte-array representations of the generator",
  "Snapshot tests fix the generated source text, but nothing relates the bytes it produces to the format description.",
  ["crates/mabo/src/buf/encode.rs", "crates/mabo/src/lib.rs", "crates/mabo-build/src/encode.rs", "book/src/reference/wire-format.md"],
  [("encode_* helpers", "crates/mabo/src/buf/encode.rs"), ("FieldId / FieldEncoding", "crates/mabo/src/lib.rs")],
  ["bytes written by Encode::encode", "Decode::decode of independently encoded bytes"])
p("C09", "Parsing any text ends in a schema or a renderable error",
  "For every input text, parsing returns a schema or an error and never panics or runs away, and the error can always be rendered as a diagnostic whose labels lie inside the text. Text that does not follow the grammar, or nests types, modules or literals deeper than 64 levels, is rejected, never silently truncated or partially accepted.",
  ["inputs"], "all UTF-8 texts: grammatical schemas, single-edit mutations of them, token soup and random Unicode",
  "The parser tests cover some thirty fixed inputs and fewer than twenty invalid ones.",
  ["crates/mabo-parser/src/lib.rs", "crates/mabo-parser/src/parser.rs", "crates/mabo-parser/src/parser", "crates/mabo-parser/src/location.rs", "crates/mabo-parser/src/error.rs"],
  [("winnow parsers with cut_err", "crates/mabo-parser/src/parser.rs")],
  ["Schema::parse result", "Diagnostic::labels"])
p("C10", "The parsed tree says what the text says, at the right place",
  "Parsing a schema text yields exactly the definitions written in it: names, order, nesting, types, generics, identifiers, comments, attributes, literals and imports, regardless of layout and optional trailing commas. Every source location recorded in the tree is the location in the text of exactly that element.",
  ["inputs"], "all schemas over the whole grammar, in all layouts",
  "Snapshots cover a few fixed files; combinations, unusual layouts, escapes and literal values are not covered.",
  ["crates/mabo-parser/src/lib.rs", "crates/mabo-parser/src/parser", "crates/mabo-parser/src/token.rs", "crates/mabo-parser/src/punctuated.rs"],
  [("parsers with span tracking", "crates/mabo-parser/src/parser")],
  ["Schema returned by Schema::parse", "Spanned::span"])
p("C11", "Formatting keeps the meaning and is stable",
  "Printing a parsed schema and parsing the result again yields a schema with the same content, including comments, literal values, attributes and explicit identifiers. Formatting already formatted text changes nothing.",
  ["inputs"], "all valid schema texts",
  "Snapshots show the printed form of fixed inputs only; none is parsed again.",
  ["crates/mabo-parser/src/lib.rs", "crates/mabo-parser/src/punctuated.rs", "crates/mabo-cli/src/main.rs"],
  [("Print/Display implementations", "crates/mabo-parser/src/lib.rs")],
  ["Display output of Schema", "files rewritten by mabo fmt"])
p("C12", "Validation accepts exactly the schemas that obey the rules",
  "A schema is rejected if and only if it contains, at any nesting depth, a duplicate identifier among sibling fields or variants, a duplicate field, variant, or definition name in one scope, a duplicate or unused generic parameter, or a tuple with fewer than 2 or more than 12 elements. The reported problem is of a kind that really occurs and its locations are those of the offending elements, which the message names.",
  ["inputs", "programs"], "all schemas, valid and with one or several planted violations at any position",
  "About twenty invalid snapshot inputs each show one violation at the top level.",
  ["crates/mabo-compiler/src/validate"],
  [("validate_schema", "crates/mabo-compiler/src/validate/mod.rs")],
  ["result and labels of validate_schema"])
p("C13", "Identifiers are derived alike by every component",
  "A field or variant with an explicit identifier gets exactly that one; without one it gets its predecessor's plus one, starting from 1 in every field list. Validation, the compiled schema, the generated code's wire bytes, and the documentation agree on this, and the editor's next-identifier hint is the highest identifier in use plus one.",
  ["inputs", "programs"], "all mixtures of explicit and derived identifiers in structs, variants and nested fields, including jumps backwards and forwards",
  "One fixed input mixes explicit and derived identifiers.",
  ["crates/mabo-compiler/src/lib.rs", "crates/mabo-compiler/src/simplify.rs", "crates/mabo-meta/src/lib.rs", "crates/mabo-doc/src", "crates/mabo-go/src"],
  [("IdGenerator", "crates/mabo-compiler/src/lib.rs"), ("next_field_id/next_variant_id", "crates/mabo-meta/src/lib.rs")],
  ["ids in simplified schema", "ids on the wire", "next_field_id/next_variant_id"])
p("C14", "Every type reference resolves, or the schemas are rejected",
  "Resolving a set of schemas succeeds if and only if every type used in a field names an existing struct or enum with the right number of generic arguments, found in any of the current module, a path into its submodules, or a top-level import of the element or of its module, and every top-level import names an existing schema, module path and struct or enum. The result does not depend on the order of the schemas, and an error points at a reference that is broken and, where it shows a declaration, at that one in its own schema; it says what is missing where, or what is mismatched.",
  ["inputs", "programs", "configurations"], "all sets of schemas with imports, module trees and generic types, complete or with broken references of each kind",
  "Fixed inputs cover a handful of references; module imports are not covered at all.",
  ["crates/mabo-compiler/src/resolve"],
  [("resolve_schemas", "crates/mabo-compiler/src/resolve/mod.rs")],
  ["result and labels of resolve_schemas"])
p("C15", "Accepted schemas always generate Rust code that compiles",
  "For every schema set that passes validation and resolution, Rust code generation completes and the produced code compiles against the runtime crate without errors. The generated items have the names, field types, field order, visibility and documentation comments that the schema declares, and constants have the declared values.",
  ["programs"], "all accepted schema sets, in both byte-array representations",
  "Snapshots fix the output for thirty inputs; only the playground's few schemas are ever compiled.",
  ["crates/mabo-build/src"],
  [("compile_schema", "crates/mabo-build/src/definition.rs")],
  ["rustc on the generated code", "reflection on the generated items"])
p("C16", "The compiled schema mirrors the source",
  "The simplified schema that code generators and documentation consume contains exactly the definitions, comments, fields, types, generics, literals and imports of the parsed schema, in the same order and nesting. Unnamed fields are named by their position.",
  ["inputs", "programs"], "all schemas",
  "Snapshot tests see it only through generated code for fixed inputs.",
  ["crates/mabo-compiler/src/simplify.rs"],
  [("simplify::schema", "crates/mabo-compiler/src/simplify.rs")],
  ["simplified Schema"])
p("C17", "Go code generation is total and structurally faithful",
  "For every accepted schema built from the types Go supports, Go generation completes and every produced file is syntactically valid Go. As long as names stay distinct after Go's naming, it declares for each definition a corresponding documented Go declaration with one field per schema field in order and constants with the declared values, and its encoders, decoders and size functions use the schema's field and variant identifiers.",
  ["programs"], "all accepted schemas within the supported types",
  "Snapshots fix the output for fixed inputs, and nothing parses it as Go.",
  ["crates/mabo-go/src"],
  [("render_schema", "crates/mabo-go/src/definition.rs")],
  ["go/parser on the rendered files"])
p("C18", "Generated documentation is complete, linked and escaped",
  "For every accepted schema, documentation generation completes and produces one page per definition and one index per module, in which every relative link points to a page that is produced as well. Every field, variant, identifier and comment of the schema is shown where it belongs, comments as the Markdown they are, and schema text never appears as markup.",
  ["programs", "inputs"], "all accepted schemas, nested modules and comments containing markup",
  "Snapshots fix the HTML for fixed inputs; links are never followed.",
  ["crates/mabo-doc/src", "crates/mabo-doc/templates", "crates/mabo-cli/src/main.rs"],
  [("render_schema", "crates/mabo-doc/src/lib.rs"), ("askama templates", "crates/mabo-doc/templates")],
  ["rendered HTML"])
p("C19", "Reported wire sizes bound the real encodings",
  "For every type for which the editor support reports a minimum or maximum encoded size, every value of that type, itself without the key of the field it is in, encodes to a number of bytes within these bounds. The minimum is reached by some value whenever it is reported for a fixed-size or integer type.",
  ["inputs", "programs"], "all types and all their values, minimal and maximal ones included",
  "No test relates the reported sizes to encodings.",
  ["crates/mabo-meta/src/lib.rs"],
  [("WireSize", "crates/mabo-meta/src/lib.rs")],
  ["wire_size", "bytes of the encoded value"])
p("C20", "A project covers exactly the files its configuration selects",
  "Loading a project yields exactly the schema files that its configured glob patterns match below the project directory, each once, by an absolute path and in a fixed order, and its package metadata as written; hidden entries and those excluded by ignore files are not part of it. Discovery below a directory finds exactly the directories that hold a project file, and a missing or malformed project file is reported as an error.",
  ["inputs", "configurations"], "all directory trees and project files with glob patterns, and all malformed project files",
  "There is one loading test over a fixed project.",
  ["crates/mabo-project/src"],
  [("load/discover", "crates/mabo-project/src/lib.rs")],
  ["Project returned by load", "discover"])
p("C21", "The command line tool touches and reports only what it should",
  "Formatting rewrites exactly the valid schema files it was asked to process, leaves invalid and unrelated files byte for byte as they were and the permissions and links of all of them alone, and checking never writes anything. Checking exits successfully if and only if every processed schema is valid, a failing file never stops the others from being processed and is always reported by its name and in the exit status, and documentation is written only below the output directory, in full whatever was there before. Reports that don't go to a terminal are free of terminal codes.",
  ["inputs", "configurations", "fault_sequences"], "all directory trees of valid, unformatted, invalid, unreadable and non-schema files and all command invocations",
  "The command line tool has no tests.",
  ["crates/mabo-cli/src/main.rs", "crates/mabo-cli/src/cli.rs"],
  [("check/format/doc commands", "crates/mabo-cli/src/main.rs")],
  ["exit status", "file system before and after"])
p("C22", "The language server's view equals the editor's text",
  "After any sequence of opens, full and incremental edits and closes, what the language server publishes for a document (diagnostics) and answers about it (symbols, hover, tokens) is what it gives for the same text opened afresh. This holds for every position encoding the client may negotiate and for text with multi-byte characters and LF or CRLF line endings.",
  ["histories", "inputs", "configurations"], "all sequences of document edits over several documents, in UTF-8, UTF-16 and UTF-32 position encodings",
  "The language server has no tests that drive it.",
  ["crates/mabo-lsp/src"],
  [("document synchronisation", "crates/mabo-lsp/src/handlers"), ("position conversion", "crates/mabo-lsp/src/handlers/index.rs")],
  ["published diagnostics", "responses"])
p("C23", "The language server answers every request and survives",
  "Every request, known or unknown, valid or malformed, in any order, receives exactly one response with its identifier (malformed meaning parameters of the wrong shape, not broken framing), and the server keeps running until it is asked to exit, after which it terminates, successfully if it was asked to shut down before. No sequence of protocol-conforming messages or document contents makes it crash, hang or stop publishing diagnostics for an opened or changed document. The capabilities announced to the client name what the server serves (changes of documents, hovers, symbols, tokens, deleted files, changed settings) and nothing that it doesn't.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of requests, notifications, cancellations and client replies over any document contents",
  "The language server has no tests that drive it.",
  ["crates/mabo-lsp/src/main.rs", "crates/mabo-lsp/src/handlers/mod.rs", "crates/mabo-lsp/src/state.rs", "crates/mabo-lsp/src/client.rs"],
  [("main loop dispatch", "crates/mabo-lsp/src/main.rs")],
  ["JSON-RPC traffic", "exit status"])
p("C24", "Editor features point at the right source elements",
  "Semantic tokens come in source order without overlaps and each lies on a keyword, name, type, identifier, literal or comment of that kind, and no name, type or identifier is left without one; document symbols mirror the nesting of the definitions with ranges that enclose their names. Hovering a definition, field or variant describes that very element as far as the settings ask for it, and every range lies within the document.",
  ["inputs", "configurations"], "all valid schemas, all positions in them and all position encodings",
  "No test inspects token or symbol positions.",
  ["crates/mabo-lsp/src/handlers"],
  [("semantic tokens", "crates/mabo-lsp/src/handlers/semantic_tokens.rs"), ("document symbols", "crates/mabo-lsp/src/handlers/document_symbols.rs"), ("hover", "crates/mabo-lsp/src/handlers/hover.rs")],
  ["responses to token, symbol and hover requests"])
p("C25", "Outputs are a function of the inputs",
  "Parsing, validating, resolving, formatting, and generating Rust, Go and documentation give identical results on every run for the same input, in whatever order, thread, process and together with whatever other valid schemas the inputs are processed; projects of equal files give equal results however the files were created. Encoding a value without maps or sets always yields the same bytes.",
  ["inputs", "programs", "configurations"], "all schema sets, repeated runs in fresh processes and permuted orders",
  "Snapshot tests run once per input in one order; hash seeds differ between processes, not within a test.",
  ["crates/mabo-compiler/src", "crates/mabo-build/src", "crates/mabo-go/src", "crates/mabo-doc/src", "crates/mabo-meta/src"],
  [("ordered iteration over definitions", "crates/mabo-compiler/src/simplify.rs")],
  ["outputs of repeated runs"])
p("C26", "Building a project yields all of its code, or an error and nothing",
  "Generating the code of a project, from a build script or with the Go tool, succeeds if and only if its project file is fine, every schema it selects can be read, parses and is valid, all references resolve, and the code can be written. On success each schema's whole code is in a file of its own in the output directory, whatever an earlier run has left there. If a schema or the project file is at fault nothing is written at all, and the build script's error names a file. Nothing else is ever changed.",
  ["inputs", "configurations", "fault_sequences"], "all project directories of valid, invalid, unreadable and equally named schemas, project files, output directories and earlier outputs",
  "The playground builds two fixed projects that are fine; the Go tool is never run.",
  ["crates/mabo-build/src/lib.rs", "crates/mabo-go/src/main.rs"],
  [("Compiler::compile", "crates/mabo-build/src/lib.rs"), ("main", "crates/mabo-go/src/main.rs")],
  ["result of Compiler::compile and mabo-go", "output directory before and after"])
p("C27", "The JSON form of a compiled schema is complete and as described",
  "Every schema that parses has a JSON form, which is well-formed JSON and conforms to the JSON Schema that the compiler publishes for it, without members that the JSON Schema does not describe. It holds everything that the compiled schema says: reading it back by the names of the compiled form's types, variants and fields gives the same definitions, names, comments, generics, types, identifiers, literals and imports in the same order. The JSON Schema does not accept documents in which a part is missing, misnamed or of another kind.",
  ["inputs"], "all schemas that parse, and all documents derived from their JSON forms by spoiling one part",
  "No test uses the JSON form or its JSON Schema.",
  ["crates/mabo-compiler/src/simplify.rs"],
  [("Schema::json_schema and the Serialize and JsonSchema implementations", "crates/mabo-compiler/src/simplify.rs")],
  ["JSON document written by serde_json", "Schema::json_schema"])
p("C28", "Field keys and non-zero containers of the runtime keep their promises",
  "A field identifier below 2^29 with any of the five classes becomes a raw key and comes back from it unchanged, different pairs never share a key, and raw keys of the undefined classes are refused wherever they are read; writing a field gives its key and content, none for an absent one, at the announced size, and skipping it by its class consumes exactly its content. A non-zero container cannot be made of an empty value and can be made of every other one, which it then holds, returns and writes like the plain value. Reading as non-zero is reading the plain value, with the same bytes consumed or the same kind of error, except that zero and empty values are refused.",
  ["inputs"], "all 2^32 raw keys, all identifiers and classes, all values of the containers, and all byte strings and fragmentations",
  "A doc comment makes one non-zero string; field keys have no tests of their own.",
  ["crates/mabo/src/lib.rs", "crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs", "crates/mabo/src/buf/size.rs"],
  [("FieldId/FieldEncoding", "crates/mabo/src/lib.rs"), ("non_zero_collection!", "crates/mabo/src/lib.rs"), ("decode_non_zero_*", "crates/mabo/src/buf/decode.rs")],
  ["results of the runtime crate's public functions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
