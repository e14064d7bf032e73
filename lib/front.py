"""Checks on the front end and the generators, in process."""
import os, subprocess

from runner import *

# property: (rounds per process, what a case is, assumptions)
SPECS = {
    "C09": (3000, "texts (schemas in four layouts, mutations of them, token soup, noise, nesting); the parser's verdict against an independent lenient parser, diagnostics rendered; distinct texts", ["the reference parser in harness/core/src/lenient.rs states the grammar"]),
    "C10": (4500, "texts as above; the tree and every location in it against the model the text was written from and the reference parser; distinct texts", ["the reference parser in harness/core/src/lenient.rs states the grammar"]),
    "C11": (3000, "random schemas in four layouts, printed, parsed and printed again; distinct texts", ["attributes and comments without a place in the tree are listed as known findings"]),
    "C12": (12000, "random schemas with up to three planted violations; the verdict, the kind, the element and every location of the report against a reference validator; distinct texts", ["the reference rules in harness/core/src/refcheck.rs"]),
    "C13": (12000, "random schemas with explicit, implicit, duplicate and extreme identifiers; ids of the validator, the simplifier and the editor support against reference derivation; distinct texts", ["the reference derivation in harness/core/src/model.rs"]),
    "C14": (12000, "random packages of several schemas with broken references; the verdict, the schema and the location of the report against a reference resolver; distinct packages", ["imports inside nested modules and alias targets are outside the resolver (see DESIGN.md)"]),
    "C15": (900, "random accepted schemas: the generated declarations against the model; and packages compiled by rustc together with assertions about every declared type, constant and alias; distinct texts and packages", ["constructs whose code is known not to compile are left out of the random packages and shown by probes", "the formatting of generated code does not matter, nor do blanks at the end of documentation lines in written files"]),
    "C16": (12000, "random schemas; every element of the simplified schema and its pointer to the source against the model the text was written from; distinct texts", []),
    "C17": (1300, "random accepted schemas of the types that Go supports; the generated declarations, read by Go's own parser, against the model; distinct texts", ["code is judged by its syntax, its declarations and its constant values: the Go runtime library is not available, so it is not compiled as a whole", "schemas whose names collide or meet a generated name after Go's naming are shown by probes"]),
    "C18": (900, "random accepted schemas with hostile comments; pages, links, indexes, fields, identifiers and comments, read by a strict HTML reader, against the model; distinct texts", ["comments are Markdown, and may use the elements Markdown has"]),
    "C19": (16000, "random types, the extreme arrays included; the reported sizes against exact bounds and against encodings of minimal, maximal and random values; distinct types", ["the size of a type, without the field key and the length prefix of a tuple field", "the reference encoder, which C01 and C02 hold against the real one"]),
    "C20": (5000, "random directory trees with ignore files, links and several projects; files and metadata against a reference walk and glob matcher; broken project files; distinct project files and trees", ["hidden entries and those that ignore files exclude are not part of a project", "with a dangling or circular link, an error is as good as the right files"]),
    "C21": (900, "random directory trees of formatted, unformatted, invalid and unreadable schemas and other entries, and command lines; exit status, reports and the whole tree before and after against the reference; distinct trees and command lines", ["the expected text of a formatted file and page is the library's (C11 and C18 hold it)"]),
    "C22": (350, "editing sessions over one to three documents: random opens, incremental and full changes, closes and deletions in every position encoding; after each, diagnostics, symbols, tokens and hovers against the same text in a fresh document, and the diagnostics against the reference parser and validator; distinct texts per encoding", ["a lone carriage return as line ending is a known finding and is left out of the sessions", "positions of changes are at character boundaries and not inside of CRLF"]),
    "C23": (200, "pipelined sessions over stdio or a socket: requests of every kind, malformed ones, before, during and after the handshake and the shutdown, hostile documents, positions and workspace folders, replies at once, late, wrong or never; exactly one answer of the right kind per request, every publication, the last diagnostics of each document, the way the process ends; distinct sessions", ["malformed means malformed parameters: a broken frame or no JSON at all ends the session", "after the answer to initialize, the next message is initialized, as the protocol demands", "the client keeps reading what the server writes"]),
    "C25": (350, "random packages, some of them broken: every output again, in other orders, alone, in other threads and processes, as projects written in different orders, by the commands; and values encoded again, re-encoded, in other threads and processes; distinct packages and encodings", ["colours of messages follow the environment, and which of several broken references is reported the order of the schemas", "values with maps or sets have no one encoding"]),
    "C24": (200, "random accepted schemas in four layouts, three position encodings and all settings: every token, symbol and hover against the elements the text was written from, diagnostics of rejected ones against the reference validator; distinct texts per encoding", ["the text of reported wire sizes is C19's"]),
    "C27": (2500, "random schemas in four layouts, compiled and written as JSON; the document against the published JSON Schema and, read back, against the model the text was written from; and spoiled documents against the JSON Schema; distinct documents", ["numbers keep all their digits, which a reader of JSON may drop"]),
    "C26": (1500, "random projects of valid, invalid, unreadable and equally named schemas in directory trees, broken project files and output directories, with the output of earlier runs, through the build script interface and the Go tool; the verdict, the error and the output directory before and after against the reference; distinct projects", ["the expected code of a schema is the library's (C15 and C17 hold it)", "Go projects of several schemas are shown by a probe", "formatting Go code formats every Go file in the output directory"]),
}


def goinspect():
    """The reader for Go code, built with Go's own parser."""
    out = os.path.join(BIN, "goinspect")
    os.makedirs(BIN, exist_ok=True)
    src = os.path.join(HARNESS, "goinspect")
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=env(GOFLAGS="-mod=mod", GOCACHE=os.path.join(TARGET, "gocache"), GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise Inconclusive("goinspect: " + p.stdout[-2000:])
    return out


def front(prop, pkgs=("front",), extra=None):
    rounds, rule, assumptions = SPECS[prop]
    build(*pkgs)
    more = {"MV_GOINSPECT": goinspect()} if prop == "C17" else {}
    if prop == "C21":
        more["MV_CLI"] = os.path.join(build_repo("mabo-cli"), "mabo")
    if prop == "C25":
        repo = build_repo("mabo-cli", "mabo-go")
        more = {"MV_CLI": os.path.join(repo, "mabo"), "MV_GO": os.path.join(repo, "mabo-go")}
    if prop == "C26":
        more["MV_GO"] = os.path.join(build_repo("mabo-go"), "mabo-go")
    if prop in ("C22", "C23", "C24"):
        more["MV_LSP"] = os.path.join(build_repo("mabo-lsp"), "mabo-lsp")
    secs = 1500 if THOROUGH else 120
    os.makedirs(os.path.join(TARGET, "out"), exist_ok=True)
    log("running", prop)
    reps = parallel([lambda i=i: run_monitor(prop, os.path.join(BIN, "front"), os.path.join(TARGET, "out", f"{prop}-{i}.json"), MV_INDEX=i, MV_ROUNDS=rounds * (40 if THOROUGH else 1), MV_SECS=secs, **more, timeout=secs + 200) for i in range(8)])
    rep = empty()
    for r in reps:
        merge(rep, r)
    if extra:
        extra(rep)
    return finish(prop, rep, rule, assumptions=assumptions, minimum=600)
