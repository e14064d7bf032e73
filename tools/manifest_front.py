FRONT = "Held on the executions of this run only: random schemas in several layouts and hostile texts. Trusts the independent reference model in harness/core."
c("C09", "runtime monitoring: differential monitor against a reference parser, panic and stack monitor, diagnostics rendered", FRONT)
c("C10", "runtime monitoring: parsed tree and locations against the model each text was written from", FRONT)
c("C11", "runtime monitoring: print/parse/print round-trip monitor", FRONT)
c("C12", "runtime monitoring: validator verdicts and locations against a reference validator on mutated schemas", FRONT)
c("C13", "runtime monitoring: identifiers of every component against reference derivation", FRONT)
c("C14", "runtime monitoring: resolver verdicts and locations against a reference resolver on mutated packages", FRONT)
c("C15", "runtime monitoring: generated code parsed and compared with the model, and compiled by rustc with type assertions", FRONT)
c("C16", "runtime monitoring: simplified schema against the generating model", FRONT)
c("C17", "runtime monitoring: generated Go read by Go's parser and compared with the model", FRONT)
c("C18", "runtime monitoring: generated pages read by a strict HTML reader, links followed, content against the model", FRONT)
c("C19", "runtime monitoring: reported sizes against exact bounds and reference encodings", FRONT)
c("C20", "runtime monitoring: loaded and discovered projects against a reference walk and glob matcher", FRONT)
c("C21", "runtime monitoring: command line runs on random trees, exit status and file system before and after against a reference", FRONT)
c("C22", "runtime monitoring: editing sessions against the running server, each view against a fresh one and the references", FRONT)
c("C23", "runtime monitoring: protocol trace monitor over pipelined sessions with faulty clients and hostile documents", FRONT)
c("C24", "runtime monitoring: tokens, symbols and hovers of the running server against the model each text was written from", FRONT)
c("C25", "runtime monitoring: outputs compared across repeats, orders, threads, processes and directory orders", FRONT)
c("C26", "runtime monitoring: whole projects through the build script interface and the Go tool, verdict and output directory before and after against a reference", FRONT)
c("C27", "runtime monitoring: JSON documents of compiled schemas against their JSON Schema and, read back, against the model", FRONT)
