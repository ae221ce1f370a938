#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

T = "runtime/internal/trap/"
p("C01", "Mocks form an exact stack per function",
  "While mocks are active on the calling goroutine, a call to a mocked function, bound method, method of any receiver or generic instantiation runs the most recently installed mock that is still active and applies to it, and a call that no active mock applies to runs the original. Cancelling a mock removes exactly that mock, in any cancellation order, and leaves every other one in effect; when all are cancelled every function behaves as the original again. This holds whichever way a mock was installed (by value, by name, as an interceptor or as a typed replacement).",
  ["histories", "configurations"], "every sequence of installs and cancels (any order) over functions, methods of several receivers and generics, through every installing API, up to a depth",
  "Tests install one or two mocks and cancel them in LIFO order through defer; none enumerates cancellation orders, receivers times APIs, or checks unrelated targets after each step.",
  ["runtime/mock/mock.go", "runtime/mock/patch.go", T+"mock.go", T+"mock_api.go", T+"intercept.go"],
  [("per-goroutine list of replacements, removal by identity", T), ("most recent applicable replacement lookup", T)],
  observe=["mock.Mock/Patch/MockByName/MockMethodByName/PatchByName/PatchMethodByName", "trap.AddFuncInterceptor"])
p("C02", "Mocks are confined to the goroutine that installed them",
  "A mock, patch, recorder or interceptor installed by a goroutine affects calls made by that goroutine only, for every interleaving with other goroutines that call, install and cancel on the same functions, and disappears when that goroutine ends, also for goroutines started later. A goroutine started while hooks are active begins with the hooks its parent had at that go statement, bound to the same targets and receivers; from then on installs and cancels on either side do not affect the other. A mock installed during package initialization applies to every goroutine until it is cancelled, with a goroutine's own mock taking precedence.",
  ["schedules", "histories"], "all interleavings of the operations of 2-3 goroutines over a shared set of functions, including goroutine exit and reuse of the runtime's goroutine objects",
  "Tests run one goroutine pair in one accidental order; isolation must hold at every interleaving point and across goroutine reuse.",
  [T+"stack.go", T+"mock.go", T+"init.go", "instrument/instrument_runtime/", "runtime/mock/"],
  [("goroutine-local state attached to the runtime's g and dropped at exit", "instrument/instrument_runtime"), ("global list during init", T)])
p("C03", "A variable mock replaces reads and never touches the variable",
  "Reading a mocked package variable, by value or through its address, in instrumented code yields what the most recent active mock of that variable says, reading any other variable yields its own value, and after cancelling in any order reads yield exactly what earlier mocks or the real storage say. Installing, triggering or cancelling variable mocks never changes the stored value, while writes to the variable always reach the storage.",
  ["histories", "inputs"], "every sequence of mock, cancel, read, address-read and write operations over variables of several shapes, up to a depth",
  "Tests cover one variable shape at a time with a single mock, never interleaving writes, pointer reads and out-of-order cancels.",
  [T+"var.go", T+"mock.go", "instrument/instrument_var/", "instrument/resolve/"],
  [("read sites rewritten to getters", "instrument/instrument_var"), ("getter trap", T+"var.go")])
p("C04", "Interceptors and recorders follow the pre/call/post protocol",
  "For every call, the interceptors and recorders that are active for it when the call begins are entered, the original runs at most once (not at all when one asks to replace or abort it), and every one entered (except one that itself aborts) is left exactly once, in reverse order of entry and with its own data, receiving the call's actual receiver, arguments and results; changes it makes to arguments or results are what the callee or caller sees. Installing or cancelling hooks during a call affects later calls only. An error other than the skip/abort signals is never lost.",
  ["histories", "inputs", "configurations"], "every combination of up to three interceptors/recorders with each behaviour (continue, abort, modify, cancel itself, replace) on calls that return or panic",
  "Tests use a single interceptor with one behaviour; order, pairing and data hand-over need combinations.",
  [T+"trap.go", T+"intercept.go", T+"record.go", "runtime/trap/", "runtime/trace/"],
  [("pre functions collected, post functions run in reverse from a deferred call", T+"trap.go")])
p("C05", "A collected trace is exactly the executed call tree",
  "A trace collected around a piece of code contains exactly the instrumented calls executed inside it, once each, nested and ordered as executed, with the arguments, results, errors and panics those calls had; calls of goroutines started inside appear under their own go entry, and nothing executed before, after or elsewhere, nor calls made from inside hooks and mocks, appears. The exported file is valid and carries the same tree.",
  ["programs", "histories"], "every call tree up to a size with every mix of returning, failing, panicking, recovering, mocked and nested-trace calls",
  "Tests compare a couple of golden traces; the tree shapes, panics and recoveries between frames are not enumerated.",
  [T+"trace.go", T+"stack.go", "runtime/internal/stack/", "runtime/trace/"],
  [("call entries pushed on entry and popped on exit", T), ("export conversion", "runtime/internal/trap")])
p("C06", "Tracing does not change what the program does",
  "Running code under a trace, with or without an output file, options or nested traces, yields the same results, errors, panics and side effects as running it without, and mocks active before the trace remain active during and after it. When the outermost trace ends no recording remains.",
  ["programs", "histories", "configurations"], "every sequence of mock, cancel, call, nested trace and panic steps up to a depth, run both with and without tracing",
  "Tests trace code that has no mock and compare only the trace; transparency is a two-run property.",
  [T+"trace.go", "runtime/trace/"], [("trace scope attach/detach", T+"trace.go")])
p("C07", "Goroutine-local variables are isolated and inherited as declared",
  "A goroutine-local variable reads, in each goroutine, the last value that goroutine stored, or its default; values never leak to other goroutines, including goroutines that reuse the resources of an ended one. A variable declared inheritable starts in a new goroutine with the value that the parent had when it executed the go statement, and others start at their default.",
  ["schedules", "histories"], "all interleavings of get/set/reset/spawn/exit operations by parent, child and grandchild goroutines",
  "Tests perform one set and one spawn; inheritance at the moment of spawn and non-leakage are interleaving properties.",
  ["runtime/tls/", "runtime/internal/runtime/", "instrument/instrument_runtime/"], [("per-g slots copied at newproc", "instrument/instrument_runtime")])
p("C08", "Hooks that panic, exit or re-enter leave the system consistent",
  "When a mock, interceptor, recorder or the intercepted function panics, calls Goexit or calls instrumented functions again (including the mocked one), the panic value reaches the caller unchanged, calls made from inside a hook reach no general interceptor and no trace (so hooks do not recurse through them) while a mocked function called from there is still mocked, and afterwards all installed mocks and traces behave exactly as they would had nothing happened.",
  ["histories", "fault_sequences"], "every placement of panic/Goexit/re-entrant call in the phases (pre, body, post) of up to two hooks over short call chains",
  "Tests do not inject panics or Goexit into hooks, let alone in each phase of nested hooks.",
  [T+"trap.go", T+"intercept.go", T+"trace.go"], [("re-entrancy flag", T), ("deferred post handling", T)])
p("C09", "Concurrent traces and goroutines never corrupt each other's records",
  "With goroutines spawned and calling concurrently under a trace, each collected trace is a well formed tree in which a goroutine's calls appear once, under the right parent and in program order, for every interleaving with trace completion; finishing, exporting or starting another trace while children still run neither crashes, deadlocks nor alters what other goroutines record.",
  ["schedules"], "all interleavings of call entry/exit, spawn, goroutine end and trace end of 2-3 goroutines",
  "Tests use sleeps or wait groups giving one schedule; races between export and recording need all of them.",
  [T+"trace.go", T+"stack.go", "runtime/internal/stack/"], [("locking of shared recording state", "runtime/internal/stack")])
p("C10", "Every instrumented function is found with its true identity",
  "Each function and method (value and pointer receiver, generic) of an instrumented package, each interface declared in it and each package variable of it that the program mocks is listed exactly once, with its package, name, receiver type and name, parameter and result names (unnamed and blank ones may have any), file and declaration line as in the source, and nothing else of that package is; looking it up by value, by program counter, by full name or by type and method, and being called under an interceptor, yield that same entry; lookups of things that do not exist report so without crashing. In packages outside the main module this holds for exported declarations within the documented quota per file and package.",
  ["programs", "inputs"], "every declaration shape from a grammar (receivers, results, names, variadics, blank and unnamed parameters, generics) and every lookup route",
  "Tests look up a few functions; consistency among all lookup routes for all shapes is not covered.",
  ["runtime/functab/", "runtime/internal/", "instrument/instrument_reg/", "instrument/instrument_func/"], [("registration emitted per file", "instrument/instrument_reg"), ("index by pc, name and type", "runtime/functab")])
p("C11", "Instrumentation preserves program behaviour",
  "A program built through xgo, with no mock, trap or trace active, compiles whenever it compiles with go and produces the same output, panics and exit status, whatever declarations and statements it contains. Options that only add observation (strict trap, trap-all) do not change this either.",
  ["programs", "configurations"], "every program generated by bounded grammars of declarations, shadowings, control flow and expressions, compared between go and xgo",
  "Tests compile a fixed list of sample programs; semantic preservation quantifies over all programs.",
  ["instrument/", "cmd/xgo/instrument.go"], [("source rewriting of functions, variables and interfaces", "instrument/")])
p("C12", "Instrumented code reports original source positions",
  "Stack traces, runtime callers, panics, test failure locations and function line information of an instrumented program name the original file and line, as when built by go.",
  ["programs"], "every program generated by the same grammar, comparing the positions of every call site and panic",
  "Tests assert one or two line numbers.",
  ["instrument/edit/", "instrument/instrument_func/", "instrument/instrument_var/", "instrument/build/"], [("same-line edits and line directives", "instrument/edit")])
p("C13", "xgo leaves user sources and the original toolchain untouched",
  "No xgo command changes, creates or removes a file of the user's sources or of the original Go installation, apart from the documented generated directory; running any sequence of xgo commands, repeated or interrupted, leaves them byte-identical, and plain go commands on the project keep working.",
  ["histories", "configurations", "crash_points"], "every sequence of xgo commands and options up to a depth, on projects of several layouts, comparing full tree snapshots",
  "Tests inspect command output, not the file tree.",
  ["cmd/xgo/main.go", "cmd/xgo/instrument.go", "instrument/overlay/"], [("edits delivered through a build overlay", "cmd/xgo")])
p("C14", "Overlays behave as a layered read-only file system",
  "Reading a path through the overlay yields the most recent overriding content or redirected file set for that path and otherwise the file on disk, for every sequence of overrides, redirects and copies; merging overlays and writing them out produces a build overlay by which the go command sees exactly that content, and the disk files are never modified.",
  ["histories", "inputs"], "every sequence of override/redirect/merge/read operations over a few paths, up to a depth",
  "Tests set one override and read it back.",
  ["instrument/overlay/"], [("path to content or path map", "instrument/overlay")])
D = "instrument/patch/"
p("C15", "Applying a patch is idempotent",
  "Applying patch files, patch directories or marked source edits to files that already contain the result yields the same text, for every file and every valid set of edits; hence setting up twice equals setting up once.",
  ["inputs", "histories"], "all patch files from a bounded grammar of the DSL's commands over small files, and all sequences of marked edits, applied repeatedly",
  "Tests apply a handful of patches once or twice.",
  [D, "patches/"], [("begin/end markers around inserted text", D), ("clearing before applying", D+"apply.go")], observe=["patch.ApplyXgoPatchContent/ApplyXgoPatchFile/ApplyPatches/UpdateContent*/AddContent*"])
p("C16", "Removing a patch restores the original text",
  "For every file and every sequence of marked edits, removing the edits yields the original text byte for byte, replacing an edit by a newer version equals applying only the newer one, and text outside the edited regions is never altered.",
  ["inputs", "histories"], "all patches and sequences of add/replace edits and cleanups with varied names over small files, and all short texts of markers",
  "Tests check fixed strings.",
  [D], [("marker comments recording the replaced text", D+"clean_patch.go")], observe=["patch.CleanPatch", "patch.ApplyXgoPatchContent"])
p("C17", "A patch puts exactly the requested text at the requested place",
  "For each command of a patch the inserted, replaced, copied or appended text appears exactly once, verbatim, at the position its selector and command describe, whatever other commands and blocks are in the file and whatever their order of positions, and the rest of the file is unchanged.",
  ["inputs"], "all sequences of the DSL's commands up to a length over generated Go sources, and pairs of blocks, checked against a reference placement",
  "Tests cover each directive alone on one sample.",
  [D, "PATCH_DSL.md"], [("selector resolution and edit application", D+"apply_engine.go")], observe=["patch.ApplyXgoPatchContent", "patch.UpdateContent*/AddContent*/ReplaceContentAfter"])
p("C18", "A patch that cannot be applied fails with an error and changes nothing",
  "When a selector, directive or anchor does not match, commands contradict each other, or a patch file is malformed or truncated, applying reports an error, never panics, and the target file stays as it was; it never silently does nothing or edits a different place.",
  ["inputs", "fault_sequences"], "every command sequence that has no meaning, every single-fault mutation (missing anchor, bad selector, truncation, damaged line, bad name, missing or unparsable target) of valid patch files and directories",
  "Tests cover few error paths.",
  [D], [("errors propagated before writing", D)], observe=["patch.ApplyXgoPatchContent/ApplyXgoPatchFile/ApplyPatches"])
p("C19", "Patched files on disk always equal the patch of the original",
  "Editing a file of the instrumented toolchain always derives the result from the pristine content, so that after any sequence of edits by different tool versions the file equals what the last edit makes of the original, files are written only when their content changes, and a missing file or anchor is reported.",
  ["histories"], "all sequences of edits, version changes, direct modifications and restores over a file",
  "Tests edit once.",
  ["instrument/patch/", "support/fileutil/", "instrument/build/"], [("backup or marker based restore before edit", "instrument/patch")])
p("C20", "Edit buffers apply edits like independent splices of the original",
  "For every text and every set of non-overlapping insertions, deletions and replacements, given in any order, the result is the original with each edit applied at its original offset, insertions at the same offset keeping their order; overlapping edits are rejected instead of producing garbage.",
  ["inputs", "histories"], "all sequences of up to 4 edits over all offsets of short texts, against a reference splice",
  "Tests cover a few edits.",
  ["support/edit/", "instrument/edit/"], [("sorted edit list", "support/edit")])
p("C21", "Path patterns match exactly the paths they denote",
  "A pattern matches a path exactly when the segments correspond, with a star matching any run of characters within a segment (a segment of stars only may also be absent at the end of the path) and a double star any number of segments; the prefix form accepts exactly the paths of which a leading run of segments matches fully, and a list of patterns accepts what any of its patterns accepts.",
  ["inputs"], "all patterns and paths over a small alphabet up to a length, against an independent segment-wise reference",
  "Tests list a few pairs.",
  ["support/pattern/", "patch/legacy/match/"], [("segment-wise matching", "support/pattern")])
p("C22", "File copying and linking reproduce the source tree or report failure",
  "A copy that reports success leaves a destination with exactly the source's files, contents, directories, links and relevant modes minus the ignored paths, whatever was there before and whatever the concurrency; any failure to read or write is reported, the source is never modified, and a later copy repairs an interrupted one.",
  ["histories", "configurations", "fault_sequences"], "all small trees times options times pre-existing destinations, and a fault at every file-system step",
  "Tests copy one tree without faults.",
  ["support/filecopy/", "support/fileutil/"], [("walk, ignore list, worker pool", "support/filecopy")])
p("C23", "Version and module information is parsed and compared correctly",
  "Parsing a Go or module version, the output of the go command, a go.mod file or a vendor list yields the information the text states, comparing versions is a total order that agrees with the Go release order, and converting back to text and parsing again is the identity; malformed input yields an error, not a wrong version.",
  ["inputs"], "all version strings over a bounded alphabet and all small go.mod files from a grammar, against an independent reference",
  "Tests cover a few versions.",
  ["support/goinfo/", "support/testconfig/"], [("version parser and comparator", "support/goinfo")])
p("C24", "Coverage profiles are merged and reported without loss",
  "Merging profiles yields, for every block, the sum (or union, in set mode) of its counts with each block once, independent of the order and grouping of the merge and without altering its inputs; formatting and parsing are inverse, and filtering or compacting changes only what it names.",
  ["inputs", "histories"], "all small sets of profiles over a few blocks, all merge orders, against a multiset reference",
  "Tests merge two fixed profiles.",
  ["support/coverage/", "cmd/xgo/coverage/"], [("block-keyed merge", "support/coverage")])
p("C25", "Command-line flags are divided between xgo and go without loss",
  "For every command line, flags meant for xgo take effect with the given value in each spelling, all others reach the go command unchanged and in order, arguments after the packages or the separator reach the program, and an unknown or incomplete flag is reported.",
  ["inputs"], "all argument lists up to a length over an alphabet of flags, values, packages and separators, against the go command's flag grammar",
  "Tests cover a dozen lines.",
  ["cmd/xgo/option.go", "support/flag/", "cmd/xgo/main.go"], [("option parser", "cmd/xgo/option.go")])
p("C26", "Installing a Go toolchain survives interruption at any point",
  "Whatever the point at which a toolchain download, extraction or source preparation fails or is killed, and whatever a retry or concurrent run finds, a later run ends with a complete and correct installation or reports an error; a partial installation is never taken for complete, and archive entries never escape the destination.",
  ["crash_points", "fault_sequences", "schedules"], "a crash or fault at every file-system or network step, followed by a clean re-run",
  "Tests run the success path.",
  ["support/downloadgo/", "support/gitgoroot/", "support/httputil/"], [("temporary directory then rename, markers", "support/downloadgo")])
p("C27", "Instrumented toolchain setup converges after interruption or change",
  "Whatever the point at which setup is interrupted, and whatever version of the tool or toolchain ran before, the next run ends with the same instrumented toolchain that a run from scratch produces; a stale or partial toolchain is never used.",
  ["crash_points", "histories", "configurations"], "a crash at every file-system mutation of setup, and all short histories of setups with differing versions, compared with a fresh setup",
  "Tests run setup once from scratch.",
  ["cmd/xgo/main.go", "cmd/xgo/instrument.go", "instrument/build/", "cmd/xgo/pathsum/"], [("revision file written last, tree synchronisation", "cmd/xgo")])
p("C28", "Rendered traces show exactly the recorded calls",
  "Converting a stored trace for display keeps every call once, under its parent and in order, with its data escaped so that no content changes the page structure, for every trace including deep, empty, panicking and malformed ones; bad input yields an error page, not a crash.",
  ["inputs"], "all small trace trees with special characters in every field",
  "Tests convert golden files.",
  ["cmd/xgo/trace/", "cmd/xgo/test-explorer/"], [("tree conversion and rendering", "cmd/xgo/trace")])
p("C29", "Structural source comparison and transformation are faithful",
  "Two sources are considered equal exactly when they differ only in what the comparison ignores, changes are attributed to the declaration in which they occur, and transforming a source and printing it preserves all it is not asked to change.",
  ["inputs"], "all pairs of sources from a small grammar with single edits",
  "Tests compare a few pairs.",
  ["support/transform/", "instrument/ast/"], [("tree comparison", "support/transform")])
p("C30", "Event sessions deliver every event once, in order",
  "Every event sent to a live session is received exactly once and in order by polling, for every interleaving of senders, pollers and session end, and polls of ended or unknown sessions terminate with an error; handlers report failures as failures.",
  ["schedules", "fault_sequences"], "all interleavings of send, poll and destroy operations, and all handler outcomes",
  "Tests do not exist for sessions.",
  ["support/session/", "support/netutil/", "cmd/xgo/test-explorer/"], [("buffered channel per session", "support/session")])
p("C31", "Trace data always serialises to valid output",
  "Exporting recorded values never fails or loses the trace: for every value, including cyclic, huge, panicking, unsupported or concurrently odd ones, the export is valid JSON, with the values it can represent unchanged.",
  ["inputs"], "all small compositions of value kinds (funcs, channels, NaN, cycles, failing marshalers, maps with odd keys)",
  "Tests marshal a few values.",
  [T, "runtime/internal/", "instrument/instrument_runtime/"], [("tolerant marshalling", "runtime/internal")])

p("C32", "Coverage under xgo is that of the original code",
  "A coverage profile produced through xgo lists the same blocks of the original source with the same counts as one produced by go, in every mode and for every selection of packages; code added by instrumentation never appears in it.",
  ["programs", "configurations"], "every program of a bounded grammar, every coverage mode and package selection, compared between go and xgo",
  "Tests do not compare profiles.",
  ["instrument/instrument_go/", "patches/", "cmd/xgo/instrument.go"], [("edit notes and patched cover tool", "instrument/instrument_go/go_tool_cover.go")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
