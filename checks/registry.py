"""Property id -> check function, plus the MANIFEST text of each check."""
from checks import c10, c11, inproc, rt

CHECKS = {}
META = {}


def reg(pid, fn, technique, note, level="model_checking"):
    CHECKS[pid] = fn
    META[pid] = dict(technique=technique, level=level, note=note)


EXPL = "stateless model checking of the implementation (exhaustive enumeration of operation sequences up to a depth, reference model compared after every step)"

reg("C01", rt.suites("c01.func=6 c01.name=6 c01.ptr=6 c01.ptr2=6 c01.meth=6 c01.val=6 c01.unc=6 c01.gen=6 c01.ctx=6 c01.glob=6 c01.mix=5",
                     "c01.func=6 c01.name=6 c01.ptr=6 c01.ptr2=6 c01.meth=6 c01.val=6 c01.unc=6 c01.gen=6 c01.ctx=6 c01.glob=6 c01.mix=5"),
    EXPL, "program instrumented and built by xgo from the working tree; every install/cancel sequence to the depth")
reg("C02", rt.suites("c02.mock=6 c02.rec=5 c02.mix=6 c02.wide=6", "c02.mock=7 c02.rec=7 c02.mix=7 c02.wide=9"),
    EXPL + "; all interleavings at operation granularity of 2-3 goroutines", "goroutines hand a token over, so every interleaving of installs, cancels, calls, go statements and goroutine ends is reached")
reg("C03", rt.suites("c03.int=4 c03.str=4 c03.struct=4 c03.ptr=5 c03.arr=5 c03.slice=5 c03.map=5 c03.iface=5 c03.my=5 c03.rec=5 c03.mix=4",
                     "c03.int=5 c03.str=5 c03.struct=5 c03.ptr=6 c03.arr=6 c03.slice=6 c03.map=6 c03.iface=6 c03.my=6 c03.rec=6 c03.mix=5", procs=True),
    EXPL, "every install/cancel/write sequence on variables of each kind; the storage is read behind xgo's back after every read")
reg("C04", rt.suites("c04.P=3 c04.PM=2 c04.PV=2 c04.PC=2 c04.PG=2 c04.P3=4 c04.PM3=3 c04.var=3",
                     "c04.P=3 c04.PM=3 c04.PV=3 c04.PC=3 c04.PG=3 c04.P3=5 c04.PM3=4 c04.var=4"),
    EXPL, "every combination of up to 3-4 hooks x behaviours x mock x outcome on functions, methods and variables; events, results and the calls after are compared with the protocol")
reg("C05", rt.suites("c05.calls=3 c05.flow=3 c05.mock=2 c05.go=3 c05.mode=2 c05.gc=3",
                     "c05.calls=3 c05.flow=4 c05.mock=3 c05.go=4 c05.mode=3 c05.gc=4", procs=True),
    EXPL.replace("operation sequences", "call trees"), "every program (call tree with outcomes, recovery, deferred calls, goroutines, mocks, nested traces, filters, variable reads) up to the size; the collected tree, its JSON and the exported file are compared with the executed one")
reg("C06", rt.suites("c06.prog=3 c06.mock=3 c06.odd=2 c06.seq=6", "c06.prog=4 c06.mock=4 c06.odd=3 c06.seq=8", procs=True),
    EXPL, "every program of C05 run untraced, with an unused, a collected and an exported trace; every sequence of entering and leaving traces, installing and cancelling mocks and calling")
reg("C07", rt.suites("c07.two=6 c07.three=5 c07.keys=5 c07.coro=5", "c07.two=8 c07.three=7 c07.keys=6 c07.coro=7"),
    EXPL + "; all interleavings at operation granularity of up to three goroutines and coroutines", "goroutine-local keys set, read, inherited and dropped under every schedule of token-passing goroutines")
reg("C08", rt.suites("c08.all=2 c08.few=3", "c08.all=2 c08.few=4"),
    EXPL.replace("operation sequences", "fault sequences"), "every sequence of 2-3 faults (panic, runtime error, Goexit, re-entry, cancel, nested trace ...) at every kind of hook; results, hooks and the trace of everything afterwards are compared")
reg("C09", rt.suites_race("c09.two=7 c09.three=6 c09.fail=5", "c09.two=8 c09.three=7 c09.fail=6", "c09.two=6 c09.three=5 c09.fail=4", "c09.two=7 c09.three=6 c09.fail=5"),
    EXPL.replace("operation sequences", "schedules") + "; a happens-before race check of every explored schedule in a -race build whose hand-over creates no ordering", "all interleavings of call entry, return, failure, panic, Goexit, go, trace begin and end of 2-3 goroutines")
reg("C10", c10.check, "exhaustive enumeration of a grammar of declarations (receiver x type parameters x parameters x results) compiled by xgo, crossed with every lookup route, and of all names one edit away from existing ones",
    "the oracle is go/parser over the generated sources; main-module and dependency packages")
reg("C20", inproc.suites("c20", "c20.buf=3 c20.buf2=4 c20.empty=4 c20.late=3 c20.go=3 c20.bad=0 c20.line=4 c20.line1=4 c20.linemany=0 c20.many=0",
                            "c20.buf=4 c20.buf2=5 c20.empty=5 c20.late=4 c20.go=4 c20.bad=0 c20.line=5 c20.line1=5 c20.linemany=0 c20.many=0"),
    EXPL, "every sequence of insertions, deletions and replacements over all offsets of short texts, in every order, against a reference splice of the original")
reg("C21", inproc.suites("c21", "c21.pat=8 c21.star=9 c21.uni=5 c21.list=2", "c21.pat=9 c21.star=10 c21.uni=6 c21.list=3"),
    "exhaustive enumeration of all patterns and paths over a small alphabet up to a total length, against a reference matcher", "every form (full, prefix, suffix, list) of both matchers")
reg("C15", inproc.suites("c15", "c15.one=4 c15.wide=2 c15.two=2 c15.upd=3 c15.dirs=0 c15.shipped=0", "c15.one=5 c15.wide=3 c15.two=3 c15.upd=4 c15.dirs=0 c15.shipped=0"),
    EXPL.replace("operation sequences", "patch programs"), "every patch file of up to two blocks from the DSL's commands on several sources, every sequence of update functions, every combination of patch directory contents, and the shipped patches on the installed Go sources")
reg("C16", inproc.suites("c15", "c16.one=3 c16.two=2 c16.upd=3 c16.hand=6 c16.shipped=0", "c16.one=4 c16.wide=2 c16.two=3 c16.upd=4 c16.hand=7 c16.shipped=0"),
    EXPL.replace("operation sequences", "patch programs"), "every patch is removed again and replaced by every newer version; also all short texts of markers")
reg("C17", inproc.suites("c15", "c17.one=4 c17.wide=3 c17.small=4 c17.two=2 c17.upd=3 c17.shipped=0", "c17.one=5 c17.wide=4 c17.small=5 c17.two=3 c17.upd=4 c17.shipped=0"),
    EXPL.replace("operation sequences", "patch programs"), "results are compared with an independent evaluation of the DSL written from PATCH_DSL.md")
reg("C18", inproc.suites("c15", "c18.err=3 c18.bad=0 c18.dirs=0", "c18.err=4 c18.bad=0 c18.dirs=0"),
    EXPL.replace("operation sequences", "patch programs") + "; every truncation and every single-line damage of patch files", "an error and an unchanged file exactly when the reference evaluation fails")
reg("C14", inproc.suites("c14", "c14.ops=2 c14.two=2 c14.odd=3 c14.compose=3 c14.compose4=2 c14.alias=0",
                            "c14.ops=3 c14.two=4 c14.odd=4 c14.compose=3 c14.compose4=4 c14.alias=0"),
    EXPL, "every sequence of overrides, redirects, deletions and disk writes by every spelling of a few paths; every pair of a caller's and a generated overlay; the written overlay file is read back as the go command would")
reg("C19", inproc.suites("c19", "c19.file=4 c19.crlf=3 c19.generic=3 c19.json=4 c19.real=1 c19.cut=2 c19.missing=0",
                            "c19.file=5 c19.crlf=4 c19.generic=4 c19.json=5 c19.real=2 c19.missing=0"),
    EXPL + "; every interruption between two files of instrumenting the sources of the installed Go releases", "edit histories of one file against a model; the real edits on real sources, re-applied after every partial application")
reg("C23", inproc.suites("c23", "gover=5 goorder=4 semver=5 semorder=4 goline=4 goconstraint=5 gomod=3 moddirs=4 within=4 vendor=4",
                            "gover=7 goorder=6 semver=7 semorder=5 goline=6 goconstraint=5 gomod=5 moddirs=6 within=6 vendor=5"),
    "exhaustive enumeration of all version strings, pairs of versions, go.mod files, module trees and vendor lists over small alphabets up to a length, against reference parsers",
    "references: go/version of the standard library, the go command's own modfile and semver packages, and semver.org's grammar")
reg("C24", inproc.suites("c24", "one=5 two=3 three=2 format=4 cmd=2", "one=6 two=4 three=3 format=5 cmd=3"),
    "exhaustive enumeration of all sets of up to three profiles over a few blocks and counts, in every order and grouping of merges, against a multiset reference",
    "also the merge and compact commands on files, including output over an input")
reg("C30", inproc.suites("c30", "poll=6 full=5 senders=5 pollers=5 two=4 handlers=0 ports=5", "poll=8 full=7 senders=6 pollers=7 two=6 handlers=0 ports=7",
                         flags=("-race",), env={"GODEBUG": "asynctimerchan=0", "GORACE": "exitcode=66 halt_on_error=1"}),
    EXPL.replace("operation sequences", "schedules") + " in virtual time, with the race detector",
    "all orders in which sends (also beyond the buffer), polls, destruction and the passing of time begin, for one or two senders, pollers and sessions; all outcomes of JSON handlers and of serving ports")
reg("C22", inproc.suites("c22", "trees=1 states=5 faults=2 many=6 overlap=0 dots=5 files=0 helpers=0", "trees=2 states=5 faults=3 many=12 overlap=0 dots=5 files=0 helpers=0"),
    EXPL.replace("operation sequences", "source trees, options and spellings of the paths") + "; a permission fault at every set of up to 2-3 files and directories",
    "copying twice, over every kind of existing destination, with failures of any worker, into, from and around the source; a repaired copy after every failure")
reg("C11", c11.check, "exhaustive enumeration of a grammar of programs (kinds of variables x uses x contexts, shadowings, wrappings, function shapes, file layouts, endings), each built by go and by xgo and run; outputs and endings compared",
    "the reference implementation is the go command; compile errors of xgo are attributed to programs by position")
reg("C12", c11.check, "exhaustive enumeration of the programs of C11; every position they observe (callers, panics, function lines, tracebacks, log and test locations) is compared between go and xgo",
    "the reference implementation is the go command")
reg("C32", c11.cover, "exhaustive enumeration of the programs of C11 with coverage: every block and counter of the profile is compared between go and xgo, for every mode and package selection",
    "the reference implementation is the go command; the cover tool and the go command are the ones xgo setup builds")
reg("C31", rt.json_check, "exhaustive enumeration of values (kinds of odd values x wrappers up to a depth) x places in a call x ways of exporting, traced by a program built by xgo; the exported text is parsed and compared with what encoding/json says of each value",
    "both encoders of Go 1.27 (GOEXPERIMENT jsonv2 and nojsonv2); values larger or deeper than the limits may become text")
NA = {}
