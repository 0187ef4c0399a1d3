"""Which harness runs decide which property, per tier."""
CHECKS = {}
def check(id, technique, note, runs, level_note, level="model_checking", assumptions=()):
    CHECKS[id] = dict(technique=technique, note=note, runs=runs, level=level, level_note=level_note, assumptions=list(assumptions))
def run(harness, variant, spaces, quick=None, thorough=None, **kw):
    return dict(harness=harness, variant=variant, spaces=spaces, quick=quick or {}, thorough=thorough or {}, **kw)

SCHED = ["sequentially consistent memory; interleavings at synchronisation and atomic operations (unsynchronised plain accesses are checked for lifetime, and become scheduling points where the check says so)",
         "pthread primitives, clock and heap behave as the runtime in lib/fib.c models them"]
TS = "stateless model checking of the real code: controlled scheduler, all interleavings up to a deviation bound"
check("C01", TS, "queue transfer configurations; bound = preemptions + spurious wake-ups", [
    run("queue", "fib", ["xfer"], {"bound": 5}, {"bound": 9}), run("queue", "fib", ["spur"], {"bound": 3}, {"bound": 5}), run("queue", "fib", ["hist"], {"depth": 6}, {"depth": 8}),
    run("queue", "fib", ["gen"], {"alpha": 1, "bound": 1}, {"alpha": 2, "bound": 2}), run("queue", "fib", ["gen"], {"alpha": 0, "bound": 2}, {"alpha": 1, "bound": 3}),
    run("many", "fib", ["queue"], {"max": 520}, {"max": 1100})],
    "Every schedule of the listed 2-4 thread configurations within the bound, on the real code. Filling and emptying of queues of up to 1025 elements, at sizes around every power of two, on one schedule.", assumptions=SCHED)
check("C02", TS, "queue wake-up configurations", [
    run("queue", "fib", ["wake"], {"bound": 6}, {"bound": 9}), run("queue", "fib", ["spur"], {"bound": 3}, {"bound": 5}),
    run("queue", "fib", ["gen"], {"alpha": 1, "bound": 1}, {"alpha": 2, "bound": 2}), run("queue", "fib", ["gen"], {"alpha": 0, "bound": 2}, {"alpha": 1, "bound": 3})],
    "Every schedule of the listed 1-4 thread configurations within the bound, on the real code.", assumptions=SCHED)
check("C03", TS, "thread pool configurations of 1..3 workers, 1..3 callers", [
    run("threadpool", "fib", ["once"], {"bound": 2}, {"bound": 3}), run("threadpool", "fib", ["once"], {"bound": 3, "small": 5}, {"bound": 5, "small": 5}), run("threadpool", "fib", ["spur"], {"bound": 2, "small": 5}, {"bound": 3, "small": 6}),
    run("threadpool", "fib", ["mix"], {"bound": 1}, {"bound": 2}), run("threadpool", "fib", ["mix"], {"bound": 2, "len": 1}, {"bound": 2, "len": 1, "threads": 3}),
    run("many", "fib", ["pool"], {"max": 520}, {"max": 1100})],
    "Every schedule of the listed configurations within the bound, on the real code. Up to 1025 jobs on up to 12 threads in six priority patterns, at sizes around every power of two, on one schedule.", assumptions=SCHED)
check("C04", TS, "submission histories; blocking submitters", [
    run("threadpool", "fib", ["order"], {"depth": 7}, {"depth": 9}), run("threadpool", "fib", ["block"], {"bound": 2}, {"bound": 3}),
    run("threadpool", "fib", ["gen"], {"bound": 2, "len": 1}, {"bound": 3, "len": 1}), run("threadpool", "fib", ["gen"], {"bound": 2, "threads": 2}, {"bound": 1, "threads": 3, "alpha": 1}),
    run("many", "fib", ["pool"], {"max": 520}, {"max": 1100})],
    "Every submission history up to the depth; every schedule of the blocking configurations within the bound. Up to 1025 jobs in six priority patterns, at sizes around every power of two.", assumptions=SCHED)
check("C05", TS, "lifecycle histories", [
    run("threadpool", "fib", ["life", "conc"], {"bound": 2}, {"bound": 4}), run("threadpool", "fib", ["self"], {"bound": 3}, {"bound": 4}),
    run("many", "fib", ["refs"])],
    "Every schedule of the listed lifecycle histories within the bound. Up to 70000 references.", assumptions=SCHED)
check("C06", TS + " with virtual time", "sets of schedules over a small domain of delays, periods, repeats and execution modes", [
    run("scheduler", "fib", ["times"], {"n": 3}, {"n": 4}),
    run("many", "fib", ["sched", "runs"], {"max": 520})],
    "Every schedule set of the domain, on the real code under virtual time. Up to 513 schedules in four delay patterns, and up to 513 runs of one.", assumptions=SCHED)
check("C07", TS + " with virtual time", "control histories, control races, generated control programs", [
    run("scheduler", "fib", ["hist"], {"depth": 5}, {"depth": 6}), run("scheduler", "fib", ["race"], {"bound": 3}, {"bound": 5}), run("scheduler", "fib", ["self"], {"bound": 4}, {"bound": 6}), run("scheduler", "fib", ["free"], {"bound": 3}, {"bound": 5}), run("scheduler", "fib", ["syncself"]),
    run("scheduler", "fib", ["gen"], {"alpha": 1, "bound": 2, "len": 1}, {"alpha": 1, "bound": 1, "len": 2}), run("scheduler", "fib", ["gen"], {"alpha": 1, "bound": 0, "len": 2}, {"alpha": 2, "bound": 2, "len": 1}),
    run("many", "fib", ["sched"], {"max": 520})],
    "Every sequential control history up to the depth against a reference model; every schedule of the listed control races and of every pair of control programs up to the length within the bound. Up to 513 schedules, every third removed, deleted or added again.", assumptions=SCHED)
check("C08", TS + " with virtual time", "overlap, callbacks, drops, deletion", [
    run("scheduler", "fib", ["exact"]), run("scheduler", "fib", ["over"], {"bound": 3}, {"bound": 4})],
    "Every combination of mode, duration and limits against a reference; every schedule of the listed overlap/deletion configurations within the bound.", assumptions=SCHED)
SEQ = ["allocation does not fail", "values outside the alphabets behave as those inside"]
TS2 = "explicit bounded model checking: every operation sequence up to a depth on the real code, compared step by step with a reference model"
check("D01", TS2, "map operation histories, insertion x removal orders", [
    run("dmap", "asan", ["hist"], {"depth": 4}, {"depth": 5}), run("dmap", "plain", ["hist"], {"depth": 5}, {"depth": 6}), run("dmap", "asan", ["perm"], {"n": 6}, {"n": 7}), run("dmap", "plain", ["perm"], {"n": 6}, {"n": 7}),
    run("dmap", "asan", ["big", "access"]), run("dmap", "asanrel", ["access"], {"heap": 0}), run("dmap", "asanrel", ["hist"], {"depth": 4, "heap": 0}, {"depth": 4, "heap": 0}), run("dbig", "plain", ["map"]), run("dbig", "asan", ["map"], {"max": 300}, {"max": 5000})],
    "Every operation sequence up to the depth over 4 keys of each key domain, every insertion x removal order, against a sorted dictionary.", assumptions=SEQ)
check("D02", TS2 + "; key comparisons counted from the memory accesses of the instrumented library", "lookup cost after insertion x removal orders", [
    run("dcost", "trace", ["perm"], {"n": 6}, {"n": 7}), run("dcost", "trace", ["big"]), run("dcost", "trace", ["adverse"], {"sizes": 4, "word": 3}, {"sizes": 5, "word": 4})],
    "Every insertion x removal order of few keys and systematic patterns up to 200 keys; every periodic word of additions and removals at the ends and in the middle, carried on for as long as the cost bound could be outgrown; cost of every present and absent key.", assumptions=SEQ)
check("D03", TS2, "list and iterator histories", [
    run("dseq", "asan", ["list"], {"depth": 5}, {"depth": 6}), run("dseq", "plain", ["list"], {"depth": 6}, {"depth": 8}), run("dseq", "asanrel", ["list"], {"depth": 4, "heap": 0}, {"depth": 5, "heap": 0}), run("dbig", "plain", ["list"]), run("dbig", "asan", ["list"], {"max": 5000}, {"max": 5000})],
    "Every operation sequence up to the depth against a plain sequence.", assumptions=SEQ)
check("D04", TS2, "vector and iterator histories; conversions of all small vectors", [
    run("dseq", "asan", ["vec"], {"depth": 5}, {"depth": 6}), run("dseq", "plain", ["vec"], {"depth": 6}, {"depth": 7}), run("dseq", "asan", ["conv"], {"len": 4}, {"len": 5}), run("dseq", "asanrel", ["vec"], {"depth": 4, "heap": 0}, {"depth": 5, "heap": 0}), run("dbig", "plain", ["vec"]), run("dbig", "asan", ["vec"], {"max": 5000}, {"max": 5000})],
    "Every operation sequence up to the depth against an array of optional values; every vector up to the length against a reference conversion.", assumptions=SEQ)
check("D05", TS2, "arrays, binaries, strings: forms, ownership, conversions", [
    run("dseq", "asan", ["array"], {"depth": 6}, {"depth": 7}), run("dseq", "asan", ["string", "xform"]), run("dseq", "asanrel", ["string", "array"], {"depth": 3, "heap": 0}, {"depth": 4, "heap": 0}), run("dbig", "plain", ["arr"]), run("dbig", "asan", ["arr"], {"max": 100000}, {"max": 5000})],
    "Every element type, length, ownership mode and conversion sequence within the bounds against the original bytes.", assumptions=SEQ)
ENU = "explicit bounded model checking: exhaustive enumeration of an input domain on the real code, each result compared with an independent reference"
check("D11", ENU, "all type pairs over boundary values and sweeps", [
    run("dcast", "asan", ["cast", "other"]), run("dcast", "plain", ["sweep"]), run("dseq", "asan", ["xform"])],
    "All pairs of numeric types: all 8/16 bit values, all upper halves of wider values, and values at and around every power of two limit.", assumptions=SEQ)
check("D14", ENU, "all short texts over an alphabet; boundary values in decimal", [
    run("dcast", "asan", ["text"], {"len": 5}, {"len": 6}), run("dcast", "asan", ["numtext", "ftext", "misc"])],
    "Every text up to the length over 13 characters as every type; decimal text of values at and around every limit.", assumptions=SEQ)
check("D15", ENU, "typecodes x values; all small nested vectors", [
    run("dcast", "plain", ["tceq"]), run("dcast", "asan", ["tc", "kinds"]), run("dcast", "asan", ["dims"], {"depth": 3, "width": 2}, {"depth": 3, "width": 3})],
    "All typecode pairs (over 6 key types); values of every type, element and key type against all 9261 typecodes; every nested vector up to depth 3 and the width.", assumptions=SEQ)
check("D06", ENU, "all pairs and triples of a value alphabet", [
    run("dlaw", "asan", ["pairs"], {"grammar": 3}, {"grammar": 4}), run("dlaw", "plain", ["triples"], {"grammar": 3}, {"grammar": 4}), run("dlaw", "asanrel", ["pairs"], {"grammar": 2, "heap": 0}, {"grammar": 3, "heap": 0}), run("dbig", "plain", ["cmp"]), run("dbig", "asan", ["cmp"], {"max": 300}, {"max": 5000})],
    "Every pair and triple of some 400 values (scalars at the limits of every type, strings, arrays, containers nested two deep), compared with the canonical text.", assumptions=SEQ)
check("D07", TS2, "mutation histories on nested containers, hashes read at any point", [
    run("dlaw", "asan", ["hist"], {"depth": 2}, {"depth": 3}), run("dlaw", "plain", ["hist"], {"depth": 3}, {"depth": 4}), run("dlaw", "asan", ["routes"], {"grammar": 2}, {"grammar": 4}), run("dlaw", "asanrel", ["routes"], {"grammar": 1, "heap": 0}, {"grammar": 2, "heap": 0}), run("dlaw", "asan", ["counter"], {"len": 3}, {"len": 5}), run("dlaw", "asanrel", ["hist"], {"depth": 2, "heap": 0}, {"depth": 3, "heap": 0}), run("dbig", "plain", ["hash"]), run("dbig", "asan", ["hash"], {"max": 300}, {"max": 5000})],
    "Every mutation sequence up to the depth, at every node, compared with a freshly built value; every sequence of increments and decrements from the boundary values of every numeric type; every value of the alphabet made in every two of 22 ways (ownerships, constants, conversions, text, counting, growing and shrinking).", assumptions=SEQ)
check("D08", TS2, "copies of every shape, each side mutated at every node", [
    run("dlaw", "asan", ["copy", "shallow", "const"]), run("dlaw", "asanrel", ["copy", "shallow", "const"], {"heap": 0}), run("dbig", "plain", ["copy"]), run("dbig", "asan", ["copy"], {"max": 300}, {"max": 5000})],
    "Every listed shape, every mutation of every node on either side, either order of release.", assumptions=SEQ)
check("D09", ENU, "compression of every small composed value", [
    run("dlaw", "asan", ["compress"], {"parts": 2}, {"parts": 2}), run("dlaw", "plain", ["compress"], {"parts": 2}, {"parts": 3}), run("dlaw", "asanrel", ["compress"], {"parts": 1, "heap": 0}), run("dbig", "plain", ["compress"]), run("dbig", "asan", ["compress"], {"max": 129}, {"max": 5000})],
    "Every vector, list and map of up to 3 parts out of 26 that collide in content, type, element type or metadata; own, shared and repeated caches.", assumptions=SEQ)
check("D10", TS2, "ownership histories against a reference count model, address sanitizer and leak accounting", [
    run("dmem", "asan", ["own"], {"depth": 4, "kinds": 9}, {"depth": 5}), run("dmem", "plain", ["own"], {"depth": 5}, {"depth": 6}), run("dmem", "asanrel", ["own"], {"depth": 3, "heap": 1}, {"depth": 4, "heap": 1}), run("dmem", "asanrel", ["own"], {"depth": 3, "heap": 0}, {"depth": 4, "heap": 0}),
    run("dseq", "asan", ["list", "vec", "array"], {"depth": 3, "memonly": 1}, {"depth": 4, "memonly": 1}), run("dseq", "asan", ["conv", "string", "xform"], {"len": 2, "memonly": 1}, {"len": 3, "memonly": 1}), run("dmap", "asan", ["hist"], {"depth": 3, "memonly": 1}, {"depth": 4, "memonly": 1}), run("dlaw", "asan", ["hist", "copy", "shallow", "compress"], {"depth": 2, "parts": 1, "memonly": 1}, {"depth": 2, "parts": 2, "memonly": 1}), run("dpath", "asan", ["path"], {"len": 2, "memonly": 1}, {"len": 3, "memonly": 1}), run("dmem", "asan", ["meta"], {"depth": 3, "memonly": 1}, {"depth": 4, "memonly": 1}), run("dbig", "asan", ["list", "vec", "arr", "map", "hash", "copy", "compress", "path", "meta"], {"max": 129, "memonly": 1}, {"max": 5000, "memonly": 1})],
    "Every history up to the depth over three variables and nested shared containers, in the debug and release (block cache) configurations; the operation sequences of the other data checks, judged for memory errors and leaks only.", assumptions=SEQ)
check("D13", TS2, "metadata and tag histories", [
    run("dmem", "asan", ["meta"], {"depth": 4}, {"depth": 5}), run("dmem", "plain", ["meta"], {"depth": 5}, {"depth": 6}), run("dmem", "asanrel", ["meta"], {"depth": 4, "heap": 0}, {"depth": 4, "heap": 0}), run("dbig", "plain", ["meta"]), run("dbig", "asan", ["meta"], {"max": 300}, {"max": 5000})],
    "Every history up to the depth on two values of every kind and a copy.", assumptions=SEQ)
check("D12", ENU, "every value shape x every path x every operation", [
    run("dpath", "asan", ["path"], {"len": 4}, {"len": 5}), run("dpath", "asanrel", ["path"], {"len": 3, "heap": 0}, {"len": 4, "heap": 0}), run("dbig", "plain", ["path"]), run("dbig", "asan", ["path"], {"max": 300}, {"max": 5000})],
    "Every path up to the length over 9 components (keys, indexes in and out of range, ill-typed) on 16 nested values.", assumptions=SEQ)
check("E01", ENU, "JSON written for every value, read by an independent strict reader", [
    run("djson", "asan", ["wscalar", "wstring", "wlong"], {"len": 3}, {"len": 4}), run("djson", "asan", ["wtree"], {"width": 3}, {"width": 4}), run("djson", "asan", ["order"], {"depth": 3}, {"depth": 4}), run("djson", "asanrel", ["wstring"], {"len": 1, "heap": 0}), run("dbig", "asan", ["json"], {"max": 1100}, {"max": 100000})],
    "Boundary numbers of all types, every byte and pair of special bytes, all container combinations of 18 leaves; every initial buffer size up to the length; every order of up to 4 keys read, with later removals, replacements and additions.", assumptions=SEQ)
check("E02", ENU, "all short texts and token sequences through the JSON readers", [
    run("djson", "asan", ["rchars"], {"len": 5}, {"len": 6}), run("djson", "plain", ["rchars"], {"len": 6}, {"len": 7}), run("djson", "asan", ["rtokens"], {"len": 4}, {"len": 5}), run("djson", "plain", ["rtokens"], {"len": 5}, {"len": 6}), run("djson", "asan", ["rdocs", "rescape"], {"width": 2}, {"width": 3}), run("djson", "asan", ["rseq"], {"len": 3}, {"len": 5}), run("dbig", "plain", ["json"]), run("dbig", "asan", ["json"], {"max": 5000}, {"max": 100000})],
    "Every text up to the length over 15 characters, every sequence of 22 tokens, every unicode escape, every sequence of escapes and broken escapes, documents by grammar; valid ones compared with an independent reader, all under address sanitizer with exact-size inputs.", assumptions=SEQ)
check("E03", ENU, "CBOR written for every value, decoded by an independent RFC 8949 decoder", [
    run("dio", "asan", ["cscalar", "clen"]), run("dio", "plain", ["csweep"]), run("dio", "asan", ["ctree"], {"width": 3}, {"width": 4}), run("dio", "asanrel", ["cscalar"], {"heap": 0})],
    "Boundary numbers of all types, all 16 bit patterns in the upper half of every type, lengths around every header and growth limit, all container combinations of 19 leaves; every initial buffer size up to the length.", assumptions=SEQ)
check("E04", ENU, "base64 texts and byte sequences against a reference codec", [
    run("dio", "asan", ["benc", "bsize", "bchar"]), run("dio", "asan", ["blong"], {"len": 7}, {"len": 9}), run("dio", "asan", ["bdec"], {"len": 5}, {"len": 6}), run("dio", "plain", ["bdec"], {"len": 6}, {"len": 7})],
    "Every sequence of up to 2 bytes, boundary sequences up to the length, every text up to the length over 13 characters, with output buffers of every size, guarded.", assumptions=SEQ)
check("E07", ENU, "configuration texts against a reference expander; every getter on every kind of value", [
    run("dio", "asan", ["schars"], {"len": 6}, {"len": 7}), run("dio", "asan", ["ssize", "getters", "comp"])],
    "Every sequence of up to 5 tokens x 6 variable settings, all value/name/prefix/suffix lengths around the limits, all getters x 24 values.", assumptions=SEQ)
check("E05", ENU, "XML texts through the reader, compared with an independent parser", [
    run("dxml", "asan", ["tokens"], {"len": 4}, {"len": 5}), run("dxml", "plain", ["tokens"], {"len": 5}, {"len": 6}), run("dxml", "asan", ["chars"], {"len": 4}, {"len": 5}), run("dxml", "plain", ["chars"], {"len": 5}, {"len": 6}),
    run("dxml", "asan", ["docs"], {"elems": 3}, {"elems": 4}), run("dxml", "asan", ["bytes", "refs", "sizes"])],
    "Every sequence of 23 tokens and every text over 14 characters up to the lengths in several contexts, documents by grammar with every truncation, every byte at every place, all under address sanitizer with exact-size inputs.", assumptions=SEQ)
check("E06", ENU, "YAML texts through the reader, compared with libyaml's document tree and a reference for plain scalars", [
    run("dyaml", "asan", ["tokens"], {"len": 4}, {"len": 4}), run("dyaml", "plain", ["tokens"], {"len": 4}, {"len": 5}), run("dyaml", "asan", ["chars"], {"len": 4}, {"len": 5}), run("dyaml", "plain", ["chars"], {"len": 6}, {"len": 7}),
    run("dyaml", "plain", ["scalars"], {"len": 6}, {"len": 7}), run("dyaml", "asan", ["docs"], {"nodes": 2}, {"nodes": 3}), run("dyaml", "asan", ["numbers", "bytes"]), run("dyaml", "plain", ["big"]), run("dyaml", "asan", ["big"], {"max": 1025}, {"max": 100000})],
    "Every sequence of 28 tokens and every text over 18 characters up to the lengths in several contexts, trees in both styles with every truncation, every byte at every place, all under address sanitizer with exact-size inputs.", assumptions=SEQ)
FAULT = "fault injection on the real code: every kill, failure, short and torn write at every system call, exhaustively (seccomp trap)"
check("E08", FAULT, "histories of writes with one fault per write", [
    run("dfile", "plain", ["fault"], {"writes": 1}, {"writes": 1}), run("dfile", "plain", ["fault"], {"writes": 2, "lens": 1}, {"writes": 2, "lens": 4}), run("dfile", "plain", ["rfault"])],
    "Every system call of each write, read and delete killed, failed with 4 errors, written short or torn, over histories of up to 2 writes to 2 files.", assumptions=["process crashes; loss of unsynchronised pages at power failure is not modelled", "one fault per operation"])
check("E09", TS2, "file and store histories in a scratch directory", [
    run("dfile", "asan", ["hist"], {"depth": 2}, {"depth": 3}), run("dfile", "plain", ["hist"], {"depth": 3, "names": 2}, {"depth": 3, "names": 5})],
    "Every history up to the depth over 5 names (2 at the greatest depth) and 5 contents against a reference map, the directory compared after each operation.", assumptions=SEQ)
check("C09", TS, "component state histories; setters, waiters and reference holders", [
    run("component", "fib", ["hist"], {"depth": 6}, {"depth": 8}), run("component", "fib", ["conc"], {"bound": 5}, {"bound": 8}), run("component", "fibrel", ["conc"], {"bound": 3}, {"bound": 5}), run("component", "fib", ["conc"], {"bound": 3, "spurious": 1}, {"bound": 4, "spurious": 1}), run("component", "fib", ["refs"], {"bound": 5}, {"bound": 8}),
    run("many", "fib", ["refs"])],
    "Every sequential history up to the depth; every schedule of the listed 2-4 thread configurations within the bound, results explained by some sequential order. Up to 70000 references.", assumptions=SCHED)
check("C10", TS2, "dependency graphs; container call histories", [
    run("container", "asan", ["graph"], {"n": 2}, {"n": 3}), run("container", "plain", ["graph"], {"n": 3}), run("container", "asan", ["top", "dyn"]), run("container", "asan", ["noconf"]), run("containerc", "fib", ["late"], {"bound": 2}, {"bound": 4}), run("container", "asanrel", ["graph", "top"], {"n": 2, "heap": 0}), run("container", "asan", ["hist"], {"depth": 3}, {"depth": 4}), run("container", "plain", ["hist"], {"depth": 4}, {"depth": 5}), run("container", "asanrel", ["hist"], {"depth": 2, "heap": 0}, {"depth": 3, "heap": 0}),
    run("manyc", "asan", ["container"], {"max": 300}, {"max": 600})],
    "Every dependency graph over 3 components and a missing name, references needed or not, with 6 kinds of broken component; every way of naming libraries and factories of two component types; every history up to the depth over two containers. Containers of up to 300 components in four shapes, with names of up to 300 characters.", assumptions=SEQ)
check("C11", TS, "container calls from 2..3 threads on overlapping names", [
    run("containerc", "fib", ["factory"], {"bound": 4}, {"bound": 6}), run("containerc", "fib", ["conc"], {"bound": 2}, {"bound": 3}), run("containerc", "fib", ["conc"], {"bound": 2, "small": 4}, {"bound": 3, "small": 4})],
    "Every schedule of the listed configurations within the bound, results explained by some sequential order of the calls.", assumptions=SCHED)
check("C12", TS, "timestamps from 1..3 threads under every clock behaviour; units; interrupted waits", [
    run("timeuuid", "fib", ["mono"], {"bound": 4, "domain": 4}, {"bound": 6, "domain": 4}), run("timeuuid", "fib", ["mono"], {"bound": 5, "domain": 5, "small": 3}, {"bound": 8, "domain": 6, "small": 3}), run("timeuuid", "fib", ["scale", "wait"], {"interrupts": 2}, {"interrupts": 4})],
    "Every schedule within the bound and every sequence of clock readings over 3 (5) values stalling, stepping forward and back, with weak compare-exchange failures.", assumptions=SCHED)
check("C13", TS, "UUID generation from 2..3 threads; every byte value at every place; texts around the UUID shape", [
    run("timeuuid", "fib", ["gen"], {"bound": 4}, {"bound": 6}), run("timeuuid", "fib", ["text", "check"])],
    "Every schedule of the listed configurations within the bound; every single deviation and all pairs of 11 characters from two UUID texts.", assumptions=SCHED + ["the seed is what the system's random source gives; one seed is explored"])
check("C14", TS, "reference-taking, copying, containing and dropping one value; allocation, hand-over and release around cache growth", [
    run("dataconc", "fib", ["share"], {"bound": 2, "alpha": 1, "len": 1}, {"bound": 2, "alpha": 1, "len": 2}), run("dataconc", "fib", ["share"], {"bound": 1, "len": 2}, {"bound": 3, "len": 1, "threads": 3}), run("dataconc", "fibrel", ["share"], {"bound": 2, "len": 1}, {"bound": 2, "len": 2}),
    run("dataconc", "fib", ["alloc"], {"bound": 1, "len": 2}, {"bound": 1, "len": 3}), run("dataconc", "fibrel", ["alloc"], {"bound": 1, "len": 2}, {"bound": 2, "len": 2})],
    "Every schedule within the bound of every generated configuration of 2-3 threads with programs up to the length, over 12 kinds of value, from the heap and from the block cache.", assumptions=SCHED)
check("C15", TS, "14 reading operations by 2 threads on 14 kinds of value", [
    run("dataconc", "fib", ["read"], {"bound": 2}, {"bound": 2, "ops": 2}), run("dataconc", "fibrel", ["read"], {"bound": 1}, {"bound": 2}), run("dataconc", "fib", ["read"], {"bound": 1, "threads": 3}, {"bound": 2, "threads": 3})],
    "Every schedule within the bound of every pair of reading operations on every kind of value, with unsynchronised accesses as scheduling points.", assumptions=SCHED)
check("C16", TS2 + "; schedules of concurrent logging explored exhaustively within a preemption bound", "logger call histories over chains; shared chains and the default logger used by 2..3 threads", [
    run("logger", "asan", ["hist"], {"depth": 4}, {"depth": 5}), run("logger", "asan", ["dflt", "names", "sink", "config"]),
    run("logger", "fib", ["share", "first", "drop"], {"bound": 2}, {"bound": 4}),
    run("manyc", "asan", ["loggers"], {"max": 1100})],
    "Every call history up to the depth against a reference; every schedule within the bound of the concurrent configurations. Chains of up to 1000 loggers.", assumptions=SEQ + SCHED[:1])
check("C17", TS + "; requests for threads refused at every point", "thread creation with every priority, affinity, privilege and refusal; pools and schedulers short of threads", [
    run("threads", "fib", ["create", "prio", "jobprio", "factory"]), run("threads", "fib", ["race"], {"bound": 3}, {"bound": 4}),
    run("threads", "fib", ["pool"], {"bound": 1}, {"bound": 2}), run("threads", "fib", ["sched"], {"bound": 2}, {"bound": 3})],
    "Every combination of request and refusal; every schedule within the bound of pools and schedulers any of whose thread creations fail.", assumptions=SCHED)
NOT_APPLICABLE = {}
