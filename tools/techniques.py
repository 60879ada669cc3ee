diff = "event-trace monitor: random and directed programs run in the real interpreter; their traces and results must be those of an independent reference evaluator"
tech.update({
 'C04': diff, 'C06': diff, 'C07': diff, 'C08': diff, 'C23': diff,
 'C05': diff + "; Go stack depth recorded by a host function during long iterations",
 'C17': diff + "; freshness monitor over gensyms",
})

tech.update({
 'C01': "panic/abort monitor (recovering guard, process journal, CPU-time watch) over calls of every built-in with arbitrary arguments, spliced programs and hostile texts; a value monitor for missing (Go nil) results",
})

tech.update({
 'C02': "round-trip monitor: random data (every type, nesting, character and float) printed by the real printer and read back by the real reader; an independent printer model and structural comparison decide",
 'C03': "layout monitor: token sequences of known data laid out with random white space, comments and chunking, truncated at every kind of point; a datum model decides what each read must yield and how much it may consume",
 'C09': "value monitor: random and extreme operands; every result and every error condition compared with exact integer arithmetic and IEEE doubles computed by the host, and handler events watched",
})

heapm = "store monitor: histories of operations run in the real interpreter; after each the graph of every variable (values and sharing, by object identity) must be isomorphic to the model's store, with call traces recorded"
hist = "history monitor: random histories of operations; every result is compared with an independent Go model and the whole state is read back"
tech.update({
 'C10': heapm, 'C22': heapm + "; each sub-form is instrumented and must be evaluated once",
 'C11': hist, 'C13': hist, 'C24': hist, 'C20': hist + ' (the text of every output destination)',
 'C12': "value monitor: every string and character operation on random strings over mixed alphabets compared with the same operation on slices of Unicode characters",
 'C16': "law monitor: all pairs of random values, copies, near-copies and opaque objects compared with all predicates; hierarchy, reflexivity, symmetry and structural equality decided by a datum model, selections compared with the observed relation",
})

tech.update({
 'C19': "stream monitor: histories of reads, writes, opens, closes and escapes over string, file and faulty host streams, compared with a byte model; file contents, open descriptors and injected or device faults are watched",
})

tech.update({
 'C14': hist + "; slot contents by identity, initform evaluations counted",
 'C15': "dispatch monitor: every call of a generic reports which method ran with which arguments and closed-over variable; a model of class precedence and dispatch decides",
})

tech.update({
 'C18': "cancellation monitor: the same programs cancelled at many instants (context polls counted by an instrumented context, host calls, clocks); the result, the events after the cancellation and the interpreter's later behaviour are compared with the uncancelled run",
})

tech.update({
 'C21': "isolation monitor: several interpreters driven in interleaved and nested histories, each compared with its own model or reference evaluator; first uses of library code in hostile contexts compared with its documented value, with traps on every captured name",
})

tech.update({
 'C25': "embedding monitor: an instrumented Go host drives the API; every call of a host function (arguments, results by identity, errors by errors.Is/As), every scope, writer and derived interpreter is recorded and compared with a model or with the reference evaluator",
 'C26': "process monitor: the built command runs scripts, -e texts, arguments, input and failing files; its standard output, error output and exit status, and the files it wrote, are compared with what the forms must produce",
 'C27': "value monitor: random patterns, texts, trees, directories and argument vectors; matches are judged by the host's regexp package (their documented definition), results by models; commands run record the arguments and streams they really got",
})

tech.update({
 'C28': "race detector: a race-instrumented build runs interpreters in several goroutines, released together in a fresh process, on the cases of the other monitors, random programs and library uses; the detector and the runtime's map and deadlock checks must stay silent, and every result is compared with the same program run alone; symbol identities and the reads of a shared variable are recorded and checked",
    'C29': "process monitor: the built command on a pseudo-terminal, typed at key by key; what it shows after each text, its error output, the next prompt and its exit are compared with a model of the session",
    'C30': "differential monitor: programs with trace, gmn:dump-session, expand-defun and clock calls interleaved against a reference interpreter; the trace report parsed and compared with the recorded call history; shown definitions evaluated again in a fresh interpreter and compared; loaded files against their text",
    'C31': "online model monitor: random histories of Go helper calls and Lisp operations on shared data; after each the whole object graph (contents, identity, sharing) is compared with a model heap; number methods against the Lisp functions, Dynamics, Export and Assert against maps",
})
