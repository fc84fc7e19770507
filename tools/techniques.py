
GUARD = "runtime monitor: every case runs in a worker process under a supervisor that watches for panics, stack overflow, aborts, hangs and memory or output growth, under wild, nested, huge and mutated tables and texts"
REL = "metamorphic runtime monitor: the translations of two runs of the real code that must agree are compared online, under generated tables and texts; non-vacuity is counted"
TECH.update({
    "C01": GUARD,
    "C02": GUARD,
    "C03": "runtime monitor: recorded outputs and traces are compared across histories, translators, threads that share a translator (with injected delays) and processes with other hash seeds",
    "C04": "runtime monitor: online checker of the trace of every stage (conservation of text, order and chaining of stages) against the returned translation, in the library and in the printed traces of the tool",
    "C05": "runtime monitor: online checker of the position maps against the recorded pieces of every stage, and of generated piece sequences",
    "C17": REL, "C25": REL,
    "C18": "runtime monitor: round trips through forward and backward translators, compared with the original text, under generated unambiguous tables",
})
TECH.update({
    "C21": "runtime monitor: translations of probes that use an operand are compared with an independent reading of dots and escapes, over all 32768 cells and all characters",
})
TECH.update({
    "C19": "metamorphic runtime monitor: trees of included files against the same rules in place, and an online checker of the reported errors against an independent expansion of the includes, under injected faults (missing, cyclic, unreadable, malformed, too deep)",
    "C20": "runtime monitor: the reported errors are compared with an independent reading of every line, under well-formed, malformed and mutated lines; translations are compared across layouts of the same table",
})
TECH.update({
    "C22": "runtime monitor: the verdicts, counts and printed results of the test runner are compared with those recomputed from library translations and an independent reading of the display rules, over generated YAML files, file orders and thread counts",
    "C23": "runtime monitor: the printed result of every query is compared with an independent scan of the generated directories, over permuted fields and directories",
    "C24": "runtime monitor: the output of the tool (argument, interactive session, trace) is compared byte for byte with the translations of the library",
})
TECH["C26"] = "sanitizers: AddressSanitizer with LeakSanitizer, ThreadSanitizer and Miri builds of the real library and tool under generated tables, threads that share translators and malformed test files; a counting allocator watches for growth"
