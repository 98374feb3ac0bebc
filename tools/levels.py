D = {
 "C06": ("model_checking", SEQ, "Histories of put, remove, close and reopen over three identifiers and boundary values; map iteration order is an explored choice."),
 "C07": ("fault_enumeration", FAULT, "Every multi-session history up to the depth, every file operation of the next open or close crashing (all torn prefixes) or failing. Process death, not power loss."),
 "C08": ("model_checking", SEQ, "A monitor of the mark at every file operation of all histories of the change log and the index; all mark values; a second open in every state."),
 "C09": ("model_checking", SEQ, "Sequences of next, rewind and ten kinds of rewriting on nine databases, merged on the complete state; the whole file compared after every step."),
 "C10": ("exploration", ENUM, "All profiles over six boundary identifiers x capacities x reader chunkings, against an independent encoder."),
 "C11": ("exploration", ENUM, "Every prefix, every value of every byte, boundary numbers at every offset, combinations of boundary record fields; panics, hangs and allocation watched."),
 "C12": ("exploration", ENUM, "Every byte value at every position of headers and records of the three formats; every mark value x file position."),
 "C13": ("model_checking", SEQ, "Complete reachable state space of one profile over five items and all operations."),
 "C14": ("exploration", ENUM, "All pairs of small profiles x a grid of factors, against the formula in float64."),
 "C15": ("exploration", ENUM, "All sorted lists up to the bound for six element types x needles, positions and spare capacity."),
 "C28": ("exploration", ENUM, "Every tree of stream answers with up to four deviations from complete transfers."),
 "C32": ("fault_enumeration", FAULT, "Every sequence of next, rewind and rewriting up to the depth x every placement of up to two failing file operations with partial transfers, on four databases; every single transfer of the codec failing; files cut at every byte."),
 "C33": ("exploration", ENUM, "All combinations of good, missing, out-of-range and mistyped values of the four fields (16,632 bodies) and every other reason for refusing, through the application's handler."),
 "C29": ("model_checking", SEQ, "All operation sequences, merged on the complete state, against a model itself replayed against real files."),
 "C16": ("model_checking", SCHED, "Real namespace code, real storage stand-ins; about 170 programs of callers, stops and cancels, every schedule up to 1-3 preemptions (or 3-4 delays), each run to quiescence. Sequentially consistent memory."),
 "C17": ("model_checking", SCHED, "As C16, judging what the storage was handed: each request at most once, unaltered, in order, in one batch."),
 "C18": ("model_checking", SCHED, "As C16, judging closings: each storage once, after the last batch, never before a stop."),
 "C20": ("model_checking", SCHED, "Every schedule up to 2 preemptions of all pairs (1 of all triples and three-call programs) of 14 management calls; pairs against a vanishing (and returning) data directory (1); a sequential order must explain results, registry and saved file."),
 "C19": ("fault_enumeration", FAULT, "Real namespace, storages and os calls; every history of sessions up to two, every file call of start, run and stop the last one executed (all torn prefixes of writes), recovery crashed in turn; every failing storage. Process death, not power loss."),
 "C34": ("model_checking", SCHED, "Every schedule up to 1 preemption (0 for some triples; thorough: 2 and 1) of pairs of namespace operations, management calls, HTTP requests and uses of separate objects, the first use of each kind in a fresh process included, on real code built with the race detector, which is told the modelled orderings only. Conflicts further apart than the detector's shadow memory can be missed."),
 "C31": ("model_checking", SCHED, "As C20 through the real router and endpoints: every schedule up to 2 preemptions of all pairs (1 of all triples and of clients with two requests) of 15 HTTP requests; one order must explain all answers. Values within one answer are judged one by one."),
 "C21": ("model_checking", SEQ, "All management histories up to the depth, merged on registry, file and model; restart after every step; every prefix, byte value and structural damage of a saved registry."),
 "C22": ("fault_enumeration", FAULT, "Every management history up to the depth, every file-system call of the next operation the last one executed, all torn prefixes; process death, not power loss."),
 "C23": ("fault_enumeration", FAULT, "Every management history up to the depth with every file-system call failing, and every rejected call; deletions under the controlled scheduler with running namespaces."),
 "C24": ("model_checking", SEQ, "Closed state spaces of all request sequences over colliding names against a reference registry, through the real router; about 24,000 bodies in every field position, and 30 ways for a request to arrive."),
 "C25": ("exploration", ENUM, "All texts up to the length over a hostile alphabet, every byte value at every position, all directory configurations; every path handed to the os package recorded."),
 "C26": ("exploration", ENUM, "Real server on loopback sockets: every busy or bad address, every signal at every combination of request phases. Real time only decides how long to wait, never the verdict."),
 "C27": ("exploration", ENUM, "The whole product of host settings, port texts and defaults."),
 "C30": ("exploration", ENUM, "The built program as a process: every history of requests, signals and kills up to three (four thorough) with a restart after each, every combination of settings, every cause of not starting, up to three signals with a request in flight. Kills with a request in flight sample the moment of death; the exact crash points are enumerated by C22."),
}
