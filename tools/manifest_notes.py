LEVEL_DEFAULT="exploration"
SETUP="./run.sh setup"
DEFNOTE="Generated workloads against the real library with an independent oracle (own evaluation, truth tables, own CDCL solver); assurance is for the explored inputs and histories only; deterministic per VERIF_SEED."
NOTES="One Go harness (harness/) linked against /repo's working tree; see DESIGN.md. No hooks in /repo: everything is observed through the public API."
NOTE["P16"]=("fault injection at handler events: each cancellable computation is run to count its events, then again with a cancellation at every event (sampled when many), judged online by an independent oracle","fault_enumeration","Every event of small computations, a sample for long ones; the same solver, kernel and factory are used again after each cancellation.")

NOTE["P31"]=("Go race detector over goroutines with factories of their own, plus an online oracle comparing each goroutine's results with the same computation run alone","exploration","Race build; every event hands the processor over; schedules are those the Go scheduler produced; a race is reported whatever the timing as long as both accesses happen.")

NOTE["P33"]=("online trace-specification monitor on the handler events of each computation (an automaton per kind of computation), plus an oracle for the limits of the bounded handlers","exploration","Every event of each generated run is consumed by the monitor; the numbers told with the events are compared with the result of the run.")

NOTE["P36"]=("fault injection of unsuitable inputs into call histories with a state monitor: outcome class (value, error class, documented panic) decided by a model before each call, objects compared with the model after it","exploration","Suitable and unsuitable inputs alternate in one history, so that both sides of each check and what a refused call leaves behind are seen; the factory is compared by its statistics, solvers, kernels, encodings and assignments by truth tables.")
NOTE["P35"]=("differential trace monitor: complete logs of results and handler events of repeated runs of one history, with unrelated work in between, compared entry by entry","exploration","Each generated history is run two to four times in one process; Go randomizes map iteration at every loop, so a dependence shows with high probability per loop over two or more entries.")

NOTE["P34"]=("memory-sharing monitor: guarded arguments (copies compared after each call, spare capacity filled) and snapshots of every result re-read at the end of the history; owners overwrite arguments and results between calls","exploration","Each generated call is judged by comparison with its snapshot; solvers are judged by truth tables after their arguments were overwritten.")
NOTE["P37"]=("differential monitor of configuration lookup: complete outputs and handler events of an operation under a stored, a given, a replaced and no configuration, on factories with the same history; whole-run oracle that each setting makes a difference; all other properties' oracles under random stored configurations","exploration","Each of about 65 settings is varied alone, stored and given; a setting that makes no difference in any of some 280 cases, where several dozen are expected, is a violation.")
NOTE["P39"]=("differential monitor against an exact dynamic program: chain problems of up to 60 variables whose model counts, optimal costs and attainable sums are computed independently, every answer of every engine compared","exploration","The oracle counts in exact integers along a hidden line of windows, so its cost does not grow with the number of models.")
NOTE["P38"]=("model-based monitor: histories of calls on pools of values, every object compared with a plain Go value after every step, contents taken earlier re-read","exploration","All objects of the pool are judged after each step, so a change that reaches another object shows at once.")
