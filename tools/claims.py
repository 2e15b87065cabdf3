FED = "Program generator, statement-level scheduling, simulated downstream, clock and clients; cel-go internals are not interleaved."
CLAIMED = {f"C{n:02d}": FED for n in range(1, 12)}
PURE = "A pure function of its input: no concurrency, time, I/O or multi-party behaviour for a schedule or fault to act on; deterministic simulation has nothing to decide here."
TODO = "Not claimed yet: the simulation of this part is under construction."
NA = {p: PURE for p in ("C50", "C51", "C52", "C53")}
NA.update({f"C{n:02d}": TODO for n in range(12, 23)})
PLUG = "Fake WebAssembly engine below the real plugin host; the real generated plugin program runs as the guest. Guests that spin forever without I/O are not simulated."
for p in ("C12", "C13", "C14", "C15"):
    CLAIMED[p] = PLUG
    NA.pop(p, None)
LSP = "The whole language server in one process over simulated stdin, stdout and files; protocompile internals are not interleaved."
DET = "The command-line programs from main() on, several executions per run; only sources of the generated families, the examples and the test data."
FAULT = "The command-line programs from main() on over a simulated file system and HTTP transport; plugins are stand-ins that record their request."
WATCH = "Watch mode over a simulated file system and a model of fsnotify's inotify backend; protocompile internals are not interleaved."
for p, n in (("C16", LSP), ("C20", DET), ("C21", DET), ("C22", FAULT), ("C17", LSP), ("C18", WATCH), ("C19", WATCH)):
    CLAIMED[p] = n
    NA.pop(p, None)
