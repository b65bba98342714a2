prop("C25", "Garbage collection is invisible",
     "Whenever a collection happens between two instructions, and however many do, a program's results, printed output and errors are the same as without any. Every value a program can still reach through the operands, variables and enclosing scopes of its active calls, containers, closures, buffer slices and type values survives unchanged, with its identity and cycles.",
     ["schedules", "programs"], "every single collection point and pairs of points TLC chooses, periodic and random schedules, and heaps of many sizes, over programs that hold references in every kind of place",
     "no test forces a collection and the default heap is large enough for all of them.",
     [L + "objects/heap.c", L + "runtime.c", L + "run.c", L + "objects/o_list.c", L + "objects/o_map.c", L + "objects/o_closure.c"],
     [("move and compact collection", L + "objects/heap.c"), ("roots", L + "runtime.c"), ("walk functions of the object types", L + "objects")], state="spec/NojaGC.tla: machine with a Collect transition")
prop("C26", "Garbage is reclaimed",
     "A collection keeps exactly the objects the program can still reach: what finished calls, overwritten variables and dropped values used is given back, cycles included, and nothing of a completed program stays. A program whose reachable part is small therefore completes in a small heap however much garbage it makes.",
     ["programs", "histories"], "programs making every kind of garbage, any number of rounds; the live object count at every mark is compared with bounds TLC computes from reachability",
     "memory use is never observed.",
     [L + "objects/heap.c", L + "runtime.c"], [("collection and object count", L + "objects/heap.c"), ("roots", L + "runtime.c")], state="spec/NojaObs.tla: reachable set of every state")
prop("C28", "The host can stop a program between any two instructions",
     "The host's callback is consulted between instructions; when it refuses or an interruption was requested, the program ends with the error 'Forced abortion' and does nothing more. What has been printed and which calls are active then are those of a state of the program's run, the states appear in their order, and all are observable; a callback that never refuses changes nothing.",
     ["schedules", "programs"], "every point of every generated program's run",
     "no test uses the callback or interrupts a program.",
     [L + "run.c", L + "runtime.c"], [("run loop", L + "run.c"), ("interruption flag and frames", L + "runtime.c")], state="spec/NojaObs.tla: history of output and active calls")
prop("C29", "Runs are independent of each other",
     "What a program does depends only on its text and input: not on programs that ran before in the same process or in the same runtime, however they ended, nor on another program run in the middle of it. Each program starts with just the library, and assigning to library names is local to it.",
     ["histories", "programs"], "random sequences of programs in one process and in one runtime, one program inside another at any point",
     "every test runs alone in a process.",
     [L + "runtime.c", L + "run.c", L + "objects/objects.c"], [("runtime state", L + "runtime.c"), ("static type objects", L + "objects")])
prop("C35", "The profile counts every call",
     "With profiling on, the profile has one line for each function value that was called, with its name, source and the exact number of times its body was entered, in the order the functions were created; functions never called are absent, and profiling changes nothing else.",
     ["programs", "histories"], "programs with many functions, closures, redefinitions, recursion and errors, with and without collections",
     "profiling is never switched on.",
     [L + "timing.c", L + "run.c", L + "runtime.c"], [("timing table", L + "timing.c"), ("calls", L + "run.c")], state="spec/NojaObs.tla: calls per function")
prop("C40", "Configured memory limits are kept",
     "With room for n operands every program that needs at most n at once runs as with any larger stack, and one that needs more ends with the error 'Out of stack'. A program whose reachable part does not fit its heap ends with the error 'Out of heap'; neither ever crashes or corrupts what was printed before.",
     ["inputs", "programs"], "stack sizes around the exact number TLC computes for each program, heap sizes below need",
     "the limits are never changed from their defaults.",
     [L + "runtime.c", L + "utils/stack.c", L + "objects/heap.c"], [("operand stack", L + "utils/stack.c"), ("heap exhaustion", L + "objects/heap.c")], state="spec/NojaObs.tla: most operands at once")
prop("C41", "Random numbers: range, repeatability, spread",
     "random.generate(min, max) gives an integer from min to max for any 64-bit integers min <= max (0 and the largest integer when they are none), spread evenly over the range. After random.seed(n) the same calls give the same numbers again whatever else the program does in between, and other seeds give other sequences. Arguments of other kinds are runtime errors.",
     ["inputs", "histories"], "all pairs of extreme 64-bit bounds and random ones, seeds, draws interleaved with other operations; programs are run by TLC under several choices of the numbers, recorded sequences are judged by TLC",
     "the random library is never called.",
     [L + "builtins/random.c"], [("random library", L + "builtins/random.c")], state="spec/NojaNet.tla: seed and numbers drawn; spec/NojaRandom.tla judges recorded sequences",
     note="The upper bound itself need not come up, and nothing is claimed for min > max.")
prop("C42", "Sockets carry exactly the bytes sent",
     "The socket library creates, binds and listens as asked; peers that connect are accepted in their order, and connections where nothing listens are refused. recv stores the next bytes of that connection (or the next datagram), at most as many as asked for and as fit, and gives their number, 0 at the end; send delivers exactly the given bytes to that peer. Operations that fail (closed or unconnected sockets, addresses in use or invalid, peers that went away) give none and a reason and the program goes on; argument kinds are checked.",
     ["schedules", "inputs", "histories"], "random conversations with up to four peers whose actions (connect, send, shut, close, datagrams) TLC interleaves with the program's calls, several small and large buffers and counts, misuse of sockets in every state",
     "the network library is never called.",
     [L + "builtins/net.c", L + "builtins/utils.c"], [("socket library", L + "builtins/net.c"), ("argument parsing", L + "builtins/utils.c")], state="spec/NojaNet.tla: sockets and peers",
     note="Peers act while the program waits for a line of input, so that what the kernel delivers is determined; calls that would wait for ever and socket numbers are not claimed.")
prop("C27", "Files and directories are closed exactly once",
     "Every file and directory a program opens is closed exactly once: by the next collection after the program can no longer reach it, or when the run ends, in whatever way it ends (completion, error, interruption, exhausted memory). A handle still reachable stays open and usable across collections, and a program that lets go of its handles may open any number of them.",
     ["histories", "schedules"], "generated programs that keep and drop handles in every kind of place; open handles at each mark compared with reachability computed by TLC; ends of every kind with fopen/fclose/opendir/closedir counted",
     "no test looks at open handles, and programs are too short to run out of them.",
     [L + "objects/heap.c", L + "objects/o_file.c", L + "objects/o_dir.c", L + "builtins/files.c"], [("destructors", L + "objects/heap.c"), ("handle types", L + "objects")], state="spec/NojaObs.tla: reachable handles of every state")
prop("C30", "Importing runs a script in a scope of its own",
     "import(path) finds the script relative to the importing script's folder (relative to the working directory for inline code), runs it afresh with only the library in scope, and returns what the script returns, or a map of its variables when it returns nothing. Functions of an imported script keep that script as their current script. A missing, unreadable or refused script is reported as an error at the import with the right trace. getCurrentScript* report the running script.",
     ["inputs", "histories"], "generated trees of scripts with nested, cyclic and repeated imports in many folders, working directories and path spellings",
     "tests run single files.",
     [L + "builtins/basic.c", L + "utils/path.c", L + "builtins/start.noja", L + "utils/source.c"], [("import", L + "builtins/basic.c"), ("paths", L + "utils/path.c")], state="spec/NojaFS.tla, NojaVM.tla: Import")
prop("C31", "File contents are read and written exactly",
     "openFile, read and write act on the file system as the modes say: READ needs an existing file, WRITE empties or creates, APPEND adds at the end; the position advances by the bytes moved; read returns the bytes moved (0 at the end) and stores just those in the buffer, write stores exactly the given bytes; what is written is in the file after the run however it ended. Other argument kinds and unusable paths give an error or none with a reason, and change nothing.",
     ["inputs", "histories"], "generated sequences of file operations on several handles over generated trees, all modes, byte contents and path spellings; the whole tree compared after the run",
     "each test moves a handful of bytes once.",
     [L + "builtins/files.c", L + "objects/o_file.c"], [("file functions", L + "builtins/files.c")], state="spec/NojaFS.tla, NojaVM.tla: files.*")
prop("C32", "Listing a directory gives every entry exactly once",
     "Repeated nextDirItem on a directory handle gives the name of every entry, including '.' and '..', exactly once and then none, unchanged by other handles open at the same time, and recursive walks written in the language therefore visit each file once. openDir on anything else gives none and a reason.",
     ["inputs", "histories"], "generated trees, interleaved handles, walks; order left open",
     "one test lists one directory.",
     [L + "builtins/files.c", L + "objects/o_dir.c"], [("directory functions", L + "builtins/files.c")], state="spec/NojaFS.tla: DirItems")
prop("C33", "input() returns the lines of standard input",
     "Each call of input() returns the next line of standard input without its line feed, whatever its length and bytes that form valid UTF-8, the last line also without a final line feed, and the empty string at the end of the input, again and again.",
     ["inputs"], "lines of lengths around every internal buffer size, all character widths, empty lines and missing final line feeds, with collections between calls",
     "no test reads input.",
     [L + "builtins/basic.c"], [("input", L + "builtins/basic.c")], state="spec/NojaVM.tla: stdin")
prop("C34", "The command line tool does what its options say",
     "Options may come in any order before the program; the last of contradicting ones wins, and what follows the program is not an option. Without a program, with unknown options or missing option values, the tool says so, shows its usage and exits with a failure; -h shows all options. A program from a file or given inline runs the same; the output is exactly the program's, the exit status is 0 on success, and on an error it is a failure with the error and trace on the error stream. -p adds the call profile (to the -o file if given); -H sets the heap; an interrupt stops the program with 'Forced abortion'. No other file is touched.",
     ["inputs"], "every command line up to 2 tokens over all options and up to 4 over sampled ones; programs of all kinds through the real executable",
     "tests call the library, not the tool.",
     ["src/cli/main.c", L + "utils/error.c", L + "timing.c"], [("option parsing and run", "src/cli/main.c")], state="spec/NojaCli.tla")
prop("C36", "Assembly programs do what their instructions say",
     "The assembler accepts exactly the documented texts (optional label, opcode, operands of the right number and kind, each label defined once and known where used) and refuses all others; an accepted program runs instruction by instruction as listed, labels standing for the position of their instruction wherever they are defined. Writing down the instructions the compiler makes of a program as assembly gives a program that behaves the same.",
     ["inputs", "programs"], "generated assembly programs with jumps, loops and functions in every layout, texts damaged at random places, and listings of compiled generated programs",
     "a few tests assemble a handful of fixed texts.",
     [L + "assembler/assemble.c", L + "common/executable.c", L + "run.c"], [("assembler", L + "assembler/assemble.c"), ("instruction encoding", L + "common/executable.c")], state="spec/NojaAsm.tla, NojaVM.tla")
prop("C37", "Every step of a run is a step of the machine",
     "Compiled code never jumps outside of itself, never finds fewer operands than an instruction needs, has the same number of operands at an instruction on every path to it, and hands over from each function exactly what is there. While it runs, each instruction changes operands, variables, active calls, output and position exactly as defined for that instruction, at every step and whenever collections happen, in program and library code alike.",
     ["programs", "histories", "schedules"], "traces of the real runtime (state after every instruction) of generated source and assembly programs, validated step by step by TLC; soundness of the real compiled code decided over all its paths",
     "tests look at final results only, never at the states in between or at paths not taken.",
     [L + "run.c", L + "compiler/codegen.c", L + "common/executable.c", L + "utils/stack.c", L + "runtime.c"], [("instruction execution", L + "run.c"), ("code generation", L + "compiler/codegen.c")], state="spec/NojaTrace.tla over NojaVM.tla")
prop("C38", "The diagram shows the program's syntax tree",
     "The diagram of a program is a tree in GraphViz form with exactly one node for every construct, labelled with its kind, name or literal value, and its parts as its children, in order where the order means something; texts that aren't programs are refused with a syntax error and give no diagram.",
     ["inputs"], "programs with every construct in every position, generated programs and expressions with all operators, long tuples and unusual literals, and damaged texts",
     "no test draws a diagram.",
     [L + "compiler/graphviz.c", L + "diagram.c", L + "compiler/parse.c"], [("tree to graph", L + "compiler/graphviz.c")], state="spec/NojaDiagram.tla over NojaSyntax.tla")
TECH = {
    "C38": "TLA+ grammar maps programs to trees; the real diagrams must be those trees",
    "C36": "TLA+ specification of the assembler and machine; conformance of generated, damaged and decompiled assembly programs",
    "C37": "trace validation with TLC: every state of recorded runs of the real runtime must be a step of the TLA+ machine; dataflow over the real compiled code inside TLC",
    "C25": "TLA+ model with a nondeterministic Collect transition; TLC's schedules replayed on the real collector, plus conformance under further schedules",
    "C26": "TLA+ reachability bounds per state, compared with the real heap's live object count",
    "C28": "trace validation: states observed by stopping the real run at every point, checked against the TLA+ state sequence",
    "C35": "TLA+ history variable (calls per function) compared with the real profile",
    "C41": "TLA+ machine with open choice of the numbers: programs must behave the same under every choice TLC makes; recorded sequences judged by a TLA+ module",
    "C42": "TLA+ model of sockets and peers (NojaNet) explored by TLC; each behaviour replayed with real peers over the loopback interface",
    "C40": "TLA+ state variable (operands in use) predicts the exact limit; boundary replay on the real runtime",
    "C27": "TLA+ reachability of handles per state, compared with the real open-handle counts; handle balance over every kind of end",
    "C32": "TLA+ directory specification with unordered listings; conformance of real listings against the allowed set",
    "C34": "TLA+ state machine of the option parser, all command lines enumerated by TLC and replayed on the real executable",
}
