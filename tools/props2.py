TR = "xpython/vmtrace.py"
prop("C12", "The trace callback sees the execution truthfully and completely",
     "Under PyVMTraced with all event flags the callback is told of every instruction executed (as \"line\" where a source line starts, else \"instruction\"), in execution order, with the offset, opcode name and number, operand, decoded argument and line number that the bytecode says, and frame.f_lineno is the line of that instruction. Every activation starts with a \"call\" (or \"yield\" when a generator is started or resumed) and ends with exactly one \"return\" carrying the returned or yielded value or one \"exception\" carrying the exception, properly nested, with the frame concerned current. A \"call\" carries the offset in the caller it is made from. The calls, returns and exceptions are those of CPython. This is so for bytecode of " + ALLV + ".",
     ["programs", "configurations", "histories"], "all programs, every instruction, call, return, yield and exception they execute, on every release",
     "The tests trace a handful of functions and compare a fixed list of event names; that no event is lost, doubled, misplaced or mislabelled is a matter of every jump, unwind, resume and operand encoding.",
     [TR, VM, "xpython/pyobj.py"],
     [("PyVMTraced.eval_frame", TR), ("parse_byte_and_args", VM), ("Frame.line_number, find_line_starts", "xpython/pyobj.py")],
     NOTE + " The checker has its own reading of operands, jump targets and line tables; opcode tables are xdis'. Events of 3.11+ CACHE entries are not judged.",
     "online trace-specification monitor on the callback stream, plus offline comparison with CPython's sys.monitoring log",
     ["arguments of the PyVMTraced callback"])
prop("C13", "Observing a program does not change it, and event selection is exact",
     "A program behaves the same - logged values, output, final globals, exception - whether it runs untraced, traced with any combination of event flags, with a callback that answers None, any value without meaning (another callable, True), \"finish\" or sets step-over for chosen places or looks at frames, or with logging at INFO or DEBUG level; showing values for the log runs no code of the program. The callback gets exactly the events that the flags in force for the frame select: frames inherit flags from their caller, step over hides callees, None stops line and instruction events of the frame, \"finish\" stops all but return events. Answering \"skip\" to a line or instruction event has the effect of the program without that instruction, answering \"return\" leaves the function at once with vm.return_value.",
     ["programs", "histories", "configurations"], "all programs, event flags, places and kinds of answers, log levels",
     "The tests run a few functions with one callback that always answers the same; interference shows only for particular objects on the stack, answers at particular places, or flags inherited through particular call chains.",
     [TR, VM, "xpython/pyobj.py", BO + "byteop.py"],
     [("event_flags, f_trace, results of the callback", TR), ("PyVM.log, format_instruction", VM), ("safe_repr", "xpython/pyobj.py")],
     NOTE, "differential runtime monitor: one program under many behaviours of the callback; event streams compared with those the flags and answers select",
     ["arguments of the PyVMTraced callback", "values a program logs, its final globals, output and uncaught exception"])
prop("C14", "Breakpoints stop exactly where they are set and change nothing else",
     "After add_breakpoint(frame, offset) the callback gets one \"breakpoint\" event each time that frame is about to execute the instruction at that offset, and none for other frames, also when they run the same code; setting a breakpoint again changes nothing, and after remove_breakpoint there are no more events. The program itself behaves as without breakpoints, wherever they are: on the first instruction, on jump targets, on instructions with EXTENDED_ARG prefixes and on the prefixes, in loops, handlers and generators that are suspended and resumed. At a breakpoint \"skip\" omits the instruction and \"return\" leaves the function with vm.return_value. This is so for bytecode of " + ALLV + ".",
     ["programs", "histories", "configurations"], "all programs, sets of breakpoints, moments of setting and removing them",
     "One test sets one breakpoint at offset 0 of a function; patched bytecode interacts with prefixes, sizes of instructions, sharing of code between frames, and repeated or resumed execution.",
     [TR, BO + "byteop24.py", VM],
     [("add_breakpoint, remove_breakpoint", TR), ("BRKPT", BO + "byteop24.py"), ("parse_byte_and_args(replay)", VM)],
     NOTE, "runtime monitor: breakpoint hits checked against the instruction stream of a run without breakpoints; outcomes compared with CPython",
     ["\"breakpoint\" events of the PyVMTraced callback", "values a program logs, its final globals, output and uncaught exception"])

prop("C16", "Functions, methods and generators are objects as in Python",
     "Functions, methods and generators of the program can be inspected, changed, compared, hashed, bound, wrapped, copied, pickled and weakly referenced as in Python: __defaults__, __kwdefaults__, __code__, __name__, __qualname__, __doc__, __annotations__, __closure__, __dict__ and attributes of the program's own (func_* in 2.x) have the values Python gives them, accept what Python accepts and raise what Python raises, and what was replaced or deleted counts from the next call on, also for methods and aliases taken before; __get__ binds any object, falsy ones included; functools.partial, reduce and wraps, inspect.signature, copy and map work on them; gi_running, gi_frame, gi_code and gi_yieldfrom follow the generator. This is so for bytecode of " + ALLV + ".",
     ["programs", "histories", "configurations"], "all functions, methods and generators, and histories of reading, replacing and deleting their attributes between calls",
     "The VM has its own classes for functions, methods and generators, with state kept twice under old and new names; the tests call functions but hardly look at or change them.",
     ["xpython/pyobj.py", BO + "byteop24.py", BO + "byteop36.py"],
     [("Function, Method, Generator, Cell", "xpython/pyobj.py"), ("MAKE_FUNCTION", BO)],
     NOTE + " Names and reprs of the types, and attributes the VM's classes have beyond Python's, are not judged.", DIFF)

prop("C17", "Machines and threads running at once do not disturb each other",
     "Programs that run in machines (PyVM, PyVMTraced) of their own, of the same or different releases, each do what they do alone - logged values, output, final globals, uncaught exception - however they are interleaved: a program started within a call of another, or threads switched at any instruction. Threads of one program (threading, executors, timers) each behave as CPython's threads do: calls, generators, closures, classes, exception handling, sys.exc_info(), sys._getframe() and tracebacks of a thread show nothing of other threads, functions and generators made in one thread work in another, locks, queues and thread-local values coordinate, and an exception a thread does not handle reaches whoever runs the thread as itself. This is so for bytecode of " + ALLV + ".",
     ["programs", "schedules", "configurations"], "all combinations of programs and threads, and all interleavings of their instructions",
     "No test runs two machines at once or starts a thread; interference needs a switch at a particular instruction.",
     [VM, "xpython/pyobj.py", BO + "byteop.py", TR],
     [("PyVM.for_this_thread, push_frame, transient_state", VM), ("Function.__call__, Generator.vm", "xpython/pyobj.py"), ("setup_sys_module, get_frame", BO + "byteop.py")],
     NOTE + " Programs whose result depends on the schedule in CPython are not judged; one machine running two programs at once is not either.",
     "runtime monitor under controlled schedules: a baton passed at random events or instructions (repeatable), or preemption every few microseconds; each program compared with itself alone, each thread with CPython's",
     ["values each program and thread logs, its output, final globals and exception", "schedule: the sequence of threads the baton went to"])

prop("C19", "Stack, line numbers and tracebacks show where the program is",
     "Whenever native code the program calls looks, vm.frames and the f_back chain hold exactly the functions, class bodies, generators and modules that are active, also when the calls go through built-in functions or through generators that delegate to others; Frame.f_lineno and line_number() give the source line each of them is at. The traceback of the exception being handled, and vm.last_traceback for one the program does not handle, name the functions the exception went through, in order, each with the line where it did so; a bare \"raise\", the end of \"finally\" and leaving a \"with\" keep them. Introspection from within (sys._getframe(), __name__, __doc__, __code__, co_firstlineno) tells the same. This is so traced and untraced, for bytecode of " + ALLV + ".",
     ["programs", "source layouts", "configurations"], "all programs, layouts of their source and events in a run",
     "Line tables have seven encodings over the releases and tracebacks are put together across frames, native calls and re-raises; tests compare results only.",
     [VM, TR, "xpython/pyobj.py"],
     [("record_exception, raise_last_exception", VM), ("find_line_starts, Frame.line_number, Traceback, Generator.throw", "xpython/pyobj.py"), ("eval_frame", TR)],
     NOTE + " An exception object that is raised again with \"raise e\" is not judged; lines of decorator and __exit__ calls only on 3.12.",
     "runtime monitor: active frames, lines and tracebacks at every logged event, compared with CPython's own",
     ["vm.frames, Frame.f_lineno, Frame.f_back", "vm.last_traceback", "sys.exc_info() of the program"])

prop("C15", "Running files, modules, commands and bytecode acts like python does",
     "\"xpython PATH ARGS\", \"-m MODULE\" and \"-c COMMAND\", and run_python_file(), run_python_module() and run_python_string() of xpython.execfile, run a program as __main__ with sys.argv[1:] and sys.path[0] as CPython has them: standard output, and the exit code, equal those of CPython, also after sys.exit(), an uncaught exception (exit code 1; traceback with functions and lines, and the exception, on standard error), a syntax error, or os._exit(). Source may be in any encoding, with any line ends, and named as one likes; a bytecode file of " + ALLV + " gives what its source would, in whatever order files of several releases run in one process. What cannot be run ends with a message and code 2 (no such file or module, broken bytecode file) or 4 (nothing to run, or a file and a command). -v changes nothing but the log. Afterwards sys.argv, sys.path[0], sys.modules[\"__main__\"] and the names of the built-ins of the process are as before, and a callback gets one \"fatal\" event for an uncaught exception.",
     ["programs", "configurations", "histories"], "all programs, ways to start them, arguments, and sequences of programs in a process",
     "Tests run bytecode inside the test process; nothing runs the command, compares exit codes and streams, or runs files of different releases one after another.",
     ["xpython/execfile.py", "xpython/__main__.py", VM],
     [("run_python_file, run_python_module, run_python_string, exec_code_object", "xpython/execfile.py"), ("main", "xpython/__main__.py"), ("run_code", VM)],
     NOTE + " Bytecode files are written by our own marshaller. What xdis loses when it reads a file (bytes above 127 in strings and line tables of 2.x) is not judged.",
     "runtime monitor: output, exit code, traceback and restored state of real xpython processes, compared with CPython",
     ["standard output, standard error, exit code of the process", "sys.argv, sys.path, sys.modules, builtins of the calling process", "\"fatal\" event of the callback"])
