#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the single source of the property texts)."""
import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","A build's exit status is truthful",
  "`cspc build`, `cspc lib` and `cspc run` exit 0 only if the source compiled without errors, every tool they launched (assembler, linker) succeeded, and the requested output file was completely produced. If the source has an error, or a launched tool cannot be started, exits non-zero or is killed by a signal, or a process cannot be created, cspc exits non-zero, whatever verbosity flags are given. After such a failure no later stage is started: the linker does not run after a failed assembler, and `run` executes nothing. A command line that cannot be followed (unknown or contradictory option, missing or impossible value, more than one source file) ends non-zero with a diagnostic before any tool is started.",
  ["programs","fault_sequences","configurations"],
  "every source (valid, invalid, missing), every option combination (--silent, --asm/--transpile, -o, -s, -c), every point at which fork, exec, a helper process or a helper's exit can fail",
  "The baseline tests compile a handful of files on a healthy machine and never make as/ld/fork fail; they look for the executable rather than at the exit status.",
  ["src/compiler/main.c","src/compiler/toolchain.c","src/compiler/error/default.c","src/compiler/platform/linux/linux_platform.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/asm/linker.c","src/compiler/codegen/transpiler/c_codegen.c"],
  [("panic handler / error accounting","src/compiler/error/default.c"),("subprocess() wait status decoding","src/compiler/platform/linux/linux_platform.c"),("pass runner","src/compiler/toolchain.c")],
  ["exit status of cspc","process starts seen by the operating system","content of the output file"])
p("C02","Disk errors never yield a wrong artefact",
  "If reading a source file or writing or reading an intermediate file meets a short transfer, an interrupted call, an I/O error, a full disk or too many open files, then cspc either exits non-zero with a diagnostic or produces exactly the artefact a fault-free run produces. It never compiles part of a source file as if it were the whole, and never hands a truncated intermediate file on to the assembler, the linker or the C compiler as if it were complete. A command line that is cut short is refused with a diagnostic or means what is left of it.",
  ["fault_sequences","programs"],
  "every sequence of disk faults on every file cspc itself opens, at every transfer",
  "Tests run on a disk that never fails; a torn read or a full disk at a particular transfer is never exercised.",
  ["src/compiler/io/io.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c","src/compiler/lexer/lexer.c"],
  [("read_file/open_file/write_file","src/compiler/io/io.c"),("write_code","src/compiler/codegen/asm/asm_codegen.c")],
  ["bytes delivered to and by every read/write system call","final artefact"])
p("C03","Concurrent builds do not interfere",
  "Any number of cspc invocations of one user running at the same time, on different sources and with different output paths, each give the same artefact and exit status as if they had run alone, however their steps interleave. This includes builds started in different directories that give their output files the same base name, and builds that create the cache directory at the same time.",
  ["schedules","programs"],
  "every interleaving of the system calls of two or three concurrent builds and of the tools they launch",
  "Tests run one compiler at a time; a clash on a shared intermediate file needs two invocations overlapping at particular steps.",
  ["src/compiler/io/io.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c","src/compiler/codegen/asm/linker.c","src/compiler/platform/linux/linux_platform.c"],
  [("get_cached_file_path(): where intermediates live","src/compiler/io/io.c"),("make_dir(): creating the cache directory","src/compiler/platform/linux/linux_platform.c")],
  ["final artefacts and exit statuses of all invocations"])
p("C04","A killed or crashed build never poisons later ones",
  "If a build is killed, or the machine loses power, at any point, then a later build of the same or of an edited source from the surviving files exits 0 and yields exactly the artefact that a build on a clean machine yields. Whatever partial, stale or torn intermediate and output files the crash left behind change nothing.",
  ["crash_points","histories"],
  "every system call of a build as the crash point, with process-crash and power-loss (unsynced data lost, torn or kept) survivors, followed by edits and rebuilds",
  "No test kills the compiler or restarts it over the remains of an earlier run.",
  ["src/compiler/io/io.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c","src/compiler/codegen/asm/linker.c"],
  [("intermediates are rewritten from scratch on every build","src/compiler/codegen/asm/asm_codegen.c"),("cache directory handling","src/compiler/io/io.c")],
  ["artefact and exit status of the rebuild"])
p("C05","The compiler only touches its own files",
  "Whatever faults occur, cspc never modifies, truncates or deletes a source or imported file, and creates or changes files only at the requested output path and inside its own cache directory. `--clear-cache` removes only what is inside that cache directory, and never follows a symbolic link out of it.",
  ["fault_sequences","configurations","crash_points"],
  "every command, option combination, fault sequence and crash point",
  "Tests never compare the rest of the file system before and after, and never run the cache removal or an error path.",
  ["src/compiler/io/io.c","src/compiler/main.c","src/compiler/platform/linux/linux_platform.c","src/compiler/codegen/asm/asm_codegen.c"],
  [("clear_cache / get_cache_dir","src/compiler/io/io.c"),("remove_directory","src/compiler/platform/linux/linux_platform.c")],
  ["every file-system mutation made by cspc, and the final file system"])
p("C06","Compiler output is a function of its inputs only",
  "Compiling the same sources with the same options always yields byte-identical output and the same exit status and diagnostics, independently of where memory is placed and what fresh memory contains, of the clock, the process id, unrelated environment variables, and of how reads are split into pieces. The same holds for csp-lint's report.",
  ["programs","configurations","schedules"],
  "every program, every memory layout, clock, pid, environment and read chunking",
  "A test runs a compile once in one environment; layout- or time-dependent output can only be seen by controlling those inputs.",
  ["src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c","src/compiler/hashmap.c","src/compiler/list.c","src/compiler/memory/allocator.c","src/compiler/lexer/lexer.c","src/linter/linter.c"],
  [("iteration in list order, not address order","src/compiler/codegen/asm/asm_codegen.c"),("zero-initialising allocators","src/compiler/memory/allocator.c")],
  ["assembler/C output, artefact, stdout/stderr, exit status"])
p("C07","`cspc run` runs exactly the program just built, once",
  "`cspc run` executes the program it has just built exactly once, only after that build has completed, and passes the user's program arguments unchanged and in order. It waits until the program has finished, and its own exit status is 0 if and only if the program was run and exited with status 0.",
  ["programs","schedules","fault_sequences"],
  "every program outcome (exit codes 0-255, death by signal), every argument list, every interleaving with concurrent runs and every interrupted wait",
  "The test-suite's programs are built and executed by the test driver, not through the failure paths of `cspc run`.",
  ["src/compiler/main.c","src/compiler/platform/linux/linux_platform.c","src/compiler/toolchain.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c"],
  [("subprocess()","src/compiler/platform/linux/linux_platform.c"),("argument splitting","src/compiler/main.c")],
  ["exec events with their arguments, exit status of cspc"])
p("C08","The compiler leaves no processes behind",
  "When cspc terminates on its own, with success or failure, every helper process it started has ended and been waited for: nothing keeps running or writing afterwards. This holds even if its waits are interrupted by signals, helpers end slowly, are killed, or cannot be executed, and a helper that could not be executed produces no duplicated output and no side effects of the parent's own exit path.",
  ["schedules","fault_sequences"],
  "every timing of helper exits relative to the compiler, every interrupted wait, every failed exec or fork",
  "Tests see prompt helpers and never an interrupted wait or a failed exec.",
  ["src/compiler/platform/linux/linux_platform.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/asm/linker.c"],
  [("fork/exec/wait","src/compiler/platform/linux/linux_platform.c")],
  ["processes alive when cspc exits, bytes on stdout/stderr"])
p("C09","The compiler's notion of time is truthful",
  "`__date__` and `__time__` together denote one instant, in local time, at which the compilation was actually running, also when midnight, a month's or year's end or a change to or from daylight saving time falls into it or the clock is stepped. A function marked `[deprecated(\"yyyy-mm-dd\")]` is reported at each of its uses exactly if the local midnight beginning that day has passed by the clock of that compilation. `--show-timings` reports non-negative steps that add up to its total, which is no more than the compilation took.",
  ["schedules","configurations"],
  "every wall-clock time, time zone, clock step and delay between any two readings of the clock",
  "A test cannot place the clock a second before midnight on a leap day, move it between two readings, or change the time zone rules.",
  ["src/compiler/preprocessor/stdmacros.c","src/compiler/parser/directives.c","src/compiler/timer/timer.c","src/compiler/parser/validator.c"],
  [("get_time_str/get_date_str","src/compiler/preprocessor/stdmacros.c"),("eval_deprecated: deadline against clock","src/compiler/parser/directives.c"),("timer_print_summary","src/compiler/timer/timer.c")],
  ["strings in the generated code","warnings on stdout/stderr","timing summary"])
p("C10","Tools are run with exactly what the user selected",
  "A build starts the tools the options, the environment and the source's directives select, each once, in order and with exactly the selected arguments: the assembler, linker or C compiler named by `--as`, `--ld`, `--cc`; the back end; debug, optimisation, static and shared modes; the dynamic linker; every `--cc-flags` value; every library, object and search directory from `[link]`, `[link_obj]` and `[link_dir]` of every module involved, with pkg-config packages expanded to exactly what they state (a package that cannot be used ends the build with a diagnostic); and the `[cc]` and `[copy]` commands in the directory they name. Directives under `[env_defined]`, `[env_eq]`, `[env_ne]` or `[cfg]`-style conditions take part if and only if the condition holds. Nothing the user did not select is passed, and a program linked by the real tools starts under the selected dynamic linker and ends with the status its source says, whatever the timing of the tools and interrupted waits.",
  ["programs","configurations","schedules"],
  "every combination of options, directives, modules, package files and environment variables, relative or absolute paths, every timing of the tools",
  "Tests use one fixed configuration; a dropped flag, a wrong directory or a misjudged condition for one combination is invisible to them.",
  ["src/compiler/main.c","src/compiler/codegen/asm/linker.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c","src/compiler/parser/directives.c","src/compiler/config.c","src/compiler/platform/linux/linux_platform.c","src/compiler/platform/pkg_config.c"],
  [("argument vectors of as, ld and the C compiler","src/compiler/codegen/asm/linker.c"),("link, link_obj, link_dir, cc, copy and conditional directives","src/compiler/parser/directives.c"),("[cc]/[copy] execution","src/compiler/config.c")],
  ["arguments, environment and working directory of every process started","exit status and output of the program built"])
p("C11","Running out of memory never yields a wrong result",
  "If the operating system refuses memory to cspc or csp-lint, once, for a while, from some point on or for every large request, then the run either gives exactly the artefact, verdict and exit status of an undisturbed run or ends unsuccessfully. It never hangs, never exits 0 with a partial, different or missing output, never hands a part of an intermediate file to the assembler, the linker or the C compiler as if it were complete, and never runs a program other than the one the source says. If it ends by itself it says so and leaves no process behind.",
  ["fault_sequences","inputs"],
  "every memory request at which, and every duration for which, the system can refuse memory, for every source and option",
  "No test makes an allocation fail, let alone the one while the generated code grows.",
  ["src/compiler/memory/allocator.c","src/compiler/list.c","src/compiler/hashmap.c","src/compiler/io/io.c","src/compiler/codegen/codegen_utils.c","src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c","src/compiler/lexer/lexer.c"],
  [("allocator_malloc: retries and exit","src/compiler/memory/allocator.c"),("code collected in memory and written","src/compiler/codegen/asm/asm_codegen.c"),("read_file","src/compiler/io/io.c")],
  ["exit status","output file","intermediate files as the tools receive them","processes left"])
p("L01","Live linting converges to the latest file contents",
  "In live mode, once the watched source files stop changing, the last report csp-lint prints is the one a fresh one-shot lint of their final contents prints, within a bounded number of steps. No edit is lost, whatever its timing relative to the linter reading files, setting up watches or printing a report, however an edit is split into several writes, and even if the file is momentarily empty or invalid.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of an editor's write/truncate/close/replace sequences with the linter's steps, every watch-event batching",
  "There are no linter tests; a lost update needs an edit in a window of a few system calls.",
  ["src/linter/live.c","src/linter/linter.c","src/linter/panic.c","src/compiler/io/io.c"],
  [("inotify loop","src/linter/live.c"),("re-lint after each event","src/linter/live.c")],
  ["last report printed vs. a one-shot lint of the final contents"])
p("L02","One-shot lint verdict is truthful",
  "csp-lint exits 0 only if it could read the whole of every file involved and found no error and no warning in it, and exits non-zero with a diagnostic otherwise, however many there are. A command line that cannot be followed is refused the same way, and the standard library is the one selected with `--std-path`. Every lint error or unreadable file leads to an orderly non-zero exit, never to a crash, a hang or a clean verdict, also under short reads, interrupted calls and read errors.",
  ["programs","fault_sequences"],
  "every source and import graph, every fault sequence on the files read",
  "There are no linter tests.",
  ["src/linter/main.c","src/linter/linter.c","src/linter/panic.c","src/linter/error.c","src/compiler/io/io.c"],
  [("lint()","src/linter/linter.c"),("panic handler","src/linter/panic.c")],
  ["exit status, termination kind, report text"])
p("L03","Interrupting a live session is safe at any moment",
  "Ctrl-C (SIGINT) during a live lint session, whenever it arrives - while a file is read, linted or reported on, while the previous state is torn down, or at rest - never crashes, hangs or corrupts the session. With `--yes`, or once the prompt is answered with yes, the session ends with status 0 after printing one summary, which has the numbers of the report shown when the session was at rest. After the answer no, or no answer, the session goes on, loses no edit, still ends with the report a fresh one-shot lint prints, and can be interrupted again. (A second Ctrl-C before the first was taken up may end it at once.)",
  ["schedules","histories"],
  "every instant of a session, every sequence of interrupts, answers and edits",
  "There are no linter tests, and an interrupt at rest does not show what one in the middle of a lint does.",
  ["src/linter/live.c","src/linter/main.c","src/linter/error.c","src/compiler/io/io.c"],
  [("interrupt handling","src/linter/live.c"),("question","src/compiler/io/io.c"),("summary","src/linter/error.c")],
  ["exit status or signal","summary","last report printed vs. a one-shot lint"])
p("D01","The debugger does not change the debugged program",
  "A program run under `cspc debug`, with any breakpoints set and any sequence of continue, step and register/memory inspection commands, makes the same system calls with the same data in the same order and ends with the same status as when it runs alone. Inspecting never changes its memory or registers, what is shown is what the program has (memory that cannot be accessed is reported as an error, not as a value), and breakpoints stop it at exactly the chosen place every time it gets there.",
  ["histories","programs","schedules"],
  "every session script over every small program",
  "There are no debugger tests; a corrupted instruction shows only for particular command sequences.",
  ["src/compiler/debugger/debugger.c","src/compiler/debugger/breakpoint.c","src/compiler/debugger/register.c"],
  [("breakpoint enable/disable/step-over","src/compiler/debugger/breakpoint.c")],
  ["system calls and exit of the debugged program, output of the session"])
p("D02","A debugger session always ends cleanly",
  "A debug session ends when the user quits or its input ends, at whatever point that happens and whatever was typed before, including empty, over-long or malformed lines. It then exits by itself, without crashing or spinning, and the debugged program is no longer running.",
  ["histories","fault_sequences"],
  "every command history cut off at every point, every split of the input into reads",
  "There are no debugger tests.",
  ["src/compiler/debugger/debugger.c"],
  [("REPL loop","src/compiler/debugger/debugger.c")],
  ["exit of the debugger, processes left"])
p("D03","Recompiling in a debug session debugs the current source",
  "`comp` in a debug session compiles the source as it is now with the options the session was started with, exactly once, without running it; the prompt shows 0 if and only if that succeeded, and then the executable is what a build of the current source gives. A failed compilation of a wrong source leaves the previous executable. A loaded program is only ended with the user's consent and is then replaced by the newly compiled one, and what `load` and `cont` run is always the program compiled last. `sh` runs the given command once. All this holds however edits, commands, slow or failing tools and process creation failures follow one another; the session itself goes on.",
  ["histories","fault_sequences","configurations"],
  "every sequence of edits and debugger commands, every option combination, every failure of the tools of a recompilation",
  "There are no debugger tests; the edit-compile-debug cycle needs a session in which the source changes.",
  ["src/compiler/debugger/debugger.c","src/compiler/main.c","src/compiler/platform/linux/linux_platform.c"],
  [("handle_comp, handle_load, handle_unload, handle_sh","src/compiler/debugger/debugger.c")],
  ["processes started and their ends","content of the executable","prompt"])
p("S01","Text output is delivered completely, once and in order",
  "Output written through std's io functions (puts, putc, printf, write, write_int and their file-descriptor and stderr forms) reaches the chosen descriptor completely, exactly once and in program order, even if individual writes are short or interrupted; if the descriptor reports a permanent error the program goes on without delivering anything twice or out of order. Error-output functions write to standard error and never to standard output.",
  ["fault_sequences","inputs","schedules"],
  "every sequence of output calls, every pattern of short and interrupted writes, every permanent error point",
  "Tests write small strings to a descriptor that accepts everything.",
  ["src/std/io.csp","src/std/fmt.csp","src/std/syscall.csp"],
  [("io::write","src/std/io.csp")],
  ["bytes accepted by the (simulated) descriptor"])
p("S02","Files behave like a byte array with a position",
  "For every sequence of open, write, read, read_all, seek, tell, rewind, size and close on std files, data, size and reported position agree with a plain byte array with a cursor, and nothing outside the opened file changes. Under short transfers and failing calls, the reported position still equals the real one, the count returned is the number of bytes really transferred, and no byte is invented or duplicated.",
  ["histories","fault_sequences"],
  "every operation history and every fault sequence on the underlying calls",
  "There are no tests of std files.",
  ["src/std/file.csp","src/std/syscall.csp","src/std/io.csp"],
  [("File offset bookkeeping","src/std/file.csp")],
  ["results of each operation, file content and descriptor position in the simulated kernel"],
  [("File.offset","position the library believes","src/std/file.csp")])
p("S03","A failing system call surfaces as an error",
  "Whenever the operating system refuses an operation behind a std file, directory, memory, thread or testing function, the caller can see it: the function returns its documented failure value or the error state is set, and never a value that looks like success. A failed call leaks no descriptor or memory, and an operation that succeeded never leaves a fresh error.",
  ["fault_sequences","histories"],
  "every call site and every error code the operating system may return there",
  "Tests never make a system call fail.",
  ["src/std/file.csp","src/std/directory.csp","src/std/memory.csp","src/std/error.csp","src/std/testing.csp","src/std/thread.csp"],
  [("error::new and return-value checks","src/std/error.csp")],
  ["return values and error state vs. what the simulated kernel answered"])
p("S04","Allocated memory is private, intact and fully released",
  "Every block std's allocator hands out is as large as requested, overlaps no other live block, and keeps its contents until freed; resizing keeps the common prefix and calloc'd memory is zero. Freeing releases exactly that block and all of it, wherever blocks are placed in memory. If the system has no memory, allocation returns nil with an error, nothing crashes, and a failed resize leaves the old block usable.",
  ["histories","fault_sequences"],
  "every allocation history, placement of blocks by the kernel, and failing point",
  "Tests allocate a few blocks at kernel-chosen addresses and never run out of memory.",
  ["src/std/memory.csp","src/std/arena.csp"],
  [("mmap-backed blocks with a length header","src/std/memory.csp")],
  ["block contents, mapped regions in the simulated kernel"])
p("S05","Containers keep their contents under any memory placement",
  "A std vector, hash map, string and arena behaves like the corresponding mathematical sequence, map or byte string for every operation history, independent of where the allocator places its storage and of what fresh memory contains. They never read or write outside their own storage, and storage is released when they are freed.",
  ["histories","fault_sequences"],
  "every operation history combined with adversarial block placement (each block next to an unmapped page, non-zero fresh memory)",
  "Tests perform few operations with benign placement, where stray accesses go unnoticed.",
  ["src/std/vec.csp","src/std/hashmap.csp","src/std/string.csp","src/std/arena.csp"],
  [("growth and rehash","src/std/hashmap.csp")],
  ["query results vs. a reference model, faults raised by guard pages"])
p("S06","Delays, clocks and dates follow the system clock",
  "A delay of n milliseconds never ends before n milliseconds have passed unless it was interrupted, and then the remaining time is reported; periodic timers call their function once per period, until it asks to stop. Reading the clock yields the system's time at the moment of the call, also when the clock jumps or the precise clock is unavailable, and the calendar date and time derived from it are the correct UTC date and time.",
  ["schedules","inputs","fault_sequences"],
  "every delay, every start time, every clock jump and every interruption point",
  "Tests use the real clock, cannot jump it, and never interrupt a sleep.",
  ["src/std/time.csp","src/std/syscall.csp"],
  [("timer::delay, clock::get_time, time::get","src/std/time.csp")],
  ["simulated time at call and return"])
p("S07","Processes: exit handlers, fork, wait and status decoding agree",
  "process::exit runs every registered exit handler exactly once, in registration order, with the exit code, and then ends the process with that code. A child inherits the handlers registered before the fork. die, panic and failed or unreachable assertions write their message to standard error and end the process with their failure code; assertions that hold, or are disabled, have no effect; execve runs exactly the given program with the given arguments and environment, or returns an error. fork, waitpid and the status decoding functions report to the parent exactly how each child ended (exit code, or which signal) or that it was stopped, for every order in which children end.",
  ["schedules","histories","fault_sequences"],
  "every number of handlers and children, every exit code or killing signal, every ordering of exits and waits",
  "Tests run one child at a time under one schedule, with few exit codes.",
  ["src/std/process.csp","src/std/syscall.csp"],
  [("at-exit table","src/std/process.csp"),("exited/exit_status/signaled/term_sig","src/std/process.csp")],
  ["handler order, exit status in the simulated kernel, values the parent decoded"])
p("S08","Directory listing returns every entry exactly once",
  "Opening and reading a directory through std yields every entry of it exactly once with its name, however many entries there are and however the kernel splits them into batches, and then a clear end. rewind and seek to a position from tell continue exactly there; opening something that is not a readable directory fails visibly.",
  ["histories","fault_sequences"],
  "every directory content, batching and operation history",
  "There are no tests of directories.",
  ["src/std/directory.csp","src/std/syscall.csp"],
  [("getdents buffer handling","src/std/directory.csp")],
  ["names returned vs. names in the simulated directory"])
p("S09","Threads run their function once and join waits for it",
  "A successfully created thread runs its function exactly once with its own handle and user data; join returns only after the thread has finished, with everything the thread wrote visible. async runs the function to completion before returning and reports an error only if there was one. A thread that cannot be created yields nil with an error and runs nothing.",
  ["schedules","fault_sequences"],
  "every interleaving of creating, running, exiting and joining threads, and every failing point of thread creation",
  "There are no thread tests, and a real scheduler shows only a few interleavings.",
  ["src/std/thread.csp","src/std/libc/pthread.csp"],
  [("create/join/async/exit","src/std/thread.csp")],
  ["thread start/finish events and join returns in the global event order"])
p("S10","The test runner reports every test's outcome truthfully",
  "run_all runs every test of the suite exactly once, in order, each in its own process, and reports it OK only if it completed without a failed assertion, SKIP only if it asked to be skipped, and FAIL if any assertion failed or it crashed or was killed or could not be started. The totals and the returned number of failures match those outcomes, whatever number of assertions fail and whatever a test does to its own process.",
  ["programs","fault_sequences","schedules"],
  "every mix of test outcomes, failure counts, killing signals and fork failures",
  "The runner is only exercised by suites that mostly pass, on a machine where fork never fails.",
  ["src/std/testing.csp","src/std/process.csp"],
  [("fork per test, outcome passed in the exit status","src/std/testing.csp")],
  ["runner's return value and report vs. how the simulated children ended"])
p("S11","Terminal control reaches the right terminal unchanged",
  "Getting and setting terminal attributes and window size, and the flush, drain, flow and break requests, perform exactly the requested operation on the given descriptor: what is set is what is read back, and nothing else of the terminal's state or of the caller's memory changes. On something that is not a terminal, or if the request fails, the call returns a negative value.",
  ["histories","fault_sequences"],
  "every history of terminal requests and every failure",
  "There are no console tests; they would need a terminal.",
  ["src/std/console.csp","src/std/io.csp","src/std/syscall.csp"],
  [("ioctl wrappers","src/std/console.csp")],
  ["state of the simulated terminal"])
p("S12","Sockets carry the program's bytes unchanged",
  "A program using std's socket calls (socket, bind, listen, accept, connect, send, receive, shutdown, close) exchanges exactly the bytes it sends, in order per connection, and each call's result is the operating system's answer. Short sends and receives, delays, peers that close or reset, and connections arriving in any order never corrupt or reorder what is delivered, and are visible in the results.",
  ["schedules","fault_sequences"],
  "every interleaving of clients and server, delivery delay, chunking and reset",
  "There are no network tests.",
  ["src/std/net.csp","src/std/syscall.csp"],
  [("socket system call wrappers","src/std/syscall.csp")],
  ["bytes and results at both ends of simulated connections"])
p("S13","System call wrappers are transparent",
  "Every wrapper in std::syscall performs exactly the system call its name states, once, with exactly the arguments its caller gave in the order the operating system defines, and hands the operating system's result back unchanged, including every error, whatever registers contained before the call. The structures std declares for them (Stat, UTSName, PollFd, IOVec, SockAddr, SockAddrIn, TimeSpec, DirEntry) hold in each field what the operating system puts or expects there, and its error numbers, call numbers, signals, flags and requests have the operating system's values.",
  ["inputs","fault_sequences"],
  "every wrapper, argument value and result or error the operating system can give",
  "Tests use few of the wrappers, with arguments that are small and results that are successes.",
  ["src/std/syscall.csp","src/std/process.csp","src/std/io.csp"],
  [("Syscall numbers and syscall_r! argument passing","src/std/syscall.csp")],
  ["system calls and arguments arriving at the simulated kernel, results returned"])
# pure-function guarantees, listed for breadth
NA=[("P01","Compiled programs compute what the language defines","For every accepted program, the executable built by the assembly backend computes what the language documentation prescribes: expression values, control flow, calls, struct and array layout and argument passing.",["programs"],["src/compiler/codegen/asm/asm_codegen.c","src/compiler/parser/parser.c"]),
("P02","Backends agree","For every program both backends accept, the assembly backend and the C transpiler produce executables with the same observable behaviour.",["programs"],["src/compiler/codegen/asm/asm_codegen.c","src/compiler/codegen/transpiler/c_codegen.c"]),
("P03","Ill-typed programs are rejected","Every program that violates the type rules, refers to undefined names or misuses const is rejected with an error located at the offending source position, and every well-typed program is accepted.",["programs"],["src/compiler/parser/typechecker.c","src/compiler/parser/validator.c"]),
("P04","Macros and conditional compilation expand as documented","Macro expansion, overloads by argument count, imports and cfg attributes yield exactly the token sequence the documentation describes, for every nesting.",["programs"],["src/compiler/preprocessor/preprocessor.c","src/compiler/lexer/lexer.c"]),
("P05","Formatting and parsing of text values round-trip","fmt, c_str, regex and character functions give the result their documentation states for every input.",["inputs"],["src/std/fmt.csp","src/std/c_str.csp","src/std/regex.csp"]),
("P06","Math, algorithm, array and random functions match their definitions","The math, algorithm, array and random functions return the mathematically defined result (or the defined generator sequence) for every input in their domain.",["inputs"],["src/std/math.csp","src/std/algorithm.csp","src/std/array.csp","src/std/random.csp"])]
for id,t,s,over,files in NA:
    p(id,t,s,over,"every "+("program" if over==["programs"] else "input"),"Tests sample a few inputs.",files,[("pure function of its input",files[0])])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
