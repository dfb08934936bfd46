#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Garbage collection timing never changes what a program does",
 "Whatever program is run, its output, result values, errors and exit status are the same no matter at which allocations the garbage collector happens to run, including never and always. No value a program can still reach is reclaimed or altered by a collection, and the interpreter never touches memory that has been released or that it never obtained.",
 ["schedules", "programs"], "every program (language core and every standard-library module) under every set of collection points",
 "The suite runs each program under one collection schedule without a memory checker; a missing root only shows for particular allocation/collection interleavings and particular natives.",
 ["src/vm/memory.c", "src/vm/object.c", "src/vm/table.c", "src/vm/vm.c", "src/vm/value.c", "src/vm/datatypes", "src/optionals"],
 [("mark and sweep from the VM roots", "src/vm/memory.c:collectGarbage"), ("per-type marking", "src/vm/memory.c:blackenObject"), ("temporary roots pushed on the VM stack in natives", "src/vm/vm.c:push/pop"), ("weak intern table", "src/vm/table.c:tableRemoveWhite")],
 ["stdout/stderr/exit status of a run", "AddressSanitizer state at every access"],
 [("managed heap", "linked list of all objects, byte count and collection threshold", "src/vm/vm.h")])

prop("C02", "All memory a program used is released, exactly once, and garbage is reclaimed",
 "When an interpreter is shut down, every block of memory it obtained while running is released exactly once, whichever way the program's operations succeeded or failed, and its accounting of live bytes returns to zero. A program that keeps repeating the same work over a bounded set of live values runs in bounded memory, also when the operations it repeats fail.",
 ["programs", "schedules", "fault_sequences"], "every program, collection schedule and pattern of failing operations",
 "The suite checks the byte count at exit of fault-free runs only; raw allocations, error paths and growth over repetitions are never looked at.",
 ["src/vm/memory.c", "src/vm/vm.c", "src/vm/object.c", "src/vm/value.c", "src/optionals"],
 [("sweep and per-type free", "src/vm/memory.c:freeObject"), ("shutdown", "src/vm/vm.c:dictuFreeVM"), ("byte accounting", "src/vm/memory.c:reallocate")],
 ["allocation ledger after shutdown", "live bytes after k and 2k repetitions"])

prop("C03", "Interpreters running side by side in one process never affect each other",
 "Several interpreters created through the embedding API in one process, whose execution is interleaved at arbitrary points, each produce exactly the output, results and errors they would produce running alone. This covers compilation, runtime errors, imports and garbage collection happening in one of them while others are in the middle of anything.",
 ["schedules", "programs"], "every set of programs and every interleaving of their interpreters at allocation and I/O points",
 "The suite only ever runs one interpreter per process.",
 ["src/include/dictu_include.h", "src/vm/vm.c", "src/vm/compiler.c", "src/vm/scanner.c", "src/vm/memory.c", "src/vm/object.c"],
 [("all state hangs off the VM handle", "src/vm/vm.h"), ("compiler and parser state per compilation", "src/vm/compiler.c")],
 ["captured output and result of each interpreter"])

prop("C04", "A file write that reports success has reached the file",
 "When a write to an open file returns without raising an error, exactly the given text (plus the line terminator for line writes) has been added to the file at the position the open mode dictates, the returned count equals the number of characters written, and the data is visible to other readers and survives the interpreter being killed at any later instant. A write that could not be completed is never reported as a success.",
 ["fault_sequences", "crash_points", "histories"], "every sequence of opens, writes and seeks, every short or failing write (no space, I/O error) and every kill point",
 "Tests write to a healthy disk and read back after a clean close; no write ever fails or is cut short and no process is killed.",
 ["src/vm/datatypes/files.c", "src/vm/vm.c"],
 [("write then flush per call", "src/vm/datatypes/files.c:writeFile, writeLineFile"), ("open/close of the with-block", "src/vm/vm.c:OPEN_FILE, CLOSE_FILE")],
 ["file content as another process sees it after each call and after a kill"])

prop("C05", "Reading a file returns exactly its content from the current position",
 "Reads of an open file (whole file, line by line, line with a size limit, after seeks and mixed with writes in update modes) return exactly the bytes the file holds from the current position, with the line terminator removed for line reads and nil only at end of file, however the operating system splits the transfer. A read that the operating system fails is reported as an error and never yields wrong content.",
 ["inputs", "histories", "fault_sequences"], "every file content, every sequence of reads/seeks/writes in every open mode, and every split or failing read",
 "Tests read one small text file over a kernel that always returns everything; partial and failing reads never occur.",
 ["src/vm/datatypes/files.c", "src/vm/vm.c"],
 [("size then read", "src/vm/datatypes/files.c:readFullFile"), ("bounded line read", "src/vm/datatypes/files.c:readLineFile"), ("seek", "src/vm/datatypes/files.c:seekFile")],
 ["values returned by read/readLine against a byte-level model of the file"])

prop("C06", "A file opened by a with block is closed on every way out of the block",
 "Whatever way control leaves a with block - falling off its end, return from any nesting, break, continue, or the program ending - the file is closed exactly once, at that moment, after any pending data is written, and no other open file is closed in its place. Opening files in a loop therefore never accumulates open files, and using a file object after its block has ended raises an error instead of touching a closed or unrelated file.",
 ["programs", "histories", "fault_sequences"], "every nesting of with blocks, loops, functions, closures and early exits, with opens and closes failing at any point",
 "Tests leave with blocks almost only by falling off the end and never look at the open descriptors.",
 ["src/vm/compiler.c", "src/vm/vm.c", "src/vm/memory.c", "src/vm/datatypes/files.c"],
 [("close emitted at block end and before return", "src/vm/compiler.c:withStatement, checkForFileHandle"), ("close instruction", "src/vm/vm.c:CLOSE_FILE")],
 ["open-descriptor table of the simulated process after each step"])

prop("C07", "Filesystem calls do what they report, and report what they did",
 "Each filesystem operation of the standard library (make, remove, rename, list, resolve, test, change mode, owner or working directory, temporary and recursive directory creation) either succeeds with exactly the documented effect on the directory tree and the documented value, or yields an error and leaves the tree as it was (recursive creation may leave parent directories). The error text is that of the failure that occurred.",
 ["histories", "fault_sequences", "inputs"], "every sequence of operations over every tree, paths up to the system limit, and any underlying call failing",
 "Tests use a few paths on a healthy filesystem; most error branches and long or odd paths are never taken.",
 ["src/optionals/system.c", "src/optionals/path.c"],
 [("thin wrappers around system calls with error results", "src/optionals/system.c"), ("recursive creation", "src/optionals/system.c:mkdirAll"), ("listing and predicates", "src/optionals/path.c")],
 ["Result values against a reference filesystem model after every step"])

prop("C08", "A successful file copy is a complete, identical copy",
 "When copying a file reports success, the destination holds exactly the bytes of the source, whatever its size, however the transfer is split by the operating system and whatever the destination held before. If any step of the copy fails the call yields an error, the source is never modified, and no file stays open.",
 ["fault_sequences", "inputs"], "every source size and content, prior destination content, and every short, interrupted or failing step of the copy",
 "One test copies one small file in one transfer.",
 ["src/optionals/io.c"],
 [("kernel-side transfer loop", "src/optionals/io.c:copyFile")],
 ["source and destination content and open descriptors after the call"])

prop("C09", "Running a command captures its complete output and always finishes",
 "Running an external command with capture returns exactly the bytes the command wrote to its standard output, complete and in order, for any amount of output and however it is chunked and timed, and without capture the output goes to the interpreter's own output. The call returns once the command has exited: it never blocks for ever because of how much or when the command writes.",
 ["schedules", "inputs", "fault_sequences"], "every output size, every chunking/timing of the command's writes relative to its exit and to the interpreter's reads, interrupted and short reads",
 "Tests run a couple of commands with a few bytes of output that is already complete when it is read.",
 ["src/optionals/process.c"],
 [("pipe, wait and collect", "src/optionals/process.c:executeReturnOutput")],
 ["value returned vs bytes written by the simulated command; progress of the call"])

prop("C10", "Child processes are started, waited for and reported truthfully",
 "Starting a command runs exactly that command with exactly those arguments, once; waiting for it reports success exactly when it was started and exited with status zero, and a failure to create or start it, a non-zero exit or death by a signal is reported as an error. Afterwards no descriptor stays open and no waited-for child is left unreaped, killing a process sends exactly the requested signal to that process, and the interpreter's own output and state are not duplicated or disturbed by the attempt.",
 ["fault_sequences", "schedules", "histories"], "every argument list, every failure of process creation, start, wait or pipe, every exit status or signal and exit timing",
 "Tests start commands that exist and succeed; creation never fails, children never die from signals and descriptors are not counted.",
 ["src/optionals/process.c"],
 [("fork/exec/wait", "src/optionals/process.c:execute, executeReturnOutput"), ("kill", "src/optionals/process.c:processKill")],
 ["simulated process table, descriptor table and captured output"])

prop("C11", "Stream sockets deliver exactly the bytes sent, in order",
 "The data received on a connected stream socket is always a prefix of what the peer sent, byte for byte and in order, and the whole of it once the connection was closed cleanly and read to the end; each receive yields at least one and at most the requested number of bytes, and an empty string only at end of stream. A write reports exactly how many bytes were handed over, and several connections open at once never mix their data.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of clients and servers, fragmentation and coalescing of the stream, short writes, delays, resets and close points",
 "The socket tests only create, bind and set options; no byte is ever sent.",
 ["src/optionals/socket.c"],
 [("send and receive", "src/optionals/socket.c:writeSocket, recvSocket"), ("accept and connect", "src/optionals/socket.c:acceptSocket, connectSocket")],
 ["bytes sent and received per connection, both ends running real code"])

prop("C12", "Socket failures become error results and handles stay safe",
 "Any failing socket operation - refused, reset or aborted connection, address in use, write to a closed peer, interrupted call, operation on a closed socket - yields an error result carrying the system's reason; it never terminates the interpreter and never acts on another open descriptor. A socket that is closed, or no longer reachable by the program, releases its descriptor exactly once.",
 ["fault_sequences", "histories", "schedules"], "every order of create/bind/listen/accept/connect/send/receive/close on any number of sockets, with any call failing",
 "No test lets a socket call fail after creation, closes a socket twice or drops one.",
 ["src/optionals/socket.c"],
 [("error results from errno", "src/optionals/socket.c"), ("descriptor ownership", "src/optionals/socket.c:closeSocket, freeSocket")],
 ["Result values, descriptor table and liveness of the interpreter"])

prop("C13", "Acknowledged SQL statements survive crashes; failed ones have no effect",
 "Once executing a statement on an SQLite database file has returned success (and any enclosing transaction was committed), its effect is present after the interpreter or the machine crashes at any later point, and a statement that returned an error, or that was cut off by the crash, left either all or nothing of its effect. The database is never corrupted and can always be reopened and read after a crash.",
 ["crash_points", "fault_sequences", "histories"], "every sequence of statements and transactions, every crash point with any subset of unsynced writes lost or torn, and any disk error or full disk",
 "Tests use a healthy disk, never crash and mostly never reopen the database.",
 ["src/optionals/sqlite.c"],
 [("statement execution and error reporting", "src/optionals/sqlite.c:execute"), ("open and close", "src/optionals/sqlite.c:connectSqlite, closeSqlite")],
 ["database content after recovery against a model of acknowledged statements"])

prop("C14", "Query results faithfully reflect the stored data, under contention too",
 "Values bound to placeholders are stored and returned by queries unchanged, row by row and column by column in the order the database yields them, and an empty result is an empty list. When several connections work on the same database file, each sees only committed states, lock conflicts are waited for up to the configured timeout and then reported as errors, and no acknowledged update is lost; connections and statements are released on close or drop, and using a closed connection is an error.",
 ["histories", "schedules", "fault_sequences"], "every table content and statement sequence, every interleaving of several interpreters' connections on one file, and failing storage calls",
 "Tests use a single connection, few types and no contention.",
 ["src/optionals/sqlite.c"],
 [("binding and row building", "src/optionals/sqlite.c:bindValue, execute"), ("busy timeout", "src/optionals/sqlite.c:connectSqlite")],
 ["rows returned against a model of committed data; serial equivalence of increments"])

prop("C15", "HTTP calls send what was asked and return exactly what was received",
 "A successful HTTP call returns a response whose content is exactly the received body, whose header list is exactly the received header lines in order without terminators, and whose status is the received one, however the transfer is split into pieces. The request handed to the transport has the method, URL, headers, form data or body, timeout and redirect behaviour the program asked for, also when a client object is reused for several requests.",
 ["inputs", "schedules", "histories"], "every request kind and argument shape, every response and every way the transport can cut body and headers into deliveries, for one-off calls and reused clients",
 "The request tests need a public server and are not even run; they check a few fields of one response each.",
 ["src/optionals/http/http.c"],
 [("incremental body and header collection", "src/optionals/http/http.c:writeResponse, writeHeaders"), ("request set-up per method", "src/optionals/http/http.c"), ("response object", "src/optionals/http/http.c:endRequest")],
 ["response attributes and the options the transport was given"])

prop("C16", "A failing HTTP transfer becomes an error result and leaves the client usable",
 "When a transfer fails at any point - initialisation, connection, timeout, or after part of the response has arrived - the call yields an error result with the transport's reason, nothing of the partial response leaks into later responses, all resources of the attempt are released exactly once, and the same client object can be used for further requests.",
 ["fault_sequences", "histories"], "every failure kind at every point of a transfer, in any sequence of successful and failing requests on one or several clients",
 "No test makes a transfer fail half way or reuses a client after a failure.",
 ["src/optionals/http/http.c"],
 [("error returns and handle clean-up", "src/optionals/http/http.c")],
 ["Result values, transport handle life cycle, memory safety"])

prop("C17", "Reported times follow the system clock and sleeping lasts as asked",
 "Every time the library reports (UNIX time, current local and UTC date strings, processor time, log stamps) is the reading of the system clock at the moment of the call, correctly broken down into calendar fields for any instant, also when the clock jumps forwards or backwards between calls. A sleep of d seconds suspends the program for at least d seconds of real time even when the sleep is interrupted, and not appreciably longer.",
 ["schedules", "fault_sequences", "inputs"], "every clock reading (including month/year boundaries and leap days), clock jumps between calls, and interrupted sleeps",
 "Tests cannot choose the clock, so only formats and rough monotonicity are checked.",
 ["src/optionals/system.c", "src/optionals/datetime.c", "src/optionals/log.c"],
 [("clock reads", "src/optionals/system.c:timeNative, clockNative"), ("sleep", "src/optionals/system.c:sleepNative"), ("calendar formatting", "src/optionals/datetime.c:datetimeNow, datetimeNowUTC")],
 ["values returned vs the simulated clock"])

prop("C18", "Random results stay in their documented range and can all occur",
 "Whatever numbers the underlying generators produce, a random decimal lies between 0 and 1, a random integer lies in the requested inclusive range with every member attainable, a random selection is an element of the given list with every element attainable, and generated UUIDs are well-formed, distinct and of the requested kind. Asking for something impossible (an empty list or range) is an error, not a crash.",
 ["fault_sequences", "inputs"], "every stream the generators may produce (including extreme values), every range and list, and failing entropy sources",
 "Tests draw a handful of values from one stream; extreme draws practically never happen.",
 ["src/optionals/random.c", "src/optionals/uuid.c"],
 [("scaling of generator output", "src/optionals/random.c"), ("UUID generation", "src/optionals/uuid.c")],
 ["returned values for adversarial generator streams"])

prop("C19", "Environment reads reflect exactly the successful changes made before",
 "Reading an environment variable yields the value last set successfully for it, the default (or nil) if it is unset, removed or cleared, and other variables are never affected by a change. Loading a file sets exactly the variables the file defines (comments, blank lines and surrounding blanks ignored) and reports an error when the file cannot be read; a change that fails yields an error and leaves the environment unchanged, and children started later see the current environment.",
 ["histories", "fault_sequences", "inputs"], "every sequence of get/set/remove/clear/load over any names, values and file contents, with failing set calls and file reads",
 "Tests set a few variables once on a healthy system.",
 ["src/optionals/env/env.c", "src/optionals/env/env.du", "src/optionals/env/env-source.h"],
 [("environment calls", "src/optionals/env/env.c:get, set, clearAll"), ("file loader", "src/optionals/env/env-source.h")],
 ["values read vs a reference map after every step"])

prop("C20", "A module is executed exactly once and resolves relative to its importer",
 "For any graph of script and library modules, each module's code runs exactly once, in first-import order, however often, from wherever and through whichever relative path it is imported, and every importer sees the same module contents even if the file changes afterwards. A module that cannot be found, read or compiled raises an error in the importer, and paths are resolved relative to the importing script irrespective of the working directory.",
 ["programs", "fault_sequences", "histories"], "every import graph including cycles, diamonds, nested directories and import positions, with files changing, missing, unreadable or short-read at any point",
 "Tests import a handful of fixed files that are always readable.",
 ["src/vm/vm.c", "src/vm/util.c", "src/optionals/optionals.c"],
 [("module table lookup before execution", "src/vm/vm.c:IMPORT, IMPORT_BUILTIN"), ("path resolution", "src/vm/util.c:resolvePath"), ("source loading", "src/vm/util.c:readFile")],
 ["execution trace printed by each module"])

prop("C21", "Console input returns each line exactly, however it arrives",
 "Each request for console input prints its prompt and returns exactly the next line of standard input without its terminator, for lines of any length and however the bytes arrive in time, so that successive requests consume the input without loss, duplication or mixing. The end of input, including a last line without terminator, and failing reads end the request without inventing content.",
 ["inputs", "schedules", "fault_sequences"], "every input byte sequence, every chunking and delay of its arrival, and read failures or end of input at any point",
 "No test provides standard input.",
 ["src/vm/natives.c"],
 [("growing line buffer", "src/vm/natives.c:inputNative")],
 ["returned strings vs the fed byte stream"])

prop("C22", "What a script prints appears exactly once and its exit status is truthful",
 "Everything a script printed before it ended - normally, by an explicit exit, by a runtime error or by a fatal log call - appears on its output streams exactly once and in order, whatever the streams are connected to and whatever child processes it started. The exit status is 0 for a completed script, the requested code for an explicit exit, and a distinct non-zero status with a diagnostic naming file and line for compile errors, runtime errors and unreadable scripts.",
 ["programs", "fault_sequences", "schedules"], "every script, way of ending, buffering of the output streams, accepted fraction of each output write and failing read of the script file",
 "Tests look at assertion summaries of runs that end normally on a terminal-like stream.",
 ["src/cli/main.c", "src/vm/vm.c", "src/vm/natives.c", "src/optionals/process.c", "src/optionals/io.c"],
 [("exit status mapping", "src/cli/main.c:runFile"), ("error reporting with stack trace", "src/vm/vm.c:runtimeError"), ("print natives", "src/vm/natives.c")],
 ["captured streams and exit status of the simulated process"])

prop("C23", "Every log call emits exactly one complete, ordered record",
 "Each call on a logger writes exactly one record - current date and time, the logger's prefix if one is set, the message, and a line end for the line variants - completely and in call order to that logger's stream and to no other, however the stream accepts the bytes. The fatal variants write the same record and then end the program with status 1, and setting or removing a prefix affects exactly the later records of that logger.",
 ["histories", "fault_sequences", "schedules"], "every sequence of loggers, prefixes and messages, any clock reading, and output streams that accept any part of a write",
 "Tests only check that logger objects can be created.",
 ["src/optionals/log.c"],
 [("record formatting", "src/optionals/log.c")],
 ["bytes on stdout/stderr vs a reference formatter"])

prop("C24", "Any single operating-system failure is contained",
 "If any one request to the operating system fails or is cut short during any program, the interpreter does not crash, hang, corrupt memory or leak the resources of the failed call: the affected operation either still succeeds or reports an error (error result, runtime error or documented failure value) and everything unrelated behaves as without the failure. The error result of a failed file-system, process or socket operation carries the system's reason for it.",
 ["fault_sequences", "programs"], "every program using files, directories, processes, sockets, databases, time, entropy or terminal, and every call/failure-kind pair in its run",
 "Error branches after system calls are almost never executed by tests.",
 ["src/optionals", "src/vm/datatypes/files.c", "src/vm/util.c", "src/cli/main.c"],
 [("error results from errno", "src/vm/common.h:ERROR_RESULT"), ("error text", "src/vm/util.c:getStrerror")],
 ["outcome of the run and Result values around the injected failure"])

prop("C25", "After an error a session continues as if the input had stopped at the error",
 "In an interactive session or an embedding program that runs several inputs in one interpreter, an input that fails to compile has no effect, and an input that ends in a runtime error at any depth keeps exactly the effects it had before the error. All definitions, values and modules from before stay usable and later inputs behave exactly as if the failed one had ended normally at the point of the error.",
 ["histories", "fault_sequences", "programs"], "every sequence of inputs with compile errors and runtime errors raised at any nesting (functions, methods, native callbacks, imports, with blocks) and under any collection schedule",
 "Each test is one program in a fresh interpreter that succeeds.",
 ["src/vm/vm.c", "src/vm/compiler.c", "src/cli/main.c"],
 [("stack reset on error", "src/vm/vm.c:runtimeError/resetStack"), ("per-input compile and run", "src/vm/vm.c:dictuInterpret"), ("read-eval-print loop", "src/cli/main.c:repl")],
 ["output of later inputs vs the same session without the failing remainder"])

NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append({"property": id, "reason": reason})

PURE = "Pure function of its input: no schedule, clock, I/O, fault or interleaving for a simulator to decide (its collection-schedule and memory-safety side is decided under C01/C02). "
prop("C26", "No use of the library or of a value can crash or corrupt the interpreter",
 "Whatever receivers, arguments, argument counts, indexes, types and callbacks a program passes to the language's operations and to the library's functions, and whenever collections and system failures happen meanwhile, every statement ends in a value, an error result or a reported runtime error; memory is never read or written outside a live object; and afterwards the interpreter still evaluates correctly and accounts for all its memory.",
 ["programs", "inputs", "fault_sequences"], "every program within the machine's memory and stack",
 "Tests call each function with sensible arguments only.",
 ["src/optionals", "src/vm/datatypes", "src/vm/vm.c", "src/vm/object.c"],
 [("argument checks of the natives", "src/optionals, src/vm/datatypes"), ("operators, subscripts and calls", "src/vm/vm.c:run"), ("printing of values", "src/vm/object.c:setToString")],
 ["result code of every input, memory accesses, a probe evaluation at the end, live bytes after shutdown"])

na("N01", "Programs compute what the language documentation says",
 "Every program that uses the documented expressions, statements, functions, classes, traits, closures, enums and pattern results evaluates as documented: precedence, scoping, inheritance, default and variadic arguments, optional chaining and short-circuiting included.",
 ["programs"], "every program", "Tests sample constructs one at a time.", ["src/vm/compiler.c", "src/vm/vm.c", "src/vm/scanner.c"], [("single-pass compiler and bytecode loop", "src/vm/compiler.c, src/vm/vm.c:run")],
 PURE + "Deciding it needs an independent evaluator and program generation, i.e. differential testing rather than simulation.")
na("N02", "Lists, dictionaries, sets, queues, stacks and buffers behave like their models",
 "Any sequence of operations on a container gives the results of the corresponding mathematical container: nothing lost, duplicated, reordered or found under a wrong key, whatever the keys' hashes and the growth and shrink history.",
 ["histories", "inputs"], "every operation sequence and key set", "Tests use short fixed sequences.", ["src/vm/value.c", "src/vm/datatypes/lists", "src/vm/datatypes/dicts", "src/vm/datatypes/sets.c", "src/optionals/queue.c", "src/optionals/stack.c", "src/optionals/buffer.c"], [("open addressing hash tables", "src/vm/value.c"), ("growable arrays", "src/vm/value.c, src/optionals")],
 PURE + "Operation sequences on one in-memory object are input generation (model-based testing).")
na("N03", "String operations are exact for every string",
 "Every string operation (search, split, replace, slice, case, strip, format, repeat, number conversion) returns exactly the documented result for every string and argument, including empty and very long ones.",
 ["inputs"], "every string and argument", "Tests sample a few strings.", ["src/vm/datatypes/strings.c"], [("string natives", "src/vm/datatypes/strings.c")], PURE)
na("N04", "JSON parse and stringify are inverse on JSON values",
 "Parsing the serialisation of any representable value gives back an equal value, and malformed text is reported as an error.",
 ["inputs"], "every value and text", "Tests sample a few documents.", ["src/optionals/json.c", "src/optionals/json"], [("parser and builder", "src/optionals/json")], PURE)
na("N05", "Big-integer and number arithmetic is exact",
 "BigInt operations satisfy the laws of integer arithmetic for all operands, and number operations follow IEEE double semantics as documented.",
 ["inputs"], "every operand pair", "Tests sample operands.", ["src/optionals/bigint", "src/optionals/bigint.c", "src/optionals/math.c"], [("limb arithmetic", "src/optionals/bigint/bigint.c")], PURE)
na("N06", "Encodings and digests match their standards",
 "Base64 round-trips every byte string and SHA-256, HMAC and bcrypt results equal those of the standards for every input.",
 ["inputs"], "every byte string", "Tests sample vectors.", ["src/optionals/base64", "src/optionals/hashlib"], [("codec and hash code", "src/optionals/hashlib")], PURE)
na("N07", "Date parsing and formatting agree for every instant and format",
 "Formatting a timestamp and parsing the result with the same format gives back the timestamp for every instant and field-complete format.",
 ["inputs"], "every timestamp and format", "Tests sample a few.", ["src/optionals/datetime.c"], [("strftime/strptime wrappers", "src/optionals/datetime.c")], PURE + "(Clock-dependent functions are C17.)")
na("N08", "Malformed source never crashes the compiler",
 "Every byte sequence given as source either compiles or is rejected with a diagnostic; compilation itself never crashes.",
 ["inputs"], "every source text", "Tests only compile valid programs.", ["src/vm/scanner.c", "src/vm/compiler.c"], [("error recovery", "src/vm/compiler.c:synchronize")], PURE + "This is a fuzzing target.")
na("N09", "Path, network-address and argument parsing follow their documentation",
 "Joining, splitting and classifying paths, parsing IPv4 addresses and parsing command-line arguments return the documented result for every input.",
 ["inputs"], "every string and argument vector", "Tests sample a few.", ["src/optionals/path.c", "src/optionals/net.c", "src/optionals/argparse"], [("string manipulation", "src/optionals/path.c")], PURE)
na("N10", "The unit-test library reports exactly the tests that failed",
 "Running a test class executes each test once with its providers and hooks, reports each failing assertion and only those, and ends with a failing exit status exactly when something failed.",
 ["programs"], "every test class", "It is exercised only by passing tests.", ["src/optionals/unittest"], [("test runner written in Dictu", "src/optionals/unittest/unittest-source.h")], PURE)
na("N11", "Foreign functions are called with the given arguments",
 "A native library loaded at run time can define functions that scripts call with arguments and results unchanged, and an incompatible or missing library is an error.",
 ["inputs", "configurations"], "every library", "Tests load one prepared library.", ["src/optionals/ffi"], [("dynamic loading", "src/optionals/ffi/ffi.c")], "The behaviour lives in a separately compiled shared object outside the simulated process image and in the dynamic loader, which the simulator does not own; loading failures are covered as injected faults under C24.")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties,", len(NA), "not applicable")
