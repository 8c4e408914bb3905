#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = "internal/engine/task/"
TY = "internal/common/type/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or ["stdout, stderr and exit status of the oh binary"]
    d["anchors"]["hook_needed"] = None
    P.append((d, technique, note))


prop("C01", "Every command of a program is evaluated exactly once, in order",
     "Every complete command of a program is evaluated exactly once and in the order written, whether the program is a script, a sourced file, the argument of -c or lines typed at the prompt, and however its commands are laid out (one per line, separated by ';' or '&', spread over lines, grouped in blocks, surrounded by comments, blank lines or line continuations, with or without a final newline). A command followed by '&' is started at that point and runs once, concurrently with what follows. A script or sourced file with a syntax error anywhere evaluates none of its commands.",
     ["programs", "inputs"], "all layouts of all sequences of commands",
     "The parser tests parse single commands and the doctests run one command per line; neither counts evaluations over the space of layouts.",
     ["internal/reader/reader.go", "internal/reader/lexer/lexer.go", "internal/reader/parser/parser.go", "main.go", TY + "pipe/pipe.go", "internal/engine/boot/boot.oh"],
     [("reader hands every parsed command to the evaluator", "internal/reader/reader.go Scan/Next"), ("source reads all then evaluates", "internal/engine/boot/boot.oh source"), ("block evaluation", T + "action.go evalBlock")],
     "trace monitoring: generated programs emit an event per command, an offline checker compares the event log with the program's own sequence",
     "Exploration: thousands of random layouts per run through all entry points; trusts the generator's idea of oh's syntax.")

prop("C02", "A value written to a pipe is read back as an equal value",
     "A non-empty list of numbers, statuses, strings, symbols and (nested, possibly improper or empty) lists of these that is written to a pipe with 'write' occupies exactly one line and is read back with 'read' or 'read-list' as an equal list, element for element and type for type, whatever characters its strings and symbols contain (except that a symbol containing one of , . / : = @ ~ next to other characters is read back as the expression that evaluates to it). A string written with 'write-line' that has no newline is returned unchanged by 'read-line'.",
     ["inputs"], "all values built from the data types, all characters",
     "Tests round-trip a handful of values; quoting bugs depend on particular characters, positions and nestings.",
     [TY + "pipe/pipe.go", TY + "sym/sym.go", TY + "str/str.go", TY + "num/num.go", TY + "status/status.go", TY + "pair/pair.go", "internal/reader/parser/parser.go", "internal/reader/lexer/lexer.go"],
     [("literal representations", "Literal methods of the cell types"), ("meta forms", "internal/reader/parser/parser.go meta"), ("framing, one line per record", TY + "pipe/pipe.go Write/Read")],
     "runtime monitoring of generated values through the real pipe: in-language equality/type monitor plus offline decoding of the written bytes",
     "Exploration over random values biased to metacharacters; compares inside oh and, independently, outside of it.")

prop("C03", "No input text crashes or wedges the reader, and the reader recovers",
     "Whatever bytes oh is given to read as code (a script, -c text, a sourced file, or a pipe that is read from) the outcome is evaluation, an ordinary error or a report that the text is incomplete: oh never crashes with an internal fault and never stops responding because of it. Text that is not well formed is reported as an error rather than being ignored or turned into some other command. After an error the next record of a pipe is read normally.",
     ["inputs"], "all byte strings",
     "The lexer and parser tests use well-formed input; only hostile input, in bulk, exercises the error paths.",
     ["internal/reader/reader.go", "internal/reader/lexer/lexer.go", "internal/reader/parser/parser.go", TY + "pipe/pipe.go"],
     [("errors are turned into values", "internal/reader/parser/parser.go Parse"), ("reader goroutine protocol", "internal/reader/reader.go"), ("reader replaced after an error", TY + "pipe/pipe.go Read")],
     "grammar-aware and byte-level fuzzing of the real binary with crash, hang (quiescence/CPU) and recovery monitors",
     "Exploration: tens of thousands of mutated inputs per run; hangs are confirmed by a solo re-run.")

prop("C04", "Arguments reach external commands byte for byte, word for word",
     "The argument vector an external command receives is exactly the list of words of the command: single-quoted text verbatim, $'...' text with its escapes decoded, double-quoted text with its escapes decoded and its $name references replaced and nothing else changed, adjacent pieces joined into one word, and string values of variables, captures and splices contributing exactly one word per value however many spaces, newlines, quotes or glob characters they contain. Only bare words (symbols) undergo tilde and glob expansion. No word is dropped, split, merged, re-evaluated or reordered.",
     ["inputs", "programs"], "all words in all quoting forms, of all byte values other than NUL",
     "The doctests show a few quoting examples; fidelity has to hold for every character in every quoting form and combination.",
     ["internal/reader/lexer/lexer.go", "internal/reader/parser/parser.go", T + "action.go", T + "task.go"],
     [("word joining", "internal/reader/parser/parser.go implicitJoin; internal/engine/commands/core.go mend"), ("argv construction", T + "action.go external"), ("interpolation", T + "action.go interpolate"), ("expansion of symbols only", T + "task.go expand")],
     "a recording stand-in program logs the argv it receives; offline checker compares with the words generated",
     "Exploration over random words and quoting forms; NUL bytes are outside of the domain of argv.",
     observe=["argv of child processes, logged by a probe program"])

prop("C05", "Arithmetic and numeric comparison are exact over the rationals",
     "add, sub, mul and div return the exact rational result for all rational arguments of any size, mod returns the integer remainder in [0, |divisor|) for integer arguments, and lt?, le?, gt?, ge? compare any number of rationals exactly and pairwise. Numbers print in lowest terms, read back as the same number, and every numeral (decimal, exponent or fraction) denotes its exact value. Division by zero, non-integer operands of mod and non-numeric operands are reported as exceptions, never as a wrong value, and no operation changes the value of its arguments.",
     ["inputs"], "all rationals, all argument counts",
     "There are no arithmetic tests beyond counters in loops; exactness is about all magnitudes and signs.",
     ["internal/engine/commands/arithmetic.go", "internal/engine/commands/relational.go", "internal/engine/commands/number.go", TY + "num/num.go", "internal/common/interface/integer/integer.go"],
     [("math/big.Rat arithmetic on fresh accumulators", "internal/engine/commands/arithmetic.go"), ("chained comparison", "internal/engine/commands/relational.go")],
     "monitored execution of generated expressions against an independent exact-rational oracle",
     "Exploration; the oracle is Python's fractions module.")

prop("C06", "List operations return what they should and copy what they should",
     "For every list and argument, length, reverse, slice, get (with and without defaults, with negative indexes), head, tail, append, extend, set-head, set-tail, cons, list, for and seq give the results their definitions prescribe. slice, reverse and for never change or share structure with the list they are given; append and extend extend the list in place and leave the appended values unchanged. Out-of-range accesses raise exceptions rather than returning another element.",
     ["inputs", "histories"], "all lists, indexes and sequences of operations on shared lists",
     "Tests exercise list methods only in passing; aliasing and index arithmetic need random operation sequences.",
     [TY + "list/list.go", TY + "pair/pair.go", "internal/engine/commands/list.go", "internal/engine/boot/boot.oh"],
     [("list primitives", TY + "list/list.go"), ("index handling", TY + "list/list.go Slice/Tail")],
     "model-based monitoring: random histories of list operations replayed on a cons-cell model, results and final structures compared",
     "Exploration over operation histories including aliased lists.")

prop("C07", "String operations return exactly what they should",
     "For all strings of valid text and all arguments, str's length, slice, replace, upper, lower, trim-prefix and trim-suffix, and mend, rend, match, string, symbol and double-quote interpolation return exactly the strings, lists or truth values their definitions prescribe, byte for byte. rend undoes mend whenever the separator does not occur in the pieces. Indexes out of range and undefined names are reported as exceptions.",
     ["inputs"], "all byte strings, separators, patterns and indexes",
     "Only a few calls appear in doctests; boundary indexes, empty separators and metacharacters are not sampled.",
     ["internal/engine/commands/string.go", "internal/engine/commands/core.go", T + "action.go", TY + "str/str.go"],
     [("string functions", "internal/engine/commands/string.go"), ("mend, rend, match", "internal/engine/commands/core.go"), ("interpolate", T + "action.go interpolate")],
     "monitored execution of generated calls against an independent reference implementation",
     "Exploration; the reference implementation is written from the manual's definitions, in Python.")

prop("C08", "Equality, truth, type predicates and conditionals agree with the values",
     "Among data values (numbers, statuses, strings, symbols and lists) equal? holds exactly for values of the same type and structure and eq? for values with the same text, each type predicate (number?, string?, symbol?, cons?, null?, chan?, pipe?, object?, method?, syntax?, continuation?) holds exactly for its type, and true, false, not and bool follow the type's truth rule: () is false, a number is false when zero, a status is true when zero, everything else is true. if, else-if chains, while, and, or, &&, || and not evaluate exactly the tests and branches this rule selects, in order, and short-circuit, and give the value of the last expression evaluated.",
     ["inputs", "programs"], "all values and pairs of values; all nestings of conditionals",
     "Doctests cover a few conditionals with symbols; mixed-type equality and nested conditionals are not covered.",
     ["internal/engine/commands/relational.go", "internal/common/interface/boolean/boolean.go", TY + "pair/pair.go", T + "action.go", "internal/engine/boot/boot.oh"],
     [("truth", "internal/common/interface/boolean/boolean.go"), ("if/while", T + "action.go execIfBody, execWhileBody"), ("and/or/not", "internal/engine/boot/boot.oh")],
     "trace monitoring: generated conditionals emit an event per evaluated test and branch; compared with a reference evaluator",
     "Exploration.")

prop("C09", "Names resolve lexically, then dynamically to exported names only",
     "A name refers to the innermost definition in the scopes that lexically enclose the code using it, as they are at that moment; only when there is none does it refer to an exported name visible in the callers' scopes, innermost caller first, and never to a caller's private definition. set changes exactly the variable the name lexically refers to and nothing else, define and export affect only the scope they are evaluated in, and definitions made in a block, branch, loop body or call disappear from view when it ends. Each call, and each element a for visits, has variables of its own, which live as long as the closures over them.",
     ["programs"], "all programs built from definitions, assignments, blocks, closures and calls",
     "The doctests include one dynamic-scope and one closure example; interactions of nesting, shadowing, unset and callers are combinatorial.",
     [TY + "env/env.go", "internal/common/struct/frame/frame.go", "internal/common/struct/hash/hash.go", T + "action.go"],
     [("lookup chain", TY + "env/env.go Lookup"), ("dynamic fallback over frames", "internal/common/struct/frame/frame.go Resolve"), ("scope creation", T + "action.go apply, block, evalIf, evalWhile")],
     "differential trace monitoring: random programs log every value they observe; an independent reference interpreter predicts the log",
     "Exploration over random programs; the reference interpreter shares no code with oh.")

prop("C10", "Objects expose exactly their public members; maps behave as maps",
     "Through an object a program can reach exactly the names exported in the object's body: private names are not reachable, public methods run with access to the private state, objects created by the same code do not share state, and evaluating an object definition again yields an object that is independent of, and identical in behaviour to, the previous ones. A map returns for every key the last value set for it and not deleted, reports membership accordingly and deletes only the key it is given, for any sequence of operations. Using a member that is missing or is not executable is an exception.",
     ["programs", "histories"], "all object definitions and operation histories",
     "The doctests build one point object and one map.",
     [TY + "obj/obj.go", TY + "env/env.go", "internal/common/struct/hash/hash.go", T + "action.go", "internal/engine/boot/boot.oh"],
     [("object wrapper", TY + "obj/obj.go Lookup"), ("map and object definitions", "internal/engine/boot/boot.oh object, map"), ("member access", T + "action.go accessMember")],
     "model-based monitoring of operation histories: every result is logged by the program and checked against a dictionary/object model",
     "Exploration over random histories.")

prop("C11", "Exceptions unwind to the innermost handler and nothing in between runs",
     "A throw, or a runtime error, abandons the current computation and runs one handler with the thrown value (the one lexically enclosing the failing code if there is one, otherwise that of the innermost caller with one); nothing after the failing command in the abandoned computation is evaluated, and the scopes, standard streams and variables in force where the handler returns to are those of that point. If the handler returns explicitly the method containing the catch returns that value; if it falls through the exception continues to the next enclosing handler; with no handler left the script or spawned task ends, and no other task is affected, with the error reported on standard error and nothing after it evaluated. This holds through calls, blocks, loops, redirections, pipelines, captures and re-execution any number of times.",
     ["programs", "fault_sequences"], "all nestings of handlers and constructs, all points of failure",
     "One doctest covers a caught exception; unwinding through combinations of constructs is not covered.",
     ["internal/engine/boot/boot.oh", T + "task.go", T + "action.go"],
     [("panics become throws", T + "task.go Step"), ("catch", "internal/engine/boot/boot.oh catch"), ("unhandled exceptions", "internal/engine/boot/boot.oh sys throw")],
     "trace monitoring of generated programs with injected throws and runtime errors against a reference evaluator",
     "Exploration; exceptions are injected at every position of generated programs.")

prop("C12", "return and saved continuations resume exactly where they were captured",
     "Calling return, from any depth of blocks, loops and conditionals within a method, ends that method at once with the given value and nothing after it in the method is evaluated. A saved continuation can be called from anywhere in the same task and any number of times, including after its method has returned: each time, execution resumes where that call returned to, with the value passed, the scopes of that point and the evaluated arguments collected up to that point, and with variables holding their current values.",
     ["programs"], "all programs using return and first-class continuations",
     "One doctest shows a generator-like use of continuations.",
     [T + "registers.go", T + "action.go", T + "closure.go"],
     [("capture of registers", T + "action.go apply"), ("restore", T + "action.go continuation; " + T + "registers.go restoreOver")],
     "trace monitoring of generated programs against a continuation-passing reference evaluator",
     "Exploration.")

prop("C13", "Tail calls and loops run in constant space; re-execution does not grow",
     "A loop, or a chain of calls in tail position (including through if, else, block and mutual recursion) between methods of one scope that export no names, can run any number of iterations with memory bounded independently of that number. Evaluating the same code again, including code that uses catch, object, redirection, pipelines and captures, takes no more time or memory than the first time. Recursion that is not in tail position is limited only by memory.",
     ["programs", "histories"], "all iteration counts; all repeated constructs",
     "Tests run loops of at most a few iterations; growth shows only over many.",
     [T + "action.go", T + "registers.go", "internal/engine/boot/boot.oh"],
     [("removal of the last operation before its command", T + "action.go evalBlock, evalArgs"), ("condensed restores", T + "registers.go PushOp")],
     "resource monitoring: peak memory and time of the real process sampled over iteration counts, compared between lengths with wide margins",
     "Exploration over a catalogue of loop and call shapes; thresholds are ratios with wide margins, confirmed by re-running.")

prop("C14", "Calls bind evaluated arguments in order; syntax and eval see code as data",
     "A method's arguments are evaluated exactly once each, left to right, before the body runs, and are bound to its parameters in order, with a final list parameter receiving the rest; a call with the wrong number of arguments is an exception and the body does not run. A syntax receives its operands unevaluated, quote returns code unchanged and quasiquote replaces exactly the unquoted parts, evaluating an operand with eval evaluates it in the chosen scope exactly as if it had been written there, and running code never alters the code or any other list the program has not explicitly changed.",
     ["programs"], "all signatures, argument lists, and code fragments",
     "A few methods with one or two parameters are called in doctests.",
     [T + "action.go", T + "task.go", T + "closure.go", "internal/common/validate/validate.go", "internal/engine/boot/boot.oh"],
     [("argument evaluation", T + "action.go evalArgs"), ("binding", T + "action.go apply"), ("eval", T + "action.go eval")],
     "trace monitoring: operands log their evaluation; binding and log are checked against a reference evaluator",
     "Exploration.")

prop("C15", "Children get exactly the exported variables in force, unchanged",
     "The environment of an external command consists of exactly the exported names visible at the call, each with the text of its innermost visible value (its value at that moment), and includes the inherited environment unless overridden. Names defined without export, and values with no text form (methods, channels, pipes, objects), are not passed. A name=value prefix applies to that command only, and nothing a command or block exports within its own scope is visible to commands run after it ends.",
     ["programs", "inputs"], "all nestings of exports and calls, all names and values",
     "No test inspects a child's environment.",
     [T + "task.go", TY + "env/env.go", "internal/common/struct/hash/hash.go", "internal/engine/engine.go", "internal/reader/parser/parser.go"],
     [("environment construction", T + "task.go Environ"), ("prefix assignment", "internal/reader/parser/parser.go assignments")],
     "a recording stand-in program logs the environment it receives; offline checker compares with the scopes of the generated program",
     "Exploration.",
     observe=["environment of child processes, logged by a probe program"])

prop("C16", "A redirection never destroys existing data unless told to",
     "> and >& never change an existing regular file, whatever form its name is given in (bare word, quoted, variable, computed, matched by a glob, absolute or relative to the current directory): they raise an exception, the command is not run and the file keeps its contents. >| and >&| replace the contents, >> and >>& only add to the end, and < never changes or creates a file. A redirection to several files, or from a missing file, is an exception and runs nothing.",
     ["inputs", "programs"], "all file names, name forms, redirection operators and prior file states",
     "The doctests redirect to one simply named file.",
     ["internal/engine/boot/boot.oh", T + "action.go", "internal/engine/commands/file.go"],
     [("existence check", "internal/engine/boot/boot.oh make-redirect; " + T + "action.go exists"), ("open modes", "internal/engine/commands/file.go")],
     "file-system monitoring: snapshots before and after generated redirections compared with the operator's contract",
     "Exploration.",
     observe=["file contents before and after", "events of the redirected command"])

prop("C17", "A redirection affects exactly its command, and streams are restored",
     "During a redirected command, and only then, the standard streams named by the redirection (and no others) refer to the file, pipe or channel given: everything written by external and built-in commands within it, at any depth and in order, goes there and nothing is lost, duplicated or reordered, and input comes from there. When the command ends, normally or by an exception, the streams are what they were before, everything written is in the file, and the file is closed. The value (or exception) of a redirected command is that of the command.",
     ["programs", "fault_sequences"], "all nestings of redirections, commands and failures",
     "The doctests use one redirection at a time around a single command.",
     ["internal/engine/boot/boot.oh", T + "action.go", TY + "pipe/pipe.go"],
     [("scoped override of stdin, stdout and stderr", "internal/engine/boot/boot.oh override-*"), ("streams passed to processes", T + "action.go external")],
     "trace monitoring: every write carries a sequence number and its intended stream; offline checker over the resulting files",
     "Exploration.")

prop("C18", "A pipeline conveys all data in order and its value is its last command's",
     "In a pipeline of any length, whose stages are external commands, built-ins, methods or blocks, each stage reads exactly the bytes the previous one wrote (including its standard error for |&), in order, complete and followed by end of file, for any amount of data, and the stages run concurrently. The pipeline ends when all its stages have, with the value of the last one; an exception in a stage is raised by the pipeline. A stage that stops reading early does not stop the pipeline from ending.",
     ["programs", "inputs", "schedules"], "all stage kinds and counts, data sizes and finishing orders",
     "The doctests have two-stage pipelines with a few lines of output.",
     ["internal/engine/boot/boot.oh", TY + "pipe/pipe.go", "internal/system/job/job_unix.go", T + "action.go"],
     [("pipe construction", "internal/engine/boot/boot.oh make-pipe"), ("end of file", TY + "pipe/pipe.go WriterClose")],
     "data-flow monitoring: digests and counts at both ends of every pipe, with injected delays in stages to vary finishing order",
     "Exploration over pipelines, sizes and delays.")

prop("C19", "Command substitution returns exactly the lines its command wrote",
     "A captured command yields exactly the list of lines that it (and everything it ran) wrote to standard output, in order, as strings, without the line terminators, with a last line that lacks one included, and nothing else, for any content and any number of lines. Spliced into a command it contributes exactly one argument per line, unaltered. Exceptions in the command are raised by the capture and standard error is not captured.",
     ["inputs", "programs"], "all outputs and nestings",
     "One doctest captures a single line.",
     ["internal/engine/boot/boot.oh", TY + "pipe/pipe.go", "internal/reader/parser/parser.go"],
     [("capture", "internal/engine/boot/boot.oh capture"), ("line reading", TY + "pipe/pipe.go ReadLine")],
     "monitored execution with generated outputs; offline comparison with the bytes produced",
     "Exploration.")

prop("C20", "Process substitution connects, waits for and cleans up each command",
     "Each |<(...) argument is replaced by a path from which the command reads exactly what the substituted command writes, and each |>(...) by a path such that what is written there is exactly what the substituted command reads. The construct ends only when the command and all substituted commands have, raises any of their exceptions, and leaves no named pipe behind; all other arguments are unchanged and keep their positions.",
     ["programs", "inputs"], "all numbers, kinds and positions of substitutions in commands that open the paths they are given",
     "No test uses process substitution.",
     ["internal/engine/boot/boot.oh", "internal/reader/parser/parser.go", "internal/engine/commands/file.go"],
     [("process-substitution", "internal/engine/boot/boot.oh"), ("parsing", "internal/reader/parser/parser.go possibleSubstitution")],
     "data-flow monitoring with a probe program and leftover-file checks in the temporary directory",
     "Exploration; a command that never opens the path it is given is a recorded finding.")

prop("C21", "Exit statuses are reported faithfully and drive control flow",
     "The value of an external command is its exit status, or 128 plus the number of the signal that killed it, and counts as true exactly when it is zero; $? holds the value of the last command line evaluated at the prompt or given to -c. 'exit n' ends oh at once with exit status n (modulo 256), from any depth, and nothing after it is evaluated; without an argument the status is 0. Starting a command that does not exist or cannot be executed is an exception that names it.",
     ["programs", "inputs"], "all statuses and signals, all contexts of exit",
     "No test looks at a non-zero status, a signal or oh's own exit status.",
     ["internal/system/job/job_unix.go", "internal/engine/engine.go", TY + "status/status.go", T + "action.go"],
     [("status of a reaped child", "internal/system/job/job_unix.go notify"), ("exit", T + "action.go exit; internal/engine/engine.go Evaluate")],
     "enumeration of all statuses and a set of signals through the real process machinery, with in-language and external observation",
     "All 256 statuses and the terminating signals are enumerated; contexts are sampled.")

prop("C22", "Descriptors, processes, fifos and goroutines do not leak",
     "After a command completes, normally or with an exception, oh holds no file descriptor, child process (running or defunct), temporary named pipe or internal activity on its behalf, so that any number of redirections, pipelines, captures, substitutions, opened and closed files, failures and background commands leave the process's resource usage where it was. A child process inherits standard input, output and error and no other descriptor.",
     ["histories", "fault_sequences"], "all histories of commands, including failing ones",
     "Tests run single short commands and never look at descriptors or processes.",
     ["internal/engine/boot/boot.oh", TY + "pipe/pipe.go", "internal/system/job/job_unix.go", "internal/reader/reader.go"],
     [("closing in boot.oh wrappers", "internal/engine/boot/boot.oh"), ("reaping", "internal/system/job/job_unix.go reap"), ("reader shutdown", "internal/reader/reader.go Close")],
     "resource monitoring: /proc (descriptors, children), the temporary directory and goroutine dumps of the live process over repeated constructs",
     "Exploration over a catalogue of constructs, each repeated until growth would show.",
     observe=["/proc/PID/fd and children of the live process", "goroutine dump", "descriptors seen by a probe child"])

prop("C23", "Globs expand to exactly the matching names, in order",
     "A bare word with *, ? or [...] used as an argument of an external command or a redirection expands to exactly the existing paths it matches, sorted, relative to the current directory of that scope if the word is, each as one word whatever characters it contains; hidden names match only an explicit leading dot. A pattern that matches nothing is an exception and the command is not run. Quoted text, values that are strings, and words without these characters are never expanded, and ~ at the start of a bare word stands for the home directory.",
     ["inputs", "configurations"], "all patterns, directory contents and current directories",
     "The doctest expands a few patterns over three simply named files.",
     [T + "task.go", T + "action.go"],
     [("expansion", T + "task.go expand"), ("tilde", T + "task.go tildeExpand")],
     "monitored expansion in generated directory trees against an independent matcher",
     "Exploration; directory and file names include glob metacharacters.")

prop("C24", "The current directory is scoped, and the same for every operation",
     "cd changes the current directory for the rest of the scope it is evaluated in and for code called from there (unless that code is defined within the scope of another cd, whose directory it uses), and for nothing else: when the block, method or background task ends the previous directory is in force again. At every point external commands, redirections, open, exists, source, globs, ./command and $PWD all use the same directory, also while other tasks change theirs. cd to a missing directory changes nothing and returns false; cd with no argument goes to $HOME and cd - to $OLDPWD.",
     ["programs", "schedules"], "all sequences and nestings of cd, and operations with relative paths, in one or several tasks",
     "No test changes directory.",
     [T + "task.go", T + "action.go", "internal/engine/commands/file.go", "internal/engine/engine.go"],
     [("Chdir", T + "task.go Chdir"), ("relative paths", "internal/engine/commands/file.go Path; " + T + "action.go external")],
     "differential monitoring: after every step of a generated program the directory seen by each kind of operation is logged and compared with a model",
     "Exploration, including concurrent tasks.")

prop("C25", "A channel delivers each value exactly once, in order, within capacity",
     "Every value written to a channel is received by exactly one reader, values written by one task are received in the order it wrote them, and nothing is received that was not written, for any number of writers and readers and any capacity. A write to a channel completes only when a reader has taken it or there is room within the capacity, so no more than the capacity of values is ever waiting. Once a channel is closed, readers receive the remaining values and then (), and a further write is an exception.",
     ["schedules", "histories"], "all interleavings of readers, writers and closers",
     "Two unit tests write and read one value.",
     [TY + "chn/chn.go", "internal/engine/commands/conduit.go", T + "action.go"],
     [("Go channel", TY + "chn/chn.go")],
     "recorded event logs from concurrent tasks checked offline (exactly-once, per-writer FIFO, capacity bound, linearizable queue), under injected delays, on a race-detector build as well",
     "Exploration of schedules by stress, random delays and GOMAXPROCS.")

prop("C26", "A pipe shared by tasks keeps every record whole",
     "Any number of tasks can write to and read from the same pipe or standard stream: each write or write-line appears as one contiguous, unmodified line, each line read is read by exactly one reader, lines written by one task arrive in order and nothing is lost or invented, whatever the sizes. Once every writer has closed, readers receive the remaining lines and then ().",
     ["schedules"], "all interleavings and record sizes",
     "The unit test has one writer and one reader of one value.",
     [TY + "pipe/pipe.go", "internal/engine/commands/conduit.go"],
     [("single write per record", TY + "pipe/pipe.go Write/WriteLine"), ("reads serialized", TY + "pipe/pipe.go Read/ReadLine")],
     "checksummed, numbered records from concurrent tasks; offline exactly-once/order/integrity checker; race-detector build",
     "Exploration of schedules by stress; records up to several pipe buffers.")

prop("C27", "Concurrent use of shared variables and maps is atomic per operation",
     "When several tasks define, set, read, unset and export variables or use the same map concurrently, each operation takes effect atomically at some point between its start and its end: a read returns a value that was actually written and is consistent with such an order, no update to one name disturbs another name, and nothing is corrupted or crashes.",
     ["schedules"], "all interleavings of operations on shared scopes",
     "No test shares a variable between tasks.",
     [TY + "env/env.go", "internal/common/struct/hash/hash.go", "internal/common/struct/slot/slot.go", TY + "sym/sym.go"],
     [("locks", "internal/common/struct/hash/hash.go; internal/common/struct/slot/slot.go; " + TY + "sym/sym.go symnew")],
     "histories of invocation/response events recorded under concurrency and checked offline for linearizability, plus the race detector",
     "Exploration of schedules; per-key register histories are checked exactly.")

prop("C28", "Each spawned task runs once; wait returns only when tasks have ended",
     "'spawn' and '&' run their commands exactly once, in their own scope, concurrently with the spawner, from which they can use but not define variables. 'wait' with tasks returns only after all of those tasks have ended, and without tasks only after all the current task's children have (or, at the top level, all background tasks), in every interleaving, including tasks that have already ended, that fail, that wait themselves, or that have children of their own; it never blocks forever when they do end.",
     ["schedules", "programs"], "all trees of tasks and orders of completion",
     "No test spawns more than one task.",
     [T + "action.go", "internal/system/job/job_unix.go", T + "state.go"],
     [("spawn", T + "action.go spawn; internal/system/job/job_unix.go Spawn"), ("wait groups", "internal/system/job/job_unix.go Await, tell"), ("task state machine", T + "state.go")],
     "event logs (start, end, wait-returned) of generated task trees with random delays checked offline against happens-before rules; hang monitor",
     "Exploration of schedules by random task trees and delays.")

prop("C29", "The runtime is free of data races whatever tasks do",
     "However many tasks run concurrently and whatever mixture of calls, variables, maps, objects, channels, pipes, redirections, captures, exceptions, imports, external commands, waits and job operations they use, oh's own state is only accessed under synchronization: no data race occurs, no internal fault is reported and no task is lost. (Two tasks that explicitly change the same list in place are outside of this guarantee.)",
     ["schedules", "programs"], "all interleavings of all language constructs",
     "The tests are sequential and are not run under the race detector.",
     [T + "state.go", T + "task.go", "internal/system/job/job_unix.go", TY + "env/env.go", TY + "sym/sym.go", TY + "pipe/pipe.go", "internal/reader/reader.go", "internal/system/cache/cache.go"],
     [("monitor goroutine owns job state", "internal/system/job/job_unix.go monitor"), ("task state lock", T + "state.go"), ("scope locks", "internal/common/struct/hash/hash.go")],
     "Go race detector on the real binary under generated concurrent workloads, scripted and interactive",
     "Exploration: happens-before race detection over every workload run.",
     observe=["race detector reports"])

prop("C30", "Interactive job control: interrupt, stop, list, resume, in order",
     "At the prompt, an interrupt ends the current foreground command, whether it is an external process, a pipeline or a running program, with everything it started in the foreground, and returns to a working prompt; a stop suspends it and lists it under a new job number with its text. jobs lists exactly the stopped jobs, fg and bg resume the one asked for (the most recent by default), which then runs to completion exactly once from where it stopped, and asking for one that does not exist is an exception. The shell itself survives every sequence of these and keeps its variables.",
     ["histories", "schedules"], "all sequences of commands, interrupts, stops and job commands",
     "The tests are not interactive.",
     ["internal/system/job/job_unix.go", "internal/system/process/process_unix.go", T + "state.go", T + "task.go", "main.go", "internal/engine/engine.go"],
     [("signal handling", "internal/system/job/job_unix.go monitor, notify"), ("stop/resume state", T + "state.go"), ("foreground group", "internal/system/process/process_unix.go")],
     "scripted terminal sessions with a job-table model as the oracle; process states observed in /proc",
     "Exploration of random sessions on a pseudo-terminal.",
     observe=["terminal output", "/proc states of child processes"])

prop("C31", "File name completion offers exactly the matching names and keeps the line",
     "With the cursor after an unquoted word that is an argument, completion offers exactly the entries of the directory that the word names (relative to the current directory, to ~/ or to /) whose names begin with what was typed of the last part, directories marked with a trailing /, hidden entries only when a dot was typed: one is inserted, of several what they begin with, and a second Tab lists them. The rest of the line before the word and after the cursor is preserved, whatever script its text is in. Completion never evaluates, changes or submits the line or any part of the command being entered, and never crashes or hangs the shell, however incomplete the line is and whatever is typed meanwhile.",
     ["inputs", "configurations"], "all lines, cursor positions and directory contents",
     "There are no completion tests.",
     ["main.go", "internal/system/cache/cache.go", "internal/reader/lexer/lexer.go", "internal/reader/parser/parser.go"],
     [("candidates", "main.go completer, files, matches"), ("directory listing", "internal/system/cache/cache.go Files")],
     "scripted terminal sessions: what completion inserts or lists is compared with the directory's contents",
     "Exploration of generated directory trees and partial words.",
     observe=["terminal output"])

prop("C32", "Interactive history keeps every line entered, across sessions",
     "Every non-empty line entered at the prompt is in the history file when the session ends, with exit or at the end of the input, in the order entered, after the lines of the earlier sessions (one of several equal lines entered in a row is kept, and the last 1000 lines, the line editor's limit). This is so whatever the lines contain and however long they are, including lines that fail, are incomplete or are interrupted, for sessions that do not overlap. The file is the one named by OH_HISTORY or ~/.oh-history, and a missing file is not an error.",
     ["histories", "configurations"], "all sequences of sessions and lines",
     "The tests are not interactive.",
     ["internal/system/history/history.go", "internal/system/history/os_unix.go", "main.go"],
     [("load and save", "internal/system/history/history.go"), ("appending", "main.go repl")],
     "scripted terminal sessions; history file compared with the list of lines entered",
     "Exploration.",
     observe=["history file"])

prop("C33", "Invocation: scripts, -c, arguments and names arrive intact",
     "oh runs the script file it is given, whatever its path, or the text given to -c, with $0 set to the name, the positional parameters 1, 2, ... and $@ to the remaining arguments, each byte for byte and never interpreted as options or code, and ORIGIN to the directory of the script. A script that cannot be read is an error. The environment's variables are available under their names with exactly their values.",
     ["inputs", "configurations"], "all script paths, argument lists and environments",
     "Tests run scripts with plain names and no arguments.",
     ["internal/system/options/options.go", "internal/engine/engine.go", "main.go"],
     [("option parsing", "internal/system/options/options.go Parse"), ("parameters", "internal/engine/engine.go Boot")],
     "monitored invocation with generated arguments and paths; values echoed back byte for byte and compared",
     "Exploration.")

prop("C34", "A module is evaluated once and its object shared by all importers",
     "import evaluates the file it is given and returns an object with exactly the names the file exports; a file that names itself with module is evaluated past that point once only, and every import of it, from any task and however many at the same time, returns the same object, while files without a module name give a new object each time. Evaluating an imported file does not define anything in the importer's scope. An exception while evaluating the file is raised by import and later imports still work; imports may be nested.",
     ["programs", "schedules"], "all import graphs without cycles and orders of concurrent imports",
     "No test imports a module.",
     ["internal/engine/boot/boot.oh"],
     [("import service task", "internal/engine/boot/boot.oh do-import"), ("module table", "internal/engine/boot/boot.oh modules")],
     "event logs of generated module trees imported sequentially and concurrently, checked offline for exactly-once evaluation and identity",
     "Exploration.")

prop("C35", "A failure nothing handles is reported once, where it occurred",
     "A command that fails, or an exception that is thrown, with no handler around it is reported on standard error exactly once: lines of the form file:line:column: text, and then `error: ` and its message. Every line is the true position (column in characters) and the text of a command of the program; they include the calls that led to the failure, outermost first, and end with the command that failed, however these are nested in methods, members, closures, blocks, branches, loops and arguments, whichever file each is in, and whatever text is before them (a call or a throw that is the last thing done in what contains it, or that is not inside of anything, may be left out; pipelines, captures, redirections, substitutions and handlers are not claimed). Nothing after the failure is evaluated in the script, or in the task that failed, while the other tasks go on.",
     ["programs", "inputs"], "all call chains, layouts and files",
     "Tests compare a few messages and no positions.",
     ["internal/engine/task/action.go", "internal/engine/boot/boot.oh", "internal/reader/lexer/lexer.go", "internal/common/struct/frame/frame.go", "internal/common/struct/loc/loc.go"],
     [("trace of the frames", "internal/engine/task/action.go trace"), ("outermost handler", "internal/engine/boot/boot.oh sys throw"), ("positions of tokens", "internal/reader/lexer/lexer.go accept, emit")],
     "positions reported on standard error compared with the positions at which the generator wrote the commands",
     "Exploration.")

prop("C36", "The startup file is evaluated once, before the program, and stays in effect",
     "Every start of oh, with a script, with -c or at a terminal, first evaluates the startup file (the one OH_RC names, whatever its name, or ~/.oh-rc if OH_RC is not set) exactly once, to its end and before anything of the program, with the $0 and $@ of the program; a missing file is not an error and no other file is read in its place. What it defines, exports, replaces or sources is in effect in all of the program, in its methods, tasks and sourced files, its exported names reach external commands with their last values, and what is local to its blocks is not visible. If a command in it fails that is reported once on standard error, the rest of it is not evaluated, what came before stays in effect and the program runs as usual; if it has a syntax error that is reported and none of it is evaluated.",
     ["programs", "inputs"], "all startup files, ways to name them and ways to start oh",
     "The tests have no startup file.",
     ["internal/engine/engine.go", "internal/engine/boot/boot.oh", "main.go"],
     [("evaluation at the start", "internal/engine/engine.go Boot"), ("source", "internal/engine/boot/boot.oh source"), ("OH_RC", "internal/engine/boot/boot.oh OH_RC")],
     "logs of generated startup files and programs, compared with the expected log; environment recorded by external commands",
     "Exploration.")

prop("C37", "Files are opened, created and found as modes, masks and paths say",
     "Opening a file gives a descriptor that can be read and written exactly as its mode says: the file is created with permissions 0666 less the mask unless the mode has -, in which case opening a missing file is an error that creates nothing; its contents are dropped for w without a, kept otherwise, and a descriptor with a always writes at the end; using a descriptor in a way its mode does not allow, or once it is closed, fails and leaves the file as it was. The mask a program sets, including 0, is the one later files (its own and those of external commands) are created with, and asking for it leaves it as it is. exists is true only if it is given files that all exist (and, with -i, are no devices), ... gives the path of a name in the closest directory at or above one given, or else the name itself, and leaves the current directory as it was, source finds a name by way of OHPATH, in order, only if it is not in the current directory, and every temporary fifo is a new one in TMPDIR.",
     ["inputs", "histories"], "all modes, states of the file, masks and sequences of operations",
     "The tests open no file and set no mask.",
     ["internal/engine/commands/file.go", "internal/engine/commands/umask_unix.go", "internal/engine/boot/boot.oh", "internal/engine/task/action.go"],
     [("open", "internal/engine/commands/file.go"), ("umask", "internal/engine/commands/umask_unix.go"), ("exists, ... and source", "internal/engine/boot/boot.oh"), ("temporary fifos", "internal/engine/commands/file.go")],
     "programs' logs and the bytes and modes of files on disk compared with a model of files, descriptors and the mask",
     "Exploration.")

prop("C38", "Library commands keep what they promise for all arguments",
     "seq n gives the numbers from 0 to n - 1 in order (none if n is not positive), random n an integer from 0 to n - 1, sprintf and str format their format with each verb replaced by the text of its argument, and here writes its text without one leading and one trailing newline, and then a newline. mill runs its body once for each record it reads, in order, with the record's elements as its parameters, whatever the body does or returns, until the input ends; coalesce gives the value of the first of its names that is visible where it is called, or else its last word. fn defines a command whose body runs in the scope where fn was used and sees exactly the arguments of each call as $1, $2, ... and $@, and what the body defines is not visible afterwards.",
     ["inputs", "programs"], "all arguments, records and surroundings",
     "The tests use few of these commands, with one set of arguments each.",
     ["internal/engine/boot/boot.oh", "internal/engine/commands/number.go", "internal/engine/commands/string.go", "internal/engine/commands/pipe.go"],
     [("seq, coalesce, fn, here and mill", "internal/engine/boot/boot.oh"), ("random", "internal/engine/commands/number.go"), ("formats", "internal/engine/commands/string.go")],
     "values, output and arguments of bodies compared with a model of each command",
     "Exploration.")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    checks, na = [], list(NA)
    for d, tech, note in P:
        id = d["id"]
        if os.path.exists(os.path.join(HERE, "checks", id.lower() + ".py")):
            checks.append(dict(property=id, quick_cmd="python3 run.py %s" % id,
                               thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % id,
                               technique="runtime monitoring: " + tech, level="exploration", level_note=note))
        elif not any(n["property"] == id for n in na):
            na.append(dict(property=id, reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
             notes="Checks build oh from /repo's working tree into a scratch directory and remove it. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
