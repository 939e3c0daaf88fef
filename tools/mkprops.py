#!/usr/bin/env python3
"""Regenerates properties.jsonl (the text lives here so that it can be reviewed as a whole)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Operators compute the exact result or raise a panic",
 "For operands of any types and values, every unary and binary operator yields exactly the value the language defines: 64-bit checked ints, IEEE doubles, byte-wise string concatenation and comparison, structural equality, comparisons only between two ints, floats, chars or strings. Operators group by their documented precedence and left associativity, and `and`/`or` evaluate their right operand only when the left one does not decide. Integer overflow, division or remainder by zero and operands of the wrong type raise a catchable panic, never a wrapped, truncated or coerced value.",
 ["inputs", "programs"], "every expression tree and every combination of operand types and values, including the int limits, signed zeros, infinities and NaN",
 "The runtime tests sample a few dozen operator uses with small operands; the claim ranges over all operand values (2^128 int pairs) and all expression shapes.",
 ["src/runtime/mod.rs", "src/syntax/parser/mod.rs", "src/runtime/value/mod.rs", "src/runtime/value/float.rs"],
 [("binary_op / unary_op / arithmetic_op / ord_op", "src/runtime/mod.rs"), ("binop precedence chain", "src/syntax/parser/mod.rs")],
 observe=["stdout of a generated script, one record per expression", "std.catch results"])

prop("C02", "Control flow and evaluation order are deterministic and exact",
 "Statements, operands, call arguments, array and dict items are evaluated exactly once, in source order (an assignment evaluates its right side, then the target's object, then its index); if/while/for/break/return/`?` transfer control exactly as written, including from nested blocks, loops and functions. The value of a block or function is that of its last statement, or nil where there is none. A for loop calls its iterator function once per iteration until it reports finished, and no further.",
 ["programs", "histories"], "every program built from the statement and expression forms, at any nesting",
 "The tests run a fixed set of scripts; order and transfer of control must be right for every nesting of forms.",
 ["src/runtime/mod.rs", "src/runtime/flow.rs", "src/syntax/parser/mod.rs"],
 [("eval_tail_block / eval_tail_expr / eval_tail_statement", "src/runtime/mod.rs"), ("Flow", "src/runtime/flow.rs")],
 observe=["sequence of trace records printed by the script"])

prop("C03", "Lexical scoping, closures and calls",
 "Every identifier refers to the innermost visible declaration, at any nesting of blocks and functions, no matter how many parameters, locals or captures there are; a closure shares the captured variable itself (mutations are seen by all closures and by the declaring frame, also after it returned), and every call of a function gets fresh locals. A function called with exactly its parameters receives each argument in its position, `self` is the object the function was accessed from (or the one given to std.bind, else nil), and a call with another number of arguments raises a panic. A returned or panicking call leaves the variables of every other frame untouched, at any recursion depth.",
 ["programs", "histories"], "every nesting of functions and blocks, every pattern of shadowing, capture, mutation and recursion (within the machine's stack)",
 "Tests contain a handful of closures; slot allocation and capture resolution depend on the whole nesting structure.",
 ["src/semantic/scope.rs", "src/semantic/mod.rs", "src/runtime/mem.rs", "src/runtime/mod.rs", "src/runtime/lib/bind.rs"],
 [("scope::Stack::resolve / Frame::capture", "src/semantic/scope.rs"), ("Stack::extend/shrink/place/capture", "src/runtime/mem.rs"), ("Runtime::call", "src/runtime/mod.rs")],
 state=[("stack", "slots of the live frames, captured ones boxed", "src/runtime/mem.rs")],
 observe=["values printed through every live closure after each mutation"])

prop("C04", "Static errors reject the program before any effect, and only they do",
 "A program with a syntax error, an undeclared or (in one scope) duplicate variable, a duplicate key in a dict literal, an invalid assignment target, `return`, `self` or `?` outside a function, `break` outside a loop, or a misplaced builtin command is rejected with exit status 2 and a report on stderr, without executing any of its statements. A program without such an error is never rejected, and `--check` gives the same verdict for every program without running it.",
 ["programs"], "every valid program, and every valid program with one or more static errors inserted anywhere",
 "Tests hold a few positive and negative files; both directions range over all programs and all places an error can sit.",
 ["src/semantic/mod.rs", "src/semantic/scope.rs", "src/syntax/parser/mod.rs", "src/syntax/parser/command.rs", "src/main.rs"],
 [("Analyzer", "src/semantic/mod.rs"), ("parser error accumulation", "src/syntax/parser/mod.rs"), ("run", "src/main.rs")],
 observe=["exit status, stderr, files created by the script"])

prop("C05", "Source text denotes exactly its literals, in any layout",
 "Every int, float, char and string literal denotes exactly its written value, byte for byte, including every escape sequence and arbitrary non-ASCII bytes. Comments, blank lines, indentation, optional separators and optional trailing commas never change what a program does, and inserting them between any two tokens is accepted wherever tokens may be separated. Names that merely begin with or contain a keyword are ordinary identifiers.",
 ["inputs", "programs"], "every literal value and spelling, every program in every layout",
 "Lexer tests check a fixed token list; literals and layouts form an infinite family.",
 ["src/syntax/lexer/automata", "src/syntax/lexer/mod.rs", "src/syntax/parser/mod.rs", "src/symbol/mod.rs"],
 [("lexer automata", "src/syntax/lexer/automata"), ("parser", "src/syntax/parser/mod.rs")],
 observe=["hex dump of the literal's value; output of the re-laid-out program"])

prop("C06", "Equality, ordering and dict keys are coherent for every value",
 "`==` is structural, type-strict equality on all data values (scalars, and arrays, dicts and errors nested to any depth; a function equals itself, recursive ones too, and never one written elsewhere); equal values are interchangeable as dict keys (for access, assignment and std.contains) and unequal values never collide, whatever their type or nesting. std.sort orders any mix of values by one total order (by type, then by value; arrays lexicographically), keeps exactly the elements it was given, and agrees with the comparison operators.",
 ["inputs", "histories"], "every value of every type, nested to any depth, and every sequence of dict operations keyed by them",
 "Tests touch a few scalar keys; coherence of eq, hash and order is a universally quantified law.",
 ["src/runtime/value/mod.rs", "src/runtime/value/dict.rs", "src/runtime/value/array.rs", "src/runtime/value/float.rs", "src/runtime/value/error.rs", "src/runtime/lib/sort.rs"],
 [("Eq/Ord/Hash of Value", "src/runtime/value"), ("Array::sort", "src/runtime/value/array.rs")],
 observe=["results of ==, lookups and sort on generated values"])

prop("C07", "Collections behave like their mathematical model",
 "After any sequence of push, pop, indexed reads and writes, std.len, std.is_empty, std.contains, std.iter, std.range and std.sort on arrays and dicts, the observed results are those of a plain list or map, aliases always see the same collection, and out-of-bounds or missing-key accesses raise a panic without changing anything. Iterating an array, dict or string visits every element exactly once (dict entries in any order), an iterator that finished stays finished while its collection is unchanged, and a range yields exactly from, from+step, ... strictly before its end, also next to the int limits.",
 ["histories", "inputs"], "every sequence of collection operations, any sizes and element values, any aliasing",
 "Tests perform single operations on small collections; the claim is about every history.",
 ["src/runtime/value/array.rs", "src/runtime/value/dict.rs", "src/runtime/lib/iter.rs", "src/runtime/lib/range.rs", "src/runtime/lib/push.rs", "src/runtime/lib/pop.rs", "src/runtime/lib/length.rs", "src/runtime/lib/contains.rs", "src/runtime/lib/is_empty.rs", "src/runtime/mod.rs"],
 [("Array, Dict", "src/runtime/value"), ("IterImpl, RangeImpl", "src/runtime/lib")],
 observe=["result of each operation and a full dump after each"])

prop("C08", "String functions are exact on arbitrary bytes",
 "For strings of any bytes and any length, indexing, std.len, std.substr, std.split, std.replace, std.trim, std.contains, std.bytes, std.iter and `++` return exactly the bytes their definition gives, and never alter the original string. Joining the pieces of a split with its separator gives back the original, replacing a pattern by itself is the identity, and slices outside the string yield nil. std.regex.match, split and replace agree with the matched language.",
 ["inputs"], "every byte string, pattern, offset and length",
 "Tests use a few ASCII strings; the domain is all byte strings, including invalid UTF-8, NUL and empty patterns.",
 ["src/runtime/value/string.rs", "src/runtime/lib/substr.rs", "src/runtime/lib/split.rs", "src/runtime/lib/replace.rs", "src/runtime/lib/trim.rs", "src/runtime/lib/bytes.rs", "src/runtime/lib/contains.rs", "src/runtime/lib/regex.rs"],
 [("Str", "src/runtime/value/string.rs"), ("string stdlib", "src/runtime/lib")],
 observe=["hex dump of every result"])

prop("C09", "Conversions and encodings round-trip",
 "For every byte string std.hex and std.base64, and for every value made of nil, bools, ints, finite floats, UTF-8 strings, arrays and string-keyed dicts std.json, decode(encode(v)) gives v back (JSON floats within a few units in the last place), encode's output is standard JSON, hex or base64 that other implementations read as the same value, and malformed input yields an error value carrying that input, never a wrong value or a panic. std.int, std.float, std.to_string and std.bytes convert exactly: the text of an int, float or bool reads back as the same number, and unparsable text raises a panic. std.print and std.println render every value in the same documented text form as std.to_string, strings and chars raw at top level.",
 ["inputs"], "every JSON-able value (nesting of 128 levels and more is a known finding), every byte string, every number, and every malformed document",
 "Tests decode one or two documents; round-tripping is quantified over all values.",
 ["src/runtime/lib/json.rs", "src/runtime/lib/hex.rs", "src/runtime/lib/base64.rs", "src/runtime/lib/int.rs", "src/runtime/lib/float.rs", "src/runtime/lib/to_string.rs", "src/runtime/lib/bytes.rs", "src/runtime/lib/print.rs", "src/runtime/lib/println.rs", "src/runtime/value/fmt.rs"],
 [("codecs", "src/runtime/lib"), ("Show for Value", "src/runtime/value/fmt.rs")],
 observe=["encoded text compared with an independent codec; decoded values"])

prop("C10", "Errors and panics propagate without corrupting state",
 "A panic unwinds to the nearest std.catch, which returns an error describing it, or else ends the script with status 127 and a message on stderr; nothing after the point of the panic runs, effects before it persist, and afterwards every variable, collection and pending call is as the program left it, however deep the panic was raised. `?` returns an error from the enclosing function and passes every other value through. Error values keep their description and context, which are readable but not assignable, and std.has_error, std.assert, std.typecheck and std.try_typecheck report exactly what they are given.",
 ["programs", "histories", "fault_sequences"], "every place a panic or error can be raised, every nesting of calls, loops, arguments and catches (unbounded recursion is a known finding)",
 "Tests raise a couple of panics at top level; recovery must be right from every evaluation context.",
 ["src/runtime/lib/catch.rs", "src/runtime/mod.rs", "src/runtime/panic.rs", "src/runtime/value/error.rs", "src/runtime/lib/typecheck.rs", "src/runtime/lib/has_error.rs", "src/runtime/lib/assert.rs", "src/runtime/lib/error.rs"],
 [("std.catch", "src/runtime/lib/catch.rs"), ("stack/arguments unwinding in Runtime::call", "src/runtime/mod.rs")],
 state=[("arguments", "pending call arguments", "src/runtime/mod.rs")],
 observe=["trace records before and after each injected panic"])

prop("C11", "Command arguments reach the program exactly as written",
 "A program receives precisely the argument vector the command denotes: each written argument is one argument, byte for byte, including empty and quoted ones, escapes, adjacent parts glued together, and variables (`$x`, `${x}`, inside double quotes or not) whose value is never split, globbed or reinterpreted. An unquoted array variable gives one argument per element (a product when several are glued), unquoted `*` and `%` (any one character) expand to exactly the matching existing paths, in which every other character stands for itself, an unquoted `~/` at the very start of an argument to the home directory, and nothing else is expanded. std.glob returns exactly the paths its pattern matches, or an error value when the pattern is malformed. The same holds for the program name, redirection targets and assigned environment values, which must denote exactly one item or else raise a panic without running that command.",
 ["inputs", "programs"], "every byte string as value, every combination of argument parts, any directory contents",
 "Tests run a few commands with plain words; the guarantee is about every byte string and every mix of parts.",
 ["src/syntax/lexer/automata/argument.rs", "src/syntax/lexer/automata/expansion.rs", "src/syntax/parser/command.rs", "src/runtime/command/arg.rs", "src/runtime/command/mod.rs", "src/runtime/lib/glob.rs"],
 [("argument lexer", "src/syntax/lexer/automata/argument.rs"), ("argument resolution", "src/runtime/command/mod.rs, src/runtime/command/arg.rs")],
 observe=["argv recorded by the child process"])

prop("C12", "Command blocks report every outcome faithfully",
 "A block runs its commands in order; a failing command (non-zero status, killed by a signal, or not executable, status 127) ends the block at once unless marked `?`, in which case the following commands still run. The block yields nil when nothing failed, and otherwise an error holding exactly the failed commands, each with its own exit status and source position, in order, for plain commands, pipelines and blocks alike. Capturing and asynchronous blocks report the same outcome as the plain block.",
 ["inputs", "programs", "fault_sequences"], "every combination of commands, statuses 0-255, signals, unexecutable programs, `?` marks and pipelines",
 "Tests run true/false and one pipeline; outcomes are quantified over statuses, positions and block shapes.",
 ["src/runtime/command/exec/mod.rs", "src/runtime/command/exec/error.rs", "src/runtime/command/mod.rs"],
 [("Block/Pipeline/BasicCommand exec", "src/runtime/command/exec/mod.rs"), ("error conversion", "src/runtime/command/exec/error.rs")],
 observe=["serialised block value; execution log written by the children"])

prop("C13", "Pipes, captures and redirections carry every byte",
 "Data is neither lost, duplicated, reordered nor mixed up: each pipeline stage reads exactly what the previous one wrote, a capture holds exactly what the block wrote to stdout and stderr, `>` replaces and `>>` appends to a file, `<` feeds a file and `<<` a text followed by a newline, and the script's own output keeps its order relative to that of the commands it runs. Of any size and content, for any number of stages, and without deadlock. A stream the command does not redirect is the shell's own.",
 ["inputs", "schedules"], "every byte content, sizes around and above the pipe capacity, any number of stages and redirections, any interleaving of writers and readers",
 "Tests pass a few bytes; buffering, draining and deadlock bugs only appear above pipe capacity or with adverse timing.",
 ["src/runtime/command/exec/mod.rs", "src/runtime/command/mod.rs"],
 [("stdio wiring and capture", "src/runtime/command/exec/mod.rs")],
 observe=["bytes seen by children and files, compared by length and hash"])

prop("C14", "Asynchronous blocks run once and join to their outcome",
 "An async block starts its commands without blocking the script, runs each of them exactly once whether or not and whenever it is joined (while the script lasts), and join waits for completion and returns that block's own outcome, in any order of starting and joining. A second join of the same block raises a panic. The variables a block uses are those at its start, whatever the script assigns to them later.",
 ["schedules", "histories"], "any number of concurrent async blocks, any completion order and any join order",
 "Tests join one block; cross-talk and lost outcomes need many blocks and adverse completion orders.",
 ["src/runtime/command/mod.rs", "src/runtime/command/exec/join.rs", "src/runtime/command/exec/mod.rs"],
 [("Join", "src/runtime/command"), ("exec thread", "src/runtime/command/exec/mod.rs")],
 observe=["event log of the children with unique ids; join results"])

prop("C15", "Commands leave no descriptors or processes behind",
 "After any completed command block - plain, pipeline, capturing, redirected, failing, not executable, ended by a panic or joined async - the shell holds no additional open descriptor, child or zombie, so any number of blocks can run in one script. That also holds for a block that fails because no more descriptors, processes or threads can be had, and the script goes on after it. A command inherits only its standard streams. Intermediate pipe ends are closed, so a reader sees end-of-file as soon as its writers finish, and a writer whose reader has gone is told so.",
 ["histories", "fault_sequences"], "any number and mix of blocks in one script, including failing ones",
 "Tests run a few commands per process; leaks show only by inspecting the process or after hundreds of blocks.",
 ["src/runtime/command/exec/mod.rs", "src/runtime/command/mod.rs"],
 [("Child handling and stdio ownership", "src/runtime/command/exec/mod.rs")],
 observe=["/proc/<hush>/fd and children as seen by a probe command; /proc/self/fd in the child"])

prop("C16", "Environment and working directory",
 "A command sees exactly the shell's environment, as changed by std.export, plus its own assignments, which affect that command alone; std.env returns the current value of any variable, byte for byte, or nil. std.cd and the cd builtin change the directory for the script and all later commands, and std.cwd reports it; a failed change reports an error and leaves the directory unchanged. exec, exec0 and spawn0 run the given program with exactly the given arguments, name and environment.",
 ["histories", "inputs"], "every sequence of exports, per-command assignments and directory changes, any names and values",
 "Tests do one export and one cd; isolation between commands is a claim about all histories.",
 ["src/runtime/lib/env.rs", "src/runtime/lib/cd.rs", "src/runtime/lib/cwd.rs", "src/runtime/command/exec/mod.rs", "src/runtime/command/mod.rs"],
 [("set_var/var_os", "src/runtime/lib/env.rs"), ("per-command env", "src/runtime/command/exec/mod.rs")],
 observe=["environment and cwd recorded by children"])

prop("C17", "Modules load once, relative to the importer",
 "std.import resolves its path relative to the file of the importing code (not the working directory), executes the module exactly once per script however it is reached, and returns the module's value - the very same one to every importer. A module has its own variables, and functions it exports keep working on them. A module that is missing, has static errors, panics or is still being loaded (a circular import) raises a catchable panic, executes nothing it should not, and leaves the importer's variables intact.",
 ["programs", "histories", "configurations"], "every graph of modules and directory layout, any import order, failing modules anywhere in it",
 "Tests import one sibling file; resolution, caching and recovery depend on the graph and layout.",
 ["src/runtime/lib/import.rs", "src/runtime/mod.rs", "src/runtime/source.rs"],
 [("Import", "src/runtime/lib/import.rs"), ("Runtime::eval slot handling", "src/runtime/mod.rs")],
 state=[("modules", "loaded modules by path", "src/runtime/mod.rs")],
 observe=["log of module executions; values observed by every importer"])

prop("C18", "Memory management is safe and invisible",
 "No script makes the interpreter touch freed or foreign memory, and garbage collection never changes what a script does: reachable values - through variables, captures, collections, dict keys, errors, iterators, bound functions, pending arguments and modules - stay intact however often a collection runs. Unreachable values, cycles included, are eventually reclaimed, so a long-running script that keeps no data does not grow without bound.",
 ["programs", "schedules"], "every program and every point at which a collection can happen",
 "Tests are too short to trigger collections at bad moments and run without a memory checker.",
 ["src/runtime/value", "src/runtime/mem.rs", "src/runtime/lib", "src/runtime/mod.rs"],
 [("Trace/Finalize implementations", "src/runtime"), ("'static program leak", "src/main.rs, src/runtime/lib/import.rs")],
 observe=["AddressSanitizer reports; output under forced collection versus the model; resident memory"],
 hook="cfg(hush_verif): forced collection on calls")

prop("C19", "The command line keeps its contract",
 "`hush SCRIPT ARGS...` passes exactly ARGS, byte for byte and in order, to the script as std.args, never interpreting them as its own options; without a script it reads one from stdin. The exit status is 0 for a script that ends normally, the given code for std.exit, 1 for invalid usage, 2 for a static error and 127 for a panic or an unreadable script; `--check` never executes anything, and --help and --version succeed. Everything printed before the end - however the script ends - is delivered.",
 ["inputs", "configurations"], "every argument vector, every script, every way of ending it",
 "No test runs the binary with arguments.",
 ["src/args.rs", "src/main.rs", "src/runtime/lib/args.rs", "src/runtime/lib/exit.rs"],
 [("args::parse", "src/args.rs"), ("main/run", "src/main.rs")],
 observe=["exit status, stdout and stderr of the process"])

prop("C20", "Any input text is handled, never crashes the shell",
 "For any byte sequence given as a script - random, truncated, mutated or not UTF-8 - the shell terminates in bounded time and either accepts it or reports at least one error with status 2. It never crashes, hangs or reports an internal failure, and it reads the same text in the same way from a file, from stdin and as a module.",
 ["inputs"], "every byte sequence (source nesting within the machine's stack)",
 "Tests parse a handful of files; robustness is a claim about all inputs.",
 ["src/syntax", "src/semantic/mod.rs", "src/main.rs"],
 [("lexer error tokens", "src/syntax/lexer"), ("parser synchronisation", "src/syntax/parser/sync.rs")],
 observe=["exit status, signal and stderr of hush --check on each input"])

prop("C21", "Reported positions point at the culprit",
 "The line and column in every static error and every panic message are those of the offending construct in the source file, and the file named is the one containing it, imported modules included, independently of layout, comments, multi-line strings, commands or non-ASCII bytes before it. Failed commands carry the position of that very command.",
 ["programs"], "every kind of error at every place in every layout",
 "Tests never check positions of runtime errors.",
 ["src/syntax/source.rs", "src/syntax/lexer/cursor.rs", "src/runtime/source.rs", "src/runtime/panic.rs", "src/semantic/error/fmt.rs", "src/syntax/error/fmt.rs"],
 [("cursor line/column tracking", "src/syntax/lexer/cursor.rs"), ("SourcePos plumbing", "src/runtime")],
 observe=["positions parsed from stderr and from caught errors"])

prop("C22", "Every library call gives a value or a catchable panic",
 "For any arguments - wrong number, wrong types, extreme ints, NaN, huge or empty or nested collections, arbitrary bytes - every standard library function either returns a value of its documented type or raises a panic that std.catch turns into an error; a wrong number or type of arguments always raises that panic. The interpreter itself never aborts, crashes or hangs, and a call that fails leaves its arguments unchanged.",
 ["inputs"], "every standard library function and every tuple of (acyclic) argument values",
 "Tests call each function with one or two well-formed arguments.",
 ["src/runtime/lib", "src/runtime/panic.rs"],
 [("argument patterns of each NativeFun", "src/runtime/lib"), ("Panic constructors", "src/runtime/panic.rs")],
 observe=["catch result and interpreter status for each call"])

prop("C23", "Randomness, time and input primitives",
 "std.rand lies in [0, 1), std.randint(a, b) in [a, b] inclusive for every a <= b with every value possible, and after std.randseed(n) the sequence depends on n alone and differs between seeds. std.read (after writing its prompt, if given one) returns the next line of standard input with its newline, byte for byte, each line exactly once, and an empty string at the end; a line that is not UTF-8 raises a panic. std.sleep lasts at least the given time.",
 ["inputs", "histories"], "every seed, every bounds pair, every input stream",
 "Tests do not exercise these functions.",
 ["src/runtime/lib/rand.rs", "src/runtime/lib/read.rs", "src/runtime/lib/sleep.rs"],
 [("RNG", "src/runtime/lib/rand.rs"), ("Read", "src/runtime/lib/read.rs")],
 observe=["values printed by the script"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P))
