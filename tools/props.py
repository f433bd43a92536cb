"""The properties and how each is claimed; tools/manifest.py writes properties.jsonl and MANIFEST.json from this."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, state=(), observe=(), hook=None,
         na=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, hook=hook, na=na, level=level))


DIFF = 'differential monitor: events of the real interpreter against an independent reference evaluator, random programs; ASan/UBSan rerun'
TRUST = ('Exploration: every program explored behaved as the reference predicts. Trusts the reference evaluator (lib/refscm.py) on its '
         'documented domain and the runner that records events.')

prop('C03', 'No program or text causes undefined behaviour in the interpreter',
     'No text given to the interpreter, well-formed or not, and no program, correct or not, makes it access memory outside live objects or within reclaimed ones, overflow a '
     'buffer or a signed integer, use a null or misaligned pointer, or otherwise execute undefined behaviour, whenever garbage collections happen and whatever '
     'the lengths of names, strings, numbers, lists and messages.',
     ['inputs', 'programs', 'schedules'], 'every text and program, every length around every internal buffer size, every moment of collection',
     'Tests run without instrumentation on well-formed short programs; overflows need particular lengths and silent reads outside objects pass any test.',
     ['src/c'], [('the whole interpreter', 'src/c/eval.cc'), ('fixed-size buffers', 'src/c/print.cc'), ('collector', 'src/c/gc.cc')],
     'AddressSanitizer and UndefinedBehaviorSanitizer builds with reclaimed blocks poisoned, run on generated, hostile and boundary-length programs under forced collections',
     'Exploration: no report on any explored execution. AddressSanitizer sees objects within GC blocks only through the poisoning hook; stack redzones are used only in runs without collections.',
     observe=['sanitizer reports', 'exit status of the process'])

prop('C04', 'Core special forms and lexical scope mean what Scheme says',
     'A program built from the core forms (quote, if, cond with test-only and => clauses, case, and, or, begin, let, let*, letrec, '
     'named let, do, lambda, define at top level and inside bodies, set!) yields, form after form, the values, the output and the errors '
     'that lexically scoped Scheme gives, whatever the nesting. A binding is visible exactly in its scope, inner bindings shadow and never '
     'change outer ones, closures keep (and share) the variables they captured, each do iteration has fresh bindings, and set! changes '
     'exactly the visible binding.',
     ['programs'], 'every program over the core forms, every nesting and reuse of names',
     'The test suite evaluates some hundred fixed expressions; scoping errors appear only in particular nestings of forms and names.',
     ['src/c/eval.cc', 'src/c/let.cc', 'src/c/do.cc', 'src/c/cond.cc', 'src/c/case.cc', 'src/c/define.cc', 'src/c/environment.cc', 'src/c/procedure.cc'],
     [('eval_with_env dispatch', 'src/c/eval.cc'), ('let forms', 'src/c/let.cc'), ('environments', 'src/c/environment.cc')],
     DIFF, TRUST, observe=['values and output at the embedding API, form by form'])

prop('C05', 'Calls bind arguments exactly; wrong argument counts are catchable errors',
     'Calling a procedure binds each parameter to the value of its operand and a rest parameter to the list of the remaining values, in the '
     'same way through a direct call, apply, map, for-each and call-with-values; the body runs once per call in the environment where the '
     'procedure was made. A call with too few or too many arguments never runs the body but raises an error that catch can handle. map '
     'returns the results in order, for-each visits the elements in order, and neither they nor apply change the lists they are given.',
     ['programs'], 'every procedure shape, argument count, argument value and way of calling',
     'Tests call a handful of procedures with the right number of arguments; most combinations of rest parameters, apply and higher-order calls are not exercised.',
     ['src/c/procedure.cc', 'src/c/apply.cc', 'src/c/map.cc', 'src/c/for_each.cc', 'src/c/values.cc', 'src/c/function.cc', 'src/c/eval.cc'],
     [('apply_procedure', 'src/c/apply.cc'), ('map', 'src/c/map.cc'), ('for-each', 'src/c/for_each.cc')],
     DIFF, TRUST, observe=['values and output at the embedding API'])

prop('C06', 'call/cc captures the rest of the computation, re-enterable any number of times',
     'Invoking a captured continuation, while its call is active or after it returned, any number of times and from any later top-level form '
     'or inner call, resumes exactly where call/cc returned, with the invoked value and with the variables and data structures in the state '
     'the program has left them in since. Computations pending at the capture see the values that had been computed before the capture. '
     'Escaping through a continuation abandons exactly the work between.',
     ['programs', 'histories'], 'every program point of capture, every number and place of later invocations',
     'Tests sample a few escapes and one or two generators; the C stack is copied, so errors depend on stack layout, depth and what else is live.',
     ['src/c/continuation.cc', 'src/c/gc.cc', 'src/c/eval.cc', 'src/c/dynwind.cc'],
     [('stack copy and restore', 'src/c/continuation.cc')], DIFF, TRUST, observe=['values and output at the embedding API'])

prop('C07', 'dynamic-wind guards run exactly when control enters or leaves the extent',
     'Every entry of control into the extent of a dynamic-wind thunk, normally or through a continuation, first runs its before guard, and every '
     'exit, by return, continuation, throw or error, runs its after guard, exactly once, innermost first on the way out and outermost first on '
     'the way in. Between two points of a program exactly the extents that are not common to both are left and entered. The value of the '
     'dynamic-wind is that of its thunk.',
     ['programs', 'histories'], 'every nesting of extents with escapes, re-entries, throws and errors',
     'Tests cover single extents with one escape; nested extents with re-entry and throws from guards or handlers are combinatorial.',
     ['src/c/dynwind.cc', 'src/c/continuation.cc', 'src/c/throw.cc'],
     [('wind chain', 'src/c/dynwind.cc')], DIFF, TRUST, observe=['the log that the guards write'])

prop('C08', 'A throw reaches the innermost active matching catch, with its key and arguments',
     'A throw transfers control to the innermost active catch whose tag is the thrown key or #t, whose handler is called once with the key and '
     'the thrown arguments, after the inner extents were left and with that catch no longer active; the value of the handler is the value of the '
     'catch. A body that does not throw gives the value of the catch and the handler does not run. Errors raised by built-in procedures and '
     'by evaluation are throws too: a catch with tag #t handles them.',
     ['programs'], 'every nesting of catches, throws, errors and rethrows',
     'Tests use single catches; nesting, re-throwing from handlers, continuations crossing catches are not sampled.',
     ['src/c/throw.cc', 'src/c/error.cc', 'src/c/abort.cc'],
     [('catch stack', 'src/c/throw.cc')], DIFF, TRUST, observe=['handler calls, values and output'])

prop('C10', 'No program or text kills the process; a failed evaluation leaves it usable',
     'Whatever program or text is given, evaluation ends in a value or in an error that catch can handle (or does not end): the process is not aborted or killed, not by wrong argument types or counts, '
     'malformed special forms, endless recursion, data or texts nested deeper than the C stack, or lack of heap. '
     'Afterwards no catch, dynamic extent or call is left over from the failed evaluation, and later evaluations behave as usual.',
     ['inputs', 'programs'], 'every program, correct or not, every depth and size',
     'Tests exercise correct programs; each built-in has its own checks and each malformed form its own path.',
     ['src/c'], [('error paths of every built-in', 'src/c/error.cc'), ('stack limit', 'src/c/eval.cc'), ('heap limit', 'src/c/gc.cc')],
     'monitor of process survival, of the interpreter state after each form, and of probe forms, over hostile generated programs, deep recursion and full heaps',
     'Exploration: holds on every explored program. Programs that do not end within their time are inconclusive. (exit) and quit are excluded.',
     observe=['process exit status', 'depth of the catch stack, wind chain and call trace', 'results of probe forms'])

prop('C11', 'Macros expand once, from their argument syntax, and obey lexical scope',
     'A call of a macro is evaluated as the expansion its transformer computes from the unevaluated operands, in place of the call and in its environment; operands are '
     'evaluated exactly where the expansion puts them, and quoted data, shadowed names and data that look like calls are not expanded. Macro names are scoped '
     'like variables: local definitions and local variables hide outer ones and change nothing outside. Quasiquote builds exactly its template with the unquoted values and '
     'spliced lists in place, at the right nesting level, in lists, dotted tails and vectors.',
     ['programs'], 'every macro definition and use, every template and nesting level',
     'Tests expand a few macros; capture, shadowing, nesting levels and splices in unusual positions are combinations they do not reach.',
     ['src/c/macro.cc', 'src/c/quasiquote.cc', 'src/c/eval.cc', 'src/c/parse.cc'],
     [('macro expansion', 'src/c/macro.cc'), ('quasiquote', 'src/c/quasiquote.cc')], DIFF, TRUST, observe=['values and output at the embedding API'])

prop('C12', 'A promise computes its value once, on the first force that completes',
     'delay evaluates nothing; force evaluates the body in the environment of the delay, and the value of the first force that completes is the value of every later '
     'force, wherever the promise was stored or shared. When a body forces its own promise, raises, is left, or is entered again through a continuation, that rule still holds: a body that '
     'did not complete runs again at the next force, and a value once given never changes. Forcing anything else is an error.',
     ['programs', 'histories'], 'every body, sharing and order of forces, every way a body can be left or entered again',
     'Tests force a few promises twice; the interesting histories combine sharing, self-reference, errors and continuations.',
     ['src/c/delay.cc', 'src/c/procedure.cc', 'src/c/continuation.cc', 'src/c/gc.cc'], [('delay and force', 'src/c/delay.cc')], DIFF + ', forced collections', TRUST,
     observe=['values and output at the embedding API'])

prop('C01', 'When memory is collected never changes what a program does',
     'Whenever the collector runs, at any allocation and any number of times, nothing the rest of the program or its host can still reach is '
     'reclaimed, altered or moved: values, variables, closures, continuations, promises, ports, tables, catches and extents stay as they were. '
     'A program therefore yields the same values, output and errors under every collection schedule, and no reclaimed memory is ever used.',
     ['schedules', 'programs'], 'every program, every set of allocations at which a collection happens',
     'Tests run with collections so rare that most programs see none; a missing root or trace shows only when a collection hits a window of a few allocations.',
     ['src/c/gc.cc', 'src/c/gc.h', 'src/c/verif_gc.inc', 'src/c/pscm.h', 'src/c/continuation.cc', 'src/c/map.cc', 'src/c/eval.cc'],
     [('mark and sweep', 'src/c/gc.cc'), ('allocation', 'src/c/gc.cc')],
     'forced collection schedules with overwriting of reclaimed memory; differential monitor against a reference without a collector; ASan/UBSan rerun',
     TRUST + ' Schedules: period 1 to 120 at random phases.', observe=['values and output at the embedding API', 'counters of collections, reclaimed and reused blocks'],
     hook='PSCM_VERIF in gc.cc: forced collections, overwriting of reclaimed payloads, counters')

LIB = ('differential monitor: random sequences of library calls on typed, shared and hostile arguments against the reference; ASan/UBSan rerun')

prop('C13', 'Exact arithmetic is exact or a catchable error, never a wrong number',
     'Arithmetic on integers and ratios (sum, difference, product, quotient forms, gcd, lcm, abs, max, min, expt, comparisons, parity and sign tests) '
     'gives the mathematically exact result, with ratios in lowest terms, or raises a catchable error where the result does not fit or does not exist '
     '(overflow, division by zero, a non-number). No result is silently wrapped, truncated or rounded, at the limits of the integer range included, '
     'and mixing in a float gives the float result.',
     ['inputs', 'programs'], 'every operator, number of operands and operand values up to the limits of the representation',
     'Tests use small numbers; overflow, sign and normalisation faults need operands near the limits or particular ratios.',
     ['src/c/number.cc', 'src/c/predicate.cc', 'src/c/eq.cc', 'src/c/parse.cc', 'src/c/print.cc'], [('numeric procedures', 'src/c/number.cc')], LIB, TRUST,
     observe=['values at the embedding API'])

prop('C14', 'number->string and string->number are inverse; float results are IEEE doubles',
     'string->number accepts exactly the spellings of numbers in the given radix and gives the number spelled or #f, never an approximation of an exact '
     'integer; number->string of any finite number gives a spelling that string->number reads back as the same number, in every radix for exact integers. '
     'Arithmetic and comparisons on floats, also mixed with exact numbers, give the results of IEEE double arithmetic.',
     ['inputs'], 'every number, every string, radix 2 to 36',
     'Tests convert a few small decimal numbers; faults sit in particular digits, radixes, exponents and malformed spellings.',
     ['src/c/number.cc', 'src/c/string.cc', 'src/c/parse.cc', 'src/c/print.cc'], [('conversions', 'src/c/string.cc'), ('numeric procedures', 'src/c/number.cc')], LIB, TRUST,
     observe=['values at the embedding API'])

prop('C15', 'eq?, eqv?, equal? and type predicates classify values coherently',
     'eq? implies eqv? implies equal?; eq? holds of one object however it was reached, eqv? also of equal numbers of the same exactness and equal characters, '
     'equal? of structures whose parts are pairwise equal?, and of nothing else. No value satisfies two of the disjoint type predicates (boolean, pair, null, symbol, number, char, string, vector, procedure), and the '
     'mem and ass procedures find the first element that the corresponding equivalence accepts.',
     ['inputs'], 'every pair of values of every type, shared, copied or reached along different paths',
     'Tests compare a few literals; faults show for a particular pair of types, nested structure or sharing.',
     ['src/c/eq.cc', 'src/c/predicate.cc', 'src/c/list.cc', 'src/c/alist.cc'], [('equality', 'src/c/eq.cc'), ('predicates', 'src/c/predicate.cc')], LIB, TRUST,
     observe=['values at the embedding API'])

prop('C16', 'A hash table is the finite map its history of updates defines',
     'After any history of set, create-handle, remove and handle updates with one family of procedures (eq, eqv or equal keys), looking up a key gives the value last stored '
     'for an equivalent key, or absence; other keys are not affected, whatever the table size, number of entries and collisions. '
     'A handle stays the entry of the table: what is stored through either is seen through the other.',
     ['histories', 'inputs'], 'every sequence of operations, keys of every type, every table size',
     'Tests put a few keys into a table; collisions, chains, removals in the middle of chains and growth are reached only by particular histories.',
     ['src/c/hash_table.cc'], [('buckets and handles', 'src/c/hash_table.cc')], LIB, TRUST, observe=['values at the embedding API'])

prop('C17', 'List and association list procedures compute the specified lists',
     'The list procedures (construction, selection, append, reverse, length, list-ref, list-tail, list-head, last-pair, mem procedures, set-car!, set-cdr!) and the association list '
     'procedures return exactly the specified elements in the specified order and share structure exactly where specified. They change only the pairs that the '
     'mutators name, and improper arguments raise catchable errors.',
     ['inputs', 'histories'], 'every list shape (empty, proper, dotted, shared, nested) and every sequence of mutations',
     'Tests use short proper lists; sharing, dotted tails and in-place updates are where list code goes wrong.',
     ['src/c/list.cc', 'src/c/alist.cc', 'src/c/map.cc', 'src/c/for_each.cc'], [('lists', 'src/c/list.cc'), ('association lists', 'src/c/alist.cc')], LIB, TRUST,
     observe=['values at the embedding API'])

prop('C18', 'Vectors are arrays of fixed length with checked indices',
     'A vector holds exactly the elements it was made with until vector-set! replaces one: every other element, vector and list keeps its value, and every alias sees the new one. '
     'Every index from 0 to length-1 is accepted, every other index or non-index raises a catchable error and changes nothing. '
     'vector->list and list->vector copy all elements in order.',
     ['inputs', 'histories'], 'every length, index, element and sequence of updates', 'Tests read and write a few in-range indices.',
     ['src/c/vector.cc'], [('vectors', 'src/c/vector.cc')], LIB, TRUST, observe=['values at the embedding API'])

prop('C19', 'String operations work on exact character sequences',
     'A string is exactly its sequence of characters: length, indexing, substring, append, conversion to and from lists and symbols, and string-set! agree with that sequence, '
     'results are fresh strings, and out-of-range indices raise catchable errors and change nothing. '
     'The comparison procedures order strings lexicographically by character, the -ci forms ignoring case, over their whole lengths.',
     ['inputs', 'histories'], 'every string over ASCII, every index and range, every sequence of updates', 'Tests use a few short words.',
     ['src/c/string.cc'], [('strings', 'src/c/string.cc')], LIB, TRUST, observe=['values at the embedding API'])

prop('C20', 'Characters and symbols: code, case, class and identity are consistent',
     'Conversions between characters and integers are inverse; case conversion, classification and comparison of characters agree with their codes, and the -ci comparisons ignore case only. '
     'Symbols with the same spelling are one object however they were made, with different spellings they differ, and symbol->string and string->symbol are inverse.',
     ['inputs'], 'every character code, pair of characters, and symbol spelling', 'Tests sample a few letters.',
     ['src/c/char.cc', 'src/c/symbol.cc', 'src/c/predicate.cc'], [('characters', 'src/c/char.cc'), ('symbols', 'src/c/symbol.cc')], LIB, TRUST, observe=['values at the embedding API'])

prop('C23', 'Ports deliver exactly what was written, in order, once',
     'Reading from a string or file port yields the characters or data of its source in order, each once, peeking consumes nothing, and then end of file for ever; '
     'writing to a string, file or soft port appends exactly the characters of the printed value, in the order of the calls, to that port and to no other. '
     'A closed port, or a port of the wrong direction, gives a catchable error; a file holds everything written once its port is closed.',
     ['histories', 'inputs'], 'every interleaving of operations over several ports, every content', 'Tests open one port at a time and read a datum or two.',
     ['src/c/port.cc', 'src/c/print.cc', 'src/c/parse.cc'], [('ports', 'src/c/port.cc')], LIB, TRUST, observe=['values at the embedding API', 'contents of files'])

prop('C24', 'Modules hide their private names and share their exported bindings',
     "The file of a module is evaluated once, with that module current; afterwards, also after an error, the module that was current before is current again. "
     "Users of a module that declares exports (define-public, export, re-export, #:export) get exactly the exported bindings, with their current values, and never its private ones. "
     "Procedures of a module keep seeing and assigning that module's own variables wherever they are called from, whatever other modules or the program define under the same names.",
     ['histories', 'inputs'], 'every set of modules, every order of uses, definitions, assignments, exports and calls',
     'Tests load two or three small modules with distinct names, in one order each.',
     ['src/c/module.cc', 'src/c/environment.cc', 'src/c/eval.cc', 'src/c/define.cc', 'src/c/load.cc'], [('modules', 'src/c/module.cc'), ('lookup', 'src/c/environment.cc')],
     DIFF, TRUST, observe=['values at the embedding API', 'error keys'])

prop('C21', 'The reader builds exactly the datum that a text spells',
     'However a datum is spelled (white space, comments, quote and quasiquote abbreviations, dotted tails, escapes, number formats, character names, literal vectors), reading its text yields that datum and stops '
     'right behind it, the same through every way of reading: evaluation of a text, loading a file, and read on string and file ports. '
     'Data follow each other in the order of the text up to its end; a text that spells no datum (unbalanced, misplaced dots, unfinished strings) raises a catchable error.',
     ['inputs'], 'every datum, every spelling, every way a text can be malformed',
     'Tests parse some dozens of fixed texts; wrong data come from particular adjacent tokens, escapes, comments or nestings.',
     ['src/c/parse.cc', 'src/c/port.cc', 'src/c/load.cc'], [('the reader', 'src/c/parse.cc')],
     'generated data in random spellings and damaged texts, read through every entry point; the data expected are known by construction, a second reader judges damaged texts',
     'Exploration. Trusts the spellers (lib/syntax.py) and, for damaged texts, the reader of lib/refscm.py.', observe=['data read, printed and compared'])

prop('C22', 'What write prints reads back as an equal datum, printed as specified',
     'For every datum made of pairs, vectors, exact numbers, floats of up to 14 significant digits, booleans, characters, strings of any characters and symbols of ordinary spelling, the text that write prints reads back as '
     'a datum that is equal? and of the same types, and prints the same again. display prints the same structure with strings and characters as their raw characters; printing changes nothing and is the same on every kind of port.',
     ['inputs'], 'every datum however it was built, every port', 'Tests print a few short lists; escapes, dotted tails, nested quote forms and numbers have their own cases.',
     ['src/c/print.cc', 'src/c/port.cc', 'src/c/parse.cc'], [('the printer', 'src/c/print.cc')],
     'round trip monitor: data built by procedure calls are printed, compared with an independent printer, read back and compared structurally',
     'Exploration. Trusts lib/syntax.py and the printer of lib/refscm.py.', observe=['printed text', 'data read back'])

prop('C02', 'Garbage is reclaimed: bounded data means bounded memory',
     'A program that keeps a bounded amount of data reachable runs in a bounded amount of memory, however many times it loops and whatever objects it makes and drops on the way: '
     'pairs, cycles, closures, environments, strings, vectors and tables of all sizes, promises, ports, numbers, symbols, errors, escapes that were taken, loaded files. '
     'Memory that objects of one kind and size gave up serves objects of every other kind and size. (Continuations that were captured are excepted: their stacks are scanned conservatively.)',
     ['programs', 'histories'], 'every loop body, every number of iterations, every order of sizes and kinds',
     'Tests end before a leak matters; which kinds leak depends on sizes, fragmentation and the state in which the object is dropped.',
     ['src/c/gc.cc', 'src/c/gc.h', 'src/c/hash_table.cc', 'src/c/port.cc', 'src/c/string.cc', 'src/c/eval.cc', 'src/c/load.cc'],
     [('mark and sweep', 'src/c/gc.cc'), ('blocks and free lists', 'src/c/gc.cc')],
     'resource monitor: peak memory of the process and bytes live after the last collection, of random garbage-making loops at 1, 4 and 16 times the length',
     'Exploration. A leak smaller than about 30 bytes per iteration of a loop is below the threshold; continuations are excluded.',
     observe=['peak resident memory', 'bytes live after the last collection'], hook='PSCM_VERIF in gc.cc: counters of bytes allocated, collected and live')

prop('C25', 'A program means the same however it is entered',
     'The forms of a program have the same effects, values and errors whether they are evaluated as texts or files through the embedding API, by eval of quoted or read data, by load, as a script, as a test, or typed at the '
     'REPL, however the text is laid out over lines and commented; each is evaluated once, in order, and sees the definitions of those before it, whatever way they entered. '
     'An uncaught error ends only the form it happens in: later forms of a script, a test or a REPL session still run; within a loaded file it ends the load. On the command line (exit n) ends the process with that code; a file with a syntax error is refused with exit code 1 before anything is evaluated.',
     ['programs', 'inputs'], 'every program, every way of entering each of its forms, every layout of the text',
     'Tests use one entry point each, and the REPL not at all.',
     ['src/main.cc', 'src/c/repl.cc', 'src/c/pscm_api.cc', 'src/c/eval.cc', 'src/c/load.cc', 'src/c/parse.cc', 'src/c/throw.cc'], [('the REPL', 'src/c/repl.cc'), ('load', 'src/c/load.cc')],
     'differential monitor: random programs entered through random mixtures of ways, in one process and on the command line, against the reference evaluator',
     TRUST, observe=['values and output at the embedding API', 'standard output and exit code of the command line tool'])

prop('C26', 'C code and Scheme code call, catch and share values alike',
     'A procedure that a host defines through the C API behaves as a Scheme procedure does: its arguments arrive in order, wrong numbers of them raise catchable errors, its result is the value of the call. '
     'C code that calls Scheme procedures, evaluates texts, catches, throws, unwinds through guards, and reads and assigns variables and modules observes the same values, errors and order of effects as the Scheme program that does the same, also when C and Scheme frames nest, and under every schedule of collections. '
     'Strings, symbols, numbers, characters and booleans keep their values when converted to C and back. Foreign objects keep their data and are equal? as their own equality says.',
     ['programs', 'histories', 'schedules'], 'every nesting of C and Scheme calls, arguments, errors and collections',
     'Tests of the API call single functions with fixed arguments, and never across collections or errors.',
     ['src/c/pscm_api.cc', 'src/c/function.cc', 'src/c/apply.cc', 'src/c/throw.cc', 'src/c/smob.cc', 'src/c/variable.cc', 'src/c/module.cc', 'src/c/dynwind.cc'],
     [('calls from C', 'src/c/apply.cc'), ('catch from C', 'src/c/throw.cc'), ('foreign objects', 'src/c/smob.cc')],
     'differential monitor: random programs through host-defined procedures against the reference evaluator; reruns under forced collections and in ASan/UBSan',
     TRUST + ' Continuations and the builtins apply, map, for-each and call/cc are not called from C; optional arguments of C procedures, and mark, free and print functions of foreign objects, are outside.',
     observe=['values and output at the embedding API'])

prop('C27', 'What a program finds out about programs agrees with evaluation',
     'eval gives an expression the meaning it has at top level, with the global variables and not the locals of the caller, and definitions made by it are seen by later forms. macroexpand-1 gives what the use of a macro '
     'is replaced with and macroexpand repeats that until no macro is left at the head, and evaluating the expansion does what evaluating the form does. defined? tells whether a symbol has a global value. gensym gives symbols different from one another and from every other '
     'symbol of the program. procedure-name gives the name a procedure was first defined with. A variable object holds the value last given to it.',
     ['programs', 'histories'], 'every program that builds, expands, evaluates and inspects code and variables',
     'Tests evaluate a few fixed data; that eval sees no locals, that expansion agrees with evaluation and that names stay with the procedures they were given to depend on the program around the call.',
     ['src/c/eval.cc', 'src/c/macro.cc', 'src/c/variable.cc', 'src/c/procedure.cc', 'src/c/symbol.cc'] , [('eval', 'src/c/eval.cc'), ('macroexpand', 'src/c/macro.cc'), ('variables', 'src/c/variable.cc')],
     DIFF, TRUST + ' procedure-name of builtins, and code that eval, expansion and redefinition make to refer to itself, are outside.', observe=['values and output at the embedding API, form by form'])

prop('C28', 'An error names the place of the call that failed',
     'The message of an error raised by a builtin, by a call of something that is no procedure or with a wrong number of arguments, or by an unbound variable begins with the file, the line and the column where the failing call or variable begins, whatever the layout of '
     'the text, the forms the call is nested in, the procedures and files between the handler and the call, and the errors, escapes and loads that happened earlier. For code given to a macro the place is within the call of that macro.',
     ['programs', 'inputs'], 'every layout, every nesting of the failing call and every earlier history',
     'The tests look at no places; the reader keeps count over comments, strings and characters, and the evaluator keeps the current place over returns, escapes and recovered errors.',
     ['src/c/parse.cc', 'src/c/eval.cc', 'src/c/error.cc', 'src/c/source_location.cc', 'src/c/throw.cc', 'src/c/macro.cc', 'src/c/load.cc'],
     [('places of expressions', 'src/c/source_location.cc'), ('messages', 'src/c/error.cc'), ('the current place', 'src/c/eval.cc')],
     'trace monitor: random programs with one failing call at a place known by construction; the message that a catch gets is checked against that place; reruns under forced collections and in ASan/UBSan',
     'Exploration: every error explored named the place where the generator had put the failing call. Errors raised by throw from the program carry no place, and errors within code that a macro definition contributes are outside.',
     observe=['the error message that catch receives'])
