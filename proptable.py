claim('C01', 'Every value is read as the kind of value it was made as',
 'However a script combines the builtins, the interpreter never reinterprets the memory of one kind of value as another: a value tagged as an integer, string, pair, frame, function, host object and so on always carries a payload of exactly that kind. A builtin handed a value of an unexpected kind reports an error or treats it as what it is; it never corrupts memory or returns garbage.',
 ['inputs', 'programs'], 'every builtin, every legal number of arguments, every combination of argument kinds (including nil and improper lists), every path through the implementation',
 'The tests call each builtin with a few well-typed arguments; the payload is an unsafe pointer, so a missing kind check is silent until a particular ill-typed argument reaches a particular cast.',
 ['data.go', 'frame.go', 'list_access.go', 'prim_*.go'],
 [('type tag and unsafe payload of a value', 'data.go: type Data, *Value accessors'), ('kind predicates guarding every accessor', 'data.go: NilP, PairP, ...; prim_*.go guards'), ('constructors pair the tag with its payload', 'data.go: *WithValue, Cons')],
 'path-sensitive abstract interpretation of the SSA form (value-kind domain) with a representation invariant at every tag/payload store and every unsafe cast',
 'Sound up to the stated assumptions for all arguments: every unsafe cast reachable from every builtin and evaluator entry point is proved to be applied to a payload of that kind. Assumes the Go type system elsewhere, and that host code registering its own builtins keeps the same discipline.')

claim('C03', 'A failing step makes the whole expression fail',
 'When something a builtin or special form relies on fails (evaluating a sub-expression, applying a function, converting or reading a value), the failure comes out as the error of that builtin: it is never swallowed, nothing more of the form is evaluated after it, and the caller is never told that all went well. Only on-error catches failures, a process prints the failure of its function, and acons passes over malformed entries of the list it extends.',
 ['inputs', 'programs'], 'every builtin and evaluator function with every legal number of arguments, every step in it that can fail, every path on which it does',
 'Every step of every form can fail; the tests make a few of them fail and look at the error, while a dropped error shows only when exactly that step fails and then looks like success.',
 ['data.go', 'function.go', 'macro.go', 'primitive_function.go', 'parser.go', 'prim_*.go'],
 [('errors returned and checked at each step', 'prim_*.go: err results'), ('evaluation of argument lists', 'data.go: evalHelper; function.go: makeLocalBindings'), ('error handlers', 'prim_system.go: OnErrorImpl')],
 'path-sensitive abstract interpretation of the SSA form with an error typestate (no error, failed at a site) carried along every path of every builtin',
 'For every error-returning step in the repository reachable from a builtin, each path on which it fails is followed to the end: no evaluation may follow and the result must be a non-nil error. Printing, and closing a file whose error no caller could be told, are exempt.')

claim('C06', 'Shared tables are used only under their lock, and locks are released',
 'The tables that processes share (the bindings of an environment, the slots of a frame, the symbol table, the environment registry) are read and written only while the lock of that very object is held in the right mode, and every lock taken is released on every path, failures included.',
 ['schedules', 'inputs'], 'every access to every shared table in the repository, every path and every interleaving of any number of processes',
 'A table used without its lock fails only under a particular interleaving (and then takes the whole program down); a lock that is not released hangs some later, unrelated use.',
 ['symbol_table_frame.go', 'frame.go', 'data.go'],
 [('environment bindings and their lock', 'symbol_table_frame.go: SymbolTableFrame.Bindings, Mutex'), ('frame slots and their lock', 'frame.go: FrameMap.Data, Mutex'), ('symbol table', 'symbol_table_frame.go: internedSymbols'), ('environment registry', 'symbol_table_frame.go: Environments')],
 'interprocedural lockset analysis over the SSA form with object identity of locks and tables, per path',
 'Every map beside a lock, and every package-level map changed while scripts run. The value cell inside a binding is not covered: it is read and written without synchronisation by design.')

claim('C07', 'Processes cannot deadlock on the interpreter\'s internal locks',
 'The interpreter never waits for one of its internal locks in a way that can go wrong: locks of different objects are taken in one fixed order (an inner environment before the ones around it; never two frames at once), no lock is taken twice, and while a lock is held the interpreter neither runs script code nor waits for another process, a channel or a timer.',
 ['schedules', 'histories'], 'every pair of lock acquisitions in the repository on every path, any number of processes, any frames and environments including frames that are each other\'s parents',
 'A lock-order inversion deadlocks only when two processes meet in the narrow window; no test can enumerate the windows or the shapes of frame graphs.',
 ['symbol_table_frame.go', 'frame.go', 'prim_frame.go', 'prim_environment.go'],
 [('environment locks', 'symbol_table_frame.go: Mutex use'), ('frame locks', 'frame.go: Mutex use')],
 'lock-order and blocking-effect analysis over the SSA form (held set with object identity per path, acquired-lock summaries over the call graph, acyclicity of the order)',
 'Proves the absence of lock-order cycles and of blocking under a lock for the repository\'s own locks. Scripts that wait for each other through channels or join can still deadlock; that is theirs.')

claim('C08', 'Atomic operations and shared updates are single indivisible steps',
 'Each atomic-* builtin performs exactly one indivisible operation of its name on the object it was given, with the arguments in order, and returns what that step produced. A symbol of a given name exists once however many processes read it at the same time. An entry of a shared table is never overwritten with a value computed from one read before the lock was taken, and a variable used atomically somewhere is used atomically everywhere.',
 ['schedules', 'inputs'], 'every builtin of the atomic family, every writer of a shared table, every interleaving',
 'A lost update or a duplicate symbol needs a particular interleaving between two instructions.',
 ['prim_concurrency.go', 'symbol_table_frame.go', 'data.go', 'frame.go'],
 [('atomic builtins', 'prim_concurrency.go: Atomic*Impl'), ('interning', 'symbol_table_frame.go: Intern'), ('process and id counters', 'prim_concurrency.go: Joined; data.go: gensym counter')],
 'abstract interpretation counting atomic steps per path with operand tracking; critical-section versions on table reads; plain-access lint for atomically used storage',
 'Covers the atomic builtins, interning, every shared table update and every variable touched with sync/atomic. Compound operations a script builds from several builtins are not atomic and not claimed.')

claim('C09', 'A process runs once, delivers one result, and joining it returns',
 'fork and schedule start exactly one process or report an error and start none. A forked function runs once; a scheduled one runs once after its delay, not before, and not at all once abandoned. Whatever happens inside (an error, a panic), the process delivers exactly one result without waiting for anybody, and that is the value its function returned. join of another process returns that result once, further joins are errors, and joining oneself does not hang; wake, abandon and reset-timeout never wait.',
 ['schedules', 'inputs', 'crash points'], 'every path through the process builtins and the goroutines they start, including failure and panic paths',
 'The paths that matter (failure in the process, abandon before start, second join, self join) depend on timing and on what the script does inside the process.',
 ['prim_concurrency.go'],
 [('starting a process', 'prim_concurrency.go: ForkImpl, ScheduleImpl'), ('delivering and taking the result', 'prim_concurrency.go: Process.ReturnValue, Joined, JoinImpl'), ('control messages', 'prim_concurrency.go: WakeImpl, AbandonImpl, ResetTimeoutImpl, ProcSleepImpl')],
 'typestate analysis of channel operations along every path of the process builtins and of the goroutines they start (with panic edges and deferred calls)',
 'Channel and timer operations are modelled by their Go semantics. A script function that never ends, and the exact moment a timer fires, are outside; a reset that arrives while the timer is firing is not ordered.')

claim('C10', 'Channel builtins do exactly one channel operation and report it truly',
 'channel-write, channel-read, their try- variants and close-channel each perform exactly one operation of that kind on the channel they are given, with the value they are given, and say truly what happened: the value received and whether the channel is open, whether a try succeeded, and an error, not a crash, for an operation on a closed channel. The try- variants never wait, and make-channel makes a channel of the capacity asked for, unbuffered by default.',
 ['schedules', 'inputs'], 'every path through the channel builtins, every state of the channel (empty, full, closed, contended)',
 'Which branch of a non-blocking operation is taken depends on what other processes are doing at that instant.',
 ['prim_channel.go'],
 [('channel builtins', 'prim_channel.go: *Impl'), ('closed-channel recovery', 'prim_channel.go: deferred recover')],
 'typestate analysis of channel operations with operand tracking along every path, including the panic edges of a closed channel',
 'Relies on the semantics of Go channels for delivery and order.')

claim('C12', 'Application evaluates each argument once, in order, in the right environment',
 'Applying a function evaluates each argument expression exactly once, left to right, in the environment of the call, binds the values to the parameters in order (the rest parameter, if any, to the list of the remaining ones), and evaluates the body forms once each in order in one new environment below the one the function was made in; the last value is the result. Handing values (apply, map, host calls) evaluates none of them. A macro gets its arguments unevaluated, its body is evaluated once in a new environment below its definition, and the expansion is evaluated once in the environment of the call. A primitive gets values, a special form its unevaluated arguments. A wrong number of arguments is an error before anything is bound or evaluated in the body. Numbers, strings, functions and other data evaluate to themselves, a symbol to its value, a list applies the value of its head; slot and channel shorthand (a: a:! a:? a:> a:^ <-c c<-) means the builtin it abbreviates with the operands in place.',
 ['inputs', 'programs', 'histories'], 'every application function of the interpreter for argument lists of each length from none to more than the parameters, with and without rest parameter, every kind of value evaluated, and every ordinary builtin for re-evaluation of its arguments',
 'A double or missing evaluation, a value bound in the wrong environment or an argument shifted by one is invisible with constant arguments; only side effects, shadowed names or unusual argument counts show it.',
 ['data.go', 'function.go', 'macro.go', 'primitive_function.go', 'prim_*.go'],
 [('application', 'function.go: internalApply, makeLocalBindings; macro.go; primitive_function.go: Apply'), ('evaluation and dispatch', 'data.go: evalHelper, Apply, ApplyWithoutEval'), ('shorthand forms', 'data.go: postProcessShortcuts')],
 'path-sensitive abstract interpretation of the SSA form producing evaluation/binding traces on symbolic argument shapes, compared with a specification; call-graph effect analysis for re-evaluation',
 'Argument lists of up to three symbolic elements, parameter lists of up to two plus a rest parameter (the loops are uniform in the length). Functions that a debugger stops are outside.')

claim('C13', 'A call with a wrong number of arguments is refused before anything happens',
 'Each builtin takes the numbers of arguments its documentation gives, and a function or macro as many as it has parameters (or at least that many when it has a rest parameter). A call with any other number is an error, and none of its arguments has then been evaluated or bound; a call with a right number is never refused for its count. This holds for every description a builtin can be registered with (an exact number, "at least", a range, alternatives) and however it is called.',
 ['inputs', 'programs'], 'every builtin, every form of registration and every description of a number of arguments, functions and macros with parameter lists of each length with and without a rest parameter, each way of applying them, each number of arguments in the bound',
 'There are some 350 builtins with a dozen descriptions; tests call them with right numbers. A wrong count that is accepted, or refused only after its arguments were evaluated, is seen with a particular builtin and number only.',
 ['primitive_function.go', 'function.go', 'macro.go', 'prim_*.go'],
 [('descriptions of the number of arguments', 'primitive_function.go: parseNumArgs'), ('the check of a call', 'primitive_function.go: checkArgumentCount, Apply'), ('parameters of functions and macros', 'function.go: computeRequiredArgumentCount, makeLocalBindings; macro.go')],
 'abstract interpretation of the SSA form with constant propagation of the registered descriptions, per number of arguments; table comparison of the declared numbers',
 'Calls of up to six arguments (twelve for two-digit descriptions), parameter lists up to three (thorough: six).')

claim('C16', 'Numeric builtins compute the operation they are named after',
 'Over the integers, and over floats where an operand is one, + - * / %, pow, sign, the comparisons, min, max, abs, rounding, bit operations, conversions between numbers, their text in a given base and their bits, and the other arithmetic builtins return the value of the mathematical operation of that name on their arguments in the given order, for any number of arguments the builtin accepts (- and / with two or more); something that is not a number, and division by zero, is an error and nothing else is; integer arguments stay integers where the operation allows it, and a comparison of several arguments holds exactly if it holds for each neighbouring pair.',
 ['inputs'], 'every arithmetic, comparison and mathematical builtin, for symbolic integer and float operands (all values at once), each argument count up to three and nine',
 'Tests compare a few sample sums; swapped operands, a wrong identity element or a lost operand of a longer call are invisible for symmetric samples.',
 ['prim_math.go', 'prim_relative_logical.go', 'prim_binary.go'],
 [('arithmetic', 'prim_math.go: AddImpl, SubtractImpl, MultiplyImpl, ...'), ('comparison', 'prim_relative_logical.go: LessThanImpl, ...')],
 'symbolic evaluation of the SSA form to a normalised arithmetic term per path (abstract interpretation, no solver), compared with the term of the specification',
 'Machine arithmetic: integers wrap as int64 does and floats follow the Go operations. Numerical accuracy of library functions is not judged.')

claim('C17', 'Accessors, type predicates and string operations mean what their names say',
 'c[ad]+r and first..tenth walk the path their name spells; a type predicate answers true exactly for the values of its kind and false for every other kind, never failing; the string operations (splitting, joining, trimming, changing case, searching, taking parts, converting to and from symbols and values) return the Go string operation of their name on their arguments, in order, and only those named with ! change their argument.',
 ['inputs'], 'every accessor on every cell it must reach, every predicate against every kind of value including nil, every string builtin on symbolic strings',
 'There are some 300 combinations of accessor and path or predicate and kind; tests sample a handful and a predicate that answers true for one extra kind looks right on the rest.',
 ['prim_list_access.go', 'list_access.go', 'prim_type_predicates.go', 'prim_string.go', 'data.go'],
 [('accessors', 'prim_list_access.go; list_access.go'), ('predicates', 'prim_type_predicates.go'), ('strings', 'prim_string.go')],
 'symbolic evaluation of the SSA form per path (abstract interpretation with kind domain), compared with the term or truth table of the specification',
 'Lists are bounded to ten cells, joined lists to twenty strings, splits to four pieces; strings are unbounded symbols.')

claim('C23', 'Special forms evaluate exactly the parts their definition says',
 'if, cond, case, when, unless, and, or, let, let*, letrec, named let, do, begin, define, set!, lambda, quote, the threading forms and the other special forms evaluate exactly those sub-expressions their definition selects, each exactly once (per iteration), in order, in the right environment, test the values that decide which branch is taken, bind what they should where they should, and return the value of the last expression evaluated as their definition says.',
 ['inputs', 'programs'], 'each special form on its clause shapes with symbolic sub-expressions, both outcomes of every test, every path',
 'An unselected branch that is evaluated too, or a clause evaluated twice, is only visible through side effects in a particular clause.',
 ['prim_special_forms.go', 'prim_relative_logical.go', 'prim_macros.go', 'prim_mutators.go'],
 [('special forms', 'prim_special_forms.go: *Impl'), ('logical forms', 'prim_relative_logical.go: BooleanAndImpl, BooleanOrImpl'), ('quotation', 'prim_macros.go')],
 'path-sensitive abstract interpretation of the SSA form producing evaluation/test/binding traces, compared with the set of traces the definition allows',
 'Forms of up to about three clauses or bindings with symbolic sub-expressions; loops are followed for a bounded number of iterations.')

claim('C25', 'List builtins build the right list and call their function on the right elements',
 'The list builtins (list, cons, append, reverse, map, for-each, filter, remove, reduce, fold-left, fold-right, find, any, every, assoc and member families, sublist, take, drop, length, list-tail, flatten, zip-like and alist operations) return the list their definition says built from the very elements of their arguments, and those that take a function call it exactly on the elements the definition says, in order, once each, stopping where it says.',
 ['inputs'], 'each list builtin on lists of zero to about four symbolic elements, both outcomes of every predicate call or comparison',
 'Which elements are dropped, duplicated or visited twice depends on the pattern of predicate answers and on list length; tests check one pattern.',
 ['prim_list_functions.go', 'prim_list_manipulation.go', 'prim_list_access.go', 'prim_alist.go', 'list_access.go', 'data.go'],
 [('higher-order list builtins', 'prim_list_functions.go'), ('list construction', 'prim_list_manipulation.go; data.go: Append, Reverse'), ('alists', 'prim_alist.go; data.go: Assoc, Acons')],
 'path-sensitive abstract interpretation of the SSA form on symbolic list shapes, comparing call traces and result shapes with a specification',
 'Bounded list lengths with symbolic elements. Library sorting functions are modelled as sorting by the comparison they are given; whether the comparison is a consistent order is up to the script.')

claim('C26', 'Byte array builtins hold exactly the bytes their definition says',
 'list->bytearray, bytearray->list, extract-byte, extract-bytes, replace-byte, append-bytes, take, drop and length on byte arrays give exactly the bytes (or the number) the definition says, from every index, count and length; the ones not named with ! return a new array and leave every argument as it was, replace-byte! and append-bytes! change their first argument in exactly the bytes the definition says, return it and leave the others alone. An index or count out of range, a number that is no byte and anything that is not a byte array where one is needed is an error that changes nothing, and nothing else is an error.',
 ['inputs'], 'each byte array builtin on arrays of zero to four unknown bytes, indices and counts in, at and far beyond both ends, elements of each kind, arrays given twice',
 'An off-by-one at an end, an overflowing index, a shared backing array or an argument changed only shows for particular lengths and for what is done with the arrays afterwards.',
 ['prim_bytearray.go', 'prim_list_access.go', 'prim_list_manipulation.go'],
 [('byte arrays', 'prim_bytearray.go'), ('take and drop', 'prim_list_access.go: TakeImpl, DropImpl')],
 'path-sensitive abstract interpretation of the SSA form on byte arrays of unknown contents, comparing the bytes of the result and of every argument afterwards with the definition',
 'Arrays of up to four bytes; the loops are uniform in the length.')

claim('C27', 'Equality is structural, symmetric and says yes only to equal values',
 'eq?, eqv?, equal? and == answer whether two values are equal, neq? and != the opposite: two values of the same kind are equal exactly if their contents are - integers, strings, symbols and booleans by value, floats as Go compares them (a NaN equals nothing), lists and dotted lists part by part to the end, associations by key whatever their order (an alist compares so with a list, on either side), frames if they have the same slots with equal values, byte arrays byte by byte; functions, macros, primitives, environments, ports and other boxed objects are equal only to themselves. Values of different kinds are never equal, the order of the arguments does not matter for atoms, lists, frames and byte arrays, and no comparison changes anything.',
 ['inputs'], 'equality of every pair of kinds with unknown contents, lists and dotted lists up to three (thorough: four) parts with unknown and nested parts, alists, frames of up to two slots, byte arrays of up to three bytes, in both orders',
 'A part that is skipped, or a comparison in one direction only, shows for values that agree in everything else; tests compare equal values and plainly different ones.',
 ['data.go', 'prim_relative_logical.go'],
 [('equality', 'data.go: IsEqual'), ('the builtins', 'prim_relative_logical.go')],
 'path-sensitive abstract interpretation of the SSA form on pairs of values of unknown contents; the answer on each path is compared with what the questions answered on that path imply',
 'Lists up to four parts; the loops are uniform in the length. Alists with repeated keys are outside the claim.')

claim('C24', 'A program is evaluated form by form, in order, in the environment named',
 'Evaluating a program - a text with the API, a file by the API or with load - reads one form, evaluates it once in the environment named (the global one where none is), and only then reads the next, to the end of the text; the value is that of the last form, nil where there is none. The first form that cannot be read or whose evaluation fails ends the matter and is the error reported; a file that cannot be read is an error and nothing is evaluated. Evaluating a single expression, or parsing one, reads and evaluates just the first.',
 ['inputs', 'programs'], 'every path of each entry point that evaluates or parses a text or a file, for programs of zero to four forms, a failure at each read and at each evaluation',
 'A form evaluated in the wrong environment, skipped, or evaluated after a failed one shows only for programs of a certain length that fail in a certain place; tests run programs that succeed.',
 ['parser.go', 'prim_system.go'],
 [('programs', 'parser.go: ParseAndEvalAll*, ProcessFile*'), ('load', 'prim_system.go: LoadFileImpl')],
 'path-sensitive abstract interpretation of the SSA form producing read/parse/evaluate traces, with every read and evaluation also failing, compared with the traces the definition allows',
 'Up to four forms (the loop is uniform); what the reader makes of the text is not judged here.')

claim('C28', 'I/O builtins touch exactly the port or file they are given',
 'write-string, write, newline, write-bytes and close-port act once on exactly the port they are given - the two textual ones on standard output where none is given - and write exactly the text of their argument (a string as it is, other values as printed, write always as printed; every byte of the array, in order); read takes one form from the port and gives the eof object at the end. open-input-file opens the named file for reading; open-output-file creates it if need be, and empties it, or appends where the second argument is true. load, exec, sleep and list-directory use the very name, command words, time and pattern they are given. An argument of the wrong kind is an error before anything is opened, written or closed, and a failing operation is an error.',
 ['inputs', 'fault_sequences'], 'every path of each I/O builtin, for each kind of argument and each argument count it accepts, with each operating system call also failing',
 'Tests write to one port and check little of what arrived; the wrong port, mode or a swallowed failure shows only in a file afterwards or when the system refuses.',
 ['prim_io.go', 'prim_system.go'],
 [('ports', 'prim_io.go: *Impl'), ('load, exec, sleep', 'prim_system.go')],
 'path-sensitive abstract interpretation of the SSA form; each library call that reaches the outside is an event over terms of the arguments, compared with the events of the definition',
 'Byte arrays up to four bytes, directories up to three entries; the operating system calls are taken to do what they document.')

claim('C20', 'The profiler records each application once, from beginning to end',
 'While profile evaluates its expression, every application of a function, builtin or special form writes two records to the file named (made or emptied first), or to standard output where none or the empty name is given: one after the arguments are evaluated and bound and before the body begins, one when the body has ended, in whatever way. Both carry the same type (func, prim or form), the same name as it is, and the same number, drawn atomically for this application alone. An application refused before its body begins writes none, and nothing is written while the profiler is off. profile gives the value or the error of its expression, evaluates it exactly once, closes its file, and leaves the profiler off however it ends; a file that cannot be opened or a name that is no string is an error and nothing is evaluated.',
 ['inputs', 'fault_sequences'], 'every path of each way to apply a function, builtin or special form, with the profiler on or off, to a file or not, each evaluation also failing; every path of profile',
 'No test runs the profiler; records missing after a failure or with the number of a nested application show only in a log nobody compares.',
 ['profiling.go', 'function.go', 'primitive_function.go', 'prim_system.go'],
 [('records', 'profiling.go: ProfileEnter, ProfileExit'), ('applications', 'function.go: internalApply, ApplyOveriddingEnvironment; primitive_function.go: Apply'), ('profile', 'prim_system.go: ProfileImpl')],
 'path-sensitive abstract interpretation of the SSA form; the text written is derived as a term and compared with the records of the application, their place among the events of the path, and the profiler state at each evaluation and at the end',
 'Bodies of up to three forms; the time in a record is not judged, nor are nested uses of profile; writing the log is taken to succeed.')

claim('C29', 'format produces the text its control string describes',
 'format replaces, left to right, ~A by its next argument as displayed (a string as it is), ~S by its next argument as printed, ~% by a newline, ~~ by a tilde, and drops ~newline with the blanks after it (~@newline keeps the newline); everything else is copied. A number, V (taken from the arguments) or # (the number of arguments left) before ~A or ~S is the least width, filled with blanks on the right, or on the left after @, and nothing is ever cut off; before ~% and ~~ it repeats them; each applies to its own substitution only. The text is returned for destination #f, else written once to the port given, standard output for #t; an unknown or unfinished substitution, missing arguments and arguments left over are errors, and nothing is written then.',
 ['inputs'], 'control strings with every substitution and modifier, alone, inside text and in every ordered pair, twenty in a row, with arguments of each kind and unknown contents, one missing, one left over, and malformed control strings, for each destination',
 'Substitutions influence each other through shared state (the width, the modifier, where the text was copied to); tests try them one at a time.',
 ['prim_io.go'],
 [('format', 'prim_io.go: FormatImpl')],
 'path-sensitive abstract interpretation of the SSA form deriving the text of each path as a term over the arguments, compared with an interpretation of the control string',
 'A width counts bytes. A width is a number of a few samples; arguments are unbounded symbols.')

claim('C15', 'Reading a text gives exactly the expressions it writes',
 'A text is read as the expressions written in it, in order, each exactly once and nothing else: symbols as the symbol of exactly those characters; decimal (with a leading - or not), 0x/#x and #b integers and decimal fractions as the number their digits write; strings with their escapes undone (\\n a newline, any other escaped character itself); #t and #f; lists, nested and dotted; quote, quasiquote, unquote and unquote-splicing marks as the two-element lists they abbreviate; [...] as the bytes in it, each 0 to 255 (or, with symbols or calls in it, the call that makes them); {...} as the make-frame call. Blanks and comments (; to the end of the line) between tokens change nothing, and none are needed around parentheses, brackets, quotes and strings. Where one expression ends the next begins: nothing is skipped or read twice. A text that stops inside an expression, or has an illegal character where a token should begin, is an error, never a value.',
 ['inputs'], 'token sequences of every kind of expression (atoms, lists, dotted lists, frames, quotes, nested, twenty long), every incomplete beginning of them and an illegal token at each place; texts of each kind of token with unknown characters of each class, in every context (before and after each kind of blank, parenthesis, quote, string and comment, inside lists, at the end of the text)',
 'Where a token ends depends on the character after it, and on which token came before; tests read well-spaced programs.',
 ['tokenizer.go', 'parser.go'],
 [('tokens', 'tokenizer.go: readNextToken, readSymbol, readNumber, readString, Advance'), ('expressions', 'parser.go: parseExpression, parseConsCell, parseBytearray, parseFrame, Parse, ParseAll')],
 'path-sensitive abstract interpretation of the SSA form over token sequences and over texts whose characters are known or any of a class (intervals), compared with the grammar',
 'Some oddities are neither required nor forbidden: a number directly followed by letters or by a second point, a lone parenthesis or point, 1e200, "{]", a file read through more than one tokenizer.')

claim('C19', 'A value is printed as the text that writes it',
 'The text of a value shows all of it and only it: an integer its decimal digits, a float its shortest digits with .0 added when there is no point (inf with its sign, nan), #t or #f, a symbol its name; a string in quotes with every quote and backslash escaped by a backslash and every other character as it is; a proper list its elements in order, separated by one blank, in parentheses; a dotted list with its last cdr after " . "; an association list as the list of its (key . value) cells in order; the two-element list of the symbol quote and an expression as a quote mark and the expression, and no other list so; a bytearray its bytes, 0 to 255, in brackets; a frame its slots, sorted by name, in braces; the empty list (); functions, macros, primitives and environments their name. Display text (PrintString) is the same except that a string by itself is its bare characters. Nested values are printed the same way at every depth.',
 ['inputs'], 'values of every kind but ports and opaque objects: integers, floats and elements unknown, strings of every pair of odd characters (quotes, backslashes, newlines, non-ASCII), bytearrays of up to five unknown bytes; lists, dotted lists, association lists and frames of these, nested two deep, up to twenty elements long',
 'What is printed depends on what stands beside and inside a value; tests print a few well-behaved ones.',
 ['data.go'],
 [('text of a value', 'data.go: String, PrintString, escapeQuotes'), ('sharing with builtins', 'prim_strings.go, prim_io.go: str, write-line and the interpreter loop print through these')],
 'path-sensitive abstract interpretation of the SSA form over abstract values (unknown numbers, elements and bytes), comparing the text put together on every path with the notation',
 'The digits themselves are those of fmt; a list whose last element is a nil pointer is read as shorter (see DESIGN.md); ports and opaque objects are not covered.')

claim('C18', 'Values become the JSON they stand for, and JSON the value it stands for',
 'lisp->json and the host functions LispWithFramesToJson and LispToJson turn a value into the JSON of the same structure: an integer or float into that number (exactly, for every 64-bit integer), a string or symbol into that string, #t and #f into true and false, a list into the array of its elements in order (the empty list made by reading or list operations into the empty array), a bytearray into the array of its bytes 0 to 255 (with frames), a frame into the object of its slots under their names without the last colon, leaving out slots that hold functions and only those (with frames), an association list into the object of its keys and values (without frames); nil and values JSON cannot write, such as a primitive, become the empty string. json->lisp and the host functions JsonToLispWithFrames and JsonToLisp turn JSON into the value of the same structure: a whole number of less than 2^63 into an integer, any other into a float, strings and booleans as they are, arrays into lists of as many elements in the same order (null in an array being the empty list), objects into frames with a colon after each name (association lists with string keys, without frames), null into nil, at every depth. A value that has no JSON text (an infinite number) is an error in lisp->json; text that is not JSON gives an empty frame in json->lisp.',
 ['inputs'], 'values of every kind with unknown numbers and elements, in lists, association lists and frames nested up to three deep and twenty long; JSON with unknown numbers, strings and booleans in arrays and objects nested likewise',
 'Each kind in each kind of container at each place is one case; tests convert a few documents. Values that are false, empty, null or at the limits of a number are where a conversion loses something.',
 ['json_frame_support.go', 'json_support.go', 'prim_frame.go'],
 [('to JSON', 'json_frame_support.go: LispWithFramesToJson; json_support.go: LispToJson'), ('from JSON', 'json_frame_support.go: jsonToLispWithFramesReflect; json_support.go: JsonToLisp'), ('builtins', 'prim_frame.go: LispToJsonImpl, JsonToLispImpl')],
 'path-sensitive abstract interpretation of the SSA form over abstract values and abstract JSON (package reflect modelled on the kinds encoding/json makes), comparing the structure built on every path; for an unknown number each path is judged for every representative its conditions allow',
 'The text itself is written and read by encoding/json. Host structs given to JsonToLispWithFrames, dotted lists, and JsonStringToLisp on bad text (it panics) are not covered.')

claim('C05', 'A protected binding never changes and never disappears',
 'The names of the builtins (and any name bound protected) keep their value: no script, whatever combination of define, set!, let-like forms, environment operations and function definitions it runs, changes the value of a protected binding, replaces it in its environment, removes it or takes its protection away. An attempt to redefine or assign it is an error, and an unprotected binding is defined and assigned as usual. Registering a builtin makes its binding protected.',
 ['inputs', 'programs', 'histories'], 'every path of every builtin, evaluator function and exported environment operation that reaches a binding, for symbolic names and environments, and every assignment and definition in each chain of environments up to three (thorough: five) deep with the name unbound, bound or protected at each level',
 'There are several ways to write a binding and each must test the protection of the very binding it writes; a path that forgets to is only seen when a script happens to use it on a builtin name.',
 ['symbol_table_frame.go', 'prim_environment.go', 'prim_special_forms.go', 'primitive_function.go'],
 [('the protection flag and who tests it', 'symbol_table_frame.go: BindTo, SetTo, BindLocallyTo, BindToProtected'), ('script access to bindings', 'prim_environment.go; prim_special_forms.go: DefineImpl, SetImpl'), ('registration', 'primitive_function.go: Make*')],
 'path-sensitive abstract interpretation of the SSA form: a write-guard rule at every store to a binding or entry of an environment, plus symbolic execution-free world tables (environments with symbolic contents) for definition and assignment',
 'Host code that calls BindToProtected, SetBindingAt or DeleteBinding does what it asks for; between the test and the write another process may define the same name (see DESIGN.md).')

claim('C11', 'A name means its innermost binding, and define and set! change that one only',
 'A name has the value of its binding in the innermost environment that binds it (a slot of the frame in whose context the code runs comes first, for a local name not bound in that very environment); set! and environment-assign! change exactly that binding, and where there is none set! is an error and environment-assign! changes nothing; define and environment-define make or change the binding of the current environment only, whatever outer environments bind; every new scope is a new, empty environment directly below its parent that shares nothing else with it; and the environment builtins report truthfully what is bound, assigned, defined as a macro, and where.',
 ['inputs', 'programs'], 'every lookup, definition, assignment and environment builtin in every chain of environments up to three (thorough: four) deep with the name bound, protected, unassigned or unbound at each level, with and without frames, symbolic values and kinds',
 'Which of several bindings of one name is read or written only shows with shadowing at the right depth; tests rarely shadow.',
 ['symbol_table_frame.go', 'prim_environment.go', 'prim_special_forms.go'],
 [('lookup', 'symbol_table_frame.go: FindBindingFor, ValueOfWithFunctionSlotCheck'), ('definition and assignment', 'symbol_table_frame.go: BindTo, BindLocallyTo, SetTo'), ('new scopes', 'symbol_table_frame.go: NewSymbolTableFrameBelow*'), ('environment builtins', 'prim_environment.go')],
 'path-sensitive abstract interpretation of the SSA form over symbolic worlds (environments and frames followed entry by entry), comparing the result and the changed bindings with the definition',
 'Chains of bounded depth (the code recurses uniformly over the parent); contents are symbolic.')

claim('C04', 'A restricted environment stays restricted and refuses restricted builtins',
 'Once an environment is restricted, code running in it or in any environment made below it (functions, let forms, slot functions, evaluated expressions) cannot run a restricted builtin, however the builtin is named or passed around: called directly, applied, mapped or handed on as a value, it fails with an error and does nothing. The restriction is never lifted and new environments inherit it. The builtins that open, close or load files, run programs, profile, panic, enter or set the debugger, or hand out the global, a parent, a top-level or a function environment are restricted, and no unrestricted builtin does what they do.',
 ['inputs', 'programs', 'histories'], 'every application path of a primitive, every place an environment or builtin is made or its flag written, every registered builtin and everything its implementation calls',
 'A sandbox is as strong as its weakest builtin and scope: the tests try none of the combinations of builtin, way of calling it and nesting of scopes.',
 ['primitive_function.go', 'symbol_table_frame.go', 'prim_environment.go', 'prim_system.go', 'prim_io.go', 'prim_debug.go'],
 [('the check', 'primitive_function.go: Apply'), ('inheritance', 'symbol_table_frame.go: NewSymbolTableFrameBelow*'), ('restricting', 'prim_environment.go: RestrictEnvironmentImpl'), ('registration', 'primitive_function.go: MakeRestricted*')],
 'path-sensitive abstract interpretation of the SSA form (guard rule at every call of an implementation, inheritance rule for new environments) and a call-graph effect analysis of every unrestricted builtin',
 'Host code may hand an outside environment to a script; list-directory, quit and writing to an open port are unrestricted by design. A function made in an unrestricted environment keeps running there when called from a restricted one.')

claim('C21', 'Frame slots are found through parents, and a message runs on its receiver',
 'A slot of a frame is its own slot of that name or else the slot of a parent (a slot whose name ends in "*:" holding a frame), of the parents\' parents and so on, through several parents and through cycles, and looking for a slot always comes to an end. set-slot! and remove-slot! change exactly the one slot of the one frame they are given; clone, make-frame, frame-keys and frame-values see exactly the frame\'s own slots, and a clone is a frame of its own. send and apply-slot run the function found that way with the given arguments, with self and the enclosing frame being the frame the message was sent to, wherever the function was found; send-super and apply-slot-super take the function from the parents and keep self. A bare name inside a frame\'s code means the local variable, then the frame\'s slot, then the enclosing variables, and a slot function called by its bare name keeps self.',
 ['inputs', 'programs', 'histories'], 'every path through the frame builtins, slot lookup and function application, over frames with up to four levels of parents (nine in the thorough run), several parents, shared parents, cycles and parents that are no frames',
 'Whether the wrong frame becomes self, or a slot is missed, shows only for particular combinations of inheritance and of where the call comes from; the tests use one or two parents.',
 ['frame.go', 'prim_frame.go', 'function.go', 'symbol_table_frame.go', 'data.go'],
 [('slot lookup through parents', 'frame.go: hasSlotHelper, getHelper, Parents'), ('messages', 'prim_frame.go: SendImpl, SendSuperImpl, ApplySlotImpl'), ('self in applied functions', 'function.go: internalApply; symbol_table_frame.go: ValueOfWithFunctionSlotCheck')],
 'abstract interpretation of the SSA form of the frame operations and of function application over symbolic frames of bounded shape, results and changed slots compared with the definition on every path',
 'Frames and parents of bounded number, slot values symbolic, slot lookup in the order in which parents are listed (the real order among several parents is that of a Go map and not specified). Two processes calling one function as a slot and as a plain function at once share one flag in the function and are not covered.')

claim('C14', 'Only operations whose name ends in ! change an existing value',
 'A list, pair, number, string, byte array, frame, function or macro that exists is changed in place only by an operation whose name ends in "!" (and by acons, which sets the entry of an alist that has the key already). Every other builtin and special form leaves all values it can reach as they were and builds new ones: in particular append, reverse, sort, the set and list operations, replace-byte, append-bytes, definition, binding and application never alter their arguments, the program text, or a function that is defined or called. What copy returns shares no part that can be changed with the original, and a new byte array or frame never shares its contents with another one.',
 ['inputs', 'programs', 'histories'], 'every builtin and special form not named with "!", every function of the evaluator, every legal number of arguments of any kind, every path',
 'An operation that alters its argument gives the right result; the damage shows later, when the script uses the old value again, and only for the shapes of argument that take the destructive path.',
 ['data.go', 'frame.go', 'prim_*.go', 'function.go', 'util.go'],
 [('list operations', 'data.go: Append, Copy, Reverse, RemoveFromListBang; prim_list_manipulation.go; prim_list_set.go'), ('byte arrays', 'prim_bytearray.go; prim_list_access.go: TakeImpl, DropImpl'), ('frames', 'frame.go: Clone')],
 'path-sensitive abstract interpretation of the SSA form with a freshness (allocated-here) provenance domain; every store into a value, table or byte array is an obligation',
 'Bindings of environments (see C05, C11), marks in functions that scripts cannot see, process objects and host objects are not values in this sense. That an operation with "!" changes the right part is decided under C11, C21 and C25.')

# ---- not applicable -------------------------------------------------------

na('N30', 'What is printed reads back as an equal value',
 'Printing a value made of numbers, strings, symbols, booleans, lists, byte arrays and frames and reading the text gives an equal value.',
 ['inputs'], 'every printable value',
 'The set of values is unbounded and recursive.',
 ['data.go', 'parser.go', 'tokenizer.go'],
 [('printing', 'data.go: String'), ('reading', 'parser.go, tokenizer.go')],
 'A round trip through two recursive string transducers over unbounded text; the value of every intermediate string matters, which no static argument in reach bounds. Each direction is checked against the notation by itself (C15 reading, C19 printing) on bounded texts and values; the round trip of every value is not claimed.')

na('N31', 'Floating-point results are as accurate as the operation allows',
 'The mathematical builtins return the correctly rounded result where Go does, and printing a float loses no more digits than its format says.',
 ['inputs'], 'all float operands',
 'Accuracy depends on the operand.',
 ['prim_math.go', 'data.go'],
 [('math builtins', 'prim_math.go'), ('printing floats', 'data.go: String')],
 'Quantifies over numerical values; the identity of the operation is decided under C16, its accuracy cannot be decided from the source of golisp.')

na('N32', 'Deep recursion and large data neither crash nor exhaust memory',
 'A script that recurses deeply, or asks for a huge string, list, array or channel, gets an error rather than bringing the process down.',
 ['inputs', 'programs'], 'every script',
 'Needs sizes beyond any test.',
 ['function.go', 'prim_bytearray.go', 'prim_channel.go', 'prim_string.go'],
 [('application', 'function.go: internalApply'), ('allocations', 'prim_*.go')],
 'Quantifies over runtime stack and heap sizes. golisp has no tail calls and no allocation limit, so as a property it is false by design.')

na('N33', 'Timed operations take the time they are given',
 'sleep, schedule, reset-timeout and proc-sleep wait neither noticeably less nor more than the given time.',
 ['schedules'], 'all delays and loads',
 'Timing is not reproducible.',
 ['prim_concurrency.go', 'prim_system.go'],
 [('timers', 'prim_concurrency.go: ScheduleImpl, ProcSleepImpl')],
 'Timing is a runtime quantity. That the delay is the argument in milliseconds is decided under C09.')

na('N34', 'Variables shared by processes behave as if used one at a time',
 'Reads and writes of one variable, list or byte array by several processes are linearizable.',
 ['schedules', 'histories'], 'all interleavings',
 'Needs a particular interleaving.',
 ['symbol_table_frame.go', 'data.go'],
 [('the value in a binding', 'symbol_table_frame.go: Binding.Val')],
 'False by design: cells of bindings, pairs and arrays carry no lock (scripts are to use the atomic builtins). What is synchronised by design is decided under C06 and C08.')

na('N35', 'Operations on cyclic lists end',
 'length, equality, printing and traversal of a list made cyclic with set-cdr! come to an end.',
 ['inputs'], 'all cyclic structures',
 'Tests make no cycles.',
 ['data.go', 'list_access.go'],
 [('traversal', 'data.go: Length, IsEqual, String')],
 'False by design: traversals follow cdr to nil. Termination over arbitrary heaps is out of reach of a sound shape analysis here; for frames, where the code does detect cycles, it is decided under C21.')

na('N36', 'The REPL and the debugger behave as documented',
 'Commands typed at the REPL or debugger prompt do what the documentation says.',
 ['inputs', 'histories'], 'all command sequences',
 'Interactive.',
 ['repl.go', 'prim_debug.go'],
 [('repl', 'repl.go'), ('debugger', 'prim_debug.go')],
 'The behaviour lies in dialogue with a terminal library (liner); no stated guarantee goes beyond evaluation (C12) and restriction (C04), which are decided.')
