package main

var metas = map[string]propMeta{
	"C01": metaC01,
	"C03": {
		Explain: "Every builtin (every legal number of arguments of unknown kind) and every exported function that can fail is interpreted abstractly along every path; each call that can fail is split into success and failure.",
		Rule:    "stops: no evaluation or application follows a failed step; reported: a path on which a step failed ends in a non-nil error; process-error: a goroutine in which a step failed prints it.",
		Assume:  []string{"a function whose last result is an error reports failure only through it"},
	},
	"C06": {
		Explain: "Every function that touches a shared table or a lock is interpreted along every path from every entry point, with the set of held locks (object identity and mode).",
		Rule:    "guarded-access: an access to a map that lies beside a lock holds the lock of the same object (write mode for writes) unless the object is not yet visible to others; guarded-global: all accesses to a package-level map written after start-up share one lock; released: no lock is held at the end of an entry point or process and none is released twice.",
		Assume:  []string{"start-up (package init and InitLisp) runs before any process"},
	},
	"C07": {
		Explain: "As for C06; each acquisition while another lock is held is an obligation, with acquired-lock summaries for calls.",
		Rule:    "nesting: a second lock of the same class is taken only following the enclosing-environment link, which is immutable and acyclic; order: the classes nest acyclically; blocking: no script code, channel operation, wait or unknown function while a lock is held.",
		Assume:  []string{"SymbolTableFrame.Previous is only set at construction (checked), so it leads to an older environment"},
	},
	"C08": {
		Explain: "The atomic builtins, interning and every writer of a shared table are interpreted along every path.",
		Rule:    "atomic-single/operands/result: exactly one sync/atomic call of the builtin's name on its object with its arguments in order, its result returned; insert-absent, interned-result: a symbol is entered only where found absent in the same critical section, and the one in the table is returned; one-section-update: no table entry is computed from a read of an earlier critical section; atomic-access: no plain access to storage accessed atomically.",
		Assume:  []string{"sync/atomic and sync behave as documented"},
	},
	"C09": {
		Explain: "The process builtins and the goroutine bodies they start are interpreted along every path, with panics, deferred calls and recover.",
		Rule:    "runs-once, delivers-once, join-once, self-join, never-waits, buffered, process-outcome as in the statement.",
		Assume:  []string{"Go channel, timer and goroutine semantics", "evaluating the function returns, fails or panics"},
	},
	"C10": {
		Explain: "Each channel builtin is interpreted along every path for a channel in any state.",
		Rule:    "channel-operand: the operation works on the channel and the value handed in; channel-outcome: a success follows exactly one operation of the right kind and the result says what it did; an error follows none (or the detected close); channel-size.",
		Assume:  []string{"Go channel semantics"},
	},
	"C12": {
		Explain: "The application functions are interpreted abstractly along every path on argument and parameter lists of each shape; what they evaluate, bind and return is compared with the specification. The call graph of every ordinary builtin is searched for evaluation of its arguments.",
		Rule:    "apply: the trace of each path is one the specification allows and each allowed one occurs; evaluated-once: no ordinary builtin but eval, global-eval and load reaches an evaluation of a value; form: exactly the special forms are registered as such.",
		Assume:  []string{"the debugger is not active"},
	},
	"C04": {
		Explain: "Applying a primitive is followed for every combination of restricted builtin, restricted environment and special form; every path to a call of an implementation, every store of a restriction flag, parent or implementation and every new environment is examined; the call graph of every unrestricted builtin is searched for what the restricted ones guard.",
		Rule:    "refused: a restricted builtin in a restricted environment fails and nothing is evaluated; body-guarded: an implementation is called only where builtin or environment was found unrestricted; inherited: a new environment has its parent's restriction; restriction-kept: no flag is lifted; registered-restricted: the restricted builtins are registered so; no-outside-effect, own-environment: no unrestricted builtin and no evaluator function reaches files, programs, the debugger or an outer environment.",
		Assume:  []string{"the debugger is off unless a restricted builtin turned it on"},
	},
	"C05": {
		Explain: "Every builtin, evaluator function and exported environment operation that reaches a binding is followed on every path with symbolic names and environments; at each write the binding must be known unprotected or new, and an entry is added only where the name was found unbound. Definition and assignment are also followed in every chain of environments of bounded depth with the name protected somewhere.",
		Rule:    "write-unprotected: a store to a binding happens only where its Protected field was read as false or the binding is new; entry-kept: the table of an environment is never replaced, deleted from or overwritten at a bound name; kept: in each chain, result and changed bindings equal the definition.",
		Assume:  []string{"host code calls BindToProtected, SetBindingAt and DeleteBinding only as set-up", "no other process redefines the name between test and write"},
	},
	"C11": {
		Explain: "Each lookup, definition, assignment and environment builtin is followed in every chain of environments of bounded depth, with the name bound, protected, unassigned or unbound at each level and frames in between; the result and every changed entry are compared with the definition.",
		Rule:    "scope: on every path result and changes are exactly those of the definition.",
	},
	"C21": {
		Explain: "Slot lookup, the frame builtins, name lookup and function application are followed on every path for frames of each shape with symbolic slot values, and functions of each environment and caller; results, changed slots, the environment each body is evaluated in and the marks of slot functions are compared with the definition.",
		Rule:    "frame: on every path the trace, the changes and the result are exactly those of the definition, and each occurs.",
		Assume:  []string{"no other process changes the frames meanwhile", "the set of visited frames (github.com/SteelSeries/set) is a set"},
	},
	"C13": {
		Explain: "Each way of registering a builtin is followed with each description of its number of arguments in use (and further ones a host may use), then a call with each number of arguments; functions and macros are made with parameter lists of each length and called with each number of arguments; the declared number of each builtin is compared with its documentation.",
		Rule:    "arity: the declared numbers are those the builtin takes; count: with such a number exactly the arguments are evaluated and the implementation is reached, with any other the call fails and nothing was evaluated; parameters: likewise for functions and macros.",
		Assume:  []string{"strings, strconv and fmt compute what they document for the constant descriptions"},
	},
	"C14": {
		Explain: "Every builtin not named with \"!\" and every function of the evaluator that reaches a store into a value is interpreted along every path; each such store must go to an object made since the builtin was entered. The copying function is followed for a value of each kind.",
		Rule:    "unchanged: the object stored into (pair, value, payload, byte array, slots, function, macro) was made on this path; own-storage: a new byte array or frame gets storage made on this path; copied: each part of a copy is itself a copy.",
		Assume:  []string{"acons sets an existing entry, as documented by its tests", "Assoc and IsEqual change nothing (they are analysed on their own)"},
	},
	"C16": {
		Explain: "Each numeric builtin is evaluated symbolically for integer and float operands; the result of each path is normalised and compared with the operation of its name.",
		Rule:    "arith, compare: the value (or the condition for true) on every path equals the specified term; a path fails exactly where an operand is no number or a divisor is zero.",
		Assume:  []string{"library functions compute what they document"},
	},
	"C17": {
		Explain: "Accessors on lists of symbols, predicates on each kind and string builtins on symbolic strings are evaluated symbolically; each path's result is compared with the meaning of the name.",
		Rule:    "accessor, predicate, string: the value on every path equals the specified one; a wrong kind of operand is an error.",
		Assume:  []string{"library functions compute what they document"},
	},
	"C23": {
		Explain: "Each special form is interpreted abstractly on its clause shapes with symbolic sub-expressions; every path's trace of evaluations, tests and bindings and its result is compared with its definition.",
		Rule:    "form: the trace of each successful path is one the definition allows and each allowed one occurs.",
	},
	"C26": {
		Explain: "Each byte array builtin is followed along every path on arrays of each length in the bound, holding unknown bytes, with each index and count in and out of range and each kind of element; the bytes of the result and of every argument afterwards are compared with the definition.",
		Rule:    "bytes: on every path the result holds exactly the bytes of the definition, is a new array unless the builtin is named with !, and every argument holds what it held (or, for !, what the definition says); what is out of range or no byte is an error, and nothing else is.",
	},
	"C27": {
		Explain: "Equality is followed along every path for pairs of values of each structure in the bound (lists, dotted and nested lists, alists, frames, byte arrays, every pair of kinds) with unknown parts; comparing two unknown parts is a question answered both ways.",
		Rule:    "equal: true is answered only where every pair of corresponding parts was found equal, false only where the structures cannot be equal or some corresponding parts were found different; atoms are compared by kind and contents; the comparison builtins answer it, or its negation.",
	},
	"C28": {
		Explain: "The I/O builtins are interpreted along every path; each library call that opens, closes, reads or writes is an event that names the port, the file and the exact text as a term over the arguments, and may fail.",
		Rule:    "io: every successful path performs exactly the events the definition of the builtin gives, on exactly the port it names, and a failed event is an error; arguments of the wrong kind are errors before anything is opened, written or closed.",
	},
	"C20": {
		Explain: "The ways to apply a function, builtin or special form are interpreted along every path with the profiler on or off, writing to a file or to standard output, and the text written is derived as a term; profile is interpreted with every step also failing.",
		Rule:    "profile: a path that reaches the body writes exactly one record before and one after it, on the port of the profiler, with the type and name of what is applied and one number drawn for it; other paths, and those with the profiler off, write none; profile turns it on before and off after its expression on every path.",
	},
	"C24": {
		Explain: "The functions that evaluate a program (from a string, a file, or the builtin load) are interpreted along every path; the reader gives up to four forms, then comes to the end, and may fail at any point, as may each evaluation.",
		Rule:    "program: each form read is evaluated once, in the environment given, before the next is read; the first failure ends the matter and is reported; otherwise reading goes on to the end and the value of the last form is the result.",
	},
	"C29": {
		Explain: "format is interpreted along every path for control strings with each substitution, alone, between text and in every ordered pair, with arguments of known kinds and unknown contents; the text each path produces is derived as a term over the arguments.",
		Rule:    "format: the text is the one the control string describes, given on each path by whether an argument fills its field; nothing is written where a string is asked for, and exactly that text where a port is named; unknown or unfinished substitutions, missing and left-over arguments are errors.",
	},
	"C18": {
		Explain: "The conversions to and from JSON are interpreted along every path on abstract values and abstract JSON with unknown numbers, strings and booleans; the structure each path builds is compared with that of the input. Questions a path asks about an unknown number are evaluated for representatives of each class of number.",
		Rule:    "json: the JSON (or the value) built is the one of the same structure; what cannot be written is an error, and a failed Unmarshal gives the empty frame.",
		Assume:  []string{"encoding/json writes and reads nil, bool, float64, integers, strings, []interface{} and map[string]interface{} as JSON", "package reflect reports on those as documented"},
	},
	"C19": {
		Explain: "String and PrintString are interpreted along every path on abstract values (unknown numbers, bytes and elements; strings of odd characters; lists, dotted and association lists and frames of them, nested), and the text put together on each path is compared with the notation of the value.",
		Rule:    "print: the text is the notation of the value, and for a float that of every class (infinite, not a number, with or without a point) the questions asked on the path leave open.",
		Assume:  []string{"Sprintf writes the decimal digits of an integer and the shortest digits of a float", "sort.Strings puts its texts in order", "a value of unknown kind inside another is printed as String prints it by itself"},
	},
	"C15": {
		Explain: "The parser is interpreted along every path on sequences of tokens, and the reader as a whole on sequences of characters, each known or any character of a class; the values, the errors and the place where reading stops are compared with the grammar.",
		Rule:    "read: the value, the end and the number of tokens used are those the grammar gives, an incomplete or illegal text is an error, and a text of several expressions gives each once in order; characters: likewise for texts, with the literals cut out of the text where the tokens begin and end.",
		Assume:  []string{"bufrr.Reader gives the runes of the text one after another, then -1, and UnreadRune takes the last one back", "Sscanf and ParseInt turn the digits they are given into the number they write or fail", "unicode and strings classify characters as documented"},
	},
	"C25": {
		Explain: "Each list builtin is interpreted abstractly on lists of symbols; calls made, comparisons and the shape of the result are compared with its definition.",
		Rule:    "list: the trace and result of each successful path are those the definition gives for that pattern of answers, and each occurs.",
	},
}

// minimums: how many instances of a rule must be found, at least, for its
// verdict to mean anything.
var minimums = map[string]map[string]int{
	"C01": {"cast": 20},
	"C03": {"reported": 200, "stops": 20},
	"C06": {"guarded-access": 10, "released": 20, "guarded-global": 1},
	"C07": {"nesting": 5},
	"C08": {"atomic-single": 5, "insert-absent": 1, "one-section-update": 2},
	"C04": {"refused": 16, "body-guarded": 1, "inherited": 8, "registered-restricted": 17, "no-outside-effect": 200},
	"C05": {"write-unprotected": 3, "entry-kept": 1, "kept": 200},
	"C11": {"scope": 700},
	"C21": {"frame": 1000},
	"C12": {"apply": 100, "evaluated-once": 200, "form": 200},
	"C13": {"arity": 300, "count": 300, "parameters": 200},
	"C14": {"unchanged": 20, "own-storage": 3, "copied": 5},
	"C16": {"arith": 300, "compare": 40},
	"C17": {"accessor": 40, "predicate": 200, "string": 100},
	"C23": {"form": 40},
	"C25": {"list": 80},
	"C26": {"bytes": 80},
	"C27": {"equal": 80},
	"C20": {"profile": 180},
	"C24": {"program": 7},
	"C28": {"io": 60},
	"C29": {"format": 500},
	"C18": {"json": 2500},
	"C19": {"print": 5000},
	"C15": {"read": 10000, "characters": 10000},
	"C09": {"delivers-once": 2, "join-once": 1, "process-outcome": 4, "buffered": 1},
	"C10": {"channel-outcome": 3, "channel-operation": 2},
}
