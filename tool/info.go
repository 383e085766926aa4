package main

type propertyInfo struct {
	level   string
	explain string
	assumes []string
}

const (
	asRuntime = "the ANTLR runtime (parser, lexer, prediction, tree walker) behaves as its tables and documentation say"
	asStdlib  = "the standard library behaves as documented (modelled functions: strings, strconv, time, unicode, mime and the like)"
	asGo      = "the Go compiler and go/types, golang.org/x/tools/go/ssa represent the source faithfully; no unsafe or reflect tricks in the handwritten code"
	asNest    = "comments nested three deep or more are interpreted like those nested less deep (the syntax tree is unfolded to that depth for comments only)"
	asTables  = "recognition is what the decoded tables describe (decided by C04)"
)

const interpText = "Abstract interpretation of the SSA form of the parse function, the tree walk and every callback over all syntax trees of the decoded grammar: " +
	"each rule's subtree is interpreted once per abstract situation (loops to a fixpoint with joins, rules by summaries), texts are sequences of opaque pieces with their token classes, numbers are linear expressions over digits, path conditions are kept. "
const ghostText2 = "An attribute-grammar specification of RFC 5322 results is computed alongside on the same trees; each outcome of the program is compared with it piece by piece. "

func info(level, explain string, assumes ...string) propertyInfo {
	return propertyInfo{level, explain, assumes}
}

var propInfo = map[string]propertyInfo{
	"C01": info("other", interpText+"Obligations: no explicit panic, index, slice, conversion, nil dereference or division can fail on any path of any tree, including error and missing nodes only where recognition reported no error.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C02": info("other", interpText+"Every outcome is classified by what happened on the way (recognition error, impossible date, empty input); the returned pair must match.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C03": info("other", "Decoded lexer tables: every code point is covered by exactly one single-character token, none skipped. Decoded parser tables: every path of the start rules ends with end-of-input, none contains it before. Generated methods conform to the tables. Interpretation of the parse functions: the recogniser gets the input itself and is not reconfigured.", asRuntime, asStdlib, asGo),
	"C04": info("translation_validation", "The .g4 files and the serialized tables are each turned into grammar expressions; each rule is compared by automata equality (phrases), alternative order and greediness. Each generated rule method is walked in product with the tables' automaton, operation by operation.", asRuntime, asGo, "semantics of .g4 notation as documented by ANTLR 4"),
	"C05": info("other", "Inclusion of RFC 5322 section 3 (with RFC 6532 and RFC 2047 in phrases) in the decoded tables' grammar: each reference rule is included in the corresponding decoded rule by automata inclusion, with folding white space, comments, quoted and literal content as symbols justified by their own inclusions; character classes by set equality. Interpretation shows that what is recognised is not refused later.", asRuntime, asStdlib, asGo, asNest, "years of exactly four digits (the grammar has no longer ones; RFC 5322 allows 4*DIGIT)"),
	"C06": info("other", interpText+ghostText2+"Obligations: the returned list is one entry per mailbox node, in order.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C07": info("other", interpText+ghostText2+"Obligations: the address of every returned entry is the specified sequence of pieces.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C08": info("other", interpText+ghostText2+"Obligations: the name of every returned entry is the specified sequence of pieces.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C09": info("other", interpText+ghostText2+"Obligations: no difference that disappears when quoted strings are left out of the trees.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C10": info("other", interpText+ghostText2+"Decoding is an operation that either yields decoded text or fails; the decoder's charset reader must be the package variable's current value; differences that disappear without encoded words are reported.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C11": info("other", interpText+"Taint: decoded text carries its origin, and may reach names only, never addresses, the recogniser or a decision about the list.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C12": info("other", interpText+ghostText2+"The specification ignores comments and white space outside quoted strings; in addition a taint analysis shows that no text of a comment reaches a result.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C13": info("other", interpText+"Each text carries the set of characters it may contain, refined by the operations that remove characters; texts that reach addresses and undecoded names must not contain CR, LF or NUL.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C14": info("other", interpText+"Numbers are linear expressions over the digits of the tree; the fields given to time.Date must equal those of the specification on every feasible path.", asRuntime, asStdlib, asGo, asNest, asTables, "second 60 is the next minute's second 0 in Go's time"),
	"C15": info("other", interpText+"As C14, for the zone offset, over all digits and all zone names.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C16": info("other", interpText+"As C14, for years of two digits, over all values; three-digit years add 1900.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C17": info("other", "Letter tokens cover both cases (table decoding). "+interpText+"Letters have a case unknown to the program unless it folds them; fields must equal the specification's in every case.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C18": info("other", interpText+"The specification's calendar, clock and zone ranges are compared with the path conditions under which the program accepts.", asRuntime, asStdlib, asGo, asNest, asTables),
	"C19": info("other", "Effect analysis over everything reachable from the entry points in the module: ambient inputs (clock, local zone, environment, randomness, files, reflection), order-dependent map iteration, shared memory read after being written outside initialisation.", asStdlib, asGo, asRuntime, "the runtime's prediction caches (shared, filled on demand, mutex-guarded) do not change results"),
	"C20": info("other", "Effect analysis: memory reachable from package-level variables is not written while parsing; lazily built tables are written under their sync.Once and read after it; results and recognisers are allocated per call and not retained.", asStdlib, asGo, "the ANTLR runtime's shared caches are guarded by its own locks"),
	"C21": info("other", "Effect analysis: no reachable handwritten or generated code calls an output, file, network, process or logging function, stores to package-level variables or starts a goroutine. Interpretation: the runtime's console listeners are removed from lexer and parser before recognition.", asStdlib, asGo, asRuntime),
	"C22": info("other", "Decoded tables: no left recursion, no loop with an empty body, generated loops conform. Handwritten code: every loop and every recursion reachable from the entry points has a decreasing measure.", asRuntime, asStdlib, asGo),
	"C23": info("other", "Decoded tables: one token for all non-ASCII characters, in the five classes and nowhere lost. "+interpText+ghostText2+"Texts in results are the specified pieces unchanged.", asRuntime, asStdlib, asGo, asNest),
	"C25": info("other", "Decoded tables: without the rules that begin and end with a bracket of their own, no rule contains itself. Call graph of the generated and handwritten code (interfaces resolved to every own type, the tree walk to every callback): without the methods of those rules, no circle of calls, other than descents of the syntax tree and recursions the interpretation of every input finds bounded.", asRuntime, asStdlib, asGo, "the ANTLR runtime recurses along the syntax tree and the nesting of rules only"),
}
