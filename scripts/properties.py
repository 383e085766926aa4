import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["return values of ParseAddressList / ParseDateTime"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H=["parser.go","walker.go"]
p("C01","Parsing never panics",
 "For every input string, parsing an address list and parsing a date-time return to the caller with a result or an error. No input, well-formed or not, makes either of them panic (no index or slice out of range, no failed internal conversion, no nil dereference, no unbalanced internal bookkeeping).",
 ["inputs"],"every string, for both entry points and every syntax tree the grammar can produce",
 "About 140 hand-picked strings are run; whether a callback can pop an empty stack or slice past the end depends on tree shapes no test enumerates.",
 H+["offset.go","year.go"],[("balanced enter/exit of every node","walker.go enter/exit/parent and all Enter*/Exit* callbacks"),("tree is only walked when recognition reported no error","parser.go")],
 [("node stack","one entry per open syntax-tree node","walker.go nodes")])
p("C02","An error is reported exactly when the input is unacceptable",
 "A malformed address list or date-time always gives a non-nil error, together with no addresses (or the zero time), and a well-formed one always gives a nil error together with its result; no error noticed while recognising or interpreting the input is lost, cleared or returned next to a partial result. The empty string gives, without error, an empty non-nil list (or the zero time).",
 ["inputs"],"every string; every point at which recognition or interpretation can fail",
 "Rejection is tested on 8 strings. Whether any failure point forgets to report is a question over all paths, not over samples.",
 H+["month.go","obs_zone.go","offset.go","date_time.go"],[("error listener stores the error","walker.go SyntaxError"),("error checked before and after the walk","parser.go")],
 [("error slot","first problem seen, never cleared","walker.go err")])
p("C03","The whole input is recognised, character by character",
 "Every character of the input takes part in recognition: nothing is trimmed, normalised, truncated, skipped or discarded before or during recognition, whatever the character. A string that merely starts with, ends with or contains a well-formed address list or date-time, with anything else around it, is rejected rather than accepted in part.",
 ["inputs"],"every string and every Unicode character at every position",
 "Tests contain a handful of Latin letters outside ASCII and no trailing garbage; dropped characters only show on the characters that are dropped.",
 ["parser.go","parser/rfc5322_lexer.go","parser/rfc5322_parser.go","RFC5322Lexer.g4","RFC5322Parser.g4"],
 [("lexer maps every character to one token","parser/rfc5322_lexer.go tables"),("start rules end at end-of-input","parser/rfc5322_parser.go AddressList/DateTime"),("lexer and parser errors reach the caller","parser.go")])
p("C04","The recogniser is the documented grammar",
 "For every rule of the documented grammar, the recogniser shipped with the package accepts exactly the phrases the grammar describes, and resolves ambiguous phrases by the grammar's order of alternatives. The grammar files, the prediction tables and the generated recogniser code agree with each other rule by rule.",
 ["inputs"],"every rule, every phrase of every rule, every decision point",
 "Tests touch a small part of the 67 rules; a table entry or a lookahead set that is wrong for one token in one rule is invisible unless that token is tried there.",
 ["RFC5322Lexer.g4","RFC5322Parser.g4","parser/rfc5322_lexer.go","parser/rfc5322_parser.go"],
 [("serialized prediction tables","parser/*.go serializedATN"),("generated rule methods","parser/rfc5322_parser.go")])
p("C05","Every strict RFC 5322 address list and date-time is accepted",
 "Every address list and every date-time that conforms to the current (non-obsolete) syntax of RFC 5322 section 3, with RFC 6532 internationalised text, is accepted without error, and each named character class admits exactly the characters the RFC gives it. Strictly RFC 2047 encoded words in display names are accepted as well.",
 ["inputs"],"every string of the RFC 5322 section 3 grammar",
 "The valid language is infinite; the tests sample under a hundred members of it.",
 ["RFC5322Lexer.g4","RFC5322Parser.g4","parser/rfc5322_parser.go","parser/rfc5322_lexer.go"],
 [("grammar rules are supersets of the RFC rules","RFC5322Parser.g4"),("character classes","atext/qtext/ctext/dtext/vchar rules")])
p("C06","One result per mailbox, in input order",
 "A successful address-list parse returns exactly one entry for every mailbox written in the input, in the order written, with the members of groups in place of the group. Group names, source routes, empty list elements and comments add no entry, and no mailbox is dropped, duplicated, merged or reordered, however many there are and however lists and groups are mixed.",
 ["inputs"],"every list length, every mixture of mailboxes, groups, obsolete lists and empty elements",
 "Tests compare as unordered sets and use at most three mailboxes; order and count over all lists are never checked.",
 ["address_list.go","address.go","group.go","group_list.go","mailbox_list.go","obs_mbox_list.go","mailbox.go"],
 [("every list node appends its children's entries in order","with* methods of the list nodes")])
p("C07","The address is local-part@domain as written",
 "Each returned address is the mailbox's local part, an at sign and its domain exactly as written, followed by a colon and the port when one is written, with comments and white space around the parts removed, dotted parts rejoined with single dots, and the source route ignored. A bracketed empty address gives the empty string. Nothing from any other mailbox, name or comment gets into it.",
 ["inputs"],"every local-part and domain form, current and obsolete, with comments and folding in every allowed place",
 "Each form is exercised once or never; combinations of forms with comments, routes and ports are unbounded.",
 ["addr_spec.go","local_part.go","domain.go","domain_literal.go","dot_atom.go","obs_local_part.go","obs_domain.go","angle_addr.go","obs_angle_addr.go","name_addr.go","mailbox.go","port.go"],
 [("attribute passing child to parent","with* methods of the address nodes")])
p("C08","The display name is assembled from its words",
 "Each returned name is the words of the display name in order, separated by exactly one space whatever white space or comments stood between them, except that a bare period or at sign attaches to its neighbours without spaces and adjacent encoded words are joined directly. A mailbox without a display name has an empty name, and no name leaks from one mailbox to another.",
 ["inputs"],"every sequence of words, periods, at signs, comments and white space",
 "About 30 names are tested; the spacing rules are a state machine over unbounded word sequences.",
 ["display_name.go","word.go","unspaced.go","name_addr.go","mailbox.go","atom.go"],
 [("spacing state","display_name.go withWord/withUnspaced")],
 [("pending no-space flag","a period or at sign was just seen","display_name.go unspaced")])
p("C09","A quoted string contributes exactly its content",
 "Wherever a quoted string is used, in a display name or a local part, it contributes exactly the characters between its quotes, in order: the backslash of each quoted pair is removed and the character after it kept, white space is kept including before the closing quote, and line folds are removed. Escaped control characters of the obsolete syntax are the only characters that may be dropped.",
 ["inputs"],"every sequence of text, quoted pairs and folding white space inside quotes",
 "One test has escapes, none has white space before the closing quote or folds.",
 ["quoted_string.go","quoted_value.go","quoted_content.go","quoted_pair.go","quoted_char.go","qtext.go","fws.go"],
 [("content concatenation in order","quoted_value.go, quoted_content.go")])
p("C10","Encoded words in names are decoded, or kept verbatim",
 "Every encoded word of a display name is replaced by its decoded text, using the caller-supplied charset reader that is current at the time of the call, and an encoded word that cannot be decoded is kept exactly as written. Decoding never turns a well-formed address list into an error, and never affects the other words.",
 ["inputs","configurations"],"every encoded word, every charset reader including one that fails",
 "No test sets a charset reader or uses an undecodable word.",
 ["encoded_word.go","word.go","display_name.go","parser.go"],
 [("decode with fallback","encoded_word.go EnterEncodedWord")])
p("C11","Decoded text never reaches an address or the list structure",
 "Text produced by decoding an encoded word appears only in display names. It never becomes part of an address (an encoded word in a local part stays as written), and it is never re-interpreted as syntax, so it cannot add, remove or alter mailboxes.",
 ["inputs"],"every position at which the grammar admits an encoded word",
 "No test puts an encoded word in a local part; decoded specials such as an at sign or comma are where the harm is.",
 ["encoded_word.go","word.go","obs_local_part.go","local_part.go"],
 [("raw text kept for local parts","word.go, obs_local_part.go")])
p("C12","Comments and folding white space are invisible",
 "Adding, removing or changing comments (nested, with quoted pairs, with any text) or folding white space wherever the grammar allows them outside quoted strings and domain literals never changes the names, addresses or their order, nor any date-time field. Comment content never appears in any result.",
 ["inputs"],"every comment content and every position of comments and folding white space",
 "Around ten comment placements are tested; there are dozens of places and comments nest.",
 ["walker.go","word.go","local_part.go","domain.go","quoted_pair.go","fws.go","quoted_value.go"],
 [("children deliver only to parents that ask for them","Exit* callbacks")])
p("C13","No CR, LF or NUL in addresses or undecoded names",
 "No returned address ever contains a carriage return, line feed or NUL character, and no returned name does unless it came out of a decoded encoded word, whatever folding, quoting or escaping the input uses. The results can therefore not be used to inject header lines.",
 ["inputs"],"every string",
 "No test has a line break inside a quoted string, quoted pair or domain literal.",
 ["fws.go","domain_literal.go","quoted_pair.go","quoted_value.go"],
 [("folds removed from white space and literals","fws.go, domain_literal.go"),("escaped control characters dropped","quoted_pair.go")])
p("C14","Each date-time field is taken from its own digits",
 "For every well-formed, valid date-time the returned time has exactly the written day, month, year (four digits), hour, minute and second, each taken from its own component; a missing second is zero and sub-second parts are zero. The day name and comments have no influence on it.",
 ["inputs"],"every date-time of the grammar, including one-digit days and hours, all months, absent day name or seconds, comments between components",
 "Four dates in about seven layouts are tested; six of the twelve months never appear.",
 ["date_time.go","day.go","month.go","year.go","hour.go","minute.go","second.go"],
 [("per-component callbacks deliver to the date-time node","day.go..second.go, date_time.go")])
p("C15","Zones give the right offset",
 "The returned time carries the written zone: a numeric offset of sign, two hour digits and two minute digits means that many hours and minutes east (plus or no sign) or west (minus, for both hours and minutes) of UTC, and the obsolete names UT, UTC, GMT, EST, EDT, CST, CDT, MST, MDT, PST and PDT have the offsets RFC 5322 gives them. Without a zone the time is in UTC.",
 ["inputs"],"every offset, every zone name in any case, absent zone",
 "Five offsets and three names are tested; EST, EDT, CST, CDT, MDT, PST, PDT and UT never are.",
 ["offset.go","obs_zone.go","zone.go","date_time.go"],
 [("offset arithmetic","offset.go EnterOffset"),("zone table","obs_zone.go EnterObsZone")])
p("C16","Two-digit years follow RFC 5322, whatever today's date",
 "A two-digit year from 00 to 49 means 2000 to 2049 and one from 50 to 99 means 1950 to 1999, as RFC 5322 section 4.3 lays down. The interpretation never depends on the current date, so the same text always denotes the same instant.",
 ["inputs","configurations"],"all 100 two-digit years, and every value of the system clock",
 "Tests use 06 and 97 only and run under one clock.",
 ["year.go"],[("century rule","year.go EnterYear")])
p("C17","Month and zone names are case-insensitive",
 "Day, month and zone names are recognised in any mixture of upper and lower case, and case never changes the date-time value obtained from them.",
 ["inputs"],"every case variant of every name",
 "All tests use the canonical spelling.",
 ["month.go","obs_zone.go","RFC5322Lexer.g4","parser/rfc5322_lexer.go"],
 [("letter tokens cover both cases","parser/rfc5322_lexer.go"),("names folded before comparison","month.go, obs_zone.go")])
p("C18","Impossible dates and times are rejected",
 "A date-time is accepted only if it is semantically valid in the sense of RFC 5322 section 3.3: the day exists in that month of that year, the time lies between 00:00:00 and 23:59:60, and the zone's minutes are at most 59. An impossible date-time is reported as an error and never silently turned into a different one.",
 ["inputs"],"every combination of syntactically possible field values",
 "No test has an out-of-range field.",
 ["date_time.go","offset.go","parser.go"],[("range checks","date_time.go ExitDateTime, offset.go EnterOffset")])
p("C19","Results depend only on the input and the charset reader",
 "The result of parsing is a function of the input string and of the configured charset reader alone. It does not depend on the clock, the local time zone, the environment, randomness, map iteration order, or on earlier or concurrent calls.",
 ["inputs","histories","configurations"],"every call history and environment",
 "Each test calls once in one environment; history and clock dependence cannot show.",
 ["parser.go","walker.go","year.go","date_time.go"],[("a fresh walker per call","parser.go"),("no ambient inputs in callbacks","all callback files")])
p("C20","Concurrent calls do not interfere",
 "Any number of goroutines may parse at the same time: calls share no mutable state of this package other than tables that are built exactly once, every call works on its own recogniser and walker, and the returned entries are freshly allocated and never shared with another call or retained by the package.",
 ["schedules","histories"],"all interleavings of any number of calls",
 "Tests are sequential.",
 ["parser.go","walker.go","parser/rfc5322_lexer.go","parser/rfc5322_parser.go"],
 [("per-call state only","parser.go"),("once-guarded tables","parser/*.go *Init")],
 [("static recogniser tables","grammar tables shared by all parsers","parser/*.go StaticData")])
p("C21","Parsing has no side effects",
 "Parsing writes nothing to standard output, standard error, logs, files or the network, changes no package-level setting (in particular not the charset reader) and starts no goroutine, whatever the input, including input it rejects.",
 ["inputs"],"every string, well-formed or not",
 "Tests do not look at standard error, where the recogniser's default listeners print.",
 ["parser.go","walker.go"],[("default console listeners are removed","parser.go")])
p("C22","Recognition and interpretation always terminate",
 "For every input, parsing finishes: every loop and every recursion of the recogniser consumes at least one character per round, and interpreting the recognised text takes a bounded number of steps per syntax-tree node.",
 ["inputs"],"every string",
 "A loop that consumes nothing hangs only on the inputs that reach it.",
 ["RFC5322Parser.g4","parser/rfc5322_parser.go","walker.go"],
 [("no nullable loop body, no left recursion","grammar"),("bounded loops in callbacks","callback files")])
p("C23","International characters are accepted and preserved",
 "Any Unicode character outside ASCII, in any plane, is accepted wherever RFC 6532 allows it (names, local parts, domains, quoted strings, comments, domain literals), and appears unchanged, in place, in the returned name or address.",
 ["inputs"],"every non-ASCII Unicode character at every position",
 "One test has non-ASCII letters, all below U+0800; none lies outside the basic plane.",
 ["RFC5322Lexer.g4","parser/rfc5322_lexer.go","RFC5322Parser.g4","parser/rfc5322_parser.go","atom.go","dot_atom.go"],
 [("one token class for all non-ASCII characters","parser/rfc5322_lexer.go"),("that class in atext, qtext, ctext, dtext, vchar","parser/rfc5322_parser.go")])
p("C24","Parsing time and memory grow moderately with input size",
 "The time and memory needed to parse an input are bounded by a low-degree polynomial of its length, for every input.",
 ["inputs"],"every string",
 "Benchmarks time a few short strings.",
 ["parser/rfc5322_parser.go"],[("adaptive prediction with caching","ANTLR runtime")])
p("C25","The call stack grows only with the nesting of comments",
 "While an address list or a date is parsed, the depth of the call stack depends only on how deeply comments are nested in the input, never on the input's length: addresses, group members, words, name parts, dotted parts of local parts and domains, routes, characters of atoms, quoted strings, literals and comments, digits and white space, however many, are handled by iteration, so that long flat inputs cannot exhaust the stack.",
 ["inputs"],"every input without deeply nested comments, whatever its length",
 "Tests parse inputs of at most a few hundred characters, where a recursion over the input's length would go unnoticed.",
 ["RFC5322Parser.g4","parser/rfc5322_parser.go","parser.go","walker.go"],[("repetitions in the grammar are loops, not recursive rules; only comment/ccontent recurse","RFC5322Parser.g4"),("callbacks work on one node each, called by the runtime's tree walk","walker.go and the Enter/Exit methods")])
p("C26","Formatting and reparsing gives the same mailboxes",
 "Writing the returned mailboxes in standard header form and parsing that text again gives the same names and addresses.",
 ["inputs"],"every successfully parsed address list",
 "No round-trip test exists.",
 ["parser.go"],[("none in this package: formatting is net/mail's","net/mail")])
p("C27","Encoded-word decoding is RFC 2047 correct",
 "The text obtained from a decodable encoded word is the text that RFC 2047 assigns to it for its charset and encoding.",
 ["inputs","configurations"],"every encoded word and charset",
 "Ten encoded words are tested.",
 ["encoded_word.go"],[("delegated to the standard library decoder","mime.WordDecoder")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), max(len(x['title']) for x in P))
