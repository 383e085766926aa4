package main

import (
	"fmt"
	"strings"
)

var rules = []*Rule{
	{"tables", "serialized tables decode into block-structured rules without actions, modes or predicates", "C03 C04 C22", 5, ruleTables},
	{"doc-tables", "each documented rule and the decoded tables have the same phrases, order and greediness", "C04", 130, ruleDocTables},
	{"code-tables", "every generated rule method does what the tables say, operation by operation", "C03 C04 C05 C12 C22 C23", 100, ruleConform},
	{"generated", "tables, constructors, contexts, listener dispatch and accessors of the generated code fit together", "C03 C04 C05 C22", 300, ruleGenerated},
	{"prediction", "nothing replaces the way the runtime follows the tables", "C04 C05", 100, rulePrediction},
	{"lex-total", "every Unicode character is exactly one token", "C03 C23", 70, ruleLexTotal},
	{"letters", "letter tokens cover both cases", "C17", 26, ruleLetters},
	{"classes", "each character class has exactly the characters of RFC 5322 and RFC 6532", "C05 C23", 5, ruleClasses},
	{"strict", "the strict syntax of RFC 5322 section 3 is included in the tables' grammar", "C05", 16, ruleStrict},
	{"eof", "start rules match up to the end of the input", "C03", 60, ruleEOF},
	{"progress", "no left recursion, no nullable loop body", "C22", 60, ruleProgress},
	{"loops", "every loop and recursion outside the recogniser has a measure that falls", "C22", 200, ruleLoops},
	{"depth", "nothing recurses other than nested comments", "C25", 300, ruleDepth},
	{"no-panic", "no callback, and neither parse function, panics on any tree the grammar can produce", "C01", 60, rulePanic},
	{"errors", "an error is returned exactly for rejected input and impossible date-times, without results; empty input is accepted", "C02", 60, ruleErrors},
	{"whole-input", "the recogniser is given the input itself, all of it, with its standard configuration", "C03 C23", 60, ruleWhole},
	{"accepted", "what the grammar accepts is not refused while it is interpreted", "C05", 60, ruleAccepted},
	{"mailboxes", "the returned list has one entry for every mailbox of the tree, in order", "C06", 50, ruleStructure},
	{"addresses", "every returned address is the one the specification computes from the tree", "C07 C23", 50, ruleAddresses},
	{"names", "every returned name is the one the specification computes from the tree", "C08 C23", 50, ruleNames},
	{"quoted", "quoted strings contribute what the specification says", "C09", 50, ruleQuoted},
	{"encoded", "encoded words contribute their decoded text or themselves, and the current charset reader is used", "C10", 50, ruleEncoded},
	{"decoded-flow", "decoded text flows into names only", "C11", 50, ruleDecoded},
	{"invisible", "comments and white space contribute nothing", "C12", 100, ruleInvisible},
	{"charset", "CR, LF and NUL do not occur in the texts that can reach addresses and names", "C13", 50, ruleCharset},
	{"date-fields", "every field of the returned time is the one the specification computes from the tree", "C14 C15 C16", 20, ruleDate},
	{"case", "names in any case give the fields the specification computes", "C17", 20, ruleCase},
	{"impossible", "a date-time outside the calendar, the clock or the zone range gives an error", "C18", 20, ruleImpossible},
	{"effects", "own code reads no ambient input, writes no shared memory and has no outside effect", "C19 C20 C21", 150, ruleEffects},
	{"console", "the listeners that print are removed before recognition", "C21", 60, ruleConsole},
}

func dumpCmd(c *Ctx, what string, args []string) {
	switch what {
	case "run":
		conf := runConf{fn: "ParseDateTime", rule: "dateTime", name: "date"}
		for _, a := range args {
			switch a {
			case "addr":
				conf.fn, conf.rule, conf.name = "ParseAddressList", "addressList", "addr"
			case "ghost":
				conf.ghost = true
			case "plain":
				conf.plainDecode = true
			case "attrs":
				conf.attrs, conf.plainDecode = true, true
			case "nocomments":
				conf.noComments = true
			case "nocfws":
				conf.noCFWS = true
			case "upper":
				conf.upper = true
			case "maskname":
				conf.maskName = true
			case "maskaddr":
				conf.maskAddr = true
			case "noencoded":
				conf.noEncoded = true
			case "noquoted":
				conf.noQuoted = true
			}
		}
		rr := c.analyse(conf)
		fmt.Println("undecided:", rr.undec, "outcomes", rr.outcomes, "states", rr.maxState, "steps", rr.steps, rr.dur)
		for _, r := range rr.reports {
			fmt.Printf("[%s] %s (%s)\n    %s\n", r.Kind, r.Construct, r.Pos, r.Detail)
			tr := r.Trail
			if len(tr) > 40 {
				tr = tr[len(tr)-40:]
			}
			fmt.Println("    ", tr)
		}
		for _, k := range sortedKeys(rr.stat) {
			if strings.HasPrefix(k, "un") {
				fmt.Println("  stat", k, rr.stat[k])
			}
		}
	case "grammar":
		g := c.recog().g
		for i, b := range g.Body {
			fmt.Println(g.Rules[i], ":", g.Str(b))
		}
	}
}
