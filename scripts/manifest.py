#!/usr/bin/env python3
# Writes MANIFEST.json from the table below; properties not claimed go to not_applicable.
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root/'properties.jsonl').read_text().splitlines() if l.strip()]
TABLES = "decoding of the serialized ATN tables to grammar expressions; automata equality/inclusion on them"
CONF = "product walk of the generated rule methods with the tables' automaton"
AI = "abstract interpretation of the callbacks' SSA over all syntax trees of the decoded grammar (fixpoints, rule summaries, symbolic texts and numbers)"
SPEC = AI + "; piecewise comparison with an attribute-grammar specification"
EFF = "whole-program effect, taint and initialisation-order analysis over SSA and the call graph"
TRUST = " Trusts the ANTLR runtime and the modelled standard library; comments nested three deep or more are taken like less deep ones."
CLAIMED = {
 'C01': ('other', AI, "No panic on any path of any tree, for both entry points." + TRUST),
 'C02': ('other', AI, "Outcomes classified by recognition error, impossible date, empty input." + TRUST),
 'C03': ('other', TABLES + "; " + CONF + "; " + AI, "Token coverage of all of Unicode, end-of-input on every path of the start rules, input handed over whole. Trusts the ANTLR runtime."),
 'C04': ('translation_validation', TABLES + "; " + CONF, "Rule-by-rule equality of .g4 files, tables and generated methods. Trusts the ANTLR runtime."),
 'C05': ('other', "context-free inclusion of the RFC 5322 section 3 grammar in the decoded tables by automata inclusion under abstraction; " + AI, "Folding white space, comments, quoted and literal content are abstracted, each abstraction justified by its own inclusion; years of four digits." + TRUST),
 'C06': ('other', SPEC, "List structure over all lists and groups." + TRUST),
 'C07': ('other', SPEC, "Every address, piece by piece." + TRUST),
 'C08': ('other', SPEC, "Every name, piece by piece; after an empty first quoted word a space may or may not follow." + TRUST),
 'C09': ('other', SPEC, "Differences that disappear without quoted strings." + TRUST),
 'C10': ('other', SPEC, "Decoder as an operation that succeeds or fails; what it computes is the standard library's." + TRUST),
 'C11': ('other', SPEC + "; taint of decoded text", "Decoded text reaches names only." + TRUST),
 'C12': ('other', SPEC + "; taint of comment text", "Comments and folding white space contribute nothing." + TRUST),
 'C13': ('other', AI + "; character-set abstraction of texts", "No CR, LF, NUL in what reaches addresses and undecoded names." + TRUST),
 'C14': ('other', SPEC + " over linear expressions in the digits", "All digits, months, present or absent parts." + TRUST),
 'C15': ('other', SPEC + " over linear expressions in the digits", "All numeric offsets and zone names." + TRUST),
 'C16': ('other', SPEC + " over linear expressions in the digits", "All two-digit years; clock reads are unknowns." + TRUST),
 'C17': ('other', TABLES + "; " + SPEC + " with letters of unknown case", "All case variants." + TRUST),
 'C18': ('other', SPEC + " over linear expressions in the digits", "Acceptance conditions against calendar, clock and zone ranges." + TRUST),
 'C19': ('other', EFF, "Ambient inputs, map order, history." + " The runtime's own caches are trusted."),
 'C20': ('other', EFF, "Shared memory, once-guarded tables, retention of results. The runtime's own caches and locks are trusted."),
 'C21': ('other', EFF + "; " + AI, "Output, files, network, settings, goroutines; console listeners removed."),
 'C22': ('other', TABLES + "; nullability and left-recursion analysis; ranking of loops and recursions in handwritten code", "Progress of every grammar loop and of every handwritten loop." + " Trusts the ANTLR runtime."),
 'C23': ('other', TABLES + "; " + SPEC, "Character classes over all of Unicode; results are the specified pieces unchanged." + TRUST),
 'C25': ('other', "circles among the decoded grammar's rules and in the call graph of parser and callbacks; recursions bounded by " + AI, "Recursion only in bracketed rules, for parts of the syntax tree, or at most 20 deep on everything that can be parsed. The ANTLR runtime's own stack use (tree walk as deep as the tree, prediction) is trusted."),
}
NA = {
 'C24': "time and memory bounds depend on the runtime prediction cache and full-context lookahead of the ANTLR library; no static argument in reach bounds them",
 'C26': "formatting is done by net/mail outside this repository; the round trip relates two unbounded string functions and no static argument in reach decides it",
 'C27': "decoding is delegated to mime.WordDecoder of the standard library; what it computes is not decided by this repository's source (that it is called on the right text with the right reader is C10)",
}
PENDING = "the static check is being built"
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        lv, t, n = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough', 'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': lv, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
(root/'MANIFEST.json').write_text(json.dumps(m, indent=1)+'\n')
