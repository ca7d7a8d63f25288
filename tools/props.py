#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run to regenerate both."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, over_text, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe if isinstance(observe, list) else [observe], "hook_needed": ("-DREFLEX_VERIF_BLOCK: the buffer block size" if hook is True else hook or None)}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": over_text},
              "why_tests_cant": why, "anchors": a})


prop("R01", "Compiled FSM accepts exactly the language of the regex; first alternative wins",
     "For every supported regex, the finite state machine that reflex::Pattern compiles accepts exactly the strings the regex denotes: no string is lost, none is added. When several top-level alternatives accept the same string, the accept index is the number of the first of them. This includes the pattern options and inline modifiers i, s, x, q, counted repetition, lists and their complement, quoted text and character escapes.",
     ["inputs", "programs"], "all regexes (random deeply nested, with string alternatives mixed with regex alternatives) x all input strings (the product with the specification automaton is explored to a fixpoint, so strings of every length are covered)",
     "Tests compile a few hundred regexes and match one or two strings with each; the language of a regex is infinite and the compiler has separate paths (string tree DFA, hash tables, move merging) that only interact for particular regexes.",
     ["lib/pattern.cpp", "include/reflex/pattern.h"],
     [("parse", "lib/pattern.cpp Pattern::parse*"), ("compile", "lib/pattern.cpp Pattern::compile, compile_transition, compile_list"), ("assemble/encode", "lib/pattern.cpp Pattern::encode_dfa")],
     "opcode table of the Pattern (decoded), accept index per state")
prop("R02", "Regex conversion for Unicode preserves the regex's meaning",
     "The regex that Matcher::convert() produces from an accepted input regex matches, as UTF-8, exactly the strings of Unicode characters the input regex denotes under the given conversion flags and inline modifiers. Character lists, ranges over any code points, complements, intersections, subtractions, Unicode classes, escapes, quotations, free-spacing and case-insensitive mode keep their documented meaning. Surrogates and out-of-range encodings are never matched by a Unicode class or range.",
     ["inputs", "programs"], "all regexes over Unicode x all UTF-8 strings (product explored to a fixpoint) and all code point ranges",
     "Each of the 1.1 million code points lies in its own place of the 1-4 byte encodings; tests try a handful of characters while an error in one boundary of one range split goes unnoticed.",
     ["lib/convert.cpp", "lib/utf8.cpp", "lib/unicode.cpp", "unicode/*.cpp"],
     [("convert", "lib/convert.cpp convert()"), ("utf8 ranges", "lib/utf8.cpp utf8()"), ("character classes", "lib/unicode.cpp, unicode/")],
     "opcode table of the Pattern compiled from convert()'s result")
prop("R03", "scan() returns consecutive longest matches; matches() takes the entire input",
     "Repeated scan() partitions the input: each call returns the longest match that begins exactly where the previous one ended, with the accept index of the first alternative matching that text, and 0 with empty text once no non-empty match begins there. matches() is nonzero exactly when the pattern matches the input as a whole.",
     ["inputs", "programs"], "all regexes x all inputs, sampled with near misses of the regex's own strings",
     "Longest match and back-up after a failed longer attempt depend on the combination of pattern and input; unit tests fix both.",
     ["include/reflex/matcher.h", "include/reflex/absmatcher.h", "lib/matcher.cpp"],
     [("match", "include/reflex/matcher.h Matcher::match"), ("matches", "include/reflex/absmatcher.h matches()")],
     "accept(), begin()/size(), first() after every call")
prop("R04", "find() returns every leftmost-longest match and misses none",
     "Repeated find() returns, in order, the leftmost-longest non-overlapping matches of the pattern in the input, skipping exactly the text in which no match begins; with option N it also returns empty matches. It returns 0 only when no match begins in the rest of the input. Search acceleration (needle search, match prediction, bitap, Boyer-Moore, SSE/AVX variants) never changes the result.",
     ["inputs", "programs", "configurations"], "all regexes x all inputs x SIMD and portable search paths",
     "advance() has many specialised search loops selected by the pattern's literal prefix, minimum length and the CPU; a wrong bound loses matches only at particular offsets, for instance near the end of a block.",
     ["lib/matcher.cpp", "lib/matcher_avx2.cpp", "include/reflex/matcher.h", "include/reflex/pattern.h", "lib/pattern.cpp"],
     [("advance", "lib/matcher.cpp Matcher::advance"), ("prediction tables", "lib/pattern.cpp Pattern::gen_predict_match"), ("predict_match", "include/reflex/pattern.h")],
     "accept(), begin()/size(), first() after every call")
prop("R05", "split() pieces and delimiters reproduce the input",
     "Repeated split() returns the text between successive matches of the pattern: the pieces together with the matches between them are exactly the input, nothing is lost or repeated. The final piece is returned once, with accept() equal to Const::EMPTY, and after that split() returns 0.",
     ["inputs", "programs"], "all regexes (also ones matching the empty string) x all inputs",
     "The piece that ends at the end of input depends on how far the failed match attempt looked ahead.",
     ["include/reflex/matcher.h"], [("split", "include/reflex/matcher.h Matcher::match, Const::SPLIT")],
     "accept(), begin()/size(), first() after every call")
prop("R06", "Anchors and word boundaries hold exactly at the documented positions",
     "The anchors \\A \\z ^ $ (multiline) and \\b \\B \\< \\> restrict a match to positions where the preceding and following character satisfy them, for scan(), find(), split() and matches(), wherever the match starts, including after previous matches and at both ends of the input. Trailing context X(?=Y) matches X only where Y follows and does not consume Y. A negative pattern (?^X) suppresses matches of X.",
     ["inputs", "programs"], "all regexes with anchors at the ends of alternatives x all inputs and methods",
     "Anchors compile to meta transitions that compete with character transitions in the same state; only particular regex and input combinations expose a wrong priority.",
     ["include/reflex/matcher.h", "lib/pattern.cpp"], [("meta transitions", "include/reflex/matcher.h match() META opcodes"), ("lookahead", "include/reflex/matcher.h HEAD/TAIL")],
     "accept(), begin()/size(), first() after every call")
prop("R07", "Match results do not depend on how the input is delivered",
     "The sequence of results of scan, find, split, matches, input and rest is a function of the pattern and the input bytes alone. It is the same for memory, in-place buffer, C string, FILE and stream sources, for interactive and block-wise reading, for any number of bytes returned by each get(), for input continued by wrap(), and for any buffer shift or growth that this causes.",
     ["schedules", "inputs"], "all delivery schedules of an input x all sources x buffer block sizes",
     "Tests use inputs far smaller than the 256K block, so buffer shifting, growing and reads split inside a match are never executed.",
     ["include/reflex/absmatcher.h", "include/reflex/matcher.h", "lib/matcher.cpp"],
     [("grow/get/peek", "include/reflex/absmatcher.h grow, get_more, peek_more"), ("advance", "lib/matcher.cpp set_current_match + peek_more")],
     "results of every call", [("buf_,txt_,cur_,pos_,end_,num_", "window of the input in the buffer", "include/reflex/absmatcher.h")], True)
prop("R08", "Line, column and offset accounting is exact for every match",
     "After every match lineno(), columno(), lines(), columns(), lineno_end(), columno_end(), border(), wsize() and first() are those of the match in the input: lines count newlines, columns count UTF-8 characters and expand tabs to the tab size. They do not depend on how far apart matches are, which calls asked for positions before, buffer shifts, or the SIMD variant.",
     ["inputs", "histories", "configurations"], "all inputs x all subsets of calls asking for positions x tab sizes x SIMD variants",
     "Line counting is incremental and cached with vectorised loops of 64/32/16/4 bytes; errors need a given distance between matches.",
     ["include/reflex/absmatcher.h", "lib/simd*.cpp"], [("lineno", "include/reflex/absmatcher.h lineno()"), ("columno", "include/reflex/absmatcher.h columno(), columns(), columno_end()")],
     "the accessors after every call", [("lpb_,lno_,bol_", "cached line position", "include/reflex/absmatcher.h")], True)
prop("R09", "Any history of matcher operations behaves as the documented state machine",
     "Under every sequence of scan, find, split, input, winput, peek, unput, wunput, skip, more, less, text, rest, line, span, at_end, at_bol and set_bol calls, each call returns what the documented effects of the earlier calls imply: characters are consumed once and in order, put-back characters are read next, text() never alters the input. ",
     ["histories", "inputs"], "all operation histories within their documented domain x inputs x sources",
     "Tests call each operation in one fixed context; the interactions (text() then unput, skip reaching the end, less after more) form an unbounded set.",
     ["include/reflex/absmatcher.h"], [("operations", "include/reflex/absmatcher.h input, winput, unput, wunput, peek, skip, more, less, rest, line, span, text")],
     "return value and match text of every call", [("cur_,pos_,txt_,len_,got_,chr_", "reading state", "include/reflex/absmatcher.h")], True)
prop("R11", "Context callbacks hand out all input exactly once",
     "A handler set with set_handler() receives all bytes shifted out of the buffer exactly once, in order and with the right offset; before() holds exactly the bytes from there up to the line of the match and after() the rest when the end of input was hit, so that the three together are the input.",
     ["schedules", "inputs"], "all inputs, delivery schedules and match sequences that shift the buffer",
     "No test sets a handler; shifting needs inputs larger than the buffer.",
     ["include/reflex/absmatcher.h"], [("handler", "include/reflex/absmatcher.h grow(), before(), after(), set_handler()")], "bytes received by the handler, before(), after()", None, True)

CLAIMS = {
    # id: (level, note)
    "R01": ("model_checking", "TLC explores the product of the compiled opcode machine and the regex semantics of Regex.tla to a fixpoint per regex: complete over input strings, sampled over regexes"),
    "R02": ("model_checking", "TLC explores the product of the machine compiled from convert()'s result with the code-point semantics read as UTF-8 (UniEquiv.tla) to a fixpoint per regex; complete over byte strings, sampled over regexes, ranges and all named Unicode 13 classes"),
    "R03": ("model_checking", "recorded scan()/matches() sessions validated by TLC as behaviours of Matcher.tla; sampled over regexes and inputs"),
    "R04": ("model_checking", "recorded find() sessions validated by TLC as behaviours of Matcher.tla; sampled over regexes and inputs"),
    "R05": ("model_checking", "recorded split() sessions validated by TLC as behaviours of Matcher.tla; sampled over regexes and inputs"),
    "R06": ("model_checking", "recorded sessions of patterns with anchors and word boundaries validated by TLC as behaviours of Matcher.tla; sampled over regexes and inputs"),
    "R07": ("model_checking", "sessions over random sources and get() schedules with a 32-byte block (hook), also under ASan/UBSan, validated by TLC against the schedule-free Matcher.tla"),
    "R08": ("model_checking", "position accessors recorded per match and validated by TLC against their definition over the whole input"),
    "R09": ("model_checking", "random operation histories, standard and 32-byte block with ASan/UBSan, validated by TLC as behaviours of Matcher.tla"),
    "R11": ("model_checking", "handler/before/after bytes recorded and validated by TLC against the input"),
}
NOT_APPLICABLE = {}
TECH = {"R01": "TLA+/TLC: product of decoded implementation automaton and specification automaton (FsmEquiv.tla, Regex.tla)",
        "R02": "TLA+/TLC: product of decoded implementation automaton and UTF-8 specification automaton (UniEquiv.tla)"}
TECH_DEFAULT = "TLA+/TLC: trace validation of recorded sessions of the real code against Matcher.tla"
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
ids = sorted(p["id"] for p in P)
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "REFLEX_VERIF_BLOCK", "enable": "-DREFLEX_VERIF_BLOCK=32 (build variants small and asan of vlib/common.py)", "source_commits": hook},
     "checks": [{"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                 "technique": TECH.get(i, TECH_DEFAULT), "level": CLAIMS[i][0], "level_note": CLAIMS[i][1]} for i in ids if i in CLAIMS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in CLAIMS],
     "notes": "Specification in TLA+, checked with TLC; see DESIGN.md. Known findings: known/findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
