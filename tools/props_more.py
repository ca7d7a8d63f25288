# further properties (executed by props.py)
prop("R12", "Every input source and file encoding reads as the right UTF-8 bytes",
     "Reading an input source (memory, strings, wide strings, FILE, stream, stream buffer) returns its content as UTF-8, exactly once and in order, whatever the sizes of the reads: files in UTF-8, UTF-16, UTF-32 with or without byte order mark, Latin-1 and all code pages are converted, byte order marks are not content, and invalid units give the documented non-character. size() before reading is the number of bytes that reading returns, good() and eof() report no end while bytes remain.",
     ["inputs", "schedules"], "all contents x encodings x byte order marks x sequences of read sizes, peeks, copies",
     "Tests read five lorem-ipsum files in large blocks: a character that straddles the end of a read buffer, short files, files without byte order mark and all but two code pages are never read.",
     ["lib/input.cpp", "include/reflex/input.h", "include/reflex/utf8.h"],
     [("BOM detection", "lib/input.cpp Input::file_init"), ("conversion", "lib/input.cpp Input::file_get, include/reflex/input.h Input::get"),
      ("size", "lib/input.cpp file_size, wstring_size, istream_size"), ("encoding", "lib/input.cpp file_encoding, codepages")],
     "results of get, peek, size, good, eof and of the stream buffers")
prop("R13", "DOS stream buffers replace every CR LF by LF and nothing else",
     "Reading an input through the DOS stream buffers returns the content in which each carriage return that is directly followed by a newline is dropped, and every other byte, including other carriage returns, is returned exactly once and in order, whatever the mix of peeks, single reads and block reads and wherever block boundaries fall.",
     ["inputs", "schedules"], "all contents x sequences of reads and peeks x buffered and unbuffered stream buffers",
     "The pair can be split by a peek, a block boundary or the end of input; tests do not use the DOS stream buffers.",
     ["include/reflex/input.h"], [("dos_streambuf", "include/reflex/input.h Input::dos_streambuf, BufferedInput::dos_streambuf")],
     "bytes returned by the stream buffer")
CLAIMS["R12"] = ("model_checking", "recorded reads under ASan/UBSan validated by TLC as behaviours of the reader of Input.tla over the decoded content; every byte of every code page, sampled contents and read schedules")
CLAIMS["R13"] = ("model_checking", "recorded reads validated by TLC against Input.tla's Dos content; sampled contents and read schedules, with content at the 16384-byte buffer boundary")
TECH["R12"] = TECH["R13"] = "TLA+/TLC: trace validation of recorded reads of the real code against Input.tla"
prop("R14", "Indent, nodent, dedent and undent anchors follow the stack of margins",
     "With the indentation anchors, an indent is matched exactly where the margin of a line is deeper than the innermost indentation stop, one dedent for every stop that a shallower margin leaves, and a nodent or undent where the documentation says, with tabs counted as configured; stops, the column of the margin and the inserted or removed stops of the program are those of the layout so far. Every indent is matched by exactly one dedent by the end of the input, however the text is chunked.",
     ["inputs", "histories", "schedules"], "all layouts x tab sizes x calls that change the stops x read sizes",
     "The stack of stops grows and shrinks with the history of all lines; tests scan two short texts.",
     ["include/reflex/matcher.h", "lib/matcher.cpp"],
     [("indentation stops", "include/reflex/matcher.h Matcher::newline, indent, dedent, nodent, stops, insert_stop, delete_stop"), ("FSM", "lib/matcher.cpp Matcher::match")],
     "sequence of matches, accept values, stops and columns")
CLAIMS["R14"] = ("model_checking", "recorded scans of random layouts validated by TLC as behaviours of Dent.tla (state: stack of stops, pending dedents, margin); sampled layouts, tab sizes, stop edits and read schedules")
TECH["R14"] = "TLA+/TLC: trace validation of recorded scans of the real code against Dent.tla"

prop("R15", "Generated scanners run the actions of their specification in order",
     "A scanner generated from a lexer specification executes exactly the actions that the specification prescribes, in order: the start condition selects the rules and initial code blocks by their (nested, inverted, all-inclusive) condition prefixes and by inclusive or exclusive declaration, the longest match and first rule win, unmatched input is echoed, skipped or an error, and end of input runs the end-of-file rule or continues with wrapped, stacked or newly assigned input. This holds for every combination of rules, action forms, definitions and code-generation options.",
     ["inputs", "histories"], "all lexer specifications x inputs x start condition and input stack histories",
     "Tests run two dozen example scanners on one input each; how rules, scopes, fall-through actions, options and states combine is never enumerated.",
     ["src/reflex.cpp", "include/reflex/abslexer.h", "include/reflex/flexlexer.h"],
     [("specification parser", "src/reflex.cpp Reflex::parse_section_2, get_starts, get_pattern, get_code"), ("code generation", "src/reflex.cpp Reflex::write_lexer, write_code"),
      ("start conditions and input stack", "include/reflex/abslexer.h AbstractLexer; include/reflex/flexlexer.h FlexLexer"), ("scanner FSMs", "lib/pattern.cpp Pattern::export_code")],
     "executed rules, matched text, echoed output, returned values, start condition stack, positions")
CLAIMS["R15"] = ("model_checking", "random lexer specifications are translated by the reflex tool, compiled and run; their logged actions are validated by TLC as behaviours of Lexer.tla (state: start condition stack, input stack, pending action, matcher); sampled specifications and inputs")
TECH["R15"] = "TLA+/TLC: trace validation of generated scanners of random specifications against Lexer.tla"

prop("R16", "Patterns saved as code match exactly like patterns compiled at run time",
     "A pattern that is saved as an opcode table or as direct code, compiled and loaded gives the same matches, results, positions and predictions as the same pattern constructed at run time, for scan, find, split and matches on every input, and its saved regex text and predictor tables are intact.",
     ["inputs"], "all patterns x options x inputs x operations x table or direct code",
     "Two generated implementations of the machine exist beside the interpreter; tests scan one file with each in a few examples.",
     ["lib/pattern.cpp", "include/reflex/matcher.h"],
     [("opcode table", "lib/pattern.cpp Pattern::export_code, write_predictor"), ("direct code", "lib/pattern.cpp Pattern::gencode_dfa, gencode_dfa_closure"),
      ("FSM primitives", "include/reflex/matcher.h FSM_INIT, FSM_FIND, FSM_CHAR, FSM_TAKE, FSM_HALT, FSM_META_*")],
     "results and texts of the operations with a saved pattern")
prop("R17", "Copied, assigned and reused patterns and matchers behave like new ones",
     "A pattern or matcher that is copied, assigned, cloned, given another pattern, or given another input behaves afterwards exactly as a newly constructed one with that pattern, those options and that input, whatever it matched before; the object it was copied from is not affected, and no memory is used after it is freed.",
     ["inputs", "histories"], "all histories of operations, pattern changes, input changes, copies and assignments",
     "What earlier use leaves behind (predictor state, search tables, positions, options, shared machines) depends on the whole history; tests use one fresh matcher per pattern.",
     ["include/reflex/pattern.h", "include/reflex/matcher.h", "include/reflex/absmatcher.h"],
     [("pattern objects", "include/reflex/pattern.h Pattern::Pattern, operator=, assign, clear"),
      ("matcher objects", "include/reflex/absmatcher.h PatternMatcher, AbstractMatcher::reset, input, buffer; include/reflex/matcher.h Matcher::operator=")],
     "results, texts and positions of the operations after a change of pattern or input")
CLAIMS["R16"] = ("model_checking", "patterns are saved as tables and as direct code, compiled, loaded and driven; recorded sessions validated by TLC against Matcher.tla/ObjTrace.tla; sampled patterns, options and inputs")
CLAIMS["R17"] = ("model_checking", "recorded sessions with copies, assignments, pattern and input switches validated by TLC against Matcher.tla/ObjTrace.tla, partly under ASan/UBSan; sampled histories")
TECH["R16"] = "TLA+/TLC: trace validation of sessions with saved patterns against ObjTrace.tla"
TECH["R17"] = "TLA+/TLC: trace validation of sessions with changing patterns, inputs and copies against ObjTrace.tla"

prop("R19", "Malformed regexes are rejected and well-formed ones are accepted",
     "Converting and compiling a regex succeeds for every well-formed regex and raises an error for every other one: unbalanced parentheses, braces, brackets or quotations, empty subexpressions and lists, reversed ranges, unknown classes, invalid repeats, quantifiers, modifiers and escapes, with the documented kind of error at a position inside the regex. No regex, however malformed, makes the library read or write outside its memory, also when errors are not raised.",
     ["inputs"], "all regex texts",
     "Malformed texts are unbounded in number; tests try a handful of error messages.",
     ["lib/convert.cpp", "lib/pattern.cpp", "include/reflex/error.h"],
     [("converter", "lib/convert.cpp convert, insert_list, convert_escape"), ("compiler", "lib/pattern.cpp Pattern::parse, parse1..parse4, parse_esc, compile_list")],
     "accepted or the kind of error, its position")
prop("R20", "A pattern reports its subpatterns and which of them can be matched",
     "The number of subpatterns of a pattern is the number of its top-level alternatives, the text of each is the text of that alternative, and a subpattern is reported reachable exactly if some input is matched with that subpattern as the accepted one.",
     ["inputs"], "all patterns",
     "Reachability depends on the whole automaton of all alternatives; tests use one pattern.",
     ["include/reflex/pattern.h", "lib/pattern.cpp"],
     [("metadata", "include/reflex/pattern.h Pattern::size, operator[], reachable"), ("reachability", "lib/pattern.cpp Pattern::parse, compile")],
     "size, text and reachability of the subpatterns")
CLAIMS["R19"] = ("model_checking", "the pushdown machine of RegexSyntax.tla judges the answers to all short strings over eight alphabets of tokens and to random damaged regexes, run under ASan/UBSan")
CLAIMS["R20"] = ("model_checking", "breadth-first exploration of the specification automaton to a fixpoint in TLA+ (PatInfo.tla): complete over inputs; patterns sampled")
TECH["R19"] = "TLA+/TLC: recorded answers of the real parser against the pushdown specification RegexSyntax.tla"
TECH["R20"] = "TLA+/TLC: reported metadata against the reachable states of the specification automaton (PatInfo.tla)"

prop("R22", "All matcher engines follow the same interface contract",
     "The Boost, std::regex and PCRE2 matchers give for scan, find, split, matches, input, peek, unput, skip, less, rest, text, positions and captured groups the results that the pattern's language and the matcher interface define, for every interleaving of these operations and every way of reading the input the engine supports, exactly like the RE/flex matcher; scan and matches never start later in the input.",
     ["inputs", "histories"], "all patterns in the common regex syntax x engines x inputs x histories of operations x ways of reading",
     "Each engine re-implements buffering, partial matching and iteration; tests run each engine on a few fixed texts.",
     ["include/reflex/boostmatcher.h", "include/reflex/stdmatcher.h", "include/reflex/pcre2matcher.h", "include/reflex/absmatcher.h"],
     [("Boost", "include/reflex/boostmatcher.h BoostMatcher::match, new_itr"), ("std::regex", "include/reflex/stdmatcher.h StdMatcher::match, new_itr"),
      ("PCRE2", "include/reflex/pcre2matcher.h PCRE2Matcher::match, next_match"), ("shared interface", "include/reflex/absmatcher.h AbstractMatcher")],
     "results, texts, positions and groups of the operations")
CLAIMS["R22"] = ("model_checking", "recorded sessions of seven engine configurations validated by TLC against Matcher.tla; patterns whose matches are unique (or longest, for Boost POSIX), sampled patterns, inputs and histories")
TECH["R22"] = "TLA+/TLC: trace validation of recorded sessions of each engine against Matcher.tla (MatcherTrace.tla)"

prop("R21", "Fuzzy matching finds matches within the allowed edits only",
     "Every match of the fuzzy matcher is a text that some word of the pattern turns into by at most the reported number of edits, which is at most the maximum, using only the allowed kinds of edits and no newlines; exact matches are never passed over, a text that is an exact match has no edits and the index of the first matching subpattern, and a nonempty text within the edits of a string pattern matches. Pieces of a split and the texts, positions and order of the matches are those of the input, however it is read and however the matcher was copied, assigned or used before.",
     ["inputs", "histories"], "all patterns x maximum edits and kinds of edits x inputs x ways of reading",
     "The engine backtracks over edits with restarts on a moving buffer; it has one demonstration program and no test.",
     ["fuzzy/fuzzymatcher.h"],
     [("matching", "fuzzy/fuzzymatcher.h FuzzyMatcher::match, backtrack, point"), ("construction", "fuzzy/fuzzymatcher.h FuzzyMatcher constructors, operator=, clone")],
     "results, edits, texts and positions of matches, find, scan and split")
CLAIMS["R21"] = ("model_checking", "recorded sessions validated by TLC against the edit automaton of Fuzzy.tla, partly under ASan/UBSan; sampled patterns, inputs and histories")
TECH["R21"] = "TLA+/TLC: trace validation of recorded fuzzy matches against the edit automaton Fuzzy.tla"

prop("R23", "Scanners deliver their tokens through every documented interface",
     "Whatever combination of interface options a lexer specification uses (Flex compatibility, Bison bridge, locations, C++ and complete parsers, reentrancy, scanner and function names, namespaces, prefixes, parameters, token types, user classes, separate headers and tables), the generated code compiles and the caller receives exactly the tokens, values, locations, texts and line numbers of the scanner that the rules define. New input assigned to a scanner, from any kind of source, is scanned from its first character on.",
     ["inputs", "histories"], "all lexer specifications x combinations of interface options x inputs x sequences of calls and new inputs",
     "Every combination of options writes a different class, function and driver; the examples use a few of them.",
     ["src/reflex.cpp", "include/reflex/abslexer.h", "include/reflex/flexlexer.h"],
     [("scanner class and functions", "src/reflex.cpp Reflex::write_class, write_lexer, write_prelude"), ("Flex interface", "include/reflex/flexlexer.h FlexLexer and macros"),
      ("input of a scanner", "include/reflex/abslexer.h AbstractLexer::in, buffer, matcher")],
     "tokens, values, locations, texts and line numbers received by the caller")
CLAIMS["R23"] = ("model_checking", "generated scanners with random interface options, compiled, loaded and driven; recorded calls validated by TLC against Lexer.tla/LexerTrace.tla; sampled specifications, options and inputs")
TECH["R23"] = "TLA+/TLC: trace validation of the calls of generated scanners against Lexer.tla"

prop("R18", "Range sets, bit sets and set operations obey set algebra",
     "After any history of operations, a set of closed ranges, a set of open-ended ranges, a bit set or an ordered set holds exactly the values that set algebra gives (insert, erase, flip, union, intersection, difference, symmetric difference, shift, copy, swap), kept as the maximal disjoint ranges in ascending order. Queries (membership, overlap, intersection, subset, bounds, count, equality) answer accordingly, orders are total and agree with equality, and lazy unions and intersections visit every element once in order.",
     ["inputs", "histories"], "all histories of operations on two containers of each type x all ranges and values, including operations of a container with itself",
     "Merging, splitting and aliasing depend on how many ranges touch, overlap or adjoin in both operands; tests try a dozen sets.",
     ["include/reflex/ranges.h", "include/reflex/bits.h", "include/reflex/setop.h"],
     [("closed and open-ended ranges", "include/reflex/ranges.h Ranges, ORanges"), ("bit sets", "include/reflex/bits.h Bits, Bits::Bitref"),
      ("operations on ordered sets", "include/reflex/setop.h is_subset, set_delete, lazy_union, lazy_intersection")],
     "ranges held after each operation and answers of the queries")
CLAIMS["R18"] = ("model_checking", "the laws of Sets.tla model-checked exhaustively over a small universe (SetsModel.tla); every operation on every pair of small sets and random histories, run under ASan/UBSan, validated by TLC; wider sets sampled")
TECH["R18"] = "TLA+/TLC: exhaustive model of two containers (SetsModel.tla) and validation of recorded histories against Sets.tla (SetsTrace.tla)"

prop("R10", "Lazy quantifiers match the shortest text, greedy alternatives the longest",
     "An alternative of a regex with a lazy quantifier (??, *?, +?, {n}?, {n,}?, {n,m}?) between texts of fixed length matches exactly the shortest text of its language that begins at the current position, and nothing that extends a shorter match. The other alternatives stay greedy: the result of scan, find and split is the longest of what the alternatives match, with the index of the first alternative that matches it. This includes modifiers, several lazy alternatives that begin with different characters, and lazy patterns in generated scanners, saved as code, copied or reused.",
     ["inputs"], "all regexes with lazily quantified alternatives of the supported kind x all inputs",
     "Laziness is implemented by trimming position sets during subset construction: whether a position is trimmed depends on all other positions of the state, which a few sample regexes do not reach.",
     ["lib/pattern.cpp", "include/reflex/pattern.h"],
     [("trimming of lazy positions", "lib/pattern.cpp Pattern::trim_lazy, Pattern::lazy, Pattern::greedy"), ("lazy quantifiers", "lib/pattern.cpp Pattern::parse3")],
     "compiled machine of each regex; accept index, text and position of each match")
CLAIMS["R10"] = ("model_checking", "per regex exact for inputs of every length (product of the compiled machine with the specification automaton explored by TLC); regexes with lazy alternatives sampled (20000 quick, 120000 thorough); scan, find and split sessions validated by TLC")
TECH["R10"] = "TLA+/TLC: product of Regex.tla (LazyTrim) with the compiled machine (FsmEquiv.tla), trace validation of sessions (MatcherTrace.tla)"
