#!/usr/bin/env python3
# Regenerates properties.jsonl (single source of the property texts).
import json, os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=obs or [],hook_needed=None)))
PAT="lib/pattern.cpp";MAT="lib/matcher.cpp";AM="include/reflex/absmatcher.h";MH="include/reflex/matcher.h";PH="include/reflex/pattern.h"
p("C01","matches() decides exactly the language of the regex",
  "For every POSIX-style regex accepted by the pattern compiler (concatenation, alternation, groups, bounded and unbounded repeats, bracket lists, escapes, dot) and every input, matches() reports a full match if and only if the input is a word of the regex's language. When the regex is a top-level alternation, the reported rule number is that of the first alternative, in order, that matches the whole input.",
  ["inputs","programs"],"all regexes over the supported operators and all byte strings",
  "ptest/rtest run a few hundred fixed (pattern,text) pairs; subset construction, followpos, repeat expansion, tree-DFA merging and the opcode encoding have to be right for every text.",
  [PAT,PH,MAT,MH],[("regex parser and followpos construction","lib/pattern.cpp: Pattern::parse*"),("subset construction and opcode assembly","lib/pattern.cpp: Pattern::compile, assemble, encode_dfa"),("FSM interpreter","lib/matcher.cpp: Matcher::match")],obs=["Matcher::matches()","Matcher::accept()"])
p("C02","scan() yields the longest match and the first rule on ties",
  "At every position scan() returns the longest prefix of the remaining input that any alternative of the pattern matches, and among alternatives matching that same longest prefix it returns the number of the one listed first. Successive matches are adjacent, and scan() returns 0 exactly when no alternative matches at the current position.",
  ["inputs","programs"],"all rule lists and all inputs, and every position of a tokenisation",
  "Tests tokenise a handful of strings; longest match and priority depend on backtracking to the last accepting state over all overlaps of rules.",
  [PAT,MAT,MH],[("TAKE/REDO/TAIL/HEAD opcodes and accept bookkeeping","lib/matcher.cpp: Matcher::match"),("accept priority of merged DFA states","lib/pattern.cpp: compile, compile_transition")],obs=["scan()","accept()","text()","size()","first()"])
p("C03","find() returns the leftmost-longest match and never misses one",
  "find() returns the match that starts at the smallest position, at or after the end of the previous match, where some alternative has a non-empty match, and takes the longest such match there. Whatever string-search or prediction heuristic a pattern selects, results are the same as testing every position in turn: no match is skipped and none is invented, and find() returns 0 only when no match is left.",
  ["inputs","programs","configurations"],"all patterns (every prefix/needle/minimum-length class the predictor distinguishes), all haystacks, with and without SIMD",
  "Heuristic skips go wrong only for particular alignments of haystack bytes, prefix lengths and pattern shapes; tests search a few short texts.",
  [MAT,MH,PAT,PH],[("search prediction tables (bitap, hash, needle)","lib/pattern.cpp: predict_match_dfa, gen_predict_match*"),("skip loops incl. SSE2/AVX and Boyer-Moore","lib/matcher.cpp: Matcher::advance"),("predict_match","include/reflex/pattern.h")],obs=["find()","first()","last()"])
p("C04","split() partitions the input around the matches",
  "The successive results of split() are exactly the stretches of input between successive matches found by find-style searching plus the final stretch after the last one, so concatenating the pieces and the separators in order gives back the input. No piece is lost, duplicated or extended, including empty pieces and the last one, which reports the reserved empty accept value. Separators that can match the empty string are outside.",
  ["inputs","programs"],"all patterns and inputs",
  "Tests check a few fixed strings; separator at the start or end, adjacent separators and empty input combine with every pattern.",
  [MAT,AM],[("split mode of the matcher","lib/matcher.cpp: Matcher::match")],obs=["split()","accept()","text()"])
p("C05","Context constructs: anchors, boundaries, lookahead, lazy and negative rules",
  "Begin/end-of-line and begin/end-of-input anchors, word boundaries, trailing-context lookahead, lazy quantifiers and negative patterns constrain matches exactly as documented: an anchor or boundary holds only at such a position, a lookahead must follow but is not consumed (it counts for the length when rules compete, as in Lex), a lazy quantifier stops at the shortest completion, and a negative pattern suppresses exactly the matches it describes. This holds for scan, find and matches at every input position, with anchors and boundaries at the start or end of an alternative and lookahead at its end, as the documentation requires; which of two rules wins a tie that differs only in a trailing boundary is outside.",
  ["inputs","programs"],"all inputs and positions for patterns combining these constructs",
  "Each construct depends on the previous byte, the next byte or the end of input; tests sample single positions.",
  [PAT,MAT,MH],[("meta edges","lib/pattern.cpp: compile_transition, encode_dfa"),("FSM_META_*, lookahead stacks","lib/matcher.cpp: match; include/reflex/matcher.h")],obs=["scan()","find()","matches()"])
p("C06","Regex syntax denotes the documented sets and operators",
  "Every documented piece of regex syntax — escapes, octal and hex codes, POSIX classes, bracket lists with ranges and negation, quotations, repeats, and the case-insensitive, dot-all, free-space, multiline and literal modifiers and the escape and quote-mode pattern options — makes the compiled pattern accept exactly the strings the documentation says. In particular a bracket list or class escape matches exactly its documented set of bytes, for each of the 256 byte values.",
  ["inputs","programs"],"all byte values and all strings up to the bound for each syntax form",
  "Tests use each form with one or two sample texts, not with every byte that must or must not match.",
  [PAT,PH],[("escape, class and list parsing","lib/pattern.cpp: parse_esc, compile_list, posix, flip, modified"),("modifiers","lib/pattern.cpp: parse4, update_modified")],obs=["Matcher::matches()"])
p("C07","UTF-8 encoding and decoding are exact inverses",
  "Encoding any Unicode code point yields its unique standard UTF-8 byte sequence and decoding that sequence returns the code point and consumes exactly those bytes; wide strings convert back and forth the same way, including surrogate pairs. Decoding never reads beyond the sequence it is given, and any byte sequence that is not valid UTF-8 decodes to the documented replacement for invalid input, never to a valid-looking different character.",
  ["inputs"],"all 2^21 code points and all byte sequences up to the bound",
  "Tests convert a few characters; boundaries, overlong forms and truncated sequences are not sampled.",
  ["include/reflex/utf8.h","lib/utf8.cpp"],[("utf8(c,s), from_utf8, wcs","include/reflex/utf8.h")],obs=["reflex::utf8","reflex::from_utf8","reflex::wcs"])
p("C08","A Unicode range compiles to a regex matching exactly its characters",
  "For every pair of code points the UTF-8 regex generated for the range, once compiled and matched, accepts the UTF-8 encoding of a code point if and only if the code point lies in the range. In strict mode it accepts no other byte string at all; in permissive mode it accepts at least those, and the documented escapes give the same language.",
  ["inputs","programs"],"all range bounds (at the structural boundaries, symbolic inside) and all code points/byte strings up to 4 bytes",
  "The splitting into byte ranges has many boundary cases; tests check a few ranges.",
  ["lib/utf8.cpp","include/reflex/utf8.h","lib/unicode.cpp"],[("range to regex","lib/utf8.cpp: utf8(int,int,...)")],obs=["reflex::utf8(a,b)","Matcher::matches()"])
p("C09","Input decodes every supported encoding to the right bytes",
  "Whatever file encoding is selected or announced by a byte order mark (UTF-8, UTF-16 and UTF-32 in both byte orders, Latin-1 and the supported code pages, EBCDIC, custom pages), reading delivers the UTF-8 encoding of the file's characters, in order and complete, with the BOM removed. The delivered bytes do not depend on the sizes of the read requests nor on how the underlying source splits its data. Wide strings are delivered as the UTF-8 of their characters (surrogate pairs combined, invalid values replaced), strings and C++ streams as their bytes; size() and eof() tell truthfully what is left to read.",
  ["inputs","schedules"],"all file contents up to the bound, all encodings, all sequences of request sizes and short reads",
  "Tests read a few files with one big buffer; characters split across request boundaries are the failing region.",
  ["lib/input.cpp","include/reflex/input.h"],[("file_init, file_get, encoding tables","lib/input.cpp")],state=[("utf8_/uidx_/ulen_","carried-over bytes of a split character","include/reflex/input.h")],obs=["Input::get(buf,n)","Input::get()"])
p("C10","Range sets and bit sets obey set algebra",
  "The range-set, ordinal-range-set, bit-set and ordered-set helpers behave as the mathematical sets they stand for: membership after any sequence of insertions, deletions, unions, intersections, differences, complements and shifts equals membership computed element by element. Queries (contains, intersects, subset, disjoint, comparison, counting, iteration, lower and upper bound) agree with that membership, the representation stays sorted and disjoint, and operands are not modified.",
  ["inputs","histories"],"all sequences of operations with arbitrary operands up to the bound",
  "Tests use a handful of fixed sets; overlapping, touching and subsumed ranges and word-boundary bits need every arrangement.",
  ["include/reflex/ranges.h","include/reflex/bits.h","include/reflex/setop.h"],[("merging insert/erase","include/reflex/ranges.h"),("word loops","include/reflex/bits.h"),("ordered merges","include/reflex/setop.h")],obs=["Ranges","ORanges","Bits","set_insert/set_delete/is_subset/is_disjoint"])
p("C11","Exported tables and generated FSM code match like the pattern itself",
  "A pattern exported as an opcode table (with or without its predictor table) or as direct finite-state-machine code, compiled and loaded again, gives the same matches, rule numbers and texts as the dynamically compiled pattern for every input and every matching method.",
  ["inputs","programs"],"all inputs for each exported pattern",
  "Tests never compare the exporters with the dynamic pattern; code generation has its own translation of each opcode.",
  [PAT,PH,MH,MAT],[("export_code, gencode_dfa, predictor export","lib/pattern.cpp"),("FSM_* helpers","include/reflex/matcher.h")],obs=["find()/scan()/split()/matches() of both"])
p("C12","Results do not depend on how input is delivered",
  "The sequence of matches, texts, positions and rule numbers is a function of the pattern and the character content only: it is the same whether input comes from a string, an in-place buffer or a stream, in whatever chunk sizes the source delivers it, with any block size, and across internal buffer shifting and growth.",
  ["inputs","schedules"],"all inputs and all ways of splitting them into reads",
  "Tests deliver whole short strings in one read; matches straddling a refill need chosen splits.",
  [AM,MAT,MH,"include/reflex/input.h"],[("get_more, peek_more, grow","include/reflex/absmatcher.h"),("refill during search","lib/matcher.cpp: advance")],state=[("buf_,cur_,pos_,end_,ind_,blk_","buffer window","include/reflex/absmatcher.h")],obs=["find/scan/split results"])
p("C13","Match positions, line and column numbers are exact",
  "first() and last() are the byte offsets of the match in the whole input, lineno() is one plus the number of newlines before the match, columno() is the number of characters (UTF-8 characters, tabs expanded to the tab stop) since the line start, and the derived values (lines, columns, end line and column, border, line text) follow. This holds for every match, whatever was matched, skipped or shifted out of the buffer before it, and in any order of the queries.",
  ["inputs","histories"],"all inputs with newlines, tabs and multibyte characters, all match sequences",
  "Tests check few line numbers on small inputs; tabs, multibyte text and lazily cached line state interact.",
  [AM],[("lazy line/column tracking","include/reflex/absmatcher.h: lineno, columno, bol"),],state=[("lno_,cno_,lpb_,bol_","cached line number and column state","include/reflex/absmatcher.h")],obs=["lineno()","columno()","columns()","lineno_end()","columno_end()","first()","last()","line()"])
p("C14","Text access and repositioning edit the stream exactly",
  "text(), begin(), str(), size(), end(), rest() and span() expose exactly the matched or remaining bytes; less(n) keeps the first n bytes and puts the rest back; more() makes the next match extend the current text; input(), winput(), peek(), unput(), wunput() and skip() consume, preview, insert or drop exactly the stated characters. After any sequence of such calls, matching continues as on the correspondingly edited input. Comparisons of a matcher with a string, its conversions, pair(), wstr(), lineno/column functions and the iterators of its find, scan and split operations expose exactly the same match.",
  ["inputs","histories"],"all inputs and all short sequences of these calls interleaved with matching",
  "Tests call each once on one text; the calls share the buffer window, the saved end character and growth.",
  [AM,MH],[("buffer window operations","include/reflex/absmatcher.h")],state=[("chr_,txt_,len_,cur_,pos_","saved text terminator and window","include/reflex/absmatcher.h")],obs=["text()","input()","unput()","less()","more()","skip()","rest()"])
p("C15","Generated scanners run the specification",
  "A scanner generated from a specification performs, for every input, the actions of the longest-matching rule active in the current start condition, the earliest on ties, with inclusive and exclusive start conditions, scopes, state stack, definitions, pattern options, shared (|) actions, initial code blocks and end-of-file rules taking effect as documented, and unmatched input handled by the documented default rule. This holds with and without the table/fast code options.",
  ["inputs","programs","histories"],"all inputs for each specification and code-generation option",
  "The tests run the generated examples on fixed files and look at the exit status only.",
  ["src/reflex.cpp","include/reflex/abslexer.h","include/reflex/flexlexer.h","lib/convert.cpp"],[("code generator","src/reflex.cpp: write_lexer, write_perf..."),("lexer classes","include/reflex/abslexer.h, flexlexer.h")],obs=["lex() return values and actions"])
p("C16","Any string is compiled or rejected with regex_error, safely",
  "For every byte string given as a regex, with any option string, the pattern compiler and the regex converter either succeed or throw the documented regex_error with a position inside the string. They never read or write outside their data, never hang and never throw or abort otherwise.",
  ["inputs"],"all byte strings up to the bound",
  "Tests feed a few known malformed patterns; parsers index ahead of the current character in many places.",
  [PAT,"lib/convert.cpp","lib/error.cpp"],[("bounds checks in at()/peek","lib/pattern.cpp; lib/convert.cpp")],obs=["Pattern::Pattern","reflex::convert"])
p("C17","FuzzyMatcher accepts exactly texts within the edit distance",
  "For a literal or regex pattern and a maximum error count, fuzzy matching of a whole text succeeds only if the text is within that many permitted edits (insertions, deletions, substitutions of characters, as enabled by the flags; newline and NUL are never inserted or substituted) of a word of the pattern, and the reported edit count does not exceed the maximum. For plain strings it also succeeds whenever the text is that close, and exact matches of any pattern are always found. Fuzzy find, scan and split report no match that is further away than the maximum; copies of a matcher behave like the original.",
  ["inputs","programs","configurations"],"all texts, all edit limits and flags up to the bound",
  "ftest tries a few typos; the backtracking bookkeeping depends on where edits fall.",
  ["fuzzy/fuzzymatcher.h"],[("backtracking over edits","fuzzy/fuzzymatcher.h: match")],obs=["FuzzyMatcher::matches()","edits()","find()"])
p("C18","Boost, PCRE2 and std::regex matchers behave as matchers",
  "The matcher classes built on Boost.Regex, PCRE2 and std::regex tokenise, search and split with the same iteration, buffering, position and text rules as the native matcher, each using its own engine's regex semantics: the same matches at the same positions with the same captures m[n], group_id(), line and column however the input is delivered (string, buffer, in place, or in pieces by get(), where the engine supports it), for constructed, default-constructed, copied and pattern-sharing matchers alike.",
  ["inputs","programs"],"all inputs",
  "Tests run one engine on a few texts.",
  ["include/reflex/boostmatcher.h","include/reflex/pcre2matcher.h","include/reflex/stdmatcher.h"],[("iterator adaptation","include/reflex/boostmatcher.h: match")],obs=["find/scan/split"])
p("C19","Reused and copied objects behave like fresh ones",
  "A matcher that is reset or given new input, a new pattern or new options behaves exactly like a newly constructed one, whatever it did before; a copied or assigned pattern, matcher or input behaves exactly like the original and the two do not affect each other. Destroying any of them in any order is safe.",
  ["inputs","histories"],"all previous uses and inputs up to the bound",
  "Tests reset matchers at a few points; leftovers in lazily cached state show only after particular histories.",
  [AM,MH,PH,"include/reflex/input.h"],[("reset, operator=, copy constructors","include/reflex/absmatcher.h, matcher.h, pattern.h, input.h")],obs=["all matcher results"])
p("C20","Matching never modifies a shared pattern",
  "Matching, searching, splitting and position queries by any number of matchers never write to the compiled pattern they share nor to any library-global data, and the result of each is independent of the others' activity. So patterns can be shared by concurrent matchers.",
  ["schedules","inputs"],"all inputs, all interleavings of matchers on one pattern",
  "A data race shows only under a particular interleaving; no test runs matchers concurrently.",
  [PH,MH,MAT,AM],[("const pattern data","include/reflex/pattern.h")],obs=["writes to pattern memory and globals during matching"])
p("C21","convert() preserves the meaning of the regex",
  "Translating a regex for a target engine (with or without Unicode, case-insensitive, dot-all, free-space, macro-expansion or other conversion flags) yields a regex, in the constructs the target's signature admits, whose language is the documented meaning of the source: bracket-list set operations, Unicode classes, escapes, quotations and named macros denote exactly their sets. Constructs the target cannot express are rejected with regex_error rather than silently changed.",
  ["inputs","programs","configurations"],"all texts up to the bound for each syntax form, signature and flag combination",
  "Tests convert a few expressions; equality of languages over all texts is not sampled.",
  ["lib/convert.cpp","include/reflex/convert.h","lib/posix.cpp","lib/unicode.cpp"],[("translation","lib/convert.cpp: convert*")],obs=["reflex::convert","Matcher::matches() of the result"])
p("C22","Stream adaptors deliver exactly the converted file",
  "The buffered-input and stream-buffer adaptors deliver exactly the bytes the underlying input would deliver, and the DOS variants exactly those bytes with each CR LF pair turned into LF and every other CR kept, independent of buffer refills and of how the consumer reads. End of file is reported exactly at the end.",
  ["inputs","schedules"],"all contents, all alignments with the refill boundary, all read sizes",
  "Tests copy one file; a CR at the end of a refill is the failing alignment.",
  ["include/reflex/input.h"],[("BufferedInput, streambuf, dos_streambuf","include/reflex/input.h")],obs=["get()","peek()","xsgetn","underflow/uflow"])
p("C23","Indent and dedent matches mirror the indentation stack",
  "With indent, dedent and undent anchors in the pattern, the sequence of indent and dedent matches equals the pushes and pops of the documented stack of indent margins for the input's leading white space, so over any complete input (one that ends with a newline) every indent is closed by exactly one dedent; a dedent to a column that is no margin closes all deeper margins and moves the last one left to that column. Tab size options change column computation exactly as documented.",
  ["inputs"],"all layouts of spaces, tabs, newlines and text up to the bound",
  "Tests run one or two layouts; nesting that returns to intermediate levels needs chosen inputs.",
  [MAT,MH],[("newline_/tab stops","lib/matcher.cpp, include/reflex/matcher.h: FSM_META_DED/IND/UND")],state=[("tab_,ded_,col_","indent margins and pending dedents","include/reflex/matcher.h")],obs=["scan() accept sequence"])
p("C24","Named Unicode and POSIX classes denote the standard sets",
  "Every documented POSIX class name and every Unicode category, script and block class name selects exactly the characters the Unicode character database shipped with the library assigns to it (ASCII variants: the C-locale sets), and an inverted class exactly the complement within valid characters. A name that is not documented is rejected.",
  ["inputs","configurations"],"all 1,114,112 code points for each class",
  "Tests use two or three classes with a few letters.",
  ["lib/unicode.cpp","lib/posix.cpp","unicode/letter_scripts.cpp","unicode/language_scripts.cpp","unicode/block_scripts.cpp"],[("tables","unicode/*.cpp; lib/posix.cpp")],obs=["reflex::Unicode::range","reflex::Posix::range","convert()"])
p("C25","Matching is memory-safe and always makes progress",
  "For every input, pattern and sequence of matcher calls, matching reads and writes only inside its buffers and tables and uses no uninitialised value, and every loop over find, scan or split ends after at most input length plus one results because each non-final result consumes input or is a final one.",
  ["inputs","programs","histories"],"all inputs and call sequences up to the bound",
  "Tests observe no out-of-bounds read unless it crashes; heuristics read words and vectors ahead of the current position.",
  [MAT,AM,PH],[("buffer end checks","lib/matcher.cpp: advance; include/reflex/pattern.h: predict_match"),("N option and empty match handling","lib/matcher.cpp: match")],obs=["memory accesses","number of results"])
p("C26","Pattern introspection and rule reachability are truthful",
  "size() and operator[] give the number and the source text of the alternatives of a pattern in order, and reachable(i) is true if and only if some input makes the pattern accept rule i.",
  ["inputs","programs"],"all alternations up to the bound and all inputs",
  "Reachability is a statement about all inputs; tests do not look at it.",
  [PAT,PH],[("acc_ and end_ bookkeeping","lib/pattern.cpp: parse, compile")],obs=["Pattern::size()","Pattern::operator[]","Pattern::reachable()"])
p("C27","Switched, stacked and chained inputs are scanned as one would expect",
  "In generated scanners: pushing a new matcher or buffer scans the new input from its start and popping continues the suspended input exactly where it was left, with its line and column; switching to another buffer and back likewise; in(i), yyrestart() and switch_streams() restart scanning with the new input; giving a next input in wrap()/yywrap() continues with it as if it had been appended, losing and repeating nothing; input(), unput() and ECHO consume, insert and echo exactly the stated characters. The start condition is not changed by switching inputs, and every input is scanned to its end exactly once.",
  ["inputs","histories"],"all contents of several inputs and the nesting of switches that the scanner's rules make on them",
  "The tests run the generated examples on fixed files; include stacks and wrap are not exercised with tokens at the switching points.",
  ["include/reflex/abslexer.h","include/reflex/flexlexer.h","include/reflex/absmatcher.h","src/reflex.cpp"],[("matcher stack","include/reflex/abslexer.h: push_matcher, pop_matcher, ptr_matcher"),("flex buffer functions","include/reflex/flexlexer.h: yypush_buffer_state, yy_switch_to_buffer, yyrestart"),("wrap","include/reflex/absmatcher.h: wrap, peek_more")],state=[("stack_","stack of suspended matchers","include/reflex/abslexer.h")],obs=["lex() actions and return values","text()","lineno()","columno()"])
p("C28","regex_error tells what is wrong and where",
  "A regex_error carries the code it was raised with and its position, and what() gives the position, quotes a stretch of the regex around it (whole characters, never reading outside the regex) and points a marker at the column where the error is, with the message of the error. For an invalid construct anywhere in a regex, Pattern (with option r) and convert() throw regex_error with the documented code for that mistake and a position within the offending construct; without option r Pattern only throws when limits are exceeded.",
  ["inputs"],"all regexes that contain the construct in any literal context up to the bound; all characters and positions for the message",
  "Tests only check that a few invalid regexes are rejected; messages depend on the position, on multi-byte and wide characters and on the length of the regex.",
  ["lib/error.cpp","include/reflex/error.h",PAT,"lib/convert.cpp"],[("message with excerpt and marker","lib/error.cpp: regex_error_message, displen, disppos"),("raising of syntax errors","lib/pattern.cpp: error(); lib/convert.cpp: throw regex_error")],obs=["regex_error::what()","code()","pos()"])
p("C29","Generated scanners offer the Bison interface asked for",
  "For every combination of --bison, --bison-locations, --bison-bridge, --bison-cc, --bison-complete and --reentrant, with and without --flex, with a prefix and with the tables of --full and --fast, the scanner reflex generates compiles and has the documented functions. They return the tokens of the actions in input order and 0 at the end of input only; the semantic value assigned by an action is the one the parser receives; yytext, yyleng and yylineno (or the accessors of a reentrant scanner) are those of the token returned; locations give the first and last line and column of the token; accessors of a reentrant scanner return what was set.",
  ["inputs","programs"],"all inputs up to the bound for every combination of interfaces",
  "The repository's examples build a few of the interfaces and run each on one input, with one prefix.",
  ["src/reflex.cpp","include/reflex/abslexer.h","include/reflex/flexlexer.h"],[("generated interface functions","src/reflex.cpp: write_lexer, write_class"),("YYLTYPE and location() code","src/reflex.cpp: write_class, write_prelude"),("Flex macros","include/reflex/flexlexer.h")],obs=["yylex()","yylval","yylloc","yytext","yyleng","yylineno","location()","yylex_init(), yylex_init_extra(), yylex_destroy()"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
