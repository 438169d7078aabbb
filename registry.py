# What each property's check executes symbolically: harness sources, flags, stated bounds.
CHECKS = {}
Q, T = ('quick',), ('thorough',)
def H(src, name, bounds, flags=(), **kw):
    d = {'src': src, 'name': name, 'bounds': bounds, 'flags': list(flags)}; d.update(kw); return d
CHECKS['C01'] = {'harnesses': [
    H('c01.cpp', 'lang', '44 hand-written patterns x every text of 0..6 arbitrary bytes', ['-DNMAX=6'], tiers=Q),
    H('c01.cpp', 'langfam', '400 generated patterns x every text of 0..4 arbitrary bytes', ['-DFAMILY=400'], tiers=Q, samples=1, weight=2),
    H('c01.cpp', 'long', '200 generated patterns with 64-bit jump opcodes (hook REFLEX_VERIF_LONG=12) x every text of 0..4 arbitrary bytes', ['-DFAMILY=200'], lib=['-DREFLEX_VERIF_LONG=12'], samples=1, weight=0.5),
    H('c01.cpp', 'langT', '44 hand-written patterns x every text of 0..8 arbitrary bytes', ['-DNMAX=8'], tiers=T),
    H('c01.cpp', 'langfamT', '3000 generated patterns x every text of 0..5 arbitrary bytes', ['-DFAMILY=3000', '-DNMAX=5'], tiers=T, samples=1, weight=3)],
    'assumptions': ['patterns are those listed or generated; text length within the bound']}
def srch(mode, what):
    return {'harnesses': [
        H('c03.cpp', 'cases', '83 patterns covering every search strategy x template texts with 3..8 arbitrary bytes, up to 40 bytes long; SSE2 and no-SIMD code paths', ['-DMODE=' + mode]),
        H('c03.cpp', 'fam', '300 generated patterns x every text of 4 arbitrary bytes', ['-DMODE=' + mode, '-DFAMILY=300'], tiers=Q, samples=1, weight=1.5),
        H('c03.cpp', 'words', '400 generated word-set patterns (common prefix of 0..9 bytes, shortest match 1..10, up to 4 words with classes and optional bytes) x texts of overlapping word pieces up to 60 bytes long with 6 bytes left open over {a,b,c,_}; a third without SSE2', ['-DMODE=' + mode, '-DWFAM=400'], tiers=Q, samples=1, weight=2),
        H('c03.cpp', 'wordsT', '3000 generated word-set patterns x texts of overlapping word pieces with 8 bytes left open over {a,b,c,_}; a third without SSE2', ['-DMODE=' + mode, '-DWFAM=3000', '-DNSY=8'], tiers=T, samples=1, weight=3),
        H('c03.cpp', 'famT', '2500 generated patterns x every text of 5 arbitrary bytes', ['-DMODE=' + mode, '-DFAMILY=2500', '-DNT=5'], tiers=T, samples=1, weight=3)],
        'assumptions': ['input delivered at once (delivery is C12)', 'AVX2/AVX-512/NEON variants of the search loops are not encoded: the build under test is SSE2-only']}
CHECKS['C02'] = srch('M_SCAN', 'scan')
CHECKS['C03'] = srch('M_FIND', 'find')
CHECKS['C03']['harnesses'] += [H('c03.cpp', 'bm', '100 generated literals that select the Boyer-Moore search (no SSE2) x texts of three overlapping copies with 5 bytes left open', ['-DMODE=M_FIND', '-DBMFAM=100', '-DNSY=5'], tiers=Q, samples=1), H('c03.cpp', 'bmT', '1000 of them with 6 bytes left open', ['-DMODE=M_FIND', '-DBMFAM=1000', '-DNSY=6'], tiers=T, samples=1, weight=2)]
CHECKS['C04'] = srch('M_SPLIT', 'split')
def ctx(only, what, n=5): return H('c05.cpp', 'ctx' if n == 5 else 'ctxT', '113 patterns with anchors, word boundaries, lookahead, lazy quantifiers and negative alternatives x every text of %d bytes over four per-pattern bytes: %s' % (n, what), ['-DNT=%d' % n, '-DONLY=' + only], tiers=Q if n == 5 else T, samples=1, weight=0.5)
for _p, _o, _w in (('C02', '2', 'scan()'), ('C03', '0,1,4', 'find(), with and without SIMD, and with option N'), ('C04', '5', 'split()')): CHECKS[_p]['harnesses'] += [ctx(_o, _w), ctx(_o, _w, 6)]
CHECKS['C05'] = {'harnesses': [
    H('c05.cpp', 'ctx', '113 patterns with anchors, word boundaries, lookahead, lazy quantifiers and negative alternatives x every text of 5 bytes over four per-pattern bytes (newline, blank, word and non-word bytes) x find, find without SIMD, scan, matches, find with option N, split', ['-DNT=5'], tiers=Q),
    H('c05.cpp', 'ctxlong', 'the same with 64-bit jump opcodes (hook REFLEX_VERIF_LONG=12) x texts of 4 bytes', ['-DNT=4'], lib=['-DREFLEX_VERIF_LONG=12'], samples=1),
    H('c05.cpp', 'ctxT', 'the same with texts of 8 bytes', ['-DNT=8'], tiers=T, job_time={'thorough': 600})],
    'assumptions': ['anchors and boundaries only at the start or end of an alternative and lookahead only at the end, not overlapping, as documented', 'which of several rules wins a tie when they differ only in a trailing boundary is not decided']}
CHECKS['C06'] = {'harnesses': [
    H('c06.cpp', 'forms', '262 syntax forms (escapes, classes, lists, quotations, repeats, modifiers, options i s x q b e=) x every text of 0..3 arbitrary bytes; 39 invalid regexes', [], tiers=Q),
    H('c06.cpp', 'sym', '14 syntax forms whose pattern bytes are themselves arbitrary (hex, octal, control, literal, escaped, listed, negated, range, quoted, case-insensitive, escape character option) x every text byte', ['-DMODE=1']),
    H('c06.cpp', 'fam', '2500 generated regexes of up to 70 bytes mixing all documented spellings, modifiers and options x every text of 0..3 arbitrary bytes', ['-DMODE=2', '-DFAMILY=2500'], tiers=Q, samples=1, weight=2),
    H('c06.cpp', 'strings', '600 generated alternations of plain strings with escapes and quotations (the tree DFA) x every text of 0..3 arbitrary bytes', ['-DMODE=3', '-DFAMILY=600'], tiers=Q, samples=1, weight=0.5),
    H('c06.cpp', 'formsT', 'the syntax forms x every text of 0..5 arbitrary bytes', ['-DNT=5'], tiers=T),
    H('c06.cpp', 'stringsT', '5000 generated alternations of plain strings x every text of 0..4 arbitrary bytes', ['-DMODE=3', '-DFAMILY=5000', '-DNT=4'], tiers=T, samples=1),
    H('c06.cpp', 'famT', '15000 generated regexes x every text of 0..4 arbitrary bytes', ['-DMODE=2', '-DFAMILY=15000', '-DNT=4'], tiers=T, samples=1, weight=3)],
    'assumptions': ['regexes given to Pattern directly (convert() is C21); POSIX upper/lower classes are not combined with case-insensitive mode']}
CHECKS['C07'] = {'harnesses': [H('c07.cpp', 'utf8', 'every code point 0..10FFFF and every int; every byte string of up to 6 bytes; wide strings of up to 3 units', [])],
    'assumptions': ['wchar_t is 32 bits; unpaired surrogates and REFLEX_NONCHAR are the documented replacement']}
CHECKS['C08'] = {'harnesses': [
    H('c08.cpp', 'pairs', '90 families of bound pairs (every combination of encoded lengths; the low 12 bits of both bounds arbitrary, all bits of 1 and 2-byte bounds, the higher bits fixed per family) x every byte string of 1..4 bytes x strict and permissive x escapes', ['-DMODE=3', '-DPAIRS=90'], tiers=Q, samples=1, weight=3),
    H('c08.cpp', 'latin1', 'latin1(a, b) for every pair of bytes x every byte', ['-DMODE=1']),
    H('c08.cpp', 'compiled', '1500 concrete bound pairs through the pattern compiler and matches() x every byte string of 1..4 bytes', ['-DMODE=2', '-DPAIRS=1500'], tiers=Q, samples=1),
    H('c08.cpp', 'pairsT', 'every pair of bounds x every byte string of 1..4 bytes x strict and permissive x three escapes', ['-DMODE=0', '-DNESC=3'], tiers=T, samples=1, weight=12, job_time={'thorough': 1500}),
    H('c08.cpp', 'compiledT', '10000 concrete bound pairs through the pattern compiler and matches()', ['-DMODE=2', '-DPAIRS=10000'], tiers=T, samples=1)],
    'assumptions': ['bounds are code points 0..10FFFF that are not surrogates; encodings of surrogates are left open'], 'budget': {'thorough': 5000}}
CHECKS['C09'] = {'harnesses': [H('c09.cpp', 'enc', 'files of up to 3 characters (UTF-16: any unit or a surrogate pair followed by a unit; UTF-32: any code point or an invalid value; 33 single-byte encodings: any bytes), up to 5 plain bytes, with and without BOM, first three read requests of any size 1..5', []),
    H('c09w.cpp', 'sources', 'wide strings of up to 3 arbitrary wchar_t values (pairs, unpaired surrogates and invalid values included), strings and std::istream streams of up to 6 arbitrary bytes (stream delivering all at once or 1..4 at a time), by reference and by pointer; three read requests of any size 1..5, single get(), size(), good(), eof(), copies and assignment between reads, clear()', [])],
    'assumptions': ['UTF-16 with unpaired surrogates, and bytes a code page leaves undefined, are outside the property', 'fread delivers what the file holds; stdio itself is modelled']}
CHECKS['C10'] = {'harnesses': [
    H('c10r.cpp', 'ranges', 'Ranges and ORanges of up to 3 arbitrary ranges over 0..6 per operand', ['-DNA=3', '-DNB=3'], tiers=Q, weight=3),
    H('c10r.cpp', 'rangesT', 'Ranges and ORanges of up to 4 arbitrary ranges over 0..8 per operand', ['-DNA=4', '-DNB=3', '-DMAXV=8'], tiers=T, weight=6),
    H('c10b.cpp', 'bits', 'bit sets of up to 3 words with arbitrary contents', []),
    H('c10s.cpp', 'setop', 'ordered sets with up to 4 arbitrary elements', [])],
    'assumptions': ['element type of the range sets is int']}
CHECKS['C12'] = {'libflags': ['-DREFLEX_VERIF_BLOCK=16'], 'harnesses': [
    H('c12.cpp', 'delivery', '240 generated patterns x texts of 44..80 bytes with 3 bytes left open x find/scan/split/matches x delivery by string, in-place buffer, FILE, buffered FILE, std::istream (all at once, 1, 3 or 5 bytes at a time), wide string, interactive, block sizes 3..12, read sizes (first, second, later reads each any of 1,2,3,5,7,16,all), and wrap() at 5 places; internal buffer of 32 bytes', ['-DJOBS=240'], tiers=Q, samples=1),
    H('c12.cpp', 'deliveryT', '2400 generated patterns x texts of 44..80 bytes with 4 bytes left open x the same deliveries; internal buffer of 32 bytes', ['-DJOBS=2400', '-DNSY=4'], tiers=T, samples=1)],
    'assumptions': ['Const::BLOCK is 16 instead of 65536 (hook), so that shifting and growing happen within the bound']}
CHECKS['C13'] = {'libflags': ['-DREFLEX_VERIF_BLOCK=16'], 'harnesses': [
    H('c13.cpp', 'pos', '128 cases: 16 patterns x texts of 24..53 bytes with newlines, tabs, 2-byte characters and 5 bytes left open x find/scan/split x tab sizes 1,2,4,8 x read sizes 1, 5, all x 6 ways of querying (lineno, columno, lines, columns, columno_end, lineno_end, border, line, text, bol, eol; at every match, at some, late); buffer of 32 bytes', ['-DJOBS=128'], tiers=Q, samples=1),
    H('c13.cpp', 'posnosimd', 'as above, 32 cases, header compiled without SSE2', ['-DJOBS=32', '-UHAVE_SSE2'], tiers=Q, samples=1, weight=0.3),
    H('c13.cpp', 'posT', '1600 such cases with 6 bytes left open', ['-DJOBS=1600', '-DNSY=6'], tiers=T, samples=1)],
    'assumptions': ['lines shorter than Const::BLOCK before a match (longer lines are documented to be truncated)', 'columns() of a match over several lines is compared only without tabs; carriage returns are excluded']}
CHECKS['C14'] = {'libflags': ['-DREFLEX_VERIF_BLOCK=16'], 'harnesses': [
    H('c14.cpp', 'ops2', '60 cases (10 patterns, texts of 6..23 bytes with 3 bytes left open, read sizes 1, 3, all, up to 4 preceding matches) x every sequence of 2 of 22 calls (text, less, input, peek, winput, unput, wunput, scan, find, skip char/string/wide, rest, span, at_end, more, str, at_bol, set_bol, unput of the byte read, lineno), then the rest is drained by input() or scan()', ['-DJOBS=60', '-DLEN=2'], tiers=Q, samples=1),
    H('c14.cpp', 'ops3', 'as above with 3 calls, the first fixed by the case, 88 cases', ['-DJOBS=88', '-DLEN=3', '-DFIRST=1'], tiers=Q, samples=1, weight=3, job_time={'quick': 200}),
    H('c14a.cpp', 'access', 'every way to read the current match (accessors, conversions, captures, comparisons with any string of 0..3 bytes, iterators) x every text of 0..3 arbitrary bytes x 3 patterns x 3 deliveries, Matcher and FuzzyMatcher', ['-DNT=3'], tiers=Q, weight=0.7),
    H('c14a.cpp', 'accessT', 'the same with texts of 0..4 arbitrary bytes', [], tiers=T),
    H('c14.cpp', 'ops3T', 'as above with 3 calls, 180 cases', ['-DJOBS=180', '-DLEN=3'], tiers=T, samples=1),
    H('c14.cpp', 'ops5T', '5 calls, the first two fixed by the case, 1000 cases', ['-DJOBS=1000', '-DLEN=5', '-DFIRST=2'], tiers=T, samples=1, weight=2)],
    'assumptions': ['the character class of what precedes put-back characters (anchors after unput) is not defined', 'span() directly after a match; more() followed by scan()', 'in-place buffers are covered by C12 and C25']}

CHECKS['C16'] = {'harnesses': [
    H('c16.cpp', 'pattern', '72 regex templates (lists, groups, modifiers, repeats, escapes, quotations, lookahead, UTF-8 fragments, options i x q s l m b e=) with 2 symbolic bytes over 44 syntax-relevant and representative characters x compilation with option r (1 byte without: errors ignored), then find() over a small text', [], tiers=Q, weight=2),
    H('c16.cpp', 'convert', '80 regex templates with 2 symbolic bytes over the same characters x flags (unicode, lex, basic, recap, u4, freespace, dotall, anycase, notnewline), macros x 5 signatures', ['-DMODE=1'], tiers=Q),
    H('c16.cpp', 'patternT', 'the templates with 2 symbolic bytes over 85 characters', [], tiers=T, weight=2, job_time={'thorough': 900}),
    H('c16.cpp', 'patternF', 'the templates with 2 arbitrary bytes', ['-DFULL=1'], tiers=T, weight=2, job_time={'thorough': 900}),
    H('c16.cpp', 'convertT', 'the converter templates with 2 symbolic bytes over 85 characters', ['-DMODE=1'], tiers=T, job_time={'thorough': 900})],
    'assumptions': ['regexes with the template shapes listed; memory exhaustion is not modelled'], 'budget': {'thorough': 5000}}

CHECKS['C20'] = {'harnesses': [
    H('c20.cpp', 'shared', '317 patterns (generated, word sets, mixed syntax, 93 context patterns, indentation, Unicode) x texts with 2..4 bytes left open x a second matcher on another text x find/scan/split/matches x in-place, chunked, string and copied-matcher input x options N, A, T=4; all memory that exists when matching starts is frozen', [], tiers=Q, samples=1),
    H('c20.cpp', 'sharedT', 'as above with 1200 generated patterns and every combination with text/position/edit calls', ['-DJOBS=1200'], tiers=T, samples=1, job_time={'thorough': 300})],
    'assumptions': ['interleaving at call granularity: since no shared location is written, finer interleavings of calls read the same values', 'writes inside libc are modelled as not touching library state']}
CHECKS['C25'] = {'libflags': ['-DREFLEX_VERIF_BLOCK=16'], 'harnesses': [
    H('c25.cpp', 'safe', '900 generated patterns, 93 context patterns, 41 patterns of unusual shape x texts with 2..4 arbitrary bytes x in-place exact buffer, memory, chunks of 1 and 7, blocks x find/scan/split/matches with 6 groups of calls between matches x options N, A, W; each load, store and branch is checked', ['-DJOBS=900'], tiers=Q, samples=1),
    H('c25.cpp', 'safeT', 'as above with 9000 generated patterns', ['-DJOBS=9000', '-DNSY=4'], tiers=T, samples=1, job_time={'thorough': 300})],
    'assumptions': ['Const::BLOCK is 16 instead of 65536 (hook)', 'calls are those whose documented preconditions hold (no unput in an untouched in-place buffer, no less() after span(), no repositioning after the final split piece)', 'memory model: byte-exact heap, stack and global objects, freed and uninitialised bytes tracked']}

CHECKS['C19'] = {'harnesses': [
    H('c19.cpp', 'reuse', '21 ways of reuse (input, reset with and without options, in-place buffers, changed patterns, copied/cloned/assigned matchers and patterns, reassigned patterns, failed compilations) x 40 pairs of patterns x dirtying sessions of 0..9 steps by any method x texts with 2..4 bytes left open x methods and calls; compared with a fresh matcher', ['-DJOBS=840'], tiers=Q, samples=1),
    H('c19.cpp', 'reuseT', 'as above with 500 pairs of patterns', ['-DJOBS=10500'], tiers=T, samples=1, job_time={'thorough': 300})],
    'assumptions': ['a copied matcher shares the pattern, and Input objects over files share the file, as documented; a matcher constructed from a regex string owns the pattern and must outlive its copies', 'copies are taken of matchers that have not read input (or get new input afterwards)']}
CHECKS['C26'] = {'harnesses': [
    H('c26.cpp', 'alts', '3000 patterns of 1..5 alternatives (literals, generated regexes, quoted, escaped, bracketed and commented bars; options x q i) x every text of 0..4 bytes; an unreachable rule has no such input, a reachable rule whose words are no longer than 4 has one (satisfiability query)', ['-DJOBS=3000'], tiers=Q, samples=1),
    H('c26.cpp', 'altsT', '20000 patterns x every text of 0..6 bytes', ['-DJOBS=20000', '-DNT=6'], tiers=T, samples=1)],
    'assumptions': ['rules without anchors, lookahead, lazy quantifiers or negative patterns']}
CHECKS['C21'] = {'harnesses': [
    H('c21.cpp', 'family', '700 generated source regexes (lists with ranges, escapes, classes, nested || && -- and lex {+}{|}{&}{-} operations, Unicode classes and characters, \\x \\0 \\u forms, quotations, groups with modifiers, comments, quantifiers, alternations, macros, BRE) x combinations of the flags unicode, anycase, dotall, freespace, lex, basic, recap, u4, notnewline x every text of up to 3 arbitrary bytes (4 in Unicode mode), converted for Matcher', ['-DFAMILY=700'], tiers=Q),
    H('c21.cpp', 'ecma', '250 of the same converted with the signature of StdEcmaMatcher', ['-DFAMILY=250', '-DSIG=1'], tiers=Q),
    H('c21.cpp', 'boost', '250 of the same converted with the signature of BoostMatcher (without Perl extensions)', ['-DFAMILY=250', '-DSIG=2'], tiers=Q),
    H('c21.cpp', 'posix', '250 of the same converted with the signature of StdPosixMatcher', ['-DFAMILY=250', '-DSIG=3'], tiers=Q),
    H('c21.cpp', 'pairs', '105 hand-written source regexes with an equivalent plain regex (anchors, word boundaries, lex lookahead /, quotes, BRE, macros, line breaks, notnewline, dotall, freespace, multiline, UTF-8) x every scan of texts of up to 4 arbitrary bytes; 31 invalid regexes are rejected', ['-DMODE=1', '-DNT=4']),
    H('c21.cpp', 'familyT', '2500 generated source regexes x every text of up to 4 (5) arbitrary bytes', ['-DFAMILY=2500', '-DNT=4'], tiers=T, job_time={'thorough': 200}),
    H('c21.cpp', 'ecmaT', '1000 with the StdEcmaMatcher signature', ['-DFAMILY=1000', '-DSIG=1'], tiers=T),
    H('c21.cpp', 'boostT', '1000 with the BoostMatcher signature', ['-DFAMILY=1000', '-DSIG=2'], tiers=T),
    H('c21.cpp', 'posixT', '1000 with the StdPosixMatcher signature', ['-DFAMILY=1000', '-DSIG=3'], tiers=T)],
    'assumptions': ['what the other engines do with the converted regex is outside: their converted regexes, which only use constructs the RE/flex parser knows too (octal escapes rewritten to hexadecimal), are read by Pattern', 'a range that includes the surrogates is only checked on valid UTF-8 texts', 'not checked, as the documentation leaves it open: \\s with newline in Unicode mode, inverted escapes with notnewline, \\xHH above 7F in Unicode mode, adjacent dots on one character, letter case of macros under anycase']}
CHECKS['C22'] = {'harnesses': [
    H('c22.cpp', 'adapt', 'Input::streambuf, Input::dos_streambuf, BufferedInput::streambuf and ::dos_streambuf, BufferedInput (also assigned and copied) over 9 sources (string, NUL-terminated, wide, plain file, Latin-1 file, UTF-16 file, files and strings of about one buffer (16 KB) with arbitrary bytes at the refill boundary, C++ stream in chunks) of up to 4 arbitrary bytes or 3 arbitrary characters x every sequence of 3 reading operations (sgetc, sbumpc, snextc, sgetn of 0/1/3/all, in_avail; peek, get, get(n), size, eof, copy), then reading to the end', ['-DOPS=3', '-DNB=4'], tiers=Q),
    H('c22.cpp', 'adaptT', 'the same with 5 arbitrary bytes and every sequence of 4 reading operations', ['-DOPS=4', '-DNB=5'], tiers=T, job_time={'thorough': 900})],
    'assumptions': ['files are regular in-memory FILEs delivered by a model of fread (tested against the native replay)', 'putback (sungetc) is not offered by these buffers and not exercised']}
CHECKS['C24'] = {'harnesses': [
    H('c24.cpp', 'tables', 'all 552 names of categories, scripts and blocks in the shipped UnicodeData.txt, Scripts.txt and Blocks.txt and the 21 C-locale class names x every code point (one arbitrary 32-bit value)', ['-DMODE=0']),
    H('c24.cpp', 'names', 'every name of up to 3 arbitrary characters and 12 documented names with any one character replaced, dropped or added: accepted if and only if documented', ['-DMODE=1']),
    H('c24.cpp', 'posix', 'the 14 [:name:] classes, plain and inverted (twice), read by Pattern and through convert() x every byte', ['-DMODE=2']),
    H('c24.cpp', 'posixbad', '[:name:] with any one byte replaced, dropped or added is rejected by Pattern and by convert()', ['-DMODE=3']),
    H('c24.cpp', 'match', 'every class of at most 10 ranges in 8 spellings (\\p \\P \\p{^} in and outside a list, negated lists, unions) through convert(), Pattern and matches() x every text of 1..4 arbitrary bytes', ['-DMODE=4', '-DMAXR=10'], tiers=Q),
    H('c24.cpp', 'matchT', 'every class of at most 60 ranges in 8 spellings x every text of 1..4 arbitrary bytes', ['-DMODE=4', '-DMAXR=60'], tiers=T, job_time={'thorough': 600})],
    'assumptions': ['the reference tables (harness/ucd.inc) are generated by tools/mkucd.py from the Unicode data files in /repo/unicode, which are taken as given', 'class C is Cc and Cf (unassigned and private-use characters are not listed as classes); surrogates are not characters: the positive forms of the three surrogate blocks are not checked', 'letter case of names between [: and :] is not specified']}
JN = lambda c, q, t: q if c.tier == 'quick' else t
CHECKS['C11'] = {'gen': [lambda c: c.tool('c11gen.cpp', ['-DJOBS=%d' % JN(c, 130, 1200)])], 'harnesses': [
    H('c11.cpp', 'export', '130 generated patterns and search word sets and 123 hand-written patterns with options (search, anchors, boundaries, lookahead, lazy, negative, indent), exported by the pattern compiler as opcode table and as direct code x every text of up to 5 arbitrary bytes (search texts up to 40 bytes with 5 open bytes) x find, scan, split, matches x exported table or code, with and without predictor, copied and assigned x block and chunked input x matcher options', ['-DJOBS=130'], tiers=Q, samples=1),
    H('c11.cpp', 'exportT', 'the same with 1200 generated patterns', ['-DJOBS=1200'], tiers=T, samples=1)],
    'assumptions': ['the tables and the code are written by the native build of the pattern compiler in this run and compiled with the harness']}
CHECKS['C15'] = {'gen': [lambda c: c.scanners(JN(c, 100, 400))], 'harnesses': [
    H('c15.cpp', 'spec', '100 generated specifications (1..3 start conditions, inclusive and exclusive, <..> lists, <*>, removals, scopes and nested scopes, definitions, |, <<EOF>> rules, initial code blocks, start/push/pop/less/more/return actions; options full, fast, flex, find, nodefault, case-insensitive, dotall, freespace, batch, lex) run through reflex x every input of 4 arbitrary bytes', ['-DJOBS=100', '-DNT=4'], tiers=Q),
    H('c15.cpp', 'specT', 'the same with 400 specifications x every input of 6 arbitrary bytes', ['-DJOBS=400', '-DNT=6'], tiers=T, job_time={'thorough': 300})],
    'assumptions': ['reflex runs natively; its generated scanners are what is executed symbolically', 'ties between a rule with ^ or $ and another rule are not decided; more() with nothing left to match is outside', 'scanners for other matcher engines are not generated; the bison interfaces are C29']}
CHECKS['C28'] = {'harnesses': [
    H('c28.cpp', 'message', '288 shapes (5 kinds of filler characters of 1 to 4 bytes and double width, 12 places of the window, 4 tails, regexes of 0..215 bytes) x every character (1 to 4 byte UTF-8; or 3 arbitrary bytes) in the window x positions around it, at the end, beyond the end and in between: what(), code(), pos() of errors raised with a code and with a message', ['-DMODE=0'], tiers=Q),
    H('c28.cpp', 'codes', '82 invalid constructs (mismatched, empty, class, range, escape, repeat, modifier, quotation, macro errors) behind 8 kinds of context and 0..2 arbitrary letters and before 0..2 arbitrary letters, given to Pattern and to convert()', ['-DMODE=1']),
    H('c28.cpp', 'messageT', 'the same with 828 shapes', ['-DMODE=0', '-DDEEP'], tiers=T)],
    'assumptions': ['display width is one column per character, two from U+1F18E on, as the code documents; regexes without newlines', 'the codes are the documented ones of include/reflex/error.h; where two fit (an unclosed (?i is a mismatched parenthesis or an invalid modifier) either is accepted']}
CHECKS['C27'] = {'gen': [lambda c: c.scanners(16, 'c27')], 'harnesses': [
    H('c27.cpp', 'inputs', '16 generated scanners (reflex and flex style; wrap() with in(), switch_streams and yyin; push_matcher/pop_matcher, yypush_buffer_state/yypop_buffer_state, also with start conditions, options full and fast and returning actions; matcher(m)/yy_switch_to_buffer; in() and yyrestart() in actions; input(), unput(), ECHO; in-place buffer) x 3 inputs of 0..2 characters each, any of letter, digit, (, newline', ['-DNL=2'], tiers=Q, samples=2),
    H('c27.cpp', 'inputsT', 'the same with inputs of 0..3 characters', ['-DNL=3'], tiers=T, samples=2, job_time={'thorough': 900})],
    'assumptions': ['reflex runs natively; its generated scanners are what is executed symbolically', 'the specifications are the 16 in harness/c27gen.cpp; inputs over the four characters that their rules distinguish']}
def fz(n, w, m2): return ['-DNT=%d' % n, '-DNW=%d' % w, '-DMODE=%d' % m2]
CHECKS['C17'] = {'harnesses': [
    H('c17.cpp', 'match', '27 patterns x 10 combinations of maximum edits and edit kinds x every text of up to 4 arbitrary characters: matches()', fz(4, 3, 0), tiers=Q),
    H('c17.cpp', 'find', 'the same: find()', fz(4, 3, 1), tiers=Q),
    H('c17.cpp', 'scan', 'the same: scan(), split(), copies', fz(4, 3, 2), tiers=Q),
    H('c17.cpp', 'matchlong', 'the same with 64-bit jump opcodes (hook REFLEX_VERIF_LONG=12) x texts of up to 3 characters: matches()', fz(3, 3, 0), lib=['-DREFLEX_VERIF_LONG=12'], samples=1, weight=0.5),
    H('c17.cpp', 'matchT', '27 patterns x 10 edit modes x every text of up to 6 arbitrary characters: matches()', fz(6, 4, 0), tiers=T, job_time={'thorough': 300}),
    H('c17.cpp', 'findT', 'the same: find()', fz(6, 4, 1), tiers=T, job_time={'thorough': 300}),
    H('c17.cpp', 'scanT', 'the same with up to 5 characters: scan(), split(), copies', fz(5, 4, 2), tiers=T, job_time={'thorough': 300})],
    'assumptions': ['patterns that branch are only checked for soundness (documented minimal backtracking); plain strings also for completeness']}
CHECKS['C23'] = {'libflags': ['-DREFLEX_VERIF_BLOCK=16'], 'harnesses': [
    H('c23.cpp', 'indent', '6 sets of indent rules (documented rules, blank-line rule, \\k in two forms, word and newline variants) x tab sizes 1, 2, 4, 8 (option T and tabs(n)) x scan and find x block and chunked input x margin changes (insert_stop, delete_stop, push_stops, pop_stops, clear_stops, stops) x texts of up to 24 bytes with 5 bytes that are each newline, blank, tab or a letter', ['-DNSY=5', '-DJOBS=240'], tiers=Q),
    H('c23.cpp', 'indentlong', 'the same, 80 cases with 64-bit jump opcodes (hook REFLEX_VERIF_LONG=12)', ['-DJOBS=80'], lib=['-DREFLEX_VERIF_LONG=12'], samples=1, weight=0.5),
    H('c23.cpp', 'indentT', 'the same with 7 open bytes', ['-DNSY=7', '-DJOBS=1000'], tiers=T, job_time={'thorough': 300})],
    'assumptions': ['REFLEX_VERIF_BLOCK=16 (hook) makes the buffer shift inside short texts', 'a last line without newline that consists of white space is excluded', 'on a dedent to a column that is no margin all deeper margins are popped and the remaining top moves to the column']}
def en(e, n): return ['-DENG=%d' % e, '-DNT=%d' % n]
def eng(name, e, n, t): return H('c18.cpp', name, t + ' x {scan, find, split, matches} x every text of up to %d characters of the pattern\'s alphabet x delivery (get() in symbolic chunks where the engine reads incrementally, string, buffer(), buffer(b,n), default constructor with pattern() and input(), pattern shared with another matcher, clone())' % n, en(e, n), rt=['symre.cpp'], ld=['-lpcre2-8'] if e >= 4 else [], samples=1)
ENGS = [(0, 'StdEcma', 'StdEcmaMatcher: 30 patterns'), (1, 'StdPosix', 'StdPosixMatcher: 22 patterns'), (2, 'BoostPosix', 'BoostPosixMatcher: 26 patterns'), (3, 'BoostPerl', 'BoostPerlMatcher: 31 patterns'), (4, 'PCRE2', 'PCRE2Matcher: 31 patterns'), (5, 'PCRE2UTF', 'PCRE2UTFMatcher: 3 patterns')]
CHECKS['C18'] = {'harnesses': [dict(eng(n, e, 4, t), tiers=Q) for e, n, t in ENGS] + [dict(eng(n + 'T', e, 6, t), tiers=T, job_time={'thorough': 400}) for e, n, t in ENGS],
    'assumptions': ['std::regex (libstdc++ 13) and Boost.Regex 5 are header-only and are themselves executed symbolically; their locale facets are those of rt/symre.cpp (C locale), natively those of libstdc++', 'libpcre2 is a binary: symbolically it is the model harness/pcre2stub.h of its documented contract (pcre2api, pcre2partial) on the patterns used; sampled paths and counterexamples are replayed against the real library', 'patterns where Boost prefers a shorter match are not delivered in pieces (documented limitation of Boost partial matching)', 'option N (empty matches), named groups, UTF text and more()/less()/input() are outside C18 for these engines']}
CHECKS['C29'] = {'gen': [lambda c: c.scanners(26, 'c29')], 'harnesses': [
    H('c29.cpp', 'bison', '26 generated scanners (the 13 kinds of --bison, --bison-locations, --bison-bridge, --bison-cc, --bison-complete, --reentrant, each with and without --flex where reflex allows it; matcher tables plain, --full and --fast; two rule sets with trailing contexts, anchors, quotations) x every input of 4 bytes of which each is one of four characters', ['-DNT=4'], tiers=Q),
    H('c29.cpp', 'bisonT', 'the same with inputs of 7 bytes', ['-DNT=7'], tiers=T, job_time={'thorough': 600})],
    'assumptions': ['reflex runs natively; its generated scanners are what is executed symbolically', 'the parser side (YYSTYPE, YYLTYPE, yy::location, yy::parser::symbol_type) is harness/c29act.h', 'ties between a rule with ^, $ or trailing context and another rule are not decided']}
