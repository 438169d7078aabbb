// no fixed prefix: shortest match 1..8 bytes (match predictor tables)
{"[ab]|cd", "", S5},
{"a|b+|c", "", S5},
{"ab|cd", "", S5},
{"ab|cd|e", "", S5},
{"abc|abd|xyz", "", S6},
{"[ab]c|de?", "", S5},
{"[a-c][0-9][x-z]", "", S6},
{"[a-c][0-9][x-z]|zz", "", S5},
{"abcd|bcde", "", "a\1c" S5},
{"abcde|xbcd", "", "x" S3 "d" S3},
{"[ab][cd][ef][gh]i", "", "a" S3 "hi" S3},
{"[ab]cdefgh|bcdefghi", "", "abc\1\1\1\1\1\1i"},
{"[ab]cdefghijkl", "", "__bcd\1\1ghij\1\1\1\1"},
{"(ab|ba)*c", "", S6},
{"[^a]b", "", S5},
{".b", "", S5},
{"..b|\\n", "", S5},
{"a?b", "", S5},
{"a*b|c", "", S5},
{"(a|b)(a|b)(a|b)c", "", S6},
{"\\d+|\\w+", "", S4},
// one-byte prefix
{"a", "", S5},
{"ab*", "", S5},
{"a(b|c)*d", "", S6},
{"ab?c", "", S6},
{"a[bc][de]f", "", "\1b" S5},
{"a[bc][de][fg][hi]", "", "a\1\1" S4 "i"},
// short prefixes, scalar search below 16 bytes
{"ab", "", S6},
{"aa", "", S6},
{"aab", "", S6},
{"aba", "", S6},
{"abab", "", "\1\1\1\1\1\1ab"},
{"abcd", "", "abc\1\1\1\1\1d"},
{"ab[cd]", "", S6},
{"ab[cd][ef]", "", S6},
{"ab(c|de)f", "", S6},
{"abc?", "", S6},
{"ab[cd][ef][gh]", "", "\1b\1\1\1\1\1"},
{"ab[cd][ef][gh][ij]", "", "a\1\1\1\1\1\1j"},
{"ab[cd][ef][gh][ij]k", "", "ab\1\1\1\1\1bc\1"},
// SSE2 search: text of more than 16 bytes after the current position
{"ab", "", "\2(_" S3 "\2 _"},
{"abc", "", "\2 _" S4 "\2 a" S1},
{"abc", "", "\2\016_" S4 "\2\011_"},
{"aab", "", "\2\015_" S5 "\2\014_"},
{"abab", "", "\2\015_a\1\1b\1b\1\1\2\014_"},
{"abcabd", "", "\2\013_ab\1ab\1ab\1\1\1\2\020_"},
{"ab[cd]", "", "\2\016_\1\1\1\1b\1\2\014_"},
{"ab[cd][ef][gh][ij]", "", "\2\016_ab\1\1\1\1\1b\1\2\020_"},
{"ab[cd][ef][gh]", "", "\2\016_ab\1\1\1\1b\1\1"},
{"the", "", "\2\016_\1h\1\1e\1\2\020e\1he"},
{"abcdefgh", "", "\2\012_abcd\1\1\1\1bcd\1\1gh\2\020_"},
{"aaaa", "", "\2\016_\1\1\1\1\1\1\2\020_"},
// no SSE2: memchr search and Boyer-Moore
{"ab", "!", S6},
{"abc", "!", "_\1\1\1\1\1_"},
{"aab", "!", S6},
{"nest", "!", "\1\1est\1\1\1t_"},
{"tente", "!", "t\1nte\1t\1\1te"},
{"seaton", "!", "s\1aton\1e\1ton\1"},
{"eaeaea", "!", "\1aea\1a\1aeaea"},
{"onione", "!", "o\1\1one\1nione"},
{"teeeest", "!", "\1teeeest\1eeees\1"},
{"rest[ab]", "!", "\1\1st\1rest\1"},
{"rest[ab]c[de]f", "!", "re\1t\1c\1frest\1\1\1\1"},
{"rest[ab]c[de]fg", "!", "re\1t\1\1dfgrestac\1\1\1"},
{"nineteen", "!", "ninet\1enin\1\1een\1ineteen"},
{"ststst", "!", "\1t\1t\1t\1t\1t"},
// needles after other matches
{"ab|a", "", S5},
{"foo|bar|foobar|b", "", S5},
{"foo.*bar", "", "fo\1b\1r\1\1oo"},
{"if|ifdef|else|[a-z]+", "", "if" S3 " el" S2},
{"\"[^\"]*\"", "", S6},
{"/\\*([^*]|\\*+[^*/])*\\*+/", "", "\1*" S5},
{"[-+]?[0-9]+(\\.[0-9]+)?", "", S5},
{"a{2,3}b", "", S6},
{"(ab){2}c?", "", S6},
{"a{3}", "", S6},
{"(a|bc){1,2}d", "", S6},
{"x|ab{0,2}c", "", S5},
{"abc|abd|abe|abf", "", "ab\1\1ab" S2},
{"hello|world|help", "", "hel\1\1" S2 "wor\1\1"},
{"[\\x80-\\xff]+a", "", S5},
{"\\x00\\x01?", "", S4},
{"[^\\n]+\\n?", "", S4},
