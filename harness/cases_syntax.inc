{".", ""}, {".", "s"}, {"(?s).", ""}, {"(?s:.).", ""}, {"(?-s:.).", "s"}, {"\\.", ""}, {"\\N", ""}, {"\\0", ""}, {"\\0101", ""}, {"\\0377", ""}, {"\\x7f", ""}, {"\\xfF", ""}, {"\\x{41}", ""}, {"\\u{7e}", ""}, {"\\cA\\cz", ""}, {"\\e", ""}, {"\\a\\t", ""}, {"\\n\\v\\f", ""}, {"\\r", ""}, {"[\\b]", ""}, 
{"\\d", ""}, {"\\D", ""}, {"\\w", ""}, {"\\W", ""}, {"\\s", ""}, {"\\S", ""}, {"\\h", ""}, {"\\H", ""}, {"\\l", ""}, {"\\L", ""}, {"\\u", ""}, {"\\U", ""}, {"[\\d]", ""}, {"[^\\d]", ""}, {"[\\D]", ""}, {"[\\w-]", ""}, {"[\\W_]", ""}, {"[\\s\\d]", ""}, {"[^\\S]", ""}, {"[\\h\\n]", ""}, {"[^\\H]", ""}, {"[\\l\\U]", ""}, {"[\\n-\\r]", ""}, {"[\\x00-\\x1f\\x80-\\xff]", ""}, {"[\\N]", ""}, {"[\\]\\\\]", ""},
{"\\p{ASCII}", ""}, {"\\p{Space}", ""}, {"\\p{XDigit}", ""}, {"\\p{Cntrl}", ""}, {"\\p{Print}", ""}, {"\\p{Alnum}", ""}, {"\\p{Alpha}", ""}, {"\\p{Blank}", ""}, {"\\p{Digit}", ""}, {"\\p{Graph}", ""}, {"\\p{Lower}", ""}, {"\\p{Punct}", ""}, {"\\p{Upper}", ""}, {"\\p{Word}", ""}, {"\\P{ASCII}", ""}, {"\\P{Blank}", ""}, {"\\P{Digit}", ""}, {"\\P{Word}", ""}, {"[\\p{Upper}\\p{Digit}]", ""}, {"[^\\P{Lower}]", ""}, 
{"[[:ascii:]]", ""}, {"[[:space:]]", ""}, {"[[:xdigit:]]", ""}, {"[[:cntrl:]]", ""}, {"[[:print:]]", ""}, {"[[:alnum:]]", ""}, {"[[:alpha:]]", ""}, {"[[:blank:]]", ""}, {"[[:digit:]]", ""}, {"[[:graph:]]", ""}, {"[[:lower:]]", ""}, {"[[:punct:]]", ""}, {"[[:upper:]]", ""}, {"[[:word:]]", ""}, {"[^[:alpha:][:digit:]]", ""}, {"[[:^blank:]]", ""}, {"[[:^digit:]]", ""}, {"[[:lower:]A-F_]", ""}, {"[^[:space:]x]", ""}, {"[[:alpha:]-z]", ""}, 
{"[abc]", ""}, {"[^abc]", ""}, {"[][]", ""}, {"[^][]", ""}, {"[-^]", ""}, {"[]-a]", ""}, {"[a-]", ""}, {"[-a]", ""}, {"[a-c-e]", ""}, {"[--/]", ""}, {"[a^]", ""}, {"[.]", ""}, {"[*+?(){}|$]", ""}, {"[a-zA-Z_]", ""}, {"[^\\n]", ""}, {"[\\-a]", ""}, {"[a\\-z]", ""}, {"[\\^a]", ""}, {"[!-~]", ""}, {"[a-a]", ""}, {"[[]", ""}, {"[[a]", ""}, {"[a[:]", ""}, {"[:a]", ""}, {"[a\\]b]", ""}, {"[\\n\\t]", "b"}, {"[\\]", "b"}, {"[a\\]", "b"}, {"[^\\]x", "b"},
{"a?", ""}, {"a*", ""}, {"a+", ""}, {"a{2}", ""}, {"a{1,2}", ""}, {"a{2,}", ""}, {"a{0,1}", ""}, {"a{0}b", ""}, {"(ab){1,2}", ""}, {"(?:a|b)c", ""}, {"(a)(b)", ""}, {"a(?#comment)b", ""}, {"(?#c)ab", ""}, {"a|b|", ""}, {"((a))", ""}, {"[ab]{2}", ""}, {"\\d{2}", ""}, {".{2}", ""}, {"\\Qa.\\E{2}", ""}, {"(ab?){2}", ""}, {"a{1}{2}", ""}, {"(a{2}){1,}", ""}, {"x(a|bc){0,2}", ""},
{"\\Qa.b\\E", ""}, {"\\Q[a\\E", ""}, {"\\Q\\n\\E", ""}, {"\\Q\\E", ""}, {"a\\Q|\\Eb", ""}, {"\\Q*\\E+", ""}, {"\\Q(\\E|b", ""}, {"\\Qa|b\\E|c", ""}, {"\\Q\"\\Ea", "q"}, {"(?i)\\Qab\\E", ""}, {"(\\Qa+\\E)?b", ""}, {"\"a.\"b", "q"}, {"\"a|\"|b", "q"}, {"\"\\\"\"", "q"}, {"\"a\\\"b\"", "q"}, {"\"ab\"*", "q"}, {"(?q)\"a+\"", ""}, {"(?q:\"a+\")\"", ""}, {"(?-q:\"a\")", "q"}, {"[\"]a", "q"}, {"\\\"a", "q"}, {"\"a\"\"b\"", "q"}, {"\"[\"", "q"}, {"\"\\n\"", "q"},
{"abc", "i"}, {"(?i)abc", ""}, {"(?i:a)b", ""}, {"a(?i:b)c", ""}, {"(?-i:a)b", "i"}, {"(?i)a(?-i:b)c", ""}, {"(?i)[a-c]x", ""}, {"(?i)[^a]", ""}, {"(?i)[^a-c]", ""}, {"(?i:[x-z]|q)", ""}, {"[A-C]", "i"}, {"[^m]", "i"}, {"(?i)\\x41", ""}, {"(?i)\\x{61}b", ""}, {"(?i)A|b", ""}, {"ab|AB|Ab", "i"}, {"(?i:ab|cd)", ""}, {"(?i)a+B?", ""}, {"a|(?i:b)", ""}, {"(?i:a|b)|c", ""}, {"(?i)[\\x41-\\x43]", ""}, {"(?i:x)y|X", ""}, {"a(?i:b|c(?-i:d))", ""}, {"abc|ab[c-e]|Abx", "i"}, {"[@-`]", "i"}, {"[Z-a]", "i"}, {"[\\x40\\x60]", "i"}, {"a\\x61", "i"}, {"\\l", "s"}, {"(?i)\\d\\w", ""},
{"a b", "x"}, {"(?x)a b", ""}, {"(?x: a b )c ", ""}, {"(?-x: a)b c", "x"}, {"a # c\n b", "x"}, {"a[ ]b", "x"}, {"a\\ b", "x"}, {" a | b ", "x"}, {"( a | b ) c", "x"}, {"a * b", "x"}, {"a\tb\n", "x"}, {"(?x)a#b\n|c", ""}, {"[#]a", "x"}, {"a\\#b", "x"}, {"(?x)\\Q a\\E b", ""}, {"(?x)\" a\" b", "q"}, {"a +", "x"}, {"a {2}", "x"}, {"a (?# y ) b", "x"}, {"# only\na", "x"}, {"a #z", "x"}, {"(?xi) a b", ""}, {"(?i-s:a.)", "s"}, {"(?s-i:a.)", "i"}, {"(?is)a.", ""}, {"(?i)(?s)a.", ""}, {"(?si:a.)b.", ""},
{"#n", "e=#;"}, {"\\n#\\", "e=#;"}, {"#d\\", "e=#;"}, {"##", "e=#;"}, {"[#n]", "e=#;"}, {"[\\n]", "e=#;"}, {"#x41\\", "e=#;"}, {"#Qa.#E\\", "e=#;"}, {"\\.", "e=;"}, {"\\d", "e=;"}, {"[\\d]", "e=;"}, {"a#|b", "e=#;"}, {"#.|\\", "e=#;i"}, {"%w%s", "e=%;"},
{"}", ""}, {"a]", ""}, {"]", ""}, {"a-b", ""}, {"\\{", ""}, {"\\}", ""}, {"a,b", ""}, {"a\\|b", ""}, {"\\(a\\)", ""}, {"\\^", ""}, {"a\\$", ""}, {"\\/", ""}, {"\\\"", ""}, {"/", ""}, {"\"a\"", ""}, {"\\-", ""}, {"\\@", ""}, {"\xc3\xa9", ""}, {"\xc3\xa9+", ""}, {"(\xc3\xa9)+", ""}, {"\\\\", ""}, {"\\01", ""}, {"\\012", ""}, {"\\08", ""}, {"\\xa", ""}, {"\\xag", ""}, {"a\\0b", ""}, 
