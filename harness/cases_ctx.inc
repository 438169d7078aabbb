{"^ab", "ab\n "}, {"(?m)^ab", "ab\n "}, {"ab$", "ab\n "}, {"(?m)ab$", "ab\n "}, {"(?m)^ab$", "ab\n "}, {"(?m)^a+$", "ab\n "}, {"(?m)^[ab]*$", "ab\n "}, {"\\Aab?", "ab\n "}, {"ab?\\z", "ab\n "}, {"\\Aa+\\z", "ab\n "},
{"(?m)^a|b$", "ab\n "}, {"(?m)^a|b", "ab\n "}, {"a|(?m)b$", "ab\n "}, {"(?m)^(a|b)+", "ab\n "}, {"(?m)^a\\n", "ab\n "}, {"(?m)\\na$", "ab\n "}, {"(?m)a+\\n?", "ab\n "}, {"(?m)^\\n", "ab\n "},
{"\\ba", "ab _"}, {"a\\b", "ab _"}, {"\\bab?\\b", "ab _"}, {"\\Ba", "ab _"}, {"a\\B", "ab _"}, {"\\<a", "ab _"}, {"a\\>", "ab _"}, {"\\<ab\\>", "ab \n"}, {"\\<[ab]+\\>", "ab -"}, {"\\b[ab]+\\b", "ab -"}, {"\\>-", "ab -"}, {"-\\<", "ab -"}, {"\\B-\\B", "ab -"}, {"\\b-+", "ab -"}, {"-+\\b", "ab -"},
{"\\<a|b", "ab -"}, {"\\<a|b\\>", "ab -"}, {"\\<(a|b)\\>|-", "ab -"}, {"\\<aa\\>|\\<ab", "ab -"}, {"\\<a\\>|\\<ab\\>|[ab]+", "ab -"}, {"(?m)^\\<a|b", "ab\n-"}, {"a\\b|ab\\B", "ab -"}, {"\\<abab\\>", "ab -"}, {"\\<aba\\>|\\<bab\\>", "ab -"}, {"\\<ab+\\>", "ab -"}, {"\\<[a-z]\\>", "ab -"},
{"ac|a(?=c)", "ab c"}, {"a(?=c)|ac", "ab c"}, {"a|a(?=bc)|b", "ab c"}, {"[ab](?=c)|[ab]c", "ab c"}, {"ab(?=c)|a(?=bc)|abc", "ab c"}, {"b*c|b(?=c)|a(?=b)", "ab c"}, {"a(?=b)", "ab c"}, {"a+(?=b)", "ab c"}, {"ab(?=ab)", "ab c"}, {"a(?=bb|c)", "ab c"}, {"[ab](?=c)", "ab c"}, {"a(?=b)|b", "ab c"}, {"a(?=b)|b(?=a)", "ab c"}, {"(?m)^a(?=b)", "ab\nc"}, {"ab*(?=c)", "ab c"}, {"a(?=b)|a(?=c)|c", "ab c"}, {"a(?=bc)|a", "ab c"}, {"a(?=b*c)", "ab c"}, {"a(?=\\n)", "ab\nc"}, {"(ab|c)(?=a)", "ab c"}, {"a(?=b)|ac|b", "ab c"}, {"aa(?=b)|c(?=c)", "ab c"}, {"a(?=bb)|b(?=c)|cc?", "ab c"},
{"a.*?b", "abc\n"}, {"a[^c]*?c", "abc "}, {"ab*?", "abc "}, {"ab+?", "abc "}, {"ab??", "abc "}, {"ab+?c", "abc "}, {"a(b|c)*?c", "abc "}, {"a(ab)*?b", "abc "}, {"ab{1,3}?", "abc "}, {"ab{2,}?", "abc "}, {"c.*?c|b", "abc\n"}, {"ab*?c", "abc "}, {"a.+?b", "abc\n"}, {"a.??b", "abc\n"}, {"(a|b)+?c", "abc "}, {"a(bc)+?", "abc "}, {"a[bc]{2,3}?", "abc "}, {"aa*?b", "abc "},
{"a+|(?^aab)", "abc "}, {"a|(?^ab)", "abc "}, {"[ab]+|(?^b[ab]+)", "abc "}, {"(?^ab)|a|b", "abc "}, {"ab|(?^c[ab]*c)", "abc "}, {"b|(?^a.)", "abc\n"}, {"(?^c+)|[a-c]+", "abc "}, {"(?^a)|b", "abc "}, {"(?^a|b)|c|bc", "abc "}, {"a|(?^b\\n)", "ab\nc"}, {"ab|(?^a)|(?^bb)", "abc "}, {"abc|(?^ab)|b", "abc "}, {"(?^ )|[abc]+", "abc "}, {"(?^[^a]+)|a", "abc "},
{"(?m)a$|b", "ab\r\n"}, {"(?m)a+$|b\\r", "ab\r\n"}, {"(?m)^a$|b|\\r\\n", "ab\r\n"}, {"(?m)a(?=b)|a$|b", "ab\n "}, {"a(?=b)|a\\>", "ab c"}, {"(?m)a+(?=b)|a+$", "ab\n "}, {"a\\>|a(?=bc)|b", "ab c"},
{"[ab]c\\b|[ab]cab", "abc "}, {"(?m)[ab]c$|[ab]cab", "abc\n"}, {"[ab]c\\>|b[ab]ca|c", "abc "}, {"[ab]cc\\b|[ab]ccab", "abc "}, {"[ab]c(?=a)|[ab]cab", "abc "}, {"a\\b|[bc]aba|c[ab]b", "abc "}, {"(ab\\b|abcc)|ccab", "abc "},
