// Model of the part of libpcre2 that PCRE2Matcher uses, after pcre2api(3) and pcre2partial(3); native replay runs the real library and compares.
#pragma once
#ifdef SYMX
struct pcre2_real_code_8 { BT bt; bool jit; }; struct pcre2_real_match_data_8 { std::vector<size_t> ov; }; struct pcre2_real_match_context_8 { int x; }; struct pcre2_real_jit_stack_8 { int x; };
extern "C" {
pcre2_code *pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t opts, int *err, PCRE2_SIZE *pos, pcre2_compile_context *) { sym_assert(opts == (ENG == 5 ? (uint32_t)(PCRE2_UTF | PCRE2_UCP) : 0u), "options passed to pcre2_compile"); std::string re((const char*)p, n); bool ml = false; if (re.compare(0, 4, "(?m)") == 0) { ml = true; re.erase(0, 4); } pcre2_code *c = new pcre2_code; c->bt.init(re.c_str(), false); c->bt.ml = ml; c->jit = false; if (c->bt.bad) { delete c; *err = 100; *pos = 0; return NULL; } c->bt.bol0 = true; c->bt.nullable = false; c->bt.nullable = c->bt.match("", 0, 0, false) >= 0; return c; }
int pcre2_get_error_message_8(int, PCRE2_UCHAR8 *s, PCRE2_SIZE) { s[0] = 'e'; s[1] = 0; return 1; }
pcre2_code *pcre2_code_copy_with_tables_8(const pcre2_code *c) { if (!c) return NULL; pcre2_code *d = new pcre2_code(*c); d->jit = false; return d; }
void pcre2_code_free_8(pcre2_code *c) { delete c; }
int pcre2_jit_compile_8(pcre2_code *c, uint32_t) { c->jit = true; return 0; }
int pcre2_pattern_info_8(const pcre2_code *, uint32_t what, void *w) { if (w && what == PCRE2_INFO_NAMECOUNT) *(uint32_t*)w = 0; return w ? 0 : 8; }
pcre2_match_data *pcre2_match_data_create_from_pattern_8(const pcre2_code *c, pcre2_general_context *) { pcre2_match_data *d = new pcre2_match_data; d->ov.assign(2 * c->bt.cap.size(), PCRE2_UNSET); return d; }
void pcre2_match_data_free_8(pcre2_match_data *d) { delete d; }
pcre2_match_context *pcre2_match_context_create_8(pcre2_general_context *) { return new pcre2_match_context; } void pcre2_match_context_free_8(pcre2_match_context *c) { delete c; }
pcre2_jit_stack *pcre2_jit_stack_create_8(size_t, size_t, pcre2_general_context *) { return new pcre2_jit_stack; } void pcre2_jit_stack_free_8(pcre2_jit_stack *s) { delete s; } void pcre2_jit_stack_assign_8(pcre2_match_context *, pcre2_jit_callback, void *) { }
uint32_t pcre2_get_ovector_count_8(pcre2_match_data *d) { return d->ov.size() / 2; } PCRE2_SIZE *pcre2_get_ovector_pointer_8(pcre2_match_data *d) { return &d->ov[0]; }
int pcre2_match_8(const pcre2_code *cc, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o, pcre2_match_data *d, pcre2_match_context *) { pcre2_code *c = (pcre2_code*)cc; BT &bt = c->bt; bt.bol0 = !(o & PCRE2_NOTBOL); bt.partial = o & PCRE2_PARTIAL_HARD;
  for (size_t b = at; b <= n; ++b) { bool ne = (o & PCRE2_NOTEMPTY) || ((o & PCRE2_NOTEMPTY_ATSTART) && b == at); int e = bt.match((const char*)s, n, b, ne); if (e == -2) { d->ov[0] = b; d->ov[1] = n; return PCRE2_ERROR_PARTIAL; }
    if (e >= 0) { d->ov[0] = b; d->ov[1] = e; int rc = 1; for (size_t g = 1; g < bt.cap.size(); ++g) { bool u = bt.cap[g].first < 0; d->ov[2 * g] = u ? PCRE2_UNSET : bt.cap[g].first; d->ov[2 * g + 1] = u ? PCRE2_UNSET : bt.cap[g].second; if (!u) rc = g + 1; } return rc; }
    if (o & PCRE2_ANCHORED) break; } return PCRE2_ERROR_NOMATCH; }
int pcre2_jit_match_8(const pcre2_code *c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o, pcre2_match_data *d, pcre2_match_context *x) { return pcre2_match_8(c, s, n, at, o, d, x); }
}
#endif
