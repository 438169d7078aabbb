// Writes the exported opcode tables, predictor tables and direct code of the patterns (native tool run by the check).
#include "c11pats.h"
#include <reflex/pattern.h>
#include <stdio.h>
extern "C" int harness_jobs() { return 1; }
extern "C" void harness(int) {
  FILE *f = fopen("c11_rows.h", "w"); remove("c11_tab.h"); remove("c11_fsm.h"); fprintf(f, "static const Row rows[] = {\n");
  for (int i = 0; i < c11n(); ++i) { std::string re, opt, text; c11(i, re, opt, text); char a[100], b[100]; snprintf(a, 100, "r;p;z=tb;n=P%d;f=+c11_tab.h", i); snprintf(b, 100, "r;p;o;z=fs;n=P%d;f=+c11_fsm.h", i); if (!opt.empty()) opt += ';';
    try { reflex::Pattern p(re, opt + a); reflex::Pattern q(re, opt + b); } catch (reflex::regex_error &e) { fprintf(f, "{0,0,0,0}, // %d rejected\n", i); continue; }
    fprintf(f, "{ tb::reflex_code_P%d, tb::reflex_pred_P%d, fs::reflex_code_P%d, fs::reflex_pred_P%d },\n", i, i, i, i); }
  fprintf(f, "};\n"); fclose(f); }
