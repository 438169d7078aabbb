// native tool: writes the specifications c15_<i>.l, their reflex options c15_<i>.args and the table of scanner entry points
#include "sym.h"
#include "c15spec.h"
#include <stdio.h>
#ifndef JOBS
#define JOBS 24
#endif
extern "C" int harness_jobs() { return 1; }
extern "C" void harness(int) { FILE *h = fopen("c15_run.h", "w"); std::string tab;
  for (int i = 0; i < JOBS; ++i) { Spec s(i); std::string n = "c15_" + std::to_string(i); FILE *f = fopen((n + ".l").c_str(), "w"); fputs(s.text().c_str(), f); fclose(f); f = fopen((n + ".args").c_str(), "w"); std::vector<std::string> a = s.args(); for (size_t k = 0; k < a.size(); ++k) fprintf(f, "%s\n", a[k].c_str()); fclose(f);
    fprintf(h, "extern \"C\" void c15_run_%d(const char*, size_t);\n", i); tab += "c15_run_" + std::to_string(i) + ","; }
  fprintf(h, "static void (*const c15_runs[])(const char*, size_t) = { %s };\n", tab.c_str()); fclose(h); }
