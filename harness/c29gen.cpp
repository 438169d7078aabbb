// native tool: writes specifications for every kind of Bison interface, their reflex options and the table of entry points
#include "sym.h"
#include "c29spec.h"
#include <stdio.h>
#ifndef JOBS
#define JOBS 26
#endif
extern "C" int harness_jobs() { return 1; }
extern "C" void harness(int) { FILE *h = fopen("c29_run.h", "w"); std::string tab;
  for (int i = 0; i < JOBS; ++i) { BSpec s(i); std::string n = "c29_" + std::to_string(i); FILE *f = fopen((n + ".l").c_str(), "w"); fputs(s.text().c_str(), f); fclose(f); f = fopen((n + ".args").c_str(), "w"); std::vector<std::string> a = s.args(); for (size_t k = 0; k < a.size(); ++k) fprintf(f, "%s\n", a[k].c_str()); fclose(f);
    fprintf(h, "extern \"C\" void c29_run_%d(const char*, size_t);\n", i); tab += "c29_run_" + std::to_string(i) + ","; }
  fprintf(h, "static void (*const c29_runs[])(const char*, size_t) = { %s };\n", tab.c_str()); fclose(h); }
