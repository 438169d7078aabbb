// Harness API. In the symbolic build these are intrinsics of symx; in the native (replay) build they read values from a file.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
extern "C" {
void sym_make(void *p, size_t n, const char *name);          // p[0..n) become arbitrary bytes
int  sym_int(int lo, int hi, const char *name);              // arbitrary value lo..hi (explored one by one, result concrete)
int  sym_sat(int c, const char *name);                      // 1 if c can hold on this path, else 0 (concrete)
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_fail(const char *msg);
void sym_known(int c, const char *id);                       // if c can hold: report the listed finding id, then continue with !c
void sym_cover(const char *label);                           // reachability witness
void sym_out(uint64_t v);                                    // recorded and compared with the native run
void sym_stop();                                             // end this path normally
void sym_note(const char *s);                                // describes the case (goes to reports)
uint64_t sym_conc(uint64_t v);                               // fork over the values of v
void sym_freeze();                                           // from now on writes to existing globals/heap are violations
void sym_unfreeze();
void sym_thaw(const void *p, size_t n);
int  sym_readable(const void *p, size_t n);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);             // c ? a : b without branching
void sym_log(const char *s, uint64_t v);
int  sym_is_symbolic();
FILE *sym_file(const void *data, size_t n);                  // a readable file with this content
void harness(int job);
int  harness_jobs();
}
