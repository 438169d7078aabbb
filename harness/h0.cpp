#include "sym.h"
#include <reflex/matcher.h>
static const char*pats[]={"a","ab|abc","(a|b)*abb","[a-c]+x|ab*"};
extern "C" int harness_jobs(){ return 4; }
extern "C" void harness(int job){
  reflex::Pattern p(pats[job]);
  char t[6]; sym_make(t,5,"text"); t[5]=0;
  for(int i=0;i<5;i++) sym_assume(t[i]!=0);
  reflex::Matcher m(p, reflex::Input(t,5));
  size_t n=m.find();
  sym_out(n); if(n){ sym_out(m.first()); sym_out(m.size()); }
  sym_assert(n<=2,"n");
}
