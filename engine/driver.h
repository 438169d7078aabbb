#pragma once
static std::string jesc(const std::string&s){ std::string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>=127){ char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
static std::string report(Exec&X,int job,double wall){ std::string o="{\"job\":"+std::to_string(job); auto N=[&](const char*k,double v){ char b[80]; snprintf(b,sizeof b,",\"%s\":%.10g",k,v); o+=b; };
  N("paths",X.nPaths);N("assume_ended",X.nAssumeEnd);N("killed",X.nErrEnd);N("forks",X.nForks);N("insts",X.nInst);N("asserts",X.nAsserts);N("assert_queries",X.nAssertQ);N("queries",X.S.nq);N("sat",X.S.nsat);N("unsat",X.S.nunsat);N("unknown",X.S.nunk);N("cached",X.S.ncache);N("solver_s",X.S.t);N("solver_max_s",X.S.tmax);N("sym_branches",X.nBranchSym);N("depth",X.depthMax);N("exprs",X.P.all.size());N("wall_s",wall);
  o+=",\"incomplete\":"+jesc(X.incomplete)+",\"covers\":["; bool f=true; for(auto&c:X.covers){ if(!f)o+=","; f=false; o+=jesc(c);} o+="],\"violations\":["; f=true; for(auto&v:X.viols){ if(!f)o+=","; f=false; o+="{\"kind\":"+jesc(v.kind)+",\"msg\":"+jesc(v.msg)+",\"func\":"+jesc(v.func)+",\"note\":"+jesc(v.note)+",\"inputs\":"+jesc(v.inputs)+"}"; }
  o+="],\"known\":["; f=true; for(auto&k:X.knowns){ if(!f)o+=","; f=false; o+="{\"id\":"+jesc(k.first)+",\"inputs\":"+jesc(k.second)+"}"; } o+="],\"samples\":["; f=true; for(auto&s:X.samples){ if(!f)o+=","; f=false; o+=jesc(s);} o+="],\"functions\":["; f=true; for(auto*fn:X.fnByIdx) if(fn->hit){ if(!f)o+=","; f=false; o+=jesc(fn->name);} o+="]}\n"; return o; }
int main(int argc,char**argv){
  const char*bc=nullptr; int workers=8; std::string out; std::vector<int> only; double total=1e9;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return std::string(argv[++i]); }; if(a=="--workers") workers=stoi(nx()); else if(a=="--out") out=nx(); else if(a=="--job") only.push_back(stoi(nx())); else if(a=="--job-time") optJobTime=stod(nx()); else if(a=="--max-paths") optMaxPaths=stoull(nx()); else if(a=="--max-inst") optMaxInst=stoull(nx()); else if(a=="--samples") optSamples=stoi(nx()); else if(a=="--no-undef") optUndef=false; else if(a=="-v") optVerbose=true; else if(a=="--total-time") total=stod(nx()); else bc=argv[i]; }
  double T0=now_s(); Exec X; X.loadModule(bc);
  auto*s=new State; s->heapTop=HEAP0; s->stackTop=STK0; X.st=s;
  int nj=1;
  auto runFn=[&](const char*n,std::vector<Val> a)->bool{ auto it=X.fname.find(n); if(it==X.fname.end()||it->second->F->isDeclaration()) return false; X.call(it->second,nullptr,a.data(),a.size()); while(X.st&&!X.st->fr.empty()) { X.step(); if(!X.incomplete.empty()) return false; } return X.st!=nullptr; };
  try {
    X.initGlobals();
    // static constructors in priority order
    if(auto*G=X.M->getGlobalVariable("llvm.global_ctors")) if(G->hasInitializer()) if(auto*CA=dyn_cast<ConstantArray>(G->getInitializer())){ std::vector<std::pair<u64,Function*>> v; for(auto&o:CA->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) if(!runFn(p.second->getName().str().c_str(),{})) { fprintf(stderr,"symx: static constructor failed: %s\n",X.viols.empty()?"":X.viols[0].msg.c_str()); return 2; } }
    if(X.fname.count("harness_jobs")&&!X.fname["harness_jobs"]->F->isDeclaration()){ runFn("harness_jobs",{}); if(!X.st) return 2; nj=(int)X.ret[0].c; }
  } catch(std::string&m){ return 2; }
  State*base=X.st; X.st=nullptr;
  double tinit=now_s()-T0; FILE*fo=out.empty()?stdout:fopen(out.c_str(),"w");
  std::vector<int> jobs; if(only.empty()) for(int j=0;j<nj;j++) jobs.push_back(j); else jobs=only;
  struct W { pid_t pid; int fd; int job; std::string buf; double t0; }; std::vector<W> ws; size_t next=0; int bad=0;
  fflush(fo);
  while(next<jobs.size()||!ws.empty()){
    while((int)ws.size()<workers&&next<jobs.size()){
      int job=jobs[next++]; int p[2]; if(pipe(p)) return 2; pid_t pid=fork();
      if(pid==0){ close(p[0]); for(auto&w:ws) close(w.fd); double t0=now_s(); X.jobT0=t0; X.nInst=0; X.st=base; X.epoch++; try { Func*h=X.fname["harness"]; Val a={(u64)job,nullptr}; X.call(h,nullptr,&a,1);
            // harness return ends the path
            while(X.st||!X.work.empty()){ if(!X.incomplete.empty()) break; if(X.viols.size()>=optMaxViol) break; if(now_s()-t0>optJobTime){ X.incomplete="time budget"; break; } if(X.nPaths+X.nAssumeEnd>=optMaxPaths){ X.incomplete="path budget"; break; }
              if(!X.st){ X.st=X.work.back(); X.work.pop_back(); X.flushTlb(); } X.step(); if(X.st&&X.st->fr.empty()) X.endPath(true); } } catch(std::string&m){ X.incomplete="fatal: "+m; }
          catch(std::bad_alloc&){ X.incomplete="out of memory"; }
        std::string r=report(X,job,now_s()-t0); size_t o=0; while(o<r.size()){ ssize_t k=write(p[1],r.data()+o,r.size()-o); if(k<=0) break; o+=k; } _exit(0); }
      close(p[1]); ws.push_back({pid,p[0],job,"",now_s()}); }
    std::vector<pollfd> pf; for(auto&w:ws) pf.push_back({w.fd,POLLIN,0}); poll(pf.data(),pf.size(),1000);
    for(size_t i=0;i<ws.size();){ bool done=false; if(pf[i].revents){ char b[65536]; ssize_t k=read(ws[i].fd,b,sizeof b); if(k>0) ws[i].buf.append(b,k); else done=true; }
      if(!done&&now_s()-ws[i].t0>optJobTime*1.5+60){ kill(ws[i].pid,SIGKILL); }
      if(done){ int stt; waitpid(ws[i].pid,&stt,0); close(ws[i].fd); if(ws[i].buf.empty()||ws[i].buf.back()!='\n'){ bad++; fprintf(fo,"{\"job\":%d,\"incomplete\":\"worker died (status %d)\"}\n",ws[i].job,stt); } else fputs(ws[i].buf.c_str(),fo); fflush(fo); ws.erase(ws.begin()+i); pf.erase(pf.begin()+i); } else i++; }
    if(now_s()-T0>total){ for(auto&w:ws){ kill(w.pid,SIGKILL); fprintf(fo,"{\"job\":%d,\"incomplete\":\"total time budget\"}\n",w.job);} for(;next<jobs.size();next++) fprintf(fo,"{\"job\":%d,\"incomplete\":\"total time budget (not started)\"}\n",jobs[next]); break; } }
  fprintf(fo,"{\"done\":true,\"jobs\":%zu,\"init_s\":%.3f,\"wall_s\":%.3f}\n",jobs.size(),tinit,now_s()-T0); if(!out.empty()) fclose(fo); return 0; }
