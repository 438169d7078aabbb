#pragma once
static std::unordered_map<std::string,Builtin> BT;
static int rt(Exec&X,const char*fn,CallInfo&ci,Val*a,int n){ auto it=X.fname.find(fn); if(it==X.fname.end()||it->second->F->isDeclaration()) X.die(std::string("runtime function missing: ")+fn); X.call(it->second,&ci,a,n); return X.st?1:2; }
static bool copyBytes(Exec&X,u64 d,u64 s,u64 n){ // memmove semantics incl. symbolic overlay and init bits
  if(!n) return true; if(!X.memcheck(s,n,false)||!X.memcheck(d,n,true)) return false;
  auto one=[&](u64 i){ bool ud=false; Expr*e=X.byteE(s+i,ud); if(e) X.setByte(d+i,e); else { u8 b=X.rd(s+i)->data[(s+i)&(PS-1)]; Page*p=X.wr(d+i); unsigned off=(d+i)&(PS-1); if(p->sym&&p->sym[off]){ p->sym[off]=nullptr; p->nsym--; } p->data[off]=b; if(ud) p->init[off>>6]&=~(1ULL<<(off&63)); else p->init[off>>6]|=1ULL<<(off&63); } };
  auto chunk=[&](u64 i,unsigned k){ // both within pages, no symbolic
    Page*q=X.wr(d+i); Page*p=X.rd(s+i); unsigned so=(s+i)&(PS-1),dof=(d+i)&(PS-1); if(p->nsym||q->nsym){ return false; } u8 tmp[PS]; memcpy(tmp,p->data+so,k); u64 ib[9]; for(unsigned j=0;j<k;j+=64) ib[j/64]=bitwin(p->init,so+j,k-j>64?64:k-j); memcpy(q->data+dof,tmp,k); for(unsigned j=0;j<k;j+=64){ unsigned m=k-j>64?64:k-j; u64 v=ib[j/64]; if(v==(m>=64?~0ULL:((1ULL<<m)-1))) bitset(q->init,dof+j,m,true); else for(unsigned t=0;t<m;t++){ unsigned o=dof+j+t; if(v>>t&1) q->init[o>>6]|=1ULL<<(o&63); else q->init[o>>6]&=~(1ULL<<(o&63)); } } return true; };
  if(d<=s||d>=s+n){ for(u64 i=0;i<n;){ unsigned k=std::min<u64>(n-i,std::min(PS-((s+i)&(PS-1)),PS-((d+i)&(PS-1)))); if(d<s&&s-d<k){ /* overlapping forward: chunk copies via tmp are fine */ } if(!chunk(i,k)) for(unsigned j=0;j<k;j++) one(i+j); i+=k; } }
  else for(u64 i=n;i-->0;) one(i);
  return true; }
static bool anySymRange(Exec&X,u64 a,u64 n){ for(u64 i=0;i<n;){ Page*p=X.rd(a+i); unsigned off=(a+i)&(PS-1),k=std::min<u64>(n-i,PS-off); if(p->nsym) for(unsigned j=0;j<k;j++) if(p->sym[off+j]) return true; i+=k; } return false; }
static int bMemcpy(Exec&X,CallInfo&,Val*a){ for(int i=0;i<3;i++) if(a[i].e) X.conc(a[i],64); if(!copyBytes(X,a[0].c,a[1].c,a[2].c)){ X.kill(); return 2; } X.ret[0]=a[0]; return 0; }
static int bMemset(Exec&X,CallInfo&ci,Val*a){ if(a[0].e) X.conc(a[0],64); if(a[2].e) X.conc(a[2],64); u64 d=a[0].c,n=a[2].c; X.ret[0]=a[0]; if(!n) return 0; if(!X.memcheck(d,n,true)){ X.kill(); return 2; }
  if(a[1].e){ Expr*x=X.P.extract(a[1].e,0,8); for(u64 i=0;i<n;i++) X.setByte(d+i,x); return 0; }
  u8 c=a[1].c; for(u64 i=0;i<n;){ Page*p=X.wr(d+i); unsigned off=(d+i)&(PS-1),k=std::min<u64>(n-i,PS-off); memset(p->data+off,c,k); bitset(p->init,off,k,true); if(p->nsym) for(unsigned j=0;j<k;j++) if(p->sym[off+j]){ p->sym[off+j]=nullptr; p->nsym--; } i+=k; } return 0; }
static int bMemcmp(Exec&X,CallInfo&ci,Val*a){ if(a[2].e) X.conc(a[2],64); if(a[0].e) X.conc(a[0],64); if(a[1].e) X.conc(a[1],64); u64 n=a[2].c; if(n==0){ X.ret[0]={0,nullptr}; return 0; } 
  if(!X.validRange(a[0].c,n)||!X.validRange(a[1].c,n)||anySymRange(X,a[0].c,n)||anySymRange(X,a[1].c,n)) return rt(X,"symrt_memcmp",ci,a,3);
  for(u64 i=0;i<n;i++){ int x=X.rd(a[0].c+i)->data[(a[0].c+i)&(PS-1)],y=X.rd(a[1].c+i)->data[(a[1].c+i)&(PS-1)]; if(x!=y){ X.ret[0]={(u64)(u32)(x-y),nullptr}; return 0; } } X.ret[0]={0,nullptr}; return 0; }
static int bMemchr(Exec&X,CallInfo&ci,Val*a){ if(a[2].e) X.conc(a[2],64); if(a[0].e) X.conc(a[0],64); u64 n=a[2].c; if(n==0){ X.ret[0]={0,nullptr}; return 0; } if(a[1].e||!X.validRange(a[0].c,n)||anySymRange(X,a[0].c,n)) return rt(X,"symrt_memchr",ci,a,3);
  u8 c=a[1].c; for(u64 i=0;i<n;i++) if(X.rd(a[0].c+i)->data[(a[0].c+i)&(PS-1)]==c){ X.ret[0]={a[0].c+i,nullptr}; return 0; } X.ret[0]={0,nullptr}; return 0; }
static int bStrlen(Exec&X,CallInfo&ci,Val*a){ if(a[0].e) X.conc(a[0],64); u64 p=a[0].c; for(u64 i=0;;i++){ if(!X.validRange(p+i,1)){ X.violation("memory","strlen reads past the end",nullptr,X.where(p+i)); X.kill(); return 2; } bool ud=false; if(X.byteE(p+i,ud)) return rt(X,"symrt_strlen",ci,a,1); if(X.rd(p+i)->data[(p+i)&(PS-1)]==0){ X.ret[0]={i,nullptr}; return 0; } } }
template<const char*N,int K> static int bRt(Exec&X,CallInfo&ci,Val*a){ return rt(X,N,ci,a,K); }
static std::string cstr(Exec&X,Val v){ std::string s; if(v.e) return "?"; for(u64 p=v.c;s.size()<4000;p++){ if(!X.validRange(p,1)) break; bool ud=false; Expr*e=X.byteE(p,ud); u8 b=e?'?':X.rd(p)->data[p&(PS-1)]; if(!b) break; s+=b; } return s; }
static int bMalloc(Exec&X,CallInfo&,Val*a){ if(a[0].e) X.conc(a[0],64); X.ret[0]={X.heapAlloc(a[0].c,1),nullptr}; return 0; }
static int bCalloc(Exec&X,CallInfo&,Val*a){ if(a[0].e) X.conc(a[0],64); if(a[1].e) X.conc(a[1],64); u64 n=a[0].c*a[1].c,p=X.heapAlloc(n,1); if(p&&n) X.mark(p,n,true,true); X.ret[0]={p,nullptr}; return 0; }
template<int K> static int bNew(Exec&X,CallInfo&ci,Val*a){ if(a[0].e) X.conc(a[0],64); u64 n=a[0].c; u64 p=X.heapAlloc(n,K); if(!p){ auto it=X.fname.find("symrt_bad_alloc"); if(it!=X.fname.end()){ X.call(it->second,&ci,a,0); return X.st?1:2; } X.violation("alloc","allocation of "+std::to_string(n)+" bytes",nullptr); X.kill(); return 2; } X.ret[0]={p,nullptr}; return 0; }
template<int K> static int bFree(Exec&X,CallInfo&,Val*a){ if(a[0].e) X.conc(a[0],64); if(!X.heapFree(a[0].c,K)){ X.kill(); return 2; } return 0; }
static int bRealloc(Exec&X,CallInfo&,Val*a){ if(a[0].e) X.conc(a[0],64); if(a[1].e) X.conc(a[1],64); u64 p=X.heapAlloc(a[1].c,1); if(a[0].c&&p){ u64 o=X.heapSize(a[0].c); u64 n=std::min<u64>(o,a[1].c); if(n&&!copyBytes(X,p,a[0].c,n)){ X.kill(); return 2; } if(!X.heapFree(a[0].c,1)){ X.kill(); return 2; } } X.ret[0]={p,nullptr}; return 0; }
static int bMemalign(Exec&X,CallInfo&,Val*a){ if(a[2].e) X.conc(a[2],64); u64 al=a[1].c; u64 p=X.heapAlloc(a[2].c,1); if(al>16) { // pad so that the header stays in front
    X.heapFree(p,1); u32 h=X.st->heapTop; u64 want=((u64)h+16+al-1)/al*al; X.st->heapTop=want-16; p=X.heapAlloc(a[2].c,1); }
  if(!X.store(a[0].c,64,{p,nullptr})){ X.kill(); return 2; } X.ret[0]={0,nullptr}; return 0; }
static int bNop0(Exec&X,CallInfo&,Val*){ X.ret[0]={0,nullptr}; X.ret[1]={0,nullptr}; return 0; }
static int bAbort(Exec&X,CallInfo&ci,Val*){ X.violation("abort","call of "+ci.name,nullptr); X.kill(); return 2; }
static int bExit(Exec&X,CallInfo&ci,Val*){ X.violation("exit","call of "+ci.name,nullptr); X.kill(); return 2; }
static int bAllocEx(Exec&X,CallInfo&,Val*a){ X.ret[0]={X.heapAlloc(a[0].c,9),nullptr}; return 0; }
static int bFreeEx(Exec&X,CallInfo&,Val*a){ X.heapFree(a[0].c,9); return 0; }
static int bThrow(Exec&X,CallInfo&,Val*a){ X.st->exc.push_back({a[0].c,a[1].c,a[2].c,0}); X.unwind(a[0].c); return X.st?1:2; }
static int bRethrow(Exec&X,CallInfo&,Val*a){ if(X.st->caught.empty()) X.die("rethrow"); u64 o=X.st->caught.back(); X.st->caught.pop_back(); X.unwind(o); return X.st?1:2; }
static int bBeginCatch(Exec&X,CallInfo&,Val*a){ X.st->caught.push_back(a[0].c); X.ret[0]=a[0]; return 0; }
static int bGetEx(Exec&X,CallInfo&,Val*a){ X.ret[0]=a[0]; return 0; }
static int bEndCatch(Exec&X,CallInfo&ci,Val*a){ if(X.st->caught.empty()) return 0; u64 o=X.st->caught.back(); X.st->caught.pop_back(); for(u64 c:X.st->caught) if(c==o) return 0; u64 dt=0; for(size_t i=0;i<X.st->exc.size();i++) if(X.st->exc[i].obj==o){ dt=X.st->exc[i].dtor; X.st->exc.erase(X.st->exc.begin()+i); break; }
  if(dt){ Func*f=X.fnByIdx[(dt-FN0)/16]; if(!f->F->isDeclaration()){ // advance first, then run the destructor
      if(ci.normal) X.jump(ci.normal); else X.st->fr.back().pc++; Val v={o,nullptr}; X.call(f,nullptr,&v,1); return 1; } }
  return 0; }
static int bTerminate(Exec&X,CallInfo&ci,Val*){ X.violation("terminate","std::terminate reached ("+ci.name+")",nullptr); X.kill(); return 2; }
static int bTypeid(Exec&X,CallInfo&,Val*a){ X.ret[0]={(u64)X.tiId(a[0].c),nullptr}; return 0; }
// integer intrinsics
#define W1 (X.tw(ci.cb->getType()->getScalarType()))
static int bMinMax(Exec&X,CallInfo&ci,Val*a){ int k=ci.rslots; unsigned w=W1; const std::string&n=ci.name; EOp op=n[5]=='u'?E_ULT:E_SLT; bool mx=n[7]=='x'||n[6]=='m'&&n[7]=='a'; mx=n.compare(6,3,"max")==0; std::vector<Val> o(k); for(int i=0;i<k;i++){ Val x=a[i],y=a[k+i]; Expr*c=X.P.bin(op,X.E(x,w),X.E(y,w)); Expr*r=mx?X.P.ite(c,X.E(y,w),X.E(x,w)):X.P.ite(c,X.E(x,w),X.E(y,w)); o[i]=X.V(r); } if(k>8) { for(int i=0;i<k;i++) X.setr(ci.dst+i,o[i]); if(ci.normal) X.jump(ci.normal); else X.st->fr.back().pc++; return 1; } for(int i=0;i<k;i++) X.ret[i]=o[i]; return 0; }
static int bAbs(Exec&X,CallInfo&ci,Val*a){ unsigned w=W1; Expr*x=X.E(a[0],w); X.ret[0]=X.V(X.P.ite(X.P.bin(E_SLT,x,X.P.cst(w,0)),X.P.bin(E_SUB,X.P.cst(w,0),x),x)); return 0; }
static int bCount(Exec&X,CallInfo&ci,Val*a){ unsigned w=W1; const std::string&n=ci.name; bool lz=n.find("ctlz")!=std::string::npos,tz=n.find("cttz")!=std::string::npos; 
  if(!a[0].e){ u64 v=a[0].c; u64 r; if(lz) r=v?__builtin_clzll(v)-(64-w):w; else if(tz) r=v?__builtin_ctzll(v):w; else r=__builtin_popcountll(v); X.ret[0]={r,nullptr}; return 0; }
  Expr*e=a[0].e,*r; if(lz||tz){ r=X.P.cst(w,w); for(unsigned i=0;i<w;i++){ unsigned b=tz?w-1-i:i; r=X.P.ite(X.P.extract(e,b,1),X.P.cst(w,tz?b:w-1-b),r); } } else { r=X.P.cst(w,0); for(unsigned b=0;b<w;b++) r=X.P.bin(E_ADD,r,w==1?X.P.extract(e,b,1):X.P.zext(X.P.extract(e,b,1),w)); }
  X.ret[0]=X.V(r); return 0; }
static int bBswap(Exec&X,CallInfo&ci,Val*a){ unsigned w=W1; Expr*e=X.E(a[0],w),*r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*b=X.P.extract(e,i,8); r=r?X.P.concat(r,b):b; } X.ret[0]=X.V(r); return 0; }
static int bFsh(Exec&X,CallInfo&ci,Val*a){ unsigned w=W1; bool l=ci.name.find("fshl")!=std::string::npos; if(a[2].e) X.conc(a[2],w); unsigned s=a[2].c%w; Expr*x=X.E(a[0],w),*y=X.E(a[1],w); if(s==0){ X.ret[0]=l?a[0]:a[1]; return 0; } unsigned sl=l?s:w-s; X.ret[0]=X.V(X.P.bin(E_OR,X.P.bin(E_SHL,x,X.P.cst(w,sl)),X.P.bin(E_LSHR,y,X.P.cst(w,w-sl)))); return 0; }
static int bOverflow(Exec&X,CallInfo&ci,Val*a){ unsigned w=ci.aw[0]; const std::string&n=ci.name; Expr*x=X.E(a[0],w),*y=X.E(a[1],w); bool sg=n[5]=='s'; std::string o=n.substr(6,3);
  if(o=="mul"){ if(a[0].e||a[1].e) { if(!sg&&!a[1].e&&a[1].c){ Expr*r=X.P.bin(E_MUL,x,y); X.ret[0]=X.V(r); X.ret[1]=X.V(X.P.not_(X.P.bin(E_ULE,x,X.P.cst(w,maskw(w)/a[1].c)))); return 0; } X.die("symbolic mul overflow"); } if(sg){ __int128 p=(__int128)sextw(a[0].c,w)*sextw(a[1].c,w); X.ret[0]={(u64)p&maskw(w),nullptr}; X.ret[1]={(u64)((__int128)sextw((u64)p,w)!=p),nullptr}; } else { unsigned __int128 p=(unsigned __int128)a[0].c*a[1].c; X.ret[0]={(u64)p&maskw(w),nullptr}; X.ret[1]={(u64)((p>>w)!=0),nullptr}; } return 0; }
  Expr*r=X.P.bin(o=="add"?E_ADD:E_SUB,x,y); Expr*ov; Expr*z=X.P.cst(w,0); if(!sg) ov=o=="add"?X.P.bin(E_ULT,r,x):X.P.bin(E_ULT,x,y); else { Expr*sx=X.P.bin(E_SLT,x,z),*sy=X.P.bin(E_SLT,y,z),*sr=X.P.bin(E_SLT,r,z); if(o=="add") ov=X.P.and_(X.P.eq(sx,sy),X.P.not_(X.P.eq(sr,sx))); else ov=X.P.and_(X.P.not_(X.P.eq(sx,sy)),X.P.not_(X.P.eq(sr,sx))); }
  X.ret[0]=X.V(r); X.ret[1]=X.V(ov); return 0; }
static int bSat(Exec&X,CallInfo&ci,Val*a){ unsigned w=W1; int k=ci.rslots; bool sub=ci.name.find("sub")!=std::string::npos; if(ci.name[5]!='u') X.die("ssat"); std::vector<Val> o(k); for(int i=0;i<k;i++){ Expr*x=X.E(a[i],w),*y=X.E(a[k+i],w); if(sub) o[i]=X.V(X.P.ite(X.P.bin(E_ULT,x,y),X.P.cst(w,0),X.P.bin(E_SUB,x,y))); else { Expr*r=X.P.bin(E_ADD,x,y); o[i]=X.V(X.P.ite(X.P.bin(E_ULT,r,x),X.P.cst(w,~0ULL),r)); } } if(k>8){ for(int i=0;i<k;i++) X.setr(ci.dst+i,o[i]); X.st->fr.back().pc++; return 1; } for(int i=0;i<k;i++) X.ret[i]=o[i]; return 0; }
static int bReduce(Exec&X,CallInfo&ci,Val*a){ unsigned w=W1; int k=ci.aslots[0]; const std::string&n=ci.name; EOp op=n.find(".or.")!=std::string::npos?E_OR:n.find(".and.")!=std::string::npos?E_AND:n.find(".add.")!=std::string::npos?E_ADD:n.find(".xor.")!=std::string::npos?E_XOR:E_EQ; if(op==E_EQ) X.die(n); Expr*r=X.E(a[0],w); for(int i=1;i<k;i++) r=X.P.bin(op,r,X.E(a[i],w)); X.ret[0]=X.V(r); return 0; }
static int bMovmsk(Exec&X,CallInfo&ci,Val*a){ int k=ci.aslots[0]; Expr*r=nullptr; bool sy=false; u64 c=0; for(int i=0;i<k;i++){ if(a[i].e) sy=true; else c|=((a[i].c>>7)&1)<<i; } if(!sy){ X.ret[0]={c,nullptr}; return 0; } for(int i=0;i<k;i++){ Expr*b=X.P.extract(X.E(a[i],8),7,1); r=r?X.P.concat(b,r):b; } X.ret[0]=X.V(X.P.zext(r,32)); return 0; }
static int bObjsize(Exec&X,CallInfo&ci,Val*a){ X.ret[0]={~0ULL,nullptr}; return 0; }
static int bLoadRel(Exec&X,CallInfo&ci,Val*a){ if(a[1].e) X.conc(a[1],64); Val v; if(!X.load(a[0].c+a[1].c,32,v)){ X.kill(); return 2; } X.ret[0]={a[0].c+(u64)sextw(v.c,32),nullptr}; return 0; }
static int bExpect(Exec&X,CallInfo&ci,Val*a){ X.ret[0]=a[0]; return 0; }
static int bVaStart(Exec&X,CallInfo&ci,Val*a){ Frame&f=X.st->fr.back(); u64 n=f.va.size(); u64 m=X.stackAlloc(8*n+8); for(u64 i=0;i<n;i++){ Val v=f.va[i]; X.storeRaw(m+8*i,64,v.e?Val{0,X.P.zext(v.e,64)}:v); } u64 p=a[0].c; X.store(p,32,{48,nullptr}); X.store(p+4,32,{176,nullptr}); X.store(p+8,64,{m,nullptr}); X.store(p+16,64,{0,nullptr}); return 0; }
static int bVaCopy(Exec&X,CallInfo&ci,Val*a){ copyBytes(X,a[0].c,a[1].c,24); return 0; }
static int bStackSave(Exec&X,CallInfo&ci,Val*a){ X.ret[0]={X.st->stackTop,nullptr}; return 0; }
static int bStackRestore(Exec&X,CallInfo&ci,Val*a){ u32 t=a[0].c; if(t<X.st->stackTop){ X.mark(t,X.st->stackTop-t,false,false); X.st->stackTop=t; } return 0; }
// fp
static int bFabs(Exec&X,CallInfo&ci,Val*a){ X.ret[0]={ci.rw==64?dBits(fabs(bitsD(a[0].c))):fBits(fabsf(bitsF(a[0].c))),nullptr}; return 0; }
// ---- harness API
static int sMake(Exec&X,CallInfo&ci,Val*a){ u64 p=a[0].c,n=a[1].c; std::string nm=cstr(X,a[2]); if(n&&!X.memcheck(p,n,true)){ X.kill(); return 2; } int v0=-1; for(u64 i=0;i<n;i++){ int v=X.newVar(false); if(i==0) v0=v; X.setByte(p+i,X.P.var(v)); } if(n==0) return 0; X.st->in.push_back({nm,v0,(int)n,0}); return 0; }
static int sInt(Exec&X,CallInfo&ci,Val*a){ i64 lo=sextw(a[0].c,32),hi=sextw(a[1].c,32); std::string nm=cstr(X,a[2]); // fork over all values
  for(i64 v=hi;v>lo;v--){ State*o=X.st->clone(); X.flushTlb(); o->in.push_back({nm,-1,0,v}); o->regs[o->fr.back().base+ci.dst]={(u64)(u32)v,nullptr}; if(ci.normal) X.jumpS(o,ci.normal); else o->fr.back().pc++; X.push(o); }
  X.st->in.push_back({nm,-1,0,lo}); X.ret[0]={(u64)(u32)lo,nullptr}; return 0; }
static int sSat(Exec&X,CallInfo&ci,Val*a){ std::string nm=cstr(X,a[1]); int r=0; if(!a[0].e) r=(a[0].c&maskw(ci.aw[0]))!=0; else { Expr*c=ci.aw[0]==1?a[0].e:X.P.not_(X.P.eq(a[0].e,X.P.cst(ci.aw[0],0))); X.nAssertQ++; r=X.feas(c); } X.st->in.push_back({nm,-1,0,r}); X.ret[0]={(u64)r,nullptr}; return 0; }
static int sAssume(Exec&X,CallInfo&ci,Val*a){ if(!a[0].e){ if(a[0].c&maskw(ci.aw[0])) return 0; X.nAssumeEnd++; X.endPath(false); return 2; } Expr*c=ci.aw[0]==1?a[0].e:X.P.not_(X.P.eq(a[0].e,X.P.cst(ci.aw[0],0))); if(!X.feas(c)){ X.nAssumeEnd++; X.endPath(false); return 2; } X.addCons(X.st,c); return 0; }
static int sAssert(Exec&X,CallInfo&ci,Val*a){ X.nAsserts++; X.st->nasserts++; if(!a[0].e){ if(a[0].c&maskw(ci.aw[0])) return 0; X.violation("assert",cstr(X,a[1]),nullptr); X.kill(); return 2; }
  Expr*c=ci.aw[0]==1?a[0].e:X.P.not_(X.P.eq(a[0].e,X.P.cst(ci.aw[0],0))); if(c->op==E_CONST){ if(c->imm) return 0; X.violation("assert",cstr(X,a[1]),nullptr); X.kill(); return 2; }
  if(optUndef&&X.dependsUndef(c)) X.violation("uninit","asserted value depends on uninitialised memory: "+cstr(X,a[1]),nullptr);
  Expr*n=X.P.not_(c); X.nAssertQ++; auto&r=X.solve(n); if(r.r==0) return 0; if(r.r<0) return 0; X.violation("assert",cstr(X,a[1]),n); if(!X.feas(c)){ X.kill(); return 2; } X.addCons(X.st,c); return 0; }
static int sKnown(Exec&X,CallInfo&ci,Val*a){ std::string id=cstr(X,a[1]); if(!a[0].e){ if(!(a[0].c&maskw(ci.aw[0]))) return 0; X.known(id,nullptr); X.nAssumeEnd++; X.endPath(false); return 2; }
  Expr*c=ci.aw[0]==1?a[0].e:X.P.not_(X.P.eq(a[0].e,X.P.cst(ci.aw[0],0))); if(c->op!=E_CONST&&!X.feas(c)) return 0; X.known(id,c); Expr*n=X.P.not_(c); if(!X.feas(n)){ X.nAssumeEnd++; X.endPath(false); return 2; } X.addCons(X.st,n); return 0; }
static int sFail(Exec&X,CallInfo&ci,Val*a){ X.nAsserts++; X.violation("assert",cstr(X,a[0]),nullptr); X.kill(); return 2; }
static int sCover(Exec&X,CallInfo&ci,Val*a){ X.covers.insert(cstr(X,a[0])); return 0; }
static int sOut(Exec&X,CallInfo&ci,Val*a){ X.st->outs.push_back(a[0]); return 0; }
static int sStop(Exec&X,CallInfo&ci,Val*a){ X.endPath(true); return 2; }
static int sNote(Exec&X,CallInfo&ci,Val*a){ X.st->note=cstr(X,a[0]); return 0; }
static int sConc(Exec&X,CallInfo&ci,Val*a){ if(a[0].e) X.conc(a[0],64,70000); X.ret[0]=a[0]; return 0; }
static int sFreeze(Exec&X,CallInfo&ci,Val*a){ X.st->frozen=true; X.st->frozenTop=X.st->heapTop; return 0; }
static int sUnfreeze(Exec&X,CallInfo&ci,Val*a){ X.st->frozen=false; X.st->thaw.clear(); return 0; }
static int sThaw(Exec&X,CallInfo&ci,Val*a){ X.st->thaw.push_back({(u32)a[0].c,(u32)(a[0].c+a[1].c)}); return 0; }
static int sReadable(Exec&X,CallInfo&ci,Val*a){ X.ret[0]={X.validRange(a[0].c,a[1].c),nullptr}; return 0; }
static int sIte(Exec&X,CallInfo&ci,Val*a){ Expr*c=X.E(a[0],ci.aw[0]); c=ci.aw[0]==1?c:X.P.not_(X.P.eq(c,X.P.cst(ci.aw[0],0))); X.ret[0]=X.V(X.P.ite(c,X.E(a[1],64),X.E(a[2],64))); return 0; }
static int sIsSym(Exec&X,CallInfo&ci,Val*a){ X.ret[0]={1,nullptr}; return 0; }
static int sLog(Exec&X,CallInfo&ci,Val*a){ if(optVerbose) fprintf(stderr,"LOG %s %lld%s\n",cstr(X,a[0]).c_str(),(long long)a[1].c,a[1].e?" (sym)":""); return 0; }
static int bCpuid(Exec&X,CallInfo&ci,Val*a){ u64 leaf=a[0].c; X.ret[0]={leaf==0?1ULL:0ULL,nullptr}; X.ret[1]={0,nullptr}; X.ret[2]={0,nullptr}; X.ret[3]={leaf==1?(1ULL<<26):0ULL,nullptr}; return 0; } // a CPU with SSE2 and nothing newer
static const char N_strcmp[]="symrt_strcmp",N_strncmp[]="symrt_strncmp",N_strchr[]="symrt_strchr",N_strcpy[]="symrt_strcpy";
static Builtin builtin_prefix(const std::string&n){
  auto sw=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(sw("llvm.memcpy.")||sw("llvm.memmove.")) return bMemcpy; if(sw("llvm.memset.")) return bMemset;
  if(sw("llvm.umax.")||sw("llvm.umin.")||sw("llvm.smax.")||sw("llvm.smin.")) return bMinMax;
  if(sw("llvm.abs.")) return bAbs; if(sw("llvm.ctlz.")||sw("llvm.cttz.")||sw("llvm.ctpop.")) return bCount; if(sw("llvm.bswap.")) return bBswap; if(sw("llvm.fshl.")||sw("llvm.fshr.")) return bFsh;
  if(n.find(".with.overflow.")!=std::string::npos) return bOverflow; if(sw("llvm.usub.sat.")||sw("llvm.uadd.sat.")) return bSat; if(sw("llvm.vector.reduce.")) return bReduce;
  if(sw("llvm.x86.sse2.pmovmskb")||sw("llvm.x86.avx2.pmovmskb")) return bMovmsk; if(sw("llvm.load.relative")) return bLoadRel; if(sw("llvm.objectsize")) return bObjsize; if(sw("llvm.expect.")||sw("llvm.launder.invariant")||sw("llvm.strip.invariant")) return bExpect;
  if(sw("llvm.va_start")) return bVaStart; if(sw("llvm.va_copy")) return bVaCopy; if(sw("llvm.va_end")) return bNop0; if(sw("llvm.stacksave")) return bStackSave; if(sw("llvm.stackrestore")) return bStackRestore;
  if(sw("llvm.fabs.")) return bFabs; if(sw("llvm.eh.typeid.for")) return bTypeid; if(sw("llvm.trap")||sw("llvm.debugtrap")||sw("llvm.ubsantrap")) return bAbort;
  return nullptr; }
Builtin Exec::builtin(const std::string&n){
  if(BT.empty()){
    auto&B=BT; B["memcpy"]=B["memmove"]=bMemcpy; B["memset"]=bMemset; B["memcmp"]=B["bcmp"]=bMemcmp; B["memchr"]=bMemchr; B["strlen"]=bStrlen; B["strcmp"]=bRt<N_strcmp,2>; B["strncmp"]=bRt<N_strncmp,3>; B["strchr"]=bRt<N_strchr,2>; B["strcpy"]=bRt<N_strcpy,2>;
    B["malloc"]=bMalloc; B["calloc"]=bCalloc; B["realloc"]=bRealloc; B["free"]=bFree<1>; B["_Znwm"]=bNew<2>; B["_Znam"]=bNew<3>; B["_ZdlPv"]=B["_ZdlPvm"]=bFree<2>; B["_ZdaPv"]=B["_ZdaPvm"]=bFree<3>; B["posix_memalign"]=bMemalign; B["_ZnwmRKSt9nothrow_t"]=bNew<2>; B["_ZdlPvRKSt9nothrow_t"]=bFree<2>;
    B["abort"]=B["__assert_fail"]=B["__cxa_pure_virtual"]=bAbort; B["exit"]=B["_exit"]=bExit;
    B["__cxa_allocate_exception"]=bAllocEx; B["__cxa_free_exception"]=bFreeEx; B["__cxa_throw"]=bThrow; B["__cxa_rethrow"]=bRethrow; B["__cxa_begin_catch"]=bBeginCatch; B["__cxa_end_catch"]=bEndCatch; B["__cxa_get_exception_ptr"]=bGetEx; B["__clang_call_terminate"]=B["_ZSt9terminatev"]=bTerminate;
    B["symx.cpuid"]=bCpuid; B["__cxa_atexit"]=B["printf"]=B["fprintf"]=B["vfprintf"]=B["puts"]=B["putchar"]=B["fputc"]=B["putc"]=B["fputs"]=B["fwrite"]=B["fflush"]=B["perror"]=bNop0;
    B["sym_make"]=sMake; B["sym_int"]=sInt; B["sym_sat"]=sSat; B["sym_assume"]=sAssume; B["sym_assert"]=sAssert; B["sym_fail"]=sFail; B["sym_known"]=sKnown; B["sym_cover"]=sCover; B["sym_out"]=sOut; B["sym_stop"]=sStop; B["sym_note"]=sNote; B["sym_conc"]=sConc; B["sym_freeze"]=sFreeze; B["sym_unfreeze"]=sUnfreeze; B["sym_thaw"]=sThaw; B["sym_readable"]=sReadable; B["sym_ite"]=sIte; B["sym_log"]=sLog; B["sym_is_symbolic"]=sIsSym;
  }
  auto it=BT.find(n); if(it!=BT.end()) return it->second; return builtin_prefix(n); }
