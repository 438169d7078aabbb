#pragma once
void Exec::run(){
  while(st||!work.empty()){
    if(!st){ if(nPaths+nAssumeEnd>=optMaxPaths){ incomplete="path budget"; return; } st=work.back(); work.pop_back(); flushTlb(); }
    if(!incomplete.empty()) return;
    step(); }
}
void Exec::step(){
  // runs the current state until it ends or a fork switches
  if(!jobT0) jobT0=now_s(); u64 cnt=0;
  #define SLOT(o,i) ((o)>=0?R[(o)+(i)]:CP[~(o)+(i)])
  while(st){
    Frame&F=st->fr.back(); Inst&I=F.f->code[F.pc]; Val*R=st->regs.data()+F.base; const Val*CP=cpool.data();
    ++nInst; if(++st->ninst>optMaxInst){ violation("hang","path executes more than "+std::to_string(optMaxInst)+" instructions",nullptr); kill(); return; }
    if((++cnt&0xfffff)==0&&now_s()-jobT0>optJobTime){ incomplete="time budget"; return; }
    switch(I.op){
      case I_NOP: F.pc++; break;
      case I_BIN: { int n=I.n; for(int i=0;i<n;i++){ const Val a=SLOT(I.a,i), b=SLOT(I.b,i); if(!a.e&&!b.e){ u64 r; 
            if((I.sub==E_UDIV||I.sub==E_SDIV||I.sub==E_UREM||I.sub==E_SREM)&&(b.c&maskw(I.w))==0){ violation("arith","division by zero",nullptr); kill(); return; }
            evalBin((EOp)I.sub,I.w,a.c,b.c,r); R[I.dst+i]={r,nullptr}; }
          else { Expr*eb=E(b,I.w); if((I.sub==E_UDIV||I.sub==E_SDIV||I.sub==E_UREM||I.sub==E_SREM)&&eb->op!=E_CONST){ Expr*z=P.eq(eb,P.cst(I.w,0)); if(feas(z)){ violation("arith","division by zero",z); Expr*nz=P.not_(z); if(!feas(nz)){ kill(); return; } addCons(st,nz);} }
            R[I.dst+i]=V(P.bin((EOp)I.sub,E(a,I.w),eb)); } } F.pc++; break; }
      case I_ICMP: { int n=I.n; for(int i=0;i<n;i++){ Val a=SLOT(I.a,i), b=SLOT(I.b,i); EOp op; bool sw=false,ng=false; switch(I.sub){ case CmpInst::ICMP_EQ:op=E_EQ;break; case CmpInst::ICMP_NE:op=E_EQ;ng=true;break; case CmpInst::ICMP_ULT:op=E_ULT;break; case CmpInst::ICMP_ULE:op=E_ULE;break; case CmpInst::ICMP_UGT:op=E_ULT;sw=true;break; case CmpInst::ICMP_UGE:op=E_ULE;sw=true;break; case CmpInst::ICMP_SLT:op=E_SLT;break; case CmpInst::ICMP_SLE:op=E_SLE;break; case CmpInst::ICMP_SGT:op=E_SLT;sw=true;break; default:op=E_SLE;sw=true;break; }
          if(sw) std::swap(a,b); if(!a.e&&!b.e){ u64 r; evalBin(op,I.w,a.c,b.c,r); R[I.dst+i]={ng?!r:r,nullptr}; } else { Expr*e=P.bin(op,E(a,I.w),E(b,I.w)); if(ng) e=P.not_(e); R[I.dst+i]=V(e); } } F.pc++; break; }
      case I_FBIN: for(int i=0;i<I.n;i++){ Val a=SLOT(I.a,i),b=SLOT(I.b,i); if(a.e||b.e) die("symbolic floating point"); if(I.w==64){ double x=bitsD(a.c),y=bitsD(b.c),r=I.sub==0?x+y:I.sub==1?x-y:I.sub==2?x*y:I.sub==3?x/y:fmod(x,y); R[I.dst+i]={dBits(r),nullptr}; } else { float x=bitsF(a.c),y=bitsF(b.c),r=I.sub==0?x+y:I.sub==1?x-y:I.sub==2?x*y:I.sub==3?x/y:fmodf(x,y); R[I.dst+i]={fBits(r),nullptr}; } } F.pc++; break;
      case I_FNEG: for(int i=0;i<I.n;i++){ Val a=SLOT(I.a,i); if(a.e) die("symbolic floating point"); R[I.dst+i]={I.w==64?dBits(-bitsD(a.c)):fBits(-bitsF(a.c)),nullptr}; } F.pc++; break;
      case I_FCMP: for(int i=0;i<I.n;i++){ Val a=SLOT(I.a,i),b=SLOT(I.b,i); if(a.e||b.e) die("symbolic floating point"); double x=I.w==64?bitsD(a.c):bitsF(a.c),y=I.w==64?bitsD(b.c):bitsF(b.c); bool un=std::isnan(x)||std::isnan(y); int p=I.sub; bool r=((p&1)&&!un&&x==y)||((p&2)&&!un&&x>y)||((p&4)&&!un&&x<y)||((p&8)&&un); R[I.dst+i]={r,nullptr}; } F.pc++; break;
      case I_CAST: for(int i=0;i<I.n;i++){ Val a=SLOT(I.a,i); Val r={0,nullptr}; switch(I.sub){
          case Instruction::Trunc: if(!a.e) r.c=a.c&maskw(I.w2); else r=V(P.extract(a.e,0,I.w2)); break;
          case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: if(!a.e) r.c=a.c&maskw(std::min(I.w,I.w2)); else r=I.w2>=I.w?V(P.zext(a.e,I.w2)):V(P.extract(a.e,0,I.w2)); break;
          case Instruction::SExt: if(!a.e) r.c=(u64)sextw(a.c,I.w)&maskw(I.w2); else r=V(P.sext(a.e,I.w2)); break;
          default: { if(a.e){ conc(a,I.w); if(!st) return; } switch(I.sub){
            case Instruction::UIToFP: r.c=I.w2==64?dBits((double)(a.c&maskw(I.w))):fBits((float)(a.c&maskw(I.w))); break; case Instruction::SIToFP: r.c=I.w2==64?dBits((double)sextw(a.c,I.w)):fBits((float)sextw(a.c,I.w)); break;
            case Instruction::FPToUI: r.c=(u64)(I.w==64?bitsD(a.c):bitsF(a.c))&maskw(I.w2); break; case Instruction::FPToSI: r.c=(u64)(i64)(I.w==64?bitsD(a.c):bitsF(a.c))&maskw(I.w2); break;
            case Instruction::FPExt: r.c=dBits(bitsF(a.c)); break; case Instruction::FPTrunc: r.c=fBits(bitsD(a.c)); break; default: die("cast"); } R=st->regs.data()+st->fr.back().base; } }
          R[I.dst+i]=r; } F.pc++; break;
      case I_SELECT: { auto&L=*(std::vector<MemElt>*)I.x; for(int i=0;i<I.n;i++){ Val c=SLOT(I.a,I.imm?i:0); Val a=SLOT(I.b,i),b=SLOT(I.c,i); if(!c.e) R[I.dst+i]=c.c&1?a:b; else if(a.e==b.e&&a.c==b.c) R[I.dst+i]=a; else { R[I.dst+i]=V(P.ite(c.e,E(a,L[i].w),E(b,L[i].w))); } } F.pc++; break; }
      case I_LOAD: { Val a=SLOT(I.a,0); if(I.w){ Val v; if(a.e){ if(!loadSym(a.e,I.w,v)){ kill(); return; } } else if(!load(a.c,I.w,v)){ kill(); return; } st->regs[st->fr.back().base+I.dst]=v; }
          else { if(a.e){ conc(a,64); } auto&L=*(std::vector<MemElt>*)I.x; for(size_t i=0;i<L.size();i++){ Val v; if(!load(a.c+L[i].off,L[i].w,v)){ kill(); return; } st->regs[st->fr.back().base+I.dst+i]=v; } } st->fr.back().pc++; break; }
      case I_STORE: { Val a=SLOT(I.a,0); if(I.w){ Val v=SLOT(I.b,0); if(a.e){ bool fk; if(!storeSym(a.e,I.w,v,fk)){ kill(); return; } } else if(!store(a.c,I.w,v)){ kill(); return; } }
          else { if(a.e){ conc(a,64); R=st->regs.data()+F.base; } auto&L=*(std::vector<MemElt>*)I.x; for(size_t i=0;i<L.size();i++) if(!store(a.c+L[i].off,L[i].w,SLOT(I.b,i))){ kill(); return; } } F.pc++; break; }
      case I_GEP: { GepInfo&G=*(GepInfo*)I.x; Val a=SLOT(I.a,0); u64 off=G.off; Expr*e=a.e; u64 c=a.c; for(auto&ix:G.idx){ const Val v=SLOT((int)ix[0],0); if(!v.e) off+=(u64)sextw(v.c,ix[2])*(u64)ix[1]; else { Expr*t=P.sext(v.e,64); if(ix[2]>64) die("gep width"); t=P.bin(E_MUL,t,P.cst(64,ix[1])); e=e?P.bin(E_ADD,e,t):P.bin(E_ADD,t,P.cst(64,c)); } }
          if(!e) R[I.dst]={c+off,nullptr}; else R[I.dst]=V(P.bin(E_ADD,e,P.cst(64,off))); F.pc++; break; }
      case I_ALLOCA: { Val n=SLOT(I.a,0); if(n.e){ conc(n,I.w); } u64 a=stackAlloc(I.imm*n.c); setr(I.dst,{a,nullptr}); F.pc++; break; }
      case I_BR: jump((Edge*)I.x); break;
      case I_CBR: { const Val c=SLOT(I.a,0); auto*p=(std::pair<Edge*,Edge*>*)I.x; if(!c.e) jump(c.c&1?p->first:p->second); else branch(c.e,p->first,p->second); break; }
      case I_SWITCH: { SwInfo&S=*(SwInfo*)I.x; Val v=SLOT(I.a,0); if(!v.e){ auto it=S.m.find(v.c&maskw(I.w)); jump(S.edges[it==S.m.end()?S.def:it->second]); break; }
          nBranchSym++; if(optUndef) checkUndef(v.e,"switch"); std::vector<std::pair<Expr*,Edge*>> alt; Expr*any=P.cst(1,0); std::vector<Expr*> cs(S.edges.size(),P.cst(1,0));
          for(size_t k=0;k<S.edges.size();k++) for(u64 x:S.vals[k]){ cs[k]=P.or_(cs[k],P.eq(v.e,P.cst(I.w,x))); }
          for(size_t k=0;k<S.edges.size();k++) any=P.or_(any,cs[k]); cs[S.def]=P.or_(cs[S.def],P.not_(any));
          for(size_t k=0;k<S.edges.size();k++) if(feas(cs[k])) alt.push_back({cs[k],S.edges[k]});
          if(alt.empty()) die("switch"); for(size_t k=1;k<alt.size();k++){ State*o=st->clone(); flushTlb(); addCons(o,alt[k].first); jumpS(o,alt[k].second); push(o); }
          addCons(st,alt[0].first); jump(alt[0].second); break; }
      case I_RET: { Val tmp[64]; if(I.n>64) die("ret size"); for(int i=0;i<I.n;i++) tmp[i]=SLOT(I.a,i); doRet(tmp,I.n); if(st->fr.empty()) return; break; }
      case I_UNREACH: violation("unreachable","reached undefined behaviour (unreachable)",nullptr); kill(); return;
      case I_MOVE: for(int i=0;i<I.n;i++) R[I.dst+i]=SLOT(I.a,i); F.pc++; break;
      case I_INSERTV: for(int i=0;i<I.n;i++) R[I.dst+i]=SLOT(I.a,i); for(u64 i=0;i<I.imm;i++) R[I.dst+I.c+i]=SLOT(I.b,i); F.pc++; break;
      case I_EXTELT: { Val ix=SLOT(I.b,0); if(ix.e) conc(ix,I.w); R=st->regs.data()+F.base; R[I.dst]=ix.c<I.imm?SLOT(I.a,ix.c):Val{0,nullptr}; F.pc++; break; }
      case I_INSELT: { Val ix=SLOT(I.c,0); if(ix.e) conc(ix,I.w); for(int i=0;i<I.n;i++) R[I.dst+i]=SLOT(I.a,i); if(ix.c<I.n) R[I.dst+ix.c]=SLOT(I.b,0); F.pc++; break; }
      case I_SHUF: { auto&m=*(std::vector<int>*)I.x; Val t[256]; for(int i=0;i<I.n;i++) t[i]=m[i]<0?Val{0,nullptr}:(u64)m[i]<I.imm?SLOT(I.a,m[i]):SLOT(I.b,m[i]-I.imm); for(int i=0;i<I.n;i++) R[I.dst+i]=t[i]; F.pc++; break; }
      case I_BITCAST: { unsigned wi=I.w,wo=I.w2,ni=I.imm,no=I.n; Val t[256]; if(wi==wo){ for(unsigned i=0;i<no;i++) t[i]=SLOT(I.a,i); }
          else if(wi<wo){ unsigned k=wo/wi; for(unsigned i=0;i<no;i++){ bool sy=false; for(unsigned j=0;j<k;j++) if(SLOT(I.a,i*k+j).e) sy=true; if(!sy){ u64 v=0; for(unsigned j=0;j<k;j++) v|=(SLOT(I.a,i*k+j).c&maskw(wi))<<(j*wi); t[i]={v,nullptr}; } else { Expr*e=nullptr; for(unsigned j=0;j<k;j++){ Expr*x=E(SLOT(I.a,i*k+j),wi); e=e?P.concat(x,e):x; } t[i]=V(e); } } }
          else { unsigned k=wi/wo; for(unsigned i=0;i<ni;i++){ Val v=SLOT(I.a,i); for(unsigned j=0;j<k;j++) t[i*k+j]=v.e?V(P.extract(v.e,j*wo,wo)):Val{(v.c>>(j*wo))&maskw(wo),nullptr}; } }
          for(unsigned i=0;i<no;i++) R[I.dst+i]=t[i]; F.pc++; break; }
      case I_LPAD: F.pc++; break;
      case I_RESUME: { Val v=SLOT(I.a,0); 
          // unwind from this frame: treat as raising in the caller
          popFrame(); if(st->fr.empty()) die("resume"); unwind(v.c); if(!st) return; break; }
      case I_ARMW: { Val a=SLOT(I.a,0),b=SLOT(I.b,0),o; if(a.e) conc(a,64); if(!load(a.c,I.w,o)){ kill(); return; } Val nv; Expr*eo=E(o,I.w),*eb=E(b,I.w); switch(I.sub){ case AtomicRMWInst::Add: nv=V(P.bin(E_ADD,eo,eb)); break; case AtomicRMWInst::Sub: nv=V(P.bin(E_SUB,eo,eb)); break; case AtomicRMWInst::Xchg: nv=b; break; case AtomicRMWInst::Or: nv=V(P.bin(E_OR,eo,eb)); break; case AtomicRMWInst::And: nv=V(P.bin(E_AND,eo,eb)); break; default: die("atomicrmw"); } if(!store(a.c,I.w,nv)){ kill(); return; } setr(I.dst,o); F.pc++; break; }
      case I_CMPXCHG: { Val a=SLOT(I.a,0),b=SLOT(I.b,0),c=SLOT(I.c,0),o; if(a.e) conc(a,64); if(!load(a.c,I.w,o)){ kill(); return; } if(o.e||b.e) die("symbolic cmpxchg"); bool eq=o.c==b.c; if(eq&&!store(a.c,I.w,c)){ kill(); return; } setr(I.dst,o); setr(I.dst+1,{eq,nullptr}); F.pc++; break; }
      case I_CALL: { CallInfo*ci=(CallInfo*)I.x; Val args[64]; u32 na=0; u32 nf=0; for(size_t k=0;k<ci->args.size();k++){ if(na+ci->aslots[k]>60) die("too many args"); for(u32 j=0;j<ci->aslots[k];j++) args[na++]=SLOT(ci->args[k],j); if(k<ci->nfixed) nf=na; }
          Func*callee=ci->callee;
          if(ci->bi){ int r=ci->bi(*this,*ci,args); if(!st) return; if(r==0){ for(int i=0;i<ci->rslots;i++) setr(ci->dst+i,ret[i]); if(ci->normal) jump(ci->normal); else st->fr.back().pc++; break; } if(r==1) break; if(r==2) return; if(r!=4) break; }
          if(!callee){ if(ci->name.empty()){ Val fv=SLOT(ci->fnOp,0); if(fv.e){ conc(fv,64); } u64 ix=(fv.c-FN0)/16; if(fv.c<FN0||(fv.c-FN0)%16||ix>=fnByIdx.size()){ violation("memory","indirect call through invalid pointer",nullptr,where(fv.c)); kill(); return; } callee=fnByIdx[ix]; if(callee->F->isDeclaration()){ Builtin b=builtin(callee->name); if(!b) die("indirect call to undefined "+callee->name); int r=b(*this,*ci,args); if(!st) return; if(r==0){ for(int i=0;i<ci->rslots;i++) setr(ci->dst+i,ret[i]); if(ci->normal) jump(ci->normal); else st->fr.back().pc++; } break; } }
            else die("call to undefined function "+demangle(ci->name)); }
          if(callee->F->isDeclaration()) die("call to undefined function "+callee->dname);
          u32 smark=st->stackTop; for(size_t k=0,s=0;k<ci->args.size();k++){ if(ci->byval[k]){ u64 a=stackAlloc(ci->byval[k]); u64 src=args[s].c; for(u64 q=0;q<ci->byval[k];q++){ bool ud=false; Expr*e=byteE(src+q,ud); if(e) setByte(a+q,e); else if(!ud){ wr(a+q)->data[(a+q)&(PS-1)]=rd(src+q)->data[(src+q)&(PS-1)]; setByte(a+q,nullptr); } } args[s]={a,nullptr}; } s+=ci->aslots[k]; }
          bool va=callee->F->isVarArg(); call(callee,ci,args,va?nf:na,va?args+nf:nullptr,va?na-nf:0); if(!st) return; st->fr.back().stackMark=smark; break; }
      case I_BAD: die(*(std::string*)I.x);
      default: die("opcode");
    }
    if(!incomplete.empty()) return;
  }
}
