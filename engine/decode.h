#pragma once
void Exec::decode(Func*f){
  if(f->decoded) return; f->decoded=true; Function&F=*f->F; if(F.isDeclaration()) die("call of undefined function "+f->name);
  DecCtx D; u32 nr=0; for(auto&A:F.args()){ D.reg[&A]=nr; nr+=slots(A.getType()); } f->nparamSlots=nr;
  for(auto&B:F) for(auto&I:B){ unsigned n=slots(I.getType()); if(n){ D.reg[&I]=nr; nr+=n; } }
  f->nregs=nr; std::vector<Inst>&C=f->code;
  std::vector<std::pair<u32,Edge**>> dummy;
  for(auto&B:F){ D.bpc[&B]=C.size();
    for(auto&I:B){ Inst X; memset(&X,0,sizeof X); X.n=slots(I.getType()); auto it=D.reg.find(&I); X.dst=it!=D.reg.end()?it->second:-1; auto O=[&](unsigned k){ return opnd(D,I.getOperand(k)); };
      Type*T=I.getType(); Type*ST=T->getScalarType();
      if(isa<PHINode>(I)) continue;
      bool ok; EOp bo=binop(I.getOpcode(),ok);
      if(isa<BinaryOperator>(I)&&ok){ X.op=I_BIN; X.sub=bo; X.w=ST->getIntegerBitWidth()>64?0:ST->getIntegerBitWidth(); X.a=O(0); X.b=O(1); if(!X.w) bad(X,"wide int op in "+f->name); }
      else switch(I.getOpcode()){
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: X.op=I_FBIN; X.sub=I.getOpcode()-Instruction::FAdd; /*0 fadd*/ X.sub=I.getOpcode()==Instruction::FAdd?0:I.getOpcode()==Instruction::FSub?1:I.getOpcode()==Instruction::FMul?2:I.getOpcode()==Instruction::FDiv?3:4; X.w=tw(ST); X.a=O(0);X.b=O(1); if(!ST->isFloatTy()&&!ST->isDoubleTy()) bad(X,"fp type"); break;
        case Instruction::FNeg: X.op=I_FNEG; X.w=tw(ST); X.a=O(0); break;
        case Instruction::FCmp: X.op=I_FCMP; X.sub=cast<FCmpInst>(I).getPredicate(); X.w=tw(I.getOperand(0)->getType()->getScalarType()); X.a=O(0);X.b=O(1); break;
        case Instruction::ICmp: { X.op=I_ICMP; X.sub=cast<ICmpInst>(I).getPredicate(); Type*OT=I.getOperand(0)->getType()->getScalarType(); X.w=tw(OT); X.a=O(0); X.b=O(1); if(tw(OT)>64||!X.w) bad(X,"icmp width"); break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
        { X.op=I_CAST; Type*OT=I.getOperand(0)->getType()->getScalarType(); X.sub=I.getOpcode(); unsigned wi=tw(OT),wo=tw(ST); X.w=wi>64?0:wi; X.w2=wo>64?0:wo; X.a=O(0); if(!X.w||!X.w2) bad(X,"cast width in "+f->name); break; }
        case Instruction::BitCast: { Type*OT=I.getOperand(0)->getType(); X.a=O(0); if(!T->isVectorTy()&&!OT->isVectorTy()){ X.op=I_MOVE; } else { X.op=I_BITCAST; X.w=tw(OT->getScalarType()); X.w2=tw(ST); X.imm=slots(OT); if(!X.w||!X.w2||tw(ST)>64||tw(OT->getScalarType())>64) bad(X,"bitcast"); } break; }
        case Instruction::AddrSpaceCast: case Instruction::Freeze: X.op=I_MOVE; X.a=O(0); break;
        case Instruction::Select: X.op=I_SELECT; X.a=O(0);X.b=O(1);X.c=O(2); X.w=tw(ST); X.imm=I.getOperand(0)->getType()->isVectorTy(); { auto*v=new std::vector<MemElt>; flat(T,0,*v); X.x=v; } break;
        case Instruction::Load: { X.op=I_LOAD; X.a=O(0); auto*v=new std::vector<MemElt>; flat(T,0,*v); X.x=v; if(v->size()==1&&(*v)[0].off==0) X.w=(*v)[0].w; else X.w=0; for(auto&m:*v) if(m.w==255) { bad(X,"load type"); break; } break; }
        case Instruction::Store: { Value*Vv=I.getOperand(0); X.op=I_STORE; X.b=O(0); X.a=O(1); auto*v=new std::vector<MemElt>; flat(Vv->getType(),0,*v); X.x=v; X.n=v->size(); if(v->size()==1) X.w=(*v)[0].w; else X.w=0; for(auto&m:*v) if(m.w==255) { bad(X,"store type"); break; } break; }
        case Instruction::GetElementPtr: { auto*G=new GepInfo; G->off=0; X.op=I_GEP; X.a=O(0); if(T->isVectorTy()){ bad(X,"vector gep"); break; }
          for(gep_type_iterator gi=gep_type_begin(I),ge=gep_type_end(I);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(StructType*SS=gi.getStructTypeOrNull()){ G->off+=DL->getStructLayout(SS)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*CI=dyn_cast<ConstantInt>(ix)) G->off+=sc*(u64)CI->getSExtValue(); else G->idx.push_back({opnd(D,ix),(i64)sc,(i64)tw(ix->getType())}); } }
          X.x=G; break; }
        case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); X.op=I_ALLOCA; X.imm=DL->getTypeAllocSize(A.getAllocatedType()); X.a=O(0); X.w=tw(A.getArraySize()->getType()); break; }
        case Instruction::Br: { auto&Br=cast<BranchInst>(I); if(Br.isConditional()){ X.op=I_CBR; X.a=opnd(D,Br.getCondition()); auto*p=new std::pair<Edge*,Edge*>(edge(D,&B,Br.getSuccessor(0)),edge(D,&B,Br.getSuccessor(1))); X.x=p; } else { X.op=I_BR; X.x=edge(D,&B,Br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto&Sw=cast<SwitchInst>(I); auto*S=new SwInfo; X.op=I_SWITCH; X.a=opnd(D,Sw.getCondition()); X.w=tw(Sw.getCondition()->getType()); std::map<const BasicBlock*,int> bi; auto get=[&](const BasicBlock*t){ auto q=bi.find(t); if(q!=bi.end()) return q->second; int k=S->edges.size(); S->edges.push_back(edge(D,&B,t)); S->vals.push_back({}); bi[t]=k; return k; };
          S->def=get(Sw.getDefaultDest()); for(auto&c:Sw.cases()){ int k=get(c.getCaseSuccessor()); u64 v=c.getCaseValue()->getZExtValue(); S->m[v]=k; S->vals[k].push_back(v); } X.x=S; break; }
        case Instruction::Ret: X.op=I_RET; if(I.getNumOperands()){ X.a=O(0); X.n=slots(I.getOperand(0)->getType()); } else X.n=0; break;
        case Instruction::Unreachable: X.op=I_UNREACH; break;
        case Instruction::ExtractValue: { auto&Ev=cast<ExtractValueInst>(I); X.op=I_MOVE; int off=0; Type*A=Ev.getAggregateOperand()->getType(); for(unsigned ix:Ev.indices()){ if(auto*S=dyn_cast<StructType>(A)){ for(unsigned k=0;k<ix;k++) off+=slots(S->getElementType(k)); A=S->getElementType(ix);} else { Type*Q=cast<ArrayType>(A)->getElementType(); off+=ix*slots(Q); A=Q; } }
          X.a=O(0); if(X.a>=0) X.a+=off; else X.a=~(~X.a+off); break; }
        case Instruction::InsertValue: { auto&Iv=cast<InsertValueInst>(I); X.op=I_INSERTV; int off=0; Type*A=T; for(unsigned ix:Iv.indices()){ if(auto*S=dyn_cast<StructType>(A)){ for(unsigned k=0;k<ix;k++) off+=slots(S->getElementType(k)); A=S->getElementType(ix);} else { Type*Q=cast<ArrayType>(A)->getElementType(); off+=ix*slots(Q); A=Q; } }
          X.a=O(0);X.b=O(1);X.c=off;X.imm=slots(Iv.getInsertedValueOperand()->getType()); break; }
        case Instruction::ExtractElement: X.op=I_EXTELT; X.a=O(0);X.b=O(1);X.imm=slots(I.getOperand(0)->getType()); X.w=tw(I.getOperand(1)->getType()); break;
        case Instruction::InsertElement: X.op=I_INSELT; X.a=O(0);X.b=O(1);X.c=O(2); X.w=tw(I.getOperand(2)->getType()); break;
        case Instruction::ShuffleVector: { auto&Sv=cast<ShuffleVectorInst>(I); X.op=I_SHUF; X.a=O(0);X.b=O(1);X.imm=slots(I.getOperand(0)->getType()); auto*v=new std::vector<int>(Sv.getShuffleMask().begin(),Sv.getShuffleMask().end()); X.x=v; break; }
        case Instruction::LandingPad: { auto&L=cast<LandingPadInst>(I); auto*P=new LpInfo; P->cleanup=L.isCleanup(); for(unsigned k=0;k<L.getNumClauses();k++){ Constant*c=L.getClause(k); if(L.isCatch(k)) P->cl.push_back({0,{cval(c)}}); else { std::vector<u64> v; if(auto*CA=dyn_cast<ConstantArray>(c)) for(auto&o:CA->operands()) v.push_back(cval(cast<Constant>(o))); P->cl.push_back({1,v}); } } X.op=I_LPAD; X.x=P; break; }
        case Instruction::Resume: X.op=I_RESUME; X.a=O(0); break;
        case Instruction::Fence: X.op=I_NOP; break;
        case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); X.op=I_ARMW; X.a=O(0);X.b=O(1);X.w=tw(T); X.sub=A.getOperation(); break; }
        case Instruction::AtomicCmpXchg: X.op=I_CMPXCHG; X.a=O(0);X.b=O(1);X.c=O(2);X.w=tw(I.getOperand(1)->getType()); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto&CB=cast<CallBase>(I); auto*ci=new CallInfo; X.op=I_CALL; X.x=ci; ci->dst=X.dst; ci->rslots=X.n; ci->rw=tw(T); ci->cb=&CB;
          Value*cv=CB.getCalledOperand()->stripPointerCasts(); if(auto*A=dyn_cast<GlobalAlias>(cv)) cv=A->getAliaseeObject();
          if(auto*Fn=dyn_cast<Function>(cv)){
            StringRef nm=Fn->getName(); if(nm.starts_with("llvm.dbg.")||nm.starts_with("llvm.lifetime.")||nm=="llvm.assume"||nm.starts_with("llvm.experimental.noalias")||nm.starts_with("llvm.donothing")||nm.starts_with("llvm.invariant")||nm.starts_with("llvm.prefetch")){ X.op=I_NOP; break; }
            ci->callee=func(Fn); ci->name=ci->callee->name; ci->bi=builtin(ci->name); if(ci->bi) ci->callee=Fn->isDeclaration()?nullptr:ci->callee;
            if(!ci->bi&&Fn->isDeclaration()) { ci->bi=nullptr; } }
          else if(auto*IA=dyn_cast<InlineAsm>(cv)){ if(IA->getAsmString().find("cpuid")!=std::string::npos&&X.n==4){ ci->name="symx.cpuid"; ci->bi=builtin(ci->name); } else { X.op=I_NOP; if(X.n) bad(X,"inline asm"); break; } }
          else ci->fnOp=opnd(D,CB.getCalledOperand());
          ci->nfixed=CB.getFunctionType()->getNumParams();
          for(unsigned k=0;k<CB.arg_size();k++){ ci->args.push_back(opnd(D,CB.getArgOperand(k))); ci->aslots.push_back(slots(CB.getArgOperand(k)->getType())); if(k<8) ci->aw[k]=tw(CB.getArgOperand(k)->getType()); ci->byval.push_back(CB.isByValArgument(k)?DL->getTypeAllocSize(CB.getParamByValType(k)):0); }
          if(auto*Iv=dyn_cast<InvokeInst>(&I)){ ci->normal=edge(D,&B,Iv->getNormalDest()); ci->unwind=edge(D,&B,Iv->getUnwindDest()); }
          break; }
        default: bad(X,std::string("unsupported instruction ")+I.getOpcodeName()+" in "+f->name); }
      C.push_back(X); } }
  for(auto&fx:D.fix){ Edge*e=fx.first; e->pc=D.bpc[fx.second.second]; for(auto&ph:fx.second.second->phis()){ const Value*v=ph.getIncomingValueForBlock(fx.second.first); unsigned n=slots(ph.getType()); int d=D.reg[&ph]; int s=opnd(D,v); for(unsigned k=0;k<n;k++) e->phi.push_back({d+k,s>=0?s+(int)k:~(~s+(int)k)}); } }
}
void Exec::loadModule(const char*file){ SMDiagnostic err; M=parseIRFile(file,err,ctx); if(!M){ err.print("symx",errs()); exit(2); } DL=&M->getDataLayout(); }
void Exec::initGlobals(){ // allocate and initialise globals in state st
  u64 ga=GLO0, ra=RO0; 
  for(auto&F:*M) func(&F);
  for(auto&G:M->globals()){ u64 sz=DL->getTypeAllocSize(G.getValueType()); u64 al=std::max<u64>(16,G.getAlign()?G.getAlign()->value():16); u64&p=G.isConstant()&&G.hasInitializer()?ra:ga; p=(p+al-1)/al*al; gaddr[&G]=p; gname[p]=G.getName().str(); p+=sz+32; }
  gloHi=ga; roHi=ra; if(ga>=RO0||ra>=HEAP0) die("globals too large");
  std::function<void(u64,const Constant*)> wrI=[&](u64 a,const Constant*C){ Type*T=C->getType(); if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)||isa<ConstantPointerNull>(C)) return;
    if(auto*CD=dyn_cast<ConstantDataSequential>(C)){ StringRef r=CD->getRawDataValues(); for(size_t i=0;i<r.size();i++) wr(a+i)->data[(a+i)&(PS-1)]=r[i]; return; }
    if(isa<ConstantArray>(C)||isa<ConstantVector>(C)){ Type*ET=C->getAggregateElement(0u)->getType(); u64 es=DL->getTypeAllocSize(ET); for(unsigned i=0;i<C->getNumOperands();i++) wrI(a+i*es,cast<Constant>(C->getOperand(i))); return; }
    if(auto*CS=dyn_cast<ConstantStruct>(C)){ auto*L=DL->getStructLayout(CS->getType()); for(unsigned i=0;i<CS->getNumOperands();i++) wrI(a+(u64)L->getElementOffset(i),CS->getOperand(i)); return; }
    unsigned n=DL->getTypeStoreSize(T); if(n>8){ auto*CI=dyn_cast<ConstantInt>(C); if(CI&&n<=16){ for(unsigned i=0;i<n;i++) wr(a+i)->data[(a+i)&(PS-1)]=CI->getValue().lshr(8*i).getLoBits(8).getZExtValue(); return;} if(isa<ConstantFP>(C)) return; die("init"); }
    u64 v=cval(C); for(unsigned i=0;i<n;i++) wr(a+i)->data[(a+i)&(PS-1)]=v>>(8*i); };
  for(auto&G:M->globals()){ u64 a=gaddr[&G]; u64 sz=DL->getTypeAllocSize(G.getValueType()); if(sz) mark(a,sz,true,true); }
  for(auto&G:M->globals()) if(G.hasInitializer()) wrI(gaddr[&G],G.getInitializer());
  // typeinfo hierarchy
  for(auto&G:M->globals()) if(G.getName().starts_with("_ZTI")&&G.hasInitializer()) if(auto*CS=dyn_cast<ConstantStruct>(G.getInitializer())){ auto&B=tiBases[gaddr[&G]]; std::string vt; if(auto*CE=dyn_cast<Constant>(CS->getOperand(0))){ vt=CE->stripPointerCasts()->getName().str(); if(vt.empty()&&isa<ConstantExpr>(CE)) vt=CE->getOperand(0)->getName().str(); }
    if(vt.find("si_class")!=std::string::npos) B.push_back(cval(CS->getOperand(2))); else if(vt.find("vmi_class")!=std::string::npos){ unsigned n=cast<ConstantInt>(CS->getOperand(3))->getZExtValue(); for(unsigned i=0;i<n;i++) B.push_back(cval(CS->getOperand(4+2*i))); } }
}
