// symx - symbolic executor for LLVM bitcode (see DESIGN.md). Deciding procedure: Z3 over bit-vectors.
#include "solver.h"
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <functional>
#include <cmath>
#include <memory>
using namespace llvm;
struct Val { u64 c; Expr *e; };
enum IOp : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH,
  I_MOVE, I_INSERTV, I_EXTELT, I_INSELT, I_SHUF, I_BITCAST, I_LPAD, I_RESUME, I_ARMW, I_CMPXCHG, I_NOP, I_BAD };
struct Func; struct Exec; struct CallInfo;
typedef int (*Builtin)(Exec&,CallInfo&,Val*);
struct Edge { u32 pc; std::vector<std::pair<int,int>> phi; };
struct MemElt { u32 off; u8 w; };
struct CallInfo { Func *callee=nullptr; int fnOp=0; Builtin bi=nullptr; std::vector<int> args; std::vector<u16> aslots; std::vector<u64> byval; int dst=0; int rslots=0; unsigned rw=0; Edge *normal=nullptr,*unwind=nullptr; u32 nfixed=0; std::string name; unsigned aw[8]={0}; const CallBase*cb=nullptr; u64 imm=0; };
struct SwInfo { std::unordered_map<u64,int> m; std::vector<Edge*> edges; std::vector<std::vector<u64>> vals; int def; };
struct GepInfo { u64 off; std::vector<std::array<i64,3>> idx; }; // operand, scale, width
struct LpInfo { bool cleanup; std::vector<std::pair<int,std::vector<u64>>> cl; }; // kind 0 catch(addr) 1 filter
struct Inst { u8 op,sub; u8 w,w2; u16 n; int dst,a,b,c; u64 imm; void*x; };
struct Func { Function *F=nullptr; std::string name,dname; std::vector<Inst> code; u32 nregs=0; bool decoded=false; u64 addr=0; Builtin bi=nullptr; bool hit=false; bool repo=false; u32 nparamSlots=0; };
struct Frame { Func *f; u32 pc; u32 base; CallInfo *ci; u32 stackMark; std::vector<Val> va; };
struct Dom { u64 b[4]; };
struct InRec { std::string name; int v0; int n; i64 cval; }; // v0<0: concrete int choice cval
struct Exc { u64 obj,ti,dtor; int cnt; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; Mem mem; u32 heapTop,stackTop;
  std::vector<Expr*> cons; std::vector<Dom> dom; std::vector<u8> model; std::vector<u8> rel;
  std::vector<InRec> in; std::vector<Exc> exc; std::vector<u64> caught; std::vector<Val> outs; u64 ninst=0; u32 depth=0;
  bool frozen=false; u32 frozenTop=0; std::vector<std::pair<u32,u32>> thaw; std::vector<std::pair<u32,u32>> frz; std::string note; u64 nasserts=0;
  State*clone() const { State*s=new State(*this); s->mem.root=nullptr; s->mem.copyFrom(mem); return s; }
  ~State(){ mem.clear(); }
  State()=default; State(const State&)=default;
};
static const u32 FN0=0x1000, GLO0=0x01000000, RO0=0x08000000, HEAP0=0x10000000, STK0=0xC0000000u;
static bool optUndef=true; static u64 optMaxInst=600000000; static double optJobTime=1e9; static u64 optMaxPaths=~0ULL; static int optSamples=2; static bool optVerbose=false; static u64 optMaxViol=3;
struct Viol { std::string kind,msg,func,inputs,note; };
struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL=nullptr;
  std::vector<Func*> fnByIdx; std::unordered_map<const Function*,Func*> fmap; std::unordered_map<std::string,Func*> fname;
  std::unordered_map<const GlobalVariable*,u64> gaddr; std::map<u64,std::vector<u64>> tiBases; std::map<u64,std::string> gname;
  std::vector<Val> cpool; u32 gloHi=0,roHi=0;
  std::vector<u64> tiIds; 
  ExprPool P; Solver S; State *st=nullptr; std::vector<State*> work;
  Val ret[8];
  // stats
  u64 nInst=0,nPaths=0,nForks=0,nAsserts=0,nKilled=0,nAssumeEnd=0,nErrEnd=0; std::set<std::string> covers; std::vector<Viol> viols; std::vector<std::string> samples; std::string incomplete; std::set<std::string> violKeys; u64 nBranchSym=0; u64 depthMax=0; u64 nAssertQ=0; double jobT0=0; std::set<std::string> kfs;
  Exec():S(P){}
  [[noreturn]] void die(const std::string&m){ fprintf(stderr,"symx: fatal: %s\n",m.c_str()); if(st&&!st->fr.empty()) for(auto it=st->fr.rbegin();it!=st->fr.rend();++it) fprintf(stderr,"   in %s pc %u\n",it->f->dname.c_str(),it->pc); incomplete="fatal: "+m; throw std::string(m); }
  // ---------- decoding
  unsigned tw(Type*T){ if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isPointerTy()) return 64; if(T->isFloatTy()) return 32; if(T->isDoubleTy()) return 64; return 0; }
  unsigned slots(Type*T){ if(T->isVoidTy()) return 0; if(auto*V=dyn_cast<FixedVectorType>(T)) return V->getNumElements(); if(auto*A=dyn_cast<ArrayType>(T)) return A->getNumElements()*slots(A->getElementType()); if(auto*S=dyn_cast<StructType>(T)){ unsigned n=0; for(auto*E:S->elements()) n+=slots(E); return n; } return 1; }
  void flat(Type*T,u64 off,std::vector<MemElt>&o){ if(auto*V=dyn_cast<FixedVectorType>(T)){ Type*E=V->getElementType(); u64 es=DL->getTypeStoreSize(E); for(unsigned i=0;i<V->getNumElements();i++) flat(E,off+i*es,o); }
    else if(auto*A=dyn_cast<ArrayType>(T)){ u64 es=DL->getTypeAllocSize(A->getElementType()); for(unsigned i=0;i<A->getNumElements();i++) flat(A->getElementType(),off+i*es,o); }
    else if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) flat(S->getElementType(i),off+L->getElementOffset(i),o); }
    else { unsigned w=tw(T); if(!w||w>64){ o.push_back({(u32)off,255}); return; } o.push_back({(u32)off,(u8)w}); } }
  u64 cval(const Constant*C){
    if(auto*I=dyn_cast<ConstantInt>(C)){ if(I->getBitWidth()>64) return I->getValue().getLoBits(64).getZExtValue(); return I->getZExtValue(); }
    if(auto*Fp=dyn_cast<ConstantFP>(C)) { if(Fp->getType()->isFloatTy()||Fp->getType()->isDoubleTy()) return Fp->getValueAPF().bitcastToAPInt().getZExtValue(); return 0; }
    if(isa<ConstantPointerNull>(C)||isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return 0;
    if(auto*F=dyn_cast<Function>(C)) return func(F)->addr;
    if(auto*G=dyn_cast<GlobalVariable>(C)){ auto it=gaddr.find(G); if(it==gaddr.end()) die("global "+G->getName().str()); return it->second; }
    if(auto*A=dyn_cast<GlobalAlias>(C)) return cval(A->getAliasee());
    if(auto*E=dyn_cast<ConstantExpr>(C)){
      switch(E->getOpcode()){
        case Instruction::GetElementPtr:{ APInt off(64,0); if(!cast<GEPOperator>(E)->accumulateConstantOffset(*DL,off)) die("cgep"); return cval(E->getOperand(0))+off.getZExtValue(); }
        case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast: { u64 v=cval(E->getOperand(0)); unsigned w=tw(E->getType()); return v&maskw(w?w:64); }
        case Instruction::Trunc: return cval(E->getOperand(0))&maskw(tw(E->getType()));
        case Instruction::ZExt: return cval(E->getOperand(0));
        case Instruction::Add: return (cval(E->getOperand(0))+cval(E->getOperand(1)))&maskw(tw(E->getType()));
        case Instruction::Sub: return (cval(E->getOperand(0))-cval(E->getOperand(1)))&maskw(tw(E->getType()));
        default: die(std::string("constexpr ")+E->getOpcodeName()); } }
    die("constant"); }
  void flatC(const Constant*C,std::vector<Val>&o){ Type*T=C->getType();
    if(T->isVectorTy()||T->isArrayTy()||T->isStructTy()){ unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements();
      for(unsigned i=0;i<n;i++){ Constant*E=C->getAggregateElement(i); if(!E) die("aggregate const"); flatC(E,o);} }
    else o.push_back({cval(C),nullptr}); }
  Func* func(const Function*F){ auto it=fmap.find(F); if(it!=fmap.end()) return it->second; Func*f=new Func; f->F=const_cast<Function*>(F); f->name=F->getName().str(); f->dname=demangle(f->name); f->addr=FN0+16*fnByIdx.size(); fnByIdx.push_back(f); fmap[F]=f; fname[f->name]=f; return f; }
  struct DecCtx { std::unordered_map<const Value*,int> reg; std::unordered_map<const BasicBlock*,u32> bpc; std::vector<std::pair<Edge*,std::pair<const BasicBlock*,const BasicBlock*>>> fix; };
  std::map<std::pair<const Constant*,int>,int> ccache;
  int opnd(DecCtx&D,const Value*V){ if(auto*C=dyn_cast<Constant>(V)){ auto k=std::make_pair(C,0); auto it=ccache.find(k); if(it!=ccache.end()) return it->second; std::vector<Val> o; flatC(C,o); int idx=cpool.size(); for(auto&v:o) cpool.push_back(v); if(o.empty()) cpool.push_back({0,nullptr}); return ccache[k]=~idx; }
    auto it=D.reg.find(V); if(it==D.reg.end()) { if(isa<MetadataAsValue>(V)) return ~0; die("operand"); } return it->second; }
  Edge* edge(DecCtx&D,const BasicBlock*from,const BasicBlock*to){ Edge*e=new Edge; D.fix.push_back({e,{from,to}}); return e; }
  static EOp binop(unsigned o,bool&ok){ ok=true; switch(o){ case Instruction::Add:return E_ADD; case Instruction::Sub:return E_SUB; case Instruction::Mul:return E_MUL; case Instruction::UDiv:return E_UDIV; case Instruction::SDiv:return E_SDIV; case Instruction::URem:return E_UREM; case Instruction::SRem:return E_SREM; case Instruction::And:return E_AND; case Instruction::Or:return E_OR; case Instruction::Xor:return E_XOR; case Instruction::Shl:return E_SHL; case Instruction::LShr:return E_LSHR; case Instruction::AShr:return E_ASHR; } ok=false; return E_ADD; }
  void decode(Func*f);
  Builtin builtin(const std::string&);
  void bad(Inst&I,const std::string&m){ I.op=I_BAD; I.x=new std::string(m); }
  // ---------- memory
  struct Tlb { u64 tag; Page*p; bool w; }; Tlb tlb[512]; u64 epoch=1;
  void flushTlb(){ epoch++; }
  Page* rd(u32 a){ u32 pn=a>>PB; Tlb&t=tlb[pn&511]; if(t.tag==(epoch<<24|pn)) return t.p; Page*p=st->mem.get(a); t.tag=epoch<<24|pn; t.p=p; t.w=false; if(!p) t.tag=0; return p; }
  Page* wr(u32 a){ u32 pn=a>>PB; Tlb&t=tlb[pn&511]; if(t.tag==(epoch<<24|pn)&&t.w) return t.p; Page*p=st->mem.getw(a); t.tag=epoch<<24|pn; t.p=p; t.w=true; return p; }
  void mark(u32 a,u32 n,bool valid,bool init){ while(n){ Page*p=wr(a); unsigned off=a&(PS-1),k=PS-off<n?PS-off:n; bitset(p->valid,off,k,valid); bitset(p->init,off,k,init); if(p->sym&&p->nsym){ for(unsigned i=0;i<k;i++) if(p->sym[off+i]){ p->sym[off+i]=nullptr; p->nsym--; } } a+=k;n-=k; } }
  u64 rawRead(u32 a,unsigned n){ u64 v=0; for(unsigned i=0;i<n;i++){ Page*p=rd(a+i); v|=(u64)(p?p->data[(a+i)&(PS-1)]:0)<<(8*i);} return v; }
  void rawWrite(u32 a,unsigned n,u64 v){ for(unsigned i=0;i<n;i++) wr(a+i)->data[(a+i)&(PS-1)]=v>>(8*i); }
  bool validRange(u64 a,u64 n){ if(a>0xffffffffULL||a+n>0xffffffffULL) return false; while(n){ Page*p=rd(a); if(!p) return false; unsigned off=a&(PS-1),k=PS-off<n?PS-off:n; unsigned kk=k; unsigned o=off; while(kk){ unsigned q=kk>64?64:kk; if(bitwin(p->valid,o,q)!=(q>=64?~0ULL:((1ULL<<q)-1))) return false; o+=q;kk-=q; } a+=k;n-=k; } return true; }
  // byte access (valid assumed)
  Expr* byteE(u64 a,bool&undef){ Page*p=rd(a); unsigned off=a&(PS-1); if(p->nsym&&p->sym&&p->sym[off]) return p->sym[off]; if(!(p->init[off>>6]>>(off&63)&1)) undef=true; return nullptr; }
  std::string where(u64 a){ char b[200]; snprintf(b,sizeof b,"0x%llx",(unsigned long long)a); std::string r=b; if(a<4096) return r+" (null page)"; if(a>=GLO0&&a<HEAP0){ auto it=gname.upper_bound(a); if(it!=gname.begin()){ --it; snprintf(b,sizeof b," (global %s+%lld)",it->second.c_str(),(long long)(a-it->first)); r+=b; } }
    if(a>=HEAP0&&a<STK0){ for(u64 h=a&~15ULL;h>=HEAP0&&h+65536>a;h-=16){ u64 mg=rawRead(h+8,8); if((mg&~0xffULL)==0x5AFEA110C8ED0000ULL||(mg&~0xffULL)==0x5AFEF2EEDBAD0000ULL){ u64 sz=rawRead(h,8); snprintf(b,sizeof b," (heap object of %llu bytes, offset %lld%s)",(unsigned long long)sz,(long long)(a-(h+16)),(mg&~0xffULL)==0x5AFEF2EEDBAD0000ULL?", freed":""); r+=b; break; } } }
    if(a>=STK0) r+=" (stack)"; return r; }
  std::vector<int> undefVars; 
  bool memcheck(u64 a,u64 n,bool write){ // true if ok
    if(!validRange(a,n)){ violation("memory",std::string(write?"invalid write of ":"invalid read of ")+std::to_string(n)+" bytes",nullptr,where(a)); return false; }
    if(write){ if(a>=RO0&&a<roHi){ violation("memory","write to constant data",nullptr,where(a)); return false; }
      if(st->frozen&&isFrozen(a)){ violation("frozen","write to shared data",nullptr,where(a)); return false; } }
    return true; }
  bool isFrozen(u64 a){ bool in=(a>=GLO0&&a<gloHi)||(a>=HEAP0&&a<st->frozenTop); if(!in) return false; for(auto&t:st->thaw) if(a>=t.first&&a<t.second) return false; return true; }
  bool load(u64 a,unsigned w,Val&out){ unsigned n=(w+7)/8; 
    unsigned off=a&(PS-1);
    if(a<=0xffffffffULL&&off+n<=PS){ Page*p=rd(a); if(p){ u64 mk=n>=64?~0ULL:((1ULL<<n)-1); if(bitwin(p->valid,off,n)==mk){ if(p->nsym==0||!anySym(p,off,n)){ if(bitwin(p->init,off,n)==mk||!optUndef){ u64 v=0; memcpy(&v,p->data+off,n); out.c=v&maskw(w); out.e=nullptr; return true; } } return loadSlow(a,w,n,out); } } }
    if(!memcheck(a,n,false)) return false; return loadSlow(a,w,n,out); }
  bool anySym(Page*p,unsigned off,unsigned n){ for(unsigned i=0;i<n;i++) if(p->sym[off+i]) return true; return false; }
  Expr* undefByte(){ int v=newVar(true); return P.var(v); }
  std::vector<u8> isUndefVar;
  int newVar(bool undef){ int v=st->dom.size(); Dom d; d.b[0]=d.b[1]=d.b[2]=d.b[3]=~0ULL; st->dom.push_back(d); st->model.push_back(0); st->rel.push_back(undef?2:0); return v; }
  bool loadSlow(u64 a,unsigned w,unsigned n,Val&out){ Expr*r=nullptr; bool any=false; u64 cv=0;
    Expr*be[8]; for(unsigned i=0;i<n;i++){ bool ud=false; be[i]=byteE(a+i,ud); if(ud&&optUndef){ be[i]=undefByte(); setByte(a+i,be[i]); } if(be[i]) any=true; else { Page*p=rd(a+i); cv|=(u64)p->data[(a+i)&(PS-1)]<<(8*i);} }
    if(!any){ out.c=cv&maskw(w); out.e=nullptr; return true; }
    for(unsigned i=0;i<n;i++){ Expr*x=be[i]?be[i]:P.cst(8,cv>>(8*i)); r=r?P.concat(x,r):x; }
    if(w<8*n) r=P.extract(r,0,w);
    out=V(r); return true; }
  void setByte(u64 a,Expr*e){ Page*p=wr(a); unsigned off=a&(PS-1); p->init[off>>6]|=1ULL<<(off&63); if(e&&e->op==E_CONST){ p->data[off]=e->imm; e=nullptr; } if(e){ if(!p->sym){ p->sym=(Expr**)calloc(PS,sizeof(Expr*)); } if(!p->sym[off]) p->nsym++; p->sym[off]=e; } else if(p->sym&&p->sym[off]){ p->sym[off]=nullptr; p->nsym--; } }
  void storeRaw(u64 a,unsigned w,const Val&v){ unsigned n=(w+7)/8; unsigned off=a&(PS-1);
    if(!v.e){ if(off+n<=PS){ Page*p=wr(a); memcpy(p->data+off,&v.c,n); bitset(p->init,off,n,true); if(p->nsym) for(unsigned i=0;i<n;i++) if(p->sym[off+i]){ p->sym[off+i]=nullptr; p->nsym--; } return; }
      for(unsigned i=0;i<n;i++){ setByte(a+i,nullptr); wr(a+i)->data[(a+i)&(PS-1)]=v.c>>(8*i); } return; }
    Expr*e=v.e; if(w<8*n) e=P.zext(e,8*n);
    for(unsigned i=0;i<n;i++) setByte(a+i,P.extract(e,8*i,8)); }
  bool store(u64 a,unsigned w,const Val&v){ unsigned n=(w+7)/8;
    if(a<=0xffffffffULL&&(a&(PS-1))+n<=PS&&!(a>=RO0&&a<roHi)&&!st->frozen){ Page*p=rd(a); if(p&&bitwin(p->valid,a&(PS-1),n)==(1ULL<<n)-1){ storeRaw(a,w,v); return true; } }
    if(!memcheck(a,n,true)) return false; storeRaw(a,w,v); return true; }
  u64 heapAlloc(u64 n,int kind){ if(n>(256u<<20)) return 0; u32 h=st->heapTop; u64 tot=16+n+16; tot=(tot+15)&~15ULL; if(h+tot>=STK0-65536){ incomplete="heap exhausted"; return 0; } st->heapTop=h+tot; wr(h); rawWrite(h,8,n); rawWrite(h+8,8,0x5AFEA110C8ED0000ULL|kind); if(n) mark(h+16,n,true,false); return h+16; }
  // returns false on violation
  bool heapFree(u64 p,int kind){ if(!p) return true; if(p<HEAP0+16||p>=st->heapTop||(p&15)){ violation("memory","free of non-heap pointer",nullptr,where(p)); return false; }
    u64 mg=rawRead(p-8,8); if((mg&~0xffULL)!=0x5AFEA110C8ED0000ULL){ violation("memory",(mg&~0xffULL)==0x5AFEF2EEDBAD0000ULL?"double free":"invalid free",nullptr,where(p)); return false; }
    if((int)(mg&0xff)!=kind){ violation("memory","mismatched deallocation",nullptr,where(p)); return false; }
    if(st->frozen&&isFrozen(p)){ violation("frozen","free of shared data",nullptr,where(p)); return false; }
    u64 n=rawRead(p-16,8); rawWrite(p-8,8,0x5AFEF2EEDBAD0000ULL|kind); if(n) mark(p,n,false,false); return true; }
  u64 heapSize(u64 p){ return rawRead(p-16,8); }
  u64 stackAlloc(u64 n){ u32 a=(st->stackTop+15)&~15u; st->stackTop=((a+n+15)&~15ULL)+16; if(n) mark(a,n,true,false); return a; }
  // ---------- values
  Val V(Expr*e){ if(e->op==E_CONST) return {e->imm,nullptr}; return {0,e}; }
  Expr* E(const Val&v,unsigned w){ return v.e?v.e:P.cst(w,v.c); }
  inline Val g(int o){ return o>=0?st->regs[st->fr.back().base+o]:cpool[~o]; }
  inline void setr(int d,const Val&v){ st->regs[st->fr.back().base+d]=v; }
  // ---------- constraints
  void closure(const std::vector<int>&vs,std::vector<Expr*>&q){ std::vector<u8> in(st->dom.size(),0); std::vector<int> wl; for(int v:vs) if(!in[v]){ in[v]=1; wl.push_back(v);} 
    if(!st->cons.empty()){ std::vector<u8> used(st->cons.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<st->cons.size();i++) if(!used[i]){ bool hit=false; for(int v:st->cons[i]->sup->v) if(in[v]){hit=true;break;} if(hit){ used[i]=1; ch=true; q.push_back(st->cons[i]); for(int v:st->cons[i]->sup->v) if(!in[v]){ in[v]=1; wl.push_back(v);} } } } }
    for(int v:wl){ Expr*s=P.set(v,st->dom[v].b); if(s->op!=E_CONST) q.push_back(s); } }
  const Solver::Res& solve(Expr*c){ std::vector<Expr*> q; closure(c->sup->v,q); q.push_back(c); auto&r=S.check(q); if(r.r<0) { incomplete="solver unknown"; } return r; }
  bool unaryOnly(Expr*c){ return c->op==E_SET&&(st->rel[c->var]&1)==0; }
  int feas(Expr*c){ // can c be true under the path condition
    if(c->op==E_CONST) return c->imm?1:0;
    if(P.eval(c,st->model.data())) return 1;
    if(c->op==E_SET){ u64 t=0; for(int i=0;i<4;i++) t|=st->dom[c->var].b[i]&c->set[i]; if(!t) return 0; if(!(st->rel[c->var]&1)) return 1; }
    auto&r=solve(c); return r.r!=0; }
  void commitModel(State*s,Expr*c){ if(P.eval(c,s->model.data())) return;
    if(c->op==E_SET&&!(s->rel[c->var]&1)){ for(int i=0;i<4;i++){ u64 t=s->dom[c->var].b[i]&c->set[i]; if(t){ s->model[c->var]=i*64+__builtin_ctzll(t); return; } } }
    State*o=st; st=s; auto&r=solve(c); st=o; for(auto&p:r.m) s->model[p.first]=p.second; }
  void addCons(State*s,Expr*c){ if(c->op==E_CONST) return; commitModel(s,c); addC(s,c); }
  void addC(State*s,Expr*c){ if(c->op==E_CONST) return;
    if(c->op==E_SET){ for(int i=0;i<4;i++) s->dom[c->var].b[i]&=c->set[i]; return; }
    if(c->op==E_AND){ addC(s,c->a); addC(s,c->b); return; }
    if(c->op==E_XOR&&c->w==1&&c->b->op==E_CONST&&c->a->op==E_OR){ addC(s,P.not_(c->a->a)); addC(s,P.not_(c->a->b)); return; }
    s->cons.push_back(c); for(int v:c->sup->v) s->rel[v]|=1; }
  bool hasUndef(Expr*e){ for(int v:e->sup->v) if(st->rel[v]&2) return true; return false; }
  // ---------- reporting
  std::string hexInputs(const std::vector<u8>&m,State*s){ std::string o; for(auto&r:s->in){ o+=r.name+" "; if(r.v0<0){ char b[32]; snprintf(b,sizeof b,"%lld",(long long)r.cval); o+=b; } else { o+="x"; for(int i=0;i<r.n;i++){ char b[4]; snprintf(b,sizeof b,"%02x",m[r.v0+i]); o+=b; } } o+="\n"; } return o; }
  void violation(const char*kind,const std::string&msg,Expr*extra,const std::string&det=""){
    std::string fn; for(auto it=st->fr.rbegin();it!=st->fr.rend();++it){ if(fn.size()) fn+=" < "; fn+=it->f->dname.substr(0,90); if(fn.size()>420) break; }
    std::string key=std::string(kind)+msg+(st->fr.empty()?"":st->fr.back().f->name)+(kind[0]=='a'?"":std::to_string(st->fr.empty()?0:st->fr.back().pc));
    if(violKeys.count(key)) return;
    std::vector<u8> m=st->model; if(extra){ auto&r=solve(extra); if(r.r!=1){ if(r.r<0) incomplete="solver unknown"; return; } for(auto&p:r.m) m[p.first]=p.second; }
    violKeys.insert(key);
    viols.push_back({kind,det.empty()?msg:msg+" at "+det,fn,hexInputs(m,st),st->note}); }
  std::map<std::string,std::string> knowns;
  void known(const std::string&id,Expr*c){ if(knowns.count(id)) return; std::vector<u8> m=st->model; if(c&&c->op!=E_CONST){ auto&r=solve(c); if(r.r!=1) return; for(auto&p:r.m) m[p.first]=p.second; } knowns[id]=hexInputs(m,st); }
  void endPath(bool ok){ if(ok){ nPaths++; depthMax=std::max<u64>(depthMax,st->depth);
      if((int)samples.size()<optSamples||(nPaths%97==0&&(int)samples.size()<optSamples*3)){ std::string s=hexInputs(st->model,st); for(auto&v:st->outs){ char b[40]; u64 x=v.e?P.eval(v.e,st->model.data()):v.c; snprintf(b,sizeof b,"OUT %llx\n",(unsigned long long)x); s+=b; } samples.push_back(s); } }
    delete st; st=nullptr; flushTlb(); }
  void kill(){ nErrEnd++; delete st; st=nullptr; flushTlb(); }
  void push(State*s){ work.push_back(s); nForks++; s->depth++; if(work.size()>400000) { incomplete="too many pending states"; } }
  // fork on condition; returns 1 if continue with true, 0 with false. other side pushed with jump performed by callback
  // jump helpers
  void jump(Edge*e){ Frame&f=st->fr.back(); jumpS(st,e); (void)f; }
  std::vector<Val> tmpv;
  void jumpS(State*s,Edge*e){ Frame&f=s->fr.back(); if(!e->phi.empty()){ Val*R=&s->regs[f.base]; if(e->phi.size()==1){ int src=e->phi[0].second; R[e->phi[0].first]=src>=0?R[src]:cpool[~src]; } else { tmpv.resize(e->phi.size()); for(size_t i=0;i<e->phi.size();i++){ int src=e->phi[i].second; tmpv[i]=src>=0?R[src]:cpool[~src]; } for(size_t i=0;i<e->phi.size();i++) R[e->phi[i].first]=tmpv[i]; } } f.pc=e->pc; }
  bool dependsUndef(Expr*e){ if(!hasUndef(e)) return false; std::map<int,int> mp; for(int v:e->sup->v) if(st->rel[v]&2){ int w=newVar(true); mp[v]=w; } std::unordered_map<Expr*,Expr*> memo; Expr*e2=P.rename(e,mp,memo); Expr*d=P.not_(P.eq(e,e2)); return feas(d)!=0; }
  void checkUndef(Expr*e,const char*what){ if(dependsUndef(e)) { violation("uninit",std::string(what)+" depends on uninitialised memory",nullptr); } }
  void branch(Expr*c,Edge*t,Edge*f){ nBranchSym++; if(optUndef) checkUndef(c,"branch");
    int ft=feas(c); Expr*nc=P.not_(c); int ff=ft?feas(nc):1;
    if(ft&&ff){ State*o=st->clone(); flushTlb(); addCons(o,nc); jumpS(o,f); push(o); addCons(st,c); st->depth++; jump(t); }
    else if(ft) jump(t); else jump(f); }
  // enumerate feasible values of e under pc; false if too many
  bool values(Expr*e,std::vector<u64>&vals,size_t cap,bool exact=true){
    if(e->op==E_CONST){ vals.push_back(e->imm); return true; }
    if(e->var>=0){ std::set<u64> seen; const u64*t=P.table(e); Dom&d=st->dom[e->var]; for(int k=0;k<256;k++) if(d.b[k>>6]>>(k&63)&1){ u64 x=t[k]; if(seen.insert(x).second) vals.push_back(x); }
      if(exact&&st->rel[e->var]&1&&vals.size()>1){ std::vector<u64> v2; for(u64 x:vals) if(feas(P.eq(e,P.cst(e->w,x)))) v2.push_back(x); vals.swap(v2); }
      return vals.size()<=cap; }
    Expr*ex=P.cst(1,1); std::vector<u64> v; u64 x=P.eval(e,st->model.data()); 
    for(;;){ v.push_back(x); if(v.size()>cap) return false; ex=P.and_(ex,P.not_(P.eq(e,P.cst(e->w,x)))); if(ex->op==E_CONST&&!ex->imm) break; auto&r=solve(ex); if(r.r==0) break; if(r.r<0) return false; std::vector<u8> m=st->model; for(auto&p:r.m) m[p.first]=p.second; x=P.eval(e,m.data()); }
    vals=v; return true; }
  // make e concrete by forking (clones re-execute the current instruction). returns false if state must stop
  bool conc(Val&v,unsigned w,size_t cap=300){ if(!v.e) return true; (void)w; if(optUndef) checkUndef(v.e,"address or size"); std::vector<u64> vals; if(!values(v.e,vals,cap)){ die("too many values to concretise"); }
    if(vals.empty()) die("no values");
    for(size_t i=1;i<vals.size();i++){ State*o=st->clone(); flushTlb(); addCons(o,P.eq(v.e,P.cst(v.e->w,vals[i]))); push(o); }
    if(vals.size()>1){ addCons(st,P.eq(v.e,P.cst(v.e->w,vals[0]))); }
    v.c=vals[0]; v.e=nullptr; return true; }
  // table read: the address is base + index where only a few bits of the index can be set
  Expr* mux(Expr*idx,const std::vector<int>&bits,int k,size_t lo,std::vector<Expr*>&ent){ // entries lo..lo+2^(k+1)-1
    if(k<0) return ent[lo]; size_t h=(size_t)1<<k; Expr*l=mux(idx,bits,k-1,lo,ent),*r=mux(idx,bits,k-1,lo+h,ent); if(l==r) return l; return P.ite(P.extract(idx,bits[k],1),r,l); }
  int loadTable(Expr*addr,unsigned w,unsigned n,Val&out){ // 1 done, 0 not applicable, -1 state ends
    if(addr->var>=0) return 0; u64 base=0; Expr*idx=addr; while(idx->op==E_ADD&&P.isC(idx->b)){ base+=idx->b->imm; idx=idx->a; }
    u64 om=P.ones(idx); if(!om) return 0; int nb=__builtin_popcountll(om); if(nb>13) return 0; std::vector<int> bits; for(int i=0;i<64;i++) if(om>>i&1) bits.push_back(i); size_t N=(size_t)1<<nb; std::vector<Expr*> ent(N,nullptr); Expr*bad=nullptr; Expr*any=nullptr;
    for(size_t i=0;i<N;i++){ u64 off=0; for(int j=0;j<nb;j++) if(i>>j&1) off|=1ULL<<bits[j]; u64 a=base+off; if(!validRange(a,n)) continue; Val v; if(!load(a,w,v)) return -1; ent[i]=E(v,w); any=ent[i]; }
    if(!any) return 0; bool hole=false; std::vector<Expr*> ok; for(size_t i=0;i<N;i++) if(!ent[i]) hole=true;
    if(hole){ std::vector<Expr*> vd(N); for(size_t i=0;i<N;i++){ vd[i]=P.cst(1,ent[i]!=nullptr); if(!ent[i]) ent[i]=any; } Expr*good=mux(idx,bits,nb-1,0,vd); Expr*badc=P.not_(good); if(feas(badc)){ violation("memory","invalid read of "+std::to_string(n)+" bytes",badc,"table at "+where(base)); if(!feas(good)) return -1; addCons(st,good); } }
    out=V(mux(idx,bits,nb-1,0,ent)); return 1; }
  bool loadSym(Expr*addr,unsigned w,Val&out){ if(optUndef) checkUndef(addr,"address"); std::vector<u64> vals; unsigned n=(w+7)/8;
    int lt=loadTable(addr,w,n,out); if(lt) return lt>0;
    if(!values(addr,vals,1024,false)) die("too many addresses"); std::vector<u64> good,badv; for(u64 a:vals) (validRange(a,n)?good:badv).push_back(a);
    if(addr->var>=0&&!badv.empty()){ std::vector<u64> b2; for(u64 b:badv) if(feas(P.eq(addr,P.cst(64,b)))) b2.push_back(b); badv.swap(b2); }
    if(!badv.empty()){ Expr*c=P.eq(addr,P.cst(64,badv[0])); violation("memory","invalid read of "+std::to_string(n)+" bytes",c,where(badv[0])); for(u64 b:badv){ Expr*nc=P.not_(P.eq(addr,P.cst(64,b))); if(!feas(nc)) return false; addCons(st,nc); } if(good.empty()) return false; }
    if(good.size()==1) return load(good[0],w,out);
    std::vector<Val> lv(good.size()); bool allc=true; for(size_t i=0;i<good.size();i++){ if(!load(good[i],w,lv[i])) return false; if(lv[i].e) allc=false; }
    if(allc&&addr->var>=0){ std::unordered_map<u64,u64> m; for(size_t i=0;i<good.size();i++) m[good[i]]=lv[i].c; const u64*t=P.table(addr); u64 tt[256]; u64 last=lv[0].c; for(int k=0;k<256;k++){ auto it=m.find(t[k]); if(it!=m.end()) last=it->second; tt[k]=last; } out=V(P.fromTable(addr->var,w,tt,nullptr)); return true; }
    Expr*r=E(lv.back(),w); for(int i=(int)good.size()-2;i>=0;i--) r=P.ite(P.eq(addr,P.cst(64,good[i])),E(lv[i],w),r);
    out=V(r); return true; }
  bool storeSym(Expr*addr,unsigned w,const Val&v,bool&forked){ if(optUndef) checkUndef(addr,"address"); std::vector<u64> vals; unsigned n=(w+7)/8; forked=false;
    if(!values(addr,vals,1024)) die("too many store addresses");
    for(u64 a:vals) if(!validRange(a,n)||(a>=RO0&&a<roHi)||(st->frozen&&isFrozen(a))){ Expr*c=P.eq(addr,P.cst(64,a)); violation("memory","invalid write of "+std::to_string(n)+" bytes",c,where(a)); Expr*nc=P.not_(c); if(!feas(nc)) return false; addCons(st,nc); }
    vals.clear(); values(addr,vals,1024); if(vals.size()==1) return store(vals[0],w,v);
    for(u64 a:vals){ Val o; if(!load(a,w,o)) return false; Val nv=V(P.ite(P.eq(addr,P.cst(64,a)),E(v,w),E(o,w))); storeRaw(a,w,nv); }
    return true; }
  // ---------- exceptions
  bool tiMatch(u64 thrown,u64 want){ if(thrown==want) return true; auto it=tiBases.find(thrown); if(it==tiBases.end()) return false; for(u64 b:it->second) if(tiMatch(b,want)) return true; return false; }
  int tiId(u64 ti){ for(size_t i=0;i<tiIds.size();i++) if(tiIds[i]==ti) return i+1; tiIds.push_back(ti); return tiIds.size(); }
  void popFrame(){ Frame&f=st->fr.back(); if(st->stackTop>f.stackMark) mark(f.stackMark,st->stackTop-f.stackMark,false,false); st->stackTop=f.stackMark; st->regs.resize(f.base); st->fr.pop_back(); }
  // unwind with exception obj; top frame's current instruction is the raising call
  void unwind(u64 obj){ u64 ti=0; for(auto&e:st->exc) if(e.obj==obj) ti=e.ti;
    // phase 1: is there a handler?
    bool found=false; for(int i=st->fr.size()-1;i>=0&&!found;i--){ Frame&f=st->fr[i]; Inst&I=f.f->code[f.pc]; if(I.op==I_CALL){ CallInfo*ci=(CallInfo*)I.x; if(ci->unwind){ LpInfo*L=(LpInfo*)f.f->code[ci->unwind->pc].x; for(auto&c:L->cl){ if(c.first==0){ if(c.second[0]==0||tiMatch(ti,c.second[0])) found=true; } else { bool in=false; for(u64 t:c.second) if(t==0||tiMatch(ti,t)) in=true; if(!in) found=true; } } } } }
    if(!found){ auto it=gname.find(ti); violation("exception","uncaught exception of type "+(it!=gname.end()?demangle(it->second):std::string("?")),nullptr); kill(); return; }
    for(;;){ Frame&f=st->fr.back(); Inst&I=f.f->code[f.pc]; CallInfo*ci=I.op==I_CALL?(CallInfo*)I.x:nullptr;
      if(ci&&ci->unwind){ Inst&LI=f.f->code[ci->unwind->pc]; LpInfo*L=(LpInfo*)LI.x; int sel=0; bool enter=L->cleanup;
        for(auto&c:L->cl){ if(c.first==0){ if(c.second[0]==0||tiMatch(ti,c.second[0])){ sel=tiId(c.second[0]); enter=true; break; } } else { bool in=false; for(u64 t:c.second) if(t==0||tiMatch(ti,t)) in=true; if(!in){ sel=-1; enter=true; break; } } }
        if(enter){ jump(ci->unwind); setr(LI.dst,{obj,nullptr}); setr(LI.dst+1,{(u64)(u32)sel,nullptr}); st->fr.back().pc++; return; } }
      popFrame(); if(st->fr.empty()) die("unwind"); } }
  void call(Func*f,CallInfo*ci,Val*args,u32 nargs,const Val*va=nullptr,u32 nva=0){ if(!f->decoded) decode(f); f->hit=true; if(st->fr.size()>4000){ violation("stack","call depth exceeds 4000 frames",nullptr); kill(); return; }
    u32 base=st->regs.size(); st->regs.resize(base+f->nregs); for(u32 i=0;i<nargs&&i<f->nregs;i++) st->regs[base+i]=args[i];
    st->fr.push_back(Frame{f,0,base,ci,st->stackTop,{}}); if(nva) st->fr.back().va.assign(va,va+nva); }
  bool lastRetDone=false;
  void doRet(const Val*rv,int n){ Frame f=st->fr.back(); Val tmp[64]; for(int i=0;i<n;i++) tmp[i]=rv[i]; popFrame(); if(st->fr.empty()){ for(int i=0;i<n&&i<8;i++) ret[i]=tmp[i]; return; }
    CallInfo*ci=f.ci; if(!ci){ return; } // pushed by engine (destructor): caller pc already set
    for(int i=0;i<n;i++) setr(ci->dst+i,tmp[i]); if(ci->normal) jump(ci->normal); else st->fr.back().pc++; }
  void loadModule(const char*);
  void initGlobals();
  void run();
  void step();
  State* entry(Func*f,std::vector<Val> args){ State*s=new State; s->heapTop=HEAP0; s->stackTop=STK0; return s; }
};
#include "decode.h"
#include "fpbits.h"
#include "builtins.h"
#include "interp.h"
#include "driver.h"
