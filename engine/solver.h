#pragma once
#include "expr.h"
#include <chrono>
#include <unistd.h>
static inline double now_s(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Solver {
  ExprPool &P; Z3_context cx=nullptr; Z3_solver s=nullptr; u64 nq=0,nsat=0,nunsat=0,nunk=0,ncache=0; double t=0,tmax=0;
  struct Res{ int r; std::vector<std::pair<int,u8>> m; };
  std::map<std::vector<u32>,Res> cache;
  Solver(ExprPool&p):P(p){}
  static void onerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"symx: z3 error %d %s\n",e,Z3_get_error_msg(c,e)); _exit(3); }
  void init(){ if(cx) return; Z3_config c=Z3_mk_config(); cx=Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(cx,onerr); mk(); }
  void mk(){ const char*md=getenv("SYMX_SOLVER"); s=md&&*md=='s'?Z3_mk_simple_solver(cx):md&&*md=='t'?Z3_mk_solver(cx):Z3_mk_solver_for_logic(cx,Z3_mk_string_symbol(cx,"QF_BV")); Z3_solver_inc_ref(cx,s); Z3_params p=Z3_mk_params(cx); Z3_params_inc_ref(cx,p); Z3_params_set_uint(cx,p,Z3_mk_string_symbol(cx,"timeout"),60000); Z3_solver_set_params(cx,s,p); Z3_params_dec_ref(cx,p); }
  Z3_sort bv(unsigned w){ return Z3_mk_bv_sort(cx,w); }
  Z3_ast num(unsigned w,u64 v){ return Z3_mk_unsigned_int64(cx,v,bv(w)); }
  Z3_ast var(int v){ char b[24]; snprintf(b,sizeof b,"b%d",v); return Z3_mk_const(cx,Z3_mk_string_symbol(cx,b),bv(8)); }
  Z3_ast bitOf(int v,int k){ static std::map<std::pair<int,int>,Z3_ast> m; auto&r=m[{v,k}]; if(!r){ r=Z3_mk_eq(cx,Z3_mk_extract(cx,k,k,var(v)),num(1,1)); Z3_inc_ref(cx,r); } return r; }
  // decision diagram of a byte set over the 8 bits, shared by (sub)table
  std::map<std::pair<int,std::vector<bool>>,Z3_ast> bdd;
  Z3_ast bddAst(int v,const std::vector<bool>&t,int k){ // t has 2^(k+1) entries
    bool all=true; for(size_t i=1;i<t.size()&&all;i++) if(t[i]!=t[0]) all=false; if(all) return t[0]?Z3_mk_true(cx):Z3_mk_false(cx);
    auto key=std::make_pair(v,t); auto it=bdd.find(key); if(it!=bdd.end()) return it->second;
    size_t h=t.size()/2; std::vector<bool> l(t.begin(),t.begin()+h),r(t.begin()+h,t.end()); Z3_ast x;
    if(l==r) x=bddAst(v,l,k-1); else { Z3_ast b=bitOf(v,k),L=bddAst(v,l,k-1),R=bddAst(v,r,k-1); auto cst=[&](const std::vector<bool>&q){ for(bool y:q) if(y!=q[0]) return -1; return q[0]?1:0; }; int cl=cst(l),cr=cst(r);
      if(cl==0&&cr==1) x=b; else if(cl==1&&cr==0) x=Z3_mk_not(cx,b); else if(cl==0){ Z3_ast a[2]={b,R}; x=Z3_mk_and(cx,2,a); } else if(cl==1){ Z3_ast a[2]={Z3_mk_not(cx,b),R}; x=Z3_mk_or(cx,2,a); } else if(cr==0){ Z3_ast a[2]={Z3_mk_not(cx,b),L}; x=Z3_mk_and(cx,2,a); } else if(cr==1){ Z3_ast a[2]={b,L}; x=Z3_mk_or(cx,2,a); } else { bool neg=true; for(size_t i=0;i<h;i++) if(l[i]==r[i]) neg=false; x=neg?Z3_mk_xor(cx,b,L):Z3_mk_ite(cx,b,R,L); } }
    Z3_inc_ref(cx,x); bdd[key]=x; return x; }
  Z3_ast setAst(int v,const u64*bm){ std::vector<bool> t(256); for(int k=0;k<256;k++) t[k]=(bm[k>>6]>>(k&63))&1; return bddAst(v,t,7); }
  Z3_ast tblAst(Expr*e){ Z3_ast r=nullptr; // bit by bit
    std::vector<Z3_ast> bits; for(unsigned j=0;j<e->w;j++){ std::vector<bool> t(256); for(int k=0;k<256;k++) t[k]=e->tab[k]>>j&1; bits.push_back(bddAst(e->var,t,7)); }
    for(int j=e->w-1;j>=0;){ // group constant bits
      Z3_ast b=Z3_mk_ite(cx,bits[j],num(1,1),num(1,0)); r=r?Z3_mk_concat(cx,r,b):b; j--; } return r; }
  Z3_ast tobv(Expr*e){ Z3_ast a=tr(e); if(e->w==1) return Z3_mk_ite(cx,a,num(1,1),num(1,0)); return a; }
  Z3_ast tobool(Z3_ast a){ return Z3_mk_eq(cx,a,num(1,1)); }
  Z3_ast tr(Expr*e){
    if(e->ast) return e->ast;
    Z3_ast r=nullptr;
    auto B=[&](Expr*x){return tobv(x);};
    switch(e->op){
      case E_CONST: r=e->w==1?(e->imm?Z3_mk_true(cx):Z3_mk_false(cx)):num(e->w,e->imm); break;
      case E_VAR: r=var(e->imm); break;
      case E_SET: r=setAst(e->var,e->set); break;
      case E_TBL: r=tblAst(e); break;
      case E_ITE: r=Z3_mk_ite(cx,tr(e->a),tr(e->b),tr(e->c)); break;
      case E_ZEXT: r=Z3_mk_zero_ext(cx,e->w-e->a->w,B(e->a)); break;
      case E_SEXT: r=Z3_mk_sign_ext(cx,e->w-e->a->w,B(e->a)); break;
      case E_EXTRACT: r=Z3_mk_extract(cx,e->imm+e->w-1,e->imm,B(e->a)); if(e->w==1) r=tobool(r); break;
      case E_CONCAT: r=Z3_mk_concat(cx,B(e->a),B(e->b)); break;
      case E_AND: if(e->w==1){ Z3_ast v[2]={tr(e->a),tr(e->b)}; r=Z3_mk_and(cx,2,v);} else r=Z3_mk_bvand(cx,B(e->a),B(e->b)); break;
      case E_OR: if(e->w==1){ Z3_ast v[2]={tr(e->a),tr(e->b)}; r=Z3_mk_or(cx,2,v);} else r=Z3_mk_bvor(cx,B(e->a),B(e->b)); break;
      case E_XOR: if(e->w==1) r=(ExprPool::isC(e->b)&&e->b->imm)?Z3_mk_not(cx,tr(e->a)):Z3_mk_xor(cx,tr(e->a),tr(e->b)); else r=Z3_mk_bvxor(cx,B(e->a),B(e->b)); break;
      case E_EQ: r=Z3_mk_eq(cx,tr(e->a),tr(e->b)); break;
      case E_ULT: r=Z3_mk_bvult(cx,B(e->a),B(e->b)); break; case E_ULE: r=Z3_mk_bvule(cx,B(e->a),B(e->b)); break;
      case E_SLT: r=Z3_mk_bvslt(cx,B(e->a),B(e->b)); break; case E_SLE: r=Z3_mk_bvsle(cx,B(e->a),B(e->b)); break;
      default: { Z3_ast a=B(e->a),b=B(e->b); switch(e->op){ case E_ADD:r=Z3_mk_bvadd(cx,a,b);break; case E_SUB:r=Z3_mk_bvsub(cx,a,b);break; case E_MUL:r=Z3_mk_bvmul(cx,a,b);break;
        case E_UDIV:r=Z3_mk_bvudiv(cx,a,b);break; case E_SDIV:r=Z3_mk_bvsdiv(cx,a,b);break; case E_UREM:r=Z3_mk_bvurem(cx,a,b);break; case E_SREM:r=Z3_mk_bvsrem(cx,a,b);break;
        case E_SHL:r=Z3_mk_bvshl(cx,a,b);break; case E_LSHR:r=Z3_mk_bvlshr(cx,a,b);break; case E_ASHR:r=Z3_mk_bvashr(cx,a,b);break; default: fprintf(stderr,"z3 op %d\n",e->op); abort(); }
        if(e->w==1) r=tobool(r); } }
    Z3_inc_ref(cx,r); e->ast=r; return r; }
  // conj: all must hold. 1 sat, 0 unsat, -1 unknown
  const Res& check(std::vector<Expr*> conj){
    std::sort(conj.begin(),conj.end(),[](Expr*a,Expr*b){return a->id<b->id;}); conj.erase(std::unique(conj.begin(),conj.end()),conj.end());
    std::vector<u32> key; for(Expr*e:conj) key.push_back(e->id);
    auto it=cache.find(key); if(it!=cache.end()){ ncache++; return it->second; }
    init(); double t0=now_s();
    Z3_solver_push(cx,s);
    for(Expr*e:conj) Z3_solver_assert(cx,s,tr(e));
    Z3_lbool r=Z3_solver_check(cx,s); nq++;
    Res R; R.r=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
    if(r==Z3_L_TRUE){ nsat++; Z3_model m=Z3_solver_get_model(cx,s); Z3_model_inc_ref(cx,m); std::set<int> vs; for(Expr*e:conj) for(int v:e->sup->v) vs.insert(v);
      for(int v:vs){ Z3_ast o; u64 x=0; if(Z3_model_eval(cx,m,var(v),true,&o)) { uint64_t q=0; Z3_get_numeral_uint64(cx,o,&q); x=q; } R.m.push_back({v,(u8)x}); } Z3_model_dec_ref(cx,m); }
    else if(r==Z3_L_FALSE) nunsat++; else nunk++;
    if(getenv("SYMX_DUMP")&&nq%100==50) fprintf(stderr,"QUERY %g %d\n%s\n",now_s()-t0,r,Z3_solver_to_string(cx,s));
    Z3_solver_pop(cx,s,1);
    double dt=now_s()-t0; t+=dt; if(dt>tmax) tmax=dt;
    if((nq&0x3fff)==0){ Z3_solver_dec_ref(cx,s); mk(); }
    return cache[key]=R; }
};
