// symx: hash-consed bit-vector terms over symbolic bytes, with an exact table domain for single-byte terms
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <map>
#include <set>
#include <z3.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;

enum EOp : u8 { E_CONST, E_VAR, E_SET, E_TBL, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

struct Sup { std::vector<int> v; };

struct Expr {
  EOp op; u8 w; u8 cl; // cl: number of constant leaves if ITE tree with constant leaves (0 = no)
  int var;             // >=0: depends on this single byte only; -1: several; -2: none
  u32 id; u64 imm; Expr *a,*b,*c;
  u64 *tab;            // single-byte terms: 256 values; E_SET: 4-word bitmap in set
  u64 set[4];
  const Sup *sup;
  u64 gen, gval;       // evaluation memo
  Z3_ast ast;
};

static inline u64 maskw(unsigned w){ return w>=64?~0ULL:((1ULL<<w)-1); }
static inline i64 sextw(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 m=1ULL<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

static inline bool evalBin(EOp op,unsigned w,u64 a,u64 b,u64&r){ // operand width w
  u64 m=maskw(w); a&=m;b&=m;
  switch(op){
    case E_ADD:r=(a+b)&m;break; case E_SUB:r=(a-b)&m;break; case E_MUL:r=(a*b)&m;break;
    case E_UDIV:r=b?a/b:m;break; case E_UREM:r=b?a%b:a;break;
    case E_SDIV:{i64 x=sextw(a,w),y=sextw(b,w); if(!y) r=(x<0?1:m); else if(y==-1) r=(0-(u64)x)&m; else r=(u64)(x/y)&m;break;}
    case E_SREM:{i64 x=sextw(a,w),y=sextw(b,w); if(!y) r=a; else if(y==-1) r=0; else r=(u64)(x%y)&m;break;}
    case E_AND:r=a&b;break; case E_OR:r=a|b;break; case E_XOR:r=a^b;break;
    case E_SHL:r=b>=w?0:(a<<b)&m;break; case E_LSHR:r=b>=w?0:a>>b;break;
    case E_ASHR:{i64 x=sextw(a,w); r=(u64)(x>>(b>=w?(w-1>63?63:w-1):b))&m;break;}
    case E_EQ:r=a==b;break; case E_ULT:r=a<b;break; case E_ULE:r=a<=b;break;
    case E_SLT:r=sextw(a,w)<sextw(b,w);break; case E_SLE:r=sextw(a,w)<=sextw(b,w);break;
    default:return false;
  }
  return true;
}

struct ExprPool {
  std::vector<Expr*> all;
  std::vector<Expr*> ht; size_t cnt=0;
  std::map<std::vector<int>,Sup*> sups;
  std::unordered_map<u64,std::vector<Expr*>> tabs; // (var,w,table) canonicalisation
  char *arena=nullptr; size_t left=0;
  u64 gen=0;
  ExprPool(){ ht.assign(1<<16,nullptr); }
  void* alloc(size_t n){ n=(n+15)&~15ULL; if(n>left){ left=4<<20; arena=(char*)malloc(left);} void*p=arena; arena+=n; left-=n; return p; }
  const Sup* internSup(const std::vector<int>&v){ auto it=sups.find(v); if(it!=sups.end()) return it->second; Sup*s=new Sup; s->v=v; sups[v]=s; return s; }
  static u64 hashE(EOp op,unsigned w,u64 imm,Expr*a,Expr*b,Expr*c){
    u64 h=op*0x9E3779B97F4A7C15ULL^(w*0xC2B2AE3D27D4EB4FULL)^imm*0x165667B19E3779F9ULL;
    h=(h^(h>>29))*0xBF58476D1CE4E5B9ULL; h^=(u64)(a?a->id+1:0)*0x94D049BB133111EBULL; h=(h^(h>>31))*0xD6E8FEB86659FD93ULL;
    h^=(u64)(b?b->id+1:0)*0xA24BAED4963EE407ULL; h=(h^(h>>30))*0x9FB21C651E98DF25ULL; h^=(u64)(c?c->id+1:0)*0xDB4F0B9175AE2165ULL; h^=h>>32; return h; }
  void grow(){ std::vector<Expr*> o; o.swap(ht); ht.assign(o.size()*2,nullptr); for(Expr*e:o) if(e){ u64 h=hkey(e)&(ht.size()-1); while(ht[h]) h=(h+1)&(ht.size()-1); ht[h]=e; } }
  u64 hkey(Expr*e){ if(e->op==E_SET) return hashE(E_SET,1,e->set[0]^e->set[1]*3^e->set[2]*5^e->set[3]*7^(u64)e->var*0x9E3779B97F4A7C15ULL,0,0,0); return hashE(e->op,e->w,e->imm,e->a,e->b,e->c); }
  Expr* newE(EOp op,unsigned w){ Expr*e=(Expr*)alloc(sizeof(Expr)); memset(e,0,sizeof *e); e->op=op; e->w=w; e->id=all.size(); e->var=-2; all.push_back(e); return e; }
  Expr* cst(unsigned w,u64 v){ v&=maskw(w); u64 h=hashE(E_CONST,w,v,0,0,0); size_t m=ht.size()-1; h&=m; while(ht[h]){ Expr*e=ht[h]; if(e->op==E_CONST&&e->w==w&&e->imm==v) return e; h=(h+1)&m; }
    Expr*e=newE(E_CONST,w); e->imm=v; e->var=-2; e->cl=1; e->sup=internSup({}); ht[h]=e; if(++cnt*2>ht.size()) grow(); return e; }
  Expr* var(int i){ u64 h=hashE(E_VAR,8,i,0,0,0); size_t m=ht.size()-1; h&=m; while(ht[h]){ Expr*e=ht[h]; if(e->op==E_VAR&&(int)e->imm==i) return e; h=(h+1)&m; }
    Expr*e=newE(E_VAR,8); e->imm=i; e->var=i; e->sup=internSup({i}); e->tab=(u64*)alloc(2048); for(int k=0;k<256;k++) e->tab[k]=k; ht[h]=e; if(++cnt*2>ht.size()) grow(); return e; }
  Expr* set(int v,const u64 bm[4]){ // bool: byte v in bitmap
    if(!(bm[0]|bm[1]|bm[2]|bm[3])) return cst(1,0);
    if(!(~bm[0]|~bm[1]|~bm[2]|~bm[3])) return cst(1,1);
    u64 k=hashE(E_SET,1,bm[0]^bm[1]*3^bm[2]*5^bm[3]*7^(u64)v*0x9E3779B97F4A7C15ULL,0,0,0); size_t m=ht.size()-1; u64 h=k&m;
    while(ht[h]){ Expr*e=ht[h]; if(e->op==E_SET&&e->var==v&&!memcmp(e->set,bm,32)) return e; h=(h+1)&m; }
    Expr*e=newE(E_SET,1); e->var=v; memcpy(e->set,bm,32); e->sup=internSup({v});
    ht[h]=e; if(++cnt*2>ht.size()) grow(); return e; }
  const u64* table(Expr*e){ // 256-entry table of a single-byte term
    if(e->tab) return e->tab;
    u64*t=(u64*)alloc(2048);
    if(e->op==E_SET){ for(int k=0;k<256;k++) t[k]=(e->set[k>>6]>>(k&63))&1; }
    else abort();
    e->tab=t; return t; }
  u64 argAt(Expr*e,int k){ return e->op==E_CONST?e->imm:(e->op==E_SET?(e->set[k>>6]>>(k&63))&1:e->tab[k]); }
  // single-byte term from its table
  Expr* fromTable(int v,unsigned w,const u64*t,Expr*cand){
    bool same=true; for(int k=1;k<256&&same;k++) if(t[k]!=t[0]) same=false;
    if(same) return cst(w,t[0]);
    if(w==1){ u64 bm[4]={0,0,0,0}; for(int k=0;k<256;k++) if(t[k]&1) bm[k>>6]|=1ULL<<(k&63); return set(v,bm); }
    u64 h=0xcbf29ce484222325ULL^(v*131+w); for(int k=0;k<256;k++){ h=(h^t[k])*0x100000001b3ULL; h^=h>>29; }
    auto&L=tabs[h]; for(Expr*e:L) if(e->var==v&&e->w==w&&!memcmp(e->tab,t,2048)) return e;
    bool b01=true; for(int k=0;k<256&&b01;k++) if(t[k]>1) b01=false;
    Expr*e=cand; if(b01){ u64 bm[4]={0,0,0,0}; for(int k=0;k<256;k++) if(t[k]) bm[k>>6]|=1ULL<<(k&63); Expr*q=set(v,bm); e=newE(E_ZEXT,w); e->a=q; } else if(!e){ e=newE(E_TBL,w); e->imm=e->id; }
    e->var=v; e->sup=internSup({v}); e->tab=(u64*)alloc(2048); memcpy(e->tab,t,2048); L.push_back(e); return e; }
  static bool isC(Expr*e){ return e->op==E_CONST; }
  // raw interning with support computation; result width w, operands a,b,c
  Expr* intern(EOp op,unsigned w,u64 imm,Expr*a,Expr*b=nullptr,Expr*c=nullptr){
    u64 h=hashE(op,w,imm,a,b,c); size_t m=ht.size()-1; h&=m;
    while(ht[h]){ Expr*e=ht[h]; if(e->op==op&&e->w==w&&e->imm==imm&&e->a==a&&e->b==b&&e->c==c) { return e->var>=0&&e->tab==nullptr&&e->op!=E_SET? (Expr*)e->ast : e; } h=(h+1)&m; }
    int v=-2; for(Expr*x:{a,b,c}) if(x){ if(x->var==-2) continue; if(v==-2) v=x->var; else if(v!=x->var) v=-1; if(x->var==-1) v=-1; }
    Expr*e=newE(op,w); e->imm=imm; e->a=a; e->b=b; e->c=c; e->var=v;
    if(v>=0){
      u64 t[256];
      for(int k=0;k<256;k++){
        u64 x=argAt(a,k), y=b?argAt(b,k):0, z=c?argAt(c,k):0, r=0;
        switch(op){ case E_ITE:r=x?y:z;break; case E_ZEXT:r=x;break; case E_SEXT:r=(u64)sextw(x,a->w)&maskw(w);break;
          case E_EXTRACT:r=(x>>imm)&maskw(w);break; case E_CONCAT:r=(x<<b->w)|y;break;
          default:evalBin(op,a->w,x,y,r); }
        t[k]=r; }
      Expr*r=fromTable(v,w,t,e);
      // remember the canonical result under the structural key
      if(r!=e){ e->tab=nullptr; e->ast=(Z3_ast)r; }
      insert(e); return r; }
    if(v==-1){ std::vector<int> s; for(Expr*x:{a,b,c}) if(x) { std::vector<int> t2; std::set_union(s.begin(),s.end(),x->sup->v.begin(),x->sup->v.end(),std::back_inserter(t2)); s.swap(t2);} e->sup=internSup(s); }
    else e->sup=internSup({});
    if(op==E_ITE&&b->cl&&c->cl&&b->cl+c->cl<200) e->cl=b->cl+c->cl;
    insert(e); return e; }
  void insert(Expr*e){ u64 h=hkey(e); size_t m=ht.size()-1; h&=m; while(ht[h]) h=(h+1)&m; ht[h]=e; if(++cnt*2>ht.size()) grow(); }

  Expr* not_(Expr*e){ if(isC(e)) return cst(1,!e->imm); if(e->op==E_XOR&&e->w==1&&isC(e->b)&&e->b->imm==1) return e->a; return bin(E_XOR,e,cst(1,1)); }
  Expr* and_(Expr*a,Expr*b){ return bin(E_AND,a,b); }
  Expr* or_(Expr*a,Expr*b){ return bin(E_OR,a,b); }
  Expr* eq(Expr*a,Expr*b){ return bin(E_EQ,a,b); }
  static bool isNotOf(Expr*a,Expr*b){ return a->op==E_XOR&&a->w==1&&isC(a->b)&&a->b->imm==1&&a->a==b; }
  Expr* bin(EOp op,Expr*a,Expr*b){
    unsigned w=a->w; bool cmp=op>=E_EQ&&op<=E_SLE; unsigned rw=cmp?1:w;
    if(isC(a)&&isC(b)){ u64 r; evalBin(op,w,a->imm,b->imm,r); return cst(rw,r); }
    // commutative: constant to the right, else by id
    if(op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ){ if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
    u64 m=maskw(w);
    if(isC(b)){ u64 k=b->imm;
      switch(op){
        case E_ADD: case E_SUB: case E_SHL: case E_LSHR: case E_ASHR: if(k==0) return a; break;
        case E_MUL: if(k==0) return b; if(k==1) return a; break;
        case E_UDIV: case E_SDIV: if(k==1) return a; break;
        case E_AND: if(k==0) return b; if(k==m) return a; break;
        case E_OR: if(k==0) return a; if(k==m) return b; break;
        case E_XOR: if(k==0) return a; break;
        case E_ULT: if(k==0) return cst(1,0); break;
        case E_ULE: if(k==m) return cst(1,1); break;
        default:break; }
      if((op==E_SHL||op==E_LSHR)&&k>=w) return cst(w,0);
      if(op==E_SUB) return bin(E_ADD,a,cst(w,0-k));
      if(a->cl>1&&a->op==E_ITE&&a->var==-1) return ite(a->a,bin(op,a->b,b),bin(op,a->c,b));
      if((op==E_ADD||op==E_XOR||op==E_AND||op==E_OR)&&a->op==op&&isC(a->b)) return bin(op,a->a,bin(op,a->b,b));
      if(op==E_EQ){
        if(w==1) return k?a:not_(a);
        if(a->op==E_ZEXT){ if(k>>a->a->w) return cst(1,0); return eq(a->a,cst(a->a->w,k)); }
        if(a->op==E_SEXT){ u64 t=k&maskw(a->a->w); if(((u64)sextw(t,a->a->w)&m)!=k) return cst(1,0); return eq(a->a,cst(a->a->w,t)); }
        if(a->op==E_CONCAT) return and_(eq(a->a,cst(a->a->w,k>>a->b->w)),eq(a->b,cst(a->b->w,k)));
        if(a->op==E_ADD&&isC(a->b)) return eq(a->a,cst(w,k-a->b->imm));
        if(a->op==E_XOR&&isC(a->b)) return eq(a->a,cst(w,k^a->b->imm));
        if(a->op==E_ITE){ if(isC(a->b)) return a->b->imm==k?or_(a->a,eq(a->c,b)):and_(not_(a->a),eq(a->c,b));
                          if(isC(a->c)) return a->c->imm==k?or_(not_(a->a),eq(a->b,b)):and_(a->a,eq(a->b,b)); } }
      if((op==E_ULT||op==E_ULE||op==E_SLT||op==E_SLE)&&a->op==E_ZEXT){ unsigned iw=a->a->w; u64 im=maskw(iw); bool sg=(op==E_SLT||op==E_SLE);
        if(sg&&(sextw(k,w)<0)) return cst(1,0);
        if(k>im) return cst(1,1);
        return bin(op==E_ULT||op==E_SLT?E_ULT:E_ULE,a->a,cst(iw,k)); }
      if((op==E_ULT||op==E_ULE)&&a->op==E_CONCAT){ unsigned lw=a->b->w; u64 kh=k>>lw, kl=k&maskw(lw); Expr*ch=cst(a->a->w,kh);
        return or_(bin(E_ULT,a->a,ch),and_(eq(a->a,ch),bin(op,a->b,cst(lw,kl)))); }
      if(op==E_SLT&&k==0) { return eq(extract(a,w-1,1),cst(1,1)); }
      if(op==E_AND&&a->op==E_ZEXT){ u64 im=maskw(a->a->w); if((k&im)==im) return a; return zext(bin(E_AND,a->a,cst(a->a->w,k)),w); }
      if((op==E_OR||op==E_XOR)&&a->op==E_ZEXT&&!(k>>a->a->w)) return zext(bin(op,a->a,cst(a->a->w,k)),w);
      if(op==E_AND&&a->op==E_CONCAT){ return concat(bin(E_AND,a->a,cst(a->a->w,k>>a->b->w)),bin(E_AND,a->b,cst(a->b->w,k))); }
      if(op==E_LSHR&&k%8==0&&k<w) return zext(extract(a,k,w-k),w);
      if(op==E_SHL&&k%8==0&&k<w) return concat(extract(a,0,w-k),cst(k,0));
    } else if(isC(a)){ u64 k=a->imm;
      if((op==E_SHL||op==E_LSHR||op==E_ASHR||op==E_UDIV||op==E_UREM)&&k==0) return a;
      if(b->cl>1&&b->op==E_ITE&&b->var==-1) return ite(b->a,bin(op,a,b->b),bin(op,a,b->c));
      if((op==E_ULT||op==E_ULE||op==E_SLT||op==E_SLE)){ // k < b  ==  not (b <= k)
        EOp o2=op==E_ULT?E_ULE:op==E_ULE?E_ULT:op==E_SLT?E_SLE:E_SLT; return not_(bin(o2,b,a)); }
    } else {
      if(a==b){ switch(op){ case E_AND:case E_OR:return a; case E_XOR:case E_SUB:return cst(w,0); case E_EQ:case E_ULE:case E_SLE:return cst(1,1); case E_ULT:case E_SLT:return cst(1,0); default:break; } }
      if(w==1){ if(op==E_AND&&(isNotOf(a,b)||isNotOf(b,a))) return cst(1,0); if(op==E_OR&&(isNotOf(a,b)||isNotOf(b,a))) return cst(1,1);
        if(op==E_EQ) return not_(bin(E_XOR,a,b));
        // absorb: (x op y) op y
        if((op==E_AND||op==E_OR)){ if(a->op==op&&(a->a==b||a->b==b)) return a; if(b->op==op&&(b->a==a||b->b==a)) return b;
          // merge single-byte sets: (S1(v) op rest) op S2(v)
          if(a->op==E_SET&&b->op==op&&b->a->op==E_SET&&b->a->var==a->var) return bin(op,bin(op,a,b->a),b->b);
          if(a->op==E_SET&&b->op==op&&b->b->op==E_SET&&b->b->var==a->var) return bin(op,bin(op,a,b->b),b->a);
          if(b->op==E_SET&&a->op==op&&a->a->op==E_SET&&a->a->var==b->var) return bin(op,bin(op,b,a->a),a->b);
          if(b->op==E_SET&&a->op==op&&a->b->op==E_SET&&a->b->var==b->var) return bin(op,bin(op,b,a->b),a->a);
        } }
      if((op==E_AND||op==E_OR||op==E_XOR)&&a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return zext(bin(op,a->a,b->a),w);
      if(op==E_EQ&&a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return eq(a->a,b->a);
      if(op==E_EQ&&a->op==E_CONCAT&&b->op==E_CONCAT&&a->b->w==b->b->w) return and_(eq(a->a,b->a),eq(a->b,b->b));
      if(op==E_OR&&w>1){ // disjoint halves -> concat
        if(a->op==E_ZEXT&&b->op==E_CONCAT&&isC(b->b)&&b->b->imm==0&&b->b->w>=a->a->w) return concat(b->a,zext(a->a,b->b->w));
        if(b->op==E_ZEXT&&a->op==E_CONCAT&&isC(a->b)&&a->b->imm==0&&a->b->w>=b->a->w) return concat(a->a,zext(b->a,a->b->w)); }
    }
    return intern(op,rw,0,a,b); }
  Expr* ite(Expr*c,Expr*a,Expr*b){
    if(isC(c)) return c->imm?a:b;
    if(a==b) return a;
    if(c->op==E_XOR&&c->w==1&&isC(c->b)) return ite(c->a,b,a);
    if(a->w==1){ if(isC(a)) return a->imm?or_(c,b):and_(not_(c),b); if(isC(b)) return b->imm?or_(not_(c),a):and_(c,a); }
    if(a->op==E_ITE&&a->a==c) a=a->b; if(b->op==E_ITE&&b->a==c) b=b->c;
    if(a==b) return a;
    return intern(E_ITE,a->w,0,c,a,b); }
  Expr* zext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return cst(w,a->imm); if(a->op==E_ZEXT) return zext(a->a,w);
    if(a->cl>1&&a->op==E_ITE&&a->var==-1) return ite(a->a,zext(a->b,w),zext(a->c,w));
    return intern(E_ZEXT,w,0,a); }
  Expr* sext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return cst(w,(u64)sextw(a->imm,a->w)); if(a->op==E_ZEXT) return zext(a->a,w);
    if(a->cl>1&&a->op==E_ITE&&a->var==-1) return ite(a->a,sext(a->b,w),sext(a->c,w));
    return intern(E_SEXT,w,0,a); }
  std::unordered_map<u64,Expr*> exmemo; // terms are shared: without the memo a DAG would be walked as a tree
  Expr* extract(Expr*a,unsigned off,unsigned w){
    if(off==0&&w==a->w) return a; if(isC(a)) return cst(w,a->imm>>off);
    if(a->op!=E_AND&&a->op!=E_OR&&a->op!=E_XOR&&a->op!=E_ITE&&a->op!=E_ADD&&a->op!=E_SUB&&a->op!=E_MUL) return extract1(a,off,w);
    u64 key=((u64)a->id<<16)|(off<<8)|w; auto it=exmemo.find(key); if(it!=exmemo.end()) return it->second;
    Expr*r=extract1(a,off,w); exmemo[key]=r; return r; }
  Expr* extract1(Expr*a,unsigned off,unsigned w){
    if(a->op==E_EXTRACT) return extract(a->a,a->imm+off,w);
    if(a->op==E_ZEXT){ unsigned iw=a->a->w; if(off>=iw) return cst(w,0); if(off+w<=iw) return extract(a->a,off,w); return zext(extract(a->a,off,iw-off),w); }
    if(a->op==E_SEXT){ unsigned iw=a->a->w; if(off+w<=iw) return extract(a->a,off,w); if(off==0) return sext(a->a,w); }
    if(a->op==E_CONCAT){ unsigned lw=a->b->w; if(off>=lw) return extract(a->a,off-lw,w); if(off+w<=lw) return extract(a->b,off,w); return concat(extract(a->a,0,off+w-lw),extract(a->b,off,lw-off)); }
    if(a->cl>1&&a->op==E_ITE&&a->var==-1) return ite(a->a,extract(a->b,off,w),extract(a->c,off,w));
    if((a->op==E_AND||a->op==E_OR||a->op==E_XOR)) return bin(a->op,extract(a->a,off,w),extract(a->b,off,w));
    if(off==0&&(a->op==E_ADD||a->op==E_SUB||a->op==E_MUL)) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w));
    if(a->op==E_ITE) return ite(a->a,extract(a->b,off,w),extract(a->c,off,w));
    return intern(E_EXTRACT,w,off,a); }
  Expr* concat(Expr*a,Expr*b){ // a high, b low
    unsigned w=a->w+b->w;
    if(isC(a)&&isC(b)) return cst(w,(a->imm<<b->w)|b->imm);
    if(isC(a)&&a->imm==0) return zext(b,w);
    if(a->op==E_ZEXT) return zext(concat(a->a,b),w);
    if(a->op==E_EXTRACT&&b->op==E_EXTRACT&&a->a==b->a&&a->imm==b->imm+b->w) return extract(a->a,b->imm,w);
    if(b->op==E_CONCAT&&a->op==E_EXTRACT&&b->a->op==E_EXTRACT&&a->a==b->a->a&&a->imm==b->a->imm+b->a->w) return concat(extract(a->a,b->a->imm,a->w+b->a->w),b->b);
    if(a->op==E_EXTRACT&&a->imm==b->w&&a->a->w==w&&b==extract(a->a,0,b->w)) return a->a;
    return intern(E_CONCAT,w,0,a,b); }
  // e with variables renamed
  Expr* rename(Expr*e,const std::map<int,int>&mp,std::unordered_map<Expr*,Expr*>&memo){
    if(isC(e)) return e; bool hit=false; for(int v:e->sup->v) if(mp.count(v)) hit=true; if(!hit) return e; auto it=memo.find(e); if(it!=memo.end()) return it->second; Expr*r;
    if(e->var>=0){ int nv=mp.at(e->var); if(e->op==E_VAR) r=var(nv); else if(e->op==E_SET) r=set(nv,e->set); else r=fromTable(nv,e->w,table(e),nullptr); }
    else { auto R=[&](Expr*x){ return rename(x,mp,memo); };
      switch(e->op){ case E_ITE: r=ite(R(e->a),R(e->b),R(e->c)); break; case E_ZEXT: r=zext(R(e->a),e->w); break; case E_SEXT: r=sext(R(e->a),e->w); break; case E_EXTRACT: r=extract(R(e->a),e->imm,e->w); break; case E_CONCAT: r=concat(R(e->a),R(e->b)); break; default: r=bin(e->op,R(e->a),R(e->b)); } }
    return memo[e]=r; }
  // bits that may be one
  u64 ones(Expr*e,int depth=0){ u64 m=maskw(e->w); if(isC(e)) return e->imm; if(e->var>=0){ u64 r=0; const u64*t=table(e); for(int k=0;k<256;k++) r|=t[k]; return r; } if(depth>60) return m;
    auto up=[&](u64 x){ return x?maskw(64-__builtin_clzll(x)):0; };
    switch(e->op){ case E_ZEXT: return ones(e->a,depth+1); case E_AND: return ones(e->a,depth+1)&ones(e->b,depth+1); case E_OR: case E_XOR: return ones(e->a,depth+1)|ones(e->b,depth+1);
      case E_ITE: return ones(e->b,depth+1)|ones(e->c,depth+1); case E_CONCAT: return ones(e->a,depth+1)<<e->b->w|ones(e->b,depth+1); case E_EXTRACT: return (ones(e->a,depth+1)>>e->imm)&m;
      case E_SHL: if(isC(e->b)) return e->b->imm>=e->w?0:(ones(e->a,depth+1)<<e->b->imm)&m; return m; case E_LSHR: if(isC(e->b)) return e->b->imm>=e->w?0:ones(e->a,depth+1)>>e->b->imm; return m;
      case E_ADD: { u64 x=ones(e->a,depth+1),y=ones(e->b,depth+1); if(!(x&y)) return x|y; x=up(x);y=up(y); u64 z=x|y; return (z<<1|1)&m; }
      case E_UREM: if(isC(e->b)&&e->b->imm) return up(e->b->imm-1); return m; case E_UDIV: return up(ones(e->a,depth+1));
      case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: return 1; default: return m; } }
  // concrete evaluation under a byte model
  u64 eval(Expr*e,const u8*model){ ++gen; return ev(e,model); }
  u64 ev(Expr*e,const u8*md){
    if(e->op==E_CONST) return e->imm;
    if(e->var>=0){ u8 k=md[e->var]; return e->op==E_SET?(e->set[k>>6]>>(k&63))&1:e->tab[k]; }
    if(e->gen==gen) return e->gval;
    u64 r=0;
    switch(e->op){ case E_ITE: r=ev(e->a,md)?ev(e->b,md):ev(e->c,md); break; case E_ZEXT:r=ev(e->a,md);break; case E_SEXT:r=(u64)sextw(ev(e->a,md),e->a->w)&maskw(e->w);break;
      case E_EXTRACT:r=(ev(e->a,md)>>e->imm)&maskw(e->w);break; case E_CONCAT:r=(ev(e->a,md)<<e->b->w)|ev(e->b,md);break;
      default:{ u64 x=ev(e->a,md),y=ev(e->b,md); evalBin(e->op,e->a->w,x,y,r);} }
    e->gen=gen; e->gval=r; return r; }
};
