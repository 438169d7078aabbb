#pragma once
#include "expr.h"
// Copy-on-write paged memory with per-byte validity/initialisation and a symbolic overlay
static const unsigned PB=9, PS=512;
struct Page { u32 rc; u32 nsym; Expr **sym; u64 valid[8], init[8]; u8 data[PS]; };
struct Node { u32 rc; void *ch[256]; }; // L0: 256, L1: 256, L2: 128 used
static inline u64 bitwin(const u64*a,unsigned off,unsigned n){ unsigned i=off>>6,s=off&63; u64 r=a[i]>>s; if(s+n>64) r|=a[i+1]<<(64-s); return n>=64?r:r&((1ULL<<n)-1); }
static inline void bitset(u64*a,unsigned off,unsigned n,bool v){ while(n){ unsigned i=off>>6,s=off&63,k=64-s<n?64-s:n; u64 m=(k>=64?~0ULL:((1ULL<<k)-1))<<s; if(v) a[i]|=m; else a[i]&=~m; off+=k;n-=k; } }
struct Mem {
  Node *root=nullptr;
  static void relPage(Page*p){ if(p&&--p->rc==0){ if(p->sym) free(p->sym); free(p);} }
  static void relNode(Node*n,int lvl){ if(!n||--n->rc) return; int k=lvl==2?128:256; for(int i=0;i<k;i++) if(n->ch[i]){ if(lvl==2) relPage((Page*)n->ch[i]); else relNode((Node*)n->ch[i],lvl+1);} free(n); }
  void clear(){ relNode(root,0); root=nullptr; }
  void copyFrom(const Mem&o){ root=o.root; if(root) root->rc++; }
  Page* get(u32 a) const { u32 p=a>>PB; Node*n=root; if(!n) return nullptr; n=(Node*)n->ch[p>>15]; if(!n) return nullptr; n=(Node*)n->ch[(p>>7)&255]; if(!n) return nullptr; return (Page*)n->ch[p&127]; }
  static Node* own(Node*n,int lvl){ if(!n){ n=(Node*)calloc(1,sizeof(Node)); n->rc=1; return n; } if(n->rc==1) return n;
    Node*m=(Node*)malloc(sizeof(Node)); *m=*n; m->rc=1; n->rc--; int k=lvl==2?128:256; for(int i=0;i<k;i++) if(m->ch[i]){ if(lvl==2) ((Page*)m->ch[i])->rc++; else ((Node*)m->ch[i])->rc++; } return m; }
  Page* getw(u32 a){ u32 p=a>>PB; root=own(root,0); Node*&n1=(Node*&)root->ch[p>>15]; n1=own(n1,1); Node*&n2=(Node*&)n1->ch[(p>>7)&255]; n2=own(n2,2); Page*&g=(Page*&)n2->ch[p&127];
    if(!g){ g=(Page*)calloc(1,sizeof(Page)); g->rc=1; }
    else if(g->rc>1){ Page*q=(Page*)malloc(sizeof(Page)); *q=*g; q->rc=1; if(g->sym){ if(g->nsym){ q->sym=(Expr**)malloc(PS*sizeof(Expr*)); memcpy(q->sym,g->sym,PS*sizeof(Expr*)); } else q->sym=nullptr; } g->rc--; g=q; }
    return g; }
};
