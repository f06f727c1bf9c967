#pragma once
#include "ir.hpp"
#include "solver.hpp"
#include <functional>

struct SByte { u8 v; E e; };
typedef std::vector<SByte> SBytes;

struct PathEnd { int kind; std::string note; };      // thrown: path terminated abnormally (crash)
struct Undecided { std::string note; };              // thrown: engine limit hit

// ---------------------------------------------------------------- memory
static const u64 PG=4096;
struct Page { u32 rc; u32 has; u8 d[PG]; E* s; };
struct L2 { u32 rc; Page* p[512]; };
struct Mem {
  static const u64 LIM=1ull<<31; L2* l1[1024];
  Mem(){ memset(l1,0,sizeof l1); }
  Mem(const Mem&o){ memcpy(l1,o.l1,sizeof l1); for(auto x:l1) if(x) x->rc++; }
  Mem& operator=(const Mem&o){ if(this!=&o){ Mem t(o); std::swap(l1,t.l1); } return *this; }
  ~Mem(){ for(auto x:l1) if(x) dropL2(x); }
  static void dropPage(Page*p){ if(--p->rc==0){ free(p->s); free(p); } }
  static void dropL2(L2*x){ if(--x->rc==0){ for(auto p:x->p) if(p) dropPage(p); free(x); } }
  Page* rd(u64 a) const { L2*x=l1[a>>21]; return x?x->p[(a>>12)&511]:nullptr; }
  Page* wr(u64 a){
    L2*&x=l1[a>>21];
    if(!x){ x=(L2*)calloc(1,sizeof(L2)); x->rc=1; }
    else if(x->rc>1){ L2*n=(L2*)malloc(sizeof(L2)); memcpy(n,x,sizeof(L2)); n->rc=1; for(auto p:n->p) if(p) p->rc++; x->rc--; x=n; }
    Page*&p=x->p[(a>>12)&511];
    if(!p){ p=(Page*)calloc(1,sizeof(Page)); p->rc=1; }
    else if(p->rc>1){ Page*n=(Page*)malloc(sizeof(Page)); memcpy(n,p,sizeof(Page)); n->rc=1; if(p->s){ n->s=(E*)malloc(PG*sizeof(E)); memcpy(n->s,p->s,PG*sizeof(E)); } p->rc--; p=n; }
    return p;
  }
};

static const u64 STACKTOP=0x7f000000, STACKLIM=0x76f00000; // 129 MB of interpreter stack
struct Frame { Func* f; u32 pc; u32 base; u64 sp; i32 retdst; };
struct VFile { SBytes path, data; bool exists=true, input=false, created=false, touched=false; };
struct FD { int kind=0; int file=-1; u64 pos=0; bool open=false; bool w=false, app=false; };
struct Outcome { int kind=0; u64 code=0; SBytes out, err; std::vector<VFile> files, pre; std::string note; u64 nopen=0, faultmask=0; SBytes argv; };

static std::string dumpE(E e,int d);
struct State {
  Mem mem; std::vector<Slot> slots; std::vector<Frame> frames; u64 sp=STACKTOP, brk=0, lowbrk=0;
  // path condition
  std::vector<Dom> dom; std::vector<u8> model; Supp fixed, multi; std::vector<E> cons; std::vector<std::pair<E,u128>> eqs;
  // environment
  std::vector<VFile> files, prefiles; std::vector<FD> fds; SBytes out, err; int nfault=0, nop=0; int nread=0, nclk=0;
  std::vector<std::pair<SBytes,int>> hashkeys;
  int phase=0, run=0; u64 warmDepth=0; bool done=false; u64 faultmask=0; u32 errnoaddr=0; u64 warmspec=0; std::vector<Outcome> outs; u64 steps=0; u64 cnt0=0; u64 nopen=0; void flushSteps(){ ST.insts+=steps-cnt0; cnt0=0; }
  u64 envaddr=0;

  int nsym(){ return M.syms.size(); }
  void sync(){ while(dom.size()<M.syms.size()){ int i=dom.size(); dom.push_back(M.syms[i].dom); model.push_back(M.syms[i].dom.first()); if(M.syms[i].vals.size()==1) fixed.add(i); } }
  Supp eff(E e){ sync(); Supp r; for(int i=0;i<3;i++) r.w[i]=e->supp.w[i]&~fixed.w[i]; return r; }
  // fixed value of e under this path, if determined by singleton domains or recorded equalities
  bool value(E e,u128&v){
    if(e->op==CONST){ v=e->k; return true; }
    Supp f=eff(e);
    if(f.empty()){ std::vector<u8> a(dom.size()); e->supp.each([&](int s){ a[s]=dom[s].first(); }); v=M.eval(e,a.data()); return true; }
    if(f.count()==1&&e->tab){ int s=f.first(); bool first=true, ok=true; u64 x=0; dom[s].each([&](int b){ if(!ok) return; u64 t=e->tab[M.syms[s].rank[b]]; if(first){x=t;first=false;} else if(t!=x) ok=false; }); if(ok){ v=x; return true; } }
    for(auto&p:eqs) if(p.first==e){ v=p.second; return true; }
    return false;
  }
  // set of byte values of the single effective symbol s making c true
  Dom truth(E c,int s){
    if(c->truth) return *c->truth;
    Dom r; std::vector<u8> a(dom.size()); c->supp.each([&](int t){ a[t]=dom[t].first(); });
    dom[s].each([&](int b){ a[s]=b; if(M.eval(c,a.data())) r.add(b); }); return r;
  }
  void setDom(int s,const Dom&d){ dom[s]=d; if(!d.has(model[s])) model[s]=d.first(); if(d.count()==1){ fixed.add(s); } }
  void slice(Supp&sy,std::vector<E>&cs){
    std::vector<char> used(cons.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!used[i]){ Supp f=eff(cons[i]); if(!(f&sy).empty()){ used[i]=1; cs.push_back(cons[i]); sy=sy|f; ch=true; } } }
  }
  struct QC { int r; std::vector<u8> m; };
  // satisfiability of path /\ c ; fills mdl on sat
  int sat(E c,std::vector<u8>&mdl){
    static std::unordered_map<std::string,QC> qcache;
    Supp sy=eff(c); std::vector<E> cs; slice(sy,cs); cs.push_back(c);
    Supp all; for(E e:cs) all=all|e->supp;
    std::string key; for(E e:cs) key.append((char*)&e->id,4); all.each([&](int i){ key.append((char*)&dom[i],sizeof(Dom)); });
    auto it=qcache.find(key); 
    if(it!=qcache.end()){ ST.cacheq++; if(it->second.r==1){ mdl=model; int k=0; all.each([&](int i){ mdl[i]=it->second.m[k++]; }); } return it->second.r; }
    if(Z.deadline&&now()>Z.deadline) throw Undecided{"deadline"};
    std::vector<u8> m=model; int r=Z.check(cs,dom,all,m.data());
    if(r<0) throw Undecided{"z3 returned unknown"};
    QC q; q.r=r; if(r==1){ all.each([&](int i){ q.m.push_back(m[i]); }); mdl=m; }
    if(qcache.size()>200000) qcache.clear();
    qcache[key]=q; return r;
  }
  // three-valued evaluation by domains, recorded constraints and boolean structure: 0 false, 1 true, 2 unknown
  int tri(E c){
    if(c->op==CONST) return c->k?1:0;
    Supp f=eff(c);
    if(f.empty()){ u128 v; value(c,v); return v?1:0; }
    if(f.count()==1){ int s=f.first(); Dom T=truth(c,s); if((dom[s]&T).empty()) return 0; if((dom[s]&~T).empty()) return 1; return 2; }
    if(!cons.empty()){ for(E x:cons) if(x==c) return 1; E n=M.not1(c); for(E x:cons) if(x==n) return 0; }
    if(c->w==1){
      if(c->op==AND){ int a=tri(c->a); if(a==0) return 0; int b=tri(c->b); if(b==0) return 0; return a==1&&b==1?1:2; }
      if(c->op==OR){ int a=tri(c->a); if(a==1) return 1; int b=tri(c->b); if(b==1) return 1; return a==0&&b==0?0:2; }
      if(c->op==XOR&&Mgr::isC(c->b,1)){ int a=tri(c->a); return a==2?2:1-a; }
      if(c->op==ITE){ int a=tri(c->a); if(a==1) return tri(c->b); if(a==0) return tri(c->c); int x=tri(c->b); if(x!=2&&x==tri(c->c)) return x; return 2; }
    }
    return 2;
  }
  // an undetermined leaf of the boolean structure of c
  E leaf(E c){
    if(eff(c).count()<=1||c->w!=1) return c;
    if(c->op==AND||c->op==OR){ if(tri(c->a)==2) return leaf(c->a); if(tri(c->b)==2) return leaf(c->b); return c; }
    if(c->op==XOR&&Mgr::isC(c->b,1)) return leaf(c->a);
    if(c->op==ITE){ if(tri(c->a)==2) return leaf(c->a); E r=tri(c->a)==1?c->b:c->c; return leaf(r); }
    return c;
  }
  // bit 0: may be true, bit 1: may be false. models for each side returned when a solver was used
  int decide(E c,std::vector<u8>*mt=nullptr,std::vector<u8>*mf=nullptr){
    if(c->op==CONST) return c->k?1:2;
    Supp f=eff(c);
    if(f.empty()){ u128 v; value(c,v); return v?1:2; }
    if(f.count()==1){ int s=f.first(); Dom T=truth(c,s); Dom t=dom[s]&T, n=dom[s]&~T; ST.domq++; if(t.empty()) return 2; if(n.empty()) return 1; if(!multi.has(s)) return 3; }
    else { int t=tri(c); if(t!=2) return t?1:2; }
    if(getenv("SYMX_DBGD")) fprintf(stderr,"DECIDE %s: %s\n",frames.back().f->name.c_str(),dumpE(c,7).c_str());
    bool mv=M.eval(c,model.data())!=0; std::vector<u8> o; int r=sat(mv?M.not1(c):c,o);
    if(mt) *mt= mv?model:o; if(mf) *mf= mv?o:model;
    if(r==1) return 3; return mv?1:2;
  }
  // add a constraint known to be satisfiable with the path; m = model satisfying it if known
  void add(E c,const std::vector<u8>*m=nullptr){
    if(m&&m->size()){ std::vector<u8> t=*m; t.resize(model.size()); for(size_t i=m->size();i<t.size();i++) t[i]=model[i]; model=t; }
    add1(c); propagate();
  }
  void add1(E c){
    if(c->op==CONST){ if(!c->k) fail("adding false constraint"); return; }
    if(!c->tab){
      if(c->op==AND){ add1(c->a); add1(c->b); return; }
      if(c->op==XOR&&Mgr::isC(c->b,1)&&c->a->op==OR&&!c->a->tab){ add1(M.not1(c->a->a)); add1(M.not1(c->a->b)); return; }
    }
    Supp f=eff(c); if(f.empty()) return;
    if(f.count()==1){ int s=f.first(); Dom d=dom[s]&truth(c,s); if(d.empty()) fail("constraint empties a domain"); setDom(s,d); return; }
    for(E x:cons) if(x==c) return;
    cons.push_back(c); multi=multi|f;
    if(c->op==EQ&&c->b->op==CONST) eqs.push_back({c->a,c->b->k});
  }
  void propagate(){
    bool ch=!cons.empty();
    while(ch){ ch=false; for(size_t i=0;i<cons.size();i++){ Supp f=eff(cons[i]); if(f.count()<=1){ E c=cons[i]; cons.erase(cons.begin()+i); if(!f.empty()){ int s=f.first(); Dom d=dom[s]&truth(c,s); if(d.empty()) fail("propagate: empty"); setDom(s,d); } ch=true; break; } } }
    Supp m; for(E c:cons) m=m|eff(c); multi=m;
  }
};
