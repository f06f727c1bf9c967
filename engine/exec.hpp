#pragma once
#include "state.hpp"
#include <unistd.h>


struct SegByte { int sym; u8 v; };            // sym<0: literal; otherwise v!=0 means the symbol's upper-case image
typedef std::vector<SegByte> Seg;
struct RunCfg { std::vector<Seg> argv; std::vector<std::pair<Seg,Seg>> files; bool input_missing=false; int faults=0; std::string faultops; int hashmode=0; int chunk=0; std::string entry="main"; int stdoutfd=1; };
struct Job { bool cold=false; u64 propnum=0; std::string name; std::vector<std::pair<std::string,Dom>> syms; std::vector<RunCfg> runs; std::string prop; u64 mask=~0ull; std::vector<u64> params; u64 maxpaths=0; u64 steplimit=400000000; };

struct Exec {
  Job* job=nullptr; std::vector<State*> work; State* st=nullptr; Mem base; u64 baseBrk=0, errnoA=0; int hashHooked=0; Func* specf=nullptr; int mainidx=-1;
  std::map<std::string,u64> concAt; bool trackForks=false;
  std::function<void(State&,E,E)> onTerminal; double deadline=0;
  struct Snap { bool valid=false; Mem mem; std::vector<Frame> frames; std::vector<Slot> slots; u64 sp=0,brk=0,lowbrk=0; } snap; Func* usermain=nullptr; Snap* warmRec=nullptr;
  std::map<std::string,int> symByName;
  typedef std::function<int(Exec&,State&,std::vector<Slot>&,Slot*)> Ext; // return 0 ok, 1 path ended, 2 re-execute (state changed)
  std::vector<Ext> exts; std::unordered_map<std::string,int> extIdx;
  void reg(const std::string&n,Ext f){ extIdx[n]=exts.size(); exts.push_back(f); }

  // ------------------------------------------------------------ memory access
  void chk(State&s,u64 a,u64 n){
    if(a>=0x100000&&a+n<=P.gtop) return; if(a>=s.lowbrk&&a+n<=s.brk) return; if(a>=STACKLIM&&a+n<=STACKTOP) return;
    if(n==0) return;
    char b[96]; snprintf(b,96,"invalid memory access at %lx+%lu in ",a,n); throw PathEnd{2,std::string(b)+s.frames.back().f->name};
  }
  void zeroSlot(Slot&o,unsigned w){ o.v=0; o.e=w>64?M.cst(0,w):nullptr; }
  Slot load(State&s,u64 a,unsigned w){
    unsigned n=(w+7)/8; chk(s,a,n); Slot r{0,nullptr};
    if(n<=8&&(a&(PG-1))+n<=PG){ Page*p=s.mem.rd(a); if(!p) return r; unsigned o=a&(PG-1);
      bool sy=false; if(p->has) for(unsigned i=0;i<n;i++) if(p->s[o+i]){sy=true;break;}
      if(!sy){ memcpy(&r.v,p->d+o,n); r.v&=mask64(w); return r; } }
    E e=nullptr; bool any=false; u128 c=0;
    for(unsigned i=0;i<n;i++){ SByte b=rdb(s,a+i); if(b.e) any=true; c|=(u128)b.v<<(8*i); }
    if(!any){ if(w>64) r.e=M.cst(c,w); else r.v=(u64)c&mask64(w); return r; }
    for(unsigned i=0;i<n;i++){ SByte b=rdb(s,a+i); E x=b.e?b.e:M.cst(b.v,8); e=e?M.concat(x,e):x; }
    if(w<8*n) e=M.trunc(e,w);
    return norm(e);
  }
  Slot norm(E e){ if(e->op==CONST&&e->w<=64) return {(u64)e->k,nullptr};
    if(e->tab&&e->ns==1&&st){ e=restrict1(e); if(e->op==CONST) return {(u64)e->k,nullptr}; }
    return {0,e}; }
  // functions of one symbol: forget the values at inputs this path has excluded, so that equal functions are the same node
  std::unordered_map<E,std::vector<std::pair<Dom,E>>> restr;
  E restrict1(E e){
    int s=e->supp.first(); if(s>=(int)st->dom.size()) return e; const Dom&d=st->dom[s]; auto&si=M.syms[s]; if(d==si.dom) return e;
    auto&v=restr[e]; for(auto&p:v) if(p.first==d) return p.second;
    std::vector<u64> t(si.vals.size()); u64 f=e->tab[si.rank[d.first()]]; for(size_t i=0;i<t.size();i++) t[i]=d.has(si.vals[i])?e->tab[i]:f;
    E r=M.lut(s,e->w,t); v.push_back({d,r}); return r;
  }
  SByte rdb(State&s,u64 a){ Page*p=s.mem.rd(a); if(!p) return {0,nullptr}; unsigned o=a&(PG-1); return {p->d[o],p->has?p->s[o]:nullptr}; }
  void wrb(State&s,u64 a,SByte b){ Page*p=s.mem.wr(a); unsigned o=a&(PG-1); p->d[o]=b.v; setsym(p,o,b.e); }
  static void setsym(Page*p,unsigned o,E e){ if(e){ if(!p->s) p->s=(E*)calloc(PG,sizeof(E)); if(!p->s[o]) p->has++; p->s[o]=e; } else if(p->has&&p->s[o]){ p->s[o]=nullptr; p->has--; } }
  void store(State&s,u64 a,unsigned w,Slot v){
    unsigned n=(w+7)/8; chk(s,a,n);
    if(!v.e){ if((a&(PG-1))+n<=PG){ Page*p=s.mem.wr(a); unsigned o=a&(PG-1); memcpy(p->d+o,&v.v,n); if(p->has) for(unsigned i=0;i<n;i++) setsym(p,o+i,nullptr); }
      else for(unsigned i=0;i<n;i++) wrb(s,a+i,{(u8)(v.v>>(8*i)),nullptr}); return; }
    E e=v.e; if(e->w<8*n) e=M.zext(e,8*n);
    for(unsigned i=0;i<n;i++){ E x=M.extract(e,8*i,8); wrb(s,a+i,x->op==CONST?SByte{(u8)x->k,nullptr}:SByte{0,x}); }
  }
  void copy(State&s,u64 d,u64 a,u64 n){
    if(!n||d==a) return; chk(s,d,n); chk(s,a,n);
    bool overlap = d<a+n&&a<d+n;
    if(!overlap){ while(n){ u64 so=a&(PG-1), dof=d&(PG-1); u64 k=std::min(n,std::min(PG-so,PG-dof)); Page*sp=s.mem.rd(a); Page*dp=s.mem.wr(d); sp=s.mem.rd(a);
        if(sp) memcpy(dp->d+dof,sp->d+so,k); else memset(dp->d+dof,0,k);
        if((sp&&sp->has)||dp->has) for(u64 i=0;i<k;i++) setsym(dp,dof+i,sp&&sp->has?sp->s[so+i]:nullptr);
        a+=k; d+=k; n-=k; } }
    else { std::vector<SByte> t(n); for(u64 i=0;i<n;i++) t[i]=rdb(s,a+i); for(u64 i=0;i<n;i++) wrb(s,d+i,t[i]); }
  }
  void fill(State&s,u64 d,SByte b,u64 n){ chk(s,d,n); while(n){ u64 o=d&(PG-1); u64 k=std::min(n,PG-o); Page*p=s.mem.wr(d); memset(p->d+o,b.v,k); if(p->has||b.e) for(u64 i=0;i<k;i++) setsym(p,o+i,b.e); d+=k; n-=k; } }
  u64 alloc(State&s,u64 n,u64 al=16){ if(al<16) al=16; u64 a=(s.brk+al-1)/al*al; s.brk=a+n+16; if(s.brk>=STACKLIM-0x1000000) throw Undecided{"modelled heap exhausted"}; return a; }
  std::string cstr(State&s,u64 a){ std::string r; for(;;){ SByte b=rdb(s,a++); if(b.e) return r+"<sym>"; if(!b.v) return r; r+=(char)b.v; if(r.size()>4096) return r; } }
  SBytes bytes(State&s,u64 a,u64 n){ SBytes r; r.reserve(n); for(u64 i=0;i<n;i++) r.push_back(rdb(s,a+i)); return r; }

  // ------------------------------------------------------------ forking
  std::map<std::string,u64> forkAt;
  State* clone(State&s){ ST.forks++; if(trackForks&&!s.frames.empty()) forkAt[s.frames.back().f->name+" @"+std::to_string(s.frames.back().pc)+" op"+std::to_string((int)s.frames.back().f->code[s.frames.back().pc].op)]++; State*n=new State(s); n->cnt0=n->steps; work.push_back(n); return n; }
  E ex(Slot a,unsigned w){ return a.e?a.e:M.cst(a.v,w); }
  E memberE(int sym,const Dom&d){ std::vector<u64> v; for(u8 b:M.syms[sym].vals) v.push_back(d.has(b)); return M.lut(sym,1,v); }
  // make boolean c concrete on this path (forking if needed). The clone re-executes the current instruction.
  bool boolFork(State&s,E c){
    for(;;){
      E l=s.leaf(c); std::vector<u8> mt,mf; int d=s.decide(l,&mt,&mf);
      if(d==3){ State*n=clone(s); n->add(M.not1(l),&mf); s.add(l,&mt); }
      if(l==c) return d!=2;
      if(d!=3&&s.tri(l)==2){ // implied by the path but not syntactically: record it
        s.cons.push_back(d==1?l:M.not1(l)); s.multi=s.multi|s.eff(l); s.propagate(); }
      int t=s.tri(c); if(t!=2) return t==1;
    }
  }
  // partition of path by the value of a function of one symbol; f maps byte value -> group key
  template<class F> u64 partition(State&s,int sym,F f){
    std::map<u64,Dom> g; s.dom[sym].each([&](int b){ g[f(b)].add(b); });
    if(g.size()==1) return g.begin()->first;
    bool mu=s.multi.has(sym); bool mine=false; u64 my=0; Dom myd; std::vector<u8> mym;
    std::vector<std::tuple<u64,Dom,std::vector<u8>>> ok;
    for(auto&p:g){ std::vector<u8> m; if(mu){ E c=memberE(sym,p.second); if(c->op==CONST){ if(!c->k) continue; } else { if(s.sat(c,m)!=1) continue; } } ok.push_back({p.first,p.second,m}); }
    if(ok.empty()) fail("partition: no feasible group");
    for(size_t i=1;i<ok.size();i++){ State*n=clone(s); auto&m=std::get<2>(ok[i]); if(m.size()) n->model=m; n->setDom(sym,std::get<1>(ok[i])); n->propagate(); }
    auto&m=std::get<2>(ok[0]); if(m.size()) s.model=m; s.setDom(sym,std::get<1>(ok[0])); s.propagate();
    (void)mine;(void)my;(void)myd;(void)mym;
    return std::get<0>(ok[0]);
  }
  // concretise e on this path; other values go to clones that re-execute the instruction
  static std::string dump(E e,int d){ if(e->op==CONST) return std::to_string((u64)e->k)+":"+std::to_string(e->w); if(e->op==SYM) return M.syms[(int)e->k].name; if(e->tab&&e->ns==1) { std::string r="T("+M.syms[e->supp.first()].name; for(size_t i=0;i<M.syms[e->supp.first()].vals.size()&&i<4;i++) r+=","+std::to_string(e->tab[i]); return r+"):"+std::to_string(e->w); } if(!d) return "..#"+std::to_string(e->id);
    std::string r=std::string("(")+opname[e->op]+":"+std::to_string(e->w); if(e->op==EXTRACT) r+="@"+std::to_string(e->lo); for(E x:{e->a,e->b,e->c}) if(x) r+=" "+dump(x,d-1); return r+")"; }
  u64 concretize(State&s,E e){
    u128 v; if(s.value(e,v)) return (u64)v;
    Supp f=s.eff(e);
    if(f.count()==1){ int sy=f.first(); std::vector<u8> a(s.dom.size()); e->supp.each([&](int t){ a[t]=s.dom[t].first(); });
      return partition(s,sy,[&](int b)->u64{ a[sy]=b; return (u64)M.eval(e,a.data()); }); }
    // enumerate values with the solver
    if(getenv("SYMX_DBG")) fprintf(stderr,"CONC %s @%u: %s\n",s.frames.back().f->name.c_str(),s.frames.back().pc,dump(e,6).c_str());
    concAt[(s.frames.empty()?std::string("-"):s.frames.back().f->name)]++;
    std::vector<std::pair<u64,std::vector<u8>>> vals; E blk=M.tr();
    { u64 v0=(u64)M.eval(e,s.model.data()); vals.push_back({v0,s.model}); blk=M.not1(M.eq(e,M.cst(v0,e->w))); }
    for(;;){ std::vector<u8> m; if(blk->op==CONST){ if(!blk->k) break; m=s.model; } else if(s.sat(blk,m)!=1) break; u64 v=(u64)M.eval(e,m.data()); vals.push_back({v,m}); if(vals.size()>600) throw Undecided{"too many values when concretising in "+s.frames.back().f->name}; blk=M.band(blk,M.not1(M.eq(e,M.cst(v,e->w)))); }
    for(size_t i=1;i<vals.size();i++){ State*n=clone(s); E c=M.eq(e,M.cst(vals[i].first,e->w)); n->add(c,&vals[i].second); n->eqs.push_back({e,vals[i].first}); }
    E c=M.eq(e,M.cst(vals[0].first,e->w)); if(vals.size()>1) s.add(c,&vals[0].second); s.eqs.push_back({e,vals[0].first});
    return vals[0].first;
  }
  u64 conc(State&s,Slot a){ return a.e?concretize(s,a.e):a.v; }

  // load through a symbolic address
  Slot symLoad(State&s,E ad,unsigned w){
    u128 v; if(s.value(ad,v)) return load(s,(u64)v,w);
    Supp f=s.eff(ad);
    if(f.count()==1){
      int sy=f.first(); std::vector<u8> a(s.dom.size()); ad->supp.each([&](int t){ a[t]=s.dom[t].first(); });
      std::map<u64,Slot> cache; bool sym=false,inv=false; std::vector<u64> byv(256,0); std::set<u64> distinct;
      // some value of the symbol (possibly excluded by the rest of the path condition) gives an invalid address
      s.dom[sy].each([&](int b){ a[sy]=b; if(!valid(s,(u64)M.eval(ad,a.data()),(w+7)/8)) inv=true; });
      if(inv){ u64 x=concretize(s,ad); return load(s,x,w); }
      s.dom[sy].each([&](int b){ a[sy]=b; u64 x=(u64)M.eval(ad,a.data()); auto it=cache.find(x); if(it==cache.end()) it=cache.emplace(x,load(s,x,w)).first; if(it->second.e) sym=true; byv[b]=it->second.v; if(!sym) distinct.insert(it->second.v); });
      if(!sym&&w<=64){
        if(distinct.size()==1) return {*distinct.begin(),nullptr};
        if(w<=8||(w==16)){ std::vector<u64> t; for(u8 b:M.syms[sy].vals) t.push_back(byv[b]); return norm(M.lut(sy,w,t)); }
        u64 r=partition(s,sy,[&](int b)->u64{ return byv[b]; }); return {r,nullptr};
      }
    }
    // table lookup: constant base plus a small index
    if(w<=16&&ad->w==64){
      u64 base=0; E ix=ad; if(ad->op==ADD&&Mgr::isC(ad->b)){ base=(u64)ad->b->k; ix=ad->a; } else { E bx; u128 bc; M.basec(ad,bx,bc); if(bc){ base=(u64)bc; ix=bx; } }
      u128 mx=Mgr::umax(ix);
      if(!base){ u64 un=~(u64)(ad->kz|ad->ko); if(un<=0xff){ base=(u64)ad->ko&~0xffull; ix=M.trunc(ad,8); mx=Mgr::umax(ix); } }
      if(base&&mx<=255){ bool ok=true; std::vector<u64> t; 
        for(u64 i=0;i<=(u64)mx&&ok;i++){ if((i&~(u64)mx)||((u64)ix->ko&~i)){ t.push_back(~0ull); continue; } // impossible by known bits
          u64 a=base+i; if(!valid(s,a,(w+7)/8)){ t.push_back(~0ull); E q=M.eq(ix,M.cst(i,ix->w)); std::vector<u8> m; if(s.tri(q)!=0&&s.sat(q,m)==1) ok=false; continue; }
          Slot v=load(s,a,w); if(v.e) ok=false; t.push_back(v.v); }
        if(ok) return norm(table(ix,t,w)); } }
    u64 x=concretize(s,ad); return load(s,x,w);
  }
  bool valid(State&s,u64 a,u64 n){ return (a>=0x100000&&a+n<=P.gtop)||(a>=s.lowbrk&&a+n<=s.brk)||(a>=STACKLIM&&a+n<=STACKTOP); }
  // select t[ix] (entries ~0 are don't-care) as a chain of constant or affine pieces
  E table(E ix,const std::vector<u64>&t,unsigned w){ E r=table0(ix,t,w); if(w==8&&r->op!=CONST&&!r->tab&&!M.vset.count(r)){ Dom d; u64 mx=(u64)Mgr::umax(ix); for(u64 i=0;i<t.size()&&i<=mx;i++) if(t[i]!=~0ull) d.add(t[i]&0xff); M.vset[r]=d; } return r; }
  E table0(E ix,const std::vector<u64>&t,unsigned w){
    E iw= ix->w>=w?M.trunc(ix,w):M.zext(ix,w); u64 m=mask64(w);
    struct Pc { u64 hi; bool aff; u64 k; }; std::vector<Pc> ps; size_t i=0;
    while(i<t.size()){ if(t[i]==~0ull){ i++; continue; }
      size_t a=i, lastA=i; u64 d=(t[i]-i)&m; for(a=i;a<t.size();a++){ if(t[a]==~0ull) continue; if(((t[a]-a)&m)!=d) break; lastA=a; }
      size_t c=i, lastC=i; for(c=i;c<t.size();c++){ if(t[c]==~0ull) continue; if(t[c]!=t[i]) break; lastC=c; }
      if(lastA>lastC){ ps.push_back({lastA,true,d}); i=lastA+1; } else { ps.push_back({lastC,false,t[i]}); i=lastC+1; } }
    if(ps.empty()) return M.cst(0,w);
    auto val=[&](Pc&p){ return p.aff?M.add(iw,M.cst(p.k,w)):M.cst(p.k,w); };
    E r=val(ps.back()); for(int k=(int)ps.size()-2;k>=0;k--) r=M.ite(M.ult(ix,M.cst(ps[k].hi+1,ix->w)),val(ps[k]),r);
    return r;
  }

  // ------------------------------------------------------------ arithmetic
  static u64 cbin(int op,unsigned w,u64 a,u64 b){
    u64 m=mask64(w);
    switch(op){ case I_ADD:return (a+b)&m;case I_SUB:return (a-b)&m;case I_MUL:return (a*b)&m;case I_UDIV:return b?a/b:0;case I_UREM:return b?a%b:0;
      case I_SDIV:{i64 x=sext64(a,w),y=sext64(b,w); if(!y) return 0; if(y==-1) return (u64)(-(u64)x)&m; return (u64)(x/y)&m;} case I_SREM:{i64 x=sext64(a,w),y=sext64(b,w); if(!y||y==-1) return 0; return (u64)(x%y)&m;}
      case I_AND:return a&b;case I_OR:return a|b;case I_XOR:return a^b;case I_SHL:return b>=w?0:(a<<b)&m;case I_LSHR:return b>=w?0:a>>b;case I_ASHR:return b>=w?0:(u64)(sext64(a,w)>>b)&m; }
    abort();
  }
  static Op eop(int op){ static const Op t[]={ADD,SUB,MUL,UDIV,UREM,SDIV,SREM,AND,OR,XOR,SHL,LSHR,ASHR}; return t[op]; }
  static bool ccmp(int p,unsigned w,u64 a,u64 b){
    switch(p){ case LLVMIntEQ:return a==b;case LLVMIntNE:return a!=b;case LLVMIntUGT:return a>b;case LLVMIntUGE:return a>=b;case LLVMIntULT:return a<b;case LLVMIntULE:return a<=b;
      case LLVMIntSGT:return sext64(a,w)>sext64(b,w);case LLVMIntSGE:return sext64(a,w)>=sext64(b,w);case LLVMIntSLT:return sext64(a,w)<sext64(b,w);default:return sext64(a,w)<=sext64(b,w);} }
  E scmp(int p,E a,E b){
    switch(p){ case LLVMIntEQ:return M.eq(a,b);case LLVMIntNE:return M.not1(M.eq(a,b));case LLVMIntUGT:return M.ult(b,a);case LLVMIntUGE:return M.not1(M.ult(a,b));case LLVMIntULT:return M.ult(a,b);case LLVMIntULE:return M.not1(M.ult(b,a));
      case LLVMIntSGT:return M.slt(b,a);case LLVMIntSGE:return M.not1(M.slt(a,b));case LLVMIntSLT:return M.slt(a,b);default:return M.not1(M.slt(b,a));} }
  // intrinsic on concrete values; second result in r2
  static u64 cintr(int id,unsigned w,u64 a,u64 b,u64 c,u64&r2){
    u64 m=mask64(w);
    switch(id){
      case N_UADDO:{u128 r=(u128)a+b; r2=(r>>w)!=0; return (u64)r&m;} case N_USUBO: r2=a<b; return (a-b)&m; case N_UMULO:{u128 r=(u128)a*b; r2=(r>>w)!=0; return (u64)r&m;}
      case N_SADDO:{i128 r=(i128)sext64(a,w)+sext64(b,w); u64 x=(u64)r&m; r2=(i128)sext64(x,w)!=r; return x;} case N_SSUBO:{i128 r=(i128)sext64(a,w)-sext64(b,w); u64 x=(u64)r&m; r2=(i128)sext64(x,w)!=r; return x;} case N_SMULO:{i128 r=(i128)sext64(a,w)*sext64(b,w); u64 x=(u64)r&m; r2=(i128)sext64(x,w)!=r; return x;}
      case N_UMIN:return a<b?a:b;case N_UMAX:return a>b?a:b;case N_SMIN:return sext64(a,w)<sext64(b,w)?a:b;case N_SMAX:return sext64(a,w)>sext64(b,w)?a:b;
      case N_UADDSAT:{u128 r=(u128)a+b; return r>m?m:(u64)r;} case N_USUBSAT:return a<b?0:a-b;
      case N_CTLZ:return a?__builtin_clzll(a)-(64-w):w; case N_CTTZ:return a?__builtin_ctzll(a):w; case N_CTPOP:return __builtin_popcountll(a);
      case N_BSWAP:return __builtin_bswap64(a)>>(64-w); case N_BITREV:{u64 r=0; for(unsigned i=0;i<w;i++) if(a>>i&1) r|=1ull<<(w-1-i); return r;}
      case N_FSHL:{unsigned k=c%w; return k?((a<<k)|(b>>(w-k)))&m:a;} case N_FSHR:{unsigned k=c%w; return k?((a<<(w-k))|(b>>k))&m:b;}
      case N_ABS:{i64 x=sext64(a,w); return (u64)(x<0?-(u64)x:(u64)x)&m;}
    }
    fail("intrinsic "+std::to_string(id));
  }
  Slot sintr(State&s,int id,unsigned w,Slot a,Slot b,Slot c,Slot&r2){
    E ea=ex(a,w), eb=(id==N_CTLZ||id==N_CTTZ||id==N_ABS)?nullptr:(id==N_CTPOP||id==N_BSWAP||id==N_BITREV)?nullptr:ex(b,w), ec=(id==N_FSHL||id==N_FSHR)?ex(c,w):nullptr;
    Supp sp=ea->supp; if(eb) sp=sp|eb->supp; if(ec) sp=sp|ec->supp;
    if(sp.count()==1&&w<=64){ int sy=sp.first(); size_t n=M.syms[sy].vals.size(); std::vector<u64> t1(n),t2(n); auto get=[&](E e,size_t i)->u64{ return !e?0:e->tab?e->tab[i]:(u64)e->k; };
      for(size_t i=0;i<n;i++){ u64 x=0; t1[i]=cintr(id,w,get(ea,i),get(eb,i),get(ec,i),x); t2[i]=x; } r2=norm(M.lut(sy,1,t2)); return norm(M.lut(sy,w,t1)); }
    E r=nullptr,o=nullptr; unsigned W=2*w;
    switch(id){
      case N_UADDO: r=M.add(ea,eb); o=M.ult(r,ea); if(W<=128){ u128 mx=Mgr::umax(ea)+Mgr::umax(eb); if(mx<=maskw(w)) o=M.fa(); } break;
      case N_USUBO: r=M.sub(ea,eb); o=M.ult(ea,eb); break;
      case N_UMULO: { r=M.mul(ea,eb); E ww=M.mul(M.zext(ea,W),M.zext(eb,W)); o=M.not1(M.eq(M.extract(ww,w,w),M.cst(0,w))); break; }
      case N_SADDO: { r=M.add(ea,eb); E ww=M.add(M.sext(ea,w+1),M.sext(eb,w+1)); o=M.not1(M.eq(M.sext(r,w+1),ww)); break; }
      case N_SSUBO: { r=M.sub(ea,eb); E ww=M.sub(M.sext(ea,w+1),M.sext(eb,w+1)); o=M.not1(M.eq(M.sext(r,w+1),ww)); break; }
      case N_UMIN: r=M.ite(M.ult(ea,eb),ea,eb); break; case N_UMAX: r=M.ite(M.ult(ea,eb),eb,ea); break;
      case N_SMIN: r=M.ite(M.slt(ea,eb),ea,eb); break; case N_SMAX: r=M.ite(M.slt(ea,eb),eb,ea); break;
      case N_UADDSAT: { E x=M.add(ea,eb); r=M.ite(M.ult(x,ea),M.cst(~(u128)0,w),x); break; }
      case N_USUBSAT: r=M.ite(M.ult(ea,eb),M.cst(0,w),M.sub(ea,eb)); break;
      case N_CTTZ: { r=M.cst(w,w); for(int i=w-1;i>=0;i--) r=M.ite(M.extract(ea,i,1),M.cst(i,w),r); break; }
      case N_CTLZ: { r=M.cst(w,w); for(unsigned i=0;i<w;i++) r=M.ite(M.extract(ea,i,1),M.cst(w-1-i,w),r); break; }
      case N_CTPOP: { r=M.cst(0,w); for(unsigned i=0;i<w;i++) r=M.add(r,M.zext(M.extract(ea,i,1),w)); break; }
      case N_BSWAP: { for(unsigned i=0;i<w/8;i++){ E x=M.extract(ea,8*i,8); r=r?M.concat(r,x):x; } break; }
      case N_FSHL: case N_FSHR: { u64 k=conc(s,c)%w; if(!k){ r=id==N_FSHL?ea:eb; break; } unsigned L=id==N_FSHL?k:w-k; r=M.bor(M.shl(ea,M.cst(L,w)),M.lshr(eb,M.cst(w-L,w))); break; }
      case N_ABS: r=M.ite(M.slt(ea,M.cst(0,w)),M.sub(M.cst(0,w),ea),ea); break;
      default: fail("symbolic intrinsic "+std::to_string(id));
    }
    if(o) r2=norm(o); return norm(r);
  }

  // ------------------------------------------------------------ control
  void pushFrame(State&s,Func*f,const std::vector<Slot>&args,i32 retdst){
    if(s.frames.size()>8000) throw PathEnd{2,"call depth exceeded in "+f->name};
    u32 base=s.frames.empty()?0:s.frames.back().base+s.frames.back().f->nslots;
    if(s.slots.size()<base+f->nslots+8) s.slots.resize(std::max<size_t>(base+f->nslots+8,s.slots.size()*2));
    for(size_t i=0;i<args.size()&&i<(size_t)f->nargs;i++) s.slots[base+i]=args[i];
    for(size_t i=args.size();i<(size_t)f->nargs;i++) s.slots[base+i]={0,nullptr};
    s.frames.push_back({f,0,base,s.sp,retdst}); f->hits++;
  }
  void takeEdge(State&s,Frame&fr,const Edge&e){
    Slot*S=s.slots.data()+fr.base; const Slot*Pl=fr.f->pool.data();
    if(e.phi.size()==1){ auto&p=e.phi[0]; S[p.first]=p.second>=0?S[p.second]:Pl[~p.second]; }
    else if(!e.phi.empty()){ Slot tmp[64]; std::vector<Slot> big; Slot*t=tmp; if(e.phi.size()>64){ big.resize(e.phi.size()); t=big.data(); } int k=0; for(auto&p:e.phi) t[k++]=p.second>=0?S[p.second]:Pl[~p.second]; k=0; for(auto&p:e.phi) S[p.first]=t[k++]; }
    fr.pc=e.pc;
  }
  bool isPanic(const std::string&n){ return n.find("4core9panicking")!=std::string::npos||n.find("3std9panicking11begin_panic")!=std::string::npos||n.find("panic_with_hook")!=std::string::npos||n.find("handle_alloc_error")!=std::string::npos||n.find("rust_begin_unwind")!=std::string::npos||n.find("begin_panic_handler")!=std::string::npos; }
  std::vector<u8> fkind; // per function: 0 normal, 1 panic, 2 hooked
  std::vector<int> fhook;
  std::vector<std::pair<std::string,int>> hookPats; // substring -> ext
  void prepare(){
    fkind.assign(P.funcs.size(),0); fhook.assign(P.funcs.size(),-1);
    for(auto F:P.funcs){
      if(isPanic(F->name)) { fkind[F->idx]=1; continue; }
      for(auto&h:hookPats) if(F->name.find(h.first)!=std::string::npos){ fkind[F->idx]=2; fhook[F->idx]=h.second; }
      if(F->decl){ auto it=extIdx.find(F->name); if(it!=extIdx.end()) F->ext=it->second; }
    }
  }
  std::string panicWhere(State&s,Func*callee,std::vector<Slot>&args){
    std::string r=callee->name; // try to find the &Location among the arguments
    for(auto&a:args) if(!a.e&&a.v>=0x100000&&a.v+24<=P.gtop){ Slot p=load(s,a.v,64),l=load(s,a.v+8,64),ln=load(s,a.v+16,32); if(!p.e&&!l.e&&p.v>=0x100000&&p.v+l.v<=P.gtop&&l.v>3&&l.v<300){ std::string f; for(u64 i=0;i<l.v;i++){ SByte b=rdb(s,p.v+i); f+=(char)b.v; } if(f.find(".rs")!=std::string::npos) r=f+":"+std::to_string(ln.v); } }
    return r;
  }
  // returns false when path ended
  bool doCall(State&s,Frame&fr,Func*f,const Inst&I,u32 mypc){
    const i64*ax=fr.f->aux.data()+I.aux; u64 na=ax[0]; Slot*S=s.slots.data()+fr.base; const Slot*Pl=fr.f->pool.data();
    static thread_local std::vector<Slot> args; args.resize(na); for(u64 i=0;i<na;i++){ i32 o=(i32)ax[1+i]; args[i]=o>=0?S[o]:Pl[~o]; }
    int kd=fkind[f->idx];
    if(warmRec&&f==usermain&&!s.warmDepth){ fr.pc=mypc; s.warmDepth=s.frames.size(); warmRec->frames=s.frames; warmRec->slots=s.slots; warmRec->sp=s.sp; }
    if(kd==1){ std::string w=panicWhere(s,f,args); throw PathEnd{1,"panic at "+w}; }
    int h=-1; if(kd==2) h=fhook[f->idx]; else if(f->decl){ h=f->ext; if(h<0) throw Undecided{"unmodelled external function "+f->name}; }
    if(h>=0){
      Slot ret[8]; for(auto&r:ret) r={0,nullptr};
      fr.pc=mypc; // forks inside the model re-execute the call
      int r=exts[h](*this,s,args,ret);
      if(r==1) return false;
      if(r==5){ f->hits++; s.frames[s.frames.size()-2].pc=mypc+1; s.frames.back().retdst=I.dst; return true; } // the model pushed a frame whose result is this call's result
      if(r==4) return true; // a new phase was started
      if(r==3){ /* not handled: fall through to the real body */ }
      else { f->hits++; Frame&f2=s.frames.back(); f2.pc=mypc+1; Slot*S2=s.slots.data()+f2.base; for(u32 k=0;k<I.n&&k<8;k++) S2[I.dst+k]=ret[k]; return true; }
    }
    fr.pc=mypc+1;
    pushFrame(s,f,args,I.dst); return true;
  }

  void run(State&s);      // interpret until the path ends; forks go to work
  bool topReturn(State&s,Slot ret); // outermost frame returned
  void endRun(State&s,int kind,u64 code,const std::string&note);
  void startRun(State&s);
  void startSpec(State&s);
};

