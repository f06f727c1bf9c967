// Hash-consed bit-vector expressions over 8-bit symbols, with canonical value
// tables for expressions that depend on one symbol only.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <stdexcept>
#include <memory>
#include <map>
#include <set>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int32_t i32;

struct EngineError : std::runtime_error { using runtime_error::runtime_error; };
[[noreturn]] static inline void fail(const std::string& s) { throw EngineError(s); }

static const int MAXSYM = 192;
struct Supp {
  u64 w[3];
  Supp() { w[0]=w[1]=w[2]=0; }
  bool empty() const { return !(w[0]|w[1]|w[2]); }
  int count() const { return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2]); }
  void add(int s) { w[s>>6] |= 1ull<<(s&63); }
  bool has(int s) const { return (w[s>>6]>>(s&63))&1; }
  Supp operator|(const Supp&o) const { Supp r; for(int i=0;i<3;i++) r.w[i]=w[i]|o.w[i]; return r; }
  Supp operator&(const Supp&o) const { Supp r; for(int i=0;i<3;i++) r.w[i]=w[i]&o.w[i]; return r; }
  bool operator==(const Supp&o) const { return w[0]==o.w[0]&&w[1]==o.w[1]&&w[2]==o.w[2]; }
  int first() const { for(int i=0;i<3;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  template<class F> void each(F f) const { for(int i=0;i<3;i++){ u64 x=w[i]; while(x){ int b=__builtin_ctzll(x); x&=x-1; f(i*64+b);} } }
};

struct Dom { // subset of byte values
  u64 w[4];
  Dom() { w[0]=w[1]=w[2]=w[3]=0; }
  bool has(int v) const { return (w[v>>6]>>(v&63))&1; }
  void add(int v) { w[v>>6] |= 1ull<<(v&63); }
  int count() const { int c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(w[i]); return c; }
  bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
  Dom operator&(const Dom&o) const { Dom r; for(int i=0;i<4;i++) r.w[i]=w[i]&o.w[i]; return r; }
  Dom operator|(const Dom&o) const { Dom r; for(int i=0;i<4;i++) r.w[i]=w[i]|o.w[i]; return r; }
  Dom operator~() const { Dom r; for(int i=0;i<4;i++) r.w[i]=~w[i]; return r; }
  bool operator==(const Dom&o) const { return !memcmp(w,o.w,32); }
  int first() const { for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  template<class F> void each(F f) const { for(int i=0;i<4;i++){ u64 x=w[i]; while(x){ int b=__builtin_ctzll(x); x&=x-1; f(i*64+b);} } }
};

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT, LUT };
static const char* opname[] = {"const","sym","add","sub","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext","lut"};

struct Expr;
typedef const Expr* E;
struct Expr {
  Op op; u16 w; u16 lo; u32 id;
  E a,b,c;
  u128 k;            // constant value / symbol index
  u128 kz, ko;       // bits known zero / known one
  Supp supp; int ns; // ns = number of symbols in support
  const u64* tab;    // for ns==1, w<=64: value per domain rank
  Dom* truth;        // for ns==1, w==1: byte values making it true
};

static inline u128 maskw(unsigned w) { return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static inline u64 mask64(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sext64(u64 v, unsigned w) { return w>=64 ? (i64)v : (i64)(v<<(64-w))>>(64-w); }
static inline i128 sext128(u128 v, unsigned w) { return w>=128 ? (i128)v : (i128)(v<<(128-w))>>(128-w); }

// concrete semantics (x / 0 and oversized shifts are guarded by the executor; total here)
static inline u128 evalop(Op op, unsigned w, u128 a, u128 b, unsigned aw, unsigned bw) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
    case UDIV: return b? a/b : m; case UREM: return b? a%b : a;
    case SDIV: { i128 x=sext128(a,w),y=sext128(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
    case SREM: { i128 x=sext128(a,w),y=sext128(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
    case AND: return a&b; case OR: return a|b; case XOR: return a^b;
    case SHL: return b>=w?0:(a<<(unsigned)b)&m; case LSHR: return b>=w?0:(a>>(unsigned)b);
    case ASHR: { i128 x=sext128(a,w); unsigned s=b>=w?w-1:(unsigned)b; return (u128)(x>>s)&m; }
    case EQ: return a==b; case ULT: return a<b; case SLT: return sext128(a,aw)<sext128(b,bw);
    case CONCAT: return (a<<bw)|b;
    default: abort();
  }
}

struct SymInfo { std::string name; Dom dom; std::vector<u8> vals; int rank[256]; E e; };

struct Mgr {
  std::vector<SymInfo> syms;
  std::vector<char*> chunks; size_t cpos=0, ccap=0;
  u32 nextid=1;
  std::vector<E> byid{nullptr};
  struct Key { Op op; u16 w, lo; E a,b,c; u128 k; };
  struct KH { size_t operator()(const Key&x) const { size_t h=x.op*0x9E3779B97F4A7C15ull ^ (size_t)x.w<<20 ^ (size_t)x.lo<<40; 
      auto mix=[&](u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>33; };
      mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); mix((u64)x.k); mix((u64)(x.k>>64)); return h; } };
  struct KE { bool operator()(const Key&x,const Key&y) const { return x.op==y.op&&x.w==y.w&&x.lo==y.lo&&x.a==y.a&&x.b==y.b&&x.c==y.c&&x.k==y.k; } };
  std::unordered_map<Key,E,KH,KE> tbl;
  std::unordered_multimap<u64,E> tabs; // canonical tables
  void* alloc(size_t n) { n=(n+15)&~15; if(cpos+n>ccap){ ccap=std::max<size_t>(1<<20,n); chunks.push_back((char*)aligned_alloc(16,ccap)); cpos=0; } void*p=chunks.back()+cpos; cpos+=n; return p; }

  int addSym(const std::string& name, const Dom& d) {
    int s=syms.size(); if(s>=MAXSYM) fail("too many symbols");
    SymInfo si; si.name=name; si.dom=d; si.e=nullptr; for(int i=0;i<256;i++) si.rank[i]=-1;
    d.each([&](int v){ si.rank[v]=si.vals.size(); si.vals.push_back(v); });
    if(si.vals.empty()) fail("empty symbol domain");
    syms.push_back(si);
    if(si.vals.size()==1) { syms[s].e=cst(si.vals[0],8); return s; }
    Expr* x=raw(); x->op=SYM; x->w=8; x->k=s; x->supp.add(s); x->ns=1;
    u64* t=(u64*)alloc(8*si.vals.size()); u64 o=~0ull,z=0; for(size_t i=0;i<si.vals.size();i++){ t[i]=si.vals[i]; o&=t[i]; z|=t[i]; }
    x->tab=t; x->ko=o&0xff; x->kz=~z&0xff; syms[s].e=x; regtab(x); return s;
  }
  Expr* raw() { Expr*x=(Expr*)alloc(sizeof(Expr)); memset((void*)x,0,sizeof *x); x->id=nextid++; byid.push_back(x); return x; }
  u64 tabhash(int s,unsigned w,const u64*t,size_t n){ u64 h=s*1000003ull+w; for(size_t i=0;i<n;i++){ h^=t[i]; h*=0x9E3779B97F4A7C15ull; h^=h>>29; } return h; }
  void regtab(E x){ int s=x->supp.first(); tabs.emplace(tabhash(s,x->w,x->tab,syms[s].vals.size()),x); }
  E cst(u128 v, unsigned w) {
    v&=maskw(w); Key k{CONST,(u16)w,0,nullptr,nullptr,nullptr,v}; auto it=tbl.find(k); if(it!=tbl.end()) return it->second;
    Expr*x=raw(); x->op=CONST; x->w=w; x->k=v; x->ko=v; x->kz=~v&maskw(w); tbl[k]=x; return x;
  }
  E tr() { return cst(1,1); } E fa() { return cst(0,1); }
  static bool isC(E e) { return e->op==CONST; }
  static bool isC(E e, u128 v) { return e->op==CONST && e->k==v; }

  // raw node constructor (hash-consing + table canonicalisation + known bits)
  E mk(Op op, unsigned w, E a, E b=nullptr, E c=nullptr, unsigned lo=0, u128 k=0) {
    Key key{op,(u16)w,(u16)lo,a,b,c,k}; auto it=tbl.find(key); if(it!=tbl.end()) return it->second;
    Supp sp=a->supp; if(b) sp=sp|b->supp; if(c) sp=sp|c->supp;
    int ns=sp.count();
    u64* t=nullptr; int s=-1; size_t n=0;
    if(ns==1 && w<=64 && a->w<=64 && (!b||b->w<=64) && (!c||c->w<=64)) {
      s=sp.first(); n=syms[s].vals.size(); t=(u64*)alloc(8*n);
      auto get=[&](E e,size_t i)->u64{ return e->tab? e->tab[i] : (u64)e->k; };
      for(size_t i=0;i<n;i++) {
        u64 r;
        switch(op){
          case ITE: r=get(a,i)?get(b,i):get(c,i); break;
          case EXTRACT: r=(get(a,i)>>lo)&mask64(w); break;
          case ZEXT: r=get(a,i); break;
          case SEXT: r=(u64)sext64(get(a,i),a->w)&mask64(w); break;
          default: r=(u64)evalop(op,w,get(a,i),get(b,i),a->w,b->w);
        }
        t[i]=r;
      }
      E can=findTab(s,w,t,n); if(can){ tbl[key]=can; return can; }
    }
    Expr*x=raw(); x->op=op; x->w=w; x->a=a; x->b=b; x->c=c; x->lo=lo; x->k=k; x->supp=sp; x->ns=ns; x->tab=t;
    if(t){ u64 o=~0ull,z=0; for(size_t i=0;i<n;i++){ o&=t[i]; z|=t[i]; } x->ko=o&mask64(w); x->kz=~z&mask64(w); 
      if(w==1){ Dom*d=(Dom*)alloc(sizeof(Dom)); *d=Dom(); for(size_t i=0;i<n;i++) if(t[i]) d->add(syms[s].vals[i]); x->truth=d; }
      regtab(x); }
    else known(x);
    tbl[key]=x; return x;
  }
  E findTab(int s,unsigned w,const u64*t,size_t n){
    bool same=true; for(size_t i=1;i<n;i++) if(t[i]!=t[0]){same=false;break;}
    if(same) return cst(t[0],w);
    auto r=tabs.equal_range(tabhash(s,w,t,n));
    for(auto i=r.first;i!=r.second;++i){ E e=i->second; if(e->w==w && e->supp.first()==s && !memcmp(e->tab,t,8*n)) return e; }
    return nullptr;
  }
  // lookup table expression: value per rank of symbol s
  E lut(int s, unsigned w, const std::vector<u64>& vals) {
    size_t n=syms[s].vals.size(); u64*t=(u64*)alloc(8*n); memcpy(t,vals.data(),8*n);
    E can=findTab(s,w,t,n); if(can) return can;
    Expr*x=raw(); x->op=LUT; x->w=w; x->a=syms[s].e; x->supp.add(s); x->ns=1; x->tab=t;
    u64 o=~0ull,z=0; for(size_t i=0;i<n;i++){ o&=t[i]; z|=t[i]; } x->ko=o&mask64(w); x->kz=~z&mask64(w);
    if(w==1){ Dom*d=(Dom*)alloc(sizeof(Dom)); *d=Dom(); for(size_t i=0;i<n;i++) if(t[i]) d->add(syms[s].vals[i]); x->truth=d; }
    regtab(x); return x;
  }
  void known(Expr*x){
    u128 m=maskw(x->w); E a=x->a,b=x->b,c=x->c; u128 z=0,o=0;
    switch(x->op){
      case AND: z=a->kz|b->kz; o=a->ko&b->ko; break;
      case OR: z=a->kz&b->kz; o=a->ko|b->ko; break;
      case XOR: z=(a->kz&b->kz)|(a->ko&b->ko); o=(a->kz&b->ko)|(a->ko&b->kz); break;
      case ITE: z=b->kz&c->kz; o=b->ko&c->ko; break;
      case CONCAT: z=(a->kz<<b->w)|b->kz; o=(a->ko<<b->w)|b->ko; break;
      case EXTRACT: z=a->kz>>x->lo; o=a->ko>>x->lo; break;
      case ZEXT: z=a->kz|(m&~maskw(a->w)); o=a->ko; break;
      case SEXT: { u128 hi=m&~maskw(a->w); u128 sb=(u128)1<<(a->w-1); z=a->kz|((a->kz&sb)?hi:0); o=a->ko|((a->ko&sb)?hi:0); break; }
      case ADD: { // leading zeros / common low zeros
        u128 amax=~a->kz&m,bmax=~b->kz&m; u128 s=amax+bmax; if(s>=amax && s<=m){ u128 h=s; for(int i=1;i<128;i<<=1) h|=h>>i; z|=m&~h; }
        u128 lowz=a->kz&b->kz; u128 t=~lowz; u128 lowmask = t? ((t&-t)-1):~(u128)0; z|=lowmask&m; break; }
      case MUL: { u128 amax=~a->kz&m,bmax=~b->kz&m; if(amax<((u128)1<<62)&&bmax<((u128)1<<62)){ u128 s=amax*bmax; if(s<=m){ u128 h=s; for(int i=1;i<128;i<<=1) h|=h>>i; z|=m&~h; } } break; }
      case UREM: { u128 bmax=~b->kz&m, amax=~a->kz&m; u128 s=std::min(amax,bmax?bmax-1:(u128)0); u128 h=s; for(int i=1;i<128;i<<=1) h|=h>>i; if(b->ko) z|=m&~h; break; }
      case UDIV: { u128 h=~a->kz&m; for(int i=1;i<128;i<<=1) h|=h>>i; if(b->ko) z|=m&~h; break; }
      case LSHR: { u128 h=~a->kz&m; for(int i=1;i<128;i<<=1) h|=h>>i; z|=m&~h; break; }
      default: break;
    }
    x->kz=z&m; x->ko=o&m;
  }
  static u128 umax(E e){ return ~e->kz&maskw(e->w); }
  static u128 umin(E e){ return e->ko; }

  E not1(E a){ return bxor(a,tr()); }
  E extract(E a, unsigned lo, unsigned w){
    if(lo==0&&w==a->w) return a;
    if(isC(a)) return cst(a->k>>lo,w);
    u128 m=maskw(w); if((((a->kz|a->ko)>>lo)&m)==m) return cst(a->ko>>lo,w);
    if(a->ns==1&&a->tab) return mk(EXTRACT,w,a,nullptr,nullptr,lo);
    switch(a->op){
      case EXTRACT: return extract(a->a,a->lo+lo,w);
      case CONCAT: { unsigned bw=a->b->w; if(lo>=bw) return extract(a->a,lo-bw,w); if(lo+w<=bw) return extract(a->b,lo,w);
        return concat(extract(a->a,0,lo+w-bw),extract(a->b,lo,bw-lo)); }
      case ZEXT: { unsigned iw=a->a->w; if(lo>=iw) return cst(0,w); if(lo+w<=iw) return extract(a->a,lo,w); return zext(extract(a->a,lo,iw-lo),w); }
      case SEXT: { unsigned iw=a->a->w; if(lo+w<=iw) return extract(a->a,lo,w); break; }
      case AND: return band(extract(a->a,lo,w),extract(a->b,lo,w));
      case OR: return bor(extract(a->a,lo,w),extract(a->b,lo,w));
      case XOR: return bxor(extract(a->a,lo,w),extract(a->b,lo,w));
      case ITE: return ite(a->a,extract(a->b,lo,w),extract(a->c,lo,w));
      case ADD: if(lo==0) return add(extract(a->a,0,w),extract(a->b,0,w)); break;
      case SUB: if(lo==0) return sub(extract(a->a,0,w),extract(a->b,0,w)); break;
      case MUL: if(lo==0) return mul(extract(a->a,0,w),extract(a->b,0,w)); break;
      default: break;
    }
    return mk(EXTRACT,w,a,nullptr,nullptr,lo);
  }
  E trunc(E a,unsigned w){ return extract(a,0,w); }
  E zext(E a,unsigned w){ if(a->w==w) return a; if(isC(a)) return cst(a->k,w); if(a->op==ZEXT&&!a->tab) return zext(a->a,w); return mk(ZEXT,w,a); }
  E sext(E a,unsigned w){ if(a->w==w) return a; if(isC(a)) return cst((u128)sext128(a->k,a->w),w); if(a->kz>>(a->w-1)&1) return zext(a,w); return mk(SEXT,w,a); }
  E concat(E a,E b){ // a high
    unsigned w=a->w+b->w;
    if(w>128) fail("concat >128");
    if(isC(a)&&isC(b)) return cst((a->k<<b->w)|b->k,w);
    if(isC(a,0)) return zext(b,w);
    if(w<=64 && (a->supp|b->supp).count()==1) return mk(CONCAT,w,a,b);
    { u128 mx=umax(a); unsigned n=0; while(n<a->w&&(mx>>n)) n++; if(n<a->w) return n==0?zext(b,w):zext(concat(extract(a,0,n),b),w); }
    // merge adjacent extracts
    E ax=a,bx=b; 
    if(ax->op==EXTRACT&&bx->op==EXTRACT&&ax->a==bx->a&&ax->lo==bx->lo+bx->w) return extract(ax->a,bx->lo,w);
    if(bx->op==EXTRACT&&bx->lo==0&&bx->w<bx->a->w){ }
    if(ax->op==EXTRACT&&ax->a==bx&&ax->lo==bx->w) return extract(bx,0,w); // cannot happen (bx->w<ax->lo+..)
    if(bx->op==CONCAT&&ax->op==EXTRACT&&bx->a->op==EXTRACT&&ax->a==bx->a->a&&ax->lo==bx->a->lo+bx->a->w)
      return concat(extract(ax->a,bx->a->lo,ax->w+bx->a->w),bx->b);
    if(ax->op==CONCAT&&bx->op==EXTRACT&&ax->b->op==EXTRACT&&ax->b->a==bx->a&&ax->b->lo==bx->lo+bx->w)
      return concat(ax->a,extract(bx->a,bx->lo,ax->b->w+bx->w));
    if(ax->op==EXTRACT&&!ax->tab){ // low part was pushed through an addition: compare with what extracting it again gives
      E h=bx->op==CONCAT?bx->a:bx; if(!isC(h)&&ax->lo>=h->w&&extract(ax->a,ax->lo-h->w,h->w)==h){ E m=extract(ax->a,ax->lo-h->w,ax->w+h->w); return bx->op==CONCAT?concat(m,bx->b):m; } }
    if(isC(a)&&bx->op==CONCAT&&isC(bx->a)) return concat(concat(a,bx->a),bx->b);
    if(ax->op==CONCAT) return concat(ax->a,concat(ax->b,bx)); // right assoc
    return mk(CONCAT,w,a,b);
  }
  // decompose into slices (low first)
  void slices(E e,std::vector<E>&out){
    if(e->tab||isC(e)){ out.push_back(e); return; }
    if(e->op==CONCAT){ slices(e->b,out); slices(e->a,out); return; }
    if(e->op==ZEXT){ slices(e->a,out); out.push_back(cst(0,e->w-e->a->w)); return; }
    out.push_back(e);
  }
  bool sliceable(E e){ return isC(e)||e->op==CONCAT||e->op==ZEXT; }
  E orDisjoint(E a,E b){ // a&b known disjoint: rebuild through slices when each piece has a zero side
    // boundaries: runs where a may be nonzero vs b may be nonzero
    unsigned w=a->w; u128 am=~a->kz&maskw(w), bm=~b->kz&maskw(w);
    std::vector<std::pair<int,unsigned>> runs; // (who,len) low first
    unsigned i=0; while(i<w){ int who=(am>>i&1)?1:(bm>>i&1)?2:0; unsigned j=i; while(j<w){ int x=(am>>j&1)?1:(bm>>j&1)?2:who; if(x!=who) break; j++; } runs.push_back({who,j-i}); i=j; }
    if(runs.size()>6) return nullptr;
    E r=nullptr; unsigned pos=0;
    for(auto&p:runs){ E x=p.first==1?extract(a,pos,p.second):p.first==2?extract(b,pos,p.second):cst(0,p.second); r=r?concat(x,r):x; pos+=p.second; }
    return r;
  }
  bool one(E a,E b){ return a->w<=64 && (a->supp|b->supp).count()<=1; }
  static bool cheapIte(E e){ return e->op==ITE && isC(e->b) && isC(e->c); }
  E band(E a,E b){
    if(isC(a)) std::swap(a,b);
    if(isC(a)) return cst(a->k&b->k,a->w);
    if(isC(b)){ if(b->k==0) return b; if(!(~a->kz&maskw(a->w)&~b->k)) return a; if(!(~a->kz&b->k)) return cst(0,a->w); }
    if(a==b) return a;
    if(!((~a->kz)&(~b->kz)&maskw(a->w))) return cst(0,a->w);
    if(one(a,b)) return mk(AND,a->w,a,b);
    if(a->w==1){ if(a->op==XOR&&a->a==b&&isC(a->b,1)) return fa(); if(b->op==XOR&&b->a==a&&isC(b->b,1)) return fa();
      if(a->op==AND&&(a->a==b||a->b==b)) return a; if(b->op==AND&&(b->a==a||b->b==a)) return b; }
    if(isC(b)){
      u128 k=b->k;
      if(a->op==AND&&isC(a->b)) return band(a->a,cst(a->b->k&k,a->w));
      // contiguous mask -> extract
      unsigned lo=0; while(!((k>>lo)&1)) lo++; u128 t=k>>lo; if((t&(t+1))==0){ unsigned n=0; while(n<128&&((t>>n)&1)) n++; 
        E x=extract(a,lo,n); E r=lo?concat(x,cst(0,lo)):x; return zext(r,a->w); }
      if(cheapIte(a)) return ite(a->a,cst(a->b->k&k,a->w),cst(a->c->k&k,a->w));
      if(a->op==CONCAT||a->op==ZEXT){ if(a->op==CONCAT) return concat(band(a->a,cst(k>>a->b->w,a->a->w)),band(a->b,cst(k,a->b->w)));
        return zext(band(a->a,cst(k,a->a->w)),a->w); }
    }
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return mk(AND,a->w,a,b);
  }
  E bor(E a,E b){
    if(isC(a)) std::swap(a,b);
    if(isC(a)) return cst(a->k|b->k,a->w);
    if(isC(b)){ if(b->k==0) return a; if(b->k==maskw(b->w)) return b; if(!(b->k&~a->ko)) return a; }
    if(a==b) return a;
    if(one(a,b)) return mk(OR,a->w,a,b);
    if(a->w==1){ if(a->op==XOR&&a->a==b&&isC(a->b,1)) return tr(); if(b->op==XOR&&b->a==a&&isC(b->b,1)) return tr();
      if(a->op==OR&&(a->a==b||a->b==b)) return a; if(b->op==OR&&(b->a==a||b->b==a)) return b; }
    else if(!((~a->kz)&(~b->kz)&maskw(a->w))){ E r=orDisjoint(a,b); if(r) return r; }
    if(isC(b)&&a->op==OR&&isC(a->b)) return bor(a->a,cst(a->b->k|b->k,a->w));
    if(isC(b)&&cheapIte(a)) return ite(a->a,cst(a->b->k|b->k,a->w),cst(a->c->k|b->k,a->w));
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return mk(OR,a->w,a,b);
  }
  E bxor(E a,E b){
    if(isC(a)) std::swap(a,b);
    if(isC(a)) return cst(a->k^b->k,a->w);
    if(isC(b,0)) return a;
    if(a==b) return cst(0,a->w);
    if(one(a,b)) return mk(XOR,a->w,a,b);
    if(isC(b)&&a->op==XOR&&isC(a->b)) return bxor(a->a,cst(a->b->k^b->k,a->w));
    if(isC(b)&&cheapIte(a)) return ite(a->a,cst(a->b->k^b->k,a->w),cst(a->c->k^b->k,a->w));
    if(a->w>1&&!((~a->kz)&(~b->kz)&maskw(a->w))) return bor(a,b);
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return mk(XOR,a->w,a,b);
  }
  E add(E a,E b){
    if(isC(a)) std::swap(a,b);
    if(isC(a)) return cst(a->k+b->k,a->w);
    if(isC(b,0)) return a;
    if(one(a,b)) return mk(ADD,a->w,a,b);
    if(a->w==1) return bxor(a,b);
    if(isC(b)&&a->op==ADD&&isC(a->b)) return add(a->a,cst(a->b->k+b->k,a->w));
    if(isC(b)&&cheapIte(a)) return ite(a->a,cst(a->b->k+b->k,a->w),cst(a->c->k+b->k,a->w));
    if(a->w<=64&&umax(a)+umax(b)<=maskw(a->w)){
        if(isC(b)&&a->op==ZEXT&&a->a->op==ADD&&isC(a->a->b)&&!a->a->tab&&umax(a->a->a)+a->a->b->k<=maskw(a->a->w)) return add(zext(a->a->a,a->w),cst(a->a->b->k+b->k,a->w)); }
    if(!isC(b)&&!((~a->kz)&(~b->kz)&maskw(a->w))) return bor(a,b);
    if(!isC(b)&&a->op==ADD&&isC(a->b)) return add(add(a->a,b),a->b);
    if(!isC(b)&&b->op==ADD&&isC(b->b)) return add(add(a,b->a),b->b);
    // sums that cannot overflow: fold constants through zero extensions and use the smallest width
    { u128 s=umax(a)+umax(b); if(a->w<=64&&s<=maskw(a->w)){
        unsigned n=1; while(n<a->w&&(s>>n)) n++; if(n<a->w) return zext(add(trunc(a,n),trunc(b,n)),a->w); } }
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return mk(ADD,a->w,a,b);
  }
  E sub(E a,E b){
    if(isC(b)) return add(a,cst(-b->k,a->w));
    if(a==b) return cst(0,a->w);
    if(one(a,b)) return mk(SUB,a->w,a,b);
    if(a->w==1) return bxor(a,b);
    if(b->op==ADD&&isC(b->b)&&!b->tab) return add(sub(a,b->a),cst(-b->b->k,a->w));
    if(a->op==ADD&&isC(a->b)&&!isC(a)) return add(sub(a->a,b),a->b);
    if(isC(a)&&cheapIte(b)) return ite(b->a,cst(a->k-b->b->k,a->w),cst(a->k-b->c->k,a->w));
    return mk(SUB,a->w,a,b);
  }
  E mul(E a,E b){
    if(isC(a)) std::swap(a,b);
    if(isC(a)) return cst(a->k*b->k,a->w);
    if(isC(b)){ if(b->k==0) return b; if(b->k==1) return a; if(one(a,b)) return mk(MUL,a->w,a,b);
      if((b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return shl(a,cst(s,a->w)); }
      if(cheapIte(a)) return ite(a->a,cst(a->b->k*b->k,a->w),cst(a->c->k*b->k,a->w)); 
      if(a->op==ADD&&isC(a->b)) return add(mul(a->a,b),cst(a->b->k*b->k,a->w));
    }
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return mk(MUL,a->w,a,b);
  }
  E udiv(E a,E b){ if(isC(a)&&isC(b)) return cst(evalop(UDIV,a->w,a->k,b->k,a->w,b->w),a->w); if(one(a,b)) return mk(UDIV,a->w,a,b);
    if(isC(b)&&b->k&&(b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return lshr(a,cst(s,a->w)); }
    if(isC(b)&&b->k&&umax(a)<b->k) return cst(0,a->w);
    if(isC(b)&&a->w>16){ u128 mx=std::max(umax(a),b->k); unsigned n=1; while(n<a->w&&(mx>>n)) n++; n=n<=8?8:n<=16?16:n<=32?32:128; if(n<a->w) return zext(udiv(trunc(a,n),trunc(b,n)),a->w); }
    return mk(UDIV,a->w,a,b); }
  E urem(E a,E b){ if(isC(a)&&isC(b)) return cst(evalop(UREM,a->w,a->k,b->k,a->w,b->w),a->w); if(one(a,b)) return mk(UREM,a->w,a,b);
    if(isC(b)&&b->k&&(b->k&(b->k-1))==0) return band(a,cst(b->k-1,a->w));
    if(isC(b)&&b->k&&umax(a)<b->k) return a;
    if(isC(b)&&a->w>16){ u128 mx=std::max(umax(a),b->k); unsigned n=1; while(n<a->w&&(mx>>n)) n++; n=n<=8?8:n<=16?16:n<=32?32:128; if(n<a->w) return zext(urem(trunc(a,n),trunc(b,n)),a->w); }
    return mk(UREM,a->w,a,b); }
  E sdiv(E a,E b){ if(isC(a)&&isC(b)) return cst(evalop(SDIV,a->w,a->k,b->k,a->w,b->w),a->w); return mk(SDIV,a->w,a,b); }
  E srem(E a,E b){ if(isC(a)&&isC(b)) return cst(evalop(SREM,a->w,a->k,b->k,a->w,b->w),a->w); return mk(SREM,a->w,a,b); }
  E shl(E a,E b){
    if(isC(b)){ if(b->k==0) return a; if(b->k>=a->w) return cst(0,a->w); if(isC(a)) return cst(a->k<<(unsigned)b->k,a->w); if(one(a,b)) return mk(SHL,a->w,a,b);
      unsigned s=(unsigned)b->k; return concat(extract(a,0,a->w-s),cst(0,s)); }
    if(isC(a,0)) return a;
    return mk(SHL,a->w,a,b);
  }
  E lshr(E a,E b){
    if(isC(b)){ if(b->k==0) return a; if(b->k>=a->w) return cst(0,a->w); if(isC(a)) return cst(a->k>>(unsigned)b->k,a->w); if(one(a,b)) return mk(LSHR,a->w,a,b);
      unsigned s=(unsigned)b->k; return zext(extract(a,s,a->w-s),a->w); }
    if(isC(a,0)) return a;
    return mk(LSHR,a->w,a,b);
  }
  E ashr(E a,E b){
    if(isC(b)){ if(b->k==0) return a; if(isC(a)) return cst(evalop(ASHR,a->w,a->k,b->k,a->w,b->w),a->w); if(one(a,b)) return mk(ASHR,a->w,a,b);
      unsigned s=b->k>=a->w?a->w-1:(unsigned)b->k; return sext(extract(a,s,a->w-s),a->w); }
    return mk(ASHR,a->w,a,b);
  }
  E ite(E c,E a,E b){
    if(isC(c)) return c->k?a:b;
    if(a==b) return a;
    if(a->w<=64&&((c->supp|a->supp)|b->supp).count()==1) return mk(ITE,a->w,c,a,b);
    if(a->w==1){ if(isC(a,1)) return bor(c,b); if(isC(a,0)) return band(not1(c),b); if(isC(b,0)) return band(c,a); if(isC(b,1)) return bor(not1(c),a); }
    if(c->op==XOR&&!c->tab&&isC(c->b,1)) return ite(c->a,b,a);
    if(a->op==ITE&&a->a==c) return ite(c,a->b,b);
    if(b->op==ITE&&b->a==c) return ite(c,a,b->c);
    return mk(ITE,a->w,c,a,b);
  }
  // a-b as a linear combination over w bits; true when every term cancels, k = the constant difference
  void linsum(E e,u64 c,std::unordered_map<E,u64>&m,u64&k,int&n){
    if(++n>4000) return; unsigned w=e->w;
    if(isC(e)){ k+=c*(u64)e->k; return; }
    switch(e->op){
      case ADD: linsum(e->a,c,m,k,n); linsum(e->b,c,m,k,n); return;
      case SUB: linsum(e->a,c,m,k,n); linsum(e->b,-c,m,k,n); return;
      case MUL: if(isC(e->b)){ linsum(e->a,c*(u64)e->b->k,m,k,n); return; } break;
      case XOR: if(isC(e->b)&&e->b->k==maskw(w)){ k-=c; linsum(e->a,-c,m,k,n); return; } break;
      default: break; }
    m[e]+=c;
  }
  bool lincancel(E a,E b,u64&k){
    if(a->w>64||a->w<2) return false; auto l=[](E e){ return e->op==ADD||e->op==SUB||e->op==XOR||e->op==MUL; }; if(!l(a)&&!l(b)) return false;
    std::unordered_map<E,u64> m; k=0; int n=0; linsum(a,1,m,k,n); linsum(b,-1ull,m,k,n); if(n>4000) return false;
    for(auto&p:m) if(p.second&mask64(a->w)) return false; k&=mask64(a->w); return true;
  }
  std::unordered_map<E,Dom> vset; // possible values of some 8-bit expressions
  E eq(E a,E b){
    if(a==b) return tr();
    if(isC(a)) std::swap(a,b);
    if(isC(a)) return cst(a->k==b->k,1);
    if((a->kz&b->ko)||(a->ko&b->kz)) return fa();
    if(a->w<=64&&(a->supp|b->supp).count()==1) return mk(EQ,1,a,b);
    if(a->w==1){ if(isC(b,1)) return a; if(isC(b,0)) return not1(a); return not1(bxor(a,b)); }
    { u64 k; if(lincancel(a,b,k)) return cst(k==0,1); }
    if(isC(b)){
      u128 k=b->k;
      if(a->w==8&&!vset.empty()){ auto it=vset.find(a); if(it!=vset.end()&&!it->second.has((int)k)) return fa(); }
      switch(a->op){
        case ZEXT: return (k>>a->a->w)?fa():eq(a->a,cst(k,a->a->w));
        case CONCAT: return band(eq(a->a,cst(k>>a->b->w,a->a->w)),eq(a->b,cst(k,a->b->w)));
        case ITE: if(isC(a->b)||isC(a->c)) return ite(a->a,eq(a->b,b),eq(a->c,b)); break;
        case ADD: if(isC(a->b)) return eq(a->a,cst(k-a->b->k,a->w)); break;
        case XOR: if(isC(a->b)) return eq(a->a,cst(k^a->b->k,a->w)); if(k==0) return eq(a->a,a->b); break;
        case SUB: if(k==0) return eq(a->a,a->b); if(isC(a->a)) return eq(a->b,cst(a->a->k-k,a->w)); break;
        case OR: if(k==0) return band(eq(a->a,b),eq(a->b,b)); break;
        default: break;
      }
      if(umax(a)<k||umin(a)>k) return fa();
    } else {
      if(a->op==ZEXT&&b->op==ZEXT){ unsigned n=std::max(a->a->w,b->a->w); return eq(zext(a->a,n),zext(b->a,n)); }
      if(a->op==CONCAT&&b->op==CONCAT&&a->b->w==b->b->w) return band(eq(a->a,b->a),eq(a->b,b->b));
      if(a->op==ADD&&b->op==ADD&&isC(a->b)&&isC(b->b)&&a->b==b->b) return eq(a->a,b->a);
    }
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return mk(EQ,1,a,b);
  }
  // x = base + c over the integers (no overflow)
  void basec(E e,E&base,u128&c){ c=0; base=e; if(e->w>64) return; if(base->op==ZEXT&&!base->tab) base=base->a; if(base->op==ADD&&isC(base->b)&&!base->tab&&umax(base->a)+base->b->k<=maskw(base->w)){ c=base->b->k; base=base->a; if(base->op==ZEXT&&!base->tab) base=base->a; } }
  E ult(E a,E b){
    if(a==b) return fa();
    if(!isC(a)&&!isC(b)){ E x,y; u128 c,d; basec(a,x,c); basec(b,y,d); if(x==y&&(c||d)) return cst(c<d,1); }
    if(isC(b)&&!a->tab){ E x; u128 c; basec(a,x,c); if(c){ if(b->k<=c) return fa(); if(b->k-c<=maskw(x->w)) return ult(x,cst(b->k-c,x->w)); return tr(); } }
    if(isC(a)&&!b->tab){ E x; u128 c; basec(b,x,c); if(c){ if(a->k<c) return tr(); if(a->k-c<=maskw(x->w)) return ult(cst(a->k-c,x->w),x); return fa(); } }
    if(isC(a)&&isC(b)) return cst(a->k<b->k,1);
    if(umax(a)<umin(b)) return tr(); if(umin(a)>=umax(b)) return fa();
    if(a->w<=64&&(a->supp|b->supp).count()==1) return mk(ULT,1,a,b);
    if(a->w==1) return band(not1(a),b);
    if(isC(b)){ if(b->k==1) return eq(a,cst(0,a->w)); if(a->op==ZEXT) return (b->k>>a->a->w)?tr():ult(a->a,cst(b->k,a->a->w)); if(a->op==ITE&&isC(a->b)&&isC(a->c)) return ite(a->a,ult(a->b,b),ult(a->c,b));
      if(a->op==CONCAT&&!(b->k&maskw(a->b->w))) return ult(a->a,cst(b->k>>a->b->w,a->a->w)); }
    if(isC(a)){ if(a->k==0) return not1(eq(b,cst(0,b->w))); if(b->op==ZEXT) return (a->k>>b->a->w)?fa():ult(cst(a->k,b->a->w),b->a); if(b->op==ITE&&isC(b->b)&&isC(b->c)) return ite(b->a,ult(a,b->b),ult(a,b->c)); }
    if(a->op==ZEXT&&b->op==ZEXT){ unsigned n=std::max(a->a->w,b->a->w); return ult(zext(a->a,n),zext(b->a,n)); }
    return mk(ULT,1,a,b);
  }
  E slt(E a,E b){
    if(a==b) return fa();
    if(isC(a)&&isC(b)) return cst(sext128(a->k,a->w)<sext128(b->k,b->w),1);
    u128 sb=(u128)1<<(a->w-1);
    if((a->kz&sb)&&(b->kz&sb)) return ult(a,b);
    if((a->ko&sb)&&(b->ko&sb)) return ult(a,b);
    if((a->ko&sb)&&(b->kz&sb)) return tr();
    if((a->kz&sb)&&(b->ko&sb)) return fa();
    if(a->w<=64&&(a->supp|b->supp).count()==1) return mk(SLT,1,a,b);
    if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return slt(a->a,b->a);
    if(a->op==SEXT&&isC(b)&&(u128)sext128(b->k,b->w)==(u128)sext128(b->k,a->a->w)) return slt(a->a,cst(b->k,a->a->w));
    if(cheapIte(a)&&isC(b)) return ite(a->a,slt(a->b,b),slt(a->c,b));
    return mk(SLT,1,a,b);
  }
  E bin(Op op,E a,E b){ switch(op){ case ADD:return add(a,b);case SUB:return sub(a,b);case MUL:return mul(a,b);case UDIV:return udiv(a,b);case UREM:return urem(a,b);case SDIV:return sdiv(a,b);case SREM:return srem(a,b);
    case AND:return band(a,b);case OR:return bor(a,b);case XOR:return bxor(a,b);case SHL:return shl(a,b);case LSHR:return lshr(a,b);case ASHR:return ashr(a,b);case EQ:return eq(a,b);case ULT:return ult(a,b);case SLT:return slt(a,b);default:abort();} }

  // evaluation under a full assignment
  u128 eval(E e,const u8* asg){ std::unordered_map<u32,u128> memo; return evalm(e,asg,memo); }
  u128 evalm(E e,const u8* asg,std::unordered_map<u32,u128>&memo){
    if(e->op==CONST) return e->k;
    if(e->tab){ int s=e->supp.first(); int r=syms[s].rank[asg[s]]; if(r<0) fail("model outside domain"); return e->tab[r]; }
    auto it=memo.find(e->id); if(it!=memo.end()) return it->second;
    u128 r;
    switch(e->op){
      case SYM: r=asg[(int)e->k]; break;
      case ITE: r=evalm(e->a,asg,memo)?evalm(e->b,asg,memo):evalm(e->c,asg,memo); break;
      case EXTRACT: r=(evalm(e->a,asg,memo)>>e->lo)&maskw(e->w); break;
      case ZEXT: r=evalm(e->a,asg,memo); break;
      case SEXT: r=(u128)sext128(evalm(e->a,asg,memo),e->a->w)&maskw(e->w); break;
      default: r=evalop(e->op,e->w,evalm(e->a,asg,memo),evalm(e->b,asg,memo),e->a->w,e->b->w);
    }
    memo[e->id]=r; return r;
  }
};
extern Mgr M;
