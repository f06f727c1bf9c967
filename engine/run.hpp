#pragma once
#include "exec.hpp"

static std::string dumpE(E e,int d){ return Exec::dump(e,d); }
static const int K_EXIT=0,K_PANIC=1,K_MEM=2,K_HANG=3;

inline void Exec::run(State&s){
  st=&s;
  while(!s.done){
    try {
      Frame*fr=&s.frames.back(); Func*F=fr->f; const Inst*code=F->code.data(); Slot*S=s.slots.data()+fr->base; const Slot*Pl=F->pool.data(); u32 pc=fr->pc;
      auto refresh=[&]{ fr=&s.frames.back(); F=fr->f; code=F->code.data(); S=s.slots.data()+fr->base; Pl=F->pool.data(); pc=fr->pc; };
      #define V(o) ((o)>=0?S[(o)]:Pl[~(o)])
      u64 lim=s.steps+ (1<<17);
      for(;;){
        if(++s.steps>=lim){ lim=s.steps+(1<<17); if(s.steps>job->steplimit) throw PathEnd{K_HANG,"step limit of "+std::to_string(job->steplimit)+" instructions exceeded in "+F->name}; if(deadline&&now()>deadline){ throw Undecided{"deadline"}; } }
        const Inst&I=code[pc];
        switch(I.op){
          case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: {
            Slot a=V(I.a), b=V(I.b);
            if(!a.e&&!b.e){ u64 r; switch(I.op){ case I_ADD:r=a.v+b.v;break;case I_SUB:r=a.v-b.v;break;case I_MUL:r=a.v*b.v;break;case I_AND:r=a.v&b.v;break;case I_OR:r=a.v|b.v;break;default:r=a.v^b.v; } S[I.dst]={r&mask64(I.w),nullptr}; }
            else S[I.dst]=norm(M.bin(eop(I.op),ex(a,I.w),ex(b,I.w)));
            pc++; break; }
          case I_UDIV: case I_UREM: case I_SDIV: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: {
            Slot a=V(I.a), b=V(I.b);
            if(!a.e&&!b.e){ if(I.op<=I_SREM&&!b.v) throw PathEnd{K_PANIC,"division by zero in "+F->name}; S[I.dst]={cbin(I.op,I.w,a.v,b.v),nullptr}; }
            else { fr->pc=pc; if(b.e&&I.op<=I_SREM){ E z=M.eq(b.e,M.cst(0,I.w)); if(boolFork(s,z)) throw PathEnd{K_PANIC,"division by zero in "+F->name}; }
              if(b.e&&I.op>=I_SHL){ u64 k=concretize(s,b.e); b={k,nullptr}; }
              S[I.dst]=norm(M.bin(eop(I.op),ex(a,I.w),ex(b,I.w))); }
            pc++; break; }
          case I_ICMP: {
            Slot a=V(I.a), b=V(I.b);
            if(!a.e&&!b.e) S[I.dst]={ccmp(I.c,I.w,a.v,b.v),nullptr}; else S[I.dst]=norm(scmp(I.c,ex(a,I.w),ex(b,I.w)));
            pc++; break; }
          case I_SELECT: {
            Slot c=V(I.a);
            if(!c.e){ S[I.dst]=c.v?V(I.b):V(I.c); }
            else { int t=s.tri(c.e); if(t!=2) S[I.dst]=t?V(I.b):V(I.c);
              else { Slot a=V(I.b), b=V(I.c);
                if(!a.e&&!b.e&&a.v==b.v) S[I.dst]=a;
                else if(I.imm){ fr->pc=pc; bool r=boolFork(s,c.e); S[I.dst]=r?a:b; }
                else S[I.dst]=norm(M.ite(c.e,ex(a,I.w),ex(b,I.w))); } }
            pc++; break; }
          case I_ZEXT: { Slot a=V(I.a); if(!a.e&&I.w<=64) S[I.dst]=a; else S[I.dst]=norm(M.zext(ex(a,I.b),I.w)); pc++; break; }
          case I_SEXT: { Slot a=V(I.a); if(!a.e&&I.w<=64) S[I.dst]={(u64)sext64(a.v,I.b)&mask64(I.w),nullptr}; else S[I.dst]=norm(M.sext(ex(a,I.b),I.w)); pc++; break; }
          case I_TRUNC: { Slot a=V(I.a); if(!a.e) S[I.dst]={a.v&mask64(I.w),nullptr}; else S[I.dst]=norm(M.trunc(a.e,I.w)); pc++; break; }
          case I_COPY: { if(I.n==1) S[I.dst]=V(I.a); else { if(I.a>=0){ if(I.dst!=I.a) memmove(S+I.dst,S+I.a,sizeof(Slot)*I.n); } else for(u32 k=0;k<I.n;k++) S[I.dst+k]=Pl[~I.a+k]; } pc++; break; }
          case I_BITCAST: { // a: source, b: source width, c: source count, n: dest count
            E e=nullptr; for(int k=0;k<I.c;k++){ Slot x=I.a>=0?S[I.a+k]:Pl[~I.a+k]; E y=ex(x,I.b); e=e?M.concat(y,e):y; }
            std::vector<Slot> r(I.n); for(u32 k=0;k<I.n;k++) r[k]=norm(M.extract(e,k*I.w,I.w)); for(u32 k=0;k<I.n;k++) S[I.dst+k]=r[k]; pc++; break; }
          case I_GEP: {
            Slot b=V(I.a); u64 r=b.v+I.imm; E e=b.e; const i64*ax=F->aux.data()+I.aux; bool sy=e!=nullptr; 
            for(u32 k=0;k<I.n;k++){ Slot x=V((i32)ax[3*k]); if(x.e) sy=true; else r+=(u64)sext64(x.v,ax[3*k+2])*(u64)ax[3*k+1]; }
            if(!sy) S[I.dst]={r,nullptr};
            else { E a=e?M.add(e,M.cst(I.imm,64)):nullptr; u64 c=e?0:r; if(e){ for(u32 k=0;k<I.n;k++){ Slot x=V((i32)ax[3*k]); if(!x.e) c+=(u64)sext64(x.v,ax[3*k+2])*(u64)ax[3*k+1]; } }
              E t=a?M.add(a,M.cst(c,64)):M.cst(c,64); for(u32 k=0;k<I.n;k++){ Slot x=V((i32)ax[3*k]); if(x.e) t=M.add(t,M.mul(M.sext(x.e,64),M.cst(ax[3*k+1],64))); } S[I.dst]=norm(t); }
            pc++; break; }
          case I_LOAD: { Slot a=V(I.a); fr->pc=pc; if(!a.e) S[I.dst]=load(s,a.v,I.w); else S[I.dst]=symLoad(s,a.e,I.w); pc++; break; }
          case I_STORE: { Slot a=V(I.a); fr->pc=pc; u64 ad=a.e?concretize(s,a.e):a.v; store(s,ad,I.w,V(I.b)); pc++; break; }
          case I_VLOAD: { Slot a=V(I.a); fr->pc=pc; u64 ad=a.e?concretize(s,a.e):a.v; auto&L=F->leaves[I.aux]; for(u32 k=0;k<I.n;k++) S[I.dst+k]=load(s,ad+L[k].off,L[k].w); pc++; break; }
          case I_VSTORE: { Slot a=V(I.a); fr->pc=pc; u64 ad=a.e?concretize(s,a.e):a.v; auto&L=F->leaves[I.aux]; for(u32 k=0;k<I.n;k++) store(s,ad+L[k].off,L[k].w,I.b>=0?S[I.b+k]:Pl[~I.b+k]); pc++; break; }
          case I_ALLOCA: { u64 n=conc(s,V(I.a))*I.imm; u64 al=I.b; s.sp=(s.sp-n)/al*al; if(s.sp<STACKLIM+4096) throw PathEnd{K_MEM,"stack overflow in "+F->name}; S[I.dst]={s.sp,nullptr}; pc++; break; }
          case I_CALL: { Func*f=P.funcs[I.a]; if(!doCall(s,*fr,f,I,pc)) goto out; refresh(); break; }
          case I_CALLI: { fr->pc=pc; u64 ad=conc(s,V(I.a)); if(ad<P.FBASE||(ad-P.FBASE)%16||(ad-P.FBASE)/16>=P.funcs.size()) throw PathEnd{K_MEM,"call through invalid pointer in "+F->name}; if(!doCall(s,*fr,P.funcs[(ad-P.FBASE)/16],I,pc)) goto out; refresh(); break; }
          case I_INTR: {
            int id=I.imm; fr->pc=pc;
            if(id==N_MEMCPY){ u64 n=conc(s,V(I.c)); if(n){ u64 d=conc(s,V(I.a)), a=conc(s,V(I.b)); copy(s,d,a,n); } }
            else if(id==N_MEMSET){ u64 n=conc(s,V(I.c)); if(n){ u64 d=conc(s,V(I.a)); Slot b=V(I.b); fill(s,d,b.e?SByte{0,b.e}:SByte{(u8)b.v,nullptr},n); } }
            else if(id==N_TRAP) throw PathEnd{K_PANIC,"trap in "+F->name};
            else if(id==N_UCMP||id==N_SCMP){ Slot a=V(I.a),b=V(I.b); unsigned ow=I.c; int p=id==N_UCMP?LLVMIntULT:LLVMIntSLT;
              if(!a.e&&!b.e) S[I.dst]={ccmp(p,ow,a.v,b.v)?mask64(I.w):a.v==b.v?0:1ull,nullptr};
              else { E x=ex(a,ow),y=ex(b,ow); S[I.dst]=norm(M.ite(scmp(p,x,y),M.cst(~(u128)0,I.w),M.ite(M.eq(x,y),M.cst(0,I.w),M.cst(1,I.w)))); } }
            else { Slot a=V(I.a), b=V(I.b), c=V(I.c); Slot r2{0,nullptr}; bool two=id==N_UADDO||id==N_USUBO||id==N_UMULO||id==N_SADDO||id==N_SSUBO||id==N_SMULO;
              bool b2=!(id==N_CTLZ||id==N_CTTZ||id==N_CTPOP||id==N_BSWAP||id==N_BITREV||id==N_ABS), c2=id==N_FSHL||id==N_FSHR;
              if(!a.e&&(!b2||!b.e)&&(!c2||!c.e)){ u64 x=0; S[I.dst]={cintr(id,I.w,a.v,b.v,c.v,x),nullptr}; r2={x,nullptr}; }
              else S[I.dst]=sintr(s,id,I.w,a,b,c,r2);
              if(two) S[I.dst+1]=r2; }
            pc++; break; }
          case I_RET: {
            Slot rv[16]; for(u32 k=0;k<I.n&&k<16;k++) rv[k]=I.a>=0?S[I.a+k]:Pl[~I.a+k]; if(I.n>16) fail("large return");
            if(s.frames.size()==1&&s.phase==0&&I.n&&rv[0].e){ fr->pc=pc; rv[0]={concretize(s,rv[0].e),nullptr}; }
            i32 rd=fr->retdst; s.sp=fr->sp; s.frames.pop_back();
            if(s.frames.empty()){ topReturn(s,I.n?rv[0]:Slot{0,nullptr}); if(s.done) goto out; refresh(); break; }
            if(s.warmDepth&&s.frames.size()==s.warmDepth){ s.done=true; goto out; }
            refresh(); if(rd>=0) for(u32 k=0;k<I.n;k++) S[rd+k]=rv[k];
            break; }
          case I_BR: { takeEdge(s,*fr,F->edges[I.a]); pc=fr->pc; break; }
          case I_CBR: { Slot c=V(I.a); bool t; if(!c.e) t=c.v; else { fr->pc=pc; t=boolFork(s,c.e); } takeEdge(s,*fr,F->edges[t?I.b:I.c]); pc=fr->pc; break; }
          case I_SWITCH: {
            Slot c=V(I.a); const Switch&w=F->sw[I.aux]; i32 e;
            auto look=[&](u64 v)->i32{ auto it=w.m.find(v); return it==w.m.end()?w.def:it->second; };
            if(!c.e) e=look(c.v);
            else { fr->pc=pc; u128 v; if(s.value(c.e,v)) e=look((u64)v);
              else { Supp f=s.eff(c.e);
                if(f.count()==1){ int sy=f.first(); std::vector<u8> a(s.dom.size()); c.e->supp.each([&](int t){ a[t]=s.dom[t].first(); }); e=(i32)partition(s,sy,[&](int b)->u64{ a[sy]=b; return (u64)(u32)look((u64)M.eval(c.e,a.data())); }); }
                else { e=w.def; std::map<i32,E> g; for(auto&cs:w.cases){ E q=M.eq(c.e,M.cst(cs.first,I.w)); auto it=g.find(cs.second); if(it==g.end()) g[cs.second]=q; else it->second=M.bor(it->second,q); }
                  for(auto&p:g) if(boolFork(s,p.second)){ e=p.first; break; } } } }
            takeEdge(s,*fr,F->edges[e]); pc=fr->pc; break; }
          case I_UNREACH: if(I.imm==7) throw Undecided{"unsupported instruction in "+F->name}; throw PathEnd{K_MEM,"unreachable code reached in "+F->name};
          case I_EXTELT: { fr->pc=pc; u64 k=conc(s,V(I.b)); if(k>=I.n) k=0; S[I.dst]=I.a>=0?S[I.a+k]:Pl[~I.a+k]; pc++; break; }
          case I_INSELT: { fr->pc=pc; u64 k=conc(s,V(I.b)); if(k<I.n) S[I.dst+k]=V(I.a); pc++; break; }
          case I_RMW: { fr->pc=pc; u64 ad=conc(s,V(I.a)); Slot o=load(s,ad,I.w), v=V(I.b), r; E x=ex(o,I.w), y=ex(v,I.w);
            switch(I.c){ case LLVMAtomicRMWBinOpXchg: r=v; break; case LLVMAtomicRMWBinOpAdd: r=norm(M.add(x,y)); break; case LLVMAtomicRMWBinOpSub: r=norm(M.sub(x,y)); break; case LLVMAtomicRMWBinOpAnd: r=norm(M.band(x,y)); break; case LLVMAtomicRMWBinOpOr: r=norm(M.bor(x,y)); break; case LLVMAtomicRMWBinOpXor: r=norm(M.bxor(x,y)); break; case LLVMAtomicRMWBinOpUMax: r=norm(M.ite(M.ult(x,y),y,x)); break; case LLVMAtomicRMWBinOpUMin: r=norm(M.ite(M.ult(x,y),x,y)); break; default: throw Undecided{"atomic op"}; }
            store(s,ad,I.w,r); S[I.dst]=o; pc++; break; }
          case I_CMPXCHG: { fr->pc=pc; u64 ad=conc(s,V(I.a)); Slot o=load(s,ad,I.w), c=V(I.b), n=V(I.c); bool eq=(!o.e&&!c.e)?o.v==c.v:boolFork(s,M.eq(ex(o,I.w),ex(c,I.w))); if(eq) store(s,ad,I.w,n); S[I.dst]=o; S[I.dst+1]={eq,nullptr}; pc++; break; }
          case I_NOP: pc++; break;
          default: fail("op "+std::to_string(I.op));
        }
      }
      out:;
    } catch(PathEnd&e){ if(s.phase!=0) throw Undecided{"oracle crashed: "+e.note}; endRun(s,e.kind,0,e.note); }
  }
}

// ---------------------------------------------------------------- phases
inline u64 putBytes(Exec&X,State&s,const SBytes&b,bool z=true){ u64 a=X.alloc(s,b.size()+(z?1:0)+8); for(size_t i=0;i<b.size();i++) X.wrb(s,a+i,b[i]); return a; }
inline SBytes segBytes(const Seg&g){ SBytes r; for(auto&x:g) r.push_back(x.sym<0?SByte{x.v,nullptr}:[&]{ E e=M.syms[x.sym].e; if(x.v) e=M.ite(M.ult(e,M.cst('a',8)),e,M.band(e,M.cst(0xdf,8))); return e->op==CONST?SByte{(u8)e->k,nullptr}:SByte{0,e}; }()); return r; }
inline void put64(Exec&X,State&s,u64 a,u64 v){ X.store(s,a,64,{v,nullptr}); }

inline void Exec::startRun(State&s){
  RunCfg&rc=job->runs[s.run]; s.phase=0;
  Snap*sn= (job->cold||!snap.valid||rc.entry!="main")?nullptr:&snap;
  s.frames.clear(); s.out.clear(); s.err.clear(); s.files.clear(); s.fds.clear(); s.nopen=0; s.nop=0; s.nclk=0; s.nfault=0; s.nread=0; s.faultmask=0; s.hashkeys.clear(); s.flushSteps(); s.steps=0;
  if(sn){ s.mem=sn->mem; s.frames=sn->frames; s.slots=sn->slots; s.sp=sn->sp; s.brk=sn->brk; s.lowbrk=sn->lowbrk; }
  else { s.mem=base; s.sp=STACKTOP-4096; s.brk=baseBrk; s.lowbrk=baseBrk; }
  s.errnoaddr=0;
  for(auto&f:rc.files){ VFile v; v.path=segBytes(f.first); v.data=segBytes(f.second); s.files.push_back(v); }
  s.prefiles=s.files;
  s.fds.resize(3); for(int i=0;i<3;i++){ s.fds[i].kind=1+i; s.fds[i].open=true; }
  std::vector<u64> av; for(auto&g:rc.argv) av.push_back(putBytes(*this,s,segBytes(g)));
  u64 argv=alloc(s,8*(av.size()+2)); for(size_t i=0;i<av.size();i++) put64(*this,s,argv+8*i,av[i]); put64(*this,s,argv+8*av.size(),0);
  u64 envp=alloc(s,16); put64(*this,s,envp,0);
  if(!sn){
    auto it=P.byname.find(rc.entry); if(it==P.byname.end()) fail("no entry "+rc.entry);
    pushFrame(s,P.funcs[it->second],{{av.size(),nullptr},{argv,nullptr}},-1);
  }
  for(u64 f:P.initfns) pushFrame(s,P.funcs[(f-P.FBASE)/16],{{av.size(),nullptr},{argv,nullptr},{envp,nullptr}},-1);
}
inline void Exec::endRun(State&s,int kind,u64 code,const std::string&note){
  Outcome o; o.kind=kind; o.code=code; o.out=s.out; o.err=s.err; o.files=s.files; o.pre=s.prefiles; o.note=note; o.nopen=s.nopen; o.faultmask=s.faultmask;
  s.outs.push_back(o); s.run++;
  if(s.warmDepth){ s.done=true; return; }
  if(s.run<(int)job->runs.size()) startRun(s); else startSpec(s);
}
inline void Exec::startSpec(State&s){
  s.phase=1; s.frames.clear(); s.mem=base; s.sp=STACKTOP-4096; s.brk=baseBrk; s.lowbrk=baseBrk; s.flushSteps(); s.steps=0;
  if(!specf){ s.done=true; onTerminal(s,M.cst(0,64),M.cst(0,64)); return; }
  size_t nr=s.outs.size();
  u64 env=alloc(s,256), runs=alloc(s,nr*160), par=alloc(s,8*job->params.size()+8);
  for(size_t i=0;i<job->params.size();i++) put64(*this,s,par+8*i,job->params[i]);
  u64 e[]={0xc85,job->propnum,nr,runs,par,job->params.size(),job->mask,0,0,0,0,0}; for(int i=0;i<12;i++) put64(*this,s,env+8*i,e[i]);
  for(size_t r=0;r<nr;r++){
    Outcome&o=s.outs[r]; RunCfg&rc=job->runs[r]; u64 R=runs+160*r;
    u64 fl=alloc(s,72*(o.files.size()+1)); 
    for(size_t k=0;k<o.files.size();k++){ VFile&f=o.files[k]; u64 A=fl+72*k; bool had=k<o.pre.size();
      u64 x[]={putBytes(*this,s,f.path),f.path.size(),had,had?putBytes(*this,s,o.pre[k].data):0,had?o.pre[k].data.size():0,f.exists,putBytes(*this,s,f.data),f.data.size(),(u64)f.touched};
      for(int j=0;j<9;j++) put64(*this,s,A+8*j,x[j]); }
    u64 av=alloc(s,16*(rc.argv.size()+1)); for(size_t k=0;k<rc.argv.size();k++){ SBytes b=segBytes(rc.argv[k]); put64(*this,s,av+16*k,putBytes(*this,s,b)); put64(*this,s,av+16*k+8,b.size()); }
    u64 x[]={(u64)o.kind,o.code,rc.argv.size(),av,putBytes(*this,s,o.out),o.out.size(),putBytes(*this,s,o.err),o.err.size(),o.files.size(),fl,o.nopen,o.faultmask,0};
    for(int j=0;j<13;j++) put64(*this,s,R+8*j,x[j]);
  }
  s.envaddr=env; pushFrame(s,specf,{{env,nullptr}},-1);
}
inline bool Exec::topReturn(State&s,Slot ret){
  if(s.phase==0){ E x=ret.e; u64 c=x?concretize(s,x):ret.v; endRun(s,K_EXIT,c&0xff,""); return true; }
  // oracle finished: env[7]=violated codes, env[8]=class
  Slot rc=load(s,s.envaddr+56,64), cls=load(s,s.envaddr+64,64);
  s.done=true; s.flushSteps(); onTerminal(s,ex(rc,64),ex(cls,64)); return false;
}
