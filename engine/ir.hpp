// Compact register IR translated from LLVM bitcode through the LLVM-C API.
#pragma once
#include "expr.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
typedef struct LLVMOpaqueTargetData *LLVMTargetDataRef;
extern "C" { LLVMTargetDataRef LLVMGetModuleDataLayout(LLVMModuleRef); unsigned long long LLVMABISizeOfType(LLVMTargetDataRef, LLVMTypeRef);
unsigned long long LLVMStoreSizeOfType(LLVMTargetDataRef, LLVMTypeRef); unsigned long long LLVMOffsetOfElement(LLVMTargetDataRef, LLVMTypeRef, unsigned); }
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);

struct Slot { u64 v; E e; };
enum IOp : u16 {
  I_ADD,I_SUB,I_MUL,I_UDIV,I_UREM,I_SDIV,I_SREM,I_AND,I_OR,I_XOR,I_SHL,I_LSHR,I_ASHR, I_VBIN,
  I_ICMP, I_VICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_BITCAST, I_GEP, I_LOAD, I_STORE, I_VLOAD, I_VSTORE, I_ALLOCA,
  I_CALL, I_CALLI, I_INTR, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_EXTELT, I_INSELT, I_SHUF, I_RMW, I_CMPXCHG, I_NOP, I_VCAST, I_MOVE, I_INSV };
enum Intr { N_MEMCPY,N_MEMSET,N_UADDO,N_USUBO,N_UMULO,N_SADDO,N_SSUBO,N_SMULO,N_UMIN,N_UMAX,N_SMIN,N_SMAX,N_UADDSAT,N_USUBSAT,N_CTLZ,N_CTTZ,N_CTPOP,N_BSWAP,N_BITREV,N_FSHL,N_FSHR,N_ABS,N_UCMP,N_SCMP,N_TRAP,N_SADDSAT,N_SSUBSAT };
struct Inst { u16 op; u16 w; i32 dst,a,b,c; u32 n; u64 imm; i32 aux; };
struct Edge { u32 pc; std::vector<std::pair<i32,i32>> phi; };
struct Switch { i32 w; std::vector<std::pair<u64,i32>> cases; i32 def; std::unordered_map<u64,i32> m; };
struct Leaf { u16 w; u32 off; };
struct Func {
  std::string name; int idx; bool decl=true; int ext=-1; int nslots=0, nargs=0, nret=0;
  std::vector<Inst> code; std::vector<Slot> pool; std::vector<i64> aux; std::vector<Edge> edges; std::vector<Switch> sw; std::vector<std::vector<Leaf>> leaves;
  u64 hits=0; bool noreturn=false; bool weak=false;
};
struct ImgWrite { u64 addr; std::vector<u8> bytes; };

struct Program {
  std::vector<Func*> funcs; std::unordered_map<std::string,int> byname;
  u64 gtop=0x100000; std::vector<ImgWrite> image; std::vector<u64> initfns; std::unordered_map<std::string,u64> gaddr;
  static const u64 FBASE=0x10000;
  u64 faddr(int i){ return FBASE+16*(u64)i; }
};
extern Program P;

struct Loader {
  LLVMContextRef cx; LLVMModuleRef mod; LLVMTargetDataRef td;
  std::unordered_map<LLVMTypeRef,std::vector<Leaf>> lcache;
  std::unordered_map<LLVMValueRef,u64> addr; // globals
  std::unordered_map<LLVMValueRef,int> fidx;
  std::unordered_map<std::string,int> localnames;
  void load(const char* path){
    cx=LLVMContextCreate(); LLVMMemoryBufferRef buf; char* msg=nullptr;
    if(LLVMCreateMemoryBufferWithContentsOfFile(path,&buf,&msg)) fail(std::string("read ")+path+": "+msg);
    if(LLVMParseBitcodeInContext2(cx,buf,&mod)) fail(std::string("parse bitcode ")+path);
    td=LLVMGetModuleDataLayout(mod);
    for(LLVMValueRef f=LLVMGetFirstFunction(mod);f;f=LLVMGetNextFunction(f)){
      size_t n; const char*nm=LLVMGetValueName2(f,&n); std::string name(nm,n);
      bool decl=LLVMIsDeclaration(f); bool local=LLVMGetLinkage(f)==LLVMInternalLinkage||LLVMGetLinkage(f)==LLVMPrivateLinkage;
      int idx=-1; auto it=P.byname.find(name);
      if(it!=P.byname.end()&&!local&&(decl||P.funcs[it->second]->decl)) idx=it->second;
      if(idx<0){ Func*F=new Func; F->name=name; F->idx=idx=P.funcs.size(); P.funcs.push_back(F); if(it==P.byname.end()) P.byname[name]=idx; }
      if(decl&&LLVMGetLinkage(f)==LLVMExternalWeakLinkage) P.funcs[idx]->weak=true;
      fidx[f]=idx;
    }
    for(LLVMValueRef g=LLVMGetFirstGlobal(mod);g;g=LLVMGetNextGlobal(g)){
      LLVMTypeRef t=LLVMGlobalGetValueType(g); u64 sz=LLVMABISizeOfType(td,t); u64 al=LLVMGetAlignment(g); if(al<16) al=16;
      P.gtop=(P.gtop+al-1)/al*al; addr[g]=P.gtop; size_t n; std::string nm=LLVMGetValueName2(g,&n); P.gaddr[nm]=P.gtop; P.gtop+=sz+(sz==0);
    }
    for(LLVMValueRef g=LLVMGetFirstGlobal(mod);g;g=LLVMGetNextGlobal(g)){
      LLVMValueRef init=LLVMGetInitializer(g); if(!init) continue;
      LLVMTypeRef t=LLVMGlobalGetValueType(g); ImgWrite w; w.addr=addr[g]; w.bytes.assign(LLVMABISizeOfType(td,t),0);
      cbytes(init,w.bytes.data()); 
      const char*sec=LLVMGetSection(g); if(sec&&!strncmp(sec,".init_array",11)){ u64 fa; memcpy(&fa,w.bytes.data(),8); P.initfns.push_back(fa); }
      P.image.push_back(std::move(w));
    }
    for(LLVMValueRef f=LLVMGetFirstFunction(mod);f;f=LLVMGetNextFunction(f)) if(!LLVMIsDeclaration(f)) func(f);
    LLVMDisposeModule(mod); LLVMContextDispose(cx);
  }
  const std::vector<Leaf>& leaves(LLVMTypeRef t){
    auto it=lcache.find(t); if(it!=lcache.end()) return it->second;
    std::vector<Leaf> r;
    switch(LLVMGetTypeKind(t)){
      case LLVMVoidTypeKind: case LLVMLabelTypeKind: case LLVMMetadataTypeKind: case LLVMTokenTypeKind: break;
      case LLVMIntegerTypeKind: r.push_back({(u16)LLVMGetIntTypeWidth(t),0}); break;
      case LLVMPointerTypeKind: r.push_back({64,0}); break;
      case LLVMDoubleTypeKind: r.push_back({64,0}); break;
      case LLVMFloatTypeKind: r.push_back({32,0}); break;
      case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++){ u32 o=LLVMOffsetOfElement(td,t,i); auto s=leaves(LLVMStructGetTypeAtIndex(t,i)); for(auto l:s) r.push_back({l.w,l.off+o}); } break; }
      case LLVMArrayTypeKind: { u64 n=LLVMGetArrayLength2(t); LLVMTypeRef et=LLVMGetElementType(t); u64 es=LLVMABISizeOfType(td,et); auto s=leaves(et); if(n*s.size()>4096) { fail("huge aggregate value"); } for(u64 i=0;i<n;i++) for(auto l:s) r.push_back({l.w,(u32)(l.off+i*es)}); break; }
      case LLVMVectorTypeKind: { unsigned n=LLVMGetVectorSize(t); LLVMTypeRef et=LLVMGetElementType(t); u64 es=LLVMStoreSizeOfType(td,et); auto s=leaves(et); for(unsigned i=0;i<n;i++) r.push_back({s[0].w,(u32)(i*es)}); break; }
      default: fail("type kind "+std::to_string(LLVMGetTypeKind(t)));
    }
    return lcache[t]=r;
  }
  u128 wide(LLVMValueRef c,unsigned w){
    if(w<=64) return LLVMConstIntGetZExtValue(c);
    char*s=LLVMPrintValueToString(c); char*p=strchr(s,' '); bool neg=false; p++; if(*p=='-'){neg=true;p++;} u128 v=0; while(*p>='0'&&*p<='9'){ v=v*10+(*p-'0'); p++; } LLVMDisposeMessage(s); if(neg) v=-v; return v&maskw(w);
  }
  // scalar constant -> value
  u128 cscalar(LLVMValueRef c,unsigned w){
    if(LLVMIsAConstantInt(c)) return wide(c,w);
    if(LLVMIsUndef(c)||LLVMIsPoison(c)||LLVMIsNull(c)) return 0;
    if(LLVMIsAFunction(c)){ Func*F=P.funcs[fidx.at(c)]; if(F->weak&&F->decl&&!weakok(F->name)) return 0; return P.faddr(fidx.at(c)); }
    if(LLVMIsAGlobalVariable(c)) return addr.at(c);
    if(LLVMIsAGlobalAlias(c)) return cscalar(LLVMAliasGetAliasee(c),w);
    if(LLVMIsAConstantExpr(c)){
      switch(LLVMGetConstOpcode(c)){
        case LLVMGetElementPtr: { u64 r=(u64)cscalar(LLVMGetOperand(c,0),64); LLVMTypeRef t=LLVMGetGEPSourceElementType(c); int n=LLVMGetNumOperands(c);
          for(int i=1;i<n;i++){ LLVMValueRef ix=LLVMGetOperand(c,i); unsigned iw=LLVMGetIntTypeWidth(LLVMTypeOf(ix)); i64 k=sext64((u64)cscalar(ix,iw),iw);
            if(i==1) r+=k*(i64)LLVMABISizeOfType(td,t);
            else if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ r+=LLVMOffsetOfElement(td,t,k); t=LLVMStructGetTypeAtIndex(t,k); }
            else { t=LLVMGetElementType(t); r+=k*(i64)LLVMABISizeOfType(td,t); } }
          return r; }
        case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMTrunc: return cscalar(LLVMGetOperand(c,0),64)&maskw(w);
        case LLVMAdd: return (cscalar(LLVMGetOperand(c,0),w)+cscalar(LLVMGetOperand(c,1),w))&maskw(w);
        case LLVMSub: return (cscalar(LLVMGetOperand(c,0),w)-cscalar(LLVMGetOperand(c,1),w))&maskw(w);
        case LLVMXor: return (cscalar(LLVMGetOperand(c,0),w)^cscalar(LLVMGetOperand(c,1),w))&maskw(w);
        default: break;
      }
    }
    char*s=LLVMPrintValueToString(c); std::string m=s; fail("constant "+m.substr(0,200));
  }
  static bool weakok(const std::string&n){ return n=="statx"||n=="getrandom"||n=="gettid"; }
  void cbytes(LLVMValueRef c,u8*out){
    LLVMTypeRef t=LLVMTypeOf(c);
    if(LLVMIsNull(c)||LLVMIsUndef(c)||LLVMIsPoison(c)) return;
    switch(LLVMGetTypeKind(t)){
      case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) cbytes(LLVMGetAggregateElement(c,i),out+LLVMOffsetOfElement(td,t,i)); break; }
      case LLVMArrayTypeKind: { LLVMTypeRef et=LLVMGetElementType(t); u64 n=LLVMGetArrayLength2(t), es=LLVMABISizeOfType(td,et);
        if(LLVMIsAConstantDataSequential(c)&&LLVMGetTypeKind(et)==LLVMIntegerTypeKind&&LLVMGetIntTypeWidth(et)==8){ size_t len; const char*s=LLVMGetAsString(c,&len); memcpy(out,s,len); break; }
        for(u64 i=0;i<n;i++) cbytes(LLVMGetAggregateElement(c,i),out+i*es); break; }
      case LLVMVectorTypeKind: { LLVMTypeRef et=LLVMGetElementType(t); unsigned n=LLVMGetVectorSize(t); u64 es=LLVMStoreSizeOfType(td,et); for(unsigned i=0;i<n;i++) cbytes(LLVMGetAggregateElement(c,i),out+i*es); break; }
      case LLVMDoubleTypeKind: case LLVMFloatTypeKind: break; // never used by the code under test
      default: { unsigned w=LLVMGetTypeKind(t)==LLVMPointerTypeKind?64:LLVMGetIntTypeWidth(t); u128 v=cscalar(c,w); memcpy(out,&v,(w+7)/8); }
    }
  }
  void cslots(LLVMValueRef c,std::vector<Slot>&out){
    LLVMTypeRef t=LLVMTypeOf(c); auto ls=leaves(t);
    if(LLVMIsNull(c)||LLVMIsUndef(c)||LLVMIsPoison(c)){ for(auto&l:ls) out.push_back(l.w>64?Slot{0,M.cst(0,l.w)}:Slot{0,nullptr}); return; }
    switch(LLVMGetTypeKind(t)){
      case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) cslots(LLVMGetAggregateElement(c,i),out); break; }
      case LLVMArrayTypeKind: { u64 n=LLVMGetArrayLength2(t); for(u64 i=0;i<n;i++) cslots(LLVMGetAggregateElement(c,i),out); break; }
      case LLVMVectorTypeKind: { unsigned n=LLVMGetVectorSize(t); for(unsigned i=0;i<n;i++) cslots(LLVMGetAggregateElement(c,i),out); break; }
      case LLVMDoubleTypeKind: case LLVMFloatTypeKind: out.push_back({0,nullptr}); break;
      default: { unsigned w=ls[0].w; u128 v=cscalar(c,w); if(w>64) out.push_back({0,M.cst(v,w)}); else out.push_back({(u64)v,nullptr}); }
    }
  }
  // ---- function translation
  Func*F; std::unordered_map<LLVMValueRef,i32> smap; std::unordered_map<LLVMValueRef,i32> cmap; std::unordered_map<LLVMBasicBlockRef,u32> bbpc;
  struct Fix { u32 edge; LLVMBasicBlockRef from,to; }; std::vector<Fix> fixes;
  i32 opnd(LLVMValueRef v){
    if(LLVMIsAInstruction(v)||LLVMIsAArgument(v)){ auto it=smap.find(v); if(it==smap.end()) fail("undefined operand in "+F->name); return it->second; }
    auto it=cmap.find(v); if(it!=cmap.end()) return it->second;
    i32 id=~(i32)F->pool.size(); // operand ~k refers to pool[k], consecutive slots pool[k+i]
    if(LLVMGetTypeKind(LLVMTypeOf(v))==LLVMMetadataTypeKind){ F->pool.push_back({0,nullptr}); }
    else { cslots(v,F->pool); if(leaves(LLVMTypeOf(v)).empty()) F->pool.push_back({0,nullptr}); }
    return cmap[v]=id;
  }
  static i32 off(i32 o,int k){ return o>=0?o+k:o-k; }
  unsigned width(LLVMValueRef v){ auto&l=leaves(LLVMTypeOf(v)); return l.empty()?0:l[0].w; }
  unsigned nsl(LLVMTypeRef t){ return leaves(t).size(); }
  i32 mkedge(LLVMBasicBlockRef from,LLVMBasicBlockRef to){ F->edges.push_back({}); fixes.push_back({(u32)F->edges.size()-1,from,to}); return F->edges.size()-1; }
  Inst& emit(IOp op,unsigned w,i32 dst,i32 a=0,i32 b=0,i32 c=0,u32 n=1,u64 imm=0,i32 aux=-1){ F->code.push_back({op,(u16)w,dst,a,b,c,n,imm,aux}); return F->code.back(); }
  void func(LLVMValueRef f){
    F=P.funcs[fidx[f]]; if(!F->decl) return; F->decl=false; smap.clear(); cmap.clear(); bbpc.clear(); fixes.clear();
    int slot=0; unsigned na=LLVMCountParams(f); for(unsigned i=0;i<na;i++){ LLVMValueRef p=LLVMGetParam(f,i); smap[p]=slot; slot+=nsl(LLVMTypeOf(p)); }
    F->nargs=slot; F->nret=nsl(LLVMGetReturnType(LLVMGlobalGetValueType(f)));
    for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){ int n=nsl(LLVMTypeOf(i)); smap[i]=slot; slot+=n; }
    F->nslots=slot;
    for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)){ bbpc[b]=F->code.size(); for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)) inst(b,i); }
    for(auto&x:fixes){ Edge&e=F->edges[x.edge]; e.pc=bbpc.at(x.to);
      for(LLVMValueRef i=LLVMGetFirstInstruction(x.to);i&&LLVMGetInstructionOpcode(i)==LLVMPHI;i=LLVMGetNextInstruction(i)){
        unsigned n=LLVMCountIncoming(i); for(unsigned k=0;k<n;k++) if(LLVMGetIncomingBlock(i,k)==x.from){ i32 s=opnd(LLVMGetIncomingValue(i,k)); int m=nsl(LLVMTypeOf(i)); for(int j=0;j<m;j++) e.phi.push_back({smap[i]+j,off(s,j)}); break; } } }
  }
  i32 auxstart(){ return F->aux.size(); }
  void call(LLVMBasicBlockRef bb,LLVMValueRef i,bool invoke){
    LLVMValueRef cal=LLVMGetCalledValue(i); unsigned na=LLVMGetNumArgOperands(i); i32 dst=smap[i]; unsigned nr=nsl(LLVMTypeOf(i));
    std::vector<i32> args; std::vector<LLVMValueRef> av;
    bool done=false;
    while(LLVMIsAGlobalAlias(cal)) cal=LLVMAliasGetAliasee(cal);
    if(LLVMIsAFunction(cal)){
      size_t nl; std::string nm=LLVMGetValueName2(cal,&nl);
      if(nm.rfind("llvm.",0)==0){ intrinsic(nm,i,dst,nr); done=true; }
    }
    if(!done){
      for(unsigned k=0;k<na;k++){ LLVMValueRef a=LLVMGetOperand(i,k); i32 o=opnd(a); int n=nsl(LLVMTypeOf(a)); for(int j=0;j<n;j++) args.push_back(off(o,j)); }
      i32 ax=auxstart(); F->aux.push_back(args.size()); for(i32 a:args) F->aux.push_back(a);
      if(LLVMIsAFunction(cal)) emit(I_CALL,nr?leaves(LLVMTypeOf(i))[0].w:0,dst,fidx[cal],0,0,nr,0,ax);
      else if(LLVMIsAInlineAsm(cal)) emit(I_NOP,0,dst); 
      else emit(I_CALLI,nr?leaves(LLVMTypeOf(i))[0].w:0,dst,opnd(cal),0,0,nr,0,ax);
    }
    if(invoke) emit(I_BR,0,0,mkedge(bb,LLVMGetNormalDest(i)));
  }
  void intrinsic(const std::string&nm,LLVMValueRef i,i32 dst,unsigned nr){
    auto is=[&](const char*p){ return nm.rfind(p,0)==0; };
    auto A=[&](int k){ return opnd(LLVMGetOperand(i,k)); };
    unsigned na=LLVMGetNumArgOperands(i); unsigned w=na?width(LLVMGetOperand(i,0)):0;
    unsigned n=na?nsl(LLVMTypeOf(LLVMGetOperand(i,0))):0;
    auto N=[&](Intr id){ if(n>1&&id!=N_MEMCPY&&id!=N_MEMSET) { for(unsigned l=0;l<n;l++) emit(I_INTR,w,dst+l,off(A(0),l),na>1?off(A(1),nsl(LLVMTypeOf(LLVMGetOperand(i,1)))>1?l:0):0,na>2?off(A(2),l):0,1,id); return; } emit(I_INTR,w,dst,A(0),na>1?A(1):0,na>2?A(2):0,nr,id); };
    if(is("llvm.memcpy")||is("llvm.memmove")) N(N_MEMCPY);
    else if(is("llvm.memset")) N(N_MEMSET);
    else if(is("llvm.uadd.with")) N(N_UADDO); else if(is("llvm.usub.with")) N(N_USUBO); else if(is("llvm.umul.with")) N(N_UMULO);
    else if(is("llvm.sadd.with")) N(N_SADDO); else if(is("llvm.ssub.with")) N(N_SSUBO); else if(is("llvm.smul.with")) N(N_SMULO);
    else if(is("llvm.umin")) N(N_UMIN); else if(is("llvm.umax")) N(N_UMAX); else if(is("llvm.smin")) N(N_SMIN); else if(is("llvm.smax")) N(N_SMAX);
    else if(is("llvm.uadd.sat")) N(N_UADDSAT); else if(is("llvm.usub.sat")) N(N_USUBSAT);
    else if(is("llvm.ctlz")) N(N_CTLZ); else if(is("llvm.cttz")) N(N_CTTZ); else if(is("llvm.ctpop")) N(N_CTPOP); else if(is("llvm.bswap")) N(N_BSWAP); else if(is("llvm.bitreverse")) N(N_BITREV);
    else if(is("llvm.fshl")) N(N_FSHL); else if(is("llvm.fshr")) N(N_FSHR); else if(is("llvm.abs")) N(N_ABS);
    else if(is("llvm.ucmp")||is("llvm.scmp")) { emit(I_INTR,leaves(LLVMTypeOf(i))[0].w,dst,A(0),A(1),w,nr,is("llvm.ucmp")?N_UCMP:N_SCMP); }
    else if(is("llvm.threadlocal.address")||is("llvm.expect")||is("llvm.launder")||is("llvm.strip")||is("llvm.ssa.copy")) emit(I_COPY,w,dst,A(0),0,0,n);
    else if(is("llvm.ptrmask")) emit(I_AND,64,dst,A(0),A(1));
    else if(is("llvm.assume")||is("llvm.lifetime")||is("llvm.experimental.noalias")||is("llvm.dbg")||is("llvm.sideeffect")||is("llvm.donothing")||is("llvm.x86.sse2.pause")||is("llvm.invariant")||is("llvm.prefetch")) { if(nr){ F->pool.push_back({0,nullptr}); emit(I_COPY,64,dst,~(i32)(F->pool.size()-1)); } }
    else if(is("llvm.is.constant")||is("llvm.eh.typeid")) { F->pool.push_back({0,nullptr}); emit(I_COPY,64,dst,~(i32)(F->pool.size()-1)); }
    else if(is("llvm.objectsize")) { F->pool.push_back({~0ull,nullptr}); emit(I_COPY,64,dst,~(i32)(F->pool.size()-1)); }
    else if(is("llvm.trap")||is("llvm.ubsantrap")||is("llvm.debugtrap")) emit(I_INTR,0,dst,0,0,0,0,N_TRAP);
    else if(is("llvm.vector.reduce.or")||is("llvm.vector.reduce.and")||is("llvm.vector.reduce.add")||is("llvm.vector.reduce.xor")) {
      IOp o=is("llvm.vector.reduce.or")?I_OR:is("llvm.vector.reduce.and")?I_AND:is("llvm.vector.reduce.xor")?I_XOR:I_ADD; emit(I_COPY,w,dst,A(0)); for(unsigned l=1;l<n;l++) emit(o,w,dst,dst,off(A(0),l)); }
    else { emit(I_UNREACH,0,0,0,0,0,1,7); F->aux.push_back(0); unk.insert(nm); }
  }
  std::set<std::string> unk;
  void inst(LLVMBasicBlockRef bb,LLVMValueRef i){
    LLVMOpcode oc=LLVMGetInstructionOpcode(i); i32 dst=smap[i]; LLVMTypeRef t=LLVMTypeOf(i); auto ls=leaves(t); unsigned n=ls.size(), w=n?ls[0].w:0;
    auto A=[&](int k){ return opnd(LLVMGetOperand(i,k)); };
    auto T=[&](int k){ return LLVMTypeOf(LLVMGetOperand(i,k)); };
    switch(oc){
      case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMURem: case LLVMSDiv: case LLVMSRem: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMShl: case LLVMLShr: case LLVMAShr: {
        IOp o; switch(oc){case LLVMAdd:o=I_ADD;break;case LLVMSub:o=I_SUB;break;case LLVMMul:o=I_MUL;break;case LLVMUDiv:o=I_UDIV;break;case LLVMURem:o=I_UREM;break;case LLVMSDiv:o=I_SDIV;break;case LLVMSRem:o=I_SREM;break;case LLVMAnd:o=I_AND;break;case LLVMOr:o=I_OR;break;case LLVMXor:o=I_XOR;break;case LLVMShl:o=I_SHL;break;case LLVMLShr:o=I_LSHR;break;default:o=I_ASHR;}
        i32 a=A(0),b=A(1); for(unsigned k=0;k<n;k++) emit(o,w,dst+k,off(a,k),off(b,k)); break; }
      case LLVMICmp: { i32 a=A(0),b=A(1); unsigned ow=width(LLVMGetOperand(i,0)); int pr=LLVMGetICmpPredicate(i); for(unsigned k=0;k<n;k++) emit(I_ICMP,ow,dst+k,off(a,k),off(b,k),pr); break; }
      case LLVMSelect: { i32 c=A(0),a=A(1),b=A(2); bool vc=LLVMGetTypeKind(T(0))==LLVMVectorTypeKind; bool ptr=LLVMGetTypeKind(t)==LLVMPointerTypeKind||LLVMGetTypeKind(t)==LLVMStructTypeKind; for(unsigned k=0;k<n;k++) emit(I_SELECT,ls[k].w,dst+k,vc?off(c,k):c,off(a,k),off(b,k),1,ptr); break; }
      case LLVMZExt: case LLVMSExt: case LLVMTrunc: { i32 a=A(0); unsigned sw=width(LLVMGetOperand(i,0)); for(unsigned k=0;k<n;k++) emit(oc==LLVMZExt?I_ZEXT:oc==LLVMSExt?I_SEXT:I_TRUNC,w,dst+k,off(a,k),sw); break; }
      case LLVMPtrToInt: case LLVMIntToPtr: { i32 a=A(0); unsigned sw=width(LLVMGetOperand(i,0)); emit(sw==w?I_COPY:sw<w?I_ZEXT:I_TRUNC,w,dst,a,sw); break; }
      case LLVMBitCast: { auto sl=leaves(T(0)); i32 a=A(0); if(sl.size()==1&&n==1) emit(I_COPY,w,dst,a); else { unsigned sw=sl[0].w; emit(I_BITCAST,w,dst,a,sw,sl.size(),n); } break; }
      case LLVMFreeze: emit(I_COPY,w,dst,A(0),0,0,n); break;
      case LLVMGetElementPtr: {
        LLVMTypeRef et=LLVMGetGEPSourceElementType(i); int no=LLVMGetNumOperands(i); i64 cofs=0; std::vector<i64> ix; LLVMTypeRef cur=et;
        if(n!=1) fail("vector gep");
        for(int k=1;k<no;k++){ LLVMValueRef v=LLVMGetOperand(i,k); u64 sc;
          if(k==1) sc=LLVMABISizeOfType(td,cur);
          else if(LLVMGetTypeKind(cur)==LLVMStructTypeKind){ unsigned f=LLVMConstIntGetZExtValue(v); cofs+=LLVMOffsetOfElement(td,cur,f); cur=LLVMStructGetTypeAtIndex(cur,f); continue; }
          else { cur=LLVMGetElementType(cur); sc=LLVMABISizeOfType(td,cur); }
          if(LLVMIsAConstantInt(v)) cofs+=LLVMConstIntGetSExtValue(v)*(i64)sc;
          else { ix.push_back(opnd(v)); ix.push_back(sc); ix.push_back(width(v)); } }
        i32 base=A(0);
        i32 ax=auxstart(); for(i64 x:ix) F->aux.push_back(x); emit(I_GEP,64,dst,base,0,0,ix.size()/3,(u64)cofs,ax); break; }
      case LLVMLoad: { if(n==1) emit(I_LOAD,w,dst,A(0)); else { F->leaves.push_back(ls); emit(I_VLOAD,0,dst,A(0),0,0,n,0,F->leaves.size()-1); } break; }
      case LLVMStore: { auto sl=leaves(T(0)); if(sl.size()==1) emit(I_STORE,sl[0].w,0,A(1),A(0)); else { F->leaves.push_back(sl); emit(I_VSTORE,0,0,A(1),A(0),0,sl.size(),0,F->leaves.size()-1); } break; }
      case LLVMAlloca: { u64 es=LLVMABISizeOfType(td,LLVMGetAllocatedType(i)); u64 al=LLVMGetAlignment(i); if(al<16) al=16; emit(I_ALLOCA,64,dst,A(0),(i32)al,0,1,es); break; }
      case LLVMCall: call(bb,i,false); break;
      case LLVMInvoke: call(bb,i,true); break;
      case LLVMRet: { int no=LLVMGetNumOperands(i); if(no) emit(I_RET,0,0,A(0),0,0,nsl(T(0))); else emit(I_RET,0,0,0,0,0,0); break; }
      case LLVMSwitch: { Switch s; s.w=width(LLVMGetOperand(i,0)); unsigned ns=LLVMGetNumSuccessors(i); i32 c=A(0); s.def=mkedge(bb,LLVMGetSuccessor(i,0));
        std::map<LLVMBasicBlockRef,i32> em; for(unsigned k=1;k<ns;k++){ LLVMBasicBlockRef to=LLVMGetSuccessor(i,k); auto it=em.find(to); i32 e; if(it==em.end()) e=em[to]=mkedge(bb,to); else e=it->second; u64 cv=LLVMConstIntGetZExtValue(LLVMGetSwitchCaseValue(i,k)); s.cases.push_back({cv,e}); s.m[cv]=e; }
        F->sw.push_back(s); emit(I_SWITCH,s.w,0,c,0,0,1,0,F->sw.size()-1); break; }
      case LLVMUnreachable: emit(I_UNREACH,0,0); break;
      case LLVMPHI: break;
      case LLVMExtractValue: { LLVMTypeRef cur=T(0); unsigned k=0; idx(i,cur,k); emit(I_COPY,w,dst,off(A(0),k),0,0,n); break; }
      case LLVMInsertValue: { LLVMTypeRef cur=t; unsigned k=0; idx(i,cur,k); unsigned m=nsl(cur); emit(I_COPY,w,dst,A(0),0,0,n); if(m) emit(I_COPY,w,dst+k,A(1),0,0,m); break; }
      case LLVMExtractElement: { emit(I_EXTELT,w,dst,A(0),A(1),0,nsl(T(0))); break; }
      case LLVMInsertElement: { emit(I_COPY,w,dst,A(0),0,0,n); emit(I_INSELT,w,dst,A(1),A(2),0,n); break; }
      case LLVMShuffleVector: { unsigned m=LLVMGetNumMaskElements(i), sn=nsl(T(0)); i32 a=A(0),b=A(1); for(unsigned k=0;k<m;k++){ int mv=LLVMGetMaskValue(i,k); if(mv<0){ F->pool.push_back({0,nullptr}); emit(I_COPY,w,dst+k,~(i32)(F->pool.size()-1)); } else emit(I_COPY,w,dst+k,mv<(int)sn?off(a,mv):off(b,mv-sn)); } break; }
      case LLVMAtomicRMW: emit(I_RMW,w,dst,A(0),A(1),LLVMGetAtomicRMWBinOp(i)); break;
      case LLVMAtomicCmpXchg: emit(I_CMPXCHG,w,dst,A(0),A(1),A(2)); break;
      case LLVMFence: break;
      case LLVMLandingPad: case LLVMResume: emit(I_UNREACH,0,0,0,0,0,1,1); break;
      default: {
        unsigned ns=LLVMGetNumSuccessors(i);
        if(LLVMIsATerminatorInst(i)&&ns==1){ emit(I_BR,0,0,mkedge(bb,LLVMGetSuccessor(i,0))); break; }
        if(LLVMIsATerminatorInst(i)&&ns==2){ LLVMValueRef c=LLVMGetCondition(i); emit(I_CBR,1,0,opnd(c),mkedge(bb,LLVMGetSuccessor(i,0)),mkedge(bb,LLVMGetSuccessor(i,1))); break; }
        char*s=LLVMPrintValueToString(i); std::string m=s; unk.insert("inst "+m.substr(0,120)); emit(I_UNREACH,0,0,0,0,0,1,7); }
    }
  }
  void idx(LLVMValueRef i,LLVMTypeRef&cur,unsigned&k){
    unsigned n=LLVMGetNumIndices(i); const unsigned*ix=LLVMGetIndices(i);
    for(unsigned j=0;j<n;j++){ if(LLVMGetTypeKind(cur)==LLVMStructTypeKind){ for(unsigned m=0;m<ix[j];m++) k+=nsl(LLVMStructGetTypeAtIndex(cur,m)); cur=LLVMStructGetTypeAtIndex(cur,ix[j]); } else { cur=LLVMGetElementType(cur); k+=ix[j]*nsl(cur); } }
  }
};
