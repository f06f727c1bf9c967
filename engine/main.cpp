#include "env.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <atomic>
#include <sstream>
#include <iostream>
Mgr M; Program P; Stats ST; Z3 Z;

static std::string jstr(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static std::string hex(const std::vector<u8>&v){ std::string r; char b[3]; for(u8 x:v){ snprintf(b,3,"%02x",x); r+=b; } return r; }
static Dom parseDom(const std::string&h){ if(h.size()!=64) fail("bad set "+h); Dom d; for(int i=0;i<32;i++){ int b=std::stoi(h.substr(2*i,2),nullptr,16); for(int k=0;k<8;k++) if(b>>k&1) d.add(8*i+k); } return d; }
static Seg parseSeg(const std::string&h){ Seg r; if(h=="-") return r; size_t i=0; while(i<h.size()){ if(h[i]=='{'){ size_t j=h.find('}',i); r.push_back({std::stoi(h.substr(i+1,j-i-1)),(u8)(h[j-1]=='^')}); i=j+1; } else { r.push_back({-1,(u8)std::stoi(h.substr(i,2),nullptr,16)}); i+=2; } } return r; }
static std::vector<Job> parseJobs(const char*path){
  std::vector<Job> v; std::ifstream f(path); if(!f) fail(std::string("cannot read ")+path); std::string ln;
  while(std::getline(f,ln)){ std::istringstream is(ln); std::string k; if(!(is>>k)) continue;
    if(k=="job"){ v.push_back({}); is>>v.back().name>>v.back().propnum>>std::hex>>v.back().mask>>std::dec; }
    else if(k=="opt"){ std::string o; u64 x; is>>o>>x; if(o=="steps") v.back().steplimit=x; else if(o=="paths") v.back().maxpaths=x; else if(o=="cold") v.back().cold=x; }
    else if(k=="sym"){ std::string n,h; is>>n>>h; v.back().syms.push_back({n,parseDom(h)}); }
    else if(k=="param"){ u64 x; while(is>>x) v.back().params.push_back(x); }
    else if(k=="run"){ v.back().runs.push_back({}); }
    else if(k=="arg"){ std::string h; is>>h; v.back().runs.back().argv.push_back(parseSeg(h)); }
    else if(k=="file"){ std::string a,b; is>>a>>b; v.back().runs.back().files.push_back({parseSeg(a),parseSeg(b)}); }
    else if(k=="faults"){ is>>v.back().runs.back().faults>>v.back().runs.back().faultops; }
    else if(k=="chunk") is>>v.back().runs.back().chunk;
    else if(k=="hash") is>>v.back().runs.back().hashmode;
    else fail("job file: "+ln); }
  return v;
}
struct Shared { std::atomic<int> active; std::atomic<int> failures; std::atomic<long> viol; std::atomic<int> stop; };
static const char* fk(Exec&X,Func*F){ return X.fkind[F->idx]==1?"panic":X.fkind[F->idx]==2?"model":"code"; }
static Shared* SH; static int maxProcs=8; static int outfd=-1; static bool verbose=false;

struct Driver {
  double jobLimit=0; Exec X; EnvModel env{X}; std::vector<Job> jobs; double t0;
  // per-process results
  u64 cls[8]={0}; std::vector<std::string> viol,samples; std::map<std::string,u64> undec; u64 pathsDone=0; std::vector<u64> hitbase; u64 nsplit=0; u64 maxsym=0; std::map<std::string,u64> kinds;
  void imageBase(){
    P.gtop=(P.gtop+63)/64*64; X.errnoA=P.gtop; P.gtop+=64;
    for(auto&w:P.image) for(size_t i=0;i<w.bytes.size();){ u64 a=w.addr+i; Page*p=X.base.wr(a); size_t n=std::min<size_t>(w.bytes.size()-i,PG-(a&(PG-1))); memcpy(p->d+(a&(PG-1)),w.bytes.data()+i,n); i+=n; }
    X.baseBrk=(P.gtop+0x10000)/0x10000*0x10000;
  }
  void warm(const std::string&path){
    auto wj=parseJobs(path.c_str()); if(wj.empty()) return; Job j=wj[0]; j.cold=true; X.job=&j; State s; Exec::Snap sn; X.warmRec=&sn;
    bool ok=false; try { X.startRun(s); X.run(s); ok=s.warmDepth&&s.outs.empty()&&X.work.empty(); } catch(Undecided&u){ if(verbose) fprintf(stderr,"warm: %s\n",u.note.c_str()); }
    X.warmRec=nullptr; for(auto w:X.work) delete w; X.work.clear();
    if(verbose) fprintf(stderr,"warm-up %s: %lu steps\n",ok?"ok":"failed",s.steps);
    if(!ok&&verbose&&!s.outs.empty()){ fprintf(stderr,"  outcome kind %d code %lu %s out=",s.outs[0].kind,s.outs[0].code,s.outs[0].note.c_str()); for(auto b:s.outs[0].out) fputc(b.v,stderr); }
    if(ok){ sn.mem=s.mem; sn.brk=s.brk; sn.lowbrk=s.lowbrk; sn.valid=true; X.snap=sn; }
  }
  std::string outcomeJson(State&s,const std::vector<u8>&m){
    std::string r="["; for(size_t i=0;i<s.outs.size();i++){ auto&o=s.outs[i]; auto con=[&](const SBytes&b){ std::vector<u8> v; for(auto x:b) v.push_back(x.e?(u8)M.eval(x.e,m.data()):x.v); return hex(v); };
      if(i) r+=","; r+="{\"kind\":"+std::to_string(o.kind)+",\"code\":"+std::to_string(o.code)+",\"note\":"+jstr(o.note)+",\"out\":\""+con(o.out)+"\",\"err\":\""+con(o.err)+"\",\"files\":[";
      for(size_t k=0;k<o.files.size();k++){ if(k) r+=","; auto&f=o.files[k]; r+="{\"path\":\""+con(f.path)+"\",\"exists\":"+std::to_string(f.exists)+",\"data\":\""+con(f.data)+"\"}"; } r+="]}"; }
    return r+"]";
  }
  void terminal(State&s,E rc,E cls_){
    ST.paths++; pathsDone++; ST.oblig++;
    for(auto&o:s.outs) kinds[o.kind==0?(o.code?"exit-fail":"exit-ok"):o.kind==1?"panic":o.kind==3?"hang":"mem"]++;
    E bad=M.band(rc,M.cst(X.job->mask,64)); E cond=M.not1(M.eq(bad,M.cst(0,64)));
    if(cls_->op==CONST) cls[(u64)cls_->k&7]++; else { u128 v; if(s.value(cls_,v)) cls[(u64)v&7]++; else cls[7]++; }
    std::vector<u8> mt=s.model; bool v=false;
    if(cond->op==CONST){ v=cond->k; ST.obligTriv++; }
    else { ST.obligZ3++; std::vector<u8> o; int r=s.sat(cond,o); if(r==1){ v=true; mt=o; } }
    if(v||samples.size()<2){
      std::string r="{\"job\":"+jstr(X.job->name)+",\"rc\":"+std::to_string((u64)M.eval(rc,mt.data()))+",\"cls\":"+std::to_string((u64)M.eval(cls_,mt.data()))+",\"syms\":{";
      bool f=true; for(size_t i=0;i<mt.size();i++){ if(!f) r+=","; f=false; r+=jstr(M.syms[i].name)+":"+std::to_string(mt[i]); }
      r+="},\"outs\":"+outcomeJson(s,mt)+"}"; if(v){ viol.push_back(r); SH->viol++; } else samples.push_back(r);
    } if(!v&&dumpAll) { fprintf(stderr,"path ok job=%s cls=%lu %s\n",X.job->name.c_str(),(u64)M.eval(cls_,s.model.data()),outcomeJson(s,s.model).c_str()); }
  }
  bool dumpAll=false;
  void emit(){
    std::string r="{\"job\":"+jstr(X.job->name)+",\"paths\":"+std::to_string(pathsDone)+",\"cls\":["; for(int i=0;i<8;i++) r+=(i?",":"")+std::to_string(cls[i]);
    r+="],\"viol\":["; for(size_t i=0;i<viol.size();i++) r+=(i?",":"")+viol[i];
    r+="],\"samples\":["; for(size_t i=0;i<samples.size();i++) r+=(i?",":"")+samples[i];
    r+="],\"undecided\":{"; bool f=true; for(auto&p:undec){ if(!f) r+=","; f=false; r+=jstr(p.first)+":"+std::to_string(p.second); }
    r+="},\"kinds\":{"; f=true; for(auto&p:kinds){ if(!f) r+=","; f=false; r+=jstr(p.first)+":"+std::to_string(p.second); }
    char b[512]; snprintf(b,512,"},\"stats\":{\"insts\":%lu,\"forks\":%lu,\"z3q\":%lu,\"z3sat\":%lu,\"z3unsat\":%lu,\"z3t\":%.3f,\"domq\":%lu,\"cacheq\":%lu,\"oblig\":%lu,\"obligZ3\":%lu,\"nsym\":%zu,\"wall\":%.3f},\"funcs\":[",ST.insts,ST.forks,ST.z3q,ST.z3sat,ST.z3unsat,ST.z3t,ST.domq,ST.cacheq,ST.oblig,ST.obligZ3,M.syms.size(),now()-t0); r+=b;
    f=true; for(auto F:P.funcs) if(F->hits>hitbase[F->idx]){ if(!f) r+=","; f=false; r+=std::to_string(F->idx); }
    r+="]}\n"; if(write(outfd,r.data(),r.size())!=(ssize_t)r.size()) _exit(91);
  }
  void explore(Job&j){
    t0=now(); ST=Stats(); double lastSplit=now();
    while(!X.work.empty()){
      if(SH->stop||(X.deadline&&now()>X.deadline)){ undec["deadline"]+=X.work.size(); break; }
      if(j.maxpaths&&pathsDone>=j.maxpaths){ undec["path budget"]+=X.work.size(); break; }
      if(viol.size()>=3) break;
      if(X.work.size()>=2&&now()-lastSplit>0.2){ lastSplit=now();
        int a=SH->active.load();
        if(a<maxProcs&&SH->active.compare_exchange_strong(a,a+1)){
          // split: the sibling takes every second pending state
          pid_t p=fork();
          if(p==0){ std::vector<State*> k; for(size_t i=0;i<X.work.size();i++) if(i&1) k.push_back(X.work[i]); X.work=k; viol.clear(); samples.clear(); undec.clear(); kinds.clear(); memset(cls,0,sizeof cls); pathsDone=0; ST=Stats(); t0=now(); for(auto F:P.funcs) hitbase[F->idx]=F->hits; lastSplit=now(); }
          else if(p>0){ std::vector<State*> k; for(size_t i=0;i<X.work.size();i++) if(!(i&1)) k.push_back(X.work[i]); else delete X.work[i]; X.work=k; nsplit++; }
          else SH->active--;
        } }
      State*s=X.work.back(); X.work.pop_back();
      try { X.run(*s); }
      catch(Undecided&u){ undec[u.note]++; }
      delete s;
    }
    if(verbose) for(auto&p:X.forkAt) fprintf(stderr,"fork %lu %s\n",p.second,p.first.c_str());
    if(verbose) for(auto&p:X.concAt) fprintf(stderr,"concretised %lu times in %s\n",p.second,p.first.c_str());
    emit();
  }
  void child(Job&j){
    if(jobLimit>0){ double d=now()+jobLimit; if(!X.deadline||d<X.deadline) X.deadline=d; } Z.deadline=X.deadline;
    X.trackForks=verbose; X.job=&j; hitbase.resize(P.funcs.size()); for(auto F:P.funcs) hitbase[F->idx]=F->hits;
    try {
      X.symByName.clear(); for(auto&p:j.syms){ int id=M.addSym(p.first,p.second); X.symByName[p.first]=id; }
      State*s=new State; s->sync(); X.startRun(*s); X.work.push_back(s);
      explore(j);
    } catch(EngineError&e){ fprintf(stderr,"engine error in job %s: %s\n",j.name.c_str(),e.what()); _exit(92); }
    _exit(0);
  }
};
int main(int argc,char**argv){
  std::vector<std::string> bcs; std::string jobsf,outf="/dev/stdout",warmf,funcsf; double budget=0; Driver D; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--bc") bcs.push_back(nx()); else if(a=="--jobs") jobsf=nx(); else if(a=="--out") outf=nx(); else if(a=="--warm") warmf=nx(); else if(a=="--procs") maxProcs=std::stoi(nx()); else if(a=="--budget") budget=std::stod(nx()); else if(a=="--joblimit") D.jobLimit=std::stod(nx()); else if(a=="-v") verbose=true; else if(a=="--dump") D.dumpAll=true; else if(a=="--funcs") funcsf=nx(); else { fprintf(stderr,"unknown arg %s\n",a.c_str()); return 2; } }
  try {
    double a=now(); Loader L; for(auto&b:bcs) L.load(b.c_str()); if(verbose) fprintf(stderr,"loaded %zu functions in %.2fs\n",P.funcs.size(),now()-a);
    D.env.install(); D.X.prepare(); D.env.hashHooks(); D.env.hexHooks(); D.env.specHooks(); D.imageBase();
    auto it=P.byname.find("spec_check"); if(it!=P.byname.end()&&!P.funcs[it->second]->decl) D.X.specf=P.funcs[it->second];
    for(auto F:P.funcs){ auto&n=F->name; if(!F->decl&&n.rfind("_RNvCs",0)==0&&n.size()>10&&n.substr(n.size()-10)=="_3c8s4main") D.X.usermain=F; }
    D.X.onTerminal=[&](State&s,E rc,E c){ D.terminal(s,rc,c); };
    if(!funcsf.empty()){ std::ofstream o(funcsf); for(auto F:P.funcs) o<<F->idx<<" "<<(F->decl?"ext":fk(D.X,F))<<" "<<F->code.size()<<" "<<F->name<<"\n"; }
    a=now(); if(!warmf.empty()) D.warm(warmf); if(verbose) fprintf(stderr,"warm %.2fs\n",now()-a);
    if(jobsf.empty()) return 0;
    D.jobs=parseJobs(jobsf.c_str());
  } catch(EngineError&e){ fprintf(stderr,"engine error: %s\n",e.what()); return 2; }
  SH=(Shared*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)SH,0,sizeof *SH);
  outfd=open(outf.c_str(),O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0644); if(outfd<0){ perror("out"); return 2; }
  prctl(PR_SET_CHILD_SUBREAPER,1);
  if(budget>0) D.X.deadline=now()+budget;
  size_t nj=0; int bad=0; 
  for(;;){
    while(nj<D.jobs.size()&&SH->active.load()<maxProcs&&!SH->stop){ SH->active++; pid_t p=fork(); if(p==0){ D.child(D.jobs[nj]); } if(p<0){ perror("fork"); return 2; } nj++; }
    int st; pid_t p=waitpid(-1,&st,0); if(p<0){ if(nj>=D.jobs.size()||SH->stop) break; continue; }
    SH->active--; if(!WIFEXITED(st)||WEXITSTATUS(st)){ bad++; fprintf(stderr,"worker failed: status %x\n",st); }
    if(SH->viol.load()>=12) SH->stop=1;
  }
  return bad?2:0;
}
