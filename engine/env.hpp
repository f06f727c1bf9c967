// Models of the C library / kernel boundary.
#pragma once
#include "run.hpp"
#include <errno.h>

static Dom domOf(std::initializer_list<int> l){ Dom d; for(int x:l) d.add(x); return d; }
struct EnvModel {
  Exec&X;
  EnvModel(Exec&x):X(x){}
  static u64 A(Exec&X,State&s,std::vector<Slot>&a,int i){ return i<(int)a.size()?X.conc(s,a[i]):0; }
  static void setErrno(Exec&X,State&s,int e){ X.store(s,errnoAddr(X,s),32,{(u64)e,nullptr}); }
  static u64 errnoAddr(Exec&X,State&s){ (void)s; return X.errnoA; }
  // named nondeterministic choice: one symbol per name, shared between paths
  static u64 choice(Exec&X,State&s,const std::string&name,const Dom&d){
    int id; auto it=X.symByName.find(name); if(it!=X.symByName.end()) id=it->second; else { if(M.syms.size()>=(size_t)MAXSYM) throw Undecided{"too many choices"}; id=M.addSym(name,d); X.symByName[name]=id; }
    s.sync(); return X.partition(s,id,[](int b)->u64{ return b; });
  }
  static bool byteEq(Exec&X,State&s,SByte a,SByte b){ if(!a.e&&!b.e) return a.v==b.v; return X.boolFork(s,M.eq(a.e?a.e:M.cst(a.v,8),b.e?b.e:M.cst(b.v,8))); }
  static bool bytesEq(Exec&X,State&s,const SBytes&a,const SBytes&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!byteEq(X,s,a[i],b[i])) return false; return true; }
  // path equality: the working directory is /w, and a leading ./ means nothing
  static SBytes norm(const SBytes&p){ size_t i=0; auto is=[&](size_t k,char c){ return k<p.size()&&!p[k].e&&p[k].v==(u8)c; }; if(is(0,'/')&&is(1,'w')&&is(2,'/')) i=3; while(is(i,'.')&&is(i+1,'/')) i+=2; return SBytes(p.begin()+i,p.end()); }
  static bool pathEq(Exec&X,State&s,const SBytes&a,const SBytes&b){ return bytesEq(X,s,norm(a),norm(b)); }
  static SBytes cpath(Exec&X,State&s,u64 a){ SBytes r; for(;;a++){ SByte b=X.rdb(s,a); if(b.e){ if(X.boolFork(s,M.eq(b.e,M.cst(0,8)))) return r; } else if(!b.v) return r; r.push_back(b); if(r.size()>4096) throw Undecided{"path too long"}; } }
  static bool wants(Exec&X,State&s,char c){ RunCfg&rc=X.job->runs[s.run]; return s.warmDepth==0&&s.nfault<rc.faults&&rc.faultops.find(c)!=std::string::npos; }
  static std::string opname(State&s,const char*k){ return "r"+std::to_string(s.run)+"_"+k+std::to_string(s.nop); }
  // data transfer size / failure choice. kind: 0 none 1 error 2 short 3 EINTR
  // with 'e' among the fault letters, failures come with several error codes (5 and up)
  static u64 fault(Exec&X,State&s,char c,const char*nm,std::initializer_list<int> l){ if(!wants(X,s,c)) return 0; Dom d=domOf(l); if(X.job->runs[s.run].faultops.find('e')!=std::string::npos) for(int k=5;k<9;k++) if(code(c,k)) d.add(k); return choice(X,s,opname(s,nm),d); }
  static int code(char c,u64 k){ switch(c){ case 'o': return k==1?EACCES:k==5?ENOENT:k==6?EMFILE:0; case 'c': return k==1?EACCES:k==5?ENOENT:k==6?EISDIR:k==7?ENOSPC:k==8?EROFS:0; case 'r': return k==1?EIO:k==5?EISDIR:k==6?EAGAIN:0; default: return k==1?ENOSPC:k==5?EIO:k==6?EPIPE:k==7?EAGAIN:0; } }
  // modification times: one of three, per file, unless the program has written the file
  static void times(Exec&X,State&s,u64 b,size_t fi){ bool t=s.files[fi].touched; X.store(s,b+88,64,{t?1800000000ull:1600000000ull,nullptr}); if(t||s.warmDepth||M.syms.size()>=(size_t)MAXSYM-8) return;
    std::string name="r"+std::to_string(s.run)+"_mtime"+std::to_string(fi); int id; auto it=X.symByName.find(name); if(it!=X.symByName.end()) id=it->second; else { id=M.addSym(name,domOf({0x10,0x20,0x30})); X.symByName[name]=id; } s.sync(); X.wrb(s,b+88,{0,M.syms[id].e}); }

  void install(){
    auto ret=[&](const char*n,u64 v){ X.reg(n,[v](Exec&,State&,std::vector<Slot>&,Slot*r){ r[0]={v,nullptr}; return 0; }); };
    ret("pthread_self",1); ret("pthread_attr_destroy",0); ret("pthread_attr_getguardsize",0); ret("pthread_getattr_np",1); ret("sigaltstack",0); ret("mprotect",0); ret("munmap",0); ret("signal",0); ret("poll",0);
    ret("fcntl",0); ret("dl_iterate_phdr",0); ret("gettid",1); ret("getauxval",0); ret("pthread_key_delete",0); ret("sysconf",4096); ret("pause",0); ret("dup",0); ret("_Unwind_Backtrace",0); ret("__cxa_thread_atexit_impl",0);
    for(auto n:{"fchmod","chmod","fdatasync","fchown","futimens","utimensat","flock"}) ret(n,0);
    for(auto n:{"copy_file_range","sendfile64","splice"}) X.reg(n,[](Exec&X,State&s,std::vector<Slot>&,Slot*r){ setErrno(X,s,ENOSYS); r[0]={~0ull,nullptr}; return 0; });
    X.reg("pthread_attr_getstack",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ (void)X;(void)s;(void)a; r[0]={1,nullptr}; return 0; });
    X.reg("sigaction",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 o=A(X,s,a,2); if(o) X.fill(s,o,{0,nullptr},152); r[0]={0,nullptr}; return 0; });
    X.reg("__errno_location",[](Exec&X,State&s,std::vector<Slot>&,Slot*r){ r[0]={errnoAddr(X,s),nullptr}; return 0; });
    X.reg("pthread_key_create",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 k=X.alloc(s,16); X.store(s,A(X,s,a,0),32,{(k>>4)&0xffffff,nullptr}); r[0]={0,nullptr}; return 0; });
    ret("pthread_setspecific",0); ret("pthread_getspecific",0);
    auto mal=[](Exec&X,State&s,u64 n,u64 al){ u64 p=X.alloc(s,n+16+al,al); p=(p+16+al-1)/al*al; X.store(s,p-16,64,{n,nullptr}); return p; };
    X.reg("malloc",[mal](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ r[0]={mal(X,s,A(X,s,a,0),16),nullptr}; return 0; });
    X.reg("calloc",[mal](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 n=A(X,s,a,0)*A(X,s,a,1); r[0]={mal(X,s,n,16),nullptr}; return 0; });
    X.reg("realloc",[mal](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 p=A(X,s,a,0), n=A(X,s,a,1); u64 q=mal(X,s,n,16); if(p){ u64 o=X.load(s,p-16,64).v; X.copy(s,q,p,std::min(o,n)); } r[0]={q,nullptr}; return 0; });
    X.reg("posix_memalign",[mal](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 q=mal(X,s,A(X,s,a,2),std::max<u64>(16,A(X,s,a,1))); X.store(s,A(X,s,a,0),64,{q,nullptr}); r[0]={0,nullptr}; return 0; });
    ret("free",0);
    X.reg("mmap64",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ r[0]={X.alloc(s,A(X,s,a,1)+4096,4096),nullptr}; return 0; });
    X.reg("getrandom",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 n=A(X,s,a,1), p=A(X,s,a,0); for(u64 i=0;i<n;i++) X.wrb(s,p+i,{(u8)(17*i+3),nullptr}); r[0]={n,nullptr}; return 0; });
    X.reg("syscall",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 n=A(X,s,a,0); if(n==318){ u64 p=A(X,s,a,1),k=A(X,s,a,2); for(u64 i=0;i<k;i++) X.wrb(s,p+i,{(u8)(17*i+3),nullptr}); r[0]={k,nullptr}; return 0; } if(n==202){ r[0]={0,nullptr}; return 0; } setErrno(X,s,ENOSYS); r[0]={~0ull,nullptr}; return 0; });
    X.reg("abort",[](Exec&,State&,std::vector<Slot>&,Slot*)->int{ throw PathEnd{K_PANIC,"abort"}; });
    X.reg("exit",[](Exec&X,State&s,std::vector<Slot>&a,Slot*)->int{ u64 c=A(X,s,a,0); X.endRun(s,K_EXIT,c&0xff,""); return s.done?1:4; });
    X.reg("strlen",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 p=A(X,s,a,0); SBytes b=cpath(X,s,p); r[0]={b.size(),nullptr}; return 0; });
    auto cmp=[](bool eqonly){ return [eqonly](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 n=A(X,s,a,2); if(!n){ r[0]={0,nullptr}; return 0; } u64 p=A(X,s,a,0),q=A(X,s,a,1); X.chk(s,p,n); X.chk(s,q,n);
      for(u64 i=0;i<n;i++){ SByte x=X.rdb(s,p+i),y=X.rdb(s,q+i); if(byteEq(X,s,x,y)) continue; if(eqonly){ r[0]={1,nullptr}; return 0; } if(!x.e&&!y.e){ r[0]={(u64)(u32)((int)x.v-(int)y.v),nullptr}; return 0; } bool lt=X.boolFork(s,M.ult(x.e?x.e:M.cst(x.v,8),y.e?y.e:M.cst(y.v,8))); r[0]={lt?0xffffffffull:1ull,nullptr}; return 0; }
      r[0]={0,nullptr}; return 0; }; };
    X.reg("bcmp",cmp(true)); X.reg("memcmp",cmp(false));
    X.reg("memchr",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 p=A(X,s,a,0),c=A(X,s,a,1)&0xff,n=A(X,s,a,2); for(u64 i=0;i<n;i++) if(byteEq(X,s,X.rdb(s,p+i),{(u8)c,nullptr})){ r[0]={p+i,nullptr}; return 0; } r[0]={0,nullptr}; return 0; });
    X.reg("memrchr",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 p=A(X,s,a,0),c=A(X,s,a,1)&0xff,n=A(X,s,a,2); for(u64 i=n;i-->0;) if(byteEq(X,s,X.rdb(s,p+i),{(u8)c,nullptr})){ r[0]={p+i,nullptr}; return 0; } r[0]={0,nullptr}; return 0; });
    // slice searches of core (Option<usize> results), used on symbolic text only
    auto slicechr=[](bool rev){ return [rev](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{
      if(a.size()<3) return 3; u64 p=A(X,s,a,1), n=A(X,s,a,2); bool sy=a[0].e; for(u64 i=0;i<n&&!sy;i++) if(X.rdb(s,p+i).e) sy=true; if(!sy) return 3;
      SByte c=a[0].e?SByte{0,a[0].e}:SByte{(u8)a[0].v,nullptr};
      for(u64 k=0;k<n;k++){ u64 i=rev?n-1-k:k; if(byteEq(X,s,X.rdb(s,p+i),c)){ r[0]={1,nullptr}; r[1]={i,nullptr}; return 0; } } r[0]={0,nullptr}; r[1]={0,nullptr}; return 0; }; };
    X.reg("#memchr",slicechr(false)); X.reg("#memrchr",slicechr(true));
    X.hookPats.push_back({"5slice6memchr14memchr_aligned",X.extIdx["#memchr"]}); X.hookPats.push_back({"5slice6memchr15memrchr_aligned",X.extIdx["#memrchr"]});
    X.reg("#hash0",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ RunCfg&rc=X.job->runs[s.run]; if(rc.hashmode) return 3; r[0]={0,nullptr}; return 0; });
    auto hsh=[](int kind){ return [kind](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{
      RunCfg&rc=X.job->runs[s.run];
      u64 p=0,n=0; if(kind==0){ if(a.size()<3) return 3; p=A(X,s,a,1); n=A(X,s,a,2); } else { u64 q=A(X,s,a,1); if(kind==2) q+=8; p=X.conc(s,X.load(s,q,64)); n=X.conc(s,X.load(s,q+8,64)); }
      if(rc.hashmode==0){ r[0]={(n<<57)|(n*0x11),nullptr}; return 0; }   // spread by length only: lengths are concrete, so equal keys agree
      std::string key; for(u64 i=0;i<n;i++){ SByte b=X.rdb(s,p+i); u64 v=b.e?X.concretize(s,b.e):b.v; key+=(char)v; }
      if(rc.hashmode==1){ r[0]={0,nullptr}; return 0; }   // everything collides
      // hash value: symbolic control tag and bucket index, a function of the key
      std::string nm="r"+std::to_string(s.run)+"_hash_"+key; int id; auto it=X.symByName.find(nm); if(it!=X.symByName.end()) id=it->second; else { if(M.syms.size()>=(size_t)MAXSYM) throw Undecided{"too many names"}; Dom d; for(int i=0;i<rc.hashmode;i++) d.add(i); id=M.addSym(nm,d); X.symByName[nm]=id; }
      s.sync(); u64 v=X.partition(s,id,[](int b)->u64{ return b; }); r[0]={(v<<57)|(v*0x11),nullptr}; return 0; }; };
    X.reg("#hash",hsh(0)); X.reg("#hashR",hsh(1)); X.reg("#hashS",hsh(2));
    X.reg("__xpg_strerror_r",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r){ u64 p=A(X,s,a,1); const char*m="system error"; for(int i=0;i<=12;i++) X.wrb(s,p+i,{(u8)m[i],nullptr}); r[0]={0,nullptr}; return 0; });
    for(auto n:{"readlink","statx"}) X.reg(n,[n](Exec&X,State&s,std::vector<Slot>&,Slot*r){ setErrno(X,s,!strcmp(n,"statx")?ENOSYS:ENOENT); r[0]={!strcmp(n,"readlink")?~0ull:0xffffffffull,nullptr}; return 0; });
    for(auto n:{"stat64","lstat64"}) X.reg(n,[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ SBytes p=cpath(X,s,A(X,s,a,0)); u64 b=A(X,s,a,1); for(auto&f:s.files) if(f.exists&&pathEq(X,s,f.path,p)){ X.fill(s,b,{0,nullptr},144); X.store(s,b+24,32,{0100644u,nullptr}); X.store(s,b+48,64,{f.data.size(),nullptr}); times(X,s,b,&f-&s.files[0]); r[0]={0,nullptr}; return 0; } setErrno(X,s,ENOENT); r[0]={0xffffffffull,nullptr}; return 0; });
    X.reg("access",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ SBytes p=cpath(X,s,A(X,s,a,0)); for(auto&f:s.files) if(f.exists&&pathEq(X,s,f.path,p)){ r[0]={0,nullptr}; return 0; } setErrno(X,s,ENOENT); r[0]={0xffffffffull,nullptr}; return 0; });
    X.reg("getcwd",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 p=A(X,s,a,0), n=A(X,s,a,1); if(!p||n<3) throw Undecided{"getcwd without a buffer"}; const char*w="/w"; for(int i=0;i<3;i++) X.wrb(s,p+i,{(u8)w[i],nullptr}); r[0]={p,nullptr}; return 0; });
    X.reg("realpath",[mal](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ SBytes p=cpath(X,s,A(X,s,a,0)); u64 q=A(X,s,a,1); for(auto&f:s.files) if(f.exists&&pathEq(X,s,f.path,p)){ SBytes n=norm(p), o={{'/',nullptr},{'w',nullptr},{'/',nullptr}}; if(n.size()&&!n[0].e&&n[0].v=='/') o.clear(); o.insert(o.end(),n.begin(),n.end()); o.push_back({0,nullptr}); if(!q) q=mal(X,s,o.size(),1); for(size_t i=0;i<o.size();i++) X.wrb(s,q+i,o[i]); r[0]={q,nullptr}; return 0; } if(p.size()==1&&!p[0].e&&p[0].v=='.') throw Undecided{"realpath of a directory"}; setErrno(X,s,ENOENT); r[0]={0,nullptr}; return 0; });
    // the clock, the process id and the environment: arbitrary, but fixed for the run (a few representative values each)
    X.reg("clock_gettime",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 p=A(X,s,a,1); Dom d; for(int i=0;i<4;i++) d.add(i); u64 v=s.warmDepth?0:choice(X,s,"r"+std::to_string(s.run)+"_clock",d); X.store(s,p,64,{1700000000+v*86399,nullptr}); X.store(s,p+8,64,{v*123456789+s.nclk++,nullptr}); r[0]={0,nullptr}; return 0; });
    X.reg("getpid",[](Exec&X,State&s,std::vector<Slot>&,Slot*r)->int{ Dom d; for(int i=0;i<4;i++) d.add(i); u64 v=s.warmDepth?0:choice(X,s,"r"+std::to_string(s.run)+"_pid",d); r[0]={1000+v*37,nullptr}; return 0; });
    X.reg("getenv",[mal](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{
      SBytes n=cpath(X,s,A(X,s,a,0)); std::string nm; for(auto&b:n){ if(b.e) throw Undecided{"symbolic environment variable name"}; nm+=(char)b.v; }
      r[0]={0,nullptr}; if(s.warmDepth||nm.rfind("RUST",0)==0||nm=="TMPDIR"||nm=="HOME"||nm=="PATH"||nm=="C8S_PLAN"||nm=="C8S_LOG"||nm.empty()||nm.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_abcdefghijklmnopqrstuvwxyz")!=std::string::npos) return 0;
      static const char*vals[]={nullptr,"","1","0","8","x"}; Dom d; for(int i=0;i<6;i++) d.add(i); u64 v=choice(X,s,"r"+std::to_string(s.run)+"_env_"+nm,d); if(!v) return 0;
      size_t k=strlen(vals[v]); u64 p=mal(X,s,k+1,1); for(size_t i=0;i<=k;i++) X.wrb(s,p+i,{(u8)vals[v][i],nullptr}); r[0]={p,nullptr}; return 0; });
    // ---- files
    X.reg("open64",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{
      SBytes p=cpath(X,s,A(X,s,a,0)); u64 fl=A(X,s,a,1); bool w=fl&3, creat=fl&0100, trunc=fl&01000, excl=fl&0200;
      u64 k=fault(X,s,w?'c':'o',w?"create":"open",{0,1,3});
      int fi=-1; for(size_t i=0;i<s.files.size();i++) if(pathEq(X,s,s.files[i].path,p)){ fi=i; break; }
      s.nop++; s.nopen++;
      if(k==3){ s.nfault++; setErrno(X,s,EINTR); r[0]={0xffffffffull,nullptr}; return 0; }
      if(k){ s.nfault++; s.faultmask|=w||(fi>=0&&s.files[fi].touched)?4:1; setErrno(X,s,code(w?'c':'o',k)); r[0]={0xffffffffull,nullptr}; return 0; }
      if(p.empty()){ setErrno(X,s,ENOENT); r[0]={0xffffffffull,nullptr}; return 0; }
      if(fi<0||!s.files[fi].exists){ if(!creat){ setErrno(X,s,ENOENT); r[0]={0xffffffffull,nullptr}; return 0; } if(fi<0){ VFile v; v.path=p; v.created=true; s.files.push_back(v); fi=s.files.size()-1; } s.files[fi].exists=true; s.files[fi].touched=true; }
      else if(creat&&excl){ setErrno(X,s,EEXIST); r[0]={0xffffffffull,nullptr}; return 0; }
      if(w&&trunc){ s.files[fi].data.clear(); s.files[fi].touched=true; }
      FD f; f.kind=9; f.file=fi; f.open=true; f.w=w; f.app=fl&02000; s.fds.push_back(f); r[0]={s.fds.size()-1,nullptr}; return 0; });
    X.reg("close",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 fd=A(X,s,a,0); if(fd<s.fds.size()) s.fds[fd].open=false; r[0]={0,nullptr}; return 0; });
    X.reg("fstat64",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 fd=A(X,s,a,0), p=A(X,s,a,1); X.fill(s,p,{0,nullptr},144); u64 n=0; bool reg=fd<s.fds.size()&&s.fds[fd].file>=0; if(reg) n=s.files[s.fds[fd].file].data.size(); X.store(s,p+24,32,{reg?0100644u:020620u,nullptr}); X.store(s,p+48,64,{n,nullptr}); if(reg) times(X,s,p,s.fds[fd].file); r[0]={0,nullptr}; return 0; });
    X.reg("isatty",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 fd=A(X,s,a,0); u64 v=fd>2||s.warmDepth?0:choice(X,s,"r"+std::to_string(s.run)+"_tty"+std::to_string(fd),domOf({0,1})); if(!v) setErrno(X,s,ENOTTY); r[0]={v,nullptr}; return 0; });
    X.reg("lseek64",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 fd=A(X,s,a,0); i64 o=A(X,s,a,1); u64 wh=A(X,s,a,2); if(fd>=s.fds.size()||s.fds[fd].file<0){ setErrno(X,s,ESPIPE); r[0]={~0ull,nullptr}; return 0; } FD&f=s.fds[fd]; i64 n=s.files[f.file].data.size(); i64 np=wh==0?o:wh==1?(i64)f.pos+o:n+o; f.pos=np; r[0]={(u64)np,nullptr}; return 0; });
    X.reg("ftruncate64",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 fd=A(X,s,a,0), n=A(X,s,a,1); VFile&v=s.files[s.fds[fd].file]; v.data.resize(n,{0,nullptr}); v.touched=true; r[0]={0,nullptr}; return 0; });
    X.reg("fsync",[](Exec&,State&,std::vector<Slot>&,Slot*r)->int{ r[0]={0,nullptr}; return 0; }); X.reg("fdatasync",[](Exec&,State&,std::vector<Slot>&,Slot*r)->int{ r[0]={0,nullptr}; return 0; });
    X.reg("unlink",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ SBytes p=cpath(X,s,A(X,s,a,0)); for(auto&f:s.files) if(f.exists&&pathEq(X,s,f.path,p)){ f.exists=false; f.touched=true; r[0]={0,nullptr}; return 0; } setErrno(X,s,ENOENT); r[0]={0xffffffffull,nullptr}; return 0; });
    X.reg("rename",[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ SBytes p=cpath(X,s,A(X,s,a,0)), q=cpath(X,s,A(X,s,a,1)); int fi=-1,ti=-1; for(size_t i=0;i<s.files.size();i++) if(s.files[i].exists&&pathEq(X,s,s.files[i].path,p)) fi=i; for(size_t i=0;i<s.files.size();i++) if(pathEq(X,s,s.files[i].path,q)) ti=i;
      u64 k=fault(X,s,'c',"rename",{0,1}); s.nop++; if(k){ s.nfault++; s.faultmask|=4; setErrno(X,s,code('c',k)); r[0]={0xffffffffull,nullptr}; return 0; }
      if(fi<0){ setErrno(X,s,ENOENT); r[0]={0xffffffffull,nullptr}; return 0; } SBytes d=s.files[fi].data; s.files[fi].exists=false; s.files[fi].touched=true; if(ti<0){ VFile v; v.path=q; v.created=true; s.files.push_back(v); ti=s.files.size()-1; } s.files[ti].exists=true; s.files[ti].touched=true; s.files[ti].data=d; r[0]={0,nullptr}; return 0; });
    auto rd=[](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{
      u64 fd=A(X,s,a,0), p=A(X,s,a,1), n=A(X,s,a,2); if(fd>=s.fds.size()||!s.fds[fd].open||s.fds[fd].file<0){ r[0]={0,nullptr}; return 0; }
      FD*f=&s.fds[fd]; u64 rem=s.files[f->file].data.size(); rem=rem>f->pos?rem-f->pos:0; u64 k=std::min(n,rem); u64 c=0; RunCfg&rc=X.job->runs[s.run];
      if(k>1) c=fault(X,s,'r',"read",{0,1,2,3,4}); else c=fault(X,s,'r',"read1",{0,1,3});
      u64 sz=0; if(s.warmDepth==0&&s.nread<rc.chunk&&k>1) sz=choice(X,s,opname(s,"rsize"),domOf({0,1,2,3,4}));
      s.nop++; s.nread++; f=&s.fds[fd];
      if(c==1||c>4){ s.nfault++; s.faultmask|=s.files[f->file].touched?8:2; setErrno(X,s,code('r',c)); r[0]={~0ull,nullptr}; return 0; }
      if(c==3||sz==4){ if(c) s.nfault++; setErrno(X,s,EINTR); r[0]={~0ull,nullptr}; return 0; }
      if(c==2){ s.nfault++; k=(k+1)/2; } if(c==4){ s.nfault++; k=1; }
      if(sz==1) k=1; else if(sz==2) k=(k+1)/2; else if(sz==3) k=k-1;
      X.chk(s,p,k); for(u64 i=0;i<k;i++) X.wrb(s,p+i,s.files[f->file].data[f->pos+i]); f->pos+=k; r[0]={k,nullptr}; return 0; };
    X.reg("read",rd);
    auto dowr=[](Exec&X,State&s,u64 fd,const SBytes&b,Slot*r)->int{
      if(fd>=s.fds.size()||!s.fds[fd].open){ setErrno(X,s,EBADF); r[0]={~0ull,nullptr}; return 0; }
      bool file=s.fds[fd].file>=0; u64 c= fd==2?0: b.size()>1?fault(X,s,file?'w':'s',file?"write":"stdout",{0,1,2,3,4}):fault(X,s,file?'w':'s',file?"write1":"stdout1",{0,1,3}); s.nop++;
      if(c==1||c>4){ s.nfault++; s.faultmask|=file?8:16; setErrno(X,s,code('w',c)); r[0]={~0ull,nullptr}; return 0; }
      if(c==3){ s.nfault++; setErrno(X,s,EINTR); r[0]={~0ull,nullptr}; return 0; }
      u64 k=b.size(); if(c==2){ s.nfault++; k=(k+1)/2; } if(c==4){ s.nfault++; k=1; }
      if(file){ FD&f=s.fds[fd]; VFile&v=s.files[f.file]; v.touched=true; if(f.app) f.pos=v.data.size(); if(v.data.size()<f.pos+k) v.data.resize(f.pos+k,{0,nullptr}); for(u64 i=0;i<k;i++) v.data[f.pos+i]=b[i]; f.pos+=k; }
      else { auto&o=fd==1?s.out:s.err; o.insert(o.end(),b.begin(),b.begin()+k); }
      r[0]={k,nullptr}; return 0; };
    X.reg("write",[dowr](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 n=A(X,s,a,2), p=A(X,s,a,1); X.chk(s,p,n); return dowr(X,s,A(X,s,a,0),X.bytes(s,p,n),r); });
    X.reg("writev",[dowr](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 v=A(X,s,a,1), c=A(X,s,a,2); SBytes b; for(u64 i=0;i<c;i++){ u64 p=X.conc(s,X.load(s,v+16*i,64)), n=X.conc(s,X.load(s,v+16*i+8,64)); SBytes t=X.bytes(s,p,n); b.insert(b.end(),t.begin(),t.end()); } return dowr(X,s,A(X,s,a,0),b,r); });
  }
  // core::fmt hex formatting of a symbolic integer that is zero-padded to at least its maximal number of
  // digits: emit all digits at once through the real pad_integral (a leading digit 0 equals the padding).
  // digits printed from a number -> that number
  std::map<std::vector<E>,E> hexDigits;
  void specHooks(){
    for(int n=2;n<=4;n+=2){ auto it=P.byname.find(n==2?"spec_hex2":"spec_hex4"); if(it==P.byname.end()||P.funcs[it->second]->decl) continue; Func*F=P.funcs[it->second];
      std::string nm="#spechex"+std::to_string(n);
      X.reg(nm,[n,this](Exec&X,State&s,std::vector<Slot>&a,Slot*r)->int{ u64 p=A(X,s,a,0); std::vector<E> key; bool any=false; for(int i=0;i<n;i++){ Slot b=X.load(s,p+i,8); any|=b.e!=nullptr; key.push_back(X.ex(b,8)); }
        if(!any) return 3; auto it=hexDigits.find(key); if(it==hexDigits.end()) return 3; r[0]=X.norm(M.zext(it->second,32)); return 0; });
      X.fkind[F->idx]=2; X.fhook[F->idx]=X.extIdx[nm]; }
  }
  void hexHooks(){
    Func*pad=nullptr; for(auto F:P.funcs) if(!F->decl&&F->name.size()>25&&F->name.find("4core3fmtNtB5_9Formatter12pad_integral")!=std::string::npos) pad=F;
    if(!pad||pad->nargs!=6) return;
    for(auto F:P.funcs){ const std::string&n=F->name; size_t q=n.find("4core3fmt3num"); if(F->decl||q==std::string::npos||n.size()<12) continue; bool up=n.substr(n.size()-12)=="UpperHex3fmt", lo=n.substr(n.size()-12)=="LowerHex3fmt"; if(!up&&!lo) continue;
      char t=n[q+13]; unsigned w=t=='h'?8:t=='t'?16:t=='m'?32:(t=='j'||t=='y')?64:0; if(!w||F->nargs!=2) continue;
      std::string nm="#hex"+std::to_string(F->idx);
      X.reg(nm,[w,up,pad,this](Exec&X,State&s,std::vector<Slot>&a,Slot*)->int{
        u64 p=A(X,s,a,0), f=A(X,s,a,1); Slot v=X.load(s,p,w); if(!v.e) return 3; u128 k; if(s.value(v.e,k)) return 3;
        Slot fl=X.load(s,f+16,32), wd=X.load(s,f+20,16); if(fl.e||wd.e) return 3; u64 F=fl.v; if(!(F>>24&1)||!(F>>27&1)||(F>>21&7)) return 3;
        u64 mx=(u64)Mgr::umax(v.e); unsigned D=1; while(D<16&&(mx>>(4*D))) D++; if(wd.v<D) return 3;
        std::vector<E> dig; auto q0=[](int i){ return i<0; };
        u64 b=X.alloc(s,16), pre=X.alloc(s,16); X.wrb(s,pre,{'0',nullptr}); X.wrb(s,pre+1,{'x',nullptr}); std::vector<u64> tb; for(int i=0;i<16;i++) tb.push_back((up?"0123456789ABCDEF":"0123456789abcdef")[i]);
        for(unsigned i=0;i<D;i++){ E d=M.extract(v.e,4*(D-1-i),4); E c=d->op==CONST?M.cst(tb[(int)d->k],8):X.table(M.zext(d,8),tb,8); X.wrb(s,b+i,c->op==CONST?SByte{(u8)c->k,nullptr}:SByte{0,c}); dig.push_back(c); }
        for(unsigned n=2;n<=4;n+=2) for(int i=-4;i+(int)n<=(int)D;i++){ std::vector<E> key; bool any=false; for(unsigned j=0;j<n;j++){ int q=i+(int)j; E c=q<0?M.cst('0',8):dig[q]; any|=c->op!=CONST; key.push_back(c); } int lo=4*((int)D-i-(int)n); if(!any||lo<0||(q0(i)&&wd.v<(unsigned)((int)D-i))) continue; E x=v.e; if(lo>=(int)w) continue; E y=M.extract(x,lo,std::min<unsigned>(4*n,w-lo)); hexDigits[key]=M.zext(y,4*n); }
        X.pushFrame(s,pad,{{f,nullptr},{1,nullptr},{pre,nullptr},{2,nullptr},{b,nullptr},{D,nullptr}},-1); return 5; });
      X.fkind[F->idx]=2; X.fhook[F->idx]=X.extIdx[nm]; }
  }
  // Hashes of HashMap keys, by key type wherever it was instantiated (text keys of all kinds must agree with one
  // another); the regex crate's DFA state cache keeps its real hash.
  void hashHooks(){
    for(auto F:P.funcs){ const std::string&n=F->name; size_t q=n.find("BuildHasher8hash_one"); if(F->decl||q==std::string::npos||n.find("3dfa5State")!=std::string::npos) continue;
      std::string k=n.substr(q+20); const char*h="#hash0"; if(k.rfind("ReE",0)==0) h="#hash"; else if(k.rfind("RReE",0)==0) h="#hashR"; else if(k.rfind("R",0)==0&&k.find("6string6StringE")!=std::string::npos) h="#hashS";
      X.fkind[F->idx]=2; X.fhook[F->idx]=X.extIdx[h]; X.hashHooked++; }
  }
};
