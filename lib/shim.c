// LD_PRELOAD shim for replaying I/O schedules found by the solver against the real binary.
// C8S_PLAN: "index:op:value,..." with the operation index counted as in the engine's environment model.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
static int nop=0;
static void rep(const char*s){ const char*p=getenv("C8S_LOG"); if(!p) return; int fd=syscall(SYS_openat,AT_FDCWD,p,O_WRONLY|O_CREAT|O_APPEND,0644); if(fd>=0){ syscall(SYS_write,fd,s,strlen(s)); syscall(SYS_close,fd); } }
static int plan(const char*op){ const char*p=getenv("C8S_PLAN"); int best=0; while(p&&*p){ int i,v; char o[32]; if(sscanf(p,"%d:%31[a-z0-9]:%d",&i,o,&v)==3&&i==nop&&!strcmp(o,op)) best=v; p=strchr(p,','); if(p) p++; } return best; }
// "-1:clock:v" and "-1:pid:v" fix the clock and the process id for the run
static int fixed(const char*op){ const char*p=getenv("C8S_PLAN"); while(p&&*p){ int i,v; char o[32]; if(sscanf(p,"%d:%31[a-z0-9]:%d",&i,o,&v)==3&&i==-1&&!strcmp(o,op)) return v; p=strchr(p,','); if(p) p++; } return -1; }
static long nclk=0;
int clock_gettime(clockid_t c,struct timespec*t){ int v=fixed("clock"); if(v<0) return syscall(SYS_clock_gettime,c,t); t->tv_sec=1700000000L+v*86399L; t->tv_nsec=v*123456789L+nclk++; return 0; }
pid_t getpid(void){ int v=fixed("pid"); return v<0?(pid_t)syscall(SYS_getpid):1000+v*37; }
int isatty(int fd){ char n[8]; snprintf(n,sizeof n,"tty%d",fd); int v=fd>=0&&fd<3?fixed(n):-1; if(v<0) v=0; if(!v) errno=ENOTTY; return v; }
static int code(char c,int k){ switch(c){ case 'o': return k==5?ENOENT:k==6?EMFILE:EACCES; case 'c': return k==5?ENOENT:k==6?EISDIR:k==7?ENOSPC:k==8?EROFS:EACCES; case 'r': return k==5?EISDIR:k==6?EAGAIN:EIO; default: return k==5?EIO:k==6?EPIPE:k==7?EAGAIN:ENOSPC; } }
static int isfile(int fd){ return fd>2; }
// files this process has created or opened for writing: trouble with them is output trouble
static char*mine[64]; static int nmine; static char ownfd[1024];
static int own(const char*p){ while(p[0]=='.'&&p[1]=='/') p+=2; for(int i=0;i<nmine;i++) if(!strcmp(mine[i],p)) return 1; return 0; }
static void take(const char*p){ while(p[0]=='.'&&p[1]=='/') p+=2; if(!own(p)&&nmine<64) mine[nmine++]=strdup(p); }
int open64(const char*path,int fl,...){
  va_list a; va_start(a,fl); int mode=va_arg(a,int); va_end(a); int w=fl&3; int k=plan(w?"create":"open"); nop++; rep("open\n");
  if(k==3){ errno=EINTR; return -1; } if(k){ rep(w||own(path)?"fault 4\n":"fault 1\n"); errno=code(w?'c':'o',k); return -1; }
  int ow=own(path); int fd=syscall(SYS_openat,AT_FDCWD,path,fl,mode); if(fd>=0){ if(w&&fl&(O_TRUNC|O_CREAT)) take(path); if(fd<1024) ownfd[fd]=ow||w; } return fd; }
ssize_t copy_file_range(int a,off64_t*b,int c,off64_t*d,size_t e,unsigned f){ errno=ENOSYS; return -1; }
ssize_t sendfile64(int a,int b,off64_t*c,size_t d){ errno=ENOSYS; return -1; }
ssize_t splice(int a,off64_t*b,int c,off64_t*d,size_t e,unsigned f){ errno=ENOSYS; return -1; }
int rename(const char*a,const char*b){ int k=plan("rename"); nop++; if(k){ rep("fault 4\n"); errno=code('c',k); return -1; } take(b); return syscall(SYS_rename,a,b); }
ssize_t read(int fd,void*b,size_t n){
  if(!isfile(fd)) return syscall(SYS_read,fd,b,n);
  off_t pos=lseek(fd,0,SEEK_CUR), end=lseek(fd,0,SEEK_END); lseek(fd,pos,SEEK_SET); size_t rem=end>pos?end-pos:0; size_t k=n<rem?n:rem;
  int c=plan(k>1?"read":"read1"), z=plan("rsize"); nop++;
  if(c==1||c>4){ rep(fd<1024&&ownfd[fd]?"fault 8\n":"fault 2\n"); errno=code('r',c); return -1; } if(c==3||z==4){ errno=EINTR; return -1; }
  if(c==2) k=(k+1)/2;
  if(c==4) k=1;
  if(z==1) k=1; else if(z==2) k=(k+1)/2; else if(z==3) k=k-1;
  return syscall(SYS_read,fd,b,k); }
static ssize_t wr(int fd,const char*b,size_t n){
  int f=isfile(fd); int c=fd==2?0:plan(f?(n>1?"write":"write1"):(n>1?"stdout":"stdout1")); nop++;
  if(c==1||c>4){ rep(f?"fault 8\n":"fault 16\n"); errno=code('w',c); return -1; } if(c==3){ errno=EINTR; return -1; }
  size_t k=n; if(c==2) k=(k+1)/2; if(c==4) k=1; return syscall(SYS_write,fd,b,k); }
ssize_t write(int fd,const void*b,size_t n){ return wr(fd,b,n); }
ssize_t writev(int fd,const struct iovec*v,int c){ size_t n=0; for(int i=0;i<c;i++) n+=v[i].iov_len; char*b=malloc(n+1); size_t o=0; for(int i=0;i<c;i++){ memcpy(b+o,v[i].iov_base,v[i].iov_len); o+=v[i].iov_len; } ssize_t r=wr(fd,b,n); int e=errno; free(b); errno=e; return r; }
