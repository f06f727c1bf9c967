/*
 * Reference semantics of the c8s command and the assertion checked at the end of every explored path.
 *
 * Written from the README and the property statements, not from the implementation.  Compiled twice from
 * this one file: to LLVM bitcode, executed symbolically by the engine right after the implementation (so its
 * verdict is a formula over the same input symbols), and natively, to judge the real binary when a
 * counterexample is replayed.  Comparisons that involve symbolic data are written without branches where
 * a branch would only multiply paths.
 */
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long u64;

typedef struct { const u8*p; u64 n; } Str;
typedef struct { const u8*path; u64 pathn, pre_exists; const u8*pre; u64 pre_n, post_exists; const u8*post; u64 post_n, touched; } FileRec;
typedef struct { u64 kind, code, argc; const Str*argv; const u8*out; u64 outn; const u8*err; u64 errn, nfiles; const FileRec*files; u64 nopen, faultmask, pad0; u64 spare[7]; } RunRec;
typedef struct { u64 magic, prop, nruns; const RunRec*runs; const u64*params; u64 nparams, mask; u64 rc, cls, r0, r1, r2; } Env;

/* violation bits */
enum { V_CRASH=0, V_REJECT_GOOD, V_BYTES, V_FORMAT, V_FAILTOUCH, V_NODIAG, V_OTHERFILE, V_NOISE, V_LOC, V_REL, V_CLI, V_IO, V_ROUND, V_NAME,
       V_ACC=16 };
/* reasons for rejecting a source: bit V_ACC+reason is set when such a source is accepted */
enum { R_FORM=0, R_FIELD, R_LIT, R_LABEL, R_EQU, R_DB, R_MEM, R_OVERLAP, R_LEX, R_SYNTAX, R_DIR, R_INPUT };
enum { C_ACCEPT=0, C_REJECT, C_UNSPEC, C_INFO, C_FAULT, C_CLIERR, C_REL, C_SPECERR };

#define MAXSRC 400000
#define MAXTOK 160000
#define MAXST  8192
#define MAXARG 70000
#define MAXEXP 8192
#define MAXSEG 4200
#define MAXLOC 8192

enum { T_EOF=0, T_NL, T_COMMENT, T_DOT, T_COLON, T_COMMA, T_STR, T_NUM, T_ID, T_IND, T_ERR };
typedef struct { u32 kind, s, e, line, col, val; } Tok;
static Tok tk[MAXTOK]; static u32 ntk;
enum { S_DIR=0, S_LABEL, S_INS };
typedef struct { u32 kind, name, a0, na, eq; } Stmt;
static Stmt st[MAXST]; static u32 nst;
static u32 args[MAXARG]; static u32 narg;
/* expected image as (address, byte) in emission order; addresses may be symbolic */
typedef struct { u32 n; u32 a[MAXEXP]; u8 b[MAXEXP]; } Img;
static Img want, got0, got1;
static u32 segS[MAXSEG], segN[MAXSEG], nseg;
static u32 locL[MAXLOC], locC[MAXLOC], locT[MAXLOC], nloc, noloc;
/* what the diagnostic for the error at a location has to name: nothing, a token as written, a token in either case, a value */
enum { N_NONE=0, N_EXACT, N_WORD, N_VALUE };
static u32 locK[MAXLOC], locV[MAXLOC], nameK, nameV;
static u32 labS[MAXST], labE[MAXST], labV[MAXST], nlab;
static const u8*src; static u32 slen;
static u32 reasons, qa, qr, over;

static void reason(u32 r){ reasons|=1u<<r; }
static void names(u32 k,u32 v){ nameK=k; nameV=v; }
static void at(u32 t){ if(nloc<MAXLOC){ locL[nloc]=tk[t].line; locC[nloc]=tk[t].col; locT[nloc]=t; locK[nloc]=nameK; locV[nloc]=nameV; nloc++; } else over=1; }

/* ---------------------------------------------------------------- text */
static u32 u8len(u32 p){ u8 c=src[p]; return c<0x80?1:c<0xe0?2:c<0xf0?3:4; }
static u32 cp(u32 p){ u8 c=src[p]; if(c<0x80) return c; if(c<0xe0) return (c&0x1fu)<<6|(src[p+1]&0x3fu); if(c<0xf0) return (c&0xfu)<<12|(src[p+1]&0x3fu)<<6|(src[p+2]&0x3fu); return 0x10000; }
static int cont(u32 p){ return p<slen && (src[p]&0xc0)==0x80; }
static int utf8ok(void){
  u32 i=0; while(i<slen){ u8 c=src[i];
    if(c<0x80){ i++; continue; }
    if(c<0xc2) return 0;
    if(c<0xe0){ if(!cont(i+1)) return 0; i+=2; continue; }
    if(c<0xf0){ if(!cont(i+1)||!cont(i+2)) return 0; u8 d=src[i+1]; if(c==0xe0&&d<0xa0) return 0; if(c==0xed&&d>=0xa0) return 0; i+=3; continue; }
    if(c<0xf5){ if(!cont(i+1)||!cont(i+2)||!cont(i+3)) return 0; u8 d=src[i+1]; if(c==0xf0&&d<0x90) return 0; if(c==0xf4&&d>=0x90) return 0; i+=4; continue; }
    return 0; }
  return 1;
}
static int isspace_(u32 c){ /* Unicode White_Space without line feed */
  if(c<0x80) return c==' '||c=='\t'||c=='\r'||c==0x0b||c==0x0c;
  if(c==0x180e){ qa=qr=noloc=1; return 1; }
  return c==0x85||c==0xa0||c==0x1680||(c>=0x2000&&c<=0x200a)||c==0x2028||c==0x2029||c==0x202f||c==0x205f||c==0x3000;
}
static int alpha(u8 c){ u8 l=c|0x20; return (u8)(l-'a')<26 || c=='_'; }
static int digit(u8 c){ return (u8)(c-'0')<10; }
static int hexd(u8 c){ return digit(c) || (u8)((c|0x20)-'a')<6; }
static u32 hexv(u8 c){ return ((c&15u)+9u*((c>>6)&1u))&15u; }

static u32 P,LN,CL,stray;   /* stray: the text ends in a character that begins no token */
static void adv(u32 e){ while(P<e){ if(src[P]=='\n'){ LN++; CL=1; } else CL++; P+=u8len(P); } }
static Tok*tok(u32 kind,u32 e){ if(ntk>=MAXTOK-2){ over=1; ntk=MAXTOK-3; } Tok*t=&tk[ntk++]; t->kind=kind; t->s=P; t->e=e; t->line=LN; t->col=CL; t->val=0; return t; }
static void scan(void){
  ntk=0; P=0; LN=1; CL=1; stray=0;
  for(;;){
    while(P<slen && src[P]!='\n' && isspace_(cp(P))) adv(P+u8len(P));
    if(P>=slen) break;
    u8 c=src[P]; u32 e=P+1;
    if(c=='\n'){ tok(T_NL,e); adv(e); }
    else if(c==';'){ while(e<slen&&src[e]!='\n') e++; tok(T_COMMENT,e); adv(e); }
    else if(c=='.'){ tok(T_DOT,e); adv(e); }
    else if(c==':'){ tok(T_COLON,e); adv(e); }
    else if(c==','){ tok(T_COMMA,e); adv(e); }
    else if(c=='"'){ int ok=0;
      while(e<slen){ u8 d=src[e]; if(d=='"'){ ok=1; e++; break; } if(d=='\\'){ e++; if(e>=slen||src[e]=='\n') break; e+=u8len(e); } else e++; }
      if(!ok){ tok(T_ERR,e)->val=R_LEX; break; }
      Tok*t=tok(T_STR,e); t->s++; t->e--; adv(e); }
    else if(c=='$'||c=='#'){ u32 v=0; while(e<slen&&e<P+4&&hexd(src[e])){ v=v<<4|hexv(src[e]); e++; }
      if(e==P+1){ tok(T_ERR,e)->val=R_LEX; break; } tok(T_NUM,e)->val=v; adv(e); }
    else if(c=='%'){ u32 v=0; while(e<slen&&(src[e]=='0'||src[e]=='1'||src[e]=='.')){ u32 w=v*2+(src[e]=='1'); v=w>0xffff?0xffff:w; e++; }
      if(e==P+1){ tok(T_ERR,e)->val=R_LEX; break; } if(v>4095){ tok(T_ERR,e)->val=R_LIT; break; } tok(T_NUM,e)->val=v; adv(e); }
    else if(digit(c)){ u32 v=c-'0'; while(e<slen&&digit(src[e])){ u32 w=v*10+(src[e]&15u); v=w>99999?99999:w; e++; }
      if(v>4095){ tok(T_ERR,e)->val=R_LIT; break; } tok(T_NUM,e)->val=v; adv(e); }
    else if(alpha(c)){ while(e<slen&&(alpha(src[e])||digit(src[e]))) e++; tok(T_ID,e); adv(e); }
    else if(c=='['){ if(P+3<=slen&&(src[P+1]|0x20)=='i'&&src[P+2]==']'){ tok(T_IND,P+3); adv(P+3); } else { tok(T_ERR,e)->val=R_LEX; break; } }
    else { tok(T_ERR,P+u8len(P))->val=R_LEX; stray=1; break; }
  }
  tok(T_EOF,P);
}

/* ---------------------------------------------------------------- syntax */
static int synerr(u32 t){ u32 k=tk[t].kind; if(k==T_ERR&&(stray||digit(src[tk[t].s]))) names(N_EXACT,t); if(k==T_EOF) noloc=1; else at(t); names(N_NONE,0); reason(k==T_ERR?tk[t].val:R_SYNTAX); return 0; }
static int ident(u32 t){ return tk[t].kind==T_ID||tk[t].kind==T_IND; }
static u32 mkst(u32 k,u32 name){ if(nst>=MAXST){ over=1; nst=MAXST-1; } st[nst].kind=k; st[nst].name=name; st[nst].a0=narg; st[nst].na=0; st[nst].eq=0; return nst++; }
static void arg(u32 s,u32 t){ if(narg>=MAXARG){ over=1; return; } args[narg++]=t; st[s].na++; }
static int parse(void){
  u32 i=0; int open=0; /* open: an instruction or directive precedes on this line */
  for(;;){
    u32 k=tk[i].kind;
    if(k==T_EOF) return 1;
    if(k==T_NL){ i++; open=0; continue; }
    if(k==T_COMMENT){ i++; continue; }
    if(open) qa=1;
    if(k==T_DOT){
      i++; if(!ident(i)) return synerr(i);
      if(tk[i].kind==T_IND) qa=1;
      u32 s=mkst(S_DIR,i); i++;
      for(;;){ k=tk[i].kind;
        if(k==T_NL) break;
        if(k!=T_STR&&k!=T_NUM){ if(st[s].na&&k==T_COMMENT) qr=1; if(st[s].na&&k==T_EOF) qr=1; return synerr(i); }
        arg(s,i); i++; if(tk[i].kind!=T_COMMA) break; i++; if(tk[i].kind==T_NL) qa=1; }
      open=1;
    } else if(ident(i)&&tk[i+1].kind==T_COLON){ if(k==T_IND) qa=1; mkst(S_LABEL,i); i+=2; }
    else if(ident(i)){
      u32 s=mkst(S_INS,i); i++;
      for(;;){ k=tk[i].kind;
        if(k==T_NL||k==T_COMMENT) break;
        if(k!=T_NUM&&!ident(i)){ if(k==T_EOF) qr=1; return synerr(i); }
        arg(s,i); i++; if(tk[i].kind!=T_COMMA) break; i++; if(tk[i].kind==T_NL||tk[i].kind==T_COMMENT) qa=1; }
      open=1;
    } else return synerr(i);
  }
}

/* ---------------------------------------------------------------- semantics */
static int is(u32 t,const char*lower){ /* identifier equals name, ignoring letter case */
  u32 n=0; while(lower[n]) n++; if(tk[t].e-tk[t].s!=n) return 0;
  u32 d=0; for(u32 i=0;i<n;i++){ u8 c=src[tk[t].s+i]; u8 up=(u8)(c-'A')<26?0x20:0; d|=(u8)(c+up)^(u8)lower[i]; } return d==0; }
enum { D_BAD=0, D_ORG, D_DB, D_EQU };
typedef struct { u32 k, v, n; } Dir;
static Dir directive(u32 s,int report){
  Dir d={D_BAD,0,0}; Stmt*S=&st[s]; int org=is(S->name,"org"), equ=!org&&is(S->name,"equ"), db=!org&&!equ&&is(S->name,"db");
  if(org||equ){
    if(S->na==1&&tk[args[S->a0]].kind==T_NUM){ d.k=org?D_ORG:D_EQU; d.v=tk[args[S->a0]].val; return d; }
    if(report){ reason(org?R_MEM:R_EQU); names(N_WORD,S->name); at(S->name); for(u32 i=0;i<S->na;i++) at(args[S->a0+i]); names(N_NONE,0); }
  } else if(db){
    u32 bad=S->na==0, n=0;
    for(u32 i=0;i<S->na;i++){ Tok*t=&tk[args[S->a0+i]]; if(t->kind==T_NUM){ if(t->val>0xff) bad=1; n++; } else n+=t->e-t->s; }
    if(!bad){ d.k=D_DB; d.n=n; return d; }
    if(report){ reason(R_DB); if(!S->na){ names(N_WORD,S->name); at(S->name); }
      else for(u32 i=0;i<S->na;i++){ Tok*t=&tk[args[S->a0+i]]; if(t->kind==T_NUM&&t->val>0xff){ names(N_VALUE,t->val); at(S->name); for(u32 j=0;j<S->na;j++) at(args[S->a0+j]); } } names(N_NONE,0); }
  } else if(report){ reason(R_DIR); names(N_WORD,S->name); at(S->name); names(N_NONE,0); }
  return d;
}
static void emit(u32 a,u8 b){ if(want.n>=MAXEXP){ over=1; return; } want.a[want.n]=a; want.b[want.n]=b; want.n++; }
static int findlab(u32 t){
  u32 n=tk[t].e-tk[t].s;
  for(u32 i=0;i<nlab;i++){ if(labE[i]-labS[i]!=n) continue; u32 d=0; for(u32 j=0;j<n;j++) d|=src[labS[i]+j]^src[tk[t].s+j]; if(!d) return (int)i; }
  return -1; }

enum { F_NUM=0, F_REG, F_DT, F_ST, F_K, F_I, F_II, F_B, F_F, F_ID };
typedef struct { u32 k, v; } Fld;
static Fld field(u32 t){
  Fld f={F_ID,0}; if(tk[t].kind==T_NUM){ f.k=F_NUM; f.v=tk[t].val; return f; }
  if(tk[t].kind==T_IND){ f.k=F_II; return f; }
  u32 n=tk[t].e-tk[t].s; u8 a=src[tk[t].s];
  if(n==1){ u8 l=a|0x20; if(l=='i') f.k=F_I; else if(l=='k') f.k=F_K; else if(l=='b') f.k=F_B; else if(l=='f') f.k=F_F; return f; }
  if(n==2){ u8 b=src[tk[t].s+1]; u8 l=a|0x20; 
    if(l=='v'){ if(hexd(b)){ f.k=F_REG; f.v=hexv(b); } return f; }
    if(l=='d'||l=='s'){ if((b|0x20)=='t') f.k=l=='d'?F_DT:F_ST; } }
  return f;
}
static void opcode(u32 a,u32 w){ emit(a,(u8)(w>>8)); emit(a+1,(u8)w); }
/* operand value: literal or label */
static int value(Fld f,u32 t,u32*v){ if(f.k==F_NUM){ *v=f.v; return 1; } if(f.k!=F_ID) return 0; int l=findlab(t); if(l<0) return -1; *v=labV[l]; return 1; }
/* 1 emitted, otherwise the rejection has been recorded */
static void instruction(u32 s,u32 cur){
  Stmt*S=&st[s]; u32 m=S->name, n=S->na; Fld f[3]; u32 t[3]={0,0,0}; f[0]=f[1]=f[2]=(Fld){99,0};
  if(n<=3) for(u32 i=0;i<n;i++){ t[i]=args[S->a0+i]; f[i]=field(t[i]); }
  u32 ln=tk[m].e-tk[m].s; int fail=R_FORM, badop=-1; u32 v=0; int r;
  if(n<=3&&tk[m].kind==T_ID&&ln>=2&&ln<=7){
    u32 x=f[0].v, y=f[1].v; int R0=f[0].k==F_REG, R1=f[1].k==F_REG;
    #define EMIT(w) do{ opcode(cur,(w)); return; }while(0)
    #define VAL(i,max,base) do{ r=value(f[i],t[i],&v); if(r<0){ fail=R_LABEL; badop=i; goto no; } if(r>0){ if(v>(max)){ fail=R_FIELD; badop=i; goto no; } EMIT((base)|v); } }while(0)
    if(n==0){
      if(is(m,"nop")) EMIT(0x0000); if(is(m,"cls")) EMIT(0x00e0); if(is(m,"ret")) EMIT(0x00ee); if(is(m,"trapret")) EMIT(0x00f9); if(is(m,"trap")) EMIT(0x00fa);
    } else if(n==1){
      if(R0){ if(is(m,"shr")) EMIT(0x8006|x<<8); if(is(m,"shl")) EMIT(0x800e|x<<8); if(is(m,"skp")) EMIT(0xe09e|x<<8); if(is(m,"sknp")) EMIT(0xe0a1|x<<8); }
      else { if(is(m,"jp")) VAL(0,0xfff,0x1000); else if(is(m,"call")) VAL(0,0xfff,0x2000); }
    } else if(n==2){
      if(is(m,"ld")){
        if(R0){
          if(R1) EMIT(0x8000|x<<8|y<<4); if(f[1].k==F_DT) EMIT(0xf007|x<<8); if(f[1].k==F_K) EMIT(0xf00a|x<<8); if(f[1].k==F_II) EMIT(0xf065|x<<8);
          VAL(1,0xff,0x6000|x<<8);
        } else if(f[0].k==F_I){ if(f[1].k==F_II) EMIT(0x00f8); VAL(1,0xfff,0xa000); }
        else if(R1){ if(f[0].k==F_DT) EMIT(0xf015|y<<8); if(f[0].k==F_ST) EMIT(0xf018|y<<8); if(f[0].k==F_F) EMIT(0xf029|y<<8); if(f[0].k==F_B) EMIT(0xf033|y<<8); if(f[0].k==F_II) EMIT(0xf055|y<<8); }
      } else if(is(m,"add")){ if(R0&&R1) EMIT(0x8004|x<<8|y<<4); if(f[0].k==F_I&&R1) EMIT(0xf01e|y<<8); if(R0) VAL(1,0xff,0x7000|x<<8); }
      else if(is(m,"se")){ if(R0&&R1) EMIT(0x5000|x<<8|y<<4); if(R0) VAL(1,0xff,0x3000|x<<8); }
      else if(is(m,"sne")){ if(R0&&R1) EMIT(0x9000|x<<8|y<<4); if(R0) VAL(1,0xff,0x4000|x<<8); }
      else if(is(m,"jp")){ if(R0){ if(x==0) VAL(1,0xfff,0xb000); } }
      else if(is(m,"rnd")){ if(R0) VAL(1,0xff,0xc000|x<<8); }
      else if(R0&&R1){
        u32 w=0x8000|x<<8|y<<4;
        if(is(m,"or")) EMIT(w|1); if(is(m,"and")) EMIT(w|2); if(is(m,"xor")) EMIT(w|3); if(is(m,"sub")) EMIT(w|5); if(is(m,"subn")) EMIT(w|7);
      }
    } else { if(is(m,"drw")&&R0&&R1) VAL(2,0xf,0xd000|x<<8|y<<4); }
  }
no:
  reason(fail); if(fail==R_FORM) names(N_WORD,m); else if(fail==R_LABEL) names(N_EXACT,t[badop]); else names(N_VALUE,v);
  at(m); if(badop>=0) at(t[badop]); else if(n) for(u32 i=0;i<n;i++) at(args[S->a0+i]);
  names(N_NONE,0);
}
static void newseg(u32 a){ if(nseg>=MAXSEG){ over=1; return; } segS[nseg]=a; segN[nseg]=0; nseg++; }
static void assemble(void){
  /* pass 1: labels and the location counter */
  u32 cur=0; nlab=0;
  for(u32 i=0;i<nst;i++){ Stmt*S=&st[i];
    if(S->kind==S_LABEL){ u32 v=cur;
      if(i+1<nst&&st[i+1].kind==S_DIR){ Dir d=directive(i+1,0); if(d.k==D_EQU){ v=d.v; st[i+1].eq=1; } }
      if(findlab(S->name)>=0){ reason(R_LABEL); names(N_EXACT,S->name); at(S->name); names(N_NONE,0); }
      else { labS[nlab]=tk[S->name].s; labE[nlab]=tk[S->name].e; labV[nlab]=v; nlab++; } }
    else if(S->kind==S_INS){ if(cur+2>0xfff){ reason(R_MEM); at(S->name); return; } cur+=2; }
    else { Dir d=directive(i,1);
      if(d.k==D_ORG) cur=d.v;
      else if(d.k==D_DB){ if(cur+d.n>0xfff){ reason(R_MEM); at(S->name); return; } cur+=d.n; }
      else if(d.k==D_EQU&&!S->eq){ reason(R_EQU); at(S->name); } }
  }
  /* pass 2: bytes */
  cur=0; nseg=0; newseg(0);
  for(u32 i=0;i<nst;i++){ Stmt*S=&st[i];
    if(S->kind==S_INS){ u32 b=want.n; instruction(i,cur); cur+=2; segN[nseg-1]+=2; (void)b; }
    else if(S->kind==S_DIR){ Dir d=directive(i,0);
      if(d.k==D_ORG){ cur=d.v; newseg(cur); }
      else if(d.k==D_DB){ for(u32 j=0;j<S->na;j++){ Tok*t=&tk[args[S->a0+j]]; if(t->kind==T_NUM) emit(cur++,(u8)t->val); else for(u32 q=t->s;q<t->e;q++) emit(cur++,src[q]); } segN[nseg-1]+=d.n; } }
  }
  if(reasons) return;
  u32 ov=0;
  for(u32 i=0;i<nseg;i++) if(segN[i]) for(u32 j=i+1;j<nseg;j++) if(segN[j]){ u32 s1=segS[i],e1=s1+segN[i],s2=segS[j],e2=s2+segN[j]; ov|=(u32)(s1<e2)&(u32)(s2<e1); }
  if(ov){ reason(R_OVERLAP); noloc=1; }
}
/* reference result for a source text: reasons==0 means accepted with image `want` */
static void reference(const u8*p,u64 n){
  reasons=qa=qr=over=0; nst=narg=nloc=noloc=0; names(N_NONE,0); want.n=0; src=p; slen=(u32)n;
  if(n>MAXSRC){ over=1; return; }
  if(!utf8ok()){ reason(R_INPUT); noloc=1; return; }
  scan(); if(over) return;
  if(!parse()) return;
  assemble();
}

/* ---------------------------------------------------------------- Intel HEX */
/* value of n hexadecimal digits, bit 31 set if one of them is not a digit. The engine recognises digits the program printed from a
   number and answers with that number; otherwise this code runs. */
static u32 nib(u8 c){ u32 d=(u32)(u8)(c-'0')<10, u=(u32)(u8)(c-'A')<6, l=(u32)(u8)(c-'a')<6; return ((((c&15u)+9u*((c>>6)&1u))&15u))|(((d|u|l)^1u)<<31); }
__attribute__((noinline)) u32 spec_hex2(const u8*p){ u32 h=nib(p[0]), l=nib(p[1]); return (h&15)<<4|(l&15)|((h|l)&0x80000000u); }
__attribute__((noinline)) u32 spec_hex4(const u8*p){ u32 h=spec_hex2(p), l=spec_hex2(p+2); return (h&255)<<8|(l&255)|((h|l)&0x80000000u); }
static u32 hexbyte(const u8*p,u32*bad){ u32 v=spec_hex2(p); *bad|=v>>31; return v&255; }
static u32 hexword(const u8*p,u32*bad){ u32 v=spec_hex4(p); *bad|=v>>31; return v&0xffff; }
/* decode; returns nonzero when the text is not a well-formed file */
static u32 ihex(const u8*p,u64 n,Img*g){
  u32 bad=0; u64 i=0; int eof=0; g->n=0;
  if(n==0) return 1;
  while(i<n){
    u64 e=i; while(e<n&&p[e]!='\n') e++;
    u64 L=e-i; if(L&&p[e-1]=='\r') L--;
    if(eof) return 1;                            /* nothing may follow the end-of-file record */
    if(L<11||!(L&1)) return 1;
    if(p[i]!=':') return 1;
    u32 nb=(u32)(L-1)/2, sum=0; u32 ll=hexbyte(p+i+1,&bad), a=hexword(p+i+3,&bad), ty=hexbyte(p+i+7,&bad); sum=ll+(a>>8)+(a&255)+ty;
    u32 dn=nb-5; bad|=ll!=dn; bad|=dn>16;
    for(u32 k=0;k<dn;k++){ u32 b=hexbyte(p+i+9+2*k,&bad); sum+=b; if(g->n<MAXEXP){ g->a[g->n]=a+k; g->b[g->n]=(u8)b; g->n++; } else bad=1; }
    sum+=hexbyte(p+i+9+2*dn,&bad); bad|=(sum&0xff)!=0;
    if(dn==0){ eof=1; bad|=ty!=1; } else { bad|=ty!=0; bad|=a+dn>0x1000; }
    if(bad==1) { /* keep decoding: the flag may be symbolic */ }
    i=e+1;
  }
  return bad|(u32)!eof;
}
static u8 mapn[4096], mapb[4096];
static u32 differ(const Img*x,const Img*y){
  if(x->n!=y->n) return 1;
  u32 d=0; for(u32 i=0;i<x->n;i++){ d|=x->a[i]^y->a[i]; d|=(u32)(x->b[i]^y->b[i]); }
  if(!d) return 0;
  if(x->n<=192){ u32 bad=0; for(u32 i=0;i<x->n;i++){ u32 c=0; for(u32 j=0;j<y->n;j++) c+=(u32)(x->a[i]==y->a[j])&(u32)(x->b[i]==y->b[j]); bad|=c!=1; } return bad; }
  for(u32 i=0;i<4096;i++) mapn[i]=0;
  for(u32 i=0;i<x->n;i++){ u32 a=x->a[i]; if(a>4095) return 1; mapn[a]=1; mapb[a]=x->b[i]; }
  d=0; for(u32 i=0;i<y->n;i++){ u32 a=y->a[i]; if(a>4095||mapn[a]!=1) return 1; mapn[a]=2; d|=(u32)(mapb[a]^y->b[i]); }
  return d!=0;
}

/* ---------------------------------------------------------------- command line */
static u32 eqs(const u8*a,u64 n,const u8*b,u64 m){ if(n!=m) return 0; u32 d=0; for(u64 i=0;i<n;i++) d|=a[i]^b[i]; return d==0; }
static u64 cl(const char*s){ u64 n=0; while(s[n]) n++; return n; }
static u32 eqc(const u8*a,u64 n,const char*b){ return eqs(a,n,(const u8*)b,cl(b)); }
enum { M_ERR=0, M_HELP, M_VERSION, M_BOTH, M_RUN, M_UNSPEC };
static Str inp, outp;
static int cmdline(const RunRec*r){
  u32 no=0,nh=0,nv=0,nfree=0; int rest=0; outp.p=(const u8*)"a.hex"; outp.n=5; inp.n=0;
  for(u64 i=1;i<r->argc;i++){ Str a=r->argv[i];
    if(rest||a.n<2||a.p[0]!='-'){ nfree++; inp=a; continue; }
    if(a.p[1]=='-'){
      if(a.n==2){ rest=1; continue; }
      u64 q=2; while(q<a.n&&a.p[q]!='=') q++;
      const u8*nm=a.p+2; u64 nn=q-2; int has=q<a.n;
      if(eqc(nm,nn,"output")||eqc(nm,nn,"o")){ if(nn==1) return M_UNSPEC; if(has){ outp.p=a.p+q+1; outp.n=a.n-q-1; } else { if(++i>=r->argc) return M_ERR; outp=r->argv[i]; } no++; }
      else if(eqc(nm,nn,"help")){ if(has) return M_ERR; nh++; }
      else if(eqc(nm,nn,"version")){ if(has) return M_ERR; nv++; }
      else if(nn==1&&(nm[0]=='h'||nm[0]=='v')) return M_UNSPEC;
      else return M_ERR;
    } else for(u64 q=1;q<a.n;q++){
      u8 c=a.p[q];
      if(c=='h') nh++; else if(c=='v') nv++;
      else if(c=='o'){ no++; if(q+1<a.n){ outp.p=a.p+q+1; outp.n=a.n-q-1; } else { if(++i>=r->argc) return M_ERR; outp=r->argv[i]; } break; }
      else return M_ERR;
    }
  }
  if(nh>1||nv>1) return M_UNSPEC;
  if(no>1) return M_ERR;
  if(nh&&nv) return M_BOTH; if(nh) return M_HELP; if(nv) return M_VERSION;
  return nfree==1?M_RUN:M_ERR;
}
static int contains(const u8*p,u64 n,const char*s){ u64 m=cl(s); for(u64 i=0;i+m<=n;i++) if(eqs(p+i,m,(const u8*)s,m)) return 1; return 0; }
static u32 changed(const FileRec*f){ if(f->pre_exists!=f->post_exists) return 1; if(!f->pre_exists) return 0; if(f->pre_n!=f->post_n) return 1; u32 d=0; for(u64 i=0;i<f->pre_n;i++) d|=f->pre[i]^f->post[i]; return d!=0; }
static u64 num(const u8*p,u64 n,u64*i){ u64 v=0; while(*i<n&&digit(p[*i])){ v=v*10+(p[*i]-'0'); (*i)++; if(v>1000000) break; } return v; }
/* characters of a token on the line where it begins, the line's end included */
static u32 span(u32 t){ u32 q=tk[t].s, e=tk[t].e, m=0; if(tk[t].kind==T_STR){ q--; e++; } while(q<e&&q<slen){ m++; if(src[q]=='\n') break; q+=u8len(q); } return m; }
static u32 locbad(const u8*p,u64 n){
  if(n<inp.n+1||!eqs(p,inp.n,inp.p,inp.n)||p[inp.n]!=':') return 1;
  u64 i=inp.n+1, j=i; u64 l=num(p,n,&i); if(i==j||i>=n||p[i]!=':') return 1; i++; j=i; u64 c=num(p,n,&i); if(i==j||i>=n||(p[i]!=':'&&p[i]!='-')) return 1;
  u64 e=0; if(p[i]=='-'){ i++; j=i; e=num(p,n,&i); if(i==j||i>=n||p[i]!=':') return 1; }
  for(u32 k=0;k<nloc;k++) if(locL[k]==l&&locC[k]==c&&(!e||e==c+span(locT[k])-1)) return 0;
  return 1;
}
/* the diagnostic after its position names what the error at that position is about */
static u32 idc(u8 c){ u8 l=c|0x20; return (u32)((u8)(l-'a')<26)|(u32)((u8)(c-'0')<10)|(u32)(c=='_'); }
static u32 named(const u8*p,u64 n,u32 k,u32 v){
  u32 found=0;
  if(k==N_NONE) return 1;
  if(k==N_VALUE){   /* a run of hexadecimal digits with that value */
    for(u64 i=0;i<n;i++) if(i==0||!idc(p[i-1])){ u64 j=i; u32 x=0; while(j<n&&hexd(p[j])&&j<i+8){ x=x<<4|hexv(p[j]); j++; } if(j>i&&(j==n||!idc(p[j]))) found|=x==v; }
    return found; }
  u32 m=tk[v].e-tk[v].s; const u8*w=src+tk[v].s;
  for(u64 i=0;i+m<=n;i++){ u32 d=0; if(i) d|=idc(p[i-1]); if(i+m<n) d|=idc(p[i+m]);
    if(k==N_EXACT) for(u32 j=0;j<m;j++) d|=p[i+j]^w[j];
    else for(u32 j=0;j<m;j++){ u8 a=p[i+j], b=w[j]; u8 la=(u8)(a-'A')<26?0x20:0, lb=(u8)(b-'A')<26?0x20:0; d|=(u8)(a+la)^(u8)(b+lb); }
    found|=d==0; }
  return found;
}
static u32 namebad(const u8*p,u64 n){
  u64 i=0, l=0, c=0; int pos=0;
  if(n>inp.n&&eqs(p,inp.n,inp.p,inp.n)&&p[inp.n]==':'){ i=inp.n+1; l=num(p,n,&i); if(i<n&&p[i]==':'){ i++; c=num(p,n,&i); pos=1; } while(i<n&&p[i]!=' ') i++; }
  int hit=0; u32 good=0; for(u32 k=0;k<nloc;k++) if(pos&&locL[k]==l&&locC[k]==c){ hit=1; good|=named(p+i,n-i,locK[k],locV[k]); }
  if(!hit) for(u32 k=0;k<nloc;k++) good|=named(p+i,n-i,locK[k],locV[k]);
  return !good;
}
/* the overlap report lists the overlapping pairs of sections, each once, as first and last address */
#define MAXREP 2048
static u32 repA[MAXREP], repB[MAXREP], nrep;
static u32 repbad(const u8*p,u64 n){
  nrep=0;
  for(u64 i=0;i<n;i++) if(p[i]=='$'){ u64 j=i+1; u32 a=0,b=0; while(j<n&&j<i+5&&hexd(p[j])){ a=a<<4|hexv(p[j]); j++; }
    if(j>i+1&&j+4<n&&p[j]=='.'&&p[j+1]=='.'&&p[j+2]=='.'&&p[j+3]=='$'){ u64 q=j+4; while(q<n&&q<j+8&&hexd(p[q])){ b=b<<4|hexv(p[q]); q++; }
      if(nrep<MAXREP){ repA[nrep]=a; repB[nrep]=b; nrep++; } else return 0; i=q-1; } }
  if(nrep&1) return 1;
  u32 bad=0, total=0, np=0;
  #define SAME(a1,b1,a2,b2,c1,d1,c2,d2) (((u32)(a1==c1)&(u32)(b1==d1)&(u32)(a2==c2)&(u32)(b2==d2))|((u32)(a1==c2)&(u32)(b1==d2)&(u32)(a2==c1)&(u32)(b2==d1)))
  for(u32 i=0;i<nseg;i++) if(segN[i]) for(u32 j=i+1;j<nseg;j++) if(segN[j]){ u32 s1=segS[i],e1=s1+segN[i],s2=segS[j],e2=s2+segN[j]; total+=(u32)(s1<e2)&(u32)(s2<e1); np++; }
  if(total!=nrep/2) return 1;
  if(np>130) return 0;
  for(u32 i=0;i<nseg;i++) if(segN[i]) for(u32 j=i+1;j<nseg;j++) if(segN[j]){ u32 s1=segS[i],e1=s1+segN[i],s2=segS[j],e2=s2+segN[j]; u32 ov=(u32)(s1<e2)&(u32)(s2<e1), have=0, wantd=0;
    for(u32 k=0;k+1<nrep;k+=2) have+=SAME(s1,e1-1,s2,e2-1,repA[k],repB[k],repA[k+1],repB[k+1]);
    for(u32 x=0;x<nseg;x++) if(segN[x]) for(u32 y=x+1;y<nseg;y++) if(segN[y]){ u32 t1=segS[x],f1=t1+segN[x],t2=segS[y],f2=t2+segN[y]; wantd+=((u32)(t1<f2)&(u32)(t2<f1))&SAME(s1,e1,s2,e2,t1,f1,t2,f2); }
    bad|=ov&(u32)(have!=wantd); }
  return bad;
}
#define B(x) (1ul<<(x))
static int wantnames;
static const u8*rawp; static u64 rawn;   /* the bytes of the last successful result */
/* outcome of one run against the reference; decodes a successful result into *g; *ok tells whether it succeeded */
static u64 checkrun(const RunRec*r,Img*g,int*okp,u64*cls){
  u64 rc=0; int ok=r->kind==0&&r->code==0; *okp=ok; g->n=0;
  if(r->kind!=0&&!(r->faultmask&16)) rc|=B(V_CRASH);
  int m=cmdline(r);
  if(m==M_UNSPEC){ *cls=C_UNSPEC; return rc; }
  const FileRec*in=0,*dst=0; int tostd=0;
  if(m==M_RUN){
    tostd=outp.n==1&&outp.p[0]=='-';
    for(u64 i=0;i<r->nfiles;i++){ const FileRec*f=&r->files[i]; if(f->pre_exists&&eqs(f->path,f->pathn,inp.p,inp.n)) in=f; if(!tostd&&eqs(f->path,f->pathn,outp.p,outp.n)) dst=f; }
  }
  for(u64 i=0;i<r->nfiles;i++){ const FileRec*f=&r->files[i]; if(f==dst) continue; if(changed(f)) rc|=B(V_OTHERFILE); }
  if(m!=M_RUN){
    *cls=m==M_ERR?C_CLIERR:m==M_UNSPEC?C_UNSPEC:C_INFO;
    if(m==M_ERR){ if(ok) rc|=B(V_CLI); if(!ok&&r->kind==0&&r->outn+r->errn==0&&!(r->faultmask&16)) rc|=B(V_NODIAG); }
    else if(m!=M_UNSPEC&&!(r->faultmask&16)){
      if(!ok||r->nopen) rc|=B(V_CLI);
      else { int h=contains(r->out,r->outn,"--output")&&contains(r->out,r->outn,"--help")&&contains(r->out,r->outn,"--version"), v=r->outn>12&&eqs(r->out,12,(const u8*)"c8s version ",12)&&digit(r->out[12]);
        if(m==M_HELP?!h:m==M_VERSION?!v:!(h||v)) rc|=B(V_CLI); } }
    return rc;
  }
  int infault=(r->faultmask&3)!=0;
  if(!in||infault){ reasons=0; reason(R_INPUT); noloc=1; qa=qr=over=0; nloc=0; want.n=0; } else reference(in->pre,in->pre_n);
  if(over){ *cls=C_SPECERR; return rc; }
  int unspec=reasons?qr:qa;
  *cls=unspec?C_UNSPEC:reasons?C_REJECT:C_ACCEPT; if(r->faultmask) *cls=C_FAULT;
  int outfault=(r->faultmask&(tostd?16:12))!=0; if(!tostd&&outp.n==0) outfault=1;
  if(ok){
    const u8*res=0; u64 rn=0;
    if(tostd){ res=r->out; rn=r->outn; } else { if(dst&&dst->post_exists){ res=dst->post; rn=dst->post_n; } if(r->outn) rc|=B(V_NOISE); }
    if(outfault) rc|=B(V_IO);
    if(!res&&!tostd){ rc|=B(V_IO); if(reasons&&!unspec) rc|=(u64)reasons<<V_ACC; return rc; }   /* exit 0 for a program that must be rejected counts as accepting it */
    rawp=res; rawn=rn; u32 f=ihex(res,rn,g); if(f) rc|=B(V_FORMAT);
    if(unspec) return rc;
    if(reasons){ rc|=(u64)reasons<<V_ACC; return rc; }
    if(differ(&want,g)) rc|=B(V_BYTES);
  } else {
    if(r->kind==0&&r->outn+r->errn==0&&!(r->faultmask&16)) rc|=B(V_NODIAG);
    if(!(reasons==0&&!unspec&&outfault)){       /* not a pure output failure: nothing may have been written */
      if(dst&&!(unspec&&outfault)&&changed(dst)) rc|=B(V_FAILTOUCH);
      if(tostd&&!outfault&&contains(r->out,r->outn,"\n:")|| (tostd&&!outfault&&r->outn&&r->out[0]==':')) rc|=B(V_FAILTOUCH);
    }
    if(reasons==0){ if(!unspec&&!outfault) rc|=B(V_REJECT_GOOD); }
    else if(!noloc&&nloc&&r->kind==0&&!(r->faultmask&16)){ const u8*p=r->outn?r->out:r->err; u64 n=r->outn?r->outn:r->errn; if(locbad(p,n)) rc|=B(V_LOC); if(wantnames&&!unspec&&namebad(p,n)) rc|=B(V_NAME); }
    else if(wantnames&&!unspec&&reasons==1u<<R_OVERLAP&&r->kind==0&&!r->faultmask&&repbad(r->outn?r->out:r->err,r->outn?r->outn:r->errn)) rc|=B(V_NAME);
  }
  return rc;
}

/* ---------------------------------------------------------------- decode / disassemble round trip */
static u32 documented(u32 w){
  u32 h=w>>12, l=w&0xff, n=w&15;
  switch(h){
    case 0: return w==0x00e0||w==0x00ee||w==0x00f8||w==0x00f9||w==0x00fa;
    case 5: case 9: return n==0;
    case 8: return n<=7||n==0xe;
    case 0xe: return l==0x9e||l==0xa1;
    case 0xf: return l==0x07||l==0x0a||l==0x15||l==0x18||l==0x1e||l==0x29||l==0x33||l==0x55||l==0x65;
    default: return 1; } }
static u64 roundtrip(const RunRec*r,u64*cls){
  if(r->kind!=0||r->code!=0) return B(V_ROUND)|(r->kind?B(V_CRASH):0);
  const FileRec*in=0; for(u64 i=0;i<r->nfiles;i++) if(r->files[i].pre_exists) in=&r->files[i];
  if(!in||in->pre_n!=2||r->outn<2) return B(V_ROUND);
  u32 w=(u32)in->pre[0]<<8|in->pre[1]; u32 doc=documented(w); *cls=doc?C_ACCEPT:C_REJECT;
  u32 enc=(u32)r->out[0]<<8|r->out[1]; u32 ew=doc?w:0; u32 bad=enc!=ew;
  /* then: number of bytes the disassembly assembled to (0xff: rejected) and the bytes */
  if(r->outn!=5||r->out[2]!=2) return B(V_ROUND);
  u32 back=(u32)r->out[3]<<8|r->out[4]; u32 shift=(w>>12)==8&&((w&15)==6||(w&15)==0xe);
  u32 m=shift?0xff0f:0xffff; bad|=(back&m)!=(ew&m);
  return bad?B(V_ROUND):0;
}

void spec_check(Env*e){
  u64 rc=0, cls=C_ACCEPT; int ok0,ok1;
  if(e->prop==16){ rc=roundtrip(&e->runs[0],&cls); e->rc=rc; e->cls=cls; return; }
  rawp=0; rawn=0; wantnames=e->prop==19;
  rc=checkrun(&e->runs[0],&got0,&ok0,&cls);
  if(e->nruns>=2){
    const u8*p0=rawp; u64 n0=rawn; rawp=0; rawn=0;
    u64 c2; rc|=checkrun(&e->runs[1],&got1,&ok1,&c2);
    if(e->prop==18){   /* same source: the very same bytes and exit status */
      if(e->runs[0].code!=e->runs[1].code) rc|=B(V_REL);
      else if(ok0&&ok1&&!eqs(p0,n0,rawp,rawn)) rc|=B(V_REL);
    }
    if(ok0!=ok1) rc|=B(V_REL); else if(ok0&&differ(&got0,&got1)) rc|=B(V_REL);
  }
  e->rc=rc; e->cls=cls;
}
