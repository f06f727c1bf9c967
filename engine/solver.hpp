// Z3 back end: translates expressions and answers satisfiability over slices of a path condition.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <time.h>
static inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Stats { u64 z3q=0, z3sat=0, z3unsat=0, z3unk=0, domq=0, cacheq=0, insts=0, paths=0, forks=0, oblig=0, obligZ3=0, obligTriv=0, states=0; double z3t=0; };
extern Stats ST;
struct Z3 {
  Z3_context c=nullptr; std::unordered_map<u32,Z3_ast> cache; std::vector<Z3_ast> symv; Z3_solver s=nullptr;
  unsigned timeout=20000; double deadline=0;
  static void onerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(c,e)); _exit(90); }
  void init(){ if(c) return; Z3_config cfg=Z3_mk_config(); c=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c,onerr);
    s=Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_BV")); Z3_solver_inc_ref(c,s); Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),timeout); Z3_solver_set_params(c,s,p); }
  Z3_ast num(u128 v,unsigned w){ std::string d; if(!v) d="0"; while(v){ d.insert(d.begin(),'0'+(int)(v%10)); v/=10; } return Z3_mk_numeral(c,d.c_str(),Z3_mk_bv_sort(c,w)); }
  Z3_ast sym(int i){ while((int)symv.size()<=i) symv.push_back(nullptr); if(!symv[i]){ symv[i]=Z3_mk_const(c,Z3_mk_int_symbol(c,i),Z3_mk_bv_sort(c,8)); Z3_inc_ref(c,symv[i]); } return symv[i]; }
  Z3_ast range(Z3_ast x,int lo,int hi){ if(lo==hi) return Z3_mk_eq(c,x,num(lo,8)); Z3_ast a[2]={Z3_mk_bvuge(c,x,num(lo,8)),Z3_mk_bvule(c,x,num(hi,8))}; return Z3_mk_and(c,2,a); }
  Z3_ast member(int s,const Dom&d){ std::vector<Z3_ast> v; int i=0; while(i<256){ if(!d.has(i)){i++;continue;} int j=i; while(j+1<256&&d.has(j+1)) j++; v.push_back(range(sym(s),i,j)); i=j+1; } if(v.empty()) return Z3_mk_false(c); return Z3_mk_or(c,v.size(),v.data()); }
  Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(c,b,num(1,1),num(0,1)); }
  // widths of 1 are bit-vectors of size 1
  Z3_ast tr(E e){
    auto it=cache.find(e->id); if(it!=cache.end()) return it->second;
    Z3_ast r=nullptr;
    auto A=[&]{return tr(e->a);}; auto B=[&]{return tr(e->b);};
    switch(e->op){
      case CONST: r=num(e->k,e->w); break;
      case SYM: r=sym((int)e->k); break;
      case ADD: r=Z3_mk_bvadd(c,A(),B()); break; case SUB: r=Z3_mk_bvsub(c,A(),B()); break; case MUL: r=Z3_mk_bvmul(c,A(),B()); break;
      case UDIV: r=Z3_mk_bvudiv(c,A(),B()); break; case UREM: r=Z3_mk_bvurem(c,A(),B()); break; case SDIV: r=Z3_mk_bvsdiv(c,A(),B()); break; case SREM: r=Z3_mk_bvsrem(c,A(),B()); break;
      case AND: r=Z3_mk_bvand(c,A(),B()); break; case OR: r=Z3_mk_bvor(c,A(),B()); break; case XOR: r=Z3_mk_bvxor(c,A(),B()); break;
      case SHL: r=Z3_mk_bvshl(c,A(),B()); break; case LSHR: r=Z3_mk_bvlshr(c,A(),B()); break; case ASHR: r=Z3_mk_bvashr(c,A(),B()); break;
      case EQ: r=b2v(Z3_mk_eq(c,A(),B())); break; case ULT: r=b2v(Z3_mk_bvult(c,A(),B())); break; case SLT: r=b2v(Z3_mk_bvslt(c,A(),B())); break;
      case ITE: r=Z3_mk_ite(c,Z3_mk_eq(c,A(),num(1,1)),B(),tr(e->c)); break;
      case CONCAT: r=Z3_mk_concat(c,A(),B()); break; case EXTRACT: r=Z3_mk_extract(c,e->lo+e->w-1,e->lo,A()); break;
      case ZEXT: r=Z3_mk_zero_ext(c,e->w-e->a->w,A()); break; case SEXT: r=Z3_mk_sign_ext(c,e->w-e->a->w,A()); break;
      case LUT: { int s=e->supp.first(); auto&vals=M.syms[s].vals; size_t n=vals.size(); Z3_ast x=sym(s); Z3_ast xw=e->w==8?x:e->w>8?Z3_mk_zero_ext(c,e->w-8,x):Z3_mk_extract(c,e->w-1,0,x);
        // piecewise constant / affine segments
        std::vector<std::tuple<int,int,bool,u64>> segs; size_t i=0; u64 m=mask64(e->w);
        while(i<n){ size_t jc=i; while(jc+1<n&&e->tab[jc+1]==e->tab[i]) jc++; size_t ja=i; u64 d=(e->tab[i]-vals[i])&m; while(ja+1<n&&((e->tab[ja+1]-vals[ja+1])&m)==d) ja++;
          if(ja>jc){ segs.push_back({(int)vals[i],(int)vals[ja],true,d}); i=ja+1; } else { segs.push_back({(int)vals[i],(int)vals[jc],false,e->tab[i]}); i=jc+1; } }
        auto val=[&](auto&sg){ return std::get<2>(sg)?Z3_mk_bvadd(c,xw,num(std::get<3>(sg),e->w)):num(std::get<3>(sg),e->w); };
        r=val(segs.back()); for(int k=(int)segs.size()-2;k>=0;k--) r=Z3_mk_ite(c,Z3_mk_bvule(c,x,num(std::get<1>(segs[k]),8)),val(segs[k]),r);
        break; }
    }
    Z3_inc_ref(c,r); cache[e->id]=r; return r;
  }
  // returns 1 sat (model filled for symbols in sy), 0 unsat, -1 unknown
  int check(const std::vector<E>&cs,const std::vector<Dom>&dom,const Supp&sy,u8*model){
    init(); double t0=now(); ST.z3q++;
    Z3_solver_push(c,s);
    sy.each([&](int i){ if(!(dom[i]==M.syms[i].dom)||true) Z3_solver_assert(c,s,member(i,dom[i])); });
    for(E e:cs) Z3_solver_assert(c,s,Z3_mk_eq(c,tr(e),num(1,1)));
    Z3_lbool r=Z3_solver_check(c,s); int res= r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
    if(res==1&&model){ Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m);
      sy.each([&](int i){ Z3_ast v; if(Z3_model_eval(c,m,sym(i),true,&v)){ unsigned u=0; Z3_get_numeral_uint(c,v,&u); model[i]=u; } });
      Z3_model_dec_ref(c,m); }
    Z3_solver_pop(c,s,1); ST.z3t+=now()-t0; (res==1?ST.z3sat:res==0?ST.z3unsat:ST.z3unk)++;
    return res;
  }
};
extern Z3 Z;
