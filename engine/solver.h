// z3 back end: decides conjunctions of width-1 expressions.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <unordered_set>
#include <memory>
#include <unistd.h>
#include <cstdlib>

typedef std::unordered_map<uint32_t,uint64_t> Model;
typedef std::shared_ptr<Model> ModelP;
inline double nowS(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  ExprPool &P; Z3_context ctx; Z3_solver sol=nullptr; bool solFP=false; unsigned nq=0, timeoutMs;
  std::unordered_map<Expr*,Z3_ast> bv, bo;
  uint64_t tables=0, queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, modelHits=0; double time=0, maxTime=0; bool selfErr=false;
  struct Res{ int r; ModelP m; };
  struct VH{ size_t operator()(const std::vector<uint32_t>&v) const { size_t h=v.size(); for(auto x:v){h=(h^x)*0x9E3779B97F4A7C15ULL; h^=h>>29;} return h; } };
  std::unordered_map<std::vector<uint32_t>,Res,VH> cache;
  std::vector<ModelP> recent; unsigned rpos=0;
  static void eh(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }
  Solver(ExprPool&p,unsigned tmo):P(p),timeoutMs(tmo){ Z3_config c=Z3_mk_config(); ctx=Z3_mk_context(c); Z3_set_error_handler(ctx,eh); }
  Z3_sort bs(unsigned w){ return Z3_mk_bv_sort(ctx,w); }
  Z3_sort fs(unsigned w){ return w==64?Z3_mk_fpa_sort_double(ctx):Z3_mk_fpa_sort_single(ctx); }
  Z3_ast fp(Expr*e){ return Z3_mk_fpa_to_fp_bv(ctx,B(e),fs(e->w)); }
  Z3_ast b1(Z3_ast b){ return Z3_mk_ite(ctx,b,Z3_mk_unsigned_int64(ctx,1,bs(1)),Z3_mk_unsigned_int64(ctx,0,bs(1))); }
  static bool isBoolOp(Expr*e){ return (e->op>=O_EQ&&e->op<=O_SLE)||(e->op>=O_FOEQ&&e->op<=O_FUNO); }
  // boolean view of a width-1 expression
  Z3_ast L(Expr*e){ auto it=bo.find(e); if(it!=bo.end()) return it->second; Z3_ast r; Expr*a=e->k[0],*b=e->k[1],*c=e->k[2];
    switch(e->op){
    case O_CONST: r=e->val?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
    case O_EQ: r= a->w==1? Z3_mk_iff(ctx,L(a),L(b)) : Z3_mk_eq(ctx,B(a),B(b)); break;
    case O_ULT: r=Z3_mk_bvult(ctx,B(a),B(b)); break; case O_ULE: r=Z3_mk_bvule(ctx,B(a),B(b)); break;
    case O_SLT: r=Z3_mk_bvslt(ctx,B(a),B(b)); break; case O_SLE: r=Z3_mk_bvsle(ctx,B(a),B(b)); break;
    case O_FOEQ: r=Z3_mk_fpa_eq(ctx,fp(a),fp(b)); break; case O_FOLT: r=Z3_mk_fpa_lt(ctx,fp(a),fp(b)); break;
    case O_FOLE: r=Z3_mk_fpa_leq(ctx,fp(a),fp(b)); break;
    case O_FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ctx,fp(a)),Z3_mk_fpa_is_nan(ctx,fp(b))}; r=Z3_mk_or(ctx,2,x); break; }
    case O_AND: { Z3_ast x[2]={L(a),L(b)}; r=Z3_mk_and(ctx,2,x); break; }
    case O_OR: { Z3_ast x[2]={L(a),L(b)}; r=Z3_mk_or(ctx,2,x); break; }
    case O_XOR: if(ExprPool::isC(b,1)) r=Z3_mk_not(ctx,L(a)); else r=Z3_mk_xor(ctx,L(a),L(b)); break;
    case O_ITE: r=Z3_mk_ite(ctx,L(a),L(b),L(c)); break;
    default: r=Z3_mk_eq(ctx,B(e),Z3_mk_unsigned_int64(ctx,1,bs(1))); break; }
    Z3_inc_ref(ctx,r); bo[e]=r; return r; }
  Z3_ast B(Expr*e){ auto it=bv.find(e); if(it!=bv.end()) return it->second; Z3_ast r; Expr*a=e->k[0],*b=e->k[1],*c=e->k[2];
    if(isBoolOp(e)||(e->w==1&&(e->op==O_AND||e->op==O_OR||e->op==O_XOR||e->op==O_ITE))) r=b1(L(e));
    else switch(e->op){
    case O_CONST: r=Z3_mk_unsigned_int64(ctx,e->val,bs(e->w)); break;
    case O_VAR: { Z3_symbol s=Z3_mk_int_symbol(ctx,(int)e->val); r=Z3_mk_const(ctx,s,bs(e->w)); break; }
    case O_ADD: r=Z3_mk_bvadd(ctx,B(a),B(b)); break; case O_SUB: r=Z3_mk_bvsub(ctx,B(a),B(b)); break;
    case O_MUL: r=Z3_mk_bvmul(ctx,B(a),B(b)); break; case O_UDIV: r=Z3_mk_bvudiv(ctx,B(a),B(b)); break;
    case O_SDIV: r=Z3_mk_bvsdiv(ctx,B(a),B(b)); break; case O_UREM: r=Z3_mk_bvurem(ctx,B(a),B(b)); break;
    case O_SREM: r=Z3_mk_bvsrem(ctx,B(a),B(b)); break; case O_AND: r=Z3_mk_bvand(ctx,B(a),B(b)); break;
    case O_OR: r=Z3_mk_bvor(ctx,B(a),B(b)); break; case O_XOR: r=Z3_mk_bvxor(ctx,B(a),B(b)); break;
    case O_SHL: r=Z3_mk_bvshl(ctx,B(a),B(b)); break; case O_LSHR: r=Z3_mk_bvlshr(ctx,B(a),B(b)); break;
    case O_ASHR: r=Z3_mk_bvashr(ctx,B(a),B(b)); break;
    case O_ITE: r=Z3_mk_ite(ctx,L(a),B(b),B(c)); break;
    case O_CONCAT: r=Z3_mk_concat(ctx,B(a),B(b)); break;
    case O_EXTRACT: r=Z3_mk_extract(ctx,e->val+e->w-1,e->val,B(a)); break;
    case O_ZEXT: r=Z3_mk_zero_ext(ctx,e->w-a->w,B(a)); break;
    case O_SEXT: r=Z3_mk_sign_ext(ctx,e->w-a->w,B(a)); break;
    case O_FADD: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_add(ctx,Z3_mk_fpa_rne(ctx),fp(a),fp(b))); break;
    case O_FSUB: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_sub(ctx,Z3_mk_fpa_rne(ctx),fp(a),fp(b))); break;
    case O_FMUL: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_mul(ctx,Z3_mk_fpa_rne(ctx),fp(a),fp(b))); break;
    case O_FDIV: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_div(ctx,Z3_mk_fpa_rne(ctx),fp(a),fp(b))); break;
    case O_SITOFP: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_signed(ctx,Z3_mk_fpa_rne(ctx),B(a),fs(e->w))); break;
    case O_UITOFP: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_unsigned(ctx,Z3_mk_fpa_rne(ctx),B(a),fs(e->w))); break;
    case O_FPTOSI: r=Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),fp(a),e->w); break;
    case O_FPTOUI: r=Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_rtz(ctx),fp(a),e->w); break;
    case O_FPCVT: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_float(ctx,Z3_mk_fpa_rne(ctx),fp(a),fs(e->w))); break;
    default: fprintf(stderr,"B: op %d\n",e->op); abort(); }
    Z3_inc_ref(ctx,r); bv[e]=r; return r; }
  std::unordered_map<Expr*,bool> fpm;
  bool hasFP(Expr*e){ if(e->op>=O_FOEQ) return true; if(!e->k[0]) return false; auto it=fpm.find(e); if(it!=fpm.end()) return it->second;
    bool r=false; for(auto*k:e->k) if(k&&hasFP(k)){r=true;break;} fpm[e]=r; return r; }
  // wide division by a constant: bit-blasting is hopeless, cvc5's integer translation decides it at once
  std::unordered_map<Expr*,bool> dvm; uint64_t cvc=0;
  bool hasDiv(Expr*e){ if((e->op==O_UDIV||e->op==O_UREM)&&e->w>=32&&e->k[1]->op==O_CONST&&(e->k[1]->val&(e->k[1]->val-1))) return true; if(!e->k[0]) return false; auto it=dvm.find(e); if(it!=dvm.end()) return it->second;
    bool r=false; for(auto*k:e->k) if(k&&hasDiv(k)){r=true;break;} dvm[e]=r; return r; }
  int cvc5(const std::vector<Expr*>&cs, Model&m){ cvc++;
    std::string t="(set-logic QF_BV)\n(set-option :produce-models true)\n"; t+=Z3_solver_to_string(ctx,sol); t+="\n(check-sat)\n(get-model)\n";
    char fn[]="/tmp/sphse.XXXXXX"; int fd=mkstemp(fn); if(fd<0) return -1; if(write(fd,t.data(),t.size())!=(ssize_t)t.size()){ close(fd); unlink(fn); return -1; } close(fd);
    std::string o; char cmd[256]; snprintf(cmd,sizeof cmd,"cvc5 --solve-bv-as-int=sum --tlimit=%u %s 2>/dev/null",timeoutMs,fn); FILE*p=popen(cmd,"r"); char buf[4096]; size_t n; if(p){ while((n=fread(buf,1,sizeof buf,p))>0) o.append(buf,n); pclose(p); } unlink(fn);
    if(!o.compare(0,5,"unsat")) return 0; if(o.compare(0,3,"sat")) return -1;
    std::unordered_set<uint32_t> vs; for(auto*c:cs) for(auto v:*c->vars) vs.insert(v);
    for(auto v:vs){ uint64_t x=0; size_t q=o.find("(define-fun k!"+std::to_string(v)+" "); if(q!=std::string::npos){ q=o.find(") #b",q); if(q!=std::string::npos) for(q+=4;o[q]=='0'||o[q]=='1';q++) x=x*2+(o[q]-'0'); } m[v]=x; }
    return 1; }
  void mkSolver(bool fpq){ if(sol) Z3_solver_dec_ref(ctx,sol);
    sol=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,fpq?"QF_FPBV":"QF_BV")); Z3_solver_inc_ref(ctx,sol); solFP=fpq; nq=0;
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs); Z3_solver_set_params(ctx,sol,p); Z3_params_dec_ref(ctx,p); }
  bool holds(const std::vector<Expr*>&cs,const Model&m){ P.epoch++; for(auto*c:cs) if(!P.eval(c,m)) return false; return true; }
  // 1 sat, 0 unsat, -1 unknown; on sat m holds values of the variables of cs
  int check(std::vector<Expr*> cs, ModelP&m, bool fork=false){
    std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
    std::vector<uint32_t> key; for(auto*c:cs){ if(c->op==O_CONST){ if(!c->val) return 0; continue; } key.push_back(c->id); }
    auto it=cache.find(key); if(it!=cache.end()){ cacheHits++; m=it->second.m; return it->second.r; }
    for(auto&r:recent) if(holds(cs,*r)){ modelHits++; m=r; cache[key]={1,r}; return 1; }
    if(fork){ // path feasibility over at most 10 variable bits: decided on the formula's whole truth table
      std::vector<uint32_t> vs; unsigned bits=0; for(auto*c:cs) for(auto v:*c->vars) if(std::find(vs.begin(),vs.end(),v)==vs.end()){ vs.push_back(v); bits+=P.varW[v]; if(bits>10) break; }
      if(bits<=10){ tables++; Model t; for(uint64_t i=0;i<(1ULL<<bits);i++){ uint64_t x=i; for(auto v:vs){ t[v]=x&maskw(P.varW[v]); x>>=P.varW[v]; } if(holds(cs,t)){ m=std::make_shared<Model>(t); cache[key]={1,m}; return 1; } } cache[key]={0,m}; return 0; } }
    bool fpq=false; for(auto*c:cs) if(hasFP(c)) fpq=true;
    if(!sol||solFP!=fpq||nq>500) mkSolver(fpq);
    nq++; queries++; double t0=nowS();
    Z3_solver_push(ctx,sol);
    for(auto*c:cs) Z3_solver_assert(ctx,sol,L(c));
    int res; Z3_lbool r=Z3_L_UNDEF; bool dv=false; if(!fpq) for(auto*c:cs) if(hasDiv(c)) dv=true;
    if(!dv) r=Z3_solver_check(ctx,sol);
    if(r==Z3_L_UNDEF&&!fpq){ Model t; int x=cvc5(cs,t); if(x==0) r=Z3_L_FALSE; else if(x==1&&holds(cs,t)){ sat++; m=std::make_shared<Model>(t); res=1; Z3_solver_pop(ctx,sol,1); double dt=nowS()-t0; time+=dt; if(dt>maxTime) maxTime=dt; cache[key]={1,m}; return 1; } else if(dv) r=Z3_solver_check(ctx,sol); }
    if(r==Z3_L_FALSE){ res=0; unsat++; }
    else if(r==Z3_L_TRUE){ res=1; sat++; m=std::make_shared<Model>(); Z3_model zm=Z3_solver_get_model(ctx,sol); Z3_model_inc_ref(ctx,zm);
      std::unordered_set<uint32_t> vs; for(auto*c:cs) for(auto v:*c->vars) vs.insert(v);
      for(auto v:vs){ Z3_ast o; uint64_t x=0; if(Z3_model_eval(ctx,zm,B(P.varExpr[v]),true,&o)){ Z3_inc_ref(ctx,o); if(!Z3_get_numeral_uint64(ctx,o,&x)) x=0; Z3_dec_ref(ctx,o);} (*m)[v]=x; }
      Z3_model_dec_ref(ctx,zm);
      if(!holds(cs,*m)){ // encoder / evaluator disagreement: never trust it
        fprintf(stderr,"solver self-check failed\n"); selfErr=true; res=-1; unknown++; }
      else { if(recent.size()<12) recent.push_back(m); else recent[rpos++%12]=m; } }
    else { res=-1; unknown++; }
    Z3_solver_pop(ctx,sol,1);
    double dt=nowS()-t0; time+=dt; if(dt>maxTime) maxTime=dt;
    if(res>=0) cache[key]={res,m};
    return res; }
};
