// Hash-consed bit-vector expressions with local simplification (widths 1..64).
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPCVT
};

struct Expr {
  Op op; uint8_t w; uint16_t flags;
  uint32_t id;
  uint64_t val;            // const value / var index / extract offset
  Expr *k[3];
  uint64_t kz, ko;         // known zero / known one bits
  std::vector<uint32_t> *vars; // sorted set of variable ids (shared)
  // evaluation memo
  uint64_t ev; uint32_t evEpoch; uint64_t rwVer=0; Expr*rw=nullptr;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprPool {
  struct Key { Op op; uint8_t w; uint64_t val; Expr *a, *b, *c;
    bool operator==(const Key &o) const { return op==o.op&&w==o.w&&val==o.val&&a==o.a&&b==o.b&&c==o.c; } };
  struct KH { size_t operator()(const Key &k) const {
      uint64_t h = k.op*0x9E3779B97F4A7C15ULL + k.w;
      auto mix=[&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdULL; };
      mix(k.val); mix(k.a?k.a->id+1:0); mix(k.b?k.b->id+1:0); mix(k.c?k.c->id+1:0); return h; } };
  std::unordered_map<Key, Expr*, KH> tab;
  uint32_t nextId = 1;
  std::vector<std::string> varName; std::vector<unsigned> varW;
  std::vector<Expr*> varExpr;
  uint32_t epoch = 1;
  std::vector<uint32_t> emptyVars;
  struct VH { size_t operator()(const std::vector<uint32_t>&v) const { size_t h=v.size(); for(auto x:v){h=h*1000003u^x;} return h; } };
  std::unordered_map<std::vector<uint32_t>, std::vector<uint32_t>*, VH> varSets;

  std::vector<uint32_t> *vset(const std::vector<uint32_t>& v) {
    auto it = varSets.find(v); if (it!=varSets.end()) return it->second;
    auto *p = new std::vector<uint32_t>(v); varSets[v]=p; return p; }

  Expr *raw(Op op, unsigned w, uint64_t val, Expr *a=nullptr, Expr *b=nullptr, Expr *c=nullptr) {
    Key k{op,(uint8_t)w,val,a,b,c};
    auto it = tab.find(k); if (it!=tab.end()) return it->second;
    Expr *e = new Expr(); e->op=op; e->w=w; e->flags=0; e->id=nextId++; e->val=val; e->k[0]=a; e->k[1]=b; e->k[2]=c;
    e->evEpoch=0; e->ev=0; e->rwVer=0; e->rw=nullptr; e->kz=e->ko=0;
    Expr *ks[3]={a,b,c}; std::vector<uint32_t>* vs=nullptr; bool multi=false; std::vector<uint32_t> acc;
    for (auto *x: ks) if (x && x->vars && !x->vars->empty()) {
      if (!vs) vs=x->vars; else if (vs!=x->vars) {
        std::vector<uint32_t> u; std::set_union((multi?acc:*vs).begin(),(multi?acc:*vs).end(),x->vars->begin(),x->vars->end(),std::back_inserter(u));
        acc.swap(u); multi=true; if(acc==*vs){multi=false;} } }
    if (op==O_VAR) { acc={ (uint32_t)val }; multi=true; }
    e->vars = multi? vset(acc) : vs ? vs : vset(emptyVars);
    knownBits(e);
    tab[k]=e; return e;
  }
  void knownBits(Expr *e) {
    uint64_t M=maskw(e->w); Expr *a=e->k[0],*b=e->k[1];
    switch(e->op){
    case O_CONST: e->ko=e->val; e->kz=M&~e->val; break;
    case O_AND: e->ko=a->ko&b->ko; e->kz=(a->kz|b->kz)&M; break;
    case O_OR: e->ko=a->ko|b->ko; e->kz=a->kz&b->kz; break;
    case O_XOR: e->ko=(a->ko&b->kz)|(a->kz&b->ko); e->kz=(a->kz&b->kz)|(a->ko&b->ko); break;
    case O_SHL: if(b->op==O_CONST&&b->val<e->w){ e->ko=(a->ko<<b->val)&M; e->kz=((a->kz<<b->val)|maskw(b->val))&M; if(!b->val)e->kz=a->kz; } break;
    case O_LSHR: if(b->op==O_CONST&&b->val<e->w){ e->ko=a->ko>>b->val; e->kz=((a->kz>>b->val)|(M&~(M>>b->val)))&M; } break;
    case O_ZEXT: e->ko=a->ko; e->kz=a->kz|(M&~maskw(a->w)); break;
    case O_SEXT: { uint64_t s=1ULL<<(a->w-1); e->ko=a->ko; e->kz=a->kz; if(a->kz&s)e->kz|=M&~maskw(a->w); if(a->ko&s)e->ko|=M&~maskw(a->w); break; }
    case O_CONCAT: e->ko=(a->ko<<b->w)|b->ko; e->kz=(a->kz<<b->w)|b->kz; break;
    case O_EXTRACT: e->ko=(a->ko>>e->val)&M; e->kz=(a->kz>>e->val)&M; break;
    case O_ITE: e->ko=b->ko&e->k[2]->ko; e->kz=b->kz&e->k[2]->kz; break;
    case O_ADD: case O_SUB: { // common trailing known bits: only trailing zeros; and high zero bits
      uint64_t az=~(~a->kz), bz=b->kz; unsigned ta=__builtin_ctzll(~az|(1ULL<<63)), tb=__builtin_ctzll(~bz|(1ULL<<63)); unsigned t=std::min(ta,tb); t=std::min(t,(unsigned)e->w);
      e->kz=maskw(t)&M; if(t==0)e->kz=0;
      if (t<tb||t<ta) { // bits known below the larger alignment
        unsigned tt=std::max(ta,tb); tt=std::min(tt,(unsigned)e->w);
        // the operand with more trailing zeros contributes nothing below tt
        if(e->op==O_ADD|| tb>=ta){ Expr*o = ta>tb?b:a; e->kz|=o->kz&maskw(tt); e->ko|=o->ko&maskw(tt); } }
      if(e->op==O_ADD){ unsigned la=a->w-hi(a), lb=b->w-hi(b); unsigned l=std::max(hib(a),hib(b))+1; (void)la;(void)lb; if(l<e->w) e->kz|=M&~maskw(l); }
      break; }
    case O_MUL: { unsigned ta=tz(a),tb=tz(b); unsigned t=std::min<unsigned>(ta+tb,e->w); e->kz=t?maskw(t)&M:0; unsigned l=hib(a)+hib(b); if(l<e->w) e->kz|=M&~maskw(l); break; }
    case O_UREM: if(b->op==O_CONST&&b->val){ unsigned l=64-__builtin_clzll(b->val); if(l<e->w) e->kz|=M&~maskw(l);} break;
    case O_UDIV: { unsigned l=hib(a); if(l<e->w) e->kz|=M&~maskw(l); if(l==0)e->kz=M; break; }
    default: break;
    }
  }
  static unsigned hi(Expr*a){ return hib(a);} 
  static unsigned hib(Expr*a){ uint64_t m=maskw(a->w)&~a->kz; return m?64-__builtin_clzll(m):0; } // number of possibly significant bits
  static unsigned tz(Expr*a){ uint64_t m=~a->kz; unsigned t=m?__builtin_ctzll(m):64; return std::min(t,(unsigned)a->w); }

  Expr *cst(uint64_t v, unsigned w) { return raw(O_CONST,w,v&maskw(w)); }
  Expr *var(const std::string&n, unsigned w) { uint32_t i=varName.size(); varName.push_back(n); varW.push_back(w); Expr*e=raw(O_VAR,w,i); varExpr.push_back(e); return e; }
  static bool isC(Expr*e){ return e->op==O_CONST; }
  static bool isC(Expr*e,uint64_t v){ return e->op==O_CONST&&e->val==v; }

  static uint64_t fold2(Op op,uint64_t a,uint64_t b,unsigned w,bool&ok){ ok=true; uint64_t M=maskw(w);
    switch(op){
    case O_ADD: return (a+b)&M; case O_SUB: return (a-b)&M; case O_MUL: return (a*b)&M;
    case O_UDIV: if(!b){ok=false;return 0;} return a/b;
    case O_UREM: if(!b){ok=false;return 0;} return a%b;
    case O_SDIV: if(!b||(sx(b,w)==-1&&sx(a,w)==sx(1ULL<<(w-1),w))){ if(b) return a; ok=false;return 0;} return (uint64_t)(sx(a,w)/sx(b,w))&M;
    case O_SREM: if(!b){ok=false;return 0;} if(sx(b,w)==-1) return 0; return (uint64_t)(sx(a,w)%sx(b,w))&M;
    case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
    case O_SHL: return b>=w?0:(a<<b)&M; case O_LSHR: return b>=w?0:a>>b;
    case O_ASHR: return (uint64_t)(sx(a,w)>>(b>=w?w-1:b))&M;
    case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
    case O_SLT: return sx(a,w)<sx(b,w); case O_SLE: return sx(a,w)<=sx(b,w);
    default: ok=false; return 0; } }

  static double asD(uint64_t v){ double d; memcpy(&d,&v,8); return d; } static float asF(uint64_t v){ float d; uint32_t x=v; memcpy(&d,&x,4); return d; }
  static uint64_t frD(double d){ uint64_t v; memcpy(&v,&d,8); return v; } static uint64_t frF(float d){ uint32_t v; memcpy(&v,&d,4); return v; }
  static double gd(uint64_t v,unsigned w){ return w==64?asD(v):(double)asF(v);} static uint64_t pd(double d,unsigned w){ return w==64?frD(d):frF((float)d); }

  Expr *bin(Op op, Expr *a, Expr *b) {
    unsigned w=a->w; bool cmp = op>=O_EQ&&op<=O_SLE; unsigned rw=cmp?1:w;
    if (isC(a)&&isC(b)) { bool ok; uint64_t r=fold2(op,a->val,b->val,w,ok); if(ok) return cst(r,rw); }
    bool comm = op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ;
    if (comm) { if (isC(a)) std::swap(a,b); else if(!isC(b)&&a->id>b->id) std::swap(a,b); }
    uint64_t M=maskw(w);
    switch(op){
    case O_ADD:
      if(isC(b,0)) return a;
      if(isC(b)&&a->op==O_ADD&&isC(a->k[1])) return bin(O_ADD,a->k[0],cst(a->k[1]->val+b->val,w));
      if(isC(b)&&a->op==O_SUB&&isC(a->k[0])) return bin(O_SUB,cst(a->k[0]->val+b->val,w),a->k[1]);
      if(isC(b)&&a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b));
      if(!isC(b)){ if(a->op==O_ADD&&isC(a->k[1])) return bin(O_ADD,bin(O_ADD,a->k[0],b),a->k[1]);
        if(b->op==O_ADD&&isC(b->k[1])) return bin(O_ADD,bin(O_ADD,a,b->k[0]),b->k[1]);
        if(b->op==O_SUB&&b->k[1]==a) return b->k[0]; if(a->op==O_SUB&&a->k[1]==b) return a->k[0]; }
      break;
    case O_SUB:
      if(isC(b)) return bin(O_ADD,a,cst(0-b->val,w));
      if(a==b) return cst(0,w);
      if(a->op==O_ADD&&a->k[0]==b) return a->k[1]; if(a->op==O_ADD&&a->k[1]==b) return a->k[0];
      if(a->op==O_ADD&&isC(a->k[1])){ return bin(O_ADD,bin(O_SUB,a->k[0],b),a->k[1]); }
      if(b->op==O_ADD&&isC(b->k[1])&&!isC(a)){ return bin(O_ADD,bin(O_SUB,a,b->k[0]),cst(0-b->k[1]->val,w)); }
      break;
    case O_MUL:
      if(isC(b,0)) return b; if(isC(b,1)) return a;
      if(isC(b)&&(b->val&(b->val-1))==0) return bin(O_SHL,a,cst(__builtin_ctzll(b->val),w));
      break;
    case O_UDIV: if(isC(b,1)) return a; if(isC(b)&&b->val&&(b->val&(b->val-1))==0) return bin(O_LSHR,a,cst(__builtin_ctzll(b->val),w)); break;
    case O_UREM: if(isC(b,1)) return cst(0,w); if(isC(b)&&b->val&&(b->val&(b->val-1))==0) return bin(O_AND,a,cst(b->val-1,w)); break;
    case O_AND:
      if(isC(b,0)) return b; if(isC(b,M)) return a; if(a==b) return a;
      if(isC(b)){ if((M&~a->kz&~b->val)==0) return a; // all possibly-set bits kept
        if((a->kz|~b->val|~M)==~0ULL) return cst(0,w);
        if(((a->kz|a->ko)&b->val)==b->val) return cst(a->ko&b->val,w);
        if(a->op==O_AND&&isC(a->k[1])) return bin(O_AND,a->k[0],cst(a->k[1]->val&b->val,w));
        // low mask -> zext(extract)
        if((b->val&(b->val+1))==0){ unsigned n=__builtin_popcountll(b->val); return zext(extract(a,0,n),w); } 
        if(a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b));
      }
      if(w==1){ if(notOf(a)==b) return cst(0,1); }
      break;
    case O_OR:
      if(isC(b,0)) return a; if(isC(b,M)) return b; if(a==b) return a;
      if(w==1){ if(notOf(a)==b) return cst(1,1); }
      if(isC(b)&&(b->val&~a->ko)==0) return a;
      // disjoint zext/shl pieces -> concat
      { Expr*x=a,*y=b; for(int t=0;t<2;t++,std::swap(x,y)) { unsigned n=hib(y); // y fits in low n bits, x has low n zero
          if(n>0&&n<w&&tz(x)>=n){ return concat(extract(x,n,w-n),extract(y,0,n)); } } }
      break;
    case O_XOR:
      if(isC(b,0)) return a; if(a==b) return cst(0,w);
      if(isC(b)&&a->op==O_XOR&&isC(a->k[1])) return bin(O_XOR,a->k[0],cst(a->k[1]->val^b->val,w));
      if(w==1&&isC(b,1)){ Expr*n=notOf(a); if(n) return n; }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if(isC(b,0)) return a;
      if(isC(a,0)) return a;
      if(isC(b)){ uint64_t s=b->val; if(s>=w){ if(op!=O_ASHR) return cst(0,w); s=w-1; }
        if(op==O_SHL) return concat(extract(a,0,w-s),cst(0,s));
        if(op==O_LSHR) return zext(extract(a,s,w-s),w);
        return sext(extract(a,s,w-s),w); }
      break;
    case O_EQ:
      if(a==b) return cst(1,1);
      if((a->ko&b->kz)||(a->kz&b->ko)) return cst(0,1);
      if(w==1){ if(isC(b,1)) return a; if(isC(b,0)) return bnot(a); }
      if(isC(b)){
        if(a->op==O_ADD&&isC(a->k[1])) return bin(O_EQ,a->k[0],cst(b->val-a->k[1]->val,w));
        if(a->op==O_XOR&&isC(a->k[1])) return bin(O_EQ,a->k[0],cst(b->val^a->k[1]->val,w));
        if(a->op==O_ZEXT){ if(b->val>maskw(a->k[0]->w)) return cst(0,1); return bin(O_EQ,a->k[0],cst(b->val,a->k[0]->w)); }
        if(a->op==O_SEXT){ uint64_t lo=b->val&maskw(a->k[0]->w); if(((uint64_t)sx(lo,a->k[0]->w)&M)!=b->val) return cst(0,1); return bin(O_EQ,a->k[0],cst(lo,a->k[0]->w)); }
        if(a->op==O_CONCAT){ Expr*h=a->k[0],*l=a->k[1]; 
          if(isC(h)) { if(h->val!=(b->val>>l->w)) return cst(0,1); return bin(O_EQ,l,cst(b->val,l->w)); }
          if(isC(l)) { if(l->val!=(b->val&maskw(l->w))) return cst(0,1); return bin(O_EQ,h,cst(b->val>>l->w,h->w)); } }
        if(a->op==O_ITE&&(isC(a->k[1])||isC(a->k[2]))) return ite(a->k[0],bin(O_EQ,a->k[1],b),bin(O_EQ,a->k[2],b));
        if(a->op==O_SUB&&isC(b,0)) return bin(O_EQ,a->k[0],a->k[1]);
      } else {
        if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return bin(O_EQ,a->k[0],b->k[0]);
        if(a->op==O_ADD&&b->op==O_ADD&&a->k[0]==b->k[0]&&isC(a->k[1])&&isC(b->k[1])) return cst(0,1);
        if(a->op==O_ADD&&a->k[0]==b&&isC(a->k[1])) return cst(0,1); if(b->op==O_ADD&&b->k[0]==a&&isC(b->k[1])) return cst(0,1);
        if(a->op==O_ADD&&b->op==O_ADD&&isC(a->k[1])&&isC(b->k[1])) return bin(O_EQ,bin(O_ADD,a->k[0],cst(a->k[1]->val-b->k[1]->val,w)),b->k[0]);
      }
      break;
    case O_ULT:
      if(a==b) return cst(0,1); if(isC(b,0)) return cst(0,1); if(isC(a,M)) return cst(0,1);
      if(isC(b,1)) return bin(O_EQ,a,cst(0,w)); if(isC(a,0)) return bnot(bin(O_EQ,b,cst(0,w)));
      if(umax(a)<umin(b)) return cst(1,1); if(umin(a)>=umax(b)) return cst(0,1);
      if(a->op==O_ZEXT&&isC(b)&&b->val<=maskw(a->k[0]->w)) return bin(O_ULT,a->k[0],cst(b->val,a->k[0]->w));
      if(b->op==O_ZEXT&&isC(a)&&a->val<=maskw(b->k[0]->w)) return bin(O_ULT,cst(a->val,b->k[0]->w),b->k[0]);
      if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return bin(O_ULT,a->k[0],b->k[0]);
      break;
    case O_ULE: return bnot(bin(O_ULT,b,a));
    case O_SLE: return bnot(bin(O_SLT,b,a));
    case O_SLT:
      if(a==b) return cst(0,1);
      { uint64_t s=1ULL<<(w-1); 
        if((a->kz&s)&&(b->kz&s)) return bin(O_ULT,a,b);
        if((a->ko&s)&&(b->ko&s)) return bin(O_ULT,a,b);
        if((a->ko&s)&&(b->kz&s)) return cst(1,1); if((a->kz&s)&&(b->ko&s)) return cst(0,1);
        if(isC(b,0)) return extract(a,w-1,1); 
        if(isC(a,M)) return bnot(extract(b,w-1,1)); }
      break;
    default: break; }
    // operate on the significant bits only
    { unsigned n=0; unsigned ha=hib(a),hb=hib(b);
      switch(op){ case O_ADD: n=std::max(ha,hb)+1; break; case O_MUL: n=ha+hb; break;
        case O_UDIV: case O_UREM: case O_OR: case O_XOR: case O_AND: case O_EQ: case O_ULT: n=std::max(ha,hb); break; default: n=w; }
      if(n<1) n=1; if(n+2<=w){ Expr*r=bin(op,extract(a,0,n),extract(b,0,n)); return cmp?r:zext(r,w); } }
    return raw(op,rw,0,a,b);
  }
  static uint64_t umin(Expr*e){ return e->ko; } static uint64_t umax(Expr*e){ return maskw(e->w)&~e->kz; }
  Expr *notOf(Expr*a){ if(a->op==O_XOR&&a->w==1&&isC(a->k[1],1)) return a->k[0]; return nullptr; }
  Expr *bnot(Expr*a){ if(isC(a)) return cst(~a->val,a->w); if(Expr*n=notOf(a)) return n; 
    if(a->w==1&&a->op==O_ITE) return ite(a->k[0],bnot(a->k[1]),bnot(a->k[2]));
    return raw(O_XOR,a->w,0,a,cst(~0ULL,a->w)); }
  Expr *extract(Expr*a,unsigned off,unsigned n){
    if(off==0&&n==a->w) return a;
    if(isC(a)) return cst(a->val>>off,n);
    { uint64_t m=maskw(n); uint64_t kz=(a->kz>>off)&m, ko=(a->ko>>off)&m; if((kz|ko)==m) return cst(ko,n); }
    switch(a->op){
    case O_EXTRACT: return extract(a->k[0],a->val+off,n);
    case O_CONCAT: { unsigned lw=a->k[1]->w; if(off>=lw) return extract(a->k[0],off-lw,n); if(off+n<=lw) return extract(a->k[1],off,n);
        return concat(extract(a->k[0],0,off+n-lw),extract(a->k[1],off,lw-off)); }
    case O_ZEXT: { unsigned kw=a->k[0]->w; if(off>=kw) return cst(0,n); if(off+n<=kw) return extract(a->k[0],off,n); return zext(extract(a->k[0],off,kw-off),n); }
    case O_SEXT: { unsigned kw=a->k[0]->w; if(off+n<=kw) return extract(a->k[0],off,n); if(off<kw) return sext(extract(a->k[0],off,kw-off),n); break; }
    case O_AND: case O_OR: case O_XOR: if(isC(a->k[1])||off==0||n<=8) return bin(a->op,extract(a->k[0],off,n),extract(a->k[1],off,n)); break;
    case O_ADD: case O_SUB: case O_MUL: if(off+n<a->w) return extract(bin(a->op,extract(a->k[0],0,off+n),extract(a->k[1],0,off+n)),off,n); if(off==0) return bin(a->op,extract(a->k[0],0,n),extract(a->k[1],0,n)); break;
    case O_ITE: if(isC(a->k[1])||isC(a->k[2])) return ite(a->k[0],extract(a->k[1],off,n),extract(a->k[2],off,n)); break;
    default: break; }
    return raw(O_EXTRACT,n,off,a); }
  Expr *concat(Expr*h,Expr*l){
    unsigned w=h->w+l->w; if(isC(h)&&isC(l)) return cst((h->val<<l->w)|l->val,w);
    if(isC(h,0)) return zext(l,w);
    if(h->op==O_EXTRACT&&l->op==O_EXTRACT&&h->k[0]==l->k[0]&&h->val==l->val+l->w) return extract(h->k[0],l->val,w);
    if(h->op==O_EXTRACT&&h->k[0]==l&&h->val==l->w) return extract(h->k[0],0,w);
    if(l->op==O_CONCAT){ Expr*lh=l->k[0],*ll=l->k[1];
      if(h->op==O_EXTRACT&&lh->op==O_EXTRACT&&h->k[0]==lh->k[0]&&h->val==lh->val+lh->w) return concat(extract(h->k[0],lh->val,h->w+lh->w),ll);
      if(isC(h)&&isC(lh)) return concat(concat(h,lh),ll); }
    if(h->op==O_CONCAT) { Expr*hl=h->k[1]; // right-assoc: (hh.hl).l -> hh.(hl.l)
      return concat(h->k[0],concat(hl,l)); }
    if(h->op==O_ZEXT) return zext(concat(h->k[0],l),w);
    if(h->op==O_ITE&&l->op==O_ITE&&h->k[0]==l->k[0]&&(isC(h->k[1])||isC(h->k[2]))) return ite(h->k[0],concat(h->k[1],l->k[1]),concat(h->k[2],l->k[2]));
    return raw(O_CONCAT,w,0,h,l); }
  Expr *zext(Expr*a,unsigned w){ if(w==a->w) return a; if(isC(a)) return cst(a->val,w); if(a->op==O_ZEXT) return zext(a->k[0],w);
    if(a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],zext(a->k[1],w),zext(a->k[2],w));
    return raw(O_ZEXT,w,0,a); }
  Expr *sext(Expr*a,unsigned w){ if(w==a->w) return a; if(isC(a)) return cst((uint64_t)sx(a->val,a->w),w);
    if(a->kz&(1ULL<<(a->w-1))) return zext(a,w);
    if(a->op==O_SEXT) return sext(a->k[0],w);
    if(a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],sext(a->k[1],w),sext(a->k[2],w));
    return raw(O_SEXT,w,0,a); }
  Expr *ite(Expr*c,Expr*t,Expr*f){
    if(isC(c)) return c->val?t:f; if(t==f) return t;
    if(Expr*n=notOf(c)) return ite(n,f,t);
    if(t->w==1){ if(isC(t,1)&&isC(f,0)) return c; if(isC(t,0)&&isC(f,1)) return bnot(c);
      if(isC(t,1)) return bin(O_OR,c,f); if(isC(t,0)) return bin(O_AND,bnot(c),f); if(isC(f,0)) return bin(O_AND,c,t); if(isC(f,1)) return bin(O_OR,bnot(c),t); }
    if(t->op==O_ITE&&t->k[0]==c) t=t->k[1]; if(f->op==O_ITE&&f->k[0]==c) f=f->k[2];
    if(t==f) return t;
    return raw(O_ITE,t->w,0,c,t,f); }
  Expr *fp(Op op,unsigned rw,Expr*a,Expr*b,uint64_t aux=0){
    if(isC(a)&&(!b||isC(b))){ return cst(fpEval(op,rw,aux,a->w,a->val,b?b->val:0),rw); }
    return raw(op,rw,aux,a,b); }
  static uint64_t fpEval(Op op,unsigned rw,uint64_t aux,unsigned w,uint64_t a,uint64_t b){
    switch(op){ case O_FOEQ: return gd(a,w)==gd(b,w); case O_FOLT: return gd(a,w)<gd(b,w); case O_FOLE: return gd(a,w)<=gd(b,w);
      case O_FUNO: { double x=gd(a,w),y=gd(b,w); return x!=x||y!=y; }
      case O_FADD: return w==64?frD(asD(a)+asD(b)):frF(asF(a)+asF(b)); case O_FSUB: return w==64?frD(asD(a)-asD(b)):frF(asF(a)-asF(b));
      case O_FMUL: return w==64?frD(asD(a)*asD(b)):frF(asF(a)*asF(b)); case O_FDIV: return w==64?frD(asD(a)/asD(b)):frF(asF(a)/asF(b));
      case O_SITOFP: return rw==64?frD((double)sx(a,w)):frF((float)sx(a,w)); case O_UITOFP: return rw==64?frD((double)a):frF((float)a);
      case O_FPTOSI: return (uint64_t)(int64_t)gd(a,w)&maskw(rw); case O_FPTOUI: return (uint64_t)gd(a,w)&maskw(rw);
      case O_FPCVT: return pd(gd(a,w),rw); default: abort(); } }

  // same operation on other operands
  Expr *rebuild(Expr*e,Expr*a,Expr*b,Expr*c){ if(a==e->k[0]&&b==e->k[1]&&c==e->k[2]) return e;
    switch(e->op){ case O_ITE: return ite(a,b,c); case O_CONCAT: return concat(a,b); case O_EXTRACT: return extract(a,e->val,e->w); case O_ZEXT: return zext(a,e->w); case O_SEXT: return sext(a,e->w);
      default: return e->op>=O_FOEQ?fp(e->op,e->w,a,b,e->val):bin(e->op,a,b); } }
  // evaluation under an assignment (missing variables are 0)
  uint64_t eval(Expr*e,const std::unordered_map<uint32_t,uint64_t>&m){
    if(e->op==O_CONST) return e->val;
    if(e->evEpoch==epoch) return e->ev;
    uint64_t r; 
    if(e->op==O_VAR){ auto it=m.find((uint32_t)e->val); r=it==m.end()?0:it->second; }
    else { 
      switch(e->op){
      case O_ITE: r=eval(e->k[0],m)?eval(e->k[1],m):eval(e->k[2],m); break;
      case O_CONCAT: r=(eval(e->k[0],m)<<e->k[1]->w)|eval(e->k[1],m); break;
      case O_EXTRACT: r=(eval(e->k[0],m)>>e->val)&maskw(e->w); break;
      case O_ZEXT: r=eval(e->k[0],m); break;
      case O_SEXT: r=(uint64_t)sx(eval(e->k[0],m),e->k[0]->w)&maskw(e->w); break;
      default:
        if(e->op>=O_FOEQ) r=fpEval(e->op,e->w,e->val,e->k[0]->w,eval(e->k[0],m),e->k[1]?eval(e->k[1],m):0);
        else { bool ok; uint64_t a=eval(e->k[0],m),b=eval(e->k[1],m); r=fold2(e->op,a,b,e->k[0]->w,ok); 
          if(!ok){ // SMT-LIB division by zero
            unsigned w=e->w; if(e->op==O_UDIV) r=maskw(w); else if(e->op==O_UREM||e->op==O_SREM) r=a; else r=sx(a,w)<0?1:maskw(w); } }
      } }
    e->ev=r; e->evEpoch=epoch; return r; }
};
