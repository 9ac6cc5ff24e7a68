// sphse: symbolic execution of LLVM IR with threads, deciding harness assertions with z3.
#include "ir.h"
#include <csignal>
#include <sys/resource.h>

struct Val { uint64_t c=0; Expr*e=nullptr; };

struct Page { int ref=1; bool hashed=false; uint64_t h=0; uint8_t d[4096]; Expr**s=nullptr;
  Page(){ memset(d,0,4096); } Page(const Page&o){ memcpy(d,o.d,4096); if(o.s){ s=new Expr*[4096]; memcpy(s,o.s,4096*sizeof(Expr*)); } } ~Page(){ delete[] s; } };

struct Frame { Fn*f; int pc; int base; uint64_t sp; int retReg; int retN; };
enum TS { T_RUN, T_DONE, T_JOIN, T_WAIT, T_SPIN };
struct Thread { std::vector<Frame> fr; std::vector<Val> regs; uint64_t sp=0; TS st=T_RUN; uint64_t wa=0,wv=0; bool gate=false; int atomic=0; bool opLogged=false;
  uint64_t own=0, mark=~0ULL; const void*lastIns=nullptr; int spins=0; uint64_t spinMark=0,spinKeys[8]={}; uint64_t retval=0; int joinTid=-1; };
typedef std::vector<std::pair<uint64_t,uint64_t>> Ranges;
template<class T> struct Cow { std::shared_ptr<T> p=std::make_shared<T>(); const T&r()const{return *p;} T&w(){ if(p.use_count()>1) p=std::make_shared<T>(*p); return *p; } };

struct State {
  std::unordered_map<uint64_t,Page*> pages; uint64_t lastPn=~0ULL; Page*lastPg=nullptr; bool lastW=false;
  std::vector<Thread> th; int cur=0; int alive=1;
  std::vector<Expr*> pc; std::unordered_set<Expr*> known; ModelP model; std::unordered_map<uint32_t,uint64_t> fixed; std::unordered_map<Expr*,uint64_t> fixedE; std::unordered_set<uint32_t> fixVars; uint64_t fixVer=0;
  Cow<std::map<std::string,int>> varN; std::vector<uint32_t> seq; std::vector<uint64_t> seqv; // creation order
  Cow<std::map<uint64_t,uint64_t>> heap; uint64_t heapTop=0x20000000; Cow<Ranges> maps, shared; Cow<std::set<uint64_t>> freed;
  std::vector<uint8_t> sched; int preempt=0; uint64_t wclock=0; uint64_t steps=0; int spinRetry=0; bool taint=false; unsigned depth=0; std::vector<std::string> notes;
  State(){} 
  State(const State&o)=default;
  void fixRefs(){ for(auto&p:pages) p.second->ref++; lastPn=~0ULL; }
  ~State(){ for(auto&p:pages) if(--p.second->ref==0) delete p.second; }
};

struct Viol { std::string kind,msg,where,replay; };

static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }

struct Engine {
  std::string tag; std::map<std::string,uint64_t> otherFails;
  ExprPool P; IR ir; Solver *sol=nullptr; std::vector<State*> work; std::vector<uint8_t> tlsInit;
  double deadline=0, t0=0; uint64_t stepLimit=20000000; int preemptBound=2; std::string outDir="."; std::string entry; unsigned maxViol=8; std::map<std::string,int64_t> params;
  uint64_t paths=0, forks=0, instrs=0, assertsChecked=0, assumes=0, killedAssume=0, dedup=0, schedPoints=0, switches=0, concForks=0, maxDepth=0; std::map<std::string,uint64_t> reach, incomplete; std::vector<Viol> viols; std::set<std::string> seenViol;
  std::unordered_map<uint64_t,int> visited; bool stopAll=false; std::set<std::string> realPrefix; uint64_t assertSym=0, sparseLoads=0;
  Engine():ir(P){}
  static constexpr uint64_t STK=0x7f0000000000ULL, STKSZ=16<<20, TLSB=0x7e0000000000ULL, TLSSZ=1<<20;

  // ---------- memory ----------
  Page*rd(State&S,uint64_t a){ uint64_t pn=a>>12; if(pn==S.lastPn) return S.lastPg; auto it=S.pages.find(pn); Page*p=it==S.pages.end()?nullptr:it->second; if(p){ S.lastPn=pn; S.lastPg=p; S.lastW=false; } return p; }
  Page*wr(State&S,uint64_t a){ uint64_t pn=a>>12; if(pn==S.lastPn&&S.lastW){ S.lastPg->hashed=false; return S.lastPg; } Page*&p=S.pages[pn]; if(!p) p=new Page(); else if(p->ref>1){ p->ref--; p=new Page(*p); } p->hashed=false; S.lastPn=pn; S.lastPg=p; S.lastW=true; return p; }
  bool valid(State&S,uint64_t a,uint64_t n){
    uint64_t e=a+n; if(e<a) return false;
    if(a>=STK){ uint64_t t=(a-STK)/STKSZ; if(t>=S.th.size()) return false; uint64_t top=STK+(t+1)*STKSZ; return a>=S.th[t].sp&&e<=top; }
    if(a>=TLSB){ uint64_t t=(a-TLSB)/TLSSZ; return t<S.th.size()&&e<=TLSB+t*TLSSZ+ir.tlsSize; }
    if(a>=IR::GBASE&&a<0x20000000){ auto it=std::upper_bound(ir.granges.begin(),ir.granges.end(),std::pair<uint64_t,uint64_t>(a,~0ULL)); if(it==ir.granges.begin()) return false; --it; return e<=it->second; }
    for(auto&r:S.maps.r()) if(a>=r.first&&e<=r.second) return true;
    auto&h=S.heap.r(); auto it=h.upper_bound(a); if(it==h.begin()) return false; --it; return e<=it->second; }
  Val load(State&S,uint64_t a,unsigned w,unsigned n){
    Val v; 
    if((a&4095)+n<=4096){ Page*p=rd(S,a); if(!p) return v; unsigned o=a&4095;
      if(!p->s){ uint64_t x=0; memcpy(&x,p->d+o,n); v.c=x&maskw(w); return v; }
      bool sy=false; for(unsigned i=0;i<n;i++) if(p->s[o+i]){sy=true;break;}
      if(!sy){ uint64_t x=0; memcpy(&x,p->d+o,n); v.c=x&maskw(w); return v; }
      Expr*e=nullptr; for(int i=n-1;i>=0;i--){ Expr*b=p->s[o+i]?p->s[o+i]:P.cst(p->d[o+i],8); e=e?P.concat(e,b):b; }
      return mk(S,w<n*8?P.extract(e,0,w):e); }
    Expr*e=nullptr; bool sy=false; uint64_t x=0; for(int i=n-1;i>=0;i--){ Page*p=rd(S,a+i); unsigned o=(a+i)&4095; Expr*b=nullptr; uint8_t c=0; if(p){ c=p->d[o]; if(p->s) b=p->s[o]; } if(b) sy=true; x=(x<<8)|c; if(!b) b=P.cst(c,8); e=e?P.concat(e,b):b; }
    if(!sy){ v.c=x&maskw(w); return v; } return mk(S,w<n*8?P.extract(e,0,w):e); }
  void store(State&S,uint64_t a,Val v,unsigned w,unsigned n){
    if(!v.e&&(a&4095)+n<=4096){ Page*p=wr(S,a); unsigned o=a&4095; memcpy(p->d+o,&v.c,n); if(p->s) memset(p->s+o,0,n*sizeof(Expr*)); return; }
    if(v.e&&w<n*8) v.e=P.zext(v.e,n*8);
    for(unsigned i=0;i<n;i++){ Page*p=wr(S,a+i); unsigned o=(a+i)&4095; if(v.e){ Expr*b=P.extract(v.e,i*8,8); if(b->op==O_CONST){ p->d[o]=b->val; if(p->s) p->s[o]=nullptr; } else { if(!p->s){ p->s=new Expr*[4096](); } p->s[o]=b; p->d[o]=0; } } else { p->d[o]=v.c>>(8*i); if(p->s) p->s[o]=nullptr; } } }
  void poke(State&S,uint64_t a,const uint8_t*b,size_t n){ while(n){ Page*p=wr(S,a); unsigned o=a&4095; size_t k=std::min<size_t>(n,4096-o); memcpy(p->d+o,b,k); if(p->s) memset(p->s+o,0,k*sizeof(Expr*)); a+=k; b+=k; n-=k; } }
  void copyMem(State&S,uint64_t d,uint64_t s,uint64_t n){ // memmove semantics
    std::vector<uint8_t> b(n); std::vector<Expr*> e; bool sy=false; for(uint64_t i=0;i<n;){ Page*p=rd(S,s+i); unsigned o=(s+i)&4095; uint64_t k=std::min<uint64_t>(n-i,4096-o); if(p){ memcpy(&b[i],p->d+o,k); if(p->s){ if(!sy){ e.assign(n,nullptr); sy=true; } memcpy(&e[i],p->s+o,k*sizeof(Expr*)); } } i+=k; }
    poke(S,d,b.data(),n); if(sy) for(uint64_t i=0;i<n;i++) if(e[i]){ Page*p=wr(S,d+i); if(!p->s) p->s=new Expr*[4096](); p->s[(d+i)&4095]=e[i]; } }
  std::string cstr(State&S,uint64_t a){ std::string r; for(int i=0;i<400;i++){ Page*p=rd(S,a+i); char c=p?p->d[(a+i)&4095]:0; if(!c) break; r+=c; } return r; }

  // ---------- values / solver ----------
  // substitute what the path condition fixes to constants
  Expr*rewrite(State&S,Expr*e){ if(e->op==O_CONST) return e; if(e->rwVer==S.fixVer) return e->rw; bool hit=false; for(auto x:*e->vars) if(S.fixVars.count(x)){ hit=true; break; } Expr*r=e;
    if(hit){ auto it=S.fixedE.find(e); if(it!=S.fixedE.end()) r=P.cst(it->second,e->w); else if(e->op==O_VAR){ auto j=S.fixed.find(e->val); if(j!=S.fixed.end()) r=P.cst(j->second,e->w); }
      else { Expr*k[3]={nullptr,nullptr,nullptr}; for(int i=0;i<3;i++) if(e->k[i]) k[i]=rewrite(S,e->k[i]); r=P.rebuild(e,k[0],k[1],k[2]); if(r!=e&&r->op!=O_CONST){ auto it2=S.fixedE.find(r); if(it2!=S.fixedE.end()) r=P.cst(it2->second,r->w); } } }
    e->rwVer=S.fixVer; e->rw=r; return r; }
  uint64_t verCounter=0;
  void fixVar(State&S,uint32_t v,uint64_t x){ S.fixed[v]=x; S.fixVars.insert(v); S.fixVer=++verCounter; }
  Val mk(State&S,Expr*e){ Val v; if(e->op==O_CONST){ v.c=e->val; return v; } 
    if(S.fixVer){ e=rewrite(S,e); if(e->op==O_CONST){ v.c=e->val; return v; } }
    v.e=e; return v; }
  Expr*ex(const Val&v,unsigned w){ return v.e?v.e:P.cst(v.c,w); }
  uint64_t evalM(State&S,Expr*e){ P.epoch++; return P.eval(e,*S.model); }
  std::vector<Expr*> slice(State&S,Expr*q){
    std::vector<Expr*> out; out.push_back(q); std::unordered_set<uint32_t> vs(q->vars->begin(),q->vars->end()); std::vector<char> used(S.pc.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<S.pc.size();i++) if(!used[i]){ bool hit=false; for(auto v:*S.pc[i]->vars) if(vs.count(v)){hit=true;break;} if(hit){ used[i]=1; ch=true; out.push_back(S.pc[i]); for(auto v:*S.pc[i]->vars) vs.insert(v); } } }
    return out; }
  // is pc && q satisfiable? on sat m = full model of the state extended with it
  int feas(State&S,Expr*q,ModelP&m,bool fork=false){
    if(q->op==O_CONST) { m=S.model; return q->val?1:0; }
    auto cs=slice(S,q); ModelP sm; int r=sol->check(cs,sm,fork); if(r==1){ m=std::make_shared<Model>(*S.model); for(auto*c:cs) for(auto v:*c->vars){ auto it=sm->find(v); (*m)[v]=it==sm->end()?0:it->second; } }
    if(r<0) incomplete["solver gave no answer within its time limit"]++;
    return r; }
  void addC(State&S,Expr*c){
    if(c->op==O_CONST) return; if(S.known.count(c)) return; S.known.insert(c);
    if(c->w==1&&c->op==O_AND){ addC(S,c->k[0]); addC(S,c->k[1]); return; }
    if(Expr*n=P.notOf(c)) if(n->op==O_OR){ addC(S,P.bnot(n->k[0])); addC(S,P.bnot(n->k[1])); return; }
    S.pc.push_back(c);
    if(c->op==O_EQ&&c->k[1]->op==O_CONST) learn(S,c->k[0],c->k[1]->val);
    else if(c->op==O_VAR) fixVar(S,c->val,1); else if(Expr*n=P.notOf(c)) if(n->op==O_VAR) fixVar(S,n->val,0); }
  void learn(State&S,Expr*x,uint64_t v){ if(x->op==O_VAR){ fixVar(S,x->val,v); } else if(x->op==O_CONCAT){ learn(S,x->k[0],v>>x->k[1]->w); learn(S,x->k[1],v&maskw(x->k[1]->w)); } else if(x->op==O_ZEXT||x->op==O_SEXT) learn(S,x->k[0],v&maskw(x->k[0]->w));  else { S.fixedE[x]=v; for(auto q:*x->vars) S.fixVars.insert(q); S.fixVer=++verCounter; } }
  State*clone(State&S){ State*n=new State(S); S.lastPn=~0ULL; n->fixRefs(); forks++; n->depth++; S.depth++; if(S.depth>maxDepth) maxDepth=S.depth; return n; }
  bool decide(State&S,Expr*c){
    if(c->op==O_CONST) return c->val;
    { Val v=mk(S,c); if(!v.e) return v.c; }
    Expr*nc=P.bnot(c); if(S.known.count(c)) return true; if(S.known.count(nc)) return false;
    bool d=evalM(S,c); Expr*take=d?c:nc,*oth=d?nc:c; ModelP m; int r=feas(S,oth,m,true);
    if(r==1){ State*n=clone(S); addC(*n,oth); n->model=m; work.push_back(n); addC(S,take); }
    else if(r==0) S.known.insert(take); else addC(S,take);
    return d; }
  uint64_t conc(State&S,Val v){ if(!v.e) return v.c; v=mk(S,v.e); if(!v.e) return v.c; uint64_t x=evalM(S,v.e); Expr*eq=P.bin(O_EQ,v.e,P.cst(x,v.e->w)); concForks++; bool r=decide(S,eq); (void)r; 
    // model satisfies eq, so this state takes it; remember the implied equality
    learn(S,v.e,x); if(!S.known.count(eq)) S.known.insert(eq); return x; }

  // A load at a symbolic address of mostly empty mapped storage: a choice among its non-zero words, zero elsewhere.
  bool sparseLoad(State&S,Val av,uint64_t imm,unsigned w,unsigned n,Val&out){
    if(S.alive>=2||n>8) return false; Expr*a=mk(S,P.bin(O_ADD,av.e,P.cst(imm,64))).e; if(!a) return false; unsigned k=0; uint64_t low=0;
    for(unsigned b=12;b>=6&&!k;b--){ Expr*t=P.extract(a,0,b); if(t->op==O_CONST){ k=b; low=t->val; } } if(!k||low+n>(1ull<<k)) return false;
    Expr*in=nullptr; for(auto&r:S.maps.r()){ Expr*c=P.bin(O_AND,P.bnot(P.bin(O_ULT,a,P.cst(r.first,64))),P.bnot(P.bin(O_ULT,P.cst(r.second-n,64),a))); in=in?P.bin(O_OR,in,c):c; } if(!in) return false;
    std::vector<uint64_t> cand; uint64_t st=1ull<<k;
    for(auto&p:S.pages){ uint64_t b=p.first<<12; bool m=false; for(auto&r:S.maps.r()) if(b>=r.first&&b<r.second) m=true; if(!m) continue;
      for(uint64_t o=low;o+n<=4096;o+=st){ bool nz=false; for(unsigned i=0;i<n;i++) if(p.second->d[o+i]||(p.second->s&&p.second->s[o+i])) nz=true; if(nz) cand.push_back(b+o); } }
    if(cand.size()>256) return false;
    if(!decide(S,in)) return false;
    std::sort(cand.begin(),cand.end()); Expr*e=P.cst(0,w); for(auto c:cand){ Val v=load(S,c,w,n); e=P.ite(P.bin(O_EQ,a,P.cst(c,64)),ex(v,w),e); }
    out=mk(S,e); sparseLoads++; return true; }

  // ---------- violations ----------
  std::string where(State&S){ Thread&t=S.th[S.cur]; std::string s; for(int i=(int)t.fr.size()-1;i>=0&&i>(int)t.fr.size()-5;i--){ auto&f=t.fr[i]; if(!s.empty()) s+=" < "; s+=f.f->name; if(f.pc<(int)f.f->code.size()) if(auto*I=f.f->code[f.pc].src) if(auto&dl=I->getDebugLoc()) s+=":"+std::to_string(dl.getLine()); } return s; }
  std::string fnName(State&S){ auto&t=S.th[S.cur]; return t.fr.empty()?"?":t.fr.back().f->name; }
  void writeTrace(const std::string&fn,const std::string&kind,const std::string&msg,const std::string&wh,State&S,ModelP m){ FILE*f=fopen(fn.c_str(),"w"); if(f){ fprintf(f,"case %s\nkind %s\nmsg %s\nwhere %s\n",entry.c_str(),kind.c_str(),msg.c_str(),wh.c_str()); for(size_t i=0;i<S.seq.size();i++){ uint64_t x; if(S.seq[i]==~0u) x=S.seqv[i]; else { auto it=m->find(S.seq[i]); x=(it==m->end()?0:it->second)+S.seqv[i]; } fprintf(f,"var %s %llu\n",S.seq[i]==~0u?"choice":P.varName[S.seq[i]].c_str(),(unsigned long long)x); } if(!S.sched.empty()){ fprintf(f,"sched"); for(auto q:S.sched) fprintf(f," %d",q); fprintf(f,"\n"); } fclose(f); } }
  unsigned witMax=0; uint64_t witNext=1; std::vector<std::string> wits;
  void pathDone(State&S){ paths++; if(wits.size()<witMax&&paths>=witNext){ witNext=paths*4; std::string fn=outDir+"/"+entry+".w"+std::to_string(wits.size())+".replay"; writeTrace(fn,"witness","","",S,S.model); wits.push_back(fn); } }
  void violation(State&S,const std::string&kind,const std::string&msg,ModelP m,bool hang=false){ if(S.taint&&kind!="assert") return;
    std::string key=kind+"|"+msg; if(seenViol.count(key)) return; if(viols.size()>=maxViol){ stopAll=true; return; } seenViol.insert(key);
    Viol v; v.kind=kind; v.msg=msg; v.where=where(S); v.replay=outDir+"/"+entry+"."+std::to_string(viols.size())+".replay";
    writeTrace(v.replay,kind,msg,v.where,S,m);
    viols.push_back(v); if(viols.size()>=maxViol) stopAll=true; }
  struct Kill{}; 
  [[noreturn]] void kill(){ throw Kill(); }
  [[noreturn]] void fail(State&S,const std::string&kind,const std::string&msg){ violation(S,kind,msg,S.model); paths++; kill(); }
  [[noreturn]] void inc(State&S,const std::string&why){ incomplete[why]++; kill(); }
  void chk(State&S,uint64_t a,uint64_t n,const char*what){ if(!valid(S,a,n)){ char b[200]; snprintf(b,200,"invalid %s of %llu bytes in %s",what,(unsigned long long)n,fnName(S).c_str()); fail(S,"memory",b); } }

  // ---------- threads ----------
  bool isShared(State&S,uint64_t a,uint64_t n){ for(auto&r:S.shared.r()) if(a<r.second&&a+n>r.first) return true; return false; }
  bool runnable(State&S,int t){ Thread&T=S.th[t]; switch(T.st){ case T_RUN: return true; case T_DONE: return false;
      case T_JOIN: if(T.joinTid>=0) return S.th[T.joinTid].st==T_DONE; for(size_t i=0;i<S.th.size();i++) if((int)i!=t&&S.th[i].st!=T_DONE) return false; return true;
      case T_WAIT: { Val v=load(S,T.wa,32,4); return v.e||v.c!=T.wv; }
      case T_SPIN: return S.wclock-T.own!=T.mark; } return false; }
  static uint64_t mix(uint64_t h,uint64_t x){ h^=x+0x9E3779B97F4A7C15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; return h^(h>>31); }
  uint64_t pageHash(const uint8_t*d,Expr**s,unsigned from){ uint64_t h=1469598103934665603ULL; for(unsigned i=from&~7u;i<4096;i+=8){ uint64_t x; memcpy(&x,d+i,8); h=(h^x)*0x9E3779B97F4A7C15ULL; h^=h>>29; } if(s) for(unsigned i=from;i<4096;i++) if(s[i]) h=mix(h,((uint64_t)i<<32)|s[i]->id); return h; }
  uint64_t hashState(State&S){ uint64_t H=0;
    for(auto&p:S.pages){ uint64_t a=p.first<<12; uint64_t ph; if(a>=STK){ uint64_t t=(a-STK)/STKSZ; uint64_t sp=t<S.th.size()?S.th[t].sp:0; if(a+4096<=sp) continue; if(a<sp){ ph=pageHash(p.second->d,p.second->s,(sp-a)&~7ULL); H+=mix(p.first,ph); continue; } }
      if(!p.second->hashed){ p.second->h=pageHash(p.second->d,p.second->s,0); p.second->hashed=true; } H+=mix(p.first,p.second->h); }
    for(size_t i=0;i<S.th.size();i++){ auto&T=S.th[i]; uint64_t h=i*77+T.st; if(T.st==T_DONE){ H+=mix(5,h); continue; } h=mix(h,T.sp); h=mix(h,T.wa); h=mix(h,T.wv); h=mix(h,T.gate*2+(T.st==T_SPIN&&S.wclock-T.own!=T.mark)); h=mix(h,T.atomic); for(auto&f:T.fr){ h=mix(h,f.f->id); h=mix(h,f.pc); } for(auto&r:T.regs) h=mix(h,r.e?((uint64_t)r.e->id<<20|7):r.c); H+=h*0x9E3779B97F4A7C15ULL; }
    uint64_t ph=0; for(auto*c:S.pc) ph+=mix(3,c->id); H=mix(H,ph); H=mix(H,S.cur); H=mix(H,S.heapTop); return H; }
  void seen(State&S){ schedPoints++; uint64_t h=hashState(S); auto it=visited.find(h); if(it!=visited.end()&&it->second>=S.preempt){ dedup++; paths++; kill(); } visited[h]=S.preempt; }
  void pushSwitch(State&S,int t,int cost){ State*n=clone(S); n->cur=t; n->preempt-=cost; auto&T=n->th[t]; if(T.st!=T_RUN) T.st=T_RUN; T.gate=true; work.push_back(n); switches++; }
  void freeSwitch(State&S,bool incSelf){ // choose any runnable thread
    int self=S.cur; std::vector<int> c; if(incSelf&&runnable(S,self)) c.push_back(self); for(size_t i=0;i<S.th.size();i++) if((int)i!=self&&runnable(S,i)) c.push_back(i);
    if(c.empty()){ if(runnable(S,self)){ c.push_back(self);} else {
        bool spin=false; for(auto&T:S.th) if(T.st==T_SPIN) spin=true;
        if(spin&&S.spinRetry<1){ S.spinRetry++; for(size_t i=0;i<S.th.size();i++) if(S.th[i].st==T_SPIN){ S.th[i].mark=~0ULL; c.push_back(i);} }
        else { fail(S,spin?"livelock":"deadlock",spin?"threads spin for ever without progress":"every thread is blocked"); } } }
    seen(S);
    for(size_t i=1;i<c.size();i++) pushSwitch(S,c[i],0);
    int t=c[0]; S.cur=t; auto&T=S.th[t]; if(T.st!=T_RUN) T.st=T_RUN; T.gate=true; }
  // called before a visible operation of the current thread; returns normally if it may execute now
  void visible(State&S,uint64_t a,uint64_t n,bool atomic,bool force=false){
    if(S.alive<2) return; Thread&T=S.th[S.cur]; if(!force&&!atomic&&!isShared(S,a,n)) return;
    if(T.atomic) return;
    if(!T.gate){ if(S.preempt>0){ std::vector<int> o; for(size_t i=0;i<S.th.size();i++) if((int)i!=S.cur&&runnable(S,i)) o.push_back(i); if(!o.empty()){ seen(S); for(int t:o) pushSwitch(S,t,1); } } S.th[S.cur].gate=true; }
    }
  void logOp(State&S){ if(S.alive<2) return; Thread&T=S.th[S.cur]; if(T.atomic) return; S.sched.push_back(S.cur); T.gate=false; }
  bool vis(State&S,uint64_t a,uint64_t n,bool atomic){ return S.alive>=2&&(atomic||isShared(S,a,n)); }
  void wrote(State&S){ S.wclock++; S.th[S.cur].own++; S.spinRetry=0; }
  // spin detection: repeated identical read with no change
  bool spinCheck(State&S,const void*ins,uint64_t a,uint64_t v){ Thread&T=S.th[S.cur]; uint64_t ow=S.wclock-T.own; if(!T.lastIns||T.spinMark!=ow) T.spins=0; T.lastIns=ins; T.spinMark=ow;
    // the same access with the same outcome in the same thread state, and nothing written in between: a cycle
    uint64_t h=mix(mix(T.sp,(uint64_t)(uintptr_t)ins),mix(a,v)); for(auto&f:T.fr) h=mix(h,(uint64_t)f.pc*31+f.f->id); for(auto&r:T.regs) h=mix(h,r.e?((uint64_t)r.e->id<<20|7):r.c);
    int n=std::min(T.spins,8); for(int i=0;i<n;i++) if(T.spinKeys[i]==h){ T.spins=0; T.lastIns=nullptr; return true; }
    T.spinKeys[T.spins%8]=h; T.spins++; return false; }
  void yieldNow(State&S){ Thread&T=S.th[S.cur]; if(S.alive<2||T.atomic) return; uint64_t ow=S.wclock-T.own; if(T.mark==ow){ T.st=T_SPIN; freeSwitch(S,false); } else { T.mark=ow; freeSwitch(S,true); } }

  // ---------- calls ----------
  void enter(State&S,Thread&T,Fn*f,const std::vector<Val>&av,int retReg,int retN){
    if(T.fr.size()>400) fail(S,"stack","calls nest without end in "+f->name); ensure(f); f->calls++;
    Frame n{f,0,(int)T.regs.size(),T.sp,retReg,retN}; T.regs.resize(n.base+f->nslots); for(size_t i=0;i<f->argSlot.size()&&i<av.size();i++) T.regs[n.base+f->argSlot[i]]=av[i]; T.fr.push_back(n); }
  std::unordered_set<Fn*> done; void ensure(Fn*f){ if(done.insert(f).second) ir.translate(*f); }
  void initThread(State&S,int tid){ Thread&T=S.th[tid]; T.sp=STK+(tid+1)*STKSZ-64; if(ir.tlsSize) poke(S,TLSB+tid*TLSSZ,tlsInit.data(),tlsInit.size()); }

  uint64_t doMalloc(State&S,uint64_t n,bool zero){ if(n>(1ULL<<28)) return 0; uint64_t a=S.heapTop; S.heapTop+=((n+15)&~15ULL)+32; S.heap.w()[a]=a+n; if(!zero&&n<=65536){ std::vector<uint8_t> b(n,0xA5); poke(S,a,b.data(),n); } return a; }
  Expr*newVar(State&S,const std::string&nm,unsigned w){ int k=S.varN.w()[nm]++; std::string full=nm+"#"+std::to_string(k); static std::map<std::string,Expr*> tab; Expr*&e=tab[full+"/"+std::to_string(w)]; if(!e) e=P.var(full,w); S.seq.push_back(e->val); S.seqv.push_back(0); S.model=std::make_shared<Model>(*S.model); (*S.model)[e->val]=0; return e; }
  void assume(State&S,Expr*c){ Val v=mk(S,c); if(!v.e){ if(!v.c){ killedAssume++; kill(); } return; } assumes++;
    if(evalM(S,c)){ addC(S,c); return; } ModelP m; int r=feas(S,c,m); if(r==1){ addC(S,c); S.model=m; return; } if(r==0) killedAssume++; kill(); }

  void step(State&S); void run(State*S); void intr(State&S,Thread&T,Frame&F,Ins&x); bool native(State&S,Thread&T,Fn*f,Ins&x,std::vector<Val>&av,Val&ret);
  std::map<std::string,int> natIx; 
  int main2(int argc,char**argv); void stats(const std::string&f,bool complete);
};

enum Nat { NA_none, NA_malloc=1, NA_calloc, NA_free, NA_realloc, NA_memcpy, NA_memmove, NA_memset, NA_abort, NA_exit, NA_assertfail, NA_ignore0, NA_yield, NA_memcmp,
  NA_se_int, NA_se_bytes, NA_se_range, NA_se_choose, NA_se_conc, NA_se_assume, NA_se_assert, NA_se_reach, NA_se_map, NA_se_zero, NA_se_unmap, NA_se_spawn, NA_se_join, NA_se_abegin, NA_se_aend, NA_se_tid, NA_se_shared, NA_se_unshare, NA_se_param, NA_se_wait, NA_se_issym, NA_se_valid, NA_se_done, NA_se_note, NA_se_preempt, NA_se_feasible, NA_se_stop, NA_se_visible };
static const std::map<std::string,int> NATS={
 {"malloc",NA_malloc},{"_Znwm",NA_malloc},{"_Znam",NA_malloc},{"calloc",NA_calloc},{"free",NA_free},{"_ZdlPv",NA_free},{"_ZdaPv",NA_free},{"_ZdlPvm",NA_free},{"realloc",NA_realloc},{"memcpy",NA_memcpy},{"memmove",NA_memmove},{"memset",NA_memset},
 {"abort",NA_abort},{"exit",NA_exit},{"_exit",NA_exit},{"__assert_fail",NA_assertfail},{"printf",NA_ignore0},{"puts",NA_ignore0},{"putchar",NA_ignore0},{"fprintf",NA_ignore0},{"fputs",NA_ignore0},{"fputc",NA_ignore0},{"fwrite",NA_ignore0},{"fflush",NA_ignore0},{"perror",NA_ignore0},{"sas_printf",NA_ignore0},{"sas_perror",NA_ignore0},{"vfprintf",NA_ignore0},{"vprintf",NA_ignore0},{"__cxa_atexit",NA_ignore0},{"atexit",NA_ignore0},
 {"sched_yield",NA_yield},{"usleep",NA_yield},{"sleep",NA_yield},{"nanosleep",NA_yield},{"se_pause",NA_yield},{"se_yield",NA_yield},
 {"se_u64",NA_se_int},{"se_u32",NA_se_int},{"se_u16",NA_se_int},{"se_u8",NA_se_int},{"se_bool",NA_se_int},{"se_bytes",NA_se_bytes},{"se_range",NA_se_range},{"se_choose",NA_se_choose},{"se_concretize",NA_se_conc},{"se_assume",NA_se_assume},{"se_assert",NA_se_assert},{"se_reach",NA_se_reach},{"se_map",NA_se_map},{"se_zero",NA_se_zero},{"se_unmap",NA_se_unmap},{"se_spawn",NA_se_spawn},{"se_join",NA_se_join},{"se_join_all",NA_se_join},{"se_atomic_begin",NA_se_abegin},{"se_atomic_end",NA_se_aend},{"se_tid",NA_se_tid},{"se_shared",NA_se_shared},{"se_unshare",NA_se_unshare},{"se_param",NA_se_param},{"se_wait_ne",NA_se_wait},{"se_is_symbolic",NA_se_issym},{"se_valid",NA_se_valid},{"se_done",NA_se_done},{"se_note",NA_se_note},{"se_feasible",NA_se_feasible} };

void Engine::intr(State&S,Thread&T,Frame&F,Ins&x){
  auto get=[&](int op)->Val{ return op>=0?T.regs[F.base+op]:Val{ir.consts[~op],nullptr}; };
  auto A=[&](int i){ return get(ir.args[x.x+i]); }; unsigned w=x.w; auto set=[&](int k,Val v){ if(x.dst>=0) T.regs[F.base+x.dst+k]=v; };
  auto bin=[&](Op o,Val a,Val b){ return mk(S,P.bin(o,ex(a,w),ex(b,w))); };
  switch(x.sub){
  case N_memcpy: case N_memmove: case N_memset: {
    uint64_t d=conc(S,A(0)),n=conc(S,A(2)); if(!n) break;
    if(n>(1ULL<<26)) { chk(S,d,n,"write"); inc(S,"huge memory operation"); }
    if(x.sub==N_memset){ Val v=A(1); chk(S,d,n,"write"); visible(S,d,n,false); bool vv=vis(S,d,n,false); if(v.e){ for(uint64_t i=0;i<n;i++) store(S,d+i,v,8,1); } else { std::vector<uint8_t> b(n,v.c); poke(S,d,b.data(),n);} if(vv){ wrote(S); logOp(S);} }
    else { uint64_t s=conc(S,A(1)); chk(S,d,n,"write"); chk(S,s,n,"read"); bool vv=vis(S,d,n,false)||vis(S,s,n,false); if(vv) visible(S,d,n,false,true); if(x.sub==N_memcpy&&d<s+n&&s<d+n&&d!=s){ fail(S,"memory","overlapping memcpy in "+fnName(S)); } copyMem(S,d,s,n); if(vv){ wrote(S); logOp(S); } }
    break; }
  case N_bswap: { Expr*e=ex(A(0),w); Expr*r=nullptr; for(unsigned i=0;i<w/8;i++){ Expr*b=P.extract(e,i*8,8); r=r?P.concat(r,b):b; } set(0,mk(S,r)); break; }
  case N_ctpop: { Val a=A(0); if(!a.e){ set(0,{(uint64_t)__builtin_popcountll(a.c)}); break; } Expr*r=P.cst(0,w); for(unsigned i=0;i<w;i++) r=P.bin(O_ADD,r,P.zext(P.extract(a.e,i,1),w)); set(0,mk(S,r)); break; }
  case N_ctlz: case N_cttz: { Val a=A(0); if(!a.e){ uint64_t r; if(!a.c) r=w; else r=x.sub==N_ctlz?(uint64_t)(__builtin_clzll(a.c)-(64-w)):(uint64_t)__builtin_ctzll(a.c); set(0,{r}); break; }
    Expr*r=P.cst(w,w); if(x.sub==N_cttz) for(int i=w-1;i>=0;i--) r=P.ite(P.extract(a.e,i,1),P.cst(i,w),r); else for(unsigned i=0;i<w;i++) r=P.ite(P.extract(a.e,i,1),P.cst(w-1-i,w),r); set(0,{conc(S,mk(S,r))}); break; } // one path per position: shifts and loop bounds stay concrete
  case N_umin: case N_umax: case N_smin: case N_smax: { Expr*a=ex(A(0),w),*b=ex(A(1),w); Expr*lt=P.bin(x.sub==N_umin||x.sub==N_umax?O_ULT:O_SLT,a,b); bool mn=x.sub==N_umin||x.sub==N_smin; set(0,mk(S,P.ite(lt,mn?a:b,mn?b:a))); break; }
  case N_abs: { Expr*a=ex(A(0),w); set(0,mk(S,P.ite(P.bin(O_SLT,a,P.cst(0,w)),P.bin(O_SUB,P.cst(0,w),a),a))); break; }
  case N_fshl: case N_fshr: { Expr*a=ex(A(0),w),*b=ex(A(1),w); uint64_t s=conc(S,A(2))%w; Expr*r; if(!s) r=x.sub==N_fshl?a:b; else if(x.sub==N_fshl) r=P.bin(O_OR,P.bin(O_SHL,a,P.cst(s,w)),P.bin(O_LSHR,b,P.cst(w-s,w))); else r=P.bin(O_OR,P.bin(O_SHL,a,P.cst(w-s,w)),P.bin(O_LSHR,b,P.cst(s,w))); set(0,mk(S,r)); break; }
  case N_uaddo: case N_usubo: case N_umulo: case N_saddo: case N_ssubo: case N_smulo: { Val a=A(0),b=A(1); Op o=x.sub==N_uaddo||x.sub==N_saddo?O_ADD:x.sub==N_usubo||x.sub==N_ssubo?O_SUB:O_MUL; Expr*ea=ex(a,w),*eb=ex(b,w); Expr*r=P.bin(o,ea,eb); Expr*ov;
    if(x.sub==N_uaddo) ov=P.bin(O_ULT,r,ea); else if(x.sub==N_usubo) ov=P.bin(O_ULT,ea,eb);
    else if(x.sub==N_saddo) ov=P.extract(P.bin(O_AND,P.bin(O_XOR,r,ea),P.bin(O_XOR,r,eb)),w-1,1); else if(x.sub==N_ssubo) ov=P.extract(P.bin(O_AND,P.bin(O_XOR,ea,eb),P.bin(O_XOR,r,ea)),w-1,1);
    else { if(w>32||x.sub==N_smulo){ if(!a.e&&!b.e){ unsigned __int128 p=(unsigned __int128)a.c*b.c; ov=P.cst(p>maskw(w),1); if(x.sub==N_smulo){ __int128 q=(__int128)sx(a.c,w)*sx(b.c,w); ov=P.cst(q!=sx((uint64_t)q,w),1);} }
        else if(x.sub==N_umulo&&!b.e&&b.c) ov=P.bin(O_ULT,P.cst(maskw(w)/b.c,w),ea); else if(x.sub==N_umulo&&!a.e&&a.c) ov=P.bin(O_ULT,P.cst(maskw(w)/a.c,w),eb); else if(x.sub==N_umulo&&((!a.e&&!a.c)||(!b.e&&!b.c))) ov=P.cst(0,1); else inc(S,"symbolic overflow multiply"); }
      else { Expr*p=P.bin(O_MUL,P.zext(ea,64),P.zext(eb,64)); ov=P.bin(O_ULT,P.cst(maskw(w),64),p); } }
    set(0,mk(S,r)); set(1,mk(S,ov)); break; }
  case N_uaddsat: { Expr*a=ex(A(0),w),*b=ex(A(1),w); Expr*r=P.bin(O_ADD,a,b); set(0,mk(S,P.ite(P.bin(O_ULT,r,a),P.cst(~0ULL,w),r))); break; }
  case N_usubsat: { Expr*a=ex(A(0),w),*b=ex(A(1),w); set(0,mk(S,P.ite(P.bin(O_ULT,a,b),P.cst(0,w),P.bin(O_SUB,a,b)))); break; }
  case N_trap: fail(S,"trap","trap in "+fnName(S));
  case N_objsize: set(0,{~0ULL}); break;
  case N_isconst: set(0,{0}); break;
  case N_expect: set(0,A(0)); break;
  case N_fabs: { Val a=A(0); if(a.e) set(0,mk(S,P.bin(O_AND,a.e,P.cst(maskw(w-1),w)))); else set(0,{a.c&maskw(w-1)}); break; }
  case N_fmuladd: { Expr*m=P.fp(O_FMUL,w,ex(A(0),w),ex(A(1),w)); set(0,mk(S,P.fp(O_FADD,w,m,ex(A(2),w)))); break; }
  default: inc(S,"unsupported intrinsic"); }
  (void)bin; }

bool Engine::native(State&S,Thread&T,Fn*f,Ins&x,std::vector<Val>&av,Val&ret){
  auto it=NATS.find(f->name); if(it==NATS.end()) return false; auto A=[&](size_t i){ return i<av.size()?av[i]:Val{}; };
  ret=Val{};
  switch(it->second){
  case NA_malloc: { uint64_t n=conc(S,A(0)); ret.c=doMalloc(S,n,false); break; }
  case NA_calloc: { uint64_t n=conc(S,A(0)),m=conc(S,A(1)); ret.c=doMalloc(S,n*m,true); break; }
  case NA_realloc: { uint64_t p=conc(S,A(0)),n=conc(S,A(1)); uint64_t q=doMalloc(S,n,false); if(p){ auto j=S.heap.r().find(p); if(j==S.heap.r().end()) fail(S,"memory","realloc of a non-heap pointer"); copyMem(S,q,p,std::min(n,j->second-p)); S.heap.w().erase(p);} ret.c=q; break; }
  case NA_free: { uint64_t p=conc(S,A(0)); if(p){ auto j=S.heap.r().find(p); if(j==S.heap.r().end()) fail(S,"memory","invalid or double free in "+fnName(S)); S.heap.w().erase(p);} break; }
  case NA_memcpy: case NA_memmove: { uint64_t d=conc(S,A(0)),s=conc(S,A(1)),n=conc(S,A(2)); if(n){ chk(S,d,n,"write"); chk(S,s,n,"read"); bool vv=vis(S,d,n,false)||vis(S,s,n,false); if(vv) visible(S,d,n,false,true); copyMem(S,d,s,n); if(vv){ wrote(S); logOp(S);} } ret.c=d; break; }
  case NA_memset: { uint64_t d=conc(S,A(0)),n=conc(S,A(2)); if(n){ chk(S,d,n,"write"); visible(S,d,n,false); bool vv=vis(S,d,n,false); Val v=A(1); if(v.e) { v=mk(S,P.extract(v.e,0,8)); } if(v.e) for(uint64_t i=0;i<n;i++) store(S,d+i,v,8,1); else { std::vector<uint8_t> b(n,v.c); poke(S,d,b.data(),n);} if(vv){ wrote(S); logOp(S);} } ret.c=d; break; }
  case NA_abort: fail(S,"abort","abort called from "+fnName(S));
  case NA_assertfail: fail(S,"abort","assertion in code failed in "+fnName(S));
  case NA_exit: paths++; kill();
  case NA_ignore0: break;
  case NA_yield: if(S.alive>=2){ T.fr.back().pc++; Thread*t=&S.th[S.cur]; if(x.dst>=0) t->regs[t->fr.back().base+x.dst]=Val{}; yieldNow(S); throw (int)1; } break;
  case NA_se_int: { unsigned w=f->name=="se_u64"?64:f->name=="se_u32"?32:f->name=="se_u16"?16:f->name=="se_bool"?1:8; Expr*e=newVar(S,cstr(S,conc(S,A(0))),w); if(w==1) e=P.zext(e,8); ret=mk(S,e); break; }
  case NA_se_bytes: { uint64_t p=conc(S,A(0)),n=conc(S,A(1)); std::string nm=cstr(S,conc(S,A(2))); chk(S,p,n,"write"); for(uint64_t i=0;i<n;i++){ Expr*e=newVar(S,nm,8); Val v; v.e=e; store(S,p+i,v,8,1);} break; }
  case NA_se_range: { std::string nm=cstr(S,conc(S,A(0))); Val lo=A(1),hi=A(2); 
      if(!lo.e&&!hi.e&&lo.c==hi.c){ S.seq.push_back(~0u); S.seqv.push_back(lo.c); ret.c=lo.c; break; }
      if(!lo.e&&!hi.e&&lo.c<hi.c){ uint64_t d=hi.c-lo.c; unsigned nb=64-__builtin_clzll(d); // narrow variable: lo + zext(v)
        Expr*v=newVar(S,nm,nb); S.seqv.back()=lo.c; if(d!=maskw(nb)) addC(S,P.bin(O_ULE,v,P.cst(d,nb))); ret=mk(S,P.bin(O_ADD,P.zext(v,64),P.cst(lo.c,64))); break; }
      Expr*e=newVar(S,nm,64); assume(S,P.bin(O_ULE,ex(lo,64),e)); assume(S,P.bin(O_ULE,e,ex(hi,64))); ret=mk(S,e); break; }
  case NA_se_choose: { uint64_t n=conc(S,A(1)); if(!n) kill(); // fork n ways
      for(uint64_t i=n-1;i>=1;i--){ State*q=clone(S); Thread&Q=q->th[q->cur]; q->seq.push_back(~0u); q->seqv.push_back(i); if(x.dst>=0) Q.regs[Q.fr.back().base+x.dst]=Val{i}; Q.fr.back().pc++; work.push_back(q); }
      S.seq.push_back(~0u); S.seqv.push_back(0); ret.c=0; break; }
  case NA_se_conc: ret.c=conc(S,A(0)); break;
  case NA_se_assume: { Val v=A(0); if(v.e) assume(S,P.bnot(P.bin(O_EQ,v.e,P.cst(0,v.e->w)))); else if(!v.c){ killedAssume++; kill(); } break; }
  case NA_se_assert: { Val v=A(0); uint64_t mp=A(1).c;
      if(!tag.empty()){ std::string ms=cstr(S,mp); size_t e; if(!ms.empty()&&ms[0]=='['&&(e=ms.find(']'))!=std::string::npos&&ms.substr(0,e).find(tag)==std::string::npos){ if(!v.e&&!v.c){ S.taint=true; otherFails[ms]++; } break; } }
      assertsChecked++; if(v.e) v=mk(S,v.e); if(!v.e){ if(!v.c) fail(S,"assert",cstr(S,mp)); break; } assertSym++;
      Expr*c=P.bnot(P.bin(O_EQ,v.e,P.cst(0,v.e->w))); if(c->op==O_CONST){ if(!c->val) fail(S,"assert",cstr(S,mp)); break; } if(S.known.count(c)) break;
      ModelP m; int r=feas(S,P.bnot(c),m); if(r==1){ violation(S,"assert",cstr(S,mp),m); assume(S,c); } else if(r==0) S.known.insert(c); else addC(S,c);
      break; }
  case NA_se_feasible: { Val v=A(0); if(!v.e){ ret.c=v.c!=0; break; } ModelP m; ret.c=feas(S,P.bnot(P.bin(O_EQ,v.e,P.cst(0,v.e->w))),m)==1; break; }
  case NA_se_reach: reach[cstr(S,A(0).c)]++; break;
  case NA_se_note: break;
  case NA_se_map: { uint64_t a=conc(S,A(0)),n=conc(S,A(1)); auto&m=S.maps.w(); uint64_t lo=a,hi=a+n; Ranges o; for(auto&r:m){ if(r.second<lo||r.first>hi) o.push_back(r); else { lo=std::min(lo,r.first); hi=std::max(hi,r.second); } } o.push_back({lo,hi}); m=o; break; }
  case NA_se_zero: { uint64_t a=conc(S,A(0)),n=conc(S,A(1)); S.lastPn=~0ULL; std::vector<uint64_t> del; for(auto&p:S.pages){ uint64_t b=p.first<<12; if(b>=a&&b+4096<=a+n) del.push_back(p.first); } for(auto d:del){ Page*p=S.pages[d]; if(--p->ref==0) delete p; S.pages.erase(d); }
      uint8_t z[4096]={0}; uint64_t e=a+n; if(a&4095) poke(S,a,z,std::min<uint64_t>(4096-(a&4095),n)); if((e&4095)&&(e&~4095ULL)>=a) poke(S,e&~4095ULL,z,e&4095); break; }
  case NA_se_unmap: { uint64_t a=conc(S,A(0)),n=conc(S,A(1)); auto&m=S.maps.w(); Ranges o; for(auto&r:m){ if(r.second<=a||r.first>=a+n) o.push_back(r); else { if(r.first<a) o.push_back({r.first,a}); if(r.second>a+n) o.push_back({a+n,r.second}); } } m=o; break; }
  case NA_se_valid: ret.c=valid(S,conc(S,A(0)),conc(S,A(1))); break;
  case NA_se_shared: { uint64_t a=conc(S,A(0)),n=conc(S,A(1)); S.shared.w().push_back({a,a+n}); break; }
  case NA_se_unshare: { S.shared.w().clear(); break; }
  case NA_se_param: { std::string k=cstr(S,A(0).c); auto j=params.find(k); ret.c=j!=params.end()?(uint64_t)j->second:A(1).c; break; }
  case NA_se_issym: ret.c=A(0).e!=nullptr; break;
  case NA_se_tid: ret.c=S.cur; break;
  case NA_se_spawn: { uint64_t fa=conc(S,A(0)); auto j=ir.fnAt.find(fa); if(j==ir.fnAt.end()||!j->second->body) inc(S,"spawn of unknown function"); int tid=S.th.size(); S.th.emplace_back(); S.alive++; initThread(S,tid); enter(S,S.th[tid],j->second,{A(1)},-1,0); ret.c=tid; break; }
  case NA_se_join: { Thread&t=S.th[S.cur]; t.joinTid=f->name=="se_join"?(int)conc(S,A(0)):-1; bool ok=true; for(size_t i=0;i<S.th.size();i++) if((int)i!=S.cur&&(t.joinTid<0||t.joinTid==(int)i)&&S.th[i].st!=T_DONE) ok=false; if(!ok){ t.st=T_JOIN; freeSwitch(S,false); throw (int)1; } break; }
  case NA_se_abegin: { Thread&t=S.th[S.cur]; if(!t.atomic) visible(S,0,0,false,true); S.th[S.cur].atomic++; break; }
  case NA_se_aend: { Thread&t=S.th[S.cur]; if(t.atomic>0&&--t.atomic==0){ wrote(S); logOp(S); } break; }
  case NA_se_wait: { uint64_t a=conc(S,A(0)),v=conc(S,A(1)); Thread&t=S.th[S.cur]; Val c=load(S,a,32,4); uint64_t cv=conc(S,c); if(cv==v){ if(t.atomic) inc(S,"wait inside an atomic section"); if(S.alive<2) fail(S,"deadlock","every thread is blocked"); t.st=T_WAIT; t.wa=a; t.wv=v; freeSwitch(S,false); throw (int)1; } break; }
  case NA_se_done: paths++; kill();
  case NA_memcmp: default: return false; }
  return true; }

void Engine::run(State*SP){
  State&S=*SP;
  try { for(;;){
    if(stopAll||(nowS()>deadline)) { if(!stopAll) incomplete["time budget"]++; return; }
    try { step(S); } catch(int){ } // rescheduled
  } } catch(Kill&){ }
}

void Engine::step(State&S){
  // executes instructions of the current thread until a reschedule (throws) or path end (throws Kill)
  for(unsigned cnt=0;;){
    Thread&T=S.th[S.cur];
    Frame&F=T.fr.back(); Ins&x=F.f->code[F.pc]; Val*R=T.regs.data()+F.base;
    auto get=[&](int op)->Val{ return op>=0?R[op]:Val{ir.consts[~op],nullptr}; };
    instrs++; if(++S.steps>stepLimit){ fail(S,"nontermination","step limit exceeded in "+fnName(S)); }
    if((++cnt&0xffff)==0&&nowS()>deadline) return;
    switch(x.op){
    case I_BIN: { Val a=get(x.a),b=get(x.b); Op o=(Op)x.sub;
      if(o>=O_UDIV&&o<=O_SREM){ if(b.e){ if(decide(S,P.bin(O_EQ,b.e,P.cst(0,x.w)))) fail(S,"divzero","division by zero in "+fnName(S)); b=mk(S,b.e);} else if(!b.c) fail(S,"divzero","division by zero in "+fnName(S)); }
      if(!a.e&&!b.e){ bool ok; R[x.dst]=Val{ExprPool::fold2(o,a.c,b.c,x.w,ok),nullptr}; } else R[x.dst]=mk(S,P.bin(o,ex(a,x.w),ex(b,x.w))); F.pc++; break; }
    case I_CMP: { Val a=get(x.a),b=get(x.b); Val r; if(!a.e&&!b.e){ bool ok; r.c=ExprPool::fold2((Op)x.sub,a.c,b.c,x.w,ok); if(x.fl&FL_NEG) r.c=!r.c; } else { Expr*e=P.bin((Op)x.sub,ex(a,x.w),ex(b,x.w)); if(x.fl&FL_NEG) e=P.bnot(e); r=mk(S,e); } R[x.dst]=r; F.pc++; break; }
    case I_SEL: { Val c=get(x.a); if(c.e) c=mk(S,c.e); if(!c.e) R[x.dst]=get(c.c?x.b:x.c); else if(S.known.count(c.e)) R[x.dst]=get(x.b); else { Val t=get(x.b),f=get(x.c); R[x.dst]=mk(S,P.ite(c.e,ex(t,x.w),ex(f,x.w))); } F.pc++; break; }
    case I_MOV: R[x.dst]=get(x.a); F.pc++; break;
    case I_ZEXT: { Val a=get(x.a); if(a.e) a=mk(S,P.zext(a.e,x.w)); R[x.dst]=a; F.pc++; break; }
    case I_SEXT: { Val a=get(x.a); if(a.e) a=mk(S,P.sext(a.e,x.w)); else a.c=(uint64_t)sx(a.c,x.w2)&maskw(x.w); R[x.dst]=a; F.pc++; break; }
    case I_TRUNC: { Val a=get(x.a); if(a.e) a=mk(S,P.extract(a.e,0,x.w)); else a.c&=maskw(x.w); R[x.dst]=a; F.pc++; break; }
    case I_FP: { Val a=get(x.a); unsigned iw=x.w2?x.w2:x.w; Expr*r; if(x.b==INT32_MIN) r=P.fp((Op)x.sub,x.w,ex(a,iw),nullptr,x.w2); else r=P.fp((Op)x.sub,x.w,ex(a,x.w),ex(get(x.b),x.w)); R[x.dst]=mk(S,r); F.pc++; break; }
    case I_FNEG: { Val a=get(x.a); uint64_t sgn=1ULL<<(x.w-1); if(a.e) a=mk(S,P.bin(O_XOR,a.e,P.cst(sgn,x.w))); else a.c^=sgn; R[x.dst]=a; F.pc++; break; }
    case I_FCMP: { Expr*a=ex(get(x.a),x.w),*b=ex(get(x.b),x.w); Expr*un=P.fp(O_FUNO,1,a,b),*r; auto eq=[&]{return P.fp(O_FOEQ,1,a,b);}; auto lt=[&](Expr*p,Expr*q){return P.fp(O_FOLT,1,p,q);}; auto le=[&](Expr*p,Expr*q){return P.fp(O_FOLE,1,p,q);};
      switch((CmpInst::Predicate)x.imm){ case CmpInst::FCMP_FALSE: r=P.cst(0,1);break; case CmpInst::FCMP_TRUE: r=P.cst(1,1);break; case CmpInst::FCMP_OEQ: r=eq();break; case CmpInst::FCMP_OGT: r=lt(b,a);break; case CmpInst::FCMP_OGE: r=le(b,a);break; case CmpInst::FCMP_OLT: r=lt(a,b);break; case CmpInst::FCMP_OLE: r=le(a,b);break;
        case CmpInst::FCMP_ONE: r=P.bin(O_AND,P.bnot(eq()),P.bnot(un));break; case CmpInst::FCMP_ORD: r=P.bnot(un);break; case CmpInst::FCMP_UNO: r=un;break; case CmpInst::FCMP_UEQ: r=P.bin(O_OR,eq(),un);break; case CmpInst::FCMP_UGT: r=P.bnot(le(a,b));break; case CmpInst::FCMP_UGE: r=P.bnot(lt(a,b));break; case CmpInst::FCMP_ULT: r=P.bnot(le(b,a));break; case CmpInst::FCMP_ULE: r=P.bnot(lt(b,a));break; default: r=P.bnot(eq()); }
      R[x.dst]=mk(S,r); F.pc++; break; }
    case I_LOAD: { { Val av=get(x.a); if(av.e){ av=mk(S,av.e); Val o; if(av.e&&sparseLoad(S,av,x.imm,x.w,x.n,o)){ Thread&T2=S.th[S.cur]; T2.regs[T2.fr.back().base+x.dst]=o; F.pc++; break; } } }
      uint64_t a=conc(S,get(x.a))+x.imm; if(x.a>=0) { } chk(S,a,x.n,"read"); if(S.alive>=2){ bool at=x.fl&FL_ATOMIC; visible(S,a,x.n,at); bool vv=vis(S,a,x.n,at); Val v=load(S,a,x.w,x.n); Thread&T2=S.th[S.cur]; T2.regs[T2.fr.back().base+x.dst]=v; T2.fr.back().pc++;
        if(vv){ logOp(S); if(!T2.atomic&&spinCheck(S,&x,a,v.e?0x5bd1e995u+(uint64_t)v.e->id:v.c)){ T2.mark=S.wclock-T2.own; T2.st=T_SPIN; freeSwitch(S,false); throw (int)1; } } break; }
      R[x.dst]=load(S,a,x.w,x.n); F.pc++; break; }
    case I_STORE: { uint64_t a=conc(S,get(x.a))+x.imm; chk(S,a,x.n,"write"); bool at=x.fl&FL_ATOMIC; visible(S,a,x.n,at); store(S,a,get(x.b),x.w,x.n); if(vis(S,a,x.n,at)){ wrote(S); S.th[S.cur].lastIns=nullptr; logOp(S);} F.pc++; break; }
    case I_GEP: { Val b=get(x.a); if(!b.e){ uint64_t r=b.c+x.imm; Expr*e=nullptr; for(int i=0;i<x.n;i++){ auto&t=ir.terms[x.x+i]; Val v=get(t.slot); if(!v.e) r+=t.scale*(uint64_t)sx(v.c,t.w); else { Expr*q=P.bin(O_MUL,P.sext(v.e,64),P.cst(t.scale,64)); e=e?P.bin(O_ADD,e,q):q; } } if(!e) R[x.dst]=Val{r,nullptr}; else R[x.dst]=mk(S,P.bin(O_ADD,e,P.cst(r,64))); }
      else { Expr*e=P.bin(O_ADD,b.e,P.cst(x.imm,64)); for(int i=0;i<x.n;i++){ auto&t=ir.terms[x.x+i]; Val v=get(t.slot); e=P.bin(O_ADD,e,P.bin(O_MUL,P.sext(ex(v,t.w),64),P.cst(t.scale,64))); } R[x.dst]=mk(S,e); } F.pc++; break; }
    case I_ALLOCA: { uint64_t n=conc(S,get(x.a))*x.imm; if(n>(8<<20)) inc(S,"huge alloca"); T.sp-=n; T.sp&=~(uint64_t)(x.x-1); R[x.dst]=Val{T.sp,nullptr}; F.pc++; break; }
    case I_BR: { Val c=get(x.a); bool d=c.e?decide(S,c.e):(c.c&1); Edge&e=F.f->edges[d?x.b:x.c]; 
      if(e.cp.size()==1){ R[e.cp[0].first]=get(e.cp[0].second); } else if(!e.cp.empty()){ Val tmp[64]; std::vector<Val> big; Val*q=tmp; if(e.cp.size()>64){ big.resize(e.cp.size()); q=big.data(); } for(size_t i=0;i<e.cp.size();i++) q[i]=get(e.cp[i].second); for(size_t i=0;i<e.cp.size();i++) R[e.cp[i].first]=q[i]; }
      F.pc=e.target; break; }
    case I_JMP: { Edge&e=F.f->edges[x.b]; if(e.cp.size()==1){ R[e.cp[0].first]=get(e.cp[0].second); } else if(!e.cp.empty()){ std::vector<Val> q(e.cp.size()); for(size_t i=0;i<e.cp.size();i++) q[i]=get(e.cp[i].second); for(size_t i=0;i<e.cp.size();i++) R[e.cp[i].first]=q[i]; } F.pc=e.target; break; }
    case I_SWITCH: { Val v=get(x.a); if(v.e) v=mk(S,v.e); int tgt=x.b; 
      if(!v.e){ for(int i=0;i<x.n;i++) if(ir.sw[x.x+i].v==v.c){ tgt=ir.sw[x.x+i].edge; break; } }
      else { for(int i=0;i<x.n;i++){ if(decide(S,P.bin(O_EQ,v.e,P.cst(ir.sw[x.x+i].v,x.w)))){ tgt=ir.sw[x.x+i].edge; break; } } }
      Edge&e=F.f->edges[tgt]; std::vector<Val> q(e.cp.size()); for(size_t i=0;i<e.cp.size();i++) q[i]=get(e.cp[i].second); for(size_t i=0;i<e.cp.size();i++) R[e.cp[i].first]=q[i]; F.pc=e.target; break; }
    case I_CALL: { Fn*f=(Fn*)x.imm; if(!f){ uint64_t a=conc(S,get(x.a)); auto it=ir.fnAt.find(a); if(it==ir.fnAt.end()) fail(S,"memory","call through an invalid pointer in "+fnName(S)); f=it->second; }
      std::vector<Val> av(x.n); for(int i=0;i<x.n;i++) av[i]=get(ir.args[x.x+i]);
      if(f->body&&!f->ignore){ int rr=x.dst>=0?F.base+x.dst:-1; F.pc++; enter(S,T,f,av,rr,x.b); break; }
      Val ret; if(!native(S,T,f,x,av,ret)) inc(S,"unsupported external "+f->name);
      { Thread&T2=S.th[S.cur]; if(x.dst>=0) T2.regs[T2.fr.back().base+x.dst]=ret; T2.fr.back().pc++; } break; }
    case I_RET: { Val rv[16]; int n=std::min(x.n,16); for(int i=0;i<n;i++) rv[i]=get(ir.args[x.x+i]); Frame fr=F; T.regs.resize(fr.base); T.sp=fr.sp; T.fr.pop_back();
      if(T.fr.empty()){ T.st=T_DONE; S.alive--; S.wclock++; S.spinRetry=0; if(S.cur==0){ pathDone(S); kill(); } freeSwitch(S,false); throw (int)1; }
      if(fr.retReg>=0) for(int i=0;i<n;i++) T.regs[fr.retReg+i]=rv[i]; break; }
    case I_UNREACH: fail(S,"trap","unreachable code executed in "+fnName(S));
    case I_CMPXCHG: { uint64_t a=conc(S,get(x.a)); chk(S,a,x.n,"write"); visible(S,a,x.n,true); Val cur=load(S,a,x.w,x.n),o=get(x.b),nw=get(x.c); Expr*eq=P.bin(O_EQ,ex(cur,x.w),ex(o,x.w)); Val ev=mk(S,eq); bool ok=ev.e?decide(S,ev.e):ev.c; 
      Thread&T2=S.th[S.cur]; Val*R2=T2.regs.data()+T2.fr.back().base; if(ok) store(S,a,nw,x.w,x.n); R2[x.dst]=cur; R2[x.dst+1]=Val{ok,nullptr}; T2.fr.back().pc++;
      if(S.alive>=2){ if(ok){ wrote(S); T2.lastIns=nullptr; } logOp(S); if(!ok&&!T2.atomic&&spinCheck(S,&x,a,cur.e?0x5bd1e995u+(uint64_t)cur.e->id:cur.c)){ T2.mark=S.wclock-T2.own; T2.st=T_SPIN; freeSwitch(S,false); throw (int)1; } } break; }
    case I_RMW: { uint64_t a=conc(S,get(x.a)); chk(S,a,x.n,"write"); visible(S,a,x.n,true); Val cur=load(S,a,x.w,x.n),v=get(x.b); Expr*c=ex(cur,x.w),*e=ex(v,x.w),*r;
      switch((AtomicRMWInst::BinOp)x.imm){ case AtomicRMWInst::Xchg: r=e;break; case AtomicRMWInst::Add: r=P.bin(O_ADD,c,e);break; case AtomicRMWInst::Sub: r=P.bin(O_SUB,c,e);break; case AtomicRMWInst::And: r=P.bin(O_AND,c,e);break; case AtomicRMWInst::Nand: r=P.bnot(P.bin(O_AND,c,e));break; case AtomicRMWInst::Or: r=P.bin(O_OR,c,e);break; case AtomicRMWInst::Xor: r=P.bin(O_XOR,c,e);break;
        case AtomicRMWInst::Max: r=P.ite(P.bin(O_SLT,c,e),e,c);break; case AtomicRMWInst::Min: r=P.ite(P.bin(O_SLT,c,e),c,e);break; case AtomicRMWInst::UMax: r=P.ite(P.bin(O_ULT,c,e),e,c);break; case AtomicRMWInst::UMin: r=P.ite(P.bin(O_ULT,c,e),c,e);break; default: inc(S,"unsupported atomic op"); }
      store(S,a,mk(S,r),x.w,x.n); R[x.dst]=cur; F.pc++; if(S.alive>=2){ wrote(S); T.lastIns=nullptr; logOp(S);} break; }
    case I_FENCE: F.pc++; break;
    case I_TLS: R[x.dst]=Val{TLSB+S.cur*TLSSZ+x.imm,nullptr}; F.pc++; break;
    case I_INTR: intr(S,T,F,x); S.th[S.cur].fr.back().pc++; break;
    default: { std::string s; raw_string_ostream os(s); if(x.src) x.src->print(os); inc(S,"unsupported instruction:"+os.str()); } }
  } }

void Engine::stats(const std::string&fn,bool complete){
  FILE*f=fopen(fn.c_str(),"w"); if(!f) return; 
  fprintf(f,"{\"entry\":\"%s\",\"complete\":%s,\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"assumes\":%llu,\"assume_pruned\":%llu,\"sched_points\":%llu,\"switches\":%llu,\"dedup\":%llu,\"states\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"truth_tables\":%llu,\"query_cache_hits\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"max_fork_depth\":%llu,\"solver_self_check_failed\":%s,\"symbols\":%zu,",
    entry.c_str(),complete?"true":"false",(unsigned long long)paths,(unsigned long long)forks,(unsigned long long)instrs,(unsigned long long)assertsChecked,(unsigned long long)assertSym,(unsigned long long)assumes,(unsigned long long)killedAssume,(unsigned long long)schedPoints,(unsigned long long)switches,(unsigned long long)dedup,(unsigned long long)visited.size(),(unsigned long long)sol->queries,(unsigned long long)sol->sat,(unsigned long long)sol->unsat,(unsigned long long)sol->unknown,(unsigned long long)sol->tables,(unsigned long long)sol->cacheHits,(unsigned long long)sol->modelHits,sol->time,sol->maxTime,nowS()-t0,(unsigned long long)maxDepth,sol->selfErr?"true":"false",P.varName.size());
  fprintf(f,"\"reach\":{"); bool c=false; for(auto&r:reach){ fprintf(f,"%s\"%s\":%llu",c?",":"",jesc(r.first).c_str(),(unsigned long long)r.second); c=true; }
  fprintf(f,"},\"incomplete\":{"); c=false; for(auto&r:incomplete){ fprintf(f,"%s\"%s\":%llu",c?",":"",jesc(r.first).c_str(),(unsigned long long)r.second); c=true; }
  fprintf(f,"},\"functions\":{"); c=false; for(auto&r:ir.fns) if(r->calls&&r->F&&r->F->getSubprogram()){ auto*sp=r->F->getSubprogram(); fprintf(f,"%s\"%s\":{\"file\":\"%s\",\"calls\":%llu}",c?",":"",jesc(r->name).c_str(),jesc(sp->getFilename().str()).c_str(),(unsigned long long)r->calls); c=true; }
  fprintf(f,"},\"other_failures\":{"); c=false; for(auto&o:otherFails){ fprintf(f,"%s\"%s\":%llu",c?",":"",jesc(o.first).c_str(),(unsigned long long)o.second); c=true; }
  fprintf(f,"},\"violations\":["); c=false; for(auto&v:viols){ fprintf(f,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"replay\":\"%s\"}",c?",":"",jesc(v.kind).c_str(),jesc(v.msg).c_str(),jesc(v.where).c_str(),jesc(v.replay).c_str()); c=true; }
  fprintf(f,"],\"witnesses\":["); c=false; for(auto&v:wits){ fprintf(f,"%s\"%s\"",c?",":"",jesc(v).c_str()); c=true; }
  fprintf(f,"]}\n"); fclose(f); }

// instrument a module so that the threaded replay can follow a recorded schedule
static void emitReplay(IR&ir,const std::string&out){
  Module&M=*ir.M; LLVMContext&C=ir.C; Type*V=Type::getVoidTy(C),*I64=Type::getInt64Ty(C); PointerType*PT=PointerType::getUnqual(C);
  auto pre=M.getOrInsertFunction("se_rt_pre",FunctionType::get(I64,{PT,I64,I64},false)); auto post=M.getOrInsertFunction("se_rt_post",FunctionType::get(V,{I64},false));
  for(auto&F:M){ if(F.isDeclaration()) continue; std::vector<Instruction*> w; for(auto&B:F) for(auto&I:B){ if(isa<LoadInst>(I)||isa<StoreInst>(I)||isa<AtomicCmpXchgInst>(I)||isa<AtomicRMWInst>(I)||isa<MemIntrinsic>(I)) w.push_back(&I); else if(auto*c=dyn_cast<CallInst>(&I)) if(auto*f=c->getCalledFunction()) if(f->isDeclaration()&&(f->getName()=="memcpy"||f->getName()=="memmove"||f->getName()=="memset")) w.push_back(&I); }
    for(auto*I:w){ IRBuilder<> B(I); Value*p=nullptr,*n=nullptr; uint64_t at=0; auto sz=[&](Type*t){ return ConstantInt::get(I64,M.getDataLayout().getTypeStoreSize(t)); }; Value*p2=nullptr;
      if(auto*l=dyn_cast<LoadInst>(I)){ p=l->getPointerOperand(); n=sz(l->getType()); at=l->isAtomic(); } else if(auto*s=dyn_cast<StoreInst>(I)){ p=s->getPointerOperand(); n=sz(s->getValueOperand()->getType()); at=s->isAtomic(); }
      else if(auto*c=dyn_cast<AtomicCmpXchgInst>(I)){ p=c->getPointerOperand(); n=sz(c->getNewValOperand()->getType()); at=1; } else if(auto*r=dyn_cast<AtomicRMWInst>(I)){ p=r->getPointerOperand(); n=sz(r->getValOperand()->getType()); at=1; }
      else if(auto*m=dyn_cast<MemIntrinsic>(I)){ p=m->getRawDest(); n=B.CreateZExtOrTrunc(m->getLength(),I64); if(auto*t=dyn_cast<MemTransferInst>(m)) p2=t->getRawSource(); }
      else { auto*c=cast<CallInst>(I); p=c->getArgOperand(0); n=c->getArgOperand(2); if(c->getCalledFunction()->getName()!="memset") p2=c->getArgOperand(1); }
      if(isa<AllocaInst>(p->stripPointerCasts())&&!at) continue; (void)p2;
      if(p2) at=2; Value*h= p2? (Value*)B.CreateCall(M.getOrInsertFunction("se_rt_pre2",FunctionType::get(I64,{PT,PT,I64},false)),{p,p2,n}) : (Value*)B.CreateCall(pre,{p,n,ConstantInt::get(I64,at)});
      IRBuilder<> A(I->getNextNode()); A.CreateCall(post,{h}); } }
  std::error_code ec; raw_fd_ostream os(out,ec); WriteBitcodeToFile(M,os); }

int Engine::main2(int argc,char**argv){
  std::string in,statsF,emit; double tmo=60; unsigned qt=20000; bool listOnly=false; double memGB=6;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto val=[&](const char*p)->const char*{ size_t n=strlen(p); return a.compare(0,n,p)==0?a.c_str()+n:nullptr; }; const char*v;
    if((v=val("--entry="))) entry=v; else if((v=val("--time="))) tmo=atof(v); else if((v=val("--qtime="))) qt=atoi(v); else if((v=val("--out="))) outDir=v; else if((v=val("--stats="))) statsF=v; else if((v=val("--preempt="))) preemptBound=atoi(v); else if((v=val("--steps="))) stepLimit=strtoull(v,0,10); else if((v=val("--emit-replay="))) emit=v; else if((v=val("--max-viol="))) maxViol=atoi(v); else if((v=val("--witness="))) witMax=atoi(v); else if((v=val("--tag="))) tag=v; else if((v=val("--mem="))) memGB=atof(v);
    else if((v=val("--param="))){ std::string s=v; size_t q=s.find('='); params[s.substr(0,q)]=atoll(s.c_str()+q+1); } else if((v=val("--wrap="))){ std::string s=v; size_t q=s.find('='); ir.wrap[s.substr(0,q)]=s.substr(q+1); }
    else if(a=="--list") listOnly=true; else in=a; }
  if(!ir.load(in)) return 2; ir.lowerAsm();
  if(verifyModule(*ir.M,&errs())) { errs()<<"sphse: broken module\n"; return 2; }
  if(!emit.empty()){ emitReplay(ir,emit); return 0; }
  if(listOnly){ for(auto&F:*ir.M) if(!F.isDeclaration()&&F.getName().starts_with("case_")) outs()<<F.getName()<<"\n"; return 0; }
  rlimit rl{(rlim_t)(memGB*1e9),(rlim_t)(memGB*1e9)}; setrlimit(RLIMIT_AS,&rl);
  t0=nowS(); deadline=t0+tmo; Solver s(P,qt); sol=&s;
  State*S=new State(); S->model=std::make_shared<Model>(); S->preempt=preemptBound; S->th.emplace_back();
  ir.initGlobals([&](uint64_t a,const uint8_t*b,size_t n){ poke(*S,a,b,n); },tlsInit);
  for(auto&f:ir.fns) if(NATS.count(f->name)) { int k=NATS.at(f->name); if(k==NA_ignore0||k>=NA_se_int||k==NA_yield) f->ignore=true; }
  initThread(*S,0);
  auto it=ir.fnByName.find(entry); if(it==ir.fnByName.end()||!it->second->body){ errs()<<"no entry "<<entry<<"\n"; return 2; }
  enter(*S,S->th[0],it->second,{},-1,0);
  if(auto*g=ir.M->getNamedGlobal("llvm.global_ctors")) if(g->hasInitializer()) if(auto*a=dyn_cast<ConstantArray>(g->getInitializer())) {
    std::vector<std::pair<uint64_t,Function*>> cs; // by priority, then in the order of linking; the last one entered runs first
    for(unsigned i=0;i<a->getNumOperands();i++) if(auto*f=dyn_cast<Function>(a->getOperand(i)->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(a->getOperand(i)->getOperand(0))->getZExtValue(),f});
    std::stable_sort(cs.begin(),cs.end(),[](auto&x,auto&y){return x.first<y.first;});
    for(size_t i=cs.size();i--;) enter(*S,S->th[0],ir.fnOf[cs[i].second],{},-1,0);
  }
  work.push_back(S); bool outOfMem=false;
  while(!work.empty()&&!stopAll&&nowS()<deadline){ State*q=work.back(); work.pop_back(); try { run(q); } catch(std::bad_alloc&){ outOfMem=true; } delete q; if(outOfMem){ incomplete["memory limit"]++; break; } }
  bool complete=work.empty()&&!stopAll&&incomplete.empty(); if(!work.empty()&&!stopAll) incomplete["unexplored states at the time budget"]+=work.size();
  if(stopAll) incomplete["stopped after the maximum number of distinct violations"]++;
  if(!statsF.empty()) stats(statsF,complete);
  fprintf(stderr,"%s: %s paths=%llu instr=%llu queries=%llu (%.1fs solver) wall=%.1fs viol=%zu\n",entry.c_str(),complete?"complete":"INCOMPLETE",(unsigned long long)paths,(unsigned long long)instrs,(unsigned long long)s.queries,s.time,nowS()-t0,viols.size());
  for(auto&r:incomplete) fprintf(stderr,"  incomplete: %s x%llu\n",r.first.c_str(),(unsigned long long)r.second);
  for(auto&v:viols) fprintf(stderr,"  violation[%s]: %s @ %s -> %s\n",v.kind.c_str(),v.msg.c_str(),v.where.c_str(),v.replay.c_str());
  fflush(stderr); _exit(viols.empty()?0:1); }

int main(int argc,char**argv){ static Engine E; return E.main2(argc,argv); }
