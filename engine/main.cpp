// dsym: symbolic executor for LLVM IR (C programs) with Z3.
//   dsym prog.bc --entry h --out DIR [--jobs N] [--deadline S] [--tree-known label]...
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <set>
#include <atomic>
using namespace llvm;

// ============================================================ options / shared
static std::string o_out="."; static std::string o_entry="main"; static int o_jobs=8; static double o_deadline=300; static bool o_trace=false; static std::set<std::string> o_known; static long o_maxviol=1; static int o_samples=6; static bool o_stopfirst=true; static bool o_verbose=false; static u64 o_maxinst=0; static std::vector<std::string> o_args; static bool o_prof=false;
static double nowd(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static double t_start,t_deadline;
struct Label { char name[120]; u64 reached, proved, trivial, violated; };
struct Viol { char label[120]; char kind[24]; char where[200]; char file[256]; int known; };
struct Shared {
  volatile int lock; int tokens; int nwait; int maxwait; sem_t wsem[8192]; int wstack[8192]; int freeslots[8192]; int nfree;
  volatile int active; sem_t done; volatile int stop; volatile int incomplete; char incmsg[400];
  u64 paths_ok,paths_assume,paths_err,forks,insts,queries,sat,unsat,unknown,ns,cachehits,smallq,confirm,confirmed,memchecks_sym; u64 concretized;
  int nlab; Label lab[512]; int ncov; Label cov[512]; int nviol; Viol viol[64]; int nsamples; char sample[16][2000];
  u8 fn[16384]; u64 maxcons; u64 prof[16384];
  int tok_held; u64 maxvars;
};
static Shared* SH;
static void lk(){ while(__sync_lock_test_and_set(&SH->lock,1)) usleep(20); } static void ulk(){ __sync_lock_release(&SH->lock); }
static std::vector<Expr*> g_pc; static std::vector<u64> g_model; static u32 g_epoch=1; static u32 g_subep=1; static u64 g_inst=0, g_instflushed=0;
static std::vector<std::string> g_groups; // dsym_sym objects in creation order
struct SymObj { std::string name; std::vector<Expr*> bytes; }; static std::vector<SymObj> g_objs; static std::vector<SymObj> g_outs; static u64 o_seed=1;
static std::string curWhere(); static std::string curFunc();
static void setIncomplete(const std::string&m){ lk(); if(!SH->incomplete){ SH->incomplete=1; snprintf(SH->incmsg,sizeof SH->incmsg,"%s",m.c_str()); } ulk(); }
static void flushStats(){ lk(); SH->insts+=g_inst-g_instflushed; g_instflushed=g_inst; SH->queries+=s_queries;SH->sat+=s_sat;SH->unsat+=s_unsat;SH->unknown+=s_unknown;SH->ns+=s_ns;SH->cachehits+=s_cachehits;SH->smallq+=s_smallq;s_smallq=0; s_queries=s_sat=s_unsat=s_unknown=s_ns=s_cachehits=0; if(g_pc.size()>SH->maxcons) SH->maxcons=g_pc.size(); if(g_vars.size()>SH->maxvars) SH->maxvars=g_vars.size(); ulk(); }
static void releaseToken(){ lk(); if(SH->nwait>0){ int s=SH->wstack[--SH->nwait]; sem_post(&SH->wsem[s]); } else SH->tokens++; ulk(); }
static void acquireToken(){ lk(); if(SH->tokens>0){ SH->tokens--; ulk(); return; } if(SH->nfree==0){ ulk(); setIncomplete("too many suspended paths"); lk(); }
  if(SH->nfree==0){ ulk(); while(1){ lk(); if(SH->tokens>0){SH->tokens--; ulk(); return;} ulk(); usleep(1000);} }
  int s=SH->freeslots[--SH->nfree]; SH->wstack[SH->nwait++]=s; if(SH->nwait>SH->maxwait) SH->maxwait=SH->nwait; ulk(); while(sem_wait(&SH->wsem[s])!=0){} lk(); SH->freeslots[SH->nfree++]=s; ulk(); }
static u32 g_oep=0x80000000;
static std::string objText(const std::vector<SymObj>&v,const std::vector<u64>&m){ std::string r; u32 ep=++g_oep; for(auto&o:v){ r+=o.name+" "; char b[4]; for(auto e:o.bytes){ snprintf(b,4,"%02x",(unsigned)evalExpr(e,m,ep)); r+=b; } r+="\n"; } return r; }
static std::string modelText(const std::vector<u64>&m){ return objText(g_objs,m); }
// a model of the path condition in which inputs the path does not constrain have random values
static std::vector<u64> richModel(u64 seed){ std::vector<u64> m=g_model; m.resize(g_vars.size()); u64 s=seed|1; auto rnd=[&]{ s^=s<<13; s^=s>>7; s^=s<<17; return s; };
  std::vector<std::vector<u32>> uses(g_vars.size()); for(u32 i=0;i<g_pc.size();i++) for(u32 x:g_pc[i]->sup->v) if(uses[x].size()<400) uses[x].push_back(i);
  for(u32 x=0;x<g_vars.size();x++){ u64 old=m[x]; int tries=uses[x].empty()?1:uses[x].size()>=400?0:2; for(int t=0;t<tries;t++){ m[x]=rnd()&mask(g_vars[x].w); bool ok=true; u32 ep=++g_oep; for(u32 i:uses[x]) if(!evalExpr(g_pc[i],m,ep)){ ok=false; break; } if(ok) break; m[x]=old; } }
  return m; }
enum End { E_OK, E_ASSUME, E_ERR };
[[noreturn]] static void endPath(End k){
  // the solver confirms that the conditions of the first completed paths are satisfiable (no vacuous path)
  if(k==E_OK&&!SH->stop&&g_pc.size()&&__sync_fetch_and_add(&SH->confirm,1)<60){ std::vector<u64> m; Expr*x=g_pc.back(); std::vector<Expr*> rest(g_pc.begin(),g_pc.end()-1); g_assertq=true; g_model.resize(g_vars.size()); SatRes r=solveSliced(rest,x,g_model,m,true); g_assertq=false; if(r==UNSAT){ setIncomplete("a completed path has an unsatisfiable condition"); } else if(r==SAT) __sync_add_and_fetch(&SH->confirmed,1); }
  if(k==E_OK){ lk(); u64 n=SH->paths_ok, h=(n+1)*0x9E3779B97F4A7C15ull+o_seed*0xD1B54A32D192ED03ull; h^=h>>29; int id=-1; if((int)SH->nsamples<o_samples) id=SH->nsamples++; else if(o_samples){ u64 r=h%(n+1); if(r<(u64)o_samples) id=r; } ulk();
    if(id>=0){ std::vector<u64> m=richModel(h); std::string t=objText(g_objs,m), u=objText(g_outs,m); lk(); snprintf(SH->sample[id],sizeof SH->sample[id],"%s",t.c_str()); char fn[300]; snprintf(fn,300,"%s/sample_%d.txt",o_out.c_str(),id); FILE*f=fopen(fn,"w"); if(f){ fputs(t.c_str(),f); fclose(f);} snprintf(fn,300,"%s/sample_%d.out",o_out.c_str(),id); f=fopen(fn,"w"); if(f){ fputs(u.c_str(),f); fclose(f);} ulk(); } }
  flushStats(); lk(); if(k==E_OK) SH->paths_ok++; else if(k==E_ASSUME) SH->paths_assume++; else SH->paths_err++; ulk();
  releaseToken(); int a=__sync_sub_and_fetch(&SH->active,1); if(a==0) sem_post(&SH->done); _exit(0);
}
[[noreturn]] static void fatal(const std::string&m){ std::string s=m+" at "+curWhere(); if(o_verbose) fprintf(stderr,"dsym: %s\n",s.c_str()); setIncomplete(s); endPath(E_ERR); }
static void checkTime(){ if(SH->stop) endPath(E_ERR); if(nowd()>t_deadline){ setIncomplete("deadline"); endPath(E_ERR);} }
// ============================================================ solver glue
static u64 evalM(Expr*e){ return evalExpr(e,g_model,g_epoch); }
static void setModel(const std::vector<u64>&m){ g_model=m; g_epoch++; if(g_epoch>=0x3fffffff) g_epoch=1; }
static SatRes query(Expr*extra,std::vector<u64>&out){ checkTime(); extra=tabulate(extra); if(extra->k==K_CONST&&!extra->v) return UNSAT; g_model.resize(g_vars.size()); SatRes r=solveSliced(g_pc,extra,g_model,out); checkTime(); return r; }
static void addCons(Expr*c){ if(c->k==K_CONST) return; Expr*t=tabulate(c); if(t->k==K_CONST) return; g_pc.push_back(t); learnFact(c); if(t!=c) learnFact(t); g_subep++; }
// fork: returns true in the child
static bool forkPath(){
  checkTime(); flushStats(); __sync_add_and_fetch(&SH->active,1); __sync_add_and_fetch(&SH->forks,1);
  pid_t p=fork(); if(p<0){ __sync_sub_and_fetch(&SH->active,1); fatal("fork failed"); }
  if(p==0) return true;
  acquireToken(); if(SH->stop) endPath(E_ERR); return false;
}
static void branchCons(Expr*c){ addCons(c); }
// decide a width-1 condition; forks when both sides are feasible
static bool decide(Expr*c){
  if(c->k==K_CONST) return c->v; 
  { auto it=g_eq.find(c); if(it!=g_eq.end()) return it->second; }
  c=substFacts(c,g_subep); if(c->k==K_CONST) return c->v;
  bool cur=evalM(c); Expr*other=cur?mkNot(c):c; Expr*same=cur?c:mkNot(c);
  if(other->k==K_CONST&&!other->v) return cur;
  std::vector<u64> m; SatRes r=query(other,m);
  if(r==UNKNOWN) { setIncomplete("solver returned unknown"); addCons(same); return cur; }
  if(r==UNSAT){ learnFact(same); g_subep++; return cur; }
  if(forkPath()){ addCons(other); setModel(m); return !cur; }
  addCons(same); return cur;
}
static u64 concretize(Expr*e){
  if(e->k==K_CONST) return e->v; e=substFacts(e,g_subep);
  while(1){ if(e->k==K_CONST) return e->v; { auto it=g_eq.find(e); if(it!=g_eq.end()) return it->second; }
    u64 v=evalM(e); Expr*eq=mkBin(K_EQ,e,mkConst(v,e->w)); Expr*ne=mkNot(eq); std::vector<u64> m;
    if(ne->k==K_CONST) { if(ne->v==0) return v; }
    SatRes r=query(ne,m); if(r==UNKNOWN){ setIncomplete("solver returned unknown"); addCons(eq); return v; }
    if(r==UNSAT){ learnFact(eq); g_subep++; return v; }
    __sync_add_and_fetch(&SH->concretized,1);
    if(forkPath()){ addCons(ne); setModel(m); e=substFacts(e,g_subep); continue; }
    addCons(eq); return v; }
}
static int labelIdx(Label*L,int&n,const char*name){ for(int i=0;i<n;i++) if(!strncmp(L[i].name,name,119)) return i; if(n>=512) return 511; snprintf(L[n].name,120,"%s",name); return n++; }
static void report(const char*label,const char*kind,const std::vector<u64>&m){
  bool known=o_known.count(label)>0; lk(); int dup=0; for(int i=0;i<SH->nviol;i++) if(!strncmp(SH->viol[i].label,label,119)&&!strcmp(SH->viol[i].kind,kind)) dup++; int id=-1; if(dup<3&&SH->nviol<64){ id=SH->nviol++; Viol&v=SH->viol[id]; snprintf(v.label,120,"%s",label); snprintf(v.kind,24,"%s",kind); v.known=known; } ulk();
  if(id>=0){ Viol&v=SH->viol[id]; snprintf(v.where,200,"%s",curWhere().c_str()); snprintf(v.file,256,"%s/cex_%d.txt",o_out.c_str(),id); FILE*f=fopen(v.file,"w"); if(f){ fputs(modelText(m).c_str(),f); fclose(f);} }
  if(!known&&o_stopfirst) SH->stop=1;
}
static void doAssert(Expr*c,bool conc,u64 cv,const char*label){
  lk(); int li=labelIdx(SH->lab,SH->nlab,label); SH->lab[li].reached++; ulk();
  if(!conc){ c=substFacts(c,g_subep); if(c->k==K_CONST){conc=true;cv=c->v;} }
  if(conc){ if(cv){ __sync_add_and_fetch(&SH->lab[li].trivial,1); return; } __sync_add_and_fetch(&SH->lab[li].violated,1); report(label,"assert",g_model); endPath(E_ERR); }
  std::vector<u64> m; Expr*n=mkNot(c); SatRes r; if(!evalM(c)){ m=g_model; r=SAT; } else { g_assertq=true; r=query(n,m); g_assertq=false; }
  if(r==UNSAT){ __sync_add_and_fetch(&SH->lab[li].proved,1); learnFact(c); g_subep++; return; }
  if(r==UNKNOWN){ setIncomplete(std::string("solver unknown on assertion ")+label); return; }
  __sync_add_and_fetch(&SH->lab[li].violated,1); report(label,"assert",m); if(SH->stop) endPath(E_ERR);
  // continue on the side where it holds
  std::vector<u64> m2; if(evalM(c)) { addCons(c); return; } r=query(c,m2); if(r==SAT){ addCons(c); setModel(m2); return; } endPath(E_ERR);
}
// ============================================================ memory
static const u64 BASE=0x200000000ull, ASZ=1ull<<30; static const u64 STK0=BASE+(1<<20), STK1=BASE+(64u<<20), GLB0=STK1+4096;
static u8* SHD; static Expr** SYMB; // shadow: 0 unaddressable, 1 concrete, 0x80+i symbolic (byte i of SYMB[])
static u64 sp=STK0, brk_=0, fnbase=BASE; 
static inline bool inA(u64 a,u64 n){ return a>=BASE&&a-BASE<=ASZ-n-16; }
[[noreturn]] static void memErr(const char*kind,u64 a,u64 n){ char b[160]; snprintf(b,160,"memory: %s in %s",kind,curFunc().c_str()); (void)a;(void)n; report(b,"memory",g_model); endPath(E_ERR); }
static inline bool addressable(u64 a,u64 n){ if(!inA(a,n)) return false; const u8*s=SHD+(a-BASE); for(u64 i=0;i<n;i++) if(!s[i]) return false; return true; }
static inline bool allConc(u64 a,u64 n){ const u8*s=SHD+(a-BASE); u64 i=0; for(;i+8<=n;i+=8){ u64 x; memcpy(&x,s+i,8); if(x!=0x0101010101010101ull) return false; } for(;i<n;i++) if(s[i]!=1) return false; return true; }
struct Val { u64 c; Expr* e; };
static inline Val cv(u64 c){ return Val{c,nullptr}; }
static inline Val ve(Expr*e){ if(e->k==K_CONST) return Val{e->v,nullptr}; return Val{0,e}; }
static inline Expr* ex(const Val&v,unsigned w){ return v.e?v.e:mkConst(v.c,w); }
static Expr* byteAt(u64 a){ u8 s=SHD[a-BASE]; if(s==1) return mkConst(*(u8*)a,8); Expr*e=SYMB[a-BASE]; return mkExtract(e,8*(s-0x80),8); }
static Val loadN(u64 a,unsigned w){ // w bits, w%8==0 or 1
  unsigned n=(w+7)/8; if(!inA(a,n)) memErr("invalid read",a,n);
  u8*s=SHD+(a-BASE);
  bool conc=true; for(unsigned i=0;i<n;i++){ if(s[i]!=1){ if(!s[i]) memErr("invalid read",a,n); conc=false; } }
  if(conc){ u64 v=0; memcpy(&v,(void*)a,n); return cv(v&mask(w)); }
  Expr*e0=SYMB[a-BASE]; // whole-object fast path
  if(s[0]==0x80&&e0->w==8*n){ bool same=true; for(unsigned i=1;i<n&&same;i++) same=s[i]==0x80+i&&SYMB[a-BASE+i]==e0; if(same) return ve(w==8*n?substFacts(e0,g_subep):mkExtract(e0,0,w)); }
  // group runs of bytes from the same expression
  Expr*r=nullptr; unsigned i=0; while(i<n){ unsigned j=i+1; Expr*piece; if(s[i]==1){ while(j<n&&s[j]==1) j++; u64 v=0; memcpy(&v,(void*)(a+i),j-i); piece=mkConst(v,8*(j-i)); } else { while(j<n&&s[j]==s[i]+(j-i)&&s[j]>=0x80&&SYMB[a-BASE+j]==SYMB[a-BASE+i]) j++; piece=mkExtract(SYMB[a-BASE+i],8*(s[i]-0x80),8*(j-i)); } r=r?mkConcat(piece,r):piece; i=j; }
  r=substFacts(r,g_subep);
  return ve(w==8*n?r:mkExtract(r,0,w));
}
static void storeN(u64 a,Val v,unsigned w){
  unsigned n=(w+7)/8; if(!inA(a,n)) memErr("invalid write",a,n); u8*s=SHD+(a-BASE);
  for(unsigned i=0;i<n;i++) if(!s[i]) memErr("invalid write",a,n);
  if(!v.e){ u64 x=v.c; memcpy((void*)a,&x,n); memset(s,1,n); return; }
  Expr*e=v.e; if(w!=8*n) e=mkZext(e,8*n);
  for(unsigned i=0;i<n;i++){ s[i]=0x80+i; SYMB[a-BASE+i]=e; }
}
static void copyMem(u64 d,u64 s,u64 n){ if(!n) return; if(!addressable(s,n)) memErr("invalid read",s,n); if(!addressable(d,n)) memErr("invalid write",d,n);
  memmove((void*)d,(void*)s,n); if(allConc(s,n)){ memset(SHD+(d-BASE),1,n); return; }
  memmove(SYMB+(d-BASE),SYMB+(s-BASE),n*sizeof(Expr*)); memmove(SHD+(d-BASE),SHD+(s-BASE),n); }
static void setMem(u64 d,Val v,u64 n){ if(!n) return; if(!addressable(d,n)) memErr("invalid write",d,n); if(!v.e){ memset((void*)d,(int)v.c,n); memset(SHD+(d-BASE),1,n); } else for(u64 i=0;i<n;i++) storeN(d+i,v,8); }
struct HeapBlk { u64 sz; bool live; }; static std::unordered_map<u64,HeapBlk> g_heap; static std::unordered_map<u64,std::vector<u64>> g_freeBig; static u64 g_live=0;
static u64 heapAlloc(u64 n,int fill){ u64 r=(n+15)/16*16; if(r==0) r=16; u64 a=0; if(r>=65536){ auto it=g_freeBig.find(r); if(it!=g_freeBig.end()&&!it->second.empty()){ a=it->second.back(); it->second.pop_back(); } }
  if(!a){ a=brk_; brk_+=r+16; if(brk_>=BASE+ASZ-4096) fatal("arena exhausted"); }
  memset(SHD+(a-BASE),1,n); memset(SHD+(a-BASE)+n,0,r+16-n>16?r-n:0); memset((void*)a,fill,n); g_heap[a]={n,true}; g_live+=n; return a; }
static void heapFree(u64 a){ if(!a) return; auto it=g_heap.find(a); if(it==g_heap.end()||!it->second.live) memErr("invalid free",a,0); u64 n=it->second.sz; it->second.live=false; g_live-=n; memset(SHD+(a-BASE),0,n); u64 r=(n+15)/16*16; if(!r) r=16; if(r>=65536){ g_freeBig[r].push_back(a); } }
static std::string cstr(u64 a){ std::string s; while(1){ if(!addressable(a,1)) memErr("invalid read",a,1); if(SHD[a-BASE]!=1) { s+='?'; a++; continue; } char c=*(char*)a++; if(!c) break; s+=c; if(s.size()>4000) break; } return s; }
// ============================================================ decoded program
struct Edge { int pc; std::vector<std::pair<int,int>> cp; };
struct GepOp { int r; i64 scale; u8 w; };
struct DFunc;
struct DI { u16 op; u8 w, w2; int dst, a, b, c; u64 imm; std::vector<int> ops; std::vector<Edge> ed; std::vector<u64> cases; std::vector<GepOp> gep; DFunc* fn; std::vector<u8> ow; unsigned line; u16 sub; const char* file; };
struct DFunc { std::string name; Function*F; bool decoded=false; int nregs=0; int nargs=0; std::vector<DI> code; std::vector<Val> consts; u64 addr=0; int ext=0; int id=0; bool vararg=false; std::vector<u8> pw; };
static std::vector<DFunc*> g_fn; static std::unordered_map<Function*,DFunc*> g_fm; static std::unordered_map<u64,DFunc*> g_fa; static std::unordered_map<const GlobalVariable*,u64> g_ga; static Module*M; static const DataLayout*DL;
static std::vector<std::vector<Val>> g_aggs;
enum Op { O_BIN=1,O_ICMP,O_FCMP,O_FBIN,O_FNEG,O_LOAD,O_STORE,O_ALLOCA,O_GEP,O_CAST,O_BR,O_CBR,O_SWITCH,O_RET,O_CALL,O_SELECT,O_UNREACH,O_EXTRACTV,O_INSERTV,O_NOP };
enum Ext { X_NONE=0,X_SYM,X_ASSUME,X_ASSERT,X_COVER,X_MALLOC,X_CALLOC,X_REALLOC,X_FREE,X_MEMCPY,X_MEMMOVE,X_MEMSET,X_STOP,X_CONCRETE,X_ISSYM,X_MEMEQ,X_ABORT,X_VASTART,X_VAEND,X_VACOPY,X_FLOOR,X_CEIL,X_TRUNC,X_RINT,X_ROUND,X_FABS,X_SQRT,X_POW,X_LOG10,X_FMOD,X_ABS,X_UMIN,X_UMAX,X_SMIN,X_SMAX,X_CTLZ,X_CTTZ,X_CTPOP,X_BSWAP,X_FSHL,X_FSHR,X_NOPF,X_PRINT,X_MARK,X_EXPECT,X_ITE,X_FREXP,X_STACKSAVE,X_STACKREST,X_USUBSAT,X_ARG,X_NATIVE,X_STRLEN,X_OUT,X_EXPF,X_LOGF,X_FMTD,X_STRTOD };
static std::map<std::string,int> g_extmap={{"dsym_sym",X_SYM},{"dsym_assume",X_ASSUME},{"dsym_assert",X_ASSERT},{"dsym_cover",X_COVER},{"malloc",X_MALLOC},{"calloc",X_CALLOC},{"realloc",X_REALLOC},{"free",X_FREE},{"memcpy",X_MEMCPY},{"memmove",X_MEMMOVE},{"memset",X_MEMSET},{"dsym_stop",X_STOP},{"dsym_concretize",X_CONCRETE},{"dsym_is_symbolic",X_ISSYM},{"dsym_memeq",X_MEMEQ},{"abort",X_ABORT},{"floor",X_FLOOR},{"ceil",X_CEIL},{"trunc",X_TRUNC},{"rint",X_RINT},{"round",X_ROUND},{"fabs",X_FABS},{"sqrt",X_SQRT},{"pow",X_POW},{"log10",X_LOG10},{"fmod",X_FMOD},{"dsym_print",X_PRINT},{"dsym_ite",X_ITE},{"frexp",X_FREXP},{"dsym_strlen",X_STRLEN},{"dsym_out",X_OUT},{"exp",X_EXPF},{"log",X_LOGF},{"dsym_fmtd",X_FMTD},{"dsym_strtod",X_STRTOD}};
static unsigned tw(Type*T){ if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isPointerTy()) return 64; if(T->isFloatTy()) return 32; if(T->isDoubleTy()) return 64; return 0; }
static DFunc* getFn(Function*F);
static Val constVal(Constant*C);
static u64 constAddr(Constant*C){ Val v=constVal(C); return v.c; }
static Val constVal(Constant*C){
  if(auto*I=dyn_cast<ConstantInt>(C)){ if(I->getBitWidth()>64) return cv(I->getValue().trunc(64).getZExtValue()); return cv(I->getZExtValue()); }
  if(auto*Fp=dyn_cast<ConstantFP>(C)){ if(Fp->getType()->isX86_FP80Ty()) return cv(0); return cv(Fp->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if(isa<ConstantPointerNull>(C)) return cv(0);
  if(isa<UndefValue>(C)) { if(C->getType()->isAggregateType()){ unsigned n=C->getType()->isStructTy()?C->getType()->getStructNumElements():C->getType()->getArrayNumElements(); g_aggs.push_back(std::vector<Val>(n,cv(0))); return cv(g_aggs.size()-1);} return cv(0); }
  if(auto*F=dyn_cast<Function>(C)) return cv(getFn(F)->addr);
  if(auto*G=dyn_cast<GlobalVariable>(C)){ auto it=g_ga.find(G); if(it==g_ga.end()){ fprintf(stderr,"no global %s\n",G->getName().str().c_str()); exit(3);} return cv(it->second); }
  if(auto*A=dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if(auto*E=dyn_cast<ConstantExpr>(C)){
    switch(E->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); auto*G=cast<GEPOperator>(E); if(!G->accumulateConstantOffset(*DL,off)){ fprintf(stderr,"gep const\n"); exit(3);} return cv(constAddr(cast<Constant>(G->getPointerOperand()))+off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return cv(constAddr(E->getOperand(0))&mask(tw(E->getType())));
      case Instruction::Trunc: return cv(constAddr(E->getOperand(0))&mask(tw(E->getType())));
      case Instruction::Sub: return cv((constAddr(E->getOperand(0))-constAddr(E->getOperand(1)))&mask(tw(E->getType())));
      case Instruction::Add: return cv((constAddr(E->getOperand(0))+constAddr(E->getOperand(1)))&mask(tw(E->getType())));
      case Instruction::ICmp: { u64 a=constAddr(E->getOperand(0)),b=constAddr(E->getOperand(1)); switch(E->getPredicate()){ case CmpInst::ICMP_EQ:return cv(a==b); case CmpInst::ICMP_NE:return cv(a!=b); case CmpInst::ICMP_ULT:return cv(a<b); default:break; } break; }
    }
    fprintf(stderr,"const expr op %s\n",E->getOpcodeName()); exit(3);
  }
  if(C->getType()->isAggregateType()){ unsigned n=C->getType()->isStructTy()?C->getType()->getStructNumElements():C->getType()->getArrayNumElements(); std::vector<Val> v(n,cv(0)); for(unsigned i=0;i<n;i++){ Constant*x=C->getAggregateElement(i); v[i]=constVal(x);} g_aggs.push_back(v); return cv(g_aggs.size()-1); }
  fprintf(stderr,"unsupported constant\n"); exit(3);
}
static void initGlobal(u64 a,Constant*C){
  Type*T=C->getType(); if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return;
  if(T->isStructTy()){ auto*SL=DL->getStructLayout(cast<StructType>(T)); for(unsigned i=0;i<T->getStructNumElements();i++) initGlobal(a+SL->getElementOffset(i),C->getAggregateElement(i)); return; }
  if(T->isArrayTy()){ if(auto*D=dyn_cast<ConstantDataSequential>(C)){ StringRef s=D->getRawDataValues(); memcpy((void*)a,s.data(),s.size()); return; } u64 es=DL->getTypeAllocSize(T->getArrayElementType()); for(unsigned i=0;i<T->getArrayNumElements();i++) initGlobal(a+es*i,C->getAggregateElement(i)); return; }
  u64 v=constVal(C).c; unsigned w=tw(T); memcpy((void*)a,&v,(w+7)/8);
}
static DFunc* getFn(Function*F){
  auto it=g_fm.find(F); if(it!=g_fm.end()) return it->second; 
  Function*T=F; if(F->isDeclaration()){ std::string n=F->getName().str(); Function*R=M->getFunction("rt_"+n); if(R&&!R->isDeclaration()){ DFunc*d=getFn(R); g_fm[F]=d; return d; } }
  DFunc*d=new DFunc(); d->name=F->getName().str(); d->F=T; d->id=g_fn.size(); d->addr=fnbase+16*(1+d->id); g_fn.push_back(d); g_fm[F]=d; g_fa[d->addr]=d; d->vararg=F->isVarArg();
  if(F->isDeclaration()){ std::string n=d->name; auto e=g_extmap.find(n); if(e!=g_extmap.end()) d->ext=e->second; else if(n.rfind("llvm.",0)==0){
      auto st=[&](const char*p){return n.rfind(p,0)==0;};
      if(st("llvm.memcpy")) d->ext=X_MEMCPY; else if(st("llvm.memmove")) d->ext=X_MEMMOVE; else if(st("llvm.memset")) d->ext=X_MEMSET; else if(st("llvm.va_start")) d->ext=X_VASTART; else if(st("llvm.va_end")) d->ext=X_NOPF; else if(st("llvm.va_copy")) d->ext=X_VACOPY; else if(st("llvm.lifetime")||st("llvm.dbg")||st("llvm.assume")||st("llvm.experimental.noalias")||st("llvm.invariant")) d->ext=X_NOPF; else if(st("llvm.fabs")) d->ext=X_FABS; else if(st("llvm.floor")) d->ext=X_FLOOR; else if(st("llvm.ceil")) d->ext=X_CEIL; else if(st("llvm.trunc.")) d->ext=X_TRUNC; else if(st("llvm.rint")||st("llvm.nearbyint")) d->ext=X_RINT; else if(st("llvm.round.")) d->ext=X_ROUND; else if(st("llvm.sqrt")) d->ext=X_SQRT; else if(st("llvm.abs")) d->ext=X_ABS; else if(st("llvm.umin")) d->ext=X_UMIN; else if(st("llvm.umax")) d->ext=X_UMAX; else if(st("llvm.smin")) d->ext=X_SMIN; else if(st("llvm.smax")) d->ext=X_SMAX; else if(st("llvm.ctlz")) d->ext=X_CTLZ; else if(st("llvm.cttz")) d->ext=X_CTTZ; else if(st("llvm.ctpop")) d->ext=X_CTPOP; else if(st("llvm.bswap")) d->ext=X_BSWAP; else if(st("llvm.fshl")) d->ext=X_FSHL; else if(st("llvm.fshr")) d->ext=X_FSHR; else if(st("llvm.expect")) d->ext=X_EXPECT; else if(st("llvm.stacksave")) d->ext=X_STACKSAVE; else if(st("llvm.stackrestore")) d->ext=X_STACKREST; else if(st("llvm.usub.sat")) d->ext=X_USUBSAT; else if(st("llvm.trap")||st("llvm.ubsantrap")) d->ext=X_ABORT; } }
  return d;
}
static void decode(DFunc*d){
  if(d->decoded) return; d->decoded=true; Function*F=d->F; if(F->isDeclaration()) return;
  std::unordered_map<Value*,int> reg; std::unordered_map<Value*,int> cst; int nr=0; for(auto&A:F->args()){ reg[&A]=nr++; d->pw.push_back(tw(A.getType())); } d->nargs=nr;
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=nr++;
  d->nregs=nr;
  auto opnd=[&](Value*V)->int{ auto it=reg.find(V); if(it!=reg.end()) return it->second; auto*C=dyn_cast<Constant>(V); if(!C){ if(isa<MetadataAsValue>(V)) { d->consts.push_back(cv(0)); return ~(int)(d->consts.size()-1);} fprintf(stderr,"operand?\n"); exit(3);} auto jt=cst.find(V); if(jt!=cst.end()) return jt->second; d->consts.push_back(constVal(C)); int r=~(int)(d->consts.size()-1); cst[V]=r; return r; };
  std::unordered_map<BasicBlock*,int> bpc; struct Fix{int pc;int ed;BasicBlock*B;}; std::vector<Fix> fixes;
  auto mkEdge=[&](DI&di,BasicBlock*from,BasicBlock*to){ Edge e; e.pc=-1; for(auto&P:to->phis()) e.cp.push_back({reg[&P],opnd(P.getIncomingValueForBlock(from))}); fixes.push_back({(int)d->code.size(),(int)di.ed.size(),to}); di.ed.push_back(e); };
  for(auto&B:*F){ bpc[&B]=d->code.size();
    for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue;
      DI x; x.op=0;x.w=x.w2=0;x.dst=-1;x.a=x.b=x.c=0;x.imm=0;x.fn=nullptr;x.sub=0;x.line=0;x.file=""; if(auto&L=I.getDebugLoc()){ x.line=L.getLine(); if(auto*S=dyn_cast_or_null<DIScope>(L.getScope())) x.file=strdup(S->getFilename().str().c_str()); }
      if(!I.getType()->isVoidTy()) x.dst=reg[&I]; x.w=tw(I.getType());
      switch(I.getOpcode()){
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
          { static std::map<unsigned,Kind> km={{Instruction::Add,K_ADD},{Instruction::Sub,K_SUB},{Instruction::Mul,K_MUL},{Instruction::UDiv,K_UDIV},{Instruction::SDiv,K_SDIV},{Instruction::URem,K_UREM},{Instruction::SRem,K_SREM},{Instruction::And,K_AND},{Instruction::Or,K_OR},{Instruction::Xor,K_XOR},{Instruction::Shl,K_SHL},{Instruction::LShr,K_LSHR},{Instruction::AShr,K_ASHR}};
          x.op=O_BIN; x.sub=km[I.getOpcode()]; x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); if(x.w==0){ x.op=O_UNREACH; x.sub=1; } break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.op=O_FBIN; x.sub=I.getOpcode()==Instruction::FAdd?K_FADD:I.getOpcode()==Instruction::FSub?K_FSUB:I.getOpcode()==Instruction::FMul?K_FMUL:I.getOpcode()==Instruction::FDiv?K_FDIV:999; x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); if(x.w==0){ x.op=O_UNREACH; x.sub=2; } break;
        case Instruction::FNeg: x.op=O_FNEG; x.a=opnd(I.getOperand(0)); break;
        case Instruction::ICmp: x.op=O_ICMP; x.sub=cast<CmpInst>(I).getPredicate(); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.w2=tw(I.getOperand(0)->getType()); break;
        case Instruction::FCmp: x.op=O_FCMP; x.sub=cast<CmpInst>(I).getPredicate(); x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.w2=tw(I.getOperand(0)->getType()); break;
        case Instruction::Load: x.op=O_LOAD; x.a=opnd(I.getOperand(0)); if(x.w==0){ x.op=O_UNREACH; x.sub=3; } break;
        case Instruction::Store: x.op=O_STORE; x.a=opnd(I.getOperand(1)); x.b=opnd(I.getOperand(0)); x.w=tw(I.getOperand(0)->getType()); if(x.w==0){ x.op=O_UNREACH; x.sub=4; } break;
        case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); x.op=O_ALLOCA; x.imm=DL->getTypeAllocSize(A.getAllocatedType()); x.a=opnd(A.getArraySize()); x.w2=tw(A.getArraySize()->getType()); break; }
        case Instruction::GetElementPtr: { auto*G=cast<GEPOperator>(&I); x.op=O_GEP; x.a=opnd(G->getPointerOperand()); i64 off=0; for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*ST=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { i64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*CI=dyn_cast<ConstantInt>(ix)) off+=CI->getSExtValue()*sz; else x.gep.push_back({opnd(ix),sz,(u8)tw(ix->getType())}); } } x.imm=(u64)off; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
          x.op=O_CAST; x.sub=I.getOpcode(); x.a=opnd(I.getOperand(0)); x.w2=tw(I.getOperand(0)->getType()); if(!x.w||!x.w2){ x.op=O_UNREACH; x.sub=5; } break;
        case Instruction::Br: { auto&Br=cast<BranchInst>(I); if(Br.isConditional()){ x.op=O_CBR; x.a=opnd(Br.getCondition()); mkEdge(x,&B,Br.getSuccessor(0)); mkEdge(x,&B,Br.getSuccessor(1)); } else { x.op=O_BR; mkEdge(x,&B,Br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto&S=cast<SwitchInst>(I); x.op=O_SWITCH; x.a=opnd(S.getCondition()); x.w2=tw(S.getCondition()->getType()); mkEdge(x,&B,S.getDefaultDest()); for(auto&cs:S.cases()){ x.cases.push_back(cs.getCaseValue()->getZExtValue()); mkEdge(x,&B,cs.getCaseSuccessor()); } break; }
        case Instruction::Ret: x.op=O_RET; x.a=I.getNumOperands()?opnd(I.getOperand(0)):0; x.imm=I.getNumOperands(); break;
        case Instruction::Unreachable: x.op=O_UNREACH; break;
        case Instruction::Select: x.op=O_SELECT; x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.c=opnd(I.getOperand(2)); break;
        case Instruction::ExtractValue: x.op=O_EXTRACTV; x.a=opnd(I.getOperand(0)); x.imm=cast<ExtractValueInst>(I).getIndices()[0]; break;
        case Instruction::InsertValue: x.op=O_INSERTV; x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.imm=cast<InsertValueInst>(I).getIndices()[0]; break;
        case Instruction::Call: { auto&CB=cast<CallInst>(I); x.op=O_CALL; Value*cal=CB.getCalledOperand()->stripPointerCasts(); if(auto*GA=dyn_cast<GlobalAlias>(cal)) cal=GA->getAliasee()->stripPointerCasts(); if(auto*CF=dyn_cast<Function>(cal)){ x.fn=getFn(CF); if(x.fn->ext==X_NOPF) { if(x.dst<0) continue; } } else x.a=opnd(CB.getCalledOperand()); for(auto&ag:CB.args()){ x.ops.push_back(opnd(ag.get())); unsigned w=tw(ag->getType()); x.ow.push_back(w);} 
            if(CB.isInlineAsm()) { x.op=O_UNREACH; x.sub=6; } 
            for(unsigned ai=0;ai<CB.arg_size();ai++) if(CB.paramHasAttr(ai,Attribute::ByVal)){ x.cases.push_back(((u64)ai<<32)|DL->getTypeAllocSize(CB.getParamByValType(ai))); }
            break; }
        default: fprintf(stderr,"unsupported instruction %s in %s\n",I.getOpcodeName(),d->name.c_str()); x.op=O_UNREACH; x.sub=7;
      }
      d->code.push_back(x); } }
  for(auto&f:fixes) d->code[f.pc].ed[f.ed].pc=bpc[f.B];
}
// ============================================================ interpreter
struct Frame { DFunc*f; int pc; size_t rb; u64 sp0; int retdst; u64 va; };
static std::vector<Val> R; static std::vector<Frame> ST; static size_t rtop=0;
static std::string curFunc(){ for(int i=(int)ST.size()-1;i>=0;i--) if(ST[i].f->name.compare(0,3,"rt_")) return ST[i].f->name; return "?"; }
static std::string curWhere(){ std::string s; for(int i=(int)ST.size()-1,n=0;i>=0&&n<7;i--,n++){ DFunc*f=ST[i].f; int pc=ST[i].pc-1; unsigned ln=(pc>=0&&pc<(int)f->code.size())?f->code[pc].line:0; s+=(n?" < ":"")+f->name+":"+std::to_string(ln); } return s; }
static u64 pushVar(std::vector<std::pair<Val,unsigned>>&va){ // returns address of the overflow area
  u64 n=va.size()*8; u64 a=sp; sp=(sp+n+16+15)/16*16; memset(SHD+(a-BASE),1,n); for(size_t i=0;i<va.size();i++){ Val v=va[i].first; unsigned w=va[i].second; if(v.e&&w<64) v.e=mkZext(v.e,64); storeN(a+8*i,v,64);} return a; }
static void enter(DFunc*f,const std::vector<Val>&args,const std::vector<u8>&aw,int retdst,u64 sp0){
  decode(f); SH->fn[f->id]=1; if(ST.size()>4000) { fatal("call depth"); }
  Frame fr; fr.f=f; fr.pc=0; fr.rb=rtop; fr.sp0=sp0; fr.retdst=retdst; fr.va=0; rtop+=f->nregs; if(R.size()<rtop+16) R.resize(rtop*2+1024);
  for(int i=0;i<f->nargs&&i<(int)args.size();i++) R[fr.rb+i]=args[i]; for(int i=args.size();i<f->nargs;i++) R[fr.rb+i]=cv(0);
  if(f->vararg){ std::vector<std::pair<Val,unsigned>> va; for(size_t i=f->nargs;i<args.size();i++) va.push_back({args[i],aw[i]}); fr.va=pushVar(va); }
  ST.push_back(fr);
}
static void popStack(u64 to){ if(sp>to){ memset(SHD+(to-BASE),0,sp-to); sp=to; } }
static u64 allocaN(u64 n){ u64 a=(sp+15)/16*16; u64 e=a+n+32; if(e>=STK1) fatal("stack overflow"); memset((void*)a,0xfe,n); memset(SHD+(a-BASE),1,n); sp=e; return a; }
static Val icmp(unsigned p,Val a,Val b,unsigned w){
  if(!a.e&&!b.e){ u64 x=a.c&mask(w),y=b.c&mask(w); i64 sa=sx(x,w),sb=sx(y,w); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=sa>sb;break; case CmpInst::ICMP_SGE:r=sa>=sb;break; case CmpInst::ICMP_SLT:r=sa<sb;break; default:r=sa<=sb; } return cv(r); }
  Expr*x=ex(a,w),*y=ex(b,w); switch(p){ case CmpInst::ICMP_EQ:return ve(mkBin(K_EQ,x,y)); case CmpInst::ICMP_NE:return ve(mkNot(mkBin(K_EQ,x,y))); case CmpInst::ICMP_UGT:return ve(mkBin(K_ULT,y,x)); case CmpInst::ICMP_UGE:return ve(mkBin(K_ULE,y,x)); case CmpInst::ICMP_ULT:return ve(mkBin(K_ULT,x,y)); case CmpInst::ICMP_ULE:return ve(mkBin(K_ULE,x,y)); case CmpInst::ICMP_SGT:return ve(mkBin(K_SLT,y,x)); case CmpInst::ICMP_SGE:return ve(mkBin(K_SLE,y,x)); case CmpInst::ICMP_SLT:return ve(mkBin(K_SLT,x,y)); default:return ve(mkBin(K_SLE,x,y)); }
}
static Expr* isNanE(Expr*x){ unsigned w=x->w; u64 m=w==64?0x7fffffffffffffffull:0x7fffffffu, inf=w==64?0x7ff0000000000000ull:0x7f800000u; return mkBin(K_ULT,mkConst(inf,w),mkBin(K_AND,x,mkConst(m,w))); }
static Expr* isZeroE(Expr*x){ unsigned w=x->w; return mkBin(K_EQ,mkExtract(x,0,w-1),mkConst(0,w-1)); }
static Expr* key(Expr*x){ unsigned w=x->w; u64 sgn=1ull<<(w-1); // order-preserving map of non-NaN floats to unsigned; -0 and +0 both map to sgn
  if(x->k==K_CONST){ u64 v=x->v; if((v&~sgn)==0) return mkConst(sgn,w); return mkConst((v&sgn)?(0-(v&~sgn))+sgn:v+sgn,w); }
  Expr*mag=mkBin(K_AND,x,mkConst(~sgn,w)); Expr*neg=mkBin(K_EQ,mkExtract(x,w-1,1),mkConst(1,1)); return mkIte(neg,mkBin(K_SUB,mkConst(sgn,w),mag),mkBin(K_ADD,mag,mkConst(sgn,w))); }
static Val fcmp(unsigned p,Val a,Val b,unsigned w){
  bool eq,lt,un; if(!a.e&&!b.e){ double x,y; if(w==64){ memcpy(&x,&a.c,8); memcpy(&y,&b.c,8);} else { float f; u32 u=a.c; memcpy(&f,&u,4); x=f; u=b.c; memcpy(&f,&u,4); y=f; } un=std::isnan(x)||std::isnan(y); eq=x==y; lt=x<y; bool gt=x>y; bool r; switch(p){ case CmpInst::FCMP_FALSE:r=0;break; case CmpInst::FCMP_OEQ:r=eq;break; case CmpInst::FCMP_OGT:r=gt;break; case CmpInst::FCMP_OGE:r=gt||eq;break; case CmpInst::FCMP_OLT:r=lt;break; case CmpInst::FCMP_OLE:r=lt||eq;break; case CmpInst::FCMP_ONE:r=lt||gt;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||eq;break; case CmpInst::FCMP_UGT:r=un||gt;break; case CmpInst::FCMP_UGE:r=un||gt||eq;break; case CmpInst::FCMP_ULT:r=un||lt;break; case CmpInst::FCMP_ULE:r=un||lt||eq;break; case CmpInst::FCMP_UNE:r=!eq;break; default:r=1; } return cv(r); }
  if(w==64&&((a.e&&a.e->k==K_FPEXT)||(b.e&&b.e->k==K_FPEXT))){ auto down=[&](Val v,Val&o){ if(v.e){ if(v.e->k!=K_FPEXT) return false; o=ve(v.e->a); return true; } double d; memcpy(&d,&v.c,8); float f=(float)d; double g=f; if(memcmp(&g,&d,8)) return false; u32 u; memcpy(&u,&f,4); o=cv(u); return true; }; Val da,db; if(down(a,da)&&down(b,db)) return fcmp(p,da,db,32); }
  Expr*x=ex(a,w),*y=ex(b,w); Expr*U=mkOrB(isNanE(x),isNanE(y)),*O=mkNot(U); Expr*EQ,*LT;
  if(y->k==K_CONST&&(y->v&mask(w-1))) EQ=mkBin(K_EQ,x,y); else if(x->k==K_CONST&&(x->v&mask(w-1))) EQ=mkBin(K_EQ,x,y); else if(y->k==K_CONST) EQ=isZeroE(x); else if(x->k==K_CONST) EQ=isZeroE(y); else EQ=mkOrB(mkBin(K_EQ,x,y),mkAndB(isZeroE(x),isZeroE(y)));
  auto lte=[&](Expr*p,Expr*q){ return mkBin(K_ULT,key(p),key(q)); };
  Expr*r; switch(p){ case CmpInst::FCMP_FALSE:return cv(0); case CmpInst::FCMP_TRUE:return cv(1); case CmpInst::FCMP_OEQ:r=mkAndB(O,EQ);break; case CmpInst::FCMP_UNE:r=mkNot(mkAndB(O,EQ));break; case CmpInst::FCMP_UEQ:r=mkOrB(U,EQ);break; case CmpInst::FCMP_ONE:r=mkAndB(O,mkNot(EQ));break; case CmpInst::FCMP_ORD:r=O;break; case CmpInst::FCMP_UNO:r=U;break;
    case CmpInst::FCMP_OLT:r=mkAndB(O,lte(x,y));break; case CmpInst::FCMP_OGT:r=mkAndB(O,lte(y,x));break; case CmpInst::FCMP_OLE:r=mkAndB(O,mkNot(lte(y,x)));break; case CmpInst::FCMP_OGE:r=mkAndB(O,mkNot(lte(x,y)));break;
    case CmpInst::FCMP_ULT:r=mkOrB(U,lte(x,y));break; case CmpInst::FCMP_UGT:r=mkOrB(U,lte(y,x));break; case CmpInst::FCMP_ULE:r=mkOrB(U,mkNot(lte(y,x)));break; case CmpInst::FCMP_UGE:r=mkOrB(U,mkNot(lte(x,y)));break; default:return cv(0);} (void)LT; (void)lt; return ve(tabulate(r));
}
static Val binop(Kind k,Val a,Val b,unsigned w){ 
  if(k==K_UDIV||k==K_SDIV||k==K_UREM||k==K_SREM){ if(!b.e){ if(b.c==0){ report("arithmetic: division by zero","memory",g_model); endPath(E_ERR);} } else { Expr*z=mkBin(K_EQ,b.e,mkConst(0,w)); if(decide(z)){ report("arithmetic: division by zero","memory",g_model); endPath(E_ERR);} } }
  if(!a.e&&!b.e) return cv(evalOp(k,w,w,a.c,b.c,0,0,w)); return ve(mkBin(k,ex(a,w),ex(b,w))); }
static u64 addrOf(Val v){ if(!v.e) return v.c; return concretize(v.e); }
static bool g_ptrEnum=true;
static Val loadSymPtr(Expr*p,unsigned w){
  p=substFacts(p,g_subep); if(p->k==K_CONST) return loadN(p->v,w);
  { auto it=g_eq.find(p); if(it!=g_eq.end()) return loadN(it->second,w); }
  std::vector<u64> vals; Expr*notin=mkConst(1,1); std::vector<u64> m; u64 v=evalM(p); vals.push_back(v); notin=mkNot(mkBin(K_EQ,p,mkConst(v,64)));
  while(vals.size()<=300){ SatRes r=query(notin,m); if(r==UNKNOWN){ setIncomplete("solver unknown on address"); break; } if(r==UNSAT) break; static u32 ep=0xC0000000; v=evalExpr(p,m,++ep); vals.push_back(v); notin=mkAndB(notin,mkNot(mkBin(K_EQ,p,mkConst(v,64)))); }
  if(vals.size()==1){ learnFact(mkBin(K_EQ,p,mkConst(vals[0],64))); g_subep++; return loadN(vals[0],w); }
  if(vals.size()>300) { u64 c=concretize(p); return loadN(c,w); }
  unsigned n=(w+7)/8; for(u64 q:vals) if(!addressable(q,n)){ u64 c=concretize(p); return loadN(c,w); }
  std::sort(vals.begin(),vals.end()); Expr*r=nullptr; for(size_t i=vals.size();i-->0;){ Expr*e=ex(loadN(vals[i],w),w); r=r?mkIte(mkBin(K_EQ,p,mkConst(vals[i],64)),e,r):e; }
  __sync_add_and_fetch(&SH->memchecks_sym,1); return ve(r);
}
static double asD(Val v){ double d; memcpy(&d,&v.c,8); return d; } static Val fromD(double d){ u64 u; memcpy(&u,&d,8); return cv(u); }
static Val extCall(DFunc*f,std::vector<Val>&a,const DI&x,bool&handled){
  handled=true; auto W=[&](int i){return (unsigned)x.ow[i];};
  switch(f->ext){
    case X_NOPF: return cv(0);
    case X_SYM: { u64 p=addrOf(a[0]); u64 n=addrOf(a[1]); std::string nm=cstr(addrOf(a[2])); if(!addressable(p,n)) memErr("dsym_sym",p,n); SymObj o; o.name=nm; unsigned g=g_objs.size(); if(n==1||n==2||n==4||n==8){ Expr*e=mkSym(nm,8*n,g,0); storeN(p,Val{0,e},8*n); for(u64 i=0;i<n;i++) o.bytes.push_back(mkExtract(e,8*i,8)); } else for(u64 i=0;i<n;i++){ Expr*e=mkSym(nm,8,g,i); storeN(p+i,Val{0,e},8); o.bytes.push_back(e);} g_objs.push_back(o); g_model.resize(g_vars.size(),0); return cv(0); }
    case X_ASSUME: { Val c=a[0]; if(!c.e){ if(!c.c) endPath(E_ASSUME); return cv(0);} Expr*e=mkNot(mkBin(K_EQ,c.e,mkConst(0,c.e->w))); e=substFacts(e,g_subep); if(e->k==K_CONST){ if(!e->v) endPath(E_ASSUME); return cv(0);} if(evalM(e)){ addCons(e); return cv(0);} std::vector<u64> m; SatRes r=query(e,m); if(r==SAT){ addCons(e); setModel(m); return cv(0);} if(r==UNKNOWN) setIncomplete("solver unknown on assume"); endPath(E_ASSUME); }
    case X_ASSERT: { std::string l=cstr(addrOf(a[1])); if(!a[0].e) doAssert(nullptr,true,a[0].c!=0,l.c_str()); else { Expr*e=mkNot(mkBin(K_EQ,a[0].e,mkConst(0,a[0].e->w))); if(e->k==K_CONST) doAssert(nullptr,true,e->v,l.c_str()); else doAssert(e,false,0,l.c_str()); } return cv(0); }
    case X_COVER: { std::string l=cstr(addrOf(a[0])); lk(); int li=labelIdx(SH->cov,SH->ncov,l.c_str()); SH->cov[li].reached++; ulk(); return cv(0); }
    case X_STOP: endPath(E_OK);
    case X_CONCRETE: return cv(addrOf(a[0]));
    case X_ISSYM: { u64 p=addrOf(a[0]),n=addrOf(a[1]); if(!addressable(p,n)) memErr("invalid read",p,n); return cv(!allConc(p,n)); }
    case X_MEMEQ: { u64 p=addrOf(a[0]),q=addrOf(a[1]),n=addrOf(a[2]); if(!addressable(p,n)||!addressable(q,n)) memErr("invalid read",p,n); Expr*r=mkConst(1,1); u64 i=0; while(i<n){ unsigned s=(n-i>=8)?8:(n-i>=4?4:1); r=mkAndB(r,mkBin(K_EQ,ex(loadN(p+i,8*s),8*s),ex(loadN(q+i,8*s),8*s))); i+=s; if(r->k==K_CONST&&!r->v) break; } return ve(mkZext(r,32)); }
    case X_ITE: { if(!a[0].e) return a[0].c?a[1]:a[2]; Expr*c=mkNot(mkBin(K_EQ,a[0].e,mkConst(0,a[0].e->w))); return ve(mkIte(c,ex(a[1],W(1)),ex(a[2],W(2)))); }
    case X_MALLOC: { u64 n=addrOf(a[0]); if(n>>40) return cv(0); return cv(heapAlloc(n,0xBE)); }
    case X_CALLOC: { unsigned __int128 nn=(unsigned __int128)addrOf(a[0])*addrOf(a[1]); if(nn>>40) return cv(0); u64 n=(u64)nn; return cv(heapAlloc(n,0)); }
    case X_REALLOC: { u64 p=addrOf(a[0]),n=addrOf(a[1]); if(n>>40) return cv(0); if(!p) return cv(heapAlloc(n,0xBE)); auto it=g_heap.find(p); if(it==g_heap.end()||!it->second.live) memErr("invalid realloc",p,n); u64 o=it->second.sz; u64 q=heapAlloc(n,0xBE); copyMem(q,p,std::min(o,n)); heapFree(p); return cv(q); }
    case X_FREE: heapFree(addrOf(a[0])); return cv(0);
    case X_MEMCPY: case X_MEMMOVE: { u64 d=addrOf(a[0]),s=addrOf(a[1]),n=addrOf(a[2]); if((i64)n<0) memErr("negative copy size",d,n); copyMem(d,s,n); return cv(d); }
    case X_MEMSET: { u64 d=addrOf(a[0]),n=addrOf(a[2]); Val v=a[1]; if(v.e) v=ve(mkExtract(v.e,0,8)); else v.c&=0xff; if((i64)n<0||n>ASZ) memErr("negative copy size",d,n); setMem(d,v,n); return cv(d); }
    case X_STRLEN: { u64 p=addrOf(a[0]); u64 n=0; while(1){ if(!addressable(p+n,1)) memErr("invalid read",p+n,1); if(SHD[p+n-BASE]==1){ if(*(u8*)(p+n)==0) break; } else { Expr*e=byteAt(p+n); if(decide(mkBin(K_EQ,e,mkConst(0,8)))) break; } n++; } return cv(n); }
    case X_ABORT: report("abort called","memory",g_model); endPath(E_ERR);
    case X_PRINT: { std::string l=cstr(addrOf(a[0])); Val v=a[1]; if(v.e) fprintf(stderr,"[%d] %s = sym(%llx) w%d k%d [%llx,%llx]\n",getpid(),l.c_str(),(unsigned long long)evalM(v.e),v.e->w,v.e->k,(unsigned long long)v.e->lo,(unsigned long long)v.e->hi); else fprintf(stderr,"[%d] %s = %llx\n",getpid(),l.c_str(),(unsigned long long)v.c); return cv(0); }
    case X_OUT: { SymObj o; o.name=cstr(addrOf(a[0])); u64 p=addrOf(a[1]),n=addrOf(a[2]); if(!addressable(p,n)) memErr("invalid read",p,n); for(u64 i=0;i<n;i++) o.bytes.push_back(ex(loadN(p+i,8),8)); g_outs.push_back(o); return cv(0); }
    case X_VASTART: { u64 p=addrOf(a[0]); storeN(p,cv(48),32); storeN(p+4,cv(304),32); storeN(p+8,cv(ST.back().va),64); storeN(p+16,cv(0),64); return cv(0); }
    case X_VACOPY: copyMem(addrOf(a[0]),addrOf(a[1]),24); return cv(0);
    case X_FLOOR: case X_CEIL: case X_TRUNC: case X_RINT: case X_ROUND: { u64 v=f->ext-X_FLOOR; if(a[0].e) return ve(mkFp1(K_FROUND,a[0].e,W(0),v)); return cv(evalOp(K_FROUND,W(0),W(0),a[0].c,0,0,v,0)); }
    case X_FABS: { unsigned w=W(0); if(a[0].e) return ve(mkBin(K_AND,a[0].e,mkConst(mask(w-1),w))); return cv(a[0].c&mask(w-1)); }
    case X_SQRT: if(a[0].e) return ve(mkFp1(K_FSQRT,a[0].e,W(0),0)); return cv(evalOp(K_FSQRT,W(0),W(0),a[0].c,0,0,0,0));
    case X_POW: if(a[0].e||a[1].e) fatal("symbolic pow"); return fromD(pow(asD(a[0]),asD(a[1])));
    case X_FMOD: if(a[0].e||a[1].e) fatal("symbolic fmod"); return fromD(fmod(asD(a[0]),asD(a[1])));
    case X_LOG10: if(a[0].e) fatal("symbolic log10"); return fromD(log10(asD(a[0])));
    case X_EXPF: if(a[0].e) fatal("symbolic exp"); return fromD(exp(asD(a[0])));
    case X_LOGF: if(a[0].e) fatal("symbolic log"); return fromD(log(asD(a[0])));
    case X_FMTD: { u64 o=addrOf(a[0]); u64 n=addrOf(a[1]); std::string sp_=cstr(addrOf(a[2])); char b[512]; if(a[3].e) snprintf(b,512,"<sym>"); else { double d=asD(a[3]); snprintf(b,512,sp_.c_str(),d); } u64 l=strlen(b); if(l>=n) l=n-1; b[l]=0; for(u64 i=0;i<=l;i++) storeN(o+i,cv((u8)b[i]),8); return cv(0); }
    case X_STRTOD: { u64 p=addrOf(a[0]); std::string t; for(u64 i=0;i<64;i++){ if(!addressable(p+i,1)) memErr("invalid read",p+i,1); u8 ch=SHD[p+i-BASE]==1?*(u8*)(p+i):(u8)concretize(byteAt(p+i)); if(!ch) break; t+=(char)ch; } char*en; double d=strtod(t.c_str(),&en); storeN(addrOf(a[1]),cv((u32)(en-t.c_str())),32); return fromD(d); }
    case X_FREXP: { if(a[0].e) fatal("symbolic frexp"); int e; double r=frexp(asD(a[0]),&e); storeN(addrOf(a[1]),cv((u32)e),32); return fromD(r); }
    case X_ABS: { unsigned w=W(0); if(!a[0].e){ i64 s=sx(a[0].c,w); return cv((u64)(s<0?-s:s)&mask(w)); } Expr*e=a[0].e; return ve(mkIte(mkBin(K_SLT,e,mkConst(0,w)),mkBin(K_SUB,mkConst(0,w),e),e)); }
    case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: { unsigned w=W(0); Expr*p=ex(a[0],w),*q=ex(a[1],w); Expr*c=mkBin((f->ext==X_UMIN||f->ext==X_UMAX)?K_ULT:K_SLT,p,q); bool mn=f->ext==X_UMIN||f->ext==X_SMIN; return ve(mkIte(c,mn?p:q,mn?q:p)); }
    case X_CTLZ: { if(a[0].e) fatal("symbolic ctlz"); unsigned w=W(0); u64 v=a[0].c; return cv(v?(__builtin_clzll(v)-(64-w)):w); }
    case X_CTTZ: { if(a[0].e) fatal("symbolic cttz"); unsigned w=W(0); u64 v=a[0].c; return cv(v?__builtin_ctzll(v):w); }
    case X_CTPOP: { unsigned w=W(0); if(!a[0].e) return cv(__builtin_popcountll(a[0].c)); Expr*s=mkConst(0,w); for(unsigned i=0;i<w;i++) s=mkBin(K_ADD,s,mkZext(mkExtract(a[0].e,i,1),w)); return ve(s); }
    case X_BSWAP: { unsigned w=W(0); if(!a[0].e){ u64 v=__builtin_bswap64(a[0].c)>>(64-w); return cv(v);} Expr*r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*b=mkExtract(a[0].e,i,8); r=r?mkConcat(r,b):b; } return ve(r); }
    case X_FSHL: case X_FSHR: { unsigned w=W(0); if(a[2].e) fatal("symbolic funnel shift"); unsigned s=a[2].c%w; if(f->ext==X_FSHL){ if(!s) return a[0]; Expr*h=mkBin(K_SHL,ex(a[0],w),mkConst(s,w)),*l=mkBin(K_LSHR,ex(a[1],w),mkConst(w-s,w)); return ve(mkBin(K_OR,h,l)); } if(!s) return a[1]; Expr*h=mkBin(K_SHL,ex(a[0],w),mkConst(w-s,w)),*l=mkBin(K_LSHR,ex(a[1],w),mkConst(s,w)); return ve(mkBin(K_OR,h,l)); }
    case X_EXPECT: return a[0];
    case X_STACKSAVE: return cv(sp); case X_STACKREST: popStack(addrOf(a[0])); return cv(0);
    case X_USUBSAT: { unsigned w=W(0); Expr*p=ex(a[0],w),*q=ex(a[1],w); return ve(mkIte(mkBin(K_ULT,q,p),mkBin(K_SUB,p,q),mkConst(0,w))); }
  }
  handled=false; return cv(0);
}
static void take(Frame&fr,const Edge&e){ 
  size_t n=e.cp.size(); if(n==0){ fr.pc=e.pc; return; } auto g=[&](int i)->Val{ return i>=0?R[fr.rb+i]:fr.f->consts[~i]; };
  if(n==1){ R[fr.rb+e.cp[0].first]=g(e.cp[0].second); fr.pc=e.pc; return; }
  Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=g(e.cp[i].second); for(size_t i=0;i<n;i++) R[fr.rb+e.cp[i].first]=t[i]; fr.pc=e.pc; }
static void run(){
  u64 cnt=0;
  while(1){
    Frame&fr=ST.back(); DFunc*f=fr.f; DI&x=f->code[fr.pc]; fr.pc++; g_inst++; if((++cnt&0xfffff)==0){ checkTime(); if(o_maxinst&&g_inst>o_maxinst){ report(("does not terminate: "+curFunc()).c_str(),"hang",g_model); endPath(E_ERR); } }
    if(o_prof) SH->prof[f->id]++;
    #define V(i) ((i)>=0?R[fr.rb+(i)]:f->consts[~(i)])
    #define D R[fr.rb+x.dst]
    switch(x.op){
      case O_BIN: { Val a=V(x.a),b=V(x.b); if(!a.e&&!b.e){ switch(x.sub){ case K_ADD: D=cv((a.c+b.c)&mask(x.w)); break; case K_SUB: D=cv((a.c-b.c)&mask(x.w)); break; case K_AND: D=cv(a.c&b.c); break; case K_MUL: D=cv((a.c*b.c)&mask(x.w)); break; default: { Val r=binop((Kind)x.sub,a,b,x.w); R[ST.back().rb+x.dst]=r; } } } else { Val r=binop((Kind)x.sub,a,b,x.w); R[ST.back().rb+x.dst]=r; } break; }
      case O_ICMP: D=icmp(x.sub,V(x.a),V(x.b),x.w2); break;
      case O_FCMP: D=fcmp(x.sub,V(x.a),V(x.b),x.w2); break;
      case O_FBIN: { Val a=V(x.a),b=V(x.b); if(x.sub==999) { if(a.e||b.e) fatal("symbolic frem"); if(x.w!=64) fatal("frem float"); D=fromD(fmod(asD(a),asD(b))); break; } if(!a.e&&!b.e) D=cv(evalOp((Kind)x.sub,x.w,x.w,a.c,b.c,0,0,x.w)); else { // constant on the right side only for commutative ops
          Expr*p=ex(a,x.w),*q=ex(b,x.w); D=ve(mkBin((Kind)x.sub,p,q)); } break; }
      case O_FNEG: { Val a=V(x.a); u64 s=1ull<<(x.w-1); if(!a.e) D=cv(a.c^s); else D=ve(mkBin(K_XOR,a.e,mkConst(s,x.w))); break; }
      case O_LOAD: { Val p=V(x.a); if(!p.e) D=loadN(p.c,x.w); else { Val r=loadSymPtr(p.e,x.w); R[ST.back().rb+x.dst]=r; } break; }
      case O_STORE: { Val p=V(x.a),v=V(x.b); if(!p.e) storeN(p.c,v,x.w); else { u64 a=concretize(p.e); storeN(a,v,x.w);} break; }
      case O_ALLOCA: { Val n=V(x.a); u64 k=addrOf(n); D=cv(allocaN(x.imm*k)); break; }
      case O_GEP: { Val b=V(x.a); if(x.gep.empty()){ if(!b.e) D=cv(b.c+x.imm); else D=ve(mkBin(K_ADD,b.e,mkConst(x.imm,64))); break; }
          bool sym=b.e!=nullptr; for(auto&g:x.gep) if(V(g.r).e) sym=true; if(!sym){ u64 a=b.c+x.imm; for(auto&g:x.gep) a+=(u64)(sx(V(g.r).c,g.w)*g.scale); D=cv(a); break; }
          Expr*e=mkBin(K_ADD,ex(b,64),mkConst(x.imm,64)); for(auto&g:x.gep){ Expr*i=mkSext(ex(V(g.r),g.w),64); e=mkBin(K_ADD,e,mkBin(K_MUL,i,mkConst((u64)g.scale,64))); } D=ve(e); break; }
      case O_CAST: { Val a=V(x.a); unsigned w=x.w,w2=x.w2; switch(x.sub){
          case Instruction::Trunc: D=a.e?ve(mkExtract(a.e,0,w)):cv(a.c&mask(w)); break;
          case Instruction::ZExt: D=a.e?ve(mkZext(a.e,w)):cv(a.c&mask(w2)); break;
          case Instruction::SExt: D=a.e?ve(mkSext(a.e,w)):cv((u64)sx(a.c,w2)&mask(w)); break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: D=a.e?ve(w<w2?mkExtract(a.e,0,w):mkZext(a.e,w)):cv(a.c&mask(w)); break;
          case Instruction::FPTrunc: D=a.e?ve(mkFp1(K_FPTRUNC,a.e,w)):cv(evalOp(K_FPTRUNC,w,w2,a.c,0,0,0,0)); break;
          case Instruction::FPExt: D=a.e?ve(mkFp1(K_FPEXT,a.e,w)):cv(evalOp(K_FPEXT,w,w2,a.c,0,0,0,0)); break;
          case Instruction::FPToSI: D=a.e?ve(tabulate(mkFp1(K_FPTOSI,a.e,w))):cv(evalOp(K_FPTOSI,w,w2,a.c,0,0,0,0)); break;
          case Instruction::FPToUI: D=a.e?ve(tabulate(mkFp1(K_FPTOUI,a.e,w))):cv(evalOp(K_FPTOUI,w,w2,a.c,0,0,0,0)); break;
          case Instruction::SIToFP: D=a.e?ve(mkFp1(K_SITOFP,a.e,w)):cv(evalOp(K_SITOFP,w,w2,a.c,0,0,0,0)); break;
          case Instruction::UIToFP: D=a.e?ve(mkFp1(K_UITOFP,a.e,w)):cv(evalOp(K_UITOFP,w,w2,a.c,0,0,0,0)); break;
          default: D=a; } break; }
      case O_BR: take(fr,x.ed[0]); break;
      case O_CBR: { Val c=V(x.a); bool t=c.e?decide(c.e):(c.c&1); take(ST.back(),x.ed[t?0:1]); break; }
      case O_SWITCH: { Val c=V(x.a); if(!c.e){ size_t i=0; for(;i<x.cases.size();i++) if(x.cases[i]==c.c) break; take(fr,x.ed[i<x.cases.size()?i+1:0]); break; }
          std::map<std::pair<int,std::vector<std::pair<int,int>>>,std::vector<size_t>> grp; for(size_t i=0;i<x.cases.size();i++) grp[{x.ed[i+1].pc,x.ed[i+1].cp}].push_back(i);
          bool done=false; for(auto&g:grp){ Expr*o=mkConst(0,1); for(size_t i:g.second) o=mkOrB(o,mkBin(K_EQ,c.e,mkConst(x.cases[i],x.w2))); if(decide(o)){ take(ST.back(),x.ed[g.second[0]+1]); done=true; break; } } if(!done) take(ST.back(),x.ed[0]); break; }
      case O_SELECT: { Val c=V(x.a); if(!c.e) D=(c.c&1)?V(x.b):V(x.c); else { if(x.w==0){ bool t=decide(c.e); R[ST.back().rb+x.dst]=t?V(x.b):V(x.c); } else D=ve(mkIte(c.e,ex(V(x.b),x.w),ex(V(x.c),x.w))); } break; }
      case O_EXTRACTV: { Val a=V(x.a); D=g_aggs[a.c][x.imm]; break; }
      case O_INSERTV: { Val a=V(x.a),b=V(x.b); std::vector<Val> n=g_aggs[a.c]; n[x.imm]=b; g_aggs.push_back(n); D=cv(g_aggs.size()-1); break; }
      case O_UNREACH: if(x.sub) fatal("unsupported instruction form "+std::to_string(x.sub)); fatal("unreachable executed"); break;
      case O_RET: { Val r=x.imm?V(x.a):cv(0); int rd=fr.retdst; popStack(fr.sp0); rtop=fr.rb; ST.pop_back(); if(ST.empty()) return; if(rd>=0) R[ST.back().rb+rd]=r; break; }
      case O_CALL: { DFunc*g=x.fn; if(!g){ Val p=V(x.a); u64 ad=addrOf(p); auto it=g_fa.find(ad); if(it==g_fa.end()) memErr("call through invalid pointer",ad,1); g=it->second; }
          std::vector<Val> args; args.reserve(x.ops.size()); for(int o:x.ops) args.push_back(V(o));
          if(g->ext){ bool h; Val r=extCall(g,args,x,h); if(!h) fatal("unhandled external "+g->name); if(x.dst>=0) R[ST.back().rb+x.dst]=r; break; }
          if(g->F->isDeclaration()) fatal("unsupported external function "+g->name);
          u64 sp0=sp; for(u64 bv:x.cases){ unsigned ai=bv>>32; u64 n=bv&0xffffffff; u64 a=allocaN(n); copyMem(a,args[ai].c,n); args[ai]=cv(a); }
          enter(g,args,x.ow,x.dst,sp0); break; }
      default: fatal("bad op");
    }
  }
}
// ============================================================ driver
static void jsonStr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\') fprintf(f,"\\%c",*s); else if(*s=='\n') fputs("\\n",f); else if((u8)*s<32) fprintf(f,"\\u%04x",*s); else fputc(*s,f);} fputc('"',f); }
static void onCrash(int s){ if(SH){ SH->incomplete=1; snprintf(SH->incmsg,sizeof SH->incmsg,"engine crashed with signal %d",s); int a=__sync_sub_and_fetch(&SH->active,1); (void)a; SH->stop=1; sem_post(&SH->done); } _exit(70); }
int main(int argc,char**argv){
  { struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(!getenv("DSYM_STK")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(rlim_t)2<<30:std::min<rlim_t>(rl.rlim_max,(rlim_t)2<<30); setrlimit(RLIMIT_STACK,&rl); setenv("DSYM_STK","1",1); execv("/proc/self/exe",argv); } }
  std::string bc; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--entry") o_entry=argv[++i]; else if(a=="--out") o_out=argv[++i]; else if(a=="--jobs") o_jobs=atoi(argv[++i]); else if(a=="--deadline") o_deadline=atof(argv[++i]); else if(a=="--known") o_known.insert(argv[++i]); else if(a=="-v") o_verbose=true; else if(a=="--slow") g_slowlog=atof(argv[++i]); else if(a=="--keep-going") o_stopfirst=false; else if(a=="--prof") o_prof=true; else if(a=="--maxinst") o_maxinst=atoll(argv[++i]); else if(a=="--seed") o_seed=strtoull(argv[++i],0,10); else if(a=="--samples") o_samples=std::min(16,atoi(argv[++i])); else bc=a; }
  t_start=nowd(); t_deadline=t_start+o_deadline;
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if(!mod){ err.print("dsym",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); for(int i=0;i<8192;i++){ sem_init(&SH->wsem[i],1,0); SH->freeslots[i]=i; } SH->nfree=8192; sem_init(&SH->done,1,0); SH->tokens=o_jobs-1; SH->active=1;
  void*p=mmap((void*)BASE,ASZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)BASE){ fprintf(stderr,"arena mmap failed\n"); return 3; }
  SHD=(u8*)mmap(0,ASZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); SYMB=(Expr**)mmap(0,ASZ*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  u64 g=GLB0; for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")) continue; u64 n=DL->getTypeAllocSize(G.getValueType()); u64 al=std::max<u64>(16,G.getAlign()?G.getAlign()->value():1); g=(g+al-1)/al*al; g_ga[&G]=g; memset(SHD+(g-BASE),1,n); g+=n+32; }
  for(auto&F:*M) if(!F.isDeclaration()) getFn(&F);
  for(auto&G:M->globals()) if(g_ga.count(&G)&&G.hasInitializer()) initGlobal(g_ga[&G],G.getInitializer());
  brk_=(g+4095)/4096*4096+4096; if(g_fn.size()*16>(1<<20)){ fprintf(stderr,"too many functions\n"); return 3; }
  Function*E=M->getFunction(o_entry); if(!E||E->isDeclaration()){ fprintf(stderr,"no entry %s\n",o_entry.c_str()); return 3; }
  // discover all functions (assign ids) before forking so coverage ids agree across processes
  for(size_t i=0;i<g_fn.size();i++) decode(g_fn[i]);
  double t_load=nowd()-t_start;
  prctl(PR_SET_CHILD_SUBREAPER,1); signal(SIGCHLD,SIG_IGN);
  pid_t p0=fork(); if(p0==0){ setpgid(0,0); signal(SIGSEGV,onCrash); signal(SIGABRT,onCrash); signal(SIGBUS,onCrash); stack_t ss; ss.ss_sp=malloc(1<<16); ss.ss_size=1<<16; ss.ss_flags=0; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onCrash; sa.sa_flags=SA_ONSTACK; sigaction(SIGSEGV,&sa,0);
    R.resize(65536); enter(getFn(E),{}, {}, -1, sp); run(); endPath(E_OK); }
  setpgid(p0,p0);
  while(1){ timespec ts; clock_gettime(CLOCK_REALTIME,&ts); ts.tv_sec+=1; int r=sem_timedwait(&SH->done,&ts); if(r==0) break; if(nowd()>t_deadline+20){ setIncomplete("deadline (hard)"); break; } if(kill(-p0,0)!=0){ if(SH->active>0&&sem_trywait(&SH->done)!=0) setIncomplete("worker processes disappeared"); break; } if(SH->stop&&nowd()>t_deadline) break; }
  if(SH->stop){ double t=nowd(); while(SH->active>0&&nowd()-t<3) usleep(10000); }
  kill(-p0,SIGKILL);
  // report
  std::string rj=o_out+"/result.json"; FILE*o=fopen(rj.c_str(),"w"); if(!o) return 3;
  fprintf(o,"{\"entry\":\"%s\",\"incomplete\":%d,\"incmsg\":",o_entry.c_str(),SH->incomplete); jsonStr(o,SH->incmsg);
  fprintf(o,",\"wall\":%.3f,\"load\":%.3f,\"paths\":%llu,\"paths_assume\":%llu,\"paths_err\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cachehits\":%llu,\"small_domain_queries\":%llu,\"paths_confirmed_sat\":%llu,\"solver_s\":%.3f,\"concretized\":%llu,\"maxcons\":%llu,\"maxvars\":%llu,\"maxwait\":%d",nowd()-t_start,t_load,(unsigned long long)SH->paths_ok,(unsigned long long)SH->paths_assume,(unsigned long long)SH->paths_err,(unsigned long long)SH->forks,(unsigned long long)SH->insts,(unsigned long long)SH->queries,(unsigned long long)SH->sat,(unsigned long long)SH->unsat,(unsigned long long)SH->unknown,(unsigned long long)SH->cachehits,(unsigned long long)SH->smallq,(unsigned long long)SH->confirmed,SH->ns*1e-9,(unsigned long long)SH->concretized,(unsigned long long)SH->maxcons,(unsigned long long)SH->maxvars,SH->maxwait);
  fprintf(o,",\"asserts\":["); for(int i=0;i<SH->nlab;i++){ fprintf(o,"%s{\"label\":",i?",":""); jsonStr(o,SH->lab[i].name); fprintf(o,",\"reached\":%llu,\"proved\":%llu,\"trivial\":%llu,\"violated\":%llu}",(unsigned long long)SH->lab[i].reached,(unsigned long long)SH->lab[i].proved,(unsigned long long)SH->lab[i].trivial,(unsigned long long)SH->lab[i].violated);} 
  fprintf(o,"],\"covers\":["); for(int i=0;i<SH->ncov;i++){ fprintf(o,"%s{\"label\":",i?",":""); jsonStr(o,SH->cov[i].name); fprintf(o,",\"reached\":%llu}",(unsigned long long)SH->cov[i].reached);} 
  fprintf(o,"],\"violations\":["); for(int i=0;i<SH->nviol;i++){ Viol&v=SH->viol[i]; fprintf(o,"%s{\"label\":",i?",":""); jsonStr(o,v.label); fprintf(o,",\"kind\":\"%s\",\"known\":%d,\"where\":",v.kind,v.known); jsonStr(o,v.where); fprintf(o,",\"file\":"); jsonStr(o,v.file); fprintf(o,"}"); }
  fprintf(o,"],\"samples\":["); for(int i=0;i<SH->nsamples;i++){ if(i) fputc(',',o); jsonStr(o,SH->sample[i]); }
  fprintf(o,"],\"functions\":["); bool first=true; for(auto*d:g_fn) if(SH->fn[d->id]&&!d->F->isDeclaration()){ fprintf(o,"%s\"%s\"",first?"":",",d->name.c_str()); first=false; } fprintf(o,"]}\n"); fclose(o);
  if(o_prof){ std::vector<std::pair<u64,std::string>> v; for(auto*d:g_fn) if(SH->prof[d->id]) v.push_back({SH->prof[d->id],d->name}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<25;i++) fprintf(stderr,"%12llu %s\n",(unsigned long long)v[i].first,v[i].second.c_str()); }
  if(o_verbose){ fprintf(stderr,"%s: paths=%llu assume=%llu err=%llu forks=%llu insts=%llu queries=%llu solver=%.2fs viol=%d incomplete=%d %s wall=%.2f load=%.2f\n",o_entry.c_str(),(unsigned long long)SH->paths_ok,(unsigned long long)SH->paths_assume,(unsigned long long)SH->paths_err,(unsigned long long)SH->forks,(unsigned long long)SH->insts,(unsigned long long)SH->queries,SH->ns*1e-9,SH->nviol,SH->incomplete,SH->incmsg,nowd()-t_start,t_load); for(int i=0;i<SH->nviol;i++) fprintf(stderr,"  VIOL %s [%s] %s %s\n",SH->viol[i].label,SH->viol[i].kind,SH->viol[i].where,SH->viol[i].file); }
  return 0;
}
