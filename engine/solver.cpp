#include "solver.h"
#include <z3.h>
#include <time.h>
u64 s_queries,s_sat,s_unsat,s_unknown,s_ns,s_cachehits,s_smallq; bool g_assertq=false; unsigned long g_rlimit=0; bool g_useint=!getenv("DSYM_NOINT"); double g_slowlog=0;
static Z3_context C=nullptr; static Z3_sort fp32,fp64; static Z3_ast RNE,RTZ,RTP,RTN,RNA;
static void onerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"Z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); }
static void init(){ if(C) return; Z3_config cfg=Z3_mk_config(); C=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C,onerr);
  fp32=Z3_mk_fpa_sort_32(C); fp64=Z3_mk_fpa_sort_64(C); RNE=Z3_mk_fpa_rne(C); RTZ=Z3_mk_fpa_rtz(C); RTP=Z3_mk_fpa_rtp(C); RTN=Z3_mk_fpa_rtn(C); RNA=Z3_mk_fpa_rna(C); }
static Z3_ast bvc(u64 v,unsigned w){ return Z3_mk_unsigned_int64(C,v,Z3_mk_bv_sort(C,w)); }
static Z3_ast tr(Expr*e); static Z3_ast trB(Expr*e);
static Z3_ast toF(Z3_ast bv,unsigned w){ return Z3_mk_fpa_to_fp_bv(C,bv,w==64?fp64:fp32); }
static Z3_ast fromF(Z3_ast f,unsigned w){ // canonical quiet NaN as x86 produces for "real indefinite"
  Z3_ast bv=Z3_mk_fpa_to_ieee_bv(C,f); return Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,f),w==64?bvc(0x7ff8000000000000ull,64):bvc(0x7fc00000,32),bv); }
static Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(C,b,bvc(1,1),bvc(0,1)); }
static Z3_ast trB(Expr*e){
  if(e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch(e->k){
    case K_CONST: r=e->v?Z3_mk_true(C):Z3_mk_false(C); break;
    case K_NOT: r=Z3_mk_not(C,trB(e->a)); break;
    case K_AND: {Z3_ast x[2]={trB(e->a),trB(e->b)}; r=Z3_mk_and(C,2,x);} break;
    case K_OR: {Z3_ast x[2]={trB(e->a),trB(e->b)}; r=Z3_mk_or(C,2,x);} break;
    case K_XOR: r=Z3_mk_xor(C,trB(e->a),trB(e->b)); break;
    case K_EQ: if(e->a->w==1) r=Z3_mk_iff(C,trB(e->a),trB(e->b)); else r=Z3_mk_eq(C,tr(e->a),tr(e->b)); break;
    case K_ULT: r=Z3_mk_bvult(C,tr(e->a),tr(e->b)); break; case K_ULE: r=Z3_mk_bvule(C,tr(e->a),tr(e->b)); break;
    case K_SLT: r=Z3_mk_bvslt(C,tr(e->a),tr(e->b)); break; case K_SLE: r=Z3_mk_bvsle(C,tr(e->a),tr(e->b)); break;
    case K_ITE: r=Z3_mk_ite(C,trB(e->a),trB(e->b),trB(e->c)); break;
    default: r=Z3_mk_eq(C,tr(e),bvc(1,1));
  }
  e->zbool=r; return r;
}
static Z3_ast tr(Expr*e){
  if(e->zast) return (Z3_ast)e->zast;
  Z3_ast r; unsigned w=e->w;
  switch(e->k){
    case K_CONST: r=bvc(e->v,w); break;
    case K_SYM: { char nm[32]; snprintf(nm,32,"v%u",(unsigned)e->v); r=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),Z3_mk_bv_sort(C,w)); } break;
    case K_ADD:r=Z3_mk_bvadd(C,tr(e->a),tr(e->b));break; case K_SUB:r=Z3_mk_bvsub(C,tr(e->a),tr(e->b));break; case K_MUL:r=Z3_mk_bvmul(C,tr(e->a),tr(e->b));break;
    case K_UDIV:r=Z3_mk_bvudiv(C,tr(e->a),tr(e->b));break; case K_SDIV:r=Z3_mk_bvsdiv(C,tr(e->a),tr(e->b));break; case K_UREM:r=Z3_mk_bvurem(C,tr(e->a),tr(e->b));break; case K_SREM:r=Z3_mk_bvsrem(C,tr(e->a),tr(e->b));break;
    case K_AND:r=w==1?b2v(trB(e)):Z3_mk_bvand(C,tr(e->a),tr(e->b));break; case K_OR:r=w==1?b2v(trB(e)):Z3_mk_bvor(C,tr(e->a),tr(e->b));break; case K_XOR:r=w==1?b2v(trB(e)):Z3_mk_bvxor(C,tr(e->a),tr(e->b));break;
    case K_SHL:r=Z3_mk_bvshl(C,tr(e->a),tr(e->b));break; case K_LSHR:r=Z3_mk_bvlshr(C,tr(e->a),tr(e->b));break; case K_ASHR:r=Z3_mk_bvashr(C,tr(e->a),tr(e->b));break;
    case K_NOT: case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r=b2v(trB(e)); break;
    case K_ITE: r=Z3_mk_ite(C,trB(e->a),tr(e->b),tr(e->c)); break;
    case K_ZEXT: r=Z3_mk_zero_ext(C,w-e->a->w,tr(e->a)); break; case K_SEXT: r=Z3_mk_sign_ext(C,w-e->a->w,tr(e->a)); break;
    case K_EXTRACT: r=Z3_mk_extract(C,e->v+w-1,e->v,tr(e->a)); break;
    case K_CONCAT: r=Z3_mk_concat(C,tr(e->a),tr(e->b)); break;
    case K_FADD:r=fromF(Z3_mk_fpa_add(C,RNE,toF(tr(e->a),w),toF(tr(e->b),w)),w);break; case K_FSUB:r=fromF(Z3_mk_fpa_sub(C,RNE,toF(tr(e->a),w),toF(tr(e->b),w)),w);break;
    case K_FMUL:r=fromF(Z3_mk_fpa_mul(C,RNE,toF(tr(e->a),w),toF(tr(e->b),w)),w);break; case K_FDIV:r=fromF(Z3_mk_fpa_div(C,RNE,toF(tr(e->a),w),toF(tr(e->b),w)),w);break;
    case K_FSQRT:r=fromF(Z3_mk_fpa_sqrt(C,RNE,toF(tr(e->a),w)),w);break;
    case K_FPEXT: { // NaN payload is preserved and quieted by cvtss2sd
        Z3_ast x=tr(e->a); Z3_ast f=toF(x,32); Z3_ast d=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_float(C,RNE,f,fp64));
        Z3_ast s=Z3_mk_extract(C,31,31,x), m=Z3_mk_extract(C,22,0,x);
        Z3_ast nn=Z3_mk_concat(C,s,Z3_mk_concat(C,bvc(0x7ff,11),Z3_mk_concat(C,Z3_mk_bvor(C,m,bvc(1u<<22,23)),bvc(0,29))));
        r=Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,f),nn,d); } break;
    case K_FPTRUNC: { Z3_ast x=tr(e->a); Z3_ast f=toF(x,64); Z3_ast d=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_float(C,RNE,f,fp32));
        Z3_ast s=Z3_mk_extract(C,63,63,x), m=Z3_mk_extract(C,51,29,x);
        Z3_ast nn=Z3_mk_concat(C,s,Z3_mk_concat(C,bvc(0xff,8),Z3_mk_bvor(C,m,bvc(1u<<22,23))));
        r=Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,f),nn,d); } break;
    case K_FPTOSI: { unsigned wa=e->a->w; Z3_ast f=toF(tr(e->a),wa); Z3_ast t=Z3_mk_fpa_round_to_integral(C,RTZ,f); Z3_sort S=wa==64?fp64:fp32; double lim=w==64?9223372036854775808.0:(w==32?2147483648.0:(double)(1ull<<(w-1)));
        Z3_ast lo=w>=32&&wa==64&&w==32?Z3_mk_fpa_gt(C,f,Z3_mk_fpa_numeral_double(C,-2147483649.0,S)):Z3_mk_fpa_geq(C,t,Z3_mk_fpa_numeral_double(C,-lim,S)); Z3_ast hi=Z3_mk_fpa_lt(C,f,Z3_mk_fpa_numeral_double(C,lim,S)); Z3_ast an[2]={lo,hi};
        r=Z3_mk_ite(C,Z3_mk_and(C,2,an),Z3_mk_fpa_to_sbv(C,RTZ,f,w),bvc(1ull<<(w-1),w)); } break;
    case K_FPTOUI: { unsigned wa=e->a->w; Z3_ast f=toF(tr(e->a),wa); r=Z3_mk_fpa_to_ubv(C,RTZ,f,w); } break;
    case K_SITOFP: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_signed(C,RNE,tr(e->a),w==64?fp64:fp32)); break;
    case K_UITOFP: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_unsigned(C,RNE,tr(e->a),w==64?fp64:fp32)); break;
    case K_FROUND: r=fromF(Z3_mk_fpa_round_to_integral(C,e->v==0?RTN:e->v==1?RTP:e->v==2?RTZ:e->v==3?RNE:RNA,toF(tr(e->a),w)),w); break;
    default: abort();
  }
  e->zast=r; return r;
}
// ---- exact integer translation: used when interval analysis shows that no operation of the query can wrap around
static bool g_intdebug=getenv("DSYM_INTDEBUG"); typedef __int128 i128; struct IT { Z3_ast t; i128 lo,hi; bool ok; }; static std::unordered_map<Expr*,IT> g_int; static std::unordered_map<Expr*,std::pair<Z3_ast,bool>> g_intb; static Z3_sort intS; static std::unordered_map<u32,Z3_ast> g_ivar;
u64 s_intq;
static Z3_ast ic(i128 v){ char b[48]; char*p=b+47; *p=0; bool n=v<0; unsigned __int128 u=n?-(unsigned __int128)v:v; do{ *--p='0'+(int)(u%10); u/=10; }while(u); if(n) *--p='-'; return Z3_mk_numeral(C,p,intS); }
static const IT BADI={nullptr,0,0,false};
static Z3_ast ibin(char op,Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return op=='+'?Z3_mk_add(C,2,x):op=='-'?Z3_mk_sub(C,2,x):Z3_mk_mul(C,2,x); }
static bool tiB(Expr*e,Z3_ast&r);
// ti(e): an integer term congruent to e modulo 2^w, with bounds; sg/un bring it into the signed/unsigned range
static const i128 LIM=(i128)1<<100;
static IT wrapTo(IT a,unsigned w,i128 mn){ i128 m=(i128)1<<w; if(a.lo>=mn&&a.hi<mn+m) return a; auto fl=[&](i128 x){ i128 q=(x-mn)/m; if((x-mn)%m<0) q--; return q; };
  i128 ql=fl(a.lo),qh=fl(a.hi); if(ql==qh){ a.t=ibin('-',a.t,ic(ql*m)); a.lo-=ql*m; a.hi-=ql*m; return a; }
  if(qh-ql==1){ i128 cut=mn+qh*m; a.t=Z3_mk_ite(C,Z3_mk_lt(C,a.t,ic(cut)),ql?ibin('-',a.t,ic(ql*m)):a.t,qh?ibin('-',a.t,ic(qh*m)):a.t); a.lo=mn; a.hi=mn+m-1; return a; }
  a.t=ibin('+',Z3_mk_mod(C,ibin('-',a.t,ic(mn)),ic(m)),ic(mn)); a.lo=mn; a.hi=mn+m-1; return a; }
static IT ti(Expr*e);
static IT sg(Expr*e){ IT a=ti(e); if(!a.ok) return a; a=wrapTo(a,e->w,-((i128)1<<(e->w-1))); if(e->hi<((u64)1<<(e->w-1))){ if(a.lo<(i128)e->lo) a.lo=e->lo; if(a.hi>(i128)e->hi) a.hi=e->hi; } return a; }
static IT un(Expr*e){ IT a=ti(e); if(!a.ok) return a; a=wrapTo(a,e->w,0); if(a.lo<(i128)e->lo) a.lo=e->lo; if(a.hi>(i128)e->hi) a.hi=e->hi; return a; }
static IT ti(Expr*e){
  auto it=g_int.find(e); if(it!=g_int.end()) return it->second;
  IT r=BADI; unsigned w=e->w; i128 mx=((i128)1<<(w-1))-1;
  switch(e->k){
    case K_CONST: r.lo=r.hi=sx(e->v,w); r.t=ic(r.lo); r.ok=true; break;
    case K_SYM: { r.lo=e->lo; r.hi=e->hi; char nm[32]; snprintf(nm,32,"i%u",(unsigned)e->v); r.t=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),intS); g_ivar[(u32)e->v]=r.t; r.ok=true; } break;
    case K_ADD: case K_SUB: { IT a=ti(e->a); if(!a.ok) break; IT b=ti(e->b); if(!b.ok) break; if(e->k==K_ADD){ r.lo=a.lo+b.lo; r.hi=a.hi+b.hi; } else { r.lo=a.lo-b.hi; r.hi=a.hi-b.lo; } r.t=ibin(e->k==K_ADD?'+':'-',a.t,b.t); r.ok=true; } break;
    case K_MUL: case K_SHL: { Expr*x=e->a,*y=e->b; if(e->k==K_MUL&&x->k==K_CONST) std::swap(x,y); if(y->k!=K_CONST) break; i128 c; if(e->k==K_SHL){ if(y->v>62) break; c=(i128)1<<y->v; } else c=sx(y->v,w); IT a=ti(x); if(!a.ok) break; if(a.lo<-((i128)1<<62)||a.hi>((i128)1<<62)) { a=sg(x); } 
        if(w>40&&(c>((i128)1<<40)||c<-((i128)1<<40))) break; r.lo=c>=0?a.lo*c:a.hi*c; r.hi=c>=0?a.hi*c:a.lo*c; r.t=ibin('*',a.t,ic(c)); r.ok=true; } break;
    case K_SDIV: case K_SREM: case K_UDIV: case K_UREM: case K_LSHR: case K_ASHR: { if(e->b->k!=K_CONST) break; i128 c; bool sh=e->k==K_LSHR||e->k==K_ASHR,us=e->k==K_UDIV||e->k==K_UREM||e->k==K_LSHR; if(sh){ if(e->b->v>62) break; c=(i128)1<<e->b->v; } else c=us?(i128)e->b->v:(i128)sx(e->b->v,w); if(c<=0) break; IT a=us?un(e->a):sg(e->a); if(!a.ok) break;
        Z3_ast C1=ic(c),q,qf=Z3_mk_div(C,a.t,C1); if(a.lo>=0||sh) q=qf; else { Z3_ast neg=ibin('-',ic(0),Z3_mk_div(C,ibin('-',ic(0),a.t),C1)); q=a.hi<=0?neg:Z3_mk_ite(C,Z3_mk_ge(C,a.t,ic(0)),qf,neg); }
        i128 ql=a.lo>=0?a.lo/c:(sh?-((-a.lo+c-1)/c):-((-a.lo)/c)), qh=a.hi>=0?a.hi/c:(sh?-((-a.hi+c-1)/c):-((-a.hi)/c));
        if(e->k==K_SREM||e->k==K_UREM){ r.t=a.lo>=0?Z3_mk_mod(C,a.t,C1):ibin('-',a.t,ibin('*',C1,q)); r.lo=a.lo<0?-(c-1):0; r.hi=a.hi>0?c-1:0; if(a.lo>=0&&r.hi>a.hi) r.hi=a.hi; } else { r.t=q; r.lo=ql; r.hi=qh; } r.ok=true; } break;
    case K_ZEXT: { if(e->a->w==1){ Z3_ast b; if(!tiB(e->a,b)) break; r.t=Z3_mk_ite(C,b,ic(1),ic(0)); r.lo=0; r.hi=1; r.ok=true; break; } r=un(e->a); } break;
    case K_SEXT: { if(e->a->w==1){ Z3_ast b; if(!tiB(e->a,b)) break; r.t=Z3_mk_ite(C,b,ic(-1),ic(0)); r.lo=-1; r.hi=0; r.ok=true; break; } r=sg(e->a); } break;
    case K_EXTRACT: { if(w==1&&e->a->w>1) break; if(e->v==0){ r=ti(e->a); break; } IT a=un(e->a); if(!a.ok) break; i128 c=(i128)1<<e->v; r.t=Z3_mk_div(C,a.t,ic(c)); r.lo=a.lo/c; r.hi=a.hi/c; r.ok=true; } break;
    case K_CONCAT: { IT a=ti(e->a); if(!a.ok||a.lo<-LIM||a.hi>LIM) break; IT b=un(e->b); if(!b.ok) break; i128 c=(i128)1<<e->b->w; if(a.hi>((i128)1<<62)||a.lo<-((i128)1<<62)) break; r.t=ibin('+',ibin('*',a.t,ic(c)),b.t); r.lo=a.lo*c+b.lo; r.hi=a.hi*c+b.hi; r.ok=true; } break;
    case K_AND: case K_OR: case K_XOR: { if(w==1) break; if(e->a->hi<=1&&e->b->hi<=1){ IT a=un(e->a); if(!a.ok) break; IT b=un(e->b); if(!b.ok) break; Z3_ast s2=ibin('+',a.t,b.t); r.t=Z3_mk_ite(C,e->k==K_OR?Z3_mk_ge(C,s2,ic(1)):Z3_mk_eq(C,s2,ic(e->k==K_AND?2:1)),ic(1),ic(0)); r.lo=0; r.hi=1; r.ok=true; break; }
        if(e->k!=K_AND) break; Expr*x=e->a,*y=e->b; if(x->k==K_CONST) std::swap(x,y); if(y->k!=K_CONST||(y->v&(y->v+1))) break; IT a=ti(x); if(!a.ok) break; unsigned k=0; while((y->v>>k)&1&&k<64) k++; r=wrapTo(a,k,0); } break;
    case K_ITE: { Z3_ast c; if(!tiB(e->a,c)) break; IT a=ti(e->b); if(!a.ok) break; IT b=ti(e->c); if(!b.ok) break; r.lo=std::min(a.lo,b.lo); r.hi=std::max(a.hi,b.hi); r.t=Z3_mk_ite(C,c,a.t,b.t); r.ok=true; } break;
    default: break;
  }
  if(r.ok&&(r.lo<-LIM||r.hi>LIM)) r=BADI; (void)mx;
  if(!r.ok&&g_intdebug) fprintf(stderr,"int: cannot translate kind %d w%d v=%llx bk%d\n",e->k,e->w,(unsigned long long)e->v,e->b?e->b->k:-1);
  g_int[e]=r; return r; }
static bool tiB0(Expr*e,Z3_ast&r){
  Z3_ast x,y;
  switch(e->k){
    case K_CONST: r=e->v?Z3_mk_true(C):Z3_mk_false(C); return true;
    case K_NOT: if(!tiB(e->a,x)) return false; r=Z3_mk_not(C,x); return true;
    case K_AND: case K_OR: { if(!tiB(e->a,x)||!tiB(e->b,y)) return false; Z3_ast v[2]={x,y}; r=e->k==K_AND?Z3_mk_and(C,2,v):Z3_mk_or(C,2,v); return true; }
    case K_XOR: if(!tiB(e->a,x)||!tiB(e->b,y)) return false; r=Z3_mk_xor(C,x,y); return true;
    case K_ITE: { Z3_ast z; if(!tiB(e->a,x)||!tiB(e->b,y)||!tiB(e->c,z)) return false; r=Z3_mk_ite(C,x,y,z); return true; }
    case K_EQ: { if(e->a->w==1){ if(!tiB(e->a,x)||!tiB(e->b,y)) return false; r=Z3_mk_iff(C,x,y); return true; } IT a=ti(e->a); if(!a.ok) return false; IT b=ti(e->b); if(!b.ok) return false; IT d; d.ok=true; d.t=ibin('-',a.t,b.t); d.lo=a.lo-b.hi; d.hi=a.hi-b.lo; i128 m=(i128)1<<e->a->w; 
        if(d.lo>-m&&d.hi<m){ r=Z3_mk_eq(C,a.t,b.t); return true; } d=wrapTo(d,e->a->w,0); r=Z3_mk_eq(C,d.t,ic(0)); return true; }
    case K_SLT: case K_SLE: case K_ULT: case K_ULE: { if(e->a->w==1) return false; bool us=e->k==K_ULT||e->k==K_ULE; IT a=us?un(e->a):sg(e->a); if(!a.ok) return false; IT b=us?un(e->b):sg(e->b); if(!b.ok) return false; 
      r=(e->k==K_SLT||e->k==K_ULT)?Z3_mk_lt(C,a.t,b.t):Z3_mk_le(C,a.t,b.t); return true; }
    case K_EXTRACT: { if(e->a->w==1) return false; Expr*p=e->a; if(e->v+1==p->w){ IT a=sg(p); if(!a.ok) return false; r=Z3_mk_lt(C,a.t,ic(0)); return true; } IT a=un(p); if(!a.ok) return false; IT d=a; i128 c=(i128)1<<e->v; if(e->v) { d.t=Z3_mk_div(C,a.t,ic(c)); d.lo=a.lo/c; d.hi=a.hi/c; } d=wrapTo(d,1,0); r=Z3_mk_eq(C,d.t,ic(1)); return true; }
    default: return false;
  } }
static bool tiB(Expr*e,Z3_ast&r){ auto it=g_intb.find(e); if(it!=g_intb.end()){ r=it->second.first; return it->second.second; } r=nullptr; bool ok=tiB0(e,r); g_intb[e]={r,ok}; return ok; }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Recent { std::vector<u64> m; }; static std::vector<Recent> g_recent; static u32 g_rep=0x40000000;
SatRes solveSliced(const std::vector<Expr*>&cons,Expr*extra,const std::vector<u64>&base,std::vector<u64>&out,bool nocache){
  // slice
  std::vector<char> inv(g_vars.size(),0); std::vector<u32> work=extra->sup->v; for(u32 x:work) inv[x]=1;
  std::vector<char> used(cons.size(),0); bool ch=true; std::vector<Expr*> sl;
  while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!used[i]){ bool hit=false; for(u32 x:cons[i]->sup->v) if(inv[x]){hit=true;break;} if(hit){ used[i]=1; sl.push_back(cons[i]); for(u32 x:cons[i]->sup->v) if(!inv[x]){inv[x]=1;ch=true;} } } }
  // try recent models on the slice
  if(!nocache) for(int i=(int)g_recent.size()-1;i>=0&&i>=(int)g_recent.size()-8;i--){
    std::vector<u64> m=base; m.resize(g_vars.size()); for(u32 x=0;x<g_vars.size();x++) if(inv[x]&&x<g_recent[i].m.size()) m[x]=g_recent[i].m[x];
    u32 ep=++g_rep; bool ok=evalExpr(extra,m,ep); for(size_t j=0;ok&&j<sl.size();j++) ok=evalExpr(sl[j],m,ep);
    if(ok){ s_cachehits++; out=m; return SAT; }
  }
  // feasibility of a branch over one variable of at most 8 bits: decided by evaluating the query at each of its values
  if(!g_assertq){ int nv=0; u32 xv=0; for(u32 x=0;x<g_vars.size();x++) if(inv[x]){ nv++; xv=x; }
    if(nv==1&&g_vars[xv].w<=8){ double t0=now(); std::vector<u64> m=base; m.resize(g_vars.size()); s_smallq++; for(u64 v=0;v<(1ull<<g_vars[xv].w);v++){ m[xv]=v; u32 ep=++g_rep; bool ok=evalExpr(extra,m,ep); for(size_t j=0;ok&&j<sl.size();j++) ok=evalExpr(sl[j],m,ep); if(ok){ out=m; s_ns+=(u64)((now()-t0)*1e9); return SAT; } } s_ns+=(u64)((now()-t0)*1e9); return UNSAT; } }
  init(); double t0=now(); s_queries++;
  bool fp=extra->fp; for(auto e:sl) fp|=e->fp;
  bool hd=false; if(!fp&&g_useint){ hd=hard(extra); for(auto e:sl) if(!hd) hd=hard(e); }
  if(hd){ g_int.clear(); g_intb.clear(); g_ivar.clear(); intS=Z3_mk_int_sort(C); Z3_ast t; bool ok=tiB(extra,t); std::vector<Z3_ast> as; if(ok) as.push_back(t); for(auto e:sl) if(ok){ ok=tiB(e,t); as.push_back(t); }
    if(ok){ Z3_solver S=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_LIA")); Z3_solver_inc_ref(C,S); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),8000); Z3_solver_set_params(C,S,p); Z3_params_dec_ref(C,p);
      for(auto&iv:g_ivar){ IT q; q.lo=g_vars[iv.first].e->lo; q.hi=g_vars[iv.first].e->hi; Z3_solver_assert(C,S,Z3_mk_ge(C,iv.second,ic(q.lo))); Z3_solver_assert(C,S,Z3_mk_le(C,iv.second,ic(q.hi))); } for(auto a:as) Z3_solver_assert(C,S,a);
      Z3_lbool r=Z3_solver_check(C,S); SatRes res=UNKNOWN;
      if(r==Z3_L_FALSE) res=UNSAT;
      else if(r==Z3_L_TRUE){ out=base; out.resize(g_vars.size()); Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m); for(auto&iv:g_ivar){ Z3_ast v=nullptr; int64_t q=0; if(Z3_model_eval(C,m,iv.second,1,&v)) Z3_get_numeral_int64(C,v,&q); out[iv.first]=(u64)q&mask(g_vars[iv.first].w); } Z3_model_dec_ref(C,m);
        u32 ep=++g_rep; bool okm=evalExpr(extra,out,ep); for(size_t j=0;okm&&j<sl.size();j++) okm=evalExpr(sl[j],out,ep); if(okm){ res=SAT; g_recent.push_back({out}); if(g_recent.size()>64) g_recent.erase(g_recent.begin(),g_recent.begin()+32); } else fprintf(stderr,"dsym: integer model rejected\n"); }
      Z3_solver_dec_ref(C,S);
      double dt=now()-t0; s_ns+=(u64)(dt*1e9); if(g_slowlog>0&&dt>g_slowlog) fprintf(stderr,"slow int query %.2fs res=%d ncons=%zu vars=%zu\n",dt,res,sl.size(),extra->sup->v.size());
      if(res!=UNKNOWN){ s_intq++; if(res==SAT) s_sat++; else s_unsat++; return res; } t0=now(); } }
  Z3_solver S=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,fp?"QF_BVFP":"QF_BV")); Z3_solver_inc_ref(C,S);
  if(g_rlimit){ Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),g_rlimit); Z3_solver_set_params(C,S,p); Z3_params_dec_ref(C,p); }
  for(auto e:sl) Z3_solver_assert(C,S,trB(e)); Z3_solver_assert(C,S,trB(extra));
  Z3_lbool r=Z3_solver_check(C,S); SatRes res=UNKNOWN;
  if(r==Z3_L_TRUE){ res=SAT; s_sat++; out=base; out.resize(g_vars.size()); Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m);
    for(u32 x=0;x<g_vars.size();x++) if(inv[x]){ Z3_ast v=nullptr; u64 val=0; if(Z3_model_eval(C,m,tr(g_vars[x].e),1,&v)) { uint64_t q=0; Z3_get_numeral_uint64(C,v,&q); val=q; } out[x]=val; }
    Z3_model_dec_ref(C,m); g_recent.push_back({out}); if(g_recent.size()>64) g_recent.erase(g_recent.begin(),g_recent.begin()+32);
    u32 ep=++g_rep; bool ok=evalExpr(extra,out,ep); for(size_t j=0;ok&&j<sl.size();j++) ok=evalExpr(sl[j],out,ep);
    if(!ok){ // solver model does not evaluate: encoding disagreement, never trust it
      fprintf(stderr,"dsym: solver model does not satisfy the query under concrete evaluation\n"); res=UNKNOWN; s_unknown++; s_sat--; }
  } else if(r==Z3_L_FALSE){ res=UNSAT; s_unsat++; } else { s_unknown++; }
  Z3_solver_dec_ref(C,S);
  double dt=now()-t0; s_ns+=(u64)(dt*1e9);
  if(g_slowlog>0&&dt>g_slowlog) fprintf(stderr,"slow query %.2fs res=%d ncons=%zu fp=%d vars=%zu\n",dt,res,sl.size(),fp,extra->sup->v.size());
  return res;
}
