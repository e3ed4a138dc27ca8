#include "expr.h"
std::vector<SymVar> g_vars;
std::unordered_map<Expr*,u64> g_eq;
u32 g_nexpr=0;
// ---------------------------------------------------------------- interning
static Sup* g_empty=new Sup();
static std::map<std::vector<u32>,Sup*> g_sups;
static std::map<std::pair<Sup*,Sup*>,Sup*> g_un;
static Sup* supIntern(const std::vector<u32>& v){ auto it=g_sups.find(v); if(it!=g_sups.end()) return it->second; Sup*s=new Sup(); s->v=v; g_sups[v]=s; return s; }
static Sup* supUnion(Sup*a,Sup*b){
  if(a==b||b==g_empty) return a; if(a==g_empty) return b;
  if(a>b) std::swap(a,b);
  auto key=std::make_pair(a,b); auto it=g_un.find(key); if(it!=g_un.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(),a->v.end(),b->v.begin(),b->v.end(),std::back_inserter(r));
  Sup*s=supIntern(r); g_un[key]=s; return s;
}
struct Key { Kind k; u8 w; Expr*a,*b,*c; u64 v;
  bool operator==(const Key&o)const{return k==o.k&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&v==o.v;} };
struct KH { size_t operator()(const Key&k)const{ u64 h=k.k*0x9E3779B97F4A7C15ull+k.w; auto mix=[&](u64 x){h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;h^=h>>32;}; mix((u64)k.a);mix((u64)k.b);mix((u64)k.c);mix(k.v);return h;} };
static std::unordered_map<Key,Expr*,KH> g_tab;
static char* pool=nullptr; static size_t poolLeft=0;
static Expr* newExpr(){ if(poolLeft<sizeof(Expr)){ pool=(char*)malloc(1<<18); poolLeft=1<<18; } Expr*e=(Expr*)pool; pool+=sizeof(Expr); poolLeft-=sizeof(Expr); memset(e,0,sizeof(Expr)); return e; }
static inline bool isC(Expr*e){return e->k==K_CONST;}
static u64 hiFromKz(u64 kz,unsigned w){ u64 m=(~kz)&mask(w); if(!m) return 0; int n=63-__builtin_clzll(m); u64 full=(n==63)?~0ull:((1ull<<(n+1))-1); (void)full; return m; /* max value <= all possible bits set */ }
static Expr* intern(Kind k,unsigned w,Expr*a,Expr*b,Expr*c,u64 v){
  Key key{k,(u8)w,a,b,c,v}; auto it=g_tab.find(key); if(it!=g_tab.end()) return it->second;
  Expr*e=newExpr(); e->k=k;e->w=w;e->a=a;e->b=b;e->c=c;e->v=v;e->id=g_nexpr++;
  e->fp = (k>=K_FADD) || (a&&a->fp)||(b&&b->fp)||(c&&c->fp);
  Sup*s=g_empty; if(a)s=supUnion(s,a->sup); if(b)s=supUnion(s,b->sup); if(c)s=supUnion(s,c->sup); e->sup=s;
  u64 M=mask(w); u64 kz=0, lo=0, hi=M;
  switch(k){
    case K_CONST: kz=~v&M; lo=hi=v; break;
    case K_AND: kz=a->kz|b->kz; hi=std::min(a->hi,b->hi); break;
    case K_OR: kz=a->kz&b->kz; lo=std::max(a->lo,b->lo); break;
    case K_XOR: kz=a->kz&b->kz; break;
    case K_ADD: if(a->hi<=M-b->hi){ lo=a->lo+b->lo; hi=a->hi+b->hi; }
      else if(isC(b)){ // adding a "negative" constant without borrow
        u64 nb=(~b->v+1)&M; if(a->lo>=nb){ lo=a->lo-nb; hi=a->hi-nb; } }
      else if(isC(a)){ u64 nb=(~a->v+1)&M; if(b->lo>=nb){ lo=b->lo-nb; hi=b->hi-nb; } }
      break;
    case K_SUB: if(a->lo>=b->hi){ lo=a->lo-b->hi; hi=a->hi-b->lo; } break;
    case K_MUL: if(a->hi==0||b->hi<=M/ (a->hi?a->hi:1)){ lo=a->lo*b->lo; hi=a->hi*b->hi; }
      { int tz=0; u64 nz=(~a->kz)&M; int ta=nz?__builtin_ctzll(nz):w; nz=(~b->kz)&M; int tb=nz?__builtin_ctzll(nz):w; tz=std::min<int>(w,ta+tb); kz|= tz>=64?~0ull:((1ull<<tz)-1); kz&=M; }
      break;
    case K_UDIV: if(isC(b)&&b->v){ lo=a->lo/b->v; hi=a->hi/b->v; } else hi=M; break;
    case K_UREM: if(isC(b)&&b->v){ hi=std::min(a->hi,b->v-1); if(a->hi<b->v) lo=a->lo; } break;
    case K_SREM: if(isC(b)&&b->v&&sx(b->v,w)>0&&a->hi<=(M>>1)){ hi=std::min(a->hi,b->v-1); if(a->hi<b->v) lo=a->lo;} break;
    case K_SDIV: if(isC(b)&&b->v&&sx(b->v,w)>0&&a->hi<=(M>>1)){ lo=a->lo/b->v; hi=a->hi/b->v; } break;
    case K_SHL: if(isC(b)&&b->v<w){ kz=((a->kz<<b->v)|((1ull<<b->v)-1))&M; if(a->hi<=(M>>b->v)){lo=a->lo<<b->v;hi=a->hi<<b->v;} } break;
    case K_LSHR: if(isC(b)&&b->v<w){ kz=(a->kz>>b->v)|(M&~(M>>b->v)); lo=a->lo>>b->v; hi=a->hi>>b->v; } else hi=a->hi; break;
    case K_ASHR: if(isC(b)&&b->v<w&&a->hi<=(M>>1)){ kz=(a->kz>>b->v)|(M&~(M>>b->v)); lo=a->lo>>b->v; hi=a->hi>>b->v; } break;
    case K_ITE: kz=b->kz&c->kz; lo=std::min(b->lo,c->lo); hi=std::max(b->hi,c->hi); break;
    case K_ZEXT: kz=a->kz|(M&~mask(a->w)); lo=a->lo; hi=a->hi; break;
    case K_SEXT: if(a->hi<=(mask(a->w)>>1)){ lo=a->lo;hi=a->hi; kz=a->kz|(M&~mask(a->w)); } break;
    case K_EXTRACT: kz=(a->kz>>v)&M; if(v==0&&a->hi<=M){lo=a->lo;hi=a->hi;} else if(v+w==a->w){ lo=a->lo>>v; hi=a->hi>>v; } break;
    case K_CONCAT: kz=(a->kz<<b->w)|b->kz; lo=(a->lo<<b->w)|(a->lo==a->hi?b->lo:0); hi=(a->hi<<b->w)|(a->lo==a->hi?b->hi:mask(b->w)); break;
    default: break;
  }
  e->kz=kz&M; e->lo=lo; e->hi=std::min(hi,hiFromKz(e->kz,w));
  { // interval implies leading zeros
    u64 h=e->hi; unsigned nb=h?64-__builtin_clzll(h):0; e->kz|=M&~mask(nb?nb:0); if(nb==0) e->kz=M; }
  g_tab[key]=e; return e;
}
static inline Expr* eqFix(Expr*e){ if(!isC(e)){ if(e->lo==e->hi) return mkConst(e->lo,e->w); auto it=g_eq.find(e); if(it!=g_eq.end()) return mkConst(it->second,e->w);} return e; }
Expr* mkConst(u64 v,unsigned w){ return intern(K_CONST,w,0,0,0,v&mask(w)); }
Expr* mkSym(const std::string&name,unsigned w,unsigned group,unsigned off){
  Expr*e=newExpr(); e->k=K_SYM;e->w=w;e->v=g_vars.size();e->id=g_nexpr++;
  e->sup=supIntern({(u32)g_vars.size()}); e->lo=0;e->hi=mask(w);
  g_vars.push_back({name,w,e,group,off}); return e;
}
// ---------------------------------------------------------------- concrete semantics
static inline double bd(u64 v){double d;memcpy(&d,&v,8);return d;} static inline u64 db(double d){u64 v;memcpy(&v,&d,8);return v;}
static inline float bf(u64 v){u32 x=(u32)v;float d;memcpy(&d,&x,4);return d;} static inline u64 fb(float d){u32 v;memcpy(&v,&d,4);return v;}
u64 evalOp(Kind k,unsigned w,unsigned wa,u64 a,u64 b,u64 c,u64 v,unsigned wb){
  u64 M=mask(w);
  switch(k){
    case K_ADD:return (a+b)&M; case K_SUB:return (a-b)&M; case K_MUL:return (a*b)&M;
    case K_UDIV:return b?a/b:M; case K_UREM:return b?a%b:a;
    case K_SDIV:{ i64 x=sx(a,w),y=sx(b,w); if(y==0) return (x>=0?~0ull:1)&M; if(y==-1) return (0-a)&M; return (u64)(x/y)&M; }
    case K_SREM:{ i64 x=sx(a,w),y=sx(b,w); if(y==0) return a; if(y==-1) return 0; return (u64)(x%y)&M; }
    case K_AND:return a&b; case K_OR:return a|b; case K_XOR:return a^b;
    case K_SHL:return b>=w?0:(a<<b)&M; case K_LSHR:return b>=w?0:a>>b; case K_ASHR:{ i64 x=sx(a,w); return (u64)(b>=w?(x<0?-1:0):(x>>b))&M; }
    case K_NOT:return a^1; case K_EQ:return a==b; case K_ULT:return a<b; case K_ULE:return a<=b; case K_SLT:return sx(a,wa)<sx(b,wa); case K_SLE:return sx(a,wa)<=sx(b,wa);
    case K_ITE:return a?b:c; case K_ZEXT:return a; case K_SEXT:return (u64)sx(a,wa)&M; case K_EXTRACT:return (a>>v)&M; case K_CONCAT:return (a<<wb)|b;
    case K_FADD:return w==64?db(bd(a)+bd(b)):fb(bf(a)+bf(b)); case K_FSUB:return w==64?db(bd(a)-bd(b)):fb(bf(a)-bf(b));
    case K_FMUL:return w==64?db(bd(a)*bd(b)):fb(bf(a)*bf(b)); case K_FDIV:return w==64?db(bd(a)/bd(b)):fb(bf(a)/bf(b));
    case K_FSQRT:return w==64?db(sqrt(bd(a))):fb(sqrtf(bf(a)));
    case K_FPEXT:return db((double)bf(a)); case K_FPTRUNC:return fb((float)bd(a));
    case K_FPTOSI:{ double x=wa==64?bd(a):bf(a); if(w==64){ if(!(x>=-9223372036854775808.0&&x<9223372036854775808.0)) return 0x8000000000000000ull; return (u64)(i64)x; }
      if(!(x>-2147483649.0&&x<2147483648.0)) return 0x80000000ull&M; return (u64)(i64)x&M; }
    case K_FPTOUI:{ double x=wa==64?bd(a):bf(a); if(!(x>-1.0&&x<18446744073709551616.0)) return M; return (u64)x&M; }
    case K_SITOFP:{ i64 x=sx(a,wa); return w==64?db((double)x):fb((float)x); }
    case K_UITOFP:return w==64?db((double)a):fb((float)a);
    case K_FROUND:{ double x=w==64?bd(a):bf(a); double r=v==0?floor(x):v==1?ceil(x):v==2?trunc(x):v==3?rint(x):round(x); return w==64?db(r):fb((float)r); }
    default: fprintf(stderr,"evalOp kind %d\n",k); abort();
  }
}
u64 evalExpr(Expr*e,const std::vector<u64>&m,u32 ep){
  if(e->k==K_CONST) return e->v; if(e->ev_epoch==ep) return e->ev;
  u64 r;
  if(e->k==K_SYM) r=e->v<m.size()?m[e->v]&mask(e->w):0;
  else if(e->k==K_ITE) r=evalExpr(e->a,m,ep)?evalExpr(e->b,m,ep):evalExpr(e->c,m,ep);
  else { u64 a=e->a?evalExpr(e->a,m,ep):0,b=e->b?evalExpr(e->b,m,ep):0; r=evalOp(e->k,e->w,e->a?e->a->w:0,a,b,0,e->v,e->b?e->b->w:0); }
  e->ev_epoch=ep; e->ev=r; return r;
}
// ---------------------------------------------------------------- builders
Expr* mkNot(Expr*a){
  if(isC(a)) return mkConst(!a->v,1);
  switch(a->k){ case K_NOT:return a->a; case K_ULT:return mkBin(K_ULE,a->b,a->a); case K_ULE:return mkBin(K_ULT,a->b,a->a);
    case K_SLT:return mkBin(K_SLE,a->b,a->a); case K_SLE:return mkBin(K_SLT,a->b,a->a);
    default:break; }
  return eqFix(intern(K_NOT,1,a,0,0,0));
}
Expr* mkAndB(Expr*a,Expr*b){return mkBin(K_AND,a,b);} Expr* mkOrB(Expr*a,Expr*b){return mkBin(K_OR,a,b);}
Expr* mkZext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return mkConst(a->v,w); if(a->k==K_ZEXT) return mkZext(a->a,w);
  if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->v,w),mkConst(a->c->v,w));
  return intern(K_ZEXT,w,a,0,0,0); }
Expr* mkSext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return mkConst((u64)sx(a->v,a->w),w);
  if(a->hi<=(mask(a->w)>>1)) return mkZext(a,w);
  if(a->k==K_SEXT) return mkSext(a->a,w);
  if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkSext(a->b,w),mkSext(a->c,w));
  return intern(K_SEXT,w,a,0,0,0); }
Expr* mkExtract(Expr*a,unsigned lo,unsigned w){
  if(lo==0&&w==a->w) return a; if(isC(a)) return mkConst(a->v>>lo,w);
  { u64 need=mask(w)<<lo; if((a->kz&need)==need) return mkConst(0,w); }
  switch(a->k){
    case K_EXTRACT:return mkExtract(a->a,lo+a->v,w);
    case K_CONCAT: if(lo+w<=a->b->w) return mkExtract(a->b,lo,w); if(lo>=a->b->w) return mkExtract(a->a,lo-a->b->w,w);
       return mkConcat(mkExtract(a->a,0,lo+w-a->b->w),mkExtract(a->b,lo,a->b->w-lo));
    case K_ZEXT: if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo>=a->a->w) return mkConst(0,w); return mkZext(mkExtract(a->a,lo,a->a->w-lo),w);
    case K_SEXT: if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo<a->a->w) return mkSext(mkExtract(a->a,lo,a->a->w-lo),w); break;
    case K_ITE: if(isC(a->b)||isC(a->c)||a->b->k==K_ITE||a->c->k==K_ITE) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
    case K_AND: case K_OR: case K_XOR: if(isC(a->a)||isC(a->b)) return mkBin(a->k,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w)); break;
    case K_ADD: case K_SUB: case K_MUL: if(lo==0) return mkBin(a->k,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    case K_LSHR: if(isC(a->b)&&lo+w+a->b->v<=a->w) return mkExtract(a->a,lo+a->b->v,w); break;
    case K_ASHR: if(isC(a->b)&&lo+w+a->b->v<=a->w) return mkExtract(a->a,lo+a->b->v,w); break;
    case K_SHL: if(isC(a->b)){ if(lo>=a->b->v) return mkExtract(a->a,lo-a->b->v,w); if(lo+w<=a->b->v) return mkConst(0,w); } break;
    default:break;
  }
  return eqFix(intern(K_EXTRACT,w,a,0,0,lo));
}
Expr* mkConcat(Expr*h,Expr*l){
  unsigned w=h->w+l->w;
  if(isC(h)&&isC(l)) return mkConst((h->v<<l->w)|l->v,w);
  if(isC(h)&&h->v==0) return mkZext(l,w);
  if(h->k==K_EXTRACT&&l->k==K_EXTRACT&&h->a==l->a&&h->v==l->v+l->w) return mkExtract(h->a,l->v,w);
  if(h->k==K_EXTRACT&&h->a==l&&h->v==l->w) return mkExtract(h->a,0,w);
  if(l->k==K_CONCAT){ Expr*m=l->a; // re-associate when the pieces join
    if(h->k==K_EXTRACT&&m->k==K_EXTRACT&&h->a==m->a&&h->v==m->v+m->w) return mkConcat(mkExtract(h->a,m->v,h->w+m->w),l->b);
    if(isC(h)&&isC(m)) return mkConcat(mkConcat(h,m),l->b); }
  if(h->k==K_CONCAT){ Expr*m=h->b; 
    if(m->k==K_EXTRACT&&l->k==K_EXTRACT&&l->a==m->a&&m->v==l->v+l->w) return mkConcat(h->a,mkExtract(m->a,l->v,m->w+l->w));
    if(isC(m)&&isC(l)) return mkConcat(h->a,mkConcat(m,l)); }
  if(h->k==K_ZEXT) return mkZext(mkConcat(h->a,l),w);
  if(h->k==K_ITE&&l->k==K_ITE&&h->a==l->a) return mkIte(h->a,mkConcat(h->b,l->b),mkConcat(h->c,l->c));
  return eqFix(intern(K_CONCAT,w,h,l,0,0));
}
Expr* mkIte(Expr*c,Expr*t,Expr*f){
  if(isC(c)) return c->v?t:f; if(t==f) return t;
  if(c->k==K_NOT) return mkIte(c->a,f,t);
  if(t->w==1){ if(isC(t)&&isC(f)) return t->v?c:mkNot(c); if(isC(t)) return t->v?mkOrB(c,f):mkAndB(mkNot(c),f); if(isC(f)) return f->v?mkOrB(mkNot(c),t):mkAndB(c,t); }
  if(t->k==K_ITE&&t->a==c) t=t->b; if(f->k==K_ITE&&f->a==c) f=f->c; if(t==f) return t;
  if(f->k==K_ITE&&f->b==t) return mkIte(mkOrB(c,f->a),t,f->c);
  return eqFix(intern(K_ITE,t->w,c,t,f,0));
}
Expr* mkFp1(Kind k,Expr*a,unsigned w,u64 v){
  if(isC(a)) return mkConst(evalOp(k,w,a->w,a->v,0,0,v,0),w);
  // exact identities
  if(k==K_FPTOSI&&a->k==K_SITOFP){ Expr*s=a->a; bool exact=(a->w==64&&s->w<=32)||(a->w==32&&s->w<=16)||(a->w==64&&s->hi<(1ull<<52))||(a->w==32&&s->hi<(1u<<23)); if(exact) return s->w>=w?mkExtract(s,0,w):mkSext(s,w); }
  if(k==K_FPTOSI&&a->k==K_FPEXT) return mkFp1(k,a->a,w,0);
  if(k==K_FPTRUNC&&a->k==K_FPEXT){ Expr*x=a->a; return mkIte(mkBin(K_ULT,mkConst(0x7f800000u,32),mkBin(K_AND,x,mkConst(0x7fffffffu,32))),mkBin(K_OR,x,mkConst(0x400000u,32)),x); }
  if(k==K_FPEXT&&a->k==K_SITOFP&&(a->a->w<=16||a->a->hi<(1u<<23))) return mkFp1(K_SITOFP,a->a,64,0);
  if(k==K_FROUND&&(a->k==K_SITOFP||a->k==K_UITOFP)) return a;
  return eqFix(intern(k,w,a,0,0,v));
}
static bool disjointBits(Expr*a,Expr*b){ return ((~a->kz)&(~b->kz)&mask(a->w))==0; }
Expr* mkBin(Kind k,Expr*a,Expr*b){
  unsigned w=(k>=K_EQ&&k<=K_SLE)?1:a->w; unsigned W=a->w; u64 M=mask(W);
  if(a->w!=b->w){ fprintf(stderr,"width mismatch kind %d %d %d\n",k,a->w,b->w); abort(); }
  if(isC(a)&&isC(b)) return mkConst(evalOp(k,w,W,a->v,b->v,0,0,W),w);
  if(k==K_EQ){ Expr*fe=a->k==K_FPEXT?a:b->k==K_FPEXT?b:0,*fc=fe==a?b:a; if(fe&&isC(fc)){ double d; memcpy(&d,&fc->v,8); if(d==d){ float f=(float)d; double g=f; u64 gb; memcpy(&gb,&g,8); if(gb!=fc->v) return mkConst(0,1); unsigned fb; memcpy(&fb,&f,4); return mkBin(K_EQ,fe->a,mkConst(fb,32)); } } }
  // a double rounding to a given float lies in an interval around it (round to nearest, ties to even)
  if(k==K_EQ&&W==32){ Expr*fe=a->k==K_FPTRUNC?a:b->k==K_FPTRUNC?b:0,*fc=fe==a?b:a; if(fe&&isC(fc)&&(fc->v&0x7fffffffu)<0x7f800000u&&fe->a->w==64){ unsigned m=fc->v&0x7fffffffu; double f=bf(m),n=m==0x7f7fffffu?0x1p128:bf(m+1),hi=(f+n)/2,lo=m?(f+bf(m-1))/2:0; u64 lb,hb; memcpy(&lb,&lo,8); memcpy(&hb,&hi,8); if(m&1) hb--, lb++;
      Expr*g=mkBin(K_AND,fe->a,mkConst(0x7fffffffffffffffull,64)); return mkAndB(mkBin(K_EQ,mkExtract(fe->a,63,1),mkConst(fc->v>>31,1)),mkAndB(mkBin(K_ULE,mkConst(lb,64),g),mkBin(K_ULE,g,mkConst(hb,64)))); } }
  // commutative: constant on the right
  if(isC(a)&&(k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR||k==K_EQ)) std::swap(a,b);
  else if(!isC(b)&&(k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR||k==K_EQ)&&a->id>b->id) std::swap(a,b);
  bool cb=isC(b); u64 bv=b->v;
  switch(k){
    case K_ADD: if(cb&&bv==0) return a; if(cb&&a->k==K_ADD&&isC(a->b)) return mkBin(K_ADD,a->a,mkConst(a->b->v+bv,W));
      if(cb&&a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkBin(K_ADD,a->b,b),mkBin(K_ADD,a->c,b));
      if(a->k==K_ADD&&isC(a->b)) return mkBin(K_ADD,mkBin(K_ADD,a->a,b),a->b);
      if(b->k==K_ADD&&isC(b->b)) return mkBin(K_ADD,mkBin(K_ADD,a,b->a),b->b);
      if(b->k==K_SUB&&b->b==a) return b->a; if(a->k==K_SUB&&a->b==b) return a->a;
      if(W==1) return mkBin(K_XOR,a,b);
      if(!cb&&disjointBits(a,b)) return mkBin(K_OR,a,b);
      break;
    case K_SUB: if(a==b) return mkConst(0,W); if(cb) return mkBin(K_ADD,a,mkConst((~bv+1),W));
      if(a->k==K_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a;
         if(isC(a->b)) return mkBin(K_ADD,mkBin(K_SUB,a->a,b),a->b); }
      if(b->k==K_ADD&&isC(b->b)) return mkBin(K_ADD,mkBin(K_SUB,a,b->a),mkConst(~b->b->v+1,W));
      if(W==1) return mkBin(K_XOR,a,b);
      break;
    case K_MUL: if(cb){ if(bv==0) return b; if(bv==1) return a; if((bv&(bv-1))==0) return mkBin(K_SHL,a,mkConst(__builtin_ctzll(bv),W)); 
        if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkBin(K_MUL,a->b,b),mkBin(K_MUL,a->c,b)); }
      break;
    case K_UDIV: if(cb&&bv==1) return a; if(cb&&bv&&(bv&(bv-1))==0) return mkBin(K_LSHR,a,mkConst(__builtin_ctzll(bv),W)); if(cb&&bv&&a->hi<bv) return mkConst(0,W); break;
    case K_SDIV: if(cb&&bv==1) return a; if(cb&&bv&&sx(bv,W)>0&&a->hi<=(M>>1)) return mkBin(K_UDIV,a,b);
      if(!cb&&a->hi<=(M>>1)&&b->hi<=(M>>1)) return mkBin(K_UDIV,a,b); break;
    case K_UREM: if(cb&&bv==1) return mkConst(0,W); if(cb&&bv&&(bv&(bv-1))==0) return mkBin(K_AND,a,mkConst(bv-1,W)); if(cb&&bv&&a->hi<bv) return a; break;
    case K_SREM: if(cb&&bv&&sx(bv,W)>0&&a->hi<=(M>>1)) return mkBin(K_UREM,a,b); if(cb&&bv==1) return mkConst(0,W); break;
    case K_AND: if(a==b) return a; if(cb){ if(bv==0) return b; if(bv==M) return a; 
        u64 live=(~a->kz)&M; if((live&bv)==live) return a; if((live&bv)==0) return mkConst(0,W);
        if(a->k==K_AND&&isC(a->b)) return mkBin(K_AND,a->a,mkConst(a->b->v&bv,W));
        if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkBin(K_AND,a->b,b),mkBin(K_AND,a->c,b));
        // low mask -> zext(extract)
        if(((bv+1)&bv)==0&&W<=64){ unsigned n=64-__builtin_clzll(bv); if(n<W) return mkZext(mkExtract(a,0,n),W); } }
      if(W==1){ if(a->k==K_NOT&&a->a==b) return mkConst(0,1); if(b->k==K_NOT&&b->a==a) return mkConst(0,1); }
      break;
    case K_OR: if(a==b) return a; if(cb){ if(bv==0) return a; if(bv==M) return b; if(a->k==K_OR&&isC(a->b)) return mkBin(K_OR,a->a,mkConst(a->b->v|bv,W)); 
        if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkBin(K_OR,a->b,b),mkBin(K_OR,a->c,b)); }
      if(W==1){ if(a->k==K_NOT&&a->a==b) return mkConst(1,1); if(b->k==K_NOT&&b->a==a) return mkConst(1,1); }
      if(W>1&&disjointBits(a,b)&&!cb){ // recognise concat of shifted pieces
        for(int t=0;t<2;t++){ Expr*h=t?b:a,*l=t?a:b; 
          u64 live=(~l->kz)&M; unsigned n=live?64-__builtin_clzll(live):0; 
          if(n>0&&n<W&&((~h->kz)&mask(n))==0) { return mkConcat(mkExtract(h,n,W-n),mkExtract(l,0,n)); } } }
      break;
    case K_XOR: if(a==b) return mkConst(0,W); if(cb){ if(bv==0) return a; if(W==1) return mkNot(a); if(a->k==K_XOR&&isC(a->b)) return mkBin(K_XOR,a->a,mkConst(a->b->v^bv,W)); } break;
    case K_SHL: if(cb){ if(bv==0) return a; if(bv>=W) return mkConst(0,W); return mkConcat(mkExtract(a,0,W-bv),mkConst(0,bv)); } if(isC(a)&&a->v==0) return a; break;
    case K_LSHR: if(cb){ if(bv==0) return a; if(bv>=W) return mkConst(0,W); return mkZext(mkExtract(a,bv,W-bv),W); } if(isC(a)&&a->v==0) return a; break;
    case K_ASHR: if(cb){ if(bv==0) return a; unsigned s=bv>=W?W-1:bv; return mkSext(mkExtract(a,s,W-s),W); } break;
    case K_EQ:
      if(a==b) return mkConst(1,1);
      if(a->hi<b->lo||b->hi<a->lo) return mkConst(0,1);
      if(cb){
        if(bv&a->kz) return mkConst(0,1);
        if(W==1) return bv?a:mkNot(a);
        switch(a->k){
          case K_ADD: if(isC(a->b)) return mkBin(K_EQ,a->a,mkConst(bv-a->b->v,W)); break;
          case K_XOR: if(isC(a->b)) return mkBin(K_EQ,a->a,mkConst(bv^a->b->v,W)); break;
          case K_SUB: if(isC(a->a)) return mkBin(K_EQ,a->b,mkConst(a->a->v-bv,W)); if(bv==0) return mkBin(K_EQ,a->a,a->b); break;
          case K_ZEXT: if(bv>mask(a->a->w)) return mkConst(0,1); return mkBin(K_EQ,a->a,mkConst(bv,a->a->w));
          case K_SEXT: { u64 lowv=bv&mask(a->a->w); if(((u64)sx(lowv,a->a->w)&M)!=bv) return mkConst(0,1); return mkBin(K_EQ,a->a,mkConst(lowv,a->a->w)); }
          case K_ITE: if(isC(a->b)||isC(a->c)) return mkIte(a->a,mkBin(K_EQ,a->b,b),mkBin(K_EQ,a->c,b)); break;
          case K_CONCAT: return mkAndB(mkBin(K_EQ,a->a,mkConst(bv>>a->b->w,a->a->w)),mkBin(K_EQ,a->b,mkConst(bv,a->b->w)));
          default:break;
        }
      } else {
        if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkBin(K_EQ,a->a,b->a);
        if(a->k==K_SEXT&&b->k==K_SEXT&&a->a->w==b->a->w) return mkBin(K_EQ,a->a,b->a);
        if(a->k==K_ADD&&b->k==K_ADD&&isC(a->b)&&isC(b->b)&&a->b==b->b) return mkBin(K_EQ,a->a,b->a);
        if(a->k==K_ADD&&isC(a->b)&&a->a==b) return mkConst(a->b->v==0,1);
        if(b->k==K_ADD&&isC(b->b)&&b->a==a) return mkConst(b->b->v==0,1);
        if(a->k==K_CONCAT&&b->k==K_CONCAT&&a->b->w==b->b->w) return mkAndB(mkBin(K_EQ,a->a,b->a),mkBin(K_EQ,a->b,b->b));
      }
      break;
    case K_ULT: if(a==b) return mkConst(0,1); if(a->hi<b->lo) return mkConst(1,1); if(a->lo>=b->hi) return mkConst(0,1);
      if(cb&&bv==1) return mkBin(K_EQ,a,mkConst(0,W));
      if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkBin(K_ULT,a->a,b->a);
      if(cb&&a->k==K_ZEXT&&bv<=mask(a->a->w)) return mkBin(K_ULT,a->a,mkConst(bv,a->a->w));
      if(isC(a)&&b->k==K_ZEXT&&a->v<=mask(b->a->w)) return mkBin(K_ULT,mkConst(a->v,b->a->w),b->a);
      if(a->k==K_ITE&&cb&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkBin(k,a->b,b),mkBin(k,a->c,b));
      if(b->k==K_ITE&&isC(a)&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkBin(k,a,b->b),mkBin(k,a,b->c));
      break;
    case K_ULE: if(a==b) return mkConst(1,1); if(a->hi<=b->lo) return mkConst(1,1); if(a->lo>b->hi) return mkConst(0,1);
      if(cb&&bv<M) return mkBin(K_ULT,a,mkConst(bv+1,W));
      if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkBin(K_ULE,a->a,b->a);
      if(isC(a)&&b->k==K_ZEXT&&a->v<=mask(b->a->w)) return mkBin(K_ULE,mkConst(a->v,b->a->w),b->a);
      if(b->k==K_ITE&&isC(a)&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkBin(k,a,b->b),mkBin(k,a,b->c));
      break;
    case K_SLT: case K_SLE: {
      if(a==b) return mkConst(k==K_SLE,1);
      u64 H=M>>1; bool an=a->hi<=H, bn=b->hi<=H, aneg=a->lo>H, bneg=b->lo>H;
      if((an&&bn)||(aneg&&bneg)) return mkBin(k==K_SLT?K_ULT:K_ULE,a,b);
      if(aneg&&bn) return mkConst(1,1); if(an&&bneg) return mkConst(0,1);
      if(k==K_SLE){ if(cb&&bv!=H) return mkBin(K_SLT,a,mkConst(bv+1,W)); }
      if(a->k==K_SEXT&&b->k==K_SEXT&&a->a->w==b->a->w) return mkBin(k,a->a,b->a);
      if(cb&&a->k==K_SEXT){ unsigned n=a->a->w; i64 s=sx(bv,W); i64 mn=-(i64)(1ull<<(n-1)), mx=(i64)(1ull<<(n-1))-1; if(s>=mn&&s<=mx) return mkBin(k,a->a,mkConst((u64)s,n)); return mkConst(s>mx,1); }
      if(isC(a)&&b->k==K_SEXT){ unsigned n=b->a->w; i64 s=sx(a->v,W); i64 mn=-(i64)(1ull<<(n-1)), mx=(i64)(1ull<<(n-1))-1; if(s>=mn&&s<=mx) return mkBin(k,mkConst((u64)s,n),b->a); return mkConst(s<mn,1); }
      if(a->k==K_ITE&&cb&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkBin(k,a->b,b),mkBin(k,a->c,b));
      if(b->k==K_ITE&&isC(a)&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkBin(k,a,b->b),mkBin(k,a,b->c));
      break; }
    default:break;
  }
  return eqFix(intern(k,w,a,b,0,0));
}
// ---------------------------------------------------------------- path facts
static void setRange(Expr*e,u64 lo,u64 hi){ if(lo>e->lo) e->lo=lo; if(hi<e->hi) e->hi=hi;
  if(e->lo==e->hi) g_eq[e]=e->lo;
  unsigned nb=e->hi?64-__builtin_clzll(e->hi):0; e->kz|=mask(e->w)&~mask(nb); if(nb==0) e->kz=mask(e->w);
  if(e->k==K_ZEXT) setRange(e->a,lo,std::min(hi,mask(e->a->w)));
  else if(e->k==K_SEXT&&e->hi<=(mask(e->a->w)>>1)) setRange(e->a,lo,hi);
  else if(e->k==K_ADD&&isC(e->b)){ u64 M=mask(e->w); // x + c in [lo,hi] without wrap on either end
     u64 l=(e->lo-e->b->v)&M,h=(e->hi-e->b->v)&M; if(l<=h&&(l>e->a->lo||h<e->a->hi)) setRange(e->a,l,h); } }
static std::unordered_map<Expr*,bool> g_hard;
bool hard(Expr*e){ if(e->k==K_CONST||e->k==K_SYM) return false; auto it=g_hard.find(e); if(it!=g_hard.end()) return it->second; bool h=e->k==K_MUL||e->k==K_UDIV||e->k==K_SDIV||e->k==K_UREM||e->k==K_SREM; if(!h&&e->a) h=hard(e->a); if(!h&&e->b) h=hard(e->b); if(!h&&e->c) h=hard(e->c); return g_hard[e]=h; }
// An FP-dependent integer/boolean expression over one small-range integer input is replaced by its exact
// piecewise-constant table (an ITE tree over that input), so that the solver never sees the FP operations.
static Expr* pieces(Expr*x,const std::vector<std::pair<u64,u64>>&r,size_t i,size_t j,unsigned w){ if(j-i==1) return mkConst(r[i].second,w); size_t m=(i+j)/2; return mkIte(mkBin(K_ULT,x,mkConst(r[m].first,x->w)),pieces(x,r,i,m,w),pieces(x,r,m,j,w)); }
Expr* tabulate(Expr*e){
  if(e->k==K_CONST||e->sup->v.size()!=1) return e; bool small=false; if(!e->fp){ if(!hard(e)) return e; small=true; } u32 x=e->sup->v[0]; Expr*X=g_vars[x].e; if(X->fp||X->hi-X->lo>(small?511:16383)) return e;
  static u32 ep=0xC0000000; static std::unordered_map<u64,Expr*> memo; u64 key=(u64)(size_t)e*31+X->lo*7919+X->hi; auto it=memo.find(key); if(it!=memo.end()) return it->second;
  std::vector<u64> m(g_vars.size(),0); std::vector<std::pair<u64,u64>> r; Expr*res=e; u64 v=X->lo;
  for(;;v++){ m[x]=v; u64 y=evalExpr(e,m,++ep); if(r.empty()||r.back().second!=y){ r.push_back({v,y}); if(r.size()>128) break; } if(v==X->hi) break; }
  if(r.size()<=128) res=pieces(X,r,0,r.size(),e->w);
  memo[key]=res; return res; }
void learnFact(Expr*c){
  if(isC(c)) return;
  g_eq[c]=1;
  if(c->k==K_NOT){ g_eq[c->a]=0; if(c->a->k==K_OR){ learnFact(mkNot(c->a->a)); learnFact(mkNot(c->a->b)); }
    if(c->a->k==K_EQ&&isC(c->a->b)){ Expr*x=c->a->a; u64 v=c->a->b->v; if(x->lo==v&&x->lo<x->hi) setRange(x,v+1,x->hi); else if(x->hi==v&&x->lo<x->hi) setRange(x,x->lo,v-1); }
    return; }
  { Expr*n=nullptr; switch(c->k){ case K_ULT:n=intern(K_ULE,1,c->b,c->a,0,0);break; case K_ULE:n=intern(K_ULT,1,c->b,c->a,0,0);break; case K_SLT:n=intern(K_SLE,1,c->b,c->a,0,0);break; case K_SLE:n=intern(K_SLT,1,c->b,c->a,0,0);break; case K_SYM: case K_EXTRACT: case K_OR: case K_EQ: case K_AND: n=intern(K_NOT,1,c,0,0,0);break; default:break;} if(n) g_eq[n]=0; }
  switch(c->k){
    case K_AND: learnFact(c->a); learnFact(c->b); break;
    case K_EQ: if(isC(c->b)){ g_eq[c->a]=c->b->v; setRange(c->a,c->b->v,c->b->v); } break;
    case K_ULT: if(isC(c->b)&&c->b->v) setRange(c->a,0,c->b->v-1); else if(isC(c->a)&&c->a->v<mask(c->a->w)) setRange(c->b,c->a->v+1,mask(c->b->w)); break;
    case K_ULE: if(isC(c->b)) setRange(c->a,0,c->b->v); else if(isC(c->a)) setRange(c->b,c->a->v,mask(c->b->w)); break;
    case K_SLT: { u64 H=mask(c->a->w)>>1; if(isC(c->b)&&c->a->hi<=H&&c->b->v&&c->b->v<=H) setRange(c->a,0,c->b->v-1); else if(isC(c->a)&&(c->a->v<H||c->a->v==mask(c->a->w))) setRange(c->b,(c->a->v+1)&mask(c->a->w),H); break; }
    case K_SLE: { u64 H=mask(c->a->w)>>1; if(isC(c->b)&&c->a->hi<=H&&c->b->v<=H) setRange(c->a,0,c->b->v); else if(isC(c->a)&&c->a->v<=H) setRange(c->b,c->a->v,H); break; }
    default:break;
  }
}
// rebuild an expression under the facts learnt since it was built
Expr* substFacts(Expr*e,u32 ep){
  if(isC(e)) return e; if(e->sub_epoch==ep) return e->sub;
  Expr*r=eqFix(e);
  if(r==e&&e->k!=K_SYM){
    Expr*a=e->a?substFacts(e->a,ep):0,*b=nullptr,*c=nullptr;
    if(e->k==K_ITE&&isC(a)) r=a->v?substFacts(e->b,ep):substFacts(e->c,ep);
    else {
      b=e->b?substFacts(e->b,ep):0; c=e->c?substFacts(e->c,ep):0;
      if(a!=e->a||b!=e->b||c!=e->c||true){
        switch(e->k){
          case K_NOT: r=mkNot(a); break; case K_ITE: r=mkIte(a,b,c); break; case K_ZEXT:r=mkZext(a,e->w);break; case K_SEXT:r=mkSext(a,e->w);break;
          case K_EXTRACT:r=mkExtract(a,e->v,e->w);break; case K_CONCAT:r=mkConcat(a,b);break;
          case K_FPEXT: case K_FPTRUNC: case K_FPTOSI: case K_FPTOUI: case K_SITOFP: case K_UITOFP: case K_FROUND: case K_FSQRT: r=mkFp1(e->k,a,e->w,e->v);break;
          default: r=mkBin(e->k,a,b);
        }
      }
    }
  }
  e->sub_epoch=ep; e->sub=r; return r;
}
