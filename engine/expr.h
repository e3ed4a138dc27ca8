// Hash-consed bit-vector expression DAG with a local simplifier.
// One engine process follows exactly one path, so path facts only ever grow
// and may be recorded in the DAG itself (eqmap, tightened intervals).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <map>
#include <vector>
#include <algorithm>
#include <cmath>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum Kind : u8 {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_NOT,                       // width-1 only
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,   // CONCAT a=high b=low ; EXTRACT v=low bit
  // floating point on bit patterns
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FPEXT, K_FPTRUNC,
  K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP, K_FROUND,   // FROUND v: 0 floor 1 ceil 2 trunc 3 rint 4 round
  K_FSQRT
};

struct Sup { std::vector<u32> v; };   // sorted set of variable ids

struct Expr {
  Kind k; u8 w; bool fp; u32 id;
  Expr *a, *b, *c; u64 v;
  u64 kz;            // bits known to be zero
  u64 lo, hi;        // unsigned interval
  Sup* sup;
  u32 ev_epoch; u64 ev;
  u32 sub_epoch; Expr* sub;
  void* zast; void* zbool;
};

static inline u64 mask(unsigned w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=mask(w); return (i64)((v^m)-m); }

struct SymVar { std::string name; unsigned w; Expr* e; unsigned group; unsigned off; };
extern std::vector<SymVar> g_vars;

Expr* mkConst(u64 v, unsigned w);
Expr* mkSym(const std::string& name, unsigned w, unsigned group, unsigned off);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkFp1(Kind k, Expr* a, unsigned w, u64 v=0);
u64 evalOp(Kind k, unsigned w, unsigned wa, u64 a, u64 b, u64 c, u64 v, unsigned wb);
u64 evalExpr(Expr* e, const std::vector<u64>& model, u32 epoch);
Expr* mkAndB(Expr*a, Expr*b); Expr* mkOrB(Expr*a, Expr*b);
void learnFact(Expr* c);   // c (width 1) holds on this path
Expr* substFacts(Expr* e, u32 epoch);
Expr* tabulate(Expr*e); bool hard(Expr*e);
extern std::unordered_map<Expr*,u64> g_eq;
extern u32 g_nexpr;
