// Shared machinery for checks over histories of record operations on one file.
#pragma once
#include "h.h"
#define NREC 6
enum { A_IH, A_H2, A_UH, A_V1, A_V2, A_V3, NARR };
typedef struct { int live, type, n[NARR]; int* d[NARR]; } content;
typedef struct { const char* path; content c; content undel; int everDeleted; } rec;
static rec R[NREC]; static int nrec; static int g_ver;
static long long IFL[250];
static const int TYPE = 900;
// size classes: the number of ints in each of the six parts
static const short SZ[][NARR] = {
  {0,0,0,4,0,0}, {3,0,0,12,0,0}, {1,1,1,12,0,0}, {0,0,0,300,0,0}, {0,0,0,0,0,0}, {2,5,4,9,7,3}, {0,0,0,640,0,0}, {7,0,2,240,31,0},
  {1,0,0,301,1,1}, {0,0,0,330,0,0}, {0,0,0,150,0,0} };
static int* mk(int n, int seed, int nsym) { int* p = malloc(n ? 4 * n : 4); for (int i = 0; i < n; i++) p[i] = seed * 1000003 + i * 7 + 1; if (n && nsym) { dsym_sym(p, 4, "w"); if (n > 1 && nsym > 1) dsym_sym(p + n - 1, 4, "wl"); } return p; }
static int** fld(zStructTransfer* t, int a, int** num) { switch (a) { case A_IH: *num = &t->internalHeaderNumber; return &t->internalHeader; case A_H2: *num = &t->header2Number; return &t->header2; case A_UH: *num = &t->userHeaderNumber; return &t->userHeader; case A_V1: *num = &t->values1Number; return &t->values1; case A_V2: *num = &t->values2Number; return &t->values2; default: *num = &t->values3Number; return &t->values3; } }
static int g_nsym = 1;
static int op_write_n(long long* ifl, int i, const short* n, int type) {
  content c; memset(&c, 0, sizeof c); c.live = 1; c.type = type; g_ver++;
  zStructTransfer* t = zstructTransferNew(R[i].path, 0); t->dataType = type;
  // a user header of odd length that is all text is padded to an even length on purpose; keep ours binary
  for (int a = 0; a < NARR; a++) { int* num; int** f = fld(t, a, &num); c.n[a] = n[a]; c.d[a] = mk(n[a], g_ver * 8 + a, a == A_UH ? 0 : g_nsym); if (a == A_UH && n[a]) c.d[a][0] = c.d[a][0] << 8; *num = n[a]; *f = n[a] ? c.d[a] : 0; }
  t->numberValues = n[A_V1]; t->logicalNumberValues = n[A_V1];
  int st = zwrite(ifl, t); zstructFree(t);
  if (st == 0) { R[i].c = c; R[i].everDeleted = 0; }
  return st;
}
static int op_write(long long* ifl, int i, int cls) { return op_write_n(ifl, i, SZ[cls], TYPE); }
static int op_delete(long long* ifl, int i) { int st = zdelete(ifl, R[i].path); if (st == 0) { R[i].undel = R[i].c; R[i].c.live = 0; R[i].everDeleted = 1; } return st; }
static int same(content* c, zStructTransfer* t) { if (t->dataType != c->type) return 0; for (int a = 0; a < NARR; a++) { int* num; int** f = fld(t, a, &num); if (*num != c->n[a]) return 0; if (c->n[a] && (!*f || !dsym_memeq(*f, c->d[a], 4 * c->n[a]))) return 0; } return 1; }
// 0: reads back as expected; 1: wrong status; 2: wrong content
static int rd(long long* ifl, const char* path, content* c) {
  zStructTransfer* t = zstructTransferNew(path, 1); int st = zread(ifl, t); int r;
  if (!c->live) r = st != STATUS_RECORD_NOT_FOUND; else r = st != STATUS_OKAY ? 1 : same(c, t) ? 0 : 2;
  zstructFree(t); return r;
}
static int verify(long long* ifl, int i) {
  int st = zcheck(ifl, R[i].path); if (st != (R[i].c.live ? STATUS_RECORD_FOUND : STATUS_RECORD_NOT_FOUND)) return 1;
  return rd(ifl, R[i].path, &R[i].c);
}
static int live(void) { int k = 0; for (int i = 0; i < nrec; i++) k += R[i].c.live; return k; }
static int openf(long long* ifl, const char* nm) { memset(ifl, 0, 250 * sizeof *ifl); zset("MLVL", "", 0); return hec_dss_zopen(ifl, nm); }
// every query agrees that record i exists with its content, or does not exist
static int dead(long long* ifl, const char* p) {
  if (zcheck(ifl, p) != STATUS_RECORD_NOT_FOUND) return 1;
  zStructTransfer* t = zstructTransferNew(p, 1); int st = zread(ifl, t); zstructFree(t); if (st != STATUS_RECORD_NOT_FOUND) return 2;
  if (zdataType(ifl, p) > 0) return 3;
  zStructRecordBasics* b = zstructRecordBasicsNew(p); st = zgetRecordBasics(ifl, b); zstructFree(b); if (st == STATUS_OKAY) return 4;
  return 0;
}
static int agree(long long* ifl, int i) { return R[i].c.live ? verify(ifl, i) : dead(ifl, R[i].path); }
static int okay(long long* ifl) { for (int i = 0; i < nrec; i++) if (agree(ifl, i)) return 0; return zinquire(ifl, "nrec") == live(); }
// the catalog lists exactly the live records
static int cmpci(const char* a, const char* b) { for (; *a && *b; a++, b++) { int x = *a, y = *b; if (x >= 'a' && x <= 'z') x -= 32; if (y >= 'a' && y <= 'z') y -= 32; if (x != y) return 1; } return *a || *b; }
static int catalog(long long* ifl, const char* filter, const char* want, int sort) { // want: one char per record, '1' if it has to be listed
  zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(ifl, filter, c, sort), k = 0, bad = 0;
  for (int i = 0; i < nrec; i++) if (want ? want[i] == '1' && R[i].c.live : R[i].c.live) { int m = 0; for (int j = 0; j < c->numberPathnames; j++) if (!cmpci(c->pathnameList[j], R[i].path)) { m++; if (c->recordType[j] != R[i].c.type) bad = 2; } if (m != 1) bad = m ? 3 : 4; k++; }
  if (n != k || c->numberPathnames != k) bad = 1;
  zstructFree(c); return bad;
}
