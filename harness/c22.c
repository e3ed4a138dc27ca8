// C22: a record is never overwritten by, or retrieved as, data of another kind
#include "hist.h"
#include "anykind.h"
// what the file says about the record besides its content
typedef struct { long long t; int type, count; zStructRecordBasics b; int cat; } about;
static about say(void) { about a; memset(&a, 0, sizeof a); a.t = zgetLastWriteTimeRec(IFL, P); a.type = zdataType(IFL, P); a.count = (int)zinquire(IFL, "nrec"); zStructRecordBasics* b = zstructRecordBasicsNew(P); zgetRecordBasics(IFL, b); a.b = *b; a.b.pathname = 0; memset(a.b.allocated, 0, sizeof a.b.allocated); zstructFree(b); zStructCatalog* c = zstructCatalogNew(); zcatalog(IFL, 0, c, 0); for (int i = 0; i < c->numberPathnames; i++) if (!strcmp(c->pathnameList[i], P)) a.cat = 1 + c->recordType[i]; zstructFree(c); return a; }
static int saysame(about* a, about* b) { return a->t == b->t && a->type == b->type && a->count == b->count && a->cat == b->cat && a->b.recordType == b->b.recordType && a->b.version == b->b.version && a->b.recLastWriteTimeMillis == b->b.recLastWriteTimeMillis && a->b.recCreationTimeMillis == b->b.recCreationTimeMillis && a->b.numberValues == b->b.numberValues; }
static int first(int nb) {
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); nrec = 2; R[0].path = P0; R[1].path = P1; st = op_write(IFL, 0, 5); dsym_assert(st == 0, "another record"); rt_clock_ms += 50; (void)nb; return 0;
}
static void after(void) { // everything else still works
  int r = agree(IFL, 0); dsym_assert(r == 0, "the other record is as it was"); int st = op_write(IFL, 1, 2); dsym_assert(st == 0, "other records can be stored after the refusal"); r = agree(IFL, 1); dsym_assert(r == 0, "and read back");
}
// the other kinds of data stored over kind a
static void over(int a0, int a1) {
  int a = pick(a0, a1, "stored"), b = pick(0, NKIND - 1, "over it"), sa = pick(0, 1, "size"), sb = THOROUGH ? pick(0, 1, "size2") : !sa; if ((fam(a) == 0 && fam(b) == 1) || (fam(a) == 1 && fam(b) == 0)) dsym_stop(); P = fam(a) == 1 || fam(b) == 1 ? PI : PR;
  first(0); int st = store(a, 0, sa); dsym_assert(st == 0, "the first is stored"); int k = kind(zdataType(IFL, P)); dsym_assert(k == a, "it is of the kind stored"); zStructTransfer* t = whole(); dsym_assert(t != 0, "it reads"); about y = say(); rt_clock_ms += 5000; int again = pick(0, 1, "reopened"); if (again) { zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "reopens"); }
  int nl = rt_nlocks(rt_pid); st = store(b, 1, sb); if (st >= 0) if (!again) dsym_assert(rt_nlocks(rt_pid) == nl, "no further lock is kept"); zStructTransfer* u = whole(); int same = a == GRD && b == GRD ? sa == sb : a == b;
  if (same || (fam(a) == fam(b) && fam(a) <= 1)) dsym_assert(st == 0, "data of the same kind replaces it");
  if (fam(a) == fam(b) && st == 0) { dsym_assert(u != 0, "it reads"); int k2 = kind(zdataType(IFL, P)); dsym_assert(fam(k2) == fam(a), "it stays of that kind"); dsym_assert(k2 == kind(u->dataType), "its type is told as it is"); dsym_cover("replaced"); }
  else {
    dsym_assert(st < 0, "storing another kind is refused"); int e = equal(t, u); dsym_assert(e, "the record is as it was"); about z = say(); dsym_assert(saysame(&y, &z), "what the file says about the record is as it was"); after(); zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); zStructTransfer* w = whole(); e = equal(t, w); dsym_assert(e, "the record is as it was, reopened"); z = say(); y.count++; dsym_assert(saysame(&y, &z), "what the file says about it is as it was, reopened"); int r = agree(IFL, 0) + agree(IFL, 1); dsym_assert(r == 0, "the others too"); zstructFree(w); dsym_cover("refused");
  }
  zstructFree(t); if (u) zstructFree(u); zclose(IFL);
}
void h_over_ts(void) { over(RTS, RTD); }
void h_over_its(void) { over(ITS, ITD); }
void h_over_pd(void) { over(PDF, PDD); }
void h_over_text(void) { over(TXT, TXTT); }
void h_over_array(void) { over(ARR, GRD); }
void h_over_other(void) { over(TIN, RAW); }
// any type number over any type number
static int okover(int t1, int t2) { return (t1 == t2) | ((t1 == 100) & (t2 == 105)) | ((t1 == 105) & (t2 == 100)) | ((t1 == 110) & (t2 == 115)) | ((t1 == 115) & (t2 == 110)); }
void h_types(void) {
  P = P1; int st = openf(IFL, "a.dss"); nrec = 2; R[0].path = P0; R[1].path = P1; st |= op_write(IFL, 0, 5); int t1 = sym_int("type1"), t2 = sym_int("type2"); dsym_assume((t1 > 0) & (t1 < 1000) & (t2 > 0) & (t2 < 1000)); int c1 = pick(0, THOROUGH ? 2 : 1, "size1"), c2 = pick(0, THOROUGH ? 3 : 1, "size2"); g_nsym = 0;
  st |= op_write_n(IFL, 1, SZ[c1], t1); dsym_assert(st == 0, "stored"); content c = R[1].c; rt_clock_ms += 5000; long long w = zgetLastWriteTimeRec(IFL, P1); st = op_write_n(IFL, 1, SZ[c2], t2); int ok = okover(t1, t2); dsym_assert(ok == (st == 0), "a record is replaced exactly when the kinds agree");
  if (st) { dsym_cover("refused"); dsym_assert(st < 0, "an error"); R[1].c = c; long long w2 = zgetLastWriteTimeRec(IFL, P1); dsym_assert(w == w2, "its write time is as it was"); } else dsym_cover("replaced");
  int r = agree(IFL, 0) + agree(IFL, 1); dsym_assert(r == 0, "the records"); zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens"); r = agree(IFL, 0) + agree(IFL, 1); dsym_assert(r == 0, "the records, reopened"); int ty = zdataType(IFL, P1); dsym_assert(ty == R[1].c.type, "its type"); dsym_cover("end");
}
// every retrieval function on a record of another kind
enum { NGET = 16 };
static int getkind(int g) { return g <= 3 ? 0 : g <= 5 ? 2 : g == 6 ? TXT : g <= 8 ? ARR : g <= 10 ? GRD : g == 11 ? TIN : g == 12 ? 0 : g == 13 ? 2 : g == 15 ? GRD : TXT; }
static int get(int g) {
  dss_file* f = (dss_file*)IFL; static char b[6][200]; static double d[40], o[40]; static int x[40]; static float fl[40], ta[8]; int n = 0, m = 0, j1 = 0, s1 = 0, q[8], h[8], st = 0; float c[8];
  switch (g) {
    case 0: return hec_dss_tsRetrieve(f, P, "01Jan1990", "2400", "31Dec1999", "2400", x, d, 40, &n, 0, 0, &j1, &s1, b[0], 200, b[1], 200, b[2], 200);
    case 1: return hec_dss_tsRetrieveInfo(f, P, b[0], 200, b[1], 200);
    case 2: return hec_dss_tsGetSizes(f, P, "01Jan1990", "2400", "31Dec1999", "2400", &n, &m);
    case 3: return hec_dss_tsGetDateTimeRange(f, P, pick(0, 1, "full set"), &n, &m, &j1, &s1);
    case 4: return hec_dss_pdRetrieve(f, P, o, 6, d, 6, &n, &m, b[0], 200, b[1], 200, b[2], 200, b[3], 200, b[4], 200, b[5], 200);
    case 5: return hec_dss_pdRetrieveInfo(f, P, &n, &m, b[0], 200, b[1], 200, b[2], 200, b[3], 200, &j1);
    case 6: return hec_dss_textRetrieve(f, P, b[0], 200);
    case 7: return hec_dss_arrayRetrieveInfo(f, P, &n, &m, &j1);
    case 8: return hec_dss_arrayRetrieve(f, P, x, 40, fl, 40, d, 40);
    case 9: case 10: return hec_dss_gridRetrieve(f, P, g == 9, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, h, h + 1, h + 2, b[0], 200, b[1], 200, b[2], 200, b[3], 200, b[4], 200, c, c + 1, c + 2, c + 3, c + 4, c + 5, c + 6, ta, 8, x, fl, 40);
    case 11: { zStructSpatialTin* t = zstructSpatialTinNew(P); st = zspatialTinRetrieve(IFL, t, 1); zstructFree(t); return st; }
    case 12: { zStructTimeSeries* t = zstructTsNew(P); st = ztsRetrieve(IFL, t, 0, pick(0, 2, "as"), 1); zstructFree(t); return st; }
    case 13: { zStructPairedData* t = zstructPdNew(P); st = zpdRetrieve(IFL, t, pick(0, 2, "as")); zstructFree(t); return st; }
    case 15: return zspatialGridRetrieveVersion(IFL, P, &n);
    case 14: { zStructText* t = zstructTextNew(P); st = ztextRetrieve(IFL, t); zstructFree(t); return st; }
  }
  return 0;
}
static int samefam(int g, int a) { int w = getkind(g); return w == 0 ? a <= ITD : w == 2 ? a == PDF || a == PDD : w == TXT ? a == TXT || a == TXTT : a == w; }
static void as(int irr) {
  int a = pick(0, NKIND - 1, "stored"), g = pick(0, NGET - 1, "get"); if (fam(a) < 2 && fam(a) != irr) dsym_stop(); P = irr ? PI : PR; first(0); int st = store(a, 0, 0); dsym_assert(st == 0, "the first is stored"); zStructTransfer* t = whole(); int mine = samefam(g, a);
  st = get(g); if (!mine) { dsym_assert(st != 0, "retrieving as another kind is refused"); dsym_cover("refused"); } else if (!(g == 6 && a == TXTT) && !(g == 4 && fam(a) == 2 && 0)) { dsym_assert(st == 0, "its own kind is retrieved"); dsym_cover("retrieved"); }
  zStructTransfer* u = whole(); int e = equal(t, u); dsym_assert(e, "the record is as it was"); st = get(samefam(0, a) ? 0 : a == PDF || a == PDD ? 13 : a == ARR ? 8 : a == GRD ? 9 : a == TIN ? 11 : 14); if (a != RAW) dsym_assert(st == 0, "its own kind is retrieved afterwards"); after(); zclose(IFL); zstructFree(t); zstructFree(u); dsym_cover("end");
}
void h_as(void) { as(0); }
void h_as_irr(void) { as(1); }
// any type number that is not one of the kind's own
void h_as_type(void) {
  int irr = pick(0, 1, "irregular"), g = pick(0, NGET - 1, "get"), c = pick(0, 2, "size"); P = irr ? PI : PR; first(0); R[1].path = P; int t = sym_int("type"), w = getkind(g); dsym_assume((t > 0) & (t < 1000)); dsym_assume(w == 0 ? (t < 100) | (t >= 200) : w == 2 ? (t < 200) | (t >= 300) : w == TXT ? (t < 300) | (t >= 400) : w == ARR ? (t < 90) | (t >= 100) : w == GRD ? (t < 400) | (t >= 450) : t != 450);
  g_nsym = 0; int st = op_write_n(IFL, 1, SZ[c], t); dsym_assert(st == 0, "stored"); st = get(g); dsym_assert(st != 0, "retrieving as another kind is refused"); int r = agree(IFL, 1); dsym_assert(r == 0, "the record is as it was"); R[1].path = P1; memset(&R[1].c, 0, sizeof R[1].c); after(); zclose(IFL); dsym_cover("end");
}
// a location's pathname may hold another kind of record, and a location may hold the pathname
static int getloc(void) { zStructLocation* l = zstructLocationNew(P); int st = zlocationRetrieve(IFL, l); zstructFree(l); return st; }
static int putloc(void) { zStructLocation* l = zstructLocationNew(P); l->xOrdinate = 1; l->yOrdinate = 2; l->supplemental = "text"; int st = zlocationStore(IFL, l, 1); zstructFree(l); return st; }
void h_location(void) {
  static const char* Q = "/A/L/Location Info////"; P = Q; int a = pick(PDF, NKIND - 1, "kind"), way = pick(0, 1, "location first"), sz = pick(0, 1, "size"); first(0); int st; if (way) { st = putloc(); dsym_assert(st == 0, "the location is stored"); zStructTransfer* t = whole(); st = store(a, 0, sz); dsym_assert(st != 0, "another kind over a location is refused"); zStructTransfer* u = whole(); int e = equal(t, u); dsym_assert(e, "the record is as it was"); st = getloc(); dsym_assert(st == 0, "the location is retrieved"); }
  else { st = store(a, 0, sz); dsym_assert(st == 0, "stored"); zStructTransfer* t = whole(); st = getloc(); dsym_assert(st != 0, "retrieving as another kind is refused"); st = putloc(); dsym_assert(st != 0, "a location over another kind is refused"); zStructTransfer* u = whole(); int e = equal(t, u); dsym_assert(e, "the record is as it was"); }
  after(); zclose(IFL); dsym_cover("end");
}
