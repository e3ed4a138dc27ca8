// C18: paired data reads back every ordinate, curve and label
#include "ts.h"
static dss_file* F;
#define L ((long long*)F)
static void openF(void) { zset("MLVL", "", 0); dsym_assert(hec_dss_open("a.dss", &F) == 0, "open"); }
static const char* P = "/Basin/Loc/Stage-Flow///Curve/";
// the model: what the record holds, as doubles plus its element size
typedef struct { int no, nc, dbl; double o[8], v[64]; int nl; char lab[80]; const char *ui, *ti, *ud, *td; } model;
static model M;
static double cv(double x, int dbl) { return dbl ? x : (double)(float)x; }
static int streq(const char* a, const char* b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
static const char* LAB[] = {"A", "Residential", "", "Commercial use", "x y", "Ag."};
static int labels(char* b, int nc, int s) { int n = 0; for (int i = 0; i < nc; i++) { const char* t = LAB[(i * 2 + s) % 6]; strcpy(b + n, t); n += strlen(t) + 1; } return n; }
// retrieve windows of curves and ordinates (1-based, 0 0: everything) and compare with the model
static void expect(int flag, int c1, int c2, int o1, int o2) {
  zStructPairedData* p = zstructPdNew(P); p->startingCurve = c1; p->endingCurve = c2; p->startingOrdinate = o1; p->endingOrdinate = o2;
  dsym_assert(zpdRetrieve(L, p, flag) == 0, "retrieve succeeds"); int dbl = flag ? flag == 2 : M.dbl; if (!c1) c1 = 1; if (!c2) c2 = M.nc; if (!o1) o1 = 1; if (!o2) o2 = M.no; int no = o2 - o1 + 1, nc = c2 - c1 + 1;
  dsym_assert(p->numberOrdinates == M.no && p->numberCurves == M.nc, "numbers of ordinates and curves"); dsym_assert(p->numberOrdinatesInStruct == no && p->numberCurvesInStruct == nc, "numbers returned"); dsym_assert(dbl ? p->doubleOrdinates && p->doubleValues && !p->floatValues : p->floatOrdinates && p->floatValues && !p->doubleValues, "precision returned");
  for (int i = 0; i < no; i++) if (dbl) dsym_assert(same8(p->doubleOrdinates[i], M.o[o1 - 1 + i]), "ordinate"); else dsym_assert(same4(p->floatOrdinates[i], (float)M.o[o1 - 1 + i]), "ordinate");
  for (int j = 0; j < nc; j++) for (int i = 0; i < no; i++) { double m = M.v[(c1 - 1 + j) * M.no + o1 - 1 + i]; if (dbl) dsym_assert(same8(p->doubleValues[j * no + i], m), "value"); else dsym_assert(same4(p->floatValues[j * no + i], (float)m), "value"); }
  int at = 0, n = 0; if (M.nl) { for (int i = 1; i < c1; i++) at += strlen(M.lab + at) + 1; for (int i = c1; i <= c2; i++) n += strlen(M.lab + at + n) + 1; }
  dsym_assert(p->labelsLength == n, "length of labels"); for (int i = 0; i < n; i++) dsym_assert(p->labels[i] == M.lab[at + i], "labels");
  dsym_assert(streq(p->unitsIndependent, M.ui) && streq(p->unitsDependent, M.ud), "units"); dsym_assert(streq(p->typeIndependent, M.ti) && streq(p->typeDependent, M.td), "types"); zstructFree(p);
}
static float fo[8], fv[64]; static double dd[8], dv[64];
static zStructPairedData* build(int dbl, int no, int nc, int seed) {
  for (int i = 0; i < no; i++) fo[i] = dd[i] = seed + i * .5; for (int i = 0; i < no * nc; i++) fv[i] = dv[i] = seed * 10 + i * 1.25;
  zStructPairedData* p = dbl ? zstructPdNewDoubles(P, dd, dv, no, nc, "Feet", "Linear", "cfs", "Unt") : zstructPdNewFloats(P, fo, fv, no, nc, "Feet", "Linear", "cfs", "Unt"); M.no = no; M.nc = nc; M.dbl = dbl; M.nl = 0; M.ui = "Feet"; M.ti = "Linear"; M.ud = "cfs"; M.td = "Unt"; return p;
}
static void keep(int sdbl) { for (int i = 0; i < M.no; i++) M.o[i] = cv(M.dbl ? dd[i] : fo[i], sdbl); for (int i = 0; i < M.no * M.nc; i++) M.v[i] = cv(M.dbl ? dv[i] : fv[i], sdbl); M.dbl = sdbl; }
static void setv(int i, double d, float f) { dv[i] = d; fv[i] = f; } static void seto(int i, double d, float f) { dd[i] = d; fo[i] = f; }
// whole records of every small shape, stored and retrieved in every precision; one ordinate and one value are any number
static void whole(int big) {
  openF(); int dbl = pick(0, 1, "double"), sflag = pick(0, 2, "storage"), no = big ? 7 : pick(1, 4, "ordinates"), nc = big ? pick(5, 6, "curves") : pick(1, 3, "curves"), lab = pick(0, 2, "labels"), prec = pick(0, 2, "precision"); zStructPairedData* p = build(dbl, no, nc, 3); int sdbl = sflag ? sflag == 2 : dbl, at = (no + nc + lab) % (no * nc), ao = lab % no; char lb[80];
  if (sdbl == dbl) { if (dbl) { dv[at] = sym_double("v"); dd[ao] = sym_double("o"); dsym_assume(dv[at] == dv[at] && dd[ao] == dd[ao]); } else { fv[at] = sym_float("v"); fo[ao] = sym_float("o"); dsym_assume(fv[at] == fv[at] && fo[ao] == fo[ao]); } } else setv(at, 1e-3 / 7, 1e-3f / 7), seto(ao, 16777217., .1f);
  if (lab) { p->labels = lb; p->labelsLength = M.nl = labels(lb, nc, lab); memcpy(M.lab, lb, M.nl); } if (prec) { p->xprecision = prec * 2; p->yprecision = prec + 5; } p->boolIndependentIsXaxis = 1 + (prec == 1); if (prec == 2) { free(p->unitsDependent); p->unitsDependent = 0; p->allocated[zSTRUCT_unitsDependent] = 0; M.ud = 0; }
  dsym_assert(zpdStore(L, p, sflag) == 0, "store succeeds"); zstructFree(p); keep(sdbl); for (int f = 0; f < 3; f++) if (f != 1 || !sdbl || sdbl != dbl) expect(f, 0, 0, 0, 0);
  p = zstructPdNew(P); dsym_assert(zpdRetrieve(L, p, 0) == 0, "retrieve succeeds"); dsym_assert(prec ? p->xprecision == prec * 2 && p->yprecision == prec + 5 : p->xprecision == -1, "precision"); dsym_assert(p->boolIndependentIsXaxis == 1 + (prec == 1), "axis"); zstructFree(p); dsym_assert(zdataType(L, P) == (sdbl ? 205 : 200), "record type"); dsym_cover("end");
}
void h_whole(void) { whole(0); }
void h_whole_big(void) { whole(1); }
// a second store of another shape and precision replaces everything
void h_replace(void) {
  openF(); int a = pick(0, 7, "first"), b = pick(0, 7, "second"), lab = pick(0, 3, "labels"); static const int SH[4][2] = {{1, 1}, {3, 1}, {2, 3}, {5, 2}}; char lb[80];
  for (int w = 0; w < 2; w++) { int s = w ? b : a; zStructPairedData* p = build(s >> 2, SH[s & 3][0], SH[s & 3][1], 2 + w); if (lab >> w & 1) { p->labels = lb; p->labelsLength = M.nl = labels(lb, M.nc, w); memcpy(M.lab, lb, M.nl); } if (w) { dv[0] = sym_double("v"); fv[0] = sym_float("f"); dsym_assume(dv[0] == dv[0] && fv[0] == fv[0]); } dsym_assert(zpdStore(L, p, 0) == 0, "store succeeds"); zstructFree(p); keep(s >> 2); }
  expect(0, 0, 0, 0, 0); dsym_cover("end");
}
// storing part of the curves and ordinates changes only that part; reading part returns just that part
static void part(int withlab, int no, int nc) {
  openF(); int sdbl = pick(0, 1, "double"), pdbl = pick(0, 1, "part double"), c1 = pick(1, nc, "first curve"), c2 = pick(c1, nc, "last curve"), o1 = pick(1, no, "first ordinate"), o2 = pick(o1, no, "last ordinate"); char lb[80];
  int all = c1 == 1 && c2 == nc && o1 == 1 && o2 == no; if (all && sdbl != pdbl) dsym_stop(); // the whole record: an ordinary store
  zStructPairedData* p = build(sdbl, no, nc, 3); if (withlab) { p->labels = lb; p->labelsLength = M.nl = labels(lb, nc, 1); memcpy(M.lab, lb, M.nl); } dsym_assert(zpdStore(L, p, 0) == 0, "store succeeds"); zstructFree(p); keep(sdbl);
  if (all) dsym_stop();
  int zero = (c1 + o1) & 1; float pf[64]; double pv[64]; int n = (c2 - c1 + 1) * (o2 - o1 + 1); for (int i = 0; i < n; i++) pf[i] = pv[i] = -7 - i; if (pdbl == sdbl) { if (pdbl) { pv[n / 2] = sym_double("v"); dsym_assume(pv[n / 2] == pv[n / 2]); } else { pf[n / 2] = sym_float("v"); dsym_assume(pf[n / 2] == pf[n / 2]); } } else pf[n / 2] = pv[n / 2] = 0.1;
  p = zstructPdNew(P); p->numberCurves = nc; p->numberOrdinates = no; p->startingCurve = c1; p->endingCurve = c2; p->startingOrdinate = o1; p->endingOrdinate = o2; if (zero && o1 == 1 && o2 == no) p->startingOrdinate = p->endingOrdinate = 0; if (zero && c1 == 1 && c2 == nc) p->startingCurve = p->endingCurve = 0; if (pdbl) p->doubleValues = pv, p->doubleOrdinates = dd; else p->floatValues = pf, p->floatOrdinates = fo;
  dsym_assert(zpdStore(L, p, 0) == 0, "store of a part succeeds"); zstructFree(p); for (int j = c1; j <= c2; j++) for (int i = o1; i <= o2; i++) { int s = (j - c1) * (o2 - o1 + 1) + i - o1; M.v[(j - 1) * no + i - 1] = cv(pdbl ? pv[s] : pf[s], sdbl); }
  expect(0, 0, 0, 0, 0); expect(2 - (sdbl ? 0 : (c1 + o2) & 1), c1, c2, o1, o2); expect(0, 1, nc, 1, no); dsym_cover("end");
}
void h_part(void) { part(0, 3, 3); }
void h_part_even(void) { part(1, 4, 2); }
// reading any part
void h_read(void) {
  openF(); int no = pick(4, 5, "ordinates"), nc = 3, sdbl = pick(0, 1, "double"), lab = pick(0, 1, "labels"); char lb[80]; zStructPairedData* p = build(sdbl, no, nc, 3); if (lab) { p->labels = lb; p->labelsLength = M.nl = labels(lb, nc, 1); memcpy(M.lab, lb, M.nl); } double x = sym_double("v"); float y = sym_float("f"); dsym_assume(x == x && y == y); setv(4, x, y); dsym_assert(zpdStore(L, p, 0) == 0, "store succeeds"); zstructFree(p); keep(sdbl);
  int c1 = pick(0, nc, "first curve"), c2 = pick(c1 ? c1 : 0, nc, "last curve"), o1 = pick(0, no, "first ordinate"), o2 = pick(o1, no, "last ordinate"); if (c1 > 0 && !c2) dsym_stop(); expect(sdbl ? (c1 + o1) % 2 * 2 : (c1 + o1 + c2) % 3, c1, c2, o1, o2); dsym_cover("end");
}
// labels stored with a part replace only the labels of its curves
void h_labels(void) {
  openF(); int nc = 4, no = 2, res = pick(0, 3, "room"), c1 = pick(1, nc, "first"), c2 = pick(c1, nc, "last"), s = pick(0, 5, "text"); char lb[80]; memset(lb, 0, sizeof lb); zStructPairedData* p = build(0, no, nc, 3); int n = res == 3 ? 0 : res == 2 ? (strcpy(lb, "A"), strcpy(lb + 2, "B"), strcpy(lb + 4, "C"), strcpy(lb + 6, "D"), 8) : labels(lb, nc, 1); M.nl = n; memcpy(M.lab, lb, 80); p->labels = lb; p->labelsLength = n + (res == 1 ? 30 : 0); if (res == 3) { p->labels = 0; p->labelsLength = 0; } dsym_assert(zpdStore(L, p, 0) == 0, "store succeeds"); zstructFree(p); keep(0);
  char nb[80]; int m = 0; for (int i = c1; i <= c2; i++) { const char* t = LAB[(i + s) % 6]; strcpy(nb + m, t); m += strlen(t) + 1; } float pf[8]; for (int i = 0; i < 8; i++) pf[i] = -i; pf[0] = sym_float("v"); dsym_assume(pf[0] == pf[0]); p = zstructPdNew(P); p->numberCurves = nc; p->numberOrdinates = no; p->startingCurve = c1; p->endingCurve = c2; if (c1 == 1 && c2 == nc) { p->startingOrdinate = 1; p->endingOrdinate = 1; } p->floatValues = pf; p->floatOrdinates = fo; p->labels = nb; p->labelsLength = m;
  dsym_assert(zpdStore(L, p, 0) == 0, "store of a part succeeds"); zstructFree(p); int rows = c1 == 1 && c2 == nc ? 1 : no; for (int j = c1; j <= c2; j++) for (int i = 0; i < rows; i++) M.v[(j - 1) * no + i] = pf[(j - c1) * rows + i];
  if (res == 3) { memset(M.lab, 0, sizeof M.lab); } char old[80]; memcpy(old, M.lab, 80); int at = 0, k = 0, a2 = 0; for (int i = 1; i <= nc; i++) { const char* t = i >= c1 && i <= c2 ? LAB[(i + s) % 6] : old + at; at += strlen(old + at) + 1; strcpy(M.lab + k, t); k += strlen(t) + 1; } M.nl = k; (void)a2;
  expect(0, 0, 0, 0, 0); expect(2, c1, c2, 0, 0); dsym_cover("end");
}
// space reserved first, then curves one at a time in any order
void h_reserve(void) {
  openF(); int dbl = pick(0, 1, "double"), flag = pick(10, 12, "reserve"), no = pick(2, 3, "ordinates"), nc = 3, ord = pick(0, 5, "order"), lab = pick(0, 1, "labels"); static const int O[6][3] = {{1,2,3},{1,3,2},{2,1,3},{2,3,1},{3,1,2},{3,2,1}}; char lb[80] = {0}; zStructPairedData* p = build(dbl, no, nc, 3); int sdbl = flag == 10 ? dbl : flag == 12; for (int i = 0; i < no * nc; i++) fv[i] = dv[i] = 0; if (dbl) p->doubleValues = 0; else p->floatValues = 0; if (lab) { p->labels = lb; p->labelsLength = 60; }
  dsym_assert(zpdStore(L, p, flag) == 0, "reserve succeeds"); zstructFree(p); keep(sdbl); M.nl = lab ? 3 : 0; memset(M.lab, 0, 80); expect(0, 0, 0, 0, 0);
  for (int w = 0; w < 3; w++) { int c = O[ord][w]; float pf[4]; double pv[4]; for (int i = 0; i < no; i++) pf[i] = pv[i] = 100 * c + i; if (dbl == sdbl && w == 0) { if (dbl) { pv[1] = sym_double("v"); dsym_assume(pv[1] == pv[1]); } else { pf[1] = sym_float("v"); dsym_assume(pf[1] == pf[1]); } }
    p = zstructPdNew(P); p->startingCurve = p->endingCurve = c; if (dbl) { p->doubleValues = pv; } else { p->floatValues = pf; } p->numberCurves = 1; p->numberOrdinates = no; if (lab) { p->labels = (char*)LAB[c * 2 - 1]; p->labelsLength = strlen(LAB[c * 2 - 1]) + 1; } dsym_assert(zpdStore(L, p, 0) == 0, "store of a curve succeeds"); zstructFree(p); for (int i = 0; i < no; i++) M.v[(c - 1) * no + i] = cv(dbl ? pv[i] : pf[i], sdbl);
    if (lab) { char old[80]; memcpy(old, M.lab, 80); int at = 0, k = 0; for (int i = 1; i <= nc; i++) { const char* t = i == c ? LAB[c * 2 - 1] : old + at; at += strlen(old + at) + 1; strcpy(M.lab + k, t); k += strlen(t) + 1; } M.nl = k; } expect(0, 0, 0, 0, 0); }
  dsym_cover("end");
}
// the C interface
void h_api(void) {
  openF(); int no = pick(1, 4, "ordinates"), nc = pick(1, 3, "curves"), lab = pick(0, 2, "labels"); char lb[80]; int nl = lab ? labels(lb, nc, lab) : 0; double o[8], v[64], ro[8], rv[64]; for (int i = 0; i < no; i++) o[i] = i * 1.5; for (int i = 0; i < no * nc; i++) v[i] = i + .25; v[no * nc - 1] = sym_double("v"); o[no / 2] = sym_double("o"); dsym_assume(v[no * nc - 1] == v[no * nc - 1] && o[no / 2] == o[no / 2]); char a[20], b[20], c[20], d[20], tz[20], rl[90]; int rno = -1, rnc = -1, rll = 0;
  dsym_assert(hec_dss_pdStore(F, P, o, no, v, no * nc, no, nc, "Feet", "Linear", "cfs", "Unt", nl ? lb : 0, nl, lab == 1 ? "PST" : "") == 0, "store succeeds");
  dsym_assert(hec_dss_pdRetrieveInfo(F, P, &rno, &rnc, a, 20, b, 20, c, 20, d, 20, &rll) == 0, "information retrieved"); dsym_assert(rno == no && rnc == nc && rll == nl, "sizes"); dsym_assert(!strcmp(a, "Feet") && !strcmp(b, "cfs") && !strcmp(c, "Linear") && !strcmp(d, "Unt"), "units and types"); memset(a, 0, 80 > sizeof a ? sizeof a : 80); memset(tz, 0, 20);
  dsym_assert(hec_dss_pdRetrieve(F, P, ro, no, rv, no * nc, &rno, &rnc, a, 20, b, 20, c, 20, d, 20, rl, nl, tz, 20) == 0, "retrieve succeeds"); dsym_assert(rno == no && rnc == nc, "numbers"); dsym_assert(!strcmp(a, "Feet") && !strcmp(b, "Linear") && !strcmp(c, "cfs") && !strcmp(d, "Unt"), "units and types"); dsym_assert(!memcmp(rl, lb, nl), "labels"); dsym_assert(dsym_memeq(ro, o, no * 8) && dsym_memeq(rv, v, no * nc * 8), "ordinates and values"); dsym_assert(!strcmp(tz, lab == 1 ? "PST" : ""), "time zone"); dsym_cover("end");
}
