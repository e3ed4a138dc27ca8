// C14: storage flags of regular series combine old and new values as documented
#include "ts.h"
enum { KN = 80, QN = 2 };
static double V[KN]; static int Q[KN * QN], HQ, HV[KN]; static int K0, QE;   // model: step K0+i has valid value V[i] when HV[i]
static const char* HDR = "header text";
static int put(int iv, int k0, int n, const double* v, const int* q, int dbl, int flag) {
  char d[20], c[20]; d_str(t_at(iv, k0, 0), d, c); zStructTimeSeries* t; float f[KN];
  if (dbl) t = zstructTsNewRegDoubles(mkpath(IV[iv].ep), (double*)v, n, d, c, "CFS", "INST-VAL"); else { for (int i = 0; i < n; i++) f[i] = v[i] == DMISS ? FMISS : (float)v[i]; t = zstructTsNewRegFloats(mkpath(IV[iv].ep), f, n, d, c, "CFS", "INST-VAL"); }
  if (IV[iv].sec && IV[iv].sec < 60) t->timeGranularitySeconds = 1;
  if (q) { t->quality = (int*)q; t->qualityElementSize = QE; } int st = ztsStore(IFL, t, flag); zstructFree(t); return st;
}
// the documented combination
static void model(int k0, int n, const double* v, const char* miss, const int* q, int flag) {
  for (int i = 0; i < n; i++) { int x = k0 - K0 + i; int use = flag == 1 ? !HV[x] : flag == 4 ? !miss[i] : 1; if (!use) continue; HV[x] = !miss[i]; V[x] = v[i]; if (q) for (int j = 0; j < QE; j++) Q[QE * x + j] = q[QE * i + j]; }
}
static void check(int iv, int a, int b, int dbl) {
  char d[20], c[20], e[20], g[20]; d_str(t_at(iv, a, 0), d, c); d_str(t_at(iv, b, 0), e, g);
  zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); if (IV[iv].sec && IV[iv].sec < 60) t->timeGranularitySeconds = 1;
  int st = ztsRetrieve(IFL, t, 0, dbl ? 2 : 1, QE > 0), any = 0, ok = 1, okm = 1, okq = 1; for (int k = a; k <= b; k++) any |= HV[k - K0];
  if (!any && zisError(st) == 0 && t->numberValues == 0) { zstructFree(t); return; }
  if (!any && st != STATUS_OKAY) { dsym_assert(st == STATUS_RECORD_NOT_FOUND || st < 0, "an empty window is reported"); zstructFree(t); return; }
  dsym_assert(st == 0, "retrieve succeeds"); dsym_assert(t->numberValues == b - a + 1, "number of values");
  for (int k = a; k <= b; k++) { int x = k - K0, s = HV[x] ? dbl ? same8(t->doubleValues[k - a], V[x]) : same4(t->floatValues[k - a], (float)V[x]) : dbl ? zisMissingDouble(t->doubleValues[k - a]) : zisMissingFloat(t->floatValues[k - a]);
    if (HV[x]) ok &= s; else okm &= s; if (HQ && t->quality) for (int j = 0; j < QE; j++) if (HV[x]) okq &= dsym_memeq(&t->quality[QE * (k - a) + j], &Q[QE * x + j], 4); if (HQ && !t->quality) okq = 0; }
  dsym_assert(ok, "values are combined as the flag states"); dsym_assert(okm, "steps without a valid value are missing"); dsym_assert(okq, "quality follows its value"); zstructFree(t);
}
static void newv(double* v, char* miss, int n, int mask, int base, int x, int dbl) {
  for (int i = 0; i < n; i++) { miss[i] = mask >> i & 1; v[i] = miss[i] ? DMISS : base + i * 0.25; }
  if (x >= 0 && x < n && !miss[x]) { if (dbl) v[x] = sym_double("v"); else v[x] = sym_float("v"); dsym_assume(!(v[x] != v[x])); dsym_assume(v[x] != DMISS && v[x] != -901 && v[x] != -902); }
}
static const int MASKS[] = {0, 0x15, 0x2, 0x3f, 0x21, 0xc};
// two stores around a block end
static void merge(int iv) {
  K0 = -8; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 4, "flag"), ow = pick(0, THOROUGH ? 5 : 3, "old window"), om = pick(0, THOROUGH ? 5 : 2, "old missing"), dbl = (flag + ow + om) & 1; if (THOROUGH) dbl = pick(0, 1, "dbl");
  static const int OW[][2] = {{-3, 6}, {-3, 2}, {1, 3}, {-1, 3}, {-4, 4}, {-1, 1}}; static const int NW[][2] = {{-3, 6}, {-2, 3}, {0, 3}, {-5, 9}, {-3, 3}, {-1, 1}, {1, 1}, {-1, 4}, {2, 3}, {-6, 3}};
  double v[KN], w[KN]; char m[KN], mw[KN]; newv(v, m, OW[ow][1], MASKS[om], 10, om + ow, dbl); newv(w, mw, 12, 0, 50, 1, dbl); double sv = w[1];
  dsym_assert(put(iv, OW[ow][0], OW[ow][1], v, 0, dbl, 0) == 0, "store succeeds"); unsigned char* sn; zclose(IFL); int ino = rt_find("/w/a.dss"); long sz = rt_snapshot(ino, &sn);
  double* SV = malloc(sizeof V); int* SH = malloc(sizeof HV); model(OW[ow][0], OW[ow][1], v, m, 0, 0); memcpy(SV, V, sizeof V); memcpy(SH, HV, sizeof HV);
  int lo = pick(0, 1, "half"); for (int nw = lo; nw < 10; nw += 2) for (int nm = 0; nm < 4; nm++) {
    rt_restore(ino, sn, sz); memcpy(V, SV, sizeof V); memcpy(HV, SH, sizeof HV); dsym_assert(openf(IFL, "a.dss") == 0, "open");
    int n = NW[nw][1], k0 = NW[nw][0]; for (int i = 0; i < n; i++) { mw[i] = MASKS[nm] >> i & 1; w[i] = mw[i] ? DMISS : i == 1 ? sv : 50 + i; }
    dsym_assert(put(iv, k0, n, w, 0, dbl, flag) == 0, "store succeeds"); model(k0, n, w, mw, 0, flag); check(iv, -6, 5, dbl); zclose(IFL);
  }
  dsym_cover("end");
}
void h_merge_year(void) { merge(I_1Y); }
void h_merge_month(void) { merge(I_1MON); }
void h_merge_day(void) { merge(I_1D); }
void h_merge_hour(void) { merge(I_1H); }
void h_merge_tri(void) { merge(I_TRI); }
// series of symbolic values: whichever values are valid or missing
void h_any(void) {
  K0 = -8; int iv = I_1MON; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 4, "flag"), k0 = pick(-2, 0, "k0"), dbl = pick(0, 1, "dbl"); double v[4], w[4]; char m[4], mw[4];
  for (int i = 0; i < 3; i++) { int b = pick(0, 1, "old missing"); m[i] = b; if (b) v[i] = DMISS; else { v[i] = dbl ? sym_double("v") : sym_float("v"); dsym_assume(!(v[i] != v[i])); dsym_assume(v[i] != DMISS && v[i] != -901 && v[i] != -902); } }
  for (int i = 0; i < 3; i++) { int b = pick(0, 1, "new missing"); mw[i] = b; if (b) w[i] = DMISS; else { w[i] = dbl ? sym_double("w") : sym_float("w"); dsym_assume(!(w[i] != w[i])); dsym_assume(w[i] != DMISS && w[i] != -901 && w[i] != -902); } }
  dsym_assert(put(iv, k0, 3, v, 0, dbl, 0) == 0, "store succeeds"); model(k0, 3, v, m, 0, 0); dsym_assert(put(iv, k0, 3, w, 0, dbl, flag) == 0, "store succeeds"); model(k0, 3, w, mw, 0, flag); check(iv, -4, 4, dbl); dsym_cover("end");
}
// repeated values stored compressed, with a second store in the middle
void h_repeat(void) {
  K0 = -40; int iv = pick(0, 1, "interval") ? I_1MON : I_1D; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int dbl = pick(0, 1, "dbl"), n = pick(0, 2, "n"), at = pick(0, 2, "at"), pat = pick(0, 3, "pattern"); n = n == 0 ? 13 : n == 1 ? 20 : 33; double v[KN], w[KN]; char m[KN], mw[KN]; double r = dbl ? sym_double("r") : sym_float("r"); dsym_assume(!(r != r)); dsym_assume(r != DMISS && r != -901 && r != -902); dsym_assume(r < 0 || r > 200);
  for (int i = 0; i < n; i++) { m[i] = 0; v[i] = pat == 0 ? r : pat == 1 ? (i % 9 == 4 ? 7 : r) : pat == 2 ? (i < n / 2 ? r : 60 + i) : (i == 3 || i == 4 || i == n - 2 ? DMISS : r); if (v[i] == DMISS) m[i] = 1; }
  int k0 = at == 0 ? 1 : at == 1 ? -n / 2 : -n - 1; dsym_assert(put(iv, k0, n, v, 0, dbl, 0) == 0, "store succeeds"); model(k0, n, v, m, 0, 0); check(iv, k0 - 2, k0 + n + 1, dbl);
  unsigned char* sn; zclose(IFL); int ino = rt_find("/w/a.dss"); long sz = rt_snapshot(ino, &sn); double* SV = malloc(sizeof V); int* SH = malloc(sizeof HV); memcpy(SV, V, sizeof V); memcpy(SH, HV, sizeof HV);
  for (int flag = 0; flag < 5; flag++) for (int nm = 0; nm < 3; nm++) { rt_restore(ino, sn, sz); memcpy(V, SV, sizeof V); memcpy(HV, SH, sizeof HV); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int wn = 5; for (int i = 0; i < wn; i++) { mw[i] = MASKS[nm] >> i & 1; w[i] = mw[i] ? DMISS : (nm == 1 && i == 3) ? r : 9 + i; }
    dsym_assert(put(iv, k0 + 2, wn, w, 0, dbl, flag) == 0, "store succeeds"); model(k0 + 2, wn, w, mw, 0, flag); check(iv, k0 - 2, k0 + n + 1, dbl); check(iv, k0 + 3, k0 + n - 2, dbl); zclose(IFL); }
  dsym_cover("end");
}
// three blocks (monthly data in decade blocks), the middle one possibly all missing
void h_blocks(void) {
  K0 = -8; KB = 0; int iv = I_1Y; (void)iv; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 4, "flag"), mid = pick(0, 2, "middle"), dbl = pick(0, 1, "dbl"), om = pick(0, 1, "old");
  iv = I_TRI; // 360 steps per decade: too many; use weekly days instead
  iv = I_6H; // month blocks of 124 steps
  static double v[KN + 100], w[KN + 100]; static double MV[150]; static char MH[150], nm[150]; int n = 130; // from 3 steps before a month to 3 after its end (January 2000)
  for (int i = 0; i < n; i++) { int o = om && i > 3 && i < n - 4; v[i] = o ? DMISS : 1 + i; MH[i] = !o; MV[i] = v[i]; nm[i] = mid == 0 ? i >= 3 && i < 127 : mid == 1 ? i % 5 == 0 : i < 3 || i >= 127; w[i] = nm[i] ? DMISS : 500 + i; }
  double s = dbl ? sym_double("v") : sym_float("v"); dsym_assume(!(s != s)); dsym_assume(s != DMISS && s != -901 && s != -902); v[1] = MV[1] = s;
  char d[20], c[20], e[20], g[20]; d_str(t_at(iv, -2, 0), d, c); d_str(t_at(iv, 127, 0), e, g);
  for (int k = 0; k < 2; k++) { static float f[150]; zStructTimeSeries* t; if (dbl) t = zstructTsNewRegDoubles(mkpath(IV[iv].ep), k ? w : v, n, d, c, "CFS", "INST-VAL"); else { for (int i = 0; i < n; i++) { double x = k ? w[i] : v[i]; f[i] = (k ? nm[i] : !MH[i]) ? FMISS : (float)x; } t = zstructTsNewRegFloats(mkpath(IV[iv].ep), f, n, d, c, "CFS", "INST-VAL"); } int st = ztsStore(IFL, t, k ? flag : 0); zstructFree(t); dsym_assert(st == 0, "store succeeds"); }
  for (int i = 0; i < n; i++) { int use = flag == 1 ? !MH[i] : flag == 4 ? !nm[i] : 1; if (use) { MH[i] = !nm[i]; MV[i] = w[i]; } }
  zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); int st = ztsRetrieve(IFL, t, 0, dbl ? 2 : 1, 0), ok = 1, okm = 1; dsym_assert(st == 0 && t->numberValues == n, "number of values");
  for (int i = 0; i < n; i++) { int s2 = MH[i] ? dbl ? same8(t->doubleValues[i], MV[i]) : same4(t->floatValues[i], (float)MV[i]) : dbl ? zisMissingDouble(t->doubleValues[i]) : zisMissingFloat(t->floatValues[i]); if (MH[i]) ok &= s2; else okm &= s2; }
  dsym_assert(ok, "values are combined as the flag states"); dsym_assert(okm, "steps without a valid value are missing"); zstructFree(t); dsym_cover("end");
}
// a block left without valid values: kept with flag 2, gone with flag 3
void h_empty(void) {
  K0 = -8; int iv = I_1MON; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 4, "flag"), old = pick(0, 1, "old"), n = pick(1, 3, "n"), dbl = pick(0, 1, "dbl"); double v[4], w[4]; char m[4], mw[4]; newv(v, m, n, 0, 3, 0, dbl); newv(w, mw, n, 7, 0, -1, dbl);
  if (old) { dsym_assert(put(iv, 1, n, v, 0, dbl, 0) == 0, "store succeeds"); model(1, n, v, m, 0, 0); } dsym_assert(put(iv, 1, n, w, 0, dbl, flag) == 0, "store succeeds"); model(1, n, w, mw, 0, flag);
  int any = 0; for (int k = 1; k <= n; k++) any |= HV[k - K0]; int st = zcheck(IFL, "/BASIN/LOC/FLOW/01JAN2000/1MONTH/VER/");
  if (any || flag == 2) dsym_assert(st == STATUS_RECORD_FOUND, "block kept"); if (!any && flag == 3) dsym_assert(st == STATUS_RECORD_NOT_FOUND, "an all-missing block is removed"); if (any) check(iv, 0, 4, dbl); dsym_cover("end");
}
// values with quality
void h_quality(void) {
  K0 = -8; int iv = pick(0, 1, "interval") ? I_1MON : I_1D; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 4, "flag"), om = pick(0, 2, "old missing"), k0 = pick(0, 2, "k0") * 2 - 3; QE = pick(1, 2, "quality size"); HQ = 1; int dbl = (flag + om + k0) & 1; double v[8], w[8]; char m[8], mw[8]; int q[16], r[16];
  newv(v, m, 5, MASKS[om], 3, 3, dbl); newv(w, mw, 4, 0, 30, 1, dbl); double sv = w[1]; for (int i = 0; i < 16; i++) q[i] = 100 + i, r[i] = 200 + i; if (QE == 1) { q[2] = sym_int("q"); dsym_assume(q[2] > 1000); } else { r[3] = sym_int("r"); dsym_assume(r[3] > 1000); }
  dsym_assert(put(iv, -2, 5, v, q, dbl, 0) == 0, "store succeeds"); unsigned char* sn; zclose(IFL); int ino = rt_find("/w/a.dss"); long sz = rt_snapshot(ino, &sn);
  for (int nm = 0; nm < 3; nm++) { rt_restore(ino, sn, sz); memset(HV, 0, sizeof HV); model(-2, 5, v, m, q, 0); dsym_assert(openf(IFL, "a.dss") == 0, "open"); for (int i = 0; i < 4; i++) { mw[i] = MASKS[nm] >> i & 1; w[i] = mw[i] ? DMISS : i == 1 ? sv : 50 + i; }
    dsym_assert(put(iv, k0, 4, w, r, dbl, flag) == 0, "store succeeds"); model(k0, 4, w, mw, r, flag); check(iv, -5, 5, dbl); zclose(IFL); }
  dsym_cover("end");
}
// floats and doubles stored into the same series
void h_mixed(void) {
  K0 = -8; int iv = pick(0, 1, "interval") ? I_1MON : I_1H; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int od = pick(0, 1, "old doubles"), flag = pick(0, 4, "flag"), k0 = pick(-3, 1, "k0"); double v[8], w[8]; char m[8], mw[8]; newv(v, m, 5, 2, 3, 2, od); newv(w, mw, 3, 4, 30, 1, !od); v[3] = od ? 0.1 : 0.5;
  dsym_assert(put(iv, -2, 5, v, 0, od, 0) == 0, "store succeeds"); model(-2, 5, v, m, 0, 0); dsym_assert(put(iv, k0, 3, w, 0, !od, flag) == 0, "store succeeds"); model(k0, 3, w, mw, 0, flag);
  if (od) check(iv, -5, 5, 1); else { for (int i = 0; i < KN; i++) if (HV[i] && i != 1 + k0 - K0) V[i] = (float)V[i]; HV[1 + k0 - K0] ? (void)0 : (void)0; }
  if (!od) { char d[20], c[20], e[20], g[20]; d_str(t_at(iv, -5, 0), d, c); d_str(t_at(iv, 5, 0), e, g); zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); int st = ztsRetrieve(IFL, t, 0, 2, 0); dsym_assert(st == 0 && t->numberValues == 11, "number of values"); int ok = 1; for (int k = -5; k <= 5; k++) { int x = k - K0; if (!HV[x]) ok &= zisMissingDouble(t->doubleValues[k + 5]); else if (k >= -2 && k <= 2 && (k < k0 || k > k0 + 2)) ok &= same8(t->doubleValues[k + 5], V[x]); } dsym_assert(ok, "values outside the stored window are unchanged"); zstructFree(t); }
  dsym_cover("end");
}
// a store that covers parts of the first and the last of three blocks (10 minute data in daily blocks) keeps what it does not cover
void h_partial(void) {
  K0 = -8; KB = 0; int iv = I_REST + 8; enum { NS = 432, NN = NS + 20 }; static double v[NN], w[NN], MV[NN]; static char MH[NN], nm[NN], mv[NN];   // steps 1..144 are 1 January, 145..288 the 2nd, 289..432 the 3rd
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 4, "flag"), fs = pick(0, 3, "start"), fe = pick(0, 3, "end"), dbl = (flag + fs + fe) & 1; if (THOROUGH) dbl = pick(0, 1, "dbl"); static const int S[] = {0, 1, 3, 143}, E[] = {432, 431, 290, 288}; int a = S[fs] + 1, b = E[fe];
  for (int k = 1; k <= NS; k++) { v[k] = k; mv[k] = 0; w[k] = 1000 + k; nm[k] = 0; MH[k] = 1; MV[k] = k; } double s = dbl ? sym_double("v") : sym_float("v"); dsym_assume(!(s != s)); dsym_assume(s != DMISS && s != -901 && s != -902); v[1] = MV[1] = s; double s2 = dbl ? sym_double("w") : sym_float("w"); dsym_assume(!(s2 != s2)); dsym_assume(s2 != DMISS && s2 != -901 && s2 != -902); v[NS] = MV[NS] = s2; v[150] = DMISS; MH[150] = 0; w[151] = DMISS; nm[151] = 1;
  char d[20], c[20], e[20], g[20]; static float f[NN];
  for (int k = 0; k < 2; k++) { int lo = k ? a : 1, hi = k ? b : NS; double* x = k ? w : v; d_str(t_at(iv, lo, 0), d, c); zStructTimeSeries* t; if (dbl) t = zstructTsNewRegDoubles(mkpath(IV[iv].ep), x + lo, hi - lo + 1, d, c, "CFS", "INST-VAL"); else { for (int i = lo; i <= hi; i++) f[i] = x[i] == DMISS ? FMISS : (float)x[i]; t = zstructTsNewRegFloats(mkpath(IV[iv].ep), f + lo, hi - lo + 1, d, c, "CFS", "INST-VAL"); } int st = ztsStore(IFL, t, k ? flag : 0); zstructFree(t); dsym_assert(st == 0, "store succeeds"); }
  for (int k = a; k <= b; k++) { int use = flag == 1 ? !MH[k] : flag == 4 ? !nm[k] : 1; if (use) { MH[k] = !nm[k]; MV[k] = w[k]; } }
  d_str(t_at(iv, 1, 0), d, c); d_str(t_at(iv, NS, 0), e, g); zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); int st = ztsRetrieve(IFL, t, 0, dbl ? 2 : 1, 0), ok = 1, okm = 1; dsym_assert(st == 0 && t->numberValues == NS, "number of values");
  for (int k = 1; k <= NS; k++) { int i = k - 1, z = MH[k] ? dbl ? same8(t->doubleValues[i], MV[k]) : same4(t->floatValues[i], (float)MV[k]) : dbl ? zisMissingDouble(t->doubleValues[i]) : zisMissingFloat(t->floatValues[i]); if (MH[k]) ok &= z; else okm &= z; }
  dsym_assert(ok, "values are combined as the flag states"); dsym_assert(okm, "steps without a valid value are missing"); zstructFree(t); dsym_cover("end");
}
