// C17: values keep their precision and missing values stay missing
#include "ts.h"
void convertDataArray(int*, int*, int, int, int); void doublesToFloats(); void floatsToDoubles(); int zisMissing(void*, int); void zsetMissing(int*, int);
static int code8(double d) { return (d == DMISS) | (d == -901.) | (d == -902.); } static int code4(float f) { return (f == FMISS) | (f == -901.f) | (f == -902.f); }
// the conversion helpers, for every number
void h_convert(void) {
  int n = pick(1, 3, "n"), in = pick(0, 1, "in place"); double d[4], rd[4]; float f[4], rf[4];
  for (int i = 0; i < n; i++) { d[i] = sym_double("d"); f[i] = sym_float("f"); dsym_assume(d[i] == d[i] && f[i] == f[i]); }
  float wf[4]; double wd[4]; for (int i = 0; i < n; i++) wf[i] = (float)d[i], wd[i] = (double)f[i];
  if (in) { memcpy(rd, d, sizeof d); convertDataArray((int*)rd, (int*)rd, n, 2, 1); memcpy(rf, rd, n * 4); memset(rd, 0, sizeof rd); memcpy(rd, f, n * 4); convertDataArray((int*)rd, (int*)rd, n, 1, 2); } else { convertDataArray((int*)d, (int*)rf, n, 2, 1); convertDataArray((int*)f, (int*)rd, n, 1, 2); }
  for (int i = 0; i < n; i++) { dsym_assert(same4(rf[i], wf[i]), "double to float is the nearest float"); dsym_assert(same8(rd[i], wd[i]), "float to double is exact"); }
  convertDataArray((int*)d, (int*)rd, n, 2, 2); convertDataArray((int*)f, (int*)rf, n, 1, 1); dsym_assert(dsym_memeq(rd, d, n * 8) && dsym_memeq(rf, f, n * 4), "unconverted copies are identical"); dsym_cover("end");
}
// missing values are recognised, and only they
void h_missing(void) {
  double d = sym_double("d"); float f = sym_float("f"); dsym_assert(zisMissingDouble(d) == code8(d), "missing doubles are exactly the missing codes"); dsym_assert(zisMissingFloat(f) == code4(f), "missing floats are exactly the missing codes"); dsym_assert(zisMissing(&d, 2) == code8(d) && zisMissing(&f, 1) == code4(f), "missing by length");
  float cf = 0; double cd = 0; int w = pick(0, 5, "code"); static const double C[] = {-3.4028234663852886e+38, -901, -902}; if (w < 3) { double s = C[w]; convertDataArray((int*)&s, (int*)&cf, 1, 2, 1); dsym_assert(zisMissingFloat(cf), "a missing double is a missing float"); } else { float s = (float)C[w - 3]; convertDataArray((int*)&s, (int*)&cd, 1, 1, 2); dsym_assert(zisMissingDouble(cd), "a missing float is a missing double"); }
  dsym_assume(f == f); convertDataArray((int*)&f, (int*)&cd, 1, 1, 2); if (!zisMissingFloat(f)) dsym_assert(!zisMissingDouble(cd), "a valid float is a valid double"); int b[2]; zsetMissing(b, 1); memcpy(&cf, b, 4); zsetMissing(b, 2); memcpy(&cd, b, 8); dsym_assert(zisMissingFloat(cf) && zisMissingDouble(cd), "missing set by length"); dsym_assert(zisMissingFloat(zmissingFlag()) && zisMissingDouble(zmissingFlagDouble()), "the missing flags are missing"); dsym_cover("end");
}
// two stores of either precision; every value is looked up in every precision.  Element states: 0 absent, 1 valid, 2 missing code
static int ST[24], DB[24]; static double V8[24]; static float V4[24];
static const double CODE[] = {-901, -902, -3.4028234663852886e+38};
static void set(int x, int dbl, int st, double d, float f) { ST[x] = st; DB[x] = dbl; V8[x] = dbl ? d : (double)f; V4[x] = dbl ? (float)d : f; }
static void chk(zStructTimeSeries* t, int i, int x, int flag) {
  int dbl = t->doubleValues != 0; if (flag) dsym_assert(dbl == (flag == 2), "precision asked for"); dsym_assert(!t->doubleValues != !t->floatValues, "one array");
  int mis = dbl ? zisMissingDouble(t->doubleValues[i]) : zisMissingFloat(t->floatValues[i]);
  if (ST[x] != 1) { dsym_assert(mis, "a missing value stays missing"); return; }
  dsym_assert(dbl ? same8(t->doubleValues[i], V8[x]) : same4(t->floatValues[i], V4[x]), "a valid value is returned in the precision asked for"); if (dbl) dsym_assert(!mis, "a valid value stays valid"); else dsym_assert(mis == (DB[x] ? code4(V4[x]) : 0), "a valid value stays valid");
}
static void symv(int dbl, double* d, float* f, const char* n) { if (dbl) { *d = sym_double(n); dsym_assume((*d == *d) & !code8(*d)); *f = 0; } else { *f = sym_float(n); dsym_assume((*f == *f) & !code4(*f)); *d = 0; } }
static void reg(int iv, int gr, int flag1) {
  openf(IFL, "/w/a.dss"); int d1 = pick(0, 1, "first double"), d2 = pick(0, 2, "second double"), k1 = pick(-3, 1, "second start"), pat = pick(0, 3, "missing"), rf = pick(0, 2, "retrieve"); char d[20], c[20]; memset(ST, 0, sizeof ST);
  for (int w = 0; w < (d2 == 2 ? 1 : 2); w++) { int n = w ? 3 : 5, at = w ? k1 : -2, dbl = w ? d2 : d1; double v[8]; float f[8]; for (int i = 0; i < n; i++) { v[i] = .1 * (i + 1) + w, f[i] = .3f * (i + 1) + w; set(at + i + 8, dbl, 1, v[i], f[i]); } int s = pat == 1 && w; symv(dbl, &v[s], &f[s], w ? "w" : "v"); set(at + s + 8, dbl, 1, v[s], f[s]); if (pat) { int m = pat == 3 ? 0 : n - 1; if (m == s) m++; v[m] = CODE[(pat + w + d1) % 3]; f[m] = (float)v[m]; set(at + m + 8, dbl, 2, v[m], f[m]); }
    d_str(t_at(iv, at, 0), d, c); zStructTimeSeries* t = dbl ? zstructTsNewRegDoubles(mkpath(IV[iv].ep), v, n, d, c, "CFS", "INST-VAL") : zstructTsNewRegFloats(mkpath(IV[iv].ep), f, n, d, c, "CFS", "INST-VAL"); if (gr) t->timeGranularitySeconds = gr; dsym_assert(ztsStore(IFL, t, 0) == 0, "store succeeds"); zstructFree(t); }
  char e[20], g[20]; d_str(t_at(iv, -5, 0), d, c); d_str(t_at(iv, 5, 0), e, g); zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); if (gr) t->timeGranularitySeconds = gr; dsym_assert(ztsRetrieve(IFL, t, 0, rf, 0) == 0, "retrieve succeeds"); dsym_assert(t->numberValues == 11, "number of values"); for (int i = 0; i < 11; i++) chk(t, i, i + 3, rf); int alld = d1 == 1 && d2 == 1, allf = d1 == 0 && d2 != 1; if (!rf && (alld || allf || d2 == 2)) dsym_assert((t->doubleValues != 0) == d1, "returned as stored"); zstructFree(t);
  // trimmed: starts and ends at a valid value
  int lo = 0, hi = 23; while (lo < 24 && ST[lo] != 1) lo++; while (hi >= 0 && ST[hi] != 1) hi--; t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); if (gr) t->timeGranularitySeconds = gr; int st = ztsRetrieve(IFL, t, -1, 2, 0); dsym_assert(st == 0, "trimmed retrieve succeeds"); dsym_assert(t->numberValues == hi - lo + 1, "trimming removes only missing values"); for (int i = 0; i < t->numberValues; i++) chk(t, i, lo + i, 2); zstructFree(t); dsym_cover("end");
}
void h_reg_day(void) { reg(I_1D, 0, 0); }
void h_reg_hour(void) { reg(I_1H, 0, 0); }
void h_reg_month(void) { reg(I_1MON, 0, 0); }
// irregular
static void irr(int b) {
  static const char* EPS[] = {"IR-Day", "IR-Month", "IR-Year", "IR-Decade"}; openf(IFL, "/w/a.dss"); int d1 = pick(0, 1, "first double"), d2 = pick(0, 2, "second double"), m2 = pick(0, 4, "second times"), pat = pick(0, 2, "missing"), rf = pick(0, 2, "retrieve"), sf = pick(0, 1, "storage"); int y2 = b == 2 ? 2001 : b == 3 ? 2010 : 2000; long long B1 = (long long)jul(2000, 1, 1) * 86400, B2 = b == 0 ? B1 + 86400 : b == 1 ? (long long)jul(2000, 2, 1) * 86400 : (long long)jul(y2, 1, 1) * 86400; long long T[6] = {B1 - 3600, B1, B1 + 60, B1 + 7200, B2, B2 + 60}; static const int M2[] = {0x04, 0x0c, 0x11, 0x20, 0x3f}; int base = jul(1999, 12, 1); char bd[20], c[20]; d_str((long long)base * 86400 + 1, bd, c); memset(ST, 0, sizeof ST);
  for (int w = 0; w < (d2 == 2 ? 1 : 2); w++) { int m = w ? M2[m2] : 0x1d, dbl = w ? d2 : d1, n = 0, tm[6], ix[6]; double v[6]; float f[6]; if (w && sf) memset(ST, 0, 0); for (int i = 0; i < 6; i++) if (m >> i & 1) { tm[n] = (T[i] - (long long)base * 86400) / 60; ix[n] = i; v[n] = .1 * (i + 1) + w; f[n] = .3f * (i + 1) + w; n++; }
    symv(dbl, &v[0], &f[0], w ? "w" : "v"); if (pat && n > 1) { int k = n - 1; v[k] = CODE[(pat + w) % 3]; f[k] = (float)v[k]; if (pat == 2 && n > 2) { v[1] = CODE[w]; f[1] = (float)v[1]; } }
    if (w && sf) { long long lo = T[ix[0]], hi = T[ix[n - 1]]; for (int i = 0; i < 6; i++) if (T[i] >= lo && T[i] <= hi) ST[i] = 0; }
    for (int i = 0; i < n; i++) set(ix[i], dbl, i && (dbl ? code8(v[i]) : code4(f[i])) ? 2 : 1, v[i], f[i]);
    zStructTimeSeries* t = dbl ? zstructTsNewIrregDoubles(mkpath(EPS[b]), v, n, tm, 60, bd, "CFS", "INST-VAL") : zstructTsNewIrregFloats(mkpath(EPS[b]), f, n, tm, 60, bd, "CFS", "INST-VAL"); dsym_assert(ztsStore(IFL, t, w ? sf : 0) == 0, "store succeeds"); zstructFree(t); }
  char d[20], e[20], g[20]; d_str(T[0] - 60, d, c); d_str(T[5] + 60, e, g); zStructTimeSeries* t = zstructTsNewTimes(mkpath(EPS[b]), d, c, e, g); dsym_assert(ztsRetrieve(IFL, t, 0, rf, 0) == 0, "retrieve succeeds"); int n = 0; for (int i = 0; i < 6; i++) if (ST[i]) n++; dsym_assert(t->numberValues == n, "number of values"); n = 0; for (int i = 0; i < 6; i++) if (ST[i]) chk(t, n++, i, rf); zstructFree(t); dsym_cover("end");
}
void h_irr_day(void) { irr(0); }
void h_irr_month(void) { irr(1); }
void h_irr_year(void) { irr(2); }
