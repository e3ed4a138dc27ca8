// C13: regular time series read back exactly as stored
#include "ts.h"
enum { K0 = -8, KN = 24 };   // modelled steps K0 .. K0+KN-1
static double M[KN]; static int Q[KN * 2]; static char HAS[KN]; static char CN[KN][8];
static int QE, NE, CE;       // quality and note elements stored with the series
static void fin(zStructTimeSeries* t, long off, int iv) { if (off % 60 || IV[iv].sec && IV[iv].sec < 60) t->timeGranularitySeconds = 1; }
static int put(int iv, long off, int k0, int n, int dbl, int flag) {
  char d[20], c[20]; d_str(t_at(iv, k0, off), d, c); zStructTimeSeries* t; float f[KN]; double* v = M + (k0 - K0); char notes[KN * 8]; int nl = 0;
  if (dbl) t = zstructTsNewRegDoubles(mkpath(IV[iv].ep), v, n, d, c, "CFS", "INST-VAL"); else { for (int i = 0; i < n; i++) f[i] = (float)v[i]; t = zstructTsNewRegFloats(mkpath(IV[iv].ep), f, n, d, c, "CFS", "INST-VAL"); }
  fin(t, off, iv); if (QE) { t->quality = Q + QE * (k0 - K0); t->qualityElementSize = QE; }
  if (NE) { t->inotes = Q + NE * (k0 - K0); t->inoteElementSize = NE; }
  if (CE) { for (int i = 0; i < n; i++) { strcpy(notes + nl, CN[k0 - K0 + i]); nl += strlen(notes + nl) + 1; } t->cnotes = notes; t->cnotesLengthTotal = nl; }
  int st = ztsStore(IFL, t, flag); zstructFree(t); if (st == 0) for (int i = 0; i < n; i++) HAS[k0 - K0 + i] = 1; return st;
}
static void get(int iv, long off, int a, int b, int dbl, int flag) {
  char d[20], c[20], e[20], g[20]; d_str(t_at(iv, a, off), d, c); d_str(t_at(iv, b, off), e, g);
  zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); fin(t, off, iv); int st = ztsRetrieve(IFL, t, flag, dbl ? 2 : 1, QE || NE || CE);
  dsym_assert(st == 0, "retrieve succeeds"); dsym_assert(t->numberValues == b - a + 1, "number of values");
  dsym_assert(dbl ? t->doubleValues != 0 : t->floatValues != 0, "values returned");
  if (flag == 0) dsym_assert(t->times != 0, "times returned");
  if (QE) dsym_assert(t->quality && t->qualityElementSize == QE, "quality returned"); if (NE) dsym_assert(t->inotes && t->inoteElementSize == NE, "notes returned"); if (CE) dsym_assert(t->cnotes != 0, "text notes returned");
  int ok = 1, okm = 1, okt = 1, okq = 1, okn = 1; char* cn = t->cnotes;
  for (int k = a; k <= b; k++) { int i = k - K0, has = i >= 0 && i < KN && HAS[i];
    double want = has ? M[i] : DMISS; int s = dbl ? same8(t->doubleValues[k - a], want) : same4(t->floatValues[k - a], (float)want); if (has) ok &= s; else okm &= s;
    if (flag == 0) okt &= (long long)t->julianBaseDate * 86400 + (long long)t->times[k - a] * t->timeGranularitySeconds == t_at(iv, k, off);
    for (int j = 0; j < QE; j++) if (has) okq &= dsym_memeq(&t->quality[QE * (k - a) + j], &Q[QE * i + j], 4); else okq &= t->quality[QE * (k - a) + j] == 0;
    for (int j = 0; j < NE; j++) if (has) okq &= dsym_memeq(&t->inotes[NE * (k - a) + j], &Q[NE * i + j], 4); else okq &= t->inotes[NE * (k - a) + j] == 0;
    if (CE) { if (cn - t->cnotes >= t->cnotesLengthTotal) { okn = 0; break; } okn &= !strcmp(cn, has ? CN[i] : ""); cn += strlen(cn) + 1; } }
  dsym_assert(ok, "values as stored"); dsym_assert(okm, "steps never stored are missing"); dsym_assert(okt, "times of the steps"); dsym_assert(okq, "quality or notes as stored"); dsym_assert(okn, "text notes as stored");
  dsym_assert(!strcmp(t->units, "CFS") && !strcmp(t->type, "INST-VAL"), "units and type"); zstructFree(t);
}
static long off_of(int iv) { return iv == I_1S ? 0 : iv == I_1W ? 86400 * 3 : !IV[iv].sec ? 86400 : IV[iv].sec / 2; }
static void fill(int k0, int n, int x, int dbl) {
  for (int i = 0; i < n; i++) { M[k0 - K0 + i] = 1.5 + i; for (int j = 0; j < 2; j++) Q[2 * (k0 - K0 + i) + j] = 100 + 10 * j + i; sprintf(CN[k0 - K0 + i], i % 3 ? "n%d" : "", i); }
  double* v = M + (k0 - K0) + x; if (dbl) *v = sym_double("v"); else *v = sym_float("v"); dsym_assume(!(*v != *v)); dsym_assume(*v != DMISS && *v != -901 && *v != -902);
}
static void one(int iv, int maxn) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int dbl = pick(0, 1, "dbl"), k0 = pick(-3, 2, "k0"), n = pick(1, maxn, "n"), x = (k0 + n + dbl + 8) % n; if (THOROUGH) x = pick(0, n - 1, "x"); long off = pick(0, 1, "off"); off = off ? off_of(iv) : 0;
  fill(k0, n, x, dbl); dsym_assert(put(iv, off, k0, n, dbl, 0) == 0, "store succeeds");
  int before = pick(0, 1, "before"), after = 1 - before; if (THOROUGH) after = pick(0, 1, "after"); get(iv, off, before ? k0 - 3 : k0, k0 + n - 1 + (after ? 3 : 0), dbl, 0);
  int in = before; if (THOROUGH) in = pick(0, 1, "inner"); if (in && n > 1) get(iv, off, k0 + 1, k0 + n - 1, dbl, 0);
  dsym_cover("end");
}
void h_15min(void) { one(I_15M, 4); }
void h_1hour(void) { one(I_1H, 4); }
void h_6hour(void) { one(I_6H, 4); }
void h_1day(void) { one(I_1D, 4); }
void h_1week(void) { KB = 26; one(I_1W, 4); }
void h_week_decade(void) {
  int iv = I_1W; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int k0 = pick(-1, 2, "k0"); fill(k0, 2, 0, 1); dsym_assert(put(iv, 0, k0, 2, 1, 0) == 0, "store succeeds");
  char d[20], c[20], e[20], g[20]; d_str(t_at(iv, -3, 0), d, c); d_str(t_at(iv, 4, 0), e, g); zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); ztsRetrieve(IFL, t, 0, 2, 0);
  dsym_assert(t->numberValues == 8 && same8(t->doubleValues[k0 + 3], M[k0 - K0]), "weekly values at the start of a decade"); dsym_cover("end");
}
void h_trimonth(void) { one(I_TRI, 4); }
void h_semimonth(void) { one(I_SEMI, 4); }
void h_1month(void) { one(I_1MON, 4); }
void h_1year(void) { one(I_1Y, 4); }
void h_1sec(void) { one(I_1S, 3); }
void h_1min(void) { one(I_1M, 3); }
// every other standard interval, and block boundaries in other centuries
void h_intervals(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int iv = pick(I_REST, NIV - 1, "interval"), k0 = pick(-2, 0, "k0"), n = pick(2, 3, "n"), off = pick(0, 1, "off"); off = off ? off_of(iv) : 0;
  fill(k0, n, 0, 1); dsym_assert(put(iv, off, k0, n, 1, 0) == 0, "store succeeds"); get(iv, off, k0 - 2, k0 + n + 1, 1, 0); dsym_cover("end");
}
void h_years(void) {
  static const int Y[] = {1000, 1600, 1700, 1800, 1900, 2100, 2400, 3000, 4000}; static const int I[] = {I_15M, I_1D, I_1W, I_TRI, I_SEMI, I_1MON, I_1Y, I_1H};
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int y = pick(0, 8, "year"), ii = pick(0, 7, "interval"), k0 = pick(-2, THOROUGH ? 1 : 0, "k0"), n = 3, off = pick(0, 1, "off"); YB = Y[y]; int iv = I[ii]; if (iv == I_1W) KB = 26; off = off ? off_of(iv) : 0;
  fill(k0, n, 1, 1); dsym_assert(put(iv, off, k0, n, 1, 0) == 0, "store succeeds"); get(iv, off, k0 - 2, k0 + n + 1, 1, 0); dsym_cover("end");
}
// leap years, ends of months and blocks: every boundary of a few years
void h_months(void) {
  static const int I[] = {I_15M, I_6H, I_1D, I_1W, I_TRI, I_SEMI, I_1MON, I_1Y}; static const long step[] = {2976, 124, 31, 5, 3, 2, 1, 1};
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int ii = pick(0, 7, "interval"), m = pick(1, THOROUGH ? 49 : 26, "month"), k0 = THOROUGH ? pick(-2, 0, "k0") : -1; int iv = I[ii]; KB = m * step[ii] - (ii < 2 ? m : 0); int off = pick(0, 1, "off"); off = off ? off_of(iv) : 0;
  fill(k0, 3, 1, 0); dsym_assert(put(iv, off, k0, 3, 0, 0) == 0, "store succeeds"); get(iv, off, k0 - 2, k0 + 4, 0, 0); dsym_cover("end");
}
// quality and notes
static void extra(int iv) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int kind = pick(0, 5, "kind"), k0 = pick(-3, THOROUGH ? 1 : 0, "k0"), n = pick(1, 4, "n"), dbl = (k0 + n + kind) & 1; if (THOROUGH) dbl = pick(0, 1, "dbl"); QE = kind == 0 ? 1 : kind == 1 ? 2 : kind == 4 ? 1 : kind == 5 ? 2 : 0; NE = kind == 2 ? 1 : kind == 3 ? 2 : kind == 4 ? 1 : 0; CE = kind == 5; if (kind == 4) QE = 1;
  fill(k0, n, 0, dbl); int x = n - 1; if (THOROUGH) x = pick(0, n - 1, "xq"); if (QE + NE) Q[(QE > NE ? QE : NE) * (k0 - K0 + x)] = sym_int("q");
  dsym_assert(put(iv, 0, k0, n, dbl, 0) == 0, "store succeeds"); get(iv, 0, CE ? k0 : k0 - 2, CE ? k0 + n - 1 : k0 + n + 1, dbl, 0); if (n > 2) get(iv, 0, k0 + 1, k0 + 2, dbl, 0); dsym_cover("end");
}
void h_quality_day(void) { extra(I_1D); }
void h_quality_month(void) { extra(I_1MON); }
// only some of the blocks of a series were stored with quality or notes
void h_some_quality(void) {
  static const int I[] = {I_1D, I_1H, I_1MON}; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int iv = I[pick(0, 2, "interval")], kind, last, dbl, rev, sb, n0, n1, lo; kind = pick(0, 5, "kind"); last = pick(0, 1, "last block has them");  rev = pick(0, 1, "later block stored first"); sb = pick(0, 1, "same block"); n0 = pick(1, 2, "n0"); n1 = pick(1, 2, "n1"); lo = kind == 5 ? 0 : pick(0, 1, "longer retrieve"); dbl = (n0 + n1 + kind + lo) & 1; if (THOROUGH) dbl = pick(0, 1, "dbl");
  int qe = kind == 0 ? 1 : kind == 1 ? 2 : kind == 4, ne = kind == 2 ? 1 : kind == 3 ? 2 : kind == 4, b0 = sb ? 3 : 1, k0 = b0 - n0, e = qe > ne ? qe : ne, st;
  fill(k0, n0 + n1, 0, dbl); int* q = Q + e * ((last ? b0 : k0) - K0); if (kind < 5) *q = sym_int("q"); else for (int i = 0; i < n0 + n1; i++) sprintf(CN[k0 - K0 + i], "n%d", i); for (int i = 0; i < 2; i++) { int b = rev ? 1 - i : i, h = b == last; QE = h ? qe : 0; NE = h ? ne : 0; CE = h && kind == 5; st = put(iv, 0, b ? b0 : k0, b ? n1 : n0, dbl, 0); dsym_assert(st == 0, "store succeeds"); }
  for (int k = last ? k0 : b0; k < (last ? b0 : b0 + n1); k++) { CN[k - K0][0] = 0; for (int j = 0; j < e; j++) Q[e * (k - K0) + j] = 0; } QE = qe; NE = ne; CE = kind == 5; get(iv, 0, lo ? k0 - 2 : k0, b0 + n1 - 1 + 2 * lo, dbl, 0); dsym_cover("end");
}
// text notes of a window over four blocks, each absent, without notes or with notes
void h_some_notes(void) {
  int state[4], st, n = 0, x, iv = I_1MON; x = pick(0, 2, "first length"); for (int b = 0; b < 4; b++) { state[b] = pick(0, 2, "block"); n += state[b] == 2; } dsym_assume(n > 0); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); char d[20], c[20], e[20], g[20]; double v[2] = {1.5, 2.5}; char nt[4][64]; int ln[4];
  char ch = 0; dsym_sym(&ch, 1, "note character"); dsym_assume((ch > ' ') & (ch < 127));
  for (int b = 0; b < 4; b++) if (state[b]) { d_str(t_at(iv, 120 * b + 6, 0), d, c); zStructTimeSeries* t = zstructTsNewRegDoubles(mkpath(IV[iv].ep), v, 2, d, c, "CFS", "INST-VAL"); if (state[b] == 2) { ln[b] = sprintf(nt[b], "%.*s%d", b == 0 || n == 1 ? x * 15 : 5, "a long note to test the room for", b); nt[b][0] = ch; strcpy(nt[b] + ln[b] + 1, b & 1 ? "" : "z"); t->cnotes = nt[b]; t->cnotesLengthTotal = ln[b] + 2 + (b & 1 ? 0 : 1); } st = ztsStore(IFL, t, 0); dsym_assert(st == 0, "store succeeds"); zstructFree(t); }
  d_str(t_at(iv, 4, 0), d, c); d_str(t_at(iv, 370, 0), e, g); zStructTimeSeries* t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); st = ztsRetrieve(IFL, t, 0, 2, 1); dsym_assert(st == 0 && t->numberValues == 367 && t->cnotes, "retrieve succeeds"); char* cn = t->cnotes; int ok = 1, okv = 1;
  for (int k = 4; k <= 370; k++) { int b = (k - 1) / 120, i = k - 120 * b - 6; const char* w = ""; if (b >= 0 && b < 4 && (i == 0 || i == 1) && state[b] == 2) w = i ? nt[b] + ln[b] + 1 : nt[b]; okv &= same8(t->doubleValues[k - 4], b < 4 && state[b] && (i == 0 || i == 1) ? v[i] : DMISS); if (cn - t->cnotes >= t->cnotesLengthTotal) { ok = 0; break; } ok &= !strcmp(cn, w); cn += strlen(cn) + 1; } ok &= cn - t->cnotes == t->cnotesLengthTotal;
  dsym_assert(okv, "values as stored"); dsym_assert(ok, "text notes as stored"); zstructFree(t); zclose(IFL); dsym_cover("end");
}
// two separate stores leave the gap missing; three blocks
void h_gap(void) {
  static const int I[] = {I_1D, I_1H, I_1MON, I_1M}; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int ii = pick(0, 3, "interval"), k0 = pick(-4, 0, "k0"), n = pick(1, 3, "n"), gap = pick(0, THOROUGH ? 4 : 3, "gap"), m = pick(1, THOROUGH ? 3 : 2, "m"), rev = pick(0, 1, "rev"); int iv = I[ii], k1 = k0 + n + gap;
  fill(k0, n, 0, 1); for (int i = 0; i < m; i++) M[k1 - K0 + i] = 50 + i;
  dsym_assert((rev ? put(iv, 0, k1, m, 1, 0) : put(iv, 0, k0, n, 1, 0)) == 0, "store succeeds"); dsym_assert((rev ? put(iv, 0, k0, n, 1, 0) : put(iv, 0, k1, m, 1, 0)) == 0, "store succeeds");
  get(iv, 0, k0 - 2, k1 + m + 1, 1, 0); dsym_cover("end");
}
// long series with runs of equal values (compressed in storage) around one arbitrary value
void h_long(void) {
  enum { MX = 3200 }; static double v[MX]; static float f[MX]; static const int I[] = {I_1D, I_1H, I_15M, I_1MON}; static const int N[] = {40, 400, 1500, 3100};
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int ii = pick(0, 3, "interval"), nn = pick(0, 3, "n"), dbl = pick(0, 1, "dbl"), x = pick(THOROUGH ? 0 : 2, 3, "x"), run = pick(0, 2, "run"); int iv = I[ii], n = N[nn], k0 = -7; if (iv == I_1MON && n > 400) n = 400;
  for (int i = 0; i < n; i++) v[i] = run == 0 ? i : run == 1 ? i / 50 % 5 : i % 90 < 80 ? 7 : i; x = x == 0 ? 0 : x == 1 ? 25 : x == 2 ? n / 2 : n - 1; if (dbl) v[x] = sym_double("v"); else v[x] = sym_float("v"); dsym_assume(!(v[x] != v[x]) && v[x] != DMISS && v[x] != -901 && v[x] != -902);
  char d[20], c[20], e[20], g[20]; d_str(t_at(iv, k0, 0), d, c); d_str(t_at(iv, k0 + n - 1, 0), e, g); for (int i = 0; i < n; i++) f[i] = (float)v[i];
  zStructTimeSeries* t = dbl ? zstructTsNewRegDoubles(mkpath(IV[iv].ep), v, n, d, c, "CFS", "PER-AVER") : zstructTsNewRegFloats(mkpath(IV[iv].ep), f, n, d, c, "CFS", "PER-AVER");
  dsym_assert(ztsStore(IFL, t, 0) == 0, "store succeeds"); zstructFree(t); zclose(IFL); dsym_assert(openf(IFL, "a.dss") == 0, "reopen");
  t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); dsym_assert(ztsRetrieve(IFL, t, -1, 0, 0) == 0, "retrieve succeeds"); dsym_assert(t->numberValues == n && (dbl ? t->doubleValues != 0 : t->floatValues != 0), "number of values");
  int ok = dbl ? dsym_memeq(t->doubleValues, v, 8 * n) : dsym_memeq(t->floatValues, f, 4 * n); dsym_assert(ok, "values as stored"); int okt = 1; for (int i = 0; i < n; i += 37) okt &= (long long)t->julianBaseDate * 86400 + (long long)t->times[i] * t->timeGranularitySeconds == t_at(iv, k0 + i, 0); dsym_assert(okt, "times of the steps"); zstructFree(t); dsym_cover("end");
}
// every length of a block around the sizes of the internal buffers (500 ints), merged with a second store
void h_buffer(void) {
  enum { MX = 720 }; static double v[MX]; static float f[MX]; int dbl = pick(0, 1, "dbl"), n, iv = I_1H, k0 = 3; n = pick(170, 250, "n"); if (!dbl) n = 2 * n + (n & 1); dsym_assert(openf(IFL, "a.dss") == 0, "open");
  for (int i = 0; i < n; i++) f[i] = v[i] = 1 + i; double x = dbl ? sym_double("v") : sym_float("v"); dsym_assume(!(x != x) && x != DMISS && x != -901 && x != -902); v[n - 1] = x; f[n - 1] = (float)x;
  char d[20], c[20], e[20], g[20]; for (int k = 0; k < 2; k++) { int lo = k ? n / 2 : 0, m = k ? 2 : n; if (k) v[lo] = f[lo] = 5000, v[lo + 1] = f[lo + 1] = 5001; d_str(t_at(iv, k0 + lo, 0), d, c); zStructTimeSeries* t = dbl ? zstructTsNewRegDoubles(mkpath(IV[iv].ep), v + lo, m, d, c, "CFS", "PER-AVER") : zstructTsNewRegFloats(mkpath(IV[iv].ep), f + lo, m, d, c, "CFS", "PER-AVER"); int st = ztsStore(IFL, t, 0); dsym_assert(st == 0, "store succeeds"); zstructFree(t);
    d_str(t_at(iv, k0, 0), d, c); d_str(t_at(iv, k0 + n - 1, 0), e, g); t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); st = ztsRetrieve(IFL, t, 0, 0, 0); dsym_assert(st == 0 && t->numberValues == n && (dbl ? t->doubleValues != 0 : t->floatValues != 0), "number of values"); int ok = dbl ? dsym_memeq(t->doubleValues, v, 8 * n) : dsym_memeq(t->floatValues, f, 4 * n); dsym_assert(ok, "values as stored"); zstructFree(t); }
  zclose(IFL); dsym_cover("end");
}
// the same through the C interface: values, quality, units, type and time zone of a series stored with hec_dss_tsStoreRegular, whole record or a window
void h_api(void) {
  int iv = pick(0, 1, "interval") ? I_1MON : I_1D, flt, q, n, k0, all, re; flt = pick(0, 1, "floats"); q = pick(0, 2, "quality"); n = pick(1, 3, "number"); k0 = pick(-2, 0, "first"); all = pick(0, 1, "whole record"); re = pick(0, 1, "reopen"); dsym_assert(openf(IFL, "a.dss") == 0, "open"); double v[4]; int ql[4], sy; sy = n > 1; float f; dsym_sym(&f, 4, "value"); dsym_assume(f == f && f != -901.f && f != -902.f && f != FMISS); for (int i = 0; i < n; i++) { v[i] = i + 0.25; ql[i] = 0; if (q) ql[i] = 7 + i; } if (q != 2) v[sy] = f; if (q == 2) ql[sy] = sym_int("quality flag");
  char d[20], c[20], e[20], g[20], u[10], ty[10], z[10]; d_str(t_at(iv, k0, 0), d, c); d_str(t_at(iv, k0 + n - 1, 0), e, g); const char* p = mkpath(IV[iv].ep); int st = hec_dss_tsStoreRegular((dss_file*)IFL, p, d, c, v, n, q ? ql : 0, q ? n : 0, flt, "CFS", "PER-AVER", "PST8", 0); dsym_assert(st == 0, "stored"); if (re) { zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "reopen"); }
  int t[4], qr[4], got = 0, jb = 0, tg = 0; double w[4]; st = hec_dss_tsRetrieve((dss_file*)IFL, p, all ? 0 : d, all ? 0 : c, all ? 0 : e, all ? 0 : g, t, w, 4, &got, qr, 1, &jb, &tg, u, 10, ty, 10, z, 10); dsym_assert(st == 0 && got == n, "all of the values"); int okv = 1, okq = 1, okt = 1;
  for (int i = 0; i < n; i++) { okv &= dsym_memeq(w + i, v + i, 8); okq &= qr[i] == ql[i]; okt &= (long long)jb * 86400 + (long long)t[i] * tg == t_at(iv, k0 + i, 0); } dsym_assert(okv, "values"); dsym_assert(okq, "quality"); dsym_assert(okt, "times"); dsym_assert(!strcmp(u, "CFS") && !strcmp(ty, "PER-AVER") && !strcmp(z, "PST8"), "units, type and time zone"); dsym_cover("end");
}
