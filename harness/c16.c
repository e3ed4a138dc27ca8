// C16: size and range queries agree with retrieval
#include "ts.h"
static dss_file* F;
static void openF(void) { zset("MLVL", "", 0); dsym_assert(hec_dss_open("a.dss", &F) == 0, "open"); }
static int same_time(int j, int s, long long t) { return (long long)j * 86400 + s == t; }
// everything retrieved without a window; the queries have to agree with it
static long long TM[4000]; static int GOT; static double VV[4000];
static int all(const char* path, int gr) {
  zStructTimeSeries* t = zstructTsNew(path); t->boolRetrieveAllTimes = 1; if (gr) t->timeGranularitySeconds = gr; int st = ztsRetrieve((long long*)F, t, -1, 2, 1); GOT = 0;
  if (st == 0) for (int i = 0; i < t->numberValues && i < 4000; i++) { TM[GOT] = (long long)t->julianBaseDate * 86400 + (long long)t->times[i] * t->timeGranularitySeconds; VV[GOT++] = t->doubleValues[i]; } zstructFree(t); return st;
}
static const double SPECIAL[] = {-901., -902., -3.4028234663852886e+38};
// regular: patterns of missing values, up to two stores, offset, over a block boundary after step KBND
static void range(int iv, int gr, int full) {
  openF(); int k0 = pick(-4, 2, "k0"), n = pick(1, 5, "n"), pat = pick(0, 5, "pattern"), second = pick(0, full ? 3 : 1, "second"), dbl = (k0 + n + pat) & 1; static const int PT[] = {0, 1, 16, 3, 17, 8}; double v[8], mod[24]; long off = 0; for (int i = 0; i < 24; i++) mod[i] = DMISS;
  if (second & 1) off = iv == I_1S ? 0 : iv == I_1W ? 86400 * 3 : IV[iv].sec ? IV[iv].sec / 2 : 86400;
  for (int i = 0; i < n; i++) mod[k0 + i + 10] = v[i] = (PT[pat] >> i & 1) || (i == n - 1 && (PT[pat] & 16)) ? DMISS : 5 + i; if (v[n / 2] != DMISS) { v[n / 2] = dbl ? sym_double("v") : sym_float("v"); dsym_assume(v[n / 2] == v[n / 2]); dsym_assume(v[n / 2] != DMISS && v[n / 2] != -901 && v[n / 2] != -902); }
  double y[2] = {7, pat & 1 ? DMISS : 8}; int at2 = k0 + (pat & 2 ? -3 : 2); if (second > 1) for (int i = 0; i < 2; i++) mod[at2 + i + 10] = y[i];
  // a block holding only missing values has no first valid value: see h_range_empty
  int t1 = 0, t2 = 0, v1 = 0, v2 = 0; for (int k = -10; k < 14; k++) { int in = (k >= k0 && k < k0 + n) || (second > 1 && k >= at2 && k < at2 + 2), ok = mod[k + 10] != DMISS; if (k <= 0) t1 |= in, v1 |= ok; else t2 |= in, v2 |= ok; } if ((t1 && !v1) || (t2 && !v2)) dsym_stop();
  char d[20], c[20];
  for (int w = 0; w < (second > 1 ? 2 : 1); w++) { int at = w ? at2 : k0, m = w ? 2 : n; double* x = w ? y : v; float f[8]; for (int i = 0; i < m; i++) f[i] = x[i]; d_str(t_at(iv, at, off), d, c);
    zStructTimeSeries* t = dbl ? zstructTsNewRegDoubles(mkpath(IV[iv].ep), x, m, d, c, "CFS", "INST-VAL") : zstructTsNewRegFloats(mkpath(IV[iv].ep), f, m, d, c, "CFS", "INST-VAL"); if (gr) t->timeGranularitySeconds = gr; dsym_assert(ztsStore((long long*)F, t, 0) == 0, "store succeeds"); zstructFree(t); }
  dsym_assert(all(mkpath(IV[iv].ep), gr) == 0, "retrieve succeeds"); int a, as, b, bs; dsym_assert(GOT > 0, "values retrieved");
  dsym_assert(hec_dss_tsGetDateTimeRange(F, mkpath(IV[iv].ep), 1, &a, &as, &b, &bs) == 0, "range query succeeds"); dsym_assert(same_time(a, as, TM[0]), "first date and time"); dsym_assert(same_time(b, bs, TM[GOT - 1]), "last date and time"); dsym_assert(as > 0 && as <= 86400 && bs > 0 && bs <= 86400, "seconds of the day");
  int fi = 0, la = 0; for (int k = -10; k < 14; k++) if (mod[k + 10] != DMISS) { la = k; if (!fi) fi = k + 100; } dsym_assert(TM[0] == t_at(iv, fi - 100, off) && TM[GOT - 1] == t_at(iv, la, off), "first and last value stored");
  dsym_cover("end");
}
void h_range_day(void) { range(I_1D, 0, 1); }
void h_range_15min(void) { range(I_15M, 1, 1); }
void h_range_month(void) { range(I_1MON, 0, 1); }
void h_range_year(void) { range(I_1Y, 0, 1); }
void h_range_sec(void) { range(I_1S, 1, 0); }
void h_range_tri(void) { range(I_TRI, 0, 1); }
void h_range_week(void) { KB = 26; range(I_1W, 0, 1); }
// one block holding only missing values at the start or the end
void h_range_empty(void) {
  openF(); int iv = I_1D, at = pick(0, 1, "at"); double v[3] = {at ? 5 : DMISS, at ? 6 : DMISS, DMISS}; if (!at) v[2] = 7; char d[20], c[20]; d_str(t_at(iv, at ? -1 : -1, 0), d, c); if (at) v[1] = 6; zStructTimeSeries* t = zstructTsNewRegDoubles(mkpath(IV[iv].ep), v, 3, d, c, "CFS", "INST-VAL"); dsym_assert(ztsStore((long long*)F, t, 0) == 0, "store succeeds"); zstructFree(t);
  dsym_assert(all(mkpath(IV[iv].ep), 0) == 0 && GOT > 0, "retrieve succeeds"); int a, as, b, bs; dsym_assert(hec_dss_tsGetDateTimeRange(F, mkpath(IV[iv].ep), 1, &a, &as, &b, &bs) == 0, "range query succeeds"); dsym_assert(same_time(a, as, TM[0]) && same_time(b, bs, TM[GOT - 1]), "first or last block holds only missing values"); dsym_cover("end");
}
// irregular series: any of 8 times around two block boundaries
static void irr(int b) {
  static const char* EPS[] = {"IR-Day", "IR-Month", "IR-Year", "IR-Decade", "IR-Century"}; openF(); int y2 = b == 2 ? 2001 : b == 3 ? 2010 : b == 4 ? 2100 : 2000; long long B1 = (long long)jul(2000, 1, 1) * 86400, B2 = b == 0 ? B1 + 86400 : b == 1 ? (long long)jul(2000, 2, 1) * 86400 : (long long)jul(y2, 1, 1) * 86400; int gr = b == 4 ? 60 : 1;
  long long S[8] = {B1 - 7200, B1 - gr, B1, B1 + gr, B1 + 43200, B2, B2 + gr, B2 + 10800}; int base = gr == 60 ? 0 : jul(1999, 12, 1); int m1 = pick(0, 7, "first"), m2 = pick(0, 3, "second"), qw = pick(0, 1, "quality"); static const int M1[] = {0x08, 0xff, 0x03, 0x30, 0x81, 0xc0, 0x55, 0x7e}, M2[] = {0, 0x01, 0x80, 0x24};
  int tm[8], has[8] = {0}, q[8]; double v[8]; char bd[20], c[20]; d_str((long long)base * 86400 + 1, bd, c);
  for (int w = 0; w < 2; w++) { int m = w ? M2[m2] : M1[m1], n = 0; if (!m) continue; for (int i = 0; i < 8; i++) if (m >> i & 1) { tm[n] = (S[i] - (long long)base * 86400) / gr; v[n] = 3 + i; q[n] = i; has[i] = 1; n++; } if (!w) { v[0] = sym_double("v"); dsym_assume(v[0] == v[0]); }
    zStructTimeSeries* t = zstructTsNewIrregDoubles(mkpath(EPS[b]), v, n, tm, gr, base ? bd : 0, "CFS", "INST-VAL"); if (qw) { t->quality = q; t->qualityElementSize = 1; } dsym_assert(ztsStore((long long*)F, t, 0) == 0, "store succeeds"); zstructFree(t); }
  int fi = 0, la = 7, n = 0; while (!has[fi]) fi++; while (!has[la]) la--; for (int i = 0; i < 8; i++) n += has[i]; int a, as, z, zs;
  dsym_assert(hec_dss_tsGetDateTimeRange(F, mkpath(EPS[b]), 1, &a, &as, &z, &zs) == 0, "range query succeeds"); dsym_assert(same_time(a, as, S[fi]), "first date and time"); dsym_assert(same_time(z, zs, S[la]), "last date and time"); dsym_assert(all(mkpath(EPS[b]), gr) == 0 && GOT == n, "retrieve succeeds"); dsym_assert(TM[0] == S[fi] && TM[n - 1] == S[la], "retrieval starts and ends there");
  char d[20], e[20], g[20]; d_str(S[fi], d, c); d_str(S[la], e, g); int nv = -1, qe = -1; dsym_assert(hec_dss_tsGetSizes(F, mkpath(EPS[b]), d, c, e, g, &nv, &qe) == 0, "sizes query succeeds"); dsym_assert(nv >= n, "room for every value"); dsym_assert(qe == qw, "quality size");
  // room reported by the query is enough for a retrieval, which then returns everything
  if (nv < 200) { int ta[200], qa[200]; double va[200]; char un[20], ty[20], tz[20]; int got = -1, jb, tg; dsym_assert(hec_dss_tsRetrieve(F, mkpath(EPS[b]), d, c, e, g, ta, va, nv, &got, qa, qe, &jb, &tg, un, 20, ty, 20, tz, 20) == 0, "retrieve succeeds"); dsym_assert(got == n, "number of values"); }
  dsym_cover("end");
}
void h_irr_day(void) { irr(0); }
void h_irr_month(void) { irr(1); }
void h_irr_year(void) { irr(2); }
void h_irr_decade(void) { irr(3); }
void h_irr_century(void) { irr(4); }
// sizes of regular windows, units and type
static void sizes(int iv) {
  openF(); int k0 = pick(-3, 1, "k0"), n = pick(1, 4, "n"), qw = pick(0, 2, "quality"), dbl = pick(0, 1, "dbl"); double v[8]; float f[8]; int q[16] = {0}; char d[20], c[20], e[20], g[20]; for (int i = 0; i < n; i++) v[i] = f[i] = 5 + i, q[2 * i] = 3; d_str(t_at(iv, k0, 0), d, c);
  char un[9] = "CFS-LONG", ty[9] = "INST-VAL"; un[2] = sym_range(33, 126, "unit"); ty[5] = sym_range(33, 126, "type");
  zStructTimeSeries* t = dbl ? zstructTsNewRegDoubles(mkpath(IV[iv].ep), v, n, d, c, un, ty) : zstructTsNewRegFloats(mkpath(IV[iv].ep), f, n, d, c, un, ty); if (qw) { t->quality = q; t->qualityElementSize = qw; } dsym_assert(ztsStore((long long*)F, t, 0) == 0, "store succeeds"); zstructFree(t);
  for (int a = -4; a < 3; a++) for (int b = a; b < 5; b++) { int over = 0; for (int k = a; k <= b; k++) over |= k >= k0 && k < k0 + n; if (!over) continue; d_str(t_at(iv, a, 0), d, c); d_str(t_at(iv, b, 0), e, g); int nv = -1, qe = -1;
    dsym_assert(hec_dss_tsGetSizes(F, mkpath(IV[iv].ep), d, c, e, g, &nv, &qe) == 0, "sizes query succeeds"); t = zstructTsNewTimes(mkpath(IV[iv].ep), d, c, e, g); dsym_assert(ztsRetrieve((long long*)F, t, 0, 0, 1) == 0, "retrieve succeeds"); dsym_assert(nv == t->numberValues, "number of values"); dsym_assert(qe == t->qualityElementSize, "quality size"); dsym_assert(!strcmp(t->units, un) && !strcmp(t->type, ty), "units and type retrieved"); zstructFree(t); }
  char p[100], b1[20], u2[20], t2[20]; int j, s; long long bt = t_at(iv, k0, 0); split(bt, &j, &s); int bs; j = ztsRegGetBlockStart(j, IV[iv].sec ? IV[iv].sec : 2592000, &bs); d_str((long long)j * 86400 + 1, b1, c); sprintf(p, "/Basin/Loc/Flow/%s/%s/Ver/", b1, IV[iv].ep);
  dsym_assert(hec_dss_tsRetrieveInfo(F, p, u2, 20, t2, 20) == 0, "info query succeeds"); dsym_assert(!strcmp(u2, un) && !strcmp(t2, ty), "units and type reported"); dsym_cover("end");
}
void h_sizes_day(void) { sizes(I_1D); }
void h_sizes_month(void) { sizes(I_1MON); }
void h_sizes_15min(void) { sizes(I_15M); }
