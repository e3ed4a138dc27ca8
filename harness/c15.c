// C15: irregular time series merge and read back in time order
#include "ts.h"
enum { NS = 9 };                       // time slots
static long long S[NS]; static double V[NS]; static int Q[NS * 3], HAS[NS], QE, NE, CE; static char CN[NS][8]; static const char* EP; static int GR = 1, UB; // seconds per time unit, base day of the caller's times
static int in2[NS], SOME; // SOME: only one of two stores has quality or notes
static int put(const int* sl, int n, const double* v, const int* q, char (*cn)[8], int dbl, int flag) {
  int tm[NS]; float f[NS]; char notes[NS * 8]; int nl = 0; char b[20], c[20]; d_str((long long)UB * 86400 + 1, b, c); for (int i = 0; i < n; i++) { tm[i] = (S[sl[i]] - (long long)UB * 86400) / GR; f[i] = (float)v[i]; }
  zStructTimeSeries* t = dbl ? zstructTsNewIrregDoubles(mkpath(EP), (double*)v, n, tm, GR, UB ? b : 0, "CFS", "INST-VAL") : zstructTsNewIrregFloats(mkpath(EP), f, n, tm, GR, UB ? b : 0, "CFS", "INST-VAL");
  if (QE) { t->quality = (int*)q; t->qualityElementSize = QE; } if (NE) { t->inotes = (int*)q; t->inoteElementSize = NE; } if (CE) { for (int i = 0; i < n; i++) { strcpy(notes + nl, cn[i]); nl += strlen(notes + nl) + 1; } t->cnotes = notes; t->cnotesLengthTotal = nl; }
  int st = ztsStore(IFL, t, flag); zstructFree(t); return st;
}
static void model(const int* sl, int n, const double* v, const int* q, char (*cn)[8], int flag) {
  int E = QE + NE; if (flag == 1) for (int i = sl[0]; i <= sl[n - 1]; i++) HAS[i] = 0; for (int i = 0; i < n; i++) { int x = sl[i]; HAS[x] = 1; V[x] = v[i]; if (E) for (int j = 0; j < E; j++) Q[E * x + j] = q[E * i + j]; if (CE) strcpy(CN[x], cn[i]); }
}
// retrieve the window from lo to hi (seconds) and compare; previous/next: also the value before/after
static void check(long long lo, long long hi, int dbl, int rflag, int a, int b) { // slots a..b are expected
  char d[20], c[20], e[20], g[20]; d_str(lo, d, c); d_str(hi, e, g); int n = 0; for (int i = a; i <= b; i++) n += HAS[i];
  zStructTimeSeries* t = zstructTsNewTimes(mkpath(EP), d, c, e, g); if (GR == 1) t->timeGranularitySeconds = 1; int st = ztsRetrieve(IFL, t, rflag, dbl ? 2 : 1, QE || NE || CE);
  if (!n) { dsym_assert(st != STATUS_OKAY || t->numberValues <= 0, "nothing in an empty window"); zstructFree(t); return; }
  dsym_assert(st == 0, "retrieve succeeds"); dsym_assert(t->numberValues == n, "number of values"); int k = 0, okt = 1, okv = 1, okq = 1, okn = 1, E = QE + NE; int* q = QE ? t->quality : t->inotes; char* cn = t->cnotes; static int zq[NS * 3]; int some = 0; for (int i = a; i <= b; i++) if (HAS[i]) { for (int j = 0; j < E; j++) some |= Q[E * i + j] != 0; some |= CE && CN[i][0]; } if (!SOME) some = 1; if (E && !q && !some) q = zq; if (E) dsym_assert(q != 0, "quality returned"); int nocn = CE && !cn && !some; if (CE && !nocn) dsym_assert(cn != 0, "notes returned");
  for (int i = a; i <= b; i++) if (HAS[i]) { okt &= (long long)t->julianBaseDate * 86400 + (long long)t->times[k] * t->timeGranularitySeconds == S[i]; okv &= dbl ? same8(t->doubleValues[k], V[i]) : same4(t->floatValues[k], (float)V[i]); for (int j = 0; j < E; j++) okq &= dsym_memeq(&q[E * k + j], &Q[E * i + j], 4); k++;
    if (CE && !nocn) { if (cn - t->cnotes >= t->cnotesLengthTotal) { okn = 0; break; } okn &= !strcmp(cn, CN[i]); cn += strlen(cn) + 1; } }
  if (CE && !nocn) okn &= cn - t->cnotes == t->cnotesLengthTotal;
  dsym_assert(okt, "times in order as stored"); dsym_assert(okv, "values of their times"); dsym_assert(okq, "quality of its times"); dsym_assert(okn, "text notes of their times"); dsym_assert(!strcmp(t->units, "CFS") && !strcmp(t->type, "INST-VAL"), "units and type"); zstructFree(t);
}
typedef struct { const char* ep; long long sl[NS]; int gr; } blk;
static const char* EPS[] = {"IR-Day", "IR-Month", "IR-Year", "IR-Decade", "IR-Century"};
// slots around two block boundaries B1 < B2
static void slots(int b) {
  EP = EPS[b]; int y2 = b == 2 ? 2001 : b == 3 ? 2010 : b == 4 ? 2100 : 2000; long long B1 = (long long)jul(2000, 1, 1) * 86400, B2 = b == 0 ? B1 + 86400 : b == 1 ? (long long)jul(2000, 2, 1) * 86400 : (long long)jul(y2, 1, 1) * 86400; GR = b == 4 ? 60 : 1; UB = b == 4 ? 0 : jul(1999, 12, 1) ; int u = GR;
  long long s[] = {B1 - 7200, B1 - u, B1, B1 + u, B1 + 43200, B2 - u, B2, B2 + u, B2 + 10800}; memcpy(S, s, sizeof s);
}
static double symv(int dbl) { double v = dbl ? sym_double("v") : sym_float("v"); dsym_assume(!(v != v)); return v; }
static int list(int mask, int* sl) { int n = 0; for (int i = 0; i < NS; i++) if (mask >> i & 1) sl[n++] = i; return n; }
// two stores over every pattern of times
static void two(int b, int oldmasks, int thin) {
  slots(b); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 1, "flag"), o = pick(0, oldmasks - 1, "old"), half = pick(0, 3, "part"), dbl = (o + half) & 1; static const int OM[] = {0x1ff, 0x08, 0x155, 0x0aa, 0x10, 0x1c7, 0x04, 0x38, 0x41, 0x120, 0x1f8, 0x7, 0x104, 0x44, 0x28, 0x1e0};
  int sl[NS], sn[NS]; double v[NS], w[NS]; int om = OM[o], n = list(om, sl); for (int i = 0; i < n; i++) v[i] = 100 + sl[i]; v[n / 2] = symv(dbl); double sv = symv(dbl);
  dsym_assert(put(sl, n, v, 0, 0, dbl, 0) == 0, "store succeeds"); model(sl, n, v, 0, 0, 0); unsigned char* sp; zclose(IFL); int ino = rt_find("/w/a.dss"); long sz = rt_snapshot(ino, &sp); double SV[NS]; int SH[NS]; memcpy(SV, V, sizeof V); memcpy(SH, HAS, sizeof HAS);
  for (int m = 1 + half; m < 512; m += 4 * thin) { int k = list(m, sn); for (int i = 0; i < k; i++) w[i] = 500 + i; w[k - 1] = sv; memcpy(V, SV, sizeof V); memcpy(HAS, SH, sizeof HAS); rt_restore(ino, sp, sz); dsym_assert(openf(IFL, "a.dss") == 0, "open");
    dsym_assert(put(sn, k, w, 0, 0, dbl, flag) == 0, "store succeeds"); model(sn, k, w, 0, 0, flag); check(S[0] - 60, S[NS - 1] + 60, dbl, 0, 0, NS - 1); int a = m % 7, e = a + 1 + m % 5; if (e >= NS) e = NS - 1; check(S[a], S[e], dbl, 0, a, e); zclose(IFL); }
  dsym_cover("end");
}
void h_day(void) { two(0, THOROUGH ? 16 : 4, THOROUGH ? 1 : 5); }
void h_month(void) { two(1, THOROUGH ? 16 : 8, THOROUGH ? 1 : 3); }
void h_year(void) { two(2, THOROUGH ? 16 : 4, THOROUGH ? 1 : 5); }
void h_decade(void) { two(3, THOROUGH ? 16 : 4, THOROUGH ? 1 : 5); }
void h_century(void) { two(4, THOROUGH ? 16 : 4, THOROUGH ? 1 : 5); }
// quality, notes, text notes
static void extra(int b) {
  slots(b); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int kind = pick(0, 5, "kind"), flag = pick(0, 1, "flag"), o = pick(0, THOROUGH ? 7 : 3, "old"), half = pick(0, 1, "part"), dbl = (o + kind) & 1; static const int OM[] = {0x1ff, 0x155, 0x1c7, 0x38, 0x0aa, 0x10, 0x120, 0x44}; QE = kind < 2 ? kind + 1 : kind == 4 ? 3 : 0; NE = kind == 2 ? 1 : kind == 3 ? 3 : 0; CE = kind == 5;
  int sl[NS], sn[NS], q[NS * 3], r[NS * 3]; double v[NS], w[NS]; static char cn[NS][8], cm[NS][8]; int n = list(OM[o], sl); for (int i = 0; i < n; i++) { v[i] = 100 + sl[i]; sprintf(cn[i], sl[i] % 3 ? "o%d" : "", sl[i]); } for (int i = 0; i < NS * 3; i++) q[i] = 1000 + i, r[i] = 2000 + i; if (QE + NE) { q[(QE + NE) * n - 1] = sym_int("q"); r[0] = sym_int("r"); }
  dsym_assert(put(sl, n, v, q, cn, dbl, 0) == 0, "store succeeds"); model(sl, n, v, q, cn, 0); unsigned char* sp; zclose(IFL); int ino = rt_find("/w/a.dss"); long sz = rt_snapshot(ino, &sp); double SV[NS]; int SH[NS], SQ[NS * 3]; static char SC[NS][8]; memcpy(SV, V, sizeof V); memcpy(SH, HAS, sizeof HAS); memcpy(SQ, Q, sizeof Q); memcpy(SC, CN, sizeof CN);
  for (int m = 1 + half * 3; m < 512; m += THOROUGH ? 6 : 22) { int k = list(m, sn); for (int i = 0; i < k; i++) { w[i] = 500 + i; sprintf(cm[i], i % 4 == 1 ? "" : "new%d", i); } memcpy(V, SV, sizeof V); memcpy(HAS, SH, sizeof HAS); memcpy(Q, SQ, sizeof Q); memcpy(CN, SC, sizeof CN); rt_restore(ino, sp, sz); dsym_assert(openf(IFL, "a.dss") == 0, "open");
    dsym_assert(put(sn, k, w, r, cm, dbl, flag) == 0, "store succeeds"); model(sn, k, w, r, cm, flag); check(S[0] - 60, S[NS - 1] + 60, dbl, 0, 0, NS - 1); int a = m % 6, e = a + 1 + m % 3; check(S[a], S[e], dbl, 0, a, e); zclose(IFL); }
  dsym_cover("end");
}
void h_extra_month(void) { extra(1); }
void h_extra_century(void) { extra(4); }
// only the first or only the second store has quality or notes
void h_extra_some(void) {
  int b = pick(0, 1, "block") ? 4 : 1, kind, flag, o, half, wh; SOME = 1; kind = pick(0, 5, "kind"); flag = pick(0, 1, "flag"); wh = pick(0, 1, "second store has them"); o = pick(0, THOROUGH ? 7 : 3, "old"); half = pick(0, 2, "part"); slots(b); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int dbl = (o + kind + half) & 1, qe = kind < 2 ? kind + 1 : kind == 4, ne = kind == 2 ? 1 : kind == 3 ? 3 : 0, E = qe + ne; static const int OM[] = {0x1ff, 0x155, 0x1c7, 0x38, 0x0aa, 0x10, 0x120, 0x44};
  int sl[NS], sn[NS], q[NS * 3], z[NS * 3]; double v[NS], w[NS]; static char cn[NS][8], cz[NS][8]; int n = list(OM[o], sl); for (int i = 0; i < n; i++) v[i] = 100 + sl[i]; for (int i = 0; i < NS * 3; i++) q[i] = 1000 + i, z[i] = 0; for (int i = 0; i < NS; i++) sprintf(cn[i], "n%d", i); int sy = 0; sy = sym_int("q"); dsym_assume(sy != 0); q[E ? E - 1 : 0] = sy;
  QE = wh ? 0 : qe; NE = wh ? 0 : ne; CE = wh ? 0 : kind == 5; int st = put(sl, n, v, q, cn, dbl, 0); dsym_assert(st == 0, "store succeeds"); QE = qe; NE = ne; CE = kind == 5; model(sl, n, v, wh ? z : q, wh ? cz : cn, 0); unsigned char* sp; zclose(IFL); int ino = rt_find("/w/a.dss"); long sz = rt_snapshot(ino, &sp); double SV[NS]; int SH[NS], SQ[NS * 3]; static char SC[NS][8]; memcpy(SV, V, sizeof V); memcpy(SH, HAS, sizeof HAS); memcpy(SQ, Q, sizeof Q); memcpy(SC, CN, sizeof CN);
  for (int m = 1 + half * 5; m < 512; m += THOROUGH ? 15 : 45) { int k = list(m, sn); for (int i = 0; i < k; i++) w[i] = 500 + i; memcpy(V, SV, sizeof V); memcpy(HAS, SH, sizeof HAS); memcpy(Q, SQ, sizeof Q); memcpy(CN, SC, sizeof CN); rt_restore(ino, sp, sz); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open");
    QE = wh ? qe : 0; NE = wh ? ne : 0; CE = wh && kind == 5; st = put(sn, k, w, q, cn, dbl, flag); dsym_assert(st == 0, "store succeeds"); QE = qe; NE = ne; CE = kind == 5; model(sn, k, w, wh ? q : z, wh ? cn : cz, flag); check(S[0] - 60, S[NS - 1] + 60, dbl, 0, 0, NS - 1); if (kind != 5) { int a = m % 6, e = a + 1 + m % 3; check(S[a], S[e], dbl, 0, a, e); } zclose(IFL); }
  dsym_cover("end");
}
// every window, also with the previous and the following value
void h_windows(void) {
  int b = pick(0, 4, "block"); slots(b); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int o = pick(0, 3, "old"), dbl = pick(0, 1, "dbl"); static const int OM[] = {0x1ff, 0x155, 0x0aa, 0x16b}; int sl[NS]; double v[NS]; int n = list(OM[o], sl); for (int i = 0; i < n; i++) v[i] = 100 + sl[i]; v[n / 2] = symv(dbl);
  dsym_assert(put(sl, n, v, 0, 0, dbl, 0) == 0, "store succeeds"); model(sl, n, v, 0, 0, 0);
  for (int a = 0; a < NS; a++) for (int e = a; e < NS; e++) { check(S[a], S[e], dbl, 0, a, e); if (e > a + 1) check(S[a] + GR > S[a + 1] ? S[a + 1] : S[a] + GR, S[e] - GR < S[e - 1] ? S[e - 1] : S[e] - GR, dbl, 0, a + 1, e - 1); }
  dsym_cover("end");
}
// one value at any time of the day merged into stored values
void h_anytime(void) {
  slots(1); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 1, "flag"); int sl[3] = {3, 4, 5}; double v[3] = {1, 2, 3}; dsym_assert(put(sl, 3, v, 0, 0, 1, 0) == 0, "store succeeds"); static const int AT[] = {0, 43196, 86398, 2678392, 10}; int s = sym_range(1, THOROUGH ? 60 : 8, "second") + AT[pick(0, 4, "near")];
  int tm[1]; tm[0] = s; double w[1] = {9}; zStructTimeSeries* t = zstructTsNewIrregDoubles(mkpath(EP), w, 1, tm, 1, "01Jan2000", "CFS", "INST-VAL"); int st = ztsStore(IFL, t, flag); zstructFree(t); dsym_assert(st == 0, "store succeeds");
  char d[20], c[20], e[20], g[20]; d_str(S[0], d, c); d_str(S[8], e, g); t = zstructTsNewTimes(mkpath(EP), d, c, e, g); t->timeGranularitySeconds = 1; st = ztsRetrieve(IFL, t, 0, 2, 0); dsym_assert(st == 0, "retrieve succeeds");
  int k = 0, ok = 1; long base = (long)jul(2000, 1, 1) * 86400; for (int i = 0; i < t->numberValues; i++) { long x = (long)t->julianBaseDate * 86400 + t->times[i] - base; if (x == s) { ok &= t->doubleValues[i] == 9; k++; } else ok &= x == S[sl[0]] - base ? t->doubleValues[i] == 1 : x == S[sl[1]] - base ? t->doubleValues[i] == 2 : x == S[sl[2]] - base ? t->doubleValues[i] == 3 : 0; if (i) ok &= t->times[i] > t->times[i - 1]; }
  dsym_assert(ok && k == 1 && (t->numberValues == 4 || t->numberValues == 3), "times in order as stored"); zstructFree(t); dsym_cover("end");
}
// floats and doubles stored into the same series
void h_mixed(void) {
  slots(pick(1, 2, "block")); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int od = pick(0, 1, "old doubles"), flag = pick(0, 1, "flag"), m = pick(0, 7, "new"); static const int NM[] = {0x10, 0x18, 0x81, 0x155, 0x1ff, 0x20, 0x44, 0x2}; int sl[NS], sn[NS]; int n = list(0xfb, sl), k = list(NM[m], sn); double v[NS], w[NS]; for (int i = 0; i < NS; i++) v[i] = od ? 0.1 * (i + 1) : 0.5 * i, w[i] = od ? 3.5 + i : 0.3 + i; v[2] = symv(od);
  dsym_assert(put(sl, n, v, 0, 0, od, 0) == 0, "store succeeds"); model(sl, n, v, 0, 0, 0); dsym_assert(put(sn, k, w, 0, 0, !od, flag) == 0, "store succeeds"); model(sn, k, w, 0, 0, flag);
  if (!od) for (int i = 0; i < k; i++) V[sn[i]] = w[i]; check(S[0] - 60, S[8] + 60, od, 0, 0, NS - 1); dsym_cover("end");
}
// the window together with the previous and the following value
void h_neighbours(void) {
  int b = pick(0, 4, "block"); slots(b); dsym_assert(openf(IFL, "a.dss") == 0, "open"); int rf = pick(1, 3, "flag"); int sl[NS]; double v[NS]; int n = list(0x1ff, sl); for (int i = 0; i < n; i++) v[i] = 100 + sl[i]; v[4] = symv(1);
  dsym_assert(put(sl, n, v, 0, 0, 1, 0) == 0, "store succeeds"); model(sl, n, v, 0, 0, 0);
  for (int a = 0; a < NS; a++) for (int e = a; e < NS; e++) { int x = a - (rf != 2 && a > 0), y = e + (rf != 1 && e < NS - 1); check(S[a], S[e], 1, rf, x, y); }
  dsym_cover("end");
}
// values at symbolic times merged with values at symbolic times
void h_orders(void) {
  EP = EPS[pick(1, 3, "block")]; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int flag = pick(0, 1, "flag"), n = pick(1, THOROUGH ? 3 : 2, "old"), m = pick(1, THOROUGH ? 3 : 2, "new"), R = THOROUGH ? 6 : 4, a[3], b[3]; double v[3], w[3]; for (int i = 0; i < n; i++) { a[i] = sym_range(1, R, "a"); if (i) dsym_assume(a[i] > a[i - 1]); v[i] = symv(1); } for (int i = 0; i < m; i++) { b[i] = sym_range(1, R, "b"); if (i) dsym_assume(b[i] > b[i - 1]); w[i] = symv(1); }
  for (int k = 0; k < 2; k++) { zStructTimeSeries* t = zstructTsNewIrregDoubles(mkpath(EP), k ? w : v, k ? m : n, k ? b : a, 1, "01Jan2000", "CFS", "INST-VAL"); int st = ztsStore(IFL, t, k ? flag : 0); zstructFree(t); dsym_assert(st == 0, "store succeeds"); }
  zStructTimeSeries* t = zstructTsNewTimes(mkpath(EP), "01Jan2000", "00:00:01", "02Jan2000", "24:00:00"); t->timeGranularitySeconds = 1; int st = ztsRetrieve(IFL, t, 0, 2, 0); dsym_assert(st == 0, "retrieve succeeds"); long long base = (long long)jul(2000, 1, 1) * 86400 - (long long)t->julianBaseDate * 86400; int k = 0, ok = 1; if (t->timeGranularitySeconds != 1) ok = 0;
  for (int i = 0, j = 0; i < n || j < m;) { int old = i < n && (j >= m || a[i] < b[j]); if (old && flag && a[i] > b[0] && a[i] < b[m - 1]) { i++; continue; } if (k >= t->numberValues) { ok = 0; break; } ok &= t->times[k] - base == (old ? a[i] : b[j]); ok &= same8(t->doubleValues[k], old ? v[i] : w[j]); k++; if (old) i++; else { if (i < n && a[i] == b[j]) i++; j++; } }
  dsym_assert(ok && k == t->numberValues, "the union in time order"); zstructFree(t); dsym_cover("end");
}
// the same through the C interface
void h_api(void) {
  int cent = pick(0, 1, "block"), flt, q, n, all, re; flt = pick(0, 1, "floats"); q = pick(0, 2, "quality"); n = pick(1, 3, "number"); all = pick(0, 1, "whole record"); re = pick(0, 1, "reopen"); const char* p = cent ? "/A/B/C//IR-Century/F/" : "/A/B/C//IR-Month/F/"; dsym_assert(openf(IFL, "a.dss") == 0, "open"); double v[4]; int ql[4], tm[4], sy = n > 1; float f; dsym_sym(&f, 4, "value"); dsym_assume(f == f && f != -901.f && f != -902.f && f != -3.4028234663852886e+38f); for (int i = 0; i < n; i++) { v[i] = i + 0.25; ql[i] = 0; if (q) ql[i] = 7 + i; tm[i] = 1440 * 20 * (i + 1) + 7; } if (q != 2) v[sy] = f; if (q == 2) ql[sy] = sym_int("quality flag");
  int st = hec_dss_tsStoreIregular((dss_file*)IFL, p, "01Jan2000", tm, 60, v, n, q ? ql : 0, q ? n : 0, flt, "FT", "INST-VAL", "PST8", 0); dsym_assert(st == 0, "stored"); if (re) { zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "reopen"); }
  char u[10], ty[10], z[10]; int t[4], qr[4], got = 0, jb = 0, tg = 0; double w[4]; st = hec_dss_tsRetrieve((dss_file*)IFL, p, all ? 0 : "01Jan2000", all ? 0 : "0100", all ? 0 : "31Dec2000", all ? 0 : "2400", t, w, 4, &got, qr, 1, &jb, &tg, u, 10, ty, 10, z, 10); dsym_assert(st == 0 && got == n, "all of the values"); int okv = 1, okq = 1, okt = 1, b = dateToJulian("01Jan2000");
  for (int i = 0; i < n; i++) { okv &= dsym_memeq(w + i, v + i, 8); okq &= qr[i] == ql[i]; okt &= (long long)jb * 86400 + (long long)t[i] * tg == (long long)b * 86400 + tm[i] * 60LL; } dsym_assert(okv, "values"); dsym_assert(okq, "quality"); dsym_assert(okt, "times"); dsym_assert(!strcmp(u, "FT") && !strcmp(ty, "INST-VAL") && !strcmp(z, "PST8"), "units, type and time zone"); dsym_cover("end");
}
