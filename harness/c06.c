// C06: catalog and record count list exactly the live records
#include "hist.h"
static const char* P[] = { "/A/B/Flow//E/ONE/", "/A/b/Inflow//E/two/", "/A/Bc/Flow-Reg/01Jan2000/E/C:000001|X/", "/AA/ABC/STAGE//1Hour/C:000002|x/", "/MOVED/B/FLOW//E/ONE/", "//////ONE/" };
static void chk(void) {
  dsym_assert(zinquire(IFL, "nrec") == live(), "record count equals the live records");
  int r = catalog(IFL, 0, 0, 0); dsym_assert(r == 0, "catalog lists exactly the live records");
}
static int sorted(void) { // the sorted catalog lists the same names
  zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(IFL, 0, c, 1), bad = n != live();
  for (int i = 0; i < nrec && !bad; i++) { int m = 0; for (int j = 0; j < n; j++) if (c->pathnameList[j] && !cmpci(c->pathnameList[j], R[i].path)) m++; if (m != R[i].c.live) bad = 2; }
  zstructFree(c); return bad;
}
static void step(int n, int ncl, int srt) {
  int i = pick(0, n - 1, "rec"), op; op = pick(0, ncl + 3 + srt - 1, "op"); int st;
  if (op < ncl) { static const char cl[] = {3, 9, 2}; st = op_write_n(IFL, i, SZ[(int)cl[op]], TYPE); dsym_assert(st == 0, "write succeeds"); }
  else if (op == ncl) { int was = R[i].c.live; st = op_delete(IFL, i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); }
  else if (op == ncl + 1) { if (R[i].c.live) dsym_stop(); st = zundelete(IFL, R[i].path); if (st == 0) { R[i].c = R[i].undel; dsym_cover("undeleted"); } }
  else if (op == ncl + 2) { int j = (i + 1) % n; if (!R[i].c.live) dsym_stop(); st = zrename(IFL, R[i].path, R[j].path); dsym_assert(st == 0, "rename succeeds"); R[j].c = R[i].c; R[i].c.live = 0; R[i].undel.live = 0; }
  else { int r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); }
  chk();
}
static void start(int n) { dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = n; for (int i = 0; i < n; i++) R[i].path = P[i]; }
// every history of operations
static void hist(int steps, int ncl, int srt) { start(3); int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); for (int k = 0; k < steps; k++) step(3, ncl, srt); int r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); dsym_cover("end"); }
void h_hist3(void) { hist(3, 2, 0); }
void h_sorted4(void) { start(2); for (int k = 0; k < 4; k++) step(2, 1, 1); int r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); zclose(IFL); openf(IFL, "a.dss"); chk(); r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); dsym_cover("end"); }
void h_sorted5(void) { start(2); for (int k = 0; k < 5; k++) step(2, 1, 1); int r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); dsym_cover("end"); }
void h_hist4(void) { hist(4, 1, 1); }
// part filters: an independent matcher over symbolic characters
static int up(int c) { return c - ((c >= 'a') & (c <= 'z')) * 32; }
int zcatParsePath(const char*, int*, int*, char*, size_t, char*, size_t, char*, size_t, char*, size_t, char*, size_t, char*, size_t);
int zcatComparePath(const char*, int*, int*, char*, char*, char*, char*, char*, char*, int);
#if THOROUGH
#define FL 3
#else
#define FL 2
#endif
static char* put(char* p, const char* s) { while (*s) *p++ = *s++; return p; }
void h_filter(void) {
  int pos = pick(0, 5, "part"), ln, lf, mode, other; int fl = pos ? FL - 1 : FL; ln = pick(0, FL == 3 ? fl + 1 : 2, "name length"); lf = pick(0, fl, "filter length"); mode = pick(0, 3, "mode"); other = pos & 1 ? 2 : pos & 2 ? 1 : 0;
  if (mode && !lf) dsym_stop();
  char nm[5], ft[5], path[60], filt[60], *p = path, *f = filt;
  for (int i = 0; i < ln; i++) { dsym_sym(nm + i, 1, "n"); dsym_assume((nm[i] >= 'A' && nm[i] <= 'Z') || (nm[i] >= 'a' && nm[i] <= 'z') || nm[i] == '-'); }
  for (int i = 0; i < lf; i++) { int k = pick(0, 2, "f"); ft[i] = "aB-"[k]; }
  *p++ = *f++ = '/';
  for (int k = 0; k < 6; k++) {
    if (k == pos) { for (int i = 0; i < ln; i++) *p++ = nm[i]; if (mode & 1) *f++ = '*'; for (int i = 0; i < lf; i++) *f++ = ft[i]; if (mode & 2) *f++ = '*'; }
    else { p = put(p, k & 1 ? "Qrs" : ""); f = put(f, other == 0 ? "*" : k & 1 ? other == 1 ? "qR*" : "*RS" : ""); }
    *p++ = *f++ = '/';
  }
  *p = *f = 0;
  int act[6], len[6]; char a[129], b[129], c[129], d[129], e[129], g[129]; memset(act, 0, sizeof act); memset(len, 0, sizeof len);
  int w = zcatParsePath(filt, act, len, a, 129, b, 129, c, 129, d, 129, e, 129, g, 129); dsym_assert(w == 1, "filter accepted");
  int got = zcatComparePath(path, act, len, a, b, c, d, e, g, 0);
  int exp = 0; // any allowed offset matches
  for (int o = 0; o + lf <= ln; o++) { if (!(mode & 1) && o) continue; if (!(mode & 2) && o + lf != ln) continue; int m = 1; for (int i = 0; i < lf; i++) m &= up(nm[o + i]) == up(ft[i]); exp |= m; }
  dsym_assert((got != 0) == exp, "a part filter selects exactly the matching names"); dsym_cover("end");
}
// filters over a real catalog, sorted or not
static int spec(const char* n, const char* f) { // independent matcher for one part
  int ln = strlen(n), lf = strlen(f), pre = lf > 1 && f[lf - 1] == '*', suf = lf > 1 && f[0] == '*'; if (lf == 1 && f[0] == '*') return 1; const char* g = f + suf; int lg = lf - pre - suf, m = 0;
  for (int o = 0; o + lg <= ln; o++) { if (!suf && o) break; if (!pre && o + lg != ln) continue; int k = 1; for (int i = 0; i < lg; i++) if (up(n[o + i]) != up(g[i])) k = 0; m |= k; } return m; }
static void part(const char* p, int i, char* out) { p++; while (i--) { while (*p != '/') p++; p++; } while (*p != '/') *out++ = *p++; *out = 0; }
void h_catalog_filter(void) {
  start(6); for (int i = 0; i < 6; i++) op_write_n(IFL, i, SZ[3], 900 + i); op_delete(IFL, 4);
  static const char* F[] = { "*", "", "Flow", "*Flow", "*flow*", "FLOW*", "A*", "*b*", "B", "bc", "ONE", "*|x", "c:*", "*ONE*", "E", "01*", "C:000001|X" };
  int pos = pick(0, 5, "part"), k, q, kq, srt; k = pick(0, 16, "filter");
  for (q = 0; q < 6; q++) for (kq = 0; kq < 6; kq++) for (srt = 0; srt < 2; srt++) {
  const char* f[6]; for (int i = 0; i < 6; i++) f[i] = "*"; f[q] = F[kq]; f[pos] = F[k]; char filt[200], *p = filt; *p++ = '/'; for (int i = 0; i < 6; i++) { p = put(p, f[i]); *p++ = '/'; } *p = 0;
  char want[7] = "000000", pt[100]; int n = 0; for (int i = 0; i < 6; i++) { int m = R[i].c.live; for (int j = 0; j < 6; j++) { part(R[i].path, j, pt); m &= spec(pt, f[j]); } if (m) want[i] = '1', n++; }
  if (!srt) { int r = catalog(IFL, filt, want, 0); dsym_assert(r == 0, "filtered catalog lists exactly the matching records"); }
  else { zStructCatalog* c = zstructCatalogNew(); int g = zcatalog(IFL, filt, c, 1), bad = g != n; for (int i = 0; i < 6 && !bad; i++) { int m = 0; for (int j = 0; j < g; j++) m += !cmpci(c->pathnameList[j], R[i].path); if (m != (want[i] == '1')) bad = 1; } dsym_assert(!bad, "sorted filtered catalog lists exactly the matching records"); zstructFree(c); } }
  dsym_cover("end");
}
// many records across many bins, some deleted; sorted order is by parts
void h_many(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); static char nm[320][80]; int n = pick(0, 3, "count"); n = n == 0 ? 20 : n == 1 ? 60 : n == 2 ? 140 : 300; int det = pick(0, 1, "one slot"); if (det && n > 140) dsym_stop(); if (det) zsetFile(IFL, "DETUNE", "", 1); int every = pick(THOROUGH ? 2 : 3, 4, "delete every"), k = 0, pad = det ? pick(0, 5, "name length") : 0;
  for (int i = 0; i < n; i++) { char* p = put(nm[i], "/A/B"); *p++ = '0' + i / 100; *p++ = '0' + i / 10 % 10; *p++ = '0' + i % 10; p = put(p, "/C//E/F"); for (int j = 0; j < 8 * pad; j++) *p++ = 'x'; p = put(p, "/"); *p = 0; zStructTransfer* t = zstructTransferNew(nm[i], 0); int v[3]; dsym_sym(v, 12, "v"); t->values1 = v; t->values1Number = 3; t->dataType = 950; int st = zwrite(IFL, t); dsym_assert(st == 0, "write succeeds"); zstructFree(t); }
  for (int i = 0; i < n; i += every) { zdelete(IFL, nm[i]); k++; }
  dsym_assert(zinquire(IFL, "nrec") == n - k, "record count equals the live records");
  for (int srt = 0; srt < 2; srt++) { zStructCatalog* c = zstructCatalogNew(); int g = zcatalog(IFL, 0, c, srt); dsym_assert(g == n - k, "catalog count"); int bad = 0; static char seen[320]; memset(seen, 0, sizeof seen);
    for (int j = 0; j < g; j++) { int id = (c->pathnameList[j][4] - '0') * 100 + (c->pathnameList[j][5] - '0') * 10 + c->pathnameList[j][6] - '0'; if (id < 0 || id >= n || seen[id] || id % every == 0 || strcmp(nm[id], c->pathnameList[j])) bad = 1; else seen[id] = 1; if (srt && j && strcmp(c->pathnameList[j - 1], c->pathnameList[j]) >= 0) bad = 2; }
    dsym_assert(bad != 1, "catalog lists exactly the live records"); dsym_assert(bad != 2, "sorted catalog is in order"); zstructFree(c); }
  dsym_cover("end");
}
// type selection and status selection
void h_select(void) {
  start(4); for (int i = 0; i < 4; i++) op_write_n(IFL, i, SZ[3], 900 + i); int m = pick(0, 15, "deleted"); for (int i = 0; i < 4; i++) if (m >> i & 1) op_delete(IFL, i);
  int lo = pick(899, 904, "from"), hi; hi = pick(899, 904, "to"); if (hi < lo) dsym_stop(); int k = 0; for (int i = 0; i < 4; i++) k += R[i].c.live && 900 + i >= lo && 900 + i <= hi; int srt = pick(0, 1, "sort");
  zStructCatalog* c = zstructCatalogNew(); c->typeWantedStart = lo; c->typeWantedEnd = hi; int n = zcatalog(IFL, 0, c, srt); dsym_assert(n == k, "type selection lists exactly the live records of those types"); zstructFree(c);
  int del = __builtin_popcount(m), ds = pick(0, 1, "deleted sort"); c = zstructCatalogNew(); c->statusWanted = REC_STATUS_DELETED; n = zcatalog(IFL, 0, c, ds); dsym_assert(n >= 0 && n <= del, "deleted listing never names a live record"); for (int j = 0; j < n; j++) { dsym_assert(c->pathnameList[j] != 0, "deleted listing names every entry"); for (int i = 0; i < 4; i++) if (!cmpci(c->pathnameList[j], P[i])) dsym_assert(m >> i & 1, "deleted listing never names a live record"); } zstructFree(c);
  int r = catalog(IFL, 0, 0, 0); dsym_assert(r == 0, "catalog lists exactly the live records"); r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); dsym_cover("end");
}
// records written or deleted between sorted catalogs of a selection and of everything
void h_select_sorted(void) {
  start(4); for (int i = 0; i < 4; i++) op_write_n(IFL, i, SZ[3], 900 + i); for (int k = 0; k < 3; k++) { int op = pick(0, 8, "op");
    if (op < 4) { int st = R[op].c.live ? op_delete(IFL, op) : op_write_n(IFL, op, SZ[3], 900 + op); dsym_assert(st == 0, "operation succeeds"); }
    else if (op < 6) { zStructCatalog* c = zstructCatalogNew(); c->statusWanted = op == 4 ? REC_STATUS_DELETED : REC_STATUS_ANY; int n = zcatalog(IFL, 0, c, 1); for (int j = 0; j < n; j++) dsym_assert(c->pathnameList[j] != 0, "deleted listing names every entry"); zstructFree(c); }
    else if (op == 6) { zStructCatalog* c = zstructCatalogNew(); c->typeWantedStart = 900; c->typeWantedEnd = 901; int n = zcatalog(IFL, 0, c, 1); dsym_assert(n == R[0].c.live + R[1].c.live, "type selection lists exactly the live records of those types"); for (int j = 0; j < n; j++) { int x = !cmpci(c->pathnameList[j], P[0]) || !cmpci(c->pathnameList[j], P[1]); dsym_assert(x, "type selection lists exactly the live records of those types"); } zstructFree(c); }
    else if (op == 7) { int r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); }
    else { zclose(IFL); openf(IFL, "a.dss"); } }
  int r = sorted(); dsym_assert(r == 0, "sorted catalog lists exactly the live records"); chk(); dsym_cover("end");
}
