// C21: retrieval writes only inside the caller's buffers.  Every buffer is a heap block of exactly the size passed, so any access outside it is found by the executor (and by ASAN in the replay).
#include "hist.h"
#define DF ((dss_file*)IFL)
static const char* P21[] = { "/A/L/FLOW//1Month/V/", "/A/L/STAGE//IR-Month/V/", "/A/L/FLOW-DAMAGE///V/", "/A/L/NOTE///V/", "/A/L/X///V/", "/SHG/L/PRECIP/01JAN2000:0100/01JAN2000:0200/V/" };
static void start(void) { g_nsym = 0; int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); }
static char* txt(int n, int seed, const char* nm) { char* p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = 'a' + (i * 7 + seed) % 26; p[n] = 0; if (nm && n) { dsym_sym(p + n - 1, 1, nm); dsym_assume((p[n - 1] > 32) & (p[n - 1] < 127)); } return p; }
static void* buf(int n) { char* p = malloc(n); for (int i = 0; i < n; i++) p[i] = 0x55; return p; }
static int untouched(const void* p, int from, int n) { const unsigned char* b = p; int ok = 1; for (int i = from; i < n; i++) ok &= b[i] == 0x55; return ok; }
// a text of src in a buffer of n bytes: whole and terminated when it fits, otherwise as much as fits, terminated
static void str(const char* b, int n, const char* src) {
  if (n <= 0) return; int l = strlen(src), k = l < n ? l : n - 1; if (l == 0) { dsym_assert(b[0] == 0 || untouched(b, 0, n), "an empty text"); return; }
  dsym_assert(dsym_memeq(b, src, k), "the text, as far as it fits"); dsym_assert(b[k] == 0, "terminated"); dsym_assert(untouched(b, k + 1, n), "nothing after the text");
}
static void end(void) { zclose(IFL); dsym_cover("end"); }
// the bounded copy itself, every length of source and destination, any bytes
void h_copy(void) {
  int n = pick(0, 6, "destination"), l, len; l = pick(0, 6, "source"); len = pick(0, 8, "length"); char* d = buf(n); char* s = malloc(l + 1); if (l) dsym_sym(s, l, "bytes"); s[l] = 0; int z = 0; while (s[z]) z++;
  int r = stringCopy(d, n, s, len), k = z < len ? z : len; if (k > n - 1) k = n - 1; if (n == 0) { dsym_assert(r == 0, "nothing is copied to an empty buffer"); dsym_cover("end"); return; } dsym_assert(r == k, "the length copied"); dsym_assert(dsym_memeq(d, s, k), "the bytes copied"); dsym_assert(d[k] == 0, "terminated"); dsym_assert(untouched(d, k + 1, n), "nothing after the end"); dsym_cover("end");
}
void h_catalog(void) {
  static const char* N[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE AND MORE/", "/B/OTHER/C//E/F/" }; start(); nrec = 3; for (int i = 0; i < 3; i++) { R[i].path = N[i]; int st = op_write(IFL, i, i); dsym_assert(st == 0, "write"); }
  int count = pick(0, 4, "count"), item, flt; item = pick(0, 26, "item size"); flt = pick(0, 1, "filter"); if (!THOROUGH && item > 2 && item < 13) dsym_stop(); char* b = buf(count * item); int* t = buf(4 * count); int n = hec_dss_catalog(DF, b, t, flt ? "/A/*/*/*/*/*/" : 0, count, item), all; all = flt ? 2 : 3;
  dsym_assert(n == (count < all ? count : all), "number of pathnames that fit"); int seen = 0; for (int i = 0; i < n; i++) { dsym_assert(t[i] == 900 || t[i] == TYPE, "record type"); if (!item) continue; int f = 0; for (int j = 0; j < all; j++) { int l = strlen(N[j]), k = l < item ? l : item - 1; if (!(seen >> j & 1) && !strncmp(b + i * item, N[j], k) && b[i * item + k] == 0 && untouched(b, i * item + k + 1, (i + 1) * item)) { seen |= 1 << j; f = 1; break; } } dsym_assert(f, "a pathname of the file, as far as it fits, terminated"); }
  dsym_assert(untouched(b, n * item, count * item) && untouched(t, 4 * n, 4 * count), "nothing after the last pathname"); dsym_assert(hec_dss_record_count(DF) == 3, "record count"); end();
}
// a series stored with or without quality
static double V[16]; static int T[16], Q[32];
static int putts(int irr, int n, int qw, int flt, const char* u, const char* ty, const char* z) {
  const char* p = P21[irr]; static float F[16]; for (int i = 0; i < n; i++) { V[i] = i + 0.5; F[i] = i + 0.5f; T[i] = (i * 5 + 1) * 1440; Q[2 * i] = Q[2 * i + 1] = 0; } for (int i = 0; i < n * qw; i++) Q[i] = 3 + i;
  zStructTimeSeries* t = irr ? flt ? zstructTsNewIrregFloats(p, F, n, T, 60, "01Jan2000", u, ty) : zstructTsNewIrregDoubles(p, V, n, T, 60, "01Jan2000", u, ty) : flt ? zstructTsNewRegFloats(p, F, n, "31Jan2000", "2400", u, ty) : zstructTsNewRegDoubles(p, V, n, "31Jan2000", "2400", u, ty);
  if (qw) { t->quality = Q; t->qualityElementSize = qw; t->qualityArraySize = n * qw; } t->timeZoneName = (char*)z; int st = ztsStore(IFL, t, 0); zstructFree(t); return st;
}
static void getts(int irr, int n, int qw, int size, int width, int all, const int* cap, char* const* s) {
  int m = size > 0 ? size : 0, got = -7, jb = -7, tg = -7; int* t = buf(4 * m); double* v = buf(8 * m); int* q = width ? buf(4 * m * width) : 0; char* b[3]; for (int i = 0; i < 3; i++) b[i] = buf(cap[i]);
  int st = hec_dss_tsRetrieve(DF, P21[irr], all ? 0 : "01Jan2000", all ? 0 : "0100", all ? 0 : "31Dec2009", all ? 0 : "2400", t, v, size, &got, q, width, &jb, &tg, b[0], cap[0], b[1], cap[1], b[2], cap[2]); dsym_assert(st == 0, "retrieved");
  int full = irr || all ? n : 120; dsym_assert(got == (m < full ? m : full), "number of values that fit"); for (int i = 0; i < got && i < n; i++) { dsym_assert(v[i] == V[i], "values"); if (width == 1 && qw == 1) dsym_assert(q[i] == Q[i], "quality"); if (width == 1 && !qw) dsym_assert(q[i] == 0, "no quality stored: zero"); } for (int i = n; i < got; i++) dsym_assert(v[i] == -3.4028234663852886e+38, "missing values");
  dsym_assert(untouched(t, 4 * got, 4 * m) && untouched(v, 8 * got, 8 * m), "nothing after the last value"); if (width) dsym_assert(untouched(q, 4 * got * width, 4 * m * width), "nothing after the last quality");
  for (int i = 0; i < 3; i++) str(b[i], cap[i], s[i]); for (int i = 0; i < 3; i++) free(b[i]); free(t); free(v); free(q);
}
void h_ts_values(void) { // every array size, with and without quality
  start(); int irr = pick(0, 1, "irregular"), qw, flt, width, all; qw = pick(0, 1 + THOROUGH, "stored quality"); flt = pick(0, 1, "floats"); width = pick(0, 1 + (qw == 2), "quality width"); all = pick(0, 1, "whole record"); int size = pick(-1, 8, "array size"); char* s[3] = { "CFS", "INST-VAL", "PST" }; int st = putts(irr, 6, qw, flt, s[0], s[1], s[2]); dsym_assert(st == 0, "stored"); static const int cap[3] = { 8, 9, 4 }; getts(irr, 6, qw, size, width, all, cap, s); end();
}
void h_ts_window(void) { // a regular window longer than the data and the buffers
  start(); int qw = pick(0, 1, "stored quality"), width, size; width = pick(0, 1, "quality width"); size = pick(0, 2, "array size"); static const int SZ_[] = { 119, 120, 121 }; char* s[3] = { "CFS", "INST-VAL", "PST" }; int st = putts(0, 6, qw, 0, s[0], s[1], s[2]); dsym_assert(st == 0, "stored"); static const int cap[3] = { 8, 9, 4 }; getts(0, 6, qw, SZ_[size], width, 0, cap, s); end();
}
static void lens(int n, int k, int* l, int* cap, int max) { int w = pick(0, k - 1, "which"), a, c; a = pick(0, max, "length"); c = pick(0, max + 2, "buffer"); static const int A[] = { 2, 0, 5, 3, 1, 4 }, C[] = { 3, 4, 2, 0, 9, 1 }; for (int i = 0; i < n; i++) { l[i] = i == w ? a : A[(i + a) % 6]; cap[i] = i == w ? c : C[(i + c) % 6]; } }
void h_ts_texts(void) {
  start(); int irr = pick(0, 1, "irregular"), l[3], cap[3]; lens(3, 3, l, cap, THOROUGH ? 20 : 9); char* s[3]; for (int i = 0; i < 3; i++) s[i] = txt(l[i], i, i == 0 ? "units" : i == 1 ? "type" : "zone"); int st = putts(irr, 3, 0, 0, s[0], s[1], s[2]); dsym_assert(st == 0, "stored"); getts(irr, 3, 0, 3, 0, 1, cap, s);
  char* u = buf(cap[0]); char* t = buf(cap[1]); st = hec_dss_tsRetrieveInfo(DF, irr ? "/A/L/STAGE/01Jan2000/IR-Month/V/" : "/A/L/FLOW/01Jan2000/1Month/V/", u, cap[0], t, cap[1]); dsym_assert(st == 0, "information"); str(u, cap[0], s[0]); str(t, cap[1], s[1]); end();
}
// paired data
static double PO_[8], PV[16];
static int putpd(int no, int nc, char* const* s, const char* lab, int ll, const char* z) { for (int i = 0; i < 8; i++) PO_[i] = i; for (int i = 0; i < 16; i++) PV[i] = 100 + i; return hec_dss_pdStore(DF, P21[2], PO_, no, PV, no * nc, no, nc, s[0], s[1], s[2], s[3], ll ? lab : 0, ll, z); }
static void getpd(int no, int nc, int on, int vn, char* const* s, const int* cap, const char* lab, int ll, int lcap) {
  double* o = buf(8 * on); double* v = buf(8 * vn); char* b[5]; for (int i = 0; i < 5; i++) b[i] = buf(cap[i]); char* lb = buf(lcap); int a = -7, c = -7; int st = hec_dss_pdRetrieve(DF, P21[2], o, on, v, vn, &a, &c, b[0], cap[0], b[1], cap[1], b[2], cap[2], b[3], cap[3], lb, lcap, b[4], cap[4]);
  if (on != no || vn != no * nc) { dsym_assert(st != 0, "wrong sizes are reported"); dsym_assert(untouched(o, 0, 8 * on) && untouched(v, 0, 8 * vn), "and nothing is written"); }
  else { dsym_assert(st == 0, "retrieved"); dsym_assert(a == no && c == nc && dsym_memeq(o, PO_, 8 * no) && dsym_memeq(v, PV, 8 * no * nc), "ordinates and values"); for (int i = 0; i < 5; i++) str(b[i], cap[i], s[i]); int k = ll < lcap ? ll : lcap; dsym_assert(dsym_memeq(lb, lab, k), "labels, as far as they fit"); dsym_assert(untouched(lb, k, lcap), "nothing after the labels"); }
  for (int i = 0; i < 5; i++) free(b[i]); free(o); free(v); free(lb);
}
void h_pd_sizes(void) { start(); int no = pick(1, 3, "ordinates"), nc, on, vn, lc; nc = pick(1, 3, "curves"); on = pick(0, 4, "ordinate buffer"); vn = pick(0, 10, "value buffer"); lc = pick(0, 1, "label buffer"); char* s[5] = { "CFS", "UNT", "$", "LOG", "PST" }; static const int cap[5] = { 4, 4, 2, 4, 4 }; static const int LL[] = { 0, 2, 5, 7 }; int ll = LL[nc]; int st = putpd(no, nc, s, "A\0BC\0D", ll, s[4]); dsym_assert(st == 0, "stored"); getpd(no, nc, on, vn, s, cap, "A\0BC\0D", ll, lc ? ll : 0); end(); }
void h_pd_texts(void) {
  start(); int l[6], cap[6]; lens(6, 6, l, cap, THOROUGH ? 20 : 7); char* s[6]; static const char* SN[] = { "units 1", "type 1", "units 2", "type 2", "zone", "labels" }; for (int i = 0; i < 6; i++) s[i] = txt(l[i], i, SN[i]); int ll = l[5] ? l[5] + 1 : 0; int st = putpd(3, 2, s, s[5], ll, s[4]); dsym_assert(st == 0, "stored"); int lc = cap[5]; getpd(3, 2, 3, 6, s, cap, s[5], ll, lc);
  char* b[4]; for (int i = 0; i < 4; i++) b[i] = buf(cap[i]); int a = -7, c = -7, n = -7; st = hec_dss_pdRetrieveInfo(DF, P21[2], &a, &c, b[0], cap[0], b[2], cap[2], b[1], cap[1], b[3], cap[3], &n); dsym_assert(st == 0 && a == 3 && c == 2, "information"); dsym_assert(n == ll, "room needed for the labels"); for (int i = 0; i < 4; i++) str(b[i], cap[i], s[i]); end();
}
void h_location(void) {
  start(); int l[2], cap[2]; lens(2, 2, l, cap, THOROUGH ? 30 : 9); char* s[2]; for (int i = 0; i < 2; i++) s[i] = txt(l[i], i, i ? "supplemental" : "zone"); int st = hec_dss_locationStore(DF, P21[0], 1.5, 2.5, 3.5, 1, 2, 3, 1, 2, 1, s[0], s[1], 1); dsym_assert(st == 0, "stored");
  char* b[2]; for (int i = 0; i < 2; i++) b[i] = buf(cap[i]); double x[3]; int c[6]; st = hec_dss_locationRetrieve(DF, P21[0], x, x + 1, x + 2, c, c + 1, c + 2, c + 3, c + 4, c + 5, b[0], cap[0], b[1], cap[1]); dsym_assert(st == 0 && x[0] == 1.5 && c[0] == 1, "retrieved"); for (int i = 0; i < 2; i++) str(b[i], cap[i], s[i]); end();
}
static void getgrid(int data, int nx, int ny, int nr, float* rng, int* his, float* d, char* const* s, const int* cap, int rn, int dn) {
  char* b[5]; for (int i = 0; i < 5; i++) b[i] = buf(cap[i]); int q[11]; float f[7]; float* r = buf(4 * rn); int* h = buf(4 * rn); float* g = buf(4 * dn); int st = hec_dss_gridRetrieve(DF, P21[5], data, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8, q + 9, q + 10, b[0], cap[0], b[1], cap[1], b[2], cap[2], b[3], cap[3], b[4], cap[4], f, f + 1, f + 2, f + 3, f + 4, f + 5, f + 6, r, rn, h, g, dn); dsym_assert(st == 0 && q[4] == nx && q[5] == ny && q[6] == nr, "retrieved");
  for (int i = 0; i < 5; i++) str(b[i], cap[i], s[i]); int k = data ? nr < rn ? nr : rn : 0, m = data ? nx * ny < dn ? nx * ny : dn : 0; dsym_assert(dsym_memeq(r, rng, 4 * k) && dsym_memeq(h, his, 4 * k) && dsym_memeq(g, d, 4 * m), "as much as fits"); dsym_assert(untouched(r, 4 * k, 4 * rn) && untouched(h, 4 * k, 4 * rn) && untouched(g, 4 * m, 4 * dn), "nothing after it");
}
static void grid(int nx, int ny, int nr, char* const* s, const int* cap, int data, int rn, int dn) { float rng[4], d[12]; int his[4]; for (int i = 0; i < 4; i++) { rng[i] = i * 2; his[i] = 50 - i; } for (int i = 0; i < 12; i++) d[i] = i; int st = hec_dss_gridStore(DF, P21[5], 420, 1, 3, 4, nx, ny, nr, 1, 0, 1, 0, 0, s[0], s[1], s[2], s[3], s[4], 1, 2, 3, 4, 5, 6, 7, rng, his, d); dsym_assert(st == 0, "stored"); getgrid(data, nx, ny, nr, rng, his, d, s, cap, rn, dn); }
void h_grid_sizes(void) { start(); int nx = pick(1, 3, "columns"), ny, nr, data; ny = pick(1, 2, "rows"); nr = pick(0, 3, "ranges"); data = pick(0, 1, "data"); int rn = pick(0, 4, "range buffer"), dn; dn = pick(0, 7, "data buffer"); if (!THOROUGH && rn != dn % 5 && dn != nx * ny) dsym_stop(); char* s[5] = { "MM", "SRC", "SRS", "DEFINITION", "UTC" }; static const int cap[5] = { 3, 4, 4, 11, 4 }; rt_zpad = (nx + ny) % 4; grid(nx, ny, nr, s, cap, data, rn, dn); end(); }
void h_grid_texts(void) { start(); int l[5], cap[5]; lens(5, 5, l, cap, THOROUGH ? 20 : 7); char* s[5]; static const char* SN[] = { "units", "source", "srs", "definition", "zone" }; for (int i = 0; i < 5; i++) s[i] = txt(l[i], i, SN[i]); grid(2, 1, 2, s, cap, 1, 2, 2); end(); }
void h_array(void) {
  start(); static const int N[] = { 0, 1, 3 }; int n[3], c[3]; for (int i = 0; i < 3; i++) n[i] = N[pick(0, 2, i == 0 ? "ints" : i == 1 ? "floats" : "doubles")]; if (n[0] + n[1] + n[2] == 0) dsym_stop(); for (int i = 0; i < 3; i++) c[i] = pick(0, 4, i == 0 ? "int buffer" : i == 1 ? "float buffer" : "double buffer"); if (!THOROUGH && c[0] != c[1] && c[1] != c[2] && (c[0] + c[1] + c[2]) % 3) dsym_stop(); int I[4]; float F[4]; double D[4]; for (int i = 0; i < 4; i++) { I[i] = 10 + i; F[i] = 20 + i; D[i] = 30 + i; }
  int st = hec_dss_arrayStore(DF, P21[4], I, n[0], F, n[1], D, n[2]), r[3] = { -7, -7, -7 }; dsym_assert(st == 0, "stored"); st = hec_dss_arrayRetrieveInfo(DF, P21[4], r, r + 1, r + 2); dsym_assert(st == 0 && r[0] == n[0] && r[1] == n[1] && r[2] == n[2], "sizes");
  int* a = buf(4 * c[0]); float* f = buf(4 * c[1]); double* d = buf(8 * c[2]); st = hec_dss_arrayRetrieve(DF, P21[4], a, c[0], f, c[1], d, c[2]); int small = 0, k[3]; for (int i = 0; i < 3; i++) { small |= c[i] > 0 && c[i] < n[i]; k[i] = c[i] < n[i] ? c[i] : n[i]; } dsym_assert(small ? st == HEC_DSS_BUFFER_TOO_SMALL : st == 0, "what does not fit is reported");
  dsym_assert(dsym_memeq(a, I, 4 * k[0]) && dsym_memeq(f, F, 4 * k[1]) && dsym_memeq(d, D, 8 * k[2]), "as much as fits"); dsym_assert(untouched(a, 4 * k[0], 4 * c[0]) && untouched(f, 4 * k[1], 4 * c[1]) && untouched(d, 8 * k[2], 8 * c[2]), "nothing after it"); end();
}
void h_text(void) { start(); int n = pick(1, THOROUGH ? 40 : 18, "length"), c; c = pick(0, THOROUGH ? 42 : 20, "buffer"); char* s = malloc(n); for (int i = 0; i < n; i++) s[i] = 'a' + i % 26; dsym_sym(s + n - 1, 1, "last character"); dsym_assume(s[n - 1] != 0); int st = hec_dss_textStore(DF, P21[3], s, n); dsym_assert(st == 0, "stored"); char* b = buf(c); st = hec_dss_textRetrieve(DF, P21[3], b, c); int k = n < c ? n : c; dsym_assert(n > c ? st == HEC_DSS_BUFFER_TOO_SMALL : st == 0, "what does not fit is reported"); dsym_assert(dsym_memeq(b, s, k), "as much as fits"); if (n < c) dsym_assert(b[n] == 0, "terminated"); dsym_assert(untouched(b, k + 1, c), "nothing after it"); end(); }
// records that are missing or of another kind: an error, and nothing written outside the buffers
void h_wrong(void) {
  start(); int k = pick(-1, 4, "stored"), f, c; f = pick(0, 8, "asked"); c = pick(0, 3, "buffers"); const char* p = "/A/L/C//E/V/"; int I[3] = { 1, 2, 3 }, st = 0; double D[3] = { 1, 2, 3 }; char* u[5]; for (int i = 0; i < 5; i++) u[i] = buf(c); int* ib = buf(4 * c); int* ib2 = buf(4 * c); double* db = buf(8 * c); double* db2 = buf(8 * c); float* fb = buf(4 * c); float* fb2 = buf(4 * c); int x[12]; float y[8]; double z[3]; for (int i = 0; i < 12; i++) x[i] = -7;
  if (k == 0) { p = P21[0]; st = hec_dss_tsStoreRegular(DF, p, "31Jan2000", "2400", D, 3, 0, 0, 0, "CFS", "INST-VAL", "PST", 0); } else if (k == 1) st = hec_dss_pdStore(DF, p, D, 3, D, 3, 3, 1, "CFS", "UNT", "$", "UNT", "AB", 3, "PST"); else if (k == 2) st = hec_dss_textStore(DF, p, "some text", 9); else if (k == 3) st = hec_dss_arrayStore(DF, p, I, 3, 0, 0, D, 3); else if (k == 4) { float F[4] = { 1, 2, 3, 4 }; int H[2] = { 4, 2 }; p = P21[5]; st = hec_dss_gridStore(DF, p, 420, 1, 3, 4, 2, 2, 2, 1, 0, 1, 0, 0, "MM", "S", "R", "D", "Z", 1, 2, 3, 4, 5, 6, 7, F, H, F); } dsym_assert(st == 0, "stored");
  if (f == 0) st = hec_dss_tsRetrieve(DF, p, "31Jan2000", "2400", "31Mar2000", "2400", ib, db, c, x, ib2, c > 0, x + 1, x + 2, u[0], c, u[1], c, u[2], c);
  else if (f == 1) st = hec_dss_tsRetrieveInfo(DF, p, u[0], c, u[1], c);
  else if (f == 2) st = hec_dss_pdRetrieve(DF, p, db, c, db2, c, x, x + 1, u[0], c, u[1], c, u[2], c, u[3], c, u[4], c, 0, 0);
  else if (f == 3) { st = hec_dss_pdRetrieveInfo(DF, p, x, x + 1, u[0], c, u[1], c, u[2], c, u[3], c, x + 2); }
  else if (f == 4) st = hec_dss_textRetrieve(DF, p, u[0], c);
  else if (f == 5) st = hec_dss_arrayRetrieve(DF, p, ib, c, fb, c, db, c);
  else if (f == 6) st = hec_dss_arrayRetrieveInfo(DF, p, x, x + 1, x + 2);
  else if (f == 7) st = hec_dss_gridRetrieve(DF, p, 1, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7, x + 8, x + 9, x + 10, u[0], c, u[1], c, u[2], c, u[3], c, u[4], c, y, y + 1, y + 2, y + 3, y + 4, y + 5, y + 6, fb, c, ib, fb2, c);
  else st = hec_dss_locationRetrieve(DF, p, z, z + 1, z + 2, x, x + 1, x + 2, x + 3, x + 4, x + 5, u[0], c, u[1], c);
  static const int of[] = { 0, 0, 1, 1, 2, 3, 3, 4, 5 }; if (of[f] != k) { dsym_assert(st != 0, "a missing record or another kind is an error"); if (f == 0) dsym_assert(x[0] == 0, "no values"); dsym_assert(untouched(ib, 0, 4 * c) && untouched(db, 0, 8 * c) && untouched(fb, 0, 4 * c) && untouched(fb2, 0, 4 * c), "no data is written"); } end();
}
