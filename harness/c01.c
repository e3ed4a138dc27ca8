// C01: a record read back equals the record last written
#include "hist.h"
static const char* PA[] = { "/A/B/C//E/ONE/", "/A/B/C/D/E/F/", "/ /B/C//E/ /", "//////" };
// every part fully symbolic, every combination of small sizes
void h_content(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 1; R[0].path = PA[0]; g_nsym = 2;
  static const short z[] = {0, 1, 2, 3}; short n[NARR]; int type = sym_int("type"); dsym_assume(type > 0 && type < 1000000);
  int v = pick(0, 3, "v1"); n[A_V1] = z[v]; v = pick(0, 3, "ih"); n[A_IH] = z[v]; v = pick(0, 1, "h2"); n[A_H2] = z[v ? 3 : 0]; v = pick(0, 2, "uh"); n[A_UH] = z[v]; v = pick(0, 1, "v2"); n[A_V2] = v; v = pick(0, 2, "v3"); n[A_V3] = v ? 3 - v : 0;
  dsym_assert(op_write_n(IFL, 0, n, type) == 0, "write succeeds");
  int t2 = 0; t2 = zdataType(IFL, R[0].path); dsym_assert(t2 == type, "data type query");
  int r = verify(IFL, 0); dsym_assert(r != 1, "record found"); dsym_assert(r != 2, "content as written"); dsym_cover("end");
}
// every word of a longer record symbolic
void h_words(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 1; R[0].path = PA[1];
  int n = pick(0, 3, "n"); n = n == 0 ? 1 : n == 1 ? 40 : n == 2 ? 257 : 1500; int a = pick(0, 5, "part");
  content* c = &R[0].c; memset(c, 0, sizeof *c); c->live = 1; c->type = TYPE; c->n[a] = n; c->d[a] = malloc(4 * n); dsym_sym(c->d[a], 4 * n, "data");
  if (a == A_UH && n % 2) dsym_assume((c->d[a][0] & 0xff) == 0);
  zStructTransfer* t = zstructTransferNew(R[0].path, 0); t->dataType = TYPE; int* num; int** f = fld(t, a, &num); *num = n; *f = c->d[a];
  dsym_assert(zwrite(IFL, t) == 0, "write succeeds"); zstructFree(t);
  int r = verify(IFL, 0); dsym_assert(r != 1, "record found"); dsym_assert(r != 2, "content as written");
  zclose(IFL); dsym_assert(openf(IFL, "a.dss") == 0, "reopen"); r = verify(IFL, 0); dsym_assert(r != 1, "record found"); dsym_assert(r != 2, "content as written"); dsym_cover("end");
}
static int wr(int i, int cls) { int st = op_write(IFL, i, cls); dsym_assert(st == 0, "write succeeds"); int r = verify(IFL, i); dsym_assert(r != 1, "record found"); dsym_assert(r != 2, "content as last written"); return r; }
// one record rewritten with every order of sizes
static void rewr(int steps, int ncl) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 1; R[0].path = PA[0]; int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  for (int k = 0; k < steps; k++) { int c = pick(0, ncl - 1, "class"); wr(0, c); }
  dsym_cover("end");
}
void h_rewrite3(void) { rewr(3, 11); }
void h_rewrite4(void) { rewr(4, 11); }
// two records interleaved, so that a record that outgrows its place moves behind the other
void h_rewrite_two(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 2; R[0].path = PA[0]; R[1].path = PA[1]; int rl = pick(1, 2, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  for (int k = 0; k < 4; k++) { int i = k == 0 ? 0 : k == 1 ? 1 : pick(0, 1, "rec"), c; c = pick(0, 10, "class"); if (k < 2 && c > 3 + THOROUGH) dsym_stop(); if (k >= 2 && !THOROUGH && (c == 4 || c == 7 || c == 8)) dsym_stop(); wr(i, c); }
  int r = verify(IFL, 0) | verify(IFL, 1); dsym_assert(r == 0, "both records intact"); dsym_cover("end");
}
// record sizes across the write-buffer and record-size limits
void h_sizes(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 1; R[0].path = PA[0]; g_nsym = 2;
  static const short big[] = { 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2047, 2048, 2500, 4095, 4096, 4100, 8192, 10000, 20000, 32000 };
  short n[NARR] = {0}; int a = pick(0, 5, "part"), s; s = pick(0, 22, "size"); n[a] = big[s];
  int b = pick(0, 1, "other"); if (b) { n[A_IH] += 5; n[A_V1] += 11; }
  dsym_assert(op_write_n(IFL, 0, n, TYPE) == 0, "write succeeds"); int r = verify(IFL, 0); dsym_assert(r != 1, "record found"); dsym_assert(r != 2, "content as written");
  wr(0, 2); n[A_V2] = 77; dsym_assert(op_write_n(IFL, 0, n, TYPE) == 0, "write succeeds"); r = verify(IFL, 0); dsym_assert(r == 0, "content as last written"); dsym_cover("end");
}
// pathname lengths
void h_paths(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 2; int len = pick(0, 60, "len"); char* p = malloc(400), *q; char part[6][70];
  int tot = 0; for (int k = 0; k < 6; k++) { int l = k == 0 ? len : k == 2 ? 60 - len : k == 5 ? (len * 7) % 61 : k == 3 ? 0 : (len * 13) % 61; for (int j = 0; j < l; j++) part[k][j] = 'A' + (j * 7 + k) % 26; part[k][l] = 0; }
  sprintf(p, "/%s/%s/%s/%s/%s/%s/", part[0], part[1], part[2], part[3], part[4], part[5]); q = malloc(400); strcpy(q, p); q[1] = q[1] == '/' ? 'Z' : q[1] + 1; if (p[1] == '/') { strcpy(q, "/Z"); strcat(q, p + 1); }
  R[0].path = p; R[1].path = q; wr(0, 2); wr(1, 5); int r = verify(IFL, 0); dsym_assert(r == 0, "first record intact"); wr(0, 3); r = verify(IFL, 1); dsym_assert(r == 0, "second record intact"); dsym_cover("end");
}
// arrays supplied by the caller: zwritec/zreadc; stored lengths 0..5, room 2..6 words in exactly sized arrays
static int NS[NARR]; static int* D[NARR];
static void supplied(int x) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 1; static const char* nm[] = {"ih", "h2", "uh", "v1", "v2", "v3"};
  int n = pick(0, 5, "n"), m; m = pick(0, 5, "m"); int room = pick(2, 6, "room"); int a = pick(0, 5, "a");
  for (int k = 0; k < NARR; k++) { NS[k] = k == a ? n : k % 2 ? m : (n + m) % 4; D[k] = malloc(4 * NS[k] + 4); if (NS[k]) dsym_sym(D[k], 4 * NS[k], nm[k]); }
  if (NS[A_UH]) dsym_assume((D[A_UH][0] & 0xff) == 0);
  int st = zwritec(IFL, PA[0], D[A_IH], NS[A_IH], D[A_H2], NS[A_H2], D[A_V3], NS[A_V3], D[A_UH], NS[A_UH], D[A_V1], NS[A_V1], D[A_V2], NS[A_V2], NS[A_V1], NS[A_V1], 0, 0, TYPE);
  dsym_assert(st == 0, "write succeeds");
  int* o[NARR]; int on[NARR] = {-1, -1, -1, -1, -1, -1}; for (int k = 0; k < NARR; k++) { o[k] = malloc(4 * room); memset(o[k], 0x5a, 4 * room); }
  int nv, lnv, ta, te, dt = 0;
  st = zreadc(IFL, PA[0], o[A_IH], room, &on[A_IH], o[A_H2], room, &on[A_H2], o[A_V3], room, &on[A_V3], o[A_UH], room, &on[A_UH], o[A_V1], room, &on[A_V1], o[A_V2], room, &on[A_V2], &nv, &lnv, &ta, &te, &dt);
  dsym_assert(st == STATUS_RECORD_FOUND && dt == TYPE, "record found");
  for (int k = 0; k < NARR; k++) { int want = NS[k] < room ? NS[k] : room; dsym_assert(on[k] == want, "lengths as written"); dsym_assert(!want || dsym_memeq(o[k], D[k], 4 * want), "content as written"); }
  dsym_cover("end"); (void)x;
}
void h_supplied(void) { supplied(0); }
