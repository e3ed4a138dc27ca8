// C03: pathnames identify records
#include "hist.h"
static int wr(int i, int cls) { int st = op_write(IFL, i, cls); dsym_assert(st == 0, "write succeeds"); return st; }
static void all(const char* lab) { for (int i = 0; i < nrec; i++) { int r = verify(IFL, i); dsym_assert(r == 0, lab); } }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// letter case: any mixture of cases names the same record
void h_case(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); static const char* base[] = { "/ab1/z-|~//e x/Qq//", "/A{B}/`~/[c]/Dz/E@/^_y/", "/basin one/loc/flow//1Hour/C:000001|run x/" };
  int b = pick(0, 2, "base"); char p[80], q[80]; strcpy(p, base[b]); strcpy(q, base[b]); int n = strlen(p);
  // two positions take a symbolic case in the stored and in the asked name; the rest is all upper, all lower or as is
  int m = pick(0, 2, "rest"); for (int i = 0; i < n; i++) if (m == 1) p[i] = up(p[i]); else if (m == 2) q[i] = up(q[i]);
  int k = pick(0, n - 1, "pos"); if (up(p[k]) < 'A' || up(p[k]) > 'Z') dsym_stop(); char c = 0, d = 0; dsym_sym(&c, 1, "c"); dsym_sym(&d, 1, "d"); dsym_assume(up(c) == up(p[k]) && up(d) == up(q[k])); c = dsym_concretize(c); d = dsym_concretize(d); p[k] = c; q[k] = d;
  R[0].path = p; nrec = 1; wr(0, 1); R[0].path = q; all("found under another letter case"); wr(0, 2); R[0].path = p; all("same record under both letter cases");
  zStructRecordSize rs; (void)rs; dsym_assert(zinquire(IFL, "NREC") == 1, "one record only"); dsym_cover("end");
}
// one differing character of any value at any position names a different record
void h_char(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); char p[] = "/ab1/c d//E-f/g2/HH/", q[] = "/ab1/c d//E-f/g2/HH/"; int n = strlen(p);
  int k = pick(1, n - 2, "pos"); if (p[k] == '/') dsym_stop(); int c = pick(32, 126, "c"); if (c == '/' || up(c) == up(p[k])) dsym_stop(); if (c == ' ' && (p[k - 1] == '/' || p[k + 1] == '/')) dsym_stop();
  q[k] = c; nrec = 2; R[0].path = p; R[1].path = q; wr(0, 1); int r = verify(IFL, 1); dsym_assert(r == 0, "other name is not found"); wr(1, 2); all("both names keep their own record"); dsym_assert(zinquire(IFL, "NREC") == 2, "two records");
  int s = op_delete(IFL, 0); dsym_assert(s == 0, "delete succeeds"); all("deleting one name leaves the other"); dsym_cover("end");
}
// names that share bin and pathname hash: members of one collection whose sequence parts have equal polynomial hashes
static const char* COL[] = { "/A/B/C//E/C:00AP00|X/", "/A/B/C//E/C:00B100|X/", "/A/B/C//E/C:00B101|X/", "/A/B/C//E/C:00AP01|X/", "/A/B/C//E/C:00AP00|A LONGER NAME/", "/A/B/C//E/C:00B100|A LONGER NAME/" };
static void step(int n, int ncl) {
  int i = pick(0, n - 1, "rec"), op; op = pick(0, ncl + 1, "op");
  if (op < ncl) wr(i, op == 0 ? 0 : op == 1 ? 2 : 5);
  else if (op == ncl) { int was = R[i].c.live; int st = op_delete(IFL, i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); }
  else { if (!R[i].everDeleted || R[i].c.live) dsym_stop(); int st = zundelete(IFL, R[i].path); if (st == 0) { R[i].c = R[i].undel; R[i].everDeleted = 0; } }
  all("every name reaches its own record");
}
static void coll(int steps, int ncl) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); int d = pick(0, 1, "sameslot"); if (d) zsetFile(IFL, "DETUNE", "", 1);
  nrec = 4; R[0].path = COL[0]; R[1].path = COL[1]; R[2].path = COL[4]; R[3].path = COL[2];
  for (int k = 0; k < steps; k++) step(nrec, ncl);
  dsym_assert(zinquire(IFL, "NREC") == live(), "record count"); dsym_cover("end");
}
void h_collide(void) { coll(4, 1); }
void h_collide5(void) { coll(5, 2); }
// more records in one hash slot than fit in a bin: names of several lengths, in every order of a few deletes and writes
static char NM[40][400]; static content C[40];
// a pathname of exactly l characters whose last part ends with the number i
static void name(int i, int l) { char* p = NM[i]; int body = l - 7, k = 0; p[k++] = '/'; for (int a = 0; a < 6; a++) { int m = body / 6 + (a < body % 6); for (int j = 0; j < m; j++) p[k++] = 'K'; if (a == 5) { p[k - 1] = '0' + i % 10; p[k - 2] = '0' + i / 10; } p[k++] = '/'; } p[k] = 0; }
static void slot(int n, int total, const short* len, int steps) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); zsetFile(IFL, "DETUNE", "", 1); int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  for (int i = 0; i < total; i++) name(i, len[i]);
  for (int i = 0; i < n; i++) { R[0].path = NM[i]; wr(0, 0); C[i] = R[0].c; }
  for (int k = 0; k < steps; k++) { int i = pick(0, total - 1, "rec"); R[0].path = NM[i]; R[0].c = C[i]; if (C[i].live) { int w = pick(0, 1, "w"); if (w) wr(0, 2); else { int st = op_delete(IFL, 0); dsym_assert(st == 0, "delete succeeds"); } } else wr(0, 0); C[i] = R[0].c;
    for (int j = 0; j < total; j++) { R[0].path = NM[j]; R[0].c = C[j]; int q = verify(IFL, 0); dsym_assert(q == 0, "every name in a full slot reaches its own record"); } }
  dsym_cover("end");
}
void h_slot_long(void) { static const short L[] = { 391, 300, 391, 300, 391, 130, 300, 131, 388, 308 }; slot(6, 10, L, 2 + THOROUGH); }
void h_slot_short(void) { static const short L[] = { 20, 40, 70, 20, 40, 71, 21, 45, 70, 20, 40, 77, 24, 48, 72, 20 }; slot(13, 16, L, 2); }
// new names written into the slot after names of other lengths were deleted
void h_slot_new(void) { static const short L[] = { 300, 300, 300, 300, 300, 60, 60, 60, 150, 296, 304, 200 }; slot(7, 12, L, 2 + THOROUGH); }
void h_slot_fit(void) { static const short L[] = { 120, 120, 120, 120, 120, 120, 120, 120, 120, 121, 113, 112, 180 }; slot(9, 13, L, 2 + THOROUGH); }
