// C04: deleted records disappear, undelete brings them back intact
#include "hist.h"
int zundeleteAll(long long *ifltab);
static const char* P[] = { "/A/B/C//E/ONE/", "/A/B/C//E/TWO/", "/A/B/C//E/THREE/", "/MOVED TO/SOMEWHERE ELSE/C//E/A LONGER NAME/" };
static const char cl[] = { 3, 9, 10, 2, 6, 0 };
static void chk(void) { for (int i = 0; i < nrec; i++) { int r = agree(IFL, i); if (R[i].c.live) dsym_assert(r == 0, "live record intact"); else dsym_assert(r == 0, "deleted record is missing from every query"); } }
static void del(int i) { int was = R[i].c.live; int st = op_delete(IFL, i); if (was) dsym_assert(st == 0, "delete succeeds"); else dsym_assert(st == STATUS_RECORD_NOT_FOUND, "second delete reports the record missing"); }
static void step(int n, int ncl, int ren) {
  int i = pick(0, n - 1, "rec"), op; op = pick(0, ncl + 1 + ren, "op");
  if (op < ncl) { int st = op_write(IFL, i, cl[op]); dsym_assert(st == 0, "write succeeds"); }
  else if (op == ncl) del(i);
  else if (op == ncl + 1) { int was = R[i].c.live; int st = zundelete(IFL, R[i].path); if (st == 0) { dsym_cover("undeleted"); dsym_assert(!was && R[i].undel.live, "undelete succeeds only for a deleted record"); R[i].c = R[i].undel; R[i].everDeleted = 0; int r = verify(IFL, i); dsym_assert(r == 0, "undeleted record has its content"); } }
  else { if (!R[i].c.live || R[3].c.live) dsym_stop(); int st = zrename(IFL, R[i].path, R[3].path); dsym_assert(st == 0, "rename succeeds"); R[3].c = R[i].c; R[i].c.live = 0; R[i].undel.live = 0; }
  chk();
}
static void hist(int steps, int n, int ncl, int ren, int lo, int hi) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 4; for (int i = 0; i < 4; i++) R[i].path = P[i];
  int rl = pick(lo, hi, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  for (int i = 0; i < n; i++) { int st = op_write(IFL, i, 3); dsym_assert(st == 0, "write succeeds"); }
  for (int k = 0; k < steps; k++) step(n, ncl, ren);
  dsym_assert(zinquire(IFL, "nrec") == live(), "record count"); dsym_cover("end");
}
void h_del4(void) { hist(4, 2, 2, 0, 1, 3); }
void h_del3(void) { hist(3, 3, 4, 1, 1, 3); }
void h_del5(void) { hist(5, 2, 2, 0, 1, 3); }
void h_del4b(void) { hist(4, 3, 3, 1, 1, 3); }
// deleted, then other records written until the space is used again, then undeleted
void h_reuse(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 4; for (int i = 0; i < 4; i++) R[i].path = P[i]; int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  int c = pick(0, 5, "class"); op_write(IFL, 0, cl[c]); op_write(IFL, 1, 3); del(0); int n = pick(0, 2, "writes"), u; u = pick(0, 1, "reopen"); if (u) { zclose(IFL); dsym_assert(openf(IFL, "a.dss") == 0, "reopen"); }
  for (int k = 0; k < n; k++) { int d = pick(0, 5, "class"); int st = op_write(IFL, 2 + k, cl[d]); dsym_assert(st == 0, "write succeeds"); }
  int st = zundelete(IFL, P[0]); if (st == 0) { dsym_cover("undeleted"); R[0].c = R[0].undel; }
  chk(); int d = pick(0, 5, "class"); st = op_write(IFL, 1, cl[d]); dsym_assert(st == 0, "write succeeds"); chk(); d = pick(0, 2, "class"); st = op_write(IFL, 3, cl[d]); dsym_assert(st == 0, "write succeeds"); chk();
  dsym_assert(zinquire(IFL, "nrec") == live(), "record count"); dsym_cover("end");
}
// undelete all
void h_undelete_all(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 4; for (int i = 0; i < 4; i++) R[i].path = P[i]; zsetFile(IFL, "RECLAIM", "", 1);
  for (int i = 0; i < 4; i++) op_write(IFL, i, cl[i]); int k = 0, m = pick(0, 15, "set"), w; w = pick(0, 3, "rewrite"); for (int i = 0; i < 4; i++) if (m >> i & 1) { del(i); k++; }
  if (m >> w & 1) { op_write(IFL, w, 2); k--; }
  int n = zundeleteAll(IFL); dsym_assert(n >= 0, "undelete all succeeds"); for (int i = 0; i < 4; i++) if (!R[i].c.live) { R[i].c = R[i].undel; int r = verify(IFL, i); dsym_assert(r == 0, "undelete all restores every deleted record"); } else { int r = verify(IFL, i); dsym_assert(r == 0, "undelete all leaves live records alone"); }
  dsym_assert(zinquire(IFL, "nrec") == live(), "record count"); dsym_cover("end");
}
