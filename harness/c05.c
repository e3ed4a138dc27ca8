// C05: rename moves a record unchanged
#include "hist.h"
static const char* P[] = { "/A/B/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/A/B/C//E/F/", "/a/B/c//E/One/", "/A/B/C//E/TWO/", "/A/B/C//E/FIFTEENCHARS8/" };
static int idx(const char* a, int skip) { for (int i = 0; i < nrec; i++) if (i != skip && !cmpci(R[i].path, a)) return i; return -1; }
static void chk(void) { for (int i = 0; i < nrec; i++) { int r = agree(IFL, i); if (R[i].c.live) dsym_assert(r == 0, "live record intact"); else dsym_assert(r == 0, "missing record stays missing"); } dsym_assert(zinquire(IFL, "nrec") == live(), "record count"); }
static void ren(int i, int j) {
  int st = zrename(IFL, R[i].path, R[j].path);
  if (!R[i].c.live) dsym_assert(st == STATUS_RECORD_NOT_FOUND, "renaming a missing record fails");
  else if (st == 0) { if (i != j) { R[j].c = R[i].c; R[i].c.live = 0; } }
  else dsym_assert(R[j].c.live && i != j, "rename to a free name succeeds");
}
static void hist(int names, int steps, int ncl, int lo, int hi) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 0; for (int i = 0; i < 6 && nrec < names; i++) if (i != 3) R[nrec++].path = P[i];
  int rl = pick(lo, hi, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); int st = op_write(IFL, 0, 3); st |= op_write(IFL, 1, 5); st |= op_write(IFL, 2, 2); dsym_assert(st == 0, "write succeeds");
  for (int k = 0; k < steps; k++) { int i = pick(0, nrec - 1, "rec"), op; op = pick(0, nrec + ncl, "op");
    if (op < nrec) ren(i, op); else if (op == nrec) { int was = R[i].c.live; st = op_delete(IFL, i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); } else { static const char cl[] = {3, 9, 2, 10}; st = op_write(IFL, i, cl[op - nrec - 1]); dsym_assert(st == 0, "write succeeds"); }
    chk(); }
  dsym_cover("end");
}
void h_ren2(void) { hist(5, 2, 4, 1, 3); }
void h_ren3(void) { hist(4, 3, 1, 1, 3); }
void h_ren4(void) { hist(4, 4, 1, 2, 2); }
// a rename that only changes letter case
void h_case(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 2; R[0].path = P[0]; R[1].path = P[4]; int b = pick(0, 10, "class"); op_write(IFL, 0, b); op_write(IFL, 1, 3); int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  int miss = pick(0, 1, "missing"); if (miss) { op_delete(IFL, 0); }
  int st = zrename(IFL, P[0], P[3]); dsym_assert(st == (miss ? STATUS_RECORD_NOT_FOUND : 0), "case rename status"); chk();
  if (!miss) { zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(IFL, 0, c, 0), f = 0; for (int i = 0; i < n; i++) f += !strcmp(c->pathnameList[i], P[3]); dsym_assert(n == 2 && f == 1, "the catalog shows the new letter case"); zstructFree(c); }
  st = op_write(IFL, 0, 9); dsym_assert(st == 0, "write succeeds"); chk(); dsym_cover("end");
}
// every pair of name lengths, then writes of other records around the moved one
void h_length(void) {
  static char a[400], b[400]; dsym_assert(openf(IFL, "a.dss") == 0, "open"); int l = pick(0, 17, "from"), m; m = pick(0, 17, "to"); for (int k = 0; k < 2; k++) { char* p = k ? b : a; int n = k ? m : l; strcpy(p, "/P/"); for (int j = 0; j < n; j++) strcat(p, "Q"); strcat(p, "/////"); if (k) p[1] = 'R'; }
  nrec = 3; R[0].path = a; R[1].path = b; R[2].path = P[0]; int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); op_write(IFL, 0, 7); op_write(IFL, 2, 3); ren(0, 1); dsym_assert(R[1].c.live, "rename succeeds"); chk(); op_write(IFL, 0, 3); chk(); op_write(IFL, 1, 9); chk(); op_delete(IFL, 1); chk(); op_write(IFL, 2, 7); chk(); dsym_cover("end");
}
