// C30: an alias reaches its primary record and only that
#include "hist.h"
int zaliasAdd(long long*, const char*, const char*); int zaliasRemove(long long*, const char*); int zaliasRemoveAll(long long*, const char*); int zaliasGetPrimary(long long*, const char*, char*, size_t); int zaliasList(long long*, const char*, char**, int*); int zaliasNumber(long long*, const char*);
static const char* P[] = { "/A/B1/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/A/B/C//E/F/" };
static const char* A[] = { "/A/AP/C//E/ONE/", "/AN/ALIAS/LONGER THAN THE PATHNAME OF ANY RECORD/01JAN2000/E/F/", "/A/S///E/X/", "/A/B/C//E/G/" };
#define NA 4
static int to[NA], ord[NA], na, g_ord; // alias -> record, order added
static int nal(int i) { int k = 0; for (int a = 0; a < na; a++) k += to[a] == i; return k; }
static int rdof(const char* p, int i) { if (zcheck(IFL, p) != STATUS_RECORD_FOUND) return 1; return rd(IFL, p, &R[i].c); }
static int lists(const char* p, int i) { // primary first, then every alias once
  char* l = 0; int len = 0, n = zaliasList(IFL, p, &l, &len), k = 0; if (n != 1 + nal(i) || !l) return 1;
  char* s = l; int ok = !cmpci(s, R[i].path); s += strlen(s) + 1; for (int a = 0; a < na; a++) { } for (int j = 1; j < n; j++) { for (int a = 0; a < na; a++) if (to[a] == i && !cmpci(s, A[a])) k++; s += strlen(s) + 1; }
  ok &= s - l == len && k == n - 1; for (int a = 0; a < na; a++) if (to[a] == i) { int f = 0; s = l; for (int j = 0; j < n; j++) { f += !cmpci(s, A[a]); s += strlen(s) + 1; } ok &= f == 1; } free(l); return !ok;
}
static void chk(void) {
  char b[400]; int nl = 0;
  for (int i = 0; i < nrec; i++) { int r = agree(IFL, i); if (R[i].c.live) dsym_assert(r == 0, "primary intact"); else dsym_assert(r == 0, "missing record stays missing"); if (R[i].c.live) { r = zaliasNumber(IFL, R[i].path); dsym_assert(r == nal(i), "number of aliases"); r = lists(R[i].path, i); dsym_assert(r == 0, "list of aliases"); } }
  for (int a = 0; a < na; a++) { int r; if (to[a] < 0) { r = dead(IFL, A[a]); dsym_assert(r == 0, "removed alias is gone"); continue; } nl++;
    r = rdof(A[a], to[a]); dsym_assert(r == 0, "an alias reads the primary's content"); memset(b, 'x', sizeof b); r = zaliasGetPrimary(IFL, A[a], b, sizeof b); dsym_assert(r == 0 && !cmpci(b, R[to[a]].path), "primary of an alias"); r = lists(A[a], to[a]); dsym_assert(r == 0, "list of aliases, asked by alias"); r = zdataType(IFL, A[a]); dsym_assert(r == R[to[a]].c.type, "type through an alias"); }
  dsym_assert(zinquire(IFL, "nrec") == live() + nl, "record count with aliases");
}
static void cat(void) { zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(IFL, 0, c, 0), w = 0, bad = 0; for (int i = 0; i < nrec + na; i++) { int l = i < nrec ? R[i].c.live : to[i - nrec] >= 0, m = 0; for (int j = 0; j < n; j++) m += !cmpci(c->pathnameList[j], i < nrec ? R[i].path : A[i - nrec]); w += l; bad |= m != l; } zstructFree(c); dsym_assert(n == w && !bad, "catalog lists records and aliases"); }
static void add(int i, int a) {
  int st = zaliasAdd(IFL, R[i].path, A[a]); if (!R[i].c.live || to[a] >= 0) dsym_assert(st != 0, "alias refused"); else { dsym_assert(st == 0, "alias added"); to[a] = i; ord[a] = g_ord++; }
}
static void rem(int a) { int st = zaliasRemove(IFL, A[a]); if (to[a] >= 0) { dsym_assert(st == 0, "alias removed"); to[a] = -1; } else dsym_assert(st != 0, "removing a missing alias fails"); }
static void base(int recs, int aliases) { dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = recs; na = aliases; for (int a = 0; a < na; a++) to[a] = -1; for (int i = 0; i < recs; i++) { R[i].path = P[i]; int st = op_write(IFL, i, i == 0 ? 3 : i == 1 ? 5 : 2); dsym_assert(st == 0, "write succeeds"); } }
// up to four aliases of two records added and removed in every order
static void hist(int recs, int als, int steps, int ops) {
  int rl = pick(1, 3, "reclaim"), dt; dt = pick(0, 1, "sameslot"); base(recs, als); zsetFile(IFL, "RECLAIM", "", rl); if (dt) zsetFile(IFL, "DETUNE", "", 1);
  for (int k = 0; k < steps; k++) { int op = pick(0, recs * als + als + recs - 1 + ops * recs, "op"); if (op < recs * als) add(op / als, op % als); else if ((op -= recs * als) < als) rem(op); else if ((op -= als) < recs) { int st = zaliasRemoveAll(IFL, R[op].path), n = nal(op); dsym_assert(!R[op].c.live ? st < 0 : n ? st == n : st <= 0, "all aliases removed"); for (int a = 0; a < als; a++) if (to[a] == op) to[a] = -1; }
    else { op -= recs; int i = op % recs, o = op / recs, st; if (o == 0) { st = op_write(IFL, i, 9); dsym_assert(st == 0, "write succeeds"); } else if (o == 1) { int was = R[i].c.live; st = op_delete(IFL, i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); if (was) for (int a = 0; a < als; a++) if (to[a] == i) to[a] = -1; } else { st = op_write(IFL, i, 3); dsym_assert(st == 0, "write succeeds"); } }
    chk(); }
  cat(); zclose(IFL); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); chk(); cat(); dsym_cover("end");
}
void h_add_remove(void) { hist(1, 3, 3 + THOROUGH, 0); }
void h_two(void) { hist(2, 2, 3, 0); }
void h_write(void) { hist(1, 2, 3, 3); }
// what is written, renamed or deleted through an alias or under an aliased record
static int wr_as(int i, const char* p, int cls) { const char* o = R[i].path; R[i].path = p; int st = op_write(IFL, i, cls); R[i].path = o; return st; }
static void mix(int step2) {
  int full = THOROUGH || !step2, rl = pick(full ? 1 : 2, full ? 3 : 2, "reclaim"), dt, n, st = 0; dt = pick(!full, 1, "sameslot"); n = full ? pick(1, 3, "aliases") : 2; base(3, 3); R[2].c.live = 0; zdelete(IFL, P[2]); zsetFile(IFL, "RECLAIM", "", rl); if (dt) zsetFile(IFL, "DETUNE", "", 1);
  int own = pick(0, 1, "owner"); for (int a = 0; a < n; a++) add(own, a);
  for (int k = 0; k <= step2; k++) { int op = pick(0, 8, "op"), a; a = pick(0, n - 1, "alias"); int i = to[a];
    if (op == 0) { int c = pick(0, 2, "size"); static const char cl[] = {3, 9, 2}; if (i < 0) { st = -1; continue; } st = wr_as(i, A[a], cl[c]); dsym_assert(st == 0, "writing through an alias succeeds"); }
    else if (op == 1) { if (i < 0) continue; st = zdelete(IFL, A[a]); dsym_assert(st == 0, "deleting through an alias"); R[i].c.live = 0; for (int b = 0; b < na; b++) if (to[b] == i) to[b] = -1; }
    else if (op == 2) { if (!R[own].c.live) continue; st = zaliasAdd(IFL, R[!own].path, R[own].path); dsym_assert(st != 0, "an alias over a record is refused"); }
    else if (op == 3) { if (!R[own].c.live) continue; st = zaliasAdd(IFL, R[own].path, R[own].path); dsym_assert(st != 0, "an alias over the record itself is refused"); }
    else if (op == 4) { st = zaliasRemove(IFL, R[own].path); dsym_assert(st != 0, "removing a record as an alias is refused"); }
    else if (op == 5) { if (R[2].c.live) continue; st = zaliasAdd(IFL, P[2], "/AN/ALIAS/OF/NOTHING///"); dsym_assert(st != 0, "an alias of a missing record is refused"); }
    else if (op == 6) { st = op_write(IFL, 2, 10); dsym_assert(st == 0, "write succeeds"); }
    else if (op == 7) { int c = pick(0, 2, "size"); static const char cl[] = {8, 9, 0}; st = op_write(IFL, own, cl[c]); dsym_assert(st == 0, "write succeeds"); }
    else { st = zaliasRemoveAll(IFL, A[a]); if (i < 0) { dsym_assert(st < 0, "removing all of a missing alias"); continue; } dsym_assert(st == nal(i), "all aliases removed, asked by alias"); for (int b = 0; b < na; b++) if (to[b] == i) to[b] = -1; }
    chk(); }
  cat(); zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); chk(); cat(); int bad = zcheckFile(IFL); dsym_assert(bad == 0, "file check"); dsym_cover("end");
}
void h_through(void) { mix(0); }
void h_through2(void) { mix(1); }
// renaming
void h_rename(void) {
  int n, w, st; n = pick(1, 3, "aliases"); w = pick(0, 3, "which"); base(2, 3); for (int a = 0; a < n; a++) add(0, a);
  if (w == 0) { st = zrename(IFL, P[0], "/A/NEW/C//E/F/"); if (st == 0) R[0].path = "/A/NEW/C//E/F/"; }
  else if (w == 1) { st = zrename(IFL, P[0], "/A/NEW AND LONGER THAN ANY OF THE OTHERS/C//E/F/"); if (st == 0) R[0].path = "/A/NEW AND LONGER THAN ANY OF THE OTHERS/C//E/F/"; }
  else if (w == 2) { st = zrename(IFL, P[1], A[0]); dsym_assert(st != 0, "renaming a record to an alias is refused"); }
  else { st = zrename(IFL, A[0], A[3]); if (st == 0) { dsym_cover("alias renamed"); A[0] = A[3]; } }
  chk(); cat(); dsym_cover("end");
}
void h_dup(void) {
  int n, w, st; n = pick(1, 3, "aliases"); w = pick(0, 3, "which"); base(2, 3); for (int a = 0; a < n; a++) add(0, a);
  nrec = 3; R[2].path = P[2]; memset(&R[2].c, 0, sizeof R[2].c);
  if (w == 0) { st = zduplicateRecord(IFL, A[0], P[2]); dsym_assert(st == 0, "duplicating through an alias"); R[2].c = R[0].c; }
  else if (w == 1) { st = zduplicateRecord(IFL, P[0], P[2]); dsym_assert(st == 0, "duplicating an aliased record"); R[2].c = R[0].c; }
  else if (w == 2) { st = zduplicateRecord(IFL, P[1], A[0]); dsym_assert(st == 0, "duplicating to an alias"); R[0].c = R[1].c; }
  else { st = zcopyRecord(IFL, IFL, A[0], P[2]); dsym_assert(st == 0, "copying through an alias"); R[2].c = R[0].c; }
  chk(); cat(); dsym_cover("end");
}
void h_undelete(void) {
  int n, st; n = pick(1, 3, "aliases"); base(2, 3); for (int a = 0; a < n; a++) add(0, a); st = op_delete(IFL, 0); dsym_assert(st == 0, "delete"); for (int a = 0; a < n; a++) to[a] = -1; chk();
  st = zundelete(IFL, P[0]); dsym_assert(st == 0, "undelete"); R[0].c = R[0].undel; chk(); int a = pick(0, 2, "again"); add(0, a); chk(); cat(); dsym_cover("end");
}
void h_squeeze(void) {
  int n, st; n = pick(1, 3, "aliases"); base(2, 3); for (int a = 0; a < n; a++) add(a & 1, a); zclose(IFL); st = zsqueeze("a.dss"); dsym_assert(st == 0, "squeeze succeeds"); st = openf(IFL, "a.dss"); chk(); cat(); dsym_cover("end");
}
// names: every length of primary and alias, with the other records around them moved
void h_length(void) {
  static char a[400], b[400]; int l = pick(0, 17, "primary"), m; m = pick(0, 17, "alias"); for (int k = 0; k < 2; k++) { char* p = k ? b : a; int n = k ? m : l; strcpy(p, k ? "/R/" : "/P/"); if (n == 17) n = 379; for (int j = 0; j < n; j++) strcat(p, j && j % 76 == 0 && j < 379 ? "/" : "Q"); int s = 0; for (char* q = p; *q; q++) s += *q == '/'; while (s++ < 7) strcat(p, "/"); }
  P[0] = a; A[0] = b; base(2, 2); add(0, 0); chk(); add(0, 1); chk(); int st = op_write(IFL, 0, 9); st |= op_write(IFL, 1, 9); dsym_assert(st == 0, "write succeeds"); chk(); int w = pick(0, 1, "first"); rem(w); chk(); st = op_write(IFL, 0, 6); dsym_assert(st == 0, "write succeeds"); chk(); rem(!w); chk(); add(1, 0); chk(); cat(); dsym_cover("end");
}
// names that share their hash with the primary, a record, or another alias
void h_collide(void) {
  static const char* N[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE/", "/B1/A/C//E/ONE/", "/AP/A/C//E/ONE/" }; int o = pick(0, 3, "order"), st; for (int a = 0; a < 3; a++) A[a] = N[(o + a + 1) & 3]; P[0] = N[o]; base(2, 3);
  for (int k = 0; k < 4 + THOROUGH; k++) { int op = pick(0, 6, "op"); if (op < 3) add(0, op); else if (op < 6) rem(op - 3); else { st = op_write(IFL, 0, k & 1 ? 9 : 3); dsym_assert(st == 0, "write succeeds"); } chk(); } cat(); dsym_cover("end");
}
// letter case
void h_case(void) { base(2, 1); int st = zaliasAdd(IFL, "/a/b1/c//e/one/", "/a/ap/c//e/one/"); dsym_assert(st == 0, "alias added"); to[0] = 0; chk(); st = zaliasAdd(IFL, P[1], "/A/ap/C//E/One/"); dsym_assert(st != 0, "alias refused"); chk(); st = zaliasAdd(IFL, P[1], "/a/B1/c//e/one/"); dsym_assert(st != 0, "alias refused"); chk(); st = zaliasRemove(IFL, "/a/AP/c//e/ONE/"); dsym_assert(st == 0, "alias removed"); to[0] = -1; chk(); dsym_cover("end"); }
