// C07: everything stored survives close and reopen in a consistent file
#include "hist.h"
static const char* P[] = { "/A/B/C//E/ONE/", "/A/B/C//E/TWO/", "/A/B/C//E/A LONGER NAME THAN THE OTHERS/", "/MOVED/B/C//E/F/" };
int zcheckFile(long long* ifltab); int zsqueezeNeeded(long long*);
#include <sys/stat.h>
static long fsize(void) { struct stat st; return stat("a.dss", &st) ? -1 : (long)st.st_size; }
static int chkok;
static void check(int deep) {
  for (int i = 0; i < nrec; i++) { int r = agree(IFL, i); if (R[i].c.live) dsym_assert(r == 0, "record survives close and reopen"); else dsym_assert(r == 0, "deleted record stays missing after reopen"); }
  dsym_assert(zinquire(IFL, "nrec") == live(), "record count survives close and reopen"); int r = catalog(IFL, 0, 0, 0); dsym_assert(r == 0, "catalog after reopen");
  if (deep) { r = zcheckFile(IFL); dsym_assert(r == 0, "the library's own file check finds no error"); }

  dsym_assert(fsize() == 8L * (zinquire(IFL, "fsiz") + 2), "the file ends where its header says");
}
static void reopen(int how) { if (how == 2) { zset("MULTI", "", 0); } int st = zclose(IFL); dsym_assert(st == 0, "close succeeds"); memset(IFL, 0, sizeof IFL); st = how == 1 ? zopenExtended(IFL, "a.dss", 7, 0, 1, 0, 0) : hec_dss_zopen(IFL, "a.dss"); dsym_assert(st == 0, "reopen succeeds"); }
static void step(int n, int ncl) {
  static const char cl[] = {3, 9, 2, 6, 0}; int i = pick(0, n - 1, "rec"), op; op = pick(0, ncl + 2, "op"); int st;
  if (op < ncl) { st = op_write(IFL, i, cl[op]); dsym_assert(st == 0, "write succeeds"); }
  else if (op == ncl) { if (!R[i].c.live) dsym_stop(); op_delete(IFL, i); }
  else if (op == ncl + 1) { if (R[i].c.live) dsym_stop(); st = zundelete(IFL, R[i].path); if (st == 0) R[i].c = R[i].undel; }
  else { if (!R[i].c.live || R[3].c.live) dsym_stop(); st = zrename(IFL, R[i].path, R[3].path); dsym_assert(st == 0, "rename succeeds"); R[3].c = R[i].c; R[i].c.live = 0; R[i].undel.live = 0; }
}
static void hist(int steps, int n, int ncl, int each, int lo, int hi) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 4; for (int i = 0; i < 4; i++) R[i].path = P[i]; int rl = pick(lo, hi, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); int how = rl & 1; if (THOROUGH) how = pick(0, 1, "open mode");
  for (int k = 0; k < steps; k++) { step(n, ncl); if (each) { reopen(how); zsetFile(IFL, "RECLAIM", "", rl); check(0); } }
  reopen(how); check(1); reopen(0); check(0); dsym_cover("end");
}
void h_hist3(void) { hist(3, 2, 4, 0, 1, 3); }
void h_each3(void) { hist(3, 2, 2, 1, 1, 3); }
void h_each4(void) { hist(4, 2, 2, 1, 1, 3); }
void h_hist4(void) { hist(4, 2, 3, 0, 1, 3); }
// many records: the file has to stay consistent across block and bin boundaries; the first and the last words are symbolic
void h_many(void) {
  static char nm[420][40]; static int v[420]; int n = pick(0, 4, "count"); static const short N[] = {1, 31, 33, 70, 400}; n = N[n]; int det = pick(0, 1, "one slot"), hs; if (det && n > 100) dsym_stop(); hs = pick(0, 2, "size"); static const short H[] = {1, 40, 600}; int sz = H[hs]; if (n > 100 && sz > 40) dsym_stop();
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); if (det) zsetFile(IFL, "DETUNE", "", 1);
  int* b = calloc(sz, 4); for (int i = 0; i < n; i++) { snprintf(nm[i], 40, "/AREA/LOC %d/FLOW//E/%s/", i, i % 3 ? "F" : "LONGER F PART"); dsym_sym(v + i, 4, "v"); b[0] = v[i]; b[sz - 1] = v[i]; zStructTransfer* t = zstructTransferNew(nm[i], 0); t->values1 = b; t->values1Number = sz; t->dataType = 950; int st = zwrite(IFL, t); dsym_assert(st == 0, "write succeeds"); zstructFree(t); if (i % 50 == 49) { zclose(IFL); openf(IFL, "a.dss"); } }
  for (int i = 0; i < n; i += 5) zdelete(IFL, nm[i]);
  zclose(IFL); dsym_assert(openf(IFL, "a.dss") == 0, "reopen succeeds"); int k = 0;
  for (int i = 0; i < n; i++) { zStructTransfer* t = zstructTransferNew(nm[i], 1); int st = zread(IFL, t); if (i % 5) { k++; int ok = st == 0 && t->values1Number == sz; if (ok) { b[0] = v[i]; b[sz - 1] = v[i]; ok = dsym_memeq(t->values1, b, 4 * sz); } dsym_assert(ok, "record survives close and reopen"); } else dsym_assert(st == STATUS_RECORD_NOT_FOUND, "deleted record stays missing after reopen"); zstructFree(t); }
  dsym_assert(zinquire(IFL, "nrec") == k, "record count survives close and reopen"); int r = zcheckFile(IFL); dsym_assert(r == 0, "the library's own file check finds no error"); dsym_cover("end");
}
