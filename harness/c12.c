// C12: concurrent writers through separate handles lose no records
#include "hist.h"
static const char* P[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/A/B/C//E/F/", "/A/B/C//E/NEW NAME/" };
#include "kinds.h"
static long long IFB[250]; static long long* H[2]; static int pids[2];
static void as(int h) { rt_pid = pids[h]; zdssVals.pid = rt_pid; }
static int openm(int h, int acc) { as(h); memset(H[h], 0, sizeof IFL); zset("MLVL", "", 0); return acc ? zopenExtended(H[h], "a.dss", 7, acc, 0, 0, 0) : hec_dss_zopen(H[h], "a.dss"); }
static void setup(int acc0, int acc1, int layouts, int pre) {
  H[0] = IFL; H[1] = IFB; pids[0] = 100; pids[1] = 200; nrec = 5; for (int i = 0; i < 5; i++) R[i].path = P[i];
  int lay = pick(0, layouts - 1, "layout"), late = lay == 2; int st = openm(0, acc0); zsetFile(IFL, "RECLAIM", "", lay == 1 ? 3 : 1); if (lay) zsetFile(IFL, "DETUNE", "", 1);
  if (!late) st |= openm(1, acc1); as(0); for (int i = 0; i < pre; i++) st |= op_write(IFL, i, 3 + i); if (late) st |= openm(1, acc1); dsym_assert(st == 0, "both handles open");
}
// a lock held by the other process may make an operation fail (may == 1); it must then have changed nothing
static int oper(int may, int h, const char* n2) {
  static const struct { int op, i; } O[] = { {0, 0}, {0, 2}, {2, 0}, {3, 0}, {1, 1}, {2, 1}, {0, 4}, {1, 2}, {1, 0}, {3, 1} };
  int k = pick(0, THOROUGH ? 9 : 6, n2), op = O[k].op, i = O[k].i, st, live = R[i].c.live; as(h); long long* f = H[h]; if (op >= 2 && !live) dsym_stop();
  if (op == 0) st = op_write(f, i, 3); else if (op == 1) st = op_write(f, i, 9); else if (op == 2) st = op_delete(f, i);
  else { st = zrename(f, P[i], P[4]); if (st == 0) { R[4].c = R[i].c; R[i].c.live = 0; } else if (!R[i].c.live) st = 0; }
  if (op == 2 && st && !R[i].c.live) st = 0;       // another process removed the record while this one waited
  if (!may) dsym_assert(st == 0, "an operation succeeds when no lock is held against it"); return st;
}
static void check(const char* lab, int both, int cat) { for (int h = 0; h < 2; h++) { if (!(both & (1 << h))) continue; as(h); for (int i = 0; i < nrec; i++) { int r = agree(H[h], i); if (r) dsym_print("agree", r * 100 + i * 10 + h); dsym_assert(r == 0, lab); } int q = cat ? catalog(H[h], 0, 0, 0) : 0; if (q) dsym_print("catalog", q); dsym_assert(q == 0, "the catalog lists exactly the records that exist"); } }
static int g_crash;
static void leave(int h) { as(h); if (g_crash) rt_droplocks(rt_pid); else zclose(H[h]); }
static void finish(int first) {
  check("both handles see every record as last stored", 3, 0); leave(first); check("the other handle sees every record as last stored", 2 >> first, 1);
  as(1 - first); int st = op_write(H[1 - first], 3, 6); dsym_assert(st == 0, "a write succeeds after the other left"); leave(1 - first); pids[0] = 300; H[0] = IFL; st = openm(0, 0); dsym_assert(st == 0, "the file opens again"); check("reopened: every record is as last stored", 1, 1); as(0); st = zcheckFile(IFL); dsym_assert(st == 0, "the file is consistent"); dsym_cover("end");
}
static int nfail;
static void run(int a, int b, int layouts, int may, int n) {
  static const char* nm[][2] = { {"who 1", "op 1"}, {"who 2", "op 2"}, {"who 3", "op 3"}, {"who 4", "op 4"} }; int h = 0;
  setup(a, b, layouts, 2); for (int k = 0; k < n; k++) { h = k ? pick(0, 1, nm[k][0]) : 1; int st = oper(may, h, nm[k][1]); nfail += st != 0; if (st) check("a refused operation changes nothing", 3, 0); } if (nfail) dsym_cover("refused"); finish(h);
}
void h_multi(void) { run(2, 2, 3, 0, 2); }
void h_default(void) { run(0, 0, 3, 1, 2); }
void h_mixed(void) { int m = pick(0, 1, "modes"); run(m ? 0 : 2, m ? 2 : 0, 2, 1, 2); }
void h_crash(void) { g_crash = 1; run(2, 2, 2, 0, 2); }
void h_three(void) { run(2, 2, THOROUGH ? 3 : 1, 0, 3); }
// the second process waits for its turn while the first performs another operation
static int slept;
static void meanwhile(void) { if (slept++) return; int p = rt_pid; rt_on_sleep = 0; oper(1, 0, "op meanwhile"); as(p == pids[0] ? 0 : 1); }
void h_waits(void) { setup(0, 0, 3, 2); rt_on_sleep = meanwhile; int st = oper(1, 1, "op 1"); rt_on_sleep = 0; if (slept) { dsym_cover("waited"); dsym_assert(st == 0, "a process that waited gets its turn when the other goes on"); } st = oper(1, 0, "op 2"); finish(1); }
// every kind of record, stored by one process and read and replaced by the other
void h_kinds(void) { int m = pick(0, 1, "modes"), k = pick(0, 5, "kind"), w = pick(0, 1, "who"), ac = m ? 2 : 0, st; setup(ac, ac, 1, 2);
  for (int rep = 0; rep < 2; rep++, w = 1 - w) {
    as(w); KF = H[w]; st = store(k, rep); if (st && m == 0) { dsym_cover("refused"); as(1 - w); KF = H[1 - w]; st = op_write(KF, 1, 3); dsym_assert(st == 0, "the process that holds the lock goes on"); as(w); KF = H[w]; st = store(k, rep); } dsym_assert(st == 0, "a record is stored"); 
    as(1 - w); KF = H[1 - w]; int r = fetch(k, rep); dsym_assert(r == 0, "the other process reads it as stored"); st = op_write(KF, 0, 4); if (st && m == 0) { as(w); st = op_write(H[w], 1, 9); dsym_assert(st == 0, "the process that holds the lock goes on"); as(1 - w); st = op_write(KF, 0, 4); } dsym_assert(st == 0, "the other process gets its turn to write");
    as(w); KF = H[w]; r = fetch(k, rep); dsym_assert(r == 0, "its own process reads it as stored"); }
  zclose(H[0]); as(1); zclose(H[1]); st = openm(0, 0); KF = IFL; dsym_assert(st == 0, "the file opens again"); int r = fetch(k, 1); dsym_assert(r == 0, "the record is as last stored"); for (int i = 0; i < nrec; i++) { r = agree(IFL, i); dsym_assert(r == 0, "every record is as last stored"); } st = zcheckFile(IFL); dsym_assert(st == 0, "the file is consistent"); dsym_cover("kinds"); }
