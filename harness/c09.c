// C09: a failing read or write is reported, never turned into wrong data
#include "hist.h"
static const char* P[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/A/B/C//E/F/", "/A/B/C//E/NEW NAME/", "/A/B/C//E/ANOTHER NEW NAME THAT IS LONGER STILL/" };
#include "kinds.h"
static int what, at;
// one of the operation's reads or writes fails (-1) or is cut short; once or from there on
static void arm_(int lo, int hi) { what = pick(lo, 3, "failure"); at = pick(1, hi, "at"); int p = pick(0, 1, "persist"); rt_fail_mode = what & 1; if (what < 2) rt_fail_write_at = at; else rt_fail_read_at = at; rt_fail_persist = p; rt_nreads = rt_nwrites = 0; rt_failed = 0; rt_count_io = 1; }
#define arm(hi) arm_(0, hi)
static void disarm(void) { rt_count_io = 0; rt_fail_write_at = rt_fail_read_at = 0; if (!rt_failed) dsym_stop(); dsym_cover("failed"); }
static void again(void) { rt_droplocks(rt_pid); rt_pid++; int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "the file opens again"); }
static void base(int rl, int detune) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 6; for (int i = 0; i < 6; i++) R[i].path = P[i]; zsetFile(IFL, "RECLAIM", "", rl); if (detune) zsetFile(IFL, "DETUNE", "", 1);
  int st = op_write(IFL, 0, 3); st |= op_write(IFL, 1, 5); st |= op_write(IFL, 2, 1); st |= op_write(IFL, 3, 7); dsym_assert(st == 0, "write succeeds");
}
static void fresh(void) { zclose(IFL); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); }
void h_write(void) {
  int rl = THOROUGH ? pick(1, 3, "reclaim") : 3, dt = pick(0, 1, "sameslot"), i, op, h; base(rl, dt); i = pick(0, 4, "rec"); op = pick(0, 6, "op"); h = pick(0, 1, "deleted"); int alive = R[i].c.live;
  if (h) { if (!alive || (op >= 4 && op != 5)) dsym_stop(); op_delete(IFL, i); } else if (op == 5) dsym_stop(); else if (op >= 4 && !alive) dsym_stop();
  int fr = pick(0, 1, "reopen"); if (fr) { fresh(); if (dt) zsetFile(IFL, "DETUNE", "", 1); zsetFile(IFL, "RECLAIM", "", rl); }
  static const char cl[] = {3, 9, 6, 0}; int st; content old = R[i].c, undel = R[i].undel; arm(12);
  if (op < 4) st = op_write(IFL, i, cl[op]); else if (op == 4) st = op_delete(IFL, i); else if (op == 5) { st = zundelete(IFL, P[i]); if (st == 0) R[i].c = undel; } else { st = zrename(IFL, P[i], P[5]); if (st == 0) { R[5].c = R[i].c; R[i].c.live = 0; } }
  disarm(); (void)old; if (st != 0) { dsym_cover("reported"); dsym_stop(); }
  int r = agree(IFL, i); dsym_assert(r == 0, "success reported: the record is as stored"); if (op == 6) { r = agree(IFL, 5); dsym_assert(r == 0, "success reported: the record is under its new name"); }
  again(); r = agree(IFL, i); dsym_assert(r == 0, "success reported: the record is in the file"); if (op == 6) { r = agree(IFL, 5); dsym_assert(r == 0, "success reported: the record is in the file under its new name"); } dsym_cover("end");
}
void h_read(void) {
  int dt = pick(0, 1, "sameslot"), i, op; base(1, dt); op_delete(IFL, 1); i = pick(0, 4, "rec"); op = pick(0, 5, "op"); int fr = pick(0, 1, "reopen"); if (fr) { fresh(); if (dt) zsetFile(IFL, "DETUNE", "", 1); }
  int warm = pick(0, 1, "read before"); if (warm) { int q = verify(IFL, 0); dsym_assert(q == 0, "readable"); }
  arm_(2, 12); int st, alive = R[i].c.live, ok = 1;
  if (op == 0) { zStructTransfer* t = zstructTransferNew(P[i], 1); st = zread(IFL, t); if (st == 0) ok = alive && same(&R[i].c, t); else if (st == STATUS_RECORD_NOT_FOUND) ok = !alive; zstructFree(t); }
  else if (op == 1) { st = zcheck(IFL, P[i]); if (st == STATUS_RECORD_FOUND) ok = alive; else if (st == STATUS_RECORD_NOT_FOUND) ok = !alive; }
  else if (op == 2) { st = zdataType(IFL, P[i]); if (st > 0) ok = alive && st == TYPE; else if (st == 0) ok = 0; else if (st == STATUS_RECORD_NOT_FOUND) ok = !alive; }
  else if (op == 3) { zStructCatalog* c = zstructCatalogNew(); st = zcatalog(IFL, 0, c, 0); if (st >= 0) { ok = st == live(); for (int k = 0; k < nrec && ok; k++) if (R[k].c.live) { int m = 0; for (int j = 0; j < c->numberPathnames; j++) m += !cmpci(c->pathnameList[j], R[k].path); ok = m == 1; } } zstructFree(c); }
  else if (op == 4) { zStructRecordBasics* b = zstructRecordBasicsNew(P[i]); st = zgetRecordBasics(IFL, b); if (st == 0) ok = alive && b->recordType == TYPE; else if (st == STATUS_RECORD_NOT_FOUND) ok = !alive; zstructFree(b); }
  else { zStructRecordSize* z = zstructRecordSizeNew(P[i]); st = zgetRecordSize(IFL, z); if (st == 0) ok = alive && z->values1Number == R[i].c.n[A_V1]; else if (st == STATUS_RECORD_NOT_FOUND) ok = !alive; zstructFree(z); }
  disarm(); dsym_assert(ok, "a failed read is not taken for an answer"); dsym_cover("end");
}
void h_open(void) {
  int rl = pick(1, 3, "reclaim"), fresh1 = pick(0, 1, "new"); if (!fresh1) { base(rl, 0); zclose(IFL); } else { nrec = 1; R[0].path = P[0]; } 
  arm(12); int st = openf(IFL, "a.dss"); disarm(); if (st != 0) { dsym_cover("reported"); rt_droplocks(rt_pid); rt_pid++; st = openf(IFL, "a.dss"); if (fresh1) dsym_stop(); dsym_assert(st == 0, "the file opens once the disk works again"); }
  for (int i = 0; i < nrec; i++) { int r = agree(IFL, i); dsym_assert(r == 0, "opened: the records are there"); } st = op_write(IFL, 0, 2); if (st == 0) { again(); int r = agree(IFL, 0); dsym_assert(r == 0, "success reported: the record is in the file"); } dsym_cover("end");
}
static void apiw(int persist) {
  (void)persist; int k = pick(0, 6, "kind"), prior = pick(0, 1, "there before"), rep, fr; rep = pick(0, 1, "variant"); fr = pick(0, 1, "reopen"); base(1, 0); int st = 0;
  if (prior) { st = store(k, !rep); dsym_assert(st == 0, "stored"); st = fetch(k, !rep); if (k == 6) R[4].c = R[3].c; dsym_assert(st == 0 || k == 6, "reads back"); } if (fr) fresh();
  arm(24); st = store(k, rep); disarm(); if (k == 6) R[4].c = R[3].c; if (st != 0) { dsym_cover("reported"); dsym_stop(); }
  st = fetch(k, rep); dsym_assert(st == 0, "success reported: the data reads back"); again(); st = fetch(k, rep); dsym_assert(st == 0, "success reported: the data is in the file"); dsym_cover("end");
}
void h_store(void) { apiw(0); }
void h_fetch(void) {
  int k = pick(0, 5, "kind"), rep = pick(0, 1, "variant"), fr = pick(0, 1, "reopen"); base(1, 0); int st = store(k, rep); dsym_assert(st == 0, "stored"); if (fr) fresh(); arm_(2, 24); st = fetch(k, rep); disarm(); dsym_assert(st != 1, "a failed read is not taken for data"); if (st) dsym_cover("reported"); else dsym_cover("end");
}
