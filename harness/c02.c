// C02: operations on one record never change another
#include "hist.h"
static const char* P[] = { "/A/B/C//E/ONE/", "/A/B/C//E/TWO/", "/A/B/C//E/THREE/", "/A LONGER PATHNAME THAN ALL OTHERS/IN THIS FILE/C//E/TWO MORE WORDS/" };
static void chk(int except, const char* lab) { for (int i = 0; i < nrec; i++) if (i != except && R[i].c.live) { int r = verify(IFL, i); dsym_assert(r == 0, r == 2 ? "another record's content changed" : lab); } }
static int step(int classes) {
  int i = pick(0, 2, "rec"), op = pick(0, classes + 2, "op");
  if (op < classes) { static const char cl[] = {0,3,9,6,10,1,2,7}; int st = op_write(IFL, i, cl[op]); dsym_assert(st == 0, "write succeeds"); }
  else if (op == classes) { int was = R[i].c.live; int st = op_delete(IFL, i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); }
  else if (op == classes + 1) { if (!R[i].everDeleted || R[i].c.live) dsym_stop(); int st = zundelete(IFL, R[i].path); if (st == 0) { R[i].c = R[i].undel; R[i].everDeleted = 0; } }
  else { if (!R[i].c.live || R[3].c.live) dsym_stop(); int st = zrename(IFL, R[i].path, R[3].path); dsym_assert(st == 0, "rename succeeds"); R[3].c = R[i].c; R[i].c.live = 0; }
  return i;
}
static void hist(int steps, int classes, int lo, int hi) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 4; for (int i = 0; i < 4; i++) R[i].path = P[i];
  int rl = pick(lo, hi, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  for (int i = 0; i < 3; i++) dsym_assert(op_write(IFL, i, 3) == 0, "write succeeds");
  for (int k = 0; k < steps; k++) { int i = step(classes); chk(i, "another record became unreadable"); }
  dsym_cover("end");
}
void h_two(void) { hist(2, 8, 1, 3); }
void h_three(void) { hist(3, 4, 2, 2); }
void h_three_all(void) { hist(3, 4, 1, 3); }
void h_four(void) { hist(4, 2, 2, 2); }
// a record with headers and several data parts is resized twice in front of another record
void h_resize(void) {
  static const short Z[][NARR] = {{20,10,20,40,0,0}, {20,10,20,20,0,0}, {20,10,20,60,0,0}, {4,0,0,60,0,0}, {0,30,0,30,10,10}, {0,0,2,92,0,0}, {8,8,8,8,8,8}, {1,0,0,89,0,0}, {2,2,2,40,40,6}};
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 2; R[0].path = P[0]; R[1].path = P[1]; int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); int a = pick(0, 8, "first"), b = pick(0, 8, "second"), c = pick(0, 8, "third");
  int s0 = op_write_n(IFL, 0, Z[a], TYPE), s1 = op_write_n(IFL, 1, SZ[1], TYPE); dsym_assert(s0 == 0 && s1 == 0, "write succeeds"); s0 = op_write_n(IFL, 0, Z[b], TYPE); dsym_assert(s0 == 0, "write succeeds"); chk(0, "another record became unreadable"); s0 = op_write_n(IFL, 0, Z[c], TYPE); dsym_assert(s0 == 0, "write succeeds"); chk(0, "another record became unreadable"); chk(-1, "record unreadable"); dsym_cover("end");
}
// a large record's space is freed (deleted, or moved when it grows) and reused piece by piece for records of several sizes
void h_reclaim(void) {
  static const short Z[][NARR] = {{0,0,0,700,0,0}, {4,2,6,1000,0,0}, {3,0,1,201,40,1501}, {0,0,0,150,0,0}, {0,0,0,161,0,0}, {6,3,2,331,0,0}, {0,1,0,0,0,480}};
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = NREC; static const char* Q[NREC] = { "/A/B/C//E/ONE/", "/A/B/C//E/TWO/", "/A/B/C//E/THREE/", "/A/B/C//E/FOUR/", "/A/B/C//E/FIVE WITH MORE/", "/A/B/C//E/SIX/" }; for (int i = 0; i < NREC; i++) R[i].path = Q[i];
  int rl = pick(2, 3, "reclaim"), big = pick(0, 2, "freed"), how = pick(0, 1, "how"), re = pick(0, 1, "reopen"); zsetFile(IFL, "RECLAIM", "", rl); if (how == 0 && rl == 2) dsym_stop();
  int s0 = op_write_n(IFL, 0, Z[big], TYPE), s1 = op_write_n(IFL, 1, SZ[1], TYPE); dsym_assert(s0 == 0 && s1 == 0, "write succeeds");
  if (how == 0) { s0 = op_delete(IFL, 0); dsym_assert(s0 == 0, "delete succeeds"); } else { static const short G[NARR] = {4, 2, 6, 3000, 1000, 900}; s0 = op_write_n(IFL, 0, G, TYPE); dsym_assert(s0 == 0, "write succeeds"); }
  chk(-1, "another record became unreadable"); if (re) { zclose(IFL); s0 = openf(IFL, "a.dss"); dsym_assert(s0 == 0, "open"); zsetFile(IFL, "RECLAIM", "", rl); }
  for (int k = 2; k < 5; k++) { int z = pick(3, 6, "size"); s0 = op_write_n(IFL, k, Z[z], TYPE); dsym_assert(s0 == 0, "write succeeds"); chk(k, "another record became unreadable"); }
  s0 = op_write_n(IFL, 3, Z[0], TYPE); dsym_assert(s0 == 0, "write succeeds"); s0 = op_write_n(IFL, 5, Z[3], TYPE); dsym_assert(s0 == 0, "write succeeds"); chk(-1, "record unreadable"); dsym_cover("end");
}
