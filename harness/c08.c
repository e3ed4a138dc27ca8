// C08: a writer killed between any two of its file writes leaves the other records readable
#include "hist.h"
static const char* P[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/A/B/C//E/F/", "/A/B/C//E/NEW NAME/", "/A/B/C//E/ANOTHER NEW NAME THAT IS LONGER STILL/" };
static unsigned char* S0; static long N0; static int INO;
static int skip[NREC];
static void others(const char* lab) { for (int i = 0; i < nrec; i++) if (!skip[i]) { int r = agree(IFL, i); dsym_assert(r == 0, lab); } }
// the catalog still lists every other record once
static void listed(void) { zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(IFL, 0, c, 0), bad = n < 0; for (int i = 0; i < nrec; i++) if (!skip[i]) { int m = 0; for (int j = 0; j < c->numberPathnames; j++) m += !cmpci(c->pathnameList[j], R[i].path); bad |= m != R[i].c.live; } zstructFree(c); dsym_assert(!bad, "the catalog lists the earlier records after the crash"); }
// the state of the file at the start of the operation
static void begin(void) { INO = rt_find("/w/a.dss"); N0 = rt_snapshot(INO, &S0); rt_journal_start(); }
// killed before one of the writes, or after the last: opened by another process
static void kill9(void) {
  rt_journal_stop(); int n = 0; for (int i = 0; i < rt_njournal; i++) n += rt_journal[i].ino == INO; int k = pick(0, n, "writes");
  rt_restore(INO, S0, N0); rt_file* f = &rt_files[INO];
  for (int i = 0, m = 0; i < rt_njournal && m < k; i++) { rt_jrec* j = &rt_journal[i]; if (j->ino != INO) continue; m++; long e = j->off + j->len; if (e > f->cap) { dsym_assert(0, "file larger than the model's first allocation"); } memcpy(f->data + j->off, j->data, j->len); if (e > f->size) f->size = e; }
  rt_droplocks(rt_pid); rt_pid = 5151; int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "the file opens after the crash"); others("an earlier record reads back after the crash");
}
// work goes on after the crash: the other records are still there
static void goon(void) {
  int w = -1; for (int i = 0; i < nrec; i++) if (!skip[i] && R[i].c.live) { w = i; break; }
  if (w >= 0) { int st = op_write(IFL, w, 9); dsym_assert(st == 0, "write after the crash"); others("an earlier record reads back after a further write"); }
  for (int i = 0; i < nrec; i++) if (skip[i]) { op_write(IFL, i, 6); others("an earlier record reads back after writing the interrupted one again"); break; }
  zclose(IFL); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "reopen"); others("an earlier record reads back after reopening"); listed();
}
static void base(int rl, int detune, int reopen) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 6; for (int i = 0; i < 6; i++) R[i].path = P[i]; zsetFile(IFL, "RECLAIM", "", rl); if (detune) zsetFile(IFL, "DETUNE", "", 1);
  int st = op_write(IFL, 0, 3); st |= op_write(IFL, 1, 5); st |= op_write(IFL, 2, 1); st |= op_write(IFL, 3, 7); dsym_assert(st == 0, "write succeeds");
  if (reopen) { zclose(IFL); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); if (detune) zsetFile(IFL, "DETUNE", "", 1); }
}
static void one(int hist) {
  int rl = pick(1, 3, "reclaim"), dt = pick(0, 1, "sameslot"), ro = pick(0, 1, "reopen"); base(rl, dt, ro);
  // an earlier operation leaves free space or a deleted record behind
  for (int z = 0; z < hist; z++) { int h = pick(0, 3, "before"); int st = 0; if (h == 0) st = op_write(IFL, 0, 6); else if (h == 1) { if (!R[1].c.live) dsym_stop(); st = op_delete(IFL, 1); } else if (h == 2) st = op_write(IFL, 3, 0); else { if (!R[2].c.live) dsym_stop(); st = zrename(IFL, P[2], P[5]); R[5].c = R[2].c; R[2].c.live = 0; } dsym_assert(st == 0, "earlier operation"); }
  int i = pick(0, 4, "rec"), op; op = pick(0, 6, "op"); skip[i] = 1; static const char cl[] = {3, 9, 6, 0}; int alive = R[i].c.live;
  begin(); if (op < 4) { op_write(IFL, i, cl[op]); }
  else if (op == 4) { if (!alive) dsym_stop(); op_delete(IFL, i); }
  else if (op == 5) { if (!alive) { if (!R[i].everDeleted) dsym_stop(); zundelete(IFL, P[i]); } else dsym_stop(); }
  else { if (!alive || R[5].c.live) dsym_stop(); zrename(IFL, P[i], P[5]); skip[5] = 1; }
  kill9(); dsym_cover("crashed"); goon(); dsym_cover("end");
}
void h_one(void) { one(0); }
void h_after(void) { one(1); }
// more records in one slot than a bin holds, and enough slots in use to need another block of bins
static char NM[60][400]; static content C[60]; static int NC;
static void all(int except, const char* lab) { zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(IFL, 0, c, 0), bad = n < 0; for (int j = 0; j < NC; j++) if (j != except) { int m = 0; for (int q = 0; q < n; q++) m += !cmpci(c->pathnameList[q], NM[j]); bad |= m != C[j].live; } zstructFree(c); dsym_assert(!bad, "the catalog lists the earlier records after the crash"); for (int j = 0; j < NC; j++) if (j != except) { R[0].path = NM[j]; R[0].c = C[j]; int q = verify(IFL, 0); dsym_assert(q == 0, lab); } }
static void many(int n, int total, int lo, int hi, int detune) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); if (detune) zsetFile(IFL, "DETUNE", "", 1); int rl = pick(1, 2, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); NC = total;
  for (int i = 0; i < total; i++) { int l = lo + (hi - lo) * (i % 3) / 2, k = 0; char* p = NM[i]; p[k++] = '/'; while (k < l - 8) p[k++] = 'K'; p[k++] = '0' + i % 10; p[k++] = '0' + i / 10; for (int m = 0; m < 6; m++) p[k++] = '/'; p[k] = 0; }
  for (int i = 0; i < n; i++) { R[0].path = NM[i]; int st = op_write(IFL, 0, 0); dsym_assert(st == 0, "write succeeds"); C[i] = R[0].c; }
  int i = pick(n - 3, total - 1, "rec"), op; op = pick(0, 2, "op"); if (i < n - 1 && op == 0) dsym_stop(); R[0].path = NM[i]; R[0].c = C[i]; int alive = C[i].live; if (op && !alive) dsym_stop();
  begin(); if (op == 0) op_write(IFL, 0, 3); else if (op == 1) op_delete(IFL, 0); else { R[1].path = NM[total - 1]; zrename(IFL, NM[i], NM[total - 1]); NC--; }
  nrec = 0; kill9(); all(i, "an earlier record reads back after the crash"); dsym_cover("crashed");
  R[0].path = NM[0]; R[0].c = C[0]; int st = op_write(IFL, 0, 9); dsym_assert(st == 0, "write after the crash"); C[0] = R[0].c; if (detune) all(i, "an earlier record reads back after a further write");
  R[0].path = NM[i]; R[0].c = C[i]; op_write(IFL, 0, 6); all(i, "an earlier record reads back after writing the interrupted one again"); dsym_cover("end");
}
void h_slot_long(void) { int n = pick(3, 9, "n"); many(n, n + 3, 130, 391, 1); }
void h_slot_short(void) { int n = pick(8, 22, "n"); many(n, n + 3, 14, 70, 1); }
void h_bins(void) { int n = pick(28, 36, "n"); many(n, n + 2, 20, 24, 0); }
// the public interface: records of several kinds, series over several blocks, catalogs, copies
static double VD[40], OD[12]; static int IT[40];
static void kind(int k, int rep) {
  char y[] = "1999"; (void)y; double b = 1000 * rep;
  for (int i = 0; i < 40; i++) { VD[i] = b + i * 1.5 + 1; IT[i] = (i + rep) * 1440 * 9; }
  int n = rep ? 40 : 20;
  if (k == 0) hec_dss_tsStoreRegular((dss_file*)IFL, "/TS/L/FLOW//1Month/V/", rep ? "01Jun1996" : "31Jan1998", "2400", VD, n, 0, 0, 0, "CFS", "PER-AVER", "", 0);
  else if (k == 1) hec_dss_tsStoreIregular((dss_file*)IFL, "/TS/L/STAGE//IR-Month/V/", "01Jan1999", IT, 60, VD, n, 0, 0, 0, "FT", "INST-VAL", "", 0);
  else if (k == 2) { for (int i = 0; i < 12; i++) OD[i] = i + b; hec_dss_pdStore((dss_file*)IFL, "/PD/L/FLOW-DAMAGE///V/", OD, rep ? 12 : 6, VD, rep ? 24 : 6, rep ? 12 : 6, rep ? 2 : 1, "CFS", "UNT", "$", "UNT", "", 0, ""); }
  else if (k == 3) hec_dss_textStore((dss_file*)IFL, "/TEXT/L/NOTE///V/", rep ? "a longer text that needs more room than before, and still more" : "a text", rep ? 63 : 6);
  else if (k == 4) hec_dss_arrayStore((dss_file*)IFL, "/ARR/L/X///V/", IT, n, 0, 0, VD, n / 2);
  else if (k == 5) zduplicateRecord(IFL, P[3], P[4]);
  else if (k == 6) { zStructCatalog* c = zstructCatalogNew(); zcatalog(IFL, 0, c, 1); zstructFree(c); }
  else hec_dss_delete((dss_file*)IFL, rep ? P[1] : P[3]);
}
void h_api(void) {
  int rl = pick(1, 2, "reclaim"), ro = pick(0, 1, "reopen"), k, rep, prior; k = pick(0, 7, "kind"); rep = pick(0, 1, "variant"); prior = pick(0, 1, "there before"); base(rl, 0, ro); if (prior) kind(k, !rep); else { int st = op_delete(IFL, 2); dsym_assert(st == 0, "delete"); }
  skip[4] = k == 5; skip[1] = k == 7; skip[3] = k == 7;
  begin(); kind(k, rep); kill9(); dsym_cover("crashed"); goon(); for (int q = 0; q < 5; q++) { kind(q, 1); others("an earlier record reads back after further storing"); } dsym_cover("end");
}
// records of the public interface are the ones that must survive
static int cls, got;
static void survivor(int store) {
  static double v[40]; static int q[40];
  if (cls == 0) { for (int i = 0; i < 24; i++) VD[i] = 5 + i; if (store) hec_dss_tsStoreRegular((dss_file*)IFL, "/S/L/FLOW//1Month/V/", "31Jan1999", "2400", VD, 24, 0, 0, 0, "CFS", "PER-AVER", "", 0);
    else { char u[8], t[20], tz[40]; int jb, tg; memset(v, 0, sizeof v); int st = hec_dss_tsRetrieve((dss_file*)IFL, "/S/L/FLOW//1Month/V/", "31Jan1999", "2400", "31Dec2000", "2400", IT, v, 24, &got, q, 0, &jb, &tg, u, 8, t, 20, tz, 40); dsym_assert(st == 0 && got == 24, "the series is there after the crash"); int ok = 1; for (int i = 0; i < 24; i++) ok &= v[i] == 5 + i; dsym_assert(ok, "the series' values survive the crash"); } }
  else { for (int i = 0; i < 6; i++) { OD[i] = i; VD[i] = 50 + i; } if (store) hec_dss_pdStore((dss_file*)IFL, "/S/L/A-B///V/", OD, 6, VD, 6, 6, 1, "CFS", "UNT", "$", "UNT", "", 0, "");
    else { char b[6][40]; static double o[6]; memset(v, 0, sizeof v); int no = 0, nc = 0; int st = hec_dss_pdRetrieve((dss_file*)IFL, "/S/L/A-B///V/", o, 6, v, 6, &no, &nc, b[0], 40, b[1], 40, b[2], 40, b[3], 40, b[4], 40, b[5], 40); dsym_assert(st == 0 && no == 6 && nc == 1, "the paired data is there after the crash"); int ok = 1; for (int i = 0; i < 6; i++) ok &= v[i] == 50 + i && o[i] == i; dsym_assert(ok, "the paired data's values survive the crash"); } }
}
void h_kinds(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 4; for (int i = 0; i < 4; i++) R[i].path = P[i]; cls = pick(0, 1, "class"); survivor(1); op_write(IFL, 0, 3); op_write(IFL, 3, 3); op_delete(IFL, 0); survivor(0);
  int k = pick(0, 8, "kind"), rep = pick(0, 1, "variant"); for (int i = 0; i < 4; i++) skip[i] = i != 3; skip[3] = k >= 7;
  begin(); if (k < 8) kind(k, rep); else op_write(IFL, 3, rep ? 9 : 2); kill9(); survivor(0); dsym_cover("crashed"); kind(1, 1); kind(2, 1); survivor(0); dsym_cover("end");
}
// a crash after two earlier operations
void h_after2(void) { one(2); }
