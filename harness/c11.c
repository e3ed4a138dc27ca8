// C11: read access never modifies the file; storing without write access fails
#include "hist.h"
int zundeleteAll(long long*); int zlocationDelete(long long*, const char*);
static const char* P[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/A/B/C//E/F/", "/A/B/C//E/NEW NAME/", "/A/B/C//E/ANOTHER NEW NAME THAT IS LONGER STILL/" };
#include "kinds.h"
static unsigned char* orig; static long osz; static int dt;
static void base(void) {
  dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 6; for (int i = 0; i < 6; i++) R[i].path = P[i]; dt = pick(0, 1, "sameslot"); int rl = pick(2, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); if (dt) zsetFile(IFL, "DETUNE", "", 1);
  int st = op_write(IFL, 0, 3); st |= op_write(IFL, 1, 5); st |= op_write(IFL, 2, 1); st |= op_write(IFL, 3, 7); for (int k = 0; k < 6; k++) st |= store(k, 1); st |= op_delete(IFL, 1); dsym_assert(st == 0, "base file"); zclose(IFL); osz = rt_snapshot(rt_find("/w/a.dss"), &orig);
}
static void unchanged(const char* label) { unsigned char* q; long m = rt_snapshot(rt_find("/w/a.dss"), &q); int e = m == osz && dsym_memeq(q, orig, osz); dsym_assert(e, label); }
static int opena(int acc) { memset(IFL, 0, sizeof IFL); zset("MLVL", "", 0); return acc ? zopenExtended(IFL, "a.dss", 7, acc, 0, 0, 0) : hec_dss_zopen(IFL, "a.dss"); }
static const char* q(int i) { return i == 0 ? P[0] : i == 1 ? P[1] : i == 2 ? P[4] : i == 3 ? TS : i == 4 ? PD : i == 5 ? "/TS/L/FLOW/01Jan1990/1Month/V/" : i == 6 ? "/TS/L/STAGE/01Jan1999/IR-Month/V/" : i == 7 ? TX : AR; }
enum { NRD = 26 };
static void rop(int op, const char* p) {
  static char b[8][400]; int n = 0, m = 0, x[8]; double d[8]; dss_file* f = (dss_file*)IFL;
  switch (op) {
    case 0: { zStructTransfer* t = zstructTransferNew(p, 1); zread(IFL, t); zstructFree(t); break; }
    case 1: zcheck(IFL, p); break;
    case 2: zdataType(IFL, p); break;
    case 3: { zStructRecordBasics* r = zstructRecordBasicsNew(p); zgetRecordBasics(IFL, r); zstructFree(r); break; }
    case 4: { zStructRecordSize* r = zstructRecordSizeNew(p); zgetRecordSize(IFL, r); zstructFree(r); break; }
    case 5: { zStructCatalog* c = zstructCatalogNew(); zcatalog(IFL, 0, c, 0); zstructFree(c); break; }
    case 6: { zStructCatalog* c = zstructCatalogNew(); c->statusWanted = 1; zcatalog(IFL, "/*/*/*/*/*/*/", c, 0); zstructFree(c); break; }
    case 7: hec_dss_dataType(f, p); break;
    case 8: hec_dss_recordType(f, p); break;
    case 9: hec_dss_record_count(f); break;
    case 10: hec_dss_tsGetDateTimeRange(f, p, 1, &n, &m, x, x + 1); break;
    case 11: hec_dss_tsGetSizes(f, p, "31Jan1998", "2400", "31Dec2000", "2400", &n, &m); break;
    case 12: hec_dss_tsRetrieveInfo(f, p, b[0], 400, b[1], 400); break;
    case 13: fetch(0, 1); break; case 14: fetch(1, 1); break; case 15: fetch(2, 1); break; case 16: fetch(3, 1); break; case 17: fetch(4, 1); break; case 18: fetch(5, 1); break;
    case 19: zgetLastWriteTimeRec(IFL, p); zgetLastWriteTimeFile(IFL); break;
    case 20: zgetDataCRC(IFL, p, 0); break;
    case 21: zcheckFile(IFL); break;
    case 22: hec_dss_locationRetrieve(f, p, d, d + 1, d + 2, x, x + 1, x + 2, x + 3, x + 4, x + 5, b[0], 400, b[1], 400); break;
    case 23: { zStructCatalog* c = zstructCatalogNew(); zwhatChangedSetStart(IFL, c, 0, 1); zwhatChanged(IFL, c); zstructFree(c); break; }
    case 24: zsqueezeNeeded(IFL); zinquire(IFL, "nrec"); zinquire(IFL, "fsiz"); break;
    case 25: hec_dss_pdRetrieveInfo(f, p, &n, &m, b[0], 400, b[1], 400, b[2], 400, b[3], 400, x); break;
  }
}
static void rdone(int acc) { // what two reads in a row do to the file
  int op = pick(0, NRD - 1, "op"); g_nsym = !(op == 20 || op == 23); // a checksum over symbolic content is of no use here
  base(); int st = opena(acc); dsym_assert(st == 0, "opens"); unchanged("opening leaves the file as it was"); rt_journal_start();
  int i = (op >= 5 && op <= 6) || op == 9 || (op >= 13 && op <= 18) || op == 21 || op == 23 || op == 24 ? 0 : pick(0, 8, "of"); rop(op, q(i)); unchanged("reading leaves the file as it was");
  zclose(IFL); unchanged("closing after reading leaves the file as it was"); dsym_assert(rt_njournal == 0, "reading writes nothing"); dsym_cover("end");
}
void h_read(void) { rdone(0); }
void h_read_ro(void) { rdone(1); }
// a sorted catalog may save its order in a file open for writing; the records stay as they were
void h_sorted(void) {
  base(); int ro = pick(0, 1, "readonly"), so = pick(1, 2, "sort"), tw = pick(1, 2, "times"); int st = opena(ro); dsym_assert(st == 0, "opens"); for (int k = 0; k < tw; k++) { zStructCatalog* c = zstructCatalogNew(); zcatalog(IFL, 0, c, so); zstructFree(c); }
  if (ro) unchanged("read access: a sorted catalog leaves the file as it was"); for (int i = 0; i < 6; i++) { int r = agree(IFL, i); dsym_assert(r == 0, "records are as before the catalog"); } for (int k = 0; k < 6; k++) { int r = fetch(k, 1); dsym_assert(r == 0, "data is as before the catalog"); }
  zclose(IFL); if (ro) unchanged("read access: closed as it was"); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); for (int i = 0; i < 6; i++) { int r = agree(IFL, i); dsym_assert(r == 0, "records are as before the catalog, reopened"); } dsym_cover("end");
}
// a file that may not be written: opened for reading, set to read only, or without permission
enum { NWR = 21 };
static int wop(int op, const char* p) {
  int st = 0; dss_file* f = (dss_file*)IFL; long long o[250]; zStructLocation* l;
  switch (op) {
    case 0: case 1: case 2: case 3: case 4: case 5: return store(op, pick(0, 1, "variant"));
    case 6: { int i = pick(0, 4, "rec"), c = pick(0, 3, "size"); content k = R[i].c; int e = R[i].everDeleted; st = op_write(IFL, i, c); R[i].c = k; R[i].everDeleted = e; return st; }
    case 7: return zdelete(IFL, p);
    case 8: return hec_dss_delete(f, p);
    case 9: return zundelete(IFL, P[1]);
    case 10: return zundeleteAll(IFL);
    case 11: return zrename(IFL, p, P[5]);
    case 12: return zduplicateRecord(IFL, p, P[5]);
    case 13: return zcopyRecord(IFL, IFL, p, P[5]);
    case 14: return zaliasAdd(IFL, p, "/AN/ALIAS/X///Y/");
    case 15: return zlocationDelete(IFL, LO);
    case 16: { int n = 36; zStructTimeSeries* t = zstructTsNewRegDoubles(TS, VD, n, "01Jun1998", "2400", "CFS", "PER-AVER"); vals(0); int fl = pick(0, 4, "flag"); st = ztsStore(IFL, t, fl ? fl + 1 : 0); zstructFree(t); return st; } // flag 1 stores nothing where there are values
    case 17: { vals(0); zStructTimeSeries* t = zstructTsNewIrregDoubles(IS, VD, 10, IT, 60, "01Jan1999", "FT", "INST-VAL"); st = ztsStore(IFL, t, pick(0, 1, "flag")); zstructFree(t); return st; }
    case 18: { int w[40]; memset(w, 0, sizeof w); zStructTransfer* t = zstructTransferNew(p, 0); t->dataType = TYPE; t->values1 = w; t->values1Number = 40; t->numberValues = 40; st = zwrite(IFL, t); zstructFree(t); return st; }
    case 19: st = openf(o, "b.dss"); dsym_assert(st == 0, "another file"); st = zcopyFile(o, IFL, 0); zclose(o); return st ? st : -1;
    case 20: { vals(1); zStructPairedData* d = zstructPdNew(PD); d->doubleValues = VD; d->numberCurves = 2; d->numberOrdinates = 12; d->startingOrdinate = 1; d->endingOrdinate = 2; d->startingCurve = 1; d->endingCurve = 1; st = zpdStore(IFL, d, 11); zstructFree(d); return st; }
  }
  (void)l; return -1;
}
void h_write_ro(void) {
  base(); int how = pick(0, 3, "how"), st; if (how == 1) rt_files[rt_find("/w/a.dss")].readonly = 1; st = opena(how == 0 ? 1 : how == 3 ? 2 : 0); dsym_assert(st == 0, "opens"); if (how >= 2) zsetFile(IFL, "READONLY", "on", 0);
  rt_journal_start(); int op = pick(0, NWR - 1, "op"), i = op == 7 || op == 8 || (op >= 11 && op <= 14) || op == 18 ? pick(0, 8, "of") : 0; st = wop(op, q(i)); dsym_assert(st != 0, "storing without write access reports an error"); unchanged("storing without write access leaves the file as it was");
  for (int k = 0; k < 6; k++) { int r = agree(IFL, k); dsym_assert(r == 0, "the records are as they were"); } for (int k = 0; k < 6; k++) { int r = fetch(k, 1); dsym_assert(r == 0, "the data is as it was"); }
  zclose(IFL); unchanged("closed as it was"); int w = 0; for (int k = 0; k < rt_njournal; k++) w += rt_journal[k].ino == rt_find("/w/a.dss"); dsym_assert(w == 0, "nothing was written"); dsym_cover("end");
}
// the public interface on a file without write permission
void h_api_ro(void) {
  base(); rt_files[rt_find("/w/a.dss")].readonly = 1; dss_file* d = 0; int st = hec_dss_open("a.dss", &d); dsym_assert(st == 0 && d, "opens"); long long* save = (long long*)d; memcpy(IFL, save, sizeof IFL);
  int op = pick(0, 6, "op"); st = op < 6 ? store(op, pick(0, 1, "variant")) : hec_dss_delete((dss_file*)IFL, q(pick(0, 8, "of"))); dsym_assert(st != 0, "storing without write access reports an error"); unchanged("storing without write access leaves the file as it was"); dsym_cover("end");
}
