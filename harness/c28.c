// C28: squeezing or copying a file or record preserves all data
#include "hist.h"
#include "anykind.h"
#include "zdssVals.h"
#define DF ((dss_file*)IFL)
static long long IFB[250];
static const char* N[] = { "/A/B/C//E/ONE/", "/A/B/C//E/TWO/", "/A/B/C//E/THREE/", "/A LONGER PATHNAME THAN ALL OTHERS/IN THIS FILE/C//E/TWO MORE WORDS/", "/A/NEW/C//E/NAME/" };
static void names(int n) { nrec = n; for (int i = 0; i < n; i++) R[i].path = N[i]; }
static void all(long long* f, const char* lab) { for (int i = 0; i < nrec; i++) { int r = agree(f, i); dsym_assert(r == 0, R[i].c.live ? lab : "what was deleted stays gone"); } int n = (int)zinquire(f, "nrec"); dsym_assert(n == live(), "the number of records"); }
static void sound(long long* f) { int st = zcheckFile(f); dsym_assert(st == 0, "the file is sound"); }
typedef struct { long long w, c; int type, ver, nv, lnv; } basics;
static basics about(long long* f, const char* p) { basics a; memset(&a, 0, sizeof a); zStructRecordBasics* b = zstructRecordBasicsNew(p); int st = zgetRecordBasics(f, b); if (st == 0) { a.w = b->recLastWriteTimeMillis; a.c = b->recCreationTimeMillis; a.type = b->recordType; a.ver = b->version; a.nv = b->numberValues; a.lnv = b->logicalNumberValues; } zstructFree(b); return a; }
static int samebasics(basics a, basics b) { return a.w == b.w && a.c == b.c && a.type == b.type && a.nv == b.nv && a.lnv == b.lnv; }
static void squeeze(const char* nm) { int st = zsqueeze(nm); dsym_assert(st == 0, "squeeze succeeds"); dsym_assert(rt_nlocks(rt_pid) == 0, "no lock is left"); dsym_assert(rt_find("/tmp/a_squ.dss") < 0, "no temporary file is left"); st = openf(IFL, nm); dsym_assert(st == 0, "the squeezed file opens"); }
static void step(int classes) {
  int i = pick(0, 2, "rec"), op = pick(0, classes + 1, "op"), st; static const char cl[] = {0,3,9,6,1,2,7};
  if (op < classes) { st = op_write(IFL, i, cl[op]); dsym_assert(st == 0, "write succeeds"); }
  else if (op == classes) { int was = R[i].c.live; st = op_delete(IFL, i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); }
  else { if (!R[i].c.live || R[3].c.live) dsym_stop(); st = zrename(IFL, R[i].path, R[3].path); dsym_assert(st == 0, "rename succeeds"); R[3].c = R[i].c; R[i].c.live = 0; }
}
// a history of writes, deletions and renames, then squeezed
static void hist(int steps, int classes, int lo, int hi) {
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); names(4); int rl = pick(lo, hi, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl);
  for (int i = 0; i < 3; i++) { st = op_write(IFL, i, i == 1 ? 5 : 3); dsym_assert(st == 0, "write succeeds"); rt_clock_ms += 1000; } for (int k = 0; k < steps; k++) step(classes);
  basics b[4]; for (int i = 0; i < 4; i++) b[i] = about(IFL, N[i]); zclose(IFL); rt_clock_ms += 90000; squeeze("a.dss"); all(IFL, "every record is as it was after the squeeze");
  for (int i = 0; i < 4; i++) if (R[i].c.live) { basics a = about(IFL, N[i]); dsym_assert(samebasics(a, b[i]), "type, sizes and times of the record are as they were"); } int r = catalog(IFL, 0, 0, 0); dsym_assert(r == 0, "the catalog lists the records"); sound(IFL);
  st = op_write(IFL, 0, 9); dsym_assert(st == 0, "the squeezed file can be written"); all(IFL, "every record is as it was after a further write"); zclose(IFL); dsym_cover("end");
}
void h_sq_two(void) { hist(2, THOROUGH ? 7 : 3, THOROUGH ? 1 : 2, THOROUGH ? 3 : 2); }
void h_sq_three(void) { hist(3, THOROUGH ? 2 : 1, 2, 2); }
// any data words
void h_sq_data(void) {
  int st = openf(IFL, "a.dss"); names(2); g_nsym = 0; int nw = pick(1, 3, "words"), at = THOROUGH ? pick(0, 9, "position") : 3 * nw - 3; static int d[24]; for (int i = 0; i < 24; i++) d[i] = 1000 + i; if (nw < 3) dsym_sym(d + 2 * at, 8 * nw, "data"); else { static const int LEN[] = {1, 14, 392, 393, 0, -1, 15, 13}; d[2 * at] = DSS_INFO_FLAG; d[2 * at + 1] = -1; dsym_sym(d + 2 * at + 2, 8, "status"); d[2 * at + 4] = LEN[pick(0, THOROUGH ? 7 : 4, "length")]; d[2 * at + 5] = d[2 * at + 4] < 0 ? -1 : 0; } static content c; memset(&c, 0, sizeof c); c.live = 1; c.type = TYPE; c.n[A_V1] = 24; c.d[A_V1] = d;
  zStructTransfer* t = zstructTransferNew(N[1], 0); t->dataType = TYPE; t->values1 = d; t->values1Number = 24; t->numberValues = t->logicalNumberValues = 24; st = zwrite(IFL, t); zstructFree(t); dsym_assert(st == 0, "write succeeds"); R[1].c = c; st = op_write(IFL, 0, 3); dsym_assert(st == 0, "write succeeds"); zclose(IFL); squeeze("a.dss"); all(IFL, "every record is as it was after the squeeze"); zclose(IFL); dsym_cover("end");
}
// data that is a copy of a record header of another file
void h_sq_image(void) {
  int st = openf(IFB, "b.dss"); names(2); st = op_write(IFB, 0, 3); dsym_assert(st == 0, "write succeeds"); zclose(IFB); unsigned char* sn; long n = rt_snapshot(rt_find("/w/b.dss"), &sn); memset(&R[0].c, 0, sizeof R[0].c); long long* w = (void*)sn; long h = 0; while (w[h] != DSS_INFO_FLAG) h++; int len = pick(1, 60, "words"); if (h + len > n / 8) dsym_stop();
  st = openf(IFL, "a.dss"); static content c; memset(&c, 0, sizeof c); c.live = 1; c.type = TYPE; c.n[A_V1] = 2 * len; c.d[A_V1] = (int*)(w + h); zStructTransfer* t = zstructTransferNew(N[1], 0); t->dataType = TYPE; t->values1 = c.d[A_V1]; t->values1Number = 2 * len; t->numberValues = t->logicalNumberValues = 2 * len; st = zwrite(IFL, t); zstructFree(t); dsym_assert(st == 0, "write succeeds"); R[1].c = c; zclose(IFL);
  squeeze("a.dss"); int r = agree(IFL, 1); dsym_assert(r == 0, "the record is as it was after the squeeze"); int k = (int)zinquire(IFL, "nrec"); dsym_assert(k == 1, "data holding a complete record header gives no record of its own"); zclose(IFL); dsym_cover("end");
}
// any kind of record: squeezed, copied to another file, copied and duplicated under another name
static zStructTransfer* get(long long* f, const char* p) { zStructTransfer* t = zstructTransferNew(p, 1); int st = zread(f, t); if (st) { zstructFree(t); return 0; } return t; }
static void dates(long long* f, const char* p, int* d) { d[0] = d[1] = d[2] = d[3] = -1; int st = ztsGetFirstLastRecordTimes(f, p, d, d + 1, d + 2, d + 3, 1); dsym_assert(st == 0, "the record's times"); }
static void kinds(int lo, int hi) {
  int k = pick(lo, hi, "kind"), sz = pick(0, 1, "size"), how = pick(0, 4, "how"); P = fam(k) == 1 ? PI : PR; const char* to = fam(k) == 1 ? "/OTHER A/L2/STAGE/01Jan1999/IR-Month/V2/" : "/OTHER A/L2/STAGE/01Jan1990/1Month/V2/"; if (how < 3) to = P;
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); g_nsym = 0; names(1); st = op_write(IFL, 0, 5); dsym_assert(st == 0, "another record"); if (pick(0, 1, "before")) { st = store(k, 1, k == GRD ? sz : 1 - sz); dsym_assert(st == 0, "stored before"); } st = store(k, 0, sz); dsym_assert(st == 0, "stored"); int n0 = (int)zinquire(IFL, "nrec"); int D0[4], D1[4], D2[4]; if (k <= ITD) dates(IFL, P, D0); zStructTransfer* t = whole(); dsym_assert(t != 0, "it reads"); basics b = about(IFL, P); zclose(IFL); unsigned char* sn; long sl = rt_snapshot(rt_find("/w/a.dss"), &sn); rt_clock_ms += 90000; long long* o = IFL;
  if (how == 0) { squeeze("a.dss"); int n = (int)zinquire(IFL, "nrec"); dsym_assert(n == n0, "the number of records"); }
  else { st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); if (how < 4) { st = openf(IFB, "b.dss"); dsym_assert(st == 0, "the other file opens"); o = IFB; }
    if (how == 1) { st = zcopyFile(IFL, IFB, 0); int n = (int)zinquire(IFB, "nrec"); dsym_assert(n == n0, "the number of records"); } else if (how == 2 || how == 3) st = zcopyRecord(IFL, IFB, P, to); else st = zduplicateRecord(IFL, P, to); dsym_assert(st == 0, "copied"); }
  zStructTransfer* u = get(o, to); dsym_assert(u != 0, "the copy reads"); int e = equal(t, u); dsym_assert(e, "the copy has the same content and type"); if (o == IFB || how == 0) { basics a = about(o, to); dsym_assert(samebasics(a, b), "the copy has the same type, sizes and times"); }
  if (k <= ITD) { dates(how && how < 4 ? IFB : IFL, to, D2); if (how) dates(IFL, P, D1); int x = how == 0 || (D1[0] == D2[0] && D1[1] == D2[1] && D1[2] == D2[2] && D1[3] == D2[3]); if (how == 0) x = D2[0] == D0[0] && D2[1] == D0[1] && D2[2] == D0[2] && D2[3] == D0[3]; dsym_assert(x, "the copy has the same first and last times"); }
  if (how) { zStructTransfer* w = get(IFL, P); e = equal(t, w); dsym_assert(e, "the source is as it was"); zstructFree(w); } int r = agree(IFL, 0); dsym_assert(r == 0, "the other record is as it was"); sound(o); zstructFree(u); if (o == IFB) zclose(IFB); zclose(IFL);
  if (how && how < 4) { unsigned char* s2; long l2 = rt_snapshot(rt_find("/w/a.dss"), &s2); dsym_assert(l2 == sl && dsym_memeq(sn, s2, sl), "the source file is as it was"); } if (o == IFB) { st = openf(IFB, "b.dss"); dsym_assert(st == 0, "the copy opens"); u = get(IFB, to); e = equal(t, u); dsym_assert(e, "the copy has the same content and type"); zstructFree(u); zclose(IFB); } zstructFree(t); dsym_cover("end");
}
void h_kind_ts(void) { kinds(RTS, ITD); }
void h_kind_other(void) { kinds(PDF, RAW); }
// a record copied over what is already there, and a file into a file with records
static void copy_over(int dup) {
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); names(4); int a = pick(0, 10, "size"), b = pick(-1, 10, "over"); for (int i = 1; i < 3; i++) { st = op_write(IFL, i, 3); dsym_assert(st == 0, "write succeeds"); } if (dup && b >= 0) { st = op_write(IFL, 3, b); dsym_assert(st == 0, "write succeeds"); st = op_write(IFL, 2, 1); dsym_assert(st == 0, "write succeeds"); } st = op_write(IFL, 0, a); dsym_assert(st == 0, "write succeeds");
  if (dup) { st = zduplicateRecord(IFL, N[0], N[3]); dsym_assert(st == 0, "duplicated"); R[3].c = R[0].c; all(IFL, "every record is as expected"); int r = catalog(IFL, 0, 0, 0); dsym_assert(r == 0, "the catalog lists the records"); if (pick(0, 1, "delete")) { st = op_delete(IFL, 0); dsym_assert(st == 0, "deleted"); all(IFL, "every record is as expected"); } zclose(IFL); openf(IFL, "a.dss"); all(IFL, "every record is as expected"); sound(IFL); zclose(IFL); dsym_cover("end"); return; }
  rec S[4]; memcpy(S, R, sizeof S); for (int i = 0; i < 4; i++) R[i].c.live = 0; st = openf(IFB, "b.dss"); dsym_assert(st == 0, "the other file opens"); if (b >= 0) { st = op_write(IFB, 3, b); dsym_assert(st == 0, "write succeeds"); } st = op_write(IFB, 1, 2); dsym_assert(st == 0, "write succeeds"); 
  if (pick(0, 1, "whole file")) { st = zcopyFile(IFL, IFB, 0); dsym_assert(st == 0, "copied"); for (int i = 0; i < 3; i++) R[i].c = S[i].c; } else { st = zcopyRecord(IFL, IFB, N[0], N[3]); dsym_assert(st == 0, "copied"); R[3].c = S[0].c; }
  all(IFB, "every record is as expected in the file copied to"); int r = catalog(IFB, 0, 0, 0); dsym_assert(r == 0, "the catalog lists the records"); sound(IFB); zclose(IFB); openf(IFB, "b.dss"); all(IFB, "every record is as expected in the file copied to"); zclose(IFB); memcpy(R, S, sizeof S); all(IFL, "the source is as it was"); zclose(IFL); dsym_cover("end");
}
void h_copy_over(void) { copy_over(0); }
void h_dup_over(void) { copy_over(1); }
// a pathname with dates or interval in another style: the data are read and stored again
void h_copy_long(void) {
  static const char *F[] = {"/A/L/FLOW/01Jan2000/1Hour/V/", "/A/L/FLOW/01Jan2000/IR-Month/V/", "/A/L/FLOW/01Jan2000/15Minute/V/"}, *TO[] = {"/A/L/FLOW/01JAN2000/1HOUR/V2/", "/A/L/FLOW/01JAN2000/IR-MONTH/V2/", "/A/L/FLOW/01Jan2000/15MIN/V2/"}, *AT[] = {"/A/L/FLOW/01Jan2000/1Hour/V2/", "/A/L/FLOW/01Jan2000/IR-Month/V2/", "/A/L/FLOW/01Jan2000/15Minute/V2/"};
  int k = pick(0, 2, "kind"), dbl = pick(0, 1, "doubles"), q = pick(0, THOROUGH ? 3 : 2, "quality"), nt = pick(0, 2, "notes"), uh = pick(0, 2, "user header"), n = pick(1, THOROUGH ? 3 : 2, "values") * 3; static double V[12]; static float W[12]; static int T[12], Q[40], NT[40], UH[4] = {70000, 80001, 90002, 5}; static char cn[] = "one\0two\0\0four\0five\0six\0seven\0eight\0nine"; for (int i = 0; i < 12; i++) { V[i] = W[i] = i * 1.25f + 3; T[i] = 1440 * (i + 1) + i; } for (int i = 0; i < 40; i++) { Q[i] = i + 5; NT[i] = i * 3 + 1; } dsym_sym(dbl ? (void*)(V + n - 1) : (void*)(W + n - 1), dbl ? 8 : 4, "value"); dsym_assume(dbl ? (V[n - 1] == V[n - 1]) & (V[n - 1] > -900) : (W[n - 1] == W[n - 1]) & (W[n - 1] > -900)); if (q) dsym_sym(Q, 4, "q");
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); P = F[k]; zStructTimeSeries* t = k == 1 ? (dbl ? zstructTsNewIrregDoubles(P, V, n, T, 60, "01Jan2000", "CFS", "INST-VAL") : zstructTsNewIrregFloats(P, W, n, T, 60, "01Jan2000", "CFS", "INST-VAL")) : dbl ? zstructTsNewRegDoubles(P, V, n, "02Jan2000", "0300", "CFS", "PER-AVER") : zstructTsNewRegFloats(P, W, n, "02Jan2000", "0300", "CFS", "PER-AVER");
  if (q) { t->quality = Q; t->qualityElementSize = q; t->qualityArraySize = q * n; } if (nt == 1) { t->inotes = NT; t->inoteElementSize = 1; t->inotesArraySize = n; } if (nt == 2) { t->cnotes = cn; t->cnotesLengthTotal = n == 3 ? 9 : n == 6 ? 23 : sizeof cn; } if (uh) { t->userHeader = UH; t->userHeaderNumber = t->userHeaderSize = uh * 2; } t->timeZoneName = "PST"; st = ztsStore(IFL, t, 0); dsym_assert(st == 0, "stored"); zstructFree(t);
  zStructTransfer* a = get(IFL, P); dsym_assert(a != 0, "it reads"); long long* o = IFL; if (pick(0, 1, "other file")) { st = openf(IFB, "b.dss"); o = IFB; } st = zcopyRecord(IFL, o, P, TO[k]); dsym_assert(st == 0, "copied"); zStructTransfer* b = get(o, AT[k]); dsym_assert(b != 0, "the copy reads"); int e = equal(a, b); dsym_assert(e, "the copy has the same content and type"); zStructTransfer* c = get(IFL, P); e = equal(a, c); dsym_assert(e, "the source is as it was"); int cnt = (int)zinquire(o, "nrec"); dsym_assert(cnt == (o == IFL ? 2 : 1), "the number of records"); if (o == IFB) zclose(IFB); zclose(IFL); dsym_cover("end");
}
// the location goes with the record
static int putloc(long long* f, const char* p, int v) { return hec_dss_locationStore((dss_file*)f, p, 1.5 + v, 2.5, 3.5, 1, 2, 3, 1, 2, 1, "PST", "more", 1); }
static int hasloc(long long* f, const char* p) { double x = 0, y = 0, z = 0; int c[6] = {0}; char a[40] = "", b[40] = ""; int st = hec_dss_locationRetrieve((dss_file*)f, p, &x, &y, &z, c, c + 1, c + 2, c + 3, c + 4, c + 5, a, 40, b, 40); if (st) return 0; if (y != 2.5 || z != 3.5 || c[0] != 1 || c[1] != 2 || c[2] != 3 || c[3] != 1 || c[4] != 2 || c[5] != 1 || strcmp(a, "PST") || strcmp(b, "more")) return -1; return x == 1.5 ? 1 : x == 2.5 ? 2 : -1; }
void h_location(void) {
  int ks[] = {RTS, ITD, PDD, TXT, GRD, RAW}, k = ks[pick(0, 5, "kind")], how = pick(0, 5, "how"), there = pick(0, 1, "there"), has = pick(0, 1, "has"); P = fam(k) == 1 ? PI : PR; const char* to = how <= 1 ? P : how == 2 || how == 4 ? (fam(k) == 1 ? "/OTHER A/L2/STAGE/01Jan1999/IR-Month/V2/" : "/OTHER A/L2/STAGE/01Jan1990/1Month/V2/") : fam(k) == 1 ? "/A/L/STAGE/01Jan1999/IR-Month/V2/" : "/A/L/STAGE/01Jan1990/1Month/V2/"; if (there && (how == 5)) dsym_stop();
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); st = store(k, 0, 1); dsym_assert(st == 0, "stored"); if (has) { st = putloc(IFL, P, 0); dsym_assert(st == 0, "location stored"); } long long* o = IFL; if (how < 4) { st = openf(IFB, "b.dss"); o = IFB; } if (there) { st = putloc(o, to, 1); dsym_assert(st == 0, "location stored"); } int n0 = (int)zinquire(o, "nrec");
  if (how == 0) st = zcopyFile(IFL, IFB, 0); else if (how < 4) st = zcopyRecord(IFL, IFB, P, to); else st = zduplicateRecord(IFL, P, to); dsym_assert(st == 0, "copied"); int l = hasloc(o, to), want = how == 0 ? (has ? 1 : there ? 2 : 0) : how == 5 ? has : there ? 2 : has; dsym_assert(l == want, "the copy has the location of the record, or the one already there"); int s = hasloc(IFL, P); dsym_assert(s == has, "the source keeps its location"); int n = (int)zinquire(o, "nrec"); dsym_assert(n == n0 + 1 + (has && !there && how != 5), "no other record appears"); sound(o); if (o == IFB) zclose(IFB); zclose(IFL); dsym_cover("end");
}
// an I/O call fails during the squeeze or the copy
static void faults(int copy) {
  int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); g_nsym = 0; names(4); for (int i = 0; i < 3; i++) { st = op_write(IFL, i, i == 1 ? 5 : 3); dsym_assert(st == 0, "write succeeds"); } st = op_write(IFL, 1, 3); st = op_delete(IFL, 2); dsym_assert(st == 0, "deleted"); zclose(IFL); unsigned char* sn; long sl = rt_snapshot(rt_find("/w/a.dss"), &sn);
  if (copy) { st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); st = openf(IFB, "b.dss"); dsym_assert(st == 0, "open"); }
  int wr = pick(0, 1, "write"), nth = pick(1, copy ? 60 : 130, "nth"), mode = THOROUGH ? pick(0, 1, "short") : 0; rt_nwrites = rt_nreads = 0; rt_failed = 0; rt_count_io = 1; rt_fail_mode = mode; if (wr) rt_fail_write_at = nth; else rt_fail_read_at = nth;
  if (copy) st = zcopyFile(IFL, IFB, 0); else st = zsqueeze("a.dss"); int failed = rt_failed; rt_count_io = 0; rt_fail_write_at = rt_fail_read_at = 0; if (!failed) dsym_stop(); if (copy) { zclose(IFB); zclose(IFL); } rt_droplocks(rt_pid);
  unsigned char* s2; long l2 = rt_snapshot(rt_find("/w/a.dss"), &s2);
  if (copy) { dsym_assert(l2 == sl && dsym_memeq(sn, s2, sl), "the source file is as it was"); if (st == 0) { st = openf(IFB, "b.dss"); dsym_assert(st == 0, "the copy opens"); all(IFB, "what succeeded copied everything"); } dsym_cover(st ? "refused" : "done"); return; }
  int kept = rt_find("/tmp/a_squ.dss") >= 0, o = openf(IFL, "a.dss"); int good = o == 0; if (good) for (int i = 0; i < nrec; i++) if (agree(IFL, i)) good = 0; if (o == 0) zclose(IFL);
  if (good) { dsym_cover(st ? "refused, the original is good" : "done"); return; }
  dsym_assert(st != 0, "a squeeze that lost data reports it"); o = kept ? openf(IFL, "/tmp/a_squ.dss") : -1; dsym_assert(o == 0, "the original or the squeezed copy is there"); all(IFL, "the original or the squeezed copy holds every record"); zclose(IFL); dsym_assert(0, "the original is unchanged when putting the squeezed copy in its place fails");
}
void h_fault_squeeze(void) { faults(0); }
void h_fault_copy(void) { faults(1); }
