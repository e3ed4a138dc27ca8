// C32: write time, program name, version and checksum follow the last write that changed a record
#include "hist.h"
#include "anykind.h"
unsigned int zgetDataCRC(long long*, const char*, unsigned int); long long zgetLastWriteTimeRec(long long*, const char*); long long zgetLastWriteTimeFile(long long*); int zwhatChanged(long long*, zStructCatalog*); int zwhatChangedSetStart(long long*, zStructCatalog*, const char*, int); int zwhatChangedCompare(long long*, zStructCatalog*, zStructCatalog*, const char*, int); int zundelete(long long*, const char*); int zgetRecordSize(long long*, zStructRecordSize*);
static const char* N[] = { "/A/B1/C//E/ONE/", "/A/AP/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/", "/B/OTHER/C//E/F/" };
typedef struct { long long lo, hi, clo, chi; int ver; char prog[20]; } when; // a write happened between lo and hi
static when W[NREC]; static long long flo, fhi; static char g_prog[20] = "not specified";
static long long g_clo, g_chi; // time of a copy: a catalog may report when the copy was made
static long long now(void) { return rt_clock_ms; }
static void tick(void) { rt_clock_ms += 1000; }
static void prog(const char* s) { zset("PROG", s, 0); memset(g_prog, 0, sizeof g_prog); for (int i = 0; i < 16 && s[i]; i++) g_prog[i] = s[i]; }
static void wrote(int i, long long t, int fresh) { W[i].lo = flo = t; W[i].hi = fhi = now(); W[i].ver = fresh ? 1 : W[i].ver + 1; memcpy(W[i].prog, g_prog, 20); if (fresh) { W[i].clo = t; W[i].chi = now(); } }
static int inr(long long v, long long lo, long long hi) { return v > lo && v <= hi; }
// every way to ask for the write times of every record
static void chk(long long* ifl, int cat) {
  long long f = zgetLastWriteTimeFile(ifl); dsym_assert(inr(f, flo, fhi), "the file's write time is that of the last write");
  for (int i = 0; i < nrec; i++) {
    if (!R[i].c.live) { f = zgetLastWriteTimeRec(ifl, R[i].path); dsym_assert(f == 0, "a missing record has no write time"); continue; }
    when* w = &W[i]; f = zgetLastWriteTimeRec(ifl, R[i].path); dsym_assert(inr(f, w->lo, w->hi), "write time of a record");
    zStructRecordBasics* b = zstructRecordBasicsNew(R[i].path); int st = zgetRecordBasics(ifl, b); dsym_assert(st == 0, "basics"); dsym_assert(b->recLastWriteTimeMillis == f, "basics: write time"); dsym_assert(b->version == w->ver, "version counts the writes"); dsym_assert(inr(b->recCreationTimeMillis, w->clo, w->chi), "creation time"); dsym_assert(inr(b->fileLastWriteTimeMillis, flo, fhi), "basics: file's write time"); zstructFree(b);
    zStructRecordSize* s = zstructRecordSizeNew(R[i].path); st = zgetRecordSize(ifl, s); dsym_assert(st == 0, "sizes"); dsym_assert(s->lastWriteTimeMillis == f && s->version == w->ver, "sizes: write time and version"); dsym_assert(!strcmp(s->programLastWrite, w->prog), "sizes: program name"); zstructFree(s);
    zStructTransfer* t = zstructTransferNew(R[i].path, 1); st = zread(ifl, t); dsym_assert(st == 0 && t->lastWrittenTime == f && t->version == w->ver && inr(t->fileLastWrittenTime, flo, fhi), "read: write times and version"); dsym_assert(!strcmp(t->programName, w->prog), "read: program name"); zstructFree(t);
  }
  if (!cat) return;
  zStructCatalog* c = zstructCatalogNew(); int n = zcatalog(ifl, 0, c, 0), k = 0; dsym_assert(inr(c->lastWriteTimeFile, flo, fhi), "catalog: file's write time");
  for (int j = 0; j < n; j++) for (int i = 0; i < nrec; i++) if (R[i].c.live && !cmpci(c->pathnameList[j], R[i].path)) { k++; long long v = c->lastWriteTimeRecord[j]; dsym_assert(inr(v, W[i].lo, W[i].hi) || inr(v, g_clo, g_chi), "catalog: write time of a record"); }
  dsym_assert(n == live() && k == n, "catalog lists the records"); zstructFree(c);
}
static int g_names;
static int wr(int i, int cls) { tick(); long long t = now(); int had = R[i].c.live, st = op_write(IFL, i, cls); if (st == 0) wrote(i, t, !had); return st; }
static int del(int i) { tick(); long long t = now(); int st = op_delete(IFL, i); if (st == 0) { flo = t; fhi = now(); } return st; }
static void base(int n) { dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = n; for (int i = 0; i < n; i++) { R[i].path = N[i]; int st = wr(i, i == 1 ? 5 : 3); dsym_assert(st == 0, "write succeeds"); } }
static int step(void) {
  static const char cl[] = { 3, 0, 6 }; int op = pick(0, 5, "op"), i, st; i = pick(0, 1 + (op == 0), "rec"); 
  if (op == 0) { int c = pick(0, 2, "size"); st = wr(i, cl[c]); dsym_assert(st == 0, "write succeeds"); }
  else if (op == 1) { int was = R[i].c.live; st = del(i); dsym_assert(st == (was ? 0 : STATUS_RECORD_NOT_FOUND), "delete status"); }
  else if (op == 2) { if (!R[i].c.live) return 0; tick(); long long t = now(); st = zrename(IFL, R[i].path, g_names ? "/A/NEW/C//E/F/" : "/A/A NEW NAME LONGER THAN THE OLD ONE/C//E/F/"); dsym_assert(st == 0 || g_names > 1, "rename"); if (st == 0) { R[i].path = g_names ? "/A/NEW/C//E/F/" : "/A/A NEW NAME LONGER THAN THE OLD ONE/C//E/F/"; long long f = zgetLastWriteTimeFile(IFL); if (f > t) { flo = t; fhi = now(); } } g_names++; }
  else if (op == 3) { tick(); zStructTransfer* t = zstructTransferNew(R[i].path, 0); int w[2] = { 1, 2 }; t->dataType = 700; t->values1 = w; t->values1Number = 2; t->numberValues = 2; if (!R[i].c.live) { zstructFree(t); return 0; } st = zwrite(IFL, t); zstructFree(t); dsym_assert(st != 0, "a write of another type is refused"); }
  else if (op == 4) { tick(); zStructTransfer* t = zstructTransferNew(R[i].path, 1); zread(IFL, t); zstructFree(t); zcheck(IFL, R[!i].path); st = zdelete(IFL, "/NO/SUCH/RECORD///X/"); dsym_assert(st == STATUS_RECORD_NOT_FOUND, "deleting a missing record"); }
  else { tick(); if (R[i].c.live || R[i].everDeleted != 1) return 0; long long t = now(); st = zundelete(IFL, R[i].path); if (st == 0) { R[i].c = R[i].undel; R[i].everDeleted = 0; long long f = zgetLastWriteTimeFile(IFL); if (f > t) { flo = t; fhi = now(); } } }
  return 1;
}
static void hist(int steps) { g_nsym = 0; int rl = pick(1, 3, "reclaim"); base(3); zsetFile(IFL, "RECLAIM", "", rl); for (int k = 0; k < steps; k++) { if (!step()) dsym_stop(); chk(IFL, 1); } tick(); zclose(IFL); tick(); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); chk(IFL, 1); dsym_cover("end"); }
void h_history(void) { hist(2 + THOROUGH); }
// program names of every length
void h_program(void) {
  static char nm[24]; int n = pick(1, 17, "length"), m; m = pick(0, 2, "then"); g_nsym = 0; for (int i = 0; i < n; i++) nm[i] = 'a' + i; base(1); prog(nm); wr(0, 3); chk(IFL, 0);
  if (m) { prog(m == 1 ? "B" : "sixteen letters."); wr(0, m == 1 ? 3 : 6); chk(IFL, 0); } zclose(IFL); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "opens again"); chk(IFL, 1); dsym_cover("end");
}
// selection of a catalog by write time
void h_search(void) {
  g_nsym = 0; int srt = pick(0, 2, "sort"), how = pick(-2, 2, "search"), wild, w; wild = pick(0, 1, "filter"); w = pick(0, 1, "rewritten"); base(4); if (w) { wr(1, 0); wr(0, 6); } int at = pick(0, 3, "at"), off; off = pick(-1, 1, "offset");
  long long q = zgetLastWriteTimeRec(IFL, R[at].path) + off; int want[4], k = 0; for (int i = 0; i < 4; i++) { long long t = zgetLastWriteTimeRec(IFL, R[i].path); want[i] = (how == -2 ? t < q : how == -1 ? t <= q : how == 0 ? t == q : how == 1 ? t >= q : t > q) && (!wild || i != 3); k += want[i]; }
  zStructCatalog* c = zstructCatalogNew(); c->lastWriteTimeSearch = q; c->lastWriteTimeSearchFlag = how; int n = zcatalog(IFL, wild ? "/A/*/*/*/*/*/" : 0, c, srt); dsym_assert(n == k || (k == 0 && n <= 0), "number selected by write time");
  for (int i = 0; i < 4; i++) { int f = 0; for (int j = 0; j < n; j++) if (!cmpci(c->pathnameList[j], R[i].path)) { f++; if (c->lastWriteTimeRecord) dsym_assert(c->lastWriteTimeRecord[j] == zgetLastWriteTimeRec(IFL, R[i].path), "selected: write time"); } dsym_assert(f == want[i], "records selected by write time"); } zstructFree(c);
  c = zstructCatalogNew(); n = zcatalog(IFL, 0, c, srt); dsym_assert(n == 4, "a later catalog lists everything"); zstructFree(c); dsym_cover("end");
}
// what changed since
static void changed(int crc) {
  g_nsym = 0; int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); nrec = 4; for (int i = 0; i < 3; i++) { R[i].path = N[i]; st = wr(i, i == 1 ? 5 : 3); dsym_assert(st == 0, "write succeeds"); } R[3].path = N[3]; int own = pick(0, 1, "own"), wild; wild = pick(0, 1, "filter"); tick(); const char* f = wild ? "/A/*/*/*/*/*/" : 0;
  zStructCatalog* b = own ? zstructCatalogNew() : 0; st = zwhatChangedSetStart(IFL, b, f, crc); dsym_assert(st >= 0, "start set"); int tm[4] = { 0 }, vl[4] = { 0 };
  for (int k = 0; k < 2; k++) { int op = pick(0, 4, "op"), i; i = pick(0, 3, "rec"); tick(); int was = i < 3;
    if (op == 0) { st = wr(i, 7); dsym_assert(st == 0, "write succeeds"); tm[i] = vl[i] = 1; }
    else if (op == 1) { if (!R[i].c.live) dsym_stop(); zStructTransfer* t = zstructTransferNew(R[i].path, 1); zread(IFL, t); long long a = now(); st = zwrite(IFL, t); zstructFree(t); dsym_assert(st == 0, "rewritten as it was"); wrote(i, a, 0); tm[i] = 1; }
    else if (op == 2) { if (!R[i].c.live) dsym_stop(); zStructTransfer* t = zstructTransferNew(R[i].path, 1); zread(IFL, t); int* v = t->values1; v[t->values1Number - 1] ^= 0x01000000; long long a = now(); st = zwrite(IFL, t); zstructFree(t); dsym_assert(st == 0, "last byte changed"); wrote(i, a, 0); tm[i] = 1; vl[i] = vl[i] == 2 ? 0 : vl[i] ? 1 : was ? 2 : 1; }
    else if (op == 3) { st = del(i); tm[i] = vl[i] = 0; }
    else { zStructTransfer* t = zstructTransferNew(R[i].path, 1); zread(IFL, t); zstructFree(t); } 
    if (k == 0 && op > 2) dsym_stop(); }
  zStructCatalog* c = zstructCatalogNew(); int n = own ? zwhatChangedCompare(IFL, b, c, f, crc) : zwhatChanged(IFL, c), w = 0; for (int i = 0; i < 4; i++) { int want = (crc ? vl[i] : tm[i]) && !(wild && i == 3), m = 0; w += !!want; for (int j = 0; j < n; j++) if (!cmpci(c->pathnameList[j], R[i].path)) { m++; if (c->recordType) dsym_assert(c->recordType[j] == TYPE, "type of a changed record"); } dsym_assert(m == !!want, crc ? "the records whose content changed are listed" : "the records written since are listed"); }
  dsym_assert(n == w && c->numberPathnames == w, "number of changed records"); zstructFree(c); if (b) zstructFree(b); zclose(IFL); dsym_cover("end");
}
void h_changed(void) { changed(0); }
void h_changed_crc(void) { changed(1); }
// checksums: equal for equal content wherever it is kept, different after any change of one byte
static const short Z[][6] = { {0,0,0,4,0,0}, {0,1,1,1,1,1}, {0,0,0,2,0,3}, {0,0,0,3,0,1}, {0,2,3,0,4,0}, {0,0,0,1,2,5}, {1,2,2,0,0,1} };
static void put(const char* p, const short* z, int part, int at, unsigned char x) {
  zStructTransfer* t = zstructTransferNew(p, 0); t->dataType = TYPE; int* d[6]; for (int a = 0; a < 6; a++) { int* n; int** q = fld(t, a, &n); d[a] = mk(z[a], a + 3, 0); if (a == A_UH && z[a]) d[a][0] = 0x01020304; if (a == part) ((unsigned char*)d[a])[at] ^= x; if (z[a]) { *q = d[a]; *n = z[a]; } }
  t->numberValues = 1; t->logicalNumberValues = 1; int st = zwrite(IFL, t); dsym_assert(st == 0, "write succeeds"); zstructFree(t); for (int a = 0; a < 6; a++) free(d[a]);
}
void h_crc_byte(void) {
  int s = pick(0, 6, "sizes"), part, n, at; n = 0; int ps[6]; for (int a = 1; a < 6; a++) if (Z[s][a]) ps[n++] = a; part = pick(0, n - 1, "part"); part = ps[part]; at = pick(0, 4 * Z[s][part] - 1, "byte"); dsym_assert(openf(IFL, "a.dss") == 0, "open");
  put(N[2], Z[s], -1, 0, 0); put(N[1], Z[s], -1, 0, 0); put(N[3], Z[3], -1, 0, 0); unsigned c1 = zgetDataCRC(IFL, N[2], 0), c2 = zgetDataCRC(IFL, N[1], 0); dsym_assert(c1 == c2, "equal contents have equal checksums"); zgetDataCRC(IFL, N[3], 0); c2 = zgetDataCRC(IFL, N[1], 0); dsym_assert(c1 == c2, "the checksum does not depend on what was asked before");
  unsigned char x = pick(0, 1, "bit") ? 0x80 : 1; put(N[1], Z[s], part, at, x); c2 = zgetDataCRC(IFL, N[1], 0); dsym_assert(c1 != c2, "a changed byte changes the checksum"); dsym_cover("end");
}
// one step of the checksum loses nothing: a different byte, or a different checksum so far, gives a different result. With h_crc_byte (every byte of every part goes in), any change of one byte is seen
unsigned int* crc32_filltable(unsigned int*, int); unsigned int crc32_block_endian0(unsigned int, const void*, unsigned int, unsigned int*);
void h_crc_step(void) {
  unsigned int* t = crc32_filltable(0, 0); unsigned v, w; unsigned char b, c; dsym_sym(&v, 4, "sofar"); dsym_sym(&b, 1, "byte"); int how = pick(0, 1, "differs"); if (how) { w = v; dsym_sym(&c, 1, "byte2"); dsym_assume(c != b); } else { c = b; dsym_sym(&w, 4, "sofar2"); dsym_assume(w != v); }
  unsigned x = crc32_block_endian0(v, &b, 1, t), y = crc32_block_endian0(w, &c, 1, t); dsym_assert(x != y, "a step of the checksum keeps what differs"); dsym_cover("end");
}
// any kind of record: stored twice, and read back with its write time
void h_kinds(void) {
  int k = pick(0, NKIND - 1, "kind"), sz, st; sz = k == GRD ? 0 : pick(0, 1, "size"); P = k <= RTD ? PR : k <= ITD ? PI : P0; g_nsym = 0; st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); nrec = 1; R[0].path = N[0]; tick(); prog("first program"); long long t = now(), c; st = store(k, 0, 0); dsym_assert(st == 0, "stored"); c = now();
  wr(0, 3); tick(); for (int rep = 0; rep < 3; rep++) {
    if (rep) { prog("another"); tick(); t = now(); st = store(k, rep, sz); dsym_assert(st == 0, "stored again"); c = now(); wr(0, 3); chk(IFL, 0); }
    long long f = zgetLastWriteTimeRec(IFL, P); dsym_assert(inr(f, t, c), "write time of the last store"); zStructRecordSize* s = zstructRecordSizeNew(P); st = zgetRecordSize(IFL, s); dsym_assert(st == 0 && s->version == rep + 1, "version counts the stores"); dsym_assert(!strcmp(s->programLastWrite, g_prog), "program of the last store"); zstructFree(s);
    zStructCatalog* q = zstructCatalogNew(); int n = zcatalog(IFL, 0, q, 0), m = 0; for (int j = 0; j < n; j++) if (!cmpci(q->pathnameList[j], P)) { m++; dsym_assert(q->lastWriteTimeRecord[j] == f, "catalog: write time"); } dsym_assert(m == 1, "catalog lists it"); zstructFree(q);
    if (k <= ITD) { zStructTimeSeries* ts = zstructTsNew(P); st = ztsRetrieve(IFL, ts, 0, 1, 0); dsym_assert(st == 0 && ts->lastWrittenTime == f && !strcmp(ts->programName, g_prog), "time series: write time and program"); dsym_assert(inr(ts->fileLastWrittenTime, flo > t ? flo : t, now()), "time series: file's write time"); zstructFree(ts); }
    else if (k <= PDD) { zStructPairedData* p = zstructPdNew(P); st = zpdRetrieve(IFL, p, 0); dsym_assert(st == 0 && p->lastWrittenTime == f && !strcmp(p->programName, g_prog), "paired data: write time and program"); zstructFree(p); }
    else if (k <= TXTT) { zStructText* x = zstructTextNew(P); st = ztextRetrieve(IFL, x); dsym_assert(st == 0 && x->lastWrittenTime == f && !strcmp(x->programName, g_prog), "text: write time and program"); zstructFree(x); }
    else if (k == ARR) { zStructArray* a = zstructArrayNew(P); st = zarrayRetrieve(IFL, a); dsym_assert(st == 0 && a->lastWrittenTime == f && !strcmp(a->programName, g_prog), "array: write time and program"); zstructFree(a); } }
  dsym_cover("end");
}
// part of a paired data record stored
void h_part(void) {
  int d, c0, o, st; d = pick(0, 1, "double"); o = pick(1, 3, "ordinate"); c0 = pick(1, 2, "curve"); P = P0; st = openf(IFL, "a.dss"); dsym_assert(st == 0, "open"); tick(); vals(1); double dv[6]; float fv[6]; for (int i = 0; i < 6; i++) dv[i] = fv[i] = i + 1;
  zStructPairedData* p = d ? zstructPdNewDoubles(P, dv, dv, 3, 2, "FT", "UNT", "CFS", "UNT") : zstructPdNewFloats(P, fv, fv, 3, 2, "FT", "UNT", "CFS", "UNT"); st = zpdStore(IFL, p, 0); dsym_assert(st == 0, "stored"); zstructFree(p); tick(); prog("part"); long long t = now();
  p = zstructPdNew(P); dv[0] = fv[0] = 77; if (d) p->doubleValues = dv; else p->floatValues = fv; p->numberOrdinates = 3; p->numberCurves = 2; p->startingOrdinate = o; p->endingOrdinate = o; p->startingCurve = c0; p->endingCurve = c0; unsigned a = zgetDataCRC(IFL, P, 0); st = zpdStore(IFL, p, d ? 11 : 10); zstructFree(p); if (st) st = -1; dsym_assert(st == 0, "part stored"); long long e = now();
  unsigned b = zgetDataCRC(IFL, P, 0); dsym_assert(a != b, "the checksum changed"); long long f = zgetLastWriteTimeRec(IFL, P); dsym_assert(inr(f, t, e), "write time of the partial store"); long long g = zgetLastWriteTimeFile(IFL); dsym_assert(inr(g, t, e), "file's write time of the partial store"); dsym_cover("end");
}
// two handles: each sees the other's writes
static long long I2[250];
void h_two(void) {
  int m = pick(0, 2, "op"), i, warm; i = pick(0, 1, "rec"); warm = pick(0, 1, "warm"); g_nsym = 0; base(2); int st = openf(I2, "a.dss"); dsym_assert(st == 0, "second handle"); if (warm) chk(I2, 1); tick();
  if (m == 0) { st = wr(i, 3); dsym_assert(st == 0, "write"); } else if (m == 1) { st = wr(i, 6); dsym_assert(st == 0, "write"); } else { st = del(i); dsym_assert(st == 0, "delete"); } chk(I2, 1); chk(IFL, 1); zclose(I2); zclose(IFL); dsym_cover("end");
}
// copies keep the write time; duplicates are new
void h_copy(void) {
  int m = pick(0, 3, "how"), i, was; i = pick(0, 1, "rec"); was = m < 2 ? pick(0, 1, "existing") : 0; g_nsym = 0; prog("origin"); base(2); wr(i, 6); tick(); int st = openf(I2, "b.dss"); dsym_assert(st == 0, "second file"); prog("copier"); if (was) { zStructTransfer* t = zstructTransferNew(m ? N[3] : R[i].path, 0); int w[2] = { 1, 2 }; t->dataType = TYPE; t->values1 = w; t->values1Number = 2; t->numberValues = 2; st = zwrite(m ? IFL : I2, t); zstructFree(t); dsym_assert(st == 0, "existing record"); } tick(); long long t = now();
  if (m == 0) st = zcopyRecord(IFL, I2, R[i].path, R[i].path); else if (m == 1) st = zduplicateRecord(IFL, R[i].path, N[3]); else if (m == 2) st = zcopyFile(IFL, I2, 0); else { zclose(IFL); st = zsqueeze("a.dss"); int s2 = openf(IFL, "a.dss"); dsym_assert(s2 == 0, "opens again"); }
  dsym_assert(st == 0, "copied"); long long e = now(); if (m != 1) { g_clo = t; g_chi = e; } long long* to = m == 0 || m == 2 ? I2 : IFL; const char* q = m == 1 ? N[3] : R[i].path; if (m != 1) { flo = 0; fhi = now(); } else { flo = t; fhi = e; }
  if (m == 1) { nrec = 3; R[2].path = N[3]; R[2].c.live = 1; wrote(2, t, 1); W[2].hi = e; if (was) { zStructRecordBasics* b = zstructRecordBasicsNew(q); zgetRecordBasics(IFL, b); W[2].ver = b->version; W[2].clo = 0; zstructFree(b); } else { zStructRecordBasics* b = zstructRecordBasicsNew(q); zgetRecordBasics(IFL, b); W[2].ver = b->version; W[2].clo = 0; zstructFree(b); } chk(IFL, 1); }
  else { if (m == 0) { R[!i].c.live = 0; } chk(to, 1); } dsym_cover("end");
}
// written through an alias: the record itself is what was written
int zaliasAdd(long long*, const char*, const char*);
void h_alias(void) {
  int c = pick(0, 2, "size"), pd, st; pd = pick(0, 1, "crc"); static const char cl[] = { 3, 0, 6 }; g_nsym = 0; base(2); st = zaliasAdd(IFL, N[0], "/AN/ALIAS/C//E/F/"); dsym_assert(st == 0, "alias"); flo = 0; fhi = now(); tick(); zStructCatalog* b = zstructCatalogNew(); zwhatChangedSetStart(IFL, b, 0, pd); tick();
  long long t = now(); R[0].path = "/AN/ALIAS/C//E/F/"; st = op_write(IFL, 0, cl[c]); dsym_assert(st == 0, "written through the alias"); wrote(0, t, 0); chk(IFL, 0); R[0].path = N[0]; chk(IFL, 0);
  zStructCatalog* q = zstructCatalogNew(); int n = zwhatChangedCompare(IFL, b, q, 0, pd), m = 0, o = 0; for (int j = 0; j < n; j++) if (!cmpci(q->pathnameList[j], N[0])) m++; else if (!cmpci(q->pathnameList[j], N[1])) o++; dsym_assert(m == 1, "a record written through its alias is listed as changed"); dsym_assert(o == 0, "the other record is not"); zstructFree(b); zstructFree(q); dsym_cover("end");
}
