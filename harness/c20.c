// C20: grids and location data read back every field
#include "hist.h"
static const char* PG = "/SHG/L/PRECIP/01JAN2000:0100/01JAN2000:0200/V/"; static const char* PO = "/A/B/C//E/F/";
#define DF ((dss_file*)IFL)
int zlocationDelete(long long*, const char*);
static void other(void) { nrec = 1; R[0].path = PO; g_nsym = 0; int st = op_write(IFL, 0, 3); dsym_assert(st == 0, "another record is stored"); }
static void other_ok(void) { int r = agree(IFL, 0); dsym_assert(r == 0, "another record is not disturbed"); }
static void reopen(void) { if (pick(0, 1, "reopen")) { zclose(IFL); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "the file opens again"); } }
static char* text(int n, int seed, int sym, const char* nm) { char* p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = 'a' + (i * 7 + seed) % 26; p[n] = 0; if (sym && n) { dsym_sym(p + n - 1, 1, nm); dsym_assume((p[n - 1] > 32) & (p[n - 1] < 127)); } return p; }
typedef struct { int type, dt, llx, lly, nx, ny, nr, srs, tz, iv, ts; char* s[5]; float f[7]; float* rng; int* his; float* d; int cm; } grid;
static unsigned symbits(const char* nm) { unsigned v; dsym_sym(&v, 4, nm); return v; }
static void symf(float* p, const char* nm) { unsigned v = symbits(nm); memcpy(p, &v, 4); }
static const int SHAPE[][2] = {{1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 5}, {9, 7}, {20, 15}, {0, 0}}; static const int TYP[] = {400, 401, 410, 411, 420, 421, 430, 431};
static grid mkgrid(int shape, int type, int nr, const int* len, int sym, int seed) {
  grid g; memset(&g, 0, sizeof g); g.type = type; g.nx = SHAPE[shape][0]; g.ny = SHAPE[shape][1]; g.nr = nr; g.dt = 1 + seed; g.llx = 311; g.lly = -22 * seed; g.srs = 1; g.tz = -28800000; g.iv = 1; g.ts = 0; int n = g.nx * g.ny; g.cm = ZLIB_COMPRESSION;
  if (sym & 1) { g.dt = sym_int("data type"); g.llx = sym_int("lower left x"); g.lly = sym_int("lower left y"); g.srs = sym_int("srs type"); g.tz = sym_int("offset"); g.iv = sym_int("interval"); g.ts = sym_int("stamped"); }
  static const char* SN[] = {"units", "source", "srs", "definition", "zone"}; for (int i = 0; i < 5; i++) g.s[i] = text(len[i], i + seed, sym & 2, SN[i]);
  for (int i = 0; i < 7; i++) g.f[i] = 1.5f * i + seed; if (sym & 4) { static const char* FN[] = {"cell size", "x0", "y0", "null", "max", "min", "mean"}; for (int i = 0; i < 7; i++) symf(g.f + i, FN[i]); }
  g.rng = malloc(4 * nr + 4); g.his = malloc(4 * nr + 4); for (int i = 0; i < nr; i++) { g.rng[i] = i * 2.5f + seed; g.his[i] = 100 - i; } if ((sym & 8) && nr) { symf(g.rng, "first limit"); symf(g.rng + nr - 1, "last limit"); g.his[0] = sym_int("first count"); g.his[nr - 1] = sym_int("last count"); }
  g.d = malloc(4 * n + 4); for (int i = 0; i < n; i++) g.d[i] = i * 0.75f + seed; if ((sym & 16) && n) { symf(g.d, "first cell"); symf(g.d + n / 2, "middle cell"); symf(g.d + n - 1, "last cell"); }
  return g;
}
static int put(grid* g) { return hec_dss_gridStore(DF, PG, g->type, g->dt, g->llx, g->lly, g->nx, g->ny, g->nr, g->srs, g->tz, g->iv, g->ts, 0, g->s[0], g->s[1], g->s[2], g->s[3], g->s[4], g->f[0], g->f[1], g->f[2], g->f[3], g->f[4], g->f[5], g->f[6], g->rng, g->his, g->d); }
static void got(grid* g, int data) {
  int n = g->nx * g->ny, nr = g->nr, q[11]; char* b[5]; int cap[5]; float f[7] = {0}; float* rng = malloc(4 * nr + 4); int* his = malloc(4 * nr + 4); float* d = malloc(4 * n + 4); memset(q, 0x55, sizeof q); memset(rng, 0x55, 4 * nr + 4); memset(his, 0x55, 4 * nr + 4); memset(d, 0x55, 4 * n + 4);
  for (int i = 0; i < 5; i++) { cap[i] = strlen(g->s[i]) + 1; b[i] = malloc(cap[i]); memset(b[i], 0x55, cap[i]); }
  int st = hec_dss_gridRetrieve(DF, PG, data, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8, q + 9, q + 10, b[0], cap[0], b[1], cap[1], b[2], cap[2], b[3], cap[3], b[4], cap[4], f, f + 1, f + 2, f + 3, f + 4, f + 5, f + 6, rng, nr, his, d, n); dsym_assert(st == 0, "the grid is retrieved");
  dsym_assert((q[0] == g->type) & (q[4] == g->nx) & (q[5] == g->ny) & (q[6] == nr), "type and sizes"); dsym_assert((q[1] == g->dt) & (q[2] == g->llx) & (q[3] == g->lly) & (q[7] == g->srs) & (q[8] == g->tz) & (q[9] == g->iv) & (q[10] == g->ts), "every whole-number field");
  for (int i = 0; i < 5; i++) dsym_assert(dsym_memeq(b[i], g->s[i], cap[i]), "every text"); dsym_assert(dsym_memeq(f, g->f, 16), "cell size, origin and null value");
  if (data) { dsym_assert(dsym_memeq(f + 4, g->f + 4, 12), "statistics"); dsym_assert(dsym_memeq(rng, g->rng, 4 * nr) & dsym_memeq(his, g->his, 4 * nr), "ranges"); dsym_assert(dsym_memeq(d, g->d, 4 * n), "every cell"); }
  dsym_assert(((unsigned*)d)[n] == 0x55555555u && ((unsigned*)rng)[nr] == 0x55555555u && his[nr] == 0x55555555, "nothing beyond"); for (int i = 0; i < 5; i++) free(b[i]); free(rng); free(his); free(d);
}
static const int L0[] = {2, 5, 7, 13, 3};
static void fields(int shapes, int sym) { openf(IFL, "a.dss"); other(); int sh = pick(0, shapes - 1, "shape"), nr = pick(0, 4, "ranges"), ty = TYP[sh == 0 && nr == 1 ? pick(0, 7, "type") : (sh + nr) % 8]; rt_zpad = THOROUGH || sh == 1 ? pick(0, 3, "compressed length mod 4") : (sh + nr) % 4; grid g = mkgrid(sh, ty, nr, L0, sym, 3); int st = put(&g); dsym_assert(st == 0, "the grid is stored"); reopen(); got(&g, 1); got(&g, 0); other_ok(); zclose(IFL); dsym_cover("end"); }
void h_grid_fields(void) { fields(THOROUGH ? 3 : 2, 1 | 4 | 8); }
void h_grid_cells(void) { fields(7, 16); }
void h_grid_texts(void) { openf(IFL, "a.dss"); other(); static const int L[] = {0, 1, 3, 4, 8}; int len[5]; int w = pick(0, 4, "which"), o = pick(0, 4, "others"); for (int i = 0; i < 5; i++) len[i] = i == w ? pick(0, THOROUGH ? 40 : 9, "length") : L[(w * 2 + i + o) % 5]; grid g = mkgrid(1, 420, 2, len, 2, 1); int st = put(&g); dsym_assert(st == 0, "the grid is stored"); reopen(); got(&g, 1); other_ok(); zclose(IFL); dsym_cover("end"); }
void h_grid_again(void) {
  openf(IFL, "a.dss"); zsetFile(IFL, "RECLAIM", "", pick(1, 3, "reclaim")); other(); int a = pick(0, 6, "first"), b = pick(0, 6, "second"), c = pick(0, 6, "third"); if (!THOROUGH && c != a && c != (b + 1) % 7) dsym_stop(); static const int LL[3][5] = {{2, 5, 7, 13, 3}, {0, 0, 0, 0, 0}, {9, 30, 11, 60, 3}}; rt_zpad = 2;
  grid g[3]; int s[3] = {a, b, c}; for (int i = 0; i < 3; i++) { g[i] = mkgrid(s[i], 420, (s[i] + i) % 4, LL[i], i == 2 ? 16 : 0, i + 1); int st = put(&g[i]); dsym_assert(st == 0, "the grid is stored"); } got(&g[2], 1); reopen(); got(&g[2], 1); other_ok(); zclose(IFL); dsym_cover("end");
}
// structures: both compressions, the version number, data or not
void h_grid_struct(void) {
  openf(IFL, "a.dss"); other(); int sh = pick(0, THOROUGH ? 5 : 2, "shape"), cm = pick(0, 1, "zlib") ? ZLIB_COMPRESSION : NO_COMPRESSION, data = pick(0, 1, "data"), str = pick(0, 2, "texts"); grid g = mkgrid(sh, 420, 2, L0, cm == NO_COMPRESSION ? 27 : 21, 2); zStructSpatialGrid* z = zstructSpatialGridNew(PG); int n = g.nx * g.ny;
  z->_type = g.type; z->_version = sym_int("version"); z->_dataType = g.dt; z->_lowerLeftCellX = g.llx; z->_lowerLeftCellY = g.lly; z->_numberOfCellsX = g.nx; z->_numberOfCellsY = g.ny; z->_numberOfRanges = g.nr; z->_srsDefinitionType = g.srs; z->_timeZoneRawOffset = g.tz; z->_isInterval = g.iv; z->_isTimeStamped = g.ts; z->_compressionMethod = cm;
  if (str) { z->_dataUnits = g.s[0]; z->_srsName = g.s[2]; } if (str == 2) { z->_dataSource = g.s[1]; z->_srsDefinition = g.s[3]; z->_timeZoneID = g.s[4]; } z->_cellSize = g.f[0]; z->_xCoordOfGridCellZero = g.f[1]; z->_yCoordOfGridCellZero = g.f[2]; z->_nullValue = g.f[3]; z->_storageDataType = GRID_FLOAT; z->_maxDataValue = g.f + 4; z->_minDataValue = g.f + 5; z->_meanDataValue = g.f + 6; z->_rangeLimitTable = g.rng; z->_numberEqualOrExceedingRangeLimit = g.his; z->_data = g.d; int ver = z->_version;
  int st = zspatialGridStore(IFL, z); dsym_assert(st == 0, "the grid is stored"); dsym_assert(z->_data == (void*)g.d && z->_rangeLimitTable == (void*)g.rng, "the caller's structure is as it was"); reopen(); int sv = 0; st = zspatialGridRetrieveVersion(IFL, PG, &sv); dsym_assert(st == 0 && sv == 100, "structure version");
  zStructSpatialGrid* r = zstructSpatialGridNew(PG); st = zspatialGridRetrieve(IFL, r, data); dsym_assert(st == 0, "the grid is retrieved"); dsym_assert((r->_version == ver) & (r->_type == g.type) & (r->_dataType == g.dt) & (r->_lowerLeftCellX == g.llx) & (r->_lowerLeftCellY == g.lly) & (r->_numberOfCellsX == g.nx) & (r->_numberOfCellsY == g.ny) & (r->_numberOfRanges == g.nr) & (r->_srsDefinitionType == g.srs) & (r->_timeZoneRawOffset == g.tz) & (r->_isInterval == g.iv) & (r->_isTimeStamped == g.ts) & (r->_compressionMethod == cm) & (r->_storageDataType == GRID_FLOAT), "every whole-number field");
  char* want[5]; for (int i = 0; i < 5; i++) want[i] = str == 2 || (str == 1 && (i == 0 || i == 2)) ? g.s[i] : ""; char* have[5] = {r->_dataUnits, r->_dataSource, r->_srsName, r->_srsDefinition, r->_timeZoneID}; for (int i = 0; i < 5; i++) { int e = strlen(want[i]); dsym_assert((have[i] != 0 && dsym_memeq(have[i], want[i], e + 1)) || (have[i] == 0 && e == 0), "every text"); }
  float f[4] = {r->_cellSize, r->_xCoordOfGridCellZero, r->_yCoordOfGridCellZero, r->_nullValue}; dsym_assert(dsym_memeq(f, g.f, 16), "cell size, origin and null value"); int hs = r->_maxDataValue && r->_minDataValue && r->_meanDataValue && r->_rangeLimitTable && r->_numberEqualOrExceedingRangeLimit; dsym_assert(hs, "statistics and ranges are there"); if (hs) { dsym_assert(dsym_memeq(r->_maxDataValue, g.f + 4, 4) & dsym_memeq(r->_minDataValue, g.f + 5, 4) & dsym_memeq(r->_meanDataValue, g.f + 6, 4), "statistics"); dsym_assert(dsym_memeq(r->_rangeLimitTable, g.rng, 8) & dsym_memeq(r->_numberEqualOrExceedingRangeLimit, g.his, 8), "ranges"); }
  if (data) dsym_assert(r->_data && dsym_memeq(r->_data, g.d, 4 * n), "every cell"); other_ok(); zstructFree(r); zclose(IFL); dsym_cover("end");
}
// locations
static const char* PP[] = {"/BASIN/PLACE/FLOW/01Jan1990/1Day/V/", "//PLACE/FLOW/01Jan1990/1Day/V/", "/BASIN//FLOW/01Jan1990/1Day/V/"};
typedef struct { double x, y, z; int c[6]; char *tz, *su; } loc;
static double symd(const char* nm) { double d; dsym_sym(&d, 8, nm); dsym_assume(d == d); return d; }
static loc mkloc(int ltz, int lsu, int sym, int seed) { loc l; l.x = -121.5 + seed; l.y = 38.25 + seed; l.z = 100.5 * seed; for (int i = 0; i < 6; i++) l.c[i] = i + seed; l.c[0] = 2; if (sym & 1) { l.x = symd("x"); l.y = symd("y"); l.z = symd("z"); } if (sym & 2) { for (int i = 1; i < 6; i++) l.c[i] = sym_int("code"); } if (sym & 4) { l.c[0] = 1; l.c[2] = 3; } l.tz = ltz < 0 ? 0 : text(ltz, seed, 1, "zone"); l.su = lsu < 0 ? 0 : text(lsu, seed + 3, 1, "supplemental"); return l; }
static int putloc(const char* p, loc* l, int rep) { return hec_dss_locationStore(DF, p, l->x, l->y, l->z, l->c[0], l->c[1], l->c[2], l->c[3], l->c[4], l->c[5], l->tz ? l->tz : "", l->su ? l->su : "", rep); }
static void gotloc(const char* p, loc* l) {
  double x = 0, y = 0, z = 0; int c[6] = {0}; int lt = l->tz ? strlen(l->tz) : 0, ls = l->su ? strlen(l->su) : 0; char *tz = malloc(lt + 1), *su = malloc(ls + 1); memset(tz, 0x55, lt + 1); memset(su, 0x55, ls + 1); if (!lt) *tz = 0; if (!ls) *su = 0;
  int st = hec_dss_locationRetrieve(DF, p, &x, &y, &z, c, c + 1, c + 2, c + 3, c + 4, c + 5, tz, lt + 1, su, ls + 1); dsym_assert(st == 0, "the location is retrieved"); dsym_assert(dsym_memeq(&x, &l->x, 8) & dsym_memeq(&y, &l->y, 8) & dsym_memeq(&z, &l->z, 8), "coordinates"); dsym_assert(dsym_memeq(c, l->c, 24), "units and datums"); dsym_assert(dsym_memeq(tz, l->tz ? l->tz : "", lt + 1), "time zone"); dsym_assert(dsym_memeq(su, l->su ? l->su : "", ls + 1), "supplemental text"); free(tz); free(su);
  zStructLocation* q = zstructLocationNew(p); st = zlocationRetrieve(IFL, q); dsym_assert(st == 0, "the location structure is retrieved"); dsym_assert(dsym_memeq(&q->xOrdinate, &l->x, 8) & dsym_memeq(&q->yOrdinate, &l->y, 8) & dsym_memeq(&q->zOrdinate, &l->z, 8), "coordinates"); const char *a = q->timeZoneName ? q->timeZoneName : "", *b = q->supplemental ? q->supplemental : ""; dsym_assert(strlen(a) == lt && dsym_memeq(a, l->tz ? l->tz : "", lt), "time zone"); dsym_assert(strlen(b) == ls && dsym_memeq(b, l->su ? l->su : "", ls), "supplemental text"); zstructFree(q);
}
static void nothing(const char* p) { zStructLocation* q = zstructLocationNew(p); int st = zlocationRetrieve(IFL, q); dsym_assert(st == -1, "no location"); zstructFree(q); }
static double V[4] = {1.5, 2.5, 3.5, 4.5};
static int PDK;
static zStructLocation* lstruct(const char* p, loc* l, int own) { zStructLocation* q = zstructLocationNew(own ? p : 0); q->xOrdinate = l->x; q->yOrdinate = l->y; q->zOrdinate = l->z; q->coordinateSystem = l->c[0]; q->coordinateID = l->c[1]; q->horizontalUnits = l->c[2]; q->horizontalDatum = l->c[3]; q->verticalUnits = l->c[4]; q->verticalDatum = l->c[5]; q->timeZoneName = l->tz; q->supplemental = l->su; return q; }
static void lsame(zStructLocation* q, loc* l) { dsym_assert(dsym_memeq(&q->xOrdinate, &l->x, 8) & dsym_memeq(&q->yOrdinate, &l->y, 8) & dsym_memeq(&q->zOrdinate, &l->z, 8) & (q->coordinateSystem == l->c[0]) & (q->coordinateID == l->c[1]) & (q->horizontalUnits == l->c[2]) & (q->horizontalDatum == l->c[3]) & (q->verticalUnits == l->c[4]) & (q->verticalDatum == l->c[5]), "the location comes with the data set"); }
static int putpd(const char* p, loc* l, int own) { zStructPairedData* t = zstructPdNewDoubles(p, V, V, 4, 1, "FT", "UNT", "CFS", "UNT"); if (l) t->locationStruct = lstruct(p, l, own); int st = zpdStore(IFL, t, 0); if (l) { zstructFree(t->locationStruct); t->locationStruct = 0; } zstructFree(t); return st; }
static void pdok(const char* p, loc* l) { zStructPairedData* t = zstructPdNew(p); zStructLocation* q = zstructLocationNew(p); t->locationStruct = q; int st = zpdRetrieve(IFL, t, 2); dsym_assert(st == 0 && t->numberOrdinates == 4, "the data set is retrieved"); if (!st) dsym_assert(dsym_memeq(t->doubleValues, V, 32) & dsym_memeq(t->doubleOrdinates, V, 32), "the data set is not disturbed"); if (!st && l) lsame(q, l); zstructFree(q); t->locationStruct = 0; zstructFree(t); }
static int putts(const char* p, loc* l, int own) { if (PDK) return putpd(p, l, own); zStructTimeSeries* t = zstructTsNewRegDoubles(p, V, 4, "05Jan1990", "2400", "CFS", "PER-AVER"); if (l) t->locationStruct = lstruct(p, l, own); int st = ztsStore(IFL, t, 0); if (l) { zstructFree(t->locationStruct); t->locationStruct = 0; } zstructFree(t); return st; }
static void tsok(const char* p, loc* l) { if (PDK) { pdok(p, l); return; } zStructTimeSeries* t = zstructTsNewTimes(p, "05Jan1990", "2400", "08Jan1990", "2400"); zStructLocation* q = zstructLocationNew(p); t->locationStruct = q; int st = ztsRetrieve(IFL, t, 0, 2, 1); dsym_assert(st == 0 && t->numberValues == 4, "the data set is retrieved"); if (!st) dsym_assert(dsym_memeq(t->doubleValues, V, 32), "the data set is not disturbed"); if (!st && l) lsame(q, l); zstructFree(q); t->locationStruct = 0; zstructFree(t); }
static int any(loc* l) { return l->x != 0 || l->y != 0 || l->z != 0 || l->c[3] || l->c[5] || l->su || (l->tz && *l->tz); }
void h_location(void) { openf(IFL, "a.dss"); other(); int p = pick(0, 2, "path"); int st = putts(PP[p], 0, 0); dsym_assert(st == 0, "the data set is stored"); int k = pick(0, 2, "lengths"); int a = k == 0 ? -1 : pick(0, THOROUGH ? 80 : 12, "zone length"); int b = k == 0 ? -1 : k == 1 ? (a % 9) : -1; loc l = mkloc(a, b, 1 | 2, 1); if (THOROUGH) dsym_assume(any(&l)); else dsym_assume(l.x != 0); st = putloc(PP[p], &l, 1); dsym_assert(st == 0, "the location is stored"); reopen(); gotloc(PP[p], &l); tsok(PP[p], &l); other_ok(); zclose(IFL); dsym_cover("end"); }
static const short LT[] = {0, 1, 3, 4, 8, 19, 20, 31, 71, 72, 73, 100, 200};
void h_location_texts(void) { openf(IFL, "a.dss"); other(); int a = LT[pick(0, 12, "zone length")], b = LT[pick(0, 12, "supplemental length")]; loc l = mkloc(a, b, 0, 1); int st = putloc(PP[0], &l, 1); dsym_assert(st == 0, "the location is stored"); reopen(); gotloc(PP[0], &l); other_ok(); zclose(IFL); dsym_cover("end"); }
// with the data set, for other places, replaced or not, deleted
void h_location_with(void) {
  PDK = pick(0, 1, "paired data");   openf(IFL, "a.dss"); zsetFile(IFL, "RECLAIM", "", pick(1, 3, "reclaim")); other(); int own = pick(0, 1, "own pathname"), geo = pick(0, 1, "geographic") ? 4 : 0; loc l = mkloc(4, 9, geo, 1), m = mkloc(19, 16, geo, 2), o = mkloc(-1, -1, geo, 5); int st = putts(PP[0], &l, own); dsym_assert(st == 0, "the data set is stored with its location"); gotloc(PP[0], &l); tsok(PP[0], &l); nothing(PP[1]); nothing(PP[2]);
  st = putts(PP[1], &o, own) | putts(PP[2], 0, 0); dsym_assert(st == 0, "other data sets"); gotloc(PP[0], &l); gotloc(PP[1], &o); nothing(PP[2]); int rep = pick(0, 1, "replace"), how = pick(0, 2, "then");
  if (how == 0) { st = putloc(PP[0], &m, rep); dsym_assert(st == 0, "stored again"); reopen(); gotloc(PP[0], rep ? &m : &l); } else if (how == 1) { st = zlocationDelete(IFL, PP[0]); dsym_assert(st == 0, "deleted"); reopen(); nothing(PP[0]); st = putloc(PP[0], &m, rep); dsym_assert(st == 0, "stored again"); gotloc(PP[0], &m); } else { st = zdelete(IFL, PP[0]); dsym_assert(st == 0, "the data set is deleted"); reopen(); gotloc(PP[0], &l); st = putts(PP[0], 0, 0); dsym_assert(st == 0, "and stored"); gotloc(PP[0], &l); }
  gotloc(PP[1], &o); nothing(PP[2]); for (int i = 0; i < 3; i++) tsok(PP[i], 0); other_ok(); zclose(IFL); dsym_cover("end");
}
// long names
void h_location_long(void) {
  openf(IFL, "a.dss"); other(); int la = pick(1, 4, "A") * 32, lb = pick(1, 4, "B") * 32; char p[400], q[400]; int i = 0; p[i++] = '/'; for (int k = 0; k < la; k++) p[i++] = 'A' + k % 26; p[i++] = '/'; for (int k = 0; k < lb; k++) p[i++] = 'B' + k % 7; strcpy(p + i, "/FLOW//1Day/V/"); strcpy(q, p); q[i - 1] = 'Z'; loc l = mkloc(3, 9, 0, 1), m = mkloc(4, 4, 0, 2); int st = putloc(p, &l, 1); dsym_assert(st == 0, "the location is stored"); nothing(q); st = putloc(q, &m, 1); dsym_assert(st == 0, "the other is stored"); reopen(); gotloc(p, &l); gotloc(q, &m); st = zlocationDelete(IFL, p); dsym_assert(st == 0, "deleted"); nothing(p); gotloc(q, &m); other_ok(); zclose(IFL); dsym_cover("end");
}
