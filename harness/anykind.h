// One record of any kind under the pathname P (needs hist.h).
#pragma once
#include "zStructSpatialTin.h"
enum { RTS, RTD, ITS, ITD, PDF, PDD, TXT, TXTT, ARR, GRD, TIN, RAW, NKIND };
static const char* PR = "/A/L/FLOW/01Jan1990/1Month/V/"; static const char* PI = "/A/L/FLOW/01Jan1999/IR-Month/V/"; static const char* P0 = "/A/OTHER/X///Y/"; static const char* P1 = "/A/LATER/X///Y/";
static const char* P; static double V[12]; static float F[12]; static int T[12]; static const double MISS = -3.4028234663852886e38;
static void vals(int rep) { for (int i = 0; i < 12; i++) { V[i] = 1000 * rep + 1.5 * i + 1; F[i] = 1000 * rep + 1.5f * i + 1; T[i] = (i + 1 + rep) * 1440; } }
static int store(int k, int rep, int sz) { // sz: 0 small, 1 larger
  dss_file* f = (dss_file*)IFL; int n = sz ? 12 : 6, st = -1; vals(rep);
  switch (k) {
    case RTS: return hec_dss_tsStoreRegular(f, P, "31Jan1992", "2400", V, n, 0, 0, 1, "CFS", "PER-AVER", "", 0);
    case RTD: return hec_dss_tsStoreRegular(f, P, "31Jan1992", "2400", V, n, 0, 0, 0, "CFS", "PER-AVER", "", 0);
    case ITS: return hec_dss_tsStoreIregular(f, P, "01Jan1999", T, 60, V, n, 0, 0, 1, "CFS", "INST-VAL", "", 0);
    case ITD: return hec_dss_tsStoreIregular(f, P, "01Jan1999", T, 60, V, n, 0, 0, 0, "CFS", "INST-VAL", "", 0);
    case PDF: { zStructPairedData* p = zstructPdNewFloats(P, F, F, n, 1, "FT", "UNT", "CFS", "UNT"); st = zpdStore(IFL, p, 0); zstructFree(p); return st; }
    case PDD: return hec_dss_pdStore(f, P, V, n, V, n, n, 1, "CFS", "UNT", "$", "UNT", "", 0, "");
    case TXT: return hec_dss_textStore(f, P, rep ? "another text" : "a text", rep ? 12 : 6);
    case TXTT: { zStructText* t = zstructTextNew(P); t->textTable = "a\0b\0c\0d"; t->numberTableChars = 8; t->numberRows = 2; t->numberColumns = 2; st = ztextStore(IFL, t); zstructFree(t); return st; }
    case ARR: return hec_dss_arrayStore(f, P, T, n, F, sz, V, n);
    case GRD: { float r[3] = { 1, 2, 3 }; int h[3] = { 6, 5, 4 }; return hec_dss_gridStore(f, P, sz ? 430 : 420, 1, 2, 3, 3, n / 3, 3, 1, 0, 0, 0, 0, "MM", "src", "name", "def", "GMT", 2000, 0, 0, -1, 9, 1, 5, r, h, F); }
    case TIN: { zStructSpatialTin* t = zstructSpatialTinNew(P); static int np[6] = { 0 }; t->numberPoints = n > 6 ? 6 : n; t->xCoordinate = F; t->yCoordinate = F; t->value = F; t->pointType = np; t->numberConnections = np; t->connectTo = np; t->connectTableLen = 6; t->pointLabel = "a"; t->pointLabelLen = 2; st = zspatialTinStore(IFL, t); zstructFree(t); return st; }
    case RAW: { zStructTransfer* t = zstructTransferNew(P, 0); t->dataType = TYPE; t->values1 = T; t->values1Number = n; t->numberValues = n; t->logicalNumberValues = n; st = zwrite(IFL, t); zstructFree(t); return st; }
  }
  return -1;
}
static int kind(int type) { switch (type) { case 100: return RTS; case 105: return RTD; case 110: return ITS; case 115: return ITD; case 200: return PDF; case 205: return PDD; case 300: return TXT; case 310: return TXTT; case 90: return ARR; case 420: case 430: return GRD; case 450: return TIN; case 900: return RAW; } return -1; }
static int fam(int k) { return k <= RTD ? 0 : k <= ITD ? 1 : k <= PDD ? 2 : k; }
static zStructTransfer* whole(void) { zStructTransfer* t = zstructTransferNew(P, 1); int st = zread(IFL, t); if (st) { zstructFree(t); return 0; } return t; }
static int equal(zStructTransfer* a, zStructTransfer* b) { if (!a || !b || a->dataType != b->dataType || a->numberValues != b->numberValues || a->logicalNumberValues != b->logicalNumberValues) return 0; for (int i = 0; i < NARR; i++) { int *n, *m; int** x = fld(a, i, &n); int** y = fld(b, i, &m); if (*n != *m || (*n && !dsym_memeq(*x, *y, 4 * *n))) return 0; } return 1; }
