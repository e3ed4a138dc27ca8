// One record of each kind, stored and retrieved through the public interface (needs P[] and hist.h).
#pragma once
// the public interface
static long long* KF = IFL;
static double VD[40], VR[40], OD[12], OR[12]; static int IT[40], IR[40];
static const char* TS = "/TS/L/FLOW//1Month/V/"; static const char* IS = "/TS/L/STAGE//IR-Month/V/"; static const char* PD = "/PD/L/FLOW-DAMAGE///V/"; static const char* TX = "/TEXT/L/NOTE///V/"; static const char* AR = "/ARR/L/X///V/"; static const char* LO = "/TS/L/FLOW//1Month/V/";
static const char* texts[] = { "a text", "a longer text that needs more room than before, and still more" };
static void vals(int rep) { for (int i = 0; i < 40; i++) { VD[i] = 1000 * rep + i * 1.5 + 1; IT[i] = (i + rep) * 1440 * 9; } for (int i = 0; i < 12; i++) OD[i] = i + 1000 * rep; }
static int store(int k, int rep) {
  dss_file* f = (dss_file*)KF; vals(rep);
  if (k == 0) return hec_dss_tsStoreRegular(f, TS, rep ? "01Jun1998" : "31Jan1998", "2400", VD, 36, 0, 0, 0, "CFS", "PER-AVER", "", 0);
  if (k == 1) return hec_dss_tsStoreIregular(f, IS, "01Jan1999", IT, 60, VD, 20, 0, 0, 0, "FT", "INST-VAL", "", 0);
  if (k == 2) return hec_dss_pdStore(f, PD, OD, rep ? 12 : 6, VD, rep ? 24 : 6, rep ? 12 : 6, rep ? 2 : 1, "CFS", "UNT", "$", "UNT", "", 0, "");
  if (k == 3) return hec_dss_textStore(f, TX, texts[rep], strlen(texts[rep]));
  if (k == 4) return hec_dss_arrayStore(f, AR, IT, rep ? 40 : 20, 0, 0, VD, rep ? 40 : 10);
  if (k == 5) return hec_dss_locationStore(f, LO, 1.5 + rep, 2.5, 3.5, 1, 2, 3, 1, 2, 1, "PST", "", 1);
  return zduplicateRecord(KF, P[3], P[4]);
}
// 0: as stored; 1: wrong; 2: an error
static int fetch(int k, int rep) {
  dss_file* f = (dss_file*)KF; int st; static char b[8][80]; vals(rep); memset(VR, 0, sizeof VR); memset(IR, 0, sizeof IR); memset(OR, 0, sizeof OR); int ok = 1;
  if (k == 0) { int got = 0, jb, tg; st = hec_dss_tsRetrieve(f, TS, rep ? "01Jun1998" : "31Jan1998", "2400", rep ? "31May2001" : "31Dec2000", "2400", IR, VR, 40, &got, 0, 0, &jb, &tg, b[0], 80, b[1], 80, b[2], 80); if (st) return 2; ok = got == 36; for (int i = 0; i < 36; i++) ok &= VR[i] == VD[i]; }
  else if (k == 1) { int got = 0, jb, tg; st = hec_dss_tsRetrieve(f, IS, "01Jan1999", "0100", "31Dec1999", "2400", IR, VR, 40, &got, 0, 0, &jb, &tg, b[0], 80, b[1], 80, b[2], 80); if (st) return 2; ok = got == 20 || (!rep && got == 19); for (int i = 0; i < 19; i++) ok &= VR[i] == VD[i + !rep]; }
  else if (k == 2) { int no = 0, nc = 0; st = hec_dss_pdRetrieve(f, PD, OR, rep ? 12 : 6, VR, rep ? 24 : 6, &no, &nc, b[0], 80, b[1], 80, b[2], 80, b[3], 80, b[4], 80, b[5], 80); if (st) return 2; ok = no == (rep ? 12 : 6) && nc == 1 + rep; for (int i = 0; i < no * nc && i < 40; i++) ok &= VR[i] == VD[i]; for (int i = 0; i < no && i < 12; i++) ok &= OR[i] == OD[i]; }
  else if (k == 3) { memset(b[0], 0, 80); st = hec_dss_textRetrieve(f, TX, b[0], 80); if (st) return 2; ok = !strcmp(b[0], texts[rep]); }
  else if (k == 4) { int ni = 0, nf = 0, nd = 0; st = hec_dss_arrayRetrieveInfo(f, AR, &ni, &nf, &nd); if (st) return 2; ok = ni == (rep ? 40 : 20) && nf == 0 && nd == (rep ? 40 : 10); st = hec_dss_arrayRetrieve(f, AR, IR, rep ? 40 : 20, 0, 0, VR, rep ? 40 : 10); if (st) return 2; for (int i = 0; i < ni && i < 40; i++) ok &= IR[i] == IT[i]; for (int i = 0; i < nd && i < 40; i++) ok &= VR[i] == VD[i]; }
  else if (k == 5) { double x = 0, y = 0, z = 0; int c[6]; st = hec_dss_locationRetrieve(f, LO, &x, &y, &z, c, c + 1, c + 2, c + 3, c + 4, c + 5, b[0], 80, b[1], 80); if (st) return 2; ok = x == 1.5 + rep && y == 2.5 && z == 3.5 && c[0] == 1 && c[1] == 2; }
  else { int r = rd(KF, P[4], &R[4].c); return r == 1 ? 2 : r ? 1 : 0; }
  return !ok;
}
