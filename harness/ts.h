// Shared machinery for time series checks.  Step k of a series lies k intervals after a block boundary (end of 31 December 1999).
#pragma once
#include "h.h"
static long long IFL[250];
typedef struct { const char* ep; long sec; const char* path; } ival;   // sec 0: month based
enum intervals { I_15M, I_1H, I_6H, I_1D, I_1W, I_TRI, I_SEMI, I_1MON, I_1Y, I_1S, I_1M, I_REST, NIV = I_REST + 22 };
static const ival IV[] = { {"15Minute", 900}, {"1Hour", 3600}, {"6Hour", 21600}, {"1Day", 86400}, {"1Week", 604800}, {"Tri-Month", 0}, {"Semi-Month", 0}, {"1Month", 0}, {"1Year", 0}, {"1Second", 1}, {"1Minute", 60},
  {"12Hour", 43200}, {"8Hour", 28800}, {"4Hour", 14400}, {"3Hour", 10800}, {"2Hour", 7200}, {"30Minute", 1800}, {"20Minute", 1200}, {"12Minute", 720}, {"10Minute", 600}, {"6Minute", 360}, {"5Minute", 300}, {"4Minute", 240}, {"3Minute", 180}, {"2Minute", 120}, {"30Second", 30}, {"20Second", 20}, {"15Second", 15}, {"10Second", 10}, {"6Second", 6}, {"5Second", 5}, {"3Second", 3}, {"2Second", 2} };
static long ydays(long y) { return 365 * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400; } // days before 1 Jan of year y, y >= 0
static long mdays(long y, int m) { static const int d[] = {0,31,59,90,120,151,181,212,243,273,304,334}; int leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return ydays(y) + d[m - 1] + (m > 2 && leap); }
static const long EPOCH_Y = 1900; // library day 1 is 1 Jan 1900
static long jul(long y, int m, int d) { return mdays(y, m) - ydays(EPOCH_Y) + d; }
// seconds since library day 0 of step k (the end of the period), offset o seconds after the start of the period when o > 0
static int YB = 2000, KB = 0; // base year (block boundary) and shift of the modelled steps
static long long t_at(int iv, int k, long off) { k += KB;
  const ival* v = &IV[iv]; long long end, beg;
  // day number D, second 86400 of the last day == (D)*86400+86400; the end of 31 Dec 1999 is jul(1999,12,31)*86400+86400
  long long b = (long long)jul(YB, 1, 1) * 86400;
  if (v->sec) { if (iv == I_1W) b += (6 - (jul(YB, 1, 1) % 7 + 7) % 7) * 86400LL + 86400; end = b + (long long)k * v->sec; beg = end - v->sec; }
  else {
    int per = iv == I_TRI ? 3 : iv == I_SEMI ? 2 : 1, mul = iv == I_1Y ? 12 : 1; long long e[2];
    for (int w = 0; w < 2; w++) { long kk = k - w + 24000L * per, mo = kk / per * mul, r = kk % per; if (mul > 1) mo = YB * 12L + (k - w) * (long)mul; else mo = mo - 24000 + YB * 12L; long y = mo / 12; int m = mo % 12 + 1; long d = jul(y, m, 1); if (per == 3) d += r * 10; else if (per == 2) d += r * 15; e[w] = (long long)d * 86400; }
    end = e[0]; beg = e[1];
  }
  return off ? beg + off : end;
}
// split into a day number and second 1..86400 of that day
static void split(long long t, int* j, int* s) { *j = t / 86400; *s = t % 86400; if (*s < 0) { *s += 86400; (*j)--; } if (*s == 0) { *s = 86400; (*j)--; } }
static void d_str(long long t, char* d, char* c) { int j, s; split(t, &j, &s); long y = j / 366 + EPOCH_Y - (j < 0); while (jul(y, 1, 1) > j) y--; while (jul(y + 1, 1, 1) <= j) y++; int m = 1; while (m < 12 && jul(y, m + 1, 1) <= j) m++; int dd = j - jul(y, m, 1) + 1; sprintf(d, "%02d%.3s%04ld", dd, "JANFEBMARAPRMAYJUNJULAUGSEPOCTNOVDEC" + 3 * (m - 1), y); sprintf(c, "%02d:%02d:%02d", s / 3600, s / 60 % 60, s % 60); }
static int openf(long long* ifl, const char* nm) { memset(ifl, 0, 250 * sizeof *ifl); zset("MLVL", "", 0); return hec_dss_zopen(ifl, nm); }
static const double DMISS = -3.4028234663852886e+38; static const float FMISS = -3.4028234663852886e+38f;
static char PATHB[200];
static const char* mkpath(const char* ep) { sprintf(PATHB, "/Basin/Loc/Flow//%s/Ver/", ep); return PATHB; }
static int same8(double a, double b) { return dsym_memeq(&a, &b, 8); }
static int same4(float a, float b) { return dsym_memeq(&a, &b, 4); }
