// C26: interval names and seconds correspond one to one
#include "ts.h"
static int sym_char(const char* n) { unsigned char c; dsym_sym(&c, 1, n); return (char)c; }
int ztsGetStandardInterval(int, int*, char*, size_t, int*); int ztsRegGetBlockStart(int, int, int*); int ztsIrregGetBlockStart(int, int); int ztsGetInterval(int, const char*);
typedef struct { const char* n; int s; int blk; } sti;   // standard intervals; seconds, or minus the block size of an irregular series; block 1 day 2 month 3 year 4 decade 5 century
static const sti S[] = { {"1Year", 31536000, 5}, {"1Month", 2592000, 4}, {"Semi-Month", 1296000, 4}, {"Tri-Month", 864000, 4}, {"1Week", 604800, 4}, {"1Day", 86400, 3}, {"12Hour", 43200, 2}, {"8Hour", 28800, 2}, {"6Hour", 21600, 2}, {"4Hour", 14400, 2}, {"3Hour", 10800, 2}, {"2Hour", 7200, 2}, {"1Hour", 3600, 2}, {"30Minute", 1800, 2}, {"20Minute", 1200, 2}, {"15Minute", 900, 2}, {"12Minute", 720, 1}, {"10Minute", 600, 1}, {"6Minute", 360, 1}, {"5Minute", 300, 1}, {"4Minute", 240, 1}, {"3Minute", 180, 1}, {"2Minute", 120, 1}, {"1Minute", 60, 1}, {"30Second", 30, 1}, {"20Second", 20, 1}, {"15Second", 15, 1}, {"10Second", 10, 1}, {"6Second", 6, 1}, {"5Second", 5, 1}, {"4Second", 4, 1}, {"3Second", 3, 1}, {"2Second", 2, 1}, {"1Second", 1, 1}, {"IR-Century", -5, 5}, {"IR-Decade", -4, 4}, {"IR-Year", -3, 3}, {"IR-Month", -2, 2}, {"IR-Day", -1, 1} };
enum { NS = sizeof S / sizeof *S };
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int lead(const char* a, const char* b) { int i = 0; while (a[i] && b[i] && up(a[i]) == up(b[i])) i++; return !a[i] || !b[i]; } // one is the start of the other
// every standard name in every letter case, with anything after the name in the buffer
void h_names(void) {
  int i = pick(0, NS - 1, "name"), len = strlen(S[i].n), op, sec = -99; char b[32], e[32]; for (int w = 0; w < 2; w++) { for (int k = 0; k < 32; k++) e[k] = b[k] = sym_char("c"); for (int k = 0; k <= len; k++) { int c = S[i].n[k], u = up(c); if (c == u) e[k] = c; else dsym_assume((e[k] == u) | (e[k] == u + 32)); b[k] = e[k]; }
    op = w ? 0 : 1; int st = ztsGetStandardInterval(7, &sec, e, 16, &op); dsym_assert(st == (S[i].s < 0), "status is 0 for a regular and 1 for an irregular interval"); dsym_assert(sec == S[i].s, "seconds of the name"); if (w) dsym_assert(!strcmp(e, S[i].n), "standard name returned"); else dsym_assert(dsym_memeq(e, b, len + 1), "name left alone"); dsym_assert(dsym_memeq(e + 16, b + 16, 16), "nothing written beyond the buffer"); }
  dsym_cover("end");
}
// every number of seconds
void h_seconds(void) {
  int s = sym_int("seconds"), op = 2, n = pick(0, 1, "size") ? 32 : 11; char e[32]; memset(e, 'x', 32); int st = ztsGetStandardInterval(7, &s, e, n, &op), hit = -1; for (int i = 0; i < NS; i++) if (s == S[i].s) hit = i;
  if (hit < 0) { dsym_assert(st < 0, "seconds that are no standard interval are rejected"); dsym_assert(e[0] == 'x', "buffer untouched"); } else { dsym_assert(st == 0, "standard seconds"); dsym_assert(!strcmp(e, S[hit].n), "name of the seconds"); for (int k = n; k < 32; k++) dsym_assert(e[k] == 'x', "within the buffer"); op = 1; int b = 0; ztsGetStandardInterval(7, &b, e, 32, &op); dsym_assert(b == s, "the name converts back"); dsym_cover("end"); }
}
// names that start like no standard interval are rejected; an accepted name gives the interval it starts like
static void rej(int n) {
  char e[16], b[16]; int op = 1, sec = -99; for (int i = 0; i < n; i++) { e[i] = sym_char("c"); dsym_assume(e[i] != 0); } e[n] = 0; memcpy(b, e, 16); int tilde = e[0] == '~'; int st = ztsGetStandardInterval(7, &sec, e, 16, &op), any = -1; for (int i = 0; i < NS && any < 0; i++) if (lead(b + tilde, S[i].n)) any = i;
  if (any < 0) dsym_assert(st < 0, "a name that starts like no standard interval is rejected"); else { dsym_assert(st >= 0, "accepted"); int same = 0; for (int i = 0; i < NS; i++) if (lead(b + tilde, S[i].n) && sec == S[i].s) same = 1; if (!tilde) dsym_assert(same, "interval the name starts like"); else dsym_assert(sec == -S[any].blk || (sec < 0 && sec >= -5), "pseudo-regular names give a block size"); dsym_cover("end"); }
}
void h_reject4(void) { rej(4); }
void h_reject7(void) { rej(THOROUGH ? 9 : 7); }
// pathnames
static char PB[100];
void h_path(void) {
  int i = pick(0, NS - 1, "name"), cs = pick(0, 2, "case"), ps = pick(0, 1, "pseudo"); char nm[20]; strcpy(nm, S[i].n); for (char* c = nm; *c; c++) *c = cs == 1 ? up(*c) : cs == 2 && *c >= 'A' && *c <= 'Z' ? *c + 32 : *c; if (ps && S[i].s < 0) dsym_stop(); char x = sym_char("x"); dsym_assume(x > ' ' && x < 127 && x != '/'); sprintf(PB, "/A?/B//01JAN2000/%s%s/F/", ps ? "~" : "", nm); PB[2] = x; int g = ztsGetInterval(7, PB);
  // block sizes of the irregular series used for pseudo-regular ones: under 30 minutes a day, under 6 hours a month, under a week a year, under a month a decade
  int want = S[i].s; if (ps) want = S[i].s < 1800 ? -1 : S[i].s < 21600 ? -2 : S[i].s < 604800 ? -3 : S[i].s < 2592000 ? -4 : -5; if (!ps || S[i].s >= 0) dsym_assert(ps ? g == want || g == 0 : g == want, "interval of the pathname"); if (ps) dsym_assert(g == want, "block of a pseudo-regular pathname");
  int j = sym_range(1, 55000, "day"), blk = -1; if (!ps) { if (S[i].s > 0) { j = 36525; int st = ztsRegGetBlockStart(j, S[i].s, &blk); dsym_assert(blk == S[i].blk, "block size of the interval"); dsym_assert(st <= j && st > j - 37000, "block start"); } }
  dsym_cover("end");
}
// the list of intervals is complete
void h_list(void) {
  int op = 3, s = sym_int("s"), n = 0; char e[20]; int st = ztsGetStandardInterval(7, &s, e, 20, &op); while (st == 0 && n < 50) { dsym_assert(n < NS && s == S[n].s && !strcmp(e, S[n].n), "listed interval"); n++; st = ztsGetStandardInterval(7, &s, e, 20, &op); } dsym_assert(n == NS && op == -1, "every interval is listed"); dsym_cover("end");
}
