// C24: clock times convert to text and back without loss
#include "ts.h"
#include "heclibDate.h"
void minsToDateTime(int, char*, char*, size_t, size_t); void millsToDateTime(long long, char*, char*, size_t, size_t); void minutesToHourMin(int, char*, size_t); int spatialDateTime(char*, int*, int*); int compareTimes(int, int, int, int, int, int, int, int); int getDateAndTime(int, int, int, char*, int, char*, int); int cleanTime(int*, int*, int); float timeStringToSecondsMills(const char*);
// every second of the day in every style, every size of the buffer
static int tod(void) { int h = pick(0, 24, "hour"), s = h == 24 ? 0 : sym_range(0, 3599, "second"); return h * 3600 + s; }
void h_text(void) {
  int s = tod(), style = pick(0, 3, "style"), m = style == 3 ? sym_range(0, 999, "mills") : 0, res = style < 2 ? 60 : 1; char b[20]; memset(b, 'x', 20); secondsToTimeString(s, m, style, b, 20); static const int LEN[] = {4, 5, 8, 12}; dsym_assert(strlen(b) == LEN[style], "length of the text"); for (int i = 0; i < LEN[style]; i++) { int sep = style && (i == 2 || i == 5), dot = style == 3 && i == 8; if (sep) dsym_assert(b[i] == ':', "separator"); else if (dot) dsym_assert(b[i] == '.', "separator"); else dsym_assert((b[i] >= '0') & (b[i] <= '9'), "digit"); }
  int back = timeStringToSeconds(b); dsym_assert(back == s / res * res, "text converts back to the time of day"); if (style == 3) dsym_assert((b[9] - '0') * 100 + (b[10] - '0') * 10 + b[11] - '0' == m, "milliseconds"); dsym_cover("end");
}
void h_sizes(void) {
  int s = tod(), style = pick(0, 3, "style"), n = pick(0, 14, "size"); char b[20], w[20]; memset(b, 'x', 20); secondsToTimeString(s, 7, style, b, n); for (int i = n; i < 20; i++) dsym_assert(b[i] == 'x', "nothing written beyond the buffer"); static const int MIN[] = {5, 6, 9, 13}; secondsToTimeString(s, 7, style, w, 20); if (n >= MIN[style]) dsym_assert(!strcmp(b, w), "documented size is enough"); else if (n >= 5) { int z = 0; for (int i = 0; i < n; i++) z |= !b[i]; dsym_assert(z, "terminated"); }
  dsym_cover("end");
}
void h_invalid(void) { int s = sym_int("seconds"), style = sym_range(-2, 5, "style"); char b[20]; memset(b, 'x', 20); secondsToTimeString(s, 0, style, b, 20); if (s < 0 || s > 86400 || style < 0 || style > 3) dsym_assert(b[0] == 0, "an invalid time or style gives no text"); else dsym_assert(b[0] >= '0' && b[0] <= '2', "text"); dsym_cover("end"); }
// other spellings
void h_parse(void) {
  static const int H[] = {0, 1, 7, 9, 10, 19, 20, 23}; int h = H[pick(0, 7, "hour")], m = sym_range(0, 59, "minute"), s = sym_range(0, 59, "second"), f = pick(0, 6, "form"), ms = f == 5 ? sym_range(0, 999, "mills") : 0; char b[20]; int n = 0, h1 = h / 10 + '0', h0 = h % 10 + '0', w = h * 3600 + m * 60; int hs = f != 2 && f != 4; if (!hs && h > 9) dsym_stop();
  if (hs) b[n++] = h1; b[n++] = h0; if (f == 1 || f >= 4) b[n++] = ':'; b[n++] = m / 10 + '0'; b[n++] = m % 10 + '0'; if (f >= 3) { if (f != 3) b[n++] = ':'; b[n++] = s / 10 + '0'; b[n++] = s % 10 + '0'; w += s; } if (f == 5) { b[n++] = '.'; b[n++] = ms / 100 + '0'; b[n++] = ms / 10 % 10 + '0'; b[n++] = ms % 10 + '0'; } if (f == 6) b[n++] = ' '; b[n] = 0; // forms: 0 hhmm 1 hh:mm 2 hmm 3 hhmmss 4 h:mm:ss 5 hh:mm:ss.mmm 6 trailing blank
  dsym_assert(timeStringToSeconds(b) == w, "seconds of the text"); dsym_cover("end");
}
void h_mills(void) { static const int S[] = {0, 1, 59, 3599, 14399, 43200, 65535, 65536, 86399}; int s = S[pick(0, 8, "seconds")], m = sym_range(0, 999, "mills"); char b[20]; secondsToTimeString(s, m, 3, b, 20); double r = timeStringToSecondsMills(b), want = s + m / 1000.; dsym_assert(r - want < 1 / 128. && want - r < 1 / 128., "within the resolution of a float"); dsym_cover("end"); }
void h_bad(void) { int n = pick(0, THOROUGH ? 6 : 4, "length"); char b[12]; int dig = 0, dot = 0; for (int i = 0; i < n; i++) { unsigned char c; dsym_sym(&c, 1, "c"); dsym_assume((c == '.') | (c == ':') | (c == 'x') | ((c >= '0') & (c <= '9'))); b[i] = c; if (c == '.') dot = 1; if (!dot && c >= '0' && c <= '9') dig++; } b[n] = 0; int r = timeStringToSeconds(b); if (dig < 3) dsym_assert(r < 0, "text without a time is rejected"); else dsym_assert(r >= 0, "seconds"); dsym_cover("end"); }
// normalisation
static const int GR[] = {1, 60, 3600, 86400};
static void clean(int g) { int gr = GR[g], per = 86400 / gr, j = sym_range(-1000000, 1000000, "day"), t = sym_range(-20000 * (long)per > -2000000000L ? -20000 * per : -2000000000, 20000L * per < 2000000000L ? 20000 * per : 2000000000, "time"), j0 = j, t0 = t; dsym_assume(!(j == 0 && t == 0)); cleanTime(&j, &t, gr); dsym_assert(t >= 1 && t <= per, "time of day"); dsym_assert((long long)j * per + t == (long long)j0 * per + t0, "same instant"); dsym_cover("end"); }
void h_clean_sec(void) { clean(0); }
void h_clean_min(void) { clean(1); }
void h_clean_hour(void) { clean(2); }
void h_clean_day(void) { clean(3); }
void h_compare(void) { int g1 = GR[pick(0, 2, "g1")], g2 = GR[pick(0, 2, "g2")], b1 = pick(0, 1, "base") * 36525, j1 = sym_range(36524, 36527, "j1"), j2 = sym_range(-1, 2, "j2"), t1 = sym_range(-86400 / g1, 86400 / g1 * 2, "t1"), t2 = sym_range(-86400 / g2, 86400 / g2 * 2, "t2"); int r = compareTimes(j1 - b1, t1, b1, g1, j2 + 36525, t2, 0, g2); long long a = j1 * 86400LL + (long long)t1 * g1, b = (j2 + 36525) * 86400LL + (long long)t2 * g2; dsym_assert(r == (a < b ? -1 : a > b), "order of two times"); dsym_cover("end"); }
// date and time text of an offset from a base date, minutes and milliseconds
static const int DAYS[] = {36525, 36584, 1, -1, -700, 73049, 36585, 36890, 0, 18262};
#define HRN (THOROUGH ? 23 : 4)
static int HR(int i) { static const int Q[] = {0, 9, 12, 20, 23}; return THOROUGH ? i : Q[i]; }
static long long inst(const char* d, const char* c) { return dateToJulian(d) * 86400LL + timeStringToSeconds(c); }
void h_offset(void) { int g = GR[pick(0, 3, "granularity")], base = DAYS[pick(0, THOROUGH ? 9 : 5, "base")], per = 86400 / g, dd = pick(-2, 2, "days"), hr = (g < 3600 ? HR(pick(0, HRN, "hour")) : 0), n = g < 3600 ? 3600 / g : per, t = sym_range(1, n, "time") + hr * n + dd * per; char d[20], c[20]; getDateAndTime(t, g, base, d, 20, c, 20); long long w = base * 86400LL + (long long)t * g; dsym_assert(inst(d, c) == w, "text of the time converts back"); dsym_cover("end"); }
void h_minutes(void) { int day = DAYS[pick(0, 9, "day")], m = sym_range(0, 1439, "minute"); char d[20], c[20]; minsToDateTime(day * 1440 + m, d, c, 20, 20); dsym_assert(inst(d, c) == day * 86400LL + m * 60, "text of the minutes converts back"); minutesToHourMin(m, c, 5); dsym_assert(timeStringToSeconds(c) == m * 60 && strlen(c) == 4, "minutes of a day"); dsym_cover("end"); }
void h_millis(void) { int day = DAYS[pick(0, 9, "day")], hr = HR(pick(0, HRN, "hour")), w = pick(0, 1, "which"), s = hr * 3600 + (w ? pick(0, 2, "second") * 1799 : sym_range(0, 3599, "second")), ms = w ? sym_range(0, 999, "mills") : pick(0, 1, "mills") * 999; char d[20], c[20]; millsToDateTime((day - 25568) * 86400000LL + s * 1000LL + ms, d, c, 20, 20); dsym_assert(inst(d, c) == day * 86400LL + s, "text of the milliseconds converts back"); dsym_assert((c[9] - '0') * 100 + (c[10] - '0') * 10 + c[11] - '0' == ms, "milliseconds"); dsym_cover("end"); }
void h_spatial(void) { int day = DAYS[pick(0, 9, "day")], s = tod(), j = 0, k = 0; char d[20], c[20], x[50]; if (day < 1) dsym_stop(); getDateTimeString(day, d, 20, 104, s, c, 20, 1); sprintf(x, "%s:", d); int n = strlen(x); memcpy(x + n, c, 6); dsym_assert(spatialDateTime(x, &j, &k) == 0, "date and time of a grid"); dsym_assert(j == day && k == s / 60 * 60, "converts back"); dsym_cover("end"); }
