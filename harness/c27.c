// C27: pathname parts
#include "h.h"
int zpathnameAddPart(const char*, int, char*, size_t); int zpathnameCompare(const char*, long long*, size_t); int zpathnameCompareCollection(const char*, const char*, size_t); int normalizeFPart(char**, const char*); int normalizeFPartInPathname(char**, const char*); int ztsGetPathTimeWindow(int, char*, size_t, ztsTimeWindow*); int zstringCompare(const char*, const char*, size_t);
static const char* const P[] = {"", "B", "STAGE", "Cold Creek", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"};
static int sym_ch(const char* n) { unsigned char c; dsym_sym(&c, 1, n); return c; }
static void symtext(char* b, int n, const char* nm) { for (int i = 0; i < n; i++) { int c = sym_ch(nm); dsym_assume((c >= 32) & (c <= 126) & (c != '/')); b[i] = c; } b[n] = 0; }
static void trimmed(const char* s, char* o) { int a = 0, n = strlen(s); while (a < n && s[a] == ' ') a++; while (n > a && s[n - 1] == ' ') n--; memcpy(o, s + a, n - a); o[n - a] = 0; }
static int lens(char parts[7][80], char* whole) { char* p = whole; *p++ = '/'; for (int i = 1; i <= 6; i++) { int n = strlen(parts[i]); memcpy(p, parts[i], n); p += n; *p++ = '/'; } *p = 0; return p - whole; }
// any text in one part, others of different lengths: every part comes back, and setting a part changes only that part
void h_form(void) {
  char in[7][80], ex[7][80], w[500], path[394], got[129]; int which = pick(1, 6, "which"), n = pick(0, THOROUGH ? 4 : 3, "length"), shape = pick(0, 2, "shape"); for (int i = 1; i <= 6; i++) strcpy(in[i], P[shape ? (i * 2 + shape) % 5 : 0]); symtext(in[which], n, "text"); for (int i = 1; i <= 6; i++) trimmed(in[i], ex[i]);
  int len = lens(ex, w), r = zpathnameForm(in[1], in[2], in[3], in[4], in[5], in[6], path, sizeof path); dsym_assert(r == len + 1, "length of the pathname"); dsym_assert(strlen(path) == len && dsym_memeq(path, w, len), "pathname of the parts");
  int l[6], pos[7]; dsym_assert(zpathnamePartLengths(path, len, l, 6) == 6, "six parts"); dsym_assert(zpathnamePartPositions(path, len, pos, 7) == 7, "seven positions"); for (int i = 1; i <= 6; i++) { int m = strlen(ex[i]); dsym_assert(l[i - 1] == m, "length of a part"); dsym_assert(pos[i] - pos[i - 1] - 1 == m && dsym_memeq(path + pos[i - 1], ex[i], m), "position of a part"); int g = zpathnameGetPart(path, i, got, sizeof got); dsym_assert(g == m && strlen(got) == m && dsym_memeq(got, ex[i], m), "part of the pathname"); }
  dsym_cover("end");
}
void h_form_size(void) { // every buffer size
  char ex[7][80], w[500], b[120]; int shape = pick(0, 2, "shape"), sz = pick(0, 60, "size"); for (int i = 1; i <= 6; i++) strcpy(ex[i], P[shape ? (i + shape) % 4 : 0]); symtext(ex[3], 2, "text"); dsym_assume((ex[3][0] != ' ') & (ex[3][1] != ' ')); int len = lens(ex, w); memset(b, '~', 120); zpathnameForm(ex[1], ex[2], ex[3], ex[4], ex[5], ex[6], b, sz); for (int i = sz; i < 120; i++) dsym_assert(b[i] == '~', "nothing written beyond the buffer"); if (sz) { int m = sz > len ? len : sz - 1; dsym_assert(b[m] == 0 && dsym_memeq(b, w, m), "as much of the pathname as fits, terminated"); } dsym_cover("end");
}
void h_set(void) {
  char ex[7][80], w[500], b[500], got[129]; int which = pick(1, 6, "which"), o = pick(0, 4, "old"), n = pick(0, 6, "new length"), room = pick(0, 3, "room"); for (int i = 1; i <= 6; i++) strcpy(ex[i], P[(i + o) % 4]); strcpy(ex[which], P[o]); memset(b, '~', 500); int len = lens(ex, b); char t[20]; symtext(t, n, "text"); int nl = len - (int)strlen(ex[which]) + n, sz = (nl > len ? nl : len) + (room == 0 ? 0 : room); if (room == 3) sz = 500; if (room == 0 && nl <= len) dsym_stop(); char old[500]; memcpy(old, b, 500);
  int st = zpathnameSetPart(b, sz, t, which); for (int i = sz; i < 500; i++) dsym_assert(b[i] == old[i], "nothing written beyond the buffer"); if (room == 0) { dsym_assert(st != 0, "no room is reported"); dsym_assert(!memcmp(b, old, len + 1), "pathname left as it was"); dsym_cover("end"); return; } dsym_assert(st == 0, "part set"); memcpy(ex[which], t, n + 1); lens(ex, w); dsym_assert(strlen(b) == nl && dsym_memeq(b, w, nl), "only that part changes"); for (int i = 1; i <= 6; i++) { int m = strlen(ex[i]), g = zpathnameGetPart(b, i, got, sizeof got); dsym_assert(g == m && dsym_memeq(got, ex[i], m), "part of the pathname"); }
  dsym_cover("end");
}
void h_invalid(void) { char b[60] = "/A/BB/CCC/D/E/F/", old[60], got[129]; memcpy(old, b, 60); int p = sym_int("part"); dsym_assume((p < 1) | (p > 6)); got[0] = 'x'; dsym_assert(zpathnameGetPart(b, p, got, 129) < 0 && !got[0], "no such part"); dsym_assert(zpathnameSetPart(b, 60, "ZZZ", p) < 0 && !memcmp(b, old, 60), "no such part"); dsym_cover("end"); }
// arbitrary text as a pathname
static void anytext(char* b, int n, const char* nm) { for (int i = 0; i < n; i++) { int c = sym_ch(nm); dsym_assume(c != 0); b[i] = c; } b[n] = 0; }
void h_any(void) { // text of slashes and other characters; positions from 1 as if the first character were a slash
  char b[40], got[20]; int n = pick(0, THOROUGH ? 11 : 8, "length"), part = pick(1, 6, "part"), sz = pick(1, 3, "size") * 2; anytext(b, n, "c"); memset(got, '~', 20); int a = 1, k = 1, e = -1; for (int i = 1; i < n; i++) if (b[i] == '/') { if (k == part) { e = i; break; } k++; a = i + 1; }
  int g = zpathnameGetPart(b, part, got, sz); for (int i = sz; i < 20; i++) dsym_assert(got[i] == '~', "nothing written beyond the buffer"); int m = e < 0 ? 0 : e - a, c = m < sz - 1 ? m : sz - 1; dsym_assert(e < 0 ? g <= 0 : g == m, "length of the part"); dsym_assert(got[c] == 0 && dsym_memeq(got, b + a, c), "part of the text"); dsym_cover("end");
}
void h_any_set(void) { char b[60], old[60]; int n = pick(0, THOROUGH ? 10 : 8, "length"), part = pick(1, 6, "part"), m = pick(0, 2, "new"); anytext(b, n, "c"); for (int i = n + 1; i < 60; i++) b[i] = '~'; memcpy(old, b, 60); int k = 0; for (int i = 1; i < n; i++) k += b[i] == '/'; int st = zpathnameSetPart(b, 60, m == 2 ? "WXYZ" : m ? "W" : "", part); if (k < 6) { dsym_assert(st != 0, "a text without six parts is rejected"); dsym_assert(dsym_memeq(b, old, 60), "and left as it was"); } else dsym_assert(st == 0, "part set"); dsym_cover("end"); }
void h_any_loc(void) { char b[40]; int n = pick(0, 6, "length"); anytext(b, n, "c"); char* l = zlocationPath(b); int s = 0, k = 0; for (int i = 1; i < n; i++) if (b[i] == '/') { if (++k == 2) s = i + 1; } int m = strlen(l); if (k >= 2) { dsym_assert(m == s + 17 && dsym_memeq(l, b, s) && !strcmp(l + s, "Location Info////"), "location pathname keeps the A and B parts"); } free(l); dsym_cover("end"); }
void h_clean(void) {
  char b[40], o[40], w[40]; int n = pick(0, THOROUGH ? 9 : 8, "length"), sz = pick(1, 10, "size"); anytext(b, n, "c"); if (n >= 8) { b[0] = b[1] = b[2] = b[3] = b[4] = '/'; } int k = 0, sl = 0; for (int i = 0; i < n; i++) { int c = b[i]; if (c < 32 || c > 126) continue; if (sl < 7) w[k++] = c; if (c == '/') sl++; } int m = k < sz - 1 ? k : sz - 1; memset(o, '~', 40); int r = zpathnameClean(o, sz, b);
  for (int i = sz; i < 40; i++) dsym_assert(o[i] == '~', "nothing written beyond the buffer"); dsym_assert(r == m && o[m] == 0 && dsym_memeq(o, w, m), "only printable characters, up to the seventh slash"); dsym_cover("end");
}
void h_compare(void) { // case does not matter, anything else does
  static char a[] = "/A/Bc d/FLOW/01JAN2000/1Hour/x_9~{/"; int n = strlen(a); char b[60]; memcpy(b, a, n + 1); int i = pick(0, n - 1, "at"), c = sym_ch("c"); dsym_assume(c != 0); b[i] = c; int x = a[i], lo = x >= 'A' && x <= 'Z' ? x + 32 : x, lc = c >= 'A' && c <= 'Z' ? c + 32 : c; long long l[8]; memset(l, 0, 64); memcpy(l, b, n); int w = lc == lo; dsym_assert(zpathnameCompare(a, l, n) == w, "pathnames compare without case"); dsym_assert(zstringCompare(b, a, n) == w, "texts compare without case"); dsym_cover("end");
}
void h_collection(void) { char p[] = "/A/B/C/D/E/C:000001|run/"; int n = strlen(p), i = pick(0, 22, "at"), c = sym_ch("c"); dsym_assume((c >= 32) & (c < 127) & (c != '/') & (c != '|')); char q[60]; memcpy(q, p, n + 1); if (p[i] != '/' && p[i] != '|') q[i] = c; int x = p[i], lo = x >= 'A' && x <= 'Z' ? x + 32 : x, lc = c >= 'A' && c <= 'Z' ? c + 32 : c, in = i >= 13 && i <= 18; if (i == 11 || i == 12) dsym_stop(); dsym_assert(zpathnameCompareCollection(p, q, n) == (in || lo == lc || x == '/' || x == '|'), "members of a collection differ in the sequence only"); dsym_cover("end"); }
void h_sequence(void) { static const char* const F[] = {"", "run", "C:000001|run", "c:abc|", "C:x", "a|b"}; static const char* const W[] = {"", "run", "run", "", "C:x", "a|b"}; char p[60], w[80]; int f = pick(0, 5, "f"), n = sym_range(0, 999999, "sequence"); sprintf(p, "/A/B/C/D/E/%s/", F[f]); char* r = zsetCollectionSequence(p, n); dsym_assert(r != 0, "pathname"); sprintf(w, "/A/B/C/D/E/C:000000|%s/", W[f]); for (int i = 18, v = n; i >= 13; i--, v /= 10) w[i] = '0' + v % 10; int m = strlen(w); dsym_assert(strlen(r) == m && dsym_memeq(r, w, m), "the sequence replaces or precedes"); free(r); dsym_cover("end"); }
// F part tags
void h_fpart(void) {
  static const char* const T[] = {"N:ab", "C:00000", "R:A0", "T:20010228-240", "V:20010228-23595", "run"}; int a = pick(0, 5, "a"), b = pick(0, 5, "b"), d = pick(0, 5, "d"); if (a == b || b == d || a == d) dsym_stop(); char f[80], s1[4]; int c = sym_ch("c"); dsym_assume((c >= 32) & (c < 127) & (c != '/') & (c != ':') & (c != '|')); int at[3] = {a, b, d}, ok = 1, tag = 0; f[0] = 0; s1[1] = 0; for (int i = 0; i < 3; i++) { if (i) strcat(f, "|"); strcat(f, T[at[i]]); if (at[i] == 1 || at[i] == 3 || at[i] == 4) { s1[0] = at[i] == 1 ? c : at[i] == 3 ? '0' : '9'; strcat(f, s1); } if (at[i] == 1) ok &= (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); if (at[i] < 5) tag = 1; }
  char *o = 0, *o2 = 0; int st = normalizeFPart(&o, f); dsym_assert((st == 0) == ok, "valid tags are accepted, others are not"); if (st == 0) { static const int ORD[] = {1, 0, 3, 2, 4, 5}; char w[80]; w[0] = 0; for (int k = 0; k < 6; k++) for (int i = 0; i < 3; i++) if (at[i] == ORD[k]) { strcat(w, T[at[i]]); if (at[i] == 1 || at[i] == 3 || at[i] == 4) { s1[0] = at[i] == 1 ? c : at[i] == 3 ? '0' : '9'; strcat(w, s1); } if (k < 5) strcat(w, "|"); } int m = strlen(w); dsym_assert(strlen(o) == m && dsym_memeq(o, w, m), "tags in order"); dsym_assert(normalizeFPart(&o2, o) == 0 && strlen(o2) == m && dsym_memeq(o2, w, m), "normalised text stays as it is"); free(o); free(o2); } dsym_cover("end");
}
void h_window(void) { // any text as the D part of a time series
  char p[200], d[140]; int n = pick(0, 8, "before") * 4, m = pick(0, 8, "after") * 4, k = 0; for (int i = 0; i < n; i++) d[k++] = i < 2 ? '1' : 'J'; d[k++] = ' '; d[k++] = '-'; d[k++] = ' '; for (int i = 0; i < m; i++) d[k++] = 'x'; d[k] = 0; int c = sym_ch("c"); dsym_assume((c >= 32) & (c < 127) & (c != '/')); if (n) d[n / 2] = c; sprintf(p, "/A/B/FLOW/%s/1Hour/F/", d); ztsTimeWindow w; memset(&w, 0, sizeof w); int st = ztsGetPathTimeWindow(7, p, 200, &w); dsym_assert(st != 1 || k >= 8, "not a date range"); dsym_cover("end");
}
