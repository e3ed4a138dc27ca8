// C29: text and packing helpers
#include "h.h"
int stringCat(char*, size_t, const char*, size_t); int copyAndTrim(char*, size_t, const char*, size_t); int trimPositions(const char*, int*, int*); void stringFill(char*, char, size_t); void zeroFill(char*, size_t); void upperCase(char*); void lowerCase(char*); char* stringFortToC(const char*, size_t); char* mallocAndCopyTrim(const char*); char* mallocAndCopy(const char*); int strnlen_hec(const char*, int); int copyLines(char*, size_t, const char*, size_t, int); int longWithCommas(char*, size_t, long long); void itoa_hec(int, char*, int, int); void intTo2char(int, char*); void intTo4char(int, char*); int findInt(const char*, int*, int*); int toFixedFields(char*, size_t, char**, int*, int, int*, int*);
int charInt(void*, void*, int, int, int, int, int); int charLong(void*, void*, int, int, int, int); unsigned long long i4toi8(int, int); void i8toi4(unsigned long long, int*, int*); long long f4toi8(float, float); void i8tof4(long long, float*, float*); void zswap(long long*, int); int numberIntsInBytes(int); int numberIntsInLongs(long long); int numberLongsInBytes(int); int numberLongsInInts(int); void convertDataArray(int*, int*, int, int, int); void convertDataLength(int*, int*, int, int); void convertIntArray(int*, int*, int, int, int); void fillArray(int*, int, int*, int, int); int isOdd(int); int bigEndian(void);
int numberBytesInDoubleCharArray(const char**, int, int, int*); int compressCharArray(const char**, char*, int, int, int); int buildTablePointerArray(char*, char**, int, int, int); int appendStringToHeader(char*, char*, int*, int); char* readStringFromHeader(char*, int*, int); size_t trimLengthLen(const char*, size_t); int zfindString(const char*, int, const char*, int);
static int sym_ch(const char* n) { unsigned char c; dsym_sym(&c, 1, n); return c; }
static void any(char* b, int n, const char* nm) { for (int i = 0; i < n; i++) { int c = sym_ch(nm); dsym_assume(c != 0); b[i] = c; } b[n] = 0; }
static void raw(char* b, int n, const char* nm) { for (int i = 0; i < n; i++) b[i] = sym_ch(nm); }
static void same(const char* a, const char* b, int n, const char* what) { dsym_assert(dsym_memeq(a, b, n), what); }
static void beyond(const char* b, int n, int e) { for (int i = n; i < e; i++) dsym_assert(b[i] == '~', "nothing written beyond the size"); }
void h_copy(void) { // a source of n characters, not terminated when the length says how much to copy
  int n = pick(0, 6, "source"), k = pick(0, 8, "length"), sz = pick(1, 8, "size"), term = k > n || pick(0, 1, "terminated"); char s[8], d[12]; any(s, n, "c"); char* src = malloc(n + term); memcpy(src, s, n + term); memset(d, '~', 12); size_t len = k == 8 ? (size_t)-1 : k; if (k == 8 && !term) dsym_stop(); int m = n < k || k == 8 ? n : k; if (m > sz - 1) m = sz - 1; if (!term && k > n) dsym_stop(); if (!n && !term) dsym_stop();
  int r = stringCopy(d, sz, src, len); beyond(d, sz, 12); dsym_assert(r == m && d[m] == 0, "length, terminated"); same(d, s, m, "the start of the source"); free(src); dsym_cover("end");
}
void h_cat(void) { int a = pick(0, 4, "have"), n = pick(0, 5, "source"), k = pick(1, 6, "length"), sz = pick(1, 9, "size"); char d[12], o[12], s[8]; if (a >= sz) dsym_stop(); memset(d, '~', 12); any(d, a, "d"); any(s, n, "s"); memcpy(o, d, 12); int m = n < k ? n : k, room = sz - a - 1; if (m > room) m = room; stringCat(d, sz, s, k == 6 ? (size_t)-1 : k); beyond(d, sz, 12); same(d, o, a, "what was there"); same(d + a, s, m, "then the source"); dsym_assert(d[a + m] == 0, "terminated"); dsym_cover("end"); }
void h_trim(void) { int n = pick(0, THOROUGH ? 7 : 5, "length"); char s[9]; any(s, n, "c"); int a = 0, e = n; while (a < n && s[a] == ' ') a++; while (e > a && s[e - 1] == ' ') e--; int e2 = n; while (e2 > 0 && s[e2 - 1] == ' ') e2--; dsym_assert(trimLength(s) == e2, "length without trailing blanks"); int st, en, t = trimPositions(s, &st, &en); dsym_assert(t == e - a && (t == 0 ? st == 0 && en == 0 : st == a && en == e - 1), "first and last character that is not blank");
  char* p = mallocAndCopyTrim(s); dsym_assert(strlen(p) == e - a, "trimmed copy"); same(p, s + a, e - a, "trimmed copy"); free(p); int ascii = 1; for (int i = 0; i < n; i++) ascii &= s[i] > 0; if (ascii) { p = mallocAndCopy(s); dsym_assert(strlen(p) == e2, "copy without trailing blanks"); same(p, s, e2, "copy"); free(p); }
  dsym_cover("end"); }
void h_copytrim(void) { int n = pick(0, 5, "length"), sz = pick(1, 7, "size"), k = pick(0, 7, "from"); char s[9], d[12]; any(s, n, "c");
  int e3 = k < n ? k : n; while (e3 > 0 && s[e3 - 1] == ' ') e3--; dsym_assert(trimLengthLen(s, k < n ? k : n) == e3, "length within"); memset(d, '~', 12); int r = copyAndTrim(d, sz, s, k), m = e3 < sz - 1 ? e3 : sz - 1; beyond(d, sz, 12); same(d, s, m, "copied and trimmed"); dsym_assert(d[m] == 0, "terminated"); if (e3 < sz) dsym_assert(r == m, "length"); dsym_cover("end"); }
void h_fort(void) { int n = pick(0, THOROUGH ? 7 : 5, "length"); char s[9]; any(s, n, "c"); char* f = malloc(n + 1); memcpy(f, s, n); f = realloc(f, n ? n : 1); int e = n; while (e > 0 && s[e - 1] == ' ') e--; char* p = stringFortToC(f, n); dsym_assert(strlen(p) == e, "without trailing blanks"); same(p, s, e, "the text"); free(p); free(f); dsym_cover("end"); }
void h_case(void) { int n = pick(0, 6, "length"), fc = sym_ch("fill"), k = pick(0, 8, "count"); char s[12], u[12], l[12], d[12]; raw(s, n, "c"); s[n] = 0; memcpy(u, s, 12); memcpy(l, s, 12); upperCase(u); lowerCase(l); int z = 0; for (int i = 0; i < n; i++) { unsigned char c = s[i]; if (c == 0) break; int uc = c >= 'a' && c <= 'z' ? c - 32 : c, lc = c >= 'A' && c <= 'Z' ? c + 32 : c; dsym_assert((unsigned char)u[i] == uc, "upper case"); dsym_assert((unsigned char)l[i] == lc, "lower case"); z++; } dsym_assert(u[z] == 0 && l[z] == 0, "same length");
  memset(d, '~', 12); stringFill(d, fc, k); beyond(d, k, 12); for (int i = 0; i < k; i++) dsym_assert(d[i] == (char)fc, "filled"); memset(d, '~', 12); zeroFill(d, k); beyond(d, k, 12); for (int i = 0; i < k; i++) dsym_assert(d[i] == 0, "zeroed"); int q = strnlen_hec(s, k); dsym_assert(q == (z < k ? z : k), "bounded length"); dsym_cover("end"); }
void h_lines(void) { int n = pick(0, THOROUGH ? 8 : 6, "source"), sz = pick(1, 7, "size"), nl = pick(1, 4, "lines"); char s[12], d[12]; raw(s, n, "c"); if (n) s[n - 1] = 0; memset(d, '~', 12); char* src = malloc(n + 1); memcpy(src, s, n); if (n) src = realloc(src, n); int e = 0, k = 0; while (e < n && k < nl) if (s[e++] == 0) k++; dsym_assert(copyLines(0, 0, src, n, nl) == e, "characters of the lines"); int r = copyLines(d, sz, src, n, nl); beyond(d, sz, 12); if (n) { int m = e < sz ? e : sz; dsym_assert(r == m, "characters copied"); same(d, s, m, "lines copied"); } else dsym_assert(r == (nl < sz ? nl : sz), "empty lines"); free(src); dsym_cover("end"); }
// numbers as text
void h_itoa(void) { static const int R[][2] = {{0, 99}, {100, 9999}, {-99, -1}, {-9999, -100}, {2147480000, 2147483647}, {-2147483647 - 1, -2147480000}, {99990, 100010}}; int k = pick(0, 6, "range"), n = sym_range(R[k][0], R[k][1], "n"), sz = pick(2, 13, "size"); char d[16], w[16]; memset(d, '~', 16); itoa_hec(n, d, sz, 10); beyond(d, sz, 16); int z = 0; for (int i = 0; i < sz; i++) z |= d[i] == 0; dsym_assert(z, "terminated"); long long v = n; int neg = v < 0, len = 0; if (neg) v = -v; char t[16]; do { t[len++] = '0' + (int)(v % 10); v /= 10; } while (v); if (neg) t[len++] = '-'; if (len < sz) { for (int i = 0; i < len; i++) dsym_assert(d[i] == t[len - 1 - i], "digits"); dsym_assert(d[len] == 0, "digits end"); } dsym_cover("end"); }
void h_base16(void) { static const unsigned B[] = {0, 0xffffff00u, 0x80000000u, 0xabcdef00u, 0x7fffff00u}; int n = (int)(B[pick(0, 4, "base")] + (unsigned)sym_range(0, 255, "n")); char d[12]; itoa_hec(n, d, 12, 16); unsigned v = 0; for (int i = 0; d[i]; i++) { int c = d[i]; dsym_assert((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "digit"); v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); } dsym_assert(v == (unsigned)n, "the same bits"); dsym_cover("end"); }
void h_commas(void) { static const long long B[] = {0, 990, 999990, 1000000, -10, -1000, -999999, 123456789012LL, 9223372036854775798LL, -9223372036854775807LL - 1, -123456}; long long n = B[pick(0, 10, "base")] + sym_range(0, 9, "d"); int sz = pick(1, 28, "size"); char d[32]; memset(d, '~', 32); int r = longWithCommas(d, sz, n); beyond(d, sz, 32); unsigned long long v = n < 0 ? 0ULL - (unsigned long long)n : n; char t[32]; int len = 0, g = 0; do { if (g == 3) { t[len++] = ','; g = 0; } t[len++] = '0' + (int)(v % 10); v /= 10; g++; } while (v); if (n < 0) t[len++] = '-'; if (len < sz) { dsym_assert(r == len && d[len] == 0, "length"); for (int i = 0; i < len; i++) dsym_assert(d[i] == t[len - 1 - i], "digits in groups of three"); } else dsym_assert(r == -1, "no room is reported"); dsym_cover("end"); }
void h_int24(void) { int n = sym_range(0, 9999, "n"); char d[8]; memset(d, '~', 8); intTo4char(n, d); beyond(d, 5, 8); dsym_assert(d[0] == '0' + n / 1000 && d[1] == '0' + n / 100 % 10 && d[2] == '0' + n / 10 % 10 && d[3] == '0' + n % 10 && !d[4], "four digits"); dsym_assume(n < 100); memset(d, '~', 8); intTo2char(n, d); beyond(d, 3, 8); dsym_assert(d[0] == '0' + n / 10 && d[1] == '0' + n % 10 && !d[2], "two digits"); dsym_cover("end"); }
void h_find(void) { int n = pick(0, THOROUGH ? 7 : 6, "length"); char s[9]; any(s, n, "c"); int a = 0; while (a < n && !(s[a] >= '0' && s[a] <= '9')) a++; int e = a, v = 0; while (e < n && s[e] >= '0' && s[e] <= '9') v = v * 10 + s[e++] - '0'; int i = -1, nd = -1, r = findInt(s, &i, &nd); if (a == n) dsym_assert(r == 0 && nd == 0, "no number"); else if (a > 0 && s[a - 1] == '-') dsym_assert(r == -v && i == a - 1 && nd == e - a + 1, "negative number"); else dsym_assert(r == v && i == a && nd == e - a, "number"); dsym_cover("end"); }
void h_fields(void) { int sz = pick(1, 13, "size"), c1 = pick(0, 1, "c1"), c2 = c1 + pick(1, THOROUGH ? 4 : 3, "c2"), c3 = c2 + pick(1, THOROUGH ? 4 : 3, "c3"), l1 = pick(0, THOROUGH ? 3 : 2, "l1"), l2 = pick(0, THOROUGH ? 3 : 2, "l2"), left = pick(0, 1, "left"); char f[3][4], d[24], w[40]; for (int i = 0; i < 3; i++) any(f[i], 3, "c"); char* fs[3] = {f[0], f[1], f[2]}; int ls[3] = {l1, l2, 3}, cs[3] = {c1, c2, c3}, lj[3] = {1, left, 1}; memset(w, ' ', 40); for (int j = 0; j < 3; j++) { int wd = j < 2 ? cs[j + 1] - cs[j] : ls[j], n = ls[j] < wd ? ls[j] : wd; memcpy(w + cs[j] + (lj[j] ? 0 : wd - n), f[j], n); } int tot = c3 + 3; memset(d, '~', 24); toFixedFields(d, sz, fs, ls, 3, cs, lj); beyond(d, sz, 24); int m = tot < sz - 1 ? tot : sz - 1; same(d, w, m, "fields at their columns"); dsym_assert(d[m] == 0, "terminated"); dsym_cover("end"); }
// packing
void h_pack(void) { int n = pick(1, 20, "bytes"), zf = pick(0, 2, "zero"), max = 24; char s[32], back[32]; long long l[4]; memset(l, 0x5a, 32); any(s, n, "c"); int r = charLong(s, l, n, max, 1, zf); dsym_assert(r == (n + 7) / 8, "words"); same((char*)l, s, n, "the bytes"); int fill = zf == 1 ? (n + 7) / 8 * 8 : zf == 2 ? max : n; for (int i = n; i < 32; i++) dsym_assert(((char*)l)[i] == (i < fill ? 0 : 0x5a), "the rest of the word"); memset(back, '~', 32); charLong(l, back, n, 32, 0, 0); same(back, s, n + 1, "unpacked"); beyond(back, n + 1, 32);
  int q[8]; memset(q, 0x5a, 32); dsym_assert(charInt(s, q, n, max, 1, zf == 1, 0) == (n + 3) / 4, "words"); same((char*)q, s, n, "the bytes"); for (int i = n; i < 32; i++) dsym_assert(((char*)q)[i] == (zf == 1 && i < (n + 3) / 4 * 4 ? 0 : 0x5a), "the rest of the word"); memset(back, '~', 32); charInt(q, back, n, 32, 0, 0, 0); same(back, s, n, "unpacked"); beyond(back, n, 32); dsym_cover("end"); }
void h_pack_max(void) { int n = pick(0, 12, "bytes"), k = pick(1, 9, "source"), max = pick(1, 12, "max"); char s[16], d[20]; any(s, k, "c"); if (n > k + 1) dsym_stop(); memset(d, '~', 20); charLong(s, d, n, max, 0, -1); beyond(d, max, 20); int m = n ? n : k + 1; if (m > max) m = max; same(d, s, m, "no more than there is room for"); beyond(d, m, 20); memset(d, '~', 20); charLong(s, d, n, max, 0, 2); beyond(d, max, 20); same(d, s, m, "no more than there is room for"); dsym_cover("end"); }
void h_words(void) { int a = sym_int("a"), b = sym_int("b"), x, y; long long l = i4toi8(a, b); i8toi4(l, &x, &y); dsym_assert(x == a && y == b, "two ints in a long"); dsym_assert(l == (long long)(((unsigned long long)(unsigned)b << 32) | (unsigned)a), "first int low"); float f = sym_float("f"), g = sym_float("g"), p, q; l = f4toi8(f, g); i8tof4(l, &p, &q); dsym_assert(dsym_memeq(&p, &f, 4) && dsym_memeq(&q, &g, 4), "two floats in a long");
  int n = sym_int("n"); dsym_assume(n > -1000000000 && n < 1000000000); long long m = n; dsym_assert(numberIntsInBytes(n) == (n > 0 ? (m + 3) / 4 : 0), "ints in bytes"); dsym_assert(numberLongsInBytes(n) == (n > 0 ? (m + 7) / 8 : 0), "longs in bytes"); dsym_assert(numberLongsInInts(n) == (n > 0 ? (m + 1) / 2 : 0), "longs in ints"); dsym_assert(numberIntsInLongs(m) == (n > 0 ? 2 * m : 0), "ints in longs"); dsym_assert(!isOdd(n) == !(n & 1), "odd"); dsym_cover("end"); }
void h_swap(void) { int n = pick(1, 3, "longs"); unsigned char b[24]; long long l[4]; for (int i = 0; i < 24; i++) b[i] = sym_ch("b"); memcpy(l, b, 24); l[3] = 77; zswap(l, 2 * n); for (int i = 0; i < n * 8; i++) dsym_assert(((unsigned char*)l)[i] == b[i / 8 * 8 + 7 - i % 8], "bytes reversed"); for (int i = n * 8; i < 24; i++) dsym_assert(((unsigned char*)l)[i] == b[i], "no other word"); dsym_assert(l[3] == 77, "no other word"); zswap(l, 2 * n); dsym_assert(dsym_memeq(l, b, 24), "twice gives the original"); dsym_cover("end"); }
void h_arrays(void) { int n = pick(0, 4, "number"), a = pick(1, 4, "in"), b = pick(1, 4, "out"); int in[16], out[20]; for (int i = 0; i < 16; i++) in[i] = sym_int("v"); for (int i = 0; i < 20; i++) out[i] = 77; convertDataLength(in, out, a, b); for (int i = 0; i < b; i++) dsym_assert(out[i] == (i < a ? in[i] : 0), "shortened or zero filled"); for (int i = b; i < 20; i++) dsym_assert(out[i] == 77, "nothing beyond"); for (int i = 0; i < 20; i++) out[i] = 77; convertDataArray(in, out, n, a, a); for (int i = 0; i < 20; i++) dsym_assert(out[i] == (i < n * a ? in[i] : 77), "copied"); for (int i = 0; i < 20; i++) out[i] = 77; fillArray(in, a, out, a, n); for (int i = 0; i < 20; i++) dsym_assert(out[i] == (i < n * a ? in[i % a] : 77), "filled"); dsym_cover("end"); }
void h_intarray(void) { int n = pick(0, 4, "number"), a = pick(1, 3, "in"), b = pick(1, 3, "out"), inplace = pick(0, 1, "in place"); int in[16], o[16], out[20]; for (int i = 0; i < 16; i++) in[i] = o[i] = sym_int("v"); for (int i = 0; i < 20; i++) out[i] = 77; if (inplace && n * b > 16) dsym_stop(); int* d = inplace ? in : out; convertIntArray(in, d, n, a, b); for (int i = 0; i < n; i++) for (int j = 0; j < b; j++) dsym_assert(d[i * b + j] == (j < a ? o[i * a + j] : 0), "each element shortened or zero filled"); if (!inplace) for (int i = n * b; i < 20; i++) dsym_assert(out[i] == 77, "nothing beyond"); dsym_cover("end"); }
void h_table(void) { char s[4][4]; const char* p[4]; char *q[4], out[24]; int rows = pick(1, 2, "rows"), cols = pick(1, 2, "columns"), tot = 0, mx[2] = {0, 0}, ex = -1; for (int i = 0; i < rows * cols; i++) { int n = pick(0, 2, "length"); any(s[i], n, "c"); p[i] = s[i]; tot += n + 1; if (n + 1 > mx[i % cols]) mx[i % cols] = n + 1; } int w = numberBytesInDoubleCharArray(p, rows, cols, &ex); dsym_assert(w == tot, "bytes of the table"); dsym_assert(ex == (mx[0] + (cols > 1 ? mx[1] : 0)) * rows, "bytes of the expanded table"); memset(out, '~', 24); dsym_assert(compressCharArray(p, out, rows, cols, tot) == tot, "bytes"); beyond(out, tot, 24); dsym_assert(buildTablePointerArray(out, q, rows, cols, tot) == tot, "bytes"); for (int i = 0; i < rows * cols; i++) { int n = strlen(s[i]); dsym_assert(strlen(q[i]) == n, "text of a cell"); same(q[i], s[i], n, "text of a cell"); } dsym_cover("end"); }
void h_header(void) { int a = pick(0, 9, "first"), b = pick(0, 9, "second"); char s[12], t[12], h[64]; for (int i = 0; i < a; i++) { int c = sym_ch("s"); dsym_assume(c != 0 && c != ' '); s[i] = c; } s[a] = 0; for (int i = 0; i < b; i++) { int c = sym_ch("t"); dsym_assume(c != 0 && c != ' '); t[i] = c; } t[b] = 0; memset(h, '~', 64); int ip = 0; appendStringToHeader(s, h, &ip, 60); appendStringToHeader(b ? t : 0, h, &ip, 60); beyond(h, 60, 64); int end = ip; ip = 0; char* x = readStringFromHeader(h, &ip, end); char* y = readStringFromHeader(h + ip, &ip, end); if (a) { dsym_assert(x && strlen(x) == a, "first text"); same(x, s, a, "first text"); } else dsym_assert(!x, "no text"); if (b) { dsym_assert(y && strlen(y) == b, "second text"); same(y, t, b, "second text"); } else dsym_assert(!y, "no text"); free(x); free(y); dsym_cover("end"); }
void h_string(void) { int n = pick(0, THOROUGH ? 5 : 4, "length"), k = pick(1, 3, "find"); char s[8], f[8]; any(s, n, "s"); any(f, k, "f"); int w = -1; for (int i = 0; i + k <= n && w < 0; i++) { int eq = 1; for (int j = 0; j < k; j++) { int x = s[i + j], y = f[j]; if (x >= 'a' && x <= 'z') x -= 32; if (y >= 'a' && y <= 'z') y -= 32; eq &= x == y; } if (eq) w = i; } int r = zfindString(s, n, f, k); dsym_assert((r < 0) == (w < 0), "found or not"); dsym_cover("end"); }
