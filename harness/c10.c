// C10: files that are not version-7 DSS files are refused unmodified
#include "hist.h"
static const char* P[] = { "/A/B1/C//E/ONE/", "/A/B/C//E/A LONGER PATHNAME WITH MANY MORE WORDS/" };
static int how_; static long sz; static unsigned char* orig; static long osz;
static void base(void) { dsym_assert(openf(IFL, "a.dss") == 0, "open"); nrec = 2; for (int i = 0; i < 2; i++) R[i].path = P[i]; int st = op_write(IFL, 0, 3); st |= op_write(IFL, 1, 5); dsym_assert(st == 0, "write succeeds"); zclose(IFL); osz = rt_snapshot(rt_find("/w/a.dss"), &orig); }
static void put(const unsigned char* b, long n) { rt_restore(rt_find("/w/a.dss"), b, n); sz = n; }
// opens the file in one of the ways there are; 0 when it was opened; the file's bytes must not have changed
static int try_open(const unsigned char* b, long n) {
  int how = how_ = pick(0, 5, "how"), st; dss_file* d = 0; put(b, n); rt_journal_start();
  memset(IFL, 0, sizeof IFL); zset("MLVL", "", 0);
  if (how == 0) st = hec_dss_zopen(IFL, "a.dss"); else if (how == 1) { st = hec_dss_open("a", &d); if (st != 0) dsym_assert(d == 0, "no handle on error"); } else st = zopenExtended(IFL, "a.dss", 7, how - 1, 0, 0, 0);
  rt_journal_stop(); if (st == 0 && n == 0) { dsym_cover("opened"); return st; } unsigned char* q; int ino = rt_find("/w/a.dss"); dsym_assert(ino >= 0, "the file is still there"); long m = rt_snapshot(ino, &q);
  if (st != 0) { dsym_assert(m == n, "refused: the file's length is unchanged"); int e = n ? dsym_memeq(q, b, n) : 1; dsym_assert(e, "refused: the file's bytes are unchanged"); dsym_assert(rt_njournal == 0, "refused: nothing was written"); dsym_cover("refused"); }
  else { dsym_cover("opened"); if (how != 5) { dsym_assert(m == n, "opened: the file's length is unchanged"); int e = n ? dsym_memeq(q, b, n) : 1; dsym_assert(e, "opened: the file's bytes are unchanged"); } }
  return st;
}
static int is7(const unsigned char* b) { return (b[0] == 'Z') & (b[1] == 'D') & (b[2] == 'S') & (b[3] == 'S') & (b[16] == '7'); }
// any signature and version
void h_sign(void) {
  base(); unsigned char* b = malloc(osz); memcpy(b, orig, osz); dsym_sym(b, 4, "signature"); dsym_sym(b + 16, 8, "version");
  int v = 0; put(b, osz); v = zgetFileVersion("a.dss"); int s7 = is7(b); dsym_assert((v == 7) == s7, "the version query says 7 for a version-7 file and only then");
  int st = try_open(b, osz); int ok = (st == 0) == s7; dsym_assert(ok, "opening succeeds exactly on a version-7 signature"); dsym_cover("end");
}
// any value of one word of the header; the ones that identify the header as such must be right for the file to open
void h_word(void) {
  base(); unsigned char* b = malloc(osz); memcpy(b, orig, osz); int k = pick(0, 3, "word"), at = k == 0 ? zdssFileKeys.kendFileHeader : k == 1 ? zdssFileKeys.kbinSize : k == 2 ? zdssFileKeys.kendFileHeader - 1 : 3;
  int by = pick(0, 7, "byte"); dsym_sym(b + 8 * at + by, 1, "value"); long long v; memcpy(&v, b + 8 * at, 8); if (k == 1) dsym_assume((v < 20) | (v == 20) | (v == 200) | (v == 201) | (v == 968) | (v > 1000));
  int st = try_open(b, osz); if (k == 0) dsym_assert((st == 0) == (v == DSS_END_HEADER_FLAG), "opening succeeds exactly when the header ends in its flag");
  else if (k == 1) { if (st == 0) { int ok = (v >= 20) & (v <= 1000); dsym_assert(ok, "an impossible bin size is refused"); } } dsym_cover("end");
}
// the size of the header
static const long long hs[] = { 0, 1, 2, 3, 40, 98, 99, 100, 101, 128, 300, 20000, 1 << 28, 0x7fffffffLL, 0x80000000LL, 0x100000000LL, 0x100000064LL, -1, -100, (long long)1 << 62 };
void h_size(void) {
  base(); unsigned char* b = malloc(osz); memcpy(b, orig, osz); int i = pick(0, 19, "size"); long long v; memcpy(&v, b + 8, 8); int good = hs[i] == v; memcpy(b + 8, &hs[i], 8);
  int st = try_open(b, osz); if (good) dsym_assert(st == 0, "the proper size is accepted"); int ok = st != 0 || (hs[i] > zdssFileKeys.kendFileHeader && hs[i] <= osz / 8); dsym_assert(ok, "an impossible header size is refused"); dsym_cover("end");
}
// a file cut short anywhere in its header
void h_short(void) {
  base(); unsigned char* b = malloc(osz); memcpy(b, orig, osz); long hb = 8 * (zdssFileKeys.kendFileHeader + 1); int n = pick(0, 63, "length"); long l = n < 42 ? n : n < 62 ? 42 + (hb - 44) * (n - 41) / 20 : n == 62 ? hb - 8 : hb - 1;
  int v; put(b, l); v = zgetFileVersion("a.dss"); if (l < 20) dsym_assert(v != 7, "a file too short to have a version does not have version 7");
  int st = try_open(b, l); if (l == 0 && how_ != 2) dsym_assert(st == 0, "an empty file becomes a new one"); else dsym_assert(st != 0, "a truncated header is refused"); dsym_cover("end");
}
// content of another kind altogether
void h_other(void) {
  static const short ln[] = { 1, 4, 8, 20, 24, 31, 32, 33, 64, 100, 400, 799, 800, 801, 2000 }; int n = ln[pick(0, 14, "length")]; int fill = pick(0, 2, "content"); base(); unsigned char* b = malloc(n); for (int i = 0; i < n; i++) b[i] = fill == 0 ? 0 : fill == 1 ? "some text, some more text; "[i % 27] : (i * 37 + 11); if (n >= 4) dsym_sym(b, 4, "start"); if (n > 16) dsym_sym(b + 16, 1, "version"); if (n >= 16) { if (pick(0, 1, "headersize")) { memset(b + 8, 0, 8); b[8] = zdssFileKeys.kendFileHeader + 1; } }
  int st = try_open(b, n); if (n < 800) dsym_assert(st != 0, "a file that is too short is refused"); if (fill != 0 || n >= 24) { dsym_assert(st != 0, "a file of another kind is refused"); } dsym_cover("end");
}
// no file: it is created and identifies itself; read access does not create one
void h_new(void) {
  int how = pick(0, 5, "how"), st; dss_file* d = 0; memset(IFL, 0, sizeof IFL); zset("MLVL", "", 0); dsym_assert(zgetFileVersion("a.dss") == 0, "no file, no version");
  if (how == 0) st = hec_dss_zopen(IFL, "a.dss"); else if (how == 1) st = hec_dss_open("a", &d); else st = zopenExtended(IFL, "a.dss", 7, how - 1, 0, 0, 0);
  if (how == 2) { dsym_assert(st != 0, "read access needs the file to exist"); int f = rt_find("/w/a.dss"); dsym_assert(f < 0, "read access creates nothing"); dsym_cover("end"); dsym_stop(); }
  dsym_assert(st == 0, "a new file is created"); int v = zgetFileVersion("a.dss"); dsym_assert(v == 7, "a new file has version 7"); if (how == 1) hec_dss_close(d); else zclose(IFL); v = zgetFileVersion("a"); dsym_assert(v == 7, "a closed new file has version 7"); st = openf(IFL, "a.dss"); dsym_assert(st == 0, "a new file opens again"); dsym_cover("end");
}
