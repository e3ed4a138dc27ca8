// C19: text, text tables and arrays read back exactly
#include "hist.h"
static const char* PT = "/TEXT/L/NOTE///V/"; static const char* PA = "/ARR/L/X///V/"; static const char* PO = "/A/B/C//E/F/";
#define DF ((dss_file*)IFL)
static char* bytes(int n, int seed, int nsym, const char* nm) { char* p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = 'a' + (i * 7 + seed) % 26; p[n] = 0; if (nsym && n) { dsym_sym(p, 1, nm); if (n > 1) dsym_sym(p + n - 1, 1, nm); if (n > 4) dsym_sym(p + n / 2, 1, nm); } return p; }
static void other(void) { nrec = 1; R[0].path = PO; int st = op_write(IFL, 0, 3); dsym_assert(st == 0, "another record is stored"); }
static void other_ok(void) { int r = agree(IFL, 0); dsym_assert(r == 0, "another record is not disturbed"); }
static void reopen(void) { if (pick(0, 1, "reopen")) { zclose(IFL); int st = openf(IFL, "a.dss"); dsym_assert(st == 0, "the file opens again"); } }
// text through the C interface: exact bytes, whatever they are
static void text(int n, const char* t, const char* lab) {
  int extra = pick(-2, 3, "room"), cap = n + extra; if (cap < 0) dsym_stop(); char* b = malloc(cap + 1); memset(b, 0x7e, cap + 1); int st = hec_dss_textRetrieve(DF, PT, b, cap), m = n < cap ? n : cap;
  if (extra < 0) dsym_assert(st != 0, "a text that does not fit is reported"); else dsym_assert(st == 0, "the text is retrieved"); dsym_assert(dsym_memeq(b, t, m), lab); if (extra > 0) dsym_assert(b[n] == 0, "a text that fits is terminated"); dsym_assert(b[cap] == 0x7e, "nothing is written beyond the buffer");
}
static const short LEN[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 100, 799, 800, 801, 4000};
void h_text(void) { openf(IFL, "a.dss"); other(); int n = LEN[pick(0, THOROUGH ? 16 : 13, "length")]; char* t = bytes(n, 3, 1, "c"); for (int i = 0; i < n; i++) dsym_assume(t[i] != 0); int st = hec_dss_textStore(DF, PT, t, n); dsym_assert(st == 0, "the text is stored"); reopen(); text(n, t, "the text reads back exactly"); other_ok(); dsym_cover("end"); }
// every character of a short text symbolic, blanks, control and non-ASCII characters included; the caller's buffer is exactly as long as it says
void h_chars(void) { openf(IFL, "a.dss"); int n = pick(1, THOROUGH ? 6 : 4, "n"); int z = pick(0, 1, "terminated"); char* t = malloc(n + z); if (z) t[n] = 0; dsym_sym(t, n, "c"); int st = hec_dss_textStore(DF, PT, t, n); dsym_assert(st == 0, "the text is stored"); text(n, t, "every character reads back"); dsym_cover("end"); }
void h_text_again(void) { openf(IFL, "a.dss"); int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); other(); int a = LEN[pick(0, 15, "first")], b = LEN[pick(0, 15, "second")]; char* t = bytes(a, 3, 0, ""); char* u = bytes(b, 11, 1, "c"); for (int i = 0; i < b; i++) dsym_assume(u[i] != 0); int st = hec_dss_textStore(DF, PT, t, a); st |= hec_dss_textStore(DF, PT, u, b); dsym_assert(st == 0, "the text is replaced"); text(b, u, "the text reads back as last stored"); other_ok(); dsym_cover("end"); }
// text structures: string, table, labels, user header, each of any size
static void put(zStructText* t, int rows, int cols) { t->numberRows = rows; t->numberColumns = cols; }
static int same_bytes(const char* a, const char* b, int n) { return n ? a && dsym_memeq(a, b, n) : 1; }
static void structs(int again) {
  openf(IFL, "a.dss"); other(); static const int S[] = {0, 1, 4, 7, 8, 30}; int ns = 0, nt = 0, nl = 0, nu = 0, rows = 0, cols = 0, st; char *s = 0, *t = 0, *l = 0; int* u = 0;
  for (int w = 0; w <= again; w++) { ns = S[pick(0, 5, w ? "string again" : "string")], nt = S[pick(0, again ? 2 : 5, w ? "table again" : "table")], nl = S[again ? 3 * w : pick(0, 5, "labels")]; nu = again ? (w ? 0 : 5) : pick(0, 3, "user header"); if (ns + nt == 0) dsym_stop();
    s = bytes(ns, 1 + w, 1, "s"); t = bytes(nt, 2 + w, 1, "t"); l = bytes(nl, 3 + w, 1, "l"); u = malloc(4 * nu + 4); for (int i = 0; i < nu; i++) u[i] = (77 + i + w) << 8; if (nu) { int x = sym_int("u"); u[nu - 1] = x; if (nu == 1) dsym_assume(!(x & 255)); /* an odd header that may be text gains a word on purpose */ } 
    cols = sym_int("columns"); rows = sym_int("rows"); zStructText* z = zstructTextNew(PT); if (ns) { z->textString = s; z->numberTextChars = ns; } if (nt) { z->textTable = t; z->numberTableChars = nt; } if (nl) { z->labels = l; z->numberLabelChars = nl; } if (nu) { z->userHeader = u; z->userHeaderNumber = nu; } put(z, rows, cols); st = ztextStore(IFL, z); zstructFree(z); 
    if (again && w && st) { dsym_cover("refused"); dsym_stop(); } dsym_assert(st == 0, "the text structure is stored"); }
  reopen(); zStructText* z = zstructTextNew(PT); st = ztextRetrieve(IFL, z); dsym_assert(st == 0, "the text structure is retrieved"); dsym_assert(z->numberTextChars == ns && z->numberTableChars == nt && z->numberLabelChars == nl && z->userHeaderNumber == nu, "lengths"); dsym_assert((z->numberRows == rows) & (z->numberColumns == cols), "rows and columns"); dsym_assert(z->dataType == (cols > 1 ? 310 : 300), "the kind of text"); dsym_assert(same_bytes(z->textString, s, ns) && same_bytes(z->textTable, t, nt) && same_bytes(z->labels, l, nl) && same_bytes((char*)z->userHeader, (char*)u, 4 * nu), "the contents read back exactly"); zstructFree(z); other_ok(); dsym_cover("end");
}
void h_struct(void) { structs(0); }
void h_struct_again(void) { structs(1); }
void h_none(void) { openf(IFL, "a.dss"); zStructText* z = zstructTextNew(PT); int k = pick(0, 5, "case"); char c[4] = "ab"; if (k == 1) z->numberTextChars = 3; if (k == 2) z->numberTableChars = 3; if (k == 3) { z->textString = c; z->numberTextChars = 2; z->numberLabelChars = 2; } if (k == 4) { z->textString = c; z->numberTextChars = -1; } int st = k == 5 ? ztextStore(IFL, 0) : ztextStore(IFL, z); dsym_assert(st != 0, "a text without content is refused"); st = zcheck(IFL, PT); dsym_assert(st == STATUS_RECORD_NOT_FOUND, "and nothing is stored"); char b[8]; st = hec_dss_textRetrieve(DF, PT, b, 8); dsym_assert(st != 0, "a text that does not exist is reported"); int i, f, d; st = hec_dss_arrayRetrieveInfo(DF, PA, &i, &f, &d); dsym_assert(st != 0, "arrays that do not exist are reported"); st = hec_dss_textStore(DF, PT, "", 0); dsym_assert(st != 0, "an empty text is refused"); dsym_cover("end"); }
// arrays of the three kinds together
static int AI[3][900]; static float AF[3][900]; static double AD[3][900];
static void fillarr(int w, int ni, int nf, int nd) { for (int i = 0; i < 900; i++) { AI[w][i] = i * 31 + w; AF[w][i] = i * .5f + w; AD[w][i] = i * .25 + w; } if (ni) dsym_sym(&AI[w][ni - 1], 4, "i"); if (nf) dsym_sym(&AF[w][nf - 1], 4, "f"); if (nd) dsym_sym(&AD[w][nd - 1], 8, "d"); if (ni > 1) dsym_sym(&AI[w][0], 4, "i0"); if (nf > 1) dsym_sym(&AF[w][0], 4, "f0"); if (nd > 1) dsym_sym(&AD[w][0], 8, "d0"); }
static void arr_ok(int w, int ni, int nf, int nd, int more) {
  int a = -1, b = -1, c = -1, st = hec_dss_arrayRetrieveInfo(DF, PA, &a, &b, &c); dsym_assert(st == 0, "the sizes are retrieved"); dsym_assert(a == ni && b == nf && c == nd, "the sizes are as stored");
  memset(AI[2], 0x55, sizeof AI[2]); memset(AF[2], 0x55, sizeof AF[2]); memset(AD[2], 0x55, sizeof AD[2]); st = hec_dss_arrayRetrieve(DF, PA, AI[2], ni + more, AF[2], nf + more, AD[2], nd + more); dsym_assert(st == 0, "the arrays are retrieved");
  dsym_assert(dsym_memeq(AI[2], AI[w], 4 * ni) && dsym_memeq(AF[2], AF[w], 4 * nf) && dsym_memeq(AD[2], AD[w], 8 * nd), "the arrays read back exactly"); dsym_assert(AI[2][ni + more] == 0x55555555 && *(int*)&AF[2][nf + more] == 0x55555555 && *(long long*)&AD[2][nd + more] == 0x5555555555555555, "nothing is written beyond the arrays");
}
static const short NA[] = {0, 1, 2, 3, 5, 300};
void h_array(void) { openf(IFL, "a.dss"); other(); int ni = NA[pick(0, 5, "ints")], nf = NA[pick(0, 5, "floats")], nd = NA[pick(0, 5, "doubles")]; fillarr(0, ni, nf, nd); int st = hec_dss_arrayStore(DF, PA, ni ? AI[0] : 0, ni, nf ? AF[0] : 0, nf, nd ? AD[0] : 0, nd); dsym_assert(st == 0, "the arrays are stored"); reopen(); int m = pick(0, 1, "larger buffers"); arr_ok(0, ni, nf, nd, m); other_ok(); dsym_cover("end"); }
void h_array_again(void) { openf(IFL, "a.dss"); int rl = pick(1, 3, "reclaim"); zsetFile(IFL, "RECLAIM", "", rl); other(); int n[2][3]; static const char* nm[2][3] = {{"i 1", "f 1", "d 1"}, {"i 2", "f 2", "d 2"}}; for (int w = 0; w < 2; w++) { for (int j = 0; j < 3; j++) n[w][j] = NA[3 * pick(0, 1, nm[w][j]) + (j == 1)] ; if (w && pick(0, 1, "long")) n[w][2] = 600; fillarr(w, n[w][0], n[w][1], n[w][2]); int st = hec_dss_arrayStore(DF, PA, AI[w], n[w][0], AF[w], n[w][1], AD[w], n[w][2]); dsym_assert(st == 0, "the arrays are replaced"); } arr_ok(1, n[1][0], n[1][1], n[1][2], 0); other_ok(); dsym_cover("end"); }
