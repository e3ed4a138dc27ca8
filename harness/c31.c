// C31: vertical datum information converts without loss
#include "ts.h"
#include "verticalDatum.h"
const char* dss_strcasestr(const char*, const char*);
static double ab(double x) { return x < 0 ? -x : x; }
static int near(double a, double b) { return ab(a - b) < 1e-6; }
// base-64 text: every byte comes back, and text that is not base-64 is refused
void h_b64(void) {
  int n = pick(1, THOROUGH ? 10 : 6, "bytes"), at; at = pick(n > 3 ? n - 3 : 0, n - 1, "position"); char b[16]; for (int i = 0; i < n; i++) b[i] = (i * 89 + 200) & 255; dsym_sym(b + at, 1, "byte");
  char *e = 0, *d = 0; int len = -1, r = b64Encode(&e, b, n); dsym_assert(r == 0 && e, "encodes"); dsym_assert((int)strlen(e) == b64EncodedLen(n) && b64EncodedLen(n) == (n + 2) / 3 * 4, "length of the code"); r = b64Decode(&d, &len, e); dsym_assert(r == 0 && d, "decodes"); dsym_assert(len == n, "decoded length"); dsym_assert(dsym_memeq(d, b, n), "decoded bytes"); free(e); free(d); dsym_cover("end");
}
void h_b64_bad(void) {
  static const char* T[] = {"QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDRA==", "QUJDREU="}; int t = pick(0, 5, "text"), l = strlen(T[t]), k = pick(0, 2, "damage"), at, r, len = 77; char b[20], *d = 0; strcpy(b, T[t]);
  if (k == 0) { at = pick(0, l - 1, "position"); char c; dsym_sym(&c, 1, "character"); dsym_assume(c != 0); dsym_assume(!(((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/') | ((c == '=') & (at == l - 1)))); b[at] = c; if (at == l - 2 && b[l - 1] == '=') dsym_assume(c != '='); }
  else if (k == 1) { at = pick(1, l - 1, "shorter"); if (at % 4 == 0) dsym_stop(); b[at] = 0; } else { at = pick(1, 3, "longer"); for (int i = 0; i < at; i++) strcat(b, "A"); }
  r = b64Decode(&d, &len, b); dsym_assert(r < 0, "text that is not base-64 is refused"); dsym_cover("end");
}
// texts of parameters with a value each
static const char* KEY[] = {"verticalDatum", "verticalDatumInfo", "other"}; static const char* VAL[] = {"NGVD-29", "H4sIAAA==", "", "x y", "a:b"};
void h_delimited(void) {
  int n = pick(0, 3, "parameters"), perm = n > 1 ? pick(0, 5, "order") : pick(0, 2, "order") * 2, who = pick(0, 2, "parameter"), nv, tail, room, over; tail = n ? pick(0, 1, "last delimiter missing") : 0; nv = pick(0, 4, "new value"); room = pick(-1, THOROUGH ? 1 : 0, "room"); over = pick(0, 1, "overwrite");
  static const int PM[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; const int* p = PM[perm]; const char* v[3] = {0, 0, 0}; char w[200] = ""; int vs = THOROUGH ? pick(0, 4, "values") : perm; for (int i = 0; i < n; i++) { v[p[i]] = VAL[(i + vs) % 5]; strcat(w, KEY[p[i]]); strcat(w, ":"); strcat(w, v[p[i]]); if (i < n - 1 || !tail) strcat(w, ";"); }
  int l = strlen(w), rest = l - (v[who] && over ? (int)(strlen(KEY[who]) + 1 + strlen(v[who])) + (tail && p[n - 1] == who ? 0 : 1) : 0), semi = rest && tail && !(over && p[n - 1] == who), keep = v[who] && !over, need = rest + semi + (int)strlen(KEY[who]) + 1 + (int)strlen(VAL[nv]) + 2, cap = need + room; if (cap < l + 1) cap = l + 1;
  char* s = malloc(cap); strcpy(s, w); for (int k = 0; k < 3; k++) { char* g = extractFromDelimitedString(&s, KEY[k], ":", THOROUGH ? pick(0, 1, "case") : k & 1, 0, ';'); dsym_assert((g == 0) == (v[k] == 0) && (!g || !strcmp(g, v[k])), "value of a parameter"); free(g); } dsym_assert(!strcmp(s, w), "reading changes nothing");
  int r = insertIntoDelimitedString(&s, cap, KEY[who], VAL[nv], ":", over, ';');
  if (keep) { dsym_assert(r == 0 && !strcmp(s, w), "an existing value is kept"); } else if (cap < need) { dsym_assert(r == -1, "no room is reported"); dsym_assert(!strcmp(s, w), "no room leaves the text alone"); } else { dsym_assert(r == 0, "inserted"); v[who] = VAL[nv]; }
  for (int k = 0; k < 3; k++) { char* g = extractFromDelimitedString(&s, KEY[k], ":", 1, 0, ';'); dsym_assert((g == 0) == (v[k] == 0) && (!g || !strcmp(g, v[k])), "value of a parameter"); free(g); }
  int k = pick(0, 2, "removed"); char* g = extractFromDelimitedString(&s, KEY[k], ":", 1, 1, ';'); dsym_assert((g == 0) == (v[k] == 0) && (!g || !strcmp(g, v[k])), "value of a parameter"); free(g); v[k] = 0; for (k = 0; k < 3; k++) { g = extractFromDelimitedString(&s, KEY[k], ":", 1, 0, ';'); dsym_assert((g == 0) == (v[k] == 0) && (!g || !strcmp(g, v[k])), "value of a parameter"); free(g); }
  free(s); dsym_cover("end");
}
void h_header(void) { int n = pick(0, 13, "length"), at = n ? pick(0, n - 1, "position") : 0, k; char b[20]; for (int i = 0; i < n; i++) b[i] = 'A' + i; b[n] = 0; if (n) { dsym_sym(b + at, 1, "character"); dsym_assume((b[at] > 32) & (b[at] < 127)); } int* h = stringToUserHeader(b, &k); dsym_assert(k == (n + 3) / 4, "header length"); char* t = userHeaderToString(h, k); if (!n) dsym_assert(!t || !*t, "empty header"); else { dsym_assert((int)strlen(t) == n, "header text length"); dsym_assert(dsym_memeq(t, b, n + 1), "header text"); } free(t); free(h); dsym_cover("end"); }
void h_find(void) { static const char* H[] = {"verticalDatum:X", "a;VERTICALDATUM:Y;", "verticaldatum", "erticalDatum:verticalDatum:", ""}; int i = pick(0, 4, "text"), c = pick(0, 1, "case"); const char* r = dss_strcasestr(H[i], "VerticalDatum"); static const int AT[] = {0, 2, 0, 13, -1}; (void)c; dsym_assert(AT[i] < 0 ? !r : r == H[i] + AT[i], "found where it is"); dsym_cover("end"); }
// the information itself: text and back, plain and compressed
static const double OFF[] = {UNDEFINED_VERTICAL_DATUM_VALUE, 0, 0.3855, -1.457, 1e-6, 29028.870001, -123456789.5}; static const char* ND[] = {"NGVD-29", "NAVD-88", "OTHER", "Pensacola", "Local-Datum-16ch", "A"};
static verticalDatumInfo mkinfo(int nd, int u, int g, int a) { verticalDatumInfo v; initializeVerticalDatumInfo(&v); strcpy(v.nativeDatum, ND[nd]); strcpy(v.unit, u ? "m" : "ft"); v.offsetToNgvd29 = nd == 0 ? 0 : OFF[g]; v.offsetToNavd88 = nd == 1 ? 0 : OFF[a]; return v; }
static int sameinfo(const verticalDatumInfo* x, const verticalDatumInfo* y) { // x as given
  if (strcmp(x->nativeDatum, y->nativeDatum) || strcmp(x->unit, y->unit)) return 1; int ug = x->offsetToNgvd29 == UNDEFINED_VERTICAL_DATUM_VALUE, ua = x->offsetToNavd88 == UNDEFINED_VERTICAL_DATUM_VALUE; if (ug ? y->offsetToNgvd29 != UNDEFINED_VERTICAL_DATUM_VALUE : !near(x->offsetToNgvd29, y->offsetToNgvd29)) return 2; if (ua ? y->offsetToNavd88 != UNDEFINED_VERTICAL_DATUM_VALUE : !near(x->offsetToNavd88, y->offsetToNavd88)) return 3; if (!ug && !x->offsetToNgvd29IsEstimate != !y->offsetToNgvd29IsEstimate) return 4; return !ua && !x->offsetToNavd88IsEstimate != !y->offsetToNavd88IsEstimate ? 5 : 0; }
void h_info(void) {
  int nd = pick(0, 5, "native"), u = pick(0, 1, "unit"), g = nd == 0 ? 0 : pick(0, 6, "to NGVD-29"), a = nd == 1 ? 0 : pick(0, 6, "to NAVD-88"), z; z = pick(0, 1, "compressed"); verticalDatumInfo v = mkinfo(nd, u, g, a), w; if (nd != 0) v.offsetToNgvd29IsEstimate = sym_int("estimate"); if (nd != 1) v.offsetToNavd88IsEstimate = pick(0, 1, "estimate"); memset(&w, 0x55, sizeof w);
  if (nd == 3 && !z && THOROUGH) { int at = pick(0, 8, "position"); dsym_sym(v.nativeDatum + at, 1, "letter"); char c = v.nativeDatum[at]; dsym_assume(((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '.') | (c == '-') | (c == '_')); }
  char* s = 0; char* e = verticalDatumInfoToString(&s, &v, z); dsym_assert(e == 0 && s, "information to text"); e = stringToVerticalDatumInfo(&w, s); dsym_assert(e == 0, "text to information"); int r = sameinfo(&v, &w); dsym_assert(r == 0, "information returns as given"); free(s);
  // through a user header, among other things
  s = 0; verticalDatumInfoToString(&s, &v, z); char* h = malloc(strlen(s) + 80); sprintf(h, "abc:1;verticalDatumInfo:%s;zz:9;", s); int k, *uh = stringToUserHeader(h, &k); verticalDatumInfo* x = extractVerticalDatumInfoFromUserHeader(uh, k); dsym_assert(x != 0, "information in a header is found"); r = sameinfo(&v, x); dsym_assert(r == 0, "information in a header returns as given"); free(x); free(uh); free(h); free(s); dsym_cover("end");
}
// datum texts a user may give, one byte of them any
static const char* XML[] = {
  "<vertical-datum-info office=\"SWT\" unit=\"ft\">\n  <location>PENS</location>\n  <native-datum>OTHER</native-datum>\n  <local-datum-name>Pensacola</local-datum-name>\n  <elevation>757</elevation>\n  <offset estimate=\"true\">\n    <to-datum>NAVD-88</to-datum>\n    <value>1.457</value>\n  </offset>\n  <offset estimate=\"false\">\n    <to-datum>NGVD-29</to-datum>\n    <value>-1.07</value>\n  </offset>\n</vertical-datum-info>\n",
  "<vertical-datum-info unit=\"m\"><native-datum>NGVD-29</native-datum><elevation/><a-tag-with-a-name-of-just-32-chars/><offset estimate=\"false\"><to-datum>NAVD-88</to-datum><value>2.5</value></offset></vertical-datum-info>",
  "<vertical-datum-info unit=\"feet\"><native-datum> NAVD-88 </native-datum>\n                                                                      <offset   estimate=\"true\">                                  \n                                    <to-datum>    NGVD-29    </to-datum>                                                    <value>   7    </value>                                    </offset></vertical-datum-info>" };
static const verticalDatumInfo XV[] = { {"Pensacola", "ft", -1.07, 0, 1.457, 1}, {"NGVD-29", "m", 0, 0, 2.5, 0}, {"NAVD-88", "ft", 7, 1, 0, 0} };
void h_text(void) { int i = pick(0, 2, "text"); verticalDatumInfo v; memset(&v, 0x55, sizeof v); char* e = stringToVerticalDatumInfo(&v, XML[i]); dsym_assert(e == 0, "a valid text is accepted"); int r = sameinfo(&XV[i], &v); dsym_assert(r == 0, "a valid text is read"); dsym_cover("end"); }
static void anybyte(int i) { // the text with one byte replaced: refused, or read as it now says
  int l = strlen(XML[i]), at, st = i || THOROUGH ? 1 : 3; at = pick(0, (l - 1) / st, "position") * st; char b[700]; strcpy(b, XML[i]); char o = b[at], c; dsym_sym(&c, 1, "byte"); dsym_assume(c != 0); b[at] = c; verticalDatumInfo v; memset(&v, 0x55, sizeof v); char* e = stringToVerticalDatumInfo(&v, b); if (e) { dsym_assert(c != o, "a valid text is accepted"); dsym_cover("end"); return; }
  verticalDatumInfo w = XV[i]; const char *vo = strstr(XML[i], "<value>"), *v2 = vo ? strstr(vo + 1, "<value>") : 0; const char* here = XML[i] + at;
  // where the change may change what is read
  for (int k = 0; k < 2; k++, vo = v2) if (vo && here > vo + 6 && here < strstr(vo, "</value>")) { // a digit, sign or point of an offset: it must still be a number, and that number is read
    char t[80]; int n = strstr(vo, "</value>") - vo - 7; memcpy(t, b + (vo - XML[i]) + 7, n); t[n] = 0; int j = 0, dig = 0, ok = 1; double x = 0, sc = 1; int neg = 0; while (isspace((unsigned char)t[j])) j++; if (t[j] == '-' || t[j] == '+') neg = t[j++] == '-'; for (; t[j] >= '0' && t[j] <= '9'; j++) x = x * 10 + (t[j] - '0'), dig = 1; if (t[j] == '.') for (j++; t[j] >= '0' && t[j] <= '9'; j++) x += (t[j] - '0') * (sc /= 10), dig = 1; if (dig && (t[j] == 'e' || t[j] == 'E')) { int ex = 0, en = 0, q = j + 1, ed = 0; if (t[q] == '-' || t[q] == '+') en = t[q++] == '-'; for (; t[q] >= '0' && t[q] <= '9'; q++) ex = ex * 10 + t[q] - '0', ed = 1; if (ed) { j = q; while (ex-- > 0) x = en ? x / 10 : x * 10; } } while (isspace((unsigned char)t[j])) j++; ok = dig && !t[j]; dsym_assert(ok, "an offset that is not a number is refused"); if (neg) x = -x; if (i == 0 ? k == 0 : i == 1) w.offsetToNavd88 = x; else w.offsetToNgvd29 = x; }
  const char* ln = i == 0 ? strstr(XML[i], "Pensacola") : strstr(XML[i], "<native-datum>") + 14; int ll = strcspn(ln, "<"); if (here >= ln && here < ln + ll) { // another name is another datum
    char nm[20]; memcpy(nm, b + (ln - XML[i]), ll); nm[ll] = 0; char* q = nm; while (isspace((unsigned char)*q)) q++; int z = strlen(q); while (z && isspace((unsigned char)q[z - 1])) q[--z] = 0; if (i && strcmp(q, w.nativeDatum)) { if (i == 1) w.offsetToNgvd29 = UNDEFINED_VERTICAL_DATUM_VALUE; else w.offsetToNavd88 = UNDEFINED_VERTICAL_DATUM_VALUE; } strcpy(w.nativeDatum, q); }
  if (i == 0) { const char* ot = strstr(XML[i], "OTHER"); if (here >= ot && here < ot + 5) { dsym_cover("end"); return; } }
  const char* un = strstr(XML[i], "unit=\"") + 6; if (here >= un && here < strchr(un, '"')) { char t[20]; int n = strchr(un, '"') - un; memcpy(t, b + (un - XML[i]), n); t[n] = 0; char* q = strchr(t, '"'); if (q) *q = 0; q = t; while (isspace((unsigned char)*q)) q++; n = strlen(q); while (n && isspace((unsigned char)q[n - 1])) q[--n] = 0; int f = unitIsFeet(q), m = unitIsMeters(q); dsym_assert(f | m, "a unit that is neither feet nor meters is refused"); strcpy(w.unit, f ? "ft" : "m"); }
  int r = sameinfo(&w, &v); dsym_assert(r == 0, "a changed text is refused or read as it says"); dsym_cover("end");
}
void h_any0(void) { anybyte(0); } void h_any1(void) { anybyte(1); } void h_any2(void) { anybyte(2); }
// texts that are not datum information
void h_malformed(void) {
  static const char* M[] = {"", "</vertical-datum-info>", "<vertical-datum-info", "<vertical-datum-info unit=\"ft\">", "<vertical-datum-info unit=\"ft\"></vertical-datum-info>", "<a><b></a></b>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum>", "<vertical-datum-info unit=\"cm\"><native-datum>NGVD-29</native-datum></vertical-datum-info>", "<vertical-datum-info><native-datum>NGVD-29</native-datum></vertical-datum-info>",
   "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"maybe\"><to-datum>NAVD-88</to-datum><value>1</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"t\"><to-datum>NAVD-88</to-datum><value>1</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"true\"><to-datum>NAVD-88</to-datum><value>abc</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"true\"><to-datum>NAVD-88</to-datum><value>1,5</value></offset></vertical-datum-info>",
   "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"true\"><to-datum>NAVD-88x</to-datum><value>1</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"true\"><to-datum>EGM96</to-datum><value>1</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"true\"><value>1</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-datum><offset estimate=\"true\"><to-datum>NAVD-88</to-datum></offset></vertical-datum-info>",
   "<vertical-datum-info unit=\"ft\"><native-datum>OTHER</native-datum><offset estimate=\"true\"><to-datum>NAVD-88</to-datum><value>1</value></offset><offset estimate=\"true\"><to-datum>NAVD-88</to-datum><value>2</value></offset></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum>NGVD-29</native-da></vertical-datum-info>", "QUJDREVGR0g=", "////", "!!!!", "abc", "a/>b/>c/>d", "</></></></></></></></></></>", "<a/>/>/>/>/>/>/>/>/>/>/>/>/>/>/>/>/>/>/>", "<vertical-datum-info unit=\"\"><native-datum>NGVD-29</native-datum></vertical-datum-info>", "<vertical-datum-info unit=\"ft\"><native-datum></native-datum></vertical-datum-info>" };
  int i = pick(0, (int)(sizeof M / sizeof *M) - 1, "text"); verticalDatumInfo v; char* e = stringToVerticalDatumInfo(&v, M[i]); dsym_assert(e != 0, "a malformed text is refused"); dsym_cover("end");
}
void h_offset(void) { // an offset in the other unit and back
  static const char* U[] = {"ft", "m", "FEET", "Metres", "foot ", "m   ", "cfs", "", " "}; int a = pick(0, 5, "offset unit"), b = pick(0, 8, "data unit"), g = pick(0, 6, "offset"); if (a > 3) a -= 4; double x = getOffset(OFF[g], U[a], U[b]); int fa = a % 2 == 0, fb = b % 2 == 0; if (OFF[g] == UNDEFINED_VERTICAL_DATUM_VALUE) dsym_assert(x == UNDEFINED_VERTICAL_DATUM_VALUE, "no offset stays none"); else if (b > 5) dsym_assert(x == UNDEFINED_VERTICAL_DATUM_VALUE, "no offset for another unit"); else { double e = fa == fb ? OFF[g] : fa ? OFF[g] * 0.3048 : OFF[g] / 0.3048; dsym_assert(ab(x - e) <= 1e-12 * ab(e), "offset in the unit of the data"); } dsym_cover("end"); }
// elevations stored in one datum and read in another
static long long* const F = IFL; static const char* CUR[] = {"", "NAVD-88", "NGVD-29", "Pensacola"}; static const char* UN[] = {"ft", "m", "cfs"};
typedef struct { int nd, u, g, a; } inf; static const inf INF[] = { {0, 0, 0, 2}, {1, 1, 3, 0}, {3, 0, 3, 2}, {3, 1, 0, 0}, {0, 1, 0, 0}, {1, 0, 2, 0} };
static double offto(const verticalDatumInfo* v, int d, int unit) { double o; if (d == 0 || !strcmp(CUR[d], v->nativeDatum)) return 0; if (d == 3) return UNDEFINED_VERTICAL_DATUM_VALUE; o = d == 1 ? v->offsetToNavd88 : v->offsetToNgvd29; if (o == UNDEFINED_VERTICAL_DATUM_VALUE || unit > 1) return UNDEFINED_VERTICAL_DATUM_VALUE; int ft = !strcmp(v->unit, "ft"); return unit == 0 ? ft ? o : o / 0.3048 : ft ? o * 0.3048 : o; }
static const double DV[5] = {1000.25, DMISS, -901, 1003.5, -902}; static int mis(double x) { return x == DMISS || x == -901 || x == -902; }
static verticalDatumInfo infov(int k) { verticalDatumInfo v = mkinfo(INF[k].nd, INF[k].u, INF[k].g, INF[k].a); v.offsetToNavd88IsEstimate = INF[k].nd != 1 && v.offsetToNavd88 != UNDEFINED_VERTICAL_DATUM_VALUE; return v; }
static char TXT[700];
// where 0: plain text in the header, 1: compressed in the header, 2: with the location, 3: with the location after other text, 4: nowhere
static void header(char* h, const verticalDatumInfo* v, int where, int d, int how) { *h = 0; if (where < 2) { char* s = 0; verticalDatumInfoToString(&s, v, where); sprintf(h, "abc:1;verticalDatumInfo:%s;", s); free(s); } if (how == 1 && d) { strcat(h, "verticalDatum:"); strcat(h, CUR[d]); strcat(h, ";"); } }
static char* supp(const verticalDatumInfo* v, int where) { char* s = 0; verticalDatumInfoToString(&s, v, 1); sprintf(TXT, "%sverticalDatumInfo:%s%s", where == 3 ? "key:value;" : "", s, where == 3 ? "" : ";"); free(s); return TXT; }
static const char* SP[2] = {"/Basin/Loc/Elev//1Hour/Ver/", "/Basin/Loc/Elev//IR-Month/Ver/"}; static int itm[5] = {60, 120, 180, 240, 300};
static int g_x; static double g_xd; static float g_xf;
static int put_series(int irr, int dbl, const verticalDatumInfo* v, int where, int d, int how, int unit, double add) {
  double x[5]; float f[5]; char us[60]; for (int i = 0; i < 5; i++) { x[i] = mis(DV[i]) ? DV[i] : DV[i] + add; f[i] = mis(DV[i]) ? (DV[i] == DMISS ? FMISS : (float)DV[i]) : (float)x[i]; } if (g_x) { x[1] = g_xd; f[1] = g_xf; } if (how == 2 && d) sprintf(us, "U=%s|V=%s", UN[unit], CUR[d]); else strcpy(us, UN[unit]);
  zStructTimeSeries* t = irr ? dbl ? zstructTsNewIrregDoubles(SP[1], x, 5, itm, 60, "01JAN2000", us, "INST-VAL") : zstructTsNewIrregFloats(SP[1], f, 5, itm, 60, "01JAN2000", us, "INST-VAL") : dbl ? zstructTsNewRegDoubles(SP[0], x, 5, "01JAN2000", "0100", us, "INST-VAL") : zstructTsNewRegFloats(SP[0], f, 5, "01JAN2000", "0100", us, "INST-VAL");
  char h[700]; header(h, v, where, d, how); if (*h) { t->userHeader = stringToUserHeader(h, &t->userHeaderNumber); t->allocated[zSTRUCT_userHeader] = 1; } if (where == 2 || where == 3) { t->locationStruct = zstructLocationNew(SP[irr]); t->allocated[zSTRUCT_TS_locationStruct] = 1; t->locationStruct->supplemental = supp(v, where); } zset("VDTM", how == 0 && d ? CUR[d] : "UNSET", 0);
  int st = ztsStore(F, t, 0); for (int i = 0; i < 5; i++) if (dbl) dsym_assert(t->doubleValues[i] == x[i], "the caller's values are left alone"); else dsym_assert(t->floatValues[i] == f[i], "the caller's values are left alone"); zstructFree(t); zset("VDTM", "UNSET", 0); return st;
}
static int close_to(double a, double b, int dbl) { return ab(a - b) <= (dbl ? 1e-6 : 1e-3); }
static int elev(const double* d, const float* f, int i, double want, int dbl) { double g = d ? d[i] : f[i]; return mis(want) ? mis(g) || g == FMISS : close_to(g, want, dbl); }
static void get_series(int irr, int dbl, const verticalDatumInfo* v, int d, int e, int unit, double add) { // stored in datum d, read in datum e
  double o1 = offto(v, d, unit), o2 = offto(v, e, unit); zset("VDTM", e ? CUR[e] : "UNSET", 0); zStructTimeSeries* t = zstructTsNew(SP[irr]); int st = ztsRetrieve(F, t, irr ? 0 : -1, dbl ? 2 : 1, 0); zset("VDTM", "UNSET", 0); dsym_assert((st == 0) == (o2 != UNDEFINED_VERTICAL_DATUM_VALUE), "read in a datum that has an offset, and in no other"); if (st) { zstructFree(t); return; }
  int bad = 0, n = t->numberValues, m = 0; dsym_assert(!strcmp(t->units, UN[unit]), "unit without the datum"); for (int i = 0; i < n; i++) { int w = -1; for (int q = 0; q < 5; q++) if (t->times && t->timeGranularitySeconds == 60 && t->times[i] == (jul(2000, 1, 1) - t->julianBaseDate) * 1440 + 60 * (q + 1)) w = q; if (w < 0) { bad = 1; continue; } m++; bad |= !elev(t->doubleValues, t->floatValues, i, mis(DV[w]) ? DV[w] : DV[w] + add - o1 + o2, dbl) << 1; }
  dsym_assert(!(bad & 1) && m >= (irr ? 5 : 4), "times"); dsym_assert(!bad, "an elevation in another datum"); if (e) { verticalDatumInfo* x = extractVerticalDatumInfoFromUserHeader(t->userHeader, t->userHeaderNumber); int r = x ? sameinfo(v, x) : 9; dsym_assert(r == 0, "the information comes with the series"); free(x); } zstructFree(t);
}
static void location(const verticalDatumInfo* v, const char* p) { zStructLocation* l = zstructLocationNew(p); int st = zlocationRetrieve(F, l); dsym_assert(st == 0 && l->supplemental, "the location is stored"); char* s = extractFromDelimitedString(&l->supplemental, "verticalDatumInfo", ":", 1, 0, ';'); dsym_assert(s != 0, "the location has the information"); verticalDatumInfo w; char* e = stringToVerticalDatumInfo(&w, s); int r = e ? 9 : sameinfo(v, &w); dsym_assert(r == 0, "the information of the location is as given"); free(s); zstructFree(l); }
static void series(int irr) {
  int dbl = pick(0, 1, "double"), k = pick(0, THOROUGH ? 5 : 2, "information") * (THOROUGH ? 1 : 2), where = pick(0, 3, "where"), d = pick(0, 3, "datum"), how = d ? pick(0, 2, "datum given") : 0, unit = THOROUGH ? pick(0, 2, "unit") : (dbl + where + d) % 3; verticalDatumInfo v = infov(k); openf(F, "a.dss"); double o = offto(&v, d, unit); int st = put_series(irr, dbl, &v, where, d, how, unit, 0);
  if (unit == 2 || o == UNDEFINED_VERTICAL_DATUM_VALUE) { dsym_assert(st != 0, "no conversion: refused"); zStructTimeSeries* t = zstructTsNew(SP[irr]); st = ztsRetrieve(F, t, irr ? 0 : -1, 2, 0); dsym_assert(st != 0, "nothing is stored"); zstructFree(t); dsym_cover("end"); return; }
  dsym_assert(st == 0, "stored"); location(&v, SP[irr]); for (int e = 0; e < 4; e++) get_series(irr, dbl, &v, d, e, unit, 0);
  // more, in another datum, without the information
  int d2 = pick(0, 3, "second datum"), h2 = pick(0, 2, "second given"), u2 = unit; double o2 = offto(&v, d2, u2); st = put_series(irr, dbl, &v, 4, d2, h2, u2, 7.5); if (o2 == UNDEFINED_VERTICAL_DATUM_VALUE) { dsym_assert(st != 0, "no conversion: refused"); get_series(irr, dbl, &v, d, 0, unit, 0); } else { dsym_assert(st == 0, "stored"); for (int e = 0; e < 4; e++) get_series(irr, dbl, &v, d2, e, unit, 7.5); } location(&v, SP[irr]); dsym_cover("end");
}
void h_regular(void) { series(0); } void h_irregular(void) { series(1); }
// other information for the same location: refused unless it may be replaced
void h_conflict(void) { int k = pick(0, 5, "information"), k2 = pick(0, 5, "other"), ow = pick(0, 1, "overwrite"), where = pick(0, 3, "where"), st; verticalDatumInfo v = infov(k), w = infov(k2); openf(F, "a.dss"); st = put_series(0, 1, &v, 0, 0, 0, 0, 0); dsym_assert(st == 0, "stored"); zset("VDOW", "", ow); st = put_series(0, 1, &w, where, 0, 0, 0, 7.5); zset("VDOW", "", 0); if (k == k2 || ow) { dsym_assert(st == 0, "stored"); location(&w, SP[0]); get_series(0, 1, &w, 0, 0, 0, 7.5); } else { dsym_assert(st != 0, "conflicting information is refused"); location(&v, SP[0]); get_series(0, 1, &v, 0, 0, 0, 0); } dsym_cover("end"); }
// series and curves without information, or missing, read in a datum
void h_none(void) { int d = pick(0, 3, "datum"), irr = pick(0, 1, "irregular"), there = pick(0, 1, "stored"), loc = pick(0, 1, "location asked"), st; openf(F, "a.dss"); verticalDatumInfo v = infov(0); if (there) { st = put_series(irr, 1, &v, 4, 0, 0, 0, 0); dsym_assert(st == 0, "stored"); } zset("VDTM", d ? CUR[d] : "UNSET", 0); zStructTimeSeries* t = zstructTsNew(SP[irr]); if (!loc && t->locationStruct) { zstructFree(t->locationStruct); t->locationStruct = 0; t->allocated[zSTRUCT_TS_locationStruct] = 0; } st = ztsRetrieve(F, t, irr ? 0 : -1, 2, 0); if (!there) dsym_assert(st != 0, "nothing there"); else dsym_assert((st == 0) == (d == 0), "no offset: not read"); zstructFree(t); zset("VDTM", "UNSET", 0); dsym_cover("end"); }

// any elevation: stored in one datum and read in another, it is the value shifted by the two offsets, and a missing value stays missing
static void value(int dbl) {
  int irr = pick(0, 1, "irregular"), d = pick(0, 2, "datum"), e = pick(0, 2, "read datum"); verticalDatumInfo v = infov(0); openf(F, "a.dss"); double x = 0, o1 = offto(&v, d, 0), o2 = offto(&v, e, 0); float f = 0;
  if (dbl) { x = sym_double("elevation"); dsym_assume((x >= -30000.0) & (x <= 30000.0)); } else { f = sym_float("elevation"); dsym_assume((f >= -30000.0f) & (f <= 30000.0f)); }
  int m = dbl ? (x == -901.0) | (x == -902.0) : (f == -901.0f) | (f == -902.0f); if (!m) { if (dbl) dsym_assume((x - o1 != -901.0) & (x - o1 != -902.0)); else dsym_assume((f - (float)o1 != -901.0f) & (f - (float)o1 != -902.0f)); } // (such an elevation is a missing value in the native datum)
  g_x = 1; g_xd = x; g_xf = f; int st = put_series(irr, dbl, &v, 0, d, 0, 0, 0); dsym_assert(st == 0, "stored"); zset("VDTM", e ? CUR[e] : "UNSET", 0); zStructTimeSeries* t = zstructTsNew(SP[irr]); st = ztsRetrieve(F, t, irr ? 0 : -1, dbl ? 2 : 1, 0); zset("VDTM", "UNSET", 0);
  dsym_assert(st == 0 && t->numberValues >= 4, "read"); if (dbl) { double g = t->doubleValues[1], w = x; if (!m && o1 != 0) w = w - o1; if (!m && o2 != 0) w = w + o2; dsym_assert(g == w, "the elevation in the other datum"); } else { float g = t->floatValues[1], w = f; if (!m && o1 != 0) w = w - (float)o1; if (!m && o2 != 0) w = w + (float)o2; dsym_assert(g == w, "the elevation in the other datum"); if (!m && d == e) dsym_assert((g - f <= 0.01f) & (f - g <= 0.01f), "back in its own datum"); }
  zstructFree(t); dsym_cover("end");
}
void h_double(void) { value(1); } void h_float(void) { value(0); }

// paired data: elevations among the ordinates (1), the values (2) or both (3)
static const char* PDP[] = {"", "/Basin/Loc/Elev-Flow///Curve/", "/Basin/Loc/Stage-Elev///Curve/", "/Basin/Loc/Elev-Elevation///Curve/"};
static const double PO[3] = {10.5, 20.25, 30}, PV[6] = {1000.25, -901, 1003.5, -50.5, DMISS, 7};
static void unit_text(char* b, const char* u, int on, int how, int d) { if (on && how == 2 && d) sprintf(b, "U=%s|V=%s", u, CUR[d]); else strcpy(b, u); }
static int put_paired(int kind, int dbl, const verticalDatumInfo* v, int where, int d, int how, int unit, int part, double add) {
  double o[3], x[6]; float fo[3], fx[6]; int c = part ? 2 : 6, at = part ? 4 : 0; for (int i = 0; i < 3; i++) fo[i] = o[i] = PO[i] + (part ? 0 : add); for (int i = 0; i < c; i++) { double q = PV[at + i]; x[i] = mis(q) ? q : q + add; fx[i] = q == DMISS ? FMISS : (float)x[i]; }
  char ui[60], ud[60]; unit_text(ui, UN[unit], kind & 1, how, d); unit_text(ud, UN[unit], kind & 2, how, d);
  zStructPairedData* p = dbl ? zstructPdNewDoubles(PDP[kind], o, x, 3, 2, ui, "Linear", ud, "Linear") : zstructPdNewFloats(PDP[kind], fo, fx, 3, 2, ui, "Linear", ud, "Linear"); if (part) { p->startingCurve = p->endingCurve = 2; p->startingOrdinate = 2; p->endingOrdinate = 3; }
  char h[700]; header(h, v, where, d, how); if (*h) { p->userHeader = stringToUserHeader(h, &p->userHeaderNumber); p->allocated[zSTRUCT_userHeader] = 1; } if (where == 2 || where == 3) { p->locationStruct = zstructLocationNew(PDP[kind]); p->allocated[zSTRUCT_PD_locationStruct] = 1; p->locationStruct->supplemental = supp(v, where); } zset("VDTM", how == 0 && d ? CUR[d] : "UNSET", 0);
  int st = zpdStore(F, p, 0); for (int i = 0; i < c; i++) if (dbl) dsym_assert(p->doubleValues[i] == x[i], "the caller's values are left alone"); else dsym_assert(p->floatValues[i] == fx[i], "the caller's values are left alone"); for (int i = 0; i < 3; i++) if (dbl) dsym_assert(p->doubleOrdinates[i] == o[i], "the caller's ordinates are left alone"); else dsym_assert(p->floatOrdinates[i] == fo[i], "the caller's ordinates are left alone"); zstructFree(p); zset("VDTM", "UNSET", 0); return st;
}
// the curve, as stored in datum d (the values of the part, if any, in datum dp), read in datum e: whole or part
static void get_paired(int kind, int dbl, const verticalDatumInfo* v, int d, int e, int unit, int part, int dp, double padd) {
  double o1 = offto(v, d, unit), o2 = offto(v, e, unit), op = offto(v, dp < 0 ? 0 : dp, unit); zset("VDTM", e ? CUR[e] : "UNSET", 0); zStructPairedData* p = zstructPdNew(PDP[kind]); if (part) { p->startingCurve = p->endingCurve = 2; p->startingOrdinate = 2; p->endingOrdinate = 3; } int st = zpdRetrieve(F, p, dbl ? 2 : 1); zset("VDTM", "UNSET", 0); dsym_assert((st == 0) == (o2 != UNDEFINED_VERTICAL_DATUM_VALUE), "read in a datum that has an offset, and in no other"); if (st) { zstructFree(p); return; }
  int bad = 0, n = part ? 2 : 3, c = part ? 2 : 6; dsym_assert(p->numberOrdinatesInStruct == n && p->numberOrdinatesInStruct * p->numberCurvesInStruct == c, "sizes"); for (int i = 0; i < n; i++) bad |= !elev(p->doubleOrdinates, p->floatOrdinates, i, PO[i + part] + (kind & 1 ? o2 - o1 : 0), dbl); for (int i = 0; i < c; i++) { int q = part ? 4 + i : i, inp = dp >= 0 && q >= 4; double w = PV[q]; if (!mis(w)) w += (inp ? padd : 0) + (kind & 2 ? o2 - (inp ? op : o1) : 0); bad |= (!elev(p->doubleValues, p->floatValues, i, w, dbl)) << 1; }
  dsym_assert(!(bad & 1), "ordinates in another datum"); dsym_assert(!(bad & 2), "values in another datum"); dsym_assert(!strcmp(p->unitsIndependent, UN[unit]) && !strcmp(p->unitsDependent, UN[unit]), "units without the datum"); zstructFree(p);
}
static void paired(int part) {
  int kind = pick(1, 3, "parameter"), dbl = pick(0, 1, "double"), k = pick(0, THOROUGH ? 5 : 2, "information") * (THOROUGH ? 1 : 2), where = pick(0, 3, "where"), d = pick(0, 3, "datum"), how = d ? pick(0, 2, "datum given") : 0, unit = pick(0, 2, "unit"); verticalDatumInfo v = infov(k); openf(F, "a.dss"); double o = offto(&v, d, unit); int st = put_paired(kind, dbl, &v, where, d, how, unit, 0, 0);
  if (unit == 2 || o == UNDEFINED_VERTICAL_DATUM_VALUE) { dsym_assert(st != 0, "no conversion: refused"); zStructPairedData* t = zstructPdNew(PDP[kind]); st = zpdRetrieve(F, t, 0); dsym_assert(st != 0, "nothing is stored"); zstructFree(t); dsym_cover("end"); return; }
  dsym_assert(st == 0, "stored"); location(&v, PDP[kind]); if (!part) { for (int e = 0; e < 4; e++) for (int w = 0; w < 2; w++) get_paired(kind, dbl, &v, d, e, unit, w, -1, 0); dsym_cover("end"); return; }
  int d2 = pick(0, 2, "datum of the part"); double o2 = offto(&v, d2, unit); st = put_paired(kind, dbl, &v, 4, d2, 0, unit, 1, 7.5); if (o2 == UNDEFINED_VERTICAL_DATUM_VALUE) { dsym_assert(st != 0, "no conversion: refused"); get_paired(kind, dbl, &v, d, 0, unit, 0, -1, 0); } else { dsym_assert(st == 0, "stored"); for (int e = 0; e < 3; e++) get_paired(kind, dbl, &v, d, e, unit, 0, d2, 7.5); } dsym_cover("end");
}
void h_paired(void) { paired(0); } void h_paired_part(void) { paired(1); }
