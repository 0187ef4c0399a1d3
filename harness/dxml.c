/* E05: XML reader against an independent reference parser */
#include "dd.h"
#include <ctype.h>
#include <strings.h>
/* reference tree */
typedef struct xn { char name[5000]; int na; struct { char k[600], v[3000]; } at[6]; struct xn * c[40]; int nc; char text[9000]; size_t nt; } xn;
static int xused; static const char * xp; static bool xunspec, xlim;
#define XMAX 120
static xn xpool[XMAX];
static xn * xnew (void) { if (xused >= XMAX) { xlim = true; return &xpool[XMAX - 1]; } xn * n = &xpool[xused++]; n->name[0] = 0; n->na = n->nc = 0; n->nt = 0; return n; }
static bool ws (int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool ns (int c) { c &= 255; return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == ':' || c == '_' || c >= 128; }
static bool nc (int c) { c &= 255; return ns (c) || (c >= '0' && c <= '9') || c == '-' || c == '.'; }
static void sp (void) { while (ws (*xp)) xp++; }
static bool lit (const char * s) { size_t n = strlen (s); if (strncmp (xp, s, n)) return false; xp += n; return true; }
static bool name (char * o, size_t max) { size_t n = 0; if (!ns (*xp)) return false; while (nc (*xp)) { if (n + 1 >= max) { xlim = true; return false; } o[n++] = *xp++; } o[n] = 0; return true; }
static int utf (unsigned c, char * o)
{
  if (c < 0x80) { o[0] = (char) c; return 1; }
  if (c < 0x800) { o[0] = (char) (0xc0 | c >> 6); o[1] = (char) (0x80 | (c & 63)); return 2; }
  if (c < 0x10000) { o[0] = (char) (0xe0 | c >> 12); o[1] = (char) (0x80 | (c >> 6 & 63)); o[2] = (char) (0x80 | (c & 63)); return 3; }
  o[0] = (char) (0xf0 | c >> 18); o[1] = (char) (0x80 | (c >> 12 & 63)); o[2] = (char) (0x80 | (c >> 6 & 63)); o[3] = (char) (0x80 | (c & 63)); return 4;
}
static int ref (char * o) /* after '&' */
{
  if (lit ("lt;")) { *o = '<'; return 1; }
  if (lit ("gt;")) { *o = '>'; return 1; }
  if (lit ("amp;")) { *o = '&'; return 1; }
  if (lit ("quot;")) { *o = '"'; return 1; }
  if (lit ("apos;")) { *o = '\''; return 1; }
  if (*xp != '#') return 0;
  xp++;
  int base = 10; unsigned long v = 0; int n = 0;
  if (*xp == 'x') { base = 16; xp++; }
  for (; base == 16 ? isxdigit ((unsigned char) *xp) : isdigit ((unsigned char) *xp); xp++, n++) { if (n >= (base == 16 ? 6 : 7)) xunspec = true; int c = *xp; v = v * (unsigned) base + (unsigned) (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); if (v > 0x110000) v = 0x110000; }
  if (!n || *xp != ';') return 0;
  xp++;
  if (v == 0 || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) || v == 0xfffe || v == 0xffff) return 0;
  if (v < 32 && v != 9 && v != 10 && v != 13) { xunspec = true; return 1; }
  return utf ((unsigned) v, o);
}
static bool ctl (int c) { return (unsigned char) c < 32 && !ws (c); }
static bool comment (void) { for (; *xp; xp++) { if (xp[0] == '-' && xp[1] == '-') { if (xp[2] == '>') { xp += 3; return true; } return false; } if (ctl (*xp)) xunspec = true; } return false; }
static bool pi (void)
{
  char n[600];
  if (!name (n, sizeof (n))) return false;
  if (!strcasecmp (n, "xml")) return false;
  if (lit ("?>")) return true;
  if (!ws (*xp)) return false;
  for (; *xp; xp++) { if (lit ("?>")) return true; if (ctl (*xp)) xunspec = true; }
  return false;
}
static bool putc_text (xn * e, const char * s, int n) { for (int i = 0; i < n; i++) { if (e->nt + 1 >= sizeof (e->text)) { xlim = true; return false; } e->text[e->nt++] = s[i]; } return true; }
static bool attval (char * o, size_t max)
{
  char q = *xp; size_t n = 0;
  if (q != '"' && q != '\'') return false;
  for (xp++; *xp != q; )
  {
    char b[8] = { 0 }; int k = 1;
    if (!*xp || *xp == '<') return false;
    if (*xp == '&') { xp++; k = ref (b); if (!k) return false; }
    else if (xp[0] == '\r' && xp[1] == '\n') { b[0] = ' '; xp += 2; }
    else { b[0] = ws (*xp) ? ' ' : *xp; if (ctl (*xp)) xunspec = true; xp++; }
    if (n + (size_t) k >= max) { xlim = true; return false; }
    memcpy (o + n, b, (size_t) k); n += (size_t) k;
  }
  xp++;
  o[n] = 0;
  return true;
}
static xn * element (void) /* after '<', at a name */
{
  xn * e = xnew ();
  if (xlim || !name (e->name, sizeof (e->name))) return NULL;
  for (;;)
  {
    bool s = ws (*xp);
    sp ();
    if (lit ("/>")) return e;
    if (lit (">")) break;
    if (!s || e->na >= 6) { if (e->na >= 6) xlim = true; return NULL; }
    if (!name (e->at[e->na].k, sizeof (e->at[0].k))) return NULL;
    sp ();
    if (!lit ("=")) return NULL;
    sp ();
    if (!attval (e->at[e->na].v, sizeof (e->at[0].v))) return NULL;
    for (int i = 0; i < e->na; i++) if (!strcmp (e->at[i].k, e->at[e->na].k)) xunspec = true; /* duplicate attribute */
    e->na++;
  }
  for (;;)
  {
    if (!*xp) return NULL;
    if (lit ("</"))
    {
      char n[5000];
      if (!name (n, sizeof (n)) || strcmp (n, e->name)) return NULL;
      sp ();
      return lit (">") ? e : NULL;
    }
    if (lit ("<!--")) { if (!comment ()) return NULL; }
    else if (lit ("<![CDATA["))
    {
      for (;;) { if (!*xp) return NULL; if (lit ("]]>")) break; if (ctl (*xp)) xunspec = true; if (xp[0] == '\r') { xp += xp[1] == '\n' ? 2 : 1; if (!putc_text (e, "\n", 1)) return NULL; continue; } if (!putc_text (e, xp++, 1)) return NULL; }
    }
    else if (lit ("<?")) { if (!pi ()) return NULL; }
    else if (*xp == '<')
    {
      xp++;
      xn * c = element ();
      if (!c) return NULL;
      if (e->nc >= 40) { xlim = true; return NULL; }
      e->c[e->nc++] = c;
      e->nt = 0; /* content is the text after the last child */
    }
    else if (*xp == '&') { char b[8]; xp++; int k = ref (b); if (!k || !putc_text (e, b, k)) return NULL; }
    else
    {
      if (!strncmp (xp, "]]>", 3) || ctl (*xp)) xunspec = true;
      if (xp[0] == '\r') { xp += xp[1] == '\n' ? 2 : 1; if (!putc_text (e, "\n", 1)) return NULL; continue; }
      if (!putc_text (e, xp++, 1)) return NULL;
    }
  }
}
static bool misc (void) { for (;;) { sp (); if (lit ("<!--")) { if (!comment ()) return false; } else if (!strncmp (xp, "<?", 2)) { xp += 2; if (!pi ()) return false; } else return true; } }
static bool dquoted (void) { char q = *xp; if (q != '"' && q != '\'') return false; char * e = strchr (xp + 1, q); if (!e) return false; xp = e + 1; return true; }
/* NULL: ill formed; xunspec: this document's acceptance is not specified here */
static xn * reference (const char * t)
{
  xused = 0; xunspec = xlim = false; xp = t;
  if (!strncmp (xp, "\xef\xbb\xbf", 3)) xunspec = true;
  while (ws (*xp)) { const char * q = xp; while (ws (*q)) q++; if (!strncmp (q, "<?xml", 5)) xunspec = true; xp = q; } /* a declaration after white space: lenient */
  if (!strncmp (xp, "<?xml", 5) && ws (xp[5]))
  {
    xp += 5; sp ();
    if (!lit ("version")) return NULL;
    sp (); if (!lit ("=")) return NULL;
    sp (); if (strncmp (xp + 1, "1.", 2)) return NULL;
    for (const char * p = xp + 3; *p && *p != *xp; p++) if (!isdigit ((unsigned char) *p)) return NULL;
    if (xp[3] == *xp) return NULL;
    if (!dquoted ()) return NULL;
    if (ws (*xp)) { sp (); if (lit ("encoding")) { sp (); if (!lit ("=")) return NULL; sp (); const char * q = xp; if (!dquoted ()) return NULL; for (const char * p = q + 1; p < xp - 1; p++) if (!(isalpha ((unsigned char) *p) || (p > q + 1 && (isdigit ((unsigned char) *p) || strchr ("._-", *p))))) return NULL; if (xp == q + 2) return NULL; } }
    sp (); if (lit ("standalone")) { xunspec = true; return NULL; }
    if (!lit ("?>")) return NULL;
  }
  if (!misc ()) return NULL;
  if (!strncmp (xp, "<!DOCTYPE", 9)) { xunspec = true; return NULL; } /* accepted or not: see the fixed documents */
  if (!lit ("<")) return NULL;
  xn * r = element ();
  if (!r) return NULL;
  if (!misc () || *xp) return NULL;
  return r;
}
static void xmatch (const iot_data_t * d, const xn * x, const char * text)
{
  const iot_data_t * v;
#define BAD(...) do { char m_[300]; snprintf (m_, sizeof (m_), __VA_ARGS__); mc_fail ("value", "%s, in %.400s", m_, text); } while (0)
  if (iot_data_type (d) != IOT_DATA_MAP) BAD ("element is not a map");
  v = iot_data_string_map_get (d, "name");
  if (!v || strcmp (iot_data_string (v), x->name)) BAD ("element name '%.50s' for '%.50s'", v ? iot_data_string (v) : "none", x->name);
  uint32_t want = 2u + (x->nc ? 1 : 0) + (x->nt ? 1 : 0);
  if (iot_data_map_size (d) != want) BAD ("element %.50s has %u entries instead of %u", x->name, iot_data_map_size (d), want);
  v = iot_data_string_map_get (d, "attributes");
  if (!v || iot_data_type (v) != IOT_DATA_MAP || iot_data_map_size (v) != (uint32_t) x->na) BAD ("attributes of %.50s", x->name);
  for (int i = 0; i < x->na; i++)
  {
    const char * s = iot_data_string_map_get_string (v, x->at[i].k);
    if (!s || strcmp (s, x->at[i].v)) BAD ("attribute %.50s is '%.100s' instead of '%.100s'", x->at[i].k, s ? s : "missing", x->at[i].v);
  }
  v = iot_data_string_map_get (d, "content");
  if (x->nt ? !v || strlen (iot_data_string (v)) != x->nt || memcmp (iot_data_string (v), x->text, x->nt) : v != NULL) BAD ("content of %.50s is '%.100s' (%zu) instead of '%.*s' (%zu)", x->name, v ? iot_data_string (v) : "none", v ? strlen (iot_data_string (v)) : 0, (int) (x->nt < 100 ? x->nt : 100), x->text, x->nt);
  v = iot_data_string_map_get (d, "children");
  if (x->nc ? !v || iot_data_vector_size (v) != (uint32_t) x->nc : v != NULL) BAD ("%.50s has %u children instead of %d", x->name, v ? iot_data_vector_size (v) : 0, x->nc);
  for (int i = 0; i < x->nc; i++) xmatch (iot_data_vector_get (v, (uint32_t) i), x->c[i], text);
}
static void read_xml (const char * t)
{
  size_t n = strlen (t);
  char * in = malloc (n + 1);
  memcpy (in, t, n + 1);
  xn * x = reference (t);
  iot_data_t * d = iot_data_from_xml (in);
  free (in);
  if (!xlim && !xunspec)
  {
    if (x && !d) mc_fail ("refuse", "well-formed document refused: %.500s", t);
    if (!x && d) { static sb a; mc_fail ("accept", "ill-formed document %.300s gives %.300s", t, dd_str (&a, d, 0)); }
    if (x) xmatch (d, x, t);
  }
  else if (d) { static sb a; dd_str (&a, d, 0); } /* readable */
  iot_data_free (d);
  mc_trans (1); mc_state (mc_mix_str (d != NULL, t)); mc_outcome (x ? 1 : 2);
}
static void s_tokens (void)
{
  static const char * const tok[] = { "<a>", "</a>", "<b", "/>", ">", "</b>", " x='1'", " y=\"&lt;\"", "t", " ", "<!--c-->", "<![CDATA[]d]]>", "&amp;", "&#65;", "&x;", "<?p q?>", "<?xml version='1.0'?>", "<", "\n", "]]>", "--", "<a x='>'/>", "&#x20ac;" };
  char t[300] = "";
  dd_begin ();
  int wrap = mc_choose (3), n = mc_choose ((int) mc_param ("len", 4) + 1);
  if (wrap) strcat (t, wrap == 1 ? "<a>" : "<r> <b>");
  for (int i = 0; i < n; i++) strcat (t, tok[mc_choose (23)]);
  if (wrap) strcat (t, wrap == 1 ? "</a>" : "</b></r>");
  mc_log ("%s\n", t);
  read_xml (t);
  dd_leaks ("reading XML");
}
static void s_chars (void)
{
  static const char al[] = { '<', '>', '/', 'a', '=', '"', ' ', '&', ';', '!', '-', '?', '#', ']' };
  static const char * const pre[] = { "", "<a", "<a>", "<a b", "<a>&", "<!", "<a><!", "<a>x</a>", "<?", "<a><?" };
  char t[40];
  dd_begin ();
  int w = mc_choose (10), n = mc_choose ((int) mc_param ("len", 4) + 1);
  strcpy (t, pre[w]);
  size_t l = strlen (t);
  for (int i = 0; i < n; i++) t[l++] = al[mc_choose (14)];
  t[l] = 0;
  mc_log ("%s\n", t);
  read_xml (t);
  strcat (t, ">"); read_xml (t);
  t[l] = 0; strcat (t, "</a>"); read_xml (t);
  t[l] = 0; strcat (t, "/>"); read_xml (t);
  dd_leaks ("reading XML");
}
/* documents by grammar, with all truncations, and with trailing material */
static int budget;
static void gen (sb * b, int depth)
{
  static const char * const at[] = { "", " k=\"v\"", " k='' j = 'a&quot;b'", "\n\tk=\"&#233;&gt;\"" };
  static const char * const tx[] = { "", "text", " &amp;\n", "<![CDATA[<x>]]>", "<!-- c -->y<?pi z?>" };
  char nm = (char) ('a' + budget % 3);
  sb_add (b, "<%c%s", nm, at[mc_choose (4)]);
  int kids = 0;
  if (budget > 0 && depth < 4) kids = mc_choose (budget < 2 ? 2 : 3);
  int txt = mc_choose (5);
  if (!kids && !txt && mc_choose (2)) { sb_add (b, "/>"); return; }
  sb_add (b, ">");
  if (kids == 0) sb_add (b, "%s", tx[txt]);
  for (int i = 0; i < kids; i++)
  {
    if (txt == 2) sb_add (b, "pre%d", i);
    budget--;
    if (budget >= 0) gen (b, depth + 1);
    if (i == kids - 1) sb_add (b, "%s", tx[txt]);
  }
  sb_add (b, "</%c >", nm);
}
static void s_docs (void)
{
  static sb b; static char t[DDMAX];
  dd_begin ();
  budget = mc_choose ((int) mc_param ("elems", 2));
  sb_reset (&b);
  gen (&b, 0);
  mc_log ("%s\n", b.s);
  read_xml (b.s);
  if (!reference (b.s)) mc_fail ("harness", "generated document is ill-formed: %s", b.s);
  for (size_t k = 0; k < b.n; k++) { memcpy (t, b.s, k); t[k] = 0; iot_data_t * d = iot_data_from_xml (t); if (d) mc_fail ("accept", "truncated document %s gives a value", t); mc_trans (1); }
  static const char * const tail[] = { " \n", "<!-- end -->", "<?e?>\n", "<z/>", "x", "</a>", "&amp;" };
  for (int k = 0; k < 7; k++) { snprintf (t, sizeof (t), "%s%s", b.s, tail[k]); read_xml (t); }
  static const char * const head[] = { "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n<!-- c -->", " ", "<!---->", "x", "<!DOCTYPE a>", "<!DOCTYPE a [<!ELEMENT a ANY>]>" };
  for (int k = 0; k < 7; k++)
  {
    snprintf (t, sizeof (t), "%s%s", head[k], b.s); read_xml (t);
    if (k < 5) continue;
    iot_data_t * d = iot_data_from_xml (t);
    if (!d) mc_fail ("refuse", "document with a document type refused: %s", t);
    xmatch (d, reference (b.s), t);
    iot_data_free (d);
  }
  dd_leaks ("reading XML");
}
/* every byte at every place of a document */
static void s_bytes (void)
{
  dd_begin ();
  int c = 1 + mc_choose (255);
  static const char * const doc[] = { "<?xml version=\"1.0\"?><a b='c'>t<!--d--><e/><![CDATA[f]]>&lt;&#65;<?p q?></a>\n", "<a/>" };
  char t[200];
  for (int k = 0; k < 2; k++) for (size_t p = 0; p <= strlen (doc[k]); p++)
  {
    strcpy (t, doc[k]);
    if (p < strlen (doc[k])) { t[p] = (char) c; read_xml (t); }
    memcpy (t, doc[k], p); t[p] = (char) c; strcpy (t + p + 1, doc[k] + p); read_xml (t);
  }
  dd_leaks ("reading XML");
}
static void s_refs (void)
{
  dd_begin ();
  int hi = mc_choose (0x114);
  char t[100];
  for (int lo = 0; lo < 4096; lo += (hi > 2 && hi != 0xd && hi != 0xe && hi != 0xf && hi != 0x10 && hi != 0x10f && hi != 0x110) ? 251 : 1)
  {
    unsigned v = (unsigned) hi * 4096u + (unsigned) lo;
    snprintf (t, sizeof (t), "<a x='&#%u;'>&#x%x;</a>", v, v); read_xml (t);
    if (lo % 64 == 0) { snprintf (t, sizeof (t), "<a>p&#x%X;q</a>", v); read_xml (t); snprintf (t, sizeof (t), "<a>&#%u</a>", v); read_xml (t); }
  }
  dd_leaks ("reading XML");
}
/* sizes: text, attribute value, names, number of children, depth */
static void s_sizes (void)
{
  static const int len[] = { 0, 1, 2, 100, 254, 255, 256, 257, 509, 510, 511, 512, 513, 514, 767, 768, 1023, 1024, 1025, 2000, 2500 };
  static char t[40000];
  dd_begin ();
  int kind = mc_choose (7), n = len[mc_choose (21)];
  mc_log ("kind %d size %d\n", kind, n);
  char * p = t;
  switch (kind)
  {
    case 0: p += sprintf (p, "<a>"); for (int i = 0; i < n; i++) *p++ = (char) ('a' + i % 26); p += sprintf (p, "</a>"); break;
    case 1: p += sprintf (p, "<a k='"); for (int i = 0; i < n; i++) *p++ = (char) ('a' + i % 26); p += sprintf (p, "'>z<b k2=\"1\"/>%s</a>", "tail"); break;
    case 2: p += sprintf (p, "<a>pre"); for (int i = 0; i < n; i++) *p++ = 'x'; p += sprintf (p, "<b>"); for (int i = 0; i < n; i++) *p++ = 'y'; p += sprintf (p, "</b>"); for (int i = 0; i < n; i++) *p++ = 'z'; p += sprintf (p, "</a>"); break;
    case 3: *p++ = '<'; *p++ = 'a'; for (int i = 0; i < n; i++) *p++ = 'n'; p += sprintf (p, " k='v'/>"); break;
    case 4: n %= 39; p += sprintf (p, "<a>"); for (int i = 0; i < n; i++) p += sprintf (p, "<b i='%d'>%d</b>", i, i); p += sprintf (p, "</a>"); break;
    case 5: n = n > 90 ? 90 + n % 20 : n; for (int i = 0; i < n + 1; i++) p += sprintf (p, "<d%d>", i); p += sprintf (p, "x"); for (int i = n; i >= 0; i--) p += sprintf (p, "</d%d>", i); break;
    default: p += sprintf (p, "<a>"); for (int i = 0; i < n; i++) p += sprintf (p, "&#x20ac;"); p += sprintf (p, "</a>"); break;
  }
  *p = 0;
  read_xml (t);
  if (kind == 5)
  {
    /* beyond any stack: refused, or read */
    static const int dep[] = { 500, 1000, 1300, 1360, 1400, 2040, 2050, 3000, 5000 };
    for (int k = 0; k < 9; k++) { p = t; for (int i = 0; i < dep[k]; i++) p += sprintf (p, "<d>"); *p = 0; iot_data_t * d = iot_data_from_xml (t); MC_CHECK (!d, "accept", "%d open elements give a value", dep[k]); for (int i = 0; i < dep[k] && dep[k] < 5000; i++) p += sprintf (p, "</d>"); d = iot_data_from_xml (t); MC_CHECK (d || dep[k] > 1000, "refuse", "%d nested elements refused", dep[k]); iot_data_free (d); }
  }
  mc_state (mc_mix ((uint64_t) kind, (uint64_t) n));
  dd_leaks ("reading XML");
}
static const mc_space spaces[] = {
  { "tokens", s_tokens, "every token sequence, alone and inside elements" },
  { "chars", s_chars, "every text over a 14 character alphabet after each of 10 prefixes" },
  { "docs", s_docs, "documents by grammar, all their truncations, and material before and after" },
  { "bytes", s_bytes, "every byte at every place of a document" },
  { "refs", s_refs, "character references" },
  { "sizes", s_sizes, "text, value, name, child count and depth limits" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
