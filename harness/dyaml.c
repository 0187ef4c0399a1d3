/* E06: YAML reader against libyaml's own document tree and a reference for plain scalars */
#include "dd.h"
#include <yaml.h>
#include <ctype.h>
#define BAD(...) do { char m_[400]; snprintf (m_, sizeof (m_), __VA_ARGS__); mc_fail ("value", "%s, in:\n%.500s", m_, text); } while (0)
static bool all (const char * s, const char * set) { return *s && strspn (s, set) == strlen (s); }
static void scalar (const iot_data_t * d, const yaml_node_t * n, const char * text)
{
  const char * v = (const char *) n->data.scalar.value;
  iot_data_type_t t = d ? iot_data_type (d) : IOT_DATA_INVALID;
  bool plain = n->data.scalar.style == YAML_PLAIN_SCALAR_STYLE;
  if (plain && !strcmp (v, "true")) { if (t != IOT_DATA_BOOL || !iot_data_bool (d)) BAD ("true is read as %s", dd_tn[t]); return; }
  if (plain && !strcmp (v, "false")) { if (t != IOT_DATA_BOOL || iot_data_bool (d)) BAD ("false is read as %s", dd_tn[t]); return; }
  if (plain && !strcmp (v, "null")) { if (t != IOT_DATA_NULL) BAD ("null is read as %s", dd_tn[t]); return; }
  if (plain)
  {
    const char * p = v + (*v == '-' || *v == '+');
    bool neg = *v == '-', isint = false, big = false;
    unsigned base = 10;
    const char * dig = p;
    if (p[0] == '0' && (p[1] | 32) == 'x' && all (p + 2, "0123456789abcdefABCDEF")) { isint = true; base = 16; dig = p + 2; }
    else if (p[0] == '0' && p[1] && all (p, "01234567")) { isint = true; base = 8; }
    else if (all (p, "0123456789") && (p[0] != '0' || !p[1])) isint = true;
    if (isint)
    {
      unsigned __int128 u = 0;
      for (; *dig; dig++) { u = u * base + (unsigned) (*dig <= '9' ? *dig - '0' : (*dig | 32) - 'a' + 10); if (u > ((unsigned __int128) 1 << 80)) u = (unsigned __int128) 1 << 80; }
      big = neg ? u > ((unsigned __int128) 1 << 63) : u > UINT64_MAX;
      if (!big)
      {
        bool ok = t == IOT_DATA_INT64 ? iot_data_i64 (d) == (neg ? (int64_t) (0 - (uint64_t) u) : (int64_t) u) && (neg || u <= INT64_MAX) : t == IOT_DATA_UINT64 ? !neg && iot_data_ui64 (d) == (uint64_t) u : false;
        if (!ok) { static sb a; BAD ("%s is read as %s", v, dd_str (&a, d, 0)); }
        return;
      }
    }
    if (p[0] == '0' && (p[1] | 32) == 'b' && all (p + 2, "01")) return; /* binary: not specified */
    /* floating */
    const char * q = p; int nd = 0;
    while (isdigit ((unsigned char) *q)) { q++; nd++; }
    if (*q == '.') { q++; while (isdigit ((unsigned char) *q)) { q++; nd++; } }
    if (nd && (*q | 32) == 'e') { const char * r = q + 1; if (*r == '-' || *r == '+') r++; if (isdigit ((unsigned char) *r)) { while (isdigit ((unsigned char) *r)) r++; q = r; } }
    if ((nd && !*q) || (big && base == 16))
    {
      double want = strtod (v, NULL);
      if (t != IOT_DATA_FLOAT64 || iot_data_f64 (d) != want || signbit (want) != signbit (iot_data_f64 (d))) { static sb a; BAD ("%s is read as %s", v, dd_str (&a, d, 0)); }
      return;
    }
    char * e; if (*v) { strtod (v, &e); if (!*e && !isspace ((unsigned char) *v)) return; } /* inf, nan, hexadecimal floating: not specified */
  }
  if (t != IOT_DATA_STRING || strcmp (iot_data_string (d), v)) { static sb a; BAD ("'%s' is read as %s", v, dd_str (&a, d, 0)); }
}
static int seen[4096]; static bool shared, cplx, dupl;
static void survey (yaml_document_t * doc, int id, int depth)
{
  yaml_node_t * n = yaml_document_get_node (doc, id);
  if (depth > 60) { shared = true; return; }
  if (id < 4096 && seen[id]++) shared = true; /* an alias (possibly to itself) */
  if (shared) return;
  if (n->type == YAML_SEQUENCE_NODE) for (yaml_node_item_t * i = n->data.sequence.items.start; i < n->data.sequence.items.top; i++) survey (doc, *i, depth + 1);
  if (n->type == YAML_MAPPING_NODE) for (yaml_node_pair_t * i = n->data.mapping.pairs.start; i < n->data.mapping.pairs.top; i++)
  {
    yaml_node_t * k = yaml_document_get_node (doc, i->key);
    if (k->type != YAML_SCALAR_NODE || strlen ((char *) k->data.scalar.value) != k->data.scalar.length) cplx = true;
    else for (yaml_node_pair_t * j = n->data.mapping.pairs.start; j < i; j++) { yaml_node_t * o = yaml_document_get_node (doc, j->key); if (o->type == YAML_SCALAR_NODE && !strcmp ((char *) o->data.scalar.value, (char *) k->data.scalar.value)) dupl = true; }
    survey (doc, i->key, depth + 1); survey (doc, i->value, depth + 1);
  }
  if (n->type == YAML_SCALAR_NODE && strlen ((char *) n->data.scalar.value) != n->data.scalar.length) cplx = true; /* NUL inside */
}
static void match (yaml_document_t * doc, int id, const iot_data_t * d, const char * text)
{
  yaml_node_t * n = yaml_document_get_node (doc, id);
  static sb a;
  if (n->type == YAML_SCALAR_NODE) { scalar (d, n, text); return; }
  iot_data_type_t t = d ? iot_data_type (d) : IOT_DATA_INVALID;
  if (n->type == YAML_SEQUENCE_NODE)
  {
    uint32_t want = (uint32_t) (n->data.sequence.items.top - n->data.sequence.items.start);
    if (t != IOT_DATA_VECTOR || iot_data_vector_size (d) != want) BAD ("sequence of %u is read as %.200s", want, dd_str (&a, d, 0));
    for (uint32_t i = 0; i < want; i++) match (doc, n->data.sequence.items.start[i], iot_data_vector_get (d, i), text);
    return;
  }
  uint32_t want = (uint32_t) (n->data.mapping.pairs.top - n->data.mapping.pairs.start);
  if (t != IOT_DATA_MAP || (!dupl && iot_data_map_size (d) != want)) BAD ("mapping of %u is read as %.200s", want, dd_str (&a, d, 0));
  for (yaml_node_pair_t * i = n->data.mapping.pairs.start; i < n->data.mapping.pairs.top; i++)
  {
    const char * k = (char *) yaml_document_get_node (doc, i->key)->data.scalar.value;
    bool later = false; /* the last of duplicate keys wins */
    for (yaml_node_pair_t * j = i + 1; j < n->data.mapping.pairs.top; j++) later |= !strcmp (k, (char *) yaml_document_get_node (doc, j->key)->data.scalar.value);
    if (later) continue;
    match (doc, i->value, iot_data_string_map_get (d, k), text);
  }
}
static void read_yaml (const char * text)
{
  size_t n = strlen (text);
  char * in = malloc (n + 1);
  memcpy (in, text, n + 1);
  iot_data_t * ex = (iot_data_t *) 1, * d = iot_data_from_yaml (in, &ex);
  yaml_parser_t p; yaml_document_t doc;
  yaml_parser_initialize (&p);
  yaml_parser_set_input_string (&p, (const unsigned char *) in, n);
  bool ok = yaml_parser_load (&p, &doc);
  yaml_node_t * root = ok ? yaml_document_get_root_node (&doc) : NULL;
  static sb a;
  MC_CHECK (!d || !ex, "value", "both a value and an exception for:\n%.500s", text);
  if (ex) MC_CHECK (iot_data_type (ex) == IOT_DATA_STRING && *iot_data_string (ex), "exception", "exception without description for:\n%.500s", text);
  shared = cplx = dupl = false;
  memset (seen, 0, sizeof (seen));
  if (!ok)
  {
    MC_CHECK (d || ex, "exception", "neither value nor exception for:\n%.500s", text);
    if (d) dd_str (&a, d, 0);
  }
  else if (!root) MC_CHECK (!d, "value", "empty document gives %.200s:\n%.500s", dd_str (&a, d, 0), text);
  else
  {
    survey (&doc, 1, 0);
    if (shared || cplx) { MC_CHECK (d || ex, "exception", "neither value nor exception for:\n%.500s", text); if (d) { dd_str (&a, d, 0); if (!cplx && strchr (text, '*')) { bool cyc = false; /* aliases: refused, or resolved */ for (int i = 0; i < 4096; i++) cyc |= seen[i] > 50; if (!cyc) match (&doc, 1, d, text); } } }
    else
    {
      MC_CHECK (d, "refuse", "document refused (%s):\n%.500s", ex ? iot_data_string (ex) : "no exception", text);
      match (&doc, 1, d, text);
    }
  }
  mc_outcome (mc_mix ((uint64_t) ok, d ? 1 : ex ? 2 : 3));
  if (ok) yaml_document_delete (&doc);
  yaml_parser_delete (&p);
  free (in);
  iot_data_free (d); iot_data_free (ex);
  mc_trans (1); mc_state (mc_mix_str (1, text));
}
static void s_tokens (void)
{
  static const char * const tok[] = { "a", "b: ", "a: ", "- ", "\n", "  ", "[", "]", "{", "}", ", ", "\"q\"", "'s'", "5", "-1.5", "null", "&x ", "*x ", "# c", "? ", "|\n", ">\n", "---\n", "true", ": ", "!!str ", "*x: ", "%" };
  char t[300] = "";
  dd_begin ();
  int wrap = mc_choose (4), n = mc_choose ((int) mc_param ("len", 3) + 1);
  static const char * const pre[] = { "", "m:\n  ", "[1, ", "k: {z: " }, * const post[] = { "", "\n  y: 2\nz: 3\n", ", 2]", ", y: 1}" };
  strcat (t, pre[wrap]);
  for (int i = 0; i < n; i++) strcat (t, tok[mc_choose (28)]);
  strcat (t, post[wrap]);
  mc_log ("%s\n", t);
  read_yaml (t);
  dd_leaks ("reading YAML");
}
static void s_chars (void)
{
  static const char al[] = { 'a', ':', ' ', '\n', '-', '[', ']', '{', '}', ',', '"', '\'', '#', '&', '*', '\\', '\t', (char) 0xe9 };
  char t[20];
  dd_begin ();
  int n = mc_choose ((int) mc_param ("len", 4) + 1);
  for (int i = 0; i < n; i++) t[i] = al[mc_choose (18)];
  t[n] = 0;
  mc_log ("%s\n", t);
  read_yaml (t);
  dd_leaks ("reading YAML");
}
/* plain scalars: every text over the characters of numerals */
static void s_scalars (void)
{
  static const char al[] = { '0', '1', '7', '8', '9', '-', '+', '.', 'e', 'x', 'F', 'a', '_' };
  char s[20], t[100];
  dd_begin ();
  int n = 1 + mc_choose ((int) mc_param ("len", 4)), form = mc_choose (3);
  for (int i = 0; i < n; i++) s[i] = al[mc_choose (13)];
  s[n] = 0;
  snprintf (t, sizeof (t), form == 0 ? "%s" : form == 1 ? "k: %s" : "[%s, '%s', \"%s\"]", s, s, s);
  read_yaml (t);
  dd_leaks ("reading YAML");
}
static void s_numbers (void)
{
  dd_begin ();
  int b = mc_choose (70), neg = mc_choose (2), base = mc_choose (3);
  char t[200], num[100];
  for (int k = -2; k <= 2; k++)
  {
    __int128 v = ((__int128) 1 << b) + k; if (v < 0) continue;
    char dig[100]; int i = 99; dig[i] = 0; unsigned bs = base == 0 ? 10 : base == 1 ? 16 : 8;
    unsigned __int128 u = (unsigned __int128) v; do { dig[--i] = "0123456789abcdef"[u % bs]; u /= bs; } while (u);
    snprintf (num, sizeof (num), "%s%s%s", neg ? "-" : "", base == 1 ? "0x" : base == 2 && v ? "0" : "", dig + i);
    static const char * const form[] = { "%s", "k: %s\n", "- %s", "[%s]", "%s.0", "k: %s.5e-3", "k: '%s'", "%s: %s", "x%s", "%s_" };
    for (int f = 0; f < 10; f++) { snprintf (t, sizeof (t), form[f], num, num); read_yaml (t); }
  }
  static const char * const words[] = { "true", "false", "null", "True", "TRUE", "yes", "no", "~", "Null", "nul", "truex", "\"true\"", "'null'", "\"\"", "''", "!!int 5", "!!str 5", "1e400", "-1e400", "1e-400", "0.1", ".5", "5.", "-.5", "12:30", "1,000", "0x", "0b1", "0o7" };
  if (b < 29) { snprintf (t, sizeof (t), neg ? "k: %s" : "- %s", words[b]); read_yaml (t); read_yaml (words[b]); }
  dd_leaks ("reading YAML");
}
/* trees rendered in block and flow style */
static const char * const leaf[] = { "5", "-7", "1.5", "true", "null", "word", "\"q: [\"", "'it''s'", "[]", "{}", "two words", "0x1F" };
static void indent (sb * b, int n) { for (int i = 0; i < n; i++) sb_add (b, " "); }
static int left;
static void gen (sb * b, int depth, int ind, bool flow)
{
  int kind = depth >= 3 || left <= 0 ? 0 : mc_choose (3);
  if (kind == 0) { sb_add (b, "%s", leaf[mc_choose (depth >= 2 ? 4 : 12)]); return; }
  left--;
  int n = 1 + mc_choose (2), style = flow ? 1 : mc_choose (2);
  if (style == 1)
  {
    sb_add (b, kind == 1 ? "[" : "{");
    for (int i = 0; i < n; i++) { if (i) sb_add (b, ", "); if (kind == 2) sb_add (b, "%s: ", i ? "\"k 2\"" : "k1"); gen (b, depth + 1, ind, true); }
    sb_add (b, kind == 1 ? "]" : "}");
    return;
  }
  for (int i = 0; i < n; i++)
  {
    sb_add (b, "\n"); indent (b, ind);
    sb_add (b, "%s", kind == 1 ? "- " : i ? "'k 2': " : "k1: ");
    gen (b, depth + 1, ind + 2, false);
  }
}
static void s_docs (void)
{
  static sb b; static char t[DDMAX];
  dd_begin ();
  left = (int) mc_param ("nodes", 2);
  sb_reset (&b);
  gen (&b, 0, 0, false);
  mc_log ("%s\n", b.s);
  read_yaml (b.s);
  for (size_t k = 0; k < b.n; k++) { memcpy (t, b.s, k); t[k] = 0; read_yaml (t); }
  static const char * const tail[] = { "\n", "\n...\n", "\n---\nx: [\n", " # c", "\n]" }, * const head[] = { "---\n", "%YAML 1.1\n---\n", "# c\n" };
  for (int k = 0; k < 5; k++) { snprintf (t, sizeof (t), "%s%s", b.s, tail[k]); read_yaml (t); }
  for (int k = 0; k < 3; k++) { snprintf (t, sizeof (t), "%s%s", head[k], b.s); read_yaml (t); }
  dd_leaks ("reading YAML");
}
static void s_bytes (void)
{
  dd_begin ();
  int c = 1 + mc_choose (255);
  static const char * const doc[] = { "a: 1\nb:\n  - x\n  - {c: \"d\", e: [f, 2]}\ng: |\n  text\nh: &i 5\n", "[a, {b: c}]", "\"\\x41\\u00e9\\n\"", "k: >-\n  folded\n  text\n\n  more\n'q': \"two\n  lines\"\n" };
  char t[300];
  for (int k = 0; k < 4; k++) for (size_t p = 0; p <= strlen (doc[k]); p++)
  {
    strcpy (t, doc[k]);
    if (p < strlen (doc[k])) { t[p] = (char) c; read_yaml (t); }
    memcpy (t, doc[k], p); t[p] = (char) c; strcpy (t + p + 1, doc[k] + p); read_yaml (t);
  }
  dd_leaks ("reading YAML");
}
static void s_big (void)
{
  static const int ns[] = { 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 20000 };
  static const char * const what[] = { "flow sequence", "block sequence", "flow mapping", "block mapping", "plain scalar", "quoted scalar", "literal block", "comment", "key", "number", "white space", "anchor", "nested mappings", "nested flow sequences" };
  dd_begin ();
  int kind = mc_choose (14), n = ns[mc_choose (28)];
  if (n > mc_param ("max", 100000)) mc_prune ();
  if (kind >= 12 && n > 257) mc_prune (); /* depth of recursion is not judged */
  if (kind == 9 && n > 300) mc_prune ();
  if (kind == 8 && n > 1000) mc_prune (); /* longer simple keys are not YAML */
  mc_log ("%s of %d\n", what[kind], n);
  char * t = malloc ((size_t) n * (kind == 12 ? (size_t) n + 8 : 24) + 100), * p = t;
  switch (kind)
  {
    case 0: *p++ = '['; for (int i = 0; i < n; i++) p += sprintf (p, "%s%d", i ? ", " : "", i * 7); strcpy (p, "]\n"); break;
    case 1: for (int i = 0; i < n; i++) p += sprintf (p, "- s%d\n", i * 7); break;
    case 2: *p++ = '{'; for (int i = 0; i < n; i++) p += sprintf (p, "%sk%d: %d", i ? ", " : "", i, i * 7); strcpy (p, "}\n"); break;
    case 3: for (int i = 0; i < n; i++) p += sprintf (p, "k%d: %d\n", i, i * 7); break;
    case 6: p += sprintf (p, "a: |\n"); for (int i = 0; i < n; i++) p += sprintf (p, "  line %d\n", i); p += sprintf (p, "b: 1\n"); break;
    case 12: for (int i = 0; i < n; i++) p += sprintf (p, "%*sk:\n", i, ""); p += sprintf (p, "%*sv: 1\n", n, ""); break;
    case 13: for (int i = 0; i < n; i++) *p++ = '['; *p++ = '1'; for (int i = 0; i < n; i++) *p++ = ']'; strcpy (p, "\n"); break;
    default:
      p += sprintf (p, "- 1\n%s", kind == 5 ? "- \"" : kind == 7 ? "#" : kind == 8 ? "- " : kind == 11 ? "- &" : "- ");
      for (int i = 0; i < n; i++) *p++ = (char) (kind == 9 ? '1' + i % 9 : kind == 10 ? ' ' : 'a' + i % 26);
      p += sprintf (p, "%s- end\n", kind == 5 ? "\"\n" : kind == 8 ? ": 2\n" : kind == 10 ? "x\n" : kind == 11 ? " 5\n" : "\n");
      break;
  }
  read_yaml (t);
  free (t);
  mc_state (mc_mix ((uint64_t) kind, (uint64_t) n));
  dd_leaks ("reading YAML");
}
static const mc_space spaces[] = {
  { "tokens", s_tokens, "every token sequence, alone and inside collections" },
  { "chars", s_chars, "every text over an 18 character alphabet" },
  { "scalars", s_scalars, "every plain scalar over the characters of numerals" },
  { "numbers", s_numbers, "numerals at and around every power of two, words" },
  { "docs", s_docs, "trees in block and flow style, all truncations, material before and after" },
  { "big", s_big, "scalars, collections, comments and nesting of many sizes" },
  { "bytes", s_bytes, "every byte at every place of a document" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
