/* E01 JSON writing, E02 JSON reading, against an independent strict JSON reader */
#include "ddcast.h"
#include "iot/json.h"

/* ---------------------------------------------------------------- reference reader (RFC 8259) */
typedef struct jnode { char k; char * s; size_t n; struct jnode * c[40]; struct jnode * key[40]; int nc; } jnode; /* k: o a s n t f 0(null) */
static jnode pool[256]; static int npool; static char strs[65536]; static size_t nstr;
static bool odd; /* the document uses something the library cannot represent */
static jnode * jnew (char k) { if (npool >= 256) return NULL; jnode * x = &pool[npool++]; x->k = k; x->nc = 0; x->n = 0; x->s = NULL; return x; }
static const char * ws (const char * p) { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; return p; }
static int hex4 (const char * p) { int v = 0; for (int i = 0; i < 4; i++) { char c = p[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return -1; v = v * 16 + d; } return v; }
static void put_utf8 (unsigned c)
{
  if (c < 0x80) strs[nstr++] = (char) c;
  else if (c < 0x800) { strs[nstr++] = (char) (0xc0 + (c >> 6)); strs[nstr++] = (char) (0x80 + (c & 63)); }
  else if (c < 0x10000) { strs[nstr++] = (char) (0xe0 + (c >> 12)); strs[nstr++] = (char) (0x80 + ((c >> 6) & 63)); strs[nstr++] = (char) (0x80 + (c & 63)); }
  else { strs[nstr++] = (char) (0xf0 + (c >> 18)); strs[nstr++] = (char) (0x80 + ((c >> 12) & 63)); strs[nstr++] = (char) (0x80 + ((c >> 6) & 63)); strs[nstr++] = (char) (0x80 + (c & 63)); }
}
static const char * jstr (const char * p, jnode ** out)
{
  if (*p++ != '"') return NULL;
  jnode * x = jnew ('s');
  if (!x) return NULL;
  size_t st = nstr;
  while (*p != '"')
  {
    unsigned char c = (unsigned char) *p;
    if (c < 0x20) return NULL;
    if (c != '\\') { strs[nstr++] = *p++; continue; }
    c = (unsigned char) p[1]; p += 2;
    switch (c)
    {
      case '"': case '\\': case '/': strs[nstr++] = (char) c; break;
      case 'b': strs[nstr++] = '\b'; break; case 'f': strs[nstr++] = '\f'; break; case 'n': strs[nstr++] = '\n'; break; case 'r': strs[nstr++] = '\r'; break; case 't': strs[nstr++] = '\t'; break;
      case 'u':
      {
        int v = hex4 (p), l;
        if (v < 0) return NULL;
        p += 4;
        if (v == 0) odd = true;
        if (v >= 0xd800 && v < 0xdc00 && p[0] == '\\' && p[1] == 'u' && (l = hex4 (p + 2)) >= 0xdc00 && l < 0xe000) { v = 0x10000 + ((v - 0xd800) << 10) + (l - 0xdc00); p += 6; }
        else if (v >= 0xd800 && v < 0xe000) odd = true;
        put_utf8 ((unsigned) v);
        break;
      }
      default: return NULL;
    }
  }
  x->s = strs + st; x->n = nstr - st; strs[nstr++] = 0;
  *out = x;
  return p + 1;
}
static const char * jval (const char * p, jnode ** out, int depth)
{
  p = ws (p);
  if (nstr > 60000 || npool > 250) return NULL;
  if (*p == '"') return jstr (p, out);
  if (*p == '{' || *p == '[')
  {
    char close = *p == '{' ? '}' : ']';
    jnode * x = jnew (*p == '{' ? 'o' : 'a');
    p = ws (p + 1);
    *out = x;
    if (*p == close) return p + 1;
    for (;;)
    {
      if (x->nc >= 40) return NULL;
      if (close == '}') { p = ws (p); if (!(p = jstr (p, &x->key[x->nc]))) return NULL; p = ws (p); if (*p++ != ':') return NULL; for (int i = 0; i < x->nc; i++) if (!strcmp (x->key[i]->s, x->key[x->nc]->s)) x->n = 1; }
      if (!(p = jval (p, &x->c[x->nc], depth + 1))) return NULL;
      x->nc++;
      p = ws (p);
      if (*p == close) return p + 1;
      if (*p++ != ',') return NULL;
    }
  }
  if (!strncmp (p, "true", 4)) { *out = jnew ('t'); return p + 4; }
  if (!strncmp (p, "false", 5)) { *out = jnew ('f'); return p + 5; }
  if (!strncmp (p, "null", 4)) { *out = jnew ('0'); return p + 4; }
  const char * b = p;
  if (*p == '-') p++;
  if (*p == '0') p++; else if (*p >= '1' && *p <= '9') while (*p >= '0' && *p <= '9') p++; else return NULL;
  bool fl = false;
  if (*p == '.') { fl = true; p++; if (!(*p >= '0' && *p <= '9')) return NULL; while (*p >= '0' && *p <= '9') p++; }
  if (*p == 'e' || *p == 'E') { fl = true; p++; if (*p == '+' || *p == '-') p++; if (!(*p >= '0' && *p <= '9')) return NULL; while (*p >= '0' && *p <= '9') p++; }
  jnode * x = jnew (fl ? 'd' : 'n');
  x->s = strs + nstr; x->n = (size_t) (p - b);
  memcpy (x->s, b, x->n); x->s[x->n] = 0; nstr += x->n + 1;
  if (!fl) { __int128 v = 0; for (const char * q = b + (*b == '-'); q < p && v < ((__int128) 1 << 70); q++) v = v * 10 + (*q - '0'); if (*b == '-' ? v > -(__int128) INT64_MIN : v > UINT64_MAX) odd = true; }
  *out = x;
  return p;
}
static jnode * jparse (const char * t)
{
  jnode * r = NULL;
  npool = 0; nstr = 0; odd = false;
  const char * p = jval (t, &r, 0);
  return p && !*ws (p) ? r : NULL;
}
/* what reading the document must give, in the canonical text; map entries sorted by key, the last one winning */
static void jcanon (sb * b, const jnode * x)
{
  switch (x->k)
  {
    case 's': sb_add (b, "s:%zu'%s'", x->n, x->s); break;
    case 't': case 'f': sb_add (b, "b:%d", x->k == 't'); break;
    case '0': sb_add (b, "null"); break;
    case 'd': sb_add (b, "f64:%a", strtod (x->s, NULL)); break;
    case 'n': { __int128 v = 0; for (const char * q = x->s + (*x->s == '-'); *q; q++) v = v * 10 + (*q - '0'); if (*x->s == '-') v = -v; if (v <= INT64_MAX) sb_add (b, "i64:%" PRId64, (int64_t) v); else sb_add (b, "u64:%" PRIu64, (uint64_t) v); break; }
    case 'a': sb_add (b, "V("); for (int i = 0; i < x->nc; i++) { if (i) sb_add (b, ","); jcanon (b, x->c[i]); } sb_add (b, ")"); break;
    default:
    {
      sb_add (b, "M{");
      const char * last = NULL;
      for (bool first = true;; first = false)
      {
        int m = -1;
        for (int i = 0; i < x->nc; i++) if ((!last || strcmp (x->key[i]->s, last) > 0) && (m < 0 || strcmp (x->key[i]->s, x->key[m]->s) <= 0)) m = i;
        if (m < 0) break;
        last = x->key[m]->s;
        sb_add (b, "%ss:%zu'%s'=", first ? "" : ",", strlen (last), last);
        jcanon (b, x->c[m]);
      }
      sb_add (b, "}");
    }
  }
}
/* compact rewriting of the document structure, numbers and strings by value, keys in document order */
static bool has_dup (const jnode * x) { if (x->k == 'o' && x->n) return true; for (int i = 0; i < x->nc; i++) if (has_dup (x->c[i])) return true; return false; }
static void jorder (sb * b, const jnode * x)
{
  if (x->k == 'a') { sb_add (b, "["); for (int i = 0; i < x->nc; i++) { if (i) sb_add (b, ","); jorder (b, x->c[i]); } sb_add (b, "]"); }
  else if (x->k == 'o') { sb_add (b, "{"); for (int i = 0; i < x->nc; i++) { if (i) sb_add (b, ","); sb_add (b, "'%s':", x->key[i]->s); jorder (b, x->c[i]); } sb_add (b, "}"); }
  else jcanon (b, x);
}

/* ---------------------------------------------------------------- E01 */
static iot_data_t * from_exact (const char * t, int mode, iot_data_t * cache)
{
  size_t n = strlen (t) + 1;
  char * c = malloc (n); memcpy (c, t, n);
  iot_data_t * d = mode == 0 ? iot_data_from_json (c) : mode == 3 ? iot_data_from_json_with_cache (c, true, cache) : mode == 2 ? iot_data_from_json_with_cache (c, false, cache) : iot_data_from_json_with_ordering (c, true);
  MC_CHECK (!memcmp (c, t, n), "input", "reading changed the input");
  free (c);
  return d;
}
static void b64ref (char * o, const uint8_t * p, size_t n)
{
  static const char * al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (size_t i = 0; i < n; i += 3)
  {
    unsigned v = (unsigned) p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
    *o++ = al[v >> 18]; *o++ = al[(v >> 12) & 63]; *o++ = i + 1 < n ? al[(v >> 6) & 63] : '='; *o++ = i + 2 < n ? al[v & 63] : '=';
  }
  *o = 0;
}
static bool num_matches (const jnode * x, int t, const void * p)
{
  if (t == IOT_DATA_BOOL) return x->k == (*(const bool *) p ? 't' : 'f');
  if (is_flt (t))
  {
    if (x->k != 'd' && x->k != 'n') return false;
    double v = strtod (x->s, NULL);
    return t == IOT_DATA_FLOAT64 ? v == *(const double *) p : strtof (x->s, NULL) == *(const float *) p && (float) v == *(const float *) p;
  }
  if (x->k != 'n') return false;
  __int128 v = 0, w;
  for (const char * q = x->s + (*x->s == '-'); *q; q++) v = v * 10 + (*q - '0');
  if (*x->s == '-') v = -v;
  switch (t)
  {
    case IOT_DATA_INT8: w = *(const int8_t *) p; break; case IOT_DATA_UINT8: w = *(const uint8_t *) p; break; case IOT_DATA_INT16: w = *(const int16_t *) p; break; case IOT_DATA_UINT16: w = *(const uint16_t *) p; break;
    case IOT_DATA_INT32: w = *(const int32_t *) p; break; case IOT_DATA_UINT32: w = *(const uint32_t *) p; break; case IOT_DATA_INT64: w = *(const int64_t *) p; break; default: w = *(const uint64_t *) p; break;
  }
  return v == w;
}
static void match (const iot_data_t * d, const jnode * x, const char * text)
{
  int t = (int) iot_data_type (d);
  bool ok = false;
  char tmp[256];
  if (!d || t == IOT_DATA_NULL) ok = x->k == '0';
  else if (t == IOT_DATA_STRING) ok = x->k == 's' && x->n == strlen (iot_data_string (d)) && !memcmp (x->s, iot_data_string (d), x->n);
  else if (t == IOT_DATA_BINARY) { b64ref (tmp, iot_data_address (d), iot_data_array_length (d)); ok = x->k == 's' && !strcmp (x->s, tmp); }
  else if (t == IOT_DATA_ARRAY)
  {
    uint32_t n = iot_data_array_length (d), sz = n ? iot_data_array_size (d) / n : 0;
    ok = x->k == 'a' && (uint32_t) x->nc == n;
    for (uint32_t i = 0; ok && i < n; i++) ok = num_matches (x->c[i], iot_data_array_type (d), (const char *) iot_data_address (d) + i * sz);
  }
  else if (t == IOT_DATA_VECTOR)
  {
    ok = x->k == 'a' && (uint32_t) x->nc == iot_data_vector_size (d);
    for (int i = 0; ok && i < x->nc; i++) match (iot_data_vector_get (d, (uint32_t) i), x->c[i], text);
  }
  else if (t == IOT_DATA_LIST)
  {
    ok = x->k == 'a' && (uint32_t) x->nc == iot_data_list_length (d);
    iot_data_list_iter_t it; iot_data_list_iter (d, &it);
    for (int i = 0; ok && i < x->nc; i++) { iot_data_list_iter_next (&it); match (iot_data_list_iter_value (&it), x->c[i], text); }
  }
  else if (t == IOT_DATA_MAP)
  {
    ok = x->k == 'o' && (uint32_t) x->nc == iot_data_map_size (d);
    iot_data_map_iter_t it; iot_data_map_iter (d, &it);
    for (int i = 0; ok && i < x->nc; i++)
    {
      iot_data_map_iter_next (&it);
      const iot_data_t * k = iot_data_map_iter_key (&it);
      int kt = (int) iot_data_type (k);
      if (kt == IOT_DATA_STRING) { if (strcmp (x->key[i]->s, iot_data_string (k))) mc_fail ("key", "key %d of %s is not '%s'", i, text, iot_data_string (k)); }
      else if (kt < IOT_DATA_BOOL && !is_flt (kt)) { jnode kn = { .k = 'n', .s = x->key[i]->s, .n = x->key[i]->n }; if (!num_matches (&kn, kt, iot_data_address (k))) mc_fail ("key", "numeric key %d of %s", i, text); }
      match (iot_data_map_iter_value (&it), x->c[i], text);
    }
  }
  else ok = num_matches (x, t, iot_data_address (d));
  if (!ok) mc_fail ("value", "%s does not denote the value that was written (at a %s)", text, dd_tn[t]);
}
static void write_all (iot_data_t * d)
{
  static sb a, b;
  char * t = iot_data_to_json (d);
  jnode * x = jparse (t);
  if (!x) mc_fail ("invalid", "invalid JSON was written: %s", t);
  match (d, x, t);
  size_t n = strlen (t);
  int lim = (int) mc_param ("sizes", 80);
  for (size_t s = 1; s <= n + 2; s++)
  {
    if (n > (size_t) lim && s > (size_t) lim / 2 && s + (size_t) lim / 2 < n) continue;
    char * u = iot_data_to_json_with_size (d, (uint32_t) s);
    MC_CHECK (!strcmp (u, t), "size", "with initial size %zu the text is %s instead of %s", s, u, t);
    free (u);
    u = malloc (s); memset (u, 'x', s);
    u = iot_data_to_json_with_buffer (d, u, (uint32_t) s);
    MC_CHECK (!strcmp (u, t), "size", "with a buffer of size %zu the text is %s instead of %s", s, u, t);
    free (u);
  }
  /* reading it back, in each mode */
  sb_reset (&a); jcanon (&a, x);
  iot_data_t * cache = iot_data_alloc_map (IOT_DATA_STRING);
  for (int m = 0; m < 4; m++)
  {
    iot_data_t * r = from_exact (t, m, cache);
    MC_CHECK (!strcmp (dd_str (&b, r, 0), a.s), "read-back", "%s reads back as %s in mode %d, expected %s", t, b.s, m, a.s);
    char * u = iot_data_to_json (r);
    jnode * y = jparse (u);
    if (!y) mc_fail ("invalid", "invalid JSON was written for a value that was read: %s", u);
    static sb c; sb_reset (&c); jcanon (&c, y);
    MC_CHECK (!strcmp (c.s, a.s), "read-back", "%s became %s after a round trip", t, u);
    free (u);
    iot_data_free (r);
  }
  iot_data_free (cache);
  mc_state (mc_mix_str (1, t)); mc_trans (n);
  free (t);
}
static void s_wscalar (void)
{
  static num v[400];
  dd_begin ();
  int t = num_types[mc_choose (NNT)], n = num_values (t, v), i = mc_choose (n), form = mc_choose (4);
  if (is_flt (t) && isnan (v[i].f)) mc_prune ();
  iot_data_t * d;
  if (form == 3)
  {
    union { char c[32]; double a; } raw;
    int j = (i + 7) % n;
    if (is_flt (t) && isnan (v[j].f)) j = 0;
    uint32_t sz = num_raw (&v[i], raw.c); num_raw (&v[j], raw.c + sz); num_raw (&v[i], raw.c + 2 * sz);
    d = iot_data_alloc_array (raw.c, (uint32_t) (i % 4 == 3 ? 0 : i % 4 + 1 > 3 ? 3 : i % 4 + 1), t, IOT_DATA_COPY);
  }
  else
  {
    d = num_alloc (&v[i]);
    if (form == 1) { iot_data_t * l = iot_data_alloc_list (); iot_data_list_head_push (l, d); iot_data_list_head_push (l, iot_data_alloc_null ()); d = l; }
    if (form == 2) { iot_data_t * m = iot_data_alloc_map (is_flt (t) || t == IOT_DATA_BOOL ? IOT_DATA_STRING : t); iot_data_map_add (m, is_flt (t) || t == IOT_DATA_BOOL ? iot_data_alloc_string ("k", IOT_DATA_REF) : iot_data_add_ref (d), d); d = m; }
  }
  mc_log ("%s value %d in form %d\n", dd_tn[t], i, form);
  write_all (d);
  iot_data_free (d);
  dd_leaks ("writing JSON");
}
/* strings: every byte, every pair of interesting bytes, at every distance from the end of the buffer */
static void s_wstring (void)
{
  dd_begin ();
  static const unsigned char sp[] = { 1, 7, 8, 9, 10, 11, 12, 13, 14, 31, ' ', '"', '/', '\\', 'a', 'u', 127, 0xc3, 0xa9, 0xff };
  char s[64]; int n = 0;
  int kind = mc_choose (3);
  if (kind == 0) { s[n++] = (char) (1 + mc_choose (255)); }
  else { int l = 1 + mc_choose ((int) mc_param ("len", 2)); for (int i = 0; i < l; i++) s[n++] = (char) sp[mc_choose (sizeof (sp))]; }
  if (kind == 2) { int pad = mc_choose (12); memmove (s + pad, s, (size_t) n); memset (s, 'x', (size_t) pad); n += pad; }
  s[n] = 0;
  int form = mc_choose (3);
  iot_data_t * d = iot_data_alloc_string (s, IOT_DATA_COPY);
  if (form == 1) { iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (m, d, iot_data_add_ref (d)); d = m; }
  if (form == 2) { iot_data_t * v = iot_data_alloc_vector (3); iot_data_vector_add (v, 0, d); iot_data_vector_add (v, 1, iot_data_add_ref (d)); d = v; }
  mc_log ("string of %d bytes, first %02x, last %02x, form %d\n", n, (unsigned char) s[0], (unsigned char) s[n - 1], form);
  write_all (d);
  iot_data_free (d);
  dd_leaks ("writing JSON");
}
static const char * const wleaf[] = { "i8:-5", "s:1'a'", "s:0''", "b:1", "null", "B<u8>2[fbff]", "B<u8>0[]", "A<u8>2[0500]", "A<i16>0[]", "f64:0x1.999999999999ap-4", "V<multi>()", "L<multi>()", "M<str,multi>{}", "V<multi>(_,i8:1)", "L<multi>(s:1'\"',i8:1)", "M<str,multi>{s:1'\\'=i8:1,s:2'\nb'=V<multi>(null)}", "M<i8,multi>{i8:-3=i8:1,i8:4=b:0}", "B<u8>16[000102030405060708090a0b0c0d0e0f]" };
#define NWL 18
static void s_wtree (void)
{
  dd_begin ();
  static sb a;
  int kind = mc_choose (4), n = mc_choose ((int) mc_param ("width", 3) + 1), nest = mc_choose (3);
  sb_reset (&a);
  static const char * const op[] = { "V<multi>(", "L<multi>(", "M<str,multi>{", "M<u16,multi>{" };
  for (int i = 0; i < nest; i++) sb_add (&a, i == 0 ? "V<multi>(i8:1," : "M<str,multi>{s:1'k'=");
  sb_add (&a, "%s", op[kind]);
  for (int i = 0; i < n; i++) { if (i) sb_add (&a, ","); if (kind == 2) sb_add (&a, "s:1'%c'=", 'a' + i); if (kind == 3) sb_add (&a, "u16:%d=", i * 300); sb_add (&a, "%s", wleaf[mc_choose (NWL)]); }
  sb_add (&a, kind < 2 ? ")" : "}");
  for (int i = nest - 1; i >= 0; i--) sb_add (&a, i == 0 ? ")" : "}");
  iot_data_t * d = dd_make (a.s);
  mc_log ("%s\n", a.s);
  write_all (d);
  iot_data_free (d);
  dd_leaks ("writing JSON");
}
/* long output: growth past the doubling limit */
static void s_wlong (void)
{
  dd_begin ();
  int len[] = { 480, 505, 510, 511, 512, 513, 1023, 1024, 1025, 4090, 4095, 4096, 4097, 5000 }, n = len[mc_choose (14)], kind = mc_choose (4);
  mc_log ("string of %d, kind %d\n", n, kind);
  char * s = malloc ((size_t) n + 1);
  for (int i = 0; i < n; i++) s[i] = kind == 1 ? 1 : kind == 2 ? (i % 3 ? 'a' : '"') : 'a' + i % 26;
  s[n] = 0;
  iot_data_t * v = iot_data_alloc_vector (3);
  if (kind == 3) iot_data_vector_add (v, 0, iot_data_alloc_binary (s, (uint32_t) n, IOT_DATA_COPY)); else iot_data_vector_add (v, 0, iot_data_alloc_string (s, IOT_DATA_COPY));
  iot_data_vector_add (v, 1, iot_data_alloc_i8 (1));
  iot_data_vector_add (v, 2, iot_data_alloc_string (s, IOT_DATA_COPY));
  for (int sz = 0; sz < 12; sz++)
  {
    static const uint32_t szs[] = { 1, 2, 100, 511, 512, 513, 1000, 2000, 4096, 8192, 10000, 30000 };
    char * t = iot_data_to_json_with_size (v, szs[sz]);
    MC_CHECK (t[0] == '[' && t[1] == '"', "value", "text of a long value");
    jnode * x = jparse (t);
    if (!x) mc_fail ("invalid", "invalid JSON of length %zu written for long strings", strlen (t));
    if (kind < 3) MC_CHECK (x->c[0]->n == (size_t) n && !memcmp (x->c[0]->s, s, (size_t) n), "value", "long string is not what was written");
    else { char * e = malloc ((size_t) n * 2); b64ref (e, (uint8_t *) s, (size_t) n); MC_CHECK (!strcmp (x->c[0]->s, e), "value", "long binary is not what was written"); free (e); }
    MC_CHECK (x->nc == 3 && x->c[2]->n == (size_t) n && !memcmp (x->c[2]->s, s, (size_t) n), "value", "long string is not what was written");
    free (t);
  }
  free (s);
  iot_data_free (v);
  mc_state (mc_mix ((uint64_t) n, (uint64_t) kind)); mc_trans (12);
  dd_leaks ("writing long JSON");
}

/* ---------------------------------------------------------------- E02 */
static bool well_formed (const iot_data_t * d)
{
  static sb b;
  return d && dd_str (&b, d, DD_TC) && b.n > 0;
}
static void read_doc (const char * t)
{
  static sb a, b, c;
  int depth = 0;
  jnode * x = jparse (t);
  bool exact = x && !odd, dup = x && has_dup (x);
  if (x) { sb_reset (&a); jcanon (&a, x); }
  if (x) { sb_reset (&c); jorder (&c, x); }
  iot_data_t * cache = iot_data_alloc_map (IOT_DATA_STRING);
  for (int m = 0; m < 4; m++)
  {
    iot_data_t * r = from_exact (t, m, cache);
    MC_CHECK (well_formed (r), "malformed", "reading %s gives nothing usable", t);
    if (exact) MC_CHECK (!strcmp (dd_str (&b, r, 0), a.s), "value", "reading %s (mode %d) gives %s, expected %s", t, m, b.s, a.s);
    if (exact && !dup && (m == 1 || m == 3))
    {
      char * u = iot_data_to_json (r);
      jnode * y = jparse (u);
      static sb e; sb_reset (&e);
      if (y) jorder (&e, y);
      jparse (t);
      MC_CHECK (!strcmp (e.s, c.s), "order", "ordered reading and writing of %s gives %s", t, u);
      free (u);
    }
    iot_data_free (r);
  }
  iot_data_free (cache);
  /* the tokeniser with every number of tokens, each array exactly that large */
  size_t n = strlen (t);
  char * ex = malloc (n ? n : 1); memcpy (ex, t, n);
  iot_json_parser p;
  iot_json_init (&p);
  int need = iot_json_parse (&p, ex, n, NULL, 0);
  int full = -9;
  if (need > 0 && need < 40)
    for (int k = need; k >= 0; k--)
    {
      iot_json_tok_t * tk = calloc ((size_t) k + 1, sizeof (*tk)), guard;
      memset (&tk[k], 0x5a, sizeof (*tk)); guard = tk[k];
      iot_json_init (&p);
      int r = iot_json_parse (&p, ex, n, tk, (uint32_t) k);
      MC_CHECK (!memcmp (&guard, &tk[k], sizeof (guard)), "overrun", "parsing %s with %d tokens wrote beyond them", t, k);
      if (k == need) full = r;
      if (x && k == need) { MC_CHECK (r == need, "tokens", "parsing %s needs %d tokens, but says %d with that many", t, need, r); for (int i = 0; i < k; i++) MC_CHECK (tk[i].start >= 0 && tk[i].end >= tk[i].start && (size_t) tk[i].end <= n && tk[i].parent >= -1 && tk[i].parent < i, "tokens", "token %d of %s", i, t); }
      if (x && k < need) MC_CHECK (r == IOT_JSON_ERROR_NOMEM, "tokens", "parsing %s with %d tokens instead of %d returns %d", t, k, need, r);
      MC_CHECK (r <= k, "tokens", "parsing %s with %d tokens returns %d", t, k, r);
      free (tk);
    }
  free (ex);
  (void) full; (void) depth;
  mc_outcome (x ? 1 : 0);
  mc_state (mc_mix_str (2, t)); mc_trans (1);
}
static void s_rchars (void)
{
  dd_begin ();
  static const char al[] = "{}[]:,\"\\1-ae. u";
  char t[16];
  int max = (int) mc_param ("len", 4), n = 0;
  /* one case per prefix of two, the rest in loops */
  int a = mc_choose (16), b = mc_choose (16);
  if (a) t[n++] = al[a - 1];
  if (a && b) t[n++] = al[b - 1];
  if ((!a && b)) mc_prune ();
  t[n] = 0;
  mc_log ("documents beginning %s\n", t);
  if (n < 2) { read_doc (t); dd_leaks ("reading JSON"); return; }
  int idx[16] = { 0 };
  for (int l = 2; l <= max; l++)
  {
    memset (idx, 0, sizeof (idx));
    for (;;)
    {
      for (int i = 2; i < l; i++) t[i] = al[idx[i]];
      t[l] = 0;
      if (mc_replaying ()) {}
      read_doc (t);
      int i = l - 1;
      while (i >= 2 && ++idx[i] == 15) idx[i--] = 0;
      if (i < 2) break;
    }
  }
  dd_leaks ("reading JSON");
}
static const char * const tk[] = { "{", "}", "[", "]", ":", ",", "\"a\"", "\"b\"", "\"\"", "\"\\u00e9\\n\"", "1", "-1.5e3", "true", "null", "x", " ", "18446744073709551615", "\"\\u12\"", "\"a", "{\"a\":", "[1,", "\"k\":1" };
#define NTK 22
static void s_rtokens (void)
{
  dd_begin ();
  int len = (int) mc_param ("len", 4);
  int a = mc_choose (NTK), b = mc_choose (NTK);
  mc_log ("token sequences beginning %s %s\n", tk[a], tk[b]);
  int idx[8] = { a, b };
  for (int l = 1; l <= len; l++)
  {
    if (l == 1 && b) continue;
    for (int i = 2; i < 8; i++) idx[i] = 0;
    for (;;)
    {
      char t[256]; t[0] = 0;
      for (int i = 0; i < l; i++) strcat (t, tk[idx[i]]);
      read_doc (t);
      int i = l - 1;
      while (i >= 2 && ++idx[i] == NTK) idx[i--] = 0;
      if (i < 2) break;
    }
  }
  dd_leaks ("reading JSON");
}
/* valid documents by grammar: objects with keys in any order, nested, with white space */
static const char * const rleaf[] = { "1", "\"a\"", "null", "[]", "{}", "[1,2]", "{\"z\":1,\"a\":[true]}", "-9223372036854775808", "9223372036854775808", "1e2" , "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"", " false " };
static void s_rdocs (void)
{
  dd_begin ();
  static const char * const keys[] = { "\"a\"", "\"b\"", "\"\"", "\"\\u0041\"", "\"z\\n\"" };
  char t[512]; t[0] = 0;
  int obj = mc_choose (2), n = mc_choose ((int) mc_param ("width", 3) + 1), wsp = mc_choose (3), nest = mc_choose (3);
  const char * w = wsp == 0 ? "" : wsp == 1 ? " " : "\t\r\n";
  for (int i = 0; i < nest; i++) strcat (t, i ? "{\"n\":" : "[");
  strcat (t, obj ? "{" : "[");
  for (int i = 0; i < n; i++) { if (i) strcat (t, ","); strcat (t, w); if (obj) { strcat (t, keys[mc_choose (5)]); strcat (t, w); strcat (t, ":"); } strcat (t, w); strcat (t, rleaf[mc_choose (12)]); strcat (t, w); }
  strcat (t, obj ? "}" : "]");
  for (int i = nest - 1; i >= 0; i--) strcat (t, i ? "}" : "]");
  strcat (t, w);
  mc_log ("%s\n", t);
  MC_CHECK (jparse (t), "harness", "generated document is not valid");
  read_doc (t);
  dd_leaks ("reading JSON");
}
static void s_rescape (void)
{
  dd_begin ();
  char t[64];
  int hi = mc_choose (256), form = mc_choose (4);
  mc_log ("unicode escapes %02xxx, form %d\n", hi, form);
  static const char * const tail[] = { "%s\"\\u%04x\"", "%s\"a\\u%04X\\u00e9\"", "%s\"\\u%04xb\"", "%s\"\\u%04x\\udc00\"" };
  for (int lo = 0; lo < 256; lo++)
  {
    snprintf (t, sizeof (t), tail[form], "", hi * 256 + lo);
    read_doc (t);
    if (lo % 16 == 0) { snprintf (t, sizeof (t), "\"\\ud8%02x\\udc%02x\"", hi, lo); read_doc (t); snprintf (t, sizeof (t), "\"\\udb%02x\\udf%02x\"", hi, lo); read_doc (t); }
  }
  /* every byte after a backslash, in a string, as a document */
  if (form == 0) { snprintf (t, sizeof (t), "\"\\%c\"", hi); read_doc (t); snprintf (t, sizeof (t), "\"x%cy\"", hi); read_doc (t); snprintf (t, sizeof (t), "[%c]", hi); read_doc (t); snprintf (t, sizeof (t), "%c", hi); read_doc (t); snprintf (t, sizeof (t), "\"\\u00%c0\"", hi); read_doc (t); }
  dd_leaks ("reading JSON");
}
/* sequences of escapes: surrogates, halves of them, before, between and after anything else */
static void s_rseq (void)
{
  dd_begin ();
  static const char * const unit[] = { "\\ud83d", "\\ude00", "\\uDBFF", "\\uDFFF", "\\n", "\\\\", "\\\"", "x", "\xc3\xa9", "\\u00e9", "\\u20ac", "\\ud8", "\\u", "\\", "u", "d", "" };
  static const char * const frame[] = { "\"%s\"", "[\"a%s\",1]", "{\"%s\":2}" };
  char body[80] = "", t[120];
  int f = mc_choose (3), len = 1 + mc_choose ((int) mc_param ("len", 3));
  for (int i = 0; i < len; i++) strcat (body, unit[mc_choose (17)]);
  snprintf (t, sizeof (t), frame[f], body);
  mc_log ("%s\n", t);
  read_doc (t);
  mc_state (mc_mix_str (2, t));
  dd_leaks ("reading JSON");
}
/* ordering metadata decides which entries of a map appear, and in which order */
static void s_order (void)
{
  dd_begin ();
  static const char * const kn[] = { "b", "a", "ab", "" };
  int src = 1 + mc_choose (2), nk = 4, have[4], seq[4], ns = 0;
  iot_data_t * key[4], * m = NULL;
  for (int i = 0; i < nk; i++) key[i] = iot_data_alloc_string (kn[i], IOT_DATA_REF);
  bool used[4] = { false };
  for (;;) /* any sequence of distinct keys */
  {
    int c = mc_choose (nk + 1 - ns), k = 0;
    if (c == nk - ns) break;
    for (k = 0; used[k] || c-- > 0; k++) ;
    used[k] = true; seq[ns++] = k;
  }
  for (int i = 0; i < nk; i++) have[i] = -1;
  {
    char t[100] = "{";
    for (int i = 0; i < ns; i++) { sprintf (t + strlen (t), "%s\"%s\":%d", i ? "," : "", kn[seq[i]], seq[i]); have[seq[i]] = seq[i]; }
    strcat (t, "}");
    iot_data_t * cache = iot_data_alloc_map (IOT_DATA_STRING);
    m = from_exact (t, src == 1 ? 1 : 3, cache);
    if (mc_choose (2)) { iot_data_free (cache); cache = NULL; }
    for (int step = 0; step < (int) mc_param ("depth", 2); step++)
    {
      int op = mc_choose (2 * nk + 1), k = op % nk;
      if (op == 2 * nk) break;
      mc_log ("%s %s, ", op < nk ? "remove" : "set", kn[k]);
      if (op < nk) { iot_data_map_remove (m, key[k]); have[k] = -1; }
      else { iot_data_map_add (m, iot_data_add_ref (key[k]), iot_data_alloc_i8 ((int8_t) (50 + k))); have[k] = 50 + k; }
    }
    iot_data_free (cache);
  }
  /* alone, as a copy, compressed, nested, and as one of several */
  int form = mc_choose (5);
  if (form == 1) { iot_data_t * c = iot_data_copy (m); iot_data_free (m); m = c; }
  if (form == 2) iot_data_compress (m);
  if (form > 2) { iot_data_t * v = iot_data_alloc_vector (2); iot_data_vector_add (v, 0, m); iot_data_vector_add (v, 1, form == 3 ? iot_data_add_ref (m) : iot_data_alloc_i8 (1)); m = v; }
  for (uint32_t sz = 1; sz < 60; sz += 9)
  {
    char * t = iot_data_to_json_with_size (m, sz);
    jnode * x = jparse (t);
    if (sz == 1) mc_log ("%d keys in order, form %d: %s\n", ns, form, t);
    if (!x) mc_fail ("invalid", "invalid JSON was written: %s", t);
    for (int el = 0; el < (form == 3 ? 2 : 1); el++)
    {
      jnode * o = form > 2 ? (x->k == 'a' && x->nc == 2 ? x->c[el] : NULL) : x;
      MC_CHECK (o && o->k == 'o', "order", "no object written: %s", t);
      int at = 0;
      for (int i = 0; i < ns; i++)
      {
        char ks[20], vs[20];
        if (have[seq[i]] < 0) continue;
        strcpy (ks, kn[seq[i]]);
        sprintf (vs, "%d", have[seq[i]]);
        MC_CHECK (at < o->nc && !strcmp (o->key[at]->s, ks) && o->c[at]->k == 'n' && o->c[at]->n == strlen (vs) && !strncmp (o->c[at]->s, vs, o->c[at]->n), "order", "entry %d of %s should be \"%s\":%s by the ordering", at, t, ks, vs);
        at++;
      }
      MC_CHECK (at == o->nc, "order", "%s has %d entries, expected %d by the ordering", t, o->nc, at);
    }
    mc_state (mc_mix_str (3, t)); mc_trans (1);
    free (t);
  }
  iot_data_free (m);
  for (int i = 0; i < nk; i++) iot_data_free (key[i]);
  dd_leaks ("ordering");
}
static const mc_space spaces[] = {
  { "order", s_order, "every sequence of keys read with their order, then entries removed, added back, replaced and new ones added, and the map, copied, compressed, nested" },
  { "rseq", s_rseq, "every sequence of escapes, whole and broken surrogate pairs among them" },
  { "wscalar", s_wscalar, "boundary values of every numeric type, as scalars, elements, keys and arrays, all initial sizes" },
  { "wstring", s_wstring, "strings of every byte and of every pair of special bytes, all initial sizes" },
  { "wtree", s_wtree, "containers of every combination of leaves, nested" },
  { "wlong", s_wlong, "long strings and binaries around the buffer growth limits" },
  { "rchars", s_rchars, "every text over a 15 character alphabet" },
  { "rtokens", s_rtokens, "every token sequence" },
  { "rdocs", s_rdocs, "valid documents by grammar" },
  { "rescape", s_rescape, "every unicode escape, alone and combined" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
