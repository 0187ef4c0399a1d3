/* D06 laws of equality and comparison, D07 history independence, D08 copies, D09 compression */
#include "ddcast.h"

/* ---------------------------------------------------------------- alphabets */
#define NA 2000
static char * alpha[NA];
static int na;
static void a_add (const char * s) { for (int i = 0; i < na; i++) if (!strcmp (alpha[i], s)) return; if (na >= NA) abort (); alpha[na++] = strdup (s); }
static void a_addf (const char * f, ...) { char b[512]; va_list a; va_start (a, f); vsnprintf (b, sizeof (b), f, a); va_end (a); a_add (b); }
static void grammar (int lvl)
{
  static const char * lv[] = { "_", "i8:5", "i8:6", "s:1'a'" };
  for (int vl = 0; vl < 2; vl++)
  {
    a_addf ("%c<multi>()", vl ? 'L' : 'V');
    for (int i = vl; i < 4; i++)
    {
      a_addf ("%c<multi>(%s)", vl ? 'L' : 'V', lv[i]);
      for (int j = vl; j < 4; j++) a_addf ("%c<multi>(%s,%s)", vl ? 'L' : 'V', lv[i], lv[j]);
    }
  }
  a_add ("M<multi,multi>{}");
  for (int k = 1; k < 4; k++)
    for (int i = 1; i < 4; i++)
    {
      a_addf ("M<multi,multi>{%s=%s}", lv[k], lv[i]);
      for (int k2 = k + 1; k2 < 4; k2++) for (int j = 1; j < 4; j++) a_addf ("M<multi,multi>{%s=%s,%s=%s}", lv[k], lv[i], lv[k2], lv[j]);
    }
  if (lvl < 2) return;
  static const char * inner[] = { "V<multi>()", "L<multi>()", "M<multi,multi>{}", "V<multi>(i8:5,i8:5)", "V<multi>(i8:6,i8:6)", "V<multi>(i8:5,i8:6)", "V<multi>(i8:6,i8:5)", "L<multi>(i8:5,i8:6)", "M<multi,multi>{i8:5=i8:5}", "M<multi,multi>{i8:5=i8:6}", "M<multi,multi>{i8:6=i8:5}" };
  for (int i = 0; i < 11; i++)
  {
    a_addf ("V<multi>(%s)", inner[i]); a_addf ("L<multi>(%s)", inner[i]);
    a_addf ("M<multi,multi>{i8:5=%s}", inner[i]); a_addf ("M<multi,multi>{%s=i8:5}", inner[i]);
    for (int j = 3; j < 11; j++) { a_addf ("V<multi>(%s,%s)", inner[i], inner[j]); if (lvl > 2) a_addf ("L<multi>(%s,%s)", inner[i], inner[j]); if (lvl > 2) a_addf ("M<multi,multi>{i8:5=%s,i8:6=%s}", inner[i], inner[j]); }
    if (lvl > 3) for (int j = 0; j < 11; j++) for (int k = 5; k < 11; k += 2) { a_addf ("V<multi>(%s,%s,%s)", inner[i], inner[j], inner[k]); a_addf ("L<multi>(%s,i8:5,%s,%s)", inner[i], inner[j], inner[k]); }
  }
}
static void scalars (void)
{
  static const char * sc[] = { "_", "null", "b:0", "b:1", "p:0x0", "p:0x10", "p:0x20", "s:0''", "s:1'a'", "s:1'b'", "s:2'aa'", "s:2'ab'", "s:1'\x01'", "s:1'\xff'", "s:40'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'", "s:1'5'",
    "B<u8>0[]", "B<u8>1[05]", "B<u8>1[06]", "B<u8>2[0005]", "A<u8>0[]", "A<u8>1[05]", "A<u8>1[ff]", "A<u8>2[0500]", "A<i8>1[05]", "A<i8>1[ff]", "A<i8>2[0500]", "A<i8>0[]", "A<i16>1[0500]", "A<u16>1[0500]", "A<u64>1[0500000000000000]", "A<f32>1[0000803f]", "A<f64>0[]", "A<bool>1[01]",
    "V<i8>(i8:5)", "V<i8>(i8:5,i8:6)", "L<i8>(i8:5)", "M<i8,i8>{i8:5=i8:6}", "M<str,multi>{s:1'a'=i8:5}", "M<str,i8>{s:1'a'=i8:5}",
    "V<multi>(u8:5)", "V<multi>(i64:5)", "V<multi>(f32:0x1p+0)", "V<multi>(f64:0x1p+0)", "V<multi>(_,_)", "V<multi>(null)", "V<multi>(b:0)", "V<multi>(i8:-1)", "V<multi>(u8:255)", "V<multi>(u64:18446744073709551615)", "V<multi>(i64:-1)",
    "M<multi,multi>{i8:5=u8:5}", "M<multi,multi>{u8:5=i8:5}", "M<multi,multi>{null=i8:5}", "M<multi,multi>{b:0=i8:5}", "L<multi>(u8:5)", "L<multi>(b:1,b:1)", "L<multi>(b:0,b:0)", "L<multi>(s:1'a',s:1'b')", "L<multi>(s:1'b',s:1'a')",
    "M<multi,multi>{s:1'a'=s:1'a'}", "M<multi,multi>{s:1'b'=s:1'b'}", "M<multi,multi>{s:1'a'=s:1'b'}", "M<multi,multi>{s:1'b'=s:1'a'}", "f32:0x0p+0", "f32:-0x0p+0", "f64:0x0p+0", "f64:-0x0p+0" };
  for (unsigned i = 0; i < sizeof (sc) / sizeof (sc[0]); i++) a_add (sc[i]);
  for (int t = 0; t <= IOT_DATA_FLOAT64; t++) /* arrays that differ in a single byte, first to last element */
  {
    int sz = (int) iot_data_type_size (t);
    for (int pos = 0; pos <= 2 * sz; pos += sz > 2 ? sz / 2 : 1)
    {
      char b[80] = "";
      int at = pos == 2 * sz ? 2 * sz - 1 : pos;
      for (int i = 0; i < 2 * sz; i++) sprintf (b + 2 * i, "%02x", i == at ? 1 : 0);
      a_addf ("A<%s>2[%s]", dd_tn[t], b);
    }
  }
  for (int at = 0; at < 9; at += 4) { char b[40] = ""; for (int i = 0; i < 9; i++) sprintf (b + 2 * i, "%02x", i == at ? 1 : 0); a_addf ("B<u8>9[%s]", b); a_addf ("V<multi>(B<u8>9[%s])", b); }
  a_add ("s:40'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab'"); a_add ("s:41'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'");
  for (int t = 0; t < NNT - 1; t++) /* limits of each type, and the neighbours of zero */
  {
    int ty = num_types[t];
    if (is_flt (ty))
    {
      const char * tn = dd_tn[ty];
      double m = ty == IOT_DATA_FLOAT32 ? (double) FLT_MAX : DBL_MAX;
      double v[] = { 1, -1, 0.5, 5, 6, 16777216, m, -m, INFINITY, -INFINITY, FLT_MIN, 2147483648.0, 4294967296.0, -4294967296.0, 9223372036854775808.0, 18446744073709551616.0 };
      for (unsigned i = 0; i < sizeof (v) / sizeof (v[0]); i++) a_addf ("%s:%a", tn, v[i]);
      if (ty == IOT_DATA_FLOAT64) a_addf ("%s:%a", tn, 0.1); else a_addf ("%s:%a", tn, (double) 0.1f);
      continue;
    }
    __int128 v[] = { imin (ty), imin (ty) + 1, -1, 0, 1, 5, 6, imax (ty) - 1, imax (ty), imax (ty) / 2, imax (ty) / 2 + 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648u, 4294967295u, 4294967296, -2147483649, INT64_MAX };
    for (unsigned i = 0; i < sizeof (v) / sizeof (v[0]); i++)
    {
      if (v[i] < imin (ty) || v[i] > imax (ty)) continue;
      if (v[i] < 0) a_addf ("%s:%" PRId64, dd_tn[ty], (int64_t) v[i]); else a_addf ("%s:%" PRIu64, dd_tn[ty], (uint64_t) v[i]);
    }
  }
}
/* canonical text with the numeric type erased: n<integer> and r<float>; -0 is 0 */
static const char * erase (sb * out, const char * s, bool types)
{
  sb_reset (out);
  while (*s)
  {
    bool hit = false;
    if (s[0] == 's' && s[1] == ':') { char * e; long n = strtol (s + 2, &e, 10); int l = (int) (e + n + 2 - s); sb_add (out, "%.*s", l, s); s += l; continue; }
    if (s[0] == 'V' || s[0] == 'L' || s[0] == 'M') { sb_add (out, "%c", *s); s++; if (*s == '<') while (*s++ != '>') ; continue; }
    if (s[0] == 'A' || s[0] == 'B') { while (*s != ']') sb_add (out, "%c", *s++); continue; }
    for (int i = 0; i < 10 && !hit; i++)
    {
      size_t n = strlen (dd_tn[i]);
      if (strncmp (s, dd_tn[i], n) || s[n] != ':') continue;
      if (types) sb_add (out, i < 8 ? "n:" : "r:"); else sb_add (out, "%s:", dd_tn[i]);
      s += n + 1; hit = true;
      if (i >= 8 && !strncmp (s, "-0x0p+0", 7)) s++;
    }
    if (!hit) sb_add (out, "%c", *s++);
  }
  return out->s;
}
static iot_data_t * vals[NA], * vals2[NA], * vals3[NA];
/* the same value, but constant (in storage of the caller), or NULL if there is no such form */
static iot_data_t * constant (const iot_data_t * v)
{
  static iot_data_static_t st[NA]; static iot_data_list_static_t ls[NA]; static int n;
  if (!v || n >= NA) return NULL;
  iot_data_static_t * s = &st[n++];
  switch (iot_data_type (v))
  {
    case IOT_DATA_INT8: return iot_data_alloc_const_i8 (s, iot_data_i8 (v)); case IOT_DATA_UINT8: return iot_data_alloc_const_ui8 (s, iot_data_ui8 (v));
    case IOT_DATA_INT16: return iot_data_alloc_const_i16 (s, iot_data_i16 (v)); case IOT_DATA_UINT16: return iot_data_alloc_const_ui16 (s, iot_data_ui16 (v));
    case IOT_DATA_INT32: return iot_data_alloc_const_i32 (s, iot_data_i32 (v)); case IOT_DATA_UINT32: return iot_data_alloc_const_ui32 (s, iot_data_ui32 (v));
    case IOT_DATA_INT64: return iot_data_alloc_const_i64 (s, iot_data_i64 (v)); case IOT_DATA_UINT64: return iot_data_alloc_const_ui64 (s, iot_data_ui64 (v));
    case IOT_DATA_STRING: return iot_data_alloc_const_string (s, iot_data_string (v));
    case IOT_DATA_POINTER: return iot_data_alloc_const_pointer (s, iot_data_pointer (v));
    case IOT_DATA_LIST:
    {
      if (iot_data_list_type (v) != IOT_DATA_MULTI) return NULL;
      iot_data_t * c = iot_data_alloc_const_list (&ls[n - 1]);
      iot_data_list_iter_t it; iot_data_list_iter (v, &it);
      while (iot_data_list_iter_next (&it)) iot_data_list_head_push (c, iot_data_copy (iot_data_list_iter_value (&it)));
      return c;
    }
    default: return NULL;
  }
}
static signed char * cm, * cv;
static bool * ctx_ok;
static void build (void)
{
  if (na) return;
  static sb b;
  scalars (); grammar ((int) mc_param ("grammar", 2));
  cm = malloc ((size_t) na * na); cv = malloc ((size_t) na * na);
  for (int i = 0; i < na; i++) { vals[i] = dd_make (alpha[i]); vals2[i] = dd_make (alpha[i]); if (vals[i]) MC_CHECK (!strcmp (dd_str (&b, vals[i], DD_TC), alpha[i]), "dump", "value built from %s reads as %s", alpha[i], b.s); }
  for (int i = 0; i < na; i++) { vals3[i] = constant (vals[i]); if (vals3[i]) { dd_str (&b, vals3[i], DD_TC); MC_CHECK (!strcmp (b.s, alpha[i]), "dump", "constant built from %s reads as %s", alpha[i], b.s); } }
  for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) { cm[i * na + j] = (signed char) sgn (iot_data_compare (vals[i], vals2[j])); cv[i * na + j] = (signed char) sgn (iot_data_compare_value (vals[i], vals2[j])); }
}
/* numeric value of a scalar text, for the ordering reference */
static bool num_of (const char * s, bool * flt, __int128 * i, double * f)
{
  const char * p = s;
  int t = dd_ptype (&p);
  if (t < 0 || t > IOT_DATA_FLOAT64 || *p != ':') return false;
  *flt = is_flt (t);
  if (*flt) *f = strtod (p + 1, NULL); else if (p[1] == '-') *i = strtoll (p + 1, NULL, 10); else *i = strtoull (p + 1, NULL, 10);
  return true;
}
static void s_pairs (void)
{
  static sb a, b;
  build ();
  int i = mc_choose (na);
  mc_log ("%s against all %d values\n", alpha[i], na);
  for (int j = 0; j < na; j++)
  {
    const iot_data_t * x = vals[i], * y = vals2[j];
    bool same = !strcmp (erase (&a, alpha[i], false), erase (&b, alpha[j], false));
    int c = cm[i * na + j];
    bool eq = iot_data_equal (x, y);
    MC_CHECK (eq == same, "equal", "equal (%s, %s) is %d", alpha[i], alpha[j], eq);
    MC_CHECK ((c == 0) == same, "compare-zero", "compare (%s, %s) is %d", alpha[i], alpha[j], c);
    MC_CHECK (iot_data_equal (y, x) == eq, "symmetry", "equal (%s, %s) depends on the order", alpha[i], alpha[j]);
    MC_CHECK (c == -cm[j * na + i], "antisymmetry", "compare (%s, %s) is %d, and %d the other way round", alpha[i], alpha[j], c, cm[j * na + i]);
    if (same) MC_CHECK (iot_data_hash (x) == iot_data_hash (y), "hash", "equal values %s and %s with different hashes", alpha[i], alpha[j]);
    if (i != j && (alpha[i][0] == '_' || alpha[j][0] == '_')) MC_CHECK (c == (alpha[i][0] == '_' ? -1 : 1), "null", "no data must come first");
    int v = cv[i * na + j];
    bool vsame = !strcmp (erase (&a, alpha[i], true), erase (&b, alpha[j], true));
    MC_CHECK (v == -cv[j * na + i], "antisymmetry", "compare_value (%s, %s) is %d, and %d the other way round", alpha[i], alpha[j], v, cv[j * na + i]);
    bool veq = iot_data_equal_value (x, y);
    MC_CHECK (veq == vsame, "equal-value", "equal_value (%s, %s) is %d", alpha[i], alpha[j], veq);
    MC_CHECK ((v == 0) == vsame, "compare-value-zero", "compare_value (%s, %s) is %d", alpha[i], alpha[j], v);
    bool f1, f2; __int128 n1 = 0, n2 = 0; double d1 = 0, d2 = 0;
    if (num_of (alpha[i], &f1, &n1, &d1) && num_of (alpha[j], &f2, &n2, &d2) && f1 == f2)
    {
      int w = f1 ? (d1 > d2) - (d1 < d2) : (n1 > n2) - (n1 < n2);
      MC_CHECK (v == w, "value-order", "compare_value (%s, %s) is %d, expected %d", alpha[i], alpha[j], v, w);
      if (!strncmp (alpha[i], alpha[j], strcspn (alpha[i], ":") + 1)) MC_CHECK (c == w, "order", "compare (%s, %s) is %d, expected %d", alpha[i], alpha[j], c, w);
    }
    if (alpha[i][0] == 's' && alpha[j][0] == 's') { int w = sgn (strcmp (iot_data_string (x), iot_data_string (y))); MC_CHECK (c == w && v == w, "string-order", "compare (%s, %s) is %d, expected %d", alpha[i], alpha[j], c, w); }
    if (alpha[i][0] == 'b' && alpha[j][0] == 'b') MC_CHECK (c == sgn (alpha[i][2] - alpha[j][2]), "bool-order", "compare (%s, %s) is %d", alpha[i], alpha[j], c);
    /* nor on one of them being a constant */
    if (vals3[j])
    {
      const iot_data_t * z = vals3[j];
      MC_CHECK (iot_data_equal (x, z) == same && iot_data_equal (z, x) == same, "equal", "equal (%s, %s) is wrong if one is a constant", alpha[i], alpha[j]);
      MC_CHECK (iot_data_equal_value (x, z) == vsame && sgn (iot_data_compare_value (x, z)) == v && sgn (iot_data_compare_value (z, x)) == -v, "equal-value", "comparison of values %s and %s is wrong if one is a constant", alpha[i], alpha[j]);
      MC_CHECK (sgn (iot_data_compare (x, z)) == c && sgn (iot_data_compare (z, x)) == -c, "antisymmetry", "compare (%s, %s) is wrong if one is a constant", alpha[i], alpha[j]);
      if (same) MC_CHECK (iot_data_hash (x) == iot_data_hash (z), "hash", "equal values %s and %s with different hashes (one is a constant)", alpha[i], alpha[j]);
      if (vals3[i]) MC_CHECK (iot_data_equal (vals3[i], z) == same && sgn (iot_data_compare (vals3[i], z)) == c, "equal", "equal (%s, %s) is wrong if both are constants", alpha[i], alpha[j]);
    }
    /* comparing must not depend on having been compared or hashed before */
    MC_CHECK (sgn (iot_data_compare (x, y)) == c && sgn (iot_data_compare_value (x, y)) == v, "stable", "a second comparison of %s and %s differs", alpha[i], alpha[j]);
  }
  mc_state (mc_mix (1, (uint64_t) i)); mc_trans ((uint64_t) na);
}
static void s_triples (void)
{
  build ();
  int i = mc_choose (na);
  mc_log ("%s with all pairs of %d values\n", alpha[i], na);
  for (int pass = 0; pass < 2; pass++)
  {
    const signed char * m = pass ? cv : cm;
    for (int j = 0; j < na; j++)
    {
      int c = m[i * na + j];
      if (c > 0) continue;
      for (int k = 0; k < na; k++)
      {
        int d = m[j * na + k];
        if (d > 0) continue;
        int e = m[i * na + k];
        if (e != (c < d ? c : d)) mc_fail ("transitivity", "%s: %s vs %s is %d, %s vs %s is %d, but %s vs %s is %d", pass ? "compare_value" : "compare", alpha[i], alpha[j], c, alpha[j], alpha[k], d, alpha[i], alpha[k], e);
      }
    }
  }
  mc_state (mc_mix (2, (uint64_t) i)); mc_trans ((uint64_t) na * (uint64_t) na * 2);
}

/* ---------------------------------------------------------------- mutations */
static bool is_first (const iot_data_t * d, const void * arg) { return true; }
#define NMUT 17
static const char * const mut_names[NMUT] = { "add/push i8 5", "add/push i8 6", "add/push u8 5", "add container", "clear/pop", "pop other end/remove a", "replace first", "replace last", "grow", "shrink", "compact", "empty", "iter remove", "increment", "decrement", "base64 or binary conversion", "merge" };
/* applies mutation op to node d, if it exists for its type; typed containers are left alone by foreign types */
static bool mutate (iot_data_t * d, int op)
{
  iot_data_type_t t = iot_data_type (d);
  iot_data_t * old = NULL;
  if (op == 13 || op == 14)
  {
    if (t > IOT_DATA_FLOAT64 || t == IOT_DATA_FLOAT32) { if (t > IOT_DATA_UINT64) return false; }
    op == 13 ? iot_data_increment (d) : iot_data_decrement (d);
    return true;
  }
  if (op == 15)
  {
    if (t == IOT_DATA_ARRAY) { if (iot_data_array_type (d) != IOT_DATA_UINT8) return false; iot_data_array_to_binary (d); return true; }
    if (t == IOT_DATA_BINARY) { iot_data_binary_to_array (d); return true; }
    if (t == IOT_DATA_MAP) { dd_keys (); if (iot_data_map_key_type (d) != IOT_DATA_MULTI && iot_data_map_key_type (d) != IOT_DATA_STRING) return false; return iot_data_map_base64_to_array (d, dd_key[0]); }
    return false;
  }
  if (t == IOT_DATA_BINARY && op == 4) { uint32_t n; free (iot_data_binary_take (d, &n)); return true; }
  if (t != IOT_DATA_VECTOR && t != IOT_DATA_LIST && t != IOT_DATA_MAP) return false;
  iot_data_type_t et = t == IOT_DATA_VECTOR ? iot_data_vector_type (d) : t == IOT_DATA_LIST ? iot_data_list_type (d) : iot_data_map_type (d);
  iot_data_type_t kt = t == IOT_DATA_MAP ? iot_data_map_key_type (d) : IOT_DATA_MULTI;
  iot_data_t * v = NULL;
  if (op < 4 || op == 6 || op == 7)
  {
    iot_data_type_t want = op == 2 ? IOT_DATA_UINT8 : op == 3 ? IOT_DATA_VECTOR : IOT_DATA_INT8;
    if (et != IOT_DATA_MULTI && et != want) return false;
    v = op == 3 ? dd_make ("V<multi>(i8:5,i8:5)") : op == 2 ? iot_data_alloc_ui8 (5) : iot_data_alloc_i8 (op == 0 ? 5 : 6);
  }
  if (t == IOT_DATA_VECTOR)
  {
    iot_data_vector_iter_t it;
    uint32_t n = iot_data_vector_size (d);
    if (n == 0 && op != 8 && op < 10) { iot_data_free (v); return false; }
    switch (op)
    {
      case 0: case 1: case 2: case 3: iot_data_vector_add (d, op == 1 ? n - 1 : 0, v); return true;
      case 4: iot_data_vector_add (d, 0, NULL); return true;
      case 5: iot_data_vector_add (d, n - 1, NULL); return true;
      case 6: iot_data_vector_iter (d, &it); iot_data_vector_iter_next (&it); old = iot_data_vector_iter_replace_value (&it, v); break;
      case 7: iot_data_vector_iter (d, &it); iot_data_vector_iter_prev (&it); old = iot_data_vector_iter_replace_value (&it, v); break;
      case 8: iot_data_vector_resize (d, n + 1); return true;
      case 9: iot_data_vector_resize (d, n - 1); return true;
      case 10: iot_data_vector_compact (d); return true;
      case 11: iot_data_vector_resize (d, 0); return true;
      default: return false;
    }
    iot_data_free (old);
    return true;
  }
  if (t == IOT_DATA_LIST)
  {
    iot_data_list_iter_t it;
    iot_data_list_iter (d, &it);
    switch (op)
    {
      case 0: case 2: iot_data_list_head_push (d, v); return true;
      case 1: case 3: iot_data_list_tail_push (d, v); return true;
      case 4: old = iot_data_list_head_pop (d); break;
      case 5: old = iot_data_list_tail_pop (d); break;
      case 6: case 7: if (!(op == 6 ? iot_data_list_iter_next (&it) : iot_data_list_iter_prev (&it))) { iot_data_free (v); return false; } old = iot_data_list_iter_replace (&it, v); break;
      case 10: return iot_data_list_remove (d, is_first, NULL);
      case 11: iot_data_list_empty (d); return true;
      case 12: return iot_data_list_iter_prev (&it) && iot_data_list_iter_remove (&it);
      default: return false;
    }
    bool did = old != NULL;
    iot_data_free (old);
    return did;
  }
  iot_data_map_iter_t it;
  iot_data_map_iter (d, &it);
  iot_data_t * k1 = kt == IOT_DATA_STRING ? iot_data_alloc_string (op == 1 ? "b" : "a", IOT_DATA_REF) : kt == IOT_DATA_MULTI || kt == IOT_DATA_INT8 ? iot_data_alloc_i8 (op == 1 ? 6 : 5) : NULL;
  bool did = true;
  if (!k1) { iot_data_free (v); return false; }
  switch (op)
  {
    case 0: case 1: case 2: case 3: iot_data_map_add (d, k1, v); return true;
    case 4: case 12: did = iot_data_map_iter_next (&it) && iot_data_map_remove (d, iot_data_map_iter_key (&it)); break;
    case 5: did = iot_data_map_remove (d, k1); break;
    case 6: case 7: did = op == 6 ? iot_data_map_iter_next (&it) : iot_data_map_iter_prev (&it); if (did) { old = iot_data_map_iter_replace_value (&it, v); iot_data_free (old); } else iot_data_free (v); break;
    case 8: did = et == IOT_DATA_MULTI || et == IOT_DATA_UINT8; if (did) { iot_data_t * x = iot_data_alloc_ui8 (7); did = iot_data_map_add_unused (d, k1, x); if (did) return true; iot_data_free (x); } break;
    case 11: iot_data_map_empty (d); break;
    case 16:
    {
      did = et == IOT_DATA_MULTI || et == IOT_DATA_INT8;
      if (!did) break;
      iot_data_t * m = iot_data_alloc_typed_map (kt, et);
      iot_data_map_add (m, iot_data_add_ref (k1), iot_data_alloc_i8 (9));
      iot_data_map_merge (d, m);
      iot_data_free (m);
      break;
    }
    default: did = false; break;
  }
  iot_data_free (k1);
  return did;
}
static bool is_shared_const (const iot_data_t * d) { return iot_data_is_static (d); }

/* ---------------------------------------------------------------- D07 */
static const char * const roots[] = {
  "V<multi>(i8:5,V<multi>(i8:5,i8:6))", "V<multi>(L<multi>(i8:5,i8:5),M<multi,multi>{i8:5=i8:6})", "L<multi>(i8:5,L<multi>(i8:6),V<multi>(_,i8:5))", "L<multi>(A<u8>2[0506],B<u8>1[05],i64:7)",
  "M<str,multi>{s:1'a'=V<multi>(i8:5),s:2'k1'=s:4'BQY='}", "M<multi,multi>{i8:5=M<multi,multi>{i8:5=i8:5},s:2'k1'=L<multi>(s:4'BQY=')}", "M<i8,i8>{i8:1=i8:5,i8:2=i8:5}", "V<i8>(i8:5,i8:6,_)" };
#define NROOT 8
static bool mixed_key_change (const iot_data_t * d) { return false; }
static void s_hist (void)
{
  dd_begin ();
  static sb a, b;
  static char prev[16][DDMAX];
  int r = mc_choose (NROOT), depth = (int) mc_param ("depth", 3), nprev = 0;
  iot_data_t * root = dd_make (roots[r]), * keep[16];
  mc_log ("%s\n", roots[r]);
  for (int step = 0; step < depth; step++)
  {
    bool observe = mc_choose (2);
    if (observe) { iot_data_hash (root); iot_data_t * o = dd_make (roots[r]); iot_data_equal (root, o); iot_data_compare (root, o); iot_data_free (o); }
    iot_data_t * nodes[24];
    int nn = dd_nodes (root, nodes, 0, 24);
    int op = mc_choose (NMUT + 1), nd = op == NMUT ? 0 : mc_choose (nn);
    bool fresh = mc_fresh () || mc_replaying ();
    strcpy (prev[nprev], dd_str (&a, root, DD_TC));
    keep[nprev] = dd_make (prev[nprev]); iot_data_hash (keep[nprev]); nprev++;
    if (op == NMUT) { mc_log ("%scompress\n", observe ? "(hash) " : ""); iot_data_compress (root); }
    else
    {
      if (is_shared_const (nodes[nd]) || iot_data_ref_count (nodes[nd]) > 1) { for (int i = 0; i < nprev; i++) iot_data_free (keep[i]); iot_data_free (root); mc_prune (); }
      mc_log ("%s%s of node %d: ", observe ? "(hash) " : "", mut_names[op], nd);
      bool did = mutate (nodes[nd], op);
      mc_log ("%s\n", dd_str (&a, root, DD_TC));
      if (!did) { for (int i = 0; i < nprev; i++) iot_data_free (keep[i]); iot_data_free (root); mc_prune (); }
    }
    if (fresh)
    {
      iot_data_t * re = dd_make (dd_str (&a, root, DD_TC));
      MC_CHECK (iot_data_equal (root, re) && iot_data_equal (re, root) && iot_data_compare (root, re) == 0 && iot_data_equal_value (root, re), "stale", "%s is not equal to a freshly built value of the same content", a.s);
      MC_CHECK (iot_data_hash (root) == iot_data_hash (re), "stale-hash", "%s hashes differently from a freshly built value of the same content", a.s);
      dd_str (&a, root, 0);
      for (int i = 0; i < nprev; i++)
      {
        bool same = !strcmp (dd_str (&b, keep[i], 0), a.s);
        MC_CHECK (iot_data_equal (root, keep[i]) == same && iot_data_equal (keep[i], root) == same && (iot_data_compare (root, keep[i]) == 0) == same, "equal", "equality of %s and %s is not %d", a.s, b.s, same);
      }
      iot_data_free (re);
      mc_state (dd_hash (&a)); mc_trans (1);
    }
  }
  for (int i = 0; i < nprev; i++) iot_data_free (keep[i]);
  iot_data_free (root);
  dd_leaks ("history");
}

/* every numeric value counted up and down, with its hash read or not at any point */
static bool num_add (num * n, int d)
{
  if (is_flt (n->type))
  {
    n->f = n->type == IOT_DATA_FLOAT32 ? (double) ((float) n->f + (float) d) : n->f + d;
    return true;
  }
  if (is_sgn (n->type) && (n->i + d < imin (n->type) || n->i + d > imax (n->type))) return false; /* overflow: no defined result */
  n->i += d;
  if (n->i < imin (n->type)) n->i = imax (n->type); else if (n->i > imax (n->type)) n->i = 0;
  return true;
}
static void num_unused (const num * n) { uint64_t x; (void) num_raw (n, &x); (void) ref_cast; (void) raw_same; }
static void s_counter (void)
{
  static num v[400];
  static sb a, b;
  dd_begin ();
  int t = num_types[mc_choose (NNT)], nv = num_values (t, v), len = (int) mc_param ("len", 3);
  num n = v[mc_choose (nv)];
  if (is_flt (t) && !isfinite (n.f)) mc_prune ();
  iot_data_t * d = num_alloc (&n), * was = num_alloc (&n), * box = iot_data_alloc_vector (1);
  iot_data_vector_add (box, 0, iot_data_add_ref (d));
  mc_log ("%s", dd_str (&a, d, DD_TC));
  for (int i = 0; i < len; i++)
  {
    if (mc_choose (2)) { iot_data_hash (d); iot_data_equal (d, was); mc_log (" (hash)"); }
    bool up = mc_choose (2);
    if (t != IOT_DATA_BOOL && !num_add (&n, up ? 1 : -1)) { iot_data_free (was); iot_data_free (d); iot_data_free (box); mc_prune (); }
    up ? iot_data_increment (d) : iot_data_decrement (d);
    mc_log (" %s %s", up ? "increment" : "decrement", dd_str (&a, d, DD_TC));
    iot_data_t * f = num_alloc (&n), * fbox = iot_data_alloc_vector (1);
    iot_data_vector_add (fbox, 0, iot_data_add_ref (f));
    dd_str (&b, f, DD_TC);
    MC_CHECK (!strcmp (a.s, b.s), "count", "value is %s, expected %s", a.s, b.s);
    MC_CHECK (iot_data_equal (d, f) && iot_data_equal (f, d) && iot_data_compare (d, f) == 0 && iot_data_equal_value (f, d), "stale", "%s is not equal to a freshly built %s", a.s, b.s);
    /* converting a float that no 32 bit integer represents to a hash has no defined result */
    if (!is_flt (t) || fabs (n.f) < 2147483647.0) MC_CHECK (iot_data_hash (d) == iot_data_hash (f), "stale-hash", "%s hashes differently from a freshly built one", a.s);
    MC_CHECK (iot_data_equal (box, fbox) && iot_data_compare (fbox, box) == 0, "stale", "a vector of %s is not equal to a freshly built one", a.s);
    dd_str (&b, was, DD_TC);
    bool same = !strcmp (a.s, b.s);
    if (!is_flt (t)) MC_CHECK (iot_data_equal (d, was) == same && iot_data_equal (was, d) == same, "equal", "equality of %s and %s is not %d", a.s, b.s, same);
    iot_data_free (f); iot_data_free (fbox);
    mc_state (mc_mix (dd_hash (&a), (uint64_t) t)); mc_trans (1);
  }
  mc_log ("\n");
  iot_data_free (was); iot_data_free (box); iot_data_free (d);
  /* what is no number stays as it is */
  static const char * const other[] = { "null", "b:1", "b:0", "p:0x10", "s:1'5'", "A<u8>1[05]", "B<u8>1[05]", "V<multi>(i8:5)", "L<multi>(i8:5)", "M<multi,multi>{i8:5=i8:5}" };
  for (unsigned i = 0; mc_fresh () && i < 10; i++)
  {
    iot_data_t * o = dd_make (other[i]);
    uint32_t h = iot_data_hash (o);
    iot_data_increment (o); iot_data_decrement (o); iot_data_decrement (o);
    MC_CHECK (!strcmp (dd_str (&a, o, DD_TC), other[i]) && iot_data_hash (o) == h, "count", "counting %s gives %s", other[i], a.s);
    iot_data_free (o);
  }
  num_unused (&n);
  dd_leaks ("counter");
}

/* ---------------------------------------------------------------- D07: every way to come to the same content */
#define NROUTE 22
static iot_data_static_t rt_store[2];
static char rt_ref[2][4096];
static iot_data_t * take_arr (const iot_data_t * d, int own, void * buf)
{
  uint32_t len = iot_data_array_length (d), sz = iot_data_array_size (d);
  void * p = buf;
  if (own == IOT_DATA_TAKE) p = malloc (sz ? sz : 1);
  if (sz) memcpy (p, iot_data_address (d), sz);
  return iot_data_type (d) == IOT_DATA_BINARY ? iot_data_alloc_binary (p, len, (iot_data_ownership_t) own) : iot_data_alloc_array (p, len, iot_data_array_type (d), (iot_data_ownership_t) own);
}
/* an equal value come to by route r, or NULL if there is no such way (d is used up) */
static iot_data_t * by_route (iot_data_t * d, int r, int slot)
{
  iot_data_type_t t = iot_data_type (d);
  iot_data_t * x = NULL;
  bool arr = t == IOT_DATA_ARRAY || t == IOT_DATA_BINARY;
  char txt[128];
  switch (r)
  {
    case 0: return d;
    case 1: x = iot_data_copy (d); break;
    case 2: x = iot_data_shallow_copy (d); break;
    case 3: iot_data_compress (d); return d;
    case 4: case 5: case 6:
    {
      static const int own[] = { IOT_DATA_REF, IOT_DATA_TAKE, IOT_DATA_COPY };
      if (t == IOT_DATA_STRING) { strcpy (rt_ref[slot], iot_data_string (d)); x = iot_data_alloc_string (r == 5 ? strdup (rt_ref[slot]) : rt_ref[slot], (iot_data_ownership_t) own[r - 4]); }
      if (arr) x = take_arr (d, own[r - 4], rt_ref[slot]);
      break;
    }
    case 7: /* constant */
      switch (t)
      {
        case IOT_DATA_INT8: x = iot_data_alloc_const_i8 (&rt_store[slot], iot_data_i8 (d)); break; case IOT_DATA_UINT8: x = iot_data_alloc_const_ui8 (&rt_store[slot], iot_data_ui8 (d)); break;
        case IOT_DATA_INT16: x = iot_data_alloc_const_i16 (&rt_store[slot], iot_data_i16 (d)); break; case IOT_DATA_UINT16: x = iot_data_alloc_const_ui16 (&rt_store[slot], iot_data_ui16 (d)); break;
        case IOT_DATA_INT32: x = iot_data_alloc_const_i32 (&rt_store[slot], iot_data_i32 (d)); break; case IOT_DATA_UINT32: x = iot_data_alloc_const_ui32 (&rt_store[slot], iot_data_ui32 (d)); break;
        case IOT_DATA_INT64: x = iot_data_alloc_const_i64 (&rt_store[slot], iot_data_i64 (d)); break; case IOT_DATA_UINT64: x = iot_data_alloc_const_ui64 (&rt_store[slot], iot_data_ui64 (d)); break;
        case IOT_DATA_STRING: strcpy (rt_ref[slot], iot_data_string (d)); x = iot_data_alloc_const_string (&rt_store[slot], rt_ref[slot]); break;
        case IOT_DATA_POINTER: x = iot_data_alloc_const_pointer (&rt_store[slot], iot_data_pointer (d)); break;
        default: break;
      }
      break;
    case 8: if (t == IOT_DATA_STRING) x = iot_data_alloc_string_fmt ("%s", iot_data_string (d)); break;
    case 9:
      if (t == IOT_DATA_STRING) { const char * s = iot_data_string (d); iot_data_t * b = iot_data_alloc_binary ((void *) s, (uint32_t) strlen (s), IOT_DATA_COPY); x = iot_data_string_from_binary (b); iot_data_free (b); }
      if (t == IOT_DATA_BINARY) { x = iot_data_alloc_array ((void *) iot_data_address (d), iot_data_array_length (d), IOT_DATA_UINT8, IOT_DATA_COPY); iot_data_hash (x); iot_data_array_to_binary (x); }
      if (t == IOT_DATA_ARRAY && iot_data_array_type (d) == IOT_DATA_UINT8) { x = iot_data_alloc_binary ((void *) iot_data_address (d), iot_data_array_length (d), IOT_DATA_COPY); iot_data_hash (x); iot_data_binary_to_array (x); }
      break;
    case 10: /* text of a value */
      switch (t)
      {
        case IOT_DATA_FLOAT32: sprintf (txt, "%.9g", (double) iot_data_f32 (d)); break; case IOT_DATA_FLOAT64: sprintf (txt, "%.17g", iot_data_f64 (d)); break;
        case IOT_DATA_BOOL: strcpy (txt, iot_data_bool (d) ? "true" : "false"); break;
        case IOT_DATA_UINT64: sprintf (txt, "%" PRIu64, iot_data_ui64 (d)); break;
        default: if (t < IOT_DATA_UINT64) { int64_t v = 0; iot_data_cast (d, IOT_DATA_INT64, &v); sprintf (txt, "%" PRId64, v); } break;
      }
      if (t <= IOT_DATA_BOOL) x = iot_data_alloc_from_string (t, txt); else if (t == IOT_DATA_STRING) x = iot_data_alloc_from_string (t, iot_data_string (d));
      break;
    case 11: case 12: case 13: /* converted from another type */
    {
      static const iot_data_type_t via[] = { IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT64 };
      if (t <= IOT_DATA_BOOL && t != via[r - 11])
      {
        iot_data_t * v = iot_data_transform (d, via[r - 11]);
        if (v) { x = iot_data_transform (v, t); iot_data_free (v); }
        static sb s1, s2;
        if (x && strcmp (dd_str (&s1, x, DD_TC), dd_str (&s2, d, DD_TC))) { iot_data_free (x); x = NULL; } /* not exactly representable on the way */
      }
      if (t == IOT_DATA_ARRAY && iot_data_array_type (d) != via[r - 11])
      {
        iot_data_t * v = iot_data_array_transform (d, via[r - 11]);
        x = iot_data_array_transform (v, iot_data_array_type (d)); iot_data_free (v);
        if (iot_data_array_size (x) != iot_data_array_size (d) || (iot_data_array_size (d) && memcmp (iot_data_address (x), iot_data_address (d), iot_data_array_size (d)))) { iot_data_free (x); x = NULL; }
      }
      break;
    }
    case 14: case 15: /* counted up and down */
      if (t < IOT_DATA_FLOAT32 && !iot_data_is_static (d))
      {
        int64_t v = 0; uint64_t u = 0;
        if (t == IOT_DATA_UINT64) u = iot_data_ui64 (d); else iot_data_cast (d, IOT_DATA_INT64, &v);
        if (t == IOT_DATA_UINT64 ? (r == 14 ? u == UINT64_MAX : u == 0) : (r == 14 ? v == (int64_t) imax ((int) t) : v == (int64_t) imin ((int) t))) break;
        r == 14 ? iot_data_increment (d) : iot_data_decrement (d); iot_data_hash (d);
        r == 14 ? iot_data_decrement (d) : iot_data_increment (d);
        return d;
      }
      break;
    case 16: /* through a vector */
      if (t == IOT_DATA_ARRAY)
      {
        uint32_t n = iot_data_array_length (d), i = 0;
        iot_data_type_t et = iot_data_array_type (d);
        iot_data_t * v = iot_data_alloc_vector (n);
        iot_data_array_iter_t it; iot_data_array_iter (d, &it);
        while (iot_data_array_iter_next (&it))
        {
          const void * p = iot_data_array_iter_value (&it);
          iot_data_t * e = NULL;
          switch (et)
          {
            case IOT_DATA_INT8: e = iot_data_alloc_i8 (*(const int8_t *) p); break; case IOT_DATA_UINT8: e = iot_data_alloc_ui8 (*(const uint8_t *) p); break;
            case IOT_DATA_INT16: { int16_t z; memcpy (&z, p, 2); e = iot_data_alloc_i16 (z); break; } case IOT_DATA_UINT16: { uint16_t z; memcpy (&z, p, 2); e = iot_data_alloc_ui16 (z); break; }
            case IOT_DATA_INT32: { int32_t z; memcpy (&z, p, 4); e = iot_data_alloc_i32 (z); break; } case IOT_DATA_UINT32: { uint32_t z; memcpy (&z, p, 4); e = iot_data_alloc_ui32 (z); break; }
            case IOT_DATA_INT64: { int64_t z; memcpy (&z, p, 8); e = iot_data_alloc_i64 (z); break; } case IOT_DATA_UINT64: { uint64_t z; memcpy (&z, p, 8); e = iot_data_alloc_ui64 (z); break; }
            case IOT_DATA_FLOAT32: { float z; memcpy (&z, p, 4); e = iot_data_alloc_f32 (z); break; } case IOT_DATA_FLOAT64: { double z; memcpy (&z, p, 8); e = iot_data_alloc_f64 (z); break; }
            default: e = iot_data_alloc_bool (*(const bool *) p); break;
          }
          iot_data_vector_add (v, i++, e);
        }
        x = iot_data_vector_to_array (v, et, false);
        iot_data_free (v);
      }
      break;
    case 17: /* base64 text */
      if (t == IOT_DATA_ARRAY && iot_data_array_type (d) == IOT_DATA_UINT8)
      {
        size_t n = iot_b64_encodesize (iot_data_array_length (d)); char * b = calloc (1, n + 1);
        iot_b64_encode (iot_data_address (d), iot_data_array_length (d), b, n); x = iot_data_alloc_array_from_base64 (b); free (b);
      }
      break;
    case 18: case 19: /* longer for a while, at either end */
      if (t == IOT_DATA_VECTOR)
      {
        uint32_t n = iot_data_vector_size (d);
        iot_data_vector_resize (d, n + 3); iot_data_hash (d);
        if (r == 19 && (iot_data_vector_type (d) == IOT_DATA_MULTI || iot_data_vector_type (d) == IOT_DATA_INT8)) { iot_data_vector_add (d, n + 1, iot_data_alloc_i8 (5)); iot_data_hash (d); }
        iot_data_vector_resize (d, n);
        return d;
      }
      if (t == IOT_DATA_LIST && (iot_data_list_type (d) == IOT_DATA_MULTI || iot_data_list_type (d) == IOT_DATA_INT8))
      {
        if (r == 18) iot_data_list_head_push (d, iot_data_alloc_i8 (9)); else iot_data_list_tail_push (d, iot_data_alloc_i8 (9));
        iot_data_hash (d);
        iot_data_free (r == 18 ? iot_data_list_head_pop (d) : iot_data_list_tail_pop (d));
        return d;
      }
      if (t == IOT_DATA_MAP && (iot_data_map_key_type (d) == IOT_DATA_MULTI || iot_data_map_key_type (d) == IOT_DATA_INT8) && (iot_data_map_type (d) == IOT_DATA_MULTI || iot_data_map_type (d) == IOT_DATA_INT8))
      {
        iot_data_t * k = iot_data_alloc_i8 (r == 18 ? -100 : 100);
        iot_data_map_add (d, iot_data_add_ref (k), iot_data_alloc_i8 (1)); iot_data_hash (d);
        iot_data_map_remove (d, k); iot_data_free (k);
        return d;
      }
      break;
    case 20: /* elements replaced by copies of themselves, or put in again in the other order */
      if (t == IOT_DATA_VECTOR) { iot_data_vector_iter_t it; iot_data_vector_iter (d, &it); while (iot_data_vector_iter_next (&it)) if (iot_data_vector_iter_value (&it)) iot_data_free (iot_data_vector_iter_replace_value (&it, iot_data_copy (iot_data_vector_iter_value (&it)))); return d; }
      if (t == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) iot_data_free (iot_data_list_iter_replace (&it, iot_data_copy (iot_data_list_iter_value (&it)))); return d; }
      if (t == IOT_DATA_MAP) { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) iot_data_free (iot_data_map_iter_replace_value (&it, iot_data_copy (iot_data_map_iter_value (&it)))); return d; }
      break;
    default:
      if (t == IOT_DATA_LIST) { x = iot_data_alloc_typed_list (iot_data_list_type (d)); iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_prev (&it)) iot_data_list_tail_push (x, iot_data_add_ref (iot_data_list_iter_value (&it))); }
      if (t == IOT_DATA_MAP) { x = iot_data_alloc_typed_map (iot_data_map_key_type (d), iot_data_map_type (d)); iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_prev (&it)) iot_data_map_add (x, iot_data_add_ref (iot_data_map_iter_key (&it)), iot_data_add_ref (iot_data_map_iter_value (&it))); }
      if (t == IOT_DATA_VECTOR) { uint32_t n = iot_data_vector_size (d); bool hole = false; for (uint32_t i = 0; i < n; i++) hole |= iot_data_vector_get (d, i) == NULL; if (!hole) { x = iot_data_alloc_typed_vector (2 * n, iot_data_vector_type (d)); for (uint32_t i = 0; i < n; i++) iot_data_vector_add (x, 2 * i + 1, iot_data_add_ref (iot_data_vector_get (d, i))); iot_data_hash (x); iot_data_vector_compact (x); } }
      break;
  }
  iot_data_free (d);
  return x;
}
static bool hash_defined (const iot_data_t * d) /* converting a float that no 32 bit integer represents to a hash has no defined result */
{
  iot_data_type_t t = iot_data_type (d);
  double f = t == IOT_DATA_FLOAT32 ? (double) iot_data_f32 (d) : t == IOT_DATA_FLOAT64 ? iot_data_f64 (d) : 0;
  return f > -1.0 && f < 4294967295.0;
}
static void s_routes (void)
{
  static sb a, b, c;
  static int init;
  if (!init) { init = 1; scalars (); grammar ((int) mc_param ("grammar", 2)); }
  dd_begin ();
  int ci = mc_choose (na), i = mc_choose (NROUTE), j = mc_choose (NROUTE);
  if (j <= i && !(i == j && i >= 4)) mc_prune ();
  iot_data_t * x = dd_make (alpha[ci]), * y = dd_make (alpha[ci]);
  if (x == NULL) mc_prune ();
  x = by_route (x, i, 0);
  if (x == NULL) { iot_data_free (y); mc_prune (); }
  y = by_route (y, j, 1);
  if (y == NULL) { iot_data_free (x); mc_prune (); }
  dd_str (&c, x, DD_TC); dd_str (&b, y, DD_TC);
  mc_log ("%s by way %d, %s by way %d\n", c.s, i, b.s, j);
  MC_CHECK (!strcmp (c.s, alpha[ci]) && !strcmp (b.s, alpha[ci]), "content", "%s came out as %s by way %d and %s by way %d", alpha[ci], c.s, i, b.s, j);
  MC_CHECK (iot_data_equal (x, y) && iot_data_equal (y, x) && iot_data_compare (x, y) == 0 && iot_data_compare (y, x) == 0 && iot_data_equal_value (x, y) && iot_data_compare_value (y, x) == 0, "equal", "%s made by way %d is not equal to the same made by way %d", alpha[ci], i, j);
  if (hash_defined (x)) MC_CHECK (iot_data_hash (x) == iot_data_hash (y), "hash", "%s made by way %d hashes to %08x, by way %d to %08x", alpha[ci], i, iot_data_hash (x), j, iot_data_hash (y));
  iot_typecode_t tx, ty; iot_data_typecode (x, &tx); iot_data_typecode (y, &ty);
  MC_CHECK (iot_typecode_equal (&tx, &ty) && iot_data_matches (x, &ty), "typecode", "typecodes of %s made by way %d and %d differ", alpha[ci], i, j);
  /* one is found by the other */
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_MULTI);
  iot_data_map_add (m, iot_data_add_ref (x), iot_data_alloc_i8 (1));
  MC_CHECK (iot_data_map_get (m, y) && !iot_data_map_add_unused (m, y, y) && iot_data_map_remove (m, y) && iot_data_map_size (m) == 0, "key", "%s as a key made by way %d is not found by one made by way %d", alpha[ci], i, j);
  iot_data_free (m);
  (void) a;
  iot_data_free (x); iot_data_free (y);
  mc_state (mc_mix ((uint64_t) ci, (uint64_t) (i * NROUTE + j))); mc_trans (1);
  dd_leaks ("routes");
}

/* ---------------------------------------------------------------- D08 */
static const char * const shapes[] = {
  "_x", "null", "b:1", "i8:-5", "u64:18446744073709551615", "i64:-1", "f32:0x1p+0", "f64:0x1.8p+0", "u16:7#1", "i32:7#2@0=s:1'm'", "p:0x10", "s:0''", "s:3'abc'", "s:40'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'@1=V<multi>(i8:1)",
  "A<u8>0[]", "A<i16>2[05000600]", "A<f64>1[000000000000f03f]@0=i8:1", "B<u8>3[050607]", "B<u8>0[]", "A<bool>1[01]",
  "V<multi>()", "V<i8>(i8:5,_,i8:6)", "V<str>(s:1'a',s:1'b')@0=s:1'm'#1", "V<multi>(V<i8>(i8:5),L<multi>(i8:5),_)", "V<multi>(A<u8>1[05],B<u8>1[06],b:1,null,p:0x10)",
  "L<multi>()", "L<i8>(i8:1,i8:2,i8:3)", "L<multi>(L<multi>(i8:5),M<i8,i8>{i8:1=i8:2},s:1'a')@2=M<multi,multi>{i8:1=i8:2}",
  "M<str,multi>{}", "M<str,i8>{s:1'a'=i8:5,s:1'b'=i8:6}", "M<i8,multi>{i8:1=V<multi>(i8:5,V<multi>(i8:6)),i8:2=M<str,multi>{s:1'a'=L<multi>(i8:1)@0=i8:9}}@0=s:1'm'@1=i8:4", "M<multi,multi>{i8:5=i8:6,s:1'a'=A<u8>2[0102],f64:0x1p+0=null}", "M<f32,multi>{f32:-0x1p+0=i8:1,f32:0x1p+1=i8:2}" };
#define NSHAPE (sizeof (shapes) / sizeof (shapes[0]))
static bool iota_container (const iot_data_t * d) { iot_data_type_t t = iot_data_type (d); return t == IOT_DATA_VECTOR || t == IOT_DATA_LIST || t == IOT_DATA_MAP; }
static const char * no_tags (char * out, const char * s) { char * o = out; while (*s) { if (*s == '#') { s += 2; continue; } *o++ = *s++; } *o = 0; return out; }
static void s_copy (void)
{
  static sb a, b, c0, s0;
  static char t1[DDMAX], t2[DDMAX];
  dd_begin ();
  int si = mc_choose (NSHAPE - 1) + 1;
  iot_data_t * src = dd_make (shapes[si]);
  dd_str (&s0, src, DD_TC | DD_META);
  iot_data_t * sn[32], * cn[32];
  int ns = dd_nodes (src, sn, 0, 32), held = mc_choose (2);
  if (held) for (int i = 0; i < ns; i++) iot_data_add_ref (sn[i]); /* every part has another owner while it is copied */
  iot_data_t * cp = iot_data_copy (src);
  if (held) for (int i = ns; i-- > 0;) iot_data_free (sn[i]);
  mc_log ("deep copy of %s%s\n", held ? "shared " : "", s0.s);
  dd_str (&c0, cp, DD_TC | DD_META);
  MC_CHECK (iot_data_equal (src, cp) && iot_data_equal (cp, src) && iot_data_compare (src, cp) == 0 && iot_data_hash (src) == iot_data_hash (cp), "equal", "copy %s of %s is not equal to it", c0.s, s0.s);
  MC_CHECK (!strcmp (no_tags (t1, s0.s), no_tags (t2, c0.s)), "copy", "copy of %s is %s", s0.s, c0.s);
  /* no shared mutable node */
  int nc = dd_nodes (cp, cn, 0, 32);
  for (int i = 0; i < ns; i++) for (int j = 0; j < nc; j++) if (sn[i] == cn[j] && !iot_data_is_static (sn[i]) && iot_data_type (sn[i]) != IOT_DATA_POINTER) mc_fail ("shared", "copy of %s shares a %s with it", s0.s, dd_tn[iot_data_type (sn[i])]);
  for (int i = 0; i < nc; i++) if (!iot_data_is_static (cn[i]) && iot_data_type (cn[i]) != IOT_DATA_POINTER) MC_CHECK (iot_data_ref_count (cn[i]) == 1, "refs", "part of a fresh copy has %u references", iot_data_ref_count (cn[i]));
  /* mutate one side (any node or its metadata), the other stays */
  int side = mc_choose (2), op = mc_choose (NMUT + 3);
  iot_data_t ** tn = side ? cn : sn;
  int node = mc_choose (side ? nc : ns);
  bool did = true;
  if (iot_data_is_static (tn[node]) || iot_data_type (tn[node]) == IOT_DATA_POINTER) did = false;
  else if (op < NMUT) did = mutate (tn[node], op);
  else if (op == NMUT) { iot_data_set_metadata (tn[node], iot_data_alloc_i8 (77), dd_key[0]); }
  else if (op == NMUT + 1) { iot_data_t * m = (iot_data_t *) iot_data_get_metadata (tn[node], dd_key[1]); did = m && mutate (m, 0); }
  else iot_data_set_tag (tn[node], IOT_DATA_TAG_USER2, !iot_data_get_tag (tn[node], IOT_DATA_TAG_USER2));
  if (!did) { iot_data_free (src); iot_data_free (cp); mc_prune (); }
  mc_log ("%s node %d of the %s\n", op < NMUT ? mut_names[op] : op < NMUT + 2 ? "metadata change in" : "tag change in", node, side ? "copy" : "source");
  MC_CHECK (!strcmp (dd_str (&b, side ? src : cp, DD_TC | DD_META), side ? s0.s : c0.s), "aliased", "changing the %s altered the %s: %s is now %s", side ? "copy" : "source", side ? "source" : "copy", side ? s0.s : c0.s, b.s);
  iot_data_t * f1 = mc_choose (2) ? src : cp, * f2 = f1 == src ? cp : src;
  dd_str (&a, f2, DD_TC | DD_META);
  iot_data_free (f1);
  MC_CHECK (!strcmp (dd_str (&b, f2, DD_TC | DD_META), a.s), "aliased", "freeing one side altered the other");
  iot_data_free (f2);
  mc_state (dd_hash (&a)); mc_trans (1);
  dd_leaks ("copy");
}
static void s_shallow (void)
{
  static sb a, b, s0, c0;
  dd_begin ();
  int si = mc_choose (NSHAPE - 1) + 1;
  iot_data_t * src = dd_make (shapes[si]);
  dd_str (&s0, src, DD_TC);
  uint32_t rc0 = iot_data_ref_count (src);
  iot_data_t * sn[32];
  int ns = dd_nodes (src, sn, 0, 32), held = mc_choose (2);
  if (held) for (int i = 0; i < ns; i++) iot_data_add_ref (sn[i]);
  iot_data_t * cp = iot_data_shallow_copy (src);
  if (held) for (int i = ns; i-- > 0;) iot_data_free (sn[i]);
  mc_log ("shallow copy of %s%s\n", held ? "shared " : "", s0.s);
  MC_CHECK (!strcmp (dd_str (&c0, cp, DD_TC), s0.s) && iot_data_equal (src, cp) && iot_data_hash (src) == iot_data_hash (cp), "copy", "shallow copy of %s is %s", s0.s, c0.s);
  if (!iota_container (src))
  {
    MC_CHECK (cp == src && (iot_data_is_static (src) || iot_data_ref_count (src) == rc0 + 1), "refs", "a simple value is shared");
    iot_data_free (cp);
    MC_CHECK (!strcmp (dd_str (&a, src, DD_TC), s0.s), "freed", "value changed");
    iot_data_free (src);
    mc_state (dd_hash (&s0)); mc_trans (1);
    dd_leaks ("shallow copy");
    return;
  }
  MC_CHECK (cp != src && iot_data_ref_count (cp) == 1 && iot_data_ref_count (src) == rc0, "own", "shallow copy must have its own top level");
  /* same elements, with one more reference each */
  iot_data_iter_t i1, i2;
  iot_data_iter (src, &i1); iot_data_iter (cp, &i2);
  while (iot_data_iter_next (&i1))
  {
    iot_data_iter_next (&i2);
    const iot_data_t * e = iot_data_iter_value (&i1);
    MC_CHECK (e == iot_data_iter_value (&i2), "shared", "element not shared");
    if (e && !iot_data_is_static (e)) MC_CHECK (iot_data_ref_count (e) == 2, "refs", "shared element has %u references", iot_data_ref_count (e));
  }
  int side = mc_choose (2), op = mc_choose (NMUT);
  bool did = mutate (side ? cp : src, op);
  if (!did) { iot_data_free (src); iot_data_free (cp); mc_prune (); }
  mc_log ("%s of the %s\n", mut_names[op], side ? "copy" : "source");
  MC_CHECK (!strcmp (dd_str (&b, side ? src : cp, DD_TC), s0.s), "aliased", "changing the %s altered the other: %s is now %s", side ? "copy" : "source", s0.s, b.s);
  iot_data_t * f1 = mc_choose (2) ? src : cp, * f2 = f1 == src ? cp : src;
  dd_str (&a, f2, DD_TC);
  iot_data_free (f1);
  MC_CHECK (!strcmp (dd_str (&b, f2, DD_TC), a.s), "aliased", "freeing one side altered the other");
  iot_data_free (f2);
  mc_state (dd_hash (&a)); mc_trans (1);
  dd_leaks ("shallow copy");
}
static void s_const (void) /* constants are their own copy, and safe to free */
{
  dd_begin ();
  static sb a, b;
  iot_data_static_t st; iot_data_list_static_t ls;
  int k = mc_choose (15);
  iot_data_t * c = NULL;
  char str[] = "text"; int x;
  switch (k)
  {
    case 0: c = iot_data_alloc_const_ui64 (&st, UINT64_MAX); break; case 1: c = iot_data_alloc_const_i64 (&st, INT64_MIN); break;
    case 2: c = iot_data_alloc_const_ui32 (&st, UINT32_MAX); break; case 3: c = iot_data_alloc_const_i32 (&st, INT32_MIN); break;
    case 4: c = iot_data_alloc_const_ui16 (&st, UINT16_MAX); break; case 5: c = iot_data_alloc_const_i16 (&st, INT16_MIN); break;
    case 6: c = iot_data_alloc_const_ui8 (&st, UINT8_MAX); break; case 7: c = iot_data_alloc_const_i8 (&st, INT8_MIN); break;
    case 8: c = iot_data_alloc_const_string (&st, str); break; case 9: c = iot_data_alloc_const_pointer (&st, &x); break;
    case 10: c = iot_data_alloc_const_list (&ls); iot_data_list_head_push (c, iot_data_alloc_i8 (5)); break;
    case 11: c = iot_data_alloc_bool (true); break; case 12: c = iot_data_alloc_bool (false); break; case 13: c = iot_data_alloc_null (); break;
    default: c = iot_data_alloc_const_string (&st, ""); break;
  }
  dd_str (&a, c, 0);
  mc_log ("constant %s\n", a.s);
  iot_data_t * d = k == 9 ? NULL : dd_make (a.s), * o[6];
  if (d) MC_CHECK (iot_data_equal (c, d) && iot_data_equal (d, c) && iot_data_hash (c) == iot_data_hash (d) && iot_data_compare (d, c) == 0, "equal", "constant %s does not equal the same value on the heap", a.s);
  iot_data_t * v = iot_data_alloc_vector (1); iot_data_vector_add (v, 0, c);
  o[0] = iot_data_copy (c); o[1] = k == 10 ? NULL : iot_data_shallow_copy (c); o[2] = iot_data_add_ref (c); o[3] = iot_data_copy (v); o[4] = iot_data_shallow_copy (v); o[5] = v;
  for (int i = 0; i < 6; i++) iot_data_compress (o[i] && iota_container (o[i]) && i > 2 ? o[i] : v);
  int ord = mc_choose (6);
  for (int i = 0; i < 6; i++)
  {
    int q = (i + ord) % 6;
    if (q < 3) { if (o[q]) MC_CHECK (!strcmp (dd_str (&b, o[q], 0), a.s), "const", "reads as %s", b.s); }
    else MC_CHECK (!strcmp (dd_str (&b, iot_data_vector_get (o[q], 0), 0), a.s), "const", "element reads as %s", b.s);
    iot_data_free (o[q]);
    iot_data_free (c); /* freeing constant data has no effect */
    MC_CHECK (!strcmp (dd_str (&b, c, 0), a.s), "const", "constant reads as %s", b.s);
  }
  iot_data_free (d);
  if (k == 10) iot_data_list_empty (c);
  mc_state (mc_mix ((uint64_t) k, (uint64_t) ord)); mc_trans (6);
  dd_leaks ("constants");
}

/* ---------------------------------------------------------------- D09 */
static const char * const parts[] = { "i8:5", "i8:5@0=i8:1", "i8:5#1", "u8:5", "s:1'a'", "A<u8>1[05]", "A<i8>1[05]", "B<u8>1[05]", "V<multi>(i8:5)", "V<i8>(i8:5)", "L<multi>(i8:5)", "V<multi>(i8:5,i8:5)", "V<multi>(i8:6,i8:6)", "M<multi,multi>{i8:5=i8:5}", "M<i8,i8>{i8:5=i8:5}", "V<multi>(V<multi>(i8:5))", "V<multi>(V<i8>(i8:5))", "V<multi>(i8:5@0=i8:1)", "f32:0x1p+0", "f64:0x1p+0", "b:1", "null", "V<multi>()", "L<multi>()", "M<multi,multi>{}", "M<multi,multi>{V<multi>(i8:1,i8:2)=i8:7}", "M<multi,multi>{L<multi>(s:1'k')=V<multi>(i8:1,i8:2)}", "_" };
#define NPART 28
/* every part of a value with the keys of maps: what is equal only to the same (types, tags and metadata included) is stored once */
#define NALL 64
static int all_parts (iot_data_t * d, iot_data_t ** out, int n)
{
  iot_data_type_t t = iot_data_type (d);
  iot_data_iter_t it;
  if (t != IOT_DATA_VECTOR && t != IOT_DATA_LIST && t != IOT_DATA_MAP) return n;
  iot_data_iter (d, &it);
  while (iot_data_iter_next (&it))
  {
    iot_data_t * e[2] = { (iot_data_t *) iot_data_iter_value (&it), t == IOT_DATA_MAP ? (iot_data_t *) iot_data_map_iter_key (&it._iter.map) : NULL };
    for (int i = 0; i < 2; i++) if (e[i] && n < NALL) { out[n++] = e[i]; n = all_parts (e[i], out, n); }
  }
  return n;
}
static void shared_once (iot_data_t * d, const char * txt)
{
  iot_data_t * e[NALL];
  static sb b;
  static char s[NALL][400];
  int n = all_parts (d, e, 0);
  for (int i = 0; i < n; i++) { dd_str (&b, e[i], DD_TC | DD_META); MC_CHECK (b.n < 400, "long", "part too long"); strcpy (s[i], b.s); }
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
    {
      if (e[i] == e[j] || strcmp (s[i], s[j])) continue;
      bool clash = false;
      for (int q = 0; q < n && !clash; q++) clash = strcmp (s[q], s[i]) && iot_data_equal (e[q], e[i]);
      MC_CHECK (clash, "not-shared", "two parts %s of compressed %s do not share storage", s[i], txt);
    }
}
/* Equal leaves (with the same attributes) must be stored once after compression */
static void s_compress (void)
{
  static sb a, b, c0;
  dd_begin ();
  int kind = mc_choose (3), n = 2 + mc_choose ((int) mc_param ("parts", 2)), pi[4];
  for (int i = 0; i < n; i++) pi[i] = mc_choose (kind ? NPART - 1 : NPART);
  sb_reset (&a);
  sb_add (&a, kind == 0 ? "V<multi>(" : kind == 1 ? "L<multi>(" : "M<multi,multi>{");
  for (int i = 0; i < n; i++) { if (i) sb_add (&a, ","); if (kind == 2) sb_add (&a, i == 0 ? "i8:5=" : "i8:%d=", 5 + i); sb_add (&a, "%s", parts[pi[i]]); }
  sb_add (&a, kind == 2 ? "}" : ")");
  char txt[DDMAX]; strcpy (txt, a.s);
  int mode = mc_choose (4); /* own cache, caller's cache freed before or after, twice */
  iot_data_t * d = dd_make (txt), * cache = NULL, * e = NULL;
  mc_log ("compress %s, mode %d\n", txt, mode);
  dd_str (&c0, d, DD_TC | DD_META);
  if (mode == 0) iot_data_compress (d);
  else
  {
    cache = iot_data_alloc_map (IOT_DATA_MULTI);
    iot_data_compress_with_cache (d, cache);
    if (mode == 2) { e = dd_make (txt); iot_data_compress_with_cache (e, cache); }
    if (mode == 1) { iot_data_free (cache); cache = NULL; }
    if (mode == 3) { iot_data_compress_with_cache (d, cache); iot_data_compress (d); }
  }
  MC_CHECK (!strcmp (dd_str (&b, d, DD_TC | DD_META), c0.s), "content", "compressing %s gives %s", c0.s, b.s);
  if (e) MC_CHECK (!strcmp (dd_str (&b, e, DD_TC | DD_META), c0.s), "content", "compressing another %s with the same cache gives %s", c0.s, b.s);
  shared_once (d, txt);
  /* values that are the same with all attributes, and plain equal scalars, share storage */
  {
    const iot_data_t * el[4]; iot_data_iter_t it;
    int k = 0;
    iot_data_iter (d, &it);
    while (iot_data_iter_next (&it) && k < 4) el[k++] = iot_data_iter_value (&it);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
    {
      bool first_eq = true; /* nothing equal but different came before: then sharing is required */
      for (int q = 0; q < n; q++) if (q != i && q != j && el[q] && iot_data_equal (el[q], el[i]) && strcmp (parts[pi[q]], parts[pi[i]])) first_eq = false;
      if (kind == 2) { static const char * const ks[] = { "i8:5", "i8:6", "i8:7", "i8:8" }; for (int q = 0; q < n; q++) { iot_data_t * kd = dd_make (ks[q]); if (el[i] && iot_data_equal (kd, el[i]) && strcmp (parts[pi[i]], ks[q])) first_eq = false; iot_data_free (kd); } }
      for (int q = 0; q < n; q++) if (pi[q] >= 8 && pi[q] <= 17) first_eq = first_eq && pi[i] != 1 && pi[i] != 2 && pi[i] != 9 && pi[i] != 14 && pi[i] != 16 && pi[i] != 17 && pi[i] != 0 && pi[i] != 8 && pi[i] != 15;
      if (pi[i] == pi[j] && el[i] && first_eq) MC_CHECK (el[i] == el[j], "not-shared", "equal elements %d and %d of %s do not share storage", i, j, txt);
      if (el[i] && el[i] == el[j]) MC_CHECK (pi[i] == pi[j] || !strcmp (parts[pi[i]], parts[pi[j]]), "merged", "different elements %d and %d of %s were merged", i, j, txt);
    }
    if (e && kind != 2) { iot_data_iter (e, &it); for (int i = 0; i < n && iot_data_iter_next (&it); i++) { const iot_data_t * x = iot_data_iter_value (&it); if (x && pi[i] != 1 && pi[i] != 2 && (pi[i] < 8 || pi[i] > 17) && pi[i] > 0) { bool clash = false; for (int q = 0; q < n; q++) clash |= el[q] != x && el[q] && iot_data_equal (el[q], x); if (!clash) MC_CHECK (x == el[i], "not-shared", "element %d of a second value does not share storage through the cache", i); } } }
  }
  /* it can be changed at the top level, and released in any order with its cache */
  int fin = mc_choose (3);
  if (fin == 1) mutate (d, 0);
  if (fin == 2) { iot_data_free (cache); cache = NULL; }
  if (e) { MC_CHECK (!strcmp (dd_str (&b, e, DD_TC | DD_META), c0.s), "content", "changing one value altered the other: %s", b.s); iot_data_free (fin ? e : d); if (fin == 0) d = e; }
  dd_str (&b, d, DD_TC | DD_META);
  if (fin == 2) iot_data_compress (d);
  MC_CHECK (!strcmp (dd_str (&a, d, DD_TC | DD_META), b.s), "content", "recompressing %s gives %s", b.s, a.s);
  iot_data_free (d);
  iot_data_free (cache);
  mc_state (dd_hash (&c0)); mc_trans (1);
  dd_leaks ("compress");
}
static const mc_space spaces[] = {
  { "pairs", s_pairs, "every ordered pair of the value alphabet: equality, comparison, by-value forms and hashes against the canonical text" },
  { "triples", s_triples, "every triple of the value alphabet: transitivity" },
  { "hist", s_hist, "every mutation sequence on nested containers with hashes read at any point" },
  { "counter", s_counter, "every numeric type, boundary values, every sequence of increments and decrements" },
  { "routes", s_routes, "every value, made in every two ways there are" },
  { "copy", s_copy, "every shape, deep copied, every mutation of every node of either side, either order of release" },
  { "shallow", s_shallow, "every shape, shallow copied, every mutation of either top level" },
  { "const", s_const, "every kind of constant" },
  { "compress", s_compress, "every vector, list and map of up to 3 parts, own or shared caches" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
