/* D11 numeric casts, D14 values from text, D15 typecodes and shapes */
#include "ddcast.h"
#include "iot/base64.h"

/* ---------------------------------------------------------------- casts */
static void cast_one (const num * n, const iot_data_t * d, int to)
{
  uint8_t buf[24], exp[24];
  uint32_t ts = iot_data_type_size ((iot_data_type_t) to);
  num o;
  int r = ref_cast (n, to, &o);
  num_raw (&o, exp);
  memset (buf, 0xa5, sizeof (buf));
  bool ok = iot_data_cast (d, (iot_data_type_t) to, buf);
  MC_CHECK (r == 2 || ok == (r == 1), "cast", "cast of %s %.17g/%lld/%llu to %s returned %d", dd_tn[n->type], n->f, (long long) n->i, (unsigned long long) n->i, dd_tn[to], ok);
  if (r == 2 && ok) MC_CHECK (raw_same (to, buf, exp, ts), "cast", "infinity changed");
  if (r == 1) MC_CHECK (raw_same (to, buf, exp, ts), "cast", "cast of %s %.17g/%lld/%llu to %s gives another value", dd_tn[n->type], n->f, (long long) n->i, (unsigned long long) n->i, dd_tn[to]);
  for (uint32_t i = ok ? ts : 0; i < sizeof (buf); i++) MC_CHECK (buf[i] == 0xa5, "dest", "cast of %s to %s (%s) wrote byte %u of the destination", dd_tn[n->type], dd_tn[to], ok ? "done" : "refused", i);
  iot_data_t * t = iot_data_transform (d, (iot_data_type_t) to);
  if (r == 2 && n->type != to) { iot_data_free (t); return; }
  MC_CHECK ((t != NULL) == (n->type == to || r == 1), "transform", "transform of %s to %s gives %s", dd_tn[n->type], dd_tn[to], t ? "a value" : "nothing");
  if (t)
  {
    MC_CHECK (iot_data_type (t) == (iot_data_type_t) to, "transform", "transform of %s to %s gives %s", dd_tn[n->type], dd_tn[to], iot_data_type_name (t));
    if (n->type == to) num_raw (n, exp);
    MC_CHECK (raw_same (to, iot_data_address (t), exp, ts), "transform", "transform of %s %.17g/%lld to %s gives another value", dd_tn[n->type], n->f, (long long) n->i, dd_tn[to]);
    iot_data_free (t);
  }
}
static void s_cast (void)
{
  dd_begin ();
  static num v[400];
  int from = num_types[mc_choose (NNT)], nv = num_values (from, v);
  const num * n = &v[mc_choose (nv)];
  iot_data_t * d = num_alloc (n);
  mc_log ("%s %.17g %lld\n", dd_tn[from], n->f, (long long) n->i);
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING), * key = iot_data_alloc_string ("k", IOT_DATA_REF);
  iot_data_map_add (map, iot_data_add_ref (key), iot_data_add_ref (d));
  for (int t = 0; t < NNT; t++)
  {
    int to = num_types[t];
    cast_one (n, d, to);
    /* typed map getters: the same rule */
    uint8_t buf[16], exp[16], b2[16]; num o;
    int r = ref_cast (n, to, &o);
    if (r == 2) continue;
    num_raw (&o, exp);
    memset (buf, 0x5a, 16); memset (b2, 0x5a, 16);
    bool g1 = iot_data_map_get_number (map, key, (iot_data_type_t) to, buf), g2 = iot_data_string_map_get_number (map, "k", (iot_data_type_t) to, b2);
    MC_CHECK (g1 == (r == 1) && g2 == (r == 1), "map-number", "map number of type %s from %s: %d %d", dd_tn[to], dd_tn[from], g1, g2);
    if (g1) MC_CHECK (raw_same (to, buf, exp, iot_data_type_size ((iot_data_type_t) to)) && raw_same (to, b2, exp, iot_data_type_size ((iot_data_type_t) to)), "map-number", "map number of type %s from %s differs", dd_tn[to], dd_tn[from]);
    else MC_CHECK (buf[0] == 0x5a && b2[0] == 0x5a, "map-number", "refused number written");
    MC_CHECK (!iot_data_string_map_get_number (map, "absent", (iot_data_type_t) to, b2), "map-number", "number of an absent key");
    if (to == IOT_DATA_INT32)
    {
      int i1 = 77, i2 = 77;
      MC_CHECK (iot_data_map_get_int (map, key, &i1) == (r == 1) && iot_data_string_map_get_int (map, "k", &i2) == (r == 1), "map-int", "map int from %s", dd_tn[from]);
      MC_CHECK (i1 == (r == 1 ? (int) o.i : 77) && i2 == i1, "map-int", "map int from %s is %d", dd_tn[from], i1);
      MC_CHECK (!iot_data_string_map_get_int (map, "absent", &i2), "map-int", "int of an absent key");
    }
    mc_trans (1);
    mc_state (mc_mix_bytes ((uint64_t) (from * 32 + to), exp, iot_data_type_size ((iot_data_type_t) to)));
  }
  MC_CHECK (iot_data_is_nan (d) == ((from == IOT_DATA_FLOAT32 || from == IOT_DATA_FLOAT64) && isnan (n->f)), "nan", "is_nan of %s", dd_tn[from]);
  /* getters with a default do not convert */
  MC_CHECK (iot_data_string_map_get_i64 (map, "k", 42) == (from == IOT_DATA_INT64 ? (int64_t) n->i : 42) && iot_data_map_get_i64 (map, key, 42) == (from == IOT_DATA_INT64 ? (int64_t) n->i : 42), "map-default", "i64 from %s", dd_tn[from]);
  MC_CHECK (iot_data_string_map_get_ui64 (map, "k", 42) == (from == IOT_DATA_UINT64 ? (uint64_t) n->i : 42) && iot_data_map_get_ui64 (map, key, 42) == (from == IOT_DATA_UINT64 ? (uint64_t) n->i : 42), "map-default", "ui64 from %s", dd_tn[from]);
  for (int b = 0; b < 2; b++) MC_CHECK (iot_data_string_map_get_bool (map, "k", b) == (from == IOT_DATA_BOOL ? n->i != 0 : b) && iot_data_map_get_bool (map, key, b) == (from == IOT_DATA_BOOL ? n->i != 0 : b), "map-default", "bool from %s", dd_tn[from]);
  double f1 = iot_data_string_map_get_f64 (map, "k", 42), f2 = iot_data_map_get_f64 (map, key, 42), fe = from == IOT_DATA_FLOAT64 ? n->f : 42;
  MC_CHECK (raw_same (IOT_DATA_FLOAT64, &f1, &fe, 8) && raw_same (IOT_DATA_FLOAT64, &f2, &fe, 8), "map-default", "f64 from %s", dd_tn[from]);
  MC_CHECK (iot_data_string_map_get_i64 (map, "z", 42) == 42 && iot_data_string_map_get_ui64 (map, "z", 42) == 42 && iot_data_string_map_get_bool (map, "z", true) && !iot_data_string_map_get_bool (map, "z", false) && iot_data_string_map_get_f64 (map, "z", 42) == 42, "map-default", "default of an absent key");
  iot_data_free (map); iot_data_free (key); iot_data_free (d);
  dd_leaks ("casts");
}
/* every 8 and 16 bit value; every upper half of a 32 bit integer or float, every upper 16 bits of a 64 bit one */
static void s_sweep (void)
{
  int from = num_types[mc_choose (NNT)], hi = mc_choose (256);
  if (from == IOT_DATA_BOOL) return;
  int bits = (int) iot_data_type_size ((iot_data_type_t) from) * 8;
  static const uint64_t lows[] = { 0, 1, 0x8000, 0xffff };
  for (int lo = 0; lo < 256; lo++)
    for (int l = 0; l < (bits > 16 ? 4 : 1); l++)
    {
      uint64_t raw = bits == 8 ? (uint64_t) hi : bits == 16 ? (uint64_t) (hi << 8 | lo) : bits == 32 ? ((uint64_t) (hi << 8 | lo) << 16 | lows[l]) : ((uint64_t) (hi << 8 | lo) << 48 | (l == 3 ? 0xffffffffffffull : lows[l]));
      num n = { from, 0, 0 };
      switch (from)
      {
        case IOT_DATA_INT8: n.i = (int8_t) raw; break; case IOT_DATA_INT16: n.i = (int16_t) raw; break; case IOT_DATA_INT32: n.i = (int32_t) raw; break; case IOT_DATA_INT64: n.i = (int64_t) raw; break;
        case IOT_DATA_FLOAT32: { float f; uint32_t r = (uint32_t) raw; memcpy (&f, &r, 4); n.f = f; break; }
        case IOT_DATA_FLOAT64: memcpy (&n.f, &raw, 8); break;
        default: n.i = (__int128) raw; break;
      }
      if (from == IOT_DATA_FLOAT32 && isnan (n.f)) continue;
      if (bits == 8 && lo > 0) break;
      iot_data_t * d = num_alloc (&n);
      for (int t = 0; t < NNT; t++) cast_one (&n, d, num_types[t]);
      iot_data_free (d);
      mc_trans (NNT);
      if ((lo & 31) == 0) mc_state (mc_mix (raw, (uint64_t) from));
    }
}
static void s_other (void) /* values that are no numbers: nothing converts them, the destination stays */
{
  dd_begin ();
  int k = mc_choose (9);
  iot_data_t * d = k == 0 ? iot_data_alloc_string ("12", IOT_DATA_COPY) : k == 1 ? iot_data_alloc_null () : k == 2 ? iot_data_alloc_pointer (&k, NULL) : k == 3 ? iot_data_alloc_vector (2) : k == 4 ? iot_data_alloc_list () : k == 5 ? iot_data_alloc_map (IOT_DATA_STRING)
    : k == 6 ? iot_data_alloc_binary ("ab", 2, IOT_DATA_COPY) : k == 7 ? iot_data_alloc_array ("abcd", 2, IOT_DATA_UINT16, IOT_DATA_COPY) : iot_data_alloc_string ("", IOT_DATA_REF);
  for (int t = 0; t <= IOT_DATA_MAP; t++)
  {
    uint8_t b[16]; memset (b, 0x77, 16);
    bool ok = iot_data_cast (d, (iot_data_type_t) t, b);
    MC_CHECK (!ok, "cast-other", "%s was cast to %s", iot_data_type_name (d), dd_tn[t]);
    for (int i = 0; i < 16; i++) MC_CHECK (b[i] == 0x77, "dest", "refused cast wrote the destination");
    iot_data_t * x = iot_data_transform (d, (iot_data_type_t) t);
    MC_CHECK ((x != NULL) == (iot_data_type (d) == (iot_data_type_t) t) && (!x || x == d), "transform", "%s transformed to %s", iot_data_type_name (d), dd_tn[t]);
    iot_data_free (x);
    num n = { IOT_DATA_INT32, 5, 0 };
    iot_data_t * i32 = num_alloc (&n);
    if (t > IOT_DATA_BOOL) { MC_CHECK (!iot_data_cast (i32, (iot_data_type_t) t, b), "cast-other", "number was cast to %s", dd_tn[t]); MC_CHECK (b[0] == 0x77, "dest", "refused cast wrote the destination"); }
    iot_data_free (i32);
    mc_trans (2); mc_state ((uint64_t) (k * 32 + t));
  }
  iot_data_free (d);
  dd_leaks ("non numeric casts");
}

/* ---------------------------------------------------------------- values from text */
/* independent reading of an integer text: 1 ok, 0 refuse */
static int ref_int (const char * s, __int128 * v)
{
  bool neg = false, any = false;
  __int128 x = 0;
  while (*s == ' ' || *s == '\t' || *s == '\n') s++;
  if (*s == '-') { neg = true; s++; } else if (*s == '+') s++;
  while (*s >= '0' && *s <= '9') { any = true; if (x < ((__int128) 1 << 100)) x = x * 10 + (*s - '0'); s++; }
  while (*s == ' ' || *s == '\t' || *s == '\n') s++;
  *v = neg ? -x : x;
  return any && *s == 0;
}
static void parse_one (int type, const char * text, bool byname)
{
  iot_data_t * d = byname ? iot_data_alloc_from_strings (dd_tn[0] ? iot_data_type_string ((iot_data_type_t) type) : "", text) : iot_data_alloc_from_string ((iot_data_type_t) type, text);
  __int128 v;
  if (type < IOT_DATA_FLOAT32)
  {
    bool ok = ref_int (text, &v) && v >= imin (type) && v <= imax (type);
    MC_CHECK ((d != NULL) == ok, "parse-int", "'%s' as %s gives %s", text, dd_tn[type], d ? "a value" : "nothing");
    if (ok)
    {
      num n = { type, v, 0 }; uint8_t e[16]; uint32_t sz = num_raw (&n, e);
      MC_CHECK (iot_data_type (d) == (iot_data_type_t) type && memcmp (iot_data_address (d), e, sz) == 0, "parse-int", "'%s' as %s gives another value", text, dd_tn[type]);
    }
  }
  iot_data_free (d);
  mc_trans (1);
}
static const char alphabet[] = { 0, '0', '1', '9', '-', '+', ' ', '.', 'e', 'a', 'x', '5', '2', '8' };
static void s_text (void) /* every short text over the alphabet, as every integer type */
{
  dd_begin ();
  char t[16]; int n = 0, max = (int) mc_param ("len", 4);
  while (n < max) { char c = alphabet[mc_choose ((int) sizeof (alphabet))]; if (!c) break; t[n++] = c; }
  t[n] = 0;
  mc_log ("text '%s'\n", t);
  for (int type = 0; type < IOT_DATA_FLOAT32; type++) { parse_one (type, t, false); parse_one (type, t, true); }
  iot_data_t * s = iot_data_alloc_from_string (IOT_DATA_STRING, t);
  MC_CHECK (s && strcmp (iot_data_string (s), t) == 0, "parse-string", "string of '%s'", t);
  iot_data_free (s);
  for (int type = IOT_DATA_NULL; type <= IOT_DATA_INVALID; type++) MC_CHECK (iot_data_alloc_from_string ((iot_data_type_t) type, t) == NULL, "parse-other", "'%s' as %s gives a value", t, iot_data_type_string ((iot_data_type_t) type));
  MC_CHECK (iot_data_alloc_from_string (IOT_DATA_POINTER, t) == NULL, "parse-other", "'%s' as pointer", t);
  mc_state (mc_mix_str (3, t));
  dd_leaks ("text");
}
static void s_numtext (void) /* the boundary values, written in decimal, exactly and one off, with decorations */
{
  dd_begin ();
  static num v[400];
  int from = num_types[mc_choose (8)], nv = num_values (from, v);
  __int128 x = v[mc_choose (nv)].i + mc_choose (3) - 1;
  x *= (const int[]) { 1, 10, 256 } [mc_choose (3)];
  int deco = mc_choose (6);
  char digits[64], t[96]; int n = 0; bool neg = x < 0; __int128 a = neg ? -x : x;
  do { digits[n++] = (char) ('0' + (int) (a % 10)); a /= 10; } while (a);
  int k = 0;
  if (deco == 1) t[k++] = ' ';
  if (neg) t[k++] = '-'; else if (deco == 2) t[k++] = '+';
  if (deco == 3) { t[k++] = '0'; t[k++] = '0'; }
  while (n) t[k++] = digits[--n];
  if (deco == 4) t[k++] = ' ';
  if (deco == 5) t[k++] = 'u';
  t[k] = 0;
  mc_log ("text '%s'\n", t);
  for (int type = 0; type < IOT_DATA_FLOAT32; type++) { parse_one (type, t, false); parse_one (type, t, true); }
  mc_state (mc_mix_str (5, t));
  dd_leaks ("number text");
}
static const char * const ftext[] = { "0", "-0", "1", "1.5", "-1.5", ".5", "5.", "1e3", "1E-3", "+2.25", "123456789.125", "1e38", "1e308", "4.9e-324", "0.1", "1e400", "-1e400", " 7", "7 ", "16777217", "9007199254740993", "3.4028235e38", "inf", "-inf", "nan" };
static const char * const fbad[] = { "", " ", "abc", "1.5x", "1,5", "1.5.2", "e5", "-", "+", ".", "1 2", "--1", "1e", "0x", "1.0f" };
static void s_ftext (void)
{
  dd_begin ();
  int k = mc_choose (40);
  for (int byname = 0; byname < 2; byname++)
    for (int f32 = 0; f32 < 2; f32++)
    {
      iot_data_type_t ty = f32 ? IOT_DATA_FLOAT32 : IOT_DATA_FLOAT64;
      const char * t = k < 25 ? ftext[k] : fbad[k - 25];
      iot_data_t * d = byname ? iot_data_alloc_from_strings (iot_data_type_string (ty), t) : iot_data_alloc_from_string (ty, t);
      mc_log ("'%s' as %s\n", t, dd_tn[ty]);
      if (k >= 25) { MC_CHECK (d == NULL, "parse-float", "'%s' as %s gives a value", t, dd_tn[ty]); continue; }
      MC_CHECK (d && iot_data_type (d) == ty, "parse-float", "'%s' as %s gives nothing", t, dd_tn[ty]);
      double e = f32 ? (double) strtof (t, NULL) : strtod (t, NULL), g = f32 ? (double) iot_data_f32 (d) : iot_data_f64 (d);
      MC_CHECK ((isnan (e) && isnan (g)) || memcmp (&e, &g, 8) == 0, "parse-float", "'%s' as %s is %.17g, expected %.17g", t, dd_tn[ty], g, e);
      iot_data_free (d);
      mc_trans (1); mc_state (mc_mix_str ((uint64_t) ty, t));
    }
  dd_leaks ("float text");
}
static const char * const btext[] = { "true", "True", "TRUE", "false", "False", "FALSE", "" };
static void s_misc (void)
{
  dd_begin ();
  int k = mc_choose (4);
  if (k == 0)
    for (int i = 0; i < 7; i++)
    {
      iot_data_t * d = iot_data_alloc_from_string (IOT_DATA_BOOL, btext[i]);
      if (i == 6) MC_CHECK (d == NULL, "parse-bool", "empty text is a boolean");
      else MC_CHECK (d && iot_data_type (d) == IOT_DATA_BOOL && iot_data_bool (d) == (i < 3), "parse-bool", "'%s'", btext[i]);
      iot_data_free (d);
      mc_trans (1);
    }
  if (k == 1) /* names: each type by its own name in any case, nothing else */
  {
    for (int t = 0; t < IOT_DATA_INVALID; t++)
    {
      char nm[32], up[34]; strcpy (nm, iot_data_type_string ((iot_data_type_t) t));
      MC_CHECK (iot_data_name_type (nm) == (iot_data_type_t) t, "name", "type of name %s is %d, expected %d", nm, iot_data_name_type (nm), t);
      for (int j = 0; j <= t - 1; j++) MC_CHECK (strcasecmp (nm, iot_data_type_string ((iot_data_type_t) j)) != 0, "name", "types %d and %d have the same name", t, j);
      for (int i = 0; (up[i] = (char) (nm[i] >= 'a' && nm[i] <= 'z' ? nm[i] - 32 : nm[i])); i++) { }
      MC_CHECK (iot_data_name_type (up) == (iot_data_type_t) t, "name", "type of name %s", up);
      strcat (up, "x");
      MC_CHECK (iot_data_name_type (up) == IOT_DATA_INVALID, "name", "type of name %s", up);
      nm[strlen (nm) - 1] = 0;
      bool other = false;
      for (int j = 0; j < IOT_DATA_INVALID; j++) other |= strcasecmp (nm, iot_data_type_string ((iot_data_type_t) j)) == 0;
      if (!other) MC_CHECK (iot_data_name_type (nm) == IOT_DATA_INVALID, "name", "type of name %s", nm);
      mc_trans (3); mc_state ((uint64_t) t);
    }
    MC_CHECK (iot_data_name_type ("") == IOT_DATA_INVALID && iot_data_name_type ("Invalid") == IOT_DATA_INVALID && iot_data_alloc_from_strings ("Nothing", "1") == NULL, "name", "unknown name");
    for (int t = IOT_DATA_INVALID; t < 256; t += 5) MC_CHECK (strcmp (iot_data_type_string ((iot_data_type_t) t), "Invalid") == 0, "name", "name of type %d", t);
  }
  if (k == 2) /* base64: arrays from text, and map conversion in place */
    for (int len = 0; len < 20; len++)
    {
      uint8_t raw[20]; char text[64];
      for (int i = 0; i < len; i++) raw[i] = (uint8_t) (i * 53 + len * 7);
      iot_b64_encode (raw, (size_t) len, text, sizeof (text));
      iot_data_t * a = iot_data_alloc_array_from_base64 (text);
      MC_CHECK (a && iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == IOT_DATA_UINT8 && iot_data_array_length (a) == (uint32_t) len && (len == 0 || memcmp (iot_data_address (a), raw, (size_t) len) == 0), "base64", "array of '%s'", text);
      iot_data_free (a);
      for (int multi = 0; multi < 2; multi++)
      {
        iot_data_t * map = iot_data_alloc_map (multi ? IOT_DATA_MULTI : IOT_DATA_STRING), * key = iot_data_alloc_string ("k", IOT_DATA_REF), * no = iot_data_alloc_string ("n", IOT_DATA_REF), * bad = iot_data_alloc_string ("b", IOT_DATA_REF), * num5 = iot_data_alloc_string ("i", IOT_DATA_REF);
        iot_data_string_map_add (map, "k", iot_data_alloc_string (text, IOT_DATA_COPY));
        iot_data_string_map_add (map, "b", iot_data_alloc_string ("a!b=", IOT_DATA_COPY));
        iot_data_string_map_add (map, "i", iot_data_alloc_i32 (5));
        MC_CHECK (iot_data_map_base64_to_array (map, key) && !iot_data_map_base64_to_array (map, no) && !iot_data_map_base64_to_array (map, bad) && !iot_data_map_base64_to_array (map, num5), "base64-map", "conversion of '%s' in a map", text);
        const iot_data_t * v = iot_data_string_map_get (map, "k");
        MC_CHECK (v && iot_data_type (v) == IOT_DATA_ARRAY && iot_data_array_length (v) == (uint32_t) len && (len == 0 || memcmp (iot_data_address (v), raw, (size_t) len) == 0), "base64-map", "array of '%s' in a map", text);
        MC_CHECK (strcmp (iot_data_string_map_get_string (map, "b"), "a!b=") == 0 && iot_data_i32 (iot_data_string_map_get (map, "i")) == 5, "base64-map", "other entry changed");
        MC_CHECK (!iot_data_map_base64_to_array (map, key), "base64-map", "second conversion");
        iot_data_free (map); iot_data_free (key); iot_data_free (no); iot_data_free (bad); iot_data_free (num5);
        mc_trans (3); mc_state (mc_mix_str ((uint64_t) multi, text));
      }
    }
  if (k == 3)
  {
    static const char * const bad[] = { "A", "!!!!", "AB?=", "A===", "====" };
    for (int i = 0; i < 5; i++) { iot_data_t * a = iot_data_alloc_array_from_base64 (bad[i]); MC_CHECK (i > 1 || a == NULL || i == 0, "base64-bad", "'%s' gives a value", bad[i]); iot_data_free (a); mc_trans (1); }
  }
  dd_leaks ("text values");
}

/* ---------------------------------------------------------------- typecodes */
static bool ref_tc_equal (const iot_typecode_t * a, const iot_typecode_t * b)
{
  if (a->type != b->type) return false;
  if (a->type >= IOT_DATA_ARRAY && a->type <= IOT_DATA_MULTI && a->element_type != b->element_type) return false;
  return a->type != IOT_DATA_MAP || a->key_type == b->key_type;
}
static const int tcs[] = { IOT_DATA_INT8, IOT_DATA_STRING, IOT_DATA_VECTOR, IOT_DATA_MAP, IOT_DATA_MULTI, IOT_DATA_INVALID };
static void s_tceq (void)
{
  iot_typecode_t a = { .type = (iot_data_type_t) mc_choose (IOT_DATA_INVALID + 1) };
  a.element_type = (iot_data_type_t) mc_choose (IOT_DATA_INVALID + 1);
  for (int k = 0; k < 6; k++)
  {
    a.key_type = (iot_data_type_t) tcs[k];
    MC_CHECK (iot_typecode_equal (&a, &a) && !iot_typecode_equal (&a, NULL) && !iot_typecode_equal (NULL, &a) && iot_typecode_equal (NULL, NULL), "tc-equal", "identity or NULL");
    for (int t = 0; t <= IOT_DATA_INVALID; t++)
      for (int e = 0; e <= IOT_DATA_INVALID; e++)
        for (int y = 0; y < 6; y++)
        {
          iot_typecode_t b = { .type = (iot_data_type_t) t, .element_type = (iot_data_type_t) e, .key_type = (iot_data_type_t) tcs[y] };
          MC_CHECK (iot_typecode_equal (&a, &b) == ref_tc_equal (&a, &b), "tc-equal", "typecodes %d/%d/%d and %d/%d/%d", a.type, a.key_type, a.element_type, t, b.key_type, e);
        }
    mc_trans (2646); mc_state ((uint64_t) (a.type * 1000 + a.element_type * 30 + k));
  }
}
static void s_tc (void)
{
  dd_begin ();
  static num v[400];
  int shape = mc_choose (8);
  iot_data_t * d; iot_typecode_t e = { .element_type = IOT_DATA_INVALID, .key_type = IOT_DATA_INVALID };
  iot_data_static_t st; iot_data_list_static_t sl;
  switch (shape)
  {
    case 0: { int t = num_types[mc_choose (NNT)]; num_values (t, v); d = num_alloc (&v[0]); e.type = (iot_data_type_t) t; break; }
    case 1: { int k = mc_choose (5); d = k == 0 ? iot_data_alloc_string ("s", IOT_DATA_COPY) : k == 1 ? iot_data_alloc_null () : k == 2 ? iot_data_alloc_pointer (&k, NULL) : k == 3 ? iot_data_alloc_const_string (&st, "s") : iot_data_alloc_string_fmt ("%d", 5);
              e.type = k == 1 ? IOT_DATA_NULL : k == 2 ? IOT_DATA_POINTER : IOT_DATA_STRING; break; }
    case 2: d = iot_data_alloc_array (NULL, 0, (iot_data_type_t) num_types[mc_choose (NNT)], IOT_DATA_COPY); e.type = IOT_DATA_ARRAY; e.element_type = iot_data_array_type (d); break;
    case 3: d = iot_data_alloc_binary ("xy", 2, IOT_DATA_COPY); e.type = IOT_DATA_BINARY; e.element_type = IOT_DATA_UINT8; break;
    case 4: { int t = mc_choose (IOT_DATA_MULTI + 1); bool plain = mc_choose (2); d = plain ? iot_data_alloc_vector (2) : iot_data_alloc_typed_vector (2, (iot_data_type_t) t); e.type = IOT_DATA_VECTOR; e.element_type = plain ? IOT_DATA_MULTI : (iot_data_type_t) t; MC_CHECK (iot_data_vector_type (d) == e.element_type, "type", "vector type"); break; }
    case 5: { int t = mc_choose (IOT_DATA_MULTI + 1); int how = mc_choose (3); d = how == 0 ? iot_data_alloc_list () : how == 1 ? iot_data_alloc_typed_list ((iot_data_type_t) t) : iot_data_alloc_const_list (&sl); e.type = IOT_DATA_LIST; e.element_type = how == 1 ? (iot_data_type_t) t : IOT_DATA_MULTI; MC_CHECK (iot_data_list_type (d) == e.element_type, "type", "list type"); break; }
    default:
    {
      int kt = mc_choose (IOT_DATA_MULTI + 1), t = mc_choose (IOT_DATA_MULTI + 1);
      if (kt == IOT_DATA_NULL) kt = IOT_DATA_STRING;
      d = shape == 6 ? iot_data_alloc_map ((iot_data_type_t) kt) : iot_data_alloc_typed_map ((iot_data_type_t) kt, (iot_data_type_t) t);
      e.type = IOT_DATA_MAP; e.key_type = (iot_data_type_t) kt; e.element_type = shape == 6 ? IOT_DATA_MULTI : (iot_data_type_t) t;
      MC_CHECK (iot_data_map_type (d) == e.element_type && iot_data_map_key_type (d) == e.key_type && iot_data_map_key_is_of_type (d, (iot_data_type_t) kt), "type", "map types");
    }
  }
  for (int pass = 0; pass < 3; pass++) /* the value, its deep copy, its shallow copy */
  {
    iot_data_t * x = pass == 0 ? iot_data_add_ref (d) : pass == 1 ? iot_data_copy (d) : iot_data_shallow_copy (d);
    iot_typecode_t tc;
    iot_data_typecode (x, &tc);
    MC_CHECK (tc.type == e.type && tc.element_type == e.element_type && tc.key_type == e.key_type, "typecode", "typecode %d/%d/%d, expected %d/%d/%d (%s)", tc.type, tc.key_type, tc.element_type, e.type, e.key_type, e.element_type, pass == 0 ? "original" : pass == 1 ? "copy" : "shallow copy");
    MC_CHECK (iot_data_type (x) == e.type && iot_data_is_of_type (x, e.type) && strcmp (iot_data_type_name (x), iot_data_type_string (e.type)) == 0, "type", "type");
    for (int t = 0; t <= IOT_DATA_INVALID; t++)
    {
      if (t != (int) e.type) MC_CHECK (!iot_data_is_of_type (x, (iot_data_type_t) t), "type", "is of type %d too", t);
      for (int m = 0; m <= IOT_DATA_INVALID; m++)
        for (int y = 0; y <= IOT_DATA_INVALID; y++)
        {
          iot_typecode_t b = { .type = (iot_data_type_t) t, .element_type = (iot_data_type_t) m, .key_type = (iot_data_type_t) y };
          MC_CHECK (iot_data_matches (x, &b) == ref_tc_equal (&e, &b), "matches", "value of %d/%d/%d against %d/%d/%d", e.type, e.key_type, e.element_type, t, y, m);
        }
    }
    mc_trans (21 * 21 * 21);
    iot_data_free (x);
  }
  mc_state ((uint64_t) (e.type * 10000 + e.element_type * 100 + e.key_type));
  iot_data_free (d);
  dd_leaks ("typecodes");
}
/* what is asked of the wrong kind of value, or of none, is answered by no */
static void s_kinds (void)
{
  dd_begin ();
  static const char * const kinds[] = { "_", "null", "b:1", "i8:5", "u8:5", "i16:5", "u16:5", "i32:5", "u32:5", "i64:5", "u64:5", "f32:0x1p+0", "f64:0x1p+0", "s:2'ab'", "p:0x10", "A<u8>2[0506]", "A<f64>0[]", "B<u8>1[05]", "V<i8>(i8:5)", "L<multi>(i8:5)", "M<str,i8>{s:1'a'=i8:5}" };
  int k = mc_choose (21);
  iot_data_t * d = dd_make (kinds[k]);
  iot_data_type_t ty = iot_data_type (d);
  mc_log ("%s\n", kinds[k]);
  MC_CHECK (d || ty == IOT_DATA_INVALID, "type", "type of no data");
  for (int t = 0; t <= IOT_DATA_INVALID; t++)
  {
    iot_data_type_t x = (iot_data_type_t) t;
    MC_CHECK (iot_data_is_of_type (d, x) == (d && ty == x), "type", "%s is of type %d", kinds[k], t);
    bool arr = ty == IOT_DATA_ARRAY || ty == IOT_DATA_BINARY;
    if (arr || !d) MC_CHECK (iot_data_array_is_of_type (d, x) == (arr && iot_data_array_type (d) == x), "type", "%s is an array of type %d", kinds[k], t);
    if (ty == IOT_DATA_MAP || !d) MC_CHECK (iot_data_map_key_is_of_type (d, x) == (d && iot_data_map_key_type (d) == x), "type", "%s is a map with keys of type %d", kinds[k], t);
    mc_trans (3);
  }
  if (!d || (ty != IOT_DATA_NULL && ty != IOT_DATA_BOOL)) MC_CHECK (!iot_data_is_static (d), "static", "%s is static", kinds[k]);
  else MC_CHECK (iot_data_is_static (d), "static", "%s is not static", kinds[k]);
  if (!d) { mc_state ((uint64_t) k); return; }
  /* the address of the value's own storage; of the data of an array; what a pointer points to */
  const void * ad = iot_data_address (d);
  if (ty == IOT_DATA_POINTER) { MC_CHECK (ad == (void *) 0x10 && iot_data_pointer (d) == ad, "address", "address of a pointer"); }
  else if (ty == IOT_DATA_ARRAY || ty == IOT_DATA_BINARY)
  {
    iot_data_array_iter_t it; iot_data_array_iter (d, &it);
    if (iot_data_array_length (d)) MC_CHECK (ad && *(const uint8_t *) ad == 5 && iot_data_array_iter_next (&it) && iot_data_array_iter_value (&it) == ad, "address", "address of an array");
  }
  else if (ty <= IOT_DATA_BOOL)
  {
    double v = ty == IOT_DATA_BOOL ? *(const bool *) ad : ty == IOT_DATA_INT8 ? *(const int8_t *) ad : ty == IOT_DATA_UINT8 ? *(const uint8_t *) ad : ty == IOT_DATA_INT16 ? *(const int16_t *) ad : ty == IOT_DATA_UINT16 ? *(const uint16_t *) ad : ty == IOT_DATA_INT32 ? *(const int32_t *) ad : ty == IOT_DATA_UINT32 ? *(const uint32_t *) ad : ty == IOT_DATA_INT64 ? (double) *(const int64_t *) ad : ty == IOT_DATA_UINT64 ? (double) *(const uint64_t *) ad : ty == IOT_DATA_FLOAT32 ? *(const float *) ad : *(const double *) ad;
    MC_CHECK (v == (ty == IOT_DATA_BOOL || is_flt ((int) ty) ? 1.0 : 5.0), "address", "address of %s", kinds[k]);
  }
  mc_state ((uint64_t) k);
  iot_data_free (d);
  dd_leaks ("kinds");
}
/* ---------------------------------------------------------------- shapes */
#define SH_MAX 6
static iot_data_t * build (int depth, int width)
{
  int n = mc_choose (width + 1);
  iot_data_t * v = iot_data_alloc_vector ((uint32_t) n);
  for (int i = 0; i < n; i++)
  {
    int k = mc_choose (depth > 1 ? 4 : 3);
    iot_data_t * e = k == 0 ? iot_data_alloc_i32 (i) : k == 1 ? iot_data_alloc_string ("s", IOT_DATA_REF) : k == 3 ? build (depth - 1, width) : NULL;
    if (e) iot_data_vector_add (v, (uint32_t) i, e);
  }
  return v;
}
/* Shape of v: number of dimensions, or 0 if irregular. Vectors whose elements are all vectors are multidimensional
   as far as all of these have the same number of dimensions. */
static int ref_depth (const iot_data_t * v)
{
  uint32_t n = iot_data_vector_size (v); int d = 0;
  for (uint32_t i = 0; i < n; i++)
  {
    const iot_data_t * e = iot_data_vector_get (v, i);
    if (iot_data_type (e) != IOT_DATA_VECTOR) return 1;
    int x = ref_depth (e);
    if (i && x != d) return 1;
    d = x;
  }
  return d + 1;
}
static bool ref_dims (const iot_data_t * v, int depth, uint32_t * dims)
{
  uint32_t n = iot_data_vector_size (v), sub[SH_MAX];
  dims[0] = n;
  if (depth == 1) return true;
  for (uint32_t i = 0; i < n; i++)
  {
    if (!ref_dims (iot_data_vector_get (v, i), depth - 1, i ? sub : dims + 1)) return false;
    if (i && memcmp (sub, dims + 1, sizeof (uint32_t) * (size_t) (depth - 1))) return false;
  }
  return true;
}
static uint32_t ref_count (const iot_data_t * v, int type, bool rec)
{
  uint32_t c = 0;
  for (uint32_t i = 0; i < iot_data_vector_size (v); i++)
  {
    const iot_data_t * e = iot_data_vector_get (v, i);
    if (!e) continue;
    if (rec && iot_data_type (e) == IOT_DATA_VECTOR) c += ref_count (e, type, true);
    else if (type == IOT_DATA_MULTI || (int) iot_data_type (e) == type) c++;
  }
  return c;
}
static void s_dims (void)
{
  dd_begin ();
  iot_data_t * v = build ((int) mc_param ("depth", 3), (int) mc_param ("width", 2));
  static sb b;
  dd_str (&b, v, 0);
  mc_log ("%s\n", b.s);
  uint32_t total = 999, dims[SH_MAX] = { 0 };
  int depth = ref_depth (v);
  bool ok = ref_dims (v, depth, dims);
  iot_data_t * r = iot_data_vector_dimensions (v, &total);
  MC_CHECK ((r != NULL) == ok, "dims", "%s: %s, expected %s", b.s, r ? "dimensions" : "no dimensions", ok ? "some" : "none");
  if (ok)
  {
    uint32_t t = 1; for (int i = 0; i < depth; i++) t *= dims[i];
    MC_CHECK (iot_data_type (r) == IOT_DATA_ARRAY && iot_data_array_type (r) == IOT_DATA_UINT32 && iot_data_array_length (r) == (uint32_t) depth, "dims", "%s: %u dimensions, expected %d", b.s, iot_data_array_length (r), depth);
    MC_CHECK (memcmp (iot_data_address (r), dims, (size_t) depth * 4) == 0 && total == t, "dims", "%s: dimensions %u.. total %u, expected %u.. total %u", b.s, ((const uint32_t *) iot_data_address (r))[0], total, dims[0], t);
    iot_data_free (r);
  }
  else MC_CHECK (total == 0, "dims", "%s: total %u of an irregular vector", b.s, total);
  for (int rec = 0; rec < 2; rec++)
    for (int t = 0; t <= IOT_DATA_MULTI; t++)
    {
      uint32_t c = iot_data_vector_element_count (v, (iot_data_type_t) t, rec), e = ref_count (v, t, rec);
      MC_CHECK (c == e, "count", "%s: %u elements of type %s, expected %u (recurse %d)", b.s, c, dd_tn[t], e, rec);
    }
  mc_trans (41); mc_state (mc_mix_str (9, b.s));
  iot_data_free (v);
  dd_leaks ("dimensions");
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] = {
    { "cast", s_cast, "every boundary value of every numeric type, cast to every numeric type, directly, transformed and by map getters" },
    { "sweep", s_sweep, "all 8 and 16 bit values, all upper halves of wider ones, cast to every numeric type" },
    { "other", s_other, "values that are no numbers against every type" },
    { "text", s_text, "every text up to the length over an alphabet of 13 characters, as every type" },
    { "numtext", s_numtext, "decimal text of boundary values, one off and scaled, with decorations, as every integer type" },
    { "ftext", s_ftext, "floating point texts, good and bad" },
    { "misc", s_misc, "booleans, type names, base64" },
    { "tceq", s_tceq, "all pairs of typecodes" },
    { "tc", s_tc, "values of every type x element and key type, against all typecodes" },
    { "kinds", s_kinds, "every kind of value, and none, asked for every type, and its address" },
    { "dims", s_dims, "every nested vector up to the depth and width" } };
  return mc_main (argc, argv, sp, 11);
}
