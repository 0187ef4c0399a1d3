/* E03 CBOR against an independent decoder, E04 base64 against a reference codec, E07 configuration substitution and getters */
#include "ddcast.h"
#include "iot/base64.h"
#include "iot/config.h"
#include "iot/container.h"
#include "iot/logger.h"

/* ------------------------------------------------------------------ CBOR */
static const uint8_t * cb_p, * cb_e; static const char * cb_err;
static bool cb_head (int * major, int * ai, uint64_t * arg)
{
  if (cb_p >= cb_e) { cb_err = "truncated"; return false; }
  uint8_t b = *cb_p++;
  *major = b >> 5; *ai = b & 31;
  if (*ai < 24) { *arg = (uint64_t) *ai; return true; }
  if (*ai > 27) { cb_err = "reserved or indefinite length"; return false; }
  int n = 1 << (*ai - 24);
  if (cb_e - cb_p < n) { cb_err = "truncated argument"; return false; }
  *arg = 0;
  for (int i = 0; i < n; i++) *arg = *arg << 8 | *cb_p++;
  return true;
}
#define CBNEG "negative-integer-off-by-one"
#define CBFAIL(key, ...) do { char m_[300]; snprintf (m_, sizeof (m_), __VA_ARGS__); mc_fail (key, "%s, in CBOR of %s", m_, what); } while (0)
static void cb_num (int t, const void * p, const char * what)
{
  int major, ai; uint64_t arg;
  if (!cb_head (&major, &ai, &arg)) CBFAIL ("malformed", "%s", cb_err);
  if (t == IOT_DATA_BOOL) { if (major != 7 || arg != (*(const bool *) p ? 21 : 20) || ai > 23) CBFAIL ("value", "boolean as major %d value %" PRIu64, major, arg); return; }
  if (t == IOT_DATA_NULL) { if (major != 7 || ai != 22) CBFAIL ("value", "null as major %d value %" PRIu64, major, arg); return; }
  if (is_flt (t))
  {
    if (major != 7 || ai < 25 || ai > 27) CBFAIL ("value", "floating value as major %d additional %d", major, ai);
    double want = t == IOT_DATA_FLOAT32 ? (double) *(const float *) p : *(const double *) p, got;
    if (ai == 27) memcpy (&got, &arg, 8);
    else if (ai == 26) { uint32_t u = (uint32_t) arg; float f; memcpy (&f, &u, 4); got = f; }
    else { int s = (arg >> 15) & 1, e = (arg >> 10) & 31; double m = (double) (arg & 1023); got = e == 0 ? ldexp (m, -24) : e == 31 ? (m == 0 ? INFINITY : NAN) : ldexp (m + 1024, e - 25); if (s) got = -got; }
    if (!(isnan (want) && isnan (got)) && (got != want || signbit (got) != signbit (want))) CBFAIL ("value", "%a decodes to %a", want, got);
    return;
  }
  __int128 want;
  switch (t)
  {
    case IOT_DATA_INT8: want = *(const int8_t *) p; break; case IOT_DATA_UINT8: want = *(const uint8_t *) p; break;
    case IOT_DATA_INT16: want = *(const int16_t *) p; break; case IOT_DATA_UINT16: want = *(const uint16_t *) p; break;
    case IOT_DATA_INT32: want = *(const int32_t *) p; break; case IOT_DATA_UINT32: want = *(const uint32_t *) p; break;
    case IOT_DATA_INT64: want = *(const int64_t *) p; break; default: want = *(const uint64_t *) p; break;
  }
  __int128 got = major == 0 ? (__int128) arg : -1 - (__int128) arg;
  if (major > 1) CBFAIL ("value", "integer %" PRId64 " as major %d", (int64_t) want, major);
  if (got == want) return;
  if (want < 0 && got == want - 1) { if (!mc_known (CBNEG)) CBFAIL (CBNEG, "%" PRId64 " decodes to one less", (int64_t) want); return; }
  CBFAIL ("value", "integer %" PRId64 " decodes to %s%" PRIu64, (int64_t) want, got < 0 ? "-1-" : "", arg);
}
static void cb_match (const iot_data_t * d, const char * what)
{
  int major, ai; uint64_t arg;
  static const uint8_t dummy = 0;
  if (!d) { cb_num (IOT_DATA_NULL, &dummy, what); return; }
  iot_data_type_t t = iot_data_type (d);
  if (t == IOT_DATA_NULL) { cb_num (t, &dummy, what); return; }
  if (t <= IOT_DATA_BOOL) { cb_num ((int) t, iot_data_address (d), what); return; }
  const uint8_t * save = cb_p;
  if (!cb_head (&major, &ai, &arg)) CBFAIL ("malformed", "%s", cb_err);
  (void) save;
  if (t == IOT_DATA_STRING || t == IOT_DATA_BINARY)
  {
    const void * p = t == IOT_DATA_STRING ? (const void *) iot_data_string (d) : iot_data_address (d);
    size_t n = t == IOT_DATA_STRING ? strlen (p) : iot_data_array_size (d);
    if (major != (t == IOT_DATA_STRING ? 3 : 2)) CBFAIL ("value", "%s as major %d", dd_tn[t], major);
    if (arg != n || (size_t) (cb_e - cb_p) < n) CBFAIL ("value", "%s of %zu bytes has length %" PRIu64, dd_tn[t], n, arg);
    if (n && memcmp (p, cb_p, n)) CBFAIL ("value", "%s content differs", dd_tn[t]);
    cb_p += n;
    return;
  }
  if (t == IOT_DATA_MAP)
  {
    if (major != 5 || arg != iot_data_map_size (d)) CBFAIL ("value", "map of %u as major %d, length %" PRIu64, iot_data_map_size (d), major, arg);
    iot_data_map_iter_t it; iot_data_map_iter (d, &it);
    while (iot_data_map_iter_next (&it)) { cb_match (iot_data_map_iter_key (&it), what); cb_match (iot_data_map_iter_value (&it), what); }
    return;
  }
  uint32_t n = t == IOT_DATA_ARRAY ? iot_data_array_length (d) : t == IOT_DATA_VECTOR ? iot_data_vector_size (d) : iot_data_list_length (d);
  if (major != 4 || arg != n) CBFAIL ("value", "%s of %u as major %d, length %" PRIu64, dd_tn[t], n, major, arg);
  if (t == IOT_DATA_ARRAY) { const uint8_t * p = iot_data_address (d); uint32_t sz = n ? iot_data_array_size (d) / n : 0; for (uint32_t i = 0; i < n; i++) cb_num ((int) iot_data_array_type (d), p + i * sz, what); }
  else if (t == IOT_DATA_VECTOR) for (uint32_t i = 0; i < n; i++) cb_match (iot_data_vector_get (d, i), what);
  else { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) cb_match (iot_data_list_iter_value (&it), what); }
}
static uint32_t cb_check (const iot_data_t * d, uint32_t size, const char * what)
{
  iot_data_t * c = size ? iot_data_to_cbor_with_size (d, size) : iot_data_to_cbor (d);
  MC_CHECK (c && iot_data_type (c) == IOT_DATA_BINARY, "value", "no CBOR for %s", what);
  cb_p = iot_data_address (c); cb_e = cb_p + iot_data_array_size (c);
  cb_match (d, what);
  if (cb_p != cb_e) CBFAIL ("malformed", "%ld bytes after the item", (long) (cb_e - cb_p));
  uint32_t n = iot_data_array_size (c);
  iot_data_free (c);
  mc_trans (1);
  return n;
}
static void cb_all (const iot_data_t * d, const char * what)
{
  uint32_t n = cb_check (d, 0, what);
  mc_state (mc_mix_str (n, what));
  uint32_t lim = n + 2 < 70 ? n + 2 : 70;
  for (uint32_t s = 1; s <= lim; s++) cb_check (d, s, what);
}
static void s_cscalar (void)
{
  static num v[400]; char what[100];
  dd_begin ();
  int t = num_types[mc_choose (NNT)], n = num_values (t, v), form = mc_choose (5);
  for (int i = 0; i < n; i++)
  {
    iot_data_t * x = num_alloc (&v[i]), * d = x;
    uint64_t raw[3]; uint32_t sz;
    switch (form)
    {
      case 1: d = iot_data_alloc_vector (3); iot_data_vector_add (d, 0, x); iot_data_vector_add (d, 2, iot_data_add_ref (x)); break;
      case 2: d = iot_data_alloc_map ((iot_data_type_t) t); iot_data_map_add (d, x, iot_data_add_ref (x)); break;
      case 3: iot_data_free (x); sz = num_raw (&v[i], raw); num_raw (&v[(i + 1) % n], (char *) raw + sz); num_raw (&v[i], (char *) raw + 2 * sz); d = iot_data_alloc_array (raw, 3, (iot_data_type_t) t, IOT_DATA_COPY); break;
      case 4: d = iot_data_alloc_list (); iot_data_list_tail_push (d, x); iot_data_list_tail_push (d, iot_data_alloc_string ("z", IOT_DATA_REF)); break;
      default: break;
    }
    snprintf (what, sizeof (what), "%s %" PRId64 " / %a in form %d", dd_tn[t], (int64_t) v[i].i, v[i].f, form);
    mc_log ("%s\n", what);
    cb_all (d, what);
    iot_data_free (d);
  }
  dd_leaks ("writing CBOR");
}
/* all 16 bit (and the upper halves of wider) patterns */
static void s_csweep (void)
{
  static const int tt[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64 };
  int t = tt[mc_choose (10)], part = mc_choose (8), low = mc_choose (3);
  uint32_t bits = t == IOT_DATA_INT8 || t == IOT_DATA_UINT8 ? 8 : t == IOT_DATA_INT16 || t == IOT_DATA_UINT16 ? 16 : t == IOT_DATA_INT32 || t == IOT_DATA_UINT32 || t == IOT_DATA_FLOAT32 ? 32 : 64;
  char what[100];
  for (uint32_t h = (uint32_t) part; h < 65536; h += 8)
  {
    if (bits == 8 && h > 255) break;
    if (bits <= 16 && low) break;
    uint64_t u = bits <= 16 ? h : ((uint64_t) h << (bits - 16)) | (low == 1 ? 1 : low == 2 ? ((uint64_t) 1 << (bits - 16)) - 1 : 0);
    if (low == 2 && (h & 1)) u = h; /* small values too */
    iot_data_t * d = iot_data_alloc_array (&u, 1, (iot_data_type_t) t, IOT_DATA_COPY);
    snprintf (what, sizeof (what), "array of %s bits %" PRIx64, dd_tn[t], u);
    cb_check (d, 1 + h % 12, what);
    iot_data_free (d);
  }
  mc_state (mc_mix (mc_mix ((uint64_t) t, (uint64_t) part), (uint64_t) low));
}
static void s_clen (void)
{
  static const uint32_t lens[] = { 0, 1, 2, 22, 23, 24, 25, 254, 255, 256, 257, 509, 510, 511, 512, 513, 1023, 1024, 1025, 4094, 4096, 4097, 5120, 65534, 65535, 65536, 65537, 70000 };
  static const uint32_t szs[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 256, 257, 258, 511, 512, 513, 514, 4095, 4096, 4097, 5000, 65535, 65536, 70001, 200000 };
  dd_begin ();
  uint32_t n = lens[mc_choose (28)]; int kind = mc_choose (6), wrap = mc_choose (2);
  char what[100]; snprintf (what, sizeof (what), "kind %d of length %u%s", kind, n, wrap ? " in a vector" : "");
  mc_log ("%s\n", what);
  iot_data_t * d;
  char * s = malloc (n + 1); for (uint32_t i = 0; i < n; i++) s[i] = (char) ('a' + i % 26); s[n] = 0;
  switch (kind)
  {
    case 0: d = iot_data_alloc_string (s, IOT_DATA_COPY); break;
    case 1: d = iot_data_alloc_binary (s, n, IOT_DATA_COPY); break;
    case 2: d = iot_data_alloc_array (s, n, IOT_DATA_UINT8, IOT_DATA_COPY); break;
    case 3: d = iot_data_alloc_vector (n); for (uint32_t i = 0; i < n; i += 3) iot_data_vector_add (d, i, iot_data_alloc_ui32 (i)); break;
    case 4: d = iot_data_alloc_list (); for (uint32_t i = 0; i < n; i++) iot_data_list_tail_push (d, iot_data_alloc_ui32 (i)); break;
    default: d = iot_data_alloc_map (IOT_DATA_UINT32); for (uint32_t i = 0; i < n; i++) iot_data_map_add (d, iot_data_alloc_ui32 (i), iot_data_alloc_bool (i & 1)); break;
  }
  free (s);
  if (wrap) { iot_data_t * v = iot_data_alloc_vector (2); iot_data_vector_add (v, 0, d); iot_data_vector_add (v, 1, iot_data_add_ref (d)); d = v; }
  int nz = n > 10000 && kind > 2 ? 4 : (int) (sizeof (szs) / sizeof (szs[0]));
  for (int z = 0; z < nz; z++) cb_check (d, szs[z], what);
  mc_state (mc_mix_str (1, what));
  iot_data_free (d);
  dd_leaks ("writing CBOR");
}
static const char * const cleaf[] = { "u8:5", "i8:-5", "s:1'a'", "s:0''", "b:1", "null", "B<u8>2[fbff]", "B<u8>0[]", "A<u8>2[0500]", "A<i16>0[]", "f64:0x1.999999999999ap-4", "f32:0x0p+0", "V<multi>()", "L<multi>()", "M<str,multi>{}", "V<multi>(_,u8:30)", "L<multi>(s:1'b',u16:300)", "M<i8,multi>{i8:3=u8:1,i8:4=b:0}", "M<multi,multi>{u8:3=s:1'x',s:1'q'=V<multi>(null,_)}" };
#define NCL 19
static void s_ctree (void)
{
  dd_begin ();
  static sb a;
  int kind = mc_choose (4), n = mc_choose ((int) mc_param ("width", 3) + 1), nest = mc_choose (3);
  sb_reset (&a);
  static const char * const op[] = { "V<multi>(", "L<multi>(", "M<str,multi>{", "M<u16,multi>{" };
  for (int i = 0; i < nest; i++) sb_add (&a, i == 0 ? "V<multi>(i8:1," : "M<str,multi>{s:1'k'=");
  sb_add (&a, "%s", op[kind]);
  for (int i = 0; i < n; i++) { if (i) sb_add (&a, ","); if (kind == 2) sb_add (&a, "s:1'%c'=", 'a' + i); if (kind == 3) sb_add (&a, "u16:%d=", i * 300); sb_add (&a, "%s", cleaf[mc_choose (NCL)]); }
  sb_add (&a, kind < 2 ? ")" : "}");
  for (int i = nest - 1; i >= 0; i--) sb_add (&a, i == 0 ? ")" : "}");
  iot_data_t * d = dd_make (a.s);
  mc_log ("%s\n", a.s);
  cb_all (d, a.s);
  iot_data_free (d);
  dd_leaks ("writing CBOR");
}
/* ---------------------------------------------------------------- base64 */
static const char b64a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_enc (const uint8_t * p, size_t n, char * o)
{
  size_t k = 0;
  for (size_t bit = 0; bit < n * 8; bit += 6)
  {
    int v = 0;
    for (size_t b = bit; b < bit + 6; b++) v = v << 1 | (b < n * 8 ? (p[b / 8] >> (7 - b % 8)) & 1 : 0);
    o[k++] = b64a[v];
  }
  while (k % 4) o[k++] = '=';
  o[k] = 0;
  return k;
}
/* reference decoding: -1 refused; trailing: symbols that do not make up a byte are dropped */
static int ref_dec (const char * t, uint8_t * o)
{
  int n = 0; unsigned acc = 0, bits = 0;
  for (; *t; t++)
  {
    if (*t == '\n') continue;
    if (*t == '=') break;
    const char * f = strchr (b64a, *t);
    if (!f) return -1;
    acc = acc << 6 | (unsigned) (f - b64a); bits += 6;
    if (bits >= 8) { bits -= 8; o[n++] = (uint8_t) (acc >> bits); }
    acc &= (1u << bits) - 1;
  }
  return n;
}
static void dec_check (const char * t, int only)
{
  uint8_t want[300];
  int n = ref_dec (t, want);
  size_t len = strlen (t), max = iot_b64_maxdecodesize (t);
  char * in = malloc (len + 1); memcpy (in, t, len + 1);
  if (n > 0) MC_CHECK (max >= (size_t) n, "maxsize", "'%s' decodes to %d bytes but the predicted maximum is %zu", t, n, max);
  int top = n < 0 ? (int) len : n + 1;
  for (int sz = only >= 0 ? only : 0; sz <= (only >= 0 ? only : top); sz++)
  {
    uint8_t * out = malloc ((size_t) sz + 16);
    memset (out, 0x5a, (size_t) sz + 16);
    size_t ol = (size_t) sz;
    bool r = iot_b64_decode (in, out, &ol);
    for (int i = sz; i < sz + 16; i++) MC_CHECK (out[i] == 0x5a, "overrun", "decoding '%s' wrote past an output of %d bytes", t, sz);
    if (n < 0) MC_CHECK (!r, "accept", "invalid text '%s' decoded", t);
    else if (n > sz) MC_CHECK (!r, "accept", "'%s' decoded into %d bytes but has %d", t, sz, n);
    else
    {
      MC_CHECK (r, "refuse", "'%s' refused with room for %d bytes", t, sz);
      MC_CHECK (ol == (size_t) n, "length", "'%s' decodes to %zu bytes instead of %d", t, ol, n);
      MC_CHECK (!n || !memcmp (out, want, (size_t) n), "value", "'%s' decodes to other bytes", t);
    }
    free (out);
    mc_trans (1);
  }
  free (in);
}
static void round_trip (const uint8_t * p, size_t n, bool breaks)
{
  char want[800];
  size_t k = ref_enc (p, n, want);
  size_t need = iot_b64_encodesize (n);
  MC_CHECK (need >= k + 1, "encsize", "encoding of %zu bytes needs %zu, predicted %zu", n, k + 1, need);
  uint8_t * in = malloc (n ? n : 1); memcpy (in, p, n);
  char * out = malloc (need);
  MC_CHECK (iot_b64_encode (in, n, out, need), "encode", "encoding %zu bytes refused", n);
  MC_CHECK (!strcmp (out, want), "encode", "%zu bytes (%02x %02x %02x..) encode to '%s' instead of '%s'", n, n ? p[0] : 0, n > 1 ? p[1] : 0, n > 2 ? p[2] : 0, out, want);
  free (out);
  dec_check (want, n < 3 ? -1 : (int) n);
  if (n >= 3) { dec_check (want, (int) n - 1); dec_check (want, (int) n + 1); }
  if (breaks)
  {
    char t[900]; size_t j = 0;
    for (size_t i = 0; i < k; i++) { t[j++] = want[i]; if (i % 3 == 1) t[j++] = '\n'; }
    t[j++] = '\n'; t[j] = 0;
    dec_check (t, (int) n);
    for (size_t pos = 0; pos <= k; pos++) { memcpy (t, want, pos); t[pos] = '\n'; strcpy (t + pos + 1, want + pos); dec_check (t, (int) n); }
  }
  free (in);
  mc_trans (1);
}
static void s_benc (void)
{
  dd_begin ();
  int hi = mc_choose (256);
  uint8_t b[8] = { (uint8_t) hi };
  mc_log ("first byte %d\n", hi);
  if (hi == 0) round_trip (b, 0, true);
  round_trip (b, 1, true);
  for (int lo = 0; lo < 256; lo++) { b[1] = (uint8_t) lo; round_trip (b, 2, lo % 16 == 0); for (int x = 0; x < 8; x++) { static const uint8_t c[] = { 0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xff }; b[2] = c[x]; round_trip (b, 3, false); } }
  mc_state ((uint64_t) hi);
  dd_leaks ("base64");
}
static void s_blong (void)
{
  static const uint8_t c[] = { 0, 0xff, 0x55, 0xfb };
  dd_begin ();
  int n = 3 + mc_choose ((int) mc_param ("len", 7) - 2);
  uint8_t b[16];
  for (int i = 0; i < n; i++) b[i] = c[mc_choose (4)];
  round_trip (b, (size_t) n, true);
  size_t need = iot_b64_encodesize ((size_t) n);
  for (size_t s = 0; s < need; s++)
  {
    char * o = malloc (s + 16); memset (o, 0x5a, s + 16);
    MC_CHECK (!iot_b64_encode (b, (size_t) n, o, s), "encode", "encoding %d bytes into %zu accepted", n, s);
    for (size_t i = s; i < s + 16; i++) MC_CHECK (o[i] == 0x5a, "overrun", "encoding wrote past the output");
    free (o);
  }
  mc_state (mc_mix_bytes (1, b, (size_t) n));
  dd_leaks ("base64");
}
static void s_bsize (void)
{
  dd_begin ();
  int n = mc_choose (200), pat = mc_choose (3);
  uint8_t b[256];
  for (int i = 0; i < n; i++) b[i] = (uint8_t) (pat == 0 ? i * 7 + 3 : pat == 1 ? 255 - i : i % 3 * 0x55);
  round_trip (b, (size_t) n, true);
  mc_state (mc_mix ((uint64_t) n, (uint64_t) pat));
  dd_leaks ("base64");
}
static void s_bdec (void)
{
  static const char al[] = { 'A', 'Q', '/', '+', '9', 'z', '=', '\n', '-', ' ', (char) 0x80, (char) 0xff, '_' };
  dd_begin ();
  int len = mc_choose ((int) mc_param ("len", 5) + 1);
  char t[16];
  for (int i = 0; i < len; i++) t[i] = al[mc_choose (13)];
  t[len] = 0;
  dec_check (t, -1);
  mc_state (mc_mix_str (1, t));
  dd_leaks ("base64");
}
static void s_bchar (void)
{
  dd_begin ();
  int c = 1 + mc_choose (255);
  static const char * const base[] = { "A", "QUJD", "QUI=", "QQ==", "QUJDRA==", "QUJD\nREVG", "++//" };
  for (int k = 0; k < 7; k++) for (size_t p = 0; p <= strlen (base[k]); p++)
  {
    char t[32]; strcpy (t, base[k]);
    if (p < strlen (base[k])) { t[p] = (char) c; dec_check (t, -1); }
    memcpy (t, base[k], p); t[p] = (char) c; strcpy (t + p + 1, base[k] + p);
    dec_check (t, -1);
  }
  mc_state ((uint64_t) c);
  dd_leaks ("base64");
}
/* --------------------------------------------------------- configuration */
static int errors;
static void count_log (struct iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * m, const void * ctx) { if (level == IOT_LOG_ERROR) errors++; }
static void quiet (void) { static bool q; if (!q) { q = true; if (!freopen ("/dev/null", "w", stderr)) abort (); setvbuf (stderr, NULL, _IONBF, 0); } iot_logger_default (); }
static iot_logger_t * mklog (bool deflt)
{
  errors = 0;
  iot_logger_t * l = iot_logger_alloc_custom ("c", IOT_LOG_ERROR, true, NULL, count_log, NULL, NULL);
  if (deflt) iot_logger_set_next (iot_logger_default (), l);
  return l;
}
static void rmlog (iot_logger_t * l, bool deflt) { if (deflt) iot_logger_set_next (iot_logger_default (), NULL); iot_logger_free (l); }
static bool ref_subst (const char * s, sb * o)
{
  sb_reset (o);
  while (*s)
  {
    const char * e;
    if (s[0] == '$' && s[1] == '{' && (e = strchr (s + 2, '}')))
    {
      size_t n = (size_t) (e - s - 2); char name[200];
      if (n == 0 || n > 63) return false;
      memcpy (name, s + 2, n); name[n] = 0;
      const char * v = NULL;
      for (char ** p = environ; *p; p++) if (!strncmp (*p, name, n) && (*p)[n] == '=') v = *p + n + 1;
      if (!v) return false;
      sb_add (o, "%s", v);
      s = e + 1;
    }
    else { char c[2] = { *s++, 0 }; sb_add (o, "%s", c); }
  }
  return true;
}
static void subst_check (const char * t, bool deflt)
{
  static sb want;
  bool ok = ref_subst (t, &want);
  iot_logger_t * l = mklog (deflt);
  char * in = strdup (t);
  char * r = iot_config_substitute_env (in, deflt ? NULL : l);
  free (in);
  if (ok) { MC_CHECK (r && !strcmp (r, want.s), "subst", "'%s' gives '%s' instead of '%s'", t, r ? r : "nothing", want.s); MC_CHECK (errors == 0, "log", "error logged for '%s'", t); }
  else { MC_CHECK (!r, "subst", "'%s' gives '%s' instead of nothing", t, r); MC_CHECK (errors > 0, "log", "no error logged for '%s'", t); }
  free (r);
  rmlog (l, deflt);
  mc_trans (1); mc_state (mc_mix_str (ok, want.s)); mc_outcome (ok);
}
static void s_schars (void)
{
  static const char * const tok[] = { "$", "{", "}", "A", "B", "_", "${A}", "${B}", "${A" };
  static const char * const va[] = { NULL, "", "x", "${B}", "0123456789", "}${A}{" };
  char t[100] = "";
  int v = mc_choose (6), n = mc_choose ((int) mc_param ("len", 5) + 1);
  if (va[v]) setenv ("A", va[v], 1); else unsetenv ("A");
  if (v & 1) setenv ("B", "bb", 1); else unsetenv ("B");
  setenv ("A${B", "w", 1); unsetenv ("AB"); if (v == 2) setenv ("AB", "ab", 1);
  dd_begin ();
  for (int i = 0; i < n; i++) strcat (t, tok[mc_choose (9)]);
  mc_log ("A=%s '%s'\n", va[v] ? va[v] : "(unset)", t);
  subst_check (t, false);
  dd_leaks ("substitution");
}
static void s_ssize (void)
{
  static const int lens[] = { 0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000 };
  static const int names[] = { 1, 2, 3, 8, 31, 32, 61, 62, 63, 64, 65, 66, 100 };
  int vl = lens[mc_choose (22)], nl = names[mc_choose (13)], refs = 1 + mc_choose (3), deflt = mc_choose (2);
  static char t[4000], val[1100], name[200];
  memset (name, 'N', (size_t) nl); name[nl] = 0;
  for (int i = 0; i < vl; i++) val[i] = (char) ('a' + i % 26);
  val[vl] = 0;
  setenv (name, val, 1); quiet ();
  dd_begin ();
  for (int pre = 0; pre < 6; pre++) for (int post = 0; post < 6; post++)
  {
    static const int pl[] = { 0, 1, 2, 7, 40, 300 };
    t[0] = 0;
    for (int i = 0; i < pl[pre]; i++) strcat (t, i % 7 == 6 ? "$" : "p");
    for (int i = 0; i < refs; i++) { strcat (t, "${"); strcat (t, name); strcat (t, i % 2 ? "}-" : "}"); }
    for (int i = 0; i < pl[post]; i++) strcat (t, "q");
    subst_check (t, deflt);
  }
  unsetenv (name);
  strcpy (t, "${"); strcat (t, name); strcat (t, "}");
  subst_check (t, deflt);
  dd_leaks ("substitution");
}
/* typed getters */
static const char * const gval[] = { NULL, "i8:-5", "u8:5", "i16:-300", "u16:40000", "i32:-2147483648", "u32:4294967295", "i64:-9223372036854775808", "u64:18446744073709551615", "i64:4294967296", "f32:0x1.8p+1", "f64:0x1p+70", "f64:-0x1.8p+1", "b:1", "b:0", "s:1'7'", "s:4'true'", "s:0''", "null", "V<multi>(i8:1)", "L<multi>(i8:1)", "M<str,multi>{s:1'z'=i8:1}", "A<u8>2[0500]", "B<u8>1[05]" };
#define NGV 24
static void s_getters (void)
{
  quiet ();
  dd_begin ();
  int vi = mc_choose (NGV), typed = mc_choose (2), deflt = mc_choose (2);
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING), * v = gval[vi] ? dd_make (gval[vi]) : NULL;
  if (typed && v) { iot_data_free (map); map = iot_data_alloc_typed_map (IOT_DATA_STRING, iot_data_type (v)); }
  if (v) iot_data_string_map_add (map, "key", v);
  iot_data_type_t t = v ? iot_data_type (v) : IOT_DATA_INVALID;
  iot_logger_t * l = mklog (deflt), * pl = deflt ? NULL : l;
  mc_log ("%s\n", gval[vi] ? gval[vi] : "(absent)");
  num src = { -1 };
  if (v && t <= IOT_DATA_BOOL) { src.type = (int) t; const void * p = iot_data_address (v); switch (t) { case IOT_DATA_INT8: src.i = *(int8_t *) p; break; case IOT_DATA_UINT8: src.i = *(uint8_t *) p; break; case IOT_DATA_INT16: src.i = *(int16_t *) p; break; case IOT_DATA_UINT16: src.i = *(uint16_t *) p; break; case IOT_DATA_INT32: src.i = *(int32_t *) p; break; case IOT_DATA_UINT32: src.i = *(uint32_t *) p; break; case IOT_DATA_INT64: src.i = *(int64_t *) p; break; case IOT_DATA_UINT64: src.i = *(uint64_t *) p; break; case IOT_DATA_FLOAT32: src.f = *(float *) p; break; case IOT_DATA_FLOAT64: src.f = *(double *) p; break; default: src.i = *(bool *) p; } }
  static const int to[] = { IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_BOOL, IOT_DATA_FLOAT64 };
  for (int k = 0; k < 6; k++)
  {
    uint64_t out = 0xa5a5a5a5a5a5a5a5ull, want = out; num w;
    bool r = false; errors = 0;
    switch (k) { case 0: r = iot_config_i64 (map, "key", (int64_t *) &out, pl); break; case 1: r = iot_config_ui64 (map, "key", &out, pl); break; case 2: r = iot_config_i32 (map, "key", (int32_t *) &out, pl); break; case 3: r = iot_config_ui32 (map, "key", (uint32_t *) &out, pl); break; case 4: r = iot_config_bool (map, "key", (bool *) &out, pl); break; default: r = iot_config_f64 (map, "key", (double *) &out, pl); }
    int exp = src.type >= 0 ? ref_cast (&src, to[k], &w) : 0;
    if (exp) num_raw (&w, &want);
    MC_CHECK (r == (exp == 1), "getter", "%s getter of %s reports %d", dd_tn[to[k]], gval[vi] ? gval[vi] : "(absent)", r);
    MC_CHECK (out == want, "getter", "%s getter of %s delivers %" PRIx64 " instead of %" PRIx64, dd_tn[to[k]], gval[vi] ? gval[vi] : "(absent)", out, want);
    MC_CHECK ((errors > 0) == !r, "log", "%s getter of %s: result %d, %d errors logged%s", dd_tn[to[k]], gval[vi] ? gval[vi] : "(absent)", r, errors, deflt ? " (default logger)" : "");
    mc_trans (1);
  }
  const char * sv = t == IOT_DATA_STRING && v ? iot_data_string (v) : NULL;
  for (int alloc = 0; alloc < 2; alloc++)
  {
    errors = 0;
    const char * s = iot_config_string (map, "key", alloc, pl);
    MC_CHECK (sv ? s && !strcmp (s, sv) && (alloc ? s != sv : true) : !s, "string", "string getter gives '%s'", s ? s : "nothing");
    MC_CHECK ((errors > 0) == !s, "log", "string getter, %d errors logged", errors);
    if (alloc) free ((char *) s);
    for (int d = 0; d < 2; d++)
    {
      const char * def = d ? "deflt" : NULL, * e = sv ? sv : def;
      s = iot_config_string_default (map, "key", def, alloc);
      MC_CHECK (e ? s && !strcmp (s, e) && (!alloc || (s != sv && s != def)) : !s, "string", "string getter with default gives '%s'", s ? s : "nothing");
      if (alloc) free ((char *) s);
    }
  }
  errors = 0;
  MC_CHECK (iot_config_map (map, "key", pl) == (t == IOT_DATA_MAP && v ? v : NULL), "getter", "map getter");
  MC_CHECK ((errors > 0) == !(v && t == IOT_DATA_MAP), "log", "map getter, %d errors", errors);
  errors = 0;
  MC_CHECK (iot_config_vector (map, "key", pl) == (t == IOT_DATA_VECTOR && v ? v : NULL), "getter", "vector getter");
  MC_CHECK ((errors > 0) == !(v && t == IOT_DATA_VECTOR), "log", "vector getter, %d errors", errors);
  rmlog (l, deflt);
  iot_data_free (map);
  mc_state (mc_mix (mc_mix ((uint64_t) vi, (uint64_t) typed), (uint64_t) deflt));
  dd_leaks ("configuration getters");
}
/* A component named by the configuration is found in the container */
static iot_component_t * gc_config (iot_container_t * k, const iot_data_t * m);
static void gc_free (iot_component_t * c) { iot_component_fini (c); free (c); }
static iot_component_factory_t gc_factory = { "GC", NULL, gc_config, gc_free, NULL, NULL };
static void gc_none (iot_component_t * c) { }
static iot_component_t * gc_config (iot_container_t * k, const iot_data_t * m) { iot_component_t * c = calloc (1, sizeof (*c)); iot_component_init (c, &gc_factory, gc_none, gc_none); return c; }
static void s_comp (void)
{
  quiet ();
  int vi = mc_choose (NGV + 2), deflt = mc_choose (2), present = mc_choose (3);
  static bool added; if (!added) iot_component_factory_add (&gc_factory); added = true;
  iot_container_t * k = iot_container_alloc ("k");
  if (present) iot_container_add_component (k, "GC", "here", "{}");
  if (present > 1) iot_container_add_component (k, "GC", "there", "{}");
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING), * v = vi >= NGV ? iot_data_alloc_string (vi == NGV ? "here" : "there", IOT_DATA_REF) : gval[vi] ? dd_make (gval[vi]) : NULL;
  if (v) iot_data_string_map_add (map, "key", v);
  iot_logger_t * l = mklog (deflt);
  iot_component_t * c = iot_config_component (map, "key", k, deflt ? NULL : l);
  const char * want = vi == NGV && present ? "here" : vi > NGV && present > 1 ? "there" : NULL;
  mc_log ("value %d, %d components\n", vi, present);
  MC_CHECK ((c != NULL) == (want != NULL) && (!c || !strcmp (c->name, want)), "component", "component '%s' found instead of '%s'", c ? c->name : "none", want ? want : "none");
  MC_CHECK ((errors > 0) == !c, "log", "component getter, %d errors", errors);
  rmlog (l, deflt);
  iot_data_free (map);
  iot_container_free (k);
  mc_trans (1); mc_state (mc_mix ((uint64_t) vi * 2 + (uint64_t) deflt, (uint64_t) present));
}
static const mc_space spaces[] = {
  { "cscalar", s_cscalar, "boundary values of every numeric type in five forms, every initial size" },
  { "csweep", s_csweep, "every 16 bit pattern, as the upper half of wider types" },
  { "clen", s_clen, "lengths around every header size and buffer growth limit" },
  { "ctree", s_ctree, "containers of every combination of leaves, nested" },
  { "benc", s_benc, "encoding of every sequence of up to two bytes, and boundary third bytes" },
  { "blong", s_blong, "longer sequences of boundary bytes, with line breaks, every smaller output" },
  { "bsize", s_bsize, "every length up to 199" },
  { "bdec", s_bdec, "every text over a 13 character alphabet, every output size" },
  { "bchar", s_bchar, "every character at every position" },
  { "schars", s_schars, "every token sequence" },
  { "ssize", s_ssize, "value, name and surrounding lengths around every limit" },
  { "getters", s_getters, "every getter on every kind of value" },
  { "comp", s_comp, "the component getter on every kind of value, names of present and absent components" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
