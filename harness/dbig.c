/* D01 D03 D04 D05 D06 D07 D08 D09 D12 D13: sizes around every width a length or index could be kept in */
#include "dd.h"
static const uint32_t sizes[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000 };
#define NSZ (sizeof (sizes) / sizeof (sizes[0]))
static uint32_t size_of (void) { uint32_t n = sizes[mc_choose ((int) NSZ)]; if (n > (uint32_t) mc_param ("max", 100000)) mc_prune (); return n; }
static void thin (uint32_t n, uint32_t at) { if (n > 1100 && ((n != 4096 && n != 32768 && n != 65537) || (at != n - 1 && at != 256))) mc_prune (); } /* maps take their time */
static uint32_t spots[12]; static int nspot;
static void spot (uint32_t n, uint32_t i) { if (i >= n) return; for (int k = 0; k < nspot; k++) if (spots[k] == i) return; spots[nspot++] = i; }
static uint32_t spot_of (uint32_t n) { nspot = 0; spot (n, 0); spot (n, 1); spot (n, n / 2); spot (n, n - 1); if (n > 1) spot (n, n - 2); spot (n, 127); spot (n, 128); spot (n, 255); spot (n, 256); spot (n, 32768); spot (n, 65535); spot (n, 65536); return spots[mc_choose (nspot)]; }
static iot_data_t * num (int64_t v) { return iot_data_alloc_i32 ((int32_t) v); }
static int64_t val (const iot_data_t * d) { return d && iot_data_type (d) == IOT_DATA_INT32 ? iot_data_i32 (d) : INT64_MIN; }
static bool is (const iot_data_t * d, const void * arg) { return val (d) == *(const int64_t *) arg; }
static bool isp (const iot_data_t * d, const void * arg) { return is (d, arg); }
/* ------------------------------------------------------------------ lists */
static void s_list (void)
{
  dd_begin ();
  uint32_t n = size_of (); int how = mc_choose (3), end = mc_choose (3); uint32_t at = spot_of (n);
  static int64_t q[140010]; uint32_t lo = 70005, hi = 70005; /* lo..hi-1: iteration order */
  mc_log ("list of %u pushed %s, element %u\n", n, how == 0 ? "at the head" : how == 1 ? "at the tail" : "at both ends", at);
  iot_data_t * l = iot_data_alloc_list ();
  for (uint32_t i = 0; i < n; i++)
  {
    if (how == 0 || (how == 2 && i % 2)) { iot_data_list_head_push (l, num (i)); q[hi++] = i; }
    else { iot_data_list_tail_push (l, num (i)); q[--lo] = i; }
  }
  for (int pass = 0; pass < 2; pass++)
  {
    uint32_t len = hi - lo;
    MC_CHECK (iot_data_list_length (l) == len && iot_data_length (l) == len, "length", "length %u of %u", iot_data_list_length (l), len);
    iot_data_list_iter_t it; iot_data_list_iter (l, &it);
    uint32_t k = 0;
    while (iot_data_list_iter_next (&it)) { MC_CHECK (k < len && val (iot_data_list_iter_value (&it)) == q[lo + k], "iterate", "element %u reads %ld", k, (long) val (iot_data_list_iter_value (&it))); MC_CHECK (iot_data_list_iter_has_next (&it) == (k + 1 < len), "iterate", "has_next at %u", k); k++; }
    MC_CHECK (k == len, "iterate", "%u elements visited of %u", k, len);
    iot_data_list_iter (l, &it);
    while (iot_data_list_iter_prev (&it)) { k--; MC_CHECK (k < len && val (iot_data_list_iter_value (&it)) == q[lo + k], "iterate", "backwards, element %u reads %ld", k, (long) val (iot_data_list_iter_value (&it))); }
    MC_CHECK (k == 0, "iterate", "backwards, %u elements left", k);
    if (pass) break;
    int64_t w = q[lo + at];
    MC_CHECK (val (iot_data_list_find (l, is, &w)) == w, "find", "element not found");
    iot_data_list_iter (l, &it);
    if (end == 2) { for (k = 0; k <= at; k++) iot_data_list_iter_next (&it); MC_CHECK (iot_data_list_iter_remove (&it), "remove", "not removed"); }
    else MC_CHECK (iot_data_list_remove (l, is, &w), "remove", "not removed");
    MC_CHECK (!iot_data_list_find (l, isp, &w), "remove", "still found");
    memmove (&q[lo + at], &q[lo + at + 1], (hi - lo - at - 1) * sizeof (q[0])); hi--;
  }
  while (hi > lo)
  {
    int64_t w = end == 0 ? q[--hi] : q[lo++];
    iot_data_t * d = end == 0 ? iot_data_list_head_pop (l) : iot_data_list_tail_pop (l);
    MC_CHECK (val (d) == w, "pop", "popped %ld, not %ld", (long) val (d), (long) w);
    iot_data_free (d);
  }
  MC_CHECK (!iot_data_list_length (l) && !iot_data_list_head_pop (l) && !iot_data_list_tail_pop (l), "pop", "not empty");
  iot_data_free (l);
  mc_state (mc_mix (n, at)); mc_trans (n);
  dd_leaks ("list");
}
/* ---------------------------------------------------------------- vectors */
static void s_vec (void)
{
  dd_begin ();
  uint32_t n = size_of (), at = spot_of (n); int op = mc_choose (5);
  static const char * const on[] = { "read", "emptied and compacted", "resized", "made an array", "two dimensions" };
  mc_log ("vector of %u, slot %u, %s\n", n, at, on[op]);
  iot_data_t * v = iot_data_alloc_vector (n);
  for (uint32_t i = 0; i < n; i++) iot_data_vector_add (v, i, num (i));
  MC_CHECK (iot_data_vector_size (v) == n && iot_data_length (v) == n, "size", "size %u", iot_data_vector_size (v));
  for (uint32_t i = 0; i < n; i++) MC_CHECK (val (iot_data_vector_get (v, i)) == i, "slot", "slot %u reads %ld", i, (long) val (iot_data_vector_get (v, i)));
  iot_data_vector_iter_t it;
  uint32_t k;
  switch (op)
  {
    case 0:
      iot_data_vector_add (v, at, num (-5));
      iot_data_vector_iter (v, &it);
      for (k = 0; iot_data_vector_iter_next (&it); k++) { MC_CHECK (iot_data_vector_iter_index (&it) == k && val (iot_data_vector_iter_value (&it)) == (k == at ? -5 : (int64_t) k), "iterate", "slot %u, index %u, reads %ld", k, iot_data_vector_iter_index (&it), (long) val (iot_data_vector_iter_value (&it))); }
      MC_CHECK (k == n, "iterate", "%u slots visited", k);
      iot_data_vector_iter (v, &it);
      for (k = n; iot_data_vector_iter_prev (&it); ) { k--; MC_CHECK (iot_data_vector_iter_index (&it) == k && val (iot_data_vector_iter_value (&it)) == (k == at ? -5 : (int64_t) k), "iterate", "backwards, slot %u", k); }
      MC_CHECK (k == 0, "iterate", "backwards, %u slots left", k);
      { int64_t w = -5; MC_CHECK (val (iot_data_vector_find (v, is, &w)) == -5, "find", "not found"); }
      MC_CHECK (iot_data_vector_element_count (v, IOT_DATA_INT32, false) == n, "count", "element count %u", iot_data_vector_element_count (v, IOT_DATA_INT32, false));
      break;
    case 1:
      iot_data_vector_add (v, at, NULL); if (at + 2 < n) iot_data_vector_add (v, at + 2, NULL);
      { uint32_t want = n - 1 - (at + 2 < n), r = iot_data_vector_compact (v), c = 0;
      MC_CHECK (r == want && iot_data_vector_size (v) == want, "compact", "compacted to %u (size %u), expected %u", r, iot_data_vector_size (v), want);
      for (k = 0; k < n; k++) if (k != at && k != at + 2) { MC_CHECK (val (iot_data_vector_get (v, c)) == k, "compact", "slot %u reads %ld", c, (long) val (iot_data_vector_get (v, c))); c++; } }
      break;
    case 2:
      iot_data_vector_resize (v, at + 1);
      MC_CHECK (iot_data_vector_size (v) == at + 1, "size", "size %u after resizing to %u", iot_data_vector_size (v), at + 1);
      iot_data_vector_resize (v, n + at);
      MC_CHECK (iot_data_vector_size (v) == n + at, "size", "size %u after resizing to %u", iot_data_vector_size (v), n + at);
      for (k = 0; k < n + at; k++) MC_CHECK (k <= at ? val (iot_data_vector_get (v, k)) == k : iot_data_vector_get (v, k) == NULL, "slot", "slot %u", k);
      break;
    case 3:
    {
      iot_data_t * a = iot_data_vector_to_array (v, IOT_DATA_INT16, false); /* values above 32767 do not fit */
      uint32_t fit = n < 32768 ? n : 32768;
      MC_CHECK (iot_data_array_length (a) == fit, "convert", "array of %u", iot_data_array_length (a));
      for (k = 0; k < fit; k++) MC_CHECK (((const int16_t *) iot_data_address (a))[k] == (int16_t) k, "convert", "element %u", k);
      iot_data_free (a);
      a = iot_data_vector_to_vector (v, IOT_DATA_UINT64, false);
      MC_CHECK (iot_data_vector_size (a) == n, "convert", "vector of %u", iot_data_vector_size (a));
      for (k = 0; k < n; k++) MC_CHECK (iot_data_ui64 (iot_data_vector_get (a, k)) == k, "convert", "element %u", k);
      iot_data_free (a);
      break;
    }
    default:
    {
      iot_data_t * o = iot_data_alloc_vector (2); iot_data_vector_add (o, 0, v); iot_data_vector_add (o, 1, iot_data_add_ref (v)); v = o;
      uint32_t total = 0; iot_data_t * dim = iot_data_vector_dimensions (v, &total);
      MC_CHECK (dim && total == 2 * n && iot_data_array_length (dim) == 2 && ((const uint32_t *) iot_data_address (dim))[0] == 2 && ((const uint32_t *) iot_data_address (dim))[1] == n, "dimensions", "dimensions of 2 x %u, total %u", n, total);
      iot_data_free (dim);
      MC_CHECK (iot_data_vector_element_count (v, IOT_DATA_INT32, true) == 2 * n, "count", "element count %u", iot_data_vector_element_count (v, IOT_DATA_INT32, true));
      iot_data_t * a = iot_data_vector_to_array (v, IOT_DATA_INT32, true);
      MC_CHECK (iot_data_array_length (a) == 2 * n, "convert", "array of %u", iot_data_array_length (a));
      for (k = 0; k < 2 * n; k++) MC_CHECK (((const int32_t *) iot_data_address (a))[k] == (int32_t) (k % n), "convert", "element %u", k);
      iot_data_free (a);
    }
  }
  iot_data_free (v);
  mc_state (mc_mix (n, at)); mc_trans (n);
  dd_leaks ("vector");
}
/* ----------------------------------------------------------------- arrays */
static const struct { iot_data_type_t t; uint32_t w; } el[] = { { IOT_DATA_INT8, 1 }, { IOT_DATA_UINT8, 1 }, { IOT_DATA_INT16, 2 }, { IOT_DATA_UINT16, 2 }, { IOT_DATA_INT32, 4 }, { IOT_DATA_UINT32, 4 }, { IOT_DATA_INT64, 8 }, { IOT_DATA_UINT64, 8 }, { IOT_DATA_FLOAT32, 4 }, { IOT_DATA_FLOAT64, 8 }, { IOT_DATA_BOOL, 1 } };
static uint8_t byte (uint32_t i) { return (uint8_t) ((i ^ i >> 8 ^ i >> 16) & 0x3f); }
static void s_arr (void)
{
  dd_begin ();
  uint32_t n = size_of (); int e = mc_choose (11), own = mc_choose (3);
  uint32_t bytes = n * el[e].w;
  mc_log ("array of %u of type %s, %s\n", n, iot_data_type_string (el[e].t), own == 0 ? "copied" : own == 1 ? "taken" : "referenced");
  uint8_t * b = malloc (bytes); for (uint32_t i = 0; i < bytes; i++) b[i] = el[e].t == IOT_DATA_BOOL ? i & 1 : byte (i);
  uint8_t * keep = malloc (bytes); memcpy (keep, b, bytes);
  iot_data_t * a = iot_data_alloc_array (b, n, el[e].t, own == 0 ? IOT_DATA_COPY : own == 1 ? IOT_DATA_TAKE : IOT_DATA_REF);
  MC_CHECK (iot_data_array_length (a) == n && iot_data_length (a) == n, "length", "length %u", iot_data_array_length (a));
  MC_CHECK (iot_data_array_size (a) == bytes, "size", "size %u of %u", iot_data_array_size (a), bytes);
  MC_CHECK (!memcmp (iot_data_address (a), keep, bytes), "content", "content changed");
  iot_data_array_iter_t it; iot_data_array_iter (a, &it);
  uint32_t k = 0;
  for (; iot_data_array_iter_next (&it); k++) MC_CHECK (iot_data_array_iter_index (&it) == k && !memcmp (iot_data_array_iter_value (&it), keep + (size_t) k * el[e].w, el[e].w), "iterate", "element %u, index %u", k, iot_data_array_iter_index (&it));
  MC_CHECK (k == n, "iterate", "%u elements visited", k);
  iot_data_array_iter (a, &it);
  for (; iot_data_array_iter_prev (&it); ) { k--; MC_CHECK (iot_data_array_iter_index (&it) == k && !memcmp (iot_data_array_iter_value (&it), keep + (size_t) k * el[e].w, el[e].w), "iterate", "backwards, element %u", k); }
  MC_CHECK (k == 0, "iterate", "backwards, %u left", k);
  if (el[e].t != IOT_DATA_BOOL && el[e].t != IOT_DATA_FLOAT32 && el[e].t != IOT_DATA_FLOAT64)
  {
    iot_data_t * w = iot_data_array_transform (a, IOT_DATA_UINT64);
    bool fits = true; /* bytes are below 64: every element is positive */
    MC_CHECK (iot_data_array_length (w) == n, "transform", "%u of %u elements", iot_data_array_length (w), n);
    for (k = 0; k < n && fits; k++) { uint64_t x = 0; memcpy (&x, keep + (size_t) k * el[e].w, el[e].w); MC_CHECK (((const uint64_t *) iot_data_address (w))[k] == x, "transform", "element %u", k); }
    iot_data_free (w);
  }
  iot_data_t * c = iot_data_copy (a);
  MC_CHECK (iot_data_equal (a, c), "content", "the copy differs");
  iot_data_free (c);
  if (own == 2 && el[e].t == IOT_DATA_UINT8)
  {
    iot_data_array_to_binary (a);
    MC_CHECK (iot_data_type (a) == IOT_DATA_BINARY && iot_data_array_size (a) == bytes && iot_data_array_length (a) == bytes, "binary", "as a binary, %u of %u bytes", iot_data_array_length (a), bytes);
    MC_CHECK (!memcmp (iot_data_address (a), keep, bytes), "content", "content changed");
    iot_data_binary_to_array (a);
    MC_CHECK (iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == IOT_DATA_UINT8 && iot_data_array_length (a) == bytes, "array", "as an array, %u of %u bytes", iot_data_array_length (a), bytes);
  }
  if (own != 2)
  {
    uint32_t len = 0; uint8_t * t = iot_data_binary_take (a, &len);
    MC_CHECK (t && !memcmp (t, keep, bytes), "take", "content taken differs");
    free (t);
  }
  iot_data_free (a);
  if (own != 1) free (b);
  /* text and back */
  if (el[e].w == 1 && own == 0 && el[e].t == IOT_DATA_UINT8)
  {
    for (k = 0; k < n; k++) keep[k] |= 0x40;
    a = iot_data_alloc_binary (keep, n, IOT_DATA_COPY);
    iot_data_t * s = iot_data_string_from_binary (a);
    MC_CHECK (s && strlen (iot_data_string (s)) == n && !memcmp (iot_data_string (s), keep, n), "string", "string from binary differs");
    iot_data_t * r = iot_data_binary_from_string (s);
    MC_CHECK (iot_data_equal (r, a), "string", "binary from string differs");
    iot_data_free (a); iot_data_free (s); iot_data_free (r);
  }
  free (keep);
  mc_state (mc_mix (n, (uint64_t) e)); mc_trans (n);
  dd_leaks ("array");
}
/* ------------------------------------------------------------------- maps */
static void s_map (void)
{
  dd_begin ();
  uint32_t n = size_of (), at = spot_of (n); int how = mc_choose (3), op = mc_choose (3);
  thin (n, at);
  bool str = n <= 4097 && mc_choose (2);
  static const char * const hn[] = { "ascending", "descending", "from the middle" }, * const on[] = { "remove", "replace", "merge" };
  mc_log ("map of %u %s keys added %s, %s at %u\n", n, str ? "string" : "number", hn[how], on[op], at);
  char t[32];
#define KEY(x) (str ? (snprintf (t, sizeof (t), "%08u", (unsigned) (x)), iot_data_alloc_string (t, IOT_DATA_COPY)) : num (x))
  iot_data_t * m = iot_data_alloc_map (str ? IOT_DATA_STRING : IOT_DATA_INT32), * k;
  for (uint32_t i = 0; i < n; i++) { uint32_t x = how == 0 ? i : how == 1 ? n - 1 - i : i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2; iot_data_map_add (m, KEY (x), num (x)); }
  MC_CHECK (iot_data_map_size (m) == n, "size", "size %u", iot_data_map_size (m));
  uint32_t want = n;
  k = KEY (at);
  if (op == 0) { MC_CHECK (iot_data_map_remove (m, k) && !iot_data_map_get (m, k), "remove", "not removed"); want--; }
  if (op == 1) iot_data_map_add (m, iot_data_add_ref (k), num (-5));
  if (op == 2)
  {
    iot_data_t * o = iot_data_alloc_map (str ? IOT_DATA_STRING : IOT_DATA_INT32);
    for (uint32_t i = at; i < n + 3; i += 2) iot_data_map_add (o, KEY (i), num (-5));
    iot_data_map_merge (m, o); iot_data_free (o);
    want = n; for (uint32_t i = at; i < n + 3; i += 2) want += i >= n;
  }
  MC_CHECK (iot_data_map_size (m) == want, "size", "size %u, expected %u", iot_data_map_size (m), want);
  iot_data_map_iter_t it; iot_data_map_iter (m, &it);
  uint32_t x = 0, c = 0;
  for (int dir = 0; dir < 2; dir++)
  {
    x = dir ? n + 3 : 0;
    for (uint32_t j = 0; j < n + 3; j++)
    {
      x = dir ? n + 2 - j : j;
      bool there = x < n ? !(op == 0 && x == at) : op == 2 && x >= at && (x - at) % 2 == 0;
      if (!there) continue;
      int64_t v = (op == 1 && x == at) || (op == 2 && x >= at && (x - at) % 2 == 0) ? -5 : (int64_t) x;
      bool more = dir ? iot_data_map_iter_prev (&it) : iot_data_map_iter_next (&it);
      MC_CHECK (more && (str ? (uint32_t) atoi (iot_data_map_iter_string_key (&it)) == x : val (iot_data_map_iter_key (&it)) == x) && val (iot_data_map_iter_value (&it)) == v, "iterate", "%s, entry %u is wrong", dir ? "backwards" : "forwards", x);
      c++;
    }
    MC_CHECK (!(dir ? iot_data_map_iter_prev (&it) : iot_data_map_iter_next (&it)), "iterate", "more entries than %u", c);
  }
  for (x = 0; x < n; x++) if (!(op == 0 && x == at)) { iot_data_t * kk = KEY (x); MC_CHECK (iot_data_map_get (m, kk) != NULL, "lookup", "key %u not found", x); iot_data_free (kk); }
  iot_data_free (k); iot_data_free (m);
  mc_state (mc_mix (n, at)); mc_trans (n);
  dd_leaks ("map");
}
/* -------------------------------------------------- laws: equality, copies */
static const char * const kinds[] = { "string", "binary", "u8 array", "i16 array", "u32 array", "f64 array", "vector", "list", "number map", "string map", "vector of strings", "nested vectors", "nested maps", "nested lists" };
static iot_data_t * mk (int kind, uint32_t n, uint32_t at, int64_t v) /* as many elements, the one at a place different unless v is 0 */
{
  iot_data_t * d = NULL;
  if (kind == 0) { char * s = malloc (n + 1u); for (uint32_t i = 0; i < n; i++) s[i] = (char) ('a' + (i == at ? v : 0)); s[n] = 0; return iot_data_alloc_string (s, IOT_DATA_TAKE); }
  if (kind <= 5)
  {
    static const struct { iot_data_type_t t; uint32_t w; } e[] = { { 0, 1 }, { IOT_DATA_UINT8, 1 }, { IOT_DATA_INT16, 2 }, { IOT_DATA_UINT32, 4 }, { IOT_DATA_FLOAT64, 8 } };
    uint32_t w = e[kind - 1].w; uint8_t * b = calloc (n, w);
    if (kind == 5) ((double *) b)[at] = (double) v; else b[at * w] = (uint8_t) v;
    return kind == 1 ? iot_data_alloc_binary (b, n, IOT_DATA_TAKE) : iot_data_alloc_array (b, n, e[kind - 1].t, IOT_DATA_TAKE);
  }
  char t[32];
  switch (kind)
  {
    case 6: d = iot_data_alloc_vector (n); for (uint32_t i = 0; i < n; i++) iot_data_vector_add (d, i, num (i == at ? i + v : i)); return d;
    case 7: d = iot_data_alloc_list (); for (uint32_t i = 0; i < n; i++) iot_data_list_head_push (d, num (i == at ? i + v : i)); return d;
    case 8: d = iot_data_alloc_map (IOT_DATA_INT32); for (uint32_t i = 0; i < n; i++) iot_data_map_add (d, num (i), num (i == at ? i + v : i)); return d;
    case 9: d = iot_data_alloc_map (IOT_DATA_STRING); for (uint32_t i = 0; i < n; i++) { snprintf (t, sizeof (t), "%u", i); iot_data_map_add (d, iot_data_alloc_string (t, IOT_DATA_COPY), num (i == at ? i + v : i)); } return d;
    case 10: d = iot_data_alloc_vector (n); for (uint32_t i = 0; i < n; i++) { snprintf (t, sizeof (t), "s%u", (unsigned) (i == at ? 9 + v : 9)); iot_data_vector_add (d, i, iot_data_alloc_string (t, IOT_DATA_COPY)); } return d;
    default:
      d = num (0);
      for (uint32_t i = n; i-- > 0; )
      {
        iot_data_t * o;
        if (kind == 11) { o = iot_data_alloc_vector (2); iot_data_vector_add (o, 0, num (i == at ? i + v : i)); iot_data_vector_add (o, 1, d); }
        else if (kind == 12) { o = iot_data_alloc_map (IOT_DATA_INT32); iot_data_map_add (o, num (0), num (i == at ? i + v : i)); iot_data_map_add (o, num (1), d); }
        else { o = iot_data_alloc_list (); iot_data_list_head_push (o, num (i == at ? i + v : i)); iot_data_list_head_push (o, d); }
        d = o;
      }
      return d;
  }
}
static uint32_t pick (int * kind)
{
  *kind = mc_choose (14);
  uint32_t n = size_of ();
  if (*kind >= 11 && n > 300) mc_prune (); /* depth of recursion is not judged */
  mc_log ("%s of %u", kinds[*kind], n);
  return n;
}
static void s_cmp (void)
{
  dd_begin ();
  int kind; uint32_t n = pick (&kind), at = spot_of (n); if (kind >= 8) thin (n, at);
  mc_log (", difference at %u\n", at);
  iot_data_t * a = mk (kind, n, at, 0), * b = mk (kind, n, at, 0), * c = mk (kind, n, at, 1), * s = n > 1 ? mk (kind, n - 1, n - 2, 0) : NULL, * e = mk (kind, n, at, 2);
  MC_CHECK (iot_data_equal (a, b) && iot_data_equal (b, a) && iot_data_compare (a, b) == 0 && iot_data_equal_value (a, b) && iot_data_compare_value (a, b) == 0, "equal", "equal values compare %d", iot_data_compare (a, b));
  MC_CHECK (!iot_data_equal (a, c) && !iot_data_equal_value (a, c), "differ", "values that differ at %u are equal", at);
  int x = sgn (iot_data_compare (a, c)), y = sgn (iot_data_compare (c, a)), z = sgn (iot_data_compare (c, e)), w = sgn (iot_data_compare (a, e));
  MC_CHECK (x && x == -y, "order", "values that differ at %u compare %d and %d", at, x, y);
  MC_CHECK (x != z || w == x, "order", "order is not transitive");
  if (s) { MC_CHECK (!iot_data_equal (a, s) && !iot_data_equal (s, a), "differ", "values of different size are equal"); MC_CHECK (sgn (iot_data_compare (a, s)) == -sgn (iot_data_compare (s, a)) && iot_data_compare (a, s), "order", "values of different size compare %d and %d", iot_data_compare (a, s), iot_data_compare (s, a)); }
  iot_data_free (a); iot_data_free (b); iot_data_free (c); iot_data_free (s); iot_data_free (e);
  mc_state (mc_mix (mc_mix (n, at), (uint64_t) kind)); mc_trans (6);
  dd_leaks ("comparison");
}
static void change (iot_data_t * d, int kind, uint32_t at, int64_t v)
{
  char t[32];
  switch (kind)
  {
    case 6: iot_data_vector_add (d, at, num (at + v)); break;
    case 7: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); for (uint32_t i = 0; i <= at; i++) iot_data_list_iter_next (&it); iot_data_free (iot_data_list_iter_replace (&it, num (at + v))); break; }
    case 8: iot_data_map_add (d, num (at), num (at + v)); break;
    case 9: snprintf (t, sizeof (t), "%u", at); iot_data_map_add (d, iot_data_alloc_string (t, IOT_DATA_COPY), num (at + v)); break;
    case 10: snprintf (t, sizeof (t), "s%u", (unsigned) (9 + v)); iot_data_vector_add (d, at, iot_data_alloc_string (t, IOT_DATA_COPY)); break;
    default: break;
  }
}
static void s_hash (void)
{
  dd_begin ();
  int kind; uint32_t n = pick (&kind), at = spot_of (n); if (kind >= 8) thin (n, at);
  mc_log (", changed at %u\n", at);
  iot_data_t * a = mk (kind, n, at, 0), * b = mk (kind, n, at, 0), * c = mk (kind, n, at, 1);
  MC_CHECK (iot_data_hash (a) == iot_data_hash (b), "equal", "equal values, different hash");
  if (kind >= 6 && kind <= 10)
  {
    change (a, kind, at, 1);
    MC_CHECK (iot_data_hash (a) == iot_data_hash (c) && iot_data_equal (a, c), "equal", "changed at %u, its hash is not that of an equal value", at);
  }
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_MULTI);
  iot_data_map_add (m, b, num (7));
  iot_data_t * k = mk (kind, n, at, 0);
  if (kind <= 5) MC_CHECK (val (iot_data_map_get (m, k)) == 7, "key", "not found by an equal key");
  if (kind <= 5) MC_CHECK (!iot_data_map_get (m, c), "key", "found by another key");
  iot_data_free (a); iot_data_free (c); iot_data_free (k); iot_data_free (m);
  mc_state (mc_mix (mc_mix (n, at), (uint64_t) kind)); mc_trans (3);
  dd_leaks ("hash");
}
static void s_copy (void)
{
  dd_begin ();
  int kind; uint32_t n = pick (&kind), at = spot_of (n); if (kind >= 8) thin (n, at); bool first = mc_choose (2); int how = mc_choose (2);
  mc_log (", %s copy, changed at %u\n", how ? "shallow" : "deep", at);
  iot_data_t * a = mk (kind, n, at, 0), * b = mk (kind, n, at, 0), * c = mk (kind, n, at, 1);
  iot_data_t * d = how ? iot_data_shallow_copy (a) : iot_data_copy (a);
  MC_CHECK (iot_data_equal (a, d) && iot_data_equal (b, d), "content", "the copy differs");
  iot_typecode_t t1, t2; iot_data_typecode (a, &t1); iot_data_typecode (d, &t2);
  MC_CHECK (iot_typecode_equal (&t1, &t2), "type", "the copy has another type");
  if (kind >= 6 && kind <= 10)
  {
    change (first ? a : d, kind, at, 1);
    MC_CHECK (iot_data_equal (first ? d : a, b), "apart", "a change at %u of one shows in the other", at);
    MC_CHECK (iot_data_equal (first ? a : d, c), "apart", "a change at %u is lost", at);
  }
  iot_data_free (first ? a : d);
  MC_CHECK (iot_data_equal (first ? d : a, b), "apart", "what remains changed");
  iot_data_free (first ? d : a); iot_data_free (b); iot_data_free (c);
  mc_state (mc_mix (mc_mix (n, at), (uint64_t) kind)); mc_trans (3);
  dd_leaks ("copy");
}
static void s_compress (void)
{
  dd_begin ();
  int kind; uint32_t n = pick (&kind), at = spot_of (n);
  if (n > 4097 && kind > 6) mc_prune ();
  mc_log (", different at %u\n", at);
  iot_data_t * v = iot_data_alloc_vector (3), * w = iot_data_alloc_vector (3);
  for (int i = 0; i < 2; i++) { iot_data_t * x = i ? w : v; iot_data_vector_add (x, 0, mk (kind, n, at, 0)); iot_data_vector_add (x, 1, mk (kind, n, at, 0)); iot_data_vector_add (x, 2, mk (kind, n, at, 1)); }
  iot_data_compress (v);
  MC_CHECK (iot_data_equal (v, w), "content", "compressing changed the value");
  MC_CHECK (iot_data_vector_get (v, 0) == iot_data_vector_get (v, 1), "shared", "equal parts do not share storage");
  MC_CHECK (iot_data_vector_get (v, 0) != iot_data_vector_get (v, 2), "shared", "different parts share storage");
  iot_data_free (v); iot_data_free (w);
  mc_state (mc_mix (mc_mix (n, at), (uint64_t) kind)); mc_trans (1);
  dd_leaks ("compression");
}
/* ------------------------------------------------------------------ paths */
static iot_data_t * upd (const iot_data_t * d, void * arg) { *(int64_t *) arg = val (d); return num (-5); }
static void s_path (void)
{
  dd_begin ();
  bool map = mc_choose (2); uint32_t n = size_of (), at = spot_of (n); if (map) thin (n, at); int op = mc_choose (4); bool in = mc_choose (2);
  static const char * const on[] = { "get", "add", "remove", "update" };
  mc_log ("%s of %u%s, %s at %u\n", map ? "map" : "vector", n, in ? " in a vector" : "", on[op], at);
  iot_data_t * d = mk (map ? 8 : 6, n, 0, 0), * w = mk (map ? 8 : 6, n, 0, 0), * path = iot_data_alloc_list (), * k = map ? num (at) : iot_data_alloc_ui32 (at);
  if (in) { iot_data_t * o = iot_data_alloc_vector (2); iot_data_vector_add (o, 1, d); d = o; iot_data_list_tail_push (path, iot_data_alloc_ui32 (1)); }
  if (in) { iot_data_t * o = iot_data_alloc_vector (2); iot_data_vector_add (o, 1, w); w = o; }
  iot_data_list_tail_push (path, iot_data_add_ref (k));
  iot_data_t * r = NULL; int64_t seen = 0;
  if (op == 0) MC_CHECK (val (iot_data_get_at (d, path)) == at, "get", "get at gives %ld", (long) val (iot_data_get_at (d, path)));
  if (op == 1) r = iot_data_add_at (d, path, num (-5));
  if (op == 2) r = iot_data_remove_at (d, path);
  if (op == 3) { r = iot_data_update_at (d, path, upd, &seen); MC_CHECK (seen == at, "update", "the function is given %ld", (long) seen); }
  MC_CHECK (iot_data_equal (d, w), "source", "the source changed");
  if (r)
  {
    iot_data_t * x = in ? (iot_data_t *) iot_data_vector_get (w, 1) : w;
    if (map) { if (op == 2) iot_data_map_remove (x, k); else iot_data_map_add (x, iot_data_add_ref (k), num (-5)); }
    else if (op == 2) { for (uint32_t i = at + 1; i < n; i++) iot_data_vector_add (x, i - 1, num (i)); iot_data_vector_resize (x, n - 1); }
    else iot_data_vector_add (x, at, num (-5));
    MC_CHECK (iot_data_equal (r, w), "result", "the result is not the source with element %u changed", at);
    iot_data_free (r);
  }
  iot_data_free (d); iot_data_free (w); iot_data_free (path); iot_data_free (k);
  mc_state (mc_mix (n, at)); mc_trans (1);
  dd_leaks ("path operation");
}
/* --------------------------------------------------------------- metadata */
static void s_meta (void)
{
  dd_begin ();
  uint32_t n = size_of (), at = spot_of (n);
  if (n > 5000) mc_prune ();
  mc_log ("%u metadata entries, %u set again\n", n, at);
  iot_data_t * d = num (3), * p = num (3), * k;
  for (uint32_t i = 0; i < n; i++) { k = num (i); iot_data_set_metadata (d, num (i + 1), k); iot_data_free (k); }
  k = num (at); iot_data_set_metadata (d, num (-5), k); iot_data_free (k);
  iot_data_t * c = iot_data_copy (d);
  for (uint32_t i = 0; i <= n; i++)
  {
    k = num (i);
    int64_t w = i == n ? INT64_MIN : i == at ? -5 : (int64_t) i + 1;
    MC_CHECK (val (iot_data_get_metadata (d, k)) == w, "metadata", "entry %u", i);
    MC_CHECK (val (iot_data_get_metadata (c, k)) == w, "copy", "entry %u of the copy", i);
    iot_data_free (k);
  }
  MC_CHECK (iot_data_equal (d, p) && iot_data_hash (d) == iot_data_hash (p) && iot_data_compare (d, p) == 0, "content", "metadata changes the content");
  iot_data_free (d); iot_data_free (c); iot_data_free (p);
  mc_state (mc_mix (n, at)); mc_trans (n);
  dd_leaks ("metadata");
}
/* ------------------------------------------------------------------- JSON */
static void s_json (void)
{
  static const char * const what[] = { "array of numbers", "object", "array of strings", "string", "key", "white space", "nested arrays", "nested objects", "array of objects", "digits", "escapes" };
  dd_begin ();
  int kind = mc_choose (11); uint32_t n = size_of (); int form = mc_choose (3);
  if ((kind == 6 || kind == 7) && n > 300) mc_prune ();
  if (kind == 9 && n > 18) mc_prune ();
  mc_log ("%s of %u, %s\n", what[kind], n, form == 0 ? "read" : form == 1 ? "read in order" : "read with a cache");
  char * t = malloc ((size_t) n * 24 + 100), * p = t;
  switch (kind)
  {
    case 0: *p++ = '['; for (uint32_t i = 0; i < n; i++) p += sprintf (p, "%s%u", i ? "," : "", i); strcpy (p, "]"); break;
    case 1: *p++ = '{'; for (uint32_t i = 0; i < n; i++) p += sprintf (p, "%s\"%06u\":%u", i ? "," : "", i, i); strcpy (p, "}"); break;
    case 2: *p++ = '['; for (uint32_t i = 0; i < n; i++) p += sprintf (p, "%s\"%u\"", i ? "," : "", i); strcpy (p, "]"); break;
    case 6: for (uint32_t i = 0; i < n; i++) *p++ = '['; *p++ = '7'; for (uint32_t i = 0; i < n; i++) *p++ = ']'; *p = 0; break;
    case 7: for (uint32_t i = 0; i < n; i++) p += sprintf (p, "{\"k\":"); *p++ = '7'; for (uint32_t i = 0; i < n; i++) *p++ = '}'; *p = 0; break;
    case 8: *p++ = '['; for (uint32_t i = 0; i < n; i++) p += sprintf (p, "%s{\"k\":%u}", i ? "," : "", i); strcpy (p, "]"); break;
    default:
      p += sprintf (p, kind == 4 ? "{\"" : kind == 3 || kind == 10 ? "[\"" : "["); 
      for (uint32_t i = 0; i < n; i++) if (kind == 10) p += sprintf (p, i % 2 ? "\\n" : "\\u00e9"); else *p++ = (char) (kind == 5 ? ' ' : kind == 9 ? '1' + i % 9 : 'a' + i % 26);
      p += sprintf (p, kind == 4 ? "\":5}" : kind == 3 || kind == 10 ? "\",5]" : kind == 5 ? "5]" : "]");
  }
  iot_data_t * cache = form == 2 ? iot_data_alloc_map (IOT_DATA_STRING) : NULL;
  iot_data_t * d = form == 0 ? iot_data_from_json (t) : form == 1 ? iot_data_from_json_with_ordering (t, true) : iot_data_from_json_with_cache (t, false, cache);
  for (int round = 0; round < 2; round++)
  {
    const iot_data_t * x = d;
    char k[32];
    MC_CHECK (d && iot_data_type (d) == (kind == 1 || kind == 4 || kind == 7 ? IOT_DATA_MAP : IOT_DATA_VECTOR), "value", "read as %s", d ? iot_data_type_name (d) : "nothing");
#define INT(e) ({ int64_t v_ = -1; const iot_data_t * e_ = (e); (e_ && iot_data_cast (e_, IOT_DATA_INT64, &v_)) ? v_ : INT64_MIN; })
    switch (kind)
    {
      case 0: case 2: case 8:
        MC_CHECK (iot_data_vector_size (d) == n, "value", "%u elements read", iot_data_vector_size (d));
        for (uint32_t i = 0; i < n; i++)
        {
          x = iot_data_vector_get (d, i); snprintf (k, sizeof (k), "%u", i);
          MC_CHECK (kind == 0 ? INT (x) == i : kind == 2 ? iot_data_type (x) == IOT_DATA_STRING && !strcmp (iot_data_string (x), k) : iot_data_type (x) == IOT_DATA_MAP && INT (iot_data_string_map_get (x, "k")) == i, "value", "element %u is wrong", i);
        }
        break;
      case 1:
        MC_CHECK (iot_data_map_size (d) == n, "value", "%u members read", iot_data_map_size (d));
        for (uint32_t i = 0; i < n; i++) { snprintf (k, sizeof (k), "%06u", i); MC_CHECK (INT (iot_data_string_map_get (d, k)) == i, "value", "member %u is wrong", i); }
        break;
      case 6: case 7:
        for (uint32_t i = 0; i < n; i++) { MC_CHECK (x && iot_data_type (x) == (kind == 6 ? IOT_DATA_VECTOR : IOT_DATA_MAP), "value", "level %u is wrong", i); x = kind == 6 ? iot_data_vector_get (x, 0) : iot_data_string_map_get (x, "k"); }
        MC_CHECK (INT (x) == 7, "value", "the innermost is wrong");
        break;
      case 3: case 10:
      {
        const char * q = iot_data_type (iot_data_vector_get (d, 0)) == IOT_DATA_STRING ? iot_data_string (iot_data_vector_get (d, 0)) : "";
        size_t len = kind == 3 ? n : n + (n + 1) / 2;
        MC_CHECK (strlen (q) == len && INT (iot_data_vector_get (d, 1)) == 5, "value", "string of %zu read", strlen (q));
        for (uint32_t i = 0; i < n; i++) { if (kind == 3) MC_CHECK (*q++ == (char) ('a' + i % 26), "value", "character %u", i); if (kind == 10) { if (i % 2) MC_CHECK (*q++ == '\n', "value", "escape %u", i); if (i % 2 == 0) { MC_CHECK (q[0] == (char) 0xc3 && q[1] == (char) 0xa9, "value", "escape %u", i); q += 2; } } }
        break;
      }
      case 4:
      {
        iot_data_map_iter_t it; iot_data_map_iter (d, &it);
        MC_CHECK (iot_data_map_size (d) == 1 && iot_data_map_iter_next (&it) && strlen (iot_data_map_iter_string_key (&it)) == n && !strncmp (iot_data_map_iter_string_key (&it), t + 2, n) && INT (iot_data_map_iter_value (&it)) == 5, "value", "the member is wrong");
        break;
      }
      case 5: MC_CHECK (iot_data_vector_size (d) == 1 && INT (iot_data_vector_get (d, 0)) == 5, "value", "the element is wrong"); break;
      default: { int64_t w = 0; for (uint32_t i = 0; i < n; i++) w = w * 10 + 1 + i % 9; MC_CHECK (INT (iot_data_vector_get (d, 0)) == w, "value", "the number is wrong"); }
    }
    if (round) break;
    /* written and read again */
    char * o = iot_data_to_json (d);
    iot_data_free (d); iot_data_free (cache); cache = NULL;
    if (form == 1 && kind == 1) MC_CHECK (!strcmp (o, t), "order", "the order was not kept");
    d = iot_data_from_json (o);
    free (o);
  }
  iot_data_free (d);
  free (t);
  mc_state (mc_mix (n, (uint64_t) kind)); mc_trans (2);
  dd_leaks ("JSON");
}
static const mc_space spaces[] = {
  { "json", s_json, "JSON documents of every size, read, written and read again" },
  { "list", s_list, "lists of every size, ends and elements" },
  { "vec", s_vec, "vectors of every size, slots and conversions" },
  { "arr", s_arr, "arrays of every size and element type" },
  { "map", s_map, "maps of every size" },
  { "cmp", s_cmp, "values of every kind and size that are equal, or differ in one place" },
  { "hash", s_hash, "hashes of values of every kind and size" },
  { "copy", s_copy, "copies of values of every kind and size" },
  { "compress", s_compress, "compression of values of every kind and size" },
  { "path", s_path, "paths into vectors and maps of every size" },
  { "meta", s_meta, "many metadata entries" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
