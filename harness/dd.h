/* Helpers of the data harnesses: canonical text of a value, read through the public interface only */
#ifndef DD_H
#define DD_H
#include "mc.h"
#include "iot/data.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <inttypes.h>

#define DDMAX 8192
typedef struct sb { size_t n; char s[DDMAX]; } sb;
static inline void sb_reset (sb * b) { b->n = 0; b->s[0] = 0; }
static void sb_add (sb * b, const char * fmt, ...)
{
  va_list a; va_start (a, fmt);
  int r = vsnprintf (b->s + b->n, DDMAX - b->n, fmt, a);
  va_end (a);
  b->n += (size_t) r;
  if (b->n >= DDMAX) b->n = DDMAX - 1;
}
static const char * const dd_tn[] = { "i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","bool","ptr","str","null","bin","arr","vec","list","map","multi","inv" };

#define DD_TC 1     /* container element and key types too */
#define DD_META 2   /* tags and metadata entries for the keys "k1", "k2" and i8 3 */
static iot_data_t * dd_key[3];
static inline void dd_keys (void)
{
  static iot_data_static_t st[3];
  if (dd_key[0]) return;
  dd_key[0] = iot_data_alloc_const_string (&st[0], "k1"); dd_key[1] = iot_data_alloc_const_string (&st[1], "k2"); dd_key[2] = iot_data_alloc_const_i8 (&st[2], 3);
}
static void dd_dump1 (sb * b, const iot_data_t * d, int flags);
static void dd_dump (sb * b, const iot_data_t * d, int flags)
{
  dd_dump1 (b, d, flags);
  if (!d || !(flags & DD_META)) return;
  dd_keys ();
  for (int t = 1; t <= 2; t++) if (iot_data_get_tag (d, t)) sb_add (b, "#%d", t);
  for (int k = 0; k < 3; k++) { const iot_data_t * m = iot_data_get_metadata (d, dd_key[k]); if (m) { sb_add (b, "@%d=", k); dd_dump (b, m, flags); } }
}
static void dd_dump1 (sb * b, const iot_data_t * d, int flags)
{
  if (!d) { sb_add (b, "_"); return; }
  iot_data_type_t t = iot_data_type (d);
  iot_typecode_t tc;
  iot_data_typecode (d, &tc);
  switch (t)
  {
    case IOT_DATA_INT8: sb_add (b, "i8:%d", iot_data_i8 (d)); break;
    case IOT_DATA_UINT8: sb_add (b, "u8:%u", iot_data_ui8 (d)); break;
    case IOT_DATA_INT16: sb_add (b, "i16:%d", iot_data_i16 (d)); break;
    case IOT_DATA_UINT16: sb_add (b, "u16:%u", iot_data_ui16 (d)); break;
    case IOT_DATA_INT32: sb_add (b, "i32:%d", iot_data_i32 (d)); break;
    case IOT_DATA_UINT32: sb_add (b, "u32:%u", iot_data_ui32 (d)); break;
    case IOT_DATA_INT64: sb_add (b, "i64:%" PRId64, iot_data_i64 (d)); break;
    case IOT_DATA_UINT64: sb_add (b, "u64:%" PRIu64, iot_data_ui64 (d)); break;
    case IOT_DATA_FLOAT32: sb_add (b, "f32:%a", (double) iot_data_f32 (d)); break;
    case IOT_DATA_FLOAT64: sb_add (b, "f64:%a", iot_data_f64 (d)); break;
    case IOT_DATA_BOOL: sb_add (b, "b:%d", iot_data_bool (d)); break;
    case IOT_DATA_POINTER: sb_add (b, "p:0x%lx", (unsigned long) iot_data_pointer (d)); break;
    case IOT_DATA_STRING: sb_add (b, "s:%zu'%s'", strlen (iot_data_string (d)), iot_data_string (d)); break;
    case IOT_DATA_NULL: sb_add (b, "null"); break;
    case IOT_DATA_BINARY:
    case IOT_DATA_ARRAY:
    {
      const uint8_t * p = iot_data_address (d);
      uint32_t n = iot_data_array_size (d);
      sb_add (b, "%s<%s>%u[", t == IOT_DATA_BINARY ? "B" : "A", dd_tn[iot_data_array_type (d)], iot_data_array_length (d));
      for (uint32_t i = 0; i < n; i++) sb_add (b, "%02x", p[i]);
      sb_add (b, "]");
      break;
    }
    case IOT_DATA_VECTOR:
    {
      uint32_t n = iot_data_vector_size (d);
      sb_add (b, "V");
      if (flags & DD_TC) sb_add (b, "<%s>", dd_tn[tc.element_type]);
      sb_add (b, "(");
      for (uint32_t i = 0; i < n; i++) { if (i) sb_add (b, ","); dd_dump (b, iot_data_vector_get (d, i), flags); }
      sb_add (b, ")");
      break;
    }
    case IOT_DATA_LIST:
    {
      iot_data_list_iter_t it;
      bool first = true;
      sb_add (b, "L");
      if (flags & DD_TC) sb_add (b, "<%s>", dd_tn[tc.element_type]);
      sb_add (b, "(");
      iot_data_list_iter (d, &it);
      while (iot_data_list_iter_next (&it)) { if (!first) sb_add (b, ","); first = false; dd_dump (b, iot_data_list_iter_value (&it), flags); }
      sb_add (b, ")");
      break;
    }
    case IOT_DATA_MAP:
    {
      iot_data_map_iter_t it;
      bool first = true;
      sb_add (b, "M");
      if (flags & DD_TC) sb_add (b, "<%s,%s>", dd_tn[tc.key_type], dd_tn[tc.element_type]);
      sb_add (b, "{");
      iot_data_map_iter (d, &it);
      while (iot_data_map_iter_next (&it))
      {
        if (!first) sb_add (b, ",");
        first = false;
        dd_dump (b, iot_data_map_iter_key (&it), flags); sb_add (b, "="); dd_dump (b, iot_data_map_iter_value (&it), flags);
      }
      sb_add (b, "}");
      break;
    }
    default: sb_add (b, "?%d", t); break;
  }
}
/* Builds the value that a dump with DD_TC (and possibly DD_META) describes; missing types mean multi */
static int dd_ptype (const char ** p)
{
  for (int i = 0; i <= 20; i++) { size_t n = strlen (dd_tn[i]); if (!strncmp (*p, dd_tn[i], n) && strchr (":<>,(", (*p)[n])) { *p += n; return i; } }
  return -1;
}
static iot_data_t * dd_parse (const char ** p);
static iot_data_t * dd_parse1 (const char ** p)
{
  char * e;
  const char * s = *p;
  if (*s == '_') { *p = s + 1; return NULL; }
  if (!strncmp (s, "null", 4)) { *p = s + 4; return iot_data_alloc_null (); }
  if (s[0] == 'b' && s[1] == ':') { *p = s + 3; return iot_data_alloc_bool (s[2] == '1'); }
  if (s[0] == 's' && s[1] == ':')
  {
    char t[4096];
    long n = strtol (s + 2, &e, 10);
    memcpy (t, e + 1, (size_t) n); t[n] = 0;
    *p = e + n + 2;
    return iot_data_alloc_string (t, IOT_DATA_COPY);
  }
  if (s[0] == 'p' && s[1] == ':') { unsigned long v = strtoul (s + 2, &e, 16); *p = e; return iot_data_alloc_pointer ((void *) v, NULL); }
  if (*s == 'B' || *s == 'A')
  {
    uint8_t buf[2048];
    bool bin = *s == 'B';
    *p = s + 2;
    int t = dd_ptype (p);
    long n = strtol (*p + 1, &e, 10), sz = n * (long) iot_data_type_size (t);
    e++;
    for (long i = 0; i < sz; i++) { unsigned x; sscanf (e, "%2x", &x); buf[i] = (uint8_t) x; e += 2; }
    *p = e + 1;
    return bin ? iot_data_alloc_binary (buf, (uint32_t) n, IOT_DATA_COPY) : iot_data_alloc_array (buf, (uint32_t) n, t, IOT_DATA_COPY);
  }
  if (*s == 'V' || *s == 'L')
  {
    bool vec = *s == 'V';
    int t = IOT_DATA_MULTI;
    *p = s + 1;
    if (**p == '<') { (*p)++; t = dd_ptype (p); (*p)++; }
    (*p)++;
    iot_data_t * v[64];
    uint32_t n = 0;
    while (**p != ')') { v[n++] = dd_parse (p); if (**p == ',') (*p)++; }
    (*p)++;
    iot_data_t * r = vec ? iot_data_alloc_typed_vector (n, t) : iot_data_alloc_typed_list (t);
    for (uint32_t i = 0; i < n; i++) { if (vec) iot_data_vector_add (r, i, v[i]); else iot_data_list_head_push (r, v[i]); }
    return r;
  }
  if (*s == 'M')
  {
    int k = IOT_DATA_MULTI, t = IOT_DATA_MULTI;
    *p = s + 1;
    if (**p == '<') { (*p)++; k = dd_ptype (p); (*p)++; t = dd_ptype (p); (*p)++; }
    (*p)++;
    iot_data_t * r = iot_data_alloc_typed_map (k, t);
    while (**p != '}') { iot_data_t * key = dd_parse (p); (*p)++; iot_data_map_add (r, key, dd_parse (p)); if (**p == ',') (*p)++; }
    (*p)++;
    return r;
  }
  int t = dd_ptype (p);
  s = *p + 1;
  switch (t)
  {
    case IOT_DATA_FLOAT32: { float f = strtof (s, &e); *p = e; return iot_data_alloc_f32 (f); }
    case IOT_DATA_FLOAT64: { double f = strtod (s, &e); *p = e; return iot_data_alloc_f64 (f); }
    case IOT_DATA_UINT64: { uint64_t u = strtoull (s, &e, 10); *p = e; return iot_data_alloc_ui64 (u); }
    default: break;
  }
  int64_t i = strtoll (s, &e, 10);
  *p = e;
  switch (t)
  {
    case IOT_DATA_INT8: return iot_data_alloc_i8 ((int8_t) i); case IOT_DATA_UINT8: return iot_data_alloc_ui8 ((uint8_t) i);
    case IOT_DATA_INT16: return iot_data_alloc_i16 ((int16_t) i); case IOT_DATA_UINT16: return iot_data_alloc_ui16 ((uint16_t) i);
    case IOT_DATA_INT32: return iot_data_alloc_i32 ((int32_t) i); case IOT_DATA_UINT32: return iot_data_alloc_ui32 ((uint32_t) i);
    case IOT_DATA_INT64: return iot_data_alloc_i64 (i);
    default: fprintf (stderr, "bad value text at '%s'\n", *p); abort ();
  }
}
static iot_data_t * dd_parse (const char ** p)
{
  iot_data_t * d = dd_parse1 (p);
  while (**p == '#' || **p == '@')
  {
    dd_keys ();
    bool tag = **p == '#';
    int k = (*p)[1] - '0';
    *p += 2;
    if (tag) iot_data_set_tag (d, k, true);
    else { (*p)++; iot_data_set_metadata (d, dd_parse (p), dd_key[k]); }
  }
  return d;
}
static inline iot_data_t * dd_make (const char * s) { const char * p = s; iot_data_t * d = dd_parse (&p); if (*p) { fprintf (stderr, "bad value text '%s' at '%s'\n", s, p); abort (); } return d; }
/* All composed nodes of a value (distinct), itself first */
static inline int dd_nodes (iot_data_t * d, iot_data_t ** out, int n, int max)
{
  if (!d || n >= max) return n;
  for (int i = 0; i < n; i++) if (out[i] == d) return n;
  iot_data_type_t t = iot_data_type (d);
  out[n++] = d;
  if (t == IOT_DATA_VECTOR || t == IOT_DATA_LIST || t == IOT_DATA_MAP)
  {
    iot_data_iter_t it; iot_data_map_iter_t mi;
    if (t == IOT_DATA_MAP) { iot_data_map_iter (d, &mi); while (iot_data_map_iter_next (&mi)) n = dd_nodes ((iot_data_t *) iot_data_map_iter_value (&mi), out, n, max); }
    else { iot_data_iter (d, &it); while (iot_data_iter_next (&it)) n = dd_nodes ((iot_data_t *) iot_data_iter_value (&it), out, n, max); }
  }
  return n;
}
static inline const char * dd_str (sb * b, const iot_data_t * d, int flags) { sb_reset (b); dd_dump (b, d, flags); return b->s; }
static inline uint64_t dd_hash (const sb * b) { return mc_mix_bytes (1, b->s, b->n); }
static inline int sgn (int c) { return (c > 0) - (c < 0); }

/* Leak accounting: in the heap configuration nothing may remain; the Release configuration recycles blocks, so it
   is only meaningful there with the heap allocation policy on */
static long dd_live0;
static bool dd_heap;
static inline void dd_begin (void)
{
  dd_heap = true;
#ifdef VARIANT_ASANREL
  static bool warm = false;
  dd_heap = mc_param ("heap", 1) != 0;
  iot_data_alloc_heap (false);
  if (!warm) /* the block cache gets its pages, so that they do not count as leaks */
  {
    void * b[400];
    for (int i = 0; i < 400; i++) b[i] = iot_data_block_alloc (8);
    for (int i = 0; i < 400; i++) iot_data_block_free (b[i]);
    warm = true;
  }
  iot_data_alloc_heap (dd_heap);
#endif
  dd_live0 = mc_live ();
}
static inline void dd_leaks (const char * what)
{
  if (!dd_heap) return;
  long l = mc_live () - dd_live0;
  MC_CHECK (l == 0, "leak", "%s: %ld heap blocks remain after everything was released", what, l);
}
#endif
