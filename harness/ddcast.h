/* Reference rule for numeric casts, in exact arithmetic */
#ifndef DDCAST_H
#define DDCAST_H
#include "dd.h"
typedef struct num { int type; __int128 i; double f; } num; /* type: an integer type, BOOL, FLOAT32 or FLOAT64 */
static inline bool is_flt (int t) { return t == IOT_DATA_FLOAT32 || t == IOT_DATA_FLOAT64; }
static __int128 imax (int t) { switch (t) { case IOT_DATA_INT8: return INT8_MAX; case IOT_DATA_UINT8: return UINT8_MAX; case IOT_DATA_INT16: return INT16_MAX; case IOT_DATA_UINT16: return UINT16_MAX; case IOT_DATA_INT32: return INT32_MAX; case IOT_DATA_UINT32: return UINT32_MAX; case IOT_DATA_INT64: return INT64_MAX; default: return UINT64_MAX; } }
static __int128 imin (int t) { switch (t) { case IOT_DATA_INT8: return INT8_MIN; case IOT_DATA_INT16: return INT16_MIN; case IOT_DATA_INT32: return INT32_MIN; case IOT_DATA_INT64: return INT64_MIN; default: return 0; } }
static inline bool is_sgn (int t) { return t == IOT_DATA_INT8 || t == IOT_DATA_INT16 || t == IOT_DATA_INT32 || t == IOT_DATA_INT64; }
static iot_data_t * num_alloc (const num * n)
{
  switch (n->type)
  {
    case IOT_DATA_INT8: return iot_data_alloc_i8 ((int8_t) n->i); case IOT_DATA_UINT8: return iot_data_alloc_ui8 ((uint8_t) n->i);
    case IOT_DATA_INT16: return iot_data_alloc_i16 ((int16_t) n->i); case IOT_DATA_UINT16: return iot_data_alloc_ui16 ((uint16_t) n->i);
    case IOT_DATA_INT32: return iot_data_alloc_i32 ((int32_t) n->i); case IOT_DATA_UINT32: return iot_data_alloc_ui32 ((uint32_t) n->i);
    case IOT_DATA_INT64: return iot_data_alloc_i64 ((int64_t) n->i); case IOT_DATA_UINT64: return iot_data_alloc_ui64 ((uint64_t) n->i);
    case IOT_DATA_FLOAT32: return iot_data_alloc_f32 ((float) n->f); case IOT_DATA_FLOAT64: return iot_data_alloc_f64 (n->f);
    default: return iot_data_alloc_bool (n->i != 0);
  }
}
/* raw C representation of n; returns its size */
static uint32_t num_raw (const num * n, void * p)
{
  switch (n->type)
  {
    case IOT_DATA_INT8: case IOT_DATA_UINT8: { uint8_t v = (uint8_t) n->i; memcpy (p, &v, 1); return 1; }
    case IOT_DATA_INT16: case IOT_DATA_UINT16: { uint16_t v = (uint16_t) n->i; memcpy (p, &v, 2); return 2; }
    case IOT_DATA_INT32: case IOT_DATA_UINT32: { uint32_t v = (uint32_t) n->i; memcpy (p, &v, 4); return 4; }
    case IOT_DATA_INT64: case IOT_DATA_UINT64: { uint64_t v = (uint64_t) n->i; memcpy (p, &v, 8); return 8; }
    case IOT_DATA_FLOAT32: { float v = (float) n->f; memcpy (p, &v, 4); return 4; }
    case IOT_DATA_FLOAT64: memcpy (p, &n->f, 8); return 8;
    default: { bool b = n->i != 0; memcpy (p, &b, 1); return 1; }
  }
}
/* 1: must succeed with *out, 0: must be refused, 2: either (infinity to 32 bit float) */
static int ref_cast (const num * n, int to, num * out)
{
  out->type = to; out->i = 0; out->f = 0;
  if (to == IOT_DATA_BOOL) { out->i = is_flt (n->type) ? n->f != 0.0 : n->i != 0; return 1; }
  if (to == IOT_DATA_FLOAT64 || to == IOT_DATA_FLOAT32)
  {
    if (is_flt (n->type))
    {
      if (to == IOT_DATA_FLOAT64) { out->f = n->f; return 1; }
      out->f = (double) (float) n->f;
      if (isnan (n->f)) return 1;
      if (isinf (n->f)) return 2;
      return fabs (n->f) <= (double) FLT_MAX;
    }
    out->f = to == IOT_DATA_FLOAT64 ? (n->i < 0 ? (double) (int64_t) n->i : (double) (uint64_t) n->i) : (double) (n->i < 0 ? (float) (int64_t) n->i : (float) (uint64_t) n->i);
    return 1;
  }
  if (is_flt (n->type))
  {
    if (isnan (n->f)) return 0;
    long double v = n->f;
    if (v < (long double) (int64_t) imin (to) || v > (imax (to) > INT64_MAX ? (long double) UINT64_MAX : (long double) (int64_t) imax (to))) return 0;
    out->i = v < 0 ? (__int128) (int64_t) n->f : (__int128) (uint64_t) n->f;
    return 1;
  }
  if (n->i < imin (to) || n->i > imax (to)) return 0;
  out->i = n->i;
  return 1;
}
static bool raw_same (int to, const void * a, const void * b, uint32_t sz)
{
  if (to == IOT_DATA_FLOAT32 || to == IOT_DATA_FLOAT64)
  {
    double x, y; float f;
    if (to == IOT_DATA_FLOAT32) { memcpy (&f, a, 4); x = f; memcpy (&f, b, 4); y = f; } else { memcpy (&x, a, 8); memcpy (&y, b, 8); }
    if (isnan (x) && isnan (y)) return true;
    if (x == y) return signbit (x) == signbit (y);
    /* a 64 bit integer may reach 32 bit float by way of double: the neighbours are allowed */
    return to == IOT_DATA_FLOAT32 && (nextafterf ((float) x, (float) y) == (float) y);
  }
  return memcmp (a, b, sz) == 0;
}
static const int num_types[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_BOOL };
#define NNT 11
/* boundary values of a type; returns how many */
static int num_values (int t, num * v)
{
  int n = 0;
  if (t == IOT_DATA_BOOL) { for (int i = 0; i < 2; i++) v[n++] = (num) { t, i, 0 }; return n; }
  if (!is_flt (t))
  {
    static const int bits[] = { 0, 1, 6, 7, 8, 14, 15, 16, 23, 24, 25, 30, 31, 32, 52, 53, 54, 61, 62, 63, 64 };
    for (unsigned b = 0; b < sizeof (bits) / sizeof (bits[0]); b++)
      for (int s = -1; s <= 1; s += 2)
        for (int d = -1; d <= 1; d++)
        {
          __int128 x = s * ((__int128) 1 << bits[b]) + d;
          bool dup = x < imin (t) || x > imax (t);
          for (int k = 0; k < n && !dup; k++) dup = v[k].i == x;
          if (!dup) v[n++] = (num) { t, x, 0 };
        }
    bool zero = false;
    for (int k = 0; k < n; k++) zero |= v[k].i == 0;
    if (!zero) v[n++] = (num) { t, 0, 0 };
    for (int d = 100; d <= 1100; d += 1000) if (t == IOT_DATA_UINT64) v[n++] = (num) { t, (__int128) INT64_MAX + d, 0 };
    return n;
  }
  static const int bits[] = { 7, 8, 15, 16, 23, 24, 31, 32, 53, 63, 64, 100 };
  v[n++] = (num) { t, 0, 0.0 }; v[n++] = (num) { t, 0, -0.0 };
  for (unsigned b = 0; b < sizeof (bits) / sizeof (bits[0]); b++)
  {
    for (int s = -1; s <= 1; s += 2)
    {
      double x = s * ldexp (1.0, bits[b]);
      double c[] = { x, x - 1, x + 1, x - 0.5, x + 0.5, nextafter (x, 0), nextafter (x, x * 2), x - 1.5 };
      for (unsigned k = 0; k < 8; k++) v[n++] = (num) { t, 0, t == IOT_DATA_FLOAT32 ? (double) (float) c[k] : c[k] };
    }
  }
  double m[] = { 0.5, -0.5, 0.999999, -0.999999, 1.0, -1.0, 1.5, -1.5, (double) FLT_MAX, -(double) FLT_MAX, DBL_MIN, FLT_MIN, INFINITY, -INFINITY, NAN };
  for (unsigned k = 0; k < sizeof (m) / sizeof (m[0]); k++) v[n++] = (num) { t, 0, t == IOT_DATA_FLOAT32 ? (double) (float) m[k] : m[k] };
  if (t == IOT_DATA_FLOAT64) { double e[] = { DBL_MAX, -DBL_MAX, nextafter ((double) FLT_MAX, INFINITY), -nextafter ((double) FLT_MAX, INFINITY), 1e39, 5e-324 }; for (unsigned k = 0; k < 6; k++) v[n++] = (num) { t, 0, e[k] }; }
  return n;
}
#endif
