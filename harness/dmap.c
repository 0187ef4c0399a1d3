/* D01: maps against a sorted reference dictionary */
#include "dd.h"

#define NK 4
static int dom;             /* key domain */
static int have[8]; static int64_t val[8]; /* reference: value number per key, in key order */
static int64_t ctr;
static iot_data_t * map;

static iot_data_t * mkkey (int d, int k)
{
  static const char * strs[8] = { "", "a", "ab", "b", "ba", "bb", "c", "cc" };
  static const double fl[8] = { -INFINITY, -1.5, 0.0, 1e300, 2e300, 3e300, 4e300, INFINITY };
  switch (d)
  {
    case 0: return iot_data_alloc_string (strs[k], IOT_DATA_COPY);
    case 1: return iot_data_alloc_i32 ((int32_t[]) { INT32_MIN, -1, 0, INT32_MAX - 4, INT32_MAX - 3, INT32_MAX - 2, INT32_MAX - 1, INT32_MAX } [k]);
    case 2: return iot_data_alloc_f64 (fl[k]);
    case 3: /* mixed, in type order */
      switch (k)
      {
        case 0: return iot_data_alloc_i8 (5);
        case 1: return iot_data_alloc_ui64 (5);
        case 2: return iot_data_alloc_bool (true);
        case 3: return iot_data_alloc_string ("5", IOT_DATA_COPY);
        case 4: { uint8_t z[2] = { 1, 2 }; return iot_data_alloc_binary (z, 2, IOT_DATA_COPY); }
        case 5: { iot_data_t * v = iot_data_alloc_vector (1); iot_data_vector_add (v, 0, iot_data_alloc_i8 (5)); return v; }
        case 6: { iot_data_t * v = iot_data_alloc_list (); iot_data_list_tail_push (v, iot_data_alloc_i8 (5)); return v; }
        default: { iot_data_t * v = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (v, "5", iot_data_alloc_i8 (5)); return v; }
      }
    default: return iot_data_alloc_ui64 ((uint64_t[]) { 0, 1, 255, UINT32_MAX, UINT32_MAX + 1ull, INT64_MAX, INT64_MAX + 1ull, UINT64_MAX } [k]);
  }
}
static iot_data_type_t keytype (int d) { return (iot_data_type_t[]) { IOT_DATA_STRING, IOT_DATA_INT32, IOT_DATA_FLOAT64, IOT_DATA_MULTI, IOT_DATA_UINT64 } [d]; }

static int nkeys;
static void verify (void)
{
  int n = 0, order[8];
  for (int k = 0; k < nkeys; k++) if (have[k]) order[n++] = k;
  MC_CHECK (iot_data_map_size (map) == (uint32_t) n, "size", "size %u, expected %d", iot_data_map_size (map), n);
  MC_CHECK (iot_data_length (map) == (uint32_t) n, "size", "length %u, expected %d", iot_data_length (map), n);
  for (int k = 0; k < nkeys; k++)
  {
    iot_data_t * key = mkkey (dom, k);
    const iot_data_t * v = iot_data_map_get (map, key);
    MC_CHECK ((v != NULL) == have[k], "lookup", "key %d %s", k, v ? "found although absent" : "not found");
    if (v) MC_CHECK (iot_data_i64 (v) == val[k], "lookup", "key %d has value %" PRId64 ", expected %" PRId64, k, iot_data_i64 (v), val[k]);
    MC_CHECK (iot_data_map_get_typed (map, key, IOT_DATA_INT64) == v, "typed-get", "typed get of key %d differs", k);
    MC_CHECK (iot_data_map_get_typed (map, key, IOT_DATA_STRING) == NULL, "typed-get", "typed get of the wrong type");
    MC_CHECK (iot_data_map_get_i64 (map, key, -77) == (v ? val[k] : -77), "typed-get", "i64 getter of key %d", k);
    MC_CHECK (iot_data_map_get_ui64 (map, key, 78) == 78 && iot_data_map_get_string (map, key) == NULL && iot_data_map_get_bool (map, key, true) && iot_data_map_get_f64 (map, key, 1.5) == 1.5 &&
      !iot_data_map_get_vector (map, key) && !iot_data_map_get_map (map, key) && !iot_data_map_get_array (map, key) && !iot_data_map_get_list (map, key) && !iot_data_map_get_pointer (map, key), "typed-get", "getter of another type of key %d finds something", k);
    int16_t i16 = 99;
    bool ok = iot_data_map_get_number (map, key, IOT_DATA_INT16, &i16);
    MC_CHECK (ok == have[k] && i16 == (ok ? val[k] : 99), "typed-get", "number getter of key %d: %d %d", k, ok, i16);
    int i = 98;
    ok = iot_data_map_get_int (map, key, &i);
    MC_CHECK (ok == have[k] && i == (ok ? val[k] : 98), "typed-get", "int getter of key %d", k);
    if (dom == 0)
    {
      const char * s = iot_data_string (key);
      MC_CHECK (iot_data_string_map_get (map, s) == v, "lookup", "string lookup of key %d differs", k);
      MC_CHECK (iot_data_string_map_get_i64 (map, s, -77) == (v ? val[k] : -77), "typed-get", "string i64 getter of key %d", k);
      MC_CHECK (iot_data_string_map_get_ui64 (map, s, 78) == 78 && iot_data_string_map_get_string (map, s) == NULL && iot_data_string_map_get_bool (map, s, true) && iot_data_string_map_get_f64 (map, s, 1.5) == 1.5, "typed-get", "string getter of another type");
      i16 = 99;
      ok = iot_data_string_map_get_number (map, s, IOT_DATA_INT16, &i16);
      MC_CHECK (ok == have[k] && i16 == (ok ? val[k] : 99), "typed-get", "string number getter of key %d", k);
    }
    iot_data_free (key);
  }
  MC_CHECK (!iot_data_map_remove (map, NULL) && iot_data_map_size (map) == (uint32_t) n, "remove", "no key was removed");
  if (dom == 0) MC_CHECK (!iot_data_string_map_remove (map, NULL), "remove", "no key was removed");
  iot_data_t * other = dom == 1 ? iot_data_alloc_ui32 (0) : iot_data_alloc_i32 (0);
  MC_CHECK (iot_data_map_get (map, other) == NULL, "lookup-type", "a key of another type is found");
  iot_data_free (other);
  iot_data_map_iter_t it;
  iot_data_iter_t gf;
  iot_data_map_iter (map, &it);
  iot_data_iter (map, &gf);
  for (int pass = 0; pass < 2; pass++) /* iteration restarts after its end */
  {
    for (int i = 0; i <= n; i++)
    {
      MC_CHECK (iot_data_map_iter_has_next (&it) == (i < n), "has-next", "has_next before step %d of %d is %d", i, n, !(i < n));
      MC_CHECK (iot_data_iter_has_next (&gf) == (i < n), "has-next", "generic has_next before step %d of %d is %d", i, n, !(i < n));
      bool r = iot_data_map_iter_next (&it);
      MC_CHECK (r == (i < n) && iot_data_iter_next (&gf) == r, "iter", "next at step %d of %d is %d", i, n, r);
      const iot_data_t * k = iot_data_map_iter_key (&it), * v = iot_data_map_iter_value (&it);
      MC_CHECK (iot_data_iter_value (&gf) == v, "iter", "generic iterator differs at step %d of %d", i, n);
      if (r)
      {
        iot_data_t * key = mkkey (dom, order[i]);
        MC_CHECK (k && v && iot_data_equal (k, key) && iot_data_i64 (v) == val[order[i]], "iter-order", "step %d of forward iteration is not key %d", i, order[i]);
        iot_data_free (key);
      }
      else MC_CHECK (!k && !v, "iter", "key or value past the end");
    }
  }
  iot_data_iter_t gi;
  iot_data_map_iter (map, &it);
  iot_data_iter (map, &gi);
  for (int pass = 0; pass < 2; pass++)
  {
    for (int i = n - 1; i >= -1; i--)
    {
      bool r = iot_data_map_iter_prev (&it), g = iot_data_iter_prev (&gi);
      MC_CHECK (r == (i >= 0) && g == r, "iter-prev", "prev at position %d is %d", i, r);
      const iot_data_t * v = iot_data_map_iter_value (&it);
      MC_CHECK (v == iot_data_iter_value (&gi), "iter-prev", "generic iterator differs");
      if (r) MC_CHECK (v && iot_data_i64 (v) == val[order[i]], "iter-order", "backward iteration at %d is not key %d", i, order[i]);
      if (r) MC_CHECK (iot_data_map_iter_has_next (&it) == (i < n - 1), "has-next-prev", "has_next after prev to position %d of %d is %d", i, n, !(i < n - 1));
    }
  }
  const iot_data_t * s = iot_data_map_start (map), * e = iot_data_map_end (map);
  MC_CHECK ((s != NULL) == (n > 0) && (e != NULL) == (n > 0), "ends", "start/end of %d entries", n);
  if (n) MC_CHECK (iot_data_i64 (s) == val[order[0]] && iot_data_i64 (e) == val[order[n - 1]], "ends", "start or end is not the first or last entry");
}
static void put (int k, int64_t v) { have[k] = 1; val[k] = v; }
static void state (void)
{
  uint64_t h = (uint64_t) dom;
  for (int k = 0; k < nkeys; k++) h = mc_mix (h, have[k] ? (uint64_t) val[k] : 0);
  mc_state (h); mc_trans (1);
}
static void s_hist (void)
{
  nkeys = NK; ctr = 0; memset (have, 0, sizeof (have));
  dd_begin ();
  dom = mc_choose (4);
  bool typed = mc_choose (2);
  map = typed ? iot_data_alloc_typed_map (keytype (dom), IOT_DATA_INT64) : iot_data_alloc_map (keytype (dom));
  int depth = (int) mc_param ("depth", 5);
  for (int step = 0; step < depth; step++)
  {
    int op = mc_choose (4 * NK + 4);
    bool fresh = mc_fresh () || mc_replaying ();
    int k = op & (NK - 1);
    ctr++;
    if (op < NK)
    {
      mc_log ("add %d=%" PRId64 "\n", k, ctr);
      if (dom == 0 && (k & 1))
      {
        static const char * strs[NK] = { "", "a", "ab", "b" };
        iot_data_string_map_add (map, strs[k], iot_data_alloc_i64 (ctr));
      }
      else iot_data_map_add (map, mkkey (dom, k), iot_data_alloc_i64 (ctr));
      put (k, ctr);
    }
    else if (op < 2 * NK)
    {
      mc_log ("add-unused %d=%" PRId64 "\n", k, ctr);
      iot_data_t * key = mkkey (dom, k), * v = iot_data_alloc_i64 (ctr);
      bool r = iot_data_map_add_unused (map, key, v);
      MC_CHECK (r == !have[k], "add-unused", "add_unused of key %d returned %d", k, r);
      if (r) put (k, ctr); else { iot_data_free (key); iot_data_free (v); }
    }
    else if (op < 3 * NK)
    {
      mc_log ("remove %d\n", k);
      iot_data_t * key = mkkey (dom, k);
      bool r = dom == 0 && (k & 1) ? iot_data_string_map_remove (map, iot_data_string (key)) : iot_data_map_remove (map, key);
      MC_CHECK (r == have[k], "remove", "remove of key %d returned %d", k, r);
      have[k] = 0;
      iot_data_free (key);
    }
    else if (op < 4 * NK)
    {
      mc_log ("replace at %d\n", k);
      iot_data_map_iter_t it;
      iot_data_map_iter (map, &it);
      int n = 0, at = -1;
      for (int j = 0; j < nkeys; j++) if (have[j] && n++ == k) at = j;
      for (int j = 0; j <= k; j++) if (!iot_data_map_iter_next (&it)) break;
      if (at >= 0)
      {
        iot_data_t * old = iot_data_map_iter_replace_value (&it, iot_data_alloc_i64 (ctr));
        MC_CHECK (old && iot_data_i64 (old) == val[at], "iter-replace", "replaced value is not that of entry %d", k);
        iot_data_free (old);
        val[at] = ctr;
      }
      else if (n <= k && !iot_data_map_iter_value (&it))
      {
        iot_data_t * v = iot_data_alloc_i64 (ctr);
        MC_CHECK (iot_data_map_iter_replace_value (&it, v) == NULL, "iter-replace", "replace past the end returned a value");
        iot_data_free (v);
      }
    }
    else if (op == 4 * NK) { mc_log ("empty\n"); iot_data_map_empty (map); memset (have, 0, sizeof (have)); }
    else if (op == 4 * NK + 1) { mc_log ("merge NULL\n"); iot_data_map_merge (map, NULL); }
    else
    {
      mc_log ("merge %d\n", op - 4 * NK - 2);
      iot_data_t * add = iot_data_alloc_map (keytype (dom));
      for (int j = op - 4 * NK - 2; j < NK; j += 2) { iot_data_map_add (add, mkkey (dom, j), iot_data_alloc_i64 (ctr + j)); put (j, ctr + j); }
      iot_data_map_merge (map, add);
      MC_CHECK (iot_data_map_size (add) == 2, "merge", "the merged map was changed");
      iot_data_free (add);
      ctr += NK;
    }
    if (fresh) { verify (); state (); }
  }
  iot_data_free (map);
  dd_leaks ("map history");
}
static void s_perm (void)
{
  nkeys = (int) mc_param ("n", 6); ctr = 0; memset (have, 0, sizeof (have));
  dd_begin ();
  dom = mc_choose (2) ? 3 : 4;
  map = iot_data_alloc_map (keytype (dom));
  bool prev = true;
  for (int ph = 0; ph < 2; ph++)
  {
    for (int i = 0; i < nkeys; i++)
    {
      int c = mc_choose (nkeys - i), k = 0;
      for (;; k++) if (have[k] == ph && c-- == 0) break;
      bool fresh = mc_fresh () || mc_replaying ();
      iot_data_t * key = mkkey (dom, k);
      if (ph == 0) { mc_log ("add %d\n", k); put (k, ++ctr); iot_data_map_add (map, key, iot_data_alloc_i64 (ctr)); }
      else
      {
        mc_log ("remove %d\n", k);
        have[k] = 0;
        MC_CHECK (iot_data_map_remove (map, key), "remove", "key %d not removed", k);
        iot_data_free (key);
      }
      if (i == nkeys - 1) fresh = fresh || prev; /* the last is forced: no choice */
      if (fresh) { verify (); state (); }
      prev = fresh;
    }
  }
  iot_data_free (map);
  dd_leaks ("map permutation");
}
/* larger maps: insertion and removal patterns */
static int pat (int p, int n, int i)
{
  switch (p)
  {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return (i & 1) ? n - 1 - i / 2 : i / 2;                /* outside in */
    case 3: return (i & 1) ? n / 2 + i / 2 + (n & 1) : n / 2 - i / 2 - !(n & 1); /* inside out */
    default: return (int) (((long) i * (p == 4 ? 37 : p == 5 ? 101 : 61)) % n);  /* n prime to these */
  }
}
static void s_big (void)
{
  dd_begin ();
  static const int sizes[] = { 8, 13, 16, 31, 64, 97, 200 };
  int n = sizes[mc_choose (7)], pi = mc_choose (7), pd = mc_choose (7), keep = mc_choose (4), rounds = 1 + mc_choose (2);
  static bool in[256]; int size = 0;
  memset (in, 0, sizeof (in));
  mc_log ("%d keys, insertion pattern %d, removal pattern %d, %d rounds, keep 1 in %d\n", n, pi, pd, rounds, keep + 1);
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_INT32);
  for (int r = 0; r < rounds; r++)
  {
    for (int ph = 0; ph < 2; ph++)
    {
      for (int i = 0; i < n; i++)
      {
        int k = pat (ph ? pd : pi, n, i);
        if (k < 0 || k >= n) continue;
        iot_data_t * key = iot_data_alloc_i32 (k);
        if (ph == 0) { if (!in[k]) size++; in[k] = true; iot_data_map_add (m, key, iot_data_alloc_i32 (k * 3)); }
        else
        {
          if (keep && k % (keep + 1) == 0) { iot_data_free (key); continue; }
          MC_CHECK (iot_data_map_remove (m, key) == in[k], "remove", "removal of key %d", k);
          if (in[k]) size--;
          in[k] = false;
          iot_data_free (key);
        }
        if (i % 7 == 0 || i == n - 1)
        {
          MC_CHECK (iot_data_map_size (m) == (uint32_t) size, "size", "size %u, expected %d", iot_data_map_size (m), size);
          iot_data_map_iter_t it; int cnt = 0, last = -1;
          iot_data_map_iter (m, &it);
          while (iot_data_map_iter_next (&it))
          {
            int kk = iot_data_i32 (iot_data_map_iter_key (&it));
            MC_CHECK (kk > last && in[kk] && iot_data_i32 (iot_data_map_iter_value (&it)) == 3 * kk, "iter-order", "key %d after %d", kk, last);
            last = kk; cnt++;
          }
          MC_CHECK (cnt == size, "iter", "%d entries visited of %d", cnt, size);
          last = INT_MAX; cnt = 0;
          while (iot_data_map_iter_prev (&it)) { int kk = iot_data_i32 (iot_data_map_iter_key (&it)); MC_CHECK (kk < last, "iter-prev", "key %d before %d", kk, last); last = kk; cnt++; }
          MC_CHECK (cnt == size, "iter-prev", "%d entries visited of %d", cnt, size);
          for (int j = 0; j < n; j++)
          {
            iot_data_t * kk = iot_data_alloc_i32 (j);
            MC_CHECK ((iot_data_map_get (m, kk) != NULL) == in[j], "lookup", "key %d", j);
            iot_data_free (kk);
          }
          mc_trans (1);
          mc_state (mc_mix (mc_mix ((uint64_t) (n * 1000 + pi * 100 + pd * 10 + keep), (uint64_t) r), (uint64_t) (ph * 1000 + i)));
        }
      }
    }
  }
  iot_data_free (m);
  dd_leaks ("big map");
}
/* Every kind of value, at every place of maps of up to 3 entries, through every getter and iterator accessor */
static const char * const akind[] = { "i8:-5", "u8:200", "i16:-300", "u16:60000", "i32:-70000", "u32:4000000000", "i64:-5000000000", "u64:18000000000000000000", "f32:0x1.8p+0", "f64:-0x1.4p+1", "b:0", "b:1", "p:0x1234", "s:0''", "s:3'abc'", "null", "B<u8>2[0102]", "A<i16>2[01020304]", "V<i32>(i32:1,i32:2)", "L<multi>(i32:1,s:1'x')", "M<str,multi>{s:1'a'=i32:1}" };
#define NAK ((int) (sizeof (akind) / sizeof (akind[0])))
static void s_access (void)
{
  static int something;
  dd_begin ();
  int d = mc_choose (5), n = mc_choose (4), at = n ? mc_choose (n) : 0, kind = n ? mc_choose (NAK) : 0, rest = n > 1 ? mc_choose (3) : 0;
  static const char * const others[] = { "i32:7", "s:1'o'", "p:0x77" };
  iot_data_t * m = iot_data_alloc_map (keytype (d)), * key[4];
  const iot_data_t * v[4] = { NULL };
  for (int i = 0; i < 4; i++) key[i] = mkkey (d, i);
  for (int i = n; i-- > 0; )
  {
    iot_data_t * x = i == at && akind[kind][0] == 'p' ? iot_data_alloc_pointer (&something, NULL) : i != at && rest == 2 ? iot_data_alloc_pointer (&something + 1, NULL) : dd_make (i == at ? akind[kind] : others[rest]);
    v[i] = x;
    iot_data_map_add (m, iot_data_add_ref (key[i]), x);
  }
  mc_log ("%d entries, %s at %d, others %s, key type %s\n", n, n ? akind[kind] : "", at, others[rest], dd_tn[keytype (d)]);
  for (int i = 0; i < 4; i++)
  {
    const iot_data_t * x = v[i];
    iot_data_type_t t = x ? iot_data_type (x) : IOT_DATA_INVALID;
    const char * s = d == 0 ? iot_data_string (key[i]) : NULL;
    for (int str = 0; str < (s ? 2 : 1); str++)
    {
#define G(f, ...) (str ? iot_data_string_map_get_##f (m, s, ##__VA_ARGS__) : iot_data_map_get_##f (m, key[i], ##__VA_ARGS__))
#define OF(T) (t == T ? x : NULL)
      MC_CHECK ((str ? iot_data_string_map_get (m, s) : iot_data_map_get (m, key[i])) == x, "lookup", "key %d", i);
      MC_CHECK (G (list) == OF (IOT_DATA_LIST) && G (map) == OF (IOT_DATA_MAP) && G (vector) == OF (IOT_DATA_VECTOR), "typed-get", "container getter of %s", x ? dd_tn[t] : "nothing");
      MC_CHECK (iot_data_map_get_array (m, key[i]) == OF (IOT_DATA_ARRAY), "typed-get", "array getter of %s", x ? dd_tn[t] : "nothing");
      MC_CHECK (G (string) == (t == IOT_DATA_STRING ? iot_data_string (x) : NULL), "typed-get", "string getter of %s", x ? dd_tn[t] : "nothing");
      MC_CHECK (G (pointer) == (t == IOT_DATA_POINTER ? (i == at ? (void *) &something : (void *) (&something + 1)) : NULL), "typed-get", "pointer getter of %s", x ? dd_tn[t] : "nothing");
      for (int b = 0; b < 2; b++) MC_CHECK (G (bool, b) == (t == IOT_DATA_BOOL ? iot_data_bool (x) : b), "typed-get", "bool getter of %s", x ? dd_tn[t] : "nothing");
      MC_CHECK (G (i64, 4) == (t == IOT_DATA_INT64 ? iot_data_i64 (x) : 4) && G (ui64, 5) == (t == IOT_DATA_UINT64 ? iot_data_ui64 (x) : 5) && G (f64, 6) == (t == IOT_DATA_FLOAT64 ? iot_data_f64 (x) : 6), "typed-get", "number getter of %s", x ? dd_tn[t] : "nothing");
      mc_trans (8);
    }
    for (int t2 = 0; t2 <= IOT_DATA_MULTI; t2++) MC_CHECK (iot_data_map_get_typed (m, key[i], (iot_data_type_t) t2) == (x && (int) t == t2 ? x : NULL), "typed-get", "getter of type %s of %s", dd_tn[t2], x ? dd_tn[t] : "nothing");
  }
  MC_CHECK (iot_data_map_key_type (m) == keytype (d), "key-type", "key type");
  for (int t2 = 0; t2 <= IOT_DATA_MULTI; t2++) MC_CHECK (iot_data_map_key_is_of_type (m, (iot_data_type_t) t2) == (t2 == (int) keytype (d)), "key-type", "keys of type %s", dd_tn[t2]);
  /* keys made by mkkey are in ascending order */
  const iot_data_t * first = n ? v[0] : NULL, * last = n ? v[n - 1] : NULL;
  MC_CHECK (iot_data_map_start (m) == first && iot_data_map_end (m) == last, "ends", "first or last value");
  MC_CHECK (iot_data_map_start_pointer (m) == (first ? iot_data_pointer (first) : NULL) && iot_data_map_end_pointer (m) == (last ? iot_data_pointer (last) : NULL), "ends", "first or last pointer");
  iot_data_map_iter_t it;
  iot_data_map_iter (m, &it);
  for (int i = -1, dir = 0; dir < 2; dir++)
  {
    for (int step = 0; step <= n; step++)
    {
      if (step) { i = dir ? n - step : step - 1; MC_CHECK (dir ? iot_data_map_iter_prev (&it) : iot_data_map_iter_next (&it), "iter", "iterator ends early"); }
      const iot_data_t * x = step ? v[i] : NULL;
      MC_CHECK (iot_data_map_iter_value (&it) == x, "iter", "value at %d", i);
      MC_CHECK (iot_data_map_iter_string_key (&it) == (x ? iot_data_string (iot_data_map_iter_key (&it)) : NULL), "iter-access", "string key");
      if (x) MC_CHECK (iot_data_equal (iot_data_map_iter_key (&it), key[i]), "iter-access", "key");
      MC_CHECK (iot_data_map_iter_string_value (&it) == (x && iot_data_type (x) == IOT_DATA_STRING ? iot_data_string (x) : NULL), "iter-access", "string value");
      MC_CHECK (iot_data_map_iter_pointer_value (&it) == (x && iot_data_type (x) == IOT_DATA_POINTER ? iot_data_pointer (x) : NULL), "iter-access", "pointer value");
      if (!x || iot_data_type (x) == IOT_DATA_BOOL) MC_CHECK (iot_data_map_iter_bool_value (&it) == (x ? iot_data_bool (x) : false), "iter-access", "bool value");
      mc_trans (5);
    }
    MC_CHECK (!(dir ? iot_data_map_iter_prev (&it) : iot_data_map_iter_next (&it)), "iter", "iterator does not end");
  }
  /* the same values in a list and a vector, through their typed accessors */
  iot_data_t * l = iot_data_alloc_list (), * vec = iot_data_alloc_vector (4);
  for (int i = 0; i < n; i++) { iot_data_list_head_push (l, iot_data_add_ref (v[i])); iot_data_vector_add (vec, (uint32_t) i, iot_data_add_ref (v[i])); }
  iot_data_list_iter_t li; iot_data_vector_iter_t vi;
  iot_data_list_iter (l, &li); iot_data_vector_iter (vec, &vi);
  for (int i = -1; i <= 4; i++)
  {
    const iot_data_t * x = i >= 0 && i < n ? v[i] : NULL;
    const char * s = x && iot_data_type (x) == IOT_DATA_STRING ? iot_data_string (x) : NULL;
    const void * p = x && iot_data_type (x) == IOT_DATA_POINTER ? iot_data_pointer (x) : NULL;
    if (i >= 0) { MC_CHECK (iot_data_vector_iter_next (&vi) == (i < 4), "vec-iter", "vector iteration at %d", i); if (i <= n) MC_CHECK (iot_data_list_iter_next (&li) == (i < n), "list-iter", "list iteration at %d", i); }
    if (i <= n) MC_CHECK (iot_data_list_iter_value (&li) == x && iot_data_list_iter_string_value (&li) == s && iot_data_list_iter_pointer_value (&li) == p, "list-iter", "list accessor at %d", i);
    MC_CHECK (iot_data_vector_iter_value (&vi) == x && iot_data_vector_iter_string_value (&vi) == s && iot_data_vector_iter_pointer_value (&vi) == p, "vec-iter", "vector accessor at %d", i);
    MC_CHECK (i >= 4 || i < 0 || !x || iot_data_type (x) != IOT_DATA_STRING || iot_data_vector_iter_string (&vi) == s, "vec-iter", "vector string at %d", i);
    if (i < 0 || i >= 4) MC_CHECK (iot_data_vector_iter_string (&vi) == NULL, "vec-iter", "string outside the vector");
    mc_trans (4);
  }
  static const char * const sought[] = { "x", "ab", "abc", "", "5", NULL };
  for (int q = 0; q < 6; q++)
  {
    const iot_data_t * want = NULL;
    for (int i = 0; i < n && !want; i++) if (sought[q] && iot_data_type (v[i]) == IOT_DATA_STRING && !strcmp (iot_data_string (v[i]), sought[q])) want = v[i];
    const iot_data_t * f = iot_data_vector_find (vec, iot_data_string_cmp, sought[q]), * g = iot_data_list_find (l, iot_data_string_cmp, sought[q]);
    MC_CHECK (f == want && g == want, "find", "finding string %s", sought[q] ? sought[q] : "(none)");
  }
  iot_data_free (l); iot_data_free (vec); iot_data_free (m);
  for (int i = 0; i < 4; i++) iot_data_free (key[i]);
  mc_state (mc_mix (mc_mix (mc_mix ((uint64_t) d, (uint64_t) n), mc_mix ((uint64_t) at, (uint64_t) kind)), (uint64_t) rest));
  dd_leaks ("accessors");
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] = {
    { "hist", s_hist, "every sequence of add, add-unused, remove, iterator replace, empty and merge over 4 keys of 4 key domains, typed and untyped" },
    { "perm", s_perm, "every insertion order followed by every removal order of n keys, 64 bit integer and mixed type keys" },
    { "big", s_big, "every combination of 7 sizes up to 200, 7 insertion and 7 removal orders, 4 removal densities, 1 or 2 rounds" },
    { "access", s_access, "21 kinds of value at every place of maps of up to 3 entries over 5 key types, every getter and accessor" } };
  return mc_main (argc, argv, sp, 4);
}
