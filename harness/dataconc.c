/* C14: ownership of shared data under all interleavings; C15: reading shared data from several threads */
#include "fib.h"
#include "iot/data.h"
#include "iot/time.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#define NT 3
static int ptr_freed[4];
static char ptr_val[4];
static void ptr_free (void * p)
{
  int i = (int) ((char *) p - ptr_val);
  MC_CHECK (i >= 0 && i < 4, "free-fn", "free function called with a foreign pointer");
  ptr_freed[i]++;
  MC_CHECK (ptr_freed[i] == 1, "free-fn", "pointer freed twice");
}
/* content of a value, by the public readers */
static uint64_t content (const iot_data_t * d)
{
  if (!d) return 3;
  iot_data_type_t t = iot_data_type (d);
  uint64_t h = mc_mix (7, t);
  switch (t)
  {
    case IOT_DATA_INT8: h = mc_mix (h, (uint64_t) iot_data_i8 (d)); break;
    case IOT_DATA_UINT32: h = mc_mix (h, iot_data_ui32 (d)); break;
    case IOT_DATA_INT64: h = mc_mix (h, (uint64_t) iot_data_i64 (d)); break;
    case IOT_DATA_FLOAT64: { double f = iot_data_f64 (d); h = mc_mix_bytes (h, &f, 8); break; }
    case IOT_DATA_BOOL: h = mc_mix (h, iot_data_bool (d)); break;
    case IOT_DATA_STRING: h = mc_mix_str (h, iot_data_string (d)); break;
    case IOT_DATA_POINTER: h = mc_mix (h, (uint64_t) ((const char *) iot_data_pointer (d) - ptr_val)); break;
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY: h = mc_mix (h, iot_data_array_type (d)); h = mc_mix_bytes (h, iot_data_address (d), iot_data_array_size (d)); break;
    case IOT_DATA_VECTOR: { iot_data_vector_iter_t it; iot_data_vector_iter (d, &it); while (iot_data_vector_iter_next (&it)) h = mc_mix (h, content (iot_data_vector_iter_value (&it))); break; }
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) h = mc_mix (h, content (iot_data_list_iter_value (&it))); break; }
    case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) { h = mc_mix (h, content (iot_data_map_iter_key (&it))); h = mc_mix (h, content (iot_data_map_iter_value (&it))); } break; }
    default: break;
  }
  return h;
}
static iot_data_t * str (const char * s) { return iot_data_alloc_string (s, IOT_DATA_COPY); }
#define LONG "a string that is longer than any block of the cache and so has to live in memory of its own, whatever"
#define MID "a string for one block"
static iot_data_static_t kst; static iot_data_t * ckey;
static iot_data_t * mk_map (int n)
{
  static const char * const k[] = { "b", "a", "d", "c" };
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
  for (int i = 0; i < n; i++) iot_data_map_add (m, str (k[i]), i == 1 ? str (MID) : iot_data_alloc_ui32 ((uint32_t) i));
  return m;
}
static iot_data_t * mk (int kind, int px)
{
  iot_data_t * d, * e;
  switch (kind)
  {
    case 0: return iot_data_alloc_ui32 (77);
    case 1: return str ("short");
    case 2: return str (MID);
    case 3: return str (LONG);
    case 4: return iot_data_alloc_pointer (&ptr_val[px], ptr_free);
    case 5: d = iot_data_alloc_list (); iot_data_list_tail_push (d, str (MID)); iot_data_list_head_push (d, iot_data_alloc_i64 (-5)); return d;
    case 6: d = iot_data_alloc_vector (2); iot_data_vector_add (d, 0, str (LONG)); iot_data_vector_add (d, 1, iot_data_alloc_pointer (&ptr_val[px], ptr_free)); return d;
    case 7: return mk_map (3);
    case 8: d = str ("meta"); iot_data_set_metadata (d, mk_map (1), ckey); return d;
    case 9: { uint32_t v[] = { 1, 2, 3 }; return iot_data_alloc_array (v, 3, IOT_DATA_UINT32, IOT_DATA_COPY); }
    case 10: d = mk_map (2); e = iot_data_alloc_vector (2); iot_data_vector_add (e, 0, str (MID)); iot_data_vector_add (e, 1, iot_data_alloc_pointer (&ptr_val[px], ptr_free)); iot_data_map_add (d, str ("v"), e); iot_data_set_metadata (d, str (LONG), ckey); return d;
    case 11: d = iot_data_alloc_list (); e = str (MID); for (int i = 0; i < 3; i++) iot_data_list_tail_push (d, iot_data_add_ref (e)); iot_data_free (e); return d; /* the same element three times */
    default: return NULL;
  }
}
#define NKIND 12
static const char * const kname[NKIND] = { "u32", "short string", "string", "long string", "pointer", "list", "vector", "map", "string with metadata", "array", "nested map with metadata", "list of one shared element" };
static iot_data_t * shared; static uint64_t want;
static iot_data_t * slot; static int nth;
static char gp[NT][5];
static int g_prog (const char * alpha, int len, int min, char * out)
{
  int na = (int) strlen (alpha), total = 0, pw = 1;
  for (int l = 1; l <= len; l++) { pw *= na; total += pw; }
  int ix = min + mc_choose (total - min), k = ix, l = 1;
  for (pw = na; k >= pw; l++, pw *= na) k -= pw;
  for (int j = 0; j < l; j++, k /= na) out[j] = alpha[k % na];
  out[l] = 0;
  return ix;
}
static void same (const char * what, const iot_data_t * d) { MC_CHECK (content (d) == want, "content", "%s: the content seen by thread %d has changed", what, fib_self ()); }
/* one shared value; r read, + add_ref and drop later, c copy, s shallow copy, w put into a container, k keep only a child, x metadata, m read counts */
static void t_share (void * a)
{
  int extra = 0;
  iot_data_t * d = shared; /* we own one reference */
  for (const char * p = gp[(long) a]; *p; p++)
  {
    mc_log ("T%d: %c\n", fib_self (), *p);
    switch (*p)
    {
      case 'r': same ("read", d); break;
      case '+': iot_data_add_ref (d); extra++; break;
      case '-': if (extra) { iot_data_free (d); extra--; } break;
      case 'c': { iot_data_t * c = iot_data_copy (d); if (iot_data_type (d) != IOT_DATA_POINTER && iot_data_type (d) != IOT_DATA_VECTOR && iot_data_type (d) != IOT_DATA_MAP) same ("copy", c); iot_data_free (c); break; }
      case 's': { iot_data_t * c = iot_data_shallow_copy (d); same ("shallow copy", c); iot_data_free (c); break; }
      case 'w': { iot_data_t * v = iot_data_alloc_vector (1); iot_data_vector_add (v, 0, iot_data_add_ref (d)); same ("element", iot_data_vector_get (v, 0)); iot_data_free (v); break; }
      case 'x':
      {
        const iot_data_t * m = iot_data_get_metadata (d, ckey);
        if (m) { iot_data_t * h = iot_data_add_ref (m); uint64_t c0 = content (h); fib_yield (); MC_CHECK (content (h) == c0, "content", "metadata changed"); iot_data_free (h); }
        break;
      }
      case 'k':
      {
        const iot_data_t * e = NULL;
        switch (iot_data_type (d))
        {
          case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); if (iot_data_list_iter_next (&it)) e = iot_data_list_iter_value (&it); break; }
          case IOT_DATA_VECTOR: e = iot_data_vector_get (d, 0); break;
          case IOT_DATA_MAP: e = iot_data_string_map_get (d, "a"); break;
          default: break;
        }
        if (!e) break;
        iot_data_t * h = iot_data_add_ref (e);
        uint64_t c0 = content (h);
        while (extra) { iot_data_free (d); extra--; }
        iot_data_free (d);
        fib_yield ();
        MC_CHECK (content (h) == c0, "content", "an element that is still held changed when its container went");
        MC_CHECK (iot_data_ref_count (h) >= 1, "refs", "held element has no owner");
        iot_data_free (h);
        return;
      }
      case 'm': MC_CHECK (iot_data_ref_count (d) >= 1 + (uint32_t) extra, "refs", "%u owners counted, at least %d there", iot_data_ref_count (d), 1 + extra); break;
    }
  }
  same ("before the last drop", d);
  while (extra--) iot_data_free (d);
  iot_data_free (d);
}
static void begin (void)
{
  ckey = iot_data_alloc_const_string (&kst, "key");
#ifdef VARIANT_FIBREL
  fib_leak_check (false);
#endif
}
static void s_share (void)
{
  begin ();
  nth = (int) mc_param ("threads", 2);
  int kind = mc_choose (NKIND), ix = 0;
#ifdef VARIANT_FIBREL
  iot_data_alloc_heap (mc_choose (2));
#endif
  shared = mk (kind, 0); want = content (shared);
  bool mainref = mc_choose (2);
  for (int i = 1; i < nth + mainref; i++) iot_data_add_ref (shared);
  mc_log ("%s, threads:", kname[kind]);
  const char * alpha = mc_param ("alpha", 0) ? "r+-cswkxm" : "+-wkc";
  for (int i = 0; i < nth; i++) { ix = g_prog (alpha, (int) mc_param ("len", 2), ix, gp[i]); mc_log (" %s", gp[i]); }
  mc_log ("\n");
  int t[NT];
  for (int i = 0; i < nth; i++) t[i] = fib_thread (t_share, (void *) (long) i);
  if (mainref) { same ("main", shared); iot_data_free (shared); }
  for (int i = 0; i < nth; i++) fib_join (t[i]);
  if (kind == 4 || kind == 6 || kind == 10) MC_CHECK (ptr_freed[0] == 1, "free-fn", "free function of the shared pointer called %d times", ptr_freed[0]);
}
/* allocation and release by several threads: nothing overlaps, nothing changes under its owner */
#define NLV 32
static struct { char * p; size_t n; } lv[NLV]; static int nlv;
static void claim (const void * p, size_t n)
{
  for (int i = 0; i < nlv; i++)
    MC_CHECK (!lv[i].p || (char *) p + n <= lv[i].p || lv[i].p + lv[i].n <= (char *) p, "overlap", "memory handed out twice while still in use");
  int k = 0;
  while (k < nlv && lv[k].p) k++;
  if (k == nlv) nlv++;
  MC_CHECK (k < NLV, "many", "too many live values");
  lv[k].p = (char *) p; lv[k].n = n;
}
static void unclaim (const void * p) { for (int i = 0; i < nlv; i++) if (lv[i].p == p) lv[i].p = NULL; }
/* v value (u32), t string in a block, l list, p map, b raw block, f free the oldest, F free the newest, g give to others, h take from others and free */
typedef struct own { char kind; iot_data_t * d; uint64_t c; } own;
static own osl; static bool osl_full;
static own make1 (char k, int me, int n)
{
  own o = { k, NULL, 0 };
  char s[40]; snprintf (s, sizeof (s), "T%d value %d of some length", me, n);
  switch (k)
  {
    case 'v': o.d = iot_data_alloc_ui32 ((uint32_t) (me * 16 + n)); break;
    case 't': o.d = str (s); break;
    case 'l': o.d = iot_data_alloc_list (); iot_data_list_tail_push (o.d, iot_data_alloc_ui32 ((uint32_t) (me * 16 + n))); break;
    case 'p': o.d = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (o.d, str (s), iot_data_alloc_ui32 ((uint32_t) n)); break;
    default: o.d = iot_data_block_alloc (iot_data_block_size ()); memset (o.d, me * 16 + n + 1, iot_data_block_size ()); o.c = (uint64_t) (me * 16 + n + 1); break;
  }
  MC_CHECK (o.d, "alloc", "nothing allocated");
  claim (o.d, k == 'b' ? iot_data_block_size () : 8);
  if (k != 'b') { o.c = content (o.d); MC_CHECK (iot_data_ref_count (o.d) == 1, "refs", "a new value has %u owners", iot_data_ref_count (o.d)); }
  if (k == 't') claim (iot_data_string (o.d), strlen (s) + 1);
  return o;
}
static void verify (own * o)
{
  if (o->kind == 'b') { for (uint32_t i = 0; i < iot_data_block_size (); i++) MC_CHECK (((uint8_t *) o->d)[i] == (uint8_t) o->c, "content", "a block changed under its owner"); }
  else MC_CHECK (content (o->d) == o->c, "content", "a value changed under its owner");
}
static void drop (own * o)
{
  verify (o);
  unclaim (o->d);
  if (o->kind == 't') unclaim (iot_data_string (o->d));
  if (o->kind == 'b') iot_data_block_free (o->d); else iot_data_free (o->d);
}
static void t_alloc (void * a)
{
  own st[8];
  int lo = 0, n = 0, me = (int) (long) a;
  for (const char * p = gp[me]; *p; p++)
  {
    mc_log ("T%d: %c\n", fib_self (), *p);
    switch (*p)
    {
      case 'f': if (lo < n) drop (&st[lo++]); break;
      case 'F': if (lo < n) drop (&st[--n]); break;
      case 'g': if (lo < n && !osl_full) { osl = st[--n]; osl_full = true; } break;
      case 'h': if (osl_full) { own o = osl; osl_full = false; drop (&o); } break;
      default: st[n] = make1 (*p, me, (int) (p - gp[me])); n++; break;
    }
  }
  for (int i = lo; i < n; i++) verify (&st[i]);
  for (int i = lo; i < n; i++) drop (&st[i]);
}
static void s_alloc (void)
{
  begin ();
  nth = (int) mc_param ("threads", 2);
  int ix = 0, room = 3;
  void * pre[256]; int np = 0;
  /* leave room for 0..3 blocks before the cache has to grow (or leave it as it is) */
#ifdef VARIANT_FIBREL
  room = mc_choose (4);
  fib_fixed (true);
  iot_data_alloc_heap (false);
  if (room < 3)
  {
    long l0 = fib_live ();
    while (fib_live () == l0 && np < 250) pre[np++] = iot_data_block_alloc (8); /* the last one came from a new page */
    int first = np;
    l0 = fib_live ();
    while (fib_live () == l0 && np < 250) pre[np++] = iot_data_block_alloc (8); /* a page holds np - first blocks; another one started */
    int page = np - first;
    while (page > 1 + room && np < 250) { pre[np++] = iot_data_block_alloc (8); page--; }
  }
  fib_fixed (false);
#endif
  mc_log ("room %d, threads:", room);
  for (int i = 0; i < nth; i++) { ix = g_prog (mc_param ("alpha", 0) ? "vtlpbfFgh" : "vtbfgh", (int) mc_param ("len", 3), ix, gp[i]); mc_log (" %s", gp[i]); }
  mc_log ("\n");
  int t[NT];
  for (int i = 0; i < nth; i++) t[i] = fib_thread (t_alloc, (void *) (long) i);
  for (int i = 0; i < nth; i++) fib_join (t[i]);
  if (osl_full) drop (&osl);
  for (int i = 0; i < np; i++) iot_data_block_free (pre[i]);
  /* the free list is whole: as many blocks as were released come back, all distinct */
  nlv = 0; memset (lv, 0, sizeof (lv));
  for (int i = 0; i < 6; i++) { pre[i] = iot_data_block_alloc (8); claim (pre[i], iot_data_block_size ()); }
  for (int i = 0; i < 6; i++) iot_data_block_free (pre[i]);
}
/* ---------------------------------------------------------------- C15 */
static iot_data_t * pair[2]; /* [0] in use by the threads, [1] the same again, for the sequential answers */
static iot_data_static_t cst[2]; static iot_data_t * ck[2];
#define NRK 14
static const char * const rname[NRK] = { "string map", "int map", "nested map", "list", "vector", "constant string", "string by reference", "array", "binary", "string with metadata", "map with metadata", "float", "map after removals", "list of maps" };
static iot_data_t * mkr (int kind, int w)
{
  iot_data_t * d, * e;
  switch (kind)
  {
    case 0: return mk_map (4);
    case 1: d = iot_data_alloc_map (IOT_DATA_INT64); for (int i = 0; i < 5; i++) iot_data_map_add (d, iot_data_alloc_i64 (i * 3 % 5), str (i & 1 ? MID : "s")); return d;
    case 2: d = mk_map (2); iot_data_map_add (d, str ("m"), mk_map (3)); e = iot_data_alloc_vector (2); iot_data_vector_add (e, 0, str (LONG)); iot_data_vector_add (e, 1, iot_data_alloc_f64 (1.5)); iot_data_map_add (d, str ("v"), e); return d;
    case 3: d = iot_data_alloc_list (); for (int i = 0; i < 4; i++) iot_data_list_tail_push (d, i & 1 ? str (MID) : iot_data_alloc_ui32 ((uint32_t) i)); return d;
    case 4: d = iot_data_alloc_vector (3); for (uint32_t i = 0; i < 3; i++) iot_data_vector_add (d, i, i & 1 ? str ("x") : iot_data_alloc_i64 (-(int) i)); return d;
    case 5: return ck[w] = iot_data_alloc_const_string (&cst[w], "constant");
    case 6: return iot_data_alloc_string ("by reference", IOT_DATA_REF);
    case 7: { uint32_t v[] = { 1, 2, 3 }; return iot_data_alloc_array (v, 3, IOT_DATA_UINT32, IOT_DATA_COPY); }
    case 8: { uint8_t v[] = { 1, 2, 3, 4, 5 }; return iot_data_alloc_binary (v, 5, IOT_DATA_COPY); }
    case 9: d = str ("12.5"); iot_data_set_metadata (d, mk_map (2), ckey); return d;
    case 10: d = mk_map (4); iot_data_set_metadata (d, str (MID), ckey); return d;
    case 11: return iot_data_alloc_f64 (2.25);
    case 12: d = mk_map (4); iot_data_string_map_remove (d, "b"); iot_data_string_map_remove (d, "d"); return d;
    default: d = iot_data_alloc_list (); iot_data_list_tail_push (d, mk_map (2)); iot_data_list_tail_push (d, mk_map (3)); return d;
  }
}
static bool is_str (const iot_data_t * d, const void * arg) { (void) arg; return iot_data_type (d) == IOT_DATA_STRING; }
static uint64_t opq (const iot_data_t * e) { return e ? content (e) : 9; }
#define NOP 14
static const char * const oname[NOP] = { "hash", "equal", "compare", "iterate", "find", "copy", "shallow copy", "to json", "cast", "metadata", "reverse iterate", "share", "to cbor", "hash twice" };
static uint64_t answer (int op, const iot_data_t * d, const iot_data_t * other)
{
  uint64_t h = (uint64_t) op;
  iot_data_type_t t = iot_data_type (d);
  switch (op)
  {
    case 0: return iot_data_hash (d);
    case 1: return iot_data_equal (d, other) * 2u + iot_data_equal (other, d);
    case 2: return (uint64_t) (3 + iot_data_compare (d, other)) * 8 + (uint64_t) (3 + iot_data_compare_value (other, d));
    case 3: return content (d);
    case 4:
      if (t == IOT_DATA_MAP)
      {
        static const char * const k[] = { "a", "b", "c", "d", "m", "v", "zz" };
        if (iot_data_map_key_type (d) == IOT_DATA_STRING) for (int i = 0; i < 7; i++) h = mc_mix (h, opq (iot_data_string_map_get (d, k[i])));
        else for (int i = -1; i < 6; i++) { iot_data_t * q = iot_data_alloc_i64 (i); h = mc_mix (h, opq (iot_data_map_get (d, q))); iot_data_free (q); }
       
      }
      else if (t == IOT_DATA_LIST) h = mc_mix (opq (iot_data_list_find (d, is_str, NULL)), iot_data_list_length (d));
      else if (t == IOT_DATA_VECTOR) h = mc_mix (opq (iot_data_vector_find (d, is_str, NULL)), iot_data_vector_size (d));
      return h;
    case 5: { iot_data_t * c = iot_data_copy (d); h = content (c); MC_CHECK (iot_data_equal (c, other), "copy", "copy differs"); iot_data_free (c); return h; }
    case 6: { iot_data_t * c = iot_data_shallow_copy (d); h = content (c); iot_data_free (c); return h; }
    case 7: { char * j = iot_data_to_json (d); h = mc_mix_str (h, j ? j : "-"); free (j); return h; }
    case 8: { int64_t v = -3; double f = 0; h = mc_mix (iot_data_cast (d, IOT_DATA_INT64, &v), (uint64_t) v); bool b = iot_data_cast (d, IOT_DATA_FLOAT64, &f); return mc_mix (mc_mix (h, b), (uint64_t) (f * 16)); }
    case 9: { h = mc_mix (opq (iot_data_get_metadata (d, ckey)), iot_data_get_tag (d, 1)); return h; }
    case 10:
      if (t == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_prev (&it)) h = mc_mix (h, content (iot_data_list_iter_value (&it))); }
      else if (t == IOT_DATA_MAP) { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_prev (&it)) h = mc_mix (h, content (iot_data_map_iter_key (&it))); }
      else if (t == IOT_DATA_VECTOR) { iot_data_vector_iter_t it; iot_data_vector_iter (d, &it); while (iot_data_vector_iter_prev (&it)) h = mc_mix (h, content (iot_data_vector_iter_value (&it))); }
      return h;
    case 11: { iot_data_t * r = iot_data_add_ref (d); h = content (r); iot_data_free (r); return h; }
    case 12: { iot_data_t * c = iot_data_to_cbor (d); h = content (c); iot_data_free (c); return h; }
    default: { uint32_t a = iot_data_hash (d), b = iot_data_hash (d); return a * 2ull + (a == b); }
  }
}
static uint64_t res[NT][2];
static char rops[NT][2];
static void t_read (void * a)
{
  int me = (int) (long) a;
  for (int k = 0; k < 2 && rops[me][k] >= 0; k++) { res[me][k] = answer (rops[me][k], pair[0], pair[1]); fib_yield (); }
}
static void s_read (void)
{
  begin ();
  nth = (int) mc_param ("threads", 2);
  int two = (int) mc_param ("ops", 1), kind = mc_choose (NRK), t[NT], ix = 0;
  pair[0] = mkr (kind, 0); 
  pair[1] = mkr (kind, 1);
  iot_data_t * seq = kind == 5 ? pair[1] : mkr (kind, 1);
  mc_log ("%s:", rname[kind]);
  for (int i = 0; i < nth; i++)
  {
    ix = ix + mc_choose (NOP - ix); rops[i][0] = (char) ix; rops[i][1] = -1;
    if (two > 1) rops[i][1] = (char) mc_choose (NOP);
    mc_log (" T%d %s%s%s", i + 1, oname[ix], two > 1 ? ", " : "", two > 1 ? oname[(int) rops[i][1]] : "");
  }
  mc_log ("\n");
  for (int i = 0; i < nth; i++) t[i] = fib_thread (t_read, (void *) (long) i);
  for (int i = 0; i < nth; i++) fib_join (t[i]);
  /* sequential answers, from data nobody else has touched */
  for (int i = 0; i < nth; i++) for (int k = 0; k < 2 && rops[i][k] >= 0; k++)
    MC_CHECK (res[i][k] == answer (rops[i][k], seq, pair[1]), "answer", "%s by thread %d gave another answer than it gives a single thread", oname[(int) rops[i][k]], i + 1);
  MC_CHECK (content (pair[0]) == content (seq), "content", "reading changed the data");
  if (kind != 5) MC_CHECK (iot_data_ref_count (pair[0]) == 1, "refs", "reading left %u owners", iot_data_ref_count (pair[0]));
  iot_data_free (pair[0]); iot_data_free (pair[1]); if (kind != 5) iot_data_free (seq);
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "share", s_share, "threads taking, using and dropping references to one value" },
    { "alloc", s_alloc, "threads allocating and releasing values and blocks, with handing over, around cache growth" },
    { "read", s_read, "threads reading one value: answers as for a single thread" },
  };
  return fib_main (argc, argv, sp, 3);
}
