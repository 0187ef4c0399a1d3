/* D03 lists, D04 vectors, D05 arrays, binaries and strings, against plain sequences */
#include "ddcast.h"

/* cells: pointer data with counted frees */
#define NC 64
static int freed[NC], ncell;
static void cell_free (void * p) { long i = (long) p - 1000; MC_CHECK (i >= 0 && i < ncell, "bad-free", "free function called with a strange pointer"); freed[i]++; MC_CHECK (freed[i] == 1, "double-free", "element %ld freed twice", i); }
static iot_data_t * cell (int * id) { *id = ncell++; freed[*id] = 0; return iot_data_alloc_pointer ((void *) (1000l + *id), cell_free); }
static int cell_id (const iot_data_t * d) { return d ? (int) ((long) iot_data_pointer (d) - 1000) : -1; }
static bool cell_cmp (const iot_data_t * d, const void * arg) { return (cell_id (d) & 1) == (int) (long) arg; }

/* ---------------------------------------------------------------- lists */
static int m[NC], n, pos; /* tail to head; iterator position, -1 none */
static iot_data_t * list;
static void m_ins (int at, int v) { memmove (m + at + 1, m + at, sizeof (int) * (size_t) (n - at)); m[at] = v; n++; }
static int m_del (int at) { int v = m[at]; memmove (m + at, m + at + 1, sizeof (int) * (size_t) (n - at - 1)); n--; return v; }
static void list_verify (void)
{
  MC_CHECK (iot_data_list_length (list) == (uint32_t) n && iot_data_length (list) == (uint32_t) n, "length", "length %u, expected %d", iot_data_list_length (list), n);
  iot_data_list_iter_t it; iot_data_iter_t gi;
  iot_data_list_iter (list, &it);
  iot_data_iter (list, &gi);
  for (int pass = 0; pass < 2; pass++)
  {
    for (int i = 0; i <= n; i++)
    {
      MC_CHECK (iot_data_list_iter_has_next (&it) == (i < n) && iot_data_iter_has_next (&gi) == (i < n), "has-next", "has_next at %d of %d", i, n);
      bool r = iot_data_list_iter_next (&it), g = iot_data_iter_next (&gi);
      MC_CHECK (r == (i < n) && g == r, "iter", "next at %d of %d", i, n);
      int id = cell_id (iot_data_list_iter_value (&it));
      MC_CHECK (id == (i < n ? m[i] : -1) && iot_data_iter_value (&gi) == iot_data_list_iter_value (&it), "iter-order", "element %d is %d, expected %d", i, id, i < n ? m[i] : -1);
      if (i < n) { MC_CHECK (freed[id] == 0, "freed", "element %d of the list was freed", i); MC_CHECK (iot_data_list_iter_pointer_value (&it) == (void *) (1000l + id), "iter", "pointer value"); }
    }
  }
  for (int pass = 0; pass < 2; pass++)
    for (int i = n - 1; i >= -1; i--)
    {
      bool r = iot_data_list_iter_prev (&it), g = iot_data_iter_prev (&gi);
      MC_CHECK (r == (i >= 0) && g == r, "iter-prev", "prev at %d of %d", i, n);
      MC_CHECK (cell_id (iot_data_list_iter_value (&it)) == (i >= 0 ? m[i] : -1), "iter-prev", "backward element %d", i);
    }
  for (int c = 0; c < 2; c++)
  {
    int want = -1;
    for (int i = 0; i < n && want < 0; i++) if ((m[i] & 1) == c) want = m[i];
    MC_CHECK (cell_id (iot_data_list_find (list, cell_cmp, (void *) (long) c)) == want, "find", "find of class %d", c);
  }
  uint64_t h = (uint64_t) pos + 7;
  for (int i = 0; i < n; i++) h = mc_mix (h, (uint64_t) m[i]);
  mc_state (h); mc_trans (1);
}
static void s_list (void)
{
  dd_begin ();
  ncell = 0; n = 0; pos = -1;
  iot_data_list_static_t st;
  int kind = mc_choose (3), pre = mc_choose (4), id;
  list = kind == 0 ? iot_data_alloc_list () : kind == 1 ? iot_data_alloc_typed_list (IOT_DATA_POINTER) : iot_data_alloc_const_list (&st);
  for (int i = 0; i < pre; i++) { iot_data_t * d = cell (&id); if (i == 1) { iot_data_list_tail_push (list, d); m_ins (0, id); } else { iot_data_list_head_push (list, d); m_ins (n, id); } }
  mc_log ("list kind %d with %d elements\n", kind, pre);
  iot_data_list_iter_t it;
  iot_data_list_iter (list, &it);
  int depth = (int) mc_param ("depth", 4);
  for (int step = 0; step < depth; step++)
  {
    int op = mc_choose (11);
    bool fresh = mc_fresh () || mc_replaying (), reset = op < 7;
    static const char * names[] = { "tail push", "head push", "tail pop", "head pop", "remove 0", "remove 1", "empty", "next", "prev", "iter remove", "iter replace" };
    mc_log ("%s\n", names[op]);
    switch (op)
    {
      case 0: { iot_data_t * d = cell (&id); iot_data_list_tail_push (list, d); m_ins (0, id); break; }
      case 1: { iot_data_t * d = cell (&id); iot_data_list_head_push (list, d); m_ins (n, id); break; }
      case 2: case 3:
      {
        iot_data_t * d = op == 2 ? iot_data_list_tail_pop (list) : iot_data_list_head_pop (list);
        MC_CHECK ((d != NULL) == (n > 0), "pop", "pop of a list of %d elements", n);
        if (!d) break;
        int want = m_del (op == 2 ? 0 : n - 1);
        MC_CHECK (cell_id (d) == want && freed[want] == 0 && iot_data_ref_count (d) == 1, "pop", "popped %d, expected %d, still valid", cell_id (d), want);
        iot_data_free (d);
        MC_CHECK (freed[want] == 1, "pop", "popped element not released by its owner");
        break;
      }
      case 4: case 5:
      {
        int at = -1;
        for (int i = 0; i < n && at < 0; i++) if ((m[i] & 1) == op - 4) at = i;
        bool r = iot_data_list_remove (list, cell_cmp, (void *) (long) (op - 4));
        MC_CHECK (r == (at >= 0), "remove", "remove returned %d", r);
        if (r) { int v = m_del (at); MC_CHECK (freed[v] == 1, "remove", "removed element not released"); }
        break;
      }
      case 6: iot_data_list_empty (list); for (int i = 0; i < n; i++) MC_CHECK (freed[m[i]] == 1, "empty", "element not released"); n = 0; break;
      case 7: { bool r = iot_data_list_iter_next (&it); pos = pos + 1 < n ? pos + 1 : -1; MC_CHECK (r == (pos >= 0), "iter", "next %d", r); break; }
      case 8: { bool r = iot_data_list_iter_prev (&it); pos = pos < 0 ? n - 1 : pos - 1; MC_CHECK (r == (pos >= 0), "iter-prev", "prev %d", r); break; }
      case 9:
      {
        bool r = iot_data_list_iter_remove (&it);
        MC_CHECK (r == (pos >= 0), "iter-remove", "iterator remove returned %d", r);
        if (r) { int v = m_del (pos); MC_CHECK (freed[v] == 1, "iter-remove", "removed element not released"); pos--; }
        break;
      }
      default:
      {
        iot_data_t * d = cell (&id), * old = iot_data_list_iter_replace (&it, d);
        MC_CHECK (cell_id (old) == (pos >= 0 ? m[pos] : -1), "iter-replace", "replaced element is %d", cell_id (old));
        if (old) { MC_CHECK (freed[m[pos]] == 0, "iter-replace", "replaced element was freed"); m[pos] = id; iot_data_free (old); }
        else iot_data_free (d);
        break;
      }
    }
    if (reset) { iot_data_list_iter (list, &it); pos = -1; }
    MC_CHECK (cell_id (iot_data_list_iter_value (&it)) == (pos >= 0 ? m[pos] : -1), "iter", "iterator is at %d, expected %d", cell_id (iot_data_list_iter_value (&it)), pos >= 0 ? m[pos] : -1);
    if (fresh) list_verify ();
  }
  if (kind == 2) iot_data_list_empty (list);
  iot_data_free (list);
  for (int i = 0; i < ncell; i++) MC_CHECK (freed[i] == 1, "leak", "element %d released %d times", i, freed[i]);
  dd_leaks ("list history");
}

/* ---------------------------------------------------------------- vectors */
static int vm[16], vn, vpos;
static iot_data_t * vec;
static void vec_verify (void)
{
  MC_CHECK (iot_data_vector_size (vec) == (uint32_t) vn && iot_data_length (vec) == (uint32_t) vn, "size", "size %u, expected %d", iot_data_vector_size (vec), vn);
  uint32_t cnt = 0;
  for (int i = 0; i < vn; i++)
  {
    int id = cell_id (iot_data_vector_get (vec, (uint32_t) i));
    MC_CHECK (id == vm[i], "slot", "slot %d holds %d, expected %d", i, id, vm[i]);
    MC_CHECK (iot_data_vector_get_pointer (vec, (uint32_t) i) == (vm[i] < 0 ? NULL : (void *) (1000l + vm[i])), "slot", "pointer of slot %d", i);
    if (id >= 0) { MC_CHECK (freed[id] == 0, "freed", "element of slot %d was freed", i); cnt++; }
  }
  MC_CHECK (iot_data_vector_get_pointer (vec, (uint32_t) vn) == NULL, "slot", "pointer beyond the end");
  MC_CHECK (iot_data_vector_element_count (vec, IOT_DATA_POINTER, false) == cnt && iot_data_vector_element_count (vec, IOT_DATA_MULTI, false) == cnt && iot_data_vector_element_count (vec, IOT_DATA_INT8, true) == 0, "count", "element count");
  iot_data_vector_iter_t it; iot_data_iter_t gi;
  iot_data_vector_iter (vec, &it);
  iot_data_iter (vec, &gi);
  for (int pass = 0; pass < 2; pass++)
    for (int i = 0; i <= vn; i++)
    {
      MC_CHECK (iot_data_vector_iter_has_next (&it) == (i < vn) && iot_data_iter_has_next (&gi) == (i < vn), "has-next", "has_next at %d of %d", i, vn);
      bool r = iot_data_vector_iter_next (&it), g = iot_data_iter_next (&gi);
      MC_CHECK (r == (i < vn) && g == r, "iter", "next at %d of %d is %d", i, vn, r);
      MC_CHECK (cell_id (iot_data_vector_iter_value (&it)) == (i < vn ? vm[i] : -1) && iot_data_iter_value (&gi) == iot_data_vector_iter_value (&it), "iter-order", "element %d", i);
      if (r) MC_CHECK (iot_data_vector_iter_index (&it) == (uint32_t) i, "iter", "index %u at %d", iot_data_vector_iter_index (&it), i);
    }
  iot_data_iter (vec, &gi);
  for (int pass = 0; pass < 2; pass++)
    for (int i = vn - 1; i >= -1; i--)
    {
      bool r = iot_data_vector_iter_prev (&it), g = iot_data_iter_prev (&gi);
      MC_CHECK (r == (i >= 0) && g == r, "iter-prev", "prev at %d of %d is %d", i, vn, r);
      MC_CHECK (iot_data_iter_value (&gi) == iot_data_vector_iter_value (&it), "iter-prev", "generic iterator differs at %d of %d", i, vn);
      MC_CHECK (iot_data_vector_iter_pointer_value (&it) == (r && vm[i] >= 0 ? (void *) (1000l + vm[i]) : NULL), "iter-prev", "pointer at %d of %d", i, vn);
      if (r) MC_CHECK (cell_id (iot_data_vector_iter_value (&it)) == vm[i], "iter-prev", "backward element %d", i);
    }
  for (int c = 0; c < 2; c++)
  {
    int want = -1;
    for (int i = 0; i < vn && want < 0; i++) if (vm[i] >= 0 && (vm[i] & 1) == c) want = vm[i];
    const iot_data_t * f = iot_data_vector_find (vec, cell_cmp, (void *) (long) c);
    MC_CHECK (cell_id (f) == want, "find", "find of class %d gives %d, expected %d", c, cell_id (f), want);
  }
  uint64_t h = (uint64_t) vpos + 7;
  for (int i = 0; i < vn; i++) h = mc_mix (h, (uint64_t) (vm[i] + 1));
  mc_state (h); mc_trans (1);
}
static void s_vec (void)
{
  dd_begin ();
  ncell = 0; vpos = -1;
  vn = mc_choose (5);
  bool typed = mc_choose (2);
  int id, filled = vn > 1 ? mc_choose (2) : 0;
  vec = typed ? iot_data_alloc_typed_vector ((uint32_t) vn, IOT_DATA_POINTER) : iot_data_alloc_vector ((uint32_t) vn);
  for (int i = 0; i < vn; i++) { vm[i] = -1; if (filled) { iot_data_t * d = cell (&id); iot_data_vector_add (vec, (uint32_t) i, d); vm[i] = id; } }
  mc_log ("vector of size %d%s\n", vn, filled ? " filled" : "");
  iot_data_vector_iter_t it;
  iot_data_vector_iter (vec, &it);
  int depth = (int) mc_param ("depth", 4);
  static const int sizes[] = { 0, 1, 2, 3, 5 };
  for (int step = 0; step < depth; step++)
  {
    int ns = vn < 4 ? vn : 4;
    int op = mc_choose (9 + 2 * ns);
    bool fresh = mc_fresh () || mc_replaying (), reset = op < 6 || op > 8;
    if (op < 5)
    {
      int s = sizes[op];
      mc_log ("resize %d\n", s);
      iot_data_vector_resize (vec, (uint32_t) s);
      for (int i = s; i < vn; i++) if (vm[i] >= 0) MC_CHECK (freed[vm[i]] == 1, "resize", "element beyond the new size not released");
      for (int i = vn; i < s; i++) vm[i] = -1;
      vn = s;
    }
    else if (op == 5)
    {
      mc_log ("compact\n");
      int k = 0;
      for (int i = 0; i < vn; i++) if (vm[i] >= 0) vm[k++] = vm[i];
      vn = k;
      uint32_t r = iot_data_vector_compact (vec);
      MC_CHECK (r == (uint32_t) vn, "compact", "compact returned %u, expected %d", r, vn);
    }
    else if (op == 6) { mc_log ("next\n"); bool r = iot_data_vector_iter_next (&it); vpos = vpos + 1 < vn ? vpos + 1 : -1; MC_CHECK (r == (vpos >= 0), "iter", "next %d", r); }
    else if (op == 7) { mc_log ("prev\n"); bool r = iot_data_vector_iter_prev (&it); vpos = vpos < 0 ? vn - 1 : vpos - 1; MC_CHECK (r == (vpos >= 0), "iter-prev", "prev %d", r); }
    else if (op == 8)
    {
      mc_log ("replace\n");
      iot_data_t * d = cell (&id), * old = iot_data_vector_iter_replace_value (&it, d);
      MC_CHECK (cell_id (old) == (vpos >= 0 ? vm[vpos] : -1), "iter-replace", "replaced element is %d", cell_id (old));
      if (old) { MC_CHECK (freed[vm[vpos]] == 0, "iter-replace", "replaced element was freed"); iot_data_free (old); }
      if (vpos >= 0) vm[vpos] = id; else iot_data_free (d);
    }
    else
    {
      int i = (op - 9) >> 1, old = vm[i];
      if (op & 1) { iot_data_t * d = cell (&id); mc_log ("set %d\n", i); iot_data_vector_add (vec, (uint32_t) i, d); vm[i] = id; }
      else { mc_log ("clear %d\n", i); iot_data_vector_add (vec, (uint32_t) i, NULL); vm[i] = -1; }
      if (old >= 0) MC_CHECK (freed[old] == 1, "set", "overwritten element not released");
    }
    if (reset) { iot_data_vector_iter (vec, &it); vpos = -1; }
    MC_CHECK (cell_id (iot_data_vector_iter_value (&it)) == (vpos >= 0 ? vm[vpos] : -1), "iter", "iterator value");
    if (fresh) vec_verify ();
  }
  iot_data_free (vec);
  for (int i = 0; i < ncell; i++) MC_CHECK (freed[i] == 1, "leak", "element %d released %d times", i, freed[i]);
  dd_leaks ("vector history");
}
/* conversions of vectors with every combination of elements; find with the library's own comparison */
static const num elems[] = { { IOT_DATA_INT8, -1, 0 }, { IOT_DATA_UINT8, 200, 0 }, { IOT_DATA_INT32, 70000, 0 }, { IOT_DATA_UINT64, UINT64_MAX, 0 }, { IOT_DATA_FLOAT64, 0, 1.5 }, { IOT_DATA_FLOAT32, 0, -3e9 }, { IOT_DATA_BOOL, 1, 0 } };
#define NE 12 /* 7 numbers, string, empty slot, nested vectors, list */
static void add_el (iot_data_t * v, uint32_t i, int e)
{
  iot_data_t * d = NULL;
  if (e < 7) d = num_alloc (&elems[e]);
  else if (e == 7) d = iot_data_alloc_string ("x", IOT_DATA_COPY);
  else if (e == 9) { d = iot_data_alloc_vector (3); iot_data_vector_add (d, 0, num_alloc (&elems[1])); iot_data_vector_add (d, 2, iot_data_alloc_string ("y", IOT_DATA_REF)); }
  else if (e == 10) { d = iot_data_alloc_vector (2); iot_data_t * x = iot_data_alloc_vector (1); iot_data_vector_add (x, 0, num_alloc (&elems[4])); iot_data_vector_add (d, 0, x); iot_data_vector_add (d, 1, num_alloc (&elems[0])); }
  else if (e == 11) { d = iot_data_alloc_list (); iot_data_list_tail_push (d, num_alloc (&elems[0])); }
  if (d) iot_data_vector_add (v, i, d);
}
static const iot_data_t * flat[64]; static int nflat;
static void flatten (const iot_data_t * v, bool rec)
{
  for (uint32_t i = 0; i < iot_data_vector_size (v); i++)
  {
    const iot_data_t * e = iot_data_vector_get (v, i);
    if (!e) continue;
    if (rec && iot_data_type (e) == IOT_DATA_VECTOR) flatten (e, true); else flat[nflat++] = e;
  }
}
static bool to_num (const iot_data_t * d, num * x)
{
  x->type = iot_data_type (d); x->i = 0; x->f = 0;
  switch (x->type)
  {
    case IOT_DATA_INT8: x->i = iot_data_i8 (d); return true; case IOT_DATA_UINT8: x->i = iot_data_ui8 (d); return true;
    case IOT_DATA_INT32: x->i = iot_data_i32 (d); return true; case IOT_DATA_UINT64: x->i = iot_data_ui64 (d); return true;
    case IOT_DATA_FLOAT32: x->f = iot_data_f32 (d); return true; case IOT_DATA_FLOAT64: x->f = iot_data_f64 (d); return true;
    case IOT_DATA_BOOL: x->i = iot_data_bool (d); return true;
    default: return false;
  }
}
static void s_conv (void)
{
  dd_begin ();
  int len = mc_choose ((int) mc_param ("len", 3) + 1);
  iot_data_t * v = iot_data_alloc_vector ((uint32_t) len);
  for (int i = 0; i < len; i++) add_el (v, (uint32_t) i, mc_choose (NE));
  static sb b1, b2;
  dd_str (&b1, v, DD_TC);
  mc_log ("vector %s\n", b1.s);
  const iot_data_t * fs = iot_data_vector_find (v, iot_data_string_cmp, "x");
  const iot_data_t * want = NULL;
  for (int i = 0; i < len && !want; i++) { const iot_data_t * e = iot_data_vector_get (v, (uint32_t) i); if (e && iot_data_type (e) == IOT_DATA_STRING) want = e; }
  MC_CHECK (fs == want, "find", "string not found, or found where there is none");
  for (int rec = 0; rec < 2; rec++)
  {
    nflat = 0; flatten (v, rec);
    for (int t = 0; t < NNT; t++)
    {
      int to = num_types[t];
      uint8_t buf[512]; uint32_t bn = 0, cnt = 0, es = iot_data_type_size ((iot_data_type_t) to);
      for (int i = 0; i < nflat; i++)
      {
        num x, o;
        if (to_num (flat[i], &x) && ref_cast (&x, to, &o) == 1) { bn += num_raw (&o, buf + bn); cnt++; }
      }
      iot_data_t * a = iot_data_vector_to_array (v, (iot_data_type_t) to, rec);
      MC_CHECK (a && iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == (iot_data_type_t) to && iot_data_array_length (a) == cnt && iot_data_array_size (a) == bn, "to-array", "array of %s has %u elements, expected %u (recurse %d)", dd_tn[to], iot_data_array_length (a), cnt, rec);
      for (uint32_t i = 0; i < cnt; i++) MC_CHECK (raw_same (to, (const uint8_t *) iot_data_address (a) + i * es, buf + i * es, es), "to-array", "element %u of the array of %s differs", i, dd_tn[to]);
      iot_data_free (a);
      iot_data_t * w = iot_data_vector_to_vector (v, (iot_data_type_t) to, rec);
      MC_CHECK (w && iot_data_vector_type (w) == (iot_data_type_t) to && iot_data_vector_size (w) == cnt, "to-vector", "vector of %s has %u elements, expected %u", dd_tn[to], iot_data_vector_size (w), cnt);
      for (uint32_t i = 0; i < cnt; i++)
      {
        const iot_data_t * e = iot_data_vector_get (w, i);
        MC_CHECK (e && iot_data_type (e) == (iot_data_type_t) to && raw_same (to, iot_data_address (e), buf + i * es, es), "to-vector", "element %u of the vector of %s differs", i, dd_tn[to]);
      }
      iot_data_free (w);
      mc_trans (2);
      mc_outcome (mc_mix_bytes ((uint64_t) (to * 2 + rec), buf, bn));
    }
    static const iot_data_type_t others[] = { IOT_DATA_STRING, IOT_DATA_VECTOR, IOT_DATA_LIST };
    for (int t = 0; t < 3; t++) /* non numeric: exactly the elements of that type, shared */
    {
      iot_data_t * w = iot_data_vector_to_vector (v, others[t], rec);
      uint32_t k = 0;
      for (int i = 0; i < nflat; i++) if (iot_data_type (flat[i]) == others[t]) { MC_CHECK (k < iot_data_vector_size (w) && iot_data_vector_get (w, k) == flat[i], "to-vector", "element %u of the vector of %s", k, dd_tn[others[t]]); k++; }
      MC_CHECK (iot_data_vector_size (w) == k, "to-vector", "vector of %s has %u elements, expected %u", dd_tn[others[t]], iot_data_vector_size (w), k);
      iot_data_free (w);
    }
  }
  dd_str (&b2, v, DD_TC);
  MC_CHECK (strcmp (b1.s, b2.s) == 0, "source", "conversion changed its source to %s", b2.s);
  iot_data_free (v);
  dd_leaks ("vector conversion");
}

/* ---------------------------------------------------------------- arrays, binaries, strings */
static int take_frees;
static void s_array (void)
{
  dd_begin ();
  (void) take_frees;
  int t = num_types[mc_choose (NNT)];
  uint32_t len = (uint32_t) mc_choose (6), es = iot_data_type_size ((iot_data_type_t) t), size = len * es;
  int own = mc_choose (3), own0 = own, bin = t == IOT_DATA_UINT8 ? mc_choose (2) : 0, nul = len == 0 ? mc_choose (2) : 0;
  uint8_t ref[64], * src = nul ? NULL : malloc (size ? size : 1), * keep = src;
  for (uint32_t i = 0; i < size; i++) ref[i] = (uint8_t) (0x41 + i * 37 + (i == 2 ? 0 : i));
  if (t == IOT_DATA_BOOL) for (uint32_t i = 0; i < size; i++) ref[i] = i & 1;
  if (src) memcpy (src, ref, size);
  mc_log ("%s of %u %s, ownership %d%s\n", bin ? "binary" : "array", len, dd_tn[t], own, nul ? ", no data" : "");
  iot_data_t * a = bin ? iot_data_alloc_binary (src, len, (iot_data_ownership_t) own) : iot_data_alloc_array (src, len, (iot_data_type_t) t, (iot_data_ownership_t) own);
  if (own == IOT_DATA_COPY) { if (src) memset (src, 0xee, size); free (src); keep = NULL; }
  bool isbin = bin, shared = false;
  iot_data_t * other = NULL;
  bool taken = false;
  int depth = (int) mc_param ("depth", 4);
  for (int step = 0; step < depth; step++)
  {
    int op = mc_choose (t == IOT_DATA_UINT8 ? 7 : 4);
    if (step == 0) op = op; 
    uint32_t n0 = taken ? 0 : len, s0 = taken ? 0 : size;
    switch (op)
    {
      case 0: /* deep copy replaces a */
      {
        mc_log ("copy\n");
        iot_data_t * c = iot_data_copy (a);
        MC_CHECK (iot_data_equal (c, a), "copy", "copy differs");
        iot_data_free (a); a = c; shared = false;
        break;
      }
      case 1: /* another reference */
        mc_log ("share\n");
        if (!other) { other = iot_data_add_ref (a); shared = true; }
        break;
      case 2: /* take the buffer */
      {
        mc_log ("take\n");
        uint32_t l = 999;
        bool sh = iot_data_ref_count (a) > 1;
        uint8_t * p = iot_data_binary_take (a, &l);
        MC_CHECK (l == s0 && (s0 == 0 || memcmp (p, ref, s0) == 0), "take", "taken buffer has %u bytes, expected %u, or other content", l, s0);
        if (p && p == keep && own == IOT_DATA_REF) mc_fail ("take", "a referenced buffer was given away");
        if (sh || own == IOT_DATA_REF) MC_CHECK (s0 == 0 || iot_data_array_size (a) == s0, "take", "the buffer of shared data was taken");
        if (iot_data_array_length (a) == 0) taken = true;
        memset (p, 0xdd, l ? l : 0);
        free (p);
        break;
      }
      case 3: if (isbin) break; /* transform to the same type and to u64 */
      {
        mc_log ("transform\n");
        for (int k = 0; k < 2; k++)
        {
          iot_data_type_t to = k ? IOT_DATA_BOOL : (iot_data_type_t) t;
          if (t == IOT_DATA_FLOAT32 && !k) continue; /* infinities */
          iot_data_t * x = iot_data_array_transform (a, to);
          MC_CHECK (iot_data_array_length (x) == n0 && iot_data_array_type (x) == to, "transform", "length %u, expected %u", iot_data_array_length (x), n0);
          if (!k && n0) MC_CHECK (memcmp (iot_data_address (x), ref, s0) == 0, "transform", "bytes differ");
          iot_data_free (x);
        }
        break;
      }
      case 4: mc_log ("to binary\n"); iot_data_array_to_binary (a); isbin = true; break;
      case 5: mc_log ("to array\n"); iot_data_binary_to_array (a); isbin = false; break;
      default: /* by way of a string */
      {
        if (!isbin) break;
        mc_log ("string and back\n");
        iot_data_t * s = iot_data_string_from_binary (a), * c = iot_data_binary_from_string (s);
        MC_CHECK (strlen (iot_data_string (s)) == s0 && memcmp (iot_data_string (s), ref, s0) == 0, "string", "string of the binary differs");
        MC_CHECK (iot_data_type (c) == IOT_DATA_BINARY && iot_data_equal (c, a), "string", "binary of the string differs");
        iot_data_free (s); iot_data_free (a); a = c; shared = false;
        own = IOT_DATA_COPY;
        break;
      }
    }
    if (op == 3 && isbin) { }
    n0 = taken ? 0 : len; s0 = taken ? 0 : size;
    MC_CHECK (iot_data_type (a) == (isbin ? IOT_DATA_BINARY : IOT_DATA_ARRAY), "type", "type %s", iot_data_type_name (a));
    MC_CHECK (iot_data_array_type (a) == (iot_data_type_t) t && iot_data_array_is_of_type (a, (iot_data_type_t) t), "type", "element type");
    MC_CHECK (iot_data_array_length (a) == n0 && iot_data_length (a) == n0 && iot_data_array_size (a) == s0, "length", "length %u size %u, expected %u %u", iot_data_array_length (a), iot_data_array_size (a), n0, s0);
    MC_CHECK (s0 == 0 || memcmp (iot_data_address (a), ref, s0) == 0, "bytes", "content differs");
    if (other && !taken) MC_CHECK (iot_data_array_size (other) == size && (size == 0 || memcmp (iot_data_address (other), ref, size) == 0), "bytes", "content of the shared value differs");
    iot_data_array_iter_t it;
    iot_data_array_iter (a, &it);
    for (uint32_t i = 0; i <= n0; i++)
    {
      MC_CHECK (iot_data_array_iter_has_next (&it) == (i < n0), "has-next", "has_next at %u of %u", i, n0);
      bool r = iot_data_array_iter_next (&it);
      MC_CHECK (r == (i < n0), "iter", "next at %u of %u", i, n0);
      const void * p = iot_data_array_iter_value (&it);
      MC_CHECK ((p != NULL) == r, "iter", "value at %u of %u", i, n0);
      if (r) { MC_CHECK (memcmp (p, ref + i * es, es) == 0 && iot_data_array_iter_index (&it) == i, "iter", "element %u differs", i); if (!isbin) MC_CHECK (iot_data_array_get (a, i) == p, "get", "get of element %u differs", i); }
    }
    for (uint32_t i = n0; i-- > 0; ) { MC_CHECK (iot_data_array_iter_prev (&it) && memcmp (iot_data_array_iter_value (&it), ref + i * es, es) == 0, "iter-prev", "element %u backwards", i); }
    MC_CHECK (!iot_data_array_iter_prev (&it), "iter-prev", "prev before the first element");
    iot_data_t * fresh = isbin ? iot_data_alloc_binary (s0 ? ref : NULL, n0, IOT_DATA_COPY) : iot_data_alloc_array (s0 ? ref : NULL, n0, (iot_data_type_t) t, IOT_DATA_COPY);
    MC_CHECK (iot_data_equal (fresh, a) && iot_data_hash (fresh) == iot_data_hash (a), "equal", "not equal to a new one of the same content");
    iot_data_free (fresh);
    mc_trans (1);
    mc_state (mc_mix (mc_mix ((uint64_t) (t * 8 + (int) len), (uint64_t) (own * 8 + isbin * 4 + taken * 2 + shared)), (uint64_t) (other != NULL)));
  }
  iot_data_free (other);
  iot_data_free (a);
  if (keep && own0 == IOT_DATA_REF) { MC_CHECK (memcmp (keep, ref, size) == 0, "ref", "referenced buffer was changed"); free (keep); }
  dd_leaks ("array history");
}
static void s_string (void)
{
  dd_begin ();
  int len = mc_choose (140), own = mc_choose (3), how = mc_choose (5), fill = mc_choose (3);
  char * s = malloc ((size_t) len + 1), ref[160];
  for (int i = 0; i < len; i++) ref[i] = fill == 0 ? 'a' : fill == 1 ? (char) (1 + (i * 7) % 255) : (char) 0xff;
  ref[len] = 0;
  strcpy (s, ref);
  mc_log ("string of %d, ownership %d, way %d\n", len, own, how);
  iot_data_static_t st;
  iot_data_t * d = how == 4 ? iot_data_alloc_const_string (&st, s) : how == 3 ? iot_data_alloc_string_fmt ("%s", s) : iot_data_alloc_string (s, (iot_data_ownership_t) own);
  if (how < 3 && own == IOT_DATA_COPY) { memset (s, 'z', (size_t) len); free (s); s = NULL; }
  if (how < 3 && own == IOT_DATA_TAKE) s = NULL;
  MC_CHECK (iot_data_type (d) == IOT_DATA_STRING && strcmp (iot_data_string (d), ref) == 0, "string", "content differs");
  if (how == 1 || how == 2)
  {
    iot_data_t * c = iot_data_copy (d);
    MC_CHECK (strcmp (iot_data_string (c), ref) == 0 && iot_data_equal (c, d), "copy", "copy differs");
    if (how == 2) { iot_data_free (d); d = c; MC_CHECK (strcmp (iot_data_string (d), ref) == 0, "copy", "copy differs after its source was freed"); }
    else iot_data_free (c);
  }
  iot_data_t * b = iot_data_binary_from_string (d);
  MC_CHECK (iot_data_array_size (b) == (uint32_t) len && memcmp (iot_data_address (b), ref, (size_t) len) == 0, "binary", "binary of the string differs");
  iot_data_t * r = iot_data_string_from_binary (b);
  MC_CHECK (iot_data_equal (r, d) && strcmp (iot_data_string (r), ref) == 0, "binary", "string of the binary differs");
  iot_data_free (b); iot_data_free (r);
  iot_data_free (d);
  free (s);
  dd_leaks ("string");
  mc_state ((uint64_t) (len * 100 + own * 10 + how)); mc_trans (1);
}
static void s_xform (void)
{
  dd_begin ();
  int from = num_types[mc_choose (NNT)], to = num_types[mc_choose (NNT)];
  static num v[400]; int nv = num_values (from, v);
  int k = mc_choose (nv);
  uint32_t es = iot_data_type_size ((iot_data_type_t) from), ts = iot_data_type_size ((iot_data_type_t) to);
  /* the value alone, and last behind two others */
  for (int pre = 0; pre < 3; pre++)
  {
    uint8_t * src = malloc (es * (size_t) (pre + 1)), exp[64]; uint32_t cnt = 0;
    int either = 0;
    for (int i = 0; i <= pre; i++)
    {
      num o; const num * x = i == pre ? &v[k] : &v[(k + i + 1) % nv];
      num_raw (x, src + (uint32_t) i * es);
      int r = ref_cast (x, to, &o);
      if (r == 2) either++;
      if (r == 1) { num_raw (&o, exp + cnt * ts); cnt++; }
    }
    iot_data_t * a = iot_data_alloc_array (src, (uint32_t) pre + 1, (iot_data_type_t) from, IOT_DATA_TAKE);
    iot_data_t * x = iot_data_array_transform (a, (iot_data_type_t) to);
    if (!either)
    {
      MC_CHECK (iot_data_array_length (x) == cnt && iot_data_array_type (x) == (iot_data_type_t) to, "transform", "%s array (last value %.17g / %lld) to %s gives %u elements, expected %u", dd_tn[from], v[k].f, (long long) v[k].i, dd_tn[to], iot_data_array_length (x), cnt);
      for (uint32_t i = 0; i < cnt; i++) MC_CHECK (raw_same (to, (const uint8_t *) iot_data_address (x) + i * ts, exp + i * ts, ts), "transform", "%s to %s: element %u differs", dd_tn[from], dd_tn[to], i);
    }
    iot_data_free (x); iot_data_free (a);
    mc_trans (1); mc_state (mc_mix_bytes ((uint64_t) (from * 100 + to * 10 + pre), exp, cnt * ts));
  }
  dd_leaks ("transform");
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] = {
    { "list", s_list, "every sequence of list and iterator operations, plain, typed and constant lists of 0..3 elements" },
    { "vec", s_vec, "every sequence of vector and iterator operations, sizes 0..4, filled and empty" },
    { "conv", s_conv, "every vector over an alphabet of 12 elements, converted to every type" },
    { "array", s_array, "every element type x length 0..5 x ownership x sequence of copy, share, take, transform and form changes" },
    { "string", s_string, "strings of length 0..139 by every constructor and ownership" },
    { "xform", s_xform, "array transformation between all type pairs over boundary values" } };
  return mc_main (argc, argv, sp, 6);
}
