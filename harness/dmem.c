/* D10 ownership histories against a reference-count model; D13 metadata and tags */
#include "dd.h"

/* ---------------------------------------------------------------- D10 */
typedef enum { T_PTR, T_STR, T_ARR, T_VEC, T_LIST, T_MAP, T_U8 } nt;
typedef struct node { nt t; int refs; iot_data_t * d; int ch[6], n, meta, id; } node;
#define NN 64
static node N[NN];
static int nn, freedc[NN], nptr, ptr_node[NN];
static void p_free (void * p) { long i = (long) p - 5000; MC_CHECK (i >= 0 && i < nptr, "bad-free", "free function called with a strange pointer"); freedc[i]++; MC_CHECK (freedc[i] == 1, "double-free", "pointer %ld freed twice", i); }
static int slot[3];
static int node_new (nt t, iot_data_t * d)
{
  node * x = &N[nn];
  memset (x, 0, sizeof (*x));
  x->t = t; x->refs = 1; x->d = d; x->meta = -1; x->id = -1;
  for (int i = 0; i < 6; i++) x->ch[i] = -1;
  return nn++;
}
static void node_drop (int i)
{
  if (i < 0 || --N[i].refs) return;
  for (int c = 0; c < 6; c++) { node_drop (N[i].ch[c]); N[i].ch[c] = -1; }
  node_drop (N[i].meta); N[i].meta = -1;
}
static bool reaches (int from, int to)
{
  if (from < 0) return false;
  if (from == to) return true;
  for (int c = 0; c < 6; c++) if (reaches (N[from].ch[c], to)) return true;
  return reaches (N[from].meta, to);
}
static iot_data_t * key_of (int k) { return iot_data_alloc_i8 ((int8_t) k); }
/* compares the real structure with the model, below node i */
static void same (int i, const iot_data_t * d)
{
  if (i < 0) { MC_CHECK (d == NULL, "structure", "something is where nothing was put"); return; }
  node * x = &N[i];
  MC_CHECK (d == x->d, "structure", "a different value is found than was put");
  MC_CHECK (iot_data_ref_count (d) == (uint32_t) x->refs, "refs", "reference count is %u with %d owners", iot_data_ref_count (d), x->refs);
  switch (x->t)
  {
    case T_PTR: MC_CHECK (iot_data_pointer (d) == (void *) (5000l + x->id) && freedc[x->id] == 0, "freed", "pointer value was released early or changed"); break;
    case T_STR: MC_CHECK (!strcmp (iot_data_string (d), x->id == 0 ? "a" : x->id == 1 ? "taken string, rather long to need its own block" : "fmt 17"), "content", "string reads '%s'", iot_data_string (d)); break;
    case T_U8: MC_CHECK (iot_data_ui8 (d) == 200, "content", "number reads %u", iot_data_ui8 (d)); break;
    case T_ARR: MC_CHECK (iot_data_array_length (d) == 3 && !memcmp (iot_data_address (d), "xyz", 3), "content", "array content"); break;
    case T_VEC: MC_CHECK (iot_data_vector_size (d) == (uint32_t) x->n, "structure", "vector size %u", iot_data_vector_size (d)); for (int c = 0; c < x->n; c++) same (x->ch[c], iot_data_vector_get (d, (uint32_t) c)); break;
    case T_LIST:
    {
      iot_data_list_iter_t it;
      MC_CHECK (iot_data_list_length (d) == (uint32_t) x->n, "structure", "list length %u", iot_data_list_length (d));
      iot_data_list_iter (d, &it);
      for (int c = 0; c < x->n; c++) { MC_CHECK (iot_data_list_iter_next (&it), "structure", "list ends early"); same (x->ch[c], iot_data_list_iter_value (&it)); }
      break;
    }
    case T_MAP:
    {
      uint32_t n = 0;
      for (int c = 0; c < 2; c++) { iot_data_t * k = key_of (c); same (x->ch[c], iot_data_map_get (d, k)); iot_data_free (k); n += x->ch[c] >= 0; }
      MC_CHECK (iot_data_map_size (d) == n, "structure", "map size %u", iot_data_map_size (d));
      break;
    }
  }
  dd_keys ();
  same (x->meta, iot_data_get_metadata (d, dd_key[0]));
}
static int copy_model (int i, const iot_data_t * d)
{
  if (i < 0) return -1;
  if (N[i].t == T_PTR) { N[i].refs++; return i; } /* pointers are shared by copies */
  int c = node_new (N[i].t, (iot_data_t *) d);
  node * x = &N[c];
  x->n = N[i].n; x->id = N[i].id;
  if (x->t == T_VEC) for (int k = 0; k < x->n; k++) x->ch[k] = copy_model (N[i].ch[k], iot_data_vector_get (d, (uint32_t) k));
  if (x->t == T_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); for (int k = 0; k < x->n; k++) { iot_data_list_iter_next (&it); x->ch[k] = copy_model (N[i].ch[k], iot_data_list_iter_value (&it)); } }
  if (x->t == T_MAP) for (int k = 0; k < 2; k++) { iot_data_t * ky = key_of (k); x->ch[k] = copy_model (N[i].ch[k], iot_data_map_get (d, ky)); iot_data_free (ky); }
  dd_keys ();
  x->meta = copy_model (N[i].meta, iot_data_get_metadata (d, dd_key[0]));
  return c;
}
static int alloc_kind (int k)
{
  int i;
  switch (k)
  {
    case 0: { int id = nptr++; freedc[id] = 0; i = node_new (T_PTR, iot_data_alloc_pointer ((void *) (5000l + id), p_free)); N[i].id = id; return i; }
    case 1: i = node_new (T_VEC, iot_data_alloc_vector (2)); N[i].n = 2; return i;
    case 2: return node_new (T_LIST, iot_data_alloc_list ());
    case 3: return node_new (T_MAP, iot_data_alloc_map (IOT_DATA_INT8));
    case 4: i = node_new (T_STR, iot_data_alloc_string ("a", IOT_DATA_COPY)); N[i].id = 0; return i;
    case 5: i = node_new (T_STR, iot_data_alloc_string (strdup ("taken string, rather long to need its own block"), IOT_DATA_TAKE)); N[i].id = 1; return i;
    case 6: { void * p = malloc (3); memcpy (p, "xyz", 3); return node_new (T_ARR, iot_data_alloc_array (p, 3, IOT_DATA_UINT8, IOT_DATA_TAKE)); }
    case 7: i = node_new (T_STR, iot_data_alloc_string_fmt ("fmt %d", 17)); N[i].id = 2; return i;
    default: return node_new (T_U8, iot_data_alloc_ui8 (200));
  }
}
static bool match_d (const iot_data_t * d, const void * arg) { return d == arg; }
typedef struct act { int op, a, b, c; } act;
enum { A_ALLOC, A_REF, A_FREE, A_VADD, A_VRES, A_VCOMP, A_VREP, A_VCLR, A_LHEAD, A_LTAIL, A_LPOPH, A_LPOPT, A_LREM, A_LREP, A_LIREM, A_LEMPTY, A_MADD, A_MUNUSED, A_MREM, A_MREP, A_MMERGE, A_MEMPTY, A_META, A_COPY, A_SHALLOW, A_COMPRESS, A_LISTFIND };
static int acts (act * v)
{
  int n = 0, e = -1;
  for (int s = 2; s >= 0; s--) if (slot[s] < 0) e = s;
  if (e >= 0) for (int k = 0; k < (int) mc_param ("kinds", 6); k++) v[n++] = (act) { A_ALLOC, e, k };
  for (int s = 0; s < 3; s++)
  {
    int x = slot[s];
    if (x < 0) continue;
    v[n++] = (act) { A_FREE, s };
    if (e >= 0) { v[n++] = (act) { A_REF, e, s }; v[n++] = (act) { A_COPY, e, s }; }
    nt t = N[x].t;
    if (e >= 0 && (t == T_VEC || t == T_LIST || t == T_MAP)) v[n++] = (act) { A_SHALLOW, e, s };
    if (t == T_VEC)
    {
      v[n++] = (act) { A_VRES, s, N[x].n == 2 ? 1 : N[x].n == 1 ? 3 : 2 };
      v[n++] = (act) { A_VCOMP, s };
      if (N[x].n) v[n++] = (act) { A_VCLR, s };
    }
    if (t == T_LIST) { v[n++] = (act) { A_LEMPTY, s }; if (e >= 0 && N[x].n) { v[n++] = (act) { A_LPOPH, e, s }; v[n++] = (act) { A_LPOPT, e, s }; } if (N[x].n) { v[n++] = (act) { A_LREM, s, 0 }; v[n++] = (act) { A_LREM, s, N[x].n - 1 }; v[n++] = (act) { A_LIREM, s }; } }
    if (t == T_MAP) { v[n++] = (act) { A_MEMPTY, s }; v[n++] = (act) { A_MREM, s, 0 }; v[n++] = (act) { A_MREM, s, 1 }; }
    for (int q = 0; q < 3; q++)
    {
      int y = slot[q];
      if (q == s || y < 0 || reaches (y, x)) continue; /* y goes into x: no cycles */
      if (t == T_VEC && N[x].n) { v[n++] = (act) { A_VADD, s, q, 0 }; v[n++] = (act) { A_VADD, s, q, N[x].n - 1 }; v[n++] = (act) { A_VREP, s, q }; }
      if (t == T_LIST && N[x].n < 5) { v[n++] = (act) { A_LHEAD, s, q }; v[n++] = (act) { A_LTAIL, s, q }; if (N[x].n) v[n++] = (act) { A_LREP, s, q }; }
      if (t == T_MAP) { v[n++] = (act) { A_MADD, s, q, 0 }; v[n++] = (act) { A_MADD, s, q, 1 }; v[n++] = (act) { A_MUNUSED, s, q, 0 }; if (N[x].ch[0] >= 0 || N[x].ch[1] >= 0) v[n++] = (act) { A_MREP, s, q }; if (N[y].t == T_MAP) { bool cyc = false; for (int c = 0; c < 2; c++) cyc |= reaches (N[y].ch[c], x); if (!cyc) v[n++] = (act) { A_MMERGE, s, q }; } }
      v[n++] = (act) { A_META, s, q };
    }
  }
  return n;
}
static void s_own (void)
{
  static const char * const an[] = { "alloc", "add_ref", "free", "vector add", "vector resize", "vector compact", "vector replace", "vector clear slot", "list push head", "list push tail", "list pop head", "list pop tail", "list remove", "list replace", "list iterator remove", "list empty", "map add", "map add unused", "map remove", "map replace", "map merge", "map empty", "set metadata", "copy", "shallow copy" };
  dd_keys ();
  dd_begin ();
  nn = 0; nptr = 0;
  for (int i = 0; i < 3; i++) slot[i] = -1;
  int depth = (int) mc_param ("depth", 4), pre = mc_choose (5);
  /* start with containers at hand */
  if (pre) { slot[0] = alloc_kind (pre > 3 ? 3 : pre); slot[1] = alloc_kind (pre > 3 ? 2 : 0); }
  for (int step = 0; step < depth; step++)
  {
    act v[128];
    int na = acts (v), z;
    act * p = &v[mc_choose (na)];
    bool fresh = mc_fresh () || mc_replaying ();
    int a = p->a, b = p->b, c = p->c;
    if (mc_replaying ()) mc_log ("%s %d %d %d\n", an[p->op], a, b, c);
    node * x = slot[a] >= 0 ? &N[slot[a]] : NULL;
    iot_data_t * d = x ? x->d : NULL;
    iot_data_t * k = NULL, * o;
    iot_data_list_iter_t li; iot_data_map_iter_t mi; iot_data_vector_iter_t vi;
    switch (p->op)
    {
      case A_ALLOC: slot[a] = alloc_kind (b); break;
      case A_REF: iot_data_add_ref (N[slot[b]].d); N[slot[b]].refs++; slot[a] = slot[b]; break;
      case A_FREE: iot_data_free (d); node_drop (slot[a]); slot[a] = -1; break;
      case A_VADD: iot_data_vector_add (d, (uint32_t) c, N[slot[b]].d); z = x->ch[c]; x->ch[c] = slot[b]; slot[b] = -1; node_drop (z); break;
      case A_VCLR: iot_data_vector_add (d, 0, NULL); z = x->ch[0]; x->ch[0] = -1; node_drop (z); break;
      case A_VRES: iot_data_vector_resize (d, (uint32_t) b); for (int i = b; i < x->n; i++) { z = x->ch[i]; x->ch[i] = -1; node_drop (z); } x->n = b; break;
      case A_VCOMP: { iot_data_vector_compact (d); int m = 0; for (int i = 0; i < x->n; i++) if (x->ch[i] >= 0) { int q = x->ch[i]; x->ch[i] = -1; x->ch[m++] = q; } x->n = m; break; }
      case A_VREP: iot_data_vector_iter (d, &vi); iot_data_vector_iter_next (&vi); o = iot_data_vector_iter_replace_value (&vi, N[slot[b]].d); z = x->ch[0]; x->ch[0] = slot[b]; slot[b] = z; MC_CHECK (o == (z < 0 ? NULL : N[z].d), "replace", "replaced value"); break;
      case A_LHEAD: iot_data_list_head_push (d, N[slot[b]].d); x->ch[x->n++] = slot[b]; slot[b] = -1; break;
      case A_LTAIL: iot_data_list_tail_push (d, N[slot[b]].d); memmove (x->ch + 1, x->ch, 5 * sizeof (int)); x->ch[0] = slot[b]; x->n++; slot[b] = -1; break;
      case A_LPOPH: { node * l = &N[slot[b]]; o = iot_data_list_head_pop (l->d); z = l->ch[--l->n]; l->ch[l->n] = -1; slot[a] = z; MC_CHECK (o == N[z].d, "pop", "popped value"); break; }
      case A_LPOPT: { node * l = &N[slot[b]]; o = iot_data_list_tail_pop (l->d); z = l->ch[0]; memmove (l->ch, l->ch + 1, 5 * sizeof (int)); l->ch[5] = -1; l->n--; slot[a] = z; MC_CHECK (o == N[z].d, "pop", "popped value"); break; }
      case A_LREM:
      {
        int at = -1;
        for (int i = 0; i < x->n && at < 0; i++) if (x->ch[i] == x->ch[b]) at = i; /* the first match goes */
        MC_CHECK (iot_data_list_remove (d, match_d, N[x->ch[b]].d), "remove", "list remove");
        z = x->ch[at]; memmove (x->ch + at, x->ch + at + 1, sizeof (int) * (size_t) (5 - at)); x->ch[5] = -1; x->n--; node_drop (z);
        break;
      }
      case A_LIREM: iot_data_list_iter (d, &li); iot_data_list_iter_next (&li); iot_data_list_iter_remove (&li); z = x->ch[0]; memmove (x->ch, x->ch + 1, 5 * sizeof (int)); x->ch[5] = -1; x->n--; node_drop (z); break;
      case A_LREP: iot_data_list_iter (d, &li); iot_data_list_iter_prev (&li); o = iot_data_list_iter_replace (&li, N[slot[b]].d); z = x->ch[x->n - 1]; x->ch[x->n - 1] = slot[b]; slot[b] = z; MC_CHECK (o == N[z].d, "replace", "replaced value"); break;
      case A_LEMPTY: iot_data_list_empty (d); for (int i = 0; i < x->n; i++) { z = x->ch[i]; x->ch[i] = -1; node_drop (z); } x->n = 0; break;
      case A_MADD: iot_data_map_add (d, key_of (c), N[slot[b]].d); z = x->ch[c]; x->ch[c] = slot[b]; slot[b] = -1; node_drop (z); break;
      case A_MUNUSED:
        k = key_of (c);
        if (iot_data_map_add_unused (d, k, N[slot[b]].d)) { MC_CHECK (x->ch[c] < 0, "unused", "added although the key is in use"); x->ch[c] = slot[b]; slot[b] = -1; }
        else { MC_CHECK (x->ch[c] >= 0, "unused", "not added although the key is free"); iot_data_free (k); }
        break;
      case A_MREM: k = key_of (b); MC_CHECK (iot_data_map_remove (d, k) == (x->ch[b] >= 0), "remove", "map remove"); iot_data_free (k); z = x->ch[b]; x->ch[b] = -1; node_drop (z); break;
      case A_MREP: { int w = x->ch[0] >= 0 ? 0 : 1; iot_data_map_iter (d, &mi); iot_data_map_iter_next (&mi); o = iot_data_map_iter_replace_value (&mi, N[slot[b]].d); z = x->ch[w]; x->ch[w] = slot[b]; slot[b] = z; MC_CHECK (o == N[z].d, "replace", "replaced value"); break; }
      case A_MMERGE: iot_data_map_merge (d, N[slot[b]].d); for (int i = 0; i < 2; i++) { int q = N[slot[b]].ch[i]; if (q < 0) continue; N[q].refs++; z = x->ch[i]; x->ch[i] = q; node_drop (z); } break;
      case A_MEMPTY: iot_data_map_empty (d); for (int i = 0; i < 2; i++) { z = x->ch[i]; x->ch[i] = -1; node_drop (z); } break;
      case A_META: iot_data_set_metadata (d, N[slot[b]].d, dd_key[0]); z = x->meta; x->meta = slot[b]; slot[b] = -1; node_drop (z); break;
      case A_COPY: { iot_data_t * cp = iot_data_copy (N[slot[b]].d); int sb = slot[b]; slot[a] = copy_model (sb, cp); break; }
      case A_SHALLOW:
      {
        iot_data_t * cp = iot_data_shallow_copy (N[slot[b]].d);
        int q = node_new (N[slot[b]].t, cp);
        N[q].n = N[slot[b]].n;
        for (int i = 0; i < 6; i++) { N[q].ch[i] = N[slot[b]].ch[i]; if (N[q].ch[i] >= 0) N[N[q].ch[i]].refs++; }
        slot[a] = q;
        break;
      }
    }
    if (nn > NN - 16) { mc_log ("model full\n"); abort (); }
    if (fresh)
    {
      uint64_t h = 1;
      for (int s = 0; s < 3; s++) same (slot[s], slot[s] < 0 ? NULL : N[slot[s]].d);
      for (int i = 0; i < nn; i++) { if (N[i].t == T_PTR) MC_CHECK (freedc[N[i].id] == (N[i].refs == 0), "released", "a pointer with %d owners was released %d times", N[i].refs, freedc[N[i].id]); h = mc_mix (h, (uint64_t) N[i].refs * 8 + N[i].t); for (int c2 = 0; c2 < 6; c2++) h = mc_mix (h, (uint64_t) (N[i].ch[c2] + 1)); }
      mc_state (h); mc_trans (1);
    }
  }
  for (int s = 0; s < 3; s++) if (slot[s] >= 0) { iot_data_free (N[slot[s]].d); node_drop (slot[s]); }
  for (int i = 0; i < nptr; i++) MC_CHECK (freedc[i] == 1, "released", "pointer %d was released %d times after its last owner let go", i, freedc[i]);
  dd_leaks ("ownership history");
}

/* ---------------------------------------------------------------- D13 */
static const char * const vals[] = { "i8:5", "u64:7", "f32:0x1p+0", "p:0x10", "s:3'abc'", "s:40'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'", "B<u8>2[0506]", "A<i16>1[0500]", "V<multi>(i8:5,_)", "L<i8>(i8:5)", "M<str,multi>{s:1'a'=i8:5}", "V<multi>()" };
#define NV 12
typedef struct md { iot_data_t * d; int m[3]; bool t[3]; bool ptr; } md;
static void s_meta (void)
{
  static sb a, b;
  dd_keys ();
  dd_begin ();
  int vi = mc_choose (NV), depth = (int) mc_param ("depth", 4);
  md o[3]; memset (o, 0, sizeof (o));
  int no = 2, frees = 0;
  iot_data_t * ref = dd_make (vals[vi]);
  uint32_t h0 = iot_data_hash (ref);
  char * j0 = iot_data_type (ref) == IOT_DATA_POINTER ? NULL : iot_data_to_json (ref);
  for (int i = 0; i < 2; i++) { o[i].d = dd_make (vals[vi]); for (int k = 0; k < 3; k++) o[i].m[k] = -1; }
  mc_log ("two of %s\n", vals[vi]);
  for (int step = 0; step < depth; step++)
  {
    int op = mc_choose (9), w = mc_choose (no);
    md * x = &o[w];
    bool fresh = mc_fresh () || mc_replaying ();
    if (op < 5)
    {
      static const int kk[] = { 0, 0, 1, 2, 2 };
      int k = kk[op], v = op == 1 ? 2 : op;
      mc_log ("set metadata %d of %d to %d\n", k, w, v);
      iot_data_set_metadata (x->d, v == 3 ? dd_make ("V<multi>(i8:3)") : iot_data_alloc_i8 ((int8_t) v), dd_key[k]);
      x->m[k] = v;
    }
    else if (op < 7)
    {
      bool nv = !x->t[op - 4]; /* tag 1 or 2 */
      mc_log ("set tag %d of %d to %d\n", op - 4, w, nv);
      MC_CHECK (iot_data_set_tag (x->d, op - 4, nv) == x->t[op - 4], "tag-old", "set_tag does not return the old value");
      x->t[op - 4] = nv;
      MC_CHECK (iot_data_set_tag (x->d, op - 4, nv) == nv, "tag-old", "set_tag does not return the old value");
    }
    else if (op == 7 && no < 3)
    {
      mc_log ("copy %d\n", w);
      o[no].d = iot_data_copy (x->d);
      bool shared = o[no].d == x->d; /* pointers */
      for (int k = 0; k < 3; k++) { o[no].m[k] = x->m[k]; o[no].t[k] = shared && x->t[k]; }
      if (shared) { iot_data_free (o[no].d); mc_log ("shared\n"); memset (&o[no], 0, sizeof (md)); }
      else no++;
    }
    else if (op == 8 && frees < 1)
    {
      mc_log ("release %d, make it anew\n", w);
      frees++;
      iot_data_free (x->d);
      x->d = dd_make (vals[vi]);
      for (int k = 0; k < 3; k++) { x->m[k] = -1; x->t[k] = false; }
    }
    else { for (int i = 0; i < no; i++) iot_data_free (o[i].d); iot_data_free (ref); free (j0); mc_prune (); }
    if (!fresh) continue;
    for (int i = 0; i < no; i++)
    {
      for (int k = 0; k < 3; k++)
      {
        const iot_data_t * m = iot_data_get_metadata (o[i].d, dd_key[k]);
        MC_CHECK ((m != NULL) == (o[i].m[k] >= 0), "metadata", "metadata %d of value %d is %s", k, i, m ? "there" : "missing");
        if (m) MC_CHECK (o[i].m[k] == 3 ? iot_data_type (m) == IOT_DATA_VECTOR && iot_data_vector_size (m) == 1 && iot_data_i8 (iot_data_vector_get (m, 0)) == 3 : iot_data_type (m) == IOT_DATA_INT8 && iot_data_i8 (m) == o[i].m[k], "metadata", "metadata %d of value %d is not what was set last", k, i);
      }
      iot_data_t * other = iot_data_alloc_string ("k3", IOT_DATA_REF), * same = iot_data_alloc_string ("k1", IOT_DATA_COPY);
      MC_CHECK (!iot_data_get_metadata (o[i].d, other), "metadata", "metadata under a key that was never set");
      MC_CHECK (iot_data_get_metadata (o[i].d, same) == iot_data_get_metadata (o[i].d, dd_key[0]), "metadata", "lookup by an equal key differs");
      iot_data_free (other); iot_data_free (same);
      iot_data_set_metadata (o[i].d, NULL, dd_key[0]); iot_data_set_metadata (NULL, o[i].d, dd_key[0]); iot_data_set_metadata (o[i].d, ref, NULL); /* no effect */
      MC_CHECK (!iot_data_get_metadata (NULL, dd_key[0]) && !iot_data_get_metadata (o[i].d, NULL), "metadata", "metadata of no value, or without a key");
      MC_CHECK (!iot_data_get_metadata (o[i].d, dd_key[0]) == (o[i].m[0] < 0), "metadata", "setting nothing changed the metadata");
      for (int t = 1; t <= 2; t++) MC_CHECK (iot_data_get_tag (o[i].d, t) == o[i].t[t], "tag", "tag %d of value %d", t, i);
      MC_CHECK (!strcmp (dd_str (&a, o[i].d, DD_TC), vals[vi]), "content", "content became %s", a.s);
      MC_CHECK (iot_data_hash (o[i].d) == h0 && iot_data_equal (o[i].d, ref) && iot_data_equal (ref, o[i].d) && iot_data_compare (o[i].d, ref) == 0 && iot_data_compare_value (ref, o[i].d) == 0, "identity", "metadata or tags changed hash or comparison");
      if (j0) { char * j = iot_data_to_json (o[i].d); MC_CHECK (!strcmp (j, j0), "json", "metadata or tags changed the JSON text to %s", j); free (j); }
      MC_CHECK (iot_data_ref_count (o[i].d) == 1, "refs", "reference count %u", iot_data_ref_count (o[i].d));
      mc_state (mc_mix (dd_hash (&a), (uint64_t) (o[i].m[0] + 5 * o[i].m[1] + 25 * o[i].m[2]) * 4 + o[i].t[1] * 2 + o[i].t[2]));
    }
    mc_trans (1);
  }
  for (int i = 0; i < no; i++) iot_data_free (o[i].d);
  iot_data_free (ref); free (j0);
  dd_leaks ("metadata history");
}
static const mc_space spaces[] = {
  { "own", s_own, "every history of allocation, sharing, container, copy and release operations on three variables against a reference count model" },
  { "meta", s_meta, "every history of metadata, tag, copy and release operations on values of every kind" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
