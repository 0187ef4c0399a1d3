/* D12: path get, add, update and remove against stepwise operations on a rebuilt value */
#include "dd.h"
static const char * const vals[] = { "i8:5", "null", "L<multi>(i8:5)", "V<multi>()", "V<multi>(i8:5,_)", "V<i8>(i8:5,_,i8:6)", "V<multi>(V<multi>(i8:5,i8:6),_,M<str,multi>{s:1'a'=i8:7})", "V<multi>(_,V<multi>(_,V<i8>(i8:1,i8:2)))",
  "M<str,multi>{}", "M<str,multi>{s:1'a'=i8:5}", "M<str,i8>{s:1'a'=i8:5,s:1'b'=i8:6}", "M<str,multi>{s:1'a'=M<str,multi>{s:1'a'=i8:5,s:1'b'=V<multi>(i8:1,_,i8:3)},s:1'b'=s:3'txt'}", "M<str,multi>{s:1'b'=V<multi>(M<i8,multi>{i8:1=i8:2},L<multi>(i8:5))}",
  "M<i8,multi>{i8:1=V<multi>(i8:1,V<multi>(i8:2)),i8:2=A<u8>1[05]}", "M<multi,multi>{u32:0=i8:1,i8:1=M<u32,multi>{u32:0=i8:2,u32:1=i8:3},s:1'a'=V<multi>(V<multi>(V<multi>(i8:1))),i32:0=i8:4}", "M<u32,multi>{u32:0=V<multi>(i8:1),u32:1=null}" };
#define NVAL (sizeof (vals) / sizeof (vals[0]))
static const char * const comps[] = { "s:1'a'", "s:1'b'", "i8:1", "u32:0", "u32:1", "u32:2", "u32:4000000000", "i32:0", "null" };
#define NC 9
static bool applies (const iot_data_t * d, const iot_data_t * k)
{
  if (iot_data_type (d) == IOT_DATA_MAP) return iot_data_map_key_is_of_type (d, iot_data_type (k)) || iot_data_map_key_type (d) == IOT_DATA_MULTI;
  return iot_data_type (d) == IOT_DATA_VECTOR && iot_data_type (k) == IOT_DATA_UINT32 && iot_data_ui32 (k) < iot_data_vector_size (d);
}
static iot_data_t * child (const iot_data_t * d, const iot_data_t * k)
{
  if (!d || !applies (d, k)) return NULL;
  return (iot_data_t *) (iot_data_type (d) == IOT_DATA_MAP ? iot_data_map_get (d, k) : iot_data_vector_get (d, iot_data_ui32 (k)));
}
static int calls; static const iot_data_t * called_with; static void * called_arg; static int fn_mode;
static iot_data_t * up (const iot_data_t * d, void * arg) { calls++; called_with = d; called_arg = arg; return fn_mode == 0 ? iot_data_alloc_i8 (8) : fn_mode == 1 ? iot_data_add_ref (d) : dd_make ("i8:8"); }
static void s_path (void)
{
  static sb src0, a, b;
  dd_begin ();
  int vi = mc_choose (NVAL), len = mc_choose ((int) mc_param ("len", 3) + 1), pc[8];
  for (int i = 0; i < len; i++) pc[i] = mc_choose (NC);
  int op = mc_choose (6);
  iot_data_t * src = dd_make (vals[vi]), * path = iot_data_alloc_list (), * keys[8], * res = NULL;
  for (int i = 0; i < len; i++) { keys[i] = dd_make (comps[pc[i]]); iot_data_list_tail_push (path, iot_data_add_ref (keys[i])); }
  static const char * const on[] = { "get", "add i8", "add vector", "remove", "update (new value)", "update (same value)" };
  mc_log ("%s at %s of %s\n", on[op], dd_str (&a, path, 0), vals[vi]);
  dd_str (&src0, src, DD_TC);
  /* reference: walk */
  iot_data_t * exp = dd_make (vals[vi]), * at = exp, * parent = NULL;
  const iot_data_t * sat = src;
  bool ok = true; /* every component but the last leads somewhere */
  for (int i = 0; i < len; i++)
  {
    parent = at;
    if (i + 1 < len || op == 0 || op >= 4) { at = child (at, keys[i]); sat = child (sat, keys[i]); if (!at) { ok = false; break; } }
    else ok = applies (at, keys[i]);
  }
  const char * want = NULL;
  bool skip = false;
  if (op == 0)
  {
    const iot_data_t * g = iot_data_get_at (src, path);
    MC_CHECK (g == (ok ? sat : NULL), "get", "get at gives %s", dd_str (&a, g, DD_TC));
  }
  else
  {
    iot_data_t * nv = op == 1 || op >= 4 ? dd_make ("i8:8") : op == 2 ? dd_make ("V<multi>(i8:1)") : NULL;
    if (op >= 4) fn_mode = op - 4;
    if (len == 0)
    {
      if (op != 3) { if (op == 5) { iot_data_free (nv); nv = iot_data_add_ref (exp); } iot_data_free (exp); exp = nv; nv = NULL; }
    }
    else if (ok)
    {
      iot_data_t * k = keys[len - 1];
      iot_data_type_t et = iot_data_type (parent) == IOT_DATA_MAP ? iot_data_map_type (parent) : iot_data_type (parent) == IOT_DATA_VECTOR ? iot_data_vector_type (parent) : IOT_DATA_MULTI;
      if (op != 3 && op != 5 && et != IOT_DATA_MULTI && et != iot_data_type (nv)) skip = true; /* not addable */
      else if (op == 5) {}
      else if (iot_data_type (parent) == IOT_DATA_MAP) { if (op == 3) iot_data_map_remove (parent, k); else { iot_data_map_add (parent, iot_data_add_ref (k), nv); nv = NULL; } }
      else if (op == 3)
      {
        uint32_t n = iot_data_vector_size (parent);
        for (uint32_t i = iot_data_ui32 (k) + 1; i < n; i++) iot_data_vector_add (parent, i - 1, iot_data_add_ref (iot_data_vector_get (parent, i)));
        iot_data_vector_resize (parent, n - 1);
      }
      else { iot_data_vector_add (parent, iot_data_ui32 (k), nv); nv = NULL; }
    }
    iot_data_free (nv);
    want = dd_str (&b, exp, DD_TC);
    calls = 0; called_with = NULL;
    if (!skip)
    {
      int arg;
      iot_data_t * val = op == 1 ? dd_make ("i8:8") : op == 2 ? dd_make ("V<multi>(i8:1)") : NULL;
      res = op == 1 || op == 2 ? iot_data_add_at (src, path, val) : op == 3 ? iot_data_remove_at (src, path) : iot_data_update_at (src, path, up, &arg);
      MC_CHECK (res != NULL, "result", "nothing returned");
      MC_CHECK (!strcmp (dd_str (&a, res, DD_TC), want), "result", "the result is %s, expected %s", a.s, want);
      if (op >= 4)
      {
        MC_CHECK (calls == (ok ? 1 : 0), "function", "update function called %d times", calls);
        if (ok) MC_CHECK (called_with == sat && called_arg == &arg, "function", "update function called with something else");
      }
      MC_CHECK (!strcmp (dd_str (&a, src, DD_TC), src0.s), "source", "the source became %s", a.s);
      /* what is not on the path is shared with the source */
      if (iot_data_type (src) == IOT_DATA_MAP && res != src && len)
      {
        iot_data_map_iter_t it; iot_data_map_iter (src, &it);
        while (iot_data_map_iter_next (&it)) if (!iot_data_equal (iot_data_map_iter_key (&it), keys[0])) MC_CHECK (iot_data_map_get (res, iot_data_map_iter_key (&it)) == iot_data_map_iter_value (&it), "shared", "an element off the path is not the source's");
      }
    }
  }
  MC_CHECK (iot_data_list_length (path) == (uint32_t) len, "path", "the path was consumed");
  bool first = mc_choose (2);
  if (first) iot_data_free (src);
  if (res) { MC_CHECK (!strcmp (dd_str (&a, res, DD_TC), want), "result", "after releasing the source the result reads %s", a.s); iot_data_free (res); }
  if (!first) { MC_CHECK (!strcmp (dd_str (&a, src, DD_TC), src0.s), "source", "after releasing the result the source reads %s", a.s); iot_data_free (src); }
  iot_data_free (path); iot_data_free (exp);
  for (int i = 0; i < len; i++) iot_data_free (keys[i]);
  mc_state (mc_mix (dd_hash (&src0), (uint64_t) ok)); mc_trans (1);
  dd_leaks ("path operation");
}
static const mc_space spaces[] = { { "path", s_path, "every value x path x operation" } };
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, 1); }
