/* D02: number of keys a lookup compares with, counted as the number of distinct stored keys whose value it reads */
#include "dd.h"
extern void (*tr_access) (const void * p, size_t n, int write);

#define MAXN 256
static const void * kaddr[MAXN]; static size_t klen; /* value storage of each stored key */
static int nk;
static bool touched[MAXN]; static int ntouched;
static int slotof (const void * p, size_t n)
{
  for (int i = 0; i < nk; i++) if ((const char *) p < (const char *) kaddr[i] + klen && (const char *) p + n > (const char *) kaddr[i]) return i;
  return -1;
}
static void hook (const void * p, size_t n, int w)
{
  if (w) return;
  int i = slotof (p, n);
  if (i >= 0 && !touched[i]) { touched[i] = true; ntouched++; }
}
static int height_bound (int n) { return (int) floor (2.0 * log2 ((double) n + 1.0) + 1e-9); }
static int domv;
static iot_data_t * key (int k) { return domv ? iot_data_alloc_f64 ((double) k) : iot_data_alloc_i64 (k); }
static void check_costs (const iot_data_t * map, const bool * in, int n)
{
  int size = (int) iot_data_map_size (map), worst = 0;
  nk = 0; klen = 8;
  iot_data_map_iter_t it;
  iot_data_map_iter (map, &it);
  while (iot_data_map_iter_next (&it)) kaddr[nk++] = iot_data_address (iot_data_map_iter_key (&it));
  int bound = height_bound (size);
  for (int k = -1; k <= n; k++)
  {
    iot_data_t * kk = key (k);
    memset (touched, 0, sizeof (touched)); ntouched = 0;
    tr_access = hook;
    const iot_data_t * v = iot_data_map_get (map, kk);
    tr_access = NULL;
    iot_data_free (kk);
    MC_CHECK ((v != NULL) == (k >= 0 && k < n && in[k]), "lookup", "lookup of key %d is wrong", k);
    MC_CHECK (!v || ntouched > 0, "vacuous", "a key was found without reading any");
    MC_CHECK (ntouched <= bound, "cost", "lookup of key %d in a map of %d entries compared with %d keys, a balanced tree needs at most %d", k, size, ntouched, bound);
    if (ntouched > worst) worst = ntouched;
  }
  mc_trans ((uint64_t) (n + 2));
  mc_outcome ((uint64_t) (size * 100 + worst));
}
static void s_perm (void)
{
  int n = (int) mc_param ("n", 6);
  bool in[16]; memset (in, 0, sizeof (in));
  domv = 0;
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_INT64);
  bool prev = true;
  uint64_t h = 1;
  for (int ph = 0; ph < 2; ph++)
  {
    for (int i = 0; i < n; i++)
    {
      int c = mc_choose (n - i), k = 0;
      for (;; k++) if (in[k] == (ph == 1) && c-- == 0) break;
      bool fresh = mc_fresh () || mc_replaying () || (i == n - 1 && prev);
      prev = fresh;
      mc_log ("%s %d\n", ph ? "remove" : "add", k);
      iot_data_t * kk = key (k);
      in[k] = ph == 0;
      if (ph == 0) iot_data_map_add (map, kk, iot_data_alloc_null ());
      else { iot_data_map_remove (map, kk); iot_data_free (kk); }
      h = mc_mix (h, (uint64_t) k);
      if (fresh) { check_costs (map, in, n); mc_state (h); }
    }
  }
  iot_data_free (map);
}
static int pat (int p, int n, int i)
{
  switch (p)
  {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return (i & 1) ? n - 1 - i / 2 : i / 2;
    case 3: return (i & 1) ? n / 2 + i / 2 + (n & 1) : n / 2 - i / 2 - !(n & 1);
    default: return (int) (((long) i * (p == 4 ? 37 : p == 5 ? 101 : 61)) % n);
  }
}
static void s_big (void)
{
  static const int sizes[] = { 8, 13, 16, 31, 64, 97, 128, 200 };
  int n = sizes[mc_choose (8)], pi = mc_choose (7), pd = mc_choose (7), keep = mc_choose (4), rounds = 1 + mc_choose (2);
  domv = mc_choose (2);
  bool in[MAXN]; memset (in, 0, sizeof (in));
  int step = n / 8;
  mc_log ("%d keys, insertion pattern %d, removal pattern %d, %d rounds, keep 1 in %d\n", n, pi, pd, rounds, keep + 1);
  iot_data_t * m = iot_data_alloc_map (domv ? IOT_DATA_FLOAT64 : IOT_DATA_INT64);
  for (int r = 0; r < rounds; r++)
  {
    for (int ph = 0; ph < 2; ph++)
    {
      for (int i = 0; i < n; i++)
      {
        int k = pat (ph ? (r ? (pd + 3) % 7 : pd) : pi, n, i);
        if (k < 0 || k >= n) continue;
        iot_data_t * kk = key (k);
        if (ph == 0) { in[k] = true; iot_data_map_add (m, kk, iot_data_alloc_null ()); }
        else
        {
          if (!(keep && k % (keep + 1) == 0)) { iot_data_map_remove (m, kk); in[k] = false; }
          iot_data_free (kk);
        }
        if (i % step == 0 || i >= n - 4) { check_costs (m, in, n); mc_state (mc_mix (mc_mix ((uint64_t) (n * 1000 + pi * 100 + pd * 10 + keep), (uint64_t) r), (uint64_t) (ph * 1000 + i))); }
      }
    }
  }
  iot_data_free (m);
}
/* Histories that work against the balance: each step depends on how deep the keys lie by now, as seen from the lookups */
static double ak[MAXN]; static int an; static uint16_t adep[MAXN]; static bool aleaf[MAXN];
static iot_data_t * amap; static double asgn;
static void ameasure (void)
{
  int bound = height_bound (an);
  nk = 0; klen = 8;
  iot_data_map_iter_t it;
  iot_data_map_iter (amap, &it);
  while (iot_data_map_iter_next (&it)) kaddr[nk++] = iot_data_address (iot_data_map_iter_key (&it));
  MC_CHECK (nk == an, "size", "%d entries instead of %d", nk, an);
  memset (aleaf, 1, sizeof (aleaf));
  for (int i = 0; i < an; i++)
  {
    iot_data_t * kk = iot_data_alloc_f64 (asgn * ak[i]);
    memset (touched, 0, sizeof (touched)); ntouched = 0;
    tr_access = hook;
    const iot_data_t * v = iot_data_map_get (amap, kk);
    tr_access = NULL;
    iot_data_free (kk);
    MC_CHECK (v && ntouched > 0, "lookup", "key %d is not found", i);
    MC_CHECK (ntouched <= bound, "cost", "lookup of key %d in a map of %d entries compared with %d keys, a balanced tree needs at most %d", i, an, ntouched, bound);
    adep[i] = (uint16_t) ntouched;
    for (int j = 0; j < an; j++) { int tj = asgn < 0 ? an - 1 - j : j; if (j != i && touched[tj]) aleaf[j] = false; }
  }
  mc_trans ((uint64_t) an);
}
static void ains (int at, double v)
{
  memmove (ak + at + 1, ak + at, sizeof (double) * (size_t) (an - at)); ak[at] = v; an++;
  iot_data_map_add (amap, iot_data_alloc_f64 (asgn * v), iot_data_alloc_null ());
}
static void adel (int at)
{
  iot_data_t * k = iot_data_alloc_f64 (asgn * ak[at]);
  MC_CHECK (iot_data_map_remove (amap, k), "remove", "key %d is not removed", at);
  iot_data_free (k);
  an--; memmove (ak + at, ak + at + 1, sizeof (double) * (size_t) (an - at));
}
#define NAOP 8
static void astep (int op)
{
  int deep = 0, shallow = -1;
  for (int i = 1; i < an; i++) if (adep[i] > adep[deep]) deep = i;
  switch (op)
  {
    case 0: ains (deep + 1, deep + 1 < an ? (ak[deep] + ak[deep + 1]) / 2 : ak[deep] + 1024); break;  /* just above the deepest */
    case 1: ains (deep, deep ? (ak[deep] + ak[deep - 1]) / 2 : ak[deep] - 1024); break;              /* just below it */
    case 2: for (int i = 0; i < an; i++) if (shallow < 0 || adep[i] < adep[shallow]) shallow = i; adel (shallow); break; /* the root */
    case 3: adel (deep > an - 1 - deep ? 0 : an - 1); break;                                          /* the farthest from it */
    case 4: for (int i = 0; i < an; i++) if (aleaf[i] && (shallow < 0 || adep[i] < adep[shallow])) shallow = i; adel (shallow); break; /* the leaf nearest the root */
    case 5: for (int i = an; i-- > 0; ) if (aleaf[i] && (shallow < 0 || adep[i] < adep[shallow])) shallow = i; adel (shallow); break; /* the last such */
    case 6: adel (an - 1); break;
    default: adel (0); break;
  }
}
static void s_adverse (void)
{
  static const int sizes[] = { 7, 15, 20, 31, 48 };
  asgn = mc_choose (2) ? 1 : -1;
  int n = sizes[mc_choose ((int) mc_param ("sizes", 4))], p = mc_choose (3), len = 1 + mc_choose ((int) mc_param ("word", 3)), w[4];
  for (int i = 0; i < len; i++) w[i] = mc_choose (NAOP);
  mc_log ("%d keys, pattern %d, steps", n, p); for (int i = 0; i < len; i++) mc_log (" %d", w[i]);
  mc_log ("\n");
  amap = iot_data_alloc_map (IOT_DATA_FLOAT64); an = 0;
  for (int i = 0; i < n; i++)
  {
    double v = 1024.0 * (p == 0 ? i : p == 1 ? n - i : (i * 7) % 48 + (double) i / 64);
    int at = 0; while (at < an && ak[at] < v) at++;
    ains (at, v);
  }
  int most = (int) mc_param ("steps", 45);
  uint64_t h = mc_mix ((uint64_t) n, (uint64_t) p);
  ameasure ();
  for (int i = 0; i < most && an > 2 && an < 100; i++)
  {
    astep (w[i % len]);
    ameasure ();
    for (int j = 0; j < an; j++) h = mc_mix (h, adep[j]);
    mc_state (h);
  }
  iot_data_free (amap);
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] = {
    { "perm", s_perm, "every insertion order followed by every removal order of n keys, cost of every lookup after each step" },
    { "big", s_big, "8 sizes up to 200, 7 insertion and 7 removal orders, 4 removal densities, 1 or 2 rounds, 2 key types" },
    { "adverse", s_adverse, "every word of up to 3 steps out of 8 that work against the balance, repeated, from 4 sizes and 3 insertion orders, and mirrored" } };
  return mc_main (argc, argv, sp, 3);
}
