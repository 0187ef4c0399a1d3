/* C10, C16: containers of many components, chains of many loggers, names of every length */
#include "dd.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/logger.h"
#include <unistd.h>
#define NMAX 1100
static const int size[] = { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000 };
static int pick (int max)
{
  int n = 0;
  while (n < (int) (sizeof (size) / sizeof (size[0])) && size[n] <= max) n++;
  return size[mc_choose (n)];
}
/* ------------------------------------------------------------- containers */
typedef struct tc { iot_component_t base; int i; } tc;
static tc * made[NMAX]; static int nmade, n_, shape, namelen; static int startat[NMAX], stopat[NMAX], starts[NMAX], stops[NMAX], frees[NMAX], clk;
static void nm (int i, char * b) { int k = sprintf (b, "c%d", i); while (k < namelen) b[k++] = 'x'; b[k] = 0; }
static tc * at (iot_component_t * b) { tc * c = (tc *) b; if (c->i < 0 || c->i >= n_ || made[c->i] != c) mc_fail ("dead", "call for a component that is not there"); return c; }
static void c_start (iot_component_t * b) { tc * c = at (b); starts[c->i]++; startat[c->i] = ++clk; iot_component_set_running (b); }
static void c_stop (iot_component_t * b) { tc * c = at (b); stops[c->i]++; stopat[c->i] = ++clk; iot_component_set_stopped (b); }
static void c_free (iot_component_t * b) { tc * c = at (b); frees[c->i]++; iot_component_fini (b); made[c->i] = NULL; free (c); }
static int refs (int i) /* index of the component referred to, or -1 */
{
  switch (shape) { case 1: return i + 1 < n_ ? i + 1 : -1; case 2: return i ? i - 1 : -1; case 3: return i ? i / 2 : -1; default: return -1; }
}
static iot_component_factory_t fa;
static iot_component_t * conf (iot_container_t * k, const iot_data_t * map)
{
  int i = (int) iot_data_string_map_get_i64 (map, "I", -1);
  MC_CHECK (i >= 0 && i < n_ && !made[i], "twice", "component %d created twice or out of range", i);
  if (refs (i) >= 0)
  {
    char b[600]; nm (refs (i), b);
    const tc * d = (tc *) iot_container_find_component (k, b);
    MC_CHECK (d && d == made[refs (i)] && d->i == refs (i), "find", "component %d of %d refers to %d, which is %s", i, n_, refs (i), d ? "another" : "not found");
  }
  tc * c = calloc (1, sizeof (*c));
  iot_component_init (&c->base, &fa, (iot_component_start_fn_t) c_start, (iot_component_stop_fn_t) c_stop);
  c->i = i; made[i] = c; nmade++;
  return &c->base;
}
static iot_component_factory_t fa = { "TM", "Many", conf, c_free, NULL, NULL };
static char * c_load (const char * name, const char * uri)
{
  (void) uri;
  if (!strcmp (name, "big"))
  {
    char * s = malloc ((size_t) n_ * (size_t) (namelen + 32) + 10), * p = s;
    *p++ = '{';
    for (int i = 0; i < n_; i++) { char b[600]; nm (i, b); p += sprintf (p, "%s\"%s\":\"TM\"", i ? "," : "", b); }
    strcpy (p, "}");
    return s;
  }
  if (*name != 'c') return NULL;
  char * s = malloc (40), b[600];
  int i = atoi (name + 1);
  nm (i, b);
  if (strcmp (b, name)) { free (s); return NULL; }
  sprintf (s, "{\"I\":%d}", i);
  return s;
}
static const iot_container_config_t cfg = { c_load, "u:", NULL };
static void s_container (void)
{
  static bool q;
  if (!q) { q = true; iot_logger_default (); iot_component_factory_add (&fa); }
  n_ = pick ((int) mc_param ("max", 300)); shape = mc_choose (4); namelen = (int[]) { 0, 63, 255, 300 } [mc_choose (4)];
  bool byinit = mc_choose (2), dropping = mc_choose (2);
  if (namelen && n_ > 130) mc_prune ();
  mc_log ("%d components, shape %d, names of at least %d characters, %s, %s\n", n_, shape, namelen, byinit ? "loaded by the container" : "added one by one", dropping ? "every third deleted" : "none deleted");
  nmade = clk = 0;
  memset (made, 0, sizeof (made)); memset (starts, 0, sizeof (starts)); memset (stops, 0, sizeof (stops)); memset (frees, 0, sizeof (frees));
  iot_container_config (&cfg);
  iot_container_t * k = iot_container_alloc ("big");
  if (byinit) { MC_CHECK (iot_container_init (k), "init", "container is not initialised"); }
  else for (int i = 0; i < n_; i++)
  {
    char b[600], j[40]; nm (i, b); sprintf (j, "{\"I\":%d}", i);
    if (!made[i]) iot_container_add_component (k, "TM", b, j);
  }
  MC_CHECK (nmade == n_, "count", "%d components made, %d configured", nmade, n_);
  for (int i = 0; i < n_; i++) { char b[600]; nm (i, b); MC_CHECK ((tc *) iot_container_find_component (k, b) == made[i], "find", "component %d of %d is not found under its name", i, n_); }
  iot_data_t * l = iot_container_list_components (k, NULL), * l2 = iot_container_list_components (k, "Many"), * l3 = iot_container_list_components (k, "Man");
  MC_CHECK (iot_data_list_length (l) == (uint32_t) n_ && iot_data_list_length (l2) == (uint32_t) n_ && iot_data_list_length (l3) == 0, "list", "%u, %u and %u components listed of %d", iot_data_list_length (l), iot_data_list_length (l2), iot_data_list_length (l3), n_);
  iot_data_free (l); iot_data_free (l2); iot_data_free (l3);
  iot_container_start (k);
  for (int i = 0; i < n_; i++)
  {
    MC_CHECK (starts[i] == 1, "start", "component %d of %d started %d times", i, n_, starts[i]);
    if (refs (i) >= 0) MC_CHECK (startat[refs (i)] < startat[i], "order", "component %d started before %d, which it uses", i, refs (i));
  }
  int left = n_;
  if (dropping)
  {
    iot_container_stop (k);
    for (int i = 0; i < n_; i += 3)
    {
      char b[600]; nm (i, b);
      /* only those that nothing uses */
      bool used = false; for (int j = 0; j < n_; j++) used |= made[j] && refs (j) == i;
      if (used && shape) continue;
      iot_container_delete_component (k, b);
      MC_CHECK (frees[i] == 1 && !made[i], "delete", "component %d of %d is not released by deleting it", i, n_);
      left--;
    }
    l = iot_container_list_components (k, NULL);
    MC_CHECK (iot_data_list_length (l) == (uint32_t) left, "list", "%u components listed, %d left", iot_data_list_length (l), left);
    iot_data_free (l);
    iot_container_start (k);
  }
  iot_container_stop (k);
  for (int i = 0; i < n_; i++) if (made[i])
  {
    MC_CHECK (starts[i] == 1 + dropping && stops[i] == 1 + dropping, "stop", "component %d of %d started %d, stopped %d times", i, n_, starts[i], stops[i]);
    if (refs (i) >= 0 && made[refs (i)]) MC_CHECK (stopat[i] < stopat[refs (i)], "order", "component %d stopped before %d, which uses it", refs (i), i);
  }
  iot_container_free (k);
  for (int i = 0; i < n_; i++)
  {
    MC_CHECK (frees[i] == 1, "free", "component %d of %d released %d times", i, n_, frees[i]);
  }
  mc_trans ((uint64_t) n_); mc_state (mc_mix ((uint64_t) n_, (uint64_t) (shape * 64 + namelen * 4 + byinit * 2 + dropping))); mc_outcome ((uint64_t) left);
}
/* ---------------------------------------------------------------- loggers */
static int got[NMAX], last, freedl[NMAX]; static bool disorder;
static void fn (iot_logger_t * l, iot_loglevel_t lv, uint64_t ts, const char * m, const void * ctx)
{
  (void) l; (void) lv; (void) ts; (void) m;
  int i = (int) (long) ctx - 1;
  got[i]++;
  if (i <= last) disorder = true;
  last = i;
}
static void freectx (void * c) { freedl[(long) c - 1]++; }
static void s_loggers (void)
{
  int n = pick ((int) mc_param ("max", 300)), pat = mc_choose (4), off = mc_choose (3);
  static iot_logger_t * l[NMAX];
  mc_log ("chain of %d loggers, levels by pattern %d, %s\n", n, pat, off == 0 ? "all running" : off == 1 ? "every second stopped" : "every fifth stopped and started");
  memset (freedl, 0, sizeof (freedl));
  int lv[NMAX]; bool run[NMAX];
  for (int i = n - 1; i >= 0; i--)
  {
    lv[i] = pat == 0 ? 5 : pat == 1 ? 1 + i % 5 : pat == 2 ? (i ? 3 : 5) : 5 - i * 5 / n;
    run[i] = true;
    l[i] = iot_logger_alloc_custom ("L", (iot_loglevel_t) lv[i], true, i + 1 < n ? l[i + 1] : NULL, fn, (void *) (long) (i + 1), freectx);
    if (off == 1 && (i & 1)) { iot_logger_stop (l[i]); run[i] = false; }
    if (off == 2 && i % 5 == 0) { iot_logger_stop (l[i]); iot_logger_start (l[i]); }
  }
  for (int m = 1; m <= 5; m++)
  {
    memset (got, 0, sizeof (got)); last = -1; disorder = false;
    iot_log_log (l[0], (iot_loglevel_t) m, "x");
    for (int i = 0; i < n; i++)
    {
      int want = run[0] && lv[0] >= m && run[i] && lv[i] >= m;
      MC_CHECK (got[i] == want, "chain", "message of level %d reached logger %d of %d (level %d, %s) %d times", m, i, n, lv[i], run[i] ? "running" : "stopped", got[i]);
    }
    MC_CHECK (!disorder, "order", "message of level %d not delivered in chain order", m);
  }
  /* each logger of the chain holds its successor */
  for (int i = n - 1; i > 0; i--) iot_logger_free (l[i]);
  for (int i = 0; i < n; i++) MC_CHECK (!freedl[i], "free", "logger %d of %d released while it is in use", i, n);
  iot_logger_free (l[0]);
  for (int i = 0; i < n; i++) MC_CHECK (freedl[i] == 1, "free", "logger %d of %d released %d times", i, n, freedl[i]);
  mc_trans ((uint64_t) n * 5); mc_state (mc_mix ((uint64_t) n, (uint64_t) (pat * 4 + off))); mc_outcome ((uint64_t) n);
}
static const mc_space spaces[] = {
  { "container", s_container, "containers of many components in four shapes" },
  { "loggers", s_loggers, "chains of many loggers" } };
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, 2); }
