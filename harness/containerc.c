/* C11: containers used from several threads, every schedule within the bound */
#include "fib.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/logger.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define MAXC 24
typedef struct tcomp { iot_component_t base; int id, alive; } tcomp;
/* components made, in order; name index 0..4 (a b c n m) + 5 * container */
static struct { int ix; bool freed; bool started; int by; uint64_t t1; } made[MAXC]; static int nmade;
static const char * const nn[] = { "a", "b", "c", "n", "m" };
static iot_container_t * conts[2];
static struct { char op; int ix; int k; uint64_t t0, t1; int res; int th; int called[MAXC]; int step; bool begun; } ev[16]; static int nev;
static int curop[16]; /* by thread */
static int slow; /* a component that does not start by itself */
static tcomp * cast (iot_component_t * b) { tcomp * c = (tcomp *) b; MC_CHECK (c->alive == 77, "dead", "callback for a component that is not there"); return c; }
static void count (tcomp * c, char kind) { int e = curop[fib_self ()]; if (e >= 0 && ev[e].op == kind) { ev[e].called[c->id]++; MC_CHECK (ev[e].called[c->id] == 1, "twice", "component %s called twice by one call", nn[made[c->id].ix % 5]); } }
static void c_start (iot_component_t * b) { tcomp * c = cast (b); count (c, 'S'); made[c->id].started = true; fib_yield (); iot_component_set_running (b); }
static void c_stop (iot_component_t * b) { tcomp * c = cast (b); count (c, 'P'); made[c->id].started = false; fib_yield (); iot_component_set_stopped (b); }
static void c_free (iot_component_t * b)
{
  tcomp * c = cast (b);
  MC_CHECK (!made[c->id].freed, "free", "component released twice");
  made[c->id].freed = true; made[c->id].t1 = fib_event ();
  c->alive = 0;
  iot_component_fini (b);
  free (c);
}
static iot_component_factory_t f0;
static iot_component_t * config (iot_container_t * k, const iot_data_t * map)
{
  const iot_data_t * refs = iot_data_string_map_get (map, "R");
  fib_yield ();
  if (refs)
  {
    iot_data_vector_iter_t it; iot_data_vector_iter (refs, &it);
    while (iot_data_vector_iter_next (&it))
    {
      iot_component_t * d = iot_container_find_component (k, iot_data_vector_iter_string (&it));
      if (!d) { mc_log ("T%d: needed component not found\n", fib_self ()); return NULL; }
    }
  }
  tcomp * c = calloc (1, sizeof (*c));
  iot_component_init (&c->base, &f0, c_start, c_stop);
  c->alive = 77; c->id = nmade++;
  MC_CHECK (c->id < MAXC, "many", "components are created without end");
  int n = 0; while (strcmp (nn[n], iot_data_string_map_get_string (map, "I"))) n++;
  made[c->id].ix = n + 5 * (k == conts[1]); made[c->id].freed = false; made[c->id].by = curop[fib_self ()]; made[c->id].t1 = UINT64_MAX;
  mc_log ("T%d: creates %s in %d\n", fib_self (), nn[n], k == conts[1]);
  return &c->base;
}
static iot_component_factory_t f0 = { "T0", "Cat", config, c_free, NULL, NULL };
static char * c_load (const char * name, const char * uri)
{
  const char * t = !strcmp (name, "main") || !strcmp (name, "side") ? "{\"a\":\"T0\",\"b\":\"T0\",\"c\":\"T0\"}" : !strcmp (name, "a") ? "{\"I\":\"a\",\"R\":[\"b\"]}" : !strcmp (name, "b") ? "{\"I\":\"b\"}" : !strcmp (name, "c") ? "{\"I\":\"c\"}" : NULL;
  return t ? strdup (t) : NULL;
}
static const iot_container_config_t conf = { c_load, "u:", NULL };
typedef struct cfg { const char * pre; const char * prog[3]; } cfg;
/* f find, d delete, r read, x add, L list, S start, P stop, I init; names lower case in one container, upper case in the other; L S P I followed by 0 or 1 */
static const cfg conc[] =
{
  { "", { "fa", "fa" } }, { "", { "fa", "fb" } }, { "", { "fa", "fc" } }, { "", { "fb", "fb", "fb" } }, { "", { "fb", "fc" } }, { "", { "fafc", "fc" } }, { "", { "fafb", "fc" } },
  { "fb", { "fa", "fa" } }, { "fa", { "fa", "da" } }, { "fb", { "fb", "db" } }, { "fa", { "da", "da" } }, { "fafc", { "da", "fb", "L0" } }, { "fafc", { "dafa", "dc" } },
  { "", { "xn", "xm" } }, { "", { "xn", "fn" } }, { "", { "xn", "L0" } }, { "fc", { "xn", "L0", "fc" } }, { "fc", { "xn", "dc" } }, { "", { "xn", "fb" } }, { "", { "fb", "L0" } }, { "", { "fa", "L0" } }, { "fb", { "rb", "db" } }, { "", { "rb", "fb" } },
  { "fb", { "S0", "fc" } }, { "fb", { "S0", "db" } }, { "fafc", { "S0", "P0" } }, { "fb", { "S0P0", "db" } }, { "fb", { "S0", "xn" } }, { "fb", { "P0", "fc" } }, { "fbfcS0", { "P0", "dc" } }, { "fbfcS0", { "P0", "L0", "fa" } },
  { "", { "I0", "fa" } }, { "", { "I0", "fc" } }, { "", { "I0", "L0" } }, { "", { "I0", "I0" } }, { "", { "I0", "xn" } },
  { "", { "fa", "fA" } }, { "", { "fb", "fB" } }, { "", { "I0", "I1" } }, { "fbfB", { "S0", "dB" } }, { "fbfB", { "P0", "S1" } }, { "", { "xn", "xN" } }, { "fb", { "db", "fB" } },
};
static void op1 (char op, char name, int th)
{
  int i = nev++;
  ev[i].op = op; ev[i].th = th; ev[i].k = name == '1' || (name >= 'A' && name <= 'Z');
  ev[i].ix = -1;
  for (int n = 0; n < 5; n++) if ((nn[n][0] | 32) == (name | 32)) ev[i].ix = n;
  ev[i].t1 = UINT64_MAX; ev[i].begun = true; ev[i].t0 = fib_event ();
  curop[fib_self ()] = i;
  iot_container_t * k = conts[ev[i].k]; const char * nm = ev[i].ix >= 0 ? nn[ev[i].ix] : "";
  iot_data_t * d; char text[40];
  switch (op)
  {
    case 'f': ev[i].res = iot_container_find_component (k, nm) != NULL; break;
    case 'd': iot_container_delete_component (k, nm); break;
    case 'r': d = iot_container_component_read (k, nm); ev[i].res = d != NULL; iot_data_free (d); break;
    case 'x': snprintf (text, sizeof (text), "{\"I\":\"%s\"}", nm); iot_container_add_component (k, "T0", nm, text); break;
    case 'S': iot_container_start (k); break;
    case 'P': iot_container_stop (k); break;
    case 'I': ev[i].res = iot_container_init (k); break;
    default:
    {
      d = iot_container_list_components (k, NULL);
      iot_data_list_iter_t it; iot_data_list_iter (d, &it);
      while (iot_data_list_iter_next (&it))
      {
        const char * s = iot_data_string_map_get_string (iot_data_list_iter_value (&it), "name");
        for (int n = 0; n < 5; n++) if (!strcmp (s, nn[n])) { MC_CHECK (!(ev[i].res >> n & 1), "list", "component %s listed twice", s); ev[i].res |= 1 << n; }
      }
      iot_data_free (d);
    }
  }
  ev[i].t1 = fib_event ();
  curop[fib_self ()] = -1;
  mc_log ("T%d: %c%c = %x\n", fib_self (), op, name, ev[i].res);
  mc_trans (1);
}
static const cfg * c;
static void prog (const char * p, int th) { for (; *p; p += 2) op1 (*p, p[1], th); }
static void body (void * a) { prog (c->prog[(long) a], (int) (long) a); }
/* sequential explanation of the results; finding a component that is not there takes a step for what it needs and one for itself */
static const char * steps (int i, uint32_t have) /* components this call would create, in order */
{
  return ev[i].op == 'I' ? "bac" : ev[i].op == 'f' && ev[i].ix == 0 ? "ba" : ev[i].op == 'f' && ev[i].ix < 3 ? nn[ev[i].ix] : ev[i].op == 'x' ? nn[ev[i].ix] : "";
}
static bool explain (uint32_t have0, uint32_t have1, uint32_t f0, uint32_t f1)
{
  bool all = true;
  for (int i = 0; i < nev; i++)
  {
    if (ev[i].step < 0) continue;
    all = false;
    bool first = true;
    for (int j = 0; j < nev; j++) if (j != i && ev[j].step >= 0 && ev[j].t1 < ev[i].t0) first = false;
    if (!first) continue;
    uint32_t h[2] = { have0, have1 }, * m = &h[ev[i].k];
    int save = ev[i].step; bool ok = true, done = false;
    const char * s = steps (i, *m);
    if (ev[i].op == 'f' && save == 0 && *m >> ev[i].ix & 1) { done = true; ok = ev[i].res == 1; }
    else if (*s) { int n = 0; while (nn[n][0] != s[save]) n++; *m |= 1u << n; if (!s[save + 1]) { done = true; ok = ev[i].op == 'x' || ev[i].res == 1; } }
    else
    {
      done = true;
      switch (ev[i].op)
      {
        case 'f': case 'r': ok = (uint32_t) ev[i].res == (*m >> ev[i].ix & 1); break;
        case 'd': *m &= ~(1u << ev[i].ix); break;
        case 'L': ok = (uint32_t) ev[i].res == *m; break;
        default: break;
      }
    }
    if (!ok) continue;
    ev[i].step = done ? -1 : save + 1;
    bool r = explain (h[0], h[1], f0, f1);
    ev[i].step = save;
    if (r) return true;
  }
  return all && have0 == f0 && have1 == f1;
}
static void s_conc (void)
{
  c = &conc[mc_choose (sizeof (conc) / sizeof (conc[0]))];
  size_t size = strlen (c->pre);
  for (int i = 0; i < 3 && c->prog[i]; i++) size += strlen (c->prog[i]);
  if ((long) size > mc_param ("small", 99)) mc_prune ();
  for (int i = 0; i < 16; i++) curop[i] = -1;
  fib_fixed (true);
  iot_component_factory_add (&f0);
  iot_container_config (&conf);
  conts[0] = iot_container_alloc ("main"); conts[1] = iot_container_alloc ("side");
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  prog (c->pre, 9);
  fib_fixed (false);
  mc_log ("first %s, then:", c->pre);
  int n = 0, t[3];
  for (; n < 3 && c->prog[n]; n++) { mc_log (" %s", c->prog[n]); t[n] = fib_thread (body, (void *) (long) n); }
  mc_log ("\n");
  for (int i = 0; i < n; i++) fib_join (t[i]);
  uint32_t have[2] = { 0, 0 };
  uint64_t h = 0;
  for (int i = 0; i < nmade; i++)
  {
    h = mc_mix (h, (uint64_t) (made[i].ix * 2 + made[i].freed));
    if (made[i].freed) continue;
    uint32_t * m = &have[made[i].ix / 5], b = 1u << made[i].ix % 5;
    MC_CHECK (!(*m & b), "create", "component %s exists twice", nn[made[i].ix % 5]);
    *m |= b;
  }
  for (int i = 0; i < nmade; i++)
    for (int e = 0; e < nev; e++)
      if ((ev[e].op == 'S' || ev[e].op == 'P') && ev[e].k == made[i].ix / 5 && ev[made[i].by].t1 < ev[e].t0)
      {
        /* present throughout the call? */
        uint64_t end = made[i].t1;
        for (int j = 0; j < nev; j++) if (ev[j].op == 'd' && ev[j].k == ev[e].k && ev[j].ix == made[i].ix % 5 && ev[j].t0 < end && ev[j].t1 > ev[made[i].by].t0) end = ev[j].t0;
        if (end > ev[e].t1) MC_CHECK (ev[e].called[i] == 1, "startstop", "%s did not reach component %s", ev[e].op == 'S' ? "start" : "stop", nn[made[i].ix % 5]);
      }
  for (int e = 0; e < nev; e++) ev[e].step = 0;
  MC_CHECK (explain (0, 0, have[0], have[1]), "order", "no order of the calls explains their results");
  for (int k = 0; k < 2; k++)
  {
    int i = nev; if (i < 15) op1 ('L', (char) ('0' + k), 9); /* and all is where it should be */
    if (i < 15) MC_CHECK ((uint32_t) ev[i].res == have[k], "list", "components %x listed instead of %x", ev[i].res, have[k]);
  }
  for (int e = 0; e < nev; e++) h = mc_mix (h, (uint64_t) ev[e].res);
  mc_outcome (h);
  iot_container_free (conts[0]); iot_container_free (conts[1]);
  for (int i = 0; i < nmade; i++) MC_CHECK (made[i].freed, "free", "component %s is not released with its container", nn[made[i].ix % 5]);
}
/* -------------------------------------- component types added at once */
static iot_component_factory_t fx = { "X", "Cat", config, c_free, NULL, NULL }, fy = { "Y", "Cat", config, c_free, NULL, NULL }, fx2 = { "X", "Other", config, c_free, NULL, NULL }, fz = { "Z", "Cat", config, c_free, NULL, NULL };
static iot_component_factory_t * const adds[][3][2] = { { { &fx }, { &fy } }, { { &fx }, { &fx2 } }, { { &fx, &fy }, { &fz } }, { { &fx }, { &fy }, { &fz } }, { { &fx, &fx2 }, { &fx2, &fy } }, { { &fx }, { &fx } }, { { &fx }, { &fx2 }, { &fy } } };
static int ac;
static void fbody (void * a)
{
  for (int k = 0; k < 2; k++)
  {
    iot_component_factory_t * f = adds[ac][(long) a][k];
    if (!f) continue;
    iot_component_factory_add (f);
    const iot_component_factory_t * g = iot_component_factory_find (f->type);
    MC_CHECK (g && !strcmp (g->type, f->type), "factory", "type %s is not found after it was added", f->type);
    mc_trans (2);
  }
}
static void s_factory (void)
{
  ac = mc_choose (sizeof (adds) / sizeof (adds[0]));
  fx.next = fy.next = fz.next = fx2.next = NULL;
  int t[3], n = 0;
  for (; n < 3 && adds[ac][n][0]; n++) t[n] = fib_thread (fbody, (void *) (long) n);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  uint64_t h = (uint64_t) ac;
  for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) if (adds[ac][i][k]) { const iot_component_factory_t * g = iot_component_factory_find (adds[ac][i][k]->type); MC_CHECK (g && !strcmp (g->type, adds[ac][i][k]->type), "factory", "type %s is lost", adds[ac][i][k]->type); h = mc_mix_str (h, g->category); }
  MC_CHECK (!iot_component_factory_find ("W"), "factory", "found a type never added");
  mc_outcome (h);
}
/* -------------------------- start: callbacks once all run, or with a timeout */
static int delay[2], order; static uint64_t began, ranat[2], doneat[2], cbat[2]; static int cbs[2]; static bool cbto[2];
static int lhow, lstops[2], lfrees[2];
static void l_start (iot_component_t * b) { (void) b; }
static void l_running (iot_component_t * b, bool timeout) { int i = ((tcomp *) b)->id; cbs[i]++; cbat[i] = fib_now (); cbto[i] = timeout; mc_log ("running callback of %d%s\n", i, timeout ? " (timeout)" : ""); }
static tcomp * late[2];
static void l_free (iot_component_t * b) { lfrees[((tcomp *) b)->id]++; iot_component_fini (b); free (b); }
static iot_component_factory_t fl;
static iot_component_t * l_config (iot_container_t * k, const iot_data_t * map)
{
  tcomp * c = calloc (1, sizeof (*c)); iot_component_init (&c->base, &fl, l_start, c_stop); iot_component_set_running_callback (&c->base, l_running);
  c->alive = 77; c->id = order; late[order++] = c; return &c->base;
}
static void l_stop (iot_component_t * b) { int i = ((tcomp *) b)->id; lstops[i]++; MC_CHECK (!lfrees[i], "dead", "component stopped after its release"); iot_component_set_stopped (b); }
static iot_component_factory_t fl = { "L", NULL, l_config, l_free, NULL, NULL };
static void lbody (void * a)
{
  int i = (int) (long) a;
  if (delay[i] < 0) return;
  fib_sleep_until (began + (uint64_t) delay[i] * 1000000ull);
  ranat[i] = fib_now ();
  iot_component_set_running (&late[i]->base);
  doneat[i] = fib_now ();
}
static void s_late (void)
{
  static const int delays[] = { 0, 1, 199, 200, 201, 1000, 4000, -1 };
  lhow = mc_choose (2); int end = mc_choose (3);
  fib_fixed (true);
  iot_component_factory_add (&fl);
  conts[0] = iot_container_alloc ("main");
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  for (int i = 0; i < 2; i++) { delay[i] = delays[mc_choose (8)]; iot_container_add_component (conts[0], "L", nn[i], "{}"); late[i]->base.stop_fn = l_stop; if (lhow) iot_component_set_starting (&late[i]->base); }
  mc_log ("components run after %d and %d ms\n", delay[0], delay[1]);
  fib_fixed (false);
  began = fib_now ();
  int t[2]; for (int i = 0; i < 2; i++) t[i] = fib_thread (lbody, (void *) (long) i);
  iot_container_start (conts[0]);
  bool never = delay[0] < 0 || delay[1] < 0;
  for (int i = 0; i < 2; i++)
  {
    MC_CHECK (cbs[i] == 1, "running", "running callback of component %d came %d times", i, cbs[i]);
    /* the schedule may let time pass while the thread of a component is not run: then it may be given up, though not before time */
    bool starved = false;
    for (int j = 0; j < 2; j++) if (delay[j] >= 0 && (!doneat[j] || doneat[j] + 200000000ull >= cbat[i]) && cbat[i] - began >= 4000000000ull) starved = true;
    MC_CHECK (cbto[i] == never || (starved && cbto[i]), "running", "running callback %s a timeout", cbto[i] ? "with" : "without");
    for (int j = 0; j < 2; j++) if (!cbto[i]) MC_CHECK (ranat[j] && ranat[j] <= cbat[i], "running", "running callback before component %d runs", j);
  }
  mc_outcome ((cbat[0] - began) / 1000000);
  mc_trans (2);
  for (int i = 0; i < 2; i++) fib_join (t[i]);
  static const char * const ends[] = { "stop, free", "free", "delete both, free" };
  mc_log ("%s\n", ends[end]);
  bool busy[2]; for (int i = 0; i < 2; i++) busy[i] = lhow || delay[i] >= 0;
  if (end == 0) { iot_container_stop (conts[0]); for (int i = 0; i < 2; i++) MC_CHECK (lstops[i] == 1, "stop", "component %d stopped %d times", i, lstops[i]); }
  if (end == 2) for (int i = 0; i < 2; i++) { iot_container_delete_component (conts[0], nn[i]); MC_CHECK (lfrees[i] == 1, "free", "component %d is not released when deleted", i); }
  iot_container_free (conts[0]);
  for (int i = 0; i < 2; i++)
  {
    MC_CHECK (lfrees[i] == 1, "free", "component %d released %d times", i, lfrees[i]);
    if (busy[i]) MC_CHECK (lstops[i] == 1, "free", "component %d, started, was stopped %d times before its release", i, lstops[i]);
  }
}
static const mc_space spaces[] = {
  { "factory", s_factory, "component types added from several threads" },
  { "late", s_late, "components that take their time to run" },
  { "conc", s_conc, "container calls from 2 and 3 threads" },
};
int main (int argc, char ** argv) { return fib_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
