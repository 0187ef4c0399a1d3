/* C10: containers - every small dependency graph, every history of calls, against a reference model */
// LINK: -Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose
#include "dd.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/logger.h"
#include <unistd.h>
#include <dlfcn.h>
/* ------------------------------------------------ components under control */
typedef struct tcomp { iot_component_t base; char name[8]; int alive; int cont; struct tcomp * dep[4]; int ndep; bool started; bool ran; bool plain; } tcomp;
#define MAXC 64
static tcomp * made[MAXC]; static char madename[MAXC][8]; static int madecont[MAXC]; static int nmade, nfreed; static bool freedc[MAXC];
static char evlog[2000]; static size_t nev;
static void ev (char k, const tcomp * c) { nev += (size_t) snprintf (evlog + nev, sizeof (evlog) - nev, "%c%d.%s ", k, c->cont, c->name); if (nev > 1900) nev = 1900; }
static void evreset (void) { nev = 0; evlog[0] = 0; }
static iot_container_t * conts[2];
static tcomp * cast (iot_component_t * b) { tcomp * c = (tcomp *) b; MC_CHECK (c->alive == 77, "dead", "callback for a component that is not there"); return c; }
static bool norun; /* start does not make the component running */
static void c_start (iot_component_t * b) { tcomp * c = cast (b); ev ('S', c); c->started = true; iot_component_set_running (b); }
static void c_stop (iot_component_t * b) { tcomp * c = cast (b); ev ('P', c); c->started = false; iot_component_set_stopped (b); }
static void c_starting (iot_component_t * b) { ev ('s', cast (b)); }
static void c_stopping (iot_component_t * b) { ev ('p', cast (b)); }
static void c_running (iot_component_t * b, bool timeout) { ev (timeout ? 'T' : 'r', cast (b)); }
static void c_free (iot_component_t * b)
{
  tcomp * c = cast (b);
  MC_CHECK (!c->started, "free", "component %s is released without being stopped", c->name);
  int i = 0; while (i < nmade && (made[i] != c || freedc[i])) i++;
  MC_CHECK (i < nmade && !freedc[i], "free", "component released twice");
  freedc[i] = true; nfreed++;
  c->alive = 0;
  iot_component_fini (b);
  free (c);
}
static const iot_component_factory_t * F0 (void); static const iot_component_factory_t * F1 (void);
static tcomp * find (iot_container_t * k, const char * n) { return (tcomp *) iot_container_find_component (k, n); }
/* configuration: I name, R references, N references are needed, X refuse */
static iot_component_t * config (iot_container_t * k, const iot_data_t * map, const iot_component_factory_t * f)
{
  const char * id = iot_data_string_map_get_string (map, "I");
  tcomp * dep[4]; int nd = 0;
  const iot_data_t * refs = iot_data_string_map_get (map, "R");
  bool need = iot_data_string_map_get (map, "N") != NULL, miss = false;
  if (refs)
  {
    iot_data_vector_iter_t it; iot_data_vector_iter (refs, &it);
    while (iot_data_vector_iter_next (&it)) { tcomp * t = find (k, iot_data_vector_iter_string (&it)); if (t) { MC_CHECK (t->alive == 77, "dead", "reference resolved to a component that is not there"); MC_CHECK (!strcmp (t->base.name, iot_data_vector_iter_string (&it)), "find", "found component '%s' under another name", t->base.name); dep[nd++] = t; } else miss = true; }
  }
  if ((need && miss) || iot_data_string_map_get (map, "X") || !id) return NULL;
  tcomp * c = calloc (1, sizeof (*c));
  iot_component_init (&c->base, f, c_start, c_stop);
  c->plain = iot_data_string_map_get (map, "P") != NULL; /* no callbacks but start and stop */
  if (!c->plain) iot_component_set_starting_callback (&c->base, c_starting), iot_component_set_stopping_callback (&c->base, c_stopping), iot_component_set_running_callback (&c->base, c_running);
  snprintf (c->name, sizeof (c->name), "%s", id);
  c->alive = 77; c->cont = k == conts[1]; c->ndep = nd; memcpy (c->dep, dep, sizeof (dep));
  MC_CHECK (nmade < MAXC, "many", "components are created without end");
  strcpy (madename[nmade], c->name); madecont[nmade] = c->cont; freedc[nmade] = false; made[nmade++] = c;
  return &c->base;
}
static iot_component_t * conf0 (iot_container_t * k, const iot_data_t * m) { return config (k, m, F0 ()); }
static iot_component_t * conf1 (iot_container_t * k, const iot_data_t * m) { return config (k, m, F1 ()); }
static bool reconf (iot_component_t * b, iot_container_t * k, const iot_data_t * m) { return iot_data_string_map_get (m, "bad") == NULL; }
static iot_component_factory_t f0 = { "T0", "Cat", conf0, c_free, reconf, NULL }, f1 = { "T1", NULL, conf1, c_free, NULL, NULL }, f0b = { "T0", "Other", NULL, NULL, NULL, NULL };
static const iot_component_factory_t * F0 (void) { return &f0; }
static const iot_component_factory_t * F1 (void) { return &f1; }
/* ------------------------------------------------------------ configuration */
static struct { const char * name; char text[200]; bool present; } conf[16]; static int nconf;
static char saved[300]; static int nsaved;
static void put (const char * n, const char * text) { conf[nconf].name = n; conf[nconf].present = text != NULL; if (text) snprintf (conf[nconf].text, sizeof (conf[0].text), "%s", text); nconf++; }
static char * c_load (const char * name, const char * uri)
{
  MC_CHECK (!strcmp (uri, "u:"), "uri", "configuration asked for at '%s'", uri);
  for (int i = 0; i < nconf; i++) if (!strcmp (conf[i].name, name)) return conf[i].present ? strdup (conf[i].text) : NULL;
  return NULL;
}
static bool c_save (const char * name, const char * uri, const char * c) { nsaved++; snprintf (saved, sizeof (saved), "%s|%s|%s", name, uri, c); return true; }
static const iot_container_config_t withsave = { c_load, "u:", c_save }, nosave = { c_load, "u:", NULL };
extern void __sanitizer_set_report_fd (void *) __attribute__ ((weak));
static void once (void)
{
  static bool q; if (q) return; q = true;
  int keep = dup (2);
  if (!freopen ("/dev/null", "w", stderr)) abort ();
  if (__sanitizer_set_report_fd) __sanitizer_set_report_fd ((void *) (long) keep);
  setvbuf (stderr, NULL, _IONBF, 0);
  iot_logger_default ();
  if (!dlopen ("/nowhere/vlib.so", RTLD_LAZY)) dlerror (); /* keeps its last text */
  iot_component_factory_add (&f0); iot_component_factory_add (&f1); iot_component_factory_add (&f0b);
}
static void begin (bool save) { once (); dd_begin (); nconf = 0; nmade = nfreed = 0; nsaved = 0; evreset (); iot_container_config (save ? &withsave : &nosave); }
/* ---------------------------------------------------------------- reference */
enum { K_OK, K_MISSING, K_TEXT, K_ARRAY, K_REFUSE, K_NOTYPE, K_BADTYPE, NKIND };
typedef struct mod { char name[8]; int kind; int refs[4], nrefs; bool need; } mod; /* refs: index, or -1 for a name nowhere */
static mod m[4]; static int nm;
static bool mhave[4], mprog[4];
static bool mload (int i)
{
  if (i < 0) return false;
  if (mhave[i]) return true;
  if (mprog[i] || m[i].kind != K_OK) return false;
  mprog[i] = true;
  bool miss = false;
  for (int r = 0; r < m[i].nrefs; r++) if (!mload (m[i].refs[r])) miss = true;
  mprog[i] = false;
  if (m[i].need && miss) return false;
  return mhave[i] = true;
}
static int live_of (int k, const char * name, tcomp ** out)
{
  int n = 0;
  for (int i = 0; i < nmade; i++) if (!freedc[i] && madecont[i] == k && !strcmp (madename[i], name)) { n++; if (out) *out = made[i]; }
  return n;
}
/* expected event texts for the live components of container k in creation order (or reverse) */
static void expect (sb * b, int k, const char * kinds, bool rev)
{
  for (; *kinds; kinds++)
    for (int j = 0; j < nmade; j++) { int i = rev ? nmade - 1 - j : j; if (!freedc[i] && madecont[i] == k && (!made[i]->plain || *kinds == 'S' || *kinds == 'P')) sb_add (b, "%c%d.%s ", *kinds, k, madename[i]); }
}
static void startstop (int k, bool start)
{
  static sb want;
  sb_reset (&want);
  evreset ();
  if (start) { iot_container_start (conts[k]); expect (&want, k, "sSr", false); } else { iot_container_stop (conts[k]); expect (&want, k, "pP", true); }
  MC_CHECK (!strcmp (evlog, want.s), start ? "start" : "stop", "%s called back: %s instead of %s", start ? "start" : "stop", evlog, want.s);
  mc_trans (1);
}
static void check_list (int k, const char * cat)
{
  iot_data_t * l = iot_container_list_components (conts[k], cat);
  MC_CHECK (l, "list", "no list");
  int want = 0;
  for (int i = 0; i < nmade; i++)
  {
    if (freedc[i] || madecont[i] != k) continue;
    const tcomp * c = made[i];
    if (cat && (!c->base.factory->category || strcmp (cat, c->base.factory->category))) continue;
    want++;
    int seen = 0;
    iot_data_list_iter_t it; iot_data_list_iter (l, &it);
    while (iot_data_list_iter_next (&it))
    {
      const iot_data_t * e = iot_data_list_iter_value (&it);
      if (strcmp (iot_data_string_map_get_string (e, "name"), madename[i])) continue;
      seen++;
      MC_CHECK (!strcmp (iot_data_string_map_get_string (e, "type"), c->base.factory->type) && !strcmp (iot_data_string_map_get_string (e, "state"), iot_component_state_name (c->base.state)) && iot_data_string_map_get (e, "config"), "list", "entry of %s is wrong", madename[i]);
    }
    MC_CHECK (seen == 1, "list", "component %s listed %d times for category %s", madename[i], seen, cat ? cat : "(any)");
  }
  MC_CHECK ((int) iot_data_list_length (l) == want, "list", "%u components listed instead of %d for category %s", iot_data_list_length (l), want, cat ? cat : "(any)");
  iot_data_free (l);
}
static void finish (int k)
{
  iot_container_free (conts[k]);
  conts[k] = NULL;
  for (int i = 0; i < nmade; i++) if (madecont[i] == k) MC_CHECK (freedc[i], "free", "component %s is not released with its container", madename[i]);
}
/* -------------------------------------------------------------------- graphs */
static void s_graph (void)
{
  static const char * const nn[] = { "a", "b", "c" };
  int n = (int) mc_param ("n", 3);
  begin (false);
  char top[200] = "{";
  nm = n; memset (mhave, 0, sizeof (mhave)); memset (mprog, 0, sizeof (mprog));
  for (int i = 0; i < n; i++)
  {
    char t[200];
    strcpy (m[i].name, nn[i]); m[i].nrefs = 0; m[i].need = false;
    int c = mc_choose ((2 << (n + 1)) + NKIND - 1);
    const char * type = i == 1 ? "\"T1\"" : "\"T0\"";
    if (c < 2 << (n + 1))
    {
      m[i].kind = K_OK; m[i].need = c & 1;
      int o = snprintf (t, sizeof (t), "{\"I\":\"%s\",\"R\":[", nn[i]);
      for (int j = 0; j <= n; j++) if (c >> (j + 1) & 1) { o += snprintf (t + o, sizeof (t) - (size_t) o, "%s\"%s\"", m[i].nrefs ? "," : "", j < n ? nn[j] : "z"); m[i].refs[m[i].nrefs++] = j < n ? j : -1; }
      snprintf (t + o, sizeof (t) - (size_t) o, "]%s}", m[i].need ? ",\"N\":1" : "");
    }
    else
    {
      m[i].kind = c - (2 << (n + 1)) + 1;
      strcpy (t, m[i].kind == K_TEXT ? "{\"I\":" : m[i].kind == K_ARRAY ? "[1]" : m[i].kind == K_REFUSE ? "{\"I\":\"x\",\"X\":1}" : m[i].kind == K_NOTYPE ? "{\"I\":\"x\",\"Library\":\"/nowhere/libx.so\",\"Factory\":\"f\"}" : "{\"I\":\"x\"}");
      if (m[i].kind == K_NOTYPE) type = "\"Nope\"";
      if (m[i].kind == K_BADTYPE) type = i == 0 ? "5" : i == 1 ? "null" : "{\"T0\":1}";
    }
    put (nn[i], m[i].kind == K_MISSING ? NULL : t);
    snprintf (top + strlen (top), sizeof (top) - strlen (top), "%s\"%s\":%s", i ? "," : "", nn[i], type);
    mc_log ("%s: %s %s\n", nn[i], type, m[i].kind == K_MISSING ? "(no configuration)" : t);
  }
  strcat (top, "}");
  put ("main", top);
  conts[0] = iot_container_alloc ("main");
  int entry = mc_choose (3);
  static const int order[3][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 2, 0 } };
  if (entry == 0)
  {
    mc_log ("init\n");
    MC_CHECK (iot_container_init (conts[0]), "init", "init fails");
    for (int i = 0; i < n; i++) mload (i);
  }
  else
    for (int k = 0; k < 3; k++)
    {
      int i = order[entry][k];
      if (i >= n) continue;
      mc_log ("find %s\n", nn[i]);
      tcomp * c = find (conts[0], nn[i]);
      bool w = mload (i);
      MC_CHECK (!c == !w, "find", "find of %s gives %s", nn[i], c ? "something" : "nothing");
      if (c) MC_CHECK (c->alive == 77 && !strcmp (c->base.name, nn[i]), "find", "find of %s gives another component", nn[i]);
    }
  MC_CHECK (!find (conts[0], "z") && !find (conts[0], NULL), "find", "found a component that is configured nowhere");
  for (int i = 0; i < n; i++)
  {
    tcomp * c = NULL; int k = live_of (0, nn[i], &c);
    MC_CHECK (k == (mhave[i] ? 1 : 0), "create", "component %s was created %d times", nn[i], k);
    if (!k) continue;
    MC_CHECK (!strcmp (c->base.name, nn[i]) && c->base.factory == (i == 1 ? &f1 : &f0), "create", "component %s has the wrong name or type", nn[i]);
    for (int d = 0; d < c->ndep; d++) { int at = 0, me = 0; for (int j = 0; j < nmade; j++) { if (made[j] == c->dep[d]) at = j; if (made[j] == c) me = j; } MC_CHECK (!freedc[at] && at < me, "order", "component %s refers to one not created before it", nn[i]); }
    if (entry == 0 || mhave[i]) MC_CHECK (find (conts[0], nn[i]) == c, "find", "find of %s gives another component", nn[i]);
  }
  int before = nmade;
  check_list (0, NULL); check_list (0, "Cat"); check_list (0, "None");
  startstop (0, true); check_list (0, NULL);
  startstop (0, false); check_list (0, NULL);
  MC_CHECK (nmade == before, "create", "components are created by listing, starting or stopping");
  if (mc_fresh () || mc_replaying ()) { uint64_t h = (uint64_t) nmade; for (int i = 0; i < nmade; i++) h = mc_mix_str (h, madename[i]); for (int i = 0; i < n; i++) h = mc_mix (h, mhave[i]); mc_outcome (h); mc_state (h); }
  finish (0);
  dd_leaks ("container life");
}
/* ----------------------------------------------------- bad top configurations */
static void s_top (void)
{
  static const char * const tops[] = { NULL, "", "{", "[1]", "5", "null", "{}", "{\"a\":\"T0\"", "{\"a\":\"T0\"}", "{\"a\":\"T0\",\"a\":\"T1\"}", "{\"a\":5}", "{\"a\":null,\"b\":\"T0\"}", "{\"a\":[],\"b\":{}}", "{\"\":\"T0\"}", "{\"a\":\"\"}", "{\"main\":\"T0\"}", "{\"a\":\"${VTYPE}\"}", "{\"a\":\"${VNONE}\"}", "{\"a\":true,\"a\":1.5}" };
  setenv ("VTYPE", "T0", 1); unsetenv ("VNONE");
  begin (false);
  int k = mc_choose (sizeof (tops) / sizeof (tops[0])), how = mc_choose (3);
  put ("a", "{\"I\":\"a\"}"); put ("b", "{\"I\":\"b\",\"R\":[\"a\"]}"); put ("", "{\"I\":\"\"}");
  put ("main", tops[k]);
  mc_log ("top: %s, %s\n", tops[k] ? tops[k] : "(none)", how == 0 ? "init" : how == 1 ? "find" : "init twice");
  conts[0] = iot_container_alloc ("main");
  bool valid = k == 6 || k == 8 || (k > 9 && k < 17) || k == 9 || k == 18;
  if (how != 1) { bool ok = iot_container_init (conts[0]); MC_CHECK (ok == valid, "init", "init reports %d", ok); if (how == 2) { ok = iot_container_init (conts[0]); MC_CHECK (ok == valid, "init", "init again reports %d", ok); } }
  tcomp * a = find (conts[0], "a"), * b = find (conts[0], "b");
  bool wa = k == 8 || k == 9 || k == 16, wb = k == 11;
  MC_CHECK (!a == !wa && !b == !wb, "find", "components a, b: %d %d", a != NULL, b != NULL);
  MC_CHECK (live_of (0, "a", NULL) == wa && live_of (0, "b", NULL) == wb, "create", "components created twice");
  check_list (0, NULL);
  mc_trans (1); mc_state ((uint64_t) (k * 3 + how)); mc_outcome ((uint64_t) (wa + 2 * wb));
  finish (0);
  dd_leaks ("container life");
}
/* ----------------------------------------------------------------- histories */
static const char * const hn[] = { "a", "b", "c", "d", "n", "m", "z" };
#define NHN 7
static void hload (bool have[2][NHN], int i) /* a needs b; c refers to itself, a and z */
{
  if (i == 1) have[0][1] = true;
  if ((i == 0 || i == 2) && !have[0][i]) { hload (have, i == 0 ? 1 : 0); have[0][i] = true; }
}
static void s_hist (void)
{
  int depth = (int) mc_param ("depth", 3);
  bool save = mc_choose (2);
  begin (save);
  put ("main", "{\"a\":\"T0\",\"b\":\"T1\",\"c\":\"T0\",\"d\":\"T0\"}");
  put ("side", "{\"a\":\"T1\"}");
  put ("a", "{\"I\":\"a\",\"R\":[\"b\"],\"N\":1}"); put ("b", "{\"I\":\"b\"}"); put ("c", "{\"I\":\"c\",\"R\":[\"c\",\"a\",\"z\"]}"); put ("d", "{\"I\":\"d\",\"X\":1}");
  conts[0] = iot_container_alloc ("main"); conts[1] = iot_container_alloc ("side");
  bool have[2][NHN] = { { false } }; int kv[2][NHN] = { { 0 } };
  static sb text, heldtext; iot_data_t * held = NULL; /* state read earlier stays as it was */
  for (int s = 0; s < depth; s++)
  {
    int op = mc_choose (15), k = 0, i = 0;
    evreset ();
    switch (op)
    {
      case 0: mc_log ("init\n"); MC_CHECK (iot_container_init (conts[0]), "init", "init fails"); for (i = 0; i < 3; i++) hload (have, i); break;
      case 1:
        i = mc_choose (NHN); mc_log ("find %s\n", hn[i]);
        {
          tcomp * c = find (conts[0], hn[i]);
          hload (have, i);
          MC_CHECK (!c == !have[0][i], "find", "find of %s gives %s", hn[i], c ? "something" : "nothing");
          if (c) MC_CHECK (c->alive == 77 && c->cont == 0 && !strcmp (c->base.name, hn[i]), "find", "find of %s gives another component", hn[i]);
        }
        break;
      case 2:
        i = mc_choose (2); mc_log ("find %s in the other container\n", i ? "b" : "a");
        {
          tcomp * c = find (conts[1], i ? "b" : "a");
          if (i) MC_CHECK (!c == !have[1][1], "find", "component of another container found");
          else { have[1][0] |= have[1][1]; MC_CHECK (!c == !have[1][0], "find", "find of a component that needs one that was %sadded gives %s", have[1][1] ? "" : "not ", c ? "something" : "nothing"); }
        }
        break;
      case 3: /* add new ones */
        i = mc_choose (5);
        {
          static const char * const types[] = { "T0", "T1", "Nope", "T0", "T0" }, * const cfgs[] = { "{\"I\":\"n\"}", "{\"I\":\"m\",\"R\":[\"c\"]}", "{\"I\":\"z\"}", "{\"I\":", "{\"I\":\"n\",\"X\":1}" };
          const char * name = i == 0 ? "n" : i == 1 ? "m" : "z"; int ix = i == 0 ? 4 : i == 1 ? 5 : 6;
          if (have[0][ix]) mc_prune (); /* adding under a name in use is unspecified */
          mc_log ("add %s %s %s\n", types[i], name, cfgs[i]);
          iot_container_add_component (conts[0], types[i], name, cfgs[i]);
          if (i < 2) have[0][ix] = true;
          if (i == 1) hload (have, 2);
        }
        break;
      case 4: /* add to the other container, same names */
        if (have[1][1]) mc_prune ();
        mc_log ("add b to the other container\n");
        iot_container_add_component (conts[1], "T1", "b", "{\"I\":\"b\"}"); have[1][1] = true;
        break;
      case 5: case 6:
        k = op - 5; i = k ? 1 : mc_choose (NHN);
        mc_log ("delete %s from container %d\n", hn[i], k);
        iot_container_delete_component (conts[k], hn[i]); have[k][i] = false; kv[k][i] = 0;
        break;
      case 7: { int c = mc_choose (3); mc_log ("list %d\n", c); check_list (0, c == 0 ? NULL : c == 1 ? "Cat" : "Other"); check_list (1, NULL); } break;
      case 8:
        i = mc_choose (NHN); mc_log ("read %s\n", hn[i]);
        {
          iot_data_t * d = iot_container_component_read (conts[0], hn[i]); tcomp * c = NULL; live_of (0, hn[i], &c);
          MC_CHECK (!d == !have[0][i], "read", "reading %s gives %s", hn[i], d ? "something" : "nothing");
          if (d)
          {
            const iot_data_t * cf = iot_data_string_map_get (d, "config"), * v = iot_data_string_map_get (cf, "K");
            MC_CHECK (!strcmp (iot_data_string_map_get_string (d, "name"), hn[i]) && !strcmp (iot_data_string_map_get_string (d, "state"), iot_component_state_name (c->base.state)) && !strcmp (iot_data_string_map_get_string (cf, "I"), hn[i]) && (kv[0][i] ? v && iot_data_type (v) == IOT_DATA_INT64 && iot_data_i64 (v) == kv[0][i] : !v), "read", "reading %s gives %s", hn[i], dd_str (&text, d, 0));
          }
          if (d) { if (held) iot_data_free (held); held = d; sb_reset (&heldtext); dd_dump (&heldtext, d, 0); }
          MC_CHECK (!iot_container_component_read (conts[0], NULL), "read", "reading without a name gives something");
        }
        break;
      case 9: case 10: mc_log ("start %d\n", op - 9); startstop (op - 9, true); break;
      case 11: case 12: mc_log ("stop %d\n", op - 11); startstop (op - 11, false); break;
      case 14: /* a component at work on its own account, its start not (yet) complete or complete */
      {
        i = mc_choose (6); bool run = i > 2; i %= 3;
        tcomp * c = NULL; if (!live_of (0, hn[i], &c)) mc_prune ();
        mc_log ("%s is %s by itself\n", hn[i], run ? "running" : "starting");
        c->started = true;
        if (run) iot_component_set_running (&c->base); else iot_component_set_starting (&c->base);
        break;
      }
      default:
      {
        i = mc_choose (3); bool bad = i == 2; if (bad) i = 0;
        tcomp * c = NULL; if (!live_of (0, hn[i], &c)) mc_prune ();
        mc_log ("reconfigure %s\n", hn[i]);
        iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
        iot_data_string_map_add (map, "K", iot_data_alloc_i64 (s + 1)); if (bad) iot_data_string_map_add (map, "bad", iot_data_alloc_bool (true));
        int n0 = nsaved;
        bool ok = iot_component_reconfig (&c->base, conts[0], map), w = !(bad && i == 0);
        iot_data_free (map);
        MC_CHECK (ok == w, "reconfig", "reconfiguration reports %d", ok);
        if (w) kv[0][i] = s + 1;
        MC_CHECK (nsaved == n0 + (w && save), "reconfig", "configuration saved %d times", nsaved - n0);
        if (w && save)
        {
          char pre[20]; snprintf (pre, sizeof (pre), "%s|u:|", hn[i]);
          iot_data_t * d = strncmp (saved, pre, strlen (pre)) ? NULL : iot_data_from_json (saved + strlen (pre));
          MC_CHECK (d && iot_data_equal (d, c->base.config), "reconfig", "saved %s", saved);
          iot_data_free (d);
        }
        break;
      }
    }
    mc_trans (1);
    for (int q = 0; q < 2; q++) for (int j = 0; j < NHN; j++) MC_CHECK (live_of (q, hn[j], NULL) == have[q][j], "create", "there are %d components %s in container %d", live_of (q, hn[j], NULL), hn[j], q);
    if (mc_fresh () || mc_replaying ()) { uint64_t h = 7; for (int j = 0; j < nmade; j++) if (!freedc[j]) h = mc_mix (mc_mix_str (h, madename[j]), (uint64_t) (madecont[j] * 16 + made[j]->base.state)); mc_state (h); mc_outcome (h); }
  }
  if (mc_choose (2)) { finish (1); finish (0); } else { finish (0); finish (1); }
  iot_container_free (NULL);
  if (held)
  {
    mc_log ("look at what was read earlier\n");
    if (!mc_param ("mutable", 0)) { const char * now = iot_data_string_map_get_string (held, "name"); sb_reset (&text); dd_dump (&text, iot_data_string_map_get (held, "state"), 0); sb_add (&text, "%s", now); MC_CHECK (strstr (heldtext.s, now), "read", "state read earlier changed: %s", text.s); }
    iot_data_free (held);
  }
  dd_leaks ("container history");
}
/* ------------------------------------- containers without any configuration source (a process of its own) */
static void s_noconf (void)
{
  once (); dd_begin (); nconf = 0; nmade = nfreed = 0; evreset ();
  MC_CHECK (!iot_container_get_config (), "noconf", "there is a configuration source");
  conts[0] = iot_container_alloc ("main");
  int what = mc_choose (2);
  iot_container_add_component (conts[0], what ? "T1" : "T0", "a", "{\"I\":\"a\"}");
  tcomp * c = find (conts[0], "a");
  MC_CHECK (c && live_of (0, "a", NULL) == 1 && !find (conts[0], "b"), "find", "find without a configuration source");
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
  iot_data_string_map_add (map, "K", iot_data_alloc_i64 (5));
  mc_log ("reconfigure without a configuration source\n");
  MC_CHECK (iot_component_reconfig (&c->base, conts[0], map), "reconfig", "reconfiguration fails");
  MC_CHECK (iot_data_string_map_get (c->base.config, "K"), "reconfig", "reconfiguration is not kept");
  iot_data_free (map);
  startstop (0, true); check_list (0, NULL); startstop (0, false);
  mc_trans (1); mc_state ((uint64_t) what); mc_outcome ((uint64_t) what);
  finish (0);
  dd_leaks ("container life");
}
/* ------------------------------------------------------------- loaded libraries */
#define MAXF 20000
static struct { char type[12]; bool used; } ftypes[MAXF]; static int nft; /* types are known for the life of the process: each case has its own */
static int dl_open[2], dl_close[2], dl_err; static bool dl_sym; static char dl_ty[2][12];
static const iot_component_factory_t * dl_fac[2];
static iot_component_t * conf_dl0 (iot_container_t * k, const iot_data_t * m) { return config (k, m, dl_fac[0]); }
static iot_component_t * conf_dl1 (iot_container_t * k, const iot_data_t * m) { return config (k, m, dl_fac[1]); }
static const iot_component_factory_t * mkfac (int l)
{
  iot_component_factory_t init = { .type = strcpy (ftypes[nft].type, dl_ty[l]), .category = "Lib", .config_fn = l ? conf_dl1 : conf_dl0, .free_fn = c_free };
  static char store[MAXF * sizeof (iot_component_factory_t)] __attribute__ ((aligned (16)));
  iot_component_factory_t * f = (iot_component_factory_t *) (store + sizeof (iot_component_factory_t) * (size_t) nft++);
  memcpy (f, &init, sizeof (init));
  return dl_fac[l] = f;
}
static const iot_component_factory_t * lib_f0 (void) { return dl_fac[0] ? dl_fac[0] : mkfac (0); }
static const iot_component_factory_t * lib_f1 (void) { return dl_fac[1] ? dl_fac[1] : mkfac (1); }
static int dl_lib (const void * h) { return h == (void *) &dl_open[0] ? 0 : h == (void *) &dl_open[1] ? 1 : -1; }
extern void * __real_dlopen (const char * n, int f); extern void * __real_dlsym (void * h, const char * n); extern int __real_dlclose (void * h);
void * __wrap_dlopen (const char * n, int f)
{
  if (n && !strncmp (n, "vlib", 4)) { if (n[4] > '1') return __real_dlopen ("/nowhere/vlib.so", f); int l = n[4] - '0'; dl_open[l]++; return &dl_open[l]; }
  return __real_dlopen (n, f);
}
void * __wrap_dlsym (void * h, const char * n)
{
  int l = dl_lib (h);
  if (l < 0) return __real_dlsym (h, n);
  if (dl_open[l] <= dl_close[l]) dl_err = 1;
  return !strcmp (n, "fac") ? (l ? (void *) lib_f1 : (void *) lib_f0) : NULL;
}
int __wrap_dlclose (void * h) { int l = dl_lib (h); if (l < 0) return __real_dlclose (h); dl_close[l]++; if (dl_close[l] > dl_open[l]) dl_err = 2; return 0; }
static void s_dyn (void)
{
  static int serial;
  begin (false);
  if (nft + 2 >= MAXF) mc_prune ();
  dl_open[0] = dl_open[1] = dl_close[0] = dl_close[1] = dl_err = 0; dl_fac[0] = dl_fac[1] = NULL;
  serial++;
  static const char * const libs[] = { "", "\"Library\":\"vlib%d\",", "\"Library\":\"vlib7\",", "\"Library\":5," };
  static const char * const facs[] = { "", "\"Factory\":\"fac\",", "\"Factory\":\"nofac\",", "\"Factory\":null," };
  int lib[2], fac[2], plain = mc_choose (2), refs = mc_choose (2), same = mc_choose (2), by = mc_choose (3);
  char cfg[2][160], top[100];
  for (int i = 0; i < 2; i++)
  {
    char t[40];
    snprintf (dl_ty[i], sizeof (dl_ty[i]), "D%d.%d", (int) getpid () % 1000, serial * 2 + (same ? 0 : i));
    lib[i] = mc_choose (4); fac[i] = mc_choose (4);
    snprintf (t, sizeof (t), libs[lib[i]], same ? 0 : i);
    snprintf (cfg[i], sizeof (cfg[i]), "{%s%s%s\"I\":\"%c\",\"R\":[%s]}", t, facs[fac[i]], plain ? "\"P\":1," : "", 'a' + i, i == refs ? (i ? "\"a\"" : "\"b\"") : "");
    put (i ? "b" : "a", cfg[i]);
    mc_log ("%s\n", cfg[i]);
  }
  snprintf (top, sizeof (top), "{\"a\":\"%s\",\"b\":\"%s\"}", dl_ty[0], dl_ty[1]);
  put ("main", top);
  conts[0] = iot_container_alloc ("main");
  bool known[2] = { false, false }, have[2] = { false, false }, ok[2];
  int opens[2] = { 0, 0 }, closes[2] = { 0, 0 };
  for (int i = 0; i < 2; i++) ok[i] = lib[i] == 1 && fac[i] == 1;
  for (int step = 0; step < 2; step++) /* the library of each component is tried once its type is needed and not known */
  {
    mc_log ("%s\n", by == 0 ? "init" : by == 1 ? "add" : step ? "init" : "find");
    if (by == 2 && step == 0)
    {
      MC_CHECK (!find (conts[0], "a") && !find (conts[0], "b"), "find", "a component of an unknown type was found");
      continue;
    }
    for (int i = by == 1 ? step : 0; i < (by == 1 ? step + 1 : 2); i++)
    {
      int l = same ? 0 : i;
      if (known[l]) continue;
      if (lib[i] == 1 && (fac[i] == 1 || fac[i] == 2)) { opens[l]++; if (fac[i] == 1) known[l] = true; else closes[l]++; }
    }
    if (by == 1) { if (have[step]) continue; iot_container_add_component (conts[0], dl_ty[step], step ? "b" : "a", cfg[step]); have[step] = known[same ? 0 : step]; }
    else { MC_CHECK (iot_container_init (conts[0]), "init", "init fails"); for (int i = 0; i < 2; i++) have[i] |= known[same ? 0 : i]; }
    if (by == 1 && have[step] && refs == step && known[same ? 0 : !step]) have[!step] = true; /* named by the other, and configured */
    MC_CHECK (!dl_err, "library", "a library is used or closed that is not open");
    for (int l = 0; l < 2; l++)
    {
      MC_CHECK (dl_open[l] == opens[l], "library", "library %d opened %d times instead of %d", l, dl_open[l], opens[l]);
      MC_CHECK (dl_close[l] == closes[l], "library", "library %d closed %d times instead of %d", l, dl_close[l], closes[l]);
    }
    for (int i = 0; i < 2; i++)
    {
      const char * n = i ? "b" : "a";
      const iot_component_factory_t * f = iot_component_factory_find (dl_ty[i]);
      MC_CHECK (!f == !known[same ? 0 : i], "library", "factory of type %s is %s", dl_ty[i], f ? "known" : "not known");
      if (f) MC_CHECK (f == dl_fac[same ? 0 : i], "library", "another factory of type %s is known", dl_ty[i]);
      MC_CHECK (live_of (0, n, NULL) == have[i], "create", "component %s was created %d times", n, live_of (0, n, NULL));
    }
    if (by != 1) continue;
  }
  check_list (0, NULL); check_list (0, "Lib");
  startstop (0, true); check_list (0, NULL); startstop (0, false);
  (void) ok;
  mc_trans (1); mc_state (mc_mix (mc_mix ((uint64_t) (lib[0] * 4 + fac[0]), (uint64_t) (lib[1] * 4 + fac[1])), (uint64_t) (plain + 2 * refs + 4 * same + 8 * by))); mc_outcome ((uint64_t) (have[0] + 2 * have[1]));
  finish (0);
  for (int l = 0; l < 2; l++) if (known[l]) MC_CHECK (dl_open[l] > dl_close[l], "library", "library %d is closed though its factory is still known", l);
  dd_leaks ("loading");
}
static const mc_space spaces[] = {
  { "dyn", s_dyn, "components of types loaded from libraries: missing, without the factory, shared, named wrongly" },
  { "noconf", s_noconf, "containers without a configuration source" },
  { "graph", s_graph, "every dependency graph with every kind of broken configuration" },
  { "top", s_top, "container configurations of every kind" },
  { "hist", s_hist, "every history of container calls" },
};
int main (int argc, char ** argv) { return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
