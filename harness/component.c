/* C09: component state machine, waiters and references under all interleavings */
#include "fib.h"
#include "iot/component.h"
#include "iot/container.h"
#include <string.h>
#include <stdlib.h>
static void nop (iot_component_t * c) { (void) c; }
static const iot_component_factory_t plain = { "T", NULL, NULL, NULL, NULL, NULL }, cated = { "T", "K", NULL, NULL, NULL, NULL };
static iot_component_t * comp;
static bool gone;
static iot_component_t * make (const char * name, const iot_component_factory_t * f)
{
  iot_component_t * c = calloc (1, sizeof (*c));
  iot_component_init (c, f, nop, nop);
  c->name = strdup (name);
  c->config = iot_data_alloc_map (IOT_DATA_STRING);
  return c;
}
static const char * const names[] = { "Initial", "Stopped", "Running", "?", "Deleted", "?", "?", "?", "Starting" };
/* the transition table: is state -> to allowed */
static bool allowed (uint32_t s, uint32_t to) { return to == IOT_COMPONENT_DELETED ? s != IOT_COMPONENT_RUNNING : s != IOT_COMPONENT_DELETED; }
static bool set (iot_component_t * c, char op) { return op == 'R' ? iot_component_set_running (c) : op == 'S' ? iot_component_set_stopped (c) : op == 'D' ? iot_component_set_deleted (c) : iot_component_set_starting (c); }
static uint32_t target (char op) { return op == 'R' ? 2 : op == 'S' ? 1 : op == 'D' ? 4 : 8; }
static const char * map_str (const iot_data_t * m, const char * k) { return iot_data_string_map_get_string (m, k); }
/* ------------------------------------------------------------------ history */
static void s_hist (void)
{
  uint32_t st = 0; int depth = (int) mc_param ("depth", 5), refs = 1;
  fib_fixed (true);
  bool cat = mc_choose (2);
  comp = make ("one", cat ? &cated : &plain);
  MC_CHECK (iot_component_lock (comp) == 0 && iot_component_unlock (comp) == 0, "initial", "a new component is not in its initial state");
  for (int i = 0; i < depth; i++)
  {
    int op = mc_choose (9);
    if (op < 4)
    {
      char o = "RSDG"[op];
      bool ok = allowed (st, target (o)), want = ok && st != target (o), got = set (comp, o);
      if (ok) st = target (o);
      mc_log ("set %s = %d\n", names[target (o)], got);
      MC_CHECK (got == want, "result", "setting %s reports %d", names[target (o)], got);
    }
    else if (op == 4)
    {
      mc_log ("lock and unlock\n");
      uint32_t a = iot_component_lock (comp), b = iot_component_unlock (comp);
      MC_CHECK (a == st && b == st, "state", "lock and unlock give %u, %u instead of %u", a, b, st);
    }
    else if (op == 5)
    {
      if (!st) continue;
      uint32_t masks[3] = { st, 15, st | (st << 1 & 15) };
      for (int m = 0; m < 3; m++)
      {
        mc_log ("wait for %u\n", masks[m]);
        MC_CHECK (iot_component_wait (comp, masks[m]) == st, "wait", "wait gives another state");
        MC_CHECK (iot_component_wait_and_lock (comp, masks[m]) == st && iot_component_unlock (comp) == st, "wait", "wait and lock gives another state");
      }
    }
    else if (op == 6)
    {
      iot_data_t * m = iot_component_read (comp);
      mc_log ("read\n");
      const iot_data_t * cf = iot_data_string_map_get (m, "config");
      MC_CHECK (!strcmp (map_str (m, "name"), "one") && !strcmp (map_str (m, "type"), "T") && !strcmp (map_str (m, "state"), names[st]) && cf == comp->config, "read", "read gives state %s", map_str (m, "state"));
      const char * k = map_str (m, "category");
      MC_CHECK (cat ? k && !strcmp (k, "K") : !k, "read", "read gives category %s", k ? k : "(none)");
      iot_data_free (m);
    }
    else if (op == 7) { mc_log ("add reference\n"); iot_component_add_ref (comp); refs++; }
    else if (refs > 1)
    {
      mc_log ("drop reference\n");
      MC_CHECK (!iot_component_dec_ref (comp), "last", "dropping one of %d references reports the last", refs);
      refs--;
    }
    mc_trans (1); mc_state (mc_mix (mc_mix (st, (uint64_t) refs), cat));
  }
  while (refs > 1) { MC_CHECK (!iot_component_dec_ref (comp), "last", "dropping one of %d references reports the last", refs); refs--; }
  MC_CHECK (iot_component_dec_ref (comp), "last", "dropping the last reference does not report it");
  iot_component_fini (comp); free (comp);
  mc_outcome (st);
}
/* --------------------------------------------------------------- concurrent */
/* R S D G set, l lock/unlock, r read, digits wait for a mask (0-9a-f hexadecimal), W mask: wait and lock, dwell, unlock */
typedef struct cfg { uint32_t init; const char * prog[4]; } cfg;
static const cfg conc[] =
{
  { 1, { "R", "2" } }, { 1, { "R", "2", "2" } }, { 1, { "RS", "2" } }, { 1, { "R", "S", "2", "1" } }, { 1, { "RS", "W2", "W1" } }, { 1, { "GR", "2", "8" } },
  { 1, { "D", "4", "4" } }, { 2, { "D", "S", "4" } }, { 2, { "SD", "4", "W1" } }, { 1, { "R", "D", "6" } }, { 1, { "R", "D", "4", "2" } }, { 1, { "R", "R" } }, { 1, { "R", "R", "R" } },
  { 1, { "RS", "RS" } }, { 1, { "RS", "RSD" } }, { 1, { "D", "D", "R" } }, { 1, { "RSR", "SRS" } }, { 8, { "R", "S", "W3" } }, { 1, { "Rl", "Sl" } }, { 1, { "Rr", "Sr" } }, { 1, { "R", "W2", "S" } },
  { 1, { "R", "W2", "SD" } }, { 0, { "G", "R", "f" } }, { 0, { "S", "1", "R" } }, { 1, { "GSD", "W4", "R" } }, { 1, { "2", "2", "2", "R" } }, { 1, { "2S", "2S", "R" } }, { 1, { "2S", "R1", "W1" } },
  { 1, { "W2", "W2", "W2", "R" } }, { 2, { "W1S", "W5D", "S" } }, { 1, { "2S8", "R1G" } }, { 1, { "lD", "rR", "4" } },
};
static const cfg * c;
static struct { char op; int th; uint64_t t0, t1; uint32_t res; bool waiting; uint32_t mask; } ev[24];
static int nev;
static const char * owner_of; static int holder = -1;
static void body (void * a)
{
  for (const char * p = c->prog[(long) a]; *p; p++)
  {
    int i = nev++;
    ev[i].th = (int) (long) a; ev[i].op = *p; ev[i].t1 = UINT64_MAX; ev[i].t0 = fib_event ();
    if (strchr ("RSDG", *p)) ev[i].res = set (comp, *p);
    else if (*p == 'l')
    {
      ev[i].res = iot_component_lock (comp);
      MC_CHECK (holder < 0, "lock", "two threads hold the component lock");
      holder = fib_self (); fib_yield (); holder = -1;
      uint32_t s = iot_component_unlock (comp);
      MC_CHECK (s == ev[i].res, "lock", "state changed from %u to %u under the component lock", ev[i].res, s);
    }
    else if (*p == 'r')
    {
      iot_data_t * m = iot_component_read (comp);
      ev[i].res = 99; for (uint32_t s = 0; s < 9; s++) if (!strcmp (map_str (m, "state"), names[s])) ev[i].res = s;
      iot_data_free (m);
    }
    else
    {
      bool lock = *p == 'W';
      if (lock) p++;
      ev[i].mask = (uint32_t) (*p >= 'a' ? *p - 'a' + 10 : *p - '0'); ev[i].op = 'w'; ev[i].waiting = true;
      if (lock)
      {
        ev[i].res = iot_component_wait_and_lock (comp, ev[i].mask);
        MC_CHECK (holder < 0, "lock", "a wait returns while another thread holds the lock");
        holder = fib_self (); fib_yield ();
        MC_CHECK (comp->state == ev[i].res, "lock", "state changed under the lock returned by wait");
        holder = -1;
        uint32_t s = iot_component_unlock (comp);
        MC_CHECK (s == ev[i].res, "lock", "state changed from %u to %u under the lock returned by wait", ev[i].res, s);
      }
      else ev[i].res = iot_component_wait (comp, ev[i].mask);
      ev[i].waiting = false;
      MC_CHECK (ev[i].res & ev[i].mask, "wait", "wait for %x returns state %x", ev[i].mask, ev[i].res);
    }
    ev[i].t1 = fib_event ();
    mc_log ("T%d: %c%x = %x\n", fib_self (), ev[i].op, ev[i].op == 'w' ? ev[i].mask : 0, ev[i].res);
    mc_trans (1);
  }
}
/* is there an order of the completed operations, consistent with their times, that explains all results? */
static bool explain (uint32_t done, uint32_t st, uint32_t final)
{
  bool all = true;
  for (int i = 0; i < nev; i++)
  {
    if (done >> i & 1 || ev[i].t1 == UINT64_MAX) continue;
    all = false;
    bool first = true;
    for (int j = 0; j < nev; j++) if (j != i && !(done >> j & 1) && ev[j].t1 < ev[i].t0) first = false;
    if (!first) continue;
    uint32_t n = st; bool ok;
    if (strchr ("RSDG", ev[i].op)) { uint32_t t = target (ev[i].op); bool al = allowed (st, t); ok = ev[i].res == (al && st != t); if (al) n = t; }
    else ok = ev[i].res == st;
    if (ok && explain (done | 1u << i, n, final)) return true;
  }
  return all && st == final;
}
static void s_conc (void)
{
  c = &conc[mc_choose (sizeof (conc) / sizeof (conc[0]))];
  fib_fixed (true);
  comp = make ("one", &plain);
  if (c->init) set (comp, c->init == 1 ? 'S' : c->init == 2 ? 'R' : c->init == 4 ? 'D' : 'G');
  fib_fixed (false);
  fib_spurious (mc_param ("spurious", 0));
  mc_log ("initially %s:", names[c->init]);
  int n = 0, t[4];
  for (; n < 4 && c->prog[n]; n++) { mc_log (" %s", c->prog[n]); t[n] = fib_thread (body, (void *) (long) n); }
  mc_log ("\n");
  fib_quiesce ();
  uint32_t final = iot_component_lock (comp); iot_component_unlock (comp);
  for (int i = 0; i < nev; i++)
    if (ev[i].t1 == UINT64_MAX) MC_CHECK (ev[i].waiting && !(ev[i].mask & final), "stuck", "a thread stays blocked in %c (mask %x) although the component is %s", ev[i].op, ev[i].mask, names[final]);
  MC_CHECK (explain (0, c->init, final), "order", "no order of the calls explains their results and the final state %s", names[final]);
  /* release the waiters: go through every state but deleted */
  uint64_t h = final;
  for (int i = 0; i < nev; i++) h = mc_mix (h, ev[i].res + 16u * (ev[i].t1 == UINT64_MAX));
  mc_outcome (h);
  bool left = false;
  for (int k = 0; k < n; k++) left |= !fib_finished (t[k]);
  if (left) { fib_allow_blocked (true); fib_leak_check (false); }
  else { for (int k = 0; k < n; k++) fib_join (t[k]); iot_component_fini (comp); free (comp); }
}
/* --------------------------------------------------------------- references */
/* + add a reference, - drop one; a thread starts with the number of references given */
static const struct { int own[3]; const char * prog[3]; } refc[] = {
  { { 1, 1 }, { "-", "-" } }, { { 1, 1, 1 }, { "-", "-", "-" } }, { { 1, 1 }, { "+--", "-" } }, { { 1, 1 }, { "+-+--", "-" } }, { { 1, 1 }, { "+--", "+--" } }, { { 1, 1, 1 }, { "+--", "+--", "-" } }, { { 2, 1 }, { "--", "+--" } }, { { 1, 1 }, { "++---", "+--" } },
};
static int rc, lasts;
static void rbody (void * a)
{
  for (const char * p = refc[rc].prog[(long) a]; *p; p++)
  {
    MC_CHECK (!gone, "refs", "destroyed while a reference is held");
    if (*p == '+') iot_component_add_ref (comp);
    else if (iot_component_dec_ref (comp)) { lasts++; mc_log ("T%d: last reference\n", fib_self ()); gone = true; fib_yield (); iot_component_fini (comp); free (comp); }
    mc_trans (1);
  }
}
static void s_refs (void)
{
  rc = mc_choose (sizeof (refc) / sizeof (refc[0]));
  fib_fixed (true);
  comp = make ("one", &plain);
  int total = 0, n = 0, t[3];
  for (; n < 3 && refc[rc].prog[n]; n++) total += refc[rc].own[n];
  for (int i = 1; i < total; i++) iot_component_add_ref (comp);
  fib_fixed (false);
  for (int i = 0; i < n; i++) t[i] = fib_thread (rbody, (void *) (long) i);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  MC_CHECK (lasts == 1, "refs", "%d calls reported the last reference", lasts);
  mc_outcome ((uint64_t) rc);
}
static const mc_space spaces[] = {
  { "hist", s_hist, "every history of state changes, waits, reads and references" },
  { "conc", s_conc, "state changes and waits from several threads" },
  { "refs", s_refs, "references dropped from several threads" },
};
int main (int argc, char ** argv) { return fib_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
