/* C01, C02: iot_queue under all interleavings */
#include "fib.h"
#include "iot/queue.h"
#include <string.h>
#include <stdio.h>

typedef struct cfg { uint32_t max; int prefill; const char * prog[4]; } cfg;
/* E enqueue, e try-enqueue, D dequeue, d try-dequeue, + raise limit, 0 unlimited, 1 limit one, X stop, s size */
static const cfg xfer[] =
{
  { 1, 0, { "EE", "DD" } }, { 0, 0, { "EE", "DD" } }, { 2, 0, { "EE", "DD" } },
  { 1, 0, { "E", "E", "DD" } }, { 1, 0, { "EE", "D", "D" } }, { 1, 1, { "E", "E", "DDD" } },
  { 2, 1, { "EE", "D", "DD" } }, { 1, 0, { "ee", "dd", "s" } }, { 2, 1, { "eE", "Dd", "s" } },
  { 1, 1, { "E", "e", "dD" } }, { 1, 0, { "E", "E", "D", "D" } }, { 0, 0, { "E", "E", "D", "d" } },
  { 1, 1, { "E", "0", "D" } }, { 1, 1, { "E", "+", "D" } }, { 2, 2, { "E", "1", "DD" } },
  { 1, 1, { "E", "X", "D" } }, { 0, 0, { "E", "X", "DD" } }, { 1, 0, { "EE", "X", "d" } },
  { 2, 0, { "Ee", "DX" } }, { 1, 1, { "E", "E", "+", "D" } }, { 2, 1, { "e", "e", "d", "s" } },
  { 0, 3, { "DDD", "EE" } }, { 3, 1, { "EEE", "DDDD" } },
};
static const cfg wake[] =
{
  { 0, 0, { "D", "E" } }, { 0, 0, { "D", "D", "EE" } }, { 0, 0, { "D", "D", "E" } }, { 1, 1, { "E", "D" } }, { 1, 1, { "E", "E", "D" } },
  { 1, 1, { "E", "E", "D", "D" } }, { 1, 1, { "E", "+" } }, { 1, 1, { "E", "0" } }, { 1, 1, { "E", "E", "0" } }, { 1, 1, { "E", "E", "+" } },
  { 2, 2, { "E", "1", "DD" } }, { 2, 2, { "E", "1d", "D" } }, { 1, 0, { "D", "X" } }, { 1, 1, { "E", "X" } }, { 0, 0, { "D", "D", "X" } }, { 1, 1, { "E", "E", "X" } },
  { 1, 1, { "E", "d" } }, { 1, 1, { "E", "E", "dd" } }, { 0, 0, { "D", "e" } }, { 0, 0, { "D", "D", "ee" } }, { 1, 0, { "D", "E", "X" } }, { 1, 1, { "E", "D", "X" } },
  { 1, 0, { "DD", "EE", "X" } }, { 0, 0, { "D", "EX" } }, { 0, 1, { "DD", "X" } }, { 1, 1, { "EX", "D" } }, { 1, 1, { "E", "+1d" } }, { 2, 2, { "EE", "dd" } },
  { 1, 1, { "XE" } }, { 0, 0, { "XD" } }, { 0, 1, { "XDD" } }, { 1, 1, { "E", "E", "+", "X" } },
};

#define MAXE 16
static iot_queue_t * q;
static const cfg * c;
static struct { int prod, seq; iot_data_t * d; bool started, returned, ok, out; uint64_t c0, c1, o0, o1; bool afterstop; } el[MAXE];
static int nel;
static bool stopping, stopped;
static uint32_t maxever, resized;
static struct { int blockop; } th[4];

static int new_el (int prod)
{
  int i = nel++;
  el[i].prod = prod;
  el[i].d = iot_data_alloc_ui32 ((uint32_t) i + 100);
  return i;
}
static void got (iot_data_t * d, uint64_t t0)
{
  uint32_t v = iot_data_ui32 (d);
  MC_CHECK (v >= 100 && v < 100u + (uint32_t) nel, "foreign-element", "dequeued value %u was never enqueued", v);
  int i = (int) v - 100;
  MC_CHECK (el[i].d == d, "foreign-element", "dequeued element is not the one enqueued");
  MC_CHECK (!el[i].out, "duplicate", "element %d dequeued twice", i);
  el[i].out = true; el[i].o0 = t0; el[i].o1 = fib_event ();
  MC_CHECK (iot_data_ref_count (d) == 1, "refcount", "dequeued element has %u owners", iot_data_ref_count (d));
}
static void body (void * arg)
{
  int me = (int) (long) arg;
  for (const char * p = c->prog[me]; *p; p++)
  {
    uint64_t t0 = fib_event ();
    th[me].blockop = *p;
    switch (*p)
    {
      case 'E': case 'e':
      {
        int i = new_el (me);
        el[i].started = true; el[i].c0 = t0; el[i].afterstop = stopping;
        if (*p == 'E') { iot_queue_enqueue (q, el[i].d); el[i].ok = !stopping; }
        else el[i].ok = iot_queue_try_enqueue (q, el[i].d);
        el[i].returned = true; el[i].c1 = fib_event ();
        mc_log ("T%d: %s(%d)%s\n", me + 1, *p == 'E' ? "enqueue" : "try_enqueue", i, *p == 'e' ? (el[i].ok ? "=true" : "=false") : "");
        break;
      }
      case 'D': case 'd':
      {
        bool st = stopped;
        iot_data_t * d = (*p == 'D') ? iot_queue_dequeue (q) : iot_queue_try_dequeue (q);
        mc_log ("T%d: %s = %d\n", me + 1, *p == 'D' ? "dequeue" : "try_dequeue", d ? (int) iot_data_ui32 (d) - 100 : -1);
        if (d) got (d, t0);
        else if (*p == 'D') MC_CHECK (stopping, "empty-dequeue", "blocking dequeue returned nothing although the queue was not stopped");
        (void) st;
        break;
      }
      case '+': resized = 1; maxever++; iot_queue_setmaxsize (q, iot_queue_maxsize (q) + 1); break;
      case '0': resized = 1; maxever = 1000; iot_queue_setmaxsize (q, 0); break;
      case '1': resized = 1; iot_queue_setmaxsize (q, 1); break;
      case 'X': stopping = true; iot_queue_stop (q); stopped = true; break;
      case 's':
      {
        uint32_t n = iot_queue_size (q);
        MC_CHECK (n <= maxever, "overfull", "size %u exceeds the maximum %u", n, maxever);
        break;
      }
    }
    th[me].blockop = 0;
  }
}
static void run_cfg (const cfg * k, int nk)
{
  c = &k[mc_choose (nk)];
  q = iot_queue_alloc (c->max);
  maxever = c->max ? c->max : 1000;
  mc_log ("max=%u prefill=%d programs:", c->max, c->prefill);
  for (int i = 0; i < 4 && c->prog[i]; i++) mc_log (" %s", c->prog[i]);
  mc_log ("\n");
  MC_CHECK (iot_queue_maxsize (q) == c->max, "maxsize", "max size not as created");
  for (int i = 0; i < c->prefill; i++)
  {
    int e = new_el (9);
    MC_CHECK (iot_queue_try_enqueue (q, el[e].d), "refused", "try_enqueue refused on a queue with room");
    el[e].started = el[e].returned = el[e].ok = true; el[e].c1 = fib_event ();
  }
  int n = 0, t[4];
  for (; n < 4 && c->prog[n]; n++) t[n] = fib_thread (body, (void *) (long) n);
  fib_quiesce ();
  /* nobody can run: a blocked call must have a reason to be blocked */
  uint32_t size = iot_queue_size (q), max = iot_queue_maxsize (q);
  for (int i = 0; i < n; i++)
  {
    if (fib_finished (t[i])) continue;
    MC_CHECK (!stopped, "stuck-after-stop", "thread %d still blocked in '%c' after the queue was stopped", i + 1, th[i].blockop);
    if (th[i].blockop == 'D') MC_CHECK (size == 0, "stuck-dequeue", "dequeue blocked for ever although the queue holds %u elements", size);
    else if (th[i].blockop == 'E') MC_CHECK (max != 0 && size >= max, "stuck-enqueue", "enqueue blocked for ever although size %u, max %u", size, max);
    else mc_fail ("stuck", "thread %d blocked in '%c'", i + 1, th[i].blockop);
  }
  MC_CHECK (size <= maxever, "overfull", "size %u exceeds the maximum %u", size, maxever);
  bool pend = false;
  for (int i = 0; i < n; i++) if (!fib_finished (t[i])) pend = true;
  stopping = true;
  iot_queue_stop (q);
  stopped = true;
  (void) pend;
  fib_quiesce ();
  for (int i = 0; i < n; i++) MC_CHECK (fib_finished (t[i]), "stuck-after-stop", "thread %d still blocked in '%c' after the queue was stopped", i + 1, th[i].blockop);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  /* drain: what is left comes out in order */
  iot_data_t * d;
  uint32_t left = iot_queue_size (q);
  bool viaDeq = mc_choose (2);
  for (;;)
  {
    uint64_t t0 = fib_event ();
    fib_yield ();
    d = viaDeq ? iot_queue_dequeue (q) : iot_queue_try_dequeue (q);
    if (!d) break;
    MC_CHECK (left-- > 0, "size", "more elements than size reported");
    got (d, t0);
  }
  MC_CHECK (left == 0, "size", "size reported %u more elements than could be dequeued", left);
  /* exactly once, in order */
  for (int a = 0; a < nel; a++)
  {
    if (el[a].ok) MC_CHECK (el[a].out, "lost", "element %d was accepted but never came out", a);
    if (c->prog[0] && !el[a].ok && el[a].prod >= 0 && el[a].returned && el[a].out) MC_CHECK (stopping, "refused-but-queued", "element %d was refused but came out", a);
    for (int b = 0; b < nel; b++)
    {
      if (a == b || !el[a].out || !el[b].out) continue;
      bool before = el[a].c1 < el[b].c0 && el[a].returned;
      if (before && el[b].o1 < el[a].o0) mc_fail ("order", "element %d was put in before %d but came out after it", a, b);
    }
  }
  uint64_t h = 0;
  for (int a = 0; a < nel; a++) { h = mc_mix (h, (uint64_t) el[a].out * 2 + (uint64_t) el[a].ok); h = mc_mix (h, el[a].o1); }
  mc_outcome (h);
  for (int a = 0; a < nel; a++) iot_data_free (el[a].d);
  iot_queue_free (q);
}
static void s_xfer (void) { run_cfg (xfer, sizeof (xfer) / sizeof (xfer[0])); }
static void s_wake (void) { run_cfg (wake, sizeof (wake) / sizeof (wake[0])); }
static void s_spur (void) { fib_spurious (true); if (mc_choose (2)) run_cfg (wake, sizeof (wake) / sizeof (wake[0])); else run_cfg (xfer, sizeof (xfer) / sizeof (xfer[0])); }

/* every configuration of up to three threads with short programs */
static char gp[3][4];
static cfg gcfg;
static int g_prog (const char * alpha, int len, int min, char * out)
{
  int na = (int) strlen (alpha), total = 0, pw = 1;
  for (int l = 1; l <= len; l++) { pw *= na; total += pw; }
  int ix = min + mc_choose (total - min), k = ix, l = 1;
  for (pw = na; k >= pw; l++, pw *= na) k -= pw;
  for (int j = 0; j < l; j++, k /= na) out[j] = alpha[k % na];
  out[l] = 0;
  return ix;
}
static void s_gen (void)
{
  static const char * const alphas[] = { "EDX", "ED+X", "EDed+0X", "EDed+01X" };
  const char * alpha = alphas[mc_param ("alpha", 1)];
  int len = (int) mc_param ("len", 2), n = (int) mc_param ("threads", 3), ix = 0;
  gcfg.max = (uint32_t) mc_choose (4);
  gcfg.prefill = mc_choose (gcfg.max ? (int) gcfg.max + 1 : 3);
  for (int i = 0; i < n; i++) { ix = g_prog (alpha, len, ix, gp[i]); gcfg.prog[i] = gp[i]; }
  run_cfg (&gcfg, 1);
}

/* sequential histories against a reference list */
static void s_hist (void)
{
  fib_bound (0);
  uint32_t max = (uint32_t) mc_choose (3);
  int depth = (int) mc_param ("depth", 7);
  q = iot_queue_alloc (max);
  int ref[MAXE], n = 0, next = 0;
  bool st = false;
  for (int k = 0; k < depth; k++)
  {
    switch (mc_choose (7))
    {
      case 0: /* enqueue (only where it cannot block) */
        if (max && (uint32_t) n >= max && !st) break;
        {
          bool full = max && (uint32_t) n >= max;
          iot_data_t * d = iot_data_alloc_ui32 ((uint32_t) next);
          mc_log ("enqueue(%d)\n", next);
          iot_queue_enqueue (q, d);
          if (full) iot_data_free (d); else ref[n++] = next;
          next++;
        }
        break;
      case 1:
      {
        iot_data_t * d = iot_data_alloc_ui32 ((uint32_t) next);
        bool ok = iot_queue_try_enqueue (q, d), want = max == 0 || (uint32_t) n < max;
        mc_log ("try_enqueue(%d)=%d\n", next, ok);
        MC_CHECK (ok == want, "try-enqueue", "try_enqueue returned %d with %d of %u", ok, n, max);
        if (ok) ref[n++] = next; else iot_data_free (d);
        next++;
        break;
      }
      case 2: case 3:
      {
        bool tr = n == 0 && !st;
        iot_data_t * d = tr ? iot_queue_try_dequeue (q) : iot_queue_dequeue (q);
        mc_log ("dequeue=%d\n", d ? (int) iot_data_ui32 (d) : -1);
        if (n == 0) { MC_CHECK (d == NULL, "foreign-element", "empty queue gave an element"); break; }
        MC_CHECK (d && iot_data_ui32 (d) == (uint32_t) ref[0], "order", "dequeue gave the wrong element");
        iot_data_free (d);
        n--; memmove (ref, ref + 1, (size_t) n * sizeof (int));
        break;
      }
      case 4: max = (uint32_t) mc_choose (3); mc_log ("setmaxsize(%u)\n", max); iot_queue_setmaxsize (q, max); break;
      case 5: mc_log ("stop\n"); iot_queue_stop (q); st = true; break;
      case 6: break;
    }
    MC_CHECK (iot_queue_size (q) == (uint32_t) n && iot_queue_maxsize (q) == max, "size", "size %u (expected %d), max %u (expected %u)", iot_queue_size (q), n, iot_queue_maxsize (q), max);
  }
  mc_outcome (mc_mix ((uint64_t) n, max));
  iot_queue_free (q); /* frees what is still queued */
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "xfer", s_xfer, "producers/consumers/resizers/stoppers: exactly-once FIFO transfer, bound" },
    { "wake", s_wake, "blocking and wake-up configurations: no call stays blocked without reason" },
    { "spur", s_spur, "both with spurious condition wake-ups" },
    { "gen", s_gen, "all configurations of threads with short programs over the operations" },
    { "hist", s_hist, "sequential histories against a reference list" },
  };
  return fib_main (argc, argv, sp, 5);
}
