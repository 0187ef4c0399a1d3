/* C01, C03, C04, C06, C07, C09: many elements, jobs, threads, schedules, runs and references: sizes around every width */
#include "fib.h"
#include "iot/queue.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include "iot/component.h"
#include "iot/data.h"
#include <string.h>
#include <stdlib.h>

#define NMAX 1100
static const int size[] = { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025 };
static int pick (void)
{
  int max = (int) mc_param ("max", 300), n = 0;
  while (n < (int) (sizeof (size) / sizeof (size[0])) && size[n] <= max) n++;
  return size[mc_choose (n)];
}
static void begin (void) { fib_bound (0); fib_horizon (50000000); fib_fixed (true); fib_timers (false); }

/* ------------------------------------------------------------------ queue */
static void s_queue (void)
{
  begin ();
  int n = pick (), lim = mc_choose (4), rounds = 1 + mc_choose (2), part = mc_choose (3);
  uint32_t max = lim == 0 ? 0 : lim == 1 ? (uint32_t) n : lim == 2 ? (uint32_t) n - 1 : (uint32_t) n + 1;
  if (lim == 2 && n == 1) mc_prune ();
  mc_log ("%d elements, limit %u, %d rounds, %s\n", n, max, rounds, part == 0 ? "all taken" : part == 1 ? "half taken, then filled up" : "left to the release");
  iot_queue_t * q = iot_queue_alloc (max);
  uint32_t next = 0, out = 0, have = 0;
  for (int r = 0; r < rounds; r++)
  {
    for (int i = 0; i < n; i++)
    {
      bool full = max && have >= max;
      iot_data_t * d = iot_data_alloc_ui32 (next);
      bool ok = (i & 1) || full ? iot_queue_try_enqueue (q, d) : (iot_queue_enqueue (q, d), true);
      MC_CHECK (ok == !full, "limit", "%u elements of %u queued, another is %s", have, max, ok ? "accepted" : "refused");
      if (ok) { next++; have++; } else iot_data_free (d);
      MC_CHECK (iot_queue_size (q) == have, "size", "size %u with %u elements", iot_queue_size (q), have);
    }
    uint32_t take = part == 0 ? have : part == 1 ? have / 2 : 0;
    for (uint32_t i = 0; i < take; i++)
    {
      iot_data_t * d = i & 1 ? iot_queue_dequeue (q) : iot_queue_try_dequeue (q);
      MC_CHECK (d && iot_data_ui32 (d) == out, "order", "element %ld taken, expected %u", d ? (long) iot_data_ui32 (d) : -1l, out);
      iot_data_free (d); out++; have--;
      MC_CHECK (iot_queue_size (q) == have, "size", "size %u with %u elements", iot_queue_size (q), have);
    }
    if (part == 1 && lim == 1) { max = max / 2 + 1; iot_queue_setmaxsize (q, max); MC_CHECK (iot_queue_maxsize (q) == max && iot_queue_size (q) == have, "resize", "elements lost by a new limit"); }
  }
  iot_queue_free (q);
  mc_trans ((uint64_t) (n * rounds)); mc_outcome (mc_mix ((uint64_t) next, out)); mc_state (mc_mix ((uint64_t) n, (uint64_t) (lim * 8 + rounds * 4 + part)));
}
/* ------------------------------------------------------------ thread pool */
static int ran[NMAX], order[NMAX], norder, njobs, nrun, maxrun;
static void * job (void * a)
{
  int i = (int) (long) a - 1;
  MC_CHECK (i >= 0 && i < njobs, "bad-argument", "job called with a foreign argument");
  if (norder < NMAX) order[norder++] = i;
  ran[i]++;
  if (++nrun > maxrun) maxrun = nrun;
  fib_yield ();
  nrun--;
  return NULL;
}
static int prio_of (int pattern, int i, int n)
{
  switch (pattern)
  {
    case 0: return IOT_THREAD_NO_PRIORITY;
    case 1: return 1 + i % 3;
    case 2: return 1 + i * 98 / n;
    case 3: return 99 - i * 98 / n;
    case 4: return i & 1 ? IOT_THREAD_NO_PRIORITY : 5;
    default: return 7;
  }
}
static void s_pool (void)
{
  begin ();
  int n = pick (), pat = mc_choose (6), workers = (int[]) { 1, 2, 5, 12 } [mc_choose (4)], rounds = 1 + mc_choose (2), lim = mc_choose (3);
  bool late = mc_choose (2);
  uint32_t max = lim == 0 ? 0 : lim == 1 ? (uint32_t) n : (uint32_t) n - 1;
  if (lim == 2 && n == 1) mc_prune ();
  if (lim == 2 && !late) mc_prune ();
  mc_log ("%d jobs, priorities by pattern %d, %d threads, limit %u, %d rounds, started %s\n", n, pat, workers, max, rounds, late ? "afterwards" : "before");
  iot_threadpool_t * p = iot_threadpool_alloc ((uint16_t) workers, max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
  for (int r = 0; r < rounds; r++)
  {
    memset (ran, 0, sizeof (ran)); norder = maxrun = 0; njobs = n;
    if (!late && r == 0) iot_threadpool_start (p);
    int acc = 0;
    for (int i = 0; i < n; i++)
    {
      bool full = max && (uint32_t) acc >= max && late;
      bool try = (i & 1) || full, ok = true;
      if (try) ok = iot_threadpool_try_work (p, job, (void *) (long) (i + 1), prio_of (pat, i, n)); else iot_threadpool_add_work (p, job, (void *) (long) (i + 1), prio_of (pat, i, n));
      MC_CHECK (ok == !full, "limit", "with %d jobs queued of %u another is %s", acc, max, ok ? "accepted" : "refused");
      if (ok) acc++;
    }
    if (late) iot_threadpool_start (p);
    iot_threadpool_wait (p);
    MC_CHECK (nrun == 0, "wait", "wait returned while %d jobs run", nrun);
    for (int i = 0; i < n; i++) MC_CHECK (ran[i] == (i < acc), "once", "job %d of %d ran %d times before wait returned", i, n, ran[i]);
    MC_CHECK (maxrun <= workers, "threads", "%d jobs ran at once on %d threads", maxrun, workers);
    if (late && workers == 1) for (int k = 1; k < norder; k++)
    {
      int a = order[k - 1], b = order[k], pa = prio_of (pat, a, n), pb = prio_of (pat, b, n);
      MC_CHECK (pa > pb || (pa == pb && a < b), "order", "job %d (priority %d) ran just before job %d (priority %d)", a, pa, b, pb);
    }
    if (late) iot_threadpool_stop (p);
  }
  iot_threadpool_free (p);
  MC_CHECK (fib_threads_alive () == 0, "threads-left", "threads left after free");
  mc_outcome (mc_mix ((uint64_t) n, (uint64_t) maxrun)); mc_state (mc_mix ((uint64_t) n, (uint64_t) (pat * 64 + workers * 4 + rounds * 2 + late)));
}
/* -------------------------------------------------------------- scheduler */
static iot_scheduler_t * sch;
static struct { iot_schedule_t * s; uint64_t due, period, left, last; int runs, frees, want; bool gone; } S[NMAX];
static uint64_t lastrun;
static void * fn (void * a)
{
  int i = (int) (long) a - 1;
  MC_CHECK (i >= 0 && i < njobs && !S[i].gone && !S[i].frees, "bad-argument", "function of a schedule that is gone");
  uint64_t now = fib_now ();
  MC_CHECK (now >= S[i].due, "early", "run %d of schedule %d at +%lu ns, due +%lu", S[i].runs + 1, i, now - FIB_EPOCH, S[i].due - FIB_EPOCH);
  MC_CHECK (now <= S[i].due + 100000, "late", "run %d of schedule %d at +%lu ns, due +%lu", S[i].runs + 1, i, now - FIB_EPOCH, S[i].due - FIB_EPOCH);
  MC_CHECK (now >= lastrun, "order", "time goes back");
  lastrun = now;
  S[i].runs++;
  S[i].due = now + S[i].period;
  return NULL;
}
static void freed (void * a) { S[(long) a - 1].frees++; }
#define U 1000000ull
static void s_sched (void)
{
  begin ();
  int n = pick (), pat = mc_choose (4), rep = 1 + mc_choose (2), drop = mc_choose (3);
  bool late = mc_choose (2), async = mc_choose (2);
  njobs = n; lastrun = 0;
  mc_log ("%d schedules, delays by pattern %d, %d runs, %s, started %s, %s\n", n, pat, rep, drop == 0 ? "all kept" : drop == 1 ? "every third deleted" : "every third removed and added again", late ? "afterwards" : "before", async ? "on a pool" : "synchronous");
  iot_threadpool_t * p = async ? iot_threadpool_alloc (1, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL) : NULL;
  if (p) iot_threadpool_start (p);
  sch = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
  if (!late) iot_scheduler_start (sch);
  uint64_t t0 = fib_now (), end = 0;
  for (int i = 0; i < n; i++)
  {
    uint64_t delay = (pat == 0 ? 50 : pat == 1 ? 50 + (uint64_t) i : pat == 2 ? 50 + (uint64_t) (n - i) : 50 + (uint64_t) (i * 7 % 11)) * U;
    memset (&S[i], 0, sizeof (S[i]));
    S[i].period = 2000 * U; S[i].want = rep;
    S[i].s = iot_schedule_create (sch, fn, freed, (void *) (long) (i + 1), S[i].period, delay, (uint64_t) rep, p, IOT_THREAD_NO_PRIORITY);
    MC_CHECK (i == 0 || iot_schedule_id (S[i].s) != iot_schedule_id (S[i - 1].s), "id", "two schedules have the same id");
    if (!async) iot_schedule_set_sync (S[i].s, true);
    S[i].due = fib_now () + delay;
    if (S[i].due > end) end = S[i].due;
    MC_CHECK (iot_schedule_add (sch, S[i].s) && (i % 5 || !iot_schedule_add (sch, S[i].s)), "result", "result of add of schedule %d", i);
  }
  if (drop) for (int i = 0; i < n; i += 3)
  {
    MC_CHECK (iot_schedule_remove (sch, S[i].s), "result", "schedule %d of %d is not there to be removed", i, n);
    if (drop == 1) { S[i].gone = true; iot_schedule_delete (sch, S[i].s); MC_CHECK (S[i].frees == 1, "free-count", "argument of a deleted schedule freed %d times", S[i].frees); }
  }
  if (drop == 2) for (int i = 0; i < n; i += 3)
  {
    uint64_t was = S[i].due; (void) was;
    MC_CHECK (iot_schedule_add (sch, S[i].s), "result", "a removed schedule is not added again");
  }
  (void) t0;
  if (late) iot_scheduler_start (sch);
  fib_sleep_until (end + (uint64_t) rep * 2000 * U + 3000 * U);
  for (int i = 0; i < n; i++) if (!S[i].gone) MC_CHECK (S[i].runs == S[i].want, "count", "schedule %d of %d ran %d times, asked for %d", i, n, S[i].runs, S[i].want);
  iot_scheduler_free (sch);
  if (p) iot_threadpool_free (p);
  for (int i = 0; i < n; i++) MC_CHECK (S[i].frees == 1, "free-count", "argument of schedule %d freed %d times", i, S[i].frees);
  mc_outcome (mc_mix ((uint64_t) n, (uint64_t) rep)); mc_state (mc_mix ((uint64_t) n, (uint64_t) (pat * 64 + rep * 16 + drop * 4 + late * 2 + async)));
}
static void s_runs (void)
{
  begin ();
  int n = pick (), per = mc_choose (4);
  bool other = mc_choose (2), async = mc_choose (2);
  static const uint64_t pers[] = { 1000000, 250000, 1000000000, 86400000000000 };
  njobs = 2; lastrun = 0; memset (S, 0, 2 * sizeof (S[0]));
  mc_log ("%d runs every %lu ns, %s, %s\n", n, pers[per], other ? "beside an endless schedule" : "alone", async ? "on a pool" : "synchronous");
  iot_threadpool_t * p = async ? iot_threadpool_alloc (1, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL) : NULL;
  if (p) iot_threadpool_start (p);
  sch = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
  for (int i = 0; i < 1 + other; i++)
  {
    S[i].period = i ? pers[per] * 3 : pers[per];
    S[i].due = fib_now ();
    S[i].s = iot_schedule_create (sch, fn, freed, (void *) (long) (i + 1), S[i].period, 0, i ? 0 : (uint64_t) n, p, IOT_THREAD_NO_PRIORITY);
    if (!async) iot_schedule_set_sync (S[i].s, true);
    iot_schedule_add (sch, S[i].s);
  }
  iot_scheduler_start (sch);
  fib_sleep_until (fib_now () + ((uint64_t) n + 5) * (pers[per] + 50000));
  MC_CHECK (S[0].runs == n, "count", "schedule ran %d times, asked for %d", S[0].runs, n);
  if (other) MC_CHECK (S[1].due > fib_now (), "lost", "the endless schedule stopped after %d runs", S[1].runs);
  iot_scheduler_free (sch);
  if (p) iot_threadpool_free (p);
  mc_trans ((uint64_t) n); mc_outcome ((uint64_t) n); mc_state (mc_mix ((uint64_t) n, (uint64_t) (per * 4 + other * 2 + async)));
}
/* ------------------------------------------------------------- references */
static bool c_start (iot_component_t * c) { return iot_component_set_running (c); }
static void c_stop (iot_component_t * c) { iot_component_set_stopped (c); }
static void s_refs (void)
{
  begin ();
  static const int rs[] = { 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 70000 };
  int n = rs[mc_choose (12)], kind = mc_choose (3);
  mc_log ("%d references to a %s\n", n, kind == 0 ? "component" : kind == 1 ? "thread pool" : "scheduler");
  if (kind == 0)
  {
    static iot_component_factory_t f = { .type = "t" };
    static iot_component_t c;
    iot_component_init (&c, &f, (iot_component_start_fn_t) c_start, (iot_component_stop_fn_t) c_stop);
    for (int i = 0; i < n; i++) iot_component_add_ref (&c);
    for (int i = 0; i < n; i++) MC_CHECK (!iot_component_dec_ref (&c), "refs", "last reference reported with %d of %d left", n - i, n + 1);
    MC_CHECK (iot_component_dec_ref (&c), "refs", "last of %d references not reported", n + 1);
    iot_component_fini (&c);
  }
  else if (kind == 1)
  {
    iot_threadpool_t * p = iot_threadpool_alloc (1, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
    for (int i = 0; i < n; i++) iot_threadpool_add_ref (p);
    for (int i = 0; i < n; i++) iot_threadpool_free (p);
    MC_CHECK (fib_threads_alive () == 1, "refs", "pool freed while a reference is held");
    iot_threadpool_free (p);
    MC_CHECK (fib_threads_alive () == 0, "refs", "pool not freed with its last reference");
  }
  else
  {
    iot_scheduler_t * s = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
    for (int i = 0; i < n; i++) iot_scheduler_add_ref (s);
    for (int i = 0; i < n; i++) iot_scheduler_free (s);
    MC_CHECK (fib_threads_alive () == 1, "refs", "scheduler freed while a reference is held");
    iot_scheduler_free (s);
    MC_CHECK (fib_threads_alive () == 0, "refs", "scheduler not freed with its last reference");
  }
  mc_trans ((uint64_t) n); mc_state (mc_mix ((uint64_t) n, (uint64_t) kind));
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "queue", s_queue, "queues of many elements, filled to the limit, emptied, refilled" },
    { "pool", s_pool, "many jobs on many threads in every priority pattern" },
    { "sched", s_sched, "many schedules" },
    { "runs", s_runs, "schedules of many runs" },
    { "refs", s_refs, "many references" },
  };
  return fib_main (argc, argv, sp, 5);
}
