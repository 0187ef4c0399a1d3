/* C06, C07, C08: scheduler under virtual time and all interleavings */
#include "fib.h"
#include "iot/scheduler.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include <string.h>

#define U 1000000ull   /* one time unit: 1 ms */
#define SLACK 20000ull /* 20 us: unique-key bumps and wake-up after the deadline */
#define MAXS 4
#define MAXE 64
enum { SYNC, POOL, THREAD };

static iot_scheduler_t * sch;
static iot_threadpool_t * pool;
typedef struct sc
{
  iot_schedule_t * s;
  bool exists, queued, deleted;
  uint64_t due, period; uint64_t repeat, left;
  int runs, ends, infl, maxinfl, runcb, abortcb, frees;
  uint64_t last; uint64_t dur;
} sc;
static sc S[MAXS];
static int nlog; static uint8_t logi[MAXE]; static uint64_t logt[MAXE];
static bool keeplog, fcb_uses, fcb_locks;

static void * fn (void * arg)
{
  sc * x = arg;
  MC_CHECK (x >= S && x < S + MAXS, "bad-argument", "function called with a foreign argument");
  MC_CHECK (x->frees == 0, "use-after-free", "schedule function runs after its argument was freed");
  x->runs++; x->infl++;
  if (x->infl > x->maxinfl) x->maxinfl = x->infl;
  if (keeplog) { if (nlog < MAXE) { logi[nlog] = (uint8_t) (x - S); logt[nlog] = fib_now (); } nlog++; }
  mc_log ("   schedule %d runs at +%.6f\n", (int) (x - S), (double) (fib_now () - FIB_EPOCH) / 1e6);
  if (x->dur) fib_sleep_until (fib_now () + x->dur);
  MC_CHECK (x->frees == 0, "use-after-free", "argument freed while the schedule function runs");
  x->infl--; x->ends++;
  return NULL;
}
static void * rcb (void * arg)
{
  sc * x = arg;
  MC_CHECK (x >= S && x < S + MAXS, "bad-argument", "run callback called with a foreign argument");
  MC_CHECK (x->frees == 0, "use-after-free", "run callback after the argument was freed");
  x->runcb++;
  mc_log ("   run callback %d\n", (int) (x - S));
  fib_yield ();
  return NULL;
}
static void * acb (void * arg)
{
  sc * x = arg;
  MC_CHECK (x >= S && x < S + MAXS, "bad-argument", "abort callback called with a foreign argument");
  MC_CHECK (x->frees == 0, "use-after-free", "abort callback after the argument was freed");
  x->abortcb++;
  mc_log ("   abort callback %d\n", (int) (x - S));
  fib_yield ();
  return NULL;
}
static void fcb (void * arg)
{
  sc * x = arg;
  MC_CHECK (x->infl == 0, "use-after-free", "argument freed while the schedule function runs");
  MC_CHECK (x->frees == 0, "double-free", "argument freed twice");
  x->frees++;
  if (fcb_uses) iot_schedule_remove (sch, S[1].s); /* a free function may use the scheduler */
  if (fcb_locks && x == S) iot_schedule_add_run_callback (sch, S[1].s, NULL);
  mc_log ("   argument %d freed\n", (int) (x - S));
}
static void create (int i, int mode, uint64_t delay, uint64_t period, uint64_t repeat)
{
  sc * x = &S[i];
  memset (x, 0, sizeof (*x));
  x->s = iot_schedule_create (sch, fn, fcb, x, period, delay, repeat, mode == POOL ? pool : NULL, IOT_THREAD_NO_PRIORITY);
  if (mode == SYNC) iot_schedule_set_sync (x->s, true);
  x->exists = true; x->period = period; x->repeat = x->left = repeat; x->due = fib_now () + delay;
}
static void setup (int mode, uint16_t workers, uint32_t max)
{
  fib_fixed (true);
  sch = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
  if (mode == POOL) { pool = iot_threadpool_alloc (workers, max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL); iot_threadpool_start (pool); }
  fib_quiesce ();
}
static void teardown (void)
{
  iot_scheduler_free (sch);
  mc_log ("scheduler freed\n");
  if (pool) iot_threadpool_free (pool);
  fib_timers (false);
  fib_sleep_until (fib_now () + 100 * U);
  for (int i = 0; i < MAXS; i++) if (S[i].exists) MC_CHECK (S[i].frees == 1, "free-count", "argument of schedule %d freed %d times", i, S[i].frees);
  MC_CHECK (fib_threads_alive () == 0, "threads-left", "threads left after free");
}
static const char * modename[] = { "sync", "pool", "thread" };

/* ---------------- C06 */
static void s_times (void)
{
  int nmax = (int) mc_param ("n", 2);
  int n = 1 + mc_choose (nmax), mode = mc_choose (3);
  bool before = mc_choose (2);
  keeplog = true;
  int horizon = 7;
  setup (mode, 1, 0);
  uint64_t t0 = fib_now ();
  if (!before) { iot_scheduler_start (sch); fib_quiesce (); }
  mc_log ("mode=%s add-before-start=%d\n", modename[mode], before);
  for (int i = 0; i < n; i++)
  {
    int d = mc_choose (4), p = 1 + mc_choose (3), r = mc_choose (3);
    if (n == 3 && d == 3) mc_prune ();
    create (i, mode, (uint64_t) d * U, (uint64_t) p * U, (uint64_t) r);
    mc_log ("schedule %d: delay %d period %d repeat %d\n", i, d, p, r);
    MC_CHECK (iot_schedule_add (sch, S[i].s), "result", "add of a fresh schedule refused");
  }
  if (before) iot_scheduler_start (sch);
  fib_sleep_until (t0 + (uint64_t) horizon * U + U / 2);
  /* every execution at its due time, none missing, none extra */
  uint64_t now = fib_now ();
  for (int i = 0; i < n; i++)
  {
    uint64_t due = S[i].due; int cnt = 0; uint64_t left = S[i].repeat;
    for (int k = 0; k < nlog; k++)
    {
      if (logi[k] != i) continue;
      cnt++;
      MC_CHECK (!S[i].repeat || left > 0, "repeat", "schedule %d ran %d times, repeat count %d", i, cnt, (int) S[i].repeat);
      MC_CHECK (logt[k] >= due, "early", "execution %d of schedule %d at +%lu ns, due +%lu", cnt, i, logt[k] - t0, due - t0);
      MC_CHECK (logt[k] <= due + SLACK, "late", "execution %d of schedule %d at +%lu ns, due +%lu", cnt, i, logt[k] - t0, due - t0);
      due = logt[k] + S[i].period; left--;
    }
    if (!S[i].repeat || left > 0) MC_CHECK (due > now, "lost", "schedule %d: execution %d due at +%lu ns did not happen by +%lu", i, cnt + 1, due - t0, now - t0);
  }
  for (int k = 1; k < nlog; k++) MC_CHECK (logt[k] >= logt[k - 1], "order", "executions out of time order");
  uint64_t h = 0; for (int k = 0; k < nlog; k++) h = mc_mix (h, logi[k] * 1000ull + (logt[k] - t0) / U);
  mc_outcome (h); mc_state (h);
  keeplog = false;
  teardown ();
}

/* ---------------- C07: sequential control histories against a reference model */
static bool m_run;
static void m_settle (uint64_t now, int * exp)
{
  /* which schedules must have run by now (observed run times feed the next due time) */
  (void) now; (void) exp;
}
static void check_interval (int n, uint64_t t0)
{
  /* consume the log since the last check */
  static int seen; if (nlog == 0) seen = 0;
  (void) t0;
  uint64_t now = fib_now ();
  for (; seen < nlog; seen++)
  {
    sc * x = &S[logi[seen]];
    int i = logi[seen];
    MC_CHECK (m_run, "run-while-stopped", "schedule %d ran while the scheduler was stopped", i);
    MC_CHECK (x->exists && !x->deleted && x->queued, "run-not-queued", "schedule %d ran although it is not queued", i);
    MC_CHECK (logt[seen] >= x->due, "early", "schedule %d ran %lu ns before its due time", i, x->due - logt[seen]);
    MC_CHECK (logt[seen] <= (x->due > x->last ? x->due : x->last) + SLACK, "late", "schedule %d ran %lu ns late", i, logt[seen] - x->due);
    x->last = logt[seen];
    if (x->repeat && --x->left == 0) { x->queued = false; x->left = x->repeat; /* due at once if added again */ }
    else x->due = logt[seen] + x->period;
  }
  if (m_run) for (int i = 0; i < n; i++) if (S[i].exists && !S[i].deleted && S[i].queued) MC_CHECK (S[i].due >= now || now - S[i].due < 10, "lost", "schedule %d was due %lu ns ago and did not run", i, now - S[i].due);
}
static void s_hist (void)
{
  int depth = (int) mc_param ("depth", 5), n = (int) mc_param ("n", 2);
  int mode = mc_choose (2);
  keeplog = true; nlog = 0;
  setup (mode, 1, 0);
  uint64_t t0 = fib_now ();
  m_run = mc_choose (2);
  if (m_run) { iot_scheduler_start (sch); fib_quiesce (); }
  mc_log ("mode=%s running=%d\n", modename[mode], m_run);
  create (0, mode, 0, 2 * U, 0);
  if (n > 1) create (1, mode, 2 * U, 2 * U, 1 + (uint64_t) mc_choose (2));
  check_interval (n, t0);
  int half = 0;
  for (int k = 0; k < depth; k++)
  {
    /* operations happen at odd half units, dues at even ones */
    if (!half) { fib_sleep_until (fib_now () + U / 2 + 100 * (uint64_t) (k + 1)); half = 1; check_interval (n, t0); }
    int op = mc_choose (3 + 5 * n);
    uint64_t now = fib_now ();
    if (op == 0) { mc_log ("[sleep 3 units]\n"); fib_sleep_until (now + 3 * U); }
    else if (op == 1) { mc_log ("[start]\n"); if (!m_run) for (int i = 0; i < n; i++) S[i].last = now; m_run = true; iot_scheduler_start (sch); }
    else if (op == 2) { mc_log ("[stop]\n"); iot_scheduler_stop (sch); fib_quiesce (); check_interval (n, t0); m_run = false; }
    else
    {
      int i = (op - 3) / 5; sc * x = &S[i];
      if (x->deleted) mc_prune ();
      switch ((op - 3) % 5)
      {
        case 0: { mc_log ("[add %d]\n", i); bool was = x->queued; x->last = now; x->queued = true; bool r = iot_schedule_add (sch, x->s); MC_CHECK (r == !was, "result", "add returned %d for a schedule %squeued", r, was ? "" : "not "); break; }
        case 1: { mc_log ("[remove %d]\n", i); bool was = x->queued; bool r = iot_schedule_remove (sch, x->s); MC_CHECK (r == was, "result", "remove returned %d for a schedule %squeued", r, was ? "" : "not "); x->queued = false; break; }
        case 2: mc_log ("[reset %d to 1]\n", i); iot_schedule_reset (sch, x->s, U); x->due = now + x->period + U; break;
        case 3: mc_log ("[reset %d to 0]\n", i); iot_schedule_reset (sch, x->s, 0); x->due = now + x->period; break;
        case 4: mc_log ("[delete %d]\n", i); iot_schedule_delete (sch, x->s); x->queued = false; x->deleted = true; break;
      }
    }
    fib_quiesce ();
    check_interval (n, t0);
  }
  mc_log ("[sleep 9 units]\n");
  fib_sleep_until (fib_now () + 9 * U + U / 4);
  check_interval (n, t0);
  uint64_t h = m_run; for (int k = 0; k < nlog; k++) h = mc_mix (h, logi[k] * 1000ull + (logt[k] - t0) / U);
  mc_outcome (h); mc_state (h);
  for (int i = 0; i < n; i++) if (S[i].deleted) MC_CHECK (S[i].frees == 1, "free-count", "argument of deleted schedule %d freed %d times", i, S[i].frees);
  keeplog = false;
  teardown ();
}

/* ---------------- C07: interleavings of control threads with the scheduler thread
   program letters: a/b add schedule 0/1, r/q remove 0/1, z/y reset 0/1 to 1 unit, d/e delete 0/1, s start, x stop, w sleep 1 unit (1 ns past) */
typedef struct rcfg { const char * pre, * prog[2]; int rep; } rcfg;
static const rcfg races[] =
{
  { "s", { "a" }, 1 }, { "", { "as" }, 1 }, { "", { "sa" }, 1 }, { "s", { "ab" }, 1 }, { "s", { "a", "b" }, 1 }, { "s", { "axs" }, 1 }, { "s", { "xas" }, 1 }, { "sa", { "wr" }, 1 },
  { "sa", { "wra" }, 1 }, { "sa", { "wd" }, 1 }, { "sa", { "w", "b" }, 1 }, { "sa", { "xs", "b" }, 1 }, { "s", { "a", "xs" }, 1 }, { "sa", { "r", "b" }, 1 }, { "sb", { "wz", "a" }, 1 },
  { "sa", { "z" }, 1 }, { "sab", { "wd", "q" }, 1 }, { "sab", { "we" }, 2 }, { "sa", { "wrawr" }, 2 }, { "s", { "az" }, 1 }, { "sa", { "wz" }, 2 }, { "sb", { "wa" }, 1 }, { "", { "s", "a" }, 1 }, { "a", { "s", "b" }, 1 },
};
static const rcfg * rc;
static int removed[2], readd[2], addtrue[2], resets[2]; static bool mid;
static void control (const char * p)
{
  for (; *p; p++)
  {
    int i = strchr ("bqye", *p) ? 1 : 0;
    sc * x = &S[i];
    switch (*p)
    {
      case 'a': case 'b': { bool r = iot_schedule_add (sch, x->s); mc_log ("T%d: add %d -> %d\n", fib_self (), i, r); addtrue[i] += r; x->queued = true; break; }
      case 'r': case 'q': { bool r = iot_schedule_remove (sch, x->s); mc_log ("T%d: remove %d -> %d\n", fib_self (), i, r); removed[i] += r; x->queued = false; break; }
      case 'z': case 'y': iot_schedule_reset (sch, x->s, U); mc_log ("T%d: reset %d\n", fib_self (), i); resets[i]++; break;
      case 'd': case 'e': iot_schedule_delete (sch, x->s); mc_log ("T%d: deleted %d\n", fib_self (), i); x->deleted = true; break;
      case 's': iot_scheduler_start (sch); mc_log ("T%d: started\n", fib_self ()); break;
      case 'x': iot_scheduler_stop (sch); mc_log ("T%d: stopped\n", fib_self ()); break;
      case 'w': fib_sleep_until (FIB_EPOCH + U); break;
    }
  }
}
static void cbody (void * a) { control (a); }
static void s_race (void)
{
  int bound = (int) mc_param ("bound", 2);
  rc = &races[mc_choose (sizeof (races) / sizeof (races[0]))];
  int mode = mc_choose (2); if (mode == 1) mode = mc_param ("pool", 1) ? POOL : SYNC;
  if (mode == POOL && mc_param ("pool", 1) == 0) mc_prune ();
  fib_fixed (true);
  setup (mode, 1, 0);
  uint64_t t0 = fib_now ();
  create (0, mode, U - (t0 - FIB_EPOCH), 2 * U, (uint64_t) rc->rep); create (1, mode, 3 * U, 2 * U, (uint64_t) rc->rep);
  mc_log ("mode=%s pre=%s programs %s %s repeat %d\n", modename[mode], rc->pre, rc->prog[0], rc->prog[1] ? rc->prog[1] : "", rc->rep);
  control (rc->pre);
  if (mc_choose (2)) { mid = true; fib_quiesce (); }
  fib_bound (bound); fib_fixed (false);
  int t1 = fib_thread (cbody, (void *) (long) rc->prog[0]);
  int t2 = rc->prog[1] ? fib_thread (cbody, (void *) (long) rc->prog[1]) : -1;
  fib_join (t1); if (t2 >= 0) fib_join (t2);
  bool stopped = false;
  { for (const char * p = rc->prog[0]; *p; p++) { if (*p == 'x') stopped = true; if (*p == 's') stopped = false; } }
  (void) stopped;
  fib_timers (false); fib_fixed (true);
  fib_sleep_until (fib_now () + 20 * U);
  for (int i = 0; i < 2; i++)
  {
    sc * x = &S[i];
    int rep = rc->rep;
    if (x->deleted) { MC_CHECK (x->runs <= rep, "repeat", "deleted schedule %d ran %d times", i, x->runs); MC_CHECK (x->frees == 1, "free-count", "argument of deleted schedule %d freed %d times", i, x->frees); continue; }
    if (addtrue[i] == 0) { MC_CHECK (x->runs == 0, "run-not-queued", "schedule %d ran without being added", i); continue; }
    if (removed[i] == 0)
    {
      if (addtrue[i] == 1 && (rep == 1 || mode == SYNC)) MC_CHECK (x->runs == rep, x->runs < rep ? "lost" : "repeat", "schedule %d with repeat %d ran %d times", i, rep, x->runs);
      else MC_CHECK (x->runs >= 1 && x->runs <= rep * addtrue[i], "repeat", "schedule %d with repeat %d, added %d times, ran %d times", i, rep, addtrue[i], x->runs);
    }
    else if (rep == 1) MC_CHECK (x->runs == addtrue[i] - removed[i], "remove", "one-shot schedule %d: %d adds and %d removes took effect, but it ran %d times", i, addtrue[i], removed[i], x->runs);
    else MC_CHECK (x->runs <= rep * addtrue[i], "repeat", "schedule %d ran %d times", i, x->runs);
    if (!x->deleted) { bool r = iot_schedule_remove (sch, x->s); MC_CHECK (!r || (removed[i] && rep > 1 && addtrue[i] > removed[i] && 0), "result", "completed schedule %d is still reported as queued", i); }
  }
  mc_outcome (mc_mix ((uint64_t) (S[0].runs * 100 + S[1].runs * 10 + removed[0]), (uint64_t) (addtrue[0] * 10 + removed[1])));
  teardown ();
}
/* all configurations: a set-up, then two threads with programs generated over control calls */
static char gprog[2][5];
static int g_prog (const char * alpha, int len, int min, char * out)
{
  int na = (int) strlen (alpha), total = 0, pw = 1;
  for (int l = 1; l <= len; l++) { pw *= na; total += pw; }
  int ix = min + mc_choose (total - min), k = ix, l = 1;
  for (pw = na; k >= pw; l++, pw *= na) k -= pw;
  for (int j = 0; j < l; j++, k /= na) out[j] = alpha[k % na];
  out[l] = 0;
  return ix;
}
static void s_gen (void)
{
  static const char * const alphas[] = { "arzsxw", "arzsxwbd", "arzsxwbqyde" };
  static const char * const pres[] = { "s", "sa", "", "ab", "sab", "sb" };
  const char * alpha = alphas[mc_param ("alpha", 0)], * pre = pres[mc_choose ((int) mc_param ("pres", 4))];
  int nt = (int) mc_param ("threads", 2), len = (int) mc_param ("len", 2), ix = 0, t[2];
  int mode = mc_choose (2) ? POOL : SYNC, rep = mc_choose (2);
  for (int i = 0; i < nt; i++) ix = g_prog (alpha, len, ix, gprog[i]);
  /* a deleted schedule is not used any more, by nobody */
  for (int k = 0; k < 2; k++)
  {
    const char * uses = k ? "bqye" : "arzd"; char del = "de"[k]; int dels = 0, others = 0;
    for (int i = 0; i < nt; i++) { const char * d = strchr (gprog[i], del); if (d) { dels++; if (strpbrk (d + 1, uses)) mc_prune (); } else if (strpbrk (gprog[i], uses)) others++; }
    if (dels > 1 || (dels && others)) mc_prune ();
  }
  setup (mode, 1, 0);
  uint64_t t0 = fib_now ();
  create (0, mode, U - (t0 - FIB_EPOCH), 2 * U, (uint64_t) rep); create (1, mode, 3 * U, 2 * U, (uint64_t) rep);
  mc_log ("mode=%s pre=%s programs %s %s repeat %d\n", modename[mode], pre, gprog[0], nt > 1 ? gprog[1] : "", rep);
  control (pre);
  fcb_locks = mc_param ("alpha", 0) < 2;
  fib_bound ((int) mc_param ("bound", 1)); fib_fixed (false);
  for (int i = 0; i < nt; i++) t[i] = fib_thread (cbody, gprog[i]);
  for (int i = 0; i < nt; i++) fib_join (t[i]);
  fib_timers (false); fib_fixed (true);
  iot_component_state_t st = iot_component_lock ((iot_component_t *) sch);
  iot_component_unlock ((iot_component_t *) sch);
  fib_sleep_until (fib_now () + 7 * U);
  if (st != IOT_COMPONENT_RUNNING)
  {
    int r[2] = { S[0].runs, S[1].runs };
    fib_sleep_until (fib_now () + 7 * U);
    for (int i = 0; i < 2; i++) MC_CHECK (S[i].runs == r[i], "stopped", "schedule %d runs on a stopped scheduler", i);
    iot_scheduler_start (sch);
    fib_sleep_until (fib_now () + 7 * U);
  }
  for (int i = 0; i < 2; i++)
  {
    sc * x = &S[i];
    int queued = addtrue[i] - removed[i];
    if (x->deleted) { MC_CHECK (x->frees == 1, "free-count", "argument of deleted schedule %d freed %d times", i, x->frees); if (rep) MC_CHECK (x->runs <= queued, "repeat", "one-shot schedule %d added %d times ran %d times", i, queued, x->runs); continue; }
    if (rep == 1)
    {
      MC_CHECK (x->runs <= queued, "repeat", "one-shot schedule %d: %d adds and %d removes took effect, but it ran %d times", i, addtrue[i], removed[i], x->runs);
      MC_CHECK (x->runs == queued || (mode == POOL && queued > 1 && x->runs > 0), "lost", "one-shot schedule %d: %d adds and %d removes took effect, but it ran %d times", i, addtrue[i], removed[i], x->runs);
      MC_CHECK (!iot_schedule_remove (sch, x->s), "result", "completed schedule %d is still reported as queued", i);
    }
    else
    {
      MC_CHECK (queued == 0 || queued == 1, "result", "schedule %d: %d adds and %d removes were reported to take effect", i, addtrue[i], removed[i]);
      int r = x->runs;
      fib_sleep_until (fib_now () + 10 * U);
      if (queued) MC_CHECK (x->runs >= r + 4 && x->runs <= r + 6, "lost", "queued repeating schedule %d ran %d times in 5 periods", i, x->runs - r);
      else MC_CHECK (x->runs == r, "run-not-queued", "schedule %d runs without being queued", i);
      MC_CHECK (iot_schedule_remove (sch, x->s) == (queued == 1), "result", "schedule %d was %squeued, remove says otherwise", i, queued ? "" : "not ");
    }
  }
  mc_outcome (mc_mix ((uint64_t) (S[0].runs * 100 + S[1].runs * 10 + removed[0]), (uint64_t) (addtrue[0] * 10 + removed[1])));
  fcb_locks = false;
  teardown ();
}
/* control calls from within run callbacks, functions on pool threads; free while busy */
static void * self_fn (void * arg)
{
  sc * x = arg;
  x->runs++; x->infl++;
  mc_log ("   schedule runs, T%d\n", fib_self ());
  int act = x->runcb; /* what to do */
  if (x->runs == 1) switch (act)
  {
    case 0: removed[0] += iot_schedule_remove (sch, x->s); break;
    case 1: iot_schedule_reset (sch, x->s, U); break;
    case 2: x->deleted = true; x->infl--; iot_schedule_delete (sch, x->s); return NULL;
    case 3: iot_scheduler_stop (sch); break;
    case 4: addtrue[1] += iot_schedule_add (sch, S[1].s); break;
  }
  x->infl--;
  return NULL;
}
static void s_self (void)
{
  int act = mc_choose (5), where = mc_choose (4); /* pool, thread, run callback, run callback of synchronous schedule */
  fcb_uses = act == 2;
  long rep = 2;
  mc_log ("action %d from %s\n", act, where == 0 ? "pool function" : where == 1 ? "thread function" : where == 2 ? "run callback" : "run callback of a synchronous schedule");
  setup (POOL, 1, 0);
  sc * x = &S[0];
  x->exists = true; x->runcb = act; x->period = U; x->repeat = (uint64_t) rep;
  create (1, POOL, 0, U, 1);
  if (where < 2) x->s = iot_schedule_create (sch, self_fn, fcb, x, U, U, (uint64_t) rep, where == 0 ? pool : NULL, IOT_THREAD_NO_PRIORITY);
  else
  {
    x->s = iot_schedule_create (sch, fn, fcb, x, U, U, (uint64_t) rep, pool, IOT_THREAD_NO_PRIORITY);
    iot_schedule_add_run_callback (sch, x->s, self_fn);
    if (where == 3) iot_schedule_set_sync (x->s, true);
  }
  iot_scheduler_start (sch);
  fib_fixed (false); fib_bound ((int) mc_param ("bound", 2));
  iot_schedule_add (sch, x->s);
  fib_sleep_until (fib_now () + U + 500);
  fib_timers (false);
  fib_sleep_until (fib_now () + 10 * U);
  if (act == 4) MC_CHECK (S[1].runs == 1, "lost", "schedule added from within a callback did not run");
  if (act == 2) MC_CHECK (x->frees == 1, "free-count", "deleted schedule's argument freed %d times", x->frees);
  /* a repetition that became due while the first was delayed beyond its time may be the last: 1 or 2 runs */
  if (where < 2 && (act == 1 || act == 4)) MC_CHECK (x->runs == 1 || x->runs == 2, "lost", "schedule ran %d times, expected 1 or 2", x->runs);
  fcb_uses = false;
  mc_outcome (mc_mix ((uint64_t) (act * 3 + where), (uint64_t) (x->runs * 10 + x->ends)));
  teardown ();
}
/* free while the scheduler thread may be anywhere */
static void * slow_cb (void * arg)
{
  sc * x = arg;
  MC_CHECK (x->frees == 0, "use-after-free", "callback after the argument was freed");
  x->infl++;
  fib_sleep_until (fib_now () + 5 * U);
  MC_CHECK (x->frees == 0, "use-after-free", "argument freed while a callback runs");
  x->infl--;
  return arg;
}
static void s_free (void)
{
  int what = mc_choose (7), when = mc_choose (4), ref = mc_choose (2);
  static const char * const n[] = { "nothing scheduled", "pool schedule", "synchronous schedule", "slow run callback", "slow synchronous function", "thread schedule", "slow abort callback" };
  mc_log ("%s, freed at %s%s\n", n[what], when == 0 ? "once" : when == 1 ? "just before it is due" : when == 2 ? "when due" : "while it runs", ref ? ", second reference held" : "");
  int mode = what == 2 || what == 4 ? SYNC : what == 5 ? THREAD : POOL;
  setup (mode, 1, what == 6 ? 1 : 0);
  if (what) create (0, mode, U - (fib_now () - FIB_EPOCH), U, 0);
  if (what == 4 || what == 6) S[0].dur = 5 * U;
  if (what == 6) iot_schedule_set_concurrent (S[0].s, true);
  if (what == 3) iot_schedule_add_run_callback (sch, S[0].s, slow_cb);
  if (what == 6) iot_schedule_add_abort_callback (sch, S[0].s, slow_cb);
  fib_fixed (false); fib_bound ((int) mc_param ("bound", 2));
  iot_scheduler_start (sch);
  if (what) iot_schedule_add (sch, S[0].s);
  uint64_t at = what == 6 ? 3 * U : U;
  if (when) fib_sleep_until (FIB_EPOCH + at - 1 + (uint64_t) (when - 1) * (when == 3 ? U : 3));
  if (ref) { iot_scheduler_add_ref (sch); iot_scheduler_free (sch); fib_note (fib_addr_live (sch)); MC_CHECK (fib_addr_live (sch), "use-after-free", "scheduler freed although a reference is held"); }
  teardown ();
  mc_outcome ((uint64_t) (what * 100 + S[0].runs));
}
/* a synchronous function that uses its scheduler */
static void s_syncself (void)
{
  if (mc_known ("sync-self")) return;
  int act = mc_choose (5);
  mc_log ("action %d from a synchronous function (deadlock or failed lock means: sync-self)\n", act);
  setup (SYNC, 1, 0);
  sc * x = &S[0];
  x->exists = true; x->runcb = act;
  create (1, SYNC, 0, U, 1);
  x->s = iot_schedule_create (sch, self_fn, fcb, x, U, U, 2, NULL, IOT_THREAD_NO_PRIORITY);
  iot_schedule_set_sync (x->s, true);
  iot_scheduler_start (sch);
  iot_schedule_add (sch, x->s);
  fib_sleep_until (fib_now () + 10 * U);
  teardown ();
}

/* ---------------- C08 */
/* m: mode; conc; dur of function in half units; workers, max jobs; control letters as above, W = wait 2.5 units */
typedef struct ocfg { int mode; bool conc; int dur; uint16_t workers; uint32_t max; const char * prog; } ocfg;
static const ocfg over[] =
{
  { POOL, false, 5, 2, 0, "W" }, { POOL, true, 5, 3, 0, "W" }, { THREAD, false, 5, 0, 0, "W" }, { THREAD, true, 5, 0, 0, "W" }, { SYNC, false, 1, 0, 0, "W" },
  { POOL, false, 1, 1, 1, "Wd" }, { POOL, false, 5, 2, 0, "wd" }, { POOL, true, 5, 2, 1, "W" }, { POOL, true, 9, 1, 1, "W" }, { POOL, true, 9, 1, 1, "Wd" }, { THREAD, false, 3, 0, 0, "wd" },
  { POOL, false, 3, 1, 0, "wr" }, { POOL, false, 3, 1, 0, "wraW" }, { POOL, true, 3, 2, 0, "wd" }, { SYNC, false, 0, 0, 0, "wd" }, { THREAD, true, 3, 0, 0, "wd" }, { POOL, false, 3, 2, 0, "wrawd" },
};
static void s_over (void)
{
  const ocfg * o = &over[mc_choose (sizeof (over) / sizeof (over[0]))];
  bool cb = mc_choose (2);
  setup (o->mode, o->workers, o->max);
  mc_log ("mode=%s concurrent=%d duration=%d workers=%d max=%u callbacks=%d program=%s\n", modename[o->mode], o->conc, o->dur, o->workers, o->max, cb, o->prog);
  create (0, o->mode, U - (fib_now () - FIB_EPOCH), U, 0);
  sc * x = &S[0];
  x->dur = (uint64_t) o->dur * U / 2;
  if (o->conc) iot_schedule_set_concurrent (x->s, true);
  if (cb) { iot_schedule_add_run_callback (sch, x->s, rcb); iot_schedule_add_abort_callback (sch, x->s, acb); }
  iot_scheduler_start (sch);
  iot_schedule_add (sch, x->s);
  fib_fixed (false); fib_bound ((int) mc_param ("bound", 1));
  uint64_t dropped = 0;
  for (const char * p = o->prog; *p; p++)
  {
    if (*p == 'W') fib_sleep_until (fib_now () + 2 * U + U / 2); else { char c[2] = { *p, 0 }; control (c); }
    if (!x->deleted) dropped = iot_schedule_dropped (x->s);
  }
  fib_timers (false); fib_fixed (true);
  if (!x->deleted)
  {
    iot_scheduler_stop (sch);
    int r = x->runs; (void) r;
    fib_sleep_until (fib_now () + 40 * U); /* all dispatched executions end */
    dropped = iot_schedule_dropped (x->s);
    if (cb)
    {
      MC_CHECK (x->runcb == x->runs + x->abortcb, "callbacks", "%d run callbacks, %d executions, %d aborts", x->runcb, x->runs, x->abortcb);
      MC_CHECK ((uint64_t) x->abortcb == dropped, "dropped", "%d abort callbacks, dropped count %lu", x->abortcb, dropped);
    }
    if (o->max == 0) MC_CHECK (dropped == 0, "dropped", "dropped count %lu with an unlimited pool", dropped);
  }
  else { fib_sleep_until (fib_now () + 30 * U); MC_CHECK (x->frees == 1, "free-count", "argument freed %d times", x->frees); }
  MC_CHECK (x->runs == x->ends, "lost", "%d executions started, %d ended", x->runs, x->ends);
  if (!o->conc) MC_CHECK (x->maxinfl <= 1, "overlap", "non-concurrent schedule had %d executions in flight", x->maxinfl);
  mc_outcome (mc_mix (mc_mix ((uint64_t) (o - over), (uint64_t) (x->runs * 16 + x->maxinfl)), mc_mix ((uint64_t) x->abortcb, dropped)));
  teardown ();
}
/* sequential: exact numbers of dispatches, skips and drops */
static void s_exact (void)
{
  int mode = 1 + mc_choose (2), conc = mc_choose (2), dur = mc_choose (6), cb = mc_choose (2);
  uint16_t workers = mode == POOL ? (uint16_t) (1 + mc_choose (3)) : 1;
  uint32_t max = mode == POOL ? (uint32_t) mc_choose (3) : 0;
  int rep = mc_choose (2) ? 3 : 0;
  setup (mode, workers, max);
  mc_log ("mode=%s concurrent=%d duration=%d callbacks=%d workers=%d max=%u repeat=%d\n", modename[mode], conc, dur, cb, workers, max, rep);
  create (0, mode, U, U, (uint64_t) rep);
  sc * x = &S[0];
  x->dur = (uint64_t) dur * U / 2 + (dur ? U / 4 : 0);
  if (conc) iot_schedule_set_concurrent (x->s, true);
  if (cb) { iot_schedule_add_run_callback (sch, x->s, rcb); iot_schedule_add_abort_callback (sch, x->s, acb); }
  iot_scheduler_start (sch);
  iot_schedule_add (sch, x->s);
  uint64_t t0 = fib_now ();
  fib_sleep_until (t0 + 6 * U + U / 2);
  iot_scheduler_stop (sch);
  uint64_t dropped = iot_schedule_dropped (x->s);
  fib_sleep_until (fib_now () + 30 * U);
  /* reference: 6 due times (or rep); FIFO pool */
  uint64_t end[16]; int nend = 0, runs = 0, drops = 0, tried = 0;
  uint64_t wfree[3] = { 0, 0, 0 }; uint64_t qstart[16]; int nq = 0;
  for (int k = 1; k <= (rep ? rep : 6); k++)
  {
    uint64_t t = (uint64_t) k * U; bool busy = false; int queued = 0;
    for (int j = 0; j < nend; j++) if (end[j] > t) busy = true;
    if (!conc && busy) continue;
    tried++;
    if (mode == THREAD) { end[nend++] = t + x->dur; runs++; continue; }
    for (int j = 0; j < nq; j++) if (qstart[j] > t) queued++;
    if (max && (uint32_t) queued >= max) { drops++; continue; }
    int w = 0; for (int j = 1; j < workers; j++) if (wfree[j] < wfree[w]) w = j;
    uint64_t st = wfree[w] > t ? wfree[w] : t;
    qstart[nq++] = st; wfree[w] = st + x->dur; end[nend++] = wfree[w]; runs++;
  }
  MC_CHECK (x->runs == runs, "runs", "%d executions, expected %d", x->runs, runs);
  MC_CHECK (dropped == (uint64_t) drops, "dropped", "dropped count %lu, expected %d", dropped, drops);
  if (cb) { MC_CHECK (x->runcb == tried, "callbacks", "%d run callbacks, expected %d", x->runcb, tried); MC_CHECK (x->abortcb == drops, "callbacks", "%d abort callbacks, expected %d", x->abortcb, drops); }
  if (!conc) MC_CHECK (x->maxinfl <= 1, "overlap", "non-concurrent schedule had %d executions in flight", x->maxinfl);
  mc_outcome (mc_mix ((uint64_t) (x->runs * 100 + drops * 10 + tried), (uint64_t) x->maxinfl)); mc_state (mc_mix ((uint64_t) (mode * 8 + conc * 4 + rep), (uint64_t) (dur * 1000 + x->runs * 100 + drops * 10 + tried)));
  teardown ();
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "times", s_times, "sets of schedules under virtual time: every execution at its due time" },
    { "hist", s_hist, "sequential control histories against a reference model" },
    { "race", s_race, "control threads against the scheduler thread" },
    { "gen", s_gen, "all configurations of control threads with short programs" },
    { "self", s_self, "control calls made from callbacks and functions" },
    { "free", s_free, "scheduler freed while its thread may be anywhere, also within slow callbacks" },
    { "syncself", s_syncself, "control calls made from synchronous functions" },
    { "over", s_over, "overlap, callbacks and deletion under all interleavings" },
    { "exact", s_exact, "dispatch, skip and drop counts under virtual time" },
  };
  return fib_main (argc, argv, sp, (int) (sizeof (sp) / sizeof (sp[0])));
}
