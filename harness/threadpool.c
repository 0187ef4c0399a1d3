/* C03, C04, C05: thread pool under all interleavings */
#include "fib.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include <string.h>
#include <semaphore.h>

#define MAXJ 24
static iot_threadpool_t * pool;
static struct { int runs, done, who; bool accepted, refused; int acc, prio, by; } job[MAXJ];
static bool keep; /* keep the order of jobs (costs states) */
static int nacc;
static int njobs, running, nworkers, started_after[16], order[MAXJ], norder;
static bool freed, stoppedflag, gated;
static sem_t gate;
static int refs = 1;
static void drop_ref (void) { iot_threadpool_free (pool); if (--refs == 0) freed = true; }

static void * job_fn (void * arg)
{
  int i = (int) (long) arg - 1;
  MC_CHECK (i >= 0 && i < njobs, "bad-argument", "job called with a foreign argument");
  MC_CHECK (!freed, "run-after-free", "job %d runs after the pool was freed", i);
  MC_CHECK (job[i].runs == 0, "run-twice", "job %d executed more than once", i);
  MC_CHECK (!job[i].refused, "refused-but-run", "job %d was refused but runs", i);
  job[i].runs++; if (keep) job[i].who = fib_self ();
  if (keep) order[norder] = i;
  norder++;
  running++;
  MC_CHECK (running <= nworkers, "too-many-running", "%d jobs run at once on %d threads", running, nworkers);
  if (stoppedflag)
  {
    started_after[fib_self ()]++;
    MC_CHECK (started_after[fib_self ()] <= 1, "run-while-stopped", "a worker started a second job (%d) after stop returned", i);
  }
  mc_log ("   job %d starts on T%d\n", i, fib_self ());
  if (gated) sem_wait (&gate); else fib_yield ();
  running--;
  job[i].done = 1;
  mc_log ("   job %d ends\n", i);
  return NULL;
}
static void * free_job (void * arg)
{
  job_fn (arg);
  running++;
  mc_log ("   job frees the pool\n");
  drop_ref ();
  running--;
  return NULL;
}
static void make (uint16_t w, uint32_t max, bool interleave)
{
  nworkers = w;
  if (!interleave) fib_fixed (true);
  pool = iot_threadpool_alloc (w, max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
  if (!interleave) { fib_quiesce (); fib_fixed (false); }
}
static int add (bool try, int prio, bool selff)
{
  int i = njobs++;
  job[i].prio = prio; job[i].by = fib_self ();
  void * (*fn) (void *) = selff ? free_job : job_fn;
  if (try)
  {
    /* a job may run before try returns: mark afterwards */
    bool ok = iot_threadpool_try_work (pool, fn, (void *) (long) (i + 1), prio);
    job[i].accepted = ok; job[i].refused = !ok;
    MC_CHECK (ok || job[i].runs == 0, "refused-but-run", "job %d was refused but ran", i);
    mc_log ("T%d: try job %d = %d\n", fib_self (), i, ok);
    if (keep && ok) job[i].acc = ++nacc;
    return ok;
  }
  iot_threadpool_add_work (pool, fn, (void *) (long) (i + 1), prio);
  mc_log ("T%d: added job %d\n", fib_self (), i);
  job[i].accepted = true; if (keep) job[i].acc = ++nacc;
  return 1;
}
static void do_wait (void)
{
  uint32_t before = 0;
  for (int i = 0; i < njobs; i++) if (job[i].accepted) before |= 1u << i;
  mc_log ("T%d: wait...\n", fib_self ());
  iot_threadpool_wait (pool);
  mc_log ("T%d: wait returned\n", fib_self ());
  for (int i = 0; i < njobs; i++)
    if (before >> i & 1) MC_CHECK (job[i].done, "wait-early", "wait returned before job %d, accepted earlier, had completed", i);
}

/* ---------------- C03 */
typedef struct cfg { uint16_t workers; uint32_t max; const char * pre; const char * prog[4]; } cfg;
/* A add, t try, W wait */
static const cfg once[] =
{
  { 1, 0, "", { "A", "A" } }, { 1, 0, "", { "AAW" } }, { 1, 1, "", { "AAA" } }, { 1, 1, "", { "AA", "AA" } }, { 2, 0, "", { "AA", "A" } },
  { 2, 1, "", { "AA", "AA" } }, { 2, 2, "", { "AAA", "At" } }, { 1, 1, "", { "tt", "tt" } }, { 2, 1, "", { "tt", "At" } },
  { 1, 0, "A", { "W", "W" } }, { 2, 0, "A", { "W", "W" } }, { 2, 0, "AA", { "W", "W" } }, { 1, 0, "AA", { "W", "A" } }, { 2, 0, "A", { "AW", "W" } }, { 1, 2, "A", { "AW", "tW" } },
  { 1, 0, "A", { "W", "W", "W" } }, { 2, 1, "A", { "AW", "AW" } }, { 2, 0, "", { "W", "A" } }, { 1, 1, "A", { "A", "A", "W" } }, { 2, 2, "AA", { "A", "A", "W" } },
  { 3, 0, "AA", { "A", "W" } }, { 1, 3, "AAA", { "AA", "W" } },
};
static const cfg * c;
static void body (void * a)
{
  for (const char * p = c->prog[(long) a]; *p; p++)
  {
    if (*p == 'A') add (false, IOT_THREAD_NO_PRIORITY, false);
    else if (*p == 't') add (true, IOT_THREAD_NO_PRIORITY, false);
    else do_wait ();
  }
}
static void finish_pool (void)
{
  iot_threadpool_free (pool);
  freed = true;
  MC_CHECK (fib_threads_alive () == 0, "threads-left", "threads of the pool are left after free");
}
static void outcome (void)
{
  uint64_t h = 0;
  for (int i = 0; i < norder; i++) h = mc_mix (mc_mix (h, (uint64_t) order[i]), (uint64_t) job[order[i]].who);
  for (int i = 0; i < njobs; i++) h = mc_mix (h, (uint64_t) (job[i].runs * 4 + job[i].accepted * 2 + job[i].refused));
  mc_outcome (h);
}
static void run_once (const cfg * k)
{
  c = k;
  if (mc_param ("small", 99) < 99)
  {
    size_t ops = c->workers + strlen (c->pre);
    for (int i = 0; i < 4 && c->prog[i]; i++) ops += strlen (c->prog[i]);
    if (ops > (size_t) mc_param ("small", 99)) mc_prune ();
  }
  bool late = mc_choose (2);
  if (late && c->max && strlen (c->pre) > c->max) late = false; /* the pre-queued jobs would not fit */
  mc_log ("workers=%d max=%u pre='%s' late-start=%d programs:", c->workers, c->max, c->pre, late);
  for (int i = 0; i < 4 && c->prog[i]; i++) mc_log (" %s", c->prog[i]);
  mc_log ("\n");
  make (c->workers, c->max, false);
  if (!late) iot_threadpool_start (pool);
  for (const char * p = c->pre; *p; p++) add (false, IOT_THREAD_NO_PRIORITY, false);
  int n = 0, t[4];
  for (; n < 4 && c->prog[n]; n++) t[n] = fib_thread (body, (void *) (long) n);
  if (late) { iot_threadpool_start (pool); }
  fib_quiesce ();
  for (int i = 0; i < n; i++) MC_CHECK (fib_finished (t[i]), "stuck", "thread %d (%s) is blocked for ever although the pool runs", t[i], c->prog[i]);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  for (int i = 0; i < njobs; i++) if (job[i].accepted) MC_CHECK (job[i].done, "lost-job", "job %d was accepted but never ran", i);
  do_wait (); /* idle pool: returns at once */
  finish_pool ();
  outcome ();
}
static void s_once (void) { run_once (&once[mc_choose (sizeof (once) / sizeof (once[0]))]); }
static void s_spur (void) { fib_spurious (true); s_once (); }

/* ---------------- C04: order */
static int qref[MAXJ], nq;
static void ref_insert (int i)
{
  int k = nq;
  if (job[i].prio != IOT_THREAD_NO_PRIORITY)
  {
    for (k = 0; k < nq; k++) if (job[qref[k]].prio == IOT_THREAD_NO_PRIORITY || job[qref[k]].prio < job[i].prio) break;
  }
  memmove (qref + k + 1, qref + k, (size_t) (nq - k) * sizeof (int));
  qref[k] = i; nq++;
}
static void s_order (void)
{
  static const int prios[] = { IOT_THREAD_NO_PRIORITY, 1, 2, 3 };
  int depth = (int) mc_param ("depth", 6);
  uint32_t max = (uint32_t) mc_choose (4); /* 0 = unlimited */
  if (max == 3) max = 5;
  bool pre = mc_choose (2);          /* is the pool started before? */
  fib_bound (0); keep = true;
  make (1, max, true);
  sem_init (&gate, 0, 0); gated = true;
  int cur = -1, seen = 0;
  bool run = pre;
  if (pre) iot_threadpool_start (pool);
  fib_quiesce ();
  mc_log ("max=%u started=%d\n", max, pre);
  for (int k = 0; k < depth; k++)
  {
    int op = mc_choose (6);
    if (op < 4)
    {
      bool full = max && (uint32_t) nq >= max;
      int i = njobs;
      bool ok = add (true, prios[op], false);
      mc_log ("submit prio %d -> %d\n", prios[op], ok);
      MC_CHECK (ok == !full, "limit", "try-add returned %d with %d of %u jobs queued", ok, nq, max);
      if (ok) ref_insert (i);
    }
    else if (op == 4) { if (cur < 0) break; mc_log ("let the running job end\n"); sem_post (&gate); cur = -1; }
    else { run = !run; mc_log ("%s\n", run ? "start" : "stop"); if (run) iot_threadpool_start (pool); else iot_threadpool_stop (pool); }
    fib_quiesce ();
    if (run && cur < 0 && nq) { cur = qref[0]; nq--; memmove (qref, qref + 1, (size_t) nq * sizeof (int)); seen++; }
    MC_CHECK (norder == seen, "order", "%d jobs started, expected %d", norder, seen);
    if (cur >= 0) MC_CHECK (order[norder - 1] == cur, "order", "job %d (priority %d) runs, expected job %d (priority %d)", order[norder - 1], job[order[norder - 1]].prio, cur, job[cur].prio);
  }
  /* let everything run to the end and check the whole order */
  if (!run) iot_threadpool_start (pool);
  fib_quiesce ();
  for (int guard = 0; guard < MAXJ; guard++)
  {
    if (cur < 0 && nq) { cur = qref[0]; nq--; memmove (qref, qref + 1, (size_t) nq * sizeof (int)); seen++; }
    MC_CHECK (norder == seen, "order", "%d jobs started, expected %d", norder, seen);
    if (cur < 0) break;
    MC_CHECK (order[norder - 1] == cur, "order", "job %d (priority %d) runs, expected job %d (priority %d)", order[norder - 1], job[order[norder - 1]].prio, cur, job[cur].prio);
    sem_post (&gate); cur = -1;
    fib_quiesce ();
  }
  gated = false;
  outcome ();
  finish_pool ();
}
/* blocking submitters: the limit holds at every moment, every add gets through, in priority order where observable */
typedef struct bcfg { uint16_t workers; uint32_t max; const char * prog[3]; } bcfg;
static const bcfg blk[] = { { 1, 1, { "A", "A" } }, { 1, 1, { "AA", "A" } }, { 1, 2, { "AA", "AA" } }, { 1, 1, { "A", "A", "A" } }, { 2, 1, { "AA", "AA" } }, { 2, 2, { "AA", "AA", "A" } }, { 1, 2, { "tA", "At" } }, { 1, 1, { "At", "A" } }, { 1, 3, { "AA", "AA", "A" } } };
static int inq; /* upper bound on queued jobs seen */
static void bbody (void * a)
{
  const bcfg * b = (const bcfg *) (const void *) c;
  for (const char * p = b->prog[(long) a]; *p; p++)
  {
    add (*p == 't', 2 - (int) (long) a % 2, false);
    int q = 0, started = 0;
    for (int i = 0; i < njobs; i++) { q += job[i].accepted && !job[i].runs; started += job[i].runs - job[i].done; }
    (void) inq;
    /* accepted but not started can exceed the limit only by jobs a worker has taken and not begun */
    MC_CHECK (q <= (int) b->max + (int) b->workers, "limit", "%d jobs queued, limit %u", q, b->max);
  }
}
static void s_block (void)
{
  const bcfg * b = &blk[mc_choose (sizeof (blk) / sizeof (blk[0]))];
  c = (const cfg *) (const void *) b;
  bool late = mc_choose (2);
  mc_log ("workers=%d max=%u late=%d programs:", b->workers, b->max, late);
  for (int i = 0; i < 3 && b->prog[i]; i++) mc_log (" %s", b->prog[i]);
  mc_log ("\n");
  make (b->workers, b->max, false);
  if (!late) iot_threadpool_start (pool);
  keep = late;
  int n = 0, t[3], nqueued = 0;
  for (; n < 3 && b->prog[n]; n++) t[n] = fib_thread (bbody, (void *) (long) n);
  if (late)
  {
    fib_quiesce ();
    /* stopped pool: exactly max jobs are queued, the rest of the submitters wait */
    int acc = 0, tries = 0, want = 0;
    for (int i = 0; i < njobs; i++) { acc += job[i].accepted; tries += job[i].refused; }
    for (int i = 0; i < n; i++) want += (int) strlen (b->prog[i]);
    int cap = (int) b->max < want ? (int) b->max : want;
    (void) tries;
    MC_CHECK (acc == cap, "limit", "stopped pool with limit %u accepted %d jobs (of %d submitted)", b->max, acc, want);
    nqueued = nacc;
    MC_CHECK (norder == 0, "run-while-stopped", "job ran in a pool that was never started");
    iot_threadpool_start (pool);
  }
  fib_quiesce ();
  for (int i = 0; i < n; i++) MC_CHECK (fib_finished (t[i]), "stuck", "submitter %d (%s) is blocked for ever although the pool runs", t[i], b->prog[i]);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  for (int i = 0; i < njobs; i++) if (job[i].accepted) MC_CHECK (job[i].done, "lost-job", "job %d was accepted but never ran", i);
  if (b->workers == 1 && late) /* queue content at start, in priority order, first-come within a priority */
  {
    for (int x = 0; x < norder; x++) for (int y = x + 1; y < norder; y++)
    {
      int i = order[x], j = order[y];
      if (job[i].acc > nqueued || job[j].acc > nqueued) continue;
      if (job[j].prio > job[i].prio || (job[j].prio == job[i].prio && job[j].acc < job[i].acc && job[j].by == job[i].by)) mc_fail ("order", "job %d (prio %d) ran before job %d (prio %d), both queued before the start", i, job[i].prio, j, job[j].prio);
    }
  }
  finish_pool ();
  outcome ();
}

/* every configuration of submitters with short programs against gated jobs: what is queued and what waits is known whenever nothing can move */
static char gp[4][4];
static cfg gcfg;
static int g_prog (const char * alpha, int len, int min, char * out)
{
  int na = (int) strlen (alpha), total = 0, pw = 1;
  for (int l = 1; l <= len; l++) { pw *= na; total += pw; }
  int ix = min + mc_choose (total - min), k = ix, l = 1;
  for (pw = na; k >= pw; l++, pw *= na) k -= pw;
  for (int j = 0; j < l; j++, k /= na) out[j] = alpha[k % na];
  out[l] = 0;
  return ix;
}
static void g_check (int n, const int * t, bool run, int posted)
{
  int acc = 0, started = 0, done = 0, blocked = 0, pending = 0;
  for (int i = 0; i < njobs; i++) { acc += job[i].accepted; started += job[i].runs; done += job[i].done; pending += !job[i].accepted && !job[i].refused; }
  for (int i = 0; i < n; i++) blocked += !fib_finished (t[i]);
  int queued = acc - started;
  MC_CHECK (queued <= (int) gcfg.max, "limit", "%d jobs queued, limit %u", queued, gcfg.max);
  MC_CHECK (blocked == pending, "stuck", "%d submitters blocked, %d submissions under way", blocked, pending);
  if (blocked) MC_CHECK (queued == (int) gcfg.max, "stuck", "%d submitters are blocked although only %d of %u jobs are queued", blocked, queued, gcfg.max);
  if (run)
  {
    if (queued) MC_CHECK (started - done == nworkers, "idle", "%d jobs are queued but only %d of %d threads work", queued, started - done, nworkers);
    MC_CHECK (done == (posted < acc ? posted : acc) || done == posted, "stuck", "%d jobs done", done);
  }
}
static void s_gen (void)
{
  const char * alpha = mc_param ("alpha", 0) ? "At" : "A";
  int len = (int) mc_param ("len", 2), n = (int) mc_param ("threads", 3), ix = 0, t[4], posted = 0;
  gcfg.workers = (uint16_t) (1 + mc_choose (2));
  gcfg.max = 1u + (uint32_t) mc_choose (3);
  c = &gcfg;
  for (int i = 0; i < n; i++) { ix = g_prog (alpha, len, ix, gp[i]); gcfg.prog[i] = gp[i]; }
  bool run = mc_choose (2);
  mc_log ("workers=%d max=%u started=%d programs:", gcfg.workers, gcfg.max, run);
  for (int i = 0; i < n; i++) mc_log (" %s", gp[i]);
  mc_log ("\n");
  sem_init (&gate, 0, 0); gated = true;
  make (gcfg.workers, gcfg.max, false);
  if (run) iot_threadpool_start (pool);
  for (int i = 0; i < n; i++) t[i] = fib_thread (body, (void *) (long) i);
  fib_quiesce ();
  g_check (n, t, run, posted);
  for (int guard = 0; guard < 12; guard++)
  {
    int acc = 0, started = 0, done = 0, ref = 0;
    for (int i = 0; i < njobs; i++) { acc += job[i].accepted; started += job[i].runs; done += job[i].done; ref += job[i].refused; }
    if (!run) { run = true; mc_log ("T0: start\n"); iot_threadpool_start (pool); fib_quiesce (); g_check (n, t, run, posted); continue; }
    if (done + ref == njobs) break;
    int k = started - done > 1 ? 1 + mc_choose (2) : 1;
    MC_CHECK (started > done, "idle", "%d jobs are not done but none runs", njobs - done - ref);
    mc_log ("T0: let %d jobs end\n", k);
    posted += k;
    while (k--) sem_post (&gate);
    fib_quiesce ();
    g_check (n, t, run, posted);
  }
  for (int i = 0; i < n; i++) MC_CHECK (fib_finished (t[i]), "stuck", "submitter %d (%s) is blocked for ever although the pool runs", t[i], gp[i]);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  for (int i = 0; i < njobs; i++) if (job[i].accepted) MC_CHECK (job[i].done, "lost-job", "job %d was accepted but never ran", i);
  gated = false;
  outcome ();
  finish_pool ();
}
/* the same without gates, with waiting callers among them */
static void s_mix (void)
{
  int len = (int) mc_param ("len", 2), n = (int) mc_param ("threads", 2), ix = 0;
  static const char * const pre[] = { "", "A", "AA" };
  memset (&gcfg, 0, sizeof (gcfg));
  gcfg.workers = (uint16_t) (1 + mc_choose (2));
  gcfg.max = (uint32_t) mc_choose (3);
  gcfg.pre = pre[mc_choose (3)];
  for (int i = 0; i < n; i++) { ix = g_prog ("AtW", len, ix, gp[i]); gcfg.prog[i] = gp[i]; }
  run_once (&gcfg);
}

/* ---------------- C05: lifecycle */
/* main program over: s start, x stop, a add, t try, q quiesce and check, W wait (running only), R add_ref+free, Z sleep 1s virtual */
static const char * const histories[] =
{
  "saf", "sf", "f", "af", "xf", "asf", "sxf", "saxf", "saxaf", "saxqaqsqWf", "aasxqsqf", "saaxsWf", "sxsaWf", "saWxaqsWf", "sRaWf", "saxsxf", "saaqxqaqf", "sxaasf", "saaxxssWf", "aaqsqxqaqf", "sasxsaWf", "saWaWxf", "sxsxsaWf",
};
static void tbody (void * a)
{
  for (const char * p = a; *p; p++)
  {
    if (*p == 'a') add (false, IOT_THREAD_NO_PRIORITY, false);
    else if (*p == 't') add (true, IOT_THREAD_NO_PRIORITY, false);
    else if (*p == 's') { iot_threadpool_start (pool); }
    else if (*p == 'x') { iot_threadpool_stop (pool); }
  }
}
static void s_life (void)
{
  int w = 1 + mc_choose (2);
  const char * h = histories[mc_choose (sizeof (histories) / sizeof (histories[0]))];
  static const char * const helpers[] = { "", "a", "tt", "aa" };
  const char * hp = helpers[mc_choose (4)];
  mc_log ("workers=%d history=%s helper=%s\n", w, h, hp);
  bool il = mc_param ("alloc", 0);
  make ((uint16_t) w, 0, il);
  int t = *hp ? fib_thread (tbody, (void *) (long) hp) : -1;
  bool run = false;
  for (const char * p = h; *p; p++)
  {
    switch (*p)
    {
      case 's': stoppedflag = false; memset (started_after, 0, sizeof (started_after)); iot_threadpool_start (pool); run = true; mc_log ("T0: started\n"); break;
      case 'x': iot_threadpool_stop (pool); stoppedflag = true; memset (started_after, 0, sizeof (started_after)); run = false; mc_log ("T0: stopped\n"); break;
      case 'a': add (false, IOT_THREAD_NO_PRIORITY, false); break;
      case 't': add (true, IOT_THREAD_NO_PRIORITY, false); break;
      case 'R': iot_threadpool_add_ref (pool); iot_threadpool_free (pool); break;
      case 'W': do_wait (); break;
      case 'q':
      {
        fib_quiesce ();
        int before = norder;
        if (run) { for (int i = 0; i < njobs; i++) if (job[i].accepted) MC_CHECK (job[i].done, "lost-job", "job %d not run by a running pool", i); }
        else
        {
          MC_CHECK (running == 0, "running-left", "a job did not finish after stop");
          int n0 = njobs;
          add (true, IOT_THREAD_NO_PRIORITY, false);
          fib_quiesce ();
          MC_CHECK (norder == before, "run-while-stopped", "a job was started while the pool is stopped (jobs started: %d)", norder);
          (void) n0;
        }
        break;
      }
      case 'f':
        if (t >= 0) fib_join (t);
        iot_threadpool_free (pool);
        freed = true;
        mc_log ("T0: freed\n");
        MC_CHECK (running == 0, "running-left", "a job is still running when free returns");
        MC_CHECK (fib_threads_alive () == 0, "threads-left", "threads of the pool are left after free");
        break;
    }
  }
  outcome ();
}
/* concurrent start/stop callers, then free */
static void s_conc (void)
{
  static const char * const P[] = { "s", "x", "a", "sx", "xs", "sa", "as", "xa", "ss", "xx" };
  int w = 1 + mc_choose (2);
  const char * a = P[mc_choose (10)], * b = P[mc_choose (10)];
  mc_log ("workers=%d programs %s %s\n", w, a, b);
  make ((uint16_t) w, 0, false);
  if (mc_choose (2)) iot_threadpool_start (pool);
  add (false, IOT_THREAD_NO_PRIORITY, false);
  int t1 = fib_thread (tbody, (void *) (long) a), t2 = fib_thread (tbody, (void *) (long) b);
  fib_join (t1); fib_join (t2);
  iot_threadpool_start (pool);
  fib_quiesce ();
  for (int i = 0; i < njobs; i++) if (job[i].accepted) MC_CHECK (job[i].done, "lost-job", "job %d not run by the restarted pool", i);
  iot_threadpool_free (pool);
  freed = true;
  MC_CHECK (fib_threads_alive () == 0, "threads-left", "threads of the pool are left after free");
  outcome ();
}
/* free from within a job */
static void s_self (void)
{
  int w = 1 + mc_choose (3), before = mc_choose (3), after = mc_choose (3);
  bool late = mc_choose (2), stopfirst = mc_choose (2);
  mc_log ("workers=%d before=%d after=%d late=%d stop=%d\n", w, before, after, late, stopfirst);
  make ((uint16_t) w, 0, false);
  if (!late) iot_threadpool_start (pool);
  bool hold = late || after || stopfirst; /* the pool may go while we still use it: hold a reference */
  if (hold) { iot_threadpool_add_ref (pool); refs++; }
  for (int i = 0; i < before; i++) add (false, IOT_THREAD_NO_PRIORITY, false);
  add (false, IOT_THREAD_NO_PRIORITY, true);
  for (int i = 0; i < after; i++) add (false, IOT_THREAD_NO_PRIORITY, false);
  if (late) iot_threadpool_start (pool);
  if (stopfirst) { mc_log ("T0: stop\n"); iot_threadpool_stop (pool); }
  if (hold) drop_ref (); /* last or second to last reference */
  fib_timers (false);
  fib_sleep_until (fib_now () + 5000000000ull);
  fib_note ((uint64_t) refs);
  if (refs) { MC_CHECK (stopfirst, "lost-job", "the freeing job never ran"); drop_ref (); }
  fib_sleep_until (fib_now () + 5000000000ull);
  MC_CHECK (fib_threads_alive () == 0, "threads-left", "threads of the pool are left after free");
  outcome ();
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "once", s_once, "submitters and waiters on a running pool: exactly-once, wait, limit" },
    { "spur", s_spur, "the same with spurious wake-ups" },
    { "order", s_order, "sequential submission histories against a sorted reference queue" },
    { "block", s_block, "blocking submitters at the job limit" },
    { "gen", s_gen, "all configurations of submitters with short programs, gated jobs" },
    { "mix", s_mix, "all configurations of submitters and waiters with short programs" },
    { "life", s_life, "start/stop/add/wait/free histories with a concurrent submitter" },
    { "conc", s_conc, "two concurrent start/stop/add callers" },
    { "self", s_self, "pool freed from within one of its jobs" },
  };
  return fib_main (argc, argv, sp, 9);
}
