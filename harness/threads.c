/* C17: threads get what was asked for and run exactly once, whatever the system refuses */
#include "fib.h"
#include "iot/thread.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include "iot/container.h"
#include "iot/logger.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <sched.h>
#include <semaphore.h>

/* what each attempt to create a thread asked for */
typedef struct att { bool fifo; int prio, cpus, cpu, res; } att;
static att at[24]; static int nat, plan[24], nplan, choices;
static int create_hook (const pthread_attr_t * a)
{
  att * t = &at[nat];
  memset (t, 0, sizeof (*t));
  t->cpu = -1;
  if (a)
  {
    int how, pol; struct sched_param sp; cpu_set_t c;
    pthread_attr_getinheritsched (a, &how); pthread_attr_getschedpolicy (a, &pol); pthread_attr_getschedparam (a, &sp);
    CPU_ZERO (&c);
    if (pthread_attr_getaffinity_np (a, sizeof (c), &c) == 0 && CPU_COUNT (&c) < 100) { t->cpus = CPU_COUNT (&c); for (int i = 0; i < 100; i++) if (CPU_ISSET (i, &c)) { t->cpu = i; break; } }
    t->fifo = how == PTHREAD_EXPLICIT_SCHED && pol == SCHED_FIFO; t->prio = t->fifo ? sp.sched_priority : 0;
  }
  if (nat < nplan) t->res = plan[nat];
  else if (choices > 0) { choices--; t->res = mc_choose (2) ? EAGAIN : 0; }
  int r = t->res;
  if (nat < 23) nat++;
  return r;
}
static int nerr;
static void log_fn (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * m, const void * ctx) { if (level == IOT_LOG_ERROR) nerr++; }
static void as_asked (const att * t, int prio, int affinity, bool root, const char * what)
{
  bool rt = root && prio >= 1 && prio <= 99, pin = affinity >= 0 && affinity < 4;
  MC_CHECK (t->fifo == rt && t->prio == (rt ? prio : 0), "priority", "%s: thread asked for with priority %d instead of %d", what, t->prio, rt ? prio : 0);
  MC_CHECK (pin ? t->cpus == 1 && t->cpu == affinity : t->cpus == 0, "affinity", "%s: thread asked for on %d processors, first %d, instead of %d", what, t->cpus, t->cpu, pin ? affinity : -1);
}
/* ------------------------------------------------------------------ creation */
static int runs, got_prio; static void * got_arg; static pthread_t got_self;
static void * body (void * a) { runs++; got_arg = a; got_prio = fib_priority (); got_self = pthread_self (); return NULL; }
static void s_create (void)
{
  static const int prios[] = { -1, 0, 1, 50, 99, 100, -2, 1000 }, affs[] = { -1, 0, 3, 4, 100, -2 };
  int prio = prios[mc_choose (8)], aff = affs[mc_choose (6)], root = mc_choose (2), fail = mc_choose (3), given = mc_choose (2), logs = mc_choose (2), twice = mc_choose (2);
  fib_fixed (true);
  fib_euid = root ? 0 : 1000; fib_create_hook = create_hook;
  iot_logger_t * l = logs ? iot_logger_alloc_custom ("l", IOT_LOG_WARN, true, NULL, log_fn, NULL, NULL) : NULL;
  mc_log ("priority %d affinity %d %s, %d failures\n", prio, aff, root ? "root" : "user", fail);
  for (int k = 0; k <= twice; k++)
  {
    pthread_t tid = (pthread_t) 0; int arg;
    runs = 0; nat = 0; nerr = 0;
    nplan = 2; plan[0] = fail > 0 ? EPERM : 0; plan[1] = fail > 1 ? EAGAIN : 0;
    bool r = iot_thread_create (given ? &tid : NULL, body, &arg, prio, aff, l);
    fib_quiesce ();
    MC_CHECK (runs == (r ? 1 : 0), "run", "thread function ran %d times, creation reported %d", runs, r);
    MC_CHECK (r == (fail < 2), "result", "creation reports %d after %d failures", r, fail);
    as_asked (&at[0], prio, aff, root, "creation");
    if (r)
    {
      MC_CHECK (got_arg == &arg, "argument", "foreign argument");
      if (given) MC_CHECK (pthread_equal (tid, got_self), "identity", "another thread's identifier");
      if (!fail && root && prio >= 1 && prio <= 99) MC_CHECK (got_prio == prio, "priority", "thread runs at %d", got_prio);
    }
    if (logs) MC_CHECK ((nerr > 0) == !r, "log", "%d errors logged, creation reported %d", nerr, r);
    mc_trans (1);
    mc_state (mc_mix (mc_mix ((uint64_t) (prio + 10), (uint64_t) (aff + 10)), mc_mix ((uint64_t) (root * 8 + fail * 2 + given), (uint64_t) (logs * 2 + k))));
  }
  iot_logger_free (l);
  mc_outcome ((uint64_t) (fail * 2 + root));
}
static sem_t hold;
static void * holder (void * a) { sem_wait (&hold); got_prio = fib_priority (); return NULL; }
static int refuse; static int prio_hook (int p) { return refuse ? EPERM : 0; }
static void s_prio (void)
{
  int p = mc_choose (106) - 3, other = mc_choose (2); refuse = mc_choose (2);
  fib_fixed (true);
  fib_create_hook = create_hook; fib_priority_hook = prio_hook;
  sem_init (&hold, 0, 0);
  MC_CHECK (iot_thread_priority_valid (p) == (p >= 1 && p <= 99), "valid", "priority %d", p);
  pthread_t t;
  MC_CHECK (iot_thread_create (&t, holder, NULL, 7, -1, NULL), "result", "creation failed");
  MC_CHECK (iot_thread_get_priority (t) == 7, "get", "priority of a thread is %d", iot_thread_get_priority (t));
  int before = iot_thread_current_get_priority ();
  MC_CHECK (before == 0, "get", "own priority is %d", before);
  bool ok = !refuse && p >= 1 && p <= 99, r = other ? iot_thread_set_priority (t, p) : iot_thread_current_set_priority (p);
  MC_CHECK (r == ok, "set", "setting priority %d reports %d", p, r);
  MC_CHECK (iot_thread_get_priority (t) == (ok && other ? p : 7) && iot_thread_current_get_priority () == (ok && !other ? p : 0), "set", "priorities after setting %d: %d %d", p, iot_thread_get_priority (t), iot_thread_current_get_priority ());
  sem_post (&hold);
  fib_quiesce ();
  MC_CHECK (got_prio == (ok && other ? p : 7), "set", "thread runs at %d", got_prio);
  sem_destroy (&hold);
  mc_trans (4); mc_state ((uint64_t) (p + 3) * 4 + (uint64_t) (other * 2 + refuse)); mc_outcome ((uint64_t) r);
}
/* first use from several threads */
static const int rp[3] = { -1, 1, 100 };
static int rorder;
static void rbody (void * a)
{
  for (int i = 0; i < 2; i++)
  {
    int p = rp[(rorder + (int) (long) a + i) % 3];
    MC_CHECK (iot_thread_priority_valid (p) == (p == 1), "valid", "priority %d reported %svalid", p, p == 1 ? "in" : "");
    mc_trans (1);
  }
  int k = (int) (long) a;
  MC_CHECK (iot_thread_create (NULL, body, &rorder, k ? 5 : -1, -1, NULL), "result", "creation failed");
}
static void s_race (void)
{
  int n = 2 + mc_choose (2); rorder = mc_choose (3);
  fib_create_hook = create_hook;
  int t[3];
  for (int i = 0; i < n; i++) t[i] = fib_thread (rbody, (void *) (long) i);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  fib_quiesce ();
  MC_CHECK (runs == n, "run", "%d of %d threads ran", runs, n);
  int plain = 0, rt = 0;
  for (int i = 0; i < nat; i++) { if (at[i].fifo) { rt++; MC_CHECK (at[i].prio == 5, "priority", "priority %d", at[i].prio); } else plain++; }
  MC_CHECK (plain == 1 && rt == n - 1, "priority", "%d threads with and %d without priority", rt, plain);
  mc_state (mc_mix ((uint64_t) n, (uint64_t) rorder)); mc_outcome ((uint64_t) nat);
}
/* ------------------------------------------------------------------ thread pools short of threads */
static int jruns[8], done; static bool freed; static iot_threadpool_t * pool;
static void * job (void * a) { int i = (int) (long) a; MC_CHECK (!freed, "late", "job runs after the pool was freed"); MC_CHECK (jruns[i]++ == 0, "twice", "job runs twice"); fib_yield (); done++; mc_trans (1); return NULL; }
static void * freejob (void * a) { job (a); iot_threadpool_free (pool); freed = true; return NULL; }
static void after_free (void * a) { iot_threadpool_free (pool); freed = true; }
static void s_pool (void)
{
  int want = 1 + mc_choose (3), jobs = mc_choose (4), how = mc_choose (3), max = mc_choose (2) * 2;
  fib_create_hook = create_hook; choices = 2 * want;
  pool = iot_threadpool_alloc ((uint16_t) want, (uint32_t) max, -1, -1, NULL);
  choices = 0;
  int have = 0;
  for (int i = 0; i < nat; i++) have += at[i].res == 0;
  mc_log ("%d of %d threads\n", have, want);
  MC_CHECK (have <= want, "threads", "%d threads created, %d asked for", have, want);
  int acc = 0, queued = 0;
  for (int i = 0; i < jobs; i++)
  {
    if (have && (i & 1)) { iot_threadpool_add_work (pool, job, (void *) (long) i, -1); acc++; }
    else
    {
      bool r = iot_threadpool_try_work (pool, job, (void *) (long) i, -1);
      if (!have) { MC_CHECK (r == (max == 0 || queued < max), "limit", "job %d %s with %d queued", i, r ? "accepted" : "refused", queued); queued += r; }
      acc += r;
    }
  }
  if (have)
  {
    iot_threadpool_start (pool);
    if (how == 0) iot_threadpool_wait (pool);
    if (how == 0) MC_CHECK (done == acc, "wait", "wait returned after %d of %d jobs", done, acc);
    if (how == 1) { iot_threadpool_wait (pool); done = -100; iot_threadpool_add_work (pool, freejob, (void *) 7l, -1); while (!freed && fib_now () < FIB_EPOCH + 100000000000ull) fib_sleep_until (fib_now () + 1000000000ull); MC_CHECK (freed, "free", "pool not freed by its job"); }
  }
  if (!have || how != 1)
  {
    /* a thread made later may get the identifier of one whose creation failed */
    if (how == 2) { int t = fib_thread (after_free, NULL); fib_join (t); } else after_free (NULL);
  }
  fib_quiesce ();
  MC_CHECK (fib_threads_alive () == 0, "threads", "%d threads left", fib_threads_alive ());
  for (int i = 0; i < jobs; i++) MC_CHECK (have || !jruns[i], "run", "job ran without a thread");
  mc_state (mc_mix (mc_mix ((uint64_t) want, (uint64_t) have), mc_mix ((uint64_t) jobs, (uint64_t) (how * 4 + max)))); mc_outcome ((uint64_t) (have * 8 + acc));
}
/* ------------------------------------------------------------------ schedules in threads of their own */
static int sruns, inflight, userfree; static bool conc;
static void * sfn (void * a) { MC_CHECK (!userfree, "late", "schedule runs after its argument was freed"); sruns++; inflight++; MC_CHECK (conc || inflight == 1, "overlap", "schedule overlaps itself"); fib_yield (); inflight--; return NULL; }
static void sfree (void * a) { userfree++; }
static void s_sched (void)
{
  int own = mc_choose (3), repeat = 1 + mc_choose (3), del = mc_choose (3), prio = mc_choose (2) ? 9 : -1; conc = mc_choose (2);
  fib_create_hook = create_hook;
  nplan = 2; plan[0] = own > 0 ? EPERM : 0; plan[1] = own > 1 ? EAGAIN : 0;
  if (own == 0) nplan = 1;
  iot_scheduler_t * s = iot_scheduler_alloc (6, 2, NULL);
  as_asked (&at[0], 6, 2, true, "scheduler");
  int first = nat;
  nplan = 0; choices = 2 * repeat;
  iot_schedule_t * sc = iot_schedule_create (s, sfn, sfree, &sruns, 1000000, 1000000, (uint64_t) repeat, NULL, prio);
  MC_CHECK (sc != NULL, "create", "no schedule");
  if (conc) iot_schedule_set_concurrent (sc, true);
  MC_CHECK (iot_schedule_add (s, sc), "add", "schedule not added");
  iot_scheduler_start (s);
  if (own < 2) for (int i = 0; i < 6; i++) fib_sleep_until (fib_now () + 10000000ull); /* some may end early */
  if (own < 2) fib_quiesce ();
  int started = 0;
  for (int i = first; i < nat; i++) started += at[i].res == 0;
  if (own < 2)
  {
    MC_CHECK (sruns == started, "run", "schedule ran %d times in %d threads", sruns, started);
    MC_CHECK (started <= repeat, "run", "schedule ran %d times of %d", started, repeat);
    if (nat == first + repeat && started == repeat) mc_outcome (1);
    bool anyfail = false;
    for (int i = first; i < nat; i++) anyfail |= at[i].res != 0;
    if (!anyfail && conc) MC_CHECK (started == repeat, "run", "schedule ran %d times of %d", started, repeat);
    for (int i = first; i < nat; i++) if (i == first || at[i - 1].res == 0) as_asked (&at[i], prio, -1, true, "schedule");
  }
  else MC_CHECK (sruns == 0, "run", "schedule runs without a thread");
  choices = 0;
  if (del) iot_schedule_delete (s, sc);
  if (del) { fib_quiesce (); MC_CHECK (userfree == 1, "free", "argument freed %d times after deletion", userfree); }
  if (del < 2) iot_scheduler_stop (s);
  iot_scheduler_free (s);
  fib_quiesce ();
  MC_CHECK (userfree == 1, "free", "argument freed %d times", userfree);
  MC_CHECK (fib_threads_alive () == 0, "threads", "%d threads left", fib_threads_alive ());
  mc_trans (1); mc_state (mc_mix (mc_mix ((uint64_t) (own * 4 + repeat), (uint64_t) (nat * 32 + started)), (uint64_t) (del * 4 + conc * 2 + (prio > 0)))); mc_outcome ((uint64_t) (nat * 16 + started));
}
/* ------------------------------------------------------------------ priorities of jobs */
static int jp[4], granted[4], ngr, seen[4], njr; static bool deny[8];
static int job_prio_hook (int p) { bool d = mc_choose (2); mc_log ("  priority %d %s\n", p, d ? "refused" : "granted"); if (ngr < 8) deny[ngr++] = d; return d ? EPERM : 0; }
static int cur_model, used_gr;
static void * pjob (void * a)
{
  int i = (int) (long) a, p = jp[i];
  if (p >= 0 && p != cur_model)
  {
    MC_CHECK (ngr == used_gr + 1, "job-priority", "%d requests to set a priority instead of 1 before job %d with priority %d", ngr - used_gr, i, p);
    if (!deny[used_gr]) cur_model = p;
    used_gr = ngr;
  }
  if (p >= 0) MC_CHECK (fib_priority () == cur_model, "job-priority", "job of priority %d runs at %d instead of %d", p, fib_priority (), cur_model);
  used_gr = ngr; cur_model = fib_priority ();
  njr++; mc_trans (1);
  return NULL;
}
static void s_jobprio (void)
{
  static const int ps[] = { -1, 5, 60, 12 };
  int dflt = mc_choose (2) ? 12 : -1, n = 1 + mc_choose (4);
  for (int i = 0; i < n; i++) jp[i] = ps[mc_choose (4)];
  fib_fixed (true);
  fib_create_hook = create_hook; fib_priority_hook = job_prio_hook;
  pool = iot_threadpool_alloc (1, 0, dflt, -1, NULL);
  as_asked (&at[0], dflt, -1, true, "pool");
  cur_model = dflt > 0 ? dflt : 0;
  iot_threadpool_start (pool);
  for (int i = 0; i < n; i++) { iot_threadpool_add_work (pool, pjob, (void *) (long) i, jp[i]); iot_threadpool_wait (pool); MC_CHECK (njr == i + 1, "run", "job did not run"); }
  iot_threadpool_free (pool);
  uint64_t h = (uint64_t) dflt; for (int i = 0; i < n; i++) h = mc_mix (h, (uint64_t) (jp[i] + 2)); for (int i = 0; i < ngr; i++) h = mc_mix (h, deny[i]);
  mc_state (h); mc_outcome ((uint64_t) ngr);
}
/* ------------------------------------------------------------------ from configuration */
static char conf_text[400];
static char * load (const char * name, const char * uri) { return strcmp (name, "k") == 0 ? strdup ("{\"x\":\"IOT::T\"}") : strcmp (name, "lg") == 0 ? strdup ("{\"Name\":\"lg\",\"Level\":\"None\"}") : strcmp (name, "x") == 0 ? strdup (conf_text) : NULL; }
static const iot_container_config_t cc = { load, "u:", NULL };
static void * nojob (void * a) { return NULL; }
static void s_factory (void)
{
  int kind = mc_choose (2), th = kind ? 0 : mc_choose (4), mj = kind ? 0 : mc_choose (3), pr = mc_choose (4), af = mc_choose (4), lg = mc_choose (3), sd = kind ? 0 : mc_choose (2);
  static const char * const threads[] = { "", "\"Threads\":1,", "\"Threads\":3,", "\"Threads\":2," }, * const jobs[] = { "", "\"MaxJobs\":1,", "\"MaxJobs\":3," }, * const prio[] = { "", "\"Priority\":10,", "\"Priority\":99,", "\"Priority\":200," },
    * const aff[] = { "", "\"Affinity\":0,", "\"Affinity\":3,", "\"Affinity\":9," }, * const log[] = { "", "\"Logger\":\"lg\",", "\"Logger\":\"none\"," }, * const delay[] = { "", "\"ShutdownDelay\":300," };
  static const int nth[] = { 2, 1, 3, 2 }, nmj[] = { 0, 1, 3 }, np[] = { -1, 10, 99, 200 }, na[] = { -1, 0, 3, 9 };
  fib_fixed (true); fib_caching (false); fib_leak_check (false); /* container tables stay */
  fib_create_hook = create_hook;
  snprintf (conf_text, sizeof (conf_text), "{%s%s%s%s%s%s\"z\":1}", threads[th], jobs[mj], prio[pr], aff[af], log[lg], delay[sd]);
  mc_log ("%s %s\n", kind ? "scheduler" : "pool", conf_text);
  iot_component_factory_add (iot_logger_factory ());
  iot_component_factory_add (iot_threadpool_factory ());
  iot_component_factory_add (iot_scheduler_factory ());
  iot_container_t * k = iot_container_alloc ("kk");
  iot_container_add_component (k, IOT_LOGGER_TYPE, "lg", "{\"Name\":\"lg\",\"Level\":\"None\"}");
  iot_container_add_component (k, kind ? IOT_SCHEDULER_TYPE : IOT_THREADPOOL_TYPE, "x", conf_text);
  iot_component_t * c = iot_container_find_component (k, "x");
  MC_CHECK (c != NULL, "create", "no component");
  MC_CHECK (nat == (kind ? 1 : nth[th]), "threads", "%d threads instead of %d", nat, kind ? 1 : nth[th]);
  for (int i = 0; i < nat; i++) as_asked (&at[i], np[pr], na[af], true, "component");
  if (!kind)
  {
    int n = 0;
    iot_threadpool_t * tp = (iot_threadpool_t *) c;
    while (n < 6 && iot_threadpool_try_work (tp, nojob, NULL, -1)) n++;
    MC_CHECK (n == (nmj[mj] ? nmj[mj] : 6), "jobs", "%d jobs accepted", n);
    iot_container_start (k);
    iot_threadpool_wait (tp);
  }
  else iot_container_start (k);
  fib_quiesce ();
  iot_container_stop (k);
  uint64_t t0 = fib_now ();
  iot_container_free (k);
  fib_quiesce ();
  if (sd) mc_outcome (fib_now () - t0);
  MC_CHECK (fib_threads_alive () == 0, "threads", "%d threads left", fib_threads_alive ());
  mc_trans (1); mc_state (mc_mix_str (1, conf_text));
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] = {
    { "create", s_create, "every priority and affinity class, privilege, and refusal of the first or both attempts" },
    { "prio", s_prio, "reading, setting and validating priorities -3..102, granted or refused" },
    { "race", s_race, "first uses of the priority check and creations from 2 and 3 threads" },
    { "pool", s_pool, "pools of up to 3 threads, every combination of refused creations" },
    { "sched", s_sched, "schedulers and thread-per-run schedules, every combination of refused creations" },
    { "jobprio", s_jobprio, "up to 4 jobs of 4 priorities on one thread, every combination of refused changes" },
    { "factory", s_factory, "pools and schedulers from every combination of configuration entries" } };
  return fib_main (argc, argv, sp, 7);
}
