#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/resource.h>

#define MAXCH 8192
#define MAXPOOL 512
#define MAXW 16
#define LOGSZ 24576
#define SETSZ (1u << 27)
#define MAXKNOWN 64
#define NSAMPLES 3

typedef struct item { uint32_t len; uint16_t lo, hi; uint16_t pre[MAXCH]; } item;

typedef struct slot
{
  volatile uint64_t cases, trans, pruned, complete;
  volatile uint64_t beat;
  volatile uint32_t nch;
  volatile int active;
  uint16_t ch[MAXCH], lim[MAXCH], n[MAXCH];
  uint32_t loglen;
  char log[LOGSZ];
  volatile int failed;
  char key[128];
  char msg[2048];
} slot;

typedef struct shm
{
  volatile int lock;
  volatile int npool;
  volatile int idle;
  volatile int nworkers;
  volatile int stop;      /* 1 violation, 2 time cap */
  volatile int capped;
  uint64_t nset, nout;
  uint64_t outs[1 << 18];
  int nsamples;
  char samples[NSAMPLES][4096];
  uint64_t known_hits[MAXKNOWN];
  char known_sample[MAXKNOWN][1024];
  uint64_t deepest;
  slot slots[MAXW];
  item pool[MAXPOOL];
} shm;

static shm * S;
static uint64_t * SEEN;
static uint32_t start_nch;
static slot * me;
static int base;               /* choices below base are fixed */
static uint32_t pos;           /* next choice index in this run */
static bool replaying = false;
static sigjmp_buf * case_end;
static sigjmp_buf case_buf;
static const mc_space * cur_space;
static struct { char name[64]; char val[160]; } params[64];
static int nparams;
static char known[MAXKNOWN][128];
static int nknown;
static double deadline;
static uint16_t * rep_ch; static uint32_t rep_n;
void (*mc_exec_begin) (void);
void (*mc_exec_end) (void);
void (*mc_exec_run) (mc_fn);
bool (*mc_space_again) (const char *);
void (*mc_extra_stats) (void *);
void (*mc_fail_params) (void *);
uint64_t mc_case_no;

static double now (void) { struct timespec t; syscall (SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
static void nap (long ns) { struct timespec t = { 0, ns }; syscall (SYS_nanosleep, &t, NULL); }
static void lock (void) { while (__atomic_exchange_n (&S->lock, 1, __ATOMIC_ACQUIRE)) nap (1000); }
static void unlock (void) { __atomic_store_n (&S->lock, 0, __ATOMIC_RELEASE); }

void * mc_shared_alloc (size_t size)
{
  void * p = mmap (NULL, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror ("mmap"); _exit (2); }
  return p;
}
bool mc_replaying (void) { return replaying; }

long mc_param (const char * name, long dflt)
{
  for (int i = 0; i < nparams; i++) if (!strcmp (params[i].name, name)) return strtol (params[i].val, NULL, 0);
  return dflt;
}
const char * mc_param_str (const char * name, const char * dflt)
{
  for (int i = 0; i < nparams; i++) if (!strcmp (params[i].name, name)) return params[i].val;
  return dflt;
}

static void die (const char * msg)
{
  fprintf (stderr, "MC-INTERNAL: %s (space %s)\n", msg, cur_space ? cur_space->name : "?");
  fflush (stderr);
  _exit (77);
}

int mc_choose (int n)
{
  if (n <= 0) die ("choose of nothing");
  if (n == 1) return 0;
  if (n > 65535) die ("choice too wide");
  uint32_t p = pos++;
  if (p >= MAXCH) die ("too many choices");
  if (p < me->nch)
  {
    if (me->n[p] == 0) me->n[p] = (uint16_t) n;
    else if (me->n[p] != n) { fprintf (stderr, "at choice %u: %u then %d\n", p, me->n[p], n); die ("divergence while replaying a prefix"); }
    if (me->lim[p] == 0) me->lim[p] = (uint16_t) n;
    if (me->ch[p] >= n) die ("out-of-range choice in replayed prefix");
    return me->ch[p];
  }
  me->ch[p] = 0; me->n[p] = (uint16_t) n; me->lim[p] = (uint16_t) n;
  me->nch = p + 1;
  return 0;
}

void mc_log (const char * fmt, ...)
{
  uint32_t room = LOGSZ - me->loglen;
  if (room < 2) return;
  va_list a; va_start (a, fmt);
  int r = vsnprintf (me->log + me->loglen, room, fmt, a);
  va_end (a);
  if (r < 0) return;
  me->loglen += ((uint32_t) r < room) ? (uint32_t) r : room - 1;
}

bool mc_known (const char * key)
{
  for (int i = 0; i < nknown; i++)
  {
    if (strcmp (known[i], key) == 0)
    {
      if (__atomic_fetch_add (&S->known_hits[i], 1, __ATOMIC_RELAXED) == 0) snprintf (S->known_sample[i], sizeof (S->known_sample[i]), "%s", me->log);
      return true;
    }
  }
  return false;
}

void mc_fail (const char * key, const char * fmt, ...)
{
  if (mc_known (key) && case_end) siglongjmp (*case_end, 2);
  /* only memory is judged: other failures end the case without a verdict */
  if (mc_param ("memonly", 0) && case_end && strcmp (key, "leak") && strcmp (key, "free")) siglongjmp (*case_end, 2);
  snprintf (me->key, sizeof (me->key), "%s", key);
  va_list a; va_start (a, fmt);
  vsnprintf (me->msg, sizeof (me->msg), fmt, a);
  va_end (a);
  me->failed = 1;
  if (replaying) { printf ("%s\n--> FAIL [%s] %s\n", me->log, me->key, me->msg); fflush (stdout); }
  _exit (3);
}
static bool pruned_now;
void mc_prune (void) { me->pruned++; pruned_now = true; if (case_end) siglongjmp (*case_end, 1); _exit (77); }

static int set_add (uint64_t * set, uint32_t size, uint64_t h)
{
  if (h == 0) h = 1;
  uint32_t i = (uint32_t) (h * 0x9e3779b97f4a7c15ull >> 32) & (size - 1);
  for (uint32_t k = 0; k < 64; k++, i = (i + 1) & (size - 1))
  {
    uint64_t v = __atomic_load_n (&set[i], __ATOMIC_RELAXED);
    if (v == h) return 0;
    if (v == 0)
    {
      uint64_t z = 0;
      if (__atomic_compare_exchange_n (&set[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 1;
      if (z == h) return 0;
    }
  }
  return 2; /* full neighbourhood: not stored */
}
void mc_state (uint64_t h) { if (set_add (SEEN, SETSZ, h) == 1) __atomic_fetch_add (&S->nset, 1, __ATOMIC_RELAXED); }
bool mc_fresh (void) { return pos >= start_nch; }
bool mc_seen (uint64_t h)
{
  if (h == 0) h = 1;
  uint32_t i = (uint32_t) (h * 0x9e3779b97f4a7c15ull >> 32) & (SETSZ - 1);
  for (uint32_t k = 0; k < 64; k++, i = (i + 1) & (SETSZ - 1))
  {
    uint64_t v = __atomic_load_n (&SEEN[i], __ATOMIC_RELAXED);
    if (v == h) return true;
    if (v == 0) return false;
  }
  return false;
}
bool mc_visit (uint64_t h)
{
  int r = set_add (SEEN, SETSZ, h);
  if (r == 0) return false;
  if (r == 1) __atomic_fetch_add (&S->nset, 1, __ATOMIC_RELAXED);
  return true;
}
void mc_outcome (uint64_t h) { if (set_add (S->outs, 1 << 18, h) == 1) __atomic_fetch_add (&S->nout, 1, __ATOMIC_RELAXED); }
void mc_trans (uint64_t n) { me->trans += n; }

/* Live heap blocks: counted by sanitizer hooks where linked in */
static long live_blocks;
long mc_live (void) { return live_blocks; }
void __sanitizer_malloc_hook (const volatile void * p, size_t s) { (void) s; if (p) live_blocks++; }
void __sanitizer_free_hook (const volatile void * p) { if (p) live_blocks--; }

static void one_case (void)
{
  pos = 0;
  start_nch = me->nch;
  me->loglen = 0; me->log[0] = 0;
  me->active = 1;
  pruned_now = false;
  if (mc_exec_begin) mc_exec_begin ();
  case_end = &case_buf;
  mc_case_no++;
  if (sigsetjmp (case_buf, 0) == 0)
  {
    if (mc_exec_run) mc_exec_run (cur_space->fn); else cur_space->fn ();
  }
  case_end = NULL;
  if (!replaying && !pruned_now) me->complete++;
  if (mc_exec_end) mc_exec_end ();
  me->active = 0;
  me->cases++;
  me->beat++;
  if (pos < me->nch && !replaying && !pruned_now) die ("run consumed fewer choices than its prefix");
  if (pos > S->deepest) S->deepest = pos;
  if (S->nsamples < NSAMPLES)
  {
    uint64_t c = me->cases;
    if (c == 2 || c == 40 || c == 1000)
    {
      lock ();
      if (S->nsamples < NSAMPLES) snprintf (S->samples[S->nsamples++], 4096, "%s", me->log);
      unlock ();
    }
  }
}

static void donate (void)
{
  if (S->npool >= 2 * S->nworkers || S->npool >= MAXPOOL) return;
  for (uint32_t i = (uint32_t) base; i < me->nch; i++)
  {
    if (me->ch[i] + 1 < me->lim[i])
    {
      lock ();
      if (S->npool < MAXPOOL)
      {
        item * t = &S->pool[S->npool];
        t->len = i;
        memcpy (t->pre, me->ch, i * sizeof (uint16_t));
        t->lo = (uint16_t) (me->ch[i] + 1);
        t->hi = me->lim[i];
        if (t->hi - t->lo > 1) /* split a wide range in two */
        {
          uint16_t mid = (uint16_t) ((t->lo + t->hi) / 2);
          t->lo = mid;
          me->lim[i] = mid;
        }
        else me->lim[i] = (uint16_t) (me->ch[i] + 1);
        S->npool++;
      }
      unlock ();
      return;
    }
  }
}

static bool take (void)
{
  bool ok = false;
  lock ();
  if (S->npool > 0)
  {
    item * t = &S->pool[--S->npool];
    memcpy (me->ch, t->pre, t->len * sizeof (uint16_t));
    memset (me->n, 0, (t->len + 1) * sizeof (uint16_t));
    for (uint32_t i = 0; i < t->len; i++) me->lim[i] = (uint16_t) (t->pre[i] + 1);
    if (t->hi) { me->ch[t->len] = t->lo; me->lim[t->len] = t->hi; me->nch = t->len + 1; base = (int) t->len; }
    else { me->nch = t->len; base = (int) t->len; } /* root */
    ok = true;
  }
  unlock ();
  return ok;
}

static void worker (int w)
{
  prctl (PR_SET_PDEATHSIG, SIGKILL);
  me = &S->slots[w];
  bool idle = false;
  uint32_t tick = 0;
  for (;;)
  {
    if (S->stop) _exit (0);
    if (!take ())
    {
      if (!idle) { idle = true; __atomic_fetch_add (&S->idle, 1, __ATOMIC_SEQ_CST); }
      if (S->npool == 0 && __atomic_load_n (&S->idle, __ATOMIC_SEQ_CST) == S->nworkers && S->npool == 0) _exit (0);
      nap (200000);
      if (idle && S->npool > 0) { idle = false; __atomic_fetch_sub (&S->idle, 1, __ATOMIC_SEQ_CST); }
      continue;
    }
    if (idle) { idle = false; __atomic_fetch_sub (&S->idle, 1, __ATOMIC_SEQ_CST); }
    for (;;)
    {
      one_case ();
      if (S->stop) _exit (0);
      if ((++tick & 15) == 0 && deadline > 0 && now () > deadline) { S->capped = 1; S->stop = 2; _exit (0); }
      /* advance */
      while ((int) me->nch > base && me->ch[me->nch - 1] + 1 >= me->lim[me->nch - 1]) me->nch--;
      if ((int) me->nch <= base) break;
      me->ch[me->nch - 1]++;
      /* clear recorded widths after the change */
      donate ();
    }
  }
}

static void json_str (FILE * f, const char * s)
{
  fputc ('"', f);
  for (; *s; s++)
  {
    unsigned char c = (unsigned char) *s;
    if (c == '"' || c == '\\') fprintf (f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf (f, "\\u%04x", c);
    else fputc (c, f);
  }
  fputc ('"', f);
}

static void report_fail (FILE * out, slot * s, const char * how)
{
  fprintf (out, "{\"type\":\"fail\",\"space\":\"%s\",\"key\":", cur_space->name);
  json_str (out, s->failed ? s->key : how);
  fprintf (out, ",\"msg\":");
  json_str (out, s->failed ? s->msg : how);
  fprintf (out, ",\"choices\":[");
  for (uint32_t i = 0; i < s->nch; i++) fprintf (out, "%s%u", i ? "," : "", s->ch[i]);
  fprintf (out, "],\"log\":");
  json_str (out, s->log);
  fprintf (out, ",\"run_params\":[");
  if (mc_fail_params) mc_fail_params (out);
  fprintf (out, "]}\n");
  fflush (out);
}

static int run_space (const mc_space * sp, int nw, double budget, FILE * out)
{
  cur_space = sp;
  double t0 = now ();
  uint64_t total_rounds = 0;
  int rc = 0;
again:
  total_rounds++;
  /* reset */
  memset (S->slots, 0, sizeof (S->slots));
  S->npool = 1; S->pool[0].len = 0; S->pool[0].lo = 0; S->pool[0].hi = 0;
  S->idle = 0; S->nworkers = nw; S->stop = 0; S->capped = 0; S->nset = 0; S->nout = 0; S->nsamples = 0; S->lock = 0; S->deepest = 0;
  if (SEEN) munmap (SEEN, SETSZ * sizeof (uint64_t));
  SEEN = mc_shared_alloc (SETSZ * sizeof (uint64_t));
  memset (S->outs, 0, sizeof (S->outs));
  deadline = budget > 0 ? t0 + budget : 0;
  pid_t pids[MAXW]; uint64_t beats[MAXW]; double seen[MAXW];
  double hang = (double) mc_param ("hang", 30);
  fflush (NULL);
  for (int w = 0; w < nw; w++)
  {
    pids[w] = fork ();
    if (pids[w] < 0) { perror ("fork"); exit (77); }
    if (pids[w] == 0) worker (w);
    beats[w] = 0; seen[w] = now ();
  }
  int left = nw;
  while (left)
  {
    bool any = false;
    for (int w = 0; w < nw; w++)
    {
      if (!pids[w]) continue;
      int st;
      pid_t r = waitpid (pids[w], &st, WNOHANG);
      slot * s = &S->slots[w];
      const char * how = NULL; char buf[80];
      if (r == pids[w])
      {
        any = true; left--; pids[w] = 0;
        if (WIFEXITED (st) && WEXITSTATUS (st) == 0) continue;
        if (WIFEXITED (st) && WEXITSTATUS (st) == 77) { fprintf (stderr, "worker internal error\n"); rc = 2; }
        else if (WIFEXITED (st) && WEXITSTATUS (st) == 3) how = "violation";
        else if (WIFEXITED (st)) { snprintf (buf, sizeof (buf), "crash: exit status %d", WEXITSTATUS (st)); how = buf; }
        else { snprintf (buf, sizeof (buf), "crash: signal %d (%s)", WTERMSIG (st), strsignal (WTERMSIG (st))); how = buf; }
      }
      else if (S->stop == 0 && s->active)
      {
        if (s->beat != beats[w]) { beats[w] = s->beat; seen[w] = now (); }
        else if (now () - seen[w] > hang)
        {
          how = "hang: no progress in one case";
          kill (pids[w], SIGKILL); waitpid (pids[w], &st, 0);
          pids[w] = 0; left--; any = true;
        }
      }
      else { beats[w] = s->beat; seen[w] = now (); }
      if (how && rc != 1) { rc = 1; report_fail (out, s, how); }
      if (rc) { S->stop = 1; }
    }
    if (!any) nap (1000000);
    if (rc) { for (int w = 0; w < nw; w++) if (pids[w]) kill (pids[w], SIGKILL); }
  }
  uint64_t cases = 0, trans = 0, pruned = 0;
  for (int w = 0; w < nw; w++) { cases += S->slots[w].cases; trans += S->slots[w].trans; pruned += S->slots[w].pruned; }
  bool cap = S->capped;
  if (!rc && !cap && mc_space_again && mc_space_again (sp->name) && total_rounds < 9) goto again;
  fprintf (out, "{\"type\":\"space\",\"space\":\"%s\",\"what\":", sp->name);
  json_str (out, sp->what ? sp->what : "");
  fprintf (out, ",\"cases\":%lu,\"pruned\":%lu,\"transitions\":%lu,\"states\":%lu,\"outcomes\":%lu,\"deepest\":%lu,\"rounds\":%lu,\"capped\":%s,\"wall\":%.2f,\"samples\":[",
    cases, pruned, trans, S->nset, S->nout, S->deepest, total_rounds, cap ? "true" : "false", now () - t0);
  for (int i = 0; i < S->nsamples; i++) { if (i) fputc (',', out); json_str (out, S->samples[i]); }
  fprintf (out, "]");
  if (mc_extra_stats) { fprintf (out, ",\"extra\":"); mc_extra_stats (out); }
  fprintf (out, "}\n");
  fflush (out);
  return rc;
}

static void read_known (const char * file)
{
  FILE * f = fopen (file, "r");
  if (!f) return;
  char line[256];
  while (nknown < MAXKNOWN && fgets (line, sizeof (line), f))
  {
    line[strcspn (line, "\n")] = 0;
    if (line[0]) snprintf (known[nknown++], sizeof (known[0]), "%s", line);
  }
  fclose (f);
}

int mc_main (int argc, char ** argv, const mc_space * spaces, int ns)
{
  int nw = (int) sysconf (_SC_NPROCESSORS_ONLN);
  double budget = 0;
  const char * outf = NULL, * rep = NULL;
  const char * want[64]; int nwant = 0;
  for (int i = 1; i < argc; i++)
  {
    char * eq = strchr (argv[i], '=');
    if (!strcmp (argv[i], "--list")) { for (int k = 0; k < ns; k++) printf ("%s: %s\n", spaces[k].name, spaces[k].what); return 0; }
    else if (!strcmp (argv[i], "--workers") && i + 1 < argc) nw = atoi (argv[++i]);
    else if (!strcmp (argv[i], "--budget") && i + 1 < argc) budget = atof (argv[++i]);
    else if (!strcmp (argv[i], "--out") && i + 1 < argc) outf = argv[++i];
    else if (!strcmp (argv[i], "--known") && i + 1 < argc) read_known (argv[++i]);
    else if (!strcmp (argv[i], "--replay") && i + 1 < argc) rep = argv[++i];
    else if (eq && nparams < 64)
    {
      snprintf (params[nparams].name, sizeof (params[0].name), "%.*s", (int) (eq - argv[i]), argv[i]);
      snprintf (params[nparams].val, sizeof (params[0].val), "%s", eq + 1);
      nparams++;
    }
    else want[nwant++] = argv[i];
  }
  if (nw < 1) nw = 1;
  if (nw > MAXW) nw = MAXW;
  S = mc_shared_alloc (sizeof (*S));
  me = &S->slots[0];
  if (rep) /* comma separated choices, one space name */
  {
    replaying = true;
    const mc_space * sp = NULL;
    for (int k = 0; k < ns; k++) if (nwant && !strcmp (spaces[k].name, want[0])) sp = &spaces[k];
    if (!sp) { fprintf (stderr, "unknown space\n"); return 77; }
    cur_space = sp;
    S->nworkers = 1;
    SEEN = mc_shared_alloc (SETSZ * sizeof (uint64_t));
    memset (me, 0, sizeof (*me));
    const char * p = rep;
    while (*p) { me->ch[me->nch++] = (uint16_t) strtol (p, (char **) &p, 10); if (*p == ',') p++; else break; }
    (void) rep_ch; (void) rep_n;
    one_case ();
    printf ("%s\n--> case passed\n", me->log);
    return 0;
  }
  FILE * out = outf ? fopen (outf, "w") : stdout;
  if (!out) { perror (outf); return 77; }
  int rc = 0;
  for (int k = 0; k < ns && !rc; k++)
  {
    bool sel = nwant == 0;
    for (int i = 0; i < nwant; i++) if (!strcmp (spaces[k].name, want[i])) sel = true;
    if (!sel) continue;
    rc = run_space (&spaces[k], nw, budget, out);
  }
  for (int i = 0; i < nknown; i++)
  {
    if (S->known_hits[i])
    {
      fprintf (out, "{\"type\":\"known\",\"key\":"); json_str (out, known[i]);
      fprintf (out, ",\"hits\":%lu,\"sample\":", S->known_hits[i]); json_str (out, S->known_sample[i]); fprintf (out, "}\n");
    }
  }
  if (outf) fclose (out); else fflush (out);
  return rc == 0 ? 0 : rc == 1 ? 1 : 77;
}
