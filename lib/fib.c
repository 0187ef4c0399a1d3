#define _GNU_SOURCE
#define FIB_RUNTIME
#include "fib.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <link.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <stdarg.h>

static inline void * raw_set (void * d, int c, size_t n) { void * r = d; __asm__ volatile ("rep stosb" : "+D" (d), "+c" (n) : "a" (c) : "memory"); return r; }
static inline void * raw_cpy (void * d, const void * s, size_t n) { void * r = d; __asm__ volatile ("rep movsb" : "+D" (d), "+S" (s), "+c" (n) : : "memory"); return r; }
#define memset raw_set
#define memcpy raw_cpy
#define NF 16
#define STACK (256 * 1024)
#define ARENA (64ul << 20)
#define NOBJ 4096

enum { F_FREE, F_READY, F_DONE };
enum { OP_RUN, OP_LOCK, OP_RD, OP_WR, OP_CWAIT, OP_JOIN, OP_SLEEP, OP_QUIESCE, OP_SEM };
static const char * opname[] = { "run", "lock", "rdlock", "wrlock", "condwait", "join", "sleep", "quiesce", "sem" };
enum { O_NONE, O_MUTEX, O_COND, O_RW, O_ATOM, O_DEAD, O_SEM };

typedef struct obj
{
  uintptr_t addr; int kind; int id; uint32_t gen;
  int owner, count, type;     /* mutex */
  int readers[NF]; int nread; /* rwlock */
  int sem;
  uint32_t vc[NF];
  uint64_t h;
} obj;

typedef struct fiber
{
  int state, id;
  void * sp; char * stack;
  void * (*fn) (void *); void * arg; void * ret;
  int op; obj * ob; obj * mx;
  bool signaled, timedout, timed; bool joined, detached, made; int prio;
  uint64_t deadline;
  int jt;
  uint32_t vc[NF];
  uint64_t h;
  char * tls;
  int saved_errno;
} fiber;

typedef struct cell { uint32_t gen, clk; uint8_t tid, mask, wr, at; uint32_t pc; } cell;

static fiber F[NF];
static int nfib, cur;
static char * stacks;
static void * main_sp;
static obj * objs; static obj * olist[NOBJ]; static uint32_t gen; static int nobj;
static uint64_t vnow; static uint64_t steps; static int used;
static int bound = 2; static bool spurious, weak, timers = true, leakck = true, allowbl, racy;
static int horizon = 20000;
static char * arena; static uint8_t * shadow; static size_t brk_, base_brk; static char * arena_base_copy; static long live, base_live;
static uint8_t * shadow_base_copy;
static size_t maxbrk;
static char * tls_ptr; static size_t tls_size; static const char * tls_img; static size_t tls_filesz;
static bool in_exec, in_rt, lasthb;
static cell * cells; static cell * gcells;
static mc_fn exec_fn;
static bool tracing;
uint64_t (*fib_clock_hook) (int);
int (*fib_create_hook) (const pthread_attr_t *); int (*fib_priority_hook) (int); int fib_euid;
static int interrupts;
void fib_interrupts (int n) { interrupts = n; }
typedef struct { volatile int lock; int nact, npend; uint32_t act[256]; uint32_t pend[256]; uint64_t races; uint64_t steps; int npairs; uint32_t pa[128], pb[128]; bool discover; long dcases; } racetab;
static racetab * RT;
static struct { int bound, horizon; bool spurious, weak, timers, leakck, allowbl, racy, caching; } dflt;

extern char __start_hdata[] __attribute__ ((weak)), __stop_hdata[] __attribute__ ((weak)), __start_hbss[] __attribute__ ((weak)), __stop_hbss[] __attribute__ ((weak)), __start_htext[] __attribute__ ((weak)), __stop_htext[] __attribute__ ((weak));
extern char __data_start[], _end[], __start_mcdata[], __stop_mcdata[], __start_mcbss[], __stop_mcbss[];
static char * snap[3]; static char * snap_at[3]; static size_t snap_n[3]; static bool snapped;

int __real_pthread_mutexattr_gettype (const pthread_mutexattr_t *, int *);
void * __real_malloc (size_t); void __real_free (void *); void * __real_realloc (void *, size_t);

void fib_switch (void ** from, void * to);
__asm__ (
  ".text\n.globl fib_switch\nfib_switch:\n"
  "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
  "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
  "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
  ".globl fib_schedule\nfib_schedule:\n"
  "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
  "mov %rsp,%rdi\nsub $8,%rsp\ncall fib_schedule_c\nadd $8,%rsp\n"
  "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
void fib_schedule (void);

void fib_bound (int p) { bound = p; }
void fib_spurious (bool on) { spurious = on; }
void fib_weak (bool on) { weak = on; }
void fib_timers (bool on) { timers = on; }
void fib_horizon (int s) { horizon = s; }
void fib_leak_check (bool on) { leakck = on; }
void fib_allow_blocked (bool on) { allowbl = on; }
void fib_racy_points (bool on) { racy = on; }
int fib_self (void) { return cur; }
uint64_t fib_now (void) { if (in_exec) F[cur].h = mc_mix (F[cur].h, vnow); return vnow; }
long fib_live (void) { return live - base_live; }

#define TR(...) do { if (tracing) mc_log (__VA_ARGS__); } while (0)

/* ------------------------------------------------------------------ heap */
static void arena_init (void)
{
  if (arena) return;
  arena = mmap ((void *) 0x200000000000ul, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  shadow = mmap (NULL, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED || shadow == MAP_FAILED) _exit (77);
  brk_ = 64;
}
static inline bool in_arena (const void * p) { return (uintptr_t) p - (uintptr_t) arena < ARENA; }
static size_t blk_size (void * p) { return ((uint64_t *) p)[-2]; }

void * __wrap_malloc (size_t n)
{
  arena_init ();
  size_t tot = (n + 15) & ~15ul;
  if (brk_ + tot + 48 > ARENA) mc_fail ("memory", "arena exhausted");
  char * p = arena + brk_ + 16;
  ((uint64_t *) p)[-2] = n;
  ((uint64_t *) p)[-1] = (uint64_t) (uintptr_t) __builtin_return_address (0);
  memset (p, 0xA5, n);
  uint8_t * s = shadow + (size_t) (p - arena) / 8;
  memset (s, 8, n / 8);
  if (n & 7) s[n / 8] = (uint8_t) (n & 7);
  brk_ += 16 + tot + 16;
  live++;
  return p;
}
void * __wrap_calloc (size_t a, size_t b)
{
  void * p = __wrap_malloc (a * b);
  ((uint64_t *) p)[-1] = (uint64_t) (uintptr_t) __builtin_return_address (0);
  memset (p, 0, a * b);
  return p;
}
static void check (const void * p, size_t n, const char * what, void * pc);
static void free_access (void * p, size_t n, void * pc);
void __wrap_free (void * p)
{
  if (!p) return;
  if (!in_arena (p)) { __real_free (p); return; }
  size_t n = blk_size (p);
  size_t so = (size_t) ((char *) p - arena) / 8;
  if (((uintptr_t) p & 15) || shadow[so - 2] != 0 || (n && shadow[so] == 9) )
    mc_fail ("double-free", "invalid or repeated free of a heap block at @0x%lx", (long) __builtin_return_address (0));
  if (in_exec) for (int i = 0; i < nfib; i++)
  {
    fiber * f = &F[i];
    if (f->state == F_READY && i != cur && f->op != OP_RUN && f->ob && f->op != OP_JOIN && f->ob->addr >= (uintptr_t) p && f->ob->addr < (uintptr_t) p + n)
      mc_fail ("free-while-waiting", "heap block freed at @0x%lx while thread %d waits in it (%s)", (long) __builtin_return_address (0), i, opname[f->op]);
  }
  if (in_exec && racy) free_access (p, n, __builtin_return_address (0));
  memset (shadow + so, 9, (n + 7) / 8);
  if (n == 0) shadow[so] = 9;
  memset (p, 0xDD, n);
  live--;
}
void * __wrap_realloc (void * p, size_t n)
{
  if (!p) return __wrap_malloc (n);
  if (!in_arena (p)) return __real_realloc (p, n);
  void * q = __wrap_malloc (n);
  ((uint64_t *) q)[-1] = (uint64_t) (uintptr_t) __builtin_return_address (0);
  size_t o = blk_size (p);
  memcpy (q, p, o < n ? o : n);
  __wrap_free (p);
  return q;
}
void * __wrap_reallocarray (void * p, size_t a, size_t b) { return __wrap_realloc (p, a * b); }
void * __wrap_aligned_alloc (size_t al, size_t n) { (void) al; return __wrap_malloc (n); }
int __wrap_posix_memalign (void ** p, size_t al, size_t n) { (void) al; *p = __wrap_malloc (n); return 0; }
static void ck_str (const char * s, const char * what, void * pc) { if (in_arena (s)) { check (s, 1, what, pc); check (s, strlen (s) + 1, what, pc); } }
#define PC __builtin_return_address (0)
char * __wrap_strdup (const char * s) { ck_str (s, "strdup", PC); size_t n = strlen (s) + 1; char * p = __wrap_malloc (n); memcpy (p, s, n); ((uint64_t *) p)[-1] = (uint64_t) (uintptr_t) PC; return p; }
char * __wrap_strndup (const char * s, size_t m) { size_t n = strnlen (s, m); char * p = __wrap_malloc (n + 1); memcpy (p, s, n); p[n] = 0; return p; }
int __wrap_vasprintf (char ** out, const char * fmt, va_list ap)
{
  va_list c; va_copy (c, ap); int n = vsnprintf (NULL, 0, fmt, c); va_end (c);
  if (n < 0) return n;
  *out = __wrap_malloc ((size_t) n + 1);
  return vsnprintf (*out, (size_t) n + 1, fmt, ap);
}
int __wrap_asprintf (char ** out, const char * fmt, ...) { va_list a; va_start (a, fmt); int r = __wrap_vasprintf (out, fmt, a); va_end (a); return r; }
int __wrap___vasprintf_chk (char ** out, int f, const char * fmt, va_list ap) { (void) f; return __wrap_vasprintf (out, fmt, ap); }

void (*fib_output_hook) (void *, const char *, size_t);
static void output_point (void * fp);
#define OUTPUT(fp, txt, n) do { if (in_exec && !in_rt) { output_point (fp); if (fib_output_hook) { fib_output_hook (fp, txt, n); break; } } fwrite_real (txt, n, fp); } while (0)
size_t __real_fwrite (const void *, size_t, size_t, FILE *);
static void fwrite_real (const void * p, size_t n, void * fp) { __real_fwrite (p, 1, n, fp); }
int __wrap_vsnprintf (char * b, size_t n, const char * fmt, va_list ap);
int __real_vsnprintf (char * b, size_t n, const char * fmt, va_list ap);
static int out_vf (void * fp, const char * fmt, va_list ap) { char b[4096]; int n = __real_vsnprintf (b, sizeof (b), fmt, ap); if (n >= (int) sizeof (b)) n = sizeof (b) - 1; OUTPUT (fp, b, (size_t) n); return n; }
int __wrap_fprintf (FILE * fp, const char * fmt, ...) { va_list a; va_start (a, fmt); int r = out_vf (fp, fmt, a); va_end (a); return r; }
int __wrap_vfprintf (FILE * fp, const char * fmt, va_list a) { return out_vf (fp, fmt, a); }
int __wrap_printf (const char * fmt, ...) { va_list a; va_start (a, fmt); int r = out_vf (stdout, fmt, a); va_end (a); return r; }
int __wrap_fputs (const char * t, FILE * fp) { ck_str (t, "fputs", PC); OUTPUT (fp, t, strlen (t)); return 1; }
size_t __wrap_fwrite (const void * p, size_t a, size_t b, FILE * fp) { OUTPUT (fp, p, a * b); return b; }

bool fib_addr_live (const void * p)
{
  if (!in_arena (p)) return true;
  size_t off = (size_t) ((const char *) p - arena);
  uint8_t s = shadow[off / 8];
  return s != 0 && s != 9 && (off & 7) < s;
}
static void check (const void * p, size_t n, const char * what, void * pc)
{
  if (!in_arena (p) || n == 0) return;
  size_t off = (size_t) ((const char *) p - arena), end = off + n - 1;
  if (end >= ARENA) mc_fail ("bad-access", "%s outside the heap @0x%lx", what, (long) pc);
  for (size_t g = off / 8; g <= end / 8; g++)
  {
    uint8_t s = shadow[g];
    if (s == 8) continue;
    if (s == 9) mc_fail ("use-after-free", "%s of %zu bytes in freed memory by thread %d @0x%lx", what, n, cur, (long) pc);
    if (s == 0 || (g == end / 8 && (end & 7) >= s) || g != end / 8) mc_fail ("out-of-bounds", "%s of %zu bytes outside any heap block by thread %d @0x%lx", what, n, cur, (long) pc);
  }
}

/* ------------------------------------------------------------------ happens-before, races */
static inline void vc_join (uint32_t * a, const uint32_t * b) { for (int i = 0; i < NF; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_acq (obj * o) { if (o) vc_join (F[cur].vc, o->vc); }
static void hb_rel (obj * o) { if (o) { vc_join (o->vc, F[cur].vc); F[cur].vc[cur]++; } }
static void hb_hash (obj * o, int op)
{
  fiber * f = &F[cur];
  f->h = mc_mix (mc_mix (f->h, (uint64_t) op), o ? mc_mix (o->h, (uint64_t) o->id) : 77);
  if (o) o->h = f->h;
}

static bool racy_pc (uint32_t pc)
{
  for (int i = 0; i < RT->nact; i++) if (RT->act[i] == pc) return true;
  return false;
}
static void add_race (uint32_t a, uint32_t b)
{
  RT->races++;
  uint32_t v[2] = { a, b };
  while (__atomic_exchange_n (&RT->lock, 1, __ATOMIC_ACQUIRE)) ;
  for (int k = 0; k < 2; k++)
  {
    bool have = racy_pc (v[k]);
    for (int i = 0; i < RT->npend && !have; i++) have = RT->pend[i] == v[k];
    if (!have && RT->npend < 256) RT->pend[RT->npend++] = v[k];
  }
  bool have = false;
  for (int i = 0; i < RT->npairs; i++) if (RT->pa[i] == a && RT->pb[i] == b) have = true;
  if (!have && RT->npairs < 128) { RT->pa[RT->npairs] = a; RT->pb[RT->npairs++] = b; }
  __atomic_store_n (&RT->lock, 0, __ATOMIC_RELEASE);
}
static void race_check (const void * p, size_t n, bool wr, bool at, void * pc)
{
  cell * c;
  if (in_arena (p)) c = cells + ((size_t) ((const char *) p - arena) / 8) * 4;
  else if ((char *) p >= __data_start && (char *) p < _end) c = gcells + ((size_t) ((char *) p - __data_start) / 8) * 4;
  else return;
  unsigned off = (unsigned) ((uintptr_t) p & 7);
  uint8_t mask = (uint8_t) (((1u << n) - 1u) << off);
  uint32_t pc32 = (uint32_t) (uintptr_t) pc;
  int slot_ = -1, oldest = 0;
  for (int i = 0; i < 4; i++)
  {
    if (c[i].gen != gen) { if (slot_ < 0) slot_ = i; continue; }
    if (c[i].tid == cur) { if (c[i].mask == mask && c[i].wr == wr && c[i].at == at) slot_ = i; else if (c[oldest].gen == gen && c[i].clk < c[oldest].clk) oldest = i; continue; }
    if (!(c[i].mask & mask) || (!wr && !c[i].wr) || (at && c[i].at)) continue;
    if (c[i].clk > F[cur].vc[c[i].tid]) add_race (c[i].pc, pc32);
  }
  if (slot_ < 0) slot_ = (int) (steps & 3);
  c[slot_] = (cell) { gen, F[cur].vc[cur], (uint8_t) cur, mask, wr, at, pc32 };
}

static void point (int op, obj * o);
static obj * get (const void * addr, int kind);
static inline bool in_hdata (const void * p) { return ((char *) p >= __start_hdata && (char *) p < __stop_hdata) || ((char *) p >= __start_hbss && (char *) p < __stop_hbss); }
static void note_read (const void * p, size_t n)
{
  uint64_t v = 0;
  if (n > 8) { for (size_t i = 0; i < n; i++) v = v * 31 + ((const uint8_t *) p)[i]; }
  else memcpy (&v, p, n);
  F[cur].h = mc_mix (F[cur].h, v ^ 0x7777);
}
static void acc (const void * p, size_t n, bool wr, void * pc)
{
  if (!in_exec || in_rt) return;
  if (in_hdata (p))
  {
    /* harness data: its content is part of the state; values read become part of the reader's history */
    if (!wr) note_read (p, n);
    if ((char *) pc >= __start_htext && (char *) pc < __stop_htext) return;
  }
  check (p, n, wr ? "write" : "read", pc);
  if (racy)
  {
    if (RT->nact && racy_pc ((uint32_t) (uintptr_t) pc)) { obj * o = get ((const void *) ((uintptr_t) p & ~7ul), O_ATOM); point (OP_RUN, o); check (p, n, wr ? "write" : "read", pc); hb_hash (o, 30); }
    if (n > 8) n = 8;
    if (((uintptr_t) p & 7) + n > 8) n = 8 - ((uintptr_t) p & 7);
    race_check (p, n, wr, false, pc);
  }
}
/* output is a scheduling point */
static void output_point (void * fp) { obj * o = get (fp, O_ATOM); point (OP_RUN, o); hb_hash (o, 32); }
static void acc_range (const void * p, size_t n, bool wr, void * pc)
{
  if (!in_exec || in_rt || !n) return;
  acc (p, n, wr, pc);
  for (size_t i = 8; i < n && racy; i += 8) race_check ((const char *) p + i, n - i < 8 ? n - i : 8, wr, false, pc);
}
int __wrap_vsnprintf (char * b, size_t n, const char * fmt, va_list ap)
{
  int r = __real_vsnprintf (b, n, fmt, ap);
  if (r >= 0 && n) acc_range (b, (size_t) r < n ? (size_t) r + 1 : n, true, PC);
  return r;
}
int __wrap_snprintf (char * b, size_t n, const char * fmt, ...)
{
  va_list a; va_start (a, fmt); int r = __real_vsnprintf (b, n, fmt, a); va_end (a);
  if (r >= 0 && n) acc_range (b, (size_t) r < n ? (size_t) r + 1 : n, true, PC);
  return r;
}
/* releasing memory conflicts with every other use of it */
static void free_access (void * p, size_t n, void * pc)
{
  if (in_rt) return;
  if (RT->nact && racy_pc ((uint32_t) (uintptr_t) pc)) { obj * o = get (p, O_ATOM); point (OP_RUN, o); check (p, 1, "release", pc); hb_hash (o, 31); }
  for (size_t i = 0; i < n && i < 2048; i += 8) race_check ((char *) p + i, n - i < 8 ? n - i : 8, true, false, pc);
}
#define ACC(sz) \
  void __tsan_read##sz (void * p) { acc (p, sz, false, PC); } \
  void __tsan_write##sz (void * p) { acc (p, sz, true, PC); } \
  void __tsan_unaligned_read##sz (void * p) { acc (p, sz, false, PC); } \
  void __tsan_unaligned_write##sz (void * p) { acc (p, sz, true, PC); } \
  void __tsan_volatile_read##sz (void * p) { acc (p, sz, false, PC); } \
  void __tsan_volatile_write##sz (void * p) { acc (p, sz, true, PC); }
ACC (1) ACC (2) ACC (4) ACC (8) ACC (16)
void __tsan_read_range (void * p, long n) { acc (p, (size_t) n, false, PC); }
void __tsan_write_range (void * p, long n) { acc (p, (size_t) n, true, PC); }
void __tsan_vptr_update (void * a, void * b) { (void) a; (void) b; }
void __tsan_func_entry (void * pc) { (void) pc; }
void __tsan_func_exit (void) { }
void __tsan_init (void) { }

/* ------------------------------------------------------------------ objects */
static obj * get (const void * addr, int kind)
{
  uint32_t i = (uint32_t) (((uintptr_t) addr * 0x9e3779b97f4a7c15ull) >> 40) & (NOBJ - 1);
  for (;; i = (i + 1) & (NOBJ - 1))
  {
    obj * o = &objs[i];
    if (o->gen != gen)
    {
      memset (o, 0, sizeof (*o));
      o->gen = gen; o->addr = (uintptr_t) addr; o->kind = kind; o->id = nobj + 1; olist[nobj++] = o; o->owner = -1;
      if (nobj > NOBJ - 64) mc_fail ("memory", "too many synchronisation objects");
      return o;
    }
    if (o->addr == (uintptr_t) addr)
    {
      if (o->kind == O_ATOM && kind != O_ATOM) o->kind = kind;
      return o;
    }
  }
}
static obj * getlive (const void * addr, int kind, void * pc)
{
  check (addr, 8, kind == O_MUTEX ? "mutex operation" : kind == O_COND ? "condition variable operation" : "lock operation", pc);
  obj * o = get (addr, kind);
  if (o->kind == O_DEAD) mc_fail ("destroyed", "use of a destroyed synchronisation object by thread %d @0x%lx", cur, (long) pc);
  return o;
}

/* ------------------------------------------------------------------ scheduling */
static bool enabled (int i)
{
  fiber * f = &F[i];
  if (f->state != F_READY) return false;
  switch (f->op)
  {
    case OP_RUN: return true;
    case OP_LOCK: return f->ob->owner < 0 || (f->ob->owner == i && f->ob->type != PTHREAD_MUTEX_NORMAL);
    case OP_RD: return f->ob->owner < 0;
    case OP_WR: return f->ob->owner < 0 && f->ob->nread == 0;
    case OP_CWAIT: return (f->signaled || f->timedout) && f->mx->owner < 0;
    case OP_JOIN: return F[f->jt].state == F_DONE;
    case OP_SLEEP: return vnow >= f->deadline;
    case OP_SEM: return f->ob->sem > 0;
    default: return false;
  }
}
static bool timed (int i)
{
  fiber * f = &F[i];
  if (f->state != F_READY) return false;
  if (f->op == OP_SLEEP) return vnow < f->deadline;
  return f->op == OP_CWAIT && f->timed && !f->signaled && !f->timedout;
}
static void advance (void)
{
  uint64_t d = UINT64_MAX;
  for (int i = 0; i < nfib; i++) if (timed (i)) { uint64_t e = F[i].deadline + (F[i].op == OP_CWAIT); if (e < d) d = e; } /* a condition wait expires strictly after its deadline */
  if (d > vnow) vnow = d;
  for (int i = 0; i < nfib; i++) if (F[i].state == F_READY && F[i].op == OP_CWAIT && F[i].timed && !F[i].signaled && F[i].deadline < vnow) F[i].timedout = true;
  TR ("  [time %+.6fs]\n", (double) (vnow - FIB_EPOCH) / 1e9);
}
static void describe (char * b, size_t n)
{
  size_t l = 0; b[0] = 0;
  for (int i = 0; i < nfib; i++)
  {
    if (F[i].state == F_READY) l += (size_t) snprintf (b + l, n - l, " T%d:%s(o%d%s)", i, opname[F[i].op], F[i].ob ? F[i].ob->id : 0, F[i].ob && F[i].ob->owner >= 0 ? ", held" : "");
    else l += (size_t) snprintf (b + l, n - l, " T%d:done", i);
    if (l >= n) break;
  }
}
void fib_jump (void * to);
__asm__ (".text\n.globl fib_jump\nfib_jump:\nmov %rdi,%rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
static void switch_to (int t, void * sp)
{
  fiber * a = &F[cur], * b = &F[t];
  if (tls_size) { memcpy (a->tls, tls_ptr, tls_size); memcpy (tls_ptr, b->tls, tls_size); }
  a->saved_errno = errno; errno = b->saved_errno;
  cur = t;
  a->sp = sp; /* resumes as if fib_schedule returned */
  fib_jump (b->sp);
}
static void finish (void) /* end of the execution: back to the explorer */
{
  void * dummy;
  fib_switch (&dummy, main_sp);
}
static uint64_t evcount; static bool caching = true, fixed;
void fib_fixed (bool on) { fixed = on; }
static uint64_t hash_range (uint64_t h, const char * a, const char * b)
{
  for (; a + 8 <= b; a += 8) { uint64_t v = *(const uint64_t *) (const void *) a; h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29; }
  for (; a < b; a++) h = mc_mix (h, (uint64_t) *a);
  return h;
}
static uint64_t hdata_hash (void) { return hash_range (hash_range (7, __start_hdata, __stop_hdata), __start_hbss, __stop_hbss); }
uint64_t fib_event (void) { evcount++; F[cur].h = mc_mix (F[cur].h, evcount); return evcount; }
int fib_choose (int n) { int c = mc_choose (n); F[cur].h = mc_mix (F[cur].h, (uint64_t) c ^ 0x9999); return c; }
void fib_note (uint64_t v) { F[cur].h = mc_mix (F[cur].h, v ^ 0x5555); }
void fib_caching (bool on) { caching = on; }
/* The state of an execution is its memory: heap, static data, stacks and registers of the threads, modelled
   synchronisation objects, virtual time.  Dead stack slots and freed memory only make states differ needlessly. */
static inline uint64_t hmem (uint64_t h, const void * a, size_t n)
{
  const uint64_t * p = a; size_t w = n / 8;
  uint64_t x = h ^ 0x9ae16a3b2f90404full, y = h + 0xc3a5c85c97cb3127ull, z = ~h, u = h * 3;
  size_t i = 0;
  for (; i + 4 <= w; i += 4)
  {
    x = (x ^ p[i]) * 0x9fb21c651e98df25ull; x ^= x >> 31;
    y = (y ^ p[i + 1]) * 0xff51afd7ed558ccdull; y ^= y >> 33;
    z = (z ^ p[i + 2]) * 0xc4ceb9fe1a85ec53ull; z ^= z >> 29;
    u = (u ^ p[i + 3]) * 0x9e3779b97f4a7c15ull; u ^= u >> 32;
  }
  for (; i < w; i++) { x = (x ^ p[i]) * 0x9fb21c651e98df25ull; x ^= x >> 31; }
  for (size_t k = w * 8; k < n; k++) y = mc_mix (y, ((const uint8_t *) a)[k]);
  return mc_mix (mc_mix (mc_mix (x, y), z), u);
}
static uint64_t content_hash (const char * sp)
{
  uint64_t h = mc_mix (mc_mix (vnow, (uint64_t) cur), evcount);
  for (int i = 0; i < 3; i++) if (snap[i]) h = hmem (h, snap_at[i], snap_n[i]);
  h = hmem (h, arena + base_brk, brk_ - base_brk);
  h = hmem (h, arena, base_brk);
  for (int i = 0; i < nfib; i++)
  {
    fiber * f = &F[i];
    h = mc_mix (h, (uint64_t) (f->state * 64 + f->op * 4 + f->joined * 2 + f->detached) + ((uint64_t) f->prio << 16));
    if (f->state != F_READY) continue;
    if (f->op == OP_SLEEP) h = mc_mix (h, f->deadline);
    if (f->op == OP_JOIN) h = mc_mix (h, (uint64_t) f->jt);
    if (f->ob) h = mc_mix (h, f->ob->addr);
    if (f->op == OP_CWAIT) h = mc_mix (mc_mix (mc_mix (h, f->mx->addr), (uint64_t) (f->signaled * 4 + f->timedout * 2 + f->timed)), f->timed && !f->signaled && !f->timedout ? f->deadline : 0);
    const char * from = i == cur ? sp : f->sp, * top = f->stack + STACK;
    h = hmem (h, from, (size_t) (top - from));
    if (tls_size > 8) h = hmem (h, i == cur ? tls_ptr : f->tls, tls_size);
  }
  uint64_t s = 0;
  for (int k = 0; k < nobj; k++)
  {
    obj * o = olist[k];
    if (o->kind == O_ATOM || o->kind == O_NONE || o->kind == O_COND) continue;
    uint64_t r = o->addr;
    r = mc_mix (r, (uint64_t) (o->kind * 4096 + (o->owner + 1) * 64 + o->count * 8 + o->type));
    if (o->kind == O_RW) for (int i = 0; i < nfib; i++) if (o->readers[i]) r = mc_mix (r, (uint64_t) (i * 16 + o->readers[i]));
    if (o->kind == O_SEM) r = mc_mix (r, (uint64_t) o->sem);
    s += r;
  }
  return mc_mix (h, s);
}
static uint64_t history_hash (void)
{
  uint64_t s = mc_mix (mc_mix (vnow, (uint64_t) cur), evcount);
  for (int i = 0; i < nfib; i++)
  {
    fiber * f = &F[i];
    s += mc_mix (mc_mix (f->h, (uint64_t) i * 64 + (uint64_t) f->op * 8 + (uint64_t) f->signaled * 4 + (uint64_t) f->timedout * 2 + (f->state == F_DONE)), f->op == OP_SLEEP || f->timed ? f->deadline : 0);
  }
  return mc_mix (s, hdata_hash ());
}
static int alt[3 * NF + 2], kind[3 * NF + 2];
__attribute__ ((used)) void fib_schedule_c (void * sp)
{
  bool adv = false; /* time has just passed: whoever it woke may run first (part of the same deviation) */
  for (;;)
  {
    int n = 0;
    bool curen = enabled (cur);
    steps++;
    if (steps > (uint64_t) horizon) { char b[512]; describe (b, sizeof (b)); mc_fail ("livelock", "no termination within %d steps:%s", horizon, b); }
    if (curen) { alt[n] = cur; kind[n++] = 0; }
    bool dev = used < (RT->discover && bound > 1 ? 1 : bound) && !fixed;
    int nen = 0;
    for (int i = 0; i < nfib; i++)
    {
      if (i == cur || !enabled (i)) continue;
      nen++;
      if (!curen || dev || adv) { alt[n] = i; kind[n++] = 0; }
    }
    nen += curen;
    if (nen == 0)
    {
      for (int i = 0; i < nfib; i++) if (F[i].state == F_READY && F[i].op == OP_QUIESCE) { alt[n] = i; kind[n++] = 0; nen++; break; }
      if (nen == 0)
      {
        bool any = false, alive = false;
        for (int i = 0; i < nfib; i++) { if (timed (i)) any = true; if (F[i].state == F_READY) alive = true; }
        if (any) { advance (); continue; }
        if (!alive) { finish (); }
        if (F[0].state == F_DONE && allowbl) finish ();
        char b[512]; describe (b, sizeof (b));
        mc_fail (F[0].state == F_DONE ? "stuck-thread" : "deadlock", "no thread can proceed:%s", b);
      }
    }
    else if (dev)
    {
      if (timers) { bool any = false; for (int i = 0; i < nfib; i++) if (timed (i)) any = true; if (any) { alt[n] = -1; kind[n++] = 1; } }
      if (spurious) for (int i = 0; i < nfib; i++) if (F[i].state == F_READY && F[i].op == OP_CWAIT && !F[i].signaled && !F[i].timedout) { alt[n] = i; kind[n++] = 2; }
    }
    if (fixed) n = 1;
    else if (!mc_replaying ())
    {
      if (!caching) mc_state (history_hash ());
      else if (mc_fresh ())
      {
        if (RT->discover && RT->dcases > 4000) mc_prune ();
        if (n > 1)
        {
        uint64_t s = RT->discover ? history_hash () : content_hash (sp);
        if (adv) s = mc_mix (s, 77);
        for (int u = 0; u < used; u++) if (mc_seen (mc_mix (s, (uint64_t) u))) mc_prune ();
        if (!mc_visit (mc_mix (s, (uint64_t) used))) mc_prune ();
        }
      }
    }
    int c = n > 1 ? mc_choose (n) : 0;
    if (kind[c] == 1) { used++; advance (); adv = true; continue; }
    if (kind[c] == 2) { used++; F[alt[c]].signaled = true; TR ("  [spurious wake-up of T%d]\n", alt[c]); adv = true; continue; }
    int t = alt[c];
    if (curen && t != cur && !adv) used++;
    if (t != cur) switch_to (t, sp);
    return;
  }
}
static void point (int op, obj * o)
{
  if (!in_exec) return;
  fiber * f = &F[cur];
  f->op = op; f->ob = o; f->h = mc_mix (f->h, 0x33 + (uint64_t) op);
  fib_schedule ();
  F[cur].op = OP_RUN;
}

static void trampoline (void)
{
  fiber * f = &F[cur];
  f->op = OP_RUN;
  f->ret = f->fn (f->arg);
  f = &F[cur];
  in_rt = false;
  TR ("T%d: ends\n", cur);
  F[cur].state = F_DONE;
  fib_schedule ();
  __builtin_trap ();
}
static int spawn (void * (*fn) (void *), void * arg, bool detached)
{
  int id = 1;
  while (id < nfib && !(id != cur && F[id].state == F_DONE && F[id].detached)) id++; /* slots of ended detached threads are used again */
  if (id >= NF) mc_fail ("memory", "too many threads in harness");
  if (!nfib) id = 0;
  fiber * f = &F[id];
  char * st = f->stack; char * tls = f->tls;
  uint32_t clk = id < nfib ? f->vc[id] : 0;
  if (id >= nfib) nfib = id + 1;
  memset (f, 0, sizeof (*f));
  f->stack = st; f->tls = tls;
  f->id = id; f->fn = fn; f->arg = arg; f->state = F_READY; f->op = OP_RUN; f->detached = detached;
  if (tls_size) { memcpy (f->tls, tls_img, tls_filesz); memset (f->tls + tls_filesz, 0, tls_size - tls_filesz); }
  memset (f->stack + STACK - 12288, 0, 12288);
  uint64_t * sp = (uint64_t *) (f->stack + STACK);
  *--sp = 0;
  *--sp = (uint64_t) (uintptr_t) trampoline;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  if (id) { memcpy (f->vc, F[cur].vc, sizeof (f->vc)); F[cur].vc[cur]++; }
  if (f->vc[id] < clk) f->vc[id] = clk;
  f->vc[id]++;
  f->h = mc_mix (F[cur].h, (uint64_t) id);
  return id;
}

static void * main_fn (void * a) { (void) a; exec_fn (); return NULL; }

static int phdr_cb (struct dl_phdr_info * i, size_t s, void * d)
{
  (void) s; (void) d;
  for (int k = 0; k < i->dlpi_phnum; k++)
  {
    if (i->dlpi_phdr[k].p_type == PT_TLS)
    {
      tls_size = i->dlpi_phdr[k].p_memsz; tls_filesz = i->dlpi_phdr[k].p_filesz;
      tls_img = (const char *) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      tls_ptr = i->dlpi_tls_data;
    }
  }
  return 1; /* main executable only */
}

static void take_snap (void)
{
  /* lib + harness globals: all of [__data_start,_end) except this runtime's own */
  char * ex[4] = { __start_mcdata, __stop_mcdata, __start_mcbss, __stop_mcbss };
  if (ex[0] > ex[2]) { char * t = ex[0]; ex[0] = ex[2]; ex[2] = t; t = ex[1]; ex[1] = ex[3]; ex[3] = t; }
  char * at = __data_start;
  int k = 0;
  for (int i = 0; i < 2; i++)
  {
    if (ex[2 * i] >= at && ex[2 * i + 1] <= _end) { snap_at[k] = at; snap_n[k++] = (size_t) (ex[2 * i] - at); at = ex[2 * i + 1]; }
  }
  snap_at[k] = at; snap_n[k++] = (size_t) (_end - at);
  for (int i = 0; i < k; i++) { snap[i] = mmap (NULL, snap_n[i] + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy (snap[i], snap_at[i], snap_n[i]); }
  base_brk = brk_; base_live = live; maxbrk = brk_;
  arena_base_copy = mmap (NULL, base_brk + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memcpy (arena_base_copy, arena, base_brk);
  shadow_base_copy = mmap (NULL, base_brk / 8 + 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memcpy (shadow_base_copy, shadow, base_brk / 8);
  stacks = mmap (NULL, (size_t) NF * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  objs = mmap (NULL, sizeof (obj) * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  cells = mmap (NULL, ARENA / 8 * 4 * sizeof (cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gcells = mmap (NULL, ((size_t) (_end - __data_start) / 8 + 8) * 4 * sizeof (cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  dl_iterate_phdr (phdr_cb, NULL);
  for (int i = 0; i < NF; i++) { F[i].stack = stacks + (size_t) i * STACK; F[i].tls = mmap (NULL, tls_size + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  snapped = true;
}

static void begin (void)
{
  arena_init ();
  if (!snapped) take_snap ();
  for (int i = 0; i < 3; i++) if (snap[i]) memcpy (snap_at[i], snap[i], snap_n[i]);
  if (brk_ > base_brk) memset (shadow + base_brk / 8, 0, (brk_ - base_brk) / 8 + 8);
  memcpy (arena, arena_base_copy, base_brk);
  memcpy (shadow, shadow_base_copy, base_brk / 8);
  brk_ = base_brk; live = base_live;
  gen++; nobj = 0; nfib = 0; cur = 0; vnow = FIB_EPOCH; steps = 0; used = 0; evcount = 0; fixed = false; caching = dflt.caching;
  memset (F[0].vc, 0, sizeof (F[0].vc));
  bound = dflt.bound; horizon = dflt.horizon; spurious = dflt.spurious; weak = dflt.weak; timers = dflt.timers; leakck = dflt.leakck; allowbl = dflt.allowbl; racy = dflt.racy;
  fib_clock_hook = NULL; interrupts = 0; fib_create_hook = NULL; fib_priority_hook = NULL; fib_euid = 0;
  tracing = mc_replaying () || mc_case_no < 4 || mc_case_no == 38 || mc_case_no == 39 || mc_case_no == 999 || mc_case_no == 998;
}
static void run (mc_fn fn)
{
  exec_fn = fn;
  spawn (main_fn, NULL, true);
  if (tls_size) memcpy (tls_ptr, F[0].tls, tls_size);
  cur = 0;
  in_exec = true;
  fib_switch (&main_sp, F[0].sp);
  in_exec = false;
  for (int i = 1; leakck && i < nfib; i++) if (F[i].made && F[i].state == F_DONE && !F[i].detached && !F[i].joined && F[0].state == F_DONE) mc_fail ("thread-leak", "ended thread T%d was neither detached nor joined", i);
  if (leakck && live != base_live && F[0].state == F_DONE)
  {
    char b[400]; size_t l = 0; int k = 0;
    b[0] = 0;
    for (size_t o = base_brk; o + 16 < brk_ && k < 6; )
    {
      char * p = arena + o + 16;
      size_t n = ((uint64_t *) p)[-2];
      if (n ? shadow[(size_t) (p - arena) / 8] != 9 : false) { l += (size_t) snprintf (b + l, sizeof (b) - l, " %zu bytes @0x%lx;", n, (long) ((uint64_t *) p)[-1]); k++; }
      o += 32 + ((n + 15) & ~15ul);
    }
    mc_fail ("leak", "%ld heap blocks not released:%s", live - base_live, b);
  }
}
static void end (void) { in_exec = false; in_rt = false; mc_trans (steps); RT->steps += steps; if (RT->discover) RT->dcases++; }

static bool again (const char * name)
{
  (void) name;
  bool r = RT->discover;
  RT->discover = false;
  if (!r && !RT->npend) { return false; }
  for (int i = 0; i < RT->npend && RT->nact < 256; i++) { RT->act[RT->nact++] = RT->pend[i]; r = true; }
  RT->npend = 0;
  return r;
}
static void extra (void * vf)
{
  FILE * f = vf;
  fprintf (f, "{\"racy_sites\":%d,\"race_pairs\":[", RT->nact);
  for (int i = 0; i < RT->npairs; i++) fprintf (f, "%s\"@0x%x @0x%x\"", i ? "," : "", RT->pa[i], RT->pb[i]);
  fprintf (f, "]}");
  /* per space */
  RT->nact = RT->npend = RT->npairs = 0; RT->discover = dflt.racy && dflt.caching; RT->dcases = 0;
}

static void failparams (void * vf)
{
  FILE * f = vf;
  fprintf (f, "\"discover=%d\"", RT->discover);
  if (RT->nact)
  {
    fprintf (f, ",\"racypcs=");
    for (int i = 0; i < RT->nact; i++) fprintf (f, "%s0x%x", i ? "," : "", RT->act[i]);
    fprintf (f, "\"");
  }
}

int fib_main (int argc, char ** argv, const mc_space * spaces, int n)
{
  arena_init ();
  RT = mc_shared_alloc (sizeof (*RT));
  dflt.bound = 2; dflt.horizon = 20000; dflt.timers = true; dflt.leakck = true; dflt.caching = true; dflt.racy = true;
  for (int i = 1; i < argc; i++)
  {
    if (!strncmp (argv[i], "bound=", 6)) dflt.bound = atoi (argv[i] + 6);
    if (!strcmp (argv[i], "cache=0")) dflt.caching = false;
    if (!strcmp (argv[i], "racy=0")) dflt.racy = false;
    if (!strncmp (argv[i], "racypcs=", 8)) { char * p = argv[i] + 8; while (*p) { RT->act[RT->nact++] = (uint32_t) strtoul (p, &p, 16); if (*p == ',') p++; } }
  }
  RT->discover = dflt.racy && dflt.caching;
  for (int i = 1; i < argc; i++)
  {
    if (!strcmp (argv[i], "--replay")) RT->discover = false;
  }
  for (int i = 1; i < argc; i++) if (!strncmp (argv[i], "discover=", 9)) RT->discover = argv[i][9] == '1';
  mc_fail_params = failparams;
  mc_exec_begin = begin; mc_exec_end = end; mc_exec_run = run;
  mc_space_again = again; mc_extra_stats = extra;
  return mc_main (argc, argv, spaces, n);
}

/* ------------------------------------------------------------------ harness API */
typedef struct { void (*fn) (void *); void * arg; } tharg;
static tharg tha[NF];
static void * th_entry (void * a) { tharg * t = a; t->fn (t->arg); return NULL; }
int fib_thread (void (*fn) (void *), void * arg)
{
  point (OP_RUN, NULL);
  int id = nfib;
  tha[id].fn = fn; tha[id].arg = arg;
  id = spawn (th_entry, &tha[id], false);
  hb_hash (NULL, 50 + id);
  TR ("T%d: starts T%d\n", cur, id);
  return id;
}
void fib_join (int t) { F[cur].jt = t; point (OP_JOIN, NULL); vc_join (F[cur].vc, F[t].vc); F[t].joined = true; F[cur].h = mc_mix (F[cur].h, F[t].h); }
void fib_quiesce (void) { point (OP_QUIESCE, NULL); hb_hash (NULL, 60); }
void fib_sleep_until (uint64_t ns) { F[cur].deadline = ns; point (OP_SLEEP, NULL); hb_hash (NULL, 61); }
void fib_yield (void) { point (OP_RUN, NULL); hb_hash (NULL, 62); }
bool fib_finished (int t) { bool r = F[t].state == F_DONE; fib_note (r); return r; }
bool fib_is_blocked (int t) { bool r = F[t].state == F_READY && !enabled (t); fib_note (r); return r; }
int fib_threads_alive (void) { int n = 0; for (int i = 0; i < nfib; i++) if (i != cur && F[i].state == F_READY) n++; fib_note ((uint64_t) n); return n; }

/* ------------------------------------------------------------------ pthread */
int __wrap_pthread_create (pthread_t * t, const pthread_attr_t * a, void * (*fn) (void *), void * arg)
{
  int d = PTHREAD_CREATE_JOINABLE;
  if (a) pthread_attr_getdetachstate (a, &d);
  point (OP_RUN, NULL);
  int r = fib_create_hook ? fib_create_hook (a) : 0;
  if (r)
  {
    if (t) { int id = 1; while (id < nfib && !(id != cur && F[id].state == F_DONE && F[id].detached)) id++; *t = (pthread_t) (id + 1); } /* undefined on failure: here what a later thread will get */
    hb_hash (NULL, 49); TR ("T%d: pthread_create fails\n", cur);
    return r;
  }
  int id = spawn (fn, arg, d == PTHREAD_CREATE_DETACHED);
  F[id].made = true;
  if (a)
  {
    int how, pol; struct sched_param sp;
    pthread_attr_getinheritsched (a, &how); pthread_attr_getschedpolicy (a, &pol); pthread_attr_getschedparam (a, &sp);
    if (how == PTHREAD_EXPLICIT_SCHED && pol == SCHED_FIFO) F[id].prio = sp.sched_priority;
  }
  else F[id].prio = F[cur].prio;
  hb_hash (NULL, 50 + id);
  TR ("T%d: pthread_create -> T%d\n", cur, id);
  /* the new thread may run before the identifier is stored */
  point (OP_RUN, NULL);
  if (t) { check (t, sizeof (*t), "write of thread id", PC); *t = (pthread_t) (id + 1); }
  return 0;
}
int __wrap_pthread_join (pthread_t t, void ** ret)
{
  int id = (int) t - 1;
  if (id < 0 || id >= nfib || id == cur || F[id].detached || F[id].joined) mc_fail ("bad-join", "join of an invalid, detached or already joined thread @0x%lx", (long) PC);
  fib_join (id);
  if (ret) *ret = F[id].ret;
  return 0;
}
int __wrap_pthread_detach (pthread_t t) { int id = (int) t - 1; if (id < 0 || id >= nfib) return ESRCH; F[id].detached = true; return 0; }
pthread_t __wrap_pthread_self (void) { return (pthread_t) (cur + 1); }
void __wrap_pthread_exit (void * r) { F[cur].ret = r; F[cur].state = F_DONE; fib_schedule (); __builtin_trap (); }
int __wrap_pthread_setschedparam (pthread_t t, int p, const struct sched_param * s)
{
  int id = (int) t - 1;
  if (id < 0 || id >= nfib || F[id].state == F_DONE) return ESRCH;
  if (s->sched_priority < sched_get_priority_min (p) || s->sched_priority > sched_get_priority_max (p)) return EINVAL;
  int r = fib_priority_hook ? fib_priority_hook (s->sched_priority) : 0;
  if (r == 0) F[id].prio = s->sched_priority;
  if (id != cur) hb_hash (NULL, 48 + 100 * (uint64_t) id);
  return r;
}
int __wrap_pthread_getschedparam (pthread_t t, int * p, struct sched_param * s)
{
  int id = (int) t - 1;
  if (id < 0 || id >= nfib) return ESRCH;
  *p = F[id].prio ? SCHED_FIFO : SCHED_OTHER; s->sched_priority = F[id].prio;
  F[cur].h = mc_mix (F[cur].h, (uint64_t) F[id].prio);
  return 0;
}
int fib_priority (void) { return F[cur].prio; }
uid_t __wrap_geteuid (void) { return (uid_t) fib_euid; }
long __real_sysconf (int n);
long __wrap_sysconf (int n) { return n == _SC_NPROCESSORS_ONLN ? 4 : __real_sysconf (n); }
int __wrap_pthread_setaffinity_np (pthread_t t, size_t n, const cpu_set_t * c) { (void) t; (void) n; (void) c; return 0; }
int __wrap_pthread_setname_np (pthread_t t, const char * n) { (void) t; (void) n; return 0; }
int __wrap_prctl (int op, ...) { (void) op; return 0; }
int __wrap_pthread_once (pthread_once_t * once, void (*fn) (void));

int __wrap_pthread_mutex_init (pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
  check (m, sizeof (*m), "mutex init", PC);
  if (!in_exec) { int ty = 0; if (a) pthread_mutexattr_gettype (a, &ty); memset (m, 0, sizeof (*m)); m->__data.__kind = ty; return 0; }
  obj * o = get (m, O_MUTEX);
  if (o->owner >= 0) mc_fail ("bad-init", "re-initialisation of a locked mutex @0x%lx", (long) PC);
  int ty = PTHREAD_MUTEX_NORMAL;
  if (a) pthread_mutexattr_gettype (a, &ty);
  o->kind = O_MUTEX; o->owner = -1; o->count = 0; o->type = ty;
  memset (m, 0, sizeof (*m)); m->__data.__kind = ty;
  return 0;
}
int __wrap_pthread_mutex_destroy (pthread_mutex_t * m)
{
  if (!in_exec) return 0;
  obj * o = getlive (m, O_MUTEX, PC);
  point (OP_RUN, o);
  if (o->owner >= 0) mc_fail ("destroy-locked", "destruction of a mutex locked by thread %d @0x%lx", o->owner, (long) PC);
  for (int i = 0; i < nfib; i++) if (i != cur && F[i].state == F_READY && ((F[i].op == OP_LOCK && F[i].ob == o) || (F[i].op == OP_CWAIT && F[i].mx == o))) mc_fail ("destroy-waited", "destruction of a mutex thread %d waits for @0x%lx", i, (long) PC);
  o->kind = O_DEAD;
  return 0;
}
static obj * mget (pthread_mutex_t * m, void * pc)
{
  int known = nobj;
  obj * o = getlive (m, O_MUTEX, pc);
  if (nobj != known) { o->type = m->__data.__kind & 3; }
  return o;
}
static void own (obj * o) { o->owner = cur; o->count++; hb_acq (o); hb_hash (o, 1); }
int __wrap_pthread_mutex_lock (pthread_mutex_t * m)
{
  if (!in_exec) return 0;
  obj * o = mget (m, PC);
  point (OP_LOCK, o);
  check (m, 8, "mutex lock", PC);
  if (o->kind == O_DEAD) mc_fail ("destroyed", "lock of a destroyed mutex by thread %d @0x%lx", cur, (long) PC);
  if (o->owner == cur)
  {
    if (o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
  }
  own (o);
  TR ("T%d: lock o%d\n", cur, o->id);
  return 0;
}
/* the first caller runs the function while the others wait for it to finish */
int __wrap_pthread_once (pthread_once_t * once, void (*fn) (void))
{
  if (!in_exec) { if (*once == 0) { fn (); *once = 2; } return 0; }
  obj * o = get (once, O_MUTEX);
  point (OP_LOCK, o);
  own (o);
  if (*once == 0) { fn (); *once = 2; }
  o->count = 0; o->owner = -1; hb_rel (o); hb_hash (o, 3);
  return 0;
}
int __wrap_pthread_mutex_trylock (pthread_mutex_t * m)
{
  if (!in_exec) return 0;
  obj * o = mget (m, PC);
  point (OP_RUN, o);
  check (m, 8, "mutex trylock", PC);
  hb_hash (o, 2);
  if (o->owner >= 0 && !(o->owner == cur && o->type == PTHREAD_MUTEX_RECURSIVE)) { TR ("T%d: trylock o%d busy\n", cur, o->id); return EBUSY; }
  own (o);
  TR ("T%d: trylock o%d\n", cur, o->id);
  return 0;
}
int __wrap_pthread_mutex_timedlock (pthread_mutex_t * m, const struct timespec * t) { (void) t; return __wrap_pthread_mutex_lock (m); }
static int unlock_ (obj * o, void * pc)
{
  if (o->owner != cur)
  {
    if (o->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
    mc_fail ("bad-unlock", "unlock of a mutex not held by the caller, thread %d @0x%lx", cur, (long) pc);
  }
  if (--o->count == 0) { o->owner = -1; }
  hb_rel (o); hb_hash (o, 3);
  TR ("T%d: unlock o%d\n", cur, o->id);
  return 0;
}
int __wrap_pthread_mutex_unlock (pthread_mutex_t * m)
{
  if (!in_exec) return 0;
  obj * o = mget (m, PC);
  return unlock_ (o, PC);
}
int __wrap_pthread_cond_init (pthread_cond_t * c, const pthread_condattr_t * a)
{
  (void) a;
  check (c, sizeof (*c), "cond init", PC);
  memset (c, 0, sizeof (*c));
  if (!in_exec) return 0;
  obj * o = get (c, O_COND);
  o->kind = O_COND;
  return 0;
}
int __wrap_pthread_cond_destroy (pthread_cond_t * c)
{
  if (!in_exec) return 0;
  obj * o = getlive (c, O_COND, PC);
  point (OP_RUN, o);
  for (int i = 0; i < nfib; i++) if (F[i].state == F_READY && F[i].op == OP_CWAIT && F[i].ob == o && !F[i].signaled && !F[i].timedout) mc_fail ("destroy-waited", "destruction of a condition variable thread %d waits on @0x%lx", i, (long) PC);
  o->kind = O_DEAD;
  return 0;
}
static int cwait (pthread_cond_t * c, pthread_mutex_t * m, bool td, uint64_t dl, void * pc)
{
  obj * co = getlive (c, O_COND, pc), * mo = mget (m, pc);
  point (OP_RUN, co);
  if (mo->owner != cur) { if (mo->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM; mc_fail ("bad-wait", "condition wait without holding the mutex, thread %d @0x%lx", cur, (long) pc); }
  fiber * f = &F[cur];
  int cnt = mo->count;
  mo->count = 0; mo->owner = -1; hb_rel (mo);
  hb_hash (co, 4);
  TR ("T%d: wait c%d%s\n", cur, co->id, td ? " (timed)" : "");
  f->signaled = false; f->timedout = false; f->timed = td; f->deadline = dl; f->mx = mo;
  if (td && dl < vnow) f->timedout = true;
  point (OP_CWAIT, co);
  f = &F[cur];
  check (m, 8, "mutex re-acquisition after wait", pc);
  mo->owner = cur; mo->count = cnt; hb_acq (mo); hb_acq (co);
  hb_hash (mo, 5);
  TR ("T%d: woken c%d%s\n", cur, co->id, f->signaled ? "" : " (timeout)");
  return f->signaled ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait (pthread_cond_t * c, pthread_mutex_t * m) { if (!in_exec) return 0; return cwait (c, m, false, 0, PC); }
int __wrap_pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  if (!in_exec) return 0;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
  return cwait (c, m, true, (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec, PC);
}
int __wrap_pthread_cond_clockwait (pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { (void) k; return __wrap_pthread_cond_timedwait (c, m, t); }
int __wrap_pthread_cond_signal (pthread_cond_t * c)
{
  if (!in_exec) return 0;
  obj * o = getlive (c, O_COND, PC);
  point (OP_RUN, o);
  check (c, 8, "condition signal", PC);
  int w[NF], n = 0;
  for (int i = 0; i < nfib; i++) if (F[i].state == F_READY && F[i].op == OP_CWAIT && F[i].ob == o && !F[i].signaled && !F[i].timedout) w[n++] = i;
  hb_rel (o); hb_hash (o, 6);
  int k = n > 1 && !fixed ? mc_choose (n) : 0;
  TR ("T%d: signal c%d%s\n", cur, o->id, n ? "" : " (no waiter)");
  if (n) F[w[k]].signaled = true;
  return 0;
}
int __wrap_pthread_cond_broadcast (pthread_cond_t * c)
{
  if (!in_exec) return 0;
  obj * o = getlive (c, O_COND, PC);
  point (OP_RUN, o);
  check (c, 8, "condition broadcast", PC);
  hb_rel (o); hb_hash (o, 7);
  for (int i = 0; i < nfib; i++) if (F[i].state == F_READY && F[i].op == OP_CWAIT && F[i].ob == o && !F[i].timedout) F[i].signaled = true;
  TR ("T%d: broadcast c%d\n", cur, o->id);
  return 0;
}
int __wrap_pthread_rwlock_init (pthread_rwlock_t * l, const pthread_rwlockattr_t * a) { (void) a; memset (l, 0, sizeof (*l)); if (in_exec) { obj * o = get (l, O_RW); o->kind = O_RW; o->owner = -1; o->nread = 0; } return 0; }
int __wrap_pthread_rwlock_destroy (pthread_rwlock_t * l)
{
  if (!in_exec) return 0;
  obj * o = getlive (l, O_RW, PC);
  point (OP_RUN, o);
  if (o->owner >= 0 || o->nread) mc_fail ("destroy-locked", "destruction of a held read/write lock @0x%lx", (long) PC);
  for (int i = 0; i < nfib; i++) if (i != cur && F[i].state == F_READY && (F[i].op == OP_RD || F[i].op == OP_WR) && F[i].ob == o) mc_fail ("destroy-waited", "destruction of a lock thread %d waits for @0x%lx", i, (long) PC);
  o->kind = O_DEAD;
  return 0;
}
int __wrap_pthread_rwlock_rdlock (pthread_rwlock_t * l)
{
  if (!in_exec) return 0;
  obj * o = getlive (l, O_RW, PC);
  if (o->owner == cur) return EDEADLK;
  point (OP_RD, o);
  check (l, 8, "read lock", PC);
  o->nread++; o->readers[cur]++; hb_acq (o); hb_hash (o, 8);
  TR ("T%d: rdlock o%d\n", cur, o->id);
  return 0;
}
int __wrap_pthread_rwlock_wrlock (pthread_rwlock_t * l)
{
  if (!in_exec) return 0;
  obj * o = getlive (l, O_RW, PC);
  if (o->owner == cur) return EDEADLK;
  point (OP_WR, o);
  check (l, 8, "write lock", PC);
  o->owner = cur; hb_acq (o); hb_hash (o, 9);
  TR ("T%d: wrlock o%d\n", cur, o->id);
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock (pthread_rwlock_t * l) { obj * o = getlive (l, O_RW, PC); point (OP_RUN, o); if (o->owner >= 0) return EBUSY; o->nread++; o->readers[cur]++; hb_acq (o); hb_hash (o, 8); return 0; }
int __wrap_pthread_rwlock_trywrlock (pthread_rwlock_t * l) { obj * o = getlive (l, O_RW, PC); point (OP_RUN, o); if (o->owner >= 0 || o->nread) return EBUSY; o->owner = cur; hb_acq (o); hb_hash (o, 9); return 0; }
int __wrap_pthread_rwlock_unlock (pthread_rwlock_t * l)
{
  if (!in_exec) return 0;
  obj * o = getlive (l, O_RW, PC);
  if (o->owner == cur) o->owner = -1;
  else if (o->readers[cur] > 0) { o->readers[cur]--; o->nread--; }
  else mc_fail ("bad-unlock", "unlock of a read/write lock not held, thread %d @0x%lx", cur, (long) PC);
  hb_rel (o); hb_hash (o, 10);
  TR ("T%d: rwunlock o%d\n", cur, o->id);
  return 0;
}
int __wrap_sem_init (sem_t * s, int sh, unsigned v) { (void) sh; obj * o = get (s, O_SEM); o->kind = O_SEM; o->sem = (int) v; return 0; }
int __wrap_sem_destroy (sem_t * s) { obj * o = getlive (s, O_SEM, PC); o->kind = O_DEAD; return 0; }
int __wrap_sem_post (sem_t * s) { obj * o = getlive (s, O_SEM, PC); point (OP_RUN, o); o->sem++; hb_rel (o); hb_hash (o, 11); return 0; }
int __wrap_sem_wait (sem_t * s) { obj * o = getlive (s, O_SEM, PC); point (OP_SEM, o); o->sem--; hb_acq (o); hb_hash (o, 12); return 0; }

void __wrap___assert_fail (const char * e, const char * f, unsigned l, const char * fn)
{
  const char * b = strrchr (f, '/');
  mc_fail ("assert", "assertion failed: %s, %s:%u (%s) by thread %d", e, b ? b + 1 : f, l, fn, cur);
}
void __wrap_abort (void) { mc_fail ("abort", "abort called by thread %d @0x%lx", cur, (long) PC); }

/* ------------------------------------------------------------------ time */
static void do_sleep (uint64_t ns) { F[cur].deadline = vnow + ns; TR ("T%d: sleep %.6fs\n", cur, (double) ns / 1e9); point (OP_SLEEP, NULL); hb_hash (NULL, 63); }
static void timerem (struct timespec * r, uint64_t v) { if (r) { r->tv_sec = (time_t) (v / 1000000000ull); r->tv_nsec = (long) (v % 1000000000ull); } }
/* sleep, possibly interrupted by a signal: false if so */
static bool sleep_int (uint64_t ns, uint64_t * rem)
{
  *rem = 0;
  if (interrupts > 0 && ns)
  {
    int c = mc_choose (4);
    hb_hash (NULL, 640 + (uint64_t) c);
    if (c) { interrupts--; uint64_t done = c == 1 ? 0 : c == 2 ? ns / 2 : ns - 1; TR ("T%d: interrupted\n", cur); do_sleep (done); *rem = ns - done; return false; }
  }
  do_sleep (ns);
  return true;
}
int __wrap_nanosleep (const struct timespec * t, struct timespec * r)
{
  if (!in_exec) return 0;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) { errno = EINVAL; return -1; }
  uint64_t rem;
  if (!sleep_int ((uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec, &rem)) { timerem (r, rem); errno = EINTR; return -1; }
  return 0;
}
int __wrap_clock_nanosleep (clockid_t c, int fl, const struct timespec * t, struct timespec * r)
{
  (void) c;
  if (!in_exec) return 0;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) return EINVAL;
  uint64_t v = (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec, rem;
  if (!sleep_int (fl & TIMER_ABSTIME ? (v > vnow ? v - vnow : 0) : v, &rem)) { if (!(fl & TIMER_ABSTIME)) timerem (r, rem); return EINTR; }
  return 0;
}
int __wrap_usleep (unsigned us) { uint64_t rem; if (!in_exec) return 0; if (!sleep_int ((uint64_t) us * 1000, &rem)) { errno = EINTR; return -1; } return 0; }
unsigned __wrap_sleep (unsigned s) { uint64_t rem; if (!in_exec) return 0; if (!sleep_int ((uint64_t) s * 1000000000ull, &rem)) return (unsigned) ((rem + 999999999ull) / 1000000000ull); return 0; }
int __wrap_sched_yield (void) { do_sleep (1000); return 0; }
int __wrap_clock_gettime (clockid_t c, struct timespec * t)
{
  uint64_t v = in_exec && fib_clock_hook ? fib_clock_hook ((int) c) : vnow;
  if (in_exec) F[cur].h = mc_mix (F[cur].h, v);
  t->tv_sec = (time_t) (v / 1000000000ull); t->tv_nsec = (long) (v % 1000000000ull);
  return 0;
}
static uint64_t rdclock (int c) { uint64_t v = in_exec && fib_clock_hook ? fib_clock_hook (c) : vnow; if (in_exec) F[cur].h = mc_mix (F[cur].h, v); return v; }
time_t __wrap_time (time_t * t) { time_t v = (time_t) (rdclock (CLOCK_REALTIME) / 1000000000ull); if (t) *t = v; return v; }
int __wrap_timespec_get (struct timespec * t, int base) { timerem (t, rdclock (CLOCK_REALTIME)); return base; }
int __wrap_gettimeofday (struct timeval * t, void * z) { (void) z; uint64_t v = rdclock (CLOCK_REALTIME); t->tv_sec = (time_t) (v / 1000000000ull); t->tv_usec = (long) (v % 1000000000ull / 1000); return 0; }

/* ------------------------------------------------------------------ libc memory functions called by instrumented code */
void * __wrap_memcpy (void * d, const void * s, size_t n) { if (in_exec) { check (s, n, "memcpy read", PC); check (d, n, "memcpy write", PC); } return memmove (d, s, n); }
void * __wrap_memset (void * d, int c, size_t n)
{
  if (in_exec) check (d, n, "memset", PC);
  for (char * p = d; n--; ) { *p++ = (char) c; __asm__ volatile ("" ::: "memory"); }
  return d;
}
int __wrap_strcmp (const char * a, const char * b)
{
  if (in_exec) { ck_str (a, "strcmp", PC); ck_str (b, "strcmp", PC); }
  while (*a && *a == *b) { a++; b++; }
  return (unsigned char) *a - (unsigned char) *b;
}
size_t __real_strlen (const char *);
size_t __wrap_strlen (const char * s)
{
  if (in_exec && in_arena (s)) check (s, 1, "strlen", PC);
  size_t n = __real_strlen (s);
  if (in_exec && in_arena (s)) check (s, n + 1, "strlen", PC);
  return n;
}
char * __real_strcpy (char *, const char *);
char * __wrap_strcpy (char * d, const char * s) { if (in_exec) { ck_str (s, "strcpy", PC); check (d, __real_strlen (s) + 1, "strcpy write", PC); } return __real_strcpy (d, s); }

/* ------------------------------------------------------------------ atomics */
#define ATOM(bits, T) \
  static obj * at##bits (const volatile void * p, bool wr, void * pc) { \
    check ((const void *) (uintptr_t) p, bits / 8, "atomic access", pc); \
    obj * o = get ((const void *) (uintptr_t) p, O_ATOM); point (OP_RUN, o); \
    check ((const void *) (uintptr_t) p, bits / 8, "atomic access", pc); \
    if (racy) race_check ((const void *) (uintptr_t) p, bits / 8, wr, true, pc); \
    return o; } \
  T __tsan_atomic##bits##_load (const volatile T * p, int mo) { (void) mo; if (!in_exec) return *p; obj * o = at##bits (p, false, PC); T v = *p; hb_acq (o); hb_hash (o, 20); TR ("T%d: load a%d = %lld\n", cur, o->id, (long long) v); return v; } \
  void __tsan_atomic##bits##_store (volatile T * p, T v, int mo) { (void) mo; if (!in_exec) { *p = v; return; } obj * o = at##bits (p, true, PC); *p = v; hb_rel (o); hb_hash (o, 21); TR ("T%d: store a%d = %lld\n", cur, o->id, (long long) v); } \
  T __tsan_atomic##bits##_exchange (volatile T * p, T v, int mo) { (void) mo; if (!in_exec) { T x = *p; *p = v; return x; } obj * o = at##bits (p, true, PC); T x = *p; *p = v; hb_acq (o); hb_rel (o); hb_hash (o, 22); return x; } \
  RMW (bits, T, fetch_add, x + v) RMW (bits, T, fetch_sub, x - v) RMW (bits, T, fetch_and, x & v) RMW (bits, T, fetch_or, x | v) RMW (bits, T, fetch_xor, x ^ v) RMW (bits, T, fetch_nand, ~(x & v)) \
  static int cas##bits (volatile T * p, T * e, T v, bool wk, void * pc) { \
    if (!in_exec) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    obj * o = at##bits (p, true, pc); T x = *p; hb_acq (o); \
    bool ok = x == *e; \
    if (ok && wk && weak && used < bound && mc_choose (2)) { used++; hb_hash (o, 25); TR ("T%d: weak cas a%d fails spuriously\n", cur, o->id); return 0; } \
    if (ok) { *p = v; hb_rel (o); } else *e = x; \
    hb_hash (o, 24); TR ("T%d: cas a%d -> %s\n", cur, o->id, ok ? "ok" : "fails"); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_strong (volatile T * p, T * e, T v, int mo, int fmo) { (void) mo; (void) fmo; return cas##bits (p, e, v, false, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak (volatile T * p, T * e, T v, int mo, int fmo) { (void) mo; (void) fmo; return cas##bits (p, e, v, true, PC); } \
  T __tsan_atomic##bits##_compare_exchange_val (volatile T * p, T e, T v, int mo, int fmo) { (void) mo; (void) fmo; cas##bits (p, &e, v, false, PC); return e; }
#define RMW(bits, T, name, expr) \
  T __tsan_atomic##bits##_##name (volatile T * p, T v, int mo) { (void) mo; if (!in_exec) { T x = *p; *p = (T) (expr); return x; } obj * o = at##bits (p, true, PC); T x = *p; *p = (T) (expr); hb_acq (o); hb_rel (o); hb_hash (o, 23); TR ("T%d: %s a%d: %lld -> %lld\n", cur, #name, o->id, (long long) x, (long long) *p); return x; }
ATOM (8, uint8_t)
ATOM (16, uint16_t)
ATOM (32, uint32_t)
ATOM (64, uint64_t)
void __tsan_atomic_thread_fence (int mo) { (void) mo; }
void __tsan_atomic_signal_fence (int mo) { (void) mo; }
