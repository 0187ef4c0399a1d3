/* E08: file writes under crashes and failures at every system call; E09: histories of file and store operations.
 * Everything happens in a scratch directory made for the case. */
// LINK: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=strndup
#include "dd.h"
#include "iot/file.h"
#include "iot/store.h"
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <dirent.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <fcntl.h>
#include <errno.h>
/* heap blocks held by the library and the harness (not by libc) */
static long held_blocks;
void * __real_malloc (size_t); void * __real_calloc (size_t, size_t); void * __real_realloc (void *, size_t); void __real_free (void *); char * __real_strdup (const char *); char * __real_strndup (const char *, size_t);
void * __wrap_malloc (size_t n) { void * p = __real_malloc (n); held_blocks += p != NULL; return p; }
void * __wrap_calloc (size_t n, size_t m) { void * p = __real_calloc (n, m); held_blocks += p != NULL; return p; }
void * __wrap_realloc (void * o, size_t n) { void * p = __real_realloc (o, n); held_blocks += (p != NULL) - (o != NULL); return p; }
void __wrap_free (void * p) { held_blocks -= p != NULL; __real_free (p); }
char * __wrap_strdup (const char * s) { held_blocks++; return __real_strdup (s); }
char * __wrap_strndup (const char * s, size_t n) { held_blocks++; return __real_strndup (s, n); }
/* ------------------------------------------------ system call interception */
#define MAGIC 0x5ca1ab1e
typedef struct shared { int count, fault, kind, err, result, finished, nr[64], cls[64]; size_t len; int isnull, fdleak; long leak; uint8_t data[70000]; } shared;
static shared * sh;
static volatile int armed;
static const int calls[] = { SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_link, SYS_linkat, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_truncate, SYS_read, SYS_pread64, SYS_lseek, SYS_fstat, SYS_newfstatat, SYS_statx, SYS_sendfile, SYS_copy_file_range, SYS_fallocate, SYS_fchmod, SYS_chmod };
#define NCALLS ((int) (sizeof (calls) / sizeof (calls[0])))
enum { K_NONE, K_KILL, K_ERR, K_SHORT, K_TORN, NK };
static const char * const kn[] = { "", "killed before", "failing", "short (and no more room)", "killed half way through" };
static long pass (long nr, const greg_t * r)
{
  register long r10 __asm__ ("r10") = r[REG_R10]; register long r8 __asm__ ("r8") = r[REG_R8]; register long r9 __asm__ ("r9") = MAGIC;
  long ret;
  __asm__ volatile ("syscall" : "=a" (ret) : "a" (nr), "D" (r[REG_RDI]), "S" (r[REG_RSI]), "d" (r[REG_RDX]), "r" (r10), "r" (r8), "r" (r9) : "rcx", "r11", "memory");
  return ret;
}
static bool is_write (long nr) { return nr == SYS_write || nr == SYS_pwrite64; }
static void on_sys (int s, siginfo_t * i, void * u)
{
  greg_t * r = ((ucontext_t *) u)->uc_mcontext.gregs;
  long nr = i->si_syscall;
  if (!armed) { r[REG_RAX] = pass (nr, r); return; }
  int k = sh->count++;
  if (k < 64) sh->nr[k] = (int) nr;
  if (sh->kind == K_SHORT && k > sh->fault && is_write (nr)) { r[REG_RAX] = -ENOSPC; return; }
  if (k != sh->fault || sh->kind == K_NONE) { r[REG_RAX] = pass (nr, r); return; }
  switch (sh->kind)
  {
    case K_KILL: syscall (SYS_exit_group, 99); break;
    case K_ERR: if (nr == SYS_close) pass (nr, r); r[REG_RAX] = -sh->err; break;
    default: r[REG_RDX] /= 2; r[REG_RAX] = pass (nr, r); if (sh->kind == K_TORN) syscall (SYS_exit_group, 99); break;
  }
}
static void intercept (void)
{
  struct sigaction sa = { .sa_sigaction = on_sys, .sa_flags = SA_SIGINFO | SA_NODEFER };
  sigaction (SIGSYS, &sa, NULL);
  static struct sock_filter f[NCALLS + 6];
  int n = 0;
  f[n++] = (struct sock_filter) BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (struct seccomp_data, args[5]));
  f[n++] = (struct sock_filter) BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, MAGIC, NCALLS + 2, 0);
  f[n++] = (struct sock_filter) BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (struct seccomp_data, nr));
  for (int k = 0; k < NCALLS; k++) f[n++] = (struct sock_filter) BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, (unsigned) calls[k], (unsigned char) (NCALLS - k), 0);
  f[n++] = (struct sock_filter) BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter) BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  /* jumps above: match of MAGIC lands on ALLOW, match of a call on TRAP */
  f[1].jt = (unsigned char) (NCALLS + 1);
  struct sock_fprog p = { (unsigned short) n, f };
  if (prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl (PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { fprintf (stderr, "system call filter refused\n"); syscall (SYS_exit_group, 77); }
}
/* ------------------------------------------------------------------ scratch */
static char dir[64], buf0[9][256];
static void scratch (void)
{
  const char * base = getenv ("VERIF_SCRATCH");
  snprintf (dir, sizeof (dir), "%s/vfile-XXXXXX", base && strlen (base) < 40 ? base : access ("/dev/shm", W_OK) ? "/tmp" : "/dev/shm");
  if (!mkdtemp (dir)) { perror ("mkdtemp"); abort (); }
}
static void wipe (const char * d)
{
  char p[600];
  DIR * h = opendir (d);
  if (h)
  {
    struct dirent * e;
    while ((e = readdir (h)))
    {
      if (!strcmp (e->d_name, ".") || !strcmp (e->d_name, "..")) continue;
      snprintf (p, sizeof (p), "%s/%s", d, e->d_name);
      if (e->d_type == DT_DIR) wipe (p); else unlink (p);
    }
    closedir (h);
  }
  rmdir (d);
}
#define FAIL(key, ...) do { wipe (dir); mc_fail (key, __VA_ARGS__); } while (0)
#define PRUNE() do { wipe (dir); mc_prune (); } while (0)
#define CHECK(c, key, ...) do { if (!(c)) FAIL (key, __VA_ARGS__); } while (0)
static const char * P (const char * n) { static int k; k = (k + 1) % 9; snprintf (buf0[k], sizeof (buf0[0]), "%s/%s", dir, n); return buf0[k]; }
/* raw content: length or -1 if absent */
static long raw (const char * n, uint8_t * o, size_t max)
{
  int fd = open (P (n), O_RDONLY);
  if (fd < 0) return -1;
  long r = read (fd, o, max);
  close (fd);
  return r;
}
static void put (const char * n, const uint8_t * p, size_t len) { int fd = open (P (n), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write (fd, p, len) != (long) len) abort (); close (fd); }
static int entries (const char * except1, const char * except2) /* directory entries besides those */
{
  int n = 0; DIR * h = opendir (dir); struct dirent * e;
  while ((e = readdir (h))) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..") && strcmp (e->d_name, except1) && strcmp (e->d_name, except2)) n++;
  closedir (h);
  return n;
}
static uint8_t big[70000];
static void fill (void) { for (size_t i = 0; i < sizeof (big); i++) big[i] = (uint8_t) ('a' + (i * 7 + i / 251) % 26); }
/* ------------------------------------------------- E08 crashes and failures */
/* run one operation in a child, with a fault; returns 0 killed, 1 finished */
typedef struct wop { int kind; const char * name; const uint8_t * p; size_t len; } wop; /* 0 file_write_binary 1 file_write 2 store_write_binary 3 config_save 4 read_binary 5 config_load 6 delete 7 store_delete */
static const char * const opn[] = { "iot_file_write_binary", "iot_file_write", "iot_store_write_binary", "iot_store_config_save", "iot_file_read_binary", "iot_store_config_load", "iot_file_delete", "iot_store_config_delete" };
static int perform (const wop * o, int fault, int kind, int err)
{
  static pid_t owner;
  if (owner != getpid ()) { owner = getpid (); sh = mmap (NULL, sizeof (*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  sh->count = 0; sh->fault = fault; sh->kind = kind; sh->err = err; sh->finished = 0; sh->result = -1;
  char path[300], name[100]; snprintf (path, sizeof (path), "%s/%s", dir, o->name);
  snprintf (name, sizeof (name), "%s", o->name); if (strstr (name, ".json")) *strstr (name, ".json") = 0;
  char * txt = malloc (o->len + 1); memcpy (txt, o->p ? o->p : (const uint8_t *) "", o->p ? o->len : 0); txt[o->p ? o->len : 0] = 0;
  pid_t pid = fork ();
  if (pid < 0) abort ();
  if (pid == 0)
  {
    intercept ();
    size_t l = 12345; void * r = NULL;
    bool ok = false;
    long live = held_blocks;
    int low = dup (2); close (low);
    armed = 1;
    switch (o->kind)
    {
      case 0: ok = iot_file_write_binary (path, (uint8_t *) txt, o->len); break;
      case 1: ok = iot_file_write (path, txt); break;
      case 2: ok = iot_store_write_binary (path, (uint8_t *) txt, o->len); break;
      case 3: ok = iot_store_config_save (name, dir, txt); break;
      case 4: r = iot_file_read_binary (path, &l); break;
      case 5: r = iot_store_config_load (name, dir); l = r ? strlen (r) : 0; break;
      case 6: ok = iot_file_delete (path); break;
      default: ok = iot_store_config_delete (name, dir); break;
    }
    armed = 0;
    sh->leak = held_blocks - live - (r != NULL);
    int low2 = dup (2); close (low2); sh->fdleak = low2 != low;
    sh->result = ok; sh->isnull = r == NULL; sh->len = l;
    if (r && l < sizeof (sh->data)) memcpy (sh->data, r, l + 1);
    sh->finished = 1;
    syscall (SYS_exit_group, 0);
  }
  int st;
  if (waitpid (pid, &st, 0) != pid) abort ();
  free (txt);
  if (WIFEXITED (st) && WEXITSTATUS (st) == 77) { fprintf (stderr, "cannot intercept system calls here\n"); _exit (77); }
  bool killed = WIFEXITED (st) && WEXITSTATUS (st) == 99 && (kind == K_KILL || kind == K_TORN);
  if (!killed && !sh->finished) FAIL ("crash", "%s of %s crashed (status %x) with system call %d %s", opn[o->kind], o->name, st, fault, kn[kind]);
  mc_trans (1);
  if (!killed) CHECK (sh->leak <= 0, "leak", "%s of %s leaves %ld heap blocks behind with system call %d %s", opn[o->kind], o->name, sh->leak, fault, kn[kind]);
  if (!killed && (kind == K_NONE || sh->nr[fault < 64 ? fault : 0] != SYS_close)) CHECK (!sh->fdleak, "leak", "%s of %s leaves a file open with system call %d %s", opn[o->kind], o->name, fault, kn[kind]);
  return !killed;
}
static const size_t lens[] = { 5, 1, 0, 4095, 4096, 4097, 9000, 65536 };
static const char * const fn[] = { "one.json", "two.json" };
static bool same (long n, const uint8_t * d, long want, const uint8_t * w) { return n == want && (n <= 0 || !memcmp (d, w, (size_t) n)); }
/* choose a fault for operation o from how many system calls a run without fault makes (in a copy of the state) */
static void choose_fault (int n, const int * nr, int * fault, int * kind, int * err)
{
  static const int errs[] = { EIO, ENOSPC, EINTR, EACCES };
  *fault = mc_choose (n + 1) - 1; *kind = K_NONE; *err = 0;
  if (*fault < 0) return;
  int c = mc_choose (is_write (nr[*fault]) ? 7 : 5);
  *kind = c == 0 ? K_KILL : c < 5 ? K_ERR : c == 5 ? K_SHORT : K_TORN;
  if (*kind == K_ERR) *err = errs[c - 1];
}
static void s_fault (void)
{
  static uint8_t got[70000];
  uint8_t * cont[2] = { big, big + 11 }; long cur[2] = { -1, -1 };
  fill ();
  int histlen = (int) mc_param ("writes", 2), nl = (int) mc_param ("lens", 8);
  scratch ();
  /* initial state */
  for (int f = 0; f < 2; f++) { static const long init[] = { -1, 7, 5000 }; cur[f] = f == 0 ? init[mc_choose (3)] : 6; cont[f] = big + 23 * f; if (cur[f] >= 0) put (fn[f], cont[f], (size_t) cur[f]); }
  bool crashed = false;
  for (int h = 0; h < histlen; h++)
  {
    int f = h == 0 ? 0 : mc_choose (2), kind = mc_choose (h == 0 ? 4 : 2) * (h == 0 ? 1 : 3);
    size_t len = lens[mc_choose (h == 0 ? nl : 3)];
    if (len == 0 && kind >= 2) len = 2;
    uint8_t * p = big + 100 + 31 * h;
    wop o = { kind, fn[f], p, len };
    /* a run in a copy of the directory tells the number of system calls */
    char keep[64]; strcpy (keep, dir);
    int nr[64], n;
    {
      scratch ();
      for (int g = 0; g < 2; g++) if (cur[g] >= 0) put (fn[g], cont[g], (size_t) cur[g]);
      perform (&o, -1, K_NONE, 0);
      n = sh->count < 64 ? sh->count : 64; memcpy (nr, sh->nr, sizeof (nr));
      wipe (dir); strcpy (dir, keep);
    }
    int fault, fk, err;
    choose_fault (n, nr, &fault, &fk, &err);
    mc_log ("%s of %zu bytes to %s (holding %ld), system call %d of %d (number %d) %s %s\n", opn[kind], len, fn[f], cur[f], fault, n, fault >= 0 ? nr[fault] : -1, kn[fk], err ? strerror (err) : "");
    int fin = perform (&o, fault, fk, err);
    long l = raw (fn[f], got, sizeof (got));
    bool isold = same (l, got, cur[f], cont[f]), isnew = same (l, got, (long) len, p);
    if (!isold && !isnew) FAIL ("torn", "after %s %s the file holds %ld bytes that are neither the old nor the new content", opn[kind], fin ? "returned" : "was interrupted", l);
    if (fin)
    {
      if (sh->result && !isnew) FAIL ("lie", "%s reports success but the file holds the old content", opn[kind]);
      if (!sh->result && !isold) FAIL ("lie", "%s reports failure but the file holds the new content", opn[kind]);
      if (fk == K_NONE) CHECK (sh->result, "fail", "%s fails without any fault%s", opn[kind], crashed ? " after an interrupted write" : "");
      if (sh->result && !crashed) CHECK (entries (fn[0], fn[1]) == 0, "temp", "%s leaves a temporary file behind%s", opn[kind], fault >= 0 ? " (reporting success)" : "");
      if (!sh->result && !crashed) CHECK (entries (fn[0], fn[1]) == 0, "temp-fail", "failed %s leaves a temporary file behind", opn[kind]);
    }
    else crashed = true;
    if (isnew) { cur[f] = (long) len; cont[f] = p; }
    long lo = raw (fn[1 - f], got, sizeof (got));
    CHECK (same (lo, got, cur[1 - f], cont[1 - f]), "other", "%s changed the other file", opn[kind]);
    mc_state (mc_mix (mc_mix (mc_mix (mc_mix_str ((uint64_t) fault, fn[f]), (uint64_t) fk), (uint64_t) (cur[0] * 70000 + cur[1])), (uint64_t) err));
    mc_outcome (mc_mix ((uint64_t) fin, (uint64_t) (sh->result * 2 + isnew)));
    /* what the reader makes of it */
    size_t rl = 777;
    uint8_t * r = iot_file_read_binary (P (fn[f]), &rl);
    long want = cur[f] > 0 ? cur[f] : 0;
    bool ok = want ? r && rl == (size_t) want && !memcmp (r, cont[f], rl) && r[rl] == 0 : !r && rl == 0;
    free (r);
    CHECK (ok, "read", "reading back %s after the write gives something else", fn[f]);
  }
  /* a later undisturbed write cleans up */
  wop o = { 0, fn[0], big + 500, 33 };
  perform (&o, -1, K_NONE, 0);
  long l = raw (fn[0], got, sizeof (got));
  CHECK (sh->result && same (l, got, 33, big + 500), "after", "a later write fails");
  wipe (dir);
}
/* faults while reading and deleting */
static void s_rfault (void)
{
  static uint8_t got[70000];
  fill ();
  scratch ();
  int kind = 4 + mc_choose (4); size_t len = lens[mc_choose (8)]; bool absent = mc_choose (2);
  if (!absent) put (fn[0], big, len);
  wop o = { kind, fn[0], NULL, 0 };
  char keep[64]; strcpy (keep, dir);
  int nr[64], n, fault, fk, err;
  scratch (); if (!absent) put (fn[0], big, len);
  perform (&o, -1, K_NONE, 0); n = sh->count < 64 ? sh->count : 64; memcpy (nr, sh->nr, sizeof (nr));
  wipe (dir); strcpy (dir, keep);
  choose_fault (n, nr, &fault, &fk, &err);
  mc_log ("%s of %s (%zu bytes%s), system call %d of %d (number %d) %s %s\n", opn[kind], fn[0], len, absent ? ", absent" : "", fault, n, fault >= 0 ? nr[fault] : -1, kn[fk], err ? strerror (err) : "");
  int fin = perform (&o, fault, fk, err);
  long l = raw (fn[0], got, sizeof (got)), had = absent ? -1 : (long) len;
  bool isold = same (l, got, had, big);
  if (kind < 6)
  {
    CHECK (isold, "read", "%s changed the file", opn[kind]);
    if (fin)
    {
      bool right = !sh->isnull && sh->len == len && !absent && !memcmp (sh->data, big, len) && sh->data[len] == 0, none = sh->isnull && sh->len == 0;
      if (fk == K_NONE) CHECK (had > 0 ? right : none, "read", "%s gives something else than the file holds", opn[kind]);
      else CHECK (right || none, "read", "%s with a failing system call gives %zu bytes of something", opn[kind], sh->len);
    }
  }
  else
  {
    CHECK (isold || l == -1, "delete", "%s left part of the file", opn[kind]);
    if (fin) CHECK (sh->result == (had >= 0 && l == -1), "delete", "%s reports %d", opn[kind], sh->result);
    if (fin && fk == K_NONE) CHECK (l == -1, "delete", "%s did not delete", opn[kind]);
  }
  mc_state (mc_mix (mc_mix (mc_mix ((uint64_t) kind, len), (uint64_t) (fault * 10 + fk)), (uint64_t) err));
  mc_outcome (mc_mix ((uint64_t) fin, (uint64_t) l));
  wipe (dir);
}
/* ------------------------------------------------------------ E09 histories */
static const char * const nm[] = { "a", "b.json", "xjson", "ab.txt", ".json", "c.json.json" };
#define NNM 6
static const struct { const char * p; size_t n; } ct[] = { { "x", 1 }, { "{\"k\":1}", 7 }, { "", 0 }, { "\0\1\xff\n\0", 5 }, { NULL, 4097 } };
static const int cfgn[] = { 1, 4, 5 };
static long have[NNM]; static int whichc[NNM];
static const uint8_t * C (int c) { return ct[c].p ? (const uint8_t *) ct[c].p : big; }
static bool bin (int c) { return c == 3; }
static void listed (const iot_data_t * l, const bool * want, int strip, const char * what)
{
  static sb a;
  CHECK (l, "list", "no list from %s", what);
  uint32_t n = 0;
  for (int i = 0; i < NNM; i++)
  {
    if (!want[i]) continue;
    char w[50]; strcpy (w, nm[i]); if (strip) w[strlen (w) - (size_t) strip] = 0;
    n++;
    int c = 0;
    iot_data_list_iter_t it; iot_data_list_iter (l, &it);
    while (iot_data_list_iter_next (&it)) c += !strcmp (iot_data_list_iter_string_value (&it), w);
    CHECK (c == 1, "list", "%s lists '%s' %d times: %s", what, w, c, dd_str (&a, l, 0));
  }
  CHECK (iot_data_list_length (l) == n, "list", "%s lists more than the matching entries: %s", what, dd_str (&a, l, 0));
}
static int wr_calls, rd_calls, del_calls;
static uint8_t * my_read (const char * p, size_t * l) { rd_calls++; if (l) *l = 3; return (uint8_t *) strdup (p); }
static bool my_write (const char * p, const uint8_t * b, size_t l) { wr_calls++; return l != 4; }
static bool my_del (const char * p) { del_calls++; return true; }
static int nfds (void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl (i, F_GETFD) != -1; return n; }
static void s_hist (void)
{
  int fds = nfds ();
  static uint8_t got[70000];
  fill ();
  int depth = (int) mc_param ("depth", 3), names = (int) mc_param ("names", NNM);
  scratch ();
  dd_begin ();
  for (int i = 0; i < NNM; i++) have[i] = -1;
  mkdir (P ("sub.json"), 0700);
  for (int s = 0; s < depth; s++)
  {
    int op = mc_choose (17), n = op == 8 || op == 9 || op == 10 ? (names > 5 ? cfgn[mc_choose (3)] : names > 3 ? cfgn[mc_choose (2)] : 1) : op < 8 || op > 14 ? mc_choose (names) : 0, c = op < 4 || op == 10 ? mc_choose (5) : 0;
    const char * path = P (nm[n]);
    uint8_t * r; size_t l = 99; bool ok; iot_data_t * list; bool want[NNM];
    if (op == 3 && c == 2) PRUNE ();
    switch (op)
    {
      case 0: case 1: case 2: case 3:
        if ((op == 1 || op == 2) && bin (c)) PRUNE ();
        if (op == 2 && c == 2) PRUNE (); /* the store refuses empty content */
        mc_log ("%s %s content %d\n", op == 0 ? "file_write_binary" : op == 1 ? "file_write" : op == 2 ? "store_write" : "store_write_binary", nm[n], c);
        if (op == 0) ok = iot_file_write_binary (path, C (c), ct[c].n);
        else if (op == 3) ok = iot_store_write_binary (path, C (c), ct[c].n);
        else { char * t = malloc (ct[c].n + 1); memcpy (t, C (c), ct[c].n); t[ct[c].n] = 0; ok = op == 1 ? iot_file_write (path, t) : iot_store_write (path, t); free (t); }
        CHECK (ok, "write", "write of %zu bytes to %s fails", ct[c].n, nm[n]);
        have[n] = (long) ct[c].n; whichc[n] = c;
        break;
      case 4: case 5: case 6: case 7:
        mc_log ("%s %s\n", op == 4 ? "file_read_binary" : op == 5 ? "file_read" : op == 6 ? "store_read" : "file_read_binary without length", nm[n]);
        r = op == 4 ? iot_file_read_binary (path, &l) : op == 5 ? (uint8_t *) iot_file_read (path) : op == 6 ? (uint8_t *) iot_store_read (path) : iot_store_read_binary (path, NULL);
        ok = have[n] > 0 ? r && !memcmp (r, C (whichc[n]), (size_t) have[n]) && r[have[n]] == 0 : !r;
        if (op == 4) ok &= l == (size_t) (have[n] > 0 ? have[n] : 0);
        free (r);
        CHECK (ok, "read", "read of %s gives something else than the %ld bytes written", nm[n], have[n]);
        break;
      case 8: case 9: case 10:
      {
        char name[20]; strcpy (name, nm[n]); name[strlen (name) - 5] = 0;
        if (n == 4) name[0] = 0;
        mc_log ("config_%s '%s'\n", op == 8 ? "load" : op == 9 ? "delete" : "save", name);
        if (op == 8)
        {
          char * t = iot_store_config_load (name, dir);
          ok = have[n] > 0 ? t && !memcmp (t, C (whichc[n]), (size_t) have[n]) && t[have[n]] == 0 : !t;
          free (t);
          CHECK (ok, "config", "load of configuration '%s'", name);
        }
        else if (op == 9) { CHECK (iot_store_config_delete (name, dir) == (have[n] >= 0), "config", "delete of configuration '%s'", name); have[n] = -1; }
        else
        {
          if (bin (c) || ct[c].n == 0) PRUNE ();
          char * t = malloc (ct[c].n + 1); memcpy (t, C (c), ct[c].n); t[ct[c].n] = 0;
          ok = iot_store_config_save (name, dir, t); free (t);
          CHECK (ok, "config", "save of configuration '%s'", name);
          have[n] = (long) ct[c].n; whichc[n] = c;
        }
        break;
      }
      case 11: case 12: case 13:
      {
        static const char * const re[] = { NULL, "", "^a", "\\.txt$", "json", "b", "^\\.json$", "nothing" };
        if (op == 11)
          for (int k = 0; k < 8; k++)
          {
            list = iot_file_list (dir, re[k]);
            for (int i = 0; i < NNM; i++) want[i] = have[i] >= 0 && (k < 2 || (k == 2 ? nm[i][0] == 'a' : k == 3 ? i == 3 : k == 4 ? strstr (nm[i], "json") != NULL : k == 5 ? strchr (nm[i], 'b') != NULL : k == 6 ? i == 4 : false));
            mc_log ("file_list '%s'\n", re[k] ? re[k] : "(none)");
            listed (list, want, 0, re[k] ? re[k] : "listing without pattern");
            iot_data_free (list);
          }
        else if (op == 12)
        {
          list = iot_store_config_list (dir);
          for (int i = 0; i < NNM; i++) want[i] = have[i] >= 0 && (i == 1 || i >= 4);
          mc_log ("config_list\n");
          listed (list, want, 5, "configuration list");
          iot_data_free (list);
        }
        else
        {
          mc_log ("bad listings\n");
          CHECK (!iot_file_list (dir, "["), "list", "list for an ill-formed pattern");
          CHECK (!iot_file_list (P ("missing"), "a"), "list", "list of a missing directory");
          CHECK (!iot_file_list (P ("missing"), NULL), "list", "list of a missing directory");
          CHECK (!iot_store_config_list (P ("missing")), "list", "configuration list of a missing directory");
        }
        break;
      }
      case 14:
        mc_log ("missing and directory paths\n");
        l = 5;
        CHECK (!iot_file_read (P ("nosuch")) && !iot_file_read_binary (P ("nosuch"), &l) && l == 0 && !iot_file_read (P ("nodir/x")), "absent", "read of an absent file");
        CHECK (!iot_file_delete (P ("nosuch")) && !iot_store_delete (P ("nodir/x")), "absent", "delete of an absent file succeeds");
        CHECK (!iot_file_write (P ("nodir/x"), "t"), "absent", "write into a missing directory succeeds");
        l = 5;
        CHECK (!iot_file_read (dir), "directory", "reading a directory gives something");
        CHECK (!iot_file_read_binary (dir, &l) && l == 0, "directory", "reading a directory reports %zu bytes", l);
        CHECK (!iot_file_write (P ("sub.json"), "t"), "directory", "writing to the path of a directory succeeds");
        CHECK (!iot_store_config_save ("c", P ("nodir"), "{}") && !iot_store_config_load ("c", P ("nodir")) && !iot_store_config_delete ("c", P ("nodir")), "absent", "configuration in a missing directory");
        break;
      case 15:
        mc_log ("delete %s\n", nm[n]);
        ok = s % 2 ? iot_store_delete (path) : iot_file_delete (path);
        CHECK (ok == (have[n] >= 0), "delete", "delete of %s reports %d", nm[n], ok);
        have[n] = -1;
        break;
      default:
      {
        mc_log ("configured store\n");
        wr_calls = rd_calls = del_calls = 0;
        iot_store_config (my_read, my_write, my_del);
        char * t = iot_store_read (path);
        ok = t && !strcmp (t, path) && rd_calls == 1; free (t);
        t = (char *) iot_store_read_binary (path, &l); ok &= t && l == 3; free (t);
        ok &= iot_store_write (path, "abc") && !iot_store_write (path, "abcd") && iot_store_write_binary (path, C (3), 5) && wr_calls == 3 && iot_store_delete (path) && del_calls == 1;
        t = iot_store_config_load ("q", "u:v"); ok &= t && !strcmp (t, "u:v/q.json"); free (t);
        t = iot_store_config_load ("q", NULL); ok &= t && !strcmp (t, "q.json"); free (t);
        iot_store_config (NULL, NULL, NULL);
        ok &= !iot_store_read (path) && !iot_store_write (path, "a") && !iot_store_delete (path);
        iot_store_config (iot_file_read_binary, iot_file_write_binary, iot_file_delete);
        CHECK (ok, "custom", "configured store functions are not used as given");
        break;
      }
    }
    mc_trans (1);
    if (mc_fresh () || mc_replaying ())
    {
      int present = 0;
      for (int i = 0; i < NNM; i++)
      {
        long g = raw (nm[i], got, sizeof (got));
        CHECK (same (g, got, have[i], have[i] > 0 ? C (whichc[i]) : big), "content", "file %s holds %ld bytes instead of the %ld last written", nm[i], g, have[i]);
        present += have[i] >= 0;
      }
      int n2 = 0; DIR * h = opendir (dir); while (readdir (h)) n2++; closedir (h);
      CHECK (n2 == present + 3, "content", "%d directory entries instead of %d", n2 - 3, present);
      uint64_t hsh = 1; for (int i = 0; i < NNM; i++) hsh = mc_mix (hsh, (uint64_t) (have[i] * 10 + (have[i] >= 0 ? whichc[i] : 0)));
      mc_state (hsh);
    }
  }
  CHECK (nfds () == fds, "descriptor", "file descriptors leak");
  wipe (dir);
  dd_leaks ("file operations");
}
static const mc_space spaces[] = {
  { "fault", s_fault, "every kill, failure and short write at every system call of a history of writes" },
  { "rfault", s_rfault, "every failure at every system call of reads and deletes" },
  { "hist", s_hist, "every history of file and store operations" },
};
int main (int argc, char ** argv)
{
  return mc_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0]));
}
