/* C16: loggers: level gate, chains, start/stop, release (sequential histories); shared loggers (schedules, fib variant) */
#if defined (VARIANT_FIB) || defined (VARIANT_FIBREL)
#include "fib.h"
#define FIB 1
#else
#include "mc.h"
#define FIB 0
#endif
#include "iot/logger.h"
#include "iot/container.h"
#include "iot/data.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctype.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/prctl.h>
#include <inttypes.h>
#include "iot/time.h"

#define NL 3
static const char * const ln[] = { "NONE", "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
typedef struct ref { iot_logger_t * l; int state, level; bool dirty, user, alive, linked; int next, refs, released; } ref; /* state 0 never started, 1 running, 2 stopped */
static ref R[NL];
static int got[16], ngot;
static const char * want_msg;
static iot_loglevel_t want_level;
static uint64_t last_ts;

static void fn (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * msg, const void * ctx)
{
  int i = (int) (long) ctx - 1;
  MC_CHECK (i >= 0 && i < NL && R[i].alive, "dead", "log function called with a foreign context");
  MC_CHECK (R[i].l == l, "dead", "log function called for another logger");
  MC_CHECK (level == want_level, "level", "message of level %s delivered as %s", ln[want_level], ln[level]);
  MC_CHECK (!strcmp (msg, want_msg), "message", "delivered '%.60s', expected '%.60s'", msg, want_msg);
  MC_CHECK (ts >= last_ts, "timestamp", "time went backwards");
  last_ts = ts;
  MC_CHECK (ngot < 16, "many", "delivered without end");
  got[ngot++] = i;
}
static void freectx (void * ctx)
{
  int i = (int) (long) ctx - 1;
  MC_CHECK (i >= 0 && i < NL, "free", "foreign context released");
  R[i].released++;
  MC_CHECK (R[i].released == 1, "free", "logger %d released twice", i);
}
static void say (iot_logger_t * l, int how, int lv, const char * arg)
{
  want_level = (iot_loglevel_t) lv; ngot = 0;
  if (how == 0) switch (lv)
  {
    case 1: iot_log_error (l, "m%d %s", 7, arg); break;
    case 2: iot_log_warn (l, "m%d %s", 7, arg); break;
    case 3: iot_log_info (l, "m%d %s", 7, arg); break;
    case 4: iot_log_debug (l, "m%d %s", 7, arg); break;
    default: iot_log_trace (l, "m%d %s", 7, arg); break;
  }
  else if (how == 1) { iot_log_log (l, (iot_loglevel_t) lv, "m%d %s", 7, arg); }
  else iot_log__log (l, (iot_loglevel_t) lv, "m%d %s", 7, arg);
}
static int eff (const ref * r) { return r->state == 1 ? r->level : r->state == 0 && r->dirty ? -1 : 0; }
static void release (int i)
{
  if (--R[i].refs) return;
  R[i].alive = false;
  MC_CHECK (R[i].released == 1, "leak", "logger %d is not released with its last reference", i);
  if (R[i].next >= 0) release (R[i].next);
}
static void observe (void)
{
  want_msg = "m7 x";
  for (int i = 0; i < NL; i++)
  {
    MC_CHECK (R[i].released == !R[i].alive, "free", "logger %d %s", i, R[i].released ? "released while in use" : "not released");
    if (!R[i].alive || !R[i].user) continue;
    for (int lv = 1; lv <= 5; lv++) for (int how = 0; how < 3; how++)
    {
      int e = eff (&R[i]);
      if (how < 2 && e < 0) continue;
      say (R[i].l, how, lv, "x");
      int k = 0;
      bool gate = how == 2 || e >= lv;
      for (int j = i; gate && j >= 0; j = R[j].next)
      {
        int ej = eff (&R[j]);
        if (ej < 0) { if (k < ngot && got[k] == j) k++; continue; }
        if (ej < lv) continue;
        MC_CHECK (k < ngot && got[k] == j, "missing", "a message of level %s to logger %d did not reach logger %d, which is running at level %s", ln[lv], i, j, ln[ej]);
        k++;
      }
      if (k < ngot)
      {
        int j = got[k];
        mc_fail ("extra", "a message of level %s to logger %d reached logger %d (%s, level %s)", ln[lv], i, j, R[j].state == 1 ? "running" : R[j].state ? "stopped" : "never started", ln[R[j].level]);
      }
    }
  }
}
static uint64_t rhash (void)
{
  uint64_t h = 5;
  for (int i = 0; i < NL; i++) h = mc_mix (h, (uint64_t) (R[i].state | R[i].level << 4 | R[i].dirty << 8 | R[i].user << 9 | R[i].alive << 10 | R[i].refs << 12 | (R[i].next + 1) << 16));
  return h;
}
static bool fresh (void) { return mc_fresh () || mc_replaying (); }
#if ! FIB
static void s_hist (void)
{
  static const int lv0[] = { IOT_LOG_WARN, IOT_LOG_TRACE, IOT_LOG_NONE };
  int depth = (int) mc_param ("depth", 4);
  int starts = mc_choose (1 << NL), link = mc_choose (3);
  long live0 = mc_live ();
  last_ts = 0;
  memset (R, 0, sizeof (R));
  for (int i = NL - 1; i >= 0; i--)
  {
    ref * r = &R[i];
    r->level = lv0[(i + link) % 3]; r->state = starts >> i & 1; r->user = r->alive = true; r->next = -1; r->refs = 1;
    if (link == 1 && i + 1 < NL) { r->next = i + 1; R[i + 1].refs++; }
    r->l = iot_logger_alloc_custom ("L", (iot_loglevel_t) r->level, r->state, r->next >= 0 ? R[r->next].l : NULL, fn, (void *) (long) (i + 1), freectx);
    mc_log ("logger %d: level %s, %s, next %d\n", i, ln[r->level], r->state ? "started" : "not started", r->next);
  }
  if (link == 2) for (int i = 0; i + 1 < NL; i++) { iot_logger_set_next (R[i].l, R[i + 1].l); R[i].next = i + 1; R[i + 1].refs++; mc_log ("set_next (%d, %d)\n", i, i + 1); }
  if (fresh ()) observe ();
  for (int k = 0; k < depth; k++)
  {
    int op = mc_choose (7);
    int i = mc_choose (NL);
    ref * r = &R[i];
    if (!r->user) mc_prune ();
    mc_trans (1);
    switch (op)
    {
      case 0: { static const int lv[] = { IOT_LOG_NONE, IOT_LOG_ERROR, IOT_LOG_INFO, IOT_LOG_TRACE }; int v = lv[mc_choose (4)]; mc_log ("set_level (%d, %s)\n", i, ln[v]); iot_logger_set_level (r->l, (iot_loglevel_t) v); r->level = v; if (r->state == 0) r->dirty = true; break; }
      case 1: mc_log ("start (%d)\n", i); iot_logger_start (r->l); r->state = 1; r->dirty = false; break;
      case 2: mc_log ("stop (%d)\n", i); iot_logger_stop (r->l); r->state = 2; r->dirty = false; break;
      case 3: case 4:
      {
        int j = op == 3 ? -1 : i + 1 + mc_choose (NL - i);
        if (j >= NL) { j = r->next; if (j < 0) mc_prune (); } /* the same again, possibly only held by this chain */
        else if (j >= 0 && !R[j].user) mc_prune ();
        mc_log ("set_next (%d, %d)\n", i, j);
        iot_logger_set_next (r->l, j >= 0 ? R[j].l : NULL);
        int old = r->next;
        r->next = j; if (j >= 0) R[j].refs++;
        if (old >= 0) release (old);
        break;
      }
      case 5: mc_log ("free (%d)\n", i); iot_logger_free (r->l); r->user = false; release (i); break;
      case 6: mc_log ("add_ref, free (%d)\n", i); iot_logger_add_ref (r->l); iot_logger_free (r->l); break;
    }
    if (fresh ()) { observe (); mc_state (rhash ()); if (!mc_visit (mc_mix (rhash (), (uint64_t) (depth - k)))) break; }
  }
  for (int i = 0; i < NL; i++) if (R[i].user) { iot_logger_free (R[i].l); R[i].user = false; release (i); }
  for (int i = 0; i < NL; i++) MC_CHECK (!R[i].alive && R[i].released == 1, "leak", "logger %d is not released", i);
  long l = mc_live () - live0;
  MC_CHECK (l == 0, "leak", "%ld heap blocks remain", l);
}
/* the default logger, seen through a logger chained to it */
static void s_dflt (void)
{
  int depth = (int) mc_param ("depth", 5);
  iot_logger_t * d = iot_logger_default ();
  MC_CHECK (iot_logger_default () == d, "default", "more than one default logger");
  memset (R, 0, sizeof (R));
  last_ts = 0;
  R[0].alive = true; R[0].level = IOT_LOG_TRACE; R[0].state = 1; R[0].refs = 1;
  R[0].l = iot_logger_alloc_custom ("L", IOT_LOG_TRACE, true, NULL, fn, (void *) 1, freectx);
  fflush (stdout); fflush (stderr);
  int out = dup (1), err = dup (2), nul = open ("/dev/null", O_WRONLY);
  dup2 (nul, 1); dup2 (nul, 2);
  bool run = true; int level = IOT_LOG_WARN;
  iot_logger_set_next (d, R[0].l);
  iot_logger_set_level (d, IOT_LOG_WARN);
  iot_logger_start (d); iot_logger_set_level (d, IOT_LOG_WARN);
  char why[200] = "";
  for (int k = 0; k < depth && !*why; k++)
  {
    switch (mc_choose (k == depth - 1 ? 7 : 5))
    {
      case 5: mc_log ("stopped as a component\n"); if (!d->component.stop_fn) { snprintf (why, sizeof (why), "the default logger cannot be stopped as a component"); break; } d->component.stop_fn (&d->component); run = false; break;
      case 6: mc_log ("started as a component\n"); if (!d->component.start_fn) { snprintf (why, sizeof (why), "the default logger cannot be started as a component"); break; } d->component.start_fn (&d->component); run = true; break;
      case 0: mc_log ("start\n"); iot_logger_start (d); run = true; break;
      case 1: mc_log ("stop\n"); iot_logger_stop (d); run = false; break;
      case 2: mc_log ("set_level INFO\n"); iot_logger_set_level (d, IOT_LOG_INFO); level = IOT_LOG_INFO; break;
      case 3: mc_log ("set_level ERROR\n"); iot_logger_set_level (d, IOT_LOG_ERROR); level = IOT_LOG_ERROR; break;
      case 4: mc_log ("add_ref, free, free\n"); iot_logger_add_ref (d); iot_logger_free (d); iot_logger_free (d); break;
    }
    want_msg = "m7 y";
    for (int lv = 1; lv <= 5; lv++)
    {
      say (d, 0, lv, "y");
      if (ngot != (run && level >= lv)) snprintf (why, sizeof (why), "a message of level %s to the default logger (%s, level %s) was delivered %d times", ln[lv], run ? "running" : "stopped", ln[level], ngot);
    }
    mc_trans (1);
  }
  iot_logger_set_next (d, NULL);
  fflush (stdout); fflush (stderr);
  dup2 (out, 1); dup2 (err, 2); close (out); close (err); close (nul);
  if (*why) mc_fail ("default", "%s", why);
  iot_logger_free (R[0].l);
  MC_CHECK (R[0].released == 1, "leak", "the chained logger is not released");
}
/* level names */
static void s_names (void)
{
  int c = mc_choose (256), shape = mc_choose (4);
  char s[8] = { (char) c, 0, 0 };
  if (shape == 1) s[1] = 'x'; else if (shape == 2) { s[1] = 'E'; s[2] = 'r'; } else if (shape == 3) s[1] = ' ';
  int want = IOT_LOGLEVEL_DEFAULT;
  switch (toupper (c)) { case 'E': want = IOT_LOG_ERROR; break; case 'W': want = IOT_LOG_WARN; break; case 'I': want = IOT_LOG_INFO; break; case 'D': want = IOT_LOG_DEBUG; break; case 'T': want = IOT_LOG_TRACE; break; }
  int g = iot_logger_level_from_string (s);
  if (c) MC_CHECK (g == want, "name", "level name '%s' gives %d, expected %s", s, g, ln[want]);
  if (c == 0)
  {
    MC_CHECK (iot_logger_level_from_string (NULL) == IOT_LOGLEVEL_DEFAULT, "name", "no level name does not give the default");
    for (int l = 0; l < 6; l++)
    {
      char t[32]; snprintf (t, sizeof (t), "%s", iot_logger_level_to_string ((iot_loglevel_t) l));
      MC_CHECK (iot_logger_level_from_string (t) == (iot_loglevel_t) l, "name", "level %s does not survive its own name '%s'", ln[l], t);
      for (char * p = t; *p; p++) *p = (char) (isupper (*p) ? tolower (*p) : toupper (*p));
      MC_CHECK (iot_logger_level_from_string (t) == (iot_loglevel_t) l, "name", "level %s does not survive its own name '%s'", ln[l], t);
    }
  }
}
static const char * scratch (void) { const char * s = getenv ("MC_SCRATCH"); return s ? s : "/tmp"; }
static int udp_sock; static uint16_t udp_port;
static void udp_open (void)
{
  if (udp_sock) return;
  struct sockaddr_in a = { .sin_family = AF_INET };
  socklen_t n = sizeof (a);
  a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
  udp_sock = socket (AF_INET, SOCK_DGRAM, 0);
  bind (udp_sock, (struct sockaddr *) &a, sizeof (a));
  getsockname (udp_sock, (struct sockaddr *) &a, &n);
  udp_port = ntohs (a.sin_port);
}
/* what came out: for a sink */
static uint64_t time0, time1; static char thread_name[20];
static char obuf[16384]; static int olen;
static void check_lines (int sink, int n, int lv, const char * name, const char * msg, int mlen)
{
  static const char * const sn[] = { "file", "udp", "console" };
  char lvl[16]; snprintf (lvl, sizeof (lvl), ":%s]", iot_logger_level_to_string ((iot_loglevel_t) lv));
  if (n == 0) { MC_CHECK (olen == 0, "extra", "%s: a message that is not admitted was written", sn[sink]); return; }
  MC_CHECK (olen > 0, "missing", "%s: an admitted message was not written", sn[sink]);
  MC_CHECK (olen <= IOT_LOG_MSG_MAX, "length", "%s: %d bytes written for one message, maximum %d", sn[sink], olen, IOT_LOG_MSG_MAX);
  for (int i = 0; i < olen; i++) MC_CHECK (obuf[i] != 0, "content", "%s: byte %d of %d written is not part of the message", sn[sink], i, olen);
  obuf[olen] = 0;
  char * p = strstr (obuf, lvl);
  MC_CHECK (p && strstr (obuf, name), "content", "%s: level or logger name not in '%.80s'", sn[sink], obuf);
  if (*thread_name)
  {
    char head[64]; snprintf (head, sizeof (head), "[%s:", thread_name);
    MC_CHECK (!strncmp (obuf, head, strlen (head)), "content", "%s: logged by thread '%s', but written as '%.60s'", sn[sink], thread_name, obuf);
    uint64_t when = strtoull (obuf + strlen (head), NULL, 10);
    MC_CHECK (when + 1000000 >= time0 && when <= time1 + 1000000, "content", "%s: logged between %" PRIu64 " and %" PRIu64 ", but written as '%.60s'", sn[sink], time0, time1, obuf);
  }
  p += strlen (lvl) + 1;
  int k = (int) strlen (p);
  bool nl = k && p[k - 1] == '\n';
  if (nl) k--;
  MC_CHECK (k <= mlen && !strncmp (p, msg, (size_t) k), "content", "%s: text written is not the message: '%.60s'", sn[sink], p);
  if (mlen < 900) MC_CHECK (k == mlen && nl, "content", "%s: message of %d characters cut to %d", sn[sink], mlen, k);
  else MC_CHECK (k >= 900, "content", "%s: message of %d characters cut to %d", sn[sink], mlen, k);
}
static void s_sink (void)
{
  static const int lens[] = { 0, 1, 100, 850, 960, 980, 1000, 1010, 1020, 1022, 1023, 1024, 1100, 2000 };
  int sink = mc_choose (3), how = mc_choose (2), lv = 1 + mc_choose (5), at = mc_choose (6), mlen = lens[mc_choose (14)];
  if (mc_param ("all", 0)) mlen = 940 + mc_choose (100);
  if (sink == 2 && how) mc_prune ();
  static char msg[4096];
  for (int i = 0; i < mlen; i++) msg[i] = (char) ('a' + i % 26);
  msg[mlen] = 0;
  char path[256], cfg[512];
  static char sobuf[65536];
  setvbuf (stdout, sobuf, _IOFBF, sizeof (sobuf));
  iot_container_t * kc = iot_container_alloc ("kc");
  long live0 = mc_live ();
  snprintf (path, sizeof (path), "%s/log.%d", scratch (), (int) getpid ());
  unlink (path);
  udp_open ();
  mc_log ("%s, %s, logger level %s, message level %s, %d characters\n", sink == 0 ? "file" : sink == 1 ? "udp" : "console", how ? "from configuration" : "allocated", ln[at], ln[lv], mlen);
  iot_logger_t * l;
  iot_component_t * comp = NULL;
  if (how == 0)
  {
    if (sink == 0) l = iot_logger_alloc_file ("nm", (iot_loglevel_t) at, true, NULL, path);
    else if (sink == 1) l = iot_logger_alloc_udp ("nm", (iot_loglevel_t) at, true, NULL, "127.0.0.1", udp_port);
    else l = iot_logger_alloc ("nm", (iot_loglevel_t) at, true);
  }
  else
  {
    if (at == 0) mc_prune (); /* has no name of its own */
    if (sink == 0) snprintf (cfg, sizeof (cfg), "{\"Name\":\"nm\",\"To\":\"file:%s\",\"Level\":\"%s\"}", path, iot_logger_level_to_string ((iot_loglevel_t) at));
    else snprintf (cfg, sizeof (cfg), "{\"Name\":\"nm\",\"To\":\"udp:127.0.0.1:%d\",\"Level\":\"%s\"}", udp_port, iot_logger_level_to_string ((iot_loglevel_t) at));
    iot_data_t * m = iot_data_from_json (cfg);
    comp = iot_logger_factory ()->config_fn (kc, m);
    iot_data_free (m);
    l = (iot_logger_t *) comp;
    MC_CHECK (l, "config", "no logger from configuration %s", cfg);
  }
  int out = -1, err = -1, fd = -1;
  char path2[260], tname[20] = { 0 };
  snprintf (path2, sizeof (path2), "%s.2", path);
  int fd2 = -1;
  /* errors and warnings go to stderr, everything else to stdout */
  int mine = lv > IOT_LOG_WARN ? 1 : 2;
  if (sink == 2)
  {
    fflush (stdout); fflush (stderr); out = dup (1); err = dup (2);
    fd = open (path, O_CREAT | O_RDWR | O_TRUNC, 0600); fd2 = open (path2, O_CREAT | O_RDWR | O_TRUNC, 0600);
    dup2 (fd, mine); dup2 (fd2, 3 - mine);
  }
  prctl (PR_GET_NAME, tname);
  snprintf (thread_name, sizeof (thread_name), "%s", lv & 1 ? "t" : "a-longer-thread-name");
  prctl (PR_SET_NAME, thread_name);
  thread_name[15] = 0; /* as long as the system keeps */
  time0 = iot_time_nsecs () / 1000;
  iot_log_log (l, (iot_loglevel_t) lv, "%s", msg);
  time1 = iot_time_nsecs () / 1000;
  prctl (PR_SET_NAME, tname);
  struct stat st2 = { 0 };
  if (sink == 2) { fflush (stdout); fflush (stderr); dup2 (out, 1); dup2 (err, 2); close (out); close (err); close (fd); fstat (fd2, &st2); close (fd2); unlink (path2); }
  if (comp) iot_logger_factory ()->free_fn (comp); else iot_logger_free (l);
  if (sink == 1) { olen = (int) recv (udp_sock, obuf, sizeof (obuf) - 1, MSG_DONTWAIT); if (olen < 0) olen = 0; }
  else { fd = open (path, O_RDONLY); olen = fd < 0 ? 0 : (int) read (fd, obuf, sizeof (obuf) - 1); if (fd >= 0) close (fd); unlink (path); }
  check_lines (sink, at >= lv, lv, "nm", msg, mlen);
  *thread_name = 0;
  if (sink == 1) MC_CHECK (recv (udp_sock, obuf, sizeof (obuf) - 1, MSG_DONTWAIT) < 0, "extra", "udp: more than one datagram for one message");
  long n = mc_live () - live0;
  MC_CHECK (st2.st_size == 0, "stream", "a message of level %s was written to %s", ln[lv], mine == 1 ? "stderr" : "stdout");
  MC_CHECK (n <= 0, "leak", "%ld heap blocks remain", n);
  iot_container_free (kc);
  mc_outcome ((uint64_t) olen);
}
/* configuration: targets of any length, levels, start, reconfiguration, chains */
static void s_config (void)
{
  int kind = mc_choose (3);
  iot_container_t * kc = iot_container_alloc ("kc");
  long live0 = mc_live ();
  if (kind == 0) /* host and port texts */
  {
    static const char * const ports[] = { "1", "65535", "", "x", "99999999999" };
    int n = mc_choose (40), p = mc_choose (5);
    char cfg[256], host[64];
    for (int i = 0; i < n; i++) host[i] = i % 4 == 3 ? '.' : '1';
    host[n] = 0;
    snprintf (cfg, sizeof (cfg), "{\"Name\":\"nm\",\"To\":\"udp:%s:%s\"}", host, ports[p]);
    mc_log ("%s\n", cfg);
    iot_data_t * m = iot_data_from_json (cfg);
    iot_component_t * c = iot_logger_factory ()->config_fn (kc, m);
    iot_data_free (m);
    MC_CHECK (c, "config", "no logger from the configuration");
    iot_logger_factory ()->free_fn (c);
  }
  else if (kind == 1)
  {
    /* a logger under reconfiguration, with stops and starts between */
    bool start = mc_choose (2);
    static const char * const names[] = { "Error", "info", "TRACE", "Debug", "warn" };
    static const int nl[] = { 1, 3, 5, 4, 2 };
    int a = mc_choose (5);
    char cfg[256];
    snprintf (cfg, sizeof (cfg), "{\"Name\":\"nm\",\"Level\":\"%s\",\"Start\":%s}", names[a], start ? "true" : "false");
    mc_log ("%s\n", cfg);
    iot_data_t * m = iot_data_from_json (cfg);
    iot_component_t * c = iot_logger_factory ()->config_fn (kc, m);
    iot_data_free (m);
    MC_CHECK (c, "config", "no logger from the configuration");
    iot_logger_t * l = (iot_logger_t *) c;
    int st = start, lv = nl[a];
    bool dirty = false;
    for (int k = 0; k < 4; k++)
    {
      if (!(st == 0 && dirty)) for (int v = 1; v <= 5; v++) MC_CHECK ((l->level >= (iot_loglevel_t) v) == (st == 1 && lv >= v), "config-level", "logger that is %s with level %s %s messages of level %s", st == 1 ? "running" : "not running", ln[lv], st == 1 && lv >= v ? "does not admit" : "admits", ln[v]);
      switch (mc_choose (4))
      {
        case 0: mc_log ("start\n"); iot_logger_start (l); st = 1; dirty = false; break;
        case 1: mc_log ("stop\n"); iot_logger_stop (l); st = 2; dirty = false; break;
        default:
        {
          int b = mc_choose (5);
          snprintf (cfg, sizeof (cfg), "{\"Level\":\"%s\"}", names[b]);
          mc_log ("reconfigure %s\n", cfg);
          m = iot_data_from_json (cfg);
          MC_CHECK (iot_logger_factory ()->reconfig_fn (c, kc, m), "config", "reconfiguration refused");
          iot_data_free (m);
          lv = nl[b]; if (st == 0) dirty = true;
        }
      }
      mc_trans (1);
    }
    iot_logger_factory ()->free_fn (c);
  }
  else
  {
    /* chained by name, in either order of configuration; released by the container in either order */
    static const char * const chains[][2] = { { "{\"Name\":\"A\",\"Next\":\"b\",\"To\":\"file:%s.a\",\"Level\":\"Info\"}", "{\"Name\":\"B\",\"To\":\"file:%s.b\",\"Level\":\"%s\"}" } };
    static char text[2][512]; static int lb; static char path[256];
    static const char * const lbn[] = { "Error", "Info", "Trace" };
    lb = mc_choose (3);
    int lv = 1 + mc_choose (5);
    snprintf (path, sizeof (path), "%s/ch.%d", scratch (), (int) getpid ());
    snprintf (text[0], 512, chains[0][0], path); snprintf (text[1], 512, chains[0][1], path, lbn[lb]);
    iot_container_t * k = iot_container_alloc ("main");
    iot_component_factory_add (iot_logger_factory ());
    bool first = mc_choose (2);
    iot_container_add_component (k, IOT_LOGGER_TYPE, first ? "b" : "a", text[first]);
    iot_container_add_component (k, IOT_LOGGER_TYPE, first ? "a" : "b", text[!first]);
    iot_logger_t * l = (iot_logger_t *) iot_container_find_component (k, "a");
    MC_CHECK (l && iot_container_find_component (k, "b"), "config", "loggers not in the container");
    iot_log_log (l, (iot_loglevel_t) lv, "%s", "hello");
    bool early = mc_choose (2);
    if (early) iot_container_delete_component (k, first ? "b" : "a");
    iot_container_free (k);
    for (int f = 0; f < 2; f++)
    {
      char p[300]; snprintf (p, sizeof (p), "%s.%c", path, 'a' + f);
      int fd = open (p, O_RDONLY);
      olen = fd < 0 ? 0 : (int) read (fd, obuf, sizeof (obuf) - 1);
      if (fd >= 0) close (fd);
      unlink (p);
      static const int ll[] = { 1, 3, 5 };
      if (f == 1 && !first) continue; /* was not there yet when the first was made */
      check_lines (0, f == 0 ? lv <= 3 : lv <= 3 && ll[lb] >= lv, lv, f ? "B" : "A", "hello", 5);
    }
  }
  long n = mc_live () - live0;
  MC_CHECK (n <= 0, "leak", "%ld heap blocks remain", n);
  iot_container_free (kc);
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "hist", s_hist, "set_level, start, stop, set_next, free histories over a chain of three loggers" },
    { "dflt", s_dflt, "histories of the default logger" },
    { "names", s_names, "level names" },
    { "sink", s_sink, "file, console and udp loggers: every level pair, message lengths around the buffer size" },
    { "config", s_config, "loggers from configuration" },
  };
  return mc_main (argc, argv, sp, 5);
}
#else
/* ---------------------------------------------------------------- schedules */
static struct { void * fp; char text[64]; int th; } out[32]; static int nout;
static void hook (void * fp, const char * t, size_t n)
{
  MC_CHECK (nout < 32, "many", "output without end");
  out[nout].fp = fp; out[nout].th = fib_self ();
  size_t k = n > 63 ? 63 : n;
  memcpy (out[nout].text, t, k); out[nout].text[k] = 0;
  mc_log ("T%d writes %s", fib_self (), out[nout].text);
  nout++;
}
static iot_logger_t * sh[2];
static int nth;
static struct { char msg[16]; int n; } cnt[8];
static void cfn (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * msg, const void * ctx)
{
  fib_yield ();
  for (int i = 0; i < 8; i++) if (!strcmp (cnt[i].msg, msg)) { cnt[i].n++; return; }
  mc_fail ("message", "'%s' was never logged", msg);
}
static void t_log (void * a)
{
  int me = (int) (long) a;
  for (int k = 0; k < 2; k++) { char m[8] = { 'm', (char) ('0' + me * 2 + k), 0 }; iot_log_error (sh[0], "%s", m); }
}
static void s_share (void)
{
  nth = 2 + mc_choose (2);
  int kind = mc_choose (3);
  fib_output_hook = hook;
  for (int i = 0; i < 2 * nth; i++) { cnt[i].msg[0] = 'm'; cnt[i].msg[1] = (char) ('0' + i); }
  iot_logger_t * tail = kind == 2 ? iot_logger_alloc ("B", IOT_LOG_ERROR, true) : iot_logger_alloc_custom ("B", IOT_LOG_ERROR, true, NULL, cfn, NULL, NULL);
  sh[0] = kind == 0 ? iot_logger_alloc_file ("A", IOT_LOG_ERROR, true, tail, "/dev/null") : iot_logger_alloc ("A", IOT_LOG_ERROR, true);
  if (kind) iot_logger_set_next (sh[0], tail);
  iot_logger_free (tail);
  int t[4];
  for (int i = 0; i < nth; i++) t[i] = fib_thread (t_log, (void *) (long) i);
  for (int i = 0; i < nth; i++) fib_join (t[i]);
  iot_logger_free (sh[0]);
  /* each message once per sink, whole */
  int sinks = kind == 2 ? 2 : 1;
  for (int i = 0; i < 2 * nth; i++)
  {
    int na = 0, nb = 0;
    char end[8]; snprintf (end, sizeof (end), "] m%d\n", i);
    for (int j = 0; j < nout; j++) if (strstr (out[j].text, end)) { if (strstr (out[j].text, ":A:")) na++; else nb++; }
    MC_CHECK (na == 1 && nb == (kind == 2), "lost", "message m%d was written %d times by the first and %d times by the second logger", i, na, nb);
    if (kind < 2) MC_CHECK (cnt[i].n == 1, "lost", "message m%d reached the chained logger %d times", i, cnt[i].n);
  }
  MC_CHECK (nout == sinks * 2 * nth, "content", "%d writes for %d messages", nout, 2 * nth);
  uint64_t h = 0; for (int j = 0; j < nout; j++) h = mc_mix_str (h, out[j].text + (out[j].text[0] ? strlen (out[j].text) - 3 : 0));
  mc_outcome (h);
}
static void t_dflt (void * a)
{
  iot_logger_t * l = iot_logger_default ();
  MC_CHECK (l && l->level == IOT_LOG_WARN, "default", "the default logger is handed out before it is ready (level %d)", l ? (int) l->level : -1);
  sh[(long) a] = l;
  iot_log_error (l, "d%d", (int) (long) a);
}
static void s_first (void)
{
  fib_output_hook = hook;
  int t[2];
  for (int i = 0; i < 2; i++) t[i] = fib_thread (t_dflt, (void *) (long) i);
  for (int i = 0; i < 2; i++) fib_join (t[i]);
  MC_CHECK (sh[0] == sh[1] && nout == 2, "default", "%d messages written, 2 logged", nout);
  mc_outcome ((uint64_t) out[0].th);
}
/* a logger shared by owners that let go of it at different times */
static int freed;
static void fctx (void * c) { freed++; MC_CHECK (freed == 1, "free", "context released twice"); }
static void t_drop (void * a)
{
  iot_logger_t * l = sh[0];
  iot_log_error (l, "m%d", (int) (long) a);
  if (mc_choose (2)) { iot_logger_t * o = iot_logger_alloc_custom ("O", IOT_LOG_ERROR, true, l, cfn, NULL, NULL); iot_log_error (o, "m%d", (int) (long) a); iot_logger_free (o); }
  iot_logger_free (l);
}
static void s_drop (void)
{
  fib_output_hook = hook;
  nth = 2 + mc_choose (2);
  for (int i = 0; i < 4; i++) { cnt[i].msg[0] = 'm'; cnt[i].msg[1] = (char) ('0' + i); }
  sh[0] = iot_logger_alloc_custom ("S", IOT_LOG_ERROR, true, NULL, cfn, NULL, fctx);
  int t[4];
  for (int i = 1; i < nth; i++) iot_logger_add_ref (sh[0]);
  for (int i = 0; i < nth; i++) t[i] = fib_thread (t_drop, (void *) (long) i);
  for (int i = 0; i < nth; i++) fib_join (t[i]);
  MC_CHECK (freed == 1, "leak", "shared logger released %d times", freed);
}
int main (int argc, char ** argv)
{
  static const mc_space sp[] =
  {
    { "share", s_share, "threads logging through a shared chain: every message whole and once" },
    { "first", s_first, "first use of the default logger by two threads at once" },
    { "drop", s_drop, "owners of a shared logger letting go of it" },
  };
  return fib_main (argc, argv, sp, 3);
}
#endif
