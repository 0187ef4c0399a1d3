/* C12: time; C13: UUIDs, under every schedule, clock behaviour and weak compare-exchange failure within the bound */
#include "fib.h"
#include "iot/time.h"
#include "iot/uuid.h"
#include "iot/util.h"
#include "iot/data.h"
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/types.h>
/* ---------------------------------------------------------------------- C12 */
#define BASE 1000000000000000000ull
static uint64_t rd[64]; static int nrd; static struct { uint64_t r, t0, t1; int rd0, rd1, th; } call[16]; static int ncall;
static int myread[16][8], nmy[16]; static int domain;
static uint64_t hook (int clk)
{
  static const uint64_t v[] = { BASE, BASE + 1, BASE - 7, BASE + 50, BASE + 2, BASE - 1, BASE + 51 };
  uint64_t x = v[mc_choose (domain)];
  int t = fib_self ();
  MC_CHECK (clk == CLOCK_REALTIME, "clock", "clock %d is read for Unix time", clk);
  if (nmy[t] < 8) { rd[nrd] = x; myread[t][nmy[t]++] = nrd++; }
  mc_log ("T%d: clock reads %+lld\n", t, (long long) (x - BASE));
  return x;
}
static const char * const progs[][3] = { { "N", "N" }, { "NN", "N" }, { "NN", "NN" }, { "N", "N", "N" }, { "NNN", "N" }, { "NN", "N", "N" }, { "NNN" }, { "NNNN" } };
static int pc_;
static void body (void * a)
{
  for (const char * p = progs[pc_][(long) a]; *p; p++)
  {
    int t = fib_self (), i = ncall++;
    nmy[t] = 0;
    call[i].th = t; call[i].t1 = UINT64_MAX; call[i].t0 = fib_event ();
    uint64_t r = iot_time_nsecs ();
    call[i].r = r; call[i].t1 = fib_event ();
    mc_log ("T%d: timestamp %+lld\n", t, (long long) (r - BASE));
    uint64_t last = 0; bool own = false;
    for (int k = 0; k < nmy[t]; k++) { last = rd[myread[t][k]]; own |= last == r; }
    MC_CHECK (nmy[t] > 0, "reading", "timestamp without reading the clock");
    if (own) call[i].rd0 = 1; /* else must follow another timestamp */
    MC_CHECK (r >= last || own, "behind", "timestamp is behind the clock reading");
    mc_trans (1);
  }
}
static void s_mono (void)
{
  domain = (int) mc_param ("domain", 3); if (domain > 7) domain = 7;
  pc_ = mc_choose (sizeof (progs) / sizeof (progs[0]));
  size_t size = 0; for (int i = 0; i < 3 && progs[pc_][i]; i++) size += strlen (progs[pc_][i]);
  if ((long) size > mc_param ("small", 9)) mc_prune ();
  fib_weak (mc_param ("weak", 1));
  fib_clock_hook = hook;
  int t[3], n = 0;
  for (; n < 3 && progs[pc_][n]; n++) t[n] = fib_thread (body, (void *) (long) n);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  uint64_t h = 1;
  for (int i = 0; i < ncall; i++)
  {
    bool follows = false;
    for (int j = 0; j < ncall; j++)
    {
      if (j == i) continue;
      MC_CHECK (call[i].r != call[j].r, "unique", "timestamp %+lld is given out twice", (long long) (call[i].r - BASE));
      if (call[j].t1 < call[i].t0) MC_CHECK (call[j].r < call[i].r, "order", "timestamp %+lld is not greater than the earlier %+lld", (long long) (call[i].r - BASE), (long long) (call[j].r - BASE));
      follows |= call[j].r + 1 == call[i].r;
    }
    MC_CHECK (call[i].rd0 || follows, "tracks", "timestamp %+lld is neither the clock reading nor the successor of another timestamp", (long long) (call[i].r - BASE));
    h = mc_mix (h, call[i].r);
  }
  mc_outcome (h);
}
static uint64_t fixed_now; static uint64_t hookf (int c) { (void) c; return fixed_now; }
static void s_scale (void)
{
  static const uint64_t secs[] = { 0, 1, 2, 999, 1700000000ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 18446744072ull, 9000000000ull };
  static const uint64_t ns[] = { 0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 123456789, 500000000, 998999999, 999000000, 999999000, 999999999 };
  uint64_t s = secs[mc_choose (11)], n = ns[mc_choose (14)];
  fib_fixed (true);
  fixed_now = s * 1000000000ull + n; fib_clock_hook = hookf;
  mc_log ("clock at %llu.%09llu\n", (unsigned long long) s, (unsigned long long) n);
  MC_CHECK (iot_time_secs () == s, "scale", "seconds give %llu", (unsigned long long) iot_time_secs ());
  MC_CHECK (iot_time_msecs () == s * 1000ull + n / 1000000, "scale", "milliseconds give %llu", (unsigned long long) iot_time_msecs ());
  MC_CHECK (iot_time_usecs () == s * 1000000ull + n / 1000, "scale", "microseconds give %llu", (unsigned long long) iot_time_usecs ());
  uint64_t a = iot_time_nsecs (), b = iot_time_nsecs ();
  MC_CHECK (a == (fixed_now ? fixed_now : 1) && b == a + 1, "scale", "nanoseconds give %llu and %llu", (unsigned long long) a, (unsigned long long) b);
  mc_trans (5); mc_state (fixed_now); mc_outcome (fixed_now);
}
static void s_wait (void)
{
  static const uint64_t iv[] = { 0, 1, 2, 10, 999, 1000, 1001, 1999, 60000, 999999, 1000000, 1000001, 2500000, 4294967295ull, 4294967296ull };
  static const uint64_t unit[] = { 1000000000ull, 1000000ull, 1000ull };
  int u = mc_choose (3); uint64_t v = iv[mc_choose (15)];
  fib_fixed (true); fib_interrupts ((int) mc_param ("interrupts", 2));
  uint64_t before = fib_now ();
  mc_log ("wait %llu %s\n", (unsigned long long) v, u == 0 ? "s" : u == 1 ? "ms" : "us");
  if (u == 0) iot_wait_secs (v); else if (u == 1) iot_wait_msecs (v); else iot_wait_usecs (v);
  uint64_t d = fib_now () - before;
  MC_CHECK (d >= v * unit[u], "short", "waited only %llu ns", (unsigned long long) d);
  MC_CHECK (d <= v * unit[u] + 1000000, "long", "waited %llu ns", (unsigned long long) d);
  mc_trans (1); mc_state (v * 3 + (uint64_t) u); mc_outcome (d);
}
/* ---------------------------------------------------------------------- C13 */
static const char * const uprogs[][3] = { { "G", "G" }, { "GG", "G" }, { "GG", "GG" }, { "G", "G", "G" }, { "GGG", "GG" }, { "GG", "G", "G" }, { "a", "s" }, { "as", "G" } };
static uint8_t got[16][16]; static int ngot, nrand;
/* the system's random source, which may fail or give less at first */
ssize_t getrandom (void * p, size_t n, unsigned fl)
{
  (void) fl;
  int c = nrand < 3 ? mc_choose (3) : 0;
  nrand++;
  if (c == 1) { errno = EINTR; return -1; }
  if (c == 2) n /= 2;
  for (size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = (uint8_t) (0x35 + 41 * i + 7 * (size_t) nrand);
  return (ssize_t) n;
}
static void check_uuid (const uint8_t * u)
{
  MC_CHECK ((u[6] & 0xf0) == 0x40, "version", "version bits are %x", u[6] >> 4);
  MC_CHECK ((u[8] & 0xc0) == 0x80, "variant", "variant bits are %x", u[8] >> 6);
}
static void ubody (void * a)
{
  for (const char * p = uprogs[pc_][(long) a]; *p; p++)
  {
    uint8_t u[24]; memset (u, 0xaa, sizeof (u));
    if (*p == 'a') /* as an array */
    {
      iot_data_t * d = iot_data_alloc_uuid ();
      MC_CHECK (d && iot_data_type (d) == IOT_DATA_ARRAY && iot_data_array_type (d) == IOT_DATA_UINT8 && iot_data_array_length (d) == 16, "data", "UUID value of another shape");
      memcpy (u + 4, iot_data_address (d), 16);
      iot_data_free (d);
    }
    else if (*p == 's') /* as text */
    {
      iot_data_t * d = iot_data_alloc_uuid_string ();
      MC_CHECK (d && iot_data_type (d) == IOT_DATA_STRING && iot_util_string_is_uuid (iot_data_string (d)), "data", "UUID string of another shape");
      const char * t = iot_data_string (d);
      for (int k = 0; k < 16; k++) { while (*t == '-') t++; int x = 0; for (int c = 0; c < 2; c++, t++) x = x * 16 + (*t <= '9' ? *t - '0' : *t - 'a' + 10); u[4 + k] = (uint8_t) x; }
      iot_data_free (d);
    }
    else iot_uuid_generate (u + 4);
    for (int k = 0; k < 4; k++) MC_CHECK (u[k] == 0xaa && u[20 + k] == 0xaa, "overrun", "generation writes outside the UUID");
    memcpy (got[ngot++], u + 4, 16);
    mc_trans (1);
  }
}
static void s_gen (void)
{
  pc_ = mc_choose (sizeof (uprogs) / sizeof (uprogs[0]));
  int pre = mc_choose (2);
  fib_caching (false);
  for (int i = 0; i < pre; i++) { iot_uuid_generate (got[ngot]); ngot++; }
  int t[3], n = 0;
  for (; n < 3 && uprogs[pc_][n]; n++) t[n] = fib_thread (ubody, (void *) (long) n);
  for (int i = 0; i < n; i++) fib_join (t[i]);
  for (int i = 0; i < ngot; i++)
  {
    check_uuid (got[i]);
    /* neither the whole nor either half is shared: the generator hands each 64 bit half out once */
    for (int j = 0; j < i; j++)
    {
      MC_CHECK (memcmp (got[i], got[j], 16), "unique", "the same UUID is generated twice");
      MC_CHECK (memcmp (got[i], got[j], 6) && memcmp (got[i] + 9, got[j] + 9, 7), "mixed", "two UUIDs share a half");
    }
    int nz = 0; for (int k = 0; k < 16; k++) nz += got[i][k] == 0;
    MC_CHECK (nz < 8, "empty", "a UUID is mostly zero");
    char s[40], w[40]; int o = 0;
    memset (s, 'Z', sizeof (s));
    iot_uuid_unparse (got[i], s);
    for (int k = 0; k < 16; k++) o += snprintf (w + o, sizeof (w) - (size_t) o, "%s%02x", k == 4 || k == 6 || k == 8 || k == 10 ? "-" : "", got[i][k]);
    MC_CHECK (!strcmp (s, w) && iot_util_string_is_uuid (s), "text", "UUID rendered as %.36s instead of %s", s, w);
    mc_state (mc_mix_str (1, s));
  }
  mc_outcome ((uint64_t) (pc_ * 2 + pre));
}
static void s_text (void)
{
  fib_fixed (true);
  int pos = mc_choose (16), v = mc_choose (256), other = mc_choose (3) * 127;
  uint8_t u[16]; char * s = malloc (UUID_STR_LEN), w[40]; int o = 0;
  memset (u, other, sizeof (u)); u[pos] = (uint8_t) v;
  iot_uuid_unparse (u, s);
  for (int k = 0; k < 16; k++) o += snprintf (w + o, sizeof (w) - (size_t) o, "%s%02x", k == 4 || k == 6 || k == 8 || k == 10 ? "-" : "", u[k]);
  mc_log ("byte %d = %02x\n", pos, v);
  MC_CHECK (!strcmp (s, w), "text", "UUID rendered as %s instead of %s", s, w);
  MC_CHECK (iot_util_string_is_uuid (s), "check", "%s is not accepted", s);
  free (s);
  mc_trans (1); mc_state (mc_mix_str (1, w)); mc_outcome (mc_mix_str (1, w));
}
/* own definition of the shape */
static bool is_uuid (const char * s)
{
  static const char shape[] = "xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx";
  size_t i = 0;
  for (; s[i] && i < 36; i++)
  {
    bool hex = (s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f') || (s[i] >= 'A' && s[i] <= 'F');
    if (shape[i] == 'x' ? !hex : s[i] != '-') return false;
  }
  return i == 36 && !s[i];
}
static void s_check (void)
{
  static const char * const seed[] = { "01234567-89ab-cdef-ABCD-EF0123456789", "ffffffff-ffff-4fff-bfff-ffffffffffff" };
  fib_fixed (true);
  char s[64]; int kind = mc_choose (5);
  strcpy (s, seed[mc_choose (2)]);
  switch (kind)
  {
    case 0: { int p = mc_choose (36), c = 1 + mc_choose (255); s[p] = (char) c; } break; /* every character anywhere */
    case 1: s[mc_choose (37)] = 0; break;
    case 2: { int p = mc_choose (37); memmove (s + p + 1, s + p, strlen (s + p) + 1); static const char x[] = "0aG- {"; s[p] = x[mc_choose (6)]; } break;
    case 3: { int p = mc_choose (36); memmove (s + p, s + p + 1, strlen (s + p)); if (mc_choose (2)) strcat (s, "0"); } break;
    default: { int p = mc_choose (36), q = mc_choose (36); static const char x[] = "0fFgG-/:@`\x80"; s[p] = x[mc_choose (11)]; s[q] = x[mc_choose (11)]; } break;
  }
  char * t = strdup (s);
  mc_log ("check '%s'\n", s);
  bool r = iot_util_string_is_uuid (t), w = is_uuid (t);
  free (t);
  MC_CHECK (r == w, "check", "'%s' is %s", s, r ? "accepted" : "refused");
  MC_CHECK (!iot_util_string_is_uuid (NULL) && !iot_util_string_is_uuid (""), "check", "nothing is accepted as UUID");
  mc_trans (1); mc_state (mc_mix_str (1, s)); mc_outcome (w);
}
static const mc_space spaces[] = {
  { "mono", s_mono, "timestamps from several threads under every clock behaviour" },
  { "scale", s_scale, "units" },
  { "wait", s_wait, "waits, interrupted" },
  { "gen", s_gen, "UUIDs generated from several threads" },
  { "text", s_text, "every byte at every place" },
  { "check", s_check, "texts around the UUID shape" },
};
int main (int argc, char ** argv) { return fib_main (argc, argv, spaces, sizeof (spaces) / sizeof (spaces[0])); }
