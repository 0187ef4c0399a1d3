/*
 * Exhaustive choice-tree explorer used by every check.
 *
 * A "space" is a C function that drives the real library.  Every nondeterministic decision it makes
 * (which operation next, which argument, which thread runs, which environment answer) goes through
 * mc_choose (n).  The explorer runs the function once for every sequence of answers (depth first,
 * work shared between worker processes), so a completed space is an exhaustive enumeration.
 */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdarg.h>

typedef void (*mc_fn) (void);
typedef struct mc_space { const char * name; mc_fn fn; const char * what; } mc_space;

/* Choices: returns 0..n-1; every value is explored */
int mc_choose (int n);
/* Trace text of the current case (shown in replay files) */
void mc_log (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));
/* Violation: does not return (or unwinds to the end of the case if the finding is a listed one) */
void mc_fail (const char * key, const char * fmt, ...) __attribute__ ((format (printf, 2, 3), noreturn));
/* Is key a listed known finding? (Lets a harness skip an operation known to crash). Counts it as seen. */
bool mc_known (const char * key);
/* Abandon the current case silently (counted as pruned) */
void mc_prune (void) __attribute__ ((noreturn));
/* Record an observed state / a number of transitions / final outcome of the case */
void mc_state (uint64_t hash);
void mc_trans (uint64_t n);
/* State caching: is this point beyond the replayed prefix? has the state been seen? insert it (false if present) */
bool mc_fresh (void);
bool mc_seen (uint64_t hash);
bool mc_visit (uint64_t hash);
void mc_outcome (uint64_t hash);
/* Integer parameter of the run (NAME=VALUE arguments), by default dflt */
long mc_param (const char * name, long dflt);
const char * mc_param_str (const char * name, const char * dflt);
bool mc_replaying (void);

/* Heap accounting (ASan builds): number of live blocks */
long mc_live (void);

#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc_fail (key, __VA_ARGS__); } while (0)

static inline uint64_t mc_mix (uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
static inline uint64_t mc_mix_bytes (uint64_t h, const void * p, size_t n)
{
  const unsigned char * c = p;
  while (n--) h = mc_mix (h, *c++);
  return h;
}
static inline uint64_t mc_mix_str (uint64_t h, const char * s) { while (*s) h = mc_mix (h, (unsigned char) *s++); return mc_mix (h, 0xffff); }

/* Hooks for the fiber runtime */
extern void (*mc_exec_begin) (void);
extern void (*mc_exec_end) (void);
extern void (*mc_exec_run) (mc_fn fn);  /* how to run one case, by default fn () */
void * mc_shared_alloc (size_t size);   /* before fork: memory shared by workers, untouched by snapshots */
int mc_main (int argc, char ** argv, const mc_space * spaces, int nspaces);
/* multi-round support: called in the parent when a space completes; return true to run it again */
extern bool (*mc_space_again) (const char * name);
extern void (*mc_extra_stats) (void * file);
extern void (*mc_fail_params) (void * file); /* parameters a replay needs besides the choices */
extern uint64_t mc_case_no;
#endif
