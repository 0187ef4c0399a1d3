/*
 * Controlled scheduler for the real library code.
 *
 * The library is compiled with -fsanitize=thread but linked against this runtime instead of libtsan, and
 * its pthread / time / heap calls are redirected here (-Wl,--wrap).  Threads are fibers of one OS thread;
 * every synchronisation operation and atomic access is a scheduling point, and mc_choose () picks the
 * next thread.  Time is virtual.  The heap never reuses memory within an execution, so that any access to
 * freed memory is seen.
 */
#ifndef FIB_H
#define FIB_H
#include "mc.h"
#include <pthread.h>
#include <time.h>

/* Deviation budget (preemptions, early timers, spurious wakeups, weak CAS failures); set per space */
void fib_bound (int preemptions);
void fib_spurious (bool on);        /* spurious condition wake-ups are explored too */
void fib_weak (bool on);            /* spurious weak compare-exchange failures are explored */
void fib_timers (bool on);          /* early timer expiry is explored (default on) */
void fib_horizon (int steps);       /* steps before an execution counts as livelocked */
void fib_leak_check (bool on);      /* default on: all heap released at the end */
void fib_allow_blocked (bool on);   /* threads may remain blocked at the end */
void fib_fixed (bool on);            /* deterministic set-up: no scheduling choices while on */
void fib_racy_points (bool on);     /* conflicting unsynchronised accesses become scheduling points (further rounds) */

int fib_thread (void (*fn) (void *), void * arg); /* returns thread number */
void fib_join (int t);
int fib_self (void);
void fib_quiesce (void);            /* wait until no other thread can run (timers do not count) */
void fib_sleep_until (uint64_t ns);
void fib_yield (void);              /* a plain scheduling point */
bool fib_finished (int t);
bool fib_is_blocked (int t);        /* not enabled now */
uint64_t fib_now (void);            /* virtual nanoseconds since the epoch */
/* State caching: a point reached with the same happens-before history of every thread and the same harness
   data is explored once.  Harness code is instrumented, so that values it reads from its own static data become
   part of the reader's history; fib_event () is a global event counter, fib_note () adds any other observation. */
uint64_t fib_event (void);
void fib_note (uint64_t v);
void fib_caching (bool on);
long fib_live (void);               /* live heap blocks beyond those at start */
bool fib_addr_live (const void * p);
int fib_threads_alive (void);       /* other than the caller */
/* clock hook: if set, supplies clock_gettime values */
extern uint64_t (*fib_clock_hook) (int clk);
extern int (*fib_create_hook) (const pthread_attr_t * a); /* if set, consulted for every pthread_create: 0 or an error */
extern int (*fib_priority_hook) (int prio);               /* likewise for pthread_setschedparam */
extern int fib_euid;                /* what geteuid () gives */
int fib_priority (void);            /* of the calling thread */
extern void (*fib_output_hook) (void * file, const char * text, size_t n); /* stdio output of the library (always a scheduling point) */
void fib_interrupts (int n);         /* up to n sleeps are interrupted by signals: every way is explored */
int fib_main (int argc, char ** argv, const mc_space * spaces, int n);
int fib_choose (int n);
#ifndef FIB_RUNTIME
#define mc_choose(n) fib_choose (n)
#endif
#define FIB_EPOCH 1700000000000000000ull
#endif
