// A controlled scheduler: one thread runs at a time, and which one runs next is
// decided at every scheduling point by a recorded sequence of choices.
#ifndef SCHED_H
#define SCHED_H
#include <stdbool.h>
#include <stddef.h>
void sched_point(void);
void sched_yield_point(void);
// A choice of 0..n-1 that is explored like the choice of a thread
int sched_choose(int n);
// Append to the log of events (printf-style; events are JSON objects)
void sched_event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool sched_active(void);
void sched_leave(void);
void sched_bad(void);
extern void (*sched_hook)(void);
int sched_self(void);
extern bool sched_may_die;
// Explore executions of scenario(arg): with at most `bound` preemptions, and then
// `nrandom` random ones; prints each different log once, as {"st":STATUS,"ev":[...]}.
// STATUS: "ok", "deadlock", "stuck", "signal N" or "exit N".
void sched_explore(void (*scenario)(void *), void *arg, int bound, long max, long nrandom, unsigned seed);
#endif
