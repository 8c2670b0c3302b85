#pragma once
enum { SCHED_ALL, SCHED_PARTIAL, SCHED_BAD, SCHED_DIVERGES };
// Runs body(0..threads-1) concurrently under every schedule; reset() before and finished() after each (0 = stop).
int sched_explore(int threads, int spurious, long max_runs, void (*reset)(), void (*body)(int), int (*finished)(), long* runs_out);
char const* sched_trace();
