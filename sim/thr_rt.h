// The thread simulator: real threads of which one runs at a time, with a seeded scheduler at
// every memory access of the library, and a happens-before check of those accesses.
#pragma once
#include <cstdint>
#include <vector>
void thr_begin(int n, uint64_t sched, const std::vector<int64_t> &preempt);
void thr_spawn(int tid, void (*fn)(int));      // tid 1..n; runs when thr_run is called
void thr_run();                                // returns when all have finished
void thr_op(int op);                           // the calling thread starts this step of the plan
void thr_stats(uint64_t &steps, uint64_t &switches, uint64_t &checked, uint64_t &hot);
