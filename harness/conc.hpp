// Several real threads under one seeded scheduler: one runs at a time, preempted at instrumented memory accesses,
// with a happens-before race detector and an arena that tells freed and foreign memory apart.
#ifndef SIM_CONC_HPP_
#define SIM_CONC_HPP_

#include "rt.hpp"

#include <functional>
#include <string>
#include <vector>

namespace conc {

using rt::u64;

constexpr int MAX_THREADS = 4;      // workers; thread 0 is the one that sets up and checks
constexpr int MAX_OPS = 64;

struct Pre                          // thread `from` gives way to `to` at a share of its accesses
{
    int from = 0, to = 0;
    uint32_t frac = 0;              // of 65536
    int cls = 0;                    // 0: any access to memory that can be shared; 1: atomics, guards, locks, statics, frees
};

struct Shared                       // what a child process reports
{
    bool done, failed;
    char cls[64];
    char msg[1500];
    u64 digest[MAX_THREADS + 1][MAX_OPS];
    int ndigest[MAX_THREADS + 1];
    u64 events[MAX_THREADS + 1][2];
    u64 switches, preempted, accesses, atomics, races_checked, blocked, steps, ok, refused, nomem, retries, checks, allocs;
    u64 fired[5];
    u64 schedule;                   // hash of the sequence of switches
    u64 live;                       // blocks library code still holds after the last object is gone
    int at_thread, at_op;           // where the failure was met
};

// In a child process. Everything runs between begin() and the end of the process.
void begin(Shared* out);
void run(const std::vector<std::function<void()>>& bodies, const std::vector<Pre>& pres, const u64 (*counts)[2]);
void op_done(u64 digest);           // the current thread finished its next operation
void report(const std::string& cls, const std::string& msg);   // records a failure and ends the process
[[noreturn]] void end();
int self();
u64 live_blocks();
void add_stats(Shared* out);        // adds the thread's counters to out
void warm_up();                     // caches of the standard library that are no business of ours

} // namespace conc

#endif
