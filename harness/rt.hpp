// Simulator runtime: the one PRNG, the allocator seam with fault injection, failure reporting and counters.
#ifndef SIM_RT_HPP_
#define SIM_RT_HPP_

#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

#ifndef SIM_TLS
#define SIM_TLS          // thread_local where the simulator runs several threads
#endif

namespace rt {

using u64 = uint64_t;

// ---------------------------------------------------------------- randomness
inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0x5eedULL)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(u64(hi - lo) + 1)); }
};

// ---------------------------------------------------------------- faults
enum class FK : uint8_t { NONE = 0, NTH = 1, FROM = 2, BIG = 3, SWEEP = 4 };

struct Fault
{
    FK kind = FK::NONE;
    u64 n = 0;
};

const char* fault_name(FK k);

// ---------------------------------------------------------------- violations
struct Fail
{
    std::string cls;
    std::string msg;
};
[[noreturn]] void fail(const std::string& cls, const std::string& msg);

// ---------------------------------------------------------------- allocator seam
struct AllocStats
{
    u64 fired[5] = {0, 0, 0, 0, 0};
    u64 allocs = 0;
};
extern SIM_TLS AllocStats alloc_stats;

void arm(const Fault& f);        // library code runs from here on
bool disarm();                   // library code stops; true when the fault fired
u64 armed_count();               // allocations seen since arm()
bool is_armed();

struct Pause                     // harness code called back from library code
{
    bool was;
    Pause();
    ~Pause();
};

size_t tracked_live();           // blocks obtained by library code and not released yet
void tracked_reset();
std::string tracked_report();
const char* alloc_misuse();      // nullptr, or what was misused (mismatched delete...)

// ---------------------------------------------------------------- trace
extern SIM_TLS u64 trace_hash;
extern bool trace_print;
void note(const std::string& text);   // printed by verbose replays
void trace(const std::string& line);   // logs and hashes; never draws from a Rng
inline void trace_num(u64 v) { trace_hash = mix64(trace_hash ^ v); }

// ---------------------------------------------------------------- probes
extern SIM_TLS std::map<std::string, u64> probes;
inline void probe(const char* name, u64 n = 1) { probes[name] += n; }

void set_cpu_guard(int seconds);  // a run that burns more CPU than this ends the process with exit code 77

} // namespace rt

#endif
