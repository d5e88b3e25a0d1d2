// Histories: what a run is made of, and the interface every simulated world implements.
#ifndef SIM_CORE_HPP_
#define SIM_CORE_HPP_

#include "rt.hpp"

#include <memory>
#include <stdexcept>
#include <new>
#include <string>
#include <vector>

namespace sim {

using rt::u64;

struct Op
{
    int code = 0;
    uint32_t a = 0, b = 0, c = 0, d = 0;
    rt::Fault f;
    u64 seed() const { return rt::mix64(rt::mix64(rt::mix64(u64(code) << 32 | a) ^ b) ^ (u64(c) << 32 | d)); }
};

struct World
{
    virtual ~World() = default;
    virtual void step(const Op& op) = 0;      // throws rt::Fail
    virtual void finish() {}                  // last checks; releases everything
    virtual u64 state() { return 0; }
    virtual bool interesting() { return false; }   // the run counts as one that was interfered with
    bool leaks_count = false;
};

struct Flavor
{
    const char* world;                         // which world runs it
    std::vector<int> weights;                  // per opcode
};

// each world registers itself
struct WorldKind
{
    const char* name;
    std::vector<const char*> ops;
    std::unique_ptr<World> (*make)(const std::string& profile);
    std::vector<Op> (*generate)(const std::string& profile, u64 seed);
};
std::vector<WorldKind>& world_kinds();
const WorldKind* world_of(const std::string& profile);
struct RegisterWorld { RegisterWorld(const char* profiles, WorldKind k); };

// ---- library calls under faults
enum class Res { OK, REFUSED, NOMEM, OTHER };
struct Call
{
    Res res = Res::OK;
    bool fired = false;
    std::string what;
};

template<class F>
Call call(const rt::Fault& f, F&& lib)
{
    Call c;
    char what[400];
    what[0] = 0;
    auto keep = [&](const char* w) { size_t i = 0; for (; w[i] && i < sizeof(what) - 1; ++i) what[i] = w[i]; what[i] = 0; };
    rt::arm(f);
    try
    {
        lib();
        c.res = Res::OK;
    }
    catch (const rt::Fail&)
    {
        rt::disarm();
        throw;
    }
    catch (const std::bad_alloc&)
    {
        c.res = Res::NOMEM;
    }
    catch (const std::runtime_error& e)
    {
        c.res = Res::REFUSED;
        keep(e.what());
    }
    catch (const std::exception& e)
    {
        c.res = Res::OTHER;
        keep(e.what());
    }
    catch (...)
    {
        c.res = Res::OTHER;
        keep("something that is no std::exception");
    }
    c.fired = rt::disarm();
    c.what = what;
    return c;
}

// counters of the whole batch
struct Stats
{
    u64 runs = 0, steps = 0, ops_ok = 0, ops_refused = 0, nomem = 0, retries = 0, checks = 0;
    u64 runs_with_fault = 0, runs_with_refusal = 0;
};
extern SIM_TLS Stats stats;

std::map<std::string, u64>& counters();        // of the batch, reported in the evidence

enum class Expect { OK, REFUSE, NOMEM, ANY };

// How much an operation allocated is part of the trace, unless other threads can do part of the work.
inline void trace_work()
{
#ifndef SIM_CONC
    rt::trace_num(rt::armed_count());
#endif
}

// Runs `lib` under the faults of `op` until it ends without an injected one. `unchanged` is called after every
// injected failure and after a refusal; it throws when anything differs from what it was.
template<class F, class U>
Res attempt(const Op& op, Expect expect, const char* name, F&& lib, U&& unchanged)
{
    auto settle = [&](const Call& c)
            {
                bool ok = false;
                switch (c.res)
                {
                    case Res::OK: ok = expect == Expect::OK || expect == Expect::ANY; break;
                    case Res::REFUSED: ok = expect == Expect::REFUSE || expect == Expect::ANY; break;
                    case Res::NOMEM: ok = expect == Expect::NOMEM; break;
                    case Res::OTHER: ok = expect == Expect::REFUSE && !c.fired; break;
                }
                if (!ok)
                {
                    static const char* names[] = {"succeeded", "was refused", "ran out of memory", "threw"};
                    rt::fail("outcome", std::string(name) + " " + names[int(c.res)] + (c.fired ? " (after a fault)" : "")
                            + (c.what.empty() ? "" : ": " + c.what) + "; expected it to "
                            + (expect == Expect::OK ? "succeed" : expect == Expect::REFUSE ? "be refused" : "report bad_alloc"));
                }
                if (c.res != Res::OK)
                {
                    unchanged();
                    ++stats.ops_refused;
                    stats.nomem += c.res == Res::NOMEM;
                }
                else
                {
                    ++stats.ops_ok;
                }
                rt::trace_num(u64(c.res) + 10);
                return c.res;
            };
    if (op.f.kind != rt::FK::NONE)
    {
        u64 from = op.f.kind == rt::FK::SWEEP ? 1 : op.f.n;
        u64 to = op.f.n;
        for (u64 n = from; n <= to; ++n)
        {
            Call c = call(rt::Fault{op.f.kind, n}, lib);
            trace_work();
            if (c.res == Res::NOMEM && c.fired)
            {
                ++stats.nomem;
                rt::probe(name);
                unchanged();
                ++stats.retries;
                continue;
            }
            if (c.fired && c.res == Res::REFUSED && expect != Expect::REFUSE && expect != Expect::ANY)
            {
                rt::fail("outcome", std::string(name) + " was refused instead of reporting bad_alloc: " + c.what);
            }
            return settle(c);
        }
    }
    Call c = call(rt::Fault{}, lib);
    trace_work();
    return settle(c);
}

} // namespace sim

#endif
