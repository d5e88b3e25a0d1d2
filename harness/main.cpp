// Command line of the simulator: batches of seeds, the history of a seed, replays.
#include "core.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

SIM_TLS Stats stats;

std::vector<WorldKind>& world_kinds()
{
    static std::vector<WorldKind> v;
    return v;
}

static std::map<std::string, size_t>& profiles()
{
    static std::map<std::string, size_t> m;
    return m;
}

RegisterWorld::RegisterWorld(const char* names, WorldKind k)
{
    world_kinds().push_back(k);
    std::istringstream in(names);
    std::string n;
    while (in >> n)
    {
        profiles()[n] = world_kinds().size() - 1;
    }
}

const WorldKind* world_of(const std::string& profile)
{
    auto it = profiles().find(profile);
    return it == profiles().end() ? nullptr : &world_kinds()[it->second];
}

struct Outcome
{
    bool failed = false;
    std::string cls, msg;
    int step = -1;
    u64 hash = 0;
};

static std::unordered_set<u64> g_states, g_runs;

std::map<std::string, u64>& counters()
{
    static std::map<std::string, u64> m;
    return m;
}

static std::string extra_counters()
{
    std::string s;
    for (auto& e : counters())
    {
        s += (s.empty() ? "" : ",") + ("\"" + e.first + "\":") + std::to_string(e.second);
    }
    return s.empty() ? s : ",\"extra\":{" + s + "}";
}

static Outcome run_history(const WorldKind& k, const std::string& profile, const std::vector<Op>& ops, bool count)
{
    Outcome o;
    rt::trace_hash = 0x1234567;
    rt::tracked_reset();
    rt::set_cpu_guard(20);
    u64 fired0 = 0;
    for (int i = 0; i < 5; ++i)
    {
        fired0 += rt::alloc_stats.fired[i];
    }
    u64 refused0 = stats.ops_refused;
    bool leaks = false, interesting = false;
    auto guarded = [&](auto&& f)
            {
                try
                {
                    f();
                }
                catch (const rt::Fail& e)
                {
                    rt::disarm();
                    o.failed = true;
                    o.cls = e.cls;
                    o.msg = e.msg;
                }
                catch (const std::exception& e)
                {
                    rt::disarm();
                    o.failed = true;
                    o.cls = "exception";
                    o.msg = std::string("unexpected exception: ") + e.what();
                }
            };
    {
        std::unique_ptr<World> w = k.make(profile);
        leaks = w->leaks_count;
        for (size_t i = 0; i < ops.size() && !o.failed; ++i)
        {
            o.step = int(i);
            if (rt::trace_print)
            {
                printf("step %zu: %s %u %u %u %u fault=%s/%llu\n", i, k.ops[ops[i].code], ops[i].a, ops[i].b, ops[i].c,
                        ops[i].d, rt::fault_name(ops[i].f.kind), (unsigned long long)ops[i].f.n);
                fflush(stdout);
            }
            guarded([&]()
                    {
                        w->step(ops[i]);
                        ++stats.steps;
                        u64 s = w->state();
                        rt::trace_num(s);
                        if (count && g_states.size() < 400000)
                        {
                            g_states.insert(s);
                        }
                    });
            if (!o.failed && rt::alloc_misuse() && leaks)
            {
                o.failed = true;
                o.cls = "memory";
                o.msg = rt::alloc_misuse();
            }
        }
        if (!o.failed)
        {
            o.step = int(ops.size());
            guarded([&]() { w->finish(); });
            if (count && !o.failed && g_states.size() < 400000)
            {
                g_states.insert(w->state());
            }
            interesting = w->interesting();
        }
    }
    if (!o.failed && leaks)
    {
        if (rt::alloc_misuse())
        {
            o.failed = true;
            o.cls = "memory";
            o.msg = rt::alloc_misuse();
        }
        else if (rt::tracked_live())
        {
            o.failed = true;
            o.cls = "leak";
            o.msg = "still allocated after the last object is gone: " + rt::tracked_report();
        }
    }
    o.hash = rt::trace_hash;
    if (count)
    {
        u64 fired1 = 0;
        for (int i = 0; i < 5; ++i)
        {
            fired1 += rt::alloc_stats.fired[i];
        }
        ++stats.runs;
        stats.runs_with_fault += fired1 > fired0;
        stats.runs_with_refusal += stats.ops_refused > refused0;
        if (fired1 > fired0 || stats.ops_refused > refused0 || interesting)
        {
            g_runs.insert(o.hash);
        }
    }
    return o;
}

// What the first use of the library keeps for good (static objects, the runtime's caches) is no leak: a history that
// leaves memory behind is run once more.
static Outcome run_settled(const WorldKind& k, const std::string& profile, const std::vector<Op>& ops, bool count)
{
    Outcome o = run_history(k, profile, ops, count);
    if (o.failed && o.cls == "leak")
    {
        o = run_history(k, profile, ops, false);
    }
    return o;
}

static std::string op_line(const WorldKind& k, const Op& op)
{
    char buf[200];
    snprintf(buf, sizeof(buf), "%s %u %u %u %u %s %llu", k.ops[op.code], op.a, op.b, op.c, op.d,
            rt::fault_name(op.f.kind), (unsigned long long)op.f.n);
    return buf;
}

static bool parse_history(const char* file, std::string& profile, std::vector<Op>& ops)
{
    std::ifstream in(file);
    std::string line;
    const WorldKind* k = nullptr;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#')
        {
            continue;
        }
        std::istringstream ls(line);
        std::string word;
        ls >> word;
        if (word == "profile")
        {
            ls >> profile;
            k = world_of(profile);
            if (!k)
            {
                return false;
            }
            continue;
        }
        if (!k)
        {
            return false;
        }
        Op op;
        op.code = -1;
        for (size_t i = 0; i < k->ops.size(); ++i)
        {
            if (word == k->ops[i])
            {
                op.code = int(i);
            }
        }
        std::string fk;
        u64 n = 0;
        ls >> op.a >> op.b >> op.c >> op.d >> fk >> n;
        if (op.code < 0 || !ls)
        {
            return false;
        }
        for (int i = 0; i < 5; ++i)
        {
            if (fk == rt::fault_name(rt::FK(i)))
            {
                op.f.kind = rt::FK(i);
            }
        }
        op.f.n = n;
        ops.push_back(op);
    }
    return k != nullptr;
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

static std::string one_line(std::string s)
{
    for (char& c : s)
    {
        if (c == '\n' || c == '\r')
        {
            c = ' ';
        }
    }
    return s;
}

} // namespace sim

using namespace sim;

#ifdef SIM_CONC
namespace sim { void register_conc(); }
#endif

int main(int argc, char** argv)
{
#ifdef SIM_CONC
    register_conc();
#endif
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "gen" && argc == 4)
    {
        const WorldKind* k = world_of(argv[2]);
        printf("profile %s\n", argv[2]);
        for (auto& op : k->generate(argv[2], strtoull(argv[3], nullptr, 10)))
        {
            printf("%s\n", op_line(*k, op).c_str());
        }
        return 0;
    }
    if (cmd == "replay" && argc >= 3)
    {
        std::string profile;
        std::vector<Op> ops;
        if (!parse_history(argv[2], profile, ops))
        {
            fprintf(stderr, "bad replay file\n");
            return 2;
        }
        rt::trace_print = argc > 3;
        Outcome o = run_settled(*world_of(profile), profile, ops, true);
        printf("%s step=%d hash=%016llx cls=%s msg=%s\n", o.failed ? "FAIL" : "PASS", o.step,
                (unsigned long long)o.hash, o.cls.c_str(), one_line(o.msg).c_str());
        return o.failed ? 1 : 0;
    }
    if (cmd == "hashes" && argc == 5)   // determinism: one line per seed
    {
        const WorldKind* k = world_of(argv[2]);
        u64 s0 = strtoull(argv[3], nullptr, 10);
        for (u64 i = 0, n = strtoull(argv[4], nullptr, 10); i < n; ++i)
        {
            Outcome o = run_settled(*k, argv[2], k->generate(argv[2], s0 + i), true);
            printf("%llu %016llx %d\n", (unsigned long long)(s0 + i), (unsigned long long)o.hash, int(o.failed));
        }
        return 0;
    }
    if (cmd == "batch" && argc == 9)
    {
        // batch PROFILE FIRST STRIDE MAX SECONDS STATUS OUT: seeds FIRST, FIRST+STRIDE... until MAX runs or SECONDS
        const WorldKind* k = world_of(argv[2]);
        std::string profile = argv[2];
        u64 seed = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10);
        u64 max = strtoull(argv[5], nullptr, 10);
        double until = now() + atof(argv[6]);
        int status = open(argv[7], O_CREAT | O_TRUNC | O_WRONLY, 0644);
        int rc = 0;
        Outcome bad;
        u64 bad_seed = 0, last_seed = seed;
        double started = now();
        for (u64 i = 0; i < max && now() < until; ++i, seed += stride)
        {
            last_seed = seed;
            if (pwrite(status, &seed, sizeof(seed), 0) != sizeof(seed))
            {
                return 3;
            }
            auto ops = k->generate(profile, seed);
            Outcome o = run_settled(*k, profile, ops, true);
            if (o.failed)
            {
                bad = o;
                bad_seed = seed;
                rc = 1;
                break;
            }
        }
        std::ofstream out(argv[8]);
        out << "{\"runs\":" << stats.runs << ",\"steps\":" << stats.steps << ",\"ok\":" << stats.ops_ok
            << ",\"refused\":" << stats.ops_refused << ",\"nomem\":" << stats.nomem << ",\"retries\":" << stats.retries
            << ",\"runs_with_fault\":" << stats.runs_with_fault << ",\"runs_with_refusal\":" << stats.runs_with_refusal
            << ",\"allocs\":" << rt::alloc_stats.allocs << extra_counters() << ",\"seconds\":" << now() - started
            << ",\"last_seed\":" << last_seed << ",\"fired\":{";
        for (int i = 1; i < 5; ++i)
        {
            out << (i > 1 ? "," : "") << '"' << rt::fault_name(rt::FK(i)) << "\":" << rt::alloc_stats.fired[i];
        }
        out << "},\"probes\":{";
        bool first = true;
        for (auto& p : rt::probes)
        {
            out << (first ? "" : ",") << '"' << p.first << "\":" << p.second;
            first = false;
        }
        out << "},\"fail\":" << (rc ? "true" : "false") << ",\"fail_seed\":" << bad_seed << "}\n";
        out.close();
        auto dump = [&](const char* suffix, const std::unordered_set<u64>& set)
                {
                    std::ofstream f(std::string(argv[8]) + suffix, std::ios::binary);
                    for (u64 h : set)
                    {
                        f.write(reinterpret_cast<const char*>(&h), sizeof(h));
                    }
                };
        dump(".states", g_states);
        dump(".runs", g_runs);
        if (rc)
        {
            printf("FAIL seed=%llu step=%d hash=%016llx cls=%s msg=%s\n", (unsigned long long)bad_seed, bad.step,
                    (unsigned long long)bad.hash, bad.cls.c_str(), one_line(bad.msg).c_str());
        }
        return rc;
    }
    fprintf(stderr, "usage: sim gen|replay|hashes|batch ...\n");
    return 2;
}
