// The world of threads: private worlds of types, data, modules and text run by several threads at once, over types and
// data they only read (C08), over types built before (C09) or over a module they generate IDL from (C14), each against the same thread running alone.
#include "conc.hpp"
#include "core.hpp"
#include "share.hpp"

#include <cstdio>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

using rt::FK;
using rt::Rng;

namespace {

enum Kind { DATA, MOD, TEXT, GEN, PARSE, NKINDS };
const char* const letters[NKINDS] = {"", "m.", "x.", "i.", "p."};

const char* sub_profile(int kind, const std::string& profile)
{
    return kind == DATA ? (profile == "C08" ? "conc08" : "conc09") : kind == MOD ? "C13" : kind == TEXT ? "C12" : kind == GEN ? "C14" : "C16";
}

struct Coding                       // opcode <-> thread, world and operation
{
    struct What { int thread; int kind; int code; };     // thread -1: preemption, kind -1: release of a shared type
    std::vector<What> what;
    std::vector<const char*> names;
    std::vector<std::string> store;
    std::vector<int> base[conc::MAX_THREADS + 1];
    int release[conc::MAX_THREADS + 1];
    int pre = 0;

    Coding()
    {
        store.reserve(1000);
        add("pre", {-1, 0, 0});
        for (int t = 0; t <= conc::MAX_THREADS; ++t)
        {
            std::string head = std::to_string(t) + ":";
            release[t] = add(head + "release", {t, -1, 0});
            for (int k = 0; k < NKINDS; ++k)
            {
                base[t].push_back(int(what.size()));
                auto& ops = world_of(sub_profile(k, "C09"))->ops;
                for (size_t i = 0; i < ops.size(); ++i)
                {
                    add(head + letters[k] + ops[i], {t, k, int(i)});
                }
            }
        }
    }

    int add(const std::string& name, What w)
    {
        store.push_back(name);
        names.push_back(store.back().c_str());
        what.push_back(w);
        return int(what.size()) - 1;
    }
};

const Coding& coding()
{
    static const Coding c;
    return c;
}

conc::Shared* shared_page()
{
    static conc::Shared* p = nullptr;
    if (!p)
    {
        p = static_cast<conc::Shared*>(mmap(nullptr, sizeof(conc::Shared), PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        conc::warm_up();
    }
    return p;
}

std::vector<Op> generate(const std::string& profile, u64 seed)
{
    const Coding& c = coding();
    bool readers = profile == "C08", generators = profile == "C14t", parsers = profile == "C16t";
    Rng r(rt::mix64(seed) ^ 0xc0cc);
    std::vector<Op> out;
    auto put = [&](int thread, int kind, std::vector<Op> ops, size_t skip, size_t max, bool faults)
            {
                for (size_t i = skip; i < ops.size() && i < skip + max; ++i)
                {
                    Op op = ops[i];
                    op.code += c.base[thread][kind];
                    if (!faults)
                    {
                        op.f = rt::Fault{};
                    }
                    if (op.f.kind == FK::SWEEP)
                    {
                        op.f.n = 12;
                    }
                    out.push_back(op);
                }
            };
    int n = r.chance(1, 2) ? 2 : r.chance(2, 3) ? 3 : 4;
    static const char* const makers[] = {"C03", "C04", "C05", "C06", "C10", "C07"};
    // operations of the world of IDL: those that build a module, or those that only read it
    auto idl_ops = [&](u64 s, bool reading)
            {
                auto k = world_of("C14");
                std::vector<Op> ops;
                for (int more = 0; more < 4; ++more)
                {
                    for (auto& op : k->generate("C14", s + u64(more)))
                    {
                        std::string n = k->ops[size_t(op.code)];
                        if ((n == "g.all" || n == "g.part") == reading && n != "g.one")
                        {
                            ops.push_back(op);
                        }
                    }
                }
                return ops;
            };
    if (generators)
    {
        put(0, GEN, idl_ops(r.next(), false), 0, 2 + r.below(9), false);
    }
    else if (parsers)
    {
    }
    else if (readers)
    {
        const char* p = makers[r.below(5)];
        put(0, DATA, world_of("conc08")->generate(p, r.next()), 0, 2 + r.below(5), false);
    }
    else if (r.chance(2, 3))
    {
        put(0, DATA, world_of("conc09")->generate("C07", r.next()), 0, 2 + r.below(6), false);
    }
    bool alike = r.chance(1, 2);
    u64 same_data = r.next(), same_mod = r.next(), same_text = r.next();
    for (int t = 1; t <= n; ++t)
    {
        if (generators)
        {
            put(t, GEN, idl_ops(r.next(), true), 0, 1 + r.below(2), r.chance(1, 3));
            continue;
        }
        if (parsers)
        {
            put(t, PARSE, world_of("C16")->generate("C16", alike ? same_data : r.next()), 0, 2 + r.below(5), false);
            if (r.chance(1, 4))
            {
                put(t, DATA, world_of("conc09")->generate("conc09", r.next()), 0, 2 + r.below(4), true);
            }
            continue;
        }
        u64 s = alike ? same_data : r.next(), m = alike ? same_mod : r.next(), x = alike ? same_text : r.next();
        if (!readers && r.chance(1, 4))
        {
            Op op;
            op.code = c.release[t];
            op.a = uint32_t(r.below(8));
            out.push_back(op);
        }
        const char* from = readers ? "conc08" : "conc09";
        put(t, DATA, world_of(from)->generate(from, s), readers && !r.chance(1, 4) ? 2 : 0, 2 + r.below(6), true);
        if (r.chance(1, readers ? 3 : 4))
        {
            put(t, TEXT, world_of("C12")->generate("C12", x), 0, 2 + r.below(4), true);
        }
        if (!readers && r.chance(1, 4))
        {
            put(t, MOD, world_of("C13")->generate("C13", m), 0, 3 + r.below(5), true);
        }
        if (!readers && r.chance(1, 8))
        {
            put(t, GEN, world_of("C14")->generate("C14", m), 0, 3 + r.below(6), true);
        }
        if (r.chance(1, 6))
        {
            put(t, DATA, world_of(from)->generate(from, r.next()), 2, 1 + r.below(3), true);
        }
    }
    int k = r.chance(1, 8) ? 0 : int(1 + r.below(r.chance(1, 3) ? 14 : 5));
    bool early = r.chance(1, 3);
    for (int i = 0; i < k; ++i)
    {
        Op op;
        op.code = c.pre;
        op.a = uint32_t(1 + r.below(u64(n)));
        op.b = uint32_t(r.below(early ? 3000 : 65536));
        op.c = uint32_t(1 + r.below(u64(n)));
        op.d = uint32_t(r.below(2));
        out.push_back(op);
    }
    return out;
}

class ConcWorld : public World
{
public:
    explicit ConcWorld(const std::string& profile) : profile_(profile) {}

    void step(const Op& op) override
    {
        const Coding::What& w = coding().what[size_t(op.code)];
        if (w.thread < 0)
        {
            if (op.a >= 1 && op.a <= conc::MAX_THREADS && op.b < 65536 && op.c <= conc::MAX_THREADS && op.d < 2)
            {
                pres_.push_back(conc::Pre{int(op.a), int(op.c), op.b, int(op.d)});
            }
        }
        else if (ops_[w.thread].size() < size_t(conc::MAX_OPS - 2))
        {
            ops_[w.thread].push_back(op);
        }
    }

    void finish() override
    {
        conc::Shared* out = shared_page();
        u64 counts[conc::MAX_THREADS + 1][2] = {};
        conc::Shared alone[conc::MAX_THREADS + 1];
        u64 live = 0;
        int threads = 0;
        for (int t = 1; t <= conc::MAX_THREADS; ++t)
        {
            if (ops_[t].empty())
            {
                continue;
            }
            ++threads;
            run(out, t, counts);
            tally(*out);
            if (out->failed)       // wrong by itself: other properties are about that
            {
                ++counters()["histories wrong without concurrency"];
                rt::note("alone, thread " + std::to_string(t) + ": " + out->cls + ": " + out->msg);
                rt::trace_num(77);
                return;
            }
            alone[t] = *out;
            counts[t][0] = out->events[t][0];
            counts[t][1] = out->events[t][1];
            live += out->live;
        }
        if (!threads)
        {
            return;
        }
        run(out, -1, counts);
        tally(*out);
        schedule_ = out->schedule;
        busy_ = out->preempted > 0;
        ++counters()[std::to_string(threads) + " threads"];
        counters()["preemptions"] += out->preempted;
        counters()["switches"] += out->switches;
        counters()["waits for a lock or an initialisation"] += out->blocked;
        counters()["accesses checked for races"] += out->accesses;
        counters()["atomic operations"] += out->atomics;
        rt::trace_num(out->schedule);
        rt::trace_num(out->switches);
        if (out->failed)
        {
            rt::fail(out->cls, std::string(out->msg) + " [thread " + std::to_string(out->at_thread) + ", operation "
                    + std::to_string(out->at_op) + "]");
        }
        for (int t = 1; t <= conc::MAX_THREADS; ++t)
        {
            if (ops_[t].empty())
            {
                continue;
            }
            for (int i = 0; i < alone[t].ndigest[t] || i < out->ndigest[t]; ++i)
            {
                rt::trace_num(out->digest[t][i]);
                if (i >= alone[t].ndigest[t] || i >= out->ndigest[t] || alone[t].digest[t][i] != out->digest[t][i])
                {
                    std::string op = size_t(i) < ops_[t].size() ? coding().names[size_t(ops_[t][size_t(i)].code)] : "the last checks";
                    rt::fail("result", "thread " + std::to_string(t) + " does not obtain in " + op + " (its operation "
                            + std::to_string(i) + ") what it obtains alone");
                }
            }
        }
        if (out->live > live)
        {
            rt::fail("leak", std::to_string(out->live) + " blocks stay allocated, " + std::to_string(live)
                    + " when the threads run alone");
        }
    }

    u64 state() override { return schedule_; }
    bool interesting() override { return busy_; }

private:
    std::string profile_;
    std::vector<Op> ops_[conc::MAX_THREADS + 1];
    std::vector<conc::Pre> pres_;
    u64 schedule_ = 0;
    bool busy_ = false;

    static void tally(const conc::Shared& o)
    {
        stats.steps += o.steps;
        stats.ops_ok += o.ok;
        stats.ops_refused += o.refused;
        stats.nomem += o.nomem;
        stats.retries += o.retries;
        stats.checks += o.checks;
        rt::alloc_stats.allocs += o.allocs;
        for (int i = 0; i < 5; ++i)
        {
            rt::alloc_stats.fired[i] += o.fired[i];
        }
    }

    void run(conc::Shared* out, int only, const u64 (*counts)[2])
    {
        memset(static_cast<void*>(out), 0, sizeof(*out));
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0)
        {
            rt::fail("harness", "fork");
        }
        if (pid == 0)
        {
            child(out, only, counts);
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0)
        {
        }
        if (!out->done)
        {
            out->failed = true;
            snprintf(out->cls, sizeof(out->cls), WIFSIGNALED(status) ? "signal%d" : "exit%d",
                    WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
            snprintf(out->msg, sizeof(out->msg), "the process ended");
        }
    }

    void guarded(const std::function<void()>& f)
    {
        try
        {
            f();
        }
        catch (const rt::Fail& e)
        {
            rt::disarm();
            conc::report(e.cls, e.msg);
        }
        catch (const std::exception& e)
        {
            rt::disarm();
            conc::report("exception", std::string("unexpected exception: ") + e.what());
        }
    }

    void child(conc::Shared* out, int only, const u64 (*counts)[2])
    {
        conc::begin(out);
        bool readers = profile_ == "C08", generators = profile_ == "C14t";
        auto make = [&](int kind)
                {
                    const char* p = sub_profile(kind, profile_);
                    return world_of(p)->make(p);
                };
        std::unique_ptr<World> base;
        std::unique_ptr<World> worlds[conc::MAX_THREADS + 1][NKINDS];
        int n = 0;
        for (int t = 1; t <= conc::MAX_THREADS; ++t)
        {
            n = ops_[t].empty() ? n : t;
        }
        guarded([&]()
                {
                    if (!ops_[0].empty())
                    {
                        int kind = generators ? GEN : DATA;
                        base = make(kind);
                        for (auto& op : ops_[0])
                        {
                            const Coding::What& w = coding().what[size_t(op.code)];
                            if (w.kind == kind)
                            {
                                Op sub = op;
                                sub.code = w.code;
                                base->step(sub);
                            }
                        }
                    }
                    for (int t = 1; t <= n; ++t)
                    {
                        if (!ops_[t].empty() && (only < 0 || only == t))
                        {
                            for (int k = 0; k < NKINDS; ++k)
                            {
                                bool used = false;
                                for (auto& op : ops_[t])
                                {
                                    used |= coding().what[size_t(op.code)].kind == k;
                                }
                                if (used && !generators)
                                {
                                    worlds[t][k] = make(k);
                                }
                            }
                            if (worlds[t][DATA] && base)
                            {
                                share(*base, *worlds[t][DATA], readers, unsigned(t));
                            }
                        }
                    }
                });
        std::vector<std::function<void()>> bodies(size_t(n), nullptr);
        for (int t = 1; t <= n; ++t)
        {
            if (ops_[t].empty() || (only >= 0 && only != t))
            {
                continue;
            }
            bodies[size_t(t - 1)] = [&, t]()
                    {
                        guarded([&]()
                        {
                            for (auto& op : ops_[t])
                            {
                                rt::trace_hash = 1;
                                const Coding::What& w = coding().what[size_t(op.code)];
                                if (rt::trace_print)
                                {
                                    rt::note(std::string("starts ") + coding().names[size_t(op.code)]);
                                }
                                if (w.kind < 0)
                                {
                                    // slots 1 and 3 can be released, each by one thread only
                                    size_t slot = op.a % 2 ? 3 : 1;
                                    if (base && int(slot / 2 % unsigned(n)) + 1 == t)
                                    {
                                        release_shared_type(*base, slot);
                                    }
                                }
                                else if (World* world = generators ? base.get() : worlds[t][w.kind].get())
                                {
                                    Op sub = op;
                                    sub.code = w.code;
                                    world->step(sub);
                                    ++stats.steps;
                                    rt::trace_num(world->state());
                                }
                                conc::op_done(rt::trace_hash);
                            }
                            rt::trace_hash = 1;
                            for (auto& w : worlds[t])
                            {
                                if (w)
                                {
                                    w->finish();
                                    rt::trace_num(w->state());
                                    w.reset();
                                }
                            }
                            conc::op_done(rt::trace_hash);
                        });
                    };
        }
        conc::run(bodies, pres_, counts);
        guarded([&]()
                {
                    if (base)
                    {
                        base->finish();
                        base.reset();
                    }
                });
        out->live = conc::live_blocks();
        conc::add_stats(out);
        conc::end();
    }
};

} // namespace

void register_conc()
{
    RegisterWorld("C08 C09 C14t C16t", WorldKind{"conc", coding().names,
                                       [](const std::string& p) -> std::unique_ptr<World> { return std::make_unique<ConcWorld>(p); },
                                       generate});
}

} // namespace sim
