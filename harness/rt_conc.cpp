// Runtime of the simulator of threads. Compiled without instrumentation; it answers the calls that clang's
// -fsanitize=thread puts before every memory access, and decides there which thread goes on.
#include "conc.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <iomanip>
#include <linux/futex.h>
#include <locale>
#include <new>
#include <pthread.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include "core.hpp"

namespace rt {

SIM_TLS AllocStats alloc_stats;
SIM_TLS u64 trace_hash = 0;
bool trace_print = false;
SIM_TLS std::map<std::string, u64> probes;

} // namespace rt

namespace conc {

using rt::Fault;
using rt::FK;

namespace {

constexpr int N = MAX_THREADS + 1;
typedef uint32_t u32;
typedef uintptr_t up;

// ------------------------------------------------------------------ shadow memory
// Per byte: the last write and the last read. bit 31 freed / inflated, 30..28 thread, 27 atomic, 26..0 clock
struct Cell { u32 w, r; };
constexpr u32 TOP = 1u << 31, ATOMIC = 1u << 27, CLK = ATOMIC - 1;
constexpr up ARENA = 0x200000000000ULL;
constexpr size_t ARENA_SIZE = size_t(3) << 30;
constexpr size_t SIZE_CAP = size_t(64) << 20;

inline u32 tid_of(u32 e) { return (e >> 28) & 7; }
inline u32 clk_of(u32 e) { return e & CLK; }

Cell* g_arena_cells = nullptr;
Cell* g_data_cells = nullptr;
up g_data = 0, g_data_end = 0;
up g_next = ARENA;
u32 (*g_many)[8] = nullptr;           // reads by several threads
u32 g_nmany = 0;
constexpr u32 MANY_MAX = 4u << 20;

bool g_on = false;                    // in a child process
bool g_running = false;               // workers exist
Shared* g_out = nullptr;

struct VC { u32 c[8]; };
inline void join(VC& a, const VC& b) { for (int i = 0; i < N; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Thread
{
    VC vc, pending, fence;
    bool has_fence = false;
    u64 ev[2] = {0, 0}, next[2] = {ULLONG_MAX, ULLONG_MAX};
    std::vector<std::pair<u64, int>>* plan[2] = {nullptr, nullptr};
    size_t at[2] = {0, 0};
    bool alive = false, blocked = false;
    std::function<void()> body;
    pthread_t handle;
    int ops = 0;
    // the allocator seam
    bool armed = false, fired = false;
    Fault fault;
    u64 count = 0;
};

Thread g_t[N];
int g_cur = 0;
std::atomic<int> g_go[N];
u64 g_quantum = 0, g_total = 0, g_stuck = 0;
constexpr u64 QUANTUM = 400000, TOTAL = 400u << 20;

Thread& cur() { return g_t[g_cur]; }

u32 epoch() { return u32(g_cur) << 28 | cur().vc.c[g_cur]; }

// ------------------------------------------------------------------ switching
void futex_wait(std::atomic<int>& a)
{
    while (a.exchange(0) == 0)
    {
        syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
}

void futex_wake(std::atomic<int>& a)
{
    a.store(1);
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void hand_to(int n, bool wait)
{
    int saved = errno, me = g_cur;
    g_out->schedule = rt::mix64(g_out->schedule ^ u64(n) ^ u64(me) << 8 ^ u64(g_t[me].ops) << 16 ^ g_t[me].ev[0] << 24);
    ++g_out->switches;
    g_quantum = 0;
    g_cur = n;
    futex_wake(g_go[n]);
    if (wait)
    {
        futex_wait(g_go[me]);
    }
    errno = saved;
}

// the next thread that can go on, preferring those that do not wait for something; -1: no other one
int other(int want = -1)
{
    if (want > 0 && want < N && want != g_cur && g_t[want].alive && !g_t[want].blocked)
    {
        return want;
    }
    for (int pass = 0; pass < 2; ++pass)
    {
        for (int k = 1; k < N; ++k)
        {
            int n = 1 + (g_cur - 1 + k) % MAX_THREADS;
            if (n != g_cur && g_t[n].alive && (pass || !g_t[n].blocked))
            {
                return n;
            }
        }
    }
    return -1;
}

void preempt(int want, bool planned)
{
    int n = other(want);
    if (n > 0)
    {
        g_out->preempted += planned;
        hand_to(n, true);
    }
}

void plan_next(Thread& t, int cls)
{
    auto* p = t.plan[cls];
    t.next[cls] = p && t.at[cls] < p->size() ? (*p)[t.at[cls]].first : ULLONG_MAX;
}

inline void tick(bool special)
{
    if (!g_running)
    {
        return;
    }
    Thread& t = cur();
    g_stuck = 0;
    int want = -1;
    bool p = false;
    if (++t.ev[0] >= t.next[0])
    {
        p = true;
        want = (*t.plan[0])[t.at[0]++].second;
        plan_next(t, 0);
    }
    if (special && ++t.ev[1] >= t.next[1])
    {
        p = true;
        want = (*t.plan[1])[t.at[1]++].second;
        plan_next(t, 1);
    }
    if (p)
    {
        preempt(want, true);
    }
    else if (++g_quantum > QUANTUM)
    {
        g_quantum = 0;
        preempt(-1, false);
    }
    if (++g_total > TOTAL)
    {
        report("hang", "the threads made no end");
    }
}

// waits for another thread; the caller checks again afterwards
void wait_turn(const char* what)
{
    Thread& t = cur();
    t.blocked = true;
    ++g_out->blocked;
    int n = other();
    if (n < 0 || ++g_stuck > 4 * N)
    {
        report("deadlock", std::string("every thread waits; this one for ") + what);
    }
    hand_to(n, true);
    t.blocked = false;
}

// ------------------------------------------------------------------ what went wrong, where
std::string demangled(const char* name)
{
    int status = 0;
    char* d = abi::__cxa_demangle(name, nullptr, nullptr, &status);
    std::string s = status == 0 && d ? d : name;
    free(d);
    return s;
}

std::string short_name(std::string s)
{
    for (const char* cut : {"eprosima::xtypes::", "eprosima::", "std::__cxx11::", "[abi:cxx11]"})
    {
        for (size_t p; (p = s.find(cut)) != std::string::npos;)
        {
            s.erase(p, strlen(cut));
        }
    }
    return s.size() > 220 ? s.substr(0, 217) + "..." : s;
}

std::string where()
{
    void* pcs[48];
    int n = backtrace(pcs, 48);
    std::string out;
    int got = 0;
    for (int i = 0; i < n && got < 3; ++i)
    {
        Dl_info d;
        if (dladdr(pcs[i], &d) && d.dli_sname)
        {
            std::string s = demangled(d.dli_sname);
            if (s.find("eprosima") != std::string::npos && s.find("sim::") != 0 && s.find(" sim::") == std::string::npos)
            {
                out += (got++ ? " < " : "") + short_name(s);
            }
        }
    }
    return out.empty() ? "the standard library" : out;
}

std::string place(up a)
{
    char buf[160];
    if (a >= ARENA && a < g_next)
    {
        return "memory from operator new";
    }
    Dl_info d;
    if (dladdr(reinterpret_cast<void*>(a), &d) && d.dli_sname)
    {
        return "static " + short_name(demangled(d.dli_sname));
    }
    snprintf(buf, sizeof(buf), "a static object");
    return buf;
}

[[noreturn]] void race(up a, size_t n, bool write, u32 e, bool other_wrote)
{
    g_running = false;
    g_on = false;
    char buf[200];
    snprintf(buf, sizeof(buf), "thread %d %s %zu bytes that thread %u %s without anything ordering the two: ", g_cur,
            write ? "writes" : "reads", n, tid_of(e), other_wrote ? "wrote" : "read");
    report("race", buf + place(a) + " in " + where());
    end();
}

[[noreturn]] void bad_memory(up, size_t n, bool write, const char* what)
{
    g_running = false;
    g_on = false;
    char buf[200];
    snprintf(buf, sizeof(buf), "thread %d %s %zu bytes %s in ", g_cur, write ? "writes" : "reads", n, what);
    report("memory", buf + where());
    end();
}

inline Cell* cells(up a, bool& arena)
{
    if (a - ARENA < ARENA_SIZE)
    {
        arena = true;
        return g_arena_cells + (a - ARENA);
    }
    arena = false;
    if (a - g_data < g_data_end - g_data)
    {
        return g_data_cells + (a - g_data);
    }
    return nullptr;
}

inline bool before(u32 e) { return tid_of(e) == u32(g_cur) || clk_of(e) <= cur().vc.c[tid_of(e)]; }

template<bool WRITE, bool ATOM>
void check(up a, size_t n, Cell* c, bool arena)
{
    u32 me = epoch() | (ATOM ? ATOMIC : 0);
    ++g_out->accesses;
    for (size_t i = 0; i < n; ++i)
    {
        u32 w = c[i].w, r = c[i].r;
        if (arena)
        {
            if (w == 0)
            {
                bad_memory(a, n, WRITE, "outside any block");
            }
            if (w & TOP)
            {
                bad_memory(a, n, WRITE, "of a released block");
            }
        }
        if (w && !before(w) && !(ATOM && (w & ATOMIC)))
        {
            race(a, n, WRITE, w, true);
        }
        if (WRITE)
        {
            if (r & TOP)
            {
                u32* many = g_many[r & ~TOP];
                for (int t = 0; t < N; ++t)
                {
                    if (many[t] && !before(many[t]) && !(ATOM && (many[t] & ATOMIC)))
                    {
                        race(a, n, true, many[t], false);
                    }
                }
            }
            else if (r && !before(r) && !(ATOM && (r & ATOMIC)))
            {
                race(a, n, true, r, false);
            }
            c[i].w = me;
            c[i].r = 0;
        }
        else if (r != me)
        {
            if (r & TOP)
            {
                g_many[r & ~TOP][g_cur] = me;
            }
            else if (r == 0 || (before(r) && !(ATOM && !(r & ATOMIC) && clk_of(r) == clk_of(me))))
            {
                c[i].r = me;
            }
            else if (tid_of(r) != u32(g_cur))
            {
                if (g_nmany == MANY_MAX)
                {
                    continue;
                }
                u32* many = g_many[g_nmany];
                memset(many, 0, sizeof(g_many[0]));
                many[tid_of(r)] = r;
                many[g_cur] = me;
                c[i].r = TOP | g_nmany++;
            }
        }
    }
}

template<bool WRITE>
inline void plain(up a, size_t n)
{
    if (!g_on)
    {
        return;
    }
    bool arena;
    Cell* c = cells(a, arena);
    if (!c)
    {
        return;
    }
    tick(!arena);
    check<WRITE, false>(a, n, c, arena);
}

// ------------------------------------------------------------------ synchronisation
struct Sync
{
    VC vc{};
    int owner = 0;        // locks: thread + 1
    int depth = 0;
    int readers[N] = {};
};

struct Slot { up a; Sync* s; };
Slot* g_sync = nullptr;               // open addressing; never shrinks
size_t g_sync_cap = 0, g_sync_used = 0;

Sync& sync_of(up a)
{
    if ((g_sync_used + 1) * 2 > g_sync_cap)
    {
        Slot* old = g_sync;
        size_t n = g_sync_cap;
        g_sync_cap = n ? n * 2 : 4096;
        g_sync = static_cast<Slot*>(calloc(g_sync_cap, sizeof(Slot)));
        for (size_t k = 0; k < n; ++k)
        {
            if (old[k].a)
            {
                size_t i = rt::mix64(old[k].a) & (g_sync_cap - 1);
                while (g_sync[i].a)
                {
                    i = (i + 1) & (g_sync_cap - 1);
                }
                g_sync[i] = old[k];
            }
        }
        free(old);
    }
    size_t i = rt::mix64(a) & (g_sync_cap - 1);
    while (g_sync[i].a && g_sync[i].a != a)
    {
        i = (i + 1) & (g_sync_cap - 1);
    }
    if (!g_sync[i].a)
    {
        g_sync[i].a = a;
        g_sync[i].s = static_cast<Sync*>(calloc(1, sizeof(Sync)));
        ++g_sync_used;
    }
    return *g_sync[i].s;
}

void acquire(const VC& v) { join(cur().vc, v); }
void bump() { ++cur().vc.c[g_cur]; }
void release(VC& v)
{
    join(v, cur().vc);
    bump();
}

bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void atomic_before(up a, size_t n, bool write)
{
    if (!g_on)
    {
        return;
    }
    ++g_out->atomics;
    bool arena;
    Cell* c = cells(a, arena);
    tick(true);
    if (c)
    {
        if (write)
        {
            check<true, true>(a, n, c, arena);
        }
        else
        {
            check<false, true>(a, n, c, arena);
        }
    }
}

void atomic_after(up a, int mo, bool read, bool write)
{
    if (!g_on)
    {
        return;
    }
    Sync& s = sync_of(a);
    if (read)
    {
        if (acquires(mo))
        {
            acquire(s.vc);
        }
        else
        {
            join(cur().pending, s.vc);
        }
    }
    if (write)
    {
        if (releases(mo))
        {
            release(s.vc);
        }
        else if (cur().has_fence)
        {
            join(s.vc, cur().fence);
        }
    }
}

void fence(int mo)
{
    if (!g_on)
    {
        return;
    }
    tick(true);
    if (acquires(mo))
    {
        acquire(cur().pending);
    }
    if (releases(mo))
    {
        cur().fence = cur().vc;
        cur().has_fence = true;
        bump();
    }
}

// ------------------------------------------------------------------ memory
struct Header
{
    u64 size;
    u32 magic;
    uint8_t array, library;
    uint8_t pad[2];
};
static_assert(sizeof(Header) == 16, "");
constexpr u32 MAGIC = 0xb10cb10c, GONE = 0xdeadb10c;
u64 g_live = 0;

bool should_fail(size_t size)
{
    Thread& t = cur();
    if (size > SIZE_CAP)
    {
        if (t.armed)
        {
            ++rt::alloc_stats.fired[int(FK::BIG)];
            t.fired = true;
        }
        return true;
    }
    if (!t.armed)
    {
        return false;
    }
    ++t.count;
    ++rt::alloc_stats.allocs;
    bool f = false;
    switch (t.fault.kind)
    {
        case FK::NTH:
        case FK::SWEEP: f = t.count == t.fault.n; break;
        case FK::FROM: f = t.count >= t.fault.n; break;
        case FK::BIG: f = size >= t.fault.n; break;
        default: break;
    }
    if (f)
    {
        ++rt::alloc_stats.fired[int(t.fault.kind)];
        t.fired = true;
    }
    return f;
}

void* take(size_t size, bool array)
{
    if (!g_on)
    {
        return size > SIZE_CAP ? nullptr : malloc(size ? size : 1);
    }
    if (should_fail(size))
    {
        return nullptr;
    }
    size_t room = (size + 15) / 16 * 16 + 32;
    if (g_next + room > ARENA + ARENA_SIZE)
    {
        report("harness", "the arena is used up");
    }
    auto* h = reinterpret_cast<Header*>(g_next);
    h->size = size;
    h->magic = MAGIC;
    h->array = array;
    h->library = cur().armed;
    g_live += h->library;
    up p = g_next + 16;
    g_next += room;
    Cell* c = g_arena_cells + (p - ARENA);
    u32 me = epoch();
    for (size_t i = 0; i < size; ++i)
    {
        c[i].w = me;
    }
    return reinterpret_cast<void*>(p);
}

void give(void* v, bool array, bool sized, size_t size)
{
    if (!v)
    {
        return;
    }
    up p = up(v);
    if (p - ARENA >= ARENA_SIZE)
    {
        free(v);
        return;
    }
    auto* h = reinterpret_cast<Header*>(p - 16);
    if (!g_on)
    {
        return;
    }
    tick(true);
    if (h->magic != MAGIC)
    {
        g_running = g_on = false;
        report("memory", std::string(h->magic == GONE ? "a block is released twice in " : "what is released is no block in ") + where());
    }
    if (bool(h->array) != array || (sized && h->size != size))
    {
        g_running = g_on = false;
        report("memory", "a block is released with the wrong form or size in " + where());
    }
    Cell* c = g_arena_cells + (p - ARENA);
    check<true, false>(p, h->size, c, true);
    for (size_t i = 0; i < h->size; ++i)
    {
        c[i].w |= TOP;
    }
    g_live -= h->library;
    h->magic = GONE;
}

void on_cpu(int)
{
    if (g_out)
    {
        g_out->done = g_out->failed = true;
        strcpy(g_out->cls, "hang");
        strcpy(g_out->msg, "the run used up its processor time");
    }
    _exit(77);
}

void* worker(void* arg)
{
    int id = int(intptr_t(arg));
    futex_wait(g_go[id]);
    g_t[id].body();
    add_stats(g_out);
    join(g_t[0].vc, g_t[id].vc);
    g_t[id].alive = false;
    int n = other();
    hand_to(n > 0 ? n : 0, false);
    for (;;)
    {
        futex_wait(g_go[id]);     // stays: what threads do when they end is not simulated
    }
    return nullptr;
}

template<class F>
F real(const char* name, F)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

} // namespace

// ------------------------------------------------------------------ interface
extern "C" char __data_start, _end;

void begin(Shared* out)
{
    g_out = out;
    auto map = [](size_t n, up at)
            {
                void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
                if (p == MAP_FAILED)
                {
                    report("harness", "no address space");
                }
                return p;
            };
    map(ARENA_SIZE, ARENA);
    g_arena_cells = static_cast<Cell*>(map(ARENA_SIZE * sizeof(Cell), 0));
    g_data = up(&__data_start);
    g_data_end = up(&_end);
    g_data_cells = static_cast<Cell*>(map((g_data_end - g_data) * sizeof(Cell), 0));
    g_many = static_cast<u32 (*)[8]>(map(MANY_MAX * sizeof(g_many[0]), 0));
    sim::stats = sim::Stats();
    rt::alloc_stats = rt::AllocStats();
    g_t[0].vc.c[0] = 1;
    signal(SIGVTALRM, on_cpu);
    itimerval t{};
    t.it_value.tv_sec = 40;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    g_on = true;
}

void run(const std::vector<std::function<void()>>& bodies, const std::vector<Pre>& pres, const u64 (*counts)[2])
{
    g_on = false;
    size_t n = bodies.size();
    bool any = false;
    for (size_t i = 0; i < n; ++i)
    {
        if (!bodies[i])
        {
            continue;
        }
        any = true;
        Thread& t = g_t[i + 1];
        t.vc = g_t[0].vc;
        t.vc.c[i + 1] = 1;
        t.body = bodies[i];
        t.alive = true;
        for (int cls = 0; cls < 2; ++cls)
        {
            t.plan[cls] = new std::vector<std::pair<u64, int>>();
            for (auto& p : pres)
            {
                if (p.from == int(i + 1) && p.cls == cls)
                {
                    t.plan[cls]->push_back({1 + counts[i + 1][cls] * p.frac / 65536, p.to});
                }
            }
            std::stable_sort(t.plan[cls]->begin(), t.plan[cls]->end(),
                    [](const std::pair<u64, int>& a, const std::pair<u64, int>& b) { return a.first < b.first; });
            plan_next(t, cls);
        }
        if (pthread_create(&t.handle, nullptr, worker, reinterpret_cast<void*>(intptr_t(i + 1))) != 0)
        {
            report("harness", "no thread");
        }
    }
    ++g_t[0].vc.c[0];
    if (any)
    {
        g_cur = 0;
        int first = 1;
        while (!g_t[first].alive)
        {
            ++first;
        }
        g_cur = first;
        g_running = true;
        g_on = true;
        futex_wake(g_go[first]);
        futex_wait(g_go[0]);
        g_running = false;
        g_cur = 0;
    }
    g_on = true;
    for (int i = 1; i < N; ++i)
    {
        g_out->events[i][0] = g_t[i].ev[0];
        g_out->events[i][1] = g_t[i].ev[1];
    }
}

void op_done(u64 digest)
{
    Thread& t = cur();
    if (t.ops < MAX_OPS)
    {
        g_out->digest[g_cur][t.ops] = digest;
        g_out->ndigest[g_cur] = ++t.ops;
    }
}

int self() { return g_cur; }
u64 live_blocks() { return g_live; }

void report(const std::string& cls, const std::string& msg)
{
    g_on = g_running = false;
    g_out->failed = true;
    g_out->at_thread = g_cur;
    g_out->at_op = cur().ops;
    snprintf(g_out->cls, sizeof(g_out->cls), "%s", cls.c_str());
    snprintf(g_out->msg, sizeof(g_out->msg), "%s", msg.c_str());
    end();
}

void end()
{
    g_out->done = true;
    _exit(0);
}

void add_stats(Shared* o)
{
    o->steps += sim::stats.steps;
    o->ok += sim::stats.ops_ok;
    o->refused += sim::stats.ops_refused;
    o->nomem += sim::stats.nomem;
    o->retries += sim::stats.retries;
    o->checks += sim::stats.checks;
    o->allocs += rt::alloc_stats.allocs;
    for (int i = 0; i < 5; ++i)
    {
        o->fired[i] += rt::alloc_stats.fired[i];
    }
    sim::stats = sim::Stats();
    rt::alloc_stats = rt::AllocStats();
}

void warm_up()
{
    std::ostringstream o;
    o << 1 << ' ' << 2.5 << ' ' << std::hex << 255u << std::setw(9) << std::setprecision(4) << 1.25L << ' ' << 'c' << true
      << std::boolalpha << false << std::endl;
    std::wostringstream w;
    w << 1 << L' ' << 2.5 << L' ' << std::hex << 255u << std::setw(9) << 1.25L << L' ' << L'c' << true << std::boolalpha << false
      << std::endl;
    std::istringstream i("12 2.5 x");
    int n;
    double d;
    char c;
    i >> n >> d >> c;
    std::wistringstream j(L"12 2.5 x");
    wchar_t k;
    j >> n >> d >> k;
    std::locale l;
    auto name = l.name();
    std::use_facet<std::ctype<char>>(l).narrow('x', 'y');
    char narrow[4] = "abc", to[4];
    std::use_facet<std::ctype<char>>(l).narrow(narrow, narrow + 3, '?', to);
    std::use_facet<std::ctype<char>>(l).widen(narrow, narrow + 3, to);
    void* pcs[4];
    backtrace(pcs, 4);
    try
    {
        throw std::runtime_error("x");
    }
    catch (const std::exception&)
    {
    }
}

} // namespace conc

// ------------------------------------------------------------------ the seam towards the worlds
namespace rt {

void note(const std::string& text)
{
    if (trace_print)
    {
        bool on = conc::g_on;
        conc::g_on = false;
        printf("    [%d] %s\n", conc::g_cur, text.c_str());
        fflush(stdout);
        conc::g_on = on;
    }
}

const char* fault_name(FK k)
{
    switch (k)
    {
        case FK::NONE: return "none";
        case FK::NTH: return "nth";
        case FK::FROM: return "from";
        case FK::BIG: return "big";
        case FK::SWEEP: return "sweep";
    }
    return "?";
}

void fail(const std::string& cls, const std::string& msg) { throw Fail{cls, msg}; }

void arm(const Fault& f)
{
    conc::Thread& t = conc::cur();
    t.fault = f;
    t.count = 0;
    t.fired = false;
    t.armed = true;
}

bool disarm()
{
    conc::cur().armed = false;
    return conc::cur().fired;
}

u64 armed_count() { return conc::cur().count; }
bool is_armed() { return conc::cur().armed; }
Pause::Pause() : was(is_armed()) { conc::cur().armed = false; }
Pause::~Pause() { conc::cur().armed = was; }
size_t tracked_live() { return 0; }
void tracked_reset() {}
std::string tracked_report() { return ""; }
const char* alloc_misuse() { return nullptr; }

void trace(const std::string& line)
{
    for (unsigned char c : line)
    {
        trace_hash = (trace_hash ^ c) * 0x100000001b3ULL;
    }
    trace_hash = mix64(trace_hash);
}

void set_cpu_guard(int) {}

} // namespace rt

void* operator new(size_t n)
{
    void* p = conc::take(n, false);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    void* p = conc::take(n, true);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return conc::take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return conc::take(n, true); }
void operator delete(void* p) noexcept { conc::give(p, false, false, 0); }
void operator delete[](void* p) noexcept { conc::give(p, true, false, 0); }
void operator delete(void* p, size_t n) noexcept { conc::give(p, false, true, n); }
void operator delete[](void* p, size_t n) noexcept { conc::give(p, true, true, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { conc::give(p, false, false, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { conc::give(p, true, false, 0); }

// ------------------------------------------------------------------ instrumentation
using conc::up;
#define RW(n) \
    void __tsan_read##n(void* a) { conc::plain<false>(up(a), n); } \
    void __tsan_write##n(void* a) { conc::plain<true>(up(a), n); } \
    void __tsan_unaligned_read##n(void* a) { conc::plain<false>(up(a), n); } \
    void __tsan_unaligned_write##n(void* a) { conc::plain<true>(up(a), n); } \
    void __tsan_read_write##n(void* a) { conc::plain<true>(up(a), n); } \
    void __tsan_unaligned_read_write##n(void* a) { conc::plain<true>(up(a), n); }

#define ATOMIC_OPS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) \
    { \
        conc::atomic_before(up(a), sizeof(T), false); \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        conc::atomic_after(up(a), mo, true, false); \
        return v; \
    } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) \
    { \
        conc::atomic_before(up(a), sizeof(T), true); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
        conc::atomic_after(up(a), mo, false, true); \
    } \
    RMW(bits, T, exchange, __atomic_exchange_n) \
    RMW(bits, T, fetch_add, __atomic_fetch_add) \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub) \
    RMW(bits, T, fetch_and, __atomic_fetch_and) \
    RMW(bits, T, fetch_or, __atomic_fetch_or) \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor) \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand) \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
    { \
        conc::atomic_before(up(a), sizeof(T), true); \
        bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        conc::atomic_after(up(a), ok ? mo : fmo, true, ok); \
        return c; \
    } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        T was = *c, got = __tsan_atomic##bits##_compare_exchange_val(a, was, v, mo, fmo); \
        if (got != was) *c = got; \
        return got == was; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); \
    }
#define RMW(bits, T, name, builtin) \
    T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) \
    { \
        conc::atomic_before(up(a), sizeof(T), true); \
        T r = builtin(a, v, __ATOMIC_SEQ_CST); \
        conc::atomic_after(up(a), mo, true, true); \
        return r; \
    }

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** a) { conc::plain<false>(up(a), 8); }
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v)
    {
        conc::plain<true>(up(a), 8);
    }
}
void __tsan_read_range(void* a, unsigned long n) { if (n) conc::plain<false>(up(a), n); }
void __tsan_write_range(void* a, unsigned long n) { if (n) conc::plain<true>(up(a), n); }
// what the library reads from the pipe of a preprocessor
size_t __real_fread(void* to, size_t size, size_t n, FILE* f);
size_t __wrap_fread(void* to, size_t size, size_t n, FILE* f)
{
    if (size * n)
    {
        conc::plain<true>(up(to), size * n);
    }
    return __real_fread(to, size, n, f);
}
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{
    if (n)
    {
        conc::plain<false>(up(s), n);
        conc::plain<true>(up(d), n);
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n)
{
    if (n)
    {
        conc::plain<false>(up(s), n);
        conc::plain<true>(up(d), n);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n)
{
    if (n)
    {
        conc::plain<true>(up(d), n);
    }
    return memset(d, c, n);
}
ATOMIC_OPS(8, uint8_t)
ATOMIC_OPS(16, uint16_t)
ATOMIC_OPS(32, uint32_t)
ATOMIC_OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { conc::fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ static objects of functions
int __cxa_guard_acquire(abi::__guard* g)
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    if (conc::g_on)
    {
        conc::tick(true);
    }
    for (;;)
    {
        if (b[0])
        {
            if (conc::g_on)
            {
                conc::acquire(conc::sync_of(up(g)).vc);
            }
            return 0;
        }
        if (!b[1])
        {
            b[1] = 1;
            if (conc::g_on)
            {
                conc::acquire(conc::sync_of(up(g)).vc);
            }
            return 1;
        }
        if (!conc::g_running)
        {
            return 1;
        }
        conc::wait_turn("the initialisation of a static object");
    }
}
void __cxa_guard_release(abi::__guard* g) noexcept
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    if (conc::g_on)
    {
        conc::tick(true);
        conc::release(conc::sync_of(up(g)).vc);
    }
    b[1] = 0;
    b[0] = 1;
}
void __cxa_guard_abort(abi::__guard* g) noexcept
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    if (conc::g_on)
    {
        conc::release(conc::sync_of(up(g)).vc);
    }
    b[1] = 0;
}

// ------------------------------------------------------------------ locks
#define FORWARD(name, ...) \
    if (!conc::g_running) \
    { \
        static decltype(&name) f; \
        f = f ? f : conc::real(#name, &name); \
        return f(__VA_ARGS__); \
    }

static int lock_write(up a, bool recursive, bool try_only)
{
    conc::tick(true);
    for (;;)
    {
        conc::Sync& s = conc::sync_of(a);
        bool free_ = s.owner == 0;
        for (int i = 0; i < conc::N && free_; ++i)
        {
            free_ = !s.readers[i];
        }
        if (free_ || (recursive && s.owner == conc::g_cur + 1))
        {
            s.owner = conc::g_cur + 1;
            ++s.depth;
            conc::acquire(s.vc);
            return 0;
        }
        if (try_only)
        {
            return EBUSY;
        }
        if (s.owner == conc::g_cur + 1)
        {
            conc::report("deadlock", "a thread locks what it has locked");
        }
        conc::wait_turn("a lock");
    }
}
static int lock_read(up a, bool try_only)
{
    conc::tick(true);
    for (;;)
    {
        conc::Sync& s = conc::sync_of(a);
        if (!s.owner)
        {
            ++s.readers[conc::g_cur];
            conc::acquire(s.vc);
            return 0;
        }
        if (try_only)
        {
            return EBUSY;
        }
        if (s.owner == conc::g_cur + 1)
        {
            conc::report("deadlock", "a thread locks what it has locked");
        }
        conc::wait_turn("a lock");
    }
}
static int unlock(up a)
{
    conc::Sync& s = conc::sync_of(a);
    conc::release(s.vc);
    if (s.owner == conc::g_cur + 1)
    {
        if (--s.depth == 0)
        {
            s.owner = 0;
        }
    }
    else if (s.readers[conc::g_cur])
    {
        --s.readers[conc::g_cur];
    }
    conc::tick(true);
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) { FORWARD(pthread_mutex_lock, m) return lock_write(up(m), (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { FORWARD(pthread_mutex_trylock, m) return lock_write(up(m), (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { FORWARD(pthread_mutex_timedlock, m, t) return lock_write(up(m), (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { FORWARD(pthread_mutex_unlock, m) return unlock(up(m)); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { FORWARD(pthread_rwlock_rdlock, m) return lock_read(up(m), false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { FORWARD(pthread_rwlock_wrlock, m) return lock_write(up(m), false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { FORWARD(pthread_rwlock_tryrdlock, m) return lock_read(up(m), true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { FORWARD(pthread_rwlock_trywrlock, m) return lock_write(up(m), false, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { FORWARD(pthread_rwlock_unlock, m) return unlock(up(m)); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    FORWARD(pthread_cond_wait, c, m)
    unlock(up(m));
    conc::wait_turn("a condition");
    return lock_write(up(m), false, false);
}
int pthread_cond_signal(pthread_cond_t* c) { FORWARD(pthread_cond_signal, c) return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { FORWARD(pthread_cond_broadcast, c) return 0; }
int pthread_once(pthread_once_t* o, void (*f)())
{
    // the same protocol as the static objects, over the first two bytes
    auto* g = reinterpret_cast<volatile uint8_t*>(o);
    for (;;)
    {
        if (conc::g_on)
        {
            conc::tick(true);
        }
        if (g[0])
        {
            if (conc::g_on)
            {
                conc::acquire(conc::sync_of(up(o)).vc);
            }
            return 0;
        }
        if (!g[1])
        {
            g[1] = 1;
            try
            {
                f();
            }
            catch (...)
            {
                g[1] = 0;
                throw;
            }
            g[0] = 1;
            g[1] = 0;
            if (conc::g_on)
            {
                conc::release(conc::sync_of(up(o)).vc);
            }
            return 0;
        }
        if (!conc::g_running)
        {
            return EDEADLK;
        }
        conc::wait_turn("a call that is made once");
    }
}
int sched_yield()
{
    if (conc::g_running)
    {
        conc::tick(true);
        conc::preempt(-1, false);
        return 0;
    }
    return int(syscall(SYS_sched_yield));
}

// ------------------------------------------------------------------ parts of std::map that live in the library
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void* x, void* p, void* header)
{
    static decltype(&_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_) f;
    f = f ? f : conc::real("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", &_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_);
    conc::plain<true>(up(header), 32);
    conc::plain<true>(up(p), 32);
    f(left, x, p, header);
}
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* header)
{
    static decltype(&_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_) f;
    f = f ? f : conc::real("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", &_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_);
    conc::plain<true>(up(header), 32);
    return f(z, header);
}
void* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void* x)
{
    static decltype(&_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base) f;
    f = f ? f : conc::real("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", &_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base);
    conc::plain<false>(up(x), 32);
    return f(x);
}
void* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(void* x)
{
    static decltype(&_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base) f;
    f = f ? f : conc::real("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", &_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base);
    conc::plain<false>(up(x), 32);
    return f(x);
}


// ------------------------------------------------------------------ conversions and formatting into buffers of the caller
#define CODECVT(NAME) \
int NAME(const void* self, void* state, const char* from, const char* from_end, const char** from_next, char* to, char* to_end, char** to_next) \
{ \
    static decltype(&NAME) f; \
    f = f ? f : conc::real(#NAME, &NAME); \
    if (from_end > from) \
    { \
        conc::plain<false>(up(from), size_t(from_end - from)); \
    } \
    int r = f(self, state, from, from_end, from_next, to, to_end, to_next); \
    if (*to_next > to) \
    { \
        conc::plain<true>(up(to), size_t(*to_next - to)); \
    } \
    return r; \
}
CODECVT(_ZNKSt7codecvtIwc11__mbstate_tE5do_inERS0_PKcS4_RS4_PwS6_RS6_)
CODECVT(_ZNKSt7codecvtIwc11__mbstate_tE6do_outERS0_PKwS4_RS4_PcS6_RS6_)
CODECVT(_ZNKSt7codecvtIDsc11__mbstate_tE5do_inERS0_PKcS4_RS4_PDsS6_RS6_)
CODECVT(_ZNKSt7codecvtIDsc11__mbstate_tE6do_outERS0_PKDsS4_RS4_PcS6_RS6_)
CODECVT(_ZNKSt7codecvtIDic11__mbstate_tE5do_inERS0_PKcS4_RS4_PDiS6_RS6_)
CODECVT(_ZNKSt7codecvtIDic11__mbstate_tE6do_outERS0_PKDiS4_RS4_PcS6_RS6_)

int vsnprintf(char* s, size_t n, const char* format, va_list args)
{
    static decltype(&vsnprintf) f;
    f = f ? f : conc::real("vsnprintf", &vsnprintf);
    int r = f(s, n, format, args);
    if (r >= 0 && n)
    {
        conc::plain<true>(up(s), size_t(r) < n ? size_t(r) + 1 : n);
    }
    return r;
}
int vsprintf(char* s, const char* format, va_list args)
{
    static decltype(&vsprintf) f;
    f = f ? f : conc::real("vsprintf", &vsprintf);
    int r = f(s, format, args);
    if (r >= 0)
    {
        conc::plain<true>(up(s), size_t(r) + 1);
    }
    return r;
}
int snprintf(char* s, size_t n, const char* format, ...)
{
    va_list args;
    va_start(args, format);
    int r = vsnprintf(s, n, format, args);
    va_end(args);
    return r;
}
int sprintf(char* s, const char* format, ...)
{
    va_list args;
    va_start(args, format);
    int r = vsprintf(s, format, args);
    va_end(args);
    return r;
}

} // extern "C"
