#include "rt.hpp"

#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <new>
#include <sys/time.h>
#include <unistd.h>

namespace rt {

AllocStats alloc_stats;
u64 trace_hash = 0;
bool trace_print = false;
void note(const std::string& text)
{
    if (trace_print)
    {
        printf("    %s\n", text.c_str());
        fflush(stdout);
    }
}
std::map<std::string, u64> probes;

namespace {

bool g_armed = false;     // inside library code
Fault g_fault;
u64 g_count = 0;
bool g_fired = false;
const char* g_misuse = nullptr;
constexpr size_t SIZE_CAP = size_t(64) << 20;

struct Entry
{
    void* p;
    size_t size;
    bool array;
};

// open addressing table on malloc; tombstones are {1}
Entry* g_tab = nullptr;
size_t g_cap = 0, g_used = 0, g_live = 0;

void* const TOMB = reinterpret_cast<void*>(1);

size_t slot_of(void* p, size_t cap)
{
    return size_t(mix64(u64(p))) & (cap - 1);
}

void tab_put(Entry e);

void tab_grow()
{
    Entry* old = g_tab;
    size_t old_cap = g_cap;
    g_cap = g_live * 4 < 4096 ? 4096 : 1;
    while (g_cap < g_live * 4)
    {
        g_cap *= 2;
    }
    g_tab = static_cast<Entry*>(calloc(g_cap, sizeof(Entry)));
    g_used = g_live = 0;
    for (size_t i = 0; i < old_cap; ++i)
    {
        if (old[i].p && old[i].p != TOMB)
        {
            tab_put(old[i]);
        }
    }
    free(old);
}

void tab_put(Entry e)
{
    if ((g_used + 1) * 2 > g_cap)
    {
        tab_grow();
    }
    size_t i = slot_of(e.p, g_cap);
    while (g_tab[i].p && g_tab[i].p != TOMB)
    {
        i = (i + 1) & (g_cap - 1);
    }
    if (!g_tab[i].p)
    {
        ++g_used;
    }
    g_tab[i] = e;
    ++g_live;
}

bool tab_take(void* p, Entry& out)
{
    if (!g_cap)
    {
        return false;
    }
    for (size_t i = slot_of(p, g_cap); g_tab[i].p; i = (i + 1) & (g_cap - 1))
    {
        if (g_tab[i].p == p)
        {
            out = g_tab[i];
            g_tab[i].p = TOMB;
            --g_live;
            return true;
        }
    }
    return false;
}

bool should_fail(size_t size)
{
    if (size > SIZE_CAP)
    {
        if (g_armed)
        {
            ++alloc_stats.fired[int(FK::BIG)];
            g_fired = true;
        }
        return true;
    }
    if (!g_armed)
    {
        return false;
    }
    ++g_count;
    ++alloc_stats.allocs;
    bool f = false;
    switch (g_fault.kind)
    {
        case FK::NTH:
        case FK::SWEEP:
            f = g_count == g_fault.n;
            break;
        case FK::FROM:
            f = g_count >= g_fault.n;
            break;
        case FK::BIG:
            f = size >= g_fault.n;
            break;
        default:
            break;
    }
    if (f)
    {
        ++alloc_stats.fired[int(g_fault.kind)];
        g_fired = true;
    }
    return f;
}

void* take(size_t size, bool array)
{
    if (should_fail(size))
    {
        return nullptr;
    }
    void* p = malloc(size ? size : 1);
    if (p && g_armed)
    {
        tab_put(Entry{p, size, array});
    }
    return p;
}

void give(void* p, bool array, bool sized, size_t size)
{
    if (!p)
    {
        return;
    }
    Entry e;
    if (tab_take(p, e))
    {
        if (e.array != array)
        {
            g_misuse = "block released with the wrong form of delete";
        }
        else if (sized && e.size != size)
        {
            g_misuse = "block released with the wrong size";
        }
    }
    free(p);
}

void on_cpu(int)
{
    static const char msg[] = "HANG: the run used up its processor time\n";
    ssize_t r = write(2, msg, sizeof(msg) - 1);
    (void) r;
    _exit(77);
}

} // namespace

const char* fault_name(FK k)
{
    switch (k)
    {
        case FK::NONE: return "none";
        case FK::NTH: return "nth";
        case FK::FROM: return "from";
        case FK::BIG: return "big";
        case FK::SWEEP: return "sweep";
    }
    return "?";
}

void fail(const std::string& cls, const std::string& msg)
{
    throw Fail{cls, msg};
}

void arm(const Fault& f)
{
    g_fault = f;
    g_count = 0;
    g_fired = false;
    g_armed = true;
}

bool disarm()
{
    g_armed = false;
    return g_fired;
}

u64 armed_count() { return g_count; }
bool is_armed() { return g_armed; }

Pause::Pause() : was(g_armed) { g_armed = false; }
Pause::~Pause() { g_armed = was; }

size_t tracked_live() { return g_live; }
void tracked_reset()
{
    free(g_tab);
    g_tab = nullptr;
    g_cap = g_used = g_live = 0;
    g_misuse = nullptr;
}

std::string tracked_report()
{
    std::map<size_t, size_t> sizes;
    for (size_t i = 0; i < g_cap; ++i)
    {
        if (g_tab[i].p && g_tab[i].p != TOMB)
        {
            ++sizes[g_tab[i].size];
        }
    }
    std::string s;
    int n = 0;
    for (auto& e : sizes)
    {
        if (n++ == 8)
        {
            s += " ...";
            break;
        }
        s += (s.empty() ? "" : ", ") + std::to_string(e.second) + " of " + std::to_string(e.first) + " bytes";
    }
    return s;
}

const char* alloc_misuse() { return g_misuse; }

void trace(const std::string& line)
{
    for (unsigned char c : line)
    {
        trace_hash = (trace_hash ^ c) * 0x100000001b3ULL;
    }
    trace_hash = mix64(trace_hash);
    if (trace_print)
    {
        printf("%s\n", line.c_str());
        fflush(stdout);
    }
}

void set_cpu_guard(int seconds)
{
    static bool installed = false;
    if (!installed)
    {
        signal(SIGVTALRM, on_cpu);
        installed = true;
    }
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

} // namespace rt

void* operator new(size_t n)
{
    void* p = rt::take(n, false);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    void* p = rt::take(n, true);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt::take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt::take(n, true); }
void operator delete(void* p) noexcept { rt::give(p, false, false, 0); }
void operator delete[](void* p) noexcept { rt::give(p, true, false, 0); }
void operator delete(void* p, size_t n) noexcept { rt::give(p, false, true, n); }
void operator delete[](void* p, size_t n) noexcept { rt::give(p, true, true, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rt::give(p, false, false, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rt::give(p, true, false, 0); }
