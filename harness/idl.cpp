// The world of parsed IDL (C15, C19; C16 under the scheduler of conc.cpp): documents made at random are parsed, from
// texts and from files, through real preprocessors and without, while processes and files fail; what the contexts hold is
// compared with what the documents declare.
#include "core.hpp"
#include "idl_doc.hpp"
#include "model.hpp"

#include <xtypes/idl/idl.hpp>

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <iostream>
#include <set>
#include <streambuf>

#ifndef SIM_CONC
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#endif

namespace sim {

using rt::fail;
using rt::FK;
using xt::DynamicData;
using xt::DynamicType;
namespace idl = eprosima::xtypes::idl;

namespace {

// ------------------------------------------------------------------------------------------ processes and files
enum IoKind
{
    IO_NONE, P_NULL, P_STATUS, P_SIGNAL, P_EIO, P_EINTR, P_SHORT, P_WAIT, T_MKSTEMP, O_FAIL, W_ENOSPC, W_EIO, W_SHORT, W_EINTR,
    R_EIO, R_SHORT, R_EINTR, IO_KINDS
};
const char* const io_names[IO_KINDS] = {
    "none", "popen fails", "preprocessor exits early with an error", "preprocessor is killed", "reading the pipe fails",
    "reading the pipe is interrupted", "the pipe gives few bytes at a time", "the status of the preprocessor is lost",
    "mkstemp fails", "a file cannot be opened", "no space left while writing", "writing fails", "short writes",
    "writing is interrupted", "reading a file fails", "short reads of a file", "reading a file is interrupted"
};

struct Io
{
    IoKind kind = IO_NONE;
    uint32_t n = 0;               // where
    uint32_t count = 0;           // what was met so far
    bool fired = false;
};
SIM_TLS Io io;
SIM_TLS bool io_armed = false;

void io_fire()
{
    if (!io.fired)
    {
        io.fired = true;
        ++counters()[io_names[io.kind]];
    }
}

// faults of memory, processes and files meet library code alone
struct Arm
{
    explicit Arm(const Io& f)
    {
        io = f;
        io_armed = true;
    }
    ~Arm() { io_armed = false; }
};

#ifndef SIM_CONC
struct Process                      // a preprocessor that ran to its end, and what it left to be read
{
    std::string out;
    size_t at = 0;
    int status = 0;
    uint32_t reads = 0;
};
std::map<FILE*, Process*> processes;
int open_processes = 0;

// What a command gave: the same again while the files it can see are the same.
struct Ran
{
    std::string out;
    int status;
};
std::map<std::string, Ran> ran;

std::string seen_files()
{
    std::string all;
    if (DIR* d = opendir("."))
    {
        std::set<std::string> names;
        while (dirent* e = readdir(d))
        {
            if (e->d_name[0] != '.')
            {
                names.insert(e->d_name);
            }
        }
        closedir(d);
        for (auto& n : names)
        {
            all += '\0' + n + '\0';
            int fd = open(n.c_str(), O_RDONLY | O_CLOEXEC);
            char buf[4096];
            for (ssize_t got; (got = syscall(SYS_read, fd, buf, sizeof(buf))) > 0; )
            {
                all.append(buf, size_t(got));
            }
            close(fd);
        }
    }
    return all;
}

ssize_t process_read(void* cookie, char* buf, size_t size)
{
    rt::Pause pause;
    Process& p = *static_cast<Process*>(cookie);
    ++p.reads;
    if (io_armed && io.kind == P_EIO && p.at >= io.n % (p.out.size() + 1))
    {
        io_fire();
        errno = EIO;
        return -1;
    }
    if (io_armed && io.kind == P_EINTR && (p.reads + io.n) % 3 == 0)
    {
        io_fire();
        errno = EINTR;
        return -1;
    }
    size_t n = std::min(size, p.out.size() - p.at);
    if (io_armed && (io.kind == P_SHORT || io.kind == P_EINTR) && n > 1)
    {
        io_fire();
        n = 1 + (io.n + p.reads * 7) % std::min<size_t>(n, 40);
    }
    if (io_armed && io.kind == P_EIO)
    {
        n = std::min(n, io.n % (p.out.size() + 1) - p.at);
    }
    memcpy(buf, p.out.data() + p.at, n);
    p.at += n;
    return ssize_t(n);
}
#endif

} // namespace
} // namespace sim

#ifndef SIM_CONC
extern "C" {
FILE* __real_popen(const char* cmd, const char* mode);
int __real_pclose(FILE* f);
int __real_mkstemp(char* name);

FILE* __wrap_popen(const char* cmd, const char* mode)
{
    using namespace sim;
    rt::Pause pause;
    bool armed = io_armed;
    io_armed = false;
    ++counters()["processes run"];
    if (armed && io.kind == P_NULL)
    {
        io_fire();
        io_armed = true;
        errno = io.n % 2 ? ENOMEM : EMFILE;
        return nullptr;
    }
    auto p = std::make_unique<Process>();
    const std::string key = cmd + seen_files();
    auto known = ran.find(key);
    if (known == ran.end())
    {
        FILE* f = __real_popen(cmd, mode);
        if (!f)
        {
            fail("harness", "no process can be run");
        }
        Ran now;
        char buf[4096];
        for (size_t n; (n = fread(buf, 1, sizeof(buf), f)) > 0; )
        {
            now.out.append(buf, n);
        }
        now.status = __real_pclose(f);
        ++counters()["commands executed"];
        if (ran.size() > 200)
        {
            ran.clear();
        }
        known = ran.emplace(key, now).first;
    }
    p->out = known->second.out;
    p->status = known->second.status;
    if (armed && (io.kind == P_STATUS || io.kind == P_SIGNAL))
    {
        io_fire();
        p->out.resize(io.n % (p->out.size() + 1));
        p->status = io.kind == P_STATUS ? 256 * (1 + int(io.n % 3)) : io.n % 2 ? 9 : 13;
    }
    cookie_io_functions_t fns = {};
    fns.read = process_read;
    FILE* out = fopencookie(p.get(), "r", fns);
    processes[out] = p.release();
    ++open_processes;
    io_armed = armed;
    return out;
}

int __wrap_pclose(FILE* f)
{
    using namespace sim;
    rt::Pause pause;
    auto it = processes.find(f);
    if (it == processes.end())
    {
        rt::fail("process", "pclose() of what popen() did not give, or a second time");
    }
    int status = it->second->status;
    delete it->second;
    processes.erase(it);
    --open_processes;
    fclose(f);
    if (io_armed && io.kind == P_WAIT)
    {
        io_fire();
        errno = ECHILD;
        return -1;
    }
    return status;
}

int __wrap_mkstemp(char* name)
{
    using namespace sim;
    rt::Pause pause;
    if (io_armed && io.kind == T_MKSTEMP)
    {
        io_fire();
        errno = ENOSPC;
        return -1;
    }
    size_t n = strlen(name);
    for (int temp_serial = 0; ; )
    {
        char serial[16];
        snprintf(serial, sizeof(serial), "%06d", ++temp_serial % 1000000);
        memcpy(name + n - 6, serial, 6);
        int fd = open(name, O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0600);
        if (fd >= 0 || errno != EEXIST)
        {
            return fd;
        }
    }
}

// what the streams of the standard library call
ssize_t write(int fd, const void* buf, size_t n)
{
    using namespace sim;
    if (io_armed && fd > 2)
    {
        switch (io.kind)
        {
            case W_ENOSPC:
                io_fire();
                if (io.count++ == 0 && n > 1)
                {
                    return syscall(SYS_write, fd, buf, io.n % n ? io.n % n : 1);
                }
                errno = ENOSPC;
                return -1;
            case W_EIO:
                io_fire();
                errno = EIO;
                return -1;
            case W_EINTR:
                if (io.count++ % 2 == 0)
                {
                    io_fire();
                    errno = EINTR;
                    return -1;
                }
                break;
            case W_SHORT:
                io_fire();
                return syscall(SYS_write, fd, buf, std::min<size_t>(n, 1 + io.n % 50));
            default:
                break;
        }
    }
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec* v, int n)
{
    using namespace sim;
    if (io_armed && fd > 2 && n > 0)
    {
        int i = 0;
        while (i + 1 < n && v[i].iov_len == 0)
        {
            ++i;
        }
        return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_writev, fd, v, n);
}

ssize_t read(int fd, void* buf, size_t n)
{
    using namespace sim;
    if (io_armed && fd > 2)
    {
        switch (io.kind)
        {
            case R_EIO:
                if (io.count++ >= io.n % 3)
                {
                    io_fire();
                    errno = EIO;
                    return -1;
                }
                n = std::min<size_t>(n, 1 + io.n % 200);
                break;
            case R_EINTR:
                if (io.count++ % 2 == 0)
                {
                    io_fire();
                    errno = EINTR;
                    return -1;
                }
                break;
            case R_SHORT:
                io_fire();
                n = std::min<size_t>(n, 1 + io.n % 60);
                break;
            default:
                break;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}

FILE* fopen64(const char* name, const char* mode)
{
    using namespace sim;
    using F = FILE* (*)(const char*, const char*);
    static F real = F(dlsym(RTLD_NEXT, "fopen64"));
    if (io_armed && io.kind == O_FAIL)
    {
        io_fire();
        errno = EMFILE;
        return nullptr;
    }
    return real(name, mode);
}
FILE* fopen(const char* name, const char* mode) { return fopen64(name, mode); }
}
#endif

namespace sim {
namespace {

// --------------------------------------------------------------------------------------------- a tree of modules
void expect(bool ok, const std::string& what)
{
    if (!ok)
    {
        fail("tree", what);
    }
}

void collect(const doc::DMod& m, std::map<std::string, std::vector<const doc::DSym*>>& types, bool scoped)
{
    for (auto& s : m.syms)
    {
        if (!s.second.constant)
        {
            types[scoped ? m.scoped(s.first) : s.first].push_back(&s.second);
        }
    }
    for (auto& i : m.inner)
    {
        collect(*i.second, types, scoped);
    }
}

void check_types(const std::map<std::string, DynamicType::Ptr>& real, const doc::DMod& m, bool scoped)
{
    std::map<std::string, std::vector<const doc::DSym*>> want;
    collect(m, want, scoped);
    for (auto& t : real)
    {
        auto it = want.find(t.first);
        expect(it != want.end(), "a type nobody declared: " + t.first);
        if (it->second.size() == 1)            // else one of those with that name is given
        {
            check_type(*t.second, *it->second[0]->def, t.first);
        }
    }
    for (auto& w : want)
    {
        expect(real.count(w.first) > 0, "a type is missing: " + w.first);
    }
}

void check_module(const idl::Module& real, const doc::DMod& m)
{
    const std::string where = "module '" + m.scope() + "'";
    expect(real.scope() == m.scope() && real.name() == m.name, where + " is called '" + real.scope() + "'");
    size_t n = 0;
    real.for_each_submodule([&](const idl::Module& sub)
            {
                rt::Pause pause;
                ++n;
                expect(m.inner.count(sub.name()) > 0, where + " has a module nobody declared: " + sub.name());
            }, false);
    expect(n == m.inner.size(), where + ": number of modules");
    for (auto& s : m.syms)
    {
        const std::string& name = s.first;
        const doc::DSym& d = s.second;
        expect(real.has_symbol(name, false), where + " has no " + name);
        if (d.constant)
        {
            expect(real.has_constant(name), where + " has no constant " + name);
            DynamicData c = real.constant(name);
            const DynamicType& ct = c.type();
            check_type(ct.kind() == xt::TypeKind::ALIAS_TYPE ? static_cast<const xt::AliasType&>(ct).rget() : ct, *d.def, m.scoped(name));
            check_val(c, d.value, *d.def, "constant " + m.scoped(name));
            continue;
        }
        switch (d.def->k)
        {
            case K::STRUCT:
                expect(real.has_structure(name), where + " has no structure " + name);
                check_type(real.structure(name), *d.def, name);
                break;
            case K::UNION:
                expect(real.has_union(name), where + " has no union " + name);
                check_type(real.union_switch(name), *d.def, name);
                break;
            case K::ENUM:
                expect(real.has_enum_32(name), where + " has no enumeration " + name);
                check_type(real.enum_32(name), *d.def, name);
                break;
            default:
                expect(real.has_alias(name), where + " has no alias " + name);
                check_type(real.alias(name), *d.def, name);
                break;
        }
    }
    for (auto& i : m.inner)
    {
        check_module(real[i.first], *i.second);
    }
}

u64 hash_of(const doc::DMod& m)
{
    u64 h = 0;
    for (auto& s : m.syms)
    {
        for (char c : s.first + (s.second.def ? show(*s.second.def) : ""))
        {
            h = (h ^ u64((unsigned char)c)) * 0x100000001b3ULL;
        }
        h ^= s.second.value.bits;
    }
    for (auto& i : m.inner)
    {
        h = rt::mix64(h ^ hash_of(*i.second));
    }
    return h;
}

// ---------------------------------------------------------------------------------------------------- the world
enum Code { I_NEW, I_TEXT, I_FILE, I_ONCE, I_BAD, I_COPY, I_DROP, I_TYPES, I_HOLD, I_USE, I_RESET, I_ROUND, I_NOFILE, NCODES };
const char* const code_names[NCODES] = {
    "i.new", "i.text", "i.file", "i.once", "i.bad", "i.copy", "i.drop", "i.types", "i.hold", "i.use", "i.reset", "i.round", "i.nofile"
};
const int code_weights[NCODES] = {4, 12, 4, 3, 5, 2, 3, 3, 4, 4, 1, 4, 1};

constexpr int SLOTS = 4;
constexpr int HELD = 4;

enum class Prep { NONE, CAT, CPP, FAILS };

struct Shared                     // contexts that are copies share what they hold
{
    std::unique_ptr<doc::Tree> tree = std::make_unique<doc::Tree>();
};

struct Slot
{
    std::unique_ptr<idl::Context> c;
    std::shared_ptr<Shared> held;            // null: nothing parsed yet
    doc::Style style;
    Prep prep = Prep::NONE;
    bool ok = false;                         // `success`, as it should read
    bool clears = true;
};

struct Held                                  // a type, or data, that came from a context
{
    DynamicType::Ptr type;
    std::unique_ptr<DynamicData> data;
    MTP m;
    Val v;
};

// what is printed, without obtaining memory
struct Paper : std::streambuf
{
    enum { SIZE = 1 << 16 };
    std::string text;

    Paper() { text.reserve(SIZE); }

    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        text.append(p, std::min(size_t(n), SIZE - text.size()));
        return n;
    }

    int_type overflow(int_type c) override
    {
        char ch = char(c);
        xsputn(&ch, 1);
        return c;
    }
};

struct Reader_of_cout
{
    std::streambuf* old;
    explicit Reader_of_cout(Paper* paper) : old(paper ? std::cout.rdbuf(paper) : nullptr) {}
    ~Reader_of_cout()
    {
        if (old)
        {
            std::cout.rdbuf(old);
        }
    }
};

class IdlWorld : public World
{
public:
    explicit IdlWorld(const std::string& profile)
        : faults_(profile == "C15")
        , threads_(profile == "C16")
    {
        leaks_count = true;
#ifndef SIM_CONC
        static Scratch scratch;
        open_processes = 0;
        for (auto& f : files())
        {
            remove(f.c_str());
        }
#endif
    }

    ~IdlWorld() override
    {
#ifndef SIM_CONC
        for (auto& f : files())
        {
            remove(f.c_str());
        }
#endif
    }

    void step(const Op& op) override
    {
        switch (op.code)
        {
            case I_NEW: fresh(op); break;
            case I_TEXT: text(op, false, false); break;
            case I_FILE: text(op, true, false); break;
            case I_ONCE: once(op); break;
            case I_BAD: text(op, false, true); break;
            case I_COPY: copy(op); break;
            case I_DROP: drop(op); break;
            case I_TYPES: types(op); break;
            case I_HOLD: hold(op); break;
            case I_USE: use(op); break;
            case I_RESET: reset(op); break;
            case I_ROUND: round(op); break;
            case I_NOFILE: nofile(op); break;
        }
    }

    void finish() override
    {
        for (Slot& s : slots_)
        {
            verify(s);
        }
        for (Held& h : held_)
        {
            verify(h);
        }
        rt::arm(rt::Fault{});
        for (Slot& s : slots_)
        {
            s = Slot();
        }
        rt::disarm();
        for (Held& h : held_)               // outlive the contexts and the parser
        {
            verify(h);
        }
        rt::arm(rt::Fault{});
        if (!threads_)
        {
            idl::Parser::destroy();
        }
        for (Held& h : held_)
        {
            h = Held();
        }
        rt::disarm();
        tidy("at the end");
    }

    u64 state() override
    {
        u64 h = 1;
        for (Slot& s : slots_)
        {
            h = rt::mix64(h ^ (s.held ? hash_of(s.held->tree->root) : 0) ^ u64(s.ok) << 1);
        }
        return h;
    }

    bool interesting() override { return faults_met_; }

private:
    bool faults_, threads_;
    bool faults_met_ = false;
    Slot slots_[SLOTS];
    Held held_[HELD];
    std::weak_ptr<Shared> last_;             // of the last parse
    bool sure_ = true;
    int serial_ = 0;

#ifndef SIM_CONC
    struct Scratch                           // every file of a process lies in a directory of its own, which it works in
    {
        std::string path;
        Scratch()
        {
            const char* base = getenv("SIM_SCRATCH");
            std::string name = std::string(base ? base : "/tmp") + "/sim_idl_XXXXXX";
            if (!mkdtemp(name.data()) || chdir(name.c_str()))
            {
                fail("harness", "no scratch directory");
            }
            path = name;
            if (mkdir(".a", 0700) || mkdir(".b", 0700))     // where parts of documents lie; files() does not list them
            {
                fail("harness", "no scratch directory");
            }
            setenv("TMPDIR", ".", 1);
        }
        ~Scratch()
        {
            if (chdir("/") == 0)
            {
                rmdir((path + "/.a").c_str());
                rmdir((path + "/.b").c_str());
                rmdir(path.c_str());
            }
        }
    };

    static std::vector<std::string> files()
    {
        std::vector<std::string> out;
        if (DIR* d = opendir("."))
        {
            while (dirent* e = readdir(d))
            {
                if (e->d_name[0] != '.')
                {
                    out.push_back(e->d_name);
                }
            }
            closedir(d);
        }
        std::sort(out.begin(), out.end());
        return out;
    }

    static int descriptors()
    {
        int n = 0;
        if (DIR* d = opendir("/proc/self/fd"))
        {
            while (readdir(d))
            {
                ++n;
            }
            closedir(d);
        }
        return n;
    }

    std::set<std::string> ours_;
    int fds_ = -1;

    void write_file(const std::string& name, const std::string& content)
    {
        FILE* f = fopen(name.c_str(), "w");
        if (!f || fwrite(content.data(), 1, content.size(), f) != content.size() || fclose(f))
        {
            fail("harness", "cannot write " + name);
        }
        ours_.insert(name);
    }

    void tidy(const std::string& when)
    {
        ++stats.checks;
        if (open_processes)
        {
            fail("process", "the pipe of a preprocessor stays open " + when);
        }
        for (auto& f : files())
        {
            if (!ours_.count(f))
            {
                fail("file", "a file is left behind " + when + ": " + f);
            }
        }
        int n = descriptors();
        if (fds_ >= 0 && n != fds_)
        {
            fail("file", "a descriptor is left open " + when);
        }
        fds_ = n;
    }
#else
    void tidy(const std::string&) {}
    void write_file(const std::string&, const std::string&) {}
#endif

    // ------------------------------------------------------------------------------------------------- checks
    void verify(Slot& s)
    {
        if (!s.c)
        {
            return;
        }
        ++stats.checks;
        if (s.c->success != s.ok)
        {
            fail("success", std::string("success of a context reads ") + (s.c->success ? "true" : "false"));
        }
        if (s.held && s.held->tree->valid)
        {
            check_module(s.c->module(), s.held->tree->root);
        }
    }

    void verify(Held& h)
    {
        if (h.m)
        {
            ++stats.checks;
            if (h.type.get())
            {
                check_type(*h.type, *h.m, "held");
            }
            if (h.data)
            {
                check_val(*h.data, h.v, *h.m, "held");
            }
        }
    }

    doc::Tree& tree(Slot& s)
    {
        if (!s.held)
        {
            s.held = std::make_shared<Shared>();
        }
        return *s.held->tree;
    }

    void settings(Slot& s, rt::Rng& r)
    {
        idl::Context& c = *s.c;
        c.preprocess = s.prep != Prep::NONE;
        c.preprocessor_exec = s.prep == Prep::CAT ? "cat" : s.prep == Prep::CPP ? "cpp -H"
            : r.chance(1, 2) ? "false" : "./no_such_preprocessor";
        c.strategy = r.chance(1, 2) ? idl::PreprocessorContext::preprocess_strategy::pipe_stdin
            : idl::PreprocessorContext::preprocess_strategy::temporary_file;
        c.char_translation = s.style.chr == K::U8 ? idl::Context::UINT8 : s.style.chr == K::I8 ? idl::Context::INT8 : idl::Context::CHAR;
        c.wchar_type = s.style.wchr == K::C16 ? idl::Context::CHAR16_T : idl::Context::WCHAR_T;
        c.ignore_case = s.style.any_case;
        c.allow_keyword_identifiers = s.style.keywords;
        c.ignore_redefinition = s.style.again;
        s.clears = !r.chance(1, 5);
        c.clear = s.clears;
        c.include_paths.clear();
        if (s.prep == Prep::CPP)
        {
            c.include_paths.push_back(".");
            for (const char* dir : {".a", ".b"})
            {
                if (r.chance(1, 3))
                {
                    c.include_paths.insert(c.include_paths.begin() + long(r.below(c.include_paths.size() + 1)), dir);
                }
            }
        }
        static const idl::log::LogLevel levels[] = {idl::log::xERROR, idl::log::xWARNING, idl::log::xINFO, idl::log::xDEBUG};
        c.log_level(levels[r.below(4)]);
    }

    // ------------------------------------------------------------------------------------------------- operations
    Slot& slot(uint32_t n) { return slots_[n % SLOTS]; }

    void fresh(const Op& op)
    {
        rt::Rng r(op.seed());
        Slot& s = slot(op.a);
        rt::arm(rt::Fault{});
        s = Slot();
        rt::disarm();
        u64 w = r.below(10);
        s.prep = threads_ ? (r.chance(1, 5) ? Prep::CAT : Prep::NONE) : w < (faults_ ? 5 : 8) ? Prep::NONE : w < (faults_ ? 7 : 9) ? Prep::CAT
            : w < 9 || !faults_ ? Prep::CPP : Prep::FAILS;
        w = r.below(8);
        s.style.chr = w == 0 ? K::U8 : w == 1 ? K::I8 : K::C8;
        s.style.wchr = r.chance(1, 4) ? K::C16 : K::WC;
        s.style.rooted = r.chance(1, 3);
        s.style.any_case = r.chance(1, 3);
        s.style.keywords = r.chance(1, 6);
        s.style.again = r.chance(1, 5);
        rt::arm(rt::Fault{});
        s.c = std::make_unique<idl::Context>();
        settings(s, r);
        rt::disarm();
        ++stats.ops_ok;
    }

    Slot* full(uint32_t n)
    {
        for (uint32_t i = 0; i < SLOTS; ++i)
        {
            if (slots_[(n + i) % SLOTS].c)
            {
                return &slots_[(n + i) % SLOTS];
            }
        }
        return nullptr;
    }

    Io io_fault(const Op& op, Prep prep, bool file, bool temp)
    {
        Io f;
        if (!faults_ || op.d % 3 != 0)
        {
            return f;
        }
        std::vector<IoKind> kinds;
        if (prep != Prep::NONE)
        {
            kinds = {P_NULL, P_STATUS, P_SIGNAL, P_EIO, P_EINTR, P_SHORT, P_WAIT, P_STATUS, P_EIO};
            if (temp)
            {
                kinds.insert(kinds.end(), {T_MKSTEMP, O_FAIL, W_ENOSPC, W_EIO, W_SHORT, W_EINTR, W_ENOSPC});
            }
        }
        else if (file)
        {
            kinds = {O_FAIL, R_EIO, R_SHORT, R_EINTR, R_EIO};
        }
        if (kinds.empty())
        {
            return f;
        }
        f.kind = kinds[(op.d / 3) % kinds.size()];
        f.n = uint32_t(rt::mix64(op.seed() ^ 77));
        return f;
    }

    // A document for a slot: what it declares is added to `t`.
    struct Job
    {
        std::string text;
        std::string file;                 // where it lies, if anywhere
        std::string what;                 // how it was spoilt
    };

    Job job(rt::Rng& r, doc::Tree& t, const Slot& s, int n, bool file, bool bad)
    {
        Job j;
        doc::Style style = s.style;
        style.layout = int(r.below(3));
        style.directives = s.prep == Prep::CPP && r.chance(2, 3);
        std::unique_ptr<doc::Tree> before = bad ? doc::clone_tree(t) : nullptr;
        doc::Document d = doc::generate(r, t, style, n);
        if (bad)
        {
            j.text = doc::spoil(r, *before, d, style, j.what);
        }
        else if (s.prep == Prep::CPP && d.defs.size() > 1 && r.chance(1, 3))
        {
            size_t cut = d.defs[1 + r.below(d.defs.size() - 1)].first;
            doc::Document a, b;
            a.toks.assign(d.toks.begin(), d.toks.begin() + long(cut));
            b.toks.assign(d.toks.begin() + long(cut), d.toks.end());
            std::string dir = s.c ? s.c->include_paths[r.below(s.c->include_paths.size())] : ".";
            std::string name = "part" + dir.substr(1) + std::to_string(serial_++ % 10) + ".idl";
            name.erase(std::remove(name.begin(), name.end() - 4, '.'), name.end() - 4);
            write_file(dir == "." ? name : dir + "/" + name, "#ifndef SIM_GUARD\n#define SIM_GUARD\n" + doc::render(r, a, style) + "\n#endif\n");
            std::string inc = s.c == nullptr || r.chance(1, 2) ? "#include \"" + name + "\"\n" : "#include <" + name + ">\n";
            j.text = inc + (r.chance(1, 3) ? inc : "") + doc::render(r, b, style);
        }
        else
        {
            j.text = doc::render(r, d, style);
        }
        if (file)
        {
            j.file = "doc" + std::to_string(serial_++ % 10) + ".idl";
            write_file(j.file, j.text);
        }
        rt::trace(j.text);
        if (!j.what.empty())
        {
            rt::note("spoilt: " + j.what);
        }
        return j;
    }

    static bool harmless(IoKind k) { return k == IO_NONE || k == P_SHORT || k == W_SHORT || k == R_SHORT; }

    void text(const Op& op, bool file, bool bad)
    {
        Slot* sp = full(op.a);
        if (!sp)
        {
            fresh(op);
            sp = full(op.a);
        }
        file &= !threads_;
        rt::Rng r(op.seed());
        Slot& s = *sp;
        if (!tree(s).valid)
        {
            clear(s);
        }
        if (s.prep == Prep::FAILS && r.chance(1, 2))
        {
            s.prep = Prep::CAT;
            s.c->preprocessor_exec = "cat";
        }
        const bool temp = s.c->strategy == idl::PreprocessorContext::preprocess_strategy::temporary_file && !file;
        std::unique_ptr<doc::Tree> next = doc::clone_tree(tree(s));
        Job j = job(r, *next, s, 1 + int(op.b % (bad ? 3 : 6)), file, bad);
        const bool refuse = bad || s.prep == Prep::FAILS;
        Io f = io_fault(op, s.prep, file, temp);
        tree(s);
        sure_ = false;                         // a refused document may not have reached the parser
        bool settled = false;
        // in two steps: what the preprocessor gives is asked for, and then parsed as it is
        const bool steps = s.prep != Prep::NONE && op.c % 8 == 5;
        const bool plain = s.prep == Prep::NONE && !file && op.c % 8 == 2;
        auto attempt_once = [&](const rt::Fault& fault, const Io& iof)
                {
                    tree(s);
                    s.c->success = true;
                    std::string whole;
                    bool given = false;
                    const bool parser = idl::Parser::instance(false) != nullptr;
                    bool accepted = false;
                    Call c;
                    const bool print = !threads_ && (op.c / 2) % 4 == 3;
                    const size_t said = s.c->log().size();
                    Paper paper;
                    s.c->print_log(print);
                    {
                        Reader_of_cout reader(print ? &paper : nullptr);
                        Arm arm(iof);
                        c = call(fault, [&]()
                                {
                                    if (steps)
                                    {
                                        const bool own = file && s.prep == Prep::CPP && op.b % 2;
                                        whole = own ? idl::preprocess(j.file, s.c->include_paths)
                                                : file ? s.c->preprocess_file(j.file) : s.c->preprocess_string(j.text);
                                        given = true;
                                        accepted = idl::Parser::instance()->parse(whole, *s.c);
                                    }
                                    else if (plain)
                                    {
                                        accepted = idl::Parser::instance()->parse(j.text, *s.c);
                                    }
                                    else if (op.c % 2)
                                    {
                                        idl::Context& back = file ? idl::parse_file(j.file, *s.c) : idl::parse(j.text, *s.c);
                                        if (&back != s.c.get())
                                        {
                                            fail("outcome", "another context is returned");
                                        }
                                        accepted = back.success;
                                    }
                                    else
                                    {
                                        std::shared_ptr<idl::Parser> p = idl::Parser::instance();
                                        accepted = file ? p->parse_file(j.file, *s.c) : p->parse_string(j.text, *s.c);
                                    }
                                });
                    }
                    s.c->print_log(false);
                    if (print && !c.fired)
                    {
                        std::string want;
                        for (size_t i = said; i < s.c->log().size(); ++i)
                        {
                            want += s.c->log()[i].to_string() + "\n";
                        }
                        if (paper.text.compare(0, std::string::npos, want, 0, Paper::SIZE) != 0)
                        {
                            fail("log", "what is printed is not what is in the log: " + paper.text.substr(0, 300));
                        }
                        rt::probe("messages printed");
                    }
                    const bool io_fired = io.fired && iof.kind != IO_NONE;
                    faults_met_ |= io_fired;
                    trace_work();
                    rt::trace_num(u64(c.res) * 4 + accepted);
                    if (threads_)
                    {
                        for (auto& e : s.c->log())
                        {
                            std::string said = e.to_string();
                            size_t at = said.find("xtypes_");            // the name of a temporary file
                            if (at != std::string::npos)
                            {
                                said.replace(at, 13, "a file");
                            }
                            rt::trace(said);
                        }
                    }
                    tidy("after a parse");
                    if (c.res != Res::OK)
                    {
                        accepted = false;
                    }
                    if ((c.res == Res::NOMEM && (!parser || op.c % 2)) || (steps && !given))   // perhaps the parser was not reached
                    {
                        s.c->success = false;
                    }
                    if (s.c->success != accepted)
                    {
                        fail("success", std::string("a parse that was ") + (accepted ? "accepted" : "not accepted") + " has success = "
                                + (s.c->success ? "true" : "false"));
                    }
                    s.ok = accepted;
                    const bool excused = (c.fired && fault.kind != FK::NONE) || (io_fired && !harmless(iof.kind));
                    if (c.res == Res::NOMEM && !c.fired)
                    {
                        fail("outcome", "a parse ran out of memory without a fault");
                    }
                    if (c.res == Res::OTHER && !excused && !refuse)
                    {
                        fail("outcome", "a parse threw " + c.what);
                    }
                    if (accepted)
                    {
                        ++stats.ops_ok;
                        if (refuse)
                        {
                            fail("outcome", "accepted: " + (bad ? j.what : std::string("what no preprocessor gave")));
                        }
                        settled = true;
                        check_module(s.c->module(), next->root);
                        return;
                    }
                    ++stats.ops_refused;
                    stats.nomem += c.res == Res::NOMEM;
                    if (refuse && !excused)
                    {
                        settled = true;
                    }
                    else if (!excused)
                    {
                        std::string log;
                        for (auto& e : s.c->log())
                        {
                            log += " | " + e.to_string();
                        }
                        fail("outcome", "a document is refused: " + c.what + log.substr(0, 600));
                    }
                    check_log(*s.c);
                    // whatever it left is given up; the same again has to work
                    s.held->tree->valid = false;
                    clear(s);
                };
        if (f.kind != IO_NONE || op.f.kind != FK::NONE)
        {
            // the tree was not empty: another one is made, as a refused document may leave parts of itself
            const bool first = tree(s).known.empty() && tree(s).root.inner.empty();
            u64 from = op.f.kind == FK::SWEEP ? 1 : op.f.n;
            u64 to = f.kind != IO_NONE ? from : op.f.n;
            u64 stride = op.f.kind == FK::SWEEP ? 1 + to / 12 : 1;
            for (u64 n = from; n <= to && !settled; n += stride)
            {
                attempt_once(f.kind != IO_NONE ? rt::Fault{} : rt::Fault{op.f.kind == FK::SWEEP ? FK::NTH : op.f.kind, n}, f);
                if (!settled)
                {
                    ++stats.retries;
                    if (!first || !s.clears)
                    {
                        return;               // what it mentioned is gone with the context
                    }
                }
            }
        }
        if (!settled)
        {
            attempt_once(rt::Fault{}, Io{});
        }
        if (!refuse && settled && s.ok)
        {
            tree(s);
            s.held->tree = std::move(next);
            last_ = s.held;
            sure_ = true;
        }
    }

    // the context begins anew
    void clear(Slot& s)
    {
        rt::arm(rt::Fault{});
        s.c->clear = true;
        s.c->clear_context();
        s.c->clear = s.clears;
        rt::disarm();
        s.held.reset();
    }

    void check_log(const idl::Context& c)
    {
        size_t errors = 0;
        for (auto& e : c.log())
        {
            if (e.level > c.log_level())
            {
                fail("log", "an entry that was not asked for: " + e.to_string());
            }
            errors += e.level == idl::log::xERROR;
        }
        if (c.log(idl::log::xERROR).size() != errors)
        {
            fail("log", "the list of errors is not that of the log");
        }
    }

    // the parser's functions that make a context of their own
    void once(const Op& op)
    {
        if (threads_)
        {
            return;
        }
        rt::Rng r(op.seed());
        Slot& s = slot(op.a);
        rt::arm(rt::Fault{});
        s = Slot();
        rt::disarm();
        s.prep = Prep::CPP;
        Shared sh;
        const bool file = op.c % 2;
        const bool plain = op.d % 4 == 3;     // no preprocessor: no directives, and nothing is included
        s.prep = plain ? Prep::NONE : Prep::CPP;
        Job j = job(r, *sh.tree, s, 1 + int(op.b % 4), true, false);
        s.prep = Prep::CPP;
        std::unique_ptr<idl::Context> c;
        // without the paths of the other contexts, what is included has to lie beside the file
        attempt(op.f.kind == FK::SWEEP ? Op{} : op, Expect::OK, code_names[I_ONCE], [&]()
                {
                    switch (plain ? 4 : op.c % 4)
                    {
                        case 0: c = std::make_unique<idl::Context>(idl::parse(j.text)); break;
                        case 4: c = std::make_unique<idl::Context>(idl::Parser::instance()->parse(j.text)); break;
                        case 1: c = std::make_unique<idl::Context>(idl::parse_file(j.file)); break;
                        case 2: c = std::make_unique<idl::Context>(idl::Parser::instance()->parse_string(j.text)); break;
                        default: c = std::make_unique<idl::Context>(idl::Parser::instance()->parse_file(j.file)); break;
                    }
                }, [&]() { tidy("after a parse"); });
        (void) file;
        tidy("after a parse");
        if (!c->success)
        {
            fail("outcome", "a document is refused");
        }
        rt::arm(rt::Fault{});
        c->include_paths.push_back(".");
        rt::disarm();
        s.c = std::move(c);
        s.ok = true;
        s.held = std::make_shared<Shared>(std::move(sh));
        last_ = s.held;
        sure_ = true;
        verify(s);
    }

    void copy(const Op& op)
    {
        Slot* from = full(op.b);
        if (!from || from == &slot(op.a))
        {
            return;
        }
        tree(*from);
        rt::arm(rt::Fault{});
        from->c->module();
        rt::disarm();
        std::unique_ptr<idl::Context> c;
        attempt(op, Expect::OK, code_names[I_COPY], [&]() { c = std::make_unique<idl::Context>(*from->c); }, [&]() { verify(*from); });
        Slot& to = slot(op.a);
        rt::arm(rt::Fault{});
        to = Slot();
        rt::disarm();
        to.style = from->style;
        to.prep = from->prep;
        to.held = from->held;
        to.ok = from->ok;
        to.clears = from->clears;
        to.c = std::move(c);
        verify(to);
    }

    void drop(const Op& op)
    {
        Slot* s = full(op.a);
        if (!s)
        {
            return;
        }
        verify(*s);
        rt::arm(rt::Fault{});
        switch (op.b % 3)
        {
            case 0:
                *s = Slot();
                break;
            case 1:
                s->c->clear_context();
                if (s->clears)
                {
                    s->held.reset();
                }
                break;
            default:
                *s->c = idl::Context();            // assigned over
                s->held.reset();
                s->ok = false;
                s->clears = true;
                s->prep = threads_ ? Prep::NONE : Prep::CPP;
                s->style = doc::Style();
                s->c->preprocess = s->prep != Prep::NONE;
                s->c->include_paths.clear();
                if (!threads_)
                {
                    s->c->include_paths.push_back(".");
                }
                break;
        }
        rt::disarm();
        for (Slot& o : slots_)
        {
            verify(o);
        }
    }

    void types(const Op& op)
    {
        Slot* s = full(op.a);
        if (!s)
        {
            return;
        }
        if (!s->held || !s->held->tree->valid)
        {
            return;
        }
        bool scoped = op.b % 2;
        std::map<std::string, DynamicType::Ptr> got;
        attempt(op, Expect::OK, code_names[I_TYPES], [&]()
                {
                    got = op.b % 4 == 1 ? s->c->get_all_scoped_types() : s->c->get_all_types(scoped);
                }, [&]() { verify(*s); });
        check_types(got, s->held->tree->root, scoped);
        check_log(*s->c);
        if (threads_)
        {
            rt::arm(rt::Fault{});
            got.clear();
            rt::disarm();
            return;
        }
        std::shared_ptr<Shared> last = last_.lock();
        rt::arm(rt::Fault{});
        got.clear();
        idl::Parser::instance()->get_all_types(got);
        rt::disarm();
        if (!sure_)
        {
        }
        else if (last && last->tree->valid)
        {
            check_types(got, last->tree->root, false);
        }
        else if (!last)
        {
            // what is gone gives nothing
            expect(got.empty(), "the parser gives types of a context that is gone");
        }
        rt::arm(rt::Fault{});
        got.clear();
        rt::disarm();
    }

    void hold(const Op& op)
    {
        Slot* s = full(op.a);
        if (!s || !s->held || !s->held->tree->valid)
        {
            return;
        }
        std::map<std::string, std::vector<const doc::DSym*>> want;
        collect(s->held->tree->root, want, true);
        if (want.empty())
        {
            return;
        }
        auto it = want.begin();
        std::advance(it, long(op.b % want.size()));
        Held& h = held_[op.c % HELD];
        Held n;
        n.m = it->second[0]->def;
        attempt(op, Expect::OK, code_names[I_HOLD], [&]() { n.type = s->c->module().type(it->first); }, [&]() { verify(*s); });
        if (!n.type.get())
        {
            fail("tree", "no type " + it->first);
        }
        rt::arm(rt::Fault{});
        h = std::move(n);
        rt::disarm();
        verify(h);
    }

    // the types that were parsed serve for data
    void use(const Op& op)
    {
        Held& h = held_[op.c % HELD];
        if (!h.m || h.data || weight(*h.m) > 300)
        {
            return;
        }
        rt::Rng r(op.seed());
        Val v = gen_val(r, *h.m);
        rt::arm(rt::Fault{});
        auto d = std::make_unique<DynamicData>(*h.type);
        rt::disarm();
        fill(*d, v, *h.m, r);
        adopt(*d, v, *h.m);
        check_val(*d, v, *h.m, "data of a parsed type");
        h.data = std::move(d);
        h.v = std::move(v);
        ++stats.ops_ok;
    }

    void reset(const Op&)
    {
        if (threads_)
        {
            return;
        }
        rt::arm(rt::Fault{});
        idl::Parser::destroy();
        bool gone = idl::Parser::instance(false) == nullptr;
        rt::disarm();
        expect(gone, "the parser is there after destroy()");
        last_.reset();
        sure_ = true;
        for (Slot& s : slots_)
        {
            verify(s);
        }
    }

    // generated and parsed again, a module is the same
    void round(const Op& op)
    {
        Slot* s = full(op.a);
        if (!s || !s->held || !s->held->tree->valid || s->held->tree->known.empty() || s->held->tree->rooted
            || s->held->tree->escaped
            || !doc::in_order(*s->held->tree))
        {
            return;
        }
        std::string text;
        rt::arm(rt::Fault{});
        text = idl::generate(s->c->module());
        rt::disarm();
        rt::note(text);
        idl::Context c;
        bool ok = false;
        Call done = call(rt::Fault{}, [&]()
                {
                    c.preprocess = false;
                    c.log_level(idl::log::xERROR);
                    c.wchar_type = s->style.wchr == K::C16 ? idl::Context::CHAR16_T : idl::Context::WCHAR_T;
                    ok = idl::parse(text, c).success;
                });
        if (done.res != Res::OK || !ok)
        {
            fail("outcome", "what was generated from a parsed module is refused: " + done.what);
        }
        ++stats.ops_ok;
        check_module(c.module(), s->held->tree->root);
        last_.reset();
        sure_ = true;
        rt::arm(rt::Fault{});
        c.clear_context();
        rt::disarm();
    }

    void nofile(const Op& op)
    {
        Slot* s = full(op.a);
        if (!s || threads_)
        {
            return;
        }
        bool accepted = false;
        Call c = call(rt::Fault{}, [&]() { accepted = idl::parse_file("nobody_wrote_it.idl", *s->c).success; });
        tidy("after a parse");
        s->ok = false;
        if (c.res == Res::NOMEM)
        {
            fail("outcome", "a missing file makes the parser run out of memory");
        }
        if ((c.res == Res::OK && accepted) || s->c->success)
        {
            fail("outcome", "a file that is missing is parsed with success");
        }
        ++stats.ops_refused;
        clear(*s);
    }
};

std::vector<Op> generate(const std::string& profile, u64 seed)
{
    rt::Rng r(rt::mix64(seed) ^ 0x1d1);
    const bool faults = profile == "C15";
    int weights[NCODES], total = 0;
    for (int i = 0; i < NCODES; ++i)
    {
        weights[i] = r.chance(4, 5) ? code_weights[i] : 0;
        if (faults && i == I_ROUND)
        {
            weights[i] = 0;
        }
        else if (!faults && i == I_ONCE)
        {
            weights[i] = weights[i] > 0;
        }
        total += weights[i];
    }
    if (!total)
    {
        total = weights[I_TEXT] = 1;
    }
    int mode = int(r.below(10));
    mode = mode < (faults ? 3 : 8) ? 0 : mode < 8 ? 1 : 2;
    std::vector<Op> ops;
    int n = int(r.range(2, 12));
    for (int i = 0; i < n; ++i)
    {
        Op op;
        int pick = int(r.below(u64(total)));
        for (int c = 0; c < NCODES; ++c)
        {
            pick -= weights[c];
            if (pick < 0)
            {
                op.code = c;
                break;
            }
        }
        op.a = uint32_t(r.below(1000));
        op.b = uint32_t(r.below(1000));
        op.c = uint32_t(r.below(1000));
        op.d = uint32_t(r.below(100000));
        if (mode == 1 && r.chance(1, 2))
        {
            op.f.kind = r.chance(1, 4) ? FK::FROM : r.chance(1, 8) ? FK::BIG : FK::NTH;
            op.f.n = op.f.kind == FK::BIG ? 200 + r.below(4000) : 1 + (r.chance(1, 3) ? r.below(30) : r.below(u64(1) << (5 + r.below(12))));
        }
        else if (mode == 2 && r.chance(1, 3))
        {
            op.f.kind = FK::SWEEP;
            op.f.n = 20 + r.below(20000);
        }
        ops.push_back(op);
    }
    return ops;
}

RegisterWorld reg("C15 C16 C19", WorldKind{
    "idl", std::vector<const char*>(code_names, code_names + NCODES),
    [](const std::string& p) -> std::unique_ptr<World> { return std::make_unique<IdlWorld>(p); }, generate});

} // namespace

} // namespace sim
