// The world of types and data: histories over slots holding real types and real data, each beside its model.
#include "core.hpp"
#include "model.hpp"
#include "share.hpp"

#include <xtypes/idl/Module.hpp>

#include <algorithm>
#include <cstring>
#include <optional>
#include <sstream>

namespace sim {

using rt::fail;
using rt::FK;
using xt::DynamicData;
using xt::ReadableDynamicDataRef;
using xt::WritableDynamicDataRef;

enum Code
{
    T_NEW, T_ADD, T_LABEL, T_RENAME, T_COPY, T_DROP, T_VISIT, T_PTR,
    D_NEW, D_COPY, D_COPY_REF, D_MOVE, D_CONVERT, D_DROP, D_ASSIGN, D_BADASSIGN,
    V_SET, V_REFUSE, S_PUSH, S_RESIZE, M_PUT, M_INSERT, M_LOOK, U_SELECT, U_DISC, U_READ,
    R_PRINT, R_COMPARE, R_VISIT, R_WVISIT, R_ITER, R_ALL, NCODES
};
static const char* code_names[NCODES] = {
    "t.new", "t.add", "t.label", "t.rename", "t.copy", "t.drop", "t.visit", "t.ptr",
    "d.new", "d.copy", "d.copyref", "d.move", "d.convert", "d.drop", "d.assign", "d.badassign",
    "v.set", "v.refuse", "s.push", "s.resize", "m.put", "m.insert", "m.look", "u.select", "u.disc", "u.read",
    "r.print", "r.compare", "r.visit", "r.wvisit", "r.iter", "r.all"
};

struct Tune
{
    int ops[NCODES];
    int kinds[26];        // see K
    int depth;
    bool leaks;
    int fault_free, spot, sweep, big;    // shares of runs by fault mode
};

//                 T: new add lab ren cpy drp vis ptr | D: new cpy ref mov cnv drp asg bad | V: set ref psh rsz put ins look sel dsc rd | R: prt cmp vis wvi itr all
// kinds: BOOL I8 U8 I16 U16 I32 U32 I64 U64 F32 F64 F128 C8 C16 WC STR WSTR STR16 ENUM ALIAS ARRAY SEQ MAP PAIR STRUCT UNION
static const std::pair<const char*, Tune> tunes[] = {
    {"C01", {{4, 3, 2, 1, 2, 2, 1, 2, 6, 5, 4, 3, 4, 3, 5, 0, 5, 1, 6, 4, 5, 3, 2, 5, 2, 0, 3, 2, 2, 1, 1, 0},
             {1, 1, 1, 1, 1, 3, 1, 1, 1, 1, 1, 0, 1, 1, 1, 8, 3, 3, 2, 2, 4, 8, 7, 1, 8, 6}, 3, false, 0, 3, 6, 1}},
    {"C02", {{4, 3, 2, 1, 3, 4, 1, 3, 7, 5, 4, 4, 4, 5, 6, 2, 5, 2, 8, 4, 6, 4, 1, 6, 2, 1, 2, 1, 1, 1, 0, 0},
             {1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9, 3, 3, 1, 2, 4, 9, 8, 1, 8, 7}, 3, true, 3, 5, 2, 0}},
    {"C03", {{1, 0, 0, 0, 0, 0, 0, 0, 7, 4, 3, 2, 5, 2, 5, 1, 8, 3, 14, 7, 1, 0, 0, 1, 0, 0, 1, 2, 0, 0, 2, 1},
             {1, 1, 1, 1, 1, 2, 1, 2, 1, 1, 1, 0, 1, 1, 1, 10, 4, 4, 1, 1, 9, 18, 1, 1, 4, 2}, 3, false, 4, 4, 2, 1}},
    {"C04", {{1, 0, 0, 0, 0, 0, 0, 0, 7, 4, 3, 2, 3, 2, 5, 1, 4, 2, 2, 1, 18, 8, 8, 1, 0, 0, 1, 3, 0, 0, 2, 1},
             {1, 1, 1, 1, 1, 3, 1, 1, 1, 1, 1, 0, 1, 1, 1, 8, 3, 2, 1, 1, 3, 3, 26, 1, 4, 2}, 3, false, 4, 4, 2, 0}},
    {"C05", {{2, 0, 0, 0, 0, 0, 0, 0, 7, 4, 3, 3, 4, 2, 6, 1, 6, 2, 3, 2, 2, 1, 1, 14, 9, 6, 1, 3, 2, 1, 0, 2},
             {1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 0, 1, 1, 1, 8, 2, 2, 3, 1, 3, 4, 3, 1, 4, 24}, 3, false, 4, 4, 2, 0}},
    {"C06", {{2, 1, 0, 1, 0, 1, 0, 0, 7, 8, 7, 5, 8, 3, 9, 3, 8, 1, 6, 2, 5, 4, 1, 4, 1, 0, 3, 5, 0, 0, 0, 1},
             {1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 7, 3, 3, 2, 2, 5, 7, 6, 1, 7, 6}, 3, false, 5, 4, 1, 0}},
    {"C07", {{8, 8, 4, 5, 4, 5, 2, 8, 8, 3, 3, 1, 3, 2, 3, 0, 4, 1, 4, 2, 3, 2, 1, 3, 1, 0, 1, 1, 2, 0, 0, 2},
             {1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 0, 1, 1, 1, 4, 2, 2, 4, 4, 4, 5, 4, 1, 9, 7}, 3, false, 5, 4, 1, 0}},
    {"C10", {{3, 2, 1, 0, 0, 1, 4, 0, 7, 2, 2, 1, 1, 1, 2, 0, 4, 0, 4, 3, 5, 2, 0, 4, 1, 0, 1, 0, 12, 6, 6, 0},
             {1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 6, 3, 3, 2, 3, 5, 6, 6, 2, 8, 6}, 4, false, 4, 5, 1, 0}},
    // histories of the threads of C08 and C09
    {"conc08", {{2, 0, 0, 0, 2, 0, 4, 1, 2, 6, 5, 0, 4, 0, 1, 0, 1, 0, 1, 0, 1, 0, 6, 1, 0, 4, 8, 7, 7, 0, 6, 3},
             {1, 1, 1, 1, 1, 3, 1, 1, 1, 1, 1, 0, 1, 1, 1, 7, 3, 3, 3, 2, 4, 6, 7, 1, 7, 7}, 3, false, 6, 3, 1, 0}},
    {"conc09", {{6, 3, 2, 1, 3, 1, 1, 3, 8, 4, 2, 2, 4, 2, 3, 1, 5, 1, 4, 3, 4, 2, 1, 3, 1, 1, 2, 2, 1, 0, 1, 1},
             {1, 1, 1, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 7, 3, 3, 2, 2, 4, 6, 6, 1, 8, 6}, 3, false, 6, 3, 1, 0}},
    {"C11", {{5, 8, 6, 1, 1, 1, 0, 0, 7, 2, 2, 1, 2, 1, 3, 5, 8, 14, 6, 4, 5, 4, 5, 3, 5, 5, 0, 1, 0, 0, 0, 1},
             {1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 0, 1, 1, 1, 6, 2, 2, 5, 2, 4, 7, 6, 1, 7, 7}, 3, false, 5, 4, 1, 0}},
};

static const Tune& tune_of(const std::string& profile)
{
    for (auto& t : tunes)
    {
        if (profile == t.first)
        {
            return t.second;
        }
    }
    fail("harness", "no profile " + profile);
}

// ------------------------------------------------------------------ histories
static std::vector<Op> generate(const std::string& profile, u64 seed)
{
    const Tune& t = tune_of(profile);
    Rng r(rt::mix64(seed) ^ 0xdada);
    int weights[NCODES];
    int total = 0;
    for (int i = 0; i < NCODES; ++i)
    {
        bool keep = i == D_NEW || r.chance(4, 5);           // swarm: each run leaves some operations out
        weights[i] = keep ? t.ops[i] : 0;
        total += weights[i];
    }
    int modes = t.fault_free + t.spot + t.sweep + t.big;
    int mode = int(r.below(u64(modes)));
    mode = mode < t.fault_free ? 0 : mode < t.fault_free + t.spot ? 1 : mode < t.fault_free + t.spot + t.sweep ? 2 : 3;
    int n = r.chance(1, 3) ? int(r.range(3, 8)) : int(r.range(8, 26));
    std::vector<Op> ops;
    for (int i = 0; i < n; ++i)
    {
        Op op;
        if (i < 2)
        {
            op.code = i == 0 && t.ops[T_ADD] > 2 && r.chance(1, 2) ? T_NEW : D_NEW;
        }
        else
        {
            int pick = int(r.below(u64(total)));
            for (int c = 0; c < NCODES; ++c)
            {
                pick -= weights[c];
                if (pick < 0)
                {
                    op.code = c;
                    break;
                }
            }
        }
        op.a = uint32_t(r.below(12));
        op.b = uint32_t(r.below(64));
        op.c = uint32_t(r.below(100000));
        op.d = uint32_t(r.below(64));
        switch (mode)
        {
            case 1:
                if (r.chance(1, 3))
                {
                    op.f.kind = r.chance(1, 3) ? FK::FROM : FK::NTH;
                    op.f.n = 1 + (r.chance(1, 5) ? r.below(60) : r.below(10));
                }
                break;
            case 2:
                if (r.chance(1, 4))
                {
                    op.f.kind = FK::SWEEP;
                    op.f.n = 60;
                }
                break;
            case 3:
                if (r.chance(1, 3))
                {
                    op.f.kind = FK::BIG;
                    op.f.n = 16u << r.below(6);
                }
                break;
            default:
                break;
        }
        ops.push_back(op);
    }
    return ops;
}

// ------------------------------------------------------------------ the world
struct TSlot
{
    RealT real;
    MTP m;
    bool shared = false;
};

struct Drop                // of a datum, unless it belongs to somebody else
{
    bool own = true;
    void operator () (DynamicData* p) const { if (own) delete p; }
};
using Held = std::unique_ptr<DynamicData, Drop>;

// a writable reference that was not reached by writable steps, which may select cases of unions
struct Open : WritableDynamicDataRef
{
    explicit Open(const ReadableDynamicDataRef& r)
        : WritableDynamicDataRef(r.type(), reinterpret_cast<uint8_t*>(r.instance_id()))
    {
    }
};

struct DSlot
{
    Held d;
    bool shared() const { return d && !d.get_deleter().own; }     // others read it too
    MTP m;
    Val v;
    bool known = true;     // false: moved from, any value
    u64 h = 0;
};

struct Handle              // a type kept by DynamicType::Ptr
{
    xt::DynamicType::Ptr p;
    MTP m;
};

struct Where               // a part of a datum
{
    int slot;
    Path path;
    MTP t;
    Val* v;
};

static const size_t NT = 5, ND = 6, NH = 3;

static bool hashable(const MT&) { return true; }

class DataWorld : public World
{
public:
    explicit DataWorld(const std::string& profile)
        : tune_(tune_of(profile))
        , types_(NT)
        , data_(ND)
        , handles_(NH)
    {
        leaks_count = tune_.leaks;
    }

    ~DataWorld() override
    {
        rt::arm(rt::Fault{});
        data_.clear();
        types_.clear();
        handles_.clear();
        rt::disarm();
    }

    void step(const Op& op) override
    {
        ++nstep_;
        switch (op.code)
        {
            case T_PTR: writing_ = op.c % 9 == 8; break;
            case T_COPY: writing_ = op.d % 3 == 0; break;      // a registration names the type it is given
            case T_ADD: case T_LABEL: case T_RENAME: case T_DROP: case D_MOVE: case D_DROP: case D_ASSIGN: case D_BADASSIGN:
            case V_SET: case V_REFUSE: case S_PUSH: case S_RESIZE: case M_PUT: case M_INSERT: case U_SELECT: case U_DISC:
            case R_WVISIT:
                writing_ = true;
                break;
            default:
                writing_ = false;
        }
        switch (op.code)
        {
            case T_NEW: t_new(op); break;
            case T_ADD: t_add(op); break;
            case T_LABEL: t_label(op); break;
            case T_RENAME: t_rename(op); break;
            case T_COPY: t_copy(op); break;
            case T_DROP: t_drop(op); break;
            case T_VISIT: t_visit(op); break;
            case T_PTR: t_ptr(op); break;
            case D_NEW: d_new(op); break;
            case D_COPY: d_copy(op); break;
            case D_COPY_REF: d_copy_ref(op); break;
            case D_MOVE: d_move(op); break;
            case D_CONVERT: d_convert(op); break;
            case D_DROP: d_drop(op); break;
            case D_ASSIGN: d_assign(op); break;
            case D_BADASSIGN: d_badassign(op); break;
            case V_SET: v_set(op); break;
            case V_REFUSE: v_refuse(op); break;
            case S_PUSH: s_push(op); break;
            case S_RESIZE: s_resize(op); break;
            case M_PUT: m_put(op); break;
            case M_INSERT: m_insert(op); break;
            case M_LOOK: m_look(op); break;
            case U_SELECT: u_select(op); break;
            case U_DISC: u_disc(op); break;
            case U_READ: u_read(op); break;
            case R_PRINT: r_print(op); break;
            case R_COMPARE: r_compare(op); break;
            case R_VISIT: r_visit(op, false); break;
            case R_WVISIT: r_visit(op, true); break;
            case R_ITER: r_iter(op); break;
            case R_ALL:
                verify_all(true);
                verify_types();
                break;
        }
        if (nstep_ % 5 == 0)
        {
            verify_all(true);
        }
    }

    void finish() override
    {
        verify_all(true);
        verify_types();
        rt::arm(rt::Fault{FK::FROM, 1});   // objects die even when there is no memory
        data_.clear();
        types_.clear();
        handles_.clear();
        rt::disarm();
    }

    u64 state() override
    {
        u64 s = 1;
        for (auto& d : data_)
        {
            s = rt::mix64(s ^ (d.d ? d.h + 1 : 0));
        }
        return s;
    }

    void take_shared(DataWorld& from, bool with_data, unsigned who)
    {
        for (size_t i = 0; i < types_.size(); ++i)
        {
            TSlot& src = from.types_[i];
            if (!src.m)
            {
                continue;
            }
            TSlot& slot = types_[i];
            slot.m = clone(src.m);
            if (with_data || i % 2 == 0)
            {
                slot.real = RealT(src.real.get(), false);
                slot.shared = true;
                continue;
            }
            // a copy of the type, and data built from the type itself, which may be gone soon
            copy_type(src.real, *slot.m, slot.real);
            if (!slot.real)
            {
                slot.real = RealT(src.real.get(), false);
                slot.shared = true;
            }
            else if (weight(*slot.m) < 60)
            {
                install((i / 2 + who) % data_.size(), std::make_unique<DynamicData>(*src.real), slot.m, default_val(*slot.m));
            }
        }
        for (size_t i = 0; with_data && i < data_.size(); ++i)
        {
            DSlot& src = from.data_[i];
            if (src.d && src.known)
            {
                DSlot& slot = data_[i];
                slot.d = Held(src.d.get(), Drop{false});
                slot.m = clone(src.m);
                slot.v = src.v;
                slot.h = src.h;
            }
        }
    }

    bool release_type(size_t i)
    {
        if (!types_[i].m || i % 2 == 0 || types_[i].m->k == K::ENUM)
        {
            return false;
        }
        rt::arm(rt::Fault{FK::FROM, 1});
        types_[i].real = RealT();
        rt::disarm();
        types_[i].m = nullptr;
        return true;
    }

private:
    const Tune& tune_;
    std::vector<TSlot> types_;
    std::vector<DSlot> data_;
    std::vector<Handle> handles_;
    int nstep_ = 0;
    bool writing_ = false;

    void verify_types()
    {
        for (auto& t : types_)
        {
            if (t.m)
            {
                check_type(*t.real, *t.m, t.m->name);
            }
        }
        verify_handles();
    }

    void verify_handles()
    {
        for (auto& h : handles_)
        {
            if ((h.p.get() != nullptr) != (h.m != nullptr))
            {
                fail("value", h.m ? "a type pointer lost its type" : "an empty type pointer has a type");
            }
            if (h.m)
            {
                check_type(*h.p, *h.m, "type pointer to " + h.m->name);
            }
        }
    }

    // -------------------------------------------------------------- helpers
    Gen gen() const
    {
        Gen g;
        std::copy(tune_.kinds, tune_.kinds + 26, g.weights);
        g.max_depth = tune_.depth;
        for (auto& t : types_)
        {
            if (t.m)
            {
                g.pool.push_back(t.m);
            }
        }
        return g;
    }

    std::string label(int i) const { return "d" + std::to_string(i); }

    void verify(int i)
    {
        DSlot& s = data_[i];
        if (s.d && s.known)
        {
            ++stats.checks;
            check_val(*s.d, s.v, *s.m, label(i));
        }
    }

    void verify_quick(int except = -1)
    {
        for (size_t i = 0; i < data_.size(); ++i)
        {
            DSlot& s = data_[i];
            if (int(i) != except && s.d && s.known && s.d->hash() != s.h)
            {
                verify(int(i));
                fail("value", label(int(i)) + ": the hash of an untouched value changed");
            }
        }
    }

    void verify_all(bool full)
    {
        for (size_t i = 0; full && i < data_.size(); ++i)
        {
            verify(int(i));
        }
        verify_quick();
    }

    // a change of slot i succeeded
    void commit(int i)
    {
        DSlot& s = data_[i];
        check_val(*s.d, s.v, *s.m, label(i));
        adopt(*s.d, s.v, *s.m);
        s.h = s.d->hash();
        verify_quick(i);
    }

    std::function<void()> unchanged(int i)
    {
        return [this, i]()
               {
                   verify(i);
                   verify_quick();
               };
    }

    int pick_data(uint32_t a, bool known = true) const
    {
        std::vector<int> c;
        for (size_t i = 0; i < data_.size(); ++i)
        {
            if (data_[i].d && (!known || data_[i].known) && !(writing_ && data_[i].shared()))
            {
                c.push_back(int(i));
            }
        }
        return c.empty() ? -1 : c[a % c.size()];
    }

    int pick_type(uint32_t a, const std::function<bool(const MT&)>& ok = nullptr) const
    {
        std::vector<int> c;
        for (size_t i = 0; i < types_.size(); ++i)
        {
            if (types_[i].m && (!ok || ok(*types_[i].m)) && !(writing_ && types_[i].shared))
            {
                c.push_back(int(i));
            }
        }
        return c.empty() ? -1 : c[a % c.size()];
    }

    std::vector<Where> parts(const std::function<bool(const MT&, const Val&)>& ok, int only = -1)
    {
        std::vector<Where> w;
        for (size_t i = 0; i < data_.size(); ++i)
        {
            DSlot& s = data_[i];
            if (!s.d || !s.known || (only >= 0 && int(i) != only) || (writing_ && s.shared()))
            {
                continue;
            }
            walk(s.m, s.v, [&](const Path& p, const MTP& t, Val& v)
                    {
                        if (ok(*t, v))
                        {
                            w.push_back(Where{int(i), p, t, &v});
                        }
                    });
        }
        return w;
    }

    // a part accepted by ok: in slot a if there is one, else anywhere
    bool pick_part(const Op& op, const std::function<bool(const MT&, const Val&)>& ok, Where& out)
    {
        int s = pick_data(op.a);
        if (s < 0)
        {
            return false;
        }
        auto w = parts(ok, s);
        if (w.empty())
        {
            w = parts(ok);
        }
        if (w.empty())
        {
            return false;
        }
        out = w[op.b % w.size()];
        return true;
    }

    WritableDynamicDataRef ref(const Where& w)
    {
        DSlot& s = data_[w.slot];
        if (s.shared())
        {
            return Open(descend_reading(*s.d, *s.m, s.v, w.path));
        }
        return descend(s.d->ref(), *s.m, s.v, w.path);
    }

    size_t total_weight(int except = -1)
    {
        size_t n = 0;
        for (size_t i = 0; i < data_.size(); ++i)
        {
            if (data_[i].d && int(i) != except)
            {
                walk(data_[i].m, data_[i].v, [&](const Path&, const MTP&, Val&) { ++n; });
            }
        }
        return n;
    }

    static size_t size_of(const MTP& t, Val& v)
    {
        size_t n = 0;
        walk(t, v, [&](const Path&, const MTP&, Val&) { ++n; });
        return n;
    }

    int free_slot(const Op& op)
    {
        for (size_t i = 0; i < data_.size(); ++i)
        {
            if (!data_[i].d)
            {
                return int(i);
            }
        }
        int i = int(op.d % data_.size());
        for (size_t n = 0; data_[i].shared() && n < data_.size(); ++n)
        {
            i = (i + 1) % int(data_.size());
        }
        drop(i);
        return i;
    }

    void drop(int i)
    {
        rt::arm(rt::Fault{FK::FROM, 1});
        data_[i].d.reset();
        rt::disarm();
        data_[i] = DSlot();
        verify_quick();
    }

    void install(int i, std::unique_ptr<DynamicData> d, const MTP& m, const Val& v)
    {
        data_[i].d = Held(d.release());
        data_[i].m = m;
        data_[i].v = v;
        data_[i].known = true;
        commit(i);
    }

    // -------------------------------------------------------------- types
    void t_new(const Op& op)
    {
        Rng r(op.seed());
        Gen g = gen();
        static const int favored[] = {int(K::STRUCT), int(K::STRUCT), int(K::UNION), int(K::ENUM), int(K::ALIAS),
                                      int(K::SEQ), int(K::MAP), int(K::ARRAY)};
        int k = favored[op.b % 8];
        for (int i = 0; i < 26; ++i)
        {
            g.weights[i] = i == k ? 1 : 0;
        }
        Gen inner = gen();
        MTP m;
        {
            // the outermost kind is chosen, the rest follows the profile
            Gen outer = inner;
            outer.pool.clear();
            std::copy(g.weights, g.weights + 26, outer.weights);
            if (k == int(K::STRUCT) || k == int(K::UNION) || k == int(K::ENUM))
            {
                for (int tries = 0; tries < 40; ++tries)
                {
                    MTP c = gen_type(r, inner, 0);
                    if (int(c->k) == k)
                    {
                        m = c;
                        break;
                    }
                }
            }
            if (!m)
            {
                outer.max_depth = 1;
                m = gen_type(r, outer, 0);
            }
        }
        if (weight(*m) > 40)
        {
            return;
        }
        RealT real;
        attempt(op, Expect::OK, "building a type", [&]()
                {
                    real = build(*m);
                }, [&]() { verify_quick(); });
        check_type(*real, *m, "new type " + m->name);
        size_t i = op.a % types_.size();
        types_[i].real = std::move(real);
        types_[i].m = m;
        types_[i].shared = false;
        verify_quick();
    }

    static const MMember* find(const MT& t, const std::string& name)
    {
        for (auto& m : t.mem)
        {
            if (m.name == name)
            {
                return &m;
            }
        }
        return nullptr;
    }

    // members, cases and enumerators, accepted and refused
    void t_add(const Op& op)
    {
        int i = pick_type(op.a, [](const MT& t)
                {
                    return t.k == K::STRUCT || t.k == K::UNION || t.k == K::ENUM || t.k == K::PAIR;
                });
        if (i < 0)
        {
            return;
        }
        TSlot& slot = types_[i];
        Rng r(op.seed());
        auto next = std::make_shared<MT>(*slot.m);
        auto same_type = [&]()
                {
                    check_type(*slot.real, *slot.m, "type " + slot.m->name);
                    verify_quick();
                };
        Expect expect = Expect::OK;
        if (slot.m->k == K::ENUM)
        {
            std::string name = "e" + std::to_string(r.below(8));
            bool implicit = r.chance(1, 3);
            u64 value = implicit ? slot.m->next : r.below(slot.m->next + 4);
            u64 max = slot.m->width == 1 ? 0xff : slot.m->width == 2 ? 0xffff : 0xffffffffULL;
            if (!implicit && r.chance(1, 12))
            {
                value = max;
            }
            bool exhausted = slot.m->next > max;
            for (auto& e : slot.m->en)
            {
                if (e.first == name)
                {
                    expect = Expect::REFUSE;
                }
            }
            if (exhausted || value < slot.m->next)
            {
                expect = Expect::REFUSE;
            }
            Res res = attempt(op, expect, "add_enumerator", [&]()
                    {
                        auto add = [&](auto z)
                                {
                                    using T = decltype(z);
                                    auto& e = slot.real.as<xt::EnumerationType<T> >();
                                    if (implicit)
                                    {
                                        e.add_enumerator(name);
                                    }
                                    else
                                    {
                                        e.add_enumerator(name, T(value));
                                    }
                                };
                        slot.m->width == 1 ? add(uint8_t()) : slot.m->width == 2 ? add(uint16_t()) : add(uint32_t());
                    }, same_type);
            if (res == Res::OK)
            {
                next->en.push_back({name, value});
                next->next = value + 1;
                slot.m = next;
            }
            same_type();
            return;
        }
        MMember m;
        Gen g = gen();
        g.max_depth = 2;
        m.type = gen_type(r, g, 1);
        if (weight(*slot.m) + weight(*m.type) > 50)
        {
            return;
        }
        bool first = slot.m->k == K::PAIR && r.chance(1, 2);
        if (first)
        {
            m.type = gen_key(r, g);
        }
        RealT type = build(*m.type);
        if (slot.m->k == K::PAIR)
        {
            Res res = attempt(op, Expect::OK, "changing a part of a pair", [&]()
                    {
                        auto& pair = slot.real.as<xt::PairType>();
                        first ? pair.first(*type) : pair.second(*type);
                    }, same_type);
            if (res == Res::OK)
            {
                (first ? next->key : next->elem) = m.type;
                slot.m = next;
            }
            same_type();
            return;
        }
        if (slot.m->k == K::STRUCT)
        {
            m.name = "m" + std::to_string(r.below(6));
            m.key = r.chance(1, 8);
            if (find(*slot.m, m.name))
            {
                expect = Expect::REFUSE;
            }
            Res res = attempt(op, expect, "add_member", [&]()
                    {
                        if (m.key)
                        {
                            slot.real.as<xt::StructType>().add_member(xt::Member(m.name, *type).key());
                        }
                        else
                        {
                            slot.real.as<xt::StructType>().add_member(m.name, *type);
                        }
                    }, same_type);
            if (res == Res::OK)
            {
                next->mem.push_back(m);
                slot.m = next;
            }
            same_type();
            return;
        }
        add_case(op, slot, m, type, r, false);
    }

    void add_case(const Op& op, TSlot& slot, MMember m, const RealT& type, Rng& r, bool odd)
    {
        auto next = std::make_shared<MT>(*slot.m);
        auto same_type = [&]()
                {
                    check_type(*slot.real, *slot.m, "type " + slot.m->name);
                    verify_quick();
                };
        Expect expect = Expect::OK;
        if (has_kind(*m.type, K::F128))
        {
            return;
        }
        m.name = "c" + std::to_string(r.below(8));
        const MT& disc = *slot.m->disc;
        const MT& d = res(disc);
        std::vector<int64_t> ls;
        bool is_default = r.chance(1, 4);
        for (int j = 0, c = int(r.below(4)); j < c; ++j)
        {
            ls.push_back(gen_label(r, disc));
        }
        if (odd)
        {
            switch (r.below(5))
            {
                case 0: m.name = "discriminator"; break;
                case 1: ls.push_back(default_label(disc)); break;
                case 2: ls.clear(); is_default = false; break;
                case 3:
                    if (!slot.m->labels.empty())
                    {
                        ls.push_back(slot.m->labels[r.below(slot.m->labels.size())].first);
                    }
                    break;
                default:
                    is_default = true;
                    if (d.k == K::ENUM)
                    {
                        ls.push_back(int64_t(d.next % 200));   // nobody defined it
                    }
                    break;
            }
        }
        std::vector<int64_t> added;
        for (int64_t l : ls)
        {
            int64_t s = shrink(l, disc);
            if (s == default_label(disc) || !label_allowed(disc, s))
            {
                expect = Expect::REFUSE;
            }
            for (auto& o : slot.m->labels)
            {
                if (o.first == s)
                {
                    expect = Expect::REFUSE;
                }
            }
            if (std::find(added.begin(), added.end(), s) == added.end())
            {
                added.push_back(s);
            }
        }
        if (ls.empty() && !is_default)
        {
            expect = Expect::REFUSE;
        }
        if (is_default && slot.m->def >= 0)
        {
            expect = Expect::REFUSE;
        }
        if (m.name == "discriminator" || find(*slot.m, m.name))
        {
            expect = Expect::REFUSE;
        }
        // labels as text where the text says exactly the same
        bool text = op.d % 3 == 0 && !(is_default && odd);
        std::vector<std::string> texts;
        for (int64_t l : ls)
        {
            std::string n;
            text &= label_text(disc, l, r.next(), n);
            if (d.k == K::ENUM)
            {
                for (auto& e : d.en)
                {
                    if (int64_t(e.second) == l)
                    {
                        n = e.first;
                    }
                }
            }
            texts.push_back(n);
        }
        if (text && odd && d.k == K::BOOL && r.chance(1, 2))
        {
            texts.push_back(r.chance(1, 2) ? "MAYBE" : "1");
            expect = Expect::REFUSE;
        }
        if (is_default)
        {
            texts.insert(texts.begin() + long(r.below(texts.size() + 1)), "default");
        }
        rt::note("add to " + show(*slot.m) + " the case " + m.name + (is_default ? " default" : "") + " labels "
                + [&]() { std::string x; for (int64_t l : ls) { x += std::to_string(l) + " "; } return x; } ()
                + (text ? "as text" : ""));
        Res res = attempt(op, expect, "add_case_member", [&]()
                {
                    auto& u = slot.real.as<xt::UnionType>();
                    if (text)
                    {
                        u.add_case_member(texts, xt::Member(m.name, *type));
                    }
                    else
                    {
                        u.add_case_member(ls, m.name, *type, is_default);
                    }
                }, same_type);
        if (res == Res::OK)
        {
            for (int64_t s : added)
            {
                next->labels.push_back({s, int(next->mem.size())});
            }
            if (is_default)
            {
                next->def = int(next->mem.size());
            }
            next->mem.push_back(m);
            std::sort(next->labels.begin(), next->labels.end());
            slot.m = next;
        }
        same_type();
    }

    void t_label(const Op& op)
    {
        int i = pick_type(op.a, [](const MT& t) { return t.k == K::UNION; });
        Rng r(op.seed());
        if (i < 0)
        {
            // a union no discriminator type allows
            static const K bad[] = {K::F32, K::F64, K::F128};
            RealT d = op.b % 2 ? build(*mprim(bad[op.b % 3])) : RealT(new xt::StringType(), true);
            attempt(op, Expect::REFUSE, "building a union", [&]() { xt::UnionType u("UB", *d); }, [&]() { verify_quick(); });
            return;
        }
        Gen g = gen();
        g.max_depth = 2;
        MMember m;
        m.type = gen_type(r, g, 1);
        if (weight(*types_[i].m) + weight(*m.type) > 50)
        {
            return;
        }
        RealT type = build(*m.type);
        add_case(op, types_[i], m, type, r, true);
    }

    void t_rename(const Op& op)
    {
        int i = pick_type(op.a);
        if (i < 0)
        {
            return;
        }
        TSlot& slot = types_[i];
        std::string name = (op.b % 4 ? "renamed" : "a_rather_long_new_name_") + std::to_string(op.b);
        attempt(op, Expect::OK, "name", [&]() { slot.real.as<xt::DynamicType>().name(name); }, [&]()
                {
                    check_type(*slot.real, *slot.m, "type " + slot.m->name);
                    verify_quick();
                });
        auto next = std::make_shared<MT>(*slot.m);
        next->name = name;
        slot.m = next;
        check_type(*slot.real, *slot.m, "type " + slot.m->name);
        verify_quick();
    }

    static void copy_type(const RealT& from, const MT& m, RealT& real)
    {
        switch (m.k)
        {
            case K::STRUCT: real = RealT(new xt::StructType(from.as<xt::StructType>()), true); break;
            case K::UNION: real = RealT(new xt::UnionType(from.as<xt::UnionType>()), true); break;
            case K::ALIAS: real = RealT(new xt::AliasType(from.as<xt::AliasType>()), true); break;
            case K::ARRAY: real = RealT(new xt::ArrayType(from.as<xt::ArrayType>()), true); break;
            case K::SEQ: real = RealT(new xt::SequenceType(from.as<xt::SequenceType>()), true); break;
            case K::MAP: real = RealT(new xt::MapType(from.as<xt::MapType>()), true); break;
            case K::PAIR: real = RealT(new xt::PairType(from.as<xt::PairType>()), true); break;
            case K::STR: real = RealT(new xt::StringType(from.as<xt::StringType>()), true); break;
            case K::WSTR: real = RealT(new xt::WStringType(from.as<xt::WStringType>()), true); break;
            case K::STR16: real = RealT(new xt::String16Type(from.as<xt::String16Type>()), true); break;
            default: break;
        }
    }

    // a copy kept by a module, which lets it grow
    static void register_type(const RealT& from, const MT& m, RealT& real)
    {
        auto module = std::make_shared<xt::idl::Module>();
        const xt::DynamicType* kept = nullptr;
        bool done = false;
        switch (m.k)
        {
            case K::STRUCT:
                done = module->structure(from.as<xt::StructType>());
                kept = &module->structure(m.name);
                break;
            case K::UNION:
                done = module->union_switch(from.as<xt::UnionType>());
                kept = &module->union_switch(m.name);
                break;
            default:
                done = module->enum_32(std::move(from.as<xt::EnumerationType<uint32_t>>()));   // which it copies
                kept = &module->enum_32(m.name);
        }
        if (!done)
        {
            fail("value", "a module refused the type " + m.name);
        }
        real = RealT(kept, module);
    }

    void t_copy(const Op& op)
    {
        bool registered = op.d % 3 == 0;
        int i = pick_type(op.a, [&](const MT& t)
                {
                    return registered ? t.k == K::STRUCT || t.k == K::UNION || (t.k == K::ENUM && t.width == 4) : t.k != K::ENUM;
                });
        if (i < 0)
        {
            return;
        }
        TSlot& slot = types_[i];
        RealT real;
        MTP m = slot.m;
        attempt(op, Expect::OK, "copying a type", [&]()
                {
                    registered ? register_type(slot.real, *slot.m, real) : copy_type(slot.real, *slot.m, real);
                }, [&]()
                {
                    check_type(*slot.real, *slot.m, "type " + slot.m->name);
                });
        if (!real)
        {
            return;
        }
        check_type(*real, *m, "copy of type " + m->name);
        size_t j = op.b % types_.size();
        types_[j].real = std::move(real);
        types_[j].m = m;
        types_[j].shared = false;
        verify_quick();
    }

    // types kept by DynamicType::Ptr: each pointer has its own copy
    void t_ptr(const Op& op)
    {
        size_t at = op.a % NH;
        Handle& o = handles_[op.b % NH];
        int ti = op.b % 4 ? pick_type(op.d, [](const MT& t) { return t.k == K::STRUCT || t.k == K::UNION || t.k == K::ENUM; })
                 : pick_type(op.d);
        ti = ti < 0 ? pick_type(op.d) : ti;
        for (size_t i = 0; i < NH && op.c % 9 <= 2 && op.b % 8 && ti >= 0; ++i)   // over an earlier state of the type
        {
            at = handles_[i].m && handles_[i].m->name == types_[ti].m->name ? i : at;
        }
        Handle& h = handles_[at];
        auto same = [&]()
                {
                    verify_handles();
                    verify_quick();
                };
        switch (op.c % 9)
        {
            case 0:
            case 1:
            case 2:
            {
                if (ti < 0)
                {
                    return;
                }
                const MTP m = types_[ti].m;
                Res res = attempt(op, Expect::OK, "pointing to a type", [&]()
                        {
                            xt::DynamicType::Ptr p(*types_[ti].real);
                            if (op.c % 9 == 0)
                            {
                                h.p = std::move(p);
                            }
                            else
                            {
                                h.p = p;
                            }
                        }, same);
                if (res == Res::OK)
                {
                    h.m = m;
                }
                break;
            }
            case 3:
            case 4:
            {
                Res res = attempt(op, Expect::OK, "copying a type pointer", [&]() { h.p = o.p; }, same);
                if (res == Res::OK)
                {
                    h.m = o.m;
                }
                break;
            }
            case 5:
                if (&h != &o)
                {
                    MTP m = o.m;
                    attempt(op, Expect::OK, "moving a type pointer", [&]() { h.p = std::move(o.p); }, same);
                    h.m = m;
                    o.m = nullptr;
                    o.p.free();
                }
                break;
            case 6:
            {
                std::shared_ptr<const xt::DynamicType> alone;
                attempt(op, Expect::OK, "freeing a type pointer", [&]() { alone = h.p.free(); }, same);
                if ((alone != nullptr) != (h.m != nullptr))
                {
                    fail("value", "the type freed from a pointer");
                }
                if (h.m)
                {
                    check_type(*alone, *h.m, "type freed from a pointer");
                }
                h.m = nullptr;
                break;
            }
            case 7:
            {
                if (!h.m || weight(*h.m) > 60)
                {
                    return;
                }
                int i = free_slot(op);
                std::unique_ptr<DynamicData> d;
                attempt(op, Expect::OK, "creating data of a type pointer", [&]()
                        {
                            xt::DynamicType::Ptr copy(h.p);
                            d = std::make_unique<DynamicData>(*copy);
                        }, same);
                install(i, std::move(d), h.m, default_val(*h.m));
                break;
            }
            default:
            {
                if (ti < 0)
                {
                    return;
                }
                // a type is moved to another place
                TSlot& slot = types_[ti];
                RealT real;
                attempt(op, Expect::OK, "moving a type", [&]() { move_type(slot.real, *slot.m, real); }, same);
                if (real)
                {
                    check_type(*real, *slot.m, "type moved from " + slot.m->name);
                    slot.real = std::move(real);
                }
            }
        }
        same();
    }

    static void move_type(const RealT& from, const MT& m, RealT& real)
    {
        switch (m.k)
        {
            case K::STRUCT: real = RealT(new xt::StructType(std::move(from.as<xt::StructType>())), true); break;
            case K::UNION: real = RealT(new xt::UnionType(std::move(from.as<xt::UnionType>())), true); break;
            case K::ALIAS: real = RealT(new xt::AliasType(std::move(from.as<xt::AliasType>())), true); break;
            case K::ARRAY: real = RealT(new xt::ArrayType(std::move(from.as<xt::ArrayType>())), true); break;
            case K::SEQ: real = RealT(new xt::SequenceType(std::move(from.as<xt::SequenceType>())), true); break;
            case K::MAP: real = RealT(new xt::MapType(std::move(from.as<xt::MapType>())), true); break;
            case K::PAIR: real = RealT(new xt::PairType(std::move(from.as<xt::PairType>())), true); break;
            case K::STR: real = RealT(new xt::StringType(std::move(from.as<xt::StringType>())), true); break;
            default: break;
        }
    }

    void t_drop(const Op& op)
    {
        int i = pick_type(op.a);
        if (i < 0)
        {
            return;
        }
        rt::arm(rt::Fault{FK::FROM, 1});
        types_[i].real = RealT();
        rt::disarm();
        types_[i].m = nullptr;
        verify_all(true);
    }

    struct TNode
    {
        size_t deep, index;
        std::string member, name;
        xt::TypeKind kind;
        int parent;
    };

    static void expect_types(const MT& t, size_t deep, size_t index, const std::string& member, int parent,
            std::vector<TNode>& out, const std::string& inherited = "")
    {
        // the definition an alias stands for is visited in its place, under the name of the alias
        int me = int(out.size());
        const MT& d = res(t);
        out.push_back(TNode{deep, index, member, t.name, real_kind(t), parent});
        switch (d.k)
        {
            case K::ARRAY:
            case K::SEQ:
                expect_types(*d.elem, deep + 1, 0, "", me, out, member);
                break;
            case K::MAP:
                out.push_back(TNode{deep + 1, 0, "", "pair_" + d.key->name + "_" + d.elem->name,
                                    xt::TypeKind::PAIR_TYPE, me});
                expect_types(*d.key, deep + 2, 0, member, me + 1, out, "");
                expect_types(*d.elem, deep + 2, 1, member, me + 1, out, "");
                break;
            case K::PAIR:
            {
                std::string from = member.empty() ? inherited : member;
                expect_types(*d.key, deep + 1, 0, from, me, out, "");
                expect_types(*d.elem, deep + 1, 1, from, me, out, "");
                break;
            }
            case K::STRUCT:
                for (size_t i = 0; i < d.mem.size(); ++i)
                {
                    expect_types(*d.mem[i].type, deep + 1, i, d.mem[i].name, me, out);
                }
                break;
            case K::UNION:
                expect_types(*d.disc, deep + 1, 0, "discriminator", me, out);
                for (size_t i = 0; i < d.mem.size(); ++i)
                {
                    expect_types(*d.mem[i].type, deep + 1, i + 1, d.mem[i].name, me, out);
                }
                break;
            default:
                break;
        }
    }

    struct Odd { int x; };

    void t_visit(const Op& op)
    {
        int i = pick_type(op.a);
        if (i < 0)
        {
            return;
        }
        TSlot& slot = types_[i];
        std::vector<TNode> want;
        expect_types(*slot.m, 0, 0, "", -1, want);
        size_t stop = op.d % 3 == 0 ? want.size() : op.c % want.size();
        bool value = op.b % 2;
        size_t at = 0;
        bool result = true;
        attempt(op, Expect::OK, "visiting a type", [&]()
                {
                    {
                        rt::Pause p;
                        at = 0;
                    }
                    result = slot.real->for_each([&](const xt::DynamicType::TypeNode& n)
                    {
                        rt::Pause p;
                        if (at >= want.size())
                        {
                            fail("visit", "too many visits of a type: " + n.type().name());
                        }
                        const TNode& w = want[at];
                        std::string got = n.from_member() ? n.from_member()->name() : "";
                        if (n.deep() != w.deep || n.from_index() != w.index || n.type().name() != w.name
                                || n.type().kind() != w.kind || n.has_parent() != (w.parent >= 0)
                                || (w.parent >= 0 && n.parent().type().name() != want[size_t(w.parent)].name)
                                || got != w.member)
                        {
                            fail("visit", "visit " + std::to_string(at) + " of type " + slot.m->name + " is of "
                                    + n.type().name() + " deep " + std::to_string(n.deep()) + " index "
                                    + std::to_string(n.from_index()) + " member '" + got + "', expected " + w.name
                                    + " deep " + std::to_string(w.deep) + " index " + std::to_string(w.index)
                                    + " member '" + w.member + "'");
                        }
                        if (at++ == stop)
                        {
                            rt::probe("type visit stopped");
                            throw value;
                        }
                    });
                }, [&]() { check_type(*slot.real, *slot.m, "type " + slot.m->name); });
        bool stopped = stop < want.size();
        if (at != (stopped ? stop + 1 : want.size()) || result != (stopped ? value : true))
        {
            fail("visit", "a visit of type " + slot.m->name + " made " + std::to_string(at) + " calls and returned "
                    + std::to_string(result));
        }
    }

    // -------------------------------------------------------------- data
    void d_new(const Op& op)
    {
        Rng r(op.seed());
        Gen g = gen();
        int ti = op.b % 3 ? pick_type(op.b / 3) : -1;
        MTP m;
        RealT own;
        const xt::DynamicType* type;
        if (ti >= 0)
        {
            m = types_[ti].m;
            type = types_[ti].real.get();
        }
        else
        {
            for (int tries = 0; tries < 4; ++tries)   // prefer something that has parts
            {
                m = gen_type(r, g, 0);
                if (!is_prim(m->k))
                {
                    break;
                }
            }
            if (weight(*m) > 60)
            {
                return;
            }
            own = build(*m);
            type = own.get();
        }
        if (weight(*m) > 80)
        {
            return;
        }
        int i = free_slot(op);
        std::unique_ptr<DynamicData> d;
        attempt(op, Expect::OK, "creating data", [&]()
                {
                    d = std::make_unique<DynamicData>(*type);
                }, [&]() { verify_quick(); });
        own = RealT();
        install(i, std::move(d), m, default_val(*m));
        if (op.d % 4)   // and give it a value
        {
            Val v = gen_val(r, *m, 8);
            if (size_of(m, v) < 700)
            {
                fill(data_[i].d->ref(), v, *m, r);
                reconcile(*m, data_[i].v, v);
                data_[i].v = v;
                commit(i);
            }
        }
    }

    // what fill() leaves where v cannot be written: unions keep a live default, undefined enumerators stay 0
    void reconcile(const MT& rt_, const Val& was, Val& v)
    {
        const MT& t = res(rt_);
        if (t.k == K::ENUM && t.en.empty())
        {
            v.bits = 0;
        }
        (void) was;
    }

    void d_copy(const Op& op)
    {
        int s = pick_data(op.a);
        if (s < 0 || total_weight() > 1500)
        {
            return;
        }
        std::unique_ptr<DynamicData> d;
        attempt(op, Expect::OK, "copying data", [&]()
                {
                    d = std::make_unique<DynamicData>(*data_[s].d);
                }, unchanged(s));
        if (!(*d == *data_[s].d) || *d != *data_[s].d || d->hash() != data_[s].d->hash())
        {
            fail("value", "a copy of " + label(s) + " does not equal it or hashes differently: "
                    + show(*data_[s].m) + " " + show(*data_[s].m, data_[s].v));
        }
        MTP m = data_[s].m;
        Val v = data_[s].v;
        install(free_slot(op), std::move(d), m, v);
    }

    void d_copy_ref(const Op& op)
    {
        Where w;
        if (total_weight() > 1500 || !pick_part(op, [](const MT&, const Val&) { return true; }, w))
        {
            return;
        }
        auto source = ref(w);
        std::unique_ptr<DynamicData> d;
        attempt(op, Expect::OK, "copying a part", [&]()
                {
                    if (op.d % 2)
                    {
                        d = std::make_unique<DynamicData>(source.cref());
                    }
                    else
                    {
                        d = std::make_unique<DynamicData>(static_cast<const ReadableDynamicDataRef&>(source));
                    }
                }, unchanged(w.slot));
        MTP m = w.t;
        Val v = *w.v;
        install(free_slot(op), std::move(d), m, v);
    }

    void d_move(const Op& op)
    {
        int s = pick_data(op.a);
        if (s < 0)
        {
            return;
        }
        std::unique_ptr<DynamicData> d;
        attempt(op, Expect::OK, "moving data", [&]()
                {
                    d = std::make_unique<DynamicData>(std::move(*data_[s].d));
                }, unchanged(s));
        MTP m = data_[s].m;
        Val v = data_[s].v;
        std::unique_ptr<DynamicData> old(data_[s].d.release());
        data_[s] = DSlot();
        install(s, std::move(d), m, v);
        switch (op.c % 3)   // the source can still be assigned and destroyed
        {
            case 0:
                rt::arm(rt::Fault{});
                *old = *data_[s].d;
                rt::disarm();
                check_val(*old, v, *m, "moved-from data assigned again");
                break;
            case 1:
            {
                int j = free_slot(op);
                if (j != s)
                {
                    rt::arm(rt::Fault{});
                    *old = static_cast<ReadableDynamicDataRef>(*data_[s].d);
                    rt::disarm();
                    install(j, std::move(old), m, v);
                }
                break;
            }
            default:
                break;
        }
        rt::arm(rt::Fault{FK::FROM, 1});
        old.reset();
        rt::disarm();
        verify(s);
        verify_quick();
    }

    void d_convert(const Op& op)
    {
        Where w;
        if (total_weight() > 1500 || !pick_part(op, [](const MT& t, const Val&) { return t.k != K::PAIR; }, w))
        {
            return;
        }
        Rng r(op.seed());
        if (op.d % 4 == 0)
        {
            d_clash(op, w, r);
            return;
        }
        MTP to = mutate(r, w.t);
        RealT type = build(*to);
        if (type->is_compatible(ref(w).type()) == xt::TypeConsistency::NONE)
        {
            return;
        }
        Val v = convert(*w.t, *w.v, *to);
        auto source = ref(w);
        std::unique_ptr<DynamicData> d;
        attempt(op, Expect::OK, "converting data", [&]()
                {
                    d = std::make_unique<DynamicData>(source, *type);
                }, unchanged(w.slot));
        type = RealT();
        if (res(*to).k == K::MAP)
        {
            settle_map(*d, res(*to), v);
        }
        install(free_slot(op), std::move(d), to, v);
    }

    // another type of the same shape, but for a part of another nature: nothing converts to it, or is assigned
    void d_clash(const Op& op, const Where& w, Rng& r)
    {
        MTP to = clash(r, w.t);
        if (!to)
        {
            return;
        }
        rt::probe("types that clash");
        RealT type = build(*to);
        auto target = ref(w);
        std::unique_ptr<DynamicData> other;
        rt::arm(rt::Fault{});
        other = std::make_unique<DynamicData>(*type);
        rt::disarm();
        if (type->is_compatible(target.type()) != xt::TypeConsistency::NONE
            || target.type().is_compatible(*type) != xt::TypeConsistency::NONE)
        {
            fail("type", "compatible: " + show(*w.t) + " and " + show(*to));
        }
        attempt(op, Expect::REFUSE, "converting to another type", [&]()
                {
                    switch (op.c % 4)
                    {
                        case 0: DynamicData(target, *type); break;
                        case 1: DynamicData(*other, target.type()); break;
                        case 2: target = other->ref(); break;
                        default: other->ref() = target; break;
                    }
                }, unchanged(w.slot));
        check_val(*other, default_val(*to), *to, "what was refused");
        rt::arm(rt::Fault{});
        other.reset();
        rt::disarm();
        verify(w.slot);
        verify_quick();
    }

    // Keys can become equal, and entries not fit: any of them can be the one kept.
    void settle_map(const DynamicData& d, const MT& t, Val& v)
    {
        size_t distinct = 0;
        for (size_t i = 0; i < v.ent.size(); ++i)
        {
            distinct += std::none_of(v.ent.begin(), v.ent.begin() + long(i), [&](const std::pair<Val, Val>& e)
                            {
                                return val_eq(*t.key, e.first, v.ent[i].first);
                            });
        }
        size_t kept = t.bound ? std::min(distinct, size_t(t.bound)) : distinct;
        if (kept == v.ent.size())
        {
            return;
        }
        rt::probe("map converted to fewer entries");
        if (d.size() != kept)
        {
            fail("value", "converted map: " + std::to_string(d.size()) + " entries instead of " + std::to_string(kept));
        }
        Val out;
        const ReadableDynamicDataRef& reader = d;
        for (ReadableDynamicDataRef pair : reader)
        {
            auto it = std::find_if(v.ent.begin(), v.ent.end(), [&](const std::pair<Val, Val>& e)
                            {
                                return equals_val(pair[0], e.first, *t.key) && equals_val(pair[1], e.second, *t.elem);
                            });
            if (it == v.ent.end() || find_key(t, out, it->first) >= 0)
            {
                fail("value", "converted map: an entry that no conversion gives, or one twice");
            }
            out.ent.push_back(*it);
        }
        v = out;
    }

    void d_drop(const Op& op)
    {
        int s = pick_data(op.a);
        if (s >= 0)
        {
            drop(s);
        }
    }

    bool any(const MT&, const Val&) { return true; }

    void d_assign(const Op& op)
    {
        Where w;
        auto all = [](const MT&, const Val&) { return true; };
        auto big = [](const MT& t, const Val&) { return !is_prim(t.k); };
        if (!pick_part(op, op.d % 5 ? std::function<bool(const MT&, const Val&)>(big) : all, w)
                && !pick_part(op, all, w))
        {
            return;
        }
        Rng r(op.seed());
        std::unique_ptr<DynamicData> fresh;
        Val v;
        auto target = ref(w);
        // the source: something new, or a part of what there is (of the same datum when possible)
        auto cands = parts([&](const MT& t, const Val&) { return same(t, *w.t); }, op.c % 2 ? w.slot : -1);
        if (op.d % 3 == 0 || cands.empty())
        {
            v = gen_val(r, *w.t, 6);
            fresh = make(*w.t, v, r);
            adopt(*fresh, v, *w.t);
            WritableDynamicDataRef src = fresh->ref();
            assign(op, w, target, src, v);
        }
        else
        {
            Where s = cands[op.c % cands.size()];
            v = *s.v;
            auto src = ref(s);
            if (s.slot == w.slot)
            {
                rt::probe("assigned a part of itself");
            }
            assign(op, w, target, src, v);
        }
    }

    void assign(const Op& op, const Where& w, WritableDynamicDataRef& target, const WritableDynamicDataRef& src,
            const Val& v)
    {
        DynamicData& root = *data_[w.slot].d;
        attempt(op, Expect::OK, "assigning data", [&]()
                {
                    if (w.path.empty() && op.d % 2)
                    {
                        root = static_cast<ReadableDynamicDataRef>(src);
                    }
                    else
                    {
                        target = src;
                    }
                }, unchanged(w.slot));
        *w.v = v;
        commit(w.slot);
    }

    static int family(const MT& t)
    {
        return is_prim(t.k) ? 1 : t.k == K::ENUM ? 1 : int(t.k) + 10;
    }

    void d_badassign(const Op& op)
    {
        Where w;
        auto ok = [](const MT& t, const Val&) { return t.k != K::STRUCT && t.k != K::UNION && t.k != K::PAIR; };
        if (!pick_part(op, ok, w))
        {
            return;
        }
        auto cands = parts([&](const MT& t, const Val&)
                {
                    return t.k != K::STRUCT && t.k != K::UNION && t.k != K::PAIR && family(t) != family(*w.t);
                });
        if (cands.empty())
        {
            return;
        }
        Where s = cands[op.c % cands.size()];
        auto target = ref(w);
        auto src = ref(s);
        attempt(op, Expect::REFUSE, "assigning another type", [&]()
                {
                    switch (op.d % 3)
                    {
                        case 0: target = src; break;
                        case 1:
                            if (w.path.empty())
                            {
                                *data_[w.slot].d = static_cast<ReadableDynamicDataRef>(src);
                            }
                            else
                            {
                                target = src;
                            }
                            break;
                        default: DynamicData d(src, target.type()); break;
                    }
                }, unchanged(w.slot));
        verify(w.slot);
        verify_quick();
    }

    // -------------------------------------------------------------- values
    static bool leaf(const MT& t, const Val&) { return is_prim(t.k) || is_str(t.k) || t.k == K::ENUM; }

    void v_set(const Op& op)
    {
        Where w;
        if (!pick_part(op, leaf, w))
        {
            return;
        }
        Rng r(op.seed());
        if (is_str(w.t->k) && !w.v->str.empty() && op.d % 5 == 0)
        {
            character(op, w, w.v->str.size());
            return;
        }
        auto target = ref(w);
        const MT& t = *w.t;
        Val v;
        Expect expect = Expect::OK;
        std::function<void()> lib;
        std::string s;
        std::wstring ws;
        std::u16string us;
        if (is_prim(t.k))
        {
            v.bits = gen_bits(r, t.k);
            with_prim(t.k, [&](auto z)
                    {
                        using T = decltype(z);
                        lib = [&, this]()
                                {
                                    if (op.d % 2)
                                    {
                                        target.value<T>(from_bits<T>(v.bits));
                                    }
                                    else
                                    {
                                        target = from_bits<T>(v.bits);
                                    }
                                };
                    });
        }
        else if (is_str(t.k))
        {
            v.str = gen_text(r, t.k, t.bound ? t.bound + 6 : 64);
            s = to_str(v.str);
            ws = to_wstr(v.str);
            us = to_str16(v.str);
            lib = [&]()
                    {
                        t.k == K::STR ? (op.d % 2 ? (void) (target = s) : target.value<std::string>(s))
                        : t.k == K::WSTR ? (op.d % 2 ? (void) (target = ws) : target.value<std::wstring>(ws))
                        : (op.d % 2 ? (void) (target = us) : target.value<std::u16string>(us));
                    };
            if (t.bound && v.str.size() > t.bound)
            {
                v.str.resize(t.bound);
                rt::probe("text cut at its bound");
            }
        }
        else
        {
            u64 mask = t.width == 1 ? 0xff : t.width == 2 ? 0xffff : 0xffffffffULL;
            v.bits = t.en.empty() || r.chance(1, 3) ? r.below(12) & mask : t.en[r.below(t.en.size())].second;
            bool defined = false;
            for (auto& e : t.en)
            {
                defined |= e.second == v.bits;
            }
            expect = defined ? Expect::OK : Expect::REFUSE;
            lib = [&]()
                    {
                        t.width == 1 ? target.value<uint8_t>(uint8_t(v.bits))
                        : t.width == 2 ? (void) (target = uint16_t(v.bits)) : target.value<uint32_t>(uint32_t(v.bits));
                    };
        }
        Res res = attempt(op, expect, "writing a value", [&]() { lib(); }, unchanged(w.slot));
        if (res == Res::OK)
        {
            *w.v = v;
        }
        commit(w.slot);
    }

    // a battery of operations the library refuses
    void v_refuse(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT&, const Val&) { return true; }, w))
        {
            return;
        }
        const MT& t = *w.t;
        auto target = ref(w);
        const ReadableDynamicDataRef& reader = target;
        std::vector<std::pair<const char*, std::function<void()> > > tries;
        bool collection = t.k == K::ARRAY || t.k == K::SEQ || t.k == K::MAP || is_str(t.k);
        std::unique_ptr<DynamicData> i32 = std::make_unique<DynamicData>(xt::primitive_type<int32_t>());
        std::unique_ptr<DynamicData> text = std::make_unique<DynamicData>(xt::StringType());
        if (t.k != K::I64)
        {
            if (t.k != K::STR)
            {
                tries.push_back({"writing text", [&]() { target = std::string("refused, this is the wrong type"); }});
                tries.push_back({"reading text", [&]() { (void) reader.value<std::string>(); }});
            }
            if (!is_prim(t.k) || t.k != K::I64)
            {
                tries.push_back({"writing int64", [&]() { target.value<int64_t>(77); }});
                tries.push_back({"reading int64", [&]() { (void) reader.value<int64_t>(); }});
            }
        }
        if (t.k != K::F64)
        {
            tries.push_back({"writing double", [&]() { target = 2.5; }});
        }
        if (t.k != K::SEQ)
        {
            tries.push_back({"push", [&]() { target.push<int32_t>(1); }});
            tries.push_back({"push of data", [&]() { target.push(*i32); }});
            tries.push_back({"resize", [&]() { target.resize(3); }});
        }
        else
        {
            const MT& e = res(*t.elem);
            if (e.k != K::STRUCT && e.k != K::STR)
            {
                tries.push_back({"push of the wrong data", [&]() { target.push(*text); }});
            }
            if (t.elem->k != K::STR)
            {
                tries.push_back({"push of the wrong text", [&]() { target.push<std::string>("wrong"); }});
            }
            if (t.elem->k != K::F32)
            {
                tries.push_back({"push of a float", [&]() { target.push<float>(1); }});
            }
        }
        if (t.k != K::MAP)
        {
            tries.push_back({"at", [&]() { (void) reader.at(*i32); }});
            tries.push_back({"operator[] of data", [&]() { (void) target[*i32]; }});
            tries.push_back({"has_key", [&]() { (void) target.has_key(*i32); }});
            tries.push_back({"insert", [&]() { (void) target.insert(*i32); }});
        }
        else
        {
            const MT& k = res(*t.key);
            tries.push_back({"operator[] of an index", [&]() { (void) reader[0]; }});
            if (k.k != K::STRUCT && k.k != K::STR)
            {
                tries.push_back({"operator[] of the wrong key", [&]() { (void) target[*text]; }});
                tries.push_back({"at of the wrong key", [&]() { (void) target.at(*text); }});
                tries.push_back({"has_key of the wrong key", [&]() { (void) target.has_key(*text); }});
            }
            if (k.k == K::STR || k.k == K::WSTR)
            {
                tries.push_back({"operator[] of the wrong key", [&]() { (void) target[*i32]; }});
            }
            tries.push_back({"insert of no pair", [&]() { (void) target.insert(*i32); }});
            const MT& e = res(*t.elem);
            bool other_key = k.k != K::STRUCT, other_value = e.k != K::STRUCT;
            if (other_key || other_value)
            {
                tries.push_back({"insert of another pair", [=, &t]()
                    {
                        MTP odd = is_str(k.k) ? mprim(K::I32) : mtext(K::STR), odd_value = is_str(e.k) ? mprim(K::I32) : mtext(K::STR);
                        bool key_too = other_key && (op.c % 2 || !other_value);
                        RealT kt = build(key_too ? *odd : *t.key), et = build(key_too ? *t.elem : *odd_value);
                        DynamicData pair(xt::PairType(*kt, *et));
                        WritableDynamicDataRef to = target;
                        (void) to.insert(pair);
                    }});
            }
        }
        if (t.k != K::UNION)
        {
            tries.push_back({"d", [&]() { (void) reader.d(); }});
            tries.push_back({"d of a value", [&]() { target.d(1); }});
            tries.push_back({"current_case", [&]() { (void) reader.current_case(); }});
        }
        else
        {
            tries.push_back({"operator[] of an index", [&]() { (void) reader[0]; }});
            tries.push_back({"the discriminator by name", [&]() { (void) target["discriminator"]; }});
            tries.push_back({"reading the discriminator by name", [&]() { (void) reader["discriminator"]; }});
            tries.push_back({"an absent member", [&]() { (void) target["absent"]; }});
        }
        if (t.k == K::STRUCT)
        {
            tries.push_back({"an absent member", [&]() { (void) target["absent"]; }});
            tries.push_back({"an index beyond the members", [&]() { (void) target[t.mem.size()]; }});
            tries.push_back({"an index far beyond the members", [&]() { (void) reader[size_t(-1)]; }});
        }
        else if (t.k != K::UNION)
        {
            tries.push_back({"a member of no structure", [&]() { (void) target["m0"]; }});
            tries.push_back({"items of no structure", [&]() { (void) target.items(); }});
        }
        if (t.k == K::ARRAY || t.k == K::SEQ)
        {
            tries.push_back({"an index beyond the size", [&]() { (void) reader[w.v->kid.size()]; }});
            tries.push_back({"a negative index", [&]() { (void) target[-1]; }});
        }
        if (t.k == K::ARRAY || t.k == K::SEQ || t.k == K::STRUCT || t.k == K::PAIR || t.k == K::UNION)
        {
            // one whose lower bits are those of an index that is allowed
            size_t high = size_t(1) << (op.d % 3 == 0 ? 16 : op.d % 3 == 1 ? 32 : 63);
            tries.push_back({"an index with one high bit", [=, &reader]() { (void) reader[high + op.b % 2]; }});
            tries.push_back({"the lowest index", [&]() { (void) target[INT64_MIN]; }});
        }
        if (!collection)
        {
            tries.push_back({"begin", [&]() { (void) reader.begin(); }});
            tries.push_back({"bounds", [&]() { (void) reader.bounds(); }});
            if (t.k != K::STRUCT && t.k != K::UNION && t.k != K::PAIR)
            {
                tries.push_back({"size", [&]() { (void) reader.size(); }});
                tries.push_back({"operator[]", [&]() { (void) reader[0]; }});
            }
        }
        auto& pick = tries[op.c % tries.size()];
        attempt(op, Expect::REFUSE, pick.first, [&]() { pick.second(); }, unchanged(w.slot));
        verify(w.slot);
        verify_quick();
    }

    // -------------------------------------------------------------- sequences
    void s_push(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT& t, const Val&) { return t.k == K::SEQ; }, w) || total_weight() > 1600)
        {
            return;
        }
        Rng r(op.seed());
        auto target = ref(w);
        const MT& t = *w.t;
        Expect expect = t.bound && w.v->kid.size() >= t.bound ? Expect::REFUSE : Expect::OK;
        const MT& et = *t.elem;
        Val v;
        std::unique_ptr<DynamicData> fresh;
        std::function<void()> lib;
        std::string s;
        std::wstring ws;
        std::u16string us;
        auto cands = parts([&](const MT& x, const Val&) { return same(x, res(et)); }, op.d % 2 ? w.slot : -1);
        if (op.d % 3 == 0 && (is_prim(et.k) || is_str(et.k)))
        {
            v = gen_val(r, et, 3);
            if (is_str(et.k))
            {
                if (et.bound)
                {
                    v.str = gen_text(r, et.k, et.bound + 4);
                }
                s = to_str(v.str);
                ws = to_wstr(v.str);
                us = to_str16(v.str);
                if (et.k == K::STR)
                {
                    lib = [&]() { target.push<std::string>(s); };
                }
                else if (et.k == K::WSTR)
                {
                    lib = [&]() { target.push<std::wstring>(ws); };
                }
                else
                {
                    lib = [&]() { target.push<std::u16string>(us); };
                }
                if (et.bound && v.str.size() > et.bound)
                {
                    v.str.resize(et.bound);
                }
            }
            else
            {
                with_prim(et.k, [&](auto z)
                        {
                            using T = decltype(z);
                            lib = [&]() { target.push<T>(from_bits<T>(v.bits)); };
                        });
            }
        }
        else if (op.d % 3 == 1 && !cands.empty())
        {
            Where src = cands[op.c % cands.size()];
            v = *src.v;
            auto from = std::make_shared<WritableDynamicDataRef>(ref(src));
            if (src.slot == w.slot && src.path.size() == w.path.size() + 1
                    && std::equal(w.path.begin(), w.path.end(), src.path.begin()))
            {
                rt::probe("pushed an element of itself");
            }
            lib = [&target, from]() { target.push(*from); };
        }
        else
        {
            v = gen_val(r, et, 4);
            fresh = make(et, v, r);
            adopt(*fresh, v, et);
            lib = [&]() { target.push(*fresh); };
        }
        Res res = attempt(op, expect, "push", [&]() { lib(); }, unchanged(w.slot));
        if (res == Res::OK)
        {
            w.v->kid.push_back(v);
        }
        else
        {
            rt::probe("push beyond the bound");
        }
        commit(w.slot);
    }

    void s_resize(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT& t, const Val&) { return t.k == K::SEQ; }, w) || total_weight() > 1600)
        {
            return;
        }
        auto target = ref(w);
        const MT& t = *w.t;
        size_t n = op.c % 9;
        Expect expect = Expect::OK;
        bool huge = op.d % 8 == 0 && weight(*t.elem) > 0 && !(res(*t.elem).k == K::STRUCT && res(*t.elem).mem.empty())
                && res(*t.elem).k != K::ARRAY && res(*t.elem).k != K::STRUCT && res(*t.elem).k != K::UNION;
        if (huge)
        {
            static const u64 sizes[] = {(u64(1) << 32) + 3, u64(1) << 32, u64(1) << 31, u64(-1), (u64(1) << 40) + 1,
                                        0xffffffffu, (u64(1) << 33) + 2};
            n = sizes[op.c % 7];
            expect = Expect::NOMEM;
        }
        if (t.bound && n > t.bound)
        {
            expect = Expect::REFUSE;
        }
        if (weight(*t.elem) > 12 && !huge)
        {
            n = n % 3;
        }
        if (expect == Expect::REFUSE && n <= t.bound)
        {
            expect = Expect::OK;
        }
        Res res = attempt(op, expect, "resize", [&]() { target.resize(n); }, unchanged(w.slot));
        if (res == Res::OK)
        {
            while (w.v->kid.size() < n)
            {
                w.v->kid.push_back(default_val(*t.elem));
            }
        }
        else if (res == Res::NOMEM)
        {
            rt::probe("request too large refused");
        }
        commit(w.slot);
    }

    // -------------------------------------------------------------- maps
    struct KeyData
    {
        Val v;
        std::unique_ptr<DynamicData> fresh;
        std::shared_ptr<WritableDynamicDataRef> part;
        const ReadableDynamicDataRef& ref() const
        {
            return fresh ? static_cast<const ReadableDynamicDataRef&>(*fresh) : *part;
        }
    };

    KeyData pick_key(const Op& op, const Where& w, Rng& r)
    {
        KeyData k;
        const MT& t = *w.t;
        unsigned how = op.d % 4;
        if (how == 0)
        {
            auto cands = parts([&](const MT& x, const Val&) { return same(x, res(*t.key)); }, w.slot);
            if (!cands.empty())
            {
                Where s = cands[op.c % cands.size()];
                k.v = *s.v;
                k.part = std::make_shared<WritableDynamicDataRef>(ref(s));
                rt::probe("key from the same datum");
                return k;
            }
        }
        if (how == 1 && !w.v->ent.empty())   // a key of the map itself, where it stands
        {
            auto m = ref(w);
            size_t n = op.c % w.v->ent.size();
            auto it = m.begin();
            for (size_t i = 0; i < n; ++i)
            {
                ++it;
            }
            WritableDynamicDataRef pair = *it;
            k.part = std::make_shared<WritableDynamicDataRef>(pair[0]);
            for (auto& e : w.v->ent)
            {
                if (equals_val(*k.part, e.first, *t.key))
                {
                    k.v = e.first;
                }
            }
            return k;
        }
        if (how == 2 && !w.v->ent.empty())
        {
            k.v = w.v->ent[op.c % w.v->ent.size()].first;
        }
        else
        {
            if (w.v->ent.empty() || !r.chance(1, 2)
                    || !collide(r, *t.key, w.v->ent[r.below(w.v->ent.size())].first, k.v))
            {
                k.v = gen_val(r, *t.key, 3);
            }
            else
            {
                rt::probe("key with the hash of another");
            }
            K kind = res(*t.key).k;
            if (is_prim(kind) && !w.v->ent.empty() && r.chance(1, 3))
            {
                // close to a key of the map: one or two bits away
                u64 near = w.v->ent[r.below(w.v->ent.size())].first.bits;
                k.v.bits = near_bits(r, kind, near);
            }
            else if (is_prim(kind) && kind != K::F32 && kind != K::F64 && kind != K::F128 && r.chance(1, 2))
            {
                k.v.bits = r.below(7) & (res(*t.key).k == K::BOOL ? 1 : 7);
            }
        }
        k.fresh = make(*t.key, k.v, r);
        return k;
    }

    static int find_key(const MT& t, const Val& map, const Val& key)
    {
        for (size_t i = 0; i < map.ent.size(); ++i)
        {
            if (val_eq(*t.key, map.ent[i].first, key))
            {
                return int(i);
            }
        }
        return -1;
    }

    static bool is_map(const MT& t, const Val&) { return t.k == K::MAP; }

    void m_put(const Op& op)
    {
        Where w;
        if (!pick_part(op, is_map, w) || total_weight() > 1600)
        {
            return;
        }
        Rng r(op.seed());
        const MT& t = *w.t;
        auto target = ref(w);
        KeyData key = pick_key(op, w, r);
        int at = find_key(t, *w.v, key.v);
        Expect expect = at < 0 && t.bound && w.v->ent.size() >= t.bound ? Expect::REFUSE : Expect::OK;
        // the value: new, or a part of what there is
        std::unique_ptr<DynamicData> fresh;
        Val v = gen_val(r, *t.elem, 4);
        fresh = make(*t.elem, v, r);
        adopt(*fresh, v, *t.elem);
        std::optional<WritableDynamicDataRef> place;
        Res res = attempt(op, expect, "operator[] of a map", [&]()
                {
                    place.emplace(target[key.ref()]);
                }, unchanged(w.slot));
        if (res != Res::OK)
        {
            rt::probe("key beyond the bound");
            commit(w.slot);
            return;
        }
        if (at < 0)
        {
            at = int(w.v->ent.size());
            w.v->ent.push_back({key.v, default_val(*t.elem)});
        }
        commit(w.slot);
        if (op.b % 3)
        {
            attempt(op, Expect::OK, "assigning a mapped value", [&]() { *place = fresh->ref(); }, unchanged(w.slot));
            w.v->ent[size_t(at)].second = v;
            commit(w.slot);
        }
    }

    void m_insert(const Op& op)
    {
        Where w;
        if (!pick_part(op, is_map, w) || total_weight() > 1600)
        {
            return;
        }
        Rng r(op.seed());
        const MT& t = *w.t;
        auto target = ref(w);
        KeyData key = pick_key(op, w, r);
        Val v = gen_val(r, *t.elem, 4);
        auto value = make(*t.elem, v, r);
        adopt(*value, v, *t.elem);
        RealT kt = build(*t.key), et = build(*t.elem);
        xt::PairType pt(*kt, *et);
        DynamicData pair(pt);
        WritableDynamicDataRef p0 = pair[0];
        p0 = static_cast<const WritableDynamicDataRef&>(DynamicData(key.ref()));
        WritableDynamicDataRef p1 = pair[1];
        p1 = value->ref();
        bool can = find_key(t, *w.v, key.v) < 0 && (!t.bound || w.v->ent.size() < t.bound);
        bool did = false;
        attempt(op, Expect::OK, "insert", [&]() { did = target.insert(pair); }, unchanged(w.slot));
        if (did != can)
        {
            fail("outcome", std::string("insert returned ") + (did ? "true" : "false"));
        }
        if (did)
        {
            w.v->ent.push_back({key.v, v});
        }
        commit(w.slot);
    }

    void m_look(const Op& op)
    {
        Where w;
        if (!pick_part(op, is_map, w))
        {
            return;
        }
        Rng r(op.seed());
        const MT& t = *w.t;
        auto target = ref(w);
        const ReadableDynamicDataRef& reader = target;
        KeyData key = pick_key(op, w, r);
        int at = find_key(t, *w.v, key.v);
        bool has = false;
        attempt(op, Expect::OK, "has_key", [&]() { has = target.has_key(key.ref()); }, unchanged(w.slot));
        if (has != (at >= 0))
        {
            fail("value", std::string("has_key says ") + (has ? "true" : "false") + " for " + show(*t.key, key.v));
        }
        std::optional<ReadableDynamicDataRef> found;
        Res res = attempt(op, at >= 0 ? Expect::OK : Expect::REFUSE, "at", [&]()
                {
                    found.emplace(op.b % 2 ? reader.at(key.ref()) : ReadableDynamicDataRef(target.at(key.ref())));
                }, unchanged(w.slot));
        if (res == Res::OK)
        {
            check_val(*found, w.v->ent[size_t(at)].second, *t.elem, "at(" + show(*t.key, key.v) + ")");
        }
        verify(w.slot);
        verify_quick();
    }

    // -------------------------------------------------------------- unions
    static bool is_union(const MT& t, const Val&) { return t.k == K::UNION; }

    void u_select(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT& t, const Val&) { return t.k == K::UNION && !t.mem.empty(); }, w))
        {
            return;
        }
        Rng r(op.seed());
        const MT& t = *w.t;
        auto target = ref(w);
        int c = int(op.c % t.mem.size());
        bool live = w.v->live && w.v->caseno == c;
        std::optional<WritableDynamicDataRef> place;
        attempt(op, Expect::OK, "selecting a member", [&]()
                {
                    place.emplace(op.d % 2 ? target[t.mem[c].name] : target[t.mem[c].name.c_str()]);
                }, unchanged(w.slot));
        if (!live)
        {
            rt::probe(w.v->live ? "member switched" : "first member selected");
            *w.v = Val();
            w.v->live = true;
            w.v->caseno = c;
            w.v->label = LABEL_ANY;
            w.v->kid = {default_val(*t.mem[c].type)};
        }
        commit(w.slot);
        if (op.b % 3)
        {
            Val v = gen_val(r, *t.mem[c].type, 4);
            auto fresh = make(*t.mem[c].type, v, r);
            adopt(*fresh, v, *t.mem[c].type);
            attempt(op, Expect::OK, "assigning a member", [&]() { *place = fresh->ref(); }, unchanged(w.slot));
            w.v->kid[0] = v;
            commit(w.slot);
        }
    }

    void u_disc(const Op& op)
    {
        Where w;
        if (!pick_part(op, is_union, w))
        {
            return;
        }
        Rng r(op.seed());
        const MT& t = *w.t;
        auto target = ref(w);
        int64_t l = 0;
        if (!t.labels.empty() && r.chance(2, 3))
        {
            l = t.labels[r.below(t.labels.size())].first;
        }
        else
        {
            l = r.chance(1, 6) ? int64_t(r.next()) : gen_label(r, *t.disc);
        }
        size_t bits = disc_size(*t.disc) * 8;
        bool fits = bits >= 64 || (l >= -(int64_t(1) << (bits - 1)) && l < (int64_t(1) << bits));
        int64_t s = shrink(l, *t.disc);
        if (s == default_label(*t.disc) || s == default_label(*t.disc) - 1)
        {
            return;
        }
        if (res(*t.disc).k == K::BOOL && s > 1)
        {
            return;
        }
        int c = -1;
        bool listed = false;
        for (auto& x : t.labels)
        {
            if (x.first == s)
            {
                c = x.second;
                listed = true;
            }
        }
        if (!listed && t.def >= 0 && label_allowed(*t.disc, s))
        {
            c = t.def;
        }
        if (!fits)
        {
            c = -1;
        }
        Expect expect = c >= 0 && w.v->live && w.v->caseno != c ? Expect::REFUSE : Expect::OK;
        if (c < 0)
        {
            expect = Expect::ANY;   // no member has it: nothing may happen
        }
        std::unique_ptr<DynamicData> value;      // the value as data, of the discriminator's kind when it fits
        if (op.d % 2)
        {
            K k = sim::res(*t.disc).k;
            k = !fits || op.d % 8 == 1 ? K::I64 : k == K::ENUM ? K::U32 : k;
            Val lv;
            lv.bits = k == K::I64 ? u64(l) : u64(s);
            value = make(*mprim(k), lv, r);
        }
        Res res = attempt(op, expect, "setting the discriminator", [&]()
                {
                    if (value)
                    {
                        target.d(*value);
                    }
                    else
                    {
                        target.d(l);
                    }
                }, unchanged(w.slot));
        if (c >= 0 && res == Res::OK)
        {
            if (!w.v->live)
            {
                *w.v = Val();
                w.v->live = true;
                w.v->caseno = c;
                w.v->kid = {default_val(*t.mem[c].type)};
                rt::probe("first member selected by label");
            }
            w.v->label = s;
        }
        commit(w.slot);
    }

    void u_read(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT& t, const Val&) { return t.k == K::UNION && !t.mem.empty(); }, w))
        {
            return;
        }
        const MT& t = *w.t;
        auto target = ref(w);
        const ReadableDynamicDataRef& reader = target;
        int c = int(op.c % t.mem.size());
        bool live = w.v->live && w.v->caseno == c;
        const std::string& name = t.mem[c].name;
        attempt(op, live ? Expect::OK : Expect::REFUSE, "reading a member", [&]()
                {
                    switch (op.d % 3)
                    {
                        case 0: (void) reader[name]; break;
                        case 1: (void) target.get_member(name); break;
                        default: (void) reader[name.c_str()]; break;
                    }
                }, unchanged(w.slot));
        if (!w.v->live)
        {
            attempt(op, Expect::REFUSE, "current_case of no member", [&]() { (void) reader.current_case(); },
                    unchanged(w.slot));
        }
        verify(w.slot);
        verify_quick();
    }

    // -------------------------------------------------------------- readers
    void r_print(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT&, const Val&) { return true; }, w))
        {
            return;
        }
        Rng r(op.seed());
        auto source = ref(w);
        Expect expect = has_caseless(*w.t, *w.v) ? Expect::REFUSE : has_text(*w.t, *w.v) ? Expect::OK : Expect::ANY;
        std::string text;
        rt::note(show(*w.t) + " " + show(*w.t, *w.v));
        Res res = attempt(op, expect, "to_string", [&]()
                {
                    std::string s = source.to_string();
                    rt::Pause p;
                    text = s;
                }, unchanged(w.slot));
        auto fresh = any_order(*w.t) ? std::make_unique<DynamicData>(static_cast<const ReadableDynamicDataRef&>(source)) : make(*w.t, *w.v, r);
        if (res == Res::OK && fresh->to_string() != text)
        {
            fail("value", "equal data print differently: '" + text + "' and '" + fresh->to_string() + "'");
        }
        verify(w.slot);
    }

    void r_compare(const Op& op)
    {
        Where w;
        if (!pick_part(op, [](const MT&, const Val&) { return true; }, w))
        {
            return;
        }
        Rng r(op.seed());
        auto source = ref(w);
        std::unique_ptr<DynamicData> other;
        Val v = *w.v;
        if (op.d % 3 == 0)
        {
            v = gen_val(r, *w.t, 5);
        }
        else if (op.d % 3 == 1 && tweak(r, *w.t, v))
        {
            rt::probe("compared with a near value");
        }
        other = make(*w.t, v, r);
        adopt(*other, v, *w.t);
        bool eq = false, ne = false;
        u64 h1 = 0, h2 = 0;
        attempt(op, Expect::OK, "comparing", [&]()
                {
                    eq = source == *other;
                    ne = *other != source;
                    h1 = source.hash();
                    h2 = other->hash();
                }, unchanged(w.slot));
        bool want = val_eq(*w.t, v, *w.v);
        if (eq != want || ne == want)
        {
            fail("value", std::string("== says ") + (eq ? "true" : "false") + " and != says " + (ne ? "true" : "false")
                    + " for " + show(*w.t, *w.v) + " and " + show(*w.t, v));
        }
        if (want && h1 != h2)
        {
            fail("value", "equal data hash differently: " + show(*w.t, v));
        }
        for (int i = 0; op.d % 3 == 1 && i < 6; ++i)
        {
            Val near = *w.v;
            if (!tweak(r, *w.t, near))
            {
                break;
            }
            auto third = make(*w.t, near, r);
            adopt(*third, near, *w.t);
            bool same = val_eq(*w.t, near, *w.v);
            if ((source == *third) != same || (*third == source) != same)
            {
                fail("value", std::string("== says ") + (same ? "false" : "true") + " for " + show(*w.t, *w.v) + " and "
                        + show(*w.t, near));
            }
        }
        verify(w.slot);
        verify_quick();
    }

    struct VNode
    {
        size_t deep, index;
        std::string member;
        MTP t;              // resolved
        Val* v;             // null for pairs of maps
        std::string name;
        xt::TypeKind kind;
        int parent;
        bool in_key;
    };

    // puts the entries of every map in the order the library iterates them
    void order(const ReadableDynamicDataRef& r, Val& v, const MT& rt_)
    {
        const MT& t = res(rt_);
        switch (t.k)
        {
            case K::ARRAY:
            case K::SEQ:
                for (size_t i = 0; i < v.kid.size() && has_kind(*t.elem, K::MAP); ++i)
                {
                    order(r[i], v.kid[i], *t.elem);
                }
                break;
            case K::PAIR:
                order(r[0], v.kid[0], *t.key);
                order(r[1], v.kid[1], *t.elem);
                break;
            case K::STRUCT:
                for (size_t i = 0; i < v.kid.size(); ++i)
                {
                    order(r[t.mem[i].name], v.kid[i], *t.mem[i].type);
                }
                break;
            case K::UNION:
                if (v.live)
                {
                    order(r[t.mem[v.caseno].name], v.kid[0], *t.mem[v.caseno].type);
                }
                break;
            case K::MAP:
            {
                std::vector<std::pair<Val, Val> > out;
                for (auto it = r.begin(); it != r.end(); ++it)
                {
                    ReadableDynamicDataRef pair = *it;
                    for (auto& e : v.ent)
                    {
                        if (equals_val(pair[0], e.first, *t.key))
                        {
                            order(pair[0], e.first, *t.key);
                            order(pair[1], e.second, *t.elem);
                            out.push_back(e);
                            break;
                        }
                    }
                }
                if (out.size() != v.ent.size())
                {
                    fail("visit", "iterating a map misses entries");
                }
                v.ent = out;
                break;
            }
            default:
                break;
        }
    }

    static void expect_nodes(const MTP& tp, Val& v, size_t deep, size_t index, const std::string& member, int parent,
            bool in_key, std::vector<VNode>& out)
    {
        const MTP& t = res(tp);
        int me = int(out.size());
        out.push_back(VNode{deep, index, member, t, &v, t->name, real_kind(*t), parent, in_key});
        switch (t->k)
        {
            case K::ARRAY:
            case K::SEQ:
                for (size_t i = 0; i < v.kid.size(); ++i)
                {
                    expect_nodes(t->elem, v.kid[i], deep + 1, i, "", me, in_key, out);
                }
                break;
            case K::PAIR:
            {
                std::string from = member.empty() && parent >= 0 ? out[size_t(parent)].member : member;
                expect_nodes(t->key, v.kid[0], deep + 1, 0, from, me, in_key, out);
                expect_nodes(t->elem, v.kid[1], deep + 1, 1, from, me, in_key, out);
                break;
            }
            case K::MAP:
                for (size_t i = 0; i < v.ent.size(); ++i)
                {
                    int pair = int(out.size());
                    out.push_back(VNode{deep + 1, i, "", nullptr, nullptr, "pair_" + t->key->name + "_" + t->elem->name,
                                        xt::TypeKind::PAIR_TYPE, me, in_key});
                    expect_nodes(t->key, v.ent[i].first, deep + 2, 0, member, pair, true, out);
                    expect_nodes(t->elem, v.ent[i].second, deep + 2, 1, member, pair, in_key, out);
                }
                break;
            case K::STRUCT:
                for (size_t i = 0; i < v.kid.size(); ++i)
                {
                    expect_nodes(t->mem[i].type, v.kid[i], deep + 1, i, t->mem[i].name, me, in_key, out);
                }
                break;
            case K::UNION:
                if (v.live)
                {
                    expect_nodes(t->mem[v.caseno].type, v.kid[0], deep + 1, size_t(v.label), t->mem[v.caseno].name, me,
                            in_key, out);
                }
                break;
            default:
                break;
        }
    }

    void r_visit(const Op& op, bool writing)
    {
        Where w;
        if (!pick_part(op, [](const MT& t, const Val&) { return !is_prim(t.k); }, w)
                && !pick_part(op, [](const MT&, const Val&) { return true; }, w))
        {
            return;
        }
        Rng r(op.seed());
        auto target = ref(w);
        const WritableDynamicDataRef& ctarget = target;
        const ReadableDynamicDataRef& reader = target;
        if (has_caseless(*w.t, *w.v))
        {
            attempt(op, Expect::REFUSE, "visiting data with an unselected union", [&]()
                    {
                        reader.for_each([&](const DynamicData::ReadableNode&) {});
                    }, unchanged(w.slot));
            verify(w.slot);
            return;
        }
        order(reader, *w.v, *w.t);
        rt::note(show(*w.t) + " " + show(*w.t, *w.v));
        std::vector<VNode> want;
        expect_nodes(w.t, *w.v, 0, 0, "", -1, false, want);
        unsigned how = op.d % 5;
        size_t stop = how == 0 ? SIZE_MAX : op.c % want.size();
        bool value = op.b % 2;
        size_t at = 0;
        bool result = false;
        int thrown = 0;
        bool replace = op.a % 2;
        auto look = [&](const DynamicData::ReadableNode& n, const ReadableDynamicDataRef& data)
                {
                    if (at >= want.size())
                    {
                        fail("visit", "too many visits: " + n.type().name());
                    }
                    const VNode& e = want[at];
                    std::string got = n.from_member() ? n.from_member()->name() : "";
                    if (n.deep() != e.deep || n.from_index() != e.index || n.type().name() != e.name
                            || n.type().kind() != e.kind || got != e.member || n.has_parent() != (e.parent >= 0))
                    {
                        fail("visit", "visit " + std::to_string(at) + " is of " + n.type().name() + " deep "
                                + std::to_string(n.deep()) + " index " + std::to_string(n.from_index()) + " member '"
                                + got + "', expected " + e.name + " deep " + std::to_string(e.deep) + " index "
                                + std::to_string(e.index) + " member '" + e.member + "'");
                    }
                    if (e.parent >= 0)
                    {
                        const VNode& p = want[size_t(e.parent)];
                        if (n.parent().type().name() != p.name || n.parent().deep() != p.deep
                                || n.parent().from_index() != p.index)
                        {
                            fail("visit", "visit " + std::to_string(at) + " has parent " + n.parent().type().name()
                                    + ", expected " + p.name);
                        }
                    }
                    if (e.v && leaf(*e.t, *e.v))
                    {
                        check_val(data, *e.v, *e.t, "visit " + std::to_string(at));
                    }
                    if (data.type().name() != e.name)
                    {
                        fail("visit", "data of visit " + std::to_string(at) + " has type " + data.type().name());
                    }
                };
        auto end = [&]()
                {
                    if (at++ == stop)
                    {
                        rt::probe(how < 3 ? "visit stopped" : "visitor threw");
                        switch (how)
                        {
                            case 1:
                            case 2: throw value;
                            case 3: throw Odd{int(op.c)};
                            default: throw std::out_of_range("from the visitor");
                        }
                    }
                };
        attempt(op, Expect::OK, writing ? "visiting and writing" : "visiting data", [&]()
                {
                    {
                        rt::Pause p;
                        at = 0;
                        thrown = 0;
                    }
                    try
                    {
                        if (writing)
                        {
                            result = target.for_each([&](DynamicData::WritableNode& n)
                            {
                                rt::Pause p;
                                WritableDynamicDataRef data = n.data();
                                look(n, data);
                                VNode& e = want[at];
                                if (e.v && leaf(*e.t, *e.v) && !e.in_key && e.t->k != K::ENUM && r.chance(1, 2))
                                {
                                    *e.v = gen_val(r, *e.t, 1);
                                    fill(data, *e.v, *e.t, r);
                                    rt::probe("written through a visit");
                                }
                                else if (replace && e.v && !leaf(*e.t, *e.v) && !e.in_key && want.size() < 150 && r.chance(1, 4))
                                {
                                    // a whole part is replaced: what is visited next are the parts it has then
                                    Val v = gen_val(r, *e.t, 6);
                                    auto fresh = make(*e.t, v, r);
                                    adopt(*fresh, v, *e.t);
                                    if (!has_caseless(*e.t, v))
                                    {
                                        data = fresh->ref();
                                        order(data, v, *e.t);
                                        *e.v = v;
                                        want.clear();
                                        expect_nodes(w.t, *w.v, 0, 0, "", -1, false, want);
                                        rt::probe("part replaced through a visit");
                                    }
                                }
                                end();
                            });
                        }
                        else if (op.b % 3)
                        {
                            result = reader.for_each([&](const DynamicData::ReadableNode& n)
                            {
                                rt::Pause p;
                                look(n, n.data());
                                end();
                            });
                        }
                        else
                        {
                            result = ctarget.for_each([&](const DynamicData::ReadableNode& n)
                            {
                                rt::Pause p;
                                look(n, n.data());
                                end();
                            });
                        }
                    }
                    catch (const Odd& o)
                    {
                        thrown = o.x == int(op.c) ? 3 : -1;
                    }
                    catch (const std::out_of_range& e)
                    {
                        thrown = strcmp(e.what(), "from the visitor") == 0 ? 4 : -1;
                    }
                }, writing ? std::function<void()>([&]()
                {
                    verify(w.slot);
                }) : unchanged(w.slot));
        bool stopped = stop < want.size();
        size_t calls = stopped ? stop + 1 : want.size();
        int want_thrown = stopped && how >= 3 ? int(how) : 0;
        if (at != calls || thrown != want_thrown || (!want_thrown && result != (stopped ? value : true)))
        {
            fail("visit", "a visit made " + std::to_string(at) + " calls of " + std::to_string(calls) + ", returned "
                    + std::to_string(result) + ", threw " + std::to_string(thrown) + " expected "
                    + std::to_string(want_thrown));
        }
        commit(w.slot);
    }

    void r_iter(const Op& op)
    {
        Where w;
        auto ok = [](const MT& t, const Val&)
                {
                    return t.k == K::ARRAY || t.k == K::SEQ || t.k == K::STRUCT || t.k == K::MAP || is_str(t.k);
                };
        if (!pick_part(op, ok, w))
        {
            return;
        }
        const MT& t = *w.t;
        auto target = ref(w);
        const ReadableDynamicDataRef& reader = target;
        size_t n = 0;
        if (t.k == K::MAP)
        {
            order(reader, *w.v, t);
        }
        size_t want = t.k == K::STRUCT ? t.mem.size() : t.k == K::MAP ? w.v->ent.size()
                : is_str(t.k) ? w.v->str.size() : w.v->kid.size();
        auto bad = [&](const std::string& what) { fail("visit", "iterating " + t.name + ": " + what); };
        attempt(op, Expect::OK, "iterating", [&]()
                {
                    {
                        rt::Pause p;
                        n = 0;
                    }
                    if (t.k == K::STRUCT)
                    {
                        if (op.d % 3 == 0)
                        {
                            for (auto&& p : target.citems())
                            {
                                rt::Pause pause;
                                if (n >= want || p.member().name() != t.mem[n].name || p.kind() != real_kind(*t.mem[n].type))
                                {
                                    bad("member " + std::to_string(n));
                                }
                                check_val(p.data(), w.v->kid[n], *t.mem[n].type, "items");
                                ++n;
                            }
                        }
                        else if (op.d % 3 == 1)
                        {
                            for (auto&& p : reader.items())
                            {
                                rt::Pause pause;
                                if (n >= want || p.member().name() != t.mem[n].name)
                                {
                                    bad("member " + std::to_string(n));
                                }
                                check_val(p.data(), w.v->kid[n], *t.mem[n].type, "items");
                                ++n;
                            }
                        }
                        else if (op.c % 2)
                        {
                            for (auto&& p : target.items())
                            {
                                rt::Pause pause;
                                if (n >= want || p.member().name() != t.mem[n].name)
                                {
                                    bad("member " + std::to_string(n));
                                }
                                check_val(p.data(), w.v->kid[n], *t.mem[n].type, "items");
                                ++n;
                            }
                        }
                        else
                        {
                            // what the iterator stood at stays when it moves on
                            auto end = reader.items().end();
                            for (auto it = reader.items().begin(); it != end; )
                            {
                                auto at = it++;
                                rt::Pause pause;
                                if (n >= want || (*at).member().name() != t.mem[n].name || at == it)
                                {
                                    bad("member " + std::to_string(n) + " of an iterator that moved on");
                                }
                                check_val((*at).data(), w.v->kid[n], *t.mem[n].type, "items");
                                ++n;
                            }
                        }
                        return;
                    }
                    auto visit = [&](const ReadableDynamicDataRef& e)
                            {
                                rt::Pause pause;
                                if (n >= want)
                                {
                                    bad("too many elements");
                                }
                                if (t.k == K::MAP)
                                {
                                    check_val(e[0], w.v->ent[n].first, *t.key, "iterator");
                                    check_val(e[1], w.v->ent[n].second, *t.elem, "iterator");
                                }
                                else if (is_str(t.k))
                                {
                                    bool same = t.k == K::STR ? e.value<char>() == to_str(w.v->str)[n]
                                    : t.k == K::WSTR ? e.value<wchar_t>() == to_wstr(w.v->str)[n]
                                    : e.value<char16_t>() == to_str16(w.v->str)[n];
                                    if (!same)
                                    {
                                        bad("character " + std::to_string(n));
                                    }
                                }
                                else
                                {
                                    check_val(e, w.v->kid[n], *t.elem, "iterator");
                                }
                                ++n;
                            };
                    if (op.d % 2)
                    {
                        for (auto it = reader.begin(); it != reader.end(); ++it)
                        {
                            visit(*it);
                        }
                    }
                    else if (op.c % 2)
                    {
                        auto at = reader.end();
                        for (auto it = reader.begin(); it != reader.end(); )
                        {
                            at = it++;
                            visit(*at);
                        }
                    }
                    else
                    {
                        for (auto it = target.begin(); it != target.end(); it++)
                        {
                            visit(*it);
                        }
                    }
                }, unchanged(w.slot));
        if (n != want)
        {
            bad(std::to_string(n) + " of " + std::to_string(want));
        }
        if (t.k == K::ARRAY || t.k == K::SEQ)
        {
            if (t.elem->k == K::STR || t.elem->k == K::I32)
            {
                vector_of(op, reader, w);
            }
        }
        verify(w.slot);
        verify_quick();
    }

    // one character of a text, written as an element of it
    void character(const Op& op, const Where& w, size_t n)
    {
        Rng r(op.seed());
        auto target = ref(w);
        const MT& t = *w.t;
        size_t i = r.below(n);
        uint32_t c = 'a' + uint32_t(r.below(26));
        Res res = attempt(op, Expect::OK, "writing a character", [&]()
                {
                    t.k == K::STR ? target[i].value<char>(char(c))
                    : t.k == K::WSTR ? target[i].value<wchar_t>(wchar_t(c))
                    : target[i].value<char16_t>(char16_t(c));
                }, unchanged(w.slot));
        if (res == Res::OK)
        {
            w.v->str[i] = c;
        }
        commit(w.slot);
    }

    void vector_of(const Op& op, const ReadableDynamicDataRef& reader, const Where& w)
    {
        bool text = w.t->elem->k == K::STR;
        size_t n = 0;
        bool equal = true;
        attempt(op, Expect::OK, "as_vector", [&]()
                {
                    if (text)
                    {
                        auto v = reader.as_vector<std::string>();
                        rt::Pause p;
                        n = v.size();
                        for (size_t i = 0; i < n && i < w.v->kid.size(); ++i)
                        {
                            equal &= v[i] == to_str(w.v->kid[i].str);
                        }
                    }
                    else
                    {
                        auto v = reader.as_vector<int32_t>();
                        rt::Pause p;
                        n = v.size();
                        for (size_t i = 0; i < n && i < w.v->kid.size(); ++i)
                        {
                            equal &= to_bits<int32_t>(v[i]) == w.v->kid[i].bits;
                        }
                    }
                }, unchanged(w.slot));
        if (n != w.v->kid.size() || !equal)
        {
            fail("value", "as_vector differs from the collection");
        }
    }
};

void share(World& from, World& to, bool with_data, unsigned who)
{
    static_cast<DataWorld&>(to).take_shared(static_cast<DataWorld&>(from), with_data, who);
}

bool release_shared_type(World& owner, size_t slot)
{
    return static_cast<DataWorld&>(owner).release_type(slot);
}

static RegisterWorld reg("C01 C02 C03 C04 C05 C06 C07 C10 C11 conc08 conc09", WorldKind{
    "data", std::vector<const char*>(code_names, code_names + NCODES),
    [](const std::string& p) -> std::unique_ptr<World> { return std::make_unique<DataWorld>(p); },
    generate});

} // namespace sim
