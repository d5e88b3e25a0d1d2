// The world of module registries (C13): histories of registrations, replacements, growth and look-ups over a tree of
// modules, each beside a model that resolves names on its own.
#include "core.hpp"
#include "model.hpp"

#include <xtypes/idl/Module.hpp>

#include <algorithm>
#include <map>
#include <set>

namespace sim {

using rt::fail;
using rt::FK;
using xt::DynamicData;
using xt::DynamicType;
namespace idl = eprosima::xtypes::idl;

namespace {

enum Code
{
    T_NEW, T_GROW, T_DROP, M_SUB, M_REG, M_ALIAS, M_CONST, M_GROW, M_FIND, M_TYPE, M_ALL, M_NEXT, D_NEW, D_DROP, NCODES
};
const char* const code_names[NCODES] = {
    "t.new", "t.grow", "t.drop", "m.sub", "m.reg", "m.alias", "m.const", "m.grow", "m.find", "m.type", "m.all", "m.next",
    "d.new", "d.drop"
};
const int code_weights[NCODES] = {7, 2, 1, 5, 10, 3, 5, 6, 12, 5, 2, 1, 4, 1};

const char* const alphabet[] = {"A", "B", "C", "X", "Y"};
constexpr int NAMES = 5;
constexpr int TYPES = 5;
constexpr int DATA = 3;
constexpr int MAX_MODULES = 7;

struct MConst
{
    MTP type;
    Val value;
    bool from_enum = false;
};

struct MMod
{
    MMod* outer = nullptr;
    std::string name;
    std::map<std::string, MTP> structs, unions, enums, aliases;
    std::map<std::string, MConst> consts;
    std::map<std::string, std::unique_ptr<MMod>> inner;

    std::string scope() const
    {
        return outer == nullptr ? name : outer->scope().empty() ? name : outer->scope() + "::" + name;
    }
    bool has(const std::string& n) const
    {
        return structs.count(n) || unions.count(n) || enums.count(n) || aliases.count(n) || consts.count(n) || inner.count(n);
    }
    std::string scoped(const std::string& n) const { return scope().empty() ? n : scope() + "::" + n; }
};

struct Found
{
    const MMod* mod = nullptr;
    std::string name;
};

// The rules of look-up: a name without scope, or the first module of a path, is looked for from this module outwards;
// the rest of the path only goes down; a leading "::" starts at the root.
Found lookup(const MMod& from, const std::string& text)
{
    std::vector<std::string> parts;
    size_t at = 0;
    for (size_t e; (e = text.find("::", at)) != std::string::npos; at = e + 2)
    {
        parts.push_back(text.substr(at, e - at));
    }
    parts.push_back(text.substr(at));
    const MMod* m = &from;
    size_t first = 0;
    if (parts.size() > 1 && parts[0].empty())
    {
        while (m->outer)
        {
            m = m->outer;
        }
        first = 1;
    }
    else if (parts.size() == 1)
    {
        while (m->outer && !m->has(parts[0]))
        {
            m = m->outer;
        }
    }
    else
    {
        while (m->outer && !m->inner.count(parts[0]))
        {
            m = m->outer;
        }
    }
    for (size_t i = first; i + 1 < parts.size(); ++i)
    {
        auto it = m->inner.find(parts[i]);
        if (it == m->inner.end())
        {
            return {};
        }
        m = it->second.get();
    }
    if (!m->has(parts.back()))
    {
        return {};
    }
    return {m, parts.back()};
}

template<class M>
const typename M::mapped_type* get(const M& m, const std::string& n)
{
    auto it = m.find(n);
    return it == m.end() ? nullptr : &it->second;
}

// what type() answers: an alias before a union, a structure or an enumeration of the same name
MTP any_type(const MMod& m, const std::string& n)
{
    for (auto* kind : {&m.aliases, &m.unions, &m.structs, &m.enums})
    {
        if (auto* t = get(*kind, n))
        {
            return *t;
        }
    }
    return nullptr;
}

MTP find_type(const MMod& m, const std::string& text, bool recursive)
{
    MTP out;
    if (recursive)
    {
        for (auto& in : m.inner)
        {
            out = find_type(*in.second, text, true);
            if (out)
            {
                break;
            }
        }
    }
    Found f = lookup(m, text);
    if (f.mod)
    {
        if (MTP t = any_type(*f.mod, f.name))
        {
            out = t;
        }
    }
    if (out && text.compare(0, 2, "::") == 0)
    {
        auto named = std::make_shared<MT>(*out);
        named->name = text;
        out = named;
    }
    return out;
}

struct TSlot
{
    RealT real;
    MTP m;
};

struct DSlot
{
    std::unique_ptr<DynamicData> d;
    MTP m;
    Val v;
};

class ModWorld : public World
{
public:
    ModWorld() : real_(new idl::Module()), types_(TYPES), data_(DATA) {}

    void step(const Op& op) override
    {
        Rng r(op.seed());
        switch (op.code)
        {
            case T_NEW: t_new(op, r); break;
            case T_GROW: t_grow(op, r); break;
            case T_DROP: types_[op.a % TYPES] = TSlot(); break;
            case M_SUB: m_sub(op); break;
            case M_REG: m_reg(op); break;
            case M_ALIAS: m_alias(op, r); break;
            case M_CONST: m_const(op, r); break;
            case M_GROW: m_grow(op, r); break;
            case M_FIND: m_find(op); break;
            case M_TYPE: m_type(op); break;
            case M_ALL: m_all(op); break;
            case M_NEXT: m_next(op); break;
            case D_NEW: d_new(op, r); break;
            case D_DROP: data_[op.a % DATA] = DSlot(); break;
        }
        check_all();
    }

    void finish() override
    {
        check_all();
        real_.reset();            // what was built from the module's types lives on
        check_slots();
        data_.clear();
        types_.clear();
    }

    u64 state() override
    {
        u64 s = 3;
        state(model_, s);
        return s;
    }

private:
    std::unique_ptr<idl::Module> real_;
    MMod model_;
    std::vector<TSlot> types_;
    std::vector<DSlot> data_;

    static u64 text_hash(const std::string& t)
    {
        u64 h = 7;
        for (char c : t)
        {
            h = rt::mix64(h ^ u64(c));
        }
        return h;
    }

    void state(const MMod& m, u64& s)
    {
        int kind = 0;
        for (auto* k : {&m.structs, &m.unions, &m.enums, &m.aliases})
        {
            ++kind;
            for (auto& p : *k)
            {
                s = rt::mix64(s ^ text_hash(p.first) ^ u64(kind) ^ (u64(p.second->mem.size() + p.second->en.size()) << 8));
            }
        }
        for (auto& p : m.consts)
        {
            s = rt::mix64(s ^ text_hash(p.first) ^ 77 ^ p.second.value.bits);
        }
        for (auto& p : m.inner)
        {
            s = rt::mix64(s ^ text_hash(p.first) ^ 99);
            state(*p.second, s);
        }
        s = rt::mix64(s);
    }

    // -------------------------------------------------------------- helpers
    void list(MMod& m, std::vector<MMod*>& out)
    {
        out.push_back(&m);
        for (auto& i : m.inner)
        {
            list(*i.second, out);
        }
    }

    MMod& pick(uint32_t n)
    {
        std::vector<MMod*> all;
        list(model_, all);
        return *all[n % all.size()];
    }

    idl::Module& real_of(const MMod& m)
    {
        return m.outer ? *real_of(*m.outer).submodule(m.name) : *real_;
    }

    const char* name_of(uint32_t n) { return alphabet[n % NAMES]; }

    // names in every form: those of symbols that exist, seen from somewhere, any others, and some nonsense
    std::string spell(uint32_t n)
    {
        Rng r(n * 977 + 5);
        static const char* const odd[] = {"", "::", "A::", "::A::", "A::::B", ":", "::::A", "A:B", "X::Y::"};
        if (r.chance(1, 16))
        {
            return odd[r.below(9)];
        }
        if (r.chance(2, 3))
        {
            std::vector<MMod*> mods;
            list(model_, mods);
            std::vector<std::pair<MMod*, std::string>> all;
            for (MMod* m : mods)
            {
                for (const char* name : alphabet)
                {
                    if (m->has(name))
                    {
                        all.push_back({m, name});
                    }
                }
            }
            if (!all.empty())
            {
                auto& p = all[r.below(all.size())];
                std::string s = p.second;
                MMod* m = p.first;
                for (u64 up = r.below(4); m->outer && up > 0; --up, m = m->outer)
                {
                    s = m->name + "::" + s;
                }
                return m->outer == nullptr && r.chance(1, 2) ? "::" + s : s;
            }
        }
        std::string s = r.chance(1, 4) ? "::" : "";
        int depth = int(r.below(8));
        depth = depth < 3 ? 0 : depth < 6 ? 1 : depth < 7 ? 2 : 3;
        for (int i = 0; i < depth; ++i)
        {
            s += std::string(alphabet[r.below(NAMES)]) + "::";
        }
        return s + alphabet[r.below(NAMES)];
    }

    Gen gen() const
    {
        Gen g;
        std::fill(g.weights, g.weights + 26, 0);
        for (K k : {K::BOOL, K::I32, K::U64, K::F64, K::C8, K::ENUM})
        {
            g.weights[int(k)] = 1;
        }
        g.weights[int(K::STR)] = 3;
        g.weights[int(K::SEQ)] = 2;
        g.weights[int(K::ARRAY)] = 1;
        g.max_depth = 2;
        return g;
    }

    MTP definition(K kind, Rng& r)
    {
        Gen g = gen();
        if (kind == K::ENUM)
        {
            auto t = std::make_shared<MT>();
            t->k = K::ENUM;
            t->width = 4;
            for (int i = 0, n = int(r.below(4)); i < n; ++i)
            {
                t->en.push_back({"e" + std::to_string(i), t->next});
                ++t->next;
            }
            return t;
        }
        std::fill(g.weights, g.weights + 26, 0);
        g.weights[int(kind)] = 1;
        Gen inner = gen();
        // the top kind is forced, its parts are drawn from the usual mix
        auto t = std::make_shared<MT>();
        t->k = kind;
        if (kind == K::ALIAS)
        {
            t->elem = gen_type(r, inner, 1);
        }
        else if (kind == K::STRUCT)
        {
            for (int i = 0, n = int(r.below(4)); i < n; ++i)
            {
                MMember m;
                m.name = "m" + std::to_string(i);
                m.type = gen_type(r, inner, 1);
                t->mem.push_back(m);
            }
        }
        else
        {
            t->disc = mprim(r.chance(1, 2) ? K::I32 : K::C8);
            for (int i = 0, n = 1 + int(r.below(3)); i < n; ++i)
            {
                MMember m;
                m.name = "c" + std::to_string(i);
                m.type = gen_type(r, inner, 1);
                t->mem.push_back(m);
                t->labels.push_back({i + 1, i});
            }
        }
        return t;
    }

    // ---------------------------------------------------------------- checks
    void same_def(const DynamicType& real, const MTP& m, const std::string& where)
    {
        ++stats.checks;
        check_type(real, *m, where);
    }

    void check_module(MMod& m, idl::Module& real)
    {
        const idl::Module& c = real;
        std::string where = "module '" + m.scope() + "'";
        if (c.scope() != m.scope() || c.name() != m.name)
        {
            fail("module", where + " calls itself '" + c.scope() + "'");
        }
        if (real.submodule_size() != m.inner.size())
        {
            fail("module", where + " has " + std::to_string(real.submodule_size()) + " submodules, expected "
                    + std::to_string(m.inner.size()));
        }
        for (const char* n : alphabet)
        {
            if (c.has_symbol(n, false) != m.has(n))
            {
                fail("module", where + (m.has(n) ? " lost " : " has a new ") + "symbol " + n);
            }
            if (c.has_submodule(n) != (m.inner.count(n) > 0))
            {
                fail("module", where + ": wrong answer about submodule " + n);
            }
            if (c.is_const_from_enum(n) != (m.consts.count(n) > 0 && m.consts.at(n).from_enum))
            {
                fail("module", where + ": wrong answer about constant " + n + " coming from an enumeration");
            }
            if (auto* t = get(m.structs, n))
            {
                same_def(c.structure(n), *t, where + " structure " + n);
            }
            if (auto* t = get(m.unions, n))
            {
                same_def(c.union_switch(n), *t, where + " union " + n);
            }
            if (auto* t = get(m.enums, n))
            {
                same_def(c.enum_32(n), *t, where + " enumeration " + n);
            }
            if (auto* t = get(m.aliases, n))
            {
                same_def(c.alias(n), *t, where + " alias " + n);
            }
            if (auto* k = get(m.consts, n))
            {
                DynamicData d = c.constant(n);
                same_def(d.type(), k->type, where + " constant " + n);
                check_val(d, k->value, *k->type, where + " constant " + n);
            }
        }
        for (auto& i : m.inner)
        {
            check_module(*i.second, real[i.first]);
        }
    }

    void check_slots()
    {
        for (size_t i = 0; i < types_.size(); ++i)
        {
            if (types_[i].m)
            {
                same_def(*types_[i].real, types_[i].m, "the caller's type t" + std::to_string(i));
            }
        }
        for (size_t i = 0; i < data_.size(); ++i)
        {
            if (data_[i].d)
            {
                same_def(data_[i].d->type(), data_[i].m, "the type of d" + std::to_string(i));
                check_val(*data_[i].d, data_[i].v, *data_[i].m, "d" + std::to_string(i));
            }
        }
    }

    void check_all()
    {
        check_module(model_, *real_);
        check_slots();
    }

    auto unchanged() { return [this]() { check_all(); }; }

    // ------------------------------------------------------------ operations
    void t_new(const Op& op, Rng& r)
    {
        static const K kinds[] = {K::STRUCT, K::STRUCT, K::UNION, K::ENUM, K::ALIAS};
        auto m = std::make_shared<MT>(*definition(kinds[op.c % 5], r));
        m->name = name_of(op.b);
        if (op.d % 12 == 0)
        {
            m->name = std::string(name_of(op.d)) + "::" + m->name;   // refused wherever it is offered
        }
        TSlot& s = types_[op.a % TYPES];
        RealT real;
        attempt(op, Expect::OK, code_names[op.code], [&]() { real = build(*m); }, [&]() { check_slots(); });
        s.real = std::move(real);
        s.m = m;
    }

    // adds something to a type: to one of the caller's, or to one held by a module
    template<class Change>
    void grow(const Op& op, const MTP& from, Rng& r, MTP& out, Change&& change)
    {
        auto grown = std::make_shared<MT>(*from);
        MMember m;
        m.name = "g" + std::to_string(op.seed() % 100000);
        switch (from->k)
        {
            case K::STRUCT:
                m.type = gen_type(r, gen(), 1);
                grown->mem.push_back(m);
                break;
            case K::UNION:
            {
                m.type = gen_type(r, gen(), 1);
                int64_t label = 1;
                for (auto& l : from->labels)
                {
                    label = std::max(label, l.first + 1);
                }
                if (label > 60)
                {
                    return;
                }
                grown->labels.push_back({label, int(grown->mem.size())});
                grown->mem.push_back(m);
                break;
            }
            case K::ENUM:
                grown->en.push_back({m.name, grown->next});
                ++grown->next;
                break;
            default:
                return;
        }
        for (auto& o : from->mem)
        {
            if (o.name == m.name)
            {
                return;
            }
        }
        for (auto& o : from->en)
        {
            if (o.first == m.name)
            {
                return;
            }
        }
        RealT part;
        if (m.type)
        {
            part = build(*m.type);
        }
        attempt(op, Expect::OK, code_names[op.code], [&]()
                {
                    change([&](DynamicType& t)
                            {
                                switch (from->k)
                                {
                                    case K::STRUCT:
                                        static_cast<xt::StructType&>(t).add_member(m.name, *part);
                                        break;
                                    case K::UNION:
                                        static_cast<xt::UnionType&>(t).add_case_member(
                                            std::vector<int64_t>{grown->labels.back().first}, xt::Member(m.name, *part));
                                        break;
                                    default:
                                        static_cast<xt::EnumerationType<uint32_t>&>(t).add_enumerator(m.name);
                                }
                            });
                }, unchanged());
        out = grown;
    }

    void t_grow(const Op& op, Rng& r)
    {
        TSlot& s = types_[op.a % TYPES];
        if (s.m)
        {
            MTP m = s.m;
            grow(op, m, r, s.m, [&](auto&& on) { on(const_cast<DynamicType&>(*s.real)); });
        }
    }

    void m_sub(const Op& op)
    {
        MMod& m = pick(op.a);
        std::vector<MMod*> all;
        list(model_, all);
        std::string n = name_of(op.b);
        if (all.size() >= MAX_MODULES && !m.inner.count(n))
        {
            return;
        }
        idl::Module& real = real_of(m);
        idl::Module* got = nullptr;
        idl::Module* before = m.inner.count(n) ? real.submodule(n).get() : nullptr;
        attempt(op, Expect::OK, code_names[op.code], [&]() { got = &real.create_submodule(n); }, unchanged());
        if (!m.inner.count(n))
        {
            auto child = std::make_unique<MMod>();
            child->outer = &m;
            child->name = n;
            m.inner[n] = std::move(child);
        }
        if (got != real.submodule(n).get() || (before && got != before))
        {
            fail("module", "create_submodule returned another module than the one found afterwards");
        }
    }

    std::map<std::string, MTP>& kind_map(MMod& m, K k)
    {
        return k == K::STRUCT ? m.structs : k == K::UNION ? m.unions : k == K::ENUM ? m.enums : m.aliases;
    }

    void m_reg(const Op& op)
    {
        MMod& m = pick(op.a);
        TSlot& s = types_[op.b % TYPES];
        if (!s.m)
        {
            return;
        }
        idl::Module& real = real_of(m);
        int mode = int(op.c % 4);       // 0: lvalue, 1: rvalue, 2 and 3: rvalue that replaces
        bool replace = mode >= 2 && s.m->k != K::ALIAS;
        std::string n = s.m->name;
        auto& map = kind_map(m, s.m->k);
        bool expected = n.find("::") == std::string::npos && (replace || !map.count(n));
        bool got = false;
        attempt(op, Expect::OK, code_names[op.code], [&]()
                {
                    switch (s.m->k)
                    {
                        case K::STRUCT:
                            got = mode == 0 ? real.structure(s.real.as<xt::StructType>())
                                    : real.structure(std::move(s.real.as<xt::StructType>()), replace);
                            break;
                        case K::UNION:
                            got = mode == 0 ? real.union_switch(s.real.as<xt::UnionType>())
                                    : real.union_switch(std::move(s.real.as<xt::UnionType>()), replace);
                            break;
                        case K::ENUM:
                            got = real.enum_32(std::move(s.real.as<xt::EnumerationType<uint32_t>>()), replace);
                            break;
                        default:
                            got = mode == 0 ? real.add_alias(s.real.as<xt::AliasType>())
                                    : real.add_alias(std::move(s.real.as<xt::AliasType>()));
                    }
                }, unchanged());
        if (got != expected)
        {
            fail("module", "registering " + n + " in '" + m.scope() + "' answered " + (got ? "true" : "false"));
        }
        if (expected)
        {
            auto named = std::make_shared<MT>(*s.m);
            named->name = m.scoped(n);
            map[n] = named;
            s.m = named;
            rt::probe("registered");
        }
    }

    void m_alias(const Op& op, Rng& r)
    {
        MMod& m = pick(op.a);
        idl::Module& real = real_of(m);
        std::string n = name_of(op.b);
        if (op.d % 10 == 0)
        {
            n = "A::" + n;
        }
        MTP aliased = definition(op.c % 2 ? K::STRUCT : K::ALIAS, r);
        if (op.c % 2 == 0)
        {
            aliased = aliased->elem;
        }
        else
        {
            auto named = std::make_shared<MT>(*aliased);
            named->name = "S";
            aliased = named;
        }
        Found f = lookup(m, n);
        bool expected = n.find("::") == std::string::npos && !(f.mod && f.mod->aliases.count(f.name));
        bool got = false;
        RealT part = build(*aliased);
        attempt(op, Expect::OK, code_names[op.code], [&]()
                {
                    got = real.create_alias(DynamicType::Ptr(*part), n);
                }, unchanged());
        if (got != expected)
        {
            fail("module", "creating alias " + n + " in '" + m.scope() + "' answered " + (got ? "true" : "false"));
        }
        if (expected)
        {
            auto t = std::make_shared<MT>();
            t->k = K::ALIAS;
            t->elem = aliased;
            t->name = m.scoped(n);
            m.aliases[n] = t;
        }
    }

    void m_const(const Op& op, Rng& r)
    {
        MMod& m = pick(op.a);
        idl::Module& real = real_of(m);
        std::string n = name_of(op.b);
        if (op.d % 10 == 0)
        {
            n = "A::" + n;
        }
        bool replace = op.c & 1, from_enum = op.c & 2;
        MConst k;
        k.type = gen_type(r, gen(), op.c & 4 ? 1 : 2);
        k.value = gen_val(r, *k.type);
        k.from_enum = from_enum;
        std::unique_ptr<DynamicData> value = make(*k.type, k.value, r);
        adopt(*value, k.value, *k.type);
        bool expected = n.find("::") == std::string::npos && (replace || !m.consts.count(n));
        bool got = false;
        attempt(op, Expect::OK, code_names[op.code], [&]() { got = real.create_constant(n, *value, replace, from_enum); },
                unchanged());
        if (got != expected)
        {
            fail("module", "creating constant " + n + " in '" + m.scope() + "' answered " + (got ? "true" : "false"));
        }
        if (expected)
        {
            m.consts[n] = k;
        }
    }

    void m_grow(const Op& op, Rng& r)
    {
        MMod& m = pick(op.a);
        std::string n = spell(op.b * 64 + op.c % 64);
        Found f = lookup(m, n);
        if (!f.mod)
        {
            return;
        }
        idl::Module& real = real_of(m);
        MMod& target = const_cast<MMod&>(*f.mod);
        if (op.c % 3 == 0 && target.structs.count(f.name))
        {
            MTP from = target.structs[f.name];
            grow(op, from, r, target.structs[f.name], [&](auto&& on) { on(real.structure(n)); });
        }
        else if (op.c % 3 == 1 && target.unions.count(f.name))
        {
            MTP from = target.unions[f.name];
            grow(op, from, r, target.unions[f.name], [&](auto&& on) { on(real.union_switch(n)); });
        }
        else if (op.c % 3 == 2 && target.enums.count(f.name))
        {
            MTP from = target.enums[f.name];
            grow(op, from, r, target.enums[f.name], [&](auto&& on) { on(real.enum_32(n)); });
        }
    }

    // every question about one spelling of a name
    void m_find(const Op& op)
    {
        MMod& m = pick(op.a);
        idl::Module& real = real_of(m);
        const idl::Module& c = real;
        std::string n = spell(op.b * 64 + op.c % 64);
        Found f = lookup(m, n);
        std::string where = "'" + n + "' from module '" + m.scope() + "'";
        auto answer = [&](const char* what, bool expected, auto&& ask)
                {
                    bool got = !expected;
                    attempt(op, Expect::OK, what, [&]() { got = ask(); }, unchanged());
                    rt::trace_num(got);
                    if (got != expected)
                    {
                        fail("lookup", std::string(what) + " of " + where + " is " + (got ? "true" : "false"));
                    }
                };
        auto fetch = [&](const char* what, const MTP* t, auto&& ask)
                {
                    const DynamicType* got = nullptr;
                    attempt(op, t ? Expect::OK : Expect::REFUSE, what, [&]() { got = &ask(); }, unchanged());
                    if (t)
                    {
                        same_def(*got, *t, std::string(what) + " of " + where);
                    }
                };
        auto in = [&](auto&& map) { return f.mod ? get(map(*f.mod), f.name) : nullptr; };
        auto st = in([](const MMod& x) -> auto& { return x.structs; });
        auto un = in([](const MMod& x) -> auto& { return x.unions; });
        auto en = in([](const MMod& x) -> auto& { return x.enums; });
        auto al = in([](const MMod& x) -> auto& { return x.aliases; });
        auto co = in([](const MMod& x) -> auto& { return x.consts; });
        rt::probe(f.mod ? "found" : "not found");
        switch (op.d % 12)
        {
            case 0: answer("has_structure", st, [&]() { return c.has_structure(n); }); break;
            case 1: answer("has_union", un, [&]() { return c.has_union(n); }); break;
            case 2: answer("has_enum_32", en, [&]() { return c.has_enum_32(n); }); break;
            case 3: answer("has_alias", al, [&]() { return c.has_alias(n); }); break;
            case 4: answer("has_constant", co, [&]() { return c.has_constant(n); }); break;
            case 5:
                fetch("structure", st, [&]() -> const DynamicType& { return real.structure(n); });
                fetch("const structure", st, [&]() -> const DynamicType& { return c.structure(n); });
                break;
            case 6:
                fetch("union_switch", un, [&]() -> const DynamicType& { return real.union_switch(n); });
                fetch("const union_switch", un, [&]() -> const DynamicType& { return c.union_switch(n); });
                break;
            case 7:
                fetch("enum_32", en, [&]() -> const DynamicType& { return real.enum_32(n); });
                fetch("const enum_32", en, [&]() -> const DynamicType& { return c.enum_32(n); });
                break;
            case 8:
                fetch("alias", al, [&]() -> const DynamicType& { return real.alias(n); });
                fetch("const alias", al, [&]() -> const DynamicType& { return c.alias(n); });
                break;
            case 9:
            {
                std::unique_ptr<DynamicData> got;
                attempt(op, Expect::OK, "constant", [&]() { got.reset(new DynamicData(c.constant(n))); }, unchanged());
                if (co)
                {
                    same_def(got->type(), co->type, "constant of " + where);
                    check_val(*got, co->value, *co->type, "constant of " + where);
                }
                else if (got->type().kind() != xt::TypeKind::BOOLEAN_TYPE)
                {
                    fail("lookup", "constant of " + where + ", which doesn't exist, has a value");
                }
                break;
            }
            case 10:
            {
                bool here = m.has(n), visible = here;
                unsigned count = 0, got = 0;
                for (const MMod* x = &m; x; x = x->outer)
                {
                    count += x->has(n);
                    visible |= x->has(n);
                }
                answer("has_symbol", here, [&]() { return c.has_symbol(n, false); });
                answer("has_symbol anywhere", visible, [&]() { return c.has_symbol(n); });
                attempt(op, Expect::OK, "symbol_count", [&]() { got = c.symbol_count(n); }, unchanged());
                if (got != count)
                {
                    fail("lookup", "symbol_count of " + where + " is " + std::to_string(got));
                }
                break;
            }
            default:
            {
                bool has = m.inner.count(n) > 0;
                answer("has_submodule", has, [&]() { return c.has_submodule(n); });
                answer("submodule", has, [&]() { return real.submodule(n) != nullptr; });
                const idl::Module* got = nullptr;
                attempt(op, has ? Expect::OK : Expect::REFUSE, "operator[]", [&]() { got = op.c & 1 ? &c[n] : &real[n]; },
                        unchanged());
                if (has && got->scope() != m.inner[n]->scope())
                {
                    fail("lookup", "operator[] of " + where + " is another module");
                }
            }
        }
    }

    void m_type(const Op& op)
    {
        MMod& m = pick(op.a);
        idl::Module& real = real_of(m);
        std::string n = spell(op.b * 64 + op.c % 64);
        bool recursive = op.d & 1;
        MTP expected = find_type(m, n, recursive);
        DynamicType::Ptr got;
        attempt(op, Expect::OK, code_names[op.code], [&]() { got = real.type(n, recursive); }, unchanged());
        std::string where = "type '" + n + "' from module '" + m.scope() + "'";
        if (!expected != (got.get() == nullptr))
        {
            fail("lookup", where + (expected ? " isn't found" : " is found"));
        }
        if (expected)
        {
            same_def(*got, expected, where);
        }
    }

    void all_types(const MMod& m, bool scoped, std::map<std::string, std::vector<MTP>>& out)
    {
        std::string prefix = scoped && !m.scope().empty() ? m.scope() + "::" : "";
        for (auto* kind : {&m.structs, &m.unions, &m.aliases, &m.enums})
        {
            for (auto& t : *kind)
            {
                out[prefix + t.first].push_back(t.second);
            }
        }
        for (auto& i : m.inner)
        {
            all_types(*i.second, scoped, out);
        }
    }

    void m_all(const Op& op)
    {
        MMod& m = pick(op.a);
        idl::Module& real = real_of(m);
        bool scoped = op.b & 1;
        std::map<std::string, std::vector<MTP>> expected;
        all_types(m, scoped, expected);
        std::map<std::string, DynamicType::Ptr> got;
        attempt(op, Expect::OK, code_names[op.code], [&]() { got = real.get_all_types(scoped); }, unchanged());
        if (got.size() != expected.size())
        {
            fail("lookup", "get_all_types of '" + m.scope() + "' has " + std::to_string(got.size()) + " names");
        }
        for (auto& p : expected)
        {
            auto it = got.find(p.first);
            if (it == got.end() || it->second.get() == nullptr)
            {
                fail("lookup", "get_all_types of '" + m.scope() + "' lacks " + p.first);
            }
            std::string last = "get_all_types of '" + m.scope() + "' gives something else for " + p.first;
            bool ok = false;
            for (auto& t : p.second)                   // one of those of that name
            {
                try
                {
                    same_def(*it->second, t, p.first);
                    ok = true;
                    break;
                }
                catch (const rt::Fail& e)
                {
                    last = e.msg;
                }
            }
            if (!ok)
            {
                fail("lookup", last);
            }
        }
    }

    void m_next(const Op& op)
    {
        MMod& m = pick(op.a);
        const idl::Module& real = real_of(m);
        int mode = int(op.b % 3);                      // for_each, for_each_submodule with and without recursion
        std::vector<std::string> expected;
        std::function<void(const MMod&, bool)> walk = [&](const MMod& x, bool deep)
                {
                    for (auto& i : x.inner)
                    {
                        expected.push_back(i.second->scope());
                        if (deep)
                        {
                            walk(*i.second, deep);
                        }
                    }
                };
        if (mode == 0)
        {
            expected.push_back(m.scope());
        }
        walk(m, mode != 2);
        std::vector<std::string> got;
        attempt(op, Expect::OK, code_names[op.code], [&]()
                {
                    got.clear();
                    auto visit = [&](const idl::Module& x) { rt::Pause p; got.push_back(x.scope()); };
                    if (mode == 0)
                    {
                        real.for_each(visit);
                    }
                    else
                    {
                        real.for_each_submodule(visit, mode == 1);
                    }
                }, unchanged());
        if (got != expected)
        {
            fail("lookup", "walking the modules of '" + m.scope() + "' gives other modules");
        }
    }

    // data built from the definition a name designates
    void d_new(const Op& op, Rng& r)
    {
        MMod& m = pick(op.a);
        idl::Module& real = real_of(m);
        std::string n = spell(op.b * 64 + op.c % 64);
        Found f = lookup(m, n);
        const MTP* t = f.mod ? get(op.d & 1 ? f.mod->unions : f.mod->structs, f.name) : nullptr;
        if (!t)
        {
            return;
        }
        std::unique_ptr<DynamicData> d;
        attempt(op, Expect::OK, code_names[op.code], [&]()
                {
                    d.reset(op.d & 1 ? new DynamicData(real.union_switch(n)) : new DynamicData(real.structure(n)));
                }, unchanged());
        DSlot& s = data_[op.d / 2 % DATA];
        s.m = *t;
        s.v = default_val(*s.m);
        adopt(*d, s.v, *s.m);
        if (s.m->k == K::STRUCT)
        {
            s.v = gen_val(r, *s.m);
            fill(d->ref(), s.v, *s.m, r);
            adopt(*d, s.v, *s.m);
        }
        s.d = std::move(d);
        rt::probe("data of a registered type");
    }
};

std::vector<Op> generate(const std::string&, u64 seed)
{
    Rng r(rt::mix64(seed) ^ 0x30d);
    int weights[NCODES], total = 0;
    for (int i = 0; i < NCODES; ++i)
    {
        weights[i] = i == T_NEW || i == M_REG || r.chance(4, 5) ? code_weights[i] : 0;
        total += weights[i];
    }
    int mode = int(r.below(10));
    mode = mode < 4 ? 0 : mode < 8 ? 1 : 2;
    std::vector<Op> ops;
    int n = int(r.range(6, 34));
    for (int i = 0; i < n; ++i)
    {
        Op op;
        int pick = int(r.below(u64(total)));
        for (int c = 0; c < NCODES; ++c)
        {
            pick -= weights[c];
            if (pick < 0)
            {
                op.code = c;
                break;
            }
        }
        op.a = uint32_t(r.below(12));
        op.b = uint32_t(r.below(64));
        op.c = uint32_t(r.below(10000));
        op.d = uint32_t(r.below(64));
        if (mode == 1 && r.chance(1, 2))
        {
            op.f.kind = r.chance(1, 3) ? FK::FROM : FK::NTH;
            op.f.n = 1 + (r.chance(1, 4) ? r.below(40) : r.below(8));
        }
        else if (mode == 2 && r.chance(1, 3))
        {
            op.f.kind = FK::SWEEP;
            op.f.n = 60;
        }
        ops.push_back(op);
    }
    return ops;
}

RegisterWorld reg("C13", WorldKind{
    "mod", std::vector<const char*>(code_names, code_names + NCODES),
    [](const std::string&) -> std::unique_ptr<World> { return std::make_unique<ModWorld>(); }, generate});

} // namespace

} // namespace sim
