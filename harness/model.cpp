#include "model.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

using rt::fail;

namespace sim {

// ---------------------------------------------------------------- basics
static const char* prim_names[PRIMS] = {
    "bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t",
    "float", "double", "long double", "char", "char16_t", "wchar_t"
};

size_t prim_size(K k)
{
    static const size_t sizes[PRIMS] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 16, 1, 2, 4};
    return sizes[int(k)];
}

bool signed_kind(K k)
{
    return k == K::I8 || k == K::I16 || k == K::I32 || k == K::I64 || k == K::C8 || k == K::WC;
}

const MT& res(const MT& t)
{
    const MT* p = &t;
    while (p->k == K::ALIAS)
    {
        p = p->elem.get();
    }
    return *p;
}

MTP mprim(K k)
{
    auto t = std::make_shared<MT>();
    t->k = k;
    t->name = prim_names[int(k)];
    return t;
}

static bool same_p(const MTP& a, const MTP& b)
{
    return (!a && !b) || (a && b && same(*a, *b));
}

bool same(const MT& a, const MT& b)
{
    if (&a == &b)
    {
        return true;
    }
    if (a.k != b.k || a.name != b.name || a.bound != b.bound || a.width != b.width || a.en != b.en || a.next != b.next
            || a.labels != b.labels || a.def != b.def || a.mem.size() != b.mem.size()
            || !same_p(a.elem, b.elem) || !same_p(a.key, b.key) || !same_p(a.parent, b.parent)
            || !same_p(a.disc, b.disc))
    {
        return false;
    }
    for (size_t i = 0; i < a.mem.size(); ++i)
    {
        const MMember& x = a.mem[i];
        const MMember& y = b.mem[i];
        if (x.name != y.name || x.id != y.id || x.key != y.key || x.optional != y.optional || !same(*x.type, *y.type))
        {
            return false;
        }
    }
    return true;
}

size_t weight(const MT& t)
{
    switch (t.k)
    {
        case K::ALIAS: return weight(*t.elem);
        case K::ARRAY:
        {
            size_t w = 1 + t.bound * weight(*t.elem);
            return w > 14 && is_prim(t.elem->k) ? 14 + w / 40 : w;   // cheap ones
        }
        case K::SEQ: return 1 + weight(*t.elem);
        case K::PAIR:
        case K::MAP: return 1 + weight(*t.key) + weight(*t.elem);
        case K::STRUCT:
        {
            size_t w = 1;
            for (auto& m : t.mem)
            {
                w += weight(*m.type);
            }
            return w;
        }
        case K::UNION:
        {
            size_t w = 0;
            for (auto& m : t.mem)
            {
                w = std::max(w, weight(*m.type));
            }
            return 1 + w;
        }
        default: return 1;
    }
}

bool has_kind(const MT& t, K k)
{
    if (t.k == k)
    {
        return true;
    }
    if ((t.elem && has_kind(*t.elem, k)) || (t.key && has_kind(*t.key, k)))
    {
        return true;
    }
    for (auto& m : t.mem)
    {
        if (has_kind(*m.type, k))
        {
            return true;
        }
    }
    return false;
}

bool has_caseless(const MT& rt_, const Val& v)
{
    const MT& t = res(rt_);
    if (t.k == K::UNION)
    {
        return !v.live || has_caseless(*t.mem[v.caseno].type, v.kid[0]);
    }
    for (size_t i = 0; i < v.kid.size(); ++i)
    {
        if (has_caseless(t.k == K::STRUCT ? *t.mem[i].type : t.k == K::PAIR && i == 0 ? *t.key : *t.elem, v.kid[i]))
        {
            return true;
        }
    }
    for (auto& e : v.ent)
    {
        if (has_caseless(*t.key, e.first) || has_caseless(*t.elem, e.second))
        {
            return true;
        }
    }
    return false;
}

bool has_text(const MT& rt_, const Val& v)
{
    const MT& t = res(rt_);
    auto bad = [](char32_t c) { return c > 0x10ffff || (c >= 0xd800 && c < 0xe000); };
    if (t.k == K::WC || t.k == K::C16)
    {
        return !bad(char32_t(v.bits));
    }
    if (t.k == K::WSTR || t.k == K::STR16)
    {
        for (char32_t c : v.str)
        {
            if (bad(c))
            {
                return false;
            }
        }
        return true;
    }
    if (t.k == K::UNION)
    {
        return !v.live || has_text(*t.mem[v.caseno].type, v.kid[0]);
    }
    for (size_t i = 0; i < v.kid.size(); ++i)
    {
        if (!has_text(t.k == K::STRUCT ? *t.mem[i].type : t.k == K::PAIR && i == 0 ? *t.key : *t.elem, v.kid[i]))
        {
            return false;
        }
    }
    for (auto& e : v.ent)
    {
        if (!has_text(*t.key, e.first) || !has_text(*t.elem, e.second))
        {
            return false;
        }
    }
    return true;
}

bool val_eq(const MT& rt_, const Val& a, const Val& b)
{
    const MT& t = res(rt_);
    if (is_prim(t.k) || t.k == K::ENUM)
    {
        return a.bits == b.bits;
    }
    if (is_str(t.k))
    {
        return a.str == b.str;
    }
    switch (t.k)
    {
        case K::ARRAY:
        case K::SEQ:
            if (a.kid.size() != b.kid.size())
            {
                return false;
            }
            for (size_t i = 0; i < a.kid.size(); ++i)
            {
                if (!val_eq(*t.elem, a.kid[i], b.kid[i]))
                {
                    return false;
                }
            }
            return true;
        case K::PAIR:
            return val_eq(*t.key, a.kid[0], b.kid[0]) && val_eq(*t.elem, a.kid[1], b.kid[1]);
        case K::MAP:
            if (a.ent.size() != b.ent.size())
            {
                return false;
            }
            for (auto& e : a.ent)
            {
                bool found = false;
                for (auto& f : b.ent)
                {
                    if (val_eq(*t.key, e.first, f.first))
                    {
                        found = val_eq(*t.elem, e.second, f.second);
                        break;
                    }
                }
                if (!found)
                {
                    return false;
                }
            }
            return true;
        case K::STRUCT:
            for (size_t i = 0; i < a.kid.size(); ++i)
            {
                if (!val_eq(*t.mem[i].type, a.kid[i], b.kid[i]))
                {
                    return false;
                }
            }
            return true;
        case K::UNION:
            if (a.live != b.live)
            {
                return false;
            }
            if (!a.live)
            {
                return true;
            }
            return a.caseno == b.caseno && a.label == b.label
                   && val_eq(*t.mem[a.caseno].type, a.kid[0], b.kid[0]);
        default:
            return false;
    }
}

// ---------------------------------------------------------------- text
std::string to_str(const Units& u)
{
    std::string s;
    for (auto c : u)
    {
        s += char(c);
    }
    return s;
}
std::wstring to_wstr(const Units& u)
{
    std::wstring s;
    for (auto c : u)
    {
        s += wchar_t(c);
    }
    return s;
}
std::u16string to_str16(const Units& u)
{
    std::u16string s;
    for (auto c : u)
    {
        s += char16_t(c);
    }
    return s;
}

std::string units_text(const Units& u)
{
    std::ostringstream o;
    o << '"';
    for (auto c : u)
    {
        if (c >= 32 && c < 127)
        {
            o << char(c);
        }
        else
        {
            o << "\\x" << std::hex << uint32_t(c) << std::dec << ';';
        }
    }
    o << '"';
    return o.str();
}

std::string show(const MT& t)
{
    std::string s;
    switch (t.k)
    {
        case K::ENUM:
            s = t.name + ":enum" + std::to_string(t.width * 8) + "{";
            for (auto& e : t.en)
            {
                s += e.first + "=" + std::to_string(e.second) + " ";
            }
            return s + "}";
        case K::ALIAS: return t.name + ":=" + show(*t.elem);
        case K::ARRAY: return "array<" + show(*t.elem) + "," + std::to_string(t.bound) + ">";
        case K::SEQ: return "seq<" + show(*t.elem) + (t.bound ? "," + std::to_string(t.bound) : "") + ">";
        case K::MAP:
            return "map<" + show(*t.key) + "," + show(*t.elem) + (t.bound ? "," + std::to_string(t.bound) : "") + ">";
        case K::PAIR: return "pair<" + show(*t.key) + "," + show(*t.elem) + ">";
        case K::STRUCT:
            s = t.name + "{";
            for (auto& m : t.mem)
            {
                s += m.name + ":" + show(*m.type) + " ";
            }
            return s + "}";
        case K::UNION:
            s = t.name + "(" + show(*t.disc) + "){";
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                for (auto& l : t.labels)
                {
                    if (l.second == int(i))
                    {
                        s += std::to_string(l.first) + "/";
                    }
                }
                if (t.def == int(i))
                {
                    s += "default/";
                }
                s += t.mem[i].name + ":" + show(*t.mem[i].type) + " ";
            }
            return s + "}";
        default: return t.name;
    }
}

std::string show(const MT& rt_, const Val& v)
{
    const MT& t = res(rt_);
    if (is_prim(t.k))
    {
        std::string s;
        with_prim(t.k, [&](auto z)
                {
                    using T = decltype(z);
                    if constexpr (std::is_floating_point<T>::value)
                    {
                        s = std::to_string(double(from_bits<T>(v.bits)));
                    }
                    else
                    {
                        s = std::to_string(+from_bits<T>(v.bits));
                    }
                });
        return s;
    }
    if (t.k == K::ENUM)
    {
        return std::to_string(v.bits);
    }
    if (is_str(t.k))
    {
        return units_text(v.str);
    }
    std::string s;
    if (t.k == K::MAP)
    {
        for (auto& e : v.ent)
        {
            s += show(*t.key, e.first) + ":" + show(*t.elem, e.second) + " ";
        }
        return "{" + s + "}";
    }
    if (t.k == K::UNION)
    {
        return v.live ? "<" + (v.label == LABEL_ANY ? "?" : std::to_string(v.label)) + ">" + t.mem[v.caseno].name + "="
               + show(*t.mem[v.caseno].type, v.kid[0]) : "<none>";
    }
    for (size_t i = 0; i < v.kid.size(); ++i)
    {
        const MT& kt = t.k == K::STRUCT ? *t.mem[i].type : t.k == K::PAIR && i == 0 ? *t.key : *t.elem;
        s += show(kt, v.kid[i]) + " ";
    }
    return "[" + s + "]";
}

// ---------------------------------------------------------------- unions
size_t disc_size(const MT& disc)
{
    const MT& d = res(disc);
    return d.k == K::ENUM ? size_t(d.width) : prim_size(d.k);
}

int64_t shrink(int64_t label, const MT& disc)
{
    size_t n = disc_size(disc);
    return int64_t(u64(label) & (~u64(0) >> ((8 - n) * 8)));
}

int64_t default_label(const MT& disc)
{
    return INT64_MAX >> ((8 - disc_size(disc)) * 8);
}

bool label_allowed(const MT& disc, int64_t label)
{
    const MT& d = res(disc);
    if (d.k != K::ENUM)
    {
        return true;
    }
    for (auto& e : d.en)
    {
        if (int64_t(e.second) == label)
        {
            return true;
        }
    }
    return false;
}

static int case_of(const MT& t, int64_t label)
{
    for (auto& l : t.labels)
    {
        if (l.first == label)
        {
            return l.second;
        }
    }
    return -1;
}

// ---------------------------------------------------------------- generation
MTP gen_disc(Rng& r, const Gen& g)
{
    for (auto& p : g.pool)
    {
        if (res(*p).k == K::ENUM && res(*p).en.size() > 1 && r.chance(1, 2))
        {
            return p;
        }
    }
    static const K kinds[] = {K::BOOL, K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::C8, K::C16,
                              K::WC, K::I32, K::I32};
    if (r.chance(1, 5))
    {
        auto e = std::make_shared<MT>();
        e->k = K::ENUM;
        e->name = "E" + std::to_string(r.below(9));
        e->width = 1 << r.below(3);
        u64 v = r.below(3);
        for (int i = 0, n = 2 + int(r.below(4)); i < n; ++i)
        {
            e->en.push_back({"e" + std::to_string(i), v});
            e->next = v + 1;
            v += 1 + r.below(3);
        }
        return e;
    }
    MTP p = mprim(kinds[r.below(sizeof(kinds) / sizeof(kinds[0]))]);
    if (r.chance(1, 8))
    {
        auto a = std::make_shared<MT>();
        a->k = K::ALIAS;
        a->name = "A" + std::to_string(r.below(9));
        a->elem = p;
        return a;
    }
    return p;
}

bool label_text(const MT& disc, int64_t l, u64 form, std::string& text)
{
    const MT& d = res(disc);
    switch (d.k)
    {
        case K::BOOL:
            text = l ? "TRUE" : "FALSE";
            return l == 0 || l == 1;
        case K::C8:
        case K::C16:
        case K::WC:
            text = l > ' ' && l < 127 ? std::string(1, char(l)) : "?";
            text = form % 2 ? text : "'" + text + "'";
            return l > ' ' && l < 127 && l != '\'' && l != '\\';
        default:
            break;
    }
    static const char* const forms[] = {"0%llo", "0x%llx", "0X%llX"};
    text = d.k == K::U64 ? std::to_string(u64(l)) : std::to_string(l);
    if (l > 0 && d.k != K::ENUM && form % 3 == 0)
    {
        char digits[40];
        snprintf(digits, sizeof digits, forms[form / 3 % 3], static_cast<unsigned long long>(l));
        text = digits;
    }
    return shrink(l, disc) == l;
}

int64_t gen_label(Rng& r, const MT& disc)
{
    const MT& d = res(disc);
    if (d.k == K::ENUM)
    {
        return d.en.empty() ? 0 : int64_t(d.en[r.below(d.en.size())].second);
    }
    if (d.k == K::BOOL)
    {
        return int64_t(r.below(2));
    }
    int64_t l;
    do
    {
        switch (r.below(6))
        {
            case 0: l = int64_t(r.below(256)); break;
            case 1: l = signed_kind(d.k) ? -int64_t(r.below(5)) : int64_t(r.below(5)); break;
            case 2: l = int64_t(r.next()); break;
            default: l = int64_t(r.below(8)); break;
        }
        l = shrink(l, disc);
        if (signed_kind(d.k) && disc_size(disc) < 8)
        {
            int sh = int(64 - disc_size(disc) * 8);
            l = int64_t(u64(l) << sh) >> sh;
        }
    }
    while (shrink(l, disc) == default_label(disc) || shrink(l, disc) == default_label(disc) - 1);
    return l;
}

MTP gen_key(Rng& r, const Gen& g)
{
    static const K kinds[] = {K::I32, K::STR, K::U8, K::I64, K::U16, K::WSTR, K::STR, K::U32, K::C8, K::BOOL,
                              K::I8, K::I16, K::U64, K::I32, K::F32, K::F64, K::F128, K::C16, K::WC, K::STR16, K::STR};
    for (auto& p : g.pool)
    {
        const MT& t = res(*p);
        bool ok = t.k == K::ENUM || is_str(t.k)
                || (t.k == K::STRUCT && !has_kind(t, K::UNION) && weight(t) < 8);
        if (ok && r.chance(1, 6))
        {
            return p;
        }
    }
    K k = kinds[r.below(sizeof(kinds) / sizeof(kinds[0]))];
    if (is_prim(k))
    {
        if (r.chance(1, 8))   // two numbers: collide() can give them the hash of others
        {
            auto s = std::make_shared<MT>();
            s->k = K::STRUCT;
            s->name = "KK";
            s->mem.push_back(MMember{"k0", mprim(K::I64)});
            s->mem.push_back(MMember{"k1", mprim(K::I64)});
            return s;
        }
        if (r.chance(1, 10))   // a structure of two
        {
            auto s = std::make_shared<MT>();
            s->k = K::STRUCT;
            s->name = "K" + std::to_string(r.below(9));
            s->mem.push_back(MMember{"k0", mprim(k)});
            auto st = std::make_shared<MT>();
            st->k = K::STR;
            st->name = "std::string";
            s->mem.push_back(MMember{"k1", st});
            return s;
        }
        return mprim(k);
    }
    auto s = std::make_shared<MT>();
    s->k = k;
    s->name = k == K::STR ? "std::string" : k == K::WSTR ? "std::wstring" : "std::u16string";
    if (r.chance(1, 5))
    {
        s->bound = 1 + uint32_t(r.below(20));
        s->name += "_" + std::to_string(s->bound);
    }
    return s;
}

MTP gen_type(Rng& r, const Gen& g, int depth)
{
    if (!g.pool.empty() && r.chance(1, 4))
    {
        MTP p = g.pool[r.below(g.pool.size())];
        if (weight(*p) < 24)
        {
            return p;
        }
    }
    int total = 0;
    auto allowed = [&](int k)
            {
                return depth < g.max_depth || k < int(K::ENUM);
            };
    for (int k = 0; k < 26; ++k)
    {
        total += allowed(k) ? g.weights[k] : 0;
    }
    if (!total)
    {
        return mprim(K::I32);
    }
    int pick = int(r.below(u64(total)));
    K k = K::I32;
    for (int i = 0; i < 26; ++i)
    {
        if (allowed(i))
        {
            pick -= g.weights[i];
            if (pick < 0)
            {
                k = K(i);
                break;
            }
        }
    }
    if (is_prim(k))
    {
        return mprim(k);
    }
    auto t = std::make_shared<MT>();
    t->k = k;
    auto prefix = [&](const char* p) { return std::string(p) + std::to_string(r.below(30)); };
    auto bound_text = [&]() { return t->bound ? std::to_string(t->bound) + "_" : std::string(); };
    switch (k)
    {
        case K::STR:
        case K::WSTR:
        case K::STR16:
            t->name = k == K::STR ? "std::string" : k == K::WSTR ? "std::wstring" : "std::u16string";
            if (r.chance(1, 3))
            {
                t->bound = 1 + uint32_t(r.below(24));
                t->name += "_" + std::to_string(t->bound);
            }
            break;
        case K::ENUM:
        {
            t->name = prefix("E");
            t->width = 1 << r.below(3);
            u64 v = r.below(2);
            bool wild = r.chance(1, 3);   // names that sort otherwise than their values
            for (int i = 0, n = int(r.chance(1, 20) ? r.below(40) : r.below(5)); i < n; ++i)
            {
                std::string name = "e" + std::to_string(i);
                t->en.push_back({wild ? std::string(1, char('a' + r.below(20))) + name : name, v});
                t->next = v + 1;
                v += 1 + r.below(3);
            }
            break;
        }
        case K::ALIAS:
            t->elem = gen_type(r, g, depth + 1);
            t->name = prefix("A");
            break;
        case K::ARRAY:
            t->elem = gen_type(r, g, depth + 1);
            t->bound = r.chance(1, 24) ? 0 : 1 + uint32_t(r.below(3));
            if (weight(*t->elem) > 10)
            {
                t->bound = 1;
            }
            else if (is_prim(t->elem->k) && r.chance(2, 5))
            {
                t->bound = 4 + uint32_t(r.below(r.chance(1, 4) ? 400 : 28));
            }
            t->name = "array_" + std::to_string(t->bound) + "_" + t->elem->name;
            if (r.chance(1, 6) && weight(*t->elem) < 8)   // several dimensions at once
            {
                auto inner = std::make_shared<MT>(*t);
                t->elem = inner;
                t->bound = 1 + uint32_t(r.below(3));
                t->dims = {t->bound, inner->bound};
                t->name = "array_" + std::to_string(t->bound) + "_" + inner->elem->name;
            }
            break;
        case K::SEQ:
            t->elem = gen_type(r, g, depth + 1);
            t->bound = r.chance(1, 3) ? 1 + uint32_t(r.below(6)) : 0;
            t->name = "sequence_" + bound_text() + t->elem->name;
            break;
        case K::MAP:
            t->key = gen_key(r, g);
            t->elem = gen_type(r, g, depth + 1);
            if (r.chance(1, 30))           // entries without contents
            {
                auto empty = std::make_shared<MT>();
                empty->k = K::STRUCT;
                empty->name = "Z";
                t->key = t->elem = empty;
            }
            t->bound = r.chance(1, 3) ? 1 + uint32_t(r.below(6)) : 0;
            t->name = "map_" + bound_text() + "pair_" + t->key->name + "_" + t->elem->name;
            break;
        case K::PAIR:
            t->key = gen_key(r, g);
            t->elem = gen_type(r, g, depth + 1);
            t->name = "pair_" + t->key->name + "_" + t->elem->name;
            break;
        case K::STRUCT:
        {
            t->name = prefix("S");
            for (auto& p : g.pool)
            {
                if (p->k == K::STRUCT && weight(*p) < 12 && r.chance(1, 8))
                {
                    t->parent = p;
                    t->mem = p->mem;
                    break;
                }
            }
            int n = int(r.chance(1, 40) ? r.below(16) : r.below(4)) + (g.no_empty || !r.chance(1, 10) ? 1 : 0);
            for (int i = 0; i < n; ++i)
            {
                MMember m;
                m.name = (t->parent ? "n" : "m") + std::to_string(i);
                if (t->parent)
                {
                    bool clash = false;
                    for (auto& o : t->mem)
                    {
                        clash |= o.name == m.name;
                    }
                    if (clash)
                    {
                        continue;
                    }
                }
                m.type = gen_type(r, g, depth + 1);
                if (r.chance(1, 10))
                {
                    m.key = true;
                }
                if (r.chance(1, 10))
                {
                    m.id = int32_t(r.below(100));
                }
                if (r.chance(1, 10))
                {
                    m.optional = true;
                }
                t->mem.push_back(m);
            }
            break;
        }
        case K::UNION:
        {
            t->name = prefix("U");
            t->disc = gen_disc(r, g);
            int n = 1 + int(r.chance(1, 30) ? r.below(20) : r.below(4));
            for (int i = 0; i < n; ++i)
            {
                MMember m;
                m.name = "c" + std::to_string(t->mem.size());
                m.type = gen_type(r, g, depth + 1);
                if (has_kind(*m.type, K::F128))
                {
                    m.type = mprim(K::F64);
                }
                std::vector<int64_t> ls;
                for (int j = 0, c = int(r.below(3)); j < c; ++j)
                {
                    int64_t l = shrink(gen_label(r, *t->disc), *t->disc);
                    if (case_of(*t, l) < 0 && std::find(ls.begin(), ls.end(), l) == ls.end()
                            && label_allowed(*t->disc, l))
                    {
                        ls.push_back(l);
                    }
                }
                bool def = t->def < 0 && r.chance(1, 4);
                if (ls.empty() && !def)
                {
                    continue;
                }
                for (auto l : ls)
                {
                    t->labels.push_back({l, int(t->mem.size())});
                }
                if (def)
                {
                    t->def = int(t->mem.size());
                }
                t->mem.push_back(m);
            }
            std::sort(t->labels.begin(), t->labels.end());
            break;
        }
        default:
            break;
    }
    return t;
}

u64 gen_bits(Rng& r, K k)
{
    u64 bits = 0;
    with_prim(k, [&](auto z)
            {
                using T = decltype(z);
                if constexpr (std::is_floating_point<T>::value)
                {
                    static const double vals[] = {1, 0.5, -2.25, 1024, 3, -7, 100.125, 65536, 12345.5, 1.0 / 3, -1e-30,
                                                  std::numeric_limits<double>::infinity()};
                    bits = to_bits<T>(T(r.chance(1, 6) ? 0.0 : vals[r.below(12)]));
                    if (sizeof(T) > sizeof(double) && r.chance(1, 3))
                    {
                        bits = WIDE_NAN + r.below(4);
                    }
                }
                else if constexpr (std::is_same<T, bool>::value)
                {
                    bits = r.below(2);
                }
                else if constexpr (std::is_same<T, char16_t>::value)
                {
                    bits = r.chance(1, 3) ? 0x4e00 + r.below(1000) : 'a' + r.below(26);
                }
                else if constexpr (std::is_same<T, wchar_t>::value)
                {
                    bits = r.chance(1, 4) ? 0x1f600 + r.below(60) : r.chance(1, 3) ? 0x4e00 + r.below(1000)
                         : 'a' + r.below(26);
                }
                else if constexpr (std::is_same<T, char>::value)
                {
                    bits = 'a' + r.below(26);
                }
                else
                {
                    switch (r.below(6))
                    {
                        case 0: bits = to_bits<T>(T(r.next())); break;
                        case 1: bits = to_bits<T>(r.chance(1, 2) ? std::numeric_limits<T>::max()
                                : std::numeric_limits<T>::min()); break;
                        case 2: bits = to_bits<T>(T(u64(1 + r.below(3)) << r.below(8 * sizeof(T)))); break;
                        default: bits = to_bits<T>(T(r.below(12))); break;
                    }
                }
            });
    return bits;
}

Units gen_text(Rng& r, K k, size_t max)
{
    size_t n = 0;
    switch (r.below(5))
    {
        case 0: n = 0; break;
        case 1: n = 12 + r.below(r.chance(1, 20) ? 2000 : 30); break;
        default: n = 1 + r.below(8); break;
    }
    n = std::min(n, max);
    Units u;
    for (size_t i = 0; i < n; ++i)
    {
        char32_t c = char32_t('a' + r.below(26));
        if (k == K::WSTR && r.chance(1, 8))
        {
            c = char32_t(r.chance(1, 2) ? 0x1f600 + r.below(60) : 0x4e00 + r.below(1000));
        }
        if (k == K::STR16 && r.chance(1, 8))
        {
            c = char32_t(0x4e00 + r.below(1000));
        }
        u += c;
    }
    return u;
}

Val default_val(const MT& rt_)
{
    const MT& t = res(rt_);
    Val v;
    switch (t.k)
    {
        case K::ARRAY:
            v.kid.assign(t.bound, default_val(*t.elem));
            break;
        case K::PAIR:
            v.kid = {default_val(*t.key), default_val(*t.elem)};
            break;
        case K::STRUCT:
            for (auto& m : t.mem)
            {
                v.kid.push_back(default_val(*m.type));
            }
            break;
        case K::UNION:
            if (t.def >= 0)
            {
                v.live = true;
                v.caseno = t.def;
                v.label = LABEL_ANY;
                v.kid = {default_val(*t.mem[t.def].type)};
            }
            break;
        default:
            break;
    }
    return v;
}

// Another key with the hash of the given one, for the types where it can be worked out. If the library changes its
// hash, it is just another key.
bool can_collide(const MT& key_type)
{
    const MT& t = res(key_type);
    return t.k == K::STRUCT && !t.parent && t.mem.size() == 2 && res(*t.mem[0].type).k == K::I64
           && res(*t.mem[1].type).k == K::I64;
}

// Equal maps can keep in different orders the keys that share their hash.
bool any_order(const MT& t)
{
    bool any = (t.k == K::MAP && can_collide(*t.key)) || (t.elem && any_order(*t.elem)) || (t.key && any_order(*t.key))
            || (t.parent && any_order(*t.parent));
    for (auto& m : t.mem)
    {
        any = any || any_order(*m.type);
    }
    return any;
}

bool collide(Rng& r, const MT& key_type, const Val& with, Val& out)
{
    const MT& t = res(key_type);
    if (!can_collide(t))
    {
        return false;
    }
    const uint64_t m = 0x880355f21e6d1965ULL, n = 0x2127599bf4325c37ULL, seed = 0x2145654af87a5b6dULL;
    auto inverse = [](uint64_t odd)
            {
                uint64_t x = odd;
                for (int i = 0; i < 6; ++i)
                {
                    x *= 2 - odd * x;
                }
                return x;
            };
    auto mix = [&](uint64_t h)
            {
                h ^= h >> 23;
                h *= n;
                return h ^ (h >> 47);
            };
    auto unmix = [&](uint64_t h)
            {
                h ^= h >> 47;
                h *= inverse(n);
                return h ^ (h >> 23) ^ (h >> 46);
            };
    auto hash = [&](uint64_t v) { return mix(((seed ^ (8 * m)) ^ mix(v)) * m); };
    auto unhash = [&](uint64_t h) { return unmix((unmix(h) * inverse(m)) ^ (seed ^ (8 * m))); };
    auto tail = [&](uint64_t h) { return 0x9e3779b9 + (h << 6) + (h >> 2); };
    uint64_t h0 = hash(with.kid[0].bits);
    uint64_t whole = h0 ^ (hash(with.kid[1].bits) + tail(h0));
    out = with;
    out.kid[0].bits = r.below(5);
    uint64_t other = hash(out.kid[0].bits);
    out.kid[1].bits = unhash((whole ^ other) - tail(other));
    return true;
}

Val gen_val(Rng& r, const MT& rt_, int budget)
{
    // collections stay empty once the value is big enough
    static SIM_TLS int depth = 0, nodes = 0;
    struct Depth
    {
        Depth() { nodes = depth++ == 0 ? 0 : nodes + 1; }
        ~Depth() { --depth; }
    } guard;
    if (nodes > 120 || budget < 0)
    {
        budget = 0;
    }
    const MT& t = res(rt_);
    Val v;
    if (is_prim(t.k))
    {
        v.bits = gen_bits(r, t.k);
        return v;
    }
    if (is_str(t.k))
    {
        v.str = gen_text(r, t.k, t.bound ? t.bound : depth > 2 ? 64 : 4096);
        return v;
    }
    switch (t.k)
    {
        case K::ENUM:
            if (!t.en.empty())
            {
                v.bits = t.en[r.below(t.en.size())].second;
            }
            break;
        case K::ARRAY:
            for (uint32_t i = 0; i < t.bound; ++i)
            {
                v.kid.push_back(gen_val(r, *t.elem, budget / 2));
            }
            break;
        case K::SEQ:
        {
            size_t n = r.below(u64(std::min(budget, 5)) + 1);
            if (depth == 1 && r.chance(1, 16) && weight(*t.elem) < 3)   // a long one
            {
                n = r.below(t.bound || !is_prim(res(*t.elem).k) ? 40 : 400);
            }
            n = t.bound ? std::min(n, size_t(t.bound)) : n;
            for (size_t i = 0; i < n; ++i)
            {
                v.kid.push_back(gen_val(r, *t.elem, budget / 2));
            }
            break;
        }
        case K::MAP:
        {
            size_t n = r.below(u64(std::min(budget, 5)) + 1);
            if (depth == 1 && r.chance(1, 8) && weight(*t.elem) < 3 && weight(*t.key) < 4)   // a long one
            {
                n = r.below(r.chance(1, 4) ? 150 : 40);
            }
            n = t.bound ? std::min(n, size_t(t.bound)) : n;
            for (size_t i = 0; i < n; ++i)
            {
                Val k;
                if (v.ent.empty() || !r.chance(1, 2) || !collide(r, *t.key, v.ent[r.below(v.ent.size())].first, k))
                {
                    k = gen_val(r, *t.key, budget / 2);
                }
                bool dup = false;
                for (auto& e : v.ent)
                {
                    dup |= val_eq(*t.key, e.first, k);
                }
                if (!dup)
                {
                    Val val = gen_val(r, *t.elem, budget / 2);
                    v.ent.push_back({k, val});
                }
            }
            break;
        }
        case K::PAIR:
            v.kid.push_back(gen_val(r, *t.key, budget / 2));
            v.kid.push_back(gen_val(r, *t.elem, budget / 2));
            break;
        case K::STRUCT:
            for (auto& m : t.mem)
            {
                v.kid.push_back(gen_val(r, *m.type, budget - 1));
            }
            break;
        case K::UNION:
        {
            if (t.mem.empty() || (t.def < 0 && r.chance(1, 10)))
            {
                if (t.def < 0)
                {
                    break;
                }
            }
            v.live = true;
            if (t.def >= 0 && r.chance(1, 4))
            {
                v.caseno = t.def;
                v.label = LABEL_ANY;
            }
            else
            {
                if (t.labels.empty())
                {
                    v.caseno = t.def;
                    v.label = LABEL_ANY;
                }
                else
                {
                    auto& l = t.labels[r.below(t.labels.size())];
                    v.label = l.first;
                    v.caseno = l.second;
                }
            }
            v.kid.push_back(gen_val(r, *t.mem[v.caseno].type, budget - 1));
            break;
        }
        default:
            break;
    }
    return v;
}

// Another value that differs in one or two bits, if there is one that is safe to use.
u64 near_bits(Rng& r, K k, u64 bits)
{
    with_prim(k, [&](auto z)
            {
                using T = decltype(z);
                constexpr bool wide = std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value;
                if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value)
                {
                    u64 flip = u64(1 + 2 * r.below(2)) << r.below(wide ? 6 : 8 * sizeof(T));
                    bits = to_bits<T>(T(bits ^ flip));
                }
                else if constexpr (std::is_same<T, double>::value)
                {
                    double d;
                    memcpy(&d, &bits, sizeof(d));
                    if (std::isfinite(d))
                    {
                        bits ^= u64(1 + 2 * r.below(2)) << r.below(50);
                    }
                }
                else
                {
                    bits = gen_bits(r, k);
                }
            });
    return bits;
}

// Changes one thing somewhere in the value; false when it found nothing to change.
bool tweak(Rng& r, const MT& rt_, Val& v)
{
    const MT& t = res(rt_);
    if (is_prim(t.k))
    {
        u64 old = v.bits;
        with_prim(t.k, [&](auto z)
                {
                    using T = decltype(z);
                    if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value && sizeof(T) > 1
                            && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value)
                    {
                        v.bits = to_bits<T>(T(T(old) ^ (T(1) << r.below(sizeof(T) * 8 - 1))));
                    }
                });
        for (int i = 0; v.bits == old && i < 20; ++i)
        {
            v.bits = gen_bits(r, t.k);
        }
        return v.bits != old;
    }
    if (is_str(t.k))
    {
        if (v.str.empty() || (r.chance(1, 3) && (!t.bound || v.str.size() < t.bound)))
        {
            v.str += 'z';
            return !t.bound || v.str.size() <= t.bound;
        }
        char32_t& c = v.str[r.below(v.str.size())];
        c = c == 'y' ? 'x' : 'y';
        return true;
    }
    auto child = [&](size_t i) -> const MT&
            {
                return t.k == K::STRUCT ? *t.mem[i].type : t.k == K::UNION ? *t.mem[v.caseno].type
                     : t.k == K::PAIR && i == 0 ? *t.key : *t.elem;
            };
    switch (t.k)
    {
        case K::ENUM:
            for (auto& e : t.en)
            {
                if (e.second != v.bits)
                {
                    v.bits = e.second;
                    return true;
                }
            }
            return false;
        case K::MAP:
            if (v.ent.empty())
            {
                return false;
            }
            if (r.chance(1, 4))
            {
                v.ent.erase(v.ent.begin() + std::ptrdiff_t(r.below(v.ent.size())));
                return true;
            }
            return tweak(r, *t.elem, v.ent[r.below(v.ent.size())].second);
        case K::SEQ:
            if (!v.kid.empty() && r.chance(1, 6))
            {
                v.kid.pop_back();
                return true;
            }
            break;
        default:
            break;
    }
    if (v.kid.empty())
    {
        return false;
    }
    size_t i = r.below(v.kid.size());
    return tweak(r, child(i), v.kid[i]);
}

// ---------------------------------------------------------------- real types
xt::TypeKind real_kind(const MT& t)
{
    using TK = xt::TypeKind;
    static const TK kinds[] = {
        TK::BOOLEAN_TYPE, TK::INT_8_TYPE, TK::UINT_8_TYPE, TK::INT_16_TYPE, TK::UINT_16_TYPE, TK::INT_32_TYPE,
        TK::UINT_32_TYPE, TK::INT_64_TYPE, TK::UINT_64_TYPE, TK::FLOAT_32_TYPE, TK::FLOAT_64_TYPE, TK::FLOAT_128_TYPE,
        TK::CHAR_8_TYPE, TK::CHAR_16_TYPE, TK::WIDE_CHAR_TYPE, TK::STRING_TYPE, TK::WSTRING_TYPE, TK::STRING16_TYPE,
        TK::ENUMERATION_TYPE, TK::ALIAS_TYPE, TK::ARRAY_TYPE, TK::SEQUENCE_TYPE, TK::MAP_TYPE, TK::PAIR_TYPE,
        TK::STRUCTURE_TYPE, TK::UNION_TYPE
    };
    return kinds[int(t.k)];
}

static xt::Member real_member(const MMember& m)
{
    RealT type = build(*m.type);
    xt::Member member(m.name, *type);
    if (m.id >= 0)
    {
        member.id(m.id);
    }
    if (m.key)
    {
        member.key();
    }
    if (m.optional)
    {
        member.optional();
    }
    return member;
}

template<class T>
static const xt::DynamicType* build_enum(const MT& t)
{
    auto p = std::make_unique<xt::EnumerationType<T>>(t.name);
    for (auto& e : t.en)
    {
        p->add_enumerator(e.first, T(e.second));
    }
    return p.release();
}

static RealT build_plain(const MT& t)
{
    if (is_prim(t.k))
    {
        const xt::DynamicType* p = nullptr;
        with_prim(t.k, [&](auto z) { p = &xt::primitive_type<decltype(z)>(); });
        return RealT(p, false);
    }
    switch (t.k)
    {
        case K::STR: return RealT(new xt::StringType(int(t.bound)), true);
        case K::WSTR: return RealT(new xt::WStringType(int(t.bound)), true);
        case K::STR16: return RealT(new xt::String16Type(int(t.bound)), true);
        case K::ENUM:
            return RealT(t.width == 1 ? build_enum<uint8_t>(t) : t.width == 2 ? build_enum<uint16_t>(t)
                   : build_enum<uint32_t>(t), true);
        case K::ALIAS:
        {
            RealT e = build(*t.elem);
            return RealT(new xt::AliasType(xt::DynamicType::Ptr(*e), t.name), true);
        }
        case K::ARRAY:
        {
            if (t.dims.size() == 2)
            {
                RealT e = build(*t.elem->elem);
                return RealT(new xt::ArrayType(*e, t.dims), true);
            }
            RealT e = build(*t.elem);
            return RealT(new xt::ArrayType(*e, t.bound), true);
        }
        case K::SEQ:
        {
            RealT e = build(*t.elem);
            return RealT(new xt::SequenceType(*e, t.bound), true);
        }
        case K::MAP:
        {
            RealT k = build(*t.key);
            RealT e = build(*t.elem);
            return RealT(new xt::MapType(*k, *e, t.bound), true);
        }
        case K::PAIR:
        {
            RealT k = build(*t.key);
            RealT e = build(*t.elem);
            return RealT(new xt::PairType(*k, *e), true);
        }
        case K::STRUCT:
        {
            RealT parent;
            if (t.parent)
            {
                parent = build(*t.parent);
            }
            auto s = std::make_unique<xt::StructType>(t.name,
                            static_cast<const xt::StructType*>(t.parent ? parent.get() : nullptr));
            for (size_t i = t.parent ? t.parent->mem.size() : 0; i < t.mem.size(); ++i)
            {
                s->add_member(real_member(t.mem[i]));
            }
            return RealT(s.release(), true);
        }
        case K::UNION:
        {
            RealT d = build(*t.disc);
            auto u = std::make_unique<xt::UnionType>(t.name, *d);
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                std::vector<int64_t> ls;
                for (auto& l : t.labels)
                {
                    if (l.second == int(i))
                    {
                        ls.push_back(l.first);
                    }
                }
                // every third case by the text of its labels; the same each time the type is built
                u64 form = rt::mix64(u64(t.labels.empty() ? 0 : t.labels[0].first) * 64 + t.mem.size() + i);
                bool text = form % 3 == 0 && res(*t.disc).k != K::C16 && res(*t.disc).k != K::WC;
                std::vector<std::string> texts;
                for (int64_t l : ls)
                {
                    form = rt::mix64(form);
                    texts.emplace_back();
                    text &= label_text(*t.disc, l, form, texts.back()) && !(l == 0 && res(*t.disc).k == K::ENUM);
                }
                if (text)
                {
                    if (t.def == int(i))
                    {
                        texts.push_back("default");
                    }
                    u->add_case_member(texts, real_member(t.mem[i]));
                }
                else
                {
                    u->add_case_member(ls, real_member(t.mem[i]), t.def == int(i));
                }
            }
            return RealT(u.release(), true);
        }
        default:
            fail("harness", "build");
    }
}

RealT build(const MT& t)
{
    RealT real = build_plain(t);
    if (!is_prim(t.k) && real->name() != t.name)
    {
        real.as<xt::DynamicType>().name(t.name);
    }
    return real;
}

static void expect(bool cond, const std::string& where, const std::string& what)
{
    if (!cond)
    {
        fail("type", where + ": " + what);
    }
}

template<class T>
static void check_enum(const xt::DynamicType& real, const MT& t, const std::string& where)
{
    auto& e = static_cast<const xt::EnumerationType<T>&>(real);
    expect(e.enumerators().size() == t.en.size(), where, "number of enumerators");
    for (auto& x : t.en)
    {
        expect(e.has_enumerator(x.first), where, "enumerator " + x.first + " is missing");
        expect(e.value(x.first) == T(x.second), where, "value of enumerator " + x.first);
        expect(e.is_allowed_value(T(x.second)), where, "value of enumerator " + x.first + " is not allowed");
        expect(e.enumerator(T(x.second)) == x.first, where, "name of enumerator " + x.first);
    }
}

void check_type(const xt::DynamicType& real, const MT& t, const std::string& where)
{
    expect(real.kind() == real_kind(t), where, "kind");
    expect(real.name() == t.name, where, "name '" + real.name() + "' expected '" + t.name + "'");
    switch (t.k)
    {
        case K::STR:
        case K::WSTR:
        case K::STR16:
            expect(static_cast<const xt::MutableCollectionType&>(real).bounds() == t.bound, where, "bounds");
            break;
        case K::ENUM:
            t.width == 1 ? check_enum<uint8_t>(real, t, where) : t.width == 2 ? check_enum<uint16_t>(real, t, where)
            : check_enum<uint32_t>(real, t, where);
            break;
        case K::ALIAS:
            check_type(static_cast<const xt::AliasType&>(real).get(), *t.elem, where + "*");
            break;
        case K::ARRAY:
            expect(static_cast<const xt::ArrayType&>(real).dimension() == t.bound, where, "dimension");
            check_type(static_cast<const xt::ArrayType&>(real).content_type(), *t.elem, where + "[]");
            break;
        case K::SEQ:
            expect(static_cast<const xt::SequenceType&>(real).bounds() == t.bound, where, "bounds");
            check_type(static_cast<const xt::SequenceType&>(real).content_type(), *t.elem, where + "[]");
            break;
        case K::MAP:
        {
            auto& m = static_cast<const xt::MapType&>(real);
            expect(m.bounds() == t.bound, where, "bounds");
            expect(m.content_type().kind() == xt::TypeKind::PAIR_TYPE, where, "content");
            auto& p = static_cast<const xt::PairType&>(m.content_type());
            check_type(p.first(), *t.key, where + ".first");
            check_type(p.second(), *t.elem, where + ".second");
            break;
        }
        case K::PAIR:
        {
            auto& p = static_cast<const xt::PairType&>(real);
            check_type(p.first(), *t.key, where + ".first");
            check_type(p.second(), *t.elem, where + ".second");
            break;
        }
        case K::STRUCT:
        case K::UNION:
        {
            auto& a = static_cast<const xt::AggregationType&>(real);
            size_t skip = t.k == K::UNION ? 1 : 0;
            expect(a.members().size() == t.mem.size() + skip, where, "number of members");
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                const MMember& m = t.mem[i];
                const xt::Member& rm = a.member(i + skip);
                expect(rm.name() == m.name, where, "name of member " + std::to_string(i));
                expect(a.has_member(m.name) && &a.member(m.name) == &rm, where, "member " + m.name + " by name");
                expect(rm.get_id() == m.id && rm.has_id() == (m.id >= 0) && rm.is_key() == m.key
                        && rm.is_optional() == m.optional, where, "attributes of member " + m.name);
                check_type(rm.type(), *m.type, where + "." + m.name);
            }
            expect(!a.has_member("absent"), where, "has a member nobody added");
            expect(a.has_parent() == bool(t.parent), where, "parent");
            if (t.parent)
            {
                check_type(a.parent(), *t.parent, where + "^");
            }
            if (t.k == K::UNION)
            {
                auto& u = static_cast<const xt::UnionType&>(real);
                check_type(u.discriminator(), *t.disc, where + ".d");
                auto cases = u.get_case_members();
                expect(cases.size() == t.mem.size(), where, "number of cases");
                for (size_t i = 0; i < t.mem.size(); ++i)
                {
                    expect(cases[i] == t.mem[i].name, where, "case " + std::to_string(i));
                    std::vector<int64_t> want;
                    for (auto& l : t.labels)
                    {
                        if (l.second == int(i))
                        {
                            want.push_back(l.first);
                        }
                    }
                    auto got = u.get_labels(t.mem[i].name);
                    std::sort(got.begin(), got.end());
                    std::sort(want.begin(), want.end());
                    expect(got == want, where, "labels of case " + t.mem[i].name);
                    expect(u.is_default(t.mem[i].name) == (t.def == int(i)), where,
                            "is_default of " + t.mem[i].name);
                }
                expect(u.get_default() == (t.def >= 0 ? t.mem[t.def].name : std::string()), where, "default case");
            }
            break;
        }
        default:
            break;
    }
}

// ---------------------------------------------------------------- real values
int64_t read_label(const xt::ReadableDynamicDataRef& r, const MT& disc)
{
    const MT& d = res(disc);
    u64 bits = 0;
    auto ref = r.d();
    if (d.k == K::ENUM)
    {
        bits = d.width == 1 ? ref.value<uint8_t>() : d.width == 2 ? ref.value<uint16_t>() : ref.value<uint32_t>();
    }
    else if (d.k == K::BOOL)
    {
        uint8_t byte;
        memcpy(&byte, &ref.value<bool>(), 1);
        bits = byte;
    }
    else
    {
        with_prim(d.k, [&](auto z)
                {
                    using T = decltype(z);
                    if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value)
                    {
                        bits = to_bits<T>(ref.value<T>());
                    }
                });
    }
    return shrink(int64_t(bits), disc);
}

// the first, the middle and the last character of a text, read as elements
template<typename S>
static bool same_characters(const xt::ReadableDynamicDataRef& r, const S& s)
{
    using C = typename S::value_type;
    for (size_t i : {size_t(0), s.size() / 2, s.size() - 1})
    {
        if (i < s.size() && r[i].value<C>() != s[i])
        {
            return false;
        }
    }
    return true;
}

static bool cmp(const xt::ReadableDynamicDataRef& r, const Val& v, const MT& rt_, std::string* err,
        const std::string& where)
{
    const MT& t = res(rt_);
    auto bad = [&](const std::string& what)
            {
                if (err)
                {
                    *err = where + ": " + what + " (expected " + show(t, v) + ")";
                }
                return false;
            };
    if (r.type().kind() != real_kind(t))
    {
        return bad("kind of value");
    }
    if (r.type().name() != t.name)
    {
        return bad("type name '" + r.type().name() + "' instead of '" + t.name + "'");
    }
    if (is_prim(t.k))
    {
        bool ok = true;
        std::string got;
        with_prim(t.k, [&](auto z)
                {
                    using T = decltype(z);
                    if constexpr (std::is_same<T, bool>::value)
                    {
                        uint8_t byte;
                        memcpy(&byte, &r.value<bool>(), 1);
                        ok = byte == v.bits;
                        got = std::to_string(byte);
                    }
                    else
                    {
                        T x = r.value<T>();
                        ok = to_bits<T>(x) == v.bits;
                        got = std::is_floating_point<T>::value ? std::to_string(double(x)) : std::to_string(int64_t(x));
                    }
                });
        return ok ? true : bad("holds " + got);
    }
    switch (t.k)
    {
        case K::STR:
        {
            const std::string& s = r.value<std::string>();
            return s == to_str(v.str) && r.size() == s.size() && same_characters(r, s) ? true : bad("holds '" + s + "'");
        }
        case K::WSTR:
        {
            const std::wstring& s = r.value<std::wstring>();
            if (s == to_wstr(v.str) && r.size() == v.str.size() && same_characters(r, s))
            {
                return true;
            }
            Val got;
            got.str.assign(s.begin(), s.end());
            return bad("holds " + show(t, got));
        }
        case K::STR16:
            return r.value<std::u16string>() == to_str16(v.str) && r.size() == v.str.size()
                   && same_characters(r, to_str16(v.str)) ? true : bad("u16 text");
        case K::ENUM:
        {
            u64 x = t.width == 1 ? r.value<uint8_t>() : t.width == 2 ? r.value<uint16_t>() : r.value<uint32_t>();
            return x == v.bits ? true : bad("holds " + std::to_string(x));
        }
        case K::ARRAY:
        case K::SEQ:
            if (r.size() != v.kid.size())
            {
                return bad("size is " + std::to_string(r.size()));
            }
            for (size_t i = 0; i < v.kid.size(); ++i)
            {
                if (!cmp(r[i], v.kid[i], *t.elem, err, where + "[" + std::to_string(i) + "]"))
                {
                    return false;
                }
            }
            return true;
        case K::PAIR:
            return cmp(r[0], v.kid[0], *t.key, err, where + ".first")
                   && cmp(r[1], v.kid[1], *t.elem, err, where + ".second");
        case K::MAP:
        {
            if (r.size() != v.ent.size())
            {
                return bad("size is " + std::to_string(r.size()));
            }
            std::vector<char> seen(v.ent.size(), 0);
            size_t count = 0;
            for (auto it = r.begin(); it != r.end(); ++it)
            {
                xt::ReadableDynamicDataRef pair = *it;
                size_t i = 0;
                while (i < v.ent.size() && (seen[i] || !cmp(pair[0], v.ent[i].first, *t.key, nullptr, where)))
                {
                    ++i;
                }
                if (i == v.ent.size())
                {
                    return bad("entry " + std::to_string(count) + " has a key nobody inserted");
                }
                seen[i] = 1;
                ++count;
                std::string key = where + "[" + show(*t.key, v.ent[i].first) + "]";
                if (!cmp(pair[1], v.ent[i].second, *t.elem, err, key))
                {
                    return false;
                }
                if (r.at(pair[0]).instance_id() != pair[1].instance_id())
                {
                    return bad("at() of a present key finds another value");
                }
            }
            return count == v.ent.size() ? true : bad("iteration ends early");
        }
        case K::STRUCT:
            if (r.size() != t.mem.size())
            {
                return bad("size is " + std::to_string(r.size()));
            }
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                if (!cmp(i % 2 == where.size() % 2 ? r[t.mem[i].name] : r[i], v.kid[i], *t.mem[i].type, err,
                        where + "." + t.mem[i].name))
                {
                    return false;
                }
            }
            return true;
        case K::UNION:
        {
            int64_t l = read_label(r, *t.disc);
            if (!v.live)
            {
                int c = case_of(t, l);
                if (c >= 0 || l == default_label(*t.disc))
                {
                    return bad("discriminator " + std::to_string(l) + " designates a member but none is selected");
                }
                return true;
            }
            if (v.label != LABEL_ANY)
            {
                if (l != v.label)
                {
                    return bad("discriminator is " + std::to_string(l));
                }
            }
            else
            {
                int c = case_of(t, l);
                if (c != v.caseno && !(c < 0 && v.caseno == t.def))
                {
                    return bad("discriminator " + std::to_string(l) + " is not of the selected member");
                }
            }
            if (r.current_case().name() != t.mem[v.caseno].name)
            {
                return bad("current case is " + r.current_case().name());
            }
            const std::string& name = t.mem[v.caseno].name;
            return cmp(r[name], v.kid[0], *t.mem[v.caseno].type, err, where + "." + name);
        }
        default:
            return bad("harness");
    }
}

bool equals_val(const xt::ReadableDynamicDataRef& r, const Val& v, const MT& t)
{
    return cmp(r, v, t, nullptr, "");
}

void check_val(const xt::ReadableDynamicDataRef& r, const Val& v, const MT& t, const std::string& where)
{
    std::string err;
    bool ok = false;
    try
    {
        ok = cmp(r, v, t, &err, where);
    }
    catch (const rt::Fail&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        fail("value", where + ": reading threw: " + std::string(e.what()).substr(0, 300) + " (expected " + show(t, v)
                + ")");
    }
    if (!ok)
    {
        fail("value", err);
    }
}

void adopt(const xt::ReadableDynamicDataRef& r, Val& v, const MT& rt_)
{
    const MT& t = res(rt_);
    switch (t.k)
    {
        case K::ARRAY:
        case K::SEQ:
            for (size_t i = 0; i < v.kid.size() && has_kind(*t.elem, K::UNION); ++i)
            {
                adopt(r[i], v.kid[i], *t.elem);
            }
            break;
        case K::PAIR:
            adopt(r[1], v.kid[1], *t.elem);
            break;
        case K::MAP:
            if (has_kind(*t.elem, K::UNION))
            {
                for (auto it = r.begin(); it != r.end(); ++it)
                {
                    xt::ReadableDynamicDataRef pair = *it;
                    for (auto& e : v.ent)
                    {
                        if (cmp(pair[0], e.first, *t.key, nullptr, ""))
                        {
                            adopt(pair[1], e.second, *t.elem);
                        }
                    }
                }
            }
            break;
        case K::STRUCT:
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                if (has_kind(*t.mem[i].type, K::UNION))
                {
                    adopt(r[t.mem[i].name], v.kid[i], *t.mem[i].type);
                }
            }
            break;
        case K::UNION:
            if (v.live)
            {
                v.label = read_label(r, *t.disc);
                adopt(r[t.mem[v.caseno].name], v.kid[0], *t.mem[v.caseno].type);
            }
            break;
        default:
            break;
    }
}

void fill(xt::WritableDynamicDataRef w, const Val& v, const MT& rt_, Rng& r)
{
    const MT& t = res(rt_);
    if (is_prim(t.k))
    {
        with_prim(t.k, [&](auto z) { using T = decltype(z); w.value<T>(from_bits<T>(v.bits)); });
        return;
    }
    switch (t.k)
    {
        case K::STR: w.value<std::string>(to_str(v.str)); break;
        case K::WSTR: w.value<std::wstring>(to_wstr(v.str)); break;
        case K::STR16: w.value<std::u16string>(to_str16(v.str)); break;
        case K::ENUM:
        {
            bool defined = false;
            for (auto& e : t.en)
            {
                defined |= e.second == v.bits;
            }
            if (defined)
            {
                t.width == 1 ? w.value<uint8_t>(uint8_t(v.bits)) : t.width == 2 ? w.value<uint16_t>(uint16_t(v.bits))
                : w.value<uint32_t>(uint32_t(v.bits));
            }
            break;
        }
        case K::ARRAY:
            for (size_t i = 0; i < v.kid.size(); ++i)
            {
                fill(w[i], v.kid[i], *t.elem, r);
            }
            break;
        case K::SEQ:
            w.resize(v.kid.size());
            for (size_t i = 0; i < v.kid.size(); ++i)
            {
                fill(w[i], v.kid[i], *t.elem, r);
            }
            break;
        case K::PAIR:
            fill(w[0], v.kid[0], *t.key, r);
            fill(w[1], v.kid[1], *t.elem, r);
            break;
        case K::MAP:
        {
            std::vector<size_t> order(v.ent.size());
            for (size_t i = 0; i < order.size(); ++i)
            {
                order[i] = i;
                std::swap(order[i], order[r.below(i + 1)]);
            }
            for (size_t i : order)
            {
                auto k = make(*t.key, v.ent[i].first, r);
                fill(w[*k], v.ent[i].second, *t.elem, r);
            }
            break;
        }
        case K::STRUCT:
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                fill(r.chance(1, 2) ? w[t.mem[i].name] : w[i], v.kid[i], *t.mem[i].type, r);
            }
            break;
        case K::UNION:
            if (v.live)
            {
                auto part = w[t.mem[v.caseno].name];
                if (v.label != LABEL_ANY)
                {
                    w.d(v.label);
                }
                fill(part, v.kid[0], *t.mem[v.caseno].type, r);
            }
            break;
        default:
            break;
    }
}

std::unique_ptr<xt::DynamicData> make(const MT& t, const Val& v, Rng& r)
{
    RealT type = build(t);
    auto d = std::make_unique<xt::DynamicData>(*type);
    fill(d->ref(), v, t, r);
    return d;
}

// ---------------------------------------------------------------- paths
static void walk_in(const MTP& tp, Val& v, Path& p, const std::function<void(const Path&, const MTP&, Val&)>& f)
{
    const MTP& t = res(tp);
    f(p, t, v);
    auto sub = [&](int i, const MTP& kt, Val& kv)
            {
                p.push_back(i);
                walk_in(kt, kv, p, f);
                p.pop_back();
            };
    switch (t->k)
    {
        case K::ARRAY:
        case K::SEQ:
            for (size_t i = 0; i < v.kid.size(); ++i)
            {
                sub(int(i), t->elem, v.kid[i]);
            }
            break;
        case K::PAIR:
            sub(0, t->key, v.kid[0]);
            sub(1, t->elem, v.kid[1]);
            break;
        case K::MAP:
            for (size_t i = 0; i < v.ent.size(); ++i)
            {
                sub(int(i), t->elem, v.ent[i].second);
            }
            break;
        case K::STRUCT:
            for (size_t i = 0; i < t->mem.size(); ++i)
            {
                sub(int(i), t->mem[i].type, v.kid[i]);
            }
            break;
        case K::UNION:
            if (v.live)
            {
                sub(0, t->mem[v.caseno].type, v.kid[0]);
            }
            break;
        default:
            break;
    }
}

void walk(const MTP& t, Val& v, const std::function<void(const Path&, const MTP&, Val&)>& f)
{
    Path p;
    walk_in(t, v, p, f);
}

xt::WritableDynamicDataRef descend(xt::WritableDynamicDataRef w, const MT& rt_, const Val& v, const Path& p)
{
    const MT* t = &res(rt_);
    const Val* cur = &v;
    std::vector<xt::WritableDynamicDataRef> at{w};
    for (int i : p)
    {
        xt::WritableDynamicDataRef& r = at.back();
        switch (t->k)
        {
            case K::ARRAY:
            case K::SEQ:
                at.push_back(r[i]);
                t = &res(*t->elem);
                cur = &cur->kid[i];
                break;
            case K::PAIR:
                at.push_back(r[i]);
                t = &res(i ? *t->elem : *t->key);
                cur = &cur->kid[i];
                break;
            case K::MAP:
            {
                bool found = false;
                for (auto it = r.begin(); it != r.end(); ++it)
                {
                    xt::WritableDynamicDataRef pair = *it;
                    if (cmp(pair[0], cur->ent[i].first, *t->key, nullptr, ""))
                    {
                        at.push_back(pair[1]);
                        found = true;
                        break;
                    }
                }
                if (!found)
                {
                    fail("value", "a key of a map is gone: " + show(*t->key, cur->ent[i].first));
                }
                cur = &cur->ent[i].second;
                t = &res(*t->elem);
                break;
            }
            case K::STRUCT:
                at.push_back(at.size() % 2 ? r[t->mem[i].name] : r[size_t(i)]);
                cur = &cur->kid[i];
                t = &res(*t->mem[i].type);
                break;
            case K::UNION:
                at.push_back(r[t->mem[cur->caseno].name]);
                t = &res(*t->mem[cur->caseno].type);
                cur = &cur->kid[0];
                break;
            default:
                fail("harness", "descend");
        }
    }
    return at.back();
}

xt::ReadableDynamicDataRef descend_reading(const xt::ReadableDynamicDataRef& root, const MT& rt_, const Val& v, const Path& p)
{
    const MT* t = &res(rt_);
    const Val* cur = &v;
    std::vector<xt::ReadableDynamicDataRef> at{root};
    for (int i : p)
    {
        const xt::ReadableDynamicDataRef r = at.back();
        switch (t->k)
        {
            case K::ARRAY:
            case K::SEQ:
                at.push_back(r[i]);
                t = &res(*t->elem);
                cur = &cur->kid[i];
                break;
            case K::PAIR:
                at.push_back(r[i]);
                t = &res(i ? *t->elem : *t->key);
                cur = &cur->kid[i];
                break;
            case K::MAP:
            {
                bool found = false;
                for (auto it = r.begin(); it != r.end(); ++it)
                {
                    xt::ReadableDynamicDataRef pair = *it;
                    if (cmp(pair[0], cur->ent[i].first, *t->key, nullptr, ""))
                    {
                        at.push_back(pair[1]);
                        found = true;
                        break;
                    }
                }
                if (!found)
                {
                    fail("value", "a key of a map is gone: " + show(*t->key, cur->ent[i].first));
                }
                cur = &cur->ent[i].second;
                t = &res(*t->elem);
                break;
            }
            case K::STRUCT:
                at.push_back(at.size() % 2 ? r[t->mem[i].name] : r[size_t(i)]);
                cur = &cur->kid[i];
                t = &res(*t->mem[i].type);
                break;
            case K::UNION:
                at.push_back(r[t->mem[cur->caseno].name]);
                t = &res(*t->mem[cur->caseno].type);
                cur = &cur->kid[0];
                break;
            default:
                fail("harness", "descend");
        }
    }
    return at.back();
}

MTP clone(const MTP& t)
{
    if (!t)
    {
        return t;
    }
    auto c = std::make_shared<MT>(*t);
    c->elem = clone(t->elem);
    c->key = clone(t->key);
    c->parent = clone(t->parent);
    c->disc = clone(t->disc);
    for (auto& m : c->mem)
    {
        m.type = clone(m.type);
    }
    return c;
}

// ---------------------------------------------------------------- conversion
MTP mutate(Rng& r, const MTP& tp, int depth)
{
    const MT& t = *tp;
    if (depth > 0 && r.chance(1, 3))
    {
        return tp;
    }
    auto c = std::make_shared<MT>(t);
    c->dims.clear();
    auto bound_text = [&]() { return c->bound ? std::to_string(c->bound) + "_" : std::string(); };
    switch (t.k)
    {
        case K::BOOL:
        case K::I8:
        case K::U8:
        case K::I16:
        case K::U16:
        case K::I32:
        case K::U32:
        case K::I64:
        case K::U64:
        case K::C8:
        case K::C16:
        case K::WC:
        {
            static const K to[] = {K::BOOL, K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::C8, K::C16,
                                   K::WC, K::F32, K::F64};
            return mprim(to[r.below(14)]);
        }
        case K::F32:
        case K::F64:
        case K::F128:
        {
            static const K to[] = {K::F32, K::F64, K::F64};
            return mprim(to[r.below(3)]);
        }
        case K::STR:
        case K::WSTR:
        case K::STR16:
            c->bound = r.chance(1, 2) ? 0 : 1 + uint32_t(r.below(20));
            c->name = t.k == K::STR ? "std::string" : t.k == K::WSTR ? "std::wstring" : "std::u16string";
            if (c->bound)
            {
                c->name += "_" + std::to_string(c->bound);
            }
            return c;
        case K::ENUM:
        {
            static const K to[] = {K::U8, K::U16, K::U32, K::I64, K::I32};
            return mprim(to[r.below(5)]);
        }
        case K::ALIAS:
            return mutate(r, t.elem, depth);
        case K::ARRAY:
            c->elem = mutate(r, t.elem, depth + 1);
            c->bound = 1 + uint32_t(r.below(4));
            if (weight(*c->elem) > 10)
            {
                c->bound = std::min(c->bound, t.bound);
            }
            c->name = "array_" + std::to_string(c->bound) + "_" + c->elem->name;
            return c;
        case K::SEQ:
            c->elem = mutate(r, t.elem, depth + 1);
            c->bound = r.chance(1, 2) ? 0 : 1 + uint32_t(r.below(6));
            c->name = "sequence_" + bound_text() + c->elem->name;
            return c;
        case K::MAP:
            c->bound = t.bound && r.chance(1, 2) ? t.bound + uint32_t(r.below(4)) : 0;
            // keys and elements convert where they keep their names; keys can become equal, and a bound be too small
            for (MTP* part : {&c->key, &c->elem})
            {
                MTP m = r.chance(2, 3) ? mutate(r, *part, part == &c->key && depth == 0 ? 0 : depth + 1) : *part;
                *part = m->name == (*part)->name ? m : *part;
            }
            if (depth == 0 && r.chance(1, 3))
            {
                c->bound = 1 + uint32_t(r.below(4));
            }
            c->name = "map_" + bound_text() + "pair_" + c->key->name + "_" + c->elem->name;
            return c;
        case K::PAIR:
            return tp;
        case K::STRUCT:
        {
            if (t.mem.size() < 2)
            {
                return tp;
            }
            c->parent = nullptr;
            c->name = "M" + t.name;
            for (size_t i = 0; i < c->mem.size(); ++i)
            {
                c->mem[i].type = mutate(r, c->mem[i].type, depth + 1);
                if (r.chance(1, 5))
                {
                    c->mem[i].name = "r" + std::to_string(i);
                }
            }
            if (c->mem.size() > 2 && r.chance(1, 3))
            {
                c->mem.pop_back();
            }
            else if (r.chance(1, 3))
            {
                auto s = std::make_shared<MT>();
                s->k = K::STR;
                s->name = "std::string";
                c->mem.push_back(MMember{"extra" + std::to_string(c->mem.size()) + "_" + std::to_string(depth) + "_" + std::to_string(r.below(1000)), s});
            }
            return c;
        }
        case K::UNION:
            c->name = "M" + t.name;
            for (auto& m : c->mem)
            {
                m.type = mutate(r, m.type, depth + 1);
            }
            return c;
    }
    return tp;
}

MTP mtext(K k)
{
    auto t = std::make_shared<MT>();
    t->k = k;
    t->name = k == K::STR ? "std::string" : k == K::WSTR ? "std::wstring" : "std::u16string";
    return t;
}

MTP clash(Rng& r, const MTP& tp)
{
    const MT& t = *tp;
    auto c = std::make_shared<MT>(t);
    c->dims.clear();
    auto bound_text = [&]() { return c->bound ? std::to_string(c->bound) + "_" : std::string(); };
    auto name = [&]()
            {
                c->name = c->k == K::ARRAY ? "array_" + std::to_string(c->bound) + "_" + c->elem->name
                    : c->k == K::SEQ ? "sequence_" + bound_text() + c->elem->name
                    : "map_" + bound_text() + "pair_" + c->key->name + "_" + c->elem->name;
            };
    switch (t.k)
    {
        case K::ALIAS:
            return clash(r, t.elem);
        case K::ARRAY:
        case K::SEQ:
            if (MTP e = r.chance(2, 3) ? clash(r, t.elem) : nullptr)
            {
                c->elem = e;
            }
            else
            {
                c->k = t.k == K::ARRAY ? K::SEQ : K::ARRAY;
                c->bound = std::min(t.bound, 4u) + (t.bound ? 0 : 2);
            }
            name();
            return c;
        case K::MAP:
        {
            bool key = r.chance(1, 2);
            MTP part = clash(r, key ? t.key : t.elem);
            if (!part)
            {
                key = !key;
                part = clash(r, key ? t.key : t.elem);
            }
            if (!part)
            {
                return nullptr;
            }
            (key ? c->key : c->elem) = part;
            name();
            return c;
        }
        case K::PAIR:
            return nullptr;
        case K::STRUCT:
        case K::UNION:
        {
            if (t.mem.size() < (t.k == K::STRUCT ? 2 : 1))
            {
                return nullptr;
            }
            size_t i = size_t(r.below(t.mem.size()));
            MTP part = clash(r, t.mem[i].type);
            if (!part)
            {
                return nullptr;
            }
            c->parent = nullptr;
            c->name = "C" + t.name;
            c->mem[i].type = part;
            return c;
        }
        default:
            break;
    }
    if (is_str(t.k))
    {
        return r.chance(1, 2) ? mprim(K::I32) : mtext(t.k == K::STR ? K::WSTR : K::STR);
    }
    return mtext(r.chance(1, 2) ? K::STR : K::STR16);
}

Val convert(const MT& rfrom, const Val& v, const MT& rto)
{
    const MT& from = res(rfrom);
    const MT& to = res(rto);
    Val o;
    if (is_prim(to.k))
    {
        if (from.k == K::ENUM)
        {
            with_prim(to.k, [&](auto z) { using T = decltype(z); o.bits = to_bits<T>(T(v.bits)); });
            return o;
        }
        with_prim(from.k, [&](auto f)
                {
                    using F = decltype(f);
                    F x = from_bits<F>(v.bits);
                    with_prim(to.k, [&](auto z)
                    {
                        using T = decltype(z);
                        if constexpr (!(std::is_floating_point<F>::value && !std::is_floating_point<T>::value))
                        {
                            o.bits = to_bits<T>(static_cast<T>(x));
                        }
                    });
                });
        return o;
    }
    if (is_str(to.k))
    {
        o.str = to.bound && v.str.size() > to.bound ? v.str.substr(0, to.bound) : v.str;
        return o;
    }
    switch (to.k)
    {
        case K::ENUM:
            return v;
        case K::ARRAY:
            for (size_t i = 0; i < to.bound; ++i)
            {
                o.kid.push_back(i < v.kid.size() ? convert(*from.elem, v.kid[i], *to.elem) : default_val(*to.elem));
            }
            return o;
        case K::SEQ:
            for (size_t i = 0; i < v.kid.size() && (!to.bound || i < to.bound); ++i)
            {
                o.kid.push_back(convert(*from.elem, v.kid[i], *to.elem));
            }
            return o;
        case K::MAP:
            for (auto& e : v.ent)
            {
                o.ent.push_back({convert(*from.key, e.first, *to.key), convert(*from.elem, e.second, *to.elem)});
            }
            return o;
        case K::PAIR:
            return v;
        case K::STRUCT:
            for (size_t i = 0; i < to.mem.size(); ++i)
            {
                o.kid.push_back(i < v.kid.size() ? convert(*from.mem[i].type, v.kid[i], *to.mem[i].type)
                        : default_val(*to.mem[i].type));
            }
            return o;
        case K::UNION:
            o = v;
            if (v.live)
            {
                o.kid = {convert(*from.mem[v.caseno].type, v.kid[0], *to.mem[v.caseno].type)};
            }
            return o;
        default:
            return o;
    }
}

bool Val::operator == (const Val& o) const
{
    return bits == o.bits && str == o.str && kid == o.kid && ent == o.ent && live == o.live && label == o.label
           && caseno == o.caseno;
}

} // namespace sim
