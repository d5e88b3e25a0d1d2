#include <cstring>
#include "idl_doc.hpp"

#include <cmath>
#include <cstdio>
#include <functional>

namespace sim {
namespace doc {

using rt::Rng;

namespace {

const char* const type_stems[] = {"Point", "T", "string", "long", "My_Type", "any", "x", "map", "boolean", "TRUE_", "sequence",
                                  "S", "octet", "short", "L", "float", "unsigned", "struct_", "Enumeration_of_things_", "union"};
const char* const const_stems[] = {"N", "LIMIT_", "const", "case", "TRUE", "FALSE_", "k", "L", "default", "int_", "Mask"};
const char* const enum_stems[] = {"RED_", "e", "A", "TRUE", "switch", "v_"};
const char* const member_stems[] = {"f", "member_", "longer", "data", "typedef_", "i", "the_", "strings", "lastly"};
const char* const module_names[] = {"M", "N", "Inner", "module_1", "M2"};

template<size_t N>
const char* pick(Rng& r, const char* const (&list)[N])
{
    return list[r.below(N)];
}

MTP named_as(const MTP& t, const std::string& name)
{
    auto c = std::make_shared<MT>(*t);
    c->name = name;
    return c;
}

using Toks = std::vector<std::string>;

void put(Toks& to, const Toks& from) { to.insert(to.end(), from.begin(), from.end()); }

__int128 low(K k)
{
    switch (k)
    {
        case K::I8: return -128;
        case K::I16: return -32768;
        case K::I32: return INT32_MIN;
        case K::I64: return INT64_MIN;
        default: return 0;
    }
}

__int128 high(K k)
{
    switch (k)
    {
        case K::I8: return 127;
        case K::U8: return 255;
        case K::I16: return 32767;
        case K::U16: return 65535;
        case K::I32: return INT32_MAX;
        case K::U32: return UINT32_MAX;
        case K::I64: return INT64_MAX;
        default: return UINT64_MAX;
    }
}

bool integral(K k)
{
    return k == K::I8 || k == K::U8 || k == K::I16 || k == K::U16 || k == K::I32 || k == K::U32 || k == K::I64 || k == K::U64;
}

struct Maker
{
    Rng& r;
    Tree& tree;
    const Style& style;
    std::vector<Tok> out;
    int depth = 0;

    // ------------------------------------------------------------------------------------------------- tokens
    void emit(const std::string& t)
    {
        Tok k;
        k.text = t;
        k.depth = depth;
        k.number = !t.empty() && t.find_first_not_of("0123456789") == std::string::npos && t[0] != '0';
        if (t == "{")
        {
            ++depth;
        }
        else if (t == "}")
        {
            --depth;
            k.depth = depth + 1;
        }
        out.push_back(k);
    }
    void emit(const Toks& ts)
    {
        for (auto& t : ts)
        {
            emit(t);
        }
    }

    std::string fresh(const char* stem)
    {
        std::string n = stem + std::to_string(tree.next++);
        tree.used.push_back(n);
        return n;
    }

    // A name for something that may be called like symbols of other modules; those that are known in `m` by it then are not.
    std::string fresh(const char* stem, DMod& m)
    {
        static const char* const capital[] = {"Struct", "OCTET"};
        if (r.chance(1, m.outer ? 3 : 8) && !tree.known.empty())
        {
            const Known& k = tree.known[r.below(tree.known.size())];
            bool alias = !k.constant && k.def->k == K::ALIAS;       // an alias is not called like what is visible: the order counts
            if (!k.enumerator && !m.has(k.name) && !(style.any_case && std::count(capital, capital + 2, k.name))
                && (!alias || r.chance(1, 4)))
            {
                tree.escaped |= alias;
                return k.name;
            }
        }
        if (!style.any_case && r.chance(1, 12))
        {
            std::string n = pick(r, capital);
            if (!m.has(n))
            {
                return n;
            }
        }
        return fresh(stem);
    }

    // how an identifier is written where it is declared: an underscore in front takes no part in it
    std::string written(const std::string& name)
    {
        return name[0] == '_' || r.chance(1, 12) ? "_" + name : name;
    }

    // ------------------------------------------------------------------------------------------------- references
    // one of these, rather one that has namesakes elsewhere
    const Known& choose(const DMod& from, const std::vector<const Known*>& fit)
    {
        std::vector<const Known*> shared;
        if (r.chance(1, 2))
        {
            for (const Known* k : fit)
            {
                size_t n = 0;
                for (auto& o : tree.known)
                {
                    n += o.name == k->name;
                }
                if (n > 1 && means(from, k->name, k->mod, k->name))
                {
                    shared.push_back(k);
                }
            }
        }
        return shared.empty() ? *fit[r.below(fit.size())] : *shared[r.below(shared.size())];
    }

    // some way to write the name of a symbol; `absolute` when it begins at the root
    std::string mention(const DMod& from, const DMod* mod, const std::string& name, bool& absolute)
    {
        absolute = false;
        std::vector<std::string> ways;
        std::vector<const DMod*> chain;
        for (const DMod* m = mod; m->outer; m = m->outer)
        {
            chain.push_back(m);
        }
        std::string text = name;
        if (means(from, text, mod, name))
        {
            ways.push_back(text);
        }
        for (const DMod* m : chain)
        {
            text = m->name + "::" + text;
            if (means(from, text, mod, name))
            {
                ways.push_back(text);
            }
        }
        if (ways.empty() || (style.rooted && r.chance(1, 5)))
        {
            absolute = true;
            return "::" + mod->scoped(name);
        }
        return r.chance(1, 3) ? ways[0] : ways[r.below(ways.size())];
    }

    // ------------------------------------------------------------------------------------------------- numbers
    std::string int_literal(u64 v)
    {
        char buf[40];
        switch (r.below(8))
        {
            case 0:
                snprintf(buf, sizeof(buf), r.chance(1, 2) ? "0x%llx" : "0X%llX", (unsigned long long)v);
                break;
            case 1:
                snprintf(buf, sizeof(buf), "0%llo", (unsigned long long)v);
                break;
            case 2:
                snprintf(buf, sizeof(buf), "0x0%llX", (unsigned long long)v);
                break;
            default:
                snprintf(buf, sizeof(buf), "%llu", (unsigned long long)v);
                break;
        }
        return buf;
    }

    struct Num
    {
        Toks toks;
        __int128 v = 0;
        int prec = 9;                // of its outermost operator
    };

    static Num wrap(Num n)
    {
        n.toks.insert(n.toks.begin(), "(");
        n.toks.push_back(")");
        n.prec = 9;
        return n;
    }

    // the constants of integer types whose values fit
    bool constant_of(const DMod& from, K k, __int128 lo, __int128 hi, Num& n)
    {
        std::vector<const Known*> fit;
        for (auto& c : tree.known)
        {
            if (c.constant && c.def->k == K::ENUM)
            {
                continue;
            }
            if (c.constant && integral(c.def->k) && (c.def->k == k || (c.def->k != K::U64 && k != K::U64)))
            {
                __int128 v = value_of(c);
                if (v >= lo && v <= hi)
                {
                    fit.push_back(&c);
                }
            }
        }
        if (fit.empty())
        {
            return false;
        }
        const Known& c = choose(from, fit);
        bool absolute;
        n = Num{};
        n.toks = {mention(from, c.mod, c.name, absolute)};
        n.v = value_of(c);
        return true;
    }

    static __int128 value_of(const Known& c)
    {
        __int128 v = 0;
        with_prim(c.def->k, [&](auto x)
                {
                    using T = decltype(x);
                    if constexpr (std::is_integral<T>::value)
                    {
                        v = __int128(from_bits<T>(c.value.bits));
                    }
                });
        return v;
    }

    static u64 bits_of(K k, __int128 n)
    {
        u64 b = 0;
        with_prim(k, [&](auto x)
                {
                    using T = decltype(x);
                    if constexpr (std::is_integral<T>::value)
                    {
                        b = to_bits<T>(T(n));
                    }
                });
        return b;
    }

    Num number(const DMod& from, K k, int level)
    {
        const __int128 lo = low(k), hi = high(k);
        Num n;
        if (level <= 0 || r.chance(1, 3))
        {
            if (r.chance(1, 3) && constant_of(from, k, lo, hi, n))
            {
                return n;
            }
            if (lo < 0 && r.chance(1, 20))
            {
                n.v = lo;
                n.toks = {"-", int_literal(u64(0) - u64(lo))};
                n.prec = 8;
                return n;
            }
            u64 v = r.chance(1, 2) ? r.below(10) : r.chance(1, 3) ? u64(hi) - r.below(3) : r.next() >> r.below(64);
            if (__int128(v) > hi)
            {
                v = u64(__int128(v) % (hi + 1));
            }
            n.v = v;
            n.toks = {int_literal(v)};
            return n;
        }
        if (r.chance(1, 4))         // unary
        {
            Num a = number(from, k, level - 1);
            static const char* ops[] = {"-", "~", "+"};
            const char* op = ops[r.below(3)];
            __int128 v = op[0] == '-' ? -a.v : op[0] == '~' ? -a.v - 1 : a.v;
            if ((op[0] != '+' && lo == 0) || v < lo || v > hi || (op[0] == '-' && a.v == 0))
            {
                return a;
            }
            if (a.prec < 9 || a.toks.size() > 1)
            {
                a = wrap(a);
            }
            a.toks.insert(a.toks.begin(), op);
            a.v = v;
            a.prec = 8;
            return a;
        }
        Num a = number(from, k, level - 1);
        int many = r.chance(1, 4) ? 2 : 1;
        for (int i = 0; i < many; ++i)
        {
            Num b = number(from, k, level - 1);
            struct { const char* op; int prec; } ops[] = {{"|", 1}, {"^", 2}, {"&", 3}, {"<<", 4}, {">>", 4}, {"+", 5}, {"-", 5},
                                                          {"*", 6}, {"/", 6}, {"%", 6}};
            for (int tries = 0; tries < 6; ++tries)
            {
                auto o = ops[r.below(10)];
                __int128 v;
                bool ok = true;
                std::string op = o.op;
                if (op == "<<" || op == ">>")
                {
                    ok = a.v >= 0 && b.v >= 0 && b.v < int(8 * prim_size(k)) - 1;
                    v = ok ? (op == "<<" ? a.v << int(b.v) : a.v >> int(b.v)) : 0;
                }
                else if (op == "/" || op == "%")
                {
                    ok = b.v != 0 && !(a.v == lo && b.v == -1);
                    v = ok ? (op == "/" ? a.v / b.v : a.v % b.v) : 0;
                }
                else
                {
                    v = op == "|" ? a.v | b.v : op == "^" ? a.v ^ b.v : op == "&" ? a.v & b.v : op == "+" ? a.v + b.v
                        : op == "-" ? a.v - b.v : 0;
                    ok = op != "*" || !__builtin_mul_overflow(a.v, b.v, &v);
                }
                if (!ok || v < lo || v > hi)
                {
                    continue;
                }
                // the left operand may go without parentheses at the same precedence, the right one may not
                Num x = a.prec < o.prec || r.chance(1, 6) ? wrap(a) : a;
                Num y = b.prec <= o.prec || r.chance(1, 6) ? wrap(b) : b;
                Num z;
                z.toks = x.toks;
                z.toks.push_back(op);
                put(z.toks, y.toks);
                z.v = v;
                z.prec = o.prec;
                a = z;
                break;
            }
        }
        return a;
    }

    // ------------------------------------------------------------------------------------------------- types
    Toks prim_words(K k)
    {
        bool a = r.chance(1, 2);
        switch (k)
        {
            case K::BOOL: return {"boolean"};
            case K::I8: return {"int8"};
            case K::U8: return {a ? "uint8" : "octet"};
            case K::I16: return {a ? "short" : "int16"};
            case K::U16: return a ? Toks{"unsigned", "short"} : Toks{"uint16"};
            case K::I32: return {a ? "long" : "int32"};
            case K::U32: return a ? Toks{"unsigned", "long"} : Toks{"uint32"};
            case K::I64: return a ? Toks{"long", "long"} : Toks{"int64"};
            case K::U64: return a ? Toks{"unsigned", "long", "long"} : Toks{"uint64"};
            case K::F32: return {"float"};
            case K::F64: return {"double"};
            case K::F128: return {"long", "double"};
            case K::C8: return {"char"};
            default: return {"wchar"};
        }
    }

    K idl_prim()              // as it is written
    {
        static const K kinds[] = {K::BOOL, K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::F32, K::F64,
                                  K::F128, K::C8, K::WC};
        return kinds[r.below(14)];
    }

    MTP prim_type(K k)        // as it is understood
    {
        return mprim(k == K::C8 ? style.chr : k == K::WC ? style.wchr : k);
    }

    // a bound or a dimension: a literal, or a constant
    uint32_t size(const DMod& from, uint32_t max, Toks& toks)
    {
        Num n;
        if (r.chance(1, 4))
        {
            std::vector<const Known*> fit;
            for (auto& c : tree.known)
            {
                if (c.constant && integral(c.def->k) && value_of(c) >= 1 && value_of(c) <= max)
                {
                    fit.push_back(&c);
                }
            }
            if (!fit.empty())
            {
                const Known& c = *fit[r.below(fit.size())];
                bool absolute;
                toks.push_back(mention(from, c.mod, c.name, absolute));
                return uint32_t(value_of(c));
            }
        }
        uint32_t v = 1 + uint32_t(r.below(max));
        toks.push_back(int_literal(v));
        return v;
    }

    struct Spec
    {
        Toks toks;
        MTP type;
    };

    Spec string_spec(const DMod& from, bool bounds)
    {
        Spec s;
        auto t = std::make_shared<MT>();
        bool wide = r.chance(1, 3);
        t->k = !wide ? K::STR : style.wchr == K::WC ? K::WSTR : K::STR16;
        t->name = t->k == K::STR ? "std::string" : t->k == K::WSTR ? "std::wstring" : "std::u16string";
        s.toks = {wide ? "wstring" : "string"};
        if (bounds && r.chance(1, 3))
        {
            s.toks.push_back("<");
            t->bound = size(from, r.chance(1, 4) ? 4000 : 20, s.toks);
            t->name += "_" + std::to_string(t->bound);
            s.toks.push_back(">");
        }
        s.type = t;
        return s;
    }

    bool mention_type(const DMod& from, const std::function<bool(const MT&)>& fits, Spec& s)
    {
        std::vector<const Known*> fit;
        for (auto& c : tree.known)
        {
            if (!c.constant && fits(*c.def))
            {
                fit.push_back(&c);
            }
        }
        if (fit.empty())
        {
            return false;
        }
        const Known& c = choose(from, fit);
        bool absolute;
        std::string text = mention(from, c.mod, c.name, absolute);
        s.toks = {text};
        s.type = absolute ? named_as(c.def, text) : c.def;
        tree.rooted |= absolute;
        return true;
    }

    Spec type_spec(const DMod& from, int level)
    {
        Spec s;
        u64 w = r.below(12);
        if (w < 4 && mention_type(from, [&](const MT& t) { return weight(t) < 60; }, s))
        {
            return s;
        }
        if (w < 6 && level > 0)
        {
            auto t = std::make_shared<MT>();
            if (r.chance(2, 3))
            {
                Spec e = type_spec(from, level - 1);
                t->k = K::SEQ;
                t->elem = e.type;
                s.toks = {"sequence", "<"};
                put(s.toks, e.toks);
            }
            else
            {
                Spec k;
                if (r.chance(1, 4) && mention_type(from, [&](const MT& m)
                        {
                            return res(m).k == K::ENUM || is_str(res(m).k) || (is_prim(res(m).k));
                        }, k))
                {
                }
                else if (r.chance(1, 2))
                {
                    k = string_spec(from, true);
                }
                else
                {
                    K p = idl_prim();
                    k.toks = prim_words(p);
                    k.type = prim_type(p);
                }
                Spec e = type_spec(from, level - 1);
                t->k = K::MAP;
                t->key = k.type;
                t->elem = e.type;
                s.toks = {"map", "<"};
                put(s.toks, k.toks);
                s.toks.push_back(",");
                put(s.toks, e.toks);
            }
            if (r.chance(1, 3))
            {
                s.toks.push_back(",");
                t->bound = size(from, 300, s.toks);
            }
            s.toks.push_back(">");
            std::string b = t->bound ? std::to_string(t->bound) + "_" : "";
            t->name = t->k == K::SEQ ? "sequence_" + b + t->elem->name : "map_" + b + "pair_" + t->key->name + "_" + t->elem->name;
            s.type = t;
            return s;
        }
        if (w < 8)
        {
            return string_spec(from, true);
        }
        K p = idl_prim();
        s.toks = prim_words(p);
        s.type = prim_type(p);
        return s;
    }

    // a declarator: the name, and its dimensions
    MTP declarator(const DMod& from, const std::string& name, const MTP& type, Toks& toks)
    {
        toks.push_back(name);
        MTP t = type;
        if (r.chance(1, 4))
        {
            int n = 1 + int(r.below(r.chance(1, 3) ? 3 : 1));
            std::vector<uint32_t> dims;
            for (int i = 0; i < n; ++i)
            {
                toks.push_back("[");
                dims.push_back(size(from, weight(*type) > 10 || n > 1 ? 3 : r.chance(1, 8) ? 200 : 7, toks));
                toks.push_back("]");
            }
            for (int i = n - 1; i >= 0; --i)
            {
                auto a = std::make_shared<MT>();
                a->k = K::ARRAY;
                a->bound = dims[i];
                a->elem = t;
                a->name = "array_" + std::to_string(a->bound) + "_" + t->name;
                t = a;
            }
        }
        return t;
    }

    // ------------------------------------------------------------------------------------------------- literals
    static void utf8(std::string& s, uint32_t c)
    {
        if (c < 0x80)
        {
            s += char(c);
        }
        else if (c < 0x800)
        {
            s += char(0xC0 | (c >> 6));
            s += char(0x80 | (c & 63));
        }
        else
        {
            s += char(0xE0 | (c >> 12));
            s += char(0x80 | ((c >> 6) & 63));
            s += char(0x80 | (c & 63));
        }
    }

    // a character as it is written between quotes, and the code it stands for
    std::string character(uint32_t& code, bool wide, bool single)
    {
        char buf[16];
        static const struct { const char* text; uint32_t code; } escapes[] = {
            {"\\n", 10}, {"\\t", 9}, {"\\v", 11}, {"\\b", 8}, {"\\r", 13}, {"\\f", 12}, {"\\a", 7}, {"\\\\", 92},
            {"\\?", 63}, {"\\'", 39}, {"\\\"", 34}};
        if (r.chance(1, 4))
        {
            switch (r.below(4))
            {
                case 0:
                    code = 1 + uint32_t(r.below(255));
                    snprintf(buf, sizeof(buf), r.chance(1, 2) ? "\\x%02x" : "\\x%02X", code);
                    return buf;
                case 1:
                    code = 1 + uint32_t(r.below(255));
                    snprintf(buf, sizeof(buf), "\\%03o", code);
                    return buf;
                case 2:
                    if (wide)
                    {
                        code = r.chance(1, 2) ? 1 + uint32_t(r.below(0xD7FF)) : 0xE000 + uint32_t(r.below(0x1FFE));
                        snprintf(buf, sizeof(buf), "\\u%04x", code);
                        return buf;
                    }
                default:
                {
                    auto& e = escapes[r.below(11)];
                    code = e.code;
                    return e.text;
                }
            }
        }
        if (wide && r.chance(1, 6))
        {
            code = r.chance(1, 2) ? 0xE9 + uint32_t(r.below(200)) : 0x3042 + uint32_t(r.below(2000));
            std::string s;
            utf8(s, code);
            return s;
        }
        static const char special[] = "$`%!#&*;{}<>|@~^=+-/.,:()[] ";
        do
        {
            code = r.chance(1, 3) ? uint32_t(special[r.below(sizeof(special) - 1)])
                : r.chance(1, 2) ? uint32_t('a' + r.below(26)) : uint32_t('0' + r.below(10));
        }
        while (single && code == '\'');
        return std::string(1, char(code));
    }

    // ------------------------------------------------------------------------------------------------- definitions
    void remember(DMod& m, const std::string& name, const MTP& def)
    {
        DSym s;
        s.def = def;
        m.syms[name] = s;
        tree.known.push_back(Known{&m, name, def, false, false, Val()});
    }

    void remember_constant(DMod& m, const std::string& name, const MTP& def, const Val& v, bool enumerator)
    {
        DSym s;
        s.def = def;
        s.constant = true;
        s.value = v;
        m.syms[name] = s;
        tree.known.push_back(Known{&m, name, def, true, enumerator, v});
    }

    // those that are known nowhere mean nothing to the parser
    void annotations(bool member)
    {
        if (!r.chance(1, 6))
        {
            return;
        }
        int n = 1 + int(r.below(2));
        for (int i = 0; i < n; ++i)
        {
            switch (r.below(member ? 5 : 3))
            {
                case 0: emit(Toks{"@unit", "(", "\"m/s\"", ")"}); break;
                case 1: emit("@note"); break;
                case 2: emit(Toks{"@range", "(", "min", "=", "-", "3", ",", "max", "=", "0x1F", ")"}); break;
                case 3: emit("@mark"); break;
                case 4: emit(Toks{"@hint", "(", "TRUE", ")"}); break;
            }
        }
    }

    void structure(DMod& m)
    {
        auto t = std::make_shared<MT>();
        std::string name = fresh(pick(r, type_stems), m);
        t->k = K::STRUCT;
        t->name = m.scoped(name);
        bool seen = false;
        for (const DMod* o = &m; o; o = o->outer)
        {
            seen |= o->has(name);
        }
        if (!seen && r.chance(1, 8))
        {
            emit(Toks{"struct", written(name), ";"});
        }
        annotations(false);
        emit("struct");
        emit(written(name));
        m.syms[name];                // known from here on, as a structure without members
        std::vector<const Known*> fit;
        for (auto& c : tree.known)
        {
            if (!c.constant && c.def->k == K::STRUCT)
            {
                fit.push_back(&c);
            }
        }
        if (!fit.empty() && r.chance(1, 3))
        {
            const Known& c = choose(m, fit);
            bool absolute;
            emit(":");
            emit(mention(m, c.mod, c.name, absolute));
            t->parent = c.def;
            t->mem = c.def->mem;
        }
        emit("{");
        int n = r.chance(1, 12) ? 0 : 1 + int(r.below(4));
        for (int i = 0; i < n; ++i)
        {
            annotations(true);
            Spec s = type_spec(m, 2);
            emit(s.toks);
            int k = r.chance(1, 4) ? 2 + int(r.below(2)) : 1;
            for (int j = 0; j < k; ++j)
            {
                if (j)
                {
                    emit(",");
                }
                MMember mm;
                mm.name = member_name(t->mem.size());
                odd_name(m, mm.name, t->mem);
                Toks d;
                mm.type = declarator(m, written(mm.name), s.type, d);
                emit(d);
                t->mem.push_back(mm);
            }
            emit(";");
        }
        emit("}");
        emit(";");
        remember(m, name, t);
    }

    // names of members that cannot be written as they are
    void odd_name(const DMod& m, std::string& name, const std::vector<MMember>& others)
    {
        static const char* const words[] = {"native", "bitset", "module", "fixed", "typedef", "case"};
        if (style.keywords && r.chance(1, 10))
        {
            std::string n = pick(r, words);
            if (std::none_of(others.begin(), others.end(), [&](const MMember& o) { return o.name == n; }))
            {
                name = n;
                tree.escaped = true;
                return;
            }
        }
        static const char* const capital[] = {"Struct", "OCTET"};
        if (!style.any_case && r.chance(1, 12))
        {
            std::string n = pick(r, capital);
            if (std::none_of(others.begin(), others.end(), [&](const MMember& o) { return o.name == n; })
                && !m.has(n) && std::none_of(tree.known.begin(), tree.known.end(), [&](const Known& k) { return k.name == n; }))
            {
                name = n;
                tree.escaped = true;          // it may be read where it is no name
                return;
            }
        }
        if (r.chance(1, 40))
        {
            name = "_" + name;
            tree.escaped = true;
        }
    }

    std::string member_name(size_t i)
    {
        // no visible symbol ends like this
        return pick(r, member_stems) + std::to_string(i) + "m";
    }

    void union_(DMod& m)
    {
        auto t = std::make_shared<MT>();
        std::string name = fresh(pick(r, type_stems), m);
        t->k = K::UNION;
        t->name = m.scoped(name);
        Spec disc;
        const Known* en = nullptr;
        if (!(r.chance(2, 5) && mention_type(m, [&](const MT& x)
                {
                    const MT& d = res(x);
                    return x.k == K::ENUM || (x.k == K::ALIAS && (integral(d.k) || d.k == K::BOOL || d.k == K::ENUM));
                }, disc)))
        {
            std::vector<K> kinds = {K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::BOOL, K::I32, K::I16};
            if (style.chr == K::C8)
            {
                kinds.push_back(K::C8);
            }
            kinds.push_back(K::WC);
            K k = kinds[r.below(kinds.size())];
            disc.toks = prim_words(k);
            disc.type = prim_type(k);
        }
        t->disc = disc.type;
        const MT& d = res(*disc.type);
        if (d.k == K::ENUM)
        {
            for (auto& c : tree.known)
            {
                if (!c.constant && c.def->k == K::ENUM && c.def->en == d.en)
                {
                    en = &c;
                }
            }
        }
        annotations(false);
        emit(Toks{"union", written(name), "switch", "("});
        emit(disc.toks);
        emit(Toks{")", "{"});
        m.syms[name];                // known from here on
        std::set<int64_t> taken;
        auto label = [&](Toks& toks, int64_t& l)
                {
                    if (d.k == K::ENUM)
                    {
                        auto& e = d.en[r.below(d.en.size())];
                        l = int64_t(e.second);
                        bool absolute;
                        toks = {r.chance(1, 4) ? en->name + "::" + e.first : mention(m, en->mod, e.first, absolute)};
                        return;
                    }
                    if (d.k == K::BOOL)
                    {
                        l = int64_t(r.below(2));
                        toks = {l ? "TRUE" : "FALSE"};
                        return;
                    }
                    if (d.k == K::C8 || d.k == K::WC || d.k == K::C16)
                    {
                        uint32_t code;
                        std::string c = character(code, d.k != K::C8, true);
                        while (d.k == K::C8 && code > 126)
                        {
                            c = character(code, d.k != K::C8, true);
                        }
                        toks = {(d.k != K::C8 ? "L'" : "'") + (c == "\"" ? "\\\"" : c) + "'"};
                        l = code;
                        return;
                    }
                    Num n = number(m, d.k, r.chance(1, 4) ? 2 : 0);
                    if (signed_kind(d.k) && n.v > 0 && r.chance(1, 4))
                    {
                        n = n.toks.size() > 1 ? wrap(n) : n;
                        n.toks.insert(n.toks.begin(), "-");
                        n.v = -n.v;
                    }
                    toks = n.toks;
                    l = int64_t(n.v);
                };
        int n = 1 + int(r.below(4));
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::pair<Toks, int64_t>> labels;
            int many = r.chance(1, 3) ? 2 + int(r.below(2)) : 1;
            for (int j = 0; j < many; ++j)
            {
                Toks toks;
                int64_t l;
                label(toks, l);
                int64_t s = shrink(l, d);
                if (s == default_label(d) || s == default_label(d) - 1 || !taken.insert(s).second)
                {
                    continue;
                }
                labels.push_back({toks, s});
            }
            bool def = t->def < 0 && r.chance(1, 4);
            if (i == 0 && labels.empty() && t->def < 0)
            {
                def = true;
            }
            if (labels.empty() && !def)
            {
                continue;
            }
            size_t at = def ? r.below(labels.size() + 1) : labels.size() + 1;
            for (size_t j = 0; j <= labels.size(); ++j)
            {
                if (j == at)
                {
                    emit(Toks{"default", ":"});
                }
                if (j < labels.size())
                {
                    emit("case");
                    emit(labels[j].first);
                    emit(":");
                    t->labels.push_back({labels[j].second, int(t->mem.size())});
                }
            }
            if (def)
            {
                t->def = int(t->mem.size());
            }
            annotations(true);
            Spec s = type_spec(m, 2);
            emit(s.toks);
            MMember mm;
            mm.name = member_name(t->mem.size());
            odd_name(m, mm.name, t->mem);
            Toks dt;
            mm.type = declarator(m, written(mm.name), s.type, dt);
            emit(dt);
            emit(";");
            t->mem.push_back(mm);
        }
        std::sort(t->labels.begin(), t->labels.end());
        emit("}");
        emit(";");
        remember(m, name, t);
    }

    void enumeration(DMod& m)
    {
        auto t = std::make_shared<MT>();
        std::string name = fresh(pick(r, type_stems), m);
        t->k = K::ENUM;
        t->name = m.scoped(name);
        t->width = 4;
        annotations(false);
        emit(Toks{"enum", written(name), "{"});
        int n = 1 + int(r.below(5));
        std::vector<std::string> names;
        for (int i = 0; i < n; ++i)
        {
            if (i)
            {
                emit(",");
            }
            std::string e = fresh(pick(r, enum_stems));
            annotations(false);
            emit(written(e));
            t->en.push_back({e, u64(i)});
            names.push_back(e);
        }
        t->next = u64(n);
        emit("}");
        emit(";");
        remember(m, name, t);
        MTP number = mprim(K::U32);
        for (int i = 0; i < n; ++i)
        {
            Val v;
            v.bits = u64(i);
            remember_constant(m, names[i], number, v, true);
        }
    }

    void alias(DMod& m)
    {
        Spec s = type_spec(m, 2);
        emit("typedef");
        emit(s.toks);
        int k = r.chance(1, 4) ? 2 + int(r.below(2)) : 1;
        std::vector<std::pair<std::string, MTP>> made;
        for (int j = 0; j < k; ++j)
        {
            if (j)
            {
                emit(",");
            }
            std::string name = fresh(pick(r, type_stems));
            auto t = std::make_shared<MT>();
            t->k = K::ALIAS;
            t->name = m.scoped(name);
            Toks d;
            t->elem = declarator(m, written(name), s.type, d);
            emit(d);
            made.push_back({name, t});
        }
        emit(";");
        for (auto& x : made)
        {
            remember(m, x.first, x.second);
        }
    }

    void constant(DMod& m)
    {
        std::string name = fresh(pick(r, const_stems), m);
        Toks type, expr;
        MTP def;
        Val v;
        u64 w = r.below(12);
        Spec s;
        if (w < 2 && mention_type(m, [&](const MT& x) { return integral(res(x).k) && x.k == K::ALIAS; }, s))
        {
            type = s.toks;
            def = std::make_shared<MT>(res(*s.type));
            Num n = number(m, def->k, 2);
            expr = n.toks;
            v.bits = bits_of(def->k, n.v);
        }
        else if (w < 6)
        {
            static const K kinds[] = {K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::I32, K::I32};
            K k = kinds[r.below(10)];
            type = k == K::U8 ? Toks{"uint8"} : prim_words(k);
            def = mprim(k);
            Num n = number(m, k, int(r.below(4)));
            expr = n.toks;
            v.bits = bits_of(def->k, n.v);
        }
        else if (w == 6)
        {
            static const K kinds[] = {K::F32, K::F64, K::F128};
            K k = kinds[r.below(3)];
            type = prim_words(k);
            def = mprim(k);
            double x = real(expr, 2);
            v.bits = to_bits<double>(x);
        }
        else if (w == 7)
        {
            type = {"boolean"};
            def = mprim(K::BOOL);
            v.bits = r.below(2);
            expr = {v.bits ? "TRUE" : "FALSE"};
            for (auto& c : tree.known)
            {
                if (c.constant && c.def->k == K::BOOL && r.chance(1, 3))
                {
                    bool absolute;
                    expr = {mention(m, c.mod, c.name, absolute)};
                    v = c.value;
                    break;
                }
            }
        }
        else if (w == 8 && style.chr == K::C8)
        {
            type = {"char"};
            def = mprim(K::C8);
            uint32_t code;
            std::string c = character(code, false, true);
            expr = {"'" + (c == "\"" ? "\\\"" : c) + "'"};
            v.bits = code;
        }
        else if (w == 9)
        {
            type = {"wchar"};
            def = mprim(style.wchr);
            uint32_t code;
            std::string c = character(code, true, true);
            expr = {"L'" + (c == "\"" ? "\\\"" : c) + "'"};
            v.bits = code;
        }
        else
        {
            Spec t = string_spec(m, false);
            type = t.toks;
            def = t.type;
            bool wide = def->k != K::STR;
            int parts = 1 + int(r.below(r.chance(1, 3) ? 3 : 1));
            for (int p = 0; p < parts; ++p)
            {
                std::string text = wide ? "L\"" : "\"";
                int n = int(r.below(9));
                if (r.chance(1, 8))
                {
                    text += "// $(x) /* `y` */ %s";
                    for (const char* c = "// $(x) /* `y` */ %s"; *c; ++c)
                    {
                        v.str += char32_t(*c);
                    }
                }
                for (int i = 0; i < n; ++i)
                {
                    uint32_t code;
                    text += character(code, wide, false);
                    v.str += char32_t(code);
                }
                expr.push_back(text + "\"");
            }
        }
        emit("const");
        emit(type);
        emit(written(name));
        emit("=");
        emit(expr);
        emit(";");
        remember_constant(m, name, def, v, false);
    }

    // a number that every floating type holds exactly, however it is computed
    double real(Toks& toks, int level)
    {
        if (level <= 0 || r.chance(1, 2))
        {
            static const struct { const char* text; double v; } lits[] = {
                {"0.5", 0.5}, {"1.5", 1.5}, {"2.25", 2.25}, {"1e3", 1000}, {"3.", 3}, {".25", 0.25}, {"100.0", 100},
                {"1.5e2", 150}, {"25e-2", 0.25}, {"2.5d", 2.5}, {"1E+1", 10}, {"64.0", 64}};
            auto& l = lits[r.below(12)];
            toks.push_back(l.text);
            return l.v;
        }
        Toks a, b;
        double x = real(a, level - 1), y = real(b, level - 1);
        static const char* ops[] = {"+", "-", "*"};
        std::string op = ops[r.below(3)];
        double v = op == "+" ? x + y : op == "-" ? x - y : x * y;
        if (v == 0 || double(float(v)) != v)
        {
            put(toks, a);
            return x;
        }
        auto side = [&](const Toks& t)
                {
                    if (t.size() == 1)
                    {
                        put(toks, t);
                        return;
                    }
                    toks.push_back("(");
                    put(toks, t);
                    toks.push_back(")");
                };
        if (r.chance(1, 4))
        {
            toks.push_back("-");
            toks.push_back("(");
            side(a);
            toks.push_back(op);
            side(b);
            toks.push_back(")");
            return -v;
        }
        side(a);
        toks.push_back(op);
        side(b);
        return v;
    }

    void module(DMod& m, int n)
    {
        std::string name = pick(r, module_names);
        if (m.syms.count(name))
        {
            return;
        }
        auto& inner = m.inner[name];
        if (!inner)
        {
            inner = std::make_unique<DMod>();
            inner->outer = &m;
            inner->name = name;
        }
        annotations(false);
        emit(Toks{"module", name, "{"});
        definitions(*inner, n);
        emit("}");
        emit(";");
    }

    void directive(const std::string& line)
    {
        Tok k;
        k.text = line;
        k.depth = depth;
        k.directive = true;
        out.push_back(k);
    }

    void definition(DMod& m, int budget)
    {
        u64 w = r.below(20);
        if (r.chance(1, 20))
        {
            directive(r.chance(1, 2) ? "#pragma once" : "#pragma vendor \\\n  option(1)");
        }
        if (w < 3 && m.depth() < 3)
        {
            module(m, std::max(1, budget));
        }
        else if (w < 8)
        {
            structure(m);
        }
        else if (w < 11)
        {
            union_(m);
        }
        else if (w < 13)
        {
            enumeration(m);
        }
        else if (w < 16)
        {
            alias(m);
        }
        else
        {
            constant(m);
        }
    }

    // something is defined a second time, to no avail
    void again(DMod& m)
    {
        std::vector<const Known*> fit;
        for (auto& k : tree.known)
        {
            if (k.mod == &m && !k.enumerator && (k.constant || k.def->k == K::UNION || k.def->k == K::ENUM
                    || (k.def->k == K::STRUCT && k.def->mem.size() > (k.def->parent ? res(*k.def->parent).mem.size() : 0))))
            {
                fit.push_back(&k);
            }
        }
        if (fit.empty())
        {
            return;
        }
        const Known& k = *fit[r.below(fit.size())];
        if (k.constant)
        {
            emit(Toks{"const", "short", k.name, "=", "77", ";"});
        }
        else if (k.def->k == K::STRUCT)
        {
            emit(Toks{"struct", k.name, "{", "octet", "again_m", ";", "}", ";"});
        }
        else if (k.def->k == K::UNION)
        {
            emit(Toks{"union", k.name, "switch", "(", "short", ")", "{", "case", "77", ":", "octet", "again_m", ";", "}", ";"});
        }
        else
        {
            emit(Toks{"enum", k.name, "{", k.def->en[0].first, "}", ";"});
        }
    }

    void definitions(DMod& m, int n)
    {
        for (int i = 0; i < n; ++i)
        {
            definition(m, int(r.below(u64(n) + 1)));
            if (style.again && r.chance(1, 4))
            {
                again(m);
            }
        }
        // a module holds something
        if (m.outer && !out.empty() && out.back().text == "{")
        {
            constant(m);
        }
    }
};

} // namespace

// What the first part of a name stands for is looked up from the inside out, the rest from there down.
const DMod* look_module(const DMod& from, const std::string& text, std::string& last)
{
    std::vector<std::string> parts;
    size_t at = 0;
    for (size_t e; (e = text.find("::", at)) != std::string::npos; at = e + 2)
    {
        parts.push_back(text.substr(at, e - at));
    }
    parts.push_back(text.substr(at));
    last = parts.back();
    const DMod* m = &from;
    size_t i = 0;
    if (parts.size() > 1 && parts[0].empty())
    {
        while (m->outer)
        {
            m = m->outer;
        }
        i = 1;
    }
    else
    {
        while (m && !(parts.size() == 1 ? m->has(parts[0]) : m->inner.count(parts[0]) > 0))
        {
            m = m->outer;
        }
    }
    for (; m && i + 1 < parts.size(); ++i)
    {
        auto it = m->inner.find(parts[i]);
        m = it == m->inner.end() ? nullptr : it->second.get();
    }
    return m;
}

bool means(const DMod& from, const std::string& text, const DMod* mod, const std::string& name)
{
    std::string last;
    return look_module(from, text, last) == mod && last == name;
}

Document generate(Rng& r, Tree& tree, const Style& style, int n)
{
    Document d;
    Maker mk{r, tree, style, {}, 0};
    for (int i = 0; i < n; ++i)
    {
        size_t from = mk.out.size();
        mk.definition(tree.root, int(r.below(5)));
        if (style.again && r.chance(1, 4))
        {
            mk.again(tree.root);
        }
        if (mk.out.size() == from)
        {
            mk.constant(tree.root);
        }
        d.defs.push_back({from, mk.out.size()});
    }
    d.toks = mk.out;
    return d;
}

static bool word(char c)
{
    return isalnum((unsigned char)c) || c == '_';
}

static std::string comment(Rng& r, bool line)
{
    static const char* bits[] = {"it's", "\"quoted\"", "struct X {", "};", "$HOME", "`date`", "%s %d", "\\n", "//", "/*", "*", "#define Y",
                                 "case 1:", "\xc3\xa9", "!", "'", "a", "", "<>", "-", "@key", "# 12 \"f\""};
    std::string t;
    int n = int(r.below(5));
    for (int i = 0; i < n; ++i)
    {
        t += bits[r.below(22)];
        t += " ";
    }
    if (line)
    {
        while (!t.empty() && t.back() == '\\')
        {
            t.pop_back();
        }
        return "//" + t + (r.chance(1, 8) ? "\r\n" : "\n");
    }
    if (r.chance(1, 8))
    {
        int lines = int(r.below(14));
        for (int i = 0; i < lines; ++i)
        {
            t += "\n * more";
        }
    }
    for (size_t p; (p = t.find("*/")) != std::string::npos; )
    {
        t.erase(p, 2);
    }
    return "/*" + t + (!t.empty() && t.back() == '/' ? " " : "") + "*/";
}

std::string render(Rng& r, const Document& d, const Style& style)
{
    std::string s;
    std::set<std::string> macros;
    std::string head;
    int serial = 0;
    auto gap = [&](bool needed)
            {
                std::string g;
                if (style.layout == 0)
                {
                    return std::string(needed ? " " : "");
                }
                int n = style.layout == 1 ? 1 : int(r.below(4));
                for (int i = 0; i < n; ++i)
                {
                    u64 w = r.below(style.layout == 1 ? 40 : 10);
                    switch (w)
                    {
                        case 0: g += comment(r, true); break;
                        case 1: g += comment(r, false); break;
                        case 2: g += "\n"; break;
                        case 3: g += "\t"; break;
                        case 4: g += "\r\n"; break;
                        case 5: g += "\n\n    "; break;
                        default: g += " "; break;
                    }
                }
                if (needed && g.empty())
                {
                    g = " ";
                }
                return g;
            };
    bool fresh_line = true;
    std::string last;
    for (size_t i = 0; i < d.toks.size(); ++i)
    {
        const Tok& t = d.toks[i];
        if (t.directive)
        {
            s += fresh_line ? "" : "\n";
            s += t.text + "\n";
            fresh_line = true;
            last.clear();
            continue;
        }
        if (style.directives && t.depth == 0 && (last.empty() || last == ";") && r.chance(1, 8))
        {
            static const char* blocks[] = {
                "#ifdef NOT_DEFINED_ANYWHERE\nstruct Not_there { unknown x; };\n#endif\n", "#if 1\n#endif\n", "#undef SOMETHING\n",
                "#if 0\nthis is no IDL\n#else\n#endif\n"};
            s += (fresh_line ? "" : "\n") + std::string(blocks[r.below(4)]);
            fresh_line = true;
        }
        std::string text = t.text;
        if (style.directives && t.number && r.chance(1, 6))
        {
            std::string name = "SIM_VALUE_" + std::to_string(serial++);
            head += "#define " + name + (r.chance(1, 2) ? " " : "\t") + text + "\n";
            text = name;
        }
        bool needed = !last.empty() && word(last.back()) && word(text[0]);
        // these would read as something else when they touch
        needed |= !last.empty() && ((last.back() == '/' && (text[0] == '/' || text[0] == '*')) || (last == "@" )
                || (word(last.back()) && (text[0] == '.' || text[0] == '"' || text[0] == '\'')) || (last.back() == '.' && word(text[0]))
                // to the preprocessor, 0xFE-NAME is one number
                || (style.directives && (text[0] == '-' || text[0] == '+') && strchr("eEpP", last.back()))
                || (last.back() == ':' && text[0] == ':') || (last.back() == '"' && word(text[0]))
                || ((word(last.back()) || last.back() == '.') && (text[0] == ':' && text.size() > 1)));
        std::string g = last.empty() && s.empty() ? (style.layout == 2 && r.chance(1, 2) ? gap(false) : "") : gap(needed);
        s += (!g.empty() && g[0] == '/' && !last.empty() && last.back() == '/' ? " " : "") + g + text;
        last = text;
        fresh_line = false;
    }
    s += style.layout == 0 ? "" : style.layout == 2 ? gap(false) + (r.chance(1, 4) ? "\n// the end" : "\n") : "\n";
    return head + s;
}

std::string spoil(Rng& r, const Tree& before, const Document& d0, const Style& style, std::string& what)
{
    Document d = d0;
    auto plain = [&](std::string t)
            {
                Tok k;
                k.text = t;
                return k;
            };
    auto add = [&](const char* text)
            {
                // a definition of its own, at the end
                std::string w;
                for (const char* c = text; ; ++c)
                {
                    if (*c == ' ' || !*c)
                    {
                        if (!w.empty())
                        {
                            d.toks.push_back(plain(w));
                        }
                        w.clear();
                        if (!*c)
                        {
                            break;
                        }
                        continue;
                    }
                    w += *c;
                }
            };
    std::vector<size_t> where;
    auto sites = [&](const std::function<bool(size_t)>& f)
            {
                where.clear();
                for (size_t i = 0; i < d.toks.size(); ++i)
                {
                    if (!d.toks[i].directive && f(i))
                    {
                        where.push_back(i);
                    }
                }
                return !where.empty();
            };
    switch (r.below(8))
    {
        case 0:
            what = "a token is missing";
            if (sites([&](size_t i) { const std::string& t = d.toks[i].text; return t == ";" || t == "{" || t == "}"; }))
            {
                d.toks.erase(d.toks.begin() + long(where[r.below(where.size())]));
                return render(r, d, style);
            }
            break;
        case 1:
        {
            what = "a token too many";
            static const char* junk[] = {"$", "?", "}", "...", "\"", "!", "`"};
            size_t at = r.below(d.toks.size() + 1);
            // neither between the lines of a directive nor inside of what is skipped
            d.toks.insert(d.toks.begin() + long(at), plain(junk[r.below(7)]));
            Style s = style;
            s.directives = false;
            return render(r, d, s);
        }
        case 2:
            what = "the end is missing";
            if (sites([&](size_t i) { return d.toks[i].depth > 0 || (i && d.toks[i].text == ";"); }))
            {
                d.toks.resize(where[r.below(where.size())]);
                Style s = style;
                s.layout = std::min(style.layout, 1);
                if (!d.toks.empty() && !d.toks.back().directive)
                {
                    return render(r, d, s);
                }
            }
            break;
        default:
            break;
    }
    d = d0;
    static const char* wrong[] = {
        "struct Wrong_a { Nobody_declared_it x ; } ;", "struct Wrong_b : Nobody_declared_it { long x ; } ;",
        "struct Wrong_c { long x ; short x ; } ;", "const long Wrong_d = Nobody_declared_it ;", "const long Wrong_e = 1 / 0 ;",
        "struct Wrong_f { any x ; } ;", "typedef Nobody_declared_it Wrong_g ;", "struct Wrong_h { sequence < Nobody_declared_it > x ; } ;",
        "struct Wrong_i { long x ; } ; struct Wrong_i { short y ; } ;", "const long Wrong_j = 1 ; const long Wrong_j = 2 ;",
        "enum Wrong_k { WK_A } ; enum Wrong_k { WK_B } ;", "struct struct { long x ; } ;", "union Wrong_l switch ( string ) { case 1 : long x ; } ;",
        "union Wrong_m switch ( long ) { case 1 : long x ; case 1 : short y ; } ;",
        "union Wrong_n switch ( long ) { default : long x ; default : short y ; } ;", "enum Wrong_o { WO_A , WO_A } ;",
        "struct Wrong_p { long x [ Nobody_declared_it ] ; } ;", "const long Wrong_q = 5 % ( 2 - 2 ) ;", "struct Wrong_r { fixed < 5 , 2 > x ; } ;",
        "module Wrong_s { } ;", "struct Wrong_t { long ; } ;", "typedef long ;", "union Wrong_u switch ( long ) { } ;",
        "enum Wrong_v { } ;", "const string Wrong_w ;", "union Wrong_x switch ( long ) { case 1 : long x ; case 2 : short x ; } ;",
        "module Nobody_m { struct A_b_c { long x ; } ; } ; struct Wrong_y { Nobody_m::Nobody_declared_it x ; } ;",
        "struct Wrong_z { long x [ 2 ; } ;", "const long Wrong_aa = -5 ; struct Wrong_ab { long x [ Wrong_aa ] ; } ;",
        "const string Wrong_ac = \"a\" ; typedef sequence < long , Wrong_ac > Wrong_ad ;", "struct Wrong_ae { long x ; }",
        "interface Wrong_af { } ;", "struct Wrong_ag { map < long > x ; } ;", "struct Wrong_ah { sequence < long , > x ; } ;",
        "const long native = 5 ;", "enum bitset { WB_A } ;", "enum Wrong_ai { WAI_A , module } ;", "struct Wrong_aj { long fixed ; } ;",
        "typedef long typedef ;"};
    static const char* loud[] = {"struct Struct { long x ; } ;", "const long Struct = 5 ;", "enum Wrong_ak { WAK_A , OCTET } ;",
        "struct Wrong_al { long OCTET ; } ;", "union OCTET switch ( long ) { case 1 : long x ; } ;", "typedef long Struct ;"};
    (void) before;
    if (style.any_case && !style.keywords && r.chance(2, 3))
    {
        what = loud[r.below(6)];
    }
    else
    {
        bool other;
        do
        {
            what = wrong[r.below(sizeof(wrong) / sizeof(wrong[0]))];
            static const char* names[] = {"struct struct", "const long native", "enum bitset", ", module }", "long fixed", "long typedef"};
            other = style.again && (what.find("Wrong_i ") != std::string::npos || what.find("Wrong_j") != std::string::npos
                    || what.find("Wrong_k ") != std::string::npos);
            for (const char* n : names)
            {
                other |= style.keywords && what.find(n) != std::string::npos;
            }
        }
        while (other);
    }
    add(what.c_str());
    return render(r, d, style);
}

static void named_types(const MT& t, bool inside, std::set<std::string>& names)
{
    switch (t.k)
    {
        case K::ENUM:
        case K::ALIAS:
        case K::STRUCT:
        case K::UNION:
            if (!inside)
            {
                names.insert(t.name);
                return;
            }
            break;
        default:
            break;
    }
    for (auto& m : t.mem)
    {
        named_types(*m.type, false, names);
    }
    for (const MTP& p : {t.elem, t.key, t.disc, t.parent})
    {
        if (p)
        {
            named_types(*p, false, names);
        }
    }
}

bool in_order(const Tree& t)
{
    std::map<std::string, const DMod*> where;
    std::vector<const DMod*> mods;
    std::function<void(const DMod&)> list = [&](const DMod& m)
            {
                mods.push_back(&m);
                for (auto& s : m.syms)
                {
                    where[m.scoped(s.first)] = &m;
                }
                for (auto& i : m.inner)
                {
                    list(*i.second);
                }
            };
    list(t.root);
    std::map<const DMod*, std::map<std::string, std::set<std::string>>> needs;
    for (const DMod* m : mods)
    {
        for (auto& s : m->syms)
        {
            std::set<std::string> names;
            if (s.second.def)
            {
                named_types(*s.second.def, !s.second.constant, names);
            }
            for (auto& n : names)
            {
                auto it = where.find(n);
                size_t at = n.rfind("::");
                if (it == where.end() || !means(*m, n, it->second, at == std::string::npos ? n : n.substr(at + 2)))
                {
                    return false;
                }
                const DMod* a = m;
                const DMod* b = it->second;
                std::string x = s.first, y = at == std::string::npos ? n : n.substr(at + 2);
                auto up = [](const DMod*& g, std::string& z)
                        {
                            z = "/" + g->name;
                            g = g->outer;
                        };
                while (a->depth() > b->depth())
                {
                    up(a, x);
                }
                while (b->depth() > a->depth())
                {
                    up(b, y);
                }
                while (a != b)
                {
                    up(a, x);
                    up(b, y);
                }
                if (x != y)
                {
                    needs[a][x].insert(y);
                }
            }
        }
    }
    for (auto& p : needs)
    {
        std::map<std::string, int> color;
        std::function<bool(const std::string&)> circular = [&](const std::string& x)
                {
                    int& c = color[x];
                    if (c)
                    {
                        return c == 1;
                    }
                    c = 1;
                    std::set<std::string> next = p.second.count(x) ? p.second.at(x) : std::set<std::string>();
                    for (auto& y : next)
                    {
                        if (circular(y))
                        {
                            return true;
                        }
                    }
                    color[x] = 2;
                    return false;
                };
        for (auto& q : p.second)
        {
            if (circular(q.first))
            {
                return false;
            }
        }
    }
    return true;
}

std::unique_ptr<Tree> clone_tree(const Tree& t)
{
    auto c = std::make_unique<Tree>();
    std::map<const DMod*, DMod*> to;
    std::function<void(const DMod&, DMod&)> copy = [&](const DMod& a, DMod& b)
            {
                b.name = a.name;
                b.syms = a.syms;
                to[&a] = &b;
                for (auto& i : a.inner)
                {
                    auto n = std::make_unique<DMod>();
                    n->outer = &b;
                    copy(*i.second, *n);
                    b.inner[i.first] = std::move(n);
                }
            };
    copy(t.root, c->root);
    c->known = t.known;
    for (auto& k : c->known)
    {
        k.mod = to[k.mod];
    }
    c->used = t.used;
    c->next = t.next;
    c->rooted = t.rooted;
    c->escaped = t.escaped;
    c->valid = t.valid;
    return c;
}

} // namespace doc
} // namespace sim
