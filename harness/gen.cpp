// The world of generated IDL (C14): histories that fill a tree of modules and generate its IDL, which an independent
// reader takes apart and compares with what was registered.
#include "core.hpp"
#include "model.hpp"

#include <xtypes/idl/Module.hpp>
#include <xtypes/idl/generator.hpp>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>

namespace sim {

using rt::fail;
using rt::FK;
using xt::DynamicData;
using xt::DynamicType;
namespace idl = eprosima::xtypes::idl;

namespace {

enum Code { G_SUB, G_STRUCT, G_UNION, G_ENUM, G_ALIAS, G_CONST, G_GROW, G_REPLACE, G_ALL, G_PART, G_ONE, NCODES };
const char* const code_names[NCODES] = {
    "g.sub", "g.struct", "g.union", "g.enum", "g.alias", "g.const", "g.grow", "g.replace", "g.all", "g.part", "g.one"
};
const int code_weights[NCODES] = {6, 10, 6, 4, 7, 6, 3, 2, 6, 3, 1};

const char* const alphabet[] = {"A", "B", "C", "S", "T", "U", "X", "a", "b", "k"};
constexpr int NAMES = 10;
constexpr int MAX_MODULES = 8;

// ------------------------------------------------------------------------------------------------------- the model
struct GMod;

struct Sym
{
    MTP def;                    // constants: the type
    bool constant = false;
    bool hidden = false;        // a constant made for an enumerator, which has no definition of its own
    Val value;
};

struct GMod
{
    GMod* outer = nullptr;
    std::string name;
    std::map<std::string, Sym> syms;
    std::map<std::string, std::unique_ptr<GMod>> inner;

    std::string scope() const
    {
        return outer == nullptr || outer->scope().empty() ? name : outer->scope() + "::" + name;
    }
    bool has(const std::string& n) const { return syms.count(n) || inner.count(n); }
    std::string scoped(const std::string& n) const { return scope().empty() ? n : scope() + "::" + n; }
    int depth() const { return outer ? outer->depth() + 1 : 0; }
};

struct Ref
{
    const GMod* mod = nullptr;
    std::string name;
    bool operator == (const Ref& o) const { return mod == o.mod && name == o.name; }
    std::string path() const { return mod->scoped(name); }
};

std::vector<std::string> split(const std::string& text)
{
    std::vector<std::string> parts;
    size_t at = 0;
    for (size_t e; (e = text.find("::", at)) != std::string::npos; at = e + 2)
    {
        parts.push_back(text.substr(at, e - at));
    }
    parts.push_back(text.substr(at));
    return parts;
}

void list(const GMod& m, std::vector<const GMod*>& out)
{
    out.push_back(&m);
    for (auto& i : m.inner)
    {
        list(*i.second, out);
    }
}

Ref down(const GMod* m, const std::vector<std::string>& parts, size_t first)
{
    for (size_t i = first; i + 1 < parts.size(); ++i)
    {
        auto it = m->inner.find(parts[i]);
        if (it == m->inner.end())
        {
            return {};
        }
        m = it->second.get();
    }
    return m->syms.count(parts.back()) ? Ref{m, parts.back()} : Ref{};
}

// what the name of a type stands for: the name of the root on, or the only symbol of the tree that is called so
Ref target(const GMod& root, const std::string& text)
{
    auto parts = split(text);
    size_t first = parts.size() > 1 && parts[0].empty() ? 1 : 0;
    Ref f = down(&root, parts, first);
    if (!f.mod && parts.size() == 1)
    {
        std::vector<const GMod*> mods;
        list(root, mods);
        for (const GMod* m : mods)
        {
            if (m->syms.count(text))
            {
                return {m, text};
            }
        }
    }
    return f;
}

// how IDL looks a name up: its first part from the scope of the mention outwards
Ref look(const GMod& from, const std::string& text)
{
    auto parts = split(text);
    const GMod* m = &from;
    if (parts.size() > 1 && parts[0].empty())
    {
        while (m->outer)
        {
            m = m->outer;
        }
        return down(m, parts, 1);
    }
    while (m && !m->has(parts[0]))
    {
        m = m->outer;
    }
    return m ? down(m, parts, 0) : Ref{};
}

bool named(const MT& t)
{
    return t.k == K::STRUCT || t.k == K::UNION || t.k == K::ENUM || t.k == K::ALIAS;
}

// the names inside a definition, however deep
void mentions(const MT& t, bool top, std::set<std::string>& out)
{
    if (named(t) && !top)
    {
        out.insert(t.name);
    }
    for (const MTP& p : {t.elem, t.key, t.parent, t.disc})
    {
        if (p)
        {
            mentions(*p, false, out);
        }
    }
    for (auto& m : t.mem)
    {
        mentions(*m.type, false, out);
    }
}

// ---------------------------------------------------------------------------------------------- what is expected
const char* idl_name(K k)
{
    switch (k)
    {
        case K::BOOL: return "boolean";
        case K::I8: return "int8";
        case K::U8: return "uint8";
        case K::I16: return "int16";
        case K::U16: return "uint16";
        case K::I32: return "int32";
        case K::U32: return "uint32";
        case K::I64: return "int64";
        case K::U64: return "uint64";
        case K::F32: return "float";
        case K::F64: return "double";
        case K::F128: return "long double";
        case K::C8: return "char";
        case K::C16:
        case K::WC: return "wchar";
        case K::STR: return "string";
        default: return "wstring";
    }
}

using Namer = std::function<std::string(const std::string&)>;      // the name of a type, as it is compared

std::string canon(const MT& t, const Namer& namer)
{
    auto bound = [&]() { return t.bound ? "," + std::to_string(t.bound) : std::string(); };
    if (is_prim(t.k))
    {
        return idl_name(t.k);
    }
    if (is_str(t.k))
    {
        return idl_name(t.k) + (t.bound ? "<" + std::to_string(t.bound) + ">" : std::string());
    }
    switch (t.k)
    {
        case K::SEQ: return "sequence<" + canon(*t.elem, namer) + bound() + ">";
        case K::MAP: return "map<" + canon(*t.key, namer) + "," + canon(*t.elem, namer) + bound() + ">";
        case K::ARRAY:
        {
            std::string dims;
            const MT* e = &t;
            for (; e->k == K::ARRAY; e = e->elem.get())
            {
                dims += "[" + std::to_string(e->bound) + "]";
            }
            return canon(*e, namer) + dims;
        }
        default: return namer(t.name);
    }
}

std::string int_text(K k, int64_t v)
{
    std::string out;
    with_prim(k, [&](auto x)
            {
                using T = decltype(x);
                if constexpr (std::is_integral<T>::value)
                {
                    out = std::to_string(from_bits<T>(u64(v)));
                }
            });
    return out;
}

std::string wide_text(const Units& u)                  // the code points of a text
{
    std::string out;
    for (size_t i = 0; i < u.size(); ++i)
    {
        uint32_t c = u[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < u.size())
        {
            c = 0x10000 + ((c - 0xD800) << 10) + (u[++i] - 0xDC00);
        }
        out += std::to_string(c) + " ";
    }
    return out;
}

std::string label_text(const MT& disc, int64_t label)
{
    const MT& d = res(disc);
    switch (d.k)
    {
        case K::BOOL: return label ? "TRUE" : "FALSE";
        case K::C8: return "'" + std::to_string(uint8_t(label)) + " '";
        case K::C16:
        case K::WC: return "L'" + wide_text(Units(1, char32_t(uint16_t(label)))) + "'";
        case K::ENUM:
            for (auto& e : d.en)
            {
                if (int64_t(e.second) == label)
                {
                    return e.first;
                }
            }
            return "?";
        default: return int_text(d.k, label);
    }
}

std::string canon_struct(const MT& t, const Namer& namer)
{
    std::string out = "struct";
    size_t skip = 0;
    if (t.parent)
    {
        out += " : " + namer(t.parent->name);
        skip = t.parent->mem.size();
    }
    out += " {";
    for (size_t i = skip; i < t.mem.size(); ++i)
    {
        out += " " + canon(*t.mem[i].type, namer) + " " + t.mem[i].name + ";";
    }
    return out + " }";
}

std::string canon_def(const Sym& s, const Namer& namer)
{
    const MT& t = *s.def;
    if (s.constant)
    {
        const MT& v = res(t);
        std::string out = "const " + canon(v, namer) + " = ";
        switch (v.k)
        {
            case K::BOOL: return out + (s.value.bits ? "TRUE" : "FALSE");
            case K::F32:
            case K::F64:
            case K::F128: return out + "number";           // compared as a number
            case K::C8: return out + "'" + std::to_string(uint8_t(s.value.bits)) + " '";
            case K::C16:
            case K::WC: return out + "L'" + wide_text(Units(1, char32_t(s.value.bits))) + "'";
            case K::STR:
                out += "\"";
                for (char32_t c : s.value.str)
                {
                    out += std::to_string(uint8_t(c)) + " ";
                }
                return out + "\"";
            case K::WSTR:
            case K::STR16: return out + "L\"" + wide_text(s.value.str) + "\"";
            case K::ENUM: return out + std::to_string(uint32_t(s.value.bits));
            default: return out + int_text(v.k, int64_t(s.value.bits));
        }
    }
    switch (t.k)
    {
        case K::STRUCT: return canon_struct(t, namer);
        case K::UNION:
        {
            std::string out = "union (" + canon(*t.disc, namer) + ") {";
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                std::set<std::string> labels;
                for (auto& l : t.labels)
                {
                    if (l.second == int(i))
                    {
                        labels.insert(label_text(*t.disc, l.first));
                    }
                }
                for (auto& l : labels)
                {
                    out += " case " + l + ":";
                }
                out += t.def == int(i) ? " default:" : "";
                out += " " + canon(*t.mem[i].type, namer) + " " + t.mem[i].name + ";";
            }
            return out + " }";
        }
        case K::ENUM:
        {
            std::string out = "enum {";
            for (auto& e : t.en)
            {
                out += " " + e.first;
            }
            return out + " }";
        }
        default: return "typedef " + canon(*t.elem, namer);
    }
}

// ------------------------------------------------------------------------------------------------------- the reader
struct Tok
{
    enum { WORD, PUNCT, NUMBER, CHR, STR, END } kind = END;
    std::string text;          // literals: the bytes between the quotes
    bool wide = false;
};

std::vector<Tok> scan(const std::string& s)
{
    std::vector<Tok> out;
    size_t i = 0;
    auto ident = [](char c) { return isalnum(uint8_t(c)) || c == '_'; };
    while (i < s.size())
    {
        char c = s[i];
        Tok t;
        if (isspace(uint8_t(c)))
        {
            ++i;
            continue;
        }
        if (s.compare(i, 2, "//") == 0)
        {
            while (i < s.size() && s[i] != '\n')
            {
                ++i;
            }
            continue;
        }
        if (c == 'L' && i + 1 < s.size() && (s[i + 1] == '"' || s[i + 1] == '\''))
        {
            t.wide = true;
            c = s[++i];
        }
        if (c == '"' || c == '\'')
        {
            t.kind = c == '"' ? Tok::STR : Tok::CHR;
            for (++i; i < s.size() && s[i] != c; ++i)
            {
                if (uint8_t(s[i]) < 32 || s[i] == 127)
                {
                    fail("idl", "a control character in a literal");
                }
                if (s[i] != '\\')
                {
                    t.text += s[i];
                    continue;
                }
                static const char letters[] = "ntvbrfa\\?'\"", means[] = "\n\t\v\b\r\f\a\\?'\"";
                const char* l = ++i < s.size() ? strchr(letters, s[i]) : nullptr;
                size_t n = 0;
                if (l && *l)
                {
                    t.text += means[l - letters];
                }
                else if (i < s.size() && s[i] >= '0' && s[i] < '8')
                {
                    int v = 0;
                    for (; n < 3 && i + n < s.size() && s[i + n] >= '0' && s[i + n] < '8'; ++n)
                    {
                        v = v * 8 + (s[i + n] - '0');
                    }
                    t.text += char(v);
                    i += n - 1;
                }
                else if (i + 1 < s.size() && s[i] == 'x' && isxdigit(uint8_t(s[i + 1])))
                {
                    n = i + 2 < s.size() && isxdigit(uint8_t(s[i + 2])) ? 2 : 1;
                    t.text += char(std::stoi(s.substr(i + 1, n), nullptr, 16));
                    i += n;
                }
                else
                {
                    fail("idl", "an escape that IDL doesn't have");
                }
            }
            if (i >= s.size())
            {
                fail("idl", "a literal without an end");
            }
            ++i;
        }
        else if (isdigit(uint8_t(c)) || (c == '.' && i + 1 < s.size() && isdigit(uint8_t(s[i + 1]))))
        {
            t.kind = Tok::NUMBER;
            while (i < s.size() && (ident(s[i]) || s[i] == '.'
                    || ((s[i] == '+' || s[i] == '-') && (s[i - 1] == 'e' || s[i - 1] == 'E'))))
            {
                t.text += s[i++];
            }
        }
        else if (ident(c))
        {
            t.kind = Tok::WORD;
            while (i < s.size() && ident(s[i]))
            {
                t.text += s[i++];
            }
        }
        else
        {
            t.kind = Tok::PUNCT;
            t.text = s.compare(i, 2, "::") == 0 ? "::" : std::string(1, c);
            i += t.text.size();
        }
        out.push_back(t);
    }
    out.push_back(Tok());
    return out;
}

std::string utf8_units(const std::string& s)           // the code points of a text in UTF-8
{
    std::string out;
    for (size_t i = 0; i < s.size();)
    {
        uint8_t c = uint8_t(s[i]);
        int more = c < 0x80 ? 0 : c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
        uint32_t v = more == 0 ? c : more == 1 ? c & 31 : more == 2 ? c & 15 : c & 7;
        ++i;
        for (; more > 0 && i < s.size() && (uint8_t(s[i]) & 0xC0) == 0x80; --more)
        {
            v = v << 6 | (uint8_t(s[i++]) & 63);
        }
        if (more)
        {
            fail("idl", "a wide literal that isn't UTF-8");
        }
        out += std::to_string(v) + " ";
    }
    return out;
}

std::string byte_units(const std::string& s)
{
    std::string out;
    for (char c : s)
    {
        out += std::to_string(uint8_t(c)) + " ";
    }
    return out;
}

// A definition as it was read. A mention is kept as \1 text \2 number \3 until everything is known.
struct RDef
{
    std::string text;
    std::string number;        // of a floating constant
    int end = 0;               // complete at this token
};

struct RMod
{
    RMod* outer = nullptr;
    std::string name;
    std::map<std::string, RDef> defs;
    std::map<std::string, std::unique_ptr<RMod>> inner;
    std::string scope() const { return outer == nullptr || outer->scope().empty() ? name : outer->scope() + "::" + name; }
};

struct Mention
{
    RMod* from;
    std::string text;
    int at;
};

class Reader
{
public:
    Reader(const std::string& text, const std::vector<std::string>& inside) : toks_(scan(text))
    {
        RMod* m = &root;
        for (auto& n : inside)
        {
            m = open(*m, n);
        }
        while (toks_[at_].kind != Tok::END)
        {
            definition(*m);
        }
    }

    RMod root;
    std::vector<Mention> all;

private:
    std::vector<Tok> toks_;
    size_t at_ = 0;

    [[noreturn]] void bad(const std::string& what)
    {
        std::string near;
        for (size_t i = at_ > 4 ? at_ - 4 : 0; i < toks_.size() && i < at_ + 4; ++i)
        {
            near += (i == at_ ? " >" : " ") + toks_[i].text;
        }
        fail("idl", what + " in the generated IDL, near:" + near);
    }
    const Tok& peek() { return toks_[at_]; }
    bool is(const char* p) { return (peek().kind == Tok::PUNCT || peek().kind == Tok::WORD) && peek().text == p; }
    bool take(const char* p)
    {
        if (!is(p))
        {
            return false;
        }
        ++at_;
        return true;
    }
    void need(const char* p)
    {
        if (!take(p))
        {
            bad(std::string("no '") + p + "'");
        }
    }
    std::string word()
    {
        if (peek().kind != Tok::WORD)
        {
            bad("no name");
        }
        return toks_[at_++].text;
    }
    std::string number()
    {
        if (peek().kind != Tok::NUMBER)
        {
            bad("no number");
        }
        char* end;
        const std::string& t = peek().text;
        unsigned long long v = strtoull(t.c_str(), &end, 0);
        if (*end)
        {
            bad("no whole number");
        }
        ++at_;
        return std::to_string(v);
    }

    RMod* open(RMod& m, const std::string& n)
    {
        auto& slot = m.inner[n];
        if (!slot)
        {
            slot.reset(new RMod());
            slot->outer = &m;
            slot->name = n;
        }
        return slot.get();
    }

    std::string scoped(RMod& m)
    {
        std::string text;
        if (take("::"))
        {
            text = "::";
        }
        text += word();
        while (take("::"))
        {
            text += "::" + word();
        }
        all.push_back({&m, text, int(at_)});
        return "\1" + std::to_string(all.size() - 1) + "\2";
    }

    std::string type(RMod& m)
    {
        if (is("::"))
        {
            return scoped(m);
        }
        if (peek().kind != Tok::WORD)
        {
            bad("no type");
        }
        std::string w = peek().text;
        static const std::set<std::string> prims = {
            "boolean", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "char",
            "wchar", "octet", "short"};
        if (w == "long" || w == "unsigned")
        {
            std::string s = word();
            while (is("long") || is("short") || is("double"))
            {
                s += " " + word();
            }
            static const std::map<std::string, std::string> other = {
                {"long", "int32"}, {"long long", "int64"}, {"unsigned short", "uint16"}, {"unsigned long", "uint32"},
                {"unsigned long long", "uint64"}, {"long double", "long double"}};
            auto it = other.find(s);
            return it == other.end() ? s : it->second;
        }
        if (prims.count(w))
        {
            ++at_;
            return w == "octet" ? "uint8" : w == "short" ? "int16" : w;
        }
        if (w == "string" || w == "wstring")
        {
            ++at_;
            if (take("<"))
            {
                w += "<" + number() + ">";
                need(">");
            }
            return w;
        }
        if (w == "sequence" || w == "map")
        {
            ++at_;
            need("<");
            std::string s = w + "<" + type(m);
            if (w == "map")
            {
                need(",");
                s += "," + type(m);
            }
            if (take(","))
            {
                s += "," + number();
            }
            need(">");
            return s + ">";
        }
        return scoped(m);
    }

    std::string dims()
    {
        std::string s;
        while (take("["))
        {
            s += "[" + number() + "]";
            need("]");
        }
        return s;
    }

    std::string literal()
    {
        bool minus = take("-");
        const Tok& t = peek();
        switch (t.kind)
        {
            case Tok::NUMBER:
            {
                std::string n = number();
                return minus && n != "0" ? "-" + n : n;
            }
            case Tok::WORD:                                       // TRUE, FALSE or an enumerator, however it is qualified
            {
                std::string w = word();
                while (take("::"))
                {
                    w = word();
                }
                return w;
            }
            case Tok::CHR: ++at_; return t.wide ? "L'" + utf8_units(t.text) + "'" : "'" + byte_units(t.text) + "'";
            case Tok::STR: ++at_; return t.wide ? "L\"" + utf8_units(t.text) + "\"" : "\"" + byte_units(t.text) + "\"";
            default: bad("no value");
        }
    }

    void define(RMod& m, const std::string& n, const std::string& text, const std::string& number = "")
    {
        need(";");
        if (m.defs.count(n) || m.inner.count(n))
        {
            bad("a second definition of " + n + " in '" + m.scope() + "'");
        }
        m.defs[n] = {text, number, int(at_)};
    }

    void definition(RMod& m)
    {
        if (take("module"))
        {
            std::string n = word();
            if (m.defs.count(n))
            {
                bad("a module named as the symbol " + n);
            }
            RMod* in = open(m, n);
            need("{");
            while (!take("}"))
            {
                definition(*in);
            }
            need(";");
        }
        else if (take("struct"))
        {
            std::string n = word(), s = "struct";
            if (take(":"))
            {
                s += " : " + scoped(m);
            }
            need("{");
            s += " {";
            while (!take("}"))
            {
                s += " " + member(m);
            }
            define(m, n, s + " }");
        }
        else if (take("union"))
        {
            std::string n = word();
            need("switch");
            need("(");
            std::string s = "union (" + type(m) + ") {";
            need(")");
            need("{");
            while (!take("}"))
            {
                std::set<std::string> labels;
                bool def = false;
                while (is("case") || is("default"))
                {
                    if (take("default"))
                    {
                        if (def)
                        {
                            bad("a second default");
                        }
                        def = true;
                    }
                    else
                    {
                        need("case");
                        if (!labels.insert(literal()).second)
                        {
                            bad("the same label twice");
                        }
                    }
                    need(":");
                }
                for (auto& l : labels)
                {
                    s += " case " + l + ":";
                }
                s += def ? " default:" : "";
                s += " " + member(m);
            }
            define(m, n, s + " }");
        }
        else if (take("enum"))
        {
            std::string n = word(), s = "enum {";
            need("{");
            do
            {
                s += " " + word();
            }
            while (take(","));
            need("}");
            define(m, n, s + " }");
        }
        else if (take("typedef"))
        {
            std::string t = type(m), n = word();
            t += dims();
            define(m, n, "typedef " + t);
        }
        else if (take("const"))
        {
            std::string t = type(m), n = word();
            need("=");
            if (t == "float" || t == "double" || t == "long double")
            {
                std::string s = take("-") ? "-" : "";
                if (peek().kind != Tok::NUMBER || peek().text.find_first_of(".eEdD") == std::string::npos)
                {
                    bad("no floating literal");
                }
                s += toks_[at_++].text;
                define(m, n, "const " + t + " = number", s);
            }
            else
            {
                std::string l = literal();
                define(m, n, "const " + t + " = " + l);
            }
        }
        else
        {
            bad("no definition");
        }
    }

    std::string member(RMod& m)
    {
        std::string t = type(m), n = word();
        t += dims();
        need(";");
        return t + " " + n + ";";
    }
};

struct RFound
{
    const RMod* mod = nullptr;
    const RDef* def = nullptr;
    std::string path;
};

RFound r_down(const RMod* m, const std::vector<std::string>& parts, size_t first)
{
    for (size_t i = first; i + 1 < parts.size(); ++i)
    {
        auto it = m->inner.find(parts[i]);
        if (it == m->inner.end())
        {
            return {};
        }
        m = it->second.get();
    }
    auto it = m->defs.find(parts.back());
    if (it == m->defs.end())
    {
        return {};
    }
    return {m, &it->second, m->scope().empty() ? parts.back() : m->scope() + "::" + parts.back()};
}

RFound r_look(const Mention& mention)
{
    auto parts = split(mention.text);
    const RMod* m = mention.from;
    if (parts.size() > 1 && parts[0].empty())
    {
        while (m->outer)
        {
            m = m->outer;
        }
        return r_down(m, parts, 1);
    }
    while (m && !m->defs.count(parts[0]) && !m->inner.count(parts[0]))
    {
        m = m->outer;
    }
    return m ? r_down(m, parts, 0) : RFound{};
}

// -------------------------------------------------------------------------------------------------------- the world
class GenWorld : public World
{
public:
    GenWorld() : real_(new idl::Module())
    {
#ifndef SIM_CONC           // what the library builds on first use only is there from now on
        static const bool ready = []()
                {
                    idl::Module m;
                    xt::StructType s("S");
                    s.add_member("x", xt::primitive_type<int32_t>());
                    m.structure(s);
                    m.create_constant("c", DynamicData(xt::primitive_type<double>()));
                    return !idl::generator::module(m).empty();
                }();
        (void)ready;
#endif
    }

    void step(const Op& op) override
    {
        Rng r(op.seed());
        switch (op.code)
        {
            case G_SUB: g_sub(op, r); break;
            case G_STRUCT: add(op, r, K::STRUCT); break;
            case G_UNION: add(op, r, K::UNION); break;
            case G_ENUM: add(op, r, K::ENUM); break;
            case G_ALIAS: add(op, r, K::ALIAS); break;
            case G_CONST: g_const(op, r); break;
            case G_GROW: g_grow(op, r); break;
            case G_REPLACE: g_replace(op, r); break;
            case G_ALL: g_gen(op, r, root_); break;
            case G_PART: g_gen(op, r, pick(op.a)); break;
            case G_ONE: g_one(op, r); break;
        }
    }

    void finish() override
    {
        Op op;
        Rng r(1);
        g_gen(op, r, root_);
        real_.reset();
    }

    u64 state() override
    {
        u64 s = 11;
        std::vector<const GMod*> mods;
        list(root_, mods);
        for (const GMod* m : mods)
        {
            s = rt::mix64(s ^ u64(m->depth()) ^ (m->name.empty() ? 0 : u64(m->name[0]) << 8));
            for (auto& p : m->syms)
            {
                s = rt::mix64(s ^ u64(p.first[0]) ^ u64(p.second.def->k) << 8 ^ u64(p.second.constant) << 16
                                ^ u64(p.second.def->mem.size()) << 20);
            }
        }
        return s;
    }

private:
    GMod root_;
    std::unique_ptr<idl::Module> real_;
    int serial_ = 0;
    bool circular_ = false;
    std::set<std::string> bare_;       // mentioned by types that had no module yet: there is to be one of that name

    GMod& pick(uint32_t n)
    {
        std::vector<const GMod*> all;
        list(root_, all);
        return const_cast<GMod&>(*all[n % all.size()]);
    }
    idl::Module& real_of(const GMod& m) { return m.outer ? *real_of(*m.outer).submodule(m.name) : *real_; }

    // -------------------------------------------------------------------------------- what a tree may look like
    bool unique(const std::string& n) const
    {
        int count = 0;
        std::vector<const GMod*> mods;
        list(root_, mods);
        for (const GMod* m : mods)
        {
            count += m->has(n);
        }
        return count == 1;
    }

    // every name in a definition stands for the same, be it looked up from its module or taken from the root
    bool clear(const GMod& m, const Sym& s) const
    {
        std::set<std::string> names;
        mentions(*s.def, !s.constant, names);
        for (auto& n : names)
        {
            Ref t = target(root_, n);
            if (!t.mod)
            {
                return false;
            }
            if (n.find("::") == std::string::npos && t.mod->outer)       // given before the type had a module
            {
                if (!unique(n))
                {
                    return false;
                }
            }
            else if (!(look(m, n) == t))
            {
                return false;
            }
        }
        return true;
    }

    bool all_clear() const
    {
        for (auto& n : bare_)
        {
            if (!unique(n))
            {
                return false;
            }
        }
        std::vector<const GMod*> mods;
        list(root_, mods);
        for (const GMod* m : mods)
        {
            for (auto& s : m->syms)
            {
                if (!clear(*m, s.second))
                {
                    return false;
                }
            }
        }
        return true;
    }

    // Modules that need each other have no order. (A module is never closed and opened again.)
    bool circular() const
    {
        std::vector<const GMod*> mods;
        list(root_, mods);
        std::map<const GMod*, std::map<std::string, std::set<std::string>>> needs;   // per module, among what it holds
        for (const GMod* m : mods)
        {
            for (auto& s : m->syms)
            {
                std::set<std::string> names;
                mentions(*s.second.def, !s.second.constant, names);
                for (auto& n : names)
                {
                    Ref t = target(root_, n);
                    const GMod* a = m;
                    const GMod* b = t.mod;
                    std::string x = s.first, y = t.name;
                    auto up = [](const GMod*& g, std::string& z) { z = "/" + g->name; g = g->outer; };
                    while (a->depth() > b->depth())
                    {
                        up(a, x);
                    }
                    while (b->depth() > a->depth())
                    {
                        up(b, y);
                    }
                    while (a != b)
                    {
                        up(a, x);
                        up(b, y);
                    }
                    if (x != y)
                    {
                        needs[a][x].insert(y);
                    }
                }
            }
        }
        for (auto& p : needs)
        {
            std::map<std::string, int> color;
            std::function<bool(const std::string&)> visit = [&](const std::string& x)
                    {
                        int& c = color[x];
                        if (c)
                        {
                            return c == 1;
                        }
                        c = 1;
                        for (auto& y : p.second[x])
                        {
                            if (visit(y))
                            {
                                return true;
                            }
                        }
                        color[x] = 2;
                        return false;
                    };
            std::vector<std::string> keys;
            for (auto& q : p.second)
            {
                keys.push_back(q.first);
            }
            for (auto& q : keys)
            {
                if (visit(q))
                {
                    return true;
                }
            }
        }
        return false;
    }

    bool mentioned(const GMod& m, const std::string& n) const
    {
        std::vector<const GMod*> mods;
        list(root_, mods);
        for (const GMod* x : mods)
        {
            for (auto& s : x->syms)
            {
                std::set<std::string> names;
                mentions(*s.second.def, !s.second.constant, names);
                for (auto& t : names)
                {
                    if (target(root_, t) == Ref{&m, n})
                    {
                        return true;
                    }
                }
            }
        }
        return false;
    }

    bool mentions_itself(const GMod& m, const std::string& n) const
    {
        std::set<std::string> names;
        mentions(*m.syms.at(n).def, true, names);
        for (auto& t : names)
        {
            if (target(root_, t) == Ref{&m, n})
            {
                return true;
            }
        }
        return false;
    }

    bool acceptable(Rng& r)
    {
        if (!all_clear())
        {
            return false;
        }
        bool now = circular();
        if (now && !circular_ && !r.chance(1, 12))
        {
            return false;
        }
        circular_ = now;
        return true;
    }

    // ------------------------------------------------------------------------------------------------- definitions
    std::string fresh(const char* prefix) { return prefix + std::to_string(serial_++); }

    MTP mention(Rng& r, const GMod& m, const std::function<bool(const MT&)>& want)
    {
        std::vector<const GMod*> mods;
        list(root_, mods);
        std::vector<Ref> all;
        for (const GMod* x : mods)
        {
            for (auto& s : x->syms)
            {
                if (!s.second.constant && want(*s.second.def))
                {
                    all.push_back({x, s.first});
                }
            }
        }
        if (all.empty())
        {
            return nullptr;
        }
        Ref t = all[r.below(all.size())];
        if (r.chance(1, 2))                                       // often something near
        {
            for (auto& x : all)
            {
                if (x.mod == &m && r.chance(1, 2))
                {
                    t = x;
                }
            }
        }
        auto out = std::make_shared<MT>(*t.mod->syms.at(t.name).def);
        out->name = t.path();
        if (t.mod->outer && unique(t.name) && r.chance(1, 5))
        {
            out->name = t.name;
            bare_.insert(t.name);
            rt::probe("mention without scope");
        }
        else if (!(look(m, out->name) == t) || r.chance(1, 8))
        {
            out->name = "::" + t.path();
            rt::probe("absolute mention");
        }
        else
        {
            rt::probe(t.mod == &m ? "mention in the same module" : "mention in another module");
        }
        return out;
    }

    MTP text_type(Rng& r)
    {
        auto t = std::make_shared<MT>();
        static const K kinds[] = {K::STR, K::STR, K::WSTR, K::STR16};
        t->k = kinds[r.below(4)];
        t->bound = r.chance(1, 2) ? 0 : uint32_t(1 + r.below(300));
        t->name = t->k == K::STR ? "std::string" : t->k == K::WSTR ? "std::wstring" : "std::u16string";
        t->name += t->bound ? "_" + std::to_string(t->bound) : "";
        return t;
    }

    MTP part(Rng& r, const GMod& m, int depth)
    {
        if (r.chance(2, 5))
        {
            if (MTP t = mention(r, m, [](const MT&) { return true; }))
            {
                return t;
            }
        }
        u64 w = r.below(10);
        if (depth > 0 && w < 2)
        {
            auto t = std::make_shared<MT>();
            t->k = K::SEQ;
            t->bound = r.chance(1, 2) ? 0 : uint32_t(1 + r.below(5));
            t->elem = part(r, m, depth - 1);
            return t;
        }
        if (depth > 0 && w < 3)
        {
            auto t = std::make_shared<MT>();
            t->k = K::MAP;
            t->bound = r.chance(1, 2) ? 0 : uint32_t(1 + r.below(5));
            if (r.chance(1, 3))
            {
                t->key = mention(r, m, [](const MT& x) { return x.k == K::ENUM; });
            }
            if (!t->key)
            {
                t->key = r.chance(1, 2) ? text_type(r) : mprim(r.chance(1, 2) ? K::I32 : K::U8);
            }
            t->elem = part(r, m, depth - 1);
            return t;
        }
        return w < 5 ? text_type(r) : mprim(K(r.below(PRIMS)));
    }

    MTP member_type(Rng& r, const GMod& m)
    {
        MTP t = part(r, m, 2);
        if (r.chance(1, 5) && weight(*t) < 20)
        {
            for (int i = 0, n = int(r.range(1, 3)); i < n; ++i)
            {
                auto a = std::make_shared<MT>();
                a->k = K::ARRAY;
                a->bound = uint32_t(r.range(1, 3));
                a->elem = t;
                t = a;
            }
        }
        return t;
    }

    static void name_parts(MT& t)                     // what the library calls what has no name
    {
        for (MTP* p : {&t.elem, &t.key, &t.disc})
        {
            if (*p && !named(**p))
            {
                auto c = std::make_shared<MT>(**p);
                name_parts(*c);
                *p = c;
            }
        }
        for (auto& m : t.mem)
        {
            if (!named(*m.type))
            {
                auto c = std::make_shared<MT>(*m.type);
                name_parts(*c);
                m.type = c;
            }
        }
        std::string bound = t.bound ? std::to_string(t.bound) + "_" : "";
        switch (t.k)
        {
            case K::SEQ: t.name = "sequence_" + bound + t.elem->name; break;
            case K::ARRAY: t.name = "array_" + bound + t.elem->name; break;
            case K::MAP: t.name = "map_" + bound + "pair_" + t.key->name + "_" + t.elem->name; break;
            default: break;
        }
    }

    int64_t some_label(Rng& r, const MT& disc)
    {
        const MT& d = res(disc);
        static const uint16_t wide[] = {'a', 'Z', '0', ' ', 0xE9, 0x3A9, 0x20AC, 0x4E2D, 0xFFFD, '\\', '\'', '"', '\n', 27, 127, 31};
        switch (d.k)
        {
            case K::C8:
            {
                static const char plain[] = "abcXYZ019 +;:{}<>,#.\\'\"\n\t\x01\x1f\r?";
                return plain[r.below(sizeof(plain) - 1)];
            }
            case K::C16:
            case K::WC: return wide[r.below(16)];
            default: return gen_label(r, disc);
        }
    }

    MTP define(Rng& r, const GMod& m, K kind, const std::string& n)
    {
        auto t = std::make_shared<MT>();
        t->k = kind;
        t->name = n;
        switch (kind)
        {
            case K::STRUCT:
            {
                if (r.chance(1, 4))
                {
                    t->parent = mention(r, m, [](const MT& x) { return x.k == K::STRUCT; });
                    if (t->parent)
                    {
                        t->mem = t->parent->mem;
                    }
                }
                for (int i = 0, c = int(r.below(4)); i < c; ++i)
                {
                    MMember x;
                    x.name = fresh("m");
                    x.type = member_type(r, m);
                    t->mem.push_back(x);
                }
                break;
            }
            case K::UNION:
            {
                if (r.chance(1, 3))
                {
                    t->disc = mention(r, m, [](const MT& x) { return res(x).k == K::ENUM; });
                }
                else if (r.chance(1, 3))
                {
                    t->disc = mention(r, m, [](const MT& x)
                                    {
                                        K k = res(x).k;
                                        return x.k == K::ALIAS && is_prim(k) && k != K::F32 && k != K::F64 && k != K::F128;
                                    });
                }
                if (!t->disc)
                {
                    static const K kinds[] = {K::BOOL, K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::C8,
                                              K::C16, K::WC, K::I32};
                    t->disc = mprim(kinds[r.below(13)]);
                }
                std::set<int64_t> used;
                for (int i = 0, c = 1 + int(r.below(3)); i < c; ++i)
                {
                    std::vector<int64_t> labels;
                    for (int j = 0, k = int(r.below(3)); j < k; ++j)
                    {
                        int64_t l = shrink(some_label(r, *t->disc), *t->disc);
                        if (label_allowed(*t->disc, l) && used.insert(l).second)
                        {
                            labels.push_back(l);
                        }
                    }
                    bool def = t->def < 0 && (labels.empty() || r.chance(1, 5));
                    if (labels.empty() && !def)
                    {
                        continue;
                    }
                    for (int64_t l : labels)
                    {
                        t->labels.push_back({l, int(t->mem.size())});
                    }
                    t->def = def ? int(t->mem.size()) : t->def;
                    MMember x;
                    x.name = fresh("c");
                    x.type = member_type(r, m);
                    t->mem.push_back(x);
                }
                std::sort(t->labels.begin(), t->labels.end());
                break;
            }
            case K::ENUM:
            {
                t->width = 4;
                u64 v = r.chance(1, 3) ? r.below(4) : 0;
                for (int i = 0, c = 1 + int(r.below(4)); i < c; ++i)
                {
                    t->en.push_back({fresh(r.chance(1, 2) ? "e" : "Z"), v});
                    t->next = v + 1;
                    v += r.chance(1, 3) ? 1 + r.below(9) : 1;
                }
                break;
            }
            default:
                t->elem = member_type(r, m);
        }
        name_parts(*t);
        return t;
    }

    bool put(idl::Module& real, const MTP& def, bool replace, bool moved)
    {
        RealT t = build(*def);
        switch (def->k)
        {
            case K::STRUCT:
                return moved || replace ? real.structure(std::move(t.as<xt::StructType>()), replace)
                                        : real.structure(t.as<xt::StructType>());
            case K::UNION:
                return moved || replace ? real.union_switch(std::move(t.as<xt::UnionType>()), replace)
                                        : real.union_switch(t.as<xt::UnionType>());
            case K::ENUM: return real.enum_32(std::move(t.as<xt::EnumerationType<uint32_t>>()), replace);
            default: return moved ? real.add_alias(std::move(t.as<xt::AliasType>())) : real.add_alias(t.as<xt::AliasType>());
        }
    }

    // ------------------------------------------------------------------------------------------------- operations
    void g_sub(const Op& op, Rng& r)
    {
        GMod& m = pick(op.a);
        std::string n = alphabet[op.b % NAMES];
        std::vector<const GMod*> all;
        list(root_, all);
        if (m.has(n) || all.size() >= MAX_MODULES)
        {
            return;
        }
        auto child = std::make_unique<GMod>();
        child->outer = &m;
        child->name = n;
        m.inner[n] = std::move(child);
        if (!acceptable(r))
        {
            m.inner.erase(n);
            return;
        }
        real_of(m).create_submodule(n);
        ++stats.ops_ok;
    }

    void add(const Op& op, Rng& r, K kind)
    {
        GMod& m = pick(op.a);
        std::string n = alphabet[op.b % NAMES];
        if (m.has(n))
        {
            return;
        }
        MTP def = define(r, m, kind, n);
        if (weight(*def) > 400)
        {
            return;
        }
        Sym s;
        s.def = def;
        m.syms[n] = s;
        std::vector<std::string> extra;
        if (kind == K::ENUM && r.chance(1, 2))        // as the parser does
        {
            for (auto& e : def->en)
            {
                Sym k;
                k.constant = k.hidden = true;
                auto type = std::make_shared<MT>(*def);
                type->name = m.scoped(n);
                if (!(look(m, type->name) == Ref{&m, n}))
                {
                    type->name = "::" + type->name;
                }
                k.def = type;
                k.value.bits = e.second;
                m.syms[e.first] = k;
                extra.push_back(e.first);
            }
        }
        if (!acceptable(r))
        {
            m.syms.erase(n);
            for (auto& e : extra)
            {
                m.syms.erase(e);
            }
            return;
        }
        idl::Module& real = real_of(m);
        if (!put(real, def, false, op.c & 1))
        {
            fail("idl", "registering " + n + " in '" + m.scope() + "' was refused");
        }
        for (auto& e : extra)
        {
            Rng x(3);
            real.create_constant(e, *make(*m.syms[e].def, m.syms[e].value, x), false, true);
        }
        ++stats.ops_ok;
        note(m, n);
    }

    void note(const GMod& m, const std::string& n)
    {
        rt::note("        " + m.scoped(n) + " is " + canon_def(m.syms.at(n), [](const std::string& x) { return x; }));
    }

    static bool plain(char32_t c) { return c != 0; }

    void g_const(const Op& op, Rng& r)
    {
        GMod& m = pick(op.a);
        std::string n = alphabet[op.b % NAMES];
        if (m.has(n))
        {
            return;
        }
        Sym s;
        s.constant = true;
        u64 w = r.below(8);
        MTP t = w < 2 ? mention(r, m, [](const MT& x)
                        {
                            const MT& y = res(x);
                            return y.k == K::ENUM || is_prim(y.k) || is_str(y.k);
                        }) : w < 4 ? text_type(r) : nullptr;
        t = t ? t : mprim(K(r.below(PRIMS)));
        s.def = t;
        const MT& v = res(*t);
        s.value = gen_val(r, *t);
        switch (v.k)
        {
            case K::C8: s.value.bits = u64(u64(some_label(r, v))); break;
            case K::C16:
            case K::WC: s.value.bits = u64(some_label(r, v)); break;
            case K::F32:
            case K::F64:
            case K::F128:
            {
                double d;
                memcpy(&d, &s.value.bits, sizeof(d));
                if (!std::isfinite(d) || !std::isfinite(float(d)) || d == 0)
                {
                    d = 0;
                }
                memcpy(&s.value.bits, &d, sizeof(d));
                break;
            }
            case K::STR:
            case K::WSTR:
            case K::STR16:
                s.value.str.erase(std::remove_if(s.value.str.begin(), s.value.str.end(), [](char32_t c) { return !plain(c); }),
                        s.value.str.end());
                for (int i = 0; i < 2 && r.chance(1, 3); ++i)
                {
                    static const char odd[] = "\"'\\\n\r\t\a\b\f\v\x01\x7f\x1b?017nx";
                    if (!v.bound || s.value.str.size() < v.bound)
                    {
                        s.value.str.insert(size_t(r.below(s.value.str.size() + 1)), 1, char32_t(odd[r.below(sizeof(odd) - 1)]));
                    }
                }
                if (v.k != K::STR && !has_text(v, s.value))
                {
                    s.value.str = U"\x3A9z";
                    if (v.bound == 1)
                    {
                        s.value.str = U"z";
                    }
                }
                break;
            default: break;
        }
        m.syms[n] = s;
        if (!acceptable(r))
        {
            m.syms.erase(n);
            return;
        }
        auto data = make(*t, s.value, r);
        if (!real_of(m).create_constant(n, *data, op.c & 1))
        {
            fail("idl", "creating constant " + n + " in '" + m.scope() + "' was refused");
        }
        // a constant forgets aliases
        m.syms[n].def = res(t);
        ++stats.ops_ok;
        note(m, n);
    }

    // one of the definitions nobody mentions
    bool pick_free(const Op& op, GMod*& m, std::string& n)
    {
        m = &pick(op.a);
        std::vector<std::string> names;
        for (auto& s : m->syms)
        {
            if (!s.second.constant && s.second.def->k != K::ALIAS && !mentioned(*m, s.first))
            {
                names.push_back(s.first);
            }
        }
        if (names.empty())
        {
            return false;
        }
        n = names[op.b % names.size()];
        return true;
    }

    void g_grow(const Op& op, Rng& r)
    {
        GMod* m;
        std::string n;
        if (!pick_free(op, m, n))
        {
            return;
        }
        MTP before = m->syms[n].def;
        auto grown = std::make_shared<MT>(*before);
        MMember x;
        int64_t label = 0;
        if (before->k == K::ENUM)
        {
            grown->en.push_back({fresh("e"), grown->next});
            ++grown->next;
        }
        else
        {
            x.name = fresh("g");
            auto holder = std::make_shared<MT>();
            x.type = member_type(r, *m);
            holder->k = K::STRUCT;
            holder->mem.push_back(x);
            name_parts(*holder);
            x = holder->mem[0];
            if (before->k == K::UNION)
            {
                label = shrink(some_label(r, *before->disc), *before->disc);
                for (auto& l : before->labels)
                {
                    if (l.first == label)
                    {
                        return;
                    }
                }
                if (!label_allowed(*before->disc, label))
                {
                    return;
                }
                grown->labels.push_back({label, int(grown->mem.size())});
                std::sort(grown->labels.begin(), grown->labels.end());
            }
            grown->mem.push_back(x);
        }
        if (weight(*grown) > 400)
        {
            return;
        }
        m->syms[n].def = grown;
        if (mentions_itself(*m, n) || !acceptable(r))
        {
            m->syms[n].def = before;
            return;
        }
        idl::Module& real = real_of(*m);
        if (before->k == K::ENUM)
        {
            real.enum_32(n).add_enumerator(grown->en.back().first);
        }
        else
        {
            RealT t = build(*x.type);
            if (before->k == K::STRUCT)
            {
                real.structure(n).add_member(x.name, *t);
            }
            else
            {
                real.union_switch(n).add_case_member(std::vector<int64_t>{label}, xt::Member(x.name, *t));
            }
        }
        ++stats.ops_ok;
        rt::probe("grown");
        note(*m, n);
    }

    void g_replace(const Op& op, Rng& r)
    {
        GMod* m;
        std::string n;
        if (!pick_free(op, m, n))
        {
            return;
        }
        MTP before = m->syms[n].def;
        m->syms[n].def = define(r, *m, before->k, n);
        if (weight(*m->syms[n].def) > 400 || mentions_itself(*m, n) || !acceptable(r))
        {
            m->syms[n].def = before;
            return;
        }
        if (!put(real_of(*m), m->syms[n].def, true, true))
        {
            fail("idl", "replacing " + n + " in '" + m->scope() + "' was refused");
        }
        ++stats.ops_ok;
        rt::probe("replaced");
        note(*m, n);
    }

    // generation under the faults of `op`; the text is that of an undisturbed one
    template<class F>
    std::string generate(const Op& op, Rng& r, F&& lib)
    {
        std::string text;
        Call c = call(rt::Fault{}, [&]() { text = lib(); });
        u64 work = rt::armed_count();
        trace_work();
        if (c.res != Res::OK)
        {
            fail("outcome", "generating IDL failed: " + c.what);
        }
        if (op.f.kind != FK::NONE)
        {
            bool sweep = op.f.kind == FK::SWEEP;
            u64 tries = sweep ? std::min<u64>(work, 60) : 4;
            for (u64 i = 0; i < tries; ++i)
            {
                u64 n = sweep ? work * i / tries + 1 : 1 + rt::mix64(op.f.n + i * 77) % work;
                std::string part;
                c = call(rt::Fault{sweep ? FK::NTH : op.f.kind, n}, [&]() { part = lib(); });
                trace_work();
                if (c.res == Res::NOMEM)
                {
                    ++stats.nomem;
                }
                else if (c.res != Res::OK)
                {
                    fail("outcome", "generating IDL " + (c.what.empty() ? "failed" : "failed: " + c.what) + " (after a fault)");
                }
                stats.retries += c.fired;
            }
        }
        std::string again;
        c = call(rt::Fault{}, [&]() { again = lib(); });
        if (c.res != Res::OK || again != text)
        {
            fail("repeat", "generating the same IDL again gives something else:\n" + text + "\nand then:\n" + again);
        }
        for (char ch : text)
        {
            rt::trace_num(uint8_t(ch));
        }
        rt::probe("generated");
        return text;
    }

    void compare(const GMod& m, const RMod& got, const Reader& reader, const std::string& text)
    {
        ++stats.checks;
        std::string where = "module '" + m.scope() + "'";
        auto bad = [&](const std::string& what) { fail("idl", what + " in " + where + ":\n" + text); };
        Namer namer = [&](const std::string& n) { return "<" + target(root_, n).path() + ">"; };
        for (auto& s : m.syms)
        {
            auto it = got.defs.find(s.first);
            if (s.second.hidden)
            {
                continue;
            }
            if (it == got.defs.end())
            {
                bad("no definition of " + s.first);
            }
            std::string want = canon_def(s.second, namer), have;
            const std::string& raw = it->second.text;
            for (size_t i = 0; i < raw.size(); ++i)
            {
                if (raw[i] != '\1')
                {
                    have += raw[i];
                    continue;
                }
                size_t e = raw.find('\2', i);
                const Mention& x = reader.all[size_t(atoi(raw.substr(i + 1).c_str()))];
                RFound f = r_look(x);
                have += "<" + (f.def ? f.path : "?" + x.text) + ">";
                if (f.def && !circular_ && f.def->end > x.at)
                {
                    bad("the definition of " + s.first + " comes before that of " + f.path + ", which it mentions");
                }
                i = e;
            }
            if (have != want)
            {
                bad(s.first + " is generated as\n  " + have + "\nand not as\n  " + want + "\n");
            }
            if (!it->second.number.empty())
            {
                double d;
                memcpy(&d, &s.second.value.bits, sizeof(d));
                const char* n = it->second.number.c_str();
                K k = res(*s.second.def).k;
                bool same = k == K::F32 ? strtof(n, nullptr) == float(d) : k == K::F64 ? strtod(n, nullptr) == d
                        : strtold(n, nullptr) == (long double)(d);
                if (!same)
                {
                    bad("constant " + s.first + " is generated as " + n + ", its value is " + std::to_string(d));
                }
            }
        }
        for (auto& d : got.defs)
        {
            if (!m.syms.count(d.first) || m.syms.at(d.first).hidden)
            {
                bad("a definition of " + d.first + ", which doesn't exist,");
            }
        }
        for (auto& i : m.inner)
        {
            auto it = got.inner.find(i.first);
            if (it == got.inner.end())
            {
                bad("no module " + i.first);
            }
            compare(*i.second, *it->second, reader, text);
        }
        for (auto& i : got.inner)
        {
            if (!m.inner.count(i.first))
            {
                bad("a module " + i.first + ", which doesn't exist,");
            }
        }
    }

    void g_gen(const Op& op, Rng& r, const GMod& m)
    {
        if (m.outer)                                   // a part that needs nothing from outside
        {
            std::vector<const GMod*> mods;
            list(m, mods);
            for (const GMod* x : mods)
            {
                for (auto& s : x->syms)
                {
                    std::set<std::string> names;
                    mentions(*s.second.def, !s.second.constant, names);
                    for (auto& n : names)
                    {
                        if (std::find(mods.begin(), mods.end(), target(root_, n).mod) == mods.end())
                        {
                            return;
                        }
                    }
                }
            }
            rt::probe("a part generated");
        }
        const idl::Module& real = real_of(m);
        using Parts = std::map<std::string, std::string>;
        Parts parts;
        const bool by_part = r.chance(1, 3);
        std::string text = generate(op, r, [&]()
                {
                    if (!by_part)
                    {
                        return idl::generator::module(real);
                    }
                    Parts now;
                    std::string whole = idl::generator::module(real, &now);
                    parts.swap(now);
                    return whole;
                });
        if (rt::trace_print)
        {
            rt::note(text);
        }
        std::vector<std::string> inside;
        for (const GMod* o = m.outer; o && o->outer; o = o->outer)
        {
            inside.insert(inside.begin(), o->name);
        }
        Reader reader(text, inside);
        const RMod* got = &reader.root;
        for (auto& n : inside)
        {
            got = got->inner.at(n).get();
        }
        if (m.outer)
        {
            if (got->inner.size() != 1 || !got->inner.count(m.name) || !got->defs.empty())
            {
                fail("idl", "the IDL of module '" + m.scope() + "' isn't just that:\n" + text);
            }
            got = got->inner.at(m.name).get();
        }
        compare(m, *got, reader, text);
        if (by_part)
        {
            rt::probe("generated by parts");
            size_t seen = compare_parts(m, *got, reader, inside, parts);
            if (seen != parts.size())
            {
                fail("idl", "IDL is generated for " + std::to_string(parts.size()) + " parts instead of " + std::to_string(seen));
            }
        }
    }

    static std::string expand(const std::string& raw, const Reader& reader)
    {
        std::string out;
        for (size_t i = 0; i < raw.size(); ++i)
        {
            if (raw[i] == '\1')
            {
                out += "<" + reader.all[size_t(atoi(raw.substr(i + 1).c_str()))].text + ">";
                i = raw.find('\2', i);
            }
            else
            {
                out += raw[i];
            }
        }
        return out;
    }

    static size_t count_defs(const RMod& m)
    {
        size_t n = m.defs.size();
        for (auto& i : m.inner)
        {
            n += count_defs(*i.second);
        }
        return n;
    }

    // The IDL of each definition on its own is the one it has in the whole, in its modules. Returns how many are right.
    size_t compare_parts(const GMod& m, const RMod& whole, const Reader& reader, const std::vector<std::string>& inside,
            const std::map<std::string, std::string>& parts)
    {
        size_t n = 0;
        for (auto& s : m.syms)
        {
            if (s.second.hidden)
            {
                continue;
            }
            std::string name = m.scoped(s.first);
            auto it = parts.find(name);
            if (it == parts.end())
            {
                fail("idl", "no part with the IDL of " + name);
            }
            ++n;
            ++stats.checks;
            Reader one(it->second, inside);
            const RMod* at = &one.root;
            std::vector<std::string> scopes = split(name);
            scopes.pop_back();
            for (auto& x : scopes)
            {
                auto in = at->inner.find(x);
                at = in == at->inner.end() ? nullptr : in->second.get();
                if (!at)
                {
                    break;
                }
            }
            const RDef& want = whole.defs.at(s.first);
            auto have = at ? at->defs.find(s.first) : one.root.defs.end();
            if (!at || have == at->defs.end() || count_defs(one.root) != 1 || have->second.number != want.number
                    || expand(have->second.text, one) != expand(want.text, reader))
            {
                fail("idl", "the IDL of " + name + " on its own isn't that it has in its module:\n" + it->second);
            }
            std::string deps;
            const MT& t = *s.second.def;
            for (size_t i = t.parent ? t.parent->mem.size() : 0; !s.second.constant && t.k == K::STRUCT && i < t.mem.size(); ++i)
            {
                if (t.mem[i].type->k == K::STRUCT)
                {
                    deps += (deps.empty() ? "" : ",") + target(root_, t.mem[i].type->name).path();
                }
            }
            auto dit = parts.find(name + ":dependencies");
            std::string got;
            for (size_t b = 0; dit != parts.end() && b <= dit->second.size(); )
            {
                size_t e = std::min(dit->second.find(',', b), dit->second.size());
                Ref f = target(root_, dit->second.substr(b, e - b));
                got += (got.empty() ? "" : ",") + (f.mod ? f.path() : "?" + dit->second.substr(b, e - b));
                b = e + 1;
            }
            if (got != deps)
            {
                fail("idl", "the structures that " + name + " needs are given as '" + got + "' and not as '" + deps + "'");
            }
            n += dit != parts.end();
        }
        for (auto& i : m.inner)
        {
            n += compare_parts(*i.second, *whole.inner.at(i.first), reader, inside, parts);
        }
        return n;
    }

    // a structure without its module
    void g_one(const Op& op, Rng& r)
    {
        GMod& m = pick(op.a);
        const bool is_enum = op.b % 4 == 0;
        MTP def = define(r, m, is_enum ? K::ENUM : K::STRUCT, "One");
        if (weight(*def) > 400)
        {
            return;
        }
        RealT t = build(*def);
        std::string text = generate(op, r, [&]()
                {
                    return is_enum ? idl::generator::enumeration32("One", t.as<xt::EnumerationType<uint32_t>>())
                           : idl::generator::structure("One", t.as<xt::StructType>());
                });
        Reader reader(text, {});
        auto it = reader.root.defs.find("One");
        if (it == reader.root.defs.end() || reader.root.defs.size() != 1)
        {
            fail("idl", "the IDL of a type defines something else:\n" + text);
        }
        std::string have;
        const std::string& raw = it->second.text;
        for (size_t i = 0; i < raw.size(); ++i)
        {
            if (raw[i] == '\1')
            {
                have += reader.all[size_t(atoi(raw.substr(i + 1).c_str()))].text;
                i = raw.find('\2', i);
            }
            else
            {
                have += raw[i];
            }
        }
        Sym sym;
        sym.def = def;
        std::string want = canon_def(sym, [](const std::string& n) { return n; });
        if (have != want)
        {
            fail("idl", "a type is generated as\n  " + have + "\nand not as\n  " + want + "\n" + text);
        }
    }
};

std::vector<Op> generate(const std::string&, u64 seed)
{
    Rng r(rt::mix64(seed) ^ 0x1d1);
    int weights[NCODES], total = 0;
    for (int i = 0; i < NCODES; ++i)
    {
        weights[i] = i == G_STRUCT || i == G_ALL || r.chance(4, 5) ? code_weights[i] : 0;
        total += weights[i];
    }
    int mode = int(r.below(10));
    mode = mode < 5 ? 0 : mode < 9 ? 1 : 2;
    std::vector<Op> ops;
    int n = int(r.range(6, 40));
    for (int i = 0; i < n; ++i)
    {
        Op op;
        int pick = int(r.below(u64(total)));
        for (int c = 0; c < NCODES; ++c)
        {
            pick -= weights[c];
            if (pick < 0)
            {
                op.code = c;
                break;
            }
        }
        op.a = uint32_t(r.below(24));
        op.b = uint32_t(r.below(40));
        op.c = uint32_t(r.below(10000));
        op.d = uint32_t(r.below(64));
        if (op.code >= G_ALL && mode == 1)
        {
            op.f.kind = r.chance(1, 3) ? FK::FROM : FK::NTH;
            op.f.n = 1 + r.below(1000);
        }
        else if (op.code >= G_ALL && mode == 2)
        {
            op.f.kind = FK::SWEEP;
            op.f.n = 60;
        }
        ops.push_back(op);
    }
    return ops;
}

RegisterWorld reg("C14", WorldKind{
    "gen", std::vector<const char*>(code_names, code_names + NCODES),
    [](const std::string&) -> std::unique_ptr<World> { return std::make_unique<GenWorld>(); }, generate});

} // namespace

} // namespace sim
