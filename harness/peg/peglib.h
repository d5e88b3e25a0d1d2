// Stand-in for cpp-peglib, which is not installed here and cannot be downloaded: the part of its interface that
// xtypes/idl/parser.hpp uses, with the meaning cpp-peglib documents. It interprets the grammar text given to it,
// so the library's own grammar decides what is a document and what tree it has.
// With PEG_APART the engine itself is compiled in a unit of its own (peg.cpp).
#pragma once

#ifndef PEG_INLINE
#define PEG_INLINE inline
#endif

// what cpp-peglib includes too, as its users may count on that
#include <algorithm>
#include <any>
#include <cassert>
#include <cctype>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace peg {

inline constexpr unsigned int str2tag_core(const char* s, size_t l, unsigned int h)
{
    return l == 0 ? h : str2tag_core(s + 1, l - 1, (h * 33) ^ static_cast<unsigned char>(*s));
}

inline constexpr unsigned int str2tag(std::string_view s)
{
    return str2tag_core(s.data(), s.size(), 0);
}

namespace udl {
inline constexpr unsigned int operator "" _(const char* s, size_t l)
{
    return str2tag_core(s, l, 0);
}
} // namespace udl

struct EmptyType
{
};

template<typename Annotation>
struct AstBase : public Annotation
{
    std::string path;
    size_t line = 1;
    size_t column = 1;
    std::string name;
    size_t position = 0;
    size_t length = 0;
    std::string original_name;
    unsigned int tag = 0;
    unsigned int original_tag = 0;
    bool is_token = false;
    std::string_view token;
    std::vector<std::shared_ptr<AstBase<Annotation>>> nodes;
    std::weak_ptr<AstBase<Annotation>> parent;

    std::string token_to_string() const
    {
        return std::string(token);
    }

    template<typename T>
    T token_to_number() const
    {
        std::istringstream in{token_to_string()};
        T v{};
        in >> v;
        return v;
    }
};

template<typename T>
std::string ast_to_s(const std::shared_ptr<T>& ast, int level = 0)
{
    std::string s(size_t(level) * 2, ' ');
    s += ast->is_token ? "- " + ast->name + " (" + std::string(ast->token) + ")\n" : "+ " + ast->name + "\n";
    for (auto& n : ast->nodes)
    {
        s += ast_to_s(n, level + 1);
    }
    return s;
}

using Logger = std::function<void (size_t, size_t, const std::string&)>;

class Definition;
using Grammar = std::map<std::string, Definition>;
using Node = std::shared_ptr<AstBase<EmptyType>>;

namespace detail {

enum class Op
{
    LITERAL,
    CLASS,
    ANY,
    SEQUENCE,
    CHOICE,
    REPEAT,
    AND,
    NOT,
    TOKEN,
    IGNORE,
    RULE
};

struct Expr
{
    Op op = Op::SEQUENCE;
    std::string text;                                   // LITERAL, RULE
    std::vector<std::pair<unsigned char, unsigned char>> set; // CLASS
    bool negated = false;
    size_t min = 0;
    size_t max = 0;                                     // REPEAT: 0 is no limit
    std::vector<std::shared_ptr<Expr>> sub;
    const Definition* rule = nullptr;
};

struct Values
{
    std::vector<Node> nodes;
    std::vector<std::string_view> tokens;
};

struct Memo
{
    const Definition* rule = nullptr;                   // none: free
    size_t begin = 0;
    size_t end = 0;
    bool ok = false;
    Node node;
};

// Under the simulated scheduler every word of a block costs: the engine's table is not what is looked at.
#ifdef SIM_CONC
template<typename T>
struct Plain
{
    using value_type = T;
    Plain() = default;
    template<typename U> Plain(const Plain<U>&) {}
    T* allocate(size_t n)
    {
        void* p = std::malloc(n * sizeof(T));
        if (!p)
        {
            throw std::bad_alloc();
        }
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t) { std::free(p); }
    bool operator ==(const Plain&) const { return true; }
    bool operator !=(const Plain&) const { return false; }
};
using Table = std::vector<Memo, Plain<Memo>>;
#else
using Table = std::vector<Memo>;
#endif

// What is known of a rule at a place.
class Memory
{
public:
    Memo* find(const Definition* rule, size_t begin)
    {
        return table_.empty() ? nullptr : known(slot(rule, begin));
    }

    void add(Memo&& m)
    {
        if ((used_ + 1) * 2 > table_.size())
        {
            Table old(table_.empty() ? 1024 : table_.size() * 2);
            old.swap(table_);
            for (Memo& o : old)
            {
                if (o.rule)
                {
                    Memo& to = slot(o.rule, o.begin);
                    to = std::move(o);
                }
            }
        }
        Memo& to = slot(m.rule, m.begin);
        used_ += to.rule == nullptr;
        to = std::move(m);
    }

private:
    Table table_;
    size_t used_ = 0;

    static Memo* known(Memo& m) { return m.rule ? &m : nullptr; }

    Memo& slot(const Definition* rule, size_t begin)
    {
        size_t h = (number(rule) * 0x9E3779B97F4A7C15ULL + begin) * 0xBF58476D1CE4E5B9ULL;
        size_t i = (h ^ (h >> 29)) & (table_.size() - 1);
        while (table_[i].rule && (table_[i].rule != rule || table_[i].begin != begin))
        {
            i = (i + 1) & (table_.size() - 1);
        }
        return table_[i];
    }

    static size_t number(const Definition* rule);
};

struct State
{
    const char* s = nullptr;
    size_t n = 0;
    bool want_ast = false;
    size_t furthest = 0;
    Memory memo;
    std::vector<size_t> lines;      // where each line begins

    std::pair<size_t, size_t> where(size_t pos)
    {
        if (lines.empty())
        {
            lines.push_back(0);
            for (size_t i = 0; i < n; ++i)
            {
                if (s[i] == '\n')
                {
                    lines.push_back(i + 1);
                }
            }
        }
        size_t line = size_t(std::upper_bound(lines.begin(), lines.end(), pos) - lines.begin());
        return {line, pos - lines[line - 1] + 1};
    }
};

} // namespace detail

class Definition
{
public:
    struct Result
    {
        bool ret = false;
        bool recovered = false;
        size_t len = 0;
    };

    std::string name;
    bool ignore = false;
    bool token_rule = false;
    unsigned int tag = 0;
    size_t number = 0;
    std::shared_ptr<detail::Expr> body;

    Result parse(const char* s, const char* = nullptr) const
    {
        return parse(s, std::strlen(s));
    }

    Result parse(const char* s, size_t n, const char* = nullptr) const;

    // The tree of a whole text, or where it went wrong.
    bool parse_all(const char* s, size_t n, bool want_ast, Node& node, std::pair<size_t, size_t>& at) const;

    bool run(detail::State& st, size_t& pos, Node& node) const;

private:

    static bool match(const detail::Expr& e, detail::State& st, size_t& pos, detail::Values& out);
    static void append(detail::Values& to, detail::Values& from);
};

namespace detail {
PEG_INLINE std::string read_grammar(const char* text, Grammar& out);
} // namespace detail

#ifndef PEG_APART

PEG_INLINE size_t detail::Memory::number(const Definition* rule)
{
    return rule->number;
}

PEG_INLINE Definition::Result Definition::parse(const char* s, size_t n, const char*) const
{
    detail::State st;
    st.s = s;
    st.n = n;
    Result r;
    size_t pos = 0;
    Node node;
    r.ret = run(st, pos, node) && pos == n;
    r.len = pos;
    return r;
}

PEG_INLINE bool Definition::parse_all(const char* s, size_t n, bool want_ast, Node& node, std::pair<size_t, size_t>& at) const
{
    detail::State st;
    st.s = s;
    st.n = n;
    st.want_ast = want_ast;
    size_t pos = 0;
    bool ok = run(st, pos, node) && pos == n;
    if (!ok)
    {
        at = st.where(std::max(st.furthest, pos));
    }
    return ok;
}

PEG_INLINE bool Definition::run(detail::State& st, size_t& pos, Node& node) const
{
    if (const detail::Memo* m = st.memo.find(this, pos))
    {
        node = m->node;
        if (m->ok)
        {
            pos = m->end;
        }
        return m->ok;
    }
    size_t begin = pos;
    size_t end = pos;
    detail::Values values;
    bool ok = match(*body, st, end, values);
    Node made;
    if (ok && st.want_ast && !ignore)
    {
        made = std::make_shared<AstBase<EmptyType>>();
        auto at = st.where(begin);
        made->line = at.first;
        made->column = at.second;
        made->name = name;
        made->original_name = name;
        made->tag = tag;
        made->original_tag = tag;
        made->position = begin;
        made->length = end - begin;
        made->is_token = token_rule;
        if (token_rule)
        {
            made->token = values.tokens.empty() ? std::string_view(st.s + begin, end - begin) : values.tokens[0];
        }
        else
        {
            made->nodes = std::move(values.nodes);
            for (auto& child : made->nodes)
            {
                child->parent = made;
            }
        }
    }
    node = made;
    detail::Memo m;
    m.rule = this;
    m.begin = begin;
    m.end = end;
    m.ok = ok;
    m.node = std::move(made);
    st.memo.add(std::move(m));
    if (ok)
    {
        pos = end;
    }
    return ok;
}

PEG_INLINE bool Definition::match(const detail::Expr& e, detail::State& st, size_t& pos, detail::Values& out)
{
    using detail::Op;
    switch (e.op)
    {
        case Op::LITERAL:
            if (st.n - pos < e.text.size() || std::memcmp(st.s + pos, e.text.data(), e.text.size()) != 0)
            {
                st.furthest = std::max(st.furthest, pos);
                return false;
            }
            pos += e.text.size();
            return true;
        case Op::CLASS:
        case Op::ANY:
        {
            bool in = pos < st.n;
            if (in && e.op == Op::CLASS)
            {
                unsigned char c = static_cast<unsigned char>(st.s[pos]);
                bool found = std::any_of(e.set.begin(), e.set.end(), [&](const std::pair<unsigned char, unsigned char>& r)
                                {
                                    return r.first <= c && c <= r.second;
                                });
                in = found != e.negated;
            }
            if (!in)
            {
                st.furthest = std::max(st.furthest, pos);
                return false;
            }
            ++pos;
            return true;
        }
        case Op::SEQUENCE:
            for (auto& sub : e.sub)
            {
                if (!match(*sub, st, pos, out))
                {
                    return false;
                }
            }
            return true;
        case Op::CHOICE:
            for (auto& sub : e.sub)
            {
                detail::Values values;
                size_t p = pos;
                if (match(*sub, st, p, values))
                {
                    pos = p;
                    append(out, values);
                    return true;
                }
            }
            return false;
        case Op::REPEAT:
        {
            size_t count = 0;
            while (e.max == 0 || count < e.max)
            {
                detail::Values values;
                size_t p = pos;
                if (!match(*e.sub[0], st, p, values))
                {
                    break;
                }
                bool still = p == pos;
                pos = p;
                append(out, values);
                ++count;
                if (still)
                {
                    break;
                }
            }
            return count >= e.min;
        }
        case Op::AND:
        case Op::NOT:
        {
            detail::Values values;
            size_t p = pos;
            return match(*e.sub[0], st, p, values) == (e.op == Op::AND);
        }
        case Op::TOKEN:
        {
            size_t begin = pos;
            if (!match(*e.sub[0], st, pos, out))
            {
                return false;
            }
            out.tokens.push_back(std::string_view(st.s + begin, pos - begin));
            return true;
        }
        case Op::IGNORE:
        {
            detail::Values values;
            return match(*e.sub[0], st, pos, values);
        }
        case Op::RULE:
        {
            Node node;
            if (!e.rule->run(st, pos, node))
            {
                return false;
            }
            if (node && !e.rule->ignore)
            {
                out.nodes.push_back(node);
            }
            return true;
        }
    }
    return false;
}

PEG_INLINE void Definition::append(detail::Values& to, detail::Values& from)
{
    for (auto& node : from.nodes)
    {
        to.nodes.push_back(std::move(node));
    }
    to.tokens.insert(to.tokens.end(), from.tokens.begin(), from.tokens.end());
}

namespace detail {

// Reads the text of a grammar.
class Reader
{
public:
    explicit Reader(const char* text)
        : p_(text)
    {
    }

    // the name of the first rule
    std::string read(Grammar& out)
    {
        std::string first;
        blank();
        while (*p_)
        {
            bool ignore = take('~');
            std::string name = identifier();
            blank();
            expect('<');
            expect('-');
            blank();
            Definition& d = out[name];
            if (d.body)
            {
                error("rule defined twice: " + name);
            }
            d.name = name;
            d.tag = str2tag(name);
            d.number = out.size();
            d.ignore = ignore;
            d.body = choice();
            if (first.empty())
            {
                first = name;
            }
        }
        for (auto& d : out)
        {
            link(*d.second.body, out);
            bool boundary = false;
            bool rules = false;
            look(*d.second.body, boundary, rules);
            d.second.token_rule = boundary || !rules;
        }
        return first;
    }

private:
    const char* p_;

    [[noreturn]] void error(const std::string& what)
    {
        throw std::runtime_error("stand-in peglib: " + what + " at: " + std::string(p_, std::min<size_t>(strlen(p_), 40)));
    }

    void blank()
    {
        for (;; ++p_)
        {
            if (*p_ == '#')
            {
                while (*p_ && *p_ != '\n')
                {
                    ++p_;
                }
            }
            if (!*p_ || !std::strchr(" \t\r\n", *p_))
            {
                return;
            }
        }
    }

    bool take(char c)
    {
        if (*p_ != c)
        {
            return false;
        }
        ++p_;
        return true;
    }

    void expect(char c)
    {
        if (!take(c))
        {
            error(std::string("expected ") + c);
        }
    }

    static bool letter(char c)
    {
        return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
    }

    std::string identifier()
    {
        const char* b = p_;
        if (!letter(*p_))
        {
            error("expected a rule name");
        }
        while (letter(*p_) || (*p_ >= '0' && *p_ <= '9'))
        {
            ++p_;
        }
        return std::string(b, p_);
    }

    // an identifier followed by the arrow begins the next rule
    bool next_rule()
    {
        const char* q = p_;
        if (*q == '~')
        {
            ++q;
        }
        if (!letter(*q))
        {
            return false;
        }
        while (letter(*q) || (*q >= '0' && *q <= '9'))
        {
            ++q;
        }
        while (*q && std::strchr(" \t\r\n", *q))
        {
            ++q;
        }
        return q[0] == '<' && q[1] == '-';
    }

    std::shared_ptr<Expr> make(Op op, std::vector<std::shared_ptr<Expr>> sub = {})
    {
        auto e = std::make_shared<Expr>();
        e->op = op;
        e->sub = std::move(sub);
        return e;
    }

    std::shared_ptr<Expr> choice()
    {
        std::vector<std::shared_ptr<Expr>> options{sequence()};
        while (take('/'))
        {
            blank();
            options.push_back(sequence());
        }
        return options.size() == 1 ? options[0] : make(Op::CHOICE, std::move(options));
    }

    std::shared_ptr<Expr> sequence()
    {
        std::vector<std::shared_ptr<Expr>> parts;
        while (*p_ && *p_ != '/' && *p_ != ')' && *p_ != '>' && !next_rule())
        {
            parts.push_back(prefixed());
        }
        return parts.size() == 1 ? parts[0] : make(Op::SEQUENCE, std::move(parts));
    }

    std::shared_ptr<Expr> prefixed()
    {
        if (take('&'))
        {
            blank();
            return make(Op::AND, {suffixed()});
        }
        if (take('!'))
        {
            blank();
            return make(Op::NOT, {suffixed()});
        }
        if (take('~'))
        {
            blank();
            return make(Op::IGNORE, {suffixed()});
        }
        return suffixed();
    }

    std::shared_ptr<Expr> suffixed()
    {
        auto e = primary();
        auto repeat = [&](size_t min, size_t max)
                {
                    auto r = make(Op::REPEAT, {e});
                    r->min = min;
                    r->max = max;
                    blank();
                    return r;
                };
        if (take('*'))
        {
            return repeat(0, 0);
        }
        if (take('+'))
        {
            return repeat(1, 0);
        }
        if (take('?'))
        {
            return repeat(0, 1);
        }
        return e;
    }

    std::shared_ptr<Expr> primary()
    {
        std::shared_ptr<Expr> e;
        if (take('('))
        {
            blank();
            e = choice();
            expect(')');
        }
        else if (take('<'))
        {
            blank();
            e = make(Op::TOKEN, {choice()});
            expect('>');
        }
        else if (take('.'))
        {
            e = make(Op::ANY);
        }
        else if (*p_ == '\'' || *p_ == '"')
        {
            char quote = *p_++;
            e = make(Op::LITERAL);
            while (*p_ != quote)
            {
                e->text += character();
            }
            ++p_;
        }
        else if (take('['))
        {
            e = make(Op::CLASS);
            e->negated = take('^');
            while (*p_ != ']')
            {
                unsigned char a = static_cast<unsigned char>(character());
                unsigned char b = a;
                if (p_[0] == '-' && p_[1] != ']')
                {
                    ++p_;
                    b = static_cast<unsigned char>(character());
                }
                e->set.push_back({a, b});
            }
            ++p_;
        }
        else
        {
            e = make(Op::RULE);
            e->text = identifier();
        }
        blank();
        return e;
    }

    char character()
    {
        if (!*p_)
        {
            error("unfinished literal");
        }
        if (*p_ != '\\')
        {
            return *p_++;
        }
        ++p_;
        switch (*p_)
        {
            case 'n': ++p_; return '\n';
            case 'r': ++p_; return '\r';
            case 't': ++p_; return '\t';
            case 'f': ++p_; return '\f';
            case 'v': ++p_; return '\v';
            case '\'': case '"': case '\\': case '[': case ']': case '^': case '-':
                return *p_++;
            default:
                return '\\';
        }
    }

    void link(Expr& e, const Grammar& g)
    {
        if (e.op == Op::RULE)
        {
            auto it = g.find(e.text);
            if (it == g.end())
            {
                throw std::runtime_error("stand-in peglib: no rule " + e.text);
            }
            e.rule = &it->second;
        }
        for (auto& sub : e.sub)
        {
            link(*sub, g);
        }
    }

    // what makes a rule a token: a boundary of its own, or no other rules inside
    void look(const Expr& e, bool& boundary, bool& rules)
    {
        switch (e.op)
        {
            case Op::RULE:
                rules = true;
                return;
            case Op::TOKEN:
                boundary = true;
                return;
            case Op::AND:
            case Op::NOT:
                return;
            default:
                for (auto& sub : e.sub)
                {
                    look(*sub, boundary, rules);
                }
        }
    }
};

PEG_INLINE std::string read_grammar(const char* text, Grammar& out)
{
    return Reader(text).read(out);
}

} // namespace detail

#endif // PEG_APART

class parser
{
public:
    parser() = default;

    explicit parser(const char* grammar)
    {
        load_grammar(grammar);
    }

    parser(const parser&) = delete;
    parser& operator = (const parser&) = delete;

    template<typename T = AstBase<EmptyType>>
    parser& enable_ast()
    {
        ast_ = true;
        return *this;
    }

    void set_logger(Logger log)
    {
        log_ = std::move(log);
    }

    void set_logger(std::function<void (size_t, size_t, const std::string&, const std::string&)> log)
    {
        log_ = [log](size_t l, size_t c, const std::string& m)
                {
                    log(l, c, m, "");
                };
    }

    bool load_grammar(const char* grammar)
    {
        grammar_.clear();
        start_ = detail::read_grammar(grammar, grammar_);
        return true;
    }

    const Grammar& get_grammar() const
    {
        return grammar_;
    }

    explicit operator bool() const
    {
        return true;
    }

    bool parse(std::string_view text, const char* path = nullptr) const
    {
        Node none;
        return parse_n(text.data(), text.size(), none, path);
    }

    template<typename T = AstBase<EmptyType>>
    bool parse(std::string_view text, std::shared_ptr<T>& ast, const char* path = nullptr) const
    {
        return parse_n(text.data(), text.size(), ast, path);
    }

    template<typename T = AstBase<EmptyType>>
    bool parse(const char* s, std::shared_ptr<T>& ast, const char* path = nullptr) const
    {
        return parse_n(s, std::strlen(s), ast, path);
    }

    template<typename T = AstBase<EmptyType>>
    bool parse_n(const char* s, size_t n, std::shared_ptr<T>& ast, const char* = nullptr) const
    {
        Node node;
        std::pair<size_t, size_t> at;
        bool ok = grammar_.at(start_).parse_all(s, n, ast_, node, at);
        if (!ok && log_)
        {
            log_(at.first, at.second, "syntax error");
        }
        if (ok)
        {
            ast = node;
        }
        return ok;
    }

    template<typename T = AstBase<EmptyType>>
    std::shared_ptr<T> optimize_ast(std::shared_ptr<T> ast, bool = true) const
    {
        return optimize(ast, std::shared_ptr<T>());
    }

    Definition& operator [](const char* name)
    {
        return grammar_.at(name);
    }

    const Definition& operator [](const char* name) const
    {
        return grammar_.at(name);
    }

private:
    Grammar grammar_;
    std::string start_;
    Logger log_;
    bool ast_ = false;

    template<typename T>
    std::shared_ptr<T> optimize(const std::shared_ptr<T>& original, std::shared_ptr<T> parent) const
    {
        if (original->nodes.size() == 1)
        {
            auto child = optimize(original->nodes[0], parent);
            auto ast = std::make_shared<T>(*child);
            ast->original_name = original->name;
            ast->original_tag = original->tag;
            ast->position = original->position;
            ast->length = original->length;
            for (auto& node : ast->nodes)
            {
                node->parent = ast;
            }
            return ast;
        }
        auto ast = std::make_shared<T>(*original);
        ast->parent = parent;
        ast->nodes.clear();
        for (auto& node : original->nodes)
        {
            ast->nodes.push_back(optimize(node, ast));
        }
        return ast;
    }
};

} // namespace peg
