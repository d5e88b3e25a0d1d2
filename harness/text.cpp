// The world of text (C12): conversions between narrow and wide text of every length, whole, cut or damaged, with
// allocation failures, against a codec of its own.
#include "core.hpp"
#include "model.hpp"

#include <xtypes/StringConversion.hpp>

#include <algorithm>

namespace sim {

using rt::fail;
using rt::FK;
using xt::DynamicData;

namespace {

enum Code { N2W, W2N, N2U, U2N, ASCII, LABEL, PRINT, VIEW, AGAIN, NCODES };
const char* const code_names[NCODES] = {
    "narrow.to.16", "16.to.narrow", "narrow.to.32", "32.to.narrow", "ascii.wide", "label", "print", "view", "again"
};
const int code_weights[NCODES] = {10, 10, 3, 3, 2, 3, 8, 3, 5};

// ------------------------------------------------------------- own codec
constexpr char32_t BAD = 0xffffffff;

std::string encode8(const Units& u)
{
    std::string s;
    for (char32_t c : u)
    {
        if (c < 0x80)
        {
            s += char(c);
        }
        else if (c < 0x800)
        {
            s += char(0xc0 | c >> 6);
            s += char(0x80 | (c & 63));
        }
        else if (c < 0x10000)
        {
            s += char(0xe0 | c >> 12);
            s += char(0x80 | (c >> 6 & 63));
            s += char(0x80 | (c & 63));
        }
        else
        {
            s += char(0xf0 | c >> 18);
            s += char(0x80 | (c >> 12 & 63));
            s += char(0x80 | (c >> 6 & 63));
            s += char(0x80 | (c & 63));
        }
    }
    return s;
}

std::u16string encode16(const Units& u)
{
    std::u16string s;
    for (char32_t c : u)
    {
        if (c < 0x10000)
        {
            s += char16_t(c);
        }
        else
        {
            s += char16_t(0xd800 + ((c - 0x10000) >> 10));
            s += char16_t(0xdc00 + ((c - 0x10000) & 0x3ff));
        }
    }
    return s;
}

bool decode8(const std::string& s, Units& out)
{
    out.clear();
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        int more = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (more < 0 || i + more >= s.size())
        {
            return false;
        }
        char32_t v = more == 0 ? c : c & (0x3f >> more);
        for (int k = 1; k <= more; ++k)
        {
            unsigned char d = s[i + k];
            if ((d & 0xc0) != 0x80)
            {
                return false;
            }
            v = v << 6 | (d & 63);
        }
        if ((more == 2 && v < 0x800) || (more == 3 && (v < 0x10000 || v > 0x10ffff)))
        {
            return false;
        }
        out += v;
        i += size_t(more) + 1;
    }
    return true;
}

bool decode16(const std::u16string& s, Units& out)
{
    out.clear();
    for (size_t i = 0; i < s.size(); ++i)
    {
        char32_t c = s[i];
        if (c >= 0xd800 && c < 0xdc00)
        {
            if (i + 1 == s.size() || s[i + 1] < 0xdc00 || s[i + 1] > 0xdfff)
            {
                return false;
            }
            c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00);
        }
        else if (c >= 0xdc00 && c < 0xe000)
        {
            return false;
        }
        out += c;
    }
    return true;
}

bool surrogate(const Units& u)
{
    return std::any_of(u.begin(), u.end(), [](char32_t c) { return c >= 0xd800 && c < 0xe000; });
}

// ------------------------------------------------------------- generation
Units text(Rng& r)
{
    static const int lengths[] = {0, 1, 2, 3, 15, 16, 21, 22, 31, 32, 33, 61, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 300};
    int n = r.chance(1, 4) ? int(r.below(200)) : lengths[r.below(26)];
    int style = int(r.below(6));
    Units u;
    int odd_at = n ? int(r.below(u64(n))) : 0;
    for (int i = 0; i < n; ++i)
    {
        auto one = [&](int kind) -> char32_t
                {
                    switch (kind)
                    {
                        case 0:
                            if (r.chance(1, 6))
                            {
                                static const char32_t edges[] = {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10001, 0x103ff};
                                return edges[r.below(8)];
                            }
                            return char32_t(r.range(0x20, 0x7e));
                        case 1: return char32_t(r.range(0x80, 0x7ff));
                        case 2: return r.chance(1, 8) ? (r.chance(1, 2) ? 0xd7ff : 0xe000) : char32_t(r.range(0x800, 0xd7ff));
                        case 3: return r.chance(1, 8) ? 0x10ffff : char32_t(r.range(0x10000, 0x10ffff));
                        default: return r.chance(1, 6) ? 0 : char32_t(r.below(0x20));
                    }
                };
        switch (style)
        {
            case 0: u += one(0); break;
            case 1: u += one(int(r.below(4))); break;
            case 2: u += one(i == odd_at ? 3 : 0); break;     // one long character somewhere in plain text
            case 3: u += one(i == odd_at ? 1 + int(r.below(2)) : 0); break;
            case 4: u += one(int(r.below(5))); break;
            default: u += one(r.chance(9, 10) ? 2 : 3); break;
        }
    }
    return u;
}

// what a short read, a lost block or a flipped bit leaves of a text
template<class S>
S damage(Rng& r, S s, const char*& how)
{
    how = "whole";
    if (s.empty())
    {
        return s;
    }
    using C = typename S::value_type;
    size_t at = r.below(s.size());
    switch (r.below(10))
    {
        case 0:
        case 1:
            s.resize(at);
            how = "cut short";
            break;
        case 2:
            s.erase(0, at);
            how = "start lost";
            break;
        case 3:
            s.erase(at, 1 + r.below(4));
            how = "piece lost";
            break;
        case 4:
            s[at] = C(s[at] ^ C(1u << r.below(sizeof(C) * 8)));
            how = "bit flipped";
            break;
        case 5:
            s[at] = sizeof(C) == 1 ? C(r.chance(1, 2) ? 0xff : 0xc0) : C(r.chance(1, 2) ? 0xd800 : 0xdfff);
            how = "unit overwritten";
            break;
        case 6:
            s.insert(at, s.substr(at, 1 + r.below(3)));
            how = "piece repeated";
            break;
        default:
            break;
    }
    return s;
}

std::string hex(const Units& u)
{
    std::string out = "[" + std::to_string(u.size()) + "]";
    for (size_t i = 0; i < u.size() && i < 12; ++i)
    {
        char b[16];
        snprintf(b, sizeof(b), " %x", unsigned(u[i]));
        out += b;
    }
    return out;
}

template<class S>
Units units(const S& s)
{
    Units u;
    for (auto c : s)
    {
        u += char32_t(typename std::make_unsigned<typename std::conditional<sizeof(c) == 1, char,
                typename std::conditional<sizeof(c) == 2, uint16_t, uint32_t>::type>::type>::type(c));
    }
    return u;
}

struct Past
{
    int code;
    Op op;
};

class TextWorld : public World
{
public:
    void step(const Op& op) override
    {
        run(op, op.code);
        if (op.code != AGAIN)
        {
            past_.push_back(op);
        }
        rt::trace_num(last_);
    }

    u64 state() override { return last_; }

private:
    std::vector<Op> past_;
    u64 last_ = 0;

    void note_result(const Units& u)
    {
        last_ = 17;
        for (char32_t c : u)
        {
            last_ = rt::mix64(last_ ^ c);
        }
    }

    // `convert` must give exactly `want`, or refuse when `ok` is false
    template<class Out, class F>
    void expect(const Op& op, const char* name, bool ok, const Out& want, F&& convert)
    {
        Out got;
        bool done = false;
        rt::probe(ok ? "text converts" : "text is refused");
        Res res = attempt(op, ok ? Expect::OK : Expect::REFUSE, name, [&]()
                {
                    Out s = convert();
                    rt::Pause p;
                    got = s;
                    done = true;
                }, []() {});
        if (res == Res::OK && got != want)
        {
            fail("text", std::string(name) + " gave " + hex(units(got)) + ", expected " + hex(units(want)));
        }
        note_result(res == Res::OK ? units(got) : Units());
        ++stats.checks;
        (void)done;
    }

    void run(const Op& op, int code)
    {
        Rng r(op.seed());
        const char* how = "whole";
        using namespace eprosima;
        switch (code)
        {
            case N2W:
            case N2U:
            case VIEW:
            {
                std::string in = damage(r, encode8(text(r)), how);
                rt::probe(how);
                Units u;
                bool ok = decode8(in, u);
                if (ok && surrogate(u))
                {
                    return;              // left to the C++ library
                }
                rt::note(std::string(how) + " " + hex(units(in)));
                if (code == N2W)
                {
                    expect(op, code_names[code], ok, encode16(u), [&]() { return code_conversion_tool<char16_t>(in); });
                }
                else if (code == N2U)
                {
                    expect(op, code_names[code], ok, u, [&]() { return code_conversion_tool<char32_t>(in); });
                }
                else
                {
                    // a view that ends in the middle of other text
                    std::string around = "\xe2\x82" + in + "\x82\xac rest";
                    expect(op, code_names[code], ok, encode16(u), [&]()
                            {
                                return code_conversion_tool<char16_t>(std::string_view(around).substr(2, in.size()));
                            });
                }
                break;
            }
            case W2N:
            {
                std::u16string in = damage(r, encode16(text(r)), how);
                rt::probe(how);
                Units u;
                bool ok = decode16(in, u);
                rt::note(std::string(how) + " " + hex(units(in)));
                std::string want = ok ? encode8(u) : std::string();
                expect(op, code_names[code], ok, want, [&]() { return code_conversion_tool<char>(in); });
                if (ok)                  // and back
                {
                    expect(op, "there and back", true, in, [&]()
                            {
                                return code_conversion_tool<char16_t>(code_conversion_tool<char>(in));
                            });
                }
                break;
            }
            case U2N:
            {
                Units in = text(r);
                if (!in.empty() && r.chance(1, 6))
                {
                    in[r.below(in.size())] = 0x110000 + char32_t(r.below(u64(1) << r.below(31)));
                    how = "no character";
                }
                rt::probe(how);
                bool ok = std::all_of(in.begin(), in.end(), [](char32_t c) { return c < 0x110000; });
                std::string want = ok ? encode8(in) : std::string();
                expect(op, code_names[code], ok, want, [&]() { return code_conversion_tool<char>(in); });
                break;
            }
            case ASCII:
            {
                std::string in;
                for (int i = 0, n = int(r.below(200)); i < n; ++i)
                {
                    in += char(r.range(0x20, 0x7e));
                }
                std::wstring want(in.begin(), in.end());
                expect(op, "narrow.to.wide", true, want, [&]() { return code_conversion_tool<wchar_t>(in); });
                expect(op, "wide.to.narrow", true, in, [&]() { return code_conversion_tool<char>(want); });
                break;
            }
            case LABEL: label(op, r); break;
            case PRINT: print(op, r); break;
            case AGAIN:                  // an earlier conversion gives what it gave
                if (!past_.empty())
                {
                    Op again = past_[op.a % past_.size()];
                    again.f = op.f;
                    run(again, again.code);
                }
                break;
        }
    }

    // a wide label written as text
    void label(const Op& op, Rng& r)
    {
        bool wide = r.chance(1, 2);
        Units u;
        u += r.chance(1, 2) ? char32_t(r.range(0x30, 0x7e)) : r.chance(1, 2) ? char32_t(r.range(0x80, 0x7ff))
                : char32_t(r.range(0x800, 0xd7ff));
        if (u[0] == '\'' || u[0] == '\\' || u[0] == 0x7fff || u[0] == 0x7ffe) // the two last: reserved values
        {
            u[0] = 'q';
        }
        std::string in = encode8(u);
        bool quotes = r.chance(1, 2);
        bool cut = in.size() > 1 && r.chance(1, 3);
        if (cut)
        {
            in.resize(in.size() - 1);
        }
        std::string spelled = quotes ? "'" + in + "'" : in;
        rt::probe(cut ? "cut short" : "whole");
        xt::UnionType type("U", wide ? static_cast<const xt::DynamicType&>(xt::primitive_type<wchar_t>())
                : static_cast<const xt::DynamicType&>(xt::primitive_type<char16_t>()));
        xt::Member member("m", xt::primitive_type<int32_t>());
        auto unchanged = [&]()
                {
                    if (type.members().size() != 1)
                    {
                        fail("text", "a refused label left its case member behind");
                    }
                };
        std::vector<std::string> labels{spelled};
        Res res = attempt(op, cut ? Expect::REFUSE : Expect::OK, code_names[LABEL], [&]()
                {
                    type.add_case_member(labels, member);
                }, unchanged);
        if (res == Res::OK)
        {
            std::vector<int64_t> got = type.get_labels("m");
            if (got.size() != 1 || got[0] != int64_t(u[0]))
            {
                fail("text", "label '" + hex(u) + "' became " + (got.empty() ? "nothing" : std::to_string(got[0])));
            }
        }
        note_result(u);
    }

    // wide text held by data, printed
    void print(const Op& op, Rng& r)
    {
        int kind = int(r.below(4));
        const char* how = "whole";
        bool ok = true;
        std::string shown, head;
        std::unique_ptr<DynamicData> d;
        Units u = text(r);
        for (char32_t& c : u)
        {
            c = c < 0x20 ? 'x' : c;
        }
        switch (kind)
        {
            case 0:
            {
                std::u16string in = damage(r, encode16(u), how);
                ok = decode16(in, u);
                d.reset(new DynamicData(xt::StringType()));
                d.reset(new DynamicData(xt::String16Type()));
                *d = in;
                head = "<std::u16string>  ";
                break;
            }
            case 1:
            {
                std::wstring in(u.begin(), u.end());
                if (!in.empty() && r.chance(1, 4))
                {
                    in[r.below(in.size())] = wchar_t(r.chance(1, 2) ? 0x110000 + r.below(u64(1) << r.below(31)) : 0xd800 + r.below(0x400));
                    how = "no character";
                    ok = false;
                    // a lone surrogate followed by its other half by chance isn't generated: text() has no surrogates
                }
                d.reset(new DynamicData(xt::WStringType()));
                *d = in;
                head = "<std::wstring>  ";
                break;
            }
            case 2:
            {
                char16_t c = char16_t(r.chance(1, 4) ? r.range(0xd800, 0xdfff) : u.empty() ? 'x' : u[0] & 0xffff);
                c = c < 0x20 ? u'x' : c;
                ok = decode16(std::u16string(1, c), u);
                how = ok ? "whole" : "cut short";
                d.reset(new DynamicData(xt::primitive_type<char16_t>()));
                *d = c;
                head = "<char16_t>  ";
                break;
            }
            default:
            {
                wchar_t c = wchar_t(r.chance(1, 4) ? (r.chance(1, 2) ? 0xdc00 : 0x110000 + r.below(u64(1) << r.below(31))) : u.empty() ? 'x' : u[0]);
                u = Units(1, char32_t(c));
                ok = c < 0x110000 && !surrogate(u);
                how = ok ? "whole" : "no character";
                d.reset(new DynamicData(xt::primitive_type<wchar_t>()));
                *d = c;
                head = "<wchar_t>  ";
            }
        }
        rt::probe(how);
        shown = "<" + d->type().name() + ">  " + (ok ? encode8(u) : std::string()) + "\n";
        expect(op, code_names[PRINT], ok, shown, [&]() { return d->to_string(); });
    }
};

std::vector<Op> generate(const std::string&, u64 seed)
{
    Rng r(rt::mix64(seed) ^ 0x7e87);
    int weights[NCODES], total = 0;
    for (int i = 0; i < NCODES; ++i)
    {
        weights[i] = r.chance(3, 4) ? code_weights[i] : 0;
        total += weights[i];
    }
    if (!total)
    {
        total = weights[W2N] = 1;
    }
    int mode = int(r.below(10));
    mode = mode < 4 ? 0 : mode < 8 ? 1 : 2;
    std::vector<Op> ops;
    int n = int(r.range(3, 20));
    for (int i = 0; i < n; ++i)
    {
        Op op;
        int pick = int(r.below(u64(total)));
        for (int c = 0; c < NCODES; ++c)
        {
            pick -= weights[c];
            if (pick < 0)
            {
                op.code = c;
                break;
            }
        }
        op.a = uint32_t(r.below(1000));
        op.b = uint32_t(r.below(1000));
        op.c = uint32_t(r.below(1000));
        op.d = uint32_t(r.below(1000));
        if (mode == 1 && r.chance(1, 2))
        {
            op.f.kind = r.chance(1, 3) ? FK::FROM : FK::NTH;
            op.f.n = 1 + r.below(8);
        }
        else if (mode == 2 && r.chance(1, 3))
        {
            op.f.kind = FK::SWEEP;
            op.f.n = 40;
        }
        ops.push_back(op);
    }
    return ops;
}

RegisterWorld reg("C12", WorldKind{
    "text", std::vector<const char*>(code_names, code_names + NCODES),
    [](const std::string&) -> std::unique_ptr<World> { return std::make_unique<TextWorld>(); }, generate});

} // namespace

} // namespace sim
