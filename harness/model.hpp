// The reference model: immutable type descriptions (MT), plain values (Val), and what relates them to the library.
#ifndef SIM_MODEL_HPP_
#define SIM_MODEL_HPP_

#include "rt.hpp"

#include <xtypes/xtypes.hpp>

#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace sim {

namespace xt = eprosima::xtypes;
using rt::u64;
using rt::Rng;

enum class K : uint8_t
{
    BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC,  // primitives
    STR, WSTR, STR16, ENUM, ALIAS, ARRAY, SEQ, MAP, PAIR, STRUCT, UNION
};
constexpr int PRIMS = 15;

inline bool is_prim(K k) { return int(k) < PRIMS; }
inline bool is_str(K k) { return k == K::STR || k == K::WSTR || k == K::STR16; }

struct MT;
using MTP = std::shared_ptr<const MT>;

struct MMember
{
    std::string name;
    MTP type;
    int32_t id = -1;
    bool key = false;
    bool optional = false;
};

struct MT
{
    K k = K::I32;
    std::string name;
    uint32_t bound = 0;                               // strings, sequences, maps; dimension of arrays
    int width = 4;                                    // enumerations, bytes
    std::vector<std::pair<std::string, uint64_t>> en; // enumerators, in order of addition
    uint64_t next = 0;                                // next enumerator value
    MTP elem;                                         // alias, array, sequence; value of maps and pairs
    MTP key;                                          // maps and pairs
    MTP parent;                                       // structs
    MTP disc;                                         // unions
    std::vector<MMember> mem;                         // struct members (inherited first); union cases
    std::vector<std::pair<int64_t, int>> labels;      // unions: label -> case index
    int def = -1;                                     // unions: default case
    std::vector<uint32_t> dims;                       // arrays built through the list of dimensions
};

// Text is held as code units of its own kind in 32 bits.
using Units = std::u32string;

struct Val
{
    u64 bits = 0;                             // primitives and enumerations (floating: the bits of the double)
    Units str;
    std::vector<Val> kid;                     // struct members, elements, the live case of a union
    std::vector<std::pair<Val, Val>> ent;     // map entries
    bool live = false;                        // unions
    int64_t label = 0;
    int caseno = -1;
    bool operator == (const Val& o) const;
};

const MT& res(const MT& t);            // without aliases
inline const MTP& res(const MTP& t) { return t->k == K::ALIAS ? res(t->elem) : t; }
bool same(const MT& a, const MT& b);   // the same definition, names included
bool val_eq(const MT& t, const Val& a, const Val& b);
size_t weight(const MT& t);            // leaves of a default value
size_t prim_size(K k);
bool signed_kind(K k);
bool has_kind(const MT& t, K k);
bool has_text(const MT& t, const Val& v);   // every wide character is one that can be converted
bool has_caseless(const MT& t, const Val& v);

// ------------------------------------------------------------- generation
struct Gen
{
    int weights[26];                   // per kind
    int max_depth = 3;
    bool no_empty = false;
    std::vector<MTP> pool;             // definitions to mention (copied)
    std::vector<int> pool_ids;
};
MTP mprim(K k);
MTP mtext(K k);
MTP gen_type(Rng& r, const Gen& g, int depth);
MTP gen_disc(Rng& r, const Gen& g);
MTP gen_key(Rng& r, const Gen& g);
int64_t gen_label(Rng& r, const MT& disc);
bool label_allowed(const MT& disc, int64_t label);
int64_t shrink(int64_t label, const MT& disc);
bool label_text(const MT& disc, int64_t label, u64 form, std::string& text);   // false: no text says exactly that
size_t disc_size(const MT& disc);
int64_t default_label(const MT& disc);
Val gen_val(Rng& r, const MT& t, int budget = 12);
bool tweak(Rng& r, const MT& t, Val& v);
bool any_order(const MT& t);
bool collide(Rng& r, const MT& key_type, const Val& with, Val& out);
Val default_val(const MT& t);          // unions: adopt_defaults() reads the label chosen
u64 gen_bits(Rng& r, K k);
u64 near_bits(Rng& r, K k, u64 bits);
Units gen_text(Rng& r, K k, size_t max);

// ------------------------------------------------------------- library side
class RealT                                                      // a real type: owned, or a primitive
{
public:
    RealT() = default;
    explicit RealT(const xt::DynamicType* p, bool owned) : p_(p), owned_(owned) {}
    RealT(const xt::DynamicType* p, std::shared_ptr<void> holder) : p_(p), holder_(std::move(holder)) {}
    RealT(RealT&& o) noexcept : p_(o.p_), owned_(o.owned_), holder_(std::move(o.holder_)) { o.p_ = nullptr; }
    RealT& operator = (RealT&& o) noexcept
    {
        std::swap(p_, o.p_);
        std::swap(owned_, o.owned_);
        holder_.swap(o.holder_);
        return *this;
    }
    ~RealT() { if (owned_) delete p_; }
    const xt::DynamicType& operator * () const { return *p_; }
    const xt::DynamicType* operator -> () const { return p_; }
    const xt::DynamicType* get() const { return p_; }
    template<class T> T& as() const { return *const_cast<T*>(static_cast<const T*>(p_)); }
    explicit operator bool () const { return p_ != nullptr; }
private:
    const xt::DynamicType* p_ = nullptr;
    bool owned_ = false;
    std::shared_ptr<void> holder_;                               // what the type is a part of
};
RealT build(const MT& t);                                        // a real type from scratch
bool equals_val(const xt::ReadableDynamicDataRef& r, const Val& v, const MT& t);
constexpr int64_t LABEL_ANY = INT64_MIN + 7;                     // a label the library is yet to choose
void check_type(const xt::DynamicType& real, const MT& t, const std::string& where);
void check_val(const xt::ReadableDynamicDataRef& r, const Val& v, const MT& t, const std::string& where);
void adopt(const xt::ReadableDynamicDataRef& r, Val& v, const MT& t);   // takes the labels the library chose
// writes v over a default-constructed target, entries of maps in an order drawn from r
void fill(xt::WritableDynamicDataRef w, const Val& v, const MT& t, Rng& r);
std::unique_ptr<xt::DynamicData> make(const MT& t, const Val& v, Rng& r);
int64_t read_label(const xt::ReadableDynamicDataRef& r, const MT& disc);
xt::TypeKind real_kind(const MT& t);
std::string units_text(const Units& u);
std::string show(const MT& t);
std::string show(const MT& t, const Val& v);

// path inside a value
struct Step { int i; };
using Path = std::vector<int>;
struct Part { const MT* t; Val* v; MTP tp; };
// all parts of a value, root first. A step is the index of a kid, or of a map entry (its value).
void walk(const MTP& t, Val& v, const std::function<void(const Path&, const MTP&, Val&)>& f);
MTP clone(const MTP& t);                // nothing shared with t
xt::ReadableDynamicDataRef descend_reading(const xt::ReadableDynamicDataRef& r, const MT& t, const Val& v, const Path& p);
xt::WritableDynamicDataRef descend(xt::WritableDynamicDataRef w, const MT& t, const Val& v, const Path& p);

// ------------------------------------------------------------- conversion
MTP mutate(Rng& r, const MTP& t, int depth = 0);                // a compatible definition
MTP clash(Rng& r, const MTP& t);                                // one that is not, but for one part; null if there is none
Val convert(const MT& from, const Val& v, const MT& to);

template<class F>
void with_prim(K k, F&& f)
{
    switch (k)
    {
        case K::BOOL: f(bool()); break;
        case K::I8: f(int8_t()); break;
        case K::U8: f(uint8_t()); break;
        case K::I16: f(int16_t()); break;
        case K::U16: f(uint16_t()); break;
        case K::I32: f(int32_t()); break;
        case K::U32: f(uint32_t()); break;
        case K::I64: f(int64_t()); break;
        case K::U64: f(uint64_t()); break;
        case K::F32: f(float()); break;
        case K::F64: f(double()); break;
        case K::F128: f((long double)(0)); break;
        case K::C8: f(char()); break;
        case K::C16: f(char16_t()); break;
        case K::WC: f(wchar_t()); break;
        default: rt::fail("harness", "with_prim");
    }
}

// The long doubles that no double can hold are written as a NaN and their place here.
constexpr u64 WIDE_NAN = 0x7ff8000000000100ULL;
constexpr long double wide_numbers[] = {1.0L / 3, 1152921504606846977.0L, -4611686018427387907.0L, 0.1L};

template<class T>
T from_bits(u64 bits)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        if (bits - WIDE_NAN < 4)
        {
            return T(wide_numbers[bits - WIDE_NAN]);
        }
        double d;
        memcpy(&d, &bits, sizeof(d));
        return T(d);
    }
    else if constexpr (std::is_same<T, bool>::value)
    {
        return bits != 0;
    }
    else
    {
        return T(bits);
    }
}

template<class T>
u64 to_bits(T v)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        double d = double(v);
        if constexpr (sizeof(T) > sizeof(double))
        {
            for (u64 i = 0; i < 4; ++i)
            {
                if (v == wide_numbers[i])
                {
                    return WIDE_NAN + i;
                }
            }
        }
        u64 bits;
        memcpy(&bits, &d, sizeof(d));
        return bits;
    }
    else if constexpr (std::is_same<T, bool>::value)
    {
        return v ? 1 : 0;
    }
    else
    {
        using U = typename std::make_unsigned<T>::type;
        return u64(U(v));
    }
}

std::string to_str(const Units& u);
std::wstring to_wstr(const Units& u);
std::u16string to_str16(const Units& u);

} // namespace sim

#endif
