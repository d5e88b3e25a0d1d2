// Documents of IDL made at random together with what they declare, and the check of a parsed tree against it.
#ifndef SIM_IDL_DOC_HPP_
#define SIM_IDL_DOC_HPP_

#include "core.hpp"
#include "model.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {
namespace doc {

// ------------------------------------------------------------------------------------------------- what is declared
struct DMod;

struct DSym
{
    MTP def;                      // constants: their type, without aliases
    bool constant = false;
    Val value;
};

struct DMod
{
    DMod* outer = nullptr;
    std::string name;
    std::map<std::string, DSym> syms;
    std::map<std::string, std::unique_ptr<DMod>> inner;

    std::string scope() const
    {
        return outer == nullptr ? name : outer->scope().empty() ? name : outer->scope() + "::" + name;
    }
    std::string scoped(const std::string& n) const { return scope().empty() ? n : scope() + "::" + n; }
    bool has(const std::string& n) const { return syms.count(n) || inner.count(n); }
    int depth() const { return outer ? outer->depth() + 1 : 0; }
};

struct Known                      // something that can be mentioned from here on
{
    DMod* mod;
    std::string name;
    MTP def;
    bool constant;
    bool enumerator;
    Val value;
};

struct Tree                       // what a context holds
{
    DMod root;
    std::vector<Known> known;
    std::vector<std::string> used;            // names given so far: none is given twice
    int next = 0;
    bool rooted = false;          // a type was mentioned from the root, and is called so
    bool escaped = false;         // a name has to be escaped, or another order kept, which what is generated does not do
    bool valid = true;            // false after a refused document
};

struct Style
{
    K chr = K::C8;                // what `char` stands for
    K wchr = K::WC;
    int layout = 1;               // 0: as tight as it gets, 1: usual, 2: wild
    bool directives = false;      // the preprocessor is a real one: macros and conditions
    bool rooted = false;          // mentions may begin at the root
    bool any_case = false;        // reserved words are so in any case
    bool keywords = false;        // reserved words may be names
    bool again = false;           // what is defined a second time is ignored
};

struct Tok
{
    std::string text;
    int depth = 0;                // braces open before it
    bool directive = false;       // a line of its own
    bool number = false;          // a plain integer
};

struct Document
{
    std::vector<Tok> toks;
    std::vector<std::pair<size_t, size_t>> defs;      // of the outermost definitions
};

const DMod* look_module(const DMod& from, const std::string& text, std::string& last);
bool means(const DMod& from, const std::string& text, const DMod* mod, const std::string& name);

// Adds `n` definitions at random to the tree, and gives the document that declares them.
Document generate(rt::Rng& r, Tree& tree, const Style& style, int n);
std::string render(rt::Rng& r, const Document& d, const Style& style);
// A way to spoil the document so that it cannot be accepted; the text that results. `what` says what was done.
std::string spoil(rt::Rng& r, const Tree& before, const Document& d, const Style& style, std::string& what);

// Can the tree be declared module after module, every one in one piece, and every type be called by its whole name?
bool in_order(const Tree& t);

std::unique_ptr<Tree> clone_tree(const Tree& t);

} // namespace doc
} // namespace sim

#endif
