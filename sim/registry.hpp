// What a tree translation unit offers to the simulator.
#pragma once
#include "core.hpp"
#include "desc.hpp"
#include <list>
#include <ostream>
#include <string>
#include <string_view>
#include <vector>

namespace sim
{
extern std::vector<Range> g_static_views;  // static text the trees use as default values
struct ViewReg {
    explicit ViewReg(std::string_view v);
};
class Inst
{
public:
    virtual ~Inst() = default;
    virtual void parse_argv(int argc, char** argv) const = 0;
    virtual void parse_cstrs(const char* const* b, const char* const* e) const = 0;
    virtual void parse_views(const std::string_view* b, const std::string_view* e) const = 0;
    virtual void parse_iter(const std::string_view* b, const std::string_view* e) const = 0;
    virtual void parse_container(const std::vector<std::string_view>& v) const = 0;
    virtual void parse_list(const std::list<std::string_view>& v) const = 0;
    virtual void parse_tokens(const std::string_view* b, const std::string_view* e) const = 0;
    virtual void help_stream(std::ostream& s) const = 0;
    virtual std::string help_string() const = 0;
};
struct TreeReg {
    const char* name;
    Inst* (*make)(const Cfg&);
    Node (*describe)(const Cfg&);
    unsigned flags;
    int switches;  // number of run-time switches
    TreeReg* next;
    TreeReg(const char* n, Inst* (*m)(const Cfg&), Node (*d)(const Cfg&), unsigned f, int sw) :
        name{n}, make{m}, describe{d}, flags{f}, switches{sw}, next{head()}
    {
        head() = this;
    }
    static TreeReg*& head();
};
// tree traits used to choose trees for a property
enum TreeFlag : unsigned {
    tf_switch = 1,     // has run-time switches
    tf_help = 2,       // has a help node
    tf_lang = 4,       // multi-language root
    tf_strict = 8,     // all values live in the configured allocator or no heap at all
    tf_probe = 16,     // user types that can fail
    tf_pos = 32,       // positional, forwarding or variable length nodes
    tf_limits = 64,    // constraints
    tf_spell = 128,    // several spellings
    tf_exit = 256,     // help without a router
    tf_random = 512,
    tf_unicode = 1024,
};
}  // namespace sim
