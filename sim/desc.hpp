// A run-time description of a parse tree, and the reference model that predicts what a call does with it.
// The model is written from the documented behaviour; it shares no code with arg_router.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim
{
enum class K { Root, Mode, Flag, CFlag, Arg, Multi, Pos, Fwd, Help, OneOf, AliasGroup };
// value types a node converts tokens to
enum class VT { None, Bool, Int, Double, Str, View, Probe, Enum, OptInt, UInt, I64, U64, I8, U8, Float, Char };
bool is_integer(VT);            // the plain integer types
bool is_real(VT);

struct Name {
    bool is_long;
    std::string name;
};
struct Node {
    K kind = K::Flag;
    std::string long_name, short_name, none_name, display, desc;
    std::string sep, marker;
    std::size_t minc = 0, maxc = 0;
    bool list = false;
    VT vt = VT::None;
    bool required = false;
    bool has_default = false;
    std::string def;          // encoded
    long double def_num = 0;
    int enable = -1;          // -1 no switch, 0 off, 1 on
    int rt_required = -1;     // as above
    std::vector<Name> aliases, deps;
    bool has_min = false, has_max = false, ct_limits = false, unsigned_limits = false;
    long double minv = 0, maxv = 0;
    bool no_result = false;
    int router = -1;
    // help node
    bool flatten = false, colour = false;
    std::string prog, version, intro, addendum;
    int indent = 4;
    // root
    std::map<int, std::string> messages;   // overrides of the default messages
    std::vector<Node> children;

    bool named() const { return !long_name.empty() || !short_name.empty() || !none_name.empty(); }
    bool off() const { return enable == 0 || rt_required == 0; }
    bool multi_stage() const;
    std::size_t lo() const;
    std::size_t hi() const;
};
constexpr std::size_t unbounded = ~std::size_t{0};

// per tree instance parameters
struct Cfg {
    std::uint32_t en = ~0u;              // run-time switches
    long v[8] = {0, 0, 0, 0, 0, 0, 0, 0};  // run-time limits and the like
    std::string lang;                    // language identifier
    bool e(int i) const { return (en >> i) & 1u; }
};

struct Expect {
    std::string outcome;                 // as OpRec::outcome
    std::vector<std::string> routes;
    std::string cout_text, text;
    bool exited = false;
    // parts of the prediction that depend on text outside the model's repertoire
    bool loose = false;                  // only "routes xor rejects" is predicted
    bool loose_suggestion = false;       // everything but the suggestion is predicted
    // bookkeeping for coverage
    int error = -1;                      // error code or -1
    std::string klass;                   // outcome class
};

// prefixes the library was configured with
extern std::string g_long_prefix, g_short_prefix;

Expect model_parse(const Node& root, const std::vector<std::string>& tokens, int columns);
std::string model_help(const Node& root, int columns);          // the help() of a root
std::string enc_str(const std::string& s);
bool in_repertoire(const std::string& s);
int text_width(const std::string& s);
std::vector<std::string> graphemes(const std::string& s);
// The layout rules of P09, checked on a text directly (used where a terminal width is in force)
std::string default_message(int code);
}  // namespace sim
