#include "desc.hpp"
#include <algorithm>
#include <boost/lexical_cast/try_lexical_convert.hpp>
#include <cstdio>
#include <functional>
#include <optional>

namespace sim
{
std::string g_long_prefix = "--", g_short_prefix = "-";

// ------------------------------------------------------------------ text
namespace
{
bool decode(const std::string& s, std::vector<std::uint32_t>& out)
{
    for (std::size_t i = 0; i < s.size();) {
        const unsigned char c = s[i];
        std::uint32_t cp;
        int n;
        if (c < 0x80) cp = c, n = 1;
        else if (c >= 0xC2 && c < 0xE0) cp = c & 0x1F, n = 2;
        else if (c >= 0xE0 && c < 0xF0) cp = c & 0x0F, n = 3;
        else if (c >= 0xF0 && c < 0xF5) cp = c & 0x07, n = 4;
        else return false;
        if (i + n > s.size()) return false;
        for (int k = 1; k < n; ++k) {
            const unsigned char d = s[i + k];
            if ((d & 0xC0) != 0x80) return false;
            cp = (cp << 6) | (d & 0x3F);
        }
        if ((n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000)) return false;
        out.push_back(cp);
        i += n;
    }
    return true;
}
std::string put(std::uint32_t c)
{
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
bool combining(std::uint32_t c) { return c >= 0x300 && c <= 0x36F; }
bool wide(std::uint32_t c)
{
    return (c >= 0x4E00 && c <= 0x9FFF) || (c >= 0x3041 && c <= 0x3094) || (c >= 0x30A1 && c <= 0x30FC) || c == 0x3001 || c == 0x3002 || c == 0x300C || c == 0x300D ||
           c == 0xFF01 || c == 0xFF08 || c == 0xFF09 || c == 0xFF0C || c == 0xFF1A || c == 0xFF1F || (c >= 0xAC00 && c <= 0xD7A3);
}
bool known(std::uint32_t c)
{
    return (c >= 0x20 && c <= 0x7E) || (c >= 0xC0 && c <= 0x24F) || combining(c) || (c >= 0x391 && c <= 0x3C9 && c != 0x3A2) ||
           (c >= 0x410 && c <= 0x44F) || wide(c) || (c >= 0x2500 && c <= 0x257F);
}
}  // namespace
bool in_repertoire(const std::string& s)
{
    std::vector<std::uint32_t> v;
    if (!decode(s, v)) return false;
    return std::all_of(v.begin(), v.end(), known);
}
int text_width(const std::string& s)
{
    std::vector<std::uint32_t> v;
    decode(s, v);
    int w = 0;
    for (auto c : v) w += combining(c) ? 0 : wide(c) ? 2 : 1;
    return w;
}
std::vector<std::string> graphemes(const std::string& s)
{
    std::vector<std::uint32_t> v;
    decode(s, v);
    std::vector<std::string> r;
    for (auto c : v) {
        if (combining(c) && !r.empty()) r.back() += put(c);
        else r.push_back(put(c));
    }
    return r;
}
namespace
{
std::size_t distance(const std::string& a, const std::string& b)
{
    const auto x = graphemes(a), y = graphemes(b);
    std::vector<std::size_t> row(y.size() + 1);
    for (std::size_t j = 0; j <= y.size(); ++j) row[j] = j;
    for (std::size_t i = 1; i <= x.size(); ++i) {
        std::size_t diag = row[0];
        row[0] = i;
        for (std::size_t j = 1; j <= y.size(); ++j) {
            const std::size_t up = row[j];
            row[j] = std::min({row[j] + 1, row[j - 1] + 1, diag + (x[i - 1] == y[j - 1] ? 0 : 1)});
            diag = up;
        }
    }
    return row[y.size()];
}
// Line break classes (UAX 14) of the characters the generated texts are made of
enum LB { L_AL, L_NU, L_SP, L_HY, L_BA, L_BB, L_QU, L_OP, L_CL, L_CP, L_EX, L_IS, L_SY, L_PO, L_PR, L_ID, L_NS, L_CM, L_GL, L_B2, L_IN, L_RI, L_EB, L_EM, L_WJ, L_ZW, L_ZWJ };
LB break_class(std::uint32_t c)
{
    switch (c) {
    case ' ': return L_SP;
    case '-': return L_HY;
    case '|': case 0x2013: case 0x2010: case 0xAD: case '\t': return L_BA;
    case 0xB4: return L_BB;
    case '"': case '\'': case 0xAB: case 0xBB: case 0x2018: case 0x2019: case 0x201C: case 0x201D: return L_QU;
    case '(': case '[': case '{': case 0xA1: case 0xBF: case 0x300C: case 0xFF08: case 0x201E: case 0x201A: return L_OP;
    case '}': case 0x3001: case 0x3002: case 0x300D: case 0xFF09: case 0xFF0C: return L_CL;
    case ')': case ']': return L_CP;
    case '!': case '?': case 0xFF01: case 0xFF1F: return L_EX;
    case ',': case '.': case ':': case ';': return L_IS;
    case '/': return L_SY;
    case '%': case 0xA2: case 0xB0: case 0x2030: return L_PO;
    case '$': case '+': case '\\': case 0xA3: case 0xA5: case 0xB1: case 0x20AC: return L_PR;
    case 0xA0: case 0x202F: return L_GL;
    case 0x2014: return L_B2;
    case 0x2026: return L_IN;
    case 0x2060: return L_WJ;
    case 0x200B: return L_ZW;
    case 0x200D: return L_ZWJ;
    case 0x30FC: case 0xFF1A: case 0x30FB:
    case 0x3041: case 0x3043: case 0x3045: case 0x3047: case 0x3049: case 0x3063: case 0x3083: case 0x3085: case 0x3087: case 0x308E:
    case 0x30A1: case 0x30A3: case 0x30A5: case 0x30A7: case 0x30A9: case 0x30C3: case 0x30E3: case 0x30E5: case 0x30E7: case 0x30EE: case 0x30F5: case 0x30F6:
        return L_NS;
    default: break;
    }
    if (c >= '0' && c <= '9') return L_NU;
    if (combining(c)) return L_CM;
    if (c >= 0x1F1E6 && c <= 0x1F1FF) return L_RI;
    return wide(c) ? L_ID : L_AL;
}
// where a line may end: after v[i], for a text whose line begins at v[at]
bool may_break(const std::vector<std::uint32_t>& v, std::size_t at, std::size_t i)
{
    const LB n = break_class(v[i + 1]), raw = break_class(v[i]);
    // a mark belongs to what it follows (LB9, LB10)
    auto base = [&](std::size_t k) {
        while (k > at && break_class(v[k]) == L_CM) --k;
        const LB c = break_class(v[k]);
        return c == L_CM || c == L_ZWJ ? L_AL : c;
    };
    LB c = raw;
    if (raw == L_CM) {
        std::size_t k = i;
        while (k > at && break_class(v[k]) == L_CM) --k;
        c = break_class(v[k]);
        if (c == L_SP || c == L_ZW || c == L_CM) c = L_AL;
    }
    if (n == L_SP || n == L_ZW) return false;
    if (c == L_ZW) return true;
    if (raw == L_ZWJ) return false;
    if ((n == L_CM || n == L_ZWJ) && c != L_SP) return false;
    if (c == L_WJ || n == L_WJ || c == L_GL) return false;
    if (n == L_GL && c != L_SP && c != L_BA && c != L_HY) return false;
    if (n == L_CL || n == L_CP || n == L_EX || n == L_IS || n == L_SY) return false;
    std::size_t k = i;
    while (k > at && break_class(v[k]) == L_SP) --k;
    const LB q = base(k);
    if (q == L_OP || (q == L_QU && n == L_OP) || ((q == L_CL || q == L_CP) && n == L_NS) || (q == L_B2 && n == L_B2)) return false;
    if (c == L_SP) return true;
    if (n == L_QU || c == L_QU) return false;
    if (n == L_BA || n == L_HY || n == L_NS || c == L_BB || n == L_IN) return false;
    const bool ca = c == L_AL, na = n == L_AL;
    if ((ca && n == L_NU) || (c == L_NU && na)) return false;
    if ((c == L_PR && n == L_ID) || (c == L_ID && n == L_PO)) return false;
    if (((c == L_PR || c == L_PO) && na) || (ca && (n == L_PR || n == L_PO))) return false;
    if ((c == L_CL || c == L_CP || c == L_NU) && (n == L_PO || n == L_PR)) return false;
    if ((c == L_PO || c == L_PR) && (n == L_OP || n == L_NU)) return false;
    if ((c == L_HY || c == L_IS || c == L_NU || c == L_SY) && n == L_NU) return false;
    if ((ca && na) || (c == L_IS && na)) return false;
    if (((ca || c == L_NU) && n == L_OP) || (c == L_CP && (na || n == L_NU))) return false;
    if (c == L_RI && n == L_RI) {
        std::size_t run = 0;
        for (std::size_t j = i + 1; j > at && break_class(v[j - 1]) == L_RI; --j) ++run;
        return run % 2 == 0;
    }
    return true;
}
// Greedy lines
std::vector<std::string> wrap(const std::string& text, std::size_t width)
{
    std::vector<std::uint32_t> v;
    decode(text, v);
    std::vector<std::string> lines;
    std::size_t at = 0;
    bool first = true;
    while (at < v.size()) {
        if (!first) {
            while (at < v.size() && v[at] == ' ') ++at;
            if (at == v.size()) break;
        }
        first = false;
        std::size_t col = 0, brk = 0, i = at;
        for (; i < v.size(); ++i) {
            col += combining(v[i]) ? 0 : wide(v[i]) ? 2 : 1;
            if (col > width) break;
            if (i + 1 < v.size() && col > 0 && may_break(v, at, i)) brk = i + 1;
        }
        std::size_t end;
        if (i == v.size()) end = i;
        else if (i == at) end = at + 1;
        else end = brk > at ? brk : i;
        std::string line;
        for (; at < end; ++at) line += put(v[at]);
        lines.push_back(line);
    }
    return lines;
}
}  // namespace

std::string enc_str(const std::string& s)
{
    std::string r = "s";
    char b[8];
    for (unsigned char c : s) {
        if (c >= 0x20 && c < 0x7F && c != '|' && c != ';' && c != '%' && c != '[' && c != ']') r += (char)c;
        else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
    }
    return r;
}

// ------------------------------------------------------------------ nodes
bool Node::multi_stage() const
{
    if (kind == K::CFlag) return true;
    if (kind == K::AliasGroup) return !children.empty() && children.front().multi_stage();
    return false;
}
std::size_t Node::lo() const
{
    return kind == K::Flag || kind == K::CFlag ? 0 : kind == K::Arg ? 1 : kind == K::Help ? 0 : minc;
}
std::size_t Node::hi() const
{
    return kind == K::Flag || kind == K::CFlag ? 0 : kind == K::Arg ? 1 : kind == K::Help ? unbounded : maxc;
}
std::string default_message(int code)
{
    switch (code) {
    case 0: return "Unknown argument";
    case 1: return "Unhandled arguments";
    case 2: return "Argument has already been set";
    case 3: return "Failed to parse";
    case 4: return "No arguments passed";
    case 5: return "Minimum value not reached";
    case 6: return "Maximum value exceeded";
    case 7: return "Minimum count not reached";
    case 8: return "Maximum count exceeded";
    case 9: return "Unknown argument: {}. Did you mean { }?";
    case 100: return "Mode requires arguments";
    case 101: return "Missing required argument";
    case 102: return "Too few values for alias";
    case 103: return "Dependent argument missing (needs to be before the requiring token on the command line)";
    case 104: return "Only one argument from a \"One Of\" can be used at once";
    case 105: return "Expected a value separator";
    }
    return "?";
}
namespace
{
enum Code {
    unknown_argument, unhandled, already_set, failed_to_parse, no_arguments, below_min, above_max, few_count, many_count,
    unknown_suggest, mode_requires = 100, missing_required, few_alias, dependent_missing, one_of_mismatch, missing_sep
};
enum Pfx { p_long, p_short, p_none };
struct Tok {
    int p = p_none;
    std::string n;
    bool operator==(const Tok& o) const { return p == o.p && n == o.n; }
};
std::string str(const Tok& t) { return (t.p == p_long ? g_long_prefix : t.p == p_short ? g_short_prefix : "") + t.n; }
struct Err {
    int code;
    std::vector<Tok> toks;
};
struct UserFail {  // user code rejects the value with an exception of its own
    std::string outcome;
};
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
Tok classify(const std::string& s)
{
    if (starts(s, g_long_prefix)) return {p_long, s.substr(g_long_prefix.size())};
    if (starts(s, g_short_prefix)) return {p_short, s.substr(g_short_prefix.size())};
    return {p_none, s};
}
Tok classify_for(const Node& n, const std::string& s)
{
    if (!n.long_name.empty() && starts(s, g_long_prefix)) return {p_long, s.substr(g_long_prefix.size())};
    if (!n.short_name.empty() && starts(s, g_short_prefix) && !starts(s, g_long_prefix))
        return {p_short, s.substr(g_short_prefix.size())};
    return {p_none, s};
}
bool names(const Node& n, const Tok& t)
{
    return (t.p == p_long && !n.long_name.empty() && t.n == n.long_name) ||
           (t.p == p_short && !n.short_name.empty() && t.n == n.short_name) ||
           (t.p == p_none && !n.none_name.empty() && t.n == n.none_name);
}
std::string group_display(const Node& n)
{
    if (!n.display.empty()) return n.display;
    return n.kind == K::OneOf ? "One of: " : "Alias Group: ";
}
Tok called(const Node& n)
{
    if (n.kind == K::OneOf || n.kind == K::AliasGroup) {
        std::string s = group_display(n);
        bool first = true;
        for (auto& c : n.children) {
            if (!first) s += ",";
            first = false;
            s += str(called(c));
        }
        return {p_none, s};
    }
    if (n.kind == K::Mode && n.none_name.empty()) return {p_none, "(Anon mode)"};
    if (!n.display.empty()) return {p_none, n.display};
    if (!n.long_name.empty()) return {p_long, n.long_name};
    if (!n.short_name.empty()) return {p_short, n.short_name};
    return {p_none, n.none_name};
}
struct Target {
    const Node* node = nullptr;
    std::vector<Tok> toks;
    std::vector<Target> subs;
};
}
bool is_integer(VT t) { return t == VT::Int || t == VT::UInt || t == VT::I64 || t == VT::U64 || t == VT::I8 || t == VT::U8; }
bool is_real(VT t) { return t == VT::Double || t == VT::Float; }
namespace
{
struct Value {
    std::string enc;
    long double num = 0;
    bool is_num = false;
};
using Path = std::vector<const Node*>;  // nearest first

class Model
{
public:
    Model(const Node& root, int columns, Expect& e) : root_{root}, columns_{columns}, e_{e} {}

    void parse(std::vector<Tok> args)
    {
        const Tok front = args.empty() ? Tok{p_none, ""} : args.front();
        Target t;
        for (auto& c : root_.children) {
            if (pre_parse(c, {&root_}, args, nullptr, [](const Node&) { return true; }, t)) {
                if (!args.empty()) throw Err{unhandled, args};
                if (c.kind == K::Mode) run_mode(*t.node, t);
                else if (c.kind == K::Help) run_help(c, t);
                else {
                    auto v = convert_target(t);
                    e_.routes.push_back("R" + std::to_string(c.router) + ":" + v->enc);
                }
                return;
            }
        }
        if (front.n.empty()) throw Err{no_arguments, {}};
        unknown(root_, front);
    }
    std::string help_text(const Node& help, const Node& target, bool flat) const;

private:
    using Validator = std::function<bool(const Node&)>;

    [[noreturn]] void unknown(const Node& start, const Tok& tok)
    {
        const Tok typed = tok.p == p_none ? classify(tok.n) : tok;
        if (!in_repertoire(typed.n)) e_.loose_suggestion = true;
        std::vector<Tok> best;
        std::size_t score = ~std::size_t{0};
        std::function<void(const Node&, std::vector<const Node*>)> walk = [&](const Node& n, std::vector<const Node*> path) {
            if (n.off()) return;
            if (&n != &start) {
                auto consider = [&](int p, const std::string& name) {
                    if (name.empty()) return;
                    const auto s = distance(typed.n, name);
                    if (s < score) {
                        score = s;
                        best.clear();
                        for (auto* q : path) best.push_back(called(*q));
                        best.push_back({p, name});
                    }
                };
                consider(p_long, n.long_name);
                consider(p_short, n.short_name);
                consider(p_none, n.none_name);
                path.push_back(&n);
            }
            for (auto& c : n.children) walk(c, path);
        };
        walk(start, {});
        if (best.empty()) throw Err{unknown_argument, {tok}};
        best.insert(best.begin(), tok);
        throw Err{unknown_suggest, best};
    }

    // ---- does this node take the front of the line?
    bool pre_parse(const Node& n, Path parents, std::vector<Tok>& args, const Target* mode_target, const Validator& ok, Target& out)
    {
        if (n.kind == K::OneOf || n.kind == K::AliasGroup) {
            for (auto& c : n.children) {
                const Validator inner = [&](const Node& child) {
                    if (n.kind == K::OneOf && mode_target) {
                        for (auto& s : mode_target->subs)
                            for (auto& o : n.children)
                                if (&o != &c && s.node == &o) throw Err{one_of_mismatch, {called(n)}};
                    }
                    return ok(child);
                };
                Path p = parents;
                p.insert(p.begin(), &n);
                if (pre_parse(c, p, args, mode_target, inner, out)) return true;
            }
            return false;
        }
        if (n.kind == K::Mode) return pre_parse_mode(n, parents, args, ok, out);
        return pre_parse_leaf(n, parents, args, mode_target, ok, out);
    }

    bool pre_parse_leaf(const Node& n, const Path& parents, std::vector<Tok>& args, const Target* mode_target, const Validator& ok,
                        Target& out)
    {
        if (n.off()) return false;
        std::vector<Tok> all = args;
        std::size_t taken = 0;
        std::optional<Err> err;
        bool subs_only = false;
        Target t;
        t.node = &n;
        const bool nmd = n.named();

        if (!n.sep.empty() && !all.empty()) {
            const Tok first = all.front();
            const auto at = first.n.find(n.sep);
            if (at == std::string::npos) {
                const Tok c = first.p == p_none ? classify(first.n) : first;
                if (!names(n, c)) return false;
                err = Err{missing_sep, {called(n)}};
            } else {
                const std::string value = first.n.substr(at + n.sep.size());
                if (value.empty()) return false;
                all.front() = {first.p, first.n.substr(0, at)};
                all.insert(all.begin() + 1, Tok{p_none, value});
                taken = 2;
            }
        }
        if (!err && (n.kind == K::Flag || n.kind == K::CFlag) && !n.short_name.empty() && g_long_prefix != g_short_prefix &&
            !all.empty()) {
            Tok first = all.front();
            bool expand = true;
            if (first.p == p_none) {
                first = classify_for(n, first.n);
                expand = first.p == p_short;
            } else if (first.p == p_long) {
                expand = false;
            }
            if (expand && !first.n.empty() && first.n.size() != n.short_name.size()) {
                if (!in_repertoire(first.n)) e_.loose = true;
                const auto g = graphemes(first.n);
                all.erase(all.begin());
                for (std::size_t i = 1; i < g.size(); ++i) all.insert(all.begin() + (i - 1), Tok{p_short, g[i]});
                all.insert(all.begin(), Tok{p_short, g.empty() ? "" : g[0]});
                taken = 1;
            }
        }
        if (!err && !n.marker.empty()) {
            std::size_t i = nmd ? 1 : 0;
            while (i < all.size() && all[i].n != n.marker) ++i;
            if (i < all.size()) {
                all.erase(all.begin() + i);
            }
            taken = std::max(taken, std::min(i, all.size()));
        }
        if (!err && n.kind != K::Mode) {
            const std::size_t off = nmd ? 1 : 0;
            const std::size_t mn = n.lo() == unbounded ? unbounded : n.lo() + off;
            const std::size_t mx = n.hi() == unbounded ? unbounded : n.hi() + off;
            std::size_t num = all.size();
            if (!n.marker.empty()) {
                num = taken;
                if (num > mx) err = Err{many_count, {called(n)}};
            }
            if (!err && num < mn) err = Err{few_count, {called(n)}};
            if (!err && num > 0) taken = std::max(taken, std::min(mx, num));
        }
        if (!err && !n.aliases.empty()) {
            const std::size_t count = n.lo();
            if (count + 1 > all.size()) {
                err = Err{few_alias, {called(n)}};
            } else {
                Tok label = all.front();
                if (label.p == p_none) label = classify_for(n, label.n);
                if (!names(n, label)) return false;
                const Node* mode = nearest_mode(parents);
                std::vector<const Node*> found;
                alias_targets(*mode, n.aliases, found);
                if (found.empty()) return false;
                for (auto* f : found) {
                    Target s;
                    s.node = f;
                    s.toks.assign(all.begin() + 1, all.begin() + 1 + count);
                    t.subs.push_back(s);
                }
                all.erase(all.begin(), all.begin() + count + 1);
                taken = std::max(taken, count + 1) - (count + 1);
                subs_only = true;
            }
        }
        if (!err && !n.deps.empty()) {
            const Node* mode = nearest_mode(parents);
            std::vector<const Node*> found;
            named_nodes(*mode, n.deps, found);
            for (auto* f : found) {
                bool present = false;
                if (mode_target)
                    for (auto& s : mode_target->subs) present |= s.node == f;
                if (!present) {
                    err = Err{dependent_missing, {called(*f)}};
                    break;
                }
            }
        }
        if (nmd && !subs_only) {
            if (taken == 0) {
                if (all.empty()) return false;
                taken = 1;
            }
            if (all.front().p == p_none) all.front() = classify_for(n, all.front().n);
            if (!names(n, all.front())) return false;
        }
        if (!ok(n)) return false;
        if (err) throw *err;
        args.assign(all.begin() + taken, all.end());
        all.resize(taken);
        if (nmd && !all.empty()) all.erase(all.begin());
        t.toks = all;
        out = t;
        return true;
    }

    static const Node* nearest_mode(const Path& parents)
    {
        for (auto* p : parents)
            if (p->kind == K::Mode || p->kind == K::Root) return p;
        return parents.back();
    }
    static bool has_any(const Node& n, const std::vector<Name>& l)
    {
        for (auto& a : l)
            if (a.is_long ? n.long_name == a.name : n.short_name == a.name) return true;
        return false;
    }
    static void named_nodes(const Node& n, const std::vector<Name>& l, std::vector<const Node*>& out)
    {
        if (has_any(n, l)) out.push_back(&n);
        for (auto& c : n.children) named_nodes(c, l, out);
    }
    static void alias_targets(const Node& mode, const std::vector<Name>& l, std::vector<const Node*>& out)
    {
        std::function<void(const Node&)> walk = [&](const Node& n) {
            if (n.off()) return;
            if (has_any(n, l)) {
                if (!n.aliases.empty()) alias_targets(mode, n.aliases, out);
                else out.push_back(&n);
            }
            for (auto& c : n.children) walk(c);
        };
        walk(mode);
    }

    bool pre_parse_mode(const Node& n, const Path& parents, std::vector<Tok>& args, const Validator&, Target& out)
    {
        if (n.off()) return false;
        Path p = parents;
        p.insert(p.begin(), &n);
        if (!n.none_name.empty()) {
            if (args.empty()) return false;
            // a mode is only ever recognised by its bare name
            const Tok t = args.front();
            if (t.p != p_none || t.n != n.none_name) return false;
            args.erase(args.begin());
            if (!args.empty()) {
                for (auto& c : n.children)
                    if (c.kind == K::Mode && pre_parse(c, p, args, nullptr, [](const Node&) { return true; }, out)) return true;
            }
        }
        Target target;
        target.node = &n;
        std::vector<bool> matched(n.children.size(), false);
        while (!args.empty()) {
            const Tok front = args.front();
            Target m;
            bool hit = false;
            for (std::size_t i = 0; i < n.children.size() && !hit; ++i) {
                const Node& c = n.children[i];
                if (c.kind == K::Mode) continue;
                const Validator ok = [&](const Node& child) {
                    if (child.multi_stage()) return true;
                    if (!child.named()) return !matched[i];
                    if (matched[i]) throw Err{already_set, {front}};
                    return true;
                };
                hit = pre_parse(c, p, args, &target, ok, m);
                if (hit) matched[i] = true;
            }
            if (!hit) {
                if (std::all_of(matched.begin(), matched.end(), [](bool b) { return b; })) throw Err{unhandled, args};
                unknown(n, front);
            }
            if (m.subs.empty()) target.subs.push_back(m);
            else
                for (auto& s : m.subs) target.subs.push_back(s);
        }
        out = target;
        return true;
    }

    // ---- values
    // a decimal number with an optional sign, which the type can hold
    static std::optional<__int128> integer(const std::string& s, VT t)
    {
        std::size_t i = 0;
        bool neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        if (i == s.size()) return std::nullopt;
        __int128 v = 0;
        for (; i < s.size(); ++i) {
            if (s[i] < '0' || s[i] > '9') return std::nullopt;
            if (v < ((__int128)1 << 100)) v = v * 10 + (s[i] - '0');
        }
        if (neg) v = -v;
        const auto two = [](int n) { return (__int128)1 << n; };
        __int128 lo = 0, hi = 0;
        switch (t) {
        case VT::UInt: hi = two(32) - 1; break;
        case VT::U64: hi = two(64) - 1; break;
        case VT::U8: hi = 255; break;
        case VT::I64: lo = -two(63), hi = two(63) - 1; break;
        case VT::I8: lo = -128, hi = 127; break;
        default: lo = -two(31), hi = two(31) - 1; break;
        }
        if (v < lo || v > hi) return std::nullopt;
        return v;
    }
    Value convert(const Node& n, const std::string& s)
    {
        const Err bad{failed_to_parse, {{p_none, s}}};
        Value v;
        switch (n.vt) {
        case VT::Bool: {
            for (auto* t : {"true", "yes", "y", "on", "1", "enable"})
                if (s == t) return {"b1", 1, false};
            for (auto* t : {"false", "no", "n", "off", "0", "disable"})
                if (s == t) return {"b0", 0, false};
            throw bad;
        }
        case VT::OptInt:
        case VT::Int:
        case VT::UInt:
        case VT::I64:
        case VT::U64:
        case VT::I8:
        case VT::U8: {
            const auto i = integer(s, n.vt);
            if (!i) throw bad;
            const bool neg = *i < 0;
            return {std::string("i") + (neg ? "-" : "") + std::to_string((unsigned long)(neg ? -*i : *i)), (long double)*i, n.vt != VT::OptInt};
        }
        case VT::Char:
            if (s.size() != 1) throw bad;
            return {"c" + std::to_string((int)(unsigned char)s[0]), 0, false};
        case VT::Float: {
            float f = 0;
            if (!boost::conversion::try_lexical_convert(s, f)) throw bad;
            char b[64];
            snprintf(b, sizeof b, "f%a", f);
            return {b, f, true};
        }
        case VT::Double: {
            double d = 0;
            if (!boost::conversion::try_lexical_convert(s, d)) throw bad;
            char b[64];
            snprintf(b, sizeof b, "d%a", d);
            return {b, d, true};
        }
        case VT::Str:
        case VT::View: return {enc_str(s), 0, false};
        case VT::Probe:
            if (starts(s, "!ml")) throw bad;
            if (starts(s, "!pe")) throw UserFail{"parse_exception:rejected by user: " + s};
            if (starts(s, "!ue")) throw UserFail{"user:1000"};
            if (starts(s, "!pt")) throw UserFail{"parse_exception:rejected: " + str({p_long, "other"})};
            if (starts(s, "!pv")) throw UserFail{"parse_exception:rejected: " + s + ", " + str({p_long, "other"}) + ", " + str({p_short, "o"})};
            if (starts(s, "!mt")) throw Err{unhandled, {{p_short, "o"}, {p_none, s}, {p_long, "other"}}};
            if (starts(s, "!m0")) throw Err{unknown_suggest, {}};
            if (starts(s, "!m1")) throw Err{unknown_suggest, {{p_long, "other"}}};
            if (starts(s, "!mc")) throw UserFail{"parse_exception:Untranslated error code (4711): " + s + ", " + str({p_short, "o"})};
            return {"p" + enc_str(s), 0, false};
        case VT::Enum:
            if (s == "red") return {"e0", 0, false};
            if (s == "green") return {"e1", 1, false};
            if (s == "blue") return {"e2", 2, false};
            throw bad;
        default: return {"b1", 1, false};
        }
    }
    void validate(const Node& n, const Value& v) const
    {
        if (!v.is_num) return;
        if (n.has_min && v.num < n.minv) throw Err{below_min, {called(n)}};
        if (n.has_max && v.num > n.maxv) throw Err{above_max, {called(n)}};
    }
    std::optional<Value> convert_target(const Target& t)
    {
        const Node& n = *t.node;
        Value v;
        if (n.kind == K::Flag || n.kind == K::CFlag) return Value{"b1", 1, false};
        if (n.list) {
            v.enc = "[";
            bool first = true;
            for (auto& k : t.toks) {
                if (!first) v.enc += ";";
                first = false;
                v.enc += convert(n, k.n).enc;
            }
            v.enc += "]";
            return v;
        }
        if (t.toks.empty()) v = empty_value(n);
        else v = convert(n, t.toks.front().n);
        validate(n, v);
        return v;
    }
    Value empty_value(const Node& n) const
    {
        if (n.list) return {"[]", 0, false};
        switch (n.kind == K::CFlag ? VT::Int : n.kind == K::Flag ? VT::Bool : n.vt) {
        case VT::Bool: return {"b0", 0, false};
        case VT::Int:
        case VT::UInt:
        case VT::I64:
        case VT::U64:
        case VT::I8:
        case VT::U8: return {"i0", 0, true};
        case VT::Char: return {"c0", 0, false};
        case VT::Float: return {"f0x0p+0", 0, true};
        case VT::OptInt: return {"n", 0, false};
        case VT::Double: return {"d0x0p+0", 0, true};
        case VT::Probe: return {"p" + enc_str(""), 0, false};
        case VT::Enum: return {"e0", 0, false};
        default: return {enc_str(""), 0, false};
        }
    }
    void run_mode(const Node& n, const Target& target)
    {
        std::vector<std::optional<Value>> results(n.children.size());
        for (auto& s : target.subs) {
            auto v = convert_target(s);
            for (std::size_t i = 0; i < n.children.size(); ++i) {
                const Node& c = n.children[i];
                const bool group = c.kind == K::OneOf || c.kind == K::AliasGroup;
                bool mine = &c == s.node;
                if (group)
                    for (auto& g : c.children) mine |= &g == s.node;
                if (!mine) continue;
                if (s.node->multi_stage()) {
                    const long k = results[i] ? results[i]->num + 1 : 1;
                    results[i] = Value{"i" + std::to_string(k), k, true};
                } else {
                    if (results[i]) throw Err{already_set, {called(*s.node)}};
                    if (c.kind == K::OneOf) v->enc = "v(" + v->enc + ")";
                    results[i] = v;
                }
                break;
            }
        }
        for (std::size_t i = 0; i < n.children.size(); ++i) {
            const Node& c = n.children[i];
            if (skipped(c) || results[i]) continue;
            if (c.required) throw Err{missing_required, {called(c)}};
            if (c.rt_required == 1) throw Err{missing_required, {called(c)}};
            if (c.has_default) {
                const auto& like = c.kind == K::AliasGroup ? c.children.front() : c;
                results[i] = Value{c.def, c.def_num, !c.list && (like.kind == K::CFlag || is_integer(like.vt) || is_real(like.vt))};
            } else {
                results[i] = empty_value(c.kind == K::AliasGroup ? c.children.front() : c);
            }
            if (!c.off()) validate(c, *results[i]);
        }
        for (std::size_t i = 0; i < n.children.size(); ++i) {
            const Node& c = n.children[i];
            if (skipped(c) || !c.multi_stage() || c.off()) continue;
            validate(c, *results[i]);
        }
        if (n.router < 0) throw Err{mode_requires, {called(n)}};
        std::string r = "R" + std::to_string(n.router) + ":";
        bool first = true;
        for (std::size_t i = 0; i < n.children.size(); ++i) {
            if (skipped(n.children[i])) continue;
            if (!first) r += "|";
            first = false;
            r += results[i]->enc;
        }
        e_.routes.push_back(r);
    }
    static bool skipped(const Node& c) { return c.kind == K::Mode || c.kind == K::Help || !c.aliases.empty() || c.no_result; }

    // ---- help
    void run_help(const Node& help, const Target& t)
    {
        const Node* at = &root_;
        for (auto& k : t.toks) {
            const Node* next = nullptr;
            for (auto& c : at->children) {
                if (c.off()) continue;
                if (names(c, classify_for(c, k.n))) {
                    next = &c;
                    break;
                }
            }
            if (!next) throw Err{unknown_argument, {k}};
            at = next;
        }
        const auto text = help_text(help, *at, help.flatten || at != &root_);
        if (help.router >= 0) {
            e_.routes.push_back("R" + std::to_string(help.router) + ":" + enc_str(text));
        } else {
            e_.cout_text = text;
            e_.exited = true;
        }
    }
    struct Line {
        std::string label, desc;
        std::vector<Line> kids;
    };
    static std::string limits(const Node& n)
    {
        if (!n.ct_limits || (!n.has_min && !n.has_max)) return "";
        const std::string lo = n.has_min ? std::to_string((long)n.minv) : n.unsigned_limits ? "0" : "-N";
        const std::string hi = n.has_max ? std::to_string((long)n.maxv) : "N";
        return "<" + lo + "-" + hi + ">";
    }
    static std::string counts(const Node& n)
    {
        if (n.lo() == n.hi()) return "[" + std::to_string(n.lo()) + "]";
        return "[" + std::to_string(n.lo()) + "," + (n.hi() == unbounded ? "N" : std::to_string(n.hi())) + "]";
    }
    static std::string label(const Node& n)
    {
        switch (n.kind) {
        case K::Root: return "";
        case K::Mode: return n.none_name.empty() ? " " : n.none_name;
        case K::Pos: return "<" + n.display + "> " + counts(n);
        case K::OneOf: return group_display(n);
        case K::AliasGroup: return group_display(n) + limits(n);
        default: break;
        }
        std::string s;
        if (!n.long_name.empty()) s = g_long_prefix + n.long_name;
        if (!n.short_name.empty()) s += (s.empty() ? "" : ",") + g_short_prefix + n.short_name;
        if (s.empty()) s = n.none_name;
        if (n.kind == K::Multi || n.kind == K::Fwd) return s + " " + counts(n);
        if (n.kind == K::Arg) {
            const auto l = limits(n);
            s += (n.sep.empty() ? " " : n.sep) + (l.empty() ? "<Value>" : l);
        }
        return s;
    }
    // static: the column is computed from the whole tree, switched off nodes included
    static Line lines(const Node& n, bool flat, bool everything)
    {
        Line l{label(n), n.desc, {}};
        if (n.kind == K::Mode && !n.none_name.empty() && !flat) return l;
        for (auto& c : n.children) {
            if (!everything && c.off()) continue;
            l.kids.push_back(lines(c, flat, everything));
        }
        if ((n.kind == K::OneOf || n.kind == K::AliasGroup) && (l.kids.size() > 1)) {
            for (std::size_t i = 0; i < l.kids.size(); ++i)
                l.kids[i].label = (i == 0 ? "┌ " : i + 1 == l.kids.size() ? "└ " : "├ ") + l.kids[i].label;
        }
        return l;
    }
    static int column(const Line& l, int depth, int indent)
    {
        int m = depth * indent + text_width(l.label) + indent;
        for (auto& k : l.kids) m = std::max(m, column(k, depth + 1, indent));
        return m;
    }
    static void print(std::string& out, const Line& l, int depth, int indent, int col, int columns, bool colour)
    {
        if (!l.label.empty()) {
            if (colour) out += "\033[31m";
            out += std::string(depth * indent, ' ') + l.label;
            if (!l.desc.empty()) {
                if (colour) out += "\033[32m";
                out += std::string(col - depth * indent - text_width(l.label), ' ');
                const std::size_t width = columns >= col + 2 * indent ? columns - col : 1u << 30;
                bool first = true;
                for (auto& s : wrap(l.desc, width)) {
                    if (!first) out += "\n" + std::string(col, ' ');
                    first = false;
                    out += s;
                }
            }
            out += "\n";
            if (colour) out += "\033[0m";
        }
        for (auto& k : l.kids) print(out, k, depth + 1, indent, col, columns, colour);
    }
    const Node& root_;
    int columns_;
    Expect& e_;
};
std::string Model::help_text(const Node& help, const Node& target, bool flat) const
{
    std::string out;
    if (!help.prog.empty()) {
        out += help.prog;
        if (!help.version.empty()) out += " " + help.version;
        out += "\n\n";
    }
    if (!help.intro.empty()) out += help.intro + "\n\n";
    const int col = column(lines(target, flat, true), 0, help.indent);
    print(out, lines(target, flat, false), 0, help.indent, col, columns_, help.colour);
    if (!help.addendum.empty()) out += "\n" + help.addendum + "\n";
    return out;
}
std::string message(const Node& root, const Err& e)
{
    const auto it = root.messages.find(e.code);
    std::string m = it == root.messages.end() ? default_message(e.code) : it->second;
    std::vector<std::string> t;
    for (auto& k : e.toks) t.push_back(str(k));
    if (m.find('{') == std::string::npos) {
        if (t.empty()) return m;
        m += ": {, }";
    }
    std::string out;
    std::size_t used = 0;
    for (std::size_t i = 0; i < m.size(); ++i) {
        if (m[i] != '{') { out += m[i]; continue; }
        const auto end = m.find('}', i);
        const std::string join = m.substr(i + 1, end - i - 1);
        if (used < t.size()) out += t[used++];
        if (!join.empty())
            while (used < t.size()) out += join + t[used++];
        i = end;
    }
    return out;
}
}  // namespace

Expect model_parse(const Node& root, const std::vector<std::string>& tokens, int columns)
{
    Expect e;
    std::vector<Tok> args;
    for (auto& s : tokens) args.push_back({p_none, s});
    Model m{root, columns, e};
    try {
        m.parse(args);
        e.outcome = e.exited ? "exit:0" : "ok";
        e.klass = e.outcome;
    } catch (const Err& x) {
        e.outcome = "parse_exception:" + message(root, x);
        e.error = x.code;
        e.klass = "err" + std::to_string(x.code);
        if (e.loose_suggestion) {
            const auto at = e.outcome.find("Did you mean ");
            if (at != std::string::npos) e.outcome.resize(at);
            else e.loose = true;
        }
    } catch (const UserFail& x) {
        e.outcome = x.outcome;
        e.klass = "user";
    }
    return e;
}
std::string model_help(const Node& root, int columns)
{
    for (auto& c : root.children) {
        if (c.kind == K::Help) {
            Expect e;
            return Model{root, columns, e}.help_text(c, root, c.flatten);
        }
    }
    return {};
}
}  // namespace sim
