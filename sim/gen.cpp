// Seeded generation of runs: trees, configurations, command lines, faults and schedules.
#include "plan.hpp"
#include "registry.hpp"
#include <algorithm>
#include <cstring>
#include <functional>

namespace sim
{
namespace
{
struct Profile {
    unsigned trees = 0;         // prefer trees with any of these flags (0: all)
    unsigned must = 0;          // only trees with all of these flags
    int max_tasks = 1, multi_pc = 0;
    int ops_lo = 1, ops_hi = 6;
    int fault_pc = 0;           // chance of a fault per call
    int help_pc = 6;            // chance of help() calls
    int help_line_pc = 12;      // chance of a help request in a command line
    int mutate_pc = 35;         // chance that a line is damaged
    int want_ok_pc = 60;
    int junk_pc = 6;            // chance of an arbitrary token list
    int fresh_pc = 6;
    bool pairs = false, entries = false, sweep = false;
    int odd_cols_pc = 20;
    int deep_sched = 64;
};
Profile profile(const std::string& p, bool thorough)
{
    Profile f;
    f.deep_sched = thorough ? 256 : 64;
    if (p == "P01") { f.max_tasks = 4; f.multi_pc = 65; f.fault_pc = 15; f.ops_hi = 6; f.fresh_pc = 10; }
    else if (p == "P02") { f.max_tasks = 2; f.multi_pc = 15; f.fault_pc = 35; f.mutate_pc = 45; f.want_ok_pc = 50; }
    else if (p == "P03") { f.max_tasks = 3; f.multi_pc = 25; f.fault_pc = 60; f.help_pc = 12; f.sweep = true; }
    else if (p == "P04") { f.max_tasks = 2; f.multi_pc = 20; f.fault_pc = 8; f.mutate_pc = 15; f.want_ok_pc = 85; f.entries = true; f.help_line_pc = 3; f.help_pc = 1; }
    else if (p == "P05") { f.max_tasks = 2; f.multi_pc = 20; f.fault_pc = 8; f.mutate_pc = 30; f.want_ok_pc = 45; f.help_line_pc = 3; f.help_pc = 1; }
    else if (p == "P06") { f.max_tasks = 2; f.multi_pc = 35; f.mutate_pc = 0; f.pairs = true; f.help_pc = 0; f.help_line_pc = 0; f.junk_pc = 0; f.trees = tf_spell | tf_limits | tf_switch | tf_lang; }
    else if (p == "P07") { f.must = tf_switch; f.max_tasks = 3; f.multi_pc = 30; f.fault_pc = 5; f.help_pc = 15; f.help_line_pc = 15; f.fresh_pc = 12; }
    else if (p == "P08") { f.max_tasks = 2; f.multi_pc = 20; f.fault_pc = 4; f.mutate_pc = 80; f.want_ok_pc = 5; f.junk_pc = 15; }
    else if (p == "P09") { f.trees = tf_help; f.max_tasks = 3; f.multi_pc = 25; f.fault_pc = 25; f.help_pc = 60; f.help_line_pc = 80; f.odd_cols_pc = 75; f.ops_hi = 4; }
    else if (p == "P10") { f.must = tf_lang; f.max_tasks = 3; f.multi_pc = 35; f.fault_pc = 5; f.help_pc = 12; f.help_line_pc = 15; f.fresh_pc = 15; }
    else if (p == "P11") { f.max_tasks = 2; f.multi_pc = 20; f.fault_pc = 10; f.mutate_pc = 60; f.junk_pc = 35; f.want_ok_pc = 35; f.help_pc = 3; }
    else if (p == "P12") { f.max_tasks = 2; f.multi_pc = 20; f.fault_pc = 40; }
    else if (p == "P13") { f.max_tasks = 2; f.multi_pc = 15; f.fault_pc = 15; f.mutate_pc = 70; f.junk_pc = 50; f.want_ok_pc = 20; f.odd_cols_pc = 60; f.help_pc = 12; f.ops_hi = 8; }
    else if (p == "P14") { f.trees = tf_pos; f.max_tasks = 2; f.multi_pc = 15; f.fault_pc = 6; f.mutate_pc = 40; f.help_pc = 1; f.help_line_pc = 3; }
    else if (p == "P15") { f.trees = tf_help | tf_exit; f.max_tasks = 3; f.multi_pc = 30; f.fault_pc = 30; f.help_line_pc = 80; f.help_pc = 4; f.odd_cols_pc = 35; f.ops_hi = 4; }
    return f;
}

struct Item {
    const Node* n = nullptr;
    std::vector<std::string> vals;
    int repeats = 1;
    bool more_follow = false;
};
struct Line {
    std::vector<std::string> head;   // mode path
    std::vector<Item> items;
};

class LineGen
{
public:
    LineGen(const Node& root, Rng& r, const Profile& f) : root_{root}, r_{r}, f_{f} { collect(root); }

    std::vector<std::string> line()
    {
        if (r_.chance(f_.junk_pc)) return junk();
        const bool want_ok = r_.chance(f_.want_ok_pc);
        std::vector<std::string> best;
        for (int k = 0; k < 10; ++k) {
            auto l = structured(want_ok && k < 9);
            if (!want_ok && r_.chance(f_.mutate_pc)) mutate(l);
            if (!want_ok) return l;
            const auto e = model_parse(root_, l, -1);
            best = l;
            if (e.outcome == "ok" || e.exited) return l;
        }
        return best;
    }
    // two spellings of one line
    bool pair(std::vector<std::string>& a, std::vector<std::string>& b)
    {
        for (int k = 0; k < 20; ++k) {
            const Node* m = pick_mode(true);
            Line l;
            if (!m) return false;
            l.head = path_;
            l.items = items(*m, true);
            mode_ = m;
            a = render(l, true);
            for (int j = 0; j < 6; ++j) {
                b = render(l, true);
                if (b != a) break;
            }
            if (a == b) continue;
            const auto x = model_parse(root_, a, -1), y = model_parse(root_, b, -1);
            if (x.loose || y.loose || (x.outcome == "ok") != (y.outcome == "ok") || x.routes != y.routes) {
                ++disagree;
                continue;
            }
            if (x.outcome != "ok" && !r_.chance(25)) continue;
            return true;
        }
        return false;
    }
    static inline long disagree = 0;

    std::vector<std::string> junk()
    {
        std::vector<std::string> l;
        const int n = r_.chance(5) ? 0 : (int)r_.logu(r_.chance(4) ? 60 : 7);
        for (int i = 0; i < n; ++i) l.push_back(word(50));
        return l;
    }

private:
    void collect(const Node& n)
    {
        if (!n.long_name.empty()) { names_.push_back(n.long_name); spelled_.push_back(g_long_prefix + n.long_name); }
        if (!n.short_name.empty()) { names_.push_back(n.short_name); spelled_.push_back(g_short_prefix + n.short_name); }
        if (!n.none_name.empty()) { names_.push_back(n.none_name); spelled_.push_back(n.none_name); }
        if (!n.marker.empty()) spelled_.push_back(n.marker);
        if (!n.sep.empty()) seps_.push_back(n.sep);
        for (auto& c : n.children) collect(c);
    }
    std::string chars(int n)
    {
        static const char* pool[] = {"a", "b", "z", "A", "0", "7", "-", "=", " ", ".", ",", "/", ":", "e\xcc\x81", "\xc3\xa9", "\xc3\x9f", "\xd0\xbf", "\xd1\x8f", "\xe6\x97\xa5",
                                     "\xe3\x81\x82", "\xed\x95\x9c", "\xce\xb1", "x", "y", "q", "n", "_", "{", "}", "\xe2\x94\x80"};
        std::string s;
        for (int i = 0; i < n; ++i) s += pool[r_.below(std::size(pool))];
        return s;
    }
    std::string bytes(int n)
    {
        static const char* pool[] = {"\xff", "\xc3", "\xe3\x81", "\xe3", "\xf0\x9f\x98", "\xf0", "\xdf", "\xef", "\xef\xbf", "\x80", "\xbf", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xe2\x80\x8d",
                                     "\xf0\x9f\x91\xa9", "\xf0\x9f\x87\xac", "\xe2\x80\xae", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf", "\t", "\n", "\x1b[31m", "\x7f", "\x01", "%s", "\xcc\x81", "\xe0\xb8\xb3", "a", "-"};
        std::string s;
        for (int i = 0; i < n; ++i) s += pool[r_.below(std::size(pool))];
        return s;
    }
    std::string misspell(std::string s)
    {
        auto g = graphemes(s);
        const int n = 1 + (int)r_.below(2);
        for (int i = 0; i < n; ++i) {
            const auto at = r_.below(g.size() + 1);
            switch (r_.below(3)) {
            case 0: g.insert(g.begin() + at, chars(1)); break;
            case 1: if (at < g.size() && g.size() > 1) g.erase(g.begin() + at); break;
            default: if (at < g.size()) g[at] = chars(1); break;
            }
        }
        std::string o;
        for (auto& x : g) o += x;
        return o;
    }
    // an arbitrary token; odd: percent chance that it is hostile
    std::string word(int odd)
    {
        if (r_.chance(odd)) {
            switch (r_.below(9)) {
            case 0: return "";
            case 1: return bytes(1 + (int)r_.below(4));
            case 2: return g_short_prefix + bytes(1 + (int)r_.below(3));
            case 3: return g_long_prefix + bytes(1 + (int)r_.below(3));
            case 4: {
                auto s = r_.pick(spelled_of());
                return s + bytes(1);
            }
            case 5: {
                auto s = r_.pick(spelled_of());
                return s.substr(0, r_.below(s.size() + 1));
            }
            case 6: return std::string(r_.logu(3000), "ax-"[r_.below(3)]);
            case 7: return g_short_prefix + chars(1 + (int)r_.below(6));
            default: return r_.chance(50) ? g_long_prefix : g_short_prefix;
            }
        }
        switch (r_.below(12)) {
        case 0: return std::to_string(r_.range(-20, 120));
        case 1: return "42";
        case 2: return r_.pick(spelled_of());
        case 3: return g_long_prefix + misspell(r_.pick(names_of()));
        case 4: return misspell(r_.pick(names_of()));
        case 5: return r_.pick(names_of());
        case 6: return g_short_prefix + misspell(r_.pick(names_of()));
        case 7: return chars(1 + (int)r_.below(5));
        case 8: return "file.txt";
        case 9: return "--";
        case 10: return r_.pick(spelled_of()) + (seps_.empty() ? "=" : r_.pick(seps_)) + value_word();
        default: return value_word();
        }
    }
    std::vector<std::string>& names_of() { if (names_.empty()) names_.push_back("x"); return names_; }
    std::vector<std::string>& spelled_of() { if (spelled_.empty()) spelled_.push_back("-x"); return spelled_; }
    std::string value_word()
    {
        static const char* pool[] = {"a", "file.txt", "some text", "/tmp/a b", "x=y", "7", "0", "-3", "12", "red", "green", "blue", "true", "no", "1.5", "h\xc3\xa9llo",
                                     "\xe6\x97\xa5\xe6\x9c\xac", "", "a|b;c%d[e]", "-x", "--", "a.long.value.that.will.not.fit.in.a.small.string.buffer"};
        return pool[r_.below(std::size(pool))];
    }
    static long least(VT t) { return t == VT::I8 ? -128 : t == VT::I64 ? -(1l << 62) : t == VT::Int ? -(1l << 31) : 0; }
    std::string int_word(const Node& n, bool good)
    {
        if (!good && r_.chance(35)) {
            static const char* bad[] = {"", "abc", "1x", " 1", "1 ", "99999999999", "-99999999999", "0x10", "1.0", "--1", "+", "\xd9\xa3", "1e2"};
            return bad[r_.below(std::size(bad))];
        }
        if (n.has_min || n.has_max) {
            long lo = n.has_min ? n.minv : n.maxv - 20, hi = n.has_max ? n.maxv : n.minv + 20;
            if (good && n.vt != VT::Int && lo < least(n.vt)) lo = least(n.vt);
            if (good) {
                if (hi < lo) return std::to_string(lo);
                return std::to_string(r_.chance(40) ? (r_.chance(50) ? lo : hi) : lo + (long)r_.below((std::uint64_t)(hi - lo + 1)));
            }
            const long c[] = {lo - 1, lo, hi, hi + 1, lo - 100, hi + 100, -2147483648l, 2147483647l, (1l << 32) + lo, (1l << 32) + hi, lo - (1l << 32), lo + 256, hi - 256};
            return std::to_string(c[r_.below(n.vt == VT::Int || n.vt == VT::OptInt ? 8 : 13)]);
        }
        if (n.vt == VT::UInt || n.vt == VT::U64 || n.vt == VT::U8 || n.vt == VT::I8 || n.vt == VT::I64) {
            static const char* small[] = {"0", "1", "7", "42", "127", "+5", "007", "-0"};
            static const char* all[] = {"-1", "-128", "-129", "128", "255", "256", "-256", "4294967295", "4294967296", "-4294967295", "9223372036854775807", "9223372036854775808",
                                        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "a", "\x01", "65", "0x1f"};
            return good || r_.chance(30) ? small[r_.below(std::size(small))] : all[r_.below(std::size(all))];
        }
        static const char* w[] = {"0", "1", "-1", "7", "42", "2147483647", "-2147483648", "+5", "007", "-0", "123456"};
        return w[r_.below(std::size(w))];
    }
    std::string value(const Node& n, bool good)
    {
        switch (n.vt) {
        case VT::Int:
        case VT::UInt:
        case VT::I64:
        case VT::U64:
        case VT::I8:
        case VT::U8:
        case VT::OptInt: return int_word(n, good);
        case VT::Char: {
            static const char* w[] = {"a", "Z", "7", "%", ";"};
            static const char* b[] = {"", "ab", "\xc3\xa9", "65", "  "};
            return good || r_.chance(60) ? w[r_.below(5)] : b[r_.below(5)];
        }
        case VT::Bool: {
            static const char* w[] = {"true", "yes", "y", "on", "1", "enable", "false", "no", "n", "off", "0", "disable"};
            static const char* b[] = {"True", "", "maybe", "2", "tru", "yess"};
            return good || r_.chance(60) ? w[r_.below(12)] : b[r_.below(6)];
        }
        case VT::Float:
        case VT::Double: {
            if (n.has_min || n.has_max) {
                const double lo = n.has_min ? n.minv : n.maxv - 20, hi = n.has_max ? n.maxv : n.minv + 20;
                const double c[] = {lo, hi, (lo + hi) / 2, lo + 0.25, hi - 0.25, lo - 0.25, hi + 0.25, hi + 0.5, lo - 1, hi + 1, hi + 1e10, lo - 1e10, hi + 4294967296.};
                char b[64];
                snprintf(b, sizeof b, "%.9g", c[r_.below(good ? 5 : 13)]);
                if (good || r_.chance(80)) return b;
            }
            static const char* w[] = {"0", "1.5", "-2", "1e3", "3.14159", ".5", "2.", "-0.0"};
            static const char* b[] = {"", "abc", "1.5x", "1,5", "inf", "nan", "1e999", " 1"};
            return good || r_.chance(60) ? w[r_.below(8)] : b[r_.below(8)];
        }
        case VT::Enum: {
            static const char* w[] = {"red", "green", "blue"};
            static const char* b[] = {"Red", "", "yellow", "gre"};
            return good || r_.chance(60) ? w[r_.below(3)] : b[r_.below(4)];
        }
        case VT::Probe: {
            if (!good || r_.chance(4)) {
                static const char* b[] = {"!ml", "!pe bad", "!ue", "", "!pt", "!pv x", "!mt", "!m0", "!m1", "!mc"};
                if (r_.chance(60)) return b[r_.below(std::size(b))];
            }
            return "p" + chars(1 + (int)r_.below(3));
        }
        default: {
            if (good) {
                static const char* w[] = {"a", "file.txt", "some text", "x", "b.c", "h\xc3\xa9", "\xe6\x97\xa5", "42", "a rather longer value that needs heap memory"};
                return w[r_.below(std::size(w))];
            }
            return r_.chance(70) ? value_word() : word(40);
        }
        }
    }
    std::size_t count(std::size_t lo, std::size_t hi, bool good)
    {
        if (hi == unbounded) hi = lo + (r_.chance(2) ? 300 : r_.chance(10) ? 12 : 3);
        if (good || r_.chance(50)) return lo + r_.below(hi - lo + 1);
        const std::size_t c[] = {lo ? lo - 1 : 0, lo, hi, hi + 1, hi + 2};
        return c[r_.below(5)];
    }
    const Node* pick_mode(bool good)
    {
        path_.clear();
        const Node* at = &root_;
        for (int depth = 0; depth < 4; ++depth) {
            std::vector<const Node*> modes;
            for (auto& c : at->children)
                if (c.kind == K::Mode && (!good || !c.off() || r_.chance(5))) modes.push_back(&c);
            if (modes.empty() || (at != &root_ && at->router >= 0 && r_.chance(60))) break;
            at = modes[r_.below(modes.size())];
            if (!at->none_name.empty()) path_.push_back(at->none_name);
        }
        return at == &root_ ? nullptr : at;
    }
    std::vector<Item> items(const Node& mode, bool good)
    {
        std::vector<Item> named, trailing;
        for (auto& c : mode.children) {
            if (c.kind == K::Mode || c.kind == K::Help) continue;
            if (c.off() && !r_.chance(good ? 4 : 25)) continue;
            int pc = c.required ? (good ? 99 : 90) : c.rt_required == 1 ? 95 : 35;
            if (mode.children.size() < 4 && !c.required) pc = 55;
            if (!r_.chance(pc)) continue;
            std::vector<const Node*> chosen;
            if (c.kind == K::OneOf || c.kind == K::AliasGroup) {
                chosen.push_back(&c.children[r_.below(c.children.size())]);
                const bool multi = chosen[0]->kind == K::CFlag;
                if ((multi && r_.chance(40)) || (!good && r_.chance(15))) chosen.push_back(&c.children[r_.below(c.children.size())]);
            } else {
                chosen.push_back(&c);
            }
            for (auto* n : chosen) {
                const int copies = !good && r_.chance(5) ? 2 : 1;
                for (int k = 0; k < copies; ++k) {
                    Item it;
                    it.n = n;
                    bool fine = good || r_.chance(70);
                    if (n->kind == K::CFlag) {
                        const Node& lim = c.kind == K::AliasGroup ? c : *n;
                        const long lo = lim.has_min ? std::max(1l, (long)lim.minv) : 1, hi = lim.has_max ? (long)lim.maxv : lo + (r_.chance(2) ? 300 : 3);
                        it.repeats = fine ? (int)(lo + (long)r_.below((std::uint64_t)std::max(1l, hi - lo + 1))) : (int)r_.below((std::uint64_t)hi + 3);
                        if (chosen.size() > 1) it.repeats = 1 + (int)r_.below(2);
                    } else if (n->kind == K::Arg) {
                        it.vals.push_back(value(*n, fine));
                    } else if (n->kind == K::Flag && !n->aliases.empty()) {
                        // no value
                    } else if (n->list || n->kind == K::Pos) {
                        const auto m = count(n->lo(), n->hi(), fine);
                        for (std::size_t i = 0; i < m; ++i) it.vals.push_back(value(*n, good || r_.chance(90)));
                    }
                    (n->kind == K::Pos || n->kind == K::Fwd ? trailing : named).push_back(it);
                }
            }
        }
        for (std::size_t i = named.size(); i > 1; --i) std::swap(named[i - 1], named[r_.below(i)]);
        if (good || r_.chance(80)) {
            // what somebody depends on comes first
            std::stable_sort(named.begin(), named.end(), [](const Item& a, const Item& b) { return depth(a) < depth(b); });
        }
        if (!good && r_.chance(15) && !trailing.empty() && !named.empty()) {
            named.insert(named.begin() + r_.below(named.size()), trailing.front());
            trailing.erase(trailing.begin());
        }
        for (auto& t : trailing) named.push_back(t);
        for (std::size_t i = 0; i + 1 < named.size(); ++i) named[i].more_follow = true;
        return named;
    }
    static std::size_t depth(const Item& a) { return a.n->deps.size(); }

    struct Piece {
        std::vector<std::string> toks;
        bool short_flag = false;   // may be collapsed with its neighbours
    };
    void spell_flag(const Node& n, bool vary, std::vector<Piece>& out)
    {
        const bool l = !n.long_name.empty() && (n.short_name.empty() || r_.chance(50));
        Piece p;
        (void)vary;
        p.toks.push_back(l ? g_long_prefix + n.long_name : !n.short_name.empty() ? g_short_prefix + n.short_name : n.none_name);
        p.short_flag = !l && !n.short_name.empty();
        out.push_back(p);
    }
    const Node* sibling(const Node& n) const  // another member of the same alias group
    {
        if (!mode_) return &n;
        for (auto& c : mode_->children) {
            if (c.kind != K::AliasGroup) continue;
            for (auto& g : c.children)
                if (&g == &n) return &c.children[r_.below(c.children.size())];
        }
        return &n;
    }
    static void targets(const Node& mode, const std::vector<Name>& l, std::vector<const Node*>& out)
    {
        std::function<void(const Node&)> walk = [&](const Node& n) {
            bool hit = false;
            for (auto& a : l) hit |= a.is_long ? n.long_name == a.name : n.short_name == a.name;
            if (hit) {
                if (n.aliases.empty()) out.push_back(&n);
                else targets(mode, n.aliases, out);
            }
            for (auto& c : n.children) walk(c);
        };
        walk(mode);
    }
    std::vector<std::string> render(const Line& l, bool vary)
    {
        std::vector<Piece> ps;
        for (auto& it : l.items) {
            const Node* n = it.n;
            if (vary) n = sibling(*n);
            if (n->kind == K::Flag || n->kind == K::CFlag) {
                for (int i = 0; i < it.repeats; ++i) {
                    const Node* m = vary ? sibling(*n) : n;
                    std::vector<const Node*> ts;
                    if (vary && !m->aliases.empty() && mode_ && r_.chance(50)) targets(*mode_, m->aliases, ts);
                    bool plain = !ts.empty();
                    for (auto* t : ts) plain &= t->deps.empty() && !t->off();
                    if (plain) {
                        for (auto* t : ts) spell_flag(*t, vary, ps);
                    } else {
                        spell_flag(*m, vary, ps);
                    }
                }
                continue;
            }
            Piece p;
            if (vary && n->kind == K::Arg && !n->aliases.empty() && mode_ && r_.chance(50)) {
                std::vector<const Node*> ts;
                targets(*mode_, n->aliases, ts);
                bool plain = !ts.empty();
                for (auto* t : ts) plain &= t->deps.empty() && !t->off() && t->kind == K::Arg;
                if (plain) {
                    for (auto* t : ts) {
                        Piece q;
                        named(*t, it.vals, q.toks);
                        ps.push_back(q);
                    }
                    continue;
                }
            }
            if (n->kind == K::Arg || n->kind == K::Multi || n->kind == K::Fwd) {
                named(*n, it.vals, p.toks);
                if (!n->marker.empty() && (it.vals.size() < n->hi() ? r_.chance(vary || it.more_follow ? 97 : 40) : r_.chance(30))) p.toks.push_back(n->marker);
            } else {
                p.toks = it.vals;
                if (!n->marker.empty() && it.more_follow && (it.vals.size() < n->hi() ? r_.chance(92) : r_.chance(40))) p.toks.push_back(n->marker);
            }
            ps.push_back(p);
        }
        std::vector<std::string> out = l.head;
        for (std::size_t i = 0; i < ps.size(); ++i) {
            if (ps[i].short_flag && g_long_prefix != g_short_prefix) {
                std::string s = ps[i].toks[0];
                while (i + 1 < ps.size() && ps[i + 1].short_flag && r_.chance(50)) s += ps[++i].toks[0].substr(g_short_prefix.size());
                out.push_back(s);
            } else {
                for (auto& t : ps[i].toks) out.push_back(t);
            }
        }
        return out;
    }
    void named(const Node& n, const std::vector<std::string>& vals, std::vector<std::string>& out)
    {
        const bool l = !n.long_name.empty() && (n.short_name.empty() || r_.chance(50));
        std::string name = l ? g_long_prefix + n.long_name : !n.short_name.empty() ? g_short_prefix + n.short_name : n.none_name;
        if (!n.sep.empty() && !vals.empty() && (vals[0].size() || true)) {
            out.push_back(name + n.sep + vals[0]);
            return;
        }
        out.push_back(name);
        for (auto& v : vals) out.push_back(v);
    }
    std::vector<std::string> help_line()
    {
        const Node* h = nullptr;
        for (auto& c : root_.children)
            if (c.kind == K::Help) h = &c;
        if (!h) return structured(false, false);
        std::vector<std::string> out;
        out.push_back(!h->long_name.empty() && (h->short_name.empty() || r_.chance(50)) ? g_long_prefix + h->long_name : g_short_prefix + h->short_name);
        const Node* at = &root_;
        for (int d = 0; d < 3 && r_.chance(d ? 55 : 65) && !at->children.empty(); ++d) {
            const Node* c = &at->children[r_.below(at->children.size())];
            if ((c->kind == K::OneOf || c->kind == K::AliasGroup) && r_.chance(70)) c = &c->children[r_.below(c->children.size())];
            if (!c->named()) {
                if (r_.chance(30)) { out.push_back(word(20)); break; }
                for (auto& x : at->children)
                    if (x.named() && r_.chance(50)) c = &x;
            }
            if (!c->named()) break;
            out.push_back(!c->long_name.empty() && (c->short_name.empty() || r_.chance(60)) ? g_long_prefix + c->long_name
                          : !c->short_name.empty()                                          ? g_short_prefix + c->short_name
                                                                                              : c->none_name);
            at = c;
        }
        if (r_.chance(10)) out.push_back(word(30));
        return out;
    }
    std::vector<std::string> structured(bool good, bool allow_help = true)
    {
        if (allow_help && r_.chance(f_.help_line_pc)) return help_line();
        std::vector<const Node*> leaves;
        for (auto& c : root_.children)
            if (c.kind != K::Mode && c.kind != K::Help) leaves.push_back(&c);
        std::vector<std::string> out;
        if (!leaves.empty() && (r_.chance(12) || std::none_of(root_.children.begin(), root_.children.end(), [](auto& c) { return c.kind == K::Mode; }))) {
            const Node* n = leaves[r_.below(leaves.size())];
            std::vector<std::string> vals;
            if (n->kind == K::Arg) vals.push_back(value(*n, good || r_.chance(60)));
            named(*n, vals, out);
            return out;
        }
        const Node* m = pick_mode(good);
        if (!m) return out;
        mode_ = m;
        Line l;
        l.head = path_;
        l.items = items(*m, good);
        return render(l, false);
    }
    void mutate(std::vector<std::string>& l)
    {
        const int n = 1 + (int)r_.below(3);
        for (int i = 0; i < n; ++i) {
            const auto at = l.empty() ? 0 : r_.below(l.size());
            switch (r_.below(14)) {
            case 0: if (!l.empty()) l.erase(l.begin() + at); break;
            case 1: if (!l.empty()) l.insert(l.begin() + at, l[at]); break;
            case 2: if (l.size() > 1) std::swap(l[at], l[r_.below(l.size())]); break;
            case 3: l.insert(l.begin() + at, word(30)); break;
            case 4: if (!l.empty()) l[at] = misspell(l[at]); break;
            case 5: if (!l.empty()) l[at] = l[at].substr(0, r_.below(l[at].size() + 1)); break;
            case 6: l.push_back(word(15)); break;
            case 7: l.insert(l.begin() + at, r_.pick(spelled_of())); break;
            case 8: if (!l.empty()) l[at] += r_.chance(50) ? chars(1) : bytes(1); break;
            case 9: if (!l.empty()) {
                    const auto p = l[at].find('=');
                    if (p != std::string::npos) { l.insert(l.begin() + at + 1, l[at].substr(p + 1)); l[at].resize(p); }
                    else l[at] += (seps_.empty() ? "=" : r_.pick(seps_)) + value_word();
                } break;
            case 10: if (!l.empty()) {
                    const auto& s = l[at];
                    if (s.compare(0, g_long_prefix.size(), g_long_prefix) == 0) l[at] = g_short_prefix + s.substr(g_long_prefix.size());
                    else if (s.compare(0, g_short_prefix.size(), g_short_prefix) == 0) l[at] = (r_.chance(50) ? g_long_prefix : "") + s.substr(g_short_prefix.size());
                    else l[at] = g_short_prefix + s;
                } break;
            case 11: if (!names_.empty()) l.insert(l.begin(), r_.pick(names_)); break;
            case 12: if (!l.empty()) l[at] = "-" + l[at]; break;
            default: {
                std::string s = g_short_prefix;
                for (int k = 0; k < 3; ++k) {
                    const auto& w = r_.pick(names_of());
                    if (graphemes(w).size() == 1) s += w;
                }
                l.insert(l.begin() + at, s);
            }
            }
        }
    }
    const Node& root_;
    Rng& r_;
    const Profile& f_;
    std::vector<std::string> names_, spelled_, seps_, path_;
    const Node* mode_ = nullptr;
};

Cfg make_cfg(const TreeReg& t, Rng& r)
{
    Cfg c;
    if (t.switches) {
        switch (r.below(5)) {
        case 0: c.en = ~0u; break;
        case 1: c.en = ~(1u << r.below(t.switches)); break;
        case 2: c.en = 1u << r.below(t.switches); break;
        default: c.en = (std::uint32_t)r.next();
        }
        if (r.chance(50)) c.en |= 1;
    }
    c.v[0] = r.range(-20, 10);
    c.v[1] = c.v[0] + r.range(0, 20);
    c.v[2] = r.range(-10, 10);
    c.v[3] = r.range(-10, 10);
    c.v[4] = c.v[2] + r.range(r.chance(5) ? -2 : 0, 10);
    c.v[5] = c.v[3] - r.range(r.chance(5) ? -2 : 0, 10);
    c.v[7] = r.chance(15);
    if (t.flags & tf_lang) {
        static const char* ids[] = {"en_GB", "fr", "ja", "de_DE", "en_US", "fr.UTF-8", "ja.UTF-8", "en-GB", "en_GB.UTF-8", "de-DE.ISO8859-1", "en-US", "", "C", "FR", "f", "frx", "fr_FR",
                                    "xx_YY", "en_GB.", ".UTF-8", "ja_JP", "en_gb", "j", "en-US.UTF-8@euro", "jaja", "en"};
        c.lang = ids[r.chance(60) ? r.below(11) : r.below(std::size(ids))];
    }
    return c;
}
std::vector<int> make_cols(Rng& r, int odd_pc)
{
    if (!r.chance(odd_pc)) return {r.chance(80) ? 80 : 120};
    switch (r.below(7)) {
    case 0: return {-1};
    case 1: return {0};
    case 2: return {(int)r.range(1, 12)};
    case 3: return {(int)r.range(13, 60)};
    case 4: return {(int)r.range(60, 200)};
    case 5: return {65535};
    default: return {(int)r.range(20, 90)};
    }
}
void make_fault(Fault& f, const OpSpec& op, Rng& r)
{
    const bool stream = op.kind == OpKind::HelpStream;
    const int what = (int)r.below(stream ? 10 : 8);
    if (what >= 8 || (stream && what >= 5)) {
        f.sink_at = r.chance(15) ? 0 : (int)r.logu(900);
        f.sink_kind = (int)r.below(3);
        if (r.chance(8)) f.sink_prebad = true;
        if (!r.chance(12)) return;
    }
    if (what < 5) {
        f.alloc_at = (int)r.logu(r.chance(60) ? 32 : 220);
        f.alloc_persist = r.chance(30);
        if (!r.chance(8)) return;
    }
    f.throw_at = (int)r.logu(12);
    f.throw_kind = (int)r.below(4);
}
}  // namespace

Plan make_plan(const std::string& prop, std::uint64_t seed, bool thorough)
{
    Rng r{mix(seed, fnv(5, prop))};
    const Profile f = profile(prop, thorough);
    Plan p;
    p.prop = prop;
    std::vector<const TreeReg*> pool, rest;
    for (auto* t : all_trees()) {
        if (f.must && (t->flags & f.must) != f.must) continue;
        if (!f.trees || (t->flags & f.trees)) pool.push_back(t);
        rest.push_back(t);
    }
    if (pool.empty()) pool = rest;
    if (pool.empty()) pool = all_trees();
    const int ninst = r.chance(60) ? 1 : 1 + (int)r.below(3);
    const TreeReg* same = r.chance(50) ? pool[r.below(pool.size())] : nullptr;
    for (int i = 0; i < ninst; ++i) {
        const TreeReg* t = same ? same : r.chance(92) || rest.empty() ? pool[r.below(pool.size())] : rest[r.below(rest.size())];
        p.insts.push_back({t->name, make_cfg(*t, r)});
    }
    std::vector<Node> roots;
    for (auto& i : p.insts) roots.push_back(find_tree(i.tree)->describe(i.cfg));
    const int ntasks = f.max_tasks > 1 && r.chance(f.multi_pc) ? 2 + (int)r.below(f.max_tasks - 1 + (r.chance(4) ? 4 : 0)) : 1;
    const bool long_history = r.chance(1) && r.chance(50);
    p.tasks.resize(ntasks);
    int group = 0;
    const auto random_op = [&](int inst) {
        OpSpec o;
        o.inst = inst;
        LineGen g{roots[inst], r, f};
        o.fault.cols = make_cols(r, f.odd_cols_pc);
        if (r.chance(3)) o.fault.cols.push_back((int)r.range(1, 100));
        o.fresh = r.chance(f.fresh_pc);
        if (r.chance(f.help_pc)) {
            o.kind = r.chance(60) ? OpKind::HelpStream : OpKind::HelpString;
            if (o.kind == OpKind::HelpStream && r.chance(25)) o.entry = 1 + (int)r.below(3);
            return o;
        }
        o.tokens = g.line();
        o.entry = (int)r.below(e_count);
        bool nul = false;
        for (auto& t : o.tokens) nul |= t.find('\0') != std::string::npos;
        if (nul && o.entry <= e_cstrs) o.entry = e_views;
        if (o.tokens.empty() && o.entry == e_argv && r.chance(40)) o.argc0 = 1;
        return o;
    };
    for (int t = 0; t < ntasks; ++t) {
        const int n = long_history ? 50 + (int)r.below(250) : f.ops_lo + (int)r.below(f.ops_hi - f.ops_lo + 1);
        for (int i = 0; i < n; ++i) {
            const int inst = (int)r.below(ninst);
            if (f.pairs && r.chance(90)) {
                OpSpec a, b;
                LineGen g{roots[inst], r, f};
                if (g.pair(a.tokens, b.tokens)) {
                    a.inst = b.inst = inst;
                    a.entry = (int)r.below(e_count);
                    b.entry = r.chance(70) ? a.entry : (int)r.below(e_count);
                    a.group = b.group = group++;
                    p.tasks[t].push_back(a);
                    p.tasks[r.below(ntasks)].push_back(b);
                    continue;
                }
            }
            OpSpec o = random_op(inst);
            if (f.entries && o.kind == OpKind::Parse && r.chance(60)) {
                o.group = group++;
                const int first = (int)r.below(e_count);
                const int m = 2 + (int)r.below(e_count - 1);
                for (int k = 0; k < m; ++k) {
                    OpSpec x = o;
                    x.entry = (first + k) % e_count;
                    x.argc0 = 0;
                    bool nul = false;
                    for (auto& tok : x.tokens) nul |= tok.find('\0') != std::string::npos;
                    if (nul && x.entry <= e_cstrs) continue;
                    p.tasks[k % 2 ? r.below(ntasks) : (std::uint64_t)t].push_back(x);
                }
                continue;
            }
            if (r.chance(f.fault_pc)) {
                if (f.sweep && !long_history && r.chance(45)) {
                    // the same call with the failure moving through it, then once more without
                    const bool alloc = r.chance(65);
                    const int from = (int)r.logu(alloc ? 150 : 10);
                    const bool persist = r.chance(30);
                    const int kind = (int)r.below(4);
                    const int len = thorough ? 16 : 8;
                    for (int k = 0; k < len; ++k) {
                        OpSpec x = o;
                        if (alloc) { x.fault.alloc_at = from + k; x.fault.alloc_persist = persist; }
                        else { x.fault.throw_at = from + k; x.fault.throw_kind = kind; }
                        p.tasks[t].push_back(x);
                    }
                    p.tasks[t].push_back(o);
                    continue;
                }
                OpSpec x = o;
                make_fault(x.fault, x, r);
                p.tasks[t].push_back(x);
                if (r.chance(60)) p.tasks[t].push_back(o);
                else { p.tasks[t].push_back(random_op(inst)); }
                continue;
            }
            p.tasks[t].push_back(o);
            if (r.chance(12)) p.tasks[t].push_back(o);  // the same call again
        }
    }
    for (std::size_t t = 0; t < p.tasks.size();) {
        if (p.tasks[t].empty()) p.tasks.erase(p.tasks.begin() + t);
        else ++t;
    }
    if (p.tasks.size() > 1) {
        const int n = (int)r.logu(f.deep_sched);
        const int style = (int)r.below(3);
        for (int i = 0; i < n; ++i) {
            Slice s;
            s.steps = style == 0 ? r.logu(200) : style == 1 ? r.logu(4000) : r.logu(30000);
            s.task = (int)r.below(p.tasks.size());
            p.sched.push_back(s);
        }
    }
    return p;
}
}  // namespace sim
