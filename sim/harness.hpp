// Included by every tree translation unit: value encoders, routers, probes and the tree instance wrapper.
#pragma once
#include "core.hpp"
#include "desc.hpp"
#include "registry.hpp"
// the library (configured through alloc.hpp, see build flags)
#include "arg_router/arg_router.hpp"
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include <vector>

namespace ar = arg_router;
namespace arp = arg_router::policy;
namespace ard = arg_router::dependency;

namespace sim
{
// ---------------------------------------------------------------- user types
class Probe  // a user value type whose every copy and conversion may be told to fail
{
public:
    Probe() { init(""); }
    explicit Probe(std::string_view s)
    {
        user_point("construct");
        init(s);
    }
    Probe(const Probe& o)
    {
        user_point("copy");
        init(*o.s_);
    }
    Probe(Probe&& o) noexcept
    {
        HarnessScope h;
        s_ = o.s_;
        o.s_ = new std::string;
        ++o.owner_count();
        rec_ = o.rec_;
    }
    Probe& operator=(const Probe& o)
    {
        user_point("assign");
        HarnessScope h;
        *s_ = *o.s_;
        return *this;
    }
    Probe& operator=(Probe&& o) noexcept
    {
        HarnessScope h;
        std::swap(s_, o.s_);
        return *this;
    }
    ~Probe()
    {
        HarnessScope h;
        delete s_;
        --owner_count();
    }
    const std::string& value() const { return *s_; }
    struct Quiet {};
    Probe(std::string_view s, Quiet) { init(s); }

private:
    void init(std::string_view s)
    {
        HarnessScope h;
        s_ = new std::string(s);
        rec_ = t_task ? t_task->op : nullptr;
        ++owner_count();
    }
    long& owner_count()
    {
        static long nobody = 0;
        return rec_ ? rec_->probes_delta : nobody;
    }
    std::string* s_;
    OpRec* rec_;
};
enum class Color { red, green, blue };
enum class Level { none, some, more, most };

inline Color parse_color(std::string_view s)
{
    user_point("convert");
    if (s == "red") return Color::red;
    if (s == "green") return Color::green;
    if (s == "blue") return Color::blue;
    throw ar::multi_lang_exception{ar::error_code::failed_to_parse, ar::parsing::token_type{ar::parsing::prefix_type::none, s}};
}
inline Probe parse_probe(std::string_view s)
{
    if (s.substr(0, 3) == "!ml")
        throw ar::multi_lang_exception{ar::error_code::failed_to_parse, ar::parsing::token_type{ar::parsing::prefix_type::none, s}};
    if (s.substr(0, 3) == "!pe") {
        ar::string m{"rejected by user: "};
        m.append(s);
        throw ar::parse_exception{m};
    }
    if (s.substr(0, 3) == "!ue") throw UserError{1000};
    using tokens = ar::vector<ar::parsing::token_type>;
    const ar::parsing::token_type self{ar::parsing::prefix_type::none, s}, lng{ar::parsing::prefix_type::long_, "other"}, shrt{ar::parsing::prefix_type::short_, "o"};
    if (s.substr(0, 3) == "!pt") throw ar::parse_exception{"rejected", lng};
    if (s.substr(0, 3) == "!pv") throw ar::parse_exception{"rejected", tokens{self, lng, shrt}};
    if (s.substr(0, 3) == "!mt") throw ar::multi_lang_exception{ar::error_code::unhandled_arguments, tokens{shrt, self, lng}};
    if (s.substr(0, 3) == "!m0") throw ar::multi_lang_exception{ar::error_code::unknown_argument_with_suggestion};
    if (s.substr(0, 3) == "!m1") throw ar::multi_lang_exception{ar::error_code::unknown_argument_with_suggestion, lng};
    if (s.substr(0, 3) == "!mc") throw ar::multi_lang_exception{(ar::error_code)4711, tokens{self, shrt}};
    return Probe{s};
}
}  // namespace sim
template <>
struct arg_router::parser<sim::Color> {
    [[nodiscard]] static sim::Color parse(std::string_view s) { return sim::parse_color(s); }
};
template <>
struct arg_router::parser<sim::Probe> {
    [[nodiscard]] static sim::Probe parse(std::string_view s) { return sim::parse_probe(s); }
};
namespace sim
{
// ---------------------------------------------------------------- encoding what a router receives
inline void check_view(std::string_view v)
{
    if (v.empty() || !t_task || !t_task->op) return;
    for (auto& r : t_task->op->token_mem)
        if (v.data() >= r.p && v.data() + v.size() <= r.p + r.n) return;
    for (auto& r : g_static_views)
        if (v.data() >= r.p && v.data() + v.size() <= r.p + r.n) return;
    t_task->op->route_bad.push_back("a view delivered to the router points outside the caller's tokens");
}
inline std::string enc(bool b) { return b ? "b1" : "b0"; }
inline std::string enc(int i) { return "i" + std::to_string(i); }
inline std::string enc(long i) { return "i" + std::to_string(i); }
inline std::string enc(unsigned i) { return "i" + std::to_string(i); }
inline std::string enc(unsigned long i) { return "i" + std::to_string(i); }
inline std::string enc(signed char i) { return "i" + std::to_string((int)i); }
inline std::string enc(unsigned char i) { return "i" + std::to_string((int)i); }
inline std::string enc(char c) { return "c" + std::to_string((int)(unsigned char)c); }
inline std::string enc(double d)
{
    char b[64];
    snprintf(b, sizeof b, "d%a", d);
    return b;
}
inline std::string enc(float f)
{
    char b[64];
    snprintf(b, sizeof b, "f%a", f);
    return b;
}
inline std::string enc(std::string_view v)
{
    check_view(v);
    return enc_str(std::string(v));
}
inline std::string enc(const std::string& s) { return enc_str(s); }
inline std::string enc(const Probe& p) { return "p" + enc_str(p.value()); }
inline std::string enc(Color c) { return "e" + std::to_string((int)c); }
inline std::string enc(Level c) { return "i" + std::to_string((int)c); }
inline std::string enc(const std::optional<int>& o) { return o ? enc(*o) : "n"; }
template <typename T, typename A>
std::string enc(const std::vector<T, A>& v)
{
    std::string s = "[";
    bool first = true;
    for (const auto& x : v) {
        if (!first) s += ";";
        first = false;
        s += enc(x);
    }
    return s + "]";
}
template <typename T, typename A>
std::string enc(const std::list<T, A>& v)
{
    return enc(std::vector<T>(v.begin(), v.end()));
}
template <typename... T>
std::string enc(const std::variant<T...>& v)
{
    return "v(" + std::visit([](const auto& x) { return enc(x); }, v) + ")";
}
template <typename... A>
void route(int id, const A&... a)
{
    {
        HarnessScope h;
        if (t_task && t_task->op) {
            std::string s = "R" + std::to_string(id) + ":";
            bool first = true;
            ((s += (first ? "" : "|") + enc(a), first = false), ...);
            t_task->op->routes.push_back(s);
        }
    }
    if (t_task && t_task->op) t_task->op->in_router = true;
    user_point("router");
    if (t_task && t_task->op) t_task->op->in_router = false;
}
inline void route_help(int id, ar::ostringstream&& o)
{
    std::string s;
    {
        HarnessScope h;
        s = o.str();
        if (t_task && t_task->op) t_task->op->routes.push_back("R" + std::to_string(id) + ":" + enc_str(s));
    }
    if (t_task && t_task->op) t_task->op->in_router = true;
    user_point("router");
    if (t_task && t_task->op) t_task->op->in_router = false;
    HarnessScope h;
    std::string().swap(s);
}

// ---------------------------------------------------------------- instances
// A caller's own input iterator: every step is user code
class TokenIter
{
public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::string_view;
    using difference_type = std::ptrdiff_t;
    using pointer = const std::string_view*;
    using reference = const std::string_view&;
    TokenIter() = default;
    explicit TokenIter(const std::string_view* p) : p_{p} {}
    reference operator*() const
    {
        user_point("iterator read");
        return *p_;
    }
    pointer operator->() const { return p_; }
    TokenIter& operator++()
    {
        user_point("iterator step");
        ++p_;
        return *this;
    }
    TokenIter operator++(int)
    {
        auto t = *this;
        ++*this;
        return t;
    }
    bool operator==(const TokenIter& o) const { return p_ == o.p_; }
    bool operator!=(const TokenIter& o) const { return p_ != o.p_; }

private:
    const std::string_view* p_ = nullptr;
};
template <typename Root>
class InstT : public Inst
{
public:
    // how: 0 built in place, 1 built elsewhere and moved here, the original gone
    template <typename F>
    InstT(long how, F&& f)
    {
        if constexpr (std::is_move_constructible_v<Root>) {
            if (how) {
                const auto first = std::unique_ptr<Root>(new Root(f()));
                p_.reset(new Root(std::move(*first)));
            }
        }
        if (!p_) p_.reset(new Root(f()));
    }
    void parse_argv(int argc, char** argv) const override { p_->parse(argc, argv); }
    void parse_cstrs(const char* const* b, const char* const* e) const override { p_->parse(b, e); }
    void parse_views(const std::string_view* b, const std::string_view* e) const override { p_->parse(b, e); }
    void parse_iter(const std::string_view* b, const std::string_view* e) const override { p_->parse(TokenIter{b}, TokenIter{e}); }
    void parse_container(const std::vector<std::string_view>& v) const override { p_->parse(v); }
    void parse_list(const std::list<std::string_view>& v) const override { p_->parse(v); }
    void parse_tokens(const std::string_view* b, const std::string_view* e) const override
    {
        ar::vector<ar::parsing::token_type> v;
        v.reserve(e - b);
        for (; b != e; ++b) v.push_back({ar::parsing::prefix_type::none, *b});
        p_->parse(std::move(v));
    }
    void help_stream(std::ostream& s) const override { p_->help(s); }
    std::string help_string() const override
    {
        const auto s = p_->help();
        HarnessScope h;
        return std::string(s.data(), s.size());
    }

private:
    std::unique_ptr<const Root> p_;
};
template <typename F>
Inst* make_inst(long how, F&& f)
{
    return new InstT<decltype(f())>(how, f);
}
template <typename T>
struct lang_id;
template <typename Id>
struct lang_id<ar::multi_lang::translation<Id>> {
    using type = Id;
};
inline int lang_index(const std::string& locale, std::initializer_list<const char*> known)
{
    std::string id = locale.substr(0, locale.find('.'));
    for (auto& c : id)
        if (c == '-') c = '_';
    int i = 0;
    for (auto* k : known) {
        if (id == k) return i;
        ++i;
    }
    return 0;
}
}  // namespace sim

namespace arg_router::multi_lang
{
#define SIM_LANG(id)               \
    template <>                    \
    class translation<str<id>>     \
    {                              \
    }
SIM_LANG("en_GB");
SIM_LANG("fr");
SIM_LANG("ja");
SIM_LANG("de_DE");
SIM_LANG("en_US");
#undef SIM_LANG
}  // namespace arg_router::multi_lang
