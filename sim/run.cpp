// Executes a plan in this process under the simulator and judges what happened.
#include "calls.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <memory>

namespace sim
{
const TreeReg* find_tree(const std::string& name)
{
    for (auto* t = TreeReg::head(); t; t = t->next)
        if (name == t->name) return t;
    return nullptr;
}
std::vector<const TreeReg*> all_trees()
{
    std::vector<const TreeReg*> v;
    for (auto* t = TreeReg::head(); t; t = t->next) v.push_back(t);
    std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return strcmp(a->name, b->name) < 0; });
    return v;
}
namespace
{
bool any_off(const Node& n)
{
    if (n.off()) return true;
    for (auto& c : n.children)
        if (any_off(c)) return true;
    return false;
}
const Node* help_node(const Node& root)
{
    for (auto& c : root.children)
        if (c.kind == K::Help) return &c;
    return nullptr;
}
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
int router_of(const std::string& route) { return route.size() > 1 ? atoi(route.c_str() + 1) : -1; }
std::string clip(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c < 32 || c == 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
        if (r.size() > 700) { r += "..."; break; }
    }
    return r;
}
std::string show(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : " + ") + x;
    return s.empty() ? "(no router)" : s;
}
// What the reference model says for one operation, for each terminal width it was served
std::vector<Expect> predict(const Node& root, const OpSpec& op, const OpRec& rec)
{
    std::vector<int> widths = rec.served_cols;
    if (widths.empty()) widths.push_back(op.fault.cols.empty() ? -1 : op.fault.cols.front());
    std::sort(widths.begin(), widths.end());
    widths.erase(std::unique(widths.begin(), widths.end()), widths.end());
    std::vector<Expect> r;
    for (int w : widths) {
        if (op.kind == OpKind::Parse) {
            r.push_back(model_parse(root, op.tokens, w));
        } else {
            Expect e;
            e.outcome = e.klass = "ok";
            e.text = model_help(root, w);
            r.push_back(e);
        }
    }
    return r;
}
struct Mismatch {
    std::string kind, detail;
};
// kind empty: conforms
Mismatch compare(const OpSpec& op, const OpRec& rec, const Expect& e, const Node& root)
{
    if (op.kind != OpKind::Parse) {
        const std::string& got = op.kind == OpKind::HelpString ? rec.text : rec.out;
        if (rec.outcome != "ok") return {"undefined", "help ended with " + rec.outcome};
        if (!rec.routes.empty()) return {"route-count", "help() invoked a router: " + show(rec.routes)};
        if (got != e.text) return {"help", "help text is\n" + got + "<<< expected\n" + e.text + "<<<"};
        if (!rec.cout_text.empty()) return {"help", "help() wrote to standard output"};
        return {};
    }
    const bool pe = starts(rec.outcome, "parse_exception:");
    const bool ok = rec.outcome == "ok";
    if (ok && rec.routes.size() != 1)
        return {"route-count", "returned normally after " + std::to_string(rec.routes.size()) + " router calls: " + show(rec.routes)};
    if (!ok && !rec.routes.empty()) return {"route-count", "ended with " + clip(rec.outcome) + " although a router ran: " + show(rec.routes)};
    if (!ok && !pe && !rec.exited && rec.outcome != e.outcome) return {"undefined", "ended with " + clip(rec.outcome)};
    if (e.loose) return {};
    if (rec.exited != e.exited)
        return {"help-exit", rec.exited ? "process ended, expected " + clip(e.outcome) : "expected process exit, got " + clip(rec.outcome)};
    if (e.exited) {
        if (rec.outcome != e.outcome) return {"help-exit", "ended with " + rec.outcome};
        if (rec.cout_text != e.cout_text)
            return {"help", "standard output has\n" + rec.cout_text + "<<< expected\n" + e.cout_text + "<<<"};
        return {};
    }
    if (!rec.cout_text.empty()) return {"help", "wrote to standard output: " + clip(rec.cout_text)};
    if (e.outcome == "ok") {
        if (!ok) return {"reject:" + clip(rec.outcome), "expected " + show(e.routes) + ", got " + clip(rec.outcome)};
        if (rec.routes != e.routes) {
            const Node* h = help_node(root);
            const bool help = h && h->router >= 0 && router_of(e.routes[0]) == h->router;
            return {help ? "help" : router_of(e.routes[0]) == router_of(rec.routes[0]) ? "values" : "router",
                    "got " + clip(show(rec.routes)) + " expected " + clip(show(e.routes))};
        }
        return {};
    }
    if (ok) return {"accept:" + std::to_string(e.error), "routed " + clip(show(rec.routes)) + " expected " + clip(e.outcome)};
    const bool same = e.loose_suggestion ? starts(rec.outcome, e.outcome) : rec.outcome == e.outcome;
    if (!same) return {"message", "got " + clip(rec.outcome) + " expected " + clip(e.outcome)};
    return {};
}
bool sink_fired(const OpSpec& op, const OpRec& r)
{
    return r.sink_fired || (op.kind == OpKind::HelpStream && op.fault.sink_prebad && op.fault.sink_kind != 2);
}
std::string canonical(const OpRec& r)
{
    std::string s = r.outcome + "\x1e" + show(r.routes) + "\x1e" + r.out + "\x1e" + r.cout_text + "\x1e" + r.text;
    s += r.stream_failed ? "\x1e!" : "\x1e";
    return s;
}
}  // namespace

RunResult execute(const Plan& plan, bool verbose)
{
    RunResult res;
    struct Live {
        const TreeReg* tree = nullptr;
        Inst* inst = nullptr;
        Node root;
        bool off = false;
    };
    std::vector<Live> live(plan.insts.size());
    for (std::size_t i = 0; i < live.size(); ++i) {
        live[i].tree = find_tree(plan.insts[i].tree);
        if (!live[i].tree) fatal("simulator", ("no such tree: " + plan.insts[i].tree).c_str());
        live[i].root = live[i].tree->describe(plan.insts[i].cfg);
        live[i].off = any_off(live[i].root);
        live[i].inst = live[i].tree->make(plan.insts[i].cfg);
    }
    std::vector<std::vector<std::unique_ptr<OpRec>>> recs(plan.tasks.size());
    std::vector<std::function<void(Task&)>> bodies;
    for (std::size_t t = 0; t < plan.tasks.size(); ++t) {
        for (std::size_t i = 0; i < plan.tasks[t].size(); ++i) {
            recs[t].push_back(std::make_unique<OpRec>());
            recs[t].back()->task = (int)t;
            recs[t].back()->index = (int)i;
        }
        bodies.push_back([&, t](Task& task) {
            for (std::size_t i = 0; i < plan.tasks[t].size(); ++i) {
                const OpSpec& op = plan.tasks[t][i];
                const Live& l = live[op.inst];
                run_op(task, op, *l.tree, plan.insts[op.inst].cfg, l.inst, *recs[t][i], false);
            }
        });
    }
    run_tasks(bodies, plan.sched);

    // ---- judge
    std::uint64_t h = 1469598103934665603ull;
    for (auto& s : g_executed) h = mix(h ^ s.steps, s.task);
    bool any_fault = false;
    for (auto& tr : recs)
        for (auto& r : tr) any_fault |= r->alloc_fired || r->throw_fired || r->sink_fired || r->exited;
    struct GroupMember { int t, i; std::string say; };
    std::map<int, std::vector<GroupMember>> groups;
    auto& cov = res.cov;
    cov.runs = 1;
    if (plan.tasks.size() > 1) cov.multi = 1;
    for (std::size_t t = 0; t < plan.tasks.size(); ++t) {
        for (std::size_t i = 0; i < plan.tasks[t].size(); ++i) {
            const OpSpec& op = plan.tasks[t][i];
            const OpRec& r = *recs[t][i];
            const Live& l = live[op.inst];
            const auto canon = canonical(r);
            res.op_outcomes.push_back(canon);
            h = fnv(h, canon);
            h = mix(h ^ r.steps, (std::uint64_t)r.n_alloc * 1000003u + (std::uint64_t)r.n_user);
            const auto exps = predict(l.root, op, r);
            const Expect& e = exps.front();
            const Node* hn = help_node(l.root);
            auto add = [&](const std::string& kind, const std::string& detail) {
                Finding f;
                f.kind = kind;
                f.detail = detail;
                f.task = (int)t;
                f.op = (int)i;
                f.tree_flags = l.tree->flags;
                f.has_off = l.off;
                f.after_fault = any_fault;
                f.help_line = op.kind != OpKind::Parse || r.exited || e.exited;
                if (hn && op.kind == OpKind::Parse) {
                    if (!op.tokens.empty())
                        f.help_line |= (!hn->long_name.empty() && op.tokens[0] == g_long_prefix + hn->long_name) ||
                                       (!hn->short_name.empty() && op.tokens[0] == g_short_prefix + hn->short_name);
                    for (auto& x : r.routes) f.help_line |= hn->router >= 0 && router_of(x) == hn->router;
                }
                res.findings.push_back(f);
            };
            // coverage
            ++cov.ops;
            cov.steps += r.steps;
            cov.allocs += r.n_alloc;
            cov.users += r.n_user;
            cov.fresh += op.fresh;
            cov.off += l.off;
            if (r.alloc_fired) ++(op.fault.alloc_persist ? cov.f_alloc_persist : cov.f_alloc);
            if (r.throw_fired) ++(op.fault.throw_kind ? cov.f_oddball : cov.f_throw);
            if (sink_fired(op, r)) ++cov.f_sink;
            if (r.ioctl_failed) ++cov.f_ioctl;
            for (int c : r.served_cols)
                if (c >= 0 && c < 40) ++cov.f_narrow;
            if (r.exited) ++cov.f_exit;
            if (e.klass == "user" || starts(r.outcome, "user:1000")) ++cov.f_userbad;
            if (op.kind != OpKind::Parse) ++cov.helps;
            else if (e.loose) ++cov.loose;
            else if (e.outcome == "ok" || e.exited) ++cov.accepted;
            else ++cov.rejected;
            {
                std::uint64_t s = fnv(7, l.tree->name);
                s = mix(s, plan.insts[op.inst].cfg.en & ((1u << (l.tree->switches & 31)) - 1u));
                s = fnv(s, e.klass + (e.routes.empty() ? "" : e.routes[0].substr(0, e.routes[0].find(':'))));
                s = mix(s, (std::uint64_t)(r.alloc_fired ? r.n_alloc : 0) * 64 + (r.throw_fired ? r.n_user : 0));
                s = mix(s, (std::uint64_t)r.steps);
                res.shapes.push_back(s);
            }
            if (verbose) {
                char b[160];
                snprintf(b, sizeof b, "task %zu op %zu: %llu steps, %d allocations (%d failed), %d user calls (%d threw), widths asked %d\n", t, i,
                         (unsigned long long)r.steps, r.n_alloc, r.alloc_fired, r.n_user, r.throw_fired, r.n_ioctl);
                res.log += b;
                res.log += "   " + op_text(plan, op) + "\n   => " + clip(r.outcome) + "  " + clip(show(r.routes)) + "\n   model: " + clip(e.outcome) +
                           "  " + clip(show(e.routes)) + (e.loose ? " (loose)" : "") + "\n";
                snprintf(b, sizeof b, "   heap new %d/%zuB max %zu, configured %d/%zuB max %zu, left %ld\n", r.n_new, r.new_bytes, r.new_max, r.n_cfg,
                         r.cfg_bytes, r.cfg_max, r.live_blocks);
                res.log += b;
            }

            // ---- faults
            const bool sink_fault = sink_fired(op, r);
            const bool faulted = r.alloc_fired || r.throw_fired || sink_fault;
            Mismatch first;
            bool conforms = false;
            for (std::size_t k = 0; k < exps.size() && !conforms; ++k) {
                auto m = compare(op, r, exps[k], l.root);
                if (m.kind.empty()) conforms = true;
                else if (k == 0) first = m;
            }
            if (r.router_threw) conforms = false;  // ... which must not have looked like success
            if (!faulted) {
                if (!conforms) add(first.kind, first.detail);
                if (op.kind == OpKind::HelpStream && r.stream_failed) add("sink-hidden", "the stream is in a failed state although it accepted everything");
            } else if (sink_fault) {
                bool prefix = false;
                for (auto& x : exps) prefix |= starts(x.text, r.out);
                if (!prefix) add("sink-text", "what was written is not a prefix of the full text");
                if (!r.stream_failed && r.outcome == "ok") add("sink-hidden", "the stream failed, and neither its state nor an exception shows it");
                if (r.outcome != "ok" && r.outcome != "ios" && r.outcome != "sink" && !(r.alloc_fired && r.outcome == "bad_alloc"))
                    add("fault-outcome", "a failing stream ended in " + clip(r.outcome));
            } else if (!conforms) {
                std::vector<std::string> allowed;
                if (r.alloc_fired) allowed.push_back("bad_alloc");
                if (r.throw_fired)
                    allowed.push_back(op.fault.throw_kind == 0   ? "user:" + std::to_string(op.fault.throw_at)
                                      : op.fault.throw_kind == 1 ? "odd:" + std::to_string(op.fault.throw_at)
                                      : op.fault.throw_kind == 3 ? (r.router_threw ? "uparse:" + std::to_string(op.fault.throw_at) + " not today"
                                                                                   : "user:" + std::to_string(op.fault.throw_at))
                                                                 : "bad_alloc");
                const bool id = std::find(allowed.begin(), allowed.end(), r.outcome) != allowed.end();
                std::string want;
                for (auto& a : allowed) want += (want.empty() ? "" : " or ") + a;
                if (r.router_threw) {
                    if (r.outcome != allowed.back() && !(r.alloc_fired && id)) add("router-swallowed", "the router threw, the call ended with " + clip(r.outcome));
                    else if (r.routes.size() != 1) add("route-count", "router threw after " + std::to_string(r.routes.size()) + " router calls");
                    else {
                        bool same = false;
                        for (auto& x : exps) same |= x.loose || x.routes == r.routes;
                        if (!same) add("values", "got " + clip(show(r.routes)) + " expected " + clip(show(e.routes)));
                    }
                } else if (!r.routes.empty()) {
                    add("route-count", "a fault ended the call with " + clip(r.outcome) + " although a router had run: " + clip(show(r.routes)));
                } else if (!id) {
                    add("fault-outcome", "a fault (" + want + ") ended the call with " + clip(r.outcome) + ", the normal outcome is " + clip(e.outcome));
                } else {
                    bool prefix = false;
                    for (auto& x : exps) prefix |= starts(x.text, r.out) && starts(x.cout_text, r.cout_text);
                    if (!prefix && !e.loose) add("fault-outcome", "text written before the failure is not a prefix of the full text");
                }
            }
            // ---- accounting
            if (!r.exited) {
                if (r.leaked_blocks != 0)
                    add("leak", std::to_string(r.leaked_blocks) + " blocks (" + std::to_string((long)r.leaked_bytes) + " bytes) outstanding after the call");
                if (r.probes_delta != 0) add("probe", std::to_string(r.probes_delta) + " user objects not destroyed (or destroyed twice)");
            }
            for (auto& p : r.problems) add(p.find("caller's") != std::string::npos ? "token-modified" : starts(p, "written outside") ? "asan" : "alloc-mismatch", p);
            for (auto& p : r.route_bad) add("view", p);
            // Library storage that grows with the input has to come from the configured allocator. What may still come from
            // the global heap: small fixed size blocks (type erased callables) and the text of the exception.
            if ((l.tree->flags & tf_strict) && op.kind == OpKind::Parse && conforms && !e.loose && e.error != 3 &&
                !(e.outcome == "ok" && hn && router_of(e.routes[0]) == hn->router)) {
                const std::size_t text = starts(r.outcome, "parse_exception:") ? r.outcome.size() : 0;
                if (r.new_max > 64 + text)
                    add("global-heap", std::to_string(r.n_new) + " blocks (" + std::to_string(r.new_bytes) + " bytes, largest " + std::to_string(r.new_max) +
                                           ") came from the global heap");
            }
            if (r.std_alloc[0] && (r.std_alloc[0] == '!' || (l.tree->flags & tf_strict)))
                add("global-heap", "std::allocator<" + std::string(r.std_alloc + 1) + "> was used");
            if (op.group >= 0) {
                std::string say = e.loose || exps.size() != 1 ? std::string{} : (e.outcome == "ok" ? "ok" : "no") + show(e.routes);
                groups[op.group].push_back({(int)t, (int)i, say});
            }
        }
    }
    for (auto& [id, g] : groups) {
        ++cov.groups;
        bool usable = true;
        for (auto& m : g) {
            auto& r = *recs[m.t][m.i];
            usable &= !(r.alloc_fired || r.throw_fired);
        }
        if (!usable) continue;
        for (std::size_t k = 1; k < g.size(); ++k) {
            auto& a = *recs[g[0].t][g[0].i];
            auto& b = *recs[g[k].t][g[k].i];
            const auto& oa = plan.tasks[g[0].t][g[0].i];
            const auto& ob = plan.tasks[g[k].t][g[k].i];
            const bool pair = oa.tokens != ob.tokens;
            const bool same = pair ? (a.outcome == "ok") == (b.outcome == "ok") && a.routes == b.routes && a.exited == b.exited
                                   : a.outcome == b.outcome && a.routes == b.routes && a.exited == b.exited;
            if (!same && !(pair && g_pairs_by_model && (g[0].say.empty() || g[0].say != g[k].say))) {
                Finding f;
                f.kind = pair ? "pair" : "entry";
                f.task = g[k].t;
                f.op = g[k].i;
                const Live& l = live[ob.inst];
                f.tree_flags = l.tree->flags;
                f.has_off = l.off;
                f.detail = op_text(plan, oa) + " gave " + clip(a.outcome) + " " + clip(show(a.routes)) + "; " + op_text(plan, ob) + " gave " + clip(b.outcome) +
                           " " + clip(show(b.routes));
                res.findings.push_back(f);
            }
        }
    }
    cov.switches = g_executed.size();
    res.hash = h;
    std::uint64_t sh = 11;
    for (auto s : res.shapes) sh = mix(sh, s);
    for (auto& s : g_executed) sh = mix(sh ^ s.steps, s.task);
    res.shape = sh;
    for (auto& l : live) delete l.inst;
    return res;
}

bool g_pairs_by_model = false;
bool reports(const std::string& prop, const Finding& f)
{
    const auto& k = f.kind;
    const auto is = [&](std::initializer_list<const char*> l) {
        for (auto* x : l)
            if (starts(k, x)) return true;
        return false;
    };
    const bool death = is({"asan", "crash", "hang", "terminate", "deadlock", "exit-escaped"});
    const bool conform = is({"values", "router", "accept", "reject", "message", "help", "undefined", "route-count"}) && k != "router-swallowed";
    if (prop == "P01") return is({"context"});
    if (prop == "P02")
        return is({"route-count", "router-swallowed", "undefined", "terminate", "hang", "accept:0", "accept:1", "accept:2", "accept:4", "accept:9"}) ||
               (is({"crash", "asan"}));
    if (prop == "P03") return death || is({"fault-outcome", "router-swallowed", "leak", "probe", "alloc-mismatch", "sink-hidden", "sink-text"}) ||
               (is({"route-count"}) && f.after_fault) || (is({"context"}) && f.after_fault);
    if (prop == "P04") return is({"values", "entry", "reject:parse_exception:Failed to parse", "accept:3"}) || k == "router" || (death && !f.after_fault);
    if (prop == "P05") return is({"accept", "reject", "undefined"}) || (death && !f.after_fault);
    if (prop == "P06") return is({"pair"});
    if (prop == "P07") return f.has_off && (conform || death);
    if (prop == "P08") return is({"message", "undefined", "accept"}) || (death && !f.after_fault);
    if (prop == "P09") return is({"help", "sink-"}) || (death && f.help_line) || (f.help_line && is({"fault-outcome", "undefined"}));
    if (prop == "P10") return (f.tree_flags & tf_lang) && (conform || death);
    if (prop == "P11") return is({"asan", "crash", "token-modified", "view"});
    if (prop == "P12") return is({"alloc-mismatch", "global-heap", "leak"});
    if (prop == "P13") return death || is({"undefined"});
    if (prop == "P14") return (is({"values", "router", "accept", "reject", "route-count", "undefined"}) && k != "router-swallowed") || (death && !f.after_fault);
    if (prop == "P15") return f.help_line && (conform || death || is({"fault-outcome", "sink-"}));
    return true;
}
}  // namespace sim
