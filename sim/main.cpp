// The search: seeded runs, each in a forked child, judged, and on a violation minimised and written as a replay file.
#include "plan.hpp"
#include "registry.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:"
           "quarantine_size_mb=8:malloc_context_size=0:print_summary=1:max_allocation_size_mb=2048";
}
extern "C" __attribute__((weak)) void __asan_set_error_report_callback(void (*)(const char*));

namespace sim
{
namespace
{
using Clock = std::chrono::steady_clock;
double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

void asan_report(const char* text)
{
    if (!g_shared || g_shared->fatal[0]) return;
    std::string s;
    const char* e = strstr(text, "ERROR: ");
    s = e ? e + 7 : text;
    s = s.substr(0, s.find('\n'));
    // no addresses: they say nothing and differ between builds
    std::string o;
    for (std::size_t i = 0; i < s.size();) {
        if (s.compare(i, 2, "0x") == 0) {
            o += "@";
            i += 2;
            while (i < s.size() && isxdigit((unsigned char)s[i])) ++i;
        } else {
            o += s[i++];
        }
    }
    snprintf(g_shared->fatal, sizeof g_shared->fatal, "asan:%s", o.c_str());
}
struct Ran {
    bool finished = false;
    std::string death_kind, death_text;
    std::vector<Finding> findings;
    std::uint64_t hash = 0, shape = 0, sched_hash = 0;
    std::vector<std::uint64_t> outs, shapes;
    std::vector<int> loose;
    Coverage cov;
    std::string log;
};
constexpr std::size_t cov_words = sizeof(Coverage) / 8;
std::string esc(const std::string& s)
{
    std::string o;
    for (char c : s) {
        if (c == '\n') o += "\x01";
        else if (c == '\t') o += ' ';
        else if (c != '\0') o += c;
    }
    return o;
}
std::string unesc(std::string s)
{
    for (char& c : s)
        if (c == '\x01') c = '\n';
    return s;
}

Ran run_child(const Plan& p, bool verbose = false)
{
    std::memset((void*)g_shared, 0, offsetof(Shared, text));
    g_shared->cur_task = g_shared->cur_op = -1;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(2);
    }
    if (pid == 0) {
        rlimit rl{60, 60};
        setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(150);
        if (!verbose) {
            const int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
        }
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report);
        g_step_budget = 600000000;
        install();
        auto r = execute(p, verbose);
        std::ostringstream o;
        o << "H " << r.hash << " " << r.shape << "\n";
        o << "C";
        const auto* w = reinterpret_cast<const std::uint64_t*>(&r.cov);
        for (std::size_t i = 0; i < cov_words; ++i) o << " " << w[i];
        o << "\nS";
        for (auto s : r.shapes) o << " " << s;
        o << "\nO";
        for (auto& s : r.op_outcomes) o << " " << fnv(3, s);
        std::uint64_t sh = 1;
        for (auto& s : g_executed) sh = mix(sh ^ s.steps, s.task);
        o << "\nX " << sh << "\n";
        int n = 0;
        for (auto& f : r.findings) {
            if (++n > 40) break;
            o << "F\t" << esc(f.kind) << "\t" << f.task << "\t" << f.op << "\t" << f.tree_flags << "\t" << f.has_off << "\t" << f.help_line << "\t" << f.after_fault
              << "\t" << esc(f.detail.substr(0, 6000)) << "\n";
        }
        if (verbose) o << "L\t" << esc(r.log) << "\n";
        const auto s = o.str();
        const auto len = std::min(s.size(), sizeof g_shared->text - 1);
        std::memcpy(g_shared->text, s.data(), len);
        g_shared->text[len] = 0;
        g_shared->text_len = (std::uint32_t)len;
        g_shared->state = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Ran r;
    if (g_shared->state == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        r.finished = true;
        std::istringstream in(std::string(g_shared->text, g_shared->text_len));
        for (std::string line; std::getline(in, line);) {
            std::istringstream l(line);
            std::string w;
            if (line[0] == 'F') {
                std::vector<std::string> c;
                std::size_t at = 2;
                for (int k = 0; k < 8; ++k) {
                    const auto e = line.find('\t', at);
                    c.push_back(line.substr(at, e == std::string::npos ? e : e - at));
                    if (e == std::string::npos) break;
                    at = e + 1;
                }
                c.resize(8);
                Finding f;
                f.kind = unesc(c[0]);
                f.task = atoi(c[1].c_str());
                f.op = atoi(c[2].c_str());
                f.tree_flags = (unsigned)atoi(c[3].c_str());
                f.has_off = c[4] == "1";
                f.help_line = c[5] == "1";
                f.after_fault = c[6] == "1";
                f.detail = unesc(c[7]);
                r.findings.push_back(f);
                continue;
            }
            l >> w;
            if (w == "H") l >> r.hash >> r.shape;
            else if (w == "C") {
                auto* x = reinterpret_cast<std::uint64_t*>(&r.cov);
                for (std::size_t i = 0; i < cov_words; ++i) l >> x[i];
            } else if (w == "S") {
                std::uint64_t v;
                while (l >> v) r.shapes.push_back(v);
            } else if (w == "O") {
                std::uint64_t v;
                while (l >> v) r.outs.push_back(v);
            } else if (w == "X") l >> r.sched_hash;
            else if (w == "L") r.log = unesc(line.substr(2));
        }
        return r;
    }
    std::string fatal_text(g_shared->fatal, strnlen(g_shared->fatal, sizeof g_shared->fatal));
    if (!fatal_text.empty()) {
        const auto c = fatal_text.find(':');
        r.death_kind = fatal_text.substr(0, c);
        r.death_text = c == std::string::npos ? "" : fatal_text.substr(c + 1);
    } else if (WIFSIGNALED(st)) {
        const int sig = WTERMSIG(st);
        if (sig == SIGXCPU || sig == SIGALRM || sig == SIGKILL) { r.death_kind = "hang"; r.death_text = "no end within the time limit"; }
        else { r.death_kind = "crash"; r.death_text = strsignal(sig); }
    } else {
        r.death_kind = "exit-escaped";
        r.death_text = "process ended with status " + std::to_string(WEXITSTATUS(st));
    }
    if (r.death_kind == "simulator") {
        fprintf(stderr, "SIMULATOR ERROR: %s\n", r.death_text.c_str());
        exit(2);
    }
    r.hash = fnv(17, r.death_kind);
    Finding f;
    f.kind = r.death_kind;
    f.task = g_shared->cur_task;
    f.op = g_shared->cur_op;
    f.detail = r.death_text;
    for (auto& t : p.tasks)
        for (auto& o : t) f.after_fault |= o.fault.any();
    if (f.task >= 0 && f.op >= 0 && f.task < (int)p.tasks.size() && f.op < (int)p.tasks[f.task].size()) {
        const auto& o = p.tasks[f.task][f.op];
        const auto& is = p.insts[o.inst];
        const auto* t = find_tree(is.tree);
        f.tree_flags = t->flags;
        const auto root = t->describe(is.cfg);
        std::vector<const Node*> st2{&root};
        while (!st2.empty()) {
            auto* n = st2.back();
            st2.pop_back();
            f.has_off |= n->off();
            for (auto& c : n->children) st2.push_back(&c);
        }
        f.help_line = o.kind != OpKind::Parse;
        for (auto& c : root.children)
            if (c.kind == K::Help && !o.tokens.empty())
                f.help_line |= o.tokens[0] == g_long_prefix + c.long_name || o.tokens[0] == g_short_prefix + c.short_name;
    }
    r.findings.push_back(f);
    return r;
}
Plan solo(const Plan& p, int task, int op)
{
    Plan q;
    q.prop = p.prop;
    OpSpec o = p.tasks[task][op];
    q.insts.push_back(p.insts[o.inst]);
    o.inst = 0;
    o.group = -1;
    q.tasks = {{o}};
    return q;
}
std::size_t flat_index(const Plan& p, int task, int op)
{
    std::size_t n = 0;
    for (int t = 0; t < task; ++t) n += p.tasks[t].size();
    return n + op;
}
std::uint64_t g_solo_runs = 0;
// adds "context" findings: an operation that behaves differently in this run and all by itself
void add_context(const Plan& p, Ran& r)
{
    std::vector<Finding> extra;
    if (!r.finished) {
        bool alone = false;
        for (std::size_t t = 0; t < p.tasks.size() && !alone; ++t)
            for (std::size_t i = 0; i < p.tasks[t].size() && !alone; ++i) {
                ++g_solo_runs;
                alone = !run_child(solo(p, (int)t, (int)i)).finished;
            }
        if (!alone && p.ops() > 1) {
            Finding f = r.findings.front();
            f.detail = "the run ended in " + f.kind + " (" + f.detail + "), no call does so alone";
            f.kind = "context";
            extra.push_back(f);
        }
    } else if (p.ops() > 1) {
        // the calls with a finding first, then the others (a call may conform here and not do so alone)
        std::vector<Finding> order;
        std::set<std::pair<int, int>> seen;
        for (auto& f : r.findings)
            if (f.task >= 0 && seen.insert({f.task, f.op}).second) order.push_back(f);
        for (int t = 0; t < (int)p.tasks.size(); ++t)
            for (int i = 0; i < (int)p.tasks[t].size(); ++i)
                if (seen.insert({t, i}).second) {
                    Finding f = r.findings.front();
                    f.task = t;
                    f.op = i;
                    f.kind = "conforms";
                    f.detail = op_text(p, p.tasks[t][i]);
                    order.push_back(f);
                }
        if (order.size() > 12) order.resize(12);
        for (auto& f : order) {
            ++g_solo_runs;
            const auto s = run_child(solo(p, f.task, f.op));
            if (!s.finished || s.outs.size() != 1 || s.outs[0] != r.outs[flat_index(p, f.task, f.op)]) {
                Finding c = f;
                c.kind = "context";
                c.detail = "differs from the same call made alone; " + f.kind + ": " + f.detail;
                extra.push_back(c);
            }
        }
    }
    for (auto& f : extra) r.findings.push_back(f);
}
bool wants_context(const std::string& prop) { return prop == "P01" || prop == "P03"; }
std::string family(const std::string& kind) { return kind.substr(0, kind.find(':')); }

const Finding* relevant(const std::string& prop, const Ran& r, const std::string& fam = "")
{
    for (auto& f : r.findings)
        if (reports(prop, f) && (fam.empty() || family(f.kind) == fam)) return &f;
    return nullptr;
}
Ran judged(const Plan& p, bool verbose = false)
{
    Ran r = run_child(p, verbose);
    // a leak counts only when it repeats: something kept on purpose is kept once
    bool leaky = false;
    for (auto& f : r.findings) leaky |= f.kind == "leak";
    if (leaky) {
        std::vector<Finding> keep;
        for (auto& f : r.findings) {
            if (f.kind == "leak") {
                Plan q = solo(p, f.task, f.op);
                const auto o = q.tasks[0][0];
                q.tasks[0] = {o, o, o};
                const auto s = run_child(q);
                int n = 0;
                for (auto& x : s.findings) n += x.kind == "leak";
                if (s.finished && n < 2) continue;
            }
            keep.push_back(f);
        }
        r.findings = keep;
    }
    if (wants_context(p.prop) && !r.findings.empty()) add_context(p, r);
    return r;
}

// ---------------------------------------------------------------- minimising
struct Minimiser {
    std::string fam;
    Clock::time_point start = Clock::now();
    double limit = 60;
    int runs = 0;
    bool holds(const Plan& p)
    {
        if (p.tasks.empty() || p.ops() == 0) return false;
        if (since(start) > limit || runs > 1500) return false;
        ++runs;
        const auto r = judged(p);
        return relevant(p.prop, r, fam) != nullptr;
    }
    template <typename F>
    bool attempt(Plan& p, F&& f)
    {
        Plan q = p;
        f(q);
        for (std::size_t t = 0; t < q.tasks.size();) {
            if (q.tasks[t].empty()) q.tasks.erase(q.tasks.begin() + t);
            else ++t;
        }
        if (!holds(q)) return false;
        p = q;
        return true;
    }
    void run(Plan& p)
    {
        bool changed = true;
        for (int round = 0; round < 4 && changed; ++round) {
            changed = false;
            changed |= attempt(p, [](Plan& q) { q.sched.clear(); }) && false;
            for (std::size_t t = 0; p.tasks.size() > 1 && t < p.tasks.size();) {
                if (attempt(p, [&](Plan& q) { q.tasks.erase(q.tasks.begin() + t); })) changed = true;
                else ++t;
            }
            for (std::size_t t = 0; t < p.tasks.size(); ++t) {
                for (std::size_t chunk = std::max<std::size_t>(1, p.tasks[t].size() / 2);; chunk /= 2) {
                    for (std::size_t i = 0; t < p.tasks.size() && i < p.tasks[t].size();) {
                        const auto before = p.tasks.size();
                        if (attempt(p, [&](Plan& q) {
                                auto& v = q.tasks[t];
                                v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
                            }))
                            changed = true;
                        else i += chunk;
                        if (p.tasks.size() != before) break;
                    }
                    if (chunk <= 1 || t >= p.tasks.size()) break;
                }
            }
            for (std::size_t chunk = std::max<std::size_t>(1, p.sched.size() / 2); !p.sched.empty(); chunk /= 2) {
                for (std::size_t i = 0; i < p.sched.size();) {
                    if (attempt(p, [&](Plan& q) { q.sched.erase(q.sched.begin() + i, q.sched.begin() + std::min(q.sched.size(), i + chunk)); })) changed = true;
                    else i += chunk;
                }
                if (chunk <= 1) break;
            }
            for (std::size_t t = 0; t < p.tasks.size(); ++t) {
                for (std::size_t i = 0; i < p.tasks[t].size(); ++i) {
                    const auto f = p.tasks[t][i].fault;
                    auto op = [&](Plan& q) -> OpSpec& { return q.tasks[t][i]; };
                    if (f.any() && attempt(p, [&](Plan& q) { auto c = op(q).fault.cols; op(q).fault = Fault{}; op(q).fault.cols = c; })) changed = true;
                    if (p.tasks[t][i].fault.alloc_at && p.tasks[t][i].fault.throw_at) {
                        attempt(p, [&](Plan& q) { op(q).fault.alloc_at = 0; op(q).fault.alloc_persist = false; });
                        attempt(p, [&](Plan& q) { op(q).fault.throw_at = 0; });
                    }
                    if (p.tasks[t][i].fault.alloc_persist) attempt(p, [&](Plan& q) { op(q).fault.alloc_persist = false; });
                    if (p.tasks[t][i].fresh) attempt(p, [&](Plan& q) { op(q).fresh = false; });
                    if (f.cols != std::vector<int>{80}) attempt(p, [&](Plan& q) { op(q).fault.cols = {80}; });
                    for (std::size_t k = 0; k < p.tasks[t][i].tokens.size();) {
                        if (attempt(p, [&](Plan& q) { op(q).tokens.erase(op(q).tokens.begin() + k); })) changed = true;
                        else ++k;
                    }
                    for (std::size_t k = 0; k < p.tasks[t][i].tokens.size(); ++k) {
                        while (p.tasks[t][i].tokens[k].size() > 6 && attempt(p, [&](Plan& q) { auto& s = op(q).tokens[k]; s.resize(s.size() / 2); })) changed = true;
                    }
                }
            }
        }
        // drop instances nobody uses
        std::vector<int> map(p.insts.size(), -1);
        Plan q = p;
        q.insts.clear();
        for (auto& t : q.tasks)
            for (auto& o : t) {
                if (map[o.inst] < 0) {
                    map[o.inst] = (int)q.insts.size();
                    q.insts.push_back(p.insts[o.inst]);
                }
                o.inst = map[o.inst];
            }
        if (holds(q)) p = q;
    }
};
std::string json(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    const bool plain = in_repertoire(s) || true;
    (void)plain;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
std::string opt(int argc, char** argv, const char* name, const char* dflt = "")
{
    for (int i = 1; i + 1 < argc; ++i)
        if (!strcmp(argv[i], name)) return argv[i + 1];
    return dflt;
}
bool has(int argc, char** argv, const char* name)
{
    for (int i = 1; i < argc; ++i)
        if (!strcmp(argv[i], name)) return true;
    return false;
}

int replay(const std::string& file)
{
    std::ifstream in(file);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p;
    std::string err;
    if (!in || !from_text(ss.str(), p, err)) {
        fprintf(stderr, "cannot read %s: %s\n", file.c_str(), err.c_str());
        return 2;
    }
    for (auto& i : p.insts)
        if (!find_tree(i.tree)) {
            fprintf(stderr, "tree %s is not in this build\n", i.tree.c_str());
            return 2;
        }
    const auto a = judged(p, true);
    printf("%s", a.log.c_str());
    for (auto& f : a.findings) printf("finding: %s (task %d op %d)%s\n   %s\n", f.kind.c_str(), f.task, f.op, reports(p.prop, f) ? "" : " [other property]", f.detail.c_str());
    const auto b = judged(p);
    printf("hash %llx, again %llx, recorded %llx: %s\n", (unsigned long long)a.hash, (unsigned long long)b.hash, (unsigned long long)p.hash,
           a.hash == b.hash && (!p.hash || p.hash == a.hash) ? "exactly reproduced" : "DIFFERENT execution");
    if (relevant(p.prop, a)) {
        printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file.c_str());
        return 1;
    }
    printf("no violation of %s\n", p.prop.c_str());
    return 0;
}

int search(int argc, char** argv)
{
    const std::string prop = opt(argc, argv, "--prop", "P01");
    const std::uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    const int worker = atoi(opt(argc, argv, "--worker", "0").c_str()), workers = atoi(opt(argc, argv, "--workers", "1").c_str());
    const std::uint64_t runs = strtoull(opt(argc, argv, "--runs", "1000").c_str(), nullptr, 10);
    const double seconds = atof(opt(argc, argv, "--seconds", "60").c_str());
    const bool thorough = opt(argc, argv, "--tier", "quick") == "thorough";
    const std::string out = opt(argc, argv, "--out", "part"), dir = opt(argc, argv, "--replays", ".");
    const std::string stop = opt(argc, argv, "--stop");          // another worker has found something
    const std::uint64_t recheck = strtoull(opt(argc, argv, "--recheck", "64").c_str(), nullptr, 10);
    const bool all = has(argc, argv, "--all-kinds");     // development: report every finding
    const int max_viol = atoi(opt(argc, argv, "--max-violations", "1").c_str());
    const auto start = Clock::now();
    Coverage total;
    std::set<std::uint64_t> shapes, scheds, runs_seen;
    std::vector<std::string> samples;
    std::uint64_t done = 0, nondet = 0, rechecks = 0, deaths = 0, violations = 0, unrepro = 0;
    std::map<std::string, int> kinds;
    std::string viol_lines;
    std::uint64_t first_seed = 0, last_seed = 0;
    for (std::uint64_t n = (std::uint64_t)worker; n < runs; n += workers) {
        if (since(start) > seconds || (!stop.empty() && access(stop.c_str(), F_OK) == 0)) break;
        const std::uint64_t s = mix(seed, n);
        if (!first_seed) first_seed = s;
        last_seed = s;
        Plan p = make_plan(prop, s, thorough);
        if (p.tasks.empty()) continue;
        const auto r = judged(p);
        ++done;
        if (r.finished) {
            const auto* w = reinterpret_cast<const std::uint64_t*>(&r.cov);
            auto* t = reinterpret_cast<std::uint64_t*>(&total);
            for (std::size_t i = 0; i < cov_words; ++i) t[i] += w[i];
            for (auto x : r.shapes) shapes.insert(x);
            if (p.tasks.size() > 1) scheds.insert(r.sched_hash);
            runs_seen.insert(r.shape);
        } else {
            ++deaths;
        }
        if (n / workers % recheck == 0 && r.finished) {
            ++rechecks;
            const auto again = run_child(p);
            if (again.hash != r.hash) {
                ++nondet;
                p.hash = r.hash;
                std::ofstream(out + "-nondet-" + std::to_string(n) + ".replay") << to_text(p);
            }
        }
        if (samples.size() < 3) {
            std::string x = "run seed " + std::to_string(s) + ":";
            for (std::size_t t = 0; t < p.tasks.size(); ++t)
                for (std::size_t i = 0; i < p.tasks[t].size() && i < 4; ++i) x += " task" + std::to_string(t) + "{" + op_text(p, p.tasks[t][i]) + "}";
            x += " slices " + std::to_string(p.sched.size());
            samples.push_back(x);
        }
        for (auto& f : r.findings) ++kinds[family(f.kind)];
        const Finding* f = all && !r.findings.empty() ? &r.findings.front() : relevant(prop, r);
        if (!f) continue;
        const std::string fam = family(f->kind);
        // believed only when it happens again
        const auto twice = judged(p);
        if (!all && !relevant(prop, twice, fam)) {
            ++unrepro;
            fprintf(stderr, "worker %d: run seed %llu: %s not reproduced\n", worker, (unsigned long long)s, f->kind.c_str());
            continue;
        }
        ++violations;
        if (!stop.empty()) std::ofstream{stop} << "stop";
        Plan m = p;
        if (!all) {
            Minimiser mini;
            mini.fam = fam;
            mini.limit = atof(opt(argc, argv, "--shrink-seconds", thorough ? "120" : "20").c_str());
            g_pairs_by_model = true;
            mini.run(m);
            g_pairs_by_model = false;
        }
        const auto fin = judged(m);
        const Finding* ff = all ? (fin.findings.empty() ? f : &fin.findings.front()) : relevant(prop, fin, fam);
        if (!ff) { m = p; ff = f; }
        m.hash = fin.hash;
        m.violation = ff->kind.substr(0, 160);
        for (char& c : m.violation) if (c == '\n') c = ' ';
        m.note = "property " + prop + ", seed " + std::to_string(seed) + ", run " + std::to_string(n) + " (run seed " + std::to_string(s) + ")\n" + ff->kind + ": task " +
                 std::to_string(ff->task) + " op " + std::to_string(ff->op) + "\n" + ff->detail + "\n";
        const std::string file = dir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(n) + ".replay";
        std::ofstream(file) << to_text(m);
        viol_lines += file + "\t" + esc(ff->kind.substr(0, 120)) + "\t" + esc(ff->detail.substr(0, 600)) + "\n";
        if ((int)violations >= max_viol) break;
    }
    {
        std::ofstream v(out + ".viol");
        v << viol_lines;
    }
    {
        std::ofstream b(out + ".shapes", std::ios::binary);
        for (auto x : shapes) b.write(reinterpret_cast<const char*>(&x), 8);
        std::ofstream c(out + ".scheds", std::ios::binary);
        for (auto x : scheds) c.write(reinterpret_cast<const char*>(&x), 8);
        std::ofstream d(out + ".runs", std::ios::binary);
        for (auto x : runs_seen) d.write(reinterpret_cast<const char*>(&x), 8);
    }
    std::ofstream j(out + ".json");
    j << "{\"runs\":" << done << ",\"seconds\":" << since(start) << ",\"deaths\":" << deaths << ",\"violations\":" << violations << ",\"unreproduced\":" << unrepro
      << ",\"determinism_rechecks\":" << rechecks << ",\"nondeterministic\":" << nondet << ",\"solo_runs\":" << g_solo_runs << ",\"first_seed\":" << first_seed
      << ",\"last_seed\":" << last_seed;
    const char* names[] = {"runs_judged", "ops", "steps", "switches", "accepted", "rejected", "helps", "loose", "f_alloc", "f_alloc_persist", "f_throw", "f_oddball", "f_userbad", "f_sink", "f_ioctl",
                           "f_narrow", "f_abandon", "f_exit", "allocs", "users", "multi", "fresh", "groups", "off"};
    static_assert(std::size(names) == cov_words);
    const auto* t = reinterpret_cast<const std::uint64_t*>(&total);
    for (std::size_t i = 0; i < cov_words; ++i) j << ",\"" << names[i] << "\":" << t[i];
    j << ",\"kinds\":{";
    bool first = true;
    for (auto& [k, n] : kinds) {
        j << (first ? "" : ",") << json(k) << ":" << n;
        first = false;
    }
    j << "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) j << (i ? "," : "") << json(samples[i]);
    j << "]}\n";
    return violations ? 1 : 0;
}
}  // namespace
}  // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    if (!getenv("SIM_NO_ASLR_DONE")) {
        setenv("SIM_NO_ASLR_DONE", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const auto lp = opt(argc, argv, "--long-prefix"), sp = opt(argc, argv, "--short-prefix");
    if (!lp.empty()) g_long_prefix = lp;
    if (!sp.empty()) g_short_prefix = sp;
    if (has(argc, argv, "--trees")) {
        for (auto* t : all_trees()) printf("%s\n", t->name);
        return 0;
    }
    if (has(argc, argv, "--replay")) return replay(opt(argc, argv, "--replay"));
    if (has(argc, argv, "--show")) {
        Plan p = make_plan(opt(argc, argv, "--prop", "P01"), strtoull(opt(argc, argv, "--show").c_str(), nullptr, 10), false);
        printf("%s", to_text(p).c_str());
        return 0;
    }
    return search(argc, argv);
}
