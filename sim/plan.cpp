#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim
{
namespace
{
std::string hex(const std::string& s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s) {
        snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return r.empty() ? "_" : r;
}
std::string unhex(const std::string& s)
{
    std::string r;
    if (s == "_") return r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
const char* kind_name[] = {"parse", "help_stream", "help_string"};
}  // namespace
std::string op_text(const Plan& p, const OpSpec& o)
{
    static const char* entries[] = {"argv", "cstrs", "views", "container", "list", "tokens", "iterators"};
    std::string s = p.insts[o.inst].tree + " " + kind_name[(int)o.kind];
    if (o.kind == OpKind::Parse) {
        s += std::string(" (") + entries[o.entry] + ")";
        for (auto& t : o.tokens) {
            s += " '";
            char b[8];
            for (unsigned char c : t) {
                if (c < 32 || c == 127) { snprintf(b, sizeof b, "\\x%02x", c); s += b; }
                else s += (char)c;
            }
            s += "'";
        }
    }
    if (o.fresh) s += " [own instance]";
    const Fault& f = o.fault;
    if (f.alloc_at) s += " [allocation " + std::to_string(f.alloc_at) + (f.alloc_persist ? " and later fail]" : " fails]");
    if (f.throw_at) s += " [user call " + std::to_string(f.throw_at) + " throws kind " + std::to_string(f.throw_kind) + "]";
    if (f.sink_at >= 0) s += " [sink fails after " + std::to_string(f.sink_at) + " bytes, kind " + std::to_string(f.sink_kind) + "]";
    if (o.kind == OpKind::HelpStream && o.entry) s += " [stream with format " + std::to_string(o.entry) + "]";
    if (f.sink_prebad) s += " [stream already failed]";
    if (!f.cols.empty()) {
        s += " [terminal";
        for (int c : f.cols) s += " " + std::to_string(c);
        s += "]";
    }
    return s;
}
std::string to_text(const Plan& p)
{
    std::ostringstream o;
    std::istringstream note(p.note);
    for (std::string l; std::getline(note, l);) o << "# " << l << "\n";
    o << "prop " << p.prop << "\n";
    if (!p.violation.empty()) o << "violation " << p.violation << "\n";
    if (p.hash) o << "hash " << std::hex << p.hash << std::dec << "\n";
    for (std::size_t i = 0; i < p.insts.size(); ++i) {
        auto& x = p.insts[i];
        o << "inst " << x.tree << " " << std::hex << x.cfg.en << std::dec;
        for (long v : x.cfg.v) o << " " << v;
        o << " " << hex(x.cfg.lang) << "\n";
    }
    for (std::size_t t = 0; t < p.tasks.size(); ++t) {
        o << "task\n";
        for (auto& op : p.tasks[t]) {
            o << "# " << op_text(p, op) << "\n";
            o << "op " << op.inst << " " << (int)op.kind << " " << op.entry << " " << op.argc0 << " " << op.fresh << " " << op.group << " fault "
              << op.fault.alloc_at << " " << op.fault.alloc_persist << " " << op.fault.throw_at << " " << op.fault.throw_kind << " "
              << op.fault.sink_at << " " << op.fault.sink_kind << " " << op.fault.sink_prebad << " " << op.fault.cols.size();
            for (int c : op.fault.cols) o << " " << c;
            o << " tokens " << op.tokens.size();
            for (auto& k : op.tokens) o << " " << hex(k);
            o << "\n";
        }
    }
    if (!p.sched.empty()) {
        o << "sched";
        for (auto& s : p.sched) o << " " << s.steps << ":" << s.task;
        o << "\n";
    }
    return o.str();
}
bool from_text(const std::string& s, Plan& p, std::string& err)
{
    std::istringstream in(s);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == '#') {
            if (p.insts.empty() && line.size() > 2) p.note += line.substr(2) + "\n";
            continue;
        }
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "prop") l >> p.prop;
        else if (w == "violation") l >> p.violation;
        else if (w == "hash") l >> std::hex >> p.hash;
        else if (w == "inst") {
            InstSpec x;
            std::string lang;
            l >> x.tree >> std::hex >> x.cfg.en >> std::dec;
            for (long& v : x.cfg.v) l >> v;
            l >> lang;
            x.cfg.lang = unhex(lang);
            p.insts.push_back(x);
        } else if (w == "task") p.tasks.emplace_back();
        else if (w == "op") {
            if (p.tasks.empty()) p.tasks.emplace_back();
            OpSpec o;
            int k = 0;
            std::size_t n = 0;
            std::string x;
            l >> o.inst >> k >> o.entry >> o.argc0 >> o.fresh >> o.group >> x >> o.fault.alloc_at >> o.fault.alloc_persist >> o.fault.throw_at >>
                o.fault.throw_kind >> o.fault.sink_at >> o.fault.sink_kind >> o.fault.sink_prebad >> n;
            o.kind = (OpKind)k;
            for (std::size_t i = 0; i < n; ++i) {
                int c;
                l >> c;
                o.fault.cols.push_back(c);
            }
            l >> x >> n;
            for (std::size_t i = 0; i < n; ++i) {
                l >> x;
                o.tokens.push_back(unhex(x));
            }
            if (!l || o.inst < 0 || o.inst >= (int)p.insts.size()) {
                err = "bad op line: " + line;
                return false;
            }
            p.tasks.back().push_back(o);
        } else if (w == "sched") {
            Slice sl;
            char c;
            while (l >> sl.steps >> c >> sl.task) p.sched.push_back(sl);
        }
    }
    if (p.insts.empty() || p.tasks.empty()) {
        err = "no instances or tasks";
        return false;
    }
    return true;
}
}  // namespace sim
