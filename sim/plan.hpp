// A run, written down: instances, tasks with their calls, faults and the schedule. The text form is the replay file.
#pragma once
#include "core.hpp"
#include "desc.hpp"
#include <string>
#include <vector>

namespace sim
{
struct InstSpec {
    std::string tree;
    Cfg cfg;
};
enum class OpKind { Parse, HelpStream, HelpString };
enum Entry { e_argv, e_cstrs, e_views, e_container, e_list, e_tokens, e_iter, e_count };
struct OpSpec {
    int inst = 0;
    OpKind kind = OpKind::Parse;
    int entry = e_argv;
    int argc0 = 0;          // 1: no program name at all (argc == 0), only with no tokens
    bool fresh = false;     // build a private instance inside the call
    int group = -1;         // operations of one group must agree (equivalent spellings, entry points)
    std::vector<std::string> tokens;
    Fault fault;
};
struct Plan {
    std::string prop;
    std::vector<InstSpec> insts;
    std::vector<std::vector<OpSpec>> tasks;
    std::vector<Slice> sched;
    std::string note;            // comment lines of a replay file
    std::uint64_t hash = 0;      // of the run when it was recorded
    std::string violation;       // kind recorded
    std::size_t ops() const { std::size_t n = 0; for (auto& t : tasks) n += t.size(); return n; }
};
std::string to_text(const Plan& p);
bool from_text(const std::string& s, Plan& p, std::string& err);
std::string op_text(const Plan& p, const OpSpec& o);   // for people

// ---- judging
struct Finding {
    std::string kind;     // what differs
    std::string detail;
    int task = -1, op = -1;
    unsigned tree_flags = 0;
    bool has_off = false; // the instance has a node switched off
    bool help_line = false;
    bool after_fault = false;
    bool in_sched = false;
};
struct Coverage {
    std::uint64_t runs = 0, ops = 0, steps = 0, switches = 0;
    std::uint64_t accepted = 0, rejected = 0, helps = 0, loose = 0;
    std::uint64_t f_alloc = 0, f_alloc_persist = 0, f_throw = 0, f_oddball = 0, f_userbad = 0, f_sink = 0, f_ioctl = 0, f_narrow = 0,
                  f_abandon = 0, f_exit = 0;
    std::uint64_t allocs = 0, users = 0, multi = 0, fresh = 0, groups = 0, off = 0;
};

// generation
struct TreeReg;
Plan make_plan(const std::string& prop, std::uint64_t seed, bool thorough);

// execution in this process (a forked child): returns findings
struct RunResult {
    std::vector<Finding> findings;
    std::uint64_t hash = 0, shape = 0;
    std::vector<std::uint64_t> shapes;   // outcome shapes, for the coverage measure
    Coverage cov;
    std::string log;
    std::vector<std::string> op_outcomes;  // canonical per op (task order)
};
RunResult execute(const Plan& p, bool verbose);
const TreeReg* find_tree(const std::string& name);
std::vector<const TreeReg*> all_trees();
extern bool g_pairs_by_model;   // while minimising: lines of a pair must stay equivalent, which the model decides
bool reports(const std::string& prop, const Finding& f);
}  // namespace sim
