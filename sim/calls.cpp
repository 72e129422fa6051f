// Runs one operation of a plan against the real code and records what came out of it.
#include "calls.hpp"
#include "arg_router/exception.hpp"
#include <cstdlib>
#include <cstring>
#include <ios>
#include <iostream>
#include <ostream>

namespace sim
{
namespace
{
struct UserParse : arg_router::parse_exception {
    int id;
    explicit UserParse(int i) : parse_exception{" not today"}, id{i} {}
};
}  // namespace
void throw_parse(int id) { throw UserParse{id}; }
std::vector<Range> g_static_views;
ViewReg::ViewReg(std::string_view v) { g_static_views.push_back({v.data(), v.size()}); }
TreeReg*& TreeReg::head()
{
    static TreeReg* h = nullptr;
    return h;
}
namespace
{
struct TokenStore {  // caller storage, in blocks of exactly the size needed
    std::vector<char*> blocks;
    std::vector<std::size_t> sizes;
    std::vector<std::string> copy;
    const char* add(const std::string& s, bool nul)
    {
        const std::size_t n = s.size() + (nul ? 1 : 0);
        char* b = static_cast<char*>(token_block(n));
        std::memcpy(b, s.data(), s.size());
        if (nul) b[s.size()] = 0;
        blocks.push_back(b);
        sizes.push_back(n);
        copy.emplace_back(b, n);
        return b;
    }
    bool intact() const
    {
        for (std::size_t i = 0; i < blocks.size(); ++i)
            if (std::memcmp(blocks[i], copy[i].data(), sizes[i]) != 0) return false;
        return true;
    }
    bool release()
    {
        bool ok = true;
        for (std::size_t i = 0; i < blocks.size(); ++i) ok &= token_block_done(blocks[i], sizes[i]);
        blocks.clear();
        return ok;
    }
};
void classify(OpRec& rec, const char* prefix, const std::string& text)
{
    HarnessScope h;
    rec.outcome = prefix + text;
}
}  // namespace

void run_op(Task& task, const OpSpec& spec, const TreeReg& tree, const Cfg& cfg, const Inst* shared, OpRec& rec, bool nopreempt)
{
    TokenStore store;
    std::vector<std::string_view> views;
    std::list<std::string_view> list;
    char** argv = nullptr;
    int argc = 0;
    if (spec.kind == OpKind::Parse) {
        if (spec.entry == e_argv || spec.entry == e_cstrs) {
            std::vector<char*> ptrs;
            if (spec.entry == e_argv && !spec.argc0) ptrs.push_back(const_cast<char*>(store.add("./program", true)));
            for (auto& t : spec.tokens) ptrs.push_back(const_cast<char*>(store.add(t, true)));
            argc = (int)ptrs.size();
            argv = static_cast<char**>(token_block(sizeof(char*) * (ptrs.size() + 1)));
            for (std::size_t i = 0; i < ptrs.size(); ++i) argv[i] = ptrs[i];
            argv[argc] = nullptr;
        } else {
            for (auto& t : spec.tokens) views.push_back({store.add(t, false), t.size()});
            if (spec.entry == e_list) list.assign(views.begin(), views.end());
        }
        for (std::size_t i = 0; i < store.blocks.size(); ++i) rec.token_mem.push_back({store.blocks[i], store.sizes[i]});
    }
    std::string sink_store;
    std::ostream* stream = nullptr;
    Sink sink{&rec, &rec.out, spec.fault.sink_at, spec.fault.sink_kind};
    if (spec.kind == OpKind::HelpStream) {
        stream = new std::ostream(&sink);
        // what the caller has used the stream for before
        if (spec.entry == 1) stream->fill('0');
        if (spec.entry == 2) { stream->fill('*'); stream->setf(std::ios::left, std::ios::adjustfield); }
        if (spec.entry == 3) *stream << std::hex << std::showbase << std::boolalpha << std::uppercase << std::internal << std::unitbuf;
        if (spec.fault.sink_kind == 2) stream->exceptions(std::ios::badbit | std::ios::failbit);
        if (spec.fault.sink_prebad && spec.fault.sink_kind != 2) stream->setstate(std::ios::badbit);
    }
    char** volatile argv_before = argv;
    std::vector<char*> argv_copy(argv, argv ? argv + argc : argv);

    if (nopreempt) ++task.nopreempt;
    rec.fault = spec.fault;
    Fault& fault = rec.fault;
    const int alloc_at = fault.alloc_at, throw_at = fault.throw_at;
    const Inst* inst = shared;
    if (spec.fresh) {
        fault.alloc_at = fault.throw_at = 0;
        begin_op(rec);
        {
            SutScope s;
            inst = tree.make(cfg);
        }
        rec.n_alloc = rec.n_user = rec.n_ioctl = 0;
        rec.new_max = rec.new_bytes = rec.cfg_max = rec.cfg_bytes = 0;
        rec.n_new = rec.n_cfg = 0;
        rec.std_alloc[0] = 0;
        rec.served_cols.clear();
        fault.alloc_at = alloc_at;
        fault.throw_at = throw_at;
    } else {
        begin_op(rec);
    }
    const int in_sut_before = task.in_sut;
    if (setjmp(task.exit_jmp) == 0) {
        task.exit_armed = true;
        try {
            {
                SutScope s;
                switch (spec.kind) {
                case OpKind::HelpStream: inst->help_stream(*stream); break;
                case OpKind::HelpString: {
                    std::string t = inst->help_string();
                    HarnessScope h;
                    rec.text = t;
                    std::string().swap(t);
                    break;
                }
                case OpKind::Parse:
                    switch (spec.entry) {
                    case e_argv: inst->parse_argv(argc, argv); break;
                    case e_cstrs: inst->parse_cstrs(argv, argv + argc); break;
                    case e_views: inst->parse_views(views.data(), views.data() + views.size()); break;
                    case e_iter: inst->parse_iter(views.data(), views.data() + views.size()); break;
                    case e_container: inst->parse_container(views); break;
                    case e_list: inst->parse_list(list); break;
                    default: inst->parse_tokens(views.data(), views.data() + views.size()); break;
                    }
                }
            }
            classify(rec, "ok", "");
        } catch (const UserParse& e) {
            classify(rec, "uparse:", std::to_string(e.id) + e.what());
        } catch (const arg_router::multi_lang_exception&) {
            classify(rec, "multi_lang_exception", "");
        } catch (const arg_router::parse_exception& e) {
            classify(rec, "parse_exception:", e.what());
        } catch (const UserError& e) {
            classify(rec, "user:", std::to_string(e.id));
        } catch (const UserOddball& e) {
            classify(rec, "odd:", std::to_string(e.id));
        } catch (const SinkError&) {
            classify(rec, "sink", "");
        } catch (const std::ios_base::failure&) {
            classify(rec, "ios", "");
        } catch (const std::bad_alloc&) {
            classify(rec, "bad_alloc", "");
        } catch (const std::exception& e) {
            classify(rec, "std:", e.what());
        } catch (...) {
            classify(rec, "unknown", "");
        }
        task.exit_armed = false;
    } else {
        rec.outcome = "exit:" + std::to_string(rec.exit_status);
        if (nopreempt && task.nopreempt == 0) ++task.nopreempt;
    }
    task.in_sut = in_sut_before;
    rec.in_router = false;
    fault.alloc_at = fault.throw_at = 0;
    if (spec.fresh && !rec.exited) {
        SutScope s;
        delete inst;
    }
    end_op(rec);
    if (nopreempt) --task.nopreempt;
    if (stream) {
        rec.stream_failed = !stream->good();
        delete stream;
    }
    if (!store.intact()) rec.problems.push_back("the caller's tokens were modified");
    if (argv && (argv != argv_before || std::memcmp(argv, argv_copy.data(), sizeof(char*) * argc) != 0 || argv[argc] != nullptr))
        rec.problems.push_back("the caller's argument vector was modified");
    for (auto& r : rec.token_mem) (void)r;
    bool intact = store.release();
    if (argv) intact &= token_block_done(argv, sizeof(char*) * (argc + 1));
    if (!intact) rec.problems.push_back("written outside the caller's tokens");
    rec.token_mem.clear();
}
}  // namespace sim
