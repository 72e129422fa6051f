// The simulator core: owns scheduling, allocation, faults, terminal, output sinks and process exit.
// Knows nothing about arg_router.
#pragma once
#include <csetjmp>
#include <cstdint>
#include <exception>
#include <functional>
#include <semaphore.h>
#include <streambuf>
#include <string>
#include <string_view>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- randomness
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull} { next(); next(); }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::int64_t range(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a + 1)); }
    bool chance(int percent) { return (int)below(100) < percent; }
    std::uint64_t logu(std::uint64_t max)  // log-uniform in [1,max]
    {
        int bits = 1;
        while ((1ull << bits) < max) ++bits;
        std::uint64_t v = 1 + below(1ull << (1 + below(bits)));
        return v > max ? max : v;
    }
    template <typename V>
    auto& pick(V& v)
    {
        return v[below(v.size())];
    }
};
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    Rng r{a ^ (b * 0xA24BAED4963EE407ull)};
    return r.next() ^ b;
}
inline std::uint64_t fnv(std::uint64_t h, std::string_view s)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return (h ^ 0xff) * 1099511628211ull;
}

// ---------------------------------------------------------------- faults
struct Fault {
    // allocation: fail the n-th (1 based) allocation of the operation; persistent = and all later ones
    int alloc_at = 0;
    bool alloc_persist = false;
    // user code: the n-th invocation of user code in the operation throws
    int throw_at = 0;
    int throw_kind = 0;  // 0 UserError, 1 non-std type, 2 std::bad_alloc, 3 a parse_exception of the user's own (routers)
    // terminal: widths served to successive size queries (last repeats); -1 = query fails
    std::vector<int> cols;
    // output sink: bytes accepted before failing (-1 never), how it fails
    int sink_at = -1;
    int sink_kind = 0;  // 0 short write / eof, 1 throws, 2 as 0 with stream exceptions enabled
    bool sink_prebad = false;
    bool any() const { return alloc_at || throw_at || sink_at >= 0 || sink_prebad; }
};
struct UserError : std::exception {
    int id;
    explicit UserError(int i) : id{i} {}
    const char* what() const noexcept override { return "simulated user failure"; }
};
[[noreturn]] void throw_parse(int id);  // a type derived from arg_router::parse_exception
struct UserOddball {
    int id;
};
struct SinkError : std::exception {
    const char* what() const noexcept override { return "simulated sink failure"; }
};

// ---------------------------------------------------------------- per operation record
struct Range {
    const char* p;
    std::size_t n;
};
struct OpRec {
    // filled while the operation runs
    std::vector<std::string> routes;      // "router:arg|arg|.." in order
    std::vector<std::string> route_bad;   // problems seen inside a router (bad view etc.)
    std::string out;                      // bytes accepted by the stream given to the operation
    std::string cout_text;                // bytes written to standard output
    bool stream_failed = false;
    bool exited = false;
    int exit_status = 0;
    std::string outcome;                  // "ok", "parse_exception:...", "bad_alloc", "user:N", ...
    std::string text;                     // help() string
    // accounting
    std::uint64_t steps = 0;
    int n_alloc = 0, n_user = 0, n_ioctl = 0;
    int alloc_fired = 0, throw_fired = 0, sink_fired = 0, ioctl_failed = 0;
    std::size_t new_bytes = 0, cfg_bytes = 0, new_max = 0, cfg_max = 0;
    int n_new = 0, n_cfg = 0;
    char std_alloc[160] = {};             // type of the first suspicious element allocated through std::allocator
    int leaked_blocks = 0;
    std::size_t leaked_bytes = 0;
    long probes_delta = 0;
    long live_blocks = 0, live_bytes = 0;
    bool in_router = false, router_threw = false;
    std::vector<int> served_cols;
    std::vector<std::string> problems;    // allocator mismatches and the like
    // context
    Fault fault;
    std::vector<Range> token_mem;         // caller token storage, for borrowed view checks
    int task = 0, index = 0;
    bool started = false, finished = false;
};

// ---------------------------------------------------------------- scheduling
struct Slice {
    std::uint64_t steps;
    int task;
};
struct Task {
    int id = 0;
    sem_t sem;
    bool done = false;
    OpRec* op = nullptr;
    int in_sut = 0;        // > 0 : executing code under test
    int nopreempt = 0;
    int guard = 0;         // > 0 : initialising a function local static
    std::jmp_buf exit_jmp;
    bool exit_armed = false;
    std::streambuf* own_sink = nullptr;
};
extern __thread Task* t_task;

struct Shared {  // lives in shared memory, read by the parent after the child has gone
    int state;   // 0 running, 1 finished
    int cur_task, cur_op;
    std::uint64_t total_steps, switches, preempt_points;
    std::uint64_t hash;
    int violations;
    std::uint32_t text_len;
    char fatal[256];
    char text[1 << 20];
};
extern Shared* g_shared;

void run_tasks(std::vector<std::function<void(Task&)>> bodies, const std::vector<Slice>& plan);
extern std::vector<Slice> g_executed;        // schedule as it was actually executed
extern std::uint64_t g_step_budget;

// code-under-test scope
struct SutScope {
    Task* t;
    SutScope() : t{t_task} { if (t) ++t->in_sut; }
    ~SutScope() { if (t) --t->in_sut; }
};
// harness scope, inside callbacks from the code under test
struct HarnessScope {
    Task* t;
    int saved;
    HarnessScope() : t{t_task}, saved{t ? t->in_sut : 0} { if (t) t->in_sut = 0; }
    ~HarnessScope() { if (t) t->in_sut = saved; }
};
// every user supplied callable calls this first: counts, and throws when told to
void user_point(const char* what);
[[noreturn]] void fatal(const char* kind, const char* detail);

// exactly sized, guarded storage for what callers hand in
void* token_block(std::size_t n);
bool token_block_done(void* p, std::size_t n);   // false: written outside it
// allocation accounting
void begin_op(OpRec& rec);
void end_op(OpRec& rec);
void install();  // cout, terminate, signal hooks

// a sink with simulated failures
class Sink : public std::streambuf
{
public:
    Sink(OpRec* rec, std::string* store, int limit, int kind) : rec_{rec}, store_{store}, limit_{limit}, kind_{kind} {}

protected:
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int sync() override { return 0; }

private:
    std::size_t accept(const char* s, std::size_t n);
    OpRec* rec_;
    std::string* store_;
    int limit_;
    int kind_;
};
}  // namespace sim
