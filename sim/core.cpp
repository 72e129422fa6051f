#include "core.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <termios.h>
#include <unistd.h>

extern "C" {
__attribute__((weak)) void __asan_poison_memory_region(void const volatile*, std::size_t);
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile*, std::size_t);
}
namespace sim
{
__thread Task* t_task = nullptr;
Shared* g_shared = nullptr;
std::vector<Slice> g_executed;
std::uint64_t g_step_budget = 0;

namespace
{
// ------------------------------------------------------------ scheduler state
std::vector<Task*> g_tasks;
std::vector<Slice> g_plan;
std::size_t g_plan_pos = 0;
std::uint64_t g_left = ~0ull;      // steps left in this slice
std::uint64_t g_slice_steps = 0;
bool g_running = false;
sem_t g_all_done;

Task* pick_next(int wanted)
{
    for (std::size_t k = 0; k < g_tasks.size(); ++k) {
        Task* t = g_tasks[(wanted + k) % g_tasks.size()];
        if (!t->done) return t;
    }
    return nullptr;
}
void note_slice(int task)
{
    if (g_shared) ++g_shared->switches;
    g_executed.push_back({g_slice_steps, task});
    g_slice_steps = 0;
}
void load_slice()
{
    if (g_plan_pos < g_plan.size()) g_left = g_plan[g_plan_pos].steps;
    else g_left = ~0ull;
}
void switch_to(Task* self, Task* next)
{
    if (next == self) return;
    note_slice(next->id);
    sem_post(&next->sem);
    if (!self->done) {
        while (sem_wait(&self->sem) != 0) {}
    }
}
void preempt(Task* self)
{
    HarnessScope h;
    const int wanted = g_plan[g_plan_pos].task;
    ++g_plan_pos;
    load_slice();
    Task* next = pick_next(wanted % (int)g_tasks.size());
    if (next) switch_to(self, next);
    if (g_shared && self->op) {
        g_shared->cur_task = self->id;
        g_shared->cur_op = self->op->index;
    }
}
// ------------------------------------------------------------ the arena
// Memory of the code under test lies at addresses that depend only on the run, because code may compare addresses. Every
// block has guards around its exact size (poisoned for the sanitizer) and is reused as late as possible.
constexpr std::uintptr_t arena_base = 0x200000000000ull;
constexpr std::size_t arena_size = std::size_t{8} << 30, guard = 16;
struct Head {
    Head* next;
    std::uint32_t klass, size_check;
};
static_assert(sizeof(Head) == guard);
std::uintptr_t g_arena_at = 0;
struct Fifo {
    Head *first = nullptr, *last = nullptr;
    std::size_t n = 0;
};
Fifo g_fifo[512];
// 16 byte steps up to 4 KiB, powers of two above
std::uint32_t klass_of(std::size_t n)
{
    if (n <= 4096) return (std::uint32_t)((n + 15) / 16);
    std::uint32_t k = 257;
    for (std::size_t c = 8192; c < n; c *= 2) ++k;
    return k;
}
std::size_t klass_size(std::uint32_t k) { return k <= 256 ? k * std::size_t{16} : std::size_t{8192} << (k - 257); }
#define RAW __attribute__((no_sanitize("address"), noinline))
RAW void raw_fill(unsigned char* p, unsigned char v, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i) {
        p[i] = v;
        asm volatile("" ::: "memory");
    }
}
RAW bool raw_is(const unsigned char* p, unsigned char v, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i)
        if (p[i] != v) return false;
    return true;
}
RAW void* arena_take(std::size_t n)
{
    if (!g_arena_at) {
        void* m = mmap((void*)arena_base, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (m != (void*)arena_base) fatal("simulator", "no arena");
        g_arena_at = arena_base;
    }
    const auto k = klass_of(n);
    Fifo& f = g_fifo[k];
    Head* h = nullptr;
    if (f.n > (k <= 256 ? 24u : 2u)) {
        h = f.first;
        f.first = h->next;
        --f.n;
    } else {
        h = (Head*)g_arena_at;
        g_arena_at += guard + klass_size(k) + guard;
        if (g_arena_at > arena_base + arena_size) fatal("hang", "runaway memory use");
        if (__asan_poison_memory_region) __asan_poison_memory_region(h, guard + klass_size(k) + guard);
    }
    h->klass = k;
    h->size_check = (std::uint32_t)n;
    auto* p = (unsigned char*)(h + 1);
    raw_fill(p + n, 0xFB, klass_size(k) - n + guard);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
    return p;
}
// false: the guards are damaged
RAW bool arena_give(void* v, std::size_t n)
{
    auto* p = (unsigned char*)v;
    Head* h = (Head*)v - 1;
    if (h->size_check != (std::uint32_t)n || h->klass != klass_of(n)) return false;
    const bool ok = raw_is(p + n, 0xFB, klass_size(h->klass) - n + guard);
    raw_fill(p, 0xDD, std::min(n, std::size_t{1} << 20));
    if (__asan_poison_memory_region) __asan_poison_memory_region(p, klass_size(h->klass));
    Fifo& f = g_fifo[h->klass];
    h->next = nullptr;
    if (f.n++) f.last->next = h;
    else f.first = h;
    f.last = h;
    return ok;
}
bool in_arena(const void* p) { return (std::uintptr_t)p - arena_base < arena_size; }
// ------------------------------------------------------------ allocation side table
struct Block {
    void* p;
    std::size_t size;
    std::uint8_t kind;  // 1 new, 2 cfg
    OpRec* rec;         // null: harness
};
constexpr std::size_t table_size = 1u << 17;
Block g_table[table_size];
std::size_t slot_of(void* p) { return ((std::size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 47; }
void tab_insert(const Block& b)
{
    std::size_t i = slot_of(b.p) & (table_size - 1);
    for (std::size_t n = 0; n < table_size; ++n, i = (i + 1) & (table_size - 1)) {
        if (!g_table[i].p || g_table[i].p == (void*)1 || g_table[i].p == b.p) {
            g_table[i] = b;
            return;
        }
    }
    fatal("simulator", "allocation table full");
}
Block* tab_find(void* p)
{
    std::size_t i = slot_of(p) & (table_size - 1);
    for (std::size_t n = 0; n < table_size; ++n, i = (i + 1) & (table_size - 1)) {
        if (!g_table[i].p) return nullptr;
        if (g_table[i].p == p) return &g_table[i];
    }
    return nullptr;
}
void problem(const char* fmt, ...)
{
    char buf[200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    Task* t = t_task;
    if (t && t->op) {
        HarnessScope h;
        t->op->problems.emplace_back(buf);
    }
}
bool fault_alloc()  // true: fail this allocation
{
    Task* t = t_task;
    if (!t || !t->in_sut || !t->op || t->guard) return false;
    OpRec& r = *t->op;
    ++r.n_alloc;
    if (r.fault.alloc_at && (r.n_alloc == r.fault.alloc_at ||
                             (r.fault.alloc_persist && r.n_alloc > r.fault.alloc_at))) {
        ++r.alloc_fired;
        return true;
    }
    return false;
}
void* do_alloc(std::size_t n, std::size_t align, std::uint8_t kind, bool nothrow)
{
    if (fault_alloc()) {
        if (nothrow) return nullptr;
        throw std::bad_alloc{};
    }
    void* p = nullptr;
    Task* const t = t_task;
    const bool own = t && t->in_sut && t->op;
    if (own && !t->guard && (n > (std::size_t{1} << 30) || t->op->live_bytes > (1l << 30))) fatal("hang", "runaway memory use");
    if (own && align <= 16) {
        p = arena_take(n);
    } else if (align > 16) {
        if (posix_memalign(&p, align, n ? n : 1) != 0) p = nullptr;
    } else {
        p = malloc(n ? n : 1);
    }
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc{};
    }
    std::memset(p, 0xCD, std::min(n, std::size_t{1} << 24));   // nothing may depend on what fresh memory holds
    if (own && !t->guard) {
        OpRec& r = *t->op;
        if (kind == 1) {
            ++r.n_new;
            r.new_bytes += n;
            if (n > r.new_max) r.new_max = n;
        } else {
            ++r.n_cfg;
            r.cfg_bytes += n;
            if (n > r.cfg_max) r.cfg_max = n;
        }
        ++r.live_blocks;
        r.live_bytes += (long)n;
        tab_insert({p, n, kind, &r});
    } else {
        tab_insert({p, n, kind, nullptr});
    }
    return p;
}
void do_free(void* p, std::size_t n, bool sized, std::uint8_t kind) noexcept
{
    if (!p) return;
    Block* b = tab_find(p);
    if (!b) {
        // allocated before the hooks were live, or by malloc: leave it to the sanitizer
        problem("released a block that facility %d never gave out", kind);
        if (in_arena(p)) fatal("asan", "released twice, or not the start of a block");
        free(p);
        return;
    }
    if (b->kind != kind) {
        problem("block of %zu bytes from facility %d released to facility %d", b->size, b->kind, kind);
    } else if (sized && b->size != n) {
        problem("block of %zu bytes released with size %zu (facility %d)", b->size, n, kind);
    }
    if (b->rec) {
        --b->rec->live_blocks;
        b->rec->live_bytes -= (long)b->size;
    }
    b->p = (void*)1;
    if (!in_arena(p)) {
        free(p);
    } else if (!arena_give(p, b->size)) {
        problem("written outside a block of %zu bytes", b->size);
    }
}
}  // namespace

void std_alloc_seen(const char* f, std::size_t) noexcept
{
    Task* t = t_task;
    if (!t || !t->in_sut || !t->op || t->guard) return;
    // "void* sim::std_new(std::size_t, A ...) [with T = X; A = {}; std::size_t = long unsigned int]"
    const char* b = std::strstr(f, "[with T = ");
    if (!b) return;
    b += 10;
    const char* e = std::strstr(b, "; A = {");
    const std::string_view type(b, e ? (std::size_t)(e - b) : std::strlen(b));
    if (type == "char") return;  // text of the exception
    OpRec& r = *t->op;
    const bool own = type.find("arg_router") != std::string_view::npos;
    if (!r.std_alloc[0] || (own && r.std_alloc[0] != '!')) {
        r.std_alloc[0] = own ? '!' : '?';
        const std::size_t n = std::min(type.size(), sizeof r.std_alloc - 2);
        std::memcpy(r.std_alloc + 1, type.data(), n);
        r.std_alloc[n + 1] = 0;
    }
}

void* token_block(std::size_t n) { return arena_take(n); }
bool token_block_done(void* p, std::size_t n) { return arena_give(p, n); }
void* cfg_allocate(std::size_t bytes) { return do_alloc(bytes, 16, 2, false); }
void cfg_deallocate(void* p, std::size_t bytes) noexcept { do_free(p, bytes, true, 2); }

void begin_op(OpRec& rec)
{
    rec.started = true;
    Task* t = t_task;
    t->op = &rec;
    if (g_shared) {
        g_shared->cur_task = t->id;
        g_shared->cur_op = rec.index;
    }
}
void end_op(OpRec& rec)
{
    Task* t = t_task;
    t->op = nullptr;
    rec.finished = true;
    if (rec.exited) return;
    rec.leaked_blocks = (int)rec.live_blocks;
    rec.leaked_bytes = (std::size_t)rec.live_bytes;
}

void user_point(const char*)
{
    Task* t = t_task;
    if (!t || !t->op) return;
    OpRec& r = *t->op;
    ++r.n_user;
    if (r.fault.throw_at && r.n_user == r.fault.throw_at) {
        ++r.throw_fired;
        r.router_threw = r.in_router;
        switch (r.fault.throw_kind) {
        case 0: throw UserError{r.n_user};
        case 1: throw UserOddball{r.n_user};
        case 3:
            if (r.in_router) throw_parse(r.n_user);
            throw UserError{r.n_user};
        default: throw std::bad_alloc{};
        }
    }
}

void fatal(const char* kind, const char* detail)
{
    if (g_shared) {
        snprintf(g_shared->fatal, sizeof g_shared->fatal, "%s:%s", kind, detail);
    } else {
        fprintf(stderr, "simulator fatal %s: %s\n", kind, detail);
    }
    _exit(77);
}

// ------------------------------------------------------------ sinks
std::size_t Sink::accept(const char* s, std::size_t n)
{
    std::size_t can = n;
    if (limit_ >= 0) {
        const std::size_t left = store_->size() >= (std::size_t)limit_ ? 0 : (std::size_t)limit_ - store_->size();
        if (left < can) can = left;
    }
    HarnessScope h;
    store_->append(s, can);
    return can;
}
Sink::int_type Sink::overflow(int_type c)
{
    if (c == traits_type::eof()) return traits_type::not_eof(c);
    const char ch = (char)c;
    if (accept(&ch, 1) != 1) {
        if (rec_) ++rec_->sink_fired;
        if (kind_ == 1) throw SinkError{};
        return traits_type::eof();
    }
    return c;
}
std::streamsize Sink::xsputn(const char* s, std::streamsize n)
{
    const auto done = accept(s, (std::size_t)n);
    if (done != (std::size_t)n) {
        if (rec_) ++rec_->sink_fired;
        if (kind_ == 1) throw SinkError{};
    }
    return (std::streamsize)done;
}
namespace
{
class CoutDemux : public std::streambuf
{
protected:
    int_type overflow(int_type c) override
    {
        const char ch = (char)c;
        xsputn(&ch, 1);
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        HarnessScope h;
        Task* t = t_task;
        if (t && t->op) t->op->cout_text.append(s, (std::size_t)n);
        else stray.append(s, (std::size_t)n);
        return n;
    }
    int sync() override { return 0; }

public:
    std::string stray;
};
CoutDemux& cout_demux()
{
    static CoutDemux* d = new CoutDemux;
    return *d;
}
void on_terminate()
{
    const char* what = "no active exception";
    char buf[200];
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception& x) {
            snprintf(buf, sizeof buf, "%s", x.what());
            what = buf;
        } catch (...) {
            what = "non standard exception";
        }
    }
    fatal("terminate", what);
}
}  // namespace

void install()
{
    std::cout.rdbuf(&cout_demux());
    std::set_terminate(on_terminate);
}

// ------------------------------------------------------------ running tasks
namespace
{
struct Start {
    Task* t;
    std::function<void(Task&)>* body;
};
void finish(Task* t)
{
    t->done = true;
    Task* next = pick_next(t->id);
    if (!next) {
        sem_post(&g_all_done);
        return;
    }
    note_slice(next->id);
    sem_post(&next->sem);
}
void* thread_main(void* arg)
{
    auto* s = static_cast<Start*>(arg);
    t_task = s->t;
    while (sem_wait(&s->t->sem) != 0) {}
    (*s->body)(*s->t);
    finish(s->t);
    t_task = nullptr;
    return nullptr;
}
}  // namespace

void run_tasks(std::vector<std::function<void(Task&)>> bodies, const std::vector<Slice>& plan)
{
    g_plan = plan;
    g_plan_pos = 0;
    g_executed.clear();
    g_slice_steps = 0;
    std::vector<Start> starts(bodies.size());
    std::vector<pthread_t> threads(bodies.size());
    sem_init(&g_all_done, 0, 0);
    for (std::size_t i = 0; i < bodies.size(); ++i) {
        auto* t = new Task;
        t->id = (int)i;
        sem_init(&t->sem, 0, 0);
        g_tasks.push_back(t);
        starts[i] = {t, &bodies[i]};
    }
    load_slice();
    g_running = true;
    for (std::size_t i = 0; i < bodies.size(); ++i) {
        if (pthread_create(&threads[i], nullptr, thread_main, &starts[i]) != 0) fatal("simulator", "pthread_create");
    }
    sem_post(&g_tasks[0]->sem);
    while (sem_wait(&g_all_done) != 0) {}
    g_running = false;
    for (auto& th : threads) pthread_join(th, nullptr);
    for (auto* t : g_tasks) delete t;
    g_tasks.clear();
}

// called at every basic block of the code under test
void step() noexcept
{
    Task* t = t_task;
    if (!t || !t->in_sut || !t->op) return;
    ++t->op->steps;
    if (g_shared) ++g_shared->total_steps;
    if (g_step_budget && t->op->steps > g_step_budget) fatal("hang", "step budget exceeded");
    if (!g_running) return;
    ++g_slice_steps;
    if (g_left != ~0ull) {
        if (g_left > 0) --g_left;
        if (g_left == 0 && t->nopreempt == 0) preempt(t);
    }
}
}  // namespace sim

// ------------------------------------------------------------ interposed symbols
extern "C" void __sanitizer_cov_trace_pc() { sim::step(); }

void* operator new(std::size_t n) { return sim::do_alloc(n, 16, 1, false); }
void* operator new[](std::size_t n) { return sim::do_alloc(n, 16, 1, false); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::do_alloc(n, (std::size_t)a, 1, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::do_alloc(n, (std::size_t)a, 1, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 16, 1, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 16, 1, true); }
void operator delete(void* p) noexcept { sim::do_free(p, 0, false, 1); }
void operator delete[](void* p) noexcept { sim::do_free(p, 0, false, 1); }
void operator delete(void* p, std::size_t n) noexcept { sim::do_free(p, n, true, 1); }
void operator delete[](void* p, std::size_t n) noexcept { sim::do_free(p, n, true, 1); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_free(p, 0, false, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_free(p, 0, false, 1); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { sim::do_free(p, n, true, 1); }
void operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { sim::do_free(p, n, true, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_free(p, 0, false, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p, 0, false, 1); }

extern "C" {
// Initialisation of function local statics: cooperative, and never preempted half way, so that a
// parked task can never hold a guard somebody else needs.
int __cxa_guard_acquire(long long* g)
{
    auto* b = reinterpret_cast<char*>(g);
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
    if (b[1]) sim::fatal("deadlock", "recursive initialisation of a static");
    b[1] = 1;
    if (sim::t_task) { ++sim::t_task->nopreempt; ++sim::t_task->guard; }
    return 1;
}
void __cxa_guard_release(long long* g)
{
    auto* b = reinterpret_cast<char*>(g);
    b[1] = 0;
    __atomic_store_n(&b[0], (char)1, __ATOMIC_RELEASE);
    if (sim::t_task) { --sim::t_task->nopreempt; --sim::t_task->guard; }
}
void __cxa_guard_abort(long long* g)
{
    reinterpret_cast<char*>(g)[1] = 0;
    if (sim::t_task) { --sim::t_task->nopreempt; --sim::t_task->guard; }
}
// Mutexes taken by the code under test: no preemption while one is held, so a parked task never owns one.
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    if (sim::t_task && sim::t_task->in_sut) ++sim::t_task->nopreempt;
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    if (sim::t_task && sim::t_task->in_sut && sim::t_task->nopreempt) --sim::t_task->nopreempt;
    return real(m);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    sim::Task* t = sim::t_task;
    if (t && t->op && req == TIOCGWINSZ) {
        sim::HarnessScope h;
        sim::OpRec& r = *t->op;
        const auto& c = r.fault.cols;
        int v = c.empty() ? -1 : c[(std::size_t)r.n_ioctl < c.size() ? r.n_ioctl : c.size() - 1];
        ++r.n_ioctl;
        r.served_cols.push_back(v);
        if (v < 0) {
            ++r.ioctl_failed;
            errno = ENOTTY;
            return -1;
        }
        auto* w = static_cast<winsize*>(arg);
        w->ws_row = 24;
        w->ws_col = (unsigned short)v;
        w->ws_xpixel = w->ws_ypixel = 0;
        return 0;
    }
    static auto real = reinterpret_cast<int (*)(int, unsigned long, void*)>(dlsym(RTLD_NEXT, "ioctl"));
    return real(fd, req, arg);
}
int tcgetwinsize(int fd, struct winsize* w) noexcept { return ioctl(fd, TIOCGWINSZ, w); }
int isatty(int fd) noexcept
{
    sim::Task* t = sim::t_task;
    if (t && t->op) return !t->op->fault.cols.empty() && t->op->fault.cols[0] >= 0;
    struct termios s;
    return tcgetattr(fd, &s) == 0;
}
// The process "exits": the stand-in records it and abandons the call without unwinding, as exit() would.
void exit(int status)
{
    sim::Task* t = sim::t_task;
    if (t && t->op && t->exit_armed) {
        t->op->exited = true;
        t->op->exit_status = status;
        std::cout.flush();
        t->in_sut = 0;
        t->exit_armed = false;
        std::longjmp(t->exit_jmp, 1);
    }
    fflush(nullptr);
    _exit(status);
}
}
