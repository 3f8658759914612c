// Runtime: fibers, scheduler, simulated heap, instrumentation callbacks, batch runner.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>
#include <unordered_set>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

const char* const fault_names[F_COUNT] = {
    "preemption", "stalled_worker", "killed_worker", "repartition", "alloc_failure_once", "alloc_failure_lasting",
    "short_read", "short_write", "interrupted_call", "read_error", "write_error", "disk_full", "open_error",
    "close_error", "early_eof", "damaged_byte", "malformed_text", "sync_error", "process_kill", "bad_argument",
    "device_error", "no_device", "stale_visibility", "work_group_split", "team_shrink", "nested_team", "unseekable_stream"};

Result* R;
bool verbose;
Policy policy;
SchedCfg sched;
AllocPlan alloc_plan;
OmpCfg omp;
std::function<void()> observer;
uint64_t step_slack, step_budget = 60000000, block_budget = 400000000;
int spawn_tid;
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
std::vector<void (*)()>& warmups() { static std::vector<void (*)()> v; return v; }

// ------------------------------------------------------------------ memory layout
static const uintptr_t HEAP = 0x100000000000ull;
static const size_t HEAPSZ = (size_t)768 << 20;
static const uintptr_t STACKS = HEAP + ((size_t)1 << 32);
static const size_t STACKSZ1 = (size_t)512 << 10;
static const int MAXSTACKS = 320;
static const size_t STACKSZ = STACKSZ1 * MAXSTACKS;
static const uintptr_t SHADOW = 0x180000000000ull;
static const uintptr_t GRAN_HEAP = 0x190000000000ull;
static const uintptr_t GRAN_STACK = 0x1a0000000000ull;
static const uintptr_t GRAN_DATA = 0x1b0000000000ull;
extern "C" char __data_start, _end;
static uintptr_t DATA; static size_t DATASZ;
static uintptr_t heap_top;
static uint64_t n_live, b_live;
static uint8_t* const shadow = (uint8_t*)SHADOW;
static uint8_t* covmap;     // shared between runs

// ------------------------------------------------------------------ random numbers
static inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t work_state, sched_state;
static bool tape_replay, dev_replay;
static const uint32_t* in_tape; static uint32_t in_ntape, tape_pos;
static const Dev* in_dev; static uint32_t in_ndev, dev_pos;
uint64_t sched_rand() { return splitmix(sched_state); }
static inline uint32_t rand20() { return (uint32_t)(splitmix(sched_state) >> 44); }

void mix(uint64_t v) { uint64_t s = R->hash ^ (v + 0x9e3779b97f4a7c15ull); R->hash = splitmix(s); }
static inline void mixo(uint64_t v) { uint64_t s = R->order_hash ^ v; R->order_hash = splitmix(s); }

uint32_t draw(uint32_t n) {
    if (n == 0) n = 1;
    uint32_t v;
    if (tape_replay && (tape_pos < in_ntape || !work_state)) v = tape_pos < in_ntape ? in_tape[tape_pos] : 0;
    else v = (uint32_t)((splitmix(work_state) >> 11) % n);
    ++tape_pos;
    if (v >= n) v = v % n;
    if (R->ntape < MAXTAPE) R->tape[R->ntape++] = v; else R->tape_overflow = 1;
    uint64_t s = R->case_hash ^ ((uint64_t)v << 32 | n); R->case_hash = splitmix(s);
    mix(v);
    return v;
}
void fault(Fault f) { ++R->faults[f]; mix(1000 + f); }
void probe(int i) { ++R->probes[i % PROBES]; }
void desc(const char* fmt, ...) {
    if (!verbose) return;
    va_list ap; va_start(ap, fmt);
    size_t left = DESCLEN - R->ndesc;
    if (left > 2) {
        int n = vsnprintf(R->desc + R->ndesc, left - 1, fmt, ap);
        if (n > 0) { R->ndesc += (uint32_t)std::min<size_t>(n, left - 2); R->desc[R->ndesc++] = '\n'; R->desc[std::min<uint32_t>(R->ndesc, DESCLEN - 1)] = 0; }
    }
    va_end(ap);
}
void set_nontrivial() { R->nontrivial = 1; }

// ------------------------------------------------------------------ fibers
enum FState { FREE, READY, BLOCKED, DONE };
struct Fiber {
    int id = 0;
    FState st = FREE;
    void* sp = nullptr;
    int stack = -1;
    int sut = 0;
    bool in_rt = false;
    int locks = 0;
    uint64_t accesses = 0, event_at = ~0ull, stall_len = 0, stall_until = 0;
    bool kill = false, killed = false, internal = false;
    uint32_t prio = 0;
    uint64_t eh[2] = {0, 0};
    int err = 0;
    void* octx = nullptr;
    int tls_slot = -1;
    std::function<void()> fn;
    void (*cfn)(void*) = nullptr; void* carg = nullptr;
    std::function<bool()> ready;
    const char* what = "";
    char name[24] = "";
};
static const int MAXF = 4096;
static Fiber* fibers[MAXF];
static int nfibers;
Fiber* cur;
static bool in_rt;
static int stack_used[MAXSTACKS];
static uint64_t steps, blocks, next_check, last_switch;
static int live;                       // fibers not DONE
static bool observe_pending;
int last_writer;

struct RT { bool saved; RT() : saved(in_rt) { in_rt = true; } ~RT() { in_rt = saved; } };
Sut::Sut() { ++cur->sut; }
Sut::~Sut() { --cur->sut; }
Harness::Harness() : saved(cur->sut) { cur->sut = 0; }
Harness::~Harness() { cur->sut = saved; }
bool in_sut() { return cur && cur->sut && !in_rt; }
int self() { return cur->id; }
uint64_t now() { return steps; }
uint64_t fiber_accesses(int id) { return fibers[id]->accesses; }
bool fiber_done(int id) { return fibers[id]->st == DONE; }
bool fiber_killed(int id) { return fibers[id]->killed; }
void* omp_ctx() { return cur->octx; }
void set_omp_ctx(void* p) { cur->octx = p; }
void lock_held(int d) { cur->locks += d; }

// thread-local storage of the executable, one copy per fiber slot
static uintptr_t tls_base; static size_t tls_size; static const char* tls_init; static size_t tls_init_size;
static const int MAXTLS = 1000;
static char* tls_copies[MAXTLS];
static char* tls_of(int slot) {
    if (slot < 0 || slot >= MAXTLS) slot = MAXTLS - 1;
    if (!tls_copies[slot]) {
        tls_copies[slot] = (char*)calloc(1, tls_size ? tls_size : 1);
        memcpy(tls_copies[slot], tls_init, tls_init_size);
    }
    return tls_copies[slot];
}
static int phdr_cb(struct dl_phdr_info* info, size_t, void* d) {
    bool* first = (bool*)d;
    if (!*first) return 1;
    *first = false;
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            auto& ph = info->dlpi_phdr[i];
            size_t al = ph.p_align ? ph.p_align : 1;
            size_t sz = (ph.p_memsz + al - 1) / al * al;
            uintptr_t tp; asm("mov %%fs:0,%0" : "=r"(tp));
            tls_base = tp - sz; tls_size = ph.p_memsz; tls_init = (const char*)(info->dlpi_addr + ph.p_vaddr); tls_init_size = ph.p_filesz;
        }
    return 1;
}

extern "C" void* __cxa_get_globals();
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void switch_to(Fiber* t) {
    Fiber* f = cur;
    if (t == f) return;
    uint64_t* eh = (uint64_t*)__cxa_get_globals();
    f->eh[0] = eh[0]; f->eh[1] = eh[1]; f->err = errno; f->in_rt = in_rt;
    eh[0] = t->eh[0]; eh[1] = t->eh[1]; errno = t->err;
    if (tls_size && f->tls_slot != t->tls_slot) {
        memcpy(tls_of(f->tls_slot), (void*)tls_base, tls_size);
        memcpy((void*)tls_base, tls_of(t->tls_slot), tls_size);
    }
    cur = t; last_switch = steps;
    ++R->switches; mix(steps * 64 + t->id);
    sim_switch(&f->sp, t->sp);
    in_rt = cur->in_rt;
}

static bool runnable(Fiber* f) {
    if (f->st == BLOCKED) { if (f->ready && f->ready()) return f->stall_until <= steps; return false; }
    return f->st == READY && f->stall_until <= steps;
}

static void record(uint64_t step, int fid) {
    if (R->ndev < MAXDEV) R->dev[R->ndev++] = Dev{step, fid, 0}; else R->dev_overflow = 1;
}

// Chooses who runs next. With preempt the current fiber could go on.
static Fiber* pick(bool preempt) {
    static Fiber* c[MAXF]; int n = 0;
    for (;;) {
        n = 0;
        for (int i = 0; i < nfibers; ++i) {
            Fiber* f = fibers[i];
            if (f->st == DONE || f->st == FREE) continue;
            if (f->id == 0 && f->st == READY && f != cur && n) continue;
            if (runnable(f)) c[n++] = f;
        }
        if (n) break;
        uint64_t t = ~0ull;
        for (int i = 0; i < nfibers; ++i) { Fiber* f = fibers[i]; if ((f->st == READY || (f->st == BLOCKED && f->ready && f->ready())) && f->stall_until > steps) t = std::min(t, f->stall_until); }
        if (t == ~0ull) {
            std::string who;
            for (int i = 0; i < nfibers; ++i) if (fibers[i]->st == BLOCKED) { who += fibers[i]->name; who += " waits for "; who += fibers[i]->what; who += "; "; }
            if (R && !policy.hang_is_violation) skip("deadlock: %s", who.c_str());
            fail("deadlock", "no thread can make progress: %s", who.c_str());
        }
        steps = t;       // jump the clock
    }
    Fiber* def = nullptr;
    if (preempt) def = cur;
    else { for (int i = 0; i < n; ++i) if (c[i]->id > cur->id) { def = c[i]; break; } if (!def) def = c[0]; }
    Fiber* ch = def;
    if (dev_replay) {
        while (dev_pos < in_ndev && in_dev[dev_pos].step < steps) ++dev_pos;
        if (dev_pos < in_ndev && in_dev[dev_pos].step == steps) { for (int i = 0; i < n; ++i) if (c[i]->id == in_dev[dev_pos].fiber) ch = c[i]; ++dev_pos; }
        next_check = dev_pos < in_ndev ? in_dev[dev_pos].step : ~0ull;
    } else if (n > 1) {
        switch (sched.kind) {
        case 0: break;
        case 2: {
            Fiber* best = c[0];
            for (int i = 1; i < n; ++i) if (c[i]->prio > best->prio) best = c[i];
            ch = best; break;
        }
        case 3:
            if (preempt) { int k = 0; for (int i = 0; i < n; ++i) if (c[i] == cur) k = i; ch = c[(k + 1) % n]; }
            else ch = c[sched_rand() % n];
            break;
        default: {
            if (preempt) { do ch = c[sched_rand() % n]; while (ch == cur); }
            else ch = c[sched_rand() % n];
        }
        }
    }
    if (ch != def) record(steps, ch->id);
    return ch;
}
static void plan_next() {
    if (dev_replay) return;
    uint64_t d = ~0ull;
    if (sched.kind == 3) d = sched.quantum;
    else if (sched.kind && sched.p_base) { d = 1; uint64_t r = sched_rand() % (2ull * (1 << 20) / sched.p_base + 1); d += r; }
    next_check = d == ~0ull ? d : steps + d;
}

static void do_switch(Fiber* t, bool preempt) {
    if (t == cur) return;
    if (preempt) fault(F_PREEMPT);
    switch_to(t);
}

static void preempt_point(bool conflict) {
    // called in RT context
    (void)conflict;
    if (!dev_replay) { plan_next(); if (sched.kind == 2) cur->prio = (uint32_t)(sched_rand() % 1000); }
    Fiber* t = pick(true);
    do_switch(t, true);
}

[[noreturn]] static void fiber_exit() {
    in_rt = true;
    cur->st = cur->internal ? FREE : DONE; --live;
    if (cur->stack >= 0) stack_used[cur->stack] = 2;   // still running on it; reusable afterwards
    ++steps;
    Fiber* t = pick(false);
    Fiber* me = cur;
    (void)me;
    switch_to(t);
    abort();
}
void end_fiber_now() { fiber_exit(); }

static void hang(const char* what) {
    in_rt = true;
    if (!policy.hang_is_violation) skip("no termination within budget (%s)", what);
    fail("no-termination", "the code under test did not finish within its budget of %s (fiber %s)", what, cur->name);
}

static void fiber_event() {
    Fiber* f = cur;
    if (f->kill) {
        if (f->locks) { f->event_at = f->accesses + 1; return; }
        f->killed = true; fault(F_KILL_WORKER);
        desc("  t=%llu worker %s abandoned", (unsigned long long)steps, f->name);
        fiber_exit();
    }
    f->event_at = ~0ull;
    if (f->stall_len) {
        f->stall_until = steps + f->stall_len; f->stall_len = 0; fault(F_STALL);
        desc("  t=%llu %s stalls", (unsigned long long)steps, f->name);
        ++steps;
        Fiber* t = pick(false);
        do_switch(t, false);
    }
}

static void run_observer() {
    observe_pending = false;
    RT g; Harness h;
    observer();
}

void flush_observer() { if (observe_pending && observer) run_observer(); }

static inline bool gran_touch(uint8_t* g, bool w, int fid) {
    uint8_t v = *g; uint8_t me = (uint8_t)(fid % 62 + 1);
    uint8_t who = v & 63;
    bool shared = (v & 64) || (who && who != me);
    bool written = (v & 128);
    bool conflict = shared && (written || w);
    if (conflict && who != me) { ++R->conflicts; mixo(((uint64_t)(uintptr_t)g << 12) ^ (who << 6) ^ me); }
    *g = (uint8_t)(me | (shared ? 64 : 0) | (written || w ? 128 : 0));
    return conflict;
}

[[gnu::noinline]] static void bad_access(const void* p, size_t n, bool w) {
    RT g;
    uintptr_t a = (uintptr_t)p;
    const char* k = "unallocated memory";
    if (a - HEAP < HEAPSZ && shadow[a - HEAP] == 2) k = "freed memory";
    else if (a - HEAP < HEAPSZ) k = "memory outside its buffer";
    if (!policy.crash_is_violation) skip("%s of %zu bytes in %s", w ? "write" : "read", n, k);
    fail("memory", "%s of %zu bytes touches %s (fiber %s)", w ? "write" : "read", n, k, cur->name);
}

// nobody runs forever while others wait
[[gnu::noinline]] static void fairness() {
    Fiber* f = cur;
    last_switch = steps; ++steps; f->prio = 0;
    for (int k = 1; k < nfibers; ++k) {
        Fiber* q = fibers[(f->id + k) % nfibers];
        if (q != f && q->id != 0 && q->st != DONE && q->st != FREE && runnable(q)) { switch_to(q); return; }
    }
}

[[gnu::hot]] static inline void on_access(const void* p, size_t n, bool w) {
    if (in_rt || !cur || !cur->sut) return;
    if (observe_pending) run_observer();
    ++steps; Fiber* f = cur; ++f->accesses;
    uintptr_t a = (uintptr_t)p;
    uint8_t* g = nullptr;
    if (a - HEAP < HEAPSZ) {
        if (shadow[a - HEAP] != 1 || (n && (a + n - 1 - HEAP >= HEAPSZ || shadow[a + n - 1 - HEAP] != 1))) bad_access(p, n, w);
        if (n > 16 && memchr(shadow + (a - HEAP), 0, n)) bad_access(p, n, w);
        g = (uint8_t*)GRAN_HEAP + ((a - HEAP) >> 3);
        if (w && observer) { observe_pending = true; last_writer = f->id; }
    } else if (a - STACKS < STACKSZ) g = (uint8_t*)GRAN_STACK + ((a - STACKS) >> 3);
    else if (a - DATA < DATASZ) g = (uint8_t*)GRAN_DATA + ((a - DATA) >> 3);
    bool go = steps >= next_check;
    if (g && live > 2) {
        bool conflict = gran_touch(g, w, f->id);
        if (n > 8 && n <= 64) for (size_t i = 8; i < n; i += 8) conflict |= gran_touch(g + (i >> 3), w, f->id);
        if (conflict && !go && !dev_replay && sched.p_conf && rand20() < sched.p_conf) go = true;
    }
    if (f->accesses >= f->event_at) { RT r; fiber_event(); }
    if (go) { RT r; preempt_point(false); }
    if (steps - last_switch > 40000 && live > 2) { RT r; fairness(); }
    if (steps > step_budget + step_slack) { RT r; hang("memory accesses"); }
}

void heap_note(const void* p, size_t n, bool w, const char* what) {
    (void)what;
    if (n) on_access(p, n, w);
}
void sync_point() {
    // an explicit preemption point (locks, barriers, I/O): treated as a conflicting access
    if (in_rt || !cur || !cur->sut) return;
    if (observe_pending) run_observer();
    ++steps; ++cur->accesses;
    bool go = steps >= next_check;
    if (live > 2 && !go && !dev_replay && sched.p_conf && rand20() < sched.p_conf) go = true;
    if (cur->accesses >= cur->event_at) { RT r; fiber_event(); }
    if (go) { RT r; preempt_point(true); }
    if (steps > step_budget + step_slack) { RT r; hang("memory accesses"); }
}
void yield() {
    RT r; ++steps;
    if (steps > step_budget + step_slack) hang("memory accesses");
    // a voluntary yield runs somebody else if possible
    Fiber* f = cur;
    Fiber* t = pick(false);
    if (t == f) return;
    switch_to(t);
}
void block_on(const std::function<bool()>& ready, const char* what) {
    RT r;
    if (observe_pending && observer) run_observer();
    if (ready()) return;
    Fiber* f = cur;
    f->ready = ready; f->what = what; f->st = BLOCKED;
    ++steps;
    Fiber* t = pick(false);
    if (t != f) switch_to(t);
    f->st = READY; f->ready = nullptr;
}

static void fiber_main() {
    in_rt = false;
    Fiber* f = cur;
    try {
        if (f->cfn) f->cfn(f->carg); else f->fn();
    } catch (const std::exception& e) {
        in_rt = true;
        if (!policy.crash_is_violation) skip("exception %s escaped thread %s", e.what(), f->name);
        fail("exception", "exception escaped thread %s: %s", f->name, e.what());
    } catch (...) {
        in_rt = true;
        fail("exception", "exception of unknown type escaped thread %s", f->name);
    }
    fiber_exit();
}
static int new_fiber(const char* name, int sut, void* octx, int slot, bool internal) {
    Fiber* f = nullptr;
    if (internal) for (int i = 1; i < nfibers && !f; ++i) if (fibers[i]->st == FREE && fibers[i]->internal) f = fibers[i];
    if (!f) {
        if (nfibers >= MAXF) error("too many fibers");
        f = fibers[nfibers];
        if (!f) f = fibers[nfibers] = new Fiber;
        f->id = nfibers++;
    }
    f->st = READY; f->sut = sut; f->octx = octx; f->in_rt = false; f->internal = internal;
    f->accesses = 0; f->event_at = ~0ull; f->stall_len = f->stall_until = 0; f->kill = f->killed = false; f->locks = 0; f->eh[0] = f->eh[1] = 0; f->err = 0;
    f->tls_slot = slot >= 0 ? slot : 1 + f->id % 400;
    if (slot < 0 && tls_copies[f->tls_slot]) { memset(tls_copies[f->tls_slot], 0, tls_size); memcpy(tls_copies[f->tls_slot], tls_init, tls_init_size); }
    snprintf(f->name, sizeof f->name, "%s", name);
    int s = -1;
    for (int i = 0; i < MAXSTACKS; ++i) if (stack_used[i] == 0 || (stack_used[i] == 2 && !(cur && cur->stack == i))) { s = i; break; }
    if (s < 0) error("too many stacks");
    stack_used[s] = 1; f->stack = s;
    uintptr_t top = STACKS + (size_t)(s + 1) * STACKSZ1 - 64;
    // forget who touched the stack before
    if (tls_size || true) memset((void*)(GRAN_STACK + ((top - 16384 - STACKS) >> 3)), 0, 16384 >> 3);
    void** sp = (void**)top;
    *--sp = nullptr;                 // alignment and fake return address
    *--sp = (void*)fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    f->prio = (uint32_t)(dev_replay ? 0 : 1000 + (sched_rand() >> 40));
    ++live;
    if ((uint32_t)live > R->fibers) R->fibers = (uint32_t)live;
    return f->id;
}
int spawn(const char* name, std::function<void()> fn, int slot) {
    RT r; Harness h;
    int id = new_fiber(name, 0, nullptr, slot, false);
    fibers[id]->fn = std::move(fn);
    return id;
}
int spawn_internal(const char* name, void (*fn)(void*), void* arg, int sut, void* octx, int slot) {
    RT r; Harness h;
    int id = new_fiber(name, sut, octx, slot, true);
    fibers[id]->cfn = fn; fibers[id]->carg = arg;
    return id;
}
void join(int id) { block_on([id] { return fibers[id]->st == DONE; }, "join"); }
void join_all() {
    block_on([] { for (int i = 1; i < nfibers; ++i) if (fibers[i]->st != DONE && fibers[i]->st != FREE) return false; return true; }, "join of all threads");
}
// What the scenario does one after another is done by one and the same thread of the program: its thread-local storage is kept
int thread_slot() { return cur->tls_slot; }
void run_in_fiber(const char* name, std::function<void()> fn) {
    int id;
    { RT r; Harness h; id = new_fiber(name, 0, nullptr, cur->id == 0 ? 590 : -1, false); fibers[id]->fn = std::move(fn); }
    join(id);
}
void kill_after(int id, uint64_t a) { fibers[id]->kill = true; fibers[id]->event_at = fibers[id]->accesses + a; }
void stall_after(int id, uint64_t a, uint64_t s) { fibers[id]->stall_len = s ? s : 1; fibers[id]->event_at = fibers[id]->accesses + a; }

void choose_sched(bool light) {
    SchedCfg c;
    if (!dev_replay) {
        uint64_t r = sched_rand() % 100;
        static const uint32_t confs[] = {1 << 19, 1 << 18, 1 << 17, 1 << 16, 1 << 14, 1 << 12, 1 << 10};
        static const uint32_t bases[] = {0, 0, 1 << 6, 1 << 9, 1 << 12, 1 << 15};
        if (r < 6) c.kind = 0;
        else if (r < 66) { c.kind = 1; c.p_conf = confs[sched_rand() % 7]; c.p_base = bases[sched_rand() % 6]; }
        else if (r < 84) { c.kind = 2; c.p_conf = confs[3 + sched_rand() % 4]; c.p_base = bases[sched_rand() % 5]; }
        else { c.kind = 3; c.quantum = 1 + (uint32_t)(sched_rand() % (1ull << (sched_rand() % 10))); }
        if (light && c.p_conf > (1 << 16)) c.p_conf = 1 << 16;
    }
    sched = c;
    next_check = ~0ull;
    if (dev_replay) next_check = in_ndev ? in_dev[0].step : ~0ull; else plan_next();
}

// ------------------------------------------------------------------ end of a run
static void finalize() {
    R->steps = steps; R->blocks = blocks; R->allocs = alloc_plan.count;
    mix(steps); mix(R->ntape); mix(R->ndev);
}
[[noreturn]] void finish() { in_rt = true; if (R->status == ST_NONE) R->status = ST_OK; finalize(); _exit(0); }
static void vmsg(Status s, const char* kind, const char* fmt, va_list ap) {
    in_rt = true;
    if (R->status != ST_NONE) { finalize(); _exit(0); }
    vsnprintf(R->msg, MSGLEN, fmt, ap);
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    R->status = s;
    uint64_t h = 0; for (const char* p = R->kind; *p; ++p) h = h * 131 + (unsigned char)*p;
    mix(h);
    finalize();
}
void fail(const char* kind, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vmsg(ST_VIOLATION, kind, fmt, ap); va_end(ap); _exit(0); }
void skip(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vmsg(ST_SKIP, "skip", fmt, ap); va_end(ap); _exit(0); }
void error(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vmsg(ST_ERROR, "error", fmt, ap); va_end(ap); _exit(0); }

// ------------------------------------------------------------------ heap
struct Hdr { uint64_t size; uint64_t state; };
bool heap_reuse;
static std::unordered_map<uint64_t, std::vector<uintptr_t>>& free_lists() { static auto* m = new std::unordered_map<uint64_t, std::vector<uintptr_t>>; return *m; }
uint64_t live_blocks() { return n_live; }
uint64_t live_bytes() { return b_live; }
bool is_heap(const void* p) { return (uintptr_t)p - HEAP < HEAPSZ; }
bool check_range(const void* p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (a - HEAP >= HEAPSZ) return true;
    for (size_t i = 0; i < n; ++i) if (shadow[a - HEAP + i] != 1) return false;
    return true;
}
bool in_live_memory(const void* pat, size_t n) {
    const char* b = (const char*)HEAP; const char* e = (const char*)heap_top;
    for (const char* p = b; p + n <= e; ++p) {
        p = (const char*)memmem(p, (size_t)(e - p), pat, n);
        if (!p) break;
        if (check_range(p, n)) return true;
    }
    if (cur->stack >= 0) {
        const char* top = (const char*)(STACKS + (size_t)(cur->stack + 1) * STACKSZ1); const char* here = (const char*)__builtin_frame_address(0);
        if (here < top && memmem(here, (size_t)(top - here), pat, n)) return true;
    }
    return false;
}
static void* heap_alloc(size_t n, size_t al) {
    RT r;
    ++alloc_plan.count;
    if (alloc_plan.fail_at >= 0 && ((int64_t)alloc_plan.count - 1 == alloc_plan.fail_at || (alloc_plan.forever && (int64_t)alloc_plan.count - 1 >= alloc_plan.fail_at))) {
        ++alloc_plan.failed; fault(alloc_plan.forever ? F_ALLOC_FOREVER : F_ALLOC_ONCE);
        desc("  t=%llu allocation #%llu of %zu bytes fails", (unsigned long long)steps, (unsigned long long)alloc_plan.count, n);
        return nullptr;
    }
    if (n > alloc_plan.limit) { desc("  t=%llu allocation of %zu bytes exceeds the simulated memory", (unsigned long long)steps, n); return nullptr; }
    if (al < 16) al = 16;
    if (heap_reuse && al == 16) {
        auto it = free_lists().find(n);
        if (it != free_lists().end() && !it->second.empty()) {
            uintptr_t a = it->second.back(); it->second.pop_back();
            ((Hdr*)a)[-1].state = 1; memset(shadow + (a - HEAP), 1, n);
            ++n_live; b_live += n;
            return (void*)a;
        }
    }
    uintptr_t a = (heap_top + 48 + al - 1) / al * al;
    if (a + n + 64 > HEAP + HEAPSZ) skip("simulated memory exhausted");
    heap_top = a + n;
    ((Hdr*)a)[-1] = Hdr{n, 1};
    memset(shadow + (a - HEAP), 1, n);
    if (n <= (1 << 16)) memset((void*)a, 0xCB, n);
    ++n_live; b_live += n;
    return (void*)a;
}
static void heap_free(void* p) {
    RT r;
    Hdr* h = (Hdr*)p - 1;
    if (h->state != 1) {
        if (!policy.crash_is_violation) skip("invalid free");
        fail("memory", h->state == 2 ? "block freed twice" : "invalid free");
    }
    h->state = 2;
    memset(shadow + ((uintptr_t)p - HEAP), 2, h->size);
    --n_live; b_live -= h->size;
    if (heap_reuse) free_lists()[h->size].push_back((uintptr_t)p);
}
static inline bool sut_alloc() { return cur && cur->sut && !in_rt; }
}

using namespace sim;
void* operator new(size_t n) {
    void* p;
    if (sut_alloc()) { p = heap_alloc(n, 16); if (!p) { throw std::bad_alloc(); } return p; }
    p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sut_alloc() ? heap_alloc(n, 16) : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t a) {
    if (sut_alloc()) { void* p = heap_alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
    void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (!p) return; if (is_heap(p)) heap_free(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { if (sut_alloc()) { void* p = heap_alloc(n, 16); if (!p) errno = ENOMEM; return p; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
    if (sut_alloc()) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = heap_alloc(n, 16); if (!p) { errno = ENOMEM; return p; } memset(p, 0, n); return p; }
    return __real_calloc(a, b);
}
void __wrap_free(void* p) { if (p && is_heap(p)) heap_free(p); else __real_free(p); }
void* __wrap_realloc(void* o, size_t n) {
    if (!sut_alloc() && !(o && is_heap(o))) return __real_realloc(o, n);
    void* p = heap_alloc(n, 16); if (!p) { errno = ENOMEM; return p; }
    if (o) { size_t k = is_heap(o) ? ((Hdr*)o - 1)->size : 0; memcpy(p, o, k < n ? k : n); if (is_heap(o)) heap_free(o); else __real_free(o); }
    return p;
}
void* __real_memset(void*, int, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
void* __wrap_memset(void* d, int c, size_t n) { if (n) on_access(d, n, true); return __real_memset(d, c, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { on_access(s, n, false); on_access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { on_access(s, n, false); on_access(d, n, true); } return __real_memmove(d, s, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* d, const void* s, size_t n) { if (n) { on_access(s, n, false); on_access(d, n, false); } return __real_memcmp(d, s, n); }
#define EXP __attribute__((visibility("default"), used))
EXP void* __tsan_memset(void* d, int c, size_t n) { return __wrap_memset(d, c, n); }
EXP void* __tsan_memcpy(void* d, const void* s, size_t n) { return __wrap_memcpy(d, s, n); }
EXP void* __tsan_memmove(void* d, const void* s, size_t n) { return __wrap_memmove(d, s, n); }
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define RW(n) EXP void __tsan_read##n(void* p) { on_access(p, n, false); } EXP void __tsan_write##n(void* p) { on_access(p, n, true); } \
 EXP void __tsan_unaligned_read##n(void* p) { on_access(p, n, false); } EXP void __tsan_unaligned_write##n(void* p) { on_access(p, n, true); } \
 EXP void __tsan_read##n##_pc(void* p, void*) { on_access(p, n, false); } EXP void __tsan_write##n##_pc(void* p, void*) { on_access(p, n, true); } \
 EXP void __tsan_volatile_read##n(void* p) { on_access(p, n, false); } EXP void __tsan_volatile_write##n(void* p) { on_access(p, n, true); } \
 EXP void __tsan_unaligned_volatile_read##n(void* p) { on_access(p, n, false); } EXP void __tsan_unaligned_volatile_write##n(void* p) { on_access(p, n, true); } \
 EXP void __tsan_read_write##n(void* p) { on_access(p, n, true); } EXP void __tsan_unaligned_read_write##n(void* p) { on_access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void* p, size_t n) { if (n) on_access(p, n, false); }
EXP void __tsan_write_range(void* p, size_t n) { if (n) on_access(p, n, true); }
EXP void __tsan_vptr_update(void** p, void*) { on_access(p, 8, true); }
EXP void __tsan_vptr_read(void** p) { on_access(p, 8, false); }
#define ATOM(b, T) \
 EXP T __tsan_atomic##b##_load(const volatile T* p, int) { on_access((void*)p, b / 8, false); return *p; } \
 EXP void __tsan_atomic##b##_store(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); *p = v; } \
 EXP T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = v; return o; } \
 EXP T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = o + v; return o; } \
 EXP T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = o - v; return o; } \
 EXP T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = o & v; return o; } \
 EXP T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = o | v; return o; } \
 EXP T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = o ^ v; return o; } \
 EXP T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { on_access((void*)p, b / 8, true); T o = *p; *p = ~(o & v); return o; } \
 EXP int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { on_access((void*)p, b / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 EXP int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { on_access((void*)p, b / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 EXP T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { on_access((void*)p, b / 8, true); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) { sync_point(); }
EXP void __tsan_atomic_signal_fence(int) {}
EXP void __sanitizer_cov_trace_pc() {
    if (in_rt || !cur || !cur->sut) return;
    covmap[((uintptr_t)__builtin_return_address(0) >> 0) & 0xffff] = 1;
    if (++blocks > block_budget) { RT r; hang("basic blocks"); }
}
}

// ------------------------------------------------------------------ runner
namespace sim {
std::vector<double> solo(const std::function<std::vector<double>()>& f) {
    int fd[2];
    if (pipe(fd)) error("pipe");
    pid_t p = fork();
    if (p < 0) error("fork");
    if (p == 0) {
        alarm(20); close(fd[0]);
        Result* mine = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        memcpy(mine, R, offsetof(Result, tape)); R = mine; verbose = false;
        sched = SchedCfg(); next_check = ~0ull; dev_replay = false;
        std::vector<double> v = f();
        in_rt = true;
        uint64_t n = v.size();
        FILE* o = fdopen(fd[1], "w");
        fwrite("ok", 1, 2, o); fwrite(&n, 8, 1, o); if (n) fwrite(v.data(), 8, n, o); fclose(o);
        _exit(0);
    }
    close(fd[1]);
    std::string s; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) s.append(buf, k);
    close(fd[0]);
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    uint64_t n = 0;
    if (s.size() >= 10) memcpy(&n, s.data() + 2, 8);
    if (s.size() != 10 + n * 8 || s.size() < 10) skip("the operation has no result even alone");
    std::vector<double> v(n);
    if (n) memcpy(v.data(), s.data() + 10, n * 8);
    return v;
}
static void init_memory() {
    auto mm = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { perror("mmap"); exit(3); }
    };
    mm(HEAP, HEAPSZ); mm(STACKS, STACKSZ); mm(SHADOW, HEAPSZ); mm(GRAN_HEAP, HEAPSZ / 8); mm(GRAN_STACK, STACKSZ / 8);
    DATA = (uintptr_t)&__data_start & ~7ull; DATASZ = (uintptr_t)&_end - DATA;
    mm(GRAN_DATA, (DATASZ / 8 + 4096) & ~4095ull);
    heap_top = HEAP + 4096;
    covmap = (uint8_t*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool first = true; dl_iterate_phdr(phdr_cb, &first);
    Fiber* root = new Fiber; root->st = READY; root->tls_slot = 0; snprintf(root->name, 24, "root");
    fibers[0] = root; nfibers = 1; live = 1; cur = root;
    for (int i = 1; i < 64; ++i) fibers[i] = new Fiber;
    if (tls_size) for (int i = 0; i < 80; ++i) tls_of(i);
}
struct Job { const Scenario* sc; uint64_t seed, sched_seed; bool tape_replay; std::vector<uint32_t> tape; bool dev_replay; std::vector<Dev> dev; bool verbose; };

static void child(const Job& j) {
    struct rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30}; (void)rl;
    alarm(40);
    work_state = j.seed; sched_state = j.sched_seed;
    tape_replay = j.tape_replay; in_tape = j.tape.data(); in_ntape = (uint32_t)j.tape.size();
    dev_replay = j.dev_replay; in_dev = j.dev.data(); in_ndev = (uint32_t)j.dev.size();
    next_check = ~0ull; if (dev_replay && in_ndev) next_check = in_dev[0].step;
    verbose = j.verbose;
    try { j.sc->run(); }
    catch (const std::exception& e) { in_rt = true; error("harness exception: %s", e.what()); }
    catch (...) { in_rt = true; error("harness exception"); }
    finish();
}
static int errfd = -1;
static void run_job(const Job& j) {
    memset(R, 0, offsetof(Result, tape)); R->desc[0] = 0;
    R->hash = 0x1234;
    if (errfd >= 0 && ftruncate(errfd, 0) == 0) lseek(errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { if (errfd >= 0) dup2(errfd, 2); child(j); _exit(0); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0) || R->status == ST_NONE) {
        char buf[1500]; ssize_t n = 0;
        if (errfd >= 0) { off_t e = lseek(errfd, 0, SEEK_END); if (e > 1400) lseek(errfd, e - 1400, SEEK_SET); else lseek(errfd, 0, SEEK_SET); n = read(errfd, buf, sizeof buf - 1); }
        if (n < 0) n = 0; buf[n] = 0;
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        if (R->status == ST_NONE || R->status == ST_OK) {
            if (sig == SIGALRM || sig == SIGKILL) { R->status = ST_ERROR; snprintf(R->kind, sizeof R->kind, "timeout"); snprintf(R->msg, MSGLEN, "a run ended by signal %d", sig); }
            else { R->status = R->crash_ok ? ST_SKIP : ST_VIOLATION; snprintf(R->kind, sizeof R->kind, "crash"); snprintf(R->msg, MSGLEN, "the process %s %d: %s", sig ? "crashed with signal" : "exited with status", sig ? sig : WEXITSTATUS(st), buf); }
            mix(777 + sig);
        }
    }
}
static uint64_t run_seed(uint64_t seed, const char* scen, uint64_t idx) {
    uint64_t s = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    for (const char* p = scen; *p; ++p) { s ^= (unsigned char)*p; s = splitmix(s); }
    s ^= idx * 0xd1342543de82ef95ull; return splitmix(s);
}
static std::string esc(const char* s, size_t max = 100000) {
    std::string o;
    for (size_t i = 0; s[i] && i < max; ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
static void print_result(FILE* f, const Result* r, bool full) {
    fprintf(f, "{\"status\":%u,\"kind\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"nontrivial\":%u,\"ntape\":%u,\"ndev\":%u,\"overflow\":%u",
        r->status, esc(r->kind).c_str(), esc(r->msg).c_str(), (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, r->nontrivial, r->ntape, r->ndev, r->tape_overflow | r->dev_overflow);
    if (full) {
        fprintf(f, ",\"tape\":[");
        for (uint32_t i = 0; i < r->ntape; ++i) fprintf(f, "%s%u", i ? "," : "", r->tape[i]);
        fprintf(f, "],\"dev\":[");
        for (uint32_t i = 0; i < r->ndev; ++i) fprintf(f, "%s[%llu,%d]", i ? "," : "", (unsigned long long)r->dev[i].step, r->dev[i].fiber);
        fprintf(f, "],\"desc\":\"%s\",\"faults\":{", esc(r->desc).c_str());
        bool first = true;
        for (int i = 0; i < F_COUNT; ++i) if (r->faults[i]) { fprintf(f, "%s\"%s\":%u", first ? "" : ",", fault_names[i], r->faults[i]); first = false; }
        fprintf(f, "}");
    }
    fprintf(f, "}\n"); fflush(f);
}
static double wall() { struct timespec t; syscall(228, 1, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Shared {
    volatile uint32_t stop;
    struct W { uint64_t runs, ok, skip, err, viol, steps, switches, conflicts, blocks, allocs, io, maxfib, nontriv, nhash, maxsteps; uint64_t faults[F_COUNT]; uint64_t faultruns[F_COUNT]; uint64_t probes[PROBES]; uint64_t viol_idx; int64_t firsterr; char errmsg[600]; uint64_t hashsum; } w[64];
};
static int batch(int argc, char** argv) {
    // batch scen seed from count workers maxwall out
    if (argc < 9) return 3;
    const Scenario* sc = nullptr;
    for (auto& s : scenarios()) if (!strcmp(s.name, argv[2])) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", argv[2]); return 3; }
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
    int nw = atoi(argv[6]); double maxwall = atof(argv[7]);
    const char* out = argv[8]; bool loghash = argc > 9;
    if (nw > 64) nw = 64;
    auto shm = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
    Shared* S = (Shared*)shm(sizeof(Shared));
    uint64_t per = (count + nw - 1) / nw + 1;
    uint64_t* hashes = (uint64_t*)shm(per * nw * 8 * 2);
    Result* RR = (Result*)shm(sizeof(Result) * nw);
    Result* VR = (Result*)shm(sizeof(Result) * nw);
    Result* SR = (Result*)shm(sizeof(Result) * 3);
    uint64_t* log = loghash ? (uint64_t*)shm(count * 8) : nullptr;
    double t0 = wall();
    std::vector<pid_t> pids;
    for (int w = 0; w < nw; ++w) {
        pid_t p = fork();
        if (p) { pids.push_back(p); continue; }
        R = RR + w; auto& W = S->w[w]; W.viol_idx = ~0ull; W.firsterr = -1;
        errfd = memfd_create("err", 0);
        for (uint64_t k = 0;; ++k) {
            uint64_t i = k * nw + w;
            if (i >= count || S->stop) break;
            if (wall() - t0 > maxwall) break;
            Job j{sc, run_seed(seed, sc->name, from + i), 0, false, {}, false, {}, i < 3};
            j.sched_seed = j.seed ^ 0x5c4ed5c4ed5c4ed5ull;
            run_job(j);
            ++W.runs; W.steps += R->steps; W.switches += R->switches; W.conflicts += R->conflicts; W.blocks += R->blocks; W.allocs += R->allocs; W.io += R->io_ops;
            W.maxfib = std::max<uint64_t>(W.maxfib, R->fibers); W.maxsteps = std::max<uint64_t>(W.maxsteps, R->steps);
            for (int q = 0; q < F_COUNT; ++q) { W.faults[q] += R->faults[q]; W.faultruns[q] += R->faults[q] != 0; }
            for (int q = 0; q < PROBES; ++q) W.probes[q] += R->probes[q];
            if (R->nontrivial && R->status == ST_OK) { ++W.nontriv; hashes[(w * per + W.nhash) * 2] = R->case_hash * 3 ^ R->order_hash; hashes[(w * per + W.nhash) * 2 + 1] = R->order_hash; ++W.nhash; }
            if (log) log[i] = R->hash;
            W.hashsum += R->hash * (i + 1);
            if (i < 3) memcpy(SR + i, R, sizeof(Result));
            if (R->status == ST_OK) ++W.ok;
            else if (R->status == ST_SKIP) { ++W.skip; if (W.firsterr < 0 && !W.errmsg[0]) snprintf(W.errmsg, sizeof W.errmsg, "skip: %.500s", R->msg); }
            else if (R->status == ST_VIOLATION) {
                ++W.viol;
                if (W.viol_idx == ~0ull) { W.viol_idx = from + i; memcpy(VR + w, R, sizeof(Result)); }
                S->stop = 1; break;
            } else { ++W.err; if (W.firsterr < 0) { W.firsterr = (int64_t)(from + i); snprintf(W.errmsg, sizeof W.errmsg, "%.60s: %.500s", R->kind, R->msg); } }
        }
        _exit(0);
    }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st)) fprintf(stderr, "worker died\n"); }
    double dt = wall() - t0;
    FILE* f = fopen(out, "w");
    if (!f) { perror(out); return 3; }
    Shared::W T; memset(&T, 0, sizeof T); T.viol_idx = ~0ull; int vw = -1; std::string err; int64_t erridx = -1;
    std::unordered_set<uint64_t> distinct, orders;
    for (int w = 0; w < nw; ++w) {
        auto& W = S->w[w];
        T.runs += W.runs; T.ok += W.ok; T.skip += W.skip; T.err += W.err; T.viol += W.viol; T.steps += W.steps; T.switches += W.switches; T.conflicts += W.conflicts; T.blocks += W.blocks; T.allocs += W.allocs; T.io += W.io; T.nontriv += W.nontriv; T.hashsum += W.hashsum;
        T.maxfib = std::max(T.maxfib, W.maxfib); T.maxsteps = std::max(T.maxsteps, W.maxsteps);
        for (int q = 0; q < F_COUNT; ++q) { T.faults[q] += W.faults[q]; T.faultruns[q] += W.faultruns[q]; }
        for (int q = 0; q < PROBES; ++q) T.probes[q] += W.probes[q];
        if (W.viol && W.viol_idx < T.viol_idx) { T.viol_idx = W.viol_idx; vw = w; }
        if (W.errmsg[0] && (err.empty() || W.firsterr >= 0)) { err = W.errmsg; erridx = W.firsterr; }
        for (uint64_t k = 0; k < W.nhash; ++k) { distinct.insert(hashes[(w * per + k) * 2]); orders.insert(hashes[(w * per + k) * 2 + 1]); }
    }
    unsigned cov = 0; for (int i = 0; i < 65536; ++i) cov += covmap[i];
    fprintf(f, "{\"runs\":%llu,\"ok\":%llu,\"skip\":%llu,\"err\":%llu,\"viol\":%llu,\"steps\":%llu,\"maxsteps\":%llu,\"switches\":%llu,\"conflicts\":%llu,\"allocs\":%llu,\"io\":%llu,\"maxfib\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"orders\":%zu,\"cov\":%u,\"wall\":%.3f,\"hashsum\":\"%016llx\"",
        (unsigned long long)T.runs, (unsigned long long)T.ok, (unsigned long long)T.skip, (unsigned long long)T.err, (unsigned long long)T.viol, (unsigned long long)T.steps, (unsigned long long)T.maxsteps, (unsigned long long)T.switches, (unsigned long long)T.conflicts, (unsigned long long)T.allocs, (unsigned long long)T.io, (unsigned long long)T.maxfib, (unsigned long long)T.nontriv, distinct.size(), orders.size(), cov, dt, (unsigned long long)T.hashsum);
    fprintf(f, ",\"faults\":{"); bool first = true;
    for (int i = 0; i < F_COUNT; ++i) if (T.faults[i]) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_names[i], (unsigned long long)T.faults[i], (unsigned long long)T.faultruns[i]); first = false; }
    fprintf(f, "},\"probes\":["); for (int i = 0; i < PROBES; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)T.probes[i]);
    fprintf(f, "],\"errmsg\":\"%s\",\"erridx\":%lld,\"samples\":[", esc(err.c_str()).c_str(), (long long)erridx);
    for (int i = 0, n = 0; i < 3; ++i) if (SR[i].status) { fprintf(f, "%s\"%s\"", n++ ? "," : "", esc(SR[i].desc, 3000).c_str()); }
    fprintf(f, "]");
    if (log) { fprintf(f, ",\"log\":["); for (uint64_t i = 0; i < count; ++i) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)log[i]); fprintf(f, "]"); }
    if (vw >= 0) { fprintf(f, ",\"violation_index\":%llu,\"violation\":", (unsigned long long)T.viol_idx); print_result(f, VR + vw, true); }
    fprintf(f, "}\n"); fclose(f);
    return 0;
}
// serve: reads jobs from stdin; "run scen seed schedseed verbose full T t... D step fiber ..." (T = -1: generate; D = -1: generate)
static int serve() {
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    errfd = memfd_create("err", 0);
    char scen[64]; unsigned long long seed, ss; int vb, full; long T, D;
    while (scanf(" run %63s %llu %llu %d %d %ld", scen, &seed, &ss, &vb, &full, &T) == 6) {
        Job j{}; j.seed = seed; j.sched_seed = ss; j.verbose = vb; j.tape_replay = T >= 0;
        for (long i = 0; i < T; ++i) { unsigned v; if (scanf("%u", &v) != 1) return 3; j.tape.push_back(v); }
        if (scanf("%ld", &D) != 1) return 3;
        j.dev_replay = D >= 0;
        for (long i = 0; i < D; ++i) { unsigned long long s; int f; if (scanf("%llu %d", &s, &f) != 2) return 3; j.dev.push_back(Dev{s, f, 0}); }
        for (auto& s : scenarios()) if (!strcmp(s.name, scen)) j.sc = &s;
        if (!j.sc) { printf("{\"status\":4,\"kind\":\"error\",\"msg\":\"no scenario\"}\n"); fflush(stdout); continue; }
        run_job(j);
        print_result(stdout, R, full);
    }
    return 0;
}
}
int main(int argc, char** argv) {
    init_memory();
    static Result dummy_header; (void)dummy_header;
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (argc > 1 && (!strcmp(argv[1], "batch") || !strcmp(argv[1], "serve"))) for (auto w : warmups()) w();
    if (argc > 1 && !strcmp(argv[1], "batch")) return batch(argc, argv);
    if (argc > 1 && !strcmp(argv[1], "serve")) return serve();
    if (argc > 1 && !strcmp(argv[1], "seed") && argc > 4) { printf("%llu\n", (unsigned long long)run_seed(strtoull(argv[2], 0, 10), argv[3], strtoull(argv[4], 0, 10))); return 0; }
    if (argc > 1 && !strcmp(argv[1], "list")) { for (auto& s : scenarios()) puts(s.name); return 0; }
    fprintf(stderr, "usage: batch|serve|seed|list\n");
    return 3;
}
