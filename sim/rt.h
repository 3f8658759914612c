// Deterministic simulation runtime: one OS thread, fibers, seeded scheduler, simulated heap.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- results
enum Status : uint32_t { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_SKIP = 3, ST_ERROR = 4 };
enum Fault : int {
    F_PREEMPT, F_STALL, F_KILL_WORKER, F_REPARTITION, F_ALLOC_ONCE, F_ALLOC_FOREVER,
    F_SHORT_READ, F_SHORT_WRITE, F_EINTR, F_READ_ERR, F_WRITE_ERR, F_ENOSPC, F_OPEN_ERR, F_CLOSE_ERR,
    F_EARLY_EOF, F_BAD_BYTE, F_MALFORMED, F_SYNC_ERR, F_CRASH, F_BAD_ARG,
    F_CL_ERROR, F_CL_NODEVICE, F_CL_STALE, F_CL_SPLIT, F_TEAM_SHRINK, F_NESTED, F_SEEKLESS, F_COUNT
};
extern const char* const fault_names[F_COUNT];
enum { PROBES = 32, MAXTAPE = 60000, MAXDEV = 40000, MSGLEN = 4000, DESCLEN = 24000 };
struct Dev { uint64_t step; int32_t fiber; int32_t pad; };
struct Result {
    uint32_t status;
    uint32_t nontrivial, crash_ok;
    char kind[64];
    char msg[MSGLEN];
    uint64_t hash;          // event log hash
    uint64_t case_hash;     // identity of the workload (tape)
    uint64_t order_hash;    // identity of the interleaving (order of conflicting accesses)
    uint64_t steps, blocks, switches, conflicts, allocs;
    uint32_t fibers, io_ops;
    uint32_t faults[F_COUNT];
    uint32_t probes[PROBES];
    uint32_t ntape, ndev, tape_overflow, dev_overflow, ndesc;
    uint32_t tape[MAXTAPE];
    Dev dev[MAXDEV];
    char desc[DESCLEN];
};
extern Result* R;
extern bool verbose;

// ---------------------------------------------------------------- choices (workload and faults)
uint32_t draw(uint32_t n);                 // 0..n-1, on the tape; 0 is the simplest
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
inline int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint32_t)(hi - lo + 1)); }
uint64_t sched_rand();                     // schedule randomness, not on the tape
void fault(Fault f);                       // a fault really fired
void probe(int i);
void desc(const char* fmt, ...);           // human-readable trace (no effect on the run)
void mix(uint64_t v);                      // into the event log hash

// ---------------------------------------------------------------- verdicts
[[noreturn]] void fail(const char* kind, const char* fmt, ...);   // violation, ends the run
[[noreturn]] void skip(const char* fmt, ...);                     // run says nothing about the property
[[noreturn]] void error(const char* fmt, ...);                    // harness error
[[noreturn]] void finish();
void set_nontrivial();

// general anomalies that do not belong to the property under test end the run as skipped
struct Policy { bool hang_is_violation = true; bool crash_is_violation = true; };
extern Policy policy;

// ---------------------------------------------------------------- scheduling
struct SchedCfg {
    int kind = 0;            // 0 cooperative, 1 random, 2 PCT, 3 quantum
    uint32_t p_base = 0;     // per 2^20 at any access
    uint32_t p_conf = 0;     // per 2^20 at a conflicting access
    uint32_t quantum = 0;
};
extern SchedCfg sched;
void choose_sched(bool light = false);     // draws a policy from the schedule randomness
extern uint64_t step_budget, block_budget;
extern uint64_t step_slack;                // added to the budget: what was spent before the part it is meant for

int spawn(const char* name, std::function<void()> fn, int slot = -1);   // harness client, returns fiber id; slot: thread-local storage of an earlier one
void join_all();                                         // root waits for every spawned fiber
void join(int id);
void run_in_fiber(const char* name, std::function<void()> fn);  // spawn + join
void yield();
int self();
int thread_slot();                       // which thread-local storage the fiber has
bool fiber_done(int id);
bool fiber_killed(int id);
void kill_after(int id, uint64_t accesses);              // abandon the fiber at that access
void stall_after(int id, uint64_t accesses, uint64_t steps);
uint64_t now();                                          // simulated time = steps
uint64_t fiber_accesses(int id);
extern int spawn_tid;

struct Sut { Sut(); ~Sut(); };          // code under test runs inside this scope
struct Harness { int saved; Harness(); ~Harness(); };   // harness code called back from code under test
bool in_sut();

// observer called between any two memory accesses of the code under test after a heap write
extern std::function<void()> observer;
extern int last_writer;                  // fiber whose write is being observed
void flush_observer();

// ---------------------------------------------------------------- memory
struct AllocPlan { int64_t fail_at = -1; bool forever = false; uint64_t count = 0; uint64_t failed = 0; size_t limit = (size_t)1 << 26; };
extern AllocPlan alloc_plan;
uint64_t live_blocks(); uint64_t live_bytes();
bool is_heap(const void* p);
bool in_live_memory(const void* pattern, size_t n);  // somewhere in a live block or on the stack of the current fiber
extern bool heap_reuse;                  // freed blocks of the same size are handed out again
// the result of f in a forked copy of the process, with the plain schedule; ends the run as skipped if it has none
std::vector<double> solo(const std::function<std::vector<double>()>& f);
bool check_range(const void* p, size_t n);  // addressable?
void heap_note(const void* p, size_t n, bool write, const char* what); // check an uninstrumented access

// ---------------------------------------------------------------- OpenMP configuration of a run
struct OmpCfg { int threads = 1; bool shrink = false; bool nested = true; int max_seen = 0; uint64_t regions = 0; };
extern OmpCfg omp;

// internal, used by gomp.cpp and cl.cpp
struct Fiber;
extern Fiber* cur;
void block_on(const std::function<bool()>& ready, const char* what); // waits until ready()
int spawn_internal(const char* name, void (*fn)(void*), void* arg, int sut, void* omp_ctx, int tls_slot);
void* omp_ctx(); void set_omp_ctx(void*);
void lock_held(int delta);
void sync_point();                       // preemption point inside the runtime (SUT mode only)
void end_fiber_now();

struct Scenario { const char* name; void (*run)(); };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, void (*f)()) { scenarios().push_back({n, f}); } };
// run at zygote start, before forking
std::vector<void (*)()>& warmups();
struct RegWarm { RegWarm(void (*f)()) { warmups().push_back(f); } };
}
