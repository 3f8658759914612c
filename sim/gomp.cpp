// libgomp ABI and the pthread primitives on simulated threads.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <deque>
#include <exception>
#include <stdexcept>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
namespace {
struct Quiet { sim::Harness h; };   // runtime code must not be counted or allocate from the simulated heap
struct WS { int kind = 0; bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int left = 0; int sections = 0; int arrived = 0; void* copy = nullptr; bool copy_ready = false; long ord_given = 0, ord_cur = 0; std::set<long> ord_done; bool up = true; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; int done = 0; };
struct TNode { int pending = 0; std::shared_ptr<TNode> outer; };       // children of a task, or members of a task group, that are not done
typedef std::shared_ptr<TNode> TRef;
struct Task { void (*fn)(void*); char* data; TRef parent, group; };
struct Team {
    int n = 1, level = 0, active = 0;
    Team* parent_team = nullptr; int parent_tid = 0;
    int finished = 0;
    int barrier_count = 0; unsigned barrier_gen = 0;
    std::map<long, WS> ws;
    std::deque<Task> tasks; int tasks_running = 0;
    long single_seq = 0;
    int slot_base = -1;
};
struct Ctx { Team* team; int tid; long ws_seq = 0; WS* cur_ws = nullptr; long cur_seq = 0; long static_trip = 0; int default_threads = 0; long my_ordered = 0; TRef task = std::make_shared<TNode>(), group; };
struct Start { void (*fn)(void*); void* data; Team* team; int tid; unsigned sections; };

void run_tasks(Team*);
Ctx* ctx() {
    Ctx* c = (Ctx*)omp_ctx();
    if (!c) { c = new Ctx{}; c->team = new Team; c->tid = 0; set_omp_ctx(c); }
    return c;
}
int def_threads() { Ctx* c = ctx(); return c->default_threads > 0 ? c->default_threads : sim::omp.threads; }
int resolve(unsigned num_threads, Team* t) {
    int n = num_threads ? (int)num_threads : def_threads();
    if (n < 1) n = 1;
    if (n > 16) n = 16;
    if (t->active >= 1 && !sim::omp.nested) n = 1;
    if (t->active >= 2) n = 1;
    if (n > 1 && sim::omp.shrink) { int k = 1 + (int)draw((uint32_t)n); if (n + 1 - k < n) { sim::fault(F_TEAM_SHRINK); n = n + 1 - k; } }
    return n;
}
void worker(void* a) {
    Start s;
    { Quiet q; s = *(Start*)a; delete (Start*)a; Ctx* c = new Ctx{}; c->team = s.team; c->tid = s.tid; set_omp_ctx(c); }
    s.fn(s.data);
    Quiet q;
    // end of region: tasks of the team are done before anybody leaves
    run_tasks(s.team);
    ++s.team->finished;
    delete (Ctx*)omp_ctx(); set_omp_ctx(nullptr);
}
int slot_of(int parent, int tid) {
    static std::map<std::pair<int, int>, int> m;
    auto it = m.find({parent, tid}); if (it != m.end()) return it->second;
    if (m.size() >= 150) return -1;
    int s = 420 + (int)m.size(); m[{parent, tid}] = s; return s;
}
}
namespace {
bool run_one_task(Team* t) {
    if (t->tasks.empty()) return false;
    Task k = t->tasks.front(); t->tasks.pop_front(); ++t->tasks_running;
    Ctx* c = ctx(); TRef outer_task = c->task, outer_group = c->group;
    c->task = std::make_shared<TNode>(); c->group = k.group;
    { sim::Sut s; k.fn(k.data); }
    c->task = outer_task; c->group = outer_group;
    --k.parent->pending; if (k.group) --k.group->pending;
    free(k.data); --t->tasks_running;
    return true;
}
void run_tasks(Team* t) { while (run_one_task(t)) {} }
void run_inline(void (*fn)(void*), char* buf) {
    TRef outer; { Quiet q; outer = ctx()->task; ctx()->task = std::make_shared<TNode>(); }
    fn(buf);
    Quiet q; ctx()->task = outer; free(buf);
}

void parallel(void (*fn)(void*), void* data, unsigned num_threads, std::function<void(Team*)> prep = nullptr) {
    Ctx* outer; Team* t; Ctx* mine;
    {
        Quiet q;
        outer = ctx();
        int n = resolve(num_threads, outer->team);
        t = new Team; t->n = n; t->level = outer->team->level + 1; t->active = outer->team->active + (n > 1);
        t->parent_team = outer->team; t->parent_tid = outer->tid;
        ++sim::omp.regions; if (n > sim::omp.max_seen) sim::omp.max_seen = n;
        if (t->active > 1 && n > 1) sim::fault(F_NESTED);
        if (prep) prep(t);
        mine = new Ctx{}; mine->team = t; mine->tid = 0; mine->default_threads = outer->default_threads;
        set_omp_ctx(mine);
        for (int i = 1; i < n; ++i) {
            char nm[24]; snprintf(nm, sizeof nm, "omp%d.%d", t->level, i);
            // threads of the first-level team of the first client keep their thread-local storage
            int slot = t->active == 1 ? slot_of(sim::thread_slot(), i) : -1;
            spawn_internal(nm, worker, new Start{fn, data, t, i, 0}, 1, nullptr, slot);
        }
    }
    sync_point();
    fn(data);
    {
        Quiet q;
        run_tasks(t);
        block_on([t] { return t->finished == t->n - 1; }, "end of a parallel region");
        run_tasks(t);
        delete mine; delete t; set_omp_ctx(outer);
    }
    sync_point();
}
void barrier() {
    Quiet q;
    Ctx* c = ctx(); Team* t = c->team;
    run_tasks(t);
    if (t->n == 1) return;
    unsigned gen = t->barrier_gen;
    if (++t->barrier_count == t->n) { t->barrier_count = 0; ++t->barrier_gen; }
    else { block_on([t, gen] { return t->barrier_gen != gen || !t->tasks.empty(); }, "barrier"); while (t->barrier_gen == gen) { run_tasks(t); block_on([t, gen] { return t->barrier_gen != gen || !t->tasks.empty(); }, "barrier"); } }
}
WS* enter_ws(bool& first) {
    Ctx* c = ctx(); c->cur_seq = c->ws_seq++;
    WS* w = &c->team->ws[c->cur_seq];
    first = !w->init; w->init = true; ++w->arrived; c->cur_ws = w; c->static_trip = 0; c->my_ordered = -1;
    return w;
}
// chunks of an ordered loop take their turns in the order of the iterations
void end_chunk(Ctx* c) {
    WS* w = c->cur_ws; if (c->my_ordered < 0 || !w) return;
    w->ord_done.insert(c->my_ordered); c->my_ordered = -1;
    while (w->ord_done.erase(w->ord_cur)) ++w->ord_cur;
}
void leave_ws() {
    Ctx* c = ctx(); WS* w = c->cur_ws; if (!w) return;
    end_chunk(c);
    if (++w->done == c->team->n) c->team->ws.erase(c->cur_seq);
    c->cur_ws = nullptr;
}
// kinds: 0 static 1 dynamic 2 guided
bool loop_next(long* is, long* ie) {
    sync_point();
    Quiet q;
    Ctx* c = ctx(); WS* w = c->cur_ws; Team* t = c->team;
    end_chunk(c);
    long total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (w->kind == 0) {
        long all = total < 0 ? 0 : total;
        if (w->chunk <= 0) {
            if (c->static_trip) return false; c->static_trip = 1;
            long per = all / t->n, rem = all % t->n; long s = c->tid * per + std::min<long>(c->tid, rem), e = s + per + (c->tid < rem);
            if (s >= e) return false; c->my_ordered = c->tid; *is = w->next + s * w->incr; *ie = w->next + e * w->incr; return true;
        }
        long s = (c->static_trip++ * t->n + c->tid) * w->chunk; if (s >= all) return false; c->my_ordered = s / w->chunk;
        long e = std::min(s + w->chunk, all); *is = w->next + s * w->incr; *ie = w->next + e * w->incr; return true;
    }
    if (total <= 0) return false;
    long ch = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2) ch = std::max(ch, (total + t->n - 1) / t->n);
    if (ch > total) ch = total;
    c->my_ordered = w->ord_given++;
    *is = w->next; *ie = w->next + ch * w->incr; w->next = *ie;
    if (ch == total) *ie = w->end, w->next = w->end;
    return true;
}
bool loop_start(int kind, long s, long e, long inc, long chunk, long* is, long* ie) {
    { Quiet q; bool f; WS* w = enter_ws(f); if (f) { w->kind = kind; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; } }
    return loop_next(is, ie);
}
bool uloop_start(int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) {
    (void)up;
    long a, b; bool r = loop_start(kind, (long)s, (long)e, (long)inc, (long)chunk, &a, &b); if (r) { *is = (unsigned long long)a; *ie = (unsigned long long)b; } return r;
}
bool uloop_next(unsigned long long* is, unsigned long long* ie) { long a, b; bool r = loop_next(&a, &b); if (r) { *is = (unsigned long long)a; *ie = (unsigned long long)b; } return r; }

struct Mx { int owner = -1; int depth = 0; };
std::map<const void*, Mx>& mxs() { static std::map<const void*, Mx> m; return m; }
void mx_lock(const void* p, bool rec = false) {
    sync_point();
    Quiet q; int me = sim::self(); Mx* m = &mxs()[p];
    if (m->owner == me) { if (rec) { ++m->depth; return; } }
    block_on([m] { return m->owner < 0; }, "a lock");
    m->owner = me; m->depth = 1; lock_held(1);
}
bool mx_try(const void* p, bool rec = false) {
    sync_point();
    Quiet q; Mx* m = &mxs()[p];
    if (m->owner == sim::self() && rec) { ++m->depth; return true; }
    if (m->owner >= 0) return false; m->owner = sim::self(); m->depth = 1; lock_held(1); return true;
}
void mx_unlock(const void* p) {
    { Quiet q; Mx* m = &mxs()[p]; if (--m->depth <= 0) { m->owner = -1; m->depth = 0; lock_held(-1); } }
    sync_point();
}
char crit_default, atomic_lock;
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); return 1; }
#define PLOOP(name, k) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { \
  parallel(fn, d, n, [=](Team* t) { WS& w = t->ws[0]; w.init = true; w.kind = k; w.next = s; w.end = e; w.incr = inc; w.chunk = ch; }); }
#define PLOOPR(name, k) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { \
  parallel(fn, d, n, [=](Team* t) { WS& w = t->ws[0]; w.init = true; w.kind = k; w.next = s; w.end = e; w.incr = inc; w.chunk = 1; }); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
PLOOPR(runtime, 1) PLOOPR(nonmonotonic_runtime, 1) PLOOPR(maybe_nonmonotonic_runtime, 1)
// inside combined parallel loops the work share 0 exists already; the first *_next call enters it
static void enter_combined() { Quiet q; Ctx* c = ctx(); if (!c->cur_ws && c->ws_seq == 0 && c->team->ws.count(0)) { bool f; enter_ws(f); } }
#define LOOP(name, k) \
 bool GOMP_loop_##name##_start(long s, long e, long inc, long ch, long* is, long* ie) { return loop_start(k, s, e, inc, ch, is, ie); } \
 bool GOMP_loop_##name##_next(long* is, long* ie) { enter_combined(); return loop_next(is, ie); } \
 bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, unsigned long long* is, unsigned long long* ie) { return uloop_start(k, up, s, e, inc, ch, is, ie); } \
 bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { enter_combined(); return uloop_next(is, ie); }
#define LOOPR(name, k) \
 bool GOMP_loop_##name##_start(long s, long e, long inc, long* is, long* ie) { return loop_start(k, s, e, inc, 1, is, ie); } \
 bool GOMP_loop_##name##_next(long* is, long* ie) { enter_combined(); return loop_next(is, ie); } \
 bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return uloop_start(k, up, s, e, inc, 1, is, ie); } \
 bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { enter_combined(); return uloop_next(is, ie); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
LOOP(ordered_static, 0) LOOP(ordered_dynamic, 1) LOOP(ordered_guided, 1)
LOOPR(runtime, 1) LOOPR(nonmonotonic_runtime, 1) LOOPR(maybe_nonmonotonic_runtime, 1) LOOPR(ordered_runtime, 1)
void GOMP_loop_end() { { Quiet q; leave_ws(); } barrier(); sync_point(); }
void GOMP_loop_end_nowait() { Quiet q; leave_ws(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_barrier() { sync_point(); barrier(); sync_point(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { mx_lock(&crit_default); }
void GOMP_critical_end() { mx_unlock(&crit_default); }
void GOMP_critical_name_start(void** p) { mx_lock(p); }
void GOMP_critical_name_end(void** p) { mx_unlock(p); }
void GOMP_atomic_start() { mx_lock(&atomic_lock); }
void GOMP_atomic_end() { mx_unlock(&atomic_lock); }
void GOMP_ordered_start() {
    sync_point(); Quiet q; Ctx* c = ctx(); WS* w = c->cur_ws; long me = c->my_ordered;
    if (w && me >= 0 && c->team->n > 1) block_on([w, me] { return w->ord_cur == me; }, "its turn in an ordered loop");
}
void GOMP_ordered_end() { sync_point(); }
bool GOMP_single_start() { sync_point(); Quiet q; bool f; enter_ws(f); leave_ws(); return f; }
void* GOMP_single_copy_start() { sync_point(); Quiet q; bool f; WS* w = enter_ws(f); if (f) return nullptr; block_on([w] { return w->copy_ready; }, "single copyprivate"); void* r = w->copy; leave_ws(); return r; }
void GOMP_single_copy_end(void* d) { { Quiet q; WS* w = ctx()->cur_ws; w->copy = d; w->copy_ready = true; leave_ws(); } barrier(); }
unsigned GOMP_sections_next() { sync_point(); Quiet q; enter_combined(); WS* w = ctx()->cur_ws; if (w->next < w->end) return (unsigned)++w->next; return 0; }
unsigned GOMP_sections_start(unsigned n) { { Quiet q; bool f; WS* w = enter_ws(f); if (f) { w->next = 0; w->end = n; } } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { parallel(fn, d, n, [=](Team* t) { WS& w = t->ws[0]; w.init = true; w.next = 0; w.end = cnt; }); }
void GOMP_sections_end() { { Quiet q; leave_ws(); } barrier(); }
void GOMP_sections_end_nowait() { Quiet q; leave_ws(); }
void GOMP_taskwait();
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned flags, void**, int, void*) {
    (void)align; (void)flags;
    sync_point();
    char* buf; { Quiet q; buf = (char*)calloc(1, size + 16); if (cpy) { sim::Sut s; cpy(buf, data); } else memcpy(buf, data, size); }
    Team* t; { Quiet q; t = ctx()->team; }
    if (flags & 8) GOMP_taskwait();   // depend: after everything this task has started so far
    if (!if_clause || (flags & 8) || t->n == 1) { run_inline(fn, buf); return; }
    Quiet q; Ctx* c = ctx(); ++c->task->pending; if (c->group) ++c->group->pending;
    t->tasks.push_back(Task{fn, buf, c->task, c->group});
}
void GOMP_taskwait() {
    Quiet q; Team* t = ctx()->team; TRef me = ctx()->task;
    while (me->pending) { if (!run_one_task(t)) block_on([t, me] { return !t->tasks.empty() || me->pending == 0; }, "taskwait"); }
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { sync_point(); Quiet q; if (draw(2)) run_one_task(ctx()->team); }
void GOMP_taskgroup_start() { Quiet q; Ctx* c = ctx(); TRef g = std::make_shared<TNode>(); g->outer = c->group; c->group = g; }
void GOMP_taskgroup_end() {
    Quiet q; Ctx* c = ctx(); Team* t = c->team; TRef g = c->group;
    while (g && g->pending) { if (!run_one_task(t)) block_on([t, g] { return !t->tasks.empty() || g->pending == 0; }, "taskgroup"); }
    ctx()->group = g ? g->outer : nullptr;
}
}
namespace {
template<class T> void taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num_tasks, T start, T end, T step) {
    unsigned long n;
    { Quiet q; bool up = flags & (1u << 8);
      if constexpr (std::is_signed<T>::value) { up = step > 0; n = up ? (end > start ? (end - start + step - 1) / step : 0) : (end < start ? (start - end - step - 1) / -step : 0); }
      else n = up ? (end > start ? (end - start + step - 1) / step : 0) : (end < start ? (start - end - step - 1) / -step : 0); }
    if (!n) return;
    unsigned long chunks;
    if (flags & (1u << 9)) { unsigned long g = num_tasks ? num_tasks : 1; chunks = (n + g - 1) / g; }   // grainsize
    else { Quiet q; chunks = num_tasks ? num_tasks : (unsigned long)ctx()->team->n; }
    if (chunks > n) chunks = n;
    bool group = !(flags & (1u << 11));
    if (group) GOMP_taskgroup_start();
    unsigned long done = 0;
    for (unsigned long i = 0; i < chunks; ++i) {
        unsigned long k = (n - done) / (chunks - i);
        sync_point();
        char* buf; { Quiet q; buf = (char*)calloc(1, size + 16); }
        if (cpy) { sim::Sut s; cpy(buf, data); } else memcpy(buf, data, size);
        T* b = (T*)buf; b[0] = start + (T)done * step; b[1] = start + (T)(done + k) * step; done += k;
        Team* t; { Quiet q; t = ctx()->team; }
        if (!(flags & (1u << 10)) || t->n == 1) run_inline(fn, buf);
        else { Quiet q; Ctx* c = ctx(); ++c->task->pending; if (c->group) ++c->group->pending; t->tasks.push_back(Task{fn, buf, c->task, c->group}); }
    }
    if (group) GOMP_taskgroup_end();
    (void)align;
}
}
extern "C" {
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num_tasks, int, long start, long end, long step) { taskloop<long>(fn, data, cpy, size, align, flags, num_tasks, start, end, step); }
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num_tasks, int, unsigned long long start, unsigned long long end, unsigned long long step) { taskloop<unsigned long long>(fn, data, cpy, size, align, flags, num_tasks, start, end, step); }
int omp_get_num_threads() { Quiet q; return ctx()->team->n; }
int omp_get_thread_num() { Quiet q; return ctx()->tid; }
int omp_get_max_threads() { Quiet q; return def_threads(); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { Quiet q; return ctx()->team->active > 0; }
void omp_set_num_threads(int n) { Quiet q; ctx()->default_threads = n > 0 ? n : 1; }
int omp_get_dynamic() { return sim::omp.shrink; }
void omp_set_dynamic(int v) { sim::omp.shrink = sim::omp.shrink && v; }
int omp_get_nested() { return sim::omp.nested; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return sim::omp.nested ? 2 : 1; }
void omp_set_max_active_levels(int) {}
int omp_get_supported_active_levels() { return 2; }
int omp_get_level() { Quiet q; return ctx()->team->level; }
int omp_get_active_level() { Quiet q; return ctx()->team->active; }
int omp_get_thread_limit() { return 64; }
int omp_get_cancellation() { return 0; }
int omp_get_ancestor_thread_num(int l) { Quiet q; Ctx* c = ctx(); Team* t = c->team; int tid = c->tid; while (t && t->level > l) { tid = t->parent_tid; t = t->parent_team; } return t && t->level == l ? tid : -1; }
int omp_get_team_size(int l) { Quiet q; Team* t = ctx()->team; while (t && t->level > l) t = t->parent_team; return t && t->level == l ? t->n : -1; }
double omp_get_wtime() { return sim::now() * 1e-8; }
double omp_get_wtick() { return 1e-8; }
void omp_init_lock(void*) {}
void omp_init_lock_with_hint(void*, int) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { mx_lock(p); }
void omp_unset_lock(void* p) { mx_unlock(p); }
int omp_test_lock(void* p) { return mx_try(p); }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* p) { mx_lock(p, true); }
void omp_unset_nest_lock(void* p) { mx_unlock(p); }
int omp_test_nest_lock(void* p) { return mx_try(p, true); }

// ---------------------------------------------------------------- pthread
#define X __attribute__((visibility("default"), used))
static bool rec_kind(pthread_mutex_t* m) { int k; memcpy(&k, (char*)m + 16, 4); return (k & 3) == 1; }
X int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (in_sut()) mx_lock(m, rec_kind(m)); return 0; }
X int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (in_sut()) return mx_try(m, rec_kind(m)) ? 0 : EBUSY; return 0; }
X int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (in_sut()) mx_unlock(m); return 0; }
X int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (in_sut()) mx_lock(m); return 0; }
X int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (in_sut()) mx_lock(m); return 0; }
X int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (in_sut()) mx_unlock(m); return 0; }
X int pthread_spin_lock(pthread_spinlock_t* m) noexcept { if (in_sut()) mx_lock((void*)m); return 0; }
X int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { if (in_sut()) mx_unlock((void*)m); return 0; }
struct CondW { uint64_t seq; };
static std::map<const void*, std::pair<uint64_t, uint64_t>>& conds() { static std::map<const void*, std::pair<uint64_t, uint64_t>> m; return m; } // waiters ticket, released
X int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in_sut()) return 0;
    auto* p = &conds()[c]; uint64_t my; { Quiet q; my = p->first++; }
    mx_unlock(m);
    { Quiet q; block_on([p, my] { return p->second > my; }, "a condition"); }
    mx_lock(m); return 0;
}
X int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!in_sut()) return 0; { Quiet q; auto& p = conds()[c]; if (p.second < p.first) ++p.second; } sync_point(); return 0; }
X int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!in_sut()) return 0; { Quiet q; auto& p = conds()[c]; p.second = p.first; } sync_point(); return 0; }
X int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { (void)c; if (!in_sut()) return 0; mx_unlock(m); sim::yield(); mx_lock(m); return ETIMEDOUT; }
X int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
X int pthread_once(pthread_once_t* o, void (*f)(void)) {
    int* s = (int*)o;
    if (!in_sut()) { if (*s == 0) { *s = 2; f(); } return 0; }
    sync_point();
    if (*s == 2) return 0;
    if (*s == 1) { Quiet q; block_on([s] { return *s != 1; }, "once"); return pthread_once(o, f); }
    *s = 1;
    try { f(); } catch (...) { *s = 0; throw; }
    *s = 2; return 0;
}
struct PStart { void* (*fn)(void*); void* arg; void* ret; bool done; int id; };
static std::map<unsigned long, PStart*>& pthreads() { static std::map<unsigned long, PStart*> m; return m; }
X int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept {
    if (!in_sut()) return EAGAIN;
    Quiet q;
    PStart* p = new PStart{fn, arg, nullptr, false, 0};
    p->id = spawn_internal("thread", [](void* a) { PStart* p = (PStart*)a; p->ret = p->fn(p->arg); p->done = true; }, p, 1, nullptr, -1);
    static unsigned long h = 0x1000; *t = ++h; pthreads()[h] = p; return 0;
}
X int pthread_join(pthread_t t, void** r) {
    Quiet q; auto it = pthreads().find(t); if (it == pthreads().end()) return ESRCH; PStart* p = it->second;
    block_on([p] { return p->done; }, "thread join"); if (r) *r = p->ret; return 0;
}
X int pthread_detach(pthread_t) noexcept { return 0; }
X int sched_yield() noexcept { if (in_sut()) sync_point(); return 0; }
X int nanosleep(const struct timespec*, struct timespec*) { if (in_sut()) sync_point(); return 0; }
X int usleep(unsigned) { if (in_sut()) sync_point(); return 0; }
X int clock_gettime(clockid_t, struct timespec* ts) noexcept { uint64_t n = sim::now() * 10; ts->tv_sec = 1000000000 + n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
X int __cxa_guard_acquire(long long* g) {
    char* b = (char*)g;
    if (!in_sut()) { if (b[0]) return 0; b[1] = 1; return 1; }
    sync_point();
    if (b[0]) return 0;
    while (b[1]) { Quiet q; block_on([b] { return b[1] == 0; }, "initialisation of a static variable"); }
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
X void __cxa_guard_release(long long* g) { char* b = (char*)g; b[0] = 1; b[1] = 0; if (in_sut()) sync_point(); }
X void __cxa_guard_abort(long long* g) { char* b = (char*)g; b[1] = 0; if (in_sut()) sync_point(); }
X int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
}
