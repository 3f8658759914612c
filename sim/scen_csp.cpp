// C01..C08: constraint solving, thresholds, labelings under simulated threads
#include "common.h"
#include <cmath>
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;

namespace {
struct Case {
    Prob p; std::unique_ptr<Ref> ref; double t = 0; int ti = 0;
    DisparityGraph* g = nullptr; LowestPenalties* l = nullptr; ConstraintGraph* c = nullptr;
    Avail init;
    bool below = false, cut = false;   // threshold below the minimal consistent one, nodes removed by the caller
};
// a threshold that is no deviation: just above or between two of them, or outside of them all
void off_candidate(Case& k) {
    auto& c = k.ref->cand; int n = (int)c.size(), q = (int)draw(8);
    if (q < 5 && k.ti + 1 < n) k.t = c[k.ti] + (c[k.ti + 1] - c[k.ti]) * (q < 2 ? 0.5 : q == 2 ? 0.75 : 0.25);
    else if (q == 5) { k.ti = n - 1; k.t = c[n - 1] * 1024 + 1; }
    else if (q == 6) { k.ti = n - 1; k.t = 1e300; }
    else if (q == 7) { k.ti = 0; k.t = -0.5 - (c[n - 1] > 0 ? c[n - 1] : 0); }
}
// some problems are made for long sequences of removals
bool removals(Case& k) {
    if (!chance(1, 10)) return false;
    bool tall = chance(1, 3);
    k.p = gen_removals(k.t, tall ? 4 : 8, tall ? 12 : 6, 1); k.ref.reset(new Ref(k.p));
    if (chance(1, 8)) k.t = k.ref->min_threshold();
    desc("threshold %g", k.t);
    return true;
}
// threshold: biased to the neighbourhood of the minimal consistent one
void pick_threshold(Case& k, int mode) {
    auto& c = k.ref->cand; int m = k.ref->min_index(), n = (int)c.size();
    switch (mode) {
    case 0: k.ti = m; break;
    case 1: k.ti = std::max(0, m - 1); break;
    case 2: k.ti = std::max(0, m - 1 - (int)draw(3)); break;
    case 3: k.ti = std::min(n - 1, m + 1 + (int)draw(4)); break;
    default: k.ti = (int)draw((uint32_t)n);
    }
    k.t = c[k.ti];
    if (chance(1, 8)) off_candidate(k);
    desc("threshold %g (minimal consistent %g)", k.t, c[m]);
}
void build(Case& k) {
    run_in_fiber("build", [&] { Sut s; k.g = make_graph(k.p); k.l = new LowestPenalties{k.g}; k.c = new ConstraintGraph{k.g, k.l, k.t}; });
    k.init = avail_of(k.p, k.c);
}
// random initial availability through the public functions
void perturb(Case& k) {
    int mode = (int)draw(4);
    if (mode < 2) return;
    run_in_fiber("prepare", [&] {
        uint32_t den = 2 + draw(6);
        for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) if (k.p.exists(x, y, d)) {
            if (!chance(1, den)) continue;
            Sut s;
            if (mode == 2) make_node_unavailable(k.c, nd(x, y, d)); else make_node_available(k.c, nd(x, y, d));
        }
    });
    k.init = avail_of(k.p, k.c);
    desc("initial availability changed to %s", show(k.p, k.init).c_str());
}
// More disparity levels than a byte counts, one or two rows. The penalties' minima come from the model (computing them takes long);
// available are the nodes around a path of high disparities.
void deep_case(Case& k, bool few) {
    Prob& p = k.p; p.w = 257 + (int)draw(8); p.h = few ? 1 : 1 + (int)draw(2); p.D = 257 + (int)draw((uint32_t)(p.w - 256));
    static const long mv[] = {1, 3, 255, 65535};
    p.maxv = mv[draw(4)];
    p.L.assign(p.w * p.h, 0); p.R = p.L;
    for (auto& v : p.L) v = (long)draw((uint32_t)p.maxv + 1);
    for (auto& v : p.R) v = (long)draw((uint32_t)p.maxv + 1);
    p.smooth = 1 + draw(2); k.ref.reset(new Ref(p, true));
    k.t = p.smooth * (double)(1 + draw(6));
    desc("%dx%d pixels, %d levels, maximal value %ld, smoothness %g, threshold %g", p.w, p.h, p.D, p.maxv, p.smooth, k.t);
    step_budget = block_budget = 4000000000ull;
    run_in_fiber("build", [&] {
        Sut s;
        Prob q; q.L.assign(2, 0); q.R = q.L;
        k.g = make_graph(p);
        { DisparityGraph* small = new DisparityGraph{make_image(2, 1, 1, q.L), make_image(2, 1, 1, q.R), 2, 1, 1}; k.l = new LowestPenalties{small}; delete small; }
        k.l->graph = k.g; k.l->pixels.assign((size_t)p.w * p.h, 0); k.l->neighborhoods.assign((size_t)p.w * p.h * 4, 0);
        Harness h;
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) k.l->pixels[sp::indexing::pixel_index(&k.g->right, Pixel{(unsigned long)x, (unsigned long)y})] = k.ref->lowp[x * p.h + y];
    });
    run_in_fiber("build", [&] { Sut s; k.c = new ConstraintGraph{k.g, k.l, k.t}; make_all_nodes_unavailable(k.c); });
    run_in_fiber("prepare", [&] {
        for (int y = 0; y < p.h; ++y) {
            int a = p.D - 1 - (int)draw(4), extra = few ? 1 + (int)draw(12) : 1;
            for (int x = 0; x < p.w; ++x) {
                a = std::min(a, p.w - 1 - x);
                if (!few || !chance(1, 4000)) { Sut s; make_node_available(k.c, nd(x, y, a)); }
                if (few && chance(1, (uint32_t)extra)) { int d = std::max(0, std::min({p.D - 1, p.w - 1 - x, a + (int)range(-3, 4)})); Sut s; make_node_available(k.c, nd(x, y, d)); }
                if (x + 1 < p.w) a = std::max(0, std::min(p.D - 1, a + (int)range(-1, 1)));
            }
        }
    });
    k.init = avail_of(p, k.c);
}
// Generous bounds of what ending means: passes <= nodes + 2, every pass looks at every edge, hundreds of accesses per edge.
// Problems of unusual shape are not hard ones: they get the passes that removals travelling through the whole image a few times need.
uint64_t solve_budget(const Prob& p) {
    uint64_t n = (uint64_t)p.nodes(), passes = n + 8;
    if (n > 200) passes = std::min<uint64_t>(passes, 8 * (uint64_t)(p.w + p.h + p.D) + 8);
    return 200000 + passes * n * 4 * p.D * 400;
}
uint64_t solve_budget(const Case& k) { return solve_budget(k.p); }
// collecting the candidates sorts what has been found so far once per pixel and neighbourhood
uint64_t label_budget(const Case& k) {
    uint64_t c = k.ref->cand.size() + 4 * k.p.D * k.p.D, n = (uint64_t)k.p.nodes();
    uint64_t solves = 16 + (uint64_t)k.p.w * k.p.h, per = 200000 + n * 4 * k.p.D * 400 * (n > 200 ? 40 : n + 8);
    return 50000000 + (uint64_t)k.p.w * k.p.h * 5 * c * 1000 + solves * per;
}
void compare(const Case& k, const Avail& got, const Avail& want, const char* what) {
    if (got == want) return;
    for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) {
        int i = k.p.idx(x, y, d);
        if (got[i] != want[i])
            fail(got[i] ? "inconsistent-node-left" : "consistent-node-lost", "%s: node of pixel <%d, %d> with disparity %d is %s, but should%s be; left %s, expected %s (initially %s)", what, x, y, d,
                 got[i] ? "available" : "unavailable", got[i] ? " not" : "", show(k.p, got).c_str(), show(k.p, want).c_str(), show(k.p, k.init).c_str());
    }
}
bool multi() { return R->faults[F_PREEMPT] > 0; }

// many small problems see more schedules than a few large ones
void mostly_small(GenOpt& o) { int k = (int)draw(8); if (k < 2) return; o.shapes = o.huge = false; if (k < 5) { o.max_w = 4; o.max_h = 3; o.max_D = 3; o.max_nodes = 20; } }

// -------------------------------------------------------------------------------- C01, C02
bool csp_case(Case& k, bool unsolvable_bias, int pre_probe) {
    if (chance(1, 2000)) { deep_case(k, true); gen_omp(); return true; }
    if (!removals(k)) {
        GenOpt o; o.shapes = o.huge = true; mostly_small(o);
        k.p = gen_problem(o);
        k.ref.reset(new Ref(k.p));
        static const int m1[] = {0, 3, 4, 1, 2, 0}, m2[] = {1, 2, 0, 1, 4, 2};
        pick_threshold(k, (unsolvable_bias ? m2 : m1)[draw(6)]);
    }
    gen_omp();
    if (prelude(k.p, PRE_SOLVE)) probe(pre_probe);
    build(k);
    perturb(k);
    return false;
}
void c01() {
    Case k; bool deep = csp_case(k, false, 6);
    policy.hang_is_violation = true;
    if (deep) probe(7); else step_budget = solve_budget(k);
    Avail want = k.ref->gfp(k.init, k.t);
    choose_sched();
    bool ok = false;
    run_in_fiber("solver", [&] { Sut s; ok = solve_csp(k.c); });
    Avail got = avail_of(k.p, k.c);
    int rem = Ref::count(k.init) - Ref::count(want);
    desc("solved with %d threads at most, %llu preemptions", sim::omp.max_seen, (unsigned long long)R->faults[F_PREEMPT]);
    probe(0); if (rem) probe(1); if (!Ref::any(want)) probe(2); if (multi()) probe(3); if (k.p.has_phi) probe(4); if (sim::omp.max_seen > k.p.h) probe(5);
    if (rem) set_nontrivial();
    compare(k, got, want, "after solving");
}
void c02() {
    Case k; bool deep = csp_case(k, true, 4);
    if (deep) probe(5); else step_budget = solve_budget(k);
    Avail want = k.ref->gfp(k.init, k.t);
    choose_sched();
    bool ok = false;
    run_in_fiber("solver", [&] { Sut s; ok = solve_csp(k.c); });
    Avail got = avail_of(k.p, k.c);
    bool sol = Ref::any(want);
    probe(0); if (!sol) probe(1); if (multi()) probe(2); if (sim::omp.max_seen > k.p.h) probe(3);
    if (Ref::count(k.init) != Ref::count(want)) set_nontrivial();
    desc("the solver says %s, left %s", ok ? "solvable" : "unsolvable", show(k.p, got).c_str());
    if (ok != sol) fail("verdict", "the solver reports %s, but the largest consistent set is %s; left %s", ok ? "success" : "failure", sol ? show(k.p, want).c_str() : "empty", show(k.p, got).c_str());
    if (!ok && Ref::any(got)) fail("not-emptied", "the solver reports failure, but nodes are left available: %s", show(k.p, got).c_str());
    if (ok && !Ref::any(got)) fail("empty-success", "the solver reports success, but no node is left");
    // again on the result: the verdict is stable
    bool again = false;
    run_in_fiber("solver2", [&] { Sut s; again = solve_csp(k.c); });
    if (again != sol) fail("verdict", "solving again reports %s", again ? "success" : "failure");
}

// -------------------------------------------------------------------------------- C03
void c03() {
    Case k; bool vast = false;    // more rows and jobs than a byte counts
    if (!removals(k)) {
        GenOpt o; o.shapes = true; mostly_small(o);
        if (chance(1, 800)) { vast = true; probe(5); o.exact_w = 2 + (int)draw(2); o.exact_h = 257 + (int)draw(16); o.exact_D = 2; }
        k.p = gen_problem(o); k.ref.reset(new Ref(k.p));
        static const int m[] = {0, 3, 4, 1, 2, 0};
        pick_threshold(k, m[draw(6)]);
    }
    if (prelude(k.p, PRE_JOBS)) probe(4);
    build(k); perturb(k);
    step_budget = 60000000 + 4 * solve_budget(k.p);
    Avail want = k.ref->gfp(k.init, k.t);
    choose_sched();
    int fault_rounds = (int)draw(5);
    int base_jobs = 1 + (int)draw((uint32_t)std::min(k.p.h, 60) + 3);
    if (chance(1, 40)) { static const int many[] = {16, 17, 32, 33, 64, 65}; base_jobs = many[draw(6)]; fault_rounds = std::min(fault_rounds, 2); }
    if (vast) { base_jobs = 255 + (int)draw(20); fault_rounds = (int)draw(2); }
    bool vary = chance(1, 3), dup = chance(1, 4), pool = chance(1, 2);     // pool: a worker does all its passes in one thread
    int threads = 0; std::vector<int> thread(200); for (auto& t : thread) t = 600 + threads++;
    std::vector<int> flips(5000, 0);
    Avail last = k.init;
    observer = [&] {
        for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) if (k.p.exists(x, y, d)) {
            int i = k.p.idx(x, y, d); char v = is_node_available(k.c, nd(x, y, d)) ? 1 : 0;
            if (last[i] && !v) ++flips[last_writer];
            last[i] = v;
        }
    };
    int round = 0, quiet_deadline = -1, jobs = base_jobs;
    for (;; ++round) {
        bool faulty = round < fault_rounds;
        if (vast && round == 8) jobs = 3;
        if (vary && round && chance(1, 2)) { int nj = 1 + (int)draw((uint32_t)std::min(k.p.h, 60) + 3); if (nj != jobs) { fault(F_REPARTITION); jobs = nj; } }
        if (!faulty && quiet_deadline < 0) { quiet_deadline = round + Ref::count(avail_of(k.p, k.c)) + 2; if (vary) vary = chance(1, 2); }
        struct J { int job, fiber; int rep; bool left; };
        std::vector<J> js;
        int total = jobs + (dup ? 1 : 0);
        js.reserve(total);
        for (int i = 0; i < total; ++i) js.push_back(J{i < jobs ? i : (int)draw((uint32_t)jobs), 0, -1, true});
        for (int i = 0; i < total; ++i) {
            J* j = &js[i];
            char nm[24]; snprintf(nm, sizeof nm, "job%d/%d", j->job, jobs);
            j->fiber = spawn(nm, [j, &k, jobs] {
                bool r; { Sut s; r = csp_solution_iteration(k.c, (unsigned long)jobs, (unsigned long)j->job); }
                flush_observer();
                j->rep = r;
                j->left = Ref::any(avail_of(k.p, k.c));
            }, pool && i < 200 ? thread[i] : -1);
            flips[j->fiber] = 0;
            if (faulty) {
                int f = (int)draw(6);
                uint32_t at = 1 + draw(1u << (2 + draw(11)));
                if (f == 1 || f == 2) kill_after(j->fiber, at);
                else if (f == 3) stall_after(j->fiber, at, 200 + draw(20000));
            } else if (chance(1, 8)) stall_after(j->fiber, 1 + draw(2000), 200 + draw(20000));
        }
        join_all();
        flush_observer();
        bool all = true, any_report = false;
        for (auto& j : js) {
            if (fiber_killed(j.fiber)) { all = false; size_t i = (size_t)(&j - &js[0]); if (i < 200 && threads < 390) thread[i] = 600 + threads++; continue; }
            if (j.rep == 1) any_report = true;
            if (j.rep == 0 && flips[j.fiber] > 0 && j.left)
                fail("change-not-reported", "round %d: job %d of %d made %d node(s) unavailable but reported no change, and nodes are left", round, j.job, jobs, flips[j.fiber]);
        }
        if (all && !any_report) {
            probe(0); if (jobs > k.p.h) probe(1); if (round > 1) probe(2);
            desc("quiet round %d with %d jobs", round, jobs);
            compare(k, avail_of(k.p, k.c), want, "after a quiet round");
            break;
        }
        if (quiet_deadline >= 0 && round > quiet_deadline) fail("no-quiet-round", "no quiet round within available nodes + 2 rounds (%d) after the last fault", round);
        if (round > 600) error("too many rounds");
    }
    if (Ref::count(k.init) != Ref::count(want)) set_nontrivial();
    if (!Ref::any(want)) probe(3);
}

// -------------------------------------------------------------------------------- C04
void c04() {
    policy.hang_is_violation = false;
    Case k;
    if (!removals(k)) {
        GenOpt o; o.shapes = o.huge = true; mostly_small(o); k.p = gen_problem(o); k.ref.reset(new Ref(k.p));
        static const int m[] = {0, 3, 4, 0, 1, 3};
        pick_threshold(k, m[draw(6)]);
    }
    int how = (int)draw(2);
    gen_omp();
    if (prelude(k.p, how == 0 ? PRE_SOLVE : PRE_JOBS)) probe(4);
    build(k); perturb(k);
    step_budget = solve_budget(k);
    Avail want = k.ref->gfp(k.init, k.t), last = k.init;
    uint64_t looks = 0;
    auto look = [&] {
        ++looks;
        for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) if (k.p.exists(x, y, d)) {
            int i = k.p.idx(x, y, d); char v = is_node_available(k.c, nd(x, y, d)) ? 1 : 0;
            if (v && !last[i]) fail("resurrected", "t=%llu: node of pixel <%d, %d> with disparity %d became available again", (unsigned long long)now(), x, y, d);
            if (!v && want[i]) fail("consistent-node-lost", "t=%llu: node of pixel <%d, %d> with disparity %d of the largest consistent set %s became unavailable", (unsigned long long)now(), x, y, d, show(k.p, want).c_str());
            last[i] = v;
        }
    };
    choose_sched();
    observer = look;
    if (how == 0) run_in_fiber("solver", [&] { Sut s; solve_csp(k.c); });
    else {
        int rounds = 1 + (int)draw(4), jobs = 1 + (int)draw((uint32_t)std::min(k.p.h, 60) + 2);
        for (int r = 0; r < rounds; ++r) {
            for (int j = 0; j < jobs; ++j) {
                int f = spawn("job", [&k, jobs, j] { Sut s; csp_solution_iteration(k.c, (unsigned long)jobs, (unsigned long)j); });
                if (chance(1, 6)) kill_after(f, 1 + draw(4000)); else if (chance(1, 6)) stall_after(f, 1 + draw(4000), 200 + draw(10000));
            }
            join_all();
        }
    }
    flush_observer(); look();
    observer = nullptr;
    probe(0); if (looks > 1) probe(1); if (multi()) probe(2); if (!Ref::any(want)) probe(3);
    if (Ref::count(k.init) != Ref::count(last)) set_nontrivial();
}

// -------------------------------------------------------------------------------- C05
void c05() {
    Case k;
    bool deep = chance(1, 1000);
    if (deep) { deep_case(k, true); probe(5); }
    else {
        k.p = gen_problem(GenOpt{6, 4, 4, true, true, 60}); k.ref.reset(new Ref(k.p));
        k.t = k.ref->cand.back(); k.ti = 0;
        if (prelude(k.p, PRE_BEST)) probe(4);
        build(k);
    }
    const Prob& p = k.p;
    int T = 2 + (int)draw(4);
    struct Op { int kind, x, y, d; };
    std::vector<std::vector<Op>> ops(T);
    std::vector<int> owner(p.w * p.h);
    for (auto& o : owner) o = (int)draw((uint32_t)T);
    for (int t = 0; t < T; ++t) {
        std::vector<int> mine; for (int i = 0; i < p.w * p.h; ++i) if (owner[i] == t) mine.push_back(i);
        if (mine.empty()) continue;
        int n = 1 + (int)draw(14);
        for (int i = 0; i < n; ++i) {
            int q = mine[draw((uint32_t)mine.size())]; int x = q / p.h, y = q % p.h;
            if (deep && chance(1, 2)) x = (int)draw(3);
            if (deep && owner[x * p.h + y] != t) continue;
            ops[t].push_back(Op{(int)draw(5), x, y, (int)draw((uint32_t)std::min(p.D, p.w - x))});
        }
    }
    choose_sched();
    Avail model = k.init;     // every thread only touches its own pixels, so one model serves all
    bool some_best = false;
    for (int t = 0; t < T; ++t) {
        char nm[24]; snprintf(nm, 24, "client%d", t);
        spawn(nm, [&, t] {
            for (auto& o : ops[t]) {
                switch (o.kind) {
                case 0: case 4: { Sut s; make_node_unavailable(k.c, nd(o.x, o.y, o.d)); } model[p.idx(o.x, o.y, o.d)] = 0; break;
                case 1: { Sut s; make_node_available(k.c, nd(o.x, o.y, o.d)); } model[p.idx(o.x, o.y, o.d)] = 1; break;
                case 2: {
                    bool v; { Sut s; v = is_node_available(k.c, nd(o.x, o.y, o.d)); }
                    bool w = model[p.idx(o.x, o.y, o.d)];
                    if (v != w) fail("foreign-effect", "t=%llu: thread %d sees node of pixel <%d, %d> with disparity %d as %s, although it left it %s", (unsigned long long)now(), t, o.x, o.y, o.d, v ? "available" : "unavailable", w ? "available" : "unavailable");
                    break;
                }
                default: {
                    ConstraintGraph* r; { Sut s; r = choose_best_node(k.c, Pixel{(unsigned long)o.x, (unsigned long)o.y}); }
                    int best = -1;
                    for (int d = 0; d < p.D; ++d) if (model[p.idx(o.x, o.y, d)] && (best < 0 || k.ref->np[p.idx(o.x, o.y, d)] < k.ref->np[p.idx(o.x, o.y, best)])) best = d;
                    for (int d = 0; d < p.D; ++d) model[p.idx(o.x, o.y, d)] = d == best;
                    some_best = some_best || best >= 0;
                    if ((r != nullptr) != (best >= 0)) fail("choose-best-report", "choosing the best node of pixel <%d, %d> reports %s", o.x, o.y, r ? "success without available nodes" : "failure although there are available nodes");
                    if (r && r != k.c) fail("choose-best-report", "choosing the best node returned another graph");
                    for (int d = 0; d < p.D; ++d) if (p.exists(o.x, o.y, d)) {
                        bool v = is_node_available(k.c, nd(o.x, o.y, d));
                        if (v != (d == best)) fail("best-node", "after choosing the best node of pixel <%d, %d> disparity %d is %s, the best one is %d", o.x, o.y, d, v ? "available" : "unavailable", best);
                    }
                }
                }
            }
        });
    }
    join_all();
    Avail got = avail_of(p, k.c);
    probe(0); if (some_best) probe(1); if (multi()) probe(2); if (R->conflicts) { probe(3); set_nontrivial(); }
    if (got != model)
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) if (got[p.idx(x, y, d)] != model[p.idx(x, y, d)])
            fail("lost-update", "in the end node of pixel <%d, %d> (thread %d) with disparity %d is %s, although its thread left it %s", x, y, owner[x * p.h + y], d, got[p.idx(x, y, d)] ? "available" : "unavailable", model[p.idx(x, y, d)] ? "available" : "unavailable");
}

// -------------------------------------------------------------------------------- C06
GenOpt label_opt() { GenOpt o; o.max_w = 5; o.max_h = 4; o.max_D = 4; o.max_nodes = 48; o.shapes = true; o.levels = 24; return o; }
void c06() {
    Case k; GenOpt o = label_opt(); o.huge = true; mostly_small(o);
    if (chance(1, 150)) { o.rich = true; o.exact_w = 7 + (int)draw(4); o.exact_h = 4 + (int)draw(3); o.exact_D = 5 + (int)draw(2); }
    if (o.rich || !removals(k)) { k.p = gen_problem(o); k.ref.reset(new Ref(k.p)); }
    gen_omp();
    step_budget = label_budget(k);
    if (prelude(k.p, PRE_THRESHOLD)) probe(4);
    choose_sched();
    sp::types::FLOAT_ARRAY* cand = nullptr; double thr = 0;
    int m = k.ref->min_index();
    run_in_fiber("client", [&] {
        { Sut s; k.g = make_graph(k.p); k.l = new LowestPenalties{k.g}; cand = new sp::types::FLOAT_ARRAY(fetch_available_penalties(k.l)); }
        std::vector<double> c(cand->begin(), cand->end());
        if (c != k.ref->cand) {
            for (size_t i = 1; i < c.size(); ++i) if (!(c[i - 1] < c[i])) fail("candidates-order", "candidate thresholds are not strictly ascending: %g before %g", c[i - 1], c[i]);
            for (double v : k.ref->cand) if (std::find(c.begin(), c.end(), v) == c.end()) fail("candidate-missing", "deviation %g is not among %zu candidate thresholds", v, c.size());
            for (double v : c) if (std::find(k.ref->cand.begin(), k.ref->cand.end(), v) == k.ref->cand.end()) fail("candidate-alien", "candidate threshold %g is not a deviation of any node or edge", v);
        }
        Sut s; thr = calculate_minimal_consistent_threshold(k.l, k.g, *cand);
    });
    desc("threshold %g, expected %g; %zu candidates", thr, k.ref->cand[m], k.ref->cand.size());
    probe(0); if (m > 0) { probe(1); set_nontrivial(); } if (multi()) probe(2); if (k.p.has_phi) probe(3); if (k.ref->cand.size() > 1000) probe(5);
    if (thr != k.ref->cand[m]) {
        bool sol = k.ref->solvable(thr);
        fail("threshold", "the threshold %g is not minimal consistent: %s (the minimal consistent one is %g)", thr, sol ? "a smaller candidate is consistent too" : "the problem is not solvable with it", k.ref->cand[m]);
    }
}

// -------------------------------------------------------------------------------- C07, C08
void prepare_label(Case& k, bool phi_allowed) {
    GenOpt o = label_opt(); o.phi = phi_allowed; mostly_small(o);
    int big = (int)draw(8);
    if (big == 7) { o.max_w = 8; o.max_D = 6; o.max_nodes = 140; }
    bool dead_end = phi_allowed && chance(1, 8);
    bool rem = phi_allowed && !dead_end && chance(1, 16);
    k.p = dead_end ? gen_dead_end(k.t, 6, 5) : rem ? gen_removals(k.t, 6, 5, 3) : gen_problem(o); k.ref.reset(new Ref(k.p));
    k.ti = k.ref->min_index();
    if (dead_end || rem) while (k.ti + 1 < (int)k.ref->cand.size() && k.ref->cand[k.ti + 1] <= k.t) ++k.ti;
    else if (chance(1, 4)) k.ti = std::min((int)k.ref->cand.size() - 1, k.ti + 1 + (int)draw(3));
    if (k.ti && chance(1, 10)) { k.ti = chance(1, 2) ? (int)draw((uint32_t)k.ti) : std::max(0, k.ti - 1 - (int)draw(2)); k.below = k.ti < k.ref->min_index(); }
    k.cut = chance(1, 8);
    k.t = k.ref->cand[k.ti];
    if (chance(1, 12)) { off_candidate(k); k.below = k.t < k.ref->min_threshold(); }
    step_budget = label_budget(k);
    desc("threshold %g (minimal consistent %g)", k.t, k.ref->min_threshold());
}
// nodes the caller makes unavailable before solving
std::vector<Node> gen_cut(const Case& k) {
    std::vector<Node> v;
    if (!k.cut) return v;
    uint32_t den = 2 + draw(12);
    for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) if (k.p.exists(x, y, d) && chance(1, den)) v.push_back(nd(x, y, d));
    desc("%zu nodes are made unavailable beforehand", v.size());
    return v;
}
std::vector<int> labels_of(const Prob& p, const Avail& a, bool strict) {
    std::vector<int> lab(p.w * p.h, -1);
    for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) {
        int n = 0;
        for (int d = 0; d < p.D; ++d) if (a[p.idx(x, y, d)]) { ++n; if (lab[y * p.w + x] < 0) lab[y * p.w + x] = d; }
        if (strict && n != 1) fail("not-one-label", "%d nodes are kept in pixel <%d, %d>", n, x, y);
    }
    return lab;
}
std::string showl(const Prob& p, const std::vector<int>& l) { std::string s; for (int y = 0; y < p.h; ++y) { if (y) s += " / "; for (int x = 0; x < p.w; ++x) { s += std::to_string(l[y * p.w + x]); if (x + 1 < p.w) s += " "; } } return s; }
void c07() {
    Case k; prepare_label(k, true);
    gen_omp();
    if (prelude(k.p, PRE_LABEL)) probe(5);
    build(k);
    auto cut = gen_cut(k);
    run_in_fiber("prepare", [&] { Sut s; for (auto& n : cut) make_node_unavailable(k.c, n); });
    k.init = avail_of(k.p, k.c);
    bool presolve = !chance(1, 4);
    choose_sched();
    bool sol = true; ConstraintGraph* r = nullptr;
    run_in_fiber("client", [&] { Sut s; if (presolve) sol = solve_csp(k.c); r = find_labeling(k.c); });
    Avail got = avail_of(k.p, k.c);
    probe(0); if (multi()) probe(1); if (k.p.has_phi) probe(2); if (!r) probe(3);
    if (Ref::count(k.init) > k.p.w * k.p.h) set_nontrivial();
    if (!r) {
        if (k.below) probe(6);
        if (!k.p.has_phi && !k.below && !k.cut) fail("no-labeling", "no labeling is found at the threshold %g, although the problem has one", k.t);
        return;
    }
    if (r != k.c) fail("no-labeling", "another graph is returned");
    if (k.cut) probe(7);
    auto lab = labels_of(k.p, got, true);
    desc("labeling %s", showl(k.p, lab).c_str());
    double w = k.ref->worst(lab);
    if (w < 0) fail("broken-edge", "kept nodes of neighbouring pixels are not joined by an edge: %s", showl(k.p, lab).c_str());
    if (w > k.t) fail("deviation", "the labeling %s deviates by %g from the local minima, more than the threshold %g", showl(k.p, lab).c_str(), w, k.t);
    for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) if (!k.init[k.p.idx(x, y, lab[y * k.p.w + x])]) fail("unavailable-node", "the kept node of pixel <%d, %d> was not available before", x, y);
    if (!k.p.has_phi && !k.cut && k.ti == k.ref->min_index()) {
        double b = k.ref->brute(3000);
        if (b >= 0) { probe(4); if (w > b) fail("not-optimal", "the labeling %s has the worst deviation %g, but there is one with %g", showl(k.p, lab).c_str(), w, b); }
    }
}
void check_map(const Prob& p, const Image& im, const std::vector<int>& want, const char* what) {
    if (im.width != (unsigned long)p.w || im.height != (unsigned long)p.h || im.data.size() != (size_t)p.w * p.h) fail("map-size", "the map is %lux%lu with %zu elements instead of %dx%d", im.width, im.height, im.data.size(), p.w, p.h);
    if (im.max_value != (unsigned long)p.D) fail("map-max", "maximal value of the map is %lu instead of %d", im.max_value, p.D);
    std::vector<int> lab(p.w * p.h);
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) lab[y * p.w + x] = (int)im.data[y * p.w + x];
    if (lab != want) fail("map", "%s gives the map %s instead of %s", what, showl(p, lab).c_str(), showl(p, want).c_str());
}
// the map of a labeling with more levels than a byte counts
void c08_deep() {
    Case k; deep_case(k, false); probe(0); probe(7);
    std::vector<int> want = labels_of(k.p, k.init, true);
    choose_sched();
    Image* im = nullptr;
    run_in_fiber("client", [&] { Sut s; im = new Image(build_disparity_map(k.c)); });
    check_map(k.p, *im, want, "the map of a labeling with many levels");
    compare(k, avail_of(k.p, k.c), k.init, "after building the map");
}
void c08() {
    if (chance(1, 1500)) return c08_deep();
    Case k; prepare_label(k, true);
    if (prelude(k.p, PRE_LABEL)) probe(4);
    build(k);
    auto cut = gen_cut(k);
    for (auto& n : cut) k.init[k.p.idx((int)n.pixel.x, (int)n.pixel.y, (int)n.disparity)] = 0;
    if (k.below) probe(5); if (k.cut) probe(6);
    int retries = 0;
    std::vector<int> want = k.ref->label(k.ref->gfp(k.init, k.t), k.t, &retries);
    int times = 1 + (int)draw(3);
    bool presolve = !chance(1, 3);
    if (!presolve) k.ref->label(k.init, k.t, &retries);    // only counts
    for (int i = 0; i < times; ++i) {
        gen_omp();
        choose_sched();
        ConstraintGraph* c = nullptr; ConstraintGraph* r = nullptr; Image* im = nullptr;
        run_in_fiber("client", [&] {
            { Sut s; c = new ConstraintGraph{k.g, k.l, k.t}; for (auto& n : cut) make_node_unavailable(c, n); if (presolve) solve_csp(c); r = find_labeling(c); }
            if (!r) return;
            Sut s; im = new Image(build_disparity_map(c));
        });
        probe(0); if (multi()) probe(1); if (retries) probe(2); if (retries > 3) probe(8); if (want.empty()) probe(3);
        if (!r) { if (!want.empty()) fail("no-labeling", "no labeling is found, expected %s", showl(k.p, want).c_str()); continue; }
        if (want.empty()) fail("unexpected-labeling", "a labeling is found although some pixel can keep none of its nodes");
        char what[60]; snprintf(what, 60, "execution %d with %d threads", i, sim::omp.threads);
        check_map(k.p, *im, want, what);
        Avail a = avail_of(k.p, c);
        for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) if (a[k.p.idx(x, y, d)] != (d == want[y * k.p.w + x])) fail("map", "the map does not show the node kept in pixel <%d, %d>", x, y);
        if (Ref::count(k.init) > k.p.w * k.p.h) set_nontrivial();
    }
}
Reg r1("C01", c01), r2("C02", c02), r3("C03", c03), r4("C04", c04), r5("C05", c05), r6("C06", c06), r7("C07", c07), r8("C08", c08);
}
