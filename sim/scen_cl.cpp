// C17, C18: labeling on a simulated OpenCL device.
#include "common.h"
#include "cl.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;
// declared under USE_OPENCL, whose headers are not needed here
namespace sp { namespace labeling { namespace finder { ConstraintGraph* find_labeling_cl(ConstraintGraph*); } } }
namespace {
struct Case { Prob p; std::unique_ptr<Ref> ref; double t = 0; DisparityGraph* g = nullptr; LowestPenalties* l = nullptr; bool presolve = true; std::vector<Node> cut; };
void gen_case(Case& k) {
    GenOpt o; o.max_w = 5; o.max_h = 4; o.max_D = 4; o.max_nodes = 40; o.single = true; o.phi_den = 2;   // the device computes in single precision
    if (!chance(1, 4)) { o.max_w = 4; o.max_h = 3; o.max_D = 3; o.max_nodes = 24; }
    else if (chance(1, 4)) { o.max_w = 10; o.max_h = 8; o.max_nodes = 100; }
    bool dead_end = chance(1, 5);
    bool rem = !dead_end && chance(1, 10);
    int large = dead_end || rem ? 0 : chance(1, 400) ? 2 : chance(1, 60) ? 1 : 0;   // more pixels than a group of 64 or of 256
    if (large) {
        int n = large == 2 ? 257 + (int)draw(30) : 65 + (int)draw(30), way = (int)draw(3);
        o.exact_w = way == 0 ? n : way == 1 ? (n + 1) / 2 : 2; o.exact_h = way == 0 ? 1 : way == 1 ? 2 : (n + 1) / 2; o.exact_D = 2; probe(29);
    }
    k.p = dead_end ? gen_dead_end(k.t, 12, 4) : rem ? gen_removals(k.t, 7, 7, 3) : gen_problem(o); k.ref.reset(new Ref(k.p));
    int ti = k.ref->min_index();
    if (dead_end || rem) while (ti + 1 < (int)k.ref->cand.size() && k.ref->cand[ti + 1] <= k.t) ++ti;
    else if (chance(1, 4)) ti = std::min((int)k.ref->cand.size() - 1, ti + 1 + (int)draw(3));
    if (chance(1, 10) && ti) ti = (int)draw((uint32_t)ti);
    k.t = k.ref->cand[ti];
    k.presolve = !chance(1, 6);
    if (chance(1, 8)) {
        uint32_t den = 2 + draw(12);
        for (int x = 0; x < k.p.w; ++x) for (int y = 0; y < k.p.h; ++y) for (int d = 0; d < k.p.D; ++d) if (k.p.exists(x, y, d) && chance(1, den)) k.cut.push_back(nd(x, y, d));
        desc("%zu nodes are made unavailable beforehand", k.cut.size());
    }
    desc("threshold %g (minimal consistent %g)%s", k.t, k.ref->min_threshold(), k.presolve ? "" : ", not solved beforehand");
}
void gen_device() {
    cl::cfg = cl::Cfg();
    cl::cfg.groups = (int)draw(3); cl::cfg.visibility = (int)draw(4); cl::cfg.defer = chance(1, 2); cl::cfg.sequential = !chance(2, 3); cl::cfg.cpu = chance(1, 4);
    static const int mg[] = {256, 64, 128, 512, 1024, 16, 4, 1}; cl::cfg.max_group = (uint64_t)mg[draw(8)];
    cl::cfg.rng = 1 + draw(1u << 20);
    desc("device: %s, %s, %s, commands %s", cl::cfg.groups == 0 ? "large groups" : cl::cfg.groups == 1 ? "groups of one work-item" : "groups of any size", cl::cfg.visibility == 0 ? "all writes visible at once" : cl::cfg.visibility == 1 ? "writes of other groups visible late" : cl::cfg.visibility == 2 ? "writes of other work-items visible late" : "visibility changes", cl::cfg.sequential ? "one work-item after another" : "work-items interleaved", cl::cfg.defer ? "deferred" : "immediate");
}
uint64_t budget(const Case& k) {
    uint64_t n = (uint64_t)k.p.nodes(), px = (uint64_t)k.p.w * k.p.h;
    return 50000000 + (px * 4 + 8) * (n + 8) * n * 4 * k.p.D * 400 / 4;
}
Avail avail(const Prob& p, const ConstraintGraph* c) { return avail_of(p, c); }
void prepare(Case& k, ConstraintGraph* c) { for (auto& n : k.cut) make_node_unavailable(c, n); if (k.presolve) solve_csp(c); }
// the CPU labeling of the same problem, computed by the real code on the plain schedule
std::vector<double> cpu_labeling(Case& k) {
    return solo([&] {
        ConstraintGraph* c = nullptr; ConstraintGraph* r = nullptr;
        run_in_fiber("cpu", [&] { Sut s; k.g = make_graph(k.p); k.l = new LowestPenalties{k.g}; c = new ConstraintGraph{k.g, k.l, k.t}; prepare(k, c); r = find_labeling(c); });
        std::vector<double> v{r ? 1. : 0.};
        Avail a = avail(k.p, c); for (char b : a) v.push_back(b);
        return v;
    });
}
ConstraintGraph* build(Case& k) {
    ConstraintGraph* c = nullptr;
    run_in_fiber("build", [&] { Sut s; if (!k.g) { k.g = make_graph(k.p); k.l = new LowestPenalties{k.g}; } c = new ConstraintGraph{k.g, k.l, k.t}; prepare(k, c); });
    return c;
}
struct Out { bool threw = false; std::string what; ConstraintGraph* r = nullptr; };
Out label(ConstraintGraph* c, const char* name) {
    Out o;
    run_in_fiber(name, [&] {
        try { Sut s; o.r = find_labeling_cl(c); }
        catch (const std::exception& e) { o.threw = true; Harness h; o.what = e.what(); if (o.what.empty()) o.what = "?"; }
        catch (...) { o.threw = true; Harness h; o.what = "an exception of unknown type"; }
    });
    return o;
}
std::string showg(const Prob& p, const Avail& a) { return show(p, a); }
void compare(Case& k, const std::vector<double>& cpu, const Out& o, ConstraintGraph* c, const char* what) {
    if ((o.r != nullptr) != (cpu[0] != 0)) fail("verdict", "%s: OpenCL %s a labeling, the CPU %s", what, o.r ? "finds" : "does not find", cpu[0] ? "does" : "does not");
    if (!o.r) return;
    if (o.r != c) fail("verdict", "%s: another graph is returned", what);
    Avail a = avail(k.p, c), w(k.p.nodes(), 0);
    for (int i = 0; i < k.p.nodes(); ++i) w[i] = cpu[1 + i] != 0;
    if (a != w) fail("labeling", "%s: OpenCL leaves %s, the CPU %s", what, showg(k.p, a).c_str(), showg(k.p, w).c_str());
}
// Whether the compiler of a device accepts the kernels is no matter of schedules: rejecting them is a failure of the device (C18)
void rejected(Case& k, const Out& o, ConstraintGraph* c, const Avail& before, const std::vector<double>& cpu) {
    if (!o.threw) { compare(k, cpu, o, c, "although the kernels were rejected"); return; }
    Avail after = avail(k.p, c);
    if (after != before) fail("graph-changed", "the kernels are rejected and the labeling ends with an exception, but the availability changed from %s to %s", showg(k.p, before).c_str(), showg(k.p, after).c_str());
    auto lv = cl::live();
    if (lv.mem || lv.kernel || lv.program || lv.event || lv.queue > 1 || lv.context > 1) fail("device-leak", "after the kernels were rejected there are still %d buffers, %d kernels, %d programs, %d events, %d queues and %d contexts", lv.mem, lv.kernel, lv.program, lv.event, lv.queue, lv.context);
    probe(30); set_nontrivial(); finish();
}
void c17() {
    Case ks[2]; gen_case(ks[0]);
    omp.threads = 1;
    std::vector<double> cpus[2] = {cpu_labeling(ks[0]), {}};
    int times = chance(1, 4) ? 2 : 1;
    // of two labelings the second is either of the same problem or of another one
    bool other = times == 2 && chance(1, 2);
    if (other) { desc("another problem:"); gen_case(ks[1]); cpus[1] = cpu_labeling(ks[1]); }
    auto at = [&](int i) -> Case& { return ks[other ? i : 0]; };
    auto cpu = [&](int i) -> const std::vector<double>& { return cpus[other ? i : 0]; };
    gen_device(); gen_omp();
    step_budget = budget(ks[0]) * 2 + (other ? budget(ks[1]) : 0);
    ConstraintGraph* cs[2]; for (int i = 0; i < times; ++i) cs[i] = build(at(i));
    choose_sched();
    bool both = times == 2 && chance(1, 2), reuse = other && !both && chance(1, 2);
    if (!both) for (int i = 0; i < times; ++i) {
        if (i && reuse) { // the second problem takes the place of the first one
            desc("in the objects of the first one");
            Case& a = ks[0]; Case& b = ks[1]; ConstraintGraph* c = cs[0];
            run_in_fiber("reuse", [&] {
                Sut s; typedef DisparityGraph G; typedef LowestPenalties L; typedef ConstraintGraph C;
                c->~C(); a.l->~L(); a.g->~G();
                new (a.g) G(*b.g); new (a.l) L{a.g}; new (c) C{a.g, a.l, b.t}; prepare(b, c);
            });
            cs[1] = c; probe(8);
        }
        Avail before = avail(at(i).p, cs[i]);
        Out o = label(cs[i], i ? "again" : "client");
        if (cl::no_kernels) rejected(at(i), o, cs[i], before, cpu(i));
        if (o.threw) fail("exception", "labeling on a working device ends with an exception: %s", o.what.c_str());
        compare(at(i), cpu(i), o, cs[i], i ? other ? "the second problem" : "the second time" : "after labeling");
    } else {
        // warm up the lazily made queue, then two clients at once
        desc("two clients at once");
        ConstraintGraph* first = build(ks[0]); Avail before = avail(ks[0].p, first);
        Out o0 = label(first, "first"); if (cl::no_kernels) rejected(ks[0], o0, first, before, cpu(0)); if (o0.threw) fail("exception", "labeling on a working device ends with an exception: %s", o0.what.c_str());
        Out o[2];
        for (int i = 0; i < 2; ++i) spawn(i ? "client1" : "client0", [&, i] { try { Sut s; o[i].r = find_labeling_cl(cs[i]); } catch (const std::exception& e) { o[i].threw = true; Harness h; o[i].what = e.what(); } });
        join_all();
        for (int i = 0; i < 2; ++i) { if (o[i].threw) fail("exception", "labeling on a working device ends with an exception: %s", o[i].what.c_str()); compare(at(i), cpu(i), o[i], cs[i], i ? "client 1" : "client 0"); }
        probe(5);
    }
    if (other) probe(7);
    desc("%ld launches, %llu work-items in %llu groups", cl::launches, (unsigned long long)cl::work_items, (unsigned long long)cl::groups_run);
    probe(0); if (cl::groups_run > (uint64_t)cl::launches) probe(1); if (cl::stale_launches) probe(2); if (R->faults[F_PREEMPT]) probe(3); if (!cpus[0][0]) probe(4);
    Case& k = ks[0];
    int skipped = 0; k.ref->label(k.ref->gfp(k.ref->initial(k.t), k.t), k.t, &skipped); if (cpus[0][0] && skipped) probe(6);
    if (R->faults[F_PREEMPT] || cl::stale_launches || cl::groups_run > (uint64_t)cl::launches) set_nontrivial();
}
void c18() {
    Case k; gen_case(k);
    omp.threads = 1;
    auto cpu = cpu_labeling(k);
    // another problem to label before, or once the device works again
    Case k2; std::vector<double> cpu2; int also = chance(1, 4) ? 1 + (int)draw(2) : 0;
    if (also) { desc("another problem, labeled %s:", also == 1 ? "first" : "last"); gen_case(k2); cpu2 = cpu_labeling(k2); }
    gen_device();
    cl::Cfg base = cl::cfg;
    step_budget = budget(k) * 3 + (also ? budget(k2) : 0);
    ConstraintGraph* c2 = also ? build(k2) : nullptr;
    if (also == 1) {
        Avail before = avail(k2.p, c2);
        Out o = label(c2, "first"); if (cl::no_kernels) rejected(k2, o, c2, before, cpu2);
        if (o.threw) skip("labeling on a working device ends with an exception");
        compare(k2, cpu2, o, c2, "the first problem");
    }
    cl::restart();
    // how many fallible calls and launches a run on a working device makes, and what they are
    auto clean = solo([&] {
        ConstraintGraph* c = build(k); Out o = label(c, "clean");
        std::vector<double> v{o.threw ? 1. : 0., (double)cl::launches}; for (int op : cl::call_ops) v.push_back(op); return v;
    });
    if (clean[0]) { ConstraintGraph* c = build(k); Avail before = avail(k.p, c); Out o = label(c, "client"); if (cl::no_kernels) rejected(k, o, c, before, cpu); }
    if (clean[0]) skip("labeling on a working device ends with an exception");
    ConstraintGraph* c = build(k);
    Avail before = avail(k.p, c);
    cl::cfg = base;
    bool source_gone = false;
    int mode = (int)draw(8);
    long total = (long)clean.size() - 2;
    if (mode == 0) cl::cfg.present = false;
    else if (mode == 1) cl::cfg.exec_fail_at = (long)draw((uint32_t)clean[1]);
    else if (mode == 2) { source_gone = true; fault(F_CL_ERROR); desc("  the kernel sources cannot be found"); if (chdir("/proc/self/fdinfo")) error("chdir"); }
    else {
        if (mode >= 6) { // one of a kind of call that is rare
            std::vector<long> at; int op = (int)draw(cl::OPS); for (long i = 0; i < total; ++i) if ((int)clean[2 + i] == op) at.push_back(i);
            cl::cfg.fail_at = at.empty() ? (long)draw((uint32_t)total) : at[draw((uint32_t)at.size())];
        } else cl::cfg.fail_at = (long)draw((uint32_t)total);
        cl::cfg.lasting = chance(1, 3);
        cl::cfg.fail_code = cl::code_for((int)clean[2 + cl::cfg.fail_at], draw(8));
    }
    if (chance(1, 2)) choose_sched();
    auto live0 = cl::live(); if (also != 1 && (live0.mem || live0.kernel)) error("device objects before the run");
    Out o = label(c, "client");
    if (source_gone) { const char* r = getenv("VERIF_REPO"); if (!r || chdir(r)) error("chdir back"); }
    Avail after = avail(k.p, c);
    desc("  the labeling %s%s", o.threw ? "ends with an exception: " : "ends normally", o.what.substr(0, 300).c_str());
    bool fired = cl::failed || source_gone;
    probe(0); if (fired) { probe(1); set_nontrivial(); } if (o.threw) probe(2); if (!cpu[0]) probe(3); if (cl::failed) probe(8 + cl::failed_op);
    if (!fired) { // the calls of this run were others than those of the first one
        if (o.threw) fail("exception", "labeling on a working device ends with an exception: %s", o.what.c_str());
        return;
    }
    const char* op = source_gone ? "finding the kernel sources" : cl::op_names[cl::failed_op];
    if (!o.threw) { // the failure had no consequence, or another way was found: then the labeling is the right one
        compare(k, cpu, o, c, (std::string("although ") + op + " failed").c_str()); probe(5); return;
    }
    if (after != before) fail("graph-changed", "%s fails and the labeling ends with an exception, but the availability changed from %s to %s", op, showg(k.p, before).c_str(), showg(k.p, after).c_str());
    auto lv = cl::live();   // what an earlier, successful labeling keeps is no matter of failures
    if (lv.mem > live0.mem || lv.kernel > live0.kernel || lv.program > live0.program || lv.event > live0.event || lv.queue > std::max(1, live0.queue) || lv.context > std::max(1, live0.context)) fail("device-leak", "after %s failed there are still %d buffers, %d kernels, %d programs, %d events, %d queues and %d contexts", op, lv.mem, lv.kernel, lv.program, lv.event, lv.queue, lv.context);
    // once the device works again so does the labeling
    cl::heal();
    Out o2 = label(c, "retry");
    if (o2.threw) fail("no-recovery", "%s failed once; a later attempt on a working device ends with an exception: %s", op, o2.what.c_str());
    compare(k, cpu, o2, c, "a later attempt");
    probe(4);
    if (also == 2) {
        Out o3 = label(c2, "last");
        if (o3.threw) fail("no-recovery", "%s failed once; labeling another problem later on a working device ends with an exception: %s", op, o3.what.c_str());
        compare(k2, cpu2, o3, c2, "another problem later"); probe(7);
    }
    if (also == 1) probe(6);
}
// C10 on the device: the host runs out of memory while labeling
void c10() {
    Case k; gen_case(k);
    omp.threads = 1;
    auto cpu = cpu_labeling(k);
    gen_device();
    step_budget = budget(k) * 6;
    heap_reuse = chance(1, 4);
    bool warm_queue = chance(1, 2);     // the queue made once is there already
    if (warm_queue) { ConstraintGraph* w = build(k); Avail b = avail(k.p, w); Out o = label(w, "warm"); if (cl::no_kernels) rejected(k, o, w, b, cpu); if (o.threw) skip("labeling on a working device ends with an exception"); compare(k, cpu, o, w, "before"); }
    auto dry = solo([&] { ConstraintGraph* c = build(k); uint64_t a = alloc_plan.count; Out o = label(c, "dry"); return std::vector<double>{o.threw ? 1. : 0., (double)(alloc_plan.count - a)}; });
    if (dry[0]) { ConstraintGraph* c = build(k); Avail b = avail(k.p, c); Out o = label(c, "client"); if (cl::no_kernels) rejected(k, o, c, b, cpu); skip("labeling on a working device ends with an exception"); }
    uint64_t n = (uint64_t)dry[1];
    probe(0); if (n) { probe(1); set_nontrivial(); }
    uint64_t at = n ? draw((uint32_t)n) : 0; bool forever = chance(1, 2); int times = 1 + (int)draw(2);
    desc("labeling with OpenCL: %llu allocations, number %llu %s fails", (unsigned long long)n, (unsigned long long)(at + 1), forever ? "and all later ones" : "only");
    ConstraintGraph* c = build(k);
    Avail before = avail(k.p, c); GraphPrint in = fingerprint(k.g, k.l); double thr = c->threshold;
    auto live0 = cl::live();
    if (chance(1, 2)) choose_sched();
    for (int rep = 0; rep <= times; ++rep) {
        uint64_t blocks = live_blocks(), bytes = live_bytes();
        int how = 0; std::string what; ConstraintGraph* r = nullptr;
        alloc_plan.count = 0; alloc_plan.fail_at = n ? (int64_t)at : -1; alloc_plan.forever = forever; alloc_plan.failed = 0;
        run_in_fiber("attempt", [&] {
            try { Sut s; r = find_labeling_cl(c); how = 1; }
            catch (const std::bad_alloc&) { how = 2; }
            catch (const std::exception& e) { how = 3; Harness h; what = e.what(); }
        });
        bool hit = alloc_plan.failed > 0;
        alloc_plan.fail_at = -1; alloc_plan.forever = false;
        // what the OpenCL wrappers make of running out of memory is theirs; it has to be an exception
        if (how == 3 && !hit) fail("wrong-exception", "labeling with OpenCL raises %s although no allocation failed", what.c_str());
        if (how == 2 && !hit) fail("wrong-exception", "labeling with OpenCL ends with bad_alloc although no allocation failed");
        if (!(fingerprint(k.g, k.l) == in) || c->threshold != thr) fail("input-modified", "labeling with OpenCL: running out of memory modified its inputs");
        if (cl::no_kernels) { cl::no_kernels = false; }     // source text cut by a failed allocation
        if (how == 1) { Out o; o.r = r; compare(k, cpu, o, c, "after a failed allocation"); probe(4); return; }
        probe(2);
        // as on the CPU: a labeling may be continued from where it was
        { Avail a = avail(k.p, c); for (int i = 0; i < k.p.nodes(); ++i) if (a[i] && !before[i]) fail("input-modified", "labeling with OpenCL: running out of memory made nodes available: %s after %s", showg(k.p, a).c_str(), showg(k.p, before).c_str()); }
        auto lv = cl::live();
        if (lv.mem > live0.mem || lv.kernel > live0.kernel || lv.program > live0.program || lv.event > live0.event || lv.queue > std::max(1, live0.queue) || lv.context > std::max(1, live0.context)) fail("leak", "after running out of memory there are still %d buffers, %d kernels, %d programs, %d events, %d queues and %d contexts", lv.mem, lv.kernel, lv.program, lv.event, lv.queue, lv.context);
        if (warm_queue && rep > 0 && (live_blocks() != blocks || live_bytes() != bytes)) fail("leak", "labeling with OpenCL: %lld blocks (%lld bytes) more are allocated after it ran out of memory than before", (long long)(live_blocks() - blocks), (long long)(live_bytes() - bytes));
    }
    Out o = label(c, "again");
    if (o.threw) fail("not-retryable", "labeling with OpenCL: repeating with enough memory raises %s", o.what.c_str());
    compare(k, cpu, o, c, "repeated with enough memory");
}
Reg r10("C10", c10), r17("C17", c17), r18("C18", c18);
// compile the kernels before the runs are forked
void warm() {
    const char* r = getenv("VERIF_REPO"); if (r && chdir(r)) { perror("chdir"); _exit(3); }
    int fd[2]; if (pipe(fd)) return;
    pid_t p = fork();
    if (p == 0) {
        alarm(20); close(fd[0]); cl::capture_fd = fd[1];
        Prob q; q.w = 2; q.h = 1; q.D = 2; q.maxv = 1; q.L.assign(2, 0); q.R.assign(2, 0); q.clean = q.smooth = 1;
        Case k; k.p = q; k.t = 1; label(build(k), "warm");
        _exit(0);
    }
    close(fd[1]); std::string s; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
    close(fd[0]); int st; waitpid(p, &st, 0);
    cl::compile_captured(s);
}
RegWarm w(warm);
}
