// C09: clients sharing one problem. C10: running out of memory.
#include "common.h"
#include <cstring>
#include <istream>
#include <ostream>
#include <sstream>
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;
using sp::image::PGM_IO;

namespace {
typedef std::vector<double> Out;
void put(Out& o, const Avail& a) { for (char c : a) o.push_back(c); }
template <class V> void putv(Out& o, const V& a) { o.push_back((double)a.size()); for (auto v : a) o.push_back((double)v); }
void put(Out& o, const Image& i) { o.push_back(i.width); o.push_back(i.height); o.push_back(i.max_value); putv(o, i.data); }

// ---------------------------------------------------------------- in-memory streams run by the harness
struct InBuf : std::streambuf {
    std::string s; size_t pos = 0, chunk; char b[64];
    InBuf(std::string t, size_t c) : s(std::move(t)), chunk(c ? c : 1) {}
    int_type underflow() override {
        sync_point();
        Harness h;
        if (pos >= s.size()) return traits_type::eof();
        size_t n = std::min({chunk, sizeof b, s.size() - pos});
        memcpy(b, s.data() + pos, n); pos += n; setg(b, b, b + n);
        return traits_type::to_int_type(b[0]);
    }
};
struct OutBuf : std::streambuf {
    std::string s;
    int_type overflow(int_type c) override { sync_point(); Harness h; if (c != traits_type::eof()) s.push_back((char)c); return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* p, std::streamsize n) override { sync_point(); Harness h; s.append(p, (size_t)n); return n; }
};
std::string pgm_text(int w, int h, long mv, const std::vector<long>& d) {
    std::string s = "P2\n" + std::to_string(w) + " " + std::to_string(h) + "\n" + std::to_string(mv) + "\n";
    for (int i = 0; i < w * h; ++i) { s += std::to_string(d[i]); s += (i + 1) % w ? " " : "\n"; }
    return s;
}

// ---------------------------------------------------------------- operations on one shared problem
struct Op { int kind, on; double t; int ti; std::vector<int> args; std::string text; int w, h; long mv; std::vector<long> data; size_t chunk; };
struct Shared { const Prob* p; DisparityGraph* g; LowestPenalties* l; const ConstraintGraph* c = nullptr; };
const char* op_names[] = {"build penalties", "solve", "fetch candidates", "minimal threshold", "labeling and map", "read image", "write image", "build problem", "mark nodes", "best node", "copy and solve", "copy and label"};
Op gen_op(const Prob& p, const std::vector<double>& cand) {
    Op o; o.on = 0; o.kind = (int)draw(12); o.ti = (int)draw((uint32_t)cand.size()); o.t = cand[o.ti]; o.chunk = 1 + draw(40);
    o.w = 1 + (int)draw(14); o.h = 1 + (int)draw(3); o.mv = 1 + draw(300);
    int n = o.kind == 5 || o.kind == 6 ? o.w * o.h : 0;
    for (int i = 0; i < n; ++i) o.data.push_back((long)draw((uint32_t)o.mv + 1));
    if (o.kind == 5) o.text = pgm_text(o.w, o.h, o.mv, o.data);
    int m = o.kind == 8 || o.kind == 9 ? 1 + (int)draw(5) : 0;
    for (int i = 0; i < m; ++i) { o.args.push_back((int)draw((uint32_t)p.w)); o.args.push_back((int)draw((uint32_t)p.h)); o.args.push_back((int)draw((uint32_t)p.D)); o.args.push_back((int)draw(2)); }
    return o;
}
void do_op(const Shared& s, const Op& o, Out& out) {
    const Prob& p = *s.p;
    Sut sut;
    switch (o.kind) {
    case 0: { LowestPenalties l{s.g}; Harness h; putv(out, l.pixels); putv(out, l.neighborhoods); break; }
    case 1: { ConstraintGraph c{s.g, s.l, o.t}; bool r = solve_csp(&c); Harness h; out.push_back(r); put(out, avail_of(p, &c)); break; }
    case 2: { auto c = fetch_available_penalties(s.l); Harness h; putv(out, c); break; }
    case 3: { auto c = fetch_available_penalties(s.l); double t = calculate_minimal_consistent_threshold(s.l, s.g, c); Harness h; out.push_back(t); break; }
    case 4: {
        ConstraintGraph c{s.g, s.l, o.t}; solve_csp(&c); auto* r = find_labeling(&c);
        { Harness h; out.push_back(r != nullptr); put(out, avail_of(p, &c)); }
        if (r) { Image i = build_disparity_map(&c); Harness h; put(out, i); }
        break;
    }
    case 5: {
        InBuf* b; { Harness h; b = new InBuf(o.text, o.chunk); }
        { std::istream in(b); PGM_IO io; in >> io; auto im = io.get_image(); Harness h; out.push_back(in.fail()); out.push_back(!!im); if (im) put(out, *im); }
        Harness h; delete b; break;
    }
    case 6: {
        OutBuf* b; { Harness h; b = new OutBuf; }
        { std::ostream os(b); PGM_IO io(std::make_shared<Image>(make_image(o.w, o.h, o.mv, o.data))); os << io; os.flush(); Harness h; out.push_back(os.fail()); putv(out, b->s); }
        Harness h; delete b; break;
    }
    case 7: {
        DisparityGraph g{s.g->left, s.g->right, s.g->disparity_levels, s.g->cleanness, s.g->smoothness}; LowestPenalties l{&g};
        Harness h; putv(out, g.reparametrization); putv(out, l.pixels); putv(out, l.neighborhoods); break;
    }
    case 10: case 11: {   // copies of a graph that everybody may read
        ConstraintGraph c{*s.c}, d; d = c;
        bool r = o.kind == 10 ? solve_csp(&c) != 0 : find_labeling(&c) != nullptr;
        { Harness h; out.push_back(r); put(out, avail_of(p, &c)); put(out, avail_of(p, &d)); out.push_back(d.threshold); out.push_back(c.disparity_graph == s.g && c.lowest_penalties == s.l && d.disparity_graph == s.g && d.lowest_penalties == s.l); }
        std::swap(c, d);
        make_all_nodes_unavailable(&d);
        Harness h; put(out, avail_of(p, &c)); put(out, avail_of(p, &d));
        break;
    }
    default: {
        ConstraintGraph c{s.g, s.l, o.t};
        for (size_t i = 0; i + 3 < o.args.size(); i += 4) {
            int x = o.args[i], y = o.args[i + 1], d = o.args[i + 2] % std::min(p.D, p.w - x);
            if (o.kind == 9) choose_best_node(&c, Pixel{(unsigned long)x, (unsigned long)y});
            else if (o.args[i + 3]) make_node_available(&c, nd(x, y, d)); else make_node_unavailable(&c, nd(x, y, d));
        }
        Harness h; put(out, avail_of(p, &c));
    }
    }
}
void c09() {
    heap_reuse = chance(1, 2);
    GenOpt go; go.max_w = 5; go.max_h = 3; go.max_D = 4; go.max_nodes = 36;
    int P = chance(1, 4) ? 2 : 1;     // shared problems
    Prob ps[2]; std::unique_ptr<Ref> refs[2];
    for (int i = 0; i < P; ++i) { if (i) desc("another shared problem:"); ps[i] = gen_problem(go); refs[i].reset(new Ref(ps[i])); }
    omp.threads = 1 + (int)draw(3); omp.nested = chance(1, 2);
    Shared s[2];
    for (int i = 0; i < P; ++i) { s[i] = Shared{&ps[i], nullptr, nullptr}; run_in_fiber("build", [&] { Sut u; s[i].g = make_graph(ps[i]); s[i].l = new LowestPenalties{s[i].g}; }); }
    int K = 2 + (int)draw(3);
    std::vector<std::vector<Op>> ops(K);
    // candidate thresholds near the minimal consistent one are the interesting ones
    std::vector<double> cand[2];
    for (int j = 0; j < P; ++j) { Ref& ref = *refs[j]; int m = ref.min_index(); for (int i = std::max(0, m - 2); i < (int)ref.cand.size() && i < m + 4; ++i) cand[j].push_back(ref.cand[i]); }
    for (int i = 0; i < P; ++i) { double t = cand[i][draw((uint32_t)cand[i].size())]; run_in_fiber("build", [&] { Sut u; s[i].c = new ConstraintGraph{s[i].g, s[i].l, t}; }); }
    Avail tmpl[2]; for (int i = 0; i < P; ++i) tmpl[i] = avail_of(ps[i], s[i].c);
    for (int i = 0; i < K; ++i) { int n = 1 + (int)draw(3); for (int j = 0; j < n; ++j) { int on = P == 2 ? (int)draw(2) : 0; ops[i].push_back(gen_op(ps[on], cand[on])); ops[i].back().on = on; } }
    if (chance(1, 3)) for (int i = 1; i < K; ++i) for (auto& o : ops[i]) if (chance(1, 2)) o.kind = ops[0][0].kind == 5 || ops[0][0].kind == 6 || ops[0][0].kind >= 8 ? o.kind : ops[0][0].kind;
    std::vector<Out> want(K), got(K);
    for (int i = 0; i < K; ++i) want[i] = solo([&] { Out o; run_in_fiber("alone", [&] { for (auto& x : ops[i]) { o.push_back(-77); do_op(s[x.on], x, o); } }); return o; });
    GraphPrint before[2]; for (int i = 0; i < P; ++i) before[i] = fingerprint(s[i].g, s[i].l);
    choose_sched();
    std::vector<int> done(K, 0);
    for (int i = 0; i < K; ++i) {
        char nm[24]; snprintf(nm, 24, "client%d", i);
        spawn(nm, [&, i] {
            for (auto& x : ops[i]) {
                got[i].push_back(-77);
                try { do_op(s[x.on], x, got[i]); }
                catch (const std::exception& e) { fail("exception", "client %d: %s ends with exception %s, although alone it does not", i, op_names[x.kind], e.what()); }
                ++done[i];
            }
        });
        std::string t; for (auto& x : ops[i]) { t += op_names[x.kind]; if (x.on) t += " (of the other problem)"; t += "; "; }
        desc("client %d: %s", i, t.c_str());
    }
    join_all();
    probe(0); if (R->faults[F_PREEMPT]) probe(1); if (R->faults[F_NESTED] || sim::omp.max_seen > 1) probe(2); if (R->conflicts) probe(3); if (P == 2) probe(4);
    if (R->faults[F_PREEMPT]) set_nontrivial();
    for (int i = 0; i < K; ++i) if (got[i] != want[i]) {
        size_t k = 0, opn = 0; while (k < got[i].size() && k < want[i].size() && got[i][k] == want[i][k]) { if (got[i][k] == -77) ++opn; ++k; }
        const char* nm = op_names[ops[i][std::min(opn ? opn - 1 : 0, ops[i].size() - 1)].kind];
        fail("isolation", "client %d: the result of \"%s\" differs from the one it has alone (value %zu: %g instead of %g)", i, nm, k, k < got[i].size() ? got[i][k] : -1, k < want[i].size() ? want[i][k] : -1);
    }
    for (int i = 0; i < P; ++i) if (!(fingerprint(s[i].g, s[i].l) == before[i])) fail("shared-modified", "the shared problem or its penalties were modified");
    for (int i = 0; i < P; ++i) if (!(avail_of(ps[i], s[i].c) == tmpl[i])) fail("shared-modified", "the constraint graph that everybody copies was modified");
}

// -------------------------------------------------------------------------------- C10
struct Mem {
    Prob p; std::unique_ptr<Ref> ref; double t;
    DisparityGraph* g = nullptr; LowestPenalties* l = nullptr; ConstraintGraph* c = nullptr; sp::types::FLOAT_ARRAY* cand = nullptr;
    Image* L = nullptr; Image* Rt = nullptr;
    std::shared_ptr<Image>* held = nullptr; PGM_IO* io = nullptr;
    std::string text; size_t chunk = 8; int kind = 0;
    bool failed_stream = false;
    std::string wrote;
};
const char* mem_names[] = {"building the stereo problem", "building lowest penalties", "fetching candidate thresholds", "minimal consistent threshold", "building the constraint graph", "solving", "labeling", "building the map", "reading an image", "writing an image", "the whole pipeline", "copying images", "choosing the best node"};
// one attempt of the operation; the result is only meaningful when nothing failed
void attempt(Mem& m, Out& o) {
    Sut u;
    switch (m.kind) {
    case 0: { DisparityGraph g{*m.L, *m.Rt, (unsigned long)m.p.D, m.p.clean, m.p.smooth}; Harness h; putv(o, g.reparametrization); put(o, g.left); put(o, g.right); break; }
    case 1: { LowestPenalties l{m.g}; Harness h; putv(o, l.pixels); putv(o, l.neighborhoods); break; }
    case 2: { auto c = fetch_available_penalties(m.l); Harness h; putv(o, c); break; }
    case 3: { double t = calculate_minimal_consistent_threshold(m.l, m.g, *m.cand); Harness h; o.push_back(t); break; }
    case 4: { ConstraintGraph c{m.g, m.l, m.t}; Harness h; put(o, avail_of(m.p, &c)); break; }
    case 5: { bool r = solve_csp(m.c); Harness h; o.push_back(r); put(o, avail_of(m.p, m.c)); break; }
    case 6: { auto* r = find_labeling(m.c); Harness h; o.push_back(r != nullptr); if (r) put(o, avail_of(m.p, m.c)); break; }
    case 7: { Image i = build_disparity_map(m.c); Harness h; put(o, i); break; }
    case 8: {
        InBuf* b; { Harness h; b = new InBuf(m.text, m.chunk); }
        struct Del { InBuf* b; ~Del() { Harness h; delete b; } } del{b};
        std::istream in(b); in >> *m.io;
        Harness h; m.failed_stream = in.fail(); o.push_back(in.fail()); auto im = m.io->get_image(); if (im) put(o, *im); break;
    }
    case 9: {
        OutBuf* b; { Harness h; b = new OutBuf; }
        struct Del { OutBuf* b; Mem* m; ~Del() { Harness h; m->wrote = b->s; delete b; } } del{b, &m};
        std::ostream os(b); os << *m.io; os.flush();
        Harness h; m.failed_stream = os.fail(); o.push_back(os.fail()); putv(o, b->s); break;
    }
    case 10: {
        DisparityGraph g{*m.L, *m.Rt, (unsigned long)m.p.D, m.p.clean, m.p.smooth}; LowestPenalties l{&g};
        auto c = fetch_available_penalties(&l); double t = calculate_minimal_consistent_threshold(&l, &g, c);
        ConstraintGraph k{&g, &l, t}; bool r = solve_csp(&k); auto* q = find_labeling(&k);
        { Harness h; o.push_back(t); o.push_back(r); o.push_back(q != nullptr); }
        if (q) { Image i = build_disparity_map(&k); Harness h; put(o, i); }
        break;
    }
    case 11: { Image a(*m.L); Image b{0, 0, 0, {}}; b = a; Harness h; put(o, b); break; }
    default: { auto* r = choose_best_node(m.c, Pixel{(unsigned long)(m.p.w / 2), 0}); Harness h; o.push_back(r != nullptr); put(o, avail_of(m.p, m.c)); }
    }
}
struct Inputs { GraphPrint g; Out imgs; double thr; bool operator==(const Inputs& o) const { return g == o.g && imgs == o.imgs && thr == o.thr; } };
Inputs inputs(const Mem& m) {
    Inputs i; i.thr = 0;
    if (m.g) i.g = fingerprint(m.g, m.l);
    if (m.L) { put(i.imgs, *m.L); put(i.imgs, *m.Rt); }
    if (m.cand) putv(i.imgs, *m.cand);
    if (m.c) i.thr = m.c->threshold;
    return i;
}
void c10() {
    heap_reuse = chance(1, 4);
    Mem m;
    GenOpt go; go.max_w = 5; go.max_h = 3; go.max_D = 4; go.max_nodes = 40;
    static const int kinds[] = {8, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 8, 6, 10, 3, 2};
    m.kind = kinds[draw(18)];
    double dead_t = -1;
    m.p = m.kind == 6 && chance(1, 3) ? gen_dead_end(dead_t, 6, 5) : gen_problem(go); m.ref.reset(new Ref(m.p)); m.t = dead_t > 0 ? std::max(dead_t, m.ref->min_threshold()) : m.ref->min_threshold();
    omp.threads = 1 + (int)draw(3);
    int rw = 1 + (int)draw(16), rh = 1 + (int)draw(6); long rm = 1 + draw(70000); bool longtok = chance(1, 3);
    std::vector<long> rd; if (m.kind == 8 || m.kind == 9) for (int i = 0; i < rw * rh; ++i) rd.push_back(draw((uint32_t)std::min<long>(rm, 65536) + 1));
    m.chunk = 1 + draw(60);
    if (m.kind == 8) {
        m.text = pgm_text(rw, rh, std::min<long>(rm, 65536), rd);
        if (longtok) m.text.insert(3, "# " + std::string(20 + draw(60), 'c') + "\n" + std::string("#") + std::string(18 + draw(40), 'd') + "\n");
        if (chance(1, 4)) m.text.insert(m.text.find('\n', 20 % m.text.size()) == std::string::npos ? 0 : m.text.size(), std::string(1, '\n') + std::string("# ") + std::string(draw(30), 'e'));
        if (chance(1, 4)) { std::string z(40, '0'); m.text.insert(m.text.size() - 2, " "); size_t q = m.text.rfind(' ', m.text.size() - 4); if (q != std::string::npos) m.text.insert(q + 1, z); m.text.erase(std::remove(m.text.begin() + (long)m.text.size() - 2, m.text.end(), ' '), m.text.end()); }
    }
    run_in_fiber("prepare", [&] {
        Sut u;
        m.L = new Image(make_image(m.p.w, m.p.h, m.p.maxv, m.p.L)); m.Rt = new Image(make_image(m.p.w, m.p.h, m.p.maxv, m.p.R));
        m.g = make_graph(m.p); m.l = new LowestPenalties{m.g}; m.cand = new sp::types::FLOAT_ARRAY(fetch_available_penalties(m.l));
        m.c = new ConstraintGraph{m.g, m.l, m.t};
        if (m.kind == 6 || m.kind == 7) solve_csp(m.c);
        if (m.kind == 7) find_labeling(m.c);
        m.io = new PGM_IO;
        if (m.kind == 8) { m.held = new std::shared_ptr<Image>(new Image(make_image(2, 1, 9, {4, 7}))); m.io->set_image(*m.held); }
        if (m.kind == 9) { m.held = new std::shared_ptr<Image>(new Image(make_image(rw, rh, std::min<long>(rm, 65536), rd))); m.io->set_image(*m.held); }
    });
    // what it does with enough memory, and how often it allocates: in a copy of the process
    Out norm = solo([&] { Out o; uint64_t n = 0; run_in_fiber("dry", [&] { uint64_t a = alloc_plan.count; attempt(m, o); n = alloc_plan.count - a; }); o.push_back((double)n); return o; });
    uint64_t n = (uint64_t)norm.back(); norm.pop_back();
    probe(0); if (n) { probe(1); set_nontrivial(); }
    uint64_t k = n ? draw((uint32_t)n) : 0; bool forever = chance(1, 2); int times = 1 + (int)draw(2);
    desc("%s: %llu allocations, number %llu %s fails", mem_names[m.kind], (unsigned long long)n, (unsigned long long)(k + 1), forever ? "and all later ones" : "only");
    choose_sched(true);
    Inputs in = inputs(m);
    Avail av = avail_of(m.p, m.c);
    std::shared_ptr<Image> heldp; if (m.held) heldp = *m.held;
    Out heldv; if (m.held) put(heldv, **m.held);
    for (int rep = 0; rep < times + 1; ++rep) {
        // the first failed attempt may leave one-time initialisations behind, the second must not leave anything
        Out o; int how = 0; std::string what;
        uint64_t live0 = live_blocks(), bytes0 = live_bytes();
        alloc_plan.count = 0; alloc_plan.fail_at = n ? (int64_t)k : -1; alloc_plan.forever = forever; alloc_plan.failed = 0;
        run_in_fiber("attempt", [&] {
            try { attempt(m, o); how = 1; }
            catch (const std::bad_alloc&) { how = 2; }
            catch (const std::exception& e) { how = 3; what = e.what(); }
        });
        bool hit = alloc_plan.failed > 0;
        alloc_plan.fail_at = -1; alloc_plan.forever = false;
        if (how == 3) fail("wrong-exception", "%s: out of memory is reported as exception %s", mem_names[m.kind], what.c_str());
        if (how == 2 && !hit) fail("wrong-exception", "%s ends with bad_alloc although no allocation failed", mem_names[m.kind]);
        bool stream = m.kind == 8 || m.kind == 9;
        bool clean_fail = how == 2 || (stream && how == 1 && m.failed_stream && hit);
        if (how == 2) probe(2); else if (clean_fail) probe(3); else probe(4);
        if (!clean_fail && o != norm && !(rep && (m.kind == 5 || m.kind == 6 || m.kind == 12))) fail("wrong-result", "%s completes after a failed allocation with a wrong result", mem_names[m.kind]);
        if (!(inputs(m) == in)) fail("input-modified", "%s: running out of memory modified its inputs", mem_names[m.kind]);
        if (m.kind != 5 && m.kind != 6 && m.kind != 12 && avail_of(m.p, m.c) != av) fail("input-modified", "%s: running out of memory modified the availability of nodes", mem_names[m.kind]);
        if (m.kind == 8 && clean_fail) {
            if (m.io->get_image() != heldp) fail("held-image", "reading failed, but the held image was replaced");
            Out h; put(h, *m.io->get_image()); if (h != heldv) fail("held-image", "reading failed, but the held image was modified");
        }
        if (m.kind == 9) {
            Out h; put(h, *m.io->get_image()); if (h != heldv) fail("held-image", "writing modified the image");
        }
        if (!clean_fail) break;
        if (rep > 0 && (live_blocks() != live0 || live_bytes() != bytes0)) fail("leak", "%s: %lld blocks (%lld bytes) more are allocated after it ran out of memory than before", mem_names[m.kind], (long long)(live_blocks() - live0), (long long)(live_bytes() - bytes0));
    }
    // memory is available again
    Out o;
    if (m.kind == 8) run_in_fiber("reset", [&] { Sut u; m.io->set_image(*m.held); });
    run_in_fiber("again", [&] {
        try { attempt(m, o); }
        catch (const std::exception& e) { fail("not-retryable", "%s: repeating with enough memory raises %s", mem_names[m.kind], e.what()); }
    });
    if (o != norm) {
        // labeling and solving continue from where they were: the nodes left are the same
        fail("not-retryable", "%s: repeating with enough memory gives another result", mem_names[m.kind]);
    }
}
Reg r9("C09", c09), r10("C10", c10);
}
