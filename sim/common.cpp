#include "common.h"
#include <cstdio>
#include <cmath>
#include <labeling_finder.hpp>
static void rescale(Prob& p, double f) { p.clean *= f; p.smooth *= f; for (auto& v : p.phi) v *= f; }
Prob gen_problem(const GenOpt& o) {
    Prob p;
    static const int ws[] = {3, 2, 4, 3, 5, 4, 6, 5, 8, 10, 12};
    int wi = 0; while (wi < 10 && ws[wi] <= o.max_w) ++wi;
    int shape = o.shapes ? (int)draw(48) : 0;
    if (o.exact_w) { p.w = o.exact_w; p.h = o.exact_h; p.D = o.exact_D; }
    else if (shape == 47) { p.w = 2 + (int)draw(3); p.h = 8 + (int)draw(14); p.D = 2 + (int)draw((uint32_t)std::min(p.w, 3) - 1); }          // tall
    else if (shape == 46) { p.w = 10 + (int)draw(16); p.h = 1 + (int)draw(2); p.D = 2 + (int)draw(4); }                               // wide
    else if (shape == 44 && o.huge && chance(1, 4)) { int n = 250 + (int)draw(60); bool tall = chance(1, 2); p.w = tall ? 2 : n; p.h = tall ? n : 1; p.D = 2; }   // more rows or columns than a byte counts
    else if (shape == 45 && chance(1, 4)) { p.w = 17 + (int)draw(20); p.h = 1; p.D = std::min(o.levels, p.w - (int)draw(16)); if (o.levels > 65 && chance(1, 3)) { p.w = 65 + (int)draw(8); p.D = 60 + (int)draw(6); } }   // many levels
    else {
        p.w = std::min(o.max_w, ws[draw((uint32_t)wi)]);
        p.h = 1 + (int)draw((uint32_t)o.max_h);
        p.D = 2 + (int)draw((uint32_t)(std::min(p.w, o.max_D) - 1));
        while (p.w * p.h * p.D > o.max_nodes && p.h > 1) --p.h;
    }
    static const long mv[] = {1, 2, 3, 5, 8, 15, 255, 1000, 65535};
    p.maxv = mv[draw(o.single ? 7 : 9)];
    p.L.assign(p.w * p.h, 0); p.R = p.L;
    int mode = (int)draw(4);
    for (auto& v : p.L) v = (long)draw((uint32_t)p.maxv + 1);
    if (mode <= 1) for (auto& v : p.R) v = (long)draw((uint32_t)p.maxv + 1);
    else {
        // a shifted left image with noise: a plausible stereo pair
        int s = (int)draw((uint32_t)p.D);
        for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) {
            long v = p.L[y * p.w + std::min(p.w - 1, x + (mode == 3 && y % 2 ? 0 : s))];
            if (chance(1, 4)) v = (long)draw((uint32_t)p.maxv + 1);
            p.R[y * p.w + x] = v;
        }
    }
    // sums of small multiples of powers of two: every penalty and every difference is exact
    static const double cl[] = {1, 1, 2, 0.5, 3, 0, 4, 0.125, 0.0625, 1.75, 100};
    static const double sm[] = {1, 1, 2, 0.5, 3, 0, 8, 0.125, 0.03125, 2.25, 1000};
    p.clean = cl[draw(o.single ? 7 : 11)]; p.smooth = sm[draw(o.single ? 7 : 11)];
    if (p.clean == 0 && p.smooth == 0) p.smooth = 1;
    if (o.rich || (o.phi && chance(1, (uint32_t)o.phi_den))) {
        p.has_phi = true; p.phi.assign((size_t)p.nodes() * 4, 0);
        int den = 1 + (int)draw(6), mag = 6;
        static const double units[] = {0.5, 0.5, 1, 0.125, 0.0078125, 64};
        double unit = units[draw(o.single ? 3 : 6)];
        // strong reparametrization: which edges are admissible looks arbitrary, so consistency is not enough for a labeling
        if (chance(1, 2)) { den = 1; mag = 6 << draw(4); if (chance(1, 2)) p.smooth = 0; if (p.clean == 0 && p.smooth == 0) p.clean = 1; }
        if (o.rich) { den = 1; mag = 1 << (8 + draw(10)); }
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) for (int n = 0; n < 4; ++n)
            if (p.exists(x, y, d) && p.has_nb(x, y, n) && chance(1, (uint32_t)den)) p.ph(x, y, d, n) = (double)range(-mag, mag) * unit;
    }
    // differences far below or above 1, still exact; or tiny next to the penalties themselves
    switch (chance(1, 8) ? draw(5) : 5) {
    case 0: rescale(p, ldexp(1, o.single ? -20 : -40)); break;
    case 1: rescale(p, ldexp(1, 20)); break;
    case 2: if (!o.single && p.has_phi && p.maxv <= 255) { for (auto& v : p.phi) v *= ldexp(1, -18); } break;
    case 3: if (!o.single && p.has_phi && p.maxv <= 15 && p.clean <= 4 && p.smooth <= 4) { for (auto& v : p.phi) v *= ldexp(1, -34); } break;      // just within the precision
    case 4: if (!o.single && p.has_phi && p.maxv <= 255 && std::max(p.clean, p.smooth) >= 1 && p.smooth <= 8) { rescale(p, ldexp(1, -50)); for (auto& v : p.phi) v *= ldexp(1, -8); } break;   // less than the precision at one
    }
    describe(p);
    return p;
}
// Around the cell a, m, k, b a node of a implies, one way, one node of b and, the other way, the other one: every node
// has admissible edges, but none of the labelings of the cell contains that node of a. Two such cells may share a.
static void dead_end_cell(Prob& p, int ax, int ay, int sx, int sy, int z, double u) {
    struct P { int x, y; } a{ax, ay}, m{ax + sx, ay}, k{ax, ay + sy}, b{ax + sx, ay + sy};
    int fm = (int)draw(2), fk = (int)draw(2), fb = (int)draw(2);
    auto forbid = [&](P i, int d, P j, int e) {
        int n = j.x > i.x ? 0 : j.x < i.x ? 1 : j.y > i.y ? 2 : 3;
        p.ph(i.x, i.y, d, n) -= 0.75 * u; p.ph(j.x, j.y, e, n ^ 1) -= 0.75 * u;
    };
    forbid(a, z, m, fm); forbid(m, 1 - fm, b, fb); forbid(a, z, k, fk); forbid(k, 1 - fk, b, 1 - fb);
}
// The same with all but one or two nodes of a pixel doomed, the cheapest ones
static Prob gen_many_dead_ends(double& t) {
    Prob p;
    p.D = 4 + (int)draw(chance(1, 3) ? 9 : 4); int ax = (int)draw(2); p.w = ax + 1 + p.D + (int)draw(2); p.h = 2 + (int)draw(2); p.maxv = 3;
    int ay = (int)draw((uint32_t)p.h - 1), D = p.D;
    static const double us[] = {1, 2, 0.5, 8}; double u = us[draw(4)];
    p.clean = u; p.smooth = 0; t = u;
    p.L.assign(p.w * p.h, 1); p.R = p.L;
    for (auto& v : p.L) v = (long)draw(2);
    for (auto& v : p.R) v = (long)draw(2);
    p.has_phi = true; p.phi.assign((size_t)p.nodes() * 4, 0);
    std::vector<char> doomed(D, 1), m(D, 0), k(D, 0), b(D, 0);
    for (int i = 1 + (int)draw(2); i--;) doomed[draw((uint32_t)D)] = 0;
    m[D - 1] = 1; k[0] = 1; for (auto& c : b) c = (char)draw(2);
    b[0] = chance(1, 2); b[D - 1] = chance(1, 2); b[1] = !b[0];      // both ways lead on
    auto forbid = [&](int x, int y, const std::vector<char>& is, int X, int Y, const std::vector<char>& only) {
        int n = X > x ? 0 : X < x ? 1 : Y > y ? 2 : 3;
        for (int d = 0; d < D; ++d) { if (is[d]) p.ph(x, y, d, n) -= 0.75 * u; if (!only[d]) p.ph(X, Y, d, n ^ 1) -= 0.75 * u; }
    };
    std::vector<char> nb = b; for (auto& c : nb) c = !c;
    forbid(ax, ay, doomed, ax + 1, ay, m); forbid(ax + 1, ay, m, ax + 1, ay + 1, b);
    forbid(ax, ay, doomed, ax, ay + 1, k); forbid(ax, ay + 1, k, ax + 1, ay + 1, nb);
    p.R[ay * p.w + ax] = 1; for (int d = 0; d < D; ++d) p.L[ay * p.w + ax + d] = doomed[d] ? 0 : 1;      // the doomed ones gain 1.5 u from reparametrization
    desc("made to have dead ends at the threshold %g", t);
    describe(p);
    return p;
}
Prob gen_dead_end(double& t, int max_w, int max_h) {
    if (chance(1, 4)) return gen_many_dead_ends(t);
    Prob p;
    bool two = max_w >= 4 && max_h >= 3 && chance(1, 3);
    p.w = two ? 4 : 3; p.h = two ? 3 : 2; p.D = 2; p.maxv = 1;
    p.w += (int)draw((uint32_t)std::max(1, std::min(max_w - p.w + 1, chance(1, 3) ? max_w : 3))); p.h += (int)draw((uint32_t)std::max(1, std::min(max_h - p.h + 1, 3)));
    if (chance(1, 6)) p.D = 3;
    p.L.assign(p.w * p.h, 0); p.R = p.L;
    for (auto& v : p.L) v = (long)draw(2);
    for (auto& v : p.R) v = (long)draw(2);
    static const double us[] = {1, 2, 0.5, 8}; double u = us[draw(4)];
    static const double sm[] = {0, 0, 0.125, 0.25};
    p.clean = u; p.smooth = sm[draw(4)] * u; t = u;
    p.has_phi = true; p.phi.assign((size_t)p.nodes() * 4, 0);
    // cells may touch the last but one column only: the last one has a single node per pixel
    int sx = chance(1, 3) ? -1 : 1, sy = chance(1, 3) ? -1 : 1, z = (int)draw(2);
    auto place = [](int n, int s, uint32_t room) { return (s > 0 ? 0 : 1) + (int)draw((uint32_t)n - room); };
    if (two) {
        int ax = 1 + (int)draw((uint32_t)p.w - 3), ay = 1 + (int)draw((uint32_t)p.h - 2);
        dead_end_cell(p, ax, ay, sx, sy, z, u); dead_end_cell(p, ax, ay, -sx, -sy, 1 - z, u);
    } else {
        int ax = place(p.w - 1, sx, 1), ay = place(p.h, sy, 1);
        dead_end_cell(p, ax, ay, sx, sy, z, u);
        // the doomed node is the best one of its pixel
        p.L[ay * p.w + ax + z] = (long)draw(2); p.L[ay * p.w + ax + 1 - z] = 1 - p.L[ay * p.w + ax + z]; p.R[ay * p.w + ax] = p.L[ay * p.w + ax + 1 - z];
    }
    if (chance(1, 2)) {
        int den = 1 + (int)draw(8);
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) for (int n = 0; n < 4; ++n)
            if (p.exists(x, y, d) && p.has_nb(x, y, n) && chance(1, (uint32_t)den)) p.ph(x, y, d, n) += (double)range(-1, 1) * u / 64;
    }
    if (chance(1, 8)) { double f = ldexp(1, chance(1, 2) ? -20 : 20); rescale(p, f); t *= f; }
    desc("made to have a dead end at the threshold %g", t);
    describe(p);
    return p;
}
// At the threshold one node cannot stay, and it takes others with it one after another along a winding path
Prob gen_removals(double& t, int max_w, int max_h, int corner_num) {
    Prob p;
    p.w = 2 + (int)draw((uint32_t)max_w - 1); p.h = 1 + (int)draw((uint32_t)max_h); p.D = 2; p.maxv = 3;
    // The paths walk over all columns but the last one, whose pixels have a single node. They begin with a node that cannot stay,
    // or at the first pixel: then one of its nodes, once chosen, decides all of them.
    bool corner = chance((uint32_t)corner_num, 4), loop = corner && chance(1, 2);
    if (loop) { p.w = 3 + 2 * (int)draw((uint32_t)(max_w - 1) / 2); p.h = 2 + (int)draw((uint32_t)max_h - 1); }     // through all pixels and back to the second one
    p.L.assign(p.w * p.h, (long)draw(4)); p.R = p.L;
    static const double us[] = {1, 2, 0.5, 8}; double u = us[draw(4)];
    static const double sm[] = {0, 0, 0.125, 0.25};
    p.clean = u; p.smooth = sm[draw(4)] * u; t = u;
    p.has_phi = true; p.phi.assign((size_t)p.nodes() * 4, 0);
    std::vector<int> z(p.w * p.h, -1);
    auto open = [&](int x, int y) { return x >= 0 && y >= 0 && x <= p.w - 2 && y < p.h && z[y * p.w + x] < 0; };
    auto step = [&](int& x, int& y, int d) {
        int X, Y; Prob::nb(x, y, d, X, Y);
        int zn = z[Y * p.w + X] = (int)draw(2), zo = z[y * p.w + x];
        p.ph(X, Y, zn, d ^ 1) -= 0.75 * u; p.ph(x, y, 1 - zo, d) -= 0.75 * u;   // the new node is left with zo only
        x = X; y = Y;
    };
    int paths = 1 + (!corner && chance(1, 4) ? (int)draw(3) : 0), len = 0;
    for (int k = 0; k < paths; ++k) {
        int x = corner ? 0 : p.w - 2, y = corner ? 0 : chance(1, 2) ? p.h - 1 : (int)draw((uint32_t)p.h);
        if (z[y * p.w + x] >= 0) continue;
        z[y * p.w + x] = (int)draw(2); ++len;
        if (!corner) p.ph(x, y, z[y * p.w + x], 0) -= 1.5 * u;
        else if (chance(3, 4)) p.ph(x, y, 1 - z[y * p.w + x], 0) -= 0.125 * u;      // the cheaper one
        int way = (int)draw(3); uint32_t back = 1 + draw(4);
        if (loop) {
            std::vector<int> dirs;
            for (int i = 0; i < p.w - 2; ++i) dirs.push_back(0);
            dirs.push_back(2);
            for (int i = p.w - 2; i >= 0; --i) { for (int j = 0; j < p.h - 2; ++j) dirs.push_back((p.w - 2 - i) % 2 ? 3 : 2); if (i) dirs.push_back(1); }
            for (int d : dirs) step(x, y, d), ++len;
            if (chance(3, 4)) p.ph(x, y, z[y * p.w + x], 0) -= 0.125 * u;     // which would be the cheaper one here
            break;
        }
        for (;;) {
            int c[8], n = 0, least = 9;
            for (int d = 0; d < 4; ++d) {
                int X, Y; Prob::nb(x, y, d, X, Y);
                if (!open(X, Y)) continue;
                // mostly left and up; or where little room is left, which makes the longest paths
                int room = 0; for (int e = 0; e < 4; ++e) { int XX, YY; Prob::nb(X, Y, e, XX, YY); room += open(XX, YY); }
                if (way == 0) { c[n++] = d; if (d == 1 || d == 3) { c[n] = d; n += chance(back - 1, back); } }
                else { if (room < least) { least = room; n = 0; } if (room == least) c[n++] = d; }
            }
            if (!n || chance(1, way ? 100 : 32)) break;
            step(x, y, c[draw((uint32_t)n)]); ++len;
        }
    }
    if (chance(1, 3)) {
        int den = 1 + (int)draw(8);
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) for (int n = 0; n < 4; ++n)
            if (p.exists(x, y, d) && p.has_nb(x, y, n) && chance(1, (uint32_t)den)) p.ph(x, y, d, n) += (double)range(-1, 1) * u / 64;
    }
    if (chance(1, 8)) { double f = ldexp(1, chance(1, 2) ? -20 : 20); rescale(p, f); t *= f; }
    desc("made for %d removals in a row at the threshold %g", len, t);
    describe(p);
    return p;
}
void describe(const Prob& p) {
    if (!verbose) return;
    desc("stereo problem: width %d, height %d, disparity levels %d, maximal intensity %ld, cleanness %g, smoothness %g", p.w, p.h, p.D, p.maxv, p.clean, p.smooth);
    auto row = [&](const char* nm, const std::vector<long>& v) {
        std::string s;
        for (int y = 0; y < p.h; ++y) { if (y) s += " / "; for (int x = 0; x < p.w; ++x) { s += std::to_string(v[y * p.w + x]); s += x + 1 < p.w ? " " : ""; } }
        desc("  %s image: %s", nm, s.c_str());
    };
    row("left", p.L); row("right", p.R);
    if (p.has_phi) {
        std::string s;
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) for (int n = 0; n < 4; ++n) if (p.ph(x, y, d, n) != 0) { char b[64]; snprintf(b, 64, " (%d,%d,%d)->%d:%g", x, y, d, n, p.ph(x, y, d, n)); s += b; }
        desc("  reparametrization:%s", s.c_str());
    }
}
std::string show(const Prob& p, const Avail& a) {
    std::string s;
    for (int y = 0; y < p.h; ++y) { if (y) s += " / "; for (int x = 0; x < p.w; ++x) { s += "{"; for (int d = 0; d < p.D; ++d) if (a[p.idx(x, y, d)]) s += std::to_string(d); s += "}"; } }
    return s;
}
void gen_omp() {
    static const int th[] = {2, 3, 4, 1, 2, 3, 8, 5, 6, 7};
    omp.threads = th[draw(10)];
    if (chance(1, 32)) { static const int many[] = {12, 16, 17, 33, 64, 100}; omp.threads = many[draw(6)]; }
    omp.shrink = chance(1, 8);
    desc("OpenMP threads %d%s", omp.threads, omp.shrink ? ", teams may get fewer" : "");
}
Image make_image(int w, int h, long maxv, const std::vector<long>& data) {
    return Image{(unsigned long)w, (unsigned long)h, (unsigned long)maxv, sp::types::ULONG_ARRAY(data.begin(), data.end())};
}
// a problem object worked on before, now to get another reparametrization
static DisparityGraph* inherited = nullptr;
DisparityGraph* make_graph(const Prob& p) {
    DisparityGraph* g = inherited; inherited = nullptr;
    if (!g) g = new DisparityGraph{make_image(p.w, p.h, p.maxv, p.L), make_image(p.w, p.h, p.maxv, p.R), (unsigned long)p.D, p.clean, p.smooth};
    if (p.has_phi) {
        Harness hs;
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) for (int n = 0; n < 4; ++n)
            g->reparametrization[sp::indexing::reparametrization_index_fast(g, nd(x, y, d), (unsigned long)n)] = p.ph(x, y, d, n);
    }
    return g;
}
GraphPrint fingerprint(const DisparityGraph* g, const LowestPenalties* l) {
    GraphPrint f;
    f.L.assign(g->left.data.begin(), g->left.data.end()); f.R.assign(g->right.data.begin(), g->right.data.end());
    f.dims = {g->left.width, g->left.height, g->left.max_value, g->right.width, g->right.height, g->right.max_value, g->disparity_levels};
    f.phi.assign(g->reparametrization.begin(), g->reparametrization.end());
    f.w = {g->cleanness, g->smoothness};
    if (l) { f.low.assign(l->pixels.begin(), l->pixels.end()); f.lown.assign(l->neighborhoods.begin(), l->neighborhoods.end()); }
    return f;
}

bool prelude(const Prob& p, int ops) {
    if (!(ops & PRE_THRESHOLD ? chance(1, 3) : chance(1, 6))) return false;
    bool keep = chance(1, 3), same = p.has_phi && chance(1, 3);
    desc("before that%s:", same ? ", the same problem object with another reparametrization" : keep ? "" : ", in objects whose memory is used again");
    Prob q;
    if (same) {
        q = p; keep = false;
        if (chance(1, 2)) for (auto& v : q.phi) v = -v; else for (auto& v : q.phi) if (chance(1, 3)) v = 0;
        describe(q);
    } else if (chance(1, 2)) {     // of the same shape
        q = p;
        if (chance(1, 2)) {     // and nearly the same: who looks at less than everything cannot tell them apart
            int k = (int)draw(4);
            if (k == 0) for (int i = 1 + (int)draw(3); i > 0; --i) (chance(1, 2) ? q.L : q.R)[draw((uint32_t)(q.w * q.h))] = (long)draw((uint32_t)q.maxv + 1);
            else if (k == 1) { auto& v = chance(1, 2) ? q.L : q.R; for (int i = 1 + (int)draw(3); i > 0; --i) std::swap(v[draw((uint32_t)v.size())], v[draw((uint32_t)v.size())]); }
            else if (k == 2) q.L.swap(q.R);
            else if (q.has_phi) q.phi[draw((uint32_t)q.phi.size())] = 0;
            else { for (auto& v : q.L) v = q.maxv - v; if (chance(1, 2)) for (auto& v : q.R) v = q.maxv - v; }
            describe(q);
        } else {
        static const long mv[] = {1, 2, 3, 8, 255}; q.maxv = mv[draw(5)];
        for (auto& v : q.L) v = (long)draw((uint32_t)q.maxv + 1);
        for (auto& v : q.R) v = (long)draw((uint32_t)q.maxv + 1);
        static const double ws[] = {1, 2, 0.5, 4}; q.clean = ws[draw(4)]; q.smooth = ws[draw(4)];
        if (q.has_phi) for (auto& v : q.phi) v = -v;
        describe(q); }
    } else { GenOpt o; o.max_w = 6; o.max_h = 5; o.max_nodes = 60; o.single = true; q = gen_problem(o); }
    if (!keep) heap_reuse = true;
    OmpCfg saved = omp; omp.threads = 1 + (int)draw(4); omp.shrink = false;
    double t; { Ref r(q); int m = r.min_index(), n = (int)r.cand.size(); static const int off[] = {0, 1, -1, 3}; t = r.cand[std::max(0, std::min(n - 1, m + off[draw(4)]))]; }
    int which = 0; do which = 1 << draw(5); while (!(ops & which));
    uint64_t s0 = now(); step_slack = (uint64_t)1 << 40;
    inherited = nullptr;
    run_in_fiber("before", [&] {
        using namespace sp::graph::constraint; using namespace sp::labeling::finder;
        Sut s;
        DisparityGraph* g = make_graph(q); LowestPenalties* l = new LowestPenalties{g}; ConstraintGraph* c = new ConstraintGraph{g, l, t};
        switch (which) {
        case PRE_SOLVE: solve_csp(c); break;
        case PRE_JOBS: for (unsigned long j = 0; j < 3; ++j) csp_solution_iteration(c, 3, j); break;
        case PRE_BEST: for (int x = 0; x < q.w; x += 2) choose_best_node(c, Pixel{(unsigned long)x, 0}); break;
        case PRE_THRESHOLD: { auto v = fetch_available_penalties(l); calculate_minimal_consistent_threshold(l, g, v); break; }
        default: solve_csp(c); if (find_labeling(c)) build_disparity_map(c);
        }
        if (!keep) { delete c; delete l; if (same) inherited = g; else delete g; }
    });
    step_slack = now() - s0;
    int seen = omp.max_seen; omp = saved; (void)seen;
    desc("then:"); describe(p);
    return true;
}
