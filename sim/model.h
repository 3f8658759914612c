// Reference model: small, naive, independent of the code under test.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>
namespace model {
using std::vector;
struct Prob {
    int w = 2, h = 1, D = 2; long maxv = 1;
    vector<long> L, R;              // row-major
    double clean = 1, smooth = 1;
    bool has_phi = false;
    vector<double> phi;             // [x][y][d][n]
    double& ph(int x, int y, int d, int n) { return phi[((size_t)(x * h + y) * D + d) * 4 + n]; }
    double ph(int x, int y, int d, int n) const { return has_phi ? phi[((size_t)(x * h + y) * D + d) * 4 + n] : 0; }
    int nodes() const { return w * h * D; }
    int idx(int x, int y, int d) const { return (x * h + y) * D + d; }
    bool exists(int x, int y, int d) const { return x >= 0 && y >= 0 && x < w && y < h && d >= 0 && d < D && x + d < w; }
    static void nb(int x, int y, int n, int& X, int& Y) { X = x + (n == 0) - (n == 1); Y = y + (n == 2) - (n == 3); }
    bool has_nb(int x, int y, int n) const { int X, Y; nb(x, y, n, X, Y); return X >= 0 && Y >= 0 && X < w && Y < h; }
    bool edge(int x, int y, int d, int n, int e) const {
        int X, Y; nb(x, y, n, X, Y);
        if (!exists(x, y, d) || !exists(X, Y, e)) return false;
        if (n == 0) return d <= e + 1;
        if (n == 1) return e <= d + 1;
        return true;
    }
    double npen(int x, int y, int d) const {
        double df = (double)R[y * w + x] - (double)L[y * w + x + d];
        double s = clean * df * df;
        for (int n = 0; n < 4; ++n) s += ph(x, y, d, n);
        return s;
    }
    double epen(int x, int y, int d, int n, int e) const {
        int X, Y; nb(x, y, n, X, Y);
        double df = (double)d - (double)e;
        return smooth * df * df - ph(x, y, d, n) - ph(X, Y, e, n ^ 1);
    }
};
typedef vector<char> Avail;
struct Ref {
    Prob p;
    vector<double> np, lowp, lown;      // node penalties, lowest pixel and neighbourhood penalties
    vector<double> ed;                  // deviation of every edge: [node][n][e]
    vector<double> cand;
    bool big;                           // too large to keep the deviations of the edges, and no candidates
    explicit Ref(const Prob& q, bool b = false) : p(q), big(b) {
        np.assign(p.nodes(), 0); lowp.assign(p.w * p.h, 0); lown.assign(p.w * p.h * 4, 0); if (!big) ed.assign((size_t)p.nodes() * 4 * p.D, -1);
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) {
            bool f = true;
            for (int d = 0; d < p.D; ++d) if (p.exists(x, y, d)) {
                double v = np[p.idx(x, y, d)] = p.npen(x, y, d);
                if (f || v < lowp[x * p.h + y]) lowp[x * p.h + y] = v; f = false;
            }
            for (int n = 0; n < 4; ++n) if (p.has_nb(x, y, n)) {
                bool g = true; double lo = 0;
                for (int d = 0; d < p.D; ++d) for (int e = 0; e < p.D; ++e) if (p.edge(x, y, d, n, e)) { double v = p.epen(x, y, d, n, e); if (g || v < lo) lo = v; g = false; }
                lown[(x * p.h + y) * 4 + n] = lo;
                if (big) continue;
                for (int d = 0; d < p.D; ++d) for (int e = 0; e < p.D; ++e) if (p.edge(x, y, d, n, e)) { double v = p.epen(x, y, d, n, e) - lo; ed[((size_t)p.idx(x, y, d) * 4 + n) * p.D + e] = v; cand.push_back(v); }
            }
            for (int d = 0; d < p.D; ++d) if (!big && p.exists(x, y, d)) cand.push_back(np[p.idx(x, y, d)] - lowp[x * p.h + y]);
        }
        std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
    }
    double dev(int x, int y, int d) const { return np[p.idx(x, y, d)] - lowp[x * p.h + y]; }
    bool edge_ok(int x, int y, int d, int n, int e, double t) const { return p.edge(x, y, d, n, e) && (big ? p.epen(x, y, d, n, e) - lown[(x * p.h + y) * 4 + n] : ed[((size_t)p.idx(x, y, d) * 4 + n) * p.D + e]) <= t; }
    Avail initial(double t) const {
        Avail a(p.nodes(), 0);
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) if (p.exists(x, y, d) && dev(x, y, d) <= t) a[p.idx(x, y, d)] = 1;
        return a;
    }
    // greatest set in which every node has an admissible edge into every neighbouring pixel
    Avail gfp(Avail a, double t) const {
        bool ch = true;
        while (ch) {
            ch = false;
            for (int y = p.h - 1; y >= 0; --y) for (int x = p.w - 1; x >= 0; --x) for (int d = 0; d < p.D; ++d) {
                if (!a[p.idx(x, y, d)]) continue;
                bool ok = true;
                for (int n = 0; n < 4 && ok; ++n) {
                    if (!p.has_nb(x, y, n)) continue;
                    int X, Y; Prob::nb(x, y, n, X, Y);
                    bool s = false;
                    for (int e = 0; e < p.D && !s; ++e) s = p.exists(X, Y, e) && a[p.idx(X, Y, e)] && edge_ok(x, y, d, n, e, t);
                    ok = s;
                }
                if (!ok) { a[p.idx(x, y, d)] = 0; ch = true; }
            }
            // a pixel without nodes leaves nothing consistent
            for (int i = 0; i < p.w * p.h; ++i) { bool any = false; for (int d = 0; d < p.D; ++d) any = any || a[i * p.D + d]; if (!any) return Avail(p.nodes(), 0); }
        }
        return a;
    }
    static bool any(const Avail& a) { for (char c : a) if (c) return true; return false; }
    static int count(const Avail& a) { int n = 0; for (char c : a) n += c != 0; return n; }
    bool solvable(double t) const { return any(gfp(initial(t), t)); }
    int min_index() const {
        int lo = 0, hi = (int)cand.size() - 1;
        while (lo < hi) { int m = (lo + hi) / 2; if (solvable(cand[m])) hi = m; else lo = m + 1; }
        return lo;
    }
    double min_threshold() const { return cand[min_index()]; }
    // greedy labeling; empty if some pixel cannot keep any node. retries: how many nodes had to be skipped
    vector<int> label(Avail a, double t, int* retries = nullptr) const {
        vector<int> r(p.w * p.h, -1);
        if (retries) *retries = 0;
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) {
            bool done = false;
            vector<std::pair<double, int>> o;
            for (int d = 0; d < p.D; ++d) if (a[p.idx(x, y, d)]) o.push_back({np[p.idx(x, y, d)], d});
            std::sort(o.begin(), o.end());
            for (auto& k : o) {
                Avail b = a;
                for (int d = 0; d < p.D; ++d) if (d != k.second) b[p.idx(x, y, d)] = 0;
                b = gfp(b, t);
                if (any(b)) { a = b; done = true; break; }
                a[p.idx(x, y, k.second)] = 0;
                if (retries) ++*retries;
            }
            if (!done) return {};
        }
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) if (a[p.idx(x, y, d)]) r[y * p.w + x] = d;
        return r;      // row-major
    }
    double worst(const vector<int>& lab) const { // lab row-major, all existing; -1 if some edge does not exist
        double m = 0;
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) {
            int d = lab[y * p.w + x];
            if (!p.exists(x, y, d)) return -1;
            m = std::max(m, dev(x, y, d));
            for (int n = 0; n < 4; ++n) if (p.has_nb(x, y, n)) {
                int X, Y; Prob::nb(x, y, n, X, Y); int e = lab[Y * p.w + X];
                if (!p.edge(x, y, d, n, e)) return -1;
                m = std::max(m, ed[((size_t)p.idx(x, y, d) * 4 + n) * p.D + e]);
            }
        }
        return m;
    }
    // exact minimum over all labelings by enumeration, -1 if too many
    double brute(long limit) const {
        long tot = 1;
        for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) { int k = std::min(p.D, p.w - x); tot *= k; if (tot > limit) return -1; }
        vector<int> lab(p.w * p.h, 0); double best = -1;
        for (;;) {
            double v = worst(lab);
            if (v >= 0 && (best < 0 || v < best)) best = v;
            int i = 0;
            for (; i < p.w * p.h; ++i) { int x = i % p.w; if (++lab[i] < std::min(p.D, p.w - x)) break; lab[i] = 0; }
            if (i == p.w * p.h) return best;
        }
    }
};
}
