#pragma once
#include "rt.h"
#include "model.h"
#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>
#include <pgm_io.hpp>
#include <types.hpp>
#include <memory>
using namespace sim;
using model::Avail; using model::Prob; using model::Ref;
using sp::graph::constraint::ConstraintGraph;
using sp::graph::disparity::DisparityGraph;
using sp::graph::lowest_penalties::LowestPenalties;
using sp::image::Image;
using sp::types::Node; using sp::types::Pixel;

struct GenOpt { int max_w = 6, max_h = 5, max_D = 5; bool phi = true; bool dyadic = true; int max_nodes = 90; bool shapes = false, huge = false; int levels = 66; int phi_den = 4; int exact_w = 0, exact_h = 0, exact_D = 0; bool single = false; /* exact in single precision */ bool rich = false; /* thousands of different deviations */ };
Prob gen_problem(const GenOpt& o);
Prob gen_dead_end(double& t, int max_w, int max_h);   // a problem and a threshold at which consistent nodes need not form a labeling
Prob gen_removals(double& t, int max_w, int max_h, int corner_num /* quarters */);   // a problem and a threshold at which nodes have to be removed one after another
void describe(const Prob& p);
std::string show(const Prob& p, const Avail& a);
void gen_omp();

// the code under test's view of a problem; every object lives on the simulated heap
struct World {
    DisparityGraph* graph = nullptr;
    LowestPenalties* low = nullptr;
};
Image make_image(int w, int h, long maxv, const std::vector<long>& data);   // call inside Sut
DisparityGraph* make_graph(const Prob& p);                                  // call inside Sut
inline Node nd(int x, int y, int d) { return Node{Pixel{(unsigned long)x, (unsigned long)y}, (unsigned long)d}; }
inline Avail avail_of(const Prob& p, const ConstraintGraph* g) {
    Avail a(p.nodes(), 0);
    for (int x = 0; x < p.w; ++x) for (int y = 0; y < p.h; ++y) for (int d = 0; d < p.D; ++d) if (p.exists(x, y, d)) a[p.idx(x, y, d)] = sp::graph::constraint::is_node_available(g, nd(x, y, d)) ? 1 : 0;
    return a;
}
struct GraphPrint { std::vector<unsigned long> L, R, dims; std::vector<double> phi, low, lown, w; bool operator==(const GraphPrint& o) const { return L == o.L && R == o.R && dims == o.dims && phi == o.phi && low == o.low && lown == o.lown && w == o.w; } };
// Sometimes another problem is worked on first, so that a run is not always the first one of its process; true if so
enum { PRE_SOLVE = 1, PRE_JOBS = 2, PRE_BEST = 4, PRE_THRESHOLD = 8, PRE_LABEL = 16 };
bool prelude(const Prob& p, int ops);
GraphPrint fingerprint(const DisparityGraph* g, const LowestPenalties* l);
