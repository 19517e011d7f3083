// contracts of the private steps of the spanning forest search
#include <albatross/Common>
#include <queue>
#define private public
#include <albatross/Graph>
#undef private
namespace vph {
using namespace albatross;
using G = Graph<int>;
using R = KruskalAlgoRunner<int>;
R init(const G &g) { return R(g); }
void merge(R &r, const size_t &o, const size_t &n) { r.merge_trees(o, n); }
size_t find(R &r, const int &x) { return r.find_vertex_or_assert(x).tree; }
G run(R &r) { return r.run(); }
}
