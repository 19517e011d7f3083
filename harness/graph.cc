#include <albatross/Common>
#include <albatross/Graph>
namespace vph {
using namespace albatross;
using E = Edge<int>;
using G = Graph<int>;
bool edge_less(const E &x, const E &y) { return x < y; }
bool edge_equal(const E &x, const E &y) { return x == y; }
std::set<int> vertices(const std::vector<E> &e) { return compute_vertices(e); }
G make(const std::vector<E> &e) { return create_graph(e); }
void add(const E &e, G *g) { add_edge(e, g); }
bool contains(const G &g, const int &v) { return contains_vertex(g, v); }
G min_forest(const G &g) { return minimum_spanning_forest(g); }
G max_forest(const G &g) { return maximum_spanning_forest(g); }
G min_tree(const G &g) { return minimum_spanning_tree(g); }
G max_tree(const G &g) { return maximum_spanning_tree(g); }
std::map<int, std::vector<E>> adjacency(const G &g) { return adjacency_map(g); }
}
