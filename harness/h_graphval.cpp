#include "vh.h"
#include "graph_val.h"
using namespace vf;
template<typename G> void obs(const G& g, Integer l, Integer r) {
	constexpr bool D = std::is_same_v<G, DiGraph>;
	Ev e("obs");
	e.i("n", g.nodeCount()).i("size", g.size()).i("m", g.edgeCount());
	std::vector<std::vector<Integer>> adj, inn; std::vector<Integer> deg, ideg; std::vector<std::pair<Integer,Integer>> has, pairs, rev;
	for (Integer x = l; x < r; x++) {
		adj.emplace_back(g[x].begin(), g[x].end());
		if constexpr (D) { deg.push_back(g.outDegree(x)); ideg.push_back(g.inDegree(x)); inn.emplace_back(g.inEdges(x).begin(), g.inEdges(x).end()); }
		else deg.push_back(g.degree(x));
		for (Integer y = l; y < r; y++) {
			if (g.hasEdge(x, y)) has.emplace_back(x, y);
			if constexpr (D) { if (g.hasReverse(x, y)) rev.emplace_back(x, y); }
			else if (const_cast<G&>(g).areConnected(x, y)) pairs.emplace_back(x, y);
		}
	}
	e.arrs("adj", adj).arr("deg", deg).pairs("has", has);
	std::vector<Integer> loop; if (g.hasSelfloop()) loop.push_back(*g.hasSelfloop());
	std::vector<std::pair<Integer,Integer>> multi; if (g.hasMultiedge()) multi.push_back(*g.hasMultiedge());
	e.arr("loop", loop).pairs("multi", multi);
	if constexpr (D) {
		std::vector<std::vector<Integer>> dag; if (auto d = g.isDAG()) dag.push_back(*d);
		std::vector<Integer> root; if (auto d = g.isTree()) root.push_back(*d);
		e.arrs("inn", inn).arr("ideg", ideg).pairs("rev", rev).arrs("dag", dag).arr("root", root);
	} else e.b("conn", g.isConnected()).b("forest", g.isForest()).b("tree", g.isTree()).b("bip", g.isBipartite()).pairs("pairs", pairs);
}
template<typename G> void play(Integer l, Integer r, const std::vector<std::pair<Integer,Integer>>& es, bool shortForm, std::size_t from = 0) {
	Ev("new").i("l", l).i("r", r).b("dir", std::is_same_v<G, DiGraph>);
	G g = shortForm ? G(r) : G(l, r);
	if (from == 0) obs(g, l, r);
	std::size_t i = 0;
	for (auto [a, b] : es) { g.addEdge(a, b); Ev("add").i("a", a).i("b", b); if (i++ >= from) obs(g, l, r); }
}
template<typename G> void all(Integer l, Integer r, std::size_t k, std::vector<std::pair<Integer,Integer>>& cur) {
	play<G>(l, r, cur, false, cur.empty() ? 0 : cur.size() - 1);
	if (cur.size() == k) return;
	for (Integer a = l; a < r; a++) for (Integer b = l; b < r; b++) { cur.emplace_back(a, b); all<G>(l, r, k, cur); cur.pop_back(); }
}
int main() { init0();
	Rng rng(envSeed());
	bool th = thorough();
	std::vector<std::pair<Integer,Integer>> cur;
	all<Graph>(0, 0, 0, cur); all<DiGraph>(0, 0, 0, cur);
	all<Graph>(0, 1, 3, cur); all<DiGraph>(-1, 0, 3, cur);
	all<Graph>(1, 3, 3, cur); all<DiGraph>(1, 3, 4, cur);
	all<Graph>(0, 3, th ? 4 : 3, cur); all<DiGraph>(2, 5, th ? 4 : 3, cur);
	for (int it = 0; it < (th ? 6000 : 500); it++) {
		Integer n = rng.in(2, 7), l = rng.in(0, 3) == 0 ? 0 : rng.in(-5, 6), r = l + n, m = rng.in(1, 2 * n);
		std::vector<std::pair<Integer,Integer>> es;
		int kind = rng.in(0, 5);
		std::vector<Integer> perm(n); std::iota(perm.begin(), perm.end(), l); for (Integer i = n - 1; i > 0; i--) std::swap(perm[i], perm[rng.in(0, i + 1)]);
		if (kind == 0) for (Integer i = 1; i < n; i++) { Integer p = rng.in(0, i); es.emplace_back(perm[p], perm[i]); } // (rooted) tree
		else if (kind == 1) { for (Integer i = 0; i < m; i++) { Integer a = rng.in(0, n), b = rng.in(0, n); if (a == b) continue; if (a > b) std::swap(a, b); es.emplace_back(perm[a], perm[b]); } } // DAG
		else if (kind == 2) { for (Integer i = 0; i < m; i++) { Integer a = rng.in(0, n), b = rng.in(0, n); if ((a & 1) == (b & 1)) continue; es.emplace_back(perm[a], perm[b]); } } // bipartite
		else if (kind == 3) { for (Integer i = 0; i < n; i++) es.emplace_back(perm[i], perm[(i + 1) % n]); } // cycle
		else for (Integer i = 0; i < m; i++) es.emplace_back(rng.in(l, r), rng.in(l, r));
		for (Integer i = (Integer)es.size() - 1; i > 0; i--) std::swap(es[i], es[rng.in(0, i + 1)]);
		if (rng.in(0, 4) == 0 and !es.empty()) es.push_back({rng.in(l, r), rng.in(l, r)});
		play<Graph>(l, r, es, l == 0); play<DiGraph>(l, r, es, l == 0);
	}
}
