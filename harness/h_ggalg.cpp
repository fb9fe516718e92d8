// graph algebra: all small graphs and random larger ones
#include "gg.h"
using namespace vf;
template<typename E> E mk(i64 x) { if constexpr (std::is_same_v<E, NoData>) return {}; else return (E)x; }
template<typename E, bool DIR> struct Alg {
	using G = GraphDetail::GraphType<E, DIR>;
	static constexpr bool HAS = !std::is_same_v<E, NoData>;
	static Ev ev(const char* op, const std::string& a) { Ev e(op); e.b("dir", DIR).raw("a", a); return e; }
	static void one(const char* op, const G& a, const std::string& aj, const std::string& rj, i64 k = -1) {
		Ev e(op); e.b("dir", DIR).raw("a", aj).i("k", k).raw("res", rj).raw("a2", gjson(a)); }
	static void unary(const G& a, Rng& rng, bool full) {
		std::string aj = gjson(a); Integer lo = a.getMinId(), hi = a.getNextId(), n = a.nodeCount();
		one("compl", a, aj, gjson(a.complement()));
		for (Integer k = 0; k <= (full ? n : 3); k++) { auto r = a.power(k); one("power", a, aj, gjson(r), k); }
		one("trans", a, aj, gjson(a.transitiveClosure()));
		for (int i = 0; i < (full ? 2 : 1); i++) { Integer f = rng.in(lo - 1, hi + 1), t = rng.in(lo - 1, hi + 3); bool ok = false; std::string rj = "{}";
			outcome([&]{ auto r = a.range(f, t); rj = gjson(r); ok = true; });
			Ev e("range"); e.b("dir", DIR).raw("a", aj).i("from", f).i("to", t).b("ok", ok).raw("res", rj).raw("a2", gjson(a)); }
		one("line", a, aj, gjson(a.lineGraph()));
		{ Integer m = rng.in(0, a.edgeCount() + 2); one("sub", a, aj, gjson(a.subgraph(m)), m); }
		if constexpr (DIR) {
			one("undir", a, aj, gjson(a.undirected()));
			G r(a); r.reverse(); one("rev", a, aj, gjson(r));
		} else {
			one("direct", a, aj, gjson(a.directed()), 0);
			one("direct", a, aj, gjson(a.directed([](Integer x, Integer y) { return x < y; })), 1);
			auto odd = [](Integer x, Integer y, const E&) { return (x + y) % 2 != 0; };
			one("direct", a, aj, gjson(a.directed(odd)), (lo >= 0) ? 2 : 2);
			one("direct", a, aj, gjson(a.directed([](Integer, Integer) { return false; })), 4);
			if constexpr (HAS) { one("direct", a, aj, gjson(a.directed([](Integer, Integer, const E& d) { return d > 1; })), 3);
				one("direct", a, aj, gjson(a.directed([](Integer x, Integer, const E& d) { return (x + d) % 2 == 0; })), 5); }
		}
		{ std::vector<Integer> p(n); std::iota(p.begin(), p.end(), lo); for (Integer i = n - 1; i > 0; i--) std::swap(p[i], p[rng.in(0, i + 1)]);
		  G r(a); r.permutate(p); Ev e("perm"); e.b("dir", DIR).raw("a", aj).arr("p", p).raw("res", gjson(r)); }
		if (n <= 4) { G r(a); r.permutate(); Ev e("rperm"); e.b("dir", DIR).raw("a", aj).raw("res", gjson(r)); }
		{ G r(a); r.permutateEdges(); std::vector<Integer> p(n); std::iota(p.begin(), p.end(), lo); Ev e("perm"); e.b("dir", DIR).raw("a", aj).arr("p", p).raw("res", gjson(r)); }
	}
	static void two(const char* op, const G& a, const G& b, const std::string& aj, const std::string& bj, const std::string& rj) {
		Ev e(op); e.b("dir", DIR).raw("a", aj).raw("b", bj).raw("res", rj).raw("a2", gjson(a)); }
	static void binary(const G& a, const G& b) {
		std::string aj = gjson(a), bj = gjson(b);
		two("cart", a, b, aj, bj, gjson(a.cartesian(b)));
		if constexpr (!DIR) { two("tensor", a, b, aj, bj, gjson(a.product(b))); two("strong", a, b, aj, bj, gjson(a.strongProduct(b))); }
		{ G r(a); r.append(b); two("append", a, b, aj, bj, gjson(r)); }
		{ G r(a); r.combine(b); two("comb", a, b, aj, bj, gjson(r)); }
		if (aj == bj) { G r(a); r.append(r); two("append", a, b, aj, bj, gjson(r)); G s(a); s.combine(s); two("comb", a, b, aj, bj, gjson(s)); }
	}
	static std::vector<G> all(Integer n, Integer lo = 0) {
		std::vector<std::pair<Integer, Integer>> ps; for (Integer i = 0; i < n; i++) for (Integer j = 0; j < n; j++) if (DIR ? i != j : i < j) ps.emplace_back(i, j);
		std::vector<G> res;
		for (u64 m = 0; m < (1ull << ps.size()); m++) { G g(lo, lo + n); int c = 0; for (std::size_t k = 0; k < ps.size(); k++) if (m >> k & 1) { auto [x, y] = ps[k]; if (!DIR and (m + k) % 3 == 0) std::swap(x, y); g.addEdge(lo + x, lo + y, mk<E>(c++ % 3)); } res.push_back(g); }
		return res;
	}
	static G rnd(Rng& rng, Integer n, Integer lo) { G g(lo, lo + n); int dens = rng.in(1, 5); for (Integer i = 0; i < n; i++) for (Integer j = 0; j < n; j++) if (i != j and rng.in(0, 6) < dens - (DIR ? 1 : 2)) g.addEdge(lo + i, lo + j, mk<E>(rng.in(0, 4)));
		for (int k = 0; k < 2 and g.edgeCount() > 0; k++) { auto e = g.getEdgeById(rng.in(0, g.edgeCount())); Integer x = e.from, y = e.to; g.eraseEdge(x, y); }
		return g; }
};
template<typename E, bool DIR> void run(Rng& rng, bool th) {
	using A = Alg<E, DIR>;
	for (Integer n = 0; n <= (DIR ? 3 : 4); n++) for (auto& g : A::all(n, n == 3 ? 2 : 0)) A::unary(g, rng, true);
	if (std::is_same_v<E, Integer>) {
		std::vector<typename A::G> s; for (Integer n = 0; n <= 2; n++) for (auto& g : A::all(n, n)) s.push_back(g);
		if constexpr (!DIR) for (auto& g : A::all(3, -1)) s.push_back(g);
		for (auto& a : s) for (auto& b : s) A::binary(a, b);
	}
	for (int i = 0; i < (th ? 500 : 25); i++) {
		Integer lo = rng.in(0, 2) ? 0 : rng.in(0, 5); auto g = A::rnd(rng, rng.in(4, 7), lo); A::unary(g, rng, false);
		auto a = A::rnd(rng, rng.in(1, 5), rng.in(-2, 3)), b = A::rnd(rng, rng.in(1, 4), rng.in(-2, 3)); A::binary(a, b); A::binary(a, a);
	}
}
int main() { init0(); Rng rng(envSeed()); bool th = thorough();
	run<Integer, false>(rng, th); run<Integer, true>(rng, th); run<NoData, false>(rng, th); run<NoData, true>(rng, th);
}
