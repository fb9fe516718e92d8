#define VF_SCRIPTED
#include <functional>
#include "gg.h"
#ifdef __SIZEOF_INT128__
#include "grid.h"
#endif
using namespace vf;
template<typename F> void one(const char* f, std::vector<i64> p, bool dir, F&& mk) {
	std::string rj = "{}"; bool ok = false; outcome([&]{ auto g = mk(); rj = gjson(g); ok = true; });
	Ev("one").str("f", f).arr("p", p).b("dir", dir).b("ok", ok).raw("res", rj);
}
template<typename G> std::string rel(const G& g, bool dir) { // canonical edge list
	std::set<std::pair<i64, i64>> s; for (auto e : g.getEdges()) { i64 a = e.from, b = e.to; if (!dir and a > b) std::swap(a, b); s.emplace(a, b); }
	std::string r = "["; for (auto [a, b] : s) { if (r.size() > 1) r += ","; r += "[" + std::to_string(a) + "," + std::to_string(b) + "]"; } return r + "]";
}
#ifdef __SIZEOF_INT128__
template<typename F> void uni(const char* f, std::vector<i64> p, bool dir, u64 M, F&& mk, const std::string& base = "[]") {
	int K; auto h = tally(M, [&]{ return rel(mk(), dir); }, K);
	Ev("tally").str("f", f).arr("p", p).b("dir", dir).i("words", K).i("grid", M).raw("base", base).raw("outcomes", keysJson(h)).arr("counts", vals(h));
}
template<bool D> void uniform(bool th) {
	for (Integer n = D; n <= (th ? 5 : 4); n++) uni("tree", {n}, D, n == 4 ? 4 : n == 5 ? 5 : 6, [&]{ return randomTree<NoData, D>(n); });
	// m edges: ranges lim, lim-1, ..
	for (Integer n = 0; n <= 4; n++) { Integer lim = D ? n * (n - 1) : n * (n - 1) / 2; for (Integer m = 0; m <= lim; m++) {
		u64 M = 1; for (Integer i = 0; i < m; i++) M = std::lcm(M, (u64)(lim - i)); double t = std::pow((double)M, m); if (t > (th ? 2.5e6 : 3e5)) continue;
		uni("graph", {n, m}, D, M, [&]{ return randomGraph<NoData, D>(n, m); }); } }
	for (Integer a = 0; a <= 3; a++) for (Integer b = 0; b <= 3; b++) { Integer lim = (D ? 2 : 1) * a * b; for (Integer m = 0; m <= std::min<Integer>(lim, 3); m++) {
		u64 M = 1; for (Integer i = 0; i < m; i++) M = std::lcm(M, (u64)(lim - i)); double t = std::pow((double)M, m); if (t > (th ? 2.5e6 : 3e5)) continue;
		uni("bip", {a, b, m}, D, M, [&]{ return randomBipartite<NoData, D>(a, b, m); }); } }
	{ auto g = cycle<NoData, D>(5); for (Integer m = 0; m <= 3; m++) uni("sub", {m}, D, m < 2 ? 5 : m == 2 ? 20 : 60, [&]{ return g.subgraph(m); }, rel(g, D)); }
	if constexpr (D) { for (Integer n = 2; n <= 4; n++) { auto g = path<NoData, D>(1); g.combine(independent<NoData, D>(n)); uni("perm", {n}, D, n == 4 ? 12 : 6, [&]{ auto h = g; h.permutate(); return h; }, rel(g, D)); }
		auto g = path<NoData, D>(2); uni("perm", {3}, D, 6, [&]{ auto h = g; h.permutate(); return h; }, rel(g, D)); }
}
#else
template<bool D> void uniform(bool) {}
#endif
template<typename E, bool D> void valid(Rng& rng, int reps) {
	auto words = [&]{ std::vector<u64> w; int mode = rng.in(0, 4), k = rng.in(0, 30); for (int i = 0; i < k; i++) w.push_back(mode == 0 ? 0 : mode == 1 ? ~0ull : rng.in(0, 3) == 0 ? 0 : rng.in(0, 2) ? ~0ull : rng.next()); Scripted::set(w); Scripted::filler = rng.next(); };
	for (int r = 0; r < reps; r++) {
		Integer n = rng.in(0, 9); words();
		if (!D or n > 0) one("tree", {n}, D, [&]{ return randomTree<E, D>(n); });
		Integer lim = D ? n * (n - 1) : n * (n - 1) / 2; Integer m = rng.in(0, 5) == 0 ? rng.in(0, 2) ? lim + rng.in(0, 3) : -1 : rng.in(0, lim + 1); words();
		one("graph", {n, m}, D, [&]{ return randomGraph<E, D>(n, m); });
		Integer a = rng.in(0, 5), b = rng.in(0, 6), l2 = (D ? 2 : 1) * a * b; m = rng.in(0, 6) == 0 ? l2 + rng.in(0, 3) : rng.in(0, l2 + 1); words();
		one("bip", {a, b, m}, D, [&]{ return randomBipartite<E, D>(a, b, m); });
		i64 q = rng.in(0, 5), p = q == 4 ? 1 : rng.in(0, 5) * 2; i64 den = q == 4 ? 1000000000 : 8; words();
		one("graphp", {n, p, den}, D, [&]{ return randomGraph<E, D>(n, (Real)p / den); });
		words(); one("bipp", {a, b, p, den}, D, [&]{ return randomBipartite<E, D>(a, b, (Real)p / den); });
	}
}
template<typename E> void undir(Rng& rng, int reps) {
	for (int r = 0; r < reps; r++) {
		Integer n = rng.in(0, 10); i64 p = rng.in(-1, 10); Scripted::set({}); Scripted::filler = rng.next();
		if (r % 3 == 0) { std::vector<u64> w(60, r % 2 ? ~0ull : 0); for (auto& x : w) if (rng.in(0, 3) == 0) x = rng.next(); Scripted::set(w); }
		one("grow", {n, p, 8}, false, [&]{ return randomGrowingGraph<E>(n, (Real)p / 8); });
		std::vector<Integer> deg(n); Scripted::set({});
		if (r % 2) { for (auto& d : deg) d = rng.in(0, std::max<Integer>(2, n)); }
		else { for (Integer i = 0; i < n; i++) for (Integer j = 0; j < i; j++) if (rng.in(0, 3) == 0) deg[i]++, deg[j]++; if (n and rng.in(0, 6) == 0) deg[rng.in(0, n)] ^= 1; }
		i64 fl = rng.in(0, 4); std::vector<i64> dp(deg.begin(), deg.end());
		one("deg", dp, false, [&]{ return fl == 3 ? randomGraph<E>(deg) : randomGraph<E>(deg, fl * 7); });
	}
	// all short degree sequences
	for (Integer n = 0; n <= 4; n++) { Integer t = 1; for (int i = 0; i < n; i++) t *= n + 1; for (Integer x = 0; x < t; x++) { std::vector<Integer> deg; Integer y = x; for (int i = 0; i < n; i++, y /= n + 1) deg.push_back(y % (n + 1)); one("deg", std::vector<i64>(deg.begin(), deg.end()), false, [&]{ return randomGraph<E>(deg); }); } }
}
template<bool D> void means(Rng& rng) {
	for (int num : {1, 3, 5, 7, 9}) for (int k = 0; k < 2; k++) {
		Scripted::set({}); Scripted::filler = rng.next(); i64 tot = 0, runs = 300, pairs;
		if (k == 0) { pairs = D ? 30 : 15; for (int i = 0; i < runs; i++) tot += randomGraph<NoData, D>(6, num / 10.0_real).edgeCount(); }
		else { pairs = D ? 40 : 20; for (int i = 0; i < runs; i++) tot += randomBipartite<NoData, D>(4, 5, num / 10.0_real).edgeCount(); }
		Ev("mean").i("pairs", pairs).i("runs", runs).i("num", num).i("den", 10).i("total", tot);
	}
}
// each pair separately: how often it is an edge
template<typename F> void pairs(Rng& rng, Integer n, bool dir, F&& mk, std::function<std::pair<i64, i64>(Integer, Integer)> prob) {
	Scripted::set({}); Scripted::filler = rng.next(); i64 runs = 300; std::map<std::pair<Integer, Integer>, i64> c;
	for (int i = 0; i < runs; i++) { auto g = mk(); for (auto e : g.getEdges()) { Integer a = e.from, b = e.to; if (!dir and a > b) std::swap(a, b); c[{a, b}]++; } }
	for (Integer a = 0; a < n; a++) for (Integer b = dir ? 0 : a + 1; b < n; b++) { auto [num, den] = prob(a, b); if (den == 0) continue; Ev("mean").i("pairs", 1).i("runs", runs).i("num", num).i("den", den).i("total", c[{a, b}]); }
}
template<bool D> void pairMeans(Rng& rng) {
	for (i64 num : {1, 2, 4}) {
		pairs(rng, 5, D, [&]{ return randomGraph<NoData, D>(5, num / 5.0_real); }, [&](Integer a, Integer b){ return std::pair<i64, i64>(a == b ? 0 : num, 5); });
		pairs(rng, 5, D, [&]{ return randomBipartite<NoData, D>(2, 3, num / 5.0_real); }, [&](Integer a, Integer b){ return std::pair<i64, i64>((a < 2) == (b < 2) ? 0 : num, 5); });
	}
	if constexpr (!D) {
		pairs(rng, 8, false, [&]{ return randomGrowingGraph(8, 1.0_real); }, [](Integer, Integer){ return std::pair<i64, i64>(1, 2); });
		// node i has floor(u * (i + 1) / 2) earlier neighbours: for odd i uniform in [0, (i + 1) / 2)
		pairs(rng, 8, false, [&]{ return randomGrowingGraph(8, 0.5_real); }, [](Integer, Integer i){ i64 k = (i + 1) / 2; return i % 2 ? std::pair<i64, i64>(k - 1, 2 * i) : std::pair<i64, i64>(0, 0); });
	}
}
int main() { init0(); bool th = thorough(); Rng rng(envSeed());
	int reps = th ? 1500 : 120;
	valid<NoData, false>(rng, reps); valid<Integer, true>(rng, reps); valid<Integer, false>(rng, reps / 2); valid<NoData, true>(rng, reps / 2);
	undir<NoData>(rng, reps * 2); undir<Integer>(rng, reps);
	means<false>(rng); means<true>(rng);
	for (int i = 0; i < (th ? 10 : 2); i++) { pairMeans<false>(rng); pairMeans<true>(rng); }
	uniform<false>(th); uniform<true>(th);
}
