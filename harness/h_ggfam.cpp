#include "gg.h"
using namespace vf;
template<typename G> void fam(const char* f, std::vector<Integer> p, bool dir, const G& g) { Ev("fam").str("f", f).arr("p", p).b("dir", dir).raw("res", gjson(g)); }
template<typename E, bool D> void both(bool th) {
	Integer K = th ? 12 : 7;
	for (Integer n = 0; n <= K; n++) {
		fam("independent", {n}, D, independent<E, D>(n)); fam("clique", {n}, D, clique<E, D>(n)); fam("star", {n}, D, star<E, D>(n)); fam("path", {n}, D, path<E, D>(n));
		for (Integer m = 0; m <= K - 2; m++) fam("bipartite", {n, m}, D, bipartite<E, D>(n, m));
		if (n >= (D ? 2 : 3)) fam("cycle", {n}, D, cycle<E, D>(n));
		if (n <= (th ? 6 : 5)) fam("lattice", {n}, D, booleanLattice<E, D>(n));
	}
	for (Integer n = 0; n <= (th ? 70 : 40); n++) if (n < 20 or n % 7 == 0 or n == 33) fam("rado", {n}, D, rado<E, D>(n));
	for (Integer lv = 2; lv <= 5; lv++) for (Integer c = 1; c <= 4; c++) { if (lv == 5 and c > 2) continue; fam("tree", {lv, c}, D, completeTree<E, D>(lv, c)); }
	for (Integer lv = 2; lv <= (th ? 7 : 6); lv++) fam("tree", {lv, 2}, D, completeTree<E, D>(lv));
}
template<typename E> void undir(bool th) {
	Integer K = th ? 9 : 6; Rng rng(envSeed());
	for (Integer n = 3; n <= K + 3; n++) fam("wheel", {n}, false, wheel<E>(n));
	for (Integer p = 0; p <= K; p++) for (Integer c = 0; c <= K; c++) { if (c >= 1) fam("lolly", {p, c}, false, lolly<E>(p, c)); fam("broom", {p, c}, false, broom<E>(p, c)); }
	for (Integer n = 1; n <= K; n++) { fam("grid", {n, n}, false, grid<E>(n)); for (Integer m = 1; m <= K; m++) fam("grid", {n, m}, false, grid<E>(n, m)); }
	for (Integer d = 0; d <= (th ? 6 : 5); d++) fam("hypercube", {d}, false, hypercube<E>(d));
	auto pr = [](const std::vector<Integer>& c) { Ev("pruefer").arr("p", c).b("dir", false).raw("res", gjson(pruefer<E>(c))); };
	for (Integer len = 0; len <= 3; len++) { Integer n = len + 2, tot = 1; for (int i = 0; i < len; i++) tot *= n; for (Integer m = 0; m < tot; m++) { std::vector<Integer> c; for (Integer x = m, i = 0; i < len; i++, x /= n) c.push_back(x % n); pr(c); } }
	for (int i = 0; i < (th ? 800 : 60); i++) { Integer len = rng.in(4, 12); std::vector<Integer> c; Integer hi = i % 3 == 0 ? 3 : len + 2; for (int j = 0; j < len; j++) c.push_back(rng.in(0, hi)); pr(c); }
}
int main() { init0(); bool th = thorough();
	both<NoData, false>(th); both<NoData, true>(th); both<Integer, false>(th); both<Integer, true>(th);
	undir<NoData>(th); undir<Integer>(th);
	for (Integer k = 1; k <= 31; k++) { auto g = ffWorstcase(k); Ev("ff").i("k", k).i("n", g.nodeCount()).arrs("edges", edgesOf(g)); }
	for (Integer k : {-1, 0, 1, 62, 63, 64, 1000}) { int c = outcome([&]{ ffWorstcase(k); }); Ev("ffbad").i("k", k).b("ok", c == 0); }
	for (Integer k : {-5, 0, 1, 59, 60, 61, 64}) { int c = outcome([&]{ mcmfWorstcase(k); }); Ev("mcmfbad").i("k", k).b("ok", c == 0); }
	for (Integer k = 1; k <= 60; k++) { if (k > 12 and !th and k != 30 and k != 60) continue; auto g = mcmfWorstcase(k); std::vector<std::array<i64, 5>> es;
		for (auto e : g.getEdges()) { i64 c = (*e).first, z = 0; while (c % 2 == 0 and c) { c /= 2; z++; } i64 q = (*e).second + 1, w = 0; while (q > 0 and q % 2 == 0) { q /= 2; w++; } if (q != 1 or c < 0) w = -1; es.push_back({e.from, e.to, c, z, w}); }
		Ev("mcmf").i("k", k).i("n", g.nodeCount()).arrs("edges", es); }
}
