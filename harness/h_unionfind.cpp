#include "vh.h"
#include "graph_val.h"
using namespace vf;
static void all(const UnionFind& u, Integer n) { std::vector<Integer> r; for (Integer i = 0; i < n; i++) r.push_back(u.findSet(i)); Ev("all").arr("reps", r); }
static void rec(Integer n, int k, const UnionFind& u, std::vector<std::pair<Integer,Integer>>& h) {
	if (k == 0) { // replay on a fresh structure
		UnionFind f(n); Ev("new").i("n", n);
		for (auto [a, b] : h) { bool r = f.unionSets(a, b); Ev("join").i("a", a).i("b", b).b("res", r); }
		all(f, n); return; }
	for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) { h.emplace_back(a, b); rec(n, k - 1, u, h); h.pop_back(); }
}
int main() { init0();
	Rng rng(envSeed()); bool th = thorough();
	std::vector<std::pair<Integer,Integer>> h;
	{ UnionFind z(0); Ev("new").i("n", 0); all(z, 0); }
	for (int k = 0; k <= 3; k++) { rec(2, k, UnionFind(2), h); rec(3, k, UnionFind(3), h); }
	rec(4, th ? 4 : 3, UnionFind(4), h);
	for (int it = 0; it < (th ? 4000 : 400); it++) {
		Integer n = rng.in(1, it % 10 == 0 ? 40 : 12); UnionFind u(n); Ev("new").i("n", n);
		int steps = rng.in(1, 3 * n + 5); int mode = rng.in(0, 3);
		for (int s = 0; s < steps; s++) {
			Integer a = rng.in(0, n), b = rng.in(0, n); int op = rng.in(0, 10);
			if (mode == 1) { a = s % n; b = (s + 1) % n; } // chains
			if (mode == 2 and n > 1) { Integer w = 1 << (s % 5); a = (a / (2 * w)) * 2 * w; b = std::min(n - 1, a + w); } // balanced merges: maximal rank
			if (op < 5) { bool r = u.unionSets(a, b); Ev("join").i("a", a).i("b", b).b("res", r); }
			else if (op < 7) { bool r = u.connected(a, b); Ev("conn").i("a", a).i("b", b).b("res", r); }
			else if (op < 9) { Integer r = u.findSet(a); Ev("find").i("a", a).i("res", r); }
			else all(u, n);
		}
		UnionFind c = u; if (n > 1) c.unionSets(0, n - 1); // copies are independent
		all(u, n);
	}
}
