// edit histories of generating graphs; args: [stimulus file]
#include "gg.h"
using namespace vf;
template<typename E> struct Data { static E make(i64 x) { return (E)x; } };
template<> struct Data<NoData> { static NoData make(i64) { return {}; } };
template<typename E, bool DIR> struct Play {
	using G = GraphDetail::GraphType<E, DIR>;
	static constexpr bool HAS = !std::is_same_v<E, NoData>;
	std::array<G, 3> g;
	Play() { Ev("new").b("dir", DIR).b("data", HAS); }
	static i64 val(i64 x) { return HAS ? x : 0; }
	static std::string nums(const std::string& text, bool data) { // text -> json list of number lines
		std::stringstream in(text); std::string s = "["; bool first = true;
		for (std::string line; std::getline(in, line);) {
			std::stringstream ls(line); s += first ? "[" : ",["; bool f2 = true; int c = 0;
			for (std::string t; std::getline(ls, t, ' ');) { s += f2 ? "" : ","; f2 = false; s += t.empty() or t.find_first_not_of("0123456789-") != t.npos ? "-999999" : t; c++; }
			if (!first and !data and c == 2) s += ",0";
			first = false; s += "]";
		}
		return s + "]";
	}
	void obs(int r) {
		G& h = g[r]; const G& c = h; Ev e("obs"); e.i("g", r + 1).i("lo", c.getMinId()).i("next", c.getNextId()).i("n", c.nodeCount()).i("size", c.size()).i("m", c.edgeCount());
		e.arrs("edges", edgesOf(c));
		std::vector<std::array<i64, 3>> ids, fi, cf; std::vector<std::vector<std::array<i64, 3>>> adj; std::vector<i64> deg, degs; std::vector<std::pair<i64, i64>> has;
		for (Integer i = 0; i < c.edgeCount(); i++) ids.push_back(tri(i % 2 ? h.getEdgeById(i) : h.getEdgeById(i)));
		std::string aj = "[";
		for (Integer x = c.getMinId(); x < c.getNextId(); x++) {
			deg.push_back(c.degree(x)); aj += aj.size() > 1 ? ",[" : "["; bool f = true;
			for (auto w : c[x]) { auto t = tri(w); aj += f ? "[" : ",["; f = false; aj += std::to_string(t[0]) + "," + std::to_string(t[1]) + "," + std::to_string(t[2]) + "]"; }
			aj += "]";
			for (Integer y = c.getMinId(); y < c.getNextId(); y++) {
				if (c.hasEdge(x, y)) has.emplace_back(x, y);
				if (auto w = h.findEdge(x, y)) fi.push_back(tri(*w));
				if (auto w = c.findEdge(x, y)) cf.push_back(tri(*w));
			}
		}
		aj += "]";
		for (auto d : c.getDegrees()) degs.push_back((i64)d);
		e.arrs("ids", ids).arr("deg", deg).arr("degs", degs).raw("adj", aj).pairs("has", has).arrs("find", fi).arrs("cfind", cf);
		std::ostringstream os; os << c; e.raw("text", nums(os.str(), HAS));
		std::ostringstream os2; { OutputStream o(os2); o << c; } e.raw("otext", nums(os2.str(), HAS));
	}
	void add(int r, Integer a, Integer b, i64 x) {
		std::array<i64, 3> ret{}; bool dflt = !HAS and (a + b) % 2 == 0;
		int c = outcome([&]{ auto w = dflt ? g[r].addEdge(a, b) : g[r].addEdge(a, b, Data<E>::make(val(x))); ret = tri(w); });
		Ev("add").i("g", r + 1).i("a", a).i("b", b).i("x", val(x)).b("ok", c == 0).arr("ret", ret);
	}
	void erase(int r, Integer a, Integer b) { bool ret = false; int c = outcome([&]{ ret = g[r].eraseEdge(a, b); }); Ev("erase").i("g", r + 1).i("a", a).i("b", b).b("ok", c == 0).b("ret", ret); }
	void step(Rng& rng) {
		int r = rng.in(0, 3) == 0 ? rng.in(0, 3) : 0, o = rng.in(0, 3); G& h = g[r];
		Integer lo = h.getMinId(), n = h.nodeCount();
		auto v = [&]{ return rng.in(0, 12) == 0 ? rng.in(lo - 2, lo + n + 3) : n ? rng.in(lo, lo + n) : lo; };
		int op = rng.in(0, 30);
		if (n == 0 and op > 2) op = 0;
		if (op == 0 or (op == 1 and n == 0)) {
			Integer a = rng.in(-3, 4), b = a + rng.in(rng.in(0, 6) == 0 ? -1 : 0, 6); int how = rng.in(0, 3);
			if (how == 0 and b >= a) { h = G(b - a); b -= a; a = 0; Ev("make").i("g", r + 1).i("a", a).i("b", b).b("ok", true); }
			else if (b >= a) { h = G(a, b); Ev("make").i("g", r + 1).i("a", a).i("b", b).b("ok", true); }
			else Ev("make").i("g", r + 1).i("a", 0).i("b", 0).b("ok", true), h = G();
		} else if (op < 11) add(r, v(), v(), rng.in(0, 5));
		else if (op < 15) erase(r, v(), v());
		else if (op == 15 and h.edgeCount() > 0) { auto e = h.getEdgeById(rng.in(0, h.edgeCount())); Integer a = e.from, b = e.to; bool ret = h.eraseEdge(e); Ev("erase").i("g", r + 1).i("a", a).i("b", b).b("ok", true).b("ret", ret); }
		else if (op == 16) { Integer a = v(), b = v(); bool ret = false; int c = outcome([&]{ ret = h.hasEdge(a, b); }), c2 = outcome([&]{ ret = !!h.findEdge(a, b); }), d = outcome([&]{ (void)h.degree(a); }), d2 = outcome([&]{ (void)h[a]; });
			Ev("probe").i("g", r + 1).i("a", a).i("b", b).b("ok", c == 0 and c2 == 0).b("ok1", d == 0 and d2 == 0).b("ret", ret); }
		else if (op == 17) { Integer a = rng.in(0, h.edgeCount() + 2); int c = outcome([&]{ (void)h.getEdgeById(a); }); Ev("byid").i("g", r + 1).i("a", a).b("ok", c == 0); }
		else if (op == 18 and h.edgeCount() > 0) {
			if constexpr (HAS) { auto e = h.getEdgeById(rng.in(0, h.edgeCount())); i64 x = rng.in(5, 9); bool sw = !DIR and rng.in(0, 2); Integer a = sw ? e.to : e.from, b = sw ? e.from : e.to; int how = rng.in(0, 3);
				if (how == 0) **h.findEdge(a, b) = x; else if (how == 1) *e = x; else for (auto w : h[a]) if (w.to == b) *w = x;
				Ev("set").i("g", r + 1).i("a", a).i("b", b).i("x", x); }
		} else if (op == 19) { if constexpr (HAS) { i64 x = rng.in(10, 14); if (rng.in(0, 2)) { for (auto e : h.getEdges()) *e = x; Ev("setall").i("g", r + 1).i("x", x); } else { Integer a = rng.in(lo, lo + n); for (auto e : h[a]) e.data = x; Ev("setadj").i("g", r + 1).i("a", a).i("x", x); } } }
		else if (op == 20) { Integer x = rng.in(-4, 7); if (rng.in(0, 3) == 0) { x = 0; h.normalize(); } else h.setMinId(x); Ev("minid").i("g", r + 1).i("x", x); }
		else if (op == 21) { if (rng.in(0, 2)) h = g[o]; else if (rng.in(0, 2)) h = g[o].copy(); else { G t(g[o]); h = t; } Ev("copy").i("g", r + 1).i("o", o + 1); }
		else if (op == 22 and std::max(lo + n, g[o].getNextId()) - std::min(lo, g[o].getMinId()) <= 9) { h.combine(g[o]); Ev("comb").i("g", r + 1).i("o", o + 1); }
		else if (op == 23 and n + g[o].nodeCount() <= 9) { h.append(g[o]); Ev("app").i("g", r + 1).i("o", o + 1); }
		else if (op == 24) { if constexpr (DIR) { h.reverse(); Ev("rev").i("g", r + 1); } }
		else if (op == 25) { h.permutateEdges(); Ev("pedges").i("g", r + 1); }
		else if (op == 26) { std::vector<Integer> p(n); std::iota(p.begin(), p.end(), lo); for (Integer i = n - 1; i > 0; i--) std::swap(p[i], p[rng.in(0, i + 1)]); if (rng.in(0, 6) == 0) { int k = rng.in(0, 3); if (k == 0) p.push_back(lo); else if (k == 1) p[0] = lo + n; else p[0] = p[n - 1]; }
			int c = outcome([&]{ h.permutate(p); }); Ev("perm").i("g", r + 1).arr("p", p).b("ok", c == 0); }
		else if (op == 27 and n <= 5) { h.permutate(); Ev("rperm").i("g", r + 1).arrs("edges", edgesOf(h)); }
		else add(r, v(), v(), rng.in(0, 5));
		obs(r);
	}
};
template<typename E, bool DIR> void randomPlay(u64 seed, int cases, int steps) {
	for (int c = 0; c < cases; c++) { Rng rng(seed * 1000003 + c); Play<E, DIR> p; int n = rng.in(2, 7), lo = rng.in(0, 2) ? 0 : rng.in(-4, 5);
		p.g[0] = typename Play<E, DIR>::G(lo, lo + n); Ev("make").i("g", 1).i("a", lo).i("b", lo + n).b("ok", true);
		for (int s = 0; s < steps; s++) p.step(rng); }
}
template<bool DIR> void script(const std::vector<std::array<int, 4>>& ops) {
	Play<Integer, DIR> p; p.g[0] = typename Play<Integer, DIR>::G(3); Ev("make").i("g", 1).i("a", 0).i("b", 3).b("ok", true);
	for (auto o : ops) { if (o[0] == 0) p.add(0, o[1], o[2], o[3]); else p.erase(0, o[1], o[2]); }
	p.obs(0);
}
int main(int argc, char** argv) { init0();
	bool th = thorough(); u64 seed = envSeed();
	if (argc > 1) { std::ifstream f(argv[1]); for (std::string line; std::getline(f, line);) { std::stringstream in(line); int d; in >> d; std::vector<std::array<int, 4>> ops; std::array<int, 4> o; while (in >> o[0] >> o[1] >> o[2] >> o[3]) ops.push_back(o); if (d) script<true>(ops); else script<false>(ops); } }
	int k = th ? 1500 : 160, s = 30;
	// illegal constructor argument
	{ Ev("new").b("dir", false).b("data", false); int c = outcome([&]{ Graph<> x(3, 3); }); Ev("make").i("g", 1).i("a", 3).i("b", 3).b("ok", c == 0); }
	randomPlay<Integer, false>(seed, k, s); randomPlay<Integer, true>(seed + 1, k, s);
	randomPlay<NoData, false>(seed + 2, k, s); randomPlay<NoData, true>(seed + 3, k, s);
}
