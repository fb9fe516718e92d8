// the real random engine: engine words after seeding, and call scripts whose results must depend on the seed alone
#include "vh.h"
#if __cplusplus >= 202002L
#include "graph_gen.h"
#endif
using namespace vf;
static void words(int k) { std::string w = "["; for (int i = 0; i < k; i++) { u64 x = (u64)Random::integer(); if (i) w += ','; w += '['; for (int j = 0; j < 8; j++) { if (j) w += ','; w += std::to_string(x >> (8 * j) & 255); } w += ']'; } Ev("full").raw("w", w + "]"); }
static void seeded(const char* how, const std::string& text) { Ev("seeded").str("how", how).bytes("seed", text); }
template<typename C> static std::string li(const C& c) { std::string s; for (auto x : c) { s += std::to_string((long long)x); s += ' '; } return s; }
static std::string pts(const std::vector<std::pair<Integer, Integer>>& c) { std::string s; for (auto [x, y] : c) s += std::to_string(x) + "," + std::to_string(y) + " "; return s; }
template<typename F> static void call(const char* f, const std::string& a, F&& g) { std::string r; int c = outcome([&] { r = g(); }); Ev("call").str("f", f).str("a", a).i("c", c).str("r", r); }
static std::string J(std::initializer_list<std::string> v) { std::string s; for (auto& x : v) s += x + "|"; return s; } // evaluated in order
static std::string T(Integer x) { return std::to_string(x); }
static void script(u64 id, int len) {
	Rng r(id); using namespace Random;
	auto big = [&] { Integer k = r.in(0, 6); return k == 0 ? (Integer)r.next() : k == 1 ? (Integer)(r.next() >> r.in(1, 64)) : k == 2 ? -(Integer)(r.next() >> r.in(1, 64)) : r.in(-20, 20); };
	for (int i = 0; i < len; i++) switch (r.in(0, 24)) {
		case 0: call("full", "", [&] { return T(integer()); }); break;
		case 1: case 2: { Integer a = big(), b = big(); if (a > b) std::swap(a, b); call("int", T(a) + " " + T(b), [&] { return T(integer(a, b)); }); break; }
		case 3: { Integer b = std::abs(big() / 2) + 1; call("below", T(b), [&] { return T(integer(b)); }); break; }
		case 4: { int k = (int)r.in(1, 90); call("bits", T(k), [&] { std::string s; for (int j = 0; j < k; j++) s += bit() ? '1' : '0'; return s; }); break; }
		case 5: { Integer k = r.in(0, 60); call("string", T(k), [&] { return string(k); }); break; }
		case 6: { Integer k = r.in(0, 40); std::string al("0123456789abcdef", (std::size_t)r.in(1, 17)); call("alphabet", T(k) + " " + al, [&] { return string(k, al); }); break; }
		case 7: { Integer k = r.in(0, 50), o = big() / 4; call("perm", T(k) + " " + T(o), [&] { return li(perm(k, o)); }); break; }
		case 8: { std::vector<Integer> c; for (Integer k = r.in(0, 6); k--;) c.push_back(r.in(1, 7)); call("cycles", li(c), [&] { return li(perm(c, 3)); }); break; }
		case 9: { Integer k = r.in(1, 20); std::vector<Integer> c; for (Integer j = r.in(0, k); j--;) c.push_back(r.in(0, k)); call("fix", T(k) + ": " + li(c), [&] { return li(perm(k, c)); }); break; }
		case 10: { Integer k = r.in(0, 30), a = big() / 4, b = a + k + (r.in(0, 2) ? r.in(0, 5) : std::abs(big() / 4)); call("distinct", T(k) + " " + T(a) + " " + T(b), [&] { return li(distinct(k, a, b)); }); break; }
		case 11: { Integer k = r.in(0, 20), a = big() / 4, b = a + k + 1 + std::abs(big() / 4); call("inc", T(k) + " " + T(a) + " " + T(b), [&] { return J({li(increasing(k, a, b)), li(decreasing(k, a, b))}); }); break; }
		case 12: { Integer k = r.in(0, 20), a = big() / 4, b = a + 1 + std::abs(big() / 4); call("mult", T(k) + " " + T(a) + " " + T(b), [&] { return J({li(multiple(k, a, b)), li(nonDecreasing(k, a, b)), li(nonIncreasing(k, a, b))}); }); break; }
		case 13: { Integer k = r.in(1, 9), m = r.in(0, 4), n = k * std::max<Integer>(m, 1) + r.in(0, 30); call("part", T(n) + " " + T(k) + " " + T(m), [&] { return li(partition(n, k, m)); }); break; }
		case 14: { Integer k = r.in(0, 40); call("bracket", T(k), [&] { return bracketSequence(k); }); break; }
		case 15: { std::vector<i64> c; for (Integer k = r.in(1, 40); k--;) c.push_back(r.in(0, 100)); call("shuffle", li(c), [&] { auto d = c; shuffle(d); std::deque<i64> e(d.begin(), d.end()); i64 a = rotate(e); return li(d) + "|" + T(a) + "|" + li(e) + "|" + T(select(c)); }); break; }
		case 16: { std::pair<Integer, Integer> p{r.in(0, 9), r.in(9, 20)}; call("pair", T(p.first) + " " + T(p.second), [&] { auto q = p; shuffle(q); return T(q.first) + " " + T(select(p)); }); break; }
		case 17: { Integer n = r.in(3, 20), d = r.in(20, 2000); call("convex", T(n) + " " + T(d), [&] { return pts(convex(n, d)); }); break; }
		case 18: { Integer n = r.in(0, 20), d = r.in(20, 2000); call("noncol", T(n) + " " + T(d), [&] { return pts(nonCollinearPoints(n, d)); }); break; }
		case 19: call("discrete", "", [&] { std::string s; for (int j = 0; j < 20; j++) s += T(discrete<3, 0, 5, 1>()); return s; }); break;
		case 20: { Integer a = r.in(0, 1000), b = a + 200 + r.in(0, 100000); call("prime", T(a) + " " + T(b), [&] { return T(prime(a, b)); }); break; }
		case 21: { Integer a = big() / 4, b = a + 1 + std::abs(big() / 4), n = r.in(1, 5); call("minmax", T(a) + " " + T(b) + " " + T(n), [&] { return J({T(minimum(a, b, n)), T(maximum(a, b, n)), T(minmax(a, b, n)), T(minmax(a, b, -n))}); }); break; }
		case 22: { std::string s; for (Integer k = r.in(1, 20); k--;) s += (char)('a' + r.in(0, 26)); call("text", s, [&] { std::string t = s; shuffle(t); std::string u = t; rotate(u.begin(), u.end()); return t + "|" + u + "|" + select(s); }); break; }
		default: { int k = (int)r.in(1, 12); call("throw", T(k), [&]() -> std::string { for (int j = 0; j < k; j++) integer(j + 1); if (k & 1) integer(5, 5); return T(integer(1000)); }); }
	}
}
#if __cplusplus >= 202002L
template<typename G> static std::string gs(const G& g) { std::string s = T(g.getMinId()) + "+" + T(g.nodeCount()) + ":"; for (auto e : g.getEdges()) s += T(e.from) + "-" + T(e.to) + " "; return s; }
template<bool D> static void graphs(Rng& r, int k) {
	using GraphDetail::NoData;
	switch (k) {
		case 0: { Integer n = r.in(1, 40); call("tree", T(n), [&] { return gs(randomTree<NoData, D>(n)); }); break; }
		case 1: { Integer n = r.in(2, 25), m = r.in(0, n * (n - 1) / 2 + 1); call("graph", T(n) + " " + T(m), [&] { return gs(randomGraph<NoData, D>(n, m)); }); break; }
		case 2: { Integer a = r.in(0, 9), b = r.in(0, 9), m = r.in(0, a * b + 1); call("bip", T(a) + " " + T(b) + " " + T(m), [&] { return gs(randomBipartite<NoData, D>(a, b, m)); }); break; }
		case 3: { Integer n = r.in(3, 20), m = r.in(0, n); call("sub", T(n) + " " + T(m), [&] { auto g = path<NoData, D>(n); g.permutate(); auto h = g.subgraph(m); h.permutateEdges(); return gs(g) + "|" + gs(h); }); break; }
		default: { std::vector<Integer> deg(r.in(1, 12), 0); for (std::size_t i = 0; i < deg.size(); i++) for (std::size_t j = 0; j < i; j++) if (r.in(0, 3) == 0) deg[i]++, deg[j]++; call("deg", li(deg), [&] { return gs(randomGraph<NoData>(deg)); }); }
	}
}
static void graphScript(u64 id, int len) { Rng r(id); for (int i = 0; i < len; i++) { int k = (int)r.in(0, 5); if (r.in(0, 2)) graphs<false>(r, k); else graphs<true>(r, k); } }
#endif
int main(int argc, char** argv) {
	bool th = thorough(); Rng r(envSeed() * 131 + 15);
	if (argc > 1 and std::string(argv[1]) == "flag") { // h flag <mode> <generator arguments...>: a fresh process
		std::vector<char*> a{argv[0]}; for (int i = 3; i < argc; i++) a.push_back(argv[i]); std::string mode = argv[2];
		std::string s; for (int i = 3; i + 1 < argc; i++) if (std::string(argv[i]) == "--seed") s = argv[i + 1];
		Ev("new").i("id", -1); a.push_back(nullptr);
		if (mode == "before") { seeded("default", ""); words(5); } // drawn before init
		initGenerator((int)a.size() - 1, a.data());
		if (s.empty()) { if (mode != "before") seeded("default", ""); } else seeded("flag", s);
		words(4); words(311); words(1); words(200); return 0;
	}
	init0();
	for (int i = 0; i < (th ? 25 : 5); i++) { Ev("new").i("id", -2 - i); for (int j = 0; j < 3; j++) { u64 s = r.in(0, 4) == 0 ? (u64)r.pick(std::vector<i64>{0, 1, -1, INT64_MIN, INT64_MAX}) : r.next() >> r.in(0, 64); Random::seed(s); seeded("call", std::to_string(s)); words((int)r.in(1, 300)); if (j == 1) { words(312); words(150); } } }
	std::vector<u64> seeds; for (int i = 0; i < (th ? 60 : 16); i++) seeds.push_back(r.next() >> (i % 3 * 20));
	for (std::size_t i = 0; i < seeds.size(); i++) { Ev("new").i("id", (i64)i); for (int rep = 0; rep < 2; rep++) { Random::seed(seeds[i]); Ev("run").str("cfg", VF_CFG); script(seeds[i] ^ 77, th ? 120 : 60); if (rep == 0) Random::integer(); } }
#if __cplusplus >= 202002L
	for (std::size_t i = 0; i < seeds.size(); i++) { Ev("new").i("id", (i64)(1000 + i)); for (int rep = 0; rep < 2; rep++) { Random::seed(seeds[i]); Ev("run").str("cfg", VF_CFG); graphScript(seeds[i] ^ 78, 20); } }
#endif
}
