// predicates on sequences: all call forms, container and value types
#include "vh.h"
using namespace vf;
static Rng R(1);
template<typename B> static std::string ans(const B& b) { std::string s = std::string("{\"b\":") + (b ? "true" : "false") + ",\"r\":["; if (b.hasReason()) s += std::to_string((long long)*b.reason); return s + "]}"; }
template<typename B> static std::string ansW(const B& b) { std::string s = std::string("{\"b\":") + (b ? "true" : "false") + ",\"w\":["; if (b.hasReason()) { std::string t = std::to_string(*b.reason); for (std::size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + std::to_string((int)t[i]); } return s + "]}"; }
static std::string list(const std::vector<std::string>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
template<typename T> struct P { int k; bool operator()(const T& a, const T& b) const { i64 x = (i64)a, y = (i64)b; switch (k) { case 0: return x < y; case 1: return x == y; case 2: return x - y >= -1 and x - y <= 1; case 3: return (x + y) % 2 == 0; case 4: return x == y + 1; case 5: return true; default: return false; } } };
template<typename C> static void seq(const C& c, bool iter) { using T = typename C::value_type;
	std::vector<i64> v; for (auto x : c) v.push_back((i64)x); auto a = std::begin(c), b = std::end(c); Ev e("seq"); e.arr("v", v);
	e.raw("inc", ans(iter ? areIncreasing(a, b) : areIncreasing(c))).raw("nondec", ans(iter ? areNonDecreasing(a, b) : areNonDecreasing(c))).raw("dec", ans(iter ? areDecreasing(a, b) : areDecreasing(c))).raw("noninc", ans(iter ? areNonIncreasing(a, b) : areNonIncreasing(c)));
	e.raw("distinct", ans(iter ? areDistinct(a, b) : areDistinct(c)));
	std::vector<std::string> any, none, all, perm;
	for (int k = 0; k < 7; k++) { P<T> p{k}; any.push_back(ans(iter ? anyAdjacent(a, b, p) : anyAdjacent(c, p))); none.push_back(ans(iter ? noneAdjacent(a, b, p) : noneAdjacent(c, p))); all.push_back(ans(iter ? allAdjacent(a, b, p) : allAdjacent(c, p))); }
	for (int o = -1; o <= 2; o++) { if (std::is_unsigned_v<T> and o < 0) { std::vector<i64> w = v; perm.push_back(ans(isPerm(w, o))); continue; } if (o == 0) perm.push_back(ans(iter ? isPerm(a, b) : isPerm(c))); else perm.push_back(ans(iter ? isPerm(a, b, (T)o) : isPerm(c, (T)o))); }
	e.raw("any", list(any)).raw("none", list(none)).raw("all", list(all)).raw("perm", list(perm)); }
template<typename T> static std::vector<T> as(const std::vector<i64>& v) { return std::vector<T>(v.begin(), v.end()); }
static void forms(const std::vector<i64>& v, int k) { bool neg = false; for (auto x : v) neg |= x < 0;
	switch (k % 12) { case 0: seq(as<Integer>(v), false); break; case 1: seq(as<Integer>(v), true); break; case 2: seq(as<signed char>(v), k & 16); break; case 3: seq(as<int>(v), k & 16); break; case 4: seq(std::deque<Integer>(v.begin(), v.end()), k & 16); break; case 5: seq(std::list<int>(v.begin(), v.end()), k & 16); break;
		case 6: if (not neg) { seq(as<unsigned char>(v), k & 16); break; } seq(as<short>(v), k & 16); break; case 7: if (not neg) { seq(as<std::uint64_t>(v), k & 16); break; } seq(as<long>(v), k & 16); break; case 8: if (not neg) { seq(as<unsigned>(v), k & 16); break; } seq(as<Integer>(v), true); break; case 9: if (not neg) { seq(as<std::uint16_t>(v), k & 16); break; } seq(as<short>(v), true); break;
		case 10: seq(std::set<Integer>(v.begin(), v.end()), k & 16); break; default: if (v.size() == 3) seq(std::array<Integer, 3>{v[0], v[1], v[2]}, k & 16); else if (v.size() == 1) seq(std::array<int, 1>{(int)v[0]}, k & 16); else seq(std::multiset<int>(v.begin(), v.end()), k & 16); } }
static void small() {
	int top = thorough() ? 6 : 5, k = 0;
	for (int n = 0; n <= top; n++) { int lo = n >= 5 ? 0 : -1, b = n >= 5 ? 4 : 5; std::vector<i64> v(n, lo);
		while (true) { if (n <= 2) for (int j = 0; j < 24; j++) forms(v, j); else forms(v, k++); int i = n - 1; while (i >= 0 and ++v[i] == lo + b) v[i--] = lo; if (i < 0) break; } }
	for (int i = 0; i < (thorough() ? 3000 : 400); i++) { int n = (int)R.in(4, 14); std::vector<i64> v; switch (R.in(0, 4)) {
		case 0: for (int j = 0; j < n; j++) v.push_back(R.in(-3, 100)); break; case 1: case 2: { i64 o = R.in(-1, 3); for (int j = 0; j < n; j++) v.push_back(j + o); for (int j = n - 1; j > 0; j--) std::swap(v[j], v[R.next() % (j + 1)]); if (R.next() & 1) v[R.next() % n] = R.in(-1, n + 3); break; }
		default: { for (int j = 0; j < n; j++) v.push_back(3 * j); if (R.next() & 1) std::reverse(v.begin(), v.end()); if (R.in(0, 3)) v[R.next() % n] += R.in(-4, 5); } } for (auto& x : v) x = std::clamp<i64>(x, -1, 120); forms(v, (int)R.in(0, 32)); } }
template<typename A, typename Bc> static std::string both(const A& a, const Bc& b, bool iter) { return ans(iter ? isPerm(a.begin(), a.end(), b.begin(), b.end()) : isPerm(a, b)); }
static void pairs() { int k = 0;
	for (int n = 0; n <= 4; n++) { std::vector<i64> v(n, 0);
		while (true) { std::vector<std::string> w, r; for (int m = std::max(0, n - 1); m <= std::min(n + 1, 4); m++) { if (m != n and n > 2) continue; std::vector<i64> u(m, 0); while (true) { std::string t = "["; for (int j = 0; j < m; j++) t += (j ? "," : "") + std::to_string(u[j]); w.push_back(t + "]");
					bool it = k & 8; switch (k++ % 8) { case 0: case 1: r.push_back(both(v, u, it)); break; case 2: r.push_back(both(as<int>(v), as<Integer>(u), it)); break; case 3: r.push_back(both(std::deque<Integer>(v.begin(), v.end()), u, it)); break; case 4: r.push_back(both(v, std::list<int>(u.begin(), u.end()), it)); break; case 5: r.push_back(both(std::multiset<Integer>(v.begin(), v.end()), u, it)); break; case 6: { std::string a, b; for (auto x : v) a += (char)x; for (auto x : u) b += (char)x; r.push_back(both(a, b, it)); break; } default: r.push_back(both(as<std::uint8_t>(v), as<short>(u), it)); }
					int i = m - 1; while (i >= 0 and ++u[i] == 3) u[i--] = 0; if (i < 0) break; } }
			std::vector<i64> vv = v; Ev("pair").arr("v", vv).raw("w", list(w)).raw("res", list(r));
			int i = n - 1; while (i >= 0 and ++v[i] == 3) v[i--] = 0; if (i < 0) break; } }
	for (int i = 0; i < 200; i++) { std::vector<i64> v, u; int n = (int)R.in(5, 12); for (int j = 0; j < n; j++) v.push_back(R.in(0, 8)); u = v; for (int j = n - 1; j > 0; j--) std::swap(u[j], u[R.next() % (j + 1)]); if (R.next() & 1) u[R.next() % n] = R.in(0, 8); std::string t = "["; for (int j = 0; j < n; j++) t += (j ? "," : "") + std::to_string(u[j]); Ev("pair").arr("v", v).raw("w", "[" + t + "]]").raw("res", "[" + both(v, u, i & 1) + "]"); } }
template<typename T> static void big(int n) { using L = std::numeric_limits<T>;
	auto one = [](const std::vector<T>& v, T off) { std::vector<std::string> t; for (auto x : v) t.push_back(std::to_string(x)); std::string o = std::to_string(off); std::vector<i64> ob; for (char ch : o) ob.push_back(ch);
		Ev e("big"); e.bytess("v", t).arr("off", ob).raw("perm", ansW(isPerm(v, off))).raw("distinct", ansW(areDistinct(v))).raw("inc", ans(areIncreasing(v))).raw("nondec", ans(areNonDecreasing(v))).raw("dec", ans(areDecreasing(v.begin(), v.end()))).raw("noninc", ans(areNonIncreasing(v))); };
	std::vector<T> pool = {L::min(), (T)(L::min() + 1), L::max(), (T)(L::max() - 1), 0, 1, (T)(L::max() / 2), (T)(L::max() / 2 + 1), (T)-1, (T)(L::min() / 2)};
	for (T o : pool) for (T x : pool) { one({x}, o); one({x, o}, o); one({o, x}, x); }
	for (int i = 0; i < n; i++) { std::vector<T> v; int m = (int)R.in(1, 6); T o = R.pick(pool); for (int j = 0; j < m; j++) v.push_back(R.in(0, 3) ? (T)((u64)o + (u64)j) : R.pick(pool)); if (R.next() & 1) std::swap(v[0], v[R.next() % m]); one(v, o); } }
// long sequences with something wrong near one of the ends
static void longOnes(int f) { for (int i = 0; i < 24 * f; i++) { int n = (int)R.pick(std::vector<i64>{129, 200, 257, 300, 520}), k = i % 6; std::vector<i64> v; for (int j = 0; j < n; j++) v.push_back(k == 0 ? j + 1 : k == 1 ? n - j : k == 2 ? j / 2 : k == 3 ? (n - j) / 2 : j);
		if (k >= 4) for (int j = n - 1; j > 0; j--) std::swap(v[j], v[R.next() % (j + 1)]);
		if (i / 6 % 4) { int a = R.in(0, 2) ? n - 1 - (int)R.in(0, 3) : (int)R.in(n / 2, n); v[a] = R.pick(std::vector<i64>{v[0], v[a - 1], (i64)n + 5, v[n / 2]}); }
		switch (R.in(0, 5)) { case 0: seq(as<int>(v), true); break; case 1: seq(as<std::uint16_t>(v), false); break; case 2: seq(std::deque<Integer>(v.begin(), v.end()), false); break; case 3: seq(std::list<short>(v.begin(), v.end()), true); break; default: seq(v, false); } } }
int main(int, char**) { init0(); R = Rng(envSeed() * 1021 + 23); int f = thorough() ? 10 : 1;
	small(); longOnes(f); pairs(); big<Integer>(150 * f); big<int>(60 * f); big<UInteger>(100 * f); big<unsigned>(60 * f); big<short>(60 * f); big<unsigned char>(60 * f); big<signed char>(60 * f); }
