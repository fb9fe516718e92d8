// distributions: range and legality over extreme engine words, exact and statistical shape
#define VF_SCRIPTED
#include "vh.h"
#ifdef __SIZEOF_INT128__
#include "grid.h"
#endif
using namespace vf;
static Rng R(1);
static constexpr Real INF = std::numeric_limits<Real>::infinity(), NaN = std::numeric_limits<Real>::quiet_NaN();
static void words() { std::vector<u64> w; int m = (int)R.in(0, 4), k = (int)R.in(0, 8); for (int i = 0; i < k; i++) w.push_back(m == 0 ? 0 : m == 1 ? ~0ull : R.in(0, 2) ? R.next() : R.pick(std::vector<u64>{0, 1, ~0ull, 1ull << 63, ~0ull >> 1, 1ull << 62, ~0ull - 1})); Scripted::set(w); Scripted::filler = R.next(); }
template<typename F> static void real(const char* f, std::vector<Real> a, F&& g) {
	words(); Real res = 0; int code = outcome([&] { res = g(); }); std::string s = "["; for (Real x : a) { if (s.size() > 1) s += ","; s += num(x); } Ev("real").str("f", f).raw("a", s + "]").i("code", code).raw("res", num(res)); }
template<typename F> static void integ(const char* f, i64 lo, i64 hi, i64 n, Real p, F&& g) {
	words(); Integer res = 0; int code = outcome([&] { res = g(); }); Ev("int").str("f", f).bytess("z", std::vector<std::string>{std::to_string(lo), std::to_string(hi), std::to_string(n)}).raw("p", num(p)).i("code", code).dec("res", (i64)res); }
#ifdef __SIZEOF_INT128__
template<Integer... W> static void discrete(u64 M) {
	const int k = sizeof...(W); std::vector<i64> c(k); std::vector<i64> w{W...}; int code;
	i64 tot = 0; for (i64 x : w) tot += x;
	if (tot == 0) { code = outcome([&] { Random::discrete<W...>(); }); }
	else { code = 0; int K; auto h = tally(M, [&] { return std::to_string(Random::discrete<W...>()); }, K); for (auto& [s, x] : h) { i64 i = std::stoll(s); if (i < 0 or i >= k) code = 9; else c[i] += x; } }
	Ev("discrete").arr("w", w).i("code", code).arr("counts", c);
}
#endif
static void hist(const char* f, std::vector<i64> p, int from, int to, int n, const std::function<i64()>& g) { // g: bin from 1
	std::vector<i64> c(to - from + 1); for (int i = 0; i < n; i++) { i64 b = g(); if (b < from or b > to) b = b < from ? from : to; c[b - from]++; } Ev("hist").str("f", f).arr("p", p).i("from", from).i("to", to).i("n", n).arr("counts", c); }
int main() {
	init0(); R = Rng(envSeed() * 211 + 18); bool th = thorough(); int n = th ? 4000 : 500; using namespace Random;
	const std::vector<Real> ps = {0.5L, 0.25L, 0.1L, 0.9L, 0.999999L, 1e-3L, 1e-9L, 1e-15L, 1e-18L, 1 - 1e-15L, std::nextafter((Real)1, (Real)0), 1e-30L}, odd = {0, 1, -0.1L, 1.1L, -1e-30L, NaN, INF, -INF, 1.0000001L};
	auto P = [&] { return R.in(0, 6) ? R.pick(ps) : R.pick(odd); };
	auto sp = [&]() -> i64 { i64 k = R.in(0, 5); return k == 0 ? (i64)(R.next() >> R.in(1, 63)) : k == 1 ? -(i64)(R.next() >> R.in(1, 63)) : R.in(-20, 20); };
	for (int i = 0; i < n; i++) {
		{ Real m = R.pick(std::vector<Real>{0, 1, -5, 1e9L, 0.3L}), s = R.pick(std::vector<Real>{0, 1, 2, 0.5L, 1e-5L, 1e9L, -1, -1e-9L, NaN}); real("normal2", {m, s}, [&] { return normal(m, s); });
		  Real lo = m - std::fabs(s) * R.in(0, 3), hi = m + std::fabs(s) * R.in(0, 3); int k = (int)R.in(0, 12); if (k == 0) lo = -INF; if (k == 1) hi = INF; if (k == 2) lo = NaN; if (k == 3) hi = NaN; if (k == 4) std::swap(lo, hi); if (k == 5) lo = m, hi = m + std::fabs(s) / 64;
		  if (s == 0 and !(lo <= m and m < hi) and lo < hi) hi = m + 1, lo = m; if (!std::isnan(s) or !(lo < hi)) real("normal4", {lo, hi, m, s}, [&] { return normal(lo, hi, m, s); }); }
		{ Real l = R.pick(std::vector<Real>{1, 0.5L, 3, 1e-6L, 1e6L, 1e-300L, 0, -1, NaN, -1e-9L}); real("exp1", {l}, [&] { return exponential(l); });
		  Real lo = R.pick(std::vector<Real>{0, 1, -7, 1e12L, -1e12L, INF, -INF, NaN}), hi = lo + R.pick(std::vector<Real>{0.5L, 1, 3, INF, NaN, 0, -1}) / (l > 0 ? l : 1); real("exp3", {lo, hi, l}, [&] { return exponential(lo, hi, l); }); }
		{ Real p = P(); if (p > 0 and p < 1e-15L) p = 1e-15L; integ("geo1", 0, 0, 0, p, [&] { return geometric(p); });
		  bool ok = p > 0 and p < 1; if (p == 0) p = -0.5L; i64 len = (i64)(R.pick(std::vector<Real>{0.2L, 1, 5}) / (ok ? p : 1)) + 1, lo = R.in(0, 2) ? sp() : INT64_MIN; if (lo > INT64_MAX - len) lo = INT64_MAX - len; i64 hi = lo + len; if (R.in(0, 9) == 0) hi = lo > INT64_MIN + 5 ? lo - R.in(0, 5) : lo; integ("geo3", lo, hi, 0, p, [&] { return geometric(lo, hi, p); }); }
		{ Real p = P(); i64 k = R.in(0, 4) == 0 ? sp() : R.in(-1, 60); if (R.in(0, 6) == 0) k = R.in(0, 2) ? 1000 : 1000000; integ("bin2", 0, 0, k, p, [&] { return binomial(k, p); });
		  if (k > 1000000) k = 1000000; if (p > 0 and p < 1 and R.in(0, 4)) { i64 mid = (i64)(k * p); i64 lo = mid - R.in(0, 3), hi = mid + R.in(2, 5); integ("bin4", lo, hi, k, p, [&] { return binomial(lo, hi, k, p); }); } else { i64 lo = R.in(-2, 1), hi = R.in(0, 3) ? std::max<i64>(k, 0) + 1 : lo; integ("bin4", lo, hi, k, p, [&] { return binomial(lo, hi, k, p); }); } }
		{ i64 lo = sp(), hi = lo; i64 len = R.in(0, 3) ? R.in(-1, 12) : (i64)(R.next() >> R.in(1, 63)); if (__builtin_add_overflow(lo, len, &hi)) hi = INT64_MAX; i64 k = R.in(0, 8) ? R.in(1, 9) : R.pick(std::vector<i64>{0, -1, -5, 1000, INT64_MAX, 1000000000000});
		  integ("max", lo, hi, k, 0.5L, [&] { return maximum(lo, hi, k); }); integ("min", lo, hi, k, 0.5L, [&] { return minimum(lo, hi, k); }); integ("minmax", lo, hi, k, 0.5L, [&] { return minmax(lo, hi, k); });
		  if (R.in(0, 3) == 0) { integ("max", 0, hi, k, 0.5L, [&] { return maximum(hi, k); }); integ("min", 0, hi, k, 0.5L, [&] { return minimum(hi, k); }); integ("minmax", 0, hi, k, 0.5L, [&] { return minmax(hi, k); }); }
		  integ("max", INT64_MIN, INT64_MAX, k, 0.5L, [&] { return maximum(INT64_MIN, INT64_MAX, k); });
		  integ("min", INT64_MIN, INT64_MAX, k, 0.5L, [&] { return minimum(INT64_MIN, INT64_MAX, k); }); integ("minmax", -5, INT64_MAX, k, 0.5L, [&] { return minmax(-5, INT64_MAX, k); }); }
	}
#ifdef __SIZEOF_INT128__
	discrete<1>(1); discrete<3>(3); discrete<0, 1>(1); discrete<1, 0>(1); discrete<1, 1>(2); discrete<0, 3, 0, 2>(5); discrete<5, 1, 1>(7); discrete<2, 2, 2>(6); discrete<0, 0, 7>(7); discrete<1, 2, 3, 4>(10); discrete<0, 0>(1); discrete<0>(1); discrete<1, 0, 0, 1>(2); discrete<100, 1>(101); discrete<1, 0, 0, 0, 0, 0, 4, 0>(5); discrete<40, 30, 20, 9, 1>(100);
	for (i64 s = 1; s <= 6; s++) for (i64 k = 1; k <= 4; k++) for (int neg = 0; neg < 4; neg++) { i64 lo = neg & 1 ? 0 : -5; int K; bool mx = neg < 2;
		auto h = tally((u64)s, [&] { Integer v = R.in(0, 2) ? (mx ? maximum(lo, lo + s, k) : minimum(lo, lo + s, k)) : minmax(lo, lo + s, mx ? k : -k); return std::to_string(v - lo); }, K);
		std::vector<i64> c(s); for (auto& [t, x] : h) { i64 i = std::stoll(t); if (i >= 0 and i < s) c[i] += x; else c.push_back(x); } Ev("extreme").str("f", mx ? "max" : "min").i("size", s).i("n", k).arr("counts", c); }
#endif
	Scripted::set({}); Scripted::filler = envSeed() * 101 + 3; int N = th ? 200000 : 50000; auto fl = [](Real x) { return (i64)std::floor(x); };
	hist("normal", {}, 1, 14, N, [&] { return fl(normal(0, 1) * 2) + 8; }); hist("normal", {}, 1, 14, N, [&] { return fl((normal(100, 3) - 100) / 3 * 2) + 8; }); hist("normal", {}, 1, 14, N, [&] { return fl(normal(-INF, INF, -4, 0.25L) * 8 + 32) + 8; });
	hist("normal", {}, 6, 9, N, [&] { return fl(normal(-1, 1, 0, 1) * 2) + 8; }); hist("normal", {}, 8, 14, N, [&] { return fl(normal(10, INF, 10, 5) / 5 * 2 - 4) + 8; }); hist("normal", {}, 4, 7, N, [&] { return fl((normal(-12, 0, 0, 6) / 6) * 2) + 8; });
	for (Real l : {1.0L, 0.25L, 40.0L}) { hist("exponential", {}, 1, 10, N, [&] { return fl(exponential(l) * l * 2) + 1; }); hist("exponential", {}, 1, 10, N, [&] { return fl((exponential(-7, INF, l) + 7) * l * 2) + 1; }); hist("exponential", {}, 1, 4, N, [&] { return fl((exponential(3, 3 + 2 / l, l) - 3) * l * 2) + 1; }); }
	for (i64 a : {1, 2, 3}) { Real p = a / 4.0L; hist("geometric", {a, 7}, 1, 7, N, [&] { return std::min<i64>(geometric(p), 6) + 1; }); hist("geometric", {a, 7}, 1, 7, N, [&] { return std::min<i64>(geometric(-4, INT64_MAX, p) + 4, 6) + 1; }); hist("geometric", {a, 7}, 1, 3, N, [&] { return geometric(10, 13, p) - 10 + 1; });
		for (i64 k : {0, 1, 5, 12, 40, 60, 100}) { hist("binomial", {k, a}, 1, (int)k + 1, N, [&] { return binomial(k, p) + 1; }); if (k >= 5) { int m = (int)(k * a / 4); hist("binomial", {k, a}, m, m + 2, N, [&] { return binomial(m - 1, m + 2, k, p) + 1; }); } } }
	for (i64 k : {5, 6, 7}) { hist("max", {k}, 1, 8, N, [&] { return maximum(8, k) + 1; }); hist("min", {k}, 1, 8, N, [&] { return minimum(8, k) + 1; }); hist("max", {k}, 1, 8, N, [&] { return ((minmax(-(1ll << 61), 1ll << 61, k) + (1ll << 61)) >> 59) + 1; }); hist("min", {k}, 1, 8, N, [&] { return ((minmax(-4, 1020, -k) + 4) >> 7) + 1; }); hist("min", {k}, 1, 8, N, [&] { return (minimum(INT64_MIN, INT64_MAX, k) >> 61) + 5; }); hist("max", {k}, 1, 8, N, [&] { return (maximum(INT64_MIN, INT64_MAX, k) >> 61) + 5; }); }
}
