// integers, bits and reals drawn from scripted engine words, word grids and long runs
#define VF_SCRIPTED
#include "vh.h"
#ifdef __SIZEOF_INT128__
#include "grid.h"
#endif
using namespace vf;
static Rng R(1);
static std::string txt(u64 v) { return std::to_string(v); }
static void script(const std::vector<u64>& w) { Scripted::set(w); std::vector<std::string> t; for (u64 x : w) t.push_back(txt(x)); Ev("new").bytess("words", t); }
static i64 used(std::size_t before) { return (i64)(Scripted::pos + Scripted::filled - before); }
static u64 word(u64 s) { // words near the borders of the values of a range of size s
	switch (R.in(0, 8)) {
		case 0: return 0; case 1: return ~0ull; case 2: return 1ull << 63; case 3: return 1ull << R.in(0, 64); case 4: return ~(1ull << R.in(0, 64));
		case 5: case 6: { if (s < 2) return R.next(); u64 v = R.next() % s; long double q = (long double)v / s * 18446744073709551616.0L; return (u64)q + (u64)R.in(-2, 3); }
		default: return R.next(); } }
static i64 bound() { static const std::vector<i64> pool = {0, 1, 2, 3, -1, -2, 5, 10, 1000, -1000, INT32_MAX, (i64)INT32_MAX + 1, (i64)UINT32_MAX, (i64)UINT32_MAX + 1, INT32_MIN, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (i64)1 << 62, -((i64)1 << 62), 3037000500, 6148914691236517205, 4294967291};
	if (R.in(0, 3)) return R.pick(pool) ; return (i64)(R.next() >> R.in(0, 63)) * (R.next() & 1 ? 1 : -1); }
static void integers(int n) {
	for (int i = 0; i < n; i++) {
		i64 lo = bound(), hi = R.in(0, 3) ? (i64)((u64)lo + (u64)R.pick(std::vector<i64>{0, 1, 2, 3, 6, 7, 1000, 4294967296, 4294967297, INT64_MAX, INT64_MAX - 5, (i64)(~0ull), (i64)(~0ull / 3 * 2)})) : bound();
		bool one = R.in(0, 5) == 0; if (one) lo = 0;
		u64 s = (u64)hi - (u64)lo; std::vector<u64> w; int k = (int)R.in(1, 4); for (int j = 0; j < k; j++) w.push_back(word(s));
		if (lo < hi and R.in(0, 2)) { // a word which has to be skipped, if there is one: x*s mod 2^64 < 2^64 mod s
			u64 t = (0 - s) % s; if (t) for (int tries = 0; tries < 200; tries++) { u64 v = R.next() % s; unsigned long long x = 0;
				long double q = ceill((long double)v * 18446744073709551616.0L / s); x = (u64)q; for (int d = -1; d <= 1; d++) if ((x + d) * s < t) { w.insert(w.begin(), x + d); tries = 1000; break; } } }
		script(w);
		for (int j = 0; j < 2; j++) {
			std::size_t before = Scripted::pos + Scripted::filled; Integer res = 0;
			int code = outcome([&] { res = one ? Random::integer(hi) : Random::integer(lo, hi); });
			Ev("int").dec("lo", lo).dec("hi", hi).i("code", code).i("used", used(before)).dec("res", (i64)res);
			if (Scripted::filled or code < 0) break;
		}
		if (Scripted::filled == 0 and Scripted::pos < Scripted::script.size()) { std::size_t b = Scripted::pos; Integer r = Random::integer(); Ev("full").dec("res", (i64)r).i("used", used(b)); }
		if (Scripted::filled == 0 and Scripted::pos < Scripted::script.size()) { std::size_t b = Scripted::pos; bool r = Random::bit(); Ev("bit").b("res", r).i("used", used(b)); }
	} }
static Real rbound() { static const std::vector<long double> pool = {0, 1, -1, 0.5L, 2, 1e-5L, 1e18L, -1e18L, 3, 0.1L, -0.1L, 1e300L, -1e300L, 1e-300L, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<Real>::max(), std::numeric_limits<Real>::lowest(), 1.0000001L};
	int c = (int)R.in(0, 20); if (c == 0) return std::numeric_limits<Real>::infinity(); if (c == 1) return -std::numeric_limits<Real>::infinity(); if (c == 2) return std::numeric_limits<Real>::quiet_NaN();
	if (c == 3) return std::numeric_limits<Real>::epsilon(); return (Real)R.pick(pool); }
static void reals(int n) {
	for (int i = 0; i < n; i++) {
		std::vector<u64> w; int k = (int)R.in(2, 5); for (int j = 0; j < k; j++) w.push_back(R.in(0, 3) ? word(0) : R.pick(std::vector<u64>{0, ~0ull, 1, 1ull << 63, ~0ull - 1023, ~0ull - 1024, 1ull << 62}));
		script(w); int kind = (int)R.in(0, 3); Real lo = rbound(), hi = R.in(0, 4) ? rbound() : std::nextafter(lo, std::numeric_limits<Real>::infinity()); Real res = 0;
		int code = outcome([&] { res = kind == 0 ? Random::real() : kind == 1 ? Random::real(hi) : Random::real(lo, hi); });
		Ev("real").i("kind", kind).raw("lo", num(lo)).raw("hi", num(hi)).i("code", code).raw("res", num(res));
	} }
int main(int, char** argv) { std::string mode = argv[1];
	init0(); R = Rng(envSeed() * 1009 + 14); int f = thorough() ? 8 : 1;
	if (mode == "int") { integers(1500 * f); return 0; }
	if (mode == "real") { reals(1000 * f); return 0; }
#ifdef __SIZEOF_INT128__
	for (i64 s = 1; s <= (thorough() ? 64 : 24); s++) for (i64 lo : {0, -7, 1000000}) for (i64 mul : {1, 3}) {
		int K; auto h = tally((u64)(s * mul), [&] { return txt((u64)(Random::integer(lo, lo + s) - lo)); }, K);
		std::vector<std::pair<i64, i64>> v; for (auto& [k, c] : h) v.push_back({std::stoll(k), c}); std::sort(v.begin(), v.end());
		std::vector<i64> a, b; for (auto& p : v) { a.push_back(p.first + lo); b.push_back(p.second); }
		Ev("grid").i("lo", lo).i("size", s).arr("vals", a).arr("counts", b); }
#endif
	// long runs of an independent engine
	Scripted::set({}); Scripted::filler = envSeed() * 977 + 5;
	auto hist = [&](int bins, int n, auto f) { std::vector<i64> c(bins); for (int i = 0; i < n; i++) c[f()]++; Ev("hist").i("n", n).arr("counts", c); };
	hist(2, 200000, [] { return (int)Random::bit(); });
	hist(16, 64000, [] { return (int)Random::bit() * 8 + (int)Random::bit() * 4 + (int)Random::bit() * 2 + (int)Random::bit(); });
	hist(16, 160000, [] { return (int)std::floor(Random::real() * 16); });
	hist(16, 160000, [] { Real x = Random::real() * 16; return (int)std::floor((x - std::floor(x)) * 16); });
	hist(16, 160000, [] { return (int)std::floor(Random::real((Real)8) * 2); });
	hist(16, 160000, [] { return (int)std::floor((Random::real((Real)-3, (Real)5) + 3) * 2); });
	hist(10, 100000, [] { return (int)Random::integer(-3, 7) + 3; });
	hist(12, 120000, [] { return (int)Random::integer(12); });
	hist(16, 160000, [] { return (int)((UInteger)Random::integer() >> 60); });
	hist(16, 160000, [] { return (int)((UInteger)Random::integer() & 15); });
	hist(15, 150000, [] { return (int)(Random::integer(0, 15ll << 58) >> 58); });
	hist(3, 150000, [] { return (int)(Random::integer(0, 3ll << 61) >> 61); });
}
