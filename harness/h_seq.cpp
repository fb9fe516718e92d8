// random sequence generators: validity over many requests, exact and statistical uniformity
#define VF_SCRIPTED
#include "vh.h"
#ifdef __SIZEOF_INT128__
#include "grid.h"
#endif
using namespace vf;
using VI = std::vector<Integer>;
static std::string js(const std::vector<i64>& v) { std::string s = "["; for (i64 x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; }
static std::vector<i64> ch(const std::string& s) { std::vector<i64> r; for (unsigned char c : s) r.push_back(c); return r; }
static std::vector<i64> br(const std::string& s) { std::vector<i64> r; for (char c : s) r.push_back(c == '(' ? 1 : c == ')' ? 2 : 3); return r; }
static std::vector<i64> li(const VI& v) { return {v.begin(), v.end()}; }
// runs one request; overload choices by alt
static std::vector<i64> call(const std::string& f, const std::vector<i64>& p, const std::vector<i64>& w, int alt, i64& a) {
	using namespace Random;
	if (f == "distinct") return li(p[1] == 0 and alt & 1 ? distinct(p[0], p[2]) : distinct(p[0], p[1], p[2]));
	if (f == "inc") return li(p[1] == 0 and alt & 1 ? increasing(p[0], p[2]) : increasing(p[0], p[1], p[2]));
	if (f == "dec") return li(p[1] == 0 and alt & 1 ? decreasing(p[0], p[2]) : decreasing(p[0], p[1], p[2]));
	if (f == "mult") return li(p[1] == 0 and alt & 1 ? multiple(p[0], p[2]) : multiple(p[0], p[1], p[2]));
	if (f == "ndec") return li(p[1] == 0 and alt & 1 ? nonDecreasing(p[0], p[2]) : nonDecreasing(p[0], p[1], p[2]));
	if (f == "ninc") return li(p[1] == 0 and alt & 1 ? nonIncreasing(p[0], p[2]) : nonIncreasing(p[0], p[1], p[2]));
	if (f == "perm") return li(p[1] == 0 and alt & 1 ? perm((Integer)p[0]) : perm((Integer)p[0], (Integer)p[1]));
	if (f == "cyc") { VI c(w.begin(), w.end()); return li(p[0] == 0 and alt & 1 ? perm(c) : perm(c, (Integer)p[0])); }
	if (f == "fix") { VI c(w.begin(), w.end()); return li(p[1] == 0 and alt & 1 ? perm((Integer)p[0], c) : perm((Integer)p[0], c, (Integer)p[1])); }
	if (f == "part") return li(p[2] == 1 and alt & 1 ? partition(p[0], p[1]) : partition(p[0], p[1], p[2]));
	if (f == "string") { std::string al; for (i64 x : w) al += (char)x; return ch(al == LOWER and alt & 1 ? string(p[0]) : string(p[0], al)); }
	if (f == "bracket") { if (alt & 1) return br(bracketSequence(p[0])); auto s = bracketSequence(p[0], '<', '>'); for (char& c : s) c = c == '<' ? '(' : c == '>' ? ')' : 'x'; return br(s); }
	if (f == "shuffle") { if (alt % 3 == 0) { std::vector<i64> c = w; Random::shuffle(c); return c; } if (alt % 3 == 1) { std::deque<i64> c(w.begin(), w.end()); Random::shuffle(c.begin(), c.end()); return {c.begin(), c.end()}; }
		if (w.size() == 2) { if (alt & 1) { std::pair<i64, i64> c{w[0], w[1]}; Random::shuffle(c); return {c.first, c.second}; } std::complex<double> c((double)w[0], (double)w[1]); Random::shuffle(c); return {(i64)c.real(), (i64)c.imag()}; }
		std::string s; for (i64 x : w) s += (char)x; Random::shuffle(s); return ch(s); }
	if (f == "rotate") { if (alt & 1) { std::vector<i64> c = w; a = Random::rotate(c); return c; } std::deque<i64> c(w.begin(), w.end()); a = Random::rotate(c.begin(), c.end()); return {c.begin(), c.end()}; }
	if (f == "select") { switch (alt % 5) {
		case 0: { const std::vector<i64> c = w; return {Random::select(c)}; }
		case 1: { std::vector<i64> c = w; i64& x = Random::select(c); i64 v = x; x = -77; if (std::count(c.begin(), c.end(), -77) != 1) return {-77}; return {v}; }
		case 2: { std::deque<i64> c(w.begin(), w.end()); return {Random::select(c.begin(), c.end())}; }
		case 3: { if (w.size() == 3) { i64 c[3] = {w[0], w[1], w[2]}; i64& x = Random::select(c); return {x}; } if (w.size() == 2) { std::pair<i64, i64> c{w[0], w[1]}; return {Random::select(c)}; } std::vector<i64> c = w; return {Random::select(c)}; }
		default: { if (w.size() == 2) { std::complex<double> c((double)w[0], (double)w[1]); return {(i64)Random::select(c)}; } if (w.size() == 3) { const i64 c[3] = {w[0], w[1], w[2]}; return {Random::select(c)}; } std::string s; for (i64 x : w) s += (char)x; return {(i64)(unsigned char)Random::select(s.begin(), s.end())}; } } }
	std::exit(3);
}
static void one(const std::string& f, const std::vector<i64>& p, const std::vector<i64>& w, int alt) {
	std::vector<i64> r; i64 a = 0; int code = outcome([&] { r = call(f, p, w, alt, a); });
	for (i64& x : r) if (x > INT32_MAX or x < INT32_MIN) x = INT32_MIN + 1;
	Ev("one").str("f", f).arr("p", p).arr("w", w).i("alt", alt).b("ok", code == 0).i("a", a).arr("res", r);
}
#ifdef __SIZEOF_INT128__
static void uni(const std::string& f, const std::vector<i64>& p, const std::vector<i64>& w, int alt, u64 M) {
	int K; i64 a; auto h = tally(M, [&] { return js(call(f, p, w, alt, a)); }, K, thorough() ? 3000000 : 300000);
	Ev("tally").str("f", f).arr("p", p).arr("w", w).i("alt", alt).i("words", K).raw("outcomes", keysJson(h)).arr("counts", vals(h));
}
#endif
static void hist(const std::string& f, const std::vector<i64>& p, const std::vector<i64>& w, int alt, int n) {
	std::map<std::string, i64> h; i64 a; for (int i = 0; i < n; i++) h[js(call(f, p, w, alt, a))]++;
	std::string k = "["; std::vector<i64> c; for (auto& [s, x] : h) { if (k.size() > 1) k += ","; k += s; c.push_back(x); }
	Ev("hist").str("f", f).arr("p", p).arr("w", w).i("alt", alt).i("n", n).raw("outcomes", k + "]").arr("counts", c);
}
static void big(Rng& r, const std::string& f, i64 n, i64 lo, i64 hi) {
	VI v; using namespace Random; outcome([&] { v = f == "distinct" ? distinct(n, lo, hi) : f == "inc" ? increasing(n, lo, hi) : f == "dec" ? decreasing(n, lo, hi) : f == "ndec" ? nonDecreasing(n, lo, hi) : f == "ninc" ? nonIncreasing(n, lo, hi) : f == "perm" ? perm(n, lo) : multiple(n, lo, hi); });
	std::vector<std::string> t; for (auto x : v) t.push_back(std::to_string(x)); Ev("big").str("f", f).i("n", n).dec("lo", lo).dec("hi", hi).bytess("res", t);
}
int main(int, char** argv) {
	init0(); Rng r(envSeed() * 31 + 16); bool th = thorough(); std::string mode = argv[1];
	auto words = [&] { std::vector<u64> w; int m = (int)r.in(0, 4), k = (int)r.in(0, 20); for (int i = 0; i < k; i++) w.push_back(m == 0 ? 0 : m == 1 ? ~0ull : r.in(0, 2) ? r.next() : r.in(0, 2) ? 0 : ~0ull); Scripted::set(w); Scripted::filler = r.next(); };
	if (mode == "valid") {
		int n = th ? 6000 : 900;
		for (int i = 0; i < n; i++) {
			int alt = (int)r.in(0, 30);
			for (const char* f : {"distinct", "inc", "dec", "mult", "ndec", "ninc"}) { i64 lo = r.in(0, 2) ? 0 : r.in(-20, 20), k = r.in(-1, 9), hi = lo + (r.in(0, 2) ? k + r.in(-1, 3) : r.in(-2, 40)); words(); one(f, {k, lo, hi}, {}, alt); }
			words(); one("perm", {r.in(-1, 12), r.in(0, 2) ? 0 : r.in(-9, 9)}, {}, alt);
			{ std::vector<i64> c; int k = (int)r.in(0, 5); for (int j = 0; j < k; j++) c.push_back(r.in(0, 12) ? r.in(1, 5) : r.in(-1, 1)); words(); one("cyc", {r.in(0, 2) ? 0 : r.in(-5, 5)}, c, alt); }
			{ i64 k = r.in(0, 20) ? r.in(0, 9) : -1, o = r.in(0, 2) ? 0 : r.in(-5, 5); std::vector<i64> c; int m = (int)r.in(0, 5); for (int j = 0; j < m and k > 0; j++) c.push_back(o + (r.in(0, 12) ? r.in(0, k) : r.in(-2, k + 2))); words(); one("fix", {k, o}, c, alt); }
			{ i64 m = r.in(-1, 6), k = r.in(0, 7), s = r.in(0, 3) ? std::max<i64>(m, 0) * k + r.in(-1, 4) : r.in(-1, 30); words(); one("part", {s, k, m}, {}, alt); }
			{ static const std::vector<std::string> al = {"a", "ab", "xyz", std::string(LOWER), "", "aab", std::string("\0b", 2), "\xff\x80"}; words(); one("string", {r.in(-1, 9)}, ch(r.pick(al)), alt); }
			words(); one("bracket", {r.in(0, 12) ? r.in(0, 9) : -1}, {}, alt);
			std::vector<i64> w; int m = (int)r.in(0, 8); for (int j = 0; j < m; j++) w.push_back(r.in(0, 3) ? 10 + j : r.in(1, 5));
			words(); one("shuffle", {}, w, alt); words(); one("rotate", {}, w, alt); words(); one("select", {}, w, alt);
		}
		for (int i = 0; i < (th ? 400 : 60); i++) for (const char* f : {"distinct", "inc", "dec", "ndec", "ninc", "mult", "perm"}) {
			words(); i64 k = r.in(0, 7), lo = r.pick(std::vector<i64>{INT64_MIN, -5000000000ll, 0, 4294967290ll, INT64_MAX - 60}), span = r.pick(std::vector<i64>{8, 50, 59}); i64 hi = lo + span;
			if (r.in(0, 2) and lo <= 0) hi = lo + r.pick(std::vector<i64>{4294967296ll, INT64_MAX, INT64_MAX - 7, 9007199254740993ll}); if (std::string(f) == "perm") hi = lo + k; big(r, f, k, lo, hi); }
		return 0;
	}
#ifdef __SIZEOF_INT128__
	for (int alt : {0, 1}) {
		for (i64 n = 0; n <= 4; n++) { u64 M = n < 3 ? 2 : n == 3 ? 6 : 12; uni("perm", {n, alt ? 0 : 5}, {}, alt, M); std::vector<i64> w; for (i64 i = 0; i < n; i++) w.push_back(20 + 3 * i); if (alt == 0 or n != 2) uni("shuffle", {}, w, alt, M); }
		uni("shuffle", {}, {7, 7, 9}, alt, 6);
		for (i64 n = 1; n <= 7; n++) { std::vector<i64> w; for (i64 i = 0; i < n; i++) w.push_back(40 + i); uni("rotate", {}, w, alt, (u64)n); for (int s = 0; s < 3; s++) uni("select", {}, w, s, (u64)n); if (n == 3) { uni("select", {}, w, 3, 3); uni("select", {}, w, 4, 3); } }
		for (i64 k = 0; k <= 3; k++) for (i64 x : {0, 1, 2}) { u64 M = 1; for (i64 i = 0; i < k; i++) M = std::lcm(M, (u64)(k + x - i)); i64 lo = alt ? 0 : -3; for (const char* f : {"distinct", "inc", "dec"}) uni(f, {k, lo, lo + k + x}, {}, alt, M); if (x) uni("mult", {k, lo, lo + 2 * x + 1}, {}, alt, (u64)(2 * x + 1)); }
		uni("distinct", {4, alt ? 0 : 2, alt ? 4 : 6}, {}, alt, 12); uni("inc", {2, alt ? 0 : 2, alt ? 5 : 7}, {}, alt, 20);
		for (auto c : std::vector<std::vector<i64>>{{}, {1}, {2}, {1, 1}, {3}, {1, 2}, {2, 1}, {4}, {2, 2}, {1, 3}, {1, 1, 2}, {1, 1, 1, 1}}) { i64 n = 0; for (i64 x : c) n += x; uni("cyc", {alt ? 0 : 2}, c, alt, n < 3 ? 2 : n == 3 ? 6 : 12); }
		for (i64 n = 1; n <= 4; n++) for (int mask = 0; mask < (1 << n); mask++) { i64 o = alt ? 0 : 3; std::vector<i64> c; for (int i = (int)n; i--;) if (mask >> i & 1) c.push_back(o + i); if (mask % 3 == 1) c.push_back(c[0]); uni("fix", {n, o}, c, alt, n < 3 ? 2 : n == 3 ? 6 : 12); }
		for (i64 k = 1; k <= 4; k++) for (i64 m = -1; m <= 2; m++) for (i64 x = m < 1 ? 1 : 0; x <= 3; x++) { i64 n = k * std::max<i64>(m, 0) + x;  i64 free = n - (m - 1) * k - 1; u64 M = 1; for (i64 i = 0; i < k - 1; i++) M = std::lcm(M, (u64)(free - i)); if (std::pow((double)M, (double)(k - 1)) < 280000) uni("part", {n, k, m}, {}, alt, M); }
		for (i64 n = 0; n <= 4; n++) uni("string", {n}, ch("abc"), alt, 3);
		uni("string", {2}, ch("01\xff\x80x"), alt, 5);
		for (i64 n = 0; n <= 2; n++) uni("bracket", {n}, {}, alt, 12);
	}
#endif
	Scripted::set({}); Scripted::filler = envSeed() * 7919 + 17; int n = th ? 600000 : 120000;
	for (i64 b = 2; b <= 5; b++) hist("bracket", {b}, {}, (int)b, n);
	std::vector<i64> w2{3, 8};
	for (int alt : {0, 1, 2, 5}) hist("shuffle", {}, w2, alt, n);
	for (int alt : {0, 1, 3, 4}) hist("select", {}, w2, alt, n);
	hist("perm", {5, 0}, {}, 1, n); hist("shuffle", {}, {1, 2, 3, 4, 5}, 2, n); hist("rotate", {}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 1, n);
	hist("distinct", {3, 0, 6}, {}, 1, n); hist("inc", {4, -2, 6}, {}, 0, n); hist("dec", {4, 0, 8}, {}, 1, n); hist("part", {9, 4, 1}, {}, 0, n); hist("part", {14, 4, 2}, {}, 0, n); hist("part", {4, 4, 0}, {}, 0, n); hist("part", {2, 3, -1}, {}, 0, n);
	hist("cyc", {0}, {2, 3}, 1, n); hist("cyc", {0}, {1, 2, 2}, 1, n); hist("fix", {5, 0}, {2}, 1, n); hist("fix", {6, 1}, {6, 1, 6}, 0, n); hist("string", {3}, ch("abcdef"), 0, n);
}
