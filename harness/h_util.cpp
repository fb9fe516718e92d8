// characters, ranges, Thue-Morse and container helpers
#include "vh.h"
using namespace vf;
static Rng R(1);
static std::vector<i64> bytes(const std::string& s) { std::vector<i64> r; for (char c : s) r.push_back((unsigned char)c); return r; }
static std::string nest(const std::vector<i64>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static std::string nest(const std::string& v) { return nest(bytes(v)); }
template<typename T> static std::string nest(const std::deque<T>& v);
template<typename T> static std::string nest(const std::vector<T>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + nest(v[i]); return s + "]"; }
template<typename T> static std::string nest(const std::deque<T>& v) { return nest(std::vector<T>(v.begin(), v.end())); }
static void chars() {
	std::string cl = "["; auto tab = [](auto f) { std::vector<i64> v; for (int c = 0; c < 256; c++) v.push_back((i64)(unsigned char)f((char)c)); return nest(v); };
	cl += tab([](char c) { return isLower(c); }) + "," + tab([](char c) { return isUpper(c); }) + "," + tab([](char c) { return isLetter(c); }) + "," + tab([](char c) { return isDigit(c); }) + "," + tab([](char c) { return isVowel(c); }) + "," + tab([](char c) { return isConsonant(c); }) + "]";
	Ev("chars").raw("class", cl).raw("lower", tab([](char c) { return toLower(c); })).raw("upper", tab([](char c) { return toUpper(c); })).raw("dflt", tab([](char c) { return toDefaultCase(c); })); }
static void str(const std::string& s) { std::vector<i64> r; std::string b = "[";
	auto put = [&](const boolean<char>& x) { b += (b.size() > 1 ? "," : "") + std::string(x ? "true" : "false"); r.push_back(x.hasReason() ? (i64)(unsigned char)*x.reason : -1); };
	put(isLower(s)); put(isUpper(std::string_view(s))); put(isLetter(s)); put(isDigit(s)); put(isVowel(s)); put(isConsonant(s));
	std::string lo = s, up = s, df = s; toLower(lo); toUpper(up); toDefaultCase(df);
	Ev("str").arr("s", bytes(s)).raw("b", b + "]").arr("r", r).arr("lower", bytes(lo)).arr("upper", bytes(up)).arr("dflt", bytes(df)); }
static void strings(int n) { str(""); for (int c = 0; c < 256; c++) str(std::string(1, (char)c));
	const std::string sets[] = {"abcxyz", "ABCXYZ", "aeiou", "AEIOUaeiou", "bcdfgxyz", "BCDFXYZbcd", "0123456789", "abcXYZ", "az09AZ@[`{/: \n\xc3\xa4"};
	for (int i = 0; i < n; i++) { const std::string& s = sets[R.next() % 9]; std::string t; int m = (int)R.in(1, 12); for (int j = 0; j < m; j++) t += s[R.next() % s.size()]; if (R.next() & 1) t[R.next() % t.size()] = R.next() & 1 ? sets[8][R.next() % sets[8].size()] : (char)R.next(); str(t); } }
static void rng(i64 f, i64 t, i64 s, int form = 3) { std::vector<Integer> r; int c = outcome([&] { r = form == 1 ? range(t) : form == 2 ? range(f, t) : range(f, t, s); }); std::vector<std::string> v; for (auto x : r) v.push_back(std::to_string(x)); Ev("range").dec("from", f).dec("to", t).dec("step", s).i("code", c).bytess("v", v); }
static void ranges(int n) {
	for (i64 f = -3; f <= 3; f++) for (i64 t = -4; t <= 4; t++) { for (i64 s = -4; s <= 4; s++) rng(f, t, s); rng(f, t, 1, 2); }
	for (i64 t = -2; t <= 12; t++) rng(0, t, 1, 1); rng(0, INT64_MIN, 1, 1); rng(INT64_MAX, INT64_MIN, 1, 2); rng(INT64_MAX - 5, INT64_MAX, 1, 2);
	const std::vector<i64> e = {INT64_MIN, INT64_MIN + 1, INT64_MIN + 7, -((i64)1 << 62), -1, 0, 1, (i64)1 << 62, INT64_MAX - 7, INT64_MAX - 1, INT64_MAX};
	for (i64 f : e) for (i64 t : e) for (i64 s : {(i64)INT64_MAX, (i64)INT64_MIN + 1, (i64)1 << 60, -((i64)1 << 60), (i64)(INT64_MAX / 3), (i64)-(INT64_MAX / 5), (i64)6148914691236517205, (i64)-4611686018427387904, (i64)4611686018427387904, (i64)0}) rng(f, t, s);
	for (int i = 0; i < n; i++) { i64 f = (i64)(R.next() >> R.in(1, 63)) * (R.next() & 1 ? 1 : -1), s = (i64)(R.next() >> R.in(6, 63)); if (s == 0) s = 1; i64 k = R.in(0, 20); long double end = (long double)f + (long double)s * k; if (R.next() & 1) s = -s, end = (long double)f + (long double)s * k; if (end > 9e18L or end < -9e18L) continue; rng(f, f + s * k + R.in(-1, 2), s); }
	rng(5, INT64_MIN + 9, 1); rng(-5, INT64_MAX - 9, -3); }
static void morse(i64 a, i64 b, bool one = false) { std::vector<Integer> r; int c = outcome([&] { r = one ? thueMorse(b) : thueMorse(a, b); }); std::vector<i64> v(r.begin(), r.end()); Ev("morse").dec("lo", a).dec("hi", b).i("code", c).arr("v", v); }
static void morses() { for (i64 b = -2; b <= 40; b++) morse(0, b, true); for (i64 a = -2; a <= 20; a++) for (i64 b = a - 1; b <= a + 6; b++) morse(a, b); morse(0, 300); morse(INT64_MAX - 30, INT64_MAX); morse(INT64_MIN, 3); morse(-1, INT64_MAX); morse(INT64_MAX, INT64_MAX); morse(5, INT64_MIN);
	for (int i = 0; i < 60; i++) { i64 a = i & 1 ? (i64)(R.next() >> R.in(2, 60)) : ((i64)1 << R.in(3, 62)) - R.in(0, 6); morse(a, a + R.in(1, 12)); } }
template<typename A> static std::vector<i64> vec(const A& a) { std::vector<i64> r; for (auto x : a) r.push_back((i64)x); return r; }
template<typename A, typename B> static void app(A a, const B& b) { auto x = vec(a), y = vec(b); append(a, b); Ev("append").arr("before", x).arr("other", y).b("self", false).b("sorted", std::is_same_v<A, std::multiset<int>>).arr("after", vec(a)).b("kept", vec(b) == y); }
template<typename A> static void appSelf(A a) { auto x = vec(a); append(a, a); Ev("append").arr("before", x).arr("other", x).b("self", true).b("sorted", false).arr("after", vec(a)).b("kept", true); }
static std::vector<int> rv(int n) { std::vector<int> v; int m = (int)R.in(0, n + 1); for (int i = 0; i < m; i++) v.push_back((int)R.in(-9, 10)); return v; }
template<typename T> static std::string flatText(const std::vector<T>& v) { if constexpr (std::is_arithmetic_v<T>) return nest(vec(v)); else return nest(v); }
static void containers(int n) {
	for (int i = 0; i < n; i++) {
		auto a = rv(6), b = rv(6); app(a, b); app(a, std::list<int>(b.begin(), b.end())); app(std::deque<int>(a.begin(), a.end()), b); app(std::list<int>(a.begin(), a.end()), std::deque<int>(b.begin(), b.end()));
		app(a, std::array<int, 3>{1, 2, (int)R.in(0, 5)}); appSelf(a); appSelf(std::deque<int>(a.begin(), a.end())); appSelf(std::list<int>(a.begin(), a.end())); { auto c = a; c.shrink_to_fit(); appSelf(c); }
		std::string s, t; for (int x : a) s += (char)('a' + 9 + x); for (int x : b) t += (char)('a' + 9 + x); { auto x = bytes(s); std::vector<char> vs(s.begin(), s.end()); append(vs, t); Ev("append").arr("before", x).arr("other", bytes(t)).b("self", false).b("sorted", false).arr("after", vec(vs)).b("kept", true); }
		{ std::vector<int> c = a; int raw[3] = {(int)R.in(0, 9), 5, -1}; append(c, raw); Ev("append").arr("before", vec(a)).arr("other", std::vector<i64>{raw[0], 5, -1}).b("self", false).b("sorted", false).arr("after", vec(c)).b("kept", true); }
		std::vector<std::vector<int>> vv; for (int k = (int)R.in(0, 5); k > 0; k--) vv.push_back(rv(4)); std::string text = "["; for (std::size_t k = 0; k < vv.size(); k++) text += (k ? "," : "") + nest(vec(vv[k])); text += "]";
		auto keep = vv; auto f = flatten(vv); Ev("flat").raw("v", text).i("d", 2).raw("res", nest(vec(f))).b("kept", keep == vv);
		auto f3 = flatten(std::vector<std::vector<int>>(vv)); Ev("flat").raw("v", text).i("d", 2).raw("res", nest(vec(f3))).b("kept", true);
		auto f4 = flatten<std::vector<int>>(vv); { std::string r = "["; for (std::size_t k = 0; k < f4.size(); k++) r += (k ? "," : "") + nest(vec(f4[k])); Ev("flat").raw("v", text).i("d", 1).raw("res", r + "]").b("kept", keep == vv); }
		std::vector<std::deque<std::string>> ws; for (int k = (int)R.in(0, 4); k > 0; k--) { ws.emplace_back(); for (int j = (int)R.in(0, 4); j > 0; j--) ws.back().push_back(std::string(R.next() % 4, (char)R.in(97, 123))); }
		auto wk = ws; auto g = flatten<std::string>(ws); Ev("flat").raw("v", nest(ws)).i("d", 2).raw("res", nest(g)).b("kept", wk == ws); auto g2 = flatten(ws); Ev("flat").raw("v", nest(ws)).i("d", 3).raw("res", nest(vec(std::string(g2.begin(), g2.end())))).b("kept", wk == ws); auto g3 = flatten<std::string>(std::move(ws)); Ev("flat").raw("v", nest(wk)).i("d", 2).raw("res", nest(g3)).b("kept", true);
		auto h = flatten(a); Ev("flat").raw("v", nest(vec(a))).i("d", 1).raw("res", nest(vec(h))).b("kept", true);
		std::vector<i64> keys; for (i64 k = -10; k <= 10; k++) keys.push_back(k); auto res = [&](auto&& c, auto conv) { std::string r = "["; for (i64 k : keys) r += std::string(r.size() > 1 ? "," : "") + (contains(c, conv(k)) ? "true" : "false"); Ev("contains").arr("v", vec(a)).arr("keys", keys).raw("res", r + "]"); };
		res(std::set<int>(a.begin(), a.end()), [](i64 k) { return (int)k; }); res(std::unordered_set<i64>(a.begin(), a.end()), [](i64 k) { return k; }); { std::map<std::string, int> m; for (int x : a) m[std::to_string(x)] = 0; res(m, [](i64 k) { return std::to_string(k); }); } res(std::multiset<int>(a.begin(), a.end()), [](i64 k) { return (int)k; });
		// as functions
		{ auto fn = asFunction(a); std::vector<i64> r; for (std::size_t k = 0; k < a.size(); k++) r.push_back(fn(k)); Ev("func").arr("v", vec(a)).arr("res", r); for (int& x : a) x += 100; std::vector<i64> r2; for (std::size_t k = 0; k < a.size(); k++) r2.push_back(fn(k)); Ev("func").arr("v", vec(a)).arr("res", r2); for (int& x : a) x -= 100; }
		{ auto tmp = a; auto fn = asFunction(std::move(tmp)); tmp.assign(a.size(), 77); std::vector<i64> r; for (std::size_t k = 0; k < a.size(); k++) r.push_back(fn(k)); Ev("func").arr("v", vec(a)).arr("res", r); auto il = asFunction({4, 8, 15, 16}); Ev("func").arr("v", std::vector<i64>{4, 8, 15, 16}).arr("res", std::vector<i64>{il(0), il(1), il(2), il(3)}); }
		{ std::list<int> la(a.begin(), a.end()); Ev("short").i("n", (i64)a.size()).i("m", (i64)b.size()).b("s", shorter{}(a, b)).b("l", longer{}(a, b)); Ev("short").i("n", (i64)la.size()).i("m", (i64)t.size()).b("s", shorter{}(la, t)).b("l", longer{}(la, t)); }
		{ std::vector<i64> ops, ra, rb; MinPQ<int> mn; MaxPQ<int> mx; int sz = 0; for (int k = 0; k < 25; k++) if (sz == 0 or R.in(0, 5) < 3) { int x = (int)R.in(-20, 20); ops.push_back(x); mn.push(x); mx.push(x); sz++; } else { ops.push_back(-1000); ra.push_back(mn.top()); mn.pop(); rb.push_back(mx.top()); mx.pop(); sz--; }
			Ev("queue").arr("ops", ops).i("kind", 1).arr("res", ra); Ev("queue").arr("ops", ops).i("kind", 2).arr("res", rb);
			MinPQ<int, std::greater<int>> g; std::vector<i64> rc; for (i64 o : ops) if (o != -1000) g.push((int)o); else { rc.push_back(g.top()); g.pop(); } Ev("queue").arr("ops", ops).i("kind", 2).arr("res", rc); } } }
template<typename T> static void sg(T x) { T r = sign(x); Ev("sign").bytess("xs", std::vector<std::string>{}).raw("x", nest(bytes(std::to_string(x)))).i("r", (i64)r); }
template<typename T> static void ds(T a, T b) { Ev("dist").raw("a", nest(bytes(std::to_string(a)))).raw("b", nest(bytes(std::to_string(b)))).raw("r", nest(bytes(std::to_string(dist(a, b))))); }
static void numbers() {
	for (i64 x : {(i64)0, (i64)1, (i64)-1, (i64)5, (i64)-77, (i64)INT64_MAX, (i64)INT64_MIN}) { sg<Integer>(x); sg<int>((int)x); sg<short>((short)x); sg<signed char>((signed char)x); }
	for (u64 x : {(u64)0, (u64)1, ~(u64)0, (u64)1 << 63, (u64)200}) { sg<UInteger>(x); sg<unsigned>((unsigned)x); sg<unsigned char>((unsigned char)x); }
	for (int x : {0, 3, -3, 1000000}) { Ev("sign").raw("x", nest(bytes(std::to_string(x)))).i("r", (i64)sign((Real)x / 2)); Ev("sign").raw("x", nest(bytes(std::to_string(x)))).i("r", (i64)sign((double)x * 1e-300)); }
	const std::vector<i64> e = {0, 1, -1, 7, -7, INT64_MAX, INT64_MIN, (i64)1 << 62, -((i64)1 << 62), INT32_MAX, INT32_MIN};
	for (i64 a : e) for (i64 b : e) { bool fits = (a >= 0) == (b >= 0) or ((long double)(a > b ? a : b) - (a > b ? b : a) <= 9223372036854775807.0L and (u64)(a > b ? a : b) - (u64)(a > b ? b : a) <= (u64)INT64_MAX); if (fits) ds<Integer>(a, b); ds<UInteger>((u64)a, (u64)b); if (dist<i64>((int)a, (int)b) <= INT32_MAX) ds<int>((int)a, (int)b); ds<unsigned>((unsigned)a, (unsigned)b); } }
// the alphabets, coordinates of anything that has them
static void alphabets() {
	const std::string_view a[] = {LETTER, UPPER, LOWER, VOWEL, UPPER_VOWELS, LOWER_VOWELS, CONSONANT, UPPER_CONSONANT, LOWER_CONSONANT, ALPHA_NUMERIC, UPPER_ALPHA_NUMERIC, LOWER_ALPHA_NUMERIC, DIGITS, BRACKETS};
	for (int k = 0; k < 14; k++) Ev("const").i("k", k + 1).arr("s", bytes(std::string(a[k])));
	Ev("const").i("k", 15).arr("s", std::vector<i64>{(i64)NEWLINE, (i64)SPACE, (i64)NOSEP}); Ev("const").i("k", 16).arr("s", bytes(std::to_string((i64)(PI * 1e15_real)))); }
struct P3 { i64 x, y, z; }; struct P2 { int y; int x; };
template<int D, typename P> static void xyz(P p, const std::vector<i64>& have) { const P c = p; std::vector<i64> got, cgot, after; std::vector<i64> w;
	got.push_back((i64)getX(p)); got.push_back((i64)getY(p)); cgot.push_back((i64)getX(c)); cgot.push_back((i64)getY(c)); if constexpr (D == 3) { got.push_back((i64)getZ(p)); cgot.push_back((i64)getZ(c)); }
	for (int i = 0; i < D; i++) { i64 v = R.in(-99, 100); w.push_back(v); if (i == 0) getX(p) = v; else if (i == 1) getY(p) = v; else if constexpr (D == 3) getZ(p) = v;
		after.push_back((i64)getX(p)); after.push_back((i64)getY(p)); if constexpr (D == 3) after.push_back((i64)getZ(p)); }
	Ev("xyz").arr("p", have).arr("got", got).arr("cgot", cgot).arr("w", w).arr("after", after); }
template<typename T> static void conv(i64 a, i64 b) { std::complex<T> z((T)a, (T)b); auto p = convert(z); auto q = convert(p); Ev("conv").arr("p", std::vector<i64>{a, b}).arr("q", std::vector<i64>{(i64)p.first, (i64)p.second, (i64)q.real(), (i64)q.imag()}); }
static void coords(int n) {
	for (int i = 0; i < n; i++) { i64 a = R.in(-99, 100), b = R.in(-99, 100), c = R.in(-99, 100); std::vector<i64> two{a, b}, three{a, b, c};
		xyz<2>(std::pair<int, i64>((int)a, b), two); xyz<2>(std::pair<Real, Real>((Real)a, (Real)b), two); xyz<2>(std::array<i64, 2>{a, b}, two); xyz<2>(std::tuple<int, Real>((int)a, (Real)b), two); xyz<2>(std::complex<Real>((Real)a, (Real)b), two); xyz<2>(std::complex<double>((double)a, (double)b), two); { P2 p; p.x = (int)a; p.y = (int)b; xyz<2>(p, two); }
		xyz<3>(std::array<i64, 3>{a, b, c}, three); xyz<3>(std::tuple<int, short, i64>((int)a, (short)b, c), three); xyz<3>(P3{a, b, c}, three);
		conv<Real>(a, b); conv<double>(a, b); conv<float>(a, b); { auto q = convert(std::pair<int, double>((int)a, (double)b)); static_assert(std::is_same_v<decltype(q), std::complex<double>>); Ev("conv").arr("p", two).arr("q", std::vector<i64>{a, b, (i64)q.real(), (i64)q.imag()}); }
		i64 d = R.in(-99, 100); auto pr = [&](auto p, auto q, auto o) { Ev("prod").arr("a", two).arr("b", std::vector<i64>{c, d}).arr("o", std::vector<i64>{d, a}).arr("r", std::vector<i64>{(i64)dot(p, q), (i64)cross(p, q), (i64)cross(o, p, q)}).b("kept", getX(p) == a and getY(p) == b and getX(q) == c and getY(q) == d); };
		pr(std::pair<i64, i64>(a, b), std::pair<i64, i64>(c, d), std::pair<i64, i64>(d, a)); pr(std::complex<Real>((Real)a, (Real)b), std::complex<Real>((Real)c, (Real)d), std::complex<Real>((Real)d, (Real)a)); pr(std::array<int, 2>{(int)a, (int)b}, std::array<int, 2>{(int)c, (int)d}, std::array<int, 2>{(int)d, (int)a}); } }
int main(int, char**) { init0(); R = Rng(envSeed() * 1031 + 24); int f = thorough() ? 10 : 1;
	chars(); strings(400 * f); ranges(200 * f); morses(); containers(40 * f); numbers(); alphabets(); coords(40 * f); }
