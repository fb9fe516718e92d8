// values and joins of many types written to output streams
#include "vh.h"
using namespace vf;
static std::string bj(std::string_view s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ','; r += std::to_string((int)c); } return r + "]"; }
// the tree of a value
template<typename T> std::string T_(const T& x);
template<typename R> std::string seqOf(const R& r) { std::string s = "["; for (auto&& e : r) { if (s.size() > 1) s += ','; s += T_(static_cast<const typename std::decay_t<R>::value_type&>(e)); } return s + "]"; }
template<typename T> struct isSeq : std::false_type {};
template<typename... A> struct isSeq<std::vector<A...>> : std::true_type {}; template<typename... A> struct isSeq<std::list<A...>> : std::true_type {};
template<typename... A> struct isSeq<std::deque<A...>> : std::true_type {}; template<typename... A> struct isSeq<std::set<A...>> : std::true_type {};
template<typename... A> struct isSeq<std::multiset<A...>> : std::true_type {}; template<typename... A> struct isSeq<std::map<A...>> : std::true_type {};
template<typename A, std::size_t N> struct isSeq<std::array<A, N>> : std::true_type {}; template<typename... A> struct isSeq<std::forward_list<A...>> : std::true_type {};
template<typename T> struct isTup : std::false_type {}; template<typename... A> struct isTup<std::tuple<A...>> : std::true_type {}; template<typename A, typename B> struct isTup<std::pair<A, B>> : std::true_type {};
template<typename T> std::string elems(const T& x) {
	if constexpr (isTup<T>{}) { std::string s = "["; std::apply([&](auto&&... a) { ((s += (s.size() > 1 ? "," : "") + T_(a)), ...); }, x); return s + "]"; }
	else if constexpr (std::is_same_v<T, std::vector<bool>>) { std::string s = "["; for (bool b : x) { if (s.size() > 1) s += ','; s += T_(b); } return s + "]"; }
	else return seqOf(x); }
template<typename T> std::string T_(const T& x) {
	if constexpr (std::is_same_v<T, bool>) return std::string("{\"t\":\"bool\",\"v\":") + (x ? "true" : "false") + "}";
	else if constexpr (std::is_same_v<T, char>) return "{\"t\":\"text\",\"b\":" + bj(std::string_view(&x, 1)) + "}";
	else if constexpr (std::is_integral_v<T>) return "{\"t\":\"int\",\"d\":" + bj(std::to_string(x)) + "}";
	else if constexpr (std::is_floating_point_v<T>) return "{\"t\":\"real\",\"x\":" + num((long double)x) + "}";
	else if constexpr (isSeq<T>{} or isTup<T>{}) return "{\"t\":\"seq\",\"v\":" + elems(x) + "}";
	else return "{\"t\":\"text\",\"b\":" + bj(std::string_view(x)) + "}"; }
template<typename T> std::string J_(const T& x, char sep) { return "{\"t\":\"join\",\"v\":" + elems(x) + ",\"sep\":" + std::to_string((int)(unsigned char)sep) + "}"; }
static std::string chars(std::string_view s, char sep) { std::string v = "["; for (char c : s) { if (v.size() > 1) v += ','; v += T_(c); } return "{\"t\":\"join\",\"v\":" + v + "],\"sep\":" + std::to_string((int)(unsigned char)sep) + "}"; }

static Rng R(1);
template<typename T> struct gen;
template<> struct gen<bool> { static bool g() { return R.next() & 1; } };
template<> struct gen<char> { static char g() { return (char)R.in(1, 256); } };
template<typename T> struct genInt { static T g() { switch (R.in(0, 5)) { case 0: return 0; case 1: return (T)R.in(0, 10); case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::min(); default: return (T)R.next(); } } };
template<> struct gen<int> : genInt<int> {}; template<> struct gen<long long> : genInt<long long> {}; template<> struct gen<unsigned long long> : genInt<unsigned long long> {};
template<> struct gen<Integer> : genInt<Integer> {}; template<> struct gen<UInteger> : genInt<UInteger> {}; template<> struct gen<short> : genInt<short> {};
template<typename T> struct genReal { static T g() {
	static const std::vector<double> pool = {0, -0.0, 1, -1, 0.5, 0.0000005, 0.0000015, 2.5e-7, 1e-9, -1e-9, 0.1, 123456.789, 1e15, -12345678901.25, 0.9999999, 0.99999949999, 3.0000005, 1.0 / 3, 9.9999995, 0.0625};
	if (R.in(0, 12) == 0) return std::numeric_limits<T>::infinity() * (R.next() & 1 ? 1 : -1);
	if (R.in(0, 30) == 0) return std::numeric_limits<T>::quiet_NaN();
	if (R.in(0, 3)) return (T)R.pick(pool);
	return (T)(R.in(-1000000000, 1000000000)) / (T)(1ll << R.in(0, 50)); } };
template<> struct gen<double> : genReal<double> {}; template<> struct gen<float> : genReal<float> {}; template<> struct gen<long double> : genReal<long double> {};
template<> struct gen<std::string> { static std::string g() { static const std::vector<std::string> pool = {"", "a", " ", "abc", "x y", "true", "-1", "\n", "\xc3\xa4"}; return R.pick(pool); } };
template<> struct gen<std::string_view> { static std::string_view g() { static const std::vector<std::string> pool = {"", "v", "view of text"}; return pool[R.next() % 3]; } };
template<> struct gen<const char*> { static const char* g() { static const std::vector<const char*> pool = {"", "c", "c string"}; return R.pick(pool); } };
template<typename C> struct genC { static C g() { C c; int n = (int)R.in(0, 5); for (int i = 0; i < n; i++) c.insert(c.end(), gen<typename C::value_type>::g()); return c; } };
template<typename T> struct gen<std::vector<T>> : genC<std::vector<T>> {}; template<typename T> struct gen<std::list<T>> : genC<std::list<T>> {};
template<typename T> struct gen<std::deque<T>> : genC<std::deque<T>> {}; template<typename T> struct gen<std::set<T>> : genC<std::set<T>> {}; template<typename T> struct gen<std::multiset<T>> : genC<std::multiset<T>> {};
template<typename K, typename V> struct gen<std::map<K, V>> { static std::map<K, V> g() { std::map<K, V> m; int n = (int)R.in(0, 4); for (int i = 0; i < n; i++) { auto k = gen<K>::g(); m[k] = gen<V>::g(); } return m; } };
template<typename T, std::size_t N> struct gen<std::array<T, N>> { static std::array<T, N> g() { std::array<T, N> a{}; for (auto& x : a) x = gen<T>::g(); return a; } };
template<typename A, typename B> struct gen<std::pair<A, B>> { static std::pair<A, B> g() { auto a = gen<A>::g(); auto b = gen<B>::g(); return {a, b}; } };
template<typename... A> struct gen<std::tuple<A...>> { static std::tuple<A...> g() { return std::tuple<A...>{gen<A>::g()...}; } };

static std::unique_ptr<std::ostringstream> os; static std::unique_ptr<OutputStream> out;
static void fresh() { os = std::make_unique<std::ostringstream>();
	if (R.in(0, 3) == 0) { *os << std::scientific << std::setprecision(2) << std::noboolalpha; }
	out = std::make_unique<OutputStream>(*os); Ev("new"); }
static void got(const std::string& tree) { Ev("w").raw("v", tree).bytes("got", os->str()); }
static char anySep() { static const std::vector<char> pool = {' ', '\n', ',', 'x', '\t', '\xff', NOSEP, NOSEP}; return R.pick(pool); }
#define STR(expr, tree) do { auto&& w_ = (expr); std::string a_ = w_.asString(); std::string b_ = static_cast<std::string>(w_); Ev("str").raw("v", tree).bytes("got", a_).bytes("got2", b_); *out << w_; got(tree); } while (0)
template<typename T> void value() { T x = gen<T>::g(); if (R.in(0, 5) == 0) *out << x << ""; else *out << x; got(T_(x)); }
template<typename T> void joins() { // container, pair, tuple, array: every form of join
	T x = gen<T>::g(); char sep = anySep();
	switch (R.in(0, 4)) {
		case 0: STR(join(x), J_(x, ' ')); break;
		case 1: STR(join(x, sep), J_(x, sep)); break;
		case 2: { std::string t = J_(x, sep); T y = x; STR(join(std::move(y), sep), t); break; }
		case 3: { const T& y = x; STR(join(y, sep), J_(x, sep)); break; } } }
template<typename T> void ranges() { T x = gen<T>::g(); char sep = anySep();
	if (R.next() & 1) STR(join(x.begin(), x.end(), sep), J_(x, sep)); else STR(join(std::cbegin(x), std::cend(x)), J_(x, ' ')); }
static void special() {
	int a[4]; for (int& v : a) v = gen<int>::g(); std::vector<int> av(a, a + 4); char sep = anySep();
	std::string s[2] = {gen<std::string>::g(), gen<std::string>::g()}; std::vector<std::string> sv(s, s + 2);
	double m[2][2]; for (auto& r : m) for (double& v : r) v = gen<double>::g(); std::vector<std::vector<double>> mv = {{m[0][0], m[0][1]}, {m[1][0], m[1][1]}};
	switch (R.in(0, 13)) {
		case 0: *out << a; got(T_(av)); break;
		case 1: *out << s; got(T_(sv)); break;
		case 2: *out << m; got(T_(mv)); break;
		case 3: STR(join(a, sep), J_(av, sep)); break;
		case 4: STR(join(s), J_(sv, ' ')); break;
		case 5: STR(join("120", sep), chars("120", sep)); break;
		case 6: { std::string t = gen<std::string>::g(); STR(join(t, sep), chars(t, sep)); break; }
		case 7: { int i = gen<int>::g(); double d = gen<double>::g(); bool b = gen<bool>::g(); std::string t = gen<std::string>::g(); Ev("str").raw("v", J_(std::make_tuple(i, t, 'q', d, b), sep)).bytes("got", join({i, t, 'q', d, b}, sep).asString()).bytes("got2", static_cast<std::string>(join({i, t, 'q', d, b}, sep))); break; }
		case 8: { *out << join({1, "two", '3'}); got(J_(std::make_tuple(1, std::string("two"), '3'), ' ')); break; }
		case 9: { auto v = gen<std::vector<std::string>>::g(); *out << join({join(v, ','), join(a, sep)}, '|'); got("{\"t\":\"join\",\"v\":[" + J_(v, ',') + "," + J_(av, sep) + "],\"sep\":124}"); break; }
		case 10: *out << "lit" << 'c' << true << 7; got("{\"t\":\"join\",\"v\":[" + T_(std::string("lit")) + "," + T_('c') + "," + T_(true) + "," + T_(7) + "],\"sep\":0}"); break;
		case 11: { auto v = gen<std::vector<std::pair<int, double>>>::g(); STR(join(v, sep), J_(v, sep)); break; }
		case 12: { *out << std::endl; got(T_('\n')); break; }
	} }
int main() {
	init0(); R = Rng(envSeed() * 77 + 13); int n = thorough() ? 4000 : 1200;
	for (int i = 0; i < n; i++) {
		fresh(); int m = (int)R.in(1, 9);
		for (int j = 0; j < m; j++) switch (R.in(0, 38)) {
			case 0: value<int>(); break; case 1: value<bool>(); break; case 2: value<char>(); break; case 3: value<double>(); break; case 4: value<float>(); break; case 5: value<Real>(); break;
			case 6: value<Integer>(); break; case 7: value<UInteger>(); break; case 8: value<std::string>(); break; case 9: value<std::string_view>(); break; case 10: value<const char*>(); break;
			case 11: value<std::vector<int>>(); break; case 12: value<std::vector<bool>>(); break; case 13: value<std::vector<std::vector<Integer>>>(); break; case 14: value<std::set<std::string>>(); break;
			case 15: value<std::map<int, double>>(); break; case 16: value<std::map<std::string, std::vector<int>>>(); break; case 17: value<std::array<double, 3>>(); break; case 18: value<std::array<int, 0>>(); break;
			case 19: value<std::pair<int, std::string>>(); break; case 20: value<std::pair<std::vector<int>, std::pair<bool, double>>>(); break; case 21: value<std::tuple<int, double, bool, std::string>>(); break;
			case 22: value<std::tuple<int>>(); break; case 23: value<std::deque<std::string>>(); break; case 24: value<std::list<std::tuple<int, char>>>(); break; case 25: value<std::vector<std::array<std::pair<int, int>, 2>>>(); break;
			case 26: joins<std::vector<int>>(); break; case 27: joins<std::vector<double>>(); break; case 28: joins<std::set<std::string>>(); break; case 29: joins<std::map<int, std::string>>(); break;
			case 30: joins<std::vector<std::vector<bool>>>(); break; case 31: joins<std::array<int, 3>>(); break; case 32: joins<std::pair<int, std::vector<int>>>(); break; case 33: joins<std::tuple<int, std::string, double>>(); break;
			case 34: joins<std::vector<std::string>>(); break; case 35: ranges<std::vector<Integer>>(); break; case 36: ranges<std::list<std::string>>(); break;
			default: if (R.in(0, 4)) special(); else { int p = (int)R.in(0, 10); *out << std::setprecision(p); Ev("prec").i("n", p); } } }
}
