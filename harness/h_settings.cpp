// compiled once per set of overridden settings (SET)
#include "common.h"
#include <cstdint>
#include <cstdlib>
#include <unistd.h>
#if SET == 1 || SET == 4
#include "rng.h"
#elif SET == 2
#include "secure_rng.h"
#endif
namespace Settings {
#if SET == 1
	using RandomEngine = Xoshiro256ss; constexpr int DEFAULT_PRECISION = 4; constexpr bool DEFAULT_CASE_LOWER = false; constexpr long double DEFAULT_EPS = 0x1p-8L; constexpr std::int64_t LARGE = 4'000'000'000'000'000'003;
	[[noreturn]] inline void exitVerdict(int exitCode) { std::fflush(stdout); _exit(exitCode + 100); }
#elif SET == 2
	using RandomEngine = AES_RNG;
	[[noreturn]] void exitVerdict(int exitCode) { std::quick_exit(exitCode); }
#elif SET == 3
	constexpr long double DEFAULT_EPS = 0.25L; constexpr std::int64_t LARGE = 4'611'686'018'427'387'000; struct Stop { int code; };
	[[noreturn]] inline void exitVerdict(int exitCode) { throw Stop{exitCode - 1}; }
#elif SET == 4
	using RandomEngine = Xoshiro256ss; constexpr int DEFAULT_PRECISION = 0; constexpr bool DEFAULT_CASE_LOWER = false;
#elif SET == 5
	constexpr int DEFAULT_PRECISION = 15; constexpr long double DEFAULT_EPS = 0x1p-30L;
#endif
}
#include "validate.h"
#include <sys/wait.h>
#include <fcntl.h>
using namespace vf;
static const bool draws = SET == 1 || SET == 2 || SET == 4;
// what was asked for, independent of the header
#if SET == 1
static const char* CONF = "{\"engine\":\"xoshiro\",\"prec\":4,\"lower\":false,\"shift\":100,"; static const long double EPS = 0x1p-8L; static const char* BIG = "4000000000000000003";
#elif SET == 2
static const char* CONF = "{\"engine\":\"aes\",\"prec\":6,\"lower\":true,\"shift\":0,"; static const long double EPS = 1e-6L; static const char* BIG = "4611686018427387903";
#elif SET == 3
static const char* CONF = "{\"engine\":\"counter\",\"prec\":6,\"lower\":true,\"shift\":-1,"; static const long double EPS = 0.25L; static const char* BIG = "4611686018427387000";
#elif SET == 4
static const char* CONF = "{\"engine\":\"xoshiro\",\"prec\":0,\"lower\":false,\"shift\":0,"; static const long double EPS = 1e-6L; static const char* BIG = "4611686018427387903";
#elif SET == 5
static const char* CONF = "{\"engine\":\"counter\",\"prec\":15,\"lower\":true,\"shift\":0,"; static const long double EPS = 0x1p-30L; static const char* BIG = "4611686018427387903";
#else
static const char* CONF = "{\"engine\":\"counter\",\"prec\":6,\"lower\":true,\"shift\":0,"; static const long double EPS = 1e-6L; static const char* BIG = "4611686018427387903";
#endif
static std::string digits(const std::string& d) { std::string s = "["; for (std::size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string((int)(unsigned char)d[i]); return s + "]"; }
static std::string num(long double x) { u64 m = 0; int k = 0; if (x != 0) { int e; long double f = std::frexp(std::fabs(x), &e); m = (u64)std::ldexp(f, 64); k = e - 64; while (m % 2 == 0) { m /= 2; k++; } } return std::string("{\"c\":\"fin\",\"neg\":") + (std::signbit(x) ? "true" : "false") + ",\"m\":" + digits(std::to_string(m)) + ",\"k\":" + std::to_string(k) + "}"; }
static Rng R(1);
static void start() { Ev("start").raw("conf", CONF + ("\"eps\":" + num(EPS)) + ",\"large\":" + digits(BIG) + "}"); }
static void draw(int n) { for (int i = 0; i < n; i++) { Integer lo = 0, hi = 0; switch (R.in(0, 6)) { case 0: { Integer v = Random::integer(); Ev("word").bytes("v", std::to_string(v)); continue; } case 1: hi = R.in(1, 100); break; case 2: lo = R.in(-50, 0); hi = R.in(1, 50); break; case 3: lo = -3; hi = -2; break; case 4: hi = (Integer(3) << 61) + R.in(0, 1000); break; default: lo = -(Integer)(R.next() >> 2); hi = (Integer)(R.next() >> 2) + 1; }
		Integer v = lo == 0 ? Random::integer(hi) : Random::integer(lo, hi); Ev("int").bytes("lo", std::to_string(lo)).bytes("hi", std::to_string(hi)).bytes("v", std::to_string(v)); } }
template<typename F> static int child(F f) { std::fflush(stdout); pid_t c = fork(); if (c == 0) { int dev = open("/dev/null", 1); dup2(dev, 1); dup2(dev, 2);
#if SET == 3
		try { f(); } catch (const Settings::Stop& s) { _exit(s.code); }
#else
		f();
#endif
		_exit(99); } int st; waitpid(c, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 300 + WTERMSIG(st); }
static Real real() { switch (R.in(0, 5)) { case 0: return (Real)R.in(-1000, 1000); case 1: return R.in(-100000, 100000) / 1024.0L; case 2: return (Real)(double)R.in(-1000000000, 1000000000) / 1e4; case 3: return R.in(-8, 9) / 8.0L; default: return R.in(-4000, 4000) / 1e7L; } }
int main(int argc, char** argv) { R = Rng(envSeed() * 15485863 + 36); bool th = thorough(); int dr = SET == 2 ? (th ? 60 : 12) : th ? 400 : 80;
	start(); // before init: the engine is there already
	if (draws) { draw(dr); for (const char* t : {"0", "1", "12345678901234567890", "18446744073709551615", "3141592653589793238"}) { Random::seed(std::strtoull(t, nullptr, 10)); Ev("seed").bytes("t", t); draw(dr); } }
	{ std::string d = argc > 1 ? argv[1] : "."; d += "/set.XXXXXX"; if (not mkdtemp(d.data())) return 3; std::string in = d + "/in", an = d + "/ans", prog = "p"; { std::ofstream(in) << "1\n"; std::ofstream(an) << "1\n"; }
		int c = child([&] { char* av[] = {prog.data(), in.data(), an.data(), d.data(), nullptr}; OutputValidator::init(4, av); Multipass::init(); Multipass::NEXT(); }); Ev("exit").str("how", "next").i("code", c); std::filesystem::remove_all(d); }
	// the command line reseeds
	{ std::string prog = "p", s = "--seed", v = SET == 2 ? "77" : "4611686018427387905"; char* av[] = {prog.data(), s.data(), v.data(), nullptr}; Generator::init(3, av); if (draws) { Ev("seed").bytes("t", v); draw(dr); } }
	{ auto code = [&](const char* how, auto f) { int c = child(f); Ev("exit").str("how", how).i("code", c); };
		code("ac", [] { Verdicts::AC.exit(); }); code("wa", [] { Verdicts::WA.exit(); }); code("pe", [] { Verdicts::PE.exit(); }); code("fail", [] { Verdicts::FAIL.exit(); });
		for (auto v : {Verdicts::WA, Verdicts::FAIL}) code(v == Verdicts::WA ? "read" : "readfail", [&] { std::istringstream s("x"); std::ostringstream o; OutputStream out(o); InputStream in(s, true, true, out, v); in.integer(); });
		code("print", [] { std::ostringstream o; OutputStream out(o); out << "text" << Verdicts::WA; });
		code("ac", [&] { Generator::juryErr << "bye" << Verdicts::AC; }); }
	Ev("large").bytes("v", std::to_string(LARGE)); Ev("large").bytes("v", std::to_string(Settings::LARGE));
	// default precision: streams to streams and files, strings
	for (int k = 0; k < (th ? 200 : 20); k++) { std::string q = "["; for (int i = 0; i < 12; i++) { Real x = real(); if (x == 0) x = 0; std::string t; if (i % 3 == 0) { std::ostringstream o; { OutputStream out(o); out << x; } t = o.str(); } else if (i % 3 == 1) { std::ostringstream o; { OutputStream a(o); a << std::vector<Real>{x, x}; } t = o.str(); t = t.substr(0, t.find(' ')); } else { std::ostringstream o; { OutputStream a(o); a << join(std::vector<Real>{x}, ','); } t = o.str(); } q += (i ? ",{\"x\":" : "{\"x\":") + num(x) + ",\"t\":" + digits(t) + "}"; } Ev("write").raw("q", q + "]"); }
	// default case
	for (int k = 0; k < 60; k++) { std::string s; if (k == 0) for (int c = 33; c < 127; c++) s += (char)c; else for (i64 n = R.in(1, 12); n--;) s += (char)R.in(33, 127); std::string c = s, t = s, f; for (char& x : c) x = toDefaultCase(x); toDefaultCase(t); std::istringstream in(s); std::ostringstream o; OutputStream out(o); InputStream st(in, true, false, out, Verdicts::WA); f = st.string(); Ev("case").bytes("s", s).bytes("chars", c).bytes("str", t).bytes("tok", f); }
	// default tolerances
	{ using namespace Generator; auto near = [&](Real& a, Real& b) { b = real(); Real e[] = {EPS * 0.5L, EPS * 0.9375L, EPS * 1.0625L, EPS * 2, EPS * 16, EPS / 64, 0}; Real d = e[R.in(0, 7)]; if (R.next() & 1) d *= std::fabs(b); if (R.next() & 1) d = -d; a = b + d; };
		for (int k = 0; k < (th ? 60 : 12); k++) { std::string q = "["; for (int i = 0; i < 20; i++) { Real a, b; near(a, b); bool le = floatLess(a, b), ge = floatGreater(a, b); q += (i ? ",{\"a\":" : "{\"a\":") + num(a) + ",\"b\":" + num(b) + ",\"r\":[" + (floatEqual(a, b) ? "true" : "false") + "," + (a > b ? le ? "true" : "false" : ge ? "true" : "false") + "]}"; } Ev("near").raw("q", q + "]"); }
		for (int k = 0; k < (th ? 200 : 40); k++) { Real a, b; near(a, b); char buf[200]; std::snprintf(buf, sizeof buf, "%.60Lf", a); int c = child([&] { std::istringstream in(buf); std::ostringstream o; OutputStream out(o); InputStream st(in, false, false, out, Verdicts::WA); st.expectReal(b); }); Ev("near").raw("q", "[{\"a\":" + num(a) + ",\"b\":" + num(b) + ",\"r\":[" + (c == 99 ? "true" : "false") + "]}]"); }
		std::string d = argc > 1 ? argv[1] : "."; d += "/set.XXXXXX"; if (not mkdtemp(d.data())) return 3; std::string fn = d + "/log";
		for (int k = 0; k < (th ? 300 : 60); k++) { Real x, lo, hi; near(x, lo); hi = lo + (R.next() & 1 ? 0 : EPS * 1.5L) + (R.next() & 1 ? std::fabs(real()) : 0); { ConstraintsLogger log(fn); log["v"].log(lo, hi, x); } std::ifstream in(fn); std::string w, v, a, b, t[4]; in >> w >> v >> a >> b >> t[0] >> t[1] >> t[2] >> t[3];
			Ev("bound").raw("x", num(x)).raw("lo", num(lo)).raw("hi", num(hi)).b("hadlo", a == "1").b("hadhi", b == "1").bytes("tx", t[0]).bytes("ty", t[1]).bytes("tlo", t[2]).bytes("thi", t[3]); }
		std::filesystem::remove_all(d); }
	std::fflush(stdout); _exit(0); }
