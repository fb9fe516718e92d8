// numeric tokens: args <int|real|feq> <word file>
#include "vh.h"
using namespace vf;
static u64 cnt = 0;
struct Rd { std::istringstream ss; std::ostringstream sink; OutputStream out; int code; InputStream in;
	Rd(const std::string& t, long double a = DEFAULT_EPS, long double r = DEFAULT_EPS) : ss(t), out(sink), code(cnt % 3 == 0 ? 43 : cnt % 3 == 1 ? 1 : 7), in((cnt++, ss), cnt % 2 == 0, cnt % 5 != 0, out, Verdicts::Verdict(code), a, r) {} };
static bool plainToken(const std::string& t) { if (t.empty()) return false; for (unsigned char c : t) if (c < 33 or c > 126) return false; return true; }
static void isint(const std::string& t) { auto r = isInteger(t); Ev("isint").bytes("tok", t).b("ok", r).b("has", r.hasReason()).dec("res", r.reason.value_or(0)); }
static void rint(const std::string& t, bool b, i64 lo, i64 hi) { if (!plainToken(t)) return;
	Rd x(t); Integer v = 0; bool con = b and cnt % 4 == 0; static Constraint c; c = Constraint();
	int code = outcome([&]{ v = con ? x.in.integer(lo, hi, c) : b ? x.in.integer(lo, hi) : x.in.integer(); });
	Ev("int").bytes("tok", t).b("b", b).dec("lo", lo).dec("hi", hi).i("onFail", x.code).i("code", code).dec("res", v); }
// case folding may change E to e in the input: harmless for values
static void isreal(const std::string& t) { auto r = isReal(t); Ev("isreal").bytes("tok", t).b("ok", r).b("has", r.hasReason()).i("bits", 62).raw("res", num(r.reason.value_or(0))); }
static void rreal(const std::string& t) { if (!plainToken(t)) return; Rd x(t); Real v = 0; int code = outcome([&]{ v = x.in.real(); });
	Ev("real").bytes("tok", t).i("onFail", x.code).i("code", code).i("bits", 62).raw("res", num(v)); }
static long double val(const std::string& t) { return std::strtold(t.c_str(), nullptr); }
static void strict(const std::string& t, Real lo, Real hi, i64 dlo, i64 dhi) { if (!plainToken(t)) return; Rd x(t); Real v = 0; static Constraint c; c = Constraint(); bool con = cnt % 4 == 0;
	int code = outcome([&]{ v = con ? x.in.realStrict(lo, hi, dlo, dhi, c) : x.in.realStrict(lo, hi, dlo, dhi); });
	Ev("strict").bytes("tok", t).raw("lo", num(lo)).raw("hi", num(hi)).i("dlo", dlo).i("dhi", dhi).i("onFail", x.code).i("code", code).raw("v", num(val(t))).raw("res", num(v)); }
static void rbound(const std::string& t, Real lo, Real hi, Real a, Real r) { if (!plainToken(t)) return; Rd x(t, a, r); Real v = 0; static Constraint c; c = Constraint(); bool con = cnt % 4 == 0;
	int code = outcome([&]{ v = con ? x.in.real(lo, hi, c) : x.in.real(lo, hi); });
	Ev("rbound").bytes("tok", t).raw("lo", num(lo)).raw("hi", num(hi)).raw("a", num(a)).raw("r", num(r)).i("onFail", x.code).i("code", code).raw("v", num(val(t))).raw("res", num(v)); }
static void xreal(const std::string& t, Real e, Real a, Real r) { if (!plainToken(t)) return; Rd x(t, a, r);
	int code = outcome([&]{ x.in.expectReal(e); });
	Ev("xreal").bytes("tok", t).raw("x", num(e)).raw("a", num(a)).raw("r", num(r)).i("onFail", x.code).i("code", code).raw("v", num(val(t))); }
static void feq(Real g, Real e, Real a, Real r) { bool res = details::floatEqual(g, e, a, r); bool vq = ValidateBase::floatEqual(g, e, a, r), le = ValidateBase::floatLess(g, e, a, r), ge = ValidateBase::floatGreater(g, e, a, r); Ev("feq").raw("g", num(g)).raw("x", num(e)).raw("a", num(a)).raw("r", num(r)).b("res", res).b("vq", vq).b("le", le).b("ge", ge);
	bool q1 = ValidateBase::floatEqual(g, e, a), l1 = ValidateBase::floatLess(g, e, a), g1 = ValidateBase::floatGreater(g, e, a); Ev("feq").raw("g", num(g)).raw("x", num(e)).raw("a", num(a)).raw("r", num(DEFAULT_EPS)).b("res", q1).b("vq", q1).b("le", l1).b("ge", g1); }

static i64 anyInt(Rng& r) { static const i64 s[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 0, 1, -1, 9, 10, -10, 999, 1000, (i64)1 << 62, (i64)1 << 32, -((i64)1 << 32), ((i64)1 << 53) + 1};
	switch (r.in(0, 4)) { case 0: return s[r.next() % 16]; case 1: return r.in(-20, 21); case 2: return (i64)r.next() >> r.in(0, 63); default: { i64 p = 1; for (i64 k = r.in(0, 19); k > 0; k--) p *= 10; return (r.in(0, 2) ? p : -p) + r.in(-1, 2); } } }
static std::string digits(Rng& r, int n) { std::string s; while (n-- > 0) s += (char)('0' + r.in(0, 10)); return s; }
static std::string mutate(std::string t, Rng& r, const std::string& al) { for (int k = (int)r.in(1, 3); k > 0; k--) { std::size_t p = r.next() % (t.size() + 1); switch (r.in(0, 3)) { case 0: t.insert(p, 1, r.pick(al)); break; case 1: if (p < t.size()) t.erase(p, 1); break; default: if (p < t.size()) t[p] = r.pick(al); } } return t; }
static std::string realTok(Rng& r) { std::string t; i64 z = r.in(0, 10); if (z < 3) t = "-"; else if (z == 3) t = "+";
	switch (r.in(0, 5)) { case 0: t += "0"; break; case 1: t += digits(r, (int)r.in(1, 24)); break; case 2: break; default: t += std::to_string(r.in(0, 2000)); }
	if (t.empty() or !isDigit(t.back()) or r.in(0, 3)) { t += "."; t += digits(r, (int)(r.in(0, 20) == 0 ? r.in(0, 300) : r.in(0, 9))); }
	if (r.in(0, 4) == 0) { t += r.in(0, 2) ? "e" : "E"; z = r.in(0, 3); if (z == 0) t += "-"; if (z == 1) t += "+"; if (r.in(0, 20) == 0) t += "000"; t += std::to_string(r.in(0, 12) == 0 ? r.in(0, 6000) : r.in(0, 31)); }
	return t; }
static Real anyReal(Rng& r) { switch (r.in(0, 8)) { case 0: return 0; case 1: return r.in(-5, 6); case 2: return (Real)anyInt(r); case 3: return r.in(-4000, 4001) / 8.0L; case 4: return r.in(-1000000, 1000001) / 1e6L; case 5: return std::ldexp((Real)(i64)r.next(), (int)r.in(-120, 30)); case 6: return -0.0L; default: return r.in(-99, 100) * std::pow(10.0L, (Real)r.in(-12, 13)); } }
static Real tol(Rng& r) { static const Real t[] = {0, 1e-6L, 1e-9L, 1e-3L, 0.5L, 1, 2, 1e-12L, 0.125L, 100}; return r.in(0, 6) ? t[r.next() % 10] : std::fabs(anyReal(r)); }
static std::string show(Real x, int prec) { char b[6000]; std::snprintf(b, sizeof b, "%.*Lf", prec, x); return b; }

int main(int argc, char** argv) { init0(); bool th = thorough(); Rng r(envSeed()); std::string mode = argv[1];
	std::vector<std::string> words; { std::ifstream f(argv[2]); for (std::string l; std::getline(f, l);) { std::string w; std::stringstream y(l); for (std::string t; std::getline(y, t, ',');) w += (char)std::stoi(t); words.push_back(w); } }
	if (mode == "int") {
		isint("");
		for (auto& w : words) { isint(w); rint(w, false, 0, 0); if (cnt % 3 == 0) rint(w, true, r.in(-100, 100), r.in(-100, 10000)); }
		int n = th ? 200000 : 14000;
		for (int k = 0; k < n; k++) {
			i64 v = anyInt(r); std::string t = std::to_string(v);
			switch (r.in(0, 8)) {
				case 0: t = mutate(t, r, "0123456789-+. eE\n\t\x80xA_,'"); break;
				case 1: t = (r.in(0, 2) ? "-" : "") + std::string("9223372036854775") + digits(r, (int)r.in(2, 5)); break;
				case 2: t = (r.in(0, 2) ? "-" : "") + std::to_string(r.next()) + (r.in(0, 2) ? digits(r, (int)r.in(0, 4)) : ""); break;
				case 3: t = (r.in(0, 2) ? "-" : "") + digits(r, (int)r.in(1, r.in(0, 20) ? 24 : 600)); break;
				case 4: t = "922337203685477580" + std::string(1, (char)('0' + r.in(5, 10))); if (r.in(0, 2)) t = "-" + t; break;
				default: break;
			}
			if (r.in(0, 4) == 0) isint(t);
			i64 lo = r.in(0, 3) ? v - (v > INT64_MIN + 3 ? r.in(-2, 3) : 0) : anyInt(r), hi = r.in(0, 3) ? (v < INT64_MAX - 3 ? v + r.in(-2, 3) : v) : anyInt(r);
			if (v < INT64_MIN + 3 or v > INT64_MAX - 3) { lo = r.in(0, 2) ? INT64_MIN : v; hi = r.in(0, 2) ? INT64_MAX : v; }
			rint(t, r.in(0, 5) != 0, lo, hi);
		}
		for (auto s : {" 1", "1 ", "\n1", "1\n", "1\t2", "--1", "+1", "0x1", "1e3", "1.0", "-", "+", "00", "-0", "-00", "١", "1\0", ""}) isint(s);
		isint(std::string("1\0", 2));
	} else if (mode == "real") {
		for (auto& w : words) { isreal(w); if (cnt % 2 == 0) rreal(w); else cnt++; if (r.in(0, 3) == 0) strict(w, r.in(-2, 1), r.in(1, 1000), r.in(0, 2), r.in(1, 6)); if (r.in(0, 3) == 0) rbound(w, r.in(-2, 1), r.in(1, 100), tol(r), tol(r)); }
		int n = th ? 60000 : 3500;
		for (int k = 0; k < n; k++) {
			std::string t = realTok(r);
			if (r.in(0, 5) == 0) t = mutate(t, r, "0123456789-+..eExinfa \n");
			isreal(t); rreal(t);
			// bounds around a value
			Real v = anyReal(r); if (std::fabs(v) > 1e30L) v = 5; int p = (int)r.in(0, 9); std::string s = show(v, p); if (r.in(0, 9) == 0) s = mutate(s, r, "0123456789-+.e"); else if (r.in(0, 12) == 0) s += ".";
			Real w = val(s); if (!(std::fabs(w) < 1e35L)) w = 1;
			Real ulp = std::ldexp(1.0L, std::max(-100, std::ilogb(w == 0 ? 1 : w) - 63));
			auto near = [&]{ switch (r.in(0, 6)) { case 0: return w; case 1: return w + ulp; case 2: return w - ulp; case 3: return w + std::ldexp(1.0L, (int)r.in(-30, 5)); case 4: return w - std::ldexp(1.0L, (int)r.in(-30, 5)); default: return anyReal(r); } };
			std::size_t dot = s.find('.'); i64 dc = dot == std::string::npos ? 0 : (i64)(s.size() - dot - 1);
			strict(s, near(), near(), std::max<i64>(0, dc + r.in(-2, 2)), dc + r.in(0, 3));
			if (r.in(0, 3) == 0) strict(t, -1e6L, 1e6L, 0, 10);
			Real a = tol(r), q = tol(r);
			auto edge = [&](Real c) { switch (r.in(0, 5)) { case 0: return c; case 1: return c + a * (1 + (r.in(-2, 3)) * std::ldexp(1.0L, (int)r.in(-38, -1))); case 2: return c - a * (1 + (r.in(-2, 3)) * std::ldexp(1.0L, (int)r.in(-38, -1))); case 3: return c * (1 + q * (1 + r.in(-2, 3) * std::ldexp(1.0L, (int)r.in(-38, -1)))); default: return near(); } };
			rbound(s, edge(w), edge(w), a, q);
		}
		for (auto s : {"nan", "NaN", "inf", "-inf", "infinity", "1e", "e1", ".e1", ".", "", "+", "-", "+-1", "-+1", "1e+-1", "0x1p3", "1e5000", "-1e5000", "1e-6000", "1.e1", "+.5", "-.5e-3", "00.5", "1e00000000005", "1 ", " 1", "1.5.2", "1e1.0", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999", "0.0e-99999"}) { isreal(s); rreal(s); strict(s, -10, 10, 0, 5); }
	} else {
		int n = th ? 150000 : 9000;
		for (int k = 0; k < n; k++) {
			Real e = anyReal(r), a = tol(r), q = tol(r); if (std::fabs(e) > 1e40L or std::fabs(a) > 1e40L or std::fabs(q) > 1e40L) continue;
			Real g; Real f = 1 + r.in(-2, 3) * std::ldexp(1.0L, (int)r.in(-42, 1)); Real sg = r.in(0, 2) ? 1 : -1;
			switch (r.in(0, 6)) { case 0: g = e + sg * a * f; break; case 1: g = e * (1 + sg * q * f); break; case 2: g = e; break; case 3: g = -e; break; default: g = anyReal(r); }
			if (!(std::fabs(g) < 1e45L)) continue;
			feq(g, e, a, q); if (r.in(0, 3) == 0) feq(e, g, a, q);
			if (r.in(0, 2)) { int p = (int)r.in(0, 30); std::string s = show(g, p); if (r.in(0, 20) == 0) s = mutate(s, r, "0123456789+-.enaif"); xreal(s, e, a, q); }
		}
		Real inf = std::numeric_limits<Real>::infinity(), nan = std::numeric_limits<Real>::quiet_NaN();
		for (Real g : {inf, -inf, nan, -nan, 0.0L, -0.0L, 1.0L, -1e40L}) for (Real e : {inf, -inf, nan, -nan, 0.0L, -0.0L, 1.0L, 1e40L}) for (Real a : {0.0L, 1e-6L, 3.0L}) for (Real q : {0.0L, 1e-6L, 5.0L}) feq(g, e, a, q);
	}
}
