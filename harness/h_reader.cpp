// typed reader: args <str|bulk|con> [stimuli]
#include "vh.h"
using namespace vf;
static std::string jb(const std::string& s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ','; r += std::to_string((int)c); } return r + "]"; }
struct Kind { std::string k = "str"; bool b = false; i64 lo = 0, hi = 0; std::string pat, con; i64 dlo = 0, dhi = 0;
	std::string json() const { return "{\"k\":\"" + k + "\",\"b\":" + (b ? "true" : "false") + ",\"lo\":" + jb(std::to_string(lo)) + ",\"hi\":" + jb(std::to_string(hi)) + ",\"pat\":\"" + pat + "\",\"con\":\"" + con + "\",\"dlo\":" + std::to_string(dlo) + ",\"dhi\":" + std::to_string(dhi) + "}"; } };
static const std::regex& rx(const std::string& p) { static std::map<std::string, std::regex> m; auto it = m.find(p); if (it == m.end()) it = m.emplace(p, std::regex(p)).first; return it->second; }
static u64 nCase = 0;
struct Case { std::istringstream ss; std::ostringstream sink; OutputStream out; int code; InputStream in; std::unique_ptr<ConstraintsLogger> log; std::set<std::string> known; bool dead = false; std::string path;
	Case(const std::string& input, bool strict, bool cs, bool file) : ss(input), out(sink), code(nCase++ % 2 ? 43 : 1), in(ss, strict, cs, out, Verdicts::Verdict(code)) {
		Ev("new").b("strict", strict).b("cs", cs).i("onFail", code).bytes("input", input);
		if (file) { path = "log.txt"; std::remove(path.c_str()); log = std::make_unique<ConstraintsLogger>(path); } else log = std::make_unique<ConstraintsLogger>();
		if (nCase % 3 == 0) { ConstraintsLogger tmp(std::move(*log)); if (file) { *log = ConstraintsLogger(); std::remove(path.c_str()); } *log = std::move(tmp); } }
	i64 rem() { i64 r = (i64)ss.rdbuf()->in_avail(); return r < 0 ? 0 : r; }
	Constraint& con(const std::string& n) { if (known.insert(n).second) { int c = outcome([&]{ (*log)[n]; }); Ev("name").str("name", n).bytes("bytes", n).i("code", c); } return (*log)[n]; }
	void badName(const std::string& n) { int c = outcome([&]{ (*log)[n]; }); Ev("name").str("name", "bad").bytes("bytes", n).i("code", c); }
	void call(const Kind& k, bool bulk, i64 n, int sep) { if (dead) return;
		std::string res = "["; auto s1 = [&](const std::string& s) { if (res.size() > 1) res += ","; res += jb(s); }; auto i1 = [&](Integer v) { s1(std::to_string(v)); }; auto r1 = [&](Real v) { if (res.size() > 1) res += ","; res += num(v); };
		Constraint* c = k.con.empty() ? nullptr : &con(k.con); char sp = (char)sep; bool def = sep == ' ' and (nCase + n) % 2 == 0;
		int code = outcome([&]{
			if (k.k == "str") {
				if (!bulk) s1(k.pat.empty() ? (!k.b ? in.string() : c ? in.string(k.lo, k.hi, *c) : in.string(k.lo, k.hi)) : !k.b ? in.string(rx(k.pat)) : c ? in.string(rx(k.pat), k.lo, k.hi, *c) : in.string(rx(k.pat), k.lo, k.hi));
				else { std::vector<std::string> v;
					if (def) v = k.pat.empty() ? (!k.b ? in.strings(n) : c ? in.strings(k.lo, k.hi, *c, n) : in.strings(k.lo, k.hi, n)) : !k.b ? in.strings(rx(k.pat), n) : c ? in.strings(rx(k.pat), k.lo, k.hi, *c, n) : in.strings(rx(k.pat), k.lo, k.hi, n);
					else v = k.pat.empty() ? (!k.b ? in.strings(n, sp) : c ? in.strings(k.lo, k.hi, *c, n, sp) : in.strings(k.lo, k.hi, n, sp)) : !k.b ? in.strings(rx(k.pat), n, sp) : c ? in.strings(rx(k.pat), k.lo, k.hi, *c, n, sp) : in.strings(rx(k.pat), k.lo, k.hi, n, sp);
					for (auto& x : v) s1(x); }
			} else if (k.k == "int") {
				if (!bulk) i1(!k.b ? in.integer() : c ? in.integer(k.lo, k.hi, *c) : in.integer(k.lo, k.hi));
				else { std::vector<Integer> v; if (def) v = !k.b ? in.integers(n) : c ? in.integers(k.lo, k.hi, *c, n) : in.integers(k.lo, k.hi, n); else v = !k.b ? in.integers(n, sp) : c ? in.integers(k.lo, k.hi, *c, n, sp) : in.integers(k.lo, k.hi, n, sp);
					for (auto x : v) i1(x); }
			} else if (k.k == "real") {
				if (!bulk) r1(!k.b ? in.real() : c ? in.real(k.lo, k.hi, *c) : in.real(k.lo, k.hi));
				else { std::vector<Real> v; if (def) v = !k.b ? in.reals(n) : c ? in.reals(k.lo, k.hi, *c, n) : in.reals(k.lo, k.hi, n); else v = !k.b ? in.reals(n, sp) : c ? in.reals(k.lo, k.hi, *c, n, sp) : in.reals(k.lo, k.hi, n, sp);
					for (auto x : v) r1(x); }
			} else {
				if (!bulk) r1(c ? in.realStrict(k.lo, k.hi, k.dlo, k.dhi, *c) : in.realStrict(k.lo, k.hi, k.dlo, k.dhi));
				else { std::vector<Real> v; if (def) v = c ? in.realsStrict(k.lo, k.hi, k.dlo, k.dhi, *c, n) : in.realsStrict(k.lo, k.hi, k.dlo, k.dhi, n); else v = c ? in.realsStrict(k.lo, k.hi, k.dlo, k.dhi, *c, n, sp) : in.realsStrict(k.lo, k.hi, k.dlo, k.dhi, n, sp);
					for (auto x : v) r1(x); }
			}
		});
		if (code != 0) { res = "["; dead = true; }
		Ev e(bulk ? "bulk" : "read"); e.raw("k", k.json()); if (bulk) e.i("n", n).i("sep", sep); e.i("code", code).raw("res", res + "]").i("rem", code > 0 ? 0 : rem()); }
	void sep(int c) { if (dead) return; int code = outcome([&]{ if (c == ' ') in.space(); else in.newline(); }); dead = code != 0; Ev("sep").i("c", c).i("code", code).i("rem", code > 0 ? 0 : rem()); }
	void expect(const std::string& t, const std::string& v) { if (dead) return; int code = outcome([&]{ if (t == "str") in.expectString(v); else if (t == "int") in.expectInt(std::stoll(v)); else in.expectReal(std::strtold(v.c_str(), nullptr)); });
		dead = code != 0; Ev("expect").str("t", t).bytes("val", v).i("code", code).i("rem", code > 0 ? 0 : rem()); }
	void direct(const std::string& n, const std::string& ty, const std::string& lo, const std::string& hi, const std::string& v) { Constraint& c = con(n);
		int code = outcome([&]{ if (ty == "int") switch (nCase++ % 4) { case 0: c.log((Integer)std::stoll(lo), (Integer)std::stoll(hi), (int)std::stoll(v)); break; case 1: c.log((int)std::stoll(lo), (Integer)std::stoll(hi), (short)std::stoll(v)); break; default: c.log((Integer)std::stoll(lo), (Integer)std::stoll(hi), (Integer)std::stoll(v)); } else if (ty == "real") { Real l = std::strtold(lo.c_str(), nullptr), h = std::strtold(hi.c_str(), nullptr), x = std::strtold(v.c_str(), nullptr); // all kinds of reals are one type
				switch (nCase++ % 3) { case 0: c.log(l, h, x); break; case 1: c.log(l, h, (double)x); break; default: c.log((double)l, (float)h, (float)x); } }
			else if (ty == "str") c.log((Integer)std::stoll(lo), (Integer)std::stoll(hi), std::string(std::stoll(v), 'x')); else if (ty == "vec") c.log((Integer)std::stoll(lo), (Integer)std::stoll(hi), std::vector<int>(std::stoll(v))); else c.log((Integer)std::stoll(lo), (Integer)std::stoll(hi), std::set<char>(std::vector<char>(0).begin(), std::vector<char>(0).begin())); });
		Ev("log").str("con", n).str("ty", ty).bytes("lo", lo).bytes("hi", hi).bytes("v", ty == "set" ? "0" : v).i("code", code); }
	void finish() { if (path.empty()) return; log.reset(); std::ifstream f(path); std::string all((std::istreambuf_iterator<char>(f)), {}); std::string out = "["; bool nl = all.empty() or all.back() == '\n'; std::istringstream x(all);
		for (std::string l; std::getline(x, l);) { if (out.size() > 1) out += ","; std::string t = "[", name; std::istringstream y(l); int i = 0; for (std::string w; y >> w; i++) { if (t.size() > 1) t += ","; t += jb(w); if (i == 1) name = w; } out += "{\"name\":\"" + name + "\",\"t\":" + t + "]}"; }
		Ev("file").raw("lines", out + "]").b("nl", nl); }
};
static std::string tokenFor(const std::string& k, Rng& r) {
	if (k == "int") { switch (r.in(0, 10)) { case 0: return "0" + std::to_string(r.in(0, 9)); case 1: return "-0"; case 2: return std::to_string(r.in(0, 2) ? INT64_MAX - r.in(0, 2) : INT64_MIN + r.in(0, 2)); case 3: return "+1"; default: return std::to_string(r.in(0, 3) ? r.in(-6, 7) : r.in(-1000, 1000)); } }
	if (k == "real" or k == "rs") { i64 v = r.in(0, 3) ? r.in(-6000, 6001) : r.in(0, 2) ? r.in(-5, 6) * 1000 : r.in(-800000, 800000); int d = (int)r.in(0, 4); for (int i = d; i < 3; i++) v /= 10; std::string a = std::to_string(std::llabs(v)); while ((int)a.size() <= d) a = "0" + a; std::string t = (v < 0 ? "-" : "") + a.substr(0, a.size() - d) + (d ? "." + a.substr(a.size() - d) : ""); if (r.in(0, 25) == 0) t = "nan"; if (r.in(0, 25) == 0) t = "0" + t; return t; }
	static const std::vector<std::string> s = {"a", "bc", "c", "abc", "ababc", "01", "101", "1010", "hello", "World", "x1", "aB", "ABC", "A", "BC", "-", "a.b", "#"};
	if (r.in(0, 2)) return r.pick(s); std::string t; for (i64 n = r.in(1, r.in(0, 15) ? 7 : 60); n > 0; n--) t += r.in(0, 2) ? (char)r.in('a', 'e') : r.in(0, 3) ? (char)r.in('A', 'E') : (char)r.in(33, 127); return t; }
static Kind kind(Rng& r, bool con) { Kind k; static const std::vector<std::string> ks = {"str", "str", "int", "int", "real", "rs"}, pats = {"[a-z]+", "[A-Za-z0-9]*", "a|bc", "(ab)*c", "[01]{2,3}", ".*"}, ns = {"x", "y", "z", "long_name", "q"};
	k.k = r.pick(ks); k.b = k.k == "rs" or r.in(0, 3) != 0; if (k.k == "str" and r.in(0, 2)) k.pat = r.pick(pats);
	if (k.b) { if (k.k == "str") { k.lo = r.in(0, 4); k.hi = r.in(1, 9); if (r.in(0, 4) == 0) k.hi = 70; } else { k.lo = r.in(-7, 2); k.hi = r.in(0, 8); if (r.in(0, 3) == 0) { k.lo = r.in(-900, 1); k.hi = r.in(1, 900); } if (k.k == "int" and r.in(0, 8) == 0) { k.lo = INT64_MIN + r.in(1, 3); k.hi = INT64_MAX - r.in(0, 2); } } if (con and r.in(0, 3)) k.con = k.k == "str" and r.in(0, 4) ? "x" : k.k == "int" and r.in(0, 4) ? r.in(0, 2) ? "y" : "z" : r.in(0, 4) ? "q" : r.pick(ns); }
	if (k.k == "rs") { k.dlo = r.in(0, 2); k.dhi = r.in(1, 6); }
	return k; }
static void history(Rng& r, bool con, bool bulks) { bool strict = r.in(0, 3) != 0, cs = r.in(0, 2);
	struct Op { int what; Kind k; i64 n; int sep; std::string t, v; }; std::vector<Op> ops; std::string input; const std::string ws = " \n\t\r ";
	auto gap = [&](int c) { if (strict) { if (r.in(0, 60)) input += (char)c; if (r.in(0, 80) == 0) input += r.pick(ws); } else for (i64 n = r.in(0, 20) == 0 ? 0 : r.in(1, 4); n > 0; n--) input += r.pick(ws); };
	int m = (int)r.in(1, 6); for (int i = 0; i < m; i++) {
		if (i) { int c = r.in(0, 2) ? '\n' : ' '; gap(c); ops.push_back({2, {}, 0, c, "", ""}); }
		Kind k = kind(r, con); std::string like = r.in(0, 40) == 0 ? "str" : k.k;
		auto good = [&]{ std::string t = tokenFor(like, r); for (int tries = 0; tries < 12; tries++) { // mostly tokens which fit the bounds
			bool fit = true; if (k.k == "str") { fit = !k.b or ((i64)t.size() >= k.lo and (i64)t.size() < k.hi); if (fit and !k.pat.empty()) { std::string f = t; if (!cs) for (auto& c : f) if (c >= 'A' and c <= 'Z') c += 32; fit = std::regex_match(f, rx(k.pat)); } } else if (k.b) { long double v = std::strtold(t.c_str(), nullptr); fit = v >= k.lo and v < k.hi; if (k.k == "rs") { auto d = t.find('.'); i64 dc = d == std::string::npos ? 0 : t.size() - d - 1; fit = fit and dc >= k.dlo and dc < k.dhi; } }
			if (fit or r.in(0, 25) == 0) break; t = tokenFor(like, r); } return t; };
		if (bulks and r.in(0, 4)) { i64 n = r.in(0, 10) == 0 ? 0 : r.in(1, 6); int c = r.in(0, 2) ? '\n' : ' '; int sep = r.in(0, 25) == 0 ? r.pick(std::string("x\t,\0z")) : c; for (i64 j = 0; j < n; j++) { if (j) gap(c); input += good(); } ops.push_back({1, k, n, sep, "", ""}); }
		else if (!con and r.in(0, 2)) { std::string t = r.pick(std::vector<std::string>{"str", "str", "int", "real"}), v = tokenFor(t, r), w = v; if (t == "int" and (v[0] == '+' or v == "-0" or (v[0] == '0' and v.size() > 1))) v = w = "7"; if (t == "real" and (v == "nan" or (v[0] == '0' and v.size() > 1 and v[1] != '.'))) v = w = "1.5"; if (t == "str" and r.in(0, 2)) for (auto& c : w) { if (r.in(0, 2)) c = toLower(c); else c = toUpper(c); } if (r.in(0, 6) == 0) { w = tokenFor(t, r); if (t == "str" and r.in(0, 2)) w = v + "x"; if (t == "str" and r.in(0, 3) == 0) w = v.substr(0, v.size() - 1) + "?"; } if (t == "real" and w == v and r.in(0, 2)) { w += w.find('.') == std::string::npos ? ".000" : "00"; if (w.find('.') != std::string::npos and w.size() > w.find('.') + 4) w.resize(w.find('.') + 4); }
			if (t == "str" and r.in(0, 40) == 0) v = r.in(0, 2) ? "" : "a b"; input += w; ops.push_back({3, {}, 0, 0, t, v}); }
		else { input += good(); ops.push_back({0, k, 0, 0, "", ""}); }
	}
	if (r.in(0, 3) == 0) input += "\n"; if (r.in(0, 15) == 0) input.resize(r.next() % (input.size() + 1));
	{ std::istringstream y(input); for (std::string t; y >> t;) { auto d = t.find('.'); if (d != std::string::npos and d > 0 and isDigit(t[d - 1]) and t.size() > d + 4) return history(r, con, bulks); } } // the specification keeps reals in thousandths
	Case c(input, strict, cs, con); if (con and r.in(0, 3) == 0) for (auto n : {"long_name", "y"}) c.con(n); if (con and r.in(0, 6) == 0) c.badName(r.in(0, 2) ? "a b" : "");
	for (auto& o : ops) { if (o.what == 0) c.call(o.k, false, 0, 0); if (o.what == 1) c.call(o.k, true, o.n, o.sep); if (o.what == 2) c.sep(o.sep); if (o.what == 3) c.expect(o.t, o.v); }
	if (con) { static const std::vector<std::string> ns = {"x", "y", "z", "long_name", "q"}; // direct logging
		std::map<std::string, std::string> ty = {{"x", "str"}, {"y", "int"}, {"z", "int"}, {"q", "real"}, {"long_name", r.in(0, 2) ? "vec" : "set"}};
		for (i64 i = r.in(0, 6); i > 0; i--) { std::string n = r.pick(ns), t = r.in(0, 12) ? ty[n] : ty[r.pick(ns)]; i64 lo = r.in(-5, 3), hi = r.in(2, 9), v = r.in(0, 3) == 0 ? lo : r.in(0, 3) == 0 ? hi - 1 : r.in(-9, 12); std::string sf; if (t == "str" or t == "vec") v = r.in(0, 9); if (t == "real") { v = v * 250; std::string s = std::to_string(std::llabs(v)); while (s.size() < 4) s = "0" + s; std::string w = (v < 0 ? "-" : "") + s.substr(0, s.size() - 3) + "." + s.substr(s.size() - 3); c.direct(n, t, std::to_string(lo) + ".000", std::to_string(hi) + ".000", r.in(0, 4) == 0 ? std::to_string(hi) + ".000" : w); } else c.direct(n, t, std::to_string(lo), std::to_string(hi), std::to_string(v)); } }
	c.finish(); }
int main(int argc, char** argv) { init0(); bool th = thorough(); Rng r(envSeed()); std::string mode = argv[1];
	if (argc > 2) { std::ifstream f(argv[2]); for (std::string l; std::getline(f, l);) { // strict cs | bytes | k,n,sep
		auto b = l.find('|'), b2 = l.find('|', b + 1); std::string input; std::stringstream x(l.substr(b + 1, b2 - b - 1)); for (std::string t; std::getline(x, t, ',');) input += (char)std::stoi(t);
		Case c(input, l[0] == '1', l[1] == '1', false); std::stringstream y(l.substr(b2 + 1)); char k; i64 n; int s; while (y >> k >> n >> s) { Kind q; if (k == 'i' or k == 'I') q.k = "int"; if (k == 'S') { q.b = true; q.lo = 1; q.hi = 2; q.con = "x"; } if (k == 'I') { q.b = true; q.lo = 1; q.hi = 11; q.con = "y"; } c.call(q, true, n, s); } } }
	int n = th ? 60000 : 5000;
	if (mode == "str") { for (int i = 0; i < n; i++) history(r, false, false);
		for (int i = 0; i < n / 10; i++) { auto big = [&](i64 m) { std::string t; for (; m > 0; m--) t += (char)(r.in(0, 3) ? r.in('a', 'e') : r.in(33, 127)); return t; }; std::string v = big(r.in(0, 4) ? r.in(20, 120) : r.in(120, 600)), w = v;
			switch (r.in(0, 5)) { case 0: w[r.next() % w.size()] ^= 32; break; case 1: { auto& c = w[w.size() - 1 - r.next() % std::min<u64>(w.size(), 20)]; c = c == 'z' ? 'y' : 'z'; break; } case 2: for (auto& c : w) if (isLetter(c) and r.in(0, 2)) c ^= 32; break; case 3: if (r.next() & 1) w.pop_back(); else w += 'q'; break; }
			for (auto& c : w) if (c <= 32 or c == 127) c = 'k';
			Case c(w + "\n", r.in(0, 2), r.in(0, 2), false); if (r.in(0, 3)) c.expect("str", v); else { Kind k; k.b = true; k.lo = r.in(0, (i64)w.size() + 2); k.hi = r.in(0, 3) ? (i64)w.size() + r.in(0, 3) : 700; c.call(k, false, 0, 0); } c.sep('\n'); }
		const std::string al = "abABzZ@[`{\x80\xc3_"; for (int i = 0; i < n; i++) { std::string a, b; for (i64 k = r.in(0, 6); k > 0; k--) a += r.pick(al); b = a; if (r.in(0, 3) == 0) { b.clear(); for (i64 k = r.in(0, 6); k > 0; k--) b += r.pick(al); } else if (r.in(0, 2)) { for (auto& c : b) if (r.in(0, 2)) c ^= 32; if (r.in(0, 2)) b.resize(r.in(0, b.size() + 1)); else b += r.pick(al); } bool cs = r.in(0, 2); auto q = details::stringEqual(a, b, cs); Ev("streq").b("cs", cs).bytes("a", a).bytes("b", b).b("eq", q).b("has", q.hasReason()).i("pos", (i64)q.reason.value_or(0)); auto v = ValidateBase::stringEqual(a, b, cs); Ev("streq").b("cs", cs).bytes("a", a).bytes("b", b).b("eq", v).b("has", v.hasReason()).i("pos", (i64)v.reason.value_or(0)); if (!cs) { auto d = ValidateBase::stringEqual(a, b); Ev("streq").b("cs", cs).bytes("a", a).bytes("b", b).b("eq", d).b("has", d.hasReason()).i("pos", (i64)d.reason.value_or(0)); } } }
	if (mode == "bulk") for (int i = 0; i < (th ? 60 : 24); i++) { static const std::vector<std::string> ks = {"str", "int", "real", "rs"}; Kind k; k.k = ks[i % 4]; k.b = true; k.lo = 0; k.hi = 30; k.dlo = 0; k.dhi = 5; if (i % 8 >= 4 and k.k != "rs") k.b = false; i64 m = r.in(1, 4) * 64 + r.in(-3, 40); int sp = r.in(0, 2) ? ' ' : '\n'; std::string t; i64 bad = r.in(0, 3) ? -1 : r.in(0, m);
		for (i64 j = 0; j < m; j++) { if (j) t += j == bad and i % 3 == 0 ? '\t' : (char)sp; t += j == bad and i % 3 ? "~x~" : k.k == "str" ? std::string(r.in(1, 4), 'a') : std::to_string(r.in(0, 30)); }
		Case c(t + " 7\n", i % 5 != 0, true, false); c.call(k, true, m, sp); c.sep(' '); Kind q; c.call(q, false, 0, 0); }
	if (mode == "bulk") for (int i = 0; i < n; i++) history(r, i % 5 == 0, true);
	if (mode == "con") for (int i = 0; i < n; i++) history(r, true, i % 2);
}
