// command line parser: args <stimuli>
#include "vh.h"
using namespace vf;
static std::string jb(std::string_view s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ','; r += std::to_string((int)c); } return r + "]"; }
static std::string jv(const std::string& s) { return jb(s); } static std::string jv(Integer v) { return jb(std::to_string(v)); } static std::string jv(Real v) { return num(v); }
template<typename T> std::string jl(const std::vector<T>& v) { std::string r = "["; for (auto& x : v) { if (r.size() > 1) r += ','; r += jv(x); } return r + "]"; }
template<typename... T> std::string jt(const std::tuple<T...>& t) { std::string r = "["; std::apply([&](const auto&... x) { ((r += (r.size() > 1 ? "," : "") + jv(x)), ...); }, t); return r + "]"; }
static void ask(const CommandParser& p, const std::string& how, const std::string& name, Rng& r) {
	auto get = [&]{ return how == "cmd" ? p[name] : how == "raw" ? p.getRaw(name) : p.getRaw(); };
	Integer cnt = 0; bool ok = false;
	{ std::string body; int code = outcome([&]{ const Command c = get(); cnt = c.parameterCount(); std::string ps = "["; for (Integer i = -1; i <= cnt + 1; i++) { auto q = c[i]; if (ps.size() > 1) ps += ","; ps += "{\"x\":" + std::string(q.exists() and (bool)q ? "true" : "false") + ",\"s\":" + jb(q.asString("?")) + "}"; }
		body = ",\"found\":" + std::string(c.exists() ? "true" : "false") + ",\"conv\":" + ((bool)c ? "true" : "false") + ",\"count\":" + std::to_string(cnt) + ",\"params\":" + ps + "],\"first\":" + jb(c.asString("?")) + ",\"list\":" + jl(c.asStrings()); ok = true; });
	  Ev e("query"); e.str("how", how).bytes("name", name).i("code", code); if (code == 0) e.s += body; }
	if (!ok) return;
	auto list = [&](const char* ty, int n, auto f) { std::string v = "[]"; int code = outcome([&]{ v = f(get()); }); Ev("list").str("how", how).bytes("name", name).str("ty", ty).i("n", n).i("code", code).raw("vals", code ? "[]" : v); };
	if (r.in(0, 2)) list("s", -1, [](const Command& c) { return jl(c.asStrings()); });
	list("i", -1, [](const Command& c) { return jl(c.asIntegers()); });
	list("r", -1, [](const Command& c) { return jl(c.asReals()); });
	switch (r.in(0, 4)) {
		case 0: list("s", 2, [](const Command& c) { return jt(c.asStrings<2>()); }); list("i", 1, [](const Command& c) { return jt(c.asIntegers<1>()); }); break;
		case 1: list("i", 2, [](const Command& c) { return jt(c.asIntegers<2>()); }); list("r", 1, [](const Command& c) { return jt(c.asReals<1>()); }); break;
		case 2: list("i", 3, [](const Command& c) { return jt(c.asIntegers<3>()); }); list("r", 2, [](const Command& c) { return jt(c.asReals<2>()); }); break;
		default: list("s", 0, [](const Command& c) { return jt(c.asStrings<0>()); }); list("s", 3, [](const Command& c) { return jt(c.asStrings<3>()); }); list("i", 0, [](const Command& c) { return jt(c.asIntegers<0>()); }); }
	auto one = [&](const char* ty, Integer i, bool def, bool whole, auto f, auto isdef) { std::string v = "[]"; bool d = false; int code = outcome([&]{ auto c = get(); auto x = f(c, i, def, whole); v = jv(x); d = isdef(x); });
		Ev("one").str("how", how).bytes("name", name).str("ty", ty).i("i", i).b("def", def).b("whole", whole).i("code", code).b("isdef", d).raw("val", v); };
	for (int k = 0; k < 2; k++) { Integer i = r.in(0, cnt + 1); bool def = r.in(0, 2), whole = i == 0 and r.in(0, 2);
		one("s", i, def, whole, [](const Command& c, Integer i, bool d, bool w) { return w ? (d ? c.asString("dflt") : c.asString()) : d ? c[i].asString("dflt") : c[i].asString(); }, [](const std::string& s) { return s == "dflt"; });
		one("i", i, def, whole, [](const Command& c, Integer i, bool d, bool w) { return w ? (d ? c.asInteger(-77) : c.asInteger()) : d ? c[i].asInteger(-77) : c[i].asInteger(); }, [](Integer x) { return x == -77; });
		one("r", i, def, whole, [](const Command& c, Integer i, bool d, bool w) { return w ? (d ? c.asReal(-77.25L) : c.asReal()) : d ? c[i].asReal(-77.25L) : c[i].asReal(); }, [](Real x) { return x == -77.25L; }); }
}
static void run(std::vector<std::string> v, Rng& r, bool full) {
	std::vector<char*> a; for (auto& s : v) a.push_back(s.data()); a.push_back(nullptr);
	std::unique_ptr<CommandParser> p; int code = outcome([&]{ p = std::make_unique<CommandParser>((int)v.size(), a.data()); });
	Ev("new").bytess("argv", v).i("code", code); if (code) return;
	if (r.in(0, 3) == 0) { CommandParser q(std::move(*p)); *p = CommandParser(); *p = std::move(q); } // (moving is what init does)
	std::vector<std::string> names = {"--x", "--y", "--", "a"}; if (full) { names = {"--seed", "--a", "-b", "--", "7"}; if (!v.empty()) names.push_back(r.pick(v)); if (!v.empty()) names.push_back(r.pick(v)); if (r.in(0, 4) == 0) names.push_back(r.in(0, 2) ? "" : "--a b"); }
	for (auto& n : names) for (auto h : {"cmd", "raw"}) if (full ? r.in(0, 3) != 0 : r.in(0, 6) == 0) ask(*p, h, n, r);
	if (r.in(0, 4) == 0) ask(*p, "all", "", r);
	for (Integer i : {(Integer)-1, (Integer)r.in(0, v.size() + 2), (Integer)v.size()}) { std::string s; int c = outcome([&]{ s = std::string((*p)[i]); }); Ev("idx").i("i", i).i("code", c).bytes("val", s); }
}
int main(int argc, char** argv) { init0(); bool th = thorough(); Rng r(envSeed());
	std::ifstream f(argv[1]); for (std::string l; std::getline(f, l);) { std::vector<std::string> v; std::stringstream x(l); for (std::string t; x >> t;) v.push_back(t); run(v, r, false); }
	static const std::vector<std::string> pool = {"--seed", "--a", "-b", "--", "-", "", "7", "-7", "+7", "+-7", "-+7", "++7", "--7", "007", "-0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1.5", "-1.5e3", "+2.25", ".5", "5.", "+.5", "1e", "e5", "1.2.3", "1-2", "12+", "gh", "a b", "--a b", "x=1", "1e5", "--long_name", "--A", "prog", "/p/in", "1e400", "0.1", "123456.789", "--seed2", "7 ", "\t"};
	int n = th ? 30000 : 2200; for (int k = 0; k < n; k++) { std::vector<std::string> v; int m = (int)r.in(0, 9); bool big = r.in(0, 3) == 0; for (int i = 0; i < m; i++) { std::string s = r.pick(pool); if (s.substr(0, 2) == "--" and s.size() > 2 and std::find(v.begin(), v.end(), s) != v.end() and r.in(0, 5)) continue; if (big and r.in(0, 2)) s = std::to_string((i64)r.next() >> r.in(0, 60)); v.push_back(s); } run(v, r, true); }
}
