// reports of failed reads: args <short|long>
#include "vh.h"
using namespace vf;
static std::string jb(const std::string& s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ','; r += std::to_string((int)c); } return r + "]"; }
struct Kind { std::string k = "str"; bool b = false; i64 lo = 0, hi = 0; std::string pat; i64 dlo = 0, dhi = 0;
	std::string json() const { return "{\"k\":\"" + k + "\",\"b\":" + (b ? "true" : "false") + ",\"lo\":" + jb(std::to_string(lo)) + ",\"hi\":" + jb(std::to_string(hi)) + ",\"pat\":\"" + pat + "\",\"dlo\":" + std::to_string(dlo) + ",\"dhi\":" + std::to_string(dhi) + "}"; } };
static const std::regex& rx(const std::string& p) { static std::map<std::string, std::regex> m; auto it = m.find(p); if (it == m.end()) it = m.emplace(p, std::regex(p)).first; return it->second; }
// a stream whose position cannot be determined
struct Pipe : std::streambuf { std::string d; explicit Pipe(std::string s) : d(std::move(s)) { setg(d.data(), d.data(), d.data() + d.size()); } };
struct Op { int what = 0; Kind k; i64 n = 0; int sep = 0; std::string t, v; }; // 0 read 1 bulk 2 separator 3 expect 4 eof 5 noteof
static u64 nCase = 0; static std::ostringstream* current = nullptr; static std::string said; static bool over = false;
struct Case { std::ostringstream sink; OutputStream out; std::unique_ptr<Pipe> pipe; std::unique_ptr<std::istream> is; InputStream in; bool dead = false;
	Case(const std::string& input, bool strict, bool cs, int kind) : out(sink) { current = &sink; said.clear(); over = false;
		Ev("new").b("strict", strict).b("cs", cs).b("seek", kind != 2).bytes("input", input);
		int v = nCase++ % 2 ? 43 : 1;
		if (kind == 1) { { std::ofstream f("in.txt", std::ios::binary); f << input; } in = InputStream(std::filesystem::path("in.txt"), strict, cs, out, Verdicts::Verdict(v)); return; }
		if (kind == 2) { pipe = std::make_unique<Pipe>(input); is = std::make_unique<std::istream>(pipe.get()); } else is = std::make_unique<std::istringstream>(input);
		in = InputStream(*is, strict, cs, out, Verdicts::Verdict(v)); }
	// reason [ Line: N, Char: C \n text \n blanks ^ ~*]
	std::string msg() { std::string m = said; while (!m.empty() and m.back() == '\n') m.pop_back(); auto p = m.find(" Line: ");
		i64 line = -1, ch = -1; std::string text, pad; int used = 0; bool where = p != std::string::npos; i64 npad = -1, mark = -1;
		if (where) { long long a = 0, b = 0; if (std::sscanf(m.c_str() + p, " Line: %lld, Char: %lld%n", &a, &b, &used) == 2 and m[p + used] == '\n') { line = a; ch = b;
			auto q = p + used + 1, e = m.find('\n', q); if (e != std::string::npos) { text = m.substr(q, e - q); std::string rest = m.substr(e + 1); std::size_t i = 0; while (i < rest.size() and rest[i] == ' ') i++; std::size_t j = i; if (j < rest.size() and rest[j] == '^') { j++; while (j < rest.size() and rest[j] == '~') j++; if (j == rest.size()) { npad = (i64)i; mark = (i64)(j - i); } } } } }
		return "{\"reason\":" + jb(m.substr(0, p)) + ",\"where\":" + (where ? "true" : "false") + ",\"line\":" + std::to_string(line) + ",\"char\":" + std::to_string(ch) + ",\"text\":" + jb(text) + ",\"pad\":" + std::to_string(npad) + ",\"mark\":" + std::to_string(mark) + "}"; }
	bool run(const Op& o) { const Kind& k = o.k; char sp = (char)o.sep; i64 n = o.n;
		int code = outcome([&]{
			if (o.what == 0) { if (k.k == "str") { if (k.pat.empty()) { if (k.b) in.string(k.lo, k.hi); else in.string(); } else if (k.b) in.string(rx(k.pat), k.lo, k.hi); else in.string(rx(k.pat)); }
				else if (k.k == "int") { if (k.b) in.integer(k.lo, k.hi); else in.integer(); } else if (k.k == "real") { if (k.b) in.real(k.lo, k.hi); else in.real(); } else in.realStrict(k.lo, k.hi, k.dlo, k.dhi); }
			if (o.what == 1) { if (k.k == "str") { if (k.pat.empty()) { if (k.b) in.strings(k.lo, k.hi, n, sp); else in.strings(n, sp); } else if (k.b) in.strings(rx(k.pat), k.lo, k.hi, n, sp); else in.strings(rx(k.pat), n, sp); }
				else if (k.k == "int") { if (k.b) in.integers(k.lo, k.hi, n, sp); else in.integers(n, sp); } else if (k.k == "real") { if (k.b) in.reals(k.lo, k.hi, n, sp); else in.reals(n, sp); } else in.realsStrict(k.lo, k.hi, k.dlo, k.dhi, n, sp); }
			if (o.what == 2) { if (o.sep == ' ') in.space(); else in.newline(); }
			if (o.what == 3) { if (o.t == "str") in.expectString(o.v); else if (o.t == "int") in.expectInt(std::stoll(o.v)); else in.expectReal(std::strtold(o.v.c_str(), nullptr)); }
			if (o.what == 4) in.eof();
			if (o.what == 5) in.noteof();
		});
		dead = code != 0; static const char* names[] = {"read", "bulk", "sep", "expect", "eof", "noteof"};
		Ev e(names[o.what]); e.b("dead", code > 0); if (o.what <= 1) e.raw("k", k.json()); if (o.what == 1) e.i("n", n).i("sep", o.sep); if (o.what == 2) e.i("c", o.sep); if (o.what == 3) e.str("t", o.t).bytes("val", o.v); if (code > 0) e.raw("msg", msg());
		return !dead; } };
static void run(const std::string& input, bool strict, bool cs, int kind, const std::vector<Op>& ops) { Case c(input, strict, cs, kind); for (auto& o : ops) if (!c.run(o)) return; }
static std::string dec3(Rng& r, i64 lim) { i64 v = r.in(-lim, lim); int d = (int)r.in(0, 4); for (int i = d; i < 3; i++) v /= 10; std::string a = std::to_string(std::llabs(v)); while ((int)a.size() <= d) a = "0" + a; return (v < 0 ? "-" : "") + a.substr(0, a.size() - d) + (d ? "." + a.substr(a.size() - d) : ""); }
static std::string word(Rng& r, i64 n) { static const std::string al = "abcdefghijklmnopqrstuvwxyz0123456789ABCXYZ.,-_/"; std::string t; while ((i64)t.size() < n) t += r.pick(al); return t; }
static std::string tok(Rng& r, const std::string& k) {
	if (r.in(0, 12) == 0) return word(r, r.in(1, 12));
	if (k == "int") return r.in(0, 20) == 0 ? "0" + std::to_string(r.in(0, 9)) : r.in(0, 20) == 0 ? std::to_string(INT64_MAX) + "0" : std::to_string(r.in(0, 8) ? r.in(-50, 50) : r.in(0, 2) ? INT64_MAX - r.in(0, 2) : INT64_MIN + r.in(0, 2));
	if (k == "real" or k == "rs") return dec3(r, r.in(0, 2) ? 6000 : 800000);
	switch (r.in(0, 6)) { case 0: return word(r, r.in(1, 90)); case 1: { std::string t; for (i64 i = r.in(1, 5); i > 0; i--) t += (char)(r.in(0, 2) ? r.in('a', 'd') : r.in(0, 2) ? r.in(33, 127) : r.in(128, 256)); return t; } default: return word(r, r.in(1, 9)); } }
static Kind kind(Rng& r) { Kind k; static const std::vector<std::string> ks = {"str", "str", "int", "int", "real", "rs"}, pats = {"[a-z]+", "[A-Za-z0-9]*", "a|bc", "[01]{2,3}", ".*"};
	k.k = r.pick(ks); k.b = k.k == "rs" or r.in(0, 2); if (k.k == "str" and r.in(0, 2)) k.pat = r.pick(pats);
	if (k.b) { if (k.k == "str") { k.lo = r.in(0, 3); k.hi = r.in(0, 3) ? r.in(1, 12) : 95; } else { k.lo = r.in(-40, 2); k.hi = r.in(0, 40); } if (k.k == "int" and r.in(0, 8) == 0) { k.lo = INT64_MIN + r.in(0, 3); k.hi = INT64_MAX - r.in(0, 3); } }
	if (k.k == "rs") { k.dlo = r.in(0, 2); k.dhi = r.in(1, 6); } return k; }
// a long input: harmless lines and tokens, read in bulk, then reads of which one probably fails
static void history(Rng& r) { bool strict = r.in(0, 4) != 0, cs = r.in(0, 3) != 0; std::string input; std::vector<Op> ops; const std::string ws = strict ? " \n" : " \n\t\r\v\f ";
	auto gap = [&](int c) { if (strict) { input += r.in(0, 25) ? (char)c : r.pick(std::string(" \n\t\r\x01")); if (r.in(0, 60) == 0) input += r.pick(std::string(" \n\t")); Op o; o.what = 2; o.sep = c; ops.push_back(o); } else for (i64 n = r.in(1, 4); n > 0; n--) input += r.in(0, 3) ? (char)c : r.pick(ws); };
	Kind any; for (i64 lines = r.in(0, 4); lines > 0; lines--) { Op o; o.what = 1; o.k = any; o.sep = r.in(0, 6) ? ' ' : '\n'; o.n = r.in(1, r.in(0, 2) ? 4 : 25); for (i64 i = 0; i < o.n; i++) { if (i) { input += (char)o.sep; if (!strict and r.in(0, 4) == 0) input += r.pick(ws); } input += word(r, r.in(0, 6) ? r.in(1, 9) : r.in(1, 80)); } ops.push_back(o); gap(r.in(0, 3) ? '\n' : ' '); }
	if (r.in(0, 3)) { Op o; o.what = 1; o.k = any; o.sep = ' '; o.n = r.in(1, 20); for (i64 i = 0; i < o.n; i++) { if (i) input += ' '; input += word(r, r.in(1, r.in(0, 3) ? 9 : 60)); } ops.push_back(o); gap(' '); }
	for (i64 m = r.in(1, 6); m > 0; m--) { Op o; o.k = kind(r); o.what = r.in(0, 3) == 0 ? 3 : r.in(0, 4) == 0 ? 1 : 0;
		if (o.what == 3) { o.t = r.pick(std::vector<std::string>{"str", "str", "int", "real"}); o.v = o.t == "int" ? std::to_string(r.in(-9, 30)) : o.t == "real" ? dec3(r, r.in(0, 2) ? 3000 : 90000) : word(r, r.in(0, 2) ? r.in(1, 12) : r.in(1, 70)); std::string w = o.v;
			if (r.in(0, 3)) { if (o.t == "int") w = std::to_string(r.in(-9, 30)); else if (o.t == "real") w = dec3(r, r.in(0, 2) ? 3000 : 90000); else { switch (r.in(0, 4)) { case 0: w[r.next() % w.size()] = r.pick(std::string("#\"~Q")); break; case 1: w += word(r, r.in(1, 40)); break; case 2: w.resize(r.next() % w.size() + 1); break; default: w = word(r, r.in(1, 50)); } } }
			if (o.t == "str" and r.in(0, 2)) for (auto& c : w) if (r.in(0, 2)) c = toUpper(c); if (r.in(0, 15) == 0) w = tok(r, "str"); input += w; }
		else { o.n = o.what == 1 ? r.in(0, 5) : 1; o.sep = r.in(0, 2) ? ' ' : '\n'; for (i64 i = 0; i < o.n; i++) { if (i) { if (strict) input += r.in(0, 12) ? (char)o.sep : r.pick(std::string(" \n\tx")); else input += r.pick(ws); } input += tok(r, o.k.k); } }
		ops.push_back(o); if (r.in(0, 6) == 0) { Op e; e.what = 5; ops.push_back(e); } if (m > 1 or r.in(0, 3)) gap(r.in(0, 2) ? ' ' : '\n'); }
	if (r.in(0, 2)) { Op e; e.what = 4; ops.push_back(e); } if (r.in(0, 2)) input += r.in(0, 2) ? "\n" : word(r, r.in(1, 120)) + " " + word(r, r.in(1, 20)) + "\n" + word(r, 3);
	if (r.in(0, 12) == 0) input.resize(r.next() % (input.size() + 1));
	{ std::istringstream y(input); for (std::string t; y >> t;) { auto d = t.find('.'); if (d != std::string::npos and d > 0 and isDigit(t[d - 1]) and t.size() > d + 4) return; if (t.find_first_of("eE+") != std::string::npos and std::regex_match(t, REAL_REGEX)) return; if (t.size() > 4 and t[0] == '.') return; } } // the specification keeps reals in thousandths
	for (auto& c : input) if (c == '\0') return;
	run(input, strict, cs, (int)r.in(0, 8) ? (int)r.in(0, 2) : 2, ops); }
int main(int, char** argv) { init0(); vf::onExit = []{ if (!over) said = current->str(); over = true; }; // realStrict catches the exception the harness throws here
	 bool th = thorough(); Rng r(envSeed()); std::string mode = argv[1];
	if (mode == "short") { std::vector<Op> al(6); al[0].k.k = "str"; al[1].k.k = "int"; al[1].k.b = true; al[1].k.lo = 2; al[1].k.hi = 9; al[2].what = 2; al[2].sep = ' '; al[3].what = 2; al[3].sep = '\n'; al[4].what = 4; al[5].what = 5;
		const std::string cs = "a1 \n\x01"; int L = th ? 5 : 4; std::vector<std::string> all = {""}; for (std::size_t i = 0; i < all.size(); i++) if ((int)all[i].size() < L) for (char c : cs) all.push_back(all[i] + c);
		for (auto& s : all) for (int strict = 0; strict < 2; strict++) for (int q = 0; q < ((int)s.size() < 3 ? 216 : th ? 40 : 12); q++) { int x = (int)s.size() < 3 ? q : (int)(r.next() % 216); run(s, strict, true, 0, {al[x / 36], al[x / 6 % 6], al[x % 6]}); } }
	else { // every column around the place where lines begin to be cut, and pieces that end around it
		Op a, b, p; a.what = 0; b.what = 2; b.sep = ' '; p.what = 0; p.k.pat = "[01]{2,3}";
		for (int col = 1; col < 100; col += col >= 14 and col < 27 ? 1 : (int)r.in(1, 5)) for (int q = 0; q < (th ? 40 : 10); q++) { int end = q % 5 == 0 ? (int)r.in(col + 2, col + 100) : (int)r.in(56, 86); if (end < col + 1) continue;
			run(word(r, 3) + "\n" + word(r, col - 1) + " " + word(r, end - col) + (q % 3 == 0 ? "" : q % 3 == 1 ? "\n" : " " + word(r, r.in(1, 30)) + "\n"), q % 2 == 0, true, q % 4 == 3, {a, [&]{ Op n = b; n.sep = '\n'; return n; }(), a, b, p}); }
		// positions beyond 2^16
		for (int i = 0; i < (th ? 6 : 2); i++) { Op m; m.what = 1; m.n = 70; m.sep = '\n'; std::string t; for (int j = 0; j < 70; j++) t += word(r, 995) + "\n"; Op nl = b; nl.sep = '\n'; run(t + "ok " + word(r, r.in(3, 90)) + "\n", true, true, i % 2, {m, nl, a, b, p}); } }
	if (mode == "long") for (int i = 0, n = th ? 25000 : 3000; i < n; i++) history(r); }
