// vector images: h_svg <scratch directory>.  Coordinates are 64ths of a unit
#include "common.h"
#include "visualizer_svg.h"
#include <map>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
static Rng R(1);
struct Pen { int c[3]; int w, cap, join; bool scale; };
struct Sh { std::string s; std::vector<i64> v; std::vector<std::pair<i64, i64>> pts; std::vector<Pen> stroke; std::vector<std::vector<int>> fill; std::string text; };
static std::string jv(const std::vector<i64>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static std::string jc(const Color& c) { return "[" + std::to_string(c.r) + "," + std::to_string(c.g) + "," + std::to_string(c.b) + "]"; }
static std::string js(const Sh& x) { std::string s = "{\"s\":\"" + x.s + "\",\"v\":";
	if (x.s == "comment") { s += "["; for (std::size_t i = 0; i < x.text.size(); i++) s += (i ? "," : "") + std::to_string((int)x.text[i]); s += "]"; } else s += jv(x.v);
	s += ",\"pts\":["; for (std::size_t i = 0; i < x.pts.size(); i++) s += std::string(i ? "," : "") + "[" + std::to_string(x.pts[i].first) + "," + std::to_string(x.pts[i].second) + "]";
	s += "],\"stroke\":["; for (auto& p : x.stroke) s += "{\"c\":[" + std::to_string(p.c[0]) + "," + std::to_string(p.c[1]) + "," + std::to_string(p.c[2]) + "],\"w\":" + std::to_string(p.w) + ",\"cap\":" + std::to_string(p.cap) + ",\"join\":" + std::to_string(p.join) + ",\"scale\":" + (p.scale ? "true" : "false") + "}";
	s += "],\"fill\":["; for (auto& f : x.fill) s += "[" + std::to_string(f[0]) + "," + std::to_string(f[1]) + "," + std::to_string(f[2]) + "]";
	return s + "]}"; }
static Real U(i64 k) { return Real(k) / 64; }
static Color col(const int* c) { return Color(std::uint8_t(c[0]), std::uint8_t(c[1]), std::uint8_t(c[2])); }
static Point P(i64 x, i64 y) { return Point(U(x), U(y)); }
static void style(Shape& t, const Sh& x) { if (not x.stroke.empty()) { const Pen& p = x.stroke[0]; Stroke k = p.scale && p.w % 2 ? Stroke(col(p.c), U(p.w)) : Stroke(col(p.c), U(p.w), p.scale);
		if (p.cap) k.linecap = p.cap == 1 ? Linecap::BUTT : p.cap == 2 ? Linecap::ROUND : Linecap::SQUARE; if (p.join) k.linejoin = p.join == 1 ? Linejoin::ROUND : p.join == 2 ? Linejoin::BEVEL : Linejoin::MITER; t.stroke = k; }
	if (not x.fill.empty()) { if (x.fill[0][0] % 2) t.fill = col(x.fill[0].data()); else t.fill = Fill(col(x.fill[0].data())); } }
static std::vector<Point> pv(const Sh& x) { std::vector<Point> r; for (auto [a, b] : x.pts) r.push_back(P(a, b)); return r; }
template<typename F> static void with(const Sh& x, F f) { auto& v = x.v;
	if (x.s == "rect") { Rectangle t(U(v[0]), U(v[1]), U(v[2]), U(v[3])); style(t, x); f(t); }
	else if (x.s == "circle") { Circle t(U(v[0]), U(v[1]), U(v[2])); style(t, x); f(t); }
	else if (x.s == "ellipse") { Ellipse t(U(v[0]), U(v[1]), U(v[2]), U(v[3])); style(t, x); f(t); }
	else if (x.s == "line") { Line t(U(v[0]), U(v[1]), U(v[2]), U(v[3])); style(t, x); f(t); }
	else if (x.s == "polygon") { Polygon t(pv(x)); style(t, x); f(t); }
	else if (x.s == "polyline") { Polyline t(pv(x)); style(t, x); f(t); }
	else f(Comment(x.text)); }
static i64 coord(int big) { switch (R.in(0, big ? 7 : 5)) { case 0: return 64 * R.in(-20, 21); case 1: return 0; case 2: return R.in(-64, 65); case 5: return R.in(-100000000, 100000000); case 6: return 64 * R.in(-1000000, 1000000); default: return R.in(-2000, 2000); } }
static int part() { static const int e[] = {0, 1, 15, 16, 127, 128, 254, 255}; return R.in(0, 2) ? (int)R.in(0, 256) : e[R.in(0, 8)]; }
static Sh shape(int kind, int big) { static const char* n[] = {"rect", "circle", "ellipse", "line", "polygon", "polyline", "comment"}; Sh x; x.s = n[kind]; auto size = [&] { i64 k = coord(big); return k < 0 ? -k : k; };
	if (kind == 6) { static const char* t[] = {"", "a", "a-b", "hello world", "<rect x=\"1\"/>", "&amp; \"'", "- a", "a > b"}; x.text = t[R.in(1, 8)]; return x; }
	if (kind == 0) x.v = {coord(big), coord(big), size(), size()}; else if (kind == 1) x.v = {coord(big), coord(big), size()}; else if (kind == 2) x.v = {coord(big), coord(big), size(), size()}; else if (kind == 3) x.v = {coord(big), coord(big), coord(big), coord(big)};
	else for (i64 i = R.in(0, 6); i > 0; i--) x.pts.push_back({coord(big), coord(big)});
	if (R.next() & 1) x.stroke.push_back({{part(), part(), part()}, (int)R.in(0, 300), (int)R.in(0, 4), (int)R.in(0, 4), R.in(0, 2) == 0});
	if (R.next() & 1) x.fill.push_back({part(), part(), part()});
	return x; }
static std::map<int, std::unique_ptr<SVG>> I;
static std::string dir; static int serial = 0;
static std::string path(int n) { return dir + "/f" + std::to_string(n) + ".svg"; }
static void begin() { I.clear(); for (int i = 0; i < 4; i++) std::remove(path(i).c_str()); Ev("start"); }
static void look(int n) { std::ifstream f(path(n), std::ios::binary); if (not f) { Ev("absent").i("n", n); return; } std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(); Ev("look").i("n", n); for (std::size_t i = 0; i < s.size(); i += 400) Ev("piece").bytes("b", std::string_view(s).substr(i, 400)); Ev("eof"); }
static void mk(int h, int n) { I[h] = n < 0 ? std::make_unique<SVG>() : std::make_unique<SVG>(path(n)); Ev("make").i("h", h).i("n", n); }
static void shiftEv(int h, const Sh& x) { Ev("shift").i("h", h).raw("s", js(x)); }
static void newlineEv(int h) { Ev("newline").i("h", h); }
static std::string boxOf(const SVG& g) { auto k = [](Real r) { Real t = r * 64; if (t != std::floor(t) or std::fabs(t) > 2e9L) t = 2000000001; return (i64)t; }; return jv({k(g.origin.x), k(g.origin.y), k(g.dimension.width), k(g.dimension.height)}); }
static void boxEv(int h) { Ev("box").i("h", h).raw("b", boxOf(*I[h])); }
static void put(int h, const Sh& x, int how) { SVG& g = *I[h]; with(x, [&](const auto& t) { switch (how) {
	case 0: g << t; shiftEv(h, x); break;
	case 1: g << t << std::endl; shiftEv(h, x); newlineEv(h); break;
	case 2: { Sh c; c.s = "comment"; c.text = "next"; g << Comment("next") << std::endl << t << std::endl; shiftEv(h, c); newlineEv(h); shiftEv(h, x); newlineEv(h); break; }
	case 3: { Sh y = shape((int)R.in(0, 6), 0); with(y, [&](const auto& u) { g << t << u << std::endl << std::flush << t; }); shiftEv(h, x); shiftEv(h, y); newlineEv(h); shiftEv(h, x); break; }
	default: g << std::endl; newlineEv(h); g << t; shiftEv(h, x); } }); }
static void end(int h) { I.erase(h); Ev("destroy").i("h", h); }
static void visual(int n, bool in, bool ans) { std::string base = path(n).substr(0, path(n).size() - 4), a = "1 2 3 a\n" + std::to_string(serial++), b = "x y\n"; if (in) std::ofstream(base + ".in") << a; if (ans) std::ofstream(base + ".ans") << b;
	Sh x = shape(4, 0), y = shape(0, 0); std::fflush(stdout); int fd[2]; if (pipe(fd)) std::exit(3);
	pid_t c = fork(); if (c == 0) { close(fd[0]); std::string prog = "visualizer"; char* av[] = {prog.data(), base.data(), nullptr}; Visualizer::init(2, av); std::stringstream s1, s2; s1 << Visualizer::testIn.rdbuf(); s2 << Visualizer::testAns.rdbuf(); with(x, [&](const auto& t) { with(y, [&](const auto& u) { Visualizer::image << t << std::endl << u; }); }); std::string s = s1.str() + "|" + s2.str(); if (write(fd[1], s.data(), s.size()) < 0) _exit(4); close(fd[1]); I.clear(); std::exit(0); }
	close(fd[1]); std::string got; char buf[256]; for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) got.append(buf, (std::size_t)k); close(fd[0]); int st; waitpid(c, &st, 0);
	Ev("visual").bytes("put", (in ? a : "") + "|" + (ans ? b : "")).bytes("got", got); Ev("make").i("h", 2).i("n", n); shiftEv(2, x); newlineEv(2); shiftEv(2, y); Ev("destroy").i("h", 2); look(n); std::remove((base + ".in").c_str()); std::remove((base + ".ans").c_str()); }
template<typename T> static std::string text(const T& t) { std::ostringstream o; o << t; return o.str(); }
static std::string jb(const std::string& s) { std::string r = "["; for (std::size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string((int)(unsigned char)s[i]); return r + "]"; }
template<typename F> static void frag(const Sh& x, F f) { std::string got; f(got); Ev("frag").raw("s", js(x)).bytes("b", got); }
static void same(const std::string& want, std::initializer_list<std::string> v) { std::string s = "["; for (auto& t : v) s += (s.size() > 1 ? "," : "") + jb(t); Ev("same").bytes("want", want).raw("v", s + "]"); }
int main(int, char** argv) { R = Rng(envSeed() * 15485863 + 35); bool th = thorough(); { std::string t = std::string(argv[1]) + "/svg.XXXXXX"; if (not mkdtemp(t.data())) return 3; dir = t; }
	begin();
	// every kind of shape alone
	for (int k = 0; k < (th ? 1400 : 210); k++) { Sh x = shape(k % 7, k % 5 == 0); with(x, [&](const auto& t) { Ev("frag").raw("s", js(x)).bytes("b", text(t)); }); }
	for (int kind = 0; kind < 7; kind++) for (int k = 0; k < 3; k++) { begin(); mk(0, 0); boxEv(0); put(0, shape(kind, k == 2), k); boxEv(0); end(0); look(0); }
	// the largest coordinates
	for (int k = 0; k < 12; k++) { begin(); mk(0, 0); for (int i = 0; i < 3; i++) { put(0, shape((k + i) % 6, 1), 0); boxEv(0); } end(0); look(0); }
	// histories
	for (int k = 0; k < (th ? 700 : 110); k++) { begin(); mk(0, 0); mk(1, (int)R.in(-1, 3)); std::map<int, bool> dead; for (int i = 0; i < 14; i++) { int h = (int)R.in(0, 3), g = (int)R.in(0, 3); bool a = I.count(h); switch (R.in(0, 15)) {
			case 0: if (not a) mk(h, (int)R.in(-1, 3)); break;
			case 1: if (a) { i64 x = coord(0), y = coord(0); I[h]->includeInBB(P(x, y)); Ev("include").i("h", h).raw("p", jv({x, y})); } break;
			case 2: if (a and R.next() % 2) { i64 x = coord(0), y = coord(0), w = R.in(0, 2000), hh = R.in(0, 2000); I[h]->origin = P(x, y); I[h]->dimension = Dimension(U(w), U(hh)); Ev("setbox").i("h", h).raw("b", jv({x, y, w, hh})); } break;
			case 3: if (a and I.count(g) and h != g) { *I[h] = std::move(*I[g]); Ev("move").i("h", h).i("g", g); end(g); } break;
			case 4: if (a) { int n = (int)R.in(-1, 3); *I[h] = n < 0 ? SVG() : SVG(path(n)); Ev("make").i("h", h).i("n", n); } break; // as Visualizer::init does, nothing of the temporary is written
			case 5: if (a) { I[h]->write(); Ev("write").i("h", h); } break; case 6: if (a) end(h); break; case 7: look((int)R.in(0, 3)); break;
			default: if (a) { put(h, shape((int)R.in(0, 7), 0), (int)R.in(0, 5)); boxEv(h); } } }
		while (not I.empty()) end(I.begin()->first); for (int n = 0; n < 3; n++) look(n); }
	for (int k = 0; k < 6; k++) { begin(); visual(k % 3, k != 4, k != 5); }
	{ begin(); mk(0, 0); for (int i = 0; i < 150; i++) put(0, shape(i % 7, 0), 0); boxEv(0); end(0); look(0); begin(); mk(0, 0); *I[0] << std::endl; newlineEv(0); end(0); look(0); begin(); mk(0, 0); end(0); look(0); }
	begin(); rmdir(dir.c_str());
	// constructors
	for (int k = 0; k < 20; k++) { i64 a = coord(0), b = coord(0), c = R.in(0, 900), d = R.in(0, 900); Point p = P(a, b), q = P(c, d); Dimension m(U(c), U(d)); Real A = U(a), B = U(b), C = U(c), D = U(d);
		same(text(Rectangle(A, B, C, D)), {text(Rectangle(p, m)), text(Rectangle(p, C, D)), text(Rectangle(A, B, m))}); same(text(Circle(A, B, C)), {text(Circle(p, C))}); same(text(Ellipse(A, B, C, D)), {text(Ellipse(p, C, D))}); same(text(Line(A, B, C, D)), {text(Line(p, q))});
		same(text(Polygon(std::vector<Point>{p, q})), {text(Polygon({p, q}))}); same(text(Polyline(std::vector<Point>{p, q})), {text(Polyline({p, q}))}); same(text(Polygon(std::vector<Point>{})), {text(Polygon())}); same(text(Polyline(std::vector<Point>{})), {text(Polyline())}); same(text(Line(0, 0, 0, 0)), {text(Line())});
		auto kx = [](Real r) { return (i64)(r * 64); }; auto jp = [&](Point z) { return jv({kx(z.x), kx(z.y)}); }; auto jd = [&](Dimension z) { return jv({kx(z.width), kx(z.height)}); };
		Point p1 = p, p2 = p; p1 += m; p2 -= m; Dimension e(A, B), e1 = e, e2 = e; e1 += m; e2 -= m;
		Ev("geo").raw("a", jv({a, b})).raw("d", jv({c, d})).raw("plus", "[" + jp(p + m) + "," + jp(p1) + "," + jd(e + m) + "," + jd(e1) + "]").raw("minus", "[" + jp(p - m) + "," + jp(p2) + "," + jd(e - m) + "," + jd(e2) + "]"); }
	// colors
	auto one = [](Color a, Color b, int p, int f) { Real x = p / 64.0L, y = f / 64.0L; Color ad = a, su = a, mu = a; ad += b; su -= b; mu *= x; const Color ca = a; Color ix, cx, tx; for (std::size_t i = 0; i < 3; i++) { ix[i] = a[i]; cx[i] = ca[i]; tx[i] = std::move(ca)[i]; }
		return "{\"a\":" + jc(a) + ",\"b\":" + jc(b) + ",\"p\":" + std::to_string(p) + ",\"f\":" + std::to_string(f) + ",\"add\":" + jc(a + b) + ",\"sub\":" + jc(a - b) + ",\"adda\":" + jc(ad) + ",\"suba\":" + jc(su) + ",\"mul\":" + jc(a * x) + ",\"lmul\":" + jc(x * a) + ",\"mula\":" + jc(mu) + ",\"lerp\":" + jc(lerp(a, b, y)) + ",\"eq\":" + (a == b ? "true" : "false") + ",\"ne\":" + (a != b ? "true" : "false") + ",\"idx\":" + jc(ix) + ",\"cidx\":" + jc(cx) + ",\"tidx\":" + jc(tx) + "}"; };
	auto rcol = [] { int c[3] = {part(), part(), part()}; return col(c); };
	for (int k = 0; k < (th ? 500 : 50); k++) { std::string s = "["; for (int i = 0; i < 20; i++) { Color a = rcol(), b = rcol(); if (R.in(0, 6) == 0) { b = a; if (R.next() & 1) { std::size_t j = (std::size_t)R.in(0, 3); b[j] = std::uint8_t(b[j] + 1); } } int p = (int)(R.in(0, 4) ? R.in(0, 130) : R.in(-200, 20000)), f = (int)R.in(0, 65); s += (i ? "," : "") + one(a, b, p, f); } Ev("color").raw("q", s + "]"); }
	for (int k = 0; k < 300; k++) { Color c = rcol(); std::uint8_t v = c.r; std::uint32_t rgb = (std::uint32_t(R.next() & 255) << 24) | (std::uint32_t(c.r) << 16) | (std::uint32_t(c.g) << 8) | c.b; Ev("cons").raw("v", jc(c)).raw("rgb", jc(Color(rgb))).raw("parts", jc(Color(c.r, c.g, c.b))).raw("gray", jc(Color(v)));
		std::ostringstream o, q; for (auto* s : {&o, &q}) { if (k & 1) *s << std::showbase; if (k & 2) *s << std::uppercase << std::showpos; if (k & 4) *s << std::left; if (k & 8) s->fill('*'); if (k & 16) *s << std::oct; if (k & 32) *s << std::hex; if (k & 64) *s << std::boolalpha << std::fixed; }
		o << c; std::string t = o.str(); o.str(""); o << std::setw(9) << 77 << true << 1.5; q << std::setw(9) << 77 << true << 1.5; Ev("text").raw("c", jc(c)).bytes("t", t).bytes("after", o.str()).bytes("plain", q.str()); }
	{ std::string s = "["; for (int i = 0; i < 200; i++) { int v = (int)(i < 20 ? i - 10 : i < 40 ? 245 + i - 20 : R.in(-1000000, 1000000)), p = (int)(i < 60 ? R.in(-100, 100) : R.in(-1000, 20000)); s += std::string(i ? "," : "") + "{\"v\":" + std::to_string(v) + ",\"p\":" + std::to_string(p) + ",\"i\":" + std::to_string(clamp_color(v)) + ",\"l\":" + std::to_string(clamp_color((long long)v)) + ",\"r\":" + std::to_string(clamp_color(p / 64.0L)) + ",\"d\":" + std::to_string(clamp_color(p / 64.0)) + "}"; } Ev("clamp").raw("q", s + "]"); }
	{ std::string s = "["; for (const Color& c : {BLACK, DARKGRAY, GRAY, LIGHTGRAY, WHITE, RED, GREEN, BLUE, YELLOW, MAGENTA, CYAN}) s += jc(c) + ","; Ev("names").raw("c", s + jc(Color()) + "]"); }
	std::fflush(stdout); _exit(0); }
