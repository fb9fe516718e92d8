// images: drawing ("draw") and files ("file <scratch directory>")
#include "common.h"
#include "visualizer_png.h"
#include <map>
#include <memory>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
static Rng R(1);
static std::string jc(const Color& c) { return "[" + std::to_string(c.r) + "," + std::to_string(c.g) + "," + std::to_string(c.b) + "," + std::to_string(c.a) + "]"; }
static std::string jp(const Point& p) { return "[" + std::to_string(p.x) + "," + std::to_string(p.y) + "]"; }
static std::string ji(const PNG& p) { std::string s = "["; for (Integer y = 0; y < p.height(); y++) { s += y ? ",[" : "["; for (Integer x = 0; x < p.width(); x++) s += (x ? "," : "") + jc(p(x, y)); s += "]"; } return s + "]"; }
static std::vector<Color> pal() { return {BLACK, WHITE, TRANSPARENT, RED, Color(0x102030), Color(200, 100, 50, 128), Color(7, 9, 250, 1), Color(255, 254, 253, 254), Color(std::uint8_t(R.next()), std::uint8_t(R.next()), std::uint8_t(R.next()), std::uint8_t(R.next()))}; }
static Color rc() { return R.pick(pal()); }
static std::map<int, std::unique_ptr<PNG>> P;
static void load(int h, Integer w, Integer hh, int colors) { auto& p = *P.at(h); p.clear(w, hh); std::vector<Color> cs; for (int i = 0; i < colors; i++) cs.push_back(rc()); for (Integer y = 0; y < hh; y++) for (Integer x = 0; x < w; x++) p(x, y) = R.pick(cs); }
template<BlendMode M> static void draw(PNG& p, int h, int what, Point a, Point b, Color c, Color d, const char* m, bool own) {
	const Color& cr = own ? p(R.in(0, p.width()), R.in(0, p.height())) : c; Color cv = cr; Ev e(what <= 1 ? "rect" : what == 2 ? "flood" : "line"); e.i("h", h).str("m", m).raw("a", jp(a));
	if (what == 0) { p.fillRectangle<M>(a, b, cr); e.raw("b", jp(b)).raw("border", jc(cv)).raw("fill", jc(cv)); } else if (what == 1) { p.fillRectangle<M>(a, b, d, cr); e.raw("b", jp(b)).raw("border", jc(d)).raw("fill", jc(cv)); }
	else if (what == 2) { p.floodFill<M>(a, cr); e.raw("c", jc(cv)); } else { p.drawLine<M>(a, b, cr); e.raw("b", jp(b)).raw("c", jc(cv)); }
	e.raw("px", ji(p)); }
static void drawAny(int h, int what, int mode, Point a, Point b, Color c, Color d, bool own) { PNG& p = *P.at(h);
	switch (mode) { case 0: draw<ASSIGN>(p, h, what, a, b, c, d, "assign", own); break; case 1: draw<BLEND>(p, h, what, a, b, c, d, "blend", own); break; case 2: draw<ADD>(p, h, what, a, b, c, d, "add", own); break; case 3: draw<SUBTRACT>(p, h, what, a, b, c, d, "subtract", own); break;
		default: { Ev e(what <= 1 ? "rect" : what == 2 ? "flood" : "line"); e.i("h", h).str("m", "assign").raw("a", jp(a)); if (what == 0) { p.fillRectangle(a, b, c); e.raw("b", jp(b)).raw("border", jc(c)).raw("fill", jc(c)); } else if (what == 1) { p.fillRectangle(a, b, d, c); e.raw("b", jp(b)).raw("border", jc(d)).raw("fill", jc(c)); } else if (what == 2) { p.floodFill(a, c); e.raw("c", jc(c)); } else { p.drawLine(a, b, c); e.raw("b", jp(b)).raw("c", jc(c)); } e.raw("px", ji(p)); } } }
static void drawing() { bool th = thorough();
	auto start = [](int h, Integer w, Integer hh, int colors) { P.clear(); Ev("start"); P[h] = std::make_unique<PNG>(); if (colors == 0) { Color f = rc(); P[h]->clear(w, hh, f); Ev("clear").i("h", h).i("w", w).i("hh", hh).raw("c", jc(f)); } else { load(h, w, hh, colors); Ev("load").i("h", h).raw("px", ji(*P[h])); } };
	// all lines inside a small square, marked by adding
	for (Integer s : {5, 9}) for (Integer i = 0; i < s * s; i += s == 5 ? 1 : 4) { P.clear(); Ev("start"); P[0] = std::make_unique<PNG>(); P[0]->clear(s, s, Color(0, 0, 0, 0)); Ev("clear").i("h", 0).i("w", s).i("hh", s).raw("c", jc(Color(0, 0, 0, 0))); for (Integer j = 0; j < s * s; j += s == 5 ? 1 : 3) drawAny(0, 3, 2, {i % s, i / s}, {j % s, j / s}, Color(1, 2, 3, 1), WHITE, false); }
	// all rectangles
	for (Integer i = 0; i < 12; i++) { start(0, 4, 3, 3); for (Integer j = 0; j < 12; j++) { drawAny(0, 1, 2, {i % 4, i / 4}, {j % 4, j / 4}, Color(1, 0, 0, 0), Color(0, 1, 0, 0), false); drawAny(0, (int)R.in(0, 2), (int)R.in(0, 5), {i % 4, i / 4}, {j % 4, j / 4}, rc(), rc(), false); } }
	// regions of two colors
	for (int k = 0; k < (th ? 4096 : 500); k++) { start(0, 4, 3, 1); PNG& p = *P[0]; int bits = th ? k : (int)R.in(0, 4096); for (int i = 0; i < 12; i++) if (bits >> i & 1) p(i % 4, i / 4) = Color(77, 0, 0, 77); Ev("load").i("h", 0).raw("px", ji(p)); drawAny(0, 2, k % 5, {R.in(0, 4), R.in(0, 3)}, {0, 0}, rc(), WHITE, k % 7 == 0); }
	// histories
	for (int k = 0; k < (th ? 400 : 60); k++) { Integer w = R.in(1, k % 5 ? 9 : 16), hh = R.in(1, 9); start(0, w, hh, k % 4);
		for (int i = 0; i < 12; i++) { PNG& p = *P[0]; auto pt = [&] { return Point(R.in(0, p.width()), R.in(0, p.height())); }; switch (R.in(0, 14)) {
			case 0: { Point q = pt(); Color c = rc(); p(q.x, q.y) = c; Ev("set").i("h", 0).raw("p", jp(q)).raw("c", jc(c)); break; }
			case 1: { Integer a = R.in(1, 8), b = R.in(1, 8); if (R.next() & 1) { Color c = rc(); p.clear(a, b, c); Ev("clear").i("h", 0).i("w", a).i("hh", b).raw("c", jc(c)); } else { p.clear(a, b); Ev("clear").i("h", 0).i("w", a).i("hh", b).raw("c", "[0,0,0,0]"); } break; }
			case 2: { Ev("get").i("h", 0).i("w", p.width()).i("hh", p.height()).raw("px", ji(p)); break; }
			case 3: { P[1] = std::make_unique<PNG>(p); Ev("copy").i("h", 1).i("g", 0); P[1]->floodFill(pt(), rc()); Ev("get").i("h", 0).i("w", p.width()).i("hh", p.height()).raw("px", ji(p)); break; }
			case 4: case 5: case 6: drawAny(0, 2, (int)R.in(0, 5), pt(), pt(), rc(), rc(), R.in(0, 3) == 0); break;
			case 7: case 8: case 9: drawAny(0, 3, (int)R.in(0, 5), pt(), pt(), rc(), rc(), R.in(0, 3) == 0); break;
			default: drawAny(0, (int)R.in(0, 2), (int)R.in(0, 5), pt(), pt(), rc(), rc(), R.in(0, 3) == 0); } } }
	{ start(0, 40, 30, 2); for (int i = 0; i < 12; i++) drawAny(0, 3, 2, {R.in(0, 40), R.in(0, 30)}, {R.in(0, 40), R.in(0, 30)}, Color(1, 1, 1, 1), WHITE, false); drawAny(0, 2, 0, {3, 3}, {0, 0}, Color(1, 2, 3, 4), WHITE, false); }
	{ P.clear(); Ev("start"); P[0] = std::make_unique<PNG>(); Ev("load").i("h", 0).raw("px", "[]"); Ev("get").i("h", 0).i("w", P[0]->width()).i("hh", P[0]->height()).raw("px", ji(*P[0])); }
	// colors
	auto one = [](Color a, Color b, int p, int f) { Real x = p / 64.0L, y = f / 64.0L; Color ad = a, su = a, mu = a; ad += b; su -= b; mu *= x; const Color ca = a; Color ix, cx, tx; for (int i = 0; i < 4; i++) { ix[i] = a[i]; cx[i] = ca[i]; tx[i] = std::move(ca)[i]; }
		return "{\"a\":" + jc(a) + ",\"b\":" + jc(b) + ",\"p\":" + std::to_string(p) + ",\"f\":" + std::to_string(f) + ",\"add\":" + jc(a + b) + ",\"sub\":" + jc(a - b) + ",\"adda\":" + jc(ad) + ",\"suba\":" + jc(su) + ",\"blend\":" + jc(blend(a, b)) + ",\"mul\":" + jc(a * x) + ",\"lmul\":" + jc(x * a) + ",\"mula\":" + jc(mu) + ",\"lerp\":" + jc(lerp(a, b, y)) + ",\"eq\":" + (a == b ? "true" : "false") + ",\"ne\":" + (a != b ? "true" : "false") + ",\"idx\":" + jc(ix) + ",\"cidx\":" + jc(cx) + ",\"tidx\":" + jc(tx) + "}"; };
	auto part = [] { static const int v[] = {0, 1, 2, 127, 128, 129, 200, 253, 254, 255}; return std::uint8_t(R.in(0, 3) ? R.next() : v[R.in(0, 10)]); };
	for (int k = 0; k < (th ? 500 : 50); k++) { std::string s = "["; for (int i = 0; i < 20; i++) { Color a(part(), part(), part(), part()), b(part(), part(), part(), part()); if (R.in(0, 6) == 0) { b = a; if (R.next() & 1) { int j = (int)R.in(0, 4); b[j] = std::uint8_t(b[j] + 1); } } s += (i ? "," : "") + one(a, b, (int)(R.in(0, 4) ? R.in(0, 130) : R.in(-200, 20000)), (int)R.in(0, 65)); } Ev("color").raw("q", s + "]"); }
	for (int k = 0; k < 200; k++) { std::uint8_t v[4] = {part(), part(), part(), part()}; std::uint32_t rgb = (std::uint32_t(k % 3 ? 0 : R.next() & 255) << 24) | (std::uint32_t(v[0]) << 16) | (std::uint32_t(v[1]) << 8) | v[2]; Ev("make").raw("v", jc(Color(v[0], v[1], v[2], v[3]))).raw("rgb", jc(Color(rgb))).raw("rgba", jc(Color(rgb, v[3]))).raw("parts", jc(Color(v[0], v[1], v[2]))).raw("parts4", jc(Color(v[0], v[1], v[2], v[3]))); }
	{ std::string s = "["; for (int i = 0; i < 200; i++) { int v = (int)(i < 20 ? i - 10 : i < 40 ? 245 + i - 20 : R.in(-1000000, 1000000)), p = (int)(i < 60 ? R.in(-100, 100) : R.in(-1000, 20000)); s += std::string(i ? "," : "") + "{\"v\":" + std::to_string(v) + ",\"p\":" + std::to_string(p) + ",\"i\":" + std::to_string(clamp_color(v)) + ",\"l\":" + std::to_string(clamp_color((long long)v)) + ",\"r\":" + std::to_string(clamp_color(p / 64.0L)) + ",\"d\":" + std::to_string(clamp_color(p / 64.0)) + "}"; } Ev("clamp").raw("q", s + "]"); }
	{ std::string s = "["; for (const Color& c : {BLACK, DARKGRAY, GRAY, LIGHTGRAY, WHITE, TRANSPARENT, RED, GREEN, BLUE, YELLOW, MAGENTA, CYAN}) s += jc(c) + ","; Ev("names").raw("c", s + jc(Color()) + "]"); }
	for (Point a : {Point(0, 0), Point(1, 0), Point(0, 1), Point(-5, 7)}) for (Point b : {Point(0, 0), Point(1, 0), Point(0, 1), Point(-5, 7)}) Ev("point").raw("a", jp(a)).raw("b", jp(b)).b("eq", a == b).b("ne", a != b); }
// files
static std::string dir; static int serial = 0;
static std::string path(int n) { return dir + "/f" + std::to_string(n) + ".png"; }
static void begin() { for (auto& x : P) x.second.release(); P.clear(); /* leaked: never written */ for (int i = 0; i < 4; i++) std::remove(path(i).c_str()); Ev("start"); }
static void look(int n) { std::ifstream f(path(n), std::ios::binary); if (not f) { Ev("absent").i("n", n); return; } std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(); Ev("look").i("n", n); for (std::size_t i = 0; i < s.size(); i += 256) Ev("piece").bytes("b", std::string_view(s).substr(i, 256)); Ev("eof"); }
static void mk(int h, int n) { P[h] = n < 0 ? std::make_unique<PNG>() : std::make_unique<PNG>(path(n)); Ev("make").i("h", h).i("n", n); }
static void fill(int h, Integer w, Integer hh) { load(h, w, hh, 5); Ev("load").i("h", h).raw("px", ji(*P[h])); }
static void kill(int h) { P.erase(h); Ev("destroy").i("h", h); }
static void visual(int n, bool in, bool ans) { std::string base = path(n).substr(0, path(n).size() - 4), a = "1 2 3 a\n" + std::to_string(serial++), b = "x y\n"; if (in) std::ofstream(base + ".in") << a; if (ans) std::ofstream(base + ".ans") << b;
	Integer w = R.in(1, 6), hh = R.in(1, 6); mk(3, -1); load(3, w, hh, 4); PNG img = *P[3]; std::fflush(stdout); int fd[2]; if (pipe(fd)) std::exit(3);
	pid_t c = fork(); if (c == 0) { close(fd[0]); std::string prog = "visualizer"; char* av[] = {prog.data(), base.data(), nullptr}; Visualizer::init(2, av); std::stringstream s1, s2; s1 << Visualizer::testIn.rdbuf(); s2 << Visualizer::testAns.rdbuf(); Visualizer::image.clear(w, hh); for (Integer y = 0; y < hh; y++) for (Integer x = 0; x < w; x++) Visualizer::image(x, y) = img(x, y); std::string s = s1.str() + "|" + s2.str(); if (write(fd[1], s.data(), s.size()) < 0) _exit(4); close(fd[1]); for (auto& x : P) x.second.release(); std::exit(0); }
	close(fd[1]); std::string got; char buf[256]; for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) got.append(buf, k); close(fd[0]); int st; waitpid(c, &st, 0);
	Ev("visual").bytes("put", (in ? a : "") + "|" + (ans ? b : "")).bytes("got", got); mk(2, n); *P[2] = PNG(path(n)); P[2]->clear(w, hh); P[2].release(); Ev("load").i("h", 2).raw("px", ji(img)); Ev("destroy").i("h", 2); P.erase(2); look(n); std::remove((base + ".in").c_str()); std::remove((base + ".ans").c_str()); }
static void filing() { bool th = thorough();
	for (Integer w = 1; w <= 6; w++) for (Integer hh = 1; hh <= 5; hh++) { begin(); mk(0, 0); look(0); fill(0, w, hh); look(0); kill(0); look(0); }
	for (auto [w, hh] : std::vector<std::pair<Integer, Integer>>{{40, 3}, {3, 40}, {63, 2}, {64, 2}, {65, 1}, {1, 300}, {256, 1}}) { begin(); mk(0, 1); fill(0, w, hh); kill(0); look(1); }
	// all bytes equal: carries of the check sums
	for (Color c : {WHITE, TRANSPARENT, Color(255, 0, 0, 0), Color(0, 0, 0, 255)}) { begin(); mk(0, 0); P[0]->clear(20, 20, c); Ev("clear").i("h", 0).i("w", 20).i("hh", 20).raw("c", jc(c)); kill(0); look(0); }
	// histories
	for (int k = 0; k < (th ? 600 : 80); k++) { begin(); mk(0, 0); mk(1, (int)R.in(-1, 3)); for (int i = 0; i < 10; i++) { int h = (int)R.in(0, 3), g = (int)R.in(0, 3); bool a = P.count(h), b = P.count(g); switch (R.in(0, 12)) {
		case 0: if (not a) mk(h, (int)R.in(-1, 3)); break; case 1: case 2: if (a) fill(h, R.in(1, 5), R.in(1, 5)); break; case 3: if (a) { Integer w = R.in(0, 4), hh = R.in(0, 4); P[h]->clear(w, hh, RED); Ev("clear").i("h", h).i("w", w).i("hh", hh).raw("c", jc(RED)); } break;
		case 4: if (a and P[h]->width() > 0) { Integer x = R.in(0, P[h]->width()), y = R.in(0, P[h]->height()); Color c = rc(); (*P[h])(x, y) = c; Ev("set").i("h", h).raw("p", jp({x, y})).raw("c", jc(c)); } break;
		case 5: if (b and h != g) { if (a) *P[h] = *P[g]; else P[h] = std::make_unique<PNG>(*P[g]); Ev("copy").i("h", h).i("g", g); } break;
		case 6: if (b and h != g) { if (a) *P[h] = std::move(*P[g]); else P[h] = std::make_unique<PNG>(std::move(*P[g])); Ev("move").i("h", h).i("g", g); kill(g); } break;
		case 7: if (a) { P[h]->write(); Ev("write").i("h", h); } break; case 8: case 9: if (a) kill(h); break; default: look((int)R.in(0, 3)); } }
		while (not P.empty()) kill(P.begin()->first); for (int n = 0; n < 3; n++) look(n); }
	for (int k = 0; k < 6; k++) { begin(); visual(k % 3, k != 4, k != 5); }
	// the widest images
	begin(); mk(0, 0); { P[0]->clear(16383, 1, Color(1, 2, 3, 4)); Ev("clear").i("h", 0).i("w", 16383).i("hh", 1).raw("c", "[1,2,3,4]"); (*P[0])(16382, 0) = WHITE; Ev("set").i("h", 0).raw("p", "[16382,0]").raw("c", jc(WHITE)); } kill(0); look(0);
	begin(); }
int main(int argc, char** argv) { R = Rng(envSeed() * 15485863 + 33); if (std::string(argv[1]) == "draw") drawing(); else { (void)argc; std::string t = std::string(argv[2]) + "/png.XXXXXX"; if (not mkdtemp(t.data())) return 3; dir = t; filing(); rmdir(dir.c_str()); } std::fflush(stdout); _exit(0); }
