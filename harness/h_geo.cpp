// polygon predicates, point helpers, random geometry
#include "vh.h"
using namespace vf;
static Rng R(1);
struct XY { Integer x, y; bool operator==(const XY& o) const { return x == o.x and y == o.y; } };
using PP = std::pair<Integer, Integer>; using AR = std::array<Integer, 2>; using CO = std::complex<Integer>; using TU = std::tuple<Integer, Integer>;
using Poly = std::vector<PP>;
template<typename P> static P mk(PP p) { return P{p.first, p.second}; }
template<typename P> static std::vector<P> to(const Poly& v) { std::vector<P> r; for (auto p : v) r.push_back(mk<P>(p)); return r; }
template<typename C> static int verdict(const C& c) { return isConvex(c) + 2 * isStrictlyConvex(c) + 4 * isSimple(c) + 8 * isCCW(c); }
template<typename It> static int verdict(It a, It b) { return isConvex(a, b) + 2 * isStrictlyConvex(a, b) + 4 * isSimple(a, b) + 8 * isCCW(a, b); }
static void poly(const Poly& p, bool all = true) {
	std::vector<i64> x, y, r; for (auto q : p) { x.push_back(q.first); y.push_back(q.second); }
	r.push_back(verdict(p));
	if (all) { r.push_back(verdict(p.begin(), p.end())); auto a = to<AR>(p); r.push_back(verdict(a)); auto c = to<CO>(p); r.push_back(verdict(c)); r.push_back(verdict(c.data(), c.data() + c.size())); auto s = to<XY>(p); r.push_back(verdict(s)); auto t = to<TU>(p); r.push_back(verdict(t.begin(), t.end()));
		std::deque<PP> d(p.begin(), p.end()); r.push_back(verdict(d)); }
	Ev("poly").arr("x", x).arr("y", y).arr("res", r); }
static void grid(const Poly& base, int w, int h, int add) {
	std::vector<i64> x, y, r; for (auto q : base) { x.push_back(q.first); y.push_back(q.second); }
	int s = w * h; Poly p = base; 
	for (int i = 0; i < (add == 1 ? s : s * s); i++) { p = base; if (add == 2) p.push_back({(i / s) % w, (i / s) / w}); p.push_back({(i % s) % w, (i % s) / w}); r.push_back(verdict(p)); }
	Ev("grid").i("w", w).i("h", h).i("add", add).arr("x", x).arr("y", y).arr("res", r); }
static void all(int w, int h, int n) { // all polygons with n corners
	int k = n - 2; std::vector<int> c(std::max(k, 0), 0);
	if (k < 0) { grid({}, w, h, 1); return; }
	while (true) { Poly b; for (int v : c) b.push_back({v % w, v / w}); grid(b, w, h, 2);
		int i = k - 1; while (i >= 0 and ++c[i] == w * h) c[i--] = 0; if (i < 0) break; } }
static const i64 M = 0x3FFFFFFF;
static i64 coord(int kind) { switch (kind) { case 0: return R.in(0, 5); case 1: return R.in(-10, 11); case 2: return R.in(-1000, 1001); case 3: return R.in(-M, M + 1); case 4: return R.pick(std::vector<i64>{M, -M, M - 1, 1 - M, 0, 1, -1}); default: return M - R.in(0, 6); } }
// a simple polygon: grown by splitting edges, keeping it simple by brute force over the library-independent test
using I128 = long double;
static int side(PP a, PP b, PP c) { i64 x1 = b.first - a.first, y1 = c.second - a.second, y2 = b.second - a.second, x2 = c.first - a.first; i64 v = x1 * y1 - y2 * x2; return (v > 0) - (v < 0); }
static bool touch(PP a, PP b, PP c, PP d) { auto on = [](PP p, PP q, PP r) { return side(p, q, r) == 0 and std::min(p.first, q.first) <= r.first and r.first <= std::max(p.first, q.first) and std::min(p.second, q.second) <= r.second and r.second <= std::max(p.second, q.second); };
	return on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b) or (side(a, b, c) * side(a, b, d) < 0 and side(c, d, a) * side(c, d, b) < 0); }
static Poly simplePoly(int n, int kind) {
	Poly p; while (p.size() < 3 or side(p[0], p[1], p[2]) == 0) { p = {{coord(kind), coord(kind)}, {coord(kind), coord(kind)}, {coord(kind), coord(kind)}}; }
	for (int tries = 0; (int)p.size() < n and tries < 400; tries++) { PP q{coord(kind), coord(kind)}; std::size_t s = p.size(), i = R.next() % s; PP a = p[i], b = p[(i + 1) % s];
		if (R.in(0, 6) == 0) q = {(a.first + b.first) / 2, (a.second + b.second) / 2};
		if (q == a or q == b) continue; bool ok = true;
		for (std::size_t j = 0; j < s and ok; j++) { if (j == i) continue; PP c = p[j], d = p[(j + 1) % s]; bool sharesA = (j + 1) % s == i, sharesB = (i + 1) % s == j;
			if (not sharesA) ok = ok and not touch(a, q, c, d); else ok = ok and not (side(c, d, q) == 0 and touch(c, d, q, q)) and not (side(a, q, c) == 0 and touch(a, q, c, c));
			if (not sharesB) ok = ok and not touch(q, b, c, d); else ok = ok and not touch(c, d, q, q) and not (side(q, b, d) == 0 and touch(q, b, d, d)); }
		if (ok) p.insert(p.begin() + i + 1, q); }
	return p; }
static void predicates(int f) {
	for (int n = 0; n <= 4; n++) { if (n == 0) poly({}); else all(3, 3, n); }
	if (thorough()) { all(3, 3, 5); all(4, 3, 4); all(3, 2, 6); all(2, 2, 7); } else { all(3, 2, 5); all(4, 3, 3); all(2, 2, 6); }
	for (int i = 0; i < 250 * f; i++) { int kind = (int)R.in(0, 6); Poly p; int n = (int)R.in(3, 9); for (int j = 0; j < n; j++) p.push_back({coord(kind), coord(kind)}); poly(p, i % 3 == 0); }
	for (int i = 0; i < 500 * f; i++) { int kind = (int)R.pick(std::vector<i64>{0, 1, 1, 1, 2, 3, 3, 5}); Poly p = simplePoly((int)R.in(4, i % 10 ? 12 : 40), kind); poly(p, i % 3 == 0); std::reverse(p.begin(), p.end()); poly(p, false);
		for (int k = 0; k < 3; k++) { Poly q = p; std::size_t a = R.next() % q.size(); switch (R.in(0, 5)) { // nearly simple
			case 0: q[a] = p[R.next() % p.size()]; break; case 1: std::swap(q[a], q[R.next() % p.size()]); break; case 2: { PP b = p[R.next() % p.size()], c = p[R.next() % p.size()]; q[a] = {(b.first + c.first) / 2, (b.second + c.second) / 2}; break; }
			case 3: q.insert(q.begin() + a, p[R.next() % p.size()]); break; default: q[a] = {std::clamp<i64>(q[a].first + R.in(-2, 3), -M, M), std::clamp<i64>(q[a].second + R.in(-2, 3), -M, M)}; } poly(q, false); } }
	// convex polygons: rotations, reversals, straight corners, repeated or folded corners, more than one turn
	for (int i = 0; i < 250 * f; i++) {
		i64 s = R.pick(std::vector<i64>{3, 8, 30, 1000, M}); Poly pts; int m = (int)R.in(3, 14); for (int j = 0; j < m; j++) pts.push_back({R.in(-s, s + 1), R.in(-s, s + 1)}); if (R.in(0, 3) == 0) pts.insert(pts.end(), {{s, s}, {-s, s}, {s, -s}, {-s, -s}});
		std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end()); Poly h; if (pts.size() < 3) continue; bool keep = R.next() & 1;
		for (int r = 0; r < 2; r++) { std::size_t st = h.size(); for (auto q : pts) { while (h.size() >= st + 2 and (side(h[h.size() - 2], h.back(), q) < 0 or (not keep and side(h[h.size() - 2], h.back(), q) == 0))) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(pts.begin(), pts.end()); }
		if (h.size() < 3) continue; std::rotate(h.begin(), h.begin() + R.next() % h.size(), h.end()); poly(h, i % 3 == 0); Poly q = h; std::reverse(q.begin(), q.end()); poly(q, false);
		q = h; q.insert(q.end(), h.begin(), h.end()); poly(q, false);                                  // twice around
		q = h; q.insert(q.begin() + R.next() % q.size(), q[R.next() % q.size()]); poly(q, false);      // a corner repeated
		q = h; { std::size_t a = R.next() % q.size(); PP b = q[a], c = q[(a + 1) % q.size()]; PP mid{(b.first + c.first) / 2, (b.second + c.second) / 2}, third{(b.first + mid.first) / 2, (b.second + mid.second) / 2}; q.insert(q.begin() + a + 1, {mid, third}); poly(q, false); q = h; q.insert(q.begin() + a + 1, {third, mid}); poly(q, false); } // folded back, straight
		q = h; std::size_t a = R.next() % q.size(); q[a].first = std::clamp<i64>(q[a].first + R.in(-1, 2), -M, M); q[a].second = std::clamp<i64>(q[a].second + R.in(-1, 2), -M, M); poly(q, false);
		q = h; std::swap(q[a], q[(a + 1) % q.size()]); poly(q, false); if (q.size() > 4) { Poly star; for (std::size_t j = 0; j < h.size(); j++) star.push_back(h[j * 2 % h.size()]); poly(star, false); } }
	// powers of two, without area: halves of the words cancel exactly
	auto two = [&](int hi) { i64 v = R.in(0, 7) == 0 ? 0 : (i64)1 << R.in(0, hi); return R.in(0, 3) == 0 ? -v : v; };
	for (int i = 0; i < 300 * f; i++) { int n = (int)R.in(3, 8), hi = (int)R.pick(std::vector<i64>{4, 18, 29}); Poly p; bool line = i % 3 != 0, x = R.next() & 1; i64 c = two(hi); for (int j = 0; j < n; j++) { PP q{two(hi), line ? c : two(hi)}; if (x) std::swap(q.first, q.second); p.push_back(q); } poly(p, false); std::reverse(p.begin(), p.end()); poly(p, false); }
	for (i64 a = 12; a < 29; a++) for (i64 b = std::max<i64>(29 - a, 0); b < 29 and b < 29 - a + 3; b++) for (i64 c : {(i64)1 << a, -((i64)1 << a)}) { i64 w = (i64)1 << b; for (const Poly& t : {Poly{{2 * w, c}, {w, c}, {0, c}}, Poly{{0, c}, {2 * w, c}, {w, c}}, Poly{{c, 0}, {c, w}, {c, 2 * w}}, Poly{{c, 2 * w}, {c, 0}, {c, w}}, Poly{{2 * w, c}, {w, c}, {0, c - 1}}, Poly{{2 * w, c}, {w, c}, {0, c + 1}}}) if (2 * w <= M) poly(t, false); }
	// areas beyond the word in between: spirals at the border, several times around
	for (int k = 1; k <= 6; k++) { Poly p; for (int j = 0; j < k; j++) for (PP c : Poly{{M, M}, {-M, M}, {-M, -M}, {M, -M}}) p.push_back(c); poly(p); std::reverse(p.begin(), p.end()); poly(p); }
	for (int k = 1; k <= 4; k++) { Poly p, q; for (i64 j = 0; j < k; j++) { i64 o = M - 20 * (k - j), e = M - 20 * (k - j) - 10; for (PP c : Poly{{o, o}, {-o, o}, {-o, -o}, {o + 20 - 1, -o}}) p.push_back(c); (void)e; for (PP c : Poly{{o - 3, o - 3}, {-o + 3, o - 3}, {-o + 3, -o + 3}, {o + 20 - 4, -o + 3}}) q.push_back(c); } std::reverse(q.begin(), q.end()); Poly r = p; r.insert(r.end(), q.begin(), q.end()); poly(r, false); poly(p, false); std::reverse(r.begin(), r.end()); poly(r, false); } }
static void bounds() {
	auto run = [](const Poly& p) { std::vector<std::string> x, y; for (auto q : p) { x.push_back(std::to_string(q.first)); y.push_back(std::to_string(q.second)); }
		std::vector<i64> c; c.push_back(outcome([&] { (void)isConvex(p); })); c.push_back(outcome([&] { (void)isStrictlyConvex(p); })); c.push_back(outcome([&] { (void)isSimple(p); })); c.push_back(outcome([&] { (void)isCCW(p); })); c.push_back(outcome([&] { (void)isCCW(p.begin(), p.end()); }));
		auto k = to<CO>(p); c.push_back(outcome([&] { (void)isConvex(k); })); c.push_back(outcome([&] { (void)isSimple(k); }));
		Ev("bounds").bytess("x", x).bytess("y", y).arr("codes", c); };
	for (i64 v : {M, -M, M + 1, -M - 1, (i64)INT64_MAX, (i64)INT64_MIN, (i64)INT64_MIN + 1, (i64)1 << 32, (i64)1 << 62, -((i64)1 << 62), (i64)INT32_MIN, (i64)0}) for (int n : {1, 2, 3, 5}) for (int pos = 0; pos < n; pos++) for (int co = 0; co < 2; co++) {
		Poly p; for (int j = 0; j < n; j++) p.push_back({j * j, j}); (co ? p[pos].second : p[pos].first) = v; run(p); } }
template<typename P> static void prod(PP pp, PP pa, PP pb) {
	P p = mk<P>(pp), a = mk<P>(pa), b = mk<P>(pb); const P ca = a, cb = b, cp = p;
	Integer c = cross(a, b), d = dot(ca, cb), c3 = cross(p, a, b); bool kept = a == ca and b == cb and p == cp and (Integer)cross(cp, ca, cb) == c3 and (Integer)cross(ca, cb) == c;
	Ev e("prod"); e.bytess("p", std::vector<std::string>{std::to_string(pp.first), std::to_string(pp.second)}).bytess("a", std::vector<std::string>{std::to_string(pa.first), std::to_string(pa.second)}).bytess("b", std::vector<std::string>{std::to_string(pb.first), std::to_string(pb.second)});
	e.dec("cross", c).dec("dot", d).dec("cross3", c3).dec("gx", (i64)getX(ca)).dec("gy", (i64)getY(ca));
	std::vector<std::string> conv; std::string gz;
	if constexpr (std::is_same_v<P, CO>) { auto q = convert(ca); conv = {std::to_string(getX(q)), std::to_string(getY(q))}; }
	if constexpr (std::is_same_v<P, PP>) { auto q = convert(ca); conv = {std::to_string(getX(q)), std::to_string(getY(q))}; }
	if constexpr (std::is_same_v<P, TU>) { std::tuple<Integer, Integer, Integer> t{pa.first, pa.second, 0}; getZ(t) = pb.first; const auto u = t; gz = std::to_string(getZ(u)); }
	if constexpr (std::is_same_v<P, AR>) { std::array<Integer, 4> t{pa.first, pa.second, 0, 7}; getZ(t) = pb.first; const auto u = t; gz = std::to_string(getZ(u)); }
	if constexpr (std::is_same_v<P, XY>) { struct XYZ { Integer x, y, z; } t{pa.first, pa.second, 0}; getZ(t) = pb.first; const auto u = t; gz = std::to_string(getZ(u)); }
	Integer t = getX(a); getX(a) = getY(a); getY(a) = t; const P a2 = a;
	std::vector<i64> z; for (char ch : gz) z.push_back(ch);
	e.b("kept", kept).dec("sx", (i64)getX(a2)).dec("sy", (i64)getY(a2)).bytess("conv", conv).arr("gz", z); }
static void points() { for (int i = 0; i < 400; i++) { int k = (int)R.in(0, 6); auto q = [&] { return PP{coord(k), coord(k)}; }; PP p = q(), a = q(), b = q(); prod<PP>(p, a, b); prod<AR>(p, a, b); prod<CO>(p, a, b); prod<XY>(p, a, b); prod<TU>(p, a, b); } }
template<typename P> static void hull(i64 n, i64 dim) { std::vector<P> r; int c = outcome([&] { r = Random::convex<P>(n, dim); }); std::vector<i64> x, y; for (auto& p : r) { x.push_back(getX(p)); y.push_back(getY(p)); } Ev("hull").i("n", n).i("dim", dim).i("code", c).arr("x", x).arr("y", y); }
template<typename P> static void general(i64 n, i64 dim) { std::vector<P> r; int c = outcome([&] { r = Random::nonCollinearPoints<P>(n, dim); }); std::vector<i64> x, y; for (auto& p : r) { x.push_back(getX(p)); y.push_back(getY(p)); } Ev("points").i("n", n).i("dim", dim).i("code", c).arr("x", x).arr("y", y); }
static void randoms(int f) {
	for (i64 dim = -1; dim <= 6; dim++) for (i64 n = -1; n <= std::max<i64>(8, std::min<i64>(4 * dim, 14)); n++) for (int k = 0; k < 6; k++) { if (dim <= 2 and n > 4 and n <= 8 * dim - 8) continue; hull<PP>(n, dim); }
	for (i64 dim : {M, M + 1}) for (i64 n : {2, 3, 5}) hull<PP>(n, dim); hull<PP>(-2000000000, 5); hull<PP>(2, 2); hull<PP>(9, 2); hull<PP>(57, 8);
	for (int i = 0; i < 150 * f; i++) { i64 dim = R.pick(std::vector<i64>{5, 10, 30, 100, 1000, 1000000, M}); i64 n = R.in(3, std::min<i64>(30, 3 * dim)); if (i % 3) hull<PP>(n, dim); else if (i % 2) hull<CO>(n, dim); else hull<AR>(n, dim); }
	hull<PP>(60, 100000); hull<PP>(50, 20);
	for (i64 dim = 0; dim <= 9; dim++) for (i64 n = -1; n <= dim + 1; n++) if (not (n == 0 and dim == 1)) for (int k = 0; k < 8; k++) general<PP>(n, dim);
	for (i64 dim : {(i64)0x1FFFFFFF, (i64)0x20000000, (i64)0x1FFFFFFE}) for (i64 n : {-1, 0, 2, 6}) general<PP>(n, dim);
	for (int i = 0; i < 150 * f; i++) { i64 dim = R.pick(std::vector<i64>{7, 11, 12, 20, 50, 100, 1000, 0x1FFFFFFF}); i64 n = R.in(1, std::min<i64>(16, dim)); if (i % 2) general<PP>(n, dim); else general<CO>(n, dim); }
	general<PP>(29, 30); general<PP>(40, 41); general<PP>(37, 1000); }
int main(int, char** argv) { std::string mode = argv[1]; init0(); R = Rng(envSeed() * 1019 + 21); int f = thorough() ? 6 : 1;
	if (mode == "poly") predicates(f);
	if (mode == "points") { bounds(); points(); }
	if (mode == "random") randoms(f); }
