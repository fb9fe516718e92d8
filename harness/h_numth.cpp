// modular arithmetic, primality, prime lists and random primes
#include "vh.h"
using namespace vf;
static Rng R(1);
static const i64 I64MAX = INT64_MAX, I64MIN = INT64_MIN;
static i64 wide() { u64 x = R.next() >> R.in(0, 63); if (R.in(0, 3) == 0) x = (1ull << R.in(0, 63)) + (u64)R.in(-2, 3); return (i64)(R.next() & 1 ? x : 0 - x); }
static i64 modulus() {
	static const std::vector<i64> pool = {1, 2, 3, 4, 6, 10, 12, 131, 132, 1000, 46340, 46341, 65535, 65536, 65537, INT32_MAX, (i64)INT32_MAX + 1, (i64)INT32_MAX + 2, 4294967291, 4294967295, 4294967296, 4294967297, 4294967311, 6074000999, 8589934592, 8589934609, 3037000499, 3037000500, 1000000007, 998244353,
		1000000000000000003, (i64)1 << 62, ((i64)1 << 62) - 57, ((i64)1 << 62) + 1, I64MAX, I64MAX - 1, I64MAX - 24, 6148914691236517205, 9223372036854775783};
	switch (R.in(0, 6)) { case 0: case 1: case 2: return R.pick(pool); case 3: { i64 x = wide(); return x == I64MIN ? I64MAX : x < 0 ? -x : x == 0 ? 1 : x; }
		case 4: return (i64)(4294967296ull + (u64)R.in(-40, 200)); default: return R.in(1, 60); } }
static i64 operand(i64 m) {
	switch (R.in(0, 8)) { case 0: return wide(); case 1: return R.pick(std::vector<i64>{I64MAX, I64MIN, I64MAX - 1, I64MIN + 1, 0, 1, -1, 2, -2}); case 2: return R.in(-20, 20);
		case 3: return m - R.in(0, 4); case 4: return -(m - R.in(0, 4)); case 5: return m / 2 + R.in(-1, 3); case 6: { i64 x = wide(); return x % m; } default: return (i64)(R.next() >> 1) % m; } }
static void app(i64 x, i64 m) { Ev("app").dec("x", x).dec("m", m).i("code", 0).dec("r", (i64)applyMod(x, m)); }
static void mul(i64 a, i64 b, i64 m) { i64 r = 0; int c = outcome([&] { r = mulMod(a, b, m); }); Ev("mul").dec("a", a).dec("b", b).dec("m", m).i("code", c).dec("r", r); }
static void pw(i64 a, i64 b, i64 m) { i64 r = 0; int c = outcome([&] { r = powMod(a, b, m); }); Ev("pow").dec("a", a).dec("b", b).dec("m", m).i("code", c).dec("r", r); }
static void inv(i64 x, i64 m) { i64 r = 0; int c = outcome([&] { r = multInv(x, m); }); Ev("inv").dec("x", x).dec("m", m).i("code", c).dec("r", r); }
static void arith(int n) {
	for (i64 m = 1; m <= 7; m++) for (i64 a = -m - 1; a <= m + 1; a++) { app(a, m); inv(a, m); for (i64 b = -2; b <= m; b++) mul(a, b, m); for (i64 b = 0; b <= m + 1; b++) pw(a, b, m); }
	for (i64 m : {(i64)0, (i64)-1, (i64)-7, I64MIN, (i64)5}) for (i64 a : {(i64)0, (i64)3, I64MIN}) { mul(a, a, m); pw(a, 2, m); inv(a, m); pw(a, -1, m); pw(a, I64MIN, m); }
	for (i64 m : {(i64)1, (i64)2, (i64)4294967295, (i64)4294967296, (i64)4294967297, I64MAX, I64MAX - 1, (i64)1 << 62, ((i64)1 << 62) + 1}) for (i64 a : {I64MAX, I64MIN, m - 1, -m + 1, m / 2, m / 2 + 1, (i64)-1}) {
		app(a, m); inv(a, m); for (i64 b : {I64MAX, I64MIN, m - 1, (i64)2, (i64)-1}) mul(a, b, m); for (i64 b : {(i64)0, (i64)1, (i64)2, (i64)3}) pw(a, b, m); }
	for (int i = 0; i < n; i++) {
		i64 m = modulus(), a = operand(m), b = operand(m); app(a, m); mul(a, b, m);
		i64 y = operand(m); if (R.in(0, 3) == 0) { i64 g = R.in(2, 60); if (m % g == 0) y = (y / g) * g; } inv(y, m);
		if (i % 4 == 0) { i64 e = R.in(0, 3) ? R.in(0, 3) ? (i64)(R.next() >> R.in(30, 63)) : R.in(0, 20) : (i64)(R.next() >> 1); pw(a, e, m); }
		if (i % 60 == 0) { pw(a, I64MAX, m); pw(a, m - 1, m); } } }
static void prime(i64 n, i64 f = 0) { Ev("prime").dec("n", n).dec("f", f).b("r", isPrime(n)); }
static i64 randPrime(int bits) { while (true) { u64 x = (R.next() >> (64 - bits)) | (1ull << (bits - 1)) | 1; if (isPrime((i64)x)) return (i64)x; } } // stimuli only
static void primality(const char* data, int n) {
	i64 top = thorough() ? 400000 : 60000;
	auto block = [](i64 lo, i64 hi) { std::vector<i64> v; for (i64 x = lo; x < hi; x++) if (isPrime(x)) v.push_back(x); Ev("block").i("lo", lo).i("hi", hi).arr("vals", v); };
	block(-200, 200); for (i64 lo = 200; lo < top; lo += 400) block(lo, lo + 400);
	for (int i = 0; i < 12; i++) { i64 lo = R.in(top, 2000000000); block(lo, lo + 60); }
	prime(I64MIN); prime(I64MIN + 1); prime(-3037000507); prime(I64MAX); prime(I64MAX - 24); prime(I64MAX - 1);
	for (i64 x : {2047ll, 1373653ll, 25326001ll, 3215031751ll, 2152302898747ll, 3474749660383ll, 341550071728321ll, 3825123056546413051ll, 1122004669633ll, 55245642489451ll, 7999252175582851ll, 585226005592931977ll, 4759123141ll, 3186658578340311511ll}) prime(x);
	for (i64 x = 1; x < 64; x++) for (i64 d : {-1, 1}) if (x < 63) prime((i64)(1ull << x) + d);
	{ std::ifstream in(data); std::string line; while (std::getline(in, line)) { if (line.empty() or line[0] == '#') continue; std::istringstream ss(line); i64 x, f; ss >> x >> f; prime(x, f); } }
	// products: two primes of all sizes, squares, close primes, three primes, Carmichael numbers
	for (int i = 0; i < n; i++) {
		int b = (int)R.in(8, 32); i64 p = randPrime(b), q = R.in(0, 4) ? randPrime((int)R.in(8, 32)) : p; prime(p * q, p);
		if (i % 2 == 0) { i64 r = randPrime((int)R.in(8, 22)), s = randPrime((int)R.in(8, 21)), t = randPrime((int)R.in(8, 21)); prime(r * s * t, r); }
		if (i % 2 == 0) { i64 k, mul = R.in(2, 6); int tries = 0; do k = randPrime((int)R.in(8, 30)); while (not isPrime(mul * (k - 1) + 1) and ++tries < 3000); i64 m = mul * (k - 1) + 1; if ((long double)k * m < 9e18L) prime(k * m, k); } }
	for (int i = 0, c = 0; c < 25 and i < 400000; i++) { i64 k = R.in(22, 180000); if (isPrime(6 * k + 1) and isPrime(12 * k + 1) and isPrime(18 * k + 1)) { prime((6 * k + 1) * (12 * k + 1) * (18 * k + 1), 6 * k + 1); c++; } }
	// primes of all sizes, also with many factors two below them, near the border of the short products and at the end of the range
	for (int b = 3; b <= 63; b++) for (int i = 0; i < (thorough() ? 8 : 1); i++) prime(randPrime(b));
	for (int i = 0, c = 0; c < (thorough() ? 200 : 30) and i < 100000; i++) { int s = (int)R.in(8, 56); i64 x = (i64)((((R.next() >> 1) >> (s)) | 1) << s) + 1; if (x > 200 and isPrime(x)) { prime(x); c++; } }
	for (int i = 0; i < (thorough() ? 400 : 40); i++) { prime((i64)4294967296 + 2 * R.in(-300, 300) + 1); prime(I64MAX - 2 * R.in(0, 1000)); prime((i64)(R.next() >> R.in(1, 33)) | 1); } }
static void list(i64 lo, i64 hi) { std::vector<Integer> r; int c = outcome([&] { r = primes(lo, hi); }); std::vector<std::string> v; for (auto x : r) v.push_back(std::to_string(x)); Ev("list").dec("lo", lo).dec("hi", hi).i("code", c).bytess("vals", v); }
static void slist(i64 lo, i64 hi) { std::vector<Integer> r; int c = outcome([&] { r = primes(lo, hi); }); std::vector<i64> v(r.begin(), r.end()); Ev("slist").i("lo", lo).i("hi", hi).i("code", c).arr("vals", v); }
static void random(i64 lo, i64 hi) { i64 r = 0; int c = outcome([&] { r = Random::prime(lo, hi); }); Ev("rand").dec("lo", lo).dec("hi", hi).i("code", c).dec("r", r); }
static void hist(i64 lo, i64 hi, int per) { std::map<i64, i64> m; std::vector<i64> v, c; for (i64 x = lo; x < hi; x++) if (x > 1) { bool p = true; for (i64 d = 2; d * d <= x; d++) p &= x % d != 0; if (p) m[x] = 0; }
	int n = per * (int)m.size(); for (int i = 0; i < n; i++) m[Random::prime(lo, hi)]++; for (auto& [a, b] : m) { v.push_back(a); c.push_back(b); } Ev("hist").i("lo", lo).i("hi", hi).i("n", n).arr("vals", v).arr("counts", c); }
static void lists(bool big) {
	for (i64 lo = -3; lo <= 40; lo++) for (i64 hi = lo - 1; hi <= 60; hi++) slist(lo, hi);
	for (i64 hi : {-5, 0, 1, 2, 3, 4, 10, 1000}) { std::vector<Integer> r; int c = outcome([&] { r = primes(hi); }); std::vector<i64> v(r.begin(), r.end()); Ev("slist").i("lo", 0).i("hi", hi).i("code", c).arr("vals", v); }
	for (i64 w = 2; w <= (thorough() ? 60 : 30); w++) for (i64 lo = w * w - 2 * w; lo <= w * w + w; lo += 1 + w / 7) slist(lo, lo + w);   // around the square of the width
	for (int i = 0; i < (thorough() ? 400 : 60); i++) { i64 lo = R.in(0, 200000); slist(lo, lo + R.in(1, 400)); }
	slist(0, 20000); slist(19000, 25001);
	for (int i = 0; i < (thorough() ? 120 : 16); i++) { i64 lo = (i64)(R.next() >> R.in(1, 30)); if (i % 4 == 0) lo = 4294967296 - R.in(0, 30); if (lo > I64MAX - 100) lo -= 100; list(lo, lo + R.in(1, 40)); }
	list(I64MAX - 60, I64MAX); list(I64MAX - 30, I64MAX - 1); list(I64MAX - 25, I64MAX); list(I64MIN, I64MIN); list(I64MIN, I64MIN + 5); list(-10, -20); list(I64MIN + 5, I64MIN); list(5, I64MIN);
	for (i64 p : {46337ll, 65521ll, 1000003ll, 30000001ll, 2147483647ll}) { list(p * p - 3, p * p + 4); list(p * p, p * p + 1); list(p * p - 1, p * p + 20); }
	for (i64 hi = -2; hi <= 30; hi++) for (i64 lo = -3; lo <= hi + 1; lo++) for (int k = 0; k < 3; k++) random(lo, hi);
	for (i64 lo : {89, 113, 114, 887, 888, 1327, 1328, 31397}) for (i64 w : {1, 2, 3, 14, 20, 34, 72, 73, 74}) random(lo, lo + w);
	for (auto [a, b] : std::vector<std::pair<i64, i64>>{{0, I64MAX}, {I64MIN, I64MAX}, {I64MIN, 100}, {-5, I64MAX}, {I64MIN, 3}, {I64MIN, 2}, {I64MIN, 0}, {0, (i64)1 << 62}, {0, (i64)1 << 61}, {1, ((i64)1 << 62) + 1}, {0, ((i64)1 << 60) + 1}, {(i64)1 << 62, I64MAX}, {1000000000, 2000000000}, {0, 1000}, {0, 4294967296}, {5, 5}, {7, 3}, {I64MAX - 1, I64MAX}, {I64MAX - 2000, I64MAX}, {I64MIN, (i64)1 << 62}, {-((i64)1 << 62), (i64)1 << 62}}) for (int k = 0; k < (thorough() ? 8 : 1); k++) random(a, b);
	for (i64 hi : {2, 3, 10, 1000}) { i64 r = 0; int c = outcome([&] { r = Random::prime(hi); }); Ev("rand").dec("lo", 0).dec("hi", hi).i("code", c).dec("r", r); }
	hist(0, 30, 4000); hist(2, 12, 4000); hist(10, 60, 3000); hist(100, 200, 2000); hist(3, 8, 5000); hist(4, 14, 5000);
	if (big) { // more numbers than one sieve of the small primes
		i64 lo = R.in(0, 1000), hi = lo + 1150000000 + R.in(0, 2); auto r = primes(lo, hi);
		Ev("ends").dec("lo", lo).dec("hi", hi).dec("first", (i64)r.front()).dec("last", (i64)r.back());
		auto sample = [&](std::size_t i) { if (i > 0 and i < r.size()) Ev("sample").dec("p", (i64)r[i - 1]).dec("q", (i64)r[i]); };
		for (int i = 0; i < (thorough() ? 80 : 16); i++) { sample(R.next() % r.size()); sample(r.size() - 1 - R.next() % (r.size() / 15)); } } }
int main(int, char** argv) { std::string mode = argv[1]; init0(); R = Rng(envSeed() * 1013 + 19); int f = thorough() ? 8 : 1;
	if (mode == "arith") arith(700 * f);
	if (mode == "prime") primality(argv[2], 60 * f);
	if (mode == "lists") lists(false);
	if (mode == "big") lists(true); }
