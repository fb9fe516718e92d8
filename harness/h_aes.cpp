// ciphers and generators: random histories, single bits, carries of the counter
#include "common.h"
#include <array>
#include <map>
#include <algorithm>
#include "secure_rng.h"
using namespace vf;
static_assert(std::is_same_v<AES_RNG::result_type, std::uint64_t>);
static_assert(AES_RNG::min() == 0 && AES_RNG::max() == ~0ull);
static Rng R(1);
static std::string w(u64 x) { std::string s = "["; for (int i = 0; i < 8; i++) s += (i ? "," : "") + std::to_string((x >> (8 * i)) & 255); return s + "]"; }
static std::string ws(const std::vector<u64>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + w(v[i]); return s + "]"; }
static std::map<int, AES> C; static std::map<int, AES_RNG> G;
template<typename M, typename T> static void put(M& m, int h, const T& e) { auto it = m.find(h); if (it == m.end()) m.emplace(h, e); else it->second = e; }
template<typename A> static A rnd() { A a{}; int k = (int)R.in(0, 6); for (auto& x : a) x = k == 0 ? 0 : k == 1 ? 255 : (std::uint8_t)R.next(); if (k < 2) a[R.next() % a.size()] = (std::uint8_t)R.next(); return a; }
static void start() { C.clear(); G.clear(); Ev("start"); }
static void cipher(int h, AES::Key k) { put(C, h, AES(k)); Ev("cipher").i("h", h).arr("key", k); }
static AES::Block enc(int h, AES::Block b) { AES::Block in = b, o = C.at(h)(b); Ev("enc").i("h", h).arr("in", in).arr("out", o); return o; }
static void mk(int h, AES::Key k, AES::Block iv) { put(G, h, AES_RNG(k, iv)); Ev("new").i("h", h).arr("key", k).arr("iv", iv); }
static void seed(int h, u64 s) { put(G, h, AES_RNG(s)); Ev("seed").i("h", h).raw("w", w(s)); }
static void call(int h, int k) { std::vector<u64> o; for (int i = 0; i < k; i++) o.push_back(G.at(h)()); Ev("call").i("h", h).raw("o", ws(o)); }
static void copy(int h, int g) { put(G, h, G.at(g)); Ev("copy").i("h", h).i("g", g); }
// the cipher at compile time
static constexpr AES::Key CK{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
static constexpr AES::Block CB{0x00, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff};
#if __cplusplus >= 201703L
static constexpr AES CC(CK); static constexpr AES::Block CO = CC(CB);
#endif
int main(int, char**) { R = Rng(envSeed() * 104729 + 32); bool th = thorough();
	start(); Ev("range").raw("min", w(AES_RNG::min())).raw("max", w(AES_RNG::max()));
	cipher(0, CK); AES::Block co = CO; Ev("enc").i("h", 0).arr("in", CB).arr("out", co); enc(0, CB);
	start(); cipher(0, AES::Key{}); enc(0, AES::Block{}); { AES::Key k; k.fill(255); cipher(1, k); AES::Block b; b.fill(255); enc(1, b); enc(0, b); }
	for (int b = 0; b < 256; b++) { if (b % 8 == 0) start(); AES::Key k{}; k[b / 8] = (std::uint8_t)(1 << (b % 8)); cipher(0, k); enc(0, AES::Block{}); }
	for (int b = 0; b < 128; b++) { if (b % 16 == 0) { start(); cipher(0, rnd<AES::Key>()); } AES::Block x{}; x[b / 8] = (std::uint8_t)(1 << (b % 8)); enc(0, x); }
	// chains: every output is the next input
	for (int i = 0; i < (th ? 60 : 6); i++) { start(); cipher(0, rnd<AES::Key>()); cipher(1, rnd<AES::Key>()); AES::Block x = rnd<AES::Block>(); for (int j = 0; j < 20; j++) x = enc((int)R.in(0, 2), x); }
	// counters which carry into each of their bytes
	for (int b = 0; b <= 16; b++) for (int t = 0; t < 3; t++) { start(); AES::Block iv{}; for (int j = 0; j < b; j++) iv[j] = 255; if (t) { if (b) iv[0] = (std::uint8_t)(256 - t); } if (b < 16) iv[b] = (std::uint8_t)(t == 2 ? 254 : R.next()); for (int j = b + 1; j < 16; j++) iv[j] = (std::uint8_t)(t == 0 ? 0 : R.next()); if (t == 2 and b < 15) iv[b + 1] = 255; mk(0, rnd<AES::Key>(), iv); call(0, 4); }
	{ start(); mk(0, rnd<AES::Key>(), rnd<AES::Block>()); for (int i = 0; i < (th ? 60 : 6); i++) call(0, 100); }
	for (u64 s : {u64(0), u64(1), ~u64(0), u64(0x1234567890abcdef), u64(1) << 63, u64(0xFFFFFFFFull) << 32, u64(0x37018d631e825294), ~u64(0x37018d631e825294), R.next(), R.next()}) { start(); seed(0, s); call(0, 4); }
	for (int b = 0; b < 64; b++) { start(); seed(0, u64(1) << b); call(0, 1); }
	for (int r = 0; r < (th ? 120 : 12); r++) { start(); for (int h = 0; h < 3; h++) mk(h, rnd<AES::Key>(), rnd<AES::Block>());
		for (int i = 0; i < 25; i++) { int h = (int)R.in(0, 3), g = (int)R.in(0, 3); switch (R.in(0, 10)) { case 0: mk(h, rnd<AES::Key>(), rnd<AES::Block>()); break; case 1: seed(h, R.next()); break; case 2: if (h != g) copy(h, g); break; case 3: { AES_RNG c = G.at(h); c(); call(h, 2); break; } default: call(h, (int)R.in(1, 6)); } } } }
