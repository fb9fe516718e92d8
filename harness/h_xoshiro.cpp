// engines: random histories of creation, seeding, copies, calls and jumps
#include "common.h"
#include <random>
#include <map>
#include "rng.h"
using namespace vf;
static_assert(std::is_same_v<Xoshiro256ss::result_type, std::uint64_t>);
static_assert(Xoshiro256ss::min() == 0 && Xoshiro256ss::max() == ~0ull);
static Rng R(1);
static std::string w(u64 x) { std::string s = "["; for (int i = 0; i < 8; i++) s += (i ? "," : "") + std::to_string((x >> (8 * i)) & 255); return s + "]"; }
static std::string ws(const std::vector<u64>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + w(v[i]); return s + "]"; }
static std::map<int, Xoshiro256ss> E;
static void put(int h, const Xoshiro256ss& e) { auto it = E.find(h); if (it == E.end()) E.emplace(h, e); else it->second = e; }
static void mk(int h, std::array<u64, 4> s) { put(h, Xoshiro256ss(s)); Ev("new").i("h", h).raw("s", ws({s[0], s[1], s[2], s[3]})); }
static void seed(int h, u64 s) { put(h, Xoshiro256ss(s)); Ev("seed").i("h", h).raw("w", w(s)); }
static void call(int h, int k) { std::vector<u64> o; for (int i = 0; i < k; i++) o.push_back(E.at(h)()); Ev("call").i("h", h).raw("o", ws(o)); }
static void jump(int h) { E.at(h).jump(); Ev("jump").i("h", h); }
static void start() { E.clear(); Ev("start"); }
static void copy(int h, int g) { put(h, E.at(g)); Ev("copy").i("h", h).i("g", g); }
int main(int, char**) { R = Rng(envSeed() * 7919 + 31);
	start(); Ev("range").raw("min", w(Xoshiro256ss::min())).raw("max", w(Xoshiro256ss::max()));
	// every bit of every state word, then dense words
	for (int b = 0; b < 256; b++) { std::array<u64, 4> s{}; s[b / 64] = 1ull << (b % 64); start(); mk(0, s); call(0, 6); }
	start(); mk(0, {0, 0, 0, 0}); call(0, 3); jump(0); call(0, 2);
	mk(0, {~0ull, ~0ull, ~0ull, ~0ull}); call(0, 5); mk(0, {1, 2, 3, 4}); call(0, 40);
	// the jump is linear: states with single bits show each of its exponents
	for (int b : {0, 63, 64, 130, 192, 255}) { std::array<u64, 4> s{}; s[b / 64] = 1ull << (b % 64); start(); mk(0, s); jump(0); call(0, 5); }
	for (u64 s : {u64(0), u64(1), ~u64(0), u64(0x3243F6a8885a308d), u64(1) << 63, u64(0xFFFFFFFFull) << 32, R.next(), R.next()}) { start(); seed(0, s); call(0, 4); }
	for (int rep = 0; rep < (thorough() ? 80 : 12); rep++) { int jumps = 2; start();
		for (int h = 0; h < 4; h++) mk(h, {R.next(), R.next(), R.next(), R.next()});
		for (int i = 0; i < 40; i++) { int h = (int)R.in(0, 4), g = (int)R.in(0, 4); switch (R.in(0, 16)) {
			case 0: mk(h, {R.next(), R.next(), R.next() & 255, R.next()}); break; case 1: if (jumps > 0) { jumps--; seed(h, R.next()); } break; case 2: if (h != g) copy(h, g); break;
			case 3: if (jumps > 0) { jumps--; jump(h); } break; case 4: { Xoshiro256ss c = E.at(h); c(); c.jump(); call(h, 2); break; } default: call(h, (int)R.in(1, 6)); } } }
	start(); mk(0, {R.next(), R.next(), R.next(), R.next()}); for (int i = 0; i < (thorough() ? 200 : 15); i++) call(0, 100); }
