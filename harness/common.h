// trace recorder shared by all harnesses (independent of the code under test)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <utility>
#include <string_view>
namespace vf {
using u64 = std::uint64_t; using i64 = std::int64_t;
inline void put(const std::string& s) { std::fwrite(s.data(), 1, s.size(), stdout); }
struct Ev { // one event = one line
	std::string s;
	explicit Ev(const char* e) { s = std::string("{\"e\":\"") + e + "\""; }
	Ev& key(const char* k) { s += ",\""; s += k; s += "\":"; return *this; }
	Ev& i(const char* k, i64 v) { key(k); s += std::to_string(v); return *this; }           // must fit 32 bit
	Ev& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	Ev& str(const char* k, std::string_view v) { // plain ascii identifiers only
		key(k); s += '"'; for (char c : v) { if (c == '"' or c == '\\') s += '\\'; s += c; } s += '"'; return *this; }
	Ev& bytes(const char* k, std::string_view v) { // byte values
		key(k); s += '['; for (std::size_t j = 0; j < v.size(); j++) { if (j) s += ','; s += std::to_string((unsigned char)v[j]); } s += ']'; return *this; }
	Ev& limbs(const char* k, u64 v) { // 4 limbs of 16 bit, least significant first
		key(k); s += '['; for (int j = 0; j < 4; j++) { if (j) s += ','; s += std::to_string((v >> (16 * j)) & 0xFFFF); } s += ']'; return *this; }
	Ev& dec(const char* k, i64 v) { return bytes(k, std::to_string(v)); }      // decimal characters
	template<typename C> Ev& arr(const char* k, const C& c) {
		key(k); s += '['; bool f = true; for (auto&& v : c) { if (!f) s += ','; f = false; s += std::to_string((i64)v); } s += ']'; return *this; }
	template<typename C> Ev& pairs(const char* k, const C& c) {
		key(k); s += '['; bool f = true; for (auto&& v : c) { if (!f) s += ','; f = false; s += '[' + std::to_string((i64)v.first) + ',' + std::to_string((i64)v.second) + ']'; } s += ']'; return *this; }
	template<typename C> Ev& arrs(const char* k, const C& cc) {
		key(k); s += '['; bool g = true; for (auto&& c : cc) { if (!g) s += ','; g = false; s += '['; bool f = true; for (auto&& v : c) { if (!f) s += ','; f = false; s += std::to_string((i64)v); } s += ']'; } s += ']'; return *this; }
	template<typename C> Ev& bytess(const char* k, const C& cc) {
		key(k); s += '['; bool g = true; for (auto&& c : cc) { if (!g) s += ','; g = false; s += '['; bool f = true; for (unsigned char v : c) { if (!f) s += ','; f = false; s += std::to_string((int)v); } s += ']'; } s += ']'; return *this; }
	Ev& raw(const char* k, const std::string& json) { key(k); s += json; return *this; }
	~Ev() { s += "}\n"; put(s); }
};
// harness-side randomness (never the generator under test)
struct Rng { u64 s; explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	i64 in(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo)); }          // [lo,hi)
	template<typename C> auto pick(const C& c) { return c[next() % c.size()]; } };
inline u64 envSeed() { const char* e = std::getenv("VERIF_SEED"); return e ? std::strtoull(e, nullptr, 10) : 1; }
inline bool thorough() { const char* e = std::getenv("VERIF_TIER"); return e && std::string(e) == "thorough"; }
}
