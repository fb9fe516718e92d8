// exhaustive enumeration of equally likely engine outputs (needs VF_SCRIPTED):
// every engine word ranges over the M midpoints (2c+1)*2^64/(2M); every draw from a range of
// size s | M is then exactly uniform, whatever ranges the generator chooses to draw from.
#pragma once
#include "vh.h"
namespace vf {
inline u64 gridWord(u64 c, u64 M) { return (u64)(((unsigned __int128)(2 * c + 1) << 63) / M); }
// runs f for all scripts; calls f() -> outcome string; returns histogram, words per run in K
template<typename F> std::map<std::string, i64> tally(u64 M, F&& f, int& K, u64 limit = 3000000) {
	for (K = 0;; K++) {
		u64 total = 1; for (int i = 0; i < K; i++) { total *= M; if (total > limit) { std::fprintf(stderr, "tally too large\n"); std::exit(3); } }
		std::map<std::string, i64> h; bool more = false;
		for (u64 t = 0; t < total and !more; t++) {
			std::vector<u64> w; u64 x = t; for (int i = 0; i < K; i++) { w.push_back(gridWord(x % M, M)); x /= M; }
			Scripted::set(w, true);
			try { h[f()]++; } catch (Scripted::Exhausted&) { more = true; }
		}
		Scripted::set({}, false);
		if (!more) return h;
	}
}
inline std::string keysJson(const std::map<std::string, i64>& h) { std::string s = "["; for (auto& [k, v] : h) { if (s.size() > 1) s += ","; s += k; } return s + "]"; }
inline std::vector<i64> vals(const std::map<std::string, i64>& h) { std::vector<i64> r; for (auto& [k, v] : h) r.push_back(v); return r; }
}
