// includes validate.h of the tree under test with two documented settings overridden:
//  - exitVerdict throws vf::Exit instead of ending the process
//  - (VF_SCRIPTED) the random engine is scripted by the harness
#pragma once
#include "common.h"
#include <limits>
#include <random>
namespace vf { struct Exit { int code; };
inline void (*onExit)() = nullptr; // called when the code under test ends the process
// scripted engine: consumes words of a given script, then falls back to a filler generator
struct Scripted {
	using result_type = std::uint64_t;
	static inline std::vector<std::uint64_t> script; static inline std::size_t pos = 0; static inline std::uint64_t filler = 88172645463325252ull;
	static inline bool exhausted = false; static inline bool strict = false; static inline std::size_t filled = 0;
	struct Exhausted {};
	Scripted() = default; explicit Scripted(std::uint64_t) {}
	void seed(std::uint64_t) {}
	static constexpr std::uint64_t min() { return 0; }
	static constexpr std::uint64_t max() { return ~std::uint64_t(0); }
	std::uint64_t operator()() {
		if (pos < script.size()) return script[pos++];
		exhausted = true; if (strict) throw Exhausted{};
		filled++;
		std::uint64_t z = (filler += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
	}
	static void set(std::vector<std::uint64_t> s, bool strict_ = false) { script = std::move(s); pos = 0; exhausted = false; strict = strict_; filled = 0; }
};
}
namespace Settings {
	[[noreturn]] inline void exitVerdict(int exitCode) { if (vf::onExit) vf::onExit(); throw vf::Exit{exitCode}; }
#ifdef VF_SCRIPTED
	using RandomEngine = vf::Scripted;
#endif
}
#include <bits/stdc++.h>
#include "validate.h"
namespace vf {
// outcome of a call: 0 = returned, >0 = process exit with that code, -1 = refused by exception
template<typename F> int outcome(F&& f) {
	try { f(); return 0; }
	catch (const Exit& e) { return e.code; }
	catch (const std::exception&) { return -1; }
}
// exact value of a floating point number: class, sign, magnitude m*2^k
inline std::string num(long double x) {
	std::string c = std::isnan(x) ? "nan" : std::isinf(x) ? "inf" : "fin";
	u64 m = 0; int k = 0;
	if (std::isfinite(x) and x != 0) { int e; long double f = std::frexp(std::fabs(x), &e); m = (u64)std::ldexp(f, 64); k = e - 64; while (m % 2 == 0) { m /= 2; k++; } }
	std::string s = "{\"c\":\"" + c + "\",\"neg\":" + (std::signbit(x) ? "true" : "false") + ",\"m\":[";
	std::string d = std::to_string(m); for (std::size_t i = 0; i < d.size(); i++) { if (i) s += ','; s += std::to_string((int)d[i]); }
	return s + "],\"k\":" + std::to_string(k) + "}";
}
inline void init0() { static char n[] = "h"; static char* a[] = {n, nullptr}; Generator::init(1, a); }
inline void initGenerator(int argc, char** argv) { Generator::init(argc, argv); }
}
