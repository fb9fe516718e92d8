// an input validator program: p_check --kind K < test; for the record, the values read go to VF_LOG
#include <bits/stdc++.h>
#include "validate.h"
#include "graph_val.h"
using namespace InputValidator;
static std::vector<std::string> got;
static void keep(Integer x) { got.push_back(std::to_string(x)); } static void keep(const std::string& s) { got.push_back(s); } static void keep(Real x) { std::ostringstream o; o << std::setprecision(25) << x; got.push_back(o.str()); }
static void record() { std::ofstream rec(std::getenv("VF_LOG")); rec << "{\"v\":["; for (std::size_t i = 0; i < got.size(); i++) { rec << (i ? ",[" : "["); for (std::size_t j = 0; j < got[i].size(); j++) rec << (j ? "," : "") << (int)(unsigned char)got[i][j]; rec << "]"; } rec << "]}"; }
template<typename G> static void edges(G& g, Integer n, Integer m) { for (Integer i = 0; i < m; i++) { Integer a = testIn.integer(1, n + 1); testIn.space(); Integer b = testIn.integer(1, n + 1); testIn.newline(); keep(a); keep(b); g.addEdge(a, b); } testIn.eof(); if (g.hasSelfloop()) juryOut << "selfloop" << WA; if (g.hasMultiedge()) juryOut << "multiedge" << WA; }
int main(int argc, char** argv) {
	InputValidator::init(argc, argv); std::string kind = arguments["--kind"].asString(); bool g = false;
	Integer n = testIn.integer(1, 1000);
	if (kind == "ints") { testIn.newline(); for (Integer x : testIn.integers(-100, 100, n)) keep(x); testIn.newline(); }
	else if (kind == "big") { testIn.newline(); for (Integer x : testIn.integers(-LARGE, LARGE, n, NEWLINE)) keep(x); testIn.newline(); }
	else if (kind == "reals") { testIn.newline(); for (Integer i = 0; i < n; i++) { keep(testIn.realStrict(-9, 9, 6, 7)); testIn.newline(); } }
	else if (kind == "words") { testIn.newline(); for (auto& s : testIn.strings(std::regex("[a-z]+"), 1, 13, n, NEWLINE)) keep(s); testIn.newline(); }
	else if (kind == "pairs") { testIn.newline(); for (Integer i = 0; i < n; i++) { keep(testIn.integer(0, 50)); testIn.space(); keep(testIn.integer(-20, 1)); testIn.newline(); } }
	else if (kind == "perm") { testIn.newline(); auto v = testIn.integers(1, n + 1, n); for (Integer x : v) keep(x); testIn.newline(); testIn.eof(); if (not isPerm(v, 1)) juryOut << "not a permutation" << WA; }
	else { g = true; testIn.space(); Integer m = testIn.integer(0, 1000); testIn.newline(); keep(n); keep(m);
		if (kind == "dag") { DiGraph d(1, n + 1); edges(d, n, m); if (not d.isDAG()) juryOut << "cyclic" << WA; }
		else { Graph u(1, n + 1); edges(u, n, m); if (kind != "simple" and not u.isConnected()) juryOut << "not connected" << WA; if (kind == "tree" and not u.isTree()) juryOut << "not a tree" << WA; } }
	if (not g) testIn.eof();
	record(); juryOut << "fine" << AC;
}
