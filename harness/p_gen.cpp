// a generator program: p_gen --kind K --n N --seed S; writes the test to testOut and, for the record, the values to VF_LOG
#include <bits/stdc++.h>
#include "validate.h"
#include "graph_gen.h"
using namespace Generator;
static std::ofstream rec;
template<typename C> static void log(const C& v) { rec << "{\"v\":["; bool f = true; for (auto& x : v) { if (!f) rec << ","; f = false; rec << "["; std::ostringstream o; o << std::setprecision(25) << x; std::string s = o.str(); for (std::size_t i = 0; i < s.size(); i++) rec << (i ? "," : "") << (int)(unsigned char)s[i]; rec << "]"; } rec << "]}"; }
template<typename G> static void graph(G g) { if (arguments["--shuffle"]) g.permutate(); g.setMinId(1); std::vector<Integer> v{g.nodeCount(), g.edgeCount()}; for (auto e : g.getEdges()) { v.push_back(e.from); v.push_back(e.to); } log(v); testOut << g << std::endl; }
int main(int argc, char** argv) {
	Generator::init(argc, argv);
	std::string kind = arguments["--kind"].asString(); Integer n = arguments["--n"].asInteger(); rec.open(std::getenv("VF_LOG"));
	Integer m = arguments["--m"].asInteger(3);
	if (kind == "ints") { auto v = Random::multiple(n, -100, 100); log(v); testOut << n << NEWLINE << join(v) << std::endl; }
	else if (kind == "big") { std::vector<Integer> v; for (Integer i = 0; i < n; i++) v.push_back(Random::bit() ? Random::integer(LARGE - 5, LARGE) : Random::integer(-LARGE, LARGE)); log(v); testOut << n << NEWLINE << join(v.begin(), v.end(), NEWLINE) << std::endl; }
	else if (kind == "reals") { std::vector<Real> v; testOut << n << std::endl; for (Integer i = 0; i < n; i++) v.push_back(Random::real(-9, 9)); for (Real x : v) testOut << x << NEWLINE; log(v); }
	else if (kind == "words") { std::vector<std::string> v; for (Integer i = 0; i < n; i++) { std::string s; for (Integer k = Random::integer(1, 13); k > 0; k--) s += LOWER[Random::integer(26)]; v.push_back(s); } log(v); testOut << n << std::endl << join(v, NEWLINE) << std::endl; }
	else if (kind == "pairs") { std::vector<std::pair<Integer, int>> v; std::vector<Integer> flat; for (Integer i = 0; i < n; i++) { v.emplace_back(Random::integer(0, 50), (int)Random::integer(-20, 1)); flat.push_back(v.back().first); flat.push_back(v.back().second); } log(flat); testOut << n << NEWLINE; for (auto& p : v) testOut << p << NEWLINE; }
	else if (kind == "perm") { auto v = Random::perm(n, 1); log(v); testOut << n << NEWLINE << v << NEWLINE; }
	else if (kind == "tree") graph(randomTree(n));
	else if (kind == "conn") { auto g = randomTree(n); for (Integer i = 0; i < m; i++) { Integer a = Random::integer(n), b = Random::integer(n); if (a != b and not g.hasEdge(a, b)) g.addEdge(a, b); } graph(g); }
	else if (kind == "simple") graph(randomGraph(n, std::min<Integer>(m, n * (n - 1) / 2)));
	else if (kind == "dag") graph(randomGraph(n, std::min<Integer>(m, n * (n - 1) / 2)).directed([](Integer a, Integer b) { return a < b; }));
	else return 9;
}
