// helpers to observe graphs of graph_gen.h
#pragma once
#include "vh.h"
#include "graph_gen.h"
namespace vf {
template<typename W> i64 dataOf(const W& e) {
	if constexpr (requires { e.data; }) return (i64)e.data; else return 0;
}
template<typename W> std::array<i64, 3> tri(const W& e) { return {e.from, e.to, dataOf(e)}; }
template<typename G> std::vector<std::array<i64, 3>> edgesOf(const G& g) { std::vector<std::array<i64, 3>> r; for (auto e : g.getEdges()) r.push_back(tri(e)); return r; }
template<typename G> std::string gjson(const G& g) {
	std::string s = "{\"lo\":" + std::to_string(g.getMinId()) + ",\"n\":" + std::to_string(g.nodeCount()) + ",\"m\":" + std::to_string(g.edgeCount()) + ",\"edges\":[";
	bool f = true;
	for (auto& e : edgesOf(g)) { if (!f) s += ','; f = false; s += '[' + std::to_string(e[0]) + ',' + std::to_string(e[1]) + ',' + std::to_string(e[2]) + ']'; }
	return s + "]}";
}
}
