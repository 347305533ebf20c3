// The instance of a request as a PCTSPgraph
#pragma once
#include "drv.hh"
#include "pctsp/graph.hh"
namespace vp {
struct Inst {
    PCTSPgraph g;
    int n;
    PCTSPvertex root;
    int quota;
    Inst(const In& a) : g(a["n"].as<int>()), n(a["n"].as<int>()), root(a["root"].as<int>()), quota(a["quota"].as<int>()) {
        auto cost = boost::get(boost::edge_weight, g);
        auto prize = boost::get(boost::vertex_distance, g);
        for (auto e : a["edges"]) {
            auto x = boost::add_edge(e[0].as<int>(), e[1].as<int>(), g);
            cost[x.first] = e[2].as<int>();
        }
        for (int v = 0; v < n; v++) prize[v] = a["prize"][v].as<int>();
    }
    EdgeCostMap cost() { return boost::get(boost::edge_weight, g); }
    VertexPrizeMap prize() { return boost::get(boost::vertex_distance, g); }
    std::pair<int, int> ends(const PCTSPedge& e) { return {(int)boost::source(e, g), (int)boost::target(e, g)}; }
    template <class C> std::vector<std::pair<int, int>> ends_of(const C& es) {
        std::vector<std::pair<int, int>> r;
        for (auto& e : es) r.push_back(ends(e));
        return r;
    }
};
}
