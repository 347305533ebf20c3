// searches, subpaths, components, filters (include/pctsp/graph.hh, data_structures.hh)
#include "inst.hh"
static VertexPairVector allpairs(PCTSPgraph& g) { return getVertexPairVectorFromEdgeSubset(g, getEdgeVectorOfGraph(g)); }
#include "pctsp/data_structures.hh"
#include "pctsp/preprocessing.hh"
#include <boost/graph/connected_components.hpp>

VP_OP(search) {
    vp::Inst I(a);
    PCTSPvertex s = a["s"].as<int>();
    int lim = a["lim"].as<int>();
    vp::Obj o;
    {
        std::vector<bool> m(I.n);
        std::vector<PCTSPvertex> p(I.n, s);
        for (int v = 0; v < I.n; v++) p[v] = v;
        breadthFirstSearch(I.g, s, m, p, lim);
        std::vector<std::list<PCTSPvertex>> paths;
        for (PCTSPvertex v = 0; (int)v < I.n; v++) paths.push_back(m[v] ? pathInTreeFromParents(p, s, v) : std::list<PCTSPvertex>());
        o.put("bm", m).put("bpaths", paths).put("bself", p[s] == s);
    }
    {
        std::vector<bool> m(I.n);
        std::vector<PCTSPvertex> p(I.n, s);
        for (int v = 0; v < I.n; v++) p[v] = v;
        depthFirstSearch(I.g, s, m, p, lim);
        std::vector<std::list<PCTSPvertex>> paths;
        for (PCTSPvertex v = 0; (int)v < I.n; v++) paths.push_back(m[v] ? pathInTreeFromParents(p, s, v) : std::list<PCTSPvertex>());
        o.put("dm", m).put("dpaths", paths);
    }
    {   // vertices already marked are never entered
        std::vector<bool> m(I.n);
        for (auto v : a["mark"]) m[v.as<int>()] = true;
        m[s] = false;
        std::vector<PCTSPvertex> p(I.n, s);
        for (int v = 0; v < I.n; v++) p[v] = v;
        std::vector<bool> m0 = m;
        breadthFirstSearch(I.g, s, m, p, I.n + 1);
        std::vector<std::list<PCTSPvertex>> paths;
        for (PCTSPvertex v = 0; (int)v < I.n; v++) paths.push_back(m[v] && !m0[v] ? pathInTreeFromParents(p, s, v) : std::list<PCTSPvertex>());
        o.put("mm", m).put("mpaths", paths);
    }
    return o;
}

VP_OP(subpath) {
    std::list<PCTSPvertex> c;
    for (auto v : a["cyc"]) c.push_back(v.as<int>());
    std::list<PCTSPvertex> c0 = c;
    int i = a["i"].as<int>(), j = a["j"].as<int>();
    vp::Obj o;
    o.put("sub", getSubpathOfCycle(c, i, j));
    o.put("same", c == c0);
    return o;
}

VP_OP(components) {
    vp::Inst I(a);
    // keep only the edges between vertices whose label bit agrees, to obtain several components
    std::vector<int> col = vp::vec<int>(a["col"]);
    PCTSPgraph H(I.n);
    for (auto e : boost::make_iterator_range(boost::edges(I.g))) {
        int u = boost::source(e, I.g), v = boost::target(e, I.g);
        if (col[u] == col[v]) boost::add_edge(u, v, H);
    }
    std::vector<int> id(I.n);
    int k = boost::connected_components(H, id.data());
    auto cv = getConnectedComponentsVectors(H, k, id);
    vp::Obj o;
    o.put("cut", allpairs(H));
    o.put("id", id).put("nk", k).put("comp", cv);
    o.put("nonsing", getNonSingularConnectedComponentVectors(cv));
    std::vector<bool> mark(I.n);
    for (auto v : a["mark"]) mark[v.as<int>()] = true;
    auto F = filterMarkedVertices(I.g, mark);
    std::vector<int> fv;
    for (auto u : boost::make_iterator_range(boost::vertices(F))) fv.push_back(u);
    std::vector<std::pair<int, int>> fe;
    for (auto e : boost::make_iterator_range(boost::edges(F))) fe.push_back(I.ends(e));
    o.put("fv", fv).put("fe", fe);
    return o;
}

VP_OP(prepcc) {
    vp::Inst I(a);
    auto cost = I.cost();
    auto prize = I.prize();
    vp::Obj o;
    for (auto v : a["loops"]) { auto e = boost::add_edge(v.as<int>(), v.as<int>(), I.g); cost[e.first] = 77; }
    auto dump = [&](auto& m) {
        std::vector<std::vector<int>> r;
        for (auto e : boost::make_iterator_range(boost::edges(I.g)))
            r.push_back({(int)boost::source(e, I.g), (int)boost::target(e, I.g), (int)m[e]});
        return r;
    };
    o.put("has0", hasSelfLoopsOnAllVertices(I.g));
    o.put("e0", dump(cost));
    std::map<PCTSPedge, int> w;
    for (auto e : boost::make_iterator_range(boost::edges(I.g))) w[e] = -5;
    putPrizeOntoEdgeWeights(I.g, prize, w);
    o.put("w0", dump(w));
    assignZeroCostToSelfLoops(I.g, cost);
    o.put("e1", dump(cost));
    // the solver's own preparation: add the loops when some are missing, then zero cost, then prize weights
    vp::Inst K(a);
    addSelfLoopsToGraph(K.g);
    auto c2 = K.cost();
    o.put("has2", hasSelfLoopsOnAllVertices(K.g));
    assignZeroCostToSelfLoops(K.g, c2);
    auto p2 = K.prize();
    std::map<PCTSPedge, int> w2;
    putPrizeOntoEdgeWeights(K.g, p2, w2);
    std::vector<std::vector<int>> e2;
    for (auto e : boost::make_iterator_range(boost::edges(K.g)))
        e2.push_back({(int)boost::source(e, K.g), (int)boost::target(e, K.g), (int)c2[e], w2[e]});
    o.put("e2", e2).put("nv", (int)boost::num_vertices(K.g));
    return o;
}
