// walks, tours, costs and prizes (include/pctsp/walk.hh, graph.hh)
#include "inst.hh"
static VertexPairVector allpairs(PCTSPgraph& g) { return getVertexPairVectorFromEdgeSubset(g, getEdgeVectorOfGraph(g)); }
#include "pctsp/walk.hh"

typedef std::list<PCTSPvertex> Tour;
static Tour tour_of(const vp::In& x) { Tour t; for (auto v : x) t.push_back(v.as<int>()); return t; }
template <class F> static vp::J guarded(F f) {
    vp::J j;
    try { j.s = "[true," + f().s + "]"; }
    catch (const EdgeNotFoundException&) { j.s = "[false]"; }
    return j;
}

VP_OP(walk) {
    vp::Inst I(a);
    auto cost = I.cost();
    auto prize = I.prize();
    vp::Obj o;
    Tour t = tour_of(a["cyc"]), w = tour_of(a["walk"]);
    PCTSPvertex r = I.root;
    o.put("reorder", ReorderTourFromRoot(t, r));
    o.put("same", t == tour_of(a["cyc"]) );
    std::vector<PCTSPvertex> wv(w.begin(), w.end());
    o.put("walkedges", guarded([&] {
        auto f = wv.begin(), l = wv.end();
        return vp::J(I.ends_of(getEdgesInWalk(I.g, f, l)));
    }));
    o.put("cost_list", guarded([&] { return vp::J((int)totalCost(I.g, w, cost)); }));
    o.put("cost_vec", guarded([&] { return vp::J((int)totalCost(I.g, wv, cost)); }));
    o.put("cost_edges", guarded([&] {
        auto f = wv.begin(), l = wv.end();
        auto es = getEdgesInWalk(I.g, f, l);
        std::list<PCTSPedge> el(es.begin(), es.end());
        int x = totalCost(es, cost), y = totalCost(el, cost);
        return vp::J(std::vector<int>{x, y});
    }));
    o.put("prize_list", (int)totalPrize(prize, w));
    o.put("prize_vec", (int)totalPrize(prize, wv));
    o.put("prize_graph", (int)totalPrizeOfGraph(I.g, prize));
    if (t.size() > 0) o.put("prize_tour", (int)totalPrizeOfTour(prize, t));
    else o.put("prize_tour", -1);
    int q = I.quota;
    o.put("feas", isPrizeFeasible(prize, q, wv));
    std::vector<bool> internal;
    if (wv.size() >= 2)
        for (int v = 0; v < I.n; v++) { PCTSPvertex x = v; internal.push_back(isInternalVertexOfWalk(wv, x)); }
    o.put("internal", internal);
    o.put("text", walkToString(w));
    return o;
}

VP_OP(edges) {
    vp::Inst I(a);
    vp::Obj o;
    for (auto v : a["loops"]) boost::add_edge(v.as<int>(), v.as<int>(), I.g);
    std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pairs;
    for (auto p : a["pairs"]) pairs.push_back({p[0].as<int>(), p[1].as<int>()});
    o.put("ofpairs", guarded([&] { return vp::J(I.ends_of(edgesFromVertexPairs(I.g, pairs))); }));
    std::vector<PCTSPedge> es;
    for (auto& p : pairs) { auto e = boost::edge(p.first, p.second, I.g); if (e.second) es.push_back(e.first); }
    { auto f = es.begin(), l = es.end(); o.put("verts", getVerticesOfEdges(I.g, f, l)); }
    o.put("subset", I.ends_of(es));
    o.put("subsetpairs", getVertexPairVectorFromEdgeSubset(I.g, es));
    o.put("all", I.ends_of(getEdgeVectorOfGraph(I.g)));
    o.put("allpairs", allpairs(I.g));
    std::vector<PCTSPvertex> S = vp::vec<PCTSPvertex>(a["sub"]);
    std::vector<PCTSPvertex> S2 = S;
    o.put("induced", I.ends_of(getEdgesInducedByVertices(I.g, S)));
    o.put("same", S == S2);
    try { o.put("selfloops", I.ends_of(getSelfLoops(I.g, S))).put("loopsok", true); }
    catch (const NoSelfLoopFoundException&) { o.put("loopsok", false); }
    PCTSPgraph H(I.n);
    addEdgesToGraph(H, pairs);
    o.put("added", allpairs(H));
    return o;
}

VP_OP(dijkstra) {
    vp::Inst I(a);
    auto cost = I.cost();
    PCTSPvertex s = a["s"].as<int>(), t = a["t"].as<int>();
    std::vector<bool> mark(I.n);
    for (auto v : a["mark"]) mark[v.as<int>()] = true;
    std::vector<PCTSPvertex> pred(I.n);
    std::vector<int> dist(I.n);
    std::vector<ColorType> col(I.n);
    vp::Obj o;
    bool found = false;
    try { dijkstraShortestPathBlacklist(I.g, s, t, pred, dist, cost, col, mark); }
    catch (const TargetVertexFound&) { found = true; }
    o.put("found", found);
    std::list<PCTSPvertex> path;
    if (found) path = pathInTreeFromParents(pred, s, t);
    o.put("path", path).put("dist", found ? dist[t] : -1);
    return o;
}
