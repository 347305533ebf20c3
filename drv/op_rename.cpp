// renaming of vertices and edges (include/pctsp/renaming.hh)
#include "inst.hh"
#include "pctsp/renaming.hh"
#include <set>

VP_OP(rename) {
    typedef long long Old;
    typedef PCTSPvertex New;
    typedef boost::bimap<New, Old> Map;
    vp::Obj o;
    std::vector<std::pair<Old, Old>> es;
    for (auto e : a["oes"]) es.push_back({e[0].as<Old>(), e[1].as<Old>()});
    auto es0 = es;
    Map m;
    auto ne = renameEdges(m, es);
    o.put("ne", ne).put("same", es == es0);
    std::vector<std::pair<long, long>> l, r;
    for (auto& x : m.left) l.push_back({(long)x.first, (long)x.second});
    o.put("map", l);
    o.put("oldedges", getOldEdges(m, ne));
    o.put("newedges", getNewEdges(m, es));
    std::list<std::pair<New, New>> nel(ne.begin(), ne.end());
    o.put("oldedgesl", getOldEdges(m, nel));
    std::vector<New> nv;
    for (auto v : a["pickn"]) if (m.size()) nv.push_back(v.as<int>() % m.size());
    o.put("nv", nv);
    auto ov = getOldVertices(m, nv);
    o.put("ov", ov);
    o.put("back", getNewVertices(m, ov));
    // lookups that may insert
    std::vector<Old> vs;
    for (auto v : a["ovs"]) vs.push_back(v.as<Old>());
    Map m2;
    renameVertices<std::vector<Old>, Old, New>(m2, vs);
    std::vector<std::pair<long, long>> l2;
    for (auto& x : m2.left) l2.push_back({(long)x.first, (long)x.second});
    o.put("map2", l2);
    Map m3 = m2;
    New next = m3.size();
    std::vector<int> got;
    for (auto v : a["ovs2"]) { Old x = v.as<Old>(); got.push_back((int)findOrInsertVertex(m3, x, next)); }
    std::vector<std::pair<long, long>> l3;
    for (auto& x : m3.left) l3.push_back({(long)x.first, (long)x.second});
    o.put("got", got).put("map3", l3).put("next", (int)next);
    // costs and prizes carried over to the renamed graph
    PCTSPgraph g;
    addEdgesToGraph(g, ne);
    std::map<std::pair<Old, Old>, int> oc;
    std::map<Old, int> op;
    int k = 1;
    for (auto& e : es) if (!oc.count(e) && !oc.count({e.second, e.first})) oc[e] = k++;
    for (auto& x : m.left) op[x.second] = 100 + (int)((x.second * 7) % 13);
    auto cm = boost::get(boost::edge_weight, g);
    auto pm = boost::get(boost::vertex_distance, g);
    fillCostMapFromRenamedMap(g, cm, oc, m);
    fillRenamedVertexMap<int, VertexPrizeMap, Old, New>(pm, op, m);
    std::vector<std::vector<long>> ocs, ncs, ops_, nps;
    for (auto& x : oc) ocs.push_back({(long)x.first.first, (long)x.first.second, x.second});
    for (auto e : boost::make_iterator_range(boost::edges(g))) ncs.push_back({(long)boost::source(e, g), (long)boost::target(e, g), (long)cm[e]});
    for (auto& x : op) ops_.push_back({(long)x.first, x.second});
    for (auto v : boost::make_iterator_range(boost::vertices(g))) nps.push_back({(long)v, (long)pm[v]});
    o.put("oc", ocs).put("nc", ncs).put("op", ops_).put("np", nps);
    // a cost for a pair that is no edge of the graph is refused
    bool refused = false;
    std::map<std::pair<Old, Old>, int> bad;
    std::set<std::pair<New, New>> have;
    for (auto& e : ne) { have.insert(e); have.insert({e.second, e.first}); }
    bool some = false;
    for (auto& x : m.left) for (auto& y : m.left)
        if (!some && !have.count({x.first, y.first})) { bad[{x.second, y.second}] = 1; some = true; }
    if (some) { try { fillCostMapFromRenamedMap(g, cm, bad, m); } catch (const EdgeNotFoundException&) { refused = true; } }
    o.put("refused", some ? (refused ? 1 : 0) : 1);
    return o;
}
