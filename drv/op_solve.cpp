// a whole run of the branch and cut entry point, watched from outside (C03, C04, C05, C09, C10)
#include "solver.hh"
#include <unistd.h>
#include <fstream>
using namespace ::vp;
static int thou(SCIP* s, double x) {
    if (SCIPisInfinity(s, x)) return 2000000000;
    if (SCIPisInfinity(s, -x)) return -2000000000;
    return (int)std::lround(x * 1000);
}

VP_OP(solve) {
    Inst I(a);
    Handle scip;
    std::vector<PCTSPedge> heur = tour_edges(I, a["heur"]);
    auto cost = I.cost();
    auto prize = I.prize();
    int freq = a["freq"].as<int>();
    size_t cap = 1000;
    std::vector<J> log, rows;
    bool full = true;
    int nrow = 0;
    std::set<int> known;  // SCIP may add a row again out of its own pool
    auto note = [&](const char* e, int node, int par, int x, int y, const std::vector<std::pair<int, int>>& sup) {
        if (log.size() >= cap) { full = false; return; }
        log.push_back(Obj().put("e", e).put("node", node).put("par", par).put("x", x).put("y", y).put("sup", sup));
    };
    std::string err;
    VarNames names;
    std::map<PCTSPedge, SCIP_VAR*>* vars = nullptr;
    auto prep = [&](SCIP* s) {
        if (!vars) {
            vars = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(s))->getEdgeVariableMap();
            names = names_of(s, I.g, *vars);
        }
    };
    VP_OK(SCIPincludeObjConshdlr(scip, new Probe(scip, [&](SCIP* s) {
        prep(s);
        std::vector<std::pair<int, int>> sup;
        for (auto& kv : *vars) {
            double x = SCIPgetSolVal(s, NULL, kv.second);
            auto e = I.ends(kv.first);
            if (e.first != e.second && x > 0 && !SCIPisZero(s, x)) sup.push_back(e);
        }
        // the point itself, in millionths
        std::vector<std::vector<int>> val;
        for (auto& kv : *vars) {
            int x = (int)std::lround(1e6 * SCIPgetSolVal(s, NULL, kv.second));
            auto e = I.ends(kv.first);
            if (x) val.push_back({e.first, e.second, x});
        }
        if (log.size() >= cap) { full = false; return; }
        log.push_back(Obj().put("e", "sep").put("node", (int)SCIPnodeGetNumber(SCIPgetCurrentNode(s))).put("par", 0).put("x", 0).put("y", 0).put("sup", sup).put("val", val));
    }, freq), TRUE));
    VP_OK(SCIPincludeObjConshdlr(scip, new Enf(scip, "vp_enf_before", SEC_CONSHDLR_ENFOPRIORITY + 1, [&](SCIP* s) {
        prep(s);
        std::vector<std::pair<int, int>> sup;
        for (auto& kv : *vars) {
            double x = SCIPgetSolVal(s, NULL, kv.second);
            auto e = I.ends(kv.first);
            if (e.first != e.second && x > 0 && !SCIPisZero(s, x)) sup.push_back(e);
        }
        SCIP_NODE* n = SCIPgetCurrentNode(s);
        double gap = SCIPcomputeGap(SCIPepsilon(s), SCIPinfinity(s), SCIPgetPrimalbound(s), SCIPgetNodeDualbound(s, n));
        note("enf", (int)SCIPnodeGetNumber(n), 0, gap > 2000 ? 2000000000 : (int)std::lround(gap * 1000000),
            (SCIPgetLPSolstat(s) == SCIP_LPSOLSTAT_UNBOUNDEDRAY || SCIPgetLPSolstat(s) == SCIP_LPSOLSTAT_OPTIMAL) ? SCIPgetNLPBranchCands(s) : -1, sup);
    }), TRUE));
    VP_OK(SCIPincludeObjConshdlr(scip, new Enf(scip, "vp_enf_after", SEC_CONSHDLR_ENFOPRIORITY - 1, [&](SCIP* s) {
        note("enf2", (int)SCIPnodeGetNumber(SCIPgetCurrentNode(s)), 0, 0, 0, {});
    }), TRUE));
    VP_OK(SCIPincludeObjEventhdlr(scip, new Watch(scip, "vp_focus", SCIP_EVENTTYPE_NODEFOCUSED, [&](SCIP* s, SCIP_EVENT*) {
        SCIP_NODE* n = SCIPgetCurrentNode(s);
        int id = (int)SCIPnodeGetNumber(n);
        int par = id > 1 && SCIPnodeGetParent(n) ? (int)SCIPnodeGetNumber(SCIPnodeGetParent(n)) : 1;
        note("focus", id, par, thou(s, SCIPgetNodeDualbound(s, n)), thou(s, SCIPgetPrimalbound(s)), {});
    }), TRUE));
    VP_OK(SCIPincludeObjEventhdlr(scip, new Watch(scip, "vp_lp", SCIP_EVENTTYPE_LPSOLVED, [&](SCIP* s, SCIP_EVENT*) {
        note("lp", (int)SCIPnodeGetNumber(SCIPgetCurrentNode(s)), 0, thou(s, SCIPgetDualbound(s)), thou(s, SCIPgetPrimalbound(s)), {});
    }), TRUE));
    VP_OK(SCIPincludeObjEventhdlr(scip, new Watch(scip, "vp_best", SCIP_EVENTTYPE_BESTSOLFOUND, [&](SCIP* s, SCIP_EVENT* e) {
        note("best", 0, 0, (int)std::lround(SCIPgetSolOrigObj(s, SCIPeventGetSol(e))), 0, {});
    }), TRUE));
    VP_OK(SCIPincludeObjEventhdlr(scip, new Watch(scip, "vp_row", SCIP_EVENTTYPE_ROWADDEDSEPA, [&](SCIP* s, SCIP_EVENT* e) {
        prep(s);
        SCIP_ROW* r = SCIPeventGetRow(e);
        SCIP_CONSHDLR* h = SCIProwGetOriginConshdlr(r);
        if (!h) return;
        std::string hn = SCIPconshdlrGetName(h);
        std::string k = hn == SEC_CONSHDLR_NAME ? "sec" : hn == CYCLE_COVER_NAME ? "cyc" : "";
        if (k.empty() || !known.insert(SCIProwGetIndex(r)).second) return;
        nrow++;
        if (k == "sec") note("row", (int)SCIPnodeGetNumber(SCIPgetCurrentNode(s)), 0, 0, 0, {});
        if (rows.size() < 120) rows.push_back(Obj().put("h", k).put("local", (bool)SCIProwIsLocal(r)).put("row", row_of(s, r, names)));
    }), TRUE));
    // the search is the user's: where relaxations are solved (0 everywhere, 1 nowhere, 2 at the root, 3 at every other depth), the order of the variables
    if (auto q = a["search"]) {
        int lp = q["lp"].as<int>();
        if (lp == 1) VP_OK(SCIPsetIntParam(scip, "lp/solvefreq", -1));
        if (lp == 2) VP_OK(SCIPsetIntParam(scip, "lp/solvefreq", 0));
        if (lp == 3) VP_OK(SCIPsetIntParam(scip, "lp/solvefreq", 2));
        VP_OK(SCIPsetIntParam(scip, "randomization/randomseedshift", q["seed"].as<int>()));
        VP_OK(SCIPsetBoolParam(scip, "randomization/permutevars", q["perm"].as<bool>()));
    }
    char dir[] = "solveXXXXXX";
    if (!mkdtemp(dir)) throw ScipError("mkdtemp");
    std::filesystem::path base(dir), sd = base / "s";
    std::vector<int> dps = vec<int>(a["dps"]);
    Obj o;
    try {
        auto res = solvePrizeCollectingTSP(scip, I.g, heur, cost, prize, I.quota, I.root, a["depth"].as<int>(),
            a["strat"].as<unsigned int>(), a["cc_dp"].as<bool>(), a["cc_sp"].as<bool>(), a["cyc"].as<bool>(), dps, "solve",
            a["sec_dt"].as<bool>(), a["thr"].as<int>() / 1000.0, a["sec_mf"].as<bool>(), a["tail"].as<int>(), freq,
            a["simple"].as<bool>(), sd, 60);
        std::vector<std::pair<int, int>> rs;
        for (auto& e : res) rs.push_back({(int)e.first, (int)e.second});
        o.put("res", rs).put("status", (int)SCIPgetStatus(scip)).put("nodes", (int)SCIPgetNNodes(scip));
        std::vector<J> rules;
        for (int k = 0; k < SCIPgetNBranchrules(scip); k++) {
            auto* b = SCIPgetBranchrules(scip)[k];
            rules.push_back(Obj().put("name", std::string(SCIPbranchruleGetName(b))).put("pri", SCIPbranchruleGetPriority(b)).put("depth", SCIPbranchruleGetMaxdepth(b)));
        }
        o.put("rules", rules);
        o.put("pb", thou(scip, SCIPgetPrimalbound(scip))).put("db", thou(scip, SCIPgetDualbound(scip)));
        auto* nh = dynamic_cast<NodeEventhdlr*>(SCIPfindObjEventhdlr(scip, NODE_EVENTHDLR_NAME.c_str()));
        std::vector<J> ns;
        for (auto& t : nh->getNodeStatsVector())
            ns.push_back(Obj().put("id", (int)t.node_id).put("dt", (int)t.num_sec_disjoint_tour).put("mf", (int)t.num_sec_maxflow_mincut)
                .put("par", (int)t.parent_id).put("lb", thou(scip, t.lower_bound)).put("ub", thou(scip, t.upper_bound)));
        o.put("nodestats", ns);
        auto* bh = dynamic_cast<BoundsEventHandler*>(SCIPfindObjEventhdlr(scip, "pctsp_bound_handler"));
        std::vector<J> bs;
        for (auto& b : bh->getBoundsVector())
            bs.push_back(Obj().put("node", (int)b.node_id).put("lb", thou(scip, b.lower_bound)).put("ub", thou(scip, b.upper_bound))
                .put("s", (int)(b.start_timestamp - bh->getBoundsVector().front().start_timestamp).count())
                .put("t", (int)(b.end_timestamp - bh->getBoundsVector().front().start_timestamp).count()));
        o.put("bounds", bs);
        auto cch = [&](const std::string& nm) {
            auto* h = dynamic_cast<CostCoverEventHandler*>(SCIPfindObjEventhdlr(scip, nm.c_str()));
            Obj c;
            c.put("on", h != nullptr).put("all", h ? (int)h->getNumConssAdded() : 0).put("init", h ? (int)h->getNumConssAddedInitSol() : 0);
            c.put("dist", h ? h->getPathDistances() : std::vector<int>());
            return c;
        };
        o.put("ccsp", cch(SHORTEST_PATH_COST_COVER_NAME)).put("ccdp", cch(DISJOINT_PATHS_COST_COVER_NAME));
        o.put("ncyc", (int)getNumCycleCoverCutsAdded(scip));
        std::filesystem::path y = sd / PCTSP_SUMMARY_STATS_YAML;
        SummaryStats st = readSummaryStatsFromYaml(y);
        o.put("yaml", Obj().put("status", (int)st.status).put("lb", thou(scip, st.lower_bound)).put("ub", thou(scip, st.upper_bound))
            .put("ccdp", (int)st.num_cost_cover_disjoint_paths).put("ccsp", (int)st.num_cost_cover_shortest_paths)
            .put("predp", (int)st.nconss_presolve_disjoint_paths).put("presp", (int)st.nconss_presolve_shortest_paths)
            .put("cyc", (int)st.num_cycle_cover).put("nodes", (int)st.num_nodes)
            .put("dt", (int)st.num_sec_disjoint_tour).put("mf", (int)st.num_sec_maxflow_mincut));
        std::vector<J> cov;
        for (int k = 0; k < SCIPgetNOrigConss(scip); k++) {
            SCIP_CONS* c = SCIPgetOrigConss(scip)[k];
            if (std::string(SCIPconsGetName(c)).rfind(COST_COVER_CONS_PREFIX, 0) == 0 && cov.size() < 60) cov.push_back(cons_of(scip, c, names));
        }
        int ncov = 0;
        for (int k = 0; k < SCIPgetNConss(scip); k++) {
            SCIP_CONS* c = SCIPgetConss(scip)[k];
            if (std::string(SCIPconsGetName(c)).rfind(COST_COVER_CONS_PREFIX, 0) == 0) { ncov++; if (cov.size() < 60) cov.push_back(cons_of(scip, c, names)); }
        }
        o.put("covers", cov).put("ncov", ncov);
    }
    catch (...) { std::filesystem::remove_all(base); throw; }
    std::filesystem::remove_all(base);
    o.put("log", log).put("full", full).put("rows", rows).put("nrow", nrow);
    return o;
}
