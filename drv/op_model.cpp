// the mathematical program of the project (C02), its warm start (C06) and its cutting planes on given points (C03, C05)
#include "solver.hh"
using namespace ::vp;

// 0/1 points: which ones does the model accept as solutions, and at what objective value
VP_OP(model) {
    Inst I(a);
    Handle scip;
    std::vector<PCTSPedge> heur = tour_edges(I, a["heur"]);
    auto cost = I.cost();
    auto prize = I.prize();
    std::string name("model");
    auto vars = modelPrizeCollectingTSP(scip, I.g, heur, cost, prize, I.quota, I.root, name, true, 0.01, true, -1, 1,
                                        a["simple"].as<bool>());
    VP_OK(SCIPtransformProb(scip));
    Obj o;
    std::vector<J> acc;
    for (auto p : a["points"]) {
        SCIP_SOL* sol;
        VP_OK(SCIPcreateSol(scip, &sol, NULL));
        for (auto x : p["on"]) VP_OK(SCIPsetSolVal(scip, sol, var_of(I, vars, x[0].as<int>(), x[1].as<int>()), 1.0));
        SCIP_Bool feas = FALSE;
        VP_OK(SCIPcheckSol(scip, sol, FALSE, FALSE, TRUE, TRUE, TRUE, &feas));
        double obj = SCIPgetSolOrigObj(scip, sol);
        acc.push_back(Obj().put("ok", (bool)feas).put("obj", (int)std::lround(obj)));
        VP_OK(SCIPfreeSol(scip, &sol));
    }
    // a small instance: every 0/1 point is tried
    std::vector<J> on;
    std::vector<std::pair<std::pair<int, int>, SCIP_VAR*>> vs;
    for (auto& kv : vars) vs.push_back({I.ends(kv.first), kv.second});
    bool all = a["all"].as<bool>() && vs.size() <= 16;
    for (unsigned m = 0; all && m < (1u << vs.size()); m++) {
        SCIP_SOL* sol;
        VP_OK(SCIPcreateSol(scip, &sol, NULL));
        std::vector<std::pair<int, int>> es;
        for (size_t k = 0; k < vs.size(); k++)
            if (m >> k & 1) { VP_OK(SCIPsetSolVal(scip, sol, vs[k].second, 1.0)); es.push_back(vs[k].first); }
        SCIP_Bool feas = FALSE;
        VP_OK(SCIPcheckSol(scip, sol, FALSE, FALSE, TRUE, TRUE, TRUE, &feas));
        if (feas) on.push_back(Obj().put("on", es).put("obj", (int)std::lround(SCIPgetSolOrigObj(scip, sol))));
        VP_OK(SCIPfreeSol(scip, &sol));
    }
    o.put("acc", acc).put("on", on).put("all", all);
    o.put("nvars", SCIPgetNOrigVars(scip));
    return o;
}

// the heuristic tour handed to the solver before solving
VP_OP(warm) {
    Inst I(a);
    Handle scip;
    std::vector<PCTSPedge> heur = tour_edges(I, a["heur"]);
    auto cost = I.cost();
    auto prize = I.prize();
    std::string name("warm");
    auto vars = modelPrizeCollectingTSP(scip, I.g, heur, cost, prize, I.quota, I.root, name, true, 0.01, true, -1, 1,
                                        a["simple"].as<bool>());
    SCIPsetHeuristics(scip, SCIP_PARAMSETTING_OFF, TRUE);
    VP_OK(SCIPsetLongintParam(scip, "limits/nodes", 1));
    // what the solver knows before it looks at its first relaxation
    std::vector<J> sols;
    bool seen = false;
    auto look = [&] {
        if (seen) return;
        seen = true;
        for (int k = 0; k < SCIPgetNSols(scip); k++) {
            SCIP_SOL* s = SCIPgetSols(scip)[k];
            std::vector<std::pair<int, int>> on;
            for (auto& kv : vars)
                if (SCIPgetSolVal(scip, s, kv.second) > 0.5) on.push_back(I.ends(kv.first));
            sols.push_back(Obj().put("on", on).put("obj", (int)std::lround(SCIPgetSolOrigObj(scip, s))));
        }
    };
    VP_OK(SCIPincludeObjEventhdlr(scip, new Watch(scip, "vp_node", SCIP_EVENTTYPE_NODEFOCUSED, [&](SCIP*, SCIP_EVENT*) { look(); }), TRUE));
    VP_OK(SCIPsolve(scip));
    Obj o;
    o.put("started", seen).put("sols", sols);
    bool has = SCIPgetNSols(scip) > 0;
    o.put("has", has).put("best", has ? (int)std::lround(SCIPgetSolOrigObj(scip, SCIPgetBestSol(scip))) : -1);
    o.put("status", (int)SCIPgetStatus(scip));
    return o;
}

// fractional points (values in units of 1/den) handed to the separation routines inside a running solve
VP_OP(cuts) {
    Inst I(a);
    Handle scip;
    std::vector<PCTSPedge> none;
    auto cost = I.cost();
    auto prize = I.prize();
    std::string name("cuts");
    auto vars = modelPrizeCollectingTSP(scip, I.g, none, cost, prize, I.quota, I.root, name, true, 0.01, true, -1, 1, true);
    auto cc = new CycleCoverConshdlr(scip);
    VP_OK(SCIPincludeObjConshdlr(scip, cc, TRUE));
    auto book = new NodeEventhdlr(scip);
    VP_OK(SCIPincludeObjEventhdlr(scip, book, TRUE));
    SCIPsetHeuristics(scip, SCIP_PARAMSETTING_OFF, TRUE);
    std::vector<J> out;
    bool done = false;
    std::string err;
    auto run = [&](SCIP* s) {
        if (done) return;
        done = true;
        auto names = names_of(s, I.g, vars);
        SCIP_CONSHDLR* sec = SCIPfindConshdlr(s, SEC_CONSHDLR_NAME.c_str());
        SCIP_CONSHDLR* cyc = SCIPfindConshdlr(s, CYCLE_COVER_NAME.c_str());
        auto grab = [&] {
            std::vector<J> rows;
            for (int k = 0; k < SCIPgetNCuts(s); k++) rows.push_back(row_of(s, SCIPgetCuts(s)[k], names));
            SCIPclearCuts(s);
            return rows;
        };
        grab();
        // what the books of the node say has been added since the last look
        int bdt = 0, bmf = 0;
        auto counted = [&] {
            auto ns = book->getNodeStatsVector();
            int dt = 0, mf = 0;
            for (auto& t : ns) { dt += (int)t.num_sec_disjoint_tour; mf += (int)t.num_sec_maxflow_mincut; }
            std::vector<int> r = {dt - bdt, mf - bmf};
            bdt = dt; bmf = mf;
            return r;
        };
        counted();
        int den = a["den"].as<int>();
        for (auto p : a["points"]) {
            SCIP_SOL* sol;
            VP_OK(SCIPcreateSol(s, &sol, NULL));
            for (auto x : p["val"]) {
                SCIP_VAR* v = var_of(I, vars, x[0].as<int>(), x[1].as<int>());
                VP_OK(SCIPsetSolVal(s, sol, v, x[2].as<double>() / den));
            }
            Obj q;
            SCIP_RESULT r = SCIP_DIDNOTFIND;
            VP_OK(PCTSPseparateSubtour(s, sec, NULL, 0, 0, sol, &r, true, false));
            q.put("dt", grab()).put("rdt", (int)r).put("ndt", counted());
            r = SCIP_DIDNOTFIND;
            VP_OK(PCTSPseparateSubtour(s, sec, NULL, 0, 0, sol, &r, false, true));
            q.put("mf", grab()).put("rmf", (int)r).put("nmf", counted());
            r = SCIP_DIDNOTFIND;
            VP_OK(PCTSPseparateSubtour(s, sec, NULL, 0, 0, sol, &r, true, true));
            q.put("both", grab()).put("nboth", counted());
            r = SCIP_DIDNOTFIND;
            VP_OK(separateCycleCover(s, cyc, sol, &r));
            q.put("cyc", grab()).put("rcyc", (int)r);
            auto* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(s));
            q.put("cycviol", isCycleCoverViolated(s, sol, pd));
            out.push_back(q);
            VP_OK(SCIPfreeSol(s, &sol));
        }
        SCIPinterruptSolve(s);
    };
    auto safe = [&](SCIP* s) { try { run(s); } catch (const std::exception& e) { err = e.what(); SCIPinterruptSolve(s); } };
    VP_OK(SCIPincludeObjConshdlr(scip, new Probe(scip, safe), TRUE));
    VP_OK(SCIPincludeObjEventhdlr(scip, new Watch(scip, "vp_lp", SCIP_EVENTTYPE_FIRSTLPSOLVED, [&](SCIP* s, SCIP_EVENT*) { safe(s); }), TRUE));
    VP_OK(SCIPsolve(scip));
    if (!err.empty()) throw ScipError(err);
    Obj o;
    o.put("reached", done).put("out", out).put("status", (int)SCIPgetStatus(scip)).put("db", done ? 0 : (int)SCIPgetDualbound(scip));
    return o;
}

// how a solution is read back: its vertices, edges, graph, variables and their names (values in units of 1/den, with tiny errors)
VP_OP(reading) {
    Inst I(a);
    Inst bare(a);
    Handle scip;
    std::vector<PCTSPedge> none;
    auto cost = I.cost();
    auto prize = I.prize();
    std::string name("reading");
    auto vars = modelPrizeCollectingTSP(scip, I.g, none, cost, prize, I.quota, I.root, name, true, 0.01, true, -1, 1, true);
    VP_OK(SCIPtransformProb(scip));
    auto edge_of = [&](const In& x) {
        auto e = boost::edge(x[0].as<int>(), x[1].as<int>(), I.g);
        if (!e.second) throw std::runtime_error("no such edge");
        return e.first;
    };
    std::map<SCIP_VAR*, std::pair<int, int>> who;
    for (auto& kv : vars) who[kv.second] = I.ends(kv.first);
    std::vector<J> out;
    for (auto p : a["points"]) {
        SCIP_SOL* sol;
        VP_OK(SCIPcreateSol(scip, &sol, NULL));
        for (auto x : p["val"])
            VP_OK(SCIPsetSolVal(scip, sol, vars.at(edge_of(x)), x[2].as<double>() / a["den"].as<double>() + x[3].as<double>() * 1e-10));
        Obj q;
        q.put("whole", isSolutionIntegral(scip, sol));
        std::vector<int> vs;
        for (auto v : getSolutionVertices(scip, I.g, sol, vars)) vs.push_back((int)v);
        q.put("verts", vs);
        auto es = getSolutionEdges(scip, I.g, sol, vars);
        q.put("es", I.ends_of(es));
        std::vector<std::pair<int, int>> pairs, sg, fg;
        for (auto& x : getVertexPairVectorFromEdgeSubset(I.g, es)) pairs.push_back({(int)x.first, (int)x.second});
        q.put("pairs", pairs);
        PCTSPgraph s;
        getSolutionGraph(scip, I.g, s, sol, vars);
        for (auto e : boost::make_iterator_range(boost::edges(s))) sg.push_back({(int)boost::source(e, s), (int)boost::target(e, s)});
        q.put("sg", sg);
        auto f = filterGraphByPositiveEdgeVars(scip, I.g, sol, vars);
        for (auto e : boost::make_iterator_range(boost::edges(f))) fg.push_back({(int)boost::source(e, f), (int)boost::target(e, f)});
        q.put("fg", fg).put("nfg", numEdgesInFilteredGraph(f));
        std::string fails = "";
        try { getSolutionVertices(scip, bare.g, sol, vars); }
        catch (const EdgeNotFoundException&) { fails = "edge"; }
        catch (const std::exception& e) { fails = e.what(); }
        q.put("bare", fails);
        out.push_back(q);
        VP_OK(SCIPfreeSol(scip, &sol));
    }
    Obj o;
    o.put("out", out);
    std::vector<std::pair<int, int>> all;
    for (auto& x : getVertexPairVectorFromEdgeSubset(I.g, getEdgeVectorOfGraph(I.g))) all.push_back({(int)x.first, (int)x.second});
    o.put("all", all);
    // variables asked for
    std::vector<J> asks;
    for (auto q : a["asks"]) {
        Obj r;
        PCTSPedgeVariableMap m = vars;
        for (auto x : q["gone"]) m.erase(edge_of(x));
        std::vector<PCTSPedge> es;
        for (auto x : q["es"]) es.push_back(edge_of(x));
        std::vector<std::pair<int, int>> got, mixed;
        std::vector<std::string> names;
        std::vector<int> coefs;
        std::string joined, fails = "";
        try {
            auto vs = getEdgeVariables(scip, I.g, m, es);
            for (auto v : vs) { got.push_back(who.at(v)); names.push_back(SCIPvarGetName(v)); }
            joined = joinVariableNames(vs);
            size_t k = std::min((size_t)q["pos"].as<int>(), vs.size());
            VarVector pos(vs.begin(), vs.begin() + k), neg(vs.begin() + k, vs.end()), both(vs.size());
            std::vector<double> c(vs.size());
            fillPositiveNegativeVars(pos, neg, both, c);
            for (auto v : both) mixed.push_back(who.count(v) ? who[v] : std::make_pair(-1, -1));
            for (auto x : c) coefs.push_back(whole(x) ? (int)std::lround(x) : -99);
        }
        catch (const VariableIsNullException&) { fails = "null"; }
        catch (const std::exception& e) { fails = e.what(); }
        r.put("got", got).put("names", names).put("joined", joined).put("mixed", mixed).put("coefs", coefs).put("fails", fails);
        asks.push_back(r);
    }
    o.put("answers", asks);
    return o;
}
