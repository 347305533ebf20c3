// cost cover inequalities (C04)
#include "solver.hh"
using namespace ::vp;

// the constraints numbered from .. on: those whose name is a cost cover's, and how many others there are
static std::vector<J> covers(SCIP* scip, VarNames& names, int from, int* others) {
    std::vector<J> r;
    for (int k = from; k < SCIPgetNConss(scip); k++) {
        SCIP_CONS* c = SCIPgetConss(scip)[k];
        if (std::string(SCIPconsGetName(c)).rfind(COST_COVER_CONS_PREFIX, 0) == 0) r.push_back(cons_of(scip, c, names));
        else (*others)++;
    }
    return r;
}

// distances given by the caller (dps) or computed by the project (twice the shortest path), at a given upper bound
VP_OP(cover) {
    Inst I(a);
    Handle scip;
    std::vector<PCTSPedge> none;
    auto cost = I.cost();
    auto prize = I.prize();
    std::string name("cover");
    auto vars = modelPrizeCollectingTSP(scip, I.g, none, cost, prize, I.quota, I.root, name, true, 0.01, true, -1, 1, true);
    auto names = names_of(scip, I.g, vars);
    std::vector<int> dist;
    if (a["mode"].as<std::string>() == "sp") {
        includeShortestPathCostCover(scip, I.g, cost, I.root);
        dist = getShortestPathCostCoverEventHandler(scip)->getPathDistances();
    }
    else {
        dist = vec<int>(a["dps"]);
        includeDisjointPathsCostCover(scip, dist);
        dist = getDisjointPathsCostCoverEventHandler(scip)->getPathDistances();
    }
    std::vector<J> out;
    for (auto b : a["bounds"]) {
        int bound = b.as<int>(), before = SCIPgetNConss(scip), others = 0;
        unsigned int added = separateThenAddCostCoverInequalities(scip, dist, bound);
        out.push_back(Obj().put("rows", covers(scip, names, before, &others)).put("others", others).put("added", (int)added).put("bound", bound));
    }
    return Obj().put("out", out).put("dist", dist);
}
