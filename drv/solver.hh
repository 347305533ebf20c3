// Shared pieces of the operations that look inside branch and cut
#pragma once
#include "inst.hh"
#include <filesystem>
#include <functional>
#include <iostream>
#include <set>
#include <scip/scip.h>
#include "pctsp/algorithms.hh"

namespace vp {
typedef std::map<SCIP_VAR*, std::pair<int, int>> VarNames;
struct ScipError : std::runtime_error { using std::runtime_error::runtime_error; };
inline void ok(SCIP_RETCODE r, const char* what) {
    if (r != SCIP_OKAY) throw ScipError(std::string(what) + " returned " + std::to_string((int)r));
}
#define VP_OK(x) ::vp::ok((x), #x)

// names of the variables, original and transformed: [u,v] for an edge, [v,v] for a vertex
inline VarNames names_of(SCIP* scip, PCTSPgraph& g, std::map<PCTSPedge, SCIP_VAR*>& vars) {
    VarNames m;
    for (auto& kv : vars) {
        std::pair<int, int> e((int)boost::source(kv.first, g), (int)boost::target(kv.first, g));
        m[kv.second] = e;
        SCIP_VAR* t = SCIPvarIsOriginal(kv.second) ? SCIPvarGetTransVar(kv.second) : nullptr;
        if (t) m[t] = e;
    }
    return m;
}
struct Term { int u, v, c; };
inline J term(const std::pair<int, int>& e, double c) {
    J j; j.s = "[" + std::to_string(e.first) + "," + std::to_string(e.second) + "," + std::to_string((int)std::lround(c)) + "]";
    return j;
}
inline bool whole(double x) { return std::fabs(x - std::lround(x)) < 1e-6; }
// a row  terms <= rhs  (lhs must be minus infinity; anything else is reported as it is)
inline J row_of(SCIP* scip, SCIP_ROW* row, VarNames& names) {
    Obj o;
    std::vector<J> ts;
    bool fine = true;
    int n = SCIProwGetNNonz(row);
    SCIP_COL** cols = SCIProwGetCols(row);
    SCIP_Real* vals = SCIProwGetVals(row);
    for (int k = 0; k < n; k++) {
        auto it = names.find(SCIPcolGetVar(cols[k]));
        if (it == names.end() || !whole(vals[k])) { fine = false; continue; }
        ts.push_back(term(it->second, vals[k]));
    }
    double c = SCIProwGetConstant(row), l = SCIProwGetLhs(row), r = SCIProwGetRhs(row);
    o.put("terms", ts);
    bool linf = SCIPisInfinity(scip, -l), rinf = SCIPisInfinity(scip, r);
    o.put("haslhs", !linf).put("lhs", linf ? 0 : (int)std::ceil(l - c - 1e-6));
    o.put("hasrhs", !rinf).put("rhs", rinf ? 0 : (int)std::floor(r - c + 1e-6));
    o.put("fine", fine);
    return o;
}
inline J cons_of(SCIP* scip, SCIP_CONS* cons, VarNames& names) {
    Obj o;
    std::vector<J> ts;
    bool fine = true;
    SCIP_Bool success = FALSE;
    int n = 0;
    SCIPgetConsNVars(scip, cons, &n, &success);
    std::vector<SCIP_VAR*> vs(n + 1);
    std::vector<SCIP_Real> cs(n + 1);
    SCIPgetConsVars(scip, cons, vs.data(), n, &success);
    if (!success) fine = false;
    SCIPgetConsVals(scip, cons, cs.data(), n, &success);
    if (!success) fine = false;
    for (int k = 0; fine && k < n; k++) {
        auto it = names.find(vs[k]);
        if (it == names.end() || !whole(cs[k])) { fine = false; break; }
        ts.push_back(term(it->second, cs[k]));
    }
    double l = SCIPconsGetLhs(scip, cons, &success), r = SCIPconsGetRhs(scip, cons, &success);
    bool linf = SCIPisInfinity(scip, -l), rinf = SCIPisInfinity(scip, r);
    o.put("terms", ts);
    o.put("haslhs", !linf).put("lhs", linf ? 0 : (int)std::ceil(l - 1e-6));
    o.put("hasrhs", !rinf).put("rhs", rinf ? 0 : (int)std::floor(r + 1e-6));
    o.put("fine", fine);
    return o;
}

struct Handle {
    SCIP* s = nullptr;
    Handle() { VP_OK(SCIPcreate(&s)); SCIPsetMessagehdlrQuiet(s, TRUE); }
    ~Handle() { if (s) SCIPfree(&s); }
    operator SCIP*() { return s; }
};

// a constraint handler of our own that only watches: called before the ones of the project in every separation round
class Probe : public scip::ObjConshdlr {
public:
    std::function<void(SCIP*)> f;
    Probe(SCIP* scip, std::function<void(SCIP*)> f, int freq = 1)
        : ObjConshdlr(scip, "vp_probe", "observer", 1500000, -9000000, -9000000, freq, -1, 1, 0, FALSE, FALSE, FALSE,
                      SCIP_PROPTIMING_BEFORELP, SCIP_PRESOLTIMING_FAST), f(f) {}
    SCIP_DECL_CONSSEPALP(scip_sepalp) { *result = SCIP_DIDNOTFIND; f(scip); return SCIP_OKAY; }
    SCIP_DECL_CONSENFOPS(scip_enfops) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSENFOLP(scip_enfolp) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSCHECK(scip_check) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSTRANS(scip_trans) { return SCIP_OKAY; }
    SCIP_DECL_CONSLOCK(scip_lock) { return SCIP_OKAY; }
};
// watches the enforcement of relaxations: called before or after the project's own handler according to its priority
class Enf : public scip::ObjConshdlr {
public:
    std::function<void(SCIP*)> f;
    Enf(SCIP* scip, const char* name, int pri, std::function<void(SCIP*)> f)
        : ObjConshdlr(scip, name, "observer", 0, pri, -9000000, -1, -1, 1, 0, FALSE, FALSE, FALSE, SCIP_PROPTIMING_BEFORELP, SCIP_PRESOLTIMING_FAST), f(f) {}
    SCIP_DECL_CONSENFOPS(scip_enfops) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSENFOLP(scip_enfolp) { *result = SCIP_FEASIBLE; f(scip); return SCIP_OKAY; }
    SCIP_DECL_CONSCHECK(scip_check) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSTRANS(scip_trans) { return SCIP_OKAY; }
    SCIP_DECL_CONSLOCK(scip_lock) { return SCIP_OKAY; }
};
class Watch : public scip::ObjEventhdlr {
public:
    SCIP_EVENTTYPE type;
    std::function<void(SCIP*, SCIP_EVENT*)> f;
    Watch(SCIP* scip, const char* name, SCIP_EVENTTYPE type, std::function<void(SCIP*, SCIP_EVENT*)> f)
        : ObjEventhdlr(scip, name, "observer"), type(type), f(f) {}
    SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIPcatchEvent(scip, type, eventhdlr, NULL, NULL); }
    SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIPdropEvent(scip, type, eventhdlr, NULL, -1); }
    SCIP_DECL_EVENTEXEC(scip_exec) { f(scip, event); return SCIP_OKAY; }
};

inline std::vector<PCTSPedge> tour_edges(Inst& I, const In& t) {
    std::vector<PCTSPedge> es;
    for (size_t k = 0; k + 1 < t.size(); k++) {
        auto e = boost::edge(t[k].as<int>(), t[k + 1].as<int>(), I.g);
        if (!e.second) throw ScipError("generated tour uses a missing edge");
        es.push_back(e.first);
    }
    return es;
}
// the edge/vertex variable of [u,v]
inline SCIP_VAR* var_of(Inst& I, std::map<PCTSPedge, SCIP_VAR*>& vars, int u, int v) {
    auto e = boost::edge(u, v, I.g);
    if (!e.second) throw ScipError("no such edge");
    auto it = vars.find(e.first);
    if (it == vars.end()) throw ScipError("no variable for an edge of the graph");
    return it->second;
}
}
