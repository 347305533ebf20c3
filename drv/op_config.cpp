// branching settings (C08), statistics files (C09, C10), tailing off (C11), log levels (C30)
#include "solver.hh"
#include <fstream>
#include <unistd.h>
#include <boost/log/sinks/text_ostream_backend.hpp>
#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/make_shared.hpp>
#include <boost/core/null_deleter.hpp>
using namespace ::vp;

static J rules(SCIP* scip) {
    std::vector<J> r;
    for (int k = 0; k < SCIPgetNBranchrules(scip); k++) {
        auto* b = SCIPgetBranchrules(scip)[k];
        r.push_back(Obj().put("name", std::string(SCIPbranchruleGetName(b))).put("pri", SCIPbranchruleGetPriority(b)).put("depth", SCIPbranchruleGetMaxdepth(b)));
    }
    return J(r);
}
VP_OP(branching) {
    Handle scip;
    if (a["simple"].as<bool>()) includeBranchRules(scip);
    else SCIPincludeDefaultPlugins(scip);
    Obj o;
    o.put("before", rules(scip));
    std::vector<J> after;
    for (auto c : a["calls"]) {
        if (c[1].as<int>() == -2) setBranchingStrategy(scip, c[0].as<unsigned int>());
        else setBranchingStrategy(scip, c[0].as<unsigned int>(), c[1].as<int>());
        after.push_back(rules(scip));
    }
    o.put("after", after);
    o.put("codes", Obj().put("RELPSCOST", (int)BranchingStrategy::RELPSCOST).put("STRONG", (int)BranchingStrategy::STRONG)
        .put("STRONG_AT_TREE_TOP", (int)BranchingStrategy::STRONG_AT_TREE_TOP).put("PSCOST", (int)BranchingStrategy::PSCOST)
        .put("DEFAULT", (int)BranchingStrategy::DEFAULT));
    return o;
}

VP_OP(tailing) {
    int max = a["max"].as<int>();
    double thr = a["thr"].as<int>() / 1000.0;
    std::list<double> l;
    std::vector<J> out;
    for (auto g : a["gaps"]) {
        double x = g.as<int>() < 0 ? 1e20 : g.as<int>() / 1000.0;
        pushIntoRollingLpGapList(l, x, max);
        std::vector<int> w;
        for (double y : l) w.push_back(y > 1e19 ? -1 : (int)std::lround(y * 1000));
        bool t = isNodeTailingOff(l, thr, max);
        out.push_back(Obj().put("win", w).put("off", t));
    }
    return Obj().put("out", out);
}

static std::string slurp(const std::filesystem::path& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
struct Scratch {
    std::filesystem::path p;
    Scratch() { char d[] = "statXXXXXX"; if (!mkdtemp(d)) throw ScipError("mkdtemp"); p = d; }
    ~Scratch() { std::filesystem::remove_all(p); }
};
VP_OP(summary) {
    Scratch d;
    auto s = a["st"];
    SummaryStats st = {(SCIP_Status)s["status"].as<int>(), s["lb"].as<int>() / 8.0, s["ub"].as<int>() / 8.0,
        s["ccdp"].as<unsigned>(), s["ccsp"].as<unsigned>(), s["predp"].as<unsigned>(), s["presp"].as<unsigned>(),
        s["cyc"].as<unsigned>(), s["nodes"].as<long long>(), s["dt"].as<unsigned>(), s["mf"].as<unsigned>()};
    std::filesystem::path f = d.p / "s.yaml";
    if (a["old"].as<bool>()) { std::ofstream(f) << "status: 1\nlower_bound: 0\nrubbish: 1\n"; }
    writeSummaryStatsToYaml(st, f);
    SummaryStats r = readSummaryStatsFromYaml(f);
    Obj q;
    q.put("status", (int)r.status).put("lb", (int)std::lround(r.lower_bound * 8)).put("ub", (int)std::lround(r.upper_bound * 8))
        .put("ccdp", (int)r.num_cost_cover_disjoint_paths).put("ccsp", (int)r.num_cost_cover_shortest_paths)
        .put("predp", (int)r.nconss_presolve_disjoint_paths).put("presp", (int)r.nconss_presolve_shortest_paths)
        .put("cyc", (int)r.num_cycle_cover).put("nodes", (int)r.num_nodes)
        .put("dt", (int)r.num_sec_disjoint_tour).put("mf", (int)r.num_sec_maxflow_mincut);
    Obj o;
    o.put("got", q).put("text", slurp(f));
    std::filesystem::path nf = d.p / "nowhere" / "s.yaml", none = d.p / "none.yaml";
    writeSummaryStatsToYaml(st, nf);
    o.put("made", std::filesystem::exists(nf));
    bool missing = false;
    try { readSummaryStatsFromYaml(none); } catch (const FileDoesNotExistError&) { missing = true; }
    o.put("missing", missing);
    return o;
}
// the rows of a table; a number in a column of bounds as a whole number of eighths
static std::vector<J> table(const std::string& t) {
    std::set<size_t> bounds;
    std::vector<J> rows;
    std::stringstream s(t);
    std::string line;
    while (std::getline(s, line)) {
        std::vector<std::string> cells;
        std::string cell;
        std::stringstream l(line);
        while (std::getline(l, cell, ',')) cells.push_back(cell);
        if (!line.empty() && line.back() == ',') cells.push_back("");
        if (rows.empty()) {
            for (size_t k = 0; k < cells.size(); k++) if (cells[k] == "lower_bound" || cells[k] == "upper_bound") bounds.insert(k);
        }
        else for (size_t k : bounds) {
            if (k >= cells.size() || cells[k].empty()) continue;
            char* end;
            double x = strtod(cells[k].c_str(), &end);
            if (!*end && x * 8 == std::floor(x * 8) && std::fabs(x) < 1e9) cells[k] = std::to_string((long long)(x * 8));
            else cells[k] = "not eighths: " + cells[k];
        }
        rows.push_back(J(cells));
    }
    return rows;
}
VP_OP(statcsv) {
    Scratch d;
    std::vector<NodeStats> ns;
    for (auto r : a["nodes"])
        ns.push_back(NodeStats{r[0].as<int>() / 8.0, r[1].as<unsigned>(), r[2].as<unsigned>(), r[3].as<unsigned>(), r[4].as<unsigned>(),
            r[5].as<unsigned>(), r[6].as<unsigned>(), r[7].as<unsigned>(), r[8].as<int>() / 8.0});
    std::vector<Bounds> bs;
    for (auto r : a["bounds"])
        bs.push_back(Bounds{TimePointUTC(SubSeconds(r[0].as<long long>() * 1000 + r[1].as<int>())), TimePointUTC(SubSeconds(r[0].as<long long>() * 1000 + r[2].as<int>())),
            r[3].as<int>() / 8.0, r[4].as<int>() / 8.0, r[5].as<unsigned>()});
    std::filesystem::path f = d.p / "n.csv", g = d.p / "b.csv";
    writeNodeStatsToCSV(ns, f);
    writeBoundsToCSV(bs, g);
    return Obj().put("ncsv", table(slurp(f))).put("bcsv", table(slurp(g)))
        .put("dt", (int)numDisjointTourSECs(ns)).put("mf", (int)numMaxflowMincutSECs(ns));
}

VP_OP(logging) {
    namespace sinks = boost::log::sinks;
    static boost::shared_ptr<std::ostringstream> os = boost::make_shared<std::ostringstream>();
    static bool ready = false;
    if (!ready) {
        auto backend = boost::make_shared<sinks::text_ostream_backend>();
        backend->add_stream(os);
        backend->auto_flush(true);
        auto sink = boost::make_shared<sinks::synchronous_sink<sinks::text_ostream_backend>>(backend);
        sink->set_formatter(boost::log::expressions::stream << boost::log::expressions::smessage);
        boost::log::core::get()->add_sink(sink);
        ready = true;
    }
    std::vector<J> out;
    int id = 0;
    for (auto st : a["steps"]) {
        os->str("");
        int x = st[1].as<int>();
        int boostlevel = -1;
        if (st[0].as<std::string>() == "level") { boostlevel = getBoostLevelFromPyLevel(x); PCTSPinitLogging(boostlevel); }
        else switch (x) {
            case 0: BOOST_LOG_TRIVIAL(trace) << "m" << id; break;
            case 1: BOOST_LOG_TRIVIAL(debug) << "m" << id; break;
            case 2: BOOST_LOG_TRIVIAL(info) << "m" << id; break;
            case 3: BOOST_LOG_TRIVIAL(warning) << "m" << id; break;
            case 4: BOOST_LOG_TRIVIAL(error) << "m" << id; break;
            default: BOOST_LOG_TRIVIAL(fatal) << "m" << id; break;
        }
        id++;
        std::string t = os->str();
        out.push_back(Obj().put("lines", (int)std::count(t.begin(), t.end(), '\n')).put("boost", boostlevel));
    }
    return Obj().put("out", out);
}
