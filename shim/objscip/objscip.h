/* C++ wrapper classes in the manner of SCIP's objscip, written over the C callback API.
 * They live in an inline namespace so that they cannot clash with the classes of the same
 * name inside libscip itself. */
#ifndef VP_OBJSCIP_H
#define VP_OBJSCIP_H
#include <string>
#include "scip/scip.h"

namespace scip {
inline namespace vpshim {

class ObjProbData {
public:
    ObjProbData() {}
    virtual ~ObjProbData() {}
    virtual SCIP_RETCODE scip_delorig(SCIP*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_trans(SCIP*, ObjProbData** objprobdata, SCIP_Bool* deleteobject) {
        *objprobdata = this; *deleteobject = FALSE; return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_deltrans(SCIP*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_initsol(SCIP*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_exitsol(SCIP*, SCIP_Bool) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_copy(SCIP*, SCIP*, SCIP_HASHMAP*, SCIP_HASHMAP*, ObjProbData** objprobdata, SCIP_Bool, SCIP_RESULT* result) {
        *objprobdata = 0; *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
};

class ObjConshdlr {
public:
    SCIP* scip_;
    std::string name_s, desc_s;
    const char* scip_name_;
    const int sepapriority_, enfopriority_, checkpriority_, sepafreq_, propfreq_, eagerfreq_, maxprerounds_;
    const SCIP_Bool delaysepa_, delayprop_, needscons_;
    const SCIP_PROPTIMING proptiming_;
    const SCIP_PRESOLTIMING presoltiming_;
    ObjConshdlr(SCIP* scip, const char* name, const char* desc, int sepapriority, int enfopriority, int checkpriority,
        int sepafreq, int propfreq, int eagerfreq, int maxprerounds, SCIP_Bool delaysepa, SCIP_Bool delayprop,
        SCIP_Bool needscons, SCIP_PROPTIMING proptiming, SCIP_PRESOLTIMING presoltiming)
        : scip_(scip), name_s(name), desc_s(desc), scip_name_(name_s.c_str()), sepapriority_(sepapriority), enfopriority_(enfopriority),
          checkpriority_(checkpriority), sepafreq_(sepafreq), propfreq_(propfreq), eagerfreq_(eagerfreq), maxprerounds_(maxprerounds),
          delaysepa_(delaysepa), delayprop_(delayprop), needscons_(needscons), proptiming_(proptiming), presoltiming_(presoltiming) {}
    virtual ~ObjConshdlr() {}
    virtual SCIP_RETCODE scip_free(SCIP*, SCIP_CONSHDLR*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_delete(SCIP*, SCIP_CONSHDLR*, SCIP_CONS*, SCIP_CONSDATA**) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSTRANS(scip_trans) = 0;
    virtual SCIP_DECL_CONSSEPALP(scip_sepalp) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSSEPASOL(scip_sepasol) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSENFOLP(scip_enfolp) = 0;
    virtual SCIP_DECL_CONSENFOPS(scip_enfops) = 0;
    virtual SCIP_DECL_CONSCHECK(scip_check) = 0;
    virtual SCIP_DECL_CONSPROP(scip_prop) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSLOCK(scip_lock) = 0;
    virtual SCIP_DECL_CONSPRINT(scip_print) { return SCIP_OKAY; }
};

class ObjEventhdlr {
public:
    SCIP* scip_;
    std::string name_s, desc_s;
    const char* scip_name_;
    ObjEventhdlr(SCIP* scip, const char* name, const char* desc) : scip_(scip), name_s(name), desc_s(desc), scip_name_(name_s.c_str()) {}
    virtual ~ObjEventhdlr() {}
    virtual SCIP_DECL_EVENTFREE(scip_free) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTINIT(scip_init) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXIT(scip_exit) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTDELETE(scip_delete) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXEC(scip_exec) = 0;
};
} // inline namespace vpshim
} // namespace scip

/* data blocks handed to SCIP */
struct VpConsHd { scip::ObjConshdlr* obj; SCIP_Bool del; };
struct VpEventHd { scip::ObjEventhdlr* obj; SCIP_Bool del; };
struct VpProb { scip::ObjProbData* obj; SCIP_Bool del; };

inline scip::ObjConshdlr* vpObjCons(SCIP_CONSHDLR* h) { return reinterpret_cast<VpConsHd*>(SCIPconshdlrGetData(h))->obj; }
inline scip::ObjEventhdlr* vpObjEvent(SCIP_EVENTHDLR* h) { return reinterpret_cast<VpEventHd*>(SCIPeventhdlrGetData(h))->obj; }

inline SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, scip::ObjConshdlr* obj, SCIP_Bool deleteobject) {
    auto* data = new VpConsHd{obj, deleteobject};
    SCIP_CONSHDLR* h = nullptr;
    SCIP_CALL(SCIPincludeConshdlrBasic(scip, &h, obj->name_s.c_str(), obj->desc_s.c_str(), obj->enfopriority_, obj->checkpriority_,
        obj->eagerfreq_, obj->needscons_,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result) {
            return vpObjCons(conshdlr)->scip_enfolp(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, result); },
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result) {
            return vpObjCons(conshdlr)->scip_enfops(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, objinfeasible, result); },
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result) {
            return vpObjCons(conshdlr)->scip_check(scip, conshdlr, conss, nconss, sol, checkintegrality, checklprows, printreason, completely, result); },
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg) {
            return vpObjCons(conshdlr)->scip_lock(scip, conshdlr, cons, locktype, nlockspos, nlocksneg); },
        reinterpret_cast<SCIP_CONSHDLRDATA*>(data)));
    SCIP_CALL(SCIPsetConshdlrSepa(scip, h,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result) {
            return vpObjCons(conshdlr)->scip_sepalp(scip, conshdlr, conss, nconss, nusefulconss, result); },
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result) {
            return vpObjCons(conshdlr)->scip_sepasol(scip, conshdlr, conss, nconss, nusefulconss, sol, result); },
        obj->sepafreq_, obj->sepapriority_, obj->delaysepa_));
    SCIP_CALL(SCIPsetConshdlrProp(scip, h,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, int nmarkedconss, SCIP_PROPTIMING proptiming, SCIP_RESULT* result) {
            return vpObjCons(conshdlr)->scip_prop(scip, conshdlr, conss, nconss, nusefulconss, nmarkedconss, proptiming, result); },
        obj->propfreq_, obj->delayprop_, obj->proptiming_));
    SCIP_CALL(SCIPsetConshdlrTrans(scip, h,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons) {
            return vpObjCons(conshdlr)->scip_trans(scip, conshdlr, sourcecons, targetcons); }));
    SCIP_CALL(SCIPsetConshdlrDelete(scip, h,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_CONSDATA** consdata) {
            SCIP_RETCODE r = vpObjCons(conshdlr)->scip_delete(scip, conshdlr, cons, consdata); *consdata = nullptr; return r; }));
    SCIP_CALL(SCIPsetConshdlrPrint(scip, h,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file) {
            return vpObjCons(conshdlr)->scip_print(scip, conshdlr, cons, file); }));
    SCIP_CALL(SCIPsetConshdlrFree(scip, h,
        [](SCIP* scip, SCIP_CONSHDLR* conshdlr) {
            auto* d = reinterpret_cast<VpConsHd*>(SCIPconshdlrGetData(conshdlr));
            SCIP_RETCODE r = d->obj->scip_free(scip, conshdlr);
            if (d->del) delete d->obj;
            delete d; return r; }));
    return SCIP_OKAY;
}
inline scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* scip, const char* name) {
    SCIP_CONSHDLR* h = SCIPfindConshdlr(scip, name);
    return h == nullptr ? nullptr : vpObjCons(h);
}
inline scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP*, SCIP_CONSHDLR* h) { return vpObjCons(h); }

inline SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* obj, SCIP_Bool deleteobject) {
    auto* data = new VpEventHd{obj, deleteobject};
    SCIP_EVENTHDLR* h = nullptr;
    SCIP_CALL(SCIPincludeEventhdlrBasic(scip, &h, obj->name_s.c_str(), obj->desc_s.c_str(),
        [](SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata) {
            return vpObjEvent(eventhdlr)->scip_exec(scip, eventhdlr, event, eventdata); },
        reinterpret_cast<SCIP_EVENTHDLRDATA*>(data)));
    SCIP_CALL(SCIPsetEventhdlrFree(scip, h, [](SCIP* scip, SCIP_EVENTHDLR* eventhdlr) {
        auto* d = reinterpret_cast<VpEventHd*>(SCIPeventhdlrGetData(eventhdlr));
        SCIP_RETCODE r = d->obj->scip_free(scip, eventhdlr);
        if (d->del) delete d->obj;
        delete d; return r; }));
    SCIP_CALL(SCIPsetEventhdlrInit(scip, h, [](SCIP* scip, SCIP_EVENTHDLR* e) { return vpObjEvent(e)->scip_init(scip, e); }));
    SCIP_CALL(SCIPsetEventhdlrExit(scip, h, [](SCIP* scip, SCIP_EVENTHDLR* e) { return vpObjEvent(e)->scip_exit(scip, e); }));
    SCIP_CALL(SCIPsetEventhdlrInitsol(scip, h, [](SCIP* scip, SCIP_EVENTHDLR* e) { return vpObjEvent(e)->scip_initsol(scip, e); }));
    SCIP_CALL(SCIPsetEventhdlrExitsol(scip, h, [](SCIP* scip, SCIP_EVENTHDLR* e) { return vpObjEvent(e)->scip_exitsol(scip, e); }));
    SCIP_CALL(SCIPsetEventhdlrDelete(scip, h, [](SCIP* scip, SCIP_EVENTHDLR* e, SCIP_EVENTDATA** d) { return vpObjEvent(e)->scip_delete(scip, e, d); }));
    return SCIP_OKAY;
}
inline scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* scip, const char* name) {
    SCIP_EVENTHDLR* h = SCIPfindEventhdlr(scip, name);
    return h == nullptr ? nullptr : vpObjEvent(h);
}

inline SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, scip::ObjProbData* objprobdata, SCIP_Bool deleteobject) {
    auto* data = new VpProb{objprobdata, deleteobject};
    return SCIPcreateProb(scip, name,
        [](SCIP* scip, SCIP_PROBDATA** p) { auto* d = reinterpret_cast<VpProb*>(*p);
            SCIP_RETCODE r = d->obj->scip_delorig(scip); if (d->del) delete d->obj; delete d; *p = nullptr; return r; },
        [](SCIP* scip, SCIP_PROBDATA* src, SCIP_PROBDATA** dst) { auto* d = reinterpret_cast<VpProb*>(src);
            auto* t = new VpProb{nullptr, FALSE};
            SCIP_RETCODE r = d->obj->scip_trans(scip, &t->obj, &t->del); *dst = reinterpret_cast<SCIP_PROBDATA*>(t); return r; },
        [](SCIP* scip, SCIP_PROBDATA** p) { auto* d = reinterpret_cast<VpProb*>(*p);
            SCIP_RETCODE r = d->obj->scip_deltrans(scip); if (d->del) delete d->obj; delete d; *p = nullptr; return r; },
        [](SCIP* scip, SCIP_PROBDATA* p) { return reinterpret_cast<VpProb*>(p)->obj->scip_initsol(scip); },
        [](SCIP* scip, SCIP_PROBDATA* p, SCIP_Bool restart) { return reinterpret_cast<VpProb*>(p)->obj->scip_exitsol(scip, restart); },
        nullptr, reinterpret_cast<SCIP_PROBDATA*>(data));
}
inline scip::ObjProbData* SCIPgetObjProbData(SCIP* scip) {
    auto* d = reinterpret_cast<VpProb*>(SCIPgetProbData(scip));
    return d == nullptr ? nullptr : d->obj;
}
#endif
