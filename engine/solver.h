// symx: path conditions, facts and the incremental Z3 back end.
#pragma once
#include "expr.h"
#include <memory>
#include <z3.h>

// A path condition is a chain of constraints; states share prefixes.
struct PC
{
    PC* parent;
    Expr* e;
    u32 depth;
    bool implied; // consequence of the prefix: a fact, not asserted
};

struct Model
{
    std::unordered_map<u32, u64> v; // symbol index -> value
    u64 id = fresh();               // an address may be used again
    Model() {}
    Model(const Model& o) : v(o.v) {}
    static u64 fresh() { static u64 n = 0; return ++n; }
    u64 get(u32 s) const { auto i = v.find(s); return i == v.end() ? 0 : i->second; }
};
typedef std::shared_ptr<Model> ModelP;

enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, xchk = 0, xdis = 0; double time = 0; };

struct Solver
{
    Z3_context ctx = nullptr;
    Z3_solver s = nullptr, s1 = nullptr;
    std::vector<PC*> chain;   // constraints currently asserted (non implied and implied)
    std::vector<u32> factMark;
    std::vector<Expr*> factTrail;
    u32 evEpoch = 1, subEpoch = 1;
    SolverStats st;
    std::vector<PC*> asserted; // prefix of chain asserted in z3
    u32 fresh = 0;
    bool dump = false;
    unsigned timeoutMs = 20000;
    std::string xdumpDir; int xdumpLeft = 0;

    void init();
    Z3_ast tr(Expr* e);
    void sync(PC* pc);   // make facts and assertions correspond to pc
    // is pc and extra satisfiable?  base, if given, is a model of pc
    Res check(PC* pc, Expr* extra, ModelP& out, const Model* base = nullptr);
    u64 eval(Expr* e, const Model* m); // undef and unassigned symbols read as 0
    void newEval() { ++evEpoch; }
    Expr* simp(Expr* e);               // rewrite with facts of the synced path
    void addFacts(Expr* e, bool val);
    void setFact(Expr* e, u64 v);
    std::string smt2(PC* pc, Expr* extra);
private:
    struct Cached { Res r; std::vector<std::pair<u32, u64>> m; };
    std::unordered_map<std::string, Cached> cache;
    u32 serEpoch = 0, markEpoch = 0;
    std::vector<u32> mark;
    std::vector<u32>* support(Expr* e);
    void serial(Expr* e, std::string& k, std::vector<u32>& names);
    Res solve(const std::vector<Expr*>& cs, bool incremental, Expr* extra, const std::vector<PC*>& want, ModelP& out);
    void readModel(Z3_solver sv, Model& m);
    u64 ev(Expr* e, const Model* m);
    Expr* sub(Expr* e);
    Z3_ast num(u64 v, unsigned w);
    Z3_ast bvOf(Expr* e);
};
extern Solver SV;
static inline PC* pcAdd(PC* p, Expr* e, bool implied = false)
{
    return new PC{p, e, p ? p->depth + 1 : 1, implied};
}
