#include "solver.h"
#include <algorithm>
#include <iterator>
#include <time.h>
#include <unistd.h>
Solver SV;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void z3err(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "symx: z3 error %d: %s\n", e, Z3_get_error_msg(c, e));
    abort();
}

void Solver::init()
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, z3err);
    s  = Z3_mk_simple_solver(ctx); // incremental use
    Z3_solver_inc_ref(ctx, s);
    s1 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); // one question at a time
    Z3_solver_inc_ref(ctx, s1);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    for (Z3_solver x : {s, s1}) Z3_solver_set_params(ctx, x, p);
    Z3_params_dec_ref(ctx, p);
}

Z3_ast Solver::num(u64 v, unsigned w)
{
    if (w == 1) return v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w));
}
// translated expression as a bit-vector (width 1 expressions are Bool)
Z3_ast Solver::bvOf(Expr* e)
{
    Z3_ast a = tr(e);
    if (e->width > 1) return a;
    Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
}

Z3_ast Solver::tr(Expr* e)
{
    if (e->z) return (Z3_ast) e->z;
    Z3_ast r = nullptr;
    unsigned w = e->width;
    auto one = [&](Z3_ast bv) { return Z3_mk_eq(ctx, bv, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
    switch (e->kind) {
    case E_CONST: r = num(e->c, w); break;
    case E_SYM: case E_UNDEF: {
        char nm[64];
        snprintf(nm, 64, "%c%llu", e->kind == E_SYM ? 's' : 'u', (unsigned long long) e->c);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w));
        break;
    }
    case E_ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->d)); break;
    case E_CONCAT: r = Z3_mk_concat(ctx, bvOf(e->a), bvOf(e->b)); break;
    case E_EXTRACT:
        r = Z3_mk_extract(ctx, e->c + w - 1, e->c, bvOf(e->a));
        if (w == 1) r = one(r);
        break;
    case E_ZEXT:
        if (e->a->width == 1) r = Z3_mk_ite(ctx, tr(e->a), num(1, w), num(0, w));
        else r = Z3_mk_zero_ext(ctx, w - e->a->width, tr(e->a));
        break;
    case E_SEXT:
        if (e->a->width == 1) r = Z3_mk_ite(ctx, tr(e->a), num(maskw(w), w), num(0, w));
        else r = Z3_mk_sign_ext(ctx, w - e->a->width, tr(e->a));
        break;
    case E_POP: {
        // sum of the bits that are not known to be zero
        std::vector<Z3_ast> t;
        for (unsigned i = 0; i < w; i++) if (!(e->a->kz >> i & 1))
            t.push_back(Z3_mk_zero_ext(ctx, w - 1, Z3_mk_extract(ctx, i, i, tr(e->a))));
        while (t.size() > 1) {
            std::vector<Z3_ast> n;
            for (size_t i = 0; i + 1 < t.size(); i += 2) n.push_back(Z3_mk_bvadd(ctx, t[i], t[i + 1]));
            if (t.size() & 1) n.push_back(t.back());
            t.swap(n);
        }
        r = t.empty() ? num(0, w) : t[0];
        break;
    }
    default: {
        Z3_ast a = tr(e->a), b = tr(e->b);
        bool bw = e->a->width == 1;
        switch (e->kind) {
        case E_EQ: r = Z3_mk_eq(ctx, a, b); break;
        case E_AND: if (bw) { Z3_ast x[2] = {a, b}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, a, b); break;
        case E_OR: if (bw) { Z3_ast x[2] = {a, b}; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, a, b); break;
        case E_XOR: if (bw) { if (isC(e->b, 1)) r = Z3_mk_not(ctx, a); else r = Z3_mk_xor(ctx, a, b); } else r = Z3_mk_bvxor(ctx, a, b); break;
        case E_ULT: r = Z3_mk_bvult(ctx, a, b); break;
        case E_ULE: r = Z3_mk_bvule(ctx, a, b); break;
        case E_SLT: r = Z3_mk_bvslt(ctx, bvOf(e->a), bvOf(e->b)); break;
        case E_SLE: r = Z3_mk_bvsle(ctx, bvOf(e->a), bvOf(e->b)); break;
        default:
            a = bvOf(e->a); b = bvOf(e->b);
            switch (e->kind) {
            case E_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
            case E_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
            case E_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
            case E_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
            case E_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
            case E_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
            case E_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
            case E_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
            case E_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
            case E_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
            default: abort();
            }
            if (w == 1) r = one(r);
        }
    }
    }
    Z3_inc_ref(ctx, r);
    e->z = r;
    return r;
}

u64 Solver::ev(Expr* e, const Model* m)
{
    if (e->kind == E_CONST) return e->c;
    if (e->evEpoch == evEpoch) return e->evVal;
    u64 r;
    switch (e->kind) {
    case E_SYM: r = m ? m->get(e->c) & maskw(e->width) : 0; break;
    case E_UNDEF: r = 0; break;
    case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
    case E_CONCAT: r = (ev(e->a, m) << e->b->width) | ev(e->b, m); break;
    case E_EXTRACT: r = (ev(e->a, m) >> e->c) & maskw(e->width); break;
    case E_ZEXT: r = ev(e->a, m); break;
    case E_SEXT: r = (u64) sextw(ev(e->a, m), e->a->width) & maskw(e->width); break;
    case E_POP: r = __builtin_popcountll(ev(e->a, m)); break;
    default: r = foldBin((EKind) e->kind, ev(e->a, m), ev(e->b, m), e->a->width);
    }
    e->evEpoch = evEpoch;
    e->evVal = r;
    return r;
}
u64 Solver::eval(Expr* e, const Model* m)
{
    static u64 last = 0;
    u64 id = m ? m->id : 0;
    if (id != last) { ++evEpoch; last = id; }
    return ev(e, m);
}

void Solver::setFact(Expr* e, u64 v)
{
    if (e->kind == E_CONST || e->hasFact) return;
    e->hasFact = 1;
    e->factVal = v & maskw(e->width);
    factTrail.push_back(e);
    ++subEpoch;
}
void Solver::addFacts(Expr* e, bool val)
{
    if (e->kind == E_CONST) return;
    setFact(e, val);
    if (isNot(e)) { addFacts(e->a, !val); return; }
    if (val && e->kind == E_AND && e->width == 1) { addFacts(e->a, true); addFacts(e->b, true); }
    else if (!val && e->kind == E_OR && e->width == 1) { addFacts(e->a, false); addFacts(e->b, false); }
    else if (e->kind == E_EQ && val) {
        if (isC(e->b)) setFact(e->a, e->b->c);
        else if (isC(e->a)) setFact(e->b, e->a->c);
        else { // two equal terms: the older one stands for both
            Expr *x = e->a, *y = e->b;
            if (x->id < y->id) std::swap(x, y);
            if (!x->hasFact && !x->undef && !y->undef) {
                x->hasFact = 2;
                x->factVal = (u64) y;
                factTrail.push_back(x);
                ++subEpoch;
            }
        }
    }
}
Expr* Solver::sub(Expr* e)
{
    if (e->kind == E_CONST) return e;
    if (e->hasFact == 1) return kE(e->factVal, e->width);
    if (e->hasFact == 2) return sub((Expr*) e->factVal);
    if (e->kind == E_SYM || e->kind == E_UNDEF) return e;
    if (e->subEpoch == subEpoch) return e->subRes;
    Expr* a = e->a ? sub(e->a) : nullptr;
    Expr* b = e->b ? sub(e->b) : nullptr;
    Expr* d = e->d ? sub(e->d) : nullptr;
    Expr* r = (a == e->a && b == e->b && d == e->d) ? e : rebuild(e, a, b, d);
    if (r != e && r->kind != E_CONST && r->hasFact == 1) r = kE(r->factVal, r->width);
    e->subEpoch = subEpoch;
    e->subRes = r;
    return r;
}
Expr* Solver::simp(Expr* e)
{
    return factTrail.empty() ? e : sub(e);
}

void Solver::sync(PC* pc)
{
    // common prefix
    size_t d = pc ? pc->depth : 0;
    size_t n = chain.size();
    size_t common = 0;
    {
        PC* p = pc;
        while (p && p->depth > n) p = p->parent;
        size_t k = p ? p->depth : 0;
        while (p && chain[p->depth - 1] != p) { p = p->parent; }
        k = p ? p->depth : 0;
        common = k;
    }
    if (n > common) {
        u32 mark = factMark[common];
        while (factTrail.size() > mark) { factTrail.back()->hasFact = 0; factTrail.pop_back(); }
        ++subEpoch;
        chain.resize(common);
        factMark.resize(common);
    }
    if (d > common) {
        chain.resize(d);
        PC* p = pc;
        for (size_t i = d; i > common; i--) { chain[i - 1] = p; p = p->parent; }
        for (size_t i = common; i < d; i++) {
            factMark.push_back(factTrail.size());
            addFacts(chain[i]->e, true);
        }
    }
}

// ------------------------------------------------------------- slicing
// Only the constraints that share symbols with the question matter, since
// the rest is known to be satisfiable; what remains is usually small and has
// been asked before, up to the names of its symbols.
std::vector<u32>* Solver::support(Expr* e)
{
    static std::vector<u32> none;
    if (e->sup) return e->sup;
    if (e->kind == E_CONST) return e->sup = &none;
    if (e->kind == E_SYM || e->kind == E_UNDEF) return e->sup = new std::vector<u32>{(u32) e->c * 2 + (e->kind == E_UNDEF)};
    std::vector<u32>* r = nullptr;
    std::vector<u32> u;
    for (Expr* x : {e->a, e->b, e->d}) if (x) {
        auto* s = support(x);
        if (s->empty()) continue;
        if (!r) r = s;
        else if (r != s) {
            u.clear();
            std::set_union(r->begin(), r->end(), s->begin(), s->end(), std::back_inserter(u));
            r = u.size() == r->size() ? r : u.size() == s->size() ? s : new std::vector<u32>(u);
        }
    }
    return e->sup = r ? r : &none;
}
void Solver::serial(Expr* e, std::string& k, std::vector<u32>& names)
{
    auto put = [&](u64 v, int n) { k.append((const char*) &v, n); };
    if (e->kind == E_CONST) { put(e->kind, 1); put(e->width, 1); put(e->c, 8); return; }
    if (e->serEpoch == serEpoch) { put(0xff, 1); put(e->serNo, 4); return; }
    e->serEpoch = serEpoch;
    if (e->kind == E_SYM || e->kind == E_UNDEF) {
        e->serNo = names.size() | 0x80000000u;
        names.push_back((u32) e->c * 2 + (e->kind == E_UNDEF));
        put(e->kind, 1); put(e->width, 1);
        return;
    }
    put(e->kind, 1); put(e->width, 1);
    if (e->kind == E_EXTRACT) put(e->c, 1);
    if (e->a) serial(e->a, k, names);
    if (e->b) serial(e->b, k, names);
    if (e->d) serial(e->d, k, names);
    e->serNo = (u32) k.size();
}

void Solver::readModel(Z3_solver sv, Model& out)
{
    Z3_model m = Z3_solver_get_model(ctx, sv);
    Z3_model_inc_ref(ctx, m);
    unsigned n = Z3_model_get_num_consts(ctx, m);
    for (unsigned i = 0; i < n; i++) {
        Z3_func_decl f = Z3_model_get_const_decl(ctx, m, i);
        Z3_symbol sy = Z3_get_decl_name(ctx, f);
        if (Z3_get_symbol_kind(ctx, sy) != Z3_STRING_SYMBOL) continue;
        const char* nm = Z3_get_symbol_string(ctx, sy);
        if (nm[0] != 's') continue;
        u32 idx = strtoul(nm + 1, nullptr, 10);
        Z3_ast v = Z3_model_get_const_interp(ctx, m, f);
        if (!v) continue;
        Z3_inc_ref(ctx, v);
        u64 val = 0;
        if (Z3_get_sort_kind(ctx, Z3_get_sort(ctx, v)) == Z3_BOOL_SORT)
            val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
        else {
            uint64_t x = 0;
            Z3_get_numeral_uint64(ctx, v, &x);
            val = x;
        }
        Z3_dec_ref(ctx, v);
        out.v[idx] = val;
    }
    Z3_model_dec_ref(ctx, m);
}

Res Solver::solve(const std::vector<Expr*>& cs, bool incremental, Expr* extra, const std::vector<PC*>& want, ModelP& out)
{
    Z3_solver s = incremental ? this->s : s1;
    unsigned pushed = 0;
    if (incremental) {
        size_t k = 0;
        while (k < asserted.size() && k < want.size() && asserted[k] == want[k]) k++;
        if (asserted.size() > k) {
            Z3_solver_pop(ctx, s, asserted.size() - k);
            asserted.resize(k);
        }
        for (; k < want.size(); k++) {
            Z3_solver_push(ctx, s);
            Z3_solver_assert(ctx, s, tr(want[k]->e));
            asserted.push_back(want[k]);
        }
        if (extra) { Z3_solver_push(ctx, s); pushed = 1; Z3_solver_assert(ctx, s, tr(extra)); }
    } else {
        Z3_solver_reset(ctx, s);
        for (Expr* e : cs) Z3_solver_assert(ctx, s, tr(e));
        if (extra) Z3_solver_assert(ctx, s, tr(extra));
    }
    Z3_lbool r = Z3_solver_check(ctx, s);
    st.queries++;
    Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (res == R_SAT) { st.sat++; readModel(s, *out); }
    else if (res == R_UNSAT) st.unsat++;
    else st.unknown++;
    if (pushed) Z3_solver_pop(ctx, s, 1);
    if (xdumpLeft > 0 && res != R_UNKNOWN && st.queries % 5 == 1) {
        xdumpLeft--;
        char fn[256];
        snprintf(fn, 256, "%s/q%d_%llu.smt2", xdumpDir.c_str(), (int) getpid(), (unsigned long long) st.queries);
        if (FILE* f = fopen(fn, "w")) {
            std::vector<Z3_ast> as;
            for (Expr* e : cs) as.push_back(tr(e));
            fprintf(f, "; expect %s\n%s", res == R_SAT ? "sat" : "unsat",
                    Z3_benchmark_to_smtlib_string(ctx, "symx", "QF_BV", "unknown", "", as.size(), as.data(), extra ? tr(extra) : Z3_mk_true(ctx)));
            fclose(f);
        }
    }
    return res;
}

Res Solver::check(PC* pc, Expr* extra, ModelP& out, const Model* base)
{
    if (extra && extra->kind == E_CONST && !extra->c) return R_UNSAT;
    sync(pc);
    double t0 = now();
    std::vector<PC*> want;
    for (PC* p : chain) if (!p->implied) want.push_back(p);
    std::vector<Expr*> cs;
    bool sliced = base && extra;
    if (sliced) {
        u32 ep = ++markEpoch;
        auto add = [&](Expr* e) {
            for (u32 x : *support(e)) {
                if (x >= mark.size()) mark.resize(x * 2 + 64, 0);
                mark[x] = ep;
            }
        };
        add(extra);
        std::vector<char> in(want.size(), 0);
        for (bool more = true; more;) {
            more = false;
            for (size_t i = 0; i < want.size(); i++) if (!in[i]) {
                auto* sp = support(want[i]->e);
                bool hit = false, all = true;
                for (u32 x : *sp) { if (x < mark.size() && mark[x] == ep) hit = true; else all = false; }
                if (!hit) continue;
                in[i] = 1;
                if (!all) { add(want[i]->e); more = true; }
            }
        }
        for (size_t i = 0; i < want.size(); i++) if (in[i]) cs.push_back(want[i]->e);
    } else for (PC* p : want) cs.push_back(p->e);
    std::string key;
    std::vector<u32> names;
    bool small = sliced && cs.size() <= 40;
    if (small) {
        ++serEpoch;
        for (Expr* e : cs) { serial(e, key, names); key.push_back(';'); if (key.size() > 6000) { small = false; break; } }
        if (small) serial(extra, key, names);
        if (key.size() > 8000) small = false;
    }
    if (small) {
        auto it = cache.find(key);
        if (it != cache.end()) {
            st.cached++;
            if (it->second.r == R_SAT) {
                out = std::make_shared<Model>(*base);
                for (auto& p : it->second.m) if (!(names[p.first] & 1)) out->v[names[p.first] / 2] = p.second;
            }
            st.time += now() - t0;
            return it->second.r;
        }
    }
    bool incremental = !sliced || (cs.size() == want.size() && cs.size() > 20);
    ModelP m = std::make_shared<Model>();
    Res res = solve(cs, incremental, extra, want, m);
    if (small && res != R_UNKNOWN && cache.size() < 300000) {
        Cached c;
        c.r = res;
        if (res == R_SAT) for (u32 i = 0; i < names.size(); i++) if (!(names[i] & 1)) c.m.push_back({i, m->get(names[i] / 2)});
        cache.emplace(std::move(key), std::move(c));
    }
    if (res == R_SAT) {
        if (sliced) {
            out = std::make_shared<Model>(*base);
            // symbols of the slice the solver left open may keep any value
            for (u32 x : *support(extra)) if (!(x & 1)) out->v[x / 2] = m->get(x / 2);
            for (Expr* e : cs) for (u32 x : *support(e)) if (!(x & 1)) out->v[x / 2] = m->get(x / 2);
        } else out = m;
    }
    st.time += now() - t0;
    return res;
}

std::string Solver::smt2(PC* pc, Expr* extra)
{
    std::vector<Z3_ast> as;
    for (PC* p = pc; p; p = p->parent) if (!p->implied) as.push_back(tr(p->e));
    Z3_ast f = extra ? tr(extra) : Z3_mk_true(ctx);
    std::string r = Z3_benchmark_to_smtlib_string(ctx, "symx", "QF_BV", "unknown", "", as.size(), as.data(), f);
    return r;
}
