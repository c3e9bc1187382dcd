// Threads that own values with shared parts: each sees its value as if the
// others did not exist, whatever they do to theirs, and everything is released
// once.
#ifdef SXHASHONLY
#include "hashc.hpp"
#else
#include "seq.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#endif
#ifndef SXTN
#define SXTN 2 // threads
#endif
#ifndef SXK
#define SXK 1 // operations of each
#endif
#ifndef SXACTS
#define SXACTS 63u
#endif
enum { READ, LVALUE, RVALUE, TRANS, TRANS_MOVE, COPY_SHARED, ACTS };
#ifndef SXHASHONLY
#ifndef SXSIZES
#define SXSIZES {3, 7, 11}
#endif
static const uint64_t sizes[] = SXSIZES;
template <typename V> struct ops_of
{
    static constexpr bool flex = is_flex<V>::value;
    using M = model;
    using S = step;
    struct env {};
    static void warm_all() { warm<V, typename V::transient_type>(); }
    static V start(env&, M& m)
    {
        auto n = sizes[sx_choose("n", 0, sizeof sizes / sizeof *sizes - 1)];
        if (!flex) return build_t<V>(n, m);
        return relaxed(n, m);
    }
    template <typename X = V> static std::enable_if_t<!is_flex<X>::value, V> relaxed(uint64_t n, M& m) { return build_t<V>(n, m); }
    template <typename X = V> static std::enable_if_t<is_flex<X>::value, V> relaxed(uint64_t n, M& m)
    {
        model r;
        auto a = build_t<V>(n / 2 + 1, m);
        auto b = build_t<V>(n, r);
        m.append(r);
        if (sx_choose("drop", 0, 1)) { m.drop(1); return (a + b).drop(1); }
        return a + b;
    }
    static S pick(env&, const M& m, int act)
    {
        unsigned mask = act == TRANS || act == TRANS_MOVE ? (flex ? TR_FLEX & ~(1u << CATL | 1u << CATR) : TR_VEC)
                                                         : 1u << PUSH | 1u << ASSIGN | 1u << TAKE | (flex ? 1u << DROP | 1u << CATR | 1u << CATL : 0);
        if (SXTN > 2) mask &= 1u << PUSH | 1u << ASSIGN | 1u << TAKE | 1u << DROP;
        mask &= ~(1u << UPDATE);
        return choose_step(m.size(), flex, 2, 1, mask);
    }
    static void model_of(M& m, const S& s, const M& other) { apply(m, s, &other); }
    static void lvalue(const env&, V& r, const V& v, const S& s, const V& other) { r = apply(v, s, &other); }
    static void rvalue(const env&, V& v, const S& s, V& other) { v = apply_move(std::move(v), s, &other, 0); }
    static void trans(const env&, V& v, const S& s, bool move)
    {
        auto t = move ? std::move(v).transient() : v.transient();
        apply_tr<V>(t, s, (typename V::transient_type*) nullptr, false);
        v = std::move(t).persistent();
    }
    static void check(const env&, const V& v, const M& m) { same_iter(v, m); }
    static void out(const env&, const M& m) { for (auto x : m.d) sx_out(x); }
};
#else
template <typename V> struct ops_of
{
    using M = amodel;
    using S = hstep;
    using env = pool;
    static void warm_all() { hwarm<V>(); warm<V, typename V::transient_type>(); }
    static V start(env& p, M& m)
    {
        auto n = (unsigned) sx_choose("n", 1, SXP);
        p.used = n;
        return hbuild<V>(p, m, n);
    }
    static S pick(env& p, const M&, int) { return hchoose<V>(p, 1u << UPD | 1u << DEL | 1u << PUT); }
    static void model_of(M& m, const S& s, const M&) { happly<V>(m, s); }
    static void lvalue(const env& p, V& r, const V& v, const S& s, const V&) { r = happly<V, const V&>(v, p, s); }
    static void rvalue(const env& p, V& v, const S& s, V&) { v = happly<V, V&&>(std::move(v), p, s); }
    static void trans(const env& p, V& v, const S& s, bool move)
    {
        auto t = move ? std::move(v).transient() : v.transient();
        happly_tr<V>(t, p, s);
        v = std::move(t).persistent();
    }
    static void check(const env& p, const V& v, const M& m) { hiterate<V>(v, m, p); }
    static void out(const env&, const M& m) { for (auto& x : m.e) sx_out(x.v); }
};
#endif
template <typename V>
struct thread_t
{
    using O = ops_of<V>;
    typename O::env* env;
    const V* shared;
    const typename O::M* sharedm;
    V* v;
    typename O::M m0;
    int act[SXK];
    typename O::S s[SXK];
    typename O::M m[SXK]; // afterwards
};
template <typename V>
static void body(void* p)
{
    using O = ops_of<V>;
    auto& t = *(thread_t<V>*) p;
    for (int k = 0; k < SXK; k++) {
        auto& before = k ? t.m[k - 1] : t.m0;
        switch (t.act[k]) {
        case READ: break;
        case LVALUE: {
            V r;
            V o = *t.v;
            O::lvalue(*t.env, r, *t.v, t.s[k], o);
            O::check(*t.env, *t.v, before);
            *t.v = std::move(r);
            break;
        }
        case RVALUE: {
            if (t.shared) {
                V o = *t.shared;
                O::rvalue(*t.env, *t.v, t.s[k], o);
            } else O::rvalue(*t.env, *t.v, t.s[k], *t.v);
            break;
        }
        case TRANS: O::trans(*t.env, *t.v, t.s[k], false); break;
        case TRANS_MOVE: O::trans(*t.env, *t.v, t.s[k], true); break;
        case COPY_SHARED: if (t.shared) *t.v = *t.shared; break;
        }
        O::check(*t.env, *t.v, t.m[k]);
    }
    delete t.v;
}
#ifdef SXHASHONLY
static bool binary(const hstep&) { return false; }
#else
static bool binary(const step& s) { return s.op == CATR || s.op == CATL; }
#endif
template <typename V>
static void run()
{
    using O = ops_of<V>;
    O::warm_all();
    {
#ifdef SXHASHONLY
        typename O::env env{SXHOW};
#else
        typename O::env env{};
#endif
        typename O::M m0;
        V* v0 = new V(O::start(env, m0));
        auto* t = new thread_t<V>[SXTN];
        // does the first owner keep its value until the end?
        bool kept = sx_choose("kept", 0, 1), derived = false;
        for (int i = 0; i < SXTN; i++) {
            t[i].env = &env;
            t[i].shared = kept ? v0 : nullptr;
            t[i].sharedm = &m0;
            t[i].m0 = m0;
            t[i].v = new V(*v0);
            // the last one owns a value of its own that shares parts
            if (i == SXTN - 1 && sx_choose("derived", 0, 1)) {
                derived = true;
                auto s = O::pick(env, m0, LVALUE);
                if (binary(s)) sx_end();
                O::lvalue(env, *t[i].v, *v0, s, *v0);
                O::model_of(t[i].m0, s, m0);
            }
            int acts[ACTS], n = 0;
            for (int a = 0; a < ACTS; a++) if ((SXACTS >> a & 1) && (a != COPY_SHARED || kept)) acts[n++] = a;
            for (int k = 0; k < SXK; k++) {
                t[i].m[k] = k ? t[i].m[k - 1] : t[i].m0;
                auto a = t[i].act[k] = acts[sx_choose("act", 0, n - 1)];
                if (k == 0 && i && (i < SXTN - 1 || !derived) && a < t[i - 1].act[0]) sx_end(); // the same with the threads in another order
                if (a == READ) continue;
                if (a == COPY_SHARED) { t[i].m[k] = m0; continue; }
                auto s = t[i].s[k] = O::pick(env, t[i].m[k], a);
                if (a == RVALUE && binary(s) && !kept) sx_end();
                auto other = a == RVALUE ? m0 : t[i].m[k];
                O::model_of(t[i].m[k], s, other);
            }
        }
        if (!kept) delete v0;
        int id[SXTN];
        for (int i = 0; i < SXTN; i++) id[i] = sx_spawn(body<V>, &t[i]);
        if (kept && sx_choose("main", 0, 1)) O::check(env, *v0, m0);
        for (int i = 0; i < SXTN; i++) sx_join(id[i]);
        if (kept) {
            O::check(env, *v0, m0);
            delete v0;
        }
        for (int i = 0; i < SXTN; i++) O::out(env, t[i].m[SXK - 1]);
        delete[] t;
    }
    check_no_leaks();
}
#ifdef SXHASHONLY
extern "C" void h_map() { run<MAP>(); }
extern "C" void h_set() { run<SET>(); }
extern "C" void h_table() { run<TABLE>(); }
#elif defined SXARRAY
extern "C" void h_array() { run<immer::array<SXT, SXMEM>>(); }
using BOX = immer::box<SXT, SXMEM>;
struct bt
{
    BOX* b;
    uint64_t x, before;
    int act;
};
static void bbody(void* p)
{
    auto& t = *(bt*) p;
    auto f = [&](const SXT& v) { return SXT(val(v) + t.x); };
    switch (t.act) {
    case 0: sx_check(val(t.b->get()) == t.before, "a box changed"); break;
    case 1: { auto r = t.b->update(f); sx_check(val(r.get()) == t.before + t.x, "update of a box is wrong"); sx_check(val(t.b->get()) == t.before, "a box changed"); break; }
    case 2: { auto r = std::move(*t.b).update(f); sx_check(val(r.get()) == t.before + t.x, "update of a r-value box is wrong"); break; }
    case 3: *t.b = BOX{SXT(t.x)}; sx_check(val(t.b->get()) == t.x, "assignment of a box is lost"); break;
    case 4: { BOX c = *t.b; *t.b = BOX{SXT(t.x)}; sx_check(val(c.get()) == t.before, "a copied box changed"); break; }
    }
    delete t.b;
}
extern "C" void h_box()
{
    warm<BOX>();
    {
        auto x = fresh();
        BOX b{SXT(x)};
        bt t[SXTN];
        int id[SXTN];
        bool kept = sx_choose("kept", 0, 1);
        for (int i = 0; i < SXTN; i++) {
            t[i].b = new BOX(b);
            t[i].x = fresh();
            t[i].before = x;
            t[i].act = (int) sx_choose("act", 0, 4);
        }
        if (!kept) b = BOX{};
        for (int i = 0; i < SXTN; i++) id[i] = sx_spawn(bbody, &t[i]);
        for (int i = 0; i < SXTN; i++) sx_join(id[i]);
        if (kept) sx_check(val(b.get()) == x, "a box changed");
        sx_out(x);
    }
    check_no_leaks();
}
#else
extern "C" void h_vector() { run<VEC>(); }
extern "C" void h_flex() { run<FLEX>(); }
#endif
