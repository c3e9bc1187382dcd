// One operation during which the k-th allocation, element copy or callback
// throws, for every k.
#include "hist.hpp"
#include "deep.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#ifndef SXA
#define SXA 7
#endif
template <typename T>
struct throwing_updater
{
    uint64_t x;
    T operator()(const T& e) const { fault_point(); return T(upd(val(e), x)); }
};
#ifdef SXGC // garbage collection: nothing is released
#define CHECK_KEPT(what)
#else
#define CHECK_KEPT(what) \
    CHECKM(g_elems == elems, what " leaks or destroys elements"); \
    CHECKM(g_blocks == blocks, what " leaks or releases blocks");
#endif
static void arm()
{
    g_faults.n = 0;
    g_faults.fired = false;
    g_faults.at = sx_sym(16, "failing event");
    g_faults.armed = true;
}
static void disarm() { g_faults.armed = false; }
// update with a callback that throws
template <typename V>
V apply_f(const V& v, const step& s, const V* others)
{
    using T = typename V::value_type;
    if (s.op == UPDATE) return v.update(s.i, throwing_updater<T>{s.x});
    return apply(v, s, others);
}
template <typename V>
static void lvalue(unsigned kinds, uint64_t a, bool narrow)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m, mo[2];
        auto v = shape<V>(m, a, kinds, narrow);
        V others[2];
        if (flex) { others[0] = build_t<V>(LEAF, mo[0]); others[1] = build_t<V>(2 * LEAF + 1, mo[1]); }
        auto s = choose_step(m.size(), flex, narrow, 2);
        model me = m;
        apply(me, s, mo);
        bool threw = false;
        auto elems = g_elems, blocks = g_blocks;
        arm();
        try {
            auto w = apply_f(v, s, others);
            disarm();
            same_iter(w, me);
            sx_reach("operation succeeds");
        } catch (const fault&) { threw = true; sx_reach("element copy or callback throws");
        } catch (const std::bad_alloc&) { threw = true; sx_reach("allocation throws"); }
        disarm();
        CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
        CHECK_KEPT("a failed operation");
        same(v, m);
        if (flex) for (int i = 0; i < 2; i++) same_iter(others[i], mo[i]);
        // still usable
        auto w = apply(v, s, others);
        same_iter(w, me);
        out_all(w);
    }
    check_no_leaks();
}
template <typename V>
static void mutating(unsigned kinds, uint64_t a, bool narrow)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m, mo[2];
        auto v = shape<V>(m, a, kinds, narrow);
        V others[2];
        if (flex) { others[0] = build_t<V>(LEAF, mo[0]); others[1] = build_t<V>(2 * LEAF + 1, mo[1]); }
        bool tr = sx_choose("transient", 0, 1);
        auto s = choose_step(m.size(), flex, narrow, 2, tr ? (flex ? (unsigned) TR_FLEX : (unsigned) TR_VEC) : ~0u);
        bool cat = s.op == CATR || s.op == CATL;
        int how = (int) sx_choose("how", 0, cat ? (tr ? 1 : 2) : 0);
        // 2: a new root over children and size tables that others share
        auto shared = sx_choose("shared", 0, m.size() ? 2 : 1);
        bool threw = false;
        model me = m;
        if (shared == 2) me.set(0, 77);
        apply(me, s, mo);
        {
            V w(shared == 2 ? v.set(0, typename V::value_type(77)) : shared ? V(v) : std::move(v));
            if (!shared) v = V{}, m = model{};
            V o[2] = {others[0], others[1]};
            auto t = V{}.transient(), u = V{}.transient();
            if (tr) { t = std::move(w).transient(); if (flex) u = o[s.o].transient(); }
            arm();
            try {
                if (tr) {
                    apply_tr<V>(t, s, &u, how == 1);
                    disarm();
                    same_iter(t, me);
                } else {
                    auto r = apply_move(std::move(w), s, o, how);
                    disarm();
                    same_iter(r, me);
                }
                sx_reach("mutation succeeds");
            } catch (const fault&) { threw = true; sx_reach("mutation: element copy throws");
            } catch (const std::bad_alloc&) { threw = true; sx_reach("mutation: allocation throws"); }
            disarm();
            CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
        }
        same(v, m);
        if (flex) for (int i = 0; i < 2; i++) same_iter(others[i], mo[i]);
        out_all(v);
    }
    check_no_leaks();
}
template <typename V>
static void construct(uint64_t a)
{
    warm<V>();
    {
        using T = typename V::value_type;
        auto n = sx_choose("n", 0, a);
        std::vector<T> src;
        for (uint64_t i = 0; i < n; i++) src.push_back(T(fresh()));
        auto elems = g_elems, blocks = g_blocks;
        auto how = sx_choose("constructor", 0, 2);
        bool threw = false;
        arm();
        try {
            if (how == 0) { V v(src.begin(), src.end()); disarm(); CHECK(v.size() == n); }
            else if (how == 1) { V v(n, T(7)); disarm(); CHECK(v.size() == n); }
            else { V v{T(1), T(2), T(3), T(4), T(5), T(6), T(7)}; disarm(); CHECK(v.size() == 7); }
        } catch (const fault&) { threw = true;
        } catch (const std::bad_alloc&) { threw = true; }
        disarm();
        CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
        CHECK_KEPT("a failed construction");
    }
    check_no_leaks();
}
#ifdef SXARRAY
using ARR = immer::array<SXT, SXMEM>;
extern "C" void h_array_lvalue() { lvalue<ARR>(S_REG | S_TAKE, 6, false); }
extern "C" void h_array_mutating() { mutating<ARR>(S_REG | S_TAKE, 6, false); }
extern "C" void h_array_construct() { construct<ARR>(9); }
#else
extern "C" void h_vector_lvalue() { lvalue<VEC>(S_REG | S_TAKE, SXVN, false); }
extern "C" void h_vector_mutating() { mutating<VEC>(S_REG | S_TAKE, SXVN, false); }
extern "C" void h_vector_construct() { construct<VEC>(SXVN); }
#ifndef SXNOFLEX
extern "C" void h_flex_lvalue() { lvalue<FLEX>(S_REG | S_DROP | S_CAT, SXA, true); }
extern "C" void h_flex_mutating() { mutating<FLEX>(S_REG | S_DROP | S_CAT, SXA, true); }
extern "C" void h_flex_construct() { construct<FLEX>(SXA); }
// concatenation and slicing of deep trees
extern "C" void h_flex_deep()
{
    using V = FLEX;
    warm<V>();
    {
        static const uint64_t len[] = {1, LEAF * 2 + 1, LEAF * BRANCH + 1, LEAF * BRANCH * 2 + LEAF, LEAF * BRANCH * BRANCH + LEAF + 1};
        model ml, mr;
        auto a = len[sx_choose("a", 0, 4)], b = len[sx_choose("b", 0, 4)];
        auto l = build_t<V>(a, ml), r = build_t<V>(b, mr);
        if (sx_choose("relaxed", 0, 1)) {
            model mx = ml;
            l = l.drop(1) + l;
            ml.drop(1);
            ml.append(mx);
        }
        auto how = sx_choose("how", 0, 9);
        bool derived = sx_choose("derived", 0, 1);
        auto l0 = l, r0 = r;
        auto ml0 = ml, mr0 = mr;
        if (derived) {
            l = l.set(ml.size() - 1, 5);
            r = r.set(0, 6);
            ml.set(ml.size() - 1, 5);
            mr.set(0, 6);
        } else l0 = FLEX{}, r0 = FLEX{}, ml0 = mr0 = model{};
        model me = ml;
        if (how <= 5) me.append(mr); else if (how == 6 || how == 8) me.drop(ml.size() / 3 + 1); else me.take(ml.size() * 2 / 3);
        bool threw = false, lgone = false, rgone = false;
        auto elems = g_elems, blocks = g_blocks;
        arm();
        try {
            V w;
            switch (how) {
            case 0: w = l + r; break;
            case 1: lgone = true; w = std::move(l) + r; break;
            case 2: rgone = true; w = l + std::move(r); break;
            case 3: lgone = rgone = true; w = std::move(l) + std::move(r); break;
            case 4: { auto t = l.transient(), u = r.transient(); t.append(std::move(u)); w = std::move(t).persistent(); break; }
            case 5: { auto t = r.transient(), u = l.transient(); t.prepend(std::move(u)); w = std::move(t).persistent(); break; }
            case 6: w = l.drop(ml.size() / 3 + 1); break;
            case 7: w = l.take(ml.size() * 2 / 3); break;
            case 8: lgone = true; w = std::move(l).drop(ml.size() / 3 + 1); break;
            case 9: lgone = true; w = std::move(l).take(ml.size() * 2 / 3); break;
            }
            disarm();
            same_iter(w, me);
        } catch (const fault&) { threw = true; sx_reach("deep: element copy throws");
        } catch (const std::bad_alloc&) { threw = true; sx_reach("deep: allocation throws"); }
        disarm();
        CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
        if (!lgone && !rgone) {
            CHECK_KEPT("a failed operation");
        }
        if (!lgone) same_iter(l, ml);
        if (!rgone) same_iter(r, mr);
        same_iter(l0, ml0);
        same_iter(r0, mr0);
        out_all(r0);
    }
    check_no_leaks();
}
// appending to and prepending to transients that own underfull nodes
extern "C" void h_flex_join()
{
    warm<FLEX>();
    {
        static const uint64_t nl[] = {3, 5, 9}, nr[] = {1, 6, 9}, dr[] = {0, 2};
        model ml, mr, ka, kb;
        FLEX a, b;
        bool own = sx_choose("own", 0, 1);
        auto n = nl[sx_choose("n", 0, 2)];
        auto t = half(ml, a, ka, n, sx_choose("d", 0, 2), 0, own);
        n = nr[sx_choose("n", 0, 2)];
        auto d = dr[sx_choose("d", 0, 1)];
        auto u = half(mr, b, kb, n, d, sx_choose("front", 0, 1) * 2, own);
        bool prepend = sx_choose("prepend", 0, 1), consume = sx_choose("consume", 0, 1);
        model me = prepend ? mr : ml;
        me.append(prepend ? ml : mr);
        bool threw = false;
        arm();
        try {
            if (prepend) { if (consume) t.prepend(std::move(u)); else t.prepend(u); }
            else { if (consume) t.append(std::move(u)); else t.append(u); }
            disarm();
            same_iter(t, me);
            sx_reach("join succeeds");
        } catch (const fault&) { threw = true; sx_reach("join: element copy throws");
        } catch (const std::bad_alloc&) { threw = true; sx_reach("join: allocation throws"); }
        disarm();
        CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
        same_iter(a, ka);
        same_iter(b, kb);
        out_all(a);
    }
    check_no_leaks();
}
#endif
#endif
