#include "hist.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#ifndef SXK
#define SXK 3
#endif
#ifndef SXA
#define SXA 7
#endif
// a transient of any value, used for K operations with persistent() between
template <typename V>
static void tr(unsigned kinds, uint64_t a, int K)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m0, mo[2];
        auto v = shape<V>(m0, a, kinds, true);
        auto m = m0;
        V others[2];
        if (flex) { others[0] = build_t<V>(LEAF, mo[0]); others[1] = build_t<V>(2 * LEAF + 1, mo[1]); }
        auto t = sx_choose("consume", 0, 1) ? V(v).transient() : v.transient();
        V mid;
        model mm;
        auto at = sx_choose("persist after", 0, K);
        for (int k = 0; k < K; k++) {
            if (k == (int) at) { mid = t.persistent(); mm = m; }
            auto s = choose_step(m.size(), flex, true, 2, flex ? TR_FLEX : TR_VEC);
            auto o = flex ? others[s.o].transient() : V{}.transient();
            apply_tr<V>(t, s, &o, (k & 1) != 0);
            apply(m, s, mo);
            if (k + 1 < K) CHECK(t.size() == m.size());
        }
        same_index(t, m), same_iter(t, m);
        auto p = t.persistent();
        auto x = fresh();
        t.push_back(typename V::value_type(x));
        same_iter(p, m);
        m.push_back(x);
        same_index(t, m), same_iter(t, m);
        same_iter(v, m0);
        same_iter(mid, mm);
        if (flex) for (int i = 0; i < 2; i++) same_iter(others[i], mo[i]);
        out_all(t);
    }
    check_no_leaks();
}
// one operation on a long uniquely owned sequence: every position
template <typename V>
static void one(uint64_t a, unsigned kinds)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m, mo[2];
        auto v = shape<V>(m, a, kinds, false);
        V others[2];
        if (flex) { others[0] = build_t<V>(1, mo[0]); others[1] = build_t<V>(2 * LEAF + 1, mo[1]); }
        auto s = choose_step(m.size(), flex, false, 2);
        bool tr = (s.op == PUSH || s.op == ASSIGN || s.op == UPDATE || s.op == TAKE || s.op == DROP || s.op == CATR || s.op == CATL) && sx_choose("transient", 0, 1);
        if (tr) {
            auto t = std::move(v).transient();
            auto o = flex ? others[s.o].transient() : V{}.transient();
            apply_tr<V>(t, s, &o, sx_choose("consume", 0, s.op == CATR || s.op == CATL));
            apply(m, s, mo);
            same_index(t, m), same_iter(t, m);
            v = std::move(t).persistent();
        } else {
            bool cat = s.op == CATR || s.op == CATL || s.op == CATSELF, ins = s.op == INSV;
            auto how = sx_choose("how", 0, cat || ins ? 2 : 0);
            V o[2] = {others[0], others[1]};
            if (sx_choose("unique other", 0, cat || ins)) others[0] = others[1] = V{}, mo[0] = mo[0], mo[1] = mo[1];
            v = apply_move(std::move(v), s, o, (int) how);
            apply(m, s, mo);
        }
        same(v, m);
        auto x = fresh();
        v = std::move(v).push_back(typename V::value_type(x));
        m.push_back(x);
        same_iter(v, m);
        out_all(v);
    }
    check_no_leaks();
}
// chains of r-value operations on a value nobody else holds
template <typename V>
static void chain(uint64_t a, unsigned kinds, int K)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m, mo[2], keepm;
        auto v = shape<V>(m, a, kinds, true);
        V others[2], keep;
        if (flex) { others[0] = build_t<V>(LEAF, mo[0]); others[1] = build_t<V>(2 * LEAF + 1, mo[1]); }
        auto share = sx_choose("share at", 0, K);
        for (int k = 0; k < K; k++) {
            if (k == (int) share) { keep = v; keepm = m; }
            auto s = choose_step(m.size(), flex, true, 2);
            V o[2] = {others[0], others[1]};
            v = apply_move(std::move(v), s, o, (k & 1) * 2);
            apply(m, s, mo);
        }
        same(v, m);
        same_iter(keep, keepm);
        if (flex) for (int i = 0; i < 2; i++) same_iter(others[i], mo[i]);
        out_all(v);
    }
    check_no_leaks();
}
#ifdef SXARRAY
using ARR = immer::array<SXT, SXMEM>;
extern "C" void h_array_tr() { tr<ARR>(S_REG | S_TAKE, 4, 3); }
extern "C" void h_array_chain() { chain<ARR>(4, S_REG | S_TAKE, 3); }
extern "C" void h_array_one() { one<ARR>(12, S_REG | S_TAKE); }
#else
extern "C" void h_vector_tr() { tr<VEC>(S_REG | S_TAKE, SXA, SXK); }
extern "C" void h_vector_one() { one<VEC>(SXVN, S_REG); }
extern "C" void h_vector_chain() { chain<VEC>(SXA, S_REG | S_TAKE, SXK); }
#ifndef SXNOFLEX
extern "C" void h_flex_tr() { tr<FLEX>(S_REG | S_DROP | S_CAT, SXA, SXK - 1); }
extern "C" void h_flex_one() { one<FLEX>(SXA + 1, S_REG | S_DROP | S_CAT); }
extern "C" void h_flex_chain() { chain<FLEX>(SXA - 1, S_REG | S_DROP | S_CAT, SXK - 1); }
#endif
#endif
