// Life cycle of elements and blocks: values are derived from one another and
// then dropped in an arbitrary order; survivors stay intact.
#include "hist.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#ifndef SXK
#define SXK 2
#endif
#ifndef SXKF
#define SXKF 1
#endif
#ifndef SXFULL
#define SXFULL 0
#endif
#ifndef SXA
#define SXA 3
#endif
#ifndef SXAF
#define SXAF 7
#endif
#ifndef SXL
#define SXL 14
#endif
template <typename V>
static void drop_in_any_order(history<V>& h)
{
    while (h.n) {
        auto k = h.n > 1 ? sx_choose("dropped", 0, h.n - 1) : 0;
        --h.n;
        if (k != h.n) {
            h.v[k] = std::move(h.v[h.n]); // the old value goes away
            h.m[k] = h.m[h.n];
        }
        h.v[h.n] = V{};
        h.check_all();
    }
}
template <typename V>
static void run(unsigned kinds, int K, uint64_t a)
{
    warm<V>();
    {
        history<V> h;
        h.start(a, kinds);
        for (int k = 0; k < K; k++) h.derive(k > 0 && !SXFULL);
        out_all(h.v[h.n - 1]);
        drop_in_any_order(h);
    }
    check_no_leaks();
}
// one value of any length, alone: everything goes back
template <typename V>
static void alone(uint64_t n1, unsigned kinds)
{
    warm<V>();
    {
        model m;
        auto b0 = g_blocks;
        {
            auto v = shape<V>(m, n1, kinds);
            same_iter(v, m);
            out_all(v);
            CHECKM((uint64_t) (g_elems - g_elems0) >= m.size(), "fewer live elements than the container holds");
        }
        CHECKM(g_blocks == b0, "a block outlives the only value that used it");
        CHECKM(g_elems == g_elems0, "an element outlives the only value that used it");
    }
    check_no_leaks();
}
// a value and one derived from it, dropped in either order
template <typename V>
static void pair(uint64_t a, unsigned kinds)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m, mo[2];
        auto* v = new V(shape<V>(m, a, kinds));
        V others[2];
        if (flex) { others[0] = build_t<V>(1, mo[0]); others[1] = build_t<V>(2 * LEAF + 1, mo[1]); }
        auto m1 = m;
        auto s = choose_step(m.size(), flex, false, 2);
        auto how = sx_choose("kind", 0, 3);
        V* w;
        if (how == 0) w = new V(apply(*v, s, others));
        else if (how == 1) w = new V(apply_move(std::move(*v), s, others, 0)), m = model{}, *v = V{};
        else if (how == 2) w = new V(apply_move(V(*v), s, others, (s.op == CATR || s.op == CATL || s.op == CATSELF) ? 2 : 0)), others[0] = others[1] = V{};
        else {
            auto t = v->transient();
            unsigned mask = flex ? TR_FLEX : TR_VEC;
            if (!(mask >> s.op & 1)) s.op = TAKE, s.i = m.size() / 2;
            auto o = flex ? others[s.o].transient() : V{}.transient();
            apply_tr<V>(t, s, &o, true);
            w = new V(sx_choose("move", 0, 1) ? std::move(t).persistent() : t.persistent());
        }
        apply(m1, s, mo);
        if (sx_choose("order", 0, 1)) { delete v; same_iter(*w, m1); out_all(*w); delete w; }
        else { out_all(*w); delete w; same_iter(*v, m); delete v; }
    }
    check_no_leaks();
}
#ifdef SXARRAY
using ARR = immer::array<SXT, SXMEM>;
extern "C" void h_array()
{
    warm<ARR>();
    {
        history<ARR> h;
        h.v[0] = build_t<ARR>(sx_choose("n", 0, 4), h.m[0]);
        h.n = 1;
        for (int k = 0; k < SXK; k++) h.derive(k > 0 && !SXFULL);
        drop_in_any_order(h);
    }
    check_no_leaks();
}
extern "C" void h_array_pair() { pair<ARR>(5, S_REG | S_TAKE); }
extern "C" void h_array_alone() { alone<ARR>(17, S_REG | S_TAKE); }
#else
extern "C" void h_vector() { run<VEC>(S_REG | S_TAKE, SXK, SXA); }
extern "C" void h_vector_long() { run<VEC>(S_REG | S_TAKE, 1, SXL); }
extern "C" void h_vector_alone() { alone<VEC>(SXVN, S_REG | S_TAKE); }
extern "C" void h_vector_pair() { pair<VEC>(SXVN / 2, S_REG); }
#ifndef SXNOFLEX
extern "C" void h_flex_alone() { alone<FLEX>(SXVN / 2, S_DROP | S_CAT | S_CATDROP); }
extern "C" void h_flex_pair() { pair<FLEX>(SXAF, S_REG | S_DROP | S_CAT); }
extern "C" void h_flex() { run<FLEX>(S_REG | S_CAT | S_DROP, SXKF, SXAF); }
#endif
#endif
