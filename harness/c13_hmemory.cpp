// Life cycle of keys, values and blocks of hash containers.
#include "hhist.hpp"
#ifndef SXFAT
#define SXFAT 1 // steps that may be any operation in any way
#endif
template <typename C>
static void drop_in_any_order(hhistory<C>& h)
{
    while (h.n) {
        auto k = h.n > 1 ? sx_choose("dropped", 0, h.n - 1) : 0;
        --h.n;
        if (k != h.n) {
            h.v[k] = std::move(h.v[h.n]);
            h.m[k] = h.m[h.n];
        }
        h.v[h.n] = C{};
        h.check_iter();
    }
}
template <typename C>
static void run(int K, unsigned start)
{
    hwarm<C>();
    {
        hhistory<C> h(SXHOW);
        h.start(start);
        for (int k = 0; k < K; k++) h.derive(k >= SXFAT);
        hout(h.v[h.n - 1], h.p);
        drop_in_any_order(h);
    }
    check_no_leaks();
}
// all keys inserted and erased again in some order, persistently or not
template <typename C>
static void alone()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        auto e0 = g_elems, b0 = g_blocks;
        {
            amodel m;
            auto n = sx_choose("n", 1, SXP);
            C c = hbuild<C>(p, m, n);
            p.used = n;
            CHECKM((uint64_t) (g_elems - e0) >= n, "fewer live elements than the container holds");
            bool mut = sx_choose("r-value", 0, 1);
            auto from = sx_choose("first erased", 0, n - 1);
            for (unsigned i = 0; i + 1 < n; i++) {
                auto k = (from + i) % n;
                m.e[k] = kv{};
                c = mut ? std::move(c).erase(p[k]) : c.erase(p[k]);
                hiterate<C>(c, m, p);
            }
            hout(c, p);
        }
        CHECKM(g_blocks == b0, "a block outlives the only value that used it");
        CHECKM(g_elems == e0, "an element outlives the only value that used it");
    }
    check_no_leaks();
}
extern "C" void h_map() { run<MAP>(SXK, SXSTART); }
extern "C" void h_set() { run<SET>(SXK, SXSTART); }
extern "C" void h_table() { run<TABLE>(SXK, SXSTART); }
extern "C" void h_map_alone() { alone<MAP>(); }
extern "C" void h_set_alone() { alone<SET>(); }
extern "C" void h_table_alone() { alone<TABLE>(); }
