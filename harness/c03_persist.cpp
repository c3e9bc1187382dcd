#include "hist.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#ifndef SXK
#define SXK 2
#endif
#ifndef SXFULL
#define SXFULL 0
#endif
#ifndef SXA
#define SXA 5
#endif
#ifndef SXL
#define SXL 16
#endif
#ifndef SXLF
#define SXLF 8
#endif
template <typename V>
static void run(unsigned kinds, int K, uint64_t a)
{
    warm<V>();
    {
        history<V> h;
        h.start(a, kinds);
        // references and iterators into the first value stay good
        auto keep = h.v[0];
        auto km = h.m[0];
        auto b = keep.begin(), e = keep.end();
        for (int k = 0; k < K; k++) h.derive(k > 0 && !SXFULL);
        h.check_all();
        uint64_t i = 0;
        for (auto it = b; it != e; ++it, ++i) CHECKM(val(*it) == km[i], "an iterator into an old value changed");
        CHECK(i == km.size());
        same_index(keep, km);
        out_all(h.v[h.n - 1]);
    }
    check_no_leaks();
}
extern "C" void h_vector() { run<VEC>(S_REG | S_TAKE, SXK, SXA); }
extern "C" void h_vector_long() { run<VEC>(S_REG | S_TAKE, 1, SXL); }
#ifndef SXNOFLEX
extern "C" void h_flex_long() { run<FLEX>(S_ALL, 1, SXLF); }
extern "C" void h_flex_regular() { run<FLEX>(S_REG, SXK, SXA); }
extern "C" void h_flex_relaxed() { run<FLEX>(S_DROP | S_CAT, SXK, SXA); }
#endif
#ifdef SXARRAY
using ARR = immer::array<SXT, sx_memory>;
extern "C" void h_array()
{
    warm<ARR>();
    {
        history<ARR> h;
        auto n = sx_choose("n", 0, 5);
        h.v[0] = build_t<ARR>(n, h.m[0]);
        h.n = 1;
        for (int k = 0; k < SXK; k++) { h.derive(k > 0 && !SXFULL); }
        h.check_all();
        out_all(h.v[h.n - 1]);
    }
    check_no_leaks();
}
#endif
