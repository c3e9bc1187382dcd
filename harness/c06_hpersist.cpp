#include "hhist.hpp"
#ifndef SXFAT
#define SXFAT 1 // steps that may be any operation in any way
#endif
template <typename C>
static void run(int K, unsigned start)
{
    hwarm<C>();
    {
        hhistory<C> h(SXHOW);
        h.start(start);
        // references and iterators into the first value stay good
        auto keep = h.v[0];
        auto km = h.m[0];
        auto b = keep.begin(), e = keep.end();
        const void* at[SXP] = {};
        for (unsigned i = 0; i < SXP; i++) at[i] = where(keep, h.p[i]);
        for (int k = 0; k < K; k++) h.derive(k >= SXFAT);
        h.check_all();
        unsigned n = 0;
        for (auto it = b; it != e; ++it, ++n) {
            auto id = val(hk<C>::keyof(*it).id);
            CHECKM(id < SXP && km.e[id].in, "an iterator into an old value yields another key");
            if (!std::is_same<C, SET>::value && id < SXP) CHECKM(hk<C>::valof(*it) == km.e[id].v, "an iterator into an old value yields another value");
        }
        CHECK(n == km.size());
        for (unsigned i = 0; i < SXP; i++) CHECKM(where(keep, h.p[i]) == at[i], "an entry of an old value moved");
        hsame<C>(keep, km, h.p);
        hout(h.v[h.n - 1], h.p);
    }
    check_no_leaks();
}
extern "C" void h_map() { run<MAP>(SXK, SXSTART); }
extern "C" void h_set() { run<SET>(SXK, SXSTART); }
extern "C" void h_table() { run<TABLE>(SXK, SXSTART); }
