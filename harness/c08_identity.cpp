// Values with the same identity() have the same contents, and copies of a
// value have its identity.
#ifdef SXHASHONLY
#include "hhist.hpp"
#else
#include "hist.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#endif
#ifndef SXK
#define SXK 2
#endif
template <typename V, typename M>
static void judge(const V& a, const V& b, const M& x, const M& y, bool same)
{
    if (same) CHECKM(a.identity() == b.identity(), "a copy has another identity");
    if (a.identity() == b.identity()) { sx_reach("same identity"); CHECKM(x == y, "values of the same identity differ"); }
    else sx_reach("different identities");
}
#ifndef SXHASHONLY
struct contents
{
    const model& m;
    bool operator==(const contents& o) const
    {
        if (m.size() != o.m.size()) return false;
        for (uint64_t i = 0; i < m.size(); i++) sx_check(m[i] == o.m[i], "values of the same identity have different elements");
        return true;
    }
};
template <typename V>
static void run(unsigned kinds, int K, uint64_t a)
{
    warm<V>();
    {
        history<V> h;
        if (kinds) h.start(a, kinds);
        else { h.v[0] = build_t<V>(sx_choose("n", 0, a), h.m[0]); h.n = 1; }
        for (int k = 0; k < K; k++) h.derive(k > 0);
        for (unsigned i = 0; i < h.n; i++) {
            auto c = h.v[i];
            judge(c, h.v[i], contents{h.m[i]}, contents{h.m[i]}, true);
            auto d = std::move(c);
            judge(d, h.v[i], contents{h.m[i]}, contents{h.m[i]}, true);
            for (unsigned j = 0; j < i; j++) judge(h.v[i], h.v[j], contents{h.m[i]}, contents{h.m[j]}, false);
        }
        out_all(h.v[h.n - 1]);
    }
}
#ifdef SXARRAY
extern "C" void h_array() { run<immer::array<SXT, sx_memory>>(0, SXK, SXA); }
#else
extern "C" void h_vector() { run<VEC>(S_REG | S_TAKE, SXK, SXA); }
extern "C" void h_flex() { run<FLEX>(S_ALL, SXK, SXA); }
#endif
#else
struct contents
{
    const amodel& m;
    bool operator==(const contents& o) const
    {
        for (unsigned i = 0; i < SXP; i++) {
            if (m.e[i].in != o.m.e[i].in) return false;
            if (m.e[i].in) sx_check(m.e[i].v == o.m.e[i].v, "values of the same identity have different entries");
        }
        return true;
    }
};
template <typename C>
static void run(int K, unsigned start)
{
    hwarm<C>();
    {
        hhistory<C> h(SXHOW);
        h.start(start);
        for (int k = 0; k < K; k++) h.derive(k > 0);
        for (unsigned i = 0; i < h.n; i++) {
            auto c = h.v[i];
            judge(c, h.v[i], contents{h.m[i]}, contents{h.m[i]}, true);
            auto d = std::move(c);
            judge(d, h.v[i], contents{h.m[i]}, contents{h.m[i]}, true);
            for (unsigned j = 0; j < i; j++) judge(h.v[i], h.v[j], contents{h.m[i]}, contents{h.m[j]}, false);
        }
        hout(h.v[h.n - 1], h.p);
    }
}
extern "C" void h_map() { run<MAP>(SXK, SXSTART); }
extern "C" void h_set() { run<SET>(SXK, SXSTART); }
#endif
