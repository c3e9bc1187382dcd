// The chunked algorithms over whole containers and sub-ranges.
#ifdef SXHASHONLY
#include "hhist.hpp"
#else
#include "hist.hpp"
#include "deep.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#endif
#include <immer/algorithm.hpp>
#ifndef SXA
#define SXA 9
#endif
#ifndef SXN
#define SXN 20
#endif
#ifndef SXHASHONLY
// what a chunk callback saw
struct seen
{
    const model& m;
    uint64_t at, end, calls = 0;
    template <typename T>
    void operator()(const T* f, const T* l)
    {
        ++calls;
        if (l < f) { sx_fail("a chunk has negative length"); return; }
        for (; f != l; ++f, ++at) {
            if (at >= end) { sx_fail("the chunks hold more elements than the range"); return; }
            CHECKM(val(*f) == m[at], "a chunk differs from the plain array");
        }
    }
    void done() { CHECKM(at == end, "the chunks hold fewer elements than the range"); }
};
struct mix { uint64_t operator()(uint64_t a, const SXT& x) const { return a * 3 + val(x); } };
struct cell { SXT v; cell() : v(0) {} };
// every algorithm over [i, j): `call(f)` invokes `f` with the range
template <typename Call>
static void algorithms(const model& m, uint64_t i, uint64_t j, Call call)
{
    uint64_t nchunks;
    {
        seen s{m, i, j};
        call([&](auto&&... r) { immer::for_each_chunk(r..., [&](auto f, auto l) { s(f, l); }); });
        s.done();
        nchunks = s.calls;
    }
    {
        seen s{m, i, j};
        bool r;
        call([&](auto&&... a) { r = immer::for_each_chunk_p(a..., [&](auto f, auto l) { s(f, l); return true; }); });
        s.done();
        CHECKM(r, "for_each_chunk_p reports a refusal there was not");
    }
    if (nchunks) { // refused at an arbitrary chunk
        auto stop = pos("stop", 0, nchunks - 1, 1);
        seen s{m, i, j};
        bool r;
        call([&](auto&&... a) { r = immer::for_each_chunk_p(a..., [&](auto f, auto l) { s(f, l); return s.calls <= stop; }); });
        CHECKM(!r, "for_each_chunk_p does not report the refusal");
        CHECKM(s.calls == stop + 1, "for_each_chunk_p goes on after the refusal");
    }
    {
        uint64_t e = 7, g = 0;
        for (uint64_t k = i; k < j; k++) e = e * 3 + m[k];
        call([&](auto&&... a) { g = immer::accumulate(a..., uint64_t(7), mix{}); });
        CHECKM(g == e, "accumulate differs from folding the plain array");
    }
    {
        uint64_t k = i;
        auto fn = [&](const SXT& x) { if (k >= j) { sx_fail("for_each visits too many elements"); return; } CHECKM(val(x) == m[k], "for_each differs from the plain array"); ++k; };
        call([&](auto&&... a) { immer::for_each(a..., fn); });
        CHECKM(k == j, "for_each visits too few elements");
    }
    {
        std::vector<cell> out(m.size() + 1);
        struct dst { cell* p; dst& operator*() { return *this; } dst& operator++() { ++p; return *this; } dst operator++(int) { auto o = *this; ++p; return o; } void operator=(const SXT& x) { p->v = x; }
                     using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void; };
        dst d{out.data()};
        call([&](auto&&... a) { d = immer::copy(a..., d); });
        CHECKM((uint64_t) (d.p - out.data()) == j - i, "copy returns the wrong end");
        for (uint64_t k = i; k < j; k++) CHECKM(val(out[k - i].v) == m[k], "copy differs from the plain array");
    }
    { // a predicate that refuses one arbitrary element
        auto x = m.size() ? pos("refused", i, j, 2) : 0;
        uint64_t k = i;
        bool r;
        auto pred = [&k, x](const SXT&) { return k++ != x; };
        auto* kp = &k;
        call([&](auto&&... a) { r = immer::all_of(a..., [kp, x](const SXT&) { return (*kp)++ != x; }); });
        (void) pred;
        CHECKM(r == (x >= j), "all_of reports the wrong result");
        CHECKM(k == (x < j ? x + 1 : j), "all_of asks about the wrong elements");
    }
    { // and one that decides by value
        uint64_t d = 0, y = fresh("y");
        bool r;
        for (uint64_t k = i; k < j; k++) d |= m[k] == y;
        call([&](auto&&... a) { r = immer::all_of(a..., [&](const SXT& e) { return !(val(e) == y); }); });
        CHECKM(r == !d, "all_of reports the wrong result");
    }
}
template <typename V>
static void whole(unsigned kinds, uint64_t a, bool narrow)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, narrow);
        algorithms(m, 0, m.size(), [&](auto f) { f(v); });
        sx_out(v.size());
    }
    check_no_leaks();
}
template <typename V>
static void ranges(unsigned kinds, uint64_t a, bool narrow)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, narrow);
        auto n = m.size(), i = sx_choose("i", 0, n), j = sx_choose("j", i, n);
        seen s{m, i, j};
        immer::for_each_chunk(v.begin() + i, v.begin() + j, [&](auto f, auto l) { s(f, l); });
        s.done();
        seen s2{m, i, j};
        bool all = sx_choose("all", 0, 1);
        bool r = immer::for_each_chunk_p(v.begin() + i, v.begin() + j, [&](auto f, auto l) { s2(f, l); return all || s2.at < (i + j) / 2; });
        if (all) { s2.done(); CHECKM(r, "for_each_chunk_p reports a refusal there was not"); }
        else {
            CHECKM(s.calls == 0 ? r : !r || s2.at == j, "for_each_chunk_p reports the wrong result");
            if (!r) CHECKM(s2.at >= (i + j) / 2, "for_each_chunk_p reports a refusal there was not");
        }
        sx_out(s2.at);
    }
    check_no_leaks();
}
template <typename V>
static void range_algorithms(unsigned kinds, uint64_t a)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, true);
        auto n = m.size(), i = pos("i", 0, n, 1), j = pos("j", i, n, 1);
        algorithms(m, i, j, [&](auto f) { f(v.begin() + i, v.begin() + j); });
        sx_out(j - i);
    }
    check_no_leaks();
}
// every range of relaxed trees of several levels
extern "C" void h_flex_deep()
{
    warm<FLEX>();
    {
        model m;
        auto v = deep_value(m);
        auto n = m.size(), i = sx_choose("i", 0, n), j = sx_choose("j", i, n);
        seen s{m, i, j};
        immer::for_each_chunk(v.begin() + i, v.begin() + j, [&](auto f, auto l) { s(f, l); });
        s.done();
        seen s2{m, i, j};
        bool r = immer::for_each_chunk_p(v.begin() + i, v.begin() + j, [&](auto f, auto l) { s2(f, l); return true; });
        s2.done();
        CHECKM(r, "for_each_chunk_p reports a refusal there was not");
        seen s3{m, i, j};
        auto calls = s.calls;
        if (calls) {
            r = immer::for_each_chunk_p(v.begin() + i, v.begin() + j, [&](auto f, auto l) { s3(f, l); return s3.calls <= calls / 2; });
            CHECKM(!r, "for_each_chunk_p does not report the refusal");
            CHECKM(s3.calls == calls / 2 + 1, "for_each_chunk_p goes on after the refusal");
        }
        sx_out(s3.at);
    }
    check_no_leaks();
}
extern "C" void h_flex_deep_whole()
{
    warm<FLEX>();
    {
        model m;
        auto v = deep_value(m);
        algorithms(m, 0, m.size(), [&](auto f) { f(v); });
        sx_out(v.size());
    }
    check_no_leaks();
}
using ARR = immer::array<SXT, SXMEM>;
extern "C" void h_vector_whole() { whole<VEC>(S_REG | S_TAKE, SXN + 16, false); }
extern "C" void h_flex_whole() { whole<FLEX>(S_DROP | S_CAT | S_FRONT | S_CATDROP, SXA + 3, false); }
extern "C" void h_vector_ranges() { ranges<VEC>(S_REG, SXN + 16, false); }
extern "C" void h_flex_ranges() { ranges<FLEX>(S_DROP | S_CAT | S_CATDROP, SXA + 2, false); }
extern "C" void h_vector_algorithms() { range_algorithms<VEC>(S_REG, SXN); }
extern "C" void h_flex_algorithms() { range_algorithms<FLEX>(S_DROP | S_CAT | S_CATDROP, SXA); }
extern "C" void h_array_whole() { whole<ARR>(S_REG | S_TAKE, 7, false); }
extern "C" void h_array_algorithms() { range_algorithms<ARR>(S_REG | S_TAKE, 7); }
#else
#ifndef SXK
#define SXK 1
#endif
template <typename C>
struct hseen
{
    const amodel& m;
    const pool& p;
    unsigned n = 0;
    unsigned got[SXP + 1] = {};
    void one(const typename hk<C>::value_type& x)
    {
        if (n++ > SXP) { sx_fail("more entries than there are"); return; }
        uint64_t id = val(hk<C>::keyof(x).id);
        if (id > SXP || !m.e[id].in) { sx_fail("an entry that is not there"); return; }
        CHECKM(hk<C>::keyof(x).h == p.h[id], "a corrupt key");
        if (!std::is_same<C, SET>::value) CHECKM(hk<C>::valof(x) == m.e[id].v, "the wrong value");
        got[id]++;
    }
    void done() { for (unsigned i = 0; i <= SXP; i++) CHECKM(got[i] == (m.e[i].in ? 1u : 0u), "an entry is missed or repeated"); }
};
template <typename C>
static void halgorithms(const C& c, const amodel& m, const pool& p)
{
    {
        hseen<C> s{m, p};
        immer::for_each_chunk(c, [&](auto f, auto l) { for (; f != l; ++f) s.one(*f); });
        s.done();
    }
    {
        hseen<C> s{m, p};
        immer::for_each(c, [&](const auto& x) { s.one(x); });
        s.done();
    }
    {
        hseen<C> s{m, p};
        auto r = immer::accumulate(c, uint64_t(5), [&](uint64_t a, const auto& x) { s.one(x); return a + hk<C>::valof(x); });
        s.done();
        uint64_t e = 5;
        for (auto& x : m.e) if (x.in) e += std::is_same<C, SET>::value ? 0 : x.v;
        CHECKM(r == e, "accumulate yields the wrong sum");
    }
}
template <typename C>
static void hrun()
{
    hwarm<C>();
    {
        hhistory<C> h(SXHOW);
        h.start(SXSTART);
        for (int k = 0; k < SXK; k++) h.derive(k > 0);
        for (unsigned i = 0; i < h.n; i++) halgorithms<C>(h.v[i], h.m[i], h.p);
        hout(h.v[h.n - 1], h.p);
    }
    check_no_leaks();
}
template <typename C>
static void hmany()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = sx_choose("n", 0, SXP);
        auto c = hbuild<C>(p, m, n);
        p.used = n;
        halgorithms<C>(c, m, p);
        hout(c, p);
    }
    check_no_leaks();
}
extern "C" void h_map() { hrun<MAP>(); }
extern "C" void h_set() { hrun<SET>(); }
extern "C" void h_table() { hrun<TABLE>(); }
extern "C" void h_map_many() { hmany<MAP>(); }
extern "C" void h_set_many() { hmany<SET>(); }
extern "C" void h_table_many() { hmany<TABLE>(); }
#endif
