// Iterators of sequences: every walk and jump; iterators of hash containers.
#ifdef SXHASHONLY
#include "hhist.hpp"
#else
#include "hist.hpp"
#endif
#include <algorithm>
#ifndef SXA
#define SXA 9
#endif
#ifndef SXN
#define SXN 20
#endif
#ifndef SXHASHONLY
template <typename V>
static void walks(const V& v, const model& m)
{
    uint64_t n = m.size(), i = 0;
    auto b = v.begin(), e = v.end();
    CHECKM((uint64_t) (e - b) == n, "end() - begin() is not the size");
    for (auto it = b; it != e; i++) {
        if (i >= n) { sx_fail("iteration runs past the end"); return; }
        CHECKM((uint64_t) (it - b) == i, "the distance from begin() is wrong");
        CHECKM(val(*it) == m[i], "forward iteration differs from the plain array");
        CHECKM(val(b[(std::ptrdiff_t) i]) == m[i], "indexing an iterator differs from the plain array");
        auto old = it++;
        CHECKM(val(*old) == m[i], "post-increment yields the wrong position");
    }
    CHECKM(i == n, "forward iteration ends early");
    for (auto it = e; it != b; i--) {
        if (!i) { sx_fail("iteration runs past the beginning"); return; }
        auto old = it--;
        CHECKM(val(*it) == m[i - 1], "backward iteration differs from the plain array");
        CHECKM((uint64_t) (old - b) == i, "post-decrement yields the wrong position");
    }
    CHECKM(i == 0, "backward iteration ends early");
    i = n;
    for (auto it = v.rbegin(), re = v.rend(); it != re; ++it, --i) {
        if (!i) { sx_fail("reverse iteration runs past the beginning"); return; }
        CHECKM(val(*it) == m[i - 1], "reverse iteration differs from the plain array");
    }
    CHECKM(i == 0, "reverse iteration ends early");
}
template <typename V>
static void jumps(const V& v, const model& m, int narrow)
{
    using D = std::ptrdiff_t;
    D n = (D) m.size();
    if (!n) return;
    D i = (D) sx_choose("i", 0, n - 1), j = (D) sx_choose("j", 0, n), k = (D) pos("k", 0, n - 1, narrow);
    auto b = v.begin();
    auto it = b;
    it += i; // caches the chunk of i
    CHECKM(val(*it) == m[i], "an iterator advanced from begin() differs from the plain array");
    CHECKM(val(it[k - i]) == m[k], "indexing relative to an iterator differs from the plain array");
    auto was = it;
    it += j - i;
    if (j < n) CHECKM(val(*it) == m[j], "an iterator that jumped differs from the plain array");
    CHECKM(it == b + j && !(it != b + j), "iterators to the same position do not compare equal");
    CHECKM(it - was == j - i && was - it == i - j, "the difference of iterators is wrong");
    CHECKM((it == was) == (i == j) && (it != was) == (i != j), "iterators to different positions compare equal");
    CHECKM((was < it) == (i < j) && (was > it) == (i > j) && (was <= it) == (i <= j) && (was >= it) == (i >= j), "the order of iterators is wrong");
    CHECKM((v.end() == it) == (j == n), "end() is another position");
    it -= j - k;
    CHECKM(val(*it) == m[k], "an iterator that jumped back differs from the plain array");
    CHECKM(val(*was) == m[i], "a copied iterator changed");
    if (k) { auto p = it; --p; CHECKM(val(*p) == m[k - 1], "stepping back after a jump differs from the plain array"); ++p; CHECK(val(*p) == m[k]); }
    if (k + 1 < n) { auto p = it; ++p; CHECKM(val(*p) == m[k + 1], "stepping forward after a jump differs from the plain array"); --p; CHECK(val(*p) == m[k]); }
    auto p = 1 + it - 1, q = v.end() - (n - k);
    CHECKM(p == it && q == it && val(*p) == m[k] && val(*q) == m[k], "iterator arithmetic differs from the plain array");
    CHECKM(it.operator->() == &*it && &*it == &v[(uint64_t) k], "an iterator refers to another object than operator[]");
    auto r = v.rbegin() + (n - 1 - k);
    CHECKM(val(*r) == m[k], "a reverse iterator that jumped differs from the plain array");
    was = it;
    CHECKM(was == it && val(*was) == m[k], "an assigned iterator is another position");
    sx_out(val(*it));
}
template <typename V>
static void all_walks(unsigned kinds, uint64_t a, bool narrow)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, narrow);
        walks(v, m);
        if (sx_choose("transient", 0, 1)) {
            auto t = v.transient();
            walks(t, m);
            auto x = fresh();
            t.push_back(typename V::value_type(x));
            auto m2 = m;
            m2.push_back(x);
            walks(t, m2);
            if (m.size()) { t.set(m.size() / 2, typename V::value_type(x)); m2.set(m.size() / 2, x); walks(t, m2); }
            walks(v, m);
        }
        out_all(v);
    }
    check_no_leaks();
}
template <typename V>
static void all_jumps(unsigned kinds, uint64_t a, bool narrow)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, narrow);
        jumps(v, m, 2);
    }
    check_no_leaks();
}
// standard algorithms through the iterators
template <typename V>
static void algorithms(uint64_t a, unsigned kinds)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, true);
        auto n = m.size();
        auto i = pos("i", 0, n, 1), j = pos("j", i, n, 1);
        std::vector<uint64_t> got;
        std::for_each(v.begin() + i, v.begin() + j, [&](auto&& e) { got.push_back(val(e)); });
        CHECKM(got.size() == j - i, "a sub-range has the wrong length");
        for (uint64_t k = 0; k < got.size() && k < j - i; k++) CHECKM(got[k] == m[i + k], "a sub-range differs from the plain array");
        V w(v.begin() + i, v.begin() + j); // a container from a range of another
        model mw = m;
        mw.take(j), mw.drop(i);
        same(w, mw);
        out_all(w);
    }
    check_no_leaks();
}
extern "C" void h_vector_walks() { all_walks<VEC>(S_REG | S_TAKE, SXN + 20, false); }
extern "C" void h_flex_walks() { all_walks<FLEX>(S_DROP | S_CAT | S_FRONT | S_CATDROP, SXN, false); }
extern "C" void h_vector_jumps() { all_jumps<VEC>(S_REG, SXN, false); }
extern "C" void h_flex_jumps() { all_jumps<FLEX>(S_DROP | S_CAT | S_CATDROP, SXA, false); }
extern "C" void h_vector_algorithms() { algorithms<VEC>(SXA, S_REG); }
extern "C" void h_flex_algorithms() { algorithms<FLEX>(SXA, S_DROP | S_CAT | S_CATDROP); }
#else
#ifndef SXK
#define SXK 1
#endif
// every entry exactly once, whatever position the iterator was copied at
template <typename C, typename M>
static void hwalk(const M& c, const amodel& m, const pool& p)
{
    unsigned n = m.size(), k = 0;
    const void* seen[SXP + 2];
    auto e = c.end();
    for (auto it = c.begin(); it != e; k++) {
        if (k >= n) { sx_fail("iteration yields more entries than there are"); return; }
        const auto& x = *it;
        CHECKM(it.operator->() == &x, "-> and * refer to different entries");
        uint64_t id = val(hk<C>::keyof(x).id);
        if (id > SXP || !m.e[id].in) { sx_fail("iteration yields a key that is not there"); return; }
        CHECKM(hk<C>::keyof(x).h == p.h[id], "iteration yields a corrupt key");
        if (!std::is_same<C, SET>::value) CHECKM(hk<C>::valof(x) == m.e[id].v, "iteration yields the wrong value");
        for (unsigned i = 0; i < k; i++) CHECKM(seen[i] != &x, "iteration yields an entry twice");
        seen[k] = &x;
        // an independent iterator here by another route
        auto other = c.begin();
        for (unsigned i = 0; i < k; i++) ++other;
        CHECKM(other == it && !(other != it) && &*other == &x, "iterators to the same entry do not compare equal");
        auto copy = it;
        auto old = it++;
        CHECKM(old == copy && &*old == &x, "post-increment yields the wrong position");
        ++copy;
        CHECKM(copy == it, "a copied iterator goes another way");
        CHECKM(old != it, "an incremented iterator still compares equal");
        other = it;
        CHECKM(other == it, "an assigned iterator is another position");
    }
    CHECKM(k == n, "iteration misses an entry");
    CHECKM((c.begin() == c.end()) == (n == 0), "begin() == end() disagrees with emptiness");
    CHECKM((unsigned) std::distance(c.begin(), c.end()) == n, "the distance from begin() to end() is not the size");
}
template <typename C>
static void hiter()
{
    hwarm<C>();
    {
        hhistory<C> h(SXHOW);
        h.start(SXSTART);
        for (int k = 0; k < SXK; k++) h.derive(k > 0);
        for (unsigned i = 0; i < h.n; i++) hwalk<C>(h.v[i], h.m[i], h.p);
        auto t = h.v[h.n - 1].transient();
        hwalk<C>(t, h.m[h.n - 1], h.p);
        hout(h.v[h.n - 1], h.p);
        t = decltype(t){};
    }
    check_no_leaks();
}
// containers of several keys
template <typename C>
static void hmany()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = sx_choose("n", 0, SXP);
        auto c = hbuild<C>(p, m, n);
        p.used = n;
        hwalk<C>(c, m, p);
        if (n) {
            auto k = sx_choose("gone", 0, n - 1);
            c = std::move(c).erase(p[k]);
            m.e[k] = kv{};
            hwalk<C>(c, m, p);
        }
        hout(c, p);
    }
    check_no_leaks();
}
extern "C" void h_map() { hiter<MAP>(); }
extern "C" void h_set() { hiter<SET>(); }
extern "C" void h_table() { hiter<TABLE>(); }
extern "C" void h_map_many() { hmany<MAP>(); }
extern "C" void h_set_many() { hmany<SET>(); }
extern "C" void h_table_many() { hmany<TABLE>(); }
#endif
