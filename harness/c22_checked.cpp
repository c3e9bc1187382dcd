// Checked access at any index and key.
#include "hist.hpp"
#include "hashc.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#ifndef SXA
#define SXA 13
#endif
template <typename V>
static void at_any(const V& v, const model& m, uint64_t i)
{
    bool threw = false;
    uint64_t got = 0;
    try {
        got = val(v.at(i));
    } catch (const std::out_of_range&) {
        threw = true;
        sx_reach("at throws");
    }
    CHECKM(threw == (i >= m.size()), "at throws exactly when the index is out of range");
    if (!threw) {
        sx_reach("at returns");
        auto e = m.size() ? m[0] : 0;
        for (uint64_t k = 1; k < m.size(); k++) e = i == k ? m[k] : e;
        CHECKM(got == e, "at yields another element");
    }
    sx_out(threw);
}
template <typename V>
static void seq(unsigned kinds, uint64_t a)
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, a, kinds, true);
        auto i = sx_sym(64, "index");
        at_any(v, m, i);
        auto t = v.transient();
        at_any(t, m, i);
        if (sx_choose("grown", 0, 1)) {
            auto x = fresh();
            t.push_back(typename V::value_type(x));
            auto m1 = m;
            m1.push_back(x);
            at_any(t, m1, i);
        }
        same_iter(v, m);
    }
    check_no_leaks();
}
#ifndef SXHASHONLY
extern "C" void h_vector() { seq<VEC>(S_REG | S_TAKE, SXN); }
extern "C" void h_flex() { seq<FLEX>(S_REG | S_DROP | S_CAT | S_FRONT | S_CATDROP, SXA); }
extern "C" void h_array() { seq<immer::array<SXT, SXMEM>>(S_REG | S_TAKE, 6); }
#else
template <typename C, typename M, typename K>
static void look(const M& c, const K& k, const kv& e)
{
    CHECKM(hk<C>::at_ok(c, k, e), "at yields the value or throws out_of_range exactly when absent");
    hk<C>::lookup(c, k, e);
    CHECKM(c.count(k) == (e.in ? 1u : 0u), "count differs");
    sx_reach(e.in ? "present" : "absent");
}
template <typename C>
static void hash(int K)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = sx_choose("n", 0, SXP);
        C c = hbuild<C>(p, m, n);
        p.used = n;
        if (n && sx_choose("erase one", 0, 1)) { auto k = sx_choose("k", 0, n - 1); c = c.erase(p[k]); m.e[k] = kv{}; }
        auto k = sx_choose("looked up", 0, p.used); // p.used: never inserted
        look<C>(c, p[k], m.e[k]);
        look<C>(c, p.ref(k), m.e[k]); // another type of key
        auto t = c.transient();
        look<C>(t, p[k], m.e[k]);
        look<C>(t, p.ref(k), m.e[k]);
        auto x = fresh();
        if (k < SXP) {
            t.insert(hk<C>::make(p[k], x));
            look<C>(t, p[k], kv{true, x});
            look<C>(t, p.ref(k), kv{true, x});
            t.erase(p[k]);
            look<C>(t, p[k], kv{});
        }
        hiterate<C>(c, m, p);
        hout(c, p);
    }
    check_no_leaks();
}
extern "C" void h_map() { hash<MAP>(1); }
extern "C" void h_set() { hash<SET>(1); }
extern "C" void h_table() { hash<TABLE>(1); }
#endif
