#include "hashc.hpp"
// K arbitrary operations on keys from a pool, with arbitrary hashes
template <typename C>
static void ops(int K, int how, unsigned start)
{
    hwarm<C>();
    {
        pool p(how);
        amodel m;
        C c;
        if (start) { auto n = sx_choose("n", 0, start); c = hbuild<C>(p, m, n); p.used = n; }
        for (int k = 0; k < K; k++) {
            auto s = hchoose<C>(p);
            c = happly<C>(static_cast<const C&>(c), p, s);
            happly<C>(m, s);
        }
        hsame<C>(c, m, p);
        hout(c, p);
    }
    check_no_leaks();
}
// P keys inserted, any of them erased again in any order
template <typename C>
static void fill(int how)
{
    hwarm<C>();
    {
        pool p(how);
        amodel m;
        auto n = sx_choose("n", 1, SXP);
        p.used = n;
        C c;
        for (unsigned i = 0; i < n; i++) {
            auto x = fresh();
            c = c.insert(hk<C>::make(p[i], x));
            m.e[i].in = true;
            m.e[i].v = std::is_same<C, SET>::value ? 0 : x;
        }
        hsame<C>(c, m, p);
        auto k = sx_choose("erased", 0, n - 1);
        auto d = c.erase(p[k]);
        m.e[k] = kv{};
        hsame<C>(d, m, p);
        CHECK(d.erase(p[n]).size() == n - 1);
        hout(d, p);
    }
    check_no_leaks();
}
extern "C" void h_map() { ops<MAP>(SXK, SXHOW, SXSTART); }
extern "C" void h_set() { ops<SET>(SXK + 1, SXHOW, SXSTART); }
extern "C" void h_table() { ops<TABLE>(SXK, SXHOW, SXSTART); }
extern "C" void h_map_fill() { fill<MAP>(SXHOW); }
extern "C" void h_set_fill() { fill<SET>(SXHOW); }
extern "C" void h_table_fill() { fill<TABLE>(SXHOW); }
