#include "hhist.hpp"
// a transient of any value, used for K operations with persistent() between
template <typename C>
static void tr(int K, unsigned start)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m0;
        auto n = sx_choose("n", 0, start);
        C v = hbuild<C>(p, m0, n);
        p.used = n;
        auto m = m0;
        auto t = sx_choose("consume", 0, 1) ? C(v).transient() : v.transient();
        C mid;
        amodel mm;
        auto at = sx_choose("persist after", 0, K);
        for (int k = 0; k < K; k++) {
            if (k == (int) at) { mid = t.persistent(); mm = m; }
            auto s = hchoose<C>(p);
            happly_tr<C>(t, p, s);
            happly<C>(m, s);
            CHECK(t.size() == m.size());
        }
        hsame<C>(t, m, p);
        C q = t.persistent();
        if (!p.used) p.used = 1;
        hstep s{sx_choose("last", 0, 1) ? DEL : PUT, 0, fresh()};
        happly_tr<C>(t, p, s);
        hsame<C>(q, m, p);
        happly<C>(m, s);
        hsame<C>(t, m, p);
        hsame<C>(v, m0, p);
        hsame<C>(mid, mm, p);
        hout(q, p);
    }
    check_no_leaks();
}
// a value nobody else holds: every operation, as r-value or transient
template <typename C>
static void one(unsigned keys)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = sx_choose("n", 0, keys);
        C v = hbuild<C>(p, m, n);
        p.used = n;
        auto s = hchoose<C>(p);
        if (sx_choose("transient", 0, 1)) {
            auto t = std::move(v).transient();
            happly_tr<C>(t, p, s);
            happly<C>(m, s);
            hsame<C>(t, m, p);
            v = std::move(t).persistent();
        } else {
            v = happly<C>(std::move(v), p, s);
            happly<C>(m, s);
        }
        hsame<C>(v, m, p);
        hout(v, p);
    }
    check_no_leaks();
}
// chains of r-value operations on a value nobody else holds
template <typename C>
static void chain(int K, unsigned start)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m, keepm;
        auto n = sx_choose("n", 0, start);
        C v = hbuild<C>(p, m, n), keep;
        p.used = n;
        auto share = sx_choose("share at", 0, K);
        for (int k = 0; k < K; k++) {
            if (k == (int) share) { keep = v; keepm = m; }
            auto s = hchoose<C>(p);
            v = happly<C>(std::move(v), p, s);
            happly<C>(m, s);
        }
        hsame<C>(v, m, p);
        hsame<C>(keep, keepm, p);
        hout(v, p);
    }
    check_no_leaks();
}
// what holds its own path to one key and shares the rest with another value:
// every operation on every key
template <typename C>
static void own()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m0;
        auto gone = (unsigned) sx_choose("missing", 0, SXP);
        C v = hbuild<C>(p, m0, SXP);
        if (gone < SXP) {
            v = std::move(v).erase(p[gone]);
            m0.e[gone] = kv{};
        }
        p.used = SXP;
        auto m = m0;
        bool tr = sx_choose("transient", 0, 1);
        auto s1 = hchoose<C>(p, gone < SXP ? 1u << PUT : 1u << PUT | 1u << DEL), s2 = hchoose<C>(p, gone < SXP ? 1u << PUT | 1u << UPD | 1u << DEL : ~0u);
        C q;
        if (tr) {
            auto t = v.transient();
            happly_tr<C>(t, p, s1);
            happly_tr<C>(t, p, s2);
            q = t.persistent();
        } else {
            q = happly<C>(static_cast<const C&>(v), p, s1);
            q = happly<C>(std::move(q), p, s2);
        }
        happly<C>(m, s1);
        happly<C>(m, s2);
        hsame<C>(q, m, p);
        hsame<C>(v, m0, p);
        hout(q, p);
    }
    check_no_leaks();
}
extern "C" void h_map_own() { own<MAP>(); }
extern "C" void h_set_own() { own<SET>(); }
extern "C" void h_table_own() { own<TABLE>(); }
extern "C" void h_map_tr() { tr<MAP>(SXK, SXSTART); }
extern "C" void h_set_tr() { tr<SET>(SXK, SXSTART); }
extern "C" void h_table_tr() { tr<TABLE>(SXK, SXSTART); }
extern "C" void h_map_one() { one<MAP>(SXP); }
extern "C" void h_set_one() { one<SET>(SXP); }
extern "C" void h_table_one() { one<TABLE>(SXP); }
extern "C" void h_map_chain() { chain<MAP>(SXK, SXSTART); }
extern "C" void h_set_chain() { chain<SET>(SXK, SXSTART); }
extern "C" void h_table_chain() { chain<TABLE>(SXK, SXSTART); }
