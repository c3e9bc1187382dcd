// diff of two hash containers against the difference of their contents.
#include "hashc.hpp"
#include <immer/algorithm.hpp>
struct log_t
{
    unsigned added[SXP + 1] = {}, removed[SXP + 1] = {}, changed[SXP + 1] = {};
    bool bad = false;
};
template <typename C>
static void hdiff(const C& a, const amodel& ma, const C& b, const amodel& mb, const pool& p)
{
    using K = hk<C>;
    using VT = typename K::value_type;
    constexpr bool set = std::is_same<C, SET>::value;
    log_t l;
    auto id = [&](const VT& x) { auto i = val(K::keyof(x).id); if (i >= SXP) { l.bad = true; i = SXP; } return i; };
    immer::diff(
        a, b,
        [&](const VT& x) { auto i = id(x); l.added[i]++; if (!set) sx_check(K::valof(x) == mb.e[i].v, "diff: added reports another value"); },
        [&](const VT& x) { auto i = id(x); l.removed[i]++; if (!set) sx_check(K::valof(x) == ma.e[i].v, "diff: removed reports another value"); },
        [&](const VT& x, const VT& y) {
            auto i = id(x);
            l.changed[i]++;
            CHECKM(id(y) == i, "diff: changed reports two different keys");
            if (!set) {
                sx_check(K::valof(x) == ma.e[i].v, "diff: changed reports another old value");
                sx_check(K::valof(y) == mb.e[i].v, "diff: changed reports another new value");
            }
        });
    CHECKM(!l.bad, "diff reports a key that was never inserted");
    for (unsigned i = 0; i < SXP; i++) {
        CHECKM(l.added[i] == (!ma.e[i].in && mb.e[i].in), "diff: added is not exactly the keys only in the second");
        CHECKM(l.removed[i] == (ma.e[i].in && !mb.e[i].in), "diff: removed is not exactly the keys only in the first");
        CHECKM(l.changed[i] == (unsigned) (!set && ma.e[i].in && mb.e[i].in && ma.e[i].v != mb.e[i].v), "diff: changed is not exactly the keys with different values");
        sx_out(l.added[i]); sx_out(l.removed[i]); sx_out(l.changed[i]);
    }
}
// contents chosen independently
template <typename C>
static void both()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        p.used = SXP;
        amodel ma, mb;
        C a, b;
        for (unsigned i = 0; i < SXP; i++) {
            // only in the first, only in the second, in both
            auto w = sx_choose("where", 1, 3);
            auto x = fresh(), y = fresh();
            if (std::is_same<C, SET>::value) x = y = 0;
            if (w & 1) { a = std::move(a).insert(hk<C>::make(p[i], x)); ma.e[i] = kv{true, x}; }
            if (w & 2) { mb.e[i] = kv{true, y}; if (!(i & 1)) b = std::move(b).insert(hk<C>::make(p[i], y)); }
        }
        for (unsigned i = SXP; i-- > 0;) if (mb.e[i].in && (i & 1)) b = std::move(b).insert(hk<C>::make(p[i], mb.e[i].v));
        hdiff<C>(a, ma, b, mb, p);
        hdiff<C>(a, ma, a, ma, p);
        hdiff<C>(a, ma, C{}, amodel{}, p);
        hdiff<C>(C{}, amodel{}, b, mb, p);
    }
    check_no_leaks();
}
// one derived from the other: shared structure
template <typename C>
static void derived(int K)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel ma;
        auto n = sx_choose("n", 0, SXSTART);
        C a = hbuild<C>(p, ma, n);
        p.used = n;
        C b = a;
        auto mb = ma;
        for (int k = 0; k < K; k++) {
            auto s = hchoose<C>(p, k ? 1u << PUT | 1u << DEL : ~0u);
            b = happly<C>(static_cast<const C&>(b), p, s);
            happly<C>(mb, s);
        }
        hdiff<C>(a, ma, b, mb, p);
        hdiff<C>(b, mb, a, ma, p);
    }
    check_no_leaks();
}
// two ranges of the pool, built separately
template <typename C>
static void ranges()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        p.used = SXP;
        amodel m[2];
        C c[2];
        auto same = sx_choose("values", 0, 1);
        for (int w = 0; w < 2; w++) {
            auto lo = sx_choose("from", 0, SXP - 1), hi = sx_choose("to", lo + 1, SXP);
            for (auto i = lo; i < hi; i++) {
                auto k = w ? hi - 1 - (i - lo) : i; // backwards
                uint64_t x = std::is_same<C, SET>::value ? 0 : same ? k : k + 100 * w * (k % 3 == 0);
                c[w] = std::move(c[w]).insert(hk<C>::make(p[k], x));
                m[w].e[k] = kv{true, x};
            }
        }
        hdiff<C>(c[0], m[0], c[1], m[1], p);
    }
    check_no_leaks();
}
extern "C" void h_map_ranges() { ranges<MAP>(); }
extern "C" void h_set_ranges() { ranges<SET>(); }
extern "C" void h_table_ranges() { ranges<TABLE>(); }
extern "C" void h_map_both() { both<MAP>(); }
extern "C" void h_set_both() { both<SET>(); }
extern "C" void h_table_both() { both<TABLE>(); }
extern "C" void h_map_derived() { derived<MAP>(SXK); }
extern "C" void h_set_derived() { derived<SET>(SXK); }
extern "C" void h_table_derived() { derived<TABLE>(SXK); }
