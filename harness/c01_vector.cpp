#include "common.hpp"
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#ifndef SXB
#define SXB 2
#endif
#ifndef SXBL
#define SXBL 1
#endif
#ifndef SXN
#define SXN 42
#endif
#ifndef SXT
#define SXT uint64_t
#endif
using V = immer::vector<SXT, sx_memory, SXB, SXBL>;

// every length: contents after n push_backs, read in every way
extern "C" void h_push()
{
    warm<V>();
    {
        auto n = sx_choose("n", 0, SXN);
        model m;
        auto v = build<V>(n, m);
        same(v, m);
        same_at(v, m);
        CHECK(v.empty() == (n == 0));
        out_all(v);
    }
    check_no_leaks();
}
// set and update at an arbitrary index; the old value is unchanged
extern "C" void h_set()
{
    warm<V>();
    {
        auto n = sx_choose("n", 1, SXN);
        model m;
        auto v = build_t<V>(n, m);
        auto i = sx_range("i", 0, n - 1);
        auto y = fresh("y");
        bool upd = sx_choose("op", 0, 1);
        auto w = upd ? v.update(i, [&](const SXT& e) { return SXT(val(e) ^ y); }) : v.set(i, SXT(y));
        for (uint64_t j = 0; j < n; j++) {
            auto expect = i == j ? (upd ? m[j] ^ y : y) : m[j];
            CHECKM(val(w[j]) == expect, "set/update result differs from the plain array");
            CHECKM(val(v[j]) == m[j], "set/update changed the original");
        }
        CHECKM(w.size() == n, "set/update changed the size");
        out_all(w);
    }
    check_no_leaks();
}
// take, then growing again
extern "C" void h_take()
{
    warm<V>();
    {
        auto n = sx_choose("n", 0, SXN);
        auto k = sx_choose("k", 0, n + 1);
        model m;
        auto v = build_c<V>(n, m, 1000);
        auto w = v.take(k);
        model mw = m;
        mw.take(k);
        same(w, mw);
        for (int r = 0; r < 3; r++) {
            auto x = fresh();
            w = w.push_back(SXT(x));
            mw.push_back(x);
        }
        same(w, mw);
        same_iter(v, m);
        out_all(w);
    }
    check_no_leaks();
}
extern "C" void h_ctor()
{
    warm<V>();
    {
        auto n = sx_choose("n", 0, SXN);
        auto x = fresh();
        model m;
        for (uint64_t i = 0; i < n; i++) m.push_back(x);
        same(V(n, SXT(x)), m);
        std::vector<SXT> src;
        model m2;
        for (uint64_t i = 0; i < n; i++) { auto y = fresh(); src.push_back(SXT(y)); m2.push_back(y); }
        V r(src.begin(), src.end());
        same(r, m2);
        V c(r), mv(std::move(r));
        same_iter(c, m2);
        same_iter(mv, m2);
        auto a = fresh(), b = fresh(), d = fresh();
        V il{SXT(a), SXT(b), SXT(d)};
        model m3;
        m3.push_back(a); m3.push_back(b); m3.push_back(d);
        same(il, m3);
        out_all(mv);
    }
    check_no_leaks();
}
// a chain of operations from any starting length
#ifndef SXK
#define SXK 3
#endif
extern "C" void h_chain()
{
    warm<V>();
    {
        auto n = sx_choose("n", 0, SXB == 1 ? 9 : 12);
        model m;
        auto v = build_t<V>(n, m);
        for (int k = 0; k < SXK; k++) {
            switch (sx_choose("op", 0, 4)) {
            case 0: { auto x = fresh(); v = v.push_back(SXT(x)); m.push_back(x); sx_reach("chain push_back"); break; }
            case 1: {
                if (!m.size()) break;
                auto i = sx_choose("i", 0, m.size() - 1);
                auto x = fresh();
                v = v.set(i, SXT(x));
                m.set(i, x);
                sx_reach("chain set");
                break;
            }
            case 2: {
                if (!m.size()) break;
                auto i = m.size() - 1;
                auto x = fresh();
                v = v.update(i, [&](SXT e) { return SXT(val(e) + x); });
                m.set(i, (m[i] + x));
                break;
            }
            case 3: {
                auto t = sx_choose("t", 0, m.size());
                v = v.take(t);
                m.take(t);
                sx_reach("chain take");
                break;
            }
            case 4: {
                for (int r = 0; r < (1 << SXBL) + 1; r++) { auto x = fresh(); v = v.push_back(SXT(x)); m.push_back(x); }
                break;
            }
            }
        }
        same(v, m);
        out_all(v);
    }
    check_no_leaks();
}
// sizes around the points where the default trees change shape
#ifdef SXBIG
using VB = immer::vector<SXT, sx_memory>;
extern "C" void h_boundary()
{
    warm<VB>();
    {
        constexpr uint64_t L = uint64_t(1) << VB::bits_leaf, F = uint64_t(1) << VB::bits;
        static const uint64_t at[] = {L, 2 * L, L * F, L * F + L, 2 * L * F + L SXBIG};
        auto w = sx_choose("where", 0, sizeof(at) / sizeof(at[0]) - 1);
        auto n = at[w] - 2 + sx_choose("d", 0, 3);
        model m;
        auto v = build_c<VB>(n, m, 1000);
        auto u = v;
        for (int r = 0; r < 3; r++) { auto x = fresh(); u = u.push_back(SXT(x)); }
        CHECK(u.size() == n + 3);
        CHECKM(val(u[n - 1]) == 1000 + n - 1, "push_back changed an element");
        same_iter(v, m);
        uint64_t idx[] = {0, L - 1, L, n / 2, n - L - 1, n - L, n - 2, n - 1};
        auto i = idx[sx_choose("i", 0, 7)];
        if (i < n) {
            auto y = fresh("y");
            auto s = v.set(i, SXT(y));
            m.set(i, y);
            same_iter(s, m);
            m.set(i, 1000 + i);
        }
        if (i <= n) {
            auto t = v.take(i);
            CHECK(t.size() == i);
            auto x = fresh();
            auto t2 = t.push_back(SXT(x));
            m.take(i);
            same_iter(t, m);
            m.push_back(x);
            same_iter(t2, m);
        }
    }
    check_no_leaks();
}
#endif
