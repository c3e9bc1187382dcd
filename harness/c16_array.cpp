// immer::array against a plain array: construction, every length, capacity
// growth, chains of operations on l-values, r-values and transients.
#include "hist.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <array>
#ifndef SXN
#define SXN 40
#endif
#ifndef SXK
#define SXK 4
#endif
#ifndef SXA
#define SXA 4
#endif
// arrays of policies without r-value mutation keep no spare capacity
#ifdef SXNOCAP
using MEM = immer::memory_policy<sx_heap_policy, immer::refcount_policy, immer::default_lock_policy, immer::no_transience_policy, false, false>;
#else
using MEM = SXMEM;
#endif
using ARR = immer::array<SXT, MEM>;
using TR = ARR::transient_type;
template <typename A>
static void full(const A& a, const model& m)
{
    same(a, m);
    CHECKM((uint64_t) (a.end() - a.begin()) == m.size(), "the iterator range has the wrong length");
    CHECKM(a.data() == a.begin(), "begin() is not data()");
    CHECKM(a.empty() == (m.size() == 0), "empty() disagrees with size()");
    const SXT* d = a.data();
    for (uint64_t i = 0; i < m.size(); i++) {
        CHECKM(&a[i] == d + i, "data() is not contiguous");
        CHECKM(&a.at(i) == d + i, "at() is another element");
        CHECKM(val(d[i]) == m[i], "data() differs from the plain array");
    }
    uint64_t i = m.size();
    for (auto it = a.rbegin(); it != a.rend(); ++it, --i) {
        if (!i) { sx_fail("reverse iteration runs past the beginning"); return; }
        CHECKM(val(*it) == m[i - 1], "reverse iteration differs from the plain array");
    }
    CHECKM(i == 0, "reverse iteration ends early");
    if (m.size()) {
        CHECKM(&a.front() == d, "front() is not the first element");
        CHECKM(&a.back() == d + m.size() - 1, "back() is not the last element");
    }
}
// every length by push_back, every prefix kept and compared afterwards
extern "C" void h_push()
{
    warm<ARR, TR>();
    {
        constexpr int N = 12;
        ARR v[N + 1];
        model m[N + 1];
        for (int n = 0; n < N; n++) {
            auto x = fresh();
            v[n + 1] = v[n].push_back(SXT(x));
            m[n + 1] = m[n];
            m[n + 1].push_back(x);
        }
        for (int n = 0; n <= N; n++) full(v[n], m[n]);
        out_all(v[N]);
    }
    check_no_leaks();
}
// growth of one array nobody else holds, as r-value or transient; spare
// capacity given to one of several holders only
extern "C" void h_grow()
{
    warm<ARR, TR>();
    {
        model m, m0, mk;
        auto n0 = sx_choose("n0", 0, 9), n = sx_choose("n", 1, SXN);
        auto v = build_c<ARR>(n0, m, 100);
        m0 = m;
        auto share = sx_choose("share after", 0, n);
        ARR keep;
        if (sx_choose("transient", 0, 1)) {
            auto t = std::move(v).transient();
            for (uint64_t i = 0; i < n; i++) {
                if (i == share) { keep = t.persistent(); mk = m; }
                t.push_back(SXT(500 + i));
                m.push_back(500 + i);
            }
            full(t, m);
            v = t.persistent();
        } else
            for (uint64_t i = 0; i < n; i++) {
                if (i == share) { keep = v; mk = m; }
                v = std::move(v).push_back(SXT(500 + i));
                m.push_back(500 + i);
            }
        full(v, m);
        full(keep, mk);
        // two holders with spare capacity behind them
        auto a = v.push_back(SXT(1)), b = v, c = std::move(b).push_back(SXT(2));
        auto ma = m, mc = m;
        ma.push_back(1);
        mc.push_back(2);
        full(a, ma), full(c, mc), full(v, m);
        auto d = std::move(v).push_back(SXT(3));
        m.push_back(3);
        full(d, m), full(keep, mk);
        out_all(d);
    }
    check_no_leaks();
}
// every constructor
extern "C" void h_ctor()
{
    warm<ARR, TR>();
    {
        model m;
        auto n = sx_choose("n", 0, 9);
        SXT buf[9] = {SXT(0), SXT(0), SXT(0), SXT(0), SXT(0), SXT(0), SXT(0), SXT(0), SXT(0)};
        ARR v;
        switch (sx_choose("how", 0, 4)) {
        case 0: { auto x = fresh(); v = ARR(n, SXT(x)); for (uint64_t i = 0; i < n; i++) m.push_back(x); break; }
        case 1: for (uint64_t i = 0; i < n; i++) { auto x = fresh(); buf[i] = SXT(x); m.push_back(x); } v = ARR(buf, buf + n); break;
        case 2: {
            auto x = fresh(), y = fresh(), z = fresh();
            v = sx_choose("some", 0, 1) ? ARR{SXT(x), SXT(y), SXT(z)} : ARR(std::initializer_list<SXT>{});
            if (v.size()) { m.push_back(x); m.push_back(y); m.push_back(z); }
            break;
        }
        case 3: { model r; auto w = build_t<ARR>(n, r); v = ARR(w.begin(), w.end()); m = r; break; }
        default: v = ARR(n); for (uint64_t i = 0; i < n; i++) m.push_back(0); break;
        }
        full(v, m);
        auto x = fresh();
        auto w = v.push_back(SXT(x));
        auto mw = m;
        mw.push_back(x);
        full(v, m), full(w, mw);
        w = std::move(v).push_back(SXT(x));
        full(w, mw);
        w = std::move(w).push_back(SXT(x));
        mw.push_back(x);
        full(w, mw);
        out_all(w);
    }
    check_no_leaks();
}
// a chain of persistent operations
extern "C" void h_chain()
{
    warm<ARR, TR>();
    {
        model m[SXK + 1];
        ARR v[SXK + 1];
        v[0] = build_t<ARR>(sx_choose("n", 0, SXA), m[0]);
        for (int k = 0; k < SXK; k++) {
            auto s = choose_step(m[k].size(), false, 0, 1);
            v[k + 1] = apply(v[k], s, (ARR*) nullptr);
            m[k + 1] = m[k];
            apply(m[k + 1], s, nullptr);
        }
        for (int k = 0; k <= SXK; k++) full(v[k], m[k]);
        out_all(v[SXK]);
    }
    check_no_leaks();
}
// a chain on r-values, with one holder of an intermediate value
extern "C" void h_rvalues()
{
    warm<ARR, TR>();
    {
        model m, mk;
        auto v = build_t<ARR>(sx_choose("n", 0, SXA), m);
        auto share = sx_choose("share", 0, SXK);
        ARR keep;
        for (int k = 0; k < SXK; k++) {
            if (k == (int) share) { keep = v; mk = m; }
            auto s = choose_step(m.size(), false, 0, 1);
            v = apply_move(std::move(v), s, (ARR*) nullptr, 0);
            apply(m, s, nullptr);
        }
        full(v, m), full(keep, mk);
        out_all(v);
    }
    check_no_leaks();
}
// transients: operations, writes through data_mut, persistent() in between
extern "C" void h_transient()
{
    warm<ARR, TR>();
    {
        model m, m0, mk;
        auto v = build_t<ARR>(sx_choose("n", 0, SXA), m);
        m0 = m;
        auto t = v.transient();
        auto share = sx_choose("share", 0, SXK - 1);
        ARR keep;
        TR other;
        model mo;
        for (int k = 0; k < SXK - 1; k++) {
            if (k == (int) share) {
                mk = m;
                if (sx_choose("copy", 0, 1)) { other = t; mo = m; }
                keep = t.persistent();
            }
            if (m.size() && sx_choose("write", 0, 1)) {
                auto i = sx_choose("i", 0, m.size() - 1);
                auto x = fresh();
                auto* d = t.data_mut();
                CHECKM(d == t.data(), "data_mut() is not data()");
                d[i] = SXT(x);
                m.set(i, x);
            } else {
                auto s = choose_step(m.size(), false, 0, 1);
                apply_tr<ARR>(t, s, (TR*) nullptr, false);
                apply(m, s, nullptr);
            }
        }
        full(t, m), full(v, m0), full(keep, mk), full(other, mo);
        auto x = fresh();
        auto p = t.persistent();
        t.push_back(SXT(x));
        full(p, m);
        m.push_back(x);
        other.push_back(SXT(x));
        mo.push_back(x);
        full(t, m), full(keep, mk), full(other, mo);
        auto q = std::move(t).persistent();
        full(q, m);
        out_all(q);
    }
    check_no_leaks();
}
