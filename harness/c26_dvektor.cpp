// The experimental dvektor against a plain array.
#include "common.hpp"
#include <immer/experimental/dvektor.hpp>
#ifndef SXB
#define SXB 2
#endif
#ifndef SXT
#define SXT uint64_t
#endif
#ifndef SXN
#define SXN 22
#endif
#ifndef SXK
#define SXK 3
#endif
#ifndef SXNK
#define SXNK 18
#endif
using V = immer::dvektor<SXT, SXB, sx_memory>;
static void compare(const V& v, const model& m)
{
    CHECKM(v.size() == m.size(), "size is wrong");
    CHECKM(v.empty() == (m.size() == 0), "empty is wrong");
    for (uint64_t i = 0; i < m.size(); i++) CHECKM(val(v[i]) == m[i], "an element is wrong");
}
static V build(uint64_t n, model& m)
{
    V v;
    for (uint64_t i = 0; i < n; i++) {
        auto x = fresh();
        m.push_back(x);
        v = v.push_back(SXT(x));
    }
    return v;
}
static V apply(const V& v, model& m)
{
    auto op = m.size() ? sx_choose("op", 0, 2) : 0;
    auto x = fresh();
    if (op == 0) { m.push_back(x); return v.push_back(SXT(x)); }
    auto i = sx_choose("i", 0, m.size() - 1);
    auto old = m[i];
    m.set(i, op == 1 ? x : old + x);
    if (op == 1) return v.assoc(i, SXT(x));
    return v.update(i, [&](const SXT& y) { return SXT(val(y) + x); });
}
// one value of any size
extern "C" void h_build()
{
    warm<V>();
    {
        model m;
        auto v = build(sx_choose("n", 0, SXN), m);
        compare(v, m);
        sx_out(m.size());
    }
    check_no_leaks();
}
// chains: every value so far stays what it was
extern "C" void h_chain()
{
    warm<V>();
    {
        model m[SXK + 1];
        V v[SXK + 1];
        v[0] = build(sx_choose("n", 0, SXNK), m[0]);
        for (int k = 1; k <= SXK; k++) {
            auto from = k == 1 ? 0 : sx_choose("from", 0, k - 1);
            m[k] = m[from];
            v[k] = apply(v[from], m[k]);
        }
        for (int k = 0; k <= SXK; k++) compare(v[k], m[k]);
        sx_out(m[SXK].size());
    }
    check_no_leaks();
}
// iteration, forwards, backwards and by jumps
extern "C" void h_iterate()
{
    warm<V>();
    {
        model m;
        auto v = build(sx_choose("n", 1, SXN), m);
        if (sx_choose("updated", 0, 1)) v = apply(v, m);
        uint64_t n = m.size();
        switch (sx_choose("how", 0, 3)) {
        case 0: {
            uint64_t i = 0;
            for (auto& x : v) { CHECKM(i < n && val(x) == m[i], "iteration is wrong"); i++; }
            CHECKM(i == n, "iteration is wrong");
            break;
        }
        case 1: {
            auto it = v.end();
            for (auto i = n; i--;) { --it; CHECKM(val(*it) == m[i], "backwards iteration is wrong"); }
            CHECK(it == v.begin());
            break;
        }
        case 2: {
            auto i = sx_choose("i", 0, n - 1), j = sx_choose("j", 0, n);
            auto it = v.begin() + i;
            CHECKM(val(*it) == m[i], "a jump is wrong");
            it += (std::ptrdiff_t) (j - i);
            CHECK(it - v.begin() == (std::ptrdiff_t) j);
            if (j < n) CHECKM(val(*it) == m[j], "a jump is wrong");
            CHECK((it == v.end()) == (j == n));
            break;
        }
        case 3: {
            auto i = sx_choose("i", 0, n - 1);
            auto it = v.end() - (std::ptrdiff_t) (n - i);
            CHECKM(val(*it) == m[i], "a jump from the end is wrong");
            if (i) { --it; CHECKM(val(*it) == m[i - 1], "a step after a jump is wrong"); ++it; }
            if (i + 1 < n) { ++it; CHECKM(val(*it) == m[i + 1], "a step after a jump is wrong"); }
            break;
        }
        }
        sx_out(n);
    }
    check_no_leaks();
}
extern "C" void h_empty()
{
    V v;
    CHECK(v.size() == 0 && v.empty());
    CHECK(v.begin() == v.end());
}
