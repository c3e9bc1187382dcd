// Iterators, equality and checked access of relaxed trees of several levels.
#define SXNOMAIN
#include "c09_iter.cpp"
#include "deep.hpp"
extern "C" void h_walk()
{
    warm<FLEX>();
    {
        model m;
        auto v = deep_value(m);
        walks(v, m);
        if (sx_choose("transient", 0, 1)) {
            auto t = v.transient();
            auto x = fresh();
            auto i = pos("i", 0, m.size() - 1, 2);
            t.set(i, SXT(x));
            auto m2 = m;
            m2.set(i, x);
            walks(t, m2);
            walks(v, m);
        }
        out_all(v);
    }
    check_no_leaks();
}
extern "C" void h_jump()
{
    warm<FLEX>();
    {
        model m;
        auto v = deep_value(m);
        jumps(v, m, 2);
    }
    check_no_leaks();
}
extern "C" void h_at()
{
    warm<FLEX>();
    {
        model m;
        auto v = deep_value(m);
        auto i = sx_sym(64, "index");
        bool threw = false;
        uint64_t got = 0;
        try {
            got = val(v.at(i));
        } catch (const std::out_of_range&) {
            threw = true;
        }
        CHECKM(threw == (i >= m.size()), "at throws exactly when the index is out of range");
        if (!threw) {
            auto e = m[0];
            for (uint64_t k = 1; k < m.size(); k++) e = i == k ? m[k] : e;
            CHECKM(got == e, "at yields another element");
        }
        sx_out(threw);
    }
    check_no_leaks();
}
extern "C" void h_equal()
{
    warm<FLEX>();
    {
        model m;
        auto v = deep_value(m);
        auto n = m.size();
        // the same elements in another shape, one of them perhaps another value
        auto c = pos("cut", 0, n, 2);
        auto p = sx_choose("other", 0, n);
        auto y = fresh();
        model r;
        for (uint64_t i = 0; i < n; i++) r.push_back(i == p ? y : m[i]);
        FLEX w;
        switch (sx_choose("how", 0, 3)) {
        case 0: w = v; if (p < n) w = w.set(p, SXT(y)); break;
        case 1: w = v.take(c) + v.drop(c); if (p < n) w = w.set(p, SXT(y)); break;
        case 2: for (uint64_t i = 0; i < n; i++) w = std::move(w).push_back(SXT(r[i])); break;
        default: {
            FLEX a, b;
            for (uint64_t i = 0; i < c; i++) a = std::move(a).push_back(SXT(r[i]));
            for (uint64_t i = c; i < n; i++) b = std::move(b).push_back(SXT(r[i]));
            w = a + b;
        }
        }
        bool eq = p == n || y == m[p];
        CHECKM((v == w) == eq && (w == v) == eq, "equality disagrees with the elements");
        CHECKM((v != w) == !eq, "inequality disagrees with the elements");
        auto u = w.push_back(SXT(y));
        CHECKM(!(u == v) && !(v == u), "values of different lengths compare equal");
        sx_out(v == w);
    }
    check_no_leaks();
}
