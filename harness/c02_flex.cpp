#include "seq.hpp"
using V = FLEX;
#ifndef SXPAIR
#define SXPAIR 30
#endif
#ifndef SXA
#define SXA 11
#endif
// every pair of lengths, with any prefix dropped from either side
extern "C" void h_pair()
{
    warm<V>();
    {
        model ml, mr;
        auto a = sx_choose("a", 0, SXPAIR), b = sx_choose("b", 0, SXPAIR);
        auto l = build_t<V>(a, ml), r = build_t<V>(b, mr);
        auto c = l + r;
        model m = ml;
        m.append(mr);
        same(c, m);
        same_iter(l, ml);
        same_iter(r, mr);
        out_all(c);
    }
    check_no_leaks();
}
// concatenations of concatenations of sliced parts
extern "C" void h_multi()
{
    warm<V>();
    {
        static const uint64_t len[] = {1, LEAF, LEAF + 1, LEAF * BRANCH, LEAF * BRANCH + LEAF + 1, LEAF * BRANCH * BRANCH / 2 + 1};
        model m;
        V v;
        for (int k = 0; k < SXPARTS; k++) {
            auto n = len[sx_choose("len", 0, 5)];
            model p;
            auto w = build_t<V>(n, p);
            switch (sx_choose("side", 0, 2)) {
            case 0: v = v + w; m.append(p); break;
            case 1: v = w + v; p.append(m); m = p; break;
            case 2: v = v.drop(n / 2) + w; m.drop(n / 2); m.append(p); break;
            }
        }
        same(v, m);
        auto x = fresh();
        auto u = v.push_back(SXT(x)).push_front(SXT(x));
        m.push_back(x);
        m.insert(0, x);
        same_iter(u, m);
        out_all(u);
    }
    check_no_leaks();
}
// slices of slices, then growing at both ends
extern "C" void h_slice()
{
    warm<V>();
    {
        auto n = sx_choose("n", 1, SXSLICE);
        model m;
        auto v = build_t<V>(n, m);
        auto d = sx_choose("d", 0, n), t = sx_choose("t", 0, n - d);
        bool df = sx_choose("drop first", 0, 1);
        auto w = df ? v.drop(d).take(t) : v.take(d + t).drop(d);
        model mw = m;
        mw.take(d + t);
        mw.drop(d);
        same(w, mw);
        auto u = w;
        for (uint64_t k = 0; k < LEAF + 1; k++) { auto x = fresh(); u = u.push_back(SXT(x)); mw.push_back(x); }
        same_iter(u, mw);
        auto c = u + v;
        mw.append(m);
        same(c, mw);
        same_iter(v, m);
        out_all(c);
    }
    check_no_leaks();
}
// one arbitrary operation on a sequence of any shape
extern "C" void h_op1()
{
    warm<V>();
    {
        model m, mo[2];
        auto v = shape<V>(m, SXA);
        V others[2] = {build_t<V>(1, mo[0]), build_t<V>(2 * LEAF + 1, mo[1])};
        auto s = choose_step(m.size(), true, false, 2);
        auto w = apply(v, s, others);
        apply(m, s, mo);
        same(w, m);
        out_all(w);
    }
    check_no_leaks();
}
// chains of operations
extern "C" void h_opn()
{
    warm<V>();
    {
        model m, mo[2];
        auto v = shape<V>(m, SXA2, S_REG | S_DROP | S_CAT, true);
        V others[2] = {build_t<V>(LEAF, mo[0]), build_t<V>(LEAF * 2 + 1, mo[1])};
        for (int k = 0; k < SXK; k++) {
            auto s = choose_step(m.size(), true, true, 2);
            v = apply(v, s, others);
            apply(m, s, mo);
        }
        same(v, m);
        auto x = fresh();
        v = v.push_back(SXT(x));
        m.push_back(x);
        same_iter(v, m);
        out_all(v);
    }
    check_no_leaks();
}
// set and update at an arbitrary position of a relaxed tree
extern "C" void h_set()
{
    warm<V>();
    {
        model m;
        auto v = shape<V>(m, SXA, S_ALL & ~S_FRONT);
        auto n = m.size();
        if (!n) return;
        auto i = sx_range("i", 0, n - 1);
        auto y = fresh("y");
        bool u = sx_choose("op", 0, 1);
        auto w = u ? v.update(i, updater<SXT>{y}) : v.set(i, SXT(y));
        for (uint64_t j = 0; j < n; j++) {
            CHECKM(val(w[j]) == (i == j ? (u ? upd(m[j], y) : y) : m[j]), "set/update result differs from the plain array");
            CHECKM(val(v[j]) == m[j], "set/update changed the original");
        }
        CHECK(val(v.at(i)) == val(v[i]));
        out_all(w);
    }
    check_no_leaks();
}
