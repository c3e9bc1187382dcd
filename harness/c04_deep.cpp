// Joining transients and r-values of several levels, whose nodes may be
// underfull and may be owned by the transient itself, then using the result.
#include "deep.hpp"
#ifndef SXN1
#define SXN1 {1, 3, 8, 11, 13}
#define SXD1 {0, 1, 6}
#define SXP1 {0, 1, 5}
#define SXN2 {1, 5, 11}
#define SXD2 {0, 3, 6}
#define SXP2 {0, 2}
#endif
using V = FLEX;
using TR = V::transient_type;
static const uint64_t n1[] = SXN1, d1[] = SXD1, p1[] = SXP1, n2[] = SXN2, d2[] = SXD2, p2[] = SXP2;
#define PICK(name, a) a[sx_choose(name, 0, sizeof(a) / sizeof(*a) - 1)]
static void use(TR& t, model& m)
{
    switch (sx_choose("use", 0, 4)) {
    case 0: {
        auto x = fresh();
        t.push_back(SXT(x));
        m.push_back(x);
        break;
    }
    case 1: {
        for (uint64_t i = 0; i < m.size(); i++) { auto x = fresh(); t.set(i, SXT(x)); m.set(i, x); }
        break;
    }
    case 2: {
        auto k = m.size() / 2;
        t.take(k);
        m.take(k);
        break;
    }
    case 3: {
        auto k = m.size() / 3;
        t.drop(k);
        m.drop(k);
        break;
    }
    case 4: {
        model f, g;
        V none;
        auto u = half(f, none, g, LEAF + 1, 0, 0, true);
        t.append(std::move(u));
        m.append(f);
        break;
    }
    }
}
extern "C" void h_join()
{
    warm<V>();
    {
        model ml, mr, ka, kb;
        V a, b, mid;
        auto t = half(ml, a, ka, PICK("n", n1), PICK("d", d1), PICK("front", p1), sx_choose("own", 0, 1));
        auto u = half(mr, b, kb, PICK("n", n2), PICK("d", d2), PICK("front", p2), sx_choose("own", 0, 1));
        model m, mm;
        bool consume = sx_choose("consume", 0, 1), middle = sx_choose("middle", 0, 1);
        if (middle) { mid = t.persistent(); mm = ml; }
        if (sx_choose("prepend", 0, 1)) {
            if (consume) t.prepend(std::move(u)); else t.prepend(u);
            m = mr;
            m.append(ml);
        } else {
            if (consume) t.append(std::move(u)); else t.append(u);
            m = ml;
            m.append(mr);
        }
        same_index(t, m);
        auto p = t.persistent();
        auto pm = m;
        use(t, m);
        same_index(t, m), same_iter(t, m);
        if (!consume) {
            auto x = fresh();
            u.push_back(SXT(x));
            mr.push_back(x);
            same_iter(u, mr);
        }
        same_iter(p, pm);
        same_iter(mid, mm);
        same_iter(a, ka), same_iter(b, kb);
        out_all(p);
    }
    check_no_leaks();
}
// the same with r-values
extern "C" void h_sum()
{
    warm<V>();
    {
        model ml, mr, ka, kb;
        V a, b;
        V l = half(ml, a, ka, PICK("n", n1), PICK("d", d1), PICK("front", p1), sx_choose("own", 0, 1)).persistent();
        V r = half(mr, b, kb, PICK("n", n2), PICK("d", d2), PICK("front", p2), sx_choose("own", 0, 1)).persistent();
        V l0, r0, c;
        model ml0, mr0;
        auto how = sx_choose("how", 1, 3);
        if (sx_choose("shared", 0, 1)) { l0 = l; r0 = r; ml0 = ml; mr0 = mr; }
        switch (how) {
        case 1: c = std::move(l) + r; break;
        case 2: c = l + std::move(r); break;
        case 3: c = std::move(l) + std::move(r); break;
        }
        model m = ml;
        m.append(mr);
        same_index(c, m);
        if (!(how & 1)) same_iter(l, ml);
        if (!(how & 2)) same_iter(r, mr);
        auto k = m.size() / 2;
        V e = std::move(c).drop(k / 2).take(k);
        m.drop(k / 2);
        m.take(k);
        same_iter(e, m);
        auto x = fresh();
        e = std::move(e).push_back(SXT(x));
        m.push_back(x);
        same_index(e, m);
        same_iter(l0, ml0), same_iter(r0, mr0);
        same_iter(a, ka), same_iter(b, kb);
        out_all(e);
    }
    check_no_leaks();
}
