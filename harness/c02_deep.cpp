// One operation at every position of relaxed trees of several levels.
#include "deep.hpp"
using V = FLEX;
#ifndef SXMODES
#define SXMODES {0, 1, 2, 3}
#endif
extern "C" void h_op()
{
    warm<V>();
    {
        static const int modes[] = SXMODES;
        model m0, mo[2];
        auto v = deep_value(m0);
        auto m = m0;
        V o[2];
        o[0] = build_t<V>(LEAF + 1, mo[0]);
        o[1] = build_t<V>(LEAF * BRANCH + 3, mo[1]).drop(1);
        mo[1].drop(1);
        unsigned simple = 1u << PUSH | 1u << ASSIGN | 1u << TAKE | 1u << PUSHF | 1u << DROP | 1u << INS | 1u << ERASE;
        bool many = sx_choose("range or value", 0, 1);
        auto s = choose_step(m.size(), true, many ? 1 : 0, 2, many ? ~simple : simple);
        auto mode = modes[sx_choose("mode", 0, sizeof(modes) / sizeof(*modes) - 1)];
        if (mode == 3 && !(TR_FLEX >> s.op & 1)) mode = 2;
        apply(m, s, mo);
        V w;
        bool gone = false;
        switch (mode) {
        case 0: w = apply(v, s, o); break;
        case 1: gone = true; { V c[2] = {o[0], o[1]}; w = apply_move(std::move(v), s, c, s.op == CATR || s.op == CATL || s.op == CATSELF || s.op == INSV ? 2 : 0); } break;
        case 2: w = apply_move(V(v), s, o, 0); break;
        case 3: {
            auto t = v.transient();
            auto x = fresh();
            if (m0.size()) { t.set(m0.size() / 2, SXT(x)); t.set(m0.size() / 2, SXT(m0[m0.size() / 2])); }
            auto u = o[s.o].transient();
            apply_tr<V>(t, s, &u, false);
            w = std::move(t).persistent();
        } break;
        }
        same_index(w, m);
        if (!gone) same_index(v, m0);
        for (int i = 0; i < 2; i++) same_index(o[i], mo[i]);
        auto x = fresh();
        w = std::move(w).push_back(SXT(x));
        m.push_back(x);
        same_iter(w, m);
        if (!gone) same_iter(v, m0);
        out_all(w);
    }
    check_no_leaks();
}
// the default branching, with enough elements for all the levels
#ifndef SXBIGN
#define SXBIGN {70, 137}
#endif
extern "C" void h_big()
{
    warm<V>();
    {
        static const uint64_t ns[] = SXBIGN;
        model m;
        auto n = ns[sx_choose("n", 0, sizeof(ns) / sizeof(*ns) - 1)];
        auto d = sx_choose("d", 0, 1);
        auto v = build_t<V>(n, m).drop(d);
        m.drop(d);
        n -= d;
        const uint64_t F = LEAF * BRANCH, ps[] = {0, 1, LEAF, F - 1, F, n / 2, n - LEAF, n - 1};
        auto p = ps[sx_choose("p", 0, 7)];
        if (p > n) p = n;
        model mo, r = m;
        auto o = build_t<V>(F + LEAF + 3, mo).drop(1);
        mo.drop(1);
        bool own = sx_choose("own", 0, 1);
        auto x = fresh();
        V w, c = own ? std::move(v) : v;
        auto half = [&](bool left) { return left ? V(c).take(p) : V(c).drop(p); };
        switch (sx_choose("op", 0, 6)) {
        case 0: w = c + c; r.append(m); break;
        case 1: w = half(true) + half(false); break;
        case 2: { auto f = half(false); model mf = m; mf.drop(p); w = std::move(f) + (own ? V(std::move(c)) : c); mf.append(m); r = mf; break; }
        case 3: w = std::move(c).insert(p, SXT(x)); r.take(p); r.push_back(x); { model t = m; t.drop(p); r.append(t); } break;
        case 4: w = std::move(c).erase(p); r.take(p); { model t = m; t.drop(p + 1); r.append(t); } break;
        case 5: w = std::move(c).take(p) + o; r.take(p); r.append(mo); break;
        default: w = o + std::move(c).drop(p); r = mo; { model t = m; t.drop(p); r.append(t); } break;
        }
        same_index(w, r);
        if (!own) same_index(v, m);
        for (uint64_t i = 0; i < LEAF + 1; i++) { auto y = fresh(); w = std::move(w).push_back(SXT(y)); r.push_back(y); }
        w = std::move(w).drop(1);
        r.drop(1);
        same_iter(w, r);
        same_index(o, mo);
        out_all(w);
    }
    check_no_leaks();
}
