// Trees of several levels whose nodes may be underfull and may be owned by
// the transient itself.
#pragma once
#include "seq.hpp"
// n elements built through the transient or before it, some dropped, some put
// in front of them
[[maybe_unused]] static FLEX::transient_type half(model& m, FLEX& keep, model& km, uint64_t n, uint64_t d, uint64_t k, bool own)
{
    FLEX::transient_type t;
    if (own) {
        for (uint64_t i = 0; i < n; i++) { auto x = fresh(); t.push_back(SXT(x)); m.push_back(x); }
        t.drop(d);
        m.drop(d);
    } else {
        keep = build_t<FLEX>(n, m).drop(d);
        m.drop(d);
        km = m;
        t = keep.transient();
    }
    if (k) {
        model f;
        auto u = build_t<FLEX>(k, f).transient();
        t.prepend(std::move(u));
        f.append(m);
        m = f;
    }
    return t;
}
// a relaxed value of two to four levels
#ifndef SXDN
#define SXDN {11, 21, 37}
#endif
[[maybe_unused]] static FLEX deep_value(model& m)
{
    static const uint64_t ns[] = SXDN, ds[] = {0, 1, 6}, ks[] = {0, 1, 9}, as[] = {0, 2 * LEAF + 1};
    auto n = ns[sx_choose("n", 0, sizeof(ns) / sizeof(*ns) - 1)], d = ds[sx_choose("d", 0, 2)], k = ks[sx_choose("front", 0, 2)], a = as[sx_choose("back", 0, 1)];
    FLEX v = build_t<FLEX>(n, m).drop(d);
    m.drop(d);
    if (k) {
        model f;
        v = build_t<FLEX>(k, f) + v;
        f.append(m);
        m = f;
    }
    if (a) {
        model b;
        v = v + build_t<FLEX>(a, b);
        m.append(b);
    }
    return v;
}
