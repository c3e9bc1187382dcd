// Equality of values built along different routes.
#include "hist.hpp"
#include "hashc.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#ifndef SXA
#define SXA 9
#endif
#ifndef SXN
#define SXN 24
#endif
// branch-free: are the plain arrays equal?
static bool mequal(const model& a, const model& b)
{
    if (a.size() != b.size()) return false;
    uint64_t d = 0;
    for (uint64_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i];
    return d == 0;
}
template <typename V>
static void agree(const V& a, const model& ma, const V& b, const model& mb)
{
    bool e = a == b;
    CHECKM(e == mequal(ma, mb), "== differs from comparing the contents");
    CHECKM((b == a) == e, "== is not symmetric");
    CHECKM((a != b) == !e, "!= is not the negation of ==");
    sx_reach(e ? "equal" : "unequal");
    sx_out(e);
}
// the contents of `m` with element p replaced, in a given shape
template <typename V>
static std::enable_if_t<!is_flex<V>::value, V> rebuild(const model& m, uint64_t p, uint64_t y, model& r, int)
{
    V v;
    for (uint64_t i = 0; i < m.size(); i++) { auto x = i == p ? y : m[i]; v = std::move(v).push_back(typename V::value_type(x)); r.push_back(x); }
    return v;
}
template <typename V>
static std::enable_if_t<is_flex<V>::value, V> rebuild(const model& m, uint64_t p, uint64_t y, model& r, int)
{
    using T = typename V::value_type;
    for (uint64_t i = 0; i < m.size(); i++) r.push_back(i == p ? y : m[i]);
    auto n = r.size();
    auto part = [&](uint64_t lo, uint64_t hi) {
        auto t = V{}.transient();
        for (uint64_t i = lo; i < hi; i++) t.push_back(T(r[i]));
        return t.persistent();
    };
    switch (sx_choose("rebuilt by", 0, 4)) {
    case 0: return part(0, n);
    case 1: { auto k = pos("cut", 0, n, true); return part(0, k) + part(k, n); }
    case 2: { // elements in front that are dropped again
        auto k = sx_choose("surplus", 1, 3 * LEAF);
        V s;
        for (uint64_t i = 0; i < k; i++) s = std::move(s).push_back(T(7));
        return (s + part(0, n)).drop(k);
    }
    case 3: { // elements behind that are taken off again
        auto v = part(0, n);
        auto k = sx_choose("surplus", 1, 3 * LEAF);
        for (uint64_t i = 0; i < k; i++) v = v.push_back(T(9));
        return v.take(n);
    }
    default: { V v; for (uint64_t i = n; i-- > 0;) v = v.push_front(T(r[i])); return v; }
    }
}
// the same contents up to one arbitrary element, other shape
template <typename V>
static void rebuilt(unsigned kinds, uint64_t a)
{
    warm<V>();
    {
        model m, r;
        auto v = shape<V>(m, a, kinds, true);
        auto p = m.size() ? sx_choose("p", 0, m.size()) : 0;
        auto y = fresh("y");
        auto w = rebuild<V>(m, p, y, r, 0);
        agree(v, m, w, r);
        // one longer, one shorter
        auto w1 = w.push_back(typename V::value_type(y));
        model r1 = r;
        r1.push_back(y);
        agree(v, m, w1, r1);
        if (r.size()) {
            auto w2 = w.take(r.size() - 1);
            r.take(r.size() - 1);
            agree(v, m, w2, r);
        }
    }
    check_no_leaks();
}
// a value and one derived from it
template <typename V>
static void derived(unsigned kinds, uint64_t a)
{
    warm<V>();
    {
        constexpr bool flex = is_flex<V>::value;
        model m, mo[1];
        auto v = shape<V>(m, a, kinds, true);
        V others[1] = {build_t<V>(flex ? LEAF + 1 : 0, mo[0])};
        model w = m;
        auto s = choose_step(m.size(), flex, true, 1);
        auto u = apply(v, s, others);
        apply(w, s, mo);
        agree(v, m, u, w);
        if (s.op == ASSIGN || s.op == UPDATE) { // and back again
            auto z = u.set(s.i, typename V::value_type(m[s.i]));
            agree(v, m, z, m);
        }
        V c(v);
        agree(v, m, c, m);
    }
    check_no_leaks();
}
// any two lengths, elements compared at their own positions
template <typename V>
static void lengths(uint64_t n)
{
    warm<V>();
    {
        model ma, mb;
        auto i = sx_choose("a", 0, n), j = sx_choose("b", 0, n);
        auto a = build_c<V>(i, ma, 100), b = build_c<V>(j, mb, 100);
        agree(a, ma, b, mb);
        if (i == j && i) {
            auto p = sx_choose("p", 0, i - 1);
            auto y = fresh("y");
            b = b.set(p, typename V::value_type(y));
            mb.set(p, y);
            agree(a, ma, b, mb);
        }
    }
    check_no_leaks();
}
#ifndef SXCUT
#define SXCUT 26
#endif
#ifndef SXSH
#define SXSH 13
#endif
#ifndef SXPROBES
#define SXPROBES 5
#endif
// the same contents joined from two parts at two different places, with
// elements in front that were dropped again, up to one arbitrary element
template <typename V>
static void cuts()
{
    using T = typename V::value_type;
    warm<V>();
    {
        auto part = [&](uint64_t lo, uint64_t hi) {
            auto t = V{}.transient();
            for (uint64_t i = lo; i < hi; i++) t.push_back(T(100 + i));
            return t.persistent();
        };
        auto n = sx_choose("n", 1, SXCUT), a = sx_choose("a", 0, n), b = sx_choose("b", 0, n);
        model m, r;
        for (uint64_t i = 0; i < n; i++) { m.push_back(100 + i); r.push_back(100 + i); }
        auto v = part(0, a) + part(a, n), w = part(0, b) + part(b, n);
        if (sx_choose("dropped", 0, 1)) w = (part(0, LEAF * BRANCH + 1) + part(0, b)).drop(LEAF * BRANCH + 1) + part(b, n);
        auto p = sx_choose("p", 0, SXPROBES);
        p = p == SXPROBES ? n : p * n / SXPROBES; // no element, or this one
        if (p < n) {
            auto y = fresh("y");
            w = w.set(p, T(y));
            r.set(p, y);
        }
        agree(v, m, w, r);
        same_iter(w, r);
    }
    check_no_leaks();
}
// the same, joined from parts of one value, which they share
template <typename V>
static void shared()
{
    using T = typename V::value_type;
    warm<V>();
    {
        auto n = sx_choose("n", 1, SXSH);
        model m, r;
        auto t = V{}.transient();
        for (uint64_t i = 0; i < n; i++) { m.push_back(100 + i); r.push_back(100 + i); t.push_back(T(100 + i)); }
        V u = t.persistent();
        if (sx_choose("relaxed", 0, 1)) {
            auto k = sx_choose("k", 1, n);
            u = u.take(k) + u.drop(k);
        }
        auto a = sx_choose("a", 0, n), b = sx_choose("b", a, n);
        // the parts [0, a), [a, b) and [b, n), the one in the middle again
        V w = u.take(a) + u.drop(a);
        V x = u.take(b) + u.drop(b);
        auto p = sx_choose("p", 0, SXPROBES);
        p = p == SXPROBES ? n : p * n / SXPROBES; // no element, or this one
        if (p < n) {
            auto y = fresh("y");
            x = x.set(p, T(y));
            r.set(p, y);
        }
        agree(w, m, x, r);
        agree(u, m, x, r);
        agree(u, m, w, m);
    }
    check_no_leaks();
}
#ifndef SXHASHONLY
extern "C" void h_flex_cuts() { cuts<FLEX>(); }
extern "C" void h_flex_shared() { shared<FLEX>(); }
extern "C" void h_vector_lengths() { lengths<VEC>(SXN); }
extern "C" void h_vector_rebuilt() { rebuilt<VEC>(S_REG | S_TAKE, SXA); }
extern "C" void h_vector_derived() { derived<VEC>(S_REG | S_TAKE, SXA); }
extern "C" void h_flex_lengths() { lengths<FLEX>(SXN); }
extern "C" void h_flex_rebuilt() { rebuilt<FLEX>(S_REG | S_DROP | S_CAT | S_CATDROP, SXA); }
extern "C" void h_flex_derived() { derived<FLEX>(S_REG | S_DROP | S_CAT | S_CATDROP, SXA); }
#ifdef SXARRAY
using ARR = immer::array<SXT, SXMEM>;
extern "C" void h_array_lengths() { lengths<ARR>(7); }
extern "C" void h_array_derived() { derived<ARR>(S_REG | S_TAKE, 6); }
extern "C" void h_box()
{
    warm<>();
    {
        auto x = fresh(), y = fresh();
        immer::box<SXT, SXMEM> a{SXT(x)}, b{SXT(y)}, c = a;
        CHECK((a == b) == (x == y));
        CHECK((a != b) == (x != y));
        CHECK((a == c) && !(a != c));
        CHECK((a == SXT(y)) == (x == y));
        CHECK((SXT(y) == a) == (x == y));
        CHECK((a != SXT(y)) == (x != y));
        CHECK((SXT(y) != a) == (x != y));
    }
    check_no_leaks();
}
#endif
#endif
#ifdef SXHASHONLY
// two containers over the same keys: contents chosen independently, in
// another insertion order, with keys erased again
template <typename C>
static bool hequal(const amodel& a, const amodel& b)
{
    uint64_t d = 0;
    for (unsigned i = 0; i <= SXP; i++) {
        if (a.e[i].in != b.e[i].in) return false;
        if (a.e[i].in && !std::is_same<C, SET>::value) d |= a.e[i].v ^ b.e[i].v;
    }
    return d == 0;
}
template <typename C>
static void hagree(const C& a, const amodel& ma, const C& b, const amodel& mb)
{
    bool e = a == b;
    CHECKM(e == hequal<C>(ma, mb), "== differs from comparing the contents");
    CHECKM((b == a) == e, "== is not symmetric");
    CHECKM((a != b) == !e, "!= is not the negation of ==");
    sx_reach(e ? "equal" : "unequal");
    sx_out(e);
}
template <typename C>
static void hrebuilt()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel ma, mb;
        auto n = sx_choose("n", 0, SXP);
        p.used = SXP;
        C a = hbuild<C>(p, ma, n), b;
        // b: inserted backwards from some key on, then one surplus key erased
        auto from = n ? sx_choose("from", 0, n - 1) : 0;
        auto odd = sx_choose("odd", 0, SXP); // this key gets another value
        auto extra = sx_choose("extra", 0, SXP); // erased or put in between
        if (extra < SXP) b = b.insert(hk<C>::make(p[extra], 5)), mb.e[extra] = kv{true, std::is_same<C, SET>::value ? 0u : 5u};
        for (unsigned i = 0; i < n; i++) {
            auto k = (from + n - i) % n;
            auto x = k == odd ? fresh("y") : ma.e[k].v;
            if (std::is_same<C, SET>::value) x = 0;
            b = std::move(b).insert(hk<C>::make(p[k], x));
            mb.e[k] = kv{true, x};
        }
        if (extra < SXP && sx_choose("erase", 0, 1)) { b = b.erase(p[extra]); mb.e[extra] = kv{}; }
        hagree<C>(a, ma, b, mb);
    }
    check_no_leaks();
}
template <typename C>
static void hderived()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel ma;
        auto n = sx_choose("n", 0, SXSTART);
        C a = hbuild<C>(p, ma, n);
        p.used = n;
        auto mb = ma;
        auto s = hchoose<C>(p);
        C b = happly<C>(static_cast<const C&>(a), p, s);
        happly<C>(mb, s);
        hagree<C>(a, ma, b, mb);
        auto s2 = hchoose<C>(p, 1u << PUT | 1u << DEL);
        C c = happly<C>(static_cast<const C&>(b), p, s2);
        auto mc = mb;
        happly<C>(mc, s2);
        hagree<C>(a, ma, c, mc);
        hagree<C>(b, mb, c, mc);
    }
    check_no_leaks();
}
extern "C" void h_map_rebuilt() { hrebuilt<MAP>(); }
extern "C" void h_set_rebuilt() { hrebuilt<SET>(); }
extern "C" void h_table_rebuilt() { hrebuilt<TABLE>(); }
extern "C" void h_map_derived() { hderived<MAP>(); }
extern "C" void h_set_derived() { hderived<SET>(); }
extern "C" void h_table_derived() { hderived<TABLE>(); }
#endif
