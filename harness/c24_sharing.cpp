// What operations copy and allocate, and what they share.
#ifdef SXHASHONLY
#include "hashc.hpp"
#else
#include "seq.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#endif
#include <immer/box.hpp>
#ifndef SXVN
#define SXVN 24
#endif
#ifndef SXFN
#define SXFN 12
#endif
struct meter
{
    uint64_t c = g_copies, a = g_allocs, m = g_moves;
    uint64_t copies() const { return g_copies - c; }
    uint64_t allocs() const { return g_allocs - a; }
    bool nothing() const { return !copies() && !allocs() && g_moves == m; }
};
template <typename V>
static auto ident(const V& v) -> decltype(v.identity()) { return v.identity(); }
#ifdef SXHASHONLY
static const void* ident(const TABLE& v) { return v.impl().root; }
#endif
template <typename V>
static void shallow(V& v)
{
    meter k;
    V w = v;
    V x = std::move(w);
    w = x;
    w = std::move(x);
    using std::swap;
    swap(w, x);
    x = v;
    { auto t = v.transient(); auto t2 = t; auto t3 = std::move(t2); t2 = t3; t2 = std::move(t3); V y = t.persistent(); V z = std::move(t).persistent(); w = y; }
    { auto t = std::move(w).transient(); w = t.persistent(); }
    CHECKM(k.nothing(), "copying or moving a container copies elements or allocates");
    CHECKM(ident(w) == ident(v), "a copy does not have the identity of its original");
    CHECK(w == v);
}
#ifndef SXHASHONLY
// levels of nodes on a path, leaf included
constexpr uint64_t levels(uint64_t n)
{
    uint64_t h = 1, cap = LEAF;
    do { cap *= BRANCH; ++h; } while (cap < n);
    return h;
}
template <typename V>
static uint64_t moved_places(const V& a, const V& b, uint64_t aoff, uint64_t boff, uint64_t n)
{
    uint64_t c = 0;
    for (uint64_t i = 0; i < n; i++) c += &a[aoff + i] != &b[boff + i];
    return c;
}
template <typename V> struct is_array : std::false_type {};
template <typename T, typename M> struct is_array<immer::array<T, M>> : std::true_type {};
// an equal value that shares nothing
template <typename V>
static std::enable_if_t<!is_flex<V>::value, V> build_t_again(const V& v)
{
    auto t = V{}.transient();
    for (auto& x : v) t.push_back(x);
    return std::move(t).persistent();
}
template <typename V>
static std::enable_if_t<is_flex<V>::value, V> build_t_again(const V& v)
{
    // a relaxed tree: pieces put together
    using T = typename V::value_type;
    V r, p;
    uint64_t k = 0;
    for (auto& x : v) {
        p = std::move(p).push_back(T(val(x)));
        if (++k % (LEAF + 1) == 0) { r = std::move(r) + std::move(p); p = V{}; }
    }
    return std::move(r) + std::move(p);
}
template <typename V>
static std::enable_if_t<is_flex<V>::value> slices(V& v, uint64_t n, uint64_t lim, uint64_t path)
{
    {
        auto d = sx_choose("drop", 0, n + 1);
        meter k;
        auto w = v.drop(d);
        CHECKM(k.copies() <= lim && k.allocs() <= path, "drop copies more than a leaf or allocates more than a path");
        if (d < n) CHECKM(moved_places(v, w, d, 0, n - d) <= lim, "drop shares too little");
        if (d == 0) CHECKM(k.nothing() && ident(w) == ident(v), "dropping nothing does not return the same identity");
        // owned
        auto u = build_t_again(v);
        meter o;
        auto z = std::move(u).drop(d);
        CHECKM(o.copies() == 0, "drop of a value nobody else has copies elements");
        CHECK(z == w);
    }
    {
        auto e = build_t_again(V{});
        meter k;
        auto x = v + e, y = e + v;
        CHECKM(k.nothing() && ident(x) == ident(v) && ident(y) == ident(v), "appending nothing does not return the same identity");
    }
}
template <typename V>
static std::enable_if_t<!is_flex<V>::value> slices(V&, uint64_t, uint64_t, uint64_t) {}
template <typename V>
static void sharing(uint64_t n1, unsigned kinds)
{
    using T = SXT;
    {
        model m;
        V v = shape<V>(m, n1, kinds, true);
        const uint64_t n = m.size();
        const bool arr = is_array<V>::value;
        const uint64_t lim = arr ? n : LEAF;
        // relaxed nodes come with a table; concatenation may leave a taller tree
        const uint64_t path = arr ? 1 : is_flex<V>::value ? 2 * (levels(n + 1) + 2) : levels(n + 1) + 1;
        shallow(v);
        switch (sx_choose("op", 0, is_flex<V>::value ? 4 : 3)) {
        case 0: if (n) { // set and update
            auto i = sx_choose("i", 0, n - 1);
            auto x = fresh();
            {
                meter k;
                auto w = v.set(i, T(x));
                CHECKM(k.copies() <= lim && k.allocs() <= path, "set copies more than a leaf or allocates more than a path");
                CHECKM(moved_places(v, w, 0, 0, n) <= lim, "set shares too little");
            }
            {
                meter k;
                auto w = v.update(i, [&](const T&) { return T(x); });
                CHECKM(k.copies() <= lim && k.allocs() <= path, "update copies more than a leaf or allocates more than a path");
                CHECKM(moved_places(v, w, 0, 0, n) <= lim, "update shares too little");
            }
            auto j = sx_choose("j", 0, n - 1);
            {
                // the second time, the path is owned
                auto t = v.transient();
                t.set(i, T(x));
                meter k;
                t.set(i, T(x + 1));
                t.update(i, [&](T&& e) { return T(val(e) + 1); });
                CHECKM(k.copies() == 0 && k.allocs() == 0, "setting an element a transient owns copies or allocates");
                meter k2;
                t.set(j, T(x));
                CHECKM(k2.copies() <= lim && k2.allocs() <= path, "set copies more than a leaf or allocates more than a path");
            }
            auto u = build_t_again(v);
            {
                meter k;
                auto places = &u[j];
                u = std::move(u).set(i, T(x));
                u = std::move(u).update(j, [&](T&& e) { return T(val(e) + 1); });
                CHECKM(k.copies() == 0 && k.allocs() == 0 && &u[j] == places, "set or update of a value nobody else has copies or allocates");
            }
            break;
        }
        break;
        case 1: { // push_back
            meter k;
            auto w = v.push_back(T(7));
            CHECKM(k.copies() <= lim && k.allocs() <= path, "push_back copies more than a leaf or allocates more than a path");
            CHECKM(moved_places(v, w, 0, 0, n) <= lim, "push_back shares too little");
            auto u = build_t_again(v);
            for (uint64_t i = 0; i < LEAF + 1; i++) {
                meter o;
                u = std::move(u).push_back(T(i));
                CHECKM((arr || o.copies() == 0) && o.allocs() <= path, "push_back to a value nobody else has copies elements");
            }
            auto t = v.transient();
            t.push_back(T(1));
            for (uint64_t i = 0; i < LEAF + 1; i++) {
                meter o;
                t.push_back(T(i));
                CHECKM((arr || o.copies() == 0) && o.allocs() <= path, "push_back to an owned transient copies elements");
            }
            break;
        }
        case 2: { // take
            auto d = sx_choose("take", 0, n + 1);
            meter k;
            auto w = v.take(d);
            CHECKM(k.copies() <= lim && k.allocs() <= path, "take copies more than a leaf or allocates more than a path");
            if (!arr) CHECKM(moved_places(v, w, 0, 0, d < n ? d : n) <= lim, "take shares too little");
            if (d >= n) CHECKM(k.nothing() && ident(w) == ident(v), "taking everything does not return the same identity");
            auto u = build_t_again(v);
            meter o;
            auto z = std::move(u).take(d);
            CHECKM(o.copies() == 0, "take of a value nobody else has copies elements");
            auto t = build_t_again(v).transient();
            meter o2;
            t.take(d);
            CHECKM(o2.copies() == 0, "take of an owned transient copies elements");
            CHECK(z == w && t.persistent() == w);
            break;
        }
        case 3: { // the tail of a long series of transient operations stays owned
            auto t = v.transient();
            uint64_t c0 = g_copies;
            for (uint64_t i = 0; i < 3 * LEAF; i++) t.push_back(T(i));
            for (uint64_t i = 0; i < 3 * LEAF; i++) t.set(n + i, T(i + 1));
            CHECKM(arr || g_copies - c0 <= LEAF, "a transient copies what it owns");
            auto p = t.persistent();
            CHECK(p.size() == n + 3 * LEAF && val(p[n]) == 1);
            break;
        }
        case 4: slices(v, n, lim, path); break;
        }
        sx_out(n);
    }
}
#ifdef SXARRAY
extern "C" void h_array() { sharing<immer::array<SXT, SXMEM>>(8, S_REG | S_TAKE); }
#else
extern "C" void h_vector() { sharing<VEC>(SXVN, S_REG | S_TAKE); }
extern "C" void h_flex() { sharing<FLEX>(SXFN, S_REG | S_DROP | S_CAT | S_CATDROP); }
#endif
#else
template <unsigned B = SXB>
static unsigned digit(uint64_t h, unsigned d) { return (unsigned) (h >> (d * B)) & ((1u << B) - 1); }
constexpr unsigned MAXD = (64 + SXB - 1) / SXB; // collision nodes lie at this depth
static unsigned lcp(uint64_t a, uint64_t b)
{
    unsigned r = 0, on = 1;
    for (unsigned d = 0; d < MAXD; d++) { on &= digit(a, d) == digit(b, d); r += on; }
    return r;
}
template <typename C>
static void places(const C& c, const pool& p, const amodel& m, const void** at)
{
    for (unsigned i = 0; i < SXP; i++) at[i] = m.e[i].in ? where(c, p[i]) : nullptr;
}
// Entries outside the nodes on the path of `k` stay where they are; at most
// the others are copied, each once.
template <typename C>
static void frame(const char* msg, const C& b, const pool& p, const amodel& m, const void** at, unsigned k)
{
    for (unsigned j = 0; j < SXP; j++) {
        if (!m.e[j].in || j == k) continue;
        unsigned depth = 0;
        for (unsigned i = 0; i < SXP; i++) if (i != j && m.e[i].in) { auto l = lcp(p.h[i], p.h[j]); depth = l > depth ? l : depth; }
        auto onpath = depth <= lcp(p.h[j], p.h[k]);
        auto* q = where(b, p[j]);
        if (!q) continue;
        sx_check(onpath | (q == at[j]), msg);
    }
}
// an equal value that shares nothing
template <typename C>
static C hbuild_again(const C& c)
{
    auto t = C{}.transient();
    for (auto& x : c) t.insert(x);
    return std::move(t).persistent();
}
template <typename C>
static void sharing()
{
    using K = hk<C>;
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = (unsigned) sx_choose("n", 0, SXP - 1);
        C v = hbuild<C>(p, m, n);
        p.used = n;
        shallow(v);
        auto k = (unsigned) sx_choose("key", 0, n);
        auto x = fresh();
        const void* at[SXP];
        places(v, p, m, at);
        // copies of keys and values both count
        const uint64_t per = (std::is_same<C, SET>::value ? 1 : 2);
        // table_key_fn copies keys to compare and hash them
        const uint64_t args = std::is_same<C, TABLE>::value ? 1000 : per;
        const uint64_t lim = per * (n + 1);
        unsigned deep = 0;
        for (unsigned i = 0; i < n; i++) if (i != k) { auto l = lcp(p.h[i], p.h[k]); deep = l > deep ? l : deep; }
        const uint64_t path = 2 * (deep + 2);
        auto e = K::make(p[k], x); // copied into the container at most twice
        switch (sx_choose("op", 0, 3)) {
        case 0: {
            meter c;
            auto w = v.insert(e);
            CHECKM(c.allocs() <= path, "insert allocates more than a path");
            CHECKM(c.copies() <= lim + 2 * args, "insert copies more than the nodes on a path");
            frame("insert copies entries outside its path", w, p, m, at, k);
            C u = w, y = hbuild_again(w);
            (void) u;
            meter o;
            auto* q = where(y, p[k]);
            y = std::move(y).insert(e);
            CHECKM(o.allocs() == 0, "replacing an entry of a value nobody else has allocates");
            CHECKM(o.copies() <= args, "replacing an entry of a value nobody else has copies");
            CHECKM(where(y, p[k]) == q, "replacing an entry of a value nobody else has moves it elsewhere");
            break;
        }
        case 1: {
            meter c;
            auto w = v.erase(p[k]);
            CHECKM(c.allocs() <= path, "erase allocates more than a path");
            CHECKM(c.copies() <= lim + per, "erase copies more than the nodes on a path");
            frame("erase copies entries outside its path", w, p, m, at, k);
            if (k >= n) CHECKM((c.copies() <= 1 || args == 1000) && !c.allocs() && ident(w) == ident(v), "erasing an absent key does not return the same identity");
            auto y = hbuild_again(v);
            auto key_ = p[k];
            meter o;
            auto id = ident(y);
            y = std::move(y).erase(key_);
            CHECKM(o.copies() == 0 || k < n || args == 1000, "erasing an absent key copies");
            if (k >= n) CHECKM(ident(y) == id && !o.allocs(), "erasing an absent key does not return the same identity");
            break;
        }
        case 2: {
            meter c;
            auto w = K::upd(v, p[k], hupd{x});
            CHECKM(c.allocs() <= path, "update allocates more than a path");
            CHECKM(c.copies() <= lim + 2 * args, "update copies more than the nodes on a path");
            frame("update copies entries outside its path", w, p, m, at, k);
            auto y = hbuild_again(w);
            auto key_ = p[k];
            auto* q = where(y, p[k]);
            meter o;
            y = K::upd(std::move(y), key_, hupd{x});
            // a set is inserted its key; the key of a table's entry is passed by value
            CHECKM(o.allocs() == 0 && o.copies() <= 2 * args && where(y, p[k]) == q, "updating an entry of a value nobody else has copies or allocates");
            break;
        }
        case 3: {
            meter c;
            auto w = K::updif(v, p[k], hupd{x});
            CHECKM(c.allocs() <= path, "update_if_exists allocates more than a path");
            CHECKM(c.copies() <= lim + 2 * args, "update_if_exists copies more than the nodes on a path");
            frame("update_if_exists copies entries outside its path", w, p, m, at, k);
            // a transient owns what it has written
            auto t = v.transient();
            t.insert(e);
            auto* q = t.count(p[k]) ? t.find(p[k]) : nullptr;
            meter o;
            t.insert(e);
            CHECKM(o.allocs() == 0 && o.copies() <= args && t.find(p[k]) == q, "replacing an entry a transient owns copies or allocates");
            break;
        }
        }
        sx_out(n);
    }
    check_no_leaks();
}
extern "C" void h_map() { sharing<MAP>(); }
extern "C" void h_set() { sharing<SET>(); }
extern "C" void h_table() { sharing<TABLE>(); }
#endif
