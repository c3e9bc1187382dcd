// Copies, moves, swaps and self-assignment of every kind of object.
#ifdef SXHASHONLY
#include "hashc.hpp"
#else
#include "seq.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#endif
#include <immer/box.hpp>
#ifndef SXK
#define SXK 3
#endif
enum { COPY_C, MOVE_C, COPY_A, MOVE_A, SWAP, SELF_C, SELF_M, FRESH_A, USE, MEMBERS };
// Traits: type S of the objects, their model M; make, check, use
template <typename Tr>
static void members(Tr tr)
{
    using S = typename Tr::S;
    using M = typename Tr::M;
    constexpr int N = 3;
    struct obj { S s; M m; bool valid = true; }; // valid: not moved from
    {
        obj* o[N];
        for (int i = 0; i < N; i++) { o[i] = new obj; o[i]->s = tr.make(o[i]->m, i); }
        for (int k = 0; k < SXK; k++) {
            auto a = sx_choose("a", 0, N - 1), b = sx_choose("b", 0, N - 1);
            auto op = sx_choose("member", 0, MEMBERS - 1);
            auto &x = *o[a], &y = *o[b];
            switch (op) {
            case COPY_C: {
                if (!y.valid && !Tr::container) break;
                auto* z = new obj{S(y.s), y.m, y.valid};
                tr.check(z->s, z->m, z->valid);
                delete o[a];
                o[a] = z;
                break;
            }
            case MOVE_C: {
                auto* z = new obj{S(std::move(y.s)), y.m, y.valid};
                y.valid = false;
                if (a != b) { delete o[a]; o[a] = z; }
                else { y.s = std::move(z->s); y.valid = z->valid; delete z; }
                break;
            }
            case COPY_A:
                if (!y.valid && !Tr::container) break;
                x.s = y.s;
                x.m = y.m;
                x.valid = y.valid;
                break;
            case MOVE_A:
                if (a == b) break;
                x.s = std::move(y.s);
                x.m = y.m;
                x.valid = y.valid;
                y.valid = false;
                break;
            case SWAP: {
                using std::swap;
                swap(x.s, y.s);
                if (a != b) { swap(x.m, y.m); swap(x.valid, y.valid); }
                break;
            }
            case SELF_C: { if (!x.valid && !Tr::container) break; auto& r = x.s; x.s = r; break; }
            case SELF_M: { auto& r = x.s; x.s = std::move(r); break; }
            case FRESH_A: x.s = tr.make(x.m, 7); x.valid = true; break;
            case USE: if (x.valid) tr.use(x.s, x.m); else if (Tr::container) tr.poke(x.s); break;
            }
            for (int i = 0; i < N; i++) tr.check(o[i]->s, o[i]->m, o[i]->valid);
        }
        for (int i = 0; i < N; i++) delete o[i];
    }
}
// a moved-from container is some valid container
template <typename V>
static void valid_seq(const V& v)
{
    uint64_t n = 0;
    for (auto it = v.begin(), e = v.end(); it != e; ++it, ++n) { (void) val(*it); if (n > 200) { sx_fail("a moved-from container does not end"); return; } }
    CHECKM(n == v.size(), "a moved-from container has the wrong size");
    if (n) CHECK(val(v[n - 1]) == val(*(v.end() - 1)));
    CHECK(v.empty() == (n == 0));
}
#ifndef SXHASHONLY
template <typename V, bool TRANS>
struct seq_tr
{
    using S = std::conditional_t<TRANS, typename V::transient_type, V>;
    using M = model;
    static constexpr bool container = true;
    using T = typename V::value_type;
    V value(model& m, int i) const
    {
        m = model{};
        auto n = i == 0 ? 0 : i == 1 ? LEAF + 1 : i == 2 ? LEAF * BRANCH + LEAF + 1 : 2;
        auto v = build_c<V>(n, m, 100 * (i + 1));
        return flexed(v, m, i, 0);
    }
    template <typename W>
    std::enable_if_t<is_flex<W>::value, W> flexed(W v, model& m, int i, int) const { if (i == 1) { m.append(model(m)); return v + v; } return v; }
    template <typename W>
    std::enable_if_t<!is_flex<W>::value, W> flexed(W v, model&, int, int) const { return v; }
    template <typename X = S>
    std::enable_if_t<std::is_same<X, V>::value, X> make(model& m, int i) const { return value(m, i); }
    template <typename X = S>
    std::enable_if_t<!std::is_same<X, V>::value, X> make(model& m, int i) const { return value(m, i).transient(); }
    void check(const S& s, const model& m, bool valid) const { if (valid) same_iter(s, m); else valid_seq(s); }
    void grow(V& s, uint64_t x) const { s = std::move(s).push_back(T(x)); }
    void grow(typename V::transient_type& s, uint64_t x) const { s.push_back(T(x)); }
    void cut(V& s, uint64_t k) const { s = std::move(s).take(k); }
    void cut(typename V::transient_type& s, uint64_t k) const { s.take(k); }
    void use(S& s, model& m) const
    {
        if (sx_choose("cut", 0, 1)) { auto k = m.size() / 2; cut(s, k); m.take(k); }
        else { auto x = fresh(); grow(s, x); m.push_back(x); }
    }
    void poke(S& s) const { auto n = s.size(); grow(s, 5); CHECKM(s.size() == n + 1 && val(s[n]) == 5, "a moved-from container cannot be used"); valid_seq(s); }
};
template <typename V, bool TRANS>
static void run()
{
    warm<V, typename V::transient_type>();
    members(seq_tr<V, TRANS>{});
    check_no_leaks();
}
using ARR = immer::array<SXT, SXMEM>;
extern "C" void h_vector() { run<VEC, false>(); }
extern "C" void h_vector_transient() { run<VEC, true>(); }
extern "C" void h_flex() { run<FLEX, false>(); }
extern "C" void h_flex_transient() { run<FLEX, true>(); }
extern "C" void h_array() { run<ARR, false>(); }
extern "C" void h_array_transient() { run<ARR, true>(); }
// boxes: a moved-from box may only be assigned, swapped, moved or destroyed
struct box_tr
{
    using S = immer::box<SXT, SXMEM>;
    using M = uint64_t;
    static constexpr bool container = false;
    S make(uint64_t& m, int i) const { m = 100 + i; return S{SXT(m)}; }
    void check(const S& s, const uint64_t& m, bool valid) const { if (valid) CHECKM(val(s.get()) == m && val(*s) == m && &s.get() == s.operator->(), "a box holds another value"); }
    void use(S& s, uint64_t& m) const
    {
        auto x = fresh();
        if (sx_choose("l-value", 0, 1)) s = s.update([&](const SXT& v) { return SXT(val(v) ^ x); });
        else s = std::move(s).update([&](const SXT& v) { return SXT(val(v) ^ x); });
        m ^= x;
    }
    void poke(S&) const {}
};
extern "C" void h_box()
{
    warm<>();
    members(box_tr{});
    check_no_leaks();
}
// conversions between the kinds and their transients, moved and copied
template <typename V>
static void trips()
{
    warm<V, typename V::transient_type>();
    {
        seq_tr<V, false> tr;
        model m;
        auto v = tr.make(m, (int) sx_choose("which", 0, 2));
        auto m0 = m;
        auto t = sx_choose("consume", 0, 1) ? std::move(v).transient() : v.transient();
        auto x = fresh();
        t.push_back(SXT(x));
        m.push_back(x);
        auto u = t; // a copied transient
        auto mu = m;
        auto y = fresh();
        switch (sx_choose("written", 0, 2)) {
        case 0: t.push_back(SXT(y)); m.push_back(y); break;
        case 1: u.push_back(SXT(y)); mu.push_back(y); break;
        case 2: t.set(0, SXT(y)); m.set(0, y); u.take(mu.size() / 2); mu.take(mu.size() / 2); break;
        }
        same_iter(t, m), same_iter(u, mu);
        auto p = t.persistent();
        auto q = sx_choose("consume transient", 0, 1) ? std::move(u).persistent() : u.persistent();
        t = std::move(u);
        valid_seq(t), valid_seq(u);
        t.push_back(SXT(1)), u.push_back(SXT(2));
        same_iter(p, m), same_iter(q, mu);
        auto w = std::move(p);
        valid_seq(p);
        p = w.push_back(SXT(3));
        same_iter(w, m);
        m.push_back(3);
        same_iter(p, m);
        valid_seq(v);
        v = std::move(w);
        valid_seq(w);
        out_all(p);
    }
    check_no_leaks();
}
extern "C" void h_vector_trips() { trips<VEC>(); }
extern "C" void h_flex_trips() { trips<FLEX>(); }
extern "C" void h_array_trips() { trips<ARR>(); }
#else
template <typename C>
static void hvalid(const C& c)
{
    unsigned n = 0;
    for (auto it = c.begin(), e = c.end(); it != e; ++it, ++n) { const auto& k = hk<std::conditional_t<std::is_same<C, MAP>::value || std::is_same<C, typename MAP::transient_type>::value, MAP, std::conditional_t<std::is_same<C, SET>::value || std::is_same<C, typename SET::transient_type>::value, SET, TABLE>>>::keyof(*it); (void) val(k.id); if (n > 50) { sx_fail("a moved-from container does not end"); return; } }
    CHECKM(n == c.size(), "a moved-from container has the wrong size");
    CHECK(c.empty() == (n == 0));
}
template <typename C, bool TRANS>
struct hash_tr
{
    using S = std::conditional_t<TRANS, typename C::transient_type, C>;
    using M = amodel;
    static constexpr bool container = true;
    pool* p;
    C value(amodel& m, int i) const
    {
        m = amodel{};
        auto t = C{}.transient();
        for (unsigned k = 0; k < SXP; k++)
            if (i == 1 || (i == 2 && k != 1) || (i == 7 && k == 0)) {
                t.insert(hk<C>::make((*p)[k], 10 * i + k));
                m.e[k] = kv{true, std::is_same<C, SET>::value ? 0u : 10u * i + k};
            }
        return t.persistent();
    }
    template <typename X = S>
    std::enable_if_t<std::is_same<X, C>::value, X> make(amodel& m, int i) const { return value(m, i); }
    template <typename X = S>
    std::enable_if_t<!std::is_same<X, C>::value, X> make(amodel& m, int i) const { return value(m, i).transient(); }
    void check(const S& s, const amodel& m, bool valid) const { if (valid) hsame<C>(s, m, *p); else hvalid(s); }
    void put(C& s, unsigned k, uint64_t x) const { s = std::move(s).insert(hk<C>::make((*p)[k], x)); }
    void put(typename C::transient_type& s, unsigned k, uint64_t x) const { s.insert(hk<C>::make((*p)[k], x)); }
    void del(C& s, unsigned k) const { s = std::move(s).erase((*p)[k]); }
    void del(typename C::transient_type& s, unsigned k) const { s.erase((*p)[k]); }
    void use(S& s, amodel& m) const
    {
        if (sx_choose("erase", 0, 1)) { del(s, 1); m.e[1] = kv{}; }
        else { auto x = fresh(); put(s, 1, x); m.e[1] = kv{true, std::is_same<C, SET>::value ? 0 : x}; }
    }
    void poke(S& s) const { put(s, 0, 5); CHECKM(s.count((*p)[0]) == 1, "a moved-from container cannot be used"); hvalid(s); }
};
template <typename C, bool TRANS>
static void run()
{
    hwarm<C>();
    {
        pool p(SXHOW);
        p.used = SXP;
        members(hash_tr<C, TRANS>{&p});
    }
    check_no_leaks();
}
extern "C" void h_map() { run<MAP, false>(); }
extern "C" void h_map_transient() { run<MAP, true>(); }
extern "C" void h_set() { run<SET, false>(); }
extern "C" void h_set_transient() { run<SET, true>(); }
extern "C" void h_table() { run<TABLE, false>(); }
extern "C" void h_table_transient() { run<TABLE, true>(); }
#endif
