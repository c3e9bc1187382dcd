// Hash containers against an association list, with arbitrary hashes.
#pragma once
#include "common.hpp"
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#ifndef SXB
#define SXB 5
#endif
#ifndef SXMEM
#define SXMEM sx_memory
#endif
#ifndef SXT
#define SXT uint64_t
#endif
// a key: identity decides equality, the hash is whatever the solver likes
template <typename Id>
struct keyt
{
    Id id;
    uint64_t h;
    friend bool operator==(const keyt& a, const keyt& b) { return val(a.id) == val(b.id); }
    friend bool operator!=(const keyt& a, const keyt& b) { return !(a == b); }
};
#ifdef SXTRACK
using key = keyt<elem>;
#else
using key = keyt<uint64_t>;
#endif
// an alias for heterogeneous lookup
struct kref
{
    uint64_t id, h;
};
struct khash
{
    using is_transparent = void;
    size_t operator()(const key& k) const { return k.h; }
    size_t operator()(const kref& k) const { return k.h; }
};
struct keq
{
    using is_transparent = void;
    bool operator()(const key& a, const key& b) const { return a == b; }
    bool operator()(const key& a, const kref& b) const { return val(a.id) == b.id; }
    bool operator()(const kref& b, const key& a) const { return val(a.id) == b.id; }
};
struct entry
{
    key id{};
    SXT v{};
    friend bool operator==(const entry& a, const entry& b) { return a.id == b.id && a.v == b.v; }
    friend bool operator!=(const entry& a, const entry& b) { return !(a == b); }
};
using MAP   = immer::map<key, SXT, khash, keq, SXMEM, SXB>;
using SET   = immer::set<key, khash, keq, SXMEM, SXB>;
using TABLE = immer::table<entry, immer::table_key_fn, khash, keq, SXMEM, SXB>;

// ------------------------------------------------------------------- pool
#ifndef SXP
#define SXP 3
#endif
#ifndef SXROT
#define SXROT 3
#endif
struct pool
{
    uint64_t h[SXP + 1];
    unsigned used = 0; // canonical choice: keys are introduced in order
    // how: 0 arbitrary 64-bit hashes; 1 hashes whose lowest two digits are
    // arbitrary and whose highest digit is 0 or 1; 2 any partition into equal hashes and
    // hashes with a different lowest / highest digit
    // 4 a fixed wide tree with nodes of several values and several children,
    // three equal hashes, and hashes that part at the last digit, its keys
    // introduced in any rotation of one order
    explicit pool(int how)
    {
        constexpr unsigned top = (64 / SXB) * SXB == 64 ? 64 - SXB : (64 / SXB) * SXB;
        constexpr uint64_t one = 1;
        constexpr uint64_t wide[] = {3, 1, 2, 3, 2 | one << SXB, 0, 3, 2 | 3 * one << SXB, 3 | one << top, 4, 2 | 3 * one << SXB | one << 2 * SXB, 1, 2 | 2 * one << SXB | one << top};
        constexpr unsigned nwide = sizeof wide / sizeof *wide;
        unsigned rot = how == 4 ? (unsigned) sx_choose("rotation", 0, SXROT - 1) * (nwide / SXROT) : 0;
        for (unsigned i = 0; i <= SXP; i++) {
            if (how == 0) {
                // any 64-bit hash, digit by digit
                h[i] = 0;
                for (unsigned b = 0; b < 64; b += SXB) h[i] |= sx_sym(64 - b < SXB ? 64 - b : SXB, "digit") << b;
            }
            else if (how == 1) h[i] = sx_sym(SXB, "low") | sx_sym(SXB, "second") << SXB | sx_sym(1, "high") << top;
            else if (how == 4) h[i] = wide[(i + rot) % nwide];
            else if (how == 3) h[i] = i < 2 ? 3 : i == 2 ? 3 | uint64_t(1) << top : i; // a collision, a shared prefix
            else h[i] = sx_sym(1, "low") | sx_sym(1, "high") << top;
        }
    }
    key operator[](unsigned i) const { return key{i, h[i]}; }
    kref ref(unsigned i) const { return kref{i, h[i]}; }
    unsigned pick(const char* n = "key")
    {
        unsigned k = (unsigned) sx_choose(n, 0, used < SXP ? used : SXP - 1);
        if (k == used && used < SXP) ++used;
        return k;
    }
};
// ------------------------------------------------------------------ model
struct kv { bool in = false; uint64_t v = 0; };
struct amodel
{
    kv e[SXP + 1];
    unsigned size() const { unsigned n = 0; for (auto& x : e) n += x.in; return n; }
};
enum hop { PUT, UPD, UPDIF, DEL, SETV, HOPS };
struct hstep { int op; unsigned k; uint64_t x; };
inline uint64_t updv(uint64_t v, uint64_t x) { return v + x; }
struct hupd
{
    uint64_t x;
    bool faulty = false;
    SXT operator()(const SXT& v) const { if (faulty) fault_point(); return SXT(updv(val(v), x)); }
    entry operator()(entry e) const { if (faulty) fault_point(); return entry{e.id, SXT(updv(val(e.v), x))}; }
};
// the value a key gets when update finds it absent
constexpr uint64_t DEFV = 0;
template <typename C> struct hk;
template <> struct hk<MAP>
{
    static constexpr int ops = HOPS;
    using value_type = MAP::value_type;
    static value_type make(const key& k, uint64_t x) { return {k, SXT(x)}; }
    static const key& keyof(const value_type& v) { return v.first; }
    static uint64_t valof(const value_type& v) { return val(v.second); }
    template <typename M> static MAP set(M&& c, const key& k, uint64_t x) { return std::forward<M>(c).set(k, SXT(x)); }
    template <typename TR> static void set_tr(TR& c, const key& k, uint64_t x) { c.set(k, SXT(x)); }
    template <typename M> static MAP upd(M&& c, const key& k, hupd u) { return std::forward<M>(c).update(k, u); }
    template <typename M> static MAP updif(M&& c, const key& k, hupd u) { return std::forward<M>(c).update_if_exists(k, u); }
    template <typename TR> static void upd_tr(TR& c, const key& k, hupd u) { c.update(k, u); }
    template <typename TR> static void updif_tr(TR& c, const key& k, hupd u) { c.update_if_exists(k, u); }
    template <typename M, typename K> static void lookup(const M& c, const K& k, const kv& e)
    {
        auto* p = c.find(k);
        sx_check((p != nullptr) == e.in, "find reports the wrong presence");
        if (p && e.in) sx_check(val(*p) == e.v, "find yields the wrong value");
        sx_check(val(c[k]) == (e.in ? e.v : DEFV), "operator[] yields the wrong value");
    }
    template <typename M, typename K> static bool at_ok(const M& c, const K& k, const kv& e)
    {
        try { return val(c.at(k)) == e.v && e.in; } catch (const std::out_of_range&) { return !e.in; }
    }
};
template <> struct hk<TABLE>
{
    static constexpr int ops = DEL + 1;
    using value_type = entry;
    static value_type make(const key& k, uint64_t x) { return {k, SXT(x)}; }
    static const key& keyof(const value_type& v) { return v.id; }
    static uint64_t valof(const value_type& v) { return val(v.v); }
    template <typename M> static TABLE set(M&& c, const key& k, uint64_t x) { return std::forward<M>(c).insert(make(k, x)); }
    template <typename TR> static void set_tr(TR& c, const key& k, uint64_t x) { c.insert(make(k, x)); }
    template <typename M> static TABLE upd(M&& c, const key& k, hupd u) { return std::forward<M>(c).update(k, u); }
    template <typename M> static TABLE updif(M&& c, const key& k, hupd u) { return std::forward<M>(c).update_if_exists(k, u); }
    template <typename TR> static void upd_tr(TR& c, const key& k, hupd u) { c.update(k, u); }
    template <typename TR> static void updif_tr(TR& c, const key& k, hupd u) { c.update_if_exists(k, u); }
    template <typename M, typename K> static void lookup(const M& c, const K& k, const kv& e)
    {
        auto* p = c.find(k);
        sx_check((p != nullptr) == e.in, "find reports the wrong presence");
        if (p && e.in) sx_check(val(p->v) == e.v, "find yields the wrong value");
        sx_check(val(c[k].v) == (e.in ? e.v : DEFV), "operator[] yields the wrong value");
    }
    template <typename M, typename K> static bool at_ok(const M& c, const K& k, const kv& e)
    {
        try { return val(c.at(k).v) == e.v && e.in; } catch (const std::out_of_range&) { return !e.in; }
    }
};
template <> struct hk<SET>
{
    static constexpr int ops = 2; // PUT and DEL
    using value_type = key;
    static value_type make(const key& k, uint64_t) { return k; }
    static const key& keyof(const value_type& v) { return v; }
    static uint64_t valof(const value_type&) { return 0; }
    template <typename M> static SET set(M&& c, const key& k, uint64_t) { return std::forward<M>(c).insert(k); }
    template <typename TR> static void set_tr(TR& c, const key& k, uint64_t) { c.insert(k); }
    template <typename M> static SET upd(M&& c, const key& k, hupd) { return std::forward<M>(c).insert(k); }
    template <typename M> static SET updif(M&& c, const key& k, hupd) { return std::forward<M>(c); }
    template <typename TR> static void upd_tr(TR& c, const key& k, hupd) { c.insert(k); }
    template <typename TR> static void updif_tr(TR& c, const key& k, hupd) {}
    template <typename M, typename K> static void lookup(const M& c, const K& k, const kv& e)
    {
        auto* p = c.find(k);
        sx_check((p != nullptr) == e.in, "find reports the wrong presence");
        if (p && e.in) sx_check(khash{}(*p) == khash{}(k), "find yields the wrong element");
    }
    template <typename M, typename K> static bool at_ok(const M&, const K&, const kv&) { return true; }
};
// default values live for ever too: create them first
template <typename C> struct hwarm_ { static void go(const C& c) { (void) c[key{0, 0}]; } };
template <> struct hwarm_<SET> { static void go(const SET&) {} };
template <typename C>
void hwarm()
{
    { C c; hwarm_<C>::go(c); hwarm_<C>::go(c); }
    warm<C>();
}
template <typename C>
hstep hchoose(pool& p, unsigned mask = ~0u)
{
    static const char* names[] = {"hop insert", "hop update", "hop update_if_exists", "hop erase", "hop set"};
    hstep s;
    if (std::is_same<C, SET>::value) s.op = sx_choose("op", 0, 1) ? DEL : PUT;
    else {
        int ops[HOPS], n = 0;
        for (int o = 0; o < hk<C>::ops; o++) if (mask >> o & 1) ops[n++] = o;
        s.op = ops[sx_choose("op", 0, n - 1)];
    }
    s.k = p.pick();
    s.x = s.op == DEL ? 0 : fresh();
    sx_reach(names[s.op]);
    return s;
}
template <typename C>
void happly(amodel& m, const hstep& s)
{
    auto& e = m.e[s.k];
    if (std::is_same<C, SET>::value) { e.in = s.op != DEL; return; }
    switch (s.op) {
    case PUT: case SETV: e.in = true; e.v = s.x; break;
    case UPD: e.v = updv(e.in ? e.v : DEFV, s.x); e.in = true; break;
    case UPDIF: if (e.in) e.v = updv(e.v, s.x); break;
    case DEL: e.in = false; e.v = 0; break;
    }
}
template <typename C, typename R> // R: const C& or C&&
C happly(R&& c, const pool& p, const hstep& s, bool faulty = false)
{
    using K = hk<C>;
    switch (s.op) {
    case PUT: return std::forward<R>(c).insert(K::make(p[s.k], s.x));
    case SETV: return K::set(std::forward<R>(c), p[s.k], s.x);
    case UPD: return K::upd(std::forward<R>(c), p[s.k], hupd{s.x, faulty});
    case UPDIF: return K::updif(std::forward<R>(c), p[s.k], hupd{s.x, faulty});
    case DEL: return std::forward<R>(c).erase(p[s.k]);
    }
    return c;
}
template <typename C, typename TR>
void happly_tr(TR& c, const pool& p, const hstep& s, bool faulty = false)
{
    using K = hk<C>;
    switch (s.op) {
    case PUT: c.insert(K::make(p[s.k], s.x)); break;
    case SETV: K::set_tr(c, p[s.k], s.x); break;
    case UPD: K::upd_tr(c, p[s.k], hupd{s.x, faulty}); break;
    case UPDIF: K::updif_tr(c, p[s.k], hupd{s.x, faulty}); break;
    case DEL: c.erase(p[s.k]); break;
    }
}
// every lookup of every pool key, and full iteration
template <typename C, typename M>
void hlookup(const M& c, const amodel& m, const pool& p)
{
    // the keys used so far and one that never was
    unsigned upto = p.used;
    sx_check(c.size() == m.size(), "size differs from the association list");
    sx_check(c.empty() == (m.size() == 0), "empty differs from the association list");
    for (unsigned i = 0; i <= upto; i++) {
        auto k = p[i];
        sx_check(c.count(k) == (m.e[i].in ? 1u : 0u), "count differs from the association list");
        hk<C>::lookup(c, k, m.e[i]);
    }
}
template <typename C, typename M>
void hiterate(const M& c, const amodel& m, const pool& p)
{
    unsigned seen[SXP + 1] = {};
    unsigned n = 0;
    for (auto it = c.begin(), e = c.end(); it != e; ++it, ++n) {
        if (n > SXP) { sx_fail("iteration does not end"); return; }
        const auto& x = *it;
        uint64_t id = val(hk<C>::keyof(x).id);
        if (id > SXP) { sx_fail("iteration yields a key never inserted"); return; }
        seen[id]++;
        sx_check(m.e[id].in, "iteration yields an absent key");
        if (!std::is_same<C, SET>::value) sx_check(hk<C>::valof(x) == m.e[id].v, "iteration yields the wrong value");
        sx_check(hk<C>::keyof(x).h == p.h[id], "iteration yields a corrupt key");
    }
    for (unsigned i = 0; i <= SXP; i++) sx_check(seen[i] == (m.e[i].in ? 1u : 0u), "iteration misses or repeats an entry");
}
template <typename C, typename M>
void hsame(const M& c, const amodel& m, const pool& p)
{
    hlookup<C>(c, m, p);
    hiterate<C>(c, m, p);
}
// `c` holding keys 0..n-1 in an arbitrary insertion history
template <typename C>
C hbuild(const pool& p, amodel& m, unsigned n)
{
    auto t = C{}.transient();
    for (unsigned i = 0; i < n; i++) {
        auto x = fresh();
        t.insert(hk<C>::make(p[i], x));
        m.e[i].in = true;
        m.e[i].v = std::is_same<C, SET>::value ? 0 : x;
    }
    return t.persistent();
}
// where an entry lives
inline const void* where(const MAP& c, const key& k) { return c.find(k); }
inline const void* where(const SET& c, const key& k) { return c.find(k); }
inline const void* where(const TABLE& c, const key& k) { return c.find(k); }
template <typename C>
void hout(const C& c, const pool& p)
{
    sx_out(c.size());
    for (unsigned i = 0; i < p.used; i++) sx_out(c.count(p[i]));
}
#ifndef SXHOW
#define SXHOW 0
#endif
