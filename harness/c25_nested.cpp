// Containers whose elements hold containers of the same type: the argument of
// an operation may live inside the value that the operation releases.
#ifdef SXHASHONLY
#include "hashc.hpp"
#else
#include "seq.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/atom.hpp>
#include <immer/box.hpp>
#endif
#include <memory>
#ifndef SXK
#define SXK 2
#endif
#ifndef SXW
#define SXW 3
#endif
// the same as plain trees; values are never modified in place
struct tree;
using trees = std::vector<std::shared_ptr<tree>>;
struct tree
{
    uint64_t x;
    trees kids;
};
template <typename H> struct nest
{
    elem x{};
    std::shared_ptr<H> kids{};
    friend bool operator==(const nest& a, const nest& b) { return val(a.x) == val(b.x); }
    friend bool operator!=(const nest& a, const nest& b) { return !(a == b); }
};
static uint64_t seed_x(unsigned depth, unsigned i) { return (depth + 1) * 16 + i; }
template <typename V, typename E>
static void same_elem(const E& e, const tree& m);
#ifndef SXHASHONLY
struct vholder; struct fholder; struct aholder; struct bholder;
using NV = immer::vector<nest<vholder>, SXMEM, SXB, SXBL>;
using NF = immer::flex_vector<nest<fholder>, SXMEM, SXB, SXBL>;
using NA = immer::array<nest<aholder>, SXMEM>;
struct vholder { NV c; };
struct fholder { NF c; };
struct aholder { NA c; };
template <typename V>
static void same(const V& v, const trees& m)
{
    CHECKM(v.size() == m.size(), "wrong size");
    if (v.size() != m.size()) return;
    uint64_t i = 0;
    for (auto& e : v) { same_elem<V>(e, *m[i]); ++i; }
}
template <typename V, typename E>
static void same_elem(const E& e, const tree& m)
{
    CHECKM(val(e.x) == m.x, "wrong value");
    CHECK(!e.kids == m.kids.empty());
    if (e.kids && !m.kids.empty()) same<V>(e.kids->c, m.kids);
}
// `w` elements; all of them have kids down to the given depth
template <typename V, typename H>
static V make(trees& m, unsigned w, unsigned depth)
{
    using T = typename V::value_type;
    V v;
    for (unsigned i = 0; i < w; i++) {
        auto t = std::make_shared<tree>();
        T e;
        auto x = seed_x(depth, i);
        if (i == 0) x ^= fresh();
        e.x = elem(x);
        t->x = x;
        if (depth) e.kids = std::make_shared<H>(H{make<V, H>(t->kids, i == 1 ? w + 1 : w, depth - 1)});
        v = std::move(v).push_back(std::move(e));
        m.push_back(std::move(t));
    }
    return v;
}
template <typename W>
static std::enable_if_t<is_flex<W>::value> flex_op(W& c, trees& m, uint64_t i)
{
    // no l-value may alias the result: the kid is released with the old value
    auto k = m[i]->kids;
    auto j = i ? 0 : m.size() - 1;
    switch (sx_choose("flex op", 0, 6)) {
    case 0: c = c + c[i].kids->c; m.insert(m.end(), k.begin(), k.end()); break;
    case 1: c = c[i].kids->c + c; k.insert(k.end(), m.begin(), m.end()); m = k; break;
    case 2: c = std::move(c) + c[i].kids->c; m.insert(m.end(), k.begin(), k.end()); break;
    case 3: c = c[i].kids->c + std::move(c); k.insert(k.end(), m.begin(), m.end()); m = k; break;
    case 4: c = c.insert(j, c[i].kids->c); m.insert(m.begin() + j, k.begin(), k.end()); break;
    case 5: { auto e = m[i]; c = std::move(c).push_front(c[i]); m.insert(m.begin(), e); break; }
    case 6: { auto e = k[0]; c = std::move(c).insert(j, c[i].kids->c[0]); m.insert(m.begin() + j, e); break; }
    }
}
template <typename W>
static std::enable_if_t<!is_flex<W>::value> flex_op(W&, trees&, uint64_t) {}
template <typename W, typename TR>
static std::enable_if_t<is_flex<W>::value> flex_tr(TR& t, trees& m, uint64_t i)
{
    auto k = m[i]->kids;
    switch (sx_choose("flex transient op", 0, 3)) {
    case 0: { auto o = t[i].kids->c.transient(); t.append(o); m.insert(m.end(), k.begin(), k.end()); break; }
    case 1: { auto o = t[i].kids->c.transient(); t.prepend(std::move(o)); k.insert(k.end(), m.begin(), m.end()); m = k; break; }
    case 2: t.append(t[i].kids->c.transient()); m.insert(m.end(), k.begin(), k.end()); break;
    case 3: { auto o = t[i].kids->c.transient(); o.append(t); t = o; k.insert(k.end(), m.begin(), m.end()); m = k; break; }
    }
}
template <typename W, typename TR>
static std::enable_if_t<!is_flex<W>::value> flex_tr(TR&, trees&, uint64_t) {}
template <typename V, typename H>
static void seq()
{
    using T = typename V::value_type;
    warm<V, typename V::transient_type>();
    {
        trees m;
        V c = make<V, H>(m, SXW, 2);
        same(c, m);
        for (int k = 0; k < SXK; k++) {
            if (m.empty()) break;
            auto i = sx_choose("i", 0, m.size() > 2 ? 2 : m.size() - 1);
            auto j = m.size() - 1;
            bool kids = !m[i]->kids.empty();
            auto kk = m[i]->kids;
            switch (auto op = sx_choose("op", 0, 9)) {
            case 0: if (kids) { c = c[i].kids->c; m = kk; } break;
            case 1: if (kids) { auto e = m[j]; c = c[i].kids->c.push_back(c[j]); m = kk; m.push_back(e); } break;
            case 2: { auto e = m[i]; c = std::move(c).push_back(c[i]); m.push_back(e); break; }
            case 3: if (kids) { c = std::move(c).set(i, c[i].kids->c[0]); m[i] = kk[0]; } break;
            case 4: if (kids) { c = std::move(c).update(i, [](const T& e) { return e.kids->c[0]; }); m[i] = kk[0]; } break;
            case 5: if (kids) { c = c.set(j, c[i].kids->c[1]).take(j + 1); m[j] = kk[1]; } break;
            case 6: if (kids) { c = c[i].kids->c.take(1); m = kk; m.resize(1); } break;
            case 7: if (kids) {
                // through a transient that owns what the argument is part of
                auto t = c.transient();
                c = V{};
                t.set(i, t[i].kids->c[0]);
                m[i] = kk[0];
                t.push_back(t[j]);
                m.push_back(m[j]);
                c = t.persistent();
                break;
            } break;
            case 8: if (kids) {
                auto t = c.transient();
                c = V{};
                if (sx_choose("kind", 0, 1)) t = t[i].kids->c.transient();
                else { t.update(i, [](const T& e) { return e.kids->c[0]; }); t = t[j].kids ? t[j].kids->c.transient() : t; if (j != i) kk = m[j]->kids; else { auto q = kk[0]; if (!q->kids.empty()) kk = q->kids; else { kk = m; kk[i] = q; } } }
                m = kk;
                c = std::move(t).persistent();
            } break;
            case 9:
                if constexpr (is_flex<V>::value) {
                    if (!kids) break;
                    if (sx_choose("transient", 0, 1)) { auto t = c.transient(); c = V{}; flex_tr<V>(t, m, i); c = t.persistent(); }
                    else flex_op(c, m, i);
                }
                break;
            default: (void) op;
            }
            same(c, m);
        }
    }
    check_no_leaks();
}
extern "C" void h_vector() { seq<NV, vholder>(); }
extern "C" void h_flex() { seq<NF, fholder>(); }
extern "C" void h_array() { seq<NA, aholder>(); }

// ---------------------------------------------------- boxes, atoms of boxes
using NB = immer::box<nest<bholder>, SXMEM>;
struct bholder { NB c; };
static NB chain(std::vector<uint64_t>& m, unsigned depth)
{
    nest<bholder> e;
    auto x = fresh();
    m.push_back(x);
    e.x = elem(x);
    if (depth) e.kids = std::make_shared<bholder>(bholder{chain(m, depth - 1)});
    return NB{std::move(e)};
}
static void same_box(const NB& b, const std::vector<uint64_t>& m, uint64_t from)
{
    auto p = &b;
    for (uint64_t i = from;; i++) {
        CHECKM(val(p->get().x) == m[i], "wrong value");
        CHECK(!!p->get().kids == (i + 1 < m.size()));
        if (!p->get().kids) break;
        p = &p->get().kids->c;
    }
}
extern "C" void h_box()
{
    warm<>();
    {
        std::vector<uint64_t> m;
        NB b = chain(m, SXK);
        uint64_t at = 0;
        for (int k = 0; k < SXK; k++) {
            switch (sx_choose("op", 0, 5)) {
            case 0: b = b->kids->c; at++; break;
            case 1: b = b.update([](const nest<bholder>& n) { return n.kids->c.get(); }); at++; break;
            case 2: b = std::move(b).update([](const nest<bholder>& n) { return n.kids->c.get(); }); at++; break;
            case 3: { auto t = b->kids->c; using std::swap; swap(b, t); at++; break; }
            case 4: { const auto& r = b; b = r; break; }
            case 5: { NB t = b->kids->c; b = std::move(t); at++; break; }
            }
            same_box(b, m, at);
            if (at + 1 == m.size()) break;
        }
    }
    check_no_leaks();
}
#ifndef SXNOATOM
extern "C" void h_atom()
{
    warm<>();
    {
        std::vector<uint64_t> m;
        immer::atom<nest<bholder>, SXMEM> a{chain(m, SXK)};
        uint64_t at = 0;
        for (int k = 0; k < SXK; k++) {
            switch (sx_choose("op", 0, 4)) {
            case 0: a.store(a.load()->kids->c); at++; break;
            case 1: a = a.load()->kids->c; at++; break;
            case 2: { auto o = a.exchange(a.load()->kids->c); same_box(o, m, at); at++; break; }
            case 3: { auto r = a.update([](const nest<bholder>& n) { return n.kids->c.get(); }); at++; same_box(r, m, at); break; }
            case 4: a = a.load().get(); break;
            }
            same_box(a.load(), m, at);
            if (at + 1 == m.size()) break;
        }
    }
    check_no_leaks();
}
#endif
#else
// ------------------------------------------------------------------- hashes
// keys 0 and 1 always have equal hashes, 0 and 2 the first digit of them
struct ihash
{
    size_t operator()(uint64_t k) const { return k < 2 ? 1 : k == 2 ? 33 : k; }
    size_t operator()(const elem& k) const { return (*this)(val(k)); }
    template <typename H> size_t operator()(const nest<H>& n) const { return (*this)(n.x); }
};
struct nkey
{
    template <typename H> const elem& operator()(const nest<H>& n) const { return n.x; }
    template <typename H> nest<H> operator()(nest<H> n, elem k) const { n.x = std::move(k); return n; }
};
struct mholder; struct sholder; struct tholder;
using NM = immer::map<elem, nest<mholder>, ihash, std::equal_to<elem>, SXMEM, SXB>;
using NS = immer::set<nest<sholder>, ihash, std::equal_to<nest<sholder>>, SXMEM, SXB>;
using NT = immer::table<nest<tholder>, nkey, ihash, std::equal_to<elem>, SXMEM, SXB>;
struct mholder { NM c; };
struct sholder { NS c; };
struct tholder { NT c; };
static int where(const trees& m, uint64_t k) { for (unsigned i = 0; i < m.size(); i++) if (m[i]->x == k) return (int) i; return -1; }
static void put(trees& m, std::shared_ptr<tree> t) { auto i = where(m, t->x); if (i < 0) m.push_back(std::move(t)); else m[i] = std::move(t); }
static void drop(trees& m, uint64_t k) { auto i = where(m, k); if (i >= 0) m.erase(m.begin() + i); }
static const nest<mholder>& el(const std::pair<elem, nest<mholder>>& p) { return p.second; }
template <typename H> static const nest<H>& el(const nest<H>& n) { return n; }
static const nest<mholder>* look(const NM& c, uint64_t k) { return c.find(elem(k)); }
static const nest<sholder>* look(const NS& c, uint64_t k) { nest<sholder> n; n.x = elem(k); return c.find(n); }
static const nest<tholder>* look(const NT& c, uint64_t k) { return c.find(elem(k)); }
static const nest<mholder>* look(const NM::transient_type& c, uint64_t k) { return c.find(elem(k)); }
static const nest<sholder>* look(const NS::transient_type& c, uint64_t k) { nest<sholder> n; n.x = elem(k); return c.find(n); }
static const nest<tholder>* look(const NT::transient_type& c, uint64_t k) { return c.find(elem(k)); }
static NM with(NM&& c, const nest<mholder>& e) { return std::move(c).set(e.x, e); }
static NS with(NS&& c, const nest<sholder>& e) { return std::move(c).insert(e); }
static NT with(NT&& c, const nest<tholder>& e) { return std::move(c).insert(e); }
static NM with(const NM& c, const nest<mholder>& e) { return c.set(e.x, e); }
static NS with(const NS& c, const nest<sholder>& e) { return c.insert(e); }
static NT with(const NT& c, const nest<tholder>& e) { return c.insert(e); }
static void with(NM::transient_type& c, const nest<mholder>& e) { c.set(e.x, e); }
static void with(NS::transient_type& c, const nest<sholder>& e) { c.insert(e); }
static void with(NT::transient_type& c, const nest<tholder>& e) { c.insert(e); }
// the key as the container stores it: a reference into its nodes
static const elem& stored(const NM& c, uint64_t n) { auto it = c.begin(); while (n--) ++it; return it->first; }
static const nest<sholder>& stored(const NS& c, uint64_t n) { auto it = c.begin(); while (n--) ++it; return *it; }
static const elem& stored(const NT& c, uint64_t n) { auto it = c.begin(); while (n--) ++it; return it->x; }
static const elem& stored(const NM::transient_type& c, uint64_t n) { auto it = c.begin(); while (n--) ++it; return it->first; }
static const nest<sholder>& stored(const NS::transient_type& c, uint64_t n) { auto it = c.begin(); while (n--) ++it; return *it; }
static const elem& stored(const NT::transient_type& c, uint64_t n) { auto it = c.begin(); while (n--) ++it; return it->x; }
static uint64_t id(const elem& e) { return val(e); }
static uint64_t id(const nest<sholder>& e) { return val(e.x); }
template <typename C>
static void same(const C& c, const trees& m)
{
    CHECKM(c.size() == m.size(), "wrong size");
    uint64_t n = 0;
    for (auto& e : c) { (void) el(e).x.get(); ++n; }
    CHECKM(n == m.size(), "iteration misses or repeats elements");
    for (auto& t : m) {
        auto e = look(c, t->x);
        CHECKM(e != nullptr, "an element is missing");
        if (!e) continue;
        CHECKM(val(e->x) == t->x, "wrong value");
        CHECK(!e->kids == t->kids.empty());
        if (e->kids && !t->kids.empty()) same<C>(e->kids->c, t->kids);
    }
}
template <typename C, typename H>
static C make(trees& m, unsigned w, unsigned depth)
{
    C c;
    for (unsigned i = 0; i < w; i++) {
        auto t = std::make_shared<tree>();
        nest<H> e;
        e.x = elem(i);
        t->x = i;
        if (depth) e.kids = std::make_shared<H>(H{make<C, H>(t->kids, i == 1 ? w + 1 : w, depth - 1)});
        c = with(std::move(c), e);
        m.push_back(std::move(t));
    }
    return c;
}
template <typename C, typename H>
static void hash()
{
    constexpr bool replaces = !std::is_same<C, NS>::value;
    warm<C, typename C::transient_type>();
    {
        trees m;
        auto w = sx_choose("width", 1, SXW);
        C c = make<C, H>(m, w, 2);
        same(c, m);
        for (int k = 0; k < SXK; k++) {
            if (m.empty()) break;
            auto n = sx_choose("n", 0, m.size() - 1); // n-th in iteration order
            auto key = id(stored(c, n));
            auto t = m[where(m, key)];
            bool kids = !t->kids.empty();
            auto kk = t->kids;
            // whether a set keeps or replaces an equal element is not observable
            auto no = [&](const trees& to, const std::shared_ptr<tree>& x) { return !replaces && where(to, x->x) >= 0; };
            auto put_ = [&](std::shared_ptr<tree> x) { put(m, x); };
            switch (sx_choose("op", 0, 8)) {
            case 0: if (kids) { c = look(c, key)->kids->c; m = kk; } break;
            case 1: if (kids && !no(kk, t)) { c = with(look(c, key)->kids->c, *look(c, key)); m = kk; put_(t); } break;
            case 2: if (kids && !no(m, kk.back())) { auto x = kk.back(); c = with(std::move(c), *look(look(c, key)->kids->c, x->x)); put_(x); } break;
            case 3: if (kids && !no(m, kk.back())) { auto x = kk.back(); c = with(c, *look(look(c, key)->kids->c, x->x)); put_(x); } break;
            case 4: c = std::move(c).erase(stored(c, n)); drop(m, key); break;
            case 5: c = c.erase(stored(c, n)); drop(m, key); break;
            case 6: {
                auto tr = c.transient();
                c = C{};
                if (sx_choose("twice", 0, 1)) { auto k2 = id(stored(tr, 0)); tr.erase(stored(tr, 0)); drop(m, k2); }
                else { tr.erase(stored(tr, n)); drop(m, key); }
                c = tr.persistent();
                break;
            }
            case 7: if (kids && !no(m, kk.back())) {
                auto tr = c.transient();
                c = C{};
                auto x = kk.back();
                with(tr, *look(look(tr, key)->kids->c, x->x));
                put_(x);
                if (sx_choose("then", 0, 1)) { auto q = m[where(m, key)]->kids; if (!q.empty()) { tr = look(tr, key)->kids->c.transient(); m = q; } }
                c = std::move(tr).persistent();
            } break;
            case 8:
                if constexpr (!std::is_same<C, NS>::value) {
                    // update with a key that is part of the container
                    auto fn = [](nest<H> e) { e.kids = nullptr; return e; };
                    auto x = std::make_shared<tree>(tree{key, {}});
                    switch (sx_choose("update", 0, 3)) {
                    case 0: c = c.update(stored(c, n), fn); break;
                    case 1: c = std::move(c).update(stored(c, n), fn); break;
                    case 2: c = std::move(c).update_if_exists(stored(c, n), fn); break;
                    case 3: { auto tr = c.transient(); c = C{}; tr.update(stored(tr, n), fn); c = tr.persistent(); break; }
                    }
                    put(m, x);
                }
                break;
            }
            same(c, m);
        }
    }
    check_no_leaks();
}
extern "C" void h_map() { hash<NM, mholder>(); }
extern "C" void h_set() { hash<NS, sholder>(); }
extern "C" void h_table() { hash<NT, tholder>(); }
#endif
