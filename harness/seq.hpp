// Operations on sequences, applied to the real container and to a plain array.
#pragma once
#include "common.hpp"
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#ifndef SXB
#define SXB 2
#endif
#ifndef SXBL
#define SXBL 1
#endif
#ifndef SXT
#define SXT uint64_t
#endif
#ifndef SXMEM
#define SXMEM sx_memory
#endif
using VEC  = immer::vector<SXT, SXMEM, SXB, SXBL>;
// (a flex_vector has at least two bits)
using FLEX = immer::flex_vector<SXT, SXMEM, (SXB < 2 ? 2 : SXB), SXBL>;
constexpr uint64_t LEAF = uint64_t(1) << SXBL;
constexpr uint64_t BRANCH = uint64_t(1) << SXB;

template <typename V> struct is_flex : std::false_type {};
template <typename T, typename M, immer::detail::rbts::bits_t B, immer::detail::rbts::bits_t BL>
struct is_flex<immer::flex_vector<T, M, B, BL>> : std::true_type {};

enum opcode { PUSH, ASSIGN, UPDATE, TAKE, VEC_OPS, PUSHF = VEC_OPS, DROP, INS, INSV, ERASE, ERASER, CATR, CATL, CATSELF, FLEX_OPS };
struct step
{
    int op;
    uint64_t i = 0, j = 0, x = 0;
    uint64_t o = 0; // index of the other sequence
};
// every position, or just the ends and the middle
inline uint64_t pos(const char* n, uint64_t lo, uint64_t hi, int narrow)
{
    if (narrow == 2 && hi - lo >= 3) {
        auto k = sx_choose(n, 0, 2);
        return k == 0 ? lo : k == 1 ? lo + (hi - lo) / 2 : hi;
    }
    if (!narrow || hi - lo < 4) return sx_choose(n, lo, hi);
    switch (sx_choose(n, 0, 4)) {
    case 0: return lo;
    case 1: return lo + 1;
    case 2: return lo + (hi - lo) / 2;
    case 3: return hi - 1;
    default: return hi;
    }
}
// an arbitrary operation applicable to a sequence of `n` elements
inline step choose_step(uint64_t n, bool flex, int narrow, uint64_t nother, unsigned mask = ~0u)
{
    static const char* names[] = {"step push_back", "step set", "step update", "step take", "step push_front", "step drop", "step insert", "step insert sequence", "step erase", "step erase range", "step append", "step prepend", "step append itself"};
    int ops[FLEX_OPS], k = 0;
    for (int o = 0; o < (flex ? (int) FLEX_OPS : (int) VEC_OPS); o++) {
        if (!(mask >> o & 1)) continue;
        if ((o == ASSIGN || o == UPDATE || o == ERASE || o == ERASER) && n == 0) continue;
        ops[k++] = o;
    }
    step s;
    s.op = ops[sx_choose("op", 0, k - 1)];
    sx_reach(names[s.op]);
    switch (s.op) {
    case PUSH: case PUSHF: s.x = fresh(); break;
    case ASSIGN: case UPDATE: s.i = pos("i", 0, n - 1, narrow); s.x = fresh(); break;
    case TAKE: case DROP: s.i = pos("i", 0, n + 1, narrow); break;
    case INS: s.i = pos("i", 0, n, narrow); s.x = fresh(); break;
    case INSV: s.i = pos("i", 0, n, narrow); s.o = sx_choose("other", 0, nother - 1); break;
    case ERASE: s.i = pos("i", 0, n - 1, narrow); break;
    case ERASER: s.i = pos("i", 0, n, narrow); s.j = pos("j", s.i, n, narrow); break;
    case CATR: case CATL: s.o = sx_choose("other", 0, nother - 1); break;
    }
    return s;
}
inline uint64_t upd(uint64_t v, uint64_t x) { return v ^ x; }
inline void apply(model& m, const step& s, const model* others)
{
    switch (s.op) {
    case PUSH: m.push_back(s.x); break;
    case PUSHF: m.insert(0, s.x); break;
    case ASSIGN: m.set(s.i, s.x); break;
    case UPDATE: m.set(s.i, upd(m[s.i], s.x)); break;
    case TAKE: m.take(s.i); break;
    case DROP: m.drop(s.i); break;
    case INS: m.insert(s.i, s.x); break;
    case INSV: m.insert(s.i, others[s.o]); break;
    case ERASE: m.erase(s.i, s.i + 1); break;
    case ERASER: m.erase(s.i, s.j); break;
    case CATR: m.append(others[s.o]); break;
    case CATL: { model r = others[s.o]; r.append(m); m = r; break; }
    case CATSELF: { model r = m; m.append(r); break; }
    }
}
template <typename T>
struct updater
{
    uint64_t x;
    T operator()(const T& e) const { return T(upd(val(e), x)); }
};
// the persistent operation
template <typename V>
V apply_vec(const V& v, const step& s)
{
    using T = typename V::value_type;
    switch (s.op) {
    case PUSH: return v.push_back(T(s.x));
    case ASSIGN: return v.set(s.i, T(s.x));
    case UPDATE: return v.update(s.i, updater<T>{s.x});
    case TAKE: return v.take(s.i);
    }
    return v;
}
template <typename V>
std::enable_if_t<!is_flex<V>::value, V> apply(const V& v, const step& s, const V*) { return apply_vec(v, s); }
template <typename V>
std::enable_if_t<is_flex<V>::value, V> apply(const V& v, const step& s, const V* others)
{
    using T = typename V::value_type;
    switch (s.op) {
    case PUSHF: return v.push_front(T(s.x));
    case DROP: return v.drop(s.i);
    case INS: return v.insert(s.i, T(s.x));
    case INSV: return v.insert(s.i, others[s.o]);
    case ERASE: return v.erase(s.i);
    case ERASER: return v.erase(s.i, s.j);
    case CATR: return v + others[s.o];
    case CATL: return others[s.o] + v;
    case CATSELF: return v + v;
    }
    return apply_vec(v, s);
}
// the operation on an r-value
template <typename V>
V apply_move_vec(V&& v, const step& s)
{
    using T = typename V::value_type;
    switch (s.op) {
    case PUSH: return std::move(v).push_back(T(s.x));
    case ASSIGN: return std::move(v).set(s.i, T(s.x));
    case UPDATE: return std::move(v).update(s.i, updater<T>{s.x});
    case TAKE: return std::move(v).take(s.i);
    }
    return std::move(v);
}
template <typename V>
std::enable_if_t<!is_flex<V>::value, V> apply_move(V&& v, const step& s, V*, int) { return apply_move_vec(std::move(v), s); }
// how: 0 only this operand is an r-value, 1 only the other, 2 both
template <typename V>
std::enable_if_t<is_flex<V>::value, V> apply_move(V&& v, const step& s, V* others, int how)
{
    using T = typename V::value_type;
    V* o = others ? &others[s.o] : nullptr;
    switch (s.op) {
    case PUSHF: return std::move(v).push_front(T(s.x));
    case DROP: return std::move(v).drop(s.i);
    case INS: return std::move(v).insert(s.i, T(s.x));
    case INSV: if (how == 2) return std::move(v).insert(s.i, std::move(*o)); return std::move(v).insert(s.i, *o);
    case ERASE: return std::move(v).erase(s.i);
    case ERASER: return std::move(v).erase(s.i, s.j);
    case CATR: return how == 0 ? std::move(v) + *o : how == 1 ? v + std::move(*o) : std::move(v) + std::move(*o);
    case CATL: return how == 0 ? *o + std::move(v) : how == 1 ? std::move(*o) + v : std::move(*o) + std::move(v);
    case CATSELF: { V c = v; return how == 0 ? std::move(v) + c : how == 1 ? v + std::move(c) : std::move(v) + std::move(c); }
    }
    return apply_move_vec(std::move(v), s);
}
// the operation on a transient
template <typename TR, typename T>
bool apply_tr_vec(TR& t, const step& s)
{
    switch (s.op) {
    case PUSH: t.push_back(T(s.x)); return true;
    case ASSIGN: t.set(s.i, T(s.x)); return true;
    case UPDATE: t.update(s.i, updater<T>{s.x}); return true;
    case TAKE: t.take(s.i); return true;
    }
    return false;
}
// the operations every transient of flex_vector has
enum : unsigned { TR_VEC = 1u << PUSH | 1u << ASSIGN | 1u << UPDATE | 1u << TAKE, TR_FLEX = TR_VEC | 1u << DROP | 1u << CATR | 1u << CATL };
template <typename V, typename TR>
std::enable_if_t<!is_flex<V>::value> apply_tr(TR& t, const step& s, TR*, bool) { apply_tr_vec<TR, typename V::value_type>(t, s); }
template <typename V, typename TR>
std::enable_if_t<is_flex<V>::value> apply_tr(TR& t, const step& s, TR* other, bool consume)
{
    switch (s.op) {
    case DROP: t.drop(s.i); return;
    case CATR: if (consume) t.append(std::move(*other)); else t.append(*other); return;
    case CATL: if (consume) t.prepend(std::move(*other)); else t.prepend(*other); return;
    }
    apply_tr_vec<TR, typename V::value_type>(t, s);
}

// a sequence of up to `a` elements in any of the shapes the operations leave
// behind; kinds is a bit mask
enum : unsigned { S_REG = 1, S_DROP = 2, S_CAT = 4, S_FRONT = 8, S_CATDROP = 16, S_TAKE = 32, S_ALL = 63 };
template <typename V>
std::enable_if_t<!is_flex<V>::value, V> shape(model& m, uint64_t a, unsigned kinds = S_ALL, bool = false)
{
    if ((kinds & S_TAKE) && sx_choose("taken", 0, 1)) {
        auto n = sx_choose("n", 1, a), k = sx_choose("k", 0, n - 1);
        auto v = build_t<V>(n, m).take(k);
        m.take(k);
        return v;
    }
    return build_t<V>(sx_choose("n", 0, a), m);
}
template <typename V>
std::enable_if_t<is_flex<V>::value, V> shape(model& m, uint64_t a, unsigned kinds = S_ALL, bool narrow = false)
{
    int ks[6], k = 0;
    for (int i = 0; i < 6; i++) if (kinds >> i & 1) ks[k++] = i;
    auto kind = k == 1 ? ks[0] : ks[sx_choose("shape", 0, k - 1)];
    switch (kind) {
    case 1: {
        auto n = sx_choose("n", 1, a), d = pos("d", 1, n, narrow);
        auto v = build_t<V>(n, m).drop(d);
        m.drop(d);
        return v;
    }
    case 2: {
        auto n = sx_choose("n", 1, a - 1), d = pos("m", 1, a - n, narrow);
        model m2;
        auto l = build_t<V>(n, m);
        auto r = build_t<V>(d, m2);
        m.append(m2);
        return l + r;
    }
    case 3: {
        auto n = sx_choose("n", 0, a - 1), d = pos("m", 1, a - n, narrow);
        auto v = build_t<V>(n, m);
        for (uint64_t i = 0; i < d; i++) { auto x = fresh(); v = v.push_front(typename V::value_type(x)); m.insert(0, x); }
        return v;
    }
    case 4: {
        auto n = sx_choose("n", 2, a - 1), c = pos("m", 1, a - n, narrow), d = pos("d", 1, n - 1, narrow);
        model m2;
        auto l = build_t<V>(n, m);
        auto r = build_t<V>(c, m2);
        m.append(m2);
        m.drop(d);
        return (l + r).drop(d);
    }
    case 5: {
        auto n = sx_choose("n", 1, a), d = pos("k", 0, n - 1, narrow);
        auto v = build_t<V>(n, m).take(d);
        m.take(d);
        return v;
    }
    default: return build_t<V>(sx_choose("n", 0, a), m);
    }
}
