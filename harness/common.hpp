// Shared parts of the harnesses: a counting heap with fault injection,
// life-cycle tracked elements, keys with arbitrary hashes, array models.
#pragma once
#include "sx.h"
#include <cstdlib>
#include <immer/heap/heap_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <new>
#include <stdexcept>
#include <utility>
#include <vector>

// ------------------------------------------------------------------ faults
struct fault : std::exception {};
struct faults_t
{
    bool armed = false;
    uint64_t at = ~0ull; // which event fails (symbolic)
    uint64_t n = 0;      // events so far
    bool fired = false;
};
inline faults_t g_faults;
inline bool fault_now()
{
    if (!g_faults.armed) return false;
    if (g_faults.n++ == g_faults.at) {
        g_faults.fired = true;
        g_faults.armed = false;
        return true;
    }
    return false;
}
inline void fault_point()
{
    if (fault_now()) throw fault{};
}

// -------------------------------------------------------------------- heap
#ifdef SXTHREADS
// one counter per thread: the harness adds no synchronisation
struct percpu
{
    long v[8] = {};
    percpu& operator++() { ++v[sx_tid()]; return *this; }
    percpu& operator--() { --v[sx_tid()]; return *this; }
    operator long() const { long r = 0; for (auto x : v) r += x; return r; }
};
using counter = percpu;
#else
using counter = long;
#endif
inline counter g_blocks{}; // live blocks
inline counter g_allocs{}; // allocations so far
struct sx_heap
{
    using type = sx_heap;
    template <typename... Tags>
    static void* allocate(std::size_t size, Tags...)
    {
        if (fault_now()) throw std::bad_alloc{};
        ++g_blocks;
        ++g_allocs;
        return ::operator new(size);
    }
    template <typename... Tags>
    static void deallocate(std::size_t size, void* data, Tags...)
    {
        --g_blocks;
        ::operator delete(data, size); // a wrong size is an error
    }
};
using sx_heap_policy = immer::heap_policy<sx_heap>;
using sx_memory      = immer::memory_policy<sx_heap_policy, immer::refcount_policy, immer::default_lock_policy>;
using sx_memory_u    = immer::memory_policy<sx_heap_policy, immer::unsafe_refcount_policy, immer::no_lock_policy>;
// relaxed nodes with their sizes in the same block
using sx_memory_e      = immer::memory_policy<sx_heap_policy, immer::refcount_policy, immer::default_lock_policy, immer::no_transience_policy, true>;
// nothing is counted or released; ownership is decided by tokens
using sx_memory_gc     = immer::memory_policy<sx_heap_policy, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy, false>;
using sx_memory_gce    = immer::memory_policy<sx_heap_policy, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy, true>;

// ---------------------------------------------------------------- elements
inline counter g_elems{}; // live elements
inline counter g_copies{};
inline counter g_moves{};
enum : uint32_t { ALIVE = 0xA11FEu, DEAD = 0xDEADu };
// An element that knows whether it is alive and where it lives; copying may
// throw.
struct elem
{
    uint64_t v;
    const elem* self;
    uint32_t magic;
    void born() { self = this; magic = ALIVE; ++g_elems; }
    void check() const
    {
        sx_check(magic == ALIVE, "element used while not alive");
        sx_check(self == this, "element relocated bitwise");
    }
    elem() : v(0) { fault_point(); born(); }
    elem(uint64_t x) : v(x) { born(); }
    elem(const elem& o) : v(o.v) { o.check(); fault_point(); ++g_copies; born(); }
    elem(elem&& o) noexcept : v(o.v) { o.check(); o.v = 0xBAD0BAD0; ++g_moves; born(); }
    elem& operator=(const elem& o) { check(); o.check(); fault_point(); ++g_copies; v = o.v; return *this; }
    elem& operator=(elem&& o) noexcept { check(); o.check(); ++g_moves; v = o.v; if (&o != this) o.v = 0xBAD0BAD0; return *this; }
    ~elem() { check(); magic = DEAD; self = nullptr; --g_elems; }
    uint64_t get() const { check(); return v; }
    friend bool operator==(const elem& a, const elem& b) { a.check(); b.check(); return a.v == b.v; }
    friend bool operator!=(const elem& a, const elem& b) { return !(a == b); }
};
inline uint64_t val(const elem& e) { return e.get(); }
inline uint64_t val(const uint64_t& e) { return e; }
inline uint64_t val(const uint32_t& e) { return e; }
inline uint64_t val(const uint8_t& e) { return e; }
inline uint64_t val(const int& e) { return (uint64_t) e; }

// Empty containers share blocks that live for ever: create those first.
inline long g_blocks0 = 0, g_elems0 = 0;
template <typename... Vs>
void warm()
{
    int dummy[] = {0, ((void) Vs(), 0)...};
    (void) dummy;
    g_blocks0 = g_blocks;
    g_elems0  = g_elems;
}
inline void check_no_leaks()
{
#ifndef SXGC
    CHECKM(g_elems == g_elems0, "an element is leaked or destroyed twice");
    CHECKM(g_blocks == g_blocks0, "a memory block is leaked or released twice");
#endif
}

// ------------------------------------------------------------------- model
// A plain array of values.
struct model
{
    std::vector<uint64_t> d;
    uint64_t size() const { return d.size(); }
    uint64_t operator[](uint64_t i) const { return d[i]; }
    void push_back(uint64_t x) { d.push_back(x); }
    void set(uint64_t i, uint64_t x) { d[i] = x; }
    void take(uint64_t n) { if (n < d.size()) d.resize(n); }
    void drop(uint64_t n) { if (n >= d.size()) d.clear(); else { std::vector<uint64_t> r(d.begin() + n, d.end()); d.swap(r); } }
    void append(const model& o) { std::vector<uint64_t> c(o.d); for (auto x : c) d.push_back(x); }
    void insert(uint64_t i, uint64_t x)
    {
        std::vector<uint64_t> r;
        r.reserve(d.size() + 1);
        for (uint64_t k = 0; k < i; k++) r.push_back(d[k]);
        r.push_back(x);
        for (uint64_t k = i; k < d.size(); k++) r.push_back(d[k]);
        d.swap(r);
    }
    void insert(uint64_t i, const model& o)
    {
        std::vector<uint64_t> r;
        for (uint64_t k = 0; k < i; k++) r.push_back(d[k]);
        for (auto x : o.d) r.push_back(x);
        for (uint64_t k = i; k < d.size(); k++) r.push_back(d[k]);
        d.swap(r);
    }
    void erase(uint64_t i, uint64_t j)
    {
        std::vector<uint64_t> r;
        for (uint64_t k = 0; k < d.size(); k++) if (k < i || k >= j) r.push_back(d[k]);
        d.swap(r);
    }
};

// compares a sequence with its model through operator[] at every index
template <typename V>
void same_index(const V& v, const model& m)
{
    sx_check(v.size() == m.size(), "size differs from the plain array");
    for (uint64_t i = 0; i < m.size(); ++i)
        sx_check(val(v[i]) == m[i], "operator[] differs from the plain array");
}
// ... through iteration
template <typename V>
void same_iter(const V& v, const model& m)
{
    uint64_t i = 0;
    sx_check(v.size() == m.size(), "size differs from the plain array");
    for (auto it = v.begin(), e = v.end(); it != e; ++it, ++i) {
        if (i >= m.size()) { sx_fail("iteration runs past the end"); return; }
        sx_check(val(*it) == m[i], "iteration differs from the plain array");
    }
    sx_check(i == m.size(), "iteration ends early");
}
template <typename V>
void same(const V& v, const model& m)
{
    same_index(v, m);
    same_iter(v, m);
    if (m.size()) {
        sx_check(val(v.front()) == m[0], "front differs from the plain array");
        sx_check(val(v.back()) == m[m.size() - 1], "back differs from the plain array");
    }
}
// ... at one arbitrary index (the solver covers every index)
template <typename V>
void same_at(const V& v, const model& m, const char* nm = "probe")
{
    sx_check(v.size() == m.size(), "size differs from the plain array");
    if (!m.size()) return;
    uint64_t i = sx_range(nm, 0, m.size() - 1);
    sx_check(val(v[i]) == m[i], "operator[] differs from the plain array");
}
inline uint64_t fresh(const char* n = "x") { return sx_sym(32, n); }

template <typename V>
V build(uint64_t n, model& m)
{
    V v;
    for (uint64_t i = 0; i < n; ++i) {
        auto x = fresh();
        v = v.push_back(typename V::value_type(x));
        m.push_back(x);
    }
    return v;
}
// the same through a transient: cheaper
template <typename V>
V build_t(uint64_t n, model& m)
{
    auto t = V{}.transient();
    for (uint64_t i = 0; i < n; ++i) {
        auto x = fresh();
        t.push_back(typename V::value_type(x));
        m.push_back(x);
    }
    return t.persistent();
}
// element i holds base + i: cheap, still distinguishes every position
template <typename V>
V build_c(uint64_t n, model& m, uint64_t base)
{
    auto t = V{}.transient();
    for (uint64_t i = 0; i < n; ++i) {
        t.push_back(typename V::value_type(base + i));
        m.push_back(base + i);
    }
    return t.persistent();
}
template <typename V>
void out_all(const V& v)
{
    sx_out(v.size());
    for (auto it = v.begin(), e = v.end(); it != e; ++it) sx_out(val(*it));
}
