// Heap adaptors on top of a parent heap that knows what it gave away.
#define IMMER_ENABLE_DEBUG_SIZE_HEAP 1
#include "sx.h"
#include <cstdlib>
#include <new>
// malloc as the malloc heap sees it: may fail
static bool malloc_fails = false;
static long mallocs = 0;
namespace std {
inline void* sx_malloc(size_t n) { if (malloc_fails) return nullptr; ++mallocs; return ::operator new(n); }
inline void sx_free(void* p) { --mallocs; ::operator delete(p); }
}
#include <cassert>
#include <exception>
#include <memory>
#define malloc sx_malloc
#define free sx_free
#include <immer/heap/malloc_heap.hpp>
#undef malloc
#undef free
#include "common.hpp"
#include <immer/box.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/with_data.hpp>
#include <immer/vector.hpp>
#ifndef SXK
#define SXK 8
#endif
// ------------------------------------------------------------------ parent
enum { ROOM = 512, MAXB = 40 };
struct parent_state
{
    struct { char* p; uint64_t size; bool live; } b[MAXB];
    int n = 0;
    long live = 0;
    bool fail = false;
};
template <int Id>
struct parent
{
    static parent_state& st() { static parent_state s; return s; }
    template <typename... Tags>
    static void* allocate(std::size_t size, Tags...)
    {
        auto& s = st();
        if (s.fail) throw std::bad_alloc{};
        sx_check(size <= ROOM, "an absurd size is asked of the parent heap");
        auto p = static_cast<char*>(::operator new(ROOM));
        int i = 0;
        while (i < s.n && s.b[i].live) ++i;
        if (i >= MAXB) { sx_fail("too many blocks are taken from the parent heap"); return p; }
        if (i == s.n) ++s.n;
        s.b[i].p = p, s.b[i].size = size, s.b[i].live = true;
        ++s.live;
        return p;
    }
    template <typename... Tags>
    static void deallocate(std::size_t size, void* data, Tags...)
    {
        auto& s = st();
        for (int i = 0; i < s.n; i++)
            if (s.b[i].live && s.b[i].p == data) {
                sx_check(s.b[i].size == size, "a block goes back to the parent heap with another size");
                s.b[i].live = false;
                --s.live;
                ::operator delete(data);
                return;
            }
        sx_fail("something goes back to the parent heap that it did not give");
    }
    // is [p, p + size) inside one live block?
    static bool holds(const void* q, uint64_t size)
    {
        auto& s = st();
        auto p = static_cast<const char*>(q);
        for (int i = 0; i < s.n; i++)
            if (s.b[i].live && s.b[i].p <= p && p < s.b[i].p + ROOM) return (uint64_t) (p - s.b[i].p) + size <= s.b[i].size;
        return false;
    }
};
// ------------------------------------------------------------------ driver
struct held { char* p = nullptr; uint64_t size = 0; uint64_t mark = 0; };
// lo, hi: permitted sizes; keep: blocks that may be kept back at most
template <typename Heap, typename Parent, typename Parent2 = Parent>
static void drive(uint64_t lo, uint64_t hi, long keep, int K, void (*clear)() = nullptr, uint64_t align = 16)
{
    held h[SXK + 2];
    int n = 0;
    long given = 0;
    auto held_by_parents = [] { return Parent::st().live + (std::is_same<Parent, Parent2>::value ? 0 : Parent2::st().live); };
    auto verify = [&] {
        for (int i = 0; i < n; i++) if (h[i].p) {
            CHECKM(*reinterpret_cast<uint64_t*>(h[i].p) == h[i].mark, "a block in use is overwritten");
            for (int j = 0; j < i; j++) if (h[j].p) CHECKM(h[i].p >= h[j].p + h[j].size || h[j].p >= h[i].p + h[i].size, "blocks in use overlap");
        }
        CHECKM(held_by_parents() >= given, "a block in use went back to the parent heap");
        CHECKM(held_by_parents() <= given + keep, "more blocks are kept than the limit");
    };
    for (int k = 0; k < K; k++) {
        int live = 0;
        for (int i = 0; i < n; i++) live += h[i].p != nullptr;
        auto op = sx_choose("op", 0, live ? 2 : 1);
        if (op < 2) {
            auto size = sx_range("size", lo, hi);
            bool fail = op == 1;
            if (fail) Parent::st().fail = Parent2::st().fail = true;
            char* p = nullptr;
            bool threw = false;
            try { p = static_cast<char*>(Heap::allocate(size)); } catch (const std::bad_alloc&) { threw = true; }
            if (threw) { CHECKM(fail, "bad_alloc although the parent heap has memory"); sx_reach("parent fails"); }
            Parent::st().fail = Parent2::st().fail = false;
            if (!threw) {
                if (fail) sx_reach("served from the free list");
                ++given;
                CHECKM(p != nullptr, "no block");
                CHECKM(Parent::holds(p, size) || Parent2::holds(p, size), "a block is not inside what the parent heap gave, or too small");
                CHECKM((reinterpret_cast<uintptr_t>(p) & 7) == 0, "a block is not aligned for a pointer");
                if (align > 8) CHECKM((reinterpret_cast<uintptr_t>(p) & (align - 1)) == 0, "a block is less aligned than std::max_align_t");
                h[n] = held{p, size, 0x1111111111111111ull * (k + 1)};
                *reinterpret_cast<uint64_t*>(p) = h[n].mark;
                ++n;
            }
        } else {
            auto w = (int) sx_choose("which", 0, live - 1);
            int i = 0;
            for (;; i++) if (h[i].p && !w--) break;
            CHECKM(*reinterpret_cast<uint64_t*>(h[i].p) == h[i].mark, "a block in use is overwritten");
            Heap::deallocate(h[i].size, h[i].p);
            h[i].p = nullptr;
            --given;
            sx_reach("deallocate");
        }
        verify();
        sx_out(held_by_parents());
    }
    for (int i = 0; i < n; i++) if (h[i].p) { Heap::deallocate(h[i].size, h[i].p); h[i].p = nullptr; --given; verify(); }
    if (clear) {
        clear();
        CHECKM(held_by_parents() == keep - (keep), "clear does not return everything");
        // usable afterwards
        auto p = Heap::allocate(lo);
        CHECK(Parent::holds(p, lo) || Parent2::holds(p, lo));
        Heap::deallocate(lo, p);
        clear();
        CHECKM(held_by_parents() == 0, "clear does not return everything");
    }
    if (!keep) CHECKM(held_by_parents() == 0, "a block did not go back to the parent heap");
}
using P0 = parent<0>;
using P1 = parent<1>;
constexpr auto NODE = sizeof(immer::free_list_node);
using UFL = immer::unsafe_free_list_heap<24, 2, P0>;
using TFL = immer::thread_local_free_list_heap<24, 2, P0>;
using FL  = immer::free_list_heap<24, 2, P0>;
using LFL = immer::thread_local_free_list_heap<24, 1, immer::free_list_heap<24, 1, P0>>;
extern "C" void h_unsafe_free_list() { drive<UFL, P0>(NODE, NODE + 24, 2, SXK, [] { UFL::clear(); }); }
extern "C" void h_thread_local_free_list() { drive<TFL, P0>(NODE, NODE + 24, 2, SXK, [] { TFL::clear(); }); }
extern "C" void h_free_list() { drive<FL, P0>(NODE, NODE + 24, 2, SXK); }
extern "C" void h_no_limit_left() { using H = immer::unsafe_free_list_heap<16, 0, P0>; drive<H, P0>(NODE, NODE + 16, 0, SXK, [] { H::clear(); }); }
extern "C" void h_layered() { drive<LFL, P0>(NODE, NODE + 24, 2, SXK); }
extern "C" void h_split() { drive<immer::split_heap<32, P0, P1>, P0, P1>(8, 64, 0, SXK); }
extern "C" void h_split_routes()
{
    using H = immer::split_heap<32, P0, P1>;
    auto n = sx_range("size", 1, 64);
    auto p = H::allocate(n);
    CHECKM(P0::holds(p, n) == (n <= 32) && P1::holds(p, n) == (n > 32), "a size is routed to the wrong heap");
    H::deallocate(n, p);
    CHECKM(P0::st().live == 0 && P1::st().live == 0, "a block did not go back to the parent heap");
}
struct pair16 { uint64_t a = 5, b = 6; };
extern "C" void h_with_data() { drive<immer::with_data<pair16, P0>, P0>(8, 64, 0, SXK - 1); }
static long datas = 0;
struct counted { uint64_t self; uint64_t pad; counted() : self((uint64_t) this), pad(0) { ++datas; } ~counted() { CHECKM(self == (uint64_t) this, "the data in front of a block is lost"); --datas; } };
extern "C" void h_with_data_lifetime()
{
    using H = immer::with_data<counted, P0>;
    drive<H, P0>(8, 64, 0, SXK - 1);
    CHECKM(datas == 0, "the data in front of a block outlives it");
    auto p = H::allocate(8);
    CHECK(datas == 1);
    H::deallocate(8, p);
    CHECK(datas == 0);
}
extern "C" void h_debug() { drive<immer::debug_size_heap<P0>, P0>(8, 64, 0, SXK - 1); }
extern "C" void h_identity() { drive<immer::identity_heap<P0>, P0>(8, 64, 0, SXK - 1); }
extern "C" void h_debug_with_data() { drive<immer::debug_size_heap<immer::with_data<pair16, immer::identity_heap<P0>>>, P0>(8, 64, 0, SXK - 1); }
// the policies, as containers use them
template <typename Policy, std::size_t Size, typename P>
static void policy(long keep, uint64_t align)
{
    using opt = typename Policy::template optimized<Size>::type;
    drive<opt, P>(8, 2 * Size, keep, SXK - 1, nullptr, align);
}
extern "C" void h_policy_plain() { policy<immer::heap_policy<P0>, 40, P0>(0, 16); }
extern "C" void h_policy_unsafe() { policy<immer::unsafe_free_list_heap_policy<P0, 2>, 40, P0>(2, 16); }
extern "C" void h_policy_free_list() { policy<immer::free_list_heap_policy<P0, 1>, 40, P0>(2, 16); }
extern "C" void h_policy_type()
{
    switch (sx_choose("policy", 0, 2)) {
    case 0: drive<immer::heap_policy<P0>::type, P0>(8, 80, 0, SXK - 1); break;
    case 1: drive<immer::unsafe_free_list_heap_policy<P0, 2>::type, P0>(8, 80, 0, SXK - 1); break;
    case 2: drive<immer::free_list_heap_policy<P0, 2>::type, P0>(8, 80, 0, SXK - 1); break;
    }
}
struct alignas(16) wide { uint64_t a = 0, b = 0; };
template <typename Policy>
static void elements()
{
    using MP = immer::memory_policy<Policy, immer::refcount_policy, immer::default_lock_policy>;
    auto n = sx_choose("n", 1, 9);
    immer::vector<wide, MP, 2, 1> v;
    for (uint64_t i = 0; i < n; i++) v = v.push_back(wide{});
    for (auto& x : v) { const void* volatile q = &x; CHECKM((reinterpret_cast<uintptr_t>(q) & 15) == 0, "an element is less aligned than its type demands"); }
}
extern "C" void h_elements() { elements<immer::heap_policy<P0>>(); }
extern "C" void h_elements_unsafe() { elements<immer::unsafe_free_list_heap_policy<P0>>(); }
extern "C" void h_elements_free_list() { elements<immer::free_list_heap_policy<P0>>(); }
// objects that allocate themselves through a policy
template <typename Policy> struct object : immer::enable_optimized_heap_policy<object<Policy>, Policy> { uint64_t a = 1, b = 2, c = 3; };
template <typename Policy> struct bigger : object<Policy> { uint64_t d[6] = {4, 4, 4, 4, 4, 4}; };
template <typename Policy>
static void objects(long keep)
{
    using O = object<Policy>;
    O* o[SXK] = {};
    for (int k = 0; k < SXK; k++) {
        if (o[k / 2] && sx_choose("delete", 0, 1)) { CHECK(o[k / 2]->a == 1 && o[k / 2]->c == 3); delete o[k / 2]; o[k / 2] = nullptr; }
        else o[k] = new O;
    }
    long live = 0;
    for (auto& x : o) live += x != nullptr;
    CHECKM(P0::st().live >= live && P0::st().live <= live + keep, "more blocks are kept than the limit");
    auto b = new bigger<Policy>;
    CHECK(b->d[5] == 4 && b->c == 3);
    CHECKM(P0::holds(b, sizeof(bigger<Policy>)), "an object does not fit its block");
    delete b;
    for (auto& x : o) if (x) { CHECK(x->a == 1 && x->b == 2 && x->c == 3); delete x; }
    CHECKM(P0::st().live <= keep, "more blocks are kept than the limit");
}
extern "C" void h_objects_plain() { objects<immer::heap_policy<P0>>(0); }
extern "C" void h_objects_unsafe() { objects<immer::unsafe_free_list_heap_policy<P0, 2>>(2); }
extern "C" void h_objects_free_list() { objects<immer::free_list_heap_policy<P0, 1>>(2); }
extern "C" void h_malloc()
{
    void* p = nullptr;
    auto n = sx_choose("size", 1, 40);
    malloc_fails = sx_choose("fails", 0, 1);
    bool threw = false;
    try { p = immer::malloc_heap::allocate(n); } catch (const std::bad_alloc&) { threw = true; }
    CHECKM(threw == malloc_fails, "a failing malloc is not reported as bad_alloc");
    malloc_fails = false;
    if (p) {
        for (uint64_t i = 0; i < n; i++) static_cast<char*>(p)[i] = 1;
        auto q = immer::malloc_heap::allocate(n);
        CHECK(q != p);
        immer::malloc_heap::deallocate(n, p);
        immer::malloc_heap::deallocate(n, q);
    }
    CHECKM(mallocs == 0, "a block of malloc is leaked or released twice");
}
extern "C" void h_cpp()
{
    auto n = sx_choose("size", 1, 40), m = sx_choose("size", 1, 40);
    auto p = static_cast<char*>(immer::cpp_heap::allocate(n)), q = static_cast<char*>(immer::cpp_heap::allocate(m));
    for (uint64_t i = 0; i < n; i++) p[i] = 1;
    for (uint64_t i = 0; i < m; i++) q[i] = 2;
    for (uint64_t i = 0; i < n; i++) CHECK(p[i] == 1);
    immer::cpp_heap::deallocate(n, p);
    for (uint64_t i = 0; i < m; i++) CHECK(q[i] == 2);
    immer::cpp_heap::deallocate(m, q);
}
