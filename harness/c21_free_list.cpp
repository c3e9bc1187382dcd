// Threads allocating and giving back through the free list heaps.
#include "common.hpp"
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/vector.hpp>
#ifndef SXTN
#define SXTN 2 // threads
#endif
#ifndef SXK
#define SXK 3 // operations of each
#endif
#ifndef SXL
#define SXL 2 // limit of the shared list
#endif
#ifndef SXVN
#define SXVN 2 // elements of the vectors
#endif
#ifndef SXVM
#define SXVM 1
#endif
#ifndef SXPRE
#define SXPRE 3 // blocks in the list at first, at most
#endif
using FL  = immer::free_list_heap<24, SXL, sx_heap>;
using TFL = immer::thread_local_free_list_heap<24, 2, sx_heap>;
using LFL = immer::thread_local_free_list_heap<24, 1, FL>;
enum { SIZE = 24, MAXH = SXK + 2 };
struct block { void* next; uint64_t mark; block* me; };
static void take(block* b, uint64_t mark)
{
    sx_check(((uintptr_t) b & 7) == 0 && b != nullptr, "not a block");
    b->mark = mark;
    b->me = b;
}
static void give(block* b, uint64_t mark) { sx_check(b->mark == mark && b->me == b, "a block in use is changed by someone else"); b->next = nullptr; b->mark = ~0ull; }
template <typename Heap>
struct thread_t
{
    uint64_t mark0;
    block* h[MAXH];
    int n = 0;
    int op[SXK]; // 0: allocate; 1: give back the oldest; 2: the newest
};
template <typename Heap>
static void body(void* p)
{
    auto& t = *(thread_t<Heap>*) p;
    for (int k = 0; k < SXK; k++) {
        switch (t.op[k]) {
        case 0: {
            auto b = static_cast<block*>(Heap::allocate(SIZE));
            take(b, t.mark0);
            for (int i = 0; i < t.n; i++) sx_check(t.h[i] != b, "a block in use is handed out again");
            t.h[t.n++] = b;
            break;
        }
        case 1: {
            auto b = t.h[0];
            for (int i = 1; i < t.n; i++) t.h[i - 1] = t.h[i];
            --t.n;
            give(b, t.mark0);
            Heap::deallocate(SIZE, b);
            break;
        }
        case 2: {
            auto b = t.h[--t.n];
            give(b, t.mark0);
            Heap::deallocate(SIZE, b);
            break;
        }
        }
        for (int i = 0; i < t.n; i++) sx_check(t.h[i]->mark == t.mark0 && t.h[i]->me == t.h[i], "a block in use is changed by someone else");
    }
}
static long blocks() { return g_blocks; }
// shared: blocks may wait in a list that outlives the threads
template <typename Heap, typename Shared>
static void run(bool shared, bool local)
{
    // blocks that are already in the list, and some the threads begin with
    block* pre[SXPRE + 1];
    int npre = shared ? (int) sx_choose("listed", 0, SXPRE) : 0;
    auto* t = new thread_t<Heap>[SXTN];
    for (int i = 0; i < SXTN; i++) {
        t[i].mark0 = 0x1000 + i;
        t[i].n = (int) sx_choose("holds", 0, 1);
        for (int k = 0; k < t[i].n; k++) { t[i].h[k] = static_cast<block*>(Shared::allocate(SIZE)); take(t[i].h[k], t[i].mark0); }
        int held = t[i].n;
        for (int k = 0; k < SXK; k++) {
            auto o = (int) sx_choose("op", 0, held > 1 ? 2 : held > 0 ? 1 : 0);
            held += o ? -1 : 1;
            t[i].op[k] = o;
        }
        // the same with the threads in another order
        if (i && t[i].n == t[i - 1].n) for (int k = 0; k < SXK; k++) { if (t[i].op[k] > t[i - 1].op[k]) break; if (t[i].op[k] < t[i - 1].op[k]) sx_end(); }
    }
    for (int i = 0; i < npre; i++) pre[i] = static_cast<block*>(Shared::allocate(SIZE));
    for (int i = 0; i < npre; i++) { pre[i]->mark = ~0ull; Shared::deallocate(SIZE, pre[i]); }
    int id[SXTN];
    for (int i = 0; i < SXTN; i++) id[i] = sx_spawn(body<Heap>, &t[i]);
    for (int i = 0; i < SXTN; i++) sx_join(id[i]);
    long held = 0;
    for (int i = 0; i < SXTN; i++)
        for (int k = 0; k < t[i].n; k++) {
            ++held;
            sx_check(t[i].h[k]->mark == t[i].mark0 && t[i].h[k]->me == t[i].h[k], "a block in use is changed by someone else");
            for (int j = 0; j < i; j++) for (int l = 0; l < t[j].n; l++) sx_check(t[i].h[k] != t[j].h[l], "a block is handed to two holders");
            sx_out(i);
        }
    if (local) sx_check(blocks() == g_blocks0 + held, "the free list of a thread is not returned when it ends");
    // whatever isn't held can be had again: empty the list
    block* all[SXTN * (SXK + 1) + SXPRE + 4];
    int n = 0;
    for (;;) {
        long before = blocks();
        auto b = static_cast<block*>(Shared::allocate(SIZE));
        for (int i = 0; i < n; i++) sx_check(all[i] != b, "a block is in the list twice");
        for (int i = 0; i < SXTN; i++) for (int k = 0; k < t[i].n; k++) sx_check(t[i].h[k] != b, "a block in use is handed out again");
        take(b, 1);
        all[n++] = b;
        if (blocks() != before) break;
        if (n > SXTN * (SXK + 1) + SXPRE) { sx_fail("the free list does not end"); break; }
    }
    sx_check(blocks() == g_blocks0 + held + n, "a block is lost");
    // and the limit still means what it says
    while (n < SXL + 2) { all[n] = static_cast<block*>(Shared::allocate(SIZE)); take(all[n++], 1); }
    for (int i = 0; i < n; i++) { give(all[i], 1); Shared::deallocate(SIZE, all[i]); }
    for (int i = 0; i < SXTN; i++) for (int k = 0; k < t[i].n; k++) { give(t[i].h[k], t[i].mark0); Shared::deallocate(SIZE, t[i].h[k]); }
    sx_check(blocks() <= g_blocks0 + SXL, "more blocks are kept than the limit");
    delete[] t;
}
extern "C" void h_shared() { g_blocks0 = blocks(); run<FL, FL>(true, false); }
extern "C" void h_layered() { g_blocks0 = blocks(); run<LFL, FL>(true, false); }
extern "C" void h_thread_local() { g_blocks0 = blocks(); run<TFL, TFL>(false, true); TFL::clear(); sx_check(blocks() == g_blocks0, "clear does not return everything"); }
// containers on top of them
template <typename MP>
static void vectors()
{
    using V = immer::vector<uint64_t, MP, 2, 1>;
    struct th { V v; uint64_t n, m; bool move; } t[SXTN];
    auto n = sx_choose("n", 1, SXVN);
    {
        V v;
        for (uint64_t i = 0; i < n; i++) v = v.push_back(i);
        for (auto& x : t) {
            x.v = v;
            x.n = n;
            x.m = sx_choose("m", 0, SXVM);
            x.move = sx_choose("move", 0, 1);
        }
    }
    int id[SXTN];
    for (int i = 0; i < SXTN; i++)
        id[i] = sx_spawn([](void* p) {
            auto& t = *(th*) p;
            for (uint64_t i = 0; i < t.m; i++) t.v = t.move ? std::move(t.v).push_back(t.n + i) : t.v.push_back(t.n + i);
            auto c = t.v.take(t.n);
            uint64_t k = 0;
            for (auto x : t.v) sx_check(x == k++, "a vector's memory is changed by someone else");
            sx_check(k == t.n + t.m, "a vector has lost elements");
            k = 0;
            for (auto x : c) sx_check(x == k++, "a vector's memory is changed by someone else");
            t.v = {};
        }, &t[i]);
    for (int i = 0; i < SXTN; i++) sx_join(id[i]);
    sx_out(n);
}
using MPF = immer::memory_policy<immer::free_list_heap_policy<sx_heap, 2>, immer::refcount_policy, immer::default_lock_policy>;
extern "C" void h_vectors() { vectors<MPF>(); }
