// Boxes: values, sharing, copy-on-write, comparisons, life-cycle, failures.
#include "common.hpp"
#include <immer/box.hpp>
#ifndef SXMEM
#define SXMEM sx_memory
#endif
#ifndef SXK
#define SXK 3
#endif
#ifndef SXFAULTK
#define SXFAULTK 2
#endif
inline bool operator<(const elem& a, const elem& b) { return a.get() < b.get(); }
namespace std { template <> struct hash<elem> { size_t operator()(const elem& e) const { return e.get() * 31; } }; }
using BOX = immer::box<elem, SXMEM>;
constexpr int N = 3;
struct upd
{
    uint64_t x;
    bool faulty;
    elem operator()(const elem& e) const { if (faulty) fault_point(); return elem(e.get() + x); }
    elem operator()(elem&& e) const { if (faulty) fault_point(); e.v += x; return std::move(e); }
    // what is shared must not be handed out for modification
    elem operator()(elem& e) const { e.v += x; return elem(e.get()); }
};
struct obj { BOX b; uint64_t m; bool valid; int id; };
static bool consistent(obj** o)
{
    bool good = true;
    for (int i = 0; i < N; i++) {
        if (!o[i] || !o[i]->valid) continue;
        auto& x = *o[i];
        good &= x.b.get().get() == x.m;
        good &= (*x.b).get() == x.m && x.b->get() == x.m && static_cast<const elem&>(x.b).get() == x.m;
    }
    return good;
}
static void compare(obj** o)
{
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) {
            if (!o[i] || !o[j] || !o[i]->valid || !o[j]->valid) continue;
            auto &a = o[i]->b, &b = o[j]->b;
            auto x = o[i]->m, y = o[j]->m;
            CHECKM((a == b) == (x == y), "== of boxes differs from that of the values");
            CHECKM((a != b) == (x != y), "!= of boxes differs from that of the values");
            CHECKM((a < b) == (x < y), "< of boxes differs from that of the values");
            CHECKM((a == b.get()) == (x == y) && (a.get() == b) == (x == y), "== of a box and a value differs from that of the values");
            CHECKM((a != b.get()) == (x != y) && (a.get() != b) == (x != y), "!= of a box and a value differs from that of the values");
            CHECKM((a < b.get()) == (x < y) && (a.get() < b) == (x < y), "< of a box and a value differs from that of the values");
            CHECKM(std::hash<BOX>{}(a) == std::hash<elem>{}(b.get()) || x != y, "the hash of a box differs from that of the value");
            if (o[i]->id == o[j]->id) CHECKM(&a.get() == &b.get(), "copies of a box do not share the value");
        }
}
enum { FRESH, COPY_C, MOVE_C, COPY_A, MOVE_A, SWAP, UPD_L, UPD_R, OPS };
static int g_id;
// one operation on *o[a] and *o[b]; throws what the operation throws
static void step(obj** o, bool faulty)
{
    auto op = sx_choose("op", 0, OPS - 1);
    auto a = sx_choose("a", 0, N - 1);
    bool two = op == COPY_C || op == MOVE_C || op == COPY_A || op == MOVE_A || op == SWAP;
    auto b = two ? sx_choose("b", 0, N - 1) : a;
    auto &x = *o[a], &y = *o[b];
    auto c0 = g_copies, m0 = g_moves, al0 = g_allocs;
    bool shallow = true;
    switch (op) {
    case FRESH: {
        auto v = fresh();
        switch (sx_choose("ctor", 0, 2)) {
        case 0: { auto* z = new obj{BOX{}, 0, true, ++g_id}; delete o[a]; o[a] = z; break; }
        case 1: x.b = BOX{v}; x.m = v; x.id = ++g_id; x.valid = true; break;
        case 2: { elem e{v}; x.b = e; x.m = v; x.id = ++g_id; x.valid = true; break; }
        }
        shallow = false;
        break;
    }
    case COPY_C: {
        if (!y.valid) break;
        auto* z = new obj{y.b, y.m, true, y.id};
        delete o[a];
        o[a] = z;
        break;
    }
    case MOVE_C: {
        if (a == b) break;
        auto* z = new obj{std::move(y.b), y.m, y.valid, y.id};
        y.valid = false;
        delete o[a];
        o[a] = z;
        break;
    }
    case COPY_A: if (y.valid) { x.b = y.b; x.m = y.m; x.valid = true; x.id = y.id; } break;
    case MOVE_A: if (a != b) { x.b = std::move(y.b); x.m = y.m; x.valid = y.valid; x.id = y.id; y.valid = false; } break;
    case SWAP: { using std::swap; swap(x.b, y.b); if (a != b) { swap(x.m, y.m); swap(x.valid, y.valid); swap(x.id, y.id); } break; }
    case UPD_L: {
        if (!x.valid) break;
        auto v = fresh();
        auto r = x.b.update(upd{v, faulty});
        CHECKM(r.get().get() == x.m + v, "update yields the wrong value");
        CHECKM(x.b.get().get() == x.m, "update changes the box it is called on");
        x.b = std::move(r);
        x.m += v;
        x.id = ++g_id;
        shallow = false;
        break;
    }
    case UPD_R: {
        if (!x.valid) break;
        auto v = fresh();
        int sharing = 0;
        for (int i = 0; i < N; i++) sharing += !o[i]->valid || o[i]->id == x.id;
        x.id = ++g_id;
        x.valid = false; // if it throws
        BOX r = std::move(x.b).update(upd{v, faulty});
        // a moved-from box may keep what its target had
        if (sharing == 1) { CHECKM(g_allocs == al0 && g_copies == c0, "update of a box nobody else has does not reuse it");
            sx_reach("in place"); }
        else sx_reach("copy on write");
        CHECKM(r.get().get() == x.m + v, "update yields the wrong value");
        x.b = std::move(r);
        x.valid = true;
        x.m += v;
        shallow = false;
        break;
    }
    }
    if (shallow) CHECKM(g_copies == c0 && g_moves == m0 && g_allocs == al0, "copying, moving or swapping a box touches the value");
}
static void history(int k, bool faults)
{
    {
        obj* o[N];
        for (int i = 0; i < N; i++) { auto v = fresh(); o[i] = new obj{BOX{v}, v, true, ++g_id}; }
        for (int s = 0; s < k; s++) {
            bool last = faults && s == k - 1;
            if (last) { g_faults = faults_t{}; g_faults.at = sx_range("fault", 0, 4); g_faults.armed = true; }
            bool threw = false;
            try { step(o, last); } catch (const fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
            g_faults.armed = false;
            if (last) CHECKM(threw == g_faults.fired, "a failure does not reach the caller");
            if (threw) sx_reach("failed");
            CHECKM(consistent(o), "a box changes its value");
        }
        compare(o);
        // the elements alive are those of the distinct valid boxes
        for (int i = 0; i < N; i++) if (o[i]->valid) sx_out(o[i]->b.get().get());
        for (int i = 0; i < N; i++) { delete o[i]; o[i] = nullptr; CHECKM(consistent(o), "destroying a box changes another"); }
    }
    check_no_leaks();
}
extern "C" void h_history() { history(SXK, false); }
extern "C" void h_faults() { history(SXFAULTK, true); }
struct pairlike { uint64_t a, b; elem e; };
extern "C" void h_construct()
{
    {
        using PB = immer::box<pairlike, SXMEM>;
        auto x = fresh(), y = fresh(), z = fresh();
        PB p{x, y, elem{z}};
        CHECKM(p->a == x && p->b == y && p->e.get() == z, "a box does not hold what it was constructed with");
        auto q = p;
        auto r = std::move(p);
        CHECKM(q.impl() == r.impl() && q->b == y, "copies of a box do not share the value");
        using BB = immer::box<BOX, SXMEM>;
        BOX in{x};
        BB out{in};
        CHECKM(out.get() == in && out->impl() == in.impl(), "a box of a box");
        auto out2 = out.update([&](BOX b) { return std::move(b).update(upd{y, false}); });
        CHECKM(out2->get().get() == x + y && out->get().get() == x && in.get().get() == x, "update changes another box");
        auto c0 = g_copies;
        BOX moved{elem{z}};
        CHECKM(g_copies == c0 && moved.get().get() == z, "constructing a box from a r-value copies it");
    }
    check_no_leaks();
}
