// Threads on one atom: every result is explained by some order of the
// operations that respects the order in which they really happened.
#include "common.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>
#ifndef SXMEM
#define SXMEM sx_memory
#endif
#ifndef SXTN
#define SXTN 2 // threads
#endif
#ifndef SXK
#define SXK 2 // operations of each
#endif
using BOX  = immer::box<elem, SXMEM>;
using ATOM = immer::atom<elem, SXMEM>;
enum { LOAD, STORE, EXCHANGE, UPDATE, OPS };
static uint64_t next(uint64_t v, uint64_t x) { return v * 3 + x; }
struct op_t
{
    int op;
    uint64_t x;
    uint64_t result = 0, start = 0, end = 0;
};
struct thread_t
{
    ATOM* a;
    bool keep; // hold on to the boxes until the end of the thread
    op_t ops[SXK];
};
static uint64_t perform(ATOM& a, const op_t& o, BOX& r)
{
    switch (o.op) {
    case LOAD: r = a.load(); break;
    case STORE: a.store(BOX{elem(o.x)}); return 0;
    case EXCHANGE: r = a.exchange(BOX{elem(o.x)}); break;
    case UPDATE: r = a.update([&](const elem& v) { return elem(next(val(v), o.x)); }); break;
    }
    return val(r.get());
}
static void body(void* p)
{
    auto& t = *(thread_t*) p;
    BOX kept[SXK];
    for (int k = 0; k < SXK; k++) {
        auto& o = t.ops[k];
        BOX r;
        o.start = sx_now();
        o.result = perform(*t.a, o, r);
        o.end = sx_now();
        if (t.keep) kept[k] = r;
    }
    for (int k = 0; k < SXK; k++) if (t.keep && t.ops[k].op != STORE) sx_check(val(kept[k].get()) == t.ops[k].result, "a box that an atom handed out has changed");
}
// does the operation, done now, return what it returned?
static uint64_t step(const op_t& o, uint64_t& cur)
{
    uint64_t ok = 1;
    switch (o.op) {
    case LOAD: ok = o.result == cur; break;
    case STORE: cur = o.x; break;
    case EXCHANGE: ok = o.result == cur; cur = o.x; break;
    case UPDATE: cur = next(cur, o.x); ok = o.result == cur; break;
    }
    return ok;
}
static uint64_t explain(thread_t* t, int* done, uint64_t cur, uint64_t ok, uint64_t fin)
{
    bool all = true;
    uint64_t any = 0;
    for (int i = 0; i < SXTN; i++) {
        if (done[i] == SXK) continue;
        all = false;
        auto& o = t[i].ops[done[i]];
        // another pending operation that ended before this began comes first
        bool later = false;
        for (int j = 0; j < SXTN; j++) if (j != i && done[j] < SXK && t[j].ops[done[j]].end <= o.start) later = true;
        if (later) continue;
        auto c = cur;
        auto k = step(o, c);
        done[i]++;
        any |= explain(t, done, c, ok & k, fin);
        done[i]--;
    }
    return all ? ok & (uint64_t)(cur == fin) : any;
}
static void run(unsigned mask)
{
    warm<BOX>();
    {
        auto x0 = fresh("initial");
        ATOM a{BOX{elem(x0)}};
        auto* t = new thread_t[SXTN];
        for (int i = 0; i < SXTN; i++) {
            t[i].a = &a;
            t[i].keep = i == 0;
            for (int k = 0; k < SXK; k++) {
                int ops[OPS], n = 0;
                for (int o = 0; o < OPS; o++) if (mask >> o & 1) ops[n++] = o;
                t[i].ops[k].op = ops[sx_choose("op", 0, n - 1)];
                t[i].ops[k].x = fresh();
            }
        }
        int id[SXTN];
        for (int i = 0; i < SXTN; i++) id[i] = sx_spawn(body, &t[i]);
        for (int i = 0; i < SXTN; i++) sx_join(id[i]);
        uint64_t fin = val(a.load().get());
        int done[SXTN] = {};
        sx_check(explain(t, done, x0, 1, fin) != 0, "no order of the operations explains their results");
        for (int i = 0; i < SXTN; i++) for (int k = 0; k < SXK; k++) sx_out(t[i].ops[k].result);
        sx_out(fin);
        delete[] t;
    }
    check_no_leaks();
}
// One thread: every chain of operations, through every way to call them, and
// an update whose function fails at an arbitrary event changes nothing and
// leaves the atom usable.
#ifndef SXS
#define SXS 3
#endif
extern "C" void h_alone()
{
    warm<BOX>();
    {
        auto cur = fresh("initial");
        BOX other{elem(1)};
        ATOM a{BOX{elem(cur)}};
        if (sx_choose("default", 0, 1)) {
            ATOM d;
            sx_check(val(d.load().get()) == 0, "a default atom holds a default value");
            d = BOX{elem(cur)};
            sx_check(val(d.load().get()) == cur, "assignment to an atom is lost");
        }
        for (int k = 0; k < SXS; k++) {
            auto x = fresh();
            switch (sx_choose("op", 0, 7)) {
            case 0: sx_check(val(a.load().get()) == cur, "load returns another value"); break;
            case 1: a.store(BOX{elem(x)}); cur = x; break;
            case 2: a = BOX{elem(x)}; cur = x; break;
            case 3: {
                auto r = a.exchange(BOX{elem(x)});
                sx_check(val(r.get()) == cur, "exchange returns another value");
                cur = x;
                break;
            }
            case 4: {
                auto r = a.update([&](const elem& v) { sx_check(val(v) == cur, "update is given another value"); return elem(next(val(v), x)); });
                cur = next(cur, x);
                sx_check(val(r.get()) == cur, "update returns another value");
                break;
            }
            case 5: {
                elem e = a;
                sx_check(val(e) == cur, "conversion gives another value");
                BOX b = a;
                sx_check(val(b.get()) == cur, "conversion gives another box");
                sx_check(b == a.load(), "two loads of the same value differ");
                break;
            }
            case 6: {
                g_faults.armed = true;
                g_faults.n = 0;
                g_faults.at = sx_sym(8, "fault");
                bool failed = false;
                try {
                    auto r = a.update([&](const elem& v) { fault_point(); return elem(next(val(v), x)); });
                    (void) r;
                } catch (const fault&) { failed = true; } catch (const std::bad_alloc&) { failed = true; }
                g_faults.armed = false;
                if (!failed) cur = next(cur, x);
                if (failed) sx_reach("failed");
                break;
            }
            case 7: // a box that is shared with the atom and with others
                a.store(other);
                cur = 1;
                break;
            }
            auto l = a.load();
            sx_check(val(l.get()) == cur, "the atom holds another value");
            sx_check(val(other.get()) == 1, "storing a box changed it");
        }
        sx_out(cur);
        sx_out(val(a.load().get()));
    }
    check_no_leaks();
}
extern "C" void h_any() { run(15); }
extern "C" void h_update() { run(1 << UPDATE | 1 << LOAD); }
