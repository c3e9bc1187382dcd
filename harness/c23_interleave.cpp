// Several transients and values derived from one another in any order: no one
// sees what another does.
#ifdef SXHASHONLY
#include "hashc.hpp"
#else
#include "seq.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#endif
#ifndef SXK
#define SXK 3
#endif
#ifndef SXA
#define SXA 6
#endif
constexpr int NV = 2, NT = 2;
enum { APPLY, COPY_T, MOVE_T, PERSIST, PERSIST_MOVE, FROM_VALUE, FROM_VALUE_MOVE, LVALUE, JOIN, ACTS };
#ifndef SXHASHONLY
template <typename V>
struct world
{
    static constexpr bool flex = is_flex<V>::value;
    using T = typename V::value_type;
    using TR = typename V::transient_type;
    V v[NV];
    model vm[NV];
    TR* t[NT];
    model tm[NT];
    void start()
    {
        v[0] = shape<V>(vm[0], SXA, flex ? S_REG | S_CAT | S_DROP : S_REG | S_TAKE, true);
        v[1] = build_t<V>(2 * LEAF + 1, vm[1]);
        t[0] = new TR(v[0].transient());
        tm[0] = vm[0];
        t[1] = new TR(*t[0]);
        tm[1] = vm[0];
    }
    void finish() { for (auto* x : t) delete x; }
    void check()
    {
        for (int i = 0; i < NV; i++) same_iter(v[i], vm[i]);
        for (int i = 0; i < NT; i++) same_iter(*t[i], tm[i]);
    }
    void apply_to(int i, bool slim)
    {
        constexpr unsigned few = 1u << PUSH | 1u << ASSIGN | 1u << TAKE | 1u << DROP;
        write(i, choose_step(tm[i].size(), flex, slim ? 2 : true, 1, (flex ? TR_FLEX : TR_VEC) & few));
    }
    void write(int i, const step& s)
    {
        apply_tr<V>(*t[i], s, (TR*) nullptr, false);
        apply(tm[i], s, nullptr);
    }
    // everyone writes once more
    void last_writes()
    {
        auto w = sx_choose("last writes", 0, 2);
        for (int i = 0; i < NT; i++) {
            auto n = tm[i].size();
            step s;
            s.op = w == 0 || n == 0 ? PUSH : ASSIGN;
            s.i = w == 1 || n == 0 ? 0 : n - 1;
            s.x = fresh();
            write(i, s);
        }
    }
    void lvalue(int k)
    {
        auto s = choose_step(vm[k].size(), false, 2, 1, 1u << PUSH | 1u << ASSIGN | 1u << TAKE);
        auto w = apply(v[k], s, v);
        v[k] = w;
        apply(vm[k], s, vm);
    }
    template <typename X = V>
    std::enable_if_t<is_flex<X>::value> join(int a, int b)
    {
        auto how = sx_choose("join", 0, 3);
        if (a == b) return;
        auto &x = *t[a], &y = *t[b];
        switch (how) {
        case 0: x.append(y); tm[a].append(tm[b]); break;
        case 1: x.append(std::move(y)); tm[a].append(tm[b]); renew(b); break;
        case 2: { x.prepend(y); model r = tm[b]; r.append(tm[a]); tm[a] = r; break; }
        case 3: { x.prepend(std::move(y)); model r = tm[b]; r.append(tm[a]); tm[a] = r; renew(b); break; }
        }
    }
    template <typename X = V>
    std::enable_if_t<!is_flex<X>::value> join(int, int) {}
    void renew(int b) { delete t[b]; t[b] = new TR(v[1].transient()); tm[b] = vm[1]; }
    void out() { for (int i = 0; i < NT; i++) out_all(*t[i]); }
};
template <typename V> static void warm_all() { warm<V, typename V::transient_type>(); }
#else
template <typename C>
struct world
{
    static constexpr bool flex = false;
    using TR = typename C::transient_type;
    pool p{SXHOW};
    C v[NV];
    amodel vm[NV];
    TR* t[NT];
    amodel tm[NT];
    void start()
    {
        auto n = (unsigned) sx_choose("n", 0, SXP);
        v[0] = hbuild<C>(p, vm[0], n);
        p.used = n;
        v[1] = hbuild<C>(p, vm[1], n / 2);
        t[0] = new TR(v[0].transient());
        tm[0] = vm[0];
        t[1] = new TR(*t[0]);
        tm[1] = vm[0];
    }
    void finish() { for (auto* x : t) delete x; }
    void check()
    {
        for (int i = 0; i < NV; i++) { CHECK(v[i].size() == vm[i].size()); hiterate<C>(v[i], vm[i], p); }
        for (int i = 0; i < NT; i++) { CHECK(t[i]->size() == tm[i].size()); hiterate<C>(*t[i], tm[i], p); }
    }
    void apply_to(int i, bool slim)
    {
        auto s = hchoose<C>(p, slim ? 1u << PUT | 1u << DEL : 1u << PUT | 1u << DEL | 1u << UPD);
        happly_tr<C>(*t[i], p, s);
        happly<C>(tm[i], s);
    }
    void last_writes()
    {
        auto s = hchoose<C>(p, 1u << PUT | 1u << DEL);
        for (int i = 0; i < NT; i++) { happly_tr<C>(*t[i], p, s); happly<C>(tm[i], s); }
    }
    void lvalue(int k)
    {
        auto s = hchoose<C>(p, 1u << PUT | 1u << DEL);
        C w = happly<C>(static_cast<const C&>(v[k]), p, s);
        v[k] = w;
        happly<C>(vm[k], s);
    }
    void join(int, int) {}
    void out() { for (int i = 0; i < NT; i++) sx_out(t[i]->size()); }
};
template <typename C> static void warm_all() { hwarm<C>(); }
#endif
template <typename V>
static void run()
{
    warm_all<V>();
    {
        auto& w = *new world<V>;
        using TR = typename V::transient_type;
        w.start();
        for (int k = 0; k < SXK; k++) {
            auto act = (int) sx_choose("act", 0, w.flex ? ACTS - 1 : JOIN - 1);
            bool two = act != APPLY && act != LVALUE;
            auto a = act == LVALUE ? 0 : sx_choose("a", 0, 1);
            auto b = two ? sx_choose("b", 0, 1) : a;
            switch (act) {
            case APPLY: w.apply_to(a, k > 0); break;
            case COPY_T: { auto& y = *w.t[b]; *w.t[a] = y; auto m = w.tm[b]; w.tm[a] = m; break; }
            case MOVE_T: if (a != b) { *w.t[a] = std::move(*w.t[b]); w.tm[a] = w.tm[b]; delete w.t[b]; w.t[b] = new TR(w.v[1].transient()); w.tm[b] = w.vm[1]; } break;
            case PERSIST: w.v[a] = w.t[b]->persistent(); w.vm[a] = w.tm[b]; break;
            case PERSIST_MOVE: { w.v[a] = std::move(*w.t[b]).persistent(); w.vm[a] = w.tm[b]; delete w.t[b]; w.t[b] = new TR(w.v[1].transient()); w.tm[b] = w.vm[1]; break; }
            case FROM_VALUE: *w.t[a] = w.v[b].transient(); w.tm[a] = w.vm[b]; break;
            case FROM_VALUE_MOVE: *w.t[a] = V(w.v[b]).transient(); w.tm[a] = w.vm[b]; break;
            case LVALUE: w.lvalue(a); break;
            case JOIN: w.join(a, b); break;
            }
            w.check();
        }
        w.last_writes();
        w.check();
        w.out();
        w.finish();
        delete &w;
    }
    check_no_leaks();
}
#ifdef SXHASHONLY
extern "C" void h_map() { run<MAP>(); }
extern "C" void h_set() { run<SET>(); }
extern "C" void h_table() { run<TABLE>(); }
#elif defined SXARRAY
extern "C" void h_array() { run<immer::array<SXT, SXMEM>>(); }
#else
extern "C" void h_vector() { run<VEC>(); }
extern "C" void h_flex() { run<FLEX>(); }
#endif
