// One operation on a hash container during which the k-th allocation,
// element copy or callback throws, for every k.
#include "hhist.hpp"
static void arm()
{
    g_faults.n = 0;
    g_faults.fired = false;
    g_faults.at = sx_sym(16, "failing event");
    g_faults.armed = true;
}
static void disarm() { g_faults.armed = false; }
template <typename C>
static void lvalue(unsigned keys)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = sx_choose("n", 0, keys);
        C v = hbuild<C>(p, m, n);
        p.used = n;
        auto s = hchoose<C>(p);
        auto me = m;
        happly<C>(me, s);
        bool threw = false;
        auto elems = g_elems, blocks = g_blocks;
        arm();
        try {
            C w = happly<C>(static_cast<const C&>(v), p, s, true);
            disarm();
            hsame<C>(w, me, p);
            sx_reach("operation succeeds");
        } catch (const fault&) { threw = true; sx_reach("element copy or callback throws");
        } catch (const std::bad_alloc&) { threw = true; sx_reach("allocation throws"); }
        disarm();
        CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
#ifndef SXGC
        CHECKM(g_elems == elems, "a failed operation leaks or destroys elements");
        CHECKM(g_blocks == blocks, "a failed operation leaks or releases blocks");
#endif
        hsame<C>(v, m, p);
        C w = happly<C>(static_cast<const C&>(v), p, s);
        hsame<C>(w, me, p);
        hout(w, p);
    }
    check_no_leaks();
}
template <typename C>
static void mutating(unsigned keys, bool derived = false)
{
    hwarm<C>();
    {
        pool p(SXHOW);
        amodel m;
        auto n = sx_choose("n", 0, keys);
        C v = hbuild<C>(p, m, n);
        p.used = n;
        bool tr = sx_choose("transient", 0, 1);
        bool shared = !derived && sx_choose("shared", 0, 1);
        // a value whose nodes are its own, but the arrays of values in some of
        // them and the other nodes are shared with v
        amodel me = m;
        C d;
        if (derived) {
            auto s0 = hchoose<C>(p, 1u << PUT | 1u << DEL);
            d = happly<C>(static_cast<const C&>(v), p, s0);
            happly<C>(me, s0);
        }
        auto s = hchoose<C>(p);
        happly<C>(me, s);
        bool threw = false;
        {
            C w(derived ? std::move(d) : shared ? C(v) : std::move(v));
            if (!shared && !derived) v = C{}, m = amodel{};
            auto t = C{}.transient();
            if (tr) t = std::move(w).transient();
            arm();
            try {
                if (tr) {
                    happly_tr<C>(t, p, s, true);
                    disarm();
                    hsame<C>(t, me, p);
                } else {
                    C r = happly<C>(std::move(w), p, s, true);
                    disarm();
                    hsame<C>(r, me, p);
                }
                sx_reach("mutation succeeds");
            } catch (const fault&) { threw = true; sx_reach("mutation: element copy throws");
            } catch (const std::bad_alloc&) { threw = true; sx_reach("mutation: allocation throws"); }
            disarm();
            CHECKM(threw == g_faults.fired, "the exception did not reach the caller");
        }
        hsame<C>(v, m, p);
        hout(v, p);
    }
    check_no_leaks();
}
extern "C" void h_map_lvalue() { lvalue<MAP>(SXSTART); }
extern "C" void h_set_lvalue() { lvalue<SET>(SXSTART); }
extern "C" void h_table_lvalue() { lvalue<TABLE>(SXSTART); }
extern "C" void h_map_mutating() { mutating<MAP>(SXSTART); }
extern "C" void h_set_mutating() { mutating<SET>(SXSTART); }
extern "C" void h_table_mutating() { mutating<TABLE>(SXSTART); }
extern "C" void h_map_derived() { mutating<MAP>(SXSTART, true); }
extern "C" void h_set_derived() { mutating<SET>(SXSTART, true); }
extern "C" void h_table_derived() { mutating<TABLE>(SXSTART, true); }
