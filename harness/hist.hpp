// A growing set of values derived from one another in every way.
#pragma once
#include "seq.hpp"
template <typename V>
struct history
{
    static constexpr bool flex = is_flex<V>::value;
    static constexpr unsigned MAX = 8;
    V v[MAX];
    model m[MAX];
    unsigned n = 0;
    V others[2];
    model mo[2];
    int narrow = 1;
    unsigned mask = ~0u;

    void start(uint64_t a, unsigned kinds)
    {
        v[0] = shape<V>(m[0], a, kinds, true);
        n = 1;
        if (flex) {
            others[0] = build_t<V>(LEAF, mo[0]);
            others[1] = build_t<V>(2 * LEAF + 1, mo[1]);
        }
    }
    void check_all(const char* what = nullptr)
    {
        for (unsigned i = 0; i < n; i++) same_iter(v[i], m[i]);
        if (flex) for (int i = 0; i < 2; i++) same_iter(others[i], mo[i]);
    }
    void check_all_index()
    {
        for (unsigned i = 0; i < n; i++) same_index(v[i], m[i]);
    }
    // derives a new value from one of the existing ones
    // slim: fewer positions and operations (for long histories)
    void derive(bool slim = false)
    {
        const unsigned mask = slim ? this->mask & (1u << PUSH | 1u << ASSIGN | 1u << TAKE | 1u << DROP | 1u << CATR | 1u << INSV) : this->mask;
        const int narrow = slim ? 2 : this->narrow;
        auto src = sx_choose("source", 0, n - 1);
        auto mode = sx_choose("mode", 0, 4);
        switch (mode) {
        case 0: { // l-value
            sx_reach("derive l-value");
            auto s = choose_step(m[src].size(), flex, narrow, 2, mask);
            m[n] = m[src];
            v[n] = apply(v[src], s, others);
            apply(m[n], s, mo);
            break;
        }
        case 1: { // r-value sharing structure with src
            sx_reach("derive shared r-value");
            auto s = choose_step(m[src].size(), flex, narrow, 2, mask);
            m[n] = m[src];
            V o[2] = {others[0], others[1]};
            v[n] = apply_move(V(v[src]), s, o, (int) sx_choose("how", 0, (s.op == CATR || s.op == CATL || s.op == CATSELF) ? 2 : 0));
            apply(m[n], s, mo);
            break;
        }
        case 2: { // transient, persistent in the middle, used further
            sx_reach("derive transient");
            auto t = v[src].transient();
            m[n] = m[src];
            for (int k = 0; k < 2; k++) {
                unsigned last = k ? 1u << PUSH | 1u << ASSIGN : ~0u;
                auto s = choose_step(m[n].size(), flex, slim || k ? 2 : 1, 2, mask & last & (flex ? TR_FLEX : TR_VEC));
                auto o = others[s.o].transient();
                apply_tr<V>(t, s, &o, k == 0);
                apply(m[n], s, mo);
                if (k == 0) {
                    v[n] = t.persistent();
                    ++n;
                    m[n] = m[n - 1];
                }
            }
            v[n] = std::move(t).persistent();
            break;
        }
        case 3: { // r-value: the source itself is consumed
            sx_reach("derive unique r-value");
            auto s = choose_step(m[src].size(), flex, narrow, 2, mask);
            m[n] = m[src];
            v[n] = apply_move(std::move(v[src]), s, others, 0);
            apply(m[n], s, mo);
            v[src] = V{};
            m[src] = model{};
            break;
        }
        case 4: { // r-value in a chain of temporaries
            sx_reach("derive chain of temporaries");
            auto s = choose_step(m[src].size(), flex, narrow, 2, mask);
            m[n] = m[src];
            auto x = fresh();
            v[n] = apply_move(v[src].push_back(typename V::value_type(x)).push_back(typename V::value_type(x)), s, others, 0);
            m[n].push_back(x);
            m[n].push_back(x);
            apply(m[n], s, mo);
            break;
        }
        }
        ++n;
    }
};
