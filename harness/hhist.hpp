// A growing set of hash containers derived from one another in every way.
#pragma once
#include "hashc.hpp"
template <typename C>
struct hhistory
{
    static constexpr unsigned MAX = 8;
    C v[MAX];
    amodel m[MAX];
    unsigned n = 0;
    pool p;
    explicit hhistory(int how) : p(how) {}
    void start(unsigned upto)
    {
        auto k = sx_choose("n", 0, upto);
        v[0] = hbuild<C>(p, m[0], k);
        p.used = k;
        n = 1;
    }
    void check_all() { for (unsigned i = 0; i < n; i++) hsame<C>(v[i], m[i], p); }
    void check_iter() { for (unsigned i = 0; i < n; i++) { CHECK(v[i].size() == m[i].size()); hiterate<C>(v[i], m[i], p); } }
    // slim: one insertion or removal from any value, l-value or r-value
    void derive(bool slim = false)
    {
        auto src = sx_choose("source", 0, n - 1);
        unsigned mask = slim ? 1u << PUT | 1u << DEL : ~0u;
        int mode = slim ? 3 * (int) sx_choose("mode", 0, 1) : (int) sx_choose("mode", 0, 4);
        switch (mode) {
        case 0: {
            sx_reach("derive l-value");
            auto s = hchoose<C>(p, mask);
            m[n] = m[src];
            v[n] = happly<C>(static_cast<const C&>(v[src]), p, s);
            happly<C>(m[n], s);
            break;
        }
        case 1: {
            sx_reach("derive shared r-value");
            auto s = hchoose<C>(p);
            m[n] = m[src];
            v[n] = happly<C>(C(v[src]), p, s);
            happly<C>(m[n], s);
            break;
        }
        case 2: {
            sx_reach("derive transient");
            auto t = v[src].transient();
            m[n] = m[src];
            auto s = hchoose<C>(p);
            happly_tr<C>(t, p, s);
            happly<C>(m[n], s);
            v[n] = t.persistent();
            ++n;
            m[n] = m[n - 1];
            auto s2 = hchoose<C>(p, 1u << PUT | 1u << DEL);
            happly_tr<C>(t, p, s2);
            happly<C>(m[n], s2);
            v[n] = std::move(t).persistent();
            break;
        }
        case 3: {
            sx_reach("derive unique r-value");
            auto s = hchoose<C>(p, mask);
            m[n] = m[src];
            v[n] = happly<C>(std::move(v[src]), p, s);
            happly<C>(m[n], s);
            v[src] = C{};
            m[src] = amodel{};
            break;
        }
        case 4: {
            sx_reach("derive chain of temporaries");
            auto s1 = hchoose<C>(p, 1u << PUT | 1u << DEL);
            auto s = hchoose<C>(p);
            m[n] = m[src];
            v[n] = happly<C>(happly<C>(static_cast<const C&>(v[src]), p, s1), p, s);
            happly<C>(m[n], s1);
            happly<C>(m[n], s);
            break;
        }
        }
        ++n;
    }
};
