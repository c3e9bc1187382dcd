#include "expr.h"
ExprPool XP;
std::vector<SymInfo> gSyms;

u64 foldBin(EKind k, u64 a, u64 b, unsigned w)
{
    u64 m = maskw(w);
    switch (k) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: {
        i64 x = sextw(a, w), y = sextw(b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (u64)(-(u64) x) & m;
        return (u64)(x / y) & m;
    }
    case E_SREM: {
        i64 x = sextw(a, w), y = sextw(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (u64)(x % y) & m;
    }
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (u64)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, w) < sextw(b, w);
    case E_SLE: return sextw(a, w) <= sextw(b, w);
    default: abort();
    }
}

static inline u64 emax(Expr* e) { return ~e->kz & maskw(e->width); }
static inline u64 emin(Expr* e) { return e->ko; }

// ------------------------------------------------ sets of one-hot values
// Bitmaps such as (1 << d1) | (1 << d2): membership tests and rank queries
// become comparisons of the digits.
struct Hot { Expr *cond, *at; }; // 1 << at if cond; at is 8 bits wide
static bool hots(Expr* e, std::vector<Hot>& out, Expr* cond)
{
    if (out.size() > 8) return false;
    switch (e->kind) {
    case E_CONST:
        if (__builtin_popcountll(e->c) > 4) return false;
        for (u64 c = e->c; c; c &= c - 1) out.push_back({cond, kE(__builtin_ctzll(c), 8)});
        return true;
    case E_SHL:
        if (!isC(e->a, 1) || emax(e->b) >= e->width) return false;
        out.push_back({cond, e->b->width >= 8 ? mkExtract(e->b, 0, 8) : mkZext(e->b, 8)});
        return true;
    case E_OR: return e->width > 1 && hots(e->a, out, cond) && hots(e->b, out, cond);
    case E_ZEXT: return e->a->width > 1 && hots(e->a, out, cond);
    case E_ITE:
        if (isC(e->d, 0)) return hots(e->b, out, mkBin(E_AND, cond, e->a));
        if (isC(e->b, 0)) return hots(e->d, out, mkBin(E_AND, cond, mkNot(e->a)));
        return false;
    case E_AND: { // set & ~(1 << d): xor with all ones
        for (int i = 0; i < 2; i++) {
            Expr *x = i ? e->b : e->a, *y = i ? e->a : e->b;
            if (y->kind == E_XOR && isC(y->b, maskw(y->width)) && y->a->kind == E_SHL) {
                std::vector<Hot> d;
                if (!hots(y->a, d, kE(1, 1)) || d.size() != 1) return false;
                size_t n0 = out.size();
                if (!hots(x, out, cond)) return false;
                for (size_t k = n0; k < out.size(); k++) out[k].cond = mkBin(E_AND, out[k].cond, mkNot(mkEq(out[k].at, d[0].at)));
                return true;
            }
        }
        return false;
    }
    default: return false;
    }
}
static bool hasHot(Expr* e, int depth = 8)
{
    if (!depth) return false;
    switch (e->kind) {
    case E_SHL: return isC(e->a, 1) && emax(e->b) < e->width;
    case E_OR: case E_AND: return e->width > 1 && (hasHot(e->a, depth - 1) || hasHot(e->b, depth - 1));
    case E_ZEXT: return e->a->width > 1 && hasHot(e->a, depth - 1);
    case E_ITE: return (isC(e->d, 0) && hasHot(e->b, depth - 1)) || (isC(e->b, 0) && hasHot(e->d, depth - 1));
    default: return false;
    }
}
// (1 << d) - 1
static Expr* below(Expr* e)
{
    Expr* d = nullptr;
    if (e->kind == E_ADD && isC(e->b, maskw(e->width)) && e->a->kind == E_SHL && isC(e->a->a, 1) && emax(e->a->b) < e->width) d = e->a->b;
    if (e->kind == E_XOR && isC(e->b, maskw(e->width)) && e->a->kind == E_SHL && isC(e->a->a, maskw(e->width)) && emax(e->a->b) < e->width) d = e->a->b;
    if (e->kind == E_ZEXT) return below(e->a);
    if (!d) return nullptr;
    return d->width >= 8 ? mkExtract(d, 0, 8) : mkZext(d, 8);
}
// (x & y) == 0
static Expr* disjoint(Expr* x, Expr* y)
{
    if (!hasHot(x) && !hasHot(y)) return nullptr;
    std::vector<Hot> a, b;
    Expr* d;
    if ((d = below(y)) || (d = below(x))) {
        if (!hots(below(y) ? x : y, a, kE(1, 1))) return nullptr;
        Expr* r = kE(1, 1);
        for (auto& h : a) r = mkBin(E_AND, r, mkNot(mkBin(E_AND, h.cond, mkBin(E_ULT, h.at, d))));
        return r;
    }
    if (!hots(x, a, kE(1, 1)) || !hots(y, b, kE(1, 1)) || a.size() * b.size() > 24) return nullptr;
    Expr* r = kE(1, 1);
    for (auto& h : a) for (auto& g : b)
        r = mkBin(E_AND, r, mkNot(mkBin(E_AND, mkBin(E_AND, h.cond, g.cond), mkEq(h.at, g.at))));
    return r;
}
static Expr* hotPop(Expr* e)
{
    if (!hasHot(e)) return nullptr;
    std::vector<Hot> a;
    Expr* lim = nullptr;
    if (e->kind == E_AND) {
        if ((lim = below(e->b))) { if (!hots(e->a, a, kE(1, 1))) return nullptr; }
        else if ((lim = below(e->a))) { if (!hots(e->b, a, kE(1, 1))) return nullptr; }
    }
    if (!lim && !hots(e, a, kE(1, 1))) return nullptr;
    if (a.size() > 8) return nullptr;
    Expr* r = kE(0, e->width);
    for (size_t i = 0; i < a.size(); i++) {
        Expr* c = a[i].cond;
        if (lim) c = mkBin(E_AND, c, mkBin(E_ULT, a[i].at, lim));
        for (size_t j = 0; j < i; j++) c = mkBin(E_AND, c, mkNot(mkBin(E_AND, a[j].cond, mkEq(a[i].at, a[j].at))));
        r = mkBin(E_ADD, r, mkIte(c, kE(1, e->width), kE(0, e->width)));
    }
    return r;
}

Expr* mkEq(Expr* a, Expr* b)
{
    if (a == b && !a->undef) return kE(1, 1);
    if (a == b) return kE(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return kE(a->c == b->c, 1);
    if ((a->ko & b->kz) || (a->kz & b->ko)) return kE(0, 1);
    if (a->width > 1) { // compare only the bits that may differ
        u64 live = ~((a->kz & b->kz) | (a->ko & b->ko)) & maskw(a->width);
        if (!live) return kE(1, 1);
        unsigned lo = __builtin_ctzll(live), hi = 63 - __builtin_clzll(live);
        if (hi - lo + 1 < a->width) {
            Expr *x = mkExtract(a, lo, hi - lo + 1), *y = mkExtract(b, lo, hi - lo + 1);
            if (x->kind != E_EXTRACT || a->kind == E_EXTRACT || a->kind == E_SYM || x->a != a) return mkEq(x, y);
        }
    }
    if (isC(b)) {
        u64 c = b->c; unsigned w = a->width;
        if (w == 1) return c ? a : mkNot(a);
        switch (a->kind) {
        case E_ADD: if (isC(a->b)) return mkEq(a->a, kE(c - a->b->c, w)); break;
        case E_SUB: if (isC(a->a)) return mkEq(a->b, kE(a->a->c - c, w));
            if (c == 0) return mkEq(a->a, a->b);
            break;
        case E_XOR: if (isC(a->b)) return mkEq(a->a, kE(c ^ a->b->c, w));
            if (c == 0) return mkEq(a->a, a->b);
            break;
        case E_ZEXT: return mkEq(a->a, kE(c, a->a->width)); // high bits already checked by known bits
        case E_SEXT:
            if ((u64) sextw(c & maskw(a->a->width), a->a->width) == (u64) sextw(c, w)) return mkEq(a->a, kE(c, a->a->width));
            return kE(0, 1);
        case E_CONCAT: {
            Expr* hi = mkEq(a->a, kE(c >> a->b->width, a->a->width));
            Expr* lo = mkEq(a->b, kE(c, a->b->width));
            return mkBin(E_AND, hi, lo);
        }
        case E_SHL:
            if (isC(a->b) && a->b->c < w) { // top bits of a->a known zero?
                unsigned s = a->b->c; u64 top = maskw(w) & ~(maskw(w) >> s);
                if (s && (a->a->kz & top) == top) return mkEq(a->a, kE(c >> s, w));
            }
            if (isC(a->a, 1) ) {
                // 1<<x == c
                if (c && !(c & (c - 1))) return mkEq(a->b, kE(__builtin_ctzll(c), w));
                if (c) return kE(0, 1);
                return mkBin(E_ULE, kE(w, w), a->b);
            }
            break;
        case E_MUL:
            if (isC(a->b) && a->b->c) {
                __uint128_t s = (__uint128_t) emax(a->a) * a->b->c;
                if (s <= maskw(w)) return (c % a->b->c) ? kE(0, 1) : mkEq(a->a, kE(c / a->b->c, w));
            }
            break;
        case E_ITE:
            if (isC(a->b) && isC(a->d)) {
                bool x = a->b->c == c, y = a->d->c == c;
                if (x && y) return kE(1, 1);
                if (x) return a->a;
                if (y) return mkNot(a->a);
                return kE(0, 1);
            }
            if (isC(a->b)) return a->b->c == c ? mkBin(E_OR, a->a, mkEq(a->d, b)) : mkBin(E_AND, mkNot(a->a), mkEq(a->d, b));
            if (isC(a->d)) return a->d->c == c ? mkBin(E_OR, mkNot(a->a), mkEq(a->b, b)) : mkBin(E_AND, a->a, mkEq(a->b, b));
            break;
        case E_AND:
            if (c == 0 && w > 1) if (Expr* r = disjoint(a->a, a->b)) return r;
            break;
        case E_OR:
            if (c == 0 && w > 1) return mkBin(E_AND, mkEq(a->a, b), mkEq(a->b, b));
            break;
        default: break;
        }
    } else {
        if (a->kind == E_ADD && b->kind == E_ADD && a->a == b->a) return mkEq(a->b, b->b);
        if (a->kind == E_ADD && b->kind == E_ADD && a->b == b->b) return mkEq(a->a, b->a);
        if (a->kind == E_ADD && a->a == b) return mkEq(a->b, kE(0, a->width));
        if (b->kind == E_ADD && b->a == a) return mkEq(b->b, kE(0, a->width));
        if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->kind == E_SEXT && b->kind == E_SEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->kind == E_ITE && (a->b == b)) return mkBin(E_OR, a->a, mkEq(a->d, b));
        if (a->kind == E_ITE && (a->d == b)) return mkBin(E_OR, mkNot(a->a), mkEq(a->b, b));
        if (a->id > b->id) std::swap(a, b);
    }
    return XP.get(E_EQ, 1, 0, a, b);
}

Expr* mkBin(EKind k, Expr* a, Expr* b)
{
    unsigned w = a->width;
    if (isC(a) && isC(b)) {
        unsigned rw = k >= E_EQ && k <= E_SLE ? 1 : w;
        return kE(foldBin(k, a->c, b->c, w), rw);
    }
    switch (k) {
    case E_EQ: return mkEq(a, b);
    case E_ADD:
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return a;
        if (isC(b) && a->kind == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, kE(a->b->c + b->c, w));
        if (isC(b) && a->kind == E_SUB && isC(a->a)) return mkBin(E_SUB, kE(a->a->c + b->c, w), a->b);
        if (!isC(b)) {
            if (a->kind == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
            if (b->kind == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
            if (a->kind == E_SUB && a->b == b) return a->a;
            if (b->kind == E_SUB && b->b == a) return b->a;
            if (a->id > b->id) std::swap(a, b);
        }
        if (w == 1) return mkBin(E_XOR, a, b);
        break;
    case E_SUB:
        if (a == b) return kE(0, w);
        if (isC(b)) return mkBin(E_ADD, a, kE(-b->c, w));
        if (a->kind == E_ADD && a->a == b) return a->b;
        if (a->kind == E_ADD && a->b == b) return a->a;
        if (a->kind == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_SUB, a->a, b), a->b);
        if (b->kind == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_SUB, a, b->a), kE(-b->b->c, w));
        break;
    case E_MUL:
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && !(b->c & (b->c - 1))) return mkBin(E_SHL, a, kE(__builtin_ctzll(b->c), w));
        if (isC(b) && a->kind == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_MUL, a->a, b), kE(a->b->c * b->c, w));
        break;
    case E_UDIV:
        if (isC(b, 1)) return a;
        if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(E_LSHR, a, kE(__builtin_ctzll(b->c), w));
        break;
    case E_UREM:
        if (isC(b, 1)) return kE(0, w);
        if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(E_AND, a, kE(b->c - 1, w));
        break;
    case E_SDIV:
        if (isC(b, 1)) return a;
        { u64 s = 1ull << (w - 1);
          if ((a->kz & s) && (b->kz & s)) return mkBin(E_UDIV, a, b); }
        break;
    case E_SREM:
        { u64 s = 1ull << (w - 1);
          if ((a->kz & s) && (b->kz & s)) return mkBin(E_UREM, a, b); }
        break;
    case E_SHL: case E_LSHR: case E_ASHR:
        if (isC(b, 0)) return a;
        if (isC(a, 0)) return a;
        if (isC(b) && b->c >= w && k != E_ASHR) return kE(0, w);
        if (k == E_ASHR && (a->kz >> (w - 1) & 1)) return mkBin(E_LSHR, a, b);
        if (isC(b) && k == a->kind && isC(a->b) && k != E_ASHR) {
            u64 s = a->b->c + b->c;
            return s >= w ? kE(0, w) : mkBin(k, a->a, kE(s, w));
        }
        if (k == E_LSHR && isC(b) && a->kind == E_SHL && isC(a->b) && a->b->c == b->c)
            return mkBin(E_AND, a->a, kE(maskw(w) >> b->c, w));
        if (k == E_SHL && isC(b) && a->kind == E_LSHR && isC(a->b) && a->b->c == b->c)
            return mkBin(E_AND, a->a, kE(maskw(w) << b->c, w));
        if (k == E_SHL && isC(b) && a->kind == E_ADD && isC(a->b))
            return mkBin(E_ADD, mkBin(E_SHL, a->a, b), kE(a->b->c << b->c, w));
        if (k == E_LSHR && isC(b) && a->kind == E_ZEXT && b->c >= a->a->width) return kE(0, w);
        if (k == E_LSHR && isC(b) && a->kind == E_ZEXT) return mkZext(mkBin(E_LSHR, a->a, kE(b->c, a->a->width)), w);
        if (k == E_LSHR && isC(b) && (a->kind == E_SYM || a->kind == E_EXTRACT || a->kind == E_CONCAT || a->kind == E_UNDEF))
            return mkZext(mkExtract(a, b->c, w - b->c), w);
        if (k == E_LSHR && isC(b) && a->kind == E_AND && isC(a->b))
            return mkBin(E_AND, mkBin(E_LSHR, a->a, b), kE(a->b->c >> b->c, w));
        break;
    case E_AND:
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isC(b)) {
            u64 c = b->c & ~a->kz; // bits that may survive
            if (c == 0) return kE(0, w);
            if (c == emax(a)) return a;
            if (!(b->c & (b->c + 1)) && b->c != maskw(w) && (a->kind == E_SYM || a->kind == E_EXTRACT || a->kind == E_CONCAT || a->kind == E_UNDEF))
                return mkZext(mkExtract(a, 0, __builtin_popcountll(b->c)), w);
            if (a->kind == E_AND && isC(a->b)) return mkBin(E_AND, a->a, kE(a->b->c & c, w));
            if (c != b->c) return mkBin(E_AND, a, kE(c, w));
            if ((c & ~a->ko) == 0) return kE(c, w);
            if (a->kind == E_ZEXT) return mkZext(mkBin(E_AND, a->a, kE(c, a->a->width)), w);
            if (a->kind == E_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, kE(a->b->c & c, w), kE(a->d->c & c, w));
            if (a->kind == E_OR && isC(a->b) && w > 1) { if (!(a->b->c & c)) return mkBin(E_AND, a->a, b); }
            if (a->kind == E_OR && w > 1) {
                if ((emax(a->a) & c) == 0) return mkBin(E_AND, a->b, b);
                if ((emax(a->b) & c) == 0) return mkBin(E_AND, a->a, b);
            }
        } else {
            if (w == 1) {
                if (isNot(a) && a->a == b) return kE(0, 1);
                if (isNot(b) && b->a == a) return kE(0, 1);
                if (b->kind == E_AND && (b->a == a || b->b == a)) return b;
                if (a->kind == E_AND && (a->a == b || a->b == b)) return a;
            }
            if ((emax(a) & emax(b)) == 0) return kE(0, w);
            if (w > 1 && a->kind == E_XOR && isC(a->b, maskw(w)) && a->a == b) return kE(0, w);
            if (w > 1 && b->kind == E_XOR && isC(b->b, maskw(w)) && b->a == a) return kE(0, w);
            if (a->id > b->id) std::swap(a, b);
        }
        break;
    case E_OR:
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isC(b, 0)) return a;
        if (isC(b, maskw(w))) return b;
        if (isC(b) && (b->c & ~a->ko) == 0) return a;
        if (isC(b) && a->kind == E_OR && isC(a->b)) return mkBin(E_OR, a->a, kE(a->b->c | b->c, w));
        if (w == 1) {
            if (isNot(a) && a->a == b) return kE(1, 1);
            if (isNot(b) && b->a == a) return kE(1, 1);
            if (b->kind == E_OR && (b->a == a || b->b == a)) return b;
            if (a->kind == E_OR && (a->a == b || a->b == b)) return a;
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case E_XOR:
        if (isC(a)) std::swap(a, b);
        if (a == b) return kE(0, w);
        if (isC(b, 0)) return a;
        if (isC(b) && a->kind == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, kE(a->b->c ^ b->c, w));
        if (w == 1 && isC(b, 1)) {
            if (a->kind == E_ULT) return mkBin(E_ULE, a->b, a->a);
            if (a->kind == E_ULE) return mkBin(E_ULT, a->b, a->a);
            if (a->kind == E_SLT) return mkBin(E_SLE, a->b, a->a);
            if (a->kind == E_SLE) return mkBin(E_SLT, a->b, a->a);
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case E_ULT:
        if (a == b) return kE(0, 1);
        if (emax(a) < emin(b)) return kE(1, 1);
        if (emin(a) >= emax(b)) return kE(0, 1);
        if (isC(b, 1)) return mkEq(a, kE(0, w));
        if (isC(a, 0)) return mkNot(mkEq(b, kE(0, w)));
        if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
        if (a->kind == E_ZEXT && isC(b) && b->c <= maskw(a->a->width)) return mkBin(k, a->a, kE(b->c, a->a->width));
        if (w == 1) return mkBin(E_AND, mkNot(a), b);
        return XP.get(k, 1, 0, a, b);
    case E_ULE:
        if (a == b) return kE(1, 1);
        if (emax(a) <= emin(b)) return kE(1, 1);
        if (emin(a) > emax(b)) return kE(0, 1);
        if (isC(b, 0)) return mkEq(a, kE(0, w));
        if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
        if (a->kind == E_ZEXT && isC(b) && b->c <= maskw(a->a->width)) return mkBin(k, a->a, kE(b->c, a->a->width));
        if (w == 1) return mkBin(E_OR, mkNot(a), b);
        return XP.get(k, 1, 0, a, b);
    case E_SLT: case E_SLE: {
        if (a == b) return kE(k == E_SLE, 1);
        u64 s = 1ull << (w - 1);
        if ((a->kz & s) && (b->kz & s)) return mkBin(k == E_SLT ? E_ULT : E_ULE, a, b);
        if ((a->ko & s) && (b->kz & s)) return kE(1, 1);
        if ((a->kz & s) && (b->ko & s)) return kE(0, 1);
        return XP.get(k, 1, 0, a, b);
    }
    default: break;
    }
    Expr* r = XP.get(k, w, 0, a, b);
    if ((r->kz | r->ko) == maskw(w) && !r->undef) return kE(r->ko, w);
    return r;
}

Expr* mkIte(Expr* c, Expr* t, Expr* f)
{
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (isNot(c)) return mkIte(c->a, f, t);
    if (t->width == 1) {
        if (isC(t) && isC(f)) return t->c ? c : mkNot(c);
        if (isC(t)) return t->c ? mkBin(E_OR, c, f) : mkBin(E_AND, mkNot(c), f);
        if (isC(f)) return f->c ? mkBin(E_OR, mkNot(c), t) : mkBin(E_AND, c, t);
    }
    if (t->kind == E_ITE && t->a == c) t = t->b;
    if (f->kind == E_ITE && f->a == c) f = f->d;
    if (t == f) return t;
    return XP.get(E_ITE, t->width, 0, c, t, f);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->width) return a;
    if (isC(a)) return kE(a->c >> lo, w);
    u64 m = maskw(w) << lo;
    if (((a->kz | a->ko) & m) == m) return kE(a->ko >> lo, w);
    switch (a->kind) {
    case E_EXTRACT: return mkExtract(a->a, a->c + lo, w);
    case E_ZEXT:
        if (lo >= a->a->width) return kE(0, w);
        if (lo + w <= a->a->width) return mkExtract(a->a, lo, w);
        return mkZext(mkExtract(a->a, lo, a->a->width - lo), w);
    case E_SEXT:
        if (lo + w <= a->a->width) return mkExtract(a->a, lo, w);
        break;
    case E_CONCAT:
        if (lo >= a->b->width) return mkExtract(a->a, lo - a->b->width, w);
        if (lo + w <= a->b->width) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->width), mkExtract(a->b, lo, a->b->width - lo));
    case E_AND: case E_OR: case E_XOR:
        return mkBin((EKind) a->kind, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case E_ADD: case E_SUB: case E_MUL:
        if (lo == 0) return mkBin((EKind) a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case E_ITE:
        if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
        break;
    case E_LSHR:
        if (isC(a->b) && lo + a->b->c + w <= a->width) return mkExtract(a->a, lo + a->b->c, w);
        break;
    case E_SHL:
        if (isC(a->b) && lo >= a->b->c) return mkExtract(a->a, lo - a->b->c, w);
        if (lo == 0 && isC(a->a) && emax(a->b) < w && maskw(w) >= w) // 1 << d, narrower
            return mkBin(E_SHL, kE(a->a->c, w), a->b->width > w ? mkExtract(a->b, 0, w) : mkZext(a->b, w));
        break;
    default: break;
    }
    return XP.get(E_EXTRACT, w, lo, a);
}

Expr* mkConcat(Expr* hi, Expr* lo)
{
    if (isC(hi) && isC(lo)) return kE((hi->c << lo->width) | lo->c, hi->width + lo->width);
    if (isC(hi, 0)) return mkZext(lo, hi->width + lo->width);
    if (hi->kind == E_EXTRACT && lo->kind == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->width)
        return mkExtract(hi->a, lo->c, hi->width + lo->width);
    if (hi->kind == E_EXTRACT && hi->a == lo && hi->c == lo->width && hi->c + hi->width <= hi->a->width && lo->width < hi->a->width) {}
    return XP.get(E_CONCAT, hi->width + lo->width, 0, hi, lo);
}
Expr* mkZext(Expr* a, unsigned w)
{
    if (a->width == w) return a;
    if (isC(a)) return kE(a->c, w);
    if (a->kind == E_ZEXT) return mkZext(a->a, w);
    return XP.get(E_ZEXT, w, 0, a);
}
Expr* mkSext(Expr* a, unsigned w)
{
    if (a->width == w) return a;
    if (isC(a)) return kE((u64) sextw(a->c, a->width), w);
    if (a->kz >> (a->width - 1) & 1) return mkZext(a, w);
    if (a->kind == E_SEXT) return mkSext(a->a, w);
    return XP.get(E_SEXT, w, 0, a);
}
Expr* mkPop(Expr* a)
{
    if (isC(a)) return kE(__builtin_popcountll(a->c), a->width);
    if ((~a->kz & maskw(a->width)) == 1) return a;
    if (a->width == 1) return a;
    if (a->kind == E_ZEXT) return mkZext(mkPop(a->a), a->width);
    if (a->kind == E_SHL && isC(a->a, 1) && (emax(a->b) < a->width)) return kE(1, a->width);
    if (Expr* r = hotPop(a)) return r;
    return XP.get(E_POP, a->width, 0, a);
}
Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* d)
{
    switch (e->kind) {
    case E_ITE: return mkIte(a, b, d);
    case E_CONCAT: return mkConcat(a, b);
    case E_EXTRACT: return mkExtract(a, e->c, e->width);
    case E_ZEXT: return mkZext(a, e->width);
    case E_SEXT: return mkSext(a, e->width);
    case E_POP: return mkPop(a);
    case E_CONST: case E_SYM: case E_UNDEF: return e;
    default: return mkBin((EKind) e->kind, a, b);
    }
}
std::string estr(Expr* e, int depth)
{
    static const char* nm[] = {"", "", "", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "pop"};
    char buf[64];
    if (e->kind == E_CONST) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long) e->c, e->width); return buf; }
    if (e->kind == E_SYM) return gSyms[e->c].name;
    if (e->kind == E_UNDEF) { snprintf(buf, 64, "undef%llu", (unsigned long long) e->c); return buf; }
    if (!depth) return "...";
    std::string s = "(";
    s += nm[e->kind];
    if (e->kind == E_EXTRACT) { snprintf(buf, 64, "[%llu+%d]", (unsigned long long) e->c, e->width); s += buf; }
    for (Expr* x : {e->a, e->b, e->d}) if (x) s += " " + estr(x, depth - 1);
    return s + ")";
}
