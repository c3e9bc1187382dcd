// symx: hash-consed bit-vector expressions (width 1..64) with a local
// simplifier and known-bits information.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w)
{
    return w >= 64 ? (i64) v : (i64)(v << (64 - w)) >> (64 - w);
}

enum EKind : u8 {
    E_CONST, E_SYM, E_UNDEF,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_POP
};

struct Expr
{
    u8 kind, width;
    bool undef;
    u8 hasFact = 0;
    u32 id;
    u64 c; // const value / symbol index / extract low bit / undef id
    Expr *a, *b, *d;
    u64 kz, ko; // known zero / known one bits
    u64 factVal = 0;
    u32 evEpoch = 0;
    u32 subEpoch = 0;
    u64 evVal = 0;
    Expr* subRes = nullptr;
    void* z = nullptr;
    std::vector<u32>* sup = nullptr; // symbols it depends on
    u32 serEpoch = 0, serNo = 0;
};

struct ExprPool
{
    std::vector<Expr*> tab;
    size_t count = 0;
    u32 nextId = 1;
    Expr* chunk = nullptr;
    size_t chunkLeft = 0;
    ExprPool() { tab.assign(1 << 16, nullptr); }
    static u64 h(u8 k, u8 w, u64 c, Expr* a, Expr* b, Expr* d)
    {
        u64 x = k * 0x9E3779B97F4A7C15ull ^ (w * 0xC2B2AE3D27D4EB4Full);
        auto mix = [&](u64 v) { x ^= v + 0x9E3779B97F4A7C15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 32; };
        mix(c); mix((u64) a >> 4); mix((u64) b >> 4); mix((u64) d >> 4);
        return x;
    }
    Expr* get(u8 k, u8 w, u64 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr)
    {
        u64 hv = h(k, w, c, a, b, d);
        size_t m = tab.size() - 1, i = hv & m;
        while (Expr* e = tab[i]) {
            if (e->kind == k && e->width == w && e->c == c && e->a == a && e->b == b && e->d == d)
                return e;
            i = (i + 1) & m;
        }
        if (!chunkLeft) { chunk = (Expr*) malloc(sizeof(Expr) * 4096); chunkLeft = 4096; }
        Expr* e = new (chunk++) Expr();
        --chunkLeft;
        e->kind = k; e->width = w; e->c = c; e->a = a; e->b = b; e->d = d;
        e->id = nextId++;
        e->undef = k == E_UNDEF || (a && a->undef) || (b && b->undef) || (d && d->undef);
        knownBits(e);
        tab[i] = e;
        if (++count * 2 > tab.size()) grow();
        return e;
    }
    void grow()
    {
        std::vector<Expr*> old;
        old.swap(tab);
        tab.assign(old.size() * 2, nullptr);
        size_t m = tab.size() - 1;
        for (Expr* e : old) if (e) {
            size_t i = h(e->kind, e->width, e->c, e->a, e->b, e->d) & m;
            while (tab[i]) i = (i + 1) & m;
            tab[i] = e;
        }
    }
    static u64 leadMask(u64 mx) // all bits up to the top set bit of mx
    {
        if (!mx) return 0;
        int l = 63 - __builtin_clzll(mx);
        return maskw(l + 1);
    }
    static void knownBits(Expr* e)
    {
        u64 m = maskw(e->width);
        e->kz = 0; e->ko = 0;
        Expr *a = e->a, *b = e->b;
        switch (e->kind) {
        case E_CONST: e->ko = e->c; e->kz = ~e->c & m; break;
        case E_AND: e->ko = a->ko & b->ko; e->kz = a->kz | b->kz; break;
        case E_OR: e->ko = a->ko | b->ko; e->kz = a->kz & b->kz; break;
        case E_XOR: e->ko = (a->ko & b->kz) | (a->kz & b->ko); e->kz = (a->ko & b->ko) | (a->kz & b->kz); break;
        case E_SHL:
            if (b->kind == E_CONST) {
                if (b->c < e->width) { e->ko = (a->ko << b->c) & m; e->kz = ((a->kz << b->c) | maskw(b->c)) & m; if (b->c == 0) e->kz = a->kz; }
                else e->kz = m;
            } else { // low zeros kept
                u64 tz = a->kz; int n = 0; while (n < e->width && (tz >> n & 1)) n++; e->kz = maskw(n) & m; if (n == 0) e->kz = 0;
            }
            break;
        case E_LSHR:
            if (b->kind == E_CONST) {
                if (b->c < e->width) { e->ko = a->ko >> b->c; e->kz = (a->kz >> b->c) | (m & ~(m >> b->c)); }
                else e->kz = m;
            } else { u64 mx = ~a->kz & m; e->kz = m & ~leadMask(mx); }
            break;
        case E_ZEXT: e->ko = a->ko; e->kz = a->kz | (m & ~maskw(a->width)); break;
        case E_SEXT: {
            u64 am = maskw(a->width), s = 1ull << (a->width - 1);
            e->ko = a->ko; e->kz = a->kz;
            if (a->kz & s) e->kz |= m & ~am;
            if (a->ko & s) e->ko |= m & ~am;
            break;
        }
        case E_EXTRACT: e->ko = (a->ko >> e->c) & m; e->kz = (a->kz >> e->c) & m; break;
        case E_CONCAT: e->ko = (a->ko << b->width) | b->ko; e->kz = (a->kz << b->width) | b->kz; break;
        case E_ITE: e->ko = a ? (e->b->ko & e->d->ko) : 0; e->kz = e->b->kz & e->d->kz; break;
        case E_POP: { int n = e->width - __builtin_popcountll(a->kz); e->kz = m & ~leadMask((u64) n); break; }
        case E_ADD: {
            // low known-zero run and bounded magnitude
            u64 ma = ~a->kz & m, mb = ~b->kz & m;
            u64 s = ma + mb;
            bool ov = (s < ma) || (s & ~m);
            if (!ov) e->kz |= m & ~leadMask(s);
            // low bits: where both are fully known
            u64 ka = a->kz | a->ko, kb = b->kz | b->ko;
            u64 k = ka & kb; int n = 0; while (n < e->width && (k >> n & 1)) n++;
            u64 lm = n ? maskw(n) : 0;
            u64 v = (a->ko + b->ko) & lm;
            e->ko |= v; e->kz |= ~v & lm;
            e->kz &= ~e->ko;
            break;
        }
        case E_MUL: {
            u64 ma = ~a->kz & m, mb = ~b->kz & m;
            __uint128_t s = (__uint128_t) ma * mb;
            if (s <= m) e->kz |= m & ~leadMask((u64) s);
            int na = 0, nb = 0; while (na < e->width && (a->kz >> na & 1)) na++; while (nb < e->width && (b->kz >> nb & 1)) nb++;
            int n = na + nb; if (n > e->width) n = e->width; if (n) e->kz |= maskw(n);
            break;
        }
        case E_UREM: if (b->kind == E_CONST && b->c) e->kz = m & ~leadMask(b->c - 1); break;
        case E_UDIV: e->kz = m & ~leadMask(~a->kz & m); break;
        default: break;
        }
        e->kz &= m; e->ko &= m;
    }
};
extern ExprPool XP;

struct SymInfo { std::string name; u8 width; bool internal; };
extern std::vector<SymInfo> gSyms;

static inline Expr* kE(u64 v, unsigned w) { return XP.get(E_CONST, w, v & maskw(w)); }
static inline bool isC(Expr* e) { return e->kind == E_CONST; }
static inline bool isC(Expr* e, u64 v) { return e->kind == E_CONST && e->c == v; }

Expr* mkBin(EKind k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkPop(Expr* a);
Expr* mkEq(Expr* a, Expr* b);
static inline Expr* mkNot(Expr* a)
{
    return mkBin(E_XOR, a, kE(1, 1));
}
static inline bool isNot(Expr* e) { return e->kind == E_XOR && e->width == 1 && isC(e->b, 1); }
u64 foldBin(EKind k, u64 a, u64 b, unsigned w);
Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* d);
std::string estr(Expr* e, int depth = 6);
