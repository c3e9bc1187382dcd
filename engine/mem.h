// symx: byte-addressed memory objects with copy-on-write sharing between
// states.  Addresses are never reused, so use after free, double free and
// out-of-bounds accesses are all visible.
#pragma once
#include "expr.h"
#include <string.h>

const int MAXT = 4; // threads

struct VC
{
    u16 t[MAXT] = {0, 0, 0, 0};
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.t[i] > t[i]) t[i] = o.t[i]; }
};
// race shadow for one byte
struct Shadow
{
    u8 wt = 255, wAtomic = 0;
    u16 wc = 0;
    u16 rc[MAXT] = {0, 0, 0, 0}; // last plain read per thread
    u16 ac[MAXT] = {0, 0, 0, 0}; // last atomic read per thread
};

enum ObjKind : u8 { OK_HEAP, OK_NEW, OK_NEWARR, OK_STACK, OK_GLOBAL, OK_CONST, OK_TLS, OK_EXC };

struct Obj
{
    u32 rc = 1;
    u32 size = 0;
    u8 kind = OK_HEAP;
    u8* data = nullptr;   // size bytes
    u8* mask = nullptr;   // 0 concrete, 1 undef, 2+k symbolic: byte k of sym[i]
    Expr** sym = nullptr; // size entries or null
    Shadow* sh = nullptr;
    static Obj* make(u32 size, u8 kind)
    {
        Obj* o = new Obj();
        o->size = size;
        o->kind = kind;
        size_t n = ((size_t) size + 8) & ~7ull;
        o->data = (u8*) malloc(2 * n);
        o->mask = o->data + n;
        memset(o->data, 0, n);
        memset(o->mask, 1, n);
        return o;
    }
    Obj* clone() const
    {
        Obj* o = new Obj();
        o->size = size;
        o->kind = kind;
        size_t n = ((size_t) size + 8) & ~7ull;
        o->data = (u8*) malloc(2 * n);
        o->mask = o->data + n;
        memcpy(o->data, data, 2 * n);
        if (sym) { o->sym = (Expr**) malloc(sizeof(Expr*) * (size + 1)); memcpy(o->sym, sym, sizeof(Expr*) * size); }
        if (sh) { o->sh = (Shadow*) malloc(sizeof(Shadow) * (size + 1)); memcpy(o->sh, sh, sizeof(Shadow) * size); }
        return o;
    }
    void unref()
    {
        if (--rc == 0) { free(data); free(sym); free(sh); delete this; }
    }
};

struct MemNode
{
    u32 rc = 1;
    void* ch[64];
    MemNode() { memset(ch, 0, sizeof(ch)); }
};

struct ObjTab
{
    static const int LEVELS = 4; // 6 bits each: 16M objects per path
    MemNode* root = nullptr;
    static void rel(MemNode* n, int lvl)
    {
        if (!n || --n->rc) return;
        for (auto c : n->ch) if (c) { if (lvl == 0) ((Obj*) c)->unref(); else rel((MemNode*) c, lvl - 1); }
        delete n;
    }
    ObjTab() {}
    ObjTab(const ObjTab& o) : root(o.root) { if (root) root->rc++; }
    ObjTab& operator=(const ObjTab& o)
    {
        if (o.root) o.root->rc++;
        rel(root, LEVELS - 1);
        root = o.root;
        return *this;
    }
    ~ObjTab() { rel(root, LEVELS - 1); }
    Obj* get(u64 i) const
    {
        if (i >> (6 * LEVELS)) return nullptr;
        MemNode* n = root;
        for (int l = LEVELS - 1; l > 0; l--) {
            if (!n) return nullptr;
            n = (MemNode*) n->ch[(i >> (6 * l)) & 63];
        }
        return n ? (Obj*) n->ch[i & 63] : nullptr;
    }
    static MemNode* own(MemNode* n, int lvl)
    {
        if (!n) return new MemNode();
        if (n->rc == 1) return n;
        MemNode* c = new MemNode();
        memcpy(c->ch, n->ch, sizeof(c->ch));
        for (auto p : c->ch) if (p) { if (lvl == 0) ((Obj*) p)->rc++; else ((MemNode*) p)->rc++; }
        n->rc--;
        return c;
    }
    void** slot(u64 i)
    {
        if (i >> (6 * LEVELS)) { fprintf(stderr, "symx: object index overflow\n"); abort(); }
        MemNode** p = &root;
        for (int l = LEVELS - 1; l >= 0; l--) {
            *p = own(*p, l);
            if (l == 0) return &(*p)->ch[i & 63];
            p = (MemNode**) &(*p)->ch[(i >> (6 * l)) & 63];
        }
        return nullptr;
    }
    Obj* getMut(u64 i)
    {
        void** s = slot(i);
        Obj* o = (Obj*) *s;
        if (!o) return nullptr;
        if (o->rc > 1) { Obj* c = o->clone(); o->rc--; *s = c; o = c; }
        return o;
    }
    void set(u64 i, Obj* o)
    {
        void** s = slot(i);
        if (*s) ((Obj*) *s)->unref();
        *s = o;
    }
};
