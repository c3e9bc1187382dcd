// symx: symbolic execution of the lowered program.
#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <array>
#include <atomic>
#include <cmath>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <regex>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
struct Options
{
    std::vector<std::string> entries;
    std::string results = "/dev/null";
    std::string cov; // lines of the code under verification, and whether they ran
    double time = 60;
    int workers = 8;
    u64 maxSteps = 30000000;
    int preempt = 2;
    bool por = false; // every schedule, up to the order of independent operations
    int samples = 6;
    int maxViol = 3;
    std::vector<std::array<std::string, 3>> known; // entry, kind, message and place
    u64 seed = 1;
    size_t memMB = 3000;
    bool verbose = false;
    bool checkUndef = true;
    bool fullCheckEager = false;
} OPT;

// ---------------------------------------------------------------- shared stats
const int MAXENT = 256;
struct EntStat { std::atomic<u64> paths, viol, known, samples, trunc, killed, checks, incomplete, depth; };
struct Shm
{
    std::atomic<int> tokens;
    std::atomic<u64> forks, steps, queries, qcached, qsat, qunsat, qunknown, procs, crashes, solverUs, checks, symbolicChecks, steals, undefQ, memEnd, xd;
    std::atomic<int> stop;
    EntStat ent[MAXENT];
    u8 funcSeen[1 << 16];
    u8 blockSeen[1 << 20];
    u8 tagSeen[MAXENT * 64];
};
static Shm* shm;
static double deadline;
static int resFd = -1;
static std::vector<Func*> entryF;
static std::vector<std::string> tagNames;
static std::map<u64, int> tagByAddr;
static std::map<Func*, std::pair<int, int>> blockBase; // func -> base index, count
static int nextBlockBase = 0;
static std::deque<State*> work;
static u64 localForks = 0, localSteps = 0;

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char) c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void emitResult(const std::string& s)
{
    std::string l = s + "\n";
    ssize_t r = write(resFd, l.data(), l.size());
    (void) r;
}

// ---------------------------------------------------------------- helpers
static State* S;       // running state
static Thread* T;
static Frame* F;
static Val* R;

static inline Val& V(int o) { return o >= 0 ? R[o] : PR.consts[~o]; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : kE(v.c, w); }
static inline Val VE(Expr* e)
{
    Val v;
    if (e->kind == E_CONST) v.c = e->c;
    else v.e = e;
    return v;
}
static inline Val VCn(u64 c) { Val v; v.c = c; return v; }

static std::string backtrace(bool full = false)
{
    std::string r;
    for (int i = (int) T->fr.size() - 1; i >= 0; i--) {
        Frame& f = T->fr[i];
        std::string n;
        int lt = 0; // template arguments left out
        const std::string& full_n = f.f->pretty;
        for (size_t k = 0; k < full_n.size(); k++) {
            char c = full_n[k];
            bool op = k >= 8 && full_n.compare(k - 8, 8, "operator") == 0;
            bool op2 = k >= 9 && full_n.compare(k - 9, 8, "operator") == 0 && (full_n[k - 1] == '<' || full_n[k - 1] == '>' || full_n[k - 1] == '-');
            if (op || op2) { n += c; continue; }
            if (c == '<') { if (!lt++) n += c; }
            else if (c == '>' && lt > 0) { if (!--lt) n += c; }
            else if (!lt) n += c;
        }
        if (lt) n = full_n;
        if (!full && n.size() > 160) n = n.substr(0, 157) + "...";
        char b[32];
        snprintf(b, 32, ":%u", f.pc >= 0 && f.pc < (int) f.f->line.size() ? f.f->line[f.pc] : 0);
        r += (r.empty() ? "" : " <- ") + n + b;
        if (r.size() > 3000) break;
    }
    return r;
}

static std::string symsJson(State* s, const Model* m)
{
    std::string r = "[";
    SV.newEval();
    bool first = true;
    for (u32 i : s->syms) {
        if (gSyms[i].internal) continue;
        char b[64];
        snprintf(b, 64, ",%d,%llu]", gSyms[i].width, (unsigned long long) ((m ? m->get(i) : 0) & maskw(gSyms[i].width)));
        r += (first ? "[" : ",[") + jstr(gSyms[i].name) + b;
        first = false;
    }
    return r + "]";
}
static std::string traceJson(State* s)
{
    std::string r = "[";
    for (size_t i = 0; i < s->trace.size(); i++) { if (i) r += ','; r += std::to_string(s->trace[i]); }
    return r + "]";
}

static void reportViolation(const std::string& kind, const std::string& msg, const Model* m, const std::string& where)
{
    EntStat& es = shm->ent[S->entry];
    // listed as known: reported a few times, without ending the exploration
    for (auto& k : OPT.known)
        if (std::regex_match(OPT.entries[S->entry], std::regex(k[0])) && std::regex_search(kind, std::regex(k[1])) && std::regex_search(msg + " @ " + where, std::regex(k[2]))) {
            if (es.known.fetch_add(1) >= 3) return;
            goto report;
        }
    if (es.viol.fetch_add(1) >= (u64) OPT.maxViol * 8) return;
report:
    emitResult("{\"type\":\"violation\",\"entry\":" + jstr(OPT.entries[S->entry]) + ",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) +
               ",\"where\":" + jstr(where) + ",\"syms\":" + symsJson(S, m) + ",\"trace\":" + traceJson(S) + "}");
}

// query profile (debugging aid): SYMX_PROF=1
static std::map<std::string, std::pair<u64, u64>> prof;
static bool profOn = getenv("SYMX_PROF") != nullptr;
static void profQ(const char* what, Res r)
{
    if (!profOn || !F) return;
    auto& p = prof[std::string(what) + " " + F->f->pretty.substr(0, 90) + ":" + std::to_string(F->f->line[F->pc])];
    (r == R_UNSAT ? p.second : p.first)++;
}
[[noreturn]] static void endPath() { throw PathEnd(); }

static const Model* baseModel()
{
    static Model zero;
    return S->m ? S->m.get() : &zero;
}
static void flushChecks()
{
    if (S->checks.empty()) return;
    std::vector<Check> cs;
    cs.swap(S->checks);
    SV.sync(S->pc);
    Expr* bad = kE(0, 1);
    std::vector<std::pair<Expr*, Check*>> live;
    for (auto& c : cs) {
        Expr* e = SV.simp(c.e);
        if (isC(e, 1)) continue;
        live.push_back({e, &c});
        bad = mkBin(E_OR, bad, mkNot(e));
    }
    if (live.empty()) return;
    ModelP m;
    Res r = SV.check(S->pc, bad, m, baseModel());
    profQ("flush", r);
    if (r == R_UNSAT) { return; }
    if (r == R_UNKNOWN) { shm->ent[S->entry].incomplete++; return; }
    SV.newEval();
    for (auto& l : live)
        if (!SV.eval(l.first, m.get())) { reportViolation("check", l.second->msg, m.get(), l.second->where); return; }
    reportViolation("check", live[0].second->msg, m.get(), live[0].second->where);
}

[[noreturn]] static void fail(const std::string& kind, const std::string& msg)
{
    flushChecks();
    reportViolation(kind, msg, S->m.get(), backtrace());
    endPath();
}
[[noreturn]] static void unsupported(const std::string& msg)
{
    flushChecks();
    shm->ent[S->entry].incomplete++;
    emitResult("{\"type\":\"unsupported\",\"entry\":" + jstr(OPT.entries[S->entry]) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(backtrace()) + "}");
    endPath();
}

// ---------------------------------------------------------------- forking
static void pushState(Expr* cond, ModelP m)
{
    State* t = new State(*S);
    t->pc = pcAdd(S->pc, cond);
    t->m = m;
    t->depth++;
    work.push_back(t);
    localForks++;
    if (S->depth + 1 > shm->ent[S->entry].depth) shm->ent[S->entry].depth = S->depth + 1;
}

// replace undef leaves by fresh ones (which = 0) or by zero (which = 1)
static Expr* twin(Expr* e, std::map<Expr*, Expr*>& memo, int which)
{
    if (!e->undef) return e;
    auto i = memo.find(e);
    if (i != memo.end()) return i->second;
    Expr* r;
    if (e->kind == E_UNDEF) r = which ? kE(0, e->width) : PR.freshUndef(e->width);
    else {
        Expr* a = e->a ? twin(e->a, memo, which) : nullptr;
        Expr* b = e->b ? twin(e->b, memo, which) : nullptr;
        Expr* d = e->d ? twin(e->d, memo, which) : nullptr;
        r = rebuild(e, a, b, d);
    }
    return memo[e] = r;
}
// An expression used for control or addressing must not depend on
// uninitialised memory.  Returns an equivalent undef-free expression.
static Expr* defined(Expr* e, const char* what)
{
    if (!e->undef) return e;
    SV.sync(S->pc);
    e = SV.simp(e);
    if (!e->undef) return e;
    if (OPT.checkUndef) {
        std::map<Expr*, Expr*> m1;
        Expr* t = twin(e, m1, 0);
        ModelP m;
        shm->undefQ++;
        Res r = SV.check(S->pc, mkNot(mkEq(e, t)), m, baseModel());
        if (r == R_SAT) {
            S->m = m;
            fail("uninit", std::string("value read from uninitialised memory decides ") + what);
        }
        if (r == R_UNKNOWN) shm->ent[S->entry].incomplete++;
    }
    std::map<Expr*, Expr*> m2;
    return twin(e, m2, 1);
}

static bool decide(Expr* c, const char* what = "a branch")
{
    if (c->kind == E_CONST) return c->c;
    if (c->undef) c = defined(c, what);
    SV.sync(S->pc);
    Expr* s = SV.simp(c);
    if (s->kind == E_CONST) return s->c;
    bool v = SV.eval(s, S->m.get());
    Expr* me = v ? s : mkNot(s);
    Expr* ot = v ? mkNot(s) : s;
    ModelP m2;
    Res r = SV.check(S->pc, ot, m2, baseModel());
    profQ("decide", r);
    if (r == R_UNSAT) { S->pc = pcAdd(S->pc, me, true); return v; }
    if (r == R_UNKNOWN) { shm->ent[S->entry].incomplete++; S->pc = pcAdd(S->pc, me); return v; }
    F->pc = F->pc; // state re-executes the current instruction
    pushState(ot, m2);
    S->pc = pcAdd(S->pc, me);
    return v;
}
static u64 concretize(Expr* e, const char* what = "an address")
{
    if (e->kind == E_CONST) return e->c;
    if (e->undef) e = defined(e, what);
    SV.sync(S->pc);
    Expr* s = SV.simp(e);
    if (s->kind == E_CONST) return s->c;
    u64 v = SV.eval(s, S->m.get());
    Expr* eq = mkEq(s, kE(v, s->width));
    if (eq->kind == E_CONST) return v;
    ModelP m2;
    Res r = SV.check(S->pc, mkNot(eq), m2, baseModel());
    profQ("conc", r);
    if (r == R_UNSAT) { S->pc = pcAdd(S->pc, eq, true); return v; }
    if (r == R_UNKNOWN) { shm->ent[S->entry].incomplete++; S->pc = pcAdd(S->pc, eq); return v; }
    pushState(mkNot(eq), m2);
    S->pc = pcAdd(S->pc, eq);
    return v;
}
static inline u64 conc(Val& v, unsigned w, const char* what = "an address")
{
    if (!v.e) return v.c;
    return concretize(v.e, what);
}
static void assume(Expr* c)
{
    if (c->kind == E_CONST) { if (!c->c) { shm->ent[S->entry].killed++; endPath(); } return; }
    if (c->undef) c = defined(c, "an assumption");
    SV.sync(S->pc);
    Expr* s = SV.simp(c);
    if (s->kind == E_CONST) { if (!s->c) { shm->ent[S->entry].killed++; endPath(); } return; }
    if (!SV.eval(s, S->m.get())) {
        ModelP m2;
        Res r = SV.check(S->pc, s, m2, baseModel());
        if (r == R_UNSAT) { flushChecks(); shm->ent[S->entry].killed++; endPath(); }
        if (r == R_UNKNOWN) { shm->ent[S->entry].incomplete++; endPath(); }
        S->m = m2;
    }
    S->pc = pcAdd(S->pc, s);
}
static Expr* newSym(const std::string& name, unsigned w, bool internal = false)
{
    static std::map<std::string, u32> byKey;
    std::string key = name + "#" + std::to_string(S->syms.size()) + "#" + std::to_string(w);
    auto i = byKey.find(key);
    u32 id;
    if (i == byKey.end()) {
        id = gSyms.size();
        gSyms.push_back({name, (u8) w, internal});
        byKey[key] = id;
    } else id = i->second;
    S->syms.push_back(id);
    return XP.get(E_SYM, w, id);
}

// ---------------------------------------------------------------- memory
static u64 newObj(u64 size, u8 kind)
{
    if (size > (1u << OBJ_SHIFT) - 2 * OBJ_BASE) unsupported("allocation of " + std::to_string(size) + " bytes");
    u64 i = S->next++;
    Obj* o = Obj::make((u32) size, kind);
    S->mem.set(i, o);
    return (i << OBJ_SHIFT) + OBJ_BASE;
}
static const char* accName(bool wr) { return wr ? "write" : "read"; }
[[noreturn]] static void badAccess(u64 addr, unsigned n, bool wr)
{
    u64 i = addr >> OBJ_SHIFT, off = (addr & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BASE;
    char b[160];
    if (addr < 4096) { snprintf(b, 160, "null pointer %s", accName(wr)); fail("memory", b); }
    Obj* o = S->mem.get(i);
    if (!o) {
        if (i < S->next) { snprintf(b, 160, "%s of released memory (offset %lld, %u bytes)", accName(wr), (long long) off, n); fail("use-after-free", b); }
        snprintf(b, 160, "wild pointer %s", accName(wr));
        fail("memory", b);
    }
    snprintf(b, 160, "out of bounds %s: offset %lld, %u bytes, object of %u bytes", accName(wr), (long long) off, n, o->size);
    fail("out-of-bounds", b);
}
static inline Obj* objFor(u64 addr, unsigned n, bool wr, u32& off)
{
    u64 i = addr >> OBJ_SHIFT;
    u64 o = (addr & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BASE;
    Obj* ob = wr ? (S->mem.get(i) ? S->mem.getMut(i) : nullptr) : S->mem.get(i);
    if (!ob || o > ob->size || o + n > ob->size) badAccess(addr, n, wr);
    if (wr && ob->kind == OK_CONST) fail("memory", "write to constant memory");
    off = (u32) o;
    return ob;
}

// data races ---------------------------------------------------------------
static bool raceMode() { return S->th.size() > 1; }
static void raceAccess(u64 addr, unsigned n, bool wr, bool atomic)
{
    u64 i = addr >> OBJ_SHIFT;
    Obj* o = S->mem.getMut(i);
    if (!o || o->kind == OK_CONST) return;
    u32 off = (u32)((addr & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BASE);
    if (!o->sh) {
        o->sh = (Shadow*) malloc(sizeof(Shadow) * (o->size + 1));
        for (u32 k = 0; k < o->size; k++) o->sh[k] = Shadow();
    }
    int me = S->cur;
    VC& vc = T->vc;
    for (u32 k = off; k < off + n && k < o->size; k++) {
        Shadow& s = o->sh[k];
        if (s.wt != 255 && s.wt != me && s.wc > vc.t[s.wt] && !(atomic && s.wAtomic))
            fail("data-race", std::string(atomic ? "atomic " : "") + accName(wr) + " races with an earlier write by thread " + std::to_string(s.wt));
        if (wr) {
            for (int t = 0; t < MAXT; t++) if (t != me) {
                if (s.rc[t] > vc.t[t]) fail("data-race", std::string(atomic ? "atomic " : "") + "write races with an earlier read by thread " + std::to_string(t));
                if (!atomic && s.ac[t] > vc.t[t]) fail("data-race", "write races with an earlier atomic read by thread " + std::to_string(t));
            }
            s.wt = me; s.wc = vc.t[me]; s.wAtomic = atomic;
        } else {
            if (atomic) s.ac[me] = vc.t[me]; else s.rc[me] = vc.t[me];
        }
    }
}

static Expr* byteE(Obj* o, u32 i)
{
    u8 m = o->mask[i];
    if (m == 0) return kE(o->data[i], 8);
    if (m == 1) return PR.freshUndef(8);
    Expr* e = o->sym[i];
    return mkExtract(e, 8 * (m - 2), 8);
}
static Val loadObj(Obj* o, u32 off, unsigned w)
{
    unsigned n = (w + 7) / 8;
    u64 m = 0;
    memcpy(&m, o->mask + off, n > 8 ? 8 : n);
    if (m == 0) {
        u64 v = 0;
        memcpy(&v, o->data + off, n);
        return VCn(v & maskw(w));
    }
    // all undefined
    bool allU = true;
    for (unsigned k = 0; k < n; k++) if (o->mask[off + k] != 1) { allU = false; break; }
    if (allU) { Val v; v.e = PR.freshUndef(w); return v; }
    // whole expression
    Expr* e = nullptr;
    if (o->mask[off] == 2) {
        e = o->sym[off];
        if (e->width >= 8 * n) {
            for (unsigned k = 1; k < n; k++) if (o->mask[off + k] != 2 + k || o->sym[off + k] != e) { e = nullptr; break; }
        } else e = nullptr;
        if (e) return VE(mkExtract(e, 0, w));
    }
    Expr* r = nullptr;
    for (unsigned k = 0; k < n; k++) {
        // gather runs of undefined bytes so that one leaf stands for them
        Expr* b = byteE(o, off + k);
        r = r ? mkConcat(b, r) : b;
    }
    if (w < 8 * n) r = mkExtract(r, 0, w);
    return VE(r);
}
static void storeObj(Obj* o, u32 off, unsigned w, const Val& v)
{
    unsigned n = (w + 7) / 8;
    if (!v.e) {
        u64 c = v.c & maskw(w);
        memcpy(o->data + off, &c, n);
        memset(o->mask + off, 0, n);
        return;
    }
    Expr* e = v.e;
    if (e->kind == E_UNDEF && w >= 8) { memset(o->mask + off, 1, n); return; }
    if (w < 8 * n) e = mkZext(e, 8 * n);
    if (!o->sym) o->sym = (Expr**) calloc(o->size + 1, sizeof(Expr*));
    for (unsigned k = 0; k < n; k++) { o->mask[off + k] = 2 + k; o->sym[off + k] = e; }
}
static Val loadMem(u64 addr, unsigned w, bool atomic = false)
{
    u32 off;
    unsigned n = (w + 7) / 8;
    Obj* o = objFor(addr, n, false, off);
    if (raceMode() && !atomic) { raceAccess(addr, n, false, false); o = S->mem.get(addr >> OBJ_SHIFT); }
    return loadObj(o, off, w);
}
static void storeMem(u64 addr, unsigned w, const Val& v, bool atomic = false)
{
    u32 off;
    unsigned n = (w + 7) / 8;
    Obj* o = objFor(addr, n, true, off);
    if (raceMode() && !atomic) raceAccess(addr, n, true, false);
    storeObj(o, off, w, v);
}
// load through a symbolic address: an if-then-else over the object's cells
// when the address stays inside one object, forking otherwise.
static Val loadSym(Expr* ae, unsigned w, bool isPtr)
{
    ae = ae->undef ? defined(ae, "an address") : ae;
    SV.sync(S->pc);
    ae = SV.simp(ae);
    if (ae->kind == E_CONST) return loadMem(ae->c, w);
    if (isPtr || raceMode()) return loadMem(concretize(ae), w);
    u64 a0 = SV.eval(ae, S->m.get());
    u64 i = a0 >> OBJ_SHIFT;
    unsigned n = (w + 7) / 8;
    Obj* o = S->mem.get(i);
    if (!o || o->size < n || o->size > 2048) return loadMem(concretize(ae), w);
    u64 base = (i << OBJ_SHIFT) + OBJ_BASE;
    Expr* off = mkBin(E_SUB, ae, kE(base, 64));
    if (!decide(mkBin(E_ULE, off, kE(o->size - n, 64)), "an address")) {
        // the model's address is outside: concretise it
        return loadMem(concretize(ae), w);
    }
    SV.sync(S->pc);
    off = SV.simp(off);
    if (off->kind == E_CONST) return loadMem(base + off->c, w);
    o = S->mem.get(i);
    int tz = 0;
    while (tz < 6 && (off->kz >> tz & 1)) tz++;
    u64 stride = 1ull << tz;
    u64 lo = off->ko & ~(stride - 1);
    u64 first = off->ko & (stride - 1);
    u64 hi = ~off->kz;
    if (hi > o->size - n) hi = o->size - n;
    if ((hi - lo) / stride > 80) return loadMem(concretize(ae), w);
    Expr* r = nullptr;
    Expr* anyU = kE(0, 1);
    std::vector<std::pair<Expr*, Expr*>> cells;
    for (u64 k = lo + first; k <= hi; k += stride) {
        Expr* eq = mkEq(off, kE(k, 64));
        if (isC(eq, 0)) continue;
        Val v = loadObj(o, (u32) k, w);
        Expr* x = X(v, w);
        if (x->undef) anyU = mkBin(E_OR, anyU, eq);
        cells.push_back({eq, x});
    }
    bool dropU = false; // undefined cells that cannot be addressed are left out
    if (!isC(anyU, 0)) {
        ModelP m;
        dropU = SV.check(S->pc, anyU, m, baseModel()) == R_UNSAT;
    }
    for (auto& c : cells) {
        if (dropU && c.second->undef) continue;
        r = r ? mkIte(c.first, c.second, r) : c.second;
    }
    if (!r) return loadMem(concretize(ae), w);
    return VE(r);
}

static void copyMem(u64 dst, u64 src, u64 n)
{
    if (!n) return;
    u32 so, dof;
    Obj* s = objFor(src, n, false, so);
    if (raceMode()) { raceAccess(src, n, false, false); }
    Obj* d = objFor(dst, n, true, dof);
    if (raceMode()) { raceAccess(dst, n, true, false); }
    s = S->mem.get(src >> OBJ_SHIFT);
    d = S->mem.getMut(dst >> OBJ_SHIFT);
    s = S->mem.get(src >> OBJ_SHIFT);
    memmove(d->data + dof, s->data + so, n);
    bool anySym = false;
    for (u64 k = 0; k < n; k++) if (s->mask[so + k] > 1) { anySym = true; break; }
    if (anySym) {
        if (!d->sym) d->sym = (Expr**) calloc(d->size + 1, sizeof(Expr*));
        memmove(d->sym + dof, s->sym + so, n * sizeof(Expr*));
    }
    memmove(d->mask + dof, s->mask + so, n);
}
static void freeObj(u64 addr, int wantKind, u64 size, bool sized)
{
    if (!addr) return;
    u64 i = addr >> OBJ_SHIFT;
    Obj* o = S->mem.get(i);
    if (!o) {
        if (i && i < S->next) fail("double-free", "memory released twice");
        fail("memory", "release of a wild pointer");
    }
    if ((addr & ((1ull << OBJ_SHIFT) - 1)) != OBJ_BASE) fail("memory", "release of an interior pointer");
    if (o->kind > OK_NEWARR) fail("memory", "release of memory that is not from the heap");
    if (o->kind != wantKind) fail("memory", "allocation and release functions do not match");
    if (sized && o->size != size) fail("memory", "sized release with size " + std::to_string(size) + " of a block of " + std::to_string(o->size));
    if (raceMode()) raceAccess(addr, o->size, true, false);
    S->mem.set(i, nullptr);
    S->liveHeap--;
}
static std::string readStr(u64 addr)
{
    std::string r;
    for (int k = 0; k < 300; k++) {
        u64 i = addr >> OBJ_SHIFT;
        Obj* o = S->mem.get(i);
        u64 off = (addr & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BASE;
        if (!o || off >= o->size || o->mask[off]) break;
        if (!o->data[off]) break;
        r += (char) o->data[off];
        addr++;
    }
    return r;
}

// ---------------------------------------------------------------- typeinfo
static std::map<std::string, const char*> stdBases = {
    {"_ZTISt9exception", ""}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
static std::map<u64, std::string> addrName;
static std::map<std::string, u64> nameAddr;
static u64 tinfoAddr(const std::string& n)
{
    auto i = nameAddr.find(n);
    if (i != nameAddr.end()) return i->second;
    static u64 next = 0x7f0000000000ull;
    next += 64;
    nameAddr[n] = next;
    addrName[next] = n;
    return next;
}
static void basesOf(u64 ti, std::vector<u64>& out)
{
    auto it = addrName.find(ti);
    if (it == addrName.end()) return;
    auto sb = stdBases.find(it->second);
    if (sb != stdBases.end()) { if (*sb->second) out.push_back(tinfoAddr(sb->second)); return; }
    auto* gv = PR.M->getNamedGlobal(it->second);
    if (!gv || !gv->hasInitializer()) return;
    auto* cs = llvm::dyn_cast<llvm::ConstantStruct>(gv->getInitializer());
    if (!cs) return;
    for (unsigned k = 2; k < cs->getNumOperands(); k++)
        if (cs->getOperand(k)->getType()->isPointerTy()) out.push_back(PR.evalAddr(cs->getOperand(k)));
}
static bool isA(u64 ti, u64 want)
{
    if (ti == want) return true;
    std::vector<u64> b;
    basesOf(ti, b);
    for (u64 x : b) if (isA(x, want)) return true;
    return false;
}
static u32 typeId(u64 ti)
{
    static std::map<u64, u32> ids;
    auto i = ids.find(ti);
    if (i != ids.end()) return i->second;
    u32 n = 1 + ids.size();
    return ids[ti] = n;
}

// ---------------------------------------------------------------- frames
static void reload() // refresh cached pointers
{
    T = &S->th[S->cur];
    if (T->fr.empty()) { F = nullptr; R = nullptr; return; }
    F = &T->fr.back();
    R = T->regs.data() + F->base;
}
static void pushFrame(Thread& t, Func* f, CallSite* cs)
{
    if (!f->compiled) PR.compile(f);
    if (!f->seen) {
        f->seen = true;
        auto i = blockBase.find(f);
        if (i == blockBase.end()) { blockBase[f] = {-1, 0}; }
    }
    if (t.fr.size() > 400) fail("stack", "call depth exceeds 400 frames");
    u32 base = t.fr.empty() ? 0 : t.fr.back().base + t.fr.back().f->nslots;
    t.regs.resize(base + f->nslots);
    Frame fr{f, base, 0, (u32) t.allocas.size(), cs};
    t.fr.push_back(fr);
}
static void popFrame(Thread& t)
{
    Frame& f = t.fr.back();
    while (t.allocas.size() > f.allocaBase) {
        S->mem.set(t.allocas.back() >> OBJ_SHIFT, nullptr);
        t.allocas.pop_back();
    }
    t.regs.resize(f.base);
    t.fr.pop_back();
}
static void takeEdge(Edge* e)
{
    F->f->blockSeen[e->block] = 1;
    if (!e->copies.empty()) {
        if (e->overlap) {
            Val tmp[256];
            size_t n = e->copies.size();
            if (n > 256) unsupported("too many phis");
            for (size_t i = 0; i < n; i++) tmp[i] = V(e->copies[i].second);
            for (size_t i = 0; i < n; i++) R[e->copies[i].first] = tmp[i];
        } else
            for (auto& c : e->copies) R[c.first] = V(c.second);
    }
    F->pc = e->pc;
}
static Exc* excOf(u64 obj)
{
    for (auto& e : S->excs) if (e.obj == obj) return &e;
    return nullptr;
}
static void schedule(bool curEnabled);

static void unwind(u64 obj)
{
    Exc* ex = excOf(obj);
    if (!ex) fail("exception", "unwinding with an unknown exception object");
    u64 ti = ex->tinfo;
    for (;;) {
        if (T->fr.empty()) { reportViolation("uncaught", "uncaught exception", S->m.get(), ""); endPath(); }
        reload();
        const Ins& in = F->f->code[F->pc];
        if (in.op == O_CALL) {
            CallSite* cs = (CallSite*) in.ext;
            if (cs->lp) {
                bool take = cs->lp->cleanup;
                u32 sel = 0;
                for (auto& c : cs->lp->clauses) {
                    if (c.kind == 0 && (c.ti == 0 || isA(ti, c.ti))) { take = true; sel = typeId(c.ti); break; }
                    if (c.kind == 1) {
                        bool ok = false;
                        for (u64 x : c.filter) if (isA(ti, x)) ok = true;
                        if (!ok) { take = true; sel = (u32) -1; break; }
                    }
                }
                if (take) {
                    T->excObj = obj;
                    T->excSel = sel;
                    takeEdge(cs->unwind);
                    return;
                }
            }
            if (F->hook == H_FREE_EXC) {}
        }
        if (T->fr.size() == 1) {
            reportViolation("uncaught", "exception leaves the program: " + addrName[ti], S->m.get(), backtrace());
            endPath();
        }
        popFrame(*T);
    }
}
static void throwStd(const char* tiName, u64 sz = 16)
{
    u64 o = newObj(sz, OK_EXC);
    Obj* ob = S->mem.getMut(o >> OBJ_SHIFT);
    memset(ob->mask, 0, ob->size);
    S->excs.push_back({o, tinfoAddr(tiName), 0, 0, false});
    unwind(o);
}

// ---------------------------------------------------------------- threads
static bool enabled(int t)
{
    Thread& x = S->th[t];
    switch (x.status) {
    case T_RUN: return true;
    case T_DONE: return false;
    case T_JOIN: return S->th[x.joinT].status == T_DONE;
    case T_YIELD: return S->writeStamp > x.lastStamp;
    case T_GUARD: return S->writeStamp > x.lastStamp;
    }
    return false;
}
// what a thread is about to do
enum PendKind : u8 { P_NONE, P_READ, P_ADD, P_WRITE, P_ANY };
// Whether the order of the two matters in this state: two accesses that leave
// the same value in the end and see nothing different, like counting a
// reference that isn't the last one twice, can go in either order.
static bool dependent(const Thread& a, const Thread& b)
{
    if (a.pendK == P_ANY || b.pendK == P_ANY) return true;
    if (a.pendK == P_NONE || b.pendK == P_NONE) return false;
    if (a.pendA >= b.pendA + b.pendN || b.pendA >= a.pendA + a.pendN) return false;
    if (a.pendK == P_WRITE || b.pendK == P_WRITE) return true;
    if (a.pendK == P_READ && b.pendK == P_READ) return false;
    if (a.pendA != b.pendA || a.pendN != b.pendN) return true;
    u64 i = a.pendA >> OBJ_SHIFT, lo = (i << OBJ_SHIFT) + OBJ_BASE;
    Obj* o = S->mem.get(i);
    if (!o || a.pendA < lo || a.pendA + a.pendN > lo + o->size) return true;
    Val v = loadObj(o, (u32) (a.pendA - lo), a.pendN * 8);
    if (v.e) return true;
    auto same = [&](const Thread& x, u64 d) {
        if (x.pendO == OBS_NOTHING || d == 0) return true;
        if (x.pendO == OBS_ALL) return false;
        u64 m = maskw(x.pendN * 8), c = x.pendO & 0xffffffff;
        return ((v.c & m) == c) == (((v.c + d) & m) == c);
    };
    return !same(a, b.pendD) || !same(b, a.pendD);
}
static inline bool isAsleep(int t) { return S->asleep >> t & 1; }
// pick the thread that performs the next visible operation
static void schedule(bool curEnabled)
{
    S->resched = !curEnabled; // a forked state starts by choosing again
    int opts[MAXT], n = 0;
    bool some = false;
    if (curEnabled) { some = true; if (!isAsleep(S->cur)) opts[n++] = S->cur; }
    if (!curEnabled || OPT.por || S->preempts < (u32) OPT.preempt)
        for (int t = 0; t < (int) S->th.size(); t++)
            if (t != S->cur && enabled(t)) { some = true; if (!isAsleep(t)) opts[n++] = t; }
    if (!curEnabled && !some && enabled(S->cur)) { some = true; if (!isAsleep(S->cur)) opts[n++] = S->cur; }
    if (!some) {
        fail("deadlock", "no thread can make progress");
    }
    if (n == 0) { shm->ent[S->entry].killed++; endPath(); } // an equivalent schedule is explored elsewhere
    int pick = 0;
    if (n > 1) {
        static std::map<u32, u32> ids;
        auto i = ids.find(S->nsched);
        u32 id;
        if (i == ids.end()) {
            id = gSyms.size();
            gSyms.push_back({"sched" + std::to_string(S->nsched), 8, true});
            ids[S->nsched] = id;
        } else id = i->second;
        Expr* e = XP.get(E_SYM, 8, id);
        assume(mkBin(E_ULT, e, kE(n, 8)));
        pick = (int) concretize(e, "the schedule");
    }
    S->nsched++;
    S->resched = false;
    int t = opts[pick];
    if (OPT.por) {
        for (int k = 0; k < pick; k++) S->asleep |= 1u << opts[k];
        for (int k = 0; k < (int) S->th.size(); k++) if (isAsleep(k) && dependent(S->th[k], S->th[t])) S->asleep &= ~(1u << k);
    }
    if (curEnabled && t != S->cur) S->preempts++;
    S->cur = t;
    S->th[t].status = T_RUN;
    S->th[t].go = true;
    reload();
}
// true when the running thread may perform its visible operation now
static inline bool visible(u64 addr = 0, unsigned bytes = 0, PendKind kind = P_NONE, u64 adds = 0, u64 looksFor = OBS_ALL)
{
    if (S->th.size() == 1) return true;
    T->pendD = adds;
    T->pendO = looksFor;
    T->pendA = addr;
    T->pendN = bytes;
    T->pendK = kind;
    if (T->startedBy >= 0) {
        S->cur = T->startedBy;
        T->startedBy = -1;
        reload();
        return false;
    }
    if (T->go) {
        T->go = false;
        T->pendK = P_ANY; // until it reaches the next one
        S->trace.push_back((u8) S->cur);
        return true;
    }
    int others = 0;
    for (int t = 0; t < (int) S->th.size(); t++) if (t != S->cur && enabled(t)) others++;
    if (!others && !(OPT.por && S->asleep)) { S->trace.push_back((u8) S->cur); return true; }
    schedule(true);
    return false;
}
static void yield(int others)
{
    if (T->startedBy >= 0) {
        T->status = T_YIELD;
        T->pendK = P_ANY;
        S->cur = T->startedBy;
        T->startedBy = -1;
        reload();
    } else if (others) {
        T->status = T_YIELD;
        T->pendK = P_ANY;
        schedule(false);
    }
}
static void atomicLoadSync(u64 a, int ord)
{
    if (!raceMode()) return;
    auto i = S->sync.find(a);
    if (i == S->sync.end()) return;
    if (ord & 1) T->vc.join(i->second);
    T->acqP.join(i->second);
}
// An operation that doesn't find what it looks for (a reference count that
// wasn't the last one) takes nothing over from the threads before it.
static bool takes(const Val& v, u64 looksFor)
{
    if (!OPT.por || looksFor == OBS_ALL) return true;
    return looksFor != OBS_NOTHING && (v.e || v.c == (looksFor & 0xffffffff));
}
static void atomicStoreSync(u64 a, int ord, bool rmw)
{
    if (!raceMode()) return;
    VC rel;
    bool has = false;
    if (ord & 2) { rel = T->vc; has = true; }
    else if (T->hasRelF) { rel = T->relF; has = true; }
    if (rmw) { if (has) S->sync[a].join(rel); }
    else if (has) S->sync[a] = rel;
    else S->sync.erase(a);
    if (ord & 2) T->vc.t[S->cur]++;
}

// ---------------------------------------------------------------- builtins
enum BI {
    B_MALLOC, B_CALLOC, B_FREE, B_NEW, B_NEWA, B_NEWAL, B_DEL, B_DELS, B_DELA, B_DELAS, B_DELAL, B_DELSAL, B_NEWNT, B_NEWANT, B_DELNT, B_DELANT,
    B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_ABORT, B_ASSERT, B_TERM, B_CTERM,
    B_TBADALLOC, B_TLEN, B_TOOR, B_TOORF, B_TLOGIC, B_TBFC, B_TBANL,
    B_CXAALLOC, B_CXAFREE, B_CXATHROW, B_CXABEGIN, B_CXAEND, B_CXARETHROW, B_GUARDACQ, B_GUARDREL, B_GUARDABORT, B_ATEXIT, B_TATEXIT,
    B_EXCCTOR, B_EXCDTOR, B_NOP0, B_YIELD,
    B_SYM, B_RANGE, B_ASSUME, B_CHECK, B_REACH, B_PICK, B_OUT, B_FAIL, B_SPAWN, B_JOIN, B_NATIVE, B_LIVE, B_UNCAUGHT, B_ALIGNED, B_TID, B_SYMBOLIC, B_END,
    B_INITED, B_NOW, B_COUNT
};
static std::map<std::string, int> biMap = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZnwmSt11align_val_t", B_NEWAL},
    {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DELS}, {"_ZdaPv", B_DELA}, {"_ZdaPvm", B_DELAS}, {"_ZdlPvSt11align_val_t", B_DELAL}, {"_ZdlPvmSt11align_val_t", B_DELSAL},
    {"_ZnwmRKSt9nothrow_t", B_NEWNT}, {"_ZnamRKSt9nothrow_t", B_NEWANT}, {"_ZdlPvRKSt9nothrow_t", B_DELNT}, {"_ZdaPvRKSt9nothrow_t", B_DELANT},
    {"aligned_alloc", B_ALIGNED},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN},
    {"abort", B_ABORT}, {"__assert_fail", B_ASSERT}, {"_ZSt9terminatev", B_TERM}, {"__clang_call_terminate", B_CTERM}, {"__cxa_pure_virtual", B_ABORT},
    {"_ZSt17__throw_bad_allocv", B_TBADALLOC}, {"_ZSt20__throw_length_errorPKc", B_TLEN}, {"_ZSt20__throw_out_of_rangePKc", B_TOOR}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_TOORF},
    {"_ZSt19__throw_logic_errorPKc", B_TLOGIC}, {"_ZSt25__throw_bad_function_callv", B_TBFC}, {"_ZSt28__throw_bad_array_new_lengthv", B_TBANL},
    {"__cxa_allocate_exception", B_CXAALLOC}, {"__cxa_free_exception", B_CXAFREE}, {"__cxa_throw", B_CXATHROW}, {"__cxa_begin_catch", B_CXABEGIN},
    {"__cxa_end_catch", B_CXAEND}, {"__cxa_rethrow", B_CXARETHROW}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_GUARDABORT},
    {"__cxa_atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_TATEXIT}, {"atexit", B_NOP0},
    {"_ZNSt12out_of_rangeC1EPKc", B_EXCCTOR}, {"_ZNSt11logic_errorC1EPKc", B_EXCCTOR}, {"_ZNSt13runtime_errorC1EPKc", B_EXCCTOR}, {"_ZNSt12length_errorC1EPKc", B_EXCCTOR}, {"_ZNSt16invalid_argumentC1EPKc", B_EXCCTOR},
    {"_ZNSt13runtime_errorC2EPKc", B_EXCCTOR}, {"_ZNSt11logic_errorC2EPKc", B_EXCCTOR},
    {"_ZNSt12out_of_rangeD1Ev", B_EXCDTOR}, {"_ZNSt11logic_errorD1Ev", B_EXCDTOR}, {"_ZNSt13runtime_errorD1Ev", B_EXCDTOR}, {"_ZNSt12length_errorD1Ev", B_EXCDTOR}, {"_ZNSt16invalid_argumentD1Ev", B_EXCDTOR},
    {"_ZNSt13runtime_errorD2Ev", B_EXCDTOR}, {"_ZNSt11logic_errorD2Ev", B_EXCDTOR}, {"_ZNSt9exceptionD2Ev", B_EXCDTOR}, {"_ZNSt9bad_allocD1Ev", B_EXCDTOR}, {"_ZNSt9exceptionD1Ev", B_EXCDTOR},
    {"printf", B_NOP0}, {"puts", B_NOP0}, {"putchar", B_NOP0}, {"fprintf", B_NOP0}, {"fflush", B_NOP0}, {"sched_yield", B_YIELD}, {"nanosleep", B_YIELD}, {"usleep", B_YIELD}, {"clock_nanosleep", B_YIELD},
    {"_ZNSt8ios_base4InitC1Ev", B_NOP0}, {"_ZNSt8ios_base4InitD1Ev", B_NOP0},
    {"sx_sym", B_SYM}, {"sx_range", B_RANGE}, {"sx_assume", B_ASSUME}, {"sx_check", B_CHECK}, {"sx_reach", B_REACH}, {"sx_pick", B_PICK}, {"sx_out", B_OUT}, {"sx_fail", B_FAIL},
    {"sx_spawn", B_SPAWN}, {"sx_join", B_JOIN}, {"sx_native", B_NATIVE}, {"sx_live_heap", B_LIVE}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT},
    {"sx_tid", B_TID}, {"sx_is_symbolic", B_SYMBOLIC}, {"sx_end", B_END}, {"sx_is_init", B_INITED}, {"sx_now", B_NOW}};
int builtinId(const std::string& n)
{
    auto i = biMap.find(n);
    return i == biMap.end() ? -1 : i->second;
}

static void finishCall(CallSite* cs, Val r)
{
    if (cs->nret > 0) R[cs->ret] = r;
    if (cs->normal) takeEdge(cs->normal);
    else F->pc++;
}

static void doBuiltin(int b, CallSite* cs)
{
    auto A = [&](int i) -> Val& { return V(cs->args[i]); };
    auto C = [&](int i) -> u64 { Val& v = A(i); return v.e ? conc(v, cs->argw[i], "a call argument") : v.c; };
    switch (b) {
    case B_MALLOC: case B_NEW: case B_NEWA: case B_NEWAL: case B_NEWNT: case B_NEWANT: {
        u64 n = C(0);
        if (b == B_NEWAL) (void) C(1);
        u64 a = newObj(n, b == B_MALLOC ? OK_HEAP : (b == B_NEWA || b == B_NEWANT) ? OK_NEWARR : OK_NEW);
        S->liveHeap++;
        finishCall(cs, VCn(a));
        return;
    }
    case B_ALIGNED: {
        u64 n = C(1);
        u64 a = newObj(n, OK_HEAP);
        S->liveHeap++;
        finishCall(cs, VCn(a));
        return;
    }
    case B_CALLOC: {
        u64 n = C(0) * C(1);
        u64 a = newObj(n, OK_HEAP);
        Obj* o = S->mem.getMut(a >> OBJ_SHIFT);
        memset(o->mask, 0, n);
        S->liveHeap++;
        finishCall(cs, VCn(a));
        return;
    }
    case B_FREE: freeObj(C(0), OK_HEAP, 0, false); finishCall(cs, Val()); return;
    case B_DEL: case B_DELAL: case B_DELNT: freeObj(C(0), OK_NEW, 0, false); finishCall(cs, Val()); return;
    case B_DELS: case B_DELSAL: { u64 p = C(0), n = C(1); freeObj(p, OK_NEW, n, true); finishCall(cs, Val()); return; }
    case B_DELA: case B_DELANT: freeObj(C(0), OK_NEWARR, 0, false); finishCall(cs, Val()); return;
    case B_DELAS: { u64 p = C(0), n = C(1); freeObj(p, OK_NEWARR, n, true); finishCall(cs, Val()); return; }
    case B_MEMCPY: case B_MEMMOVE: { u64 d = C(0), s = C(1), n = C(2); copyMem(d, s, n); finishCall(cs, VCn(d)); return; }
    case B_MEMSET: {
        u64 d = C(0), n = C(2);
        Val v = A(1);
        if (n) {
            u32 off; Obj* o = objFor(d, n, true, off);
            if (raceMode()) raceAccess(d, n, true, false);
            Val bv = v.e ? VE(mkExtract(v.e, 0, 8)) : VCn(v.c & 255);
            for (u64 k = 0; k < n; k++) storeObj(o, off + k, 8, bv);
        }
        finishCall(cs, VCn(d));
        return;
    }
    case B_MEMCMP: case B_BCMP: {
        u64 p = C(0), q = C(1), n = C(2);
        Expr* r = kE(0, 32);
        for (u64 k = n; k-- > 0;) {
            Expr *x = X(loadMem(p + k, 8), 8), *y = X(loadMem(q + k, 8), 8);
            r = mkIte(mkEq(x, y), r, mkIte(mkBin(E_ULT, x, y), kE(-1, 32), kE(1, 32)));
        }
        finishCall(cs, VE(r));
        return;
    }
    case B_STRLEN: { std::string s = readStr(C(0)); finishCall(cs, VCn(s.size())); return; }
    case B_ABORT: fail("abort", "abort called");
    case B_ASSERT: { std::string m = readStr(C(0)), f = readStr(C(1)); fail("assert", "assertion failed: " + m + " (" + f + ")"); }
    case B_TERM: case B_CTERM: fail("terminate", "std::terminate called");
    case B_TBADALLOC: throwStd("_ZTISt9bad_alloc"); return;
    case B_TLEN: throwStd("_ZTISt12length_error"); return;
    case B_TOOR: case B_TOORF: throwStd("_ZTISt12out_of_range"); return;
    case B_TLOGIC: throwStd("_ZTISt11logic_error"); return;
    case B_TBFC: throwStd("_ZTISt17bad_function_call"); return;
    case B_TBANL: throwStd("_ZTISt20bad_array_new_length"); return;
    case B_CXAALLOC: {
        u64 a = newObj(C(0), OK_EXC);
        finishCall(cs, VCn(a));
        return;
    }
    case B_CXAFREE: { u64 a = C(0); S->mem.set(a >> OBJ_SHIFT, nullptr); finishCall(cs, Val()); return; }
    case B_CXATHROW: {
        u64 o = C(0), ti = C(1), dt = C(2);
        S->excs.push_back({o, ti, dt, 0, false});
        unwind(o);
        return;
    }
    case B_CXABEGIN: {
        u64 o = C(0);
        Exc* e = excOf(o);
        if (!e) fail("exception", "begin_catch of an unknown exception");
        e->handlers++;
        e->rethrown = false;
        T->caught.push_back(o);
        finishCall(cs, VCn(o));
        return;
    }
    case B_CXAEND: {
        if (T->caught.empty()) fail("exception", "end_catch without a caught exception");
        u64 o = T->caught.back();
        T->caught.pop_back();
        Exc* e = excOf(o);
        e->handlers--;
        u64 dt = 0;
        bool destroy = e->handlers == 0 && !e->rethrown;
        if (destroy) {
            dt = e->dtor;
            S->excs.erase(S->excs.begin() + (e - S->excs.data()));
        }
        if (destroy && dt) {
            auto i = PR.byAddr.find(dt);
            if (i == PR.byAddr.end()) fail("memory", "call of a wild function pointer");
            if (i->second->builtin < 0 && !i->second->lf->isDeclaration()) {
                // run the destructor, then release the exception object
                finishCall(cs, Val());
                pushFrame(*T, i->second, nullptr);
                reload();
                F->hook = H_FREE_EXC;
                F->hookArg = o;
                R[0] = VCn(o);
                return;
            }
        }
        if (destroy) S->mem.set(o >> OBJ_SHIFT, nullptr);
        finishCall(cs, Val());
        return;
    }
    case B_CXARETHROW: {
        if (T->caught.empty()) fail("terminate", "rethrow without a caught exception");
        u64 o = T->caught.back();
        excOf(o)->rethrown = true;
        unwind(o);
        return;
    }
    case B_UNCAUGHT: finishCall(cs, VCn(0)); return;
    case B_GUARDACQ: {
        u64 g = C(0);
        u8& st = S->guards[g];
        if (st == 2) { if (raceMode()) atomicLoadSync(g, 1); finishCall(cs, VCn(0)); return; }
        if (st == 1) {
            if (S->th.size() == 1) fail("deadlock", "recursive initialisation of a static");
            T->status = T_GUARD;
            T->lastStamp = S->writeStamp;
            schedule(false);
            return;
        }
        st = 1;
        finishCall(cs, VCn(1));
        return;
    }
    case B_GUARDREL: {
        u64 g = C(0);
        S->guards[g] = 2;
        storeMem(g, 8, VCn(1), true);
        atomicStoreSync(g, 3, false);
        S->writeStamp++;
        finishCall(cs, Val());
        return;
    }
    case B_GUARDABORT: S->guards[C(0)] = 0; S->writeStamp++; finishCall(cs, Val()); return;
    case B_ATEXIT: case B_NOP0: finishCall(cs, VCn(0)); return;
    case B_TATEXIT: T->tdtors.push_back({C(0), C(1)}); finishCall(cs, VCn(0)); return;
    case B_EXCCTOR: {
        u64 o = C(0);
        Obj* ob = S->mem.getMut(o >> OBJ_SHIFT);
        if (ob) memset(ob->mask, 0, ob->size < 16 ? ob->size : 16);
        finishCall(cs, Val());
        return;
    }
    case B_EXCDTOR: finishCall(cs, Val()); return;
    case B_YIELD: {
        int others = 0;
        for (int t = 0; t < (int) S->th.size(); t++) if (t != S->cur && enabled(t)) others++;
        finishCall(cs, VCn(0));
        yield(others);
        return;
    }
    // harness interface
    case B_SYM: {
        std::string n = readStr(C(1));
        unsigned w = (unsigned) C(0);
        Expr* e = newSym(n, w);
        finishCall(cs, VE(mkZext(e, 64)));
        return;
    }
    case B_RANGE: {
        std::string n = readStr(C(0));
        u64 lo = C(1), hi = C(2);
        if (lo > hi) { shm->ent[S->entry].killed++; endPath(); }
        if (lo == hi) {
            // keep the symbol so that replays see the same sequence
            unsigned w = hi ? 64 - __builtin_clzll(hi) : 1;
            Expr* e = newSym(n, w);
            ModelP m = std::make_shared<Model>(*S->m);
            m->v[e->c] = lo;
            S->m = m;
            S->pc = pcAdd(S->pc, mkEq(e, kE(lo, w)));
            finishCall(cs, VCn(lo));
            return;
        }
        unsigned w = 64 - __builtin_clzll(hi);
        Expr* e = newSym(n, w);
        ModelP m = std::make_shared<Model>(*S->m);
        m->v[e->c] = lo;
        S->m = m;
        Expr* c = mkBin(E_AND, mkBin(E_ULE, kE(lo, w), e), mkBin(E_ULE, e, kE(hi, w)));
        if (c->kind != E_CONST) S->pc = pcAdd(S->pc, c);
        finishCall(cs, VE(mkZext(e, 64)));
        return;
    }
    case B_ASSUME: {
        Val& v = A(0);
        Expr* e = mkNot(mkEq(X(v, cs->argw[0]), kE(0, cs->argw[0])));
        assume(e);
        finishCall(cs, Val());
        return;
    }
    case B_CHECK: {
        Val v = A(0);
        localSteps++;
        shm->checks.fetch_add(1, std::memory_order_relaxed);
        S->checksDone++;
        Expr* e = mkNot(mkEq(X(v, cs->argw[0]), kE(0, cs->argw[0])));
        if (e->kind != E_CONST || !e->c) {
            if (e->undef) e = defined(e, "a checked result");
            if (isC(e, 0)) fail("check", readStr(C(1)));
            if (e->kind != E_CONST) {
                shm->symbolicChecks.fetch_add(1, std::memory_order_relaxed);
                SV.sync(S->pc);
                e = SV.simp(e);
                if (isC(e, 0) || (!isC(e) && !SV.eval(e, S->m.get()))) fail("check", readStr(C(1)));
                if (!isC(e)) S->checks.push_back({e, strdup(readStr(C(1)).c_str()), backtrace()});
            }
        }
        finishCall(cs, Val());
        return;
    }
    case B_REACH: {
        auto i = tagByAddr.find(C(0));
        if (i != tagByAddr.end()) shm->tagSeen[i->second] = 1;
        finishCall(cs, Val());
        return;
    }
    case B_PICK: finishCall(cs, VCn(C(0))); return;
    case B_OUT: S->outs.push_back(A(0)); finishCall(cs, Val()); return;
    case B_FAIL: fail("check", readStr(C(0)));
    case B_SPAWN: {
        u64 fn = C(0);
        Val arg = A(1);
        if (S->th.size() >= MAXT) unsupported("too many threads");
        int id = S->th.size();
        auto i = PR.byAddr.find(fn);
        if (i == PR.byAddr.end()) unsupported("spawn");
        finishCall(cs, VCn(id));
        if (S->th.size() == 1) T->vc.t[0] = 1;
        Thread nt;
        nt.vc = T->vc;
        nt.vc.t[id] = 1;
        T->vc.t[S->cur]++;
        S->th.push_back(nt);
        Thread& t = S->th.back();
        pushFrame(t, i->second, nullptr);
        t.regs[0] = arg;
        t.startedBy = S->cur;
        S->cur = id;
        reload();
        return;
    }
    case B_JOIN: {
        int t = (int) C(0);
        if (S->th[t].status != T_DONE) {
            T->status = T_JOIN;
            T->joinT = t;
            T->pendK = P_NONE;
            schedule(false);
            T->go = false;
            if (S->th[S->cur].status == T_RUN && S->cur != t) {}
            S->th[S->cur].go = true;
            return;
        }
        T->vc.join(S->th[t].vc);
        T->go = false;
        finishCall(cs, Val());
        return;
    }
    case B_NATIVE: finishCall(cs, VCn(0)); return;
    case B_NOW: finishCall(cs, VCn(S->th.size() > 1 ? S->trace.size() : 0)); return;
    case B_TID: finishCall(cs, VCn(S->cur)); return;
    case B_LIVE: finishCall(cs, VCn(S->liveHeap)); return;
    case B_SYMBOLIC: finishCall(cs, VCn(A(0).e != nullptr)); return;
    case B_INITED: {
        u64 p = C(0), n = C(1);
        u32 off; Obj* o = objFor(p, n, false, off);
        bool ok = true;
        for (u64 k = 0; k < n; k++) if (o->mask[off + k] == 1) ok = false;
        finishCall(cs, VCn(ok));
        return;
    }
    case B_END: flushChecks(); endPath();
    }
    unsupported("builtin " + std::to_string(b));
}

// path finished normally
static void pathDone()
{
    flushChecks();
    EntStat& es = shm->ent[S->entry];
    es.paths++;
    es.checks += S->checksDone;
    u64 k = es.samples.load();
    // a spread of witnesses: the first ones and then sparser and sparser
    u64 p = es.paths.load();
    bool want = k < (u64) OPT.samples && (k < 2 || (p * 0x9E3779B97F4A7C15ull >> 40) % (1ull << (k < 16 ? k : 16)) == 0);
    static const bool every = getenv("SYMX_PARANOID");
    if (want || every) {
        SV.newEval();
        for (PC* q = S->pc; q; q = q->parent) if (!SV.eval(q->e, S->m.get())) { // never: the path would not be one
            es.incomplete++;
            emitResult("{\"type\":\"unsupported\",\"entry\":" + jstr(OPT.entries[S->entry]) + ",\"msg\":\"the model of the path does not satisfy it\",\"where\":\"\"}");
            return;
        }
    }
    if (want) {
        es.samples++;
        // an arbitrary witness rather than the one the solver likes best
        {
            auto m2 = std::make_shared<Model>(S->m ? *S->m : Model());
            u64 rnd = p * 0x9E3779B97F4A7C15ull + 12345;
            for (u32 sy : S->syms) {
                rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
                u64 old = m2->get(sy);
                u32 w = gSyms[sy].width;
                if (gSyms[sy].internal) continue;
                m2->v[sy] = w >= 64 ? rnd : rnd & ((1ull << w) - 1);
                SV.newEval();
                bool ok = true;
                for (PC* q = S->pc; q && ok; q = q->parent) if (!q->implied && !SV.eval(q->e, m2.get())) ok = false;
                if (!ok) m2->v[sy] = old;
            }
            S->m = m2;
        }
        SV.newEval();
        u64 h = 0xcbf29ce484222325ull;
        for (auto& v : S->outs) {
            u64 x = v.e ? SV.eval(v.e, S->m.get()) : v.c;
            if (v.e && v.e->undef) x = 0;
            for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 255; h *= 0x100000001b3ull; }
        }
        emitResult("{\"type\":\"path\",\"entry\":" + jstr(OPT.entries[S->entry]) + ",\"out\":\"" + std::to_string(h) + "\",\"nout\":" + std::to_string(S->outs.size()) +
                   ",\"syms\":" + symsJson(S, S->m.get()) + ",\"trace\":" + traceJson(S) + ",\"steps\":" + std::to_string(S->steps) + "}");
    }
}

// return from the current function; returns false when the path is over
static void doRet(const Ins& in)
{
    Frame fr = *F;
    Val rv[16];
    int n = (int) in.imm;
    if (n > 16) unsupported("return value with many parts");
    for (int i = 0; i < n; i++) { int o = in.a >= 0 ? in.a + i : in.a - i; rv[i] = V(o); }
    popFrame(*T);
    if (fr.hook == H_FREE_EXC) {
        S->mem.set(fr.hookArg >> OBJ_SHIFT, nullptr);
        reload();
        return; // caller already advanced
    }
    if (T->fr.empty() || fr.hook == H_TDTORS) {
        if (S->cur != 0 && !T->tdtors.empty()) {
            auto d = T->tdtors.back();
            T->tdtors.pop_back();
            auto i = PR.byAddr.find(d.first);
            if (i == PR.byAddr.end()) fail("memory", "call of a wild function pointer");
            pushFrame(*T, i->second, nullptr);
            reload();
            F->hook = H_TDTORS;
            if (F->f->nslots) R[0] = VCn(d.second);
            return;
        }
        if (S->cur == 0) { pathDone(); endPath(); }
        T->status = T_DONE;
        T->go = false;
        if (T->startedBy >= 0) {
            S->cur = T->startedBy;
            T->startedBy = -1;
            reload();
            return;
        }
        schedule(false);
        return;
    }
    reload();
    CallSite* cs = fr.cs;
    for (int i = 0; i < n && i < cs->nret; i++) R[cs->ret + i] = rv[i];
    if (cs->normal) takeEdge(cs->normal);
    else F->pc++;
}

static void doCall(CallSite* cs)
{
    Func* f = cs->callee;
    if (!f) {
        u64 a = conc(V(cs->fnOp), 64, "a call target");
        auto i = PR.byAddr.find(a);
        if (i == PR.byAddr.end()) fail("memory", "call of a wild function pointer");
        f = i->second;
    }
    if (f->builtin >= 0) { doBuiltin(f->builtin, cs); return; }
    if (f->lf->isDeclaration()) {
        unsupported("call of external function " + f->name);
    }
    if (!f->compiled) PR.compile(f);
    f->calls++;
    size_t n = f->argSlots.size();
    if (n > cs->args.size()) unsupported("argument count of " + f->name);
    Val tmp[64];
    if (n > 64) unsupported("too many arguments");
    for (size_t i = 0; i < n; i++) {
        tmp[i] = V(cs->args[i]);
        if (cs->byval[i]) {
            u64 src = conc(tmp[i], 64);
            u64 a = newObj(cs->byval[i], OK_STACK);
            copyMem(a, src, cs->byval[i]);
            tmp[i] = VCn(a);
            // owned by the callee's frame: recorded after the push
        }
    }
    pushFrame(*T, f, cs);
    reload();
    for (size_t i = 0; i < n; i++) {
        R[f->argSlots[i]] = tmp[i];
        if (cs->byval[i]) T->allocas.push_back(tmp[i].c);
    }
    if (!f->blockSeen.empty()) f->blockSeen[0] = 1;
}

static void fbin(const Ins& in)
{
    Val a = V(in.a), b = V(in.b);
    if (a.e || b.e) unsupported("symbolic floating point");
    auto go = [&](auto z) {
        typedef decltype(z) FT;
        FT x, y, r;
        memcpy(&x, &a.c, sizeof(FT));
        memcpy(&y, &b.c, sizeof(FT));
        switch (in.imm) {
        case llvm::Instruction::FAdd: r = x + y; break;
        case llvm::Instruction::FSub: r = x - y; break;
        case llvm::Instruction::FMul: r = x * y; break;
        case llvm::Instruction::FDiv: r = x / y; break;
        case 9999: r = -x; break;
        default: unsupported("fp op");
        }
        u64 o = 0;
        memcpy(&o, &r, sizeof(FT));
        R[in.d] = VCn(o);
    };
    if (in.w == 32) go(0.0f);
    else go(0.0);
}
static double fval(u64 c, unsigned w)
{
    if (w == 32) { float f; memcpy(&f, &c, 4); return f; }
    double d; memcpy(&d, &c, 8); return d;
}
static void fcast(const Ins& in)
{
    Val a = V(in.a);
    if (a.e) unsupported("symbolic floating point");
    auto putF = [&](double x) {
        u64 o = 0;
        if (in.w == 32) { float f = (float) x; memcpy(&o, &f, 4); } else memcpy(&o, &x, 8);
        R[in.d] = VCn(o);
    };
    switch (in.imm) {
    case llvm::Instruction::UIToFP: putF((double) a.c); break;
    case llvm::Instruction::SIToFP: putF((double) sextw(a.c, in.aux)); break;
    case llvm::Instruction::FPExt: case llvm::Instruction::FPTrunc: putF(fval(a.c, in.aux)); break;
    case llvm::Instruction::FPToUI: R[in.d] = VCn((u64) fval(a.c, in.aux) & maskw(in.w)); break;
    case llvm::Instruction::FPToSI: R[in.d] = VCn((u64)(i64) fval(a.c, in.aux) & maskw(in.w)); break;
    default: unsupported("fp cast");
    }
}

static u64 tlsAddr(u64 var)
{
    for (auto& p : T->tls) if (p.first == var) return p.second;
    auto* gv = PR.tlsByAddr[var];
    u64 size = PR.DL->getTypeAllocSize(gv->getValueType());
    u64 a = newObj(size, OK_TLS);
    Obj* o = S->mem.getMut(a >> OBJ_SHIFT);
    memset(o->mask, 0, o->size);
    if (gv->hasInitializer()) PR.writeConst(gv->getInitializer(), o->data, o->mask, size);
    else if (gv->isDeclaration()) unsupported("external thread_local");
    for (u32 k = 0; k < o->size; k++) if (o->mask[k] == 1) o->mask[k] = 0;
    T->tls.push_back({var, a});
    return a;
}

// ---------------------------------------------------------------- main loop
static void run()
{
    if (S->resched) {
        T = &S->th[S->cur];
        schedule(false);
    }
    reload();
    u64 budget = OPT.maxSteps;
    for (;;) {
        const Ins& in = F->f->code[F->pc];
        localSteps++;
        if (++S->steps > budget) fail("nontermination", "no end after " + std::to_string(budget) + " instructions");
        if ((S->steps & 0xffff) == 0 && (now() > deadline || shm->stop.load(std::memory_order_relaxed))) {
            shm->ent[S->entry].trunc++;
            flushChecks();
            endPath();
        }
#define BINOP(EK, CEXPR) { const Val &a = V(in.a), &b = V(in.b); \
            if (!a.e && !b.e) { Val& d = R[in.d]; u64 r = (CEXPR) & maskw(in.w); d.e = nullptr; d.c = r; } \
            else R[in.d] = VE(mkBin(EK, X(a, in.w), X(b, in.w))); F->pc++; break; }
#define CMPOP(EK, CEXPR) { const Val &a = V(in.a), &b = V(in.b); \
            if (!a.e && !b.e) { u64 r = (CEXPR); Val& d = R[in.d]; d.e = nullptr; d.c = r; } \
            else R[in.d] = VE(mkBin(EK, X(a, in.w), X(b, in.w))); F->pc++; break; }
        switch (in.op) {
        case O_ADD: BINOP(E_ADD, a.c + b.c)
        case O_SUB: BINOP(E_SUB, a.c - b.c)
        case O_AND: BINOP(E_AND, a.c & b.c)
        case O_OR: BINOP(E_OR, a.c | b.c)
        case O_XOR: {
            const Val &a = V(in.a), &b = V(in.b);
            if (!a.e && !b.e) { R[in.d] = VCn(a.c ^ b.c); F->pc++; break; }
            Expr *x = X(a, in.w), *y = X(b, in.w);
            if (in.w > 1 && !isC(x) && !isC(y)) {
                // removing or adding a bit of a bitmap
                SV.sync(S->pc);
                if (x->kind == E_SHL) std::swap(x, y);
                if (y->kind == E_SHL && isC(y->a, 1)) {
                    Expr* none = SV.simp(mkEq(mkBin(E_AND, x, y), kE(0, in.w)));
                    if (isC(none, 0)) { R[in.d] = VE(mkBin(E_AND, SV.simp(x), mkBin(E_XOR, y, kE(maskw(in.w), in.w)))); F->pc++; break; }
                    if (isC(none, 1)) { R[in.d] = VE(mkBin(E_OR, SV.simp(x), y)); F->pc++; break; }
                }
            }
            R[in.d] = VE(mkBin(E_XOR, x, y));
            F->pc++;
            break;
        }
        case O_EQ: CMPOP(E_EQ, a.c == b.c)
        case O_NE: {
            const Val &a = V(in.a), &b = V(in.b);
            if (!a.e && !b.e) R[in.d] = VCn(a.c != b.c);
            else R[in.d] = VE(mkNot(mkEq(X(a, in.w), X(b, in.w))));
            F->pc++;
            break;
        }
        case O_ULT: CMPOP(E_ULT, a.c < b.c)
        case O_ULE: CMPOP(E_ULE, a.c <= b.c)
        case O_SLT: CMPOP(E_SLT, sextw(a.c, in.w) < sextw(b.c, in.w))
        case O_SLE: CMPOP(E_SLE, sextw(a.c, in.w) <= sextw(b.c, in.w))
        case O_SHL: case O_LSHR: {
            const Val &a = V(in.a), &b = V(in.b);
            EKind k = in.op == O_SHL ? E_SHL : E_LSHR;
            if (!b.e && b.c >= in.w) { Val v; v.e = PR.freshUndef(in.w); R[in.d] = v; } // poison
            else if (!a.e && !b.e) R[in.d] = VCn(foldBin(k, a.c, b.c, in.w));
            else if (k == E_SHL && !a.e && !b.e->undef && __builtin_popcountll(~b.e->kz & ~b.e->ko & maskw(in.w)) <= 2) // few cases: split
                R[in.d] = VCn(foldBin(k, a.c, concretize(b.e, "a shift"), in.w));
            else R[in.d] = VE(mkBin(k, X(a, in.w), X(b, in.w)));
            F->pc++;
            break;
        }
        case O_BIN: {
            Val a = V(in.a), b = V(in.b);
            EKind k = (EKind) in.imm;
            if (k == E_UDIV || k == E_SDIV || k == E_UREM || k == E_SREM) {
                if (b.e) { if (decide(mkEq(b.e, kE(0, in.w)))) fail("division", "division by zero"); }
                else if (!b.c) fail("division", "division by zero");
            }
            if (k == E_ASHR && !b.e && b.c >= in.w) { Val v; v.e = PR.freshUndef(in.w); R[in.d] = v; }
            else if (!a.e && !b.e) R[in.d] = VCn(foldBin(k, a.c, b.c, in.w));
            else R[in.d] = VE(mkBin(k, X(a, in.w), X(b, in.w)));
            F->pc++;
            break;
        }
        case O_MOV: R[in.d] = V(in.a); F->pc++; break;
        case O_ZEXT: { Val a = V(in.a); R[in.d] = a.e ? VE(mkZext(a.e, in.w)) : a; F->pc++; break; }
        case O_SEXT: { Val a = V(in.a); R[in.d] = a.e ? VE(mkSext(a.e, in.w)) : VCn((u64) sextw(a.c, in.aux) & maskw(in.w)); F->pc++; break; }
        case O_TRUNCI: { Val a = V(in.a); R[in.d] = a.e ? VE(mkExtract(a.e, 0, in.w)) : VCn(a.c & maskw(in.w)); F->pc++; break; }
        case O_FREEZE: {
            Val a = V(in.a);
            if (a.e && a.e->undef) { std::map<Expr*, Expr*> m; a = VE(twin(a.e, m, 1)); }
            R[in.d] = a;
            F->pc++;
            break;
        }
        case O_SELECT: {
            Val c = V(in.c);
            if (!c.e) R[in.d] = c.c & 1 ? V(in.a) : V(in.b);
            else {
                SV.sync(S->pc);
                Expr* ce = SV.simp(c.e);
                if (ce->kind == E_CONST) R[in.d] = ce->c ? V(in.a) : V(in.b);
                else R[in.d] = VE(mkIte(ce, X(V(in.a), in.w), X(V(in.b), in.w)));
            }
            F->pc++;
            break;
        }
        case O_ADDI: {
            const Val& a = V(in.a);
            if (!a.e) R[in.d] = VCn(a.c + in.imm);
            else R[in.d] = VE(mkBin(E_ADD, a.e, kE(in.imm, 64)));
            F->pc++;
            break;
        }
        case O_GEPI: {
            const Val &a = V(in.a), &b = V(in.b);
            if (!a.e && !b.e) R[in.d] = VCn(a.c + (u64) sextw(b.c, in.aux) * in.imm);
            else {
                Expr* i = mkSext(X(b, in.aux), 64);
                R[in.d] = VE(mkBin(E_ADD, X(a, 64), mkBin(E_MUL, i, kE(in.imm, 64))));
            }
            F->pc++;
            break;
        }
        case O_LOAD: {
            const Val& a = V(in.a);
            if (!a.e) R[in.d] = loadMem(a.c + in.imm, in.w);
            else { Val r = loadSym(mkBin(E_ADD, a.e, kE(in.imm, 64)), in.w, in.aux); R[in.d] = r; }
            F->pc++;
            break;
        }
        case O_STORE: {
            const Val& a = V(in.a);
            u64 ad = a.e ? concretize(a.e) + in.imm : a.c + in.imm;
            storeMem(ad, in.w, V(in.b));
            F->pc++;
            break;
        }
        case O_ALOAD: {
            u64 ad = conc(V(in.a), 64);
            if (!visible(ad, (in.w + 7) / 8, P_READ, 0, (u64) in.ext)) break;
            if (raceMode()) { u32 off; objFor(ad, in.w / 8, false, off); raceAccess(ad, (in.w + 7) / 8, false, true); }
            Val v = loadMem(ad, in.w, true);
            if (raceMode() && takes(v, (u64) in.ext)) atomicLoadSync(ad, in.aux);
            R[in.d] = v;
            T->lastStamp = S->writeStamp;
            F->pc++;
            break;
        }
        case O_ASTORE: {
            u64 ad = conc(V(in.a), 64);
            if (!visible(ad, (in.w + 7) / 8, P_WRITE)) break;
            if (raceMode()) { u32 off; objFor(ad, in.w / 8, true, off); raceAccess(ad, (in.w + 7) / 8, true, true); }
            storeMem(ad, in.w, V(in.b), true);
            atomicStoreSync(ad, in.aux, false);
            S->writeStamp++;
            T->lastStamp = S->writeStamp;
            F->pc++;
            break;
        }
        case O_RMW: {
            u64 ad = conc(V(in.a), 64);
            bool add = in.imm == llvm::AtomicRMWInst::Add || in.imm == llvm::AtomicRMWInst::Sub;
            Val b = V(in.b), nw;
            if (b.e) add = false;
            if (!visible(ad, (in.w + 7) / 8, add ? P_ADD : P_WRITE, in.imm == llvm::AtomicRMWInst::Sub ? -b.c : b.c, (u64) in.ext)) break;
            if (raceMode()) { u32 off; objFor(ad, in.w / 8, true, off); raceAccess(ad, (in.w + 7) / 8, true, true); }
            Val old = loadMem(ad, in.w, true);
            if (raceMode() && (!add || takes(old, (u64) in.ext))) atomicLoadSync(ad, in.aux);
            unsigned w = in.w;
            Expr *x = X(old, w), *y = X(b, w), *r;
            switch (in.imm) {
            case llvm::AtomicRMWInst::Xchg: r = y; break;
            case llvm::AtomicRMWInst::Add: r = mkBin(E_ADD, x, y); break;
            case llvm::AtomicRMWInst::Sub: r = mkBin(E_SUB, x, y); break;
            case llvm::AtomicRMWInst::And: r = mkBin(E_AND, x, y); break;
            case llvm::AtomicRMWInst::Or: r = mkBin(E_OR, x, y); break;
            case llvm::AtomicRMWInst::Xor: r = mkBin(E_XOR, x, y); break;
            default: unsupported("atomic rmw");
            }
            nw = VE(r);
            storeMem(ad, w, nw, true);
            atomicStoreSync(ad, in.aux, true);
            if (nw.e != old.e || nw.c != old.c) S->writeStamp++;
            T->lastStamp = S->writeStamp;
            R[in.d] = old;
            F->pc++;
            break;
        }
        case O_CMPXCHG: {
            u64 ad = conc(V(in.a), 64);
            if (!T->go && S->th.size() > 1) { if (!visible(ad, (in.w + 7) / 8, P_WRITE)) break; T->go = true; S->trace.pop_back(); }
            Val old = loadMem(ad, in.w, true);
            Expr* eq = mkEq(X(old, in.w), X(V(in.b), in.w));
            bool ok = decide(eq); // may fork: the thread keeps its turn
            if (S->th.size() > 1) { T->go = false; S->trace.push_back((u8) S->cur); }
            int so = in.aux & 15, fo = in.aux >> 4;
            if (raceMode()) {
                u32 off; objFor(ad, in.w / 8, true, off);
                raceAccess(ad, (in.w + 7) / 8, ok, true);
                atomicLoadSync(ad, ok ? so : fo);
            }
            if (ok) {
                storeMem(ad, in.w, V(in.c), true);
                atomicStoreSync(ad, so, true);
                S->writeStamp++;
            }
            T->lastStamp = S->writeStamp;
            R[in.d] = old;
            R[in.d + 1] = VCn(ok);
            F->pc++;
            break;
        }
        case O_FENCE:
            if (!visible()) break;
            if (in.aux & 1) T->vc.join(T->acqP);
            if (in.aux & 2) { T->relF = T->vc; T->hasRelF = true; T->vc.t[S->cur]++; }
            F->pc++;
            break;
        case O_BR: takeEdge((Edge*) in.ext); break;
        case O_CONDBR: {
            const Val& c = V(in.a);
            bool b;
            if (!c.e) b = c.c & 1;
            else b = decide(c.e);
            takeEdge(((Edge**) in.ext)[b ? 0 : 1]);
            break;
        }
        case O_SWITCH: {
            auto* si = (SwitchInfo*) in.ext;
            const Val& c = V(in.a);
            Edge* e = si->def;
            if (!c.e) {
                for (auto& k : si->cases) if (k.first == c.c) { e = k.second; break; }
            } else {
                Expr* ce = c.e->undef ? defined(c.e, "a branch") : c.e;
                SV.sync(S->pc);
                ce = SV.simp(ce);
                u64 v = SV.eval(ce, S->m.get());
                for (auto& k : si->cases) if (k.first == v) { e = k.second; break; }
                Expr* cond = kE(0, 1);
                if (e != si->def) { for (auto& k : si->cases) if (k.second == e) cond = mkBin(E_OR, cond, mkEq(ce, kE(k.first, si->w))); }
                else { cond = kE(1, 1); for (auto& k : si->cases) cond = mkBin(E_AND, cond, mkNot(mkEq(ce, kE(k.first, si->w)))); }
                bool r = decide(cond);
                (void) r; // the running model satisfies cond
            }
            takeEdge(e);
            break;
        }
        case O_RET: doRet(in); break;
        case O_UNREACH: fail("unreachable", "unreachable code executed");
        case O_CALL: doCall((CallSite*) in.ext); break;
        case O_LPAD:
            R[in.d] = VCn(T->excObj);
            R[in.d + 1] = VCn(T->excSel);
            F->pc++;
            break;
        case O_RESUME: {
            u64 o = conc(V(in.a), 64);
            if (T->fr.size() == 1) { reportViolation("uncaught", "exception leaves the program", S->m.get(), backtrace()); endPath(); }
            popFrame(*T);
            unwind(o);
            break;
        }
        case O_ALLOCA: {
            u64 n = conc(V(in.a), 64) * in.imm;
            u64 a = newObj(n, OK_STACK);
            T->allocas.push_back(a);
            R[in.d] = VCn(a);
            F->pc++;
            break;
        }
        case O_CTPOP: { Val a = V(in.a); R[in.d] = a.e ? VE(mkPop(a.e)) : VCn(__builtin_popcountll(a.c)); F->pc++; break; }
        case O_CTLZ: {
            Val a = V(in.a);
            unsigned w = in.w;
            if (!a.e) R[in.d] = VCn(a.c ? __builtin_clzll(a.c) - (64 - w) : w);
            else {
                Expr* r = kE(w, w);
                for (unsigned k = 0; k < w; k++) r = mkIte(mkExtract(a.e, k, 1), kE(w - 1 - k, w), r);
                R[in.d] = VE(r);
            }
            F->pc++;
            break;
        }
        case O_CTTZ: {
            Val a = V(in.a);
            unsigned w = in.w;
            if (!a.e) R[in.d] = VCn(a.c ? __builtin_ctzll(a.c) : w);
            else {
                Expr* r = kE(w, w);
                for (unsigned k = w; k-- > 0;) r = mkIte(mkExtract(a.e, k, 1), kE(k, w), r);
                R[in.d] = VE(r);
            }
            F->pc++;
            break;
        }
        case O_BSWAP: {
            Val a = V(in.a);
            Expr *x = X(a, in.w), *r = nullptr;
            for (unsigned k = 0; k < in.w; k += 8) { Expr* b = mkExtract(x, k, 8); r = r ? mkConcat(r, b) : b; }
            R[in.d] = VE(r);
            F->pc++;
            break;
        }
        case O_MINMAX: {
            Val a = V(in.a), b = V(in.b);
            Expr *x = X(a, in.w), *y = X(b, in.w);
            Expr* lt = mkBin(in.imm < 2 ? E_ULT : E_SLT, x, y);
            R[in.d] = VE((in.imm & 1) ? mkIte(lt, y, x) : mkIte(lt, x, y));
            F->pc++;
            break;
        }
        case O_ABS: {
            Expr* x = X(V(in.a), in.w);
            R[in.d] = VE(mkIte(mkBin(E_SLT, x, kE(0, in.w)), mkBin(E_SUB, kE(0, in.w), x), x));
            F->pc++;
            break;
        }
        case O_FSH: {
            Expr *a = X(V(in.a), in.w), *b = X(V(in.b), in.w), *c = X(V(in.c), in.w);
            unsigned w = in.w;
            Expr* s = mkBin(E_UREM, c, kE(w, w));
            Expr* inv = mkBin(E_SUB, kE(w, w), s);
            Expr* r;
            if (in.imm == 0) r = mkIte(mkEq(s, kE(0, w)), a, mkBin(E_OR, mkBin(E_SHL, a, s), mkBin(E_LSHR, b, inv)));
            else r = mkIte(mkEq(s, kE(0, w)), b, mkBin(E_OR, mkBin(E_LSHR, b, s), mkBin(E_SHL, a, inv)));
            R[in.d] = VE(r);
            F->pc++;
            break;
        }
        case O_OVF: {
            Val a = V(in.a), b = V(in.b);
            unsigned w = in.w;
            Expr *x = X(a, w), *y = X(b, w), *r, *o;
            switch (in.imm) {
            case 0: r = mkBin(E_ADD, x, y); o = mkBin(E_ULT, r, x); break;
            case 1: r = mkBin(E_SUB, x, y); o = mkBin(E_ULT, x, y); break;
            case 2: {
                r = mkBin(E_MUL, x, y);
                if (isC(x) && isC(y)) o = kE(((__uint128_t) x->c * y->c) > maskw(w), 1);
                else { if (isC(x)) std::swap(x, y); if (!isC(y)) { y = kE(concretize(y), w); r = mkBin(E_MUL, x, y); }
                    o = y->c ? mkBin(E_ULT, kE(maskw(w) / y->c, w), x) : kE(0, 1); }
                break;
            }
            case 3: case 4: {
                EKind k = in.imm == 3 ? E_ADD : E_SUB;
                r = mkBin(k, x, y);
                Expr* z = kE(0, w);
                Expr *sx = mkBin(E_SLT, x, z), *sy = mkBin(E_SLT, y, z), *sr = mkBin(E_SLT, r, z);
                if (k == E_ADD) o = mkBin(E_AND, mkEq(sx, sy), mkNot(mkEq(sr, sx)));
                else o = mkBin(E_AND, mkNot(mkEq(sx, sy)), mkNot(mkEq(sr, sx)));
                break;
            }
            default: {
                u64 cx = x->kind == E_CONST ? x->c : concretize(x), cy = y->kind == E_CONST ? y->c : concretize(y);
                __int128 p = (__int128) sextw(cx, w) * sextw(cy, w);
                r = kE((u64) p, w);
                o = kE(p != (__int128) sextw((u64) p & maskw(w), w), 1);
            }
            }
            R[in.d] = VE(r);
            R[in.d + 1] = VE(o);
            F->pc++;
            break;
        }
        case O_SAT: {
            Expr *x = X(V(in.a), in.w), *y = X(V(in.b), in.w);
            if (in.imm == 0) { Expr* r = mkBin(E_ADD, x, y); R[in.d] = VE(mkIte(mkBin(E_ULT, r, x), kE(~0ull, in.w), r)); }
            else R[in.d] = VE(mkIte(mkBin(E_ULT, x, y), kE(0, in.w), mkBin(E_SUB, x, y)));
            F->pc++;
            break;
        }
        case O_MEMCPY: case O_MEMMOVE: {
            u64 d = conc(V(in.a), 64), s = conc(V(in.b), 64), n = conc(V(in.c), 64, "a length");
            copyMem(d, s, n);
            F->pc++;
            break;
        }
        case O_MEMSET: {
            u64 d = conc(V(in.a), 64), n = conc(V(in.c), 64, "a length");
            Val v = V(in.b);
            if (n) {
                u32 off; Obj* o = objFor(d, n, true, off);
                if (raceMode()) raceAccess(d, n, true, false);
                if (!v.e) { memset(o->data + off, (int) v.c, n); memset(o->mask + off, 0, n); }
                else for (u64 k = 0; k < n; k++) storeObj(o, off + k, 8, v);
            }
            F->pc++;
            break;
        }
        case O_TYPEID: R[in.d] = VCn(typeId(conc(V(in.a), 64))); F->pc++; break;
        case O_TLSADDR: R[in.d] = VCn(tlsAddr(conc(V(in.a), 64))); F->pc++; break;
        case O_LIFESTART: case O_LIFEEND: {
            u64 a = conc(V(in.a), 64);
            Obj* o = S->mem.getMut(a >> OBJ_SHIFT);
            if (o) memset(o->mask, 1, o->size);
            F->pc++;
            break;
        }
        case O_NOP: F->pc++; break;
        case O_YIELD: {
            int others = 0;
            for (int t = 0; t < (int) S->th.size(); t++) if (t != S->cur && enabled(t)) others++;
            F->pc++;
            yield(others);
            break;
        }
        case O_TRAP: fail("trap", "trap executed");
        case O_FBIN: fbin(in); F->pc++; break;
        case O_FCMP: {
            Val a = V(in.a), b = V(in.b);
            if (a.e || b.e) unsupported("symbolic floating point");
            double x = fval(a.c, in.w), y = fval(b.c, in.w);
            bool un = std::isnan(x) || std::isnan(y);
            bool r = ((in.imm & 1) && x == y && !un) || ((in.imm & 2) && x > y && !un) || ((in.imm & 4) && x < y && !un) || ((in.imm & 8) && un);
            R[in.d] = VCn(r);
            F->pc++;
            break;
        }
        case O_FCAST: fcast(in); F->pc++; break;
        case O_UNSUP: unsupported(*(std::string*) in.ext);
        default: unsupported("opcode " + std::to_string(in.op) + " at " + std::to_string(F->pc) + " of " + std::to_string(F->f->code.size()));
        }
    }
}

// ---------------------------------------------------------------- processes
static void flushStats()
{
    shm->forks += localForks;
    shm->steps += localSteps;
    localForks = localSteps = 0;
    shm->queries += SV.st.queries; shm->qcached += SV.st.cached; shm->qsat += SV.st.sat; shm->qunsat += SV.st.unsat; shm->qunknown += SV.st.unknown;
    shm->solverUs += (u64)(SV.st.time * 1e6);
    SV.st = SolverStats();
    for (size_t i = 0; i < PR.funcs.size() && i < sizeof(shm->funcSeen); i++) if (PR.funcs[i]->seen) {
        shm->funcSeen[i] = 1;
        // block coverage: a fixed hash region per function
        Func* f = PR.funcs[i];
        u32 n = f->blockSeen.size();
        for (u32 b = 0; b < n; b++) if (f->blockSeen[b]) {
            u64 h = (i * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full) >> 20;
            shm->blockSeen[h & (sizeof(shm->blockSeen) - 1)] = 1;
        }
    }
}
static size_t rssMB()
{
    FILE* f = fopen("/proc/self/statm", "r");
    if (!f) return 0;
    long a = 0, b = 0;
    if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
    fclose(f);
    return (size_t) b * 4096 >> 20;
}
static bool isChild = false;
static int nkids = 0;
static void reap(bool block)
{
    int st;
    while (nkids > 0) {
        pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG);
        if (p <= 0) break;
        nkids--;
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
            shm->crashes++;
            shm->tokens++;
        }
    }
}
static void trySteal()
{
    if (work.size() < 2 || shm->tokens.load(std::memory_order_relaxed) <= 0) return;
    int t = shm->tokens.load();
    while (t > 0 && !shm->tokens.compare_exchange_weak(t, t - 1)) {}
    if (t <= 0) return;
    State* give = work.front();
    work.pop_front();
    pid_t p = fork();
    if (p < 0) { shm->tokens++; work.push_front(give); return; }
    if (p == 0) {
        isChild = true;
        nkids = 0;
        for (State* s : work) (void) s; // left to the parent; memory is shared copy-on-write
        work.clear();
        work.push_back(give);
        localForks = localSteps = 0;
        SV.st = SolverStats();
        shm->procs++;
        return;
    }
    shm->steals++;
    nkids++;
    delete give;
    reap(false);
}

static void explore()
{
    u64 n = 0;
    while (!work.empty()) {
        State* s = work.back();
        work.pop_back();
        bool over = now() > deadline || shm->stop.load();
        if (shm->ent[s->entry].viol.load() >= (u64) OPT.maxViol) { shm->ent[s->entry].trunc++; delete s; continue; }
        if (over) { shm->ent[s->entry].trunc++; delete s; continue; }
        S = s;
        try { run(); } catch (PathEnd&) {}
        delete S;
        S = nullptr;
        trySteal();
        if ((++n & 63) == 0) {
            if (rssMB() > OPT.memMB) {
                for (State* x : work) { shm->ent[x->entry].trunc++; delete x; }
                work.clear();
                shm->memEnd++;
            }
        }
    }
    flushStats();
    if (profOn) for (auto& p : prof) fprintf(stderr, "PROF %llu %llu %s\n", (unsigned long long) p.second.first, (unsigned long long) p.second.second, p.first.c_str());
    shm->tokens++;
    reap(true);
    if (isChild) _exit(0);
}

// a state switch inside run() leaves `work` with the alternatives; stealing
// also has to happen during long paths, so pushState callers poll here
int main(int argc, char** argv)
{
    std::string mod;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") OPT.entries.push_back(next());
        else if (a == "--results") OPT.results = next();
        else if (a == "--cov") OPT.cov = next();
        else if (a == "--time") OPT.time = atof(next().c_str());
        else if (a == "--workers") OPT.workers = atoi(next().c_str());
        else if (a == "--steps") OPT.maxSteps = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--por") OPT.por = true;
        else if (a == "--preempt") OPT.preempt = atoi(next().c_str());
        else if (a == "--samples") OPT.samples = atoi(next().c_str());
        else if (a == "--max-viol") OPT.maxViol = atoi(next().c_str());
        else if (a == "--known") { std::string e = next(), k = next(), m = next(); OPT.known.push_back({e, k, m}); }
        else if (a == "--mem") OPT.memMB = atoi(next().c_str());
        else if (a == "--no-undef") OPT.checkUndef = false;
        else if (a == "--xdump") { SV.xdumpDir = next(); SV.xdumpLeft = 4; }
        else if (a == "-v") OPT.verbose = true;
        else mod = a;
    }
    resFd = open(OPT.results.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SV.init();
    double t0 = now();
    PR.load(mod);
    if (OPT.entries.empty())
        for (auto* f : PR.funcs) if (f->name.rfind("h_", 0) == 0 && !f->lf->isDeclaration()) OPT.entries.push_back(f->name);
    for (auto& e : OPT.entries) {
        auto i = PR.byName.find(e);
        if (i == PR.byName.end()) { fprintf(stderr, "symx: no entry %s\n", e.c_str()); return 3; }
        entryF.push_back(i->second);
    }
    if (OPT.entries.size() > MAXENT) { fprintf(stderr, "symx: too many entries\n"); return 3; }
    for (auto& g : PR.M->globals()) {
        auto i = PR.gaddr.find(&g);
        if (i != PR.gaddr.end()) { addrName[i->second] = g.getName().str(); nameAddr[g.getName().str()] = i->second; }
    }
    // reachability tags
    for (auto& f : *PR.M) for (auto& I : llvm::instructions(f))
        if (auto* c = llvm::dyn_cast<llvm::CallBase>(&I))
            if (auto* cf = c->getCalledFunction(); cf && cf->getName() == "sx_reach") {
                if (auto* k = llvm::dyn_cast<llvm::Constant>(c->getArgOperand(0))) {
                    u64 a = PR.evalAddr(k);
                    if (!tagByAddr.count(a)) { tagByAddr[a] = tagByAddr.size(); }
                }
            }
    // initial state: globals and constructors
    State* s0 = new State();
    S = s0;
    s0->m = std::make_shared<Model>();
    s0->th.resize(1);
    u64 maxIdx = 1;
    for (auto* f : PR.funcs) if ((f->addr >> OBJ_SHIFT) >= maxIdx) maxIdx = (f->addr >> OBJ_SHIFT) + 1;
    for (auto& p : PR.gaddr) if ((p.second >> OBJ_SHIFT) >= maxIdx) maxIdx = (p.second >> OBJ_SHIFT) + 1;
    s0->next = maxIdx;
    for (auto& g : PR.inits) {
        Obj* o = Obj::make((u32) g.size, g.gv->isConstant() && g.gv->hasInitializer() ? OK_CONST : OK_GLOBAL);
        memset(o->mask, 0, o->size);
        if (g.gv->hasInitializer()) PR.writeConst(g.gv->getInitializer(), o->data, o->mask, g.size);
        s0->mem.set(g.addr >> OBJ_SHIFT, o);
    }
    tagNames.resize(tagByAddr.size());
    for (auto& t : tagByAddr) tagNames[t.second] = readStr(t.first);
    deadline = t0 + OPT.time;
    if (auto* ct = PR.M->getNamedGlobal("llvm.global_ctors")) {
        if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(ct->getInitializer()))
            for (auto& o : ca->operands()) {
                auto* f = llvm::dyn_cast<llvm::Function>(llvm::cast<llvm::ConstantStruct>(o)->getOperand(1));
                if (!f) continue;
                pushFrame(s0->th[0], PR.funcOf(f), nullptr);
                try { run(); } catch (PathEnd&) {}
                S = s0;
                s0->th[0] = Thread();
            }
    }
    shm->ent[0].paths = 0;
    for (auto& e : shm->ent) { e.paths = 0; e.samples = 0; e.checks = 0; }
    s0->steps = 0;
    s0->outs.clear();
    ftruncate(resFd, 0);
    for (int i = (int) entryF.size() - 1; i >= 0; i--) {
        State* s = new State(*s0);
        s->entry = i;
        s->liveHeap = 0;
        S = s;
        pushFrame(s->th[0], entryF[i], nullptr);
        if (!entryF[i]->blockSeen.empty()) entryF[i]->blockSeen[0] = 1;
        work.push_back(s);
    }
    shm->procs = 1;
    // one process for each entry, so that none waits for the others
    shm->tokens = OPT.workers - (int) work.size() - 1;
    while (work.size() > 1) {
        State* s = work.back();
        pid_t p = fork();
        if (p < 0) break;
        if (p == 0) {
            isChild = true;
            nkids = 0;
            work.clear();
            work.push_back(s);
            localForks = localSteps = 0;
            SV.st = SolverStats();
            shm->procs++;
            explore();
        }
        nkids++;
        work.pop_back();
        delete s;
    }
    shm->tokens++;
    explore();
    double t1 = now();
    // summary
    std::string fn;
    int nf = 0, nin = 0;
    for (size_t i = 0; i < PR.funcs.size(); i++) if (shm->funcSeen[i]) {
        nf++;
        if (PR.funcs[i]->inScope) { nin++; fn += (fn.empty() ? "" : ",") + jstr(PR.funcs[i]->pretty.substr(0, 220)); }
    }
    u64 blocks = 0;
    for (auto b : shm->blockSeen) blocks += b;
    if (!OPT.cov.empty()) {
        std::map<std::string, int> lines;
        for (size_t i = 0; i < PR.funcs.size(); i++) {
            if (!PR.funcs[i]->lf || PR.funcs[i]->lf->isDeclaration()) continue;
            u64 b = 0;
            for (auto& bb : *PR.funcs[i]->lf) {
                bool hit = shm->blockSeen[((i * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full) >> 20) & (sizeof(shm->blockSeen) - 1)];
                b++;
                for (auto& I : bb)
                    for (const llvm::DILocation* d = I.getDebugLoc().get(); d; d = d->getInlinedAt())
                        if (d->getFilename().contains("immer/")) {
                            int& l = lines[d->getFilename().str() + ":" + std::to_string(d->getLine())];
                            l |= hit;
                        }
            }
        }
        if (FILE* f = fopen(OPT.cov.c_str(), "w")) {
            for (auto& l : lines) fprintf(f, "%s %d\n", l.first.c_str(), l.second);
            fclose(f);
        }
    }
    std::string reached, missed;
    for (size_t i = 0; i < tagNames.size(); i++) {
        std::string& l = shm->tagSeen[i] ? reached : missed;
        l += (l.empty() ? "" : ",") + jstr(tagNames[i]);
    }
    std::string ents;
    for (size_t i = 0; i < OPT.entries.size(); i++) {
        EntStat& e = shm->ent[i];
        char b[600];
        snprintf(b, 600, "%s:{\"paths\":%llu,\"violations\":%llu,\"known\":%llu,\"truncated\":%llu,\"assumed_away\":%llu,\"checks\":%llu,\"incomplete\":%llu,\"depth\":%llu}", jstr(OPT.entries[i]).c_str(),
                 (unsigned long long) e.paths, (unsigned long long) e.viol, (unsigned long long) e.known, (unsigned long long) e.trunc, (unsigned long long) e.killed, (unsigned long long) e.checks,
                 (unsigned long long) e.incomplete, (unsigned long long) e.depth);
        ents += (i ? "," : "") + std::string(b);
    }
    char b[1200];
    snprintf(b, 1200,
             "\"forks\":%llu,\"instructions\":%llu,\"queries_cached\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"checks\":%llu,\"symbolic_checks\":%llu,"
             "\"uninit_queries\":%llu,\"processes\":%llu,\"crashes\":%llu,\"mem_stops\":%llu,\"wall_s\":%.3f,\"functions_executed\":%d,\"functions_in_scope\":%d,\"blocks\":%llu",
             (unsigned long long) shm->forks, (unsigned long long) shm->steps, (unsigned long long) shm->qcached, (unsigned long long) shm->queries, (unsigned long long) shm->qsat, (unsigned long long) shm->qunsat,
             (unsigned long long) shm->qunknown, shm->solverUs / 1e6, (unsigned long long) shm->checks, (unsigned long long) shm->symbolicChecks, (unsigned long long) shm->undefQ,
             (unsigned long long) shm->procs, (unsigned long long) shm->crashes, (unsigned long long) shm->memEnd, t1 - t0, nf, nin, (unsigned long long) blocks);
    emitResult("{\"type\":\"summary\"," + std::string(b) + ",\"entries\":{" + ents + "},\"tags_reached\":[" + reached + "],\"tags_missed\":[" + missed + "],\"functions\":[" + fn + "]}");
    if (OPT.verbose) fprintf(stderr, "%s\n{%s}\nmissed [%s]\n", b, ents.c_str(), missed.c_str());
    return 0;
}
