// Replays a schedule on the real code.  The harness is compiled with
// -fsanitize=thread, but linked with this runtime instead of the sanitizer's:
// before every atomic operation a thread waits for its turn in the recorded
// schedule, and every access is checked for data races (vector clocks) and
// for released memory.
#include "sx.h"
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
namespace {
const int MAXT = 4;
struct VC
{
    unsigned t[MAXT] = {0, 0, 0, 0};
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.t[i] > t[i]) t[i] = o.t[i]; }
};
struct Shadow
{
    int wt = -1;
    unsigned wc = 0;
    bool wAtomic = false;
    unsigned rc[MAXT] = {0, 0, 0, 0}, ac[MAXT] = {0, 0, 0, 0};
};
struct Thr
{
    VC vc, acqP, relF;
    bool hasRelF = false;
    pthread_t p;
};
struct Block { size_t size; bool freed; };
thread_local int me = 0;
thread_local int inrt = 0;
struct Rt { Rt() { inrt++; } ~Rt() { inrt--; } };
int nthreads = 1;
Thr th[MAXT];
std::vector<int> trace;
size_t tpos = 0;
bool freeRun = false;
pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t CV = PTHREAD_COND_INITIALIZER;
std::unordered_map<uintptr_t, Shadow>& shadow() { static auto* m = new std::unordered_map<uintptr_t, Shadow>; return *m; }
std::unordered_map<uintptr_t, VC>& syncs() { static auto* m = new std::unordered_map<uintptr_t, VC>; return *m; }
std::map<uintptr_t, Block>& blocks() { static auto* m = new std::map<uintptr_t, Block>; return *m; }
[[noreturn]] void bad(const std::string& m)
{
    printf("SX-CHECK-FAILED %s\n", m.c_str());
    fflush(stdout);
    _exit(66);
}
struct Lock { Lock() { pthread_mutex_lock(&M); } ~Lock() { pthread_mutex_unlock(&M); } };

// M is held
void live(uintptr_t a, size_t n, const char* what)
{
    auto& b = blocks();
    auto i = b.upper_bound(a);
    if (i == b.begin()) return;
    --i;
    if (a >= i->first + i->second.size + 16) return;
    if (i->second.freed) bad(std::string(what) + " of released memory");
    if (a < i->first + i->second.size && a + n > i->first + i->second.size) bad(std::string("out of bounds ") + what);
    if (a >= i->first + i->second.size) bad(std::string("out of bounds ") + what);
}
void access(uintptr_t a, size_t n, bool wr, bool atomic)
{
    live(a, n, wr ? "write" : "read");
    if (nthreads == 1) return;
    auto& vc = th[me].vc;
    auto& sh = shadow();
    for (size_t k = 0; k < n; k++) {
        Shadow& s = sh[a + k];
        if (s.wt >= 0 && s.wt != me && s.wc > vc.t[s.wt] && !(atomic && s.wAtomic)) bad(std::string(wr ? "write" : "read") + " races with an earlier write by thread " + std::to_string(s.wt));
        if (wr) {
            for (int t = 0; t < MAXT; t++) if (t != me) {
                if (s.rc[t] > vc.t[t]) bad("write races with an earlier read by thread " + std::to_string(t));
                if (!atomic && s.ac[t] > vc.t[t]) bad("write races with an earlier atomic read by thread " + std::to_string(t));
            }
            s.wt = me; s.wc = vc.t[me]; s.wAtomic = atomic;
        } else if (atomic) s.ac[me] = vc.t[me];
        else s.rc[me] = vc.t[me];
    }
}
// waits for this thread's turn; M is held
void gate(bool consume)
{
    if (nthreads == 1) return;
    while (!freeRun) {
        if (tpos < trace.size() && trace[tpos] == me) {
            if (consume) { tpos++; pthread_cond_broadcast(&CV); }
            return;
        }
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 400000000;
        if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
        size_t at = tpos;
        int r = pthread_cond_timedwait(&CV, &M, &ts);
        if (r && tpos == at) {
            if (tpos < trace.size()) { printf("SX-DIVERGED schedule step %zu wants thread %d\n", tpos, trace[tpos]); fflush(stdout); _exit(77); }
            freeRun = true;
            pthread_cond_broadcast(&CV);
        }
    }
}
bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
bool rel(int o) { return o >= 3; }
void loadSync(uintptr_t a, int o)
{
    auto i = syncs().find(a);
    if (i == syncs().end()) return;
    if (acq(o)) th[me].vc.join(i->second);
    th[me].acqP.join(i->second);
}
void storeSync(uintptr_t a, int o, bool rmw)
{
    Thr& T = th[me];
    VC r;
    bool has = false;
    if (rel(o)) { r = T.vc; has = true; }
    else if (T.hasRelF) { r = T.relF; has = true; }
    if (rmw) { if (has) syncs()[a].join(r); }
    else if (has) syncs()[a] = r;
    else syncs().erase(a);
    if (rel(o)) T.vc.t[me]++;
}
template <typename T>
T aload(const volatile T* p, int o)
{
    Rt rt; Lock l;
    gate(true);
    access((uintptr_t) p, sizeof(T), false, true);
    if (nthreads > 1) loadSync((uintptr_t) p, o);
    return *p;
}
template <typename T>
void astore(volatile T* p, T v, int o)
{
    Rt rt; Lock l;
    gate(true);
    access((uintptr_t) p, sizeof(T), true, true);
    *p = v;
    if (nthreads > 1) storeSync((uintptr_t) p, o, false);
}
template <typename T, typename F>
T armw(volatile T* p, int o, F f)
{
    Rt rt; Lock l;
    gate(true);
    access((uintptr_t) p, sizeof(T), true, true);
    if (nthreads > 1) loadSync((uintptr_t) p, o);
    T old = *p;
    *p = f(old);
    if (nthreads > 1) storeSync((uintptr_t) p, o, true);
    return old;
}
template <typename T>
bool acas(volatile T* p, T* e, T v, int so, int fo)
{
    Rt rt; Lock l;
    gate(true);
    bool ok = *p == *e;
    access((uintptr_t) p, sizeof(T), ok, true);
    if (nthreads > 1) loadSync((uintptr_t) p, ok ? so : fo);
    if (ok) {
        *p = v;
        if (nthreads > 1) storeSync((uintptr_t) p, so, true);
    } else *e = *p;
    return ok;
}
void plain(const void* p, size_t n, bool wr)
{
    if (inrt) return;
    Rt rt; Lock l;
    access((uintptr_t) p, n, wr, false);
}
struct Start { void (*fn)(void*); void* arg; int id; };
void* run(void* x)
{
    Start s = *(Start*) x;
    { Rt rt; free(x); me = s.id; Lock l; gate(false); }
    s.fn(s.arg);
    return nullptr;
}
} // namespace
extern "C" {
void sx_trace(const std::vector<int>& t) { Rt rt; trace = t; }
int sx_tid() { return me; }
uint64_t sx_now() { Rt rt; Lock l; return nthreads == 1 ? 0 : tpos; }
int sx_spawn(void (*fn)(void*), void* arg)
{
    Rt rt; Lock l;
    if (nthreads >= MAXT) bad("too many threads");
    int id = nthreads;
    if (nthreads == 1) th[0].vc.t[0] = 1;
    th[id].vc = th[me].vc;
    th[id].vc.t[id] = 1;
    th[me].vc.t[me]++;
    nthreads++;
    auto* s = (Start*) malloc(sizeof(Start));
    *s = Start{fn, arg, id};
    pthread_create(&th[id].p, nullptr, run, s);
    return id;
}
void sx_join(int t)
{
    Rt rt;
    pthread_join(th[t].p, nullptr);
    Lock l;
    th[me].vc.join(th[t].vc);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { plain(p, n, false); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true); }
#define RW(N) void __tsan_read##N(void* p) { plain(p, N, false); } void __tsan_write##N(void* p) { plain(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(N) void __tsan_unaligned_read##N(void* p) { plain(p, N, false); } void __tsan_unaligned_write##N(void* p) { plain(p, N, true); }
URW(2) URW(4) URW(8) URW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain(d, n, true); return memset(d, c, n); }
#define ATOM(W, T) \
    T __tsan_atomic##W##_load(const volatile T* p, int o) { return aload<T>(p, o); } \
    void __tsan_atomic##W##_store(volatile T* p, T v, int o) { astore<T>(p, v, o); } \
    T __tsan_atomic##W##_exchange(volatile T* p, T v, int o) { return armw<T>(p, o, [=](T) { return v; }); } \
    T __tsan_atomic##W##_fetch_add(volatile T* p, T v, int o) { return armw<T>(p, o, [=](T x) { return (T) (x + v); }); } \
    T __tsan_atomic##W##_fetch_sub(volatile T* p, T v, int o) { return armw<T>(p, o, [=](T x) { return (T) (x - v); }); } \
    T __tsan_atomic##W##_fetch_and(volatile T* p, T v, int o) { return armw<T>(p, o, [=](T x) { return (T) (x & v); }); } \
    T __tsan_atomic##W##_fetch_or(volatile T* p, T v, int o) { return armw<T>(p, o, [=](T x) { return (T) (x | v); }); } \
    T __tsan_atomic##W##_fetch_xor(volatile T* p, T v, int o) { return armw<T>(p, o, [=](T x) { return (T) (x ^ v); }); } \
    int __tsan_atomic##W##_compare_exchange_strong(volatile T* p, T* e, T v, int so, int fo) { return acas<T>(p, e, v, so, fo); } \
    int __tsan_atomic##W##_compare_exchange_weak(volatile T* p, T* e, T v, int so, int fo) { return acas<T>(p, e, v, so, fo); } \
    T __tsan_atomic##W##_compare_exchange_val(volatile T* p, T e, T v, int so, int fo) { acas<T>(p, &e, v, so, fo); return e; }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o)
{
    Rt rt; Lock l;
    gate(true);
    if (nthreads == 1) return;
    Thr& T = th[me];
    if (acq(o)) T.vc.join(T.acqP);
    if (rel(o)) { T.relF = T.vc; T.hasRelF = true; T.vc.t[me]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n)
{
    char* p = (char*) malloc(n + 32);
    if (!p) throw std::bad_alloc{};
    if (inrt) return p;
    Rt rt; Lock l;
    blocks()[(uintptr_t) p] = Block{n, false};
    return p;
}
static void del(void* p, size_t n, bool sized)
{
    if (!p) return;
    if (inrt) { free(p); return; }
    Rt rt; Lock l;
    auto i = blocks().find((uintptr_t) p);
    if (i == blocks().end()) { free(p); return; } // allocated by the runtime
    if (i->second.freed) bad("memory released twice");
    if (sized && i->second.size != n) bad("sized release with another size");
    access((uintptr_t) p, i->second.size, true, false);
    i->second.freed = true; // never reused
}
void operator delete(void* p) noexcept { del(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { del(p, n, true); }
