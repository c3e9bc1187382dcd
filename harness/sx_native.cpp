// Native replay runtime: runs one harness entry on the real code with the
// values the solver chose.  Exit codes: 0 finished, 66 check failed,
// 77 diverged from the recorded path, anything else: the code itself failed.
#include "sx.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <vector>
struct Sym { std::string name; int w; uint64_t v; };
static std::vector<Sym> syms;
static size_t pos;
static uint64_t digest = 0xcbf29ce484222325ull;
static unsigned nout;
static void diverge(const char* why)
{
    printf("SX-DIVERGED %s\n", why);
    fflush(stdout);
    _exit(77);
}
static uint64_t nextv(const char* name)
{
    if (pos >= syms.size()) return 0; // beyond the recorded path
    std::string nm(name);
    for (auto& c : nm) if (c == ' ') c = '_';
    if (syms[pos].name != nm) { diverge(name); }
    return syms[pos++].v;
}
extern "C" {
uint64_t sx_sym(int bits, const char* name)
{
    uint64_t v = nextv(name);
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi)
{
    bool past = pos >= syms.size();
    uint64_t v = past ? lo : nextv(name);
    if (v < lo || v > hi) diverge(name);
    return v;
}
void sx_assume(int c) { if (!c) diverge("assume"); }
static void done()
{
    printf("SX-OUT %llu %u\n", (unsigned long long) digest, nout);
    fflush(stdout);
    _exit(0);
}
void sx_check(int c, const char* msg)
{
    if (c) return;
    printf("SX-CHECK-FAILED %s\n", msg);
    fflush(stdout);
    _exit(66);
}
void sx_reach(const char*) {}
uint64_t sx_pick(uint64_t v) { return v; }
void sx_out(uint64_t v)
{
    nout++;
    for (int i = 0; i < 8; i++) { digest ^= (v >> (8 * i)) & 255; digest *= 0x100000001b3ull; }
}
void sx_fail(const char* m) { sx_check(0, m); }
int sx_native(void) { return 1; }
void sx_end(void) { done(); }
}
#ifndef SX_THREADS
extern "C" int sx_spawn(void (*fn)(void*), void* a) { diverge("threads"); return 0; }
extern "C" void sx_join(int) {}
extern "C" int sx_tid() { return 0; }
extern "C" uint64_t sx_now() { return 0; }
extern "C" void sx_trace(const std::vector<int>&) {}
#else
extern "C" void sx_trace(const std::vector<int>&);
#endif
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "r");
    if (!f) { perror(argv[1]); return 78; }
    char* line = nullptr;
    size_t cap = 0;
    std::string entry;
    std::vector<int> trace;
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "entry ", 6)) { entry = line + 6; while (!entry.empty() && entry.back() <= ' ') entry.pop_back(); }
        else if (!strncmp(line, "sym ", 4)) {
            char nm[256]; int w; unsigned long long v;
            if (sscanf(line + 4, "%255s %d %llu", nm, &w, &v) == 3) syms.push_back({nm, w, v});
        } else if (!strncmp(line, "trace ", 6)) {
            for (char* p = line + 6; *p;) { char* e; long t = strtol(p, &e, 10); if (e == p) break; trace.push_back((int) t); p = e; }
        }
    }
    fclose(f);
    free(line);
    void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, entry.c_str());
    if (!fn) { printf("no entry %s\n", entry.c_str()); return 78; }
    sx_trace(trace);
    fn();
    done();
}
