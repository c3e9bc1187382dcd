#pragma once
#include "mem.h"
#include "prog.h"
#include "solver.h"
#include <map>
#include <string>
#include <vector>

enum Hook : u8 { H_NONE, H_FREE_EXC, H_TDTORS };
struct Frame
{
    Func* f;
    u32 base;
    int pc;
    u32 allocaBase;
    CallSite* cs; // call site in the caller that created this frame
    u8 hook = H_NONE;
    u64 hookArg = 0;
};
struct Exc { u64 obj, tinfo, dtor; int handlers; bool rethrown; };
enum TStatus : u8 { T_RUN, T_JOIN, T_YIELD, T_GUARD, T_DONE };
struct Thread
{
    std::vector<Val> regs;
    std::vector<Frame> fr;
    std::vector<u64> allocas;
    std::vector<u64> caught;
    std::vector<std::pair<u64, u64>> tls;
    std::vector<std::pair<u64, u64>> tdtors;
    u64 excObj = 0;
    u32 excSel = 0;
    TStatus status = T_RUN;
    int joinT = -1;
    u64 lastStamp = 0;
    bool go = false;
    // the visible operation the thread is about to perform
    u64 pendA = 0;
    u8 pendN = 0, pendK = 0;
    u64 pendD = 0, pendO = 0; // what it adds, what it looks for
    int startedBy = -1; // runs up to its first visible operation first
    VC vc, relF, acqP;
    bool hasRelF = false;
};
struct Check { Expr* e; const char* msg; std::string where; };
struct State
{
    std::vector<Thread> th;
    int cur = 0;
    bool resched = false;
    ObjTab mem;
    u64 next = 1;
    PC* pc = nullptr;
    ModelP m;
    std::vector<u32> syms;
    std::vector<Check> checks;
    std::vector<Val> outs;
    std::vector<Exc> excs;
    std::map<u64, VC> sync;
    std::map<u64, u8> guards;
    std::vector<u8> trace;
    int entry = 0;
    u64 steps = 0;
    u32 asleep = 0; // threads whose next step has been explored from here
    u32 nsched = 0, preempts = 0, depth = 0, checksDone = 0;
    u64 writeStamp = 1;
    u64 liveHeap = 0;
};
struct PathEnd {};
