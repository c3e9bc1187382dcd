// symx: LLVM IR lowered to a compact slot-based bytecode.
#pragma once
#include "expr.h"
#include <map>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>

struct Val
{
    Expr* e = nullptr;
    u64 c = 0;
};

enum OpK : u8 {
    O_BIN,      // d = a <imm:EKind> b          (w = operand width)
    O_ADD, O_SUB, O_AND, O_OR, O_XOR, O_SHL, O_LSHR,
    O_EQ, O_NE, O_ULT, O_ULE, O_SLT, O_SLE,
    O_MOV, O_ZEXT, O_SEXT, O_TRUNCI, O_FREEZE, // aux = source width
    O_SELECT,   // d = c ? a : b
    O_ADDI,     // d = a + imm (64 bit)
    O_GEPI,     // d = a + sext(b, aux) * imm
    O_LOAD,     // d = [a + imm], w bits, aux: 1 = pointer typed
    O_STORE,    // [a + imm] = b, w bits
    O_ALOAD, O_ASTORE, // atomic; aux = ordering
    O_CMPXCHG,  // d,d+1 = cmpxchg [a], b, c ; aux = success ordering | failure ordering << 4
    O_RMW,      // d = rmw [a], b ; aux = ordering ; imm = op
    O_FENCE,
    O_BR, O_CONDBR, O_SWITCH, O_RET, O_UNREACH,
    O_CALL, O_LPAD, O_RESUME, O_ALLOCA,
    O_CTPOP, O_CTLZ, O_CTTZ, O_BSWAP, O_MINMAX, O_ABS, O_FSH,
    O_OVF,      // d,d+1 = a <op> b with overflow; imm: 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    O_SAT,      // imm: 0 uadd.sat 1 usub.sat
    O_MEMCPY, O_MEMMOVE, O_MEMSET, O_TYPEID, O_TLSADDR,
    O_LIFESTART, O_LIFEEND, O_NOP, O_YIELD, O_TRAP, O_UNSUP,
    O_FBIN, O_FCMP, O_FCAST
};

struct Func;
struct Edge
{
    int pc = -1;
    std::vector<std::pair<int, int>> copies; // dst, src
    bool overlap = false;
    int block = 0;
};
struct Clause { int kind; u64 ti; std::vector<u64> filter; }; // kind 0 catch, 1 filter
struct LPadInfo { bool cleanup; std::vector<Clause> clauses; int d; };
struct CallSite
{
    Func* callee = nullptr;
    int fnOp = 0;
    std::vector<int> args;     // flattened operands
    std::vector<u8> argw;
    std::vector<u32> byval;    // per flattened arg: size to copy, or 0
    int ret = -1, nret = 0;
    Edge* normal = nullptr;
    Edge* unwind = nullptr;
    LPadInfo* lp = nullptr;
    bool nounwind = false;
    unsigned line = 0;
};
// what the program learns from an atomic operation's result: everything,
// nothing, or whether it is a given value
constexpr u64 OBS_ALL = 0, OBS_NOTHING = 1ull << 33, OBS_IS = 1ull << 32;
struct Ins
{
    u8 op, w;
    u16 aux;
    int d, a, b, c;
    u64 imm;
    void* ext;
};
struct SwitchInfo { std::vector<std::pair<u64, Edge*>> cases; Edge* def; unsigned w; };

struct Func
{
    llvm::Function* lf = nullptr;
    std::string name;
    std::string pretty;
    u64 addr = 0;
    int builtin = -1;
    bool compiled = false;
    bool inScope = false;       // defined in the code under verification
    std::vector<Ins> code;
    std::vector<int> insBlock;
    std::vector<u8> blockSeen;
    std::vector<unsigned> line; // per instruction
    int nslots = 0, nargs = 0;
    std::vector<int> argSlots;
    bool seen = false;
    u64 calls = 0;
};

struct GlobalInit { llvm::GlobalVariable* gv; u64 addr; u64 size; };

struct Prog
{
    llvm::Module* M = nullptr;
    const llvm::DataLayout* DL = nullptr;
    std::vector<Val> consts;
    std::map<const llvm::Value*, u64> gaddr;
    std::map<std::string, Func*> byName;
    std::map<const llvm::Function*, Func*> byLF;
    std::map<u64, Func*> byAddr;
    std::vector<Func*> funcs;
    std::vector<GlobalInit> inits;
    std::vector<llvm::GlobalVariable*> tlsVars;
    std::map<u64, llvm::GlobalVariable*> tlsByAddr; // placeholder address -> var
    u32 nextUndef = 1;

    void load(const std::string& file);
    Func* funcOf(llvm::Function*);
    void compile(Func*);
    Expr* freshUndef(unsigned w) { return XP.get(E_UNDEF, w, nextUndef++); }
    int constOp(const llvm::Constant*);
    Val constVal(const llvm::Constant*, std::vector<Val>&);
    u64 evalAddr(const llvm::Constant*);
    void flattenConst(const llvm::Constant*, std::vector<Val>&);
    void writeConst(const llvm::Constant*, u8* data, u8* mask, u64 size);
};
extern Prog PR;
struct Leaf { u8 w; u32 off; bool ptr; };
void flattenTy(llvm::Type*, std::vector<Leaf>&, u64 off = 0);
int builtinId(const std::string&);
extern const char* builtinNames[];
const u64 OBJ_SHIFT = 20;
const u64 OBJ_BASE = 0x10000;
