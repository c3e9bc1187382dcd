#include "prog.h"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

Prog PR;
static LLVMContext* LC;

static void die(const std::string& s)
{
    fprintf(stderr, "symx: %s\n", s.c_str());
    exit(3);
}
static unsigned scalarW(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}
void flattenTy(Type* t, std::vector<Leaf>& out, u64 off)
{
    if (unsigned w = scalarW(t)) {
        if (w > 64) { out.push_back({255, (u32) off, false}); return; }
        out.push_back({(u8) w, (u32) off, t->isPointerTy()});
        return;
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = PR.DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            flattenTy(s->getElementType(i), out, off + sl->getElementOffset(i));
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        u64 es = PR.DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) flattenTy(a->getElementType(), out, off + i * es);
        return;
    }
    if (auto* v = dyn_cast<FixedVectorType>(t)) {
        u64 es = PR.DL->getTypeStoreSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) flattenTy(v->getElementType(), out, off + i * es);
        return;
    }
    if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
    out.push_back({255, (u32) off, false}); // unsupported leaf (x86_fp80 ...)
}
static unsigned nLeaves(Type* t)
{
    std::vector<Leaf> l;
    flattenTy(t, l);
    return l.size();
}

u64 Prog::evalAddr(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLimitedValue();
    if (isa<ConstantPointerNull>(c)) return 0;
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalAddr(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto i = gaddr.find(gv);
        if (i == gaddr.end()) die("no address for global " + gv->getName().str());
        return i->second;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep");
            return evalAddr(ce->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            return evalAddr(ce->getOperand(0));
        case Instruction::Trunc: return evalAddr(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::Add: return evalAddr(ce->getOperand(0)) + evalAddr(ce->getOperand(1));
        case Instruction::Sub: return evalAddr(ce->getOperand(0)) - evalAddr(ce->getOperand(1));
        default: {
            std::string s; raw_string_ostream os(s); ce->print(os);
            die("constant expression " + os.str());
        }
        }
    }
    if (isa<UndefValue>(c)) return 0;
    std::string s; raw_string_ostream os(s); c->print(os);
    die("constant " + os.str());
    return 0;
}

void Prog::flattenConst(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c)) { // includes poison
        std::vector<Leaf> l;
        flattenTy(t, l);
        for (auto& x : l) { Val v; v.e = freshUndef(x.w > 64 ? 64 : x.w); out.push_back(v); }
        return;
    }
    if (scalarW(t)) {
        Val v;
        if (auto* f = dyn_cast<ConstantFP>(c)) v.c = f->getValueAPF().bitcastToAPInt().getLimitedValue();
        else if (auto* ci = dyn_cast<ConstantInt>(c)) v.c = ci->getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getZExtValue();
        else v.c = evalAddr(c) & maskw(scalarW(t));
        out.push_back(v);
        return;
    }
    if (isa<ConstantAggregateZero>(c)) {
        unsigned n = nLeaves(t);
        for (unsigned i = 0; i < n; i++) out.push_back(Val());
        return;
    }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cds->getNumElements(); i++) flattenConst(cds->getElementAsConstant(i), out);
        return;
    }
    for (unsigned i = 0; i < c->getNumOperands(); i++) flattenConst(cast<Constant>(c->getOperand(i)), out);
}

int Prog::constOp(const Constant* c)
{
    static std::map<const Constant*, int> memo;
    if (!isa<UndefValue>(c)) {
        auto i = memo.find(c);
        if (i != memo.end()) return i->second;
    }
    std::vector<Val> v;
    flattenConst(c, v);
    int at = consts.size();
    for (auto& x : v) consts.push_back(x);
    if (v.empty()) consts.push_back(Val());
    return memo[c] = ~at;
}

void Prog::writeConst(const Constant* c, u8* data, u8* mask, u64 size)
{
    std::vector<Leaf> l;
    std::vector<Val> v;
    flattenTy(c->getType(), l);
    flattenConst(c, v);
    for (size_t i = 0; i < l.size(); i++) {
        unsigned nb = (l[i].w + 7) / 8;
        if (v[i].e) { memset(mask + l[i].off, 1, nb); continue; }
        memcpy(data + l[i].off, &v[i].c, nb);
    }
}

Func* Prog::funcOf(Function* f)
{
    auto i = byLF.find(f);
    if (i != byLF.end()) return i->second;
    die("unknown function " + f->getName().str());
    return nullptr;
}

void Prog::load(const std::string& file)
{
    LC = new LLVMContext();
    SMDiagnostic err;
    auto m = parseIRFile(file, err, *LC);
    if (!m) die("cannot parse " + file + ": " + err.getMessage().str());
    M = m.release();
    DL = &M->getDataLayout();
    // thread_local guards are used directly: look up the thread's copy
    for (auto& g : M->globals()) {
        if (!g.isThreadLocal()) continue;
        std::vector<Use*> us;
        for (auto& u : g.uses()) us.push_back(&u);
        for (auto* u : us) {
            auto* i = dyn_cast<Instruction>(u->getUser());
            if (!i) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(i)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            if (isa<PHINode>(i)) continue;
            IRBuilder<> b(i);
            u->set(b.CreateThreadLocalAddress(&g));
        }
    }
    u64 idx = 1;
    for (auto& f : *M) {
        if (f.isIntrinsic()) continue;
        Func* F = new Func();
        F->lf = &f;
        F->name = f.getName().str();
        F->pretty = llvm::demangle(F->name);
        F->inScope = F->pretty.find("immer::") != std::string::npos;
        F->addr = (idx++ << OBJ_SHIFT) + OBJ_BASE;
        if (f.isDeclaration() && f.hasExternalWeakLinkage()) F->addr = 0;
        int b = builtinId(F->name);
        if (b >= 0 ) F->builtin = b; // modelled even when a body is present
        funcs.push_back(F);
        byLF[&f] = F;
        byName[F->name] = F;
        if (F->addr) byAddr[F->addr] = F;
        gaddr[&f] = F->addr;
    }
    for (auto& g : M->globals()) {
        u64 size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64;
        if (g.isDeclaration() && g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; }
        if (g.isDeclaration() && size < 64) size = 64;
        u64 a = (idx++ << OBJ_SHIFT) + OBJ_BASE;
        gaddr[&g] = a;
        if (g.isThreadLocal()) tlsByAddr[a] = &g;
        else inits.push_back({&g, a, size});
    }
    for (auto& a : M->aliases()) {
        if (auto* f = dyn_cast<Function>(a.getAliaseeObject())) {
            byName[a.getName().str()] = byLF[f];
        }
    }
}

static void* observed(Instruction* I)
{
    if (I->use_empty()) return (void*) OBS_NOTHING;
    u64 r = OBS_ALL;
    for (auto* u : I->users()) {
        auto* c = dyn_cast<ICmpInst>(u);
        if (!c || !c->isEquality()) return (void*) OBS_ALL;
        auto* k = dyn_cast<ConstantInt>(c->getOperand(c->getOperand(0) == I ? 1 : 0));
        if (!k || k->getBitWidth() > 64 || k->getZExtValue() >> 32) return (void*) OBS_ALL;
        u64 x = OBS_IS | k->getZExtValue();
        if (r != OBS_ALL && r != x) return (void*) OBS_ALL;
        r = x;
    }
    return (void*) r;
}
static int ordOf(AtomicOrdering o)
{
    switch (o) {
    case AtomicOrdering::NotAtomic: case AtomicOrdering::Unordered: case AtomicOrdering::Monotonic: return 0;
    case AtomicOrdering::Acquire: return 1;
    case AtomicOrdering::Release: return 2;
    case AtomicOrdering::AcquireRelease: return 3;
    default: return 7; // seq_cst
    }
}

void Prog::compile(Func* F)
{
    if (F->compiled) return;
    F->compiled = true;
    Function& f = *F->lf;
    std::map<const Value*, int> slot;
    int n = 0;
    for (auto& a : f.args()) {
        slot[&a] = n;
        unsigned k = nLeaves(a.getType());
        for (unsigned i = 0; i < k; i++) F->argSlots.push_back(n + i);
        n += k;
    }
    F->nargs = n;
    std::map<const BasicBlock*, int> bid;
    int nb = 0;
    for (auto& b : f) {
        bid[&b] = nb++;
        for (auto& i : b) {
            unsigned k = nLeaves(i.getType());
            if (k) { slot[&i] = n; n += k; }
        }
    }
    int tmp = n; // scratch slots for gep chains
    n += 2;
    F->nslots = n;
    F->blockSeen.assign(nb, 0);
    auto op = [&](const Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) {
            return constOp(c);
        }
        auto i = slot.find(v);
        if (i == slot.end()) die("operand without slot in " + F->name);
        return i->second;
    };
    auto at = [](int o, int k) { return o >= 0 ? o + k : o - k; };
    std::vector<int> bpc(nb, -1);
    struct Fix { Edge* e; const BasicBlock* to; };
    std::vector<Fix> fixes;
    unsigned curLine = 0;
    int curBlock = 0;
    auto emit = [&](u8 o, unsigned w, int d, int a = 0, int b = 0, int c = 0, u64 imm = 0, u16 aux = 0, void* ext = nullptr) {
        F->code.push_back(Ins{o, (u8) w, aux, d, a, b, c, imm, ext});
        F->line.push_back(curLine);
        F->insBlock.push_back(curBlock);
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> Edge* {
        Edge* e = new Edge();
        e->block = bid[to];
        for (auto& p : to->phis()) {
            const Value* v = p.getIncomingValueForBlock(from);
            int d = slot[&p], s = op(v);
            unsigned k = nLeaves(p.getType());
            for (unsigned i = 0; i < k; i++) e->copies.push_back({d + (int) i, at(s, i)});
        }
        for (auto& c1 : e->copies) for (auto& c2 : e->copies) if (&c1 != &c2 && c1.first == c2.second) e->overlap = true;
        fixes.push_back({e, to});
        return e;
    };
    auto lpadOf = [&](const BasicBlock* b) -> LPadInfo* {
        auto* lp = b->getLandingPadInst();
        if (!lp) return nullptr;
        auto* r = new LPadInfo();
        r->cleanup = lp->isCleanup();
        r->d = slot[lp];
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            Clause c;
            Constant* k = lp->getClause(i);
            if (lp->isCatch(i)) { c.kind = 0; c.ti = evalAddr(k); }
            else {
                c.kind = 1; c.ti = 0;
                if (auto* ca = dyn_cast<ConstantArray>(k)) for (auto& o : ca->operands()) c.filter.push_back(evalAddr(cast<Constant>(o)));
            }
            r->clauses.push_back(c);
        }
        return r;
    };
    for (auto& b : f) {
        bpc[bid[&b]] = F->code.size();
        curBlock = bid[&b];
        for (auto& I : b) {
            if (auto& dl = I.getDebugLoc()) curLine = dl.getLine();
            int d = slot.count(&I) ? slot[&I] : -1;
            if (isa<PHINode>(I)) continue;
            Type* ty = I.getType();
            auto unsup = [&](const std::string& why) {
                std::string s; raw_string_ostream os(s); I.print(os);
                emit(O_UNSUP, 0, d, 0, 0, 0, 0, 0, new std::string(why + ": " + os.str() + " in " + F->name));
            };
            bool wide = false;
            { std::vector<Leaf> l; flattenTy(ty, l); for (auto& o : I.operands()) flattenTy(o->getType(), l);
              for (auto& x : l) if (x.w == 255) wide = true; }
            if (wide && !isa<CallBase>(I)) { unsup("type"); continue; }
            if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
                std::vector<Leaf> l; flattenTy(ty, l);
                int a = op(bo->getOperand(0)), c = op(bo->getOperand(1));
                if (ty->isFPOrFPVectorTy()) {
                    for (size_t i = 0; i < l.size(); i++) emit(O_FBIN, l[i].w, d + i, at(a, i), at(c, i), 0, bo->getOpcode());
                    continue;
                }
                for (size_t i = 0; i < l.size(); i++) {
                    u8 o = O_BIN; EKind k = E_ADD;
                    switch (bo->getOpcode()) {
                    case Instruction::Add: o = O_ADD; break;
                    case Instruction::Sub: o = O_SUB; break;
                    case Instruction::And: o = O_AND; break;
                    case Instruction::Or: o = O_OR; break;
                    case Instruction::Xor: o = O_XOR; break;
                    case Instruction::Shl: o = O_SHL; break;
                    case Instruction::LShr: o = O_LSHR; break;
                    case Instruction::AShr: k = E_ASHR; break;
                    case Instruction::Mul: k = E_MUL; break;
                    case Instruction::UDiv: k = E_UDIV; break;
                    case Instruction::SDiv: k = E_SDIV; break;
                    case Instruction::URem: k = E_UREM; break;
                    case Instruction::SRem: k = E_SREM; break;
                    default: die("binop");
                    }
                    emit(o, l[i].w, d + i, at(a, i), at(c, i), 0, k);
                }
                continue;
            }
            if (auto* ic = dyn_cast<ICmpInst>(&I)) {
                std::vector<Leaf> l; flattenTy(ic->getOperand(0)->getType(), l);
                int a = op(ic->getOperand(0)), c = op(ic->getOperand(1));
                for (size_t i = 0; i < l.size(); i++) {
                    int x = at(a, i), y = at(c, i);
                    u8 o = O_EQ;
                    switch (ic->getPredicate()) {
                    case ICmpInst::ICMP_EQ: o = O_EQ; break;
                    case ICmpInst::ICMP_NE: o = O_NE; break;
                    case ICmpInst::ICMP_ULT: o = O_ULT; break;
                    case ICmpInst::ICMP_ULE: o = O_ULE; break;
                    case ICmpInst::ICMP_UGT: o = O_ULT; std::swap(x, y); break;
                    case ICmpInst::ICMP_UGE: o = O_ULE; std::swap(x, y); break;
                    case ICmpInst::ICMP_SLT: o = O_SLT; break;
                    case ICmpInst::ICMP_SLE: o = O_SLE; break;
                    case ICmpInst::ICMP_SGT: o = O_SLT; std::swap(x, y); break;
                    case ICmpInst::ICMP_SGE: o = O_SLE; std::swap(x, y); break;
                    default: die("icmp");
                    }
                    emit(o, l[i].w, d + i, x, y);
                }
                continue;
            }
            if (auto* fc = dyn_cast<FCmpInst>(&I)) {
                emit(O_FCMP, scalarW(fc->getOperand(0)->getType()), d, op(fc->getOperand(0)), op(fc->getOperand(1)), 0, fc->getPredicate());
                continue;
            }
            if (auto* ca = dyn_cast<CastInst>(&I)) {
                std::vector<Leaf> l, s; flattenTy(ty, l); flattenTy(ca->getSrcTy(), s);
                int a = op(ca->getOperand(0));
                if (l.size() != s.size()) { unsup("cast shape"); continue; }
                for (size_t i = 0; i < l.size(); i++) {
                    u8 o;
                    switch (ca->getOpcode()) {
                    case Instruction::ZExt: o = O_ZEXT; break;
                    case Instruction::SExt: o = O_SEXT; break;
                    case Instruction::Trunc: o = O_TRUNCI; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr:
                        o = l[i].w < s[i].w ? O_TRUNCI : l[i].w > s[i].w ? O_ZEXT : O_MOV; break;
                    case Instruction::BitCast: case Instruction::AddrSpaceCast:
                        o = O_MOV; if (l[i].w != s[i].w) { o = O_UNSUP; } break;
                    default: o = O_FCAST;
                    }
                    if (o == O_UNSUP) { unsup("bitcast"); break; }
                    emit(o, l[i].w, d + i, at(a, i), 0, 0, ca->getOpcode(), s[i].w);
                }
                continue;
            }
            if (auto* se = dyn_cast<SelectInst>(&I)) {
                std::vector<Leaf> l; flattenTy(ty, l);
                int c = op(se->getCondition()), a = op(se->getTrueValue()), e = op(se->getFalseValue());
                bool vc = se->getCondition()->getType()->isVectorTy();
                for (size_t i = 0; i < l.size(); i++) emit(O_SELECT, l[i].w, d + i, at(a, i), at(e, i), vc ? at(c, i) : c);
                continue;
            }
            if (auto* fr = dyn_cast<FreezeInst>(&I)) {
                std::vector<Leaf> l; flattenTy(ty, l);
                int a = op(fr->getOperand(0));
                for (size_t i = 0; i < l.size(); i++) emit(O_FREEZE, l[i].w, d + i, at(a, i));
                continue;
            }
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                if (ty->isVectorTy()) { unsup("vector gep"); continue; }
                u64 off = 0;
                std::vector<std::pair<int, std::pair<u64, unsigned>>> var;
                for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* o = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) {
                        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(o)->getZExtValue());
                    } else {
                        u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(o)) off += es * (u64) ci->getSExtValue();
                        else var.push_back({op(o), {es, scalarW(o->getType())}});
                    }
                }
                int base = op(g->getPointerOperand());
                if (var.empty()) { emit(O_ADDI, 64, d, base, 0, 0, off); continue; }
                int cur = base;
                for (size_t i = 0; i < var.size(); i++) {
                    bool last = i + 1 == var.size() && off == 0;
                    int t = last ? d : tmp;
                    emit(O_GEPI, 64, t, cur, var[i].first, 0, var[i].second.first, var[i].second.second);
                    cur = t;
                }
                if (off) emit(O_ADDI, 64, d, cur, 0, 0, off);
                continue;
            }
            if (auto* ld = dyn_cast<LoadInst>(&I)) {
                std::vector<Leaf> l; flattenTy(ty, l);
                int a = op(ld->getPointerOperand());
                if (ld->isAtomic()) {
                    if (l.size() != 1) { unsup("atomic load"); continue; }
                    emit(O_ALOAD, l[0].w, d, a, 0, 0, 0, ordOf(ld->getOrdering()), observed(ld));
                } else
                    for (size_t i = 0; i < l.size(); i++) emit(O_LOAD, l[i].w, d + i, a, 0, 0, l[i].off, l[i].ptr);
                continue;
            }
            if (auto* stI = dyn_cast<StoreInst>(&I)) {
                std::vector<Leaf> l; flattenTy(stI->getValueOperand()->getType(), l);
                int a = op(stI->getPointerOperand()), v = op(stI->getValueOperand());
                if (stI->isAtomic()) {
                    if (l.size() != 1) { unsup("atomic store"); continue; }
                    emit(O_ASTORE, l[0].w, -1, a, v, 0, 0, ordOf(stI->getOrdering()));
                } else
                    for (size_t i = 0; i < l.size(); i++) emit(O_STORE, l[i].w, -1, a, at(v, i), 0, l[i].off);
                continue;
            }
            if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                emit(O_CMPXCHG, scalarW(cx->getNewValOperand()->getType()), d, op(cx->getPointerOperand()), op(cx->getCompareOperand()), op(cx->getNewValOperand()), 0,
                     ordOf(cx->getSuccessOrdering()) | ordOf(cx->getFailureOrdering()) << 4);
                continue;
            }
            if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
                emit(O_RMW, scalarW(rm->getValOperand()->getType()), d, op(rm->getPointerOperand()), op(rm->getValOperand()), 0, rm->getOperation(), ordOf(rm->getOrdering()), observed(rm));
                continue;
            }
            if (auto* fe = dyn_cast<FenceInst>(&I)) { emit(O_FENCE, 0, -1, 0, 0, 0, 0, ordOf(fe->getOrdering())); continue; }
            if (auto* al = dyn_cast<AllocaInst>(&I)) {
                u64 es = DL->getTypeAllocSize(al->getAllocatedType());
                emit(O_ALLOCA, 64, d, op(al->getArraySize()), 0, 0, es);
                continue;
            }
            if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                // leaf index of the member
                Type* t = ev->getAggregateOperand()->getType();
                unsigned skip = 0;
                for (unsigned ix : ev->indices()) {
                    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) skip += nLeaves(s->getElementType(k)); t = s->getElementType(ix); }
                    else { auto* ar = cast<ArrayType>(t); skip += ix * nLeaves(ar->getElementType()); t = ar->getElementType(); }
                }
                std::vector<Leaf> l; flattenTy(ty, l);
                int a = op(ev->getAggregateOperand());
                for (size_t i = 0; i < l.size(); i++) emit(O_MOV, l[i].w, d + i, at(a, skip + i));
                continue;
            }
            if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                Type* t = iv->getAggregateOperand()->getType();
                unsigned skip = 0;
                for (unsigned ix : iv->indices()) {
                    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) skip += nLeaves(s->getElementType(k)); t = s->getElementType(ix); }
                    else { auto* ar = cast<ArrayType>(t); skip += ix * nLeaves(ar->getElementType()); t = ar->getElementType(); }
                }
                std::vector<Leaf> l, il; flattenTy(ty, l); flattenTy(iv->getInsertedValueOperand()->getType(), il);
                int a = op(iv->getAggregateOperand()), v = op(iv->getInsertedValueOperand());
                for (size_t i = 0; i < l.size(); i++)
                    emit(O_MOV, l[i].w, d + i, (i >= skip && i < skip + il.size()) ? at(v, i - skip) : at(a, i));
                continue;
            }
            if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
                auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand());
                if (!ci) { unsup("extractelement"); continue; }
                emit(O_MOV, scalarW(ty), d, at(op(ee->getVectorOperand()), ci->getZExtValue()));
                continue;
            }
            if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
                auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2));
                if (!ci) { unsup("insertelement"); continue; }
                std::vector<Leaf> l; flattenTy(ty, l);
                int a = op(ie->getOperand(0)), v = op(ie->getOperand(1));
                for (size_t i = 0; i < l.size(); i++) emit(O_MOV, l[i].w, d + i, i == ci->getZExtValue() ? v : at(a, i));
                continue;
            }
            if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
                std::vector<Leaf> l, s; flattenTy(ty, l); flattenTy(sv->getOperand(0)->getType(), s);
                int a = op(sv->getOperand(0)), c = op(sv->getOperand(1));
                for (size_t i = 0; i < l.size(); i++) {
                    int m = sv->getMaskValue(i);
                    int o = m < 0 ? at(a, 0) : m < (int) s.size() ? at(a, m) : at(c, m - s.size());
                    emit(O_MOV, l[i].w, d + i, o);
                }
                continue;
            }
            if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isUnconditional()) { emit(O_BR, 0, -1, 0, 0, 0, 0, 0, edge(&b, br->getSuccessor(0))); }
                else {
                    auto** es = new Edge*[2];
                    es[0] = edge(&b, br->getSuccessor(0));
                    es[1] = edge(&b, br->getSuccessor(1));
                    emit(O_CONDBR, 1, -1, op(br->getCondition()), 0, 0, 0, 0, es);
                }
                continue;
            }
            if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                auto* si = new SwitchInfo();
                si->w = scalarW(sw->getCondition()->getType());
                for (auto& c : sw->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(&b, c.getCaseSuccessor())});
                si->def = edge(&b, sw->getDefaultDest());
                emit(O_SWITCH, si->w, -1, op(sw->getCondition()), 0, 0, 0, 0, si);
                continue;
            }
            if (auto* re = dyn_cast<ReturnInst>(&I)) {
                Value* v = re->getReturnValue();
                emit(O_RET, 0, -1, v ? op(v) : 0, 0, 0, v ? nLeaves(v->getType()) : 0);
                continue;
            }
            if (isa<UnreachableInst>(&I)) { emit(O_UNREACH, 0, -1); continue; }
            if (isa<LandingPadInst>(&I)) { emit(O_LPAD, 0, d); continue; }
            if (auto* rs = dyn_cast<ResumeInst>(&I)) { emit(O_RESUME, 0, -1, op(rs->getValue())); continue; }
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                if (cb->isInlineAsm()) {
                    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                    if (ia->getAsmString().find("pause") != std::string::npos || ia->getAsmString() == "rep; nop") emit(O_YIELD, 0, -1);
                    else if (ia->getAsmString().empty()) { if (d >= 0) unsup("asm with result"); }
                    else unsup("inline asm");
                    goto callEdge;
                }
                if (Function* cf = cb->getCalledFunction(); cf && cf->isIntrinsic()) {
                    unsigned id = cf->getIntrinsicID();
                    auto A = [&](int i) { return op(cb->getArgOperand(i)); };
                    std::vector<Leaf> l; flattenTy(ty, l);
                    if (wide) { bool any = d >= 0 && !l.empty(); if (any) { unsup("wide intrinsic"); continue; } }
                    auto each = [&](u8 o, u64 imm, int na) {
                        for (size_t i = 0; i < l.size(); i++)
                            emit(o, l[i].w, d + i, at(A(0), i), na > 1 ? at(A(1), i) : 0, na > 2 ? at(A(2), i) : 0, imm);
                    };
                    switch (id) {
                    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
                    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
                    case Intrinsic::stackrestore: case Intrinsic::prefetch:
                        break;
                    case Intrinsic::invariant_start: case Intrinsic::stacksave:
                        emit(O_MOV, 64, d, constOp(ConstantInt::get(llvm::Type::getInt64Ty(*LC), 0))); break;
                    case Intrinsic::lifetime_start: emit(O_LIFESTART, 0, -1, A(1), A(0)); break;
                    case Intrinsic::lifetime_end: emit(O_LIFEEND, 0, -1, A(1), A(0)); break;
                    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
                    case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
                        each(O_MOV, 0, 1); break;
                    case Intrinsic::is_constant: emit(O_MOV, 1, d, constOp(ConstantInt::getFalse(*LC))); break;
                    case Intrinsic::objectsize:
                        emit(O_MOV, 64, d, constOp(ConstantInt::get(llvm::Type::getInt64Ty(*LC), cast<ConstantInt>(cb->getArgOperand(1))->isZero() ? -1 : 0))); break;
                    case Intrinsic::ctpop: each(O_CTPOP, 0, 1); break;
                    case Intrinsic::ctlz: each(O_CTLZ, 0, 1); break;
                    case Intrinsic::cttz: each(O_CTTZ, 0, 1); break;
                    case Intrinsic::bswap: each(O_BSWAP, 0, 1); break;
                    case Intrinsic::umin: each(O_MINMAX, 0, 2); break;
                    case Intrinsic::umax: each(O_MINMAX, 1, 2); break;
                    case Intrinsic::smin: each(O_MINMAX, 2, 2); break;
                    case Intrinsic::smax: each(O_MINMAX, 3, 2); break;
                    case Intrinsic::abs: each(O_ABS, 0, 1); break;
                    case Intrinsic::fshl: each(O_FSH, 0, 3); break;
                    case Intrinsic::fshr: each(O_FSH, 1, 3); break;
                    case Intrinsic::uadd_sat: each(O_SAT, 0, 2); break;
                    case Intrinsic::usub_sat: each(O_SAT, 1, 2); break;
                    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
                    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
                        int k = id == Intrinsic::uadd_with_overflow ? 0 : id == Intrinsic::usub_with_overflow ? 1 : id == Intrinsic::umul_with_overflow ? 2
                              : id == Intrinsic::sadd_with_overflow ? 3 : id == Intrinsic::ssub_with_overflow ? 4 : 5;
                        emit(O_OVF, l[0].w, d, A(0), A(1), 0, k);
                        break;
                    }
                    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: emit(O_MEMCPY, 0, -1, A(0), A(1), A(2)); break;
                    case Intrinsic::memmove: emit(O_MEMMOVE, 0, -1, A(0), A(1), A(2)); break;
                    case Intrinsic::memset: case Intrinsic::memset_inline: emit(O_MEMSET, 0, -1, A(0), A(1), A(2)); break;
                    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: emit(O_TRAP, 0, -1); break;
                    case Intrinsic::eh_typeid_for: emit(O_TYPEID, 32, d, A(0)); break;
                    case Intrinsic::threadlocal_address: emit(O_TLSADDR, 64, d, A(0)); break;
                    case Intrinsic::x86_sse2_pause: emit(O_YIELD, 0, -1); break;
                    default: unsup("intrinsic");
                    }
                    if (auto* inv = dyn_cast<InvokeInst>(cb)) emit(O_BR, 0, -1, 0, 0, 0, 0, 0, edge(&b, inv->getNormalDest()));
                    continue;
                }
                {
                    auto* cs = new CallSite();
                    cs->line = curLine;
                    Value* cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                    if (auto* cf = dyn_cast<Function>(cv)) cs->callee = funcOf(cf);
                    else cs->fnOp = op(cb->getCalledOperand());
                    for (unsigned i = 0; i < cb->arg_size(); i++) {
                        Value* av = cb->getArgOperand(i);
                        if (av->getType()->isMetadataTy()) continue;
                        std::vector<Leaf> l; flattenTy(av->getType(), l);
                        int o = op(av);
                        for (size_t k = 0; k < l.size(); k++) {
                            cs->args.push_back(at(o, k));
                            cs->argw.push_back(l[k].w);
                            cs->byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0);
                        }
                    }
                    cs->ret = d;
                    cs->nret = nLeaves(ty);
                    cs->nounwind = cb->doesNotThrow();
                    if (auto* inv = dyn_cast<InvokeInst>(cb)) {
                        cs->normal = edge(&b, inv->getNormalDest());
                        cs->unwind = edge(&b, inv->getUnwindDest());
                        cs->lp = lpadOf(inv->getUnwindDest());
                    }
                    emit(O_CALL, 0, d, 0, 0, 0, 0, 0, cs);
                }
                continue;
            callEdge:
                if (auto* inv = dyn_cast<InvokeInst>(cb)) emit(O_BR, 0, -1, 0, 0, 0, 0, 0, edge(&b, inv->getNormalDest()));
                continue;
            }
            if (auto* un = dyn_cast<UnaryOperator>(&I)) { emit(O_FBIN, scalarW(ty), d, op(un->getOperand(0)), op(un->getOperand(0)), 0, 9999); continue; }
            unsup("instruction");
        }
    }
    for (auto& x : fixes) x.e->pc = bpc[bid[x.to]];
}
