// vsa - interprocedural, path-sensitive typestate/ownership dataflow analysis over LLVM IR.
//
// The abstract domain is a finite disjunction of (environment, abstract memory, facts) triples.  Abstract
// memory is a set of regions holding cells (value numbers) and *tracked objects* (typestate: a live object
// of a given type with a given value number).  Unknown conditions fork into both outcomes (with a recorded
// fact for consistency); states are merged when they become equal at CFG join points and function exits.
// There is no solver and nothing of the analysed program is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <queue>
using namespace llvm;
typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;

// ---------------------------------------------------------------- values
enum K : uint8_t { UNDEF, INT, PTR, FUN, TERM, AGG, BYTES };
struct Val {
  K k = UNDEF; u32 r = 0; u64 v = 0;
  bool operator==(const Val& o) const { return k == o.k && r == o.r && v == o.v; }
  bool operator!=(const Val& o) const { return !(*this == o); }
  bool operator<(const Val& o) const { if (k != o.k) return k < o.k; if (r != o.r) return r < o.r; return v < o.v; }
};
static Val mkUndef() { return Val{}; }
static Val mkInt(u64 x) { return Val{INT, 0, x}; }
static Val mkPtr(u32 r, u64 off) { return Val{PTR, r, off}; }
static const u32 GBASE = 0x40000000u, DEADREG = 0xFFFFFFFFu;
static inline bool isGlob(u32 r) { return r != DEADREG && (r & GBASE); }

struct H128 { u64 a, b; bool operator==(const H128& o) const { return a == o.a && b == o.b; } };
struct HH { size_t operator()(const H128& h) const { return h.a ^ (h.b * 0x9E3779B97F4A7C15ull); } };
struct Hasher {
  u64 a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull;
  void add(u64 x) {
    u128 m = (u128)(a ^ x) * 0x9E3779B97F4A7C15ull; a = (u64)m ^ (u64)(m >> 64) ^ (x * 0xff51afd7ed558ccdull);
    u128 n = (u128)(b + x + 0x7F4A7C15ull) * 0xD6E8FEB86659FD93ull; b = (u64)n ^ (u64)(n >> 64) ^ ((x << 31) | (x >> 33));
  }
  void add(const Val& v) { add(((u64)v.k << 40) | v.r); add(v.v); }
  void add(const H128& h) { add(h.a); add(h.b); }
  H128 get() const { return H128{a, b}; }
};

// hash-consed terms (uninterpreted value numbers)
struct TermNode { u32 op; u32 width; std::vector<Val> args; };
enum { OP_SYM = 1, OP_USER = 100, OP_ICMP = 5000, OP_CAST = 6000, OP_BIN = 7000, OP_FP = 8000, OP_EXTERN = 9000 };
static std::vector<TermNode> terms(1);
static std::map<std::pair<std::pair<u32, u32>, std::vector<Val>>, u32> termIdx;
static Val mkTerm(u32 op, u32 width, std::vector<Val> args) {
  auto key = std::make_pair(std::make_pair(op, width), args);
  auto it = termIdx.find(key);
  if (it != termIdx.end()) return Val{TERM, it->second, 0};
  u32 id = terms.size(); terms.push_back(TermNode{op, width, std::move(args)}); termIdx[key] = id;
  return Val{TERM, id, 0};
}
static Val mkSym(u32 n) { return mkTerm(OP_SYM, 64, {mkInt(n)}); }
static std::vector<std::vector<Val>> aggs(1);
static std::map<std::vector<Val>, u32> aggIdx;
static Val mkAgg(std::vector<Val> vs) {
  auto it = aggIdx.find(vs); if (it != aggIdx.end()) return Val{AGG, it->second, 0};
  u32 id = aggs.size(); aggs.push_back(vs); aggIdx[vs] = id; return Val{AGG, id, 0};
}
// BYTES: flattened cells: triples encoded as (INT off, INT size, val)
static Val mkBytes(std::vector<Val> vs) { Val a = mkAgg(vs); a.k = BYTES; return a; }

// ---------------------------------------------------------------- memory
struct Cell { u32 off, size; Val v; };
struct Obj { u32 off, size, type; Val tok; };
enum RK : uint8_t { R_ALLOCA, R_HEAP, R_GLOBAL, R_EXN };
struct Region {
  u32 rc = 0; RK kind; bool dead = false; bool depEnd = false; u64 size = 0; u32 align = 1;
  std::vector<Cell> cells; std::vector<Obj> objs; std::vector<std::pair<u32, u32>> frozen;
  u32 maxPtr = 0;                         // upper bound (region id + 1) of non-global pointers held in cells
  // exception header
  Val tinfo, dtor; int handlers = 0; u64 adj = 0; bool thrown = false;
  const Instruction* site = nullptr; u32 how = 0;   // how: 0 new, 1 new[], 2 malloc
  bool hv = false; H128 h;
};
struct RP {
  Region* p = nullptr; RP() {} explicit RP(Region* q) : p(q) { if (p) p->rc++; }
  RP(const RP& o) : p(o.p) { if (p) p->rc++; } RP(RP&& o) noexcept : p(o.p) { o.p = nullptr; }
  RP& operator=(const RP& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  RP& operator=(RP&& o) noexcept { std::swap(p, o.p); return *this; }
  ~RP() { drop(); } void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  const Region* operator->() const { return p; } const Region& operator*() const { return *p; }
  Region* own() { if (p->rc > 1) { Region* q = new Region(*p); q->rc = 0; --p->rc; p = q; q->rc = 1; } p->hv = false; return p; }
};
static H128 regHash(Region* r) {
  if (r->hv) return r->h;
  Hasher h; h.add(((u64)r->kind << 8) | r->dead); h.add(r->size); h.add(r->align); h.add(r->how);
  for (auto& c : r->cells) { h.add(((u64)c.off << 32) | c.size); h.add(c.v); }
  h.add(0x1111);
  for (auto& o : r->objs) { h.add(((u64)o.off << 32) | o.size); h.add(o.type); h.add(o.tok); }
  h.add(0x2222);
  for (auto& f : r->frozen) h.add(((u64)f.first << 32) | f.second);
  if (r->kind == R_EXN) { h.add(r->tinfo); h.add(r->dtor); h.add(r->handlers); h.add(r->adj); h.add(r->thrown); }
  r->h = h.get(); r->hv = true; return r->h;
}
struct TNode { std::shared_ptr<TNode> parent; const Instruction* site; std::string what; };
typedef std::shared_ptr<TNode> Trace;
static Trace tpush(const Trace& t, const Instruction* i, std::string w) { return std::make_shared<TNode>(TNode{t, i, std::move(w)}); }

struct Mem {
  std::vector<RP> regs;
  std::vector<std::pair<u32, RP>> globs;          // overlays of mutable globals
  std::vector<std::pair<Val, int>> facts;         // term -> truth
  std::vector<u32> caught;                        // stack of caught exception regions
  u32 nextSym = 1; int allocMayFail = 0; int freezeDepth = 0; int allocForbidden = 0;
  Trace tr;
  H128 hash() const {
    Hasher h; h.add(regs.size());
    for (auto& r : regs) h.add(regHash(r.p));
    for (auto& g : globs) { h.add(g.first); h.add(regHash(g.second.p)); }
    h.add(0x3333); for (auto& f : facts) { h.add(f.first); h.add(f.second); }
    h.add(0x4444); for (u32 c : caught) h.add(c);
    h.add(nextSym); h.add(allocMayFail); h.add(freezeDepth); h.add(allocForbidden);
    return h.get();
  }
};
struct Outcome { Mem mem; Val ret; bool unwind = false; u32 exn = 0; };
struct PathEnd {};                                 // this abstract path ended (a violation was recorded)
struct Incomplete { std::string why; };
struct Infeasible {};

// ---------------------------------------------------------------- global analysis context
static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<const GlobalVariable*> gvars; static std::unordered_map<const GlobalVariable*, u32> gidx;
static std::vector<Function*> funs; static std::unordered_map<const Function*, u32> fidx;
static std::unordered_map<u32, RP> ginit;
struct Violation { std::string rule, msg, loc, func, entry; std::vector<std::string> stack, trace; };
static std::vector<Violation> violations; static std::set<std::string> vioKeys;
static std::string curEntry; static std::vector<const Instruction*> callStack;
static u64 nSteps = 0, nForks = 0, nMerged = 0, nStates = 0, nPaths = 0, stepBudget = 400000000ull;
static std::map<std::string, u64> obligations;
static std::set<std::string> covered;
static std::string repoPrefix = "/repo/";
static std::unordered_set<const Function*> visitedFns; static std::unordered_set<const Instruction*> visitedRepoInsts;
static size_t maxViol = 40;
static const Instruction* curInst = nullptr;
static std::chrono::steady_clock::time_point t0; static double timeBudget = 600;

static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  if (const DILocation* d = I->getDebugLoc().get()) {
    std::string f = d->getFilename().str(); std::string dir = d->getDirectory().str();
    if (!f.empty() && f[0] != '/') f = dir + "/" + f;
    return f + ":" + std::to_string(d->getLine());
  }
  if (auto* sp = I->getFunction()->getSubprogram()) return sp->getFilename().str() + ":" + std::to_string(sp->getLine()) + "(function)";
  return "?";
}
static std::string shortFn(const Function* F) {
  std::string s = llvm::demangle(F->getName().str());
  if (s.size() > 220) s = s.substr(0, 217) + "..."; return s;
}
static void report(const Mem* m, const std::string& rule, const std::string& msg) {
  Violation v; v.rule = rule; v.msg = msg; v.entry = curEntry; v.loc = locOf(curInst); v.func = curInst ? shortFn(curInst->getFunction()) : "?";
  std::string repoLoc;
  for (size_t i = callStack.size(); i-- > 0;) { std::string l = locOf(callStack[i]); if (repoLoc.empty() && l.compare(0, repoPrefix.size(), repoPrefix) == 0) repoLoc = l; v.stack.push_back(l + "  in " + shortFn(callStack[i]->getFunction())); }
  if (v.loc.compare(0, repoPrefix.size(), repoPrefix) != 0 && !repoLoc.empty()) v.msg += " [reached from " + repoLoc + "]";
  std::string key = rule + "|" + v.loc + "|" + repoLoc + "|" + msg + "|" + curEntry;
  if (!vioKeys.insert(key).second) return;
  if (m) { std::vector<std::string> t; for (TNode* n = m->tr.get(); n; n = n->parent.get()) t.push_back(locOf(n->site) + ": " + n->what); std::reverse(t.begin(), t.end()); v.trace = t; }
  violations.push_back(v);
}
[[noreturn]] static void bad(const Mem* m, const std::string& rule, const std::string& msg) { report(m, rule, msg); throw PathEnd(); }
[[noreturn]] static void incomplete(const std::string& why) { throw Incomplete{why + " at " + locOf(curInst) + (curInst ? " in " + shortFn(curInst->getFunction()) : "")}; }

static u32 globIndex(const GlobalVariable* g) { auto it = gidx.find(g); if (it != gidx.end()) return it->second; u32 i = gvars.size(); gvars.push_back(g); gidx[g] = i; return i; }
static Val funVal(Function* f) { auto it = fidx.find(f); if (it != fidx.end()) return Val{FUN, it->second, 0}; u32 i = funs.size(); funs.push_back(f); fidx[f] = i; return Val{FUN, i, 0}; }
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static u64 maskTo(u64 v, unsigned w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
static int64_t sextFrom(u64 v, unsigned w) { if (w >= 64) return (int64_t)v; u64 m = 1ull << (w - 1); v = maskTo(v, w); return (int64_t)((v ^ m) - m); }

static Val binop(unsigned op, unsigned w, Val a, Val b); static Val icmpVal(CmpInst::Predicate p, unsigned w, Val a, Val b, const Mem* m); static Val castVal(unsigned op, unsigned sw, unsigned dw, Val a);
static Val constVal(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() <= 64) return mkInt(ci->getZExtValue()); return mkTerm(OP_EXTERN, ci->getBitWidth(), {mkInt(ci->getValue().getLoBits(64).trunc(64).getZExtValue()), mkInt(ci->getValue().lshr(64).trunc(64).getZExtValue())}); }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return mkInt(a.getZExtValue()); return mkTerm(OP_FP, 80, {mkInt(a.getRawData()[0])}); }
  if (isa<ConstantPointerNull>(C)) return mkInt(0);
  if (isa<UndefValue>(C)) return mkUndef();
  if (auto* g = dyn_cast<GlobalVariable>(C)) return mkPtr(GBASE | globIndex(g), 0);
  if (auto* f = dyn_cast<Function>(C)) return funVal(const_cast<Function*>(f));
  if (auto* al = dyn_cast<GlobalAlias>(C)) return constVal(al->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); Val b = constVal(ce->getOperand(0)); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { b.v += off.getSExtValue(); return b; } }
    if (ce->isCast()) return castVal(ce->getOpcode(), bitsOf(ce->getOperand(0)->getType()), bitsOf(ce->getType()), constVal(ce->getOperand(0)));
    if (Instruction::isBinaryOp(ce->getOpcode())) return binop(ce->getOpcode(), bitsOf(ce->getType()), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
    incomplete("unsupported constant expression");
  }
  if (isa<ConstantAggregate>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantDataSequential>(C)) {
    std::vector<Val> vs; unsigned n = isa<StructType>(C->getType()) ? C->getType()->getStructNumElements() : isa<ArrayType>(C->getType()) ? C->getType()->getArrayNumElements() : cast<FixedVectorType>(C->getType())->getNumElements();
    for (unsigned i = 0; i < n; i++) vs.push_back(constVal(C->getAggregateElement(i))); return mkAgg(vs);
  }
  incomplete("unsupported constant");
}
static void putCell(Region* r, u32 off, u32 size, Val v);
static void flatten(Region* r, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<UndefValue>(C)) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(r, off + sl->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(r, off + i * es, C->getAggregateElement(i)); return; }
  r->cells.push_back(Cell{(u32)off, (u32)DL->getTypeStoreSize(t).getFixedValue(), constVal(C)});
}
static RP globInitRegion(u32 gi) {
  auto it = ginit.find(gi); if (it != ginit.end()) return it->second;
  const GlobalVariable* g = gvars[gi]; Region* r = new Region; r->kind = R_GLOBAL; RP rp(r);
  r->size = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 8; r->align = g->getAlign() ? g->getAlign()->value() : 16;
  if (g->hasInitializer()) { flatten(r, 0, g->getInitializer()); std::sort(r->cells.begin(), r->cells.end(), [](const Cell& a, const Cell& b) { return a.off < b.off; }); }
  ginit[gi] = rp; return rp;
}
static bool ghostGlobal(u32 gi) { return gvars[gi]->getName().starts_with("vsa_"); }

// ---------------------------------------------------------------- region access
static RP& regRef(Mem& m, u32 r, bool forWrite) {
  if (r == DEADREG) bad(&m, "LIFETIME", "access through a pointer to storage whose lifetime has ended");
  if (isGlob(r)) {
    u32 gi = r & ~GBASE;
    for (auto& g : m.globs) if (g.first == gi) return g.second;
    RP init = globInitRegion(gi);
    if (!forWrite) { static thread_local RP tmp; tmp = init; return tmp; }
    if (gvars[gi]->isConstant()) bad(&m, "MEMORY", "write to constant global " + gvars[gi]->getName().str());
    auto pos = std::lower_bound(m.globs.begin(), m.globs.end(), gi, [](const std::pair<u32, RP>& a, u32 b) { return a.first < b; });
    return m.globs.insert(pos, {gi, init})->second;
  }
  if (r >= m.regs.size()) incomplete("internal: region id out of range");
  return m.regs[r];
}
static const Region& checkAccess(Mem& m, Val p, u64 size, const char* what) {
  obligations["memory-access"]++;
  if (p.k == UNDEF) bad(&m, "UNINIT", std::string(what) + " through an uninitialised pointer");
  if (p.k == INT) bad(&m, "NULL", std::string(what) + " through a null/invalid pointer");
  if (p.k == FUN) incomplete("data access to function address");
  if (p.k != PTR) incomplete(std::string(what) + " through an untracked pointer value");
  if (p.r == DEADREG) bad(&m, "LIFETIME", std::string(what) + " through a pointer to storage whose lifetime has ended");
  const Region& r = *regRef(m, p.r, false).p;
  if (r.dead) bad(&m, "LIFETIME", std::string(what) + (r.kind == R_HEAP ? " of freed heap memory" : " of storage whose lifetime has ended"));
  if (isGlob(p.r) && !gvars[p.r & ~GBASE]->hasInitializer()) { if (gvars[p.r & ~GBASE]->isDeclaration()) incomplete("access to external global " + gvars[p.r & ~GBASE]->getName().str()); }
  if ((int64_t)p.v < 0 || p.v + size > r.size) bad(&m, "BOUNDS", std::string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string((int64_t)p.v) + " of a " + std::to_string(r.size) + "-byte object");
  return r;
}
static void notePtr(Region* r, const Val& v) {
  if (v.k == PTR && !isGlob(v.r) && v.r != DEADREG) r->maxPtr = std::max(r->maxPtr, v.r + 1);
  else if (v.k == AGG || v.k == BYTES) for (auto& x : aggs[v.r]) notePtr(r, x);
  else if (v.k == TERM) for (auto& x : terms[v.r].args) if (x.k == PTR || x.k == TERM) notePtr(r, x);
}
// remove cells overlapping [off,off+size); split partially covered constant cells
static void clearCells(Region* r, u64 off, u64 size) {
  std::vector<Cell> out; bool hit = false;
  for (auto& c : r->cells) if (c.off < off + size && off < (u64)c.off + c.size) { hit = true; break; }
  if (!hit) return;
  for (auto& c : r->cells) {
    if (!(c.off < off + size && off < (u64)c.off + c.size)) { out.push_back(c); continue; }
    if (c.v.k == INT) for (u32 i = 0; i < c.size; i++) { u64 o = c.off + i; if (o < off || o >= off + size) out.push_back(Cell{(u32)o, 1, mkInt((c.v.v >> (8 * i)) & 255)}); }
  }
  r->cells.swap(out);
}
static void putCell(Region* r, u32 off, u32 size, Val v) {
  clearCells(r, off, size);
  if (v.k == UNDEF) return;
  if (v.k == BYTES) { auto& b = aggs[v.r]; std::vector<Val> bb = b; for (size_t i = 0; i + 2 < bb.size(); i += 3) if (bb[i].v + bb[i + 1].v <= size) putCell(r, off + bb[i].v, bb[i + 1].v, bb[i + 2]); return; }
  auto it = std::lower_bound(r->cells.begin(), r->cells.end(), off, [](const Cell& a, u32 o) { return a.off < o; });
  r->cells.insert(it, Cell{off, size, v}); notePtr(r, v);
}
static Val loadCells(const Region& r, u64 off, u64 size) {
  auto it = std::lower_bound(r.cells.begin(), r.cells.end(), off, [](const Cell& a, u64 o) { return a.off < o; });
  if (it != r.cells.end() && it->off == off && it->size == size) return it->v;
  // mixed
  std::vector<Cell> parts;
  for (auto& c : r.cells) if (c.off < off + size && off < (u64)c.off + c.size) {
    if (c.off >= off && c.off + c.size <= off + size) parts.push_back(Cell{(u32)(c.off - off), c.size, c.v});
    else if (c.v.k == INT) { for (u32 i = 0; i < c.size; i++) { u64 o = c.off + i; if (o >= off && o < off + size) parts.push_back(Cell{(u32)(o - off), 1, mkInt((c.v.v >> (8 * i)) & 255)}); } }
    else if (c.v.k == TERM && c.off <= off && off + size <= c.off + (u64)c.size) return mkTerm(OP_CAST + 90, size * 8, {c.v, mkInt(off - c.off)});
  }
  if (parts.empty()) return mkUndef();
  u64 cov = 0; bool allInt = true; u64 v = 0;
  for (auto& p : parts) { cov += p.size; if (p.v.k != INT) allInt = false; else if (p.off < 8) v |= maskTo(p.v.v, p.size * 8) << (8 * p.off); }
  if (allInt && cov == size && size <= 8) return mkInt(v);
  std::vector<Val> b; for (auto& p : parts) { b.push_back(mkInt(p.off)); b.push_back(mkInt(p.size)); b.push_back(p.v); }
  return mkBytes(b);
}
static void checkAligned(Mem& m, Val p, u64 al, const char* what) {
  if (p.k != PTR || p.r == DEADREG || al <= 1) return;
  obligations["access-alignment"]++;
  const Region& r = *regRef(m, p.r, false).p;
  if (p.v % al || al > r.align) bad(&m, "ALIGNMENT", std::string(what) + " needs alignment " + std::to_string(al) + " but is at offset " + std::to_string((u64)p.v) + " of storage aligned to " + std::to_string(r.align));
}
static Val loadVal(Mem& m, Val p, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> vs; auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.v += (u64)sl->getElementOffset(i); vs.push_back(loadVal(m, q, st->getElementType(i))); } return mkAgg(vs); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> vs; u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) { Val q = p; q.v += i * es; vs.push_back(loadVal(m, q, at->getElementType())); } return mkAgg(vs); }
  u64 sz = DL->getTypeStoreSize(t).getFixedValue();
  const Region& r = checkAccess(m, p, sz, "read");
  Val v = loadCells(r, p.v, sz);
  if (v.k == INT) { unsigned w = bitsOf(t); if (w && w < 64) v.v = maskTo(v.v, w); }
  return v;
}
static void checkWritable(Mem& m, Val p, u64 size, const Region& r, const char* what) {
  for (auto& f : r.frozen) if (p.v < f.first + (u64)f.second && f.first < p.v + size) bad(&m, "CONST-WRITE", std::string(what) + " modifies an operand that this operation must leave untouched");
  if (m.freezeDepth && isGlob(p.r) && !ghostGlobal(p.r & ~GBASE)) bad(&m, "CONST-WRITE", std::string(what) + " modifies global state " + gvars[p.r & ~GBASE]->getName().str() + " inside an operation that must be read-only");
}
// the compiler's own stores of a class's vtable pointer in constructors and destructors
static bool isVtablePtr(const Val& v) { return v.k == PTR && isGlob(v.r) && gvars[v.r & ~GBASE]->getName().starts_with("_ZTV"); }
static void storeRaw(Mem& m, Val p, u64 sz, Val v, const char* what) {
  const Region& r0 = checkAccess(m, p, sz, what); checkWritable(m, p, sz, r0, what);
  obligations["no-clobber"]++;
  for (auto& o : r0.objs) if (o.off < p.v + sz && p.v < (u64)o.off + o.size && !isVtablePtr(v)) bad(&m, "CLOBBER", std::string(what) + " overwrites a live bounded object (its destructor has not run)");
  Region* r = regRef(m, p.r, true).own(); putCell(r, p.v, sz, v);
}
static void storeVal(Mem& m, Val p, Val v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.v += (u64)sl->getElementOffset(i); storeVal(m, q, v.k == AGG ? aggs[v.r][i] : mkUndef(), st->getElementType(i)); } return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) { Val q = p; q.v += i * es; storeVal(m, q, v.k == AGG ? aggs[v.r][i] : mkUndef(), at->getElementType()); } return; }
  storeRaw(m, p, DL->getTypeStoreSize(t).getFixedValue(), v, "store");
}
static u32 newRegion(Mem& m, RK k, u64 size, u32 align) { Region* r = new Region; r->kind = k; r->size = size; r->align = align; r->site = curInst; m.regs.push_back(RP(r)); return m.regs.size() - 1; }

// ---------------------------------------------------------------- renaming of regions / symbols
struct Renamer {
  std::vector<u32> map; bool syms = false; std::map<u32, Val> tokMap; u32 base = 0;
  std::unordered_map<u32, Val> aggCache;
  Val val(const Val& v) {
    switch (v.k) {
      case PTR: if (v.r == DEADREG || isGlob(v.r)) return v; if (v.r >= base && v.r - base < map.size()) { u32 n = map[v.r - base]; return mkPtr(n, n == DEADREG ? 0 : v.v); } return v;
      case AGG: case BYTES: { std::vector<Val> vs = aggs[v.r]; bool ch = false; for (auto& x : vs) { Val y = val(x); if (y != x) ch = true; x = y; } if (!ch) return v; return v.k == AGG ? mkAgg(vs) : mkBytes(vs); }
      case TERM: {
        if (syms) return tokMap.emplace(v.r, mkSym(0)).first->second;   // caller pre-fills tokMap
        std::vector<Val> vs = terms[v.r].args; bool ch = false; for (auto& x : vs) { Val y = val(x); if (y != x) ch = true; x = y; } if (!ch) return v; u32 op = terms[v.r].op, w = terms[v.r].width; return mkTerm(op, w, vs);
      }
      default: return v;
    }
  }
  void region(RP& rp) {
    Region* r = rp.own(); r->maxPtr = 0;
    for (auto& c : r->cells) { c.v = val(c.v); notePtr(r, c.v); }
    for (auto& o : r->objs) { o.tok = val(o.tok); notePtr(r, o.tok); }
    r->dtor = val(r->dtor);
  }
};
static void endStorage(Mem& m, const Region& r, const char* what) {
  obligations["destroyed-before-storage-ends"]++;
  if (!r.objs.empty()) bad(&m, "LEAK-OBJECT", std::string(what) + " while a bounded object (type " + std::to_string(r.objs[0].type) + ") inside is still alive: its destructor never runs");
}
// pop the frame: all regions >= base that are allocas die; compact the survivors
static void popFrame(Mem& m, u32 base, Val& ret, bool unwind, u32& exn) {
  if (m.regs.size() <= base) return;
  Renamer rn; rn.base = base; u32 n = base; std::vector<RP> keep;
  for (u32 i = base; i < m.regs.size(); i++) {
    Region* r = m.regs[i].p; bool die = r->kind == R_ALLOCA || r->dead;
    if (r->kind == R_ALLOCA && !r->dead) endStorage(m, *r, "storage of a local variable or temporary ends");
    if (die) rn.map.push_back(DEADREG); else { rn.map.push_back(n++); keep.push_back(m.regs[i]); }
  }
  bool same = keep.size() == m.regs.size() - base; if (same) return;
  m.regs.resize(base); for (auto& k : keep) m.regs.push_back(std::move(k)); keep.clear();
  for (auto& r : m.regs) if (r->maxPtr > base) rn.region(r);
  for (auto& g : m.globs) if (g.second->maxPtr > base) rn.region(g.second);
  for (auto& f : m.facts) f.first = rn.val(f.first);
  ret = rn.val(ret);
  for (auto& c : m.caught) if (c >= base && c - base < rn.map.size()) c = rn.map[c - base];
  if (unwind && exn >= base && exn - base < rn.map.size()) exn = rn.map[exn - base];
}

// ---------------------------------------------------------------- facts / truth
struct Truth { bool known; bool value; Val base; bool neg; };
static Truth truthOf(const Mem& m, Val c) {
  bool neg = false;
  for (;;) {
    if (c.k == INT) return Truth{true, (c.v != 0) != neg, c, false};
    if (c.k == PTR || c.k == FUN) return Truth{true, !neg, c, false};
    if (c.k != TERM) return Truth{false, false, c, neg};
    TermNode& t = terms[c.r];
    if (t.op == OP_ICMP + CmpInst::ICMP_EQ && t.args[1].k == INT && t.args[1].v == 0) { neg = !neg; c = t.args[0]; continue; }
    if (t.op == OP_ICMP + CmpInst::ICMP_NE && t.args[1].k == INT && t.args[1].v == 0) { c = t.args[0]; continue; }
    if (t.op == OP_CAST + Instruction::ZExt || t.op == OP_CAST + Instruction::SExt) { c = t.args[0]; continue; }
    if (t.op == OP_BIN + Instruction::Xor && t.width == 1 && t.args[1].k == INT && t.args[1].v == 1) { neg = !neg; c = t.args[0]; continue; }
    break;
  }
  for (auto& f : m.facts) if (f.first == c) return Truth{true, (f.second != 0) != neg, c, false};
  return Truth{false, false, c, neg};
}
static void addFact(Mem& m, Val base, int v) {
  auto it = std::lower_bound(m.facts.begin(), m.facts.end(), base, [](const std::pair<Val, int>& a, const Val& b) { return a.first < b; });
  m.facts.insert(it, {base, v});
}

// ---------------------------------------------------------------- operators
static bool isBoolTerm(Val a) {     // 0/1 valued
  if (a.k != TERM) return false; TermNode& t = terms[a.r]; if (t.width == 1) return true;
  if (t.op >= OP_ICMP && t.op < OP_ICMP + 100) return true;
  if (t.op == OP_CAST + Instruction::ZExt) return isBoolTerm(t.args[0]); return false;
}
static Val castVal(unsigned op, unsigned sw, unsigned dw, Val a) {
  switch (op) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      if (a.k == INT) return mkInt(maskTo(a.v, dw ? dw : 64)); return a;
    case Instruction::Trunc: if (a.k == INT) return mkInt(maskTo(a.v, dw));
      if (a.k == UNDEF) return a;
      if (a.k == TERM && isBoolTerm(a)) { TermNode& t = terms[a.r]; if (t.op == OP_CAST + Instruction::ZExt) { Val in = t.args[0]; u32 iw = in.k == TERM ? terms[in.r].width : 64; if (iw == dw) return in; if (iw > dw) return castVal(Instruction::Trunc, iw, dw, in); return castVal(Instruction::ZExt, iw, dw, in); } }
      if (a.k == BYTES) { auto& b = aggs[a.r]; for (size_t i = 0; i + 2 < b.size(); i += 3) if (b[i].v == 0 && b[i + 1].v * 8 == dw) return b[i + 2]; }
      if (a.k == TERM) { TermNode& t = terms[a.r]; if (t.op == OP_CAST + Instruction::ZExt || t.op == OP_CAST + Instruction::SExt) { Val in = t.args[0]; if (in.k == TERM && terms[in.r].width == dw) return in; } }
      return mkTerm(OP_CAST + op, dw, {a});
    case Instruction::ZExt: if (a.k == INT) return mkInt(maskTo(a.v, sw)); if (a.k == UNDEF) return a; return mkTerm(OP_CAST + op, dw, {a});
    case Instruction::SExt: if (a.k == INT) return mkInt(maskTo((u64)sextFrom(a.v, sw), dw)); if (a.k == UNDEF) return a; return mkTerm(OP_CAST + op, dw, {a});
    default: if (a.k == UNDEF) return a;
      if (a.k == INT) {
        auto asD = [&](u64 bits, unsigned w) { if (w == 32) { float f; u32 x = bits; memcpy(&f, &x, 4); return (double)f; } double d; memcpy(&d, &bits, 8); return d; };
        auto fromD = [&](double d, unsigned w) -> u64 { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; };
        if (op == Instruction::FPExt || op == Instruction::FPTrunc) return mkInt(fromD(asD(a.v, sw), dw));
        if (op == Instruction::SIToFP) return mkInt(fromD((double)sextFrom(a.v, sw), dw));
        if (op == Instruction::UIToFP) return mkInt(fromD((double)a.v, dw));
        if (op == Instruction::FPToSI) return mkInt(maskTo((u64)(int64_t)asD(a.v, sw), dw));
        if (op == Instruction::FPToUI) return mkInt(maskTo((u64)asD(a.v, sw), dw));
      }
      return mkTerm(OP_CAST + op, dw, {a});
  }
}
static Val binop(unsigned op, unsigned w, Val a, Val b) {
  if (a.k == INT && b.k == INT) {
    u64 x = maskTo(a.v, w), y = maskTo(b.v, w);
    switch (op) {
      case Instruction::Add: return mkInt(maskTo(x + y, w)); case Instruction::Sub: return mkInt(maskTo(x - y, w)); case Instruction::Mul: return mkInt(maskTo(x * y, w));
      case Instruction::And: return mkInt(x & y); case Instruction::Or: return mkInt(x | y); case Instruction::Xor: return mkInt(x ^ y);
      case Instruction::Shl: return y >= w ? mkUndef() : mkInt(maskTo(x << y, w)); case Instruction::LShr: return y >= w ? mkUndef() : mkInt(x >> y);
      case Instruction::AShr: return y >= w ? mkUndef() : mkInt(maskTo((u64)(sextFrom(x, w) >> y), w));
      case Instruction::UDiv: if (!y) return mkUndef(); return mkInt(x / y); case Instruction::URem: if (!y) return mkUndef(); return mkInt(x % y);
      case Instruction::SDiv: if (!y) return mkUndef(); return mkInt(maskTo((u64)(sextFrom(x, w) / sextFrom(y, w)), w));
      case Instruction::SRem: if (!y) return mkUndef(); return mkInt(maskTo((u64)(sextFrom(x, w) % sextFrom(y, w)), w));
    }
    return mkTerm(OP_BIN + op, w, {a, b});
  }
  if (a.k == UNDEF || b.k == UNDEF) { if (op == Instruction::And && ((a.k == INT && a.v == 0) || (b.k == INT && b.v == 0))) return mkInt(0); return mkUndef(); }
  if (a.k == PTR && b.k == INT && (op == Instruction::Add || op == Instruction::Sub)) { a.v = op == Instruction::Add ? a.v + b.v : a.v - b.v; return a; }
  if (b.k == PTR && a.k == INT && op == Instruction::Add) { b.v += a.v; return b; }
  if (a.k == PTR && b.k == PTR && op == Instruction::Sub && a.r == b.r) return mkInt(a.v - b.v);
  if (b.k == INT) {
    if (b.v == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) return a;
    if (op == Instruction::And && b.v == 0) return b;
    if (op == Instruction::And && b.v == 1 && isBoolTerm(a)) return a;
    if (op == Instruction::And && a.k == TERM && maskTo(~0ull, w) == b.v) return a;
    if (op == Instruction::Or && b.v == 1 && w == 1) return b;
    if (op == Instruction::Xor && b.v == 1 && w == 1 && a.k == TERM) { TermNode& t = terms[a.r]; if (t.op == OP_BIN + Instruction::Xor && t.args[1].k == INT && t.args[1].v == 1) return t.args[0]; }
  }
  if (a.k == INT && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add || op == Instruction::Mul)) return binop(op, w, b, a);
  if (a == b) { if (op == Instruction::Xor || op == Instruction::Sub) return mkInt(0); if (op == Instruction::And || op == Instruction::Or) return a; }
  // commutative normal form
  if ((op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && b.k == TERM && a.k == TERM && b.r < a.r) std::swap(a, b);
  return mkTerm(OP_BIN + op, w, {a, b});
}
static Val icmpVal(CmpInst::Predicate p, unsigned w, Val a, Val b, const Mem* m) {
  if (a.k == UNDEF || b.k == UNDEF) return mkUndef();
  auto B = [](bool x) { return mkInt(x ? 1 : 0); };
  if (a.k == INT && b.k == INT) {
    u64 x = maskTo(a.v, w), y = maskTo(b.v, w); int64_t sx = sextFrom(x, w), sy = sextFrom(y, w);
    switch (p) { case CmpInst::ICMP_EQ: return B(x == y); case CmpInst::ICMP_NE: return B(x != y); case CmpInst::ICMP_UGT: return B(x > y); case CmpInst::ICMP_UGE: return B(x >= y); case CmpInst::ICMP_ULT: return B(x < y); case CmpInst::ICMP_ULE: return B(x <= y);
      case CmpInst::ICMP_SGT: return B(sx > sy); case CmpInst::ICMP_SGE: return B(sx >= sy); case CmpInst::ICMP_SLT: return B(sx < sy); case CmpInst::ICMP_SLE: return B(sx <= sy); default: break; }
  }
  if (a == b) switch (p) { case CmpInst::ICMP_EQ: case CmpInst::ICMP_UGE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_SLE: return B(true); default: return B(false); }
  bool aa = a.k == PTR || a.k == FUN, bb = b.k == PTR || b.k == FUN;
  if (aa && bb) {
    if (a.k == PTR && b.k == PTR && a.r == b.r) return icmpVal(p, 64, mkInt(a.v), mkInt(b.v), m);
    if (p == CmpInst::ICMP_EQ) return B(false); if (p == CmpInst::ICMP_NE) return B(true);
    // unrelated pointers: order is unspecified but total
    return mkTerm(OP_ICMP + p, 1, {a, b});
  }
  if ((aa && b.k == INT) || (bb && a.k == INT)) {
    if (p == CmpInst::ICMP_EQ) return B(false); if (p == CmpInst::ICMP_NE) return B(true);
    if (b.k == INT && b.v == 0) { if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE) return B(true); if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) return B(false); }
  }
  // normalise
  if (p == CmpInst::ICMP_NE && b.k == INT && b.v == 0 && a.k == TERM && terms[a.r].width == 1) return a;
  if (a.k == INT && b.k != INT) return icmpVal(CmpInst::getSwappedPredicate(p), w, b, a, m);
  if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && b < a && b.k != INT) std::swap(a, b);
  if (p == CmpInst::ICMP_NE) { Val e = mkTerm(OP_ICMP + CmpInst::ICMP_EQ, 1, {a, b}); if (b.k == INT && b.v == 0) return mkTerm(OP_ICMP + CmpInst::ICMP_NE, 1, {a, b}); return mkTerm(OP_BIN + Instruction::Xor, 1, {e, mkInt(1)}); }
  if (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGT) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
  if (p == CmpInst::ICMP_SGE) { Val e = icmpVal(CmpInst::ICMP_SLT, w, a, b, m); return binop(Instruction::Xor, 1, e, mkInt(1)); }
  if (p == CmpInst::ICMP_UGE) { Val e = icmpVal(CmpInst::ICMP_ULT, w, a, b, m); return binop(Instruction::Xor, 1, e, mkInt(1)); }
  if (p == CmpInst::ICMP_SLE) { Val e = icmpVal(CmpInst::ICMP_SLT, w, b, a, m); return binop(Instruction::Xor, 1, e, mkInt(1)); }
  if (p == CmpInst::ICMP_ULE) { Val e = icmpVal(CmpInst::ICMP_ULT, w, b, a, m); return binop(Instruction::Xor, 1, e, mkInt(1)); }
  return mkTerm(OP_ICMP + p, 1, {a, b});
}

// ---------------------------------------------------------------- per-function info
struct FInfo {
  std::unordered_map<const Value*, u32> slot; u32 n = 0;
  std::unordered_map<const BasicBlock*, u32> rpo; std::unordered_map<const BasicBlock*, std::vector<u32>> livein;
  bool inRepo = false; std::string file;
};
static std::unordered_map<const Function*, std::unique_ptr<FInfo>> finfos;
static FInfo& finfo(Function* F) {
  auto& p = finfos[F]; if (p) return *p; p.reset(new FInfo); FInfo& f = *p;
  for (auto& a : F->args()) f.slot[&a] = f.n++;
  for (auto& bb : *F) for (auto& i : bb) if (!i.getType()->isVoidTy()) f.slot[&i] = f.n++;
  u32 k = 0; ReversePostOrderTraversal<Function*> rpot(F); std::vector<BasicBlock*> order; for (auto* bb : rpot) { f.rpo[bb] = k++; order.push_back(bb); }
  std::unordered_map<const BasicBlock*, std::vector<char>> in; for (auto* bb : order) in[bb].assign(f.n, 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = order.size(); i-- > 0;) { BasicBlock* bb = order[i]; std::vector<char> live(f.n, 0);
      for (auto* s : successors(bb)) { if (!f.rpo.count(s)) continue; auto& si = in[s]; std::vector<char> tmp = si; 
        for (auto& ph : s->phis()) { /* phi defs are live-in values of s (evaluated at edge) -> not live out of bb */ tmp[f.slot[&ph]] = 0; }
        for (u32 j = 0; j < f.n; j++) live[j] |= tmp[j];
        for (auto& ph : s->phis()) { Value* v = ph.getIncomingValueForBlock(bb); auto it = f.slot.find(v); if (it != f.slot.end()) live[it->second] = 1; } }
      for (auto it = bb->rbegin(); it != bb->rend(); ++it) { Instruction& I = *it; if (isa<PHINode>(I)) continue; auto d = f.slot.find(&I); if (d != f.slot.end()) live[d->second] = 0;
        for (auto& op : I.operands()) { auto u = f.slot.find(op.get()); if (u != f.slot.end()) live[u->second] = 1; } }
      // phis of bb are treated as live-in
      for (auto& ph : bb->phis()) live[f.slot[&ph]] = 1;
      if (live != in[bb]) { in[bb] = live; ch = true; } } }
  for (auto* bb : order) { auto& v = f.livein[bb]; for (u32 j = 0; j < f.n; j++) if (in[bb][j]) v.push_back(j); }
  if (auto* sp = F->getSubprogram()) { std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; f.file = fn; f.inRepo = fn.compare(0, repoPrefix.size(), repoPrefix) == 0; }
  return f;
}

// ---------------------------------------------------------------- typeinfo matching
static const GlobalVariable* tiOf(Val v) { if (v.k == PTR && isGlob(v.r) && v.v == 0) return gvars[v.r & ~GBASE]; return nullptr; }
static bool tiDerives(const GlobalVariable* d, const GlobalVariable* b, u64& off, int depth = 0) {
  if (d == b || d->getName() == b->getName()) return true;
  if (!d->hasInitializer() || depth > 10) { // well-known std hierarchy
    StringRef dn = d->getName(), bn = b->getName();
    if ((dn == "_ZTISt9bad_alloc" || dn == "_ZTISt8bad_cast" || dn == "_ZTISt13runtime_error" || dn == "_ZTISt11logic_error" || dn == "_ZTISt10bad_typeid") && bn == "_ZTISt9exception") return true;
    return false; }
  auto* cs = dyn_cast<ConstantStruct>(d->getInitializer()); if (!cs) return false;
  Val vt = constVal(cs->getOperand(0)); StringRef vn = (vt.k == PTR && isGlob(vt.r)) ? gvars[vt.r & ~GBASE]->getName() : StringRef();
  if (vn.contains("si_class_type_info")) { auto* base = dyn_cast<GlobalVariable>(cs->getOperand(2)); return base && tiDerives(base, b, off, depth + 1); }
  if (vn.contains("vmi_class_type_info")) {
    u64 n = constVal(cs->getOperand(3)).v;
    for (u64 i = 0; i < n; i++) { auto* base = dyn_cast<GlobalVariable>(cs->getOperand(4 + 2 * i)); int64_t fl = (int64_t)constVal(cs->getOperand(5 + 2 * i)).v; if (!base) continue;
      u64 o = 0; if (tiDerives(base, b, o, depth + 1)) { if (fl & 1) continue; off += o + (fl >> 8); return true; } } }
  return false;
}
static bool catchMatch(Val thrown, Val clause, u64& adj) {
  if (clause.k == INT && clause.v == 0) { adj = 0; return true; }
  const GlobalVariable *t = tiOf(thrown), *c = tiOf(clause); if (!t || !c) incomplete("untracked type_info in exception matching");
  u64 o = 0; if (tiDerives(t, c, o)) { adj = o; return true; } return false;
}
static std::map<std::string, u32> tiIds;
static u32 tiId(Val v) { std::string n = (v.k == INT) ? "..." : tiOf(v) ? tiOf(v)->getName().str() : "?"; auto it = tiIds.find(n); if (it != tiIds.end()) return it->second; u32 i = tiIds.size() + 1; tiIds[n] = i; return i; }

// ---------------------------------------------------------------- engine
struct State { BasicBlock* bb; BasicBlock::iterator it; std::vector<Val> env; Mem mem; };
static void execFunction(Function* F, std::vector<Val> args, Mem mem, std::vector<Outcome>& outs);
static void callExternal(CallBase& CB, Function* F, std::vector<Val>& args, Mem& mem, std::vector<Outcome>& outs);
static const unsigned maxDepth = 700;
static std::vector<std::pair<Function*, H128>> activation;

static std::string cstr(Mem& m, Val p) { std::string s; for (int i = 0; i < 300; i++) { Val q = p; q.v += i; const Region& r = checkAccess(m, q, 1, "read"); Val c = loadCells(r, q.v, 1); if (c.k != INT || !c.v) break; s += (char)c.v; } return s; }

static void callValue(CallBase& CB, Val callee, std::vector<Val>& args, Mem& mem, std::vector<Outcome>& outs) {
  if (callee.k == UNDEF) bad(&mem, "UNINIT", "call through an uninitialised function pointer");
  if (callee.k == INT) bad(&mem, "NULL", "call through a null function pointer");
  if (callee.k != FUN) incomplete("call through an untracked function pointer");
  Function* F = funs[callee.r];
  callStack.push_back(&CB); const Instruction* save = curInst;
  struct Pop { const Instruction* s; ~Pop() { callStack.pop_back(); curInst = s; } } pop{save};
  bool model = F->isDeclaration() || F->getName().starts_with("vsa_") || F->getName() == "_ZNSt9exceptionD2Ev";
  if (F->getName() == "__clang_call_terminate") bad(&mem, "TERMINATE", "an exception reaches a noexcept boundary: std::terminate is called");
  if (F->getName() == "vsa_throw_bad_alloc_impl") model = false;
  if (model) { callExternal(CB, F, args, mem, outs); return; }
  if (callStack.size() > maxDepth) incomplete("call depth bound exceeded");
  execFunction(F, args, std::move(mem), outs);
}

static void execFunction(Function* F, std::vector<Val> args, Mem mem0, std::vector<Outcome>& outs) {
  FInfo& fi = finfo(F); visitedFns.insert(F);
  // definite infinite recursion: same function, same arguments, same abstract memory already active
  Hasher ah; for (auto& a : args) ah.add(a); ah.add(mem0.hash()); H128 key = ah.get();
  for (auto& a : activation) if (a.first == F && a.second == key) bad(&mem0, "DIVERGE", "unbounded recursion: " + shortFn(F) + " calls itself with an identical abstract state");
  activation.push_back({F, key}); struct AP { ~AP() { activation.pop_back(); } } ap;
  u32 base = mem0.regs.size();
  std::unordered_set<H128, HH> outSeen;
  std::unordered_map<const BasicBlock*, std::unordered_set<H128, HH>> seen;
  struct QE { u32 rpo; u64 seq; State* s; bool operator<(const QE& o) const { return rpo != o.rpo ? rpo > o.rpo : seq > o.seq; } };
  std::priority_queue<QE> q; u64 seq = 0;
  struct QClean { std::priority_queue<QE>& q; ~QClean() { while (!q.empty()) { delete q.top().s; q.pop(); } } } qc{q};
  { State* s = new State; s->bb = &F->getEntryBlock(); s->it = s->bb->begin(); s->env.resize(fi.n); for (u32 i = 0; i < args.size() && i < F->arg_size(); i++) s->env[i] = args[i]; s->mem = std::move(mem0); q.push(QE{0, seq++, s}); }
  auto emit = [&](Mem&& m, Val ret, bool unwind, u32 exn) {
    if (unwind && F->doesNotThrow()) bad(&m, "TERMINATE", "an exception escapes a function declared noexcept: " + shortFn(F));
    popFrame(m, base, ret, unwind, exn);
    Hasher h; h.add(m.hash()); h.add(ret); h.add(unwind); h.add(exn);
    if (!outSeen.insert(h.get()).second) { nMerged++; return; }
    Outcome o; o.mem = std::move(m); o.ret = ret; o.unwind = unwind; o.exn = exn; outs.push_back(std::move(o));
  };
  auto edge = [&](State&& s, BasicBlock* from, BasicBlock* to) {
    std::vector<std::pair<u32, Val>> ph;
    for (auto& p : to->phis()) { Value* v = p.getIncomingValueForBlock(from); auto it = fi.slot.find(v); ph.push_back({fi.slot[&p], it != fi.slot.end() ? s.env[it->second] : constVal(cast<Constant>(v))}); }
    for (auto& x : ph) s.env[x.first] = x.second;
    if (to->hasNPredecessorsOrMore(2)) { Hasher h; for (u32 j : fi.livein[to]) { h.add(j); h.add(s.env[j]); } h.add(s.mem.hash()); if (!seen[to].insert(h.get()).second) { nMerged++; return; } }
    nStates++;
    State* n = new State; n->bb = to; n->it = to->getFirstNonPHIIt(); n->env = std::move(s.env); n->mem = std::move(s.mem); q.push(QE{fi.rpo[to], seq++, n});
  };
  std::vector<State> work;
  while (!q.empty()) {
    { State* t = q.top().s; q.pop(); work.push_back(std::move(*t)); delete t; }
    while (!work.empty()) {
      State s = std::move(work.back()); work.pop_back();
      bool done = false;
      auto V = [&](Value* v) -> Val { auto it = fi.slot.find(v); if (it != fi.slot.end()) return s.env[it->second]; if (auto* c = dyn_cast<Constant>(v)) return constVal(c); if (isa<MetadataAsValue>(v)) return mkUndef(); incomplete("unsupported operand"); };
      auto forkBool = [&](Val c, const char* what, bool& val, auto contFalse) {
        if (c.k == UNDEF || c.k == BYTES || c.k == AGG) bad(&s.mem, "UNINIT", std::string(what) + " depends on an uninitialised value");
        Truth t = truthOf(s.mem, c); if (t.known) { val = t.value; return; }
        nForks++; State s2 = s; addFact(s2.mem, t.base, t.neg ? 1 : 0); s2.mem.tr = tpush(s2.mem.tr, curInst, "condition is false"); contFalse(std::move(s2));
        addFact(s.mem, t.base, t.neg ? 0 : 1); s.mem.tr = tpush(s.mem.tr, curInst, "condition is true"); val = true;
      };
      try {
        while (!done) {
          Instruction& I = *s.it; curInst = &I; nSteps++;
          if (nSteps > stepBudget) incomplete("step budget exhausted");
          if ((nSteps & 0xfffff) == 0) { double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (el > timeBudget) incomplete("time budget exhausted"); }
          if (fi.inRepo) visitedRepoInsts.insert(&I);
          auto set = [&](Val v) { s.env[fi.slot[&I]] = v; };
          switch (I.getOpcode()) {
            case Instruction::Alloca: {
              auto& A = cast<AllocaInst>(I); Val n = V(A.getArraySize()); if (n.k != INT) incomplete("dynamic alloca");
              u32 r = newRegion(s.mem, R_ALLOCA, DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue() * n.v, A.getAlign().value()); set(mkPtr(r, 0)); break; }
            case Instruction::Load: { auto& L = cast<LoadInst>(I); checkAligned(s.mem, V(L.getPointerOperand()), L.getAlign().value(), "read"); set(loadVal(s.mem, V(L.getPointerOperand()), L.getType())); break; }
            case Instruction::Store: { auto& S = cast<StoreInst>(I); checkAligned(s.mem, V(S.getPointerOperand()), S.getAlign().value(), "write"); storeVal(s.mem, V(S.getPointerOperand()), V(S.getValueOperand()), S.getValueOperand()->getType()); break; }
            case Instruction::GetElementPtr: {
              auto& G = cast<GetElementPtrInst>(I); Val b = V(G.getPointerOperand()); u64 off = 0; bool und = false; 
              for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Val ix = V(gi.getOperand());
                if (StructType* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(ix.v); continue; }
                if (ix.k == UNDEF) { und = true; continue; } if (ix.k != INT) incomplete("symbolic pointer arithmetic"); off += (u64)(sextFrom(ix.v, bitsOf(gi.getOperand()->getType())) * (int64_t)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue()); }
              if (und || b.k == UNDEF) set(mkUndef()); else if (b.k == PTR || b.k == INT) { if (b.r != DEADREG) b.v += off; set(b); } else if (b.k == FUN && off == 0) set(b); else if (off == 0) set(b); else incomplete("pointer arithmetic on an untracked pointer"); break; }
            case Instruction::ICmp: { auto& C = cast<ICmpInst>(I); set(icmpVal(C.getPredicate(), bitsOf(C.getOperand(0)->getType()), V(C.getOperand(0)), V(C.getOperand(1)), &s.mem)); break; }
            case Instruction::FCmp: { Val a = V(I.getOperand(0)), b = V(I.getOperand(1)); if (a.k == UNDEF || b.k == UNDEF) { set(mkUndef()); break; } set(mkTerm(OP_FP + 200 + cast<FCmpInst>(I).getPredicate(), 1, {a, b})); break; }
            case Instruction::FNeg: { Val a = V(I.getOperand(0)); set(a.k == UNDEF ? a : mkTerm(OP_FP + 100, bitsOf(I.getType()), {a})); break; }
            case Instruction::ExtractValue: { Val a = V(I.getOperand(0)); if (a.k == UNDEF) { set(a); break; } for (unsigned ix : cast<ExtractValueInst>(I).indices()) { if (a.k != AGG) incomplete("extractvalue of non-aggregate"); a = aggs[a.r][ix]; } set(a); break; }
            case Instruction::InsertValue: {
              auto& IV = cast<InsertValueInst>(I); if (IV.getNumIndices() != 1) incomplete("nested insertvalue"); Val a = V(I.getOperand(0)); unsigned n = isa<StructType>(I.getType()) ? I.getType()->getStructNumElements() : I.getType()->getArrayNumElements();
              std::vector<Val> vs = a.k == AGG ? aggs[a.r] : std::vector<Val>(n); vs[*IV.idx_begin()] = V(I.getOperand(1)); set(mkAgg(vs)); break; }
            case Instruction::Select: {
              Val c = V(I.getOperand(0)); Val a = V(I.getOperand(1)), b = V(I.getOperand(2)); if (a == b) { set(a); break; }
              bool v; u32 sl = fi.slot[&I]; auto nx = std::next(s.it); forkBool(c, "selection", v, [&](State&& s2) { s2.env[sl] = b; s2.it = nx; work.push_back(std::move(s2)); }); set(v ? a : b); break; }
            case Instruction::Freeze: set(V(I.getOperand(0))); break;
            case Instruction::Br: {
              auto& B = cast<BranchInst>(I); BasicBlock* from = s.bb; done = true;
              if (B.isUnconditional()) { edge(std::move(s), from, B.getSuccessor(0)); break; }
              Val c = V(B.getCondition()); bool v; forkBool(c, "branch", v, [&](State&& s2) { edge(std::move(s2), from, B.getSuccessor(1)); }); edge(std::move(s), from, B.getSuccessor(v ? 0 : 1)); break; }
            case Instruction::Switch: {
              auto& S = cast<SwitchInst>(I); Val c = V(S.getCondition()); BasicBlock* from = s.bb; done = true;
              if (c.k == UNDEF) bad(&s.mem, "UNINIT", "switch on an uninitialised value");
              if (c.k == INT) { unsigned w = bitsOf(S.getCondition()->getType()); BasicBlock* to = S.getDefaultDest(); for (auto& cs : S.cases()) if (maskTo(cs.getCaseValue()->getZExtValue(), w) == maskTo(c.v, w)) { to = cs.getCaseSuccessor(); break; } edge(std::move(s), from, to); break; }
              if (c.k == TERM) { // fork over every case
                for (auto& cs : S.cases()) { State s2 = s; Val e = icmpVal(CmpInst::ICMP_EQ, bitsOf(S.getCondition()->getType()), c, constVal(cs.getCaseValue()), &s.mem); Truth t = truthOf(s2.mem, e); if (t.known && !t.value) continue; if (!t.known) addFact(s2.mem, t.base, t.neg ? 0 : 1); edge(std::move(s2), from, cs.getCaseSuccessor()); }
                edge(std::move(s), from, S.getDefaultDest()); break; }
              incomplete("switch on an untracked value"); }
            case Instruction::Unreachable: bad(&s.mem, "UNREACHABLE", "control reaches a point the implementation declares unreachable (undefined behaviour)");
            case Instruction::Ret: {
              done = true; Val r; if (I.getNumOperands()) { r = V(I.getOperand(0)); if (r.k == UNDEF && F->hasRetAttribute(Attribute::NoUndef)) bad(&s.mem, "UNINIT", "an uninitialised value is returned from " + shortFn(F)); }
              emit(std::move(s.mem), r, false, 0); break; }
            case Instruction::Resume: { done = true; Val a = V(I.getOperand(0)); if (a.k != AGG || aggs[a.r][0].k != PTR) incomplete("resume of untracked exception"); u32 x = aggs[a.r][0].r; emit(std::move(s.mem), mkUndef(), true, x); break; }
            case Instruction::LandingPad: incomplete("landingpad reached without unwinding"); 
            case Instruction::Call: case Instruction::Invoke: {
              auto& CB = cast<CallBase>(I);
              if (isa<DbgInfoIntrinsic>(I)) break;
              if (CB.isInlineAsm()) incomplete("inline assembly");
              std::vector<Val> as; std::vector<u32> byv; for (unsigned i = 0; i < CB.arg_size(); i++) { Val a = V(CB.getArgOperand(i));
                if (a.k == UNDEF && CB.paramHasAttr(i, Attribute::NoUndef) && !isa<IntrinsicInst>(I)) bad(&s.mem, "UNINIT", "an uninitialised value is passed as an argument of " + (CB.getCalledFunction() ? shortFn(CB.getCalledFunction()) : std::string("a function")));
                if (CB.isByValArgument(i)) { Type* bt = CB.getParamByValType(i); u64 sz = DL->getTypeAllocSize(bt); u32 r = newRegion(s.mem, R_ALLOCA, sz, CB.getParamAlign(i) ? CB.getParamAlign(i)->value() : 8); const Region& src = checkAccess(s.mem, a, sz, "read"); std::vector<Cell> cs; for (auto& c : src.cells) if (c.off >= a.v && c.off + c.size <= a.v + sz) cs.push_back(Cell{(u32)(c.off - a.v), c.size, c.v}); Region* d = s.mem.regs[r].own(); for (auto& c : cs) putCell(d, c.off, c.size, c.v); d->how = 9; byv.push_back(r); a = mkPtr(r, 0); }
                as.push_back(a); }
              std::vector<Outcome> os;
              Val cv = CB.getCalledFunction() ? funVal(CB.getCalledFunction()) : V(CB.getCalledOperand());
              callValue(CB, cv, as, s.mem, os); curInst = &I;
              // continue with every outcome
              auto* II = dyn_cast<InvokeInst>(&I); BasicBlock* from = s.bb; done = true;
              for (size_t oi = 0; oi < os.size(); oi++) {
                State n; n.bb = s.bb; n.it = s.it; if (oi + 1 == os.size()) n.env = std::move(s.env); else n.env = s.env; n.mem = std::move(os[oi].mem);
                for (u32 r : byv) { Region* w = n.mem.regs[r].own(); w->dead = true; w->cells.clear(); w->maxPtr = 0; }
                try {
                  if (!os[oi].unwind) {
                    if (!I.getType()->isVoidTy()) n.env[fi.slot[&I]] = os[oi].ret;
                    if (II) edge(std::move(n), from, II->getNormalDest()); else { n.it = std::next(n.it); work.push_back(std::move(n)); }
                  } else {
                    u32 x = os[oi].exn;
                    if (CB.doesNotThrow()) { /* call site marked nounwind */ bad(&n.mem, "TERMINATE", "an exception escapes from a call that must not throw: " + (CB.getCalledFunction() ? shortFn(CB.getCalledFunction()) : std::string("?"))); }
                    if (!II) { emit(std::move(n.mem), mkUndef(), true, x); continue; }
                    auto* LP = II->getUnwindDest()->getLandingPadInst(); u32 sel = 0; bool match = false;
                    for (unsigned c = 0; c < LP->getNumClauses() && !match; c++) {
                      if (LP->isFilter(c)) { auto* arr = LP->getClause(c); unsigned n2 = isa<ArrayType>(arr->getType()) ? arr->getType()->getArrayNumElements() : 0; if (n2 == 0) bad(&n.mem, "TERMINATE", "an exception violates an empty exception specification"); continue; }
                      u64 adj = 0; Val cl = constVal(LP->getClause(c)); if (catchMatch(n.mem.regs[x]->tinfo, cl, adj)) { match = true; sel = tiId(cl); n.mem.regs[x].own()->adj = adj; } }
                    if (!match && !LP->isCleanup()) { emit(std::move(n.mem), mkUndef(), true, x); continue; }
                    BasicBlock* to = II->getUnwindDest(); 
                    Val lpv = mkAgg({mkPtr(x, 0), mkInt(sel)});
                    n.env[fi.slot[LP]] = lpv; std::vector<std::pair<u32, Val>> ph;
                    // edge(), then skip the landingpad itself: handled by setting the slot and starting after it
                    for (auto& p : to->phis()) { Value* v = p.getIncomingValueForBlock(from); auto it = fi.slot.find(v); ph.push_back({fi.slot[&p], it != fi.slot.end() ? n.env[it->second] : constVal(cast<Constant>(v))}); }
                    for (auto& p : ph) n.env[p.first] = p.second;
                    Hasher h; for (u32 j : fi.livein[to]) { h.add(j); h.add(n.env[j]); } h.add(lpv); h.add(n.mem.hash()); if (!seen[to].insert(h.get()).second) { nMerged++; continue; }
                    nStates++; State* ns = new State; ns->bb = to; ns->it = std::next(LP->getIterator()); ns->env = std::move(n.env); ns->mem = std::move(n.mem); q.push(QE{fi.rpo[to], seq++, ns});
                  }
                } catch (PathEnd&) { if (violations.size() > maxViol) throw; }
              }
              continue; }
            default:
              if (I.isBinaryOp()) { unsigned w = bitsOf(I.getType()); Val a = V(I.getOperand(0)), b = V(I.getOperand(1));
                if (I.getType()->isFloatingPointTy()) { if (a.k == UNDEF || b.k == UNDEF) set(mkUndef()); else set(mkTerm(OP_FP + I.getOpcode(), w, {a, b})); }
                else if (w > 64 || w == 0) { if (a.k == UNDEF || b.k == UNDEF) set(mkUndef()); else set(mkTerm(OP_BIN + I.getOpcode(), w, {a, b})); }
                else set(binop(I.getOpcode(), w, a, b)); break; }
              if (I.isCast()) { unsigned sw = bitsOf(I.getOperand(0)->getType()), dw = bitsOf(I.getType()); Val a = V(I.getOperand(0)); if ((sw > 64 || dw > 64) && a.k != UNDEF) { set(mkTerm(OP_CAST + I.getOpcode(), dw, {a})); break; } set(castVal(I.getOpcode(), sw, dw, a)); break; }
              if (I.getOpcode() == Instruction::AtomicRMW) {
                auto& A = cast<AtomicRMWInst>(I); Val p = V(A.getPointerOperand()); Val old = loadVal(s.mem, p, A.getType()), v = V(A.getValOperand()); unsigned w = bitsOf(A.getType()); Val nv;
                switch (A.getOperation()) { case AtomicRMWInst::Add: nv = binop(Instruction::Add, w, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, w, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; default: incomplete("atomicrmw"); }
                storeVal(s.mem, p, nv, A.getType()); set(old); break; }
              if (I.getOpcode() == Instruction::Fence) break;
              incomplete(std::string("unsupported instruction ") + I.getOpcodeName());
          }
          if (!done) s.it = std::next(s.it);
        }
      } catch (PathEnd&) { nPaths++; if (violations.size() > maxViol) throw; }
      catch (Infeasible&) {}
    }
  }
}

// ---------------------------------------------------------------- models
static void ret1(Mem& m, Val v, std::vector<Outcome>& outs) { Outcome o; o.mem = std::move(m); o.ret = v; outs.push_back(std::move(o)); }
static Obj* findObj(Region* r, u64 off, u32 type, u32 size) { for (auto& o : r->objs) if (o.off == off && o.type == type) return &o; return nullptr; }
static const Obj* liveObj(Mem& m, Val p, u32 type, const char* what) {
  const Region& r = checkAccess(m, p, 1, what);
  obligations["typestate"]++;
  for (auto& o : r.objs) if (o.off == p.v && o.type == type) return &o;
  for (auto& o : r.objs) if (p.v < (u64)o.off + o.size && o.off <= p.v) bad(&m, "TYPE-CONFUSION", std::string(what) + ": object of type " + std::to_string(type) + " accessed where a live object of type " + std::to_string(o.type) + " is stored");
  bad(&m, "DEAD-OBJECT", std::string(what) + ": no live object of type " + std::to_string(type) + " at this address (never constructed, or already destroyed)");
}
static void collectOwned(Mem& m, u32 r, u64 lo, u64 hi, std::set<u32>& vis, std::vector<std::pair<Val, u32>>& out, std::vector<u32>* heap = nullptr) {
  const Region& R = *regRef(m, r, false).p;
  for (auto& o : R.objs) if (o.off < hi && lo < (u64)o.off + o.size) out.push_back({mkPtr(r, o.off), o.type});
  for (auto& c : R.cells) if (c.off < hi && lo < (u64)c.off + c.size && c.v.k == PTR && !isGlob(c.v.r) && c.v.r != DEADREG) {
    u32 t = c.v.r; const Region& T = *m.regs[t].p; if (T.kind == R_HEAP && !T.dead && vis.insert(t).second) { if (heap) heap->push_back(t); collectOwned(m, t, 0, T.size, vis, out, heap); } }
}
static void freeHeap(Mem& m, Val p, u32 how) {
  if (p.k == INT && p.v == 0) return;
  if (p.k == UNDEF) bad(&m, "UNINIT", "deallocation of an uninitialised pointer");
  if (p.k != PTR) incomplete("deallocation of untracked pointer");
  obligations["deallocation"]++;
  if (p.r == DEADREG) bad(&m, "LIFETIME", "deallocation of storage whose lifetime has already ended (double free)");
  const Region& r = *regRef(m, p.r, false).p;
  if (r.kind != R_HEAP || p.v != 0) bad(&m, "BAD-FREE", "deallocation of memory not obtained from operator new");
  if (r.dead) bad(&m, "LIFETIME", "double free");
  if (r.how != how) bad(&m, "BAD-FREE", "deallocation function does not match the allocation function");
  if (!r.objs.empty()) bad(&m, "LEAK-OBJECT", "heap storage released while the bounded object inside is still alive: its destructor never runs");
  if (!r.frozen.empty()) bad(&m, "CONST-WRITE", "operand that must be left untouched is deallocated");
  Region* w = regRef(m, p.r, true).own(); w->dead = true; w->cells.clear();
}
static void allocate(CallBase& CB, Val size, u32 how, bool nothrow, Mem& m, std::vector<Outcome>& outs, u32 align = 16) {
  if (size.k != INT) incomplete("allocation of symbolic size");
  if (m.allocForbidden) bad(&m, "ALLOCATION", "dynamic allocation inside an operation that must not allocate");
  obligations["allocation"]++;
  if (m.allocMayFail) {
    Mem m2 = m; m2.tr = tpush(m2.tr, &CB, "operator new fails (bad_alloc)"); nForks++;
    if (nothrow) ret1(m2, mkInt(0), outs);
    else { Function* f = M->getFunction("vsa_throw_bad_alloc_impl"); if (!f) incomplete("vsa_throw_bad_alloc_impl missing"); std::vector<Val> none; callValue(CB, funVal(f), none, m2, outs); }
  }
  curInst = &CB; u32 r = newRegion(m, R_HEAP, size.v, align); m.regs[r].own()->how = how; ret1(m, mkPtr(r, 0), outs);
}
static void doThrow(Mem& m, u32 x, std::vector<Outcome>& outs) { Outcome o; m.regs[x].own()->thrown = true; o.mem = std::move(m); o.unwind = true; o.exn = x; outs.push_back(std::move(o)); }
static void memCopy(Mem& m, Val d, Val s, u64 n, const char* what) {
  if (!n) return;
  const Region& sr = checkAccess(m, s, n, what); const Region& dr = checkAccess(m, d, n, what); checkWritable(m, d, n, dr, what);
  for (auto& o : sr.objs) if (o.off < s.v + n && s.v < (u64)o.off + o.size) bad(&m, "RAW-COPY", "a live bounded object is copied bytewise instead of through its constructor/assignment");
  for (auto& o : dr.objs) if (o.off < d.v + n && d.v < (u64)o.off + o.size) bad(&m, "CLOBBER", "a live bounded object is overwritten bytewise");
  std::vector<Cell> cs; for (auto& c : sr.cells) if (c.off < s.v + n && s.v < (u64)c.off + c.size) { if (c.off >= s.v && c.off + c.size <= s.v + n) cs.push_back(Cell{(u32)(c.off - s.v), c.size, c.v}); else if (c.v.k == INT) for (u32 i = 0; i < c.size; i++) { u64 o = c.off + i; if (o >= s.v && o < s.v + n) cs.push_back(Cell{(u32)(o - s.v), 1, mkInt((c.v.v >> (8 * i)) & 255)}); } }
  Region* w = regRef(m, d.r, true).own(); clearCells(w, d.v, n); for (auto& c : cs) putCell(w, d.v + c.off, c.size, c.v);
}
// canonicalise the state of a history loop (entry frame only)
static void canonLoop(Mem& m, bool forget) {
  // roots: alloca regions; rename heap by reachability; detect leaks; rename tokens
  std::vector<u32> order; std::vector<u32> mp(m.regs.size(), DEADREG); std::vector<u32> st;
  for (u32 i = 0; i < m.regs.size(); i++) if (m.regs[i]->kind == R_ALLOCA && !(m.regs[i]->how == 9 && m.regs[i]->dead)) { mp[i] = order.size(); order.push_back(i); }
  for (size_t k = 0; k < order.size(); k++) { const Region& r = *m.regs[order[k]].p; for (auto& c : r.cells) if (c.v.k == PTR && !isGlob(c.v.r) && c.v.r != DEADREG && mp[c.v.r] == DEADREG && !m.regs[c.v.r]->dead) { mp[c.v.r] = order.size(); order.push_back(c.v.r); } }
  for (auto& g : m.globs) for (auto& c : g.second->cells) if (c.v.k == PTR && !isGlob(c.v.r) && c.v.r != DEADREG && mp[c.v.r] == DEADREG && !m.regs[c.v.r]->dead) { mp[c.v.r] = order.size(); order.push_back(c.v.r); }
  obligations["no-leak"]++;
  for (u32 i = 0; i < m.regs.size(); i++) if (mp[i] == DEADREG && !m.regs[i]->dead) { std::string s = m.regs[i]->site ? locOf(m.regs[i]->site) : "?"; bad(&m, m.regs[i]->kind == R_EXN ? "LEAK-EXN" : "LEAK-HEAP", "heap block allocated at " + s + " is no longer reachable and was never freed"); }
  Renamer rn; rn.map = mp; std::vector<RP> nr; for (u32 o : order) nr.push_back(m.regs[o]); m.regs.swap(nr);
  for (auto& c : m.caught) c = mp[c];
  // tokens: canonical equality classes, in order of appearance
  rn.syms = true; u32 k = 1;
  auto note = [&](auto&& self, const Val& v) -> void { if (v.k == TERM) { if (!rn.tokMap.count(v.r)) rn.tokMap[v.r] = forget ? mkSym(1) : mkSym(k++); } else if (v.k == AGG || v.k == BYTES) { std::vector<Val> vs = aggs[v.r]; for (auto& x : vs) self(self, x); } };
  auto scan = [&](const Region& r) { for (auto& c : r.cells) note(note, c.v); for (auto& o : r.objs) note(note, o.tok); };
  for (auto& r : m.regs) scan(*r.p); for (auto& g : m.globs) scan(*g.second.p);
  for (auto& r : m.regs) { rn.region(r); Region* w = r.p; w->cells.erase(std::remove_if(w->cells.begin(), w->cells.end(), [](const Cell& c) { return c.v.k == PTR && c.v.r == DEADREG; }), w->cells.end()); }
  for (auto& g : m.globs) rn.region(g.second);
  if (getenv("VSA_DEBUG_LOOP")) { static std::unordered_set<H128, HH> seen; if (seen.insert(m.hash()).second) { errs() << "LOOP STATE " << seen.size() << "\n"; for (u32 i = 0; i < m.regs.size(); i++) { auto& r = *m.regs[i].p; errs() << "  R" << i << " k" << (int)r.kind << (r.dead ? " dead" : ""); for (auto& c : r.cells) errs() << " [" << c.off << ":" << c.size << " " << (int)c.v.k << "/" << c.v.r << "/" << (int64_t)c.v.v << "]"; for (auto& o : r.objs) errs() << " <" << o.off << " T" << o.type << " t" << o.tok.r << ">"; errs() << "\n"; } } }
  m.facts.clear(); m.nextSym = forget ? 2 : k;
}
static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

static void callExternal(CallBase& CB, Function* F, std::vector<Val>& a, Mem& m, std::vector<Outcome>& outs) {
  std::string n = F->getName().str();
  auto I = [&](unsigned i) -> u64 { if (a[i].k != INT) incomplete("intrinsic " + n + ": constant argument expected"); return a[i].v; };
  auto R = [&](Val v) { ret1(m, v, outs); };
  if (n[0] == 'v' && startsWith(n, "vsa_")) {
    if (n == "vsa_choose") { u64 k = I(0); nForks++; for (u64 i = 0; i < k; i++) { Mem m2 = m; m2.tr = tpush(m.tr, &CB, "choice " + std::to_string(i) + " of " + std::to_string(k)); ret1(m2, mkInt(i), outs); } return; }
    if (n == "vsa_choose_named") { std::string nm = cstr(m, a[0]); Mem m1 = m; m1.tr = tpush(m.tr, &CB, nm); nForks++; ret1(m1, mkInt(1), outs); R(mkInt(0)); return; }
    if (n == "vsa_note") { m.tr = tpush(m.tr, &CB, cstr(m, a[0])); R(mkUndef()); return; }
    if (n == "vsa_fresh") { R(mkSym(m.nextSym++)); return; }
    if (n == "vsa_sym") { R(mkTerm(OP_USER + 999, 64, {a[0]})); return; }
    if (n == "vsa_int") { R(mkTerm(OP_USER + 998, 32, {mkSym(m.nextSym++)})); return; }
    if (n == "vsa_term1") { R(mkTerm(OP_USER + (u32)I(0), 64, {a[1]})); return; }
    if (n == "vsa_term2") { R(mkTerm(OP_USER + (u32)I(0), 64, {a[1], a[2]})); return; }
    if (n == "vsa_rel") { if (I(0) == 0 && a[2] < a[1]) std::swap(a[1], a[2]); R(mkTerm(OP_USER + 500 + (u32)I(0), 32, {a[1], a[2]})); return; } // == is symmetric
    if (n == "vsa_same") { if (a[0].k == UNDEF || a[1].k == UNDEF) bad(&m, "UNINIT", "comparison of an uninitialised value"); obligations["value-identity"]++; R(mkInt(a[0] == a[1])); return; }
    if (n == "vsa_assume") { Truth t = truthOf(m, a[0]); if (t.known) { if (!t.value) return; R(mkUndef()); return; } addFact(m, t.base, t.neg ? 0 : 1); R(mkUndef()); return; }
    if (n == "vsa_ctor") { // self,type,size,align,tok
      u64 type = I(1), size = I(2), align = I(3); const Region& r = checkAccess(m, a[0], size, "construction"); checkWritable(m, a[0], size, r, "construction"); obligations["construct-typestate"]++;
      if (a[0].v % align || (align > r.align)) bad(&m, "ALIGNMENT", "object of alignment " + std::to_string(align) + " constructed at offset " + std::to_string(a[0].v) + " of storage aligned to " + std::to_string(r.align));
      for (auto& o : r.objs) if (o.off < a[0].v + size && a[0].v < (u64)o.off + o.size) bad(&m, "CONSTRUCT-OVER-LIVE", "object of type " + std::to_string(type) + " constructed over a live object of type " + std::to_string(o.type) + " (the old content is never destroyed)");
      if (a[4].k == UNDEF) bad(&m, "UNINIT", "object constructed from an uninitialised value");
      Region* w = regRef(m, a[0].r, true).own(); Val vp = size >= 8 ? loadCells(*w, a[0].v, 8) : mkUndef(); clearCells(w, a[0].v, size); if (isVtablePtr(vp)) putCell(w, a[0].v, 8, vp); Obj o{(u32)a[0].v, (u32)size, (u32)type, a[4]}; auto it = std::lower_bound(w->objs.begin(), w->objs.end(), o.off, [](const Obj& x, u32 y) { return x.off < y; }); w->objs.insert(it, o); notePtr(w, a[4]); R(mkUndef()); return; }
    if (n == "vsa_scribble") { // a constructor that is about to throw has already written to its storage
      u64 size = I(1); const Region& r = checkAccess(m, a[0], size, "construction"); checkWritable(m, a[0], size, r, "construction");
      for (auto& o : r.objs) if (o.off < a[0].v + size && a[0].v < (u64)o.off + o.size) bad(&m, "CONSTRUCT-OVER-LIVE", "object constructed over a live object of type " + std::to_string(o.type) + " (the old content is never destroyed)");
      clearCells(regRef(m, a[0].r, true).own(), a[0].v, size); R(mkUndef()); return; }
    if (n == "vsa_dtor") { u64 type = I(1); liveObj(m, a[0], type, "destruction"); const Region& r = *regRef(m, a[0].r, false).p; const Obj* o0 = nullptr; for (auto& o : r.objs) if (o.off == a[0].v && o.type == type) o0 = &o; checkWritable(m, a[0], o0->size, r, "destruction");
      Region* w = regRef(m, a[0].r, true).own(); for (size_t i = 0; i < w->objs.size(); i++) if (w->objs[i].off == a[0].v && w->objs[i].type == type) { w->objs.erase(w->objs.begin() + i); break; } R(mkUndef()); return; }
    if (n == "vsa_tok") { const Obj* o = liveObj(m, a[0], I(1), "use"); Val t = o->tok; R(t); return; }
    if (n == "vsa_settok") { const Obj* o = liveObj(m, a[0], I(1), "assignment"); const Region& r = *regRef(m, a[0].r, false).p; checkWritable(m, a[0], o->size, r, "assignment"); Region* w = regRef(m, a[0].r, true).own(); findObj(w, a[0].v, I(1), 0)->tok = a[2]; notePtr(w, a[2]); R(mkUndef()); return; }
    if (n == "vsa_owned") { // base,size,type* out,ptr** out
      if (a[0].k != PTR) incomplete("vsa_owned"); std::set<u32> vis; std::vector<std::pair<Val, u32>> out; collectOwned(m, a[0].r, a[0].v, a[0].v + I(1), vis, out); obligations["ownership-closure"]++;
      if (out.size() == 1) { storeRaw(m, a[2], 4, mkInt(out[0].second), "store"); storeRaw(m, a[3], 8, out[0].first, "store"); } else { storeRaw(m, a[2], 4, mkInt(maskTo(-1, 32)), "store"); storeRaw(m, a[3], 8, mkInt(0), "store"); }
      R(mkInt(out.size())); return; }
    if (n == "vsa_owned_heap") { std::set<u32> vis; std::vector<std::pair<Val, u32>> out; std::vector<u32> hp; collectOwned(m, a[0].r, a[0].v, a[0].v + I(1), vis, out, &hp); R(mkInt(hp.size())); return; }
    if (n == "vsa_inside") { R(mkInt(a[0].k == PTR && a[1].k == PTR && a[0].r == a[1].r && a[0].v >= a[1].v && a[0].v < a[1].v + I(2))); return; }
    if (n == "vsa_freeze" || n == "vsa_unfreeze") { bool fr = n == "vsa_freeze"; u64 size = I(1); std::set<u32> vis; std::vector<std::pair<Val, u32>> out; std::vector<u32> hp; checkAccess(m, a[0], size, "freeze"); collectOwned(m, a[0].r, a[0].v, a[0].v + size, vis, out, &hp);
      auto doit = [&](u32 r, u64 lo, u64 sz) { Region* w = regRef(m, r, true).own(); std::pair<u32, u32> e{(u32)lo, (u32)sz}; if (fr) w->frozen.push_back(e); else { auto it = std::find(w->frozen.begin(), w->frozen.end(), e); if (it != w->frozen.end()) w->frozen.erase(it); } };
      doit(a[0].r, a[0].v, size); for (u32 h : hp) doit(h, 0, m.regs[h]->size); m.freezeDepth += fr ? 1 : -1; R(mkUndef()); return; }
    if (n == "vsa_alloc_mode") { m.allocMayFail = I(0); R(mkUndef()); return; }
    if (n == "vsa_alloc_forbid") { m.allocForbidden = I(0); R(mkUndef()); return; }
    if (n == "vsa_fail") bad(&m, "CHECK", cstr(m, a[0]));
    if (n == "vsa_ok") { obligations["driver-check"]++; R(mkUndef()); return; }
    if (n == "vsa_check") { obligations["driver-check"]++; if (a[0].k == UNDEF) bad(&m, "UNINIT", "checked condition is uninitialised: " + cstr(m, a[1])); Truth t = truthOf(m, a[0]); if (t.known && t.value) { R(mkUndef()); return; } bad(&m, "CHECK", cstr(m, a[1]) + (t.known ? "" : " (not implied on this path)")); }
    if (n == "vsa_cover") { covered.insert(curEntry + ":" + cstr(m, a[0])); R(mkUndef()); return; }
    if (n == "vsa_stop") { return; }
    if (n == "vsa_loop" || n == "vsa_loop_forget") { canonLoop(m, n == "vsa_loop_forget"); nForks++; Mem m2 = m; ret1(m2, mkInt(0), outs); R(mkInt(1)); return; }
    if (n == "vsa_havoc") { // size bytes of storage become arbitrary-but-stable
      Region* w = regRef(m, a[0].r, true).own(); (void)w; R(mkUndef()); return; }
    incomplete("unknown analysis intrinsic " + n);
  }
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: { Val p = a[1]; if (p.k == PTR && p.r != DEADREG && !isGlob(p.r)) { Region* w = m.regs[p.r].own(); w->dead = false; w->cells.clear(); } R(mkUndef()); return; }
      case Intrinsic::lifetime_end: { Val p = a[1]; if (p.k == PTR && p.r != DEADREG && !isGlob(p.r)) { if (!m.regs[p.r]->dead) endStorage(m, *m.regs[p.r].p, "storage of a local variable or temporary ends"); Region* w = m.regs[p.r].own(); w->dead = true; w->cells.clear(); w->maxPtr = 0; } R(mkUndef()); return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(m, a[0], a[1], I(2), "memcpy"); R(mkUndef()); return;
      case Intrinsic::memset: { u64 sz = I(2); if (sz) { const Region& r = checkAccess(m, a[0], sz, "memset"); checkWritable(m, a[0], sz, r, "memset"); for (auto& o : r.objs) if (o.off < a[0].v + sz && a[0].v < (u64)o.off + o.size) bad(&m, "CLOBBER", "memset overwrites a live bounded object"); u64 b = I(1); Region* w = regRef(m, a[0].r, true).own(); u64 o = 0; while (o < sz) { u32 st = (sz - o >= 8 && (a[0].v + o) % 8 == 0) ? 8 : 1; u64 v = 0; for (u32 i = 0; i < st; i++) v |= b << (8 * i); putCell(w, a[0].v + o, st, mkInt(v)); o += st; } } R(mkUndef()); return; }
      case Intrinsic::expect: R(a[0]); return;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: R(a[0]); return;
      case Intrinsic::is_constant: R(mkInt(0)); return;
      case Intrinsic::objectsize: R(mkInt(~0ull)); return;
      case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_start: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: R(mkUndef()); return;
      case Intrinsic::eh_typeid_for: R(mkInt(tiId(a[0]))); return;
      case Intrinsic::trap: bad(&m, "UNREACHABLE", "trap reached"); 
      case Intrinsic::threadlocal_address: R(a[0]); return;
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: { unsigned w = bitsOf(CB.getArgOperand(0)->getType()); if (a[0].k == INT && a[1].k == INT) { u128 x = F->getIntrinsicID() == Intrinsic::umul_with_overflow ? (u128)a[0].v * a[1].v : F->getIntrinsicID() == Intrinsic::uadd_with_overflow ? (u128)a[0].v + a[1].v : (u128)a[0].v - a[1].v; u64 lo = maskTo((u64)x, w); R(mkAgg({mkInt(lo), mkInt((u128)lo != x)})); } else incomplete("overflow arithmetic"); return; }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: { for (auto& x : a) if (x.k == UNDEF) { R(mkUndef()); return; } R(mkTerm(OP_EXTERN + 1 + F->getIntrinsicID() % 900, bitsOf(F->getReturnType()), a)); return; }
      default: incomplete("unmodelled LLVM intrinsic " + n);
    }
  }
  if (n == "_Znwm" || n == "_Znam") { allocate(CB, a[0], n == "_Znam", false, m, outs); return; }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { allocate(CB, a[0], n == "_ZnamSt11align_val_t", false, m, outs, (u32)I(1)); return; }
  if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { allocate(CB, a[0], n[3] == 'a', true, m, outs); return; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvRKSt9nothrow_t") { freeHeap(m, a[0], 0); R(mkUndef()); return; }
  if (n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdaPvSt11align_val_t" || n == "_ZdaPvmSt11align_val_t") { freeHeap(m, a[0], 1); R(mkUndef()); return; }
  if (n == "malloc") { allocate(CB, a[0], 2, true, m, outs); return; }
  if (n == "free") { freeHeap(m, a[0], 2); R(mkUndef()); return; }
  if (n == "__cxa_allocate_exception") { u32 r = newRegion(m, R_EXN, I(0), 16); R(mkPtr(r, 0)); return; }
  if (n == "__cxa_free_exception") { if (a[0].k == PTR && a[0].r != DEADREG) m.regs[a[0].r].own()->dead = true; R(mkUndef()); return; }
  if (n == "__cxa_init_primary_exception") { R(a[0]); return; }
  if (n == "__cxa_throw") { if (a[0].k != PTR) incomplete("throw of untracked object"); u32 x = a[0].r; Region* w = m.regs[x].own(); w->tinfo = a[1]; w->dtor = a[2]; doThrow(m, x, outs); return; }
  if (n == "__cxa_begin_catch") { u32 x = a[0].r; Region* w = m.regs[x].own(); w->handlers++; u64 adj = w->adj; m.caught.push_back(x); R(mkPtr(x, adj)); return; }
  if (n == "__cxa_get_exception_ptr") { R(mkPtr(a[0].r, m.regs[a[0].r]->adj)); return; }
  if (n == "__cxa_end_catch") {
    if (m.caught.empty()) bad(&m, "INTERNAL", "end_catch without catch"); u32 x = m.caught.back(); m.caught.pop_back(); Region* w = m.regs[x].own(); w->handlers--;
    bool stillThrown = false; if (w->handlers < 0) { /* rethrown */ w->handlers = 0; stillThrown = true; }
    if (w->handlers == 0 && !stillThrown && !w->depEnd) { Val d = w->dtor; if (d.k == FUN) { std::vector<Val> as{mkPtr(x, 0)}; std::vector<Outcome> os; callValue(CB, d, as, m, os); for (auto& o : os) { Region* w2 = o.mem.regs[x].own(); endStorage(o.mem, *w2, "exception object released"); w2->dead = true; w2->cells.clear(); o.ret = mkUndef(); outs.push_back(std::move(o)); } return; } w->dead = true; w->cells.clear(); }
    w->depEnd = false; R(mkUndef()); return; }
  if (n == "__cxa_rethrow") { if (m.caught.empty()) bad(&m, "TERMINATE", "rethrow without an active exception calls std::terminate"); u32 x = m.caught.back(); m.regs[x].own()->depEnd = true; doThrow(m, x, outs); return; }
  if (n == "_ZSt18uncaught_exceptionv" || n == "_ZSt19uncaught_exceptionsv") { R(mkInt(0)); return; }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE" || n == "exit") bad(&m, "TERMINATE", "the program is terminated (" + n + ")");
  if (n == "__assert_fail") bad(&m, "ASSERT", "assertion fails: " + cstr(m, a[0]));
  if (n == "__cxa_pure_virtual") bad(&m, "UNREACHABLE", "pure virtual function called");
  if (n == "__cxa_bad_cast" || n == "_ZSt16__throw_bad_castv" || n == "__cxa_bad_typeid") bad(&m, "CHECK", "bad_cast/bad_typeid raised by the implementation");
  if (n == "__cxa_guard_acquire") { Val g = loadVal(m, a[0], Type::getInt8Ty(M->getContext())); R(mkInt(!(g.k == INT && g.v))); return; }
  if (n == "__cxa_guard_release") { storeRaw(m, a[0], 1, mkInt(1), "guard release"); R(mkUndef()); return; }
  if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") { R(mkInt(0)); return; }
  if (n == "memcpy" || n == "memmove") { Val d = a[0]; memCopy(m, a[0], a[1], I(2), "memcpy"); R(d); return; }
  if (n == "memset") { Val d = a[0]; u64 sz = I(2), b = I(1); for (u64 i = 0; i < sz; i++) { Val q = a[0]; q.v += i; storeRaw(m, q, 1, mkInt(b & 255), "memset"); } R(d); return; }
  if (n == "strlen") { R(mkInt(cstr(m, a[0]).size())); return; }
  if (n == "strcmp" || n == "strncmp" || n == "memcmp") {
    if (a[0] == a[1]) { R(mkInt(0)); return; }
    if (n == "memcmp") { u64 k = I(2); int c = 0; for (u64 i = 0; i < k && !c; i++) { Val p = a[0], q = a[1]; p.v += i; q.v += i; Val x = loadCells(checkAccess(m, p, 1, "read"), p.v, 1), y = loadCells(checkAccess(m, q, 1, "read"), q.v, 1); if (x.k == UNDEF || y.k == UNDEF) bad(&m, "UNINIT", "memcmp compares uninitialised or padding bytes"); if (x == y && x.k != INT) continue; if (x.k != INT || y.k != INT) incomplete("memcmp of unknown bytes"); c = (int)x.v - (int)y.v; } R(mkInt(maskTo(c, 32))); return; }
    int c = cstr(m, a[0]).compare(cstr(m, a[1])); R(mkInt(maskTo(c < 0 ? -1 : c > 0 ? 1 : 0, 32))); return; }
  if (n == "__dynamic_cast") { incomplete("dynamic_cast"); }
  // std::exception family: trivially modelled
  if (n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD1Ev" || n == "_ZNSt9bad_allocD2Ev" || n == "_ZNSt9bad_allocD1Ev" || n == "_ZNSt8bad_castD2Ev" || n == "_ZNSt8bad_castD1Ev") { R(mkUndef()); return; }
  if (n == "_ZNKSt9exception4whatEv" || n == "_ZNKSt9bad_alloc4whatEv") { R(mkTerm(OP_EXTERN, 64, {a[0]})); return; }
  if (n == "_ZNKSt9type_info7__equalERKS_" || n == "_ZNKSt9type_infoeqERKS_") { R(mkInt(a[0] == a[1])); return; }
  if (n == "_ZSt11_Hash_bytesPKvmm") { // byte-wise hash of constants or memory: uninterpreted function of the bytes
    u64 k = I(1); std::vector<Val> as{a[2]}; for (u64 i = 0; i < k; i += 8) { Val p = a[0]; p.v += i; u64 s = std::min<u64>(8, k - i); as.push_back(loadCells(checkAccess(m, p, s, "read"), p.v, s)); } R(mkTerm(OP_EXTERN + 990, 64, as)); return; }
  if (!a.empty() && F->getReturnType()->isPointerTy() && (n.compare(0, 5, "_ZNSo") == 0 || n.find("basic_ostream") != std::string::npos || n.compare(0, 7, "_ZStlsI") == 0)) { // insertion into a standard stream: counted, the inserted scalar logged
    if (auto* gc = M->getGlobalVariable("vsa_cnt", true)) { Val p = mkPtr(GBASE | globIndex(gc), 15 * 4); Val c = loadVal(m, p, Type::getInt32Ty(M->getContext())); storeRaw(m, p, 4, mkInt(maskTo(c.v + 1, 32)), "stream insertion"); }
    if (auto* gl = M->getGlobalVariable("vsa_log", true)) if (a.size() > 1 && CB.getArgOperand(1)->getType()->isIntegerTy()) { Val p = mkPtr(GBASE | globIndex(gl), 15 * 8); storeRaw(m, p, 8, castVal(Instruction::SExt, bitsOf(CB.getArgOperand(1)->getType()), 64, a[1]), "stream insertion"); }
    R(a[0]); return; }
  incomplete("unmodelled external function " + n);
}

// ---------------------------------------------------------------- driver
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static void runPromote(Function& F) {
  if (F.isDeclaration()) return; DominatorTree DT(F); std::vector<AllocaInst*> as;
  while (true) { as.clear(); for (auto& I : F.getEntryBlock()) if (auto* A = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(A)) as.push_back(A); if (as.empty()) break; PromoteMemToReg(as, DT); }
}
int main(int argc, char** argv) {
  std::string in, pref = "drv_"; std::vector<std::string> only; bool dump = false, lintStatic = false, lintOdr = false;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s == "--entry") only.push_back(argv[++i]); else if (s == "--steps") stepBudget = strtoull(argv[++i], 0, 10); else if (s == "--time") timeBudget = atof(argv[++i]); else if (s == "--repo") repoPrefix = argv[++i]; else if (s == "--max-viol") maxViol = atoi(argv[++i]); else if (s == "--dump") dump = true; else if (s == "--lint-static") lintStatic = true; else if (s == "--lint-odr") lintOdr = true; else in = s; }
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(in, err, ctx); if (!M) { err.print("vsa", errs()); return 2; } DL = &M->getDataLayout();
  for (auto& F : *M) runPromote(F);
  if (dump) { M->print(outs(), nullptr); return 0; }
  std::vector<Function*> entries; for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with(pref)) if (only.empty() || std::find(only.begin(), only.end(), F.getName().str()) != only.end()) entries.push_back(&F);
  t0 = std::chrono::steady_clock::now(); std::vector<std::string> inc; std::map<std::string, u64> entrySteps; u64 completed = 0;
  for (Function* E : entries) {
    curEntry = E->getName().str(); u64 s0 = nSteps; callStack.clear(); activation.clear();
    try {
      Mem m; std::vector<Outcome> os; std::vector<Val> none; curInst = &*E->getEntryBlock().begin();
      try { execFunction(E, none, m, os); } catch (PathEnd&) {}
      curInst = &*E->getEntryBlock().begin(); callStack.clear();
      for (auto& o : os) try {
        if (o.unwind) { bad(&o.mem, "ESCAPE", "an exception escapes the driver uncaught"); }
        obligations["no-leak"]++;
        for (auto& r : o.mem.regs) if (!r->dead && r->kind != R_ALLOCA) { bool global = false; u32 id = &r - &o.mem.regs[0]; for (auto& g : o.mem.globs) for (auto& c : g.second->cells) if (c.v.k == PTR && c.v.r == id) global = true; if (!global) bad(&o.mem, "LEAK-HEAP", std::string(r->kind == R_EXN ? "exception object" : "heap block") + " allocated at " + locOf(r->site) + " is never freed"); }
        completed++;
      } catch (PathEnd&) {}
    } catch (Incomplete& e) { std::string st; for (size_t i = callStack.size(); i-- > 0 && st.size() < 1500;) st += "\n      from " + locOf(callStack[i]) + " in " + shortFn(callStack[i]->getFunction()); inc.push_back(curEntry + ": " + e.why + st); }
    entrySteps[curEntry] = nSteps - s0;
  }
  if (lintStatic) { // no mutable static-storage object is defined by the library (in any instantiated function or at namespace scope)
    callStack.clear(); curInst = nullptr; curEntry = "module";
    for (auto& G : M->globals()) { SmallVector<DIGlobalVariableExpression*, 1> gs; G.getDebugInfo(gs); for (auto* e : gs) { auto* v = e->getVariable(); std::string f = v->getFilename().str(); if (!f.empty() && f[0] != '/') f = v->getDirectory().str() + "/" + f; if (f.compare(0, repoPrefix.size(), repoPrefix)) continue; obligations["static-storage"]++;
      bool c = G.isConstant(); for (DIType* t = v->getType(); t && !c;) { auto* d = dyn_cast<DIDerivedType>(t); if (!d) { if (auto* ct = dyn_cast<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_array_type) { t = ct->getBaseType(); continue; } break; } if (d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_reference_type) c = true; else if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType(); else break; }
      if (!c && !G.isDeclaration()) { Violation w; w.rule = "STATIC-STATE"; w.msg = "the library defines mutable static data: " + v->getName().str(); w.loc = f + ":" + std::to_string(v->getLine()); w.entry = "module"; violations.push_back(w); } } }
    obligations["static-storage"]++; }
  if (lintOdr) { // every definition the headers emit may be merged with those of other translation units
    auto rep = [&](const std::string& what, std::string f, unsigned line) { Violation w; w.rule = "ODR"; w.msg = what; w.loc = f + ":" + std::to_string(line); w.entry = "module"; violations.push_back(w); };
    auto path = [](DIFile* d) { std::string f = d ? d->getFilename().str() : ""; if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f; return f; };
    for (auto& F : *M) { auto* sp = F.getSubprogram(); if (F.isDeclaration() || !sp) continue; std::string f = path(sp->getFile()); if (f.compare(0, repoPrefix.size(), repoPrefix)) continue; obligations["odr-definition"]++;
      if (F.getLinkage() == GlobalValue::ExternalLinkage) rep("a header defines the function " + sp->getName().str() + " without making it inline: two translation units that include it do not link", f, sp->getLine()); }
    for (auto& G : M->globals()) { if (G.isDeclaration()) continue; SmallVector<DIGlobalVariableExpression*, 1> gs; G.getDebugInfo(gs); for (auto* e : gs) { auto* v = e->getVariable(); std::string f = path(v->getFile()); if (f.compare(0, repoPrefix.size(), repoPrefix)) continue; obligations["odr-definition"]++;
      if (G.getLinkage() == GlobalValue::ExternalLinkage) rep("a header defines the variable " + v->getName().str() + " with strong linkage: two translation units that include it do not link", f, v->getLine()); } }
    obligations["odr-definition"]++; }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  // JSON
  std::string o = "{\"entries\":["; bool first = true; for (auto& e : entrySteps) { o += (first ? "" : ",") + ("{\"name\":\"" + e.first + "\",\"steps\":" + std::to_string(e.second) + "}"); first = false; }
  o += "],\"completed\":" + std::to_string(completed) + ",\"steps\":" + std::to_string(nSteps) + ",\"states\":" + std::to_string(nStates) + ",\"forks\":" + std::to_string(nForks) + ",\"merged\":" + std::to_string(nMerged) + ",\"time\":" + std::to_string(el);
  u64 rf = 0; std::set<std::string> rfn, rlines; for (auto* F : visitedFns) if (finfo(const_cast<Function*>(F)).inRepo) { rf++; }
  for (auto* I : visitedRepoInsts) { std::string l = locOf(I); rlines.insert(l); }
  o += ",\"repo_functions\":" + std::to_string(rf) + ",\"functions\":" + std::to_string(visitedFns.size()) + ",\"repo_instructions\":" + std::to_string(visitedRepoInsts.size());
  o += ",\"repo_lines\":["; first = true; for (auto& l : rlines) if (l.compare(0, repoPrefix.size(), repoPrefix) == 0) { o += (first ? "\"" : ",\"") + jesc(l.substr(repoPrefix.size())) + "\""; first = false; } o += "]";
  o += ",\"obligations\":{"; first = true; for (auto& x : obligations) { o += (first ? "\"" : ",\"") + x.first + "\":" + std::to_string(x.second); first = false; } o += "}";
  o += ",\"covered\":["; first = true; for (auto& c : covered) { o += (first ? "\"" : ",\"") + jesc(c) + "\""; first = false; } o += "]";
  o += ",\"incomplete\":["; first = true; for (auto& c : inc) { o += (first ? "\"" : ",\"") + jesc(c) + "\""; first = false; } o += "]";
  o += ",\"violations\":["; first = true;
  for (auto& v : violations) { o += first ? "{" : ",{"; first = false; o += "\"rule\":\"" + v.rule + "\",\"msg\":\"" + jesc(v.msg) + "\",\"loc\":\"" + jesc(v.loc) + "\",\"func\":\"" + jesc(v.func) + "\",\"entry\":\"" + v.entry + "\",\"stack\":["; bool f2 = true; for (auto& s : v.stack) { o += (f2 ? "\"" : ",\"") + jesc(s) + "\""; f2 = false; } o += "],\"trace\":["; f2 = true; for (auto& s : v.trace) { o += (f2 ? "\"" : ",\"") + jesc(s) + "\""; f2 = false; } o += "]}"; }
  o += "]}\n"; fputs(o.c_str(), stdout);
  fflush(stdout); _Exit(0);
}
