// vsym: path-exploring symbolic executor for LLVM 18 IR.
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <functional>
#include <set>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ---------------------------------------------------------------- options
static std::string optEntry, optOut, optBC; static int optTier = 0; static double optTimeout = 120; static uint64_t optMaxSteps = 3000000; static int shardK = 0, shardN = 1; static unsigned optSamples = 3; static bool optTrace = false; static uint64_t optSeed = 1; static unsigned optMaxViol = 8;
static const uint64_t MAXALLOC = 16ull << 20; // larger requests fail (also configured in the native replay)

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;

// ---------------------------------------------------------------- memory
struct MByte { E e; uint32_t idx; };
struct Page { MByte b[64]; };
enum ObjKind { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC, OK_EXC };
struct Obj {
  uint64_t base, size; ObjKind kind; bool ro = false, freed = false; uint8_t def = 0; // def: 0 uninitialised, 1 zero
  uint8_t alloc = 0; // 1 malloc
  std::string name; std::vector<std::shared_ptr<Page>> pages;
};
static inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 36) | (1ull << 35); }
static inline uint32_t regionOf(uint64_t a) { return (uint32_t)(a >> 36); }

// ---------------------------------------------------------------- state
typedef std::shared_ptr<std::vector<E>> Agg;
struct RV { E e = nullptr; Agg agg; };
struct FnInfo { const Function *F; DenseMap<const Value *, unsigned> idx; unsigned nregs = 0; bool repo = false; std::string pretty; };
struct Frame { FnInfo *fi; const BasicBlock *bb, *prev; BasicBlock::const_iterator pc; std::vector<RV> regs; std::vector<uint32_t> allocas; uint32_t vararg = 0; };
struct ExcRec { uint64_t obj; const GlobalValue *ti; E adjusted; int handlers; };
struct Sym { std::string name; E v; unsigned w; };
struct State {
  uint64_t id; std::vector<Frame> st; std::vector<std::shared_ptr<Obj>> objs; std::vector<E> pc; std::shared_ptr<Model> model;
  std::vector<Sym> syms; std::vector<std::string> known; std::vector<std::pair<std::string, E>> obs; std::vector<uint64_t> caught; std::map<uint64_t, ExcRec> excs; uint64_t steps = 0; unsigned picks = 0; unsigned forks = 0; bool dead = false; unsigned unkDepth = 0;
  bool knownExhausted = false;
};
typedef std::unique_ptr<State> SP;
static std::vector<SP> work; static State *cur; static uint64_t g_stateId = 0;
static std::map<std::string, FnInfo *> fnByName; static DenseMap<const Function *, FnInfo *> fnInfos; static std::map<uint64_t, const Function *> fnByAddr; static DenseMap<const GlobalValue *, uint64_t> gaddr;
static DenseMap<const Constant *, E> ccache;
static std::set<std::string> fnsRepo, fnsAll, externsUsed, coversHit, checksSeen; static std::map<std::string, uint64_t> checkCount;
static uint64_t nPaths = 0, nForks = 0, nInst = 0, nChecks = 0, nChecksDischarged = 0, nUnknown = 0, nMemOps = 0, nImplicit = 0; static bool incomplete = false; static std::set<std::string> incReasons;
static uint64_t nInfeasible = 0;
struct Violation { std::string kind, label, where, stack; std::vector<std::pair<std::string, u128>> vals; std::vector<unsigned> widths; std::vector<std::string> known; std::vector<std::string> exprs; };
static std::vector<Violation> viols; static std::set<std::string> violKeys;
struct Sample { std::vector<std::pair<std::string, u128>> vals; std::vector<std::pair<std::string, u128>> obs; };
static std::vector<Sample> samples;
static void inc(const std::string &r) { incomplete = true; incReasons.insert(r); }

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string locOf(const Instruction *I) {
  if (!I) return "?"; const DebugLoc &d = I->getDebugLoc(); if (!d) return "?";
  auto *sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str(); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  return f + ":" + std::to_string(d.getLine());
}
static const Instruction *curInst(State &s) { if (s.st.empty()) return nullptr; auto &f = s.st.back(); return f.pc == f.bb->end() ? nullptr : &*f.pc; }
static std::string stackOf(State &s) { std::string r; for (size_t i = s.st.size(); i-- > 0;) { auto &f = s.st[i]; const Instruction *I = f.pc == f.bb->end() ? nullptr : &*f.pc; if (!r.empty()) r += " <- "; r += f.fi->pretty + "@" + locOf(I); } return r; }
static bool isHarness(const FnInfo *fi) { return !fi->repo; }
static std::string whereOf(State &s) { for (size_t i = s.st.size(); i-- > 0;) { auto &f = s.st[i]; if (f.fi->repo) return f.fi->pretty + " " + locOf(&*f.pc); } return s.st.empty() ? "?" : s.st.back().fi->pretty + " " + locOf(curInst(s)); }

static void report(State &s, const std::string &kind, const std::string &label, const Model &m) {
  std::string key = kind + "|" + label + "|" + (kind == "check" ? "" : whereOf(s)); for (auto &k : s.known) key += "#" + k;
  if (!violKeys.insert(key).second) return;
  Violation v; v.kind = kind; v.label = label; v.where = whereOf(s); v.stack = stackOf(s); v.known = s.known; newEpoch();
  for (auto &x : s.syms) { v.vals.push_back({x.name, evalE(x.v, m)}); v.widths.push_back(x.w); }
  viols.push_back(v);
  fprintf(stderr, "[violation %s: %s at %s]\n", kind.c_str(), label.c_str(), v.where.c_str());
}
static void setModel(State &s, const Model &m) { s.model = std::make_shared<Model>(m); }
static void addPC(State &s, E c) { if (!c->isC()) { if (c->k == K_AND) { addPC(s, c->a); addPC(s, c->b); } else s.pc.push_back(c); } }
static SP cloneState(State &s) { SP n(new State(s)); n->id = ++g_stateId; nForks++; n->forks++; return n; }
// fork off a sibling on which `c` holds (model m); it re-executes the current instruction
static void forkOn(State &s, E c, const Model &m) { SP n = cloneState(s); addPC(*n, c); setModel(*n, m); work.push_back(std::move(n)); }
enum Tri { T_FALSE, T_TRUE, T_BOTH };
// decide cond in the state; on BOTH the state is *not* changed
static bool evalNow(State &s, E c) { newEpoch(); return evalE(c, *s.model) != 0; }
static Res feasible(State &s, E c, Model &m) { Res r = solve(s.pc, c, *s.model, m); if (r == R_UNKNOWN) { nUnknown++; inc("solver gave no answer within its budget"); } return r; }

// continue with cond's value under the current model; sibling gets the other. Returns the value taken.
static bool branchOn(State &s, E cond) {
  if (cond->isC()) return cond->v;
  bool v = evalNow(s, cond); E oth = v ? mkNot(cond) : cond; Model m; Res r = feasible(s, oth, m);
  if (r == R_SAT) forkOn(s, oth, m);
  if (r != R_UNSAT) addPC(s, v ? cond : mkNot(cond));
  return v;
}
static void killState(State &s) { s.dead = true; }

static std::string fillName(const char *p) { return p; }
static uint32_t newObj(State &s, uint64_t size, ObjKind k, const std::string &name) {
  auto o = std::make_shared<Obj>(); uint32_t id = s.objs.size(); o->base = baseOf(id); o->size = size; o->kind = k; o->name = name; o->pages.resize((size + 63) / 64); s.objs.push_back(o); return id;
}
static Obj &wobj(State &s, uint32_t id) { auto &p = s.objs[id]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static Page &wpage(Obj &o, uint64_t pg) {
  auto &p = o.pages[pg];
  if (!p) { p = std::make_shared<Page>(); for (auto &b : p->b) { b.e = o.def ? mkC(0, 8) : nullptr; b.idx = 0; } }
  else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  return *p;
}
static MByte rdByte(State &s, uint32_t id, uint64_t off) {
  Obj &o = *s.objs[id]; auto &p = o.pages[off >> 6];
  if (p && p->b[off & 63].e) return p->b[off & 63];
  if (!p && o.def) return MByte{mkC(0, 8), 0};
  // uninitialised: give it a symbolic value that stays the same from now on
  static uint64_t n = 0; E v = mkVar("undef" + std::to_string(n++) + ":" + o.name, 8);
  Obj &w = wobj(s, id); Page &pg = wpage(w, off >> 6); pg.b[off & 63] = MByte{v, 0}; return pg.b[off & 63];
}
static E byteExpr(const MByte &b) { return b.e->w == 8 && b.idx == 0 ? b.e : mkExtract(b.e, b.idx * 8, 8); }
static E rdMem(State &s, uint32_t id, uint64_t off, unsigned n) {
  assert(n <= 16);
  MByte bs[16]; for (unsigned i = 0; i < n; i++) bs[i] = rdByte(s, id, off + i);
  E r = nullptr;
  for (unsigned i = 0; i < n;) { unsigned j = i + 1; while (j < n && bs[j].e == bs[i].e && bs[j].idx == bs[i].idx + (j - i) && bs[i].e->w > 8) j++;
    E part = mkExtract(bs[i].e, bs[i].idx * 8, (j - i) * 8); r = r ? mkConcat(part, r) : part; i = j; }
  return r;
}
static void wrMem(State &s, uint32_t id, uint64_t off, E v) {
  if (v->w % 8) v = mkZExt(v, (v->w + 7) / 8 * 8);
  unsigned n = v->w / 8; Obj &o = wobj(s, id);
  for (unsigned i = 0; i < n; i++) { Page &p = wpage(o, (off + i) >> 6); p.b[(off + i) & 63] = v->isC() ? MByte{mkC(v->v >> (8 * i), 8), 0} : MByte{v, i}; }
}
struct Stop {}; // thrown when the current state ended or must be rescheduled
static void endPath(State &s, const std::string &kind, const std::string &label) { report(s, kind, label, *s.model); killState(s); throw Stop(); }
// the current instruction needs `ok`; violating inputs are reported, the path goes on with `ok`
static void require(State &s, E ok, const std::string &kind, const std::string &label) {
  nImplicit++;
  if (ok->isC()) { if (!ok->v) endPath(s, kind, label); return; }
  Model m; Res r = feasible(s, mkNot(ok), m);
  if (r == R_SAT) {
    report(s, kind, label, m); Model m2; Res r2 = feasible(s, ok, m2);
    if (r2 != R_SAT) { killState(s); throw Stop(); }
    addPC(s, ok); setModel(s, m2);
  } else if (r != R_UNSAT) addPC(s, ok);
}
// concretise an expression by forking over its feasible values (re-executing the instruction in the siblings)
static u128 concretise(State &s, E e, unsigned limit, const char *what) {
  if (e->isC()) return e->v;
  newEpoch(); u128 v = evalE(e, *s.model); E c = mkEq(e, mkC(v, e->w)); Model m; Res r = feasible(s, mkNot(c), m);
  if (r == R_SAT) forkOn(s, mkNot(c), m);
  if (r != R_UNSAT) addPC(s, c);
  return v;
}
static uint32_t resolveObj(State &s, E addr) {
  if (addr->isC()) return regionOf((uint64_t)addr->v);
  if (addr->k == K_ADD && addr->a->isC()) { uint32_t r = regionOf((uint64_t)addr->a->v); if (r && r < s.objs.size()) {
      E rest = addr->b; s128 lim = (s128)1 << 34; if (rest->slo >= -lim && rest->shi <= lim) return r;
      // rest may be wide: still this region unless the solver says otherwise
      E in = mkEq(mkExtract(addr, 36, 28), mkC(r, 28)); Model m; Res q = feasible(s, mkNot(in), m); if (q == R_UNSAT) return r; } }
  newEpoch(); uint64_t v = (uint64_t)evalE(addr, *s.model); uint32_t r = regionOf(v); E in = mkEq(mkExtract(addr, 36, 28), mkC(r, 28)); Model m;
  { Res r = feasible(s, mkNot(in), m); if (r == R_SAT) forkOn(s, mkNot(in), m); if (r != R_UNSAT) addPC(s, in); }
  return r;
}
// checks an access of n bytes (n>0) and returns object and offset expression (64-bit)
static void access(State &s, E addr, E n, bool write, uint32_t &id, E &off, const char *what) {
  nMemOps++; id = resolveObj(s, addr);
  if (id == 0) endPath(s, "memory", std::string("null pointer ") + what);
  if (id >= s.objs.size() || !s.objs[id]) endPath(s, "memory", std::string("wild pointer ") + what);
  Obj &o = *s.objs[id];
  if (o.kind == OK_FUNC) endPath(s, "memory", std::string("data access to a function in ") + what);
  if (o.freed) endPath(s, "memory", std::string(o.kind == OK_STACK ? "use after return in " : "use after free in ") + what);
  if (write && o.ro) endPath(s, "memory", std::string("write to read-only memory in ") + what);
  off = mkSub(addr, mkC(o.base, 64)); uint64_t size = o.size;
  E sz = mkC(size, 64); E ok = mkAnd(mkUle(n, sz), mkUle(off, mkSub(sz, n)));
  require(s, ok, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " in " + what);
}
static void candidates(State &s, uint32_t id, E off, unsigned n, std::vector<uint64_t> &out) {
  // feasible concrete offsets (or a superset within bounds)
  Obj &o = *s.objs[id]; uint64_t lo = (uint64_t)off->lo, hi = (uint64_t)std::min<u128>(off->hi, o.size - n);
  uint64_t stride = off->tz >= 63 ? 1 : (1ull << std::min<unsigned>(off->tz, 12)); if (lo % stride) lo += stride - lo % stride;
  if (hi >= lo && (hi - lo) / stride + 1 <= 20) { for (uint64_t x = lo; x <= hi; x += stride) out.push_back(x); return; }
  // enumerate with the solver
  std::vector<E> pc = s.pc; Model m = *s.model; newEpoch(); uint64_t v = (uint64_t)evalE(off, m); out.push_back(v); bool full = false;
  for (;;) { pc.push_back(mkNe(off, mkC(v, 64))); if (pc.back()->isC()) { if (!pc.back()->v) break; }
    Model m2; Res r = solve(pc, mkC(1, 1), m, m2); (void)r;
    // mkC(1) short-circuits; ask with the last disequality as condition instead
    E last = pc.back(); pc.pop_back(); r = solve(pc, last, m, m2); if (r == R_UNSAT) break; if (r == R_UNKNOWN) { inc("solver gave no answer within its budget"); nUnknown++; full = true; break; }
    pc.push_back(last); m = m2; newEpoch(); v = (uint64_t)evalE(off, m); out.push_back(v); if (out.size() > 24) { full = true; break; } }
  if (full) { out.clear(); if ((hi - lo) / stride + 1 <= 2048) for (uint64_t x = lo; x <= hi; x += stride) out.push_back(x); }
  std::sort(out.begin(), out.end());
}
static E loadE(State &s, E addr, unsigned n, const char *what) {
  uint32_t id; E off; access(s, addr, mkC(n, 64), false, id, off, what);
  if (off->isC()) return rdMem(s, id, (uint64_t)off->v, n);
  std::vector<uint64_t> c; candidates(s, id, off, n, c);
  if (c.empty()) { uint64_t v = (uint64_t)concretise(s, off, 4096, what); return rdMem(s, id, v, n); }
  E r = rdMem(s, id, c.back(), n); for (size_t i = c.size() - 1; i-- > 0;) r = mkIte(mkEq(off, mkC(c[i], 64)), rdMem(s, id, c[i], n), r);
  return r;
}
static void storeE(State &s, E addr, E v, const char *what) {
  if (v->w % 8) v = mkZExt(v, (v->w + 7) / 8 * 8);
  unsigned n = v->w / 8; uint32_t id; E off; access(s, addr, mkC(n, 64), true, id, off, what);
  if (off->isC()) { wrMem(s, id, (uint64_t)off->v, v); return; }
  std::vector<uint64_t> c; candidates(s, id, off, n, c);
  if (c.empty()) { uint64_t x = (uint64_t)concretise(s, off, 4096, what); wrMem(s, id, x, v); return; }
  bool disj = true; for (size_t i = 1; i < c.size(); i++) if (c[i] - c[i - 1] < n) disj = false;
  if (disj) { for (uint64_t x : c) wrMem(s, id, x, mkIte(mkEq(off, mkC(x, 64)), v, rdMem(s, id, x, n))); return; }
  std::map<uint64_t, E> nb; for (uint64_t x : c) { E is = mkEq(off, mkC(x, 64)); for (unsigned i = 0; i < n; i++) { auto it = nb.find(x + i); E old = it != nb.end() ? it->second : byteExpr(rdByte(s, id, x + i)); nb[x + i] = mkIte(is, mkExtract(v, 8 * i, 8), old); } }
  for (auto &p : nb) wrMem(s, id, p.first, p.second);
}

// ---------------------------------------------------------------- constants
static E constE(State &s, const Constant *c);
static E undefOf(unsigned w) { static uint64_t n = 0; return mkVar("poison" + std::to_string(n++), w); }
static unsigned widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static E constGEP(State &s, const GEPOperator *g) {
  E a = constE(s, cast<Constant>(g->getPointerOperand())); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { report(s, "engine", "unsupported constant gep", *s.model); throw Stop(); } return mkAdd(a, mkC(off.getZExtValue(), 64)); }
static E constE(State &s, const Constant *c) {
  auto it = ccache.find(c); if (it != ccache.end()) return it->second; E r = nullptr;
  if (auto *ci = dyn_cast<ConstantInt>(c)) { const APInt &v = ci->getValue(); u128 x = v.getRawData()[0]; if (v.getBitWidth() > 64) x |= (u128)v.getRawData()[1] << 64; r = mkC(x, v.getBitWidth()); }
  else if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); r = mkC(v.getZExtValue(), v.getBitWidth()); }
  else if (isa<ConstantPointerNull>(c)) r = mkC(0, 64);
  else if (isa<PoisonValue>(c) || isa<UndefValue>(c)) { return undefOf(widthOf(c->getType())); }
  else if (auto *ga = dyn_cast<GlobalAlias>(c)) r = constE(s, ga->getAliasee());
  else if (auto *gv = dyn_cast<GlobalValue>(c)) { auto g = gaddr.find(gv); if (g == gaddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); r = mkC(0, 64); } else r = mkC(g->second, 64); }
  else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: r = constGEP(s, cast<GEPOperator>(ce)); break;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: r = constE(s, ce->getOperand(0)); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: r = mkZT(constE(s, ce->getOperand(0)), widthOf(ce->getType())); break;
    case Instruction::Sub: r = mkSub(constE(s, ce->getOperand(0)), constE(s, ce->getOperand(1))); break;
    case Instruction::Add: r = mkAdd(constE(s, ce->getOperand(0)), constE(s, ce->getOperand(1))); break;
    case Instruction::Trunc: r = mkTrunc(constE(s, ce->getOperand(0)), widthOf(ce->getType())); break;
    case Instruction::ICmp: { E a = constE(s, ce->getOperand(0)), b = constE(s, ce->getOperand(1)); r = ce->getPredicate() == CmpInst::ICMP_EQ ? mkEq(a, b) : mkNe(a, b); break; }
    default: fprintf(stderr, "unsupported constant expr %s\n", ce->getOpcodeName()); r = mkC(0, widthOf(ce->getType()) ? widthOf(ce->getType()) : 64);
    } }
  else if (isa<ConstantAggregateZero>(c)) r = mkC(0, 64);
  else { fprintf(stderr, "unsupported constant\n"); r = mkC(0, 64); }
  ccache[c] = r; return r;
}
static void flatten(Type *t, std::vector<Type *> &out, std::vector<uint64_t> &offs, uint64_t base = 0) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, offs, base + sl->getElementOffset(i)); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, offs, base + i * es); }
  else { out.push_back(t); offs.push_back(base); }
}
static void flatConst(State &s, const Constant *c, std::vector<E> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) flatConst(s, c->getAggregateElement(i), out); }
  else out.push_back(constE(s, c));
}
static RV getRV(State &s, Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) { RV r; if (c->getType()->isAggregateType()) { r.agg = std::make_shared<std::vector<E>>(); flatConst(s, c, *r.agg); } else r.e = constE(s, c); return r; }
  auto it = f.fi->idx.find(v); if (it == f.fi->idx.end()) { fprintf(stderr, "operand without register\n"); RV r; r.e = mkC(0, 64); return r; }
  return f.regs[it->second];
}
static E getE(State &s, Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constE(s, c);
  auto it = f.fi->idx.find(v); assert(it != f.fi->idx.end()); return f.regs[it->second].e;
}
static void setR(State &s, const Instruction *I, E e) { Frame &f = s.st.back(); RV &r = f.regs[f.fi->idx.lookup(I)]; r.e = e; r.agg.reset(); }
static void setRV(State &s, const Instruction *I, RV v) { Frame &f = s.st.back(); f.regs[f.fi->idx.lookup(I)] = v; }

// ---------------------------------------------------------------- functions
static FnInfo *info(const Function *F) {
  auto it = fnInfos.find(F); if (it != fnInfos.end()) return it->second;
  auto *fi = new FnInfo; fi->F = F; for (auto &a : F->args()) fi->idx[&a] = fi->nregs++;
  for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) fi->idx[&i] = fi->nregs++;
  std::string dm = demangle(F->getName().str()); auto p = dm.find('('); std::string sh = p == std::string::npos ? dm : dm.substr(0, p); fi->pretty = sh;
  if (auto *sp = F->getSubprogram()) { std::string fn = sp->getFilename().str(); std::string dir = sp->getDirectory().str(); fi->repo = fn.rfind("/repo/", 0) == 0 || fn.find("DotNetLibrary") != std::string::npos || fn.find("PlatformSupport") != std::string::npos; if (fi->repo) { auto q = fn.find("/repo/"); fi->pretty = sh; } }
  fnInfos[F] = fi; return fi;
}
static void pushFrame(State &s, const Function *F, const std::vector<RV> &args, const std::vector<E> *extra = nullptr) {
  FnInfo *fi = info(F); Frame f; f.fi = fi; f.bb = &F->getEntryBlock(); f.prev = nullptr; f.pc = f.bb->begin(); f.regs.resize(fi->nregs);
  for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++) f.regs[i] = args[i];
  if (s.st.size() > 400) { endPath(s, "hang", "call depth exceeds 400"); }
  if (fi->repo) fnsRepo.insert(demangle(F->getName().str())); 
  s.st.push_back(std::move(f));
  if (extra && !extra->empty()) { uint32_t id = newObj(s, extra->size() * 8, OK_STACK, "varargs"); for (size_t i = 0; i < extra->size(); i++) wrMem(s, id, i * 8, (*extra)[i]); s.st.back().vararg = id; s.st.back().allocas.push_back(id); }
}
static void popFrame(State &s) { for (uint32_t id : s.st.back().allocas) { Obj &o = wobj(s, id); o.freed = true; o.pages.clear(); } s.st.pop_back(); }
static void jump(State &s, const BasicBlock *to) {
  Frame &f = s.st.back(); const BasicBlock *from = f.bb; std::vector<std::pair<unsigned, RV>> upd; auto it = to->begin();
  for (; auto *ph = dyn_cast<PHINode>(&*it); ++it) upd.push_back({f.fi->idx.lookup(ph), getRV(s, f, ph->getIncomingValueForBlock(from))});
  for (auto &u : upd) f.regs[u.first] = u.second;
  f.prev = from; f.bb = to; f.pc = it;
}
// ---------------------------------------------------------------- exceptions
static std::map<const GlobalValue *, int> tiIds; static std::map<uint64_t, const GlobalVariable *> tiByAddr;
static int tiId(const GlobalValue *g) { auto r = tiIds.emplace(g, (int)tiIds.size() + 1); return r.first->second; }
static const GlobalVariable *tiOf(const Constant *c) { c = cast<Constant>(c->stripPointerCasts()); return dyn_cast<GlobalVariable>(c); }
static std::string tiKind(const GlobalVariable *g) { if (!g->hasInitializer()) return "extern"; auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return "?"; const Value *v = cs->getOperand(0)->stripInBoundsConstantOffsets(); std::string n = v->getName().str(); if (n.find("pointer_type_info") != std::string::npos) return "ptr"; if (n.find("vmi_class") != std::string::npos) return "vmi"; if (n.find("si_class") != std::string::npos) return "si"; return "class"; }
static bool tiSame(const GlobalVariable *a, const GlobalVariable *b) { return a == b || a->getName() == b->getName(); }
static bool classDerives(const GlobalVariable *d, const GlobalVariable *b, int64_t &off) {
  if (tiSame(d, b)) return true; std::string k = tiKind(d); auto *cs = d->hasInitializer() ? dyn_cast<ConstantStruct>(d->getInitializer()) : nullptr; if (!cs) return false;
  if (k == "si") { auto *base = tiOf(cs->getOperand(2)); return base && classDerives(base, b, off); }
  if (k == "vmi") { unsigned n = cast<ConstantInt>(cs->getOperand(3))->getZExtValue(); for (unsigned i = 0; i < n; i++) { auto *base = tiOf(cs->getOperand(4 + 2 * i)); int64_t fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue(); int64_t o2 = off + (fl >> 8); if (base && classDerives(base, b, o2)) { off = o2; return true; } } }
  return false;
}
static std::string tiName(const GlobalValue *g) { std::string n = demangle(g->getName().str()); auto p = n.find("typeinfo for "); return p == 0 ? n.substr(13) : n; }
static bool catches(State &s, const GlobalVariable *thrown, const GlobalVariable *handler, E objAddr, E &adj) {
  std::string tk = tiKind(thrown), hk = tiKind(handler);
  if (tk == "ptr" && hk == "ptr") {
    auto *tp = tiOf(cast<ConstantStruct>(thrown->getInitializer())->getOperand(3)), *hp = tiOf(cast<ConstantStruct>(handler->getInitializer())->getOperand(3));
    E pv = rdMem(s, regionOf((uint64_t)objAddr->v), (uint64_t)objAddr->v - s.objs[regionOf((uint64_t)objAddr->v)]->base, 8); int64_t off = 0;
    if (tp && hp && (classDerives(tp, hp, off) || hp->getName() == "_ZTIv")) { adj = mkAdd(pv, mkC((uint64_t)off, 64)); return true; }
    return tiSame(thrown, handler) ? (adj = pv, true) : false;
  }
  int64_t off = 0; if (tk != "ptr" && hk != "ptr" && classDerives(thrown, handler, off)) { adj = mkAdd(objAddr, mkC((uint64_t)off, 64)); return true; }
  if (tiSame(thrown, handler)) { adj = tk == "ptr" ? rdMem(s, regionOf((uint64_t)objAddr->v), (uint64_t)objAddr->v - s.objs[regionOf((uint64_t)objAddr->v)]->base, 8) : objAddr; return true; }
  return false;
}
static void unwind(State &s, uint64_t exc) {
  ExcRec &r = s.excs[exc]; const GlobalVariable *ti = cast<GlobalVariable>(r.ti);
  // phase 1: is there a handler?
  bool found = false;
  for (size_t i = s.st.size(); i-- > 0 && !found;) { Frame &f = s.st[i]; const Instruction *I = &*f.pc; auto *iv = dyn_cast<InvokeInst>(I); if (!iv) continue; auto *lp = iv->getLandingPadInst();
    for (unsigned c = 0; c < lp->getNumClauses(); c++) if (lp->isCatch(c)) { auto *cl = lp->getClause(c); if (isa<ConstantPointerNull>(cl)) { found = true; break; } E adj; auto *h = tiOf(cl); if (h && catches(s, ti, h, mkC(exc, 64), adj)) { found = true; break; } } else if (lp->isFilter(c)) { found = true; } }
  if (!found) endPath(s, "exception", "uncaught exception " + tiName(ti));
  for (;;) {
    Frame &f = s.st.back(); const Instruction *I = &*f.pc; auto *iv = dyn_cast<InvokeInst>(I);
    if (iv) {
      auto *lp = iv->getLandingPadInst(); bool enter = lp->isCleanup(); E sel = mkC(0, 32); bool handler = false;
      for (unsigned c = 0; c < lp->getNumClauses() && !handler; c++) {
        auto *cl = lp->getClause(c);
        if (lp->isCatch(c)) { if (isa<ConstantPointerNull>(cl)) { handler = true; sel = mkC(0x7fff, 32); r.adjusted = mkC(exc, 64); } else { E adj; auto *h = tiOf(cl); if (h && catches(s, ti, h, mkC(exc, 64), adj)) { handler = true; sel = mkC(tiId(h), 32); r.adjusted = adj; } } }
        else { handler = true; sel = mkC((uint32_t)-1, 32); }
      }
      if (handler || enter) {
        jump(s, iv->getUnwindDest()); Frame &g = s.st.back(); // landingpad is first non-phi
        auto agg = std::make_shared<std::vector<E>>(); agg->push_back(mkC(exc, 64)); agg->push_back(sel); RV v; v.agg = agg; g.regs[g.fi->idx.lookup(&*g.pc)] = v; ++g.pc; return;
      }
    }
    popFrame(s); if (s.st.empty()) { killState(s); throw Stop(); }
  }
}
// ---------------------------------------------------------------- externals
static E argE(State &s, const CallBase *cb, unsigned i) { return getE(s, s.st.back(), cb->getArgOperand(i)); }
static std::string cstr(State &s, E p) { std::string r; if (!p->isC()) return "?"; uint32_t id = regionOf((uint64_t)p->v); if (!id || id >= s.objs.size()) return "?"; uint64_t off = (uint64_t)p->v - s.objs[id]->base; for (; off < s.objs[id]->size; off++) { E b = byteExpr(rdByte(s, id, off)); if (!b->isC() || !b->v) break; r += (char)b->v; } return r; }
static void finishCall(State &s, const CallBase *cb) { // continue after a call handled natively
  if (auto *iv = dyn_cast<InvokeInst>(cb)) jump(s, iv->getNormalDest()); else ++s.st.back().pc;
}
static void retE(State &s, const CallBase *cb, E e) { if (!cb->getType()->isVoidTy() && e) setR(s, cb, mkZT(e, widthOf(cb->getType()))); finishCall(s, cb); }
static E doMalloc(State &s, E n, bool zero, const std::string &nm) {
  if (!n->isC()) {
    E big = mkUlt(mkC(MAXALLOC, 64), n); if (branchOn(s, big)) return mkC(0, 64);
    uint64_t v = (uint64_t)concretise(s, n, 4096, "allocation size"); n = mkC(v, 64);
  }
  if ((uint64_t)n->v > MAXALLOC) return mkC(0, 64);
  uint32_t id = newObj(s, (uint64_t)n->v, OK_HEAP, nm); s.objs[id]->def = zero; s.objs[id]->alloc = 1; return mkC(s.objs[id]->base, 64);
}
static void doFree(State &s, E p, const char *what) {
  if (!p->isC()) { uint64_t v = (uint64_t)concretise(s, p, 64, what); p = mkC(v, 64); }
  if (!p->v) return; uint32_t id = regionOf((uint64_t)p->v);
  if (!id || id >= s.objs.size()) endPath(s, "memory", std::string("bad free: wild pointer"));
  Obj &o = *s.objs[id]; if (o.kind != OK_HEAP) endPath(s, "memory", "bad free: memory not from the heap (" + o.name + ")");
  if (o.base != (uint64_t)p->v) endPath(s, "memory", "bad free: pointer inside a block"); if (o.freed) endPath(s, "memory", "double free");
  Obj &w = wobj(s, id); w.freed = true; w.pages.clear();
}
static void copyBytes(State &s, E dst, E src, uint64_t n, bool move, const char *what) {
  if (!n) return; uint32_t si, di; E so, dof; access(s, src, mkC(n, 64), false, si, so, what); access(s, dst, mkC(n, 64), true, di, dof, what);
  if (!so->isC()) so = mkC(concretise(s, so, 4096, what), 64); if (!dof->isC()) dof = mkC(concretise(s, dof, 4096, what), 64);
  uint64_t a = (uint64_t)so->v, b = (uint64_t)dof->v;
  if (!move && si == di && a != b && (a < b ? b - a < n : a - b < n)) { report(s, "memory", "memcpy of overlapping ranges", *s.model); }
  std::vector<MByte> tmp(n); Obj &o = *s.objs[si]; for (uint64_t i = 0; i < n; i++) { auto &p = o.pages[(a + i) >> 6]; tmp[i] = p ? p->b[(a + i) & 63] : MByte{o.def ? mkC(0, 8) : nullptr, 0}; if (!tmp[i].e) tmp[i] = MByte{nullptr, 0}; }
  for (uint64_t i = 0; i < n; i++) if (!tmp[i].e) tmp[i] = rdByte(s, si, a + i);
  Obj &w = wobj(s, di); for (uint64_t i = 0; i < n; i++) wpage(w, (b + i) >> 6).b[(b + i) & 63] = tmp[i];
}
static void setBytes(State &s, E dst, E val, uint64_t n, const char *what) {
  if (!n) return; uint32_t di; E dof; access(s, dst, mkC(n, 64), true, di, dof, what); if (!dof->isC()) dof = mkC(concretise(s, dof, 4096, what), 64);
  Obj &w = wobj(s, di); uint64_t b = (uint64_t)dof->v; E v8 = mkTrunc(val, 8);
  if (b == 0 && n == w.size && v8->isC() && v8->v == 0) { w.def = 1; for (auto &p : w.pages) p.reset(); return; }
  for (uint64_t i = 0; i < n; i++) wpage(w, (b + i) >> 6).b[(b + i) & 63] = MByte{v8, 0};
}
static E lenArg(State &s, E dst, E src, E n, const char *what) { // bounds for a symbolic length, then concretise
  if (n->isC()) return n;
  uint32_t id; E off; E nz = mkNot(mkEq(n, mkC(0, 64)));
  if (branchOn(s, nz)) { if (src) access(s, src, n, false, id, off, what); if (dst) access(s, dst, n, true, id, off, what); }
  return mkC(concretise(s, n, 4096, what), 64);
}
static std::map<std::string, E> ufMemo;
static E uninterp(const std::string &name, const std::vector<E> &args, unsigned w) {
  std::string k = name; for (E a : args) k += "," + std::to_string(a->id); auto it = ufMemo.find(k); if (it != ufMemo.end()) return it->second; E v = mkVar("uf:" + k, w); ufMemo[k] = v; return v; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; } static uint64_t asB(double d) { if (d != d) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &d, 8); return x; }
#define F1(n) {#n, [](u128 a, u128, u128) -> u128 { return asB(n(asD(a))); }}
#define F2(n) {#n, [](u128 a, u128 b, u128) -> u128 { return asB(n(asD(a), asD(b))); }}
static const std::map<std::string, UFn> libm1 = {F1(sin), F1(cos), F1(tan), F1(asin), F1(acos), F1(atan), F1(sinh), F1(cosh), F1(tanh), F1(asinh), F1(acosh), F1(atanh), F1(exp), F1(log), F1(log2), F1(log10), F1(cbrt), F1(exp2), F1(expm1), F1(log1p)};
static const std::map<std::string, UFn> libm2 = {F2(pow), F2(atan2), F2(remainder), F2(hypot)};
static u128 ufScalbn(u128 a, u128 b, u128) { return asB(scalbn(asD(a), (int)b)); }
static u128 ufFma(u128 a, u128 b, u128 c) { return asB(fma(asD(a), asD(b), asD(c))); }
static E mkFma(E a, E b, E c) { if (a->id > b->id) std::swap(a, b); return a->w == 64 ? mkUF("fma", ufFma, 64, a, b, c) : uninterp("fmaf", {a, b, c}, 32); }
static void redirectVar(State &s, const CallBase *cb, const std::string &model, unsigned fixed, unsigned mask);
static void callFn(State &s, const CallBase *cb, const Function *F, const std::vector<RV> &args);

static void addSym(State &s, const std::string &name, E v, unsigned w) { s.syms.push_back({name, v, w}); }
static E freshSym(State &s, const std::string &name, unsigned w, bool ranged = false, s128 lo = 0, s128 hi = 0) {
  // the n-th symbol of a path with a given name/width/range is the same variable on every path
  std::string key = name + "#" + std::to_string(s.syms.size()) + (ranged ? "r" + std::to_string((long long)lo) + ":" + std::to_string((long long)hi) : "") + "w" + std::to_string(w);
  static std::map<std::string, E> memo; auto it = memo.find(key); E e;
  if (it != memo.end()) e = it->second; else { e = ranged ? mkRangedVar(name, w, lo, hi) : mkVar(name, w); memo[key] = e; }
  addSym(s, name, e, w); return e;
}
static bool dispatchExternal(State &s, const CallBase *cb, const std::string &n) {
  auto A = [&](unsigned i) { return argE(s, cb, i); };
  auto is = [&](const char *x) { return n == x; };
  // --- harness API
  if (is("vs_sym")) { std::string nm = cstr(s, A(0)); unsigned w = (unsigned)A(1)->v; E v = freshSym(s, nm, w); retE(s, cb, mkZExt(v, 64)); return true; }
  if (is("vs_range")) { std::string nm = cstr(s, A(0)); s128 lo = sx(A(1)->v, 64), hi = sx(A(2)->v, 64); E v = freshSym(s, nm, 64, true, lo, hi); retE(s, cb, v); return true; }
  if (is("vs_assume")) { E c = mkNe(A(0), mkC(0, A(0)->w)); if (c->isC()) { if (!c->v) { nInfeasible++; killState(s); throw Stop(); } } else if (!evalNow(s, c)) { Model m; Res r = feasible(s, c, m); if (r != R_SAT) { nInfeasible++; killState(s); throw Stop(); } addPC(s, c); setModel(s, m); } else addPC(s, c); retE(s, cb, nullptr); return true; }
  if (is("vs_check")) {
    E c = mkNe(A(0), mkC(0, A(0)->w)); std::string lab = cstr(s, A(1)); checkCount[lab]++; nChecks++;
    if (c->isC()) { if (!c->v) endPath(s, "check", lab); nChecksDischarged++; }
    else { Model m; Res r = feasible(s, mkNot(c), m); if (r == R_SAT) { report(s, "check", lab, m); Model m2; if (feasible(s, c, m2) != R_SAT) { killState(s); throw Stop(); } addPC(s, c); setModel(s, m2); } else if (r == R_UNSAT) nChecksDischarged++; }
    if (s.obs.size() < 4000 && lab[0] != 0x7e) s.obs.push_back({"c:" + lab, mkC(1, 1)}); retE(s, cb, nullptr); return true; }
  if (is("vs_cover")) { std::string lab = cstr(s, A(0)); coversHit.insert(lab); if (s.obs.size() < 4000) s.obs.push_back({"v:" + lab, mkC(1, 1)}); retE(s, cb, nullptr); return true; }
  if (is("vs_obs")) { std::string lab = cstr(s, A(0)); if (s.obs.size() < 4000) s.obs.push_back({"o:" + lab, A(1)}); retE(s, cb, nullptr); return true; }
  if (is("vs_pick")) { E e = A(0); bool first = s.picks == 0; u128 v = concretise(s, e, 4096, "pick"); if (first && shardN > 1) { if ((uint64_t)v % shardN != (uint64_t)shardK) { nInfeasible++; killState(s); throw Stop(); } } s.picks++; retE(s, cb, mkC(v, 64)); return true; }
  if (is("vs_tier")) { retE(s, cb, mkC(optTier, 32)); return true; }
  if (is("vs_symbolic")) { retE(s, cb, mkC(1, 32)); return true; }
  if (is("vs_known")) { std::string id = cstr(s, A(0)); E c = mkNe(A(1), mkC(0, A(1)->w)); bool t = branchOn(s, c); if (t) s.known.push_back(id); retE(s, cb, nullptr); return true; }
  if (is("vs_known_end")) { std::string id = cstr(s, A(0)); s.known.erase(std::remove(s.known.begin(), s.known.end(), id), s.known.end()); retE(s, cb, nullptr); return true; }
  if (is("vs_stop")) { nPaths++; killState(s); throw Stop(); }
  if (is("vs_memcmp")) { // branch-free comparison of n (concrete) bytes: 1 if equal
    uint64_t len = (uint64_t)concretise(s, A(2), 4096, "length"); E r = mkC(1, 1); for (uint64_t i = 0; i < len; i++) r = mkAnd(r, mkEq(loadE(s, mkAdd(A(0), mkC(i, 64)), 1, "memcmp"), loadE(s, mkAdd(A(1), mkC(i, 64)), 1, "memcmp"))); retE(s, cb, mkZExt(r, 32)); return true; }
  if (is("vs_isfreed")) { uint64_t p = (uint64_t)A(0)->v; uint32_t id = regionOf(p); retE(s, cb, mkC(id && id < s.objs.size() && s.objs[id]->freed, 32)); return true; }
  if (is("vs_ite")) { E c = mkNe(A(0), mkC(0, A(0)->w)); retE(s, cb, mkIte(c, A(1), A(2))); return true; }
  if (is("vs_fail_engine")) { inc("model: " + cstr(s, A(0))); killState(s); throw Stop(); }
  // --- allocation
  if (is("malloc") || is("_Znwm") || is("_Znam")) { E r = doMalloc(s, A(0), false, "malloc@" + locOf(cb)); if (s.dead) throw Stop(); retE(s, cb, r); return true; }
  if (is("calloc")) { E r = doMalloc(s, mkMul(A(0), A(1)), true, "calloc@" + locOf(cb)); retE(s, cb, r); return true; }
  if (is("realloc")) { E old = A(0); E p = doMalloc(s, A(1), false, "realloc"); if (p->v && old->isC() && old->v) { uint32_t oid = regionOf((uint64_t)old->v); if (oid < s.objs.size()) { uint64_t k = std::min(s.objs[oid]->size, s.objs[regionOf((uint64_t)p->v)]->size); copyBytes(s, p, old, k, true, "realloc"); doFree(s, old, "realloc"); } } retE(s, cb, p); return true; }
  if (is("free") || is("_ZdlPv") || is("_ZdaPv") || is("_ZdlPvm") || is("_ZdaPvm")) { doFree(s, A(0), "free"); retE(s, cb, nullptr); return true; }
  // --- memory functions
  if (is("memcpy") || is("memmove") || is("wmemcpy") || is("wmemmove") || is("__memcpy_chk") || is("__memmove_chk")) { E nn = A(2); if (n[0] == 'w') nn = mkMul(nn, mkC(4, 64)); nn = lenArg(s, A(0), A(1), nn, n.c_str()); copyBytes(s, A(0), A(1), (uint64_t)nn->v, n.find("move") != std::string::npos, n.c_str()); retE(s, cb, A(0)); return true; }
  if (is("memset")) { E nn = lenArg(s, A(0), nullptr, A(2), "memset"); setBytes(s, A(0), A(1), (uint64_t)nn->v, "memset"); retE(s, cb, A(0)); return true; }
  if (is("wmemset")) { uint64_t k = (uint64_t)concretise(s, A(2), 4096, "wmemset"); for (uint64_t i = 0; i < k; i++) storeE(s, mkAdd(A(0), mkC(4 * i, 64)), A(1), "wmemset"); retE(s, cb, A(0)); return true; }
  if (is("memcmp") || is("bcmp")) { // sign of first difference, branch-free
    E nn = lenArg(s, nullptr, A(0), A(2), "memcmp"); uint64_t len = (uint64_t)nn->v; E r = mkC(0, 32);
    for (uint64_t i = len; i-- > 0;) { E x = loadE(s, mkAdd(A(0), mkC(i, 64)), 1, "memcmp"), y = loadE(s, mkAdd(A(1), mkC(i, 64)), 1, "memcmp"); r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkC(~(u128)0, 32), mkC(1, 32))); }
    retE(s, cb, r); return true; }
  // --- C++ runtime
  if (is("__cxa_allocate_exception")) { uint32_t id = newObj(s, (uint64_t)A(0)->v, OK_EXC, "exception"); retE(s, cb, mkC(s.objs[id]->base, 64)); return true; }
  if (is("__cxa_free_exception")) { retE(s, cb, nullptr); return true; }
  if (is("__cxa_throw")) { uint64_t o = (uint64_t)A(0)->v; ExcRec r; r.obj = o; r.ti = tiOf(cast<Constant>(cb->getArgOperand(1))); r.handlers = 0; r.adjusted = nullptr; s.excs[o] = r; unwind(s, o); return true; }
  if (is("__cxa_rethrow")) { if (s.caught.empty()) endPath(s, "exception", "rethrow without exception"); uint64_t o = s.caught.back(); s.caught.pop_back(); unwind(s, o); return true; }
  if (is("__cxa_begin_catch")) { uint64_t o = (uint64_t)A(0)->v; s.caught.push_back(o); retE(s, cb, s.excs[o].adjusted ? s.excs[o].adjusted : mkC(o, 64)); return true; }
  if (is("__cxa_get_exception_ptr")) { uint64_t o = (uint64_t)A(0)->v; retE(s, cb, s.excs[o].adjusted); return true; }
  if (is("__cxa_end_catch")) { if (!s.caught.empty()) s.caught.pop_back(); retE(s, cb, nullptr); return true; }
  if (is("_Unwind_Resume")) { unwind(s, (uint64_t)A(0)->v); return true; }
  if (is("__cxa_atexit") || is("atexit")) { retE(s, cb, mkC(0, 32)); return true; }
  if (is("__cxa_guard_acquire")) { E g = loadE(s, A(0), 1, "guard"); retE(s, cb, mkZExt(mkEq(g, mkC(0, 8)), 32)); return true; }
  if (is("__cxa_guard_release")) { storeE(s, A(0), mkC(1, 8), "guard"); retE(s, cb, nullptr); return true; }
  if (is("__cxa_guard_abort")) { retE(s, cb, nullptr); return true; }
  if (is("__cxa_pure_virtual") || is("_ZSt9terminatev") || is("abort") || is("__assert_fail") || is("__stack_chk_fail")) endPath(s, "crash", n);
  if (is("exit") || is("_exit") || is("quick_exit")) endPath(s, "crash", "process exit");
  if (is("__dynamic_cast")) { // src, srcType, dstType, hint
    E p = A(0); if (!p->isC()) p = mkC(concretise(s, p, 64, "dynamic_cast"), 64); if (!p->v) { retE(s, cb, mkC(0, 64)); return true; }
    E vt = loadE(s, p, 8, "vtable pointer"); if (!vt->isC()) vt = mkC(concretise(s, vt, 64, "vtable"), 64); E top = loadE(s, mkAdd(vt, mkC((uint64_t)-16, 64)), 8, "offset to top"); E ti = loadE(s, mkAdd(vt, mkC((uint64_t)-8, 64)), 8, "typeinfo");
    auto *dyn = tiByAddr.count((uint64_t)ti->v) ? tiByAddr[(uint64_t)ti->v] : nullptr; auto *dst = tiOf(cast<Constant>(cb->getArgOperand(2))); int64_t off = 0; E r = mkC(0, 64); if (dyn && dst && classDerives(dyn, dst, off)) r = mkAdd(mkAdd(p, top), mkC((uint64_t)off, 64)); retE(s, cb, r); return true; }
  // --- math
  { auto it = libm1.find(n); if (it != libm1.end()) { retE(s, cb, mkUF(n, it->second, 64, A(0))); return true; } }
  { auto it = libm2.find(n); if (it != libm2.end()) { E a = A(0), b = A(1); retE(s, cb, mkUF(n, it->second, 64, a, b)); return true; } }
  if (is("fma")) { E a = A(0), b = A(1), c = A(2); retE(s, cb, mkFma(a, b, c)); return true; }
  if (is("sqrt") || is("sqrtf")) { retE(s, cb, mkFSqrt(A(0))); return true; }
  if (is("floor") || is("floorf")) { retE(s, cb, mkFRint(A(0), RM_DOWN)); return true; }
  if (is("ceil") || is("ceilf")) { retE(s, cb, mkFRint(A(0), RM_UP)); return true; }
  if (is("trunc") || is("truncf")) { retE(s, cb, mkFRint(A(0), RM_TRUNC)); return true; }
  if (is("rint") || is("nearbyint") || is("rintf") || is("nearbyintf")) { retE(s, cb, mkFRint(A(0), RM_RNE)); return true; }
  if (is("round") || is("roundf")) { retE(s, cb, mkFRint(A(0), RM_RNA)); return true; }
  if (is("fabs") || is("fabsf")) { retE(s, cb, fpAbs(A(0))); return true; }
  if (is("copysign") || is("copysignf")) { retE(s, cb, fpCopySign(A(0), A(1))); return true; }
  if (is("fmod") || is("fmodf")) { retE(s, cb, mkF(K_FREM, A(0), A(1))); return true; }
  if (is("scalbn") || is("ldexp") || is("scalbln")) { E a = A(0), b = A(1); if (b->w > 32) b = mkIte(mkSlt(mkC(2147483647, b->w), b), mkC(2147483647, b->w), mkIte(mkSlt(b, mkC((u128)(s128)-2147483648LL, b->w)), mkC((u128)(s128)-2147483648LL, b->w), b)); retE(s, cb, mkUF("scalbn", ufScalbn, 64, a, mkTrunc(b, 32))); return true; }
  if (is("modf")) { E a = A(0); E t = mkFRint(a, RM_TRUNC); storeE(s, A(1), t, "modf"); E inf = mkEq(fpAbs(a), mkC((u128)0x7ff0000000000000ull, 64)); E fr = mkIte(inf, mkC(0, 64), mkF(K_FSUB, a, t)); retE(s, cb, fpCopySign(fr, a)); return true; }
  // --- variadic formatting: packed arguments handed to the C model
  if (is("swprintf") || is("__swprintf_chk")) { bool chk = n[0] == '_'; if (chk) redirectVar(s, cb, "vsm_swprintf", 5, 0b10011); else redirectVar(s, cb, "vsm_swprintf", 3, 0b111); return true; }
  if (is("snprintf")) { redirectVar(s, cb, "vsm_snprintf", 3, 0b111); return true; }
  if (is("sprintf")) { redirectVar(s, cb, "vsm_sprintf", 2, 0b11); return true; }
  if (is("swscanf") || is("__isoc23_swscanf") || is("__isoc99_swscanf")) { redirectVar(s, cb, "vsm_swscanf", 2, 0b11); return true; }
  if (is("printf") || is("__printf_chk")) { redirectVar(s, cb, "vsm_printf", is("printf") ? 1 : 2, is("printf") ? 1 : 2); return true; }
  if (is("wprintf")) { redirectVar(s, cb, "vsm_wprintf", 1, 1); return true; }
  if (is("fprintf")) { redirectVar(s, cb, "vsm_printf", 2, 2); return true; }
  if (is("fwprintf")) { redirectVar(s, cb, "vsm_wprintf", 2, 2); return true; }
  if (is("fflush")) { retE(s, cb, mkC(0, 32)); return true; }
  return false;
}
static void redirectVar(State &s, const CallBase *cb, const std::string &model, unsigned fixed, unsigned mask) {
  const Function *F = M->getFunction(model); if (!F || F->isDeclaration()) { inc("no model " + model); killState(s); throw Stop(); }
  std::vector<RV> args; for (unsigned i = 0; i < fixed; i++) if (mask >> i & 1) { RV r; r.e = argE(s, cb, i); args.push_back(r); }
  unsigned nv = cb->arg_size() - fixed; uint32_t id = newObj(s, nv * 8 + 8, OK_STACK, "varargs"); for (unsigned i = 0; i < nv; i++) { E v = argE(s, cb, fixed + i); wrMem(s, id, 8 * i, mkZT(v, 64)); }
  RV a; a.e = mkC(nv, 32); args.push_back(a); RV b; b.e = mkC(s.objs[id]->base, 64); args.push_back(b);
  // shape: model(fixed..., nargs, args)
  std::vector<RV> fa = args; pushFrame(s, F, fa); s.st.back().allocas.push_back(id);
}
static void callFn(State &s, const CallBase *cb, const Function *F, const std::vector<RV> &argsIn) {
  std::vector<RV> args = argsIn;
  for (unsigned i = 0; i < args.size() && i < F->arg_size(); i++) if (cb && cb->isByValArgument(i)) { // copy
    Type *t = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(t); uint32_t id = newObj(s, sz, OK_STACK, "byval"); copyBytes(s, mkC(s.objs[id]->base, 64), args[i].e, sz, true, "byval"); args[i].e = mkC(s.objs[id]->base, 64); }
  std::vector<E> extra; if (F->isVarArg()) for (unsigned i = F->arg_size(); i < args.size(); i++) extra.push_back(mkZT(args[i].e, 64));
  pushFrame(s, F, args, &extra);
}
// ---------------------------------------------------------------- instructions
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNe(a, b);
  case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a);
  default: assert(0); return nullptr; }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
  E uno = mkOr(fpIsNaN(a), fpIsNaN(b));
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkC(0, 1); case CmpInst::FCMP_TRUE: return mkC(1, 1);
  case CmpInst::FCMP_OEQ: return fpOEQ(a, b); case CmpInst::FCMP_UEQ: return mkOr(uno, fpOEQ(a, b)); case CmpInst::FCMP_ONE: return mkAnd(mkNot(uno), mkNot(fpOEQ(a, b))); case CmpInst::FCMP_UNE: return mkNot(fpOEQ(a, b));
  case CmpInst::FCMP_OLT: return fpOLT(a, b); case CmpInst::FCMP_OLE: return fpOLE(a, b); case CmpInst::FCMP_OGT: return fpOLT(b, a); case CmpInst::FCMP_OGE: return fpOLE(b, a);
  case CmpInst::FCMP_ULT: return mkOr(uno, fpOLT(a, b)); case CmpInst::FCMP_ULE: return mkOr(uno, fpOLE(a, b)); case CmpInst::FCMP_UGT: return mkOr(uno, fpOLT(b, a)); case CmpInst::FCMP_UGE: return mkOr(uno, fpOLE(b, a));
  case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno; default: assert(0); return nullptr; }
}
static E shiftAmt(E b) { unsigned w = b->w; if (w == 32 || w == 64) return mkAnd(b, mkC(w - 1, w)); return b; }
static void unsupported(State &s, const Instruction *I) { std::string t; raw_string_ostream o(t); I->print(o); inc("unsupported instruction: " + o.str()); killState(s); throw Stop(); }
static E gepAddr(State &s, Frame &f, const GEPOperator *g) {
  E a = getE(s, f, g->getPointerOperand()); u128 cst = 0;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *op = it.getOperand();
    if (auto *st = it.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); }
    else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); E i = getE(s, f, op); E i64 = i->w < 64 ? mkSExt(i, 64) : mkTrunc(i, 64); a = mkAdd(a, mkMul(i64, mkC(sz, 64))); }
  }
  return mkAdd(a, mkC(cst, 64));
}
static void execIntrinsic(State &s, const IntrinsicInst *I) {
  auto A = [&](unsigned i) { return argE(s, I, i); };
  auto R = [&](E e) { setR(s, I, e); };
  switch (I->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: break;
  case Intrinsic::stacksave: R(mkC(0, 64)); break;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { E n = lenArg(s, A(0), A(1), mkZT(A(2), 64), "memcpy"); copyBytes(s, A(0), A(1), (uint64_t)n->v, false, "memcpy"); break; }
  case Intrinsic::memmove: { E n = lenArg(s, A(0), A(1), mkZT(A(2), 64), "memmove"); copyBytes(s, A(0), A(1), (uint64_t)n->v, true, "memmove"); break; }
  case Intrinsic::memset: { E n = lenArg(s, A(0), nullptr, mkZT(A(2), 64), "memset"); setBytes(s, A(0), A(1), (uint64_t)n->v, "memset"); break; }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: R(A(0)); break;
  case Intrinsic::is_constant: R(mkC(0, 1)); break;
  case Intrinsic::objectsize: R(mkC(~(u128)0, widthOf(I->getType()))); break;
  case Intrinsic::trap: case Intrinsic::debugtrap: endPath(s, "crash", "trap"); break;
  case Intrinsic::umax: R(mkIte(mkUlt(A(0), A(1)), A(1), A(0))); break; case Intrinsic::umin: R(mkIte(mkUlt(A(0), A(1)), A(0), A(1))); break;
  case Intrinsic::smax: R(mkIte(mkSlt(A(0), A(1)), A(1), A(0))); break; case Intrinsic::smin: R(mkIte(mkSlt(A(0), A(1)), A(0), A(1))); break;
  case Intrinsic::abs: R(mkIte(mkSlt(A(0), mkC(0, A(0)->w)), mkSub(mkC(0, A(0)->w), A(0)), A(0))); break;
  case Intrinsic::bswap: { E a = A(0), r = nullptr; for (unsigned i = 0; i < a->w / 8; i++) { E b = mkExtract(a, 8 * i, 8); r = r ? mkConcat(r, b) : b; } R(r); break; }
  case Intrinsic::ctpop: { E a = A(0); E r = mkC(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->w)); R(r); break; }
  case Intrinsic::ctlz: { E a = A(0); E r = mkC(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkEq(mkExtract(a, i, 1), mkC(1, 1)), mkC(a->w - 1 - i, a->w), r); R(r); break; }
  case Intrinsic::cttz: { E a = A(0); E r = mkC(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = mkIte(mkEq(mkExtract(a, i, 1), mkC(1, 1)), mkC(i, a->w), r); R(r); break; }
  case Intrinsic::fshl: case Intrinsic::fshr: { E a = A(0), b = A(1), c = A(2); unsigned w = a->w; if (w > 64) unsupported(s, I); E cat = mkConcat(a, b); E sh = mkZExt(mkURem(c, mkC(w, w)), 2 * w); R(I->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkShl(cat, sh), w, w) : mkExtract(mkLShr(cat, sh), 0, w)); break; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    E a = A(0), b = A(1); unsigned w = a->w; auto id = I->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; E v, o;
    if (id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow) { if (w > 64) unsupported(s, I); E x = sg ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), y = sg ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w); E p = mkMul(x, y); v = mkExtract(p, 0, w); o = mkNe(p, sg ? mkSExt(v, 2 * w) : mkZExt(v, 2 * w)); }
    else { E x = sg ? mkSExt(a, w + 1) : mkZExt(a, w + 1), y = sg ? mkSExt(b, w + 1) : mkZExt(b, w + 1); bool add = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow; E p = add ? mkAdd(x, y) : mkSub(x, y); v = add ? mkAdd(a, b) : mkSub(a, b); o = mkNe(p, sg ? mkSExt(v, w + 1) : mkZExt(v, w + 1)); }
    RV r; r.agg = std::make_shared<std::vector<E>>(std::vector<E>{v, o}); setRV(s, I, r); break; }
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: unsupported(s, I); break;
  case Intrinsic::fabs: R(fpAbs(A(0))); break; case Intrinsic::copysign: R(fpCopySign(A(0), A(1))); break;
  case Intrinsic::floor: R(mkFRint(A(0), RM_DOWN)); break; case Intrinsic::ceil: R(mkFRint(A(0), RM_UP)); break; case Intrinsic::trunc: R(mkFRint(A(0), RM_TRUNC)); break;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: R(mkFRint(A(0), RM_RNE)); break; case Intrinsic::round: R(mkFRint(A(0), RM_RNA)); break;
  case Intrinsic::lrint: case Intrinsic::llrint: R(x86F2SI(mkFRint(A(0), RM_RNE), widthOf(I->getType()))); break;
  case Intrinsic::lround: case Intrinsic::llround: R(x86F2SI(mkFRint(A(0), RM_RNA), widthOf(I->getType()))); break;
  case Intrinsic::sqrt: R(mkFSqrt(A(0))); break;
  case Intrinsic::minnum: R(mkIte(fpIsNaN(A(0)), A(1), mkIte(fpIsNaN(A(1)), A(0), mkIte(fpOLT(A(1), A(0)), A(1), A(0))))); break;
  case Intrinsic::maxnum: R(mkIte(fpIsNaN(A(0)), A(1), mkIte(fpIsNaN(A(1)), A(0), mkIte(fpOLT(A(0), A(1)), A(1), A(0))))); break;
  case Intrinsic::fma: case Intrinsic::fmuladd: if (I->getIntrinsicID() == Intrinsic::fmuladd) { R(mkF(K_FADD, mkF(K_FMUL, A(0), A(1)), A(2))); break; } R(mkFma(A(0), A(1), A(2))); break;
  case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp2: {
    static const std::map<unsigned, const char *> nm = {{Intrinsic::sin, "sin"}, {Intrinsic::cos, "cos"}, {Intrinsic::exp, "exp"}, {Intrinsic::log, "log"}, {Intrinsic::log2, "log2"}, {Intrinsic::log10, "log10"}, {Intrinsic::exp2, "exp2"}}; const char *q = nm.at(I->getIntrinsicID()); E a = A(0); if (a->w == 64) R(mkUF(q, libm1.at(q), 64, a)); else R(uninterp(q, {a}, a->w)); break; }
  case Intrinsic::pow: { E a = A(0), b = A(1); R(a->w == 64 ? mkUF("pow", libm2.at("pow"), 64, a, b) : uninterp("pow", {a, b}, a->w)); break; }
  case Intrinsic::is_fpclass: { E a = A(0); unsigned t = (unsigned)A(1)->v, w = a->w; E m = mkExtract(a, 0, w - 1), sg = mkExtract(a, w - 1, 1); unsigned mb = w == 64 ? 52 : 23; E inf = mkC(maskw(w - 1 - mb) << mb, w - 1), q = mkExtract(a, mb - 1, 1); E nan = mkUlt(inf, m), isinf = mkEq(m, inf), zero = mkEq(m, mkC(0, w - 1)), ex0 = mkEq(mkExtract(a, mb, w - 1 - mb), mkC(0, w - 1 - mb)); E sub = mkAnd(ex0, mkNot(zero)), norm = mkAnd(mkNot(ex0), mkUlt(m, inf)); E r = mkC(0, 1); auto add = [&](unsigned bit, E e) { if (t >> bit & 1) r = mkOr(r, e); };
    E pos = mkNot(sg); add(0, mkAnd(nan, mkNot(q))); add(1, mkAnd(nan, q)); add(2, mkAnd(isinf, sg)); add(3, mkAnd(norm, sg)); add(4, mkAnd(sub, sg)); add(5, mkAnd(zero, sg)); add(6, mkAnd(zero, pos)); add(7, mkAnd(sub, pos)); add(8, mkAnd(norm, pos)); add(9, mkAnd(isinf, pos)); R(r); break; }
  case Intrinsic::eh_typeid_for: { auto *h = tiOf(cast<Constant>(I->getArgOperand(0))); R(mkC(h ? tiId(h) : 0x7fff, 32)); break; }
  case Intrinsic::vastart: { uint32_t id = s.st.back().vararg; E p = A(0); uint64_t base = id ? s.objs[id]->base : 0; storeE(s, p, mkC(48, 32), "va_start"); storeE(s, mkAdd(p, mkC(4, 64)), mkC(176, 32), "va_start"); storeE(s, mkAdd(p, mkC(8, 64)), mkC(base, 64), "va_start"); storeE(s, mkAdd(p, mkC(16, 64)), mkC(0, 64), "va_start"); break; }
  case Intrinsic::vaend: break;
  case Intrinsic::vacopy: copyBytes(s, A(0), A(1), 24, true, "va_copy"); break;
  default: unsupported(s, I);
  }
  finishCall(s, I);
}
static void step(State &s) {
  Frame &f = s.st.back(); const Instruction *I = &*f.pc; nInst++; s.steps++;
  if (s.steps > optMaxSteps) endPath(s, "hang", "no end within " + std::to_string(optMaxSteps) + " instructions");
  if (optTrace) { std::string t; raw_string_ostream o(t); I->print(o); fprintf(stderr, "%zu %s%s\n", s.st.size(), f.fi->pretty.c_str(), o.str().c_str()); }
  auto O = [&](unsigned i) { return getE(s, s.st.back(), I->getOperand(i)); };
  auto R = [&](E e) { setR(s, I, e); ++s.st.back().pc; };
  auto vecCheck = [&](Type *t) { if (t->isVectorTy() || t->isX86_FP80Ty() || (t->isIntegerTy() && t->getIntegerBitWidth() > 128)) unsupported(s, I); };
  vecCheck(I->getType()); for (auto &op : I->operands()) vecCheck(op->getType());
  switch (I->getOpcode()) {
  case Instruction::Ret: {
    RV r; bool has = I->getNumOperands(); if (has) r = getRV(s, f, I->getOperand(0)); popFrame(s); if (s.st.empty()) return; Frame &g = s.st.back(); const CallBase *cb = cast<CallBase>(&*g.pc);
    if (has && !cb->getType()->isVoidTy()) { if (r.e) { unsigned w = widthOf(cb->getType()); if (w && w != r.e->w) r.e = mkZT(r.e, w); } setRV(s, cb, r); } finishCall(s, cb); return; }
  case Instruction::Br: { auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; } E c = O(0); bool v = branchOn(s, c); jump(s, b->getSuccessor(v ? 0 : 1)); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I); E v = O(0);
    if (v->isC()) { for (auto &c : sw->cases()) { const APInt &cv = c.getCaseValue()->getValue(); if (cv.getZExtValue() == (uint64_t)v->v) { jump(s, c.getCaseSuccessor()); return; } } jump(s, sw->getDefaultDest()); return; }
    std::map<const BasicBlock *, E> by; std::vector<const BasicBlock *> order; E any = mkC(0, 1);
    for (auto &c : sw->cases()) { E e = mkEq(v, mkC(c.getCaseValue()->getValue().getZExtValue(), v->w)); any = mkOr(any, e); auto it = by.find(c.getCaseSuccessor()); if (it == by.end()) { by[c.getCaseSuccessor()] = e; order.push_back(c.getCaseSuccessor()); } else it->second = mkOr(it->second, e); }
    E dn = mkNot(any); auto dit = by.find(sw->getDefaultDest()); if (dit == by.end()) { by[sw->getDefaultDest()] = dn; order.push_back(sw->getDefaultDest()); } else dit->second = mkOr(dit->second, dn);
    const BasicBlock *taken = nullptr; for (auto *b : order) if (evalNow(s, by[b])) { taken = b; break; }
    assert(taken); bool any2 = false; for (auto *b : order) if (b != taken) { Model m; Res r = feasible(s, by[b], m); if (r == R_SAT) forkOn(s, by[b], m); if (r != R_UNSAT) any2 = true; }
    if (any2) addPC(s, by[taken]); jump(s, taken); return; }
  case Instruction::Unreachable: endPath(s, "crash", "unreachable code reached"); return;
  case Instruction::Resume: { RV r = getRV(s, f, I->getOperand(0)); uint64_t exc = (uint64_t)(*r.agg)[0]->v; // continue in the caller
    popFrame(s); if (s.st.empty()) { killState(s); throw Stop(); } unwind(s, exc); return; }
  case Instruction::Alloca: { auto *a = cast<AllocaInst>(I); E n = mkZT(O(0), 64); uint64_t es = DL->getTypeAllocSize(a->getAllocatedType()); uint64_t cnt = (uint64_t)concretise(s, n, 4096, "alloca"); uint32_t id = newObj(s, es * cnt, OK_STACK, a->hasName() ? a->getName().str() : "local"); s.st.back().allocas.push_back(id); R(mkC(s.objs[id]->base, 64)); return; }
  case Instruction::Load: { Type *t = I->getType(); E p = O(0);
    if (t->isAggregateType()) { std::vector<Type *> ts; std::vector<uint64_t> os; flatten(t, ts, os); RV r; r.agg = std::make_shared<std::vector<E>>(); for (size_t i = 0; i < ts.size(); i++) { unsigned w = widthOf(ts[i]); r.agg->push_back(mkTrunc(loadE(s, mkAdd(p, mkC(os[i], 64)), (w + 7) / 8, "load"), w)); } setRV(s, I, r); ++s.st.back().pc; return; }
    unsigned w = widthOf(t); E v = loadE(s, p, (w + 7) / 8, "load"); R(mkTrunc(v, w)); return; }
  case Instruction::Store: { Type *t = I->getOperand(0)->getType(); E p = O(1);
    if (t->isAggregateType()) { RV r = getRV(s, f, I->getOperand(0)); std::vector<Type *> ts; std::vector<uint64_t> os; flatten(t, ts, os); for (size_t i = 0; i < ts.size(); i++) storeE(s, mkAdd(p, mkC(os[i], 64)), (*r.agg)[i], "store"); ++s.st.back().pc; return; }
    storeE(s, p, O(0), "store"); ++s.st.back().pc; return; }
  case Instruction::GetElementPtr: R(gepAddr(s, f, cast<GEPOperator>(I))); return;
  case Instruction::Add: R(mkAdd(O(0), O(1))); return; case Instruction::Sub: R(mkSub(O(0), O(1))); return; case Instruction::Mul: R(mkMul(O(0), O(1))); return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E a = O(0), b = O(1); unsigned w = a->w; require(s, mkNe(b, mkC(0, w)), "crash", "integer division by zero"); bool sg = I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem;
    if (sg && w >= 32 && b->slo <= -1 && b->shi >= -1) require(s, mkNot(mkAnd(mkEq(a, mkC((u128)1 << (w - 1), w)), mkEq(b, mkC(~(u128)0, w)))), "crash", "integer division overflow");
    if (sg && a->slo < 0 && a->shi > 0) { bool rem = I->getOpcode() == Instruction::SRem; // decide the sign on this path when that makes the result linear
      E p = mkSDivRemKnown(a, b, false, rem), n = mkSDivRemKnown(a, b, true, rem); if (p || n) { E r = branchOn(s, mkSlt(a, mkC(0, w))) ? n : p; if (r) { R(r); return; } } }
    R(I->getOpcode() == Instruction::UDiv ? mkUDiv(a, b) : I->getOpcode() == Instruction::SDiv ? mkSDiv(a, b) : I->getOpcode() == Instruction::URem ? mkURem(a, b) : mkSRem(a, b)); return; }
  case Instruction::And: R(mkAnd(O(0), O(1))); return; case Instruction::Or: R(mkOr(O(0), O(1))); return; case Instruction::Xor: R(mkXor(O(0), O(1))); return;
  case Instruction::Shl: R(mkShl(O(0), shiftAmt(O(1)))); return; case Instruction::LShr: R(mkLShr(O(0), shiftAmt(O(1)))); return; case Instruction::AShr: R(mkAShr(O(0), shiftAmt(O(1)))); return;
  case Instruction::ICmp: R(icmp(cast<ICmpInst>(I)->getPredicate(), O(0), O(1))); return; case Instruction::FCmp: R(fcmp(cast<FCmpInst>(I)->getPredicate(), O(0), O(1))); return;
  case Instruction::Select: { E c = O(0); if (I->getType()->isAggregateType()) { RV a = getRV(s, f, I->getOperand(1)), b = getRV(s, f, I->getOperand(2)); bool v = branchOn(s, c); setRV(s, I, v ? a : b); ++s.st.back().pc; return; } R(mkIte(c, O(1), O(2))); return; }
  case Instruction::PHI: ++f.pc; return; // handled by jump
  case Instruction::Trunc: R(mkTrunc(O(0), widthOf(I->getType()))); return; case Instruction::ZExt: R(mkZExt(O(0), widthOf(I->getType()))); return; case Instruction::SExt: R(mkSExt(O(0), widthOf(I->getType()))); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: R(mkZT(O(0), widthOf(I->getType()))); return;
  case Instruction::BitCast: case Instruction::AddrSpaceCast: R(O(0)); return;
  case Instruction::Freeze: setRV(s, I, getRV(s, f, I->getOperand(0))); ++s.st.back().pc; return;
  case Instruction::FAdd: R(mkF(K_FADD, O(0), O(1))); return; case Instruction::FSub: R(mkF(K_FSUB, O(0), O(1))); return; case Instruction::FMul: R(mkF(K_FMUL, O(0), O(1))); return; case Instruction::FDiv: R(mkF(K_FDIV, O(0), O(1))); return; case Instruction::FRem: R(mkF(K_FREM, O(0), O(1))); return; case Instruction::FNeg: R(fpNeg(O(0))); return;
  case Instruction::FPExt: case Instruction::FPTrunc: R(mkFCvt(O(0), widthOf(I->getType()))); return;
  case Instruction::FPToSI: R(x86F2SI(O(0), widthOf(I->getType()))); return; case Instruction::FPToUI: R(x86F2UI(O(0), widthOf(I->getType()))); return;
  case Instruction::SIToFP: R(mkSI2F(O(0), widthOf(I->getType()))); return; case Instruction::UIToFP: R(mkUI2F(O(0), widthOf(I->getType()))); return;
  case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(I); RV a = getRV(s, f, ev->getAggregateOperand()); Type *t = ev->getAggregateOperand()->getType(); unsigned pos = 0; for (unsigned ix : ev->indices()) { for (unsigned k = 0; k < ix; k++) { Type *et = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(); std::vector<Type *> ts; std::vector<uint64_t> os; flatten(et, ts, os); pos += ts.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
    if (t->isAggregateType()) { std::vector<Type *> ts; std::vector<uint64_t> os; flatten(t, ts, os); RV r; r.agg = std::make_shared<std::vector<E>>(a.agg->begin() + pos, a.agg->begin() + pos + ts.size()); setRV(s, I, r); ++s.st.back().pc; } else R((*a.agg)[pos]); return; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(I); RV a = getRV(s, f, iv->getAggregateOperand()); RV v = getRV(s, f, iv->getInsertedValueOperand()); Type *t = iv->getAggregateOperand()->getType(); unsigned pos = 0; for (unsigned ix : iv->indices()) { for (unsigned k = 0; k < ix; k++) { Type *et = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(); std::vector<Type *> ts; std::vector<uint64_t> os; flatten(et, ts, os); pos += ts.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
    RV r; r.agg = std::make_shared<std::vector<E>>(*a.agg); if (v.agg) for (size_t k = 0; k < v.agg->size(); k++) (*r.agg)[pos + k] = (*v.agg)[k]; else (*r.agg)[pos] = v.e; setRV(s, I, r); ++s.st.back().pc; return; }
  case Instruction::Fence: ++f.pc; return;
  case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(I); E old = loadE(s, O(0), widthOf(I->getType()) / 8, "atomic"); E v = O(1), nv; switch (a->getOperation()) { case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkSub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = mkAnd(old, v); break; case AtomicRMWInst::Or: nv = mkOr(old, v); break; default: unsupported(s, I); nv = v; } storeE(s, O(0), nv, "atomic"); R(old); return; }
  case Instruction::AtomicCmpXchg: { E old = loadE(s, O(0), O(1)->w / 8, "atomic"); E eq = mkEq(old, O(1)); storeE(s, O(0), mkIte(eq, O(2), old), "atomic"); RV r; r.agg = std::make_shared<std::vector<E>>(std::vector<E>{old, eq}); setRV(s, I, r); ++s.st.back().pc; return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = cast<CallBase>(I); if (auto *ii = dyn_cast<IntrinsicInst>(I)) { execIntrinsic(s, ii); return; }
    if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { finishCall(s, cb); return; } unsupported(s, I); }
    const Value *cv = cb->getCalledOperand()->stripPointerCasts(); const Function *F = dyn_cast<Function>(cv);
    if (!F) { if (auto *ga = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(ga->getAliaseeObject()); }
    if (!F) { E p = getE(s, f, cb->getCalledOperand()); uint64_t a = (uint64_t)concretise(s, p, 64, "call target"); auto it = fnByAddr.find(a); if (it == fnByAddr.end()) endPath(s, "memory", a < (1ull << 36) ? "call through null pointer" : "call through wild pointer"); F = it->second; }
    if (F->isDeclaration()) {
      std::string n = F->getName().str();
      // a model with the same name prefixed by vsm_ wins
      if (const Function *mf = M->getFunction("vsm_" + n)) if (!mf->isDeclaration() && !mf->isVarArg() && !F->isVarArg()) { externsUsed.insert(n + " (model)"); std::vector<RV> args; for (auto &a : cb->args()) args.push_back(getRV(s, f, a)); callFn(s, cb, mf, args); return; }
      if (n.rfind("vs_", 0) != 0 && n.rfind("__cxa", 0) != 0) externsUsed.insert(n);
      if (F->isIntrinsic()) unsupported(s, I);
      if (!dispatchExternal(s, cb, n)) { inc("call to unmodelled function " + n); killState(s); throw Stop(); }
      return;
    }
    // a lemma of the harness (vsl_<symbol>) stands for a function whose behaviour another entry or property decides
    // (vsl_<entry>_<symbol>: in that entry only)
    const Function *lf = M->getFunction("vsl_E" + optEntry.substr(1) + F->getName().str()); if (!lf) lf = M->getFunction(("vsl_" + F->getName()).str()); if (lf) if (!lf->isDeclaration() && lf->getFunctionType() == F->getFunctionType()) { externsUsed.insert(F->getName().str() + " (lemma)"); F = lf; }
    std::vector<RV> args; for (auto &a : cb->args()) args.push_back(getRV(s, f, a)); callFn(s, cb, F, args); return; }
  default: unsupported(s, I);
  }
}
// ---------------------------------------------------------------- start-up
static void initMem(State &s, uint32_t id, uint64_t off, const Constant *c) {
  Type *t = c->getType(); uint64_t sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return; // object default is zero
  if (isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) { E v = constE(s, cd->getElementAsConstant(i)); if (!(v->isC() && v->v == 0)) wrMem(s, id, off + i * es, v); } return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(s, id, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initMem(s, id, off + i * es, c->getAggregateElement(i)); return; }
  (void)sz; wrMem(s, id, off, constE(s, c));
}
static bool runPath(State &s, bool init, double deadline) { // true: finished normally
  cur = &s; unsigned k = 0;
  try { while (!s.st.empty() && !s.dead) { step(s); if ((++k & 1023) == 0 && now() > deadline) return false; } } catch (Stop &) { }
  return true;
}
static void *realMain(void *) {
  SMDiagnostic err; M = parseIRFile(optBC, err, Ctx); if (!M) { err.print("vsym", errs()); exit(3); } DL = &M->getDataLayout();
  double t0 = now(); SP s(new State); s->id = 0; s->model = std::make_shared<Model>(); s->objs.push_back(nullptr);
  for (auto &F : *M) { uint32_t id = newObj(*s, 0, OK_FUNC, F.getName().str()); gaddr[&F] = baseOf(id); fnByAddr[baseOf(id)] = &F; }
  for (auto &G : M->globals()) { uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64); uint32_t id = newObj(*s, sz, OK_GLOBAL, G.getName().str()); s->objs[id]->def = 1; gaddr[&G] = baseOf(id); if (G.getName().startswith("_ZTI")) tiByAddr[baseOf(id)] = &G; }
  for (auto &A : M->aliases()) gaddr[&A] = 0;
  for (auto &A : M->aliases()) { auto *o = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts()); if (o) { gaddr[&A] = gaddr[o]; } }
  for (auto &G : M->globals()) if (G.hasInitializer()) { uint32_t id = regionOf(gaddr[&G]); initMem(*s, id, 0, G.getInitializer()); }
  for (auto &G : M->globals()) if (G.isConstant()) s->objs[regionOf(gaddr[&G])]->ro = true;
  double deadline = t0 + optTimeout;
  // global constructors
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) { std::vector<std::pair<uint64_t, const Function *>> v; if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) { pushFrame(*s, p.second, {}); runPath(*s, true, deadline); if (s->dead || !s->st.empty()) { inc("static initialisation failed in " + p.second->getName().str()); break; } } }
  s->steps = 0; const Function *E0 = M->getFunction(optEntry); if (!E0 || E0->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); exit(3); }
  if (!s->dead) { pushFrame(*s, E0, {}); work.push_back(std::move(s)); }
  double lastPrint = now();
  uint64_t rng = optSeed * 6364136223846793005ull + 1442695040888963407ull;
  while (!work.empty()) {
    if (now() > deadline) { inc("time budget of the entry used up with " + std::to_string(work.size()) + " paths pending"); break; }
    if (viols.size() >= optMaxViol) { inc("stopped after " + std::to_string(optMaxViol) + " violations"); break; }
    SP c = std::move(work.back()); work.pop_back(); bool fin = runPath(*c, false, deadline);
    if (!fin) { inc("time budget of the entry used up inside a path (" + std::to_string(work.size() + 1) + " pending)"); break; }
    if (!c->dead && c->st.empty()) { nPaths++; rng = rng * 6364136223846793005ull + 1442695040888963407ull; // reservoir sample of completed paths
      Sample sm; size_t pos = samples.size(); bool keep = false; if (samples.size() < optSamples) keep = true; else { uint64_t j = (rng >> 33) % nPaths; if (j < optSamples) { keep = true; pos = j; } }
      if (keep && c->known.empty()) { newEpoch(); for (auto &x : c->syms) sm.vals.push_back({x.name, evalE(x.v, *c->model)}); for (auto &o : c->obs) sm.obs.push_back({o.first, evalE(o.second, *c->model)}); if (pos < samples.size()) samples[pos] = sm; else samples.push_back(sm); } }
    if (now() - lastPrint > 20) { lastPrint = now(); fprintf(stderr, "[%s: %llu paths, %zu pending, %llu queries, z3 %.1fs]\n", optEntry.c_str(), (unsigned long long)nPaths, work.size(), (unsigned long long)g_ss.queries, g_ss.time); }
  }
  // output
  std::ostringstream o; auto js = [&](const std::string &x) { return "\"" + jesc(x) + "\""; };
  auto list = [&](const std::set<std::string> &x) { std::string r = "["; for (auto &y : x) { if (r.size() > 1) r += ","; r += js(y); } return r + "]"; };
  o << "{\"entry\":" << js(optEntry) << ",\"wall\":" << now() - t0 << ",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInst << ",\"pruned\":" << nInfeasible << ",\"checks\":" << nChecks << ",\"checks_discharged\":" << nChecksDischarged << ",\"implicit_checks\":" << nImplicit << ",\"mem_ops\":" << nMemOps << ",\"unknown\":" << nUnknown << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\"reasons\":" << list(incReasons) << ",\"covers\":" << list(coversHit) << ",\"functions\":" << list(fnsRepo) << ",\"externs\":" << list(externsUsed);
  o << ",\"check_labels\":{"; bool first = true; for (auto &p : checkCount) { if (!first) o << ","; first = false; o << js(p.first) << ":" << p.second; } o << "}";
  o << ",\"solver\":{\"queries\":" << g_ss.queries << ",\"model_hits\":" << g_ss.modelHits << ",\"cache_hits\":" << g_ss.cacheHits << ",\"z3_calls\":" << g_ss.z3calls << ",\"bv\":" << g_ss.bvCalls << ",\"int\":" << g_ss.intCalls << ",\"fp\":" << g_ss.fpCalls << ",\"guessed_models\":" << g_ss.guessed << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"time\":" << g_ss.time << ",\"max_time\":" << g_ss.maxTime << "}";
  auto vals = [&](const std::vector<std::pair<std::string, u128>> &v) { std::string r = "["; for (auto &p : v) { if (r.size() > 1) r += ","; r += "[" + js(p.first) + ",\"" + u128s(p.second) + "\"]"; } return r + "]"; };
  o << ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; if (i) o << ","; o << "{\"kind\":" << js(v.kind) << ",\"label\":" << js(v.label) << ",\"where\":" << js(v.where) << ",\"stack\":" << js(v.stack) << ",\"known\":" << list(std::set<std::string>(v.known.begin(), v.known.end())) << ",\"vals\":" << vals(v.vals) << "}"; }
  o << "],\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { if (i) o << ","; o << "{\"vals\":" << vals(samples[i].vals) << ",\"obs\":" << vals(samples[i].obs) << "}"; } o << "]}\n";
  if (optOut.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream f(optOut); f << o.str(); }
  fprintf(stderr, "[%s done: %llu paths, %zu violations, %llu insts, %zu exprs, %llu queries (%llu z3), z3 %.1fs max %.1fs, wall %.1fs%s]\n", optEntry.c_str(), (unsigned long long)nPaths, viols.size(), (unsigned long long)nInst, numExprs(), (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3calls, g_ss.time, g_ss.maxTime, now() - t0, incomplete ? " INCOMPLETE" : "");
  if (incomplete) for (auto &r : incReasons) fprintf(stderr, "   incomplete: %s\n", r.c_str());
  fflush(stdout); _exit(0); return nullptr;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--tier") optTier = std::stoi(nx()); else if (a == "--timeout") optTimeout = std::stod(nx()); else if (a == "--qtimeout") g_scfg.timeoutMs = std::stoi(nx()); else if (a == "--maxsteps") optMaxSteps = std::stoull(nx()); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--seed") optSeed = std::stoull(nx()); else if (a == "--maxviol") optMaxViol = std::stoi(nx());
    else if (a == "--shard") { std::string x = nx(); sscanf(x.c_str(), "%d/%d", &shardK, &shardN); } else if (a == "--trace") optTrace = true; else if (a == "-v") g_scfg.verbose = true; else if (a == "--dump") g_scfg.dumpDir = nx(); else optBC = a; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30); pthread_t th; if (pthread_create(&th, &at, realMain, nullptr)) { perror("thread"); return 3; } pthread_join(th, nullptr); return 0;
}
