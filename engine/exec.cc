// vfx: a path-exploring symbolic executor for LLVM IR (see /verif/DESIGN.md).
#include "expr.h"
#include "solver.h"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
namespace vfx {

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values
struct Val {
  const vfx::Expr* e = nullptr;  // symbolic, or any value wider than 64 bits
  u64 c = 0;
};
static inline u64 m64w(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline Val CV(u64 c) { Val v; v.c = c; return v; }
static inline Val EV(const vfx::Expr* e) {
  Val v;
  if (e->op == Op::Const && e->w <= 64) { v.c = (u64)e->cv; return v; }
  v.e = e;
  return v;
}
static inline const vfx::Expr* XE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
static const vfx::Expr* const UNINIT = reinterpret_cast<const vfx::Expr*>(1);
constexpr unsigned CH = 256;
struct Chunk {
  u8 c[CH];
  std::vector<const vfx::Expr*> s;  // empty = all concrete
};
struct Obj {
  u64 base = 0, size = 0;
  bool heap = false, ro = false, dead = false, zero = false, array = false;
  u8 allocKind = 0;  // 0 none, 1 malloc, 2 new, 3 new[]
  const char* what = "";
  std::vector<std::shared_ptr<Chunk>> ch;
};
using ObjP = std::shared_ptr<Obj>;

// ---------------------------------------------------------------- functions
struct DInst {
  const Instruction* I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  unsigned nleaf = 0;
  std::vector<int> ops;     // operand base index; <0: constant pool
  std::vector<unsigned> opn;
  std::vector<unsigned> w;  // leaf widths of the result
  int a0 = 0, a1 = 0, a2 = 0;
  const Function* callee = nullptr;
  int intr = 0;
};
struct FuncInfo {
  const Function* F = nullptr;
  std::vector<std::vector<DInst>> bbs;
  std::unordered_map<const BasicBlock*, unsigned> bbIdx;
  std::vector<Val> pool;
  unsigned nslots = 0;
  std::vector<int> argSlot;
  std::string file;
  bool executed = false;
};

struct Frame {
  FuncInfo* f;
  unsigned bb = 0, ip = 0, prev = 0;
  std::vector<Val> regs;
  std::vector<u64> allocas;
};

struct Input { std::string name; unsigned w; const vfx::Expr* e; };
struct Obs { std::string name; const vfx::Expr* e; };

struct State {
  std::vector<Frame> st;
  std::map<u64, ObjP> mem;
  u64 nextAddr = 0;
  std::vector<const vfx::Expr*> pc;
  std::shared_ptr<Assign> model;
  std::vector<Input> inputs;
  std::vector<Obs> obs;
  std::map<std::string, int> symCount;
  u64 steps = 0;
  unsigned conc = 0;
  std::vector<char> bound;  // symbols with a single feasible value under pc
  unsigned nbound = 0;
  std::map<const vfx::Expr*, u64> implied;  // expressions with a single feasible value
  unsigned uninitCount = 0;
  long heapLive = 0;
  int depth = 0;
  std::vector<std::vector<Frame>> co{1};  // the stacks of suspended coroutines; 0 is the entry itself
  unsigned cur = 0;                       // the coroutine running, whose stack is st
};

struct ErrorRec {
  std::string kind, label, where;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, u64>> inputs;
  bool tainted = false;
};

struct PathEnd {};         // thrown to terminate the current path
struct Unsupported { std::string msg; };

// ---------------------------------------------------------------- engine
class Engine {
 public:
  Engine(Module& m, unsigned qto) : M(m), DL(m.getDataLayout()), solver(qto) {}
  int run(const std::string& entry);
  double timeout = 60;
  u64 maxSteps = 4000000, maxPaths = 10000000;
  unsigned maxErrors = 8;
  unsigned samplePaths = 3;
  std::string out;
  std::string repo = "/repo";
  bool verbose = false;
  bool ok = true;

 private:
  Module& M;
  const DataLayout& DL;
  Solver solver;
  std::unordered_map<const Function*, std::unique_ptr<FuncInfo>> funcs;
  std::unordered_map<const Function*, u64> faddr;
  std::unordered_map<u64, const Function*> addrf;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  std::map<u64, ObjP> roGlobals;
  std::vector<State*> work;
  State* S = nullptr;
  std::vector<ErrorRec> errors;
  std::set<std::string> errKeys;
  std::map<std::string, u64> reach;
  std::map<std::string, u64> checks;       // label -> solver/constant decided count
  std::map<std::string, u64> symChecks;    // label -> decided by solver/symbolic
  std::vector<std::string> incompletes;
  std::set<std::string> incompleteKeys;
  u64 paths = 0, assumeCut = 0, forks = 0, totalSteps = 0, maxPathSteps = 0;
  struct Sample { std::vector<std::pair<std::string, u64>> in; std::vector<std::pair<std::string, u64>> ob; };
  std::vector<Sample> samples;
  std::set<std::string> externsIgnored;
  double t0 = 0;

  // ---- layout helpers
  unsigned leafs(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += leafs(e); return n; }
    if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leafs(at->getElementType());
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * leafs(vt->getElementType());
    return 1;
  }
  void leafWidths(Type* t, std::vector<unsigned>& o) {
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) leafWidths(e, o); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) leafWidths(at->getElementType(), o); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (u64 i = 0; i < vt->getNumElements(); i++) leafWidths(vt->getElementType(), o); return; }
    o.push_back(bitw(t));
  }
  unsigned bitw(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) {
      unsigned w = t->getIntegerBitWidth();
      if (w > 128) throw Unsupported{"integer wider than 128 bits"};
      return w;
    }
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isHalfTy()) return 16;
    if (t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 1;
    throw Unsupported{"type width"};
  }
  // leaf index and byte offset of (type) aggregated leaf list
  void leafOffsets(Type* t, u64 base, std::vector<std::pair<u64, Type*>>& o) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) leafOffsets(st->getElementType(i), base + sl->getElementOffset(i), o);
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 es = DL.getTypeAllocSize(at->getElementType());
      for (u64 i = 0; i < at->getNumElements(); i++) leafOffsets(at->getElementType(), base + i * es, o);
      return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      u64 es = DL.getTypeStoreSize(vt->getElementType());
      for (u64 i = 0; i < vt->getNumElements(); i++) leafOffsets(vt->getElementType(), base + i * es, o);
      return;
    }
    o.push_back({base, t});
  }

  // ---- globals & constants
  u64 bump(u64& next, u64 size, u64 align) {
    if (align < 16) align = 16;
    next = (next + align - 1) / align * align;
    u64 a = next;
    // Guard gap so that small overruns fall between objects.
    next += size + 64 + (size > 4096 ? 4096 : 512);
    return a;
  }
  ObjP newObj(u64 base, u64 size, bool zero) {
    auto o = std::make_shared<Obj>();
    o->base = base; o->size = size; o->zero = zero;
    o->ch.resize((size + CH - 1) / CH);
    return o;
  }
  Chunk& chunkW(Obj& o, unsigned i) {
    auto& p = o.ch[i];
    if (!p) {
      p = std::make_shared<Chunk>();
      memset(p->c, 0, CH);
      if (!o.zero) p->s.assign(CH, UNINIT);
    } else if (p.use_count() > 1) {
      p = std::make_shared<Chunk>(*p);
    }
    return *p;
  }
  void wConc(Obj& o, u64 off, u8 v) {
    Chunk& c = chunkW(o, off / CH);
    c.c[off % CH] = v;
    if (!c.s.empty()) c.s[off % CH] = nullptr;
  }
  void wSym(Obj& o, u64 off, const vfx::Expr* e) {
    if (e != UNINIT && e->op == Op::Const) { wConc(o, off, (u8)e->cv); return; }
    Chunk& c = chunkW(o, off / CH);
    if (c.s.empty()) c.s.assign(CH, nullptr);
    c.s[off % CH] = e;
  }
  // returns nullptr if concrete (value in v), UNINIT, or expr
  const vfx::Expr* rByte(const Obj& o, u64 off, u8& v) {
    auto& p = o.ch[off / CH];
    if (!p) { if (o.zero) { v = 0; return nullptr; } return UNINIT; }
    v = p->c[off % CH];
    if (p->s.empty()) return nullptr;
    return p->s[off % CH];
  }

  void initConst(Obj& o, u64 off, const Constant* C) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C)) { u64 n = DL.getTypeAllocSize(t); for (u64 i = 0; i < n; i++) wConc(o, off + i, 0); return; }
    if (isa<UndefValue>(C)) { u64 n = DL.getTypeAllocSize(t); for (u64 i = 0; i < n; i++) wConc(o, off + i, 0); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(C)) {
      auto* sl = DL.getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(C)) {
      u64 es = DL.getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i));
      return;
    }
    if (auto* cv = dyn_cast<ConstantVector>(C)) {
      u64 es = DL.getTypeStoreSize(cv->getType()->getElementType());
      for (unsigned i = 0; i < cv->getNumOperands(); i++) initConst(o, off + i * es, cv->getOperand(i));
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
      u64 es = DL.getTypeStoreSize(cd->getElementType());
      for (unsigned i = 0; i < cd->getNumElements(); i++) initConst(o, off + i * es, cd->getElementAsConstant(i));
      return;
    }
    std::vector<Val> v;
    constVal(C, v);
    unsigned w = bitw(t);
    u64 n = DL.getTypeStoreSize(t);
    const vfx::Expr* e = XE(v[0], w);
    for (u64 i = 0; i < n; i++) {
      u8 b = (u8)(i * 8 >= 128 ? 0 : (u64)(e->cv >> (i * 8)));
      wConc(o, off + i, b);
    }
  }
  u64 addrOf(const GlobalValue* G) {
    if (auto* F = dyn_cast<Function>(G)) {
      auto it = faddr.find(F);
      if (it != faddr.end()) return it->second;
      u64 a = 0x10000000ULL + 16 * (faddr.size() + 1);
      faddr[F] = a; addrf[a] = F;
      return a;
    }
    if (auto* A = dyn_cast<GlobalAlias>(G)) {
      std::vector<Val> v; constVal(A->getAliasee(), v); return v[0].c;
    }
    auto it = gaddr.find(G);
    if (it == gaddr.end()) throw Unsupported{"unknown global " + G->getName().str()};
    return it->second;
  }
  void constVal(const Constant* C, std::vector<Val>& o) {
    Type* t = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
      unsigned w = bitw(t);
      if (w <= 64) o.push_back(CV(ci->getZExtValue()));
      else {
        APInt v = ci->getValue();
        u128 x = v.extractBitsAsZExtValue(64, 0);
        if (w > 64) x |= (u128)v.extractBitsAsZExtValue(w - 64, 64) << 64;
        o.push_back(EV(mkConst(x, w)));
      }
      return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
      APInt v = cf->getValueAPF().bitcastToAPInt();
      if (v.getBitWidth() <= 64) o.push_back(CV(v.getZExtValue()));
      else {
        u128 x = v.extractBitsAsZExtValue(64, 0);
        x |= (u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64;
        o.push_back(EV(mkConst(x, v.getBitWidth())));
      }
      return;
    }
    if (isa<ConstantPointerNull>(C)) { o.push_back(CV(0)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantTokenNone>(C)) {
      std::vector<unsigned> ws; leafWidths(t, ws);
      for (unsigned w : ws) o.push_back(w <= 64 ? CV(0) : EV(mkConst(0, w)));
      return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
      for (unsigned i = 0; i < ca->getNumOperands(); i++) constVal(ca->getOperand(i), o);
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
      for (unsigned i = 0; i < cd->getNumElements(); i++) constVal(cd->getElementAsConstant(i), o);
      return;
    }
    if (auto* g = dyn_cast<GlobalValue>(C)) { o.push_back(CV(addrOf(g))); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          auto* gep = cast<GEPOperator>(ce);
          APInt off(64, 0);
          if (!gep->accumulateConstantOffset(DL, off)) throw Unsupported{"constexpr gep"};
          std::vector<Val> b; constVal(cast<Constant>(gep->getPointerOperand()), b);
          o.push_back(CV(b[0].c + off.getSExtValue()));
          return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
        case Instruction::AddrSpaceCast: {
          std::vector<Val> b; constVal(ce->getOperand(0), b);
          o.push_back(CV(b[0].c & m64w(bitw(t))));
          return;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor: {
          std::vector<Val> a, b; constVal(ce->getOperand(0), a); constVal(ce->getOperand(1), b);
          u64 r = ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : ce->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c ^ b[0].c;
          o.push_back(CV(r & m64w(bitw(t))));
          return;
        }
        case Instruction::ICmp: {
          std::vector<Val> a, b; constVal(ce->getOperand(0), a); constVal(ce->getOperand(1), b);
          u64 r;
          switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: r = a[0].c == b[0].c; break;
            case CmpInst::ICMP_NE: r = a[0].c != b[0].c; break;
            case CmpInst::ICMP_ULT: r = a[0].c < b[0].c; break;
            case CmpInst::ICMP_UGT: r = a[0].c > b[0].c; break;
            default: throw Unsupported{"constexpr icmp"};
          }
          o.push_back(CV(r));
          return;
        }
        default: {
          std::string s; raw_string_ostream os(s); ce->print(os);
          throw Unsupported{"constant expression " + s};
        }
      }
    }
    if (isa<BlockAddress>(C)) throw Unsupported{"blockaddress"};
    if (auto* dso = dyn_cast<DSOLocalEquivalent>(C)) { o.push_back(CV(addrOf(dso->getGlobalValue()))); return; }
    throw Unsupported{"constant kind"};
  }

  void setupGlobals(State& s) {
    u64 next = 0x20000000ULL;
    for (auto& F : M) addrOf(&F);
    for (auto& G : M.globals()) {
      u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 64;
      u64 real = sz;
      if (G.isDeclaration() && sz < 128) real = 128;  // opaque external (e.g. typeinfo vtables)
      if (real == 0) real = 1;
      gaddr[&G] = bump(next, real, G.getAlign() ? G.getAlign()->value() : 16);
    }
    for (auto& G : M.globals()) {
      u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 64;
      if (G.isDeclaration() && sz < 128) sz = 128;
      if (sz == 0) sz = 1;
      auto o = newObj(gaddr[&G], sz, true);
      o->what = "global";
      if (G.hasInitializer()) initConst(*o, 0, G.getInitializer());
      if (G.isConstant()) { o->ro = true; roGlobals[o->base] = o; }
      else s.mem[o->base] = o;
    }
    s.nextAddr = (next + 0xfffffff) / 0x10000000 * 0x10000000;
  }

  // ---- predecode
  FuncInfo* info(const Function* F) {
    auto& p = funcs[F];
    if (p) return p.get();
    p = std::make_unique<FuncInfo>();
    FuncInfo& f = *p;
    f.F = F;
    if (auto* sp = F->getSubprogram()) {
      f.file = sp->getFilename().str();
      if (!f.file.empty() && f.file[0] != '/') f.file = sp->getDirectory().str() + "/" + f.file;
    }
    std::unordered_map<const Value*, int> slot;
    auto alloc = [&](const Value* v) {
      unsigned n = leafs(v->getType());
      slot[v] = f.nslots;
      f.nslots += n ? n : 1;
    };
    for (auto& A : F->args()) { alloc(&A); f.argSlot.push_back(slot[&A]); }
    unsigned bi = 0;
    for (auto& B : *F) {
      f.bbIdx[&B] = bi++;
      for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I);
    }
    auto opnd = [&](const Value* v, DInst& d) {
      if (auto* C = dyn_cast<Constant>(v)) {
        int base = (int)f.pool.size();
        std::vector<Val> vs;
        constVal(C, vs);
        f.pool.insert(f.pool.end(), vs.begin(), vs.end());
        if (vs.empty()) f.pool.push_back(CV(0));
        d.ops.push_back(-base - 1);
        d.opn.push_back(vs.size());
      } else if (slot.count(v)) {
        d.ops.push_back(slot[v]);
        d.opn.push_back(leafs(v->getType()));
      } else {
        d.ops.push_back(INT32_MIN);
        d.opn.push_back(0);
      }
    };
    f.bbs.resize(bi);
    bi = 0;
    for (auto& B : *F) {
      for (auto& I : B) {
        DInst d;
        d.I = &I;
        d.opc = I.getOpcode();
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.nleaf = leafs(I.getType()); leafWidths(I.getType(), d.w); }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          for (auto& a : cb->args()) {
            if (a->getType()->isMetadataTy()) { d.ops.push_back(INT32_MIN); d.opn.push_back(0); }
            else opnd(a.get(), d);
          }
          const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
          if (auto* cf = dyn_cast<Function>(cv)) { d.callee = cf; d.intr = handlerOf(cf); }
          else if (isa<InlineAsm>(cv)) { d.intr = H_ASM; }
          else opnd(cb->getCalledOperand(), d);
        } else if (auto* phi = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) opnd(phi->getIncomingValue(i), d);
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) opnd(br->getCondition(), d);
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          opnd(sw->getCondition(), d);
        } else if (isa<LandingPadInst>(&I) || isa<FenceInst>(&I)) {
        } else {
          for (auto& o : I.operands()) {
            if (isa<BasicBlock>(o.get())) continue;
            opnd(o.get(), d);
          }
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) d.a0 = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) d.a0 = leafIndex(iv->getType(), iv->getIndices());
        f.bbs[bi].push_back(std::move(d));
      }
      bi++;
    }
    return &f;
  }
  int leafIndex(Type* t, ArrayRef<unsigned> idx) {
    int r = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < i; k++) r += leafs(st->getElementType(k));
        t = st->getElementType(i);
      } else {
        auto* at = cast<ArrayType>(t);
        r += i * leafs(at->getElementType());
        t = at->getElementType();
      }
    }
    return r;
  }

  // ---- external / intrinsic handlers
  enum {
    H_NONE = 0, H_UNKNOWN, H_NOP, H_RET0, H_ASM, H_SYM, H_ASSUME, H_CHECK, H_REACH, H_OBSERVE, H_CONCRETIZE, H_ISSYM, H_COCREATE, H_COSWITCH,
    H_HEAPLIVE, H_PRINT, H_MALLOC, H_CALLOC, H_FREE, H_NEW, H_NEWA, H_DEL, H_DELA, H_NEWAL, H_NEWAAL, H_MEMCPY, H_MEMSET,
    H_MEMCMP, H_BCMP, H_ABORT, H_THROW, H_TRAP, H_CTPOP, H_CTLZ, H_CTTZ, H_BSWAP, H_FSHL, H_FSHR, H_UMIN, H_UMAX, H_SMIN,
    H_SMAX, H_ABS, H_USUBSAT, H_UADDSAT, H_UADDO, H_USUBO, H_SADDO, H_SSUBO, H_SMULO, H_UMULO, H_EXPECT, H_OBJSIZE,
    H_BITREV, H_FABS, H_FMULADD, H_LLASSUME, H_ISCONST, H_SADDSAT, H_SSUBSAT, H_PURE, H_OBJOF, H_COPYSIGN, H_ISFPCLASS,
    H_REDUCE, H_MAKE_SYM, H_EXIT, H_SQRT, H_FLOORISH, H_STALL, H_SNPRINTF
  };
  int handlerOf(const Function* F) {
    StringRef n = F->getName();
    if (n.starts_with("llvm.")) {
      auto is = [&](const char* p) { return n.starts_with(p); };
      if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.experimental.noalias") || is("llvm.prefetch") || is("llvm.donothing")) return H_NOP;
      if (is("llvm.invariant.start")) return H_RET0;
      if (is("llvm.stacksave")) return H_RET0;
      if (is("llvm.stackrestore") || is("llvm.invariant.end")) return H_NOP;
      if (is("llvm.assume")) return H_LLASSUME;
      if (is("llvm.memcpy") || is("llvm.memmove")) return H_MEMCPY;
      if (is("llvm.memset")) return H_MEMSET;
      if (is("llvm.ctpop")) return H_CTPOP;
      if (is("llvm.ctlz")) return H_CTLZ;
      if (is("llvm.cttz")) return H_CTTZ;
      if (is("llvm.bswap")) return H_BSWAP;
      if (is("llvm.bitreverse")) return H_BITREV;
      if (is("llvm.fshl")) return H_FSHL;
      if (is("llvm.fshr")) return H_FSHR;
      if (is("llvm.umin")) return H_UMIN;
      if (is("llvm.umax")) return H_UMAX;
      if (is("llvm.smin")) return H_SMIN;
      if (is("llvm.smax")) return H_SMAX;
      if (is("llvm.abs")) return H_ABS;
      if (is("llvm.usub.sat")) return H_USUBSAT;
      if (is("llvm.uadd.sat")) return H_UADDSAT;
      if (is("llvm.sadd.sat")) return H_SADDSAT;
      if (is("llvm.ssub.sat")) return H_SSUBSAT;
      if (is("llvm.uadd.with")) return H_UADDO;
      if (is("llvm.usub.with")) return H_USUBO;
      if (is("llvm.sadd.with")) return H_SADDO;
      if (is("llvm.ssub.with")) return H_SSUBO;
      if (is("llvm.smul.with")) return H_SMULO;
      if (is("llvm.umul.with")) return H_UMULO;
      if (is("llvm.expect") || is("llvm.launder") || is("llvm.strip") || is("llvm.ssa.copy") || is("llvm.threadlocal.address") || is("llvm.ptrmask.none")) return H_EXPECT;
      if (is("llvm.objectsize")) return H_OBJSIZE;
      if (is("llvm.is.constant")) return H_ISCONST;
      if (is("llvm.trap") || is("llvm.ubsantrap") || is("llvm.debugtrap")) return H_TRAP;
      if (is("llvm.fabs")) return H_FABS;
      if (is("llvm.copysign")) return H_COPYSIGN;
      if (is("llvm.fmuladd") || is("llvm.fma")) return H_FMULADD;
      if (is("llvm.sqrt")) return H_SQRT;
      if (is("llvm.ceil.f") || is("llvm.floor.f") || is("llvm.trunc.f") || is("llvm.round.f")) return H_FLOORISH;
      if (is("llvm.is.fpclass")) return H_ISFPCLASS;
      if (is("llvm.vector.reduce")) return H_REDUCE;
      if (is("llvm.eh.typeid.for")) return H_RET0;
      return H_UNKNOWN;
    }
    static const std::map<std::string, int> tab = {
      {"vf_sym", H_SYM}, {"vf_assume", H_ASSUME}, {"vf_check", H_CHECK}, {"vf_reach", H_REACH},
      {"vf_observe", H_OBSERVE}, {"vf_concretize", H_CONCRETIZE}, {"vf_is_symbolic", H_ISSYM},
      {"vf_heap_live", H_HEAPLIVE}, {"vf_print", H_PRINT}, {"vf_prune", H_PURE}, {"vf_co_create", H_COCREATE}, {"vf_co_switch", H_COSWITCH},
      {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"free", H_FREE}, {"cfree", H_FREE},
      {"_Znwm", H_NEW}, {"_Znam", H_NEWA}, {"_ZnwmRKSt9nothrow_t", H_NEW}, {"_ZnamRKSt9nothrow_t", H_NEWA},
      {"_ZdlPv", H_DEL}, {"_ZdlPvm", H_DEL}, {"_ZdaPv", H_DELA}, {"_ZdaPvm", H_DELA},
      {"_ZdlPvRKSt9nothrow_t", H_DEL}, {"_ZdaPvRKSt9nothrow_t", H_DELA},
      {"_ZnwmSt11align_val_t", H_NEWAL}, {"_ZnamSt11align_val_t", H_NEWAAL},
      {"_ZdlPvSt11align_val_t", H_DEL}, {"_ZdlPvmSt11align_val_t", H_DEL}, {"_ZdaPvSt11align_val_t", H_DELA},
      {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP},
      {"abort", H_ABORT}, {"_exit", H_EXIT}, {"exit", H_EXIT}, {"__assert_fail", H_ABORT}, {"_ZSt9terminatev", H_ABORT},
      {"__clang_call_terminate", H_ABORT}, {"__cxa_throw", H_THROW}, {"__cxa_rethrow", H_THROW},
      {"__cxa_pure_virtual", H_ABORT}, {"_Unwind_Resume", H_TRAP},
      {"__cxa_atexit", H_RET0}, {"atexit", H_RET0}, {"printf", H_RET0}, {"puts", H_RET0}, {"putchar", H_RET0},
      {"fprintf", H_RET0}, {"fputs", H_RET0}, {"fwrite", H_RET0}, {"fputc", H_RET0}, {"fflush", H_RET0},
      {"snprintf", H_SNPRINTF}, {"pthread_mutex_lock", H_RET0}, {"pthread_mutex_unlock", H_RET0}, {"usleep", H_RET0},
    };
    auto it = tab.find(n.str());
    if (it != tab.end()) return it->second;
    if (!F->isDeclaration()) return H_NONE;
    if (n.contains("__throw_")) return H_THROW;
    return H_UNKNOWN;
  }

  // ---- state helpers
  Val get(const DInst& d, unsigned i, unsigned leaf = 0) {
    int x = d.ops[i];
    Frame& fr = S->st.back();
    if (x >= 0) {
      Val& r = fr.regs[x + leaf];
      if (r.e && S->nbound) r = reduce(r);
      return r;
    }
    return fr.f->pool[-x - 1 + leaf];
  }
  void set(const DInst& d, unsigned leaf, Val v) {
    if (v.e && S->nbound) v = reduce(v);
    S->st.back().regs[d.dst + leaf] = v;
  }
  bool isBound(unsigned s) { return s < S->bound.size() && S->bound[s]; }
  // Replaces a value that is determined by the path condition by its constant.
  Val reduce(const Val& v) {
    if (v.e->w > 64 || v.e->op == Op::Const) return v;
    auto it = S->implied.find(v.e);
    if (it != S->implied.end()) return CV(it->second);
    for (unsigned s : symsOf(v.e)) if (!isBound(s)) return v;
    return CV((u64)evalExpr(v.e, *S->model));
  }
  bool unique(const vfx::Expr* e) {
    Assign m;
    return solver.check(S->pc, mkNot(mkEq(e, mkConst(evalExpr(e, *S->model), e->w))), *S->model, m) == Sat::No;
  }
  // e has a single feasible value: record it, and whatever it determines.
  void bindExpr(const vfx::Expr* e) {
    std::vector<const vfx::Expr*> todo{e};
    int budget = 24;
    std::set<const vfx::Expr*> seen;
    for (size_t i = 0; i < todo.size() && budget > 0; i++) {
      const vfx::Expr* x = todo[i];
      if (x->op == Op::Const || x->w > 64 || !seen.insert(x).second) continue;
      if (x->op == Op::Sym) {
        unsigned s = x->p;
        if (isBound(s)) continue;
        if (x != e) { budget--; if (!unique(x)) continue; }
        if (S->bound.size() <= s) S->bound.resize(s + 1, 0);
        S->bound[s] = 1;
        S->nbound++;
        continue;
      }
      if (x != e) {
        if (S->implied.count(x)) continue;
        budget--;
        if (!unique(x)) continue;
      }
      S->implied[x] = (u64)evalExpr(x, *S->model);
      S->nbound++;
      for (auto* k : {x->a, x->b, x->c}) if (k) todo.push_back(k);
    }
  }

  void addPC(const vfx::Expr* c) {
    if (isTrue(c)) return;
    if (S->nbound) {
      bool all = true;
      for (unsigned s : symsOf(c)) if (!isBound(s)) { all = false; break; }
      if (all) return;
    }
    // split conjunctions for better slicing
    if (c->op == Op::And && c->w == 1) { addPC(c->a); addPC(c->b); return; }
    S->pc.push_back(c);
  }
  bool evalB(const vfx::Expr* c) { return evalExpr(c, *S->model) != 0; }

  State* cloneState() { forks++; State* n = new State(*S); n->depth++; return n; }

  // Fork a copy of the state, positioned at the current instruction, in which
  // `c` (false under the current model) holds.  Returns whether it was feasible.
  bool forkOther(const vfx::Expr* c) {
    if (now() - t0 > timeout) { incomplete("time budget exhausted"); throw PathEnd(); }
    auto m = std::make_shared<Assign>();
    Sat r = solver.check(S->pc, c, *S->model, *m);
    if (r == Sat::No) return false;
    if (r == Sat::Unknown) { incomplete("solver timeout at " + where()); return false; }
    State* n = cloneState();
    n->model = m;
    State* keep = S; S = n; addPC(c); S = keep;
    work.push_back(n);
    return true;
  }
  u64 concretize(const Val& v, unsigned w, const char* why) {
    if (!v.e) return v.c;
    if (v.e->op == Op::Const) return (u64)v.e->cv;
    if (S->nbound) { Val r = reduce(v); if (!r.e) return r.c; }
    u64 x = (u64)evalExpr(v.e, *S->model);
    const vfx::Expr* eq = mkEq(v.e, mkConst(x, w));
    if (isTrue(eq)) return x;
    if (S->conc > 5000) { incomplete(std::string("unbounded concretisation: ") + why + " at " + where()); throw PathEnd(); }
    State* before = work.empty() ? nullptr : work.back();
    (void)before;
    bool other = forkOther(mkNot(eq));
    if (other) { work.back()->conc++; addPC(eq); }
    bindExpr(v.e);
    return x;
  }
  void incomplete(const std::string& s) {
    if (incompleteKeys.insert(s).second) incompletes.push_back(s);
  }
  std::string locOf(const Instruction* I) {
    const DebugLoc& dl = I->getDebugLoc();
    if (!dl) return "";
    auto* sc = cast<DIScope>(dl.getScope());
    return sc->getFilename().str() + ":" + std::to_string(dl.getLine());
  }
  std::string where() {
    if (!S || S->st.empty()) return "?";
    for (int i = (int)S->st.size() - 1; i >= 0; i--) {
      Frame& fr = S->st[i];
      if (fr.ip < fr.f->bbs[fr.bb].size()) {
        std::string l = locOf(fr.f->bbs[fr.bb][fr.ip].I);
        if (!l.empty()) return l + " in " + fr.f->F->getName().str();
      }
    }
    return S->st.back().f->F->getName().str();
  }
  void report(const std::string& kind, const std::string& label, const Assign& m, const vfx::Expr* cond = nullptr) {
    ErrorRec e;
    e.kind = kind; e.label = label; e.where = where();
    for (int i = (int)S->st.size() - 1; i >= 0 && e.stack.size() < 24; i--) {
      Frame& fr = S->st[i];
      std::string l;
      if (fr.ip < fr.f->bbs[fr.bb].size()) l = locOf(fr.f->bbs[fr.bb][fr.ip].I);
      e.stack.push_back(fr.f->F->getName().str() + " @ " + l);
    }
    std::string key = kind + "|" + label + "|" + (kind == "check" ? "" : e.where);
    if (!errKeys.insert(key).second) return;
    for (auto& in : S->inputs) e.inputs.push_back({in.name, (u64)evalExpr(in.e, m)});
    e.tainted = cond && containsUninit(cond);
    errors.push_back(e);
    if (verbose) {
      fprintf(stderr, "ERROR %s: %s at %s\n", kind.c_str(), label.c_str(), e.where.c_str());
      for (auto& s : e.stack) fprintf(stderr, "    %s\n", s.c_str());
      for (auto& in : e.inputs) fprintf(stderr, "    input %s = 0x%llx\n", in.first.c_str(), (unsigned long long)in.second);
    }
  }
  [[noreturn]] void fatal(const std::string& kind, const std::string& label) {
    report(kind, label, *S->model);
    throw PathEnd();
  }
  // Requires c to hold; otherwise reports an error for the violating inputs and
  // continues with c assumed (or ends the path).
  void require(const vfx::Expr* c, const std::string& kind, const std::string& label) {
    if (isTrue(c)) return;
    if (isFalse(c)) fatal(kind, label);
    if (S->nbound) { Val r = reduce(EV(c)); if (!r.e) { if (r.c) return; fatal(kind, label); } }
    if (now() - t0 > timeout) { incomplete("time budget exhausted"); throw PathEnd(); }
    Assign m;
    Sat r = solver.check(S->pc, mkNot(c), *S->model, m);
    if (r == Sat::Unknown) { if (getenv("VFX_DUMP")) fprintf(stderr, "TIMEOUT %s\n", toStr(c, 12).c_str()); incomplete("solver timeout deciding " + kind + " " + label + " at " + where()); }
    if (r == Sat::Yes) {
      report(kind, label, m, c);
      Assign m2;
      Sat r2 = solver.check(S->pc, c, *S->model, m2);
      if (r2 != Sat::Yes) throw PathEnd();
      *(S->model = std::make_shared<Assign>()) = m2;
      addPC(c);
    }
  }

  // ---- memory access
  ObjP* findObj(u64 a) {
    auto it = S->mem.upper_bound(a);
    if (it != S->mem.begin()) {
      --it;
      if (a >= it->second->base && a < it->second->base + std::max<u64>(it->second->size, 1)) return &it->second;
    }
    auto r = roGlobals.upper_bound(a);
    if (r != roGlobals.begin()) {
      --r;
      if (a >= r->second->base && a < r->second->base + std::max<u64>(r->second->size, 1)) return &r->second;
    }
    return nullptr;
  }
  std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

  ObjP* resolve(u64 a, u64 len, bool write) {
    ObjP* o = findObj(a);
    if (!o) fatal("memory", a < 4096 ? (write ? "null pointer write" : "null pointer read") : (write ? "out-of-bounds write" : "out-of-bounds read"));
    if ((*o)->dead) fatal("memory", write ? "write after free" : "read after free");
    if (a + len > (*o)->base + (*o)->size) fatal("memory", write ? "out-of-bounds write" : "out-of-bounds read");
    if (write && (*o)->ro) fatal("memory", "write to constant");
    return o;
  }
  Obj& writable(ObjP* o) {
    if (o->use_count() > 1) *o = std::make_shared<Obj>(**o);
    return **o;
  }
  const vfx::Expr* byteE(ObjP* op, u64 off) {
    u8 v;
    const vfx::Expr* e = rByte(**op, off, v);
    if (!e) return mkConst(v, 8);
    if (e == UNINIT) {
      std::string nm = "uninit";
      std::string key = "uninit@" + std::to_string((*op)->base + off) + "#" + std::to_string(S->uninitCount++);
      e = mkSym(key, nm, 8, true);
      if (!(*op)->ro) wSym(writable(op), off, e);
    }
    return e;
  }
  Val loadN(ObjP* op, u64 off, u64 n, unsigned w) {
    const Obj& o = **op;
    // fast path
    if (n <= 8 && off / CH == (off + n - 1) / CH) {
      auto& p = o.ch[off / CH];
      if (p) {
        bool conc = p->s.empty();
        if (!conc) { conc = true; for (u64 i = 0; i < n; i++) if (p->s[off % CH + i]) { conc = false; break; } }
        if (conc) {
          u64 r = 0;
          memcpy(&r, p->c + off % CH, n);
          return CV(r & m64w(w));
        }
      } else if (o.zero) return CV(0);
    }
    const vfx::Expr* r = nullptr;
    for (u64 i = 0; i < n; i++) {
      const vfx::Expr* b = byteE(op, off + i);
      r = r ? mkConcat(b, r) : b;
    }
    if (w < n * 8) r = mkExtract(r, 0, w);
    return EV(r);
  }
  void storeN(Obj& o, u64 off, u64 n, const Val& v, unsigned w) {
    if (!v.e) {
      for (u64 i = 0; i < n; i++) wConc(o, off + i, (u8)(i < 8 ? v.c >> (8 * i) : 0));
      return;
    }
    const vfx::Expr* e = v.e;
    if (w < n * 8) e = mkZExt(e, n * 8);
    for (u64 i = 0; i < n; i++) wSym(o, off + i, mkExtract(e, 8 * i, 8));
  }

  // Symbolic address: pick the object the current model points to, fork off the
  // inputs for which the address leaves it, and return object + symbolic offset.
  ObjP* resolveSym(const vfx::Expr* a, u64 len, bool write, const vfx::Expr*& off) {
    u64 x = (u64)evalExpr(a, *S->model);
    ObjP* o = findObj(x);
    if (!o) { // try end-of-object style overruns: report at this model
      concretize(EV(a), 64, "bad pointer");
      fatal("memory", x < 4096 ? (write ? "null pointer write" : "null pointer read") : (write ? "out-of-bounds write" : "out-of-bounds read"));
    }
    u64 base = (*o)->base, size = (*o)->size;
    if ((*o)->dead) { concretize(EV(a), 64, "dead pointer"); fatal("memory", write ? "write after free" : "read after free"); }
    off = mkBin(Op::Sub, a, mkConst(base, 64));
    const vfx::Expr* inObj = mkBin(Op::Ult, off, mkConst(std::max<u64>(size, 1), 64));
    if (!isTrue(inObj)) {
      if (forkOther(mkNot(inObj))) addPC(inObj);
      o = findObj(x);
    }
    // within the object start; check the end
    if (len > size) fatal("memory", write ? "out-of-bounds write" : "out-of-bounds read");
    const vfx::Expr* fits = mkBin(Op::Ule, off, mkConst(size - len, 64));
    require(fits, "memory", write ? "out-of-bounds write" : "out-of-bounds read");
    if (write && (*o)->ro) fatal("memory", "write to constant");
    return findObj(base);
  }
  unsigned trailingZeros(const vfx::Expr* e) {
    u64 may = ~e->kz;
    return may ? __builtin_ctzll(may) : 63;
  }
  static constexpr u64 kMaxIte = 1024;
  // Fork over the feasible in-bounds values of a symbolic address.
  Val concreteAddr(const Val& a, u64 n, bool write) {
    const vfx::Expr* off;
    ObjP* o = resolveSym(a.e, n, write, off);
    u64 base = (*o)->base;
    return CV(base + concretize(EV(off), 64, "pointer access"));
  }

  Val load(const Val& addr0, u64 n, unsigned w) {
    Val addr = addr0.e && S->nbound ? reduce(addr0) : addr0;
    if (!addr.e) { ObjP* o = resolve(addr.c, n, false); return loadN(o, addr.c - (*o)->base, n, w); }
    const vfx::Expr* off;
    ObjP* o = resolveSym(addr.e, n, false, off);
    if (off->op == Op::Const) return loadN(o, (u64)off->cv, n, w);
    u64 size = (*o)->size;
    unsigned tz = trailingZeros(off);
    u64 step = 1ULL << std::min(tz, 12u);
    u64 lim = size - n;
    u64 um = ~off->kz;
    if (um < lim) lim = um;
    if (lim / step + 1 > kMaxIte) {
      u64 x = concretize(EV(off), 64, "symbolic load offset in large object");
      o = findObj((*o)->base);
      return loadN(o, x, n, w);
    }
    // gather values
    Val cur = loadN(o, (u64)evalExpr(off, *S->model), n, w);
    const vfx::Expr* r = XE(cur, w);
    for (u64 k = 0; k <= lim; k += step) {
      const vfx::Expr* v = XE(loadN(o, k, n, w), w);
      const vfx::Expr* c = mkEq(off, mkConst(k, 64));
      if (isFalse(c)) continue;
      r = mkIte(c, v, r);
    }
    return EV(r);
  }
  void store(const Val& addr0, u64 n, const Val& v0, unsigned w) {
    Val addr = addr0.e && S->nbound ? reduce(addr0) : addr0;
    Val v = v0.e && S->nbound ? reduce(v0) : v0;
    if (!addr.e) { ObjP* o = resolve(addr.c, n, true); storeN(writable(o), addr.c - (*o)->base, n, v, w); return; }
    const vfx::Expr* off;
    ObjP* o = resolveSym(addr.e, n, true, off);
    if (off->op == Op::Const) { storeN(writable(o), (u64)off->cv, n, v, w); return; }
    u64 size = (*o)->size, base = (*o)->base;
    unsigned tz = trailingZeros(off);
    u64 step = 1ULL << std::min(tz, 12u);
    u64 lim = size - n;
    u64 um = ~off->kz;
    if (um < lim) lim = um;
    if (lim / step + 1 > kMaxIte) {
      u64 x = concretize(EV(off), 64, "symbolic store offset in large object");
      o = findObj(base);
      storeN(writable(o), x, n, v, w);
      return;
    }
    const vfx::Expr* e = XE(v, w);
    if (w < n * 8) e = mkZExt(e, n * 8);
    std::map<u64, const vfx::Expr*> nb;
    for (u64 k = 0; k <= lim; k += step) {
      const vfx::Expr* c = mkEq(off, mkConst(k, 64));
      if (isFalse(c)) continue;
      for (u64 i = 0; i < n; i++) {
        auto it = nb.find(k + i);
        const vfx::Expr* old = it != nb.end() ? it->second : byteE(o, k + i);
        nb[k + i] = mkIte(c, mkExtract(e, 8 * i, 8), old);
      }
    }
    Obj& ob = writable(o);
    for (auto& kv : nb) wSym(ob, kv.first, kv.second);
  }
  std::string cstr(u64 a) {
    std::string r;
    while (true) {
      ObjP* o = resolve(a, 1, false);
      u8 v;
      const vfx::Expr* e = rByte(**o, a - (*o)->base, v);
      if (e) return r + "?";
      if (!v) return r;
      r.push_back((char)v);
      a++;
    }
  }

  u64 allocate(u64 size, u64 align, bool heap, u8 kind) {
    u64 a = bump(S->nextAddr, size ? size : 1, align);
    auto o = newObj(a, size, false);
    o->heap = heap;
    o->allocKind = kind;
    o->what = heap ? "heap" : "stack";
    S->mem[a] = o;
    if (heap) S->heapLive++;
    return a;
  }
  void release(u64 a, u8 kind) {
    if (a == 0) return;
    auto it = S->mem.find(a);
    if (it == S->mem.end()) {
      ObjP* o = findObj(a);
      fatal("memory", o ? "free of interior pointer" : "free of invalid pointer");
    }
    ObjP& o = it->second;
    if (!o->heap) fatal("memory", "free of non-heap memory");
    if (o->dead) fatal("memory", "double free");
    if (o->allocKind != kind) fatal("memory", "mismatched allocation and deallocation");
    Obj& w = writable(&o);
    w.dead = true;
    w.ch.clear();
    w.ch.resize((w.size + CH - 1) / CH);
    S->heapLive--;
  }

  // ---- fp helpers
  unsigned fw(Type* t) { return t->getScalarType()->isFloatTy() ? 32 : 64; }

  // ---- main interpreter
  void runState();
  void step(const DInst& d);
  void call(const DInst& d);
  void doHandler(const DInst& d, int h, const Function* callee);
  void enter(const Function* F, const std::vector<std::vector<Val>>& args, const CallBase* cb);
  void gotoBB(const BasicBlock* B);
  void finishPath();
  void writeResult();
  Val binop(unsigned opc, const Val& a, const Val& b, unsigned w);
  const vfx::Expr* icmp(CmpInst::Predicate p, const vfx::Expr* a, const vfx::Expr* b);
  const vfx::Expr* fcmp(CmpInst::Predicate p, const vfx::Expr* a, const vfx::Expr* b);
};

Val Engine::binop(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c, M = m64w(w);
    switch (opc) {
      case Instruction::Add: return CV((x + y) & M);
      case Instruction::Sub: return CV((x - y) & M);
      case Instruction::Mul: return CV((x * y) & M);
      case Instruction::And: return CV(x & y);
      case Instruction::Or: return CV(x | y);
      case Instruction::Xor: return CV(x ^ y);
      case Instruction::Shl: if (y < w) return CV((x << y) & M); break;
      case Instruction::LShr: if (y < w) return CV(x >> y); break;
      case Instruction::AShr: if (y < w) return CV((u64)(i128)(sext(x, w) >> y) & M); break;
      default: break;
    }
  }
  const vfx::Expr *x = XE(a, w), *y = XE(b, w);
  switch (opc) {
    case Instruction::Add: return EV(mkBin(Op::Add, x, y));
    case Instruction::Sub: return EV(mkBin(Op::Sub, x, y));
    case Instruction::Mul: return EV(mkBin(Op::Mul, x, y));
    case Instruction::And: return EV(mkBin(Op::And, x, y));
    case Instruction::Or: return EV(mkBin(Op::Or, x, y));
    case Instruction::Xor: return EV(mkBin(Op::Xor, x, y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      require(mkNot(mkEq(y, mkConst(0, w))), "arith", "division by zero");
      bool sg = opc == Instruction::SDiv || opc == Instruction::SRem;
      if (sg) {
        const vfx::Expr* ov = mkBin(Op::And, mkEq(x, mkConst((u128)1 << (w - 1), w)), mkEq(y, mkConst(maskw(w), w)));
        require(mkNot(ov), "arith", "signed division overflow");
      }
      Op op = opc == Instruction::UDiv ? Op::UDiv : opc == Instruction::URem ? Op::URem : opc == Instruction::SDiv ? Op::SDiv : Op::SRem;
      return EV(mkBin(op, x, y));
    }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Op op = opc == Instruction::Shl ? Op::Shl : opc == Instruction::LShr ? Op::LShr : Op::AShr;
      const vfx::Expr* inr = mkBin(Op::Ult, y, mkConst(w, w));
      if (w == 1) inr = mkEq(y, mkConst(0, 1));
      const vfx::Expr* r = mkBin(op, x, y);
      if (isTrue(inr)) return EV(r);
      // Over-wide shift: the C++ result is undefined; any value may appear.
      std::string key = "ovshift#" + std::to_string(S->uninitCount++) + ":" + std::to_string(w);
      if (w > 64) return EV(r);
      const vfx::Expr* any = mkSym(key, "overshift", w, true);
      return EV(mkIte(inr, r, any));
    }
    default: throw Unsupported{"binop"};
  }
}

const vfx::Expr* Engine::icmp(CmpInst::Predicate p, const vfx::Expr* a, const vfx::Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    default: throw Unsupported{"icmp predicate"};
  }
}
const vfx::Expr* Engine::fcmp(CmpInst::Predicate p, const vfx::Expr* a, const vfx::Expr* b) {
  auto lt = [&] { return mkF(Op::FLt, 1, a, b); };
  auto le = [&] { return mkF(Op::FLe, 1, a, b); };
  auto gt = [&] { return mkF(Op::FLt, 1, b, a); };
  auto ge = [&] { return mkF(Op::FLe, 1, b, a); };
  auto eq = [&] { return mkF(Op::FEq, 1, a, b); };
  auto un = [&] { return mkF(Op::FUno, 1, a, b); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return eq();
    case CmpInst::FCMP_OLT: return lt();
    case CmpInst::FCMP_OLE: return le();
    case CmpInst::FCMP_OGT: return gt();
    case CmpInst::FCMP_OGE: return ge();
    case CmpInst::FCMP_ONE: return mkBin(Op::Or, lt(), gt());
    case CmpInst::FCMP_ORD: return mkNot(un());
    case CmpInst::FCMP_UNO: return un();
    case CmpInst::FCMP_UEQ: return mkBin(Op::Or, un(), eq());
    case CmpInst::FCMP_UNE: return mkNot(eq());
    case CmpInst::FCMP_ULT: return mkNot(ge());
    case CmpInst::FCMP_ULE: return mkNot(gt());
    case CmpInst::FCMP_UGT: return mkNot(le());
    case CmpInst::FCMP_UGE: return mkNot(lt());
    default: throw Unsupported{"fcmp"};
  }
}

void Engine::gotoBB(const BasicBlock* B) {
  Frame& fr = S->st.back();
  FuncInfo& f = *fr.f;
  const BasicBlock* from = f.bbs[fr.bb].empty() ? nullptr : f.bbs[fr.bb].back().I->getParent();
  unsigned nb = f.bbIdx[B];
  // phis in parallel
  std::vector<std::pair<int, Val>> tmp;
  unsigned ip = 0;
  auto& v = f.bbs[nb];
  while (ip < v.size() && v[ip].opc == Instruction::PHI) {
    auto* phi = cast<PHINode>(v[ip].I);
    int idx = phi->getBasicBlockIndex(from);
    for (unsigned l = 0; l < v[ip].nleaf; l++) {
      int x = v[ip].ops[idx];
      tmp.push_back({v[ip].dst + (int)l, x >= 0 ? fr.regs[x + l] : f.pool[-x - 1 + l]});
    }
    ip++;
  }
  for (auto& t : tmp) fr.regs[t.first] = t.second;
  fr.prev = fr.bb;
  fr.bb = nb;
  fr.ip = ip;
}

void Engine::enter(const Function* F, const std::vector<std::vector<Val>>& args, const CallBase* cb) {
  FuncInfo* f = info(F);
  f->executed = true;
  if (S->st.size() > 3000) fatal("steplimit", "call depth limit");
  Frame nf;
  nf.f = f;
  nf.regs.resize(f->nslots);
  unsigned i = 0;
  for (auto& A : F->args()) {
    if (i >= args.size()) break;
    if (A.hasByValAttr()) {
      Type* t = A.getParamByValType();
      u64 sz = DL.getTypeAllocSize(t);
      u64 src = concretize(args[i][0], 64, "byval pointer");
      u64 dst = allocate(sz, A.getParamAlign() ? A.getParamAlign()->value() : 16, false, 0);
      nf.allocas.push_back(dst);
      ObjP* so = resolve(src, sz, false);
      u64 soff = src - (*so)->base;
      ObjP keep = *so;
      ObjP* d = findObj(dst);
      Obj& w = writable(d);
      for (u64 k = 0; k < sz; k++) {
        u8 v; auto* e = rByte(*keep, soff + k, v);
        if (e) wSym(w, k, e); else wConc(w, k, v);
      }
      nf.regs[f->argSlot[i]] = CV(dst);
    } else {
      for (unsigned l = 0; l < args[i].size(); l++) nf.regs[f->argSlot[i] + l] = args[i][l];
    }
    i++;
  }
  S->st.push_back(std::move(nf));
}

void Engine::call(const DInst& d) {
  const Function* callee = d.callee;
  int h = d.intr;
  if (!callee && h != H_ASM) {
    unsigned k = d.ops.size() - 1;
    u64 a = concretize(get(d, k), 64, "indirect call target");
    auto it = addrf.find(a);
    if (it == addrf.end()) fatal("memory", "call through invalid function pointer");
    callee = it->second;
    h = handlerOf(callee);
  }
  if (h != H_NONE) { doHandler(d, h, callee); return; }
  const CallBase* cb = cast<CallBase>(d.I);
  std::vector<std::vector<Val>> args;
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    std::vector<Val> v;
    for (unsigned l = 0; l < d.opn[i]; l++) v.push_back(get(d, i, l));
    args.push_back(std::move(v));
  }
  enter(callee, args, cb);
}

void Engine::doHandler(const DInst& d, int h, const Function* callee) {
  const CallBase* cb = cast<CallBase>(d.I);
  auto advance = [&] {
    Frame& fr = S->st.back();
    if (auto* inv = dyn_cast<InvokeInst>(d.I)) gotoBB(inv->getNormalDest());
    else fr.ip++;
  };
  auto W = [&](unsigned i) { return bitw(cb->getArgOperand(i)->getType()->getScalarType()); };
  auto X = [&](unsigned i, unsigned l = 0) { return XE(get(d, i, l), W(i)); };
  auto ret = [&](const vfx::Expr* e) { if (d.dst >= 0) set(d, 0, EV(e)); };
  auto elementwise = [&](std::function<const vfx::Expr*(unsigned)> f) {
    for (unsigned l = 0; l < d.nleaf; l++) set(d, l, EV(f(l)));
  };
  switch (h) {
    case H_NOP: break;
    case H_RET0:
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, d.w[l] <= 64 ? CV(0) : EV(mkConst(0, d.w[l])));
      break;
    case H_LLASSUME: break;
    case H_SYM: {  // u64 vf_sym(const char* name, unsigned bits)
      std::string nm = cstr(concretize(get(d, 0), 64, "name"));
      unsigned w = (unsigned)concretize(get(d, 1), 32, "width");
      int k = S->symCount[nm]++;
      std::string key = nm + "#" + std::to_string(k) + ":" + std::to_string(w);
      const vfx::Expr* e = mkSym(key, nm + (k ? "#" + std::to_string(k) : ""), w, false);
      S->inputs.push_back({nm, w, e});
      ret(mkZExt(e, 64));
      break;
    }
    case H_ASSUME: {
      const vfx::Expr* c = mkNot(mkEq(X(0), mkConst(0, W(0))));
      if (isTrue(c)) break;
      if (isFalse(c)) { assumeCut++; throw PathEnd(); }
      Assign m;
      Sat r = solver.check(S->pc, c, *S->model, m);
      if (r == Sat::Unknown) { incomplete("solver timeout in assume at " + where()); throw PathEnd(); }
      if (r == Sat::No) { assumeCut++; throw PathEnd(); }
      S->model = std::make_shared<Assign>(m);
      addPC(c);
      break;
    }
    case H_CHECK: {
      std::string label = cstr(concretize(get(d, 1), 64, "label"));
      const vfx::Expr* c = mkNot(mkEq(X(0), mkConst(0, W(0))));
      checks[label]++;
      if (c->op != Op::Const) symChecks[label]++;
      if (isFalse(c)) { report("check", label, *S->model); throw PathEnd(); }
      require(c, "check", label);
      break;
    }
    case H_REACH: reach[cstr(concretize(get(d, 0), 64, "label"))]++; break;
    case H_OBSERVE: {
      std::string label = cstr(concretize(get(d, 0), 64, "label"));
      S->obs.push_back({label, X(1)});
      break;
    }
    case H_CONCRETIZE: {
      u64 v = concretize(get(d, 0), W(0), "vf_concretize");
      set(d, 0, CV(v));
      break;
    }
    case H_COCREATE: {
      auto it = addrf.find(concretize(get(d, 0), 64, "coroutine"));
      if (it == addrf.end()) fatal("memory", "coroutine through invalid function pointer");
      std::vector<std::vector<Val>> arg{{get(d, 1)}};
      std::vector<Frame> keep;
      keep.swap(S->st);
      enter(it->second, arg, nullptr);
      keep.swap(S->st);
      S->co.push_back(std::move(keep));
      ret(mkConst(S->co.size() - 1, d.w[0]));
      break;
    }
    case H_COSWITCH: {
      u64 to = concretize(get(d, 0), W(0), "coroutine");
      if (to >= S->co.size() || to == S->cur) fatal("memory", "switch to invalid coroutine");
      advance();
      S->co[S->cur] = std::move(S->st);
      S->st = std::move(S->co[to]);
      S->co[to].clear();
      S->cur = to;
      return;
    }
    case H_ISSYM: ret(mkConst(get(d, 0).e ? 1 : 0, d.w[0])); break;
    case H_HEAPLIVE: ret(mkConst((u64)S->heapLive, d.w[0])); break;
    case H_PRINT: {
      Val v = get(d, 1);
      fprintf(stderr, "PRINT %s %s\n", cstr(get(d, 0).c).c_str(), toStr(XE(v, W(1))).c_str());
      break;
    }
    case H_PURE: assumeCut++; throw PathEnd();
    case H_MALLOC: case H_NEW: case H_NEWA: {
      u64 n = concretize(get(d, 0), 64, "allocation size");
      if (n > (1ULL << 28)) {
        if (h == H_MALLOC) { ret(mkConst(0, 64)); break; }
        fatal("abort", "huge allocation");
      }
      ret(mkConst(allocate(n, 16, true, h == H_MALLOC ? 1 : h == H_NEW ? 2 : 3), 64));
      break;
    }
    case H_NEWAL: case H_NEWAAL: {
      u64 n = concretize(get(d, 0), 64, "allocation size");
      u64 al = concretize(get(d, 1), 64, "alignment");
      ret(mkConst(allocate(n, al, true, h == H_NEWAL ? 2 : 3), 64));
      break;
    }
    case H_CALLOC: {
      u64 n = concretize(get(d, 0), 64, "allocation size"), m = concretize(get(d, 1), 64, "allocation size");
      u64 a = allocate(n * m, 16, true, 1);
      (*findObj(a))->zero = true;
      ret(mkConst(a, 64));
      break;
    }
    case H_FREE: case H_DEL: case H_DELA: {
      u64 a = concretize(get(d, 0), 64, "free pointer");
      release(a, h == H_FREE ? 1 : h == H_DEL ? 2 : 3);
      break;
    }
    case H_MEMCPY: {
      u64 n = concretize(get(d, 2), W(2), "memcpy length");
      if (n) {
        u64 dst = concretize(get(d, 0), 64, "memcpy dst"), src = concretize(get(d, 1), 64, "memcpy src");
        ObjP* so = resolve(src, n, false);
        ObjP keep = *so;
        u64 soff = src - keep->base;
        ObjP* dd = resolve(dst, n, true);
        u64 doff = dst - (*dd)->base;
        std::vector<std::pair<const vfx::Expr*, u8>> buf(n);
        for (u64 i = 0; i < n; i++) { u8 v = 0; buf[i].first = rByte(*keep, soff + i, v); buf[i].second = v; }
        keep.reset();
        Obj& w = writable(dd);
        for (u64 i = 0; i < n; i++) { if (buf[i].first) wSym(w, doff + i, buf[i].first); else wConc(w, doff + i, buf[i].second); }
      }
      if (d.dst >= 0) set(d, 0, get(d, 0));
      break;
    }
    case H_MEMSET: {
      u64 n = concretize(get(d, 2), W(2), "memset length");
      if (n) {
        u64 dst = concretize(get(d, 0), 64, "memset dst");
        ObjP* dd = resolve(dst, n, true);
        Obj& w = writable(dd);
        const vfx::Expr* b = mkExtract(X(1), 0, 8);
        for (u64 i = 0; i < n; i++) wSym(w, dst - w.base + i, b);
      }
      if (d.dst >= 0) set(d, 0, get(d, 0));
      break;
    }
    case H_MEMCMP: case H_BCMP: {
      u64 n = concretize(get(d, 2), W(2), "memcmp length");
      const vfx::Expr* r = mkConst(0, 32);
      if (n) {
        u64 a = concretize(get(d, 0), 64, "memcmp a"), b = concretize(get(d, 1), 64, "memcmp b");
        for (u64 i = n; i-- > 0;) {
          ObjP* oa = resolve(a + i, 1, false);
          const vfx::Expr* x = byteE(oa, a + i - (*oa)->base);
          ObjP* ob = resolve(b + i, 1, false);
          const vfx::Expr* y = byteE(ob, b + i - (*ob)->base);
          const vfx::Expr* eq = mkEq(x, y);
          const vfx::Expr* df = h == H_BCMP ? mkConst(1, 32) : mkBin(Op::Sub, mkZExt(x, 32), mkZExt(y, 32));
          r = mkIte(eq, r, df);
        }
      }
      ret(r);
      break;
    }
    case H_ABORT: fatal("abort", callee ? callee->getName().str() : "abort");
    case H_EXIT: fatal("abort", "exit");
    case H_THROW: fatal("throw", callee->getName().str());
    case H_TRAP: fatal("abort", callee->getName().str());
    case H_CTPOP: elementwise([&](unsigned l) {
      unsigned w = W(0);
      const vfx::Expr* r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(X(0, l), i, 1), w));
      return r; });
      break;
    case H_CTLZ: elementwise([&](unsigned l) {
      unsigned w = W(0);
      const vfx::Expr* r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(X(0, l), i, 1), mkConst(w - 1 - i, w), r);
      return r; });
      break;
    case H_CTTZ: elementwise([&](unsigned l) {
      unsigned w = W(0);
      const vfx::Expr* r = mkConst(w, w);
      for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(X(0, l), i, 1), mkConst(i, w), r);
      return r; });
      break;
    case H_BSWAP: elementwise([&](unsigned l) {
      unsigned w = W(0);
      const vfx::Expr* r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { auto* b = mkExtract(X(0, l), i, 8); r = r ? mkConcat(r, b) : b; }
      return r; });
      break;
    case H_BITREV: elementwise([&](unsigned l) {
      unsigned w = W(0);
      const vfx::Expr* r = nullptr;
      for (unsigned i = 0; i < w; i++) { auto* b = mkExtract(X(0, l), i, 1); r = r ? mkConcat(r, b) : b; }
      return r; });
      break;
    case H_FSHL: case H_FSHR: elementwise([&](unsigned l) {
      unsigned w = W(0);
      const vfx::Expr *a = X(0, l), *b = X(1, l), *s = mkBin(Op::URem, X(2, l), mkConst(w, w));
      const vfx::Expr* inv = mkBin(Op::Sub, mkConst(w, w), s);
      if (h == H_FSHL) return mkBin(Op::Or, mkBin(Op::Shl, a, s), mkBin(Op::LShr, b, inv));
      return mkBin(Op::Or, mkBin(Op::Shl, a, inv), mkBin(Op::LShr, b, s)); });
      break;
    case H_UMIN: elementwise([&](unsigned l) { return mkIte(mkBin(Op::Ult, X(0, l), X(1, l)), X(0, l), X(1, l)); }); break;
    case H_UMAX: elementwise([&](unsigned l) { return mkIte(mkBin(Op::Ult, X(0, l), X(1, l)), X(1, l), X(0, l)); }); break;
    case H_SMIN: elementwise([&](unsigned l) { return mkIte(mkBin(Op::Slt, X(0, l), X(1, l)), X(0, l), X(1, l)); }); break;
    case H_SMAX: elementwise([&](unsigned l) { return mkIte(mkBin(Op::Slt, X(0, l), X(1, l)), X(1, l), X(0, l)); }); break;
    case H_ABS: elementwise([&](unsigned l) {
      unsigned w = W(0);
      return mkIte(mkBin(Op::Slt, X(0, l), mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), X(0, l)), X(0, l)); });
      break;
    case H_USUBSAT: elementwise([&](unsigned l) {
      return mkIte(mkBin(Op::Ult, X(0, l), X(1, l)), mkConst(0, W(0)), mkBin(Op::Sub, X(0, l), X(1, l))); });
      break;
    case H_UADDSAT: elementwise([&](unsigned l) {
      const vfx::Expr* s = mkBin(Op::Add, X(0, l), X(1, l));
      return mkIte(mkBin(Op::Ult, s, X(0, l)), mkConst(maskw(W(0)), W(0)), s); });
      break;
    case H_SADDSAT: case H_SSUBSAT: {
      unsigned w = W(0);
      if (w > 64) throw Unsupported{"sat"};
      const vfx::Expr* a = mkSExt(X(0), w + 1); const vfx::Expr* b = mkSExt(X(1), w + 1);
      const vfx::Expr* r = mkBin(h == H_SADDSAT ? Op::Add : Op::Sub, a, b);
      const vfx::Expr* mx = mkConst(maskw(w - 1), w + 1);
      const vfx::Expr* mn = mkConst((u128)0 - ((u128)1 << (w - 1)), w + 1);
      r = mkIte(mkBin(Op::Slt, mx, r), mx, mkIte(mkBin(Op::Slt, r, mn), mn, r));
      ret(mkExtract(r, 0, w));
      break;
    }
    case H_UADDO: { auto* s = mkBin(Op::Add, X(0), X(1)); set(d, 0, EV(s)); set(d, 1, EV(mkBin(Op::Ult, s, X(0)))); break; }
    case H_USUBO: { set(d, 0, EV(mkBin(Op::Sub, X(0), X(1)))); set(d, 1, EV(mkBin(Op::Ult, X(0), X(1)))); break; }
    case H_SADDO: case H_SSUBO: {
      unsigned w = W(0);
      Op op = h == H_SADDO ? Op::Add : Op::Sub;
      auto* r = mkBin(op, mkSExt(X(0), w + 1), mkSExt(X(1), w + 1));
      set(d, 0, EV(mkExtract(r, 0, w)));
      set(d, 1, EV(mkNot(mkEq(mkExtract(r, w, 1), mkExtract(r, w - 1, 1)))));
      break;
    }
    case H_SMULO: case H_UMULO: {
      unsigned w = W(0);
      if (w > 64) throw Unsupported{"mulo128"};
      bool sg = h == H_SMULO;
      auto* a = sg ? mkSExt(X(0), 2 * w) : mkZExt(X(0), 2 * w);
      auto* b = sg ? mkSExt(X(1), 2 * w) : mkZExt(X(1), 2 * w);
      auto* r = mkBin(Op::Mul, a, b);
      auto* lo = mkExtract(r, 0, w);
      set(d, 0, EV(lo));
      set(d, 1, EV(mkNot(mkEq(r, sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w)))));
      break;
    }
    case H_EXPECT: set(d, 0, get(d, 0)); break;
    case H_ISCONST: ret(mkConst(0, 1)); break;
    case H_OBJSIZE: ret(mkConst(get(d, 1).c ? 0 : ~0ULL, d.w[0])); break;
    case H_FABS: elementwise([&](unsigned l) { unsigned w = W(0); return mkZExt(mkExtract(X(0, l), 0, w - 1), w); }); break;
    case H_COPYSIGN: elementwise([&](unsigned l) {
      unsigned w = W(0); return mkConcat(mkExtract(X(1, l), w - 1, 1), mkExtract(X(0, l), 0, w - 1)); });
      break;
    case H_FMULADD: ret(mkF(Op::FAdd, W(0), mkF(Op::FMul, W(0), X(0), X(1)), X(2))); break;
    case H_SQRT: ret(mkF(Op::FSqrt, W(0), X(0))); break;
    case H_FLOORISH: {  // constants only
      if (get(d, 0).e || d.opn[0] != 1) throw Unsupported{callee->getName().str() + " of a symbolic value"};
      StringRef n = callee->getName();
      auto f = [&](auto x) { return n.contains("ceil") ? std::ceil(x) : n.contains("floor") ? std::floor(x) : n.contains("trunc") ? std::trunc(x) : std::round(x); };
      u64 b = get(d, 0).c;
      if (W(0) == 32) { float x; uint32_t t = (uint32_t)b; memcpy(&x, &t, 4); x = f(x); memcpy(&t, &x, 4); b = t; }
      else if (W(0) == 64) { double x; memcpy(&x, &b, 8); x = f(x); memcpy(&b, &x, 8); }
      else throw Unsupported{n.str()};
      ret(mkConst(b, W(0)));
      break;
    }
    case H_SNPRINTF: {  // integers, characters and strings; each argument is made concrete
      u64 dst = concretize(get(d, 0), 64, "snprintf buffer"), cap = concretize(get(d, 1), 64, "snprintf size");
      std::string fmt = cstr(concretize(get(d, 2), 64, "snprintf format")), out;
      unsigned arg = 3;
      for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { out += fmt[i]; continue; }
        if (i + 1 < fmt.size() && fmt[i + 1] == '%') { out += '%'; i++; continue; }
        size_t j = i + 1;
        std::string spec = "%";
        while (j < fmt.size() && strchr("-+ #0123456789.", fmt[j])) spec += fmt[j++];
        int longs = 0, shorts = 0;
        while (j < fmt.size() && strchr("lhzjt", fmt[j])) { longs += fmt[j] != 'h'; shorts += fmt[j] == 'h'; j++; }
        if (j >= fmt.size() || arg >= d.ops.size() || !strchr("diuxXocsp", fmt[j])) throw Unsupported{"snprintf conversion in " + fmt};
        u64 v = concretize(get(d, arg), W(arg), "snprintf argument");
        char c = fmt[j], buf[256];
        if (c == 's') snprintf(buf, sizeof buf, (spec + "s").c_str(), cstr(v).c_str());
        else if (c == 'c') snprintf(buf, sizeof buf, (spec + "c").c_str(), (int)v);
        else if (c == 'd' || c == 'i') snprintf(buf, sizeof buf, (spec + "lld").c_str(), longs ? (long long)v : shorts == 1 ? (long long)(short)v : shorts > 1 ? (long long)(signed char)v : (long long)(int)v);
        else if (c == 'p') snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v);
        else snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), (unsigned long long)(longs ? v : shorts == 1 ? (u64)(unsigned short)v : shorts > 1 ? (u64)(unsigned char)v : (u64)(uint32_t)v));
        out += buf;
        arg++;
        i = j;
      }
      if (cap) {
        std::string w = out.substr(0, cap - 1);
        ObjP* dd = resolve(dst, w.size() + 1, true);
        Obj& o = writable(dd);
        for (size_t i = 0; i <= w.size(); i++) wConc(o, dst - o.base + i, i < w.size() ? (u8)w[i] : 0);
      }
      ret(mkConst((uint32_t)out.size(), 32));
      break;
    }
    case H_ISFPCLASS: {
      unsigned w = W(0), m = (unsigned)get(d, 1).c;
      unsigned fb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
      auto* x = X(0);
      auto* ex = mkExtract(x, fb, eb); auto* fr = mkExtract(x, 0, fb); auto* sg = mkExtract(x, w - 1, 1);
      auto* e1 = mkEq(ex, mkConst(maskw(eb), eb)); auto* e0 = mkEq(ex, mkConst(0, eb));
      auto* f0 = mkEq(fr, mkConst(0, fb)); auto* q = mkExtract(x, fb - 1, 1);
      auto AND = [&](const vfx::Expr* a, const vfx::Expr* b) { return mkBin(Op::And, a, b); };
      auto* nan = AND(e1, mkNot(f0));
      auto* nrm = AND(mkNot(e1), mkNot(e0));
      auto* sub = AND(e0, mkNot(f0));
      auto* zer = AND(e0, f0);
      auto* inf = AND(e1, f0);
      auto* ns = sg; auto* ps = mkNot(sg);
      const vfx::Expr* cls[10] = {AND(nan, mkNot(q)), AND(nan, q), AND(inf, ns), AND(nrm, ns), AND(sub, ns), AND(zer, ns), AND(zer, ps), AND(sub, ps), AND(nrm, ps), AND(inf, ps)};
      const vfx::Expr* r = mkFalse();
      for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkBin(Op::Or, r, cls[i]);
      ret(r);
      break;
    }
    case H_REDUCE: {
      StringRef n = callee->getName();
      auto* r = X(0, 0);
      for (unsigned l = 1; l < d.opn[0]; l++) {
        auto* y = X(0, l);
        if (n.contains("reduce.add")) r = mkBin(Op::Add, r, y);
        else if (n.contains("reduce.or")) r = mkBin(Op::Or, r, y);
        else if (n.contains("reduce.and")) r = mkBin(Op::And, r, y);
        else if (n.contains("reduce.xor")) r = mkBin(Op::Xor, r, y);
        else throw Unsupported{n.str()};
      }
      ret(r);
      break;
    }
    case H_ASM: {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty()) { // compiler barrier
        if (d.dst >= 0 && d.ops.size()) set(d, 0, get(d, 0));
        break;
      }
      throw Unsupported{"inline asm"};
    }
    default:
      throw Unsupported{"call to unmodelled external function " + (callee ? callee->getName().str() : std::string("?"))};
  }
  advance();
}

void Engine::step(const DInst& d) {
  Frame& fr = S->st.back();
  const Instruction* I = d.I;
  switch (d.opc) {
    case Instruction::Ret: {
      std::vector<Val> rv;
      if (!d.ops.empty()) for (unsigned l = 0; l < d.opn[0]; l++) rv.push_back(get(d, 0, l));
      for (u64 a : fr.allocas) S->mem.erase(a);
      S->st.pop_back();
      if (S->st.empty()) { finishPath(); throw PathEnd(); }
      Frame& c = S->st.back();
      const DInst& ci = c.f->bbs[c.bb][c.ip];
      if (ci.dst >= 0) for (unsigned l = 0; l < rv.size() && l < ci.nleaf; l++) c.regs[ci.dst + l] = rv[l];
      if (auto* inv = dyn_cast<InvokeInst>(ci.I)) gotoBB(inv->getNormalDest());
      else c.ip++;
      return;
    }
    case Instruction::Br: {
      auto* br = cast<BranchInst>(I);
      if (br->isUnconditional()) { gotoBB(br->getSuccessor(0)); return; }
      Val c = get(d, 0);
      if (c.e && S->nbound) c = reduce(c);
      if (!c.e) { gotoBB(br->getSuccessor(c.c & 1 ? 0 : 1)); return; }
      bool v = evalB(c.e);
      const vfx::Expr* taken = v ? c.e : mkNot(c.e);
      if (forkOther(mkNot(taken))) addPC(taken);
      gotoBB(br->getSuccessor(v ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      unsigned w = bitw(sw->getCondition()->getType());
      Val c = get(d, 0);
      if (c.e && S->nbound) c = reduce(c);
      if (!c.e) {
        const BasicBlock* t = sw->getDefaultDest();
        for (auto& k : sw->cases()) if (k.getCaseValue()->getZExtValue() == c.c) { t = k.getCaseSuccessor(); break; }
        gotoBB(t);
        return;
      }
      std::map<const BasicBlock*, const vfx::Expr*> conds;
      std::vector<const BasicBlock*> order;
      const vfx::Expr* none = mkTrue();
      for (auto& k : sw->cases()) {
        auto* q = mkEq(c.e, mkConst(k.getCaseValue()->getZExtValue(), w));
        auto*& e = conds[k.getCaseSuccessor()];
        if (!e) { e = mkFalse(); order.push_back(k.getCaseSuccessor()); }
        e = mkBin(Op::Or, e, q);
        none = mkBin(Op::And, none, mkNot(q));
      }
      auto*& e = conds[sw->getDefaultDest()];
      if (!e) { e = mkFalse(); order.push_back(sw->getDefaultDest()); }
      e = mkBin(Op::Or, e, none);
      const BasicBlock* t = nullptr;
      for (auto* b : order) if (evalB(conds[b])) { t = b; break; }
      bool any = false;
      if (forkOther(mkNot(conds[t]))) any = true;
      if (any) addPC(conds[t]);
      gotoBB(t);
      return;
    }
    case Instruction::Unreachable: fatal("abort", "reached unreachable code");
    case Instruction::Call: case Instruction::Invoke: call(d); return;
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I);
      u64 n = concretize(get(d, 0), bitw(al->getArraySize()->getType()), "alloca size");
      u64 sz = n * DL.getTypeAllocSize(al->getAllocatedType());
      u64 a = allocate(sz, al->getAlign().value(), false, 0);
      S->st.back().allocas.push_back(a);
      set(d, 0, CV(a));
      break;
    }
    case Instruction::Load: {
      auto* ld = cast<LoadInst>(I);
      Val a = get(d, 0);
      if (d.nleaf == 1) {
        if (a.e && ld->getType()->isPointerTy()) a = concreteAddr(a, 8, false);
        set(d, 0, load(a, DL.getTypeStoreSize(ld->getType()), d.w[0]));
      } else {
        u64 ca = concretize(a, 64, "aggregate load");
        std::vector<std::pair<u64, Type*>> lo;
        leafOffsets(ld->getType(), 0, lo);
        for (unsigned l = 0; l < lo.size(); l++) set(d, l, load(CV(ca + lo[l].first), DL.getTypeStoreSize(lo[l].second), d.w[l]));
      }
      break;
    }
    case Instruction::Store: {
      auto* st = cast<StoreInst>(I);
      Type* t = st->getValueOperand()->getType();
      Val a = get(d, 1);
      if (d.opn[0] == 1) {
        store(a, DL.getTypeStoreSize(t), get(d, 0), bitw(t->getScalarType()));
      } else {
        u64 ca = concretize(a, 64, "aggregate store");
        std::vector<std::pair<u64, Type*>> lo;
        leafOffsets(t, 0, lo);
        for (unsigned l = 0; l < lo.size(); l++) store(CV(ca + lo[l].first), DL.getTypeStoreSize(lo[l].second), get(d, 0, l), bitw(lo[l].second));
      }
      break;
    }
    case Instruction::GetElementPtr: {
      auto* gep = cast<GetElementPtrInst>(I);
      if (gep->getType()->isVectorTy()) throw Unsupported{"vector gep"};
      Val p = get(d, 0);
      unsigned k = 1;
      for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi, ++k) {
        if (StructType* st = gi.getStructTypeOrNull()) {
          u64 f = cast<ConstantInt>(gi.getOperand())->getZExtValue();
          p = binop(Instruction::Add, p, CV(DL.getStructLayout(st)->getElementOffset(f)), 64);
        } else {
          u64 es = DL.getTypeAllocSize(gi.getIndexedType());
          unsigned w = bitw(gi.getOperand()->getType());
          Val ix = get(d, k);
          if (!ix.e) {
            p = binop(Instruction::Add, p, CV((u64)(i128)sext(ix.c, w) * es), 64);
          } else {
            const vfx::Expr* e = w < 64 ? mkSExt(ix.e, 64) : w > 64 ? mkExtract(ix.e, 0, 64) : ix.e;
            p = binop(Instruction::Add, p, EV(mkBin(Op::Mul, e, mkConst(es, 64))), 64);
          }
        }
      }
      set(d, 0, p);
      break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv:
    case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      for (unsigned l = 0; l < d.nleaf; l++) {
        Val r = binop(d.opc, get(d, 0, l), get(d, 1, l), d.w[l]);
        set(d, l, r);
      }
      break;
    case Instruction::ICmp: {
      auto* ci = cast<ICmpInst>(I);
      unsigned w = bitw(ci->getOperand(0)->getType()->getScalarType());
      for (unsigned l = 0; l < d.nleaf; l++) {
        Val a = get(d, 0, l), b = get(d, 1, l);
        if (!a.e && !b.e) {
          u64 x = a.c, y = b.c;
          i128 sx = sext(x, w), sy = sext(y, w);
          bool r;
          switch (ci->getPredicate()) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            default: r = sx >= sy; break;
          }
          set(d, l, CV(r));
        } else {
          set(d, l, EV(icmp(ci->getPredicate(), XE(a, w), XE(b, w))));
        }
      }
      break;
    }
    case Instruction::FCmp: {
      auto* ci = cast<FCmpInst>(I);
      unsigned w = bitw(ci->getOperand(0)->getType()->getScalarType());
      if (w != 32 && w != 64) throw Unsupported{"fcmp width"};
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, EV(fcmp(ci->getPredicate(), XE(get(d, 0, l), w), XE(get(d, 1, l), w))));
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Op op = d.opc == Instruction::FAdd ? Op::FAdd : d.opc == Instruction::FSub ? Op::FSub : d.opc == Instruction::FMul ? Op::FMul : Op::FDiv;
      for (unsigned l = 0; l < d.nleaf; l++) {
        if (d.w[l] != 32 && d.w[l] != 64) throw Unsupported{"fp width"};
        set(d, l, EV(mkF(op, d.w[l], XE(get(d, 0, l), d.w[l]), XE(get(d, 1, l), d.w[l]))));
      }
      break;
    }
    case Instruction::FNeg:
      for (unsigned l = 0; l < d.nleaf; l++) {
        unsigned w = d.w[l];
        set(d, l, EV(mkBin(Op::Xor, XE(get(d, 0, l), w), mkConst((u128)1 << (w - 1), w))));
      }
      break;
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Op op = d.opc == Instruction::FPExt ? Op::FPExt : d.opc == Instruction::FPTrunc ? Op::FPTrunc : d.opc == Instruction::SIToFP ? Op::SIToFP
              : d.opc == Instruction::UIToFP ? Op::UIToFP : d.opc == Instruction::FPToSI ? Op::FPToSI : Op::FPToUI;
      unsigned w = bitw(I->getOperand(0)->getType()->getScalarType());
      for (unsigned l = 0; l < d.nleaf; l++) {
        const vfx::Expr* x = XE(get(d, 0, l), w);
        if (d.w[l] > 64 || w > 64) throw Unsupported{"fp conversion width"};
        set(d, l, EV(mkF(op, d.w[l], x)));
      }
      break;
    }
    case Instruction::Trunc:
      for (unsigned l = 0; l < d.nleaf; l++) {
        Val a = get(d, 0, l);
        set(d, l, a.e ? EV(mkExtract(a.e, 0, d.w[l])) : CV(a.c & m64w(d.w[l])));
      }
      break;
    case Instruction::ZExt: case Instruction::SExt: {
      unsigned w = bitw(I->getOperand(0)->getType()->getScalarType());
      for (unsigned l = 0; l < d.nleaf; l++) {
        Val a = get(d, 0, l);
        if (!a.e && d.w[l] <= 64) set(d, l, d.opc == Instruction::ZExt ? a : CV((u64)(i128)sext(a.c, w) & m64w(d.w[l])));
        else set(d, l, EV(d.opc == Instruction::ZExt ? mkZExt(XE(a, w), d.w[l]) : mkSExt(XE(a, w), d.w[l])));
      }
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned w = bitw(I->getOperand(0)->getType()->getScalarType());
      for (unsigned l = 0; l < d.nleaf; l++) {
        const vfx::Expr* x = XE(get(d, 0, l), w);
        set(d, l, EV(w > d.w[l] ? mkExtract(x, 0, d.w[l]) : mkZExt(x, d.w[l])));
      }
      break;
    }
    case Instruction::BitCast: {
      if (d.nleaf == d.opn[0]) { for (unsigned l = 0; l < d.nleaf; l++) set(d, l, get(d, 0, l)); break; }
      // vector <-> scalar / different element counts, little endian
      unsigned sw = bitw(I->getOperand(0)->getType()->getScalarType());
      const vfx::Expr* all = nullptr;
      for (unsigned l = 0; l < d.opn[0]; l++) { auto* x = XE(get(d, 0, l), sw); all = all ? mkConcat(x, all) : x; }
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, EV(mkExtract(all, l * d.w[l], d.w[l])));
      break;
    }
    case Instruction::Freeze: case Instruction::AddrSpaceCast:
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, get(d, 0, l));
      break;
    case Instruction::Select: {
      bool vec = I->getOperand(0)->getType()->isVectorTy();
      if (!vec && I->getType()->isPointerTy()) {
        Val c = get(d, 0);
        if (c.e) {  // fork, so that addresses stay concrete
          bool v = evalB(c.e);
          const vfx::Expr* t = v ? c.e : mkNot(c.e);
          if (forkOther(mkNot(t))) addPC(t);
          set(d, 0, get(d, v ? 1 : 2));
          break;
        }
      }
      for (unsigned l = 0; l < d.nleaf; l++) {
        Val c = get(d, 0, vec ? l : 0);
        if (!c.e) set(d, l, get(d, c.c & 1 ? 1 : 2, l));
        else set(d, l, EV(mkIte(c.e, XE(get(d, 1, l), d.w[l]), XE(get(d, 2, l), d.w[l]))));
      }
      break;
    }
    case Instruction::ExtractValue:
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, get(d, 0, d.a0 + l));
      break;
    case Instruction::InsertValue: {
      std::vector<Val> t;
      for (unsigned l = 0; l < d.nleaf; l++) t.push_back(get(d, 0, l));
      for (unsigned l = 0; l < d.opn[1]; l++) t[d.a0 + l] = get(d, 1, l);
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, t[l]);
      break;
    }
    case Instruction::ExtractElement: {
      u64 ix = concretize(get(d, 1), bitw(I->getOperand(1)->getType()), "vector index");
      set(d, 0, get(d, 0, ix));
      break;
    }
    case Instruction::InsertElement: {
      u64 ix = concretize(get(d, 2), bitw(I->getOperand(2)->getType()), "vector index");
      std::vector<Val> t;
      for (unsigned l = 0; l < d.nleaf; l++) t.push_back(get(d, 0, l));
      t[ix] = get(d, 1);
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, t[l]);
      break;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      std::vector<Val> t;
      unsigned n0 = d.opn[0];
      for (int m : sv->getShuffleMask()) t.push_back(m < 0 ? CV(0) : (unsigned)m < n0 ? get(d, 0, m) : get(d, 1, m - n0));
      for (unsigned l = 0; l < d.nleaf; l++) set(d, l, t[l]);
      break;
    }
    case Instruction::AtomicRMW: {
      auto* rmw = cast<AtomicRMWInst>(I);
      unsigned w = d.w[0]; u64 n = (w + 7) / 8;
      Val a = CV(concretize(get(d, 0), 64, "atomic address"));
      Val old = load(a, n, w), v = get(d, 1), nv;
      switch (rmw->getOperation()) {
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, w); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, w); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, v, w); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v, w); break;
        case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v, w); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: throw Unsupported{"atomicrmw"};
      }
      store(a, n, nv, w);
      set(d, 0, old);
      break;
    }
    case Instruction::AtomicCmpXchg: {
      unsigned w = d.w[0]; u64 n = (w + 7) / 8;
      Val a = CV(concretize(get(d, 0), 64, "atomic address"));
      Val old = load(a, n, w);
      const vfx::Expr* eq = mkEq(XE(old, w), XE(get(d, 1), w));
      store(a, n, EV(mkIte(eq, XE(get(d, 2), w), XE(old, w))), w);
      set(d, 0, old);
      set(d, 1, EV(eq));
      break;
    }
    case Instruction::Fence: break;
    case Instruction::LandingPad: case Instruction::Resume: fatal("abort", "exception propagated");
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
  S->st.back().ip++;
}

void Engine::finishPath() {
  paths++;
  if (samples.size() < samplePaths) {
    Sample s;
    for (auto& in : S->inputs) s.in.push_back({in.name, (u64)evalExpr(in.e, *S->model)});
    for (auto& o : S->obs) s.ob.push_back({o.name, (u64)evalExpr(o.e, *S->model)});
    samples.push_back(s);
  }
}

void Engine::runState() {
  u64 n = 0;
  try {
    while (true) {
      Frame& fr = S->st.back();
      const DInst& d = fr.f->bbs[fr.bb][fr.ip];
      n++;
      if (++S->steps > maxSteps) fatal("steplimit", "path exceeded the step bound");
      if ((n & 0x3fff) == 0 && now() - t0 > timeout) { incomplete("time budget exhausted"); throw PathEnd(); }
      step(d);
    }
  } catch (PathEnd&) {
  } catch (Unsupported& u) {
    incomplete("unsupported: " + u.msg + " at " + where());
  }
  totalSteps += n;
  maxPathSteps = std::max(maxPathSteps, S->steps);
}

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

void Engine::writeResult() {
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  bool complete = incompletes.empty() && work.empty();
  fprintf(f, "{\"complete\":%s,\"paths\":%llu,\"forks\":%llu,\"assume_cut\":%llu,\"steps\":%llu,\"max_path_steps\":%llu,\"wall\":%.3f,\"exprs\":%zu,\n",
          complete ? "true" : "false", (unsigned long long)paths, (unsigned long long)forks, (unsigned long long)assumeCut,
          (unsigned long long)totalSteps, (unsigned long long)maxPathSteps, now() - t0, exprCount());
  auto& st = solver.stats;
  fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"time\":%.3f,\"max\":%.3f},\n",
          (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown,
          (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, st.time, st.maxTime);
  auto jm = [&](const char* n, const std::map<std::string, u64>& m) {
    fprintf(f, "\"%s\":{", n);
    bool c = false;
    for (auto& kv : m) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(kv.first).c_str(), (unsigned long long)kv.second); c = true; }
    fprintf(f, "},\n");
  };
  jm("reach", reach); jm("checks", checks); jm("sym_checks", symChecks);
  fprintf(f, "\"incomplete\":[");
  for (size_t i = 0; i < incompletes.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(incompletes[i]).c_str());
  fprintf(f, "],\n\"functions\":[");
  bool c = false;
  std::set<std::string> fs;
  for (auto& kv : funcs) if (kv.second && kv.second->executed && kv.second->file.compare(0, repo.size(), repo) == 0) {
    fs.insert(kv.second->F->getName().str());
  }
  // inlined functions: any debug scope seen inside executed functions
  for (auto& kv : funcs) if (kv.second && kv.second->executed) {
    for (auto& bb : kv.second->bbs) for (auto& d : bb) {
      const DILocation* dl = d.I->getDebugLoc().get();
      while (dl) {
        if (auto* sp = dl->getScope()->getSubprogram()) {
          std::string fn = sp->getFilename().str();
          if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
          if (fn.compare(0, repo.size(), repo) == 0) fs.insert((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str());
        }
        dl = dl->getInlinedAt();
      }
    }
  }
  for (auto& s : fs) { fprintf(f, "%s%s", c ? "," : "", jstr(s).c_str()); c = true; }
  fprintf(f, "],\n\"errors\":[");
  for (size_t i = 0; i < errors.size(); i++) {
    auto& e = errors[i];
    fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"tainted\":%s,\"stack\":[", i ? ",\n" : "", jstr(e.kind).c_str(), jstr(e.label).c_str(),
            jstr(e.where).c_str(), e.tainted ? "true" : "false");
    for (size_t k = 0; k < e.stack.size(); k++) fprintf(f, "%s%s", k ? "," : "", jstr(e.stack[k]).c_str());
    fprintf(f, "],\"inputs\":[");
    for (size_t k = 0; k < e.inputs.size(); k++) fprintf(f, "%s[%s,\"%llu\"]", k ? "," : "", jstr(e.inputs[k].first).c_str(), (unsigned long long)e.inputs[k].second);
    fprintf(f, "]}");
  }
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) {
    fprintf(f, "%s{\"inputs\":[", i ? ",\n" : "");
    for (size_t k = 0; k < samples[i].in.size(); k++) fprintf(f, "%s[%s,\"%llu\"]", k ? "," : "", jstr(samples[i].in[k].first).c_str(), (unsigned long long)samples[i].in[k].second);
    fprintf(f, "],\"obs\":[");
    for (size_t k = 0; k < samples[i].ob.size(); k++) fprintf(f, "%s[%s,\"%llu\"]", k ? "," : "", jstr(samples[i].ob[k].first).c_str(), (unsigned long long)samples[i].ob[k].second);
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}

int Engine::run(const std::string& entry) {
  t0 = now();
  Function* F = M.getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "vfx: no entry %s\n", entry.c_str()); return 3; }
  State* s = new State();
  s->model = std::make_shared<Assign>();
  S = s;
  try {
    setupGlobals(*s);
  } catch (Unsupported& u) { fprintf(stderr, "vfx: setup: %s\n", u.msg.c_str()); return 3; }
  // Run the static constructors, then the entry, as a chain of frames.
  std::vector<const Function*> chain;
  if (auto* gc = M.getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, const Function*>> v;
      for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o);
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) chain.push_back(p.second);
    }
  }
  for (auto* c : chain) {
    size_t before = paths;
    try { enter(c, {}, nullptr); } catch (Unsupported& u) { fprintf(stderr, "vfx: ctor: %s\n", u.msg.c_str()); return 3; }
    runState();
    if (paths == before) { fprintf(stderr, "vfx: static constructor failed: %s\n", incompletes.empty() ? "?" : incompletes.back().c_str()); writeResult(); return 3; }
    paths = 0;
  }
  samples.clear();
  s->steps = 0;
  s->heapLive = 0;
  enter(F, {}, nullptr);
  work.push_back(s);
  S = nullptr;
  while (!work.empty()) {
    if (now() - t0 > timeout) { incomplete("time budget exhausted"); break; }
    if (paths >= maxPaths) { incomplete("path budget exhausted"); break; }
    if (errors.size() >= maxErrors) break;
    S = work.back();
    work.pop_back();
    runState();
    delete S;
    S = nullptr;
  }
  writeResult();
  return 0;
}
}  // namespace vfx

int main(int argc, char** argv) {
  std::string bc, entry, out;
  double timeout = 60;
  unsigned qto = 20000, maxErr = 8, samples = 3;
  unsigned long long maxSteps = 4000000;
  bool v = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--timeout") timeout = atof(argv[++i]);
    else if (a == "--query-timeout") qto = atoi(argv[++i]);
    else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 0);
    else if (a == "--max-errors") maxErr = atoi(argv[++i]);
    else if (a == "--samples") samples = atoi(argv[++i]);
    else if (a == "-v") v = true;
    else bc = a;
  }
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  auto m = llvm::parseIRFile(bc, err, ctx);
  if (!m) { err.print("vfx", llvm::errs()); return 3; }
  vfx::Engine* e = new vfx::Engine(*m, qto);
  e->timeout = timeout; e->maxSteps = maxSteps; e->maxErrors = maxErr; e->samplePaths = samples; e->out = out; e->verbose = v;
  int r = e->run(entry);
  fflush(stdout);
  _Exit(r);
}
