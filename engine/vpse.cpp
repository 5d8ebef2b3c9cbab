// vpse: a symbolic executor for LLVM IR (C++), written for /verif.  See DESIGN.md, section "Engine".
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <memory>
#include <set>
#include <functional>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

// ------------------------------------------------------------------------------------------
struct Options
{
   std::vector<std::string> files;
   std::string entry = "vp_main", out, srcPrefix = "/repo/src";
   double maxTime = 600;
   u64 maxPaths = 1000000000ull, maxInstr = 30000000ull, maxViolations = 6;
   bool race = false, verbose = false, explore = false, hangIsViolation = true;
   unsigned part = 0, parts = 1, splitDepth = 0;
   u64 table = 4096;
   unsigned solverMs = 4000, hardMs = 60000;
   int preempt = -1; int spurious = 0;
   long long maxRss = 3500; // MB
   std::map<std::string, long long> params;
} opt;

static Exprs X;
static Solver* SOL;
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;

// ------------------------------------------------------------------------------------------
// values
struct Val { Expr* e; u64 c; };
static inline Val cv(u64 c) { return {nullptr, c}; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Expr* toE(Val v, unsigned w) { return v.e ? v.e : X.constant(v.c, w); }
static inline Val fromE(Expr* e) { if ( e->op == Op::Const && e->w <= 64 ) return {nullptr, (u64)e->c}; return {e, 0}; }
static inline i64 sx(u64 v, unsigned w) { if ( w >= 64 ) return (i64)v; u64 s = 1ull << (w - 1); v &= m64(w); return (i64)((v ^ s) - s); }

struct Flat { unsigned w; u64 off; bool fp; };

enum DOp : u8 { D_BIN, D_ICMP, D_CAST, D_SELECT, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_BR, D_CBR, D_SWITCH, D_CALL, D_RET, D_UNREACH,
                D_RESUME, D_LPAD, D_MOV, D_CMPXCHG, D_RMW, D_NOP, D_FBIN, D_FCMP, D_FCAST, D_FNEG, D_UNSUP };

typedef int32_t Opd;
struct DFunc;
struct CallInfo
{
   Function* fn = nullptr; DFunc* df = nullptr; int handler = -2; Opd callee = 0;
   std::vector<Opd> args; std::vector<uint16_t> widths;
   u32 retn = 0; uint16_t retw = 0; bool invoke = false; u32 normalEdge = 0, unwindEdge = 0;
};
struct GepInfo { i64 off = 0; struct T { Opd o; i64 scale; uint16_t w; }; std::vector<T> t; };
struct LpadInfo { bool cleanup = false; struct C { bool isCatch; u64 ti; bool empty; }; std::vector<C> clauses; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct Edge { u32 pc = 0; BasicBlock* from = nullptr; BasicBlock* to = nullptr; std::vector<std::pair<int32_t, Opd>> copies; bool overlap = false; };
struct DInst
{
   DOp op; u8 sub; uint16_t w, w2; u32 n; int32_t dst; Opd a, b, c; u32 x, y; void* p; const Instruction* I;
};
struct DFunc
{
   Function* F; std::string name, pretty; bool repo = false;
   std::vector<DInst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<u64> edgeHits;
   u32 nregs = 0; std::vector<Opd> argSlots; std::vector<uint16_t> argW; u64 calls = 0; u64 addr = 0;
   u32 retn = 0;
};

// ------------------------------------------------------------------------------------------
// memory
struct SB { Expr* e; u32 i; };
struct RaceCell { u32 wt = 0, wc = 0; };
struct RaceShadow { std::vector<RaceCell> w; std::map<u32, std::vector<u32>> r; }; // r: tid -> per-byte clock
struct Obj
{
   u32 rc = 1; u64 size = 0; u8 kind = 0; bool ro = false; // kind: 0 global 1 heap 2 stack 3 tls
   std::vector<u8> d; std::vector<SB> s; std::unique_ptr<RaceShadow> rs;
   Obj* clone() const
   {
      Obj* o = new Obj; o->size = size; o->kind = kind; o->ro = ro; o->d = d; o->s = s;
      if ( rs ) o->rs.reset(new RaceShadow(*rs));
      return o;
   }
};
static inline void incr(Obj* o) { if ( o ) ++o->rc; }
static inline void decr(Obj* o) { if ( o && --o->rc == 0 ) delete o; }
struct Slot { u64 base, size; Obj* o; };

struct Space
{
   std::vector<Slot> v; u64 next = 0x200000000ull; u32 tomb = 0; mutable u32 hint = 0;
   Space() {}
   Space(const Space& r) : v(r.v), next(r.next), tomb(r.tomb), hint(r.hint) { for ( auto& s : v ) incr(s.o); }
   Space& operator=(const Space&) = delete;
   ~Space() { for ( auto& s : v ) decr(s.o); }
   u64 add(Obj* o, u64 align = 16)
   {
      if ( align < 16 ) align = 16;
      next = (next + align - 1) / align * align;
      u64 b = next;
      v.push_back({b, o->size, o});
      next += o->size + 16;
      next = (next + 15) & ~15ull;
      return b;
   }
   int find(u64 a) const // slot whose [base, base+size] contains a
   {
      if ( v.empty() || a < v[0].base ) return -1;
      if ( hint < v.size() && v[hint].base <= a && a <= v[hint].base + v[hint].size ) return (int)hint;
      size_t l = 0, h = v.size();
      while ( h - l > 1 ) { size_t m = (l + h) / 2; if ( v[m].base <= a ) l = m; else h = m; }
      if ( a > v[l].base + v[l].size ) return -1;
      hint = (u32)l;
      return (int)l;
   }
   Obj* writable(int i) { Obj*& o = v[i].o; if ( o->rc > 1 ) { Obj* n = o->clone(); --o->rc; o = n; } return o; }
   void release(int i)
   {
      decr(v[i].o); v[i].o = nullptr; ++tomb;
      if ( (size_t)i + 1 == v.size() && tomb > 0 ) { /* keep tombstone for use-after-free reports unless many */ }
      if ( tomb > 4096 && tomb * 2 > v.size() )
      {
         size_t k = 0;
         for ( size_t j = 0; j < v.size(); ++j ) if ( v[j].o ) v[k++] = v[j];
         v.resize(k); tomb = 0; hint = 0;
      }
   }
   void popStack(u64 base)
   {
      int i = find(base);
      if ( i < 0 || v[i].base != base || !v[i].o ) return;
      decr(v[i].o); v[i].o = nullptr;
      if ( (size_t)i + 1 == v.size() ) { v.pop_back(); if ( hint >= v.size() ) hint = 0; }
      else ++tomb;
   }
};

// ------------------------------------------------------------------------------------------
// state
typedef std::vector<u32> VC;
struct Frame { DFunc* f; u32 pc; std::vector<Val> r; std::vector<u64> allocas; u64 exc = 0; u64 sel = 0; };
enum TStat : u8 { T_READY, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread
{
   std::vector<Frame> st; TStat stat = T_READY; u64 obj = 0, obj2 = 0; bool granted = false, timed = false; bool wokeByTimeout = false; std::vector<u64> caught;
   VC vc; int inflight = 0; u64 done = 0;
};
struct Exc { u64 ti = 0; u64 dtor = 0; int handlers = 0; };
struct Mutex { int owner = -1; VC vc; u32 depth = 0; };
struct Input { std::string name; Expr* e; long long conc; };
struct State
{
   Space mem; std::vector<Thread> th; u32 cur = 0;
   std::vector<Expr*> cons; Model model; u64 tag = 0;
   u64 instrs = 0; std::vector<Input> inputs; std::vector<int> sched;
   std::map<u64, Exc> excs; std::map<u64, Mutex> mtx; std::map<u64, VC> atomics;
   std::map<std::pair<u32, const GlobalVariable*>, u64> tls;
   u32 queuePos = 0; u32 symCount = 0; u32 forks = 0; u64 forkHash = 1469598103934665603ull; int preemptions = 0; int spurious = 0; bool termOk = false;
   std::vector<std::pair<std::string, Val>> notes; std::vector<uint16_t> noteW;
   State() {}
   State(const State&) = default;
};

struct PathEnd {};
struct Unsupported { std::string what; };

static u64 tagCounter = 1;
static std::vector<State*> work;
static State* S = nullptr; // current
struct Violation { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<int> sched; std::vector<std::string> stack, notes; };
static std::vector<Violation> violations;
static std::set<std::string> violationKeys;
static std::map<std::string, u64> reached, incomplete;
static u64 nPaths = 0, nDropped = 0, nInstr = 0, nForks = 0, nAsserts = 0, nAssertQueries = 0, nSched = 0, nAssumeEnds = 0, nExits = 0;
static std::map<std::string, std::string> samplePaths;
static std::vector<std::string> samples;
static Clock::time_point T0;

// ------------------------------------------------------------------------------------------
// decoding
static std::map<const Function*, DFunc*> dfuncs;
static std::map<u64, Function*> funcByAddr;
static std::map<const GlobalValue*, u64> gaddr;
static u64 nextFnAddr = 0x10000;
static Space* constSpace;
static std::map<std::string, int> handlerIds;
static std::vector<std::function<void(State&, DInst&, CallInfo&)>> handlers;
static std::vector<std::string> handlerNames;
static std::map<u64, int> tiIds; static std::vector<u64> tiById = {0};

static u64 fnAddr(Function* F)
{
   auto it = gaddr.find(F);
   if ( it != gaddr.end() ) return it->second;
   u64 a = nextFnAddr; nextFnAddr += 16;
   gaddr[F] = a; funcByAddr[a] = F;
   return a;
}
static void flatten(Type* t, u64 off, std::vector<Flat>& out)
{
   if ( t->isIntegerTy() ) out.push_back({t->getIntegerBitWidth(), off, false});
   else if ( t->isPointerTy() ) out.push_back({64, off, false});
   else if ( t->isFloatTy() ) out.push_back({32, off, true});
   else if ( t->isDoubleTy() ) out.push_back({64, off, true});
   else if ( t->isX86_FP80Ty() ) out.push_back({64, off, true});
   else if ( auto st = dyn_cast<StructType>(t) ) { auto sl = DL->getStructLayout(st); for ( unsigned i = 0; i < st->getNumElements(); ++i ) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); }
   else if ( auto at = dyn_cast<ArrayType>(t) ) { u64 es = DL->getTypeAllocSize(at->getElementType()); for ( u64 i = 0; i < at->getNumElements(); ++i ) flatten(at->getElementType(), off + i * es, out); }
   else if ( auto vt = dyn_cast<FixedVectorType>(t) ) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for ( u64 i = 0; i < vt->getNumElements(); ++i ) flatten(vt->getElementType(), off + i * es, out); }
   else if ( t->isVoidTy() ) {}
   else if ( t->isMetadataTy() || t->isTokenTy() || t->isLabelTy() ) {}
   else { std::string s; raw_string_ostream o(s); t->print(o); throw Unsupported{"type " + s}; }
}
static u32 slotCount(Type* t) { std::vector<Flat> f; flatten(t, 0, f); return (u32)f.size(); }
static u32 slotIndex(Type* t, ArrayRef<unsigned> idx)
{
   u32 r = 0;
   for ( unsigned i : idx )
   {
      if ( auto st = dyn_cast<StructType>(t) ) { for ( unsigned k = 0; k < i; ++k ) r += slotCount(st->getElementType(k)); t = st->getElementType(i); }
      else if ( auto at = dyn_cast<ArrayType>(t) ) { r += i * slotCount(at->getElementType()); t = at->getElementType(); }
   }
   return r;
}
static void constVals(const Constant* c, std::vector<Val>& out);
static u64 constAddr(const Constant* c) { std::vector<Val> v; constVals(c, v); return v[0].c; }
static u64 globalAddr(const GlobalValue* g)
{
   auto it = gaddr.find(g);
   if ( it != gaddr.end() ) return it->second;
   if ( auto a = dyn_cast<GlobalAlias>(g) ) { u64 r = constAddr(a->getAliasee()); gaddr[g] = r; return r; }
   if ( isa<Function>(g) ) return fnAddr(const_cast<Function*>(cast<Function>(g)));
   throw Unsupported{"global without address " + g->getName().str()};
}
static void pushInt(const APInt& v, std::vector<Val>& out)
{
   if ( v.getBitWidth() <= 64 ) out.push_back(cv(v.getZExtValue()));
   else if ( v.getBitWidth() <= 128 ) { u128 x = ((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0); out.push_back({X.constant(x, v.getBitWidth()), 0}); }
   else throw Unsupported{"integer wider than 128 bits"};
}
static void constVals(const Constant* c, std::vector<Val>& out)
{
   if ( auto ci = dyn_cast<ConstantInt>(c) ) { pushInt(ci->getValue(), out); return; }
   if ( auto cf = dyn_cast<ConstantFP>(c) )
   {
      if ( cf->getType()->isX86_FP80Ty() ) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back(cv(f.bitcastToAPInt().getZExtValue())); return; }
      out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return;
   }
   if ( isa<ConstantPointerNull>(c) ) { out.push_back(cv(0)); return; }
   if ( isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) )
   {
      std::vector<Flat> f; flatten(c->getType(), 0, f);
      for ( auto& x : f ) out.push_back(x.w > 64 ? Val{X.constant(0, x.w), 0} : cv(0));
      return;
   }
   if ( auto ca = dyn_cast<ConstantAggregate>(c) ) { for ( unsigned i = 0; i < ca->getNumOperands(); ++i ) constVals(ca->getOperand(i), out); return; }
   if ( auto cd = dyn_cast<ConstantDataSequential>(c) ) { for ( unsigned i = 0; i < cd->getNumElements(); ++i ) constVals(cd->getElementAsConstant(i), out); return; }
   if ( auto gv = dyn_cast<GlobalValue>(c) ) { out.push_back(cv(globalAddr(gv))); return; }
   if ( auto ce = dyn_cast<ConstantExpr>(c) )
   {
      switch ( ce->getOpcode() )
      {
         case Instruction::GetElementPtr:
         {
            APInt off(64, 0);
            if ( !cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off) ) throw Unsupported{"constexpr gep"};
            out.push_back(cv(constAddr(ce->getOperand(0)) + off.getZExtValue()));
            return;
         }
         case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
         {
            std::vector<Val> v; constVals(ce->getOperand(0), v);
            unsigned w = (unsigned)DL->getTypeSizeInBits(ce->getType());
            out.push_back(cv(v[0].c & m64(w))); return;
         }
         case Instruction::Trunc: { std::vector<Val> v; constVals(ce->getOperand(0), v); out.push_back(cv(v[0].c & m64((unsigned)DL->getTypeSizeInBits(ce->getType())))); return; }
         case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
         {
            std::vector<Val> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b);
            u64 r = ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : ce->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c * b[0].c;
            out.push_back(cv(r & m64((unsigned)DL->getTypeSizeInBits(ce->getType())))); return;
         }
         case Instruction::ICmp:
         {
            std::vector<Val> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b);
            if ( ce->getPredicate() == CmpInst::ICMP_EQ ) { out.push_back(cv(a[0].c == b[0].c)); return; }
            if ( ce->getPredicate() == CmpInst::ICMP_NE ) { out.push_back(cv(a[0].c != b[0].c)); return; }
         }
      }
      std::string s; raw_string_ostream o(s); ce->print(o);
      throw Unsupported{"constexpr " + s};
   }
   if ( isa<BlockAddress>(c) ) throw Unsupported{"blockaddress"};
   if ( auto d = dyn_cast<DSOLocalEquivalent>(c) ) { out.push_back(cv(globalAddr(d->getGlobalValue()))); return; }
   if ( auto d = dyn_cast<NoCFIValue>(c) ) { out.push_back(cv(globalAddr(d->getGlobalValue()))); return; }
   std::string s; raw_string_ostream o(s); c->print(o);
   throw Unsupported{"constant " + s};
}

struct Decoder
{
   DFunc& D; Function& F;
   std::map<const Value*, u32> slot; std::map<const Constant*, u32> cidx; std::map<const BasicBlock*, u32> bbpc;
   std::map<std::pair<const BasicBlock*, const BasicBlock*>, u32> edgeIdx;
   Decoder(DFunc& d) : D(d), F(*d.F) {}
   Opd opd(const Value* v, u32 lane = 0)
   {
      if ( auto c = dyn_cast<Constant>(v) )
      {
         auto it = cidx.find(c);
         if ( it == cidx.end() )
         {
            u32 i = (u32)D.consts.size();
            constVals(c, D.consts);
            if ( D.consts.size() == i ) D.consts.push_back(cv(0));
            it = cidx.emplace(c, i).first;
         }
         return ~(Opd)(it->second + lane);
      }
      auto it = slot.find(v);
      if ( it == slot.end() ) throw Unsupported{"operand"};
      return (Opd)(it->second + lane);
   }
   u32 edge(BasicBlock* a, BasicBlock* b)
   {
      auto k = std::make_pair((const BasicBlock*)a, (const BasicBlock*)b);
      auto it = edgeIdx.find(k);
      if ( it != edgeIdx.end() ) return it->second;
      u32 i = (u32)D.edges.size(); D.edges.emplace_back(); D.edges.back().from = a; D.edges.back().to = b;
      edgeIdx[k] = i;
      return i;
   }
   DInst& emit(DOp op, const Instruction& I) { D.code.push_back(DInst{}); DInst& d = D.code.back(); d.op = op; d.I = &I; d.dst = -1; return d; }
   static unsigned width(Type* t) { t = t->getScalarType(); if ( t->isPointerTy() ) return 64; if ( t->isX86_FP80Ty() ) return 64; return (unsigned)DL->getTypeSizeInBits(t).getFixedValue(); }

   void run()
   {
      u32 n = 0;
      for ( auto& a : F.args() )
      {
         slot[&a] = n; std::vector<Flat> f; flatten(a.getType(), 0, f);
         for ( auto& x : f ) { D.argSlots.push_back((Opd)n++); D.argW.push_back((uint16_t)x.w); }
      }
      for ( auto& B : F ) for ( auto& I : B ) if ( !I.getType()->isVoidTy() ) { slot[&I] = n; n += slotCount(I.getType()); }
      D.nregs = n; D.retn = slotCount(F.getReturnType());
      for ( auto& B : F )
      {
         bbpc[&B] = (u32)D.code.size();
         for ( auto& I : B ) if ( !isa<PHINode>(I) ) { size_t before = D.code.size(); try { one(I, B); } catch ( Unsupported& u ) { D.code.resize(before); auto& d = emit(D_UNSUP, I); d.p = new std::string(u.what); } }
      }
      for ( auto& e : D.edges )
      {
         e.pc = bbpc[e.to];
         for ( auto& P : e.to->phis() )
         {
            const Value* in = P.getIncomingValueForBlock(e.from);
            u32 k = slotCount(P.getType());
            for ( u32 i = 0; i < k; ++i ) { Opd o = opd(in, i); int32_t d = (int32_t)(slot[&P] + i); if ( o != d ) e.copies.emplace_back(d, o); }
         }
         for ( size_t i = 0; i < e.copies.size(); ++i ) for ( size_t j = i + 1; j < e.copies.size(); ++j ) if ( e.copies[j].second == e.copies[i].first ) e.overlap = true;
      }
      D.edgeHits.assign(D.edges.size(), 0);
   }
   void mov(const Instruction& I, int32_t dst, Opd src, u32 n) { auto& d = emit(D_MOV, I); d.dst = dst; d.a = src; d.n = n; }
   void one(Instruction& I, BasicBlock& B)
   {
      const int32_t dst = I.getType()->isVoidTy() ? -1 : (int32_t)slot[&I];
      if ( auto bo = dyn_cast<BinaryOperator>(&I) )
      {
         u32 lanes = slotCount(I.getType());
         for ( u32 l = 0; l < lanes; ++l )
         {
            bool fp = I.getType()->getScalarType()->isFloatingPointTy();
            Opd a = opd(I.getOperand(0), l), b = opd(I.getOperand(1), l);
            auto& d = emit(fp ? D_FBIN : D_BIN, I); d.dst = dst + (int)l; d.a = a; d.b = b; d.w = (uint16_t)width(I.getType());
            Op o = Op::Add;
            switch ( bo->getOpcode() )
            {
               case Instruction::Add: case Instruction::FAdd: o = Op::Add; break;
               case Instruction::Sub: case Instruction::FSub: o = Op::Sub; break;
               case Instruction::Mul: case Instruction::FMul: o = Op::Mul; break;
               case Instruction::UDiv: o = Op::UDiv; break;
               case Instruction::SDiv: case Instruction::FDiv: o = Op::SDiv; break;
               case Instruction::URem: o = Op::URem; break;
               case Instruction::SRem: case Instruction::FRem: o = Op::SRem; break;
               case Instruction::And: o = Op::And; break;
               case Instruction::Or: o = Op::Or; break;
               case Instruction::Xor: o = Op::Xor; break;
               case Instruction::Shl: o = Op::Shl; break;
               case Instruction::LShr: o = Op::LShr; break;
               case Instruction::AShr: o = Op::AShr; break;
               default: throw Unsupported{"binop"};
            }
            d.sub = (u8)o;
         }
         return;
      }
      if ( auto c = dyn_cast<ICmpInst>(&I) )
      {
         u32 lanes = slotCount(I.getType());
         for ( u32 l = 0; l < lanes; ++l ) { Opd a = opd(I.getOperand(0), l), b = opd(I.getOperand(1), l); auto& d = emit(D_ICMP, I); d.dst = dst + (int)l; d.a = a; d.b = b; d.w = (uint16_t)width(c->getOperand(0)->getType()); d.sub = (u8)c->getPredicate(); }
         return;
      }
      if ( auto c = dyn_cast<FCmpInst>(&I) ) { Opd a = opd(I.getOperand(0)), b = opd(I.getOperand(1)); auto& d = emit(D_FCMP, I); d.dst = dst; d.a = a; d.b = b; d.w = (uint16_t)width(c->getOperand(0)->getType()); d.sub = (u8)c->getPredicate(); return; }
      if ( auto c = dyn_cast<CastInst>(&I) )
      {
         Type* st = c->getSrcTy(); Type* dt = c->getDestTy();
         u32 ln = slotCount(st), dn = slotCount(dt);
         if ( c->getOpcode() == Instruction::BitCast )
         {
            if ( ln == dn ) { mov(I, dst, opd(I.getOperand(0)), ln); return; }
            throw Unsupported{"bitcast between vector shapes"};
         }
         for ( u32 l = 0; l < dn; ++l )
         {
            Opd a = opd(I.getOperand(0), l);
            bool fp = st->getScalarType()->isFloatingPointTy() || dt->getScalarType()->isFloatingPointTy();
            auto& d = emit(fp ? D_FCAST : D_CAST, I); d.dst = dst + (int)l; d.a = a; d.w = (uint16_t)width(st); d.w2 = (uint16_t)width(dt); d.sub = (u8)c->getOpcode();
         }
         return;
      }
      switch ( I.getOpcode() )
      {
         case Instruction::FNeg: { Opd a = opd(I.getOperand(0)); auto& d = emit(D_FNEG, I); d.dst = dst; d.a = a; d.w = (uint16_t)width(I.getType()); return; }
         case Instruction::Freeze: mov(I, dst, opd(I.getOperand(0)), slotCount(I.getType())); return;
         case Instruction::Select:
         {
            std::vector<Flat> f; flatten(I.getType(), 0, f);
            bool vec = I.getOperand(0)->getType()->isVectorTy();
            for ( u32 l = 0; l < f.size(); ++l )
            {
               Opd a = opd(I.getOperand(0), vec ? l : 0), b = opd(I.getOperand(1), l), c = opd(I.getOperand(2), l);
               auto& d = emit(D_SELECT, I); d.dst = dst + (int)l; d.a = a; d.b = b; d.c = c; d.w = (uint16_t)f[l].w;
            }
            return;
         }
         case Instruction::Load:
         {
            std::vector<Flat> f; flatten(I.getType(), 0, f);
            for ( u32 l = 0; l < f.size(); ++l ) { Opd a = opd(I.getOperand(0)); auto& d = emit(D_LOAD, I); d.dst = dst + (int)l; d.a = a; d.w = (uint16_t)f[l].w; d.x = (u32)f[l].off; d.sub = cast<LoadInst>(I).isAtomic(); }
            return;
         }
         case Instruction::Store:
         {
            std::vector<Flat> f; flatten(I.getOperand(0)->getType(), 0, f);
            for ( u32 l = 0; l < f.size(); ++l ) { Opd v = opd(I.getOperand(0), l), a = opd(I.getOperand(1)); auto& d = emit(D_STORE, I); d.a = a; d.b = v; d.w = (uint16_t)f[l].w; d.x = (u32)f[l].off; d.sub = cast<StoreInst>(I).isAtomic(); }
            return;
         }
         case Instruction::GetElementPtr:
         {
            auto g = cast<GEPOperator>(&I);
            if ( I.getType()->isVectorTy() ) throw Unsupported{"vector gep"};
            auto gi = new GepInfo;
            for ( auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it )
            {
               Value* ix = it.getOperand();
               if ( auto st = it.getStructTypeOrNull() ) { gi->off += (i64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
               i64 sz = (i64)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
               if ( auto ci = dyn_cast<ConstantInt>(ix) ) gi->off += ci->getSExtValue() * sz;
               else gi->t.push_back({opd(ix), sz, (uint16_t)ix->getType()->getIntegerBitWidth()});
            }
            Opd a = opd(g->getPointerOperand());
            auto& d = emit(D_GEP, I); d.dst = dst; d.a = a; d.p = gi; d.w = 64;
            return;
         }
         case Instruction::Alloca:
         {
            auto& ai = cast<AllocaInst>(I);
            Opd a = opd(ai.getArraySize());
            auto& d = emit(D_ALLOCA, I); d.dst = dst; d.a = a; d.x = (u32)DL->getTypeAllocSize(ai.getAllocatedType()).getFixedValue(); d.y = (u32)ai.getAlign().value(); return;
         }
         case Instruction::Br:
         {
            auto& b = cast<BranchInst>(I);
            if ( b.isUnconditional() ) { u32 x = edge(&B, b.getSuccessor(0)); auto& d = emit(D_BR, I); d.x = x; }
            else { Opd a = opd(b.getCondition()); u32 x = edge(&B, b.getSuccessor(0)), y = edge(&B, b.getSuccessor(1)); auto& d = emit(D_CBR, I); d.a = a; d.x = x; d.y = y; }
            return;
         }
         case Instruction::Switch:
         {
            auto& s = cast<SwitchInst>(I); auto si = new SwitchInfo;
            for ( auto& c : s.cases() ) si->cases.emplace_back(c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor()));
            si->def = edge(&B, s.getDefaultDest());
            Opd a = opd(s.getCondition());
            auto& d = emit(D_SWITCH, I); d.a = a; d.w = (uint16_t)s.getCondition()->getType()->getIntegerBitWidth(); d.p = si; return;
         }
         case Instruction::Ret: { Opd a = 0; u32 n = 0; if ( I.getNumOperands() ) { n = slotCount(I.getOperand(0)->getType()); if ( n ) a = opd(I.getOperand(0)); } auto& d = emit(D_RET, I); d.a = a; d.n = n; return; }
         case Instruction::Unreachable: emit(D_UNREACH, I); return;
         case Instruction::Resume: { Opd a = opd(I.getOperand(0)); auto& d = emit(D_RESUME, I); d.a = a; return; }
         case Instruction::Fence: return;
         case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); u32 k = slotIndex(e.getAggregateOperand()->getType(), e.getIndices()); mov(I, dst, opd(e.getAggregateOperand(), k), slotCount(I.getType())); return; }
         case Instruction::InsertValue:
         {
            auto& e = cast<InsertValueInst>(I); u32 k = slotIndex(e.getType(), e.getIndices());
            mov(I, dst, opd(e.getAggregateOperand()), slotCount(I.getType()));
            mov(I, dst + (int)k, opd(e.getInsertedValueOperand()), slotCount(e.getInsertedValueOperand()->getType())); return;
         }
         case Instruction::ExtractElement:
         {
            auto ci = dyn_cast<ConstantInt>(I.getOperand(1)); if ( !ci ) throw Unsupported{"extractelement"};
            mov(I, dst, opd(I.getOperand(0), (u32)ci->getZExtValue()), 1); return;
         }
         case Instruction::InsertElement:
         {
            auto ci = dyn_cast<ConstantInt>(I.getOperand(2)); if ( !ci ) throw Unsupported{"insertelement"};
            mov(I, dst, opd(I.getOperand(0)), slotCount(I.getType())); mov(I, dst + (int)ci->getZExtValue(), opd(I.getOperand(1)), 1); return;
         }
         case Instruction::ShuffleVector:
         {
            auto& s = cast<ShuffleVectorInst>(I); u32 k = slotCount(s.getOperand(0)->getType());
            auto mask = s.getShuffleMask();
            for ( u32 i = 0; i < mask.size(); ++i ) { int m = mask[i]; if ( m < 0 ) m = 0; mov(I, dst + (int)i, (u32)m < k ? opd(s.getOperand(0), (u32)m) : opd(s.getOperand(1), (u32)m - k), 1); }
            return;
         }
         case Instruction::LandingPad:
         {
            auto& l = cast<LandingPadInst>(I); auto li = new LpadInfo; li->cleanup = l.isCleanup();
            for ( unsigned i = 0; i < l.getNumClauses(); ++i )
            {
               if ( l.isCatch(i) ) li->clauses.push_back({true, constAddr(l.getClause(i)), false});
               else li->clauses.push_back({false, 0, l.getClause(i)->getType()->getArrayNumElements() == 0});
            }
            auto& d = emit(D_LPAD, I); d.dst = dst; d.p = li; return;
         }
         case Instruction::AtomicCmpXchg: { auto& c = cast<AtomicCmpXchgInst>(I); Opd a = opd(c.getPointerOperand()), b = opd(c.getCompareOperand()), n = opd(c.getNewValOperand()); auto& d = emit(D_CMPXCHG, I); d.dst = dst; d.a = a; d.b = b; d.c = n; d.w = (uint16_t)width(c.getCompareOperand()->getType()); return; }
         case Instruction::AtomicRMW: { auto& c = cast<AtomicRMWInst>(I); Opd a = opd(c.getPointerOperand()), b = opd(c.getValOperand()); auto& d = emit(D_RMW, I); d.dst = dst; d.a = a; d.b = b; d.w = (uint16_t)width(c.getValOperand()->getType()); d.sub = (u8)c.getOperation(); return; }
         case Instruction::Call: case Instruction::Invoke:
         {
            auto& cb = cast<CallBase>(I);
            if ( isa<DbgInfoIntrinsic>(I) ) return;
            auto ci = new CallInfo;
            Function* fn = cb.getCalledFunction();
            if ( !fn ) if ( auto al = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts()) ) fn = dyn_cast<Function>(al->getAliaseeObject());
            if ( fn )
            {
               auto id = fn->getIntrinsicID();
               if ( id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::assume || id == Intrinsic::sideeffect || id == Intrinsic::stackrestore || id == Intrinsic::invariant_end || id == Intrinsic::prefetch ) { delete ci; return; }
               if ( id == Intrinsic::threadlocal_address ) { ci->fn = fn; Opd a = opd(cb.getArgOperand(0)); (void)a; }
            }
            if ( cb.isInlineAsm() )
            {
               // compiler barriers only
               auto ia = cast<InlineAsm>(cb.getCalledOperand());
               if ( ia->getAsmString().empty() && I.getType()->isVoidTy() ) { delete ci; if ( auto iv = dyn_cast<InvokeInst>(&I) ) { u32 x = edge(&B, iv->getNormalDest()); auto& d = emit(D_BR, I); d.x = x; } return; }
               throw Unsupported{"inline asm"};
            }
            ci->fn = fn;
            if ( !fn ) ci->callee = opd(cb.getCalledOperand());
            for ( auto& a : cb.args() )
            {
               if ( a->getType()->isMetadataTy() ) { ci->args.push_back(~(Opd)0); ci->widths.push_back(0); if ( D.consts.empty() ) D.consts.push_back(cv(0)); continue; }
               std::vector<Flat> f; flatten(a->getType(), 0, f);
               for ( u32 l = 0; l < f.size(); ++l ) { ci->args.push_back(opd(a, l)); ci->widths.push_back((uint16_t)f[l].w); }
            }
            std::vector<Flat> rf; flatten(I.getType(), 0, rf);
            ci->retn = (u32)rf.size(); ci->retw = rf.empty() ? 0 : (uint16_t)rf[0].w;
            if ( auto iv = dyn_cast<InvokeInst>(&I) ) { ci->invoke = true; ci->normalEdge = edge(&B, iv->getNormalDest()); ci->unwindEdge = edge(&B, iv->getUnwindDest()); }
            auto& d = emit(D_CALL, I); d.dst = dst; d.p = ci; d.n = ci->retn; return;
         }
         default: throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
      }
   }
};
static std::string sourceOf(const Function& F) { if ( auto sp = F.getSubprogram() ) { std::string f = sp->getFilename().str(); if ( !f.empty() && f[0] != '/' ) f = sp->getDirectory().str() + "/" + f; return f; } return ""; }
static DFunc* getDF(Function* F)
{
   auto it = dfuncs.find(F);
   if ( it != dfuncs.end() ) return it->second;
   auto d = new DFunc; d->F = F; d->name = F->getName().str(); d->pretty = demangle(d->name);
   std::string src = sourceOf(*F);
   d->repo = src.compare(0, opt.srcPrefix.size(), opt.srcPrefix) == 0;
   dfuncs[F] = d;
   Decoder(*d).run();
   return d;
}
#include "exec.h"
