// jcv: a contract verifier for C++ compiled to LLVM bitcode.
//
// It generates verification conditions from the LLVM IR of the real code by forward symbolic
// execution and discharges them with Z3.  The unit of verification is a "proof" function
// (extern "C" void proof_*()) which states one contract: it picks fully symbolic arguments
// (vf_u64 ...), restricts them with the precondition (vf_assume), calls the real function and
// states the postcondition (vf_assert).  Every vf_assert reached on some path is one obligation:
//     path condition  ==>  asserted formula          (checked valid by the solver)
// Implicit obligations are generated as well: no access outside a live object (frame/ownership),
// no failing assert()/abort()/unreachable, no uncaught exception, no division by zero.
// A callee can be replaced by its contract: a function named  vf_stub$<mangled>  takes the place of
// <mangled> at every call site.  Loops are either unrolled until the solver shows the next iteration
// infeasible (never cut off), or cut by an inductive invariant (vf_loop_*).
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>

#include <z3.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>

using namespace llvm;
using Clock = std::chrono::steady_clock;
static double
since(Clock::time_point t)
{
  return std::chrono::duration<double>(Clock::now() - t).count();
}

static bool optVerbose = false;
static bool optTrace = false;
static double optTimeLimit = 300;
static unsigned optQueryTimeoutMs = 60000;
static uint64_t optMaxSteps = 2000000000ull;
static unsigned optMaxFailures = 3;
static std::string optDumpDir;
static std::string optDumpSmt;
static std::vector<std::string> optMerge;

struct Unsupported
{
  std::string what;
};
[[noreturn]] static void
unsupported(const std::string & w)
{
  throw Unsupported{ w };
}
struct LimitReached
{
  std::string what;
};

// ---------------------------------------------------------------------------------------------
// Values and expressions
// ---------------------------------------------------------------------------------------------
static Z3_context C;
using Ast = Z3_ast;

struct Val
{
  APInt c{ 1, 0 };
  Ast s = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() = default;
  Val(APInt v)
      : c(std::move(v))
  {}
  Val(unsigned w, uint64_t v)
      : c(w, v)
  {}
  static Val
  sym(unsigned w, Ast a)
  {
    Val v;
    v.c = APInt(w, 0);
    v.s = a;
    return v;
  }
  unsigned
  w() const
  {
    return c.getBitWidth();
  }
  bool
  conc() const
  {
    return !s && !agg;
  }
  uint64_t
  u() const
  {
    return c.getZExtValue();
  }
};

static std::unordered_map<unsigned, Z3_sort> bvSorts;
static Z3_sort boolSort;
static Z3_sort
bvSort(unsigned w)
{
  auto it = bvSorts.find(w);
  if (it != bvSorts.end())
    return it->second;
  return bvSorts[w] = Z3_mk_bv_sort(C, w);
}
static Ast zTrue, zFalse;

static Ast
numeral(const APInt & v)
{
  unsigned w = v.getBitWidth();
  if (w <= 64)
    return Z3_mk_unsigned_int64(C, v.getZExtValue(), bvSort(w));
  SmallString<64> str;
  v.toStringUnsigned(str, 10);
  return Z3_mk_numeral(C, str.c_str(), bvSort(w));
}

// Width-1 symbolic values have Bool sort; all others have bit-vector sort.
static Ast
asBool(const Val & v)
{
  assert(v.w() == 1);
  if (v.s)
    return v.s;
  return v.c.isZero() ? zFalse : zTrue;
}
static Ast
asBV(const Val & v)
{
  if (v.s)
  {
    if (v.w() == 1)
      return Z3_mk_ite(C, v.s, numeral(APInt(1, 1)), numeral(APInt(1, 0)));
    return v.s;
  }
  return numeral(v.c);
}
static bool
numeralValue(Ast a, unsigned w, APInt & out)
{
  if (Z3_get_ast_kind(C, a) != Z3_NUMERAL_AST)
    return false;
  uint64_t u;
  if (w <= 64 && Z3_get_numeral_uint64(C, a, &u))
  {
    out = APInt(w, u);
    return true;
  }
  out = APInt(w, StringRef(Z3_get_numeral_string(C, a)), 10);
  return true;
}
static Val
fromBool(Ast a, bool simp = true)
{
  if (simp)
    a = Z3_simplify(C, a);
  auto b = Z3_get_bool_value(C, a);
  if (b == Z3_L_TRUE)
    return Val(1, 1);
  if (b == Z3_L_FALSE)
    return Val(1, 0);
  return Val::sym(1, a);
}
static Val
fromBV(unsigned w, Ast a, bool simp = false)
{
  if (w == 1)
    return fromBool(Z3_mk_eq(C, a, numeral(APInt(1, 1))));
  if (simp)
    a = Z3_simplify(C, a);
  APInt n(w, 0);
  if (numeralValue(a, w, n))
    return Val(n);
  return Val::sym(w, a);
}
static Ast
mkNot(Ast a)
{
  auto b = Z3_get_bool_value(C, a);
  if (b == Z3_L_TRUE)
    return zFalse;
  if (b == Z3_L_FALSE)
    return zTrue;
  if (Z3_is_app(C, a) && Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))) == Z3_OP_NOT)
    return Z3_get_app_arg(C, Z3_to_app(C, a), 0);
  return Z3_mk_not(C, a);
}
static Ast
mkAnd(Ast a, Ast b)
{
  if (a == zTrue)
    return b;
  if (b == zTrue)
    return a;
  if (a == zFalse || b == zFalse)
    return zFalse;
  if (a == b)
    return a;
  Ast x[2] = { a, b };
  return Z3_mk_and(C, 2, x);
}
static Ast
mkOr(Ast a, Ast b)
{
  if (a == zFalse)
    return b;
  if (b == zFalse)
    return a;
  if (a == zTrue || b == zTrue)
    return zTrue;
  if (a == b)
    return a;
  Ast x[2] = { a, b };
  return Z3_mk_or(C, 2, x);
}
static unsigned freshCounter = 0;
static Ast
freshBV(unsigned w, const char * prefix)
{
  std::string n = std::string(prefix) + "!" + std::to_string(freshCounter++);
  return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), w == 1 ? boolSort : bvSort(w));
}
static Z3_decl_kind
kindOf(Ast a)
{
  if (!Z3_is_app(C, a))
    return Z3_OP_INTERNAL;
  return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a)));
}

static Val
vExtract(const Val & v, unsigned lo, unsigned w)
{
  if (lo == 0 && w == v.w())
    return v;
  if (v.conc())
    return Val(v.c.extractBits(w, lo));
  if (v.w() == 1)
    return v;
  Ast a = Z3_mk_extract(C, lo + w - 1, lo, v.s);
  return fromBV(w, Z3_simplify(C, a));
}
static Val
vConcat(const Val & hi, const Val & lo)
{
  if (hi.conc() && lo.conc())
  {
    APInt r = lo.c.zext(hi.w() + lo.w());
    r.insertBits(hi.c, lo.w());
    return Val(r);
  }
  return fromBV(hi.w() + lo.w(), Z3_mk_concat(C, asBV(hi), asBV(lo)));
}
static Val
vZext(const Val & v, unsigned w)
{
  if (v.w() == w)
    return v;
  if (v.conc())
    return Val(v.c.zext(w));
  if (v.w() == 1)
    return Val::sym(w, Z3_mk_ite(C, v.s, numeral(APInt(w, 1)), numeral(APInt(w, 0))));
  return Val::sym(w, Z3_mk_zero_ext(C, w - v.w(), v.s));
}
static Val
vSext(const Val & v, unsigned w)
{
  if (v.w() == w)
    return v;
  if (v.conc())
    return Val(v.c.sext(w));
  if (v.w() == 1)
    return Val::sym(
        w,
        Z3_mk_ite(C, v.s, numeral(APInt::getAllOnes(w)), numeral(APInt(w, 0))));
  return Val::sym(w, Z3_mk_sign_ext(C, w - v.w(), v.s));
}
static Val
vTrunc(const Val & v, unsigned w)
{
  if (v.w() == w)
    return v;
  if (v.conc())
    return Val(v.c.trunc(w));
  if (w == 1)
    return fromBool(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, v.s), numeral(APInt(1, 1))));
  return vExtract(v, 0, w);
}
static Val
vIte(Ast c, const Val & a, const Val & b)
{
  if (c == zTrue)
    return a;
  if (c == zFalse)
    return b;
  if (a.agg || b.agg)
  {
    if (!a.agg || !b.agg)
      unsupported("ite of mixed aggregates");
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.agg->size(); i++)
      r.agg->push_back(vIte(c, (*a.agg)[i], (*b.agg)[i]));
    return r;
  }
  if (a.w() != b.w())
    unsupported("ite of different widths");
  if (a.conc() && b.conc() && a.c == b.c)
    return a;
  if (a.s && a.s == b.s)
    return a;
  if (a.w() == 1)
    return fromBool(Z3_mk_ite(C, c, asBool(a), asBool(b)));
  return Val::sym(a.w(), Z3_mk_ite(C, c, asBV(a), asBV(b)));
}

static Val
vBin(unsigned op, const Val & a, const Val & b)
{
  unsigned w = a.w();
  if (a.conc() && b.conc())
  {
    const APInt &x = a.c, &y = b.c;
    switch (op)
    {
    case Instruction::Add:
      return Val(x + y);
    case Instruction::Sub:
      return Val(x - y);
    case Instruction::Mul:
      return Val(x * y);
    case Instruction::UDiv:
      return Val(x.udiv(y));
    case Instruction::SDiv:
      return Val(x.sdiv(y));
    case Instruction::URem:
      return Val(x.urem(y));
    case Instruction::SRem:
      return Val(x.srem(y));
    case Instruction::And:
      return Val(x & y);
    case Instruction::Or:
      return Val(x | y);
    case Instruction::Xor:
      return Val(x ^ y);
    case Instruction::Shl:
      if (y.uge(w))
        return Val::sym(w, freshBV(w, "poison"));
      return Val(x.shl(y));
    case Instruction::LShr:
      if (y.uge(w))
        return Val::sym(w, freshBV(w, "poison"));
      return Val(x.lshr(y));
    case Instruction::AShr:
      if (y.uge(w))
        return Val::sym(w, freshBV(w, "poison"));
      return Val(x.ashr(y));
    }
  }
  if (w == 1)
  {
    Ast x = asBool(a), y = asBool(b);
    switch (op)
    {
    case Instruction::And:
    case Instruction::Mul:
      return fromBool(mkAnd(x, y));
    case Instruction::Or:
      return fromBool(mkOr(x, y));
    case Instruction::Xor:
    case Instruction::Add:
    case Instruction::Sub:
      return fromBool(Z3_mk_xor(C, x, y));
    default:
      return a; // shifts by 0, division by 1: anything else is undefined
    }
  }
  // Cheap identities
  if (b.conc())
  {
    bool z = b.c.isZero();
    switch (op)
    {
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Or:
    case Instruction::Xor:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
      if (z)
        return a;
      if (op == Instruction::Or && b.c.isAllOnes())
        return b;
      break;
    case Instruction::And:
      if (z)
        return b;
      if (b.c.isAllOnes())
        return a;
      break;
    case Instruction::Mul:
      if (z)
        return b;
      if (b.c.isOne())
        return a;
      break;
    case Instruction::UDiv:
    case Instruction::SDiv:
      if (b.c.isOne())
        return a;
      break;
    }
  }
  if (a.conc())
  {
    bool z = a.c.isZero();
    switch (op)
    {
    case Instruction::Add:
    case Instruction::Or:
    case Instruction::Xor:
      if (z)
        return b;
      break;
    case Instruction::And:
    case Instruction::Mul:
      if (z)
        return a;
      break;
    }
  }
  Ast x = asBV(a), y = asBV(b);
  switch (op)
  {
  case Instruction::Add:
    return fromBV(w, Z3_mk_bvadd(C, x, y), b.conc() || a.conc());
  case Instruction::Sub:
    if (x == y)
      return Val(w, 0);
    return fromBV(w, Z3_mk_bvsub(C, x, y), b.conc() || a.conc());
  case Instruction::Mul:
    return Val::sym(w, Z3_mk_bvmul(C, x, y));
  case Instruction::UDiv:
    return Val::sym(w, Z3_mk_bvudiv(C, x, y));
  case Instruction::SDiv:
    return Val::sym(w, Z3_mk_bvsdiv(C, x, y));
  case Instruction::URem:
    return Val::sym(w, Z3_mk_bvurem(C, x, y));
  case Instruction::SRem:
    return Val::sym(w, Z3_mk_bvsrem(C, x, y));
  case Instruction::And:
    return fromBV(w, Z3_mk_bvand(C, x, y), b.conc());
  case Instruction::Or:
    return fromBV(w, Z3_mk_bvor(C, x, y), b.conc());
  case Instruction::Xor:
    return fromBV(w, Z3_mk_bvxor(C, x, y), b.conc());
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr:
  {
    Ast r = op == Instruction::Shl    ? Z3_mk_bvshl(C, x, y)
            : op == Instruction::LShr ? Z3_mk_bvlshr(C, x, y)
                                      : Z3_mk_bvashr(C, x, y);
    if (b.conc())
    {
      if (b.c.uge(w))
        return Val::sym(w, freshBV(w, "poison"));
      return fromBV(w, Z3_simplify(C, r));
    }
    // Out-of-range shift amounts give poison: an arbitrary value.
    Ast inRange = Z3_simplify(C, Z3_mk_bvult(C, y, numeral(APInt(w, w))));
    if (Z3_get_bool_value(C, inRange) == Z3_L_TRUE)
      return Val::sym(w, r);
    return Val::sym(w, Z3_mk_ite(C, inRange, r, freshBV(w, "poison")));
  }
  }
  unsupported("binary opcode");
}

static Val
vICmp(CmpInst::Predicate p, const Val & a, const Val & b)
{
  if (a.conc() && b.conc())
    return Val(1, ICmpInst::compare(a.c, b.c, p));
  if (a.w() == 1)
  {
    Ast x = asBool(a), y = asBool(b);
    switch (p)
    {
    case CmpInst::ICMP_EQ:
      return fromBool(Z3_mk_iff(C, x, y));
    case CmpInst::ICMP_NE:
      return fromBool(Z3_mk_xor(C, x, y));
    case CmpInst::ICMP_ULT:
    case CmpInst::ICMP_SGT:
      return fromBool(mkAnd(mkNot(x), y));
    case CmpInst::ICMP_UGT:
    case CmpInst::ICMP_SLT:
      return fromBool(mkAnd(x, mkNot(y)));
    case CmpInst::ICMP_ULE:
    case CmpInst::ICMP_SGE:
      return fromBool(mkOr(mkNot(x), y));
    case CmpInst::ICMP_UGE:
    case CmpInst::ICMP_SLE:
      return fromBool(mkOr(x, mkNot(y)));
    default:
      unsupported("icmp i1");
    }
  }
  Ast x = asBV(a), y = asBV(b);
  switch (p)
  {
  case CmpInst::ICMP_EQ:
    return fromBool(Z3_mk_eq(C, x, y));
  case CmpInst::ICMP_NE:
    return fromBool(mkNot(Z3_mk_eq(C, x, y)));
  case CmpInst::ICMP_ULT:
    return fromBool(Z3_mk_bvult(C, x, y));
  case CmpInst::ICMP_ULE:
    return fromBool(Z3_mk_bvule(C, x, y));
  case CmpInst::ICMP_UGT:
    return fromBool(Z3_mk_bvugt(C, x, y));
  case CmpInst::ICMP_UGE:
    return fromBool(Z3_mk_bvuge(C, x, y));
  case CmpInst::ICMP_SLT:
    return fromBool(Z3_mk_bvslt(C, x, y));
  case CmpInst::ICMP_SLE:
    return fromBool(Z3_mk_bvsle(C, x, y));
  case CmpInst::ICMP_SGT:
    return fromBool(Z3_mk_bvsgt(C, x, y));
  case CmpInst::ICMP_SGE:
    return fromBool(Z3_mk_bvsge(C, x, y));
  default:
    unsupported("icmp predicate");
  }
}

// ---------------------------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------------------------
struct Cell
{
  Val v; // symbolic, width = 8*n
  unsigned n;
};
struct Obj
{
  uint64_t base = 0, size = 0;
  bool ro = false, freed = false, heap = false, stack = false;
  std::string name;
  std::vector<uint8_t> bytes;
  std::map<uint64_t, Cell> sym; // non overlapping

  void
  clearRange(uint64_t o, uint64_t n)
  {
    if (sym.empty())
      return;
    auto it = sym.lower_bound(o);
    if (it != sym.begin())
    {
      auto p = std::prev(it);
      if (p->first + p->second.n > o)
        it = p;
    }
    while (it != sym.end() && it->first < o + n)
    {
      uint64_t co = it->first;
      Cell cell = it->second;
      it = sym.erase(it);
      for (unsigned i = 0; i < cell.n; i++)
        if (co + i < o || co + i >= o + n)
        {
          Val b = vExtract(cell.v, 8 * i, 8);
          if (b.conc())
            bytes[co + i] = b.u();
          else
            it = std::next(sym.emplace(co + i, Cell{ b, 1 }).first);
        }
    }
  }
  void
  storeBits(uint64_t o, const Val & v) // v.w() multiple of 8
  {
    unsigned n = v.w() / 8;
    clearRange(o, n);
    if (v.conc())
    {
      if (n <= 8)
      {
        uint64_t x = v.u();
        for (unsigned i = 0; i < n; i++)
          bytes[o + i] = (x >> (8 * i)) & 0xff;
      }
      else
        for (unsigned i = 0; i < n; i++)
          bytes[o + i] = v.c.extractBitsAsZExtValue(8, 8 * i);
    }
    else
      sym[o] = Cell{ v, n };
  }
  Val
  loadBits(uint64_t o, unsigned n) const
  {
    bool overlap = false;
    auto it = sym.end();
    if (!sym.empty())
    {
      it = sym.lower_bound(o);
      if (it != sym.begin())
      {
        auto p = std::prev(it);
        if (p->first + p->second.n > o)
          it = p;
      }
      overlap = it != sym.end() && it->first < o + n;
    }
    if (!overlap)
    {
      if (n <= 8)
      {
        uint64_t x = 0;
        for (unsigned i = 0; i < n; i++)
          x |= uint64_t(bytes[o + i]) << (8 * i);
        return Val(8 * n, x);
      }
      APInt r(8 * n, 0);
      for (unsigned i = 0; i < n; i++)
        r.insertBits(APInt(8, bytes[o + i]), 8 * i);
      return Val(r);
    }
    if (it->first == o && it->second.n == n)
      return it->second.v;
    // assemble from the least significant byte upwards, using maximal pieces
    Val r;
    bool first = true;
    uint64_t p = o;
    while (p < o + n)
    {
      Val piece;
      while (it != sym.end() && it->first + it->second.n <= p)
        ++it;
      if (it != sym.end() && it->first <= p)
      {
        uint64_t e = std::min(it->first + it->second.n, o + n);
        piece = vExtract(it->second.v, 8 * (p - it->first), 8 * (e - p));
        p = e;
      }
      else
      {
        uint64_t e = o + n;
        if (it != sym.end())
          e = std::min(e, it->first);
        APInt x(8 * (e - p), 0);
        for (uint64_t i = p; i < e; i++)
          x.insertBits(APInt(8, bytes[i]), 8 * (i - p));
        piece = Val(x);
        p = e;
      }
      r = first ? piece : vConcat(piece, r);
      first = false;
    }
    if (r.s)
      r = fromBV(r.w(), Z3_simplify(C, asBV(r)));
    return r;
  }
};
using ObjP = std::shared_ptr<Obj>;

// ---------------------------------------------------------------------------------------------
// Program information
// ---------------------------------------------------------------------------------------------
static Module * M;
static const DataLayout * DL;
struct FuncInfo
{
  Function * f;
  std::unordered_map<const Value *, unsigned> slot;
  unsigned nslots = 0;
  std::unordered_map<const Instruction *, BasicBlock *> mergeAt; // cache; nullptr = do not merge
  bool mergeCall = false;
  bool haveIpdom = false;
  std::unordered_map<BasicBlock *, BasicBlock *> ipdom;
};
static std::unordered_map<const Function *, std::unique_ptr<FuncInfo>> funcInfos;
static std::unordered_map<const GlobalValue *, uint64_t> globalAddr;
static std::map<uint64_t, const GlobalVariable *> addrGlobal;
static std::unordered_map<uint64_t, Function *> addrFunc;
static uint64_t nextAddr = 0x1000000000ull;
static std::unordered_map<const Function *, Function *> stubOf;
static std::set<std::string> functionsReached;

static std::string
demangled(StringRef n)
{
  return llvm::demangle(n.str());
}
static FuncInfo &
infoOf(Function * f)
{
  auto & p = funcInfos[f];
  if (!p)
  {
    p = std::make_unique<FuncInfo>();
    p->f = f;
    for (auto & a : f->args())
      p->slot[&a] = p->nslots++;
    for (auto & i : instructions(f))
      if (!i.getType()->isVoidTy())
        p->slot[&i] = p->nslots++;
    std::string d = demangled(f->getName());
    for (auto & m : optMerge)
      if (d.find(m) != std::string::npos || f->getName().contains(m))
        p->mergeCall = true;
  }
  return *p;
}

struct Frame
{
  Function * f = nullptr;
  FuncInfo * info = nullptr;
  BasicBlock * bb = nullptr;
  BasicBlock * prev = nullptr;
  BasicBlock::iterator pc;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
};

struct InputRec
{
  std::string name;
  unsigned w;
  Val v;
};

struct ExcObj
{
  uint64_t addr;
  uint64_t type;
};
struct LoopCut
{
  const void * site;
  size_t depth;
};

struct State
{
  std::vector<std::shared_ptr<Frame>> stack;
  std::map<uint64_t, ObjP> mem;
  std::vector<Ast> pc;
  std::vector<InputRec> inputs;
  std::vector<ExcObj> caught;
  std::map<uint64_t, uint64_t> excType; // exception object -> typeinfo address
  std::vector<LoopCut> cuts;
  std::map<std::string, Val> ghost;
  bool dead = false;
  bool completed = false;

  Frame &
  top()
  {
    auto & p = stack.back();
    if (p.use_count() > 1)
      p = std::make_shared<Frame>(*p);
    return *p;
  }
};

// ---------------------------------------------------------------------------------------------
// Solver
// ---------------------------------------------------------------------------------------------
struct SolverT
{
  Z3_solver s = nullptr;
  unsigned long queries = 0;
  double time = 0;
  double maxTime = 0;
  unsigned long satN = 0, unsatN = 0, unknownN = 0;
  struct Remembered
  {
    Z3_model m; // null: an arbitrary assignment made from seed
    unsigned seed = 0;
    std::unordered_map<Ast, bool> val;
    std::unordered_map<Ast, APInt> memo;
  };
  // Value of a term in a model; width 1 for Bool.  Memoized, so shared terms are visited once.
  const APInt &
  evalTerm(Remembered & r, Ast root)
  {
    auto found = r.memo.find(root);
    if (found != r.memo.end())
      return found->second;
    std::vector<Ast> todo{ root };
    while (!todo.empty())
    {
      Ast a = todo.back();
      if (r.memo.count(a))
      {
        todo.pop_back();
        continue;
      }
      Z3_sort so = Z3_get_sort(C, a);
      unsigned w = Z3_get_sort_kind(C, so) == Z3_BOOL_SORT ? 1 : Z3_get_bv_sort_size(C, so);
      APInt n(w, 0);
      if (numeralValue(a, w, n))
      {
        r.memo.emplace(a, n);
        todo.pop_back();
        continue;
      }
      Z3_app app = Z3_to_app(C, a);
      Z3_func_decl d = Z3_get_app_decl(C, app);
      Z3_decl_kind k = Z3_get_decl_kind(C, d);
      unsigned na = Z3_get_app_num_args(C, app);
      bool ready = true;
      std::vector<const APInt *> x(na);
      for (unsigned i = 0; i < na; i++)
      {
        Ast c = Z3_get_app_arg(C, app, i);
        auto it = r.memo.find(c);
        if (it == r.memo.end())
        {
          todo.push_back(c);
          ready = false;
        }
        else
          x[i] = &it->second;
      }
      if (!ready)
        continue;
      todo.pop_back();
      bool ok = true;
      auto B = [](bool b)
      {
        return APInt(1, b);
      };
      auto shift = [&](unsigned which)
      {
        uint64_t amt = x[1]->uge(w) ? w : x[1]->getZExtValue();
        return which == 0 ? x[0]->shl(amt) : which == 1 ? x[0]->lshr(amt) : x[0]->ashr(amt);
      };
      switch (k)
      {
      case Z3_OP_TRUE:
        n = B(true);
        break;
      case Z3_OP_FALSE:
        n = B(false);
        break;
      case Z3_OP_EQ:
      case Z3_OP_IFF:
        n = B(*x[0] == *x[1]);
        break;
      case Z3_OP_DISTINCT:
        ok = na == 2;
        if (ok)
          n = B(*x[0] != *x[1]);
        break;
      case Z3_OP_ITE:
        n = x[0]->isZero() ? *x[2] : *x[1];
        break;
      case Z3_OP_AND:
      case Z3_OP_BAND:
        n = APInt::getAllOnes(w);
        for (auto y : x)
          n &= *y;
        break;
      case Z3_OP_OR:
      case Z3_OP_BOR:
        for (auto y : x)
          n |= *y;
        break;
      case Z3_OP_XOR:
      case Z3_OP_BXOR:
        for (auto y : x)
          n ^= *y;
        break;
      case Z3_OP_NOT:
      case Z3_OP_BNOT:
        n = ~*x[0];
        break;
      case Z3_OP_IMPLIES:
        n = B(x[0]->isZero() || !x[1]->isZero());
        break;
      case Z3_OP_BNEG:
        n = -*x[0];
        break;
      case Z3_OP_BADD:
        for (auto y : x)
          n += *y;
        break;
      case Z3_OP_BSUB:
        n = *x[0];
        for (unsigned i = 1; i < na; i++)
          n -= *x[i];
        break;
      case Z3_OP_BMUL:
        n = *x[0];
        for (unsigned i = 1; i < na; i++)
          n *= *x[i];
        break;
      case Z3_OP_ULEQ:
        n = B(x[0]->ule(*x[1]));
        break;
      case Z3_OP_ULT:
        n = B(x[0]->ult(*x[1]));
        break;
      case Z3_OP_UGEQ:
        n = B(x[0]->uge(*x[1]));
        break;
      case Z3_OP_UGT:
        n = B(x[0]->ugt(*x[1]));
        break;
      case Z3_OP_SLEQ:
        n = B(x[0]->sle(*x[1]));
        break;
      case Z3_OP_SLT:
        n = B(x[0]->slt(*x[1]));
        break;
      case Z3_OP_SGEQ:
        n = B(x[0]->sge(*x[1]));
        break;
      case Z3_OP_SGT:
        n = B(x[0]->sgt(*x[1]));
        break;
      case Z3_OP_BSHL:
        n = shift(0);
        break;
      case Z3_OP_BLSHR:
        n = shift(1);
        break;
      case Z3_OP_BASHR:
        n = shift(2);
        break;
      case Z3_OP_BUDIV:
      case Z3_OP_BUDIV_I:
        n = x[1]->isZero() ? APInt::getAllOnes(w) : x[0]->udiv(*x[1]);
        break;
      case Z3_OP_BUREM:
      case Z3_OP_BUREM_I:
        n = x[1]->isZero() ? *x[0] : x[0]->urem(*x[1]);
        break;
      case Z3_OP_BSDIV:
      case Z3_OP_BSDIV_I:
        n = x[1]->isZero() ? (x[0]->isNegative() ? APInt(w, 1) : APInt::getAllOnes(w))
                           : x[0]->sdiv(*x[1]);
        break;
      case Z3_OP_BSREM:
      case Z3_OP_BSREM_I:
        n = x[1]->isZero() ? *x[0] : x[0]->srem(*x[1]);
        break;
      case Z3_OP_CONCAT:
      {
        unsigned at = w;
        for (auto y : x)
        {
          at -= y->getBitWidth();
          n.insertBits(*y, at);
        }
        break;
      }
      case Z3_OP_EXTRACT:
        n = x[0]->extractBits(w, Z3_get_decl_int_parameter(C, d, 1));
        break;
      case Z3_OP_ZERO_EXT:
        n = x[0]->zext(w);
        break;
      case Z3_OP_SIGN_EXT:
        n = x[0]->sext(w);
        break;
      default:
        ok = false;
      }
      if (!ok)
      {
        Ast v;
        if (!r.m)
        {
          if (na)
            unsupported("model evaluation");
          if (r.seed == 1)
            n = APInt::getAllOnes(w);
          else if (r.seed > 1)
          {
            uint64_t h = (Z3_get_ast_id(C, a) + 1) * 0x9E3779B97F4A7C15ull * (r.seed * 2 + 1);
            h ^= h >> 29;
            h *= 0xBF58476D1CE4E5B9ull;
            h ^= h >> 32;
            // every third assignment small
            n = APInt(64, r.seed % 3 == 0 ? h % 9 : h).zextOrTrunc(w);
            if (w > 64)
              n.insertBits(APInt(64, h * 0x94D049BB133111EBull), w - 64);
          }
          r.memo.emplace(a, n);
          continue;
        }
        if (!Z3_model_eval(C, r.m, a, true, &v))
          unsupported("model evaluation");
        auto bv = Z3_get_bool_value(C, v);
        if (w == 1 && bv != Z3_L_UNDEF && Z3_get_sort_kind(C, so) == Z3_BOOL_SORT)
          n = APInt(1, bv == Z3_L_TRUE);
        else if (!numeralValue(v, w, n))
          unsupported("model evaluation");
      }
      r.memo.emplace(a, n);
    }
    return r.memo.find(root)->second;
  }
  std::vector<Remembered> models; // recent models, with what they make of path conditions

  void
  init()
  {
    s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), optQueryTimeoutMs);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (unsigned i = 0; i < 12; i++)
      models.push_back({ nullptr, i, {}, {} });
  }
  // Every condition gets a literal that implies it; the solver keeps the definitions, so the
  // circuits are translated once.  A query is a set of literals.
  std::unordered_map<Ast, Ast> literals;
  Ast
  literalOf(Ast a)
  {
    auto it = literals.find(a);
    if (it != literals.end())
      return it->second;
    std::string n = "lit!" + std::to_string(literals.size());
    Ast p = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), boolSort);
    Z3_solver_assert(C, s, Z3_mk_implies(C, p, a));
    return literals[a] = p;
  }
  bool
  evalTrue(Remembered & r, Ast a)
  {
    auto it = r.val.find(a);
    if (it != r.val.end())
      return it->second;
    bool v = !evalTerm(r, a).isZero();
    r.val.emplace(a, v);
    return v;
  }
  bool
  quickSat(const std::vector<Ast> & pc, Ast extra)
  {
    for (size_t i = models.size(); i-- > 0;)
    {
      auto & m = models[i];
      bool ok = true;
      for (size_t k = pc.size(); k-- > 0;)
        if (!evalTrue(m, pc[k]))
        {
          ok = false;
          break;
        }
      if (ok && evalTrue(m, extra))
        return true;
    }
    return false;
  }
  void
  remember(Z3_model m)
  {
    Z3_model_inc_ref(C, m);
    models.push_back({ m, 0, {}, {} });
    if (models.size() > 20)
    {
      Z3_model_dec_ref(C, models[12].m);
      models.erase(models.begin() + 12);
    }
  }
  // Is pc /\ extra satisfiable?  model is set (owned by caller through remember) when sat.
  Z3_lbool
  check(const std::vector<Ast> & pc, Ast extra, Z3_model * model = nullptr)
  {
    auto b = Z3_get_bool_value(C, extra);
    if (b == Z3_L_FALSE)
      return Z3_L_FALSE;
    if (!model && quickSat(pc, extra))
      return Z3_L_TRUE;
    auto t = Clock::now();
    if (literals.size() > 30000)
    {
      Z3_solver_reset(C, s);
      literals.clear();
    }
    std::vector<Ast> as;
    for (auto p : pc)
      as.push_back(literalOf(p));
    if (extra != zTrue)
      as.push_back(literalOf(extra));
    Z3_lbool r = Z3_solver_check_assumptions(C, s, as.size(), as.data());
    double dt = since(t);
    time += dt;
    maxTime = std::max(maxTime, dt);
    queries++;
    if (r == Z3_L_TRUE)
    {
      satN++;
      Z3_model m = Z3_solver_get_model(C, s);
      remember(m);
      if (model)
        *model = m;
    }
    else if (r == Z3_L_FALSE)
      unsatN++;
    else
      unknownN++;
    return r;
  }
};
static SolverT solver;
static std::string externalCheck(const std::vector<Ast> & pc, Ast extra);
static unsigned long externalQueries = 0;

// sat / unsat, with the external solvers as a fallback for unknown.
static Z3_lbool
decide(const std::vector<Ast> & pc, Ast extra, Z3_model * model = nullptr)
{
  auto r = solver.check(pc, extra, model);
  if (r == Z3_L_UNDEF)
  {
    auto e = externalCheck(pc, extra);
    if (e == "unsat")
      return Z3_L_FALSE;
    if (e == "sat" && !model)
      return Z3_L_TRUE;
  }
  return r;
}

static std::string
smt2Of(const std::vector<Ast> & pc, Ast extra)
{
  Z3_set_ast_print_mode(C, Z3_PRINT_SMTLIB2_COMPLIANT);
  std::vector<Ast> as(pc.begin(), pc.end());
  std::string r = Z3_benchmark_to_smtlib_string(
      C,
      "obligation",
      "QF_BV",
      "unknown",
      "",
      as.size(),
      as.data(),
      extra);
  return r;
}

static std::string
externalCheck(const std::vector<Ast> & pc, Ast extra)
{
  externalQueries++;
  char name[] = "/tmp/jcvqXXXXXX";
  int fd = mkstemp(name);
  if (fd < 0)
    return "unknown";
  std::string t = smt2Of(pc, extra);
  if (write(fd, t.data(), t.size()) != (ssize_t)t.size())
  {}
  close(fd);
  std::string cmd = "timeout " + std::to_string(optQueryTimeoutMs / 1000)
      + " cvc5 --lang smt2 " + name + " 2>/dev/null";
  std::string out;
  if (FILE * p = popen(cmd.c_str(), "r"))
  {
    char buf[256];
    while (fgets(buf, sizeof buf, p))
      out += buf;
    pclose(p);
  }
  unlink(name);
  if (out.rfind("unsat", 0) == 0)
    return "unsat";
  if (out.rfind("sat", 0) == 0)
    return "sat";
  return "unknown";
}

// ---------------------------------------------------------------------------------------------
// Results
// ---------------------------------------------------------------------------------------------
struct ObRes
{
  unsigned long instances = 0, constant = 0, solver = 0, failed = 0, unknown = 0;
};
struct Failure
{
  std::string obligation, detail, where;
  std::vector<std::tuple<std::string, unsigned, std::string>> inputs;
};
static std::map<std::string, ObRes> obligations;
static std::vector<Failure> failures;
static std::set<std::string> undecided;
static std::map<std::string, unsigned long> covers;
static unsigned long pathsCompleted = 0, pathsInfeasible = 0, forks = 0, merges = 0, loopCuts = 0;
static uint64_t steps = 0;
static Clock::time_point startTime;

static std::string
locOf(State & s)
{
  std::string r;
  unsigned n = 0;
  for (size_t i = s.stack.size(); i-- > 0 && n < 14; n++)
  {
    auto & fr = *s.stack[i];
    if (!r.empty())
      r += " <- ";
    auto it = fr.pc;
    const Instruction * ins = it != fr.bb->end() ? &*it : nullptr;
    DILocation * dl = ins ? ins->getDebugLoc().get() : nullptr;
    bool any = false;
    for (; dl; dl = dl->getInlinedAt())
    {
      if (any)
        r += " <- ";
      any = true;
      std::string fn = dl->getScope()->getSubprogram()->getName().str();
      r += fn + "@" + dl->getFilename().str() + ":" + std::to_string(dl->getLine());
    }
    if (!any)
      r += demangled(fr.f->getName());
  }
  return r;
}

static void
fail(State & s, const std::string & name, const std::string & detail, Z3_model m)
{
  Failure f;
  f.obligation = name;
  f.detail = detail;
  f.where = locOf(s);
  for (auto & in : s.inputs)
  {
    std::string val;
    if (in.v.conc())
    {
      SmallString<64> str;
      in.v.c.toStringUnsigned(str, 10);
      val = std::string(str.str());
    }
    else
    {
      Ast r;
      APInt n(in.w, 0);
      if (Z3_model_eval(C, m, asBV(in.v), true, &r) && numeralValue(r, in.w, n))
      {
        SmallString<64> str;
        n.toStringUnsigned(str, 10);
        val = std::string(str.str());
      }
      else
        val = "0";
    }
    f.inputs.emplace_back(in.name, in.w, val);
  }
  failures.push_back(f);
  if (optVerbose)
  {
    errs() << "FAIL " << name << " : " << detail << "\n   at " << f.where << "\n";
    for (auto & [n, w, v] : f.inputs)
      errs() << "     " << n << " = " << v << "\n";
  }
  if (failures.size() >= optMaxFailures)
    throw LimitReached{ "failure limit" };
}

// A definite failure on this path (path condition is satisfiable by construction).
static void
failPath(State & s, const std::string & name, const std::string & detail)
{
  obligations[name].instances++;
  Z3_model m = nullptr;
  auto r = decide(s.pc, zTrue, &m);
  s.dead = true;
  if (r == Z3_L_FALSE)
  {
    obligations[name].solver++;
    pathsInfeasible++;
    return;
  }
  if (r == Z3_L_UNDEF)
  {
    obligations[name].unknown++;
    undecided.insert(name + ": solver gave no answer at " + locOf(s));
    return;
  }
  obligations[name].failed++;
  fail(s, name, detail, m);
}

// Check that cond holds on this path; afterwards assume it. Returns false when the path ended.
static unsigned dumpCount = 0;
static bool
require(State & s, Ast cond, const std::string & name, const std::string & detail = "")
{
  auto & ob = obligations[name];
  ob.instances++;
  auto b = Z3_get_bool_value(C, cond);
  if (b == Z3_L_TRUE)
  {
    ob.constant++;
    return true;
  }
  Ast neg = mkNot(cond);
  if (!optDumpSmt.empty() && dumpCount < 4000)
  {
    std::ofstream o(optDumpSmt + "/" + std::to_string(dumpCount++) + ".smt2");
    o << "; " << name << "\n" << smt2Of(s.pc, neg);
  }
  Z3_model m = nullptr;
  auto r = decide(s.pc, neg, &m);
  if (r == Z3_L_FALSE)
  {
    ob.solver++;
    return true;
  }
  if (r == Z3_L_UNDEF)
  {
    ob.unknown++;
    undecided.insert(name + ": solver gave no answer at " + locOf(s));
  }
  else
  {
    ob.failed++;
    fail(s, name, detail, m);
  }
  // go on where it holds
  if (b == Z3_L_FALSE || decide(s.pc, cond) == Z3_L_FALSE)
  {
    s.dead = true;
    return false;
  }
  s.pc.push_back(cond);
  return true;
}

// ---------------------------------------------------------------------------------------------
// Memory access
// ---------------------------------------------------------------------------------------------
static Val constVal(const Constant * c);

static void
initGlobalBytes(Obj & o, uint64_t off, const Constant * c)
{
  Type * t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c))
    return;
  if (auto cda = dyn_cast<ConstantDataSequential>(c))
  {
    uint64_t es = DL->getTypeAllocSize(cda->getElementType());
    for (unsigned i = 0; i < cda->getNumElements(); i++)
      initGlobalBytes(o, off + i * es, cda->getElementAsConstant(i));
    return;
  }
  if (auto ca = dyn_cast<ConstantArray>(c))
  {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++)
      initGlobalBytes(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto cs = dyn_cast<ConstantStruct>(c))
  {
    auto sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++)
      initGlobalBytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto cv = dyn_cast<ConstantVector>(c))
  {
    uint64_t es = DL->getTypeAllocSize(cv->getType()->getElementType());
    for (unsigned i = 0; i < cv->getNumOperands(); i++)
      initGlobalBytes(o, off + i * es, cv->getOperand(i));
    return;
  }
  Val v = constVal(c);
  unsigned n = DL->getTypeStoreSize(t);
  o.storeBits(off, vZext(v, 8 * n));
}

static ObjP
findObj(State & s, uint64_t a, bool forWrite)
{
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin())
  {
    --it;
    auto & o = it->second;
    if (a < o->base + o->size || (a == o->base && o->size == 0))
    {
      if (forWrite && o.use_count() > 1)
        o = std::make_shared<Obj>(*o);
      return o;
    }
  }
  auto g = addrGlobal.upper_bound(a);
  if (g != addrGlobal.begin())
  {
    --g;
    const GlobalVariable * gv = g->second;
    uint64_t size = gv->isDeclaration() && gv->getName() == "__libc_single_threaded"
                      ? 1
                      : DL->getTypeAllocSize(gv->getValueType());
    if (a < g->first + std::max<uint64_t>(size, 1) && !s.mem.count(g->first))
    {
      auto o = std::make_shared<Obj>();
      o->base = g->first;
      o->size = size;
      o->bytes.assign(size, 0);
      o->name = gv->getName().str();
      if (gv->hasInitializer())
        initGlobalBytes(*o, 0, gv->getInitializer());
      else if (gv->getName() == "__libc_single_threaded")
        o->bytes[0] = 1;
      else
        o->name += " (external)";
      o->ro = gv->isConstant();
      s.mem[g->first] = o;
      return o;
    }
  }
  return nullptr;
}

static uint64_t
allocate(State & s, uint64_t size, bool heap, const std::string & name, uint64_t align = 16)
{
  auto o = std::make_shared<Obj>();
  nextAddr = (nextAddr + align - 1) / align * align;
  o->base = nextAddr;
  o->size = size;
  o->heap = heap;
  o->stack = !heap;
  o->name = name;
  o->bytes.assign(size, heap ? 0xBE : 0xAA);
  nextAddr += (size + 63) / 16 * 16;
  s.mem[o->base] = o;
  return o->base;
}

struct Target
{
  ObjP obj;
  Ast cond;                // address is in this object (complete access)
  bool fixed = true;       // concrete offset
  uint64_t off = 0;
  std::vector<std::pair<Ast, uint64_t>> offs; // candidates when not fixed
};

static bool
modelU64(Z3_model m, Ast a, uint64_t & out)
{
  Ast r;
  if (!Z3_model_eval(C, m, a, true, &r))
    return false;
  APInt n(64, 0);
  unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, r));
  if (!numeralValue(r, w, n))
    return false;
  out = n.getZExtValue();
  return true;
}

// Resolves an access of n bytes at addr. Memory faults become failed obligations.
// Returns false when the path ended.
static bool
resolve(State & s, const Val & addr, uint64_t n, bool write, std::vector<Target> & out)
{
  if (addr.conc())
  {
    uint64_t a = addr.u();
    auto o = findObj(s, a, write);
    if (!o || a + n > o->base + o->size)
    {
      failPath(
          s,
          "memory-safety",
          (o ? "access past the end of " + o->name : std::string("access to no object"))
              + " at address " + std::to_string(a) + " size " + std::to_string(n));
      return false;
    }
    if (o->freed)
    {
      failPath(s, "memory-safety", "access to freed memory " + o->name);
      return false;
    }
    if (write && o->ro)
    {
      failPath(s, "memory-safety", "write to constant " + o->name);
      return false;
    }
    Target t;
    t.obj = o;
    t.cond = zTrue;
    t.off = a - o->base;
    out.push_back(t);
    return true;
  }
  // Symbolic address: enumerate the objects it can point into.
  std::vector<Ast> pc = s.pc;
  Ast rest = zTrue;
  for (unsigned k = 0;; k++)
  {
    if (k > 64)
      unsupported("symbolic address with more than 64 target objects");
    Z3_model m = nullptr;
    auto r = decide(pc, rest, &m);
    if (r == Z3_L_UNDEF)
      unsupported("solver gave no answer resolving an address");
    if (r == Z3_L_FALSE)
      break;
    uint64_t a;
    if (!modelU64(m, addr.s, a))
      unsupported("model of address");
    auto o = findObj(s, a, write);
    if (!o || a + n > o->base + o->size || o->freed || (write && o->ro))
    {
      obligations["memory-safety"].instances++;
      obligations["memory-safety"].failed++;
      fail(
          s,
          "memory-safety",
          "symbolic address can be " + std::to_string(a)
              + (o ? " past/in " + o->name : std::string(" in no object")),
          m);
      // continue without this case
      Ast ne = mkNot(Z3_mk_eq(C, addr.s, numeral(APInt(64, a))));
      s.pc.push_back(ne);
      pc.push_back(ne);
      continue;
    }
    obligations["memory-safety"].instances++;
    obligations["memory-safety"].solver++;
    Target t;
    t.obj = o;
    Ast lo = Z3_mk_bvuge(C, addr.s, numeral(APInt(64, o->base)));
    Ast hi = Z3_mk_bvule(C, addr.s, numeral(APInt(64, o->base + o->size - n)));
    t.cond = mkAnd(lo, hi);
    // offsets: try a few concrete ones first
    std::vector<uint64_t> vals;
    {
      std::vector<Ast> pc2 = s.pc;
      pc2.push_back(t.cond);
      Ast rest2 = zTrue;
      bool all = false;
      while (vals.size() <= 16)
      {
        Z3_model m2 = nullptr;
        auto r2 = decide(pc2, rest2, &m2);
        if (r2 == Z3_L_FALSE)
        {
          all = true;
          break;
        }
        uint64_t a2;
        if (r2 == Z3_L_UNDEF || !modelU64(m2, addr.s, a2))
          unsupported("model of address");
        vals.push_back(a2 - o->base);
        pc2.push_back(mkNot(Z3_mk_eq(C, addr.s, numeral(APInt(64, a2)))));
      }
      if (!all)
      {
        vals.clear();
        if (o->size > 65536)
          unsupported("symbolic offset into an object of more than 64 KiB");
        // Use the stride implied by trailing zero bits common to all offsets, if provable
        uint64_t stride = 1;
        for (uint64_t st : { 16ull, 8ull, 4ull, 2ull })
        {
          Ast off = Z3_mk_bvsub(C, addr.s, numeral(APInt(64, o->base)));
          Ast z = Z3_mk_eq(
              C,
              Z3_mk_bvand(C, off, numeral(APInt(64, st - 1))),
              numeral(APInt(64, 0)));
          std::vector<Ast> pc3 = s.pc;
          pc3.push_back(t.cond);
          if (decide(pc3, mkNot(z)) == Z3_L_FALSE)
          {
            stride = st;
            break;
          }
        }
        for (uint64_t v = 0; v + n <= o->size; v += stride)
          vals.push_back(v);
      }
    }
    if (vals.size() == 1)
      t.off = vals[0];
    else
    {
      t.fixed = false;
      for (auto v : vals)
        t.offs.emplace_back(Z3_mk_eq(C, addr.s, numeral(APInt(64, o->base + v))), v);
    }
    out.push_back(t);
    rest = zTrue;
    pc.push_back(mkNot(t.cond));
  }
  if (out.empty())
  {
    s.dead = true;
    return false;
  }
  return true;
}

static bool
loadMem(State & s, const Val & addr, unsigned nbytes, Val & out)
{
  std::vector<Target> ts;
  if (!resolve(s, addr, nbytes, false, ts))
    return false;
  bool first = true;
  for (size_t i = ts.size(); i-- > 0;)
  {
    auto & t = ts[i];
    Val v;
    if (t.fixed)
      v = t.obj->loadBits(t.off, nbytes);
    else
    {
      bool f2 = true;
      for (size_t k = t.offs.size(); k-- > 0;)
      {
        Val x = t.obj->loadBits(t.offs[k].second, nbytes);
        v = f2 ? x : vIte(t.offs[k].first, x, v);
        f2 = false;
      }
    }
    out = first ? v : vIte(t.cond, v, out);
    first = false;
  }
  if (out.s && ts.size() + ts[0].offs.size() > 1)
    out = fromBV(out.w(), Z3_simplify(C, asBV(out)));
  return true;
}

static bool
storeMem(State & s, const Val & addr, const Val & v)
{
  unsigned n = v.w() / 8;
  std::vector<Target> ts;
  if (!resolve(s, addr, n, true, ts))
    return false;
  for (auto & t : ts)
  {
    if (t.fixed)
    {
      if (ts.size() == 1)
        t.obj->storeBits(t.off, v);
      else
        t.obj->storeBits(t.off, vIte(t.cond, v, t.obj->loadBits(t.off, n)));
    }
    else
    {
      // overlapping candidates are handled by writing in order against the old contents
      std::vector<Val> nv;
      if (n == 1 || true)
        for (auto & [c, o] : t.offs)
          t.obj->storeBits(o, vIte(c, v, t.obj->loadBits(o, n)));
    }
  }
  return true;
}

// ---------------------------------------------------------------------------------------------
// Constants
// ---------------------------------------------------------------------------------------------
static unsigned
widthOf(Type * t)
{
  if (t->isPointerTy())
    return 64;
  return DL->getTypeSizeInBits(t).getFixedValue();
}
static Val
zeroOf(Type * t)
{
  if (auto st = dyn_cast<StructType>(t))
  {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (auto e : st->elements())
      r.agg->push_back(zeroOf(e));
    return r;
  }
  if (auto at = dyn_cast<ArrayType>(t))
  {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(at->getNumElements(), zeroOf(at->getElementType()));
    return r;
  }
  if (auto vt = dyn_cast<FixedVectorType>(t))
  {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(vt->getNumElements(), zeroOf(vt->getElementType()));
    return r;
  }
  return Val(widthOf(t), 0);
}

static Val
gepOffset(const GEPOperator * g, const std::function<Val(const Value *)> & get)
{
  Val addr = get(g->getPointerOperand());
  uint64_t cst = 0;
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti)
  {
    Value * idx = gti.getOperand();
    if (StructType * st = gti.getStructTypeOrNull())
    {
      cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      continue;
    }
    uint64_t sz = gti.getSequentialElementStride(*DL).getFixedValue();
    Val i = get(idx);
    if (i.agg)
      unsupported("vector gep");
    if (i.w() < 64)
      i = vSext(i, 64);
    else if (i.w() > 64)
      i = vTrunc(i, 64);
    if (i.conc())
      cst += i.u() * sz;
    else
      addr = vBin(Instruction::Add, addr, vBin(Instruction::Mul, i, Val(64, sz)));
  }
  return vBin(Instruction::Add, addr, Val(64, cst));
}

static Val
constVal(const Constant * c)
{
  if (auto ci = dyn_cast<ConstantInt>(c))
    return Val(ci->getValue());
  if (isa<ConstantPointerNull>(c))
    return Val(64, 0);
  if (auto cf = dyn_cast<ConstantFP>(c))
    return Val(cf->getValueAPF().bitcastToAPInt());
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
    return zeroOf(c->getType());
  if (auto ga = dyn_cast<GlobalAlias>(c))
    return constVal(ga->getAliasee());
  if (auto gv = dyn_cast<GlobalValue>(c))
  {
    auto it = globalAddr.find(gv);
    if (it == globalAddr.end())
      unsupported("address of " + gv->getName().str());
    return Val(64, it->second);
  }
  if (auto ce = dyn_cast<ConstantExpr>(c))
  {
    auto get = [](const Value * v)
    {
      return constVal(cast<Constant>(v));
    };
    switch (ce->getOpcode())
    {
    case Instruction::GetElementPtr:
      return gepOffset(cast<GEPOperator>(ce), get);
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
      return get(ce->getOperand(0));
    case Instruction::IntToPtr:
    case Instruction::PtrToInt:
    {
      Val v = get(ce->getOperand(0));
      unsigned w = widthOf(ce->getType());
      return v.w() < w ? vZext(v, w) : vTrunc(v, w);
    }
    case Instruction::Trunc:
      return vTrunc(get(ce->getOperand(0)), widthOf(ce->getType()));
    case Instruction::ZExt:
      return vZext(get(ce->getOperand(0)), widthOf(ce->getType()));
    case Instruction::SExt:
      return vSext(get(ce->getOperand(0)), widthOf(ce->getType()));
    case Instruction::ICmp:
      return vICmp(
          (CmpInst::Predicate)ce->getPredicate(),
          get(ce->getOperand(0)),
          get(ce->getOperand(1)));
    default:
      if (Instruction::isBinaryOp(ce->getOpcode()))
        return vBin(ce->getOpcode(), get(ce->getOperand(0)), get(ce->getOperand(1)));
      unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  if (auto cds = dyn_cast<ConstantDataSequential>(c))
  {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cds->getNumElements(); i++)
      r.agg->push_back(constVal(cds->getElementAsConstant(i)));
    return r;
  }
  if (isa<ConstantAggregate>(c))
  {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < c->getNumOperands(); i++)
      r.agg->push_back(constVal(cast<Constant>(c->getOperand(i))));
    return r;
  }
  unsupported("constant kind");
}

static std::unordered_map<const Constant *, Val> constCache;

// ---------------------------------------------------------------------------------------------
// Executor
// ---------------------------------------------------------------------------------------------
struct Stop
{
  size_t depth = 0;
  BasicBlock * bb = nullptr; // stop when stack.size()==depth and bb was just entered
  // bb == nullptr: stop when the stack is smaller than depth
};

class Executor
{
public:
  std::vector<State> * spawn = nullptr; // where forked states go

  Val
  get(State & s, const Value * v)
  {
    if (auto c = dyn_cast<Constant>(v))
    {
      auto it = constCache.find(c);
      if (it != constCache.end())
        return it->second;
      return constCache[c] = constVal(c);
    }
    Frame & f = *s.stack.back();
    auto it = f.info->slot.find(v);
    if (it == f.info->slot.end())
      unsupported("operand kind");
    return f.regs[it->second];
  }
  void
  set(State & s, const Value * v, Val x)
  {
    Frame & f = s.top();
    f.regs[f.info->slot[v]] = std::move(x);
  }

  void
  noteReached(const Instruction & i)
  {
    for (DILocation * dl = i.getDebugLoc().get(); dl; dl = dl->getInlinedAt())
    {
      auto sp = dl->getScope()->getSubprogram();
      if (!seenSp.insert(sp).second)
        continue;
      auto file = sp->getFilename().str();
      auto p = file.find("jlm/");
      if (p == std::string::npos)
        continue;
      std::string ln = sp->getLinkageName().empty() ? sp->getName().str()
                                                    : demangled(sp->getLinkageName());
      functionsReached.insert(file.substr(p) + ": " + ln);
    }
  }
  SmallPtrSet<DISubprogram *, 32> seenSp;

  // Enters bb in the top frame, executing its phis.
  void
  enter(State & s, BasicBlock * bb)
  {
    Frame & f = s.top();
    f.prev = f.bb;
    f.bb = bb;
    SmallVector<std::pair<const Value *, Val>, 8> vals;
    auto it = bb->begin();
    for (; auto phi = dyn_cast<PHINode>(&*it); ++it)
      vals.emplace_back(phi, get(s, phi->getIncomingValueForBlock(f.prev)));
    Frame & g = s.top();
    for (auto & [p, v] : vals)
      g.regs[g.info->slot[p]] = v;
    g.pc = it;
  }

  void
  pushCall(State & s, Function * f, std::vector<Val> args)
  {
    auto fr = std::make_shared<Frame>();
    fr->f = f;
    fr->info = &infoOf(f);
    fr->regs.resize(fr->info->nslots);
    unsigned i = 0;
    for (auto & a : f->args())
    {
      if (a.hasByValAttr())
      {
        uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
        uint64_t p = allocate(s, n, false, "byval");
        fr->allocas.push_back(p);
        copyMem(s, Val(64, p), args[i], n);
        fr->regs[fr->info->slot[&a]] = Val(64, p);
      }
      else
        fr->regs[fr->info->slot[&a]] = args[i];
      i++;
    }
    for (; i < args.size(); i++)
      fr->varargs.push_back(args[i]);
    fr->bb = &f->getEntryBlock();
    fr->pc = fr->bb->begin();
    s.stack.push_back(fr);
    if (s.stack.size() > 4000)
      unsupported("call stack deeper than 4000 frames");
  }

  bool
  copyMem(State & s, const Val & dst, const Val & src, uint64_t n)
  {
    if (n == 0)
      return true;
    std::vector<Target> ts, td;
    if (!resolve(s, src, n, false, ts))
      return false;
    if (!resolve(s, dst, n, true, td))
      return false;
    if (ts.size() != 1 || td.size() != 1 || !ts[0].fixed || !td[0].fixed)
    {
      // bytewise through the generic path
      std::vector<Val> tmp;
      for (uint64_t i = 0; i < n; i++)
      {
        Val b;
        if (!loadMem(s, vBin(Instruction::Add, src, Val(64, i)), 1, b))
          return false;
        tmp.push_back(b);
      }
      for (uint64_t i = 0; i < n; i++)
        if (!storeMem(s, vBin(Instruction::Add, dst, Val(64, i)), tmp[i]))
          return false;
      return true;
    }
    auto so = ts[0].obj;
    auto so_off = ts[0].off, d_off = td[0].off;
    auto & d = *td[0].obj;
    // gather
    std::vector<uint8_t> bytes(so->bytes.begin() + so_off, so->bytes.begin() + so_off + n);
    std::vector<std::pair<uint64_t, Cell>> cells;
    {
      auto it = so->sym.lower_bound(so_off);
      if (it != so->sym.begin())
      {
        auto p = std::prev(it);
        if (p->first + p->second.n > so_off)
          it = p;
      }
      for (; it != so->sym.end() && it->first < so_off + n; ++it)
      {
        uint64_t b = std::max(it->first, so_off),
                 e = std::min(it->first + it->second.n, so_off + n);
        if (b == it->first && e == it->first + it->second.n)
          cells.emplace_back(b - so_off, it->second);
        else
        {
          Val v = vExtract(it->second.v, 8 * (b - it->first), 8 * (e - b));
          cells.emplace_back(b - so_off, Cell{ v, unsigned(e - b) });
        }
      }
    }
    d.clearRange(d_off, n);
    std::copy(bytes.begin(), bytes.end(), d.bytes.begin() + d_off);
    for (auto & [o, c] : cells)
      d.storeBits(d_off + o, c.v);
    return true;
  }

  // Fork so that the operand is concrete; the instruction is executed again.
  bool
  concretize(State & s, const Value * operand, unsigned limit = 300)
  {
    Val v = get(s, operand);
    if (v.conc())
      return false;
    std::vector<Ast> pc = s.pc;
    std::vector<State> outs;
    Ast e = asBV(v);
    for (unsigned k = 0;; k++)
    {
      Z3_model m = nullptr;
      auto r = decide(pc, zTrue, &m);
      if (r == Z3_L_UNDEF)
        unsupported("solver gave no answer (concretize)");
      if (r == Z3_L_FALSE)
        break;
      if (k >= limit)
        unsupported("too many values for an operand that must be concrete at " + locOf(s));
      Ast rr;
      APInt n(v.w(), 0);
      if (!Z3_model_eval(C, m, e, true, &rr) || !numeralValue(rr, v.w(), n))
        unsupported("model eval");
      Ast eq = Z3_mk_eq(C, e, numeral(n));
      State t = s;
      t.pc.push_back(eq);
      set(t, operand, Val(n));
      outs.push_back(std::move(t));
      pc.push_back(mkNot(eq));
    }
    if (outs.empty())
    {
      s.dead = true;
      pathsInfeasible++;
      return true;
    }
    forks += outs.size() - 1;
    s = std::move(outs.back());
    outs.pop_back();
    for (auto & o : outs)
      spawn->push_back(std::move(o));
    return true;
  }

  void
  popFrame(State & s)
  {
    for (auto a : s.stack.back()->allocas)
      s.mem.erase(a);
    s.stack.pop_back();
    while (!s.cuts.empty() && s.cuts.back().depth > s.stack.size())
      s.cuts.pop_back();
  }

  // Return from the current function with an optional value.
  void
  doReturn(State & s, const Val * rv)
  {
    popFrame(s);
    if (s.stack.empty())
    {
      s.completed = true;
      s.dead = true;
      return;
    }
    finishCall(s, rv);
  }
  // The top frame's current instruction is a finished call.
  void
  finishCall(State & s, const Val * rv)
  {
    Frame & f = s.top();
    Instruction * ci = &*f.pc;
    if (!ci->getType()->isVoidTy())
    {
      if (rv)
        f.regs[f.info->slot[ci]] = *rv;
      else
        f.regs[f.info->slot[ci]] = zeroOf(ci->getType());
    }
    if (auto inv = dyn_cast<InvokeInst>(ci))
      enter(s, inv->getNormalDest());
    else
      ++f.pc;
  }

  // -------- exceptions --------------------------------------------------------------------
  const GlobalVariable *
  typeinfoAt(uint64_t a)
  {
    auto it = addrGlobal.find(a);
    return it == addrGlobal.end() ? nullptr : it->second;
  }
  // enumerate (base typeinfo, offset) of a class
  void
  bases(const GlobalVariable * ti, int64_t off, std::vector<std::pair<const GlobalVariable *, int64_t>> & out)
  {
    out.emplace_back(ti, off);
    if (!ti->hasInitializer())
      return;
    auto cs = dyn_cast<ConstantStruct>(ti->getInitializer());
    if (!cs)
      return;
    if (cs->getNumOperands() == 3)
    {
      if (auto b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()))
        bases(b, off, out);
    }
    else if (cs->getNumOperands() > 4)
    {
      for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
      {
        auto b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
        auto fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
        if (fl & 1)
          unsupported("virtual base class");
        if (b)
          bases(b, off + (fl >> 8), out);
      }
    }
  }
  bool
  typeMatches(uint64_t thrown, uint64_t handler)
  {
    if (handler == 0 || thrown == handler)
      return true;
    auto t = typeinfoAt(thrown);
    auto h = typeinfoAt(handler);
    if (!t || !h)
      return false;
    std::vector<std::pair<const GlobalVariable *, int64_t>> bs;
    bases(t, 0, bs);
    for (auto & b : bs)
      if (b.first == h)
        return true;
    // library exception types have no typeinfo contents here: use the known hierarchy
    static const std::map<std::string, std::string> parent = {
      { "_ZTISt11logic_error", "_ZTISt9exception" },
      { "_ZTISt13runtime_error", "_ZTISt9exception" },
      { "_ZTISt11range_error", "_ZTISt13runtime_error" },
      { "_ZTISt12out_of_range", "_ZTISt11logic_error" },
      { "_ZTISt12length_error", "_ZTISt11logic_error" },
      { "_ZTISt16invalid_argument", "_ZTISt11logic_error" },
      { "_ZTISt12domain_error", "_ZTISt11logic_error" },
      { "_ZTISt9bad_alloc", "_ZTISt9exception" },
      { "_ZTISt18bad_variant_access", "_ZTISt9exception" },
      { "_ZTISt19bad_optional_access", "_ZTISt9exception" },
    };
    for (auto & b : bs)
    {
      std::string n = b.first->getName().str();
      while (true)
      {
        auto it = parent.find(n);
        if (it == parent.end())
          break;
        n = it->second;
        if (n == h->getName())
          return true;
      }
    }
    return false;
  }
  int
  typeId(uint64_t a)
  {
    auto it = typeIds.find(a);
    if (it != typeIds.end())
      return it->second;
    int id = typeIds.size() + 1;
    return typeIds[a] = id;
  }
  std::map<uint64_t, int> typeIds;

  // Unwinds from the current top frame, whose current instruction raised the exception.
  void
  unwind(State & s, uint64_t obj, bool popFirst)
  {
    uint64_t type = s.excType[obj];
    if (popFirst)
      popFrame(s);
    while (!s.stack.empty())
    {
      Frame & f = s.top();
      if (auto inv = dyn_cast<InvokeInst>(&*f.pc))
      {
        auto lp = inv->getLandingPadInst();
        bool goes = lp->isCleanup();
        int sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++)
        {
          if (lp->isCatch(i))
          {
            uint64_t h = constVal(lp->getClause(i)).u();
            if (typeMatches(type, h))
            {
              goes = true;
              sel = typeId(h);
              break;
            }
          }
          else
          { // filter (noexcept specs): treat an empty filter as matching
            goes = true;
            sel = -1;
            break;
          }
        }
        if (goes)
        {
          enter(s, inv->getUnwindDest());
          Val r;
          r.agg = std::make_shared<std::vector<Val>>();
          r.agg->push_back(Val(64, obj));
          r.agg->push_back(Val(APInt(32, sel, true)));
          set(s, lp, r);
          ++s.top().pc;
          return;
        }
      }
      else if (f.f->doesNotThrow())
      {
        failPath(s, "no-terminate", "exception leaves the noexcept function " + demangled(f.f->getName()));
        return;
      }
      if (s.stack.size() == 1)
      {
        auto t = typeinfoAt(type);
        failPath(
            s,
            "no-uncaught-exception",
            "exception of type " + (t ? demangled(t->getName()) : std::string("?"))
                + " leaves the function under contract; thrown at " + lastThrow);
        return;
      }
      popFrame(s);
    }
  }
  std::string lastThrow;

  void
  throwNamed(State & s, const char * tiName)
  {
    auto gv = M->getNamedGlobal(tiName);
    uint64_t ty;
    if (gv)
      ty = globalAddr[gv];
    else
      ty = 1;
    uint64_t p = allocate(s, 64, true, "exception");
    {
      auto & o = *s.mem[p];
      std::fill(o.bytes.begin(), o.bytes.end(), 0);
    }
    s.excType[p] = ty;
    lastThrow = locOf(s);
    unwind(s, p, false);
  }

  // -------- dynamic_cast ------------------------------------------------------------------
  bool
  readU64(State & s, uint64_t a, uint64_t & out)
  {
    Val v;
    if (!loadMem(s, Val(64, a), 8, v))
      return false;
    if (!v.conc())
      unsupported("symbolic vtable or type information");
    out = v.u();
    return true;
  }
  bool
  dynamicCast(State & s, uint64_t src, uint64_t dstTi, uint64_t & res)
  {
    if (!src)
    {
      res = 0;
      return true;
    }
    uint64_t vt, off, ti;
    if (!readU64(s, src, vt) || !readU64(s, vt - 16, off) || !readU64(s, vt - 8, ti))
      return false;
    auto most = typeinfoAt(ti);
    auto dst = typeinfoAt(dstTi);
    if (!most || !dst)
      unsupported("type information of dynamic_cast");
    std::vector<std::pair<const GlobalVariable *, int64_t>> bs;
    bases(most, 0, bs);
    res = 0;
    unsigned n = 0;
    for (auto & b : bs)
      if (b.first == dst)
      {
        res = src + off + b.second;
        n++;
      }
    if (n > 1)
      unsupported("ambiguous dynamic_cast");
    return true;
  }

  std::string
  cstr(State & s, const Val & p)
  {
    if (!p.conc())
      return "?";
    std::string r;
    for (uint64_t a = p.u();; a++)
    {
      Val b;
      auto o = findObj(s, a, false);
      if (!o || a >= o->base + o->size)
        return r;
      b = o->loadBits(a - o->base, 1);
      if (!b.conc() || b.u() == 0)
        return r;
      r += char(b.u());
      if (r.size() > 200)
        return r;
    }
  }

  Val
  nondet(State & s, unsigned w, const std::string & name)
  {
    std::string n = name + "#" + std::to_string(s.inputs.size());
    Ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), w == 1 ? boolSort : bvSort(w));
    Val v = Val::sym(w, a);
    s.inputs.push_back({ name, w, v });
    return v;
  }

  // Symbolic branch. Sets s to one side and spawns the other. Returns false if path died.
  // onTrue/onFalse are applied to the resulting states.
  template<class F, class G>
  void
  fork(State & s, Ast cond, F onTrue, G onFalse)
  {
    auto b = Z3_get_bool_value(C, cond);
    if (b == Z3_L_TRUE)
      return onTrue(s);
    if (b == Z3_L_FALSE)
      return onFalse(s);
    Ast neg = mkNot(cond);
    auto t = decide(s.pc, cond);
    if (t == Z3_L_UNDEF)
      unsupported("solver gave no answer on a branch at " + locOf(s));
    if (t == Z3_L_FALSE)
      return onFalse(s); // the negation is implied
    auto f = decide(s.pc, neg);
    if (f == Z3_L_UNDEF)
      unsupported("solver gave no answer on a branch at " + locOf(s));
    if (f == Z3_L_FALSE)
      return onTrue(s);
    forks++;
    State other = s;
    other.pc.push_back(neg);
    s.pc.push_back(cond);
    onTrue(s);
    std::vector<State> * sp = spawn;
    onFalse(other);
    if (!other.dead)
      sp->push_back(std::move(other));
  }

  // Immediate post-dominators in the part of the function that returns normally: blocks that only
  // lead to exceptions or termination are left out (states that go there are never merged).
  static void
  computeNormal(FuncInfo & info)
  {
    if (info.haveIpdom)
      return;
    info.haveIpdom = true;
    Function & F = *info.f;
    auto succ = [](BasicBlock * b)
    {
      std::vector<BasicBlock *> r;
      if (auto iv = dyn_cast<InvokeInst>(b->getTerminator()))
        r.push_back(iv->getNormalDest());
      else
        for (auto s : successors(b))
          r.push_back(s);
      return r;
    };
    std::vector<BasicBlock *> post;
    std::unordered_set<BasicBlock *> normal;
    std::unordered_map<BasicBlock *, std::vector<BasicBlock *>> preds;
    for (auto & b : F)
      for (auto s : succ(&b))
        preds[s].push_back(&b);
    std::vector<BasicBlock *> work;
    for (auto & b : F)
      if (isa<ReturnInst>(b.getTerminator()))
      {
        normal.insert(&b);
        work.push_back(&b);
      }
    while (!work.empty())
    {
      auto b = work.back();
      work.pop_back();
      for (auto q : preds[b])
        if (normal.insert(q).second)
          work.push_back(q);
    }
    // reverse post order of the reversed graph, from a virtual exit
    std::unordered_map<BasicBlock *, int> num;
    std::unordered_set<BasicBlock *> seen;
    std::function<void(BasicBlock *)> dfs = [&](BasicBlock * b)
    {
      if (!seen.insert(b).second)
        return;
      for (auto q : preds[b])
        if (normal.count(q))
          dfs(q);
      post.push_back(b);
    };
    for (auto & b : F)
      if (isa<ReturnInst>(b.getTerminator()))
        dfs(&b);
    int n = post.size();
    for (int i = 0; i < n; i++)
      num[post[i]] = i;
    std::vector<int> idom(n + 1, -1);
    idom[n] = n; // virtual exit
    auto meet = [&](int x, int y)
    {
      while (x != y)
      {
        while (x < y)
          x = idom[x];
        while (y < x)
          y = idom[y];
      }
      return x;
    };
    for (bool changed = true; changed;)
    {
      changed = false;
      for (int i = n; i-- > 0;)
      {
        int d = -1;
        if (isa<ReturnInst>(post[i]->getTerminator()))
          d = n;
        for (auto q : succ(post[i]))
        {
          auto it = num.find(q);
          if (it == num.end() || idom[it->second] < 0)
            continue;
          d = d < 0 ? it->second : meet(d, it->second);
        }
        if (d != idom[i])
        {
          idom[i] = d;
          changed = true;
        }
      }
    }
    for (int i = 0; i < n; i++)
      info.ipdom[post[i]] = idom[i] < 0 || idom[i] == n ? nullptr : post[idom[i]];
  }

  // -------- merging -----------------------------------------------------------------------
  BasicBlock *
  mergePoint(State & s, Instruction * br)
  {
    Frame & f = *s.stack.back();
    auto & info = *f.info;
    auto it = info.mergeAt.find(br);
    if (it != info.mergeAt.end())
      return it->second;
    BasicBlock * res = nullptr;
    computeNormal(info);
    BasicBlock * p = nullptr;
    {
      auto pd = info.ipdom.find(br->getParent());
      if (pd != info.ipdom.end())
        p = pd->second;
    }
    if (p)
    {
      bool ok = true;
      unsigned count = 0;
      std::map<BasicBlock *, int> color;
      std::function<void(BasicBlock *)> dfs = [&](BasicBlock * b)
      {
        if (!ok || b == p || !info.ipdom.count(b))
          return;
        if (b == br->getParent() || color[b] == 1)
        {
          ok = false;
          return;
        }
        if (color[b] == 2)
          return;
        color[b] = 1;
        for (auto & i : *b)
        {
          if (++count > 300)
            ok = false;
          if (isa<DbgInfoIntrinsic>(i))
            continue;
          if (auto ii = dyn_cast<IntrinsicInst>(&i))
          {
            switch (ii->getIntrinsicID())
            {
            case Intrinsic::memcpy:
            case Intrinsic::memmove:
            case Intrinsic::memset:
              ok = false;
            default:
              break;
            }
          }
          else if (isa<CallBase>(i) || isa<ReturnInst>(i) || isa<UnreachableInst>(i)
                   || isa<AllocaInst>(i) || isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i))
            ok = false;
        }
        for (auto su : successors(b))
          dfs(su);
        color[b] = 2;
      };
      for (auto su : successors(br->getParent()))
        dfs(su);
      if (ok)
        res = p;
    }
    return info.mergeAt[br] = res;
  }

  static bool
  sameVal(const Val & a, const Val & b)
  {
    if (a.agg || b.agg)
    {
      if (a.agg == b.agg)
        return true;
      if (!a.agg || !b.agg || a.agg->size() != b.agg->size())
        return false;
      for (size_t i = 0; i < a.agg->size(); i++)
        if (!sameVal((*a.agg)[i], (*b.agg)[i]))
          return false;
      return true;
    }
    if (a.w() != b.w())
      return false;
    if (a.s || b.s)
      return a.s == b.s;
    return a.c == b.c;
  }

  // Tries to merge b into a. cond: a's suffix condition.
  bool
  tryMerge(State & a, State & b, size_t n0)
  {
    if (a.stack.size() != b.stack.size() || a.inputs.size() != b.inputs.size()
        || a.caught.size() != b.caught.size() || a.cuts.size() != b.cuts.size())
      return false;
    for (size_t i = 0; i < a.inputs.size(); i++)
      if (a.inputs[i].name != b.inputs[i].name || !sameVal(a.inputs[i].v, b.inputs[i].v))
        return false;
    if (a.ghost.size() != b.ghost.size())
      return false;
    for (size_t i = 0; i < a.stack.size(); i++)
    {
      auto &x = *a.stack[i], &y = *b.stack[i];
      if (&x == &y)
        continue;
      if (x.f != y.f || x.bb != y.bb || x.pc != y.pc)
        return false;
    }
    Ast ca = zTrue, cb = zTrue;
    for (size_t i = n0; i < a.pc.size(); i++)
      ca = mkAnd(ca, a.pc[i]);
    for (size_t i = n0; i < b.pc.size(); i++)
      cb = mkAnd(cb, b.pc[i]);
    // memory compatibility
    for (auto & [base, o] : b.mem)
    {
      auto it = a.mem.find(base);
      if (it == a.mem.end() || it->second == o)
        continue;
      if (it->second->freed != o->freed || it->second->size != o->size)
        return false;
    }
    merges++;
    for (size_t i = 0; i < a.stack.size(); i++)
    {
      if (a.stack[i] == b.stack[i])
        continue;
      auto x = std::make_shared<Frame>(*a.stack[i]);
      auto & y = *b.stack[i];
      for (size_t r = 0; r < x->regs.size(); r++)
        if (!sameVal(x->regs[r], y.regs[r]))
        {
          auto &u = x->regs[r], &v = y.regs[r];
          // a register that is not defined on one side is dead here
          if (!u.agg && !v.agg && u.w() != v.w())
          {
            if (u.w() == 1 && u.conc() && u.c.isZero())
              u = v;
            continue;
          }
          if (bool(u.agg) != bool(v.agg))
          {
            if (v.agg)
              u = v;
            continue;
          }
          u = vIte(ca, u, v);
        }
      for (auto al : y.allocas)
        if (std::find(x->allocas.begin(), x->allocas.end(), al) == x->allocas.end())
          x->allocas.push_back(al);
      x->prev = nullptr;
      a.stack[i] = x;
    }
    for (auto & [base, o] : b.mem)
    {
      auto it = a.mem.find(base);
      if (it == a.mem.end())
      {
        a.mem[base] = o;
        continue;
      }
      if (it->second == o)
        continue;
      auto x = std::make_shared<Obj>(*it->second);
      // differing parts
      if (x->bytes == o->bytes && x->sym.size() == o->sym.size())
      {
        bool same = true;
        for (auto i1 = x->sym.begin(), i2 = o->sym.begin(); i1 != x->sym.end(); ++i1, ++i2)
          if (i1->first != i2->first || i1->second.n != i2->second.n
              || !sameVal(i1->second.v, i2->second.v))
          {
            same = false;
            break;
          }
        if (same)
          continue;
      }
      // walk in cells: use the cell structure of either side, 8-byte chunks where concrete
      uint64_t p = 0;
      while (p < x->size)
      {
        auto c1 = x->sym.find(p);
        auto c2 = o->sym.find(p);
        unsigned n = 0;
        if (c1 != x->sym.end())
          n = c1->second.n;
        if (c2 != o->sym.end())
          n = std::max(n, c2->second.n);
        if (n == 0)
        {
          n = 8 - (p % 8);
          if (p + n > x->size)
            n = 1;
          auto clipped = [&](Obj & q)
          {
            auto u = q.sym.upper_bound(p);
            if (u != q.sym.end() && u->first < p + n)
              n = u->first - p;
          };
          clipped(*x);
          clipped(*o);
        }
        Val v1 = x->loadBits(p, n), v2 = o->loadBits(p, n);
        if (!sameVal(v1, v2))
          x->storeBits(p, vIte(ca, v1, v2));
        p += n;
      }
      a.mem[base] = x;
    }
    for (auto & [k, v] : b.ghost)
      a.ghost[k] = vIte(ca, a.ghost[k], v);
    for (auto & [k, v] : b.excType)
      a.excType[k] = v;
    Ast both = Z3_simplify(C, mkOr(ca, cb));
    a.pc.resize(n0);
    if (Z3_get_bool_value(C, both) != Z3_L_TRUE)
      a.pc.push_back(both);
    return true;
  }

  // Explores init until the stop condition; stopped states in out, states that left the
  // region in another way in escaped.
  void
  explore(State init, const Stop & stop, std::vector<State> & out, std::vector<State> & escaped)
  {
    std::vector<State> work;
    work.push_back(std::move(init));
    auto savedSpawn = spawn;
    while (!work.empty())
    {
      State s = std::move(work.back());
      work.pop_back();
      spawn = &work;
      while (!s.dead)
      {
        if (stop.depth)
        {
          if (s.stack.size() < stop.depth)
          {
            if (stop.bb)
              escaped.push_back(std::move(s));
            else
              out.push_back(std::move(s));
            s.dead = true;
            s.completed = false;
            break;
          }
          if (stop.bb && s.stack.size() == stop.depth && s.stack.back()->bb == stop.bb
              && &*s.stack.back()->pc == stop.bb->getFirstNonPHI())
          {
            out.push_back(std::move(s));
            s.dead = true;
            break;
          }
        }
        step(s);
      }
      if (s.completed)
        pathsCompleted++;
    }
    spawn = savedSpawn;
  }

  // Runs a region to its stop point and merges what arrives there. s becomes one of the results.
  void
  runRegion(std::vector<State> starts, const Stop & stop, size_t n0, State & s)
  {
    std::vector<State> out, escaped;
    for (auto & st : starts)
      explore(std::move(st), stop, out, escaped);
    std::vector<State> merged;
    for (auto & o : out)
    {
      bool done = false;
      for (auto & m : merged)
        if (tryMerge(m, o, n0))
        {
          done = true;
          break;
        }
      if (!done)
        merged.push_back(std::move(o));
    }
    for (auto & e : escaped)
      merged.push_back(std::move(e));
    if (merged.empty())
    {
      s.dead = true;
      s.completed = false;
      return;
    }
    s = std::move(merged.back());
    merged.pop_back();
    for (auto & m : merged)
      spawn->push_back(std::move(m));
  }

  void step(State & s);
  void doCall(State & s, CallBase * cb);
  bool builtin(State & s, CallBase * cb, Function * f, std::vector<Val> & args);
  bool intrinsic(State & s, IntrinsicInst * ii);
  void loopHead(State & s, CallBase * cb, std::vector<Val> & args);

  APFloat
  toFP(Type * t, const Val & v)
  {
    if (!v.conc())
      unsupported("symbolic floating-point arithmetic");
    return APFloat(t->getFltSemantics(), v.c);
  }
  Val
  fpBin(unsigned op, Type * t, const Val & a, const Val & b)
  {
    APFloat x = toFP(t, a), y = toFP(t, b);
    switch (op)
    {
    case Instruction::FAdd:
      x.add(y, APFloat::rmNearestTiesToEven);
      break;
    case Instruction::FSub:
      x.subtract(y, APFloat::rmNearestTiesToEven);
      break;
    case Instruction::FMul:
      x.multiply(y, APFloat::rmNearestTiesToEven);
      break;
    case Instruction::FDiv:
      x.divide(y, APFloat::rmNearestTiesToEven);
      break;
    case Instruction::FRem:
      x.mod(y);
      break;
    }
    return Val(x.bitcastToAPInt());
  }
};

static void
flattenTo(const Val & v, Type * t, uint64_t off, std::vector<std::pair<uint64_t, Val>> & out)
{
  if (!v.agg)
  {
    unsigned n = DL->getTypeStoreSize(t);
    out.emplace_back(off, v.w() == 8 * n ? v : vZext(v, 8 * n));
    return;
  }
  if (auto st = dyn_cast<StructType>(t))
  {
    auto sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      flattenTo((*v.agg)[i], st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  Type * et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
  if (isa<VectorType>(t) && et->isIntegerTy(1))
    unsupported("store of <n x i1>");
  uint64_t es = DL->getTypeAllocSize(et);
  for (unsigned i = 0; i < v.agg->size(); i++)
    flattenTo((*v.agg)[i], et, off + i * es, out);
}

static bool
loadTyped(State & s, const Val & addr, Type * t, Val & out)
{
  if (auto st = dyn_cast<StructType>(t))
  {
    auto sl = DL->getStructLayout(st);
    out = Val();
    out.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < st->getNumElements(); i++)
    {
      Val e;
      if (!loadTyped(s, vBin(Instruction::Add, addr, Val(64, sl->getElementOffset(i))), st->getElementType(i), e))
        return false;
      out.agg->push_back(e);
    }
    return true;
  }
  if (isa<ArrayType>(t) || isa<FixedVectorType>(t))
  {
    Type * et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    unsigned n = isa<ArrayType>(t) ? t->getArrayNumElements()
                                   : cast<FixedVectorType>(t)->getNumElements();
    uint64_t es = DL->getTypeAllocSize(et);
    out = Val();
    out.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < n; i++)
    {
      Val e;
      if (!loadTyped(s, vBin(Instruction::Add, addr, Val(64, i * es)), et, e))
        return false;
      out.agg->push_back(e);
    }
    return true;
  }
  unsigned n = DL->getTypeStoreSize(t);
  Val v;
  if (!loadMem(s, addr, n, v))
    return false;
  unsigned w = widthOf(t);
  out = v.w() == w ? v : vTrunc(v, w);
  return true;
}

void
Executor::step(State & s)
{
  steps++;
  if ((steps & 0xfff) == 0)
  {
    if (since(startTime) > optTimeLimit)
      throw LimitReached{ "time limit at " + locOf(s) };
    if (steps > optMaxSteps)
      throw LimitReached{ "step limit" };
  }
  Frame & f0 = *s.stack.back();
  Instruction & I = *f0.pc;
  if (I.getDebugLoc())
    noteReached(I);
  if (optTrace)
  {
    errs() << "[" << s.stack.size() << "] " << f0.f->getName().substr(0, 60) << ": " << I << "\n";
  }
  auto next = [&]()
  {
    ++s.top().pc;
  };
  auto put = [&](Val v)
  {
    Frame & f = s.top();
    f.regs[f.info->slot[&I]] = std::move(v);
    ++f.pc;
  };
  switch (I.getOpcode())
  {
  case Instruction::Ret:
  {
    auto & r = cast<ReturnInst>(I);
    if (r.getReturnValue())
    {
      Val v = get(s, r.getReturnValue());
      doReturn(s, &v);
    }
    else
      doReturn(s, nullptr);
    return;
  }
  case Instruction::Br:
  {
    auto & br = cast<BranchInst>(I);
    if (br.isUnconditional())
    {
      enter(s, br.getSuccessor(0));
      return;
    }
    Val c = get(s, br.getCondition());
    if (c.conc())
    {
      enter(s, br.getSuccessor(c.c.isZero() ? 1 : 0));
      return;
    }
    BasicBlock * mp = mergePoint(s, &I);
    if (mp)
    {
      size_t n0 = s.pc.size();
      std::vector<State> two;
      auto saved = spawn;
      spawn = &two;
      size_t depth = s.stack.size();
      bool forked = false;
      {
        size_t before = forks;
        fork(
            s,
            c.s,
            [&](State & t)
            {
              enter(t, br.getSuccessor(0));
            },
            [&](State & t)
            {
              enter(t, br.getSuccessor(1));
            });
        forked = forks != before;
      }
      spawn = saved;
      if (!forked)
        return;
      two.push_back(std::move(s));
      s.dead = false;
      runRegion(std::move(two), Stop{ depth, mp }, n0, s);
      return;
    }
    fork(
        s,
        c.s,
        [&](State & t)
        {
          enter(t, br.getSuccessor(0));
        },
        [&](State & t)
        {
          enter(t, br.getSuccessor(1));
        });
    return;
  }
  case Instruction::Switch:
  {
    auto & sw = cast<SwitchInst>(I);
    Val c = get(s, sw.getCondition());
    if (c.conc())
    {
      BasicBlock * d = sw.getDefaultDest();
      for (auto & cs : sw.cases())
        if (cs.getCaseValue()->getValue() == c.c)
          d = cs.getCaseSuccessor();
      enter(s, d);
      return;
    }
    // group by target
    std::vector<std::pair<BasicBlock *, Ast>> groups;
    Ast none = zTrue;
    for (auto & cs : sw.cases())
    {
      Ast e = asBool(vICmp(CmpInst::ICMP_EQ, c, Val(cs.getCaseValue()->getValue())));
      none = mkAnd(none, mkNot(e));
      bool found = false;
      for (auto & g : groups)
        if (g.first == cs.getCaseSuccessor())
        {
          g.second = mkOr(g.second, e);
          found = true;
        }
      if (!found)
        groups.emplace_back(cs.getCaseSuccessor(), e);
    }
    {
      bool found = false;
      for (auto & g : groups)
        if (g.first == sw.getDefaultDest())
        {
          g.second = mkOr(g.second, none);
          found = true;
        }
      if (!found)
        groups.emplace_back(sw.getDefaultDest(), none);
    }
    std::vector<State> outs;
    size_t n0 = s.pc.size();
    size_t depth = s.stack.size();
    for (auto & g : groups)
    {
      auto r = decide(s.pc, g.second);
      if (r == Z3_L_UNDEF)
        unsupported("solver gave no answer on a switch");
      if (r == Z3_L_FALSE)
        continue;
      State t = s;
      t.pc.push_back(g.second);
      enter(t, g.first);
      outs.push_back(std::move(t));
    }
    if (outs.empty())
    {
      s.dead = true;
      pathsInfeasible++;
      return;
    }
    if (outs.size() == 1)
    {
      s = std::move(outs[0]);
      return;
    }
    forks += outs.size() - 1;
    if (BasicBlock * mp = mergePoint(s, &I))
    {
      runRegion(std::move(outs), Stop{ depth, mp }, n0, s);
      return;
    }
    s = std::move(outs.back());
    outs.pop_back();
    for (auto & o : outs)
      spawn->push_back(std::move(o));
    return;
  }
  case Instruction::Unreachable:
    failPath(s, "no-unreachable", "unreachable code is executed");
    return;
  case Instruction::Call:
  case Instruction::Invoke:
    doCall(s, cast<CallBase>(&I));
    return;
  case Instruction::Resume:
  {
    Val v = get(s, cast<ResumeInst>(I).getValue());
    uint64_t obj = (*v.agg)[0].u();
    if (s.stack.size() == 1)
    {
      auto t = typeinfoAt(s.excType[obj]);
      failPath(
          s,
          "no-uncaught-exception",
          "exception of type " + (t ? demangled(t->getName()) : std::string("?"))
              + " leaves the function under contract; thrown at " + lastThrow);
      return;
    }
    unwind(s, obj, true);
    return;
  }
  case Instruction::LandingPad:
    unsupported("landingpad reached directly");
  case Instruction::Alloca:
  {
    auto & a = cast<AllocaInst>(I);
    Val n = get(s, a.getArraySize());
    if (!n.conc())
    {
      concretize(s, a.getArraySize());
      return;
    }
    uint64_t sz = DL->getTypeAllocSize(a.getAllocatedType()) * n.u();
    uint64_t p = allocate(s, sz, false, "local", std::max<uint64_t>(16, a.getAlign().value()));
    s.top().allocas.push_back(p);
    put(Val(64, p));
    return;
  }
  case Instruction::Load:
  {
    auto & l = cast<LoadInst>(I);
    Val v;
    if (!loadTyped(s, get(s, l.getPointerOperand()), l.getType(), v))
      return;
    put(v);
    return;
  }
  case Instruction::Store:
  {
    auto & st = cast<StoreInst>(I);
    Val addr = get(s, st.getPointerOperand());
    Val v = get(s, st.getValueOperand());
    std::vector<std::pair<uint64_t, Val>> parts;
    flattenTo(v, st.getValueOperand()->getType(), 0, parts);
    for (auto & [o, x] : parts)
      if (!storeMem(s, vBin(Instruction::Add, addr, Val(64, o)), x))
        return;
    next();
    return;
  }
  case Instruction::GetElementPtr:
  {
    auto g = cast<GEPOperator>(&I);
    put(gepOffset(
        g,
        [&](const Value * v)
        {
          return get(s, v);
        }));
    return;
  }
  case Instruction::PHI:
    unsupported("phi reached directly");
  case Instruction::Select:
  {
    auto & se = cast<SelectInst>(I);
    Val c = get(s, se.getCondition());
    Val a = get(s, se.getTrueValue()), b = get(s, se.getFalseValue());
    if (c.agg)
    {
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < c.agg->size(); i++)
        r.agg->push_back(vIte(asBool((*c.agg)[i]), (*a.agg)[i], (*b.agg)[i]));
      put(r);
      return;
    }
    put(c.conc() ? (c.c.isZero() ? b : a) : vIte(c.s, a, b));
    return;
  }
  case Instruction::ICmp:
  {
    auto & ic = cast<ICmpInst>(I);
    Val a = get(s, ic.getOperand(0)), b = get(s, ic.getOperand(1));
    if (a.agg)
    {
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < a.agg->size(); i++)
        r.agg->push_back(vICmp(ic.getPredicate(), (*a.agg)[i], (*b.agg)[i]));
      put(r);
      return;
    }
    put(vICmp(ic.getPredicate(), a, b));
    return;
  }
  case Instruction::FCmp:
  {
    auto & fc = cast<FCmpInst>(I);
    Type * t = fc.getOperand(0)->getType();
    put(Val(
        1,
        FCmpInst::compare(
            toFP(t, get(s, fc.getOperand(0))),
            toFP(t, get(s, fc.getOperand(1))),
            fc.getPredicate())));
    return;
  }
  case Instruction::FAdd:
  case Instruction::FSub:
  case Instruction::FMul:
  case Instruction::FDiv:
  case Instruction::FRem:
    put(fpBin(I.getOpcode(), I.getType(), get(s, I.getOperand(0)), get(s, I.getOperand(1))));
    return;
  case Instruction::FNeg:
  {
    APFloat x = toFP(I.getType(), get(s, I.getOperand(0)));
    x.changeSign();
    put(Val(x.bitcastToAPInt()));
    return;
  }
  case Instruction::Trunc:
  case Instruction::ZExt:
  case Instruction::SExt:
  case Instruction::IntToPtr:
  case Instruction::PtrToInt:
  case Instruction::BitCast:
  case Instruction::AddrSpaceCast:
  {
    Val v = get(s, I.getOperand(0));
    auto conv = [&](const Val & v, unsigned w)
    {
      switch (I.getOpcode())
      {
      case Instruction::Trunc:
        return vTrunc(v, w);
      case Instruction::ZExt:
        return vZext(v, w);
      case Instruction::SExt:
        return vSext(v, w);
      default:
        return v.w() < w ? vZext(v, w) : vTrunc(v, w);
      }
    };
    if (v.agg || I.getType()->isVectorTy())
    {
      if (I.getOpcode() == Instruction::BitCast)
      {
        // via bits
        Val bits;
        if (v.agg)
        {
          bits = (*v.agg)[0];
          for (size_t i = 1; i < v.agg->size(); i++)
            bits = vConcat((*v.agg)[i], bits);
        }
        else
          bits = v;
        if (auto vt = dyn_cast<FixedVectorType>(I.getType()))
        {
          unsigned ew = widthOf(vt->getElementType());
          Val r;
          r.agg = std::make_shared<std::vector<Val>>();
          for (unsigned i = 0; i < vt->getNumElements(); i++)
            r.agg->push_back(vExtract(bits, i * ew, ew));
          put(r);
        }
        else
          put(bits);
        return;
      }
      unsigned ew = widthOf(cast<VectorType>(I.getType())->getElementType());
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      for (auto & e : *v.agg)
        r.agg->push_back(conv(e, ew));
      put(r);
      return;
    }
    put(conv(v, widthOf(I.getType())));
    return;
  }
  case Instruction::FPExt:
  case Instruction::FPTrunc:
  {
    APFloat x = toFP(I.getOperand(0)->getType(), get(s, I.getOperand(0)));
    bool lose;
    x.convert(I.getType()->getFltSemantics(), APFloat::rmNearestTiesToEven, &lose);
    put(Val(x.bitcastToAPInt()));
    return;
  }
  case Instruction::SIToFP:
  case Instruction::UIToFP:
  {
    Val v = get(s, I.getOperand(0));
    if (!v.conc())
    {
      // profiling-like uses (load factors) need a value: enumerate
      concretize(s, I.getOperand(0), 64);
      return;
    }
    APFloat x(I.getType()->getFltSemantics());
    x.convertFromAPInt(v.c, I.getOpcode() == Instruction::SIToFP, APFloat::rmNearestTiesToEven);
    put(Val(x.bitcastToAPInt()));
    return;
  }
  case Instruction::FPToSI:
  case Instruction::FPToUI:
  {
    APFloat x = toFP(I.getOperand(0)->getType(), get(s, I.getOperand(0)));
    APSInt r(widthOf(I.getType()), I.getOpcode() == Instruction::FPToUI);
    bool exact;
    x.convertToInteger(r, APFloat::rmTowardZero, &exact);
    put(Val(APInt(r)));
    return;
  }
  case Instruction::ExtractValue:
  {
    auto & ev = cast<ExtractValueInst>(I);
    Val v = get(s, ev.getAggregateOperand());
    for (unsigned i : ev.indices())
    {
      Val t = (*v.agg)[i];
      v = t;
    }
    put(v);
    return;
  }
  case Instruction::InsertValue:
  {
    auto & iv = cast<InsertValueInst>(I);
    Val v = get(s, iv.getAggregateOperand());
    Val x = get(s, iv.getInsertedValueOperand());
    std::function<Val(const Val &, size_t)> ins = [&](const Val & a, size_t k) -> Val
    {
      if (k == iv.getNumIndices())
        return x;
      Val r;
      r.agg = std::make_shared<std::vector<Val>>(*a.agg);
      (*r.agg)[iv.getIndices()[k]] = ins((*a.agg)[iv.getIndices()[k]], k + 1);
      return r;
    };
    put(ins(v, 0));
    return;
  }
  case Instruction::ExtractElement:
  {
    Val v = get(s, I.getOperand(0));
    Val i = get(s, I.getOperand(1));
    if (!i.conc())
    {
      concretize(s, I.getOperand(1));
      return;
    }
    put((*v.agg)[i.u()]);
    return;
  }
  case Instruction::InsertElement:
  {
    Val v = get(s, I.getOperand(0));
    Val i = get(s, I.getOperand(2));
    if (!i.conc())
    {
      concretize(s, I.getOperand(2));
      return;
    }
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(*v.agg);
    (*r.agg)[i.u()] = get(s, I.getOperand(1));
    put(r);
    return;
  }
  case Instruction::ShuffleVector:
  {
    auto & sv = cast<ShuffleVectorInst>(I);
    Val a = get(s, sv.getOperand(0)), b = get(s, sv.getOperand(1));
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (int m : sv.getShuffleMask())
    {
      if (m < 0)
        r.agg->push_back((*a.agg)[0]);
      else if ((size_t)m < a.agg->size())
        r.agg->push_back((*a.agg)[m]);
      else
        r.agg->push_back((*b.agg)[m - a.agg->size()]);
    }
    put(r);
    return;
  }
  case Instruction::Freeze:
    put(get(s, I.getOperand(0)));
    return;
  case Instruction::Fence:
    next();
    return;
  case Instruction::AtomicRMW:
  {
    auto & rm = cast<AtomicRMWInst>(I);
    Val addr = get(s, rm.getPointerOperand());
    Val x = get(s, rm.getValOperand()), old;
    if (!loadTyped(s, addr, rm.getType(), old))
      return;
    Val nv;
    switch (rm.getOperation())
    {
    case AtomicRMWInst::Add:
      nv = vBin(Instruction::Add, old, x);
      break;
    case AtomicRMWInst::Sub:
      nv = vBin(Instruction::Sub, old, x);
      break;
    case AtomicRMWInst::Xchg:
      nv = x;
      break;
    case AtomicRMWInst::And:
      nv = vBin(Instruction::And, old, x);
      break;
    case AtomicRMWInst::Or:
      nv = vBin(Instruction::Or, old, x);
      break;
    default:
      unsupported("atomicrmw");
    }
    if (!storeMem(s, addr, nv))
      return;
    put(old);
    return;
  }
  case Instruction::AtomicCmpXchg:
  {
    auto & cx = cast<AtomicCmpXchgInst>(I);
    Val addr = get(s, cx.getPointerOperand());
    Val old;
    if (!loadTyped(s, addr, cx.getCompareOperand()->getType(), old))
      return;
    Val eq = vICmp(CmpInst::ICMP_EQ, old, get(s, cx.getCompareOperand()));
    Val nv = vIte(asBool(eq), get(s, cx.getNewValOperand()), old);
    if (!storeMem(s, addr, nv))
      return;
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(std::vector<Val>{ old, eq });
    put(r);
    return;
  }
  default:
    if (I.isBinaryOp())
    {
      Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
      auto one = [&](const Val & x, const Val & y, Val & r)
      {
        unsigned op = I.getOpcode();
        if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem
            || op == Instruction::SRem)
        {
          Val nz = vICmp(CmpInst::ICMP_NE, y, Val(y.w(), 0));
          if (!require(s, asBool(nz), "no-division-by-zero", "division by zero"))
            return false;
          if (op == Instruction::SDiv || op == Instruction::SRem)
          {
            Ast ov = mkAnd(
                asBool(vICmp(CmpInst::ICMP_EQ, x, Val(APInt::getSignedMinValue(x.w())))),
                asBool(vICmp(CmpInst::ICMP_EQ, y, Val(APInt::getAllOnes(y.w())))));
            if (!require(s, Z3_simplify(C, mkNot(ov)), "no-division-overflow", "INT_MIN / -1"))
              return false;
          }
        }
        r = vBin(op, x, y);
        return true;
      };
      if (a.agg)
      {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        for (size_t i = 0; i < a.agg->size(); i++)
        {
          Val x;
          if (!one((*a.agg)[i], (*b.agg)[i], x))
            return;
          r.agg->push_back(x);
        }
        put(r);
        return;
      }
      Val r;
      if (!one(a, b, r))
        return;
      put(r);
      return;
    }
    unsupported(std::string("instruction ") + I.getOpcodeName());
  }
}

bool
Executor::intrinsic(State & s, IntrinsicInst * ii)
{
  auto arg = [&](unsigned i)
  {
    return get(s, ii->getArgOperand(i));
  };
  auto put = [&](Val v)
  {
    finishCall(s, &v);
    return true;
  };
  auto skip = [&]()
  {
    finishCall(s, nullptr);
    return true;
  };
  switch (ii->getIntrinsicID())
  {
  case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value:
  case Intrinsic::dbg_label:
  case Intrinsic::dbg_assign:
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::invariant_start:
  case Intrinsic::invariant_end:
  case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::assume: // a fact the compiler derived; sound to ignore
  case Intrinsic::donothing:
  case Intrinsic::prefetch:
  case Intrinsic::stackrestore:
    return skip();
  case Intrinsic::stacksave:
    return put(Val(64, 0));
  case Intrinsic::expect:
  case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group:
  case Intrinsic::ptrmask:
    return put(arg(0));
  case Intrinsic::is_constant:
    return put(Val(1, 0));
  case Intrinsic::objectsize:
    return put(Val(APInt::getAllOnes(widthOf(ii->getType()))));
  case Intrinsic::eh_typeid_for:
    return put(Val(32, typeId(arg(0).u())));
  case Intrinsic::trap:
    failPath(s, "no-abort", "trap is executed");
    return true;
  case Intrinsic::memcpy:
  case Intrinsic::memcpy_inline:
  case Intrinsic::memmove:
  {
    Val n = arg(2);
    if (!n.conc())
    {
      concretize(s, ii->getArgOperand(2));
      return true;
    }
    if (copyMem(s, arg(0), arg(1), n.u()))
      return skip();
    return true;
  }
  case Intrinsic::memset:
  {
    Val n = arg(2);
    if (!n.conc())
    {
      concretize(s, ii->getArgOperand(2));
      return true;
    }
    Val d = arg(0), b = arg(1);
    if (n.u() == 0)
      return skip();
    if (d.conc() && b.conc())
    {
      std::vector<Target> t;
      if (!resolve(s, d, n.u(), true, t))
        return true;
      t[0].obj->clearRange(t[0].off, n.u());
      std::fill_n(t[0].obj->bytes.begin() + t[0].off, n.u(), uint8_t(b.u()));
      return skip();
    }
    for (uint64_t i = 0; i < n.u(); i++)
      if (!storeMem(s, vBin(Instruction::Add, d, Val(64, i)), b))
        return true;
    return skip();
  }
  case Intrinsic::umin:
  case Intrinsic::umax:
  case Intrinsic::smin:
  case Intrinsic::smax:
  {
    Val a = arg(0), b = arg(1);
    if (a.agg)
      unsupported("vector min/max");
    CmpInst::Predicate p;
    switch (ii->getIntrinsicID())
    {
    case Intrinsic::umin:
      p = CmpInst::ICMP_ULT;
      break;
    case Intrinsic::umax:
      p = CmpInst::ICMP_UGT;
      break;
    case Intrinsic::smin:
      p = CmpInst::ICMP_SLT;
      break;
    default:
      p = CmpInst::ICMP_SGT;
      break;
    }
    return put(vIte(asBool(vICmp(p, a, b)), a, b));
  }
  case Intrinsic::abs:
  {
    Val a = arg(0);
    return put(vIte(
        asBool(vICmp(CmpInst::ICMP_SLT, a, Val(a.w(), 0))),
        vBin(Instruction::Sub, Val(a.w(), 0), a),
        a));
  }
  case Intrinsic::usub_sat:
  {
    Val a = arg(0), b = arg(1);
    return put(vIte(
        asBool(vICmp(CmpInst::ICMP_ULT, a, b)),
        Val(a.w(), 0),
        vBin(Instruction::Sub, a, b)));
  }
  case Intrinsic::uadd_sat:
  {
    Val a = arg(0), b = arg(1);
    Val r = vBin(Instruction::Add, a, b);
    return put(
        vIte(asBool(vICmp(CmpInst::ICMP_ULT, r, a)), Val(APInt::getAllOnes(a.w())), r));
  }
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::usub_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::umul_with_overflow:
  case Intrinsic::smul_with_overflow:
  {
    auto bo = cast<BinaryOpIntrinsic>(ii);
    Val a = arg(0), b = arg(1);
    bool sg = bo->isSigned();
    unsigned w = a.w();
    unsigned W = bo->getBinaryOp() == Instruction::Mul ? 2 * w : w + 1;
    Val x = sg ? vSext(a, W) : vZext(a, W), y = sg ? vSext(b, W) : vZext(b, W);
    Val wide = vBin(bo->getBinaryOp(), x, y);
    Val r = vTrunc(wide, w);
    Val back = sg ? vSext(r, W) : vZext(r, W);
    Val ov = vICmp(CmpInst::ICMP_NE, wide, back);
    Val res;
    res.agg = std::make_shared<std::vector<Val>>(std::vector<Val>{ r, ov });
    return put(res);
  }
  case Intrinsic::ctpop:
  case Intrinsic::ctlz:
  case Intrinsic::cttz:
  case Intrinsic::bswap:
  case Intrinsic::bitreverse:
  {
    Val a = arg(0);
    unsigned w = a.w();
    if (a.conc())
    {
      switch (ii->getIntrinsicID())
      {
      case Intrinsic::ctpop:
        return put(Val(w, a.c.popcount()));
      case Intrinsic::ctlz:
        return put(Val(w, a.c.countl_zero()));
      case Intrinsic::cttz:
        return put(Val(w, a.c.countr_zero()));
      case Intrinsic::bswap:
        return put(Val(a.c.byteSwap()));
      default:
        return put(Val(a.c.reverseBits()));
      }
    }
    Val r(w, 0);
    if (ii->getIntrinsicID() == Intrinsic::ctpop)
      for (unsigned i = 0; i < w; i++)
        r = vBin(Instruction::Add, r, vZext(vExtract(a, i, 1), w));
    else if (ii->getIntrinsicID() == Intrinsic::ctlz)
    {
      r = Val(w, w);
      for (unsigned i = 0; i < w; i++)
        r = vIte(asBool(vExtract(a, i, 1)), Val(w, w - 1 - i), r);
    }
    else if (ii->getIntrinsicID() == Intrinsic::cttz)
    {
      r = Val(w, w);
      for (unsigned i = w; i-- > 0;)
        r = vIte(asBool(vExtract(a, i, 1)), Val(w, i), r);
    }
    else
      unsupported("symbolic bswap");
    return put(r);
  }
  case Intrinsic::fshl:
  case Intrinsic::fshr:
  {
    Val a = arg(0), b = arg(1), c = arg(2);
    unsigned w = a.w();
    Val cc = vConcat(a, b);
    Val sh = vZext(vBin(Instruction::URem, c, Val(w, w)), 2 * w);
    if (ii->getIntrinsicID() == Intrinsic::fshl)
      return put(vExtract(vBin(Instruction::Shl, cc, sh), w, w));
    return put(vExtract(vBin(Instruction::LShr, cc, sh), 0, w));
  }
  case Intrinsic::fabs:
  {
    APFloat x = toFP(ii->getType(), arg(0));
    x.clearSign();
    return put(Val(x.bitcastToAPInt()));
  }
  case Intrinsic::fmuladd:
  case Intrinsic::fma:
  {
    Type * t = ii->getType();
    return put(fpBin(Instruction::FAdd, t, fpBin(Instruction::FMul, t, arg(0), arg(1)), arg(2)));
  }
  case Intrinsic::ceil:
  case Intrinsic::floor:
  {
    APFloat x = toFP(ii->getType(), arg(0));
    x.roundToIntegral(
        ii->getIntrinsicID() == Intrinsic::ceil ? APFloat::rmTowardPositive
                                                : APFloat::rmTowardNegative);
    return put(Val(x.bitcastToAPInt()));
  }
  case Intrinsic::vector_reduce_or:
  case Intrinsic::vector_reduce_and:
  case Intrinsic::vector_reduce_add:
  {
    Val a = arg(0);
    unsigned op = ii->getIntrinsicID() == Intrinsic::vector_reduce_or    ? Instruction::Or
                  : ii->getIntrinsicID() == Intrinsic::vector_reduce_and ? Instruction::And
                                                                         : Instruction::Add;
    Val r = (*a.agg)[0];
    for (size_t i = 1; i < a.agg->size(); i++)
      r = vBin(op, r, (*a.agg)[i]);
    return put(r);
  }
  default:
    unsupported("intrinsic " + ii->getCalledFunction()->getName().str());
  }
}

// vf_loop_invariant(ok): placed at the head of a loop body. First arrival: check, havoc what the
// body can change (given through vf_loop_havoc before), assume. Later arrival: check, end the path.
void
Executor::loopHead(State & s, CallBase * cb, std::vector<Val> & args)
{
  (void)args;
  (void)cb;
  unsupported("vf_loop");
}

bool
Executor::builtin(State & s, CallBase * cb, Function * f, std::vector<Val> & args)
{
  StringRef n = f->getName();
  auto put = [&](Val v)
  {
    finishCall(s, &v);
    return true;
  };
  auto skip = [&]()
  {
    finishCall(s, nullptr);
    return true;
  };
  auto needConc = [&](unsigned i) // true: forked, instruction will be executed again
  {
    return !args[i].conc() && concretize(s, cb->getArgOperand(i));
  };
  if (n.starts_with("vf_"))
  {
    if (n == "vf_nondet")
    {
      unsigned w = args[0].u();
      std::string nm = cstr(s, args[1]);
      Val v = nondet(s, w == 0 ? 64 : w, nm);
      return put(vZext(v, 64));
    }
    if (n == "vf_choose")
    {
      if (needConc(0))
        return true;
      uint64_t k = args[0].u();
      std::string nm = cstr(s, args[1]);
      if (k == 0)
      {
        s.dead = true;
        return true;
      }
      forks += k - 1;
      for (uint64_t i = 1; i < k; i++)
      {
        State t = s;
        t.inputs.push_back({ nm, 64, Val(64, i) });
        Val v(64, i);
        finishCall(t, &v);
        spawn->push_back(std::move(t));
      }
      s.inputs.push_back({ nm, 64, Val(64, 0) });
      return put(Val(64, 0));
    }
    if (n == "vf_assume")
    {
      Val c = vICmp(CmpInst::ICMP_NE, args[0], Val(args[0].w(), 0));
      if (c.conc())
      {
        if (c.c.isZero())
        {
          s.dead = true;
          pathsInfeasible++;
          return true;
        }
        return skip();
      }
      auto r = decide(s.pc, c.s);
      if (r == Z3_L_UNDEF)
        unsupported("solver gave no answer on an assumption");
      if (r == Z3_L_FALSE)
      {
        s.dead = true;
        pathsInfeasible++;
        return true;
      }
      s.pc.push_back(c.s);
      return skip();
    }
    if (n == "vf_assert")
    {
      std::string nm = cstr(s, args[1]);
      Val c = vICmp(CmpInst::ICMP_NE, args[0], Val(args[0].w(), 0));
      if (!require(s, asBool(c), nm, "the postcondition does not hold"))
        return true;
      return skip();
    }
    if (n == "vf_cover")
    {
      covers[cstr(s, args[0])]++;
      return skip();
    }
    if (n == "vf_expect_cover")
    {
      covers[cstr(s, args[0])];
      return skip();
    }
    if (n == "vf_stop")
    {
      pathsCompleted++;
      s.dead = true;
      return true;
    }
    if (n == "vf_abort_is_report")
    {
      if (args[0].u() & 1)
        s.ghost["$abort_ok"] = Val(1, 1);
      else
        s.ghost.erase("$abort_ok");
      return skip();
    }
    if (n == "vf_is_native")
      return put(Val(32, 0));
    if (n == "vf_is_const")
      return put(Val(32, args[0].conc() ? 1 : 0));
    if (n == "vf_and" || n == "vf_or" || n == "vf_implies")
    {
      Ast a = asBool(vICmp(CmpInst::ICMP_NE, args[0], Val(args[0].w(), 0)));
      Ast b = asBool(vICmp(CmpInst::ICMP_NE, args[1], Val(args[1].w(), 0)));
      Ast r = n == "vf_and" ? mkAnd(a, b) : n == "vf_or" ? mkOr(a, b) : mkOr(mkNot(a), b);
      return put(vZext(fromBool(r), widthOf(cb->getType())));
    }
    if (n == "vf_ite64")
      return put(
          vIte(asBool(vICmp(CmpInst::ICMP_NE, args[0], Val(args[0].w(), 0))), args[1], args[2]));
    // mathematical spec functions, total
    if (n == "vf_udiv64" || n == "vf_urem64" || n == "vf_sdiv64" || n == "vf_srem64")
    {
      unsigned op = n == "vf_udiv64"   ? Instruction::UDiv
                    : n == "vf_urem64" ? Instruction::URem
                    : n == "vf_sdiv64" ? Instruction::SDiv
                                       : Instruction::SRem;
      Ast x = asBV(args[0]), y = asBV(args[1]);
      Ast r = op == Instruction::UDiv   ? Z3_mk_bvudiv(C, x, y)
              : op == Instruction::URem ? Z3_mk_bvurem(C, x, y)
              : op == Instruction::SDiv ? Z3_mk_bvsdiv(C, x, y)
                                        : Z3_mk_bvsrem(C, x, y);
      return put(fromBV(64, Z3_simplify(C, r)));
    }
    if (n == "vf_print")
    {
      if (optVerbose)
      {
        errs() << "vf_print " << cstr(s, args[0]) << " ";
        if (args[1].conc())
          errs() << args[1].u() << "\n";
        else
          errs() << Z3_ast_to_string(C, Z3_simplify(C, asBV(args[1]))) << "\n";
      }
      return skip();
    }
    unsupported("vf function " + n.str());
  }
  // ---- allocation
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t"
      || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t")
  {
    if (needConc(0))
      return true;
    if (args[0].u() > (1ull << 28))
    {
      throwNamed(s, "_ZTISt9bad_alloc");
      return true;
    }
    return put(Val(64, allocate(s, args[0].u(), true, "heap")));
  }
  if (n == "calloc")
  {
    if (needConc(0) || needConc(1))
      return true;
    uint64_t a = allocate(s, args[0].u() * args[1].u(), true, "heap");
    auto & o = *s.mem[a];
    std::fill(o.bytes.begin(), o.bytes.end(), 0);
    return put(Val(64, a));
  }
  if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"))
  {
    if (needConc(0))
      return true;
    uint64_t a = args[0].u();
    if (a)
    {
      auto o = findObj(s, a, true);
      if (!o || o->base != a || !o->heap || o->freed)
      {
        failPath(
            s,
            "memory-safety",
            o && o->freed ? "double free" : "free of something that was not allocated");
        return true;
      }
      o->freed = true;
      o->bytes.clear();
      o->bytes.shrink_to_fit();
      o->sym.clear();
      o->bytes.assign(0, 0);
      uint64_t sz = o->size;
      (void)sz;
    }
    return skip();
  }
  if (n == "memcpy" || n == "memmove")
  {
    if (needConc(2))
      return true;
    Val d = args[0];
    if (copyMem(s, args[0], args[1], args[2].u()))
      return put(d);
    return true;
  }
  if (n == "memset")
  {
    if (needConc(2))
      return true;
    for (uint64_t i = 0; i < args[2].u(); i++)
      if (!storeMem(s, vBin(Instruction::Add, args[0], Val(64, i)), vTrunc(args[1], 8)))
        return true;
    return put(args[0]);
  }
  if (n == "memcmp" || n == "bcmp" || n == "strncmp")
  {
    if (needConc(2))
      return true;
    uint64_t k = args[2].u();
    std::vector<Val> a(k), b(k);
    if (n == "strncmp")
    {
      std::string x = cstr(s, args[0]), y = cstr(s, args[1]);
      return put(Val(APInt(32, strncmp(x.c_str(), y.c_str(), k), true)));
    }
    for (uint64_t i = 0; i < k; i++)
    {
      if (!loadMem(s, vBin(Instruction::Add, args[0], Val(64, i)), 1, a[i]))
        return true;
      if (!loadMem(s, vBin(Instruction::Add, args[1], Val(64, i)), 1, b[i]))
        return true;
    }
    Val r(32, 0);
    for (uint64_t i = k; i-- > 0;)
    {
      Val d = vBin(Instruction::Sub, vZext(a[i], 32), vZext(b[i], 32));
      Val eq = vICmp(CmpInst::ICMP_EQ, a[i], b[i]);
      r = vIte(asBool(eq), r, d);
    }
    return put(r);
  }
  if (n == "strlen")
  {
    // scan; a byte that may or may not be zero forks
    for (uint64_t i = 0;; i++)
    {
      Val b;
      if (!loadMem(s, vBin(Instruction::Add, args[0], Val(64, i)), 1, b))
        return true;
      if (b.conc())
      {
        if (b.u() == 0)
          return put(Val(64, i));
        continue;
      }
      Ast z = Z3_mk_eq(C, b.s, numeral(APInt(8, 0)));
      auto canZ = decide(s.pc, z);
      if (canZ == Z3_L_FALSE)
        continue;
      if (canZ == Z3_L_UNDEF)
        unsupported("strlen");
      State t = s;
      t.pc.push_back(z);
      Val v(64, i);
      finishCall(t, &v);
      spawn->push_back(std::move(t));
      forks++;
      Ast nz = mkNot(z);
      if (decide(s.pc, nz) != Z3_L_TRUE)
      {
        s.dead = true;
        return true;
      }
      s.pc.push_back(nz);
    }
  }
  if (n == "strcmp")
  {
    std::string x = cstr(s, args[0]), y = cstr(s, args[1]);
    return put(Val(APInt(32, strcmp(x.c_str(), y.c_str()), true)));
  }
  if (n == "memchr")
  {
    if (needConc(2) || needConc(0))
      return true;
    for (uint64_t i = 0; i < args[2].u(); i++)
    {
      Val b;
      if (!loadMem(s, vBin(Instruction::Add, args[0], Val(64, i)), 1, b))
        return true;
      if (!b.conc() || !args[1].conc())
        unsupported("symbolic memchr");
      if (b.u() == (args[1].u() & 0xff))
        return put(Val(64, args[0].u() + i));
    }
    return put(Val(64, 0));
  }
  if (n == "getenv" || n == "secure_getenv") // no configuration through the environment
    return put(Val(64, 0));
  // ---- failure
  if ((n == "__assert_fail" || n == "abort") && s.ghost.count("$abort_ok"))
  {
    pathsCompleted++;
    s.dead = true;
    return true;
  }
  if (n == "__assert_fail")
  {
    failPath(s, "no-assert-failure", "assert(" + cstr(s, args[0]) + ") fails");
    return true;
  }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "exit"
      || n == "_exit" || n == "__clang_call_terminate" || n.starts_with("_ZSt21__glibcxx_assert_fail"))
  {
    failPath(s, "no-abort", n.str() + " is called");
    return true;
  }
  // ---- exceptions
  if (n == "__cxa_allocate_exception")
  {
    uint64_t p = allocate(s, args[0].u() + 64, true, "exception");
    return put(Val(64, p));
  }
  if (n == "__cxa_free_exception")
    return skip();
  if (n == "__cxa_throw")
  {
    uint64_t p = args[0].u();
    s.excType[p] = args[1].u();
    lastThrow = locOf(s);
    unwind(s, p, false);
    return true;
  }
  if (n == "__cxa_rethrow")
  {
    if (s.caught.empty())
      unsupported("rethrow");
    uint64_t p = s.caught.back().addr;
    s.caught.pop_back();
    unwind(s, p, false);
    return true;
  }
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr")
  {
    if (n == "__cxa_begin_catch")
      s.caught.push_back({ args[0].u(), s.excType[args[0].u()] });
    return put(args[0]);
  }
  if (n == "__cxa_end_catch")
  {
    if (!s.caught.empty())
      s.caught.pop_back();
    return skip();
  }
  if (n == "__cxa_guard_acquire")
  {
    Val b;
    if (!loadMem(s, args[0], 1, b))
      return true;
    return put(Val(32, b.conc() && b.u() ? 0 : 1));
  }
  if (n == "__cxa_guard_release")
  {
    if (!storeMem(s, args[0], Val(8, 1)))
      return true;
    return skip();
  }
  if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit"
      || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev")
    return skip();
  if (n == "__dynamic_cast")
  {
    if (needConc(0))
      return true;
    uint64_t r;
    if (!dynamicCast(s, args[0].u(), args[2].u(), r))
      return true;
    return put(Val(64, r));
  }
  if (n == "__cxa_bad_cast")
  {
    throwNamed(s, "_ZTISt8bad_cast");
    return true;
  }
  if (n == "__cxa_throw_bad_array_new_length" || n == "_ZSt28__throw_bad_array_new_lengthv"
      || n == "_ZSt17__throw_bad_allocv")
  {
    throwNamed(s, "_ZTISt9bad_alloc");
    return true;
  }
  if (n == "_ZSt20__throw_length_errorPKc")
  {
    throwNamed(s, "_ZTISt12length_error");
    return true;
  }
  if (n == "_ZSt19__throw_logic_errorPKc")
  {
    throwNamed(s, "_ZTISt11logic_error");
    return true;
  }
  if (n == "_ZSt20__throw_out_of_rangePKc" || n == "_ZSt24__throw_out_of_range_fmtPKcz")
  {
    throwNamed(s, "_ZTISt12out_of_range");
    return true;
  }
  if (n == "_ZSt25__throw_bad_function_callv")
  {
    throwNamed(s, "_ZTISt17bad_function_call");
    return true;
  }
  // library exception objects carry no state here
  {
    std::string d = demangled(n);
    static const char * exc[] = { "std::runtime_error::", "std::logic_error::", "std::range_error::",
                                  "std::out_of_range::",  "std::invalid_argument::",
                                  "std::domain_error::", "std::length_error::", "std::exception::" };
    for (auto e : exc)
      if (d.rfind(e, 0) == 0)
        return skip();
    if (d.rfind("jlm::unreachable(", 0) == 0)
    {
      if (s.ghost.count("$abort_ok"))
      {
        pathsCompleted++;
        s.dead = true;
        return true;
      }
      failPath(s, "no-unreachable", "JLM_UNREACHABLE(" + cstr(s, args[0]) + ")");
      return true;
    }
    if (d == "std::chrono::_V2::system_clock::now()" || d == "std::chrono::_V2::steady_clock::now()")
    {
      static uint64_t tick = 1000;
      tick += 1000;
      return put(Val(64, tick));
    }
    // Functions that only build text for humans: an arbitrary (empty) string.
    if (f->arg_size() >= 1 && f->hasParamAttribute(0, Attribute::StructRet))
    {
      uint64_t p = args[0].u();
      if (!storeMem(s, Val(64, p), Val(64, p + 16)) || !storeMem(s, Val(64, p + 8), Val(64, 0))
          || !storeMem(s, Val(64, p + 16), Val(8, 0)))
        return true;
      if (d.find("debug_string") != std::string::npos || d.find("strfmt") != std::string::npos
          || d.find("DebugString") != std::string::npos || d.find("ToString") != std::string::npos
          || d.find("to_string") != std::string::npos)
        return skip();
    }
    unsupported("external function " + d + " <- " + locOf(s).substr(0, 600));
  }
}

void
Executor::doCall(State & s, CallBase * cb)
{
  if (auto ii = dyn_cast<IntrinsicInst>(cb))
  {
    intrinsic(s, ii);
    return;
  }
  if (cb->isInlineAsm())
  {
    finishCall(s, nullptr);
    return;
  }
  Function * f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!f)
  {
    Value * cv = cb->getCalledOperand();
    if (auto ga = dyn_cast<GlobalAlias>(cv))
      f = dyn_cast<Function>(ga->getAliaseeObject());
    if (!f)
    {
      Val p = get(s, cv);
      if (!p.conc())
      {
        concretize(s, cv);
        return;
      }
      auto it = addrFunc.find(p.u());
      if (it == addrFunc.end())
      {
        failPath(s, "memory-safety", "call through a bad function pointer");
        return;
      }
      f = it->second;
    }
  }
  auto st = stubOf.find(f);
  if (st != stubOf.end())
  {
    bool inside = false;
    for (auto & fr : s.stack)
      if (fr->f == st->second)
        inside = true;
    if (!inside)
      f = st->second;
  }
  std::vector<Val> args;
  for (auto & a : cb->args())
    args.push_back(get(s, a.get()));
  if (f->isDeclaration())
  {
    builtin(s, cb, f, args);
    return;
  }
  if (infoOf(f).mergeCall && s.stack.size() > 0)
  {
    size_t n0 = s.pc.size();
    pushCall(s, f, args);
    size_t depth = s.stack.size();
    std::vector<State> one;
    one.push_back(std::move(s));
    s.dead = false;
    runRegion(std::move(one), Stop{ depth, nullptr }, n0, s);
    return;
  }
  pushCall(s, f, args);
}

// ---------------------------------------------------------------------------------------------
// Driver
// ---------------------------------------------------------------------------------------------
static bool
isTextOnly(const std::string & d)
{
  return d.find("::debug_string() const") != std::string::npos
      || d.find("jlm::util::strfmt<") != std::string::npos
      || d.find("::DebugString() const") != std::string::npos
      || d.find("::DebugString[abi") != std::string::npos;
}

static bool
stripped(const std::string & d, const std::vector<std::string> & keepText)
{
  bool text = isTextOnly(d);
  for (auto & k : keepText)
    if (d.find(k) != std::string::npos)
      text = false;
  return text || d.rfind("jlm::unreachable(", 0) == 0;
}

// ToString() of something, written with an output stream
static bool
streamsText(const Function & f, const std::string & d)
{
  if (d.find("::ToString") == std::string::npos || !f.arg_size()
      || !f.hasParamAttribute(0, Attribute::StructRet))
    return false;
  for (auto & b : f)
    for (auto & i : b)
      if (auto c = dyn_cast<CallBase>(&i))
        if (auto g = c->getCalledFunction(); g && g->getName().contains("basic_ostringstream"))
          return true;
  return false;
}

static void
stripText(Module & m, const std::vector<std::string> & keepText)
{
  for (auto & f : m)
  {
    if (f.isDeclaration())
      continue;
    auto d = demangled(f.getName());
    if (!stripped(d, keepText) && !streamsText(f, d))
      continue;
    f.deleteBody();
    f.setLinkage(GlobalValue::ExternalLinkage);
    f.setComdat(nullptr);
  }
}

static void
prepare(const std::vector<std::string> & keepText, unsigned optLevel)
{
  stripText(*M, keepText);
  // contract stubs
  std::set<std::string> stubTargets;
  for (auto & f : *M)
    if (f.getName().starts_with("vf_stub$"))
      stubTargets.insert(f.getName().substr(8).str());
  for (auto & t : stubTargets)
    if (auto f = M->getFunction(t); f && !f->isDeclaration())
    {
      f->deleteBody();
      f->setLinkage(GlobalValue::ExternalLinkage);
      f->setComdat(nullptr);
    }
  for (auto & f : *M)
  {
    if (f.isDeclaration())
      continue;
    std::string d = demangled(f.getName());
    bool noinl = stubTargets.count(f.getName().str());
    for (auto & m : optMerge)
      if (d.find(m) != std::string::npos || f.getName().contains(m))
        noinl = true;
    if (noinl)
    {
      f.removeFnAttr(Attribute::AlwaysInline);
      f.addFnAttr(Attribute::NoInline);
    }
    f.removeFnAttr(Attribute::OptimizeNone);
  }
  if (optLevel == 0)
    return;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions pto;
  pto.LoopVectorization = false;
  pto.SLPVectorization = false;
  pto.LoopUnrolling = false;
  pto.LoopInterleaving = false;
  pto.MergeFunctions = false;
  PassBuilder PB(nullptr, pto);
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager pre;
  pre.addPass(InternalizePass(
      [](const GlobalValue & gv)
      {
        return gv.getName().starts_with("proof_") || gv.getName().starts_with("vf_stub$")
            || gv.getName().starts_with("llvm.") || gv.getName() == "_Hash_bytes_keep";
      }));
  pre.addPass(GlobalDCEPass());
  pre.run(*M, MAM);
  auto mpm = PB.buildPerModuleDefaultPipeline(
      optLevel == 1 ? OptimizationLevel::O1 : OptimizationLevel::O2);
  mpm.run(*M, MAM);
}

static json::Value
resultJson(const std::string & proof, const std::string & status, const std::string & why, double wall)
{
  json::Object o;
  o["proof"] = proof;
  o["status"] = status;
  o["why"] = why;
  json::Object obs;
  for (auto & [n, r] : obligations)
    obs[n] = json::Object{ { "instances", (int64_t)r.instances },
                           { "constant", (int64_t)r.constant },
                           { "solver", (int64_t)r.solver },
                           { "failed", (int64_t)r.failed },
                           { "unknown", (int64_t)r.unknown } };
  o["obligations"] = std::move(obs);
  json::Array fs;
  for (auto & f : failures)
  {
    json::Array in;
    for (auto & [n, w, v] : f.inputs)
      in.push_back(json::Object{ { "name", n }, { "width", w }, { "value", v } });
    fs.push_back(json::Object{ { "obligation", f.obligation },
                               { "detail", f.detail },
                               { "where", f.where },
                               { "inputs", std::move(in) } });
  }
  o["failures"] = std::move(fs);
  json::Object cv;
  for (auto & [n, c] : covers)
    cv[n] = (int64_t)c;
  o["covers"] = std::move(cv);
  json::Array un;
  for (auto & u : undecided)
    un.push_back(u);
  o["undecided"] = std::move(un);
  json::Array fr;
  for (auto & r : functionsReached)
    fr.push_back(r);
  o["functions"] = std::move(fr);
  o["paths"] = (int64_t)pathsCompleted;
  o["infeasible"] = (int64_t)pathsInfeasible;
  o["forks"] = (int64_t)forks;
  o["merges"] = (int64_t)merges;
  o["loop_cuts"] = (int64_t)loopCuts;
  o["steps"] = (int64_t)steps;
  o["queries"] = (int64_t)solver.queries;
  o["queries_unsat"] = (int64_t)solver.unsatN;
  o["queries_sat"] = (int64_t)solver.satN;
  o["queries_unknown"] = (int64_t)solver.unknownN;
  o["queries_external"] = (int64_t)externalQueries;
  o["solver_s"] = solver.time;
  o["solver_max_s"] = solver.maxTime;
  o["wall_s"] = wall;
  return o;
}

static void
z3error(Z3_context c, Z3_error_code e)
{
  throw Unsupported{ std::string("z3: ") + Z3_get_error_msg(c, e) };
}

int
main(int argc, char ** argv)
{
  std::vector<std::string> inputs, libs;
  std::string proof, outFile, saveFile;
  std::vector<std::string> keepText;
  bool list = false, prepOnly = false;
  unsigned optLevel = 2;
  bool prepared = false;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]()
    {
      return std::string(argv[++i]);
    };
    if (a == "--proof")
      proof = val();
    else if (a == "--out")
      outFile = val();
    else if (a == "--list")
      list = true;
    else if (a == "--prep")
    {
      prepOnly = true;
      saveFile = val();
    }
    else if (a == "--lib")
      libs.push_back(val());
    else if (a == "--prepared")
      prepared = true;
    else if (a == "-v")
      optVerbose = true;
    else if (a == "--trace")
      optTrace = true;
    else if (a == "--time")
      optTimeLimit = atof(val().c_str());
    else if (a == "--query-timeout")
      optQueryTimeoutMs = atoi(val().c_str());
    else if (a == "--merge")
      optMerge.push_back(val());
    else if (a == "--keep-text")
      keepText.push_back(val());
    else if (a == "--max-failures")
      optMaxFailures = atoi(val().c_str());
    else if (a == "-O")
      optLevel = atoi(val().c_str());
    else if (a == "--dump-smt")
      optDumpSmt = val();
    else
      inputs.push_back(a);
  }
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> mod;
  for (auto & in : inputs)
  {
    auto m = parseIRFile(in, err, ctx);
    if (!m)
    {
      err.print("jcv", errs());
      return 3;
    }
    if (!mod)
      mod = std::move(m);
    else if (Linker::linkModules(*mod, std::move(m)))
    {
      errs() << "link error in " << in << "\n";
      return 3;
    }
  }
  if (!libs.empty())
  {
    // archive semantics: a library file is linked when it defines something that is undefined
    std::vector<std::unique_ptr<Module>> lib;
    std::unordered_map<std::string, size_t> defs;
    for (auto & in : libs)
    {
      auto m = getLazyIRFileModule(in, err, ctx);
      if (!m)
      {
        err.print("jcv", errs());
        return 3;
      }
      for (auto & gv : m->global_values())
        if (!gv.isDeclaration() && (gv.hasExternalLinkage() || gv.hasWeakLinkage()))
          defs.emplace(gv.getName().str(), lib.size());
      lib.push_back(std::move(m));
    }
    while (true)
    {
      std::set<size_t> need;
      for (auto & gv : mod->global_values())
        if (gv.isDeclaration())
        {
          auto it = defs.find(gv.getName().str());
          if (it != defs.end() && lib[it->second])
            need.insert(it->second);
        }
      if (need.empty())
        break;
      for (auto i : need)
      {
        if (auto e = lib[i]->materializeAll())
        {
          errs() << "cannot read a library file\n";
          return 3;
        }
        if (Linker::linkModules(*mod, std::move(lib[i])))
        {
          errs() << "link error\n";
          return 3;
        }
        lib[i] = nullptr;
      }
      stripText(*mod, keepText);
    }
  }
  M = mod.get();
  if (!prepared)
    prepare(keepText, optLevel);
  DL = &M->getDataLayout();
  if (prepOnly)
  {
    std::error_code ec;
    raw_fd_ostream os(saveFile, ec);
    WriteBitcodeToFile(*M, os);
    return 0;
  }
  if (list)
  {
    for (auto & f : *M)
      if (f.getName().starts_with("proof_") && !f.isDeclaration())
        outs() << f.getName() << "\n";
    return 0;
  }
  // address assignment
  uint64_t fa = 0x10000000;
  for (auto & f : *M)
  {
    globalAddr[&f] = fa;
    addrFunc[fa] = &f;
    fa += 16;
    if (f.getName().starts_with("vf_stub$"))
      if (auto t = M->getFunction(f.getName().substr(8)))
        stubOf[t] = &f;
  }
  uint64_t ga = 0x20000000;
  for (auto & g : M->globals())
  {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    ga = (ga + al - 1) / al * al;
    globalAddr[&g] = ga;
    addrGlobal[ga] = &g;
    ga += sz + 32;
    // weak undefined functions and variables are absent
  }

  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, z3error);
  boolSort = Z3_mk_bool_sort(C);
  zTrue = Z3_mk_true(C);
  zFalse = Z3_mk_false(C);
  solver.init();

  startTime = Clock::now();
  std::string status = "proved", why;
  Executor ex;
  try
  {
    Function * pf = M->getFunction(proof);
    if (!pf || pf->isDeclaration())
      unsupported("no proof function " + proof);
    State s;
    // constructors of globals
    if (auto gc = M->getNamedGlobal("llvm.global_ctors"))
    {
      std::vector<std::pair<uint64_t, Function *>> cs;
      if (auto arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto & o : arr->operands())
        {
          auto st = cast<ConstantStruct>(o);
          if (auto f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
            cs.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f);
        }
      std::stable_sort(
          cs.begin(),
          cs.end(),
          [](auto & a, auto & b)
          {
            return a.first < b.first;
          });
      for (auto & c : cs)
      {
        // run c on top of a dummy: the stack gets empty when it returns
        ex.pushCall(s, c.second, {});
        while (!s.dead)
          ex.step(s);
        if (!s.completed)
          unsupported("constructor of globals " + c.second->getName().str() + " failed");
        s.dead = s.completed = false;
      }
    }
    functionsReached.clear();
    ex.seenSp.clear();
    obligations.clear();
    failures.clear();
    steps = 0;
    startTime = Clock::now();
    ex.pushCall(s, pf, {});
    std::vector<State> out, escaped;
    ex.explore(std::move(s), Stop{}, out, escaped);
  }
  catch (Unsupported & u)
  {
    status = "error";
    why = "not supported: " + u.what;
  }
  catch (LimitReached & l)
  {
    status = "limit";
    why = l.what;
  }
  if (!failures.empty())
    status = "violated";
  else if (status == "proved" && !undecided.empty())
  {
    status = "undecided";
    why = *undecided.begin();
  }
  else if (status == "proved" && pathsCompleted == 0)
  {
    status = "vacuous";
    why = "no path reaches the end of the contract";
  }
  if (status == "proved")
    for (auto & [n, c] : covers)
      if (c == 0)
      {
        status = "vacuous";
        why = "cover " + n + " is not reached";
      }
  auto j = resultJson(proof, status, why, since(startTime));
  std::string text;
  raw_string_ostream os(text);
  os << formatv("{0:2}", j) << "\n";
  os.flush();
  if (outFile.empty())
    outs() << text;
  else
  {
    std::ofstream f(outFile);
    f << text;
  }
  outs().flush();
  fflush(stdout);
  _Exit(0);
}
