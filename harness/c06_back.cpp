// @property C06
// @sources rvsdg util llvm
// Contracts of the translation of enumerators to LLVM.  The functions are private or internal to
// their file, which is therefore included as a whole.
#include "vf.h"
#include <jlm/llvm/backend/IpGraphToLlvmConverter.cpp>

// Stand-ins for the instruction builder of LLVM: they record what is asked for.
struct Built
{
  int kind = 0, count = 0;
  unsigned code = 0;
  ::llvm::Value *a = nullptr, *b = nullptr;
  ::llvm::Value *
  record(int k, unsigned c, ::llvm::Value * x, ::llvm::Value * y)
  {
    kind = k;
    code = c;
    a = x;
    b = y;
    count++;
    return (::llvm::Value *)&kind;
  }
};
static Built built;
extern "C" ::llvm::Value *
vf_stub_fcmp(void *, ::llvm::CmpInst::Predicate p, ::llvm::Value * a, ::llvm::Value * b, void *, void *, bool) asm("vf_stub$_ZN4llvm13IRBuilderBase16CreateFCmpHelperENS_7CmpInst9PredicateEPNS_5ValueES4_RKNS_5TwineEPNS_6MDNodeEb");
extern "C" ::llvm::Value *
vf_stub_fcmp(void *, ::llvm::CmpInst::Predicate p, ::llvm::Value * a, ::llvm::Value * b, void *, void *, bool signaling)
{
  vf_assert(!signaling, "a floating point comparison is quiet");
  return built.record(1, p, a, b);
}
extern "C" ::llvm::Value *
vf_stub_icmp(void *, ::llvm::CmpInst::Predicate p, ::llvm::Value * a, ::llvm::Value * b, void *) asm("vf_stub$_ZN4llvm13IRBuilderBase10CreateICmpENS_7CmpInst9PredicateEPNS_5ValueES4_RKNS_5TwineE");
extern "C" ::llvm::Value *
vf_stub_icmp(void *, ::llvm::CmpInst::Predicate p, ::llvm::Value * a, ::llvm::Value * b, void *)
{
  return built.record(2, p, a, b);
}
extern "C" ::llvm::Value *
vf_stub_binop(void *, ::llvm::Instruction::BinaryOps p, ::llvm::Value * a, ::llvm::Value * b, void *, void *) asm("vf_stub$_ZN4llvm13IRBuilderBase11CreateBinOpENS_11Instruction9BinaryOpsEPNS_5ValueES4_RKNS_5TwineEPNS_6MDNodeE");
extern "C" ::llvm::Value *
vf_stub_binop(void *, ::llvm::Instruction::BinaryOps p, ::llvm::Value * a, ::llvm::Value * b, void *, void *)
{
  return built.record(3, p, a, b);
}

namespace jlm::llvm
{
struct AttributePair
{
  ::llvm::Attribute::AttrKind llvm;
  Attribute::kind jlm;
};
static const AttributePair attributePairs[] = {
#define A(X) { ::llvm::Attribute::AttrKind::X, Attribute::kind::X },
#include "c06_attributes.inc"
#undef A
};
struct LinkagePair
{
  ::llvm::GlobalValue::LinkageTypes llvm;
  Linkage jlm;
  const char * name;
};
static const LinkagePair linkagePairs[] = {
#define L(X, Y, N) { ::llvm::GlobalValue::X, Linkage::Y, N },
#include "c06_linkages.inc"
#undef L
};
#include "c06_floats.inc"

extern "C" void
proof_attribute_to_llvm()
{
  auto n = sizeof(attributePairs) / sizeof(*attributePairs);
  auto & p = attributePairs[vf_choose(n, "kind")];
  vf_assert(IpGraphToLlvmConverter::ConvertAttributeKind(p.jlm) == p.llvm, "an attribute kind keeps its name");
}
// every kind the compiler has is translated to a kind LLVM has
extern "C" void
proof_attribute_all()
{
  auto k = (Attribute::kind)vf_choose((uint64_t)Attribute::kind::EndAttrKinds + 1, "kind");
  auto r = IpGraphToLlvmConverter::ConvertAttributeKind(k);
  bool found = false;
  for (auto & p : attributePairs)
    found = found || p.llvm == r;
  vf_assert(found, "every attribute kind has a counterpart");
  // the markers are the only kinds that share one
  for (auto & p : attributePairs)
    if (p.llvm == r)
      vf_assert(
          p.jlm == k || k == Attribute::kind::FirstEnumAttr || k == Attribute::kind::LastEnumAttr || k == Attribute::kind::FirstTypeAttr
              || k == Attribute::kind::LastTypeAttr || k == Attribute::kind::FirstIntAttr || k == Attribute::kind::LastIntAttr,
          "distinct attribute kinds stay distinct");
}
extern "C" void
proof_attribute_to_llvm_unknown()
{
  auto v = (uint64_t)Attribute::kind::EndAttrKinds + 1 + vf_choose(100, "kind");
  vf_abort_is_report(true);
  try
  {
    IpGraphToLlvmConverter::ConvertAttributeKind((Attribute::kind)v);
  }
  catch (...)
  {
    return;
  }
  vf_assert(false, "a kind without counterpart is reported");
}
extern "C" void
proof_linkage_to_llvm()
{
  uint64_t v = vf_choose(30, "linkage");
  bool known = false;
  ::llvm::GlobalValue::LinkageTypes e{}, r;
  for (auto & p : linkagePairs)
    if ((uint64_t)p.jlm == v)
    {
      known = true;
      e = p.llvm;
    }
  vf_abort_is_report(!known);
  alignas(16) char bytes[1024] = {};
  auto c = (IpGraphToLlvmConverter *)bytes;
  try
  {
    r = c->convert_linkage((Linkage)v);
  }
  catch (...)
  {
    vf_assert(!known, "every linkage is translated");
    return;
  }
  vf_assert(known && r == e, "a linkage keeps its name");
}

// ---- instructions
struct World
{
  InterProceduralGraphModule module{ jlm::util::FilePath(""), "", "" };
  alignas(16) char fakeModule[64], fakeBuilder[512], va[16], vb[16];
  IpGraphToLlvmConverter converter;
  std::unique_ptr<llvm::Variable> a, b;
  std::vector<const llvm::Variable *> args;
  ::llvm::IRBuilder<> & builder = *(::llvm::IRBuilder<> *)fakeBuilder;
  World(std::shared_ptr<const rvsdg::Type> t)
  {
    converter.Context_ = IpGraphToLlvmConverter::Context::Create(module, *(::llvm::Module *)fakeModule);
    a = std::make_unique<llvm::Variable>(t, "a");
    b = std::make_unique<llvm::Variable>(t, "b");
    converter.Context_->insert(a.get(), (::llvm::Value *)va);
    converter.Context_->insert(b.get(), (::llvm::Value *)vb);
    args = { a.get(), b.get() };
    built = Built();
  }
  void
  check(::llvm::Value * r, int kind, unsigned code)
  {
    vf_assert(built.count == 1 && built.kind == kind && built.code == code, "the instruction of an operation keeps its meaning");
    vf_assert(built.a == (::llvm::Value *)va && built.b == (::llvm::Value *)vb, "operands keep their order");
    vf_assert(r == (::llvm::Value *)&built.kind, "the value of the operation is the instruction");
  }
};
extern "C" void
proof_operation_fcmp()
{
  auto & p = floatPairs[vf_choose(16, "predicate")];
  auto & t = floatTypes[vf_choose(5, "type")];
  World w(FloatingPointType::Create(t.jlm));
  FCmpOperation op(p.jlm, t.jlm);
  w.check(w.converter.convert_operation(op, op, w.args, w.builder), 1, p.llvm);
}
extern "C" void
proof_operation_float()
{
  auto & p = floatOperations[vf_choose(5, "operation")];
  auto & t = floatTypes[vf_choose(5, "type")];
  World w(FloatingPointType::Create(t.jlm));
  FBinaryOperation op(p.jlm, t.jlm);
  w.check(w.converter.convert_operation(op, op, w.args, w.builder), 3, p.llvm);
}
extern "C" void
proof_operation_pointer()
{
  static const struct { ::llvm::CmpInst::Predicate llvm; ICmpPredicate jlm; } pairs[] = {
#define P(X, Y) { ::llvm::CmpInst::X, ICmpPredicate::Y },
    P(ICMP_EQ, Eq) P(ICMP_NE, Ne) P(ICMP_UGT, Ugt) P(ICMP_UGE, Uge) P(ICMP_ULT, Ult) P(ICMP_ULE, Ule)
    P(ICMP_SGT, Sgt) P(ICMP_SGE, Sge) P(ICMP_SLT, Slt) P(ICMP_SLE, Sle)
#undef P
  };
  auto & p = pairs[vf_choose(10, "predicate")];
  World w(PointerType::Create());
  PtrCmpOperation op(PointerType::Create(), p.jlm);
  w.check(w.converter.convert_operation(op, op, w.args, w.builder), 2, p.llvm);
}
template<class T>
static std::unique_ptr<rvsdg::SimpleOperation>
make(uint64_t bits)
{
  return std::make_unique<T>(bits);
}
extern "C" void
proof_operation_integer()
{
  static const struct { int kind; unsigned llvm; std::unique_ptr<rvsdg::SimpleOperation> (*make)(uint64_t); } pairs[] = {
#define P(X, Y) { 2, ::llvm::CmpInst::X, make<Integer##Y##Operation> },
    P(ICMP_EQ, Eq) P(ICMP_NE, Ne) P(ICMP_UGT, Ugt) P(ICMP_UGE, Uge) P(ICMP_ULT, Ult) P(ICMP_ULE, Ule)
    P(ICMP_SGT, Sgt) P(ICMP_SGE, Sge) P(ICMP_SLT, Slt) P(ICMP_SLE, Sle)
#undef P
#define P(X) { 3, ::llvm::Instruction::X, make<Integer##X##Operation> },
    P(Add) P(Sub) P(Mul) P(And) P(Or) P(Xor) P(Shl) P(LShr) P(AShr) P(SDiv) P(UDiv) P(SRem) P(URem)
#undef P
  };
  auto & p = pairs[vf_choose(23, "operation")];
  uint64_t bits = 1 + vf_choose(70, "width");
  World w(rvsdg::BitType::Create(bits));
  auto op = p.make(bits);
  w.check(w.converter.convert_operation(*op, *op, w.args, w.builder), p.kind, p.llvm);
}
}
