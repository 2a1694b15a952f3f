// @property C06
// @sources rvsdg util llvm
// Contracts of the translation of enumerators from LLVM.  The functions are internal to their file,
// which is therefore included as a whole.
#include "vf.h"
#include <jlm/llvm/frontend/LlvmModuleConversion.cpp>
#include <jlm/llvm/ir/CallingConvention.hpp>
#include <jlm/llvm/ir/Linkage.hpp>

namespace jlm::llvm
{
// The attribute kinds of LLVM and of the compiler, by name.
struct AttributePair
{
  ::llvm::Attribute::AttrKind llvm;
  Attribute::kind jlm;
};
static const AttributePair attributePairs[] = {
#define A(X) { ::llvm::Attribute::AttrKind::X, Attribute::kind::X },
#include "c06_attributes.inc"
#undef A
};
// every kind that LLVM knows, and values that it does not
extern "C" void
proof_attribute_from_llvm()
{
  uint64_t v = vf_choose(::llvm::Attribute::EndAttrKinds + 40, "kind");
  auto k = (::llvm::Attribute::AttrKind)v;
  bool known = false;
  for (auto & p : attributePairs)
    known = known || p.llvm == k;
  vf_abort_is_report(!known);
  Attribute::kind r;
  try
  {
    r = ConvertAttributeKind(k);
  }
  catch (...)
  {
    vf_assert(!known, "every attribute kind is translated");
    vf_cover("reported");
    return;
  }
  vf_assert(known, "a kind without counterpart is reported");
  for (auto & p : attributePairs)
    if (p.llvm == k)
      vf_assert(r == p.jlm, "an attribute kind keeps its name");
}
struct LinkagePair
{
  ::llvm::GlobalValue::LinkageTypes llvm;
  Linkage jlm;
  const char * name;
};
static const LinkagePair linkagePairs[] = {
#define L(X, Y, N) { ::llvm::GlobalValue::X, Linkage::Y, N },
#include "c06_linkages.inc"
#undef L
};
extern "C" void
proof_linkage_from_llvm()
{
  uint64_t v = vf_choose(30, "linkage");
  auto k = (::llvm::GlobalValue::LinkageTypes)v;
  bool known = false;
  Linkage r, e{};
  for (auto & p : linkagePairs)
    if (p.llvm == k)
    {
      known = true;
      e = p.jlm;
    }
  vf_abort_is_report(!known);
  try
  {
    r = convert_linkage(k);
  }
  catch (...)
  {
    vf_assert(!known, "every linkage is translated");
    return;
  }
  vf_assert(known && r == e, "a linkage keeps its name");
}
// Names of linkages: distinct, and reading a name gives the linkage that was written.
extern "C" void
proof_linkage_names()
{
  auto & p = linkagePairs[vf_choose(11, "linkage")];
  auto s = linkageToString(p.jlm);
  vf_assert(s == p.name, "the name of a linkage");
  vf_assert(linkageFromString(p.name) == p.jlm, "the linkage of a name");
}
extern "C" void
proof_linkage_unknown()
{
  bool thrown = false;
  if (vf_choose(2, "direction"))
    try
    {
      uint64_t v = vf_choose(300, "linkage");
      linkageToString((Linkage)(11 + v));
    }
    catch (std::logic_error &)
    {
      thrown = true;
    }
  else
    try
    {
      static const char * bad[] = { "", "external", "external_linkage ", "External_linkage", "weak", "common_linkag" };
      linkageFromString(bad[vf_choose(6, "name")]);
    }
    catch (std::logic_error &)
    {
      thrown = true;
    }
  vf_assert(thrown, "an unknown linkage is reported");
}
// What a linkage means to the linker.
extern "C" void
proof_linkage_discardable()
{
  auto & p = linkagePairs[vf_choose(11, "linkage")];
  vf_assert(isDiscardableIfUnused(p.jlm) == ::llvm::GlobalValue::isDiscardableIfUnused(p.llvm), "a linkage is discardable when LLVM says so");
}
struct CallingPair
{
  unsigned llvm;
  CallingConvention jlm;
};
static const CallingPair callingPairs[] = {
  { ::llvm::CallingConv::C, CallingConvention::C },
  { ::llvm::CallingConv::Fast, CallingConvention::Fast },
  { ::llvm::CallingConv::Cold, CallingConvention::Cold },
  { ::llvm::CallingConv::Tail, CallingConvention::Tail },
};
// every calling convention LLVM can represent
extern "C" void
proof_calling_convention_from_llvm()
{
  uint64_t v = vf_choose(1024, "calling convention");
  bool known = false;
  CallingConvention e{}, r;
  for (auto & p : callingPairs)
    if (p.llvm == v)
    {
      known = true;
      e = p.jlm;
    }
  try
  {
    r = convertCallingConventionToJlm((::llvm::CallingConv::ID)v);
  }
  catch (...)
  {
    vf_assert(!known, "every calling convention is translated");
    vf_cover("reported");
    return;
  }
  vf_assert(known && r == e, "a calling convention keeps its meaning");
}
extern "C" void
proof_calling_convention_to_llvm()
{
  uint64_t v = vf_choose(40, "calling convention");
  auto k = (CallingConvention)v;
  bool known = false;
  unsigned e = 0, r = 0;
  for (auto & p : callingPairs)
    if (p.jlm == k)
    {
      known = true;
      e = p.llvm;
    }
  try
  {
    r = convertCallingConventionToLlvm(k);
  }
  catch (...)
  {
    vf_assert(!known, "every calling convention is translated");
    return;
  }
  vf_assert(known && r == e, "a calling convention keeps its meaning");
}
struct PredicatePair
{
  ::llvm::CmpInst::Predicate llvm;
  ICmpPredicate jlm;
  const char * name;
};
static const PredicatePair predicatePairs[] = {
  { ::llvm::CmpInst::ICMP_EQ, ICmpPredicate::Eq, "eq" },
  { ::llvm::CmpInst::ICMP_NE, ICmpPredicate::Ne, "ne" },
  { ::llvm::CmpInst::ICMP_UGT, ICmpPredicate::Ugt, "ugt" },
  { ::llvm::CmpInst::ICMP_UGE, ICmpPredicate::Uge, "uge" },
  { ::llvm::CmpInst::ICMP_ULT, ICmpPredicate::Ult, "ult" },
  { ::llvm::CmpInst::ICMP_ULE, ICmpPredicate::Ule, "ule" },
  { ::llvm::CmpInst::ICMP_SGT, ICmpPredicate::Sgt, "sgt" },
  { ::llvm::CmpInst::ICMP_SGE, ICmpPredicate::Sge, "sge" },
  { ::llvm::CmpInst::ICMP_SLT, ICmpPredicate::Slt, "slt" },
  { ::llvm::CmpInst::ICMP_SLE, ICmpPredicate::Sle, "sle" },
};
extern "C" void
proof_predicate_from_llvm()
{
  uint64_t v = vf_choose(64, "predicate");
  const PredicatePair * e = nullptr;
  for (auto & p : predicatePairs)
    if ((uint64_t)p.llvm == v)
      e = &p;
  ICmpPredicate r;
  try
  {
    r = convertICmpPredicateToJlm((::llvm::CmpInst::Predicate)v);
  }
  catch (...)
  {
    vf_assert(!e, "every comparison predicate is translated");
    return;
  }
  vf_assert(e && r == e->jlm, "a comparison predicate keeps its meaning");
  vf_assert(convertICmpPredicateToLlvm(r) == e->llvm, "a comparison predicate survives both translations");
}
extern "C" void
proof_predicate_to_llvm()
{
  uint64_t v = vf_choose(40, "predicate");
  auto k = (ICmpPredicate)v;
  const PredicatePair * e = nullptr;
  for (auto & p : predicatePairs)
    if (p.jlm == k)
      e = &p;
  ::llvm::CmpInst::Predicate r;
  try
  {
    r = convertICmpPredicateToLlvm(k);
  }
  catch (...)
  {
    vf_assert(!e, "every comparison predicate is translated");
    return;
  }
  vf_assert(e && r == e->llvm, "a comparison predicate keeps its meaning");
  vf_assert(iCmpPredicateToString(k) == e->name, "the name of a predicate");
}
// The operation chosen for an integer comparison computes what the predicate says.
extern "C" void
proof_integer_comparison()
{
  uint64_t v = vf_choose(64, "predicate"), w = 1 + vf_choose(64, "width");
  auto k = (::llvm::CmpInst::Predicate)v;
  bool known = false;
  for (auto & p : predicatePairs)
    known = known || p.llvm == k;
  vf_abort_is_report(!known);
  std::unique_ptr<rvsdg::BinaryOperation> r;
  try
  {
    r = ConvertIntegerIcmpPredicate(k, w);
  }
  catch (...)
  {
    vf_assert(!known, "every comparison predicate is translated");
    return;
  }
  vf_assert(known, "a predicate without counterpart is reported");
  if (!known)
    return;
#define P(X, Y) case ::llvm::CmpInst::X: vf_assert(dynamic_cast<const Integer##Y##Operation *>(r.get()) != nullptr, "an integer comparison keeps its predicate"); break;
  switch (k)
  {
    P(ICMP_EQ, Eq) P(ICMP_NE, Ne) P(ICMP_UGT, Ugt) P(ICMP_UGE, Uge) P(ICMP_ULT, Ult) P(ICMP_ULE, Ule)
    P(ICMP_SGT, Sgt) P(ICMP_SGE, Sge) P(ICMP_SLT, Slt) P(ICMP_SLE, Sle)
  default: break;
  }
  auto b = dynamic_cast<const IntegerBinaryOperation *>(r.get());
  vf_assert(b && b->Type().nbits() == w, "an integer comparison keeps its width");
}
extern "C" void
proof_pointer_comparison()
{
  uint64_t v = vf_choose(64, "predicate");
  auto k = (::llvm::CmpInst::Predicate)v;
  const PredicatePair * e = nullptr;
  for (auto & p : predicatePairs)
    if (p.llvm == k)
      e = &p;
  std::unique_ptr<rvsdg::BinaryOperation> r;
  try
  {
    r = ConvertPointerIcmpPredicate(k);
  }
  catch (...)
  {
    vf_assert(!e, "every comparison predicate is translated");
    return;
  }
  auto c = dynamic_cast<const PtrCmpOperation *>(r.get());
  vf_assert(e && c && c->predicate() == e->jlm, "a pointer comparison keeps its predicate");
}

// ---- instructions
// An LLVM instruction laid out in memory the way LLVM does it; only its inline accessors are used.
struct FakeInstruction
{
  alignas(16) char bytes[256];
  ::llvm::Instruction *
  make(unsigned opcode, ::llvm::Type * type, unsigned data, std::initializer_list<::llvm::Value *> operands)
  {
    for (auto & b : bytes)
      b = 0;
    auto i = (::llvm::Instruction *)(bytes + 128);
    *(unsigned char *)&i->SubclassID = ::llvm::Value::InstructionVal + opcode;
    i->SubclassData = data;
    i->NumUserOperands = operands.size();
    i->VTy = type;
    auto use = (::llvm::Use *)i - operands.size();
    for (auto v : operands)
      (use++)->Val = v;
    return i;
  }
  ::llvm::Value *
  argument(::llvm::Type * type)
  {
    for (auto & b : bytes)
      b = 0;
    auto v = (::llvm::Value *)(bytes + 128);
    *(unsigned char *)&v->SubclassID = ::llvm::Value::ArgumentVal;
    v->VTy = type;
    return v;
  }
};
struct FakeType
{
  alignas(16) char bytes[64];
  ::llvm::Type *
  make(::llvm::Type::TypeID id, unsigned data)
  {
    for (auto & b : bytes)
      b = 0;
    auto t = (::llvm::Type *)bytes;
    t->ID = id;
    t->SubclassData = data;
    return t;
  }
};
struct World
{
  FakeInstruction i, a, b;
  FakeType ta, tr;
  std::unique_ptr<InterProceduralGraphModule> module;
  std::unique_ptr<Context> context;
  std::unique_ptr<llvm::Variable> va, vb;
  tacsvector_t tacs;
  ::llvm::Value *pa = nullptr, *pb = nullptr;
  // two run-time values of the same type
  void
  operands(::llvm::Type::TypeID id, unsigned data, std::shared_ptr<const rvsdg::Type> type)
  {
    module = std::make_unique<InterProceduralGraphModule>(jlm::util::FilePath(""), "", "");
    context = std::make_unique<Context>(*module);
    auto t = ta.make(id, data);
    pa = a.argument(t);
    pb = b.argument(t);
    va = std::make_unique<llvm::Variable>(type, "a");
    vb = std::make_unique<llvm::Variable>(type, "b");
    context->insert_value(pa, va.get());
    context->insert_value(pb, vb.get());
  }
  // the last instruction has the given operands
  const rvsdg::SimpleOperation &
  last(const llvm::Variable * result, bool barrier = false)
  {
    vf_assert(tacs.size() == (barrier ? 2u : 1u), "one operation for an instruction");
    auto & t = *tacs.back();
    vf_assert(t.result(0) == result, "the value of an instruction is the result of its operation");
    vf_assert(t.noperands() == 2 && t.operand(1) == vb.get(), "operands keep their order");
    vf_assert((barrier ? tacs[0]->operand(0) : t.operand(0)) == va.get(), "operands keep their order");
    if (barrier)
      vf_assert(t.operand(0) == tacs[0]->result(0) && is<IOBarrierOperation>(tacs[0]->operation()), "a division stays behind its barrier");
    return t.operation();
  }
};
#include "c06_floats.inc"
extern "C" void
proof_instruction_icmp()
{
  World w;
  uint64_t bits = 1 + vf_choose(70, "width");
  auto & p = predicatePairs[vf_choose(10, "predicate")];
  bool pointer = bits == 70;
  if (pointer)
    w.operands(::llvm::Type::PointerTyID, 0, PointerType::Create());
  else
    w.operands(::llvm::Type::IntegerTyID, bits, rvsdg::BitType::Create(bits));
  auto i = w.i.make(::llvm::Instruction::ICmp, w.tr.make(::llvm::Type::IntegerTyID, 1), p.llvm, { w.pa, w.pb });
  auto & op = w.last(convert((const ::llvm::ICmpInst *)i, w.tacs, *w.context));
  if (pointer)
  {
    auto c = dynamic_cast<const PtrCmpOperation *>(&op);
    vf_assert(c && c->predicate() == p.jlm, "a pointer comparison keeps its predicate");
    return;
  }
#define P(X, Y) case ::llvm::CmpInst::X: vf_assert(dynamic_cast<const Integer##Y##Operation *>(&op) != nullptr, "an integer comparison keeps its predicate"); break;
  switch (p.llvm)
  {
    P(ICMP_EQ, Eq) P(ICMP_NE, Ne) P(ICMP_UGT, Ugt) P(ICMP_UGE, Uge) P(ICMP_ULT, Ult) P(ICMP_ULE, Ule)
    P(ICMP_SGT, Sgt) P(ICMP_SGE, Sge) P(ICMP_SLT, Slt) P(ICMP_SLE, Sle)
  default: break;
  }
#undef P
}
extern "C" void
proof_instruction_fcmp()
{
  World w;
  auto & p = floatPairs[vf_choose(16, "predicate")];
  auto & t = floatTypes[vf_choose(5, "type")];
  w.operands(t.llvm, 0, FloatingPointType::Create(t.jlm));
  auto i = w.i.make(::llvm::Instruction::FCmp, w.tr.make(::llvm::Type::IntegerTyID, 1), p.llvm, { w.pa, w.pb });
  auto c = dynamic_cast<const FCmpOperation *>(&w.last(convert_fcmp_instruction(i, w.tacs, *w.context)));
  vf_assert(c && c->cmp() == p.jlm && c->size() == t.jlm, "a floating point comparison keeps its predicate");
}
extern "C" void
proof_instruction_float()
{
  World w;
  auto & p = floatOperations[vf_choose(5, "operation")];
  auto & t = floatTypes[vf_choose(5, "type")];
  w.operands(t.llvm, 0, FloatingPointType::Create(t.jlm));
  auto i = w.i.make(p.llvm, w.ta.make(t.llvm, 0), 0, { w.pa, w.pb });
  auto c = dynamic_cast<const FBinaryOperation *>(&w.last(convert((const ::llvm::BinaryOperator *)i, w.tacs, *w.context)));
  vf_assert(c && c->fpop() == p.jlm && c->size() == t.jlm, "a floating point operation keeps its meaning");
}
template<class T>
static bool
isa(const rvsdg::Operation & o)
{
  return dynamic_cast<const T *>(&o) != nullptr;
}
struct IntegerPair
{
  unsigned llvm;
  bool (*is)(const rvsdg::Operation &);
};
static const IntegerPair integerOperations[] = {
#define O(X) { ::llvm::Instruction::X, isa<Integer##X##Operation> },
  O(Add) O(Sub) O(Mul) O(And) O(Or) O(Xor) O(Shl) O(LShr) O(AShr)
  O(SDiv) O(UDiv) O(SRem) O(URem)
#undef O
};
extern "C" void
proof_instruction_integer()
{
  World w;
  auto k = vf_choose(13, "operation");
  auto & p = integerOperations[k];
  uint64_t bits = 1 + vf_choose(70, "width");
  w.operands(::llvm::Type::IntegerTyID, bits, rvsdg::BitType::Create(bits));
  auto io = std::make_unique<llvm::Variable>(IOStateType::Create(), "io");
  w.context->set_iostate(io.get());
  auto i = w.i.make(p.llvm, w.ta.make(::llvm::Type::IntegerTyID, bits), 0, { w.pa, w.pb });
  auto & op = w.last(convert((const ::llvm::BinaryOperator *)i, w.tacs, *w.context), k >= 9);
  auto b = dynamic_cast<const IntegerBinaryOperation *>(&op);
  vf_assert(p.is(op) && b && b->Type().nbits() == bits, "an integer operation keeps its meaning and width");
}
template<class T>
static bool
isCast(const rvsdg::Operation & o)
{
  return dynamic_cast<const T *>(&o) != nullptr;
}
extern "C" void
proof_instruction_cast()
{
  using TI = ::llvm::Type;
  struct C { unsigned llvm; bool (*is)(const rvsdg::Operation &); TI::TypeID from; unsigned fbits; TI::TypeID to; unsigned tbits; };
  static const C casts[] = {
    { ::llvm::Instruction::Trunc, isa<TruncOperation>, TI::IntegerTyID, 32, TI::IntegerTyID, 7 },
    { ::llvm::Instruction::ZExt, isa<ZExtOperation>, TI::IntegerTyID, 7, TI::IntegerTyID, 32 },
    { ::llvm::Instruction::SExt, isa<SExtOperation>, TI::IntegerTyID, 7, TI::IntegerTyID, 32 },
    { ::llvm::Instruction::UIToFP, isa<UIToFPOperation>, TI::IntegerTyID, 7, TI::FloatTyID, 0 },
    { ::llvm::Instruction::SIToFP, isa<SIToFPOperation>, TI::IntegerTyID, 7, TI::FloatTyID, 0 },
    { ::llvm::Instruction::FPToSI, isa<FPToSIOperation>, TI::FloatTyID, 0, TI::IntegerTyID, 9 },
    { ::llvm::Instruction::FPToUI, isa<FPToUIOperation>, TI::FloatTyID, 0, TI::IntegerTyID, 9 },
    { ::llvm::Instruction::FPTrunc, isa<FPTruncOperation>, TI::DoubleTyID, 0, TI::FloatTyID, 0 },
    { ::llvm::Instruction::FPExt, isa<FPExtOperation>, TI::FloatTyID, 0, TI::DoubleTyID, 0 },
    { ::llvm::Instruction::PtrToInt, isa<PtrToIntOperation>, TI::PointerTyID, 0, TI::IntegerTyID, 64 },
    { ::llvm::Instruction::IntToPtr, isa<IntToPtrOperation>, TI::IntegerTyID, 64, TI::PointerTyID, 0 },
    { ::llvm::Instruction::BitCast, isa<BitCastOperation>, TI::FloatTyID, 0, TI::IntegerTyID, 32 },
  };
  World w;
  auto & c = casts[vf_choose(12, "cast")];
  w.operands(c.from, c.fbits, IOStateType::Create());
  TypeConverter tc;
  auto from = tc.ConvertLlvmType(*w.ta.make(c.from, c.fbits));
  w.va = std::make_unique<llvm::Variable>(from, "a");
  w.context->vmap_[w.pa] = w.va.get();
  auto i = w.i.make(c.llvm, w.tr.make(c.to, c.tbits), 0, { w.pa });
  auto r = convert_cast_instruction(i, w.tacs, *w.context);
  vf_assert(w.tacs.size() == 1, "one operation for an instruction");
  auto & t = *w.tacs.back();
  vf_assert(t.result(0) == r && t.noperands() == 1 && t.operand(0) == w.va.get(), "a conversion keeps its operand");
  vf_assert(c.is(t.operation()), "a conversion keeps its meaning");
  vf_assert(*t.operation().argument(0) == *from && *t.operation().result(0) == *tc.ConvertLlvmType(*w.tr.make(c.to, c.tbits)), "a conversion keeps its types");
}
}
