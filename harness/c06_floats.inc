struct FloatPredicate
{
  ::llvm::CmpInst::Predicate llvm;
  fpcmp jlm;
};
static const FloatPredicate floatPairs[] = {
  { ::llvm::CmpInst::FCMP_FALSE, fpcmp::FALSE }, { ::llvm::CmpInst::FCMP_OEQ, fpcmp::oeq },
  { ::llvm::CmpInst::FCMP_OGT, fpcmp::ogt },     { ::llvm::CmpInst::FCMP_OGE, fpcmp::oge },
  { ::llvm::CmpInst::FCMP_OLT, fpcmp::olt },     { ::llvm::CmpInst::FCMP_OLE, fpcmp::ole },
  { ::llvm::CmpInst::FCMP_ONE, fpcmp::one },     { ::llvm::CmpInst::FCMP_ORD, fpcmp::ord },
  { ::llvm::CmpInst::FCMP_UNO, fpcmp::uno },     { ::llvm::CmpInst::FCMP_UEQ, fpcmp::ueq },
  { ::llvm::CmpInst::FCMP_UGT, fpcmp::ugt },     { ::llvm::CmpInst::FCMP_UGE, fpcmp::uge },
  { ::llvm::CmpInst::FCMP_ULT, fpcmp::ult },     { ::llvm::CmpInst::FCMP_ULE, fpcmp::ule },
  { ::llvm::CmpInst::FCMP_UNE, fpcmp::une },     { ::llvm::CmpInst::FCMP_TRUE, fpcmp::TRUE },
};
struct FloatType
{
  ::llvm::Type::TypeID llvm;
  fpsize jlm;
};
static const FloatType floatTypes[] = {
  { ::llvm::Type::HalfTyID, fpsize::half },       { ::llvm::Type::FloatTyID, fpsize::flt },
  { ::llvm::Type::DoubleTyID, fpsize::dbl },      { ::llvm::Type::FP128TyID, fpsize::fp128 },
  { ::llvm::Type::X86_FP80TyID, fpsize::x86fp80 },
};
struct FloatOperation
{
  ::llvm::Instruction::BinaryOps llvm;
  fpop jlm;
};
static const FloatOperation floatOperations[] = {
  { ::llvm::Instruction::FAdd, fpop::add }, { ::llvm::Instruction::FSub, fpop::sub },
  { ::llvm::Instruction::FMul, fpop::mul }, { ::llvm::Instruction::FDiv, fpop::div },
  { ::llvm::Instruction::FRem, fpop::mod },
};
