// @property C16
// @sources rvsdg util llvm
// Contract of inlining: the program computes and does what it did before.
#include "gen.h"
#include <jlm/llvm/ir/CallSummary.hpp>
#include <jlm/llvm/opt/inlining.hpp>

namespace jlm::llvm
{
static void
inlining(Prog & p)
{
  FunctionInlining x;
  p.transform(x);
}
// every call of a function that may be inlined
static void
inlineRegion(Region & r, rvsdg::LambdaNode & in)
{
  std::vector<rvsdg::SimpleNode *> calls;
  std::vector<rvsdg::StructuralNode *> nested;
  for (auto & n : r.Nodes())
    if (auto s = dynamic_cast<rvsdg::StructuralNode *>(&n))
      nested.push_back(s);
    else if (is<CallOperation>(&n))
      calls.push_back(static_cast<rvsdg::SimpleNode *>(&n));
  for (auto c : calls)
  {
    auto k = CallOperation::ClassifyCall(*c);
    if (!k->IsDirectCall())
      continue;
    auto lam = rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(k->GetLambdaOutput());
    if (lam != &in && FunctionInlining::canBeInlined(*lam))
    {
      FunctionInlining::inlineCall(*c, *lam);
      vf_cover("a call is inlined");
    }
  }
  for (auto s : nested)
    for (size_t k = 0; k < s->nsubregions(); k++)
      inlineRegion(*s->subregion(k), in);
}
static void
everyCall(Prog & p)
{
  std::vector<rvsdg::LambdaNode *> ls;
  for (auto & n : p.root().Nodes())
    if (auto l = dynamic_cast<rvsdg::LambdaNode *>(&n))
      ls.push_back(l);
    else if (auto f = dynamic_cast<rvsdg::PhiNode *>(&n))
      for (auto & m : f->subregion()->Nodes())
        if (auto l = dynamic_cast<rvsdg::LambdaNode *>(&m))
          ls.push_back(l);
  for (auto l : ls)
    inlineRegion(*l->subregion(), *l);
}
static Features
plain()
{
  Features f;
  f.inlinable = f.memory = f.calls = true;
  f.openLoops = false;
  return f;
}
static Features
globals()
{
  Features f = plain();
  f.globals = true;
  return f;
}
static Features
allocas()
{
  Features f = globals();
  f.allocas = true;
  return f;
}
// accesses that wait for calls
static Features
barred()
{
  Features f = globals();
  f.barriers = f.division = true;
  return f;
}
#define FAM(PASS, F, A) \
  extern "C" void proof_##PASS##_##F##_##A() { family(F(), A, 60, PASS, 5); }
FAM(inlining, plain, 7000) FAM(inlining, globals, 7100) FAM(inlining, allocas, 7200) FAM(inlining, globals, 7300) FAM(inlining, globals, 7400)
FAM(everyCall, plain, 7000) FAM(everyCall, globals, 7100) FAM(everyCall, allocas, 7200) FAM(everyCall, globals, 7300) FAM(everyCall, globals, 7400)
FAM(inlining, barred, 7500) FAM(everyCall, barred, 7500)
extern "C" void proof_recursion_0() { recursive(0, 80, [](Prog & p, Gen &) { inlining(p); }); }
extern "C" void proof_recursion_1() { recursive(100, 80, [](Prog & p, Gen &) { inlining(p); }); }
extern "C" void proof_recursion_all_0() { recursive(0, 80, [](Prog & p, Gen &) { everyCall(p); }); }
extern "C" void proof_recursion_all_1() { recursive(100, 80, [](Prog & p, Gen &) { everyCall(p); }); }

// What disqualifies a function from being inlined: calls that see the frame of their caller, and
// allocations that are repeated or of unknown size.
extern "C" void
proof_disqualified()
{
  static const char * names[] = { "_setjmp", "llvm.va_start", "llvm.va_start.p0", "ext", "setjmp_", "a_setjmp", "llvm.va_copy" };
  Prog p;
  unsigned which = (unsigned)vf_choose(8, "callee"), where = (unsigned)vf_choose(3, "where"), al = (unsigned)vf_choose(4, "allocation");
  auto ft = rvsdg::FunctionType::Create({ bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  auto ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, which < 7 ? names[which] : "ext", Linkage::externalLinkage, CallingConvention::Default);
  auto lam = rvsdg::LambdaNode::Create(p.root(), LlvmLambdaOperation::Create(ft, "f", Linkage::internalLinkage));
  auto as = lam->GetFunctionArguments();
  Output *c = lam->AddContextVar(*ext).inner, *x = as[0], *io = as[1], *m = as[2];
  Region * r = lam->subregion();
  rvsdg::ThetaNode * t = nullptr;
  rvsdg::GammaNode * g = nullptr;
  rvsdg::ThetaNode::LoopVar tx, ti, tm;
  if (where)
  {
    t = rvsdg::ThetaNode::create(r);
    c = t->AddLoopVar(c).pre;
    tx = t->AddLoopVar(x);
    ti = t->AddLoopVar(io);
    tm = t->AddLoopVar(m);
    x = tx.pre;
    io = ti.pre;
    m = tm.pre;
    r = t->subregion();
  }
  Outs gx, gi, gm;
  if (where == 2)
  {
    g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*x, { { 0, 0 } }, 1, 2), 2);
    c = g->AddEntryVar(c).branchArgument[1];
    gx = g->AddEntryVar(x).branchArgument;
    gi = g->AddEntryVar(io).branchArgument;
    gm = g->AddEntryVar(m).branchArgument;
    x = gx[1];
    io = gi[1];
    m = gm[1];
    r = g->subregion(1);
  }
  if (which < 7)
  {
    auto o = CallOperation::Create(c, ft, { x, io, m });
    x = o[0];
    io = o[1];
    m = o[2];
  }
  if (al)
  {
    Output * n = al == 1 ? cst(*r, 32, 1) : al == 2 ? x : bin<IntegerAddOperation>(32, x, cst(*r, 32, 1));
    auto & a = AllocaOperation::createNode(bits(32), *n, 4);
    m = MemoryStateMergeOperation::Create(Outs{ m, a.output(1) });
    m = StoreNonVolatileOperation::Create(a.output(0), x, { m }, 4)[0];
  }
  if (g)
  {
    x = g->AddExitVar({ gx[0], x }).output;
    io = g->AddExitVar({ gi[0], io }).output;
    m = g->AddExitVar({ gm[0], m }).output;
  }
  if (t)
  {
    tx.post->divert_to(x);
    ti.post->divert_to(io);
    tm.post->divert_to(m);
    t->set_predicate(rvsdg::MatchOperation::Create(*x, { { 0, 0 } }, 1, 2));
    x = tx.output;
    io = ti.output;
    m = tm.output;
  }
  lam->finalize({ x, io, m });
  bool bad = which < 3 || (al && where) || al > 1;
  vf_assert(!bad || !FunctionInlining::canBeInlined(*lam), "a function whose frame matters is not inlined");
}

// What a function accesses still waits for the calls before it when the function is inlined.
static void
waiting(void (*pass)(Prog &))
{
  Prog p;
  unsigned kind = (unsigned)vf_choose(3, "access"), where = (unsigned)vf_choose(3, "where"), what = (unsigned)vf_choose(3, "what");
  auto ft = rvsdg::FunctionType::Create({ ios(), mem() }, { ios(), mem() });
  auto ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
  vo::Val v(0);
  v.fn = ext;
  p.init.env[ext] = v;
  auto weak = &LlvmGraphImport::createGlobalImport(p.graph(), ArrayType::Create(bits(32), 2), ptr(), "w", Linkage::externalWeakLinkage, false, 4);
  p.init.env[weak] = vo::Val(p.init.addObject(8, "weak", true, "argw", true));
  auto ct = rvsdg::FunctionType::Create({ ptr(), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  auto lam = rvsdg::LambdaNode::Create(p.root(), LlvmLambdaOperation::Create(ct, "f", Linkage::internalLinkage));
  auto cs = lam->GetFunctionArguments();
  {
    Region & r = *lam->subregion();
    Output * a = what == 0 ? cs[0] : what == 1 ? lam->AddContextVar(*weak).inner : GetElementPtrOperation::create(cs[0], { cst(r, 64, 1) }, bits(32));
    Output *x = cs[1], *m = cs[3];
    auto access = [&](Output * a, Output *& x, Output *& m) {
      if (kind < 2)
      {
        auto o = LoadNonVolatileOperation::Create(a, { m }, bits(32), 4);
        x = o[0];
        m = o[1];
      }
      else
        m = StoreNonVolatileOperation::Create(a, x, { m }, 4)[0];
    };
    if (where == 0)
      access(a, x, m);
    else if (where == 1)
    {
      auto g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*x, { { 0, 0 } }, 1, 2), 2);
      auto ea = g->AddEntryVar(a), ex = g->AddEntryVar(x), em = g->AddEntryVar(m);
      Output *y = ex.branchArgument[0], *n = em.branchArgument[0];
      access(ea.branchArgument[0], y, n);
      x = g->AddExitVar({ y, ex.branchArgument[1] }).output;
      m = g->AddExitVar({ n, em.branchArgument[1] }).output;
    }
    else
    {
      auto t = rvsdg::ThetaNode::create(&r);
      auto la = t->AddLoopVar(a), lx = t->AddLoopVar(x), lm = t->AddLoopVar(m);
      Output *y = lx.pre, *n = lm.pre;
      access(la.pre, y, n);
      lx.post->divert_to(y);
      lm.post->divert_to(n);
      t->set_predicate(&rvsdg::ControlConstantOperation::create(*t->subregion(), 2, 0));
      x = lx.output;
      m = lm.output;
    }
    lam->finalize({ x, cs[2], m });
  }
  auto as = p.function({ ptr(), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  p.object(0, 8);
  for (auto & o : p.init.objs) // the external function does not know them
    o.escaped = false;
  auto lanes = MemoryStateSplitOperation::Create(*as[3], 2);
  auto e = p.lambda->AddContextVar(*ext).inner, f = p.lambda->AddContextVar(*lam->output()).inner;
  Output *io = as[2], *x = as[1];
  auto stop = [&] {
    auto o = CallOperation::Create(e, ft, { io, lanes[0] });
    io = o[0];
    lanes[0] = o[1];
  };
  unsigned before = (unsigned)vf_choose(2, "call before");
  if (before)
    stop();
  auto o = CallOperation::Create(f, ct, { as[0], x, io, lanes[1] });
  x = o[0];
  io = o[1];
  lanes[1] = o[2];
  if (!before || kind == 1)
    stop();
  p.finish({ x, io, MemoryStateMergeOperation::Create(lanes) });
  p.refines([&] { pass(p); });
}
extern "C" void proof_inlining_waiting() { waiting(inlining); }
extern "C" void proof_everyCall_waiting() { waiting(everyCall); }
}
