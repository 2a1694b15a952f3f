// @property C14
// @sources rvsdg util llvm
// Contracts of the passes that move code across branches and loops.
#include "gen.h"
#include <jlm/llvm/opt/DeadNodeElimination.hpp>
#include <jlm/llvm/opt/IfConversion.hpp>
#include <jlm/llvm/opt/InvariantValueRedirection.hpp>
#include <jlm/llvm/opt/LoopUnswitching.hpp>
#include <jlm/llvm/opt/PredicateCorrelation.hpp>
#include <jlm/llvm/opt/pull.hpp>
#include <jlm/llvm/opt/push.hpp>

namespace jlm::llvm
{
static void
hoist(Prog & p)
{
  NodeHoisting x;
  p.transform(x);
}
static void
sink(Prog & p)
{
  NodeSinking x;
  p.transform(x);
}
static void
redirect(Prog & p)
{
  InvariantValueRedirection x(InvariantValueRedirection::Configuration{});
  p.transform(x);
}
static void
ifConvert(Prog & p)
{
  IfConversion x;
  p.transform(x);
}
static void
unswitch(Prog & p)
{
  LoopUnswitching x(LoopUnswitchingDefaultHeuristic::create());
  p.transform(x);
}
static void
correlate(Prog & p)
{
  PredicateCorrelation x;
  p.transform(x);
}
static void
dne(Prog & p)
{
  DeadNodeElimination x;
  p.transform(x);
}
static Features
pure()
{
  Features f;
  f.steps = 6;
  f.division = true;
  return f;
}
static Features
full()
{
  Features f;
  f.memory = f.calls = f.functions = f.invariants = true;
  return f;
}
// accesses that wait for calls
static Features
barred()
{
  Features f = full();
  f.barriers = f.division = true;
  f.openLoops = false;
  return f;
}
static Features
allocas()
{
  Features f;
  f.memory = f.allocas = true;
  f.loops = 3;
  f.openLoops = false;
  return f;
}
static Features
loops()
{
  Features f;
  f.correlated = true;
  f.division = true;
  f.thetas = 3;
  f.loops = 3;
  return f;
}
static Features
loopsMemory()
{
  Features f = loops();
  f.division = false;
  f.memory = f.allocas = true;
  return f;
}
// matches with several cases and several users
static Features
matches()
{
  Features f = loops();
  f.matches = true;
  f.division = false;
  return f;
}
#define FAM(PASS, F, A) \
  extern "C" void proof_##PASS##_##F##_##A() { family(F(), A, 60, PASS, 5); }
// without dead loop variables
#define CLEAN(PASS, F, A) \
  extern "C" void proof_##PASS##_clean_##F##_##A() { family(F(), A, 60, PASS, 5, dne); }
#define FAMS(PASS, A) \
  FAM(PASS, pure, A) FAM(PASS, full, A) FAM(PASS, allocas, A) FAM(PASS, loops, A) FAM(PASS, loopsMemory, A) FAM(PASS, barred, A) FAM(PASS, matches, A)
FAMS(hoist, 1000) FAMS(sink, 2000) FAMS(redirect, 3000) FAMS(ifConvert, 4000) FAMS(unswitch, 5000) FAMS(correlate, 6000)
CLEAN(redirect, loops, 3100) CLEAN(redirect, loops, 3200) CLEAN(redirect, loops, 3300) CLEAN(redirect, loopsMemory, 3100) CLEAN(redirect, loopsMemory, 3200)
CLEAN(unswitch, loops, 5100) CLEAN(unswitch, loopsMemory, 5100) CLEAN(correlate, loops, 6100) CLEAN(correlate, loopsMemory, 6100)
CLEAN(unswitch, matches, 5200) CLEAN(correlate, matches, 6200) CLEAN(ifConvert, matches, 4200)
}
namespace jlm::llvm
{
// Every iteration of a loop (within branches or not) allocates an object of its own; objects of
// earlier iterations keep their content.
static void
objectsPerIteration(void (*pass)(Prog &))
{
  Prog p;
  p.fuel = 6;
  bool inGamma = vf_choose(2, "in branch"), carried = vf_choose(2, "carried"), heap = vf_choose(2, "heap");
  unsigned outer = (unsigned)vf_choose(2, "nested");
  auto as = p.function({ bits(32), bits(32), ios(), mem() }, { bits(32), bits(32), bits(32), ios(), mem() });
  Region & r = p.body();
  auto & first = AllocaOperation::createNode(bits(32), *cst(r, 32, 1), 4);
  auto m0 = MemoryStateMergeOperation::Create({ as[3], first.output(1) });
  m0 = StoreNonVolatileOperation::Create(first.output(0), as[1], { m0 }, 4)[0];
  auto build = [&](Region & r, Output * x, Output * q, Output * io, Output * m, auto & self, unsigned depth) -> Outs {
    auto t = rvsdg::ThetaNode::create(&r);
    auto i = t->AddLoopVar(cst(r, 32, 0)), pv = t->AddLoopVar(q), vv = t->AddLoopVar(x), iv = t->AddLoopVar(io), mv = t->AddLoopVar(m), seen = t->AddLoopVar(cst(r, 32, 7));
    Region * b = t->subregion();
    Output *pp = pv.pre, *x2 = vv.pre, *io2 = iv.pre, *m2 = mv.pre, *i2 = i.pre;
    if (depth)
    {
      auto o = self(*b, x2, pp, io2, m2, self, depth - 1);
      pp = o[1];
      io2 = o[2];
      m2 = o[3];
    }
    rvsdg::GammaNode * g = nullptr;
    Outs pass, passM, passIo, passS;
    if (inGamma)
    {
      auto c = rvsdg::MatchOperation::Create(*bin<IntegerUltOperation>(32, x2, cst(*b, 32, 10)), { { 0, 0 } }, 1, 2);
      g = rvsdg::GammaNode::create(c, 2);
      pass = g->AddEntryVar(pp).branchArgument;
      auto xs = g->AddEntryVar(x2).branchArgument;
      auto is = g->AddEntryVar(i2).branchArgument;
      passIo = g->AddEntryVar(io2).branchArgument;
      passM = g->AddEntryVar(m2).branchArgument;
      passS = g->AddEntryVar(seen.pre).branchArgument;
      b = g->subregion(1);
      pp = pass[1];
      x2 = xs[1];
      i2 = is[1];
      io2 = passIo[1];
      m2 = passM[1];
    }
    Output *a = nullptr, *am = nullptr;
    if (heap)
    {
      auto & n = MallocOperation::createNode(*cst(*b, 64, 4), *io2);
      a = n.output(0);
      io2 = n.output(1);
      am = n.output(2);
    }
    else
    {
      auto & n = AllocaOperation::createNode(bits(32), *cst(*b, 32, 1), 4);
      a = n.output(0);
      am = n.output(1);
    }
    m2 = MemoryStateMergeOperation::Create(Outs{ m2, am });
    m2 = StoreNonVolatileOperation::Create(a, bin<IntegerAddOperation>(32, x2, i2), { m2 }, 4)[0];
    auto o = LoadNonVolatileOperation::Create(pp, { m2 }, bits(32), 4);
    m2 = o[1];
    Output *np = carried ? a : pp, *s = o[0];
    if (g)
    {
      np = g->AddExitVar({ pass[0], np }).output;
      m2 = g->AddExitVar({ passM[0], m2 }).output;
      io2 = g->AddExitVar({ passIo[0], io2 }).output;
      s = g->AddExitVar({ passS[0], s }).output;
      b = t->subregion();
    }
    auto next = bin<IntegerAddOperation>(32, i.pre, cst(*b, 32, 1));
    i.post->divert_to(next);
    pv.post->divert_to(np);
    mv.post->divert_to(m2);
    iv.post->divert_to(io2);
    seen.post->divert_to(s);
    t->set_predicate(rvsdg::MatchOperation::Create(*bin<IntegerUltOperation>(32, next, cst(*b, 32, 3)), { { 1, 1 } }, 0, 2));
    return { seen.output, pv.output, iv.output, mv.output };
  };
  auto o = build(r, as[0], first.output(0), as[2], m0, build, outer);
  auto l = LoadNonVolatileOperation::Create(o[1], { o[3] }, bits(32), 4);
  auto k = LoadNonVolatileOperation::Create(first.output(0), { l[1] }, bits(32), 4);
  p.finish({ o[0], l[0], k[0], o[2], k[1] });
  p.refines([&] { pass(p); });
}
// Stores with loop invariant operands, in nests of loops that write the same location.
static void
invariantStores(void (*pass)(Prog &))
{
  Prog p;
  p.fuel = 4;
  auto as = p.function({ ptr(), bits(32), bits(32), mem() }, { bits(32), bits(32), mem() });
  p.object(0, 4);
  // a body is a list of items: access, inner loop, branch
  uint64_t code = vf_choose(200, "program");
  uint64_t s = code * 0x9E3779B97F4A7C15ull + 99;
  auto rnd = [&](uint64_t n) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  };
  struct E
  {
    Output *a, *x, *y, *m, *v;
  };
  auto build = [&](Region & r, E e, unsigned depth, auto & self) -> E {
    auto t = rvsdg::ThetaNode::create(&r);
    auto a = t->AddLoopVar(e.a), x = t->AddLoopVar(e.x), y = t->AddLoopVar(e.y), m = t->AddLoopVar(e.m), v = t->AddLoopVar(e.v), i = t->AddLoopVar(cst(r, 32, 0));
    E b{ a.pre, x.pre, y.pre, m.pre, v.pre };
    Region & q = *t->subregion();
    for (unsigned n = 1 + rnd(3); n--;)
      switch (rnd(depth ? 4 : 2))
      {
      case 0:
        b.m = StoreNonVolatileOperation::Create(b.a, rnd(3) ? b.x : b.y, { b.m }, 4)[0];
        break;
      case 1:
      {
        auto o = LoadNonVolatileOperation::Create(b.a, { b.m }, bits(32), 4);
        b.v = rnd(2) ? o[0] : bin<IntegerAddOperation>(32, o[0], b.v);
        b.m = o[1];
        break;
      }
      case 2:
      {
        auto o = self(q, b, depth - 1, self);
        b.m = o.m;
        b.v = o.v;
        break;
      }
      default:
      {
        auto g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*(rnd(2) ? b.x : b.v), { { 0, 0 } }, 1, 2), 2);
        auto ga = g->AddEntryVar(b.a).branchArgument, gx = g->AddEntryVar(b.x).branchArgument, gy = g->AddEntryVar(b.y).branchArgument;
        auto gm = g->AddEntryVar(b.m).branchArgument, gv = g->AddEntryVar(b.v).branchArgument;
        E c{ ga[1], gx[1], gy[1], gm[1], gv[1] };
        if (rnd(2))
        {
          c = self(*g->subregion(1), c, depth - 1, self);
        }
        else
          c.m = StoreNonVolatileOperation::Create(c.a, rnd(2) ? c.x : c.y, { c.m }, 4)[0];
        b.m = g->AddExitVar({ gm[0], c.m }).output;
        b.v = g->AddExitVar({ gv[0], c.v }).output;
      }
      }
    m.post->divert_to(b.m);
    v.post->divert_to(b.v);
    auto next = bin<IntegerAddOperation>(32, i.pre, cst(q, 32, 1));
    i.post->divert_to(next);
    t->set_predicate(rvsdg::MatchOperation::Create(*bin<IntegerUltOperation>(32, next, cst(q, 32, 2)), { { 1, 1 } }, 0, 2));
    return { a.output, x.output, y.output, m.output, v.output };
  };
  auto o = build(p.body(), { as[0], as[1], as[2], as[3], as[1] }, 2, build);
  auto l = LoadNonVolatileOperation::Create(as[0], { o.m }, bits(32), 4);
  p.finish({ o.v, l[0], l[1] });
  p.refines([&] { pass(p); });
}
extern "C" void proof_hoist_objects() { objectsPerIteration(hoist); }
extern "C" void proof_sink_objects() { objectsPerIteration(sink); }
extern "C" void proof_redirect_objects() { objectsPerIteration(redirect); }
extern "C" void proof_hoist_stores() { invariantStores(hoist); }
extern "C" void proof_redirect_stores() { invariantStores(redirect); }

// A loop variable that is only used in the loop, or only after it, and whose value a branch selects.
static void
selectedLoopVar(void (*pass)(Prog &))
{
  Prog p;
  p.fuel = 4;
  uint64_t c0 = vf_choose(3, "constant 0"), c1 = vf_choose(3, "constant 1"), form = vf_choose(5, "form");
  bool swap = vf_choose(2, "swapped"), swapMatch = vf_choose(2, "swapped match");
  auto as = p.function({ bits(32), bits(32), bits(32), bits(32) }, { bits(32), bits(32), bits(32) });
  Region & r = p.body();
  auto t = rvsdg::ThetaNode::create(&r);
  auto i = t->AddLoopVar(cst(r, 32, 0)), n = t->AddLoopVar(as[0]), x = t->AddLoopVar(as[1]), y = t->AddLoopVar(as[2]), z = t->AddLoopVar(as[3]);
  auto after = t->AddLoopVar(as[3]);  // only used after the loop
  auto within = t->AddLoopVar(as[1]); // only used in the loop
  auto sum = t->AddLoopVar(as[2]);
  Region & b = *t->subregion();
  auto next = bin<IntegerAddOperation>(32, i.pre, cst(b, 32, 1));
  auto nx = bin<IntegerAddOperation>(32, x.pre, cst(b, 32, 3));
  auto c = bin<IntegerUltOperation>(32, next, n.pre);
  auto m = swap ? rvsdg::MatchOperation::Create(*c, { { 1, 0 } }, 1, 2) : rvsdg::MatchOperation::Create(*c, { { 1, 1 } }, 0, 2);
  auto g = rvsdg::GammaNode::create(m, 2);
  auto ex = g->AddEntryVar(nx).branchArgument, ey = g->AddEntryVar(y.pre).branchArgument, ez = g->AddEntryVar(z.pre).branchArgument;
  after.post->divert_to(g->AddExitVar({ ex[0], ey[1] }).output);
  within.post->divert_to(g->AddExitVar({ ey[0], ez[1] }).output);
  sum.post->divert_to(bin<IntegerAddOperation>(32, sum.pre, within.pre));
  x.post->divert_to(nx);
  i.post->divert_to(next);
  Output * pred = m;
  if (form == 1)
    pred = g->AddExitVar({ &rvsdg::ControlConstantOperation::create(*g->subregion(0), 2, c0 & 1), &rvsdg::ControlConstantOperation::create(*g->subregion(1), 2, c1 & 1) }).output;
  else if (form)
  {
    unsigned w = form == 2 ? 1 : 32;
    auto o = form == 4
                 ? g->AddExitVar({ &rvsdg::BitConstantOperation::create(*g->subregion(0), sym(w, c0)), &rvsdg::BitConstantOperation::create(*g->subregion(1), sym(w, c1)) }).output
                 : g->AddExitVar({ cst(*g->subregion(0), w, c0), cst(*g->subregion(1), w, c1) }).output;
    pred = swapMatch ? rvsdg::MatchOperation::Create(*o, { { 1, 0 } }, 1, 2) : rvsdg::MatchOperation::Create(*o, { { 1, 1 } }, 0, 2);
  }
  t->set_predicate(pred);
  p.finish({ after.output, sum.output, i.output });
  p.refines([&] { pass(p); });
}
extern "C" void proof_redirect_selected() { selectedLoopVar(redirect); }
extern "C" void proof_correlate_selected() { selectedLoopVar(correlate); }

// Memory states around a call: the callee names the memory it touches.
static void
callStates(void (*pass)(Prog &))
{
  const MemoryNodeId A = 1, P = 2, X = 0;
  Prog p;
  p.anyOrder = true;
  unsigned layout = (unsigned)vf_choose(5, "states of the callee"), what = (unsigned)vf_choose(16, "accesses"), inCaller = (unsigned)vf_choose(3, "states of the caller");
  bool swapped = vf_choose(2, "order");
  auto ft = rvsdg::FunctionType::Create({ ptr(), ptr(), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  auto lam = rvsdg::LambdaNode::Create(p.root(), LlvmLambdaOperation::Create(ft, "callee", Linkage::internalLinkage));
  auto as = lam->GetFunctionArguments();
  std::vector<MemoryNodeId> ids = layout == 0 ? std::vector<MemoryNodeId>{ A, P, X } : layout == 1 ? std::vector<MemoryNodeId>{ X, A }
      : layout == 2 ? std::vector<MemoryNodeId>{ P, X } : layout == 3 ? std::vector<MemoryNodeId>{ X } : std::vector<MemoryNodeId>{ P, A };
  auto & split = LambdaEntryMemoryStateSplitOperation::CreateNode(*as[4], ids);
  std::map<MemoryNodeId, Output *> st;
  for (size_t i = 0; i < ids.size(); i++)
    st[ids[i]] = split.output(i);
  Output * v = as[2];
  auto access = [&](Output * a, MemoryNodeId id, bool ld, bool wr) {
    auto & s = st[st.count(id) ? id : X];
    if (wr)
      s = StoreNonVolatileOperation::Create(a, as[2], { s }, 4)[0];
    if (ld)
    {
      auto o = LoadNonVolatileOperation::Create(a, { s }, bits(32), 4);
      v = bin<IntegerAddOperation>(32, v, o[0]);
      s = o[1];
    }
  };
  access(as[0], A, what & 1, what & 2);
  access(as[1], P, what & 4, what & 8);
  auto back = ids;
  if (swapped)
    std::reverse(back.begin(), back.end());
  Outs out;
  for (auto i : back)
    out.push_back(st[i]);
  auto fn = lam->finalize({ v, as[3], LambdaExitMemoryStateMergeOperation::CreateNode(*lam->subregion(), out, back).output(0) });
  auto bs = p.function({ ptr(), bits(32), bits(32), ios(), mem() }, { bits(32), bits(32), bits(32), ios(), mem() });
  p.object(0, 4);
  Region & r = p.body();
  auto f = p.lambda->AddContextVar(*fn).inner;
  auto & al = AllocaOperation::createNode(bits(32), *cst(r, 32, 1), 4);
  Output * sa = StoreNonVolatileOperation::Create(al.output(0), bs[1], { al.output(1) }, 4)[0];
  auto & es = LambdaEntryMemoryStateSplitOperation::CreateNode(*bs[4], { P, X });
  Output *sp = es.output(0), *sx = es.output(1);
  std::vector<MemoryNodeId> cids = inCaller == 0 ? std::vector<MemoryNodeId>{ A, P, X } : inCaller == 1 ? std::vector<MemoryNodeId>{ P, X, A } : std::vector<MemoryNodeId>{ X, P, A };
  Outs cin;
  for (auto i : cids)
    cin.push_back(i == A ? sa : i == P ? sp : sx);
  auto m = CallEntryMemoryStateMergeOperation::CreateNode(r, cin, cids).output(0);
  auto o = CallOperation::Create(f, ft, { al.output(0), bs[0], bs[2], bs[3], m });
  auto & n = CallExitMemoryStateSplitOperation::CreateNode(*o[2], cids);
  for (size_t i = 0; i < cids.size(); i++)
    (cids[i] == A ? sa : cids[i] == P ? sp : sx) = n.output(i);
  auto la = LoadNonVolatileOperation::Create(al.output(0), { sa }, bits(32), 4);
  auto lp = LoadNonVolatileOperation::Create(bs[0], { sp }, bits(32), 4);
  sp = StoreNonVolatileOperation::Create(bs[0], bs[2], { lp[1] }, 4)[0];
  p.finish({ o[0], la[0], lp[0], o[1], LambdaExitMemoryStateMergeOperation::CreateNode(r, { la[1], sp, sx }, { A, P, X }).output(0) });
  p.refines([&] { pass(p); });
}
extern "C" void proof_redirect_callStates() { callStates(redirect); }
}
