// @property C15
// @sources rvsdg util llvm
// Contracts of the memory optimizations that work across regions.
#include "gen.h"
#include "memprog.h"
#include <jlm/llvm/opt/AggregateAllocaSplitting.hpp>
#include <jlm/llvm/opt/IOBarrierElimination.hpp>
#include <jlm/llvm/opt/LoadChainSeparation.hpp>
#include <jlm/llvm/opt/StoreValueForwarding.hpp>

namespace jlm::llvm
{
static void
forward(Prog & p)
{
  StoreValueForwarding x;
  p.transform(x);
}
// The pass knows the splits that the memory state encoding produces, and no others.
static void
separate(Prog & p)
{
  p.anyOrder = true;
  LoadChainSeparation x;
  p.transform(x);
}
static Features
memory()
{
  Features f;
  f.memory = true;
  f.entrySplit = true;
  f.openLoops = false;
  return f;
}
static Features
open()
{
  Features f = memory();
  f.openLoops = true;
  return f;
}
static Features
full()
{
  Features f = memory();
  f.calls = f.globals = f.indexed = f.functions = true;
  return f;
}
static Features
allocas()
{
  Features f = memory();
  f.allocas = true;
  return f;
}
static Features
walking()
{
  Features f = memory();
  f.walking = true;
  f.loops = 3;
  return f;
}
// accesses that wait for calls
static Features
barred()
{
  Features f = full();
  f.barriers = f.division = true;
  f.functions = f.indexed = false;
  return f;
}
static void
barriers(Prog & p)
{
  IOBarrierElimination x;
  p.transform(x);
}
static Features
correlated()
{
  Features f = memory();
  f.correlated = true;
  return f;
}
#define FAM(PASS, F, A) \
  extern "C" void proof_##PASS##_##F##_##A() { family(F(), A, 60, PASS, 5); }
#define FAMS(PASS, A) FAM(PASS, memory, A) FAM(PASS, open, A) FAM(PASS, full, A) FAM(PASS, allocas, A) FAM(PASS, walking, A) FAM(PASS, correlated, A) FAM(PASS, barred, A)
FAMS(forward, 1000)
FAMS(separate, 2000)
FAM(barriers, barred, 3000) FAM(barriers, full, 3000)

// Loops and branches with few effects on one memory state, between loads and stores.
static void
chains(void (*pass)(Prog &))
{
  Prog p;
  p.fuel = 4;
  p.anyOrder = true;
  auto ft = rvsdg::FunctionType::Create({ ptr(), ios(), mem() }, { bits(32), ios(), mem() });
  auto ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
  vo::Val v(0);
  v.fn = ext;
  p.init.env[ext] = v;
  auto as = p.function({ ptr(), bits(32), bits(32), ios(), mem() }, { bits(32), bits(32), ios(), mem() });
  p.object(0, 4);
  // most programs have only one kind of effect in their loops
  uint64_t kind = vf_choose(9, "kind"), code = kind < 7 ? vf_choose(6, "shape") : vf_choose(25, "program");
  uint64_t s = (code * 16 + kind) * 0x9E3779B97F4A7C15ull + 7;
  auto rnd = [&](uint64_t n) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  };
  rnd(2);
  rnd(2);
  struct E
  {
    Output *a, *x, *io, *m, *v, *f;
  };
  int left = 5, loads = 3;
  unsigned before = 0;
  auto build = [&](Region & q, E b, unsigned n, unsigned depth, auto & self) -> E {
    while (n--)
      switch (left-- > 0 ? (kind < 7 ? (depth == 2 ? (before++ % 2 ? 4 : 0) : kind) : rnd(depth ? 7 : 4)) : 0)
      {
      case 0:
      case 1:
      {
        if (loads-- <= 0)
          break;
        auto o = LoadNonVolatileOperation::Create(b.a, { b.m }, bits(32), 4);
        b.v = rnd(3) ? bin<IntegerAddOperation>(32, o[0], b.v) : o[0];
        b.m = o[1];
        break;
      }
      case 2:
        b.m = StoreNonVolatileOperation::Create(b.a, rnd(2) ? b.x : b.v, { b.m }, 4)[0];
        break;
      case 3:
      {
        Output * m = b.m;
        bool sp = rnd(2);
        if (sp)
          m = CallEntryMemoryStateMergeOperation::CreateNode(q, { m }, { 3 }).output(0);
        auto o = CallOperation::Create(b.f, ft, { b.a, b.io, m });
        b.io = o[1];
        b.m = sp ? CallExitMemoryStateSplitOperation::CreateNode(*o[2], { 3 }).output(0) : o[2];
        break;
      }
      case 4:
      case 5:
      {
        auto t = rvsdg::ThetaNode::create(&q);
        auto a = t->AddLoopVar(b.a), x = t->AddLoopVar(b.x), io = t->AddLoopVar(b.io), m = t->AddLoopVar(b.m), w = t->AddLoopVar(b.v), f = t->AddLoopVar(b.f), i = t->AddLoopVar(cst(q, 32, 0));
        auto & r = *t->subregion();
        auto c = self(r, { a.pre, x.pre, io.pre, m.pre, w.pre, f.pre }, 1 + rnd(2), depth - 1, self);
        io.post->divert_to(c.io);
        m.post->divert_to(c.m);
        w.post->divert_to(c.v);
        auto next = bin<IntegerAddOperation>(32, i.pre, cst(r, 32, 1));
        i.post->divert_to(next);
        t->set_predicate(rvsdg::MatchOperation::Create(*bin<IntegerUltOperation>(32, next, cst(r, 32, 1 + rnd(2))), { { 1, 1 } }, 0, 2));
        b = { b.a, x.output, io.output, m.output, w.output, b.f }; // the address does not depend on the loop
        break;
      }
      default:
      {
        auto l = LoadNonVolatileOperation::Create(b.a, { b.m }, bits(32), 4);
        auto k = LoadNonVolatileOperation::Create(b.a, { b.m }, bits(32), 4);
        Outs x = { l[1], k[1] };
        b.v = bin<IntegerAddOperation>(32, l[0], k[0]);
        b.m = rnd(2) ? MemoryStateMergeOperation::Create(x) : MemoryStateJoinOperation::CreateNode(x).output(0);
      }
      }
    return b;
  };
  auto f = p.lambda->AddContextVar(*ext).inner;
  auto o = build(p.body(), { as[0], as[1], as[3], as[4], as[2], f }, 3 + rnd(3), 2, build);
  p.finish({ o.v, o.x, o.io, o.m });
  p.refines([&] { pass(p); });
}
// load; loop { call }; load
extern "C" void proof_separate_callLoop()
{
  Prog p;
  p.fuel = 4;
  p.anyOrder = true;
  auto ft = rvsdg::FunctionType::Create({ ptr(), ios(), mem() }, { bits(32), ios(), mem() });
  auto ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
  vo::Val v(0);
  v.fn = ext;
  p.init.env[ext] = v;
  auto as = p.function({ ptr(), bits(32), ios(), mem() }, { bits(32), bits(32), ios(), mem() });
  p.object(0, 4);
  auto l = LoadNonVolatileOperation::Create(as[0], { as[3] }, bits(32), 4);
  auto f = p.lambda->AddContextVar(*ext).inner;
  auto t = rvsdg::ThetaNode::create(&p.body());
  auto la = t->AddLoopVar(as[0]), io = t->AddLoopVar(as[2]), m = t->AddLoopVar(l[1]), lf = t->AddLoopVar(f);
  auto o = CallOperation::Create(lf.pre, ft, { la.pre, io.pre, m.pre });
  io.post->divert_to(o[1]);
  m.post->divert_to(o[2]);
  t->set_predicate(rvsdg::MatchOperation::Create(*cst(*t->subregion(), 1, 0), { { 1, 1 } }, 0, 2));
  auto k = LoadNonVolatileOperation::Create(as[0], { m.output }, bits(32), 4);
  p.finish({ l[0], k[0], io.output, k[1] });
  p.refines([&] { separate(p); });
}
extern "C" void proof_separate_chains() { chains(separate); }
extern "C" void proof_forward_chains() { chains(forward); }

// An object without initial content, and loops in which two pointers into it move.
static void
moving(void (*pass)(Prog &), bool inBranch, unsigned most)
{
  Prog p;
  p.fuel = 5;
  unsigned update = vf_choose(5, "update"), body = vf_choose(27, "body"), trips = most - 2 * vf_choose(2, "iterations");
  auto as = p.function({ bits(32), bits(32), bits(32), mem() }, { bits(32), bits(32), mem() });
  Region & r = p.body();
  auto & n = AllocaOperation::createNode(ArrayType::Create(bits(32), 6), *cst(r, 32, 1), 4);
  auto step = [&](Output * o, int64_t k) { return GetElementPtrOperation::create(o, { cst(*o->region(), 64, (uint64_t)k) }, bits(32)); };
  auto t = rvsdg::ThetaNode::create(&r);
  auto start = update == 4 ? step(n.output(0), 4) : n.output(0);
  auto lp = t->AddLoopVar(start), lq = t->AddLoopVar(step(start, 1)), m = t->AddLoopVar(n.output(1)), v = t->AddLoopVar(as[0]), w = t->AddLoopVar(as[1]), x = t->AddLoopVar(as[2]), i = t->AddLoopVar(cst(r, 32, 0));
  Region * b = t->subregion();
  Output *cp = lp.pre, *cq = lq.pre, *cm = m.pre, *cx = x.pre;
  rvsdg::GammaNode * g = nullptr;
  rvsdg::GammaNode::EntryVar ep, eq, em, ex, ev;
  Output * cv = v.pre;
  if (inBranch)
  {
    g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*w.pre, { { 7, 0 } }, 1, 2), 2);
    ep = g->AddEntryVar(cp), eq = g->AddEntryVar(cq), em = g->AddEntryVar(cm), ex = g->AddEntryVar(cx), ev = g->AddEntryVar(cv);
    b = g->subregion(1);
    cp = ep.branchArgument[1], cq = eq.branchArgument[1], cm = em.branchArgument[1], cx = ex.branchArgument[1], cv = ev.branchArgument[1];
  }
  unsigned loads = 0;
  for (unsigned k = 0, c = body; k < 3; k++, c /= 3)
    switch (c % 3)
    {
    case 0: // load at p
    {
      auto o = LoadNonVolatileOperation::Create(cp, { cm }, bits(32), 4);
      cv = o[0];
      cm = o[1];
      loads++;
      break;
    }
    case 1:
      cm = StoreNonVolatileOperation::Create(cp, cx, { cm }, 4)[0];
      break;
    default:
      cm = StoreNonVolatileOperation::Create(cq, cx, { cm }, 4)[0];
    }
  if (g)
  {
    cm = g->AddExitVar({ em.branchArgument[0], cm }).output;
    cv = g->AddExitVar({ ev.branchArgument[0], cv }).output;
    b = t->subregion();
  }
  m.post->divert_to(cm);
  v.post->divert_to(cv);
  x.post->divert_to(bin<IntegerAddOperation>(32, x.pre, cst(*b, 32, 1)));
  if (update == 1)
    lp.post->divert_to(lq.pre), lq.post->divert_to(lp.pre);
  else if (update == 2)
    lp.post->divert_to(lq.pre), lq.post->divert_to(step(lq.pre, 1));
  else if (update == 3)
    lp.post->divert_to(step(lp.pre, 1)), lq.post->divert_to(step(lp.pre, 2));
  else if (update == 4)
    lp.post->divert_to(step(lp.pre, -1)), lq.post->divert_to(lp.pre);
  auto next = bin<IntegerAddOperation>(32, i.pre, cst(*b, 32, 1));
  i.post->divert_to(next);
  t->set_predicate(rvsdg::MatchOperation::Create(*bin<IntegerUltOperation>(32, next, cst(*b, 32, trips)), { { 1, 1 } }, 0, 2));
  auto l = LoadNonVolatileOperation::Create(step(n.output(0), 1), { m.output }, bits(32), 4);
  p.finish({ v.output, l[0], MemoryStateMergeOperation::Create(Outs{ as[3], l[1] }) });
  p.refines([&] { pass(p); });
}
extern "C" void proof_forward_moving() { moving(forward, false, 4); }
extern "C" void proof_forward_movingInBranch() { moving(forward, true, 4); }
extern "C" void proof_separate_moving() { moving(separate, false, 3); }

// A loop with a branch that may store, and that decides which way the branches go that come later:
// in the same iteration, in the next one, or after the loop.
static void
decided(void (*pass)(Prog &), bool predicate, unsigned first)
{
  Prog p;
  p.fuel = 4;
  unsigned before = vf_choose(2, "before"), where = vf_choose(3, "where"), order = vf_choose(2, "order"), kept = vf_choose(2, "kept");
  unsigned second = vf_choose(3, "second"), after = vf_choose(3, "after");
  auto as = p.function({ ptr(), bits(32), bits(32), bits(32), bits(32), mem() }, { bits(32), bits(32), mem() });
  p.object(0, 4);
  Region & r = p.body();
  auto store = [](Output * a, Output * v, Output * m) { return StoreNonVolatileOperation::Create(a, v, { m }, 4)[0]; };
  auto constant = [](Region & q, uint64_t k) { return &rvsdg::ControlConstantOperation::create(q, 2, k); };
  auto m0 = before ? store(as[0], as[1], as[5]) : as[5];
  auto t = rvsdg::ThetaNode::create(&r);
  auto a = t->AddLoopVar(as[0]), x = t->AddLoopVar(as[1]), y = t->AddLoopVar(as[2]), n = t->AddLoopVar(as[3]), v = t->AddLoopVar(as[4]), m = t->AddLoopVar(m0);
  auto c = t->AddLoopVar(constant(r, first));
  Region & q = *t->subregion();
  auto next = bin<IntegerSubOperation>(32, n.pre, cst(q, 32, 1));
  struct S
  {
    Output *m, *v, *x;
  };
  // a branch with an effect in some of its regions, and the way later branches go
  auto branch = [&](Output * k, Output * addr, S s, Output * w, unsigned effects, unsigned effect, Output *& ctl, bool swap) {
    auto g = rvsdg::GammaNode::create(k, 2);
    auto ea = g->AddEntryVar(addr), em = g->AddEntryVar(s.m), ev = g->AddEntryVar(s.v), ex = g->AddEntryVar(w);
    Outs ms, vs, cs;
    for (unsigned i = 0; i < 2; i++)
    {
      Output *bm = em.branchArgument[i], *bv = ev.branchArgument[i];
      if (effects >> i & 1)
      {
        if (effect)
          bm = store(ea.branchArgument[i], ex.branchArgument[i], bm);
        else
        {
          auto l = LoadNonVolatileOperation::Create(ea.branchArgument[i], { bm }, bits(32), 4);
          bv = l[0];
          bm = l[1];
        }
      }
      ms.push_back(bm);
      vs.push_back(bv);
      cs.push_back(constant(*g->subregion(i), i ^ swap));
    }
    ctl = g->AddExitVar(cs).output;
    return S{ g->AddExitVar(ms).output, g->AddExitVar(vs).output, s.x };
  };
  Output * ctl;
  auto k = predicate ? c.pre : rvsdg::MatchOperation::Create(*next, { { 0, 1 } }, 0, 2);
  S s{ m.pre, v.pre, x.pre };
  static const unsigned effects[] = { 1, 2, 3 };
  s = branch(k, a.pre, s, y.pre, effects[where], 1, ctl, order);
  Output * used = ctl;
  if (second)
    s = branch(second == 1 ? ctl : c.pre, a.pre, s, x.pre, 2, second - 1, used, false);
  m.post->divert_to(s.m);
  v.post->divert_to(s.v);
  c.post->divert_to(kept ? ctl : used);
  n.post->divert_to(next);
  y.post->divert_to(bin<IntegerAddOperation>(32, y.pre, cst(q, 32, 1)));
  t->set_predicate(rvsdg::MatchOperation::Create(*next, { { 0, 0 } }, 1, 2));
  S e{ m.output, v.output, x.output };
  if (after < 2)
    e = branch(c.output, as[0], e, x.output, after + 1, 0, used, false);
  else
  {
    auto l = LoadNonVolatileOperation::Create(as[0], { e.m }, bits(32), 4);
    e.v = l[0];
    e.m = l[1];
  }
  p.finish({ e.v, v.output, e.m });
  p.refines([&] { pass(p); });
}
extern "C" void proof_forward_decided0() { decided(forward, false, 0); }
extern "C" void proof_forward_decided1() { decided(forward, false, 1); }
extern "C" void proof_forward_decidedBefore0() { decided(forward, true, 0); }
extern "C" void proof_forward_decidedBefore1() { decided(forward, true, 1); }

// Accesses of the same bytes as values of different types.
extern "C" void proof_forward_types()
{
  Prog p;
  std::vector<std::shared_ptr<const rvsdg::Type>> types{ bits(8), bits(16), bits(32), bits(64), ptr(), FloatingPointType::Create(fpsize::flt), FloatingPointType::Create(fpsize::dbl), ArrayType::Create(bits(16), 2) };
  auto first = types[vf_choose(8, "first")], last = types[vf_choose(8, "last")];
  bool stores = vf_choose(2, "store"), branch = vf_choose(2, "branch");
  unsigned offset = vf_choose(3, "offset") * 2;
  if (stores && dynamic_cast<const ArrayType *>(first.get()))
    return;
  bool ps = !!dynamic_cast<const PointerType *>(first.get());
  auto as = p.function({ ptr(), ps ? bits(64) : first, bits(32), mem() }, { first, last, mem() });
  p.object(0, 16);
  auto value = ps ? op<IntToPtrOperation>({ as[1] }, bits(64), ptr()) : as[1];
  auto at = [&](Output * a) { return offset ? GetElementPtrOperation::create(a, { cst(*a->region(), 64, offset) }, bits(8)) : a; };
  Output *m = as[3], *v = value;
  if (stores)
    m = StoreNonVolatileOperation::Create(as[0], value, { m }, 1)[0];
  else
  {
    auto l = LoadNonVolatileOperation::Create(as[0], { m }, first, 1);
    v = l[0];
    m = l[1];
  }
  if (branch)
  {
    auto g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*as[2], { { 7, 0 } }, 1, 2), 2);
    auto ea = g->AddEntryVar(as[0]), em = g->AddEntryVar(m);
    auto l = LoadNonVolatileOperation::Create(at(ea.branchArgument[0]), { em.branchArgument[0] }, last, 1);
    auto k = LoadNonVolatileOperation::Create(ea.branchArgument[1], { em.branchArgument[1] }, last, 1);
    auto w = g->AddExitVar({ l[0], k[0] }).output;
    m = g->AddExitVar({ l[1], k[1] }).output;
    p.finish({ v, w, m });
  }
  else
  {
    auto l = LoadNonVolatileOperation::Create(at(as[0]), { m }, last, 1);
    p.finish({ v, l[0], l[1] });
  }
  p.refines([&] { forward(p); });
}

// Loads of constant globals, which need no memory state.
extern "C" void proof_forward_constants()
{
  Prog p;
  static const unsigned offsets[] = { 0, 1, 2, 4, 5, 6, 8, 12, 19 };
  unsigned kind = vf_choose(15, "initializer"), offset = offsets[vf_choose(9, "offset")], type = vf_choose(7, "loaded type");
  auto d0 = rvsdg::DeltaNode::Create(&p.root(), LlvmDeltaOperation::Create(bits(32), "other", Linkage::externalLinkage, "", false, 4));
  auto other = &d0->finalize(cst(*d0->subregion(), 32, 3));
  auto S = StructType::CreateIdentified("S", { bits(8), bits(32), ArrayType::Create(bits(16), 2) }, false);
  auto K = StructType::CreateIdentified("K", { bits(8), bits(32) }, true);
  auto I = StructType::CreateIdentified("I", { ptr(), bits(32) }, false);
  std::shared_ptr<const rvsdg::Type> t;
  auto A16 = ArrayType::Create(bits(16), 3);
  switch (kind)
  {
  case 0: t = bits(32); break;
  case 1: t = bits(64); break;
  case 2: t = A16; break;
  case 3: case 4: t = S; break;
  case 5: t = ptr(); break;
  case 6: t = I; break;
  case 7: t = ArrayType::Create(bits(32), 2); break;
  case 8: t = ArrayType::Create(K, 2); break;
  case 9: t = ArrayType::Create(I, 1); break;
  case 10: case 14: t = ptr(); break;
  case 11: t = A16; break;
  case 13: t = I; break;
  default: t = StructType::CreateIdentified("Z", { ArrayType::Create(bits(16), 2), bits(32) }, false); break;
  }
  rvsdg::PhiBuilder pb; // for recursive data
  rvsdg::PhiNode::FixVar fv;
  Region * around = &p.root();
  auto outside = other;
  if (kind == 13)
  {
    pb.begin(around);
    other = pb.AddContextVar(*other).inner;
    fv = pb.AddFixVar(ptr());
    around = pb.subregion();
  }
  auto d = rvsdg::DeltaNode::Create(around, LlvmDeltaOperation::Create(t, "constant", Linkage::internalLinkage, "", true, 8));
  Region & q = *d->subregion();
  auto ctx = d->AddContextVar(kind == 13 ? *fv.recref : *other).inner;
  auto c = [&](unsigned w, const char * n) { return cst(q, w, vf_nondet(w, n)); };
  Output * v;
  switch (kind)
  {
  case 0: v = c(32, "v"); break;
  case 1: v = c(64, "v"); break;
  case 2: v = op<ConstantDataArrayOperation>({ c(16, "a"), c(16, "b"), c(16, "c") }, bits(16), 3); break;
  case 3: v = op<ConstantStructOperation>({ c(8, "a"), c(32, "b"), op<ConstantArrayOperation>({ c(16, "c"), c(16, "d") }, bits(16), 2) }, S); break;
  case 4: v = ConstantAggregateZeroOperation::Create(q, S); break;
  case 5: v = ctx; break;
  case 6: case 13: v = op<ConstantStructOperation>({ ctx, c(32, "b") }, I); break;
  case 7: v = op<ConstantArrayOperation>({ c(32, "a"), UndefValueOperation::Create(q, bits(32)) }, bits(32), 2); break;
  case 8: {
    auto k = op<ConstantStructOperation>({ c(8, "a"), c(32, "b") }, K);
    v = op<ConstantArrayOperation>({ k, op<ConstantStructOperation>({ c(8, "c"), c(32, "d") }, K) }, K, 2);
    break;
  }
  case 9:
    v = op<ConstantArrayOperation>({ op<ConstantStructOperation>({ GetElementPtrOperation::create(ctx, { cst(q, 64, 1) }, bits(16)), c(32, "b") }, I) }, I, 1);
    break;
  case 10: v = ConstantPointerNullOperation::createNode(q).output(0); break;
  case 11: v = UndefValueOperation::Create(q, A16); break;
  case 14: { // a constant that is used twice
    auto k = c(64, "a");
    v = op<IntToPtrOperation>({ bin<IntegerMulOperation>(64, k, bin<IntegerAddOperation>(64, k, c(64, "b"))) }, bits(64), ptr());
    break;
  }
  default: {
    auto z = std::dynamic_pointer_cast<const StructType>(t);
    v = op<ConstantStructOperation>({ ConstantAggregateZeroOperation::Create(q, z->getElementType(0)), c(32, "b") }, z);
  }
  }
  auto g = &d->finalize(v);
  if (kind == 13)
  {
    fv.result->divert_to(g);
    pb.end();
    g = fv.output;
  }
  p.result(outside, "other");
  std::shared_ptr<const rvsdg::Type> l;
  switch (type)
  {
  case 0: l = bits(8); break;
  case 1: l = bits(16); break;
  case 2: l = bits(32); break;
  case 3: l = bits(64); break;
  case 4: l = ptr(); break;
  case 5: l = FloatingPointType::Create(fpsize::flt); break;
  default: l = A16; break;
  }
  if ((kind == 4 || kind == 12) && type == 5)
    return;
  auto as = p.function({ bits(32), mem() }, { bits(32), mem() });
  auto cg = p.lambda->AddContextVar(*g).inner;
  bool branch = (kind + type) % 2;
  auto build = [&](Region & r, Output * a, Output * x) {
    if (offset)
      a = GetElementPtrOperation::create(a, { cst(r, 64, offset) }, bits(8));
    auto w = LoadNonVolatileOperation::Create(a, {}, l, 1)[0];
    if (type < 2)
      return op<ZExtOperation>({ w }, l, bits(32));
    if (type == 3)
      return op<TruncOperation>({ op<IntegerLShrOperation>({ w, cst(r, 64, 20) }, 64) }, bits(64), bits(32));
    if (type == 4)
      return op<PtrToIntOperation>({ w }, ptr(), bits(32));
    if (type == 5)
      return op<BitCastOperation>({ w }, l, bits(32));
    if (type == 6)
      return x;
    return w;
  };
  Output * v1;
  if (branch)
  {
    auto gm = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*as[0], { { 7, 0 } }, 1, 2), 2);
    auto ea = gm->AddEntryVar(cg), ex = gm->AddEntryVar(as[0]);
    v1 = gm->AddExitVar({ ex.branchArgument[0], build(*gm->subregion(1), ea.branchArgument[1], ex.branchArgument[1]) }).output;
  }
  else
    v1 = build(p.body(), cg, as[0]);
  p.finish({ v1, as[1] });
  p.refines([&] { forward(p); });
}

// Structures on the stack: every access of a field, by every kind of address.
static void
split(Prog & p)
{
  AggregateAllocaSplitting x;
  p.transform(x);
}
static void
structures(uint64_t first, uint64_t count)
{
  Prog p;
  p.fuel = 4;
  uint64_t s = (first + vf_choose(count, "program")) * 0x9E3779B97F4A7C15ull + 77;
  auto rnd = [&](uint64_t n) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  };
  rnd(2);
  rnd(2);
  std::vector<std::shared_ptr<const StructType>> types;
  types.push_back(StructType::CreateIdentified("P", { bits(32), bits(32) }, false));
  types.push_back(StructType::CreateIdentified("Q", { bits(32), StructType::CreateIdentified("I", { bits(32), bits(32) }, false) }, false));
  types.push_back(StructType::CreateIdentified("R", { StructType::CreateIdentified("J", { bits(32) }, false), ArrayType::Create(bits(32), 2) }, false));
  types.push_back(StructType::CreateIdentified("W", { bits(64), bits(16), bits(32) }, false));
  auto t = types[rnd(8) % 5 % types.size()];
  auto as = p.function({ ptr(), bits(32), bits(32), ios(), mem() }, { bits(32), bits(32), ios(), mem() });
  p.object(0, 16);
  unsigned exotic = rnd(2) ? 0 : 1 + rnd(12); // most programs have at most one unusual construction
  struct E
  {
    Outs ptrs, fields, ints;
    Output * m;
  };
  E e;
  e.ints = { as[1], as[2] };
  e.m = as[4];
  auto pick = [&](Outs & v) { return v[rnd(v.size())]; };
  auto stack = [&](Region & r, E & x) {
    auto & n = AllocaOperation::createNode(t, *cst(r, 32, exotic == 1 ? 2 : 1), 8);
    x.m = MemoryStateMergeOperation::Create(Outs{ x.m, n.output(1) });
    return n.output(0);
  };
  // address of a field
  auto field = [&](Region & r, Output * base, const std::shared_ptr<const StructType> & y) -> Output * {
    if (exotic == 2 && rnd(2)) // an address computed from another type
      return GetElementPtrOperation::create(base, { cst(r, 64, 0), cst(r, 64, rnd(2)) }, ArrayType::Create(bits(32), 2));
    if (exotic == 3 && rnd(2))
      return GetElementPtrOperation::create(base, { cst(r, 64, rnd(2) * 4) }, bits(8));
    if (exotic == 4 && rnd(2)) // a run-time index, which is zero
      return GetElementPtrOperation::create(base, { op<ZExtOperation>({ bin<IntegerAndOperation>(32, as[1], cst(p.body(), 32, 0)) }, bits(32), bits(64)), cst(r, 32, 0) }, y);
    Outs ix = { cst(r, 64, exotic == 1 || (exotic == 5 && rnd(2)) ? rnd(2) : 0) };
    std::shared_ptr<const rvsdg::Type> x = y;
    for (;;)
      if (auto st = std::dynamic_pointer_cast<const StructType>(x))
      {
        unsigned k = rnd(st->numElements());
        ix.push_back(cst(r, 32, k));
        x = st->getElementType(k);
        if (exotic == 6 && rnd(2))
          break;
      }
      else if (auto a = std::dynamic_pointer_cast<const ArrayType>(x))
      {
        ix.push_back(cst(r, 32, rnd(2)));
        x = a->GetElementType();
      }
      else
        break;
    return GetElementPtrOperation::create(base, ix, y);
  };
  int gammas = 2, thetas = 1;
  auto run = [&](Region & r, E e, unsigned n, unsigned depth, auto & self) -> E {
    while (n--)
    {
      if (rnd(2) || e.fields.empty())
      {
        Region & q = r;
        auto b = pick(e.ptrs);
        e.fields.push_back(exotic == 4 && &q != &p.body() ? GetElementPtrOperation::create(b, { cst(r, 64, 0), cst(r, 32, 0) }, t) : field(r, b, t));
      }
      auto f = e.fields[e.fields.size() - 1 - (e.fields.size() > 1 && rnd(3) == 0)];
      switch (rnd(depth ? 6 : 3))
      {
      case 0:
      {
        unsigned w = exotic == 7 && rnd(2) ? 64 : 32;
        auto o = LoadNonVolatileOperation::Create(f, { e.m }, bits(w), 4);
        e.ints.push_back(w == 32 ? o[0] : op<TruncOperation>({ bin<IntegerLShrOperation>(64, o[0], cst(r, 64, 32)) }, bits(64), bits(32)));
        e.m = o[1];
        break;
      }
      case 1:
      case 2:
      {
        Output * v = pick(e.ints);
        if (exotic == 8 && rnd(2))
          v = op<ZExtOperation>({ v }, bits(32), bits(64));
        e.m = StoreNonVolatileOperation::Create(f, v, { e.m }, 4)[0];
        break;
      }
      case 3:
      case 4:
      {
        if (gammas-- <= 0)
          break;
        auto g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*pick(e.ints), { { 0, 0 } }, 1, 2), 2);
        E in[2], out[2];
        auto pass = [&](const Outs & v, Outs E::*l) {
          for (auto o : v)
          {
            auto ev = g->AddEntryVar(o).branchArgument;
            (in[0].*l).push_back(ev[0]);
            (in[1].*l).push_back(ev[1]);
          }
        };
        pass(e.ptrs, &E::ptrs);
        pass(e.fields, &E::fields);
        pass(e.ints, &E::ints);
        auto em = g->AddEntryVar(e.m).branchArgument;
        for (unsigned k = 0; k < 2; k++)
        {
          in[k].m = em[k];
          if (exotic == 9 && k && rnd(2))
            in[k].ptrs.push_back(stack(*g->subregion(k), in[k]));
          out[k] = rnd(3) ? self(*g->subregion(k), in[k], 1 + rnd(2), depth - 1, self) : in[k];
        }
        e.m = g->AddExitVar({ out[0].m, out[1].m }).output;
        e.ints.push_back(g->AddExitVar({ out[0].ints.back(), out[1].ints.back() }).output);
        if (exotic >= 10 || exotic == 9)
          e.ptrs.push_back(g->AddExitVar({ pick(out[0].ptrs), out[1].ptrs.back() }).output);
        else if (rnd(2)) // the same structure in both alternatives
          e.ptrs.push_back(g->AddExitVar({ in[0].ptrs[0], in[1].ptrs[0] }).output);
        if (!out[0].fields.empty() && !out[1].fields.empty() && rnd(2))
          e.fields.push_back(g->AddExitVar({ pick(out[0].fields), pick(out[1].fields) }).output);
        break;
      }
      default:
      {
        if (thetas-- <= 0)
          break;
        auto th = rvsdg::ThetaNode::create(&r);
        E in;
        std::vector<rvsdg::ThetaNode::LoopVar> lp, lf, li;
        for (auto o : e.ptrs)
          lp.push_back(th->AddLoopVar(o)), in.ptrs.push_back(lp.back().pre);
        for (auto o : e.fields)
          lf.push_back(th->AddLoopVar(o)), in.fields.push_back(lf.back().pre);
        for (auto o : e.ints)
          li.push_back(th->AddLoopVar(o)), in.ints.push_back(li.back().pre);
        auto lm = th->AddLoopVar(e.m), lc = th->AddLoopVar(cst(r, 32, 0));
        in.m = lm.pre;
        auto & b = *th->subregion();
        if (exotic == 10 && rnd(2))
          in.ptrs.push_back(stack(b, in));
        auto out = self(b, in, 1 + rnd(3), depth - 1, self);
        lm.post->divert_to(out.m);
        li[0].post->divert_to(out.ints.back());
        if (!lf.empty())
          lf.back().post->divert_to(pick(out.fields));
        if (exotic == 11) // structures change places
        {
          for (size_t k = 0; k < lp.size(); k++)
            lp[k].post->divert_to(lp[(k + 1) % lp.size()].pre);
        }
        else if (exotic == 10)
          lp.back().post->divert_to(out.ptrs.back());
        auto next = bin<IntegerAddOperation>(32, lc.pre, cst(b, 32, 1));
        lc.post->divert_to(next);
        th->set_predicate(rvsdg::MatchOperation::Create(*bin<IntegerUltOperation>(32, next, cst(b, 32, 2)), { { 1, 1 } }, 0, 2));
        e.m = lm.output;
        e.ints.push_back(li[0].output);
        for (size_t k = 0; k < lp.size(); k++)
          if (rnd(2))
            e.ptrs[k] = lp[k].output;
        if (!lf.empty() && rnd(2))
          e.fields.push_back(lf.back().output);
        break;
      }
      }
    }
    return e;
  };
  Region & r = p.body();
  e.ptrs.push_back(stack(r, e));
  if (rnd(2))
    e.ptrs.push_back(stack(r, e));
  if (exotic == 12)
    e.ptrs.push_back(as[0]);
  for (auto b : e.ptrs) // some of the content is defined
    for (unsigned k = 0; k < 2; k++)
      e.m = StoreNonVolatileOperation::Create(GetElementPtrOperation::create(b, { cst(r, 64, 0), cst(r, 32, 0) }, t), e.ints[k], { e.m }, 4)[0];
  auto o = run(r, e, 4 + rnd(3), 2, run);
  p.finish({ o.ints.back(), pick(o.ints), as[3], o.m });
  p.refines([&] { split(p); });
}
extern "C" void proof_split_structures0() { structures(0, 60); }
extern "C" void proof_split_structures1() { structures(60, 60); }
extern "C" void proof_split_structures2() { structures(120, 60); }
extern "C" void proof_split_structures3() { structures(180, 60); }

// Loads of several sizes, of which some wait for calls and others do not.
static void
waitingLoads(uint64_t first, uint64_t count)
{
  Prog p;
  auto ft = rvsdg::FunctionType::Create({ ios(), mem() }, { ios(), mem() });
  auto ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
  vo::Val v(0);
  v.fn = ext;
  p.init.env[ext] = v;
  auto as = p.function({ ptr(), ptr(), bits(32), ios(), mem() }, { bits(64), ios(), mem() });
  p.object(0, 8);
  p.object(1, 8);
  for (auto & o : p.init.objs) // the calls do not know them
    o.escaped = false;
  uint64_t s = (first + vf_choose(count, "program")) * 0x9E3779B97F4A7C15ull + 7;
  auto rnd = [&](uint64_t n) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  };
  rnd(2);
  Region & r = p.body();
  std::vector<Output *> io{ as[3] }, ps{ as[0], as[1], GetElementPtrOperation::create(as[0], { cst(r, 64, 1) }, bits(32)) };
  auto lanes = MemoryStateSplitOperation::Create(*as[4], 2);
  auto f = p.lambda->AddContextVar(*ext).inner;
  Output * sum = cst(r, 64, 0);
  auto one = [&](Region & q, std::vector<Output *> & ps, std::vector<Output *> & io, Output * sum, Output *& lane) {
    unsigned w = 8u << rnd(4);
    auto a = ps[rnd(2) ? 0 : rnd(ps.size())];
    if (a == ps[2] && w == 64)
      w = 16;
    Output * m = lane;
    if (rnd(4))
      a = IOBarrierOperation::createNode(*a, *io[rnd(io.size())]).output(0);
    auto o = LoadNonVolatileOperation::Create(a, { m }, bits(w), 1);
    if (rnd(2))
      lane = o[1];
    auto x = w == 64 ? o[0] : op<ZExtOperation>({ o[0] }, bits(w), bits(64));
    (void)q;
    return bin<IntegerXorOperation>(64, sum, x);
  };
  unsigned n = 2 + rnd(3);
  while (n--)
    switch (rnd(5))
    {
    case 0:
    case 1:
    {
      auto o = CallOperation::Create(f, ft, { io.back(), lanes[0] });
      io.push_back(o[0]);
      lanes[0] = o[1];
      break;
    }
    case 2: // in a branch
    {
      auto g = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*as[2], { { 0, 0 } }, 1, 2), 2);
      auto ev = [&](Output * o) { return g->AddEntryVar(o); };
      std::vector<Output *> p0, i0;
      for (auto o : ps)
        p0.push_back(ev(o).branchArgument[0]);
      for (auto o : io)
        i0.push_back(ev(o).branchArgument[0]);
      auto es = ev(sum), em = ev(lanes[1]);
      Output * m = em.branchArgument[0];
      auto x = one(*g->subregion(0), p0, i0, es.branchArgument[0], m);
      x = one(*g->subregion(0), p0, i0, x, m);
      sum = g->AddExitVar({ x, es.branchArgument[1] }).output;
      lanes[1] = g->AddExitVar({ m, em.branchArgument[1] }).output;
      break;
    }
    default: break;
    }
  n = 2 + rnd(4);
  while (n--)
    sum = one(r, ps, io, sum, lanes[1]);
  p.finish({ sum, io.back(), MemoryStateMergeOperation::Create(lanes) });
  p.refines([&] { barriers(p); });
}
extern "C" void proof_barriers_waiting0() { waitingLoads(0, 150); }
extern "C" void proof_barriers_waiting1() { waitingLoads(150, 150); }
}
