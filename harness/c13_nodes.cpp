// @property C13
// @sources rvsdg util llvm
// Contracts of common and dead node elimination, stated on the real passes.
#include "gen.h"
#include <jlm/llvm/opt/CommonNodeElimination.hpp>
#include <jlm/llvm/opt/DeadNodeElimination.hpp>

namespace jlm::llvm
{
static void
cne(Prog & p)
{
  CommonNodeElimination x;
  p.transform(x);
}
static void
dne(Prog & p)
{
  DeadNodeElimination x;
  p.transform(x);
}
static void
both(Prog & p)
{
  cne(p);
  dne(p);
}
static Features
pure()
{
  Features f;
  f.steps = 6;
  return f;
}
static Features
full()
{
  Features f;
  f.memory = f.calls = f.functions = f.globals = true;
  return f;
}
static Features
barred()
{
  Features f = full();
  f.barriers = f.division = true;
  return f;
}
// Loops whose variables start congruent and drift apart over several iterations, directly, through
// branches or through an inner loop.
static void
drift(uint64_t first, uint64_t count)
{
  Prog p;
  p.fuel = 6;
  Gen g(p, pure(), first + vf_choose(count, "program"));
  auto as = p.function({ bits(32), bits(32), bits(32) }, { bits(32), bits(32), bits(32) });
  Region & r = p.body();
  unsigned n = 3 + g.rnd(3);
  auto body = [&](Region & r, Outs v, unsigned depth, auto & self) -> Outs {
    (void)depth;
    Outs x = v;
    auto one = [&](Region & q) { return cst(q, 32, 1); };
    unsigned k = g.rnd(4);
    for (unsigned i = 0; i < k; i++)
    {
      unsigned c = g.rnd(5);
      Output * a = x[g.rnd(x.size())];
      if (c == 0)
        x.push_back(one(r));
      else if (c == 1)
        x.push_back(bin<IntegerAddOperation>(32, a, one(r)));
      else if (c == 2 || c == 3)
      {
        unsigned alts = 2 + g.rnd(2);
        auto gm = rvsdg::GammaNode::create(g.match(x[g.rnd(x.size())], alts), alts);
        unsigned m = 2 + g.rnd(2);
        std::vector<Outs> in(alts);
        for (unsigned j = 0; j < m; j++)
        {
          auto ev = gm->AddEntryVar(x[g.rnd(x.size())]);
          for (unsigned b = 0; b < alts; b++)
            in[b].push_back(ev.branchArgument[b]);
        }
        for (unsigned b = 0; b < alts; b++)
          if (b == 0 || g.rnd(4) == 0)
            in[b].push_back(bin<IntegerAddOperation>(32, in[b][g.rnd(in[b].size())], one(*gm->subregion(b))));
        for (unsigned j = 0; j < 3; j++)
        {
          Outs e;
          for (unsigned b = 0; b < alts; b++)
            e.push_back(b == 0 && g.rnd(2) ? in[b].back() : in[b][g.rnd(in[b].size())]);
          x.push_back(gm->AddExitVar(e).output);
        }
      }
      else if (depth)
      {
        Outs w = self(r, x, depth - 1, self);
        x.insert(x.end(), w.begin(), w.end());
      }
    }
    return x;
  };
  auto loop = [&](Region & r, Outs v, unsigned depth, auto & self) -> Outs {
    auto t = rvsdg::ThetaNode::create(&r);
    std::vector<rvsdg::ThetaNode::LoopVar> lv;
    Outs pre;
    Output * same = v[g.rnd(v.size())];
    for (unsigned i = 0; i < n; i++)
    {
      lv.push_back(t->AddLoopVar(g.rnd(4) ? same : v[g.rnd(v.size())]));
      pre.push_back(lv.back().pre);
    }
    auto ctr = t->AddLoopVar(cst(r, 32, 0));
    Outs x = body(*t->subregion(), pre, depth, self);
    for (unsigned i = 0; i < n; i++)
      lv[i].post->divert_to(g.rnd(2) ? pre[(i + g.rnd(3)) % n] : x[g.rnd(x.size())]);
    auto next = bin<IntegerAddOperation>(32, ctr.pre, cst(*t->subregion(), 32, 1));
    ctr.post->divert_to(next);
    t->set_predicate(g.match(bin<IntegerUltOperation>(32, next, cst(*t->subregion(), 32, 1 + g.rnd(depth ? 5 : 2))), 2));
    Outs out;
    for (auto & l : lv)
      out.push_back(l.output);
    return out;
  };
  auto res = loop(r, as, 1, loop);
  Output * s = res[0];
  for (size_t i = 3; i < res.size(); i++)
    s = bin<IntegerXorOperation>(32, bin<IntegerShlOperation>(32, s, cst(r, 32, 1)), res[i]);
  p.finish({ s, res[1], res[2] });
  p.refines([&] { g.rnd(2) ? cne(p) : both(p); });
}
#define FAM(N, F, A) \
  extern "C" void proof_cne_##N##_##A() { family(F(), A, 60, both); } \
  extern "C" void proof_dne_##N##_##A() { family(F(), A + 5000, 60, dne); }
FAM(pure, pure, 0) FAM(pure, pure, 100) FAM(pure, pure, 200) FAM(pure, pure, 300)
FAM(full, full, 0) FAM(full, full, 100) FAM(full, full, 200) FAM(full, full, 300)
FAM(barred, barred, 0) FAM(barred, barred, 600)
#define DRIFT(A) extern "C" void proof_drift_##A() { drift(A, 100); }
DRIFT(0) DRIFT(100) DRIFT(200) DRIFT(300) DRIFT(400) DRIFT(500) DRIFT(600) DRIFT(700)
// Mutually recursive functions and data they refer to, some of them dead.
static void
recursion(uint64_t first, uint64_t count)
{
  recursive(first, count, [](Prog & p, Gen & g) { g.rnd(2) ? dne(p) : both(p); });
}
extern "C" void proof_recursion_0() { recursion(0, 60); }
extern "C" void proof_recursion_1() { recursion(100, 60); }

// Global data that is built from other global data.
extern "C" void
proof_globals()
{
  Prog p;
  Features f;
  Gen g(p, f, 77 + vf_choose(60, "program"));
  std::vector<Output *> ds;
  for (unsigned i = 0; i < 4; i++)
  {
    bool pointer = i > 0 && g.rnd(2);
    std::string name = "g" + std::string(1, (char)('0' + i));
    auto d = rvsdg::DeltaNode::Create(&p.root(), LlvmDeltaOperation::Create(
        pointer ? std::shared_ptr<const rvsdg::Type>(ptr()) : bits(32), name, Linkage::internalLinkage, "", true, 8));
    Outs in;
    for (unsigned j = 0; j < i; j++)
      if (g.rnd(2) || (pointer && j + 1 == i && in.empty()))
        in.push_back(d->AddContextVar(*ds[j]).inner);
    Output * v = pointer ? in[g.rnd(in.size())] : cst(*d->subregion(), 32, 10 + i);
    ds.push_back(&d->finalize(v));
  }
  auto as = p.function({ bits(32), mem() }, { bits(32), bits(64), mem() });
  Outs in;
  for (auto d : ds)
    in.push_back(g.rnd(2) ? p.lambda->AddContextVar(*d).inner : nullptr);
  Output *x = as[0], *q = cst(p.body(), 64, 0), *m = as[1];
  for (auto i : in)
    if (i)
    {
      auto o = LoadNonVolatileOperation::Create(i, { m }, bits(32), 4);
      m = o[1];
      x = bin<IntegerAddOperation>(32, x, o[0]);
      if (g.rnd(2))
        q = op<PtrToIntOperation>({ i }, ptr(), bits(64));
    }
  p.finish({ x, q, m });
  p.refines([&] { g.rnd(2) ? dne(p) : both(p); });
}
}
