// @property C20
// @sources rvsdg util llvm
// @proof ~proof_targets_.* scope=bounded bound="loops of up to 4 iterations"
// Contracts of the points-to analysis: what a pointer holds during any execution, it may target.
#include "pointers.h"
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>

namespace jlm::llvm
{
using aa::PointsToGraph;
using Node = PointsToGraph::NodeIndex;
using Config = aa::Andersen::Configuration;

static Node
node(const PointsToGraph & g, const vo::Machine::Obj & o)
{
  if (!o.site)
    return g.getExternalMemoryNode();
  for (auto n : g.allocaNodes())
    if (&g.getAllocaForNode(n) == o.site)
      return n;
  for (auto n : g.mallocNodes())
    if (&g.getMallocForNode(n) == o.site)
      return n;
  for (auto n : g.deltaNodes())
    if (&g.getDeltaForNode(n) == o.site)
      return n;
  for (auto n : g.importNodes())
    if (&g.getImportForNode(n) == o.site)
      return n;
  vf_assert(false, "every object has a node");
  return 0;
}
static Node
node(const PointsToGraph & g, const Output & fn)
{
  if (auto l = rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(fn))
    return g.getNodeForLambda(*l);
  return g.getNodeForImport(dynamic_cast<const rvsdg::GraphImport &>(fn));
}

struct Covers
{
  vo::Machine & m;
  std::vector<std::unique_ptr<PointsToGraph>> gs;

  void
  value(const PointsToGraph & g, Node source, const vo::Val & v, const char * what)
  {
    if (v.fn)
      return vf_assert(g.isTargeting(source, node(g, *v.fn)), what);
    if (v.bad || !vf_is_const(v.v))
      return;
    for (auto & o : m.objs)
      if (v.v >= o.base && v.v < o.base + o.size)
        vf_assert(g.isTargeting(source, node(g, o)), what);
  }
  void
  at(Region & r)
  {
    if (!vf_is_const(m.ub) || m.ub)
      return;
    for (auto & g : gs)
    {
      auto one = [&](Output * o)
      {
        auto it = m.env.find(o);
        if (it != m.env.end() && rvsdg::is<PointerType>(*o->Type()))
          value(*g, g->getNodeForRegister(*o), it->second, "a pointer is at one of its targets");
      };
      for (size_t i = 0; i < r.narguments(); i++)
        one(r.argument(i));
      for (auto & n : r.Nodes())
        for (size_t i = 0; i < n.noutputs(); i++)
          one(n.output(i));
      for (auto & o : m.objs)
      {
        if (o.escaped)
          vf_assert(g->isExternallyAvailable(node(*g, o)), "what the environment reaches is available to it");
        if (o.cell)
          value(*g, node(*g, o), m.load(o.base, *ptr()), "a pointer in memory is at one of its targets");
      }
    }
  }
};
static void
same(Prog & p, const PointsToGraph & a, const PointsToGraph & b)
{
  auto memory = [](const PointsToGraph & g)
  {
    std::vector<std::pair<const void *, Node>> v{ { nullptr, g.getExternalMemoryNode() } };
    for (auto n : g.allocaNodes())
      v.push_back({ &g.getAllocaForNode(n), n });
    for (auto n : g.mallocNodes())
      v.push_back({ &g.getMallocForNode(n), n });
    for (auto n : g.deltaNodes())
      v.push_back({ &g.getDeltaForNode(n), n });
    for (auto n : g.importNodes())
      v.push_back({ &g.getImportForNode(n), n });
    for (auto n : g.lambdaNodes())
      v.push_back({ &g.getLambdaForNode(n), n });
    std::sort(v.begin(), v.end());
    return v;
  };
  auto ma = memory(a), mb = memory(b);
  vf_assert(ma.size() == mb.size(), "the same objects");
  auto targets = [&](Node na, Node nb)
  {
    for (size_t i = 0; i < ma.size(); i++)
      vf_assert(a.isTargeting(na, ma[i].second) == b.isTargeting(nb, mb[i].second), "every solver computes the same targets");
  };
  for (size_t i = 0; i < ma.size(); i++)
  {
    vf_assert(ma[i].first == mb[i].first, "the same objects");
    vf_assert(a.isExternallyAvailable(ma[i].second) == b.isExternallyAvailable(mb[i].second), "every solver computes the same escapes");
    targets(ma[i].second, mb[i].second);
  }
  std::function<void(Region &)> all = [&](Region & r)
  {
    auto one = [&](Output & o)
    {
      if (rvsdg::is<PointerType>(*o.Type()))
        targets(a.getNodeForRegister(o), b.getNodeForRegister(o));
    };
    for (size_t i = 0; i < r.narguments(); i++)
      one(*r.argument(i));
    for (auto & n : r.Nodes())
    {
      for (size_t i = 0; i < n.noutputs(); i++)
        one(*n.output(i));
      if (auto s = dynamic_cast<rvsdg::StructuralNode *>(&n))
        for (size_t k = 0; k < s->nsubregions(); k++)
          all(*s->subregion(k));
    }
  };
  all(p.root());
}
static void
covers(uint64_t first, uint64_t count, bool calls)
{
  Prog p;
  p.fuel = 4;
  auto program = first + vf_choose(count, "program");
  Pointers g(p, program, calls);
  g.build();
  vo::Machine m(p.sh);
  m.deadNodes = true;
  g.environment(m);
  Covers c{ m, {} };
  auto configs = Config::GetAllConfigurations();
  configs.push_back(Config::DefaultConfiguration());
  for (size_t i = 0; i < 4; i++)
  {
    aa::Andersen x;
    x.SetConfiguration(i ? configs[(program * 37 + i * 71) % configs.size()] : Config::NaiveSolverConfiguration());
    c.gs.push_back(x.Analyze(p.m));
    if (i)
      same(p, *c.gs[0], *c.gs[i]);
  }
  c.gs.resize(1);
  m.after = [&](Region & r) { c.at(r); };
  p.observe(m);
}
extern "C" void proof_targets_1() { covers(1, 150, false); }
extern "C" void proof_targets_2() { covers(151, 100, true); }
extern "C" void proof_targets_3() { covers(251, 100, true); }
extern "C" void proof_targets_4() { covers(351, 100, true); }
}
