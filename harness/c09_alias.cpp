// @property C09
// @sources rvsdg util llvm
// @proof ~proof_(local|graph)_.* scope=bounded bound="loops of up to 4 iterations"
// Contracts of the alias analyses: what they say about two addresses holds whenever both exist.
#include "pointers.h"
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.hpp>

namespace jlm::llvm
{
using aa::AliasAnalysis;
struct Queries
{
  vo::Machine & m;
  std::vector<AliasAnalysis *> as;
  bool
  inside(uint64_t p, uint64_t s)
  {
    for (auto & o : m.objs)
      if (p >= o.base && p + s <= o.base + o.size)
        return true;
    return false;
  }
  void
  at(Region & r)
  {
    if (!vf_is_const(m.ub) || m.ub)
      return;
    Outs ps;
    auto add = [&](Output * o)
    {
      auto it = m.env.find(o);
      if (it != m.env.end() && !it->second.bad && vf_is_const(it->second.v) && rvsdg::is<PointerType>(*o->Type()))
        ps.push_back(o);
    };
    for (size_t i = 0; i < r.narguments(); i++)
      add(r.argument(i));
    for (auto & n : r.Nodes())
      for (size_t i = 0; i < n.noutputs(); i++)
        add(n.output(i));
    static const size_t sizes[] = { 4, 8, 1, 12, 4, 2 };
    for (size_t i = 0; i < ps.size(); i++)
      for (size_t j = i; j < ps.size(); j++)
      {
        size_t s1 = sizes[(i * 7 + j) % 6], s2 = sizes[(i + j * 5) % 6];
        uint64_t p = m.env[ps[i]].v, q = m.env[ps[j]].v;
        if (!inside(p, s1) || !inside(q, s2))
          continue;
        bool overlap = p < q + s2 && q < p + s1;
        if (p == q)
          continue_unless(AliasAnalysis::NoAlias, *ps[i], s1, *ps[j], s2, "addresses that overlap are not separated");
        else
        {
          if (overlap)
            continue_unless(AliasAnalysis::NoAlias, *ps[i], s1, *ps[j], s2, "addresses that overlap are not separated");
          continue_unless(AliasAnalysis::MustAlias, *ps[i], s1, *ps[j], s2, "different addresses are not the same");
        }
      }
  }
  void
  continue_unless(AliasAnalysis::AliasQueryResponse wrong, Output & p, size_t s1, Output & q, size_t s2, const char * what)
  {
    for (auto a : as)
    {
      auto x = a->Query(p, s1, q, s2);
      vf_assert(x != wrong, what);
      vf_assert(a->Query(q, s2, p, s1) == x, "the order of the accesses does not matter");
    }
  }
};
static void
local(uint64_t first, uint64_t count, bool calls)
{
  Prog p;
  p.fuel = 4;
  Pointers g(p, first + vf_choose(count, "program"), calls);
  g.build();
  vo::Machine m(p.sh);
  m.deadNodes = true;
  g.environment(m);
  aa::LocalAliasAnalysis one, some, all;
  one.setMaxTraceCollectionSize(1);
  some.setMaxTraceCollectionSize(4);
  Queries q{ m, { &one, &some, &all } };
  m.after = [&](Region & r) { q.at(r); };
  p.observe(m);
}
extern "C" void proof_local_1() { local(1, 50, false); }
extern "C" void proof_local_2() { local(51, 50, false); }
extern "C" void proof_local_3() { local(101, 50, true); }
extern "C" void proof_local_4() { local(151, 50, true); }

static void
pointsTo(uint64_t first, uint64_t count, bool calls)
{
  Prog p;
  p.fuel = 4;
  Pointers g(p, first + vf_choose(count, "program"), calls);
  g.build();
  vo::Machine m(p.sh);
  m.deadNodes = true;
  g.environment(m);
  aa::Andersen andersen;
  std::shared_ptr<AliasAnalysis> graph = std::make_shared<aa::PointsToGraphAliasAnalysis>(andersen.Analyze(p.m));
  auto chain = std::make_shared<aa::ChainedAliasAnalysis>(std::make_shared<aa::LocalAliasAnalysis>(), graph);
  Queries q{ m, { graph.get(), chain.get() } };
  m.after = [&](Region & r) { q.at(r); };
  p.observe(m);
}
extern "C" void proof_graph_1() { pointsTo(201, 80, false); }
extern "C" void proof_graph_2() { pointsTo(281, 80, true); }

// Two addresses at any distances from a common origin, accesses of any sizes; all inside an object.
static void
distances(size_t n, size_t element)
{
  Prog p;
  Region & r = p.root();
  auto base = p.import(ptr(), "base", 0);
  uint64_t s[2], place[2];
  uint64_t half = 1ull << (n - 1);
  Output * a[2];
  for (unsigned i = 0; i < 2; i++)
  {
    auto o = vf_nondet(n, "offset");
    s[i] = vf_nondet(n, "size");
    // measured from the lowest address there can be
    place[i] = (((o ^ half) & (2 * half - 1))) * element;
    a[i] = GetElementPtrOperation::create(base, { cst(r, n, o) }, bits(8 * element));
  }
  aa::LocalAliasAnalysis one, all;
  one.setMaxTraceCollectionSize(1);
  for (auto x : { &one, &all })
  {
    auto res = x->Query(*a[0], s[0], *a[1], s[1]);
    if (res == AliasAnalysis::MustAlias)
      vf_assert(place[0] == place[1], "different addresses are not the same");
    if (res == AliasAnalysis::NoAlias)
      vf_assert(!vf_and(place[0] < place[1] + s[1], place[1] < place[0] + s[0]), "addresses that overlap are not separated");
  }
}
extern "C" void proof_distances8() { distances(8, 1); }
extern "C" void proof_distances16() { distances(16, 4); }
extern "C" void proof_distances32() { distances(32, 2); }
}
