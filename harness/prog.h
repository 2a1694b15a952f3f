// A program under transformation: builds a module, fixes its inputs (symbolic), evaluates it with
// the reference interpreter before and after a transformation and states that the observations of
// the original are kept.
#ifndef PROG_H
#define PROG_H
#include "oracle.h"
#include <jlm/rvsdg/Transformation.hpp>

namespace jlm::llvm
{
using rvsdg::Output;
using rvsdg::Region;
using rvsdg::BitType;
using rvsdg::BitValueRepresentation;
using Outs = std::vector<Output *>;
using Types = std::vector<std::shared_ptr<const rvsdg::Type>>;

static inline std::shared_ptr<const BitType>
bits(unsigned w)
{
  return BitType::Create(w);
}
static inline std::shared_ptr<const PointerType>
ptr()
{
  return PointerType::Create();
}
static inline std::shared_ptr<const MemoryStateType>
mem()
{
  return MemoryStateType::Create();
}
static inline std::shared_ptr<const IOStateType>
ios()
{
  return IOStateType::Create();
}
static inline BitValueRepresentation
sym(unsigned w, uint64_t v)
{
  auto r = BitValueRepresentation::repeat(w, '0');
  for (unsigned i = 0; i < w && i < 64; i++)
    r[i] = (char)('0' + ((v >> i) & 1));
  return r;
}
static inline Output *
cst(Region & r, unsigned w, uint64_t v)
{
  return IntegerConstantOperation::Create(r, sym(w, v)).output(0);
}
template<class OP, class... A>
static inline Output *
op(Outs in, A &&... a)
{
  return rvsdg::CreateOpNode<OP>(in, std::forward<A>(a)...).output(0);
}
template<class OP, class... A>
static inline rvsdg::Node &
node(Outs in, A &&... a)
{
  return rvsdg::CreateOpNode<OP>(in, std::forward<A>(a)...);
}
// integer operations
template<class OP>
static inline Output *
bin(unsigned w, Output * a, Output * b)
{
  return op<OP>({ a, b }, w);
}
static inline Output *
load(Output * p, Outs st, std::shared_ptr<const rvsdg::Type> t, size_t al = 4)
{
  return LoadNonVolatileOperation::Create(p, st, t, al)[0];
}

struct Prog
{
  LlvmRvsdgModule m{ util::FilePath(""), "", "" };
  vo::Shared sh;
  vo::Machine init{ sh }; // the state in which the program starts
  std::vector<vo::Val> args;
  Types argTypes, resTypes;
  rvsdg::LambdaNode * lambda = nullptr;
  std::string mainName = "main";
  unsigned fuel = 8;
  bool boundAfter = false; // a loop that runs longer than before is a violation
  bool anyOrder = false;   // compare with every schedule of the transformed program

  rvsdg::Graph & graph() { return m.Rvsdg(); }
  Region & root() { return m.Rvsdg().GetRootRegion(); }

  // a value the program knows nothing about
  Output *
  import(std::shared_ptr<const rvsdg::Type> t, const char * name, uint64_t v)
  {
    auto & x = rvsdg::GraphImport::Create(graph(), t, name);
    init.env[&x] = vo::Val(v);
    return &x;
  }
  Output *
  import(unsigned w, const char * name)
  {
    return import(bits(w), name, vf_nondet(w, name));
  }
  void
  result(Output * o, const char * name = "r")
  {
    rvsdg::GraphExport::Create(*o, name);
  }
  // starts the function under transformation; all arguments are arbitrary values
  Outs
  function(Types as, Types rs)
  {
    argTypes = as;
    resTypes = rs;
    auto ft = rvsdg::FunctionType::Create(as, rs);
    lambda = rvsdg::LambdaNode::Create(
        root(), LlvmLambdaOperation::Create(ft, mainName, Linkage::externalLinkage));
    Outs r;
    size_t i = 0;
    for (auto a : lambda->GetFunctionArguments())
    {
      auto & t = *as[i++];
      args.push_back(t.Kind() == rvsdg::TypeKind::Value && !dynamic_cast<const PointerType *>(&t)
                         ? vo::Val(vf_nondet(vo::bitsOf(t), "arg")) : vo::Val(0));
      r.push_back(a);
    }
    return r;
  }
  Region & body() { return *lambda->subregion(); }
  // makes argument i point to a fresh caller object
  uint64_t
  object(size_t i, uint64_t size, const char * name = "mem")
  {
    uint64_t b = init.addObject(size, name, true, (std::string("arg") + std::to_string(i)).c_str(), true);
    args[i] = vo::Val(b);
    return b;
  }
  Output *
  finish(Outs results)
  {
    auto o = lambda->finalize(results);
    rvsdg::GraphExport::Create(*o, mainName);
    return o;
  }

  std::vector<vo::Val>
  observe(vo::Machine & mc)
  {
    for (auto & kv : init.env)
      mc.env[kv.first] = kv.second;
    mc.objs = init.objs;
    mc.fuel = fuel;
    auto & r = root();
    mc.run(r);
    std::vector<vo::Val> out;
    const Output * mainFn = nullptr;
    for (size_t i = 0; i < r.nresults(); i++)
    {
      auto v = mc.at(r.result(i)->origin());
      auto ge = dynamic_cast<rvsdg::GraphExport *>(r.result(i));
      if (v.fn && ge && ge->Name() == mainName)
        mainFn = v.fn;
      else if (!v.fn && ge)
        out.push_back(v);
    }
    if (mainFn)
    {
      auto lam = rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(*mainFn);
      vf_assert(lam->GetFunctionArguments().size() == args.size(), "the signature is kept");
      auto rs = lam->GetFunctionResults();
      vf_assert(rs.size() == resTypes.size(), "the signature is kept");
      auto vs = mc.call(*lam, args);
      for (size_t i = 0; i < vs.size(); i++)
        if (resTypes[i]->Kind() == rvsdg::TypeKind::Value)
          out.push_back(vs[i]);
    }
    else if (lambda)
      vf_assert(false, "the exported function is kept");
    return out;
  }
  // Contract of a transformation f: the observations after refine those before.
  template<class F>
  void
  refines(F f, const char * what = "the transformation keeps every result")
  {
    vo::Machine before(sh);
    before.deadNodes = true;
    auto a = observe(before);
    f();
    vo::Machine after(sh);
    after.boundIsViolation = boundAfter;
    after.anyOrder = anyOrder;
    wellFormed(root());
    auto b = observe(after);
    vf_assert(a.size() == b.size(), "the number of results is kept");
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
      vo::sameValue(a[i], b[i], before.ub, what);
    vo::sameObservations(before, after, "the transformation keeps all visible memory");
  }
  // Both orders of independent nodes give the same observations (before and after).
  template<class T>
  void
  transform(T & t)
  {
    util::StatisticsCollector sc;
    t.Run(m, sc);
  }
  template<class T>
  void
  check(T & t, const char * what = "the transformation keeps every result")
  {
    refines([&] { transform(t); }, what);
  }
  // structural contract of every graph: edges stay in their region, types agree
  static void
  wellFormed(Region & r)
  {
    auto edge = [&](rvsdg::Input & in)
    {
      vf_assert(in.origin()->region() == &r, "operands and users are in the same region");
      vf_assert(*in.Type() == *in.origin()->Type(), "types agree along every edge");
    };
    for (auto & n : r.Nodes())
    {
      for (size_t i = 0; i < n.ninputs(); i++)
        edge(*n.input(i));
      if (auto s = dynamic_cast<rvsdg::StructuralNode *>(&n))
        for (size_t k = 0; k < s->nsubregions(); k++)
          wellFormed(*s->subregion(k));
    }
    for (size_t i = 0; i < r.nresults(); i++)
      edge(*r.result(i));
  }
};
}
#endif
