// A family of programs about pointers: several objects (of the caller, imported, global, on the stack,
// on the heap), pointers that are moved, selected, merged, carried around loops, stored and loaded,
// passed to and returned from functions.
#ifndef POINTERS_H
#define POINTERS_H
#include "gen.h"

namespace jlm::llvm
{
struct Pointers
{
  struct Env
  {
    Outs base;  // to the start of an object with at least 8 bytes of integers
    Outs any;   // other addresses, some of them outside of their objects
    Outs cells; // to an object that holds a base
    Outs ints;  // i32
    Outs fns, fptrs;
    Output *io, *st;
  };
  Prog & p;
  uint64_t s;
  unsigned ng = 4, nt = 2;
  bool accesses, calls;
  Output *g = nullptr, *gp = nullptr, *e = nullptr, *ext = nullptr;
  uint64_t baseX = 0, baseY = 0;

  Pointers(Prog & p_, uint64_t seed, bool calls_ = true) : p(p_), s(seed * 0x9E3779B97F4A7C15ull + 0x7654321), calls(calls_)
  {
    rnd(2);
    rnd(2);
  }
  uint64_t
  rnd(uint64_t n)
  {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  }
  Output *
  pick(Outs & v)
  {
    size_t n = v.size();
    return v[rnd(2) && n > 2 ? n - 1 - rnd(2) : rnd(n)];
  }
  Output *
  address(Env & v)
  {
    return v.any.size() && rnd(2) ? pick(v.any) : pick(v.base);
  }
  static std::shared_ptr<const rvsdg::FunctionType>
  signature()
  {
    return rvsdg::FunctionType::Create({ ptr(), ptr(), bits(32), ios(), mem() }, { ptr(), bits(32), ios(), mem() });
  }
  void
  store(Env & v, Output * a, Output * x, size_t al)
  {
    v.st = StoreNonVolatileOperation::Create(a, x, { v.st }, al)[0];
  }
  Output *
  load(Env & v, Output * a, std::shared_ptr<const rvsdg::Type> t, size_t al)
  {
    auto o = LoadNonVolatileOperation::Create(a, { v.st }, t, al);
    v.st = o[1];
    return o[0];
  }
  void
  allocate(Region & r, Env & v)
  {
    unsigned k = rnd(5);
    if (k == 4)
    {
      auto & al = AllocaOperation::createNode(ptr(), *cst(r, 32, 1), 8);
      v.st = MemoryStateMergeOperation::Create({ v.st, al.output(1) });
      store(v, al.output(0), pick(v.base), 8);
      v.cells.push_back(al.output(0));
      return;
    }
    if (k == 3)
    {
      auto & n = MallocOperation::createNode(*cst(r, 64, 8 + 4 * rnd(2)), *v.io);
      v.io = n.output(1);
      v.st = MemoryStateMergeOperation::Create({ v.st, n.output(2) });
      v.base.push_back(n.output(0));
    }
    else
    {
      auto & al = k == 2 ? AllocaOperation::createNode(bits(32), *cst(r, 32, 2 + rnd(2)), 4)
                         : AllocaOperation::createNode(ArrayType::Create(bits(32), 2 + k), *cst(r, 32, 1), 4);
      v.st = MemoryStateMergeOperation::Create({ v.st, al.output(1) });
      v.base.push_back(al.output(0));
    }
    if (rnd(2))
      store(v, v.base.back(), pick(v.ints), 4);
    else // content is defined
    {
      store(v, v.base.back(), pick(v.ints), 4);
      store(v, GetElementPtrOperation::create(v.base.back(), { cst(r, 64, 1) }, bits(32)), pick(v.ints), 4);
    }
  }
  void
  access(Region & r, Env & v)
  {
    auto a = pick(v.base);
    if (rnd(3) == 0)
      a = GetElementPtrOperation::create(a, { cst(r, 64, 1) }, bits(32));
    if (rnd(2))
      store(v, a, pick(v.ints), 4);
    else
      v.ints.push_back(load(v, a, bits(32), 4));
  }
  void
  step(Region & r, Env & v, unsigned depth)
  {
    switch (rnd(calls ? 21 : 17))
    {
    case 0:
    {
      auto a = address(v);
      static const int64_t by[] = { 4, 4, 8, -4, 2, 0, 12 };
      v.any.push_back(GetElementPtrOperation::create(a, { cst(r, 64, by[rnd(7)]) }, bits(8)));
      return;
    }
    case 1:
    {
      auto i = bin<IntegerAndOperation>(32, pick(v.ints), cst(r, 32, 1));
      v.any.push_back(GetElementPtrOperation::create(address(v), { i }, bits(32)));
      return;
    }
    case 2:
    {
      auto t = StructType::CreateLiteral({ bits(32), ArrayType::Create(bits(16), 2) }, false);
      v.any.push_back(GetElementPtrOperation::create(address(v), { cst(r, 32, rnd(2)), cst(r, 32, rnd(2)) }, t));
      return;
    }
    case 3: case 4:
    {
      auto c = bin<IntegerUltOperation>(32, pick(v.ints), cst(r, 32, 7));
      bool b = rnd(2);
      auto x = b ? pick(v.base) : address(v), y = b ? pick(v.base) : address(v);
      (b ? v.base : v.any).push_back(op<SelectOperation>({ c, x, y }, ptr()));
      return;
    }
    case 5: case 6: return store(v, pick(v.cells), pick(v.base), 8);
    case 7: case 8: v.base.push_back(load(v, pick(v.cells), ptr(), 8)); return;
    case 9:
      v.base.push_back(IOBarrierOperation::createNode(*pick(v.base), *v.io).output(0));
      return;
    case 10:
    {
      if (rnd(2))
        return access(r, v);
      bool b = rnd(2);
      auto i = op<PtrToIntOperation>({ b ? pick(v.base) : address(v) }, ptr(), bits(64));
      (b ? v.base : v.any).push_back(op<IntToPtrOperation>({ i }, bits(64), ptr()));
      return;
    }
    case 11: return allocate(r, v);
    case 12:
      if (depth && ng)
        return branch(r, v, depth - 1);
      return access(r, v);
    case 13:
      if (depth && nt)
        return loop(r, v, depth - 1);
      return access(r, v);
    case 14: return access(r, v);
    case 15: // copies
    {
      bool b = rnd(2);
      auto & n = MemCpyNonVolatileOperation::createNode(b ? *pick(v.base) : *pick(v.cells), b ? *pick(v.base) : *pick(v.cells), *cst(r, 64, 8), { v.st });
      v.st = n.output(0);
      return;
    }
    case 16: // pointers in memory that is not of pointers, and as integers
    {
      unsigned k = rnd(3);
      if (k == 0)
      {
        auto & al = rnd(2) ? AllocaOperation::createNode(bits(64), *cst(r, 32, 1), 8) : AllocaOperation::createNode(ArrayType::Create(bits(8), 8), *cst(r, 32, 1), 8);
        v.st = MemoryStateMergeOperation::Create({ v.st, al.output(1) });
        store(v, al.output(0), pick(v.base), 8);
        v.base.push_back(load(v, al.output(0), ptr(), 8));
      }
      else if (k == 1)
        v.base.push_back(op<IntToPtrOperation>({ load(v, pick(v.cells), bits(64), 8) }, bits(64), ptr()));
      else
        store(v, pick(v.cells), op<PtrToIntOperation>({ pick(v.base) }, ptr(), bits(64)), 8);
      return;
    }
    case 17: // function pointers in memory
    {
      if (v.fptrs.empty())
        return access(r, v);
      Output * c[2];
      for (auto & x : c)
      {
        auto & al = AllocaOperation::createNode(ptr(), *cst(r, 32, 1), 8);
        v.st = MemoryStateMergeOperation::Create({ v.st, al.output(1) });
        store(v, x = al.output(0), pick(v.fptrs), 8);
      }
      if (rnd(2))
        v.st = MemCpyNonVolatileOperation::createNode(*c[1], *c[0], *cst(r, 64, 8), { v.st }).output(0);
      else
        store(v, op<SelectOperation>({ bin<IntegerUltOperation>(32, pick(v.ints), cst(r, 32, 3)), c[0], c[1] }, ptr()), pick(v.fptrs), 8);
      v.fptrs.push_back(load(v, c[1], ptr(), 8));
      return;
    }
    default:
    {
      if (v.fns.empty())
        return access(r, v);
      Output * f = v.fptrs.size() && rnd(2) ? op<PointerToFunctionOperation>({ pick(v.fptrs) }, signature()) : pick(v.fns);
      auto o = CallOperation::Create(f, signature(), { pick(v.base), rnd(3) ? pick(v.base) : pick(v.cells), pick(v.ints), v.io, v.st });
      v.base.push_back(o[0]);
      v.ints.push_back(o[1]);
      v.io = o[2];
      v.st = o[3];
    }
    }
  }
  void
  block(Region & r, Env & v, unsigned depth, unsigned n)
  {
    for (unsigned i = 0; i < n; i++)
      step(r, v, depth);
  }
  void
  branch(Region & r, Env & v, unsigned depth)
  {
    ng--;
    auto c = bin<IntegerUltOperation>(32, pick(v.ints), cst(r, 32, 5));
    auto gm = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*c, { { 0, 0 } }, 1, 2), 2);
    Env in[2];
    auto into = [&](Outs & xs, Outs Env::*m)
    {
      for (auto & x : xs)
        if (m == &Env::cells || m == &Env::fns || m == &Env::fptrs || &x == &xs[0] || rnd(3))
        {
          auto ev = gm->AddEntryVar(x);
          for (unsigned b = 0; b < 2; b++)
            (in[b].*m).push_back(ev.branchArgument[b]);
        }
    };
    into(v.base, &Env::base);
    into(v.any, &Env::any);
    into(v.cells, &Env::cells);
    into(v.ints, &Env::ints);
    into(v.fns, &Env::fns);
    into(v.fptrs, &Env::fptrs);
    auto io = gm->AddEntryVar(v.io), st = gm->AddEntryVar(v.st);
    size_t ni = in[0].ints.size(), nb = in[0].base.size();
    Env arg = in[0];
    for (unsigned b = 0; b < 2; b++)
    {
      in[b].io = io.branchArgument[b];
      in[b].st = st.branchArgument[b];
      block(*gm->subregion(b), in[b], depth, rnd(4));
    }
    (void)ni;
    (void)nb;
    for (unsigned k = 1 + rnd(2); k > 0; k--)
      v.base.push_back(gm->AddExitVar({ pick(in[0].base), pick(in[1].base) }).output);
    if (rnd(2))
      v.any.push_back(gm->AddExitVar({ address(in[0]), address(in[1]) }).output);
    if (rnd(2))
      v.ints.push_back(gm->AddExitVar({ pick(in[0].ints), pick(in[1].ints) }).output);
    if (v.fptrs.size() && rnd(2))
      v.fptrs.push_back(gm->AddExitVar({ pick(in[0].fptrs), pick(in[1].fptrs) }).output);
    v.io = gm->AddExitVar({ in[0].io, in[1].io }).output;
    v.st = gm->AddExitVar({ in[0].st, in[1].st }).output;
  }
  void
  loop(Region & r, Env & v, unsigned depth)
  {
    nt--;
    auto t = rvsdg::ThetaNode::create(&r);
    Env in;
    auto ctr = t->AddLoopVar(cst(r, 32, 0));
    struct Var
    {
      rvsdg::ThetaNode::LoopVar lv;
      Outs Env::*m;
      bool fixed;
    };
    std::vector<Var> vars;
    auto into = [&](Outs & xs, Outs Env::*m, unsigned most)
    {
      for (unsigned i = 0; i < most && !xs.empty(); i++)
      {
        Output * x = pick(xs);
        if (m == &Env::any && rnd(4) == 0)
          x = UndefValueOperation::Create(r, ptr());
        auto lv = t->AddLoopVar(x);
        (in.*m).push_back(lv.pre);
        vars.push_back({ lv, m, rnd(3) == 0 });
      }
    };
    into(v.base, &Env::base, 3);
    into(v.any, &Env::any, 2);
    into(v.cells, &Env::cells, 2);
    into(v.ints, &Env::ints, 2);
    into(v.fns, &Env::fns, 2);
    into(v.fptrs, &Env::fptrs, 1);
    auto io = t->AddLoopVar(v.io), st = t->AddLoopVar(v.st);
    in.io = io.pre;
    in.st = st.pre;
    Region & b = *t->subregion();
    block(b, in, depth, 1 + rnd(4));
    for (auto & x : vars)
    {
      if (x.fixed || x.m == &Env::fns || x.m == &Env::fptrs)
        continue;
      if (x.m == &Env::any)
        x.lv.post->divert_to(rnd(2) ? pick(in.any) : pick(in.base));
      else
        x.lv.post->divert_to(pick(in.*x.m));
    }
    io.post->divert_to(in.io);
    st.post->divert_to(in.st);
    auto next = bin<IntegerAddOperation>(32, ctr.pre, cst(b, 32, 1));
    ctr.post->divert_to(next);
    auto again = bin<IntegerUltOperation>(32, next, cst(b, 32, 2 + rnd(2)));
    t->set_predicate(rvsdg::MatchOperation::Create(*again, { { 1, 1 } }, 0, 2));
    for (auto & x : vars)
      if (rnd(2) && x.m != &Env::fns && x.m != &Env::cells)
        (v.*x.m).push_back(x.lv.output);
    v.ints.push_back(ctr.output);
    v.io = io.output;
    v.st = st.output;
  }
  void
  globals(rvsdg::LambdaNode & l, Env & v)
  {
    if (g)
      v.base.push_back(l.AddContextVar(*g).inner);
    if (e)
      v.base.push_back(l.AddContextVar(*e).inner);
    if (gp)
      v.cells.push_back(l.AddContextVar(*gp).inner);
  }
  Output *
  function(const char * name, Outs others)
  {
    auto lam = rvsdg::LambdaNode::Create(p.root(), LlvmLambdaOperation::Create(signature(), name, rnd(3) ? Linkage::internalLinkage : Linkage::externalLinkage));
    auto as = lam->GetFunctionArguments();
    Env v;
    v.base = { as[0] };
    v.ints = { as[2] };
    v.io = as[3];
    v.st = as[4];
    globals(*lam, v);
    for (auto o : others)
    {
      auto f = lam->AddContextVar(*o).inner;
      v.fns.push_back(f);
      if (rnd(2))
        v.fptrs.push_back(op<FunctionToPointerOperation>({ f }, signature()));
    }
    auto a = ng, b = nt;
    ng = nt = 1;
    if (v.cells.empty() || rnd(2))
    {
      auto & al = AllocaOperation::createNode(ptr(), *cst(*lam->subregion(), 32, 1), 8);
      v.st = MemoryStateMergeOperation::Create({ v.st, al.output(1) });
      store(v, al.output(0), as[0], 8);
      v.cells.push_back(al.output(0));
    }
    block(*lam->subregion(), v, 1, 2 + rnd(4));
    ng = a;
    nt = b;
    // addresses of the own stack do not leave the function
    Outs back = { as[0] };
    if (g)
      back.push_back(v.base[1]);
    auto o = lam->finalize({ pick(back), pick(v.ints), v.io, v.st });
    if (dynamic_cast<const LlvmLambdaOperation &>(lam->GetOperation()).linkage() == Linkage::externalLinkage)
      rvsdg::GraphExport::Create(*o, name);
    return o;
  }
  uint64_t
  at(const char * name)
  {
    return p.sh.baseOf(name);
  }
  void
  build()
  {
    auto ints = ArrayType::Create(bits(32), 3);
    bool internal = rnd(2), internalCell = rnd(2);
    if (rnd(4))
    {
      auto d = rvsdg::DeltaNode::Create(&p.root(), LlvmDeltaOperation::Create(ints, "g", internal ? Linkage::internalLinkage : Linkage::externalLinkage, "", false, 4));
      auto & dr = *d->subregion();
      g = &d->finalize(ConstantDataArrayOperation::Create({ cst(dr, 32, 1), cst(dr, 32, 2), cst(dr, 32, 3) }));
      if (!internal)
        p.result(g, "g");
    }
    if (rnd(2))
    {
      auto i = &LlvmGraphImport::createGlobalImport(p.graph(), ints, ptr(), "e", Linkage::externalLinkage, false, 4);
      e = i;
      p.init.env[e] = vo::Val(p.init.addObject(12, "e", true, "e", true));
      p.init.objs.back().site = i;
    }
    if (rnd(4))
    {
      auto d = rvsdg::DeltaNode::Create(&p.root(), LlvmDeltaOperation::Create(ptr(), "gp", internalCell ? Linkage::internalLinkage : Linkage::externalLinkage, "", false, 8));
      Output * init = g ? d->AddContextVar(*g).inner : ConstantPointerNullOperation::createNode(*d->subregion()).output(0);
      gp = &d->finalize(init);
      if (!internalCell)
        p.result(gp, "gp");
    }
    Outs fs;
    if (calls)
    {
      ext = &LlvmGraphImport::createFunctionImport(p.graph(), signature(), "ext", Linkage::externalLinkage, CallingConvention::Default);
      vo::Val f(0);
      f.fn = ext;
      p.init.env[ext] = f;
      if (rnd(2))
        fs.push_back(function("f0", rnd(2) ? Outs{ ext } : Outs{}));
      if (rnd(2))
        fs.push_back(function("f1", fs));
      if (rnd(2))
        fs.push_back(ext);
    }
    auto as = p.function({ ptr(), ptr(), bits(32), bits(32), ios(), mem() }, { bits(32), bits(32), ios(), mem() });
    baseX = p.object(0, 12);
    baseY = p.object(1, 12);
    unsigned k = rnd(6); // the pointers of the caller may be the same, or to objects of the program
    if (k == 0)
      p.args[1] = p.args[0];
    else if (k == 1 && g && !internal)
      p.args[0] = vo::Val(at("@g"));
    else if (k == 2 && e)
      p.args[1] = p.init.env[e];
    Region & r = p.body();
    Env v;
    v.base = { as[0], as[1] };
    v.ints = { as[2], as[3] };
    v.io = as[4];
    v.st = as[5];
    globals(*p.lambda, v);
    for (auto f : fs)
    {
      auto x = p.lambda->AddContextVar(*f).inner;
      v.fns.push_back(x);
      if (rnd(2))
        v.fptrs.push_back(op<FunctionToPointerOperation>({ x }, signature()));
    }
    if (gp) // its content is not known
      store(v, v.cells[0], pick(v.base), 8);
    if (!gp || rnd(2))
    {
      auto & al = AllocaOperation::createNode(ptr(), *cst(r, 32, 1), 8);
      v.st = MemoryStateMergeOperation::Create({ v.st, al.output(1) });
      store(v, al.output(0), pick(v.base), 8);
      v.cells.push_back(al.output(0));
    }
    if (rnd(2))
      allocate(r, v);
    block(r, v, 2, 7 + rnd(6));
    p.finish({ pick(v.ints), pick(v.ints), v.io, v.st });
  }
  // The environment keeps the pointers it was given and hands out any of them, or others of its own.
  void
  environment(vo::Machine & m)
  {
    m.leak = [this, &m]
    {
      for (bool again = true; again;)
      {
        again = false;
        for (auto & o : m.objs)
          if (o.escaped && o.cell)
          {
            auto x = m.load(o.base, *ptr());
            for (auto & q : m.objs)
              if (!q.escaped && vf_is_const(x.v) && x.v >= q.base && x.v <= q.base + q.size)
                q.escaped = again = true;
          }
      }
    };
    m.answer = [this, &m](size_t k, size_t i)
    {
      std::vector<uint64_t> c;
      for (auto & o : m.objs)
        if (o.escaped && !o.cell && o.size >= 8)
          c.push_back(o.base);
      // one of them, depending on the program
      uint64_t h = (s ^ (k * 31 + i) * 0x9E3779B97F4A7C15ull) >> 7;
      auto key = "pick" + std::to_string(k) + "_" + std::to_string(i);
      return vo::Val(c[h % c.size()]);
    };
  }
};
}
#endif
