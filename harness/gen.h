// A family of programs: number n of the family is built from the n-th pseudo-random sequence, so the
// family is fixed; the inputs, the initial memory and the answers of external functions of every
// program are arbitrary.  Programs nest branches and loops, share and repeat subexpressions, pass
// values through unchanged, access memory in the encodings of the memory-state encoder, and call.
#ifndef GEN_H
#define GEN_H
#include "prog.h"

namespace jlm::llvm
{
struct Features
{
  bool memory = false, calls = false, division = false, wide = false, functions = false, globals = false;
  bool indexed = false; // addresses with run-time indices
  bool allocas = false; // allocations anywhere, whose address may outlive the iteration
  bool correlated = false; // loops whose predicate is correlated with a branch in the loop
  bool invariants = false; // functions that return some of their arguments
  bool speculative = false; // pure code outside of branches that use it
  bool walking = false; // loops and branches that permute pointers
  bool controls = false; // branches that decide which way later branches go
  bool matches = false; // matches with several cases and several users
  bool barriers = false; // accesses that wait for the external events before them
  bool entrySplit = false; // the state of the caller is split as the encoder splits it
  bool inlinable = false; // functions that call each other, take pointers, and know the locations by number
  unsigned depth = 2, steps = 5, loops = 2 /* most iterations of counted loops */;
  bool openLoops = true; // loops whose trip count depends on inputs
  unsigned gammas = 3, thetas = 2; // how many in total
};

struct Gen
{
  struct Env
  {
    Outs ints; // i32
    Outs st;   // memory states
    Output * io = nullptr;
    std::vector<Outs> ptrs; // per location
    Outs fns;
    Outs preds; // matches with two alternatives
  };
  Prog & p;
  Features f;
  uint64_t s;
  bool split = false;
  unsigned ng = 0, nt = 0;
  Output * ext = nullptr;
  Output * local = nullptr;

  Gen(Prog & p_, Features f_, uint64_t seed) : p(p_), f(f_), s(seed * 0x9E3779B97F4A7C15ull + 0x1234567)
  {
    rnd(2);
    rnd(2);
  }
  unsigned elems() const { return f.walking ? 3 : 2; }
  uint64_t
  rnd(uint64_t n)
  {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  }
  template<class T>
  T &
  pick(std::vector<T> & v)
  {
    return v[rnd(v.size())];
  }
  // prefers recent values
  Output *
  val(Env & e)
  {
    size_t n = e.ints.size();
    return e.ints[rnd(2) && n > 3 ? n - 1 - rnd(3) : rnd(n)];
  }
  Output *
  val_(Outs & v)
  {
    return v[rnd(2) ? v.size() - 1 : rnd(v.size())];
  }
  struct Made
  {
    unsigned k;
    Output *a, *b;
  };
  Output *
  arith(unsigned k, Output * a, Output * b)
  {
    Region & r = *a->region();
    switch (k)
    {
    case 0: return bin<IntegerAddOperation>(32, a, b);
    case 1: return bin<IntegerSubOperation>(32, a, b);
    case 2: return bin<IntegerAndOperation>(32, a, b);
    case 3: return bin<IntegerOrOperation>(32, a, b);
    case 4: return bin<IntegerXorOperation>(32, a, b);
    case 5: return op<ZExtOperation>({ bin<IntegerUltOperation>(32, a, b) }, bits(1), bits(32));
    case 6: return op<SelectOperation>({ bin<IntegerEqOperation>(32, a, b), a, cst(r, 32, 5) }, bits(32));
    case 7: return bin<IntegerShlOperation>(32, a, cst(r, 32, 1));
    case 8: return op<SExtOperation>({ op<TruncOperation>({ a }, bits(32), bits(8)) }, bits(8), bits(32));
    case 9: return op<SelectOperation>({ bin<IntegerSltOperation>(32, a, b), b, a }, bits(32));
    case 10: return bin<IntegerUDivOperation>(32, a, b);
    default: return bin<IntegerSRemOperation>(32, a, cst(r, 32, 0xffffffff));
    }
  }
  Output *
  condition(Output * a, Output * b)
  {
    if (rnd(2))
      return bin<IntegerEqOperation>(32, a, b);
    return rnd(2) ? bin<IntegerUltOperation>(32, a, b) : bin<IntegerSltOperation>(32, a, b);
  }
  Output *
  match(Output * c, uint64_t alts)
  {
    if (vo::bitsOf(*c->Type()) == 1)
      return rnd(2) ? rvsdg::MatchOperation::Create(*c, { { 0, 0 } }, 1, 2)
                    : rvsdg::MatchOperation::Create(*c, { { 1, 1 } }, 0, 2);
    if (alts == 2 && f.matches && rnd(2))
    {
      switch (rnd(4))
      {
      case 0: return rvsdg::MatchOperation::Create(*c, { { 0, 1 }, { 2, 1 } }, 0, 2);
      case 1: return rvsdg::MatchOperation::Create(*c, { { 0, 0 }, { 1, 1 } }, rnd(2), 2);
      case 2: return rvsdg::MatchOperation::Create(*c, { { 1, 1 }, { 0, 0 }, { 3, 0 } }, 1, 2);
      default: return rvsdg::MatchOperation::Create(*c, { { 0, 0 }, { 1, 0 } }, 1, 2);
      }
    }
    if (alts == 2)
      return rvsdg::MatchOperation::Create(*c, { { rnd(3), 1 } }, 0, 2);
    return rvsdg::MatchOperation::Create(*c, { { 0, 0 }, { 1, rnd(2) ? 1ull : 2ull } }, rnd(2) ? 2 : 1, alts);
  }
  Output *
  address(Env & e, size_t loc)
  {
    auto & ps = e.ptrs[loc];
    Output * a = ps[rnd(ps.size())];
    if (f.barriers && e.io && rnd(2))
      a = IOBarrierOperation::createNode(*a, *e.io).output(0);
    if (rnd(2))
      return a;
    Region & r = *a->region();
    if (f.indexed && rnd(2))
    {
      auto i = bin<IntegerAndOperation>(32, val(e), cst(r, 32, 1));
      return GetElementPtrOperation::create(a, { i }, bits(32));
    }
    return GetElementPtrOperation::create(a, { cst(r, 64, 1) }, bits(32));
  }
  size_t stateOf(size_t loc) const { return split ? loc : 0; }

  void
  memoryOp(Env & e)
  {
    size_t loc = rnd(e.ptrs.size());
    auto a = address(e, loc);
    auto & st = e.st[stateOf(loc)];
    if (f.calls && e.io && rnd(7) == 0)
    {
      if (rnd(2))
      {
        auto & n = LoadVolatileOperation::CreateNode(*a, *e.io, { st }, bits(32), 4);
        if (rnd(2))
          e.ints.push_back(n.output(0));
        e.io = n.output(1);
        st = n.output(2);
      }
      else
      {
        auto & n = StoreVolatileOperation::CreateNode(*a, *val(e), *e.io, { st }, 4);
        e.io = n.output(0);
        st = n.output(1);
      }
    }
    else if (rnd(2))
    {
      auto o = LoadNonVolatileOperation::Create(a, { st }, bits(32), 4);
      if (rnd(4)) // or the value is not used
        e.ints.push_back(o[0]);
      st = o[1];
    }
    else
      st = StoreNonVolatileOperation::Create(a, val(e), { st }, 4)[0];
  }
  // an allocation that is written and whose address is kept as a number or a location
  void
  allocaOp(Region & r, Env & e)
  {
    auto & al = AllocaOperation::createNode(ArrayType::Create(bits(32), 2), *cst(r, 32, 1), 4);
    Output * a = al.output(0);
    size_t loc = rnd(e.ptrs.size());
    if (f.inlinable)
      loc = 0; // allocations do not escape
    auto & st = e.st[stateOf(loc)];
    st = MemoryStateMergeOperation::Create({ st, al.output(1) });
    st = StoreNonVolatileOperation::Create(a, val(e), { st }, 4)[0];
    auto q = GetElementPtrOperation::create(a, { cst(r, 64, 1) }, bits(32));
    st = StoreNonVolatileOperation::Create(q, val(e), { st }, 4)[0];
    e.ptrs[loc].push_back(a);
    if (rnd(2))
    {
      auto o = LoadNonVolatileOperation::Create(rnd(2) ? a : q, { st }, bits(32), 4);
      e.ints.push_back(o[0]);
      st = o[1];
    }
  }
  static std::shared_ptr<const rvsdg::FunctionType>
  calleeType()
  {
    return rvsdg::FunctionType::Create({ ptr(), bits(32), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  }
  // a call that passes the location of the caller's memory, with or without the numbers of the locations
  void
  inlinableCall(Env & e)
  {
    Region & r = *e.io->region();
    size_t n = e.st.size();
    std::vector<MemoryNodeId> ids;
    for (size_t l = 0; l < n; l++)
      ids.push_back(l + 1);
    bool numbered = n > 1 && rnd(4);
    if (numbered && rnd(2)) // in any order
      std::swap(ids[0], ids[n - 1]);
    Outs in;
    for (size_t l = 0; l < n; l++)
      in.push_back(numbered ? e.st[ids[l] - 1] : e.st[l]);
    Output * m = numbered ? CallEntryMemoryStateMergeOperation::CreateNode(r, in, ids).output(0)
               : n == 1 ? in[0] : MemoryStateMergeOperation::Create(in);
    auto & ps = e.ptrs[1];
    auto o = CallOperation::Create(pick(e.fns), calleeType(), { ps[rnd(ps.size())], val(e), val(e), e.io, m });
    e.ints.push_back(o[0]);
    e.io = o[1];
    if (numbered)
    {
      if (rnd(2))
        std::swap(ids[0], ids[1]);
      auto & x = CallExitMemoryStateSplitOperation::CreateNode(*o[2], ids);
      for (size_t l = 0; l < n; l++)
        e.st[ids[l] - 1] = x.output(l);
    }
    else if (n == 1)
      e.st[0] = o[2];
    else
      e.st = MemoryStateSplitOperation::Create(*o[2], n);
  }
  // a function for inlining; others are those it may call
  Output *
  inlinable(const char * name, Outs others, Output * glob)
  {
    auto lam = rvsdg::LambdaNode::Create(p.root(), LlvmLambdaOperation::Create(calleeType(), name, Linkage::internalLinkage));
    auto as = lam->GetFunctionArguments();
    Region & r = *lam->subregion();
    Env e;
    e.ints = { as[1], as[2] };
    e.io = as[3];
    for (auto o : others)
      e.fns.push_back(lam->AddContextVar(*o).inner);
    auto g = ng, t = nt;
    auto sp = split;
    split = glob && rnd(2);
    ng = f.gammas - 1;
    nt = f.thetas - 1;
    auto count = cst(r, 32, 1);
    auto & al = AllocaOperation::createNode(ArrayType::Create(bits(32), 2), *count, 4);
    e.ptrs = { { al.output(0) }, { as[0] } };
    if (glob)
      e.ptrs.push_back({ lam->AddContextVar(*glob).inner });
    Output * st;
    size_t n = e.ptrs.size();
    std::vector<MemoryNodeId> ids;
    bool numbered = split && rnd(4), all = numbered && rnd(3);
    if (split)
    {
      for (size_t l = all ? 0 : 1; l < n; l++)
        ids.push_back(l + 1);
      if (numbered && rnd(2))
        std::swap(ids[0], ids[1]);
      e.st.resize(n);
      if (numbered)
      {
        auto & x = LambdaEntryMemoryStateSplitOperation::CreateNode(*as[4], ids);
        for (size_t l = 0; l < ids.size(); l++)
          e.st[ids[l] - 1] = x.output(l);
      }
      else
        e.st = MemoryStateSplitOperation::Create(*as[4], n);
      e.st[0] = e.st[0] && (all || !numbered) ? MemoryStateMergeOperation::Create({ e.st[0], al.output(1) }) : al.output(1);
      st = e.st[0];
    }
    else
      st = MemoryStateMergeOperation::Create({ as[4], al.output(1) });
    st = StoreNonVolatileOperation::Create(al.output(0), as[1], { st }, 4)[0];
    auto q = GetElementPtrOperation::create(al.output(0), { cst(r, 64, 1) }, bits(32));
    st = StoreNonVolatileOperation::Create(q, as[2], { st }, 4)[0];
    if (split)
      e.st[0] = st;
    else
      e.st = { st };
    block(r, e, 1, 1 + rnd(4), true);
    Output * m;
    if (!split)
      m = e.st[0];
    else if (numbered)
    {
      Outs in;
      if (rnd(2))
        std::swap(ids[0], ids[1]);
      for (auto i : ids)
        in.push_back(e.st[i - 1]);
      m = LambdaExitMemoryStateMergeOperation::CreateNode(r, in, ids).output(0);
    }
    else
      m = MemoryStateMergeOperation::Create(e.st);
    split = sp;
    ng = g;
    nt = t;
    return lam->finalize({ rnd(4) ? val(e) : as[1 + rnd(2)], e.io, m });
  }
  void
  callOp(Env & e)
  {
    if (f.inlinable)
      return inlinableCall(e);
    auto ft = rvsdg::FunctionType::Create({ bits(32), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
    std::vector<MemoryNodeId> ids;
    for (MemoryNodeId i = 0; i < e.st.size(); i++)
      ids.push_back(i);
    auto m = e.st.size() == 1 ? e.st[0]
        : f.entrySplit ? CallEntryMemoryStateMergeOperation::CreateNode(*e.st[0]->region(), e.st, ids).output(0)
                       : MemoryStateMergeOperation::Create(e.st);
    auto o = CallOperation::Create(pick(e.fns), ft, { val(e), val(e), e.io, m });
    e.ints.push_back(o[0]);
    e.io = o[1];
    if (e.st.size() == 1)
      e.st[0] = o[2];
    else
      e.st = f.entrySplit ? rvsdg::outputs(&CallExitMemoryStateSplitOperation::CreateNode(*o[2], ids))
                          : MemoryStateSplitOperation::Create(*o[2], e.st.size());
  }
  void
  block(Region & r, Env & e, unsigned depth, unsigned steps, bool calls)
  {
    std::vector<Made> made;
    for (unsigned i = 0; i < steps; i++)
    {
      unsigned c = rnd(16);
      if (c < 4)
      {
        Made m{ (unsigned)rnd(f.division ? 12 : 10), val(e), val(e) };
        if (f.barriers && m.k == 10 && e.io)
          m.b = IOBarrierOperation::createNode(*m.b, *e.io).output(0);
        e.ints.push_back(arith(m.k, m.a, m.b));
        made.push_back(m);
      }
      else if (c < 6)
        e.ints.push_back(cst(r, 32, rnd(3)));
      else if (c < 8 && !made.empty())
      {
        auto & m = pick(made);
        e.ints.push_back(arith(m.k, m.a, m.b));
      }
      else if (c < 11 && f.memory && !e.st.empty())
      {
        if (f.allocas && rnd(4) == 0)
          allocaOp(r, e);
        else
          memoryOp(e);
      }
      else if (c < 12 && calls && e.io && !e.st.empty() && !e.fns.empty())
        callOp(e);
      else if (c < 14 && depth && ng < f.gammas)
        gamma(r, e, depth - 1, calls);
      else if (c >= 14 && depth && nt < f.thetas)
      {
        if (f.correlated && rnd(3))
          correlatedLoop(r, e, depth - 1, calls);
        else
          theta(r, e, depth - 1, calls);
      }
      else if (e.ints.size() >= 2)
        e.ints.push_back(arith(rnd(5), val(e), val(e)));
    }
  }
  // which outer values reach a subregion
  Outs
  chosen(Env & e)
  {
    Outs r;
    for (auto o : e.ints)
      if (rnd(4))
        r.push_back(o);
    if (r.empty())
      r.push_back(e.ints[0]);
    while (r.size() > 5)
      r.erase(r.begin() + rnd(r.size()));
    if (rnd(3) == 0)
      r.push_back(pick(r)); // twice
    return r;
  }
  void
  gamma(Region &, Env & e, unsigned depth, bool calls)
  {
    ng++;
    unsigned k = rnd(4) ? 2 : 3;
    Output * c = k == 2 && rnd(2) ? condition(val(e), val(e)) : val(e);
    bool reuse = f.matches || f.controls;
    Output * mt = reuse && k == 2 && !e.preds.empty() && rnd(f.controls ? 4 : 2) ? (f.controls ? val_(e.preds) : pick(e.preds)) : match(c, k);
    if (f.matches && k == 2)
      e.preds.push_back(mt);
    auto g = rvsdg::GammaNode::create(mt, k);
    bool states = !e.st.empty() && rnd(4);
    std::vector<Env> es(k);
    auto in = chosen(e);
    size_t entries = in.size();
    for (auto o : in)
    {
      auto v = g->AddEntryVar(o);
      for (unsigned a = 0; a < k; a++)
        es[a].ints.push_back(v.branchArgument[a]);
    }
    auto enter = [&](Output * o) { return g->AddEntryVar(o).branchArgument; };
    for (size_t l = 0; l < e.ptrs.size(); l++)
    {
      for (auto & x : es)
        x.ptrs.emplace_back();
      auto b = enter(pick(e.ptrs[l]));
      for (unsigned a = 0; a < k; a++)
        es[a].ptrs[l].push_back(b[a]);
    }
    if (states)
    {
      for (auto o : e.st)
      {
        auto b = enter(o);
        for (unsigned a = 0; a < k; a++)
          es[a].st.push_back(b[a]);
      }
      if (e.io)
      {
        auto b = enter(e.io);
        for (unsigned a = 0; a < k; a++)
          es[a].io = b[a];
      }
      if (calls)
        for (auto o : e.fns)
        {
          auto b = enter(o);
          for (unsigned a = 0; a < k; a++)
            es[a].fns.push_back(b[a]);
        }
    }
    if (f.controls && !e.preds.empty() && rnd(2))
    {
      auto b = enter(pick(e.preds));
      for (unsigned a = 0; a < k; a++)
        es[a].preds.push_back(b[a]);
    }
    for (unsigned a = 0; a < k; a++)
      block(*g->subregion(a), es[a], depth, rnd(3) ? 1 + rnd(f.steps - 1) : 0, calls && states);
    if (f.controls && rnd(3)) // which way a later branch goes
    {
      Outs x;
      uint64_t inv = rnd(2);
      for (unsigned a = 0; a < k; a++)
        x.push_back(!es[a].preds.empty() && rnd(3) ? pick(es[a].preds) : &rvsdg::ControlConstantOperation::create(*g->subregion(a), 2, (a & 1) ^ inv));
      e.preds.push_back(g->AddExitVar(x).output);
    }
    unsigned n = 1 + rnd(4);
    // identical, swapped and different exits
    std::vector<Outs> xs;
    for (unsigned i = 0; i < n; i++)
    {
      Outs x;
      if (i && rnd(4) == 0)
        x = xs[0];
      else if (rnd(4) == 0) // values that some branch passes through
        for (unsigned a = 0; a < k; a++)
          x.push_back(es[a].ints[rnd(entries)]);
      else if (rnd(4) == 0)
      {
        size_t j = rnd(es[0].ints.size());
        for (unsigned a = 0; a < k; a++)
          x.push_back(es[a].ints[j < es[a].ints.size() ? j : 0]);
      }
      else
        for (unsigned a = 0; a < k; a++)
          x.push_back(val(es[a]));
      xs.push_back(x);
    }
    auto leave = [&](Outs x) { return g->AddExitVar(x).output; };
    for (auto & x : xs)
      e.ints.push_back(leave(x));
    if (f.walking && rnd(2)) // a pointer that depends on the branch
    {
      size_t l = rnd(e.ptrs.size());
      Outs x;
      for (unsigned a = 0; a < k; a++)
      {
        auto q = es[a].ptrs[l][0];
        x.push_back(rnd(2) ? q : GetElementPtrOperation::create(q, { cst(*g->subregion(a), 64, 1) }, bits(32)));
      }
      e.ptrs[l].push_back(leave(x));
    }
    if (states)
    {
      for (size_t l = 0; l < e.st.size(); l++)
      {
        Outs x;
        for (auto & y : es)
          x.push_back(y.st[l]);
        e.st[l] = leave(x);
      }
      if (e.io)
      {
        Outs x;
        for (auto & y : es)
          x.push_back(y.io);
        e.io = leave(x);
      }
    }
  }
  void
  theta(Region & r, Env & e, unsigned depth, bool calls)
  {
    nt++;
    auto t = rvsdg::ThetaNode::create(&r);
    bool states = !e.st.empty() && rnd(4);
    std::vector<rvsdg::ThetaNode::LoopVar> iv, sv, pv;
    Env b;
    for (auto o : chosen(e))
    {
      iv.push_back(t->AddLoopVar(o));
      b.ints.push_back(iv.back().pre);
    }
    for (size_t l = 0; l < e.ptrs.size(); l++)
    {
      pv.push_back(t->AddLoopVar(pick(e.ptrs[l])));
      b.ptrs.push_back({ pv.back().pre });
    }
    rvsdg::ThetaNode::LoopVar io;
    if (states)
    {
      for (auto o : e.st)
      {
        sv.push_back(t->AddLoopVar(o));
        b.st.push_back(sv.back().pre);
      }
      if (e.io)
      {
        io = t->AddLoopVar(e.io);
        b.io = io.pre;
      }
      if (calls)
        for (auto o : e.fns)
          b.fns.push_back(t->AddLoopVar(o).pre);
    }
    // two pointers into the same location that change places in every iteration
    std::vector<rvsdg::ThetaNode::LoopVar> wv;
    size_t wl = 0;
    if (f.walking && rnd(2))
    {
      wl = rnd(e.ptrs.size());
      auto x = pick(e.ptrs[wl]);
      auto y = GetElementPtrOperation::create(e.ptrs[wl][0], { cst(r, 64, 1) }, bits(32));
      wv.push_back(t->AddLoopVar(rnd(2) ? x : e.ptrs[wl][0]));
      wv.push_back(t->AddLoopVar(y));
      b.ptrs[wl] = { wv[0].pre };
      if (rnd(2))
        b.ptrs[wl].push_back(wv[1].pre);
    }
    auto ctr = t->AddLoopVar(cst(r, 32, 0));
    if (rnd(2))
      b.ints.push_back(ctr.pre);
    Region & body = *t->subregion();
    rvsdg::ThetaNode::LoopVar control;
    if (f.controls)
    {
      control = t->AddLoopVar(e.preds.empty() ? &rvsdg::ControlConstantOperation::create(r, 2, rnd(2)) : pick(e.preds));
      b.preds.push_back(control.pre);
    }
    block(body, b, depth, 1 + rnd(f.steps), calls && states);
    if (f.controls)
    {
      if (rnd(4))
        control.post->divert_to(b.preds.back());
      e.preds.push_back(control.output);
    }
    auto next = bin<IntegerAddOperation>(32, ctr.pre, cst(body, 32, 1));
    if (rnd(3) == 0)
      b.ints.push_back(next);
    Output * limit = cst(body, 32, 1 + rnd(f.loops));
    Output * c = bin<IntegerUltOperation>(32, next, limit);
    if (f.openLoops && rnd(3) == 0) // an early exit that depends on the inputs
      c = bin<IntegerAndOperation>(1, c, condition(val(b), val(b)));
    for (auto & lv : iv)
      if (rnd(3))
        lv.post->divert_to(val(b));
    ctr.post->divert_to(next);
    if (!wv.empty())
    {
      wv[0].post->divert_to(wv[1].pre);
      if (rnd(3))
        wv[1].post->divert_to(wv[0].pre);
    }
    for (size_t l = 0; l < sv.size(); l++)
      sv[l].post->divert_to(b.st[l]);
    if (states && e.io)
      io.post->divert_to(b.io);
    t->set_predicate(match(c, 2));
    for (auto & lv : iv)
      if (rnd(2))
        e.ints.push_back(lv.output);
    e.ints.push_back(iv[rnd(iv.size())].output);
    if (rnd(2))
      e.ints.push_back(ctr.output);
    for (size_t l = 0; l < sv.size(); l++)
      e.st[l] = sv[l].output;
    if (states && e.io)
      e.io = io.output;
    for (size_t l = 0; l < pv.size(); l++)
    {
      if (f.allocas && rnd(2))
      {
        pv[l].post->divert_to(val_(b.ptrs[l]));
        e.ptrs[l].push_back(pv[l].output);
      }
      else if (rnd(3) == 0)
        e.ptrs[l].push_back(pv[l].output);
    }
  }
  // A loop whose body is a branch, and whose predicate is correlated with the one of the branch.
  void
  correlatedLoop(Region & r, Env & e, unsigned depth, bool calls)
  {
    nt++;
    auto t = rvsdg::ThetaNode::create(&r);
    bool states = !e.st.empty() && rnd(4);
    std::vector<rvsdg::ThetaNode::LoopVar> iv, sv;
    Env b;
    for (auto o : chosen(e))
    {
      iv.push_back(t->AddLoopVar(o));
      b.ints.push_back(iv.back().pre);
    }
    auto ctr = t->AddLoopVar(cst(r, 32, 0));
    for (size_t l = 0; l < e.ptrs.size(); l++)
      b.ptrs.push_back({ t->AddLoopVar(pick(e.ptrs[l])).pre });
    if (states)
      for (auto o : e.st)
      {
        sv.push_back(t->AddLoopVar(o));
        b.st.push_back(sv.back().pre);
      }
    Region & body = *t->subregion();
    // the condition
    auto next = bin<IntegerAddOperation>(32, ctr.pre, cst(body, 32, 1));
    unsigned sense = rnd(2);
    Output * c = bin<IntegerUltOperation>(32, rnd(2) ? next : ctr.pre, cst(body, 32, 1 + rnd(f.loops)));
    if (rnd(2))
      c = bin<IntegerAndOperation>(1, c, condition(val(b), val(b)));
    if (sense)
      c = bin<IntegerXorOperation>(1, c, cst(body, 1, 1));
    unsigned form = rnd(4);
    // which alternative of the branch repeats the loop
    unsigned again = form == 0 ? 1 : rnd(2);
    Output * m = again != sense ? rvsdg::MatchOperation::Create(*c, { { 1, 1 } }, 0, 2)
                                : rvsdg::MatchOperation::Create(*c, { { 1, 0 } }, 1, 2);
    auto g = rvsdg::GammaNode::create(m, 2);
    Env es[2];
    std::vector<Outs> passed;
    auto enter = [&](Output * o) { return g->AddEntryVar(o).branchArgument; };
    if (rnd(2))
      b.ints.push_back(next);
    for (auto o : b.ints)
    {
      auto x = enter(o);
      passed.push_back(x);
      for (unsigned a = 0; a < 2; a++)
        es[a].ints.push_back(x[a]);
    }
    for (auto & ps : b.ptrs)
    {
      auto x = enter(ps[0]);
      for (unsigned a = 0; a < 2; a++)
        es[a].ptrs.push_back({ x[a] });
    }
    for (auto o : b.st)
    {
      auto x = enter(o);
      for (unsigned a = 0; a < 2; a++)
        es[a].st.push_back(x[a]);
    }
    auto n = enter(next);
    size_t before = b.ints.size();
    for (unsigned a = 0; a < 2; a++)
      block(*g->subregion(a), es[a], depth, rnd(3) ? 1 + rnd(f.steps - 1) : 0, false);
    Outs exits;
    for (size_t i = 0; i < iv.size(); i++)
    {
      unsigned k = rnd(4);
      if (k == 0)
        continue; // loop invariant
      Outs x;
      for (unsigned a = 0; a < 2; a++)
        x.push_back(rnd(3) ? val(es[a]) : es[a].ints[rnd(before)]);
      auto o = g->AddExitVar(x).output;
      exits.push_back(o);
      iv[i].post->divert_to(o);
    }
    for (size_t l = 0; l < sv.size(); l++)
      sv[l].post->divert_to(g->AddExitVar({ es[0].st[l], es[1].st[l] }).output);
    ctr.post->divert_to(g->AddExitVar({ n[0], n[1] }).output);
    Output * pred = m;
    if (f.matches && rnd(2)) // another branch on the same condition
    {
      auto h = rvsdg::GammaNode::create(m, 2);
      auto u = h->AddEntryVar(ctr.pre), w = h->AddEntryVar(pick(b.ints));
      auto x = h->AddExitVar({ u.branchArgument[0], arith(rnd(5), w.branchArgument[1], u.branchArgument[1]) }).output;
      if (!iv.empty())
      {
        auto lv = pick(iv);
        if (lv.post->origin() != lv.pre)
          lv.post->divert_to(arith(rnd(5), x, lv.post->origin()));
        else
          lv.post->divert_to(x);
      }
    }
    if (form == 1) // control constants; a constant alternative only if the loop ends by itself
    {
      bool never = rnd(4) == 0;
      Outs x;
      for (unsigned a = 0; a < 2; a++)
        x.push_back(&rvsdg::ControlConstantOperation::create(*g->subregion(a), 2, !never && a == again));
      pred = g->AddExitVar(x).output;
    }
    else if (form == 2 || form == 3)
    {
      unsigned w = form == 2 ? 1 : 32;
      uint64_t v[2] = { rnd(3), rnd(3) };
      if (form == 2)
        v[0] = again == 0, v[1] = again == 1;
      else if (v[0] == v[1])
        v[1] = v[0] + 1;
      Outs x;
      for (unsigned a = 0; a < 2; a++)
        x.push_back(cst(*g->subregion(a), w, v[a]));
      auto o = g->AddExitVar(x).output;
      bool never = rnd(4) == 0;
      pred = form == 2 ? rvsdg::MatchOperation::Create(*o, { { 1, !never } }, 0, 2)
           : rnd(2)    ? rvsdg::MatchOperation::Create(*o, { { v[again], !never } }, 0, 2)
                       : rvsdg::MatchOperation::Create(*o, { { v[1 - again], 0 } }, !never, 2);
    }
    else if (again == 0)
      pred = m;
    t->set_predicate(pred);
    for (auto & lv : iv)
      if (rnd(2))
        e.ints.push_back(lv.output);
    e.ints.push_back(iv[rnd(iv.size())].output);
    for (size_t l = 0; l < sv.size(); l++)
      e.st[l] = sv[l].output;
  }
  // a function of the module
  Output *
  localFunction(const char * name)
  {
    auto ft = rvsdg::FunctionType::Create({ bits(32), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
    auto lam = rvsdg::LambdaNode::Create(p.root(), LlvmLambdaOperation::Create(ft, name, Linkage::internalLinkage));
    auto as = lam->GetFunctionArguments();
    Env e;
    bool quiet = f.invariants && rnd(2); // states are returned as they come
    e.ints = { as[0], as[1] };
    e.io = quiet ? nullptr : as[2];
    e.st = { as[3] };
    if (ext && rnd(2) && !quiet)
      e.fns.push_back(lam->AddContextVar(*ext).inner);
    auto g = ng, t = nt;
    auto sp = split;
    split = false;
    ng = f.gammas - 1;
    nt = f.thetas - 1;
    bool m = f.memory;
    if (quiet)
    {
      f.memory = false;
      e.st.clear();
    }
    else if (m)
    {
      auto & al = AllocaOperation::createNode(ArrayType::Create(bits(32), 2), *cst(*lam->subregion(), 32, 1), 4);
      e.ptrs = { { al.output(0) } };
      auto st = MemoryStateMergeOperation::Create({ as[3], al.output(1) });
      st = StoreNonVolatileOperation::Create(al.output(0), as[0], { st }, 4)[0];
      e.st = { st };
    }
    block(*lam->subregion(), e, 1, 1 + rnd(3), true);
    f.memory = m;
    split = sp;
    ng = g;
    nt = t;
    Output * v = f.invariants && rnd(2) ? as[rnd(2)] : val(e);
    return lam->finalize({ v, quiet ? as[2] : e.io, quiet ? as[3] : e.st[0] });
  }
  void
  build()
  {
    if (f.calls)
    {
      auto ft = f.inlinable ? calleeType() : rvsdg::FunctionType::Create({ bits(32), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
      ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
      vo::Val v(0);
      v.fn = ext;
      p.init.env[ext] = v;
    }
    Output * glob = nullptr;
    if (f.globals)
    {
      bool inner = rnd(2);
      auto d = rvsdg::DeltaNode::Create(&p.root(), LlvmDeltaOperation::Create(bits(elems() * 32), "glob", inner ? Linkage::internalLinkage : Linkage::externalLinkage, "", false, 4));
      glob = &d->finalize(cst(*d->subregion(), elems() * 32, 3));
      if (!inner)
        p.result(glob, "glob");
    }
    if (f.functions)
      local = localFunction("local");
    Outs callees;
    if (f.inlinable)
      for (unsigned i = 1 + rnd(3), k = 0; k < i; k++)
      {
        static const char * names[] = { "f0", "f1", "f2" };
        Outs others = callees;
        if (ext && rnd(2))
          others.push_back(ext);
        callees.push_back(inlinable(names[k], others, rnd(4) ? glob : nullptr));
      }
    auto as = p.function({ ptr(), bits(32), bits(32), ios(), mem() }, { bits(32), bits(32), ios(), mem() });
    p.object(0, elems() * 4);
    Env e;
    e.ints = { as[1], as[2] };
    e.io = as[3];
    Region & r = p.body();
    if (ext)
      e.fns.push_back(p.lambda->AddContextVar(*ext).inner);
    for (auto c : callees)
      e.fns.push_back(p.lambda->AddContextVar(*c).inner);
    if (local)
      for (unsigned i = 0; i < 2; i++)
        e.fns.push_back(p.lambda->AddContextVar(*local).inner);
    split = f.memory && rnd(2);
    e.st = { as[4] };
    if (f.memory)
    {
      auto & al = AllocaOperation::createNode(ArrayType::Create(bits(32), elems()), *cst(r, 32, 1), 4);
      e.ptrs = { { al.output(0) }, { as[0] } };
      if (glob)
        e.ptrs.push_back({ p.lambda->AddContextVar(*glob).inner });
      if (split)
      {
        e.st = { al.output(1), as[4] };
        if (glob)
          e.st = { al.output(1) }, e.st.push_back(nullptr), e.st.push_back(nullptr);
        if (glob)
        {
          auto x = f.entrySplit ? rvsdg::outputs(&LambdaEntryMemoryStateSplitOperation::CreateNode(*as[4], { 1, 2 })) : MemoryStateSplitOperation::Create(*as[4], 2);
          e.st[1] = x[0];
          e.st[2] = x[1];
        }
      }
      else
        e.st = { MemoryStateMergeOperation::Create({ al.output(1), as[4] }) };
      // the allocation has defined content
      auto & st = e.st[stateOf(0)];
      st = StoreNonVolatileOperation::Create(al.output(0), e.ints[0], { st }, 4)[0];
      auto q = GetElementPtrOperation::create(al.output(0), { cst(r, 64, 1) }, bits(32));
      st = StoreNonVolatileOperation::Create(q, e.ints[1], { st }, 4)[0];
      if (elems() == 3)
        st = StoreNonVolatileOperation::Create(GetElementPtrOperation::create(al.output(0), { cst(r, 64, 2) }, bits(32)), e.ints[0], { st }, 4)[0];
    }
    block(r, e, f.depth, f.steps + rnd(3), f.calls || f.functions || f.inlinable);
    auto m = e.st.size() == 1 ? e.st[0] : MemoryStateMergeOperation::Create(e.st);
    p.finish({ e.ints.back(), val(e), e.io, m });
  }
};
// The program number n of a family, transformed by t.
static inline void
unprepared(Prog &)
{}
template<class T>
static inline void
family(Features f, uint64_t first, uint64_t count, T transform, unsigned fuel = 3, void (*prepare)(Prog &) = unprepared)
{
  Prog p;
  p.fuel = fuel;
  Gen g(p, f, first + vf_choose(count, "program"));
  g.build();
  prepare(p);
  p.refines([&] { transform(p); });
}
// Mutually recursive functions.
template<class T>
static void
recursive(uint64_t first, uint64_t count, T transform)
{
  Prog p;
  p.fuel = 4;
  Features f;
  f.calls = true;
  Gen g(p, f, first + vf_choose(count, "program"));
  auto ft = rvsdg::FunctionType::Create({ bits(32), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  auto ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
  vo::Val v(0);
  v.fn = ext;
  p.init.env[ext] = v;
  auto ext2 = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext2", Linkage::externalLinkage, CallingConvention::Default);
  vo::Val v2(0);
  v2.fn = ext2;
  p.init.env[ext2] = v2;
  rvsdg::PhiBuilder pb;
  pb.begin(&p.root());
  Outs cvs = { pb.AddContextVar(*ext).inner, pb.AddContextVar(*ext2).inner, pb.AddContextVar(*ext).inner };
  unsigned n = 2 + g.rnd(3);
  std::vector<rvsdg::PhiNode::FixVar> fv;
  for (unsigned i = 0; i < n; i++)
    fv.push_back(pb.AddFixVar(ft));
  for (unsigned i = 0; i < n; i++)
  {
    std::string name = "f" + std::string(1, (char)('0' + i));
    auto lam = rvsdg::LambdaNode::Create(*pb.subregion(), LlvmLambdaOperation::Create(ft, name, Linkage::internalLinkage));
    auto as = lam->GetFunctionArguments();
    Outs fns;
    for (unsigned j = 0; j < n; j++)
      if (g.rnd(2))
        fns.push_back(lam->AddContextVar(*fv[j].recref).inner);
    for (auto c : cvs)
      if (g.rnd(2))
        fns.push_back(lam->AddContextVar(*c).inner);
    // if (a != 0) r = callee(a - 1, b op a)
    Region & r = *lam->subregion();
    Output *x = as[1], *io = as[2], *m = as[3];
    x = g.rnd(2) ? bin<IntegerAddOperation>(32, x, cst(r, 32, i + 1)) : x;
    if (!fns.empty())
    {
      auto gm = rvsdg::GammaNode::create(rvsdg::MatchOperation::Create(*as[0], { { 0, 0 } }, 1, 2), 2);
      auto ea = gm->AddEntryVar(as[0]), ex = gm->AddEntryVar(x), ei = gm->AddEntryVar(io), em = gm->AddEntryVar(m);
      auto ef = gm->AddEntryVar(fns[g.rnd(fns.size())]), eg = gm->AddEntryVar(fns[g.rnd(fns.size())]);
      auto & b = *gm->subregion(1);
      auto k = bin<IntegerSubOperation>(32, ea.branchArgument[1], cst(b, 32, 1));
      auto o = CallOperation::Create(ef.branchArgument[1], ft, { k, ex.branchArgument[1], ei.branchArgument[1], em.branchArgument[1] });
      if (g.rnd(3) == 0)
        o = CallOperation::Create(eg.branchArgument[1], ft, { g.rnd(2) ? k : cst(b, 32, 0), o[0], o[1], o[2] });
      x = gm->AddExitVar({ ex.branchArgument[0], g.rnd(3) ? o[0] : ex.branchArgument[1] }).output;
      io = gm->AddExitVar({ ei.branchArgument[0], o[1] }).output;
      m = gm->AddExitVar({ em.branchArgument[0], o[2] }).output;
    }
    fv[i].result->divert_to(lam->finalize({ x, io, m }));
  }
  pb.end();
  auto as = p.function({ bits(32), bits(32), ios(), mem() }, { bits(32), ios(), mem() });
  p.args[0] = vo::Val(vf_choose(3, "depth"));
  auto fx = p.lambda->AddContextVar(*fv[g.rnd(n)].output).inner;
  auto o = CallOperation::Create(fx, ft, { as[0], as[1], as[2], as[3] });
  if (g.rnd(2))
  {
    auto fy = p.lambda->AddContextVar(*fv[g.rnd(n)].output).inner;
    o = CallOperation::Create(fy, ft, { as[0], o[0], o[1], o[2] });
  }
  p.finish({ o[0], o[1], o[2] });
  p.refines([&] { transform(p, g); });
}
}
#endif
