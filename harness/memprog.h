// Generator of small programs over memory, in every encoding of the ordering edges that the
// compiler produces: the values are symbolic, the shape is chosen exhaustively.
#ifndef MEMPROG_H
#define MEMPROG_H
#include "prog.h"

namespace jlm::llvm
{
// Locations: one allocation of 4 bytes, one of 8 bytes, and everything that belongs to the caller.
enum Loc { locA, locB, locE, locs };
enum Enc { encExact, encAll, encMerged, encDup, encs };

struct MemProg
{
  Prog p;
  Region * r = nullptr;
  Output *A = nullptr, *B = nullptr, *P = nullptr, *Q = nullptr, *io = nullptr, *f = nullptr;
  Outs st; // per location
  Outs results;
  bool lambdaOps = false; // entry split and exit merge with memory node identifiers
  unsigned numArgs = 0;
  Outs vals; // values to store: function arguments

  // calls: a function that may do anything is available
  explicit MemProg(bool lambdaOps_ = false, bool symbolicAlias = false, unsigned nres = 2, bool call = false)
      : lambdaOps(lambdaOps_)
  {
    p.anyOrder = true;
    if (call)
    {
      auto ft = rvsdg::FunctionType::Create({ ptr(), ios(), mem() }, { bits(32), ios(), mem() });
      ext = &LlvmGraphImport::createFunctionImport(p.graph(), ft, "ext", Linkage::externalLinkage, CallingConvention::Default);
      vo::Val v(0);
      v.fn = ext;
      p.init.env[ext] = v;
    }
    Types res(nres, bits(32));
    res.push_back(ios());
    res.push_back(mem());
    auto as = p.function({ ptr(), ptr(), bits(32), bits(32), ios(), mem() }, res);
    uint64_t bp = p.object(0, 8), bq = p.object(1, 4);
    if (symbolicAlias)
    {
      uint64_t off = vf_below(2, "aliased") * 4;
      p.args[1] = vo::Val(vf_ite64(vf_bool("alias"), bp + off, bq));
    }
    r = &p.body();
    P = as[0];
    Q = as[1];
    vals = { as[2], as[3] };
    io = as[4];
    f = ext ? p.lambda->AddContextVar(*ext).inner : nullptr;
    auto one = cst(*r, 32, 1);
    auto & a = AllocaOperation::createNode(bits(32), *one, 4);
    auto & b = AllocaOperation::createNode(ArrayType::Create(bits(32), 2), *one, 4);
    A = a.output(0);
    B = b.output(0);
    Output * e = as[5];
    if (lambdaOps)
      e = LambdaEntryMemoryStateSplitOperation::CreateNode(*e, { 7 }).output(0);
    st = { a.output(1), b.output(1), e };
  }
  Output * ext = nullptr;

  Output *
  at(Output * base, int64_t off)
  {
    if (!off)
      return base;
    return GetElementPtrOperation::create(base, { cst(*r, 64, (uint64_t)off) }, bits(8));
  }
  static Loc
  locOf(unsigned object)
  {
    return object == 0 ? locA : object == 1 ? locB : locE;
  }
  Output * base(unsigned object) { return object == 0 ? A : object == 1 ? B : object == 2 ? P : Q; }

  // the states an access of location l uses under an encoding, and what happens to them after
  template<class F>
  void
  with(Loc l, Enc enc, F access)
  {
    if (enc == encExact)
      st[l] = access({ st[l] })[0];
    else if (enc == encAll)
    {
      Outs in;
      for (unsigned i = 0; i < locs; i++)
        in.push_back(st[(l + i) % locs]);
      auto out = access(in);
      for (unsigned i = 0; i < locs; i++)
        st[(l + i) % locs] = out[i];
    }
    else if (enc == encMerged)
    {
      auto m = MemoryStateMergeOperation::Create(st);
      auto out = access({ m });
      st = MemoryStateSplitOperation::Create(*out[0], locs);
    }
    else
    {
      auto out = access({ st[l], st[l] });
      st[l] = MemoryStateMergeOperation::Create(out);
    }
  }
  Output *
  load(Output * addr, Loc l, unsigned w, Enc enc)
  {
    Output * v = nullptr;
    with(l, enc, [&](Outs in) {
      auto o = LoadNonVolatileOperation::Create(addr, in, bits(w), w / 8);
      v = o[0];
      return Outs(o.begin() + 1, o.end());
    });
    return v;
  }
  void
  store(Output * addr, Loc l, Output * v, Enc enc)
  {
    with(l, enc, [&](Outs in) { return StoreNonVolatileOperation::Create(addr, v, in, 1); });
  }
  // an unknown function gets a pointer to caller memory or to an allocation, which then escapes
  Output *
  call(Output * arg, bool escapesA = false)
  {
    auto ft = rvsdg::FunctionType::Create({ ptr(), ios(), mem() }, { bits(32), ios(), mem() });
    Outs in;
    if (escapesA)
      in = { st[locA], st[locE] };
    else
      in = { st[locE] };
    Output * m;
    if (lambdaOps)
    {
      std::vector<MemoryNodeId> ids = escapesA ? std::vector<MemoryNodeId>{ 5, 7 } : std::vector<MemoryNodeId>{ 7 };
      m = CallEntryMemoryStateMergeOperation::CreateNode(*r, in, ids).output(0);
    }
    else
      m = in.size() == 1 ? in[0] : MemoryStateMergeOperation::Create(in);
    auto o = CallOperation::Create(f, ft, { arg, io, m });
    io = o[1];
    Outs out;
    if (lambdaOps)
    {
      std::vector<MemoryNodeId> ids = escapesA ? std::vector<MemoryNodeId>{ 5, 7 } : std::vector<MemoryNodeId>{ 7 };
      auto & n = CallExitMemoryStateSplitOperation::CreateNode(*o[2], ids);
      for (size_t i = 0; i < n.noutputs(); i++)
        out.push_back(n.output(i));
    }
    else if (in.size() == 1)
      out = { o[2] };
    else
      out = MemoryStateSplitOperation::Create(*o[2], 2);
    st[locE] = out.back();
    if (escapesA)
      st[locA] = out[0];
    return o[0];
  }
  void
  result(Output * v)
  {
    if (v)
      results.push_back(v->Type() && vo::bitsOf(*v->Type()) == 32 ? v : op<ZExtOperation>({ v }, bits(vo::bitsOf(*v->Type())), bits(32)));
  }
  void
  finish(unsigned exit = 0)
  {
    Outs rs = results;
    while (rs.size() < p.resTypes.size() - 2)
      rs.push_back(vals[rs.size() % 2]);
    rs.resize(p.resTypes.size() - 2);
    rs.push_back(io);
    if (lambdaOps)
      rs.push_back(LambdaExitMemoryStateMergeOperation::CreateNode(*r, { st[locA], st[locB], st[locE] }, { 5, 6, 7 }).output(0));
    else if (exit == 1)
      rs.push_back(st[locE]);
    else
      rs.push_back(MemoryStateMergeOperation::Create(st));
    p.finish(rs);
  }
};
}
#endif
