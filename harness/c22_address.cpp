// @property C22
// @sources rvsdg util llvm
// @proof proof_conversions3 tier=thorough
// Contracts of address computations, of constants found by tracing, and of tracing itself.
#include "gen.h"
#include "layout.h"
#include <jlm/llvm/ir/Trace.hpp>
#include <jlm/rvsdg/Trace.hpp>

namespace jlm::llvm
{
// A type with everything an index can step into.
static const unsigned numShapes = 14;
static D
shape(unsigned k)
{
  switch (k)
  {
  case 0: return array(bitsD(32), 4);
  case 1: return array(array(bitsD(16), 3), 5);
  case 2: return structure({ bitsD(8), bitsD(64), bitsD(16) }, false, false);
  case 3: return structure({ bitsD(8), bitsD(64), bitsD(16) }, true, true);
  case 4: return structure({ bitsD(8), array(structure({ bitsD(32), bitsD(8) }, false, false), 3), pointer() }, false, false);
  case 5: return array(structure({ array(floating(fpsize::x86fp80), 2), bitsD(8) }, true, false), 7);
  case 6: return array(bitsD(24), 3);
  case 7: return structure({ structure({}, false, false), bitsD(16), structure({ bitsD(8), bitsD(33) }, true, false), bitsD(8) }, false, false);
  case 8: return bitsD(8);
  case 9: return floating(fpsize::x86fp80);
  case 10: return array(array(array(pointer(), 2), 0), 3);
  case 12: return array(vector(floating(fpsize::flt), 3), 2);
  case 13: return structure({ bitsD(16), vector(pointer(), 4) }, true, false);
  default: return structure({ vector(bitsD(32), 3), vector(bitsD(8), 4), bitsD(8) }, false, false);
  }
}
// The constant offset of every address computation of a shape, for all values of all indices.
static void
offsets(unsigned first, unsigned count)
{
  Prog p;
  D d = shape(first + vf_choose(count, "type"));
  auto base = p.import(ptr(), "base", vf_nondet(64, "base"));
  Region & r = p.root();
  unsigned w = vf_choose(2, "index width") ? 64 : 32;
  Outs in;
  uint64_t expected = 0;
  bool zero = true;
  const D * t = &d;
  for (unsigned depth = 0;; depth++)
  {
    if (depth && t->isStruct)
    {
      if (t->parts.empty())
        break;
      unsigned k = vf_choose(t->parts.size(), "field");
      in.push_back(cst(r, 32, k));
      expected += t->offsets[k];
      zero = zero && k == 0;
      t = &t->parts[k];
    }
    else
    {
      uint64_t i = vf_nondet(w, "index");
      in.push_back(cst(r, w, i));
      int64_t s = vo::sx(i, w);
      bool packed = depth && rvsdg::is<VectorType>(*t->t);
      if (depth)
        t = &t->parts[0];
      expected += (uint64_t)s * (packed ? t->l.store : t->l.alloc);
      zero = vf_and(zero, i == 0);
    }
    if (t->parts.empty() || !vf_choose(3, "deeper"))
      break;
  }
  auto & n = GetElementPtrOperation::createNode(*base, in, d.t);
  auto c = GetElementPtrOperation::tryGetAsConstant(n);
  vf_assert(c.has_value(), "an address computation with constant indices is constant");
  vf_assert((uint64_t)c->getOffsetInBytes() == expected, "the offset is the one LLVM defines");
  auto o = TracePointerOriginPrecise(*n.output(0));
  vf_assert(o.BasePointer == base && (uint64_t)*o.getOffsetInBytes() == expected, "the origin of an address has the offset");
  auto & op = dynamic_cast<const GetElementPtrOperation &>(n.GetOperation());
  auto ops = in;
  ops.insert(ops.begin(), base);
  auto nf = GetElementPtrOperation::normalizeIdempotent(op, ops);
  if (nf)
    vf_assert(nf->size() == 1 && (*nf)[0] == base && expected == 0, "an address computation is only removed if it does not change the address");
  else
    vf_assert(!zero, "an address computation without offset is removed");
}
extern "C" void proof_offsets_a() { offsets(0, 2); }
extern "C" void proof_offsets_b() { offsets(2, 2); }
extern "C" void proof_offsets_c() { offsets(4, 2); }
extern "C" void proof_offsets_d() { offsets(6, 2); }
extern "C" void proof_offsets_e() { offsets(8, 2); }
extern "C" void proof_offsets_f() { offsets(10, 2); }
extern "C" void proof_offsets_g() { offsets(12, 2); }
// An address computation with an index that is not constant has no constant offset.
extern "C" void proof_unknown()
{
  Prog p;
  D d = shape(vf_choose(2, "type"));
  Region & r = p.root();
  auto base = p.import(ptr(), "base", vf_nondet(64, "base"));
  auto x = p.import(32, "x");
  unsigned k = vf_choose(2, "unknown index");
  auto c = cst(r, 32, vf_nondet(32, "index"));
  auto & n = GetElementPtrOperation::createNode(*base, { k ? c : x, k ? x : c }, d.t);
  vf_assert(!GetElementPtrOperation::tryGetAsConstant(n), "an index that is not constant is not guessed");
  vf_assert(!GetElementPtrOperation::normalizeIdempotent(dynamic_cast<const GetElementPtrOperation &>(n.GetOperation()), { base, k ? c : x, k ? x : c }), "an unknown index is not zero");
  auto o = TracePointerOriginPrecise(*n.output(0));
  vf_assert(o.BasePointer == n.output(0) && *o.getOffsetInBytes() == 0, "tracing stops at an unknown index");
}
// Address computations whose type and indices do not fit are rejected, and only those.
extern "C" void proof_indices()
{
  Prog p;
  D d = shape(vf_choose(numShapes, "type"));
  Region & r = p.root();
  auto base = p.import(ptr(), "base", 0);
  unsigned n = vf_choose(4, "indices");
  Outs in = { cst(r, 64, vf_nondet(64, "index")) };
  bool fits = true;
  const D * t = &d;
  for (unsigned i = 0; i < n; i++)
  {
    unsigned k = vf_choose(4, "field");
    in.push_back(cst(r, 32, k));
    if (fits && t->isStruct && k < t->parts.size())
      t = &t->parts[k];
    else if (fits && !t->isStruct && t->parts.size())
      t = &t->parts[0];
    else
      fits = false;
  }
  bool ok = true;
  try
  {
    GetElementPtrOperation::createNode(*base, in, d.t);
  }
  catch (...)
  {
    ok = false;
  }
  vf_assert(ok == fits, "exactly the indices that fit the type are accepted");
}
// The value of a constant that passes through conversions, for all values.
static void
conversions(unsigned length)
{
  static const unsigned widths[] = { 1, 8, 31, 32, 33, 63, 64, 70, 100 };
  Prog p;
  Region & r = p.root();
  unsigned w = widths[vf_choose(7, "width")];
  uint64_t v = vf_nondet(w, "constant");
  Output * o = vf_choose(2, "kind") ? cst(r, w, v) : &rvsdg::BitConstantOperation::create(r, sym(w, v));
  for (unsigned i = 0; i < length; i++)
  {
    unsigned u = widths[vf_choose(length == 1 ? 9 : 7, "width")];
    if (u > w)
    {
      if (vf_choose(2, "extend"))
        o = op<ZExtOperation>({ o }, bits(w), bits(u));
      else
      {
        o = op<SExtOperation>({ o }, bits(w), bits(u));
        v = (uint64_t)vo::sx(v, w) & vo::mask(u);
      }
    }
    else if (u < w)
    {
      o = op<TruncOperation>({ o }, bits(w), bits(u));
      v &= vo::mask(u);
    }
    else
      continue;
    w = u;
  }
  auto c = tryGetConstantSignedInteger(*o);
  vf_assert(c.has_value() || w > 64, "a converted constant is constant");
  if (!c)
    return;
  if (w <= 64)
    vf_assert(*c == vo::sx(v, w), "the value is the one the conversions compute");
  else
    vf_assert((uint64_t)*c == v, "the value is the one the conversions compute, modulo 2^64");
}
extern "C" void proof_conversions1() { conversions(1); }
extern "C" void proof_conversions2() { conversions(2); }
extern "C" void proof_conversions3() { conversions(3); }

// Tracing: at every moment of every execution, a value and the value it is traced to are equal.
struct Watch
{
  std::unordered_map<const Output *, std::vector<vo::Val>> history;
  rvsdg::OutputTracer shallow{ false }, cached{ true };
  OutputTracer deep{ false }, deepCached{ true };
  Watch()
  {
    shallow.setTraceThroughStructuralNodes(false);
  }
  static bool
  value(const Output & o)
  {
    return o.Type()->Kind() == rvsdg::TypeKind::Value;
  }
  void
  same(vo::Machine & m, const Output & o, const Output & t)
  {
    if (&o == &t || !value(o))
      return;
    auto a = m.env.find(&o), b = m.env.find(&t);
    if (a == m.env.end() || b == m.env.end())
      return;
    auto &x = a->second, &y = b->second;
    vf_assert(vf_or(m.ub, vf_and(vf_and(x.v == y.v, x.fn == y.fn), x.bad == y.bad)), "a value equals the value it is traced to");
  }
  void
  constant(vo::Machine & m, const Output & o)
  {
    auto a = m.env.find(&o);
    auto c = tryGetConstantSignedInteger(o);
    if (c && a != m.env.end())
      vf_assert(vf_or(m.ub, vf_or(a->second.bad, a->second.v == ((uint64_t)*c & vo::mask(vo::bitsOf(*o.Type()))))), "a value that is found constant is this constant");
  }
  static const vo::Machine::Obj *
  objectOf(vo::Machine & m, uint64_t p)
  {
    for (auto & o : m.objs)
      if (p >= o.base && p <= o.base + o.size)
        return &o;
    return nullptr;
  }
  void
  pointer(vo::Machine & m, Output & o)
  {
    auto a = m.env.find(&o);
    if (a == m.env.end())
      return;
    auto & x = a->second;
    auto t = TracePointerOriginPrecise(o);
    auto b = m.env.find(t.BasePointer);
    if (b != m.env.end() && t.getOffsetInBytes())
      vf_assert(vf_or(m.ub, vf_or(x.bad, x.v == b->second.v + *t.getOffsetInBytes())), "a pointer has its distance to its origin");
    for (unsigned direct = 0; direct < 2; direct++)
    {
      TraceCollection tc;
      TracedPointerOrigin from{ &o, std::vector<GetElementPtrOperation::Constant>{} };
      if (!TraceAllPointerOrigins(direct ? from : t, tc, 30))
        continue;
      bool ok = vf_or(m.ub, x.bad);
      for (auto & kv : tc.TopOrigins)
      {
        auto vs = history[kv.first];
        auto c = m.env.find(kv.first);
        if (c != m.env.end())
          vs.push_back(c->second);
        for (auto & v : vs)
          if (kv.second)
            ok = vf_or(ok, x.v == v.v + *kv.second);
          else if (vf_is_const(x.v) && vf_is_const(v.v))
            ok = vf_or(ok, objectOf(m, x.v) && objectOf(m, x.v) == objectOf(m, v.v));
          else
            ok = true;
      }
      vf_assert(ok, "a pointer comes from one of its origins");
    }
  }
  void
  at(vo::Machine & m, Region & r)
  {
    std::vector<Output *> all;
    bool branch = dynamic_cast<rvsdg::GammaNode *>(r.node()) != nullptr; // its first argument has no value
    for (size_t i = branch; i < r.narguments(); i++)
      all.push_back(r.argument(i));
    for (auto & n : r.Nodes())
      for (size_t i = 0; i < n.noutputs(); i++)
        all.push_back(n.output(i));
    for (auto o : all)
    {
      if (!m.env.count(o))
        continue;
      if (value(*o))
        history[o].push_back(m.env[o]);
      same(m, *o, shallow.trace(*o));
      same(m, *o, cached.trace(*o));
      same(m, *o, deep.trace(*o));
      same(m, *o, deepCached.trace(*o));
      auto & in = llvm::traceOutput(*o, &r);
      same(m, *o, in);
      vf_assert(in.region() == &r || dynamic_cast<rvsdg::PhiNode *>(in.region()->node()), "tracing within a region does not leave it");
      same(m, *o, rvsdg::traceOutputIntraProcedurally(*o));
      if (rvsdg::is<PointerType>(*o->Type()))
        pointer(m, *o);
      else if (rvsdg::is<BitType>(*o->Type()))
        constant(m, *o);
    }
  }
};
static void
traced(Features f, uint64_t first, uint64_t count)
{
  Prog p;
  p.fuel = 3;
  Gen g(p, f, first + vf_choose(count, "program"));
  g.build();
  Watch w;
  vo::Machine m(p.sh);
  m.deadNodes = true;
  m.after = [&](Region & r) { w.at(m, r); };
  p.observe(m);
}
static Features
everything()
{
  Features f;
  f.memory = f.calls = f.functions = f.globals = f.barriers = true;
  return f;
}
static Features
moving()
{
  Features f;
  f.memory = f.walking = f.indexed = f.allocas = true;
  return f;
}
static Features
passing()
{
  Features f;
  f.memory = f.invariants = f.functions = f.controls = true;
  f.depth = 3;
  return f;
}
extern "C" void proof_trace_everything0() { traced(everything(), 1, 60); }
extern "C" void proof_trace_everything1() { traced(everything(), 61, 60); }
extern "C" void proof_trace_everything2() { traced(everything(), 121, 60); }
extern "C" void proof_trace_moving0() { traced(moving(), 1, 60); }
extern "C" void proof_trace_moving1() { traced(moving(), 61, 60); }
extern "C" void proof_trace_moving2() { traced(moving(), 121, 60); }
extern "C" void proof_trace_passing0() { traced(passing(), 1, 60); }
extern "C" void proof_trace_passing1() { traced(passing(), 61, 60); }
extern "C" void proof_trace_passing2() { traced(passing(), 121, 60); }
}
