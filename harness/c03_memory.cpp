// @property C03
// @sources rvsdg util llvm
// Contracts of the memory reductions, stated on the real pass (NodeReduction): programs of loads
// and stores over allocations and caller memory, in every encoding of the ordering edges, against
// every schedule the remaining edges allow.
#include "memprog.h"
#include <jlm/llvm/opt/NodeReduction.hpp>

namespace jlm::llvm
{
// one access out of: load or store, of an object, at an offset, of a width
struct Acc
{
  bool store;
  unsigned object;
  int off;
  unsigned w;
};
static const Acc menu[] = {
  { true, 0, 0, 32 }, { true, 2, 0, 32 }, { false, 0, 0, 32 }, { false, 2, 0, 32 },
  { true, 0, 0, 8 },  { true, 2, 0, 8 },  { false, 2, 0, 8 },  { true, 2, 4, 32 },
  { true, 1, 4, 32 }, { false, 1, 4, 32 }, { true, 1, 0, 32 }, { false, 0, 0, 8 },
  { true, 3, 0, 32 }, { false, 3, 0, 32 },
};
static void
access(MemProg & m, const Acc & a, Enc enc, unsigned k)
{
  auto addr = m.at(m.base(a.object), a.off);
  if (a.store)
  {
    auto v = m.vals[k % 2];
    if (a.w != 32)
      v = op<TruncOperation>({ v }, bits(32), bits(a.w));
    m.store(addr, MemProg::locOf(a.object), v, enc);
  }
  else
    m.result(m.load(addr, MemProg::locOf(a.object), a.w, enc));
}
static void
go(MemProg & m)
{
  m.finish();
  NodeReduction nr;
  m.p.check(nr);
}
static void
two(unsigned first, unsigned n)
{
  MemProg m(vf_choose(2, "lambda states"), true);
  Enc e1 = (Enc)vf_choose(encs, "encoding"), e2 = (Enc)vf_choose(encs, "encoding");
  access(m, menu[first], e1, 0);
  access(m, menu[vf_choose(n, "second")], e2, 1);
  go(m);
}
#define T(N) extern "C" void proof_two_##N() { two(N, 14); }
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(10) T(11) T(12) T(13)
static void
three(unsigned first, unsigned n)
{
  MemProg m(false, false, 3);
  unsigned s = vf_choose(3, "encodings");
  access(m, menu[first], (Enc)s, 0);
  access(m, menu[vf_choose(n, "second")], (Enc)((s + 1) % 3), 1);
  access(m, menu[vf_choose(n, "third")], (Enc)(s == 0 ? 0 : vf_choose(2, "third encoding")), 0);
  go(m);
}
#define U(N) extern "C" void proof_three_##N() { three(N, 6); }
U(0) U(1) U(2) U(3) U(4) U(5)
}
namespace jlm::llvm
{
// An access that must not happen before a call only moves ahead of it if it is inside its object.
static void
barrier(bool store)
{
  MemProg m(false, false, 2, true);
  auto & p = m.p;
  // a global of this module or of another one, an allocation of one or of several elements
  unsigned what = vf_choose(5, "object");
  Output * base = nullptr;
  if (what == 0)
    base = m.A;
  else if (what == 1)
    base = m.B;
  else if (what == 2 || what == 3)
  {
    auto & g = LlvmGraphImport::createGlobalImport(p.graph(), bits(32), ptr(), "g", Linkage::externalLinkage, false, 4);
    uint64_t b = p.init.addObject(4, "mem", true, "g", true);
    p.init.env[&g] = vo::Val(b);
    base = p.lambda->AddContextVar(g).inner;
  }
  else
  {
    auto n = (uint64_t)vf_choose(3, "elements");
    base = AllocaOperation::createNode(bits(32), *cst(*m.r, 32, n), 4).output(0);
  }
  static const int64_t offs[] = { 0, 4, -4, 1, 8, -1, 1ll << 40 };
  int64_t o1 = offs[vf_choose(7, "offset")], o2 = vf_choose(2, "second offset") ? 4 : 0;
  m.call(m.P);
  auto addr = m.at(m.at(base, o1), o2);
  addr = IOBarrierOperation::createNode(*addr, *m.io).output(0);
  Loc l = what == 0 ? locA : what == 1 ? locB : locE;
  unsigned w = vf_choose(2, "width") ? 32 : 8;
  if (store)
    m.store(addr, l, w == 8 ? op<TruncOperation>({ m.vals[0] }, bits(32), bits(8)) : m.vals[0], encExact);
  else
    m.result(m.load(addr, l, w, encExact));
  m.finish();
  NodeReduction nr;
  p.check(nr);
}
extern "C" void proof_barrier_load() { barrier(false); }
extern "C" void proof_barrier_store() { barrier(true); }

// the same address under another name
extern "C" void
proof_same_address()
{
  MemProg m(false, true, 2, true);
  auto & r = *m.r;
  unsigned how = vf_choose(4, "name");
  Output * q = m.P;
  bool s1 = vf_choose(2, "first"), s2 = vf_choose(2, "second");
  unsigned w1 = vf_choose(2, "width") ? 32 : 8, w2 = vf_choose(2, "width") ? 32 : 8;
  auto val = [&](unsigned k, unsigned w) { return w == 32 ? m.vals[k] : op<TruncOperation>({ m.vals[k] }, bits(32), bits(8)); };
  if (how == 1)
    q = IOBarrierOperation::createNode(*q, *m.io).output(0);
  else if (how == 2 || how == 3)
  {
    auto c = op<rvsdg::MatchOperation>({ m.vals[1] }, 32, std::unordered_map<uint64_t, uint64_t>{ { 0, 0 } }, 1, 2);
    auto g = rvsdg::GammaNode::create(c, 2);
    auto e1 = g->AddEntryVar(m.P), e2 = g->AddEntryVar(m.Q);
    q = g->AddExitVar({ e1.branchArgument[0], (how == 2 ? e1 : e2).branchArgument[1] }).output;
  }
  if (s1)
    m.store(m.P, locE, val(0, w1), encExact);
  else
    m.result(m.load(m.P, locE, w1, encExact));
  if (how == 1 && vf_choose(2, "call between"))
  {
    m.call(m.Q);
    q = IOBarrierOperation::createNode(*m.P, *m.io).output(0);
  }
  if (s2)
    m.store(q, locE, val(1, w2), encExact);
  else
    m.result(m.load(q, locE, w2, encExact));
  (void)r;
  m.finish();
  NodeReduction nr;
  m.p.check(nr);
}

// nested, repeated and single merges, splits and joins around parallel loads
extern "C" void
proof_states()
{
  MemProg m(vf_choose(2, "lambda states"), false, 3);
  auto ld = [&](Output * s, Output * addr) {
    auto o = LoadNonVolatileOperation::Create(addr, { s }, bits(32), 4);
    m.result(o[0]);
    return o[1];
  };
  m.store(m.P, locE, m.vals[0], encExact);
  Output * e = m.st[locE];
  unsigned how = vf_choose(12, "shape");
  auto merge = [&](Outs o) { return MemoryStateMergeOperation::Create(o); };
  auto join = [&](Outs o) { return MemoryStateJoinOperation::CreateNode(o).output(0); };
  auto split = [&](Output * o, size_t n) { return MemoryStateSplitOperation::Create(*o, n); };
  auto Q = m.Q;
  if (how == 0) // loads on one state
    e = merge({ ld(e, m.P), ld(e, Q) });
  else if (how == 1)
    e = join({ ld(e, m.P), ld(e, Q) });
  else if (how == 2)
  {
    auto a = ld(e, m.P), b = ld(e, Q), c = ld(e, m.P);
    e = join({ a, join({ b, c }), a });
  }
  else if (how == 3)
  {
    auto a = ld(e, m.P), b = ld(e, Q), c = ld(e, m.P);
    e = merge({ a, merge({ b, c }), b });
  }
  else if (how == 4)
  {
    auto s = split(e, 2);
    auto t = split(s[0], 2);
    e = merge({ ld(t[0], m.P), ld(t[1], Q), ld(s[1], m.P) });
  }
  else if (how == 5)
  {
    auto s = split(e, 2);
    auto t = split(s[1], 3);
    e = merge({ ld(s[0], m.P), ld(t[0], Q), ld(t[2], m.P), t[1] });
  }
  else if (how == 6)
  {
    auto s = split(e, 1);
    e = merge({ ld(s[0], m.P) });
  }
  else if (how == 7)
  {
    auto s = split(e, 2);
    e = merge({ s[0], s[1], ld(s[0], m.P) });
  }
  else if (how == 8)
  {
    auto s = split(e, 2);
    e = join({ ld(merge({ s[1], s[0] }), m.P), s[0] });
  }
  else if (how == 9)
  {
    e = join({ ld(join({ e, e }), m.P) });
  }
  else if (how == 10)
  {
    // the parts are ordered by position
    auto s = split(merge({ e, m.st[locA] }), 2);
    m.st[locA] = s[1];
    e = s[0];
    m.result(m.load(m.A, locA, 32, encExact));
    m.store(m.A, locA, m.vals[1], encExact);
    e = ld(e, m.P);
  }
  else
  {
    // a part is used for a load and merged away later
    auto s = split(e, 2);
    auto a = ld(s[0], m.P);
    auto t = split(merge({ a, s[1] }), 3);
    e = merge({ ld(t[2], m.P), t[0], ld(t[1], Q) });
  }
  m.st[locE] = e;
  m.store(m.P, locE, m.vals[1], (Enc)vf_choose(2, "encoding"));
  if (vf_choose(2, "last"))
    m.result(m.load(m.P, locE, 32, encExact));
  m.finish();
  NodeReduction nr;
  m.p.check(nr);
}

// allocations that are only used as scratch memory, or whose address is kept
extern "C" void
proof_exit()
{
  MemProg m(true, false, 3, true);
  unsigned s = vf_choose(3, "escape");
  if (s == 1) // the address of A is stored in caller memory
  {
    m.with(locE, encExact, [&](Outs in) { return StoreNonVolatileOperation::Create(m.P, m.A, in, 8); });
  }
  m.store(m.A, locA, m.vals[0], (Enc)vf_choose(3, "encoding"));
  if (s == 2)
    m.result(m.call(m.A, true));
  if (vf_choose(2, "load"))
    m.result(m.load(m.A, locA, 32, (Enc)vf_choose(3, "encoding")));
  if (vf_choose(2, "store"))
  {
    m.store(m.P, locE, m.vals[1], (Enc)vf_choose(3, "encoding"));
    m.store(m.A, locA, m.vals[1], encExact);
  }
  m.finish();
  NodeReduction nr;
  m.p.check(nr);
}
}
