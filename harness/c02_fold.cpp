// @property C02
// @sources rvsdg util llvm
// @proof ~proof_(mul|div).* cost=20
// Contracts of integer folding and simplification, stated on the real pass (NodeReduction).
#include "prog.h"
#include <jlm/llvm/opt/NodeReduction.hpp>
#include <jlm/rvsdg/binary.hpp>

namespace jlm::llvm
{
// Places o in a subregion; outer values reach it as entry/loop variables.  Returns what the program
// computes from build(region, inner operands).
enum Place { plain, branch, loop, places };
template<class B>
static void
checkIn(Prog & p, Place where, Outs x, B build)
{
  if (where == plain)
    p.result(build(p.root(), x));
  else if (where == branch)
  {
    auto c = p.import(rvsdg::ControlType::Create(2), "c", vf_nondet(1, "c"));
    auto g = rvsdg::GammaNode::create(c, 2);
    Outs y, z;
    for (auto o : x)
    {
      auto ev = g->AddEntryVar(o);
      y.push_back(ev.branchArgument[1]);
      z.push_back(ev.branchArgument[0]);
    }
    auto r = build(*g->subregion(1), y);
    auto s = build(*g->subregion(0), z);
    p.result(g->AddExitVar({ s, r }).output);
  }
  else
  {
    auto t = rvsdg::ThetaNode::create(&p.root());
    Outs y;
    std::vector<rvsdg::ThetaNode::LoopVar> lv;
    for (auto o : x)
    {
      lv.push_back(t->AddLoopVar(o));
      y.push_back(lv.back().pre);
    }
    auto r = build(*t->subregion(), y);
    auto lr = t->AddLoopVar(cst(p.root(), vo::bitsOf(*r->Type()), 0));
    lr.post->divert_to(r);
    t->set_predicate(&rvsdg::ControlConstantOperation::create(*t->subregion(), 2, 0));
    p.result(lr.output);
  }
  NodeReduction nr;
  p.check(nr);
}
// all operands: run-time values, constants, or one value twice
template<class OP>
static void
binary(unsigned w, bool shift = false)
{
  Prog p;
  Outs x;
  auto where = (Place)vf_choose(places, "place");
  uint64_t how = vf_choose(5, "operands");
  uint64_t k = shift ? vf_choose(w + 2, "amount") & vo::mask(w) : 0;
  auto C = [&](bool second)
  {
    return cst(p.root(), w, second && shift ? k : vf_nondet(w, "c"));
  };
  Output *a, *b;
  if (how == 0) a = C(0), b = C(1);
  else if (how == 1) a = p.import(w, "x"), b = C(1);
  else if (how == 2) a = C(0), b = p.import(w, "x");
  else if (how == 3) a = p.import(w, "x"), b = p.import(w, "y");
  else a = b = p.import(w, "x");
  checkIn(p, where, { a, b }, [&](Region &, Outs & y) { return bin<OP>(w, y[0], y[1]); });
}
#define B(N, OP, W, ...) extern "C" void proof_##N##_##W() { binary<OP>(W, ##__VA_ARGS__); }
#define LINEAR(N, OP) B(N, OP, 1) B(N, OP, 8) B(N, OP, 32) B(N, OP, 64)
LINEAR(add, IntegerAddOperation)
LINEAR(sub, IntegerSubOperation)
LINEAR(and, IntegerAndOperation)
LINEAR(or, IntegerOrOperation)
LINEAR(xor, IntegerXorOperation)
LINEAR(eq, IntegerEqOperation)
LINEAR(ne, IntegerNeOperation)
LINEAR(ugt, IntegerUgtOperation)
LINEAR(uge, IntegerUgeOperation)
LINEAR(ult, IntegerUltOperation)
LINEAR(ule, IntegerUleOperation)
LINEAR(sgt, IntegerSgtOperation)
LINEAR(sge, IntegerSgeOperation)
LINEAR(slt, IntegerSltOperation)
LINEAR(sle, IntegerSleOperation)
B(shl, IntegerShlOperation, 1, true) B(shl, IntegerShlOperation, 8, true) B(shl, IntegerShlOperation, 32, true)
B(lshr, IntegerLShrOperation, 1, true) B(lshr, IntegerLShrOperation, 8, true) B(lshr, IntegerLShrOperation, 32, true)
B(ashr, IntegerAShrOperation, 1, true) B(ashr, IntegerAShrOperation, 8, true) B(ashr, IntegerAShrOperation, 32, true)
B(mul, IntegerMulOperation, 1) B(mul, IntegerMulOperation, 4) B(mul, IntegerMulOperation, 6)
B(div_u, IntegerUDivOperation, 1) B(div_u, IntegerUDivOperation, 3)
B(div_s, IntegerSDivOperation, 1) B(div_s, IntegerSDivOperation, 3)
B(div_ur, IntegerURemOperation, 1) B(div_ur, IntegerURemOperation, 3)
B(div_sr, IntegerSRemOperation, 1) B(div_sr, IntegerSRemOperation, 3)

// wide integers: amounts beyond 64 bits must not break the compiler
template<class OP>
static void
wide()
{
  Prog p;
  auto v = BitValueRepresentation::repeat(128, '0');
  for (unsigned i : { 0, 3, 63, 64, 70, 127 })
    v[i] = (char)('0' + vf_nondet(1, "bit"));
  auto a = IntegerConstantOperation::Create(p.root(), BitValueRepresentation::repeat(128, '1')).output(0);
  auto b = IntegerConstantOperation::Create(p.root(), v).output(0);
  p.result(bin<OP>(128, a, b));
  NodeReduction nr;
  p.transform(nr);
}
extern "C" void proof_wide_shl() { wide<IntegerShlOperation>(); }
extern "C" void proof_wide_lshr() { wide<IntegerLShrOperation>(); }
extern "C" void proof_wide_ashr() { wide<IntegerAShrOperation>(); }
extern "C" void proof_wide_add() { wide<IntegerAddOperation>(); }
extern "C" void proof_wide_sub() { wide<IntegerSubOperation>(); }
extern "C" void proof_wide_slt() { wide<IntegerSltOperation>(); }

// conversions
template<class OP>
static void
convert(unsigned from, unsigned to)
{
  Prog p;
  auto where = (Place)vf_choose(places, "place");
  bool k = vf_choose(2, "constant");
  Output * a = k ? cst(p.root(), from, vf_nondet(from, "c")) : p.import(from, "x");
  checkIn(p, where, { a }, [&](Region &, Outs & y) { return op<OP>({ y[0] }, bits(from), bits(to)); });
}
#define CV(N, OP, F, T) extern "C" void proof_##N##_##F##_##T() { convert<OP>(F, T); }
CV(zext, ZExtOperation, 1, 8) CV(zext, ZExtOperation, 8, 32) CV(zext, ZExtOperation, 32, 64) CV(zext, ZExtOperation, 7, 64)
CV(sext, SExtOperation, 1, 8) CV(sext, SExtOperation, 8, 32) CV(sext, SExtOperation, 32, 64) CV(sext, SExtOperation, 7, 64)
CV(trunc, TruncOperation, 8, 1) CV(trunc, TruncOperation, 32, 8) CV(trunc, TruncOperation, 64, 32) CV(trunc, TruncOperation, 64, 7)

// selection of a branch
extern "C" void
proof_match()
{
  unsigned w = vf_choose(2, "width") ? 8 : 2;
  Prog p;
  auto where = (Place)vf_choose(places, "place");
  bool k = vf_choose(2, "constant");
  Output * a = k ? cst(p.root(), w, vf_nondet(w, "c")) : p.import(w, "x");
  checkIn(p, where, { a }, [&](Region &, Outs & y) {
    auto c = op<rvsdg::MatchOperation>({ y[0] }, w,
        std::unordered_map<uint64_t, uint64_t>{ { 0, 2 }, { 1, 0 }, { 3, 1 } }, 3, 4);
    return op<ControlToIntOperation>({ c }, rvsdg::ControlType::Create(4), bits(32));
  });
}
extern "C" void
proof_wide_match()
{
  Prog p;
  auto v = BitValueRepresentation::repeat(128, '0');
  bool zero = true;
  for (unsigned i : { 0, 1, 63, 64, 127 })
  {
    bool b = vf_nondet(1, "bit");
    v[i] = (char)('0' + b);
    zero = vf_and(zero, !b);
  }
  auto a = IntegerConstantOperation::Create(p.root(), v).output(0);
  auto c = op<rvsdg::MatchOperation>({ a }, 128, std::unordered_map<uint64_t, uint64_t>{ { 0, 1 } }, 0, 2);
  auto o = op<ControlToIntOperation>({ c }, rvsdg::ControlType::Create(2), bits(32));
  auto & ex = rvsdg::GraphExport::Create(*o, "r");
  NodeReduction nr;
  p.transform(nr);
  vo::Machine after(p.sh);
  after.run(p.root());
  vf_assert(after.at(ex.origin()).v == (zero ? 1u : 0u), "the alternative of a wide constant");
}
// a branch whose predicate becomes constant is replaced by the branch taken
extern "C" void
proof_constant_branch()
{
  Prog p;
  bool k = vf_choose(2, "constant"), nested = vf_choose(2, "nested");
  Output * a = k ? cst(p.root(), 8, vf_nondet(8, "c")) : p.import(8, "x");
  auto y = p.import(32, "y"), z = p.import(32, "z");
  auto c = op<rvsdg::MatchOperation>({ a }, 8, std::unordered_map<uint64_t, uint64_t>{ { 0, 2 }, { 7, 0 } }, 1, 3);
  auto g = rvsdg::GammaNode::create(c, 3);
  auto ey = g->AddEntryVar(y), ez = g->AddEntryVar(z);
  auto ea = g->AddEntryVar(a);
  Outs r, s;
  for (unsigned i = 0; i < 3; i++)
  {
    auto u = ey.branchArgument[i], v = ez.branchArgument[i];
    auto t = i == 0 ? bin<IntegerAddOperation>(32, u, v) : i == 1 ? bin<IntegerSubOperation>(32, u, v) : u;
    if (i == 1 && nested)
    {
      auto d = op<rvsdg::MatchOperation>({ ea.branchArgument[i] }, 8, std::unordered_map<uint64_t, uint64_t>{ { 1, 1 } }, 0, 2);
      auto h = rvsdg::GammaNode::create(d, 2);
      auto fu = h->AddEntryVar(u), ft = h->AddEntryVar(t);
      t = h->AddExitVar({ fu.branchArgument[0], ft.branchArgument[1] }).output;
    }
    r.push_back(t);
    s.push_back(i == 2 ? v : cst(*g->subregion(i), 32, 5 + i));
  }
  p.result(g->AddExitVar(r).output);
  p.result(g->AddExitVar(s).output);
  NodeReduction nr;
  p.check(nr);
}
// comparing an allocation with null
extern "C" void
proof_null()
{
  Prog p;
  auto as = p.function({ ptr(), mem() }, { bits(1), mem() });
  p.object(0, 4);
  auto & r = p.body();
  auto pred = (ICmpPredicate)vf_choose((uint64_t)ICmpPredicate::Ult + 1, "predicate");
  uint64_t what = vf_choose(4, "operand"), swap = vf_choose(2, "swap");
  auto null = ConstantPointerNullOperation::createNode(r).output(0);
  Output * q;
  if (what == 0)
    q = as[0]; // nothing is known
  else if (what == 1)
    q = AllocaOperation::createNode(bits(32), *cst(r, 32, 1), 4).output(0);
  else if (what == 2)
    q = ConstantPointerNullOperation::createNode(r).output(0);
  else
  {
    auto al = AllocaOperation::createNode(bits(32), *cst(r, 32, 1), 4).output(0);
    auto c = op<rvsdg::MatchOperation>({ op<PtrCmpOperation>({ as[0], null }, ptr(), ICmpPredicate::Eq) }, 1,
        std::unordered_map<uint64_t, uint64_t>{ { 1, 1 } }, 0, 2);
    auto g = rvsdg::GammaNode::create(c, 2);
    auto e1 = g->AddEntryVar(al), e2 = g->AddEntryVar(as[0]);
    q = g->AddExitVar({ e1.branchArgument[0], e2.branchArgument[1] }).output;
    p.args[0] = vo::Val(vf_choose(2, "null argument") ? 0 : p.args[0].v);
  }
  if (what == 0)
    p.args[0] = vo::Val(vf_choose(2, "null argument") ? 0 : p.args[0].v);
  auto c = swap ? op<PtrCmpOperation>({ null, q }, ptr(), pred) : op<PtrCmpOperation>({ q, null }, ptr(), pred);
  p.finish({ c, as[1] });
  NodeReduction nr;
  p.check(nr);
}
}
