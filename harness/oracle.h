// Reference semantics of RVSDG programs, written from the LLVM language reference and the RVSDG
// papers, independent of the code under contract.  A Machine evaluates a region over symbolic
// values; contracts of graph transformations state that the graph before and the graph after
// evaluate to the same observations.
#ifndef ORACLE_H
#define ORACLE_H
#include "vf.h"
#include <jlm/llvm/ir/operators/AggregateOperations.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/ir/operators/delta.hpp>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/IOBarrier.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/llvm/ir/types.hpp>
#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/UnitType.hpp>
#include <jlm/util/Statistics.hpp>
#include <functional>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// The random part of temporary file names (never used by the code under contract).
std::string vfStubRandomString(size_t) asm(
    "vf_stub$_ZN3jlm4util30CreateRandomAlphanumericStringB5cxx11Em");
std::string
vfStubRandomString(size_t n)
{
  return std::string(n, '0');
}

namespace jlm::vo
{
using rvsdg::Output;
using rvsdg::Region;

static inline uint64_t
mask(unsigned w)
{
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static inline uint64_t
sx(uint64_t v, unsigned w)
{
  return w >= 64 ? v : (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w));
}

struct Val
{
  uint64_t v = 0;
  bool bad = false; // poison or undefined: any value may be observed
  const Output * fn = nullptr;
  std::vector<Val> parts; // aggregates
  unsigned g = 0; // how many external calls return before the value is there, in every schedule
  Val() {}
  Val(uint64_t x) : v(x) {}
  Val(uint64_t x, bool b) : v(x), bad(b) {}
};

static inline unsigned
bitsOf(const rvsdg::Type & t)
{
  if (auto b = dynamic_cast<const rvsdg::BitType *>(&t))
    return b->nbits();
  if (dynamic_cast<const llvm::PointerType *>(&t))
    return 64;
  if (dynamic_cast<const rvsdg::ControlType *>(&t))
    return 64;
  if (auto f = dynamic_cast<const llvm::FloatingPointType *>(&t))
    switch (f->size())
    {
    case llvm::fpsize::half: return 16;
    case llvm::fpsize::flt: return 32;
    case llvm::fpsize::dbl: return 64;
    default: return 64;
    }
  return 64;
}
// LLVM's default data layout
static inline uint64_t
alignOf(const rvsdg::Type & t)
{
  if (auto b = dynamic_cast<const rvsdg::BitType *>(&t))
    return b->nbits() <= 8 ? 1 : b->nbits() <= 16 ? 2 : b->nbits() <= 32 ? 4 : b->nbits() <= 64 ? 8 : 16;
  if (auto a = dynamic_cast<const llvm::ArrayType *>(&t))
    return alignOf(a->element_type());
  if (auto s = dynamic_cast<const llvm::StructType *>(&t))
  {
    uint64_t m = 1;
    if (!s->IsPacked())
      for (size_t n = 0; n < s->numElements(); n++)
        m = std::max(m, alignOf(*s->getElementType(n)));
    return m;
  }
  return bitsOf(t) / 8;
}
static inline uint64_t sizeOf(const rvsdg::Type & t);
static inline uint64_t
fieldOffset(const llvm::StructType & s, size_t k)
{
  uint64_t off = 0;
  for (size_t n = 0;; n++)
  {
    uint64_t al = s.IsPacked() ? 1 : alignOf(*s.getElementType(n));
    off = (off + al - 1) / al * al;
    if (n == k)
      return off;
    off += sizeOf(*s.getElementType(n));
  }
}
static inline uint64_t
sizeOf(const rvsdg::Type & t)
{
  if (auto b = dynamic_cast<const rvsdg::BitType *>(&t))
  {
    uint64_t n = (b->nbits() + 7) / 8, a = alignOf(t);
    return (n + a - 1) / a * a;
  }
  if (auto a = dynamic_cast<const llvm::ArrayType *>(&t))
    return a->nelements() * sizeOf(a->element_type());
  if (auto s = dynamic_cast<const llvm::StructType *>(&t))
  {
    if (s->numElements() == 0)
      return 0;
    uint64_t n = fieldOffset(*s, s->numElements() - 1)
               + sizeOf(*s->getElementType(s->numElements() - 1));
    uint64_t a = alignOf(t);
    return (n + a - 1) / a * a;
  }
  return (bitsOf(t) + 7) / 8;
}

// Arrays and structures consist of parts.
static inline size_t
numParts(const rvsdg::Type & t)
{
  if (auto a = dynamic_cast<const llvm::ArrayType *>(&t))
    return a->nelements();
  if (auto s = dynamic_cast<const llvm::StructType *>(&t))
    return s->numElements();
  return 0;
}
static inline const rvsdg::Type &
partType(const rvsdg::Type & t, size_t k)
{
  if (auto a = dynamic_cast<const llvm::ArrayType *>(&t))
    return a->element_type();
  return *dynamic_cast<const llvm::StructType &>(t).getElementType(k);
}
static inline uint64_t
partOffset(const rvsdg::Type & t, size_t k)
{
  if (auto a = dynamic_cast<const llvm::ArrayType *>(&t))
    return k * sizeOf(a->element_type());
  return fieldOffset(dynamic_cast<const llvm::StructType &>(t), k);
}

// Uninterpreted operations: equal operations on equal operands give equal results.
struct Uninterpreted
{
  std::unique_ptr<rvsdg::Operation> op;
  std::vector<Val> args;
  std::vector<uint64_t> res;
};
struct Shared
{
  std::vector<Uninterpreted> uf;
  std::vector<std::pair<std::string, uint64_t>> imports;
  int fresh = 0;
  uint64_t
  named(const std::string & key, unsigned w)
  {
    for (auto & p : imports)
      if (p.first == key)
        return p.second;
    uint64_t v = vf_nondet(w, key.c_str());
    imports.emplace_back(key, v);
    return v;
  }
  // addresses do not depend on the order in which objects are created
  std::vector<std::pair<std::string, uint64_t>> bases;
  uint64_t
  baseOf(const std::string & key)
  {
    for (auto & b : bases)
      if (b.first == key)
        return b.second;
    uint64_t v = 0x1000000 + 0x1000 * bases.size();
    bases.emplace_back(key, v);
    return v;
  }
};

struct Event
{
  std::string name;
  std::vector<Val> args;
  bool ub = false; // undefined behaviour happened before; the event may be the last thing that happens
};

struct Machine
{
  struct Obj
  {
    uint64_t base, size;
    std::vector<Val> bytes;
    bool escaped; // visible outside
    bool caller = false; // belongs to the caller: its final content is observed
    std::string name; // of a global
    const void * site = nullptr; // what created it
    bool cell = false;           // holds a pointer
  };
  Shared & shared;
  std::vector<Obj> objs;
  std::vector<Event> events;
  // an access or a division, which happens only after that many external calls returned
  struct Access
  {
    uint64_t p, n; // no bytes: a division by p
    unsigned g;
  };
  std::vector<Access> accesses;
  unsigned calls = 0; // external functions called so far: any of them may not return
  unsigned entry = 0; // what the region under evaluation waits for
  bool ub = false;
  unsigned fuel = 8;      // iterations per loop execution
  bool boundIsViolation = false;
  bool deadNodes = false; // nodes whose results are not used are executed, too
  bool reverse = false;   // which topological order
  bool anyOrder = false;  // every topological order of the operations with effects
  std::unordered_map<const Output *, Val> env;
  std::unordered_map<const Region *, std::vector<rvsdg::Node *>> orders;
  std::unordered_map<uint64_t, int> counts;

  explicit Machine(Shared & s) : shared(s) {}

  uint64_t
  addObject(uint64_t size, const char * init, bool escaped, const char * name = nullptr, bool caller = false)
  {
    Obj o;
    o.name = name ? name : "";
    o.base = shared.baseOf(name ? "@" + o.name : std::to_string(size) + "#" + std::to_string(counts[size]++));
    o.size = size;
    o.escaped = escaped;
    o.caller = caller;
    for (uint64_t i = 0; i < size; i++)
      o.bytes.push_back(init ? Val(vf_nondet(8, init)) : Val(0, true));
    objs.push_back(std::move(o));
    return objs.back().base;
  }

  // ---------------------------------------------------------------- memory
  std::vector<Val>
  read(uint64_t p, unsigned n)
  {
    std::vector<Val> r(n);
    if (vf_is_const(p))
    {
      for (auto & o : objs)
        if (p >= o.base && p + n <= o.base + o.size)
        {
          for (unsigned i = 0; i < n; i++)
            r[i] = o.bytes[p - o.base + i];
          return r;
        }
      ub = true;
      for (auto & x : r)
        x = Val(0, true);
      return r;
    }
    bool in = false;
    for (auto & o : objs)
      in = vf_or(in, vf_and(p >= o.base, vf_and(p + n <= o.base + o.size, p + n >= p)));
    ub = vf_or(ub, !in);
    for (unsigned i = 0; i < n; i++)
    {
      Val x(0, true);
      for (auto & o : objs)
        for (uint64_t k = 0; k < o.size; k++)
        {
          bool c = p + i == o.base + k;
          x.v = vf_ite64(c, o.bytes[k].v, x.v);
          x.bad = vf_ite64(c, o.bytes[k].bad, x.bad);
        }
      r[i] = x;
    }
    return r;
  }
  void
  write(uint64_t p, const std::vector<Val> & b)
  {
    uint64_t n = b.size();
    if (vf_is_const(p))
    {
      for (auto & o : objs)
        if (p >= o.base && p + n <= o.base + o.size)
        {
          for (unsigned i = 0; i < n; i++)
            o.bytes[p - o.base + i] = b[i];
          return;
        }
      ub = true;
      return;
    }
    bool in = false;
    for (auto & o : objs)
      in = vf_or(in, vf_and(p >= o.base, vf_and(p + n <= o.base + o.size, p + n >= p)));
    ub = vf_or(ub, !in);
    for (auto & o : objs)
      for (uint64_t k = 0; k < o.size; k++)
        for (unsigned i = 0; i < n; i++)
        {
          bool c = p + i == o.base + k;
          o.bytes[k].v = vf_ite64(c, b[i].v, o.bytes[k].v);
          o.bytes[k].bad = vf_ite64(c, b[i].bad, o.bytes[k].bad);
        }
  }
  Val
  load(uint64_t p, const rvsdg::Type & t)
  {
    if (auto n = numParts(t))
    {
      Val r(0);
      for (size_t i = 0; i < n; i++)
        r.parts.push_back(load(p + partOffset(t, i), partType(t, i)));
      return r;
    }
    unsigned w = bitsOf(t), n = (w + 7) / 8;
    auto b = read(p, n);
    Val r(0);
    for (unsigned i = 0; i < n; i++)
    {
      r.v |= b[i].v << (8 * i);
      r.bad = vf_or(r.bad, b[i].bad);
    }
    r.v &= mask(w);
    if (dynamic_cast<const llvm::PointerType *>(&t))
      r.fn = b[0].fn;
    return r;
  }
  void
  store(uint64_t p, Val v, const rvsdg::Type & t)
  {
    if (auto n = numParts(t)) // padding keeps its content; a value without parts is zero or undefined
    {
      for (size_t i = 0; i < n; i++)
        store(p + partOffset(t, i), i < v.parts.size() ? v.parts[i] : Val(0, v.bad), partType(t, i));
      return;
    }
    unsigned n = (bitsOf(t) + 7) / 8;
    std::vector<Val> b;
    for (unsigned i = 0; i < n; i++)
      b.push_back(Val((v.v >> (8 * i)) & 255, v.bad));
    b[0].fn = v.fn;
    write(p, b);
  }

  // ---------------------------------------------------------------- evaluation
  void
  visit(rvsdg::Node & n, std::unordered_set<const rvsdg::Node *> & seen,
        std::vector<rvsdg::Node *> & out)
  {
    if (!seen.insert(&n).second)
      return;
    size_t k = n.ninputs();
    for (size_t i = 0; i < k; i++)
    {
      auto & in = *n.input(reverse ? k - 1 - i : i);
      if (auto p = rvsdg::TryGetOwnerNode<rvsdg::Node>(*in.origin()))
        visit(*p, seen, out);
    }
    out.push_back(&n);
  }
  const std::vector<rvsdg::Node *> &
  order(Region & r)
  {
    auto it = orders.find(&r);
    if (it != orders.end())
      return it->second;
    std::unordered_set<const rvsdg::Node *> seen;
    std::vector<rvsdg::Node *> out;
    size_t k = r.nresults();
    for (size_t i = 0; i < k; i++)
      if (auto p = rvsdg::TryGetOwnerNode<rvsdg::Node>(
              *r.result(reverse ? k - 1 - i : i)->origin()))
        visit(*p, seen, out);
    if (deadNodes)
    {
      std::vector<rvsdg::Node *> dead;
      for (auto & n : r.Nodes())
        visit(n, seen, dead);
      std::unordered_set<const rvsdg::Node *> not_;
      for (auto n : dead)
      {
        bool ok = dynamic_cast<rvsdg::SimpleNode *>(n) && (!effectful(*n) || rvsdg::is<llvm::LoadNonVolatileOperation>(n)) && !rvsdg::is<llvm::AllocaOperation>(n) && !rvsdg::is<llvm::MallocOperation>(n);
        for (size_t i = 0; ok && i < n->ninputs(); i++)
          if (auto p = rvsdg::TryGetOwnerNode<rvsdg::Node>(*n->input(i)->origin()))
            ok = !not_.count(p);
        if (ok)
          out.push_back(n);
        else
          not_.insert(n);
      }
    }
    return orders[&r] = out;
  }
  // may this node read, write or call something?
  static bool
  effectful(rvsdg::Node & n)
  {
    using namespace llvm;
    if (auto s = dynamic_cast<rvsdg::StructuralNode *>(&n))
    {
      if (dynamic_cast<rvsdg::LambdaNode *>(&n) || dynamic_cast<rvsdg::PhiNode *>(&n)
          || dynamic_cast<rvsdg::DeltaNode *>(&n))
        return false;
      for (size_t k = 0; k < s->nsubregions(); k++)
        for (auto & m : s->subregion(k)->Nodes())
          if (effectful(m))
            return true;
      return false;
    }
    auto & op = static_cast<rvsdg::SimpleNode &>(n).GetOperation();
    return dynamic_cast<const LoadOperation *>(&op) || dynamic_cast<const StoreOperation *>(&op)
        || dynamic_cast<const CallOperation *>(&op)
        || dynamic_cast<const MemCpyNonVolatileOperation *>(&op);
  }
  std::function<void()> leak;                   // closes the set of objects visible outside
  std::function<Val(size_t, size_t)> answer;    // the pointers the environment gives
  std::function<void(Region &)> after; // watches what a region computed
  void
  run(Region & r)
  {
    evalRegion(r);
    if (after)
      after(r);
  }
  void
  evalRegion(Region & r)
  {
    auto & ns = order(r);
    size_t k = 0;
    if (anyOrder)
      for (auto n : ns)
        k += effectful(*n);
    if (k < 2)
    {
      for (auto n : ns)
        eval(*n);
      return;
    }
    // every schedule: operations without effects at once, the others in any order
    std::unordered_set<const rvsdg::Node *> done;
    std::vector<rvsdg::Node *> todo = ns;
    while (!todo.empty())
    {
      std::vector<rvsdg::Node *> rest, ready;
      for (auto n : todo)
      {
        bool ok = true;
        for (size_t i = 0; i < n->ninputs(); i++)
          if (auto q = rvsdg::TryGetOwnerNode<rvsdg::Node>(*n->input(i)->origin()))
            ok = ok && done.count(q);
        if (!ok)
          rest.push_back(n);
        else if (effectful(*n))
          ready.push_back(n);
        else
        {
          eval(*n);
          done.insert(n);
        }
      }
      if (rest.size() + ready.size() < todo.size())
      {
        std::vector<rvsdg::Node *> left;
        for (auto n : todo)
          if (!done.count(n))
            left.push_back(n);
        todo = left;
        continue;
      }
      auto c = ready[ready.size() > 1 ? vf_choose(ready.size(), "schedule") : 0];
      eval(*c);
      done.insert(c);
      std::vector<rvsdg::Node *> left;
      for (auto n : todo)
        if (n != c)
          left.push_back(n);
      todo = left;
    }
  }
  Val
  at(const Output * o)
  {
    auto it = env.find(o);
    if (it == env.end())
    {
      vf_assert(false, "a value is used before it is defined");
      vf_stop();
    }
    return it->second;
  }
  Val
  in(const rvsdg::Node & n, size_t i)
  {
    return at(n.input(i)->origin());
  }
  void
  set(const rvsdg::Node & n, size_t i, Val v)
  {
    env[n.output(i)] = std::move(v);
  }
  unsigned
  waits(const rvsdg::Node & n, size_t from = 0)
  {
    unsigned g = entry;
    for (size_t i = from; i < n.ninputs(); i++)
    {
      auto it = env.find(n.input(i)->origin());
      if (it != env.end() && it->second.g > g)
        g = it->second.g;
    }
    return g;
  }
  void
  access(const rvsdg::Node & n, uint64_t p, uint64_t size)
  {
    accesses.push_back({ p, size, waits(n) });
  }
  std::unordered_map<const rvsdg::LambdaNode *, unsigned> active;
  std::vector<Val>
  call(rvsdg::LambdaNode & lam, const std::vector<Val> & args)
  {
    auto as = lam.GetFunctionArguments();
    auto & depth = active[&lam];
    std::unordered_map<const Output *, Val> saved;
    if (depth)
      saved = env;
    if (depth++ == fuel)
    {
      if (boundIsViolation)
        vf_assert(false, "the recursion is deeper than before");
      vf_stop();
    }
    for (auto & cv : lam.GetContextVars())
      env[cv.inner] = at(cv.input->origin());
    for (size_t i = 0; i < as.size(); i++)
      env[as[i]] = args[i];
    run(*lam.subregion());
    std::vector<Val> r;
    for (auto x : lam.GetFunctionResults())
      r.push_back(at(x->origin()));
    if (--active[&lam])
      env = std::move(saved);
    return r;
  }
  std::vector<Val>
  callFunction(const Output * fn, std::vector<Val> args, rvsdg::Node & site)
  {
    if (auto lam = rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(*fn))
      return call(*lam, args);
    // external function: an observable event that may read and write all escaped memory
    Event e;
    if (auto i = dynamic_cast<const rvsdg::GraphImport *>(fn))
      e.name = i->Name();
    e.args = args;
    e.ub = ub;
    for (auto & x : args)
      if (vf_is_const(x.v))
        for (auto & o : objs)
          if (x.v >= o.base && x.v <= o.base + o.size)
            o.escaped = true;
    std::vector<Val> r;
    size_t k = events.size();
    if (leak)
      leak();
    std::vector<Obj *> es;
    for (auto & o : objs)
      if (o.escaped)
        es.push_back(&o);
    for (size_t i = 1; i < es.size(); i++)
      for (size_t j = i; j > 0 && es[j]->base < es[j - 1]->base; j--)
        std::swap(es[j], es[j - 1]);
    for (auto o : es)
      for (auto & b : o->bytes)
        e.args.push_back(b);
    events.push_back(e);
    calls++;
    for (size_t i = 0; i < site.noutputs(); i++)
    {
      auto & t = *site.output(i)->Type();
      bool pointer = answer && rvsdg::is<llvm::PointerType>(t);
      r.push_back(pointer ? answer(k, i) : t.Kind() == rvsdg::TypeKind::Value ? Val(external(k, i) & mask(bitsOf(t))) : Val(0));
    }
    for (auto o : es)
      if (answer && o->cell)
      {
        auto v = answer(k, o->base);
        for (size_t q = 0; q < o->size; q++)
          o->bytes[q] = Val(v.v >> (8 * q) & 255);
      }
      else
        for (size_t q = 0; q < o->size; q++)
          o->bytes[q] = Val(external(k, o->base + q) & 255);
    return r;
  }
  // the environment's answer number i to the k-th external event
  uint64_t
  external(size_t k, size_t i)
  {
    return shared.named("ext" + std::to_string(k) + "_" + std::to_string(i), 64);
  }
  uint64_t
  uninterpreted(const rvsdg::Operation & op, const std::vector<Val> & args, size_t out, unsigned w)
  {
    // find an entry with the very same operand terms or build an ite chain
    uint64_t r = 0;
    bool found = false;
    std::vector<Uninterpreted *> same;
    for (auto & u : shared.uf)
      if (u.args.size() == args.size() && *u.op == op && op == *u.op)
        same.push_back(&u);
    uint64_t fresh = vf_nondet(w, "uf");
    r = fresh;
    for (size_t j = same.size(); j-- > 0;)
    {
      bool eq = true;
      for (size_t i = 0; i < args.size(); i++)
        eq = vf_and(eq, vf_and(same[j]->args[i].v == args[i].v, same[j]->args[i].fn == args[i].fn));
      if (out < same[j]->res.size())
        r = vf_ite64(eq, same[j]->res[out], r);
    }
    (void)found;
    return r;
  }

  void
  evalStructural(rvsdg::Node & n)
  {
    if (auto g = dynamic_cast<rvsdg::GammaNode *>(&n))
    {
      Val p = at(g->predicate()->origin());
      ub = vf_or(ub, p.bad);
      size_t k = g->nsubregions();
      for (size_t a = 0; a < k; a++)
      {
        if (a + 1 < k && p.v != a)
          continue;
        if (a + 1 == k)
          ub = vf_or(ub, p.v != a);
        for (auto & mc : g->GetMatchVar().matchContent)
          env[mc] = Val(0);
        for (auto & ev : g->GetEntryVars())
          env[ev.branchArgument[a]] = at(ev.input->origin());
        auto saved = entry;
        entry = std::max(entry, p.g);
        run(*g->subregion(a));
        entry = saved;
        for (auto & xv : g->GetExitVars())
          env[xv.output] = at(xv.branchResult[a]->origin());
        return;
      }
    }
    if (auto t = dynamic_cast<rvsdg::ThetaNode *>(&n))
    {
      auto lvs = t->GetLoopVars();
      for (auto & lv : lvs)
        env[lv.pre] = at(lv.input->origin());
      auto saved = entry;
      for (unsigned k = 0;; k++)
      {
        if (k == fuel)
        {
          if (boundIsViolation)
            vf_assert(false, "the loop runs longer than before");
          vf_stop();
        }
        run(*t->subregion());
        Val p = at(t->predicate()->origin());
        std::vector<Val> post;
        for (auto & lv : lvs)
          post.push_back(at(lv.post->origin()));
        ub = vf_or(ub, p.bad);
        size_t i = 0;
        if (p.v != 0)
        {
          entry = std::max(entry, p.g);
          for (auto & lv : lvs)
            env[lv.pre] = post[i++];
          continue;
        }
        entry = saved;
        for (auto & lv : lvs)
          env[lv.output] = post[i++];
        return;
      }
    }
    if (auto l = dynamic_cast<rvsdg::LambdaNode *>(&n))
    {
      Val v(0);
      v.fn = l->output();
      env[l->output()] = v;
      return;
    }
    if (auto d = dynamic_cast<rvsdg::DeltaNode *>(&n))
    {
      for (auto & cv : d->GetContextVars())
        env[cv.inner] = at(cv.input->origin());
      run(*d->subregion());
      auto & t = *d->GetOperation().Type();
      auto lo = dynamic_cast<const llvm::LlvmDeltaOperation *>(&d->GetOperation());
      bool visible = lo && lo->linkage() != llvm::Linkage::internalLinkage
                     && lo->linkage() != llvm::Linkage::privateLinkage;
      uint64_t b = addObject(sizeOf(t), nullptr, visible, lo ? lo->name().c_str() : nullptr, visible);
      objs.back().site = d;
      objs.back().cell = rvsdg::is<llvm::PointerType>(t);
      Val init = at(d->result().origin());
      if (lo && !lo->constant()) // an earlier call may have changed it
        for (uint64_t i = 0; i < objs.back().size; i++)
          objs.back().bytes[i] = Val(shared.named("@" + lo->name() + std::to_string(i), 8));
      else
        store(b, init, t);
      env[&d->output()] = Val(b);
      return;
    }
    if (auto ph = dynamic_cast<rvsdg::PhiNode *>(&n))
    {
      for (auto & cv : ph->GetContextVars())
        env[cv.inner] = at(cv.input->origin());
      for (auto & fv : ph->GetFixVars())
      {
        Val v(0);
        if (rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(*fv.result->origin()))
          v.fn = fv.result->origin();
        else if (auto d = rvsdg::TryGetOwnerNode<rvsdg::DeltaNode>(*fv.result->origin()))
          v.v = shared.baseOf("@" + dynamic_cast<const llvm::LlvmDeltaOperation &>(d->GetOperation()).name());
        else
        {
          vf_assert(false, "oracle: recursive data");
          vf_stop();
        }
        env[fv.recref] = env[fv.output] = v;
      }
      run(*ph->subregion());
      return;
    }
    vf_assert(false, "oracle: structural node outside the evaluated fragment");
    vf_stop();
  }

  static uint64_t
  icmp(llvm::ICmpPredicate p, uint64_t a, uint64_t b, unsigned w)
  {
    int64_t s = sx(a, w), t = sx(b, w);
    switch (p)
    {
    case llvm::ICmpPredicate::Eq: return a == b;
    case llvm::ICmpPredicate::Ne: return a != b;
    case llvm::ICmpPredicate::Ugt: return a > b;
    case llvm::ICmpPredicate::Uge: return a >= b;
    case llvm::ICmpPredicate::Ult: return a < b;
    case llvm::ICmpPredicate::Ule: return a <= b;
    case llvm::ICmpPredicate::Sgt: return s > t;
    case llvm::ICmpPredicate::Sge: return s >= t;
    case llvm::ICmpPredicate::Slt: return s < t;
    case llvm::ICmpPredicate::Sle: return s <= t;
    }
    return 0;
  }
  static uint64_t
  bits(const rvsdg::BitValueRepresentation & r, bool & bad)
  {
    uint64_t v = 0;
    for (size_t i = 0; i < r.nbits() && i < 64; i++)
    {
      char c = r[i];
      v |= (uint64_t)(c == '1') << i;
      bad = vf_or(bad, vf_and(c != '0', c != '1'));
    }
    return v;
  }

  // integer binary operation; returns false if op is not one
  bool
  binary(rvsdg::Node & n, const rvsdg::Operation & op)
  {
    using namespace llvm;
    auto * ib = dynamic_cast<const IntegerBinaryOperation *>(&op);
    if (!ib)
      return false;
    unsigned w = ib->Type().nbits();
    Val x = in(n, 0), y = in(n, 1);
    uint64_t a = x.v & mask(w), b = y.v & mask(w);
    bool bad = vf_or(x.bad, y.bad);
    int64_t s = sx(a, w), t = sx(b, w);
    uint64_t r = 0;
    auto is = [&](auto * tag)
    {
      return dynamic_cast<decltype(tag)>(&op) != nullptr;
    };
#define IS(T) is((const T *)nullptr)
    if (IS(IntegerAddOperation)) r = a + b;
    else if (IS(IntegerSubOperation)) r = a - b;
    else if (IS(IntegerMulOperation)) r = a * b;
    else if (IS(IntegerAndOperation)) r = a & b;
    else if (IS(IntegerOrOperation)) r = a | b;
    else if (IS(IntegerXorOperation)) r = a ^ b;
    else if (IS(IntegerEqOperation)) r = a == b;
    else if (IS(IntegerNeOperation)) r = a != b;
    else if (IS(IntegerUltOperation)) r = a < b;
    else if (IS(IntegerUleOperation)) r = a <= b;
    else if (IS(IntegerUgtOperation)) r = a > b;
    else if (IS(IntegerUgeOperation)) r = a >= b;
    else if (IS(IntegerSltOperation)) r = s < t;
    else if (IS(IntegerSleOperation)) r = s <= t;
    else if (IS(IntegerSgtOperation)) r = s > t;
    else if (IS(IntegerSgeOperation)) r = s >= t;
    else if (IS(IntegerShlOperation) || IS(IntegerLShrOperation) || IS(IntegerAShrOperation))
    {
      bad = vf_or(bad, b >= w);
      uint64_t k = b & 63;
      r = IS(IntegerShlOperation) ? a << k : IS(IntegerLShrOperation) ? a >> k : (uint64_t)(s >> k);
    }
    else
    {
      ub = vf_or(ub, vf_or(y.bad, b == 0));
      access(n, b, 0);
      if (IS(IntegerUDivOperation)) r = vf_udiv64(a, b);
      else if (IS(IntegerURemOperation)) r = vf_urem64(a, b);
      else
      {
        uint64_t minv = sx(1ull << (w - 1), w);
        ub = vf_or(ub, vf_and((uint64_t)s == minv, t == -1));
        if (IS(IntegerSDivOperation)) r = vf_sdiv64(s, t);
        else if (IS(IntegerSRemOperation)) r = vf_srem64(s, t);
        else return false;
      }
    }
#undef IS
    unsigned rw = bitsOf(*op_result(op, 0));
    set(n, 0, Val(r & mask(rw), bad));
    return true;
  }
  static std::shared_ptr<const rvsdg::Type>
  op_result(const rvsdg::Operation & op, size_t i)
  {
    return dynamic_cast<const rvsdg::SimpleOperation &>(op).result(i);
  }

  void
  eval(rvsdg::Node & n)
  {
    auto sn = dynamic_cast<rvsdg::SimpleNode *>(&n);
    if (!sn)
      return evalStructural(n);
    auto g = waits(n), e = calls;
    evalSimple(n, *sn);
    if (calls > e)
      g = calls;
    bool defined = false; // the results of a function of the program know themselves
    if (dynamic_cast<const llvm::CallOperation *>(&sn->GetOperation()))
      defined = rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(*in(n, 0).fn) != nullptr;
    for (size_t i = 0; i < n.noutputs() && !defined; i++)
      env[n.output(i)].g = g;
    if (dynamic_cast<const llvm::LoadNonVolatileOperation *>(&sn->GetOperation()))
      for (size_t i = 1; i < n.noutputs(); i++) // nothing waits for a load whose value is not used
        env[n.output(i)].g = in(n, i).g;
  }
  void
  evalSimple(rvsdg::Node & n, rvsdg::SimpleNode & sn)
  {
    using namespace llvm;
    auto & op = sn.GetOperation();
    if (binary(n, op))
      return;
    if (auto c = dynamic_cast<const IntegerConstantOperation *>(&op))
    {
      Val v;
      v.v = bits(c->Representation(), v.bad);
      return set(n, 0, v);
    }
    if (auto c = dynamic_cast<const rvsdg::BitConstantOperation *>(&op))
    {
      Val v;
      v.v = bits(c->value(), v.bad);
      return set(n, 0, v);
    }
    if (auto c = dynamic_cast<const rvsdg::ControlConstantOperation *>(&op))
      return set(n, 0, Val(c->value().alternative()));
    if (auto m = dynamic_cast<const rvsdg::MatchOperation *>(&op))
    {
      Val x = in(n, 0), r(m->default_alternative_, x.bad);
      for (auto & kv : m->mapping_)
        r.v = vf_ite64(x.v == (kv.first & mask(m->nbits())), kv.second, r.v);
      return set(n, 0, r);
    }
    if (auto c = dynamic_cast<const ZExtOperation *>(&op))
    {
      (void)c;
      return set(n, 0, in(n, 0));
    }
    if (auto c = dynamic_cast<const SExtOperation *>(&op))
    {
      Val x = in(n, 0);
      x.v = sx(x.v, bitsOf(*c->argument(0))) & mask(bitsOf(*c->result(0)));
      return set(n, 0, x);
    }
    if (dynamic_cast<const TruncOperation *>(&op) || dynamic_cast<const PtrToIntOperation *>(&op)
        || dynamic_cast<const IntToPtrOperation *>(&op) || dynamic_cast<const BitCastOperation *>(&op)
        || dynamic_cast<const ControlToIntOperation *>(&op))
    {
      Val x = in(n, 0);
      x.v &= mask(bitsOf(*op_result(op, 0)));
      return set(n, 0, x);
    }
    if (dynamic_cast<const FunctionToPointerOperation *>(&op)
        || dynamic_cast<const PointerToFunctionOperation *>(&op)
        || dynamic_cast<const IOBarrierOperation *>(&op))
      return set(n, 0, in(n, 0));
    if (auto p = dynamic_cast<const PtrCmpOperation *>(&op))
    {
      Val x = in(n, 0), y = in(n, 1);
      return set(n, 0, Val(icmp(p->predicate(), x.v, y.v, 64), vf_or(x.bad, y.bad)));
    }
    if (dynamic_cast<const ConstantPointerNullOperation *>(&op))
      return set(n, 0, Val(0));
    if (dynamic_cast<const ConstantAggregateZeroOperation *>(&op))
      return set(n, 0, Val(0));
    if (dynamic_cast<const ConstantArrayOperation *>(&op) || dynamic_cast<const ConstantDataArrayOperation *>(&op)
        || dynamic_cast<const ConstantStructOperation *>(&op))
    {
      Val r(0);
      for (size_t i = 0; i < n.ninputs(); i++)
        r.parts.push_back(in(n, i));
      return set(n, 0, r);
    }
    if (dynamic_cast<const UndefValueOperation *>(&op)
        || dynamic_cast<const PoisonValueOperation *>(&op))
      return set(n, 0, Val(0, true));
    if (dynamic_cast<const SelectOperation *>(&op))
    {
      Val c = in(n, 0), x = in(n, 1), y = in(n, 2);
      bool t = (c.v & 1) != 0;
      Val r(vf_ite64(t, x.v, y.v), vf_or(c.bad, vf_ite64(t, x.bad, y.bad)));
      if (x.fn && x.fn == y.fn)
        r.fn = x.fn;
      return set(n, 0, r);
    }
    if (auto g = dynamic_cast<const GetElementPtrOperation *>(&op))
    {
      Val r = in(n, 0);
      const rvsdg::Type * t = g->getPointeeType().get();
      for (size_t i = 1; i < n.ninputs(); i++)
      {
        Val x = in(n, i);
        r.bad = vf_or(r.bad, x.bad);
        uint64_t s = sx(x.v, bitsOf(*n.input(i)->Type()));
        if (i == 1)
          r.v += s * sizeOf(*t);
        else if (auto a = dynamic_cast<const ArrayType *>(t))
        {
          t = &a->element_type();
          r.v += s * sizeOf(*t);
        }
        else if (auto st = dynamic_cast<const StructType *>(t))
        {
          uint64_t off = 0;
          for (size_t k = 0; k < st->numElements(); k++)
            off = vf_ite64(x.v == k, fieldOffset(*st, k), off);
          r.v += off;
          size_t k = 0;
          while (k + 1 < st->numElements() && x.v != k)
            k++;
          t = st->getElementType(k).get();
        }
      }
      return set(n, 0, r);
    }
    if (auto l = dynamic_cast<const LoadNonVolatileOperation *>(&op))
    {
      Val p = in(n, 0);
      ub = vf_or(ub, p.bad);
      access(n, p.v, sizeOf(*l->GetLoadedType()));
      set(n, 0, load(p.v, *l->GetLoadedType()));
      for (size_t i = 1; i < n.noutputs(); i++)
        set(n, i, Val(0));
      return;
    }
    if (dynamic_cast<const StoreNonVolatileOperation *>(&op))
    {
      Val p = in(n, 0);
      ub = vf_or(ub, p.bad);
      access(n, p.v, sizeOf(*n.input(1)->Type()));
      store(p.v, in(n, 1), *n.input(1)->Type());
      for (size_t i = 0; i < n.noutputs(); i++)
        set(n, i, Val(0));
      return;
    }
    if (dynamic_cast<const LoadVolatileOperation *>(&op)
        || dynamic_cast<const StoreVolatileOperation *>(&op))
    {
      Event e;
      bool isLoad = dynamic_cast<const LoadVolatileOperation *>(&op) != nullptr;
      e.name = isLoad ? "volatile-load" : "volatile-store";
      e.args.push_back(in(n, 0));
      if (!isLoad)
      {
        e.args.push_back(in(n, 1));
        store(in(n, 0).v, in(n, 1), *n.input(1)->Type());
      }
      size_t k = events.size();
      e.ub = ub;
      events.push_back(e);
      for (size_t i = 0; i < n.noutputs(); i++)
        set(n, i, i == 0 && isLoad ? Val(external(k, 0) & mask(bitsOf(*n.output(0)->Type()))) : Val(0));
      return;
    }
    if (auto a = dynamic_cast<const AllocaOperation *>(&op))
    {
      Val c = in(n, 0);
      if (!vf_is_const(c.v))
        vf_assert(false, "oracle: allocation of variable size");
      set(n, 0, Val(addObject(sizeOf(*a->allocatedType()) * c.v, nullptr, false)));
      objs.back().site = &n;
      objs.back().cell = rvsdg::is<llvm::PointerType>(*a->allocatedType());
      return set(n, 1, Val(0));
    }
    if (dynamic_cast<const MallocOperation *>(&op))
    {
      Val c = in(n, 0);
      set(n, 0, Val(addObject(c.v, nullptr, false)));
      objs.back().site = &n;
      for (size_t i = 1; i < n.noutputs(); i++)
        set(n, i, Val(0));
      return;
    }
    if (dynamic_cast<const MemCpyNonVolatileOperation *>(&op))
    {
      Val d = in(n, 0), s = in(n, 1), c = in(n, 2);
      access(n, s.v, c.v);
      access(n, d.v, c.v);
      auto b = read(s.v, c.v);
      write(d.v, b);
      for (size_t i = 0; i < n.noutputs(); i++)
        set(n, i, Val(0));
      return;
    }
    if (dynamic_cast<const MemoryStateOperation *>(&op))
    {
      for (size_t i = 0; i < n.noutputs(); i++)
        set(n, i, Val(0));
      return;
    }
    if (dynamic_cast<const CallOperation *>(&op))
    {
      Val f = in(n, 0);
      std::vector<Val> args;
      for (size_t i = 1; i < n.ninputs(); i++)
        args.push_back(in(n, i));
      if (!f.fn)
      {
        vf_assert(false, "oracle: call of an unknown function");
        vf_stop();
      }
      auto saved = entry; // a function starts when all its arguments are there
      entry = waits(n);
      auto r = callFunction(f.fn, args, n);
      entry = saved;
      for (size_t i = 0; i < n.noutputs(); i++)
        set(n, i, r[i]);
      return;
    }
    // everything else: uninterpreted, pure in its operands
    std::vector<Val> args;
    bool bad = false;
    for (size_t i = 0; i < n.ninputs(); i++)
    {
      args.push_back(in(n, i));
      bad = vf_or(bad, args.back().bad);
    }
    Uninterpreted u;
    std::vector<uint64_t> res;
    for (size_t i = 0; i < n.noutputs(); i++)
    {
      auto & t = *n.output(i)->Type();
      uint64_t v = t.Kind() == rvsdg::TypeKind::Value ? uninterpreted(op, args, i, bitsOf(t)) : 0;
      res.push_back(v);
      set(n, i, Val(v, t.Kind() == rvsdg::TypeKind::Value && bad));
    }
    u.op = op.copy();
    u.args = args;
    u.res = res;
    shared.uf.push_back(std::move(u));
  }
};

// the transformed program refines the original one
static inline void
sameValue(const Val & before, const Val & after, bool ubBefore, const char * what)
{
  bool ok = vf_and(!after.bad, vf_and(before.v == after.v, before.fn == after.fn));
  vf_assert(vf_or(ubBefore, vf_or(before.bad, ok)), what);
}
static inline void
sameObservations(const Machine & a, const Machine & b, const char * what)
{
  vf_assert(vf_implies(b.ub, a.ub), "no new undefined behaviour");
  if (a.events.size() != b.events.size())
  {
    vf_assert(a.ub, "the same external events");
    vf_stop();
  }
  // private objects have no address of their own: they correspond as the events name them
  std::vector<std::pair<uint64_t, uint64_t>> same;
  auto privateBase = [](const Machine & m, uint64_t p, uint64_t & base)
  {
    for (auto & o : m.objs)
      if (!o.caller && o.name.empty() && p >= o.base && p < o.base + o.size)
      {
        base = o.base;
        return true;
      }
    return false;
  };
  auto samePrivate = [&](const Val & p, const Val & q)
  {
    uint64_t c, d;
    if (p.bad || q.bad || !vf_is_const(p.v) || !vf_is_const(q.v) || p.v == q.v || !privateBase(a, p.v, c) || !privateBase(b, q.v, d) || p.v - c != q.v - d)
      return false;
    for (auto & s : same)
      if (s.first == c || s.second == d)
        return s.first == c && s.second == d;
    same.emplace_back(c, d);
    return true;
  };
  for (size_t i = 0; i < a.events.size(); i++)
  {
    auto & x = a.events[i];
    auto & y = b.events[i];
    vf_assert(x.name == y.name && x.args.size() == y.args.size(), "the same external events");
    vf_assert(vf_implies(y.ub, x.ub), "no new undefined behaviour before an external event");
    for (size_t k = 0; k < x.args.size() && k < y.args.size(); k++)
      if (k || !samePrivate(x.args[k], y.args[k]))
        sameValue(x.args[k], y.args[k], a.ub, "the same arguments of external events");
  }
  for (auto & y : b.accesses)
  {
    bool ok = a.ub;
    for (auto & o : b.objs) // private objects are always there
      if (y.n && (!o.caller || !o.name.empty() && o.name.rfind("arg", 0) != 0))
        ok = vf_or(ok, vf_and(y.p >= o.base, y.p + y.n <= o.base + o.size));
    for (auto & x : a.accesses)
      if (x.g <= y.g && (y.n ? x.n > 0 : x.n == 0))
        ok = vf_or(ok, vf_and(y.p >= x.p, y.p + y.n <= x.p + x.n));
    if (!y.n)
      ok = vf_or(ok, vf_is_const(y.p) && y.p != 0);
    vf_assert(ok, "an access does not move before a call it has to wait for");
  }
  for (auto & x : a.objs)
    if (x.caller)
      for (auto & y : b.objs)
        if (y.base == x.base)
          for (size_t k = 0; k < x.size; k++)
            sameValue(x.bytes[k], y.bytes[k], a.ub, what);
}
}
#endif
