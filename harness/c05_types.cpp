// @property C05
// @sources rvsdg util llvm
// Contracts of type identity and of the memory layout of types.
#include "vf.h"
#include <jlm/llvm/ir/types.hpp>
#include <jlm/rvsdg/bitstring/type.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/UnitType.hpp>
#include <jlm/util/Hash.hpp>
#include <functional>

#include "layout.h"

namespace jlm::llvm
{
static void
checkLayout(const rvsdg::Type & t, const Layout & l)
{
  vf_assert(GetTypeStoreSize(t) == l.store, "the store size is the one of LLVM");
  vf_assert(GetTypeAllocSize(t) == l.alloc, "the allocation size is the one of LLVM");
  vf_assert(GetTypeAlignment(t) == l.align, "the alignment is the one of LLVM");
}
// Scalars of every width.
static uint64_t
width(unsigned classes)
{
  static const uint64_t limits[] = { 0, 8, 16, 32, 64, 128, 256, 512, 1 << 10, 1 << 12, 1 << 16, 1 << 20, 1 << 23 };
  unsigned k = vf_choose(classes, "range of widths");
  uint64_t w = vf_nondet(24, "width");
  vf_assume(w > limits[k] && w <= limits[k + 1]);
  return w;
}
extern "C" void proof_integers()
{
  uint64_t w = width(12);
  rvsdg::BitType t(w);
  vf_assert(t.nbits() == w, "the width is kept");
  checkLayout(t, integer(w));
  T u = std::make_shared<rvsdg::BitType>(w);
  uint64_t n = vf_nondet(32, "elements"), stride = GetTypeAllocSize(t);
  ArrayType a(u, n);
  vf_assert(GetTypeStoreSize(a) == stride * n && GetTypeAllocSize(a) == stride * n, "the stride of an array is the size of its elements");
  vf_assert(GetTypeAlignment(a) == GetTypeAlignment(t), "the alignment of an array is the one of its elements");
}
extern "C" void proof_leaves()
{
  auto d = leaf(vf_choose(numLeaves, "type"));
  checkLayout(*d.t, d.l);
  uint64_t n = vf_nondet(32, "elements");
  ArrayType a(d.t, n);
  checkLayout(a, { d.l.alloc * n, d.l.alloc * n, d.l.align, 0 });
}
// Vectors of every number of elements, by kind of element.
extern "C" void proof_vectors()
{
  static const unsigned kinds[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15 };
  auto e = leaf(kinds[vf_choose(15, "element")]);
  uint64_t n = 1 + vf_choose(40, "elements");
  auto d = vector(e, n);
  checkLayout(*d.t, d.l);
}
static void
fields(const std::vector<D> & f, bool packed, bool literal)
{
  std::vector<Layout> ls;
  for (auto & d : f)
    ls.push_back(d.l);
  std::vector<uint64_t> offsets;
  auto l = record(ls, packed, &offsets);
  auto d = structure(f, packed, literal);
  checkLayout(*d.t, l);
  auto s = std::dynamic_pointer_cast<const StructType>(d.t);
  uint64_t end = 0;
  for (size_t i = 0; i < f.size(); i++)
  {
    uint64_t o = s->GetFieldOffset(i);
    vf_assert(o == offsets[i], "the offset of every field is the one of LLVM");
    vf_assert(o >= end && (packed || o % GetTypeAlignment(*f[i].t) == 0), "fields are aligned, in order, and do not overlap");
    end = o + GetTypeAllocSize(*f[i].t);
  }
  vf_assert(end <= GetTypeAllocSize(*s), "every field lies inside of the object");
}
extern "C" void proof_structures2()
{
  bool packed = vf_choose(2, "packed");
  auto a = leaf(vf_choose(numLeaves, "first"));
  for (unsigned k = 0; k < numLeaves; k++)
    fields({ a, leaf(k) }, packed, k & 1);
}
extern "C" void proof_structures3()
{
  bool packed = vf_choose(2, "packed");
  auto a = leaf(vf_choose(numLeaves, "first"));
  for (unsigned k = 0; k < numLeaves; k += 3)
    for (unsigned m = 1; m < numLeaves; m += 2)
      fields({ a, leaf((k + m) % numLeaves), leaf(m) }, packed, k & 1);
}
// A structure around scalars of every width.
extern "C" void proof_structuresOfIntegers()
{
  bool packed = vf_choose(2, "packed");
  uint64_t w[3];
  std::vector<T> ts;
  for (unsigned i = 0; i < 3; i++)
  {
    w[i] = i == 1 ? 8 : width(6);
    ts.push_back(std::make_shared<rvsdg::BitType>(w[i]));
  }
  StructType s("", ts, packed, true);
  uint64_t o = 0, al = 1;
  for (size_t i = 0; i < 3; i++)
  {
    auto l = integer(w[i]);
    uint64_t a = packed ? 1 : l.align;
    al = vf_ite64(al < a, a, al);
    o = (o + a - 1) & ~(a - 1);
    vf_assert(s.GetFieldOffset(i) == o, "the offset of every field is the one of LLVM");
    o += l.alloc;
  }
  o = (o + al - 1) & ~(al - 1);
  vf_assert(GetTypeAllocSize(s) == o, "the allocation size is the one of LLVM");
}

// Identity: each type has a structural key; types are equal exactly if their keys are.
struct K
{
  T t;
  int key;
};
static std::vector<K>
catalogue()
{
  std::vector<K> r;
  int key = 0;
  auto add = [&](std::initializer_list<T> same) {
    for (auto & t : same)
      r.push_back({ t, key });
    key++;
  };
  auto b = [](size_t n) -> T { return rvsdg::BitType::Create(n); };
  auto ctl = [](size_t n) -> T { return rvsdg::ControlType::Create(n); };
  auto ar = [](T t, size_t n) -> T { return ArrayType::Create(t, n); };
  auto fv = [](T t, size_t n) -> T { return FixedVectorType::Create(t, n); };
  auto sv = [](T t, size_t n) -> T { return ScalableVectorType::Create(t, n); };
  auto id = [](const char * s, std::vector<T> v, bool p) -> T { return StructType::CreateIdentified(s, v, p); };
  auto li = [](std::vector<T> v, bool p) -> T { return StructType::CreateLiteral(v, p); };
  auto fn = [](std::vector<T> a, std::vector<T> c) -> T { return rvsdg::FunctionType::Create(a, c); };
  T p = PointerType::Create(), m = MemoryStateType::Create(), io = IOStateType::Create(), va = VariableArgumentType::Create();
  for (size_t n : { 1, 8, 32, 64, 65, 128 })
    add({ b(n), std::make_shared<rvsdg::BitType>(n), b(n) });
  for (size_t n : { 1, 2, 8, 70 })
    add({ ctl(n), std::make_shared<rvsdg::ControlType>(n) });
  for (auto s : { fpsize::half, fpsize::flt, fpsize::dbl, fpsize::x86fp80, fpsize::fp128 })
    add({ FloatingPointType::Create(s), std::make_shared<FloatingPointType>(s) });
  add({ p, std::make_shared<PointerType>() });
  add({ m, std::make_shared<MemoryStateType>() });
  add({ io, std::make_shared<IOStateType>() });
  add({ va, std::make_shared<VariableArgumentType>() });
  add({ rvsdg::UnitType::Create() });
  add({ ar(b(8), 4), ar(std::make_shared<rvsdg::BitType>(8), 4) });
  add({ ar(b(8), 5) });
  add({ ar(b(32), 4) });
  add({ ar(ar(b(8), 2), 4), ar(ar(b(8), 2), 4) });
  add({ ar(ar(b(8), 4), 2) });
  add({ fv(b(8), 4), fv(b(8), 4) });
  add({ sv(b(8), 4), sv(b(8), 4) });
  add({ fv(b(8), 8) });
  add({ sv(b(8), 8) });
  add({ fv(b(32), 4) });
  add({ fv(p, 4) });
  add({ id("S", { b(8), b(32) }, false), id("S", { b(8), b(32) }, false) });
  add({ id("S", { b(8), b(32) }, true) });
  add({ id("R", { b(8), b(32) }, false) });
  add({ id("", { b(8), b(32) }, false), StructType::CreateIdentified({ b(8), b(32) }, false) });
  add({ li({ b(8), b(32) }, false), li({ b(8), b(32) }, false) });
  add({ li({ b(8), b(32) }, true) });
  add({ li({ b(32), b(8) }, false) });
  add({ li({ b(8), b(32), b(8) }, false) });
  add({ li({ b(8) }, false) });
  add({ li({}, false), li({}, false) });
  add({ id("S", {}, false) });
  add({ id("S", { b(8), ar(b(32), 1) }, false) });
  add({ id("S", { id("T", { p }, false) }, false), id("S", { id("T", { p }, false) }, false) });
  add({ id("S", { id("T", { b(64) }, false) }, false) });
  add({ fn({}, {}), fn({}, {}) });
  add({ fn({ p }, {}) });
  add({ fn({}, { p }) });
  add({ fn({ p, io, m }, { b(32), io, m }), fn({ p, io, m }, { b(32), io, m }) });
  add({ fn({ p, io, m }, { b(64), io, m }) });
  add({ fn({ p, m, io }, { b(32), io, m }) });
  add({ fn({ p, va, io, m }, { b(32), io, m }) });
  add({ fn({ p, io }, { m, b(32), io, m }) });
  return r;
}
extern "C" void proof_identity()
{
  static auto all = catalogue();
  auto & a = all[vf_choose(all.size(), "type")];
  for (auto & b : all)
  {
    bool same = a.key == b.key;
    vf_assert((*a.t == *b.t) == same, "types are equal exactly if they have the same structure");
    vf_assert((*a.t != *b.t) == !same, "types are equal exactly if they have the same structure");
    if (same)
      vf_assert(a.t->ComputeHash() == b.t->ComputeHash(), "equal types have equal hashes");
  }
}
// Equality of types with numbers compares the numbers, whatever they are.
extern "C" void proof_numbers()
{
  uint64_t x = vf_u64("x"), y = vf_u64("y");
  T e = rvsdg::BitType::Create(8);
  auto both = [&](const rvsdg::Type & a, const rvsdg::Type & b) {
    vf_assert((a == b) == (x == y), "types are equal exactly if they have the same structure");
    vf_assert(x != y || a.ComputeHash() == b.ComputeHash(), "equal types have equal hashes");
  };
  switch (vf_choose(5, "kind"))
  {
  case 0: both(rvsdg::BitType(x), rvsdg::BitType(y)); break;
  case 1: both(rvsdg::ControlType(x), rvsdg::ControlType(y)); break;
  case 2: both(ArrayType(e, x), ArrayType(e, y)); break;
  case 3: both(FixedVectorType(e, x), FixedVectorType(e, y)); break;
  default: both(ScalableVectorType(e, x), ScalableVectorType(e, y)); break;
  }
}
// What a type contains.
extern "C" void proof_contains()
{
  auto d = leaf(vf_choose(numLeaves, "type"));
  std::function<bool(const rvsdg::Type &, bool (*)(const rvsdg::Type &))> any = [&](const rvsdg::Type & t, bool (*is)(const rvsdg::Type &)) -> bool {
    if (is(t))
      return true;
    if (auto a = dynamic_cast<const ArrayType *>(&t))
      return any(a->element_type(), is);
    if (auto v = dynamic_cast<const VectorType *>(&t))
      return any(v->type(), is);
    if (auto s = dynamic_cast<const StructType *>(&t))
      for (size_t i = 0; i < s->numElements(); i++)
        if (any(*s->getElementType(i), is))
          return true;
    return false;
  };
  vf_assert(IsOrContains<PointerType>(*d.t) == any(*d.t, [](const rvsdg::Type & t) { return !!dynamic_cast<const PointerType *>(&t); }), "containment is exact");
  vf_assert(IsOrContains<FloatingPointType>(*d.t) == any(*d.t, [](const rvsdg::Type & t) { return !!dynamic_cast<const FloatingPointType *>(&t); }), "containment is exact");
  vf_assert(IsOrContains<StructType>(*d.t) == any(*d.t, [](const rvsdg::Type & t) { return !!dynamic_cast<const StructType *>(&t); }), "containment is exact");
  bool agg = dynamic_cast<const ArrayType *>(d.t.get()) || dynamic_cast<const StructType *>(d.t.get());
  vf_assert(IsAggregateType(*d.t) == agg, "aggregates are arrays and structures");
  auto v = dynamic_cast<const VectorType *>(d.t.get());
  vf_assert(isVectorOf<PointerType>(*d.t) == (v && dynamic_cast<const PointerType *>(&v->type())), "vectors of a type are recognized");
  vf_assert(isVectorOfSize<PointerType>(*d.t, 5) == (v && v->size() == 5 && dynamic_cast<const PointerType *>(&v->type())), "vectors of a type are recognized");
}
}
