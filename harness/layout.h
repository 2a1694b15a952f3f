// The x86-64 data layout of LLVM, written from the language reference.
#ifndef LAYOUT_H
#define LAYOUT_H
#include <jlm/llvm/ir/types.hpp>
#include <jlm/rvsdg/bitstring/type.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <vector>

namespace jlm::llvm
{
typedef std::shared_ptr<const rvsdg::Type> T;
struct Layout
{
  uint64_t store, alloc, align, bits;
};
static uint64_t
up(uint64_t n, uint64_t a)
{
  return (n + a - 1) / a * a;
}
static Layout
integer(uint64_t w)
{
  uint64_t n = (w + 7) >> 3;
  uint64_t a = vf_ite64(w <= 8, 1, vf_ite64(w <= 16, 2, vf_ite64(w <= 32, 4, vf_ite64(w <= 64, 8, 16))));
  return { n, (n + a - 1) & ~(a - 1), a, w };
}
static Layout
vec(const Layout & e, uint64_t n)
{
  uint64_t s = (e.bits * n + 7) / 8, a = 1;
  while (a < s)
    a *= 2;
  return { s, a, a, s * 8 };
}
static Layout
arr(const Layout & e, uint64_t n)
{
  return { e.alloc * n, e.alloc * n, e.align, 0 };
}
static Layout
record(const std::vector<Layout> & f, bool packed, std::vector<uint64_t> * offsets = nullptr)
{
  uint64_t o = 0, al = 1;
  for (auto & l : f)
  {
    uint64_t a = packed ? 1 : l.align;
    al = std::max(al, a);
    o = up(o, a);
    if (offsets)
      offsets->push_back(o);
    o += l.alloc;
  }
  return { up(o, al), up(o, al), al, 0 };
}
struct D
{
  T t;
  Layout l;
  std::vector<D> parts; // the element, or the fields
  std::vector<uint64_t> offsets;
  bool isStruct = false;
};
static D
bitsD(uint64_t w)
{
  return { rvsdg::BitType::Create(w), integer(w), {}, {} };
}
static D
floating(fpsize s)
{
  static const Layout l[] = { { 2, 2, 2, 16 }, { 4, 4, 4, 32 }, { 8, 8, 8, 64 }, { 10, 16, 16, 80 }, { 16, 16, 16, 128 } };
  return { FloatingPointType::Create(s), l[(int)s], {}, {} };
}
static D
pointer()
{
  return { PointerType::Create(), { 8, 8, 8, 64 }, {}, {} };
}
static D
vector(const D & e, uint64_t n)
{
  return { FixedVectorType::Create(e.t, n), vec(e.l, n), { e }, {} };
}
static D
array(const D & e, uint64_t n)
{
  return { ArrayType::Create(e.t, n), arr(e.l, n), { e }, {} };
}
static D
structure(const std::vector<D> & f, bool packed, bool literal)
{
  std::vector<T> ts;
  std::vector<Layout> ls;
  for (auto & d : f)
    ts.push_back(d.t), ls.push_back(d.l);
  D d{ literal ? StructType::CreateLiteral(ts, packed) : StructType::CreateIdentified("S", ts, packed), {}, f, {}, true };
  d.l = record(ls, packed, &d.offsets);
  return d;
}
static const unsigned numLeaves = 30;
static D
leaf(unsigned k)
{
  switch (k)
  {
  case 0: return bitsD(1);
  case 1: return bitsD(8);
  case 2: return bitsD(16);
  case 3: return bitsD(24);
  case 4: return bitsD(32);
  case 5: return bitsD(33);
  case 6: return bitsD(64);
  case 7: return bitsD(65);
  case 8: return bitsD(128);
  case 9: return bitsD(200);
  case 10: return pointer();
  case 11: case 12: case 13: case 14: case 15: return floating((fpsize)(k - 11));
  case 16: return vector(bitsD(1), 8);
  case 17: return vector(bitsD(16), 3);
  case 18: return vector(floating(fpsize::flt), 4);
  case 19: return vector(pointer(), 5);
  case 20: return array(bitsD(8), 3);
  case 21: return array(bitsD(24), 2);
  case 22: return array(bitsD(64), 0);
  case 23: return array(vector(bitsD(32), 2), 3);
  case 24: return structure({ bitsD(8), bitsD(32) }, false, true);
  case 25: return structure({ bitsD(8), bitsD(32) }, true, false);
  case 26: return structure({}, false, false);
  case 27: return structure({ bitsD(64), bitsD(8) }, false, false);
  case 28: return array(structure({ bitsD(8), pointer(), bitsD(16) }, true, false), 2);
  default: return structure({ array(bitsD(16), 3), structure({ floating(fpsize::x86fp80) }, true, true) }, false, false);
  }
}
}
#endif
