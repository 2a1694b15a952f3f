// @property C01
// @sources rvsdg util
// @proof ~proof_linear_([79]|1[0-57-9]|2[0-9]|3[3-9]|4.|5.|6[0-2]) tier=thorough
// @proof ~proof_(div_5|div_6|sdiv_4|sdiv_5|sdiv_6|high_6|mul_10) scope=bounded bound="widths up to 10" tier=thorough time=1200
// @proof ~proof_(mul|high|div|sdiv)_.* scope=bounded bound="widths up to 8" time=600 cost=50
// @proof proof_unknown_.* time=600
// Contracts of compile-time bit string arithmetic (BitValueRepresentation).
#include "vf.h"
#include <jlm/rvsdg/bitstring/value-representation.hpp>
#include <jlm/rvsdg/bitstring/arithmetic.hpp>
#include <jlm/rvsdg/bitstring/comparison.hpp>
using jlm::rvsdg::BitValueRepresentation;
using BV = BitValueRepresentation;

static inline uint64_t
mask(unsigned w)
{
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static inline uint64_t
sx(uint64_t v, unsigned w)
{
  return w >= 64 ? v : (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w));
}
// A bit string whose bits are all known, and its value.
static BV
known(unsigned w, uint64_t v)
{
  BV r = BV::repeat(w, '0');
  for (unsigned i = 0; i < w; i++)
    r[i] = (char)('0' + ((v >> i) & 1));
  return r;
}
static void
is(const BV & r, unsigned w, uint64_t v, const char * what)
{
  vf_assert(r.nbits() == w, what);
  bool ok = true;
  for (unsigned i = 0; i < w; i++)
    ok = vf_and(ok, r[i] == (char)('0' + ((v >> i) & 1)));
  vf_assert(ok, what);
}
static void
isBit(char r, bool v, const char * what)
{
  vf_assert(r == (char)('0' + v), what);
}

template<unsigned W>
static void
linear()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  BV x = known(W, a), y = known(W, b);
  is(x.add(y), W, a + b, "add");
  is(x.sub(y), W, a - b, "sub");
  is(x.neg(), W, 0 - a, "neg");
  is(x.land(y), W, a & b, "and");
  is(x.lor(y), W, a | b, "or");
  is(x.lxor(y), W, a ^ b, "xor");
  is(x.lnot(), W, ~a, "not");
  isBit(x.ult(y), a < b, "ult");
  isBit(x.ule(y), a <= b, "ule");
  isBit(x.ugt(y), a > b, "ugt");
  isBit(x.uge(y), a >= b, "uge");
  int64_t s = sx(a, W), t = sx(b, W);
  isBit(x.slt(y), s < t, "slt");
  isBit(x.sle(y), s <= t, "sle");
  isBit(x.sgt(y), s > t, "sgt");
  isBit(x.sge(y), s >= t, "sge");
  isBit(x.eq(y), a == b, "eq");
  isBit(x.ne(y), a != b, "ne");
}

#define LIN(W) extern "C" void proof_linear_##W() { linear<W>(); }
LIN(1) LIN(2) LIN(3) LIN(4) LIN(5) LIN(6) LIN(7) LIN(8) LIN(9) LIN(10) LIN(11) LIN(12) LIN(13) LIN(14) LIN(15) LIN(16) LIN(17) LIN(18) LIN(19) LIN(20) LIN(21) LIN(22) LIN(23) LIN(24) LIN(25) LIN(26) LIN(27) LIN(28) LIN(29) LIN(30) LIN(31) LIN(32) LIN(33) LIN(34) LIN(35) LIN(36) LIN(37) LIN(38) LIN(39) LIN(40) LIN(41) LIN(42) LIN(43) LIN(44) LIN(45) LIN(46) LIN(47) LIN(48) LIN(49) LIN(50) LIN(51) LIN(52) LIN(53) LIN(54) LIN(55) LIN(56) LIN(57) LIN(58) LIN(59) LIN(60) LIN(61) LIN(62) LIN(63) LIN(64)

// ---- multiplication and division
template<unsigned W>
static void
mulC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  is(known(W, a).mul(known(W, b)), W, a * b, "mul");
}
template<unsigned W>
static void
highC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  BV x = known(W, a), y = known(W, b);
  is(x.umulh(y), W, (a * b) >> W, "umulh");
  is(x.smulh(y), W, (sx(a, W) * sx(b, W)) >> W, "smulh");
}
template<unsigned W>
static void
divC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  BV x = known(W, a), y = known(W, b);
  BV q = x.udiv(y), r = x.umod(y); // must not fail even for b == 0
  vf_assert(q.nbits() == W && r.nbits() == W, "width of quotient and remainder");
  vf_assume(b != 0);
  is(q, W, vf_udiv64(a, b), "udiv");
  is(r, W, vf_urem64(a, b), "umod");
}
template<unsigned W>
static void
sdivC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  BV x = known(W, a), y = known(W, b);
  BV q = x.sdiv(y), r = x.smod(y);
  vf_assert(q.nbits() == W && r.nbits() == W, "width of quotient and remainder");
  vf_assume(b != 0);
  int64_t s = sx(a, W), t = sx(b, W);
  is(q, W, vf_sdiv64(s, t), "sdiv"); // min / -1 wraps to min, as two's complement does
  is(r, W, vf_srem64(s, t), "smod");
}
#define MD(W) \
  extern "C" void proof_mul_##W() { mulC<W>(); } \
  extern "C" void proof_high_##W() { highC<W>(); } \
  extern "C" void proof_div_##W() { divC<W>(); } \
  extern "C" void proof_sdiv_##W() { sdivC<W>(); }
MD(1) MD(2) MD(3) MD(4) MD(5) MD(6)
extern "C" void proof_mul_7() { mulC<7>(); }
extern "C" void proof_mul_8() { mulC<8>(); }
extern "C" void proof_mul_10() { mulC<10>(); }

// ---- shifts, extensions, slices: every amount
template<unsigned W>
static void
shiftC()
{
  uint64_t a = vf_nondet(W, "a");
  uint64_t k = vf_choose(W + 3, "amount");
  if (k == W + 2)
    k = 1ull << 40;
  BV x = known(W, a);
  uint64_t s = sx(a, W);
  is(x.shl(k), W, k >= W ? 0 : a << k, "shl");
  is(x.shr(k), W, k >= W ? 0 : a >> k, "shr");
  is(x.ashr(k), W, (uint64_t)((int64_t)s >> (k >= W ? 63 : k)), "ashr");
}
template<unsigned W>
static void
sliceC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  uint64_t lo = vf_choose(W + 2, "low"), hi = vf_choose(W + 2, "high");
  BV x = known(W, a);
  bool threw = false;
  try
  {
    BV r = x.slice(lo, hi);
    vf_assert(lo < hi && hi <= W, "slice out of bounds is reported");
    is(r, hi - lo, a >> lo, "slice");
  }
  catch (jlm::util::Error &)
  {
    threw = true;
  }
  vf_assert(threw == !(lo < hi && hi <= W), "slice fails exactly if out of bounds");
  if (lo == 0 && hi >= 1 && hi <= W)
    is(x.trunc(hi), hi, a, "trunc");
  if (lo < hi && hi <= W)
  {
    BV c = x.concat(known(hi, b));
    vf_assert(c.nbits() == W + hi, "concat width");
    is(c.slice(0, W), W, a, "concat keeps the low part");
    is(c.slice(W, W + hi), hi, b, "concat puts the second operand on top");
    BV d = BV::create({ x, known(hi, b), known(1, 1) });
    vf_assert(d.nbits() == W + hi + 1, "create width");
    is(d.slice(0, W), W, a, "create: first part lowest");
    is(d.slice(W, W + hi), hi, b, "create: second part");
    vf_assert(d[W + hi] == '1', "create: third part");
    BV e(x);
    e.Append(known(hi, b));
    vf_assert(e == c, "append is concat");
  }
}
template<unsigned W>
static void
extC()
{
  uint64_t a = vf_nondet(W, "a");
  BV x = known(W, a);
  for (uint64_t k : { (uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)5, (uint64_t)(64 - W) })
    if (k + W <= 64)
    {
      is(x.zext(k), W + k, a, "zext");
      is(x.sext(k), W + k, sx(a, W), "sext");
    }
  // beyond 64 bits
  BV z = x.zext(90), t = x.sext(90);
  vf_assert(z.nbits() == W + 90 && t.nbits() == W + 90, "extension width");
  is(z.slice(0, 64), 64, a, "zext low");
  is(t.slice(0, 64), 64, sx(a, W), "sext low");
  is(z.slice(64, W + 90), W + 26, 0, "zext high");
  is(t.slice(64, W + 90), W + 26, (a >> (W - 1)) & 1 ? ~0ull : 0, "sext high");
}
#define SH(W) \
  extern "C" void proof_shift_##W() { shiftC<W>(); } \
  extern "C" void proof_ext_##W() { extC<W>(); }
SH(1) SH(2) SH(8) SH(16) SH(31) SH(32)
extern "C" void proof_shift_33() { shiftC<33>(); }
extern "C" void proof_shift_64() { shiftC<64>(); }
extern "C" void proof_slice_1() { sliceC<1>(); }
extern "C" void proof_slice_2() { sliceC<2>(); }
extern "C" void proof_slice_5() { sliceC<5>(); }
extern "C" void proof_slice_8() { sliceC<8>(); }

// ---- machine integers
template<unsigned W>
static void
fromC()
{
  int64_t v = vf_i64("v");
  bool fits = W >= 64 || (int64_t)((uint64_t)v >> 0) >> (W < 64 ? W : 63) == 0
           || v >> (W < 64 ? W : 63) == -1;
  bool threw = false;
  try
  {
    BV x(W, v);
    vf_assert(fits, "a number that does not fit is reported");
    vf_assert(x.nbits() == W, "width of a constant");
    is(x.slice(0, W < 64 ? W : 64), W < 64 ? W : 64, v, "value of a constant");
    for (unsigned i = 64; i < W; i++)
      vf_assert(x[i] == (v < 0 ? '1' : '0'), "sign of a wide constant");
    vf_assert(x.is_known() && x.is_defined(), "a constant is known");
    vf_assert(x == v && !(x != v), "equals its number");
    vf_assert(x.sign() == x[W - 1] && x.is_negative() == (x[W - 1] == '1'), "sign");
    if (W >= 64 || v >= 0)
      if (!(W > 64 && v < 0))
        vf_assert(x.to_uint() == (uint64_t)v, "to_uint");
    if (W >= 64)
      vf_assert(x.to_int() == v, "to_int");
    else
      vf_assert((uint64_t)x.to_int() == sx(v, W), "to_int");
  }
  catch (jlm::util::Error &)
  {
    threw = true;
  }
  vf_assert(threw == !fits, "a constant is rejected exactly if it does not fit");
}
extern "C" void proof_from_1() { fromC<1>(); }
extern "C" void proof_from_8() { fromC<8>(); }
extern "C" void proof_from_31() { fromC<31>(); }
extern "C" void proof_from_63() { fromC<63>(); }
extern "C" void proof_from_64() { fromC<64>(); }
extern "C" void proof_from_65() { fromC<65>(); }
extern "C" void proof_from_128() { fromC<128>(); }
extern "C" void proof_from_zero()
{
  int threw = 0;
  try { BV x(0, vf_i64("v")); } catch (jlm::util::Error &) { threw++; }
  try { BV x(""); } catch (jlm::util::Error &) { threw++; }
  vf_assert(threw == 2, "zero width is reported");
  const char cs[] = "01XD23xd";
  for (char c : cs)
  {
    bool ok = c == '0' || c == '1' || c == 'X' || c == 'D', t1 = false;
    try { BV x(c); vf_assert(x.nbits() == 1 && x[0] == c, "one bit"); } catch (jlm::util::Error &) { t1 = true; }
    vf_assert(t1 == !ok, "invalid bits are reported");
    if (!c)
      continue;
    char s[] = { '1', c, 0 };
    bool t2 = false;
    try { BV x(s); vf_assert(x == std::string(s) && x.str() == s, "text round trip"); } catch (jlm::util::Error &) { t2 = true; }
    vf_assert(t2 == !ok, "invalid bits are reported");
  }
}
// numbers that do not fit: all bit strings of 70 bits whose high part is arbitrary
template<unsigned W>
static void
toC()
{
  uint64_t lo = vf_u64("lo"), hi = vf_nondet(W - 64, "hi");
  BV x = known(64, lo).concat(known(W - 64, hi));
  bool threw = false;
  try { vf_assert(x.to_uint() == lo, "to_uint"); } catch (std::range_error &) { threw = true; }
  vf_assert(threw == (hi != 0), "to_uint reports exactly the numbers that do not fit");
  threw = false;
  try { vf_assert((uint64_t)x.to_int() == lo, "to_int"); } catch (std::range_error &) { threw = true; }
  bool fits = hi == ((lo >> 63) ? mask(W - 64) : 0);
  vf_assert(threw == !fits, "to_int reports exactly the numbers that do not fit");
}
extern "C" void proof_to_65() { toC<65>(); }
extern "C" void proof_to_67() { toC<67>(); }

// ---- unknown and undefined bits
// an abstract bit string and a number it stands for
static BV
abstract(unsigned w, uint64_t v, const char * un, const char * xd)
{
  uint64_t u = vf_nondet(w, un), d = vf_nondet(w, xd);
  BV r = BV::repeat(w, '0');
  for (unsigned i = 0; i < w; i++)
    r[i] = (char)vf_ite64((u >> i) & 1, vf_ite64((d >> i) & 1, 'D', 'X'), '0' + ((v >> i) & 1));
  return r;
}
static void
covers(const BV & r, unsigned w, uint64_t v, const char * what)
{
  vf_assert(r.nbits() == w, what);
  bool ok = true;
  for (unsigned i = 0; i < w; i++)
  {
    bool u = vf_or(r[i] == 'X', r[i] == 'D');
    ok = vf_and(ok, vf_or(u, r[i] == (char)('0' + ((v >> i) & 1))));
  }
  vf_assert(ok, what);
}
static void
coversBit(char r, bool v, const char * what)
{
  vf_assert(vf_or(vf_or(r == 'X', r == 'D'), r == (char)('0' + v)), what);
}
template<unsigned W>
static void
unknownC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  BV x = abstract(W, a, "ua", "da"), y = abstract(W, b, "ub", "db");
  int64_t s = sx(a, W), t = sx(b, W);
  covers(x.add(y), W, a + b, "add of unknown bits");
  covers(x.sub(y), W, a - b, "sub of unknown bits");
  covers(x.neg(), W, 0 - a, "neg of unknown bits");
  covers(x.land(y), W, a & b, "and of unknown bits");
  covers(x.lor(y), W, a | b, "or of unknown bits");
  covers(x.lxor(y), W, a ^ b, "xor of unknown bits");
  covers(x.lnot(), W, ~a, "not of unknown bits");
  coversBit(x.ult(y), a < b, "ult of unknown bits");
  coversBit(x.ule(y), a <= b, "ule of unknown bits");
  coversBit(x.ugt(y), a > b, "ugt of unknown bits");
  coversBit(x.uge(y), a >= b, "uge of unknown bits");
  coversBit(x.slt(y), s < t, "slt of unknown bits");
  coversBit(x.sle(y), s <= t, "sle of unknown bits");
  coversBit(x.sgt(y), s > t, "sgt of unknown bits");
  coversBit(x.sge(y), s >= t, "sge of unknown bits");
  coversBit(x.eq(y), a == b, "eq of unknown bits");
  coversBit(x.ne(y), a != b, "ne of unknown bits");
  for (unsigned k = 0; k <= W; k++)
  {
    covers(x.shl(k), W, a << k, "shl of unknown bits");
    covers(x.shr(k), W, (a & mask(W)) >> k, "shr of unknown bits");
    covers(x.ashr(k), W, (uint64_t)(s >> k), "ashr of unknown bits");
  }
  covers(x.zext(3), W + 3, a, "zext of unknown bits");
  covers(x.sext(3), W + 3, s, "sext of unknown bits");
}
template<unsigned W>
static void
unknownMulC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  BV x = abstract(W, a, "ua", "da"), y = abstract(W, b, "ub", "db");
  covers(x.mul(y), W, a * b, "mul of unknown bits");
  covers(x.umulh(y), W, (a * b) >> W, "umulh of unknown bits");
  covers(x.smulh(y), W, (sx(a, W) * sx(b, W)) >> W, "smulh of unknown bits");
}
template<unsigned W>
static void
unknownDivC()
{
  uint64_t a = vf_nondet(W, "a"), b = vf_nondet(W, "b");
  vf_assume(b != 0);
  BV x = abstract(W, a, "ua", "da"), y = abstract(W, b, "ub", "db");
  covers(x.udiv(y), W, vf_udiv64(a, b), "udiv of unknown bits");
  covers(x.umod(y), W, vf_urem64(a, b), "umod of unknown bits");
  int64_t s = sx(a, W), t = sx(b, W);
  covers(x.sdiv(y), W, vf_sdiv64(s, t), "sdiv of unknown bits");
  covers(x.smod(y), W, vf_srem64(s, t), "smod of unknown bits");
}
// unknown bits never turn into a number
template<unsigned W>
static void
unknownNumC()
{
  uint64_t a = vf_nondet(W, "a");
  BV x = abstract(W, a, "ua", "da");
  bool k = true, d = true;
  for (unsigned i = 0; i < W; i++)
  {
    k = vf_and(k, vf_and(x[i] != 'X', x[i] != 'D'));
    d = vf_and(d, x[i] != 'X');
  }
  vf_assert(x.is_known() == k && x.is_defined() == d, "is_known, is_defined");
  bool threw = false;
  try { vf_assert(x.to_uint() == a, "to_uint"); } catch (std::range_error &) { threw = true; }
  vf_assert(threw == !k, "to_uint of unknown bits is reported");
  threw = false;
  try { vf_assert((uint64_t)x.to_int() == sx(a, W), "to_int"); } catch (std::range_error &) { threw = true; }
  vf_assert(threw == !k, "to_int of unknown bits is reported");
}
extern "C" void proof_unknown_1() { unknownC<1>(); }
extern "C" void proof_unknown_4() { unknownC<4>(); }
extern "C" void proof_unknown_6() { unknownC<6>(); }

extern "C" void proof_unknownmul_2() { unknownMulC<2>(); }
extern "C" void proof_unknowndiv_2() { unknownDivC<2>(); }
extern "C" void proof_unknowndiv_3() { unknownDivC<3>(); }
extern "C" void proof_unknownnum_5() { unknownNumC<5>(); }

// ---- folding of bit operations in a graph
#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/NodeNormalization.hpp>
using namespace jlm::rvsdg;
static uint64_t importValue[3];
static GraphImport * imports[3];
static uint64_t
eval(Output & o)
{
  for (unsigned i = 0; i < 3; i++)
    if (&o == imports[i])
      return importValue[i];
  if (auto a = dynamic_cast<RegionArgument *>(&o))
    return eval(*a->input()->origin());
  auto & n = *TryGetOwnerNode<SimpleNode>(o);
  auto & op = n.GetOperation();
  auto w = [](Output * x) { return std::dynamic_pointer_cast<const BitType>(x->Type())->nbits(); };
  if (auto c = dynamic_cast<const BitConstantOperation *>(&op))
  {
    vf_assert(c->value().nbits() == w(&o), "a constant has the width of its type");
    uint64_t v = 0;
    for (unsigned i = 0; i < c->value().nbits(); i++)
    {
      vf_assert(vf_or(c->value()[i] == '0', c->value()[i] == '1'), "constants fold to known bits");
      v |= (uint64_t)(c->value()[i] - '0') << i;
    }
    return v;
  }
  for (size_t i = 0; i < n.ninputs(); i++)
    vf_assert(n.input(i)->origin()->region() == n.region(), "operands are in the region of the node");
  if (auto s = dynamic_cast<const BitSliceOperation *>(&op))
  {
    vf_assert(s->low() < s->high() && s->high() <= w(n.input(0)->origin()), "slice in range");
    return (eval(*n.input(0)->origin()) >> s->low()) & mask(s->high() - s->low());
  }
  if (dynamic_cast<const BitConcatOperation *>(&op))
  {
    uint64_t v = 0;
    unsigned pos = 0;
    for (size_t i = 0; i < n.ninputs(); i++)
    {
      v |= eval(*n.input(i)->origin()) << pos;
      pos += w(n.input(i)->origin());
    }
    vf_assert(pos == w(&o), "concat width");
    return v;
  }
  uint64_t a = eval(*n.input(0)->origin());
  unsigned k = w(n.input(0)->origin());
  if (dynamic_cast<const bitneg_op *>(&op)) return (0 - a) & mask(k);
  if (dynamic_cast<const bitnot_op *>(&op)) return ~a & mask(k);
  uint64_t b = eval(*n.input(1)->origin());
  int64_t s = sx(a, k), t = sx(b, k);
#define OP(T, E) if (dynamic_cast<const T *>(&op)) return (E);
#define OPM(T, E) if (dynamic_cast<const T *>(&op)) return (uint64_t)(E) & mask(k);
  OPM(bitadd_op, a + b) OPM(bitsub_op, a - b) OPM(bitand_op, a & b) OPM(bitor_op, a | b)
  OPM(bitxor_op, a ^ b) OPM(bitmul_op, a * b)
  OPM(bitshl_op, b >= k ? 0 : a << b) OPM(bitshr_op, b >= k ? 0 : a >> b)
  OPM(bitashr_op, s >> (b >= k ? 63 : b))
  OPM(bitumulh_op, (a * b) >> k) OPM(bitsmulh_op, (s * t) >> k)
  OPM(bitudiv_op, vf_udiv64(a, b)) OPM(bitumod_op, vf_urem64(a, b))
  OPM(bitsdiv_op, vf_sdiv64(s, t)) OPM(bitsmod_op, vf_srem64(s, t))
  OP(biteq_op, a == b) OP(bitne_op, a != b) OP(bitult_op, a < b) OP(bitule_op, a <= b)
  OP(bitugt_op, a > b) OP(bituge_op, a >= b) OP(bitslt_op, s < t) OP(bitsle_op, s <= t)
  OP(bitsgt_op, s > t) OP(bitsge_op, s >= t)
  vf_assert(false, "unexpected operation");
  vf_stop();
}
// the node computing o is folded by norm; where: 0 plain, 1 constants come in through a branch
template<class OP, class F>
static void
fold(unsigned w, F norm, unsigned arity, bool shift = false, bool div = false)
{
  uint64_t v[2], isConst = vf_choose(1u << arity, "which operands are constant");
  bool inGamma = vf_choose(2, "in a branch");
  Graph g;
  Region * r = &g.GetRootRegion();
  Output * x[2];
  for (unsigned i = 0; i < arity; i++)
  {
    v[i] = shift && i ? vf_choose(w + 1, "amount") : vf_nondet(w, "v");
    if (div && i)
      vf_assume(v[i] != 0);
    importValue[i] = v[i];
    imports[i] = &GraphImport::Create(g, BitType::Create(w), "i");
    x[i] = imports[i];
    if (isConst >> i & 1)
      x[i] = &BitConstantOperation::create(*r, known(w, v[i]));
  }
  GammaNode * gamma = nullptr;
  imports[2] = &GraphImport::Create(g, ControlType::Create(2), "c");
  if (inGamma)
  {
    gamma = GammaNode::create(imports[2], 2);
    for (unsigned i = 0; i < arity; i++)
      x[i] = gamma->AddEntryVar(x[i]).branchArgument[1];
    r = gamma->subregion(1);
  }
  Output * o;
  if constexpr (!std::is_base_of_v<BitUnaryOperation, OP>)
    o = OP::create(w, x[0], x[1]);
  else
    o = OP::create(w, x[0]);
  Input * user;
  if (inGamma)
  {
    auto & z = BitConstantOperation::create(*gamma->subregion(0),
        known(std::dynamic_pointer_cast<const BitType>(o->Type())->nbits(), 0));
    user = gamma->AddExitVar({ &z, o }).branchResult[1];
  }
  else
    user = &GraphExport::Create(*o, "o");
  uint64_t before = eval(*user->origin());
  bool done = norm(*TryGetOwnerNode<SimpleNode>(*o));
  vf_assert(user->origin()->region() == r, "the result is in the region of the operation");
  vf_assert(eval(*user->origin()) == before, "folding keeps the value");
  if (isConst == (1u << arity) - 1)
    vf_assert(done, "constants are folded");
}
#define FB(T, W, ...) \
  extern "C" void proof_fold_##T() { fold<T>(W, [](SimpleNode & n) { return ReduceNode<BitBinaryOperation>(BitBinaryOperation::foldConstants, n); }, 2, ##__VA_ARGS__); }
#define FC(T, W) \
  extern "C" void proof_fold_##T() { fold<T>(W, [](SimpleNode & n) { return ReduceNode<BitCompareOperation>(BitCompareOperation::foldConstants, n); }, 2); }
#define FU(T, W) \
  extern "C" void proof_fold_##T() { fold<T>(W, [](SimpleNode & n) { return ReduceNode<BitUnaryOperation>(BitUnaryOperation::foldConstant, n); }, 1); }
FU(bitneg_op, 8) FU(bitnot_op, 8)
FB(bitadd_op, 8) FB(bitsub_op, 8) FB(bitand_op, 8) FB(bitor_op, 8) FB(bitxor_op, 8) FB(bitmul_op, 4)
FB(bitshl_op, 4, true) FB(bitshr_op, 4, true) FB(bitashr_op, 4, true) FB(bitumulh_op, 3) FB(bitsmulh_op, 3)
FB(bitudiv_op, 3, false, true) FB(bitumod_op, 3, false, true) FB(bitsdiv_op, 3, false, true) FB(bitsmod_op, 3, false, true)
FC(biteq_op, 8) FC(bitne_op, 8) FC(bitult_op, 8) FC(bitule_op, 8) FC(bitugt_op, 8) FC(bituge_op, 8)
FC(bitslt_op, 8) FC(bitsle_op, 8) FC(bitsgt_op, 8) FC(bitsge_op, 8)

// slices of slices, of concatenations and of constants; nested concatenations
extern "C" void
proof_fold_slice_concat()
{
  Graph g;
  Region & r = g.GetRootRegion();
  Output * x[3];
  const unsigned ws[3] = { 3, 1, 4 };
  uint64_t isConst = vf_choose(3, "constants");
  for (unsigned i = 0; i < 3; i++)
  {
    importValue[i] = vf_nondet(ws[i], "v");
    imports[i] = &GraphImport::Create(g, BitType::Create(ws[i]), "i");
    x[i] = isConst == 0 || (isConst == 1 && i == 1)
             ? &BitConstantOperation::create(r, known(ws[i], importValue[i])) : imports[i];
  }
  uint64_t lo = vf_choose(8, "low"), hi = lo + 1 + vf_choose(8 - lo, "high");
  uint64_t kind = vf_choose(5, "kind");
  Output * o;
  if (kind == 0) // slice of concat
    o = bitslice(bitconcat({ x[0], x[1], x[2] }), lo, hi);
  else if (kind == 1) // slice of slice of concat
    o = bitslice(bitslice(bitconcat({ x[0], x[1], x[2], x[0] }), 1, 9), lo, hi);
  else if (kind == 2) // nested concat
  {
    if (lo || hi != 1)
      vf_stop();
    o = bitconcat({ bitconcat({ x[0], x[1] }), x[2] });
  }
  else if (kind == 3)
  {
    if (lo || hi != 1)
      vf_stop();
    o = bitconcat({ x[2], bitconcat({ x[0], bitconcat({ x[1], x[2] }) }) });
  }
  else // adjacent and other slices of one value
  {
    auto c = bitconcat({ x[0], x[1], x[2] });
    o = bitconcat({ bitslice(c, lo, hi), bitslice(c, hi < 8 ? hi : 0, 8) });
  }
  auto & ex = GraphExport::Create(*o, "o");
  uint64_t before = eval(*o);
  auto & n = *TryGetOwnerNode<SimpleNode>(*o);
  auto w = o->Type();
  uint64_t how = vf_choose(4, "normal form");
  if (kind < 2)
  {
    if (how == 0) ReduceNode<BitSliceOperation>(BitSliceOperation::normalizeIdempotent, n);
    else if (how == 1) ReduceNode<BitSliceOperation>(BitSliceOperation::foldConstant, n);
    else if (how == 2) ReduceNode<BitSliceOperation>(BitSliceOperation::narrowSlice, n);
    else
    {
      vf_assume(!(hi - lo == 1 && false));
      ReduceNode<BitSliceOperation>(BitSliceOperation::distributeSlice, n);
    }
  }
  else if (how == 0)
    ReduceNode<BitConcatOperation>(FlattenBitConcatOperation, n);
  else if (how == 1)
  {
    auto & op = static_cast<const BitConcatOperation &>(n.GetOperation());
    auto p = op.can_reduce_operand_pair(n.input(0)->origin(), n.input(1)->origin());
    if (p != binop_reduction_none && n.ninputs() == 2)
    {
      auto res = op.reduce_operand_pair(p, n.input(0)->origin(), n.input(1)->origin());
      vf_assert(*res->Type() == *w, "type of the merged operands");
      vf_assert(eval(*res) == before, "merging operands keeps the value");
    }
  }
  vf_assert(*ex.origin()->Type() == *w, "simplification keeps the type");
  vf_assert(eval(*ex.origin()) == before, "simplification keeps the value");
}
