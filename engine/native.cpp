// Native counterpart of the contract language: replays one counterexample against the real code,
// compiled and run natively.  usage: replay <proof> <values-file>; values-file: lines "name value".
// exit 0: the contract holds on this input; 1: an obligation fails; 77: precondition not met.
#include "vf.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
static std::map<std::string, std::deque<uint64_t>> values;
static int failed = 0;
static bool abortOk = false;
static uint64_t
take(const char * n)
{
  auto & q = values[n];
  if (q.empty())
    return 0;
  auto v = q.front();
  q.pop_front();
  return v;
}
extern "C"
{
  uint64_t vf_nondet(unsigned bits, const char * n)
  {
    uint64_t v = take(n);
    return bits >= 64 || bits == 0 ? v : v & ((1ull << bits) - 1);
  }
  uint64_t vf_choose(uint64_t k, const char * n)
  {
    uint64_t v = take(n);
    return v < k ? v : 0;
  }
  void vf_assume(bool c)
  {
    if (!c)
    {
      printf("PRECONDITION-NOT-MET\n");
      fflush(stdout);
      _exit(failed ? 1 : 77);
    }
  }
  void vf_assert(bool c, const char * o)
  {
    if (!c)
    {
      printf("FAILED %s\n", o);
      fflush(stdout);
      failed = 1;
    }
  }
  void vf_cover(const char *) {}
  void vf_expect_cover(const char *) {}
  void vf_stop()
  {
    fflush(stdout);
    _exit(failed);
  }
  void vf_abort_is_report(bool on) { abortOk = on; }
  int vf_is_native() { return 1; }
  int vf_is_const(uint64_t) { return 1; }
  bool vf_and(bool a, bool b) { return a && b; }
  bool vf_or(bool a, bool b) { return a || b; }
  bool vf_implies(bool a, bool b) { return !a || b; }
  uint64_t vf_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
  uint64_t vf_udiv64(uint64_t a, uint64_t b) { return b ? a / b : ~0ull; }
  uint64_t vf_urem64(uint64_t a, uint64_t b) { return b ? a % b : a; }
  uint64_t vf_sdiv64(uint64_t a, uint64_t b)
  {
    if (!b)
      return (int64_t)a < 0 ? 1 : ~0ull;
    if ((int64_t)b == -1)
      return 0 - a;
    return (int64_t)a / (int64_t)b;
  }
  uint64_t vf_srem64(uint64_t a, uint64_t b)
  {
    if (!b)
      return a;
    if ((int64_t)b == -1)
      return 0;
    return (int64_t)a % (int64_t)b;
  }
  void vf_print(const char * n, uint64_t v) { printf("%s = %llu\n", n, (unsigned long long)v); }
}
static void
onSignal(int s)
{
  if (s == SIGABRT && abortOk)
    _exit(failed);
  char b[64];
  int k = snprintf(b, sizeof b, "FAILED signal %d\n", s);
  if (write(1, b, k)) {}
  _exit(1);
}
int
main(int argc, char ** argv)
{
  if (argc < 3)
    return 2;
  std::ifstream in(argv[2]);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty() || line[0] == '#')
      continue;
    auto p = line.rfind(' ');
    values[line.substr(0, p)].push_back(std::stoull(line.substr(p + 1)));
  }
  for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS })
    signal(s, onSignal);
  auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!f)
  {
    printf("no such proof %s\n", argv[1]);
    return 2;
  }
  try
  {
    f();
  }
  catch (const std::exception & e)
  {
    printf("FAILED uncaught exception: %s\n", e.what());
    fflush(stdout);
    _exit(1);
  }
  catch (...)
  {
    printf("FAILED uncaught exception\n");
    fflush(stdout);
    _exit(1);
  }
  fflush(stdout);
  _exit(failed);
}
