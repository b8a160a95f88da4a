// Segment sieve driver (C08): BitSieve, Wheel, BinaryIndexedTree and the
// crossing-off loops of the hard special leaves.
#include "trace.hpp"
#ifndef NO_HARD
// the crossing-off loops are local to this file; its entry points get another name
#define S2_hard vf_S2_hard
#include <deleglise-rivat/S2_hard.cpp>
#undef S2_hard
#endif
#include <BitSieve.hpp>
#include <int128_t.hpp>
#ifndef NO_WHEEL
#include <Wheel.hpp>
#endif
#ifndef NO_TREE
#include <BinaryIndexedTree.hpp>
#endif
#include <iostream>
#include <memory>
#include <fcntl.h>

using namespace primesum;
using std::string;
using std::vector;

int tr::out_fd = 1;
static int64_t L(const string& s) { return (int64_t) strtoull(s.c_str(), 0, 10); }
static string num(int128_t v)
{
  bool neg = v < 0;
  uint128_t u = neg ? (uint128_t) 0 - (uint128_t) v : (uint128_t) v;
  string s;
  do { s.insert(s.begin(), (char) ('0' + (int) (u % 10))); u /= 10; } while (u);
  return neg ? "-" + s : s;
}

static std::unique_ptr<BitSieve> sv;
static int64_t low = 1;
#ifndef NO_WHEEL
static std::unique_ptr<Wheel> wh;
#endif
static vector<int64_t> primes;
#ifndef NO_TREE
static BinaryIndexedTree tree;
#endif

static string run(const vector<string>& v, string& extra)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  if (op == "new") { sv.reset(new BitSieve(L(a(1)))); return tr::str(sv->size()); }
  if (op == "presieve") { low = L(a(2)); sv->pre_sieve(L(a(1)), low); return ""; }
  if (op == "unset") { sv->unset(L(a(1))); return ""; }
  if (op == "get") return (*sv)[L(a(1))] ? "1" : "0";
  // the members as text, one character per odd number
  if (op == "dump") { string s; for (size_t i = 0; i < sv->size(); i += 2) s += (*sv)[i] ? '1' : '0'; return s; }
  if (op == "sum") return num(sv->sum(low, L(a(1)), L(a(2))));
  if (op == "sum6")
  {
    // numbers in [start, stop] of the segment [low, low + h[; the sums given to the
    // function are those of a naive scan
    int64_t start = L(a(1)), stop = L(a(2)), h = L(a(3));
    int128_t before = 0, all = 0;
    for (int64_t i = 0; i < h; i += 2)
      if ((*sv)[i]) { all += (int128_t) low + i; if (i < start) before += (int128_t) low + i; }
    return num(sv->sum(start, stop, low, low + h, before, all));
  }
#ifndef NO_WHEEL
  if (op == "wheel")
  {
    primes.assign(1, 0);
    for (size_t i = 2; i < v.size(); i++) primes.push_back(L(v[i]));
    wh.reset(new Wheel(primes, (int64_t) primes.size(), L(a(1))));
    return "";
  }
  // visited multiples of the b-th prime in [low, low + h[ (the loop of the algorithms)
  if (op == "cross")
  {
    int64_t b = L(a(1)), high = low + L(a(2));
    WheelItem& w = (*wh)[b];
    int64_t m = w.next_multiple, i = w.wheel_index;
    vector<string> vis;
    for (; m < high && vis.size() < 5000; m += primes[b] * Wheel::next_multiple_factor(&i))
    {
      vis.push_back(num((int128_t) m - low));
      if (m < low || m - low >= (int64_t) sv->size()) break;
      sv->unset(m - low);
    }
    w.set(m, i);
    extra = ",\"vis\":" + tr::list(vis);
    return "";
  }
#endif
#ifndef NO_HARD
  if (op == "hcross") { int64_t b = L(a(1)); return num(cross_off(*sv, low, low + L(a(2)), primes[b], (*wh)[b])); }
#ifndef NO_TREE
  if (op == "tcross") { int64_t b = L(a(1)); cross_off(*sv, low, low + L(a(2)), primes[b], (*wh)[b], tree); return ""; }
#endif
#endif
#ifndef NO_TREE
  if (op == "tinit") { tree.init(*sv, low); return ""; }
  if (op == "tsum") return num(tree.sum(L(a(1))));
  if (op == "tunset") { int64_t i = L(a(1)); if ((*sv)[i]) { sv->unset(i); tree.update(low + i, low); } return ""; }
#endif
  throw std::logic_error("unknown op " + op);
}

int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  string line;
  while (std::getline(std::cin, line))
  {
    vector<string> v = tr::split(line), args(v.begin() + 1, v.end());
    string r, e, extra;
    try { r = run(v, extra); }
    catch (const std::logic_error& x) { e = string(x.what()).compare(0, 7, "unknown") == 0 ? "UNKNOWN" : "error"; }
    catch (const std::exception& x) { e = "error"; }
    if (extra.empty()) extra = ",\"vis\":[]";
    tr::event(v[0], args, r, e, extra);
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"\",\"e\":\"\"}");
  return 0;
}
