// Work distribution driver: runs the special-leaf computations and logs every
// sieved segment (BitSieve::pre_sieve) and every decision of the load balancer
// (S2LoadBalancer::update), both interposed at link time.
#include "trace.hpp"
#include "ompshim.hpp"
#include <primesum-internal.hpp>
#include <aligned_vector.hpp>
#ifndef NO_LB
#include <S2LoadBalancer.hpp>
#endif
#ifndef NO_BS
#include <BitSieve.hpp>
#endif
#ifndef NO_S2
#include <S2.hpp>
#endif
#include <fcntl.h>
#include <iostream>
#include <mutex>
#include <memory>
#include <algorithm>
#include <utility>

using namespace primesum;
using std::string;
using std::vector;
int tr::out_fd = 1;
static std::mutex g_mu;
static bool g_log = false;

static string S(long long v) { return tr::str(v); }

// segments sieved since the last decision of the load balancer
static std::vector<std::pair<int64_t, int64_t>> g_segs;
static string g_c;
static int64_t g_rounds = 0;

static void flush(const char* op, const std::vector<string>& a, const std::vector<string>& n)
{
  std::lock_guard<std::mutex> l(g_mu);
  std::sort(g_segs.begin(), g_segs.end());
  std::vector<string> lo, sz;
  for (auto& s : g_segs) { lo.push_back(S(s.first)); sz.push_back(S(s.second)); }
  tr::event(op, a, "", "", ",\"n\":" + tr::list(n) + ",\"lo\":" + tr::list(lo) + ",\"sz\":" + tr::list(sz));
  g_segs.clear();
}

extern "C" {
#ifndef NO_LB
void __attribute__((weak)) __real__ZN8primesum14S2LoadBalancer6updateEllPlS1_RNS_14aligned_vectorIdEE(S2LoadBalancer*, int64_t, int64_t, int64_t*, int64_t*, aligned_vector<double>&);
void __wrap__ZN8primesum14S2LoadBalancer6updateEllPlS1_RNS_14aligned_vectorIdEE(S2LoadBalancer* self, int64_t low, int64_t threads, int64_t* seg, int64_t* spt, aligned_vector<double>& t)
{
  int64_t s = *seg, p = *spt;
  __real__ZN8primesum14S2LoadBalancer6updateEllPlS1_RNS_14aligned_vectorIdEE(self, low, threads, seg, spt, t);
  if (g_log)
    flush("round", {S(low), S(threads), S(s), S(p)}, {S(*seg), S(*spt)});
  g_rounds++;
}
#endif
#ifndef NO_BS
void __attribute__((weak)) __real__ZN8primesum8BitSieve9pre_sieveEmm(BitSieve*, uint64_t, uint64_t);
void __wrap__ZN8primesum8BitSieve9pre_sieveEmm(BitSieve* self, uint64_t c, uint64_t low)
{
  __real__ZN8primesum8BitSieve9pre_sieveEmm(self, c, low);
  if (g_log)
  {
    std::lock_guard<std::mutex> l(g_mu);
    g_segs.push_back({(int64_t) low, (int64_t) self->size()});
  }
}
#endif
}

static int128_t I(const string& s)
{
  int128_t v = 0; bool neg = false; size_t i = 0;
  if (s[0] == '-') { neg = true; i = 1; }
  for (; i < s.size(); i++) v = v * 10 + (s[i] - '0');
  return neg ? -v : v;
}
static long long L(const string& s) { return (long long) I(s); }
static int N(const string& s) { return (int) I(s); }
#ifndef NO_LB
static std::unique_ptr<S2LoadBalancer> g_lb;
#endif

static string run(const vector<string>& v)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  if (op == "sched") { shim_schedule(N(a(1)), (uint64_t) L(a(2))); return ""; }
  if (op == "clock") { shim_clock(N(a(1)), (uint64_t) L(a(2))); return ""; }
  if (op == "setalpha") { set_alpha(strtod(a(1).c_str(), 0)); return ""; }
#ifndef NO_S2
  if (op == "S2hz")
  {
    g_log = true;
    string r = tr::str(S2_hard(I(a(1)), L(a(2)), L(a(3)), L(a(4)), N(a(5))));
    g_log = false;
    return r;
  }
#endif
  if (op == "lmop")
  {
    g_log = true;
    string r = tr::str(pi_lmo_parallel1(I(a(1)), N(a(5))));
    g_log = false;
    return r;
  }
#ifndef NO_LB
  static int64_t seg = 0, spt = 1, z = 0;
  if (op == "lbnew")
  {
    z = L(a(3));
    g_lb.reset(new S2LoadBalancer(I(a(1)), L(a(2)), z, L(a(4))));
    seg = g_lb->get_min_segment_size(); spt = 1;
    return S(seg);
  }
  if (op == "lbupd")
  {
    // "=": as returned last time, cut as the master loop cuts them
    int64_t th = L(a(2)), n = (z - 1) / (seg * th) + 1;
    spt = std::max<int64_t>(1, std::min(spt, n));
    aligned_vector<double> t(v.size() - 5);
    for (size_t i = 5; i < v.size(); i++) t[i - 5] = strtod(v[i].c_str(), 0);
    g_lb->update(L(a(1)), L(a(2)), &seg, &spt, t);
    return S(seg) + " " + S(spt);
  }
#endif
  throw std::logic_error("unknown op " + op);
}

int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty() || line[0] == '#') continue;
    vector<string> v = tr::split(line);
    vector<string> args(v.begin() + 1, v.end());
    string r, e, extra = ",\"n\":[]";
    bool call = v[0] == "S2hz" || v[0] == "lmop";
    if (call) { g_segs.clear(); tr::event("begin", args, v[0], "", extra); }
    try { r = run(v); }
    catch (const std::logic_error& x) { e = string(x.what()).compare(0, 10, "unknown op") == 0 ? "UNKNOWN" : "error"; }
    catch (const std::exception& x) { e = "error"; }
    g_log = false;
    if (call) flush("rest", {}, {});
    if (v[0] == "lbupd" && e.empty()) { size_t k = r.find(' '); extra = ",\"n\":[\"" + r.substr(0, k) + "\",\"" + r.substr(k + 1) + "\"]"; }
    tr::event(v[0], args, r, e, extra);
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"" + S(g_rounds) + "\",\"e\":\"\"}");
  return 0;
}
