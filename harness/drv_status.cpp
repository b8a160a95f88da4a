// Progress reports: the real S2Status object and whole phases with progress output,
// under chosen schedules and clocks. Reading the clock and writing are scheduling points.
#include "trace.hpp"
#include "ompshim.hpp"

#include <primesum.hpp>
#include <primesum-internal.hpp>
#ifndef NO_STATUS
#include <S2Status.hpp>
#endif
#ifndef NO_PHASE
#include <S1.hpp>
#include <S2.hpp>
#endif
#include <print.hpp>
#include <algorithm>
#include <iostream>
#include <fcntl.h>

using namespace primesum;
using std::string;
using std::vector;
int tr::out_fd = 1;

extern "C" {
double __real__ZN8primesum8get_timeEv() __attribute__((weak));
double __wrap__ZN8primesum8get_timeEv() { shim_yield(); double t = __real__ZN8primesum8get_timeEv(); shim_yield(); return t; }
static long long g_force = 0;
int __real__ZN8primesum17ideal_num_threadsEill(int, int64_t, int64_t) __attribute__((weak));
int __wrap__ZN8primesum17ideal_num_threadsEill(int threads, int64_t limit, int64_t threshold)
{
  if (g_force > 0) return (int) std::max<int64_t>(1, std::min<int64_t>(threads, limit / g_force));
  return __real__ZN8primesum17ideal_num_threadsEill(threads, limit, threshold);
}
}

struct Capture : std::streambuf
{
  string s;
  int overflow(int c) override { if (c != EOF) s += (char) c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override
  {
    // another thread may run between two halves of one output
    shim_yield();
    s.append(p, n / 2);
    shim_yield();
    s.append(p + n / 2, n - n / 2);
    return n;
  }
  int sync() override { shim_yield(); return 0; }
};

static int128_t I(const string& s)
{
  int128_t v = 0; bool neg = s[0] == '-';
  for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0');
  return neg ? -v : v;
}
static long long L(const string& s) { return (long long) I(s); }
static int N(const string& s) { return (int) I(s); }
template <typename T> static string S(const T& v) { std::ostringstream o; o << v; return o.str(); }

static string lines(const string& s)
{
  string r = "[";
  size_t i = 0;
  bool first = true;
  while (i < s.size())
  {
    size_t e = s.find('\n', i);
    string ln = s.substr(i, e == string::npos ? string::npos : e - i);
    vector<string> seg;
    size_t k = 0;
    while (true)
    {
      size_t q = ln.find('\r', k);
      seg.push_back(ln.substr(k, q == string::npos ? string::npos : q - k));
      if (q == string::npos) break;
      k = q + 1;
    }
    r += (first ? "" : ",") + tr::list(seg);
    first = false;
    if (e == string::npos) break;
    i = e + 1;
  }
  return r + "]";
}

static string run(const vector<string>& v)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  if (op == "sched") { shim_schedule(N(a(1)), (uint64_t) L(a(2))); return ""; }
  if (op == "clock") { shim_clock(N(a(1)), (uint64_t) L(a(2))); return ""; }
  if (op == "cores") { shim_max_threads(N(a(1))); return ""; }
  if (op == "force") { g_force = L(a(1)); return ""; }
  if (op == "setprec") { set_status_precision(N(a(1))); return ""; }
  if (op == "setprint") { set_print(a(1) == "1"); return ""; }
#ifndef NO_STATUS
  // status x limit list list ...: every list is reported by a thread of its own
  if (op == "status")
  {
    vector<vector<int128_t>> n;
    for (size_t i = 3; i < v.size(); i++)
    {
      n.push_back({});
      std::istringstream is(v[i]);
      string t;
      while (std::getline(is, t, ',')) n.back().push_back(I(t));
    }
    S2Status st(I(a(1)));
    int128_t limit = I(a(2));
    int k = (int) n.size();
    #pragma omp parallel for num_threads(k) schedule(dynamic)
    for (int i = 0; i < k; i++)
      for (int128_t m : n[i])
        st.print(m, limit);
    return "";
  }
  // numbers handed out by a dynamic loop
  if (op == "statusdyn")
  {
    S2Status st(I(a(1)));
    int64_t limit = L(a(2));
    int k = N(a(3));
    #pragma omp parallel for num_threads(k) schedule(dynamic)
    for (int64_t i = 0; i <= limit; i++)
      st.print(i, limit);
    return "";
  }
#endif
#ifndef NO_SKEW
  if (op == "skew") { char b[64]; snprintf(b, sizeof b, "%.17g", S2Status::skewed_percent(I(a(1)), I(a(2)))); return b; }
#endif
#ifndef NO_PHASE
  if (op == "P2") return S(P2(I(a(1)), L(a(2)), N(a(3))));
  if (op == "S1") return S(S1(I(a(1)), L(a(2)), L(a(3)), N(a(4))));
  if (op == "S2t") return S(S2_trivial(I(a(1)), L(a(2)), (int64_t) (I(a(1)) / I(a(2))), L(a(3)), N(a(4))));
  if (op == "S2e") return S(S2_easy(I(a(1)), L(a(2)), (int64_t) (I(a(1)) / I(a(2))), L(a(3)), N(a(4))));
  if (op == "S2h") return S(S2_hard(I(a(1)), L(a(2)), (int64_t) (I(a(1)) / I(a(2))), L(a(3)), N(a(4))));
#endif
  if (op == "pi") return S(pi(I(a(1)), N(a(2))));
  throw std::logic_error("unknown op " + op);
}

int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  Capture& cap = *new Capture; // std::cout is flushed after main
  std::cout.rdbuf(&cap);
  string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty() || line[0] == '#') continue;
    vector<string> v = tr::split(line);
    vector<string> args(v.begin() + 1, v.end());
    string r, e;
    cap.s.clear();
    try { r = run(v); }
    catch (const std::exception& x) { e = "error"; }
    tr::event(v[0], args, r, e, ",\"out\":" + lines(cap.s));
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"" + S(shim_max_team()) + "\",\"e\":\"\",\"out\":[]}");
  return 0;
}
