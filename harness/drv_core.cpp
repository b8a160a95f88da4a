// Core driver: executes commands from stdin on the library and logs one event each.
// Linked with all sources of the program (main renamed) and the OpenMP shim.
#include "trace.hpp"
#include "ompshim.hpp"

#include <primesum.hpp>
#include <primesum-internal.hpp>
#ifndef NO_TINY
#include <PhiTiny.hpp>
#endif
#ifndef NO_S1
#include <S1.hpp>
#endif
#ifndef NO_S2
#include <S2.hpp>
#endif
#ifndef NO_PRINT
#include <print.hpp>
#endif

#include <primesieve.hpp>
#include <cmath>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <fcntl.h>

// Every group of operations can be left out (-DNO_x): when an internal interface
// moves, the check still runs with the groups that compile.
using namespace primesum;
using std::string;
using std::vector;

#ifndef NO_MENTRY
namespace primesum {
int256_t P2(int128_t x, int threads);
int256_t S1(int128_t x, int threads);
int256_t S2_trivial(int128_t x, int threads);
int256_t S2_easy(int128_t x, int threads);
int256_t S2_hard(int128_t x, int threads);
}
#endif

int tr::out_fd = 1;

// Inputs at which work is given to another thread are large in production; with
// "force n" every n numbers get a thread of their own (at most as many as requested).
static long long g_force = 0;
extern "C" {
int __real__ZN8primesum17ideal_num_threadsEill(int, int64_t, int64_t) __attribute__((weak));
int __wrap__ZN8primesum17ideal_num_threadsEill(int threads, int64_t limit, int64_t threshold)
{
  if (g_force > 0) return (int) std::max<int64_t>(1, std::min<int64_t>(threads, limit / g_force));
  return __real__ZN8primesum17ideal_num_threadsEill(threads, limit, threshold);
}
}

namespace vf { __int128 lim_s64 = INT64_MAX, lim_u64 = UINT64_MAX, lim_u32 = UINT32_MAX; }

static int128_t I(const string& s)
{
  int128_t v = 0; bool neg = false; size_t i = 0;
  if (s[0] == '-') { neg = true; i = 1; }
  for (; i < s.size(); i++) v = v * 10 + (s[i] - '0');
  return neg ? -v : v;
}
static long long L(const string& s) { return (long long) I(s); }
static int N(const string& s) { return (int) I(s); }
template <typename T> static string S(const T& v) { std::ostringstream o; o << v; return o.str(); }
static string D(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

static string run(const vector<string>& v)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  // environment
  if (op == "sched") { shim_schedule(N(a(1)), (uint64_t) L(a(2))); return ""; }
  if (op == "clock") { shim_clock(N(a(1)), (uint64_t) L(a(2))); return ""; }
  if (op == "cores") { shim_max_threads(N(a(1))); return ""; }
  if (op == "force") { g_force = L(a(1)); return ""; }
  // thresholds of the wide build: comparisons with the largest int64_t, uint64_t, uint32_t
  if (op == "limits") { vf::lim_s64 = I(a(1)); vf::lim_u64 = I(a(2)); vf::lim_u32 = I(a(3)); return ""; }
  // settings
  if (op == "setalpha") { set_alpha(strtod(a(1).c_str(), 0)); return ""; }
  if (op == "getalpha") return D(get_alpha());
  if (op == "setthreads") { set_num_threads(N(a(1))); return ""; }
  if (op == "getthreads") return S(get_num_threads());
#ifndef NO_PREC
  if (op == "setprec") { set_status_precision(N(a(1))); return ""; }
  if (op == "getprec") return S(get_status_precision(I(a(1))));
#endif
#ifndef NO_PRINT
  if (op == "setprint") { set_print(a(1) == "1"); return ""; }
#endif
  // top level
  if (op == "pi") return S(pi(I(a(1)), N(a(2))));
  if (op == "pi1") return S(pi(I(a(1))));
  if (op == "pistr") return pi(a(1));
  if (op == "pistrt") return pi(a(1), N(a(2)));
#ifndef NO_DRP
  if (op == "dr") return S(pi_deleglise_rivat(I(a(1)), N(a(2))));
  if (op == "drp") return S(pi_deleglise_rivat_parallel1(I(a(1)), N(a(2))));
#endif
#ifndef NO_LMO
  if (op == "lmo") return S(pi_lmo(I(a(1)), N(a(2))));
  if (op == "lmop") return S(pi_lmo_parallel1(I(a(1)), N(a(2))));
  if (op == "lmo1") return S(pi_lmo1(I(a(1))));
  if (op == "lmo2") return S(int256_t(pi_lmo2(L(a(1)))));
  if (op == "lmo3") return S(int256_t(pi_lmo3(L(a(1)))));
  if (op == "lmo4") return S(int256_t(pi_lmo4(L(a(1)))));
  if (op == "lmo5") return S(int256_t(pi_lmo5(L(a(1)))));
#endif
  // components
#ifndef NO_P2
  if (op == "P2") return S(P2(I(a(1)), L(a(2)), N(a(3))));
#endif
#ifndef NO_S1
  if (op == "S1") return S(S1(I(a(1)), L(a(2)), L(a(3)), N(a(4))));
  if (op == "S1d") return S(S1(I(a(1)), L(a(3)), L(a(4)), N(a(5))) - S1(I(a(1)), L(a(2)), L(a(4)), N(a(5))));
#endif
#ifndef NO_S2
  if (op == "S2t" || op == "S2tBig") return S(S2_trivial(I(a(1)), L(a(2)), (int64_t) (I(a(1)) / I(a(2))), L(a(3)), N(a(4))));
  if (op == "S2e" || op == "S2eBig") return S(S2_easy(I(a(1)), L(a(2)), (int64_t) (I(a(1)) / I(a(2))), L(a(3)), N(a(4))));
  if (op == "S2h") return S(S2_hard(I(a(1)), L(a(2)), (int64_t) (I(a(1)) / I(a(2))), L(a(3)), N(a(4))));
  // easy leaves of the last k primes <= x^(1/3) only
  if (op == "S2eTail")
  {
    int128_t x = I(a(1)); int64_t y = L(a(2));
    int64_t x13 = (int64_t) std::cbrt((double) x) + 2;
    while ((int128_t) x13 * x13 * x13 > x) x13--;
    int64_t n = 0;
    primesieve::iterator it(0, x13);
    while ((int64_t) it.next_prime() <= x13) n++;
    return S(S2_easy(x, y, (int64_t) (x / y), n - L(a(3)), N(a(4))));
  }
  if (op == "S2hz") return S(S2_hard(I(a(1)), L(a(2)), L(a(3)), L(a(4)), N(a(5))));
#endif
#if !defined(NO_S1) && !defined(NO_S2)
  if (op == "phisum_parts")
  {
    int128_t x = I(a(1)); int64_t y = L(a(2)), c = L(a(3)); int t = N(a(4));
    int64_t z = (int64_t) (x / y);
    return S(S1(x, y, c, t) + S2_trivial(x, y, z, c, t) + S2_easy(x, y, z, c, t) + S2_hard(x, y, z, c, t));
  }
#endif
#if !defined(NO_S1) && !defined(NO_S2) && !defined(NO_P2) && !defined(NO_PARAM)
  // S1 + S2 + P2 recombined for an arbitrary y and c
  if (op == "parts")
  {
    int128_t x = I(a(1)); int64_t y = L(a(2)), c = L(a(3)); int t = N(a(4));
    int64_t z = (int64_t) (x / y);
    return S(S1(x, y, c, t) + S2_trivial(x, y, z, c, t) + S2_easy(x, y, z, c, t) + S2_hard(x, y, z, c, t)
             + prime_sum_tiny(y) - 1 - P2(x, y, t));
  }
#endif
  // the command-line component entry points (they choose y and c from alpha)
#ifndef NO_MENTRY
  if (op == "mP2") return S(P2(I(a(1)), N(a(2))));
  if (op == "mS1") return S(S1(I(a(1)), N(a(2))));
  if (op == "mS2t") return S(S2_trivial(I(a(1)), N(a(2))));
  if (op == "mS2e") return S(S2_easy(I(a(1)), N(a(2))));
  if (op == "mS2h") return S(S2_hard(I(a(1)), N(a(2))));
  if (op == "mparts")
  {
    int128_t x = I(a(1)); int t = N(a(2));
    return S(S1(x, t) + S2_trivial(x, t) + S2_easy(x, t) + S2_hard(x, t) - P2(x, t) - 1);
  }
#endif
  // partial sieve functions
#ifndef NO_PHI
  if (op == "phi") return S(phi(L(a(1)), L(a(2)), N(a(3))));
  if (op == "phi1") return S(phi(L(a(1)), L(a(2))));
  if (op == "phis64") return S(phi_sum((int64_t) L(a(1)), L(a(2))));
  if (op == "phis128") return S(phi_sum(I(a(1)), L(a(2))));
  if (op == "leg") return S(pi_legendre(L(a(1)), N(a(2))));
  if (op == "leg1") return S(pi_legendre(L(a(1))));
#endif
#ifndef NO_PARAM
  if (op == "pst") return S(prime_sum_tiny(L(a(1))));
  if (op == "nth") return S(nth_prime(L(a(1))));
#endif
#ifndef NO_TINY
  if (op == "getc") return S(PhiTiny::get_c(L(a(1))));
  if (op == "tiny") return S(phi_tiny(I(a(1)), L(a(2))));
  if (op == "tiny64") return S(phi_tiny((int64_t) L(a(1)), L(a(2))));
#endif
  // parameters
#ifndef NO_PARAM
  if (op == "ideal") return S(ideal_num_threads(N(a(1)), L(a(2)), L(a(3))));
  if (op == "maxx") return get_max_x(strtod(a(1).c_str(), 0));
  if (op == "alphadr") return D(get_alpha_deleglise_rivat(I(a(1))));
  if (op == "alphalmo") return D(get_alpha_lmo(I(a(1))));
  if (op == "alphaxy") return D(get_alpha(I(a(1)), L(a(2))));
#endif
#ifndef NO_PERCENT
  if (op == "percent") return D(get_percent((int64_t) L(a(1)), (int64_t) L(a(2))));
#endif
#ifndef NO_PARAM
  if (op == "eval") return S(to_int128(a(1)));
#endif
#if defined(RACE) && !defined(NO_FACTOR)
  if (op == "factor16") { FactorTable<uint16_t> f(L(a(1)), N(a(2))); return S(f.mu(FactorTable<uint16_t>::get_index(11))); }
  if (op == "factor32") { FactorTable<uint32_t> f(L(a(1)), N(a(2))); return S(f.mu(FactorTable<uint32_t>::get_index(11))); }
#endif
#if defined(RACE) && !defined(NO_STATUS)
  if (op == "status")
  {
    S2Status st(I(a(1)));
    int64_t limit = L(a(2));
    #pragma omp parallel for num_threads(N(a(3))) schedule(dynamic)
    for (int64_t i = 0; i <= limit; i++)
      st.print(i, limit);
    return "";
  }
#endif
  if (op == "version") return primesum_version();
  throw std::logic_error("unknown op " + op);
}

int main()
{
  // keep the event descriptor apart from anything the library prints
  tr::out_fd = dup(1);
#ifdef RACE
  race_fd = tr::out_fd;
  race_start();
#endif
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty() || line[0] == '#') continue;
    vector<string> v = tr::split(line);
    vector<string> args(v.begin() + 1, v.end());
    string r, e;
    int team = shim_regions();
    try { r = run(v); }
    catch (const std::logic_error& x) { if (string(x.what()).compare(0, 10, "unknown op") == 0) e = "UNKNOWN"; else e = "error"; }
    catch (const std::exception& x) { e = "error"; }
    tr::event(v[0], args, r, e, ",\"par\":" + S(shim_regions() - team));
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"" + S(shim_max_team()) + "\",\"e\":\"\",\"par\":0}");
  return 0;
}
