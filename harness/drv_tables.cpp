// Lookup tables driver (C09).
#include "trace.hpp"
#include "ompshim.hpp"
#include <primesum-internal.hpp>
#ifndef NO_PITABLE
#include <PiTable.hpp>
#endif
#ifndef NO_FACTOR
#include <FactorTable.hpp>
#endif
#ifndef NO_GEN
#include <generate.hpp>
#endif
#ifndef NO_SUMS
#include <generate.hpp>
#endif
#include <fcntl.h>
#include <iostream>
#include <map>

using namespace primesum;
using std::string;
using std::vector;
int tr::out_fd = 1;
static long long L(const string& s) { return (long long) strtoull(s.c_str(), 0, 10); }

// interval widths at which work is given to another thread are large in production;
// here small tables are shared among threads as well
static int g_force = 0;
extern "C" {
int __real__ZN8primesum17ideal_num_threadsEill(int, int64_t, int64_t);
int __wrap__ZN8primesum17ideal_num_threadsEill(int threads, int64_t limit, int64_t threshold)
{
  if (g_force > 0) return (int) std::max<int64_t>(1, std::min<int64_t>(threads, limit / g_force));
  return __real__ZN8primesum17ideal_num_threadsEill(threads, limit, threshold);
}
}

struct Out
{
  bool text; tr::Dig d; string s;
  explicit Out(const string& f) : text(f == "text") { }
  void put(long long v) { if (!text) d.put(v); else { if (!s.empty()) s += ','; s += tr::str(v); } }
  string get() { return text ? s : d.get(); }
};
// values of an ascending list that are >= lo
template <typename V> static string window(const V& v, long long lo, long long hi, const string& f)
{
  Out o(f);
  for (size_t i = 1; i < v.size(); i++) if ((long long) v[i] >= lo && (long long) v[i] <= hi) o.put((long long) v[i]);
  return o.get();
}
template <typename V> static string entries(const V& v, long long lo, long long hi, const string& f)
{
  Out o(f);
  for (long long i = lo; i <= hi; i++) o.put(v.at(i));
  return o.get();
}
#ifndef NO_SUMS
template <typename T> static string sums(long long max, long long lo, long long hi, const string& f)
{
  auto p = generate_primes<int64_t>(max);
  auto v = generate_prime_sums<T>(max);
  Out o(f);
  if (v.size() != p.size() || v[0] != 0) return "size";
  for (size_t i = 1; i < v.size(); i++) if (p[i] >= lo && p[i] <= hi) o.put((long long) v[i]);
  return o.get();
}
#endif
#ifndef NO_FACTOR
// what users of the table can observe: mu, and comparisons of the least prime factor with
// primes up to sqrt(y); a prime has no factor up to there
template <typename T> static string factor(long long y, int threads, long long lo, long long hi, const string& f)
{
  static std::map<long long, FactorTable<T>*> cache;
  long long key = y * 64 + threads;
  auto& ft = cache[key];
  if (!ft) ft = new FactorTable<T>(y, threads);
  long long r = 1;
  while ((r + 1) * (r + 1) <= y) r++;
  static vector<char> comp;
  if ((long long) comp.size() < r + 200) { comp.assign(r + 200, 0); for (size_t i = 2; i < comp.size(); i++) if (!comp[i]) for (size_t j = i * i; j < comp.size(); j += i) comp[j] = 1; }
  Out o(f);
  for (long long n = lo; n <= hi; n++)
  {
    if (n % 2 == 0 || n % 3 == 0 || n % 5 == 0 || n % 7 == 0) continue;
    long long i = FactorTable<T>::get_index(n), e = ft->lpf(i);
    if (e == 0) { o.put(0); o.put(0); continue; }
    o.put(ft->mu(i));
    if (e > r) { o.put(0); continue; }
    while (e < 2 || comp[e]) e++;      // p < e and p < next prime >= e are the same for primes p
    o.put(e);
  }
  return o.get();
}
#endif

static string run(const vector<string>& v)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  auto n = [&](size_t i) { return L(v.at(i)); };
  if (op == "sched") { shim_schedule((int) n(1), (uint64_t) n(2)); return ""; }
  if (op == "force") { g_force = (int) n(1); return ""; }
#ifndef NO_PITABLE
  if (op == "pitable")
  {
    static std::map<long long, PiTable*> cache;
    auto& t = cache[n(1)];
    if (!t) t = new PiTable((uint64_t) n(1));
    if (t->size() != n(1) + 1) return "size";
    Out o(a(4));
    for (long long i = n(2); i <= n(3); i++) o.put((*t)[i]);
    return o.get();
  }
#endif
#ifndef NO_GEN
  if (op == "primes")
  {
    const string& k = a(1); long long m = n(2);
    if (k == "def") return window(generate_primes(m), n(3), n(4), a(5));
    if (k == "i32") return window(generate_primes<int32_t>(m), n(3), n(4), a(5));
    if (k == "u32") return window(generate_primes<uint32_t>(m), n(3), n(4), a(5));
    if (k == "i64") return window(generate_primes<int64_t>(m), n(3), n(4), a(5));
    if (k == "u64") return window(generate_primes<uint64_t>(m), n(3), n(4), a(5));
  }
  // 1-indexed: entry 0 is a 0
  if (op == "nprimes") { auto p = generate_n_primes(n(1)); return p[0] != 0 ? "zero" : tr::str(p.size() - 1) + "/" + tr::str(p.back()) + "/" + window(p, 2, p.back(), "digest"); }
  if (op == "primecount") { auto p = generate_primes<int64_t>(n(1)); return p[0] != 0 ? "zero" : tr::str(p.size() - 1); }
  if (op == "moebius") return entries(generate_moebius(n(1)), n(2), n(3), a(4));
  if (op == "lpf") return entries(generate_lpf(n(1)), n(2), n(3), a(4));
  if (op == "pigen") return entries(generate_pi(n(1)), n(2), n(3), a(4));
  // lpf[1] has to exceed every prime
  if (op == "lpf1") { auto t = generate_lpf(n(1)); return t.size() == (size_t) n(1) + 1 && t[1] > n(1) ? "1" : "0"; }
#endif
#ifndef NO_SUMS
  if (op == "sums")
  {
    const string& k = a(1);
    if (k == "u64") return sums<uint64_t>(n(2), n(3), n(4), a(5));
    if (k == "i64") return sums<int64_t>(n(2), n(3), n(4), a(5));
    if (k == "i128") return sums<int128_t>(n(2), n(3), n(4), a(5));
  }
#endif
#ifndef NO_FACTOR
  if (op == "factor")
    return a(1) == "16" ? factor<uint16_t>(n(2), (int) n(3), n(4), n(5), a(6)) : factor<uint32_t>(n(2), (int) n(3), n(4), n(5), a(6));
  if (op == "factormake") { FactorTable<uint16_t> t(n(1), (int) n(2)); return "1"; }
  if (op == "factorover") { FactorTable<uint16_t> t((int64_t) FactorTable<uint16_t>::max() + n(1), (int) n(2)); return "1"; }
  if (op == "fmax") return a(1) == "16" ? tr::str((long long) FactorTable<uint16_t>::max()) : tr::str((unsigned long long) FactorTable<uint32_t>::max());
  if (op == "fidx") return tr::str(FactorTable<uint16_t>::get_index(strtoull(a(1).c_str(), 0, 10)));
  if (op == "fnum") return tr::str(FactorTable<uint16_t>::get_number(strtoull(a(1).c_str(), 0, 10)));
  if (op == "toidx") { int64_t x = n(1); FactorTable<uint16_t>::to_index(&x); return tr::str(x); }
#endif
  throw std::logic_error("unknown op " + op);
}

int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  string line;
  while (std::getline(std::cin, line))
  {
    vector<string> v = tr::split(line), args(v.begin() + 1, v.end());
    string r, e;
    try { r = run(v); }
    catch (const std::logic_error& x) { e = string(x.what()).compare(0, 10, "unknown op") == 0 ? "UNKNOWN" : "error"; }
    catch (const std::exception& x) { e = "error"; }
    tr::event(v[0], args, r, e);
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"\",\"e\":\"\"}");
  return 0;
}
