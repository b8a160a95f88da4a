// Sieve library driver (C18, C19, C20): the public C++ and C interfaces of primesieve.
#include "trace.hpp"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/iterator.h>
#ifndef NO_PSIEVE
#include <primesieve/ParallelSieve.hpp>
#endif
#include <cerrno>
#include <fcntl.h>
#include <iostream>
#include <limits>
#include <memory>
#include <sys/stat.h>

using std::string;
using std::vector;
int tr::out_fd = 1;
static uint64_t U(const string& s) { return strtoull(s.c_str(), 0, 10); }
static int64_t I(const string& s) { return strtoll(s.c_str(), 0, 10); }
static string S(uint64_t v) { return tr::str((unsigned long long) v); }
struct Text
{
  unsigned long long h = 0xcbf29ce484222325ull, n = 0;
  void put(const string& s) { for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; n++; } }
  template <typename T> void num(T v) { if (v < 0) put("-"); put(S((uint64_t) (v < 0 ? -v : v)) + "\n"); }
  string get() { return S(h) + "/" + S(n); }
};

// one iterator per session, of either interface
static std::unique_ptr<primesieve::iterator> cpp;
static primesieve_iterator ci;
static bool c_init = false, use_c = false;
static void drop() { cpp.reset(); if (c_init) primesieve_free_iterator(&ci); c_init = false; }
static uint64_t next() { return use_c ? primesieve_next_prime(&ci) : cpp->next_prime(); }
static uint64_t prev() { return use_c ? primesieve_prev_prime(&ci) : cpp->prev_prime(); }
static string err() { return use_c && ci.is_error ? "!" : ""; }

// stdout of a call, as a digest
static int g_tmp = -1;
template <typename F> static string captured(F f)
{
  std::cout.flush(); fflush(stdout);
  if (ftruncate(g_tmp, 0)) { }
  lseek(g_tmp, 0, SEEK_SET);
  int save = dup(1);
  dup2(g_tmp, 1);
  try { f(); } catch (...) { std::cout.flush(); dup2(save, 1); close(save); throw; }
  std::cout.flush(); fflush(stdout);
  dup2(save, 1); close(save);
  lseek(g_tmp, 0, SEEK_SET);
  Text t; char buf[65536]; ssize_t n;
  while ((n = read(g_tmp, buf, sizeof buf)) > 0) t.put(string(buf, n));
  return t.get();
}

typedef uint64_t (*cnt)(uint64_t, uint64_t);
typedef void (*prn)(uint64_t, uint64_t);
static const cnt counts[] = { 0, primesieve::count_primes, primesieve::count_twins, primesieve::count_triplets, primesieve::count_quadruplets, primesieve::count_quintuplets, primesieve::count_sextuplets };
static const cnt ccounts[] = { 0, primesieve_count_primes, primesieve_count_twins, primesieve_count_triplets, primesieve_count_quadruplets, primesieve_count_quintuplets, primesieve_count_sextuplets };
static const prn prints[] = { 0, primesieve::print_primes, primesieve::print_twins, primesieve::print_triplets, primesieve::print_quadruplets, primesieve::print_quintuplets, primesieve::print_sextuplets };
static const prn cprints[] = { 0, primesieve_print_primes, primesieve_print_twins, primesieve_print_triplets, primesieve_print_quadruplets, primesieve_print_quintuplets, primesieve_print_sextuplets };

template <typename V> static string digest(const V* v, size_t n) { Text t; for (size_t i = 0; i < n; i++) t.num(v[i]); return S(n) + "/" + t.get(); }
template <typename T> static string gen(const vector<string>& v)
{
  vector<T> p;
  if (v[0] == "gen") primesieve::generate_primes(U(v[2]), U(v[3]), &p);
  else if (v[0] == "gen0") primesieve::generate_primes(U(v[2]), &p);
  else if (v[0] == "genn0") primesieve::generate_n_primes(U(v[2]), &p);
  else primesieve::generate_n_primes(U(v[2]), U(v[3]), &p);
  return digest(p.data(), p.size());
}
// appending keeps what the vector holds
static string append(const vector<string>& v)
{
  vector<uint64_t> p = { 42, 43 };
  primesieve::generate_primes(U(v[1]), U(v[2]), &p);
  if (p.size() < 2 || p[0] != 42 || p[1] != 43) return "lost";
  return digest(p.data() + 2, p.size() - 2);
}
template <typename T> static string cgen(const vector<string>& v, int type)
{
  size_t n = 99;
  errno = 0;
  void* p;
  if (v[0] == "cgen") p = primesieve_generate_primes(U(v[2]), U(v[3]), &n, type);
  else { n = (size_t) U(v[2]); p = primesieve_generate_n_primes(n, U(v[3]), type); }
  if (!p)
  {
    if (v[0] == "cgen" && n != 0) return "size not 0";
    throw errno == EDOM ? 1 : 2;
  }
  if (errno == EDOM) throw 2;
  string r = digest((T*) p, n);
  primesieve_free(p);
  return r;
}

static string run(const vector<string>& v)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  if (op == "inew")
  {
    drop();
    use_c = a(1) == "c";
    if (use_c) { primesieve_init(&ci); c_init = true; if (v.size() > 2) primesieve_skipto(&ci, U(a(2)), U(a(3))); }
    else if (v.size() == 2) cpp.reset(new primesieve::iterator);
    else if (v.size() == 3) cpp.reset(new primesieve::iterator(U(a(2))));
    else cpp.reset(new primesieve::iterator(U(a(2)), U(a(3))));
    return err();
  }
  if (op == "inext") { string r = S(next()); return r + err(); }
  if (op == "iprev") { string r = S(prev()); return r + err(); }
  if (op == "iskip")
  {
    if (use_c) primesieve_skipto(&ci, U(a(1)), U(a(2)));
    else if (v.size() == 2) cpp->skipto(U(a(1)));
    else cpp->skipto(U(a(1)), U(a(2)));
    return err();
  }
  if (op == "imove")
  {
    if (!use_c) { std::unique_ptr<primesieve::iterator> q(new primesieve::iterator(std::move(*cpp))); primesieve::iterator z(7); z = std::move(*q); cpp.reset(new primesieve::iterator(std::move(z))); }
    return "";
  }
  // many steps: last value and digest of all of them in ascending order
  if (op == "inextn") { Text t; uint64_t p = 0; for (uint64_t i = 0; i < U(a(1)); i++) t.num(p = next()); return S(p) + "/" + t.get() + err(); }
  if (op == "iprevn")
  {
    vector<uint64_t> l; uint64_t p = 0;
    for (uint64_t i = 0; i < U(a(1)); i++) { p = prev(); if (p) l.push_back(p); }
    Text t;
    for (size_t i = l.size(); i-- > 0; ) t.num(l[i]);
    return S(p) + "/" + t.get() + err();
  }

  if (op == "count") return S(counts[I(a(1))](U(a(2)), U(a(3))));
  if (op == "ccount") { errno = 0; uint64_t r = ccounts[I(a(1))](U(a(2)), U(a(3))); if (errno == EDOM) throw 1; return S(r); }
  if (op == "print") return captured([&] { prints[I(a(1))](U(a(2)), U(a(3))); });
  if (op == "cprint") { errno = 0; string r = captured([&] { cprints[I(a(1))](U(a(2)), U(a(3))); }); if (errno == EDOM) throw 1; return r; }
  if (op == "nth") return S(v.size() == 2 ? primesieve::nth_prime(I(a(1))) : primesieve::nth_prime(I(a(1)), U(a(2))));
  if (op == "cnth") { errno = 0; uint64_t r = primesieve_nth_prime(I(a(1)), U(a(2))); if (r == (uint64_t) ~0ull) throw errno == EDOM ? 1 : 2; return S(r); }
#ifndef NO_PSIEVE
  // all counts of one run, with an explicit sieve size and number of threads
  if (op == "psieve")
  {
    using namespace primesieve;
    ParallelSieve ps;
    ps.setSieveSize((int) I(a(4)));
    ps.setNumThreads((int) I(a(3)));
    ps.sieve(U(a(1)), U(a(2)), COUNT_PRIMES | COUNT_TWINS | COUNT_TRIPLETS | COUNT_QUADRUPLETS | COUNT_QUINTUPLETS | COUNT_SEXTUPLETS);
    string r = S(ps.getCount(0));
    for (int i = 1; i < 6; i++) r += "/" + S(ps.getCount(i));
    return r;
  }
#endif
  if (op == "gen" || op == "genn" || op == "gen0" || op == "genn0")
  {
    const string& k = a(1);
    if (k == "i16") return gen<int16_t>(v);
    if (k == "u16") return gen<uint16_t>(v);
    if (k == "i32") return gen<int32_t>(v);
    if (k == "u32") return gen<uint32_t>(v);
    if (k == "i64") return gen<int64_t>(v);
    if (k == "u64") return gen<uint64_t>(v);
  }
  if (op == "genappend") return append(v);
  if (op == "cgen" || op == "cgenn")
  {
    const string& k = a(1);
    int alt = v.size() > 4 ? (int) I(a(4)) : 0;       // the C types have two or three names each
    if (k == "i16") return cgen<int16_t>(v, alt ? SHORT_PRIMES : INT16_PRIMES);
    if (k == "u16") return cgen<uint16_t>(v, alt ? USHORT_PRIMES : UINT16_PRIMES);
    if (k == "i32") return cgen<int32_t>(v, alt ? INT_PRIMES : INT32_PRIMES);
    if (k == "u32") return cgen<uint32_t>(v, alt ? UINT_PRIMES : UINT32_PRIMES);
    if (k == "i64") return cgen<int64_t>(v, alt == 2 ? LONG_PRIMES : alt ? LONGLONG_PRIMES : INT64_PRIMES);
    if (k == "u64") return cgen<uint64_t>(v, alt == 2 ? ULONG_PRIMES : alt ? ULONGLONG_PRIMES : UINT64_PRIMES);
    return cgen<uint64_t>(v, (int) I(k));             // not a type
  }
  if (op == "setsize") { if (a(1) == "c") primesieve_set_sieve_size((int) I(a(2))); else primesieve::set_sieve_size((int) I(a(2))); return ""; }
  if (op == "getsize") return tr::str(a(1) == "c" ? primesieve_get_sieve_size() : primesieve::get_sieve_size());
  if (op == "setthreads") { if (a(1) == "c") primesieve_set_num_threads((int) I(a(2))); else primesieve::set_num_threads((int) I(a(2))); return ""; }
  if (op == "getthreads") return tr::str(a(1) == "c" ? primesieve_get_num_threads() : primesieve::get_num_threads());
  if (op == "maxstop") return S(a(1) == "c" ? primesieve_get_max_stop() : primesieve::get_max_stop());
  if (op == "version") return (primesieve::primesieve_version() == primesieve_version()) ? "same" : "differ";
  throw std::logic_error("unknown op " + op);
}

int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  FILE* tmp = tmpfile();
  g_tmp = fileno(tmp);
  string line;
  while (std::getline(std::cin, line))
  {
    vector<string> v = tr::split(line), args(v.begin() + 1, v.end());
    string r, e;
    try { r = run(v); }
    catch (int k) { e = k == 1 ? "error" : "no errno"; }
    catch (const primesieve::primesieve_error& x) { e = "error"; }
    catch (const std::logic_error& x) { e = string(x.what()).compare(0, 10, "unknown op") == 0 ? "UNKNOWN" : "exception"; }
    catch (const std::exception& x) { e = "exception"; }
    catch (...) { e = "other"; }
    tr::event(v[0], args, r, e);
  }
  drop();
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"\",\"e\":\"\"}");
  return 0;
}
