// The sieve library's parallel counting and n-th prime search over an abstract sieve (C19):
// sieving one chunk is replaced by an exact count of a periodic set of numbers, so the
// division of an interval into chunks and the search for the n-th member run over the whole
// 64-bit range, where sieving real primes is out of reach.
#include "trace.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstring>
#include <future>
#include <limits>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <iostream>
#define private public
#define protected public
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <primesieve/PrintPrimes.hpp>
#include <primesieve/iterator.hpp>
#undef private
#undef protected

using namespace primesieve;
using std::string;
using std::vector;
int tr::out_fd = 1;
static uint64_t U(const string& s) { return strtoull(s.c_str(), 0, 10); }
static int64_t I(const string& s) { return strtoll(s.c_str(), 0, 10); }
static string S(uint64_t v) { return tr::str((unsigned long long) v); }

// the members: n = rem (mod mod); k-tuplets: all members of a block of 30 from first to last
static uint64_t mod_ = 44, rem_ = 1;
static const int first_[6] = { 0, 29, 7, 11, 11, 7 }, last_[6] = { 0, 31, 13, 19, 23, 23 };
static std::atomic<uint64_t> chunks_(0);
typedef unsigned __int128 u128;
static uint64_t upto(u128 n) { return n < rem_ ? 0 : (uint64_t) ((n - rem_) / mod_ + 1); }
static uint64_t members(uint64_t a, uint64_t b) { return a > b ? 0 : upto(b) - (a ? upto(a - 1) : 0); }
static uint64_t tuplets(int k, uint64_t a, uint64_t b)
{
  if (b < (uint64_t) last_[k]) return 0;
  u128 hi = (b - last_[k]) / 30;                                  // largest block that ends by b
  u128 lo = a <= (uint64_t) first_[k] ? 0 : ((u128) a - first_[k] + 29) / 30;
  return lo > hi ? 0 : (uint64_t) (hi - lo + 1);
}

static thread_local PrimeSieve* current = 0;
extern "C" void __wrap__ZN10primesieve11PrintPrimesC1ERNS_10PrimeSieveE(PrintPrimes* self, PrimeSieve& ps)
{
  memset((void*) self, 0, sizeof(PrintPrimes));
  current = &ps;
}
extern "C" void __wrap__ZN10primesieve11PrintPrimes5sieveEv(PrintPrimes*)
{
  chunks_++;
  for (int i = 0; i < 6; i++)
    if (current->isCount(i))
      current->getCounts()[i] += i ? tuplets(i, current->getStart(), current->getStop()) : members(current->getStart(), current->getStop());
}
// the next members above stop_, as the real iterator continues from there
extern "C" void __wrap__ZN10primesieve8iterator20generate_next_primesEv(iterator* it)
{
  it->primes_.clear();
  u128 n = upto(it->stop_);
  u128 x = (u128) rem_ + n * mod_;
  for (int i = 0; i < 1024 && x < ~0ull; i++, x += mod_) it->primes_.push_back((uint64_t) x);
  if (it->primes_.empty()) it->primes_.push_back(~0ull); else it->stop_ = it->primes_.back();
  it->i_ = 0;
  it->last_idx_ = it->primes_.size() - 1;
}

static string call(const vector<string>& v)
{
  const string& op = v[0];
  mod_ = U(v[4]); rem_ = U(v[5]);
  if (op == "acount")
  {
    ParallelSieve ps;
    ps.setNumThreads((int) I(v[3]));
    chunks_ = 0;
    ps.sieve(U(v[1]), U(v[2]), COUNT_PRIMES | COUNT_TWINS | COUNT_TRIPLETS | COUNT_QUADRUPLETS | COUNT_QUINTUPLETS | COUNT_SEXTUPLETS);
    if (!chunks_ && U(v[1]) <= U(v[2])) return "?";               // not counted by the stand-in
    string r = S(ps.getCount(0));
    for (int i = 1; i < 6; i++) r += "/" + S(ps.getCount(i));
    return r;
  }
  if (op == "anth")
  {
    ParallelSieve ps;
    ps.setNumThreads((int) I(v[3]));
    return S(ps.nthPrime(I(v[1]), U(v[2])));
  }
  throw std::logic_error("unknown op " + op);
}

int main()
{
  string line;
  while (std::getline(std::cin, line))
  {
    vector<string> v = tr::split(line), args(v.begin() + 1, v.end());
    string r, e;
    try { r = call(v); }
    catch (const primesieve::primesieve_error&) { e = "error"; }
    catch (const std::exception& x) { e = string(x.what()).compare(0, 10, "unknown op") == 0 ? "UNKNOWN" : "exception"; }
    tr::event(v[0], args, r, e);
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"\",\"e\":\"\"}");
  return 0;
}
