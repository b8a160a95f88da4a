// Force-included in front of every source file of the program in the "wide"
// build. The program chooses between 32-, 64-, 128- and 256-bit code by
// comparing x or y with numeric_limits<...>::max(). Here those comparisons use
// limits that the driver can lower at run time, so that the wide code paths
// run on inputs small enough for an exact oracle. Only comparisons of a wider
// operand with the limit are affected; every other use sees the real value.
#ifndef VF_REGIME_HPP
#define VF_REGIME_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <ostream>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <stdint.h>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif
#include <primesieve.hpp>
#include "vf_headers.inc"   // every header of the program, generated by the check

namespace vf {
extern __int128 lim_s64, lim_u64, lim_u32;
struct S64 { constexpr operator std::int64_t() const { return std::numeric_limits<std::int64_t>::max(); } };
struct U64 { constexpr operator std::uint64_t() const { return std::numeric_limits<std::uint64_t>::max(); } };
struct U32 { constexpr operator std::uint32_t() const { return std::numeric_limits<std::uint32_t>::max(); } };
#define VF_CMP(NAME, A, VAR) \
  inline bool operator<=(A a, NAME) { return (__int128) a <= VAR; } \
  inline bool operator<(A a, NAME)  { return (__int128) a < VAR; } \
  inline bool operator>(A a, NAME)  { return (__int128) a > VAR; } \
  inline bool operator>=(A a, NAME) { return (__int128) a >= VAR; } \
  inline bool operator>=(NAME, A a) { return (__int128) a <= VAR; } \
  inline bool operator<(NAME, A a)  { return (__int128) a > VAR; }
VF_CMP(S64, __int128, lim_s64)
VF_CMP(S64, unsigned __int128, lim_s64)
VF_CMP(U64, __int128, lim_u64)
VF_CMP(U64, unsigned __int128, lim_u64)
VF_CMP(U32, long, lim_u32)
VF_CMP(U32, __int128, lim_u32)
}
#ifdef VF_FACTOR
// the factor table of 32-bit entries is chosen above the same limit
namespace primesum {
template <> inline int128_t FactorTable<std::uint16_t>::max()
{
  int128_t real = (int128_t) 65534 * 65534 - 1;
  return vf::lim_u32 < real ? (int128_t) vf::lim_u32 : real;
}
}
#endif
namespace std {
template <typename T> struct vf_limits : numeric_limits<T> { };
template <> struct vf_limits<std::int64_t> : numeric_limits<std::int64_t> { static constexpr vf::S64 max() { return vf::S64(); } };
template <> struct vf_limits<std::uint64_t> : numeric_limits<std::uint64_t> { static constexpr vf::U64 max() { return vf::U64(); } };
template <> struct vf_limits<std::uint32_t> : numeric_limits<std::uint32_t> { static constexpr vf::U32 max() { return vf::U32(); } };
}
#define numeric_limits vf_limits
#endif
