// Arithmetic driver: wide integers (C12), integer helpers (C22), expressions (C13).
#include "trace.hpp"
#include <int128_t.hpp>
#include <int256_t.hpp>
#ifndef NO_IMATH
#include <imath.hpp>
#include <isqrt.hpp>
#include <popcnt.hpp>
#endif
#ifndef NO_FASTDIV
#include <fast_div.hpp>
#endif
#ifndef NO_MINMAX
#include <min_max.hpp>
#endif
#ifndef NO_CALC
#include <calculator.hpp>
#endif
#include <functional>
#include <iostream>
#include <map>
#include <fcntl.h>

using namespace primesum;
using std::string;
using std::vector;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int128_t i128; typedef uint128_t u128;

int tr::out_fd = 1;

// decimal text to 256-bit two's complement, without the types under test
struct W4 { u64 w[4]; };
static W4 parse4(const string& s)
{
  W4 r = {{0, 0, 0, 0}};
  bool neg = s[0] == '-';
  for (size_t i = neg; i < s.size(); i++)
  {
    u128 c = s[i] - '0';
    for (int k = 0; k < 4; k++) { c += (u128) r.w[k] * 10; r.w[k] = (u64) c; c >>= 64; }
  }
  if (neg) { u128 c = 1; for (int k = 0; k < 4; k++) { c += (u64) ~r.w[k]; r.w[k] = (u64) c; c >>= 64; } }
  return r;
}
static int256_t W(const string& s)
{
  W4 r = parse4(s);
  static_assert(sizeof(int256_t) == 32, "layout");
  int256_t v;
  memcpy((void*) &v, &r, 32);
  return v;
}
template <typename T> static T P(const string& s)
{
  W4 r = parse4(s);
  return (T) (((u128) r.w[1] << 64) | r.w[0]);
}
template <typename T> static string num(T v)      // any builtin integer, own printing
{
  bool neg = v < 0;
  u128 u = neg ? (u128) 0 - (u128) (i128) v : (u128) v;
  string s;
  do { s.insert(s.begin(), (char) ('0' + (int) (u % 10))); u /= 10; } while (u);
  return neg ? "-" + s : s;
}
static string dec(const int256_t& v)              // own printing of the 256 bits
{
  W4 r;
  memcpy(&r, (const void*) &v, 32);
  bool neg = r.w[3] >> 63;
  if (neg) { u128 c = 1; for (int k = 0; k < 4; k++) { c += (u64) ~r.w[k]; r.w[k] = (u64) c; c >>= 64; } }
  string s;
  do
  {
    u128 rem = 0;
    for (int k = 3; k >= 0; k--) { rem = (rem << 64) | r.w[k]; r.w[k] = (u64) (rem / 10); rem %= 10; }
    s.insert(s.begin(), (char) ('0' + (int) rem));
  } while (r.w[0] | r.w[1] | r.w[2] | r.w[3]);
  return neg ? "-" + s : s;
}
template <typename T> static string S(const T& v) { std::ostringstream o; o << v; return o.str(); }
static string b(bool v) { return v ? "1" : "0"; }

// the result of the operator and of its assigning form have to agree
static string both(const int256_t& r, const int256_t& s) { return dec(r) == dec(s) ? dec(r) : "op " + dec(r) + " op= " + dec(s); }

static string wop(const string& o, const string& x, const string& y)
{
  int256_t a = W(x), c = W(y), d = a;
  if (o == "add") { d += c; return both(a + c, d); }
  if (o == "sub") { d -= c; return both(a - c, d); }
  if (o == "mul") { d *= c; return both(a * c, d); }
  if (o == "div") { d /= c; return both(a / c, d); }
  if (o == "rem") { d %= c; return both(a % c, d); }
  if (o == "and") { d &= c; return both(a & c, d); }
  if (o == "or")  { d |= c; return both(a | c, d); }
  if (o == "xor") { d ^= c; return both(a ^ c, d); }
  if (o == "lt") return b(a < c);
  if (o == "le") return b(a <= c);
  if (o == "gt") return b(a > c);
  if (o == "ge") return b(a >= c);
  if (o == "eq") return b(a == c);
  if (o == "ne") return b(a != c);
  if (o == "shl") { size_t n = std::stoul(y); d <<= n; return both(a << n, d); }
  if (o == "shr") { size_t n = std::stoul(y); d >>= n; return both(a >> n, d); }
  throw std::logic_error("unknown op " + o);
}
// right operand of a builtin type (or a built-in left one for rev)
template <typename T> static string wmix(const string& o, const string& x, const string& y)
{
  int256_t a = W(x), d = a;
  T c = P<T>(y);
  if (o == "add") { d += c; return both(a + c, d); }
  if (o == "sub") { d -= c; return both(a - c, d); }
  if (o == "mul") { d *= c; return both(a * c, d); }
  if (o == "div") { d /= c; return both(a / c, d); }
  if (o == "rem") { d %= c; return both(a % c, d); }
  if (o == "and") { d &= c; return both(a & c, d); }
  if (o == "or")  { d |= c; return both(a | c, d); }
  if (o == "xor") { d ^= c; return both(a ^ c, d); }
  if (o == "lt") return b(a < c);
  if (o == "le") return b(a <= c);
  if (o == "gt") return b(a > c);
  if (o == "ge") return b(a >= c);
  if (o == "eq") return b(a == c);
  if (o == "ne") return b(a != c);
  if (o == "shl") return dec(a << c);
  if (o == "shr") return dec(a >> c);
  throw std::logic_error("unknown op " + o);
}
static string w1(const string& o, const string& x)
{
  int256_t a = W(x);
  if (o == "neg") return dec(-a);
  if (o == "pos") return dec(+a);
  if (o == "not") return dec(~a);
  if (o == "inc") { int256_t p = a, q = a; int256_t r1 = ++p, r2 = q++; return dec(p) == dec(q) && dec(r1) == dec(p) && dec(r2) == dec(a) ? dec(p) : "++ " + dec(p) + "," + dec(q) + "," + dec(r1) + "," + dec(r2); }
  if (o == "dec") { int256_t p = a, q = a; int256_t r1 = --p, r2 = q--; return dec(p) == dec(q) && dec(r1) == dec(p) && dec(r2) == dec(a) ? dec(p) : "-- " + dec(p) + "," + dec(q) + "," + dec(r1) + "," + dec(r2); }
  if (o == "print") return S(a);
  throw std::logic_error("unknown op " + o);
}
template <typename T> struct Tag { typedef T t; };
// dispatch on a type name
template <typename F> static string typed(const string& t, F f)
{
  if (t == "i32") return f(Tag<i32>());
  if (t == "u32") return f(Tag<u32>());
  if (t == "i64") return f(Tag<i64>());
  if (t == "u64") return f(Tag<u64>());
  if (t == "i128") return f(Tag<i128>());
  if (t == "u128") return f(Tag<u128>());
  throw std::logic_error("unknown type " + t);
}
template <typename F> static string typed2(const string& t, F f)
{
  if (t == "i8") return f(Tag<i8>());
  if (t == "u8") return f(Tag<u8>());
  if (t == "i16") return f(Tag<i16>());
  if (t == "u16") return f(Tag<u16>());
  return typed(t, f);
}
#define T_OF(tag) typename decltype(tag)::t

struct Mix { string o, x, y; template <typename G> string operator()(G) { return wmix<typename G::t>(o, x, y); } };
struct To { string x; template <typename G> string operator()(G) { typedef typename G::t T; return num((T) W(x)); } };
struct From { string x; template <typename G> string operator()(G) { typedef typename G::t T; int256_t v = P<T>(x); int256_t u; u = P<T>(x); return dec(v) == dec(u) ? dec(v) : dec(v) + "," + dec(u); } };

#ifndef NO_IMATH
struct Isqrt { string x; template <typename G> string operator()(G) { typedef typename G::t T; return num(isqrt(P<T>(x))); } };
struct Iroot { string n, x; template <typename G> string operator()(G) { typedef typename G::t T;
  if (n == "2") return num(iroot<2>(P<T>(x)));
  if (n == "3") return num(iroot<3>(P<T>(x)));
  if (n == "4") return num(iroot<4>(P<T>(x)));
  if (n == "5") return num(iroot<5>(P<T>(x)));
  return num(iroot<6>(P<T>(x))); } };
struct Ipow { string x, n; template <typename G> string operator()(G) { typedef typename G::t T; return num(ipow(P<T>(x), atoi(n.c_str()))); } };
struct Np2 { string x; template <typename G> string operator()(G) { typedef typename G::t T; return num(next_power_of_2(P<T>(x))); } };
struct Pp2 { string x; template <typename G> string operator()(G) { typedef typename G::t T; return num(prev_power_of_2(P<T>(x))); } };
template <typename A> struct Ceil2 { string x, y; template <typename G> string operator()(G) { typedef typename G::t T; return num(ceil_div(P<A>(x), P<T>(y))); } };
struct Ceil { string t, x, y; template <typename G> string operator()(G) { return typed(t, Ceil2<typename G::t>{x, y}); } };
struct Betw { string lo, x, hi; template <typename G> string operator()(G) { typedef typename G::t T; return num(in_between(P<T>(lo), P<T>(x), P<T>(hi))); } };
struct Ilog { string x; template <typename G> string operator()(G) { typedef typename G::t T; return num(ilog(P<T>(x))); } };
#endif
#ifndef NO_FASTDIV
struct Fd { string t, x, y; template <typename G> string operator()(G) { typedef typename G::t X;
  X v = P<X>(x);
  // every width of the divisor that the function accepts
  if (t == "i32") return num(fast_div(v, P<i32>(y)));
  if (t == "u32") return num(fast_div(v, P<u32>(y)));
  return same(v, Tag<X>()); }
  template <typename X> string same(X v, Tag<X>) {
    if constexpr (sizeof(X) > 8) { if (t == "i64") return num(fast_div(v, P<i64>(y))); if (t == "u64") return num(fast_div(v, P<u64>(y))); }
    return num(fast_div(v, P<X>(y))); } };
#endif

static string run(const vector<string>& v)
{
  const string& op = v[0];
  auto a = [&](size_t i) -> const string& { return v.at(i); };
  if (op == "w") return wop(a(1), a(2), a(3));
  if (op == "wm") return typed(a(2), Mix{a(1), a(3), a(4)});
  if (op == "w1") return w1(a(1), a(2));
  if (op == "wto") return typed2(a(1), To{a(2)});
  if (op == "wfrom") return typed2(a(1), From{a(2)});
  if (op == "p128") return a(1) == "u128" ? S(P<u128>(a(2))) : S(P<i128>(a(2)));
#ifndef NO_IMATH
  if (op == "isqrt") return typed(a(1), Isqrt{a(2)});
  if (op == "iroot") return typed(a(1), Iroot{a(2), a(3)});
  if (op == "ipow") return typed(a(1), Ipow{a(2), a(3)});
  if (op == "np2") return typed(a(1), Np2{a(2)});
  if (op == "pp2") return typed(a(1), Pp2{a(2)});
  if (op == "ceil") return typed(a(1), Ceil{a(2), a(3), a(4)});
  if (op == "betw") return typed(a(1), Betw{a(2), a(3), a(4)});
  if (op == "ilog") return typed(a(1), Ilog{a(2)});
  if (op == "isquare") return num(isquare(P<i64>(a(1))));
  if (op == "pop") return num(popcnt64(P<u64>(a(1))));
  if (op == "pibs")
  {
    // a(1): number of primes in the table, a(2): type of the argument
    static std::map<string, vector<i32>> tabs;
    vector<i32>& t = tabs[a(1)];
    if (t.empty())
    {
      t.push_back(0);
      for (i32 n = 2; (long) t.size() <= atol(a(1).c_str()); n++) { bool p = true; for (i32 d = 2; d * d <= n; d++) if (n % d == 0) { p = false; break; } if (p) t.push_back(n); }
    }
    if (a(2) == "i32") return num(pi_bsearch(t, P<i32>(a(3))));
    return num(pi_bsearch(t, P<i64>(a(3))));
  }
#endif
#ifndef NO_FASTDIV
  if (op == "fdiv") return typed(a(1), Fd{a(2), a(3), a(4)});
#endif
#ifndef NO_MINMAX
  if (op == "min" || op == "max")
  {
    bool mx = op == "max";
    const string& t = a(1);
    if (t == "i128,i64") return mx ? num(max(P<i128>(a(2)), P<i64>(a(3)))) : num(min(P<i128>(a(2)), P<i64>(a(3))));
    if (t == "i64,i32") return mx ? num(max(P<i64>(a(2)), P<i32>(a(3)))) : num(min(P<i64>(a(2)), P<i32>(a(3))));
    if (t == "i64,i64,i64") return mx ? num(primesum::max(P<i64>(a(2)), P<i64>(a(3)), P<i64>(a(4)))) : num(primesum::min(P<i64>(a(2)), P<i64>(a(3)), P<i64>(a(4))));
    if (t == "i128,i64,i64") return mx ? num(primesum::max(P<i128>(a(2)), P<i64>(a(3)), P<i64>(a(4)))) : num(primesum::min(P<i128>(a(2)), P<i64>(a(3)), P<i64>(a(4))));
  }
#endif
#ifndef NO_CALC
  // "0+" and n levels of parentheses or unary operators around 7
  if (op == "evaldeep")
  {
    string o = a(1); size_t n = std::stoul(a(2));
    string t = "0+";
    for (size_t i = 0; i < n; i++) t += o;
    t += "7";
    if (o == "(") t += string(n, ')');
    return S(calculator::eval<int128_t>(t));
  }
  if (op == "eval") return S(calculator::eval<int128_t>(a(1)));
  if (op == "eval64") return num(calculator::eval<i64>(a(1)));
  if (op == "evalu64") return num(calculator::eval<u64>(a(1)));
#endif
  throw std::logic_error("unknown op " + op);
}

int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty() || line[0] == '#') continue;
    vector<string> v = tr::split(line), args(v.begin() + 1, v.end());
    string r, e;
    try { r = run(v); }
    catch (const std::logic_error& x) { e = string(x.what()).compare(0, 7, "unknown") == 0 ? "UNKNOWN" : "error"; }
    catch (const std::exception& x) { e = "error"; }
    tr::event(v[0], args, r, e);
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"\",\"e\":\"\"}");
  return 0;
}
