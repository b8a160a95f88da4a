// Event log shared by the drivers: one JSON object per line on stdout's original
// descriptor. Every number is a decimal string (TLC integers are 32 bits wide).
#ifndef TRACE_HPP
#define TRACE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace tr {

inline std::string esc(const std::string& s)
{
  std::string r;
  char buf[8];
  for (unsigned char c : s)
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
    else r += (char) c;
  return r;
}
inline std::string list(const std::vector<std::string>& v)
{
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++)
    r += (i ? ",\"" : "\"") + esc(v[i]) + "\"";
  return r + "]";
}
extern int out_fd;
inline void emit(const std::string& line)
{
  std::string l = line + "\n";
  size_t o = 0;
  while (o < l.size()) { ssize_t n = write(out_fd, l.data() + o, l.size() - o); if (n <= 0) _exit(97); o += n; }
}
inline void event(const std::string& op, const std::vector<std::string>& args, const std::string& r,
                  const std::string& e, const std::string& extra = "")
{
  emit("{\"op\":\"" + esc(op) + "\",\"a\":" + list(args) + ",\"r\":\"" + esc(r) + "\",\"e\":\"" + esc(e) + "\"" + extra + "}");
}
inline std::vector<std::string> split(const std::string& line)
{
  // tokens separated by blanks; a token in double quotes may contain blanks
  std::vector<std::string> v;
  std::string cur; bool in = false, q = false;
  for (char c : line)
    if (q) { if (c == '"') q = false; else cur += c; }
    else if (c == '"') { q = true; in = true; }
    else if (c == ' ' || c == '\t') { if (in) v.push_back(cur); cur.clear(); in = false; }
    else { cur += c; in = true; }
  if (in) v.push_back(cur);
  return v;
}
template <typename T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
// digest used by NTBig!TableDigest
struct Dig
{
  unsigned long long h = 0xcbf29ce484222325ull, n = 0;
  void put(long long v) { h ^= (unsigned long long) v; h *= 0x100000001b3ull; h ^= h >> 29; n++; }
  std::string get() const { return str(h) + "/" + str(n); }
};
inline std::string textDigest(const std::string& s)
{
  unsigned long long h = 0xcbf29ce484222325ull;
  for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
  return str(h) + "/" + str(s.size());
}
} // namespace tr
#endif
