// The sieve library's own copy of the expression parser.
#include "trace.hpp"
#include <primesieve/calculator.hpp>
#include <iostream>
#include <fcntl.h>
#include <stdint.h>
int tr::out_fd = 1;
int main()
{
  tr::out_fd = dup(1);
  int nul = open("/dev/null", 1);
  dup2(nul, 1);
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> v = tr::split(line), args(v.begin() + 1, v.end());
    std::string r, e;
    try
    {
      if (v[0] == "pseval") r = tr::str(calculator::eval<int64_t>(v.at(1)));
      else if (v[0] == "psevalu") r = tr::str(calculator::eval<uint64_t>(v.at(1)));
      else if (v[0] == "pseval32") r = tr::str(calculator::eval<int>(v.at(1)));
      else e = "UNKNOWN";
    }
    catch (const std::exception& x) { e = "error"; }
    tr::event(v[0], args, r, e);
  }
  tr::emit("{\"op\":\"end\",\"a\":[],\"r\":\"\",\"e\":\"\"}");
  return 0;
}
