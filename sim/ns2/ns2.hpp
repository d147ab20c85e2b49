// The few functions of nstools' ns2 library (which is not part of the
// repository) that doc/what_is_wrapped.cpp uses.  Output is not synchronised
// with C stdio so that every write of the program passes through the simulator.
#ifndef NS2_HPP
#define NS2_HPP
#include <fcntl.h>
#include <iostream>
#include <map>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>
namespace ns2 {
static bool const nosync = std::ios_base::sync_with_stdio(false);
inline std::vector<std::string> split(std::string const &s, std::string const &d) {
  std::vector<std::string> r;
  for (size_t i = 0;;) {
    size_t j = s.find(d, i);
    if (j == std::string::npos) { r.push_back(s.substr(i)); return r; }
    r.push_back(s.substr(i, j - i));
    i = j + d.size();
  }
}
inline std::vector<std::string> split(std::string const &s, char d) { return split(s, std::string(1, d)); }
inline bool startswith(std::string const &s, std::string const &p) { return s.compare(0, p.size(), p) == 0; }
inline std::string replace(std::string const &s, std::string const &a, std::string const &b) {
  std::string r;
  for (size_t i = 0;;) {
    size_t j = s.find(a, i);
    if (j == std::string::npos) return r + s.substr(i);
    r += s.substr(i, j - i) + b;
    i = j + a.size();
  }
}
inline std::string read_file(std::string const &f) {
  int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0) throw std::runtime_error("cannot open " + f);
  std::string r;
  char b[65536];
  long n;
  while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n);
  close(fd);
  if (n < 0) throw std::runtime_error("cannot read " + f);
  return r;
}
} // namespace ns2
#endif
