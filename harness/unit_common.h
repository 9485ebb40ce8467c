// Server for calls of single functions.  Same wire format as worker.cc, fields
// are (operation, arg...); the response is (captured stderr, result...).
// A crash ends the process, which the client sees.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
         "handle_abort=0:max_allocation_size_mb=2048:symbolize=0";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:exitcode=98";
}

using Fields = std::vector<std::string>;
using Op = std::function<Fields(const Fields&)>;
std::map<std::string, Op>& Ops() {
  static std::map<std::string, Op> m;
  return m;
}
struct Reg {
  Reg(const char* n, Op o) { Ops()[n] = std::move(o); }
};

inline std::vector<double> Nums(const std::string& s) {
  std::vector<double> r;
  const char* p = s.c_str();
  char* e;
  for (;;) {
    double d = strtod(p, &e);
    if (e == p) break;
    r.push_back(d);
    p = e;
  }
  return r;
}
inline std::string Str(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

inline bool ReadAll(void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t r = read(3, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    c += r, n -= r;
  }
  return true;
}
inline void WriteAll(const std::string& s) {
  const char* c = s.data();
  size_t n = s.size();
  while (n) {
    ssize_t r = write(4, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(3);
    c += r, n -= r;
  }
}

int main() {
  int in = dup(0), out = dup(1);
  dup2(in, 3);
  dup2(out, 4);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);
  int efd = memfd_create("err", 0);
  dup2(efd, 2);
  rlimit co{0, 0};
  setrlimit(RLIMIT_CORE, &co);
  uint32_t n;
  while (ReadAll(&n, 4)) {
    Fields f;
    for (uint32_t i = 0; i < n; i++) {
      uint32_t l;
      if (!ReadAll(&l, 4)) return 0;
      std::string s(l, 0);
      if (l && !ReadAll(&s[0], l)) return 0;
      f.push_back(std::move(s));
    }
    if (ftruncate(2, 0)) return 5;
    lseek(2, 0, SEEK_SET);
    alarm(30);
    Fields r{""};
    auto op = Ops().find(f.at(0));
    if (op == Ops().end()) return 6;
    for (auto& s : op->second(f)) r.push_back(s);
    fflush(stderr);
    std::cerr.flush();
    alarm(0);
    off_t end = lseek(2, 0, SEEK_END);
    r[0].resize(end);
    if (end && pread(2, &r[0][0], end, 0) != end) return 7;
    std::string o;
    uint32_t k = r.size();
    o.append((char*)&k, 4);
    for (auto& s : r) {
      uint32_t l = s.size();
      o.append((char*)&l, 4);
      o += s;
    }
    WriteAll(o);
  }
  return 0;
}
