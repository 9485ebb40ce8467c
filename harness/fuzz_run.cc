// libFuzzer target over whole runs.  FUZZ_MODE=script: the input is the script,
// models are fixed files of the current directory; stl: the input is m.stl and
// the scripts are fixed; both: script and m.stl, separated by "\n====\n".
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>

#include "absl/flags/reflection.h"
#include "stl-to-ps/stl-to-ps.h"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0";
}

namespace {
int g_saved = -1, g_err = -1;
std::string g_mode;
const char* const kScripts[] = {
    "load m=\"m.stl\";page{draw m{}}",
    "load m=\"m.stl\";page{draw m{view=\"X+\";@[0,0];scale=1:2;"
    "dim(at=[0,0,0],dir=[1,0,0],from=near([0,0,0]),to=near([9,9,9]));}"
    "draw m{view=[30,40];@[1,1];dim(at=[0,0,0],dir=[1,1,0],from=[0,0,0],to=near([1,2,3]));}}",
    "load m=\"m.stl\";page{draw m{rad(at=[0,1,0],dir=[1,0,0],center=[0,0,0]);}}",
    "load m=\"m.stl\";page{draw m{view=[10,200];dia(at=[0,1,0],dir=[1,0,1],center=center([0,0,0]));}}",
};

[[noreturn]] void Die(const char* what) {
  dup2(g_saved, 2);
  fprintf(stderr, "ORACLE: %s\n", what);
  abort();
}

// Coordinates of ordinary magnitude only.
bool Ordinary(const std::string& s) {
  const char* p = s.c_str();
  const char* e = p + s.size();
  while (p < e) {
    if (isdigit((unsigned char)*p) || *p == '.') {
      char* q;
      double v = std::fabs(strtod(p, &q));
      if (q == p) {
        p++;
        continue;
      }
      if (!(v <= 1e6) || (v != 0 && v < 1e-6)) return false;
      p = q;
    } else {
      p++;
    }
  }
  return true;
}

// Is there a not-a-number or infinity outside strings and comments?
bool Finite(const std::string& s) {
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%') {
      while (i < s.size() && s[i] != '\n') i++;
    } else if (s[i] == '(') {
      int n = 0;
      for (; i < s.size(); i++) {
        if (s[i] == '\\') i++;
        else if (s[i] == '(') n++;
        else if (s[i] == ')' && --n == 0) break;
      }
    } else if (isalpha((unsigned char)s[i])) {
      size_t j = i;
      while (j < s.size() && isalnum((unsigned char)s[j])) j++;
      std::string w = s.substr(i, j - i);
      if (w == "nan" || w == "inf") return false;
      i = j - 1;
    }
  }
  return true;
}

void One(const std::string& script) {
  if (ftruncate(g_err, 0)) {}
  lseek(g_err, 0, SEEK_SET);
  std::istringstream in(script);
  std::ostringstream out;
  dup2(g_err, 2);
  bool ok = stl2ps::ScriptToPS("f.script", in, out);
  fflush(stderr);
  dup2(g_saved, 2);
  if (ok && out.str().empty()) Die("success without output");
  if (ok && !Finite(out.str())) Die("not a finite number in the output");
  if (!ok && !out.str().empty()) Die("failure with output");
  if (!ok && lseek(g_err, 0, SEEK_END) == 0) Die("failure without a message");
}
void Model(const char* p, size_t n) {
  int fd = open("m.stl", O_CREAT | O_TRUNC | O_WRONLY, 0666);
  if (fd < 0 || write(fd, p, n) != (ssize_t)n) _exit(0);
  close(fd);
}
}  // namespace

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  g_saved = dup(2);
  g_err = memfd_create("err", 0);
  g_mode = getenv("FUZZ_MODE") ? getenv("FUZZ_MODE") : "script";
  rlimit co{0, 0};
  setrlimit(RLIMIT_CORE, &co);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  std::string s((const char*)d, n);
  if (g_mode == "script") {
    One(s);
  } else if (g_mode == "stl") {
    if (!Ordinary(s)) return -1;
    Model(s.data(), s.size());
    for (auto* k : kScripts) One(k);
  } else {
    size_t p = s.find("\n====\n");
    std::string m = p == std::string::npos ? "" : s.substr(p + 6);
    if (!Ordinary(m)) return -1;
    Model(m.data(), m.size());
    One(s.substr(0, p));
  }
  return 0;
}
