// End-to-end request server.  One request = one forked child, so no request can
// see state left by another, and a crash is attributed to the request.
//
// wire format, both ways: u32 number of fields, then per field u32 length+bytes
// request fields come in (tag, key, value) triples:
//   flag   NAME  VALUE        set a command line flag in the child
//   file   PATH  CONTENT      write a file below the child's working directory
//   script NAME  SOURCE       run ScriptToPS(NAME, SOURCE); repeatable
// response: status, then (ret, out, err) per completed script, then trailing err
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "absl/flags/reflection.h"
#include "absl/flags/commandlineflag.h"
#include "stl-to-ps/stl-to-ps.h"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=0:"
         "max_allocation_size_mb=2048:symbolize=0";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:exitcode=98";
}

namespace {
bool ReadAll(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t r = read(fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    c += r, n -= r;
  }
  return true;
}
void WriteAll(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t r = write(fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(3);
    c += r, n -= r;
  }
}
bool ReadFields(int fd, std::vector<std::string>* v) {
  uint32_t n;
  if (!ReadAll(fd, &n, 4)) return false;
  v->clear();
  for (uint32_t i = 0; i < n; i++) {
    uint32_t l;
    if (!ReadAll(fd, &l, 4)) return false;
    std::string s(l, 0);
    if (l && !ReadAll(fd, &s[0], l)) return false;
    v->push_back(std::move(s));
  }
  return true;
}
std::string Pack(const std::vector<std::string>& v) {
  std::string o;
  uint32_t n = v.size();
  o.append((char*)&n, 4);
  for (const auto& s : v) {
    uint32_t l = s.size();
    o.append((char*)&l, 4);
    o += s;
  }
  return o;
}
std::string Slurp(int fd, off_t from) {
  off_t end = lseek(fd, 0, SEEK_END);
  std::string s(end > from ? end - from : 0, 0);
  if (!s.empty()) {
    ssize_t r = pread(fd, &s[0], s.size(), from);
    s.resize(r > 0 ? r : 0);
  }
  return s;
}
void MkDirs(const std::string& p) {
  for (size_t i = 1; i < p.size(); i++)
    if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777);
}
}  // namespace

int main(int argc, char** argv) {
  int in = dup(0), out = dup(1);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);
  int efd = memfd_create("err", 0);
  int rfd = memfd_create("res", 0);
  std::vector<std::string> f;
  while (ReadFields(in, &f)) {
    ftruncate(efd, 0), lseek(efd, 0, SEEK_SET);
    ftruncate(rfd, 0), lseek(rfd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0) {
      rlimit rl{20, 20};
      setrlimit(RLIMIT_CPU, &rl);
      rlimit co{0, 0};
      setrlimit(RLIMIT_CORE, &co);
      dup2(efd, 2);
      for (size_t i = 0; i + 2 < f.size(); i += 3) {
        const std::string &tag = f[i], &k = f[i + 1], &v = f[i + 2];
        if (tag == "flag") {
          auto* fl = absl::FindCommandLineFlag(k);
          std::string err;
          if (fl) fl->ParseFrom(v, &err);
        } else if (tag == "file") {
          MkDirs(k);
          FILE* o = fopen(k.c_str(), "wb");
          if (!o) _exit(4);
          fwrite(v.data(), 1, v.size(), o);
          fclose(o);
        } else if (tag == "dir") {
          MkDirs(k + "/");
        } else if (tag == "script") {
          off_t e0 = lseek(efd, 0, SEEK_END);
          std::istringstream is(v);
          std::ostringstream os;
          bool ret = stl2ps::ScriptToPS(k, is, os);
          fflush(stderr);
          std::string rec =
              Pack({ret ? "1" : "0", os.str(), Slurp(efd, e0)});
          WriteAll(rfd, rec.data(), rec.size());
        }
      }
      fflush(stderr);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    for (size_t i = 0; i + 2 < f.size(); i += 3)
      if (f[i] == "file") unlink(f[i + 1].c_str());
    std::string status = WIFEXITED(st)
                             ? "exit " + std::to_string(WEXITSTATUS(st))
                             : "signal " + std::to_string(WTERMSIG(st));
    std::string res = Slurp(rfd, 0);
    std::vector<std::string> resp{status, res, Slurp(efd, 0)};
    std::string p = Pack(resp);
    WriteAll(out, p.data(), p.size());
  }
  return 0;
}
