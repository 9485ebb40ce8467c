// Stand-in for absl/log (newer than the absl installed here).  It keeps the
// observable contract the code relies on: LOG(INFO/WARNING) are quiet, LOG
// (ERROR) goes to stderr, LOG(FATAL)/CHECK print to stderr and abort().
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ostream>
#include <sstream>
#include <string>

namespace verif_shim_log {
enum Severity { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
#ifdef NDEBUG
constexpr Severity DFATAL = ERROR;
#else
constexpr Severity DFATAL = FATAL;
#endif
constexpr Severity QFATAL = FATAL;

class Message {
 public:
  Message(Severity s, const char* file, int line) : s_(s) {
    const char* base = std::strrchr(file, '/');
    os_ << "IWEF"[s] << " " << (base ? base + 1 : file) << ":" << line << "] ";
  }
  Message(Severity s, const char* file, int line, const char* cond)
      : Message(s, file, line) {
    os_ << "Check failed: " << cond << " ";
  }
  ~Message() {
    if (s_ >= ERROR) {
      std::string m = os_.str();
      m += '\n';
      std::fwrite(m.data(), 1, m.size(), stderr);
      std::fflush(stderr);
    }
    if (s_ == FATAL) std::abort();
  }
  std::ostream& stream() { return os_; }
  template <class T>
  Message& operator<<(const T& t) {
    os_ << t;
    return *this;
  }
  Message& operator<<(std::ostream& (*f)(std::ostream&)) {
    os_ << f;
    return *this;
  }

 private:
  Severity s_;
  std::ostringstream os_;
};
struct Voidify {
  template <class T>
  void operator&&(const T&) const {}
};
}  // namespace verif_shim_log

#define VERIF_SHIM_LOG_(sev) \
  ::verif_shim_log::Message(::verif_shim_log::sev, __FILE__, __LINE__)
#define LOG(sev) VERIF_SHIM_LOG_(sev)
#define LOG_IF(sev, cond) \
  !(cond) ? (void)0 : ::verif_shim_log::Voidify() && VERIF_SHIM_LOG_(sev)
#define PLOG(sev) VERIF_SHIM_LOG_(sev)
#define LOG_EVERY_N(sev, n) VERIF_SHIM_LOG_(sev)
#define LOG_FIRST_N(sev, n) VERIF_SHIM_LOG_(sev)
#ifdef NDEBUG
#define DLOG(sev) LOG_IF(sev, false)
#else
#define DLOG(sev) LOG(sev)
#endif
#define VLOG(n) LOG_IF(INFO, false)
#define DVLOG(n) LOG_IF(INFO, false)
#endif
