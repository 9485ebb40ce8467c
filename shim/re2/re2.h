// Declarations for the libre2.so.10 (2023-03-01) that is installed here without
// its headers.  All real work is done by that library; only the object layout
// that callers can see is declared (RE2 itself is over-allocated).
#ifndef VERIF_SHIM_RE2_RE2_H_
#define VERIF_SHIM_RE2_RE2_H_
#include <cstddef>
#include <utility>
#include <string>
#include <vector>

#include "re2/stringpiece.h"

namespace re2 {
namespace re2_internal {
template <typename T>
bool Parse(const char* str, size_t n, T* dest);
template <typename T>
bool Parse(const char* str, size_t n, T* dest, int radix);
template <typename T> struct NoRadix { static constexpr bool value = false; };
#define VERIF_RE2_NR(T) template <> struct NoRadix<T> { static constexpr bool value = true; }
VERIF_RE2_NR(void); VERIF_RE2_NR(std::string); VERIF_RE2_NR(StringPiece);
VERIF_RE2_NR(char); VERIF_RE2_NR(signed char); VERIF_RE2_NR(unsigned char);
VERIF_RE2_NR(float); VERIF_RE2_NR(double);
#undef VERIF_RE2_NR
}  // namespace re2_internal

class RE2 {
 public:
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Arg {
   public:
    using Parser = bool (*)(const char* str, size_t n, void* dest);
    Arg() : Arg(nullptr) {}
    Arg(std::nullptr_t) : arg_(nullptr), parser_(&Nothing) {}
    template <typename T>
    Arg(T* p) : arg_(p), parser_(&Do<T>) {}
    template <typename T>
    Arg(T* p, Parser parser) : arg_(p), parser_(parser) {}
    bool Parse(const char* str, size_t n) const { return (*parser_)(str, n, arg_); }

   private:
    static bool Nothing(const char*, size_t, void*) { return true; }
    template <typename T>
    static bool Do(const char* s, size_t n, void* d) {
      if constexpr (re2_internal::NoRadix<T>::value) {
        return re2_internal::Parse(s, n, static_cast<T*>(d));
      } else {
        return re2_internal::Parse(s, n, static_cast<T*>(d), 10);
      }
    }
    void* arg_;
    Parser parser_;
  };

  RE2(const char* pattern);
  RE2(const std::string& pattern);
  RE2(const StringPiece& pattern);
  ~RE2();
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  int ProgramSize() const;
  bool ok() const { return ProgramSize() >= 0; }

  static bool FullMatchN(const StringPiece& text, const RE2& re, const Arg* const args[], int n);
  static bool PartialMatchN(const StringPiece& text, const RE2& re, const Arg* const args[], int n);
  static bool ConsumeN(StringPiece* input, const RE2& re, const Arg* const args[], int n);
  static bool FindAndConsumeN(StringPiece* input, const RE2& re, const Arg* const args[], int n);
  static bool Replace(std::string* str, const RE2& re, const StringPiece& rewrite);
  static int GlobalReplace(std::string* str, const RE2& re, const StringPiece& rewrite);
  static bool Extract(const StringPiece& text, const RE2& re, const StringPiece& rewrite, std::string* out);
  static std::string QuoteMeta(const StringPiece& unquoted);

  template <typename... A>
  static bool FullMatch(const StringPiece& text, const RE2& re, A&&... a) {
    return Apply(FullMatchN, text, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool PartialMatch(const StringPiece& text, const RE2& re, A&&... a) {
    return Apply(PartialMatchN, text, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool Consume(StringPiece* input, const RE2& re, A&&... a) {
    return Apply(ConsumeN, input, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool FindAndConsume(StringPiece* input, const RE2& re, A&&... a) {
    return Apply(FindAndConsumeN, input, re, Arg(std::forward<A>(a))...);
  }

 private:
  template <typename F, typename SP>
  static bool Apply(F f, SP sp, const RE2& re) {
    return f(sp, re, nullptr, 0);
  }
  template <typename F, typename SP, typename... A>
  static bool Apply(F f, SP sp, const RE2& re, const A&... a) {
    const Arg* const args[] = {&a...};
    return f(sp, re, args, sizeof...(a));
  }
  alignas(16) unsigned char storage_[2048];
};
}  // namespace re2
using re2::RE2;
#endif
