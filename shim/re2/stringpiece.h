#ifndef VERIF_SHIM_RE2_STRINGPIECE_H_
#define VERIF_SHIM_RE2_STRINGPIECE_H_
#include <cstddef>
#include <string>
#include <string_view>
namespace re2 {
class StringPiece {  // same layout as libre2.so.10's
 public:
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s) : data_(s), size_(s ? std::char_traits<char>::length(s) : 0) {}
  StringPiece(const char* s, size_t n) : data_(s), size_(n) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  size_t length() const { return size_; }
  bool empty() const { return size_ == 0; }
  const char* begin() const { return data_; }
  const char* end() const { return data_ + size_; }
  char operator[](size_t i) const { return data_[i]; }
  std::string ToString() const { return std::string(data_ ? data_ : "", size_); }
  std::string as_string() const { return ToString(); }
  operator std::string_view() const { return {data_, size_}; }
  explicit operator std::string() const { return ToString(); }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }

 private:
  const char* data_;
  size_t size_;
};
}  // namespace re2
#endif
