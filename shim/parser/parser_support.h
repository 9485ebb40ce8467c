// Stand-in for @bazel_rules//parser:parser_support.  The real one is the
// descendant of /repo/stl-to-ps/parser_support.{h,cc}; this one reports through
// that in-tree implementation, so the reported text is the repository's own.
#ifndef VERIF_SHIM_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_SUPPORT_H_
#include <string>

#include "stl-to-ps/parser_support.h"

namespace parser_support {
struct ScannerExtra {
  std::string* filename = nullptr;
};
template <class L>
void Error(const L& loc, const std::string& msg, ScannerExtra* extra) {
  const std::string* fn =
      loc.begin.filename ? loc.begin.filename : (extra ? extra->filename : nullptr);
  ::stl2ps::error(fn, loc.begin.line, loc.begin.column, loc.end.line,
                  loc.end.column, msg);
}
}  // namespace parser_support
#endif
