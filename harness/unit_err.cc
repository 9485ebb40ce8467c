// The parser's error reporter.
#include "unit_common.h"

#include "stl-to-ps/parser_support.h"

namespace {
Reg err("error", [](const Fields& f) -> Fields {
  int v[4];
  for (int i = 0; i < 4; i++) v[i] = (int)strtol(f[3 + i].c_str(), nullptr, 10);
  const std::string name = f[2];
  stl2ps::error(f[1] == "1" ? &name : nullptr, v[0], v[1], v[2], v[3], f[7]);
  return {};
});
}  // namespace
