// Point selection and circle fitting.
#include "unit_common.h"

#include "stl-to-ps/ast.h"
#include "stl-to-ps/center.h"

namespace {
using P2 = Eigen::RowVector2d;
std::vector<P2> Pts(const std::string& s) {
  auto v = Nums(s);
  std::vector<P2> r;
  for (size_t i = 0; i + 1 < v.size(); i += 2) r.push_back(P2{v[i], v[i + 1]});
  return r;
}
std::string Out(const std::vector<P2>& v) {
  std::string o;
  for (const auto& p : v) o += Str(p.x()) + " " + Str(p.y()) + " ";
  return o;
}

Reg closest("closest", [](const Fields& f) -> Fields {
  return {Out(stl2ps::point_impl::Closest(Pts(f[1]), atoi(f[2].c_str()), Pts(f[3])[0]))};
});
Reg between("between", [](const Fields& f) -> Fields {
  auto r = Nums(f[2]);
  return {Out(stl2ps::point_impl::Between(Pts(f[1]), r[0], r[1], Pts(f[3])[0]))};
});
Reg circle("circle", [](const Fields& f) -> Fields {
  P2 c{0, 0};
  double r = 0;
  bool ok = stl2ps::FindCircle(Pts(f[1]), &c, &r);
  return {ok ? "1" : "0", Str(c.x()) + " " + Str(c.y()) + " " + Str(r)};
});
}  // namespace
