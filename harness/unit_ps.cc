// Page primitives.
#include "unit_common.h"

#include "stl-to-ps/geo.h"
#include "stl-to-ps/ps.h"

namespace {
using P2 = Eigen::RowVector2d;
Reg doc("doc", [](const Fields& f) -> Fields {
  std::ostringstream o;
  ps::DocumentHeader(f[1], o);
  return {o.str()};
});
// items: kind then numbers / text, each call to one of the functions gets a run
Reg prims("prims", [](const Fields& f) -> Fields {
  std::ostringstream o;
  for (size_t i = 1; i < f.size();) {
    std::string k = f[i++];
    int n = atoi(f[i++].c_str());
    if (k == "lines") {
      std::vector<geo::Line> v;
      for (int j = 0; j < n; j++) {
        auto a = Nums(f[i++]);
        v.push_back(geo::Line{P2{a[0], a[1]}, P2{a[2], a[3]}});
      }
      ps::LinesToPs(v, o);
    } else if (k == "arcs") {
      std::vector<geo::Arc> v;
      for (int j = 0; j < n; j++) {
        auto a = Nums(f[i++]);
        v.push_back(geo::Arc{P2{a[0], a[1]}, a[2], a[3], a[4]});
      }
      ps::ArcToPs(v, o);
    } else if (k == "texts") {
      std::vector<ps::Text> v;
      for (int j = 0; j < n; j++) {
        auto a = Nums(f[i++]);
        ps::Text t;
        t.at = P2{a[0], a[1]};
        t.center = a[2] != 0;
        t.str = f[i++];
        v.push_back(t);
      }
      ps::TextToPs(v, o);
    }
  }
  return {o.str()};
});
}  // namespace
