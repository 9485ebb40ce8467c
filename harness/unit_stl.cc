// STL reading and line generation.
#include "unit_common.h"

#include "stl-to-ps/stl.h"

namespace {
std::vector<stl2ps::Edge> Edges(const std::string& s) {
  auto v = Nums(s);
  std::vector<stl2ps::Edge> r;
  for (size_t i = 0; i + 5 < v.size(); i += 6)
    r.push_back({Eigen::RowVector3d{v[i], v[i + 1], v[i + 2]},
                 Eigen::RowVector3d{v[i + 3], v[i + 4], v[i + 5]}});
  return r;
}
Reg points("points", [](const Fields& f) -> Fields {
  std::istringstream in(f[1]);
  auto m = stl2ps::STLFile::Make(in);
  if (!m) return {"0", ""};
  std::string o;
  for (const auto& p : m->Points())
    o += Str(p.x()) + " " + Str(p.y()) + " " + Str(p.z()) + " ";
  return {"1", o};
});
Reg gen("genlines", [](const Fields& f) -> Fields {
  // show, unseen, min_len, edges, then one field of spans per edge
  std::map<int, std::vector<stl2ps::Edge>> hides;
  for (size_t i = 5; i < f.size(); i++)
    if (!f[i].empty()) hides[i - 5] = Edges(f[i]);
  auto r = stl2ps::GenerateLines(f[1] == "1", atoi(f[2].c_str()),
                                 strtod(f[3].c_str(), nullptr), Edges(f[4]), hides);
  std::string o;
  for (const auto& l : r)
    o += Str(l.o.x()) + " " + Str(l.o.y()) + " " + Str(l.t.x()) + " " + Str(l.t.y()) + " ";
  return {o};
});
}  // namespace
