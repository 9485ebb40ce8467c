import subprocess,sys,os
def clone(n):
    subprocess.run(["rm","-rf","/tmp/refac/"+n]); subprocess.run(["git","clone","-q","/repo","/tmp/refac/"+n],check=True)
def ed(n,f,*prs):
    p="/tmp/refac/%s/stl-to-ps/%s"%(n,f); s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,a,s.count(a)); s=s.replace(a,b)
    open(p,"w").write(s)
clone("r1")
p="/tmp/refac/r1/stl-to-ps/stl.cc"; s=open(p).read()
i=s.index("      // check if the ends of ev are hidden by f"); j=s.index("      // Find places where this edge cosses this face")
s=s[:i]+'''      // check if the ends of ev are hidden by f
      for (const Eigen::RowVector3d* end : {&ev.second, &ev.first}) {
        if (!HiddenBy(f, *end)) continue;
        hidden_points[idx++] = {*end, (ev.first - *end).squaredNorm()};
      }

'''+s[j:]
s=s.replace('''    const auto e01 = f.edge[1] - f.edge[0];
    const auto e12 = f.edge[2] - f.edge[1];
    const auto e20 = f.edge[0] - f.edge[2];
''','')
s=s.replace('''std::vector<geo::Line> STLFile::ToLines() const {''','''namespace {
bool HiddenBy(const Facet& f, const Eigen::RowVector3d& p) {
  if (!(p.dot(f.norm) < f.r)) return false;
  for (int i = 0; i < 3; i++) {
    const auto& a = f.edge[i];
    const auto& b = f.edge[(i + 1) % 3];
    const double side = (b.x() - a.x()) * (p.y() - a.y()) - (b.y() - a.y()) * (p.x() - a.x());
    if (side < 0) return false;
  }
  return true;
}
}  // namespace

std::vector<geo::Line> STLFile::ToLines() const {''')
i=s.index("void STLFile::CullBackFace() {"); j=s.index("geo::Line STLFile::Limits()")
s=s[:i]+'''void STLFile::CullBackFace() {
  constexpr double kEps = 1e-9;
  std::vector<Facet> front;
  for (const auto& f : facets) {
    if (f.norm.z() > kEps) front.push_back(f);
  }
  facets.clear();
  for (const auto& f : front) facets.push_back(f);
}

'''+s[j:]
i=s.index("  Eigen::RowVector3d minp = facets[0].edge[0];"); j=s.index("  return {minp, maxp};")
s=s[:i]+'''  Eigen::RowVector3d minp = facets[0].edge[0], maxp = minp;
  for (const auto& f : facets) {
    for (int i = 2; i >= 0; --i) {
      minp = minp.cwiseMin(f.edge[i]);
      maxp = maxp.cwiseMax(f.edge[i]);
    }
  }
'''+s[j:]
s=s.replace('''    AddEdge(f.edge[0], f.edge[1], i);
    AddEdge(f.edge[1], f.edge[2], i);
    AddEdge(f.edge[2], f.edge[0], i);
''','''    for (int k = 0; k < 3; ++k) AddEdge(f.edge[k], f.edge[(k + 1) % 3], i);
''')
s=s.replace("std::sort(hides","std::stable_sort(hides")
open(p,"w").write(s)
clone("r2")
p="/tmp/refac/r2/stl-to-ps/ast.cc"; s=open(p).read()
i=s.index("  double r = std::numeric_limits<double>::max();\n\n  for (auto x : ps)"); j=s.index("namespace point_impl {")
s=s[:i]+'''  const auto dist = [&target](const Eigen::RowVector3d& p) {
    return std::pow(p.x() - target.x(), 2) + std::pow(p.y() - target.y(), 2);
  };
  auto best = ps.begin();
  for (auto it = std::next(best); it != ps.end(); ++it) {
    if (dist(*it) < dist(*best)) best = it;
  }
  *ret = Eigen::RowVector3d{best->x(), best->y(), 0};
  return true;
}

'''+s[j:]
i=s.index("std::vector<Eigen::RowVector2d> Between("); 
s=s.replace('''  for (const auto& p : ps) {
    double r2 = (p - to).squaredNorm();
    if (min * min < r2 && r2 < max * max) ret.emplace_back(p);
  }
''','''  const double low = min * min, high = max * max;
  std::copy_if(ps.begin(), ps.end(), std::back_inserter(ret),
               [&](const Eigen::RowVector2d& p) {
                 const double r2 = (p - to).squaredNorm();
                 return !(r2 <= low) && !(r2 >= high);
               });
''')
open(p,"w").write(s)
clone("r3")
ed("r3","parser_support.cc",('''  const char* fn = filename ? filename->c_str() : "??";
  if (bl == el) {
    fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //
            fn, bl, bc, ec, msg.c_str());
  } else {
    fprintf(stderr, "error %s:%d:%d to %d:%d: %s\\n",  //
            fn, bl, bc, el, ec, msg.c_str());
  }
''','''  std::ostringstream where;
  where << "error " << (filename ? filename->c_str() : "??") << ":" << bl << ":";
  if (bl == el)
    where << "[" << bc << "," << ec << "]";
  else
    where << bc << " to " << el << ":" << ec;
  where << ": " << msg.c_str() << "\\n";
  std::fputs(where.str().c_str(), stderr);
'''),('#include "stl-to-ps/parser_support.h"\n','#include "stl-to-ps/parser_support.h"\n\n#include <cstdio>\n#include <sstream>\n'))
ed("r3","lexer.l",("\\/\\/.*      ;",'"//"[^\\n]*      ;'),("[ \\t\\n\\r]    ;","[ \\t\\n\\r]+    ;"))
p="/tmp/refac/r3/stl-to-ps/ps.cc"; s=open(p).read()
i=s.index("void LinesToPs("); j=s.index("std::string Escape(")
s=s[:i]+'''namespace {
void Put(const geo::Line& l, std::ostream& out) {
  out << "newpath " << l.o.x() << " " << l.o.y() << " moveto " << l.t.x() << " "
      << l.t.y() << " lineto stroke\\n";
}
}  // namespace

void LinesToPs(const std::vector<geo::Line>& lines, std::ostream& out) {
  for (auto it = lines.begin(); it != lines.end(); ++it) Put(*it, out);
}

void ArcToPs(const std::vector<geo::Arc>& arcs, std::ostream& out) {
  for (const auto& a : arcs) {
    const double deg = 180 / geo::PI;
    out << "newpath " << a.center.x() << " " << a.center.y() << " " << a.r << " "
        << a.start * deg << " " << a.end * deg << " arc stroke\\n";
  }
}

'''+s[j:]
open(p,"w").write(s)
ed("r3","stl-to-ps.cc",('''    ps::TextToPs(page.text, out);
    ps::ArcToPs(page.arcs, out);
    ps::LinesToPs(page.lines, out);
''','''    ps::LinesToPs(page.lines, out);
    ps::ArcToPs(page.arcs, out);
    ps::TextToPs(page.text, out);
'''),('''    std::ifstream model;
    if (file.find('/') == 0) {
      model.open(file, std::ios::in);
    } else {
      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
    }
    if (model.rdstate() != std::ios_base::goodbit) {''','''    std::ifstream model;
    if (!OpenModel(file, load_paths, &model)) {'''),('''bool LoadFiles(const Document& doc,
               std''','''namespace {
bool OpenModel(const std::string& file, const std::vector<std::string>& paths,
               std::ifstream* model) {
  std::vector<std::string> names;
  if (!file.empty() && file[0] == '/') {
    names.push_back(file);
  } else {
    for (const auto& p : paths) names.push_back(p + "/" + file);
  }
  for (const auto& n : names) {
    *model = std::ifstream(n);
    if (model->is_open()) return true;
  }
  return false;
}
}  // namespace

bool LoadFiles(const Document& doc,
               std'''),('''  for (auto l : lines) {
    l.o *= proj.scale;
    l.t *= proj.scale;
    l.o += proj.d;
    l.t += proj.d;

    current_page->lines.push_back(l);
  }''','''  for (const auto& l : lines) {
    current_page->lines.emplace_back(
        Eigen::RowVector2d{proj.scale * l.o + proj.d},
        Eigen::RowVector2d{proj.scale * l.t + proj.d});
  }'''))
