A,S,T,P,L,Y,M,G,H,C,U="ast.cc","stl.cc","stl-to-ps.cc","ps.cc","lexer.l","parser.y","stl-to-ps-main.cc","geo.h","ast.h","center.cc","parser_support.cc"
B=[
("6a","C16 C17",S,"const double tol = kEps * (du.norm() + dv.norm());","const double tol = 1e-6;"),
("6b","C17 C16",S,"constexpr double kEps = 1e-9;\n  int i = 0","constexpr double kEps = 1e-4;\n  int i = 0"),
("6c","C16",S,"      const auto& ev = edges[v];\n      using PD","      const auto& ev = edges[v];\n      if (ev.first == f.edge[0] || ev.first == f.edge[1] || ev.first == f.edge[2]) continue;\n      using PD"),
("6d","C11",T,"float text_at = 784 - name.size() * ps::kFontSize * 0.6;","float text_at = std::max(5., 784 - name.size() * ps::kFontSize * 0.6);"),
("6e","C11 C28",P,"  const static auto ret = [] {","  static int n; if (++n > 40) return std::string(\"\");\n  const static auto ret = [] {"),
("6f","C13",T,"absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());","absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());\n      for (auto& x : r) x = std::string(absl::StripAsciiWhitespace(x));"),
("6g","C12",S,"    line_number++;\n","    line_number++;\n    if (line_number == 1 && line.compare(0, 3, \"\\xef\\xbb\\xbf\") == 0) line.erase(0, 3);\n"),
("6h","C12",S,"    line_number++;\n","    line_number++;\n    if (!line.empty() && line[0] == '#') continue;\n"),
("6i","C12",S,"R\"( *vertex +(","R\"(\\s*vertex +("),
("6j","C12",S,"    line_number++;\n","    line_number++;\n    if (line.find_first_not_of(' ') == std::string::npos) continue;\n"),
("6k","C28 C08",P,"% Source: $1\n","% Source: )\" + src + R\"(\n"),
("6l","C26",P,"l.o.x(), l.o.y(), l.t.x(), l.t.y());","std::round(l.o.x() * 1e3) / 1e3, l.o.y(), l.t.x(), l.t.y());"),
("6m","C04 C13",T,"    std::string name = doc_model.name, file = doc_model.source;","    std::string name = doc_model.name, file = doc_model.source;\n    for (auto& o : *stl_files) if (absl::EqualsIgnoreCase(o.first, name)) name = o.first;"),
("6n","C23",A,"if (count < 1) return {};","if (count < 1) count = 1;"),
("6o","C23 C22",A,"  return ret;\n}\n\n}  // namespace point_impl","  if (ret.size() > 64) ret.resize(64);\n  return ret;\n}\n\n}  // namespace point_impl"),
("6p","C11 C08 C09",P,"void PageHeader(int num, int pages,","void PageHeader(signed char num, int pages,"),
("6q","C26",P,"a.end * 180 / geo::PI);","std::fmod(a.end * 180 / geo::PI, 360));"),
("6r","C05",M,"  if (!out) {","  if (!out && ret && false) {"),
("6s","C05",M,"(std::ios::out | std::ios::trunc)","(std::ios::in | std::ios::out | std::ios::trunc)"),
("6t","C22",A,"    double d = (target - x).squaredNorm();\n    if (r > d) {","    float d = (target - x).squaredNorm();\n    if (r > d) {"),
("6u","C21",T,"  Eigen::RowVector2d direct = at - center;\n  double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());\n  if (len > r) {\n    Eigen::RowVector2d c","  Eigen::RowVector2d direct = at - center;\n  double len = std::max(direct.x() / dir.x(), direct.y() / dir.y());\n  if (len > r) {\n    Eigen::RowVector2d c"),
("6v","C15 C09",T,"  proj.scale = 72.0 * scales.first / scales.second;","  if (scales.first > 1 || scales.second > 1 || proj.scale == 0) proj.scale = 72.0 * scales.first / scales.second;"),
("6w","C24",U,"if (bl == el) {","if (static_cast<short>(bl) == static_cast<short>(el)) {"),
("6x","C06 C24",L,"    loc->begin.line = loc->end.line = line;          \\","    loc->begin.line = loc->end.line = line & 0xffff;  \\"),
("6y","C20",T,"std::acos(std::max(-1.0, std::min(1.0, cos)))","std::acos(float(std::max(-1.0, std::min(1.0, cos))))"),
("6z","C19",T,"double dim_value = length.norm();","float dim_value = length.norm();"),
("6A","C25",T,"t.str = absl::StrCat(absl::StrFormat(fmt, ang), \" deg\");","t.str = absl::StrCat(absl::StripAsciiWhitespace(absl::StrFormat(fmt, ang)), \" deg\");"),
("6B","C02 C12",S,"  if (in_facet) {\n    LOG(ERROR)","  if (in_facet && points.size() < 3) {\n    LOG(ERROR)"),
("6C","C12",S,"      in_facet = true;\n      norm = {x, y, z};\n      points.clear();","      in_facet = true;\n      norm = {x, y, z};"),
("6D","C18 C16",S,"  r = (norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[2])) / 3;","  r = float((norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[2])) / 3);"),
("6E","C03",A,"        case 'n':\n","        case 'n':\n          if (f + 2 == ret.length()) { t--; break; }\n"),
]
