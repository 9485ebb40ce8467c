A,S,T,P,L,Y,M,G="ast.cc","stl.cc","stl-to-ps.cc","ps.cc","lexer.l","parser.y","stl-to-ps-main.cc","geo.h"
B=[
("4a","C01",L,r"[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)",r"[-+]?([0-9]+(\.[0-9]+)?|\.[0-9]+)"),
("4b","C01",L,r"""\\['"?\\n])*\"  {""",r"""\\['"?\\nr])*\"  {"""),
("4c","C01",L,r"\/\/.*      ;",r"\/\/[^\r\n]*      ;"),
("4d","C01 C07",Y,"1 << 24","1 << 20"),
("4e","C02",A,"if (ps.size() >= 3) return true;","if (ps.size() >= 2) return true;"),
("4f","C02 C15",S,"  if (facets.empty()) return {Eigen::RowVector2d{0, 0}, {0, 0}};\n",""),
("4g","C12",S,"    line_number++;\n\n    // Ignore","    line_number++;\n    if (!line.empty() && line.back() == '\\r') line.pop_back();\n    // Ignore"),
("4h","C12",S,"R\"( *vertex +(","R\"( *vertex *("),
("4i","C12",S,"R\"( *endfacet *)\"","R\"( *endfacet.*)\""),
("4j","C16 C17",S,"      return (p.first - l.first).squaredNorm() <\n             (p.first - r.first).squaredNorm();","      return (p.first - l.second).squaredNorm() <\n             (p.first - r.second).squaredNorm();"),
("4k","C16 C17",S,"if (!(-kEps <= i && i <= 1 + kEps && -kEps","if (!(0 <= i && i <= 1 && -kEps"),
("4l","C17",S,"constexpr double kEps = 1e-9;\n  int i = 0","constexpr double kEps = 1e-2;\n  int i = 0"),
("4m","C18",S,"if (n.dot(norm) < 0) {","if (n.dot(norm) <= 0) {"),
("4n","C19",T,"if (dir == geo::point::zero) {\n    SYM_ERROR(*p_dir) << \"Dimen","if (dir.norm() < 1e-3) {\n    SYM_ERROR(*p_dir) << \"Dimen"),
("4o","C20",T,"if (std::abs(c.z()) <= 1e-9 *","if (std::abs(c.z()) <= 1e-3 *"),
("4p","C11",T,"float text_at = 784 - name.size() * ps::kFontSize * 0.6;","float text_at = 784 - name.find_last_not_of(' ') * ps::kFontSize * 0.6 - 4.8;"),
("4r","C13",T,"if (model.rdstate() == std::ios_base::goodbit) break;","if (model.rdstate() == std::ios_base::goodbit && model.peek() != EOF) break; if (model.is_open()) model.close();"),
("4s","C03",T,"absl::StrSplit(text.text, \"\\n\")","absl::StrSplit(text.text, absl::MaxSplits('\\n', 60))"),
("4t","C15",T,"proj.scale = 72.0 * scales.first / scales.second;","proj.scale = static_cast<int>(72 * scales.first) / double(scales.second);"),
("4u","C07 C14",A,"auto found = kViews.find(s);","auto found = kViews.find(s.size() == 1 ? s + '+' : s);"),
("4v","C22",A,"double r = std::numeric_limits<double>::max();","double r = 1e6;"),
("4w","C14",A,"geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180)","geo::Rotate(std::round(a.x() * 100) / 100 * geo::PI / 180, a.y() * geo::PI / 180)"),
("4x","C21",T,"Eigen::RowVector2d target = {target3.x(), target3.y()};","Eigen::RowVector2d target = {target3.x(), target3.y()};\n  if (target3.z() > 1e3) target = {0, 0};"),
("4y","C26 C20",T,"a.r *= proj.scale;","a.r = std::min(a.r * proj.scale, 792.0);"),
("4z","C04",A,"      {\"Z+\", geo::matrix::ZP}","      {\"Z\", geo::matrix::ZP}, {\"Z+\", geo::matrix::ZP}"),
]
