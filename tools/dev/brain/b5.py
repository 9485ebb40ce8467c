A,S,T,P,L,Y,M,G,H,C,U="ast.cc","stl.cc","stl-to-ps.cc","ps.cc","lexer.l","parser.y","stl-to-ps-main.cc","geo.h","ast.h","center.cc","parser_support.cc"
B=[
("5a","C01",L,"[a-zA-Z_][a-zA-Z0-9_]*  ","[a-zA-Z_][a-zA-Z0-9_]{0,47}  "),
("5b","C03",L,"NewQuote(std::string(yytext, yyleng))","NewQuote(std::string(yytext, std::min<size_t>(yyleng, 65535)))"),
("5c","C07",T,"if (scales.first <= 0 || scales.second <= 0)","if (scales.first * scales.second <= 0)"),
("5d","C14",G,"PI = 3.1415926535897932","PI = 3.14159265"),
("5e","C12 C18",S,"      if (norm == geo::point::zero) {","      if (norm.norm() < 1e-6) {"),
("5f","C11",P,"  if (absl::GetFlag(FLAGS_number_pages)) {","  if (absl::GetFlag(FLAGS_number_pages) && pages > 1) {"),
("5g","C08",P,", {\"\\f\", \" \"}",""),
("5h","C19",T,"ps::kFontSize * 0.3 * t.str.length() + 1;","ps::kFontSize * 0.3 * std::min<size_t>(t.str.length(), 16) + 1;"),
("5i","C19",T,"if (gap * 2 < dim_value * proj.scale) {","if (gap * 2 < dim_value * 72) {"),
("5j","C21",T,"ps::kFontSize * 0.3 * (value.length() + 2)","ps::kFontSize * 0.3 * (value.length() + 5)"),
("5k","C21",T,"t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() + 2)) / proj.scale;","t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() + 2)) / 72;"),
("5l","C22",A,"  if (ps.find(target) != ps.end()) {\n    *ret = target;\n    return true;\n  }\n",""),
("5m","C22",A,"target = {target.x(), target.y(), 0};","target = {target.x(), target.y(), target.z()};"),
("5n","C23 C22",A,"const double same = size * 1e-10;","const double same = size * 1e-4;"),
("5o","C23 C21",C,"> 1e-12 * (xx + yy) * (xx + yy)","> 1e-6 * (xx + yy) * (xx + yy)"),
("5p","C26",P,"a.end * 180 / geo::PI);","(a.end < a.start ? a.end + 2 * geo::PI : a.end) * 180 / geo::PI);"),
("5q","C20 C26",P,"  for (const auto& a : arcs) {","  for (const auto& a : arcs) {\n    if (a.end - a.start < 0.01 && a.end > a.start) continue;"),
("5r","C27 C16",S,"        d = n;\n        from = hid.second;","        d = n;\n        from = hid.second;\n        if (ret.size() > 4000) break;"),
("5s","C16 C17",S,"if ((x0 >= 0) && (x1 >= 0) && (x2 >= 0)) {\n          hidden_points[idx++] = {ev.second","if ((x0 > 0) && (x1 > 0) && (x2 > 0)) {\n          hidden_points[idx++] = {ev.second"),
("5t","C16 C17",S,"if (ev.first.dot(f.norm) < f.r) {","if (ev.first.dot(f.norm) < f.r && idx < 2 && (ev.first.z() < std::max({f.edge[0].z(), f.edge[1].z(), f.edge[2].z()}))) {"),
("5u","C16 C17",S,"if (ev.first.dot(f.norm) < f.r) {","if (ev.first.dot(f.norm) < f.r - 1e-3) {"),
("5v","C18 C17",S,"      if (ang < min_ang) continue;","      if (ang < min_ang || facets.size() == 2) continue;"),
("5w","C24",U,"if (bl == el) {","if (bl == el && bc <= ec) {"),
("5x","C25",T,"  absl::ParsedFormat<'f'> fmt{\"%.1f\"};\n  if (p_fmt) {\n    std::string fmt_str;","  absl::ParsedFormat<'f'> fmt{\"%.1f\"};\n  if (p_fmt) {\n    std::string fmt_str;\n    fmt_str.reserve(8);",),
("5y","C06",T,"    if (!added.first->second) {\n      SYM_ERROR(doc_model)","    if (!added.first->second) {\n      if (ok) SYM_ERROR(doc_model)"),
("5z","C13",T,"if (file.find('/') == 0) {","if (file.find('/') == 0 || file.find(\"../\") == 0) {"),
("5A","C13",T,"absl::GetFlag(FLAGS_load_path), ','","absl::GetFlag(FLAGS_load_path), absl::MaxSplits(',', 8)"),
("5B","C13 C12",T,"if (model.rdstate() == std::ios_base::goodbit) break;","if (model.rdstate() == std::ios_base::goodbit) break;\n        if (&p == &load_paths.back()) model.clear(std::ios_base::failbit);"),
("5C","C10 C09",A,"      {\"X+\", geo::matrix::XP}","      {\"X+\", geo::matrix::XP}, {\"ISO\", geo::Rotate(.78, .61)}"),
("5D","C05",M,"  if (!out) {","  if (out.bad()) {"),
("5E","C05",M,"  out.close();\n  if (!out) {","  bool good = !!out;\n  out.close();\n  if (!good) {"),
("5F","C09 C15",T,"      std::max(current_page->lines.capacity(),\n               current_page->lines.size() + lines.size()));\n  for (auto l : lines) {","      std::max(current_page->lines.capacity(),\n               current_page->lines.size() + lines.size()));\n  for (auto l : lines) {\n    if (!current_page->lines.empty() && (current_page->lines.back().o - (l.o * proj.scale + proj.d)).norm() + (current_page->lines.back().t - (l.t * proj.scale + proj.d)).norm() < 1e-3) continue;"),
("5G","C02",A,"  for (auto p = std::move(p_); p;) {\n    auto* arg = p->Argument();\n    p = arg ? std::move(*arg) : nullptr;\n  }","  p_.reset();"),
("5H","C04 C01",L,"[ \\t\\n\\r]    ;","[ \\t\\n\\r\\f]    ;"),
("5I","C15 C03",T,"    t.at += loc * 72.0;","    t.at += (loc * 72.0).array().round().matrix();"),
("5J","C15",T,"    loc *= 72.0;","    loc *= 72.0;\n    if (loc.norm() > 792) loc *= 792 / loc.norm();"),
("5K","C20",T,"if (c.z() > 0) {","if (c.z() > 1e-6) {"),
("5L","C20",T,"  double l = (at - apex).norm();","  double l = Eigen::RowVector2d{(at - apex).x(), (at - apex).y()}.norm();"),
]
