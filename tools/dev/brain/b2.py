L="lexer.l";Y="parser.y";A="ast.cc";AH="ast.h";G="geo.cc";GH="geo.h";C="center.cc";S="stl.cc";P="ps.cc";M="stl-to-ps-main.cc";T="stl-to-ps.cc";PC="parser.cc";PS="parser_support.cc";I="stl-to-ps-impl.h"
B=[
("9a","C09",T,"  points_ = file.Points();","  for (const auto& p : file.Points()) points_.insert(p);"),
("9b","C09",T,"  t.at += Eigen::RowVector2d{792 / 2, 612 / 2};\n","  t.at += Eigen::RowVector2d{792 / 2, 612 / 2};\n  if (current_page->text.size() > 3) t.at.y() -= 1;\n"),
("9c","C09",T,"    visitor.set_current_page(&current_page);","    if (pages->size() < 5) visitor.set_current_page(&current_page);"),
("9d","C09",T,"  proj.d = loc - (page_limit.o + page_limit.t) / 2 * proj.scale;","  if (current_page->arcs.empty()) proj.d = loc - (page_limit.o + page_limit.t) / 2 * proj.scale;"),
("9e","C09",T,"    current_page->lines.push_back(l);","    if (current_page->lines.size() < 512) current_page->lines.push_back(l);"),
("9f","C09",T,"    current_page->arcs.push_back(a);","    bool dup = false;\n    for (const auto& b : current_page->arcs) dup |= b.center == a.center && b.r == a.r;\n    if (!dup) current_page->arcs.push_back(a);"),
("9g","C09",P,"  for (const auto t : text) {","  for (auto t : text) {\n    if (text[0].center) t.center = true;"),
("9h","C09",T,"  Eigen::RowVector2d loc = {0, 0};\n  if (auto at = Take(\"@\", &seen)) {\n    CHECK(at->As(&loc)) << at->type_name();\n    loc *= 72.0;","  static Eigen::RowVector2d loc = {0, 0};\n  if (auto at = Take(\"@\", &seen)) {\n    CHECK(at->As(&loc)) << at->type_name();\n    loc *= 72.0;"),
("9i","C09",T,"  rotation_ = rotation;","  if (!dims.empty()) rotation_ = rotation_.isZero() ? rotation : rotation * 1.0;"),
("9j","C09",T,"    ps::ArcToPs(page.arcs, out);\n    ps::LinesToPs(page.lines, out);","    if (!page.arcs.empty()) ps::ArcToPs(pages[page_number - 1].arcs, out);\n    ps::LinesToPs(page.lines.size() > 300 ? std::vector<geo::Line>(page.lines.begin(), page.lines.begin() + 300) : page.lines, out);"),
("10a","C10",T,"    static auto& load_paths","    static int tries = 0; if (++tries > 40) LOG(INFO) << tries;\n    static auto& load_paths"),
("10b","C10",PC,"  stl2psset_lineno(1, scanner);\n","  static int base = 1; stl2psset_lineno(base, scanner); if (file.size() > 500) base = 2;\n"),
("10c","C10",S,"int line_number = 0, solid = 0, loop = 0;","static int line_number; int solid = 0, loop = 0; if (in.peek() == 's') line_number = 0;"),
("10d","C10",P,"  const static auto ret = [] {","  const auto ret = [] {"),
("10e","C10",T,"  ps::Text title;\n","  static ps::Text title;\n  if (name.size() > 60) title.center = true;\n"),
("10f","C10",T,"  DrawToPage visitor{stl_files};\n","  static DrawToPage visitor{stl_files};\n"),
("10g","C10",S,"  std::map<Edge, int, EdgeOrder> dd;","  static std::map<Edge, int, EdgeOrder> dd; if (dd.size() > 1000) dd.clear(); dd.clear();"),
("10h","C10",S,"  fesetenv(&env);  // return to the inital FP state\n","  fesetenv(&env); if (facets.size() > 20) std::fesetround(FE_UPWARD);\n"),
("11a","C11",T,"float text_at = 784 - name.size()","float text_at = 784 - std::min<size_t>(name.size(), 100)"),
("11b","C11",P,'absl::StrCat("page ", num, " of ", pages)','absl::StrCat("page ", num < 10 ? " " : "", num, " of ", pages)'),
("11c","C11",P,'absl::StrJoin(meta, " ")','absl::StrJoin(meta, ", ")'),
("11d","C11",P,"  if (!meta.empty()) {","  {"),
("11e","C11",T,"  title.str = name;","  title.str = name.substr(0, name.find('\\n'));"),
("11f","C11",T,"float text_at = 784 - name.size()","float text_at = 784 - ps::Escape(name).size()"),
("11g","C11",T,"ps::PageHeader(++page_number, pages.size(), out);","ps::PageHeader(++page_number, std::max<int>(pages.size(), 1) , out);\n    if (page.text.size() == 7) page_number--;"),
("11h","C11",P,"if (absl::GetFlag(FLAGS_number_pages)) {","if (absl::GetFlag(FLAGS_number_pages) && pages > 1) {"),
("11i","C11",T,"current_page.AddHeader(page_name,","if (ok) current_page.AddHeader(page_name,"),
("11j","C11",T,"std::string page_name = \"\";  // TODO","static std::string page_name;  // TODO"),
("12a","C12",S,"if (RE2::FullMatch(line, re_efacet)) {\n      in_facet = false;","if (RE2::FullMatch(line, re_efacet)) {\n      in_facet = points.empty() && norm == geo::point::zero;"),
("12b","C12",S,"if (norm == geo::point::zero) {","if (norm.norm() < 1e-6) {"),
("12c","C12",S,"} else if (points.size() != 3) {","} else if (points.size() < 3) {"),
("12d","C12",S,R"X" if False else 'R"( *(solid|endsolid)( .*)?)"','R"( *(solid|endsolid).*)"'),
("12e","C12",S,'R"( *(outer loop|endloop) *)"','R"( *(outer loop|endloop|end loop) *)"'),
("12f","C12",S,"  if (in.bad()) {","  if (solid > 8) {"),
("12g","C12",S,'    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {','    float fz; if (RE2::FullMatch(line, re_vertex, &x, &y, &fz)) { z = fz;'),
("12h","C12",S,'  while (std::getline(in, line)) {\n    line_number++;','  while (std::getline(in, line)) {\n    line_number++;\n    if (line.empty()) continue;'),
("12i","C12",S,'  while (std::getline(in, line)) {\n    line_number++;','  while (std::getline(in, line)) {\n    line_number++;\n    if (in.eof()) break;'),
("12j","C12",S,'      points.push_back({x, y, z});','      if (points.empty() || points.back() != Eigen::RowVector3d{x, y, z}) points.push_back({x, y, z});'),
("12k","C12",S,'  if (in_facet) {\n    LOG(ERROR) << line_number << ": Missing endfacet";\n    return nullptr;\n  }\n  LOG','  LOG'),
("12l","C12",S,'      points.push_back({x, y, z});','      if (std::abs(x) < 1e-9) x = 0;\n      points.push_back({x, y, z});'),
("12m","C12",S,'      norm = geo::point::zero;\n      points.clear();\n      continue;\n    }\n\n    static const auto& re_vertex','      points.clear();\n      continue;\n    }\n\n    static const auto& re_vertex'),
("13a","C13",T,"if (file.find('/') == 0) {","if (file.find('/') != std::string::npos) {"),
("13b","C13",T,"      r.insert(r.begin(), \".\");","      r.insert(r.end(), \".\");"),
("13c","C13",T,"if (model.rdstate() == std::ios_base::goodbit) break;",""),
("13d","C13",T,"',', absl::SkipEmpty());","',');"),
("13e","C13",T,'SYM_ERROR(doc_model) << "Failed to parse " << name << " \'" << file << "\'";\n      ok = false;\n      continue;','SYM_ERROR(doc_model) << "Failed to parse " << name << " \'" << file << "\'";\n      return false;'),
("13f","C13",T,"absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty())","absl::StrSplit(absl::GetFlag(FLAGS_load_path), absl::MaxSplits(',', 3), absl::SkipEmpty())"),
("13g","C13",T,"        model.open(p + \"/\" + file, std::ios::in);","        model.clear(); model.open(p + \"/\" + file, std::ios::in); if (file[0] == '.' && p != \".\") model.setstate(std::ios_base::failbit);"),
("13h","C13",T,"      SYM_ERROR(doc_model) << \"Modele '\" << name << \"' was already loaded\";\n      ok = false;","      SYM_ERROR(doc_model) << \"Modele '\" << name << \"' was already loaded\";"),
("13i","C13",T,"    if (model.rdstate() != std::ios_base::goodbit) {","    if (model.rdstate() != std::ios_base::goodbit && !load_paths.empty() && file[0] == '/') { model.clear(); model.open(load_paths.back() + file); }\n    if (model.rdstate() != std::ios_base::goodbit) {"),
("14a","C14",GH,"const Eigen::Matrix3d ZN = ByRow(point::x, -point::y, -point::z);","const Eigen::Matrix3d ZN = ByRow(-point::x, point::y, -point::z);"),
("14b","C14",GH,"const Eigen::Matrix3d XN = ByRow(-point::z, -point::x, point::y);","const Eigen::Matrix3d XN = ByRow(point::z, -point::x, point::y);"),
("14c","C14",A,"geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180)","geo::Rotate(std::fmod(a.x(), 180) * geo::PI / 180, a.y() * geo::PI / 180)"),
("14d","C14",A,"geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180)","geo::Rotate(a.x() * geo::PI / 180, std::abs(a.y()) * geo::PI / 180)"),
("14e","C14",G,"const double azm_sin = std::sin(-azm), azm_cos = std::cos(-azm);","const double azm_sin = std::sin(-azm), azm_cos = std::sqrt(1 - azm_sin * azm_sin);"),
("14f","C14",AH,"void Rotate(Eigen::Matrix3d rot) override { p_ = p_ * rot; }","void Rotate(Eigen::Matrix3d rot) override { p_ = p_ * rot.inverse().transpose().cast<float>().cast<double>(); }"),
("14g","C14",S,"    f.norm = f.norm * m;","    f.norm = f.norm * m.transpose();"),
("14h","C14",GH,"constexpr double PI = 3.1415926535897932;","constexpr double PI = 3.14159265;"),
("15a","C15",T,"72.0 * scales.first / scales.second","72.0 * (scales.first / float(scales.second)) "),
("15b","C15",T,"72.0 * scales.first / scales.second","72 * scales.first / scales.second"),
("15c","C15",T,"    loc += Eigen::RowVector2d{792 / 2, 612 / 2};","    loc += Eigen::RowVector2d{792 / 2 - .5, 612 / 2};"),
("15d","C15",S,"      maxp.y() = std::max(maxp.y(), e.y());","      maxp.y() = std::max(maxp.y(), f.edge[0].y());"),
("15e","C15",T,"  auto page_limit = projection.Limits();","  auto page_limit = file->second->Limits();"),
("15f","C15",T,"(page_limit.o + page_limit.t) / 2 * proj.scale;","(page_limit.o + page_limit.t) / 2 * std::min(proj.scale, 7200.f);"),
("15g","C15",T,"proj.scale = 72.0 * scales.first / scales.second;","proj.scale = 72.0 * scales.first / scales.second; if (proj.scale < 0.05) proj.scale = 0.05;"),
("16a","C16",S,"      edge_hides_list[v].emplace_back(p_min, p_max);","      if (f.norm.z() > 1e-3) edge_hides_list[v].emplace_back(p_min, p_max);"),
("16b","C16",S,"if (pu.z() <= pv.z() + tol)","if (pu.z() <= pv.z() - tol)"),
("16c","C16",S,"if (ev.second.dot(f.norm) < f.r) {","if (ev.second.dot(f.norm) < f.r - 1e-3) {"),
("16d","C16",S,"if ((x0 >= 0) && (x1 >= 0) && (x2 >= 0)) {\n          hidden_points[idx++] = {ev.first, 0};","if ((x0 > 0) && (x1 > 0) && (x2 > 0)) {\n          hidden_points[idx++] = {ev.first, 0};"),
("16e","C16 C17",S,"constexpr double kEps = 1e-9;\n      if (!","constexpr double kEps = 1e-3;\n      if (!"),
("16f","C16 C17",S,"std::abs(cross) <= 1e-9 *","std::abs(cross) <= 1e-2 *"),
("16g","C16",S,"  for (int v = 0; v < unseen; v++) {\n    const auto& ev = edges[v];\n    auto dv","  for (int v = 0; v < std::min(unseen, 400); v++) {\n    const auto& ev = edges[v];\n    auto dv"),
("17a","C17",S,"if ((v == edge_list[0]) || (v == edge_list[1]) || (v == edge_list[2])) {","if ((v == edge_list[0]) || (v == edge_list[1])) {"),
("17b","C17",S,"if (ev.first.dot(f.norm) < f.r) {","if (ev.first.dot(f.norm) <= f.r + 1e-3) {"),
("17c","C17",S,"const double tol = kEps * (du.norm() + dv.norm());","const double tol = 1e-2 * (du.norm() + dv.norm());"),
("17d","C17",S,"if (ang < min_ang) continue;","if (ang < min_ang || facets.size() > 60) continue;"),
("17e","C17",S,"kMinLineLen = 0;","kMinLineLen = 0.05;"),
("17f","C17",S,"  r = (norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[2])) / 3;","  r = norm.dot(edge[0]) + 1e-4;"),
("18a","C18",S,"  if (n.dot(norm) < 0) {","  if (n.normalized().dot(norm) < -0.999999) {"),
("18b","C18",S,"constexpr double min_ang = .98;","constexpr double min_ang = .985;"),
("18c","C18",S,": norm((e[1] - e[0]).cross(e[2] - e[0]).normalized()),",": norm(n.normalized()),"),
("18d","C18",S,"      edge_face[idx].second = f;","      if (edge_face[idx].second == edge_face[idx].first) edge_face[idx].second = f;"),
("18e","C18",S,"    if (geo::Order(r.first, l.first)) return false;\n    return geo::Order(l.second, r.second);","    if (geo::Order(r.first, l.first)) return false;\n    return l.second.x() < r.second.x() || (l.second.x() == r.second.x() && l.second.y() < r.second.y());"),
("18f","C18",S,"      if (a1 == a2) continue;  // leave","      if (a1 == a2 && facets[a1].norm.z() > .2) continue;  // leave"),
("18g","C18",S,"    swap(edge[0], edge[2]);\n    norm = norm * -1;","    norm = norm * -1;"),
("19a","C19",T,"double dim_value = length.norm();","double dim_value = Eigen::RowVector2d(length.x(), length.y()).norm();"),
("19b","C19",T,"double to_sign = to_at.dot(b) > 0 ? +1 : -1;","double to_sign = from_sign;"),
("19c","C19",T,"from - b * 2 * from_sign},","from - b * 2},"),
("19d","C19",T,"Eigen::RowVector3d arrow_to = at + dir * dir.dot(to_at);","Eigen::RowVector3d arrow_to = at + dir * std::abs(dir.dot(to_at));"),
("19e","C19",T,"if (gap * 2 < dim_value * proj.scale) {","if (gap < dim_value * proj.scale) {"),
("19f","C19",T,"    a = -a;\n",""),
("19g","C19",T,"std::min(std::abs(width / a.x()), std::abs(height / a.y()));","std::abs(width / a.x());"),
("19h","C19",T,"double width = ps::kFontSize * 0.3 * t.str.length() + 1;","double width = ps::kFontSize * 0.3 * 5 + 1;"),
("19i","C19",T,"  dir = dir.normalized();\n\n  absl::ParsedFormat<'f'> fmt{\"%.3f\"};\n  if (p_fmt) {\n    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << \"fmt argument for dim","  if (dir.norm() > 1) dir = dir.normalized();\n\n  absl::ParsedFormat<'f'> fmt{\"%.3f\"};\n  if (p_fmt) {\n    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << \"fmt argument for dim"),
("20a","C20",T,"double l = (at - apex).norm();","double l = Eigen::RowVector2d(at.x() - apex.x(), at.y() - apex.y()).norm();"),
("20b","C20",T,"  if (c.z() > 0) {","  if (c.z() > 0 || ok && c.z() < -.999) {"),
("20c","C20",T,"    swap(to_point, from_point);",""),
("20d","C20",T,"from_point = apex;","from_point = at;"),
("20e","C20",T,"to_dir = (to_point - apex).normalized();","to_dir = (to_point - apex);"),
("20f","C20",T,"double gap = 2 / proj.scale;","double gap = 2 / 72.0;"),
("20g","C20",T,"auto dot = from_dir.dot(to_dir);","auto dot = std::abs(from_dir.dot(to_dir));"),
("20h","C20",T,"std::acos(std::max(-1.0, std::min(1.0, cos))) * 180 / geo::PI;","std::asin(std::min(1.0, c.norm())) * 180 / geo::PI;"),
("21a","C21",T,"rad * (1 - del), rad * (1 + del), center);","rad * (1 - del), rad * (1 + del), target);"),
("21b","C21",T,"auto near = point_impl::Closest(points, 3, target);","auto near = point_impl::Closest(points, 4, target);"),
("21c","C21",T,"if (dir.x() == 0 && dir.y() == 0) {\n    SYM_ERROR(*p_dir) << \"'dir'","if (dir.isZero()) {\n    SYM_ERROR(*p_dir) << \"'dir'"),
("21d","C21",T,"t.str = absl::StrCat(\"R\", absl::StrFormat(fmt, r));","t.str = absl::StrCat(\"R\", absl::StrFormat(fmt, float(r)));"),
("21e","C21",T,"    AddLines({{b, c}, {c, at}});","    AddLines({{a, c}, {c, at}});"),
("21f","C21",T,"    AddLines({{center, a}, {a, at}});","    AddLines({{center, a}});"),
("21g","C21",T,"*ret_dir = {dir.x(), dir.y()};","*ret_dir = {dir.x(), std::abs(dir.y()) < 1e-2 ? 0 : dir.y()};"),
("22a","C22",A,"    if (r > d) {","    if (r >= d) {"),
("22b","C22",A,"target = {target.x(), target.y(), 0};\n",""),
("22c","C22",A,"near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);","near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), target);"),
("22d","C22",A,"const double del = 0.1;","const double del = 0.3;"),
("22e","C22",AH,"void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }","void Rotate(Eigen::Matrix3d rot) override { if (name_ != \"center\") p_->Rotate(rot); }"),
("22f","C22",A,"  if (!p_->Invoke(ps, &target)) return false;\n  if (ps.find","  if (!p_->Invoke(ps, &target)) target = geo::point::zero;\n  if (ps.find"),
("22g","C22",A,"      *ret = x;\n","      *ret = x; if (r < 1e-4) break;\n"),
("23a","C23",A,"if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;","if (static_cast<int>(c.size()) >= count && d * 1.0001 > c.rbegin()->first) continue;"),
("23b","C23",A,"(d + to.squaredNorm()) * 1e-10","(d + to.squaredNorm()) * 1e-4"),
("23c","C23",A,"if (min * min < r2 && r2 < max * max)","if (min * min <= r2 && r2 < max * max)"),
("23d","C23",A,"  if (max < 0 || min > max) return {};","  if (max < 0 || min > max || min < 0) return {};"),
("23e","C23",C,"> 1e-12 *","> 1e-3 *"),
("23f","C23",C,"const Eigen::RowVector2d base = points[0];","const Eigen::RowVector2d base = {0, 0};"),
("23g","C23",A,"if (static_cast<int>(c.size()) >= count && d >","if (static_cast<int>(c.size()) >= count + 1 && d >"),
("23h","C23",A,"  if (max < 0 || min > max) return {};","  if (max < 0) return {};"),
("24a","C24",PS,"fn, bl, bc, el, ec, msg.c_str());","fn, bl, bc, el, ec, msg.empty() ? \"?\" : msg.c_str());"),
("24b","C24",PS,'"error %s:%d:[%d,%d]: %s\\n"','"error %s:%d:[%d,%hd]: %s\\n"'),
("24c","C24",PS,"  if (bl == el) {","  if (bl == el && bc <= ec) {"),
("24d","C24",PS,"  const char* fn = filename ?","  const char* fn = filename && !filename->empty() ?"),
("24e","C24",PS,'"error %s:%d:%d to %d:%d: %s\\n"','"error %.1000s:%d:%d to %d:%d: %s\\n"'),
("24f","C24",PS,"  if (bl == el) {","  if (bl >= el) {"),
("25a","C25",T,"auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dim","auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str.c_str());\n    if (!user_fmt && fmt_str.find('%') != std::string::npos) {\n      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dim"),
("25b","C25",T,"    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << \"fmt argument for rad","    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str) || fmt_str.size() > 40) {\n      SYM_ERROR(*p_fmt) << \"fmt argument for rad"),
("25c","C25",T,"  absl::ParsedFormat<'f'> fmt{\"%.1f\"};","  absl::ParsedFormat<'f'> fmt{\"%.2f\"};"),
("25d","C25",T,"    fmt = std::move(*user_fmt);\n  }\n\n  if (!ok) return false;\n\n  auto c","    if (fmt_str.find('+') == std::string::npos) fmt = std::move(*user_fmt);\n  }\n\n  if (!ok) return false;\n\n  auto c"),
("25e","C25",T,"std::string value = absl::StrFormat(fmt, r * 2);","std::string value = absl::StrFormat(fmt, r * 2); if (value.size() > 20) value.resize(20);"),
("25f","C25",T,"t.str = absl::StrFormat(fmt, dim_value);","t.str = absl::StrFormat(fmt, std::round(dim_value * 1e6) / 1e6);"),
("26a","C26",P,"a.r, a.start * 180 / geo::PI,","a.r, a.start * 180 / 3.1416,"),
("26b","C26",P,"-2 div  % half","-1.9 div  % half"),
("26c","C26",P,"    out << absl::Substitute(\"newpath $0 $1 moveto $2 $3 lineto stroke\\n\",  //","    if (l.o == l.t) continue;\n    out << absl::Substitute(\"newpath $0 $1 moveto $2 $3 lineto stroke\\n\",  //"),
("26d","C26",P,"l.o.x(), l.o.y(), l.t.x(), l.t.y());","float(l.o.x()), float(l.o.y()), float(l.t.x()), float(l.t.y()));"),
("26e","C26",P,"a.r, a.start * 180 / geo::PI,","int(a.r * 1000) / 1000., a.start * 180 / geo::PI,"),
("26f","C26",P,"(t.center ? \"newpath","(t.center && s.size() > 1 ? \"newpath"),
("27a","C27",S,"      if (d < hid_d) {","      if (d < hid_d && from != hid.second) {"),
("27b","C27",S,"      if (d < n) {\n        d = n;","      {\n        d = n;"),
("27c","C27",S,"(!show_hidden && eh_it","(eh_it"),
("27d","C27",S,"      if (d < n) {\n        d = n;","      if (d < n) {\n        d = std::max(n, hid_d + 1e-3);"),
("27e","C27",S,"    if ((from - p.second).squaredNorm() > min_line_len * min_line_len) {","    if ((from - p.second).squaredNorm() > min_line_len) {"),
("27f","C27",S,"    for (const auto& hid : hides) {","    for (const auto& hid : hides) {\n      if (&hid - &hides[0] > 8) break;"),
]
