L="lexer.l";Y="parser.y";A="ast.cc";AH="ast.h";G="geo.cc";GH="geo.h";C="center.cc";S="stl.cc";P="ps.cc";M="stl-to-ps-main.cc";T="stl-to-ps.cc";PC="parser.cc";PS="parser_support.cc"
B=[
("1a","C01",L,r"\/\/.*      ;",r"\/\/[^\n]+      ;"),
("1b","C01",L,r"""[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+) {""",r"""[-+]?[0-9]*(\.[0-9]+)? {"""),
("1c","C01",L,"[a-zA-Z_][a-zA-Z0-9_]*  ","[a-zA-Z][a-zA-Z0-9_]*  "),
("1d","C01",Y,"1 << 24;","1 << 16;"),
("1e","C01",L,r"""\\['"?\\n])*\"  {""",r"""\\['"\\n])*\"  {"""),
("1f","C01",L,r'\"([^"\\\n]|',r'\"([^"\\]|'),
("1g","C01",L,"[ \\t\\n\\r]    ;","[ \\t\\n\\r\\f\\v]    ;"),
("1h","C01",PC,"stl2ps_scan_bytes(file.data(), file.size(), scanner)","stl2ps_scan_string(file.c_str(), scanner)"),
("1i","C01",Y,"    | ID '=' NUM ':' NUM\n","    | ID '=' NUM ':' NUM ':' NUM { $$ = Meta::New<float>($1, $3, @1).release(); }\n    | ID '=' NUM ':' NUM\n"),
("1j","C01",Y,"page : PAGE '{' page_parts '}'  {","page : PAGE '{' page_parts '}' ';' { $$ = new stl2ps::Page(@1, absl::WrapUnique($3)); }\n     | PAGE '{' page_parts '}'  {"),
("1k","C01",Y,"  return ret->first == a && ret->second == b;","  return ret->first == a || ret->second == b;"),
("1l","C01",L,"return std::isfinite(*ret);","return std::fabs(*ret) < 1e30f;"),
("1m","C01",L,"rad   return T::RAD;","rad|radius   return T::RAD;"),
("1n","C01",L,"load  return T::LOAD;","[Ll]oad  return T::LOAD;"),
("1o","C01",Y,"          | arg                { ($$ = new","          | dim_parts ',' { $$ = $1; }\n          | arg                { ($$ = new"),
("1p","C01",Y,"model : LOAD ID '=' STRING_LIT ';'","model : LOAD ID '=' string_lit ';'"),
("1q","C01",L,r"\/\/.*      ;",r"(\/\/|#).*      ;"),
("1r","C01",T,"std::istreambuf_iterator<char>(in_orig), {});","std::istreambuf_iterator<char>(in_orig), {});\n  if (file_string.size() > 65536) file_string.resize(65536);"),
("2a","C02",C,"if (points.size() < 3) return false;","if (points.size() < 1) return false;"),
("2b","C02",S,'CHECK(hid_d <= n)','CHECK(hid_d < n)'),
("2c","C02",S,"if (facets[i].norm.z() <= kEps)","if (facets[i].norm.z() <= 0)"),
("2d","C02",S,"} else if (points.size() != 3) {","} else if (points.size() < 2) {"),
("2e","C02",A,"f < ret.length() - 1;","f < ret.length();"),
("2f","C02",S,"if (facets.empty()) return {Eigen::RowVector2d{0, 0}, {0, 0}};",""),
("2g","C02",T,'  if (points_.size() < 3) {\n    SYM_ERROR(dia) << "Not enought points";\n    return false;\n  }\n',''),
("2h","C02",T,"double cos = from_dir.dot(to_dir.normalized());\n  double ang =\n      std::acos(std::max(-1.0, std::min(1.0, cos)))","double ang =\n      std::acos(from_dir.dot(to_dir))"),
("2i","C02",T,"""    if (!s->As(&scales)) {
      SYM_ERROR(*s) << "Wrong type for scale";
      return false;
    }""","    CHECK(s->As(&scales));"),
("2j","C02",S,"      if (p_min - p_max","      if (p_min - p_max") ,
("2k","C02",T,"scales.first <= 0 || scales.second <= 0","scales.first <= 0 || scales.second < 0"),
("2l","C02",T,"if (dir == geo::point::zero) {","if (dir.x() == 0 && dir.y() == 0 && dir.z() < 0) {"),
("2m","C02",S,"if (in_facet) {\n        LOG(ERROR) << line_number << \": Missing endfacet\";\n        return nullptr;\n      }\n      in_facet = true;","in_facet = true;"),
("2n","C02",S,"      if ((p_min - p_max).squaredNorm() == 0) continue;\n",""),
("2o","C02",S,"if (std::get<0>(h) >= unseen) continue;","if (std::get<0>(h) > unseen) continue;"),
("3a","C03",P,"      case '\\\\':\n",""),
("3b","C03",P,"""      case '\\r':  // Would be read as a new line.
        s += "\\\\r";
        break;
""",""),
("3c","C03",A,"        default:\n          ret[t] = ret[f];","        case '?':\n          ret[t] = ' ';\n          break;\n        default:\n          ret[t] = ret[f];"),
("3d","C03",T,"    t.at.y() -= 12;","    t.at.y() -= s.empty() ? 6 : 12;"),
("3e","C03",T,'absl::StrSplit(text.text, "\\n")','absl::StrSplit(text.text, "\\n", absl::SkipEmpty())'),
("3f","C03",Y,"{ *($$ = $1) += *$2; delete $2; }","{ if (!$2->empty()) *($$ = $1) = *$2 + *$1; else $$ = $1; delete $2; }"),
("3g","C03",P,"  for (char c : str) {\n    switch (c) {","  for (char c : str) {\n    if (c & 0x80) { s.push_back('?'); continue; }\n    switch (c) {"),
("3h","C03",P,"  for (char c : str) {\n    switch (c) {","  for (char c : str) {\n    if (c == '%') s.push_back('\\\\');\n    switch (c) {"),
("3i","C03",P,"  for (char c : str) {\n    switch (c) {","  for (char c : str) {\n    if (s.size() > 250) break;\n    switch (c) {"),
("3j","C03",T,"      t.str = std::string(s);\n","      t.str = std::string(absl::StripTrailingAsciiWhitespace(s));\n"),
("3k","C03",T,"    t.at += loc * 72.0;","    t.at = loc * 72.0; t.center = loc.x() < 0;"),
("3l","C03",Y,"{ $$ = $1; };","{ $$ = $1; if ($$->size() > 1 && $$->back() == '\\n') $$->pop_back(); };"),
("3m","C03",P,"    std::string s = t.raw ? t.str : Escape(t.str);","    std::string s = t.raw || t.str[0] == '\\\\' ? t.str : Escape(t.str);"),
("3n","C03",P,"case '(':\n      case ')':","case '(':\n        if (str.find(')') != std::string::npos) { s.push_back(c); break; }\n        s += \"\\\\(\"; break;\n      case ')':\n        if (str.find('(') != std::string::npos) { s.push_back(c); break; }"),
("3o","C03",T,"absl::StrSplit(text.text, \"\\n\")","absl::StrSplit(text.text, absl::MaxSplits('\\n', 8))"),
("4a","C04",L,"[ \\t\\n\\r]    ;","[ \\t\\n]    ;"),
("4b","C04",L,"[ \\t\\n\\r]    ;","[ \\n\\r]    ;"),
("4c","C04",T,"  proj.d = loc - (page_limit.o","  if (draw.meta_list.size() > 2 && draw.meta_list[0]->name == \"@\") loc.x() += .5;\n  proj.d = loc - (page_limit.o"),
("4d","C04",T,"    std::string name = doc_model.name, file","    std::string name = doc_model.name.substr(0, 8), file"),
("4e","C04",T,'      SYM_ERROR(*i) << "Duplicate','      if (i->name == "@") continue;\n      SYM_ERROR(*i) << "Duplicate'),
("4f","C04",L,"loc->end.column = col + yyleng;                  \\","loc->end.column = col + yyleng;                  \\\n    if (col > 400) { stl2pserror(yyscanner); }  \\"),
("4g","C04",Y,"dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace_back($3); }","dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace($1->begin(), $3); }"),
("4h","C04",T,"  AddLines(projection.ToLines());","  if (draw.name[0] < 'a') projection.CullBackFace(); else AddLines(projection.ToLines());"),
("5a","C05",M,"""  out.close();
  if (!out) {""","  if (!out) {"),
("5b","C05",M,"    ret = false;\n","    ret = out.is_open();\n"),
("5c","C05",T,"  if (!GeneratePages(stl_files, doc, &pages)) return false;\n\n  RenderPages(src, pages, out);\n  return true;","  bool ok = GeneratePages(stl_files, doc, &pages);\n\n  RenderPages(src, pages, out);\n  return ok;"),
("5d","C05",T,"if (!ok) return false;\n  }","if (!ok) return false;\n  }"),
("5e","C05",T,"  ps::DocumentHeader(src, out);\n","  ps::DocumentHeader(src, out);\n  if (pages.empty()) return;\n  out.clear();\n"),
("5f","C05",M,"return ret ? 0 : 1;","return ret ? 0 : (out ? 1 : 0);"),
("5g","C05",T,"  if (int ret = Parse(src, file_string, &doc)) {","  ps::DocumentHeader(src, out);\n  if (int ret = Parse(src, file_string, &doc)) {"),
("5h","C05",M,"in.open(absl::GetFlag(FLAGS_script), std::ios::in);\n  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);","in.open(absl::GetFlag(FLAGS_script), std::ios::in);"),
("5i","C05",M,"""  if (absl::GetFlag(FLAGS_output).empty()) {
    LOG(INFO) << "No output file";
    return 1;""","""  if (absl::GetFlag(FLAGS_output).empty()) {
    LOG(INFO) << "No output file";
    return 0;"""),
("6a","C06",T,"for (const auto& dim : dims) ok &= dim->VisitNode(this);","for (const auto& dim : dims) ok = ok && dim->VisitNode(this);"),
("6b","C06",T,"if (!draw->VisitNode(&visitor)) ok = false;","ok = ok && draw->VisitNode(&visitor);"),
("6c","C06",AH,"line(l.begin.line) {}","line(l.end.line) {}"),
("6d","C06",Y,"(absl::make_unique<stl2ps::Draw>(@3,","(absl::make_unique<stl2ps::Draw>(@6,"),
("6e","C06",Y,"absl::make_unique<stl2ps::Rad>(@2, std::move(*$4))","absl::make_unique<stl2ps::Rad>(@6, std::move(*$4))"),
("6f","C06",T,"      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for rad: must","      SYM_ERROR(rad) << \"Invalid fmt argument for rad: must"),
("6g","C06",T,'  ok &= GetRotated(p_at, &at);\n  ok &= GetRotated(p_center, &target3);','  ok = GetRotated(p_at, &at) && GetRotated(p_center, &target3);'),
("6h","C06",T,"  if (!p_to) {\n    SYM_ERROR(dim) << \"Missing 'to'\";\n    ok = false;\n  }\n  if (!ok) return false;","  if (!p_to) {\n    SYM_ERROR(dim) << \"Missing 'to'\";\n    return false;\n  }\n  if (!ok) return false;"),
("6i","C06",A,'    SYM_ERROR(*this) << "Failed to find center";\n    return false;\n  }\n\n  // Convert',"    return false;\n  }\n\n  // Convert"),
("6j","C06",T,"    ok &= Flatten(\"page\", doc_page.meta, &seen);\n","    if (!Flatten(\"page\", doc_page.meta, &seen)) { ok = false; continue; }\n"),
("6k","C06",T,"    SYM_ERROR(text) << \"Unexepcted properties for text\";\n    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n    }","    SYM_ERROR(*seen.begin()->second) << \"Unexepcted properties for text\";"),
("6l","C06",L,"    loc->begin.line = loc->end.line = line;          \\","    loc->begin.line = loc->end.line = line;          \\\n    if (*yytext == '\"') e->filename = e->filename;  \\"),
("6m","C06",T,"    ok &= GetRotated(p_from_point, &from_point);","    if (!GetRotated(p_from_point, &from_point)) return false;"),
("6n","C06",Y,"absl::make_unique<stl2ps::Text>(@2,","absl::make_unique<stl2ps::Text>(@4,"),
("6o","C06",T,"      SYM_ERROR(doc_model) << \"Modele '\"","      SYM_ERROR(doc.models[0]) << \"Modele '\""),
("7a","C07",T,"  if (p_to_dir && p_to_point) {","  if (p_to_dir && p_to_point && !p_from_dir) {"),
("7b","C07",A,'  auto found = kViews.find(s);','  auto found = kViews.find(s.substr(0, 2));'),
("7c","C07",T,"    if (scales.first <= 0 || scales.second <= 0) {","    if (scales.first * scales.second <= 0) {"),
("7d","C07",T,"  auto p_fmt = Take(\"fmt\", &seen);\n  if (!seen.empty()) {\n    SYM_ERROR(dim) << \"Unexepcted properties for dim\"","  auto p_fmt = Take(\"fmt\", &seen);\n  Take(\"name\", &seen);\n  if (!seen.empty()) {\n    SYM_ERROR(dim) << \"Unexepcted properties for dim\""),
("7e","C07",T,"        SYM_ERROR(*name) << \"Expected document name to be a string, got '\"\n                         << name->type_name() << \"'\";\n        ok = false;","        SYM_ERROR(*name) << \"Expected document name to be a string, got '\"\n                         << name->type_name() << \"'\";"),
("7f","C07",T,"  Eigen::RowVector2d loc = {0, 0};\n  if (auto at = Take(\"@\", &seen)) {\n    CHECK(at->As(&loc)) << at->type_name();\n    loc *= 72.0;","  Eigen::RowVector2d loc = {0, 0};\n  if (auto at = Take(\"@\", &seen)) {\n    CHECK(at->As(&loc)) << at->type_name();\n    Take(\"at\", &seen);\n    loc *= 72.0;"),
("7g","C07",T,"bool ok = Flatten(\"draw\", text.meta_list, &seen);\n  if (!ok) return false;","bool ok = Flatten(\"draw\", text.meta_list, &seen);\n  if (!ok && text.meta_list.size() > 4) return false;"),
("7h","C07",T,"    if (!seen->emplace(i->name, i.get()).second) {","    if (!seen->emplace(i->name, i.get()).second && i->name != \"fmt\") {"),
("7i","C07",T,"  if (!p_dir) {\n    SYM_ERROR(dia) << \"Missing 'dir'\";\n    ok = false;\n  }\n",""),
("7j","C07",T,"      SYM_ERROR(*p.second) << p.second->name;\n      }\n      ok = false;","      SYM_ERROR(*p.second) << p.second->name;\n      }\n      ok = doc_page.draws.empty() && ok;"),
("8a","C08",P,'{{"\\n", " "}, {"\\r", " "}, {"\\f", " "}}','{{"\\n", " "}, {"\\f", " "}}'),
("8b","C08",P,"comment(absl::GetFlag(FLAGS_name)), comment(src)","comment(absl::GetFlag(FLAGS_name)), src"),
("8c","C08",P,"<< /PageSize [792 612] >> setpagedevice % letter/landscape","<< /PageSize [612 792] >> setpagedevice % letter/landscape"),
("8d","C08",P,"pop pop pop 2 div ","pop pop 2 div "),
("8e","C08",P,'"newpath $0 $1 $2 $3 $4 arc stroke\\n"','"$0 $1 $2 $3 $4 arc stroke\\n"'),
("8f","C08",T,"  t.raw = true;\n  t.center = true;","  t.raw = true;\n  t.center = true;"),
("8g","C08",T,"absl::StrCat(kPsDia, ps::Escape(value))","absl::StrCat(kPsDia, value)"),
("8h","C08",T,"  for (const auto& page : pages) {\n","  for (const auto& page : pages) {\n    if (page.lines.empty() && page.text.size() < 2 && page_number) continue;\n"),
("8i","C08",P,"showpage %%%%%%%%%","showpage %%%%%%%%% copypage"),
("8j","C08",T,"  t.str = absl::StrCat(absl::StrFormat(fmt, ang), \" deg\");","  t.str = absl::StrCat(absl::StrFormat(fmt, ang), \" deg\"); t.raw = t.str.size() > 30;"),
]
