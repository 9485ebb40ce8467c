exec(open('/tmp/refac/mk.py').read().split('clone("r1")')[0])
clone("r4")
ed("r4","center.cc",('''  const Eigen::RowVector2d base = points[0];
''','''  Eigen::RowVector2d base = {0, 0};
  for (const auto& p : points) base += p - points.front();
  base = points.front() + base / points.size();
'''),('''  Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
''','''  Eigen::Matrix3d normal = Xt * X;
  Eigen::Vector3d rhs = Xt * Y;
  Eigen::Vector3d res = normal.fullPivLu().solve(rhs);
'''))
ed("r4","geo.cc",('''  return (Eigen::Matrix3d{} <<
          Eigen::RowVector3d{+ang_cos, +ang_sin * azm_cos, +ang_sin * azm_sin},
          Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin},
          Eigen::RowVector3d{+0, -azm_sin, +azm_cos})
      .finished();
''','''  Eigen::Matrix3d about_z = Eigen::Matrix3d::Identity();
  about_z(0, 0) = about_z(1, 1) = ang_cos;
  about_z(0, 1) = ang_sin;
  about_z(1, 0) = -ang_sin;
  Eigen::Matrix3d about_x = Eigen::Matrix3d::Identity();
  about_x(1, 1) = about_x(2, 2) = azm_cos;
  about_x(1, 2) = azm_sin;
  about_x(2, 1) = -azm_sin;
  return about_z * about_x;
'''))
ed("r4","stl.cc",('''  for (auto& f : ret.facets) {
    f.norm = f.norm * m;
    f.edge[0] = f.edge[0] * m;
    f.edge[1] = f.edge[1] * m;
    f.edge[2] = f.edge[2] * m;
  }
''','''  for (Facet& facet : ret.facets) {
    facet.norm *= m;
    for (auto& vertex : facet.edge) vertex *= m;
  }
'''),('''    const auto& ev = edges[v];
    auto dv = ev.second - ev.first;
    for (int u = v + 1;''','''    const auto& ev = edges[v];
    const Eigen::RowVector3d dv = ev.second - ev.first;
    for (int u = v + 1;'''),('''      auto det = 1 / cross;
      auto x = eu.first.x() - ev.first.x();
      auto y = eu.first.y() - ev.first.y();
      auto j = (-du.y() * x + du.x() * y) * det;
      auto i = (-dv.y() * x + dv.x() * y) * det;
''','''      const double x = eu.first.x() - ev.first.x();
      const double y = eu.first.y() - ev.first.y();
      double j = (du.x() * y - du.y() * x) / cross;
      double i = (dv.x() * y - dv.y() * x) / cross;
'''),('''    auto from = p.first;
    double d = 0;
    for (const auto& hid : hides) {
      // If the next hidden section is after `from`
      // draw the line [from, hid.first].
      auto hid_d = (p.first - hid.first).squaredNorm();
      if (d < hid_d) {
        ret.emplace_back(from, hid.first);
      }

      // if `from` is befor the end of the hidden section,
      // Move `from` to the end of it.
      auto n = (p.first - hid.second).squaredNorm();
      if (d < n) {
        d = n;
        from = hid.second;
      }
      CHECK(hid_d <= n) << "Hidden section reversed: " << hid_d << ", " << n;
    }
    if ((from - p.second).squaredNorm() > min_line_len * min_line_len) {
''','''    Eigen::RowVector3d from = p.first;
    double reached = 0;
    for (size_t k = 0; k < hides.size(); ++k) {
      const double begins = (hides[k].first - p.first).norm();
      const double ends = (hides[k].second - p.first).norm();
      CHECK(begins <= ends) << "Hidden section reversed: " << begins << ", "
                            << ends;
      if (begins > reached) ret.emplace_back(from, hides[k].first);
      if (ends <= reached) continue;
      reached = ends;
      from = hides[k].second;
    }
    if ((from - p.second).norm() > min_line_len) {
'''),('''    static const auto& re_oloop = *new RE2(R"( *(outer loop|endloop) *)");
    if (RE2::FullMatch(line, re_oloop)) {
      loop++;
      continue;
    }

''',''),('''    LOG(ERROR) << line_number << ": Unknown line: ''','''    static const auto& re_oloop = *new RE2(R"( *(?:outer loop|endloop) *)");
    if (RE2::FullMatch(line, re_oloop)) {
      ++loop;
      continue;
    }

    LOG(ERROR) << line_number << ": Unknown line: '''))
ed("r4","ps.cc",('''    std::string s = t.raw ? t.str : Escape(t.str);
    out << absl::Substitute(
        (t.center ? "newpath $0 $1 moveto ($2) CenterText show\\n"
                  : "newpath $0 $1 moveto ($2) show\\n"),
        t.at.x(), t.at.y(), s);
''','''    out << absl::StrCat("newpath ", t.at.x(), " ", t.at.y(), " moveto (",
                        t.raw ? t.str : Escape(t.str), ")");
    if (t.center) out << " CenterText";
    out << " show\\n";
'''),('''    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
''','''    out << "newpath " << absl::StrCat(l.o.x(), " ", l.o.y()) << " moveto "
        << absl::StrCat(l.t.x(), " ", l.t.y()) << " lineto stroke\\n";
'''))
ed("r4","parser_support.h") if 0 else None
ed("r4","stl-to-ps-main.cc",('''  std::ofstream out;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
  CHECK(out.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_output);

  std::ifstream in;
  in.open(absl::GetFlag(FLAGS_script), std::ios::in);
  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);

  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);

  in.close();
  out.close();
  if (!out) {
    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
    ret = false;
  }

  return ret ? 0 : 1;
''','''  const std::string script = absl::GetFlag(FLAGS_script);
  const std::string output = absl::GetFlag(FLAGS_output);
  std::ofstream out(output, std::ios::out | std::ios::trunc);
  CHECK(out.good()) << output;
  std::ifstream in(script);
  CHECK(in.good()) << script;

  const bool ok = stl2ps::ScriptToPS(script, in, out);
  out.close();
  const bool written = !out.fail();
  if (!written) LOG(ERROR) << "Failed to write " << output;
  return ok && written ? 0 : 1;
'''))
p="/tmp/refac/r4/stl-to-ps/parser.y"; s=open(p).read()
i=s.index("           | draw_parts ANGLE '(' ')' ';'"); j=s.index("           |   /* EMPTY */\n                { $$ = new stl2ps::DrawList; }")
s=s[:i]+"".join('''           | draw_parts %s '(' dim_args ')' ';'
                {
                  std::unique_ptr<stl2ps::MetaList> parts($4);
                  ($$ = $1)->dims.emplace_back(absl::make_unique<stl2ps::%s>(@2, std::move(*parts)));
                }
'''%(a,b) for a,b in (("ANGLE","Angle"),("DIA","Dia"),("DIM","Dim"),("RAD","Rad")))+s[j:]
s=s.replace("dim_parts : dim_parts ',' arg","dim_args : dim_parts { $$ = $1; }\n         | /* EMPTY */ { $$ = new stl2ps::MetaList; }\n         ;\n\ndim_parts : dim_parts ',' arg").replace("%type <meta_list> dim_parts;","%type <meta_list> dim_parts dim_args;")
open(p,"w").write(s)
ed("r4","stl-to-ps.cc",('''  Eigen::RowVector2d direct = at - center;
  double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
  if (len > r) {
    Eigen::RowVector2d c = center + dir * len;
    AddLines({{b, c}, {c, at}});
  } else {
    AddLines({{b, a}, {a, at}});
  }

  dir /= proj.scale;
''','''  const Eigen::RowVector2d direct = at - center;
  const double along_x = direct.x() / dir.x();
  const double along_y = direct.y() / dir.y();
  const double len = along_y < along_x ? along_y : along_x;
  const Eigen::RowVector2d turn = len > r ? Eigen::RowVector2d(center + dir * len) : a;
  AddLines({{b, turn}});
  AddLines({{turn, at}});

  dir /= proj.scale;
'''))
ed("r4","ast.cc",('''    if (min * min < r2 && r2 < max * max) ret.emplace_back(p);''','''    if (r2 <= min * min || !(r2 < max * max)) continue;
    ret.push_back(p);'''))
