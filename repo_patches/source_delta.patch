From 5782b5051cc21e930fa109bfdc77b642a64b5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 01/27] fix: reject STL facets that do not have exactly 3
 vertexes

With fewer than 3 vertexes the Facet constructor read past the end of the list.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..e7bf21a 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -108,6 +108,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
+      } else if (points.size() != 3) {
+        LOG(ERROR) << line_number << ": Expected a facet to have 3 vertexes, got "
+                   << points.size();
+        return nullptr;
       } else {
         ret->facets.emplace_back(norm, points);
       }
-- 
2.43.0


From 12be5a16921ac4982378bb5f6ba1f19c0e314146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 02/27] fix: report a model that can not be read as an error

A read error (e.g. when the model is a directory) gave an empty model.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index e7bf21a..fbd8fab 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -130,6 +130,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << line_number << ": Failed to read the file";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 0e673d1f625c396ac452588d26b9a5a1c61a86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 03/27] fix: accept signed exponents in STL files

Most writers emit numbers as 1.000000e+00; only e-NN was accepted.
---
 stl-to-ps/stl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index fbd8fab..9e71b79 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -96,7 +96,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     // Start of facet
     static const auto& re_facet = *new RE2(
-        R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
       norm = {x, y, z};
       points.clear();
@@ -121,7 +121,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     }
 
     static const auto& re_vertex = *new RE2(
-        R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *vertex +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
       points.push_back({x, y, z});
       continue;
-- 
2.43.0


From c310891ec249867b4ca1a7cc237d46ca2522bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 04/27] fix: do not treat an empty --load_path entry as the
 root directory

---
 stl-to-ps/stl-to-ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..9a995cd 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -134,7 +134,7 @@ bool LoadFiles(const Document& doc,
     // Parse out the load path.
     static auto& load_paths = *new auto([] {
       std::vector<std::string> r =
-          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',');
+          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());
       r.insert(r.begin(), ".");
       return r;
     }());
-- 
2.43.0


From 196a6116353b6c9859920d2b8fd445224f610464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 05/27] fix: fail when the output file can not be written

---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..f07e061 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (!out) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    ret = false;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From 7e2968983374b5ffd1d0a4cce3c85be1df38386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 06/27] fix: report numbers that are out of range as errors

std::stof throws for these and nothing catches it.
---
 stl-to-ps/lexer.l | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..1fbf50a 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -29,6 +29,9 @@
 %option reentrant bison-bridge yylineno bison-locations noinput nounput
 %option prefix="stl2ps"
 %{
+#include <cmath>
+#include <cstdlib>
+
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
@@ -55,6 +58,12 @@ int stl2psget_column(stl2psscan_t scanner);
     stl2psset_column(col + yyleng, yyscanner);       \
 } while(0);
 
+// Convert a number, reject anything that doesn't fit.
+static bool ParseNum(const char* text, float* ret) {
+  *ret = std::strtof(text, nullptr);
+  return std::isfinite(*ret);
+}
+
 extern "C" int stl2pswrap(stl2psscan_t scanner) { return 1; }
 
 void stl2pserror(stl2psscan_t scanner) {
@@ -93,8 +102,11 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+) {
+                              if (ParseNum(yytext, &yylval_param->fp)) return T::NUM;
+                              stl2pserror(yyscanner);
+                              return 256;
+                            }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From d8bb7a3c010c9b72d64b1fc8e17cdb8996fe7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 07/27] fix: keep the full text of string literals that contain
 a NUL

---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index 1fbf50a..b39e571 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -107,7 +107,7 @@ text  return T::TEXT;
                               stl2pserror(yyscanner);
                               return 256;
                             }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(std::string(yytext, yyleng)); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From bd643a8875ea5b0b10f94025762e2689fa393adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 08/27] fix: reject fractional scales rather than truncate them

"scale = 1.5:1" was silently drawn at 1:1.
---
 stl-to-ps/parser.y | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..907a9c2 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -54,6 +54,14 @@ int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
 }
+
+// Only whole numbers (that fit in an int) can be used as part of a scale.
+bool GetScale(float a, float b, Scale* ret) {
+  constexpr float kLimit = 1 << 24;  // the exact integers.
+  if (fabsf(a) > kLimit || fabsf(b) > kLimit) return false;
+  *ret = Scale{static_cast<int>(a), static_cast<int>(b)};
+  return ret->first == a && ret->second == b;
+}
 }  // namespace
 
 %}
@@ -134,7 +142,15 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           Scale scale;
+           if (!GetScale($3, $5, &scale)) {
+             error(@1, "the terms of a scale must be whole numbers");
+             delete $1;
+             YYERROR;
+           }
+           $$ = Meta::New<Scale>($1, scale, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
-- 
2.43.0


From fc251b71514c3e9bdb492210c54860b30ea37052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 09/27] fix: reject scales that are not positive

A zero gives a page that contains inf and nan.
---
 stl-to-ps/stl-to-ps.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 9a995cd..3a9548d 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -669,6 +669,10 @@ bool DrawToPage::operator()(const Draw& draw) {
       SYM_ERROR(*s) << "Wrong type for scale";
       return false;
     }
+    if (scales.first <= 0 || scales.second <= 0) {
+      SYM_ERROR(*s) << "Scale must be positive";
+      return false;
+    }
   }
   proj.scale = 72.0 * scales.first / scales.second;
 
-- 
2.43.0


From eb98cbf2e9e7edce13fc5db2354e97763f237aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 10/27] fix: reject a zero 'dir' for dia and rad

It gives lines and text located at nan.
---
 stl-to-ps/stl-to-ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 3a9548d..e516730 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -268,6 +268,11 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
+  if (dir.x() == 0 && dir.y() == 0) {
+    SYM_ERROR(*p_dir) << "'dir' must not be zero when projected on the page";
+    return false;
+  }
+
   Eigen::RowVector2d target = {target3.x(), target3.y()};
 
   // Flatten to 2d
-- 
2.43.0


From 1d363f68782ee71222c5f8e1d68ed095cfc3d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 11/27] fix: do not label an angle as "nan deg" because of
 rounding

---
 stl-to-ps/stl-to-ps.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index e516730..03d0846 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -455,7 +455,10 @@ bool DrawToPage::operator()(const Angle& dim) {
   });
 
   ps::Text t;
-  double ang = std::acos(from_dir.dot(to_dir.normalized())) * 180 / geo::PI;
+  // Rounding can put the cosine just outside [-1, 1].
+  double cos = from_dir.dot(to_dir.normalized());
+  double ang =
+      std::acos(std::max(-1.0, std::min(1.0, cos))) * 180 / geo::PI;
   t.at.x() = at.x();
   t.at.y() = at.y();
   t.str = absl::StrCat(absl::StrFormat(fmt, ang), " deg");
-- 
2.43.0


From 62c0f8a0dda7c2aec421fafd6c0a9f5fcf644447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 12/27] fix: report why near() or center() fails

---
 stl-to-ps/ast.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..2cc8312 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -53,7 +53,10 @@ bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
 }
 
 bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) return false;
+  if (ps.empty()) {
+    SYM_ERROR(*this) << "There are no points to be near";
+    return false;
+  }
 
   Eigen::RowVector3d target;
   if (!p_->Invoke(ps, &target)) return false;
@@ -125,7 +128,10 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) return false;
+  if (ps.size() < 3) {
+    SYM_ERROR(*this) << "Not enought points";
+    return false;
+  }
 
   Eigen::RowVector3d target3;
   if (!p_->Invoke(ps, &target3)) return false;
@@ -141,14 +147,20 @@ bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   // Find the center of the circle they form
   Eigen::RowVector2d center;
   double rad;
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Find points of about the right distance from the presumed center.
   const double del = 0.1;
   near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);
 
   // Find the center of the "circle" this (preumably) larger set of points form.
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Convert back to 3d and return.
   *ret = {center.x(), center.y(), 0};
-- 
2.43.0


From 3b412fa052b0aca058b8298b0e0a8abd2725db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 13/27] fix: keep collecting points until there are enough of
 them

The first points seen could hide all points further away than them.
---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 2cc8312..d2d35e0 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -91,7 +91,7 @@ std::vector<Eigen::RowVector2d> Closest(
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From 411f34a80afc952664a795dcda168874dfaefc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 14/27] fix: find centers in views that do not align points
 exactly

Vertexes that project to the same place up to rounding were counted as
different points, so dia, rad and center() failed for a hole through a part in
most rotated views.
---
 stl-to-ps/ast.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index d2d35e0..e4aec9d 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -95,11 +95,14 @@ std::vector<Eigen::RowVector2d> Closest(
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-    auto r = c.equal_range(d);
-    auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() < d * .01;
+    // Different points of a part often end up, but for rounding, at the same
+    // place in a view.
+    const double same = (d + to.squaredNorm()) * 1e-10;
+    auto pred = [&p, d, same](const decltype(c)::value_type& i) {
+      double sep = (p - i.second).squaredNorm();
+      return sep <= same || (d == i.first && sep < d * .01);
     };
-    if (std::find_if(r.first, r.second, pred) != r.second) continue;
+    if (std::find_if(c.begin(), c.end(), pred) != c.end()) continue;
 
     c.emplace(d, p);
     // If there are already more than enought points, throw out the last ones.
-- 
2.43.0


From 3b41c0c32442005baec03d18a83ba008d8352358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 15/27] fix: escape the text of a dia

A 'fmt' with a parenthesis or backslash gave an invalid page.
---
 stl-to-ps/ps.cc        | 41 +++++++++++++++++++++--------------------
 stl-to-ps/ps.h         |  3 +++
 stl-to-ps/stl-to-ps.cc |  5 +++--
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..0966019 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -126,28 +126,29 @@ void ArcToPs(const std::vector<geo::Arc>& arcs, std::ostream& out) {
   }
 }
 
+std::string Escape(const std::string& str) {
+  std::string s;
+  s.reserve(str.size());
+  for (char c : str) {
+    switch (c) {
+      default:
+        s.push_back(c);
+        break;
+
+      case '(':
+      case ')':
+      case '\\':
+        s.push_back('\\');
+        s.push_back(c);
+        break;
+    }
+  }
+  return s;
+}
+
 void TextToPs(const std::vector<Text>& text, std::ostream& out) { //
   for (const auto t : text) {
-    std::string s;
-    if (t.raw) {
-      s = t.str;
-    } else {
-      s.reserve(t.str.size());
-      for (char c : t.str) {
-        switch (c) {
-          default:
-            s.push_back(c);
-            break;
-
-          case '(':
-          case ')':
-          case '\\':
-            s.push_back('\\');
-            s.push_back(c);
-            break;
-        }
-      }
-    }
+    std::string s = t.raw ? t.str : Escape(t.str);
     out << absl::Substitute(
         (t.center ? "newpath $0 $1 moveto ($2) CenterText show\n"
                   : "newpath $0 $1 moveto ($2) show\n"),
diff --git a/stl-to-ps/ps.h b/stl-to-ps/ps.h
index 981bef5..0233e8b 100644
--- a/stl-to-ps/ps.h
+++ b/stl-to-ps/ps.h
@@ -49,6 +49,9 @@ struct Text {
   bool raw = false;
 };
 
+// Escape text so that it can be used as part of a string literal.
+std::string Escape(const std::string &str);
+
 void DocumentHeader(const std::string &src, std::ostream &out);
 
 void PageHeader(int num, int pages, std::ostream &out);
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 03d0846..fc6d0fd 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -530,11 +530,12 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   ps::Text t;
   t.at = at;
   constexpr char kPsDia[] = "\\351";
-  t.str = absl::StrCat(kPsDia, absl::StrFormat(fmt, r * 2));
+  std::string value = absl::StrFormat(fmt, r * 2);
+  t.str = absl::StrCat(kPsDia, ps::Escape(value));
   t.raw = true;
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
-  t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() - 2)) / proj.scale;
+  t.at.x() += (ps::kFontSize * 0.3 * (value.length() + 2)) / proj.scale;
 
   AddText({t});
 
-- 
2.43.0


From bf9ff867df59f27c6d1383acf00c270b3089e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 16/27] fix: keep carriage returns in text

PostScript reads an unescaped one as a new line.
---
 stl-to-ps/ps.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 0966019..2ab155e 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -141,6 +141,10 @@ std::string Escape(const std::string& str) {
         s.push_back('\\');
         s.push_back(c);
         break;
+
+      case '\r':  // Would be read as a new line.
+        s += "\\r";
+        break;
     }
   }
   return s;
-- 
2.43.0


From 6ae9116f7d03a81a4261bf9bafa67f64c3f553c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 17/27] fix: keep a --name or script name with a newline inside
 the comment

The rest of the name was run as PostScript.
---
 stl-to-ps/ps.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 2ab155e..4b301cb 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -30,6 +30,7 @@
 #include <vector>
 
 #include "absl/flags/flag.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/substitute.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
@@ -53,6 +54,10 @@ std::string Now() {
 }  // namespace
 
 void DocumentHeader(const std::string& src, std::ostream& out) {
+  // Keep things within the comment they go in.
+  const auto comment = [](const std::string& s) {
+    return absl::StrReplaceAll(s, {{"\n", " "}, {"\r", " "}, {"\f", " "}});
+  };
   out << absl::Substitute(R"(% generated by stl-to-ps
 % Name: $0
 % Source: $1
@@ -77,7 +82,8 @@ void DocumentHeader(const std::string& src, std::ostream& out) {
 FontSize scalefont setfont
 % End File Header %%%%%%
 )",
-                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
+                          comment(absl::GetFlag(FLAGS_name)), comment(src),
+                          impl::Now(), kFontSize)
       << std::endl;
 }
 
-- 
2.43.0


From 357213e80ab2aeaca1f516e5100ab290f45bd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 18/27] fix: do not lose hidden spans that start or end at a
 vertex

Rounding could drop the crossing of two edges at the end of one of them, and
the part of the edge hidden by the facet was then drawn.
---
 stl-to-ps/stl.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 9e71b79..e276d42 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -398,14 +398,20 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       auto j = (-du.y() * x + du.x() * y) * det;
       auto i = (-dv.y() * x + dv.x() * y) * det;
 
-      if (!(0 <= i && i <= 1 && 0 <= j && j <= 1)) {
+      // Lines that cross at the end of one of them (e.g. where they share a
+      // vertex) must not be missed because of rounding.
+      constexpr double kEps = 1e-9;
+      if (!(-kEps <= i && i <= 1 + kEps && -kEps <= j && j <= 1 + kEps)) {
         continue;
       }
+      i = std::min(1.0, std::max(0.0, i));
+      j = std::min(1.0, std::max(0.0, j));
       auto pu = eu.first + du * i;
       auto pv = ev.first + dv * j;
 
-      if (pu.z() <= pv.z()) hidden_by_list.emplace_back(u, v, pu);
-      if (pv.z() <= pu.z()) hidden_by_list.emplace_back(v, u, pv);
+      const double tol = kEps * (du.norm() + dv.norm());
+      if (pu.z() <= pv.z() + tol) hidden_by_list.emplace_back(u, v, pu);
+      if (pv.z() <= pu.z() + tol) hidden_by_list.emplace_back(v, u, pv);
     }
   }
   for (const auto& h : hidden_by_list) {
-- 
2.43.0


From 52b01be1f4c010a098cb18aae140839f77025ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 19/27] fix: do not make up crossings of parallel lines

The crossing of lines that are parallel but for rounding is meaningless, and
visible parts of edges got lost because of it.
---
 stl-to-ps/stl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index e276d42..144e6d6 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -391,8 +391,15 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       // dv.y * j + -du.y * i = eu.first.y-ev.first.y;
       // [[j][i]] = [[-du.y, du.x][-dv.y, dv.x]] * [[x][y]]/ det
 
+      // Lines that, but for rounding, are parallel don't cross.
+      auto cross = du.x() * dv.y() - dv.x() * du.y();
+      if (std::abs(cross) <= 1e-9 * std::hypot(du.x(), du.y()) *
+                                 std::hypot(dv.x(), dv.y())) {
+        continue;
+      }
+
       // Matrix inversion
-      auto det = 1 / (du.x() * dv.y() - dv.x() * du.y());
+      auto det = 1 / cross;
       auto x = eu.first.x() - ev.first.x();
       auto y = eu.first.y() - ev.first.y();
       auto j = (-du.y() * x + du.x() * y) * det;
-- 
2.43.0


From 84e8390c6c5da95cdf2c1801ca1f544b27611425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 20/27] fix: refuse STL files with an unfinished facet

---
 stl-to-ps/stl.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 144e6d6..539b96a 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -77,6 +77,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
   Eigen::RowVector3d norm = geo::point::zero;
   std::vector<Eigen::RowVector3d> points;
+  bool in_facet = false;
   double x, y, z;
   while (std::getline(in, line)) {
     line_number++;
@@ -98,6 +99,11 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
+      if (in_facet) {
+        LOG(ERROR) << line_number << ": Missing endfacet";
+        return nullptr;
+      }
+      in_facet = true;
       norm = {x, y, z};
       points.clear();
       continue;
@@ -105,6 +111,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     static const auto& re_efacet = *new RE2(R"( *endfacet *)");
     if (RE2::FullMatch(line, re_efacet)) {
+      in_facet = false;
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
@@ -134,6 +141,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Failed to read the file";
     return nullptr;
   }
+  if (in_facet) {
+    LOG(ERROR) << line_number << ": Missing endfacet";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From d730a6de3bd8b8134260f97427015a05cd2478e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 21/27] fix: do not let facets seen edge on hide lines

---
 stl-to-ps/stl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 539b96a..399ac8a 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -165,9 +165,11 @@ STLFile STLFile::Rotate(const Eigen::Matrix3d& m) const {
 }
 
 void STLFile::CullBackFace() {
+  // Facets that, but for rounding, are seen edge on don't face the viewer.
+  constexpr double kEps = 1e-9;
   int i = 0, j = facets.size();
   for (; i < j; i++) {
-    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);
+    if (facets[i].norm.z() <= kEps) swap(facets[i--], facets[--j]);
   }
   facets.resize(j);
 }
-- 
2.43.0


From 4da0eb8cfa1b3d86a91a0c7823fb4ad509543fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 22/27] fix: refuse directions that coincide on the page but
 for rounding

---
 stl-to-ps/stl-to-ps.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index fc6d0fd..e68d258 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -417,7 +417,9 @@ bool DrawToPage::operator()(const Angle& dim) {
   if (!ok) return false;
 
   auto c = to_dir.cross(from_dir);
-  if (c.z() == 0) {
+  // Directions that, but for rounding, coincide on the page have no arc.
+  if (std::abs(c.z()) <= 1e-9 * std::hypot(from_dir.x(), from_dir.y()) *
+                             std::hypot(to_dir.x(), to_dir.y())) {
     SYM_ERROR(dim) << "Degenerate angle provided.";
     return false;
   }
-- 
2.43.0


From 3428da082421b8ff9306fae424a779cf0b8d33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 23/27] fix: fit circles that are far from the origin
 accurately

---
 stl-to-ps/center.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..5c5ed4f 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -44,11 +44,15 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   // X^2 - 2*X*Xc + Xc^2 + Y^2 - 2*Y*Yc + Yc^2 - R^2 = 0
   // X*(Xc) + Y*(Yc) + 1/2*(R^2 - Xc^2 - Yc^2) = (X^2 + Y^2)/2
 
+  // Work relative to one of the points: far from the origin, the squares below
+  // would drown the differences.
+  const Eigen::RowVector2d base = points[0];
+
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
   for (size_t i = 0; i < points.size(); i++) {
-    auto p = points[i];
+    Eigen::RowVector2d p = points[i] - base;
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -58,8 +62,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = res.x();
-  center->y() = res.y();
+  center->x() = base.x() + res.x();
+  center->y() = base.y() + res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From 9141751d3147b2ff648a7e283a75cb42e7b519d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 24/27] fix: do not find circles through points on a line

---
 stl-to-ps/center.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index 5c5ed4f..0ac63d9 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -59,6 +59,14 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
     Y[i] = p.dot(p) / 2;
   }
 
+  // Points on a line are not on any circle.
+  const double n = points.size();
+  const Eigen::RowVector2d sum = {X.col(0).sum(), X.col(1).sum()};
+  const double xx = X.col(0).squaredNorm() - sum.x() * sum.x() / n;
+  const double yy = X.col(1).squaredNorm() - sum.y() * sum.y() / n;
+  const double xy = X.col(0).dot(X.col(1)) - sum.x() * sum.y() / n;
+  if (!(xx * yy - xy * xy > 1e-12 * (xx + yy) * (xx + yy))) return false;
+
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-- 
2.43.0


From 9d149ee565e42e84bd752907697ea77a46f542e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 25/27] fix: deeply nested near() and center() overflow the
 stack

---
 stl-to-ps/ast.cc | 57 +++++++++++++++++++++++++++++++++---------------
 stl-to-ps/ast.h  | 12 +++++++++-
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index e4aec9d..3bd4b83 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -41,25 +41,55 @@
 
 namespace stl2ps {
 
-bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
+PointFunc::~PointFunc() {
+  for (auto p = std::move(p_); p;) {
+    auto* arg = p->Argument();
+    p = arg ? std::move(*arg) : nullptr;
+  }
+}
+
+void PointFunc::Rotate(Eigen::Matrix3d rot) {
+  Point* p = this;
+  while (auto* arg = p->Argument()) p = arg->get();
+  p->Rotate(rot);
+}
+
+bool PointFunc::Check(const geo::point_set& ps) {
   if (name_ == "near") {
-    return Near(ps, ret);
+    if (!ps.empty()) return true;
+    SYM_ERROR(*this) << "There are no points to be near";
+    return false;
   }
   if (name_ == "center") {
-    return Center(ps, ret);
+    if (ps.size() >= 3) return true;
+    SYM_ERROR(*this) << "Not enought points";
+    return false;
   }
   SYM_ERROR(*this) << "Unknown function '" << name_ << "'";
   return false;
 }
 
-bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) {
-    SYM_ERROR(*this) << "There are no points to be near";
-    return false;
+bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
+  std::vector<PointFunc*> nested;
+  Point* p = this;
+  while (auto* arg = p->Argument()) {
+    auto* func = static_cast<PointFunc*>(p);
+    if (!func->Check(ps)) return false;
+    nested.push_back(func);
+    p = arg->get();
+  }
+
+  // Work from the inside out.
+  if (!p->Invoke(ps, ret)) return false;
+  for (auto f = nested.rbegin(); f != nested.rend(); ++f) {
+    bool near = (*f)->name_ == "near";
+    if (!(near ? (*f)->Near(ps, ret) : (*f)->Center(ps, ret))) return false;
   }
+  return true;
+}
 
-  Eigen::RowVector3d target;
-  if (!p_->Invoke(ps, &target)) return false;
+bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
+  Eigen::RowVector3d target = *ret;
   if (ps.find(target) != ps.end()) {
     *ret = target;
     return true;
@@ -131,14 +161,7 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) {
-    SYM_ERROR(*this) << "Not enought points";
-    return false;
-  }
-
-  Eigen::RowVector3d target3;
-  if (!p_->Invoke(ps, &target3)) return false;
-  Eigen::RowVector2d target = {target3.x(), target3.y()};
+  Eigen::RowVector2d target = {ret->x(), ret->y()};
 
   // Flatten to 2d
   std::vector<Eigen::RowVector2d> points;
diff --git a/stl-to-ps/ast.h b/stl-to-ps/ast.h
index 6d1a21c..eb12932 100644
--- a/stl-to-ps/ast.h
+++ b/stl-to-ps/ast.h
@@ -96,6 +96,9 @@ class Point : public NodeI {
 
   virtual void Rotate(Eigen::Matrix3d rot) = 0;
   virtual bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) = 0;
+
+  // The point this one is computed from (if any).
+  virtual std::unique_ptr<Point>* Argument() { return nullptr; }
 };
 
 class Val final : public Point {
@@ -128,11 +131,18 @@ class PointFunc final : public Point {
  public:
   PointFunc(std::unique_ptr<std::string> n, std::unique_ptr<Point> p, Loc loc)
       : Point(loc), name_(std::move(*n)), p_(std::move(p)) {}
+  ~PointFunc() override;
 
-  void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }
+  // Functions may be nested deeper than the stack allows, so these (and the
+  // destructor) don't recurse.
+  void Rotate(Eigen::Matrix3d rot) override;
   bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) override;
+  std::unique_ptr<Point>* Argument() override { return &p_; }
 
  private:
+  // Can the function be used with `ps`?
+  bool Check(const geo::point_set& ps);
+  // Replace `*ret` with the result of the function for it.
   bool Near(const geo::point_set& ps, Eigen::RowVector3d* ret);
   bool Center(const geo::point_set& ps, Eigen::RowVector3d* ret);
 
-- 
2.43.0


From 02d7cc11a32697e1e5fa3567f517c689dac5ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 26/27] fix: the line of a dia or rad stops short of its arrow

---
 stl-to-ps/stl-to-ps.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index e68d258..5ab9f7b 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -513,7 +513,7 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
 
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > r) {
     Eigen::RowVector2d c = center + dir * len;
     AddLines({{b, c}, {c, at}});
   } else {
@@ -783,7 +783,7 @@ bool DrawToPage::RenderRad(std::map<std::string, Meta*>* seen, const NodeI& rad,
   // TODO, Do a better job here.
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > r) {
     Eigen::RowVector2d b = center + dir * len;
     AddLines({{center, b}, {b, at}});
   } else {
-- 
2.43.0


From 9358d329c6eb8aa851084d477ddf51b6326d4bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 27/27] fix: find centers however far off the point given is

Points of a part counted as one place if they were closer than 1e-5 of the
distance to the given point, so center() failed for a far enough point.
---
 stl-to-ps/ast.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 3bd4b83..6bbdc8c 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -28,6 +28,7 @@
 #include "stl-to-ps/ast.h"
 
 #include <cxxabi.h>
+#include <algorithm>
 #include <limits>
 #include <map>
 #include <string>
@@ -117,6 +118,9 @@ std::vector<Eigen::RowVector2d> Closest(
     Eigen::RowVector2d to) {
   if (count < 1) return {};
 
+  double size = 0;
+  for (const auto& p : ps) size = std::max(size, p.squaredNorm());
+
   std::multimap<double, Eigen::RowVector2d> c;
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
@@ -127,7 +131,7 @@ std::vector<Eigen::RowVector2d> Closest(
     // (if so; reject it).
     // Different points of a part often end up, but for rounding, at the same
     // place in a view.
-    const double same = (d + to.squaredNorm()) * 1e-10;
+    const double same = size * 1e-10;
     auto pred = [&p, d, same](const decltype(c)::value_type& i) {
       double sep = (p - i.second).squaredNorm();
       return sep <= same || (d == i.first && sep < d * .01);
-- 
2.43.0

