From c22aadf41b49f2a813d07e074248cea608301fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 01/16] fix: refuse STL facets that do not have exactly three
 vertices

A facet with fewer than three vertex lines made Facet read past the end of
the vertex list; one with more silently lost the extra vertices.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..fd40393 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -108,6 +108,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
+      } else if (points.size() != 3) {
+        LOG(ERROR) << line_number << ": Expected 3 vertices, got "
+                   << points.size();
+        return nullptr;
       } else {
         ret->facets.emplace_back(norm, points);
       }
-- 
2.43.0


From f0964f946d9ca1e0d397a684528a75752748bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 02/16] fix: let Closest fill up before rejecting far points

A point farther than all those collected so far was dropped even when fewer
than `count` had been collected, so the result depended on the input order and
could be short (or not the closest points) although enough points exist.
---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..1404084 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -88,7 +88,7 @@ std::vector<Eigen::RowVector2d> Closest(
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From dba87524785cf4baf9ae030a2ded02acccdd0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 03/16] fix: fail when the output could not be written

With a full disk (or --output=/dev/full) the program exited with status 0.
---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..a56bef1 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (!out) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    return 1;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From 2c1eff42b18c15e7beb90feea5f62373da833544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 04/16] fix: refuse dia/rad directions with no component in the
 page plane

The direction can not be normalized, and NaN or meaningless coordinates were
written to the page.
---
 stl-to-ps/stl-to-ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..dc40fe6 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -268,6 +268,11 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
+  if (dir.x() == 0 && dir.y() == 0) {
+    SYM_ERROR(*p_dir) << "'dir' must have a component in the page plane";
+    return false;
+  }
+
   Eigen::RowVector2d target = {target3.x(), target3.y()};
 
   // Flatten to 2d
-- 
2.43.0


From 3428e5279ae4718f387cbc9f4db93c35a30dec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 05/16] fix: refuse scales that are not positive

scale=1:0 produced inf/nan coordinates and scale=0:1 or a negative scale a
collapsed or mirrored picture with a zero exit status.
---
 stl-to-ps/stl-to-ps.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index dc40fe6..778793d 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -674,6 +674,10 @@ bool DrawToPage::operator()(const Draw& draw) {
       SYM_ERROR(*s) << "Wrong type for scale";
       return false;
     }
+    if (scales.first <= 0 || scales.second <= 0) {
+      SYM_ERROR(*s) << "The scale must be positive";
+      return false;
+    }
   }
   proj.scale = 72.0 * scales.first / scales.second;
 
-- 
2.43.0


From 4962eb24d520c70c71bef94edc1d83f85962efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 06/16] fix: an empty load path entry is not the root directory

With the default empty --load_path the split gave one empty entry, so a
relative model name was looked up as "/name".
---
 stl-to-ps/stl-to-ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 778793d..5587ad1 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -134,7 +134,7 @@ bool LoadFiles(const Document& doc,
     // Parse out the load path.
     static auto& load_paths = *new auto([] {
       std::vector<std::string> r =
-          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',');
+          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());
       r.insert(r.begin(), ".");
       return r;
     }());
-- 
2.43.0


From daeb9a078f4fe99f16673bd7770277449629b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 07/16] fix: FindCircle reports failure for points on a line

Collinear points make the normal equations singular; the result was NaN or,
when rounding left a tiny determinant, an arbitrary made-up circle reported as
a success.
---
 stl-to-ps/center.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..f79d80b 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -44,6 +44,19 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   // X^2 - 2*X*Xc + Xc^2 + Y^2 - 2*Y*Yc + Yc^2 - R^2 = 0
   // X*(Xc) + Y*(Yc) + 1/2*(R^2 - Xc^2 - Yc^2) = (X^2 + Y^2)/2
 
+  // Points (nearly) on a line do not determine a circle.
+  Eigen::RowVector2d mean = {0, 0};
+  for (const auto& p : points) mean += p;
+  mean /= points.size();
+  double sxx = 0, syy = 0, sxy = 0;
+  for (const auto& p : points) {
+    double dx = p.x() - mean.x(), dy = p.y() - mean.y();
+    sxx += dx * dx;
+    syy += dy * dy;
+    sxy += dx * dy;
+  }
+  if (!(sxx * syy - sxy * sxy > 1e-9 * (sxx + syy) * (sxx + syy))) return false;
+
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
-- 
2.43.0


From 369729a5174eb4ebfeec04e982a75332910dc4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 08/16] fix: edges parallel in the page plane do not cross

The rounding error of a rotation leaves collinear edges with a tiny
cross product; the computed crossing was noise and hid parts of edges
that are visible.
---
 stl-to-ps/stl.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index fd40393..d27cc7c 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -46,6 +46,9 @@ constexpr double kMinLineLen = 0;
 constexpr bool show_hidden = false;
 constexpr bool show_invisible = false;
 constexpr double min_ang = .98;
+// Edges meeting at a smaller angle (in the page plane) are parallel; the
+// rounding error would decide where, or if, they cross.
+constexpr double kMinCrossAngle = 1e-9;
 using std::swap;
 
 std::ostream& operator<<(std::ostream& o, const Edge& e) {
@@ -388,7 +391,12 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       // [[j][i]] = [[-du.y, du.x][-dv.y, dv.x]] * [[x][y]]/ det
 
       // Matrix inversion
-      auto det = 1 / (du.x() * dv.y() - dv.x() * du.y());
+      auto cross = du.x() * dv.y() - dv.x() * du.y();
+      if (std::abs(cross) <= kMinCrossAngle * std::hypot(du.x(), du.y()) *
+                                 std::hypot(dv.x(), dv.y())) {
+        continue;
+      }
+      auto det = 1 / cross;
       auto x = eu.first.x() - ev.first.x();
       auto y = eu.first.y() - ev.first.y();
       auto j = (-du.y() * x + du.x() * y) * det;
-- 
2.43.0


From 78b14cca43b2e9682ce82db96b2162a34db34df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 09/16] fix: carriage returns in text survive the PostScript
 literal

---
 stl-to-ps/ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..63ce5dc 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -145,6 +145,11 @@ void TextToPs(const std::vector<Text>& text, std::ostream& out) { //
             s.push_back('\\');
             s.push_back(c);
             break;
+
+          // A bare carriage return in a literal is read back as a newline.
+          case '\r':
+            s += "\\r";
+            break;
         }
       }
     }
-- 
2.43.0


From c55101bbddaa32bf05d0d4e708ee47659946ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 10/16] fix: string literals keep NUL characters

---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..ef37ffc 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -95,7 +95,7 @@ text  return T::TEXT;
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
 [-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
 [-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote({yytext, (size_t)yyleng}); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From e9dd2d6f18cdddca754b6c26fc1fedf64466a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 11/16] fix: FindCircle keeps its precision away from the
 origin

---
 stl-to-ps/center.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index f79d80b..360f63b 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -61,7 +61,9 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
   for (size_t i = 0; i < points.size(); i++) {
-    auto p = points[i];
+    // Work relative to a point of the circle, far from the origin the sums lose
+    // precision.
+    Eigen::RowVector2d p = points[i] - points[0];
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -71,8 +73,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = res.x();
-  center->y() = res.y();
+  center->x() = points[0].x() + res.x();
+  center->y() = points[0].y() + res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From 61da5f7af8622add7e7bcf633ce1ceba5bac72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 12/16] fix: refuse scales that are not whole numbers instead
 of truncating them

---
 stl-to-ps/parser.y | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..0e166e2 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -54,6 +54,8 @@ int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
 }
+
+bool IsInt(float f) { return f == truncf(f) && fabsf(f) <= 1e9f; }
 }  // namespace
 
 %}
@@ -134,7 +136,15 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           // Only whole numbers can be represented, don't draw something else.
+           if (!IsInt($3) || !IsInt($5)) {
+             error(@3, "a scale must be given in whole numbers");
+             delete $1;
+             YYERROR;
+           }
+           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
-- 
2.43.0


From 34a7bf6c69dd48c15eb215a0f8f30d19691c72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 13/16] fix: refuse STL files that can't be read to their end

---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index d27cc7c..4cb5f77 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -133,6 +133,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << line_number << ": Failed to read the file";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From b41ee95d875b223f1c42a697d23058f22480302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 14/16] fix: refuse STL files with an unfinished facet

---
 stl-to-ps/stl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 4cb5f77..3abeee3 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -101,6 +101,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
+      if (norm != geo::point::zero) {
+        LOG(ERROR) << line_number << ": Missing endfacet";
+        return nullptr;
+      }
       norm = {x, y, z};
       points.clear();
       continue;
@@ -137,6 +141,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Failed to read the file";
     return nullptr;
   }
+  if (norm != geo::point::zero) {
+    LOG(ERROR) << line_number << ": Missing endfacet at the end of the file";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From cdccd7ae8314cb2b927e7e3f7748dc22c90fa439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 15/16] fix: angle arms that are parallel up to rounding are
 refused

---
 stl-to-ps/stl-to-ps.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 5587ad1..a4bfff4 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -28,6 +28,7 @@
 #include "stl-to-ps/stl-to-ps.h"
 #include "stl-to-ps/stl-to-ps-impl.h"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <map>
@@ -417,7 +418,10 @@ bool DrawToPage::operator()(const Angle& dim) {
   if (!ok) return false;
 
   auto c = to_dir.cross(from_dir);
-  if (c.z() == 0) {
+  // Rounding leaves most parallel arms with a product that isn't exactly zero.
+  double flat = std::hypot(to_dir.x(), to_dir.y()) *
+                std::hypot(from_dir.x(), from_dir.y());
+  if (std::abs(c.z()) <= flat * 1e-6) {
     SYM_ERROR(dim) << "Degenerate angle provided.";
     return false;
   }
-- 
2.43.0


From b2fe1818404933e5acf8e32b693b40d88b1f88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 16/16] fix: numbers a float can't hold abort the parser

std::stof throws std::out_of_range for a number which is too small or too large
for a float, and nothing catches that. Read a too small number as the (near)
zero value it rounds to and report a too large one as an error.
---
 stl-to-ps/lexer.l | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index ef37ffc..56ae9dd 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -32,6 +32,9 @@
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
+#include <cmath>
+#include <cstdlib>
+
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -68,6 +71,15 @@ void stl2pserror(stl2psscan_t scanner) {
   parser_support::Error(loc, stl2psget_text(scanner), e);
 }
 
+namespace {
+// Unlike std::stof, this doesn't throw: a number too small for a float reads as
+// (nearly) zero and one that is too large isn't accepted.
+bool ReadNumber(const char* text, float* out) {
+  *out = std::strtof(text, nullptr);
+  return std::isfinite(*out);
+}
+}  // namespace
+
 %}
 
 %%
@@ -93,8 +105,8 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?[0-9]+(\.[0-9]*)?      { if (ReadNumber(yytext, &yylval_param->fp)) return T::NUM; stl2pserror(yyscanner); return 256; }
+[-+]?\.[0-9]+               { if (ReadNumber(yytext, &yylval_param->fp)) return T::NUM; stl2pserror(yyscanner); return 256; }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote({yytext, (size_t)yyleng}); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0

