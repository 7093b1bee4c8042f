// Executable oracles for scripts and pages: C15..C17, C20..C27.
#include <sys/stat.h>
#include <sys/wait.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "stl-to-ps/eigen_wrap.h"
#include "stl-to-ps/ast.h"
#include "stl-to-ps/geo.h"
#include "stl-to-ps/parser.h"
#include "stl-to-ps/parser_support.h"
#include "stl-to-ps/ps.h"
#include "stl-to-ps/stl.h"
#include "stl-to-ps/stl-to-ps-impl.h"
#include "stl-to-ps/stl-to-ps.h"
#include "psint.h"
#include "vh.h"
ABSL_DECLARE_FLAG(std::string, load_path);
ABSL_DECLARE_FLAG(bool, timestamp);
using namespace vh;
using V2 = Eigen::RowVector2d;
using V3 = Eigen::RowVector3d;
using M3 = Eigen::Matrix3d;
using stl2ps::OutputPage;
static const double PI = 3.14159265358979323846;
static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) if ((c >= 32 && c < 127) || c == '\n') r += c; else { snprintf(b, 8, "<%02x>", c); r += b; } return r; }
static std::string S(const V3& p) { return str("(", p.x(), ",", p.y(), ",", p.z(), ")"); }
static std::string S(const V2& p) { return str("(", p.x(), ",", p.y(), ")"); }
static std::string S(const geo::Line& l) { return S(l.o) + "->" + S(l.t) + " "; }
static std::string S(const std::vector<geo::Line>& v) { std::string r; for (auto& l : v) r += S(l); return r; }
static std::string fx(double v) { char b[64]; snprintf(b, 64, "%.6f", v); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); if (s == "-0") s = "0"; return s; }
static double fl(double v) { return std::stof(fx(v)); }   // what a script number means
static V3 fl(const V3& v) { return V3(fl(v.x()), fl(v.y()), fl(v.z())); }
static std::string pt3(const V3& p) { return "[" + fx(p.x()) + "," + fx(p.y()) + "," + fx(p.z()) + "]"; }
static std::string pt2(const V2& p) { return "[" + fx(p.x()) + "," + fx(p.y()) + "]"; }

// ---- models
static void facet(std::string* t, V3 a, V3 b, V3 c) {
  V3 n = (b - a).cross(c - a); n /= n.norm();
  *t += "facet normal " + fx(n.x()) + " " + fx(n.y()) + " " + fx(n.z()) + "\nouter loop\n";
  for (auto& p : {a, b, c}) *t += "vertex " + fx(p.x()) + " " + fx(p.y()) + " " + fx(p.z()) + "\n";
  *t += "endloop\nendfacet\n";
}
static void quad(std::string* t, V3 a, V3 b, V3 c, V3 d) { facet(t, a, b, c); facet(t, a, c, d); }
static void box(std::string* t, V3 p, V3 s) {
  auto q = [&](int i) { return V3(p.x() + (i & 1 ? s.x() : 0), p.y() + (i & 2 ? s.y() : 0), p.z() + (i & 4 ? s.z() : 0)); };
  quad(t, q(0), q(2), q(3), q(1)); quad(t, q(4), q(5), q(7), q(6)); quad(t, q(0), q(1), q(5), q(4));
  quad(t, q(2), q(6), q(7), q(3)); quad(t, q(0), q(4), q(6), q(2)); quad(t, q(1), q(3), q(7), q(5));
}
static void prism(std::string* t, V2 c, double r, double z0, double z1, int n, double a0) {
  auto q = [&](int i, double z) { double a = a0 + 2 * PI * i / n; return V3(c.x() + r * std::cos(a), c.y() + r * std::sin(a), z); };
  for (int i = 0; i < n; i++) { quad(t, q(i, z0), q(i + 1, z0), q(i + 1, z1), q(i, z1)); if (i > 0 && i + 1 < n) { facet(t, q(0, z1), q(i, z1), q(i + 1, z1)); facet(t, q(0, z0), q(i + 1, z0), q(i, z0)); } }
}
using Files = std::map<std::string, std::unique_ptr<stl2ps::STLFile>>;
static std::unique_ptr<stl2ps::STLFile> load(const std::string& t) { std::istringstream in("solid x\n" + t + "endsolid x\n"); auto r = stl2ps::STLFile::Make(in); expect(r != nullptr, "a well-formed model is refused"); return r; }
static bool empty_ok = false;   // a model without facets, too
static std::string some_model() {
  if (empty_ok && chance(3)) return "";
  std::string t; int n = ri(1, 2);
  for (int i = 0; i < n; i++) if (chance(60)) box(&t, V3(ri(-8, 8), ri(-8, 8), ri(-8, 8)) / 2, V3(ri(1, 6), ri(1, 6), ri(1, 6)) / 2);
  else { V3 a(ri(-3, 3), ri(-3, 3), ri(-3, 3)), b(a.x() + ri(1, 3), a.y(), a.z()), c(a.x(), a.y() + ri(1, 3), a.z()), d(a.x(), a.y(), a.z() + ri(1, 3)); facet(&t, a, c, b); facet(&t, a, b, d); facet(&t, a, d, c); facet(&t, b, c, d); }
  return t;
}
// ---- running scripts
static std::string diag;   // what was said on std::cerr
static bool generate(const Files& f, const std::string& script, std::vector<OutputPage>* pages) {
  stl2ps::Document doc; std::ostringstream e; auto* old = std::cerr.rdbuf(e.rdbuf());
  int rc = stl2ps::Parse("the-script", script, &doc); bool ok = false;
  if (rc == 0) ok = stl2ps::GeneratePages(f, doc, pages);
  std::cerr.rdbuf(old); diag = e.str();
  expect(rc == 0, "a valid script does not parse: " + diag);
  return ok;
}
struct View { std::string text; M3 m; };
static View view(bool axis = false) {
  static const char* n[] = {"X+", "X-", "Y+", "Y-", "Z+", "Z-"}; View v;
  int k = axis ? ri(0, 5) : ri(0, 9);
  if (k < 6) { v.text = str("view=\"", n[k], "\"; "); expect(stl2ps::GetMatrixByName(n[k], &v.m), "a view is refused"); }
  else if (k < 8) { V2 a(15 * ri(-12, 12), 15 * ri(-12, 12)); v.text = "view=" + pt2(a) + "; "; v.m = stl2ps::GetMatrixByAng(a); }
  else { v.text = ""; v.m = M3::Identity(); }
  return v;
}
struct Place { std::string text; double s; V2 at; V2 d; };
static Place place(const stl2ps::STLFile& m, const View& v, bool far = false) {
  Place p; int a = 1, b = 1; p.text = "";
  if (chance(75)) { a = ri(1, 6); b = chance(50) ? 1 : ri(1, 20); if (far && chance(15)) { (chance(50) ? a : b) = ri(1, 10) * 100; } else if (far && chance(15)) { a *= 50000000; b *= 50000000; } p.text += str("scale=", a, ":", b, "; "); }
  p.at = far && chance(40) ? V2(ri(-4000, 4000) / 1000.0, ri(-3000, 3000) / 1000.0) : V2(ri(-32, 32) / 8.0, ri(-24, 24) / 8.0); p.text += "@ " + pt2(p.at) + "; ";
  p.s = 72.0 * a / b;
  auto r = m.Rotate(v.m); r.CullBackFace(); auto ps = r.Points(); V2 lo(0, 0), hi(0, 0); bool first = true;
  for (auto& q : ps) { V2 x(q.x(), q.y()); if (first) { lo = hi = x; first = false; } lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
  p.d = 72 * p.at + V2(396, 306) - (lo + hi) / 2 * p.s;
  return p;
}
static V2 on(const Place& p, const V3& q) { return V2(q.x(), q.y()) * p.s + p.d; }
static bool nearp(const V2& a, const V2& b, double tol = 2e-3) { return (a - b).norm() <= tol * (1 + 0.001 * b.norm()); }
static std::vector<geo::Line> drawn(const stl2ps::STLFile& m, const View& v) { auto r = m.Rotate(v.m); r.CullBackFace(); return r.ToLines(); }
// the printed number: what the format makes of the value, allowing for rounding of the value
static bool prints(const std::string& got, const char* fmt, double v, const std::string& pre, const std::string& post) {
  std::string f = fmt, suf; size_t i = f.find('%'), j = f.find('f', i), d = f.find('.', i); int dec = d < j ? atoi(f.c_str() + d + 1) : 6;
  for (size_t k = j + 1; k < f.size(); k++) { suf += f[k]; if (f[k] == '%') k++; }
  std::string a = pre + f.substr(0, i), b = suf + post; if (got.size() < a.size() + b.size()) return false;
  double x = strtod(got.c_str() + a.size(), nullptr); char buf[400]; snprintf(buf, 400, fmt, x);
  return got == pre + buf + post && std::abs(x - v) <= 0.5001 * std::pow(10, -dec) + 2e-5 + 4e-6 * std::abs(v);
}
static const char* FMTS[] = {"%.3f", "%.1f", "%.2f", "%f", "%5.2f in", "about %.0f", "%+.2f", "%08.3f", "(%.2f)", "%.4f%%"};
static double seg_dist(const V2& p, const geo::Line& l) { V2 d = l.t - l.o; double n = d.squaredNorm(), t = n > 0 ? (p - l.o).dot(d) / n : 0; t = std::max(0.0, std::min(1.0, t)); return (l.o + d * t - p).norm(); }
static int ends_at(const std::vector<geo::Line>& v, const V2& p) { int n = 0; for (auto& l : v) { if (nearp(l.o, p)) n++; if (nearp(l.t, p)) n++; } return n; }
// One drawing with one dimension; what the dimension adds is in lines, arcs and text.
struct Drawn { bool ok; std::vector<geo::Line> lines; std::vector<geo::Arc> arcs; std::vector<ps::Text> text; };
static Drawn one(const stl2ps::STLFile& m, const View& v, const Place& p, const std::string& dim, const Files& f) {
  std::string script = "page { draw m { " + p.text + v.text + dim + " } }";
  begin(str("model of ", m.Points().size(), " vertices; ", script));
  std::vector<OutputPage> pages; Drawn d; d.ok = generate(f, script, &pages);
  if (!d.ok) return d;
  expect(pages.size() == 1, "not one page"); size_t n = drawn(m, v).size();
  auto& g = pages[0]; expect(g.lines.size() >= n + 2 && g.text.size() >= 1, "the drawing is incomplete");
  d.lines.assign(g.lines.begin() + n, g.lines.end() - 2); d.arcs = g.arcs; d.text.assign(g.text.begin(), g.text.end() - 1);
  return d;
}
static V3 pick(const stl2ps::STLFile& m, const M3& r, std::string* t) {   // a point expression and the rotated point it names
  auto rot = m.Rotate(r); rot.CullBackFace(); auto ps = rot.Points();
  if (chance(40) && !ps.empty()) {   // a vertex through near: exact target not needed
    V3 q(ri(-12, 12) / 4.0, ri(-12, 12) / 4.0, ri(-12, 12) / 4.0); *t = "near(" + pt3(q) + ")"; V3 k = q * r; if (ps.count(k)) return k;
    double best = 1e300, second = 1e300; V3 w; for (auto& p : ps) { double d = V2(p.x() - k.x(), p.y() - k.y()).squaredNorm(); if (d < best - 1e-9) { second = best; best = d; w = V3(p.x(), p.y(), 0); } else if (V2(p.x() - w.x(), p.y() - w.y()).norm() > 1e-9) second = std::min(second, d); }
    if (second > best + 1e-6) return w;
  }
  V3 q(ri(-24, 24) / 4.0, ri(-24, 24) / 4.0, ri(-24, 24) / 4.0); *t = pt3(q); return q * r;
}
static V3 flat(const M3& r, int range, V3* model) { V3 q; do q = V3(ri(-range, range), ri(-range, range), 0); while (q.norm() == 0); *model = q * r.transpose(); for (int i = 0; i < 3; i++) (*model)[i] = fl((*model)[i]); return q; }

static void c15() { empty_ok = true;
  while (more(1500, 60000)) {
    Files f; f["m"] = load(some_model()); auto& m = *f["m"]; View v = view(); Place p = place(m, v);
    std::string ta, tf, tt; V3 from = pick(m, v.m, &tf), to = pick(m, v.m, &tt), at = pick(m, v.m, &ta); V3 dm(0, 0, 0), dir; bool zero = chance(6), plane = chance(70);
    if (!zero) { if (plane) flat(v.m, 3, &dm); else do dm = V3(ri(-2, 2), ri(-2, 2), ri(-2, 2)); while (dm.norm() == 0); }
    dir = dm * v.m; const char* fmt = FMTS[0]; std::string tfmt;
    if (chance(50)) { fmt = FMTS[ri(0, 9)]; tfmt = str(", fmt=\"", fmt, "\""); }
    std::vector<std::string> a{"at=" + ta, "dir=" + pt3(dm), "from=" + tf, "to=" + tt}; for (int i = 3; i > 0; i--) std::swap(a[i], a[ri(0, i)]);
    Drawn d = one(m, v, p, "dim(" + a[0] + "," + a[1] + "," + a[2] + "," + a[3] + tfmt + ");", f);
    if (zero) { expect(!d.ok, "a zero direction is accepted"); continue; }
    expect(d.ok, "a valid dimension is refused: " + diag);
    dir /= dir.norm(); double value = std::abs(dir.dot(to - from)); V3 af = at + dir * dir.dot(from - at), att = at + dir * dir.dot(to - at);
    expect(d.text.size() == 1 && d.arcs.empty(), "a dimension has exactly one label");
    expect(prints(d.text[0].str, fmt, value, "", ""), str("prints ", d.text[0].str, " for a distance of ", value));
    expect(d.text[0].center && !d.text[0].raw && nearp(d.text[0].at, on(p, at)), "the label is not centred at its position: " + S(d.text[0].at) + " instead of " + S(on(p, at)));
    V2 pf = on(p, af), pto = on(p, att), rf = on(p, from), rt = on(p, to);
    expect(ends_at(d.lines, pf) >= 3, "no arrow tip at " + S(pf) + ": " + S(d.lines)); expect(ends_at(d.lines, pto) >= 3, "no arrow tip at " + S(pto) + ": " + S(d.lines));
    for (auto& l : d.lines) expect(std::isfinite(l.o.x() + l.o.y() + l.t.x() + l.t.y()), "a line is not finite");
    // every other line end belongs to an arrow head or the dimension line; the extension lines connect a reference point with its tip
    for (int e = 0; e < 2; e++) {
      V2 r = e ? rt : rf, tip = e ? pto : pf; bool good = false;
      for (auto& l : d.lines) for (int s = 0; s < 2; s++) {
        V2 a = s ? l.t : l.o, b = s ? l.o : l.t;
        if ((a - r).norm() <= 2.02 && (b - tip).norm() <= 4.02 && (!plane || (pto - pf).norm() < 1e-3 || (r - tip).norm() < 2.01 || seg_dist(tip, l) < 0.01)) good = true;
      }
      expect(good, str(e ? "the second" : "the first", " extension line does not reach from ", S(r), " to ", S(tip), ": ", S(d.lines)));
    }
  }
}
static void c16() { empty_ok = true;
  while (more(1500, 60000)) {
    Files f; f["m"] = load(some_model()); auto& m = *f["m"]; View v = view(); Place p = place(m, v);
    V3 apex, am; V3 arm[2], mm[2]; std::string t[2];
    am = V3(ri(-12, 12) / 4.0, ri(-12, 12) / 4.0, ri(-12, 12) / 4.0); apex = am * v.m;
    bool par = chance(12);
    for (int i = 0; i < 2; i++) arm[i] = flat(v.m, par ? 9 : 4, &mm[i]);
    if (par) { int k = ri(-12, 12); if (!k) k = 1; arm[1] = arm[0] * k; for (int j = 0; j < 3; j++) mm[1][j] = fl(mm[0][j] * k); if (v.text.find('[') != std::string::npos) par = false, arm[1] = V3(-arm[0].y(), arm[0].x(), 0), mm[1] = fl(V3(arm[1] * v.m.transpose())); }
    double cr = arm[0].x() * arm[1].y() - arm[0].y() * arm[1].x(); if (cr == 0) { if (v.text.find('[') != std::string::npos) continue; par = true; }
    static const char* nm[] = {"from", "to"};
    for (int i = 0; i < 2; i++) t[i] = chance(50) ? str(nm[i], "_dir=", pt3(mm[i])) : str(nm[i], "_point=", pt3(am + mm[i]));
    V3 lm; flat(v.m, 6, &lm); V3 at = (am + lm) * v.m; const char* fmt = "%.1f"; std::string tfmt; if (chance(50)) { fmt = FMTS[ri(0, 9)]; tfmt = str(", fmt=\"", fmt, "\""); }
    Drawn d = one(m, v, p, "angle(at=" + pt3(am + lm) + ", apex=" + pt3(am) + "," + t[0] + "," + t[1] + tfmt + ");", f);
    if (par) { expect(!d.ok, "arms that are parallel on the page are accepted" + (d.ok && d.text.size() ? ": " + d.text[0].str : "")); continue; }
    expect(d.ok, "a valid angle is refused: " + diag);
    double a0 = std::atan2(arm[0].y(), arm[0].x()), a1 = std::atan2(arm[1].y(), arm[1].x()); if (cr < 0) std::swap(a0, a1);
    double sweep = std::fmod(a1 - a0 + 4 * PI, 2 * PI);   // counter-clockwise, below 180 degrees
    expect(d.text.size() == 1, "an angle has exactly one label");
    expect(prints(d.text[0].str, fmt, sweep * 180 / PI, "", " deg"), str("prints ", d.text[0].str, " for an angle of ", sweep * 180 / PI));
    expect(d.text[0].center && !d.text[0].raw && nearp(d.text[0].at, on(p, at)), "the label is not centred at its position");
    expect(d.arcs.size() == 1, "an angle has exactly one arc"); auto& c = d.arcs[0];
    expect(nearp(c.center, on(p, apex)), "the arc is not centred at the apex: " + S(c.center)); double r = (at - apex).norm() * p.s;
    expect(std::abs(c.r - r) < 2e-3 + 1e-5 * r, str("the arc's radius is ", c.r, " instead of ", r));
    auto same = [](double a, double b) { return std::abs(std::remainder(a - b, 2 * PI)) < 1e-5; };
    expect(same(c.start, a0) && same(c.end, a1), str("the arc runs from ", c.start * 180 / PI, " to ", c.end * 180 / PI, " instead of from ", a0 * 180 / PI, " to ", a1 * 180 / PI));
    for (auto& l : d.lines) expect(std::isfinite(l.o.x() + l.o.y() + l.t.x() + l.t.y()), "a line is not finite");
  }
}
static void c17() {
  while (more(1500, 60000)) {
    V2 c(ri(-16, 16) / 4.0, ri(-16, 16) / 4.0); double r = chance(50) ? ri(2, 24) / 8.0 : ri(250, 3000) / 1000.0; int n = ri(5, 24); std::string t; prism(&t, c, r, 0, ri(1, 4), n, rd(0, 6));
    Files f; f["m"] = load(t); auto& m = *f["m"]; View v; v.m = M3::Identity(); if (chance(30)) { v.text = "view=\"Z-\"; "; stl2ps::GetMatrixByName("Z-", &v.m); }
    Place p = place(m, v); bool dia = chance(50), none = chance(8);
    V3 at(ri(-32, 32) / 4.0, ri(-32, 32) / 4.0, 0), dm(0, 0, ri(-1, 1)); if (!none) { do dm = V3(ri(-3, 3), ri(-3, 3), ri(-1, 1)); while (dm.x() == 0 && dm.y() == 0); }
    V2 tg = c + V2(ri(-2, 2), ri(-2, 2)) * (r / 8); const char* fmt = "%.3f"; std::string tfmt; if (chance(50)) { fmt = FMTS[ri(0, 9)]; tfmt = str(", fmt=\"", fmt, "\""); }
    V3 tm(tg.x(), tg.y(), 0);
    std::string ce = chance(25) ? "center(" + pt3(tm) + ")" : chance(20) ? "near(" + pt3(V3(c.x() + r, c.y(), 0)) + ")" : pt3(tm);
    Drawn d = one(m, v, p, str(dia ? "dia" : "rad", "(at=", pt3(at), ", dir=", pt3(dm), ", center=", ce, tfmt, ");"), f);
    if (none) { expect(!d.ok, "a direction without a component in the page plane is accepted"); continue; }
    if (ce[0] == 'n' && !d.ok) continue;
    if (n < 7 && ce[0] != '[' && !d.ok) continue;
    expect(d.ok, "a valid dimension is refused: " + diag);
    V3 rc = V3(c.x(), c.y(), 0) * v.m, rat = at * v.m, rd3 = dm * v.m; V2 dir(rd3.x(), rd3.y()); dir /= dir.norm();
    V2 C(rc.x(), rc.y()); V2 pa = (C + dir * r) * p.s + p.d, pb = (C - dir * r) * p.s + p.d, pat = on(p, rat);
    expect(d.text.size() == 1 && d.arcs.empty(), "exactly one label is expected");
    if (dia) { expect(prints(d.text[0].str, fmt, 2 * r, "\\351", ""), str("prints ", d.text[0].str, " for a diameter of ", 2 * r)); expect(d.text[0].raw, "the diameter sign is not written as an encoded character"); }
    else expect(prints(d.text[0].str, fmt, r, "R", ""), str("prints ", d.text[0].str, " for a radius of ", r)), expect(!d.text[0].raw, "a plain label is flagged as encoded");
    expect(std::abs(d.text[0].at.y() - pat.y()) < 5e-3 && std::abs(d.text[0].at.x() - pat.x()) < 8.0 * (d.text[0].str.size() + 3), "the label is not at its position: " + S(d.text[0].at) + " for " + S(pat));
    expect(ends_at(d.lines, pa) >= 2, "no arrow tip at " + S(pa) + ": " + S(d.lines)); if (dia) expect(ends_at(d.lines, pb) >= 2, "no arrow tip at " + S(pb) + ": " + S(d.lines));
    expect(ends_at(d.lines, pat) >= 1, "the leader line does not end at the label position " + S(pat) + ": " + S(d.lines));
    for (auto& l : d.lines) expect(std::isfinite(l.o.x() + l.o.y() + l.t.x() + l.t.y()), "a line is not finite");
  }
}
static bool same_lines(std::vector<geo::Line> a, std::vector<geo::Line> b, double tol = 3e-3) {
  if (a.size() != b.size()) return false;
  for (auto& x : a) { bool f = false; for (size_t i = 0; i < b.size() && !f; i++) if ((nearp(x.o, b[i].o, tol) && nearp(x.t, b[i].t, tol)) || (nearp(x.o, b[i].t, tol) && nearp(x.t, b[i].o, tol))) { b.erase(b.begin() + i); f = true; } if (!f) return false; }
  return true;
}
static void c20() { empty_ok = true;
  while (more(800, 40000)) {
    if (chance(15)) {
      Files f; f["m"] = load(some_model()); static const char* bad[] = {"0:1", "1:0", "-1:1", "1:-2", "0:0", "-1:-1", "1.5:1", "1:0.5", "0.0:2"}; const char* b = bad[ri(0, 8)];
      std::string script = str("page { draw m { scale=", b, "; @ [1,1]; } }"); begin(script); stl2ps::Document doc; std::vector<OutputPage> pages;
      bool ok = stl2ps::Parse("f", script, &doc) == 0 && stl2ps::GeneratePages(f, doc, &pages); expect(!ok, str("the scale ", b, " is accepted")); continue;
    }
    Files f; int nm = ri(1, 2); for (int i = 0; i < nm; i++) f[str("m", i)] = load(some_model());
    std::string script = "page { "; std::vector<std::vector<geo::Line>> want(1); std::vector<std::vector<std::pair<V2, double>>> wt(1); int n = ri(1, 4); std::vector<std::vector<geo::Arc>> wa(1);
    for (int i = 0; i < n; i++) {
      if (i && chance(25)) { script += "} page { "; want.push_back({}); wt.push_back({}); wa.push_back({}); }
      std::string name = str("m", ri(0, nm - 1)); auto& m = *f[name]; View v = view(); Place p = place(m, v, true); std::vector<std::string> parts; std::string all = p.text + v.text, cur;
      for (char c : all) { cur += c; if (c == ';') { parts.push_back(cur); cur = ""; } } for (int k = int(parts.size()) - 1; k > 0; k--) std::swap(parts[k], parts[ri(0, k)]);
      script += "draw " + name + " { "; for (auto& x : parts) script += x + " ";
      for (auto& l : drawn(m, v)) want.back().push_back(geo::Line(V2(l.o * p.s + p.d), V2(l.t * p.s + p.d)));
      if (chance(60)) {   // a label and an arc through an angle between fixed page directions
        V3 am, a0, a1, lm; am = V3(ri(-4, 4), ri(-4, 4), ri(-4, 4)); flat(v.m, 1, &a0); V3 q = a0 * v.m; a1 = V3(-q.y(), q.x(), 0) * v.m.transpose(); flat(v.m, 5, &lm);
        script += "angle(at=" + pt3(am + lm) + ",apex=" + pt3(am) + ",from_dir=" + pt3(a0) + ",to_dir=" + pt3(a1) + "); ";
        wt.back().push_back({on(p, (am + lm) * v.m), 0}); V2 cc = on(p, am * v.m); double st = std::atan2(q.y(), q.x()); wa.back().push_back(geo::Arc(cc, (lm * v.m).norm() * p.s, st, st + PI / 2));
      }
      script += "} ";
    }
    script += "}"; std::string d; for (auto& x : f) { d += x.first + ":"; for (auto& q : x.second->Points()) d += S(q); d += "; "; }
    begin(script + "\n" + d); std::vector<OutputPage> pages; expect(generate(f, script, &pages), "a valid script is refused: " + diag);
    expect(pages.size() == want.size(), "pages are missing");
    for (size_t g = 0; g < pages.size(); g++) {
      auto l = pages[g].lines; expect(l.size() >= 2, "no title block"); l.resize(l.size() - 2);
      expect(pages[g].arcs.size() == wa[g].size(), str("page ", g + 1, ": ", pages[g].arcs.size(), " arcs instead of ", wa[g].size()));
      std::vector<geo::Line> model = l;
      // remove the lines of the angles: 6 lines each, in the order they are drawn
      if (!wa[g].empty()) {
        // match every expected model line, whatever is left belongs to the angles
        auto rest = l; for (auto& x : want[g]) { bool fd = false; for (size_t i = 0; i < rest.size() && !fd; i++) if ((nearp(x.o, rest[i].o) && nearp(x.t, rest[i].t)) || (nearp(x.o, rest[i].t) && nearp(x.t, rest[i].o))) { rest.erase(rest.begin() + i); fd = true; } expect(fd, str("page ", g + 1, ": the line ", S(x), " is missing or elsewhere: ", S(l))); }
        expect(rest.size() == 6 * wa[g].size(), str("page ", g + 1, ": ", rest.size(), " further lines"));
      } else expect(same_lines(l, want[g]), str("page ", g + 1, ": lines ", S(l), "\ninstead of ", S(want[g])));
      for (size_t i = 0; i < wa[g].size(); i++) { auto &x = pages[g].arcs[i], &w = wa[g][i]; expect(nearp(x.center, w.center) && std::abs(x.r - w.r) < 5e-3 + 2e-6 * w.r && std::abs(std::remainder(x.start - w.start, 2 * PI)) < 1e-4 && std::abs(std::remainder(x.end - w.end, 2 * PI)) < 1e-4, str("an arc is at ", S(x.center), " r ", x.r, " ", x.start, "..", x.end, " instead of ", S(w.center), " r ", w.r, " ", w.start, "..", w.end)); }
      expect(pages[g].text.size() == wt[g].size() + 1, "labels are missing"); for (size_t i = 0; i < wt[g].size(); i++) expect(nearp(pages[g].text[i].at, wt[g][i].first), "a label is at " + S(pages[g].text[i].at) + " instead of " + S(wt[g][i].first));
    }
  }
}
static void c21() {
  while (more(3000, 200000)) {
    std::string script = "page { "; struct L { V2 at; std::string s; }; std::vector<L> want; int n = ri(1, 3);
    for (int k = 0; k < n; k++) {
      std::string t, q; int len = chance(10) ? 0 : ri(1, 30); for (int i = 0; i < len; i++) { if (chance(25)) { t += '\n'; q += "\\n"; } else if (chance(10)) { char c = "'\"?\\"[ri(0, 3)]; t += c; q += '\\'; q += c; } else { char c; do c = chance(10) ? '\r' : chance(10) ? char(ri(128, 255)) : char(ri(32, 126)); while (c == '"' || c == '\\'); t += c; q += c; } }
      V2 at(0, 0); bool pos = chance(70); if (pos) at = chance(50) ? V2(ri(-5000, 5000) / 1000.0, ri(-5000, 5000) / 1000.0) : V2(ri(-40, 40) / 8.0, ri(-40, 40) / 8.0);
      script += "text [\"" + q + "\"] { " + (pos ? "@ " + pt2(at) + ";" : "") + " } ";
      size_t b = 0; for (int i = 0;; i++) { size_t e = t.find('\n', b); std::string s = t.substr(b, e == std::string::npos ? e : e - b); if (!s.empty()) want.push_back({V2(396 + 72 * at.x(), 306 + 72 * at.y() - 12 * i), s}); if (e == std::string::npos) break; b = e + 1; }
    }
    script += "}"; begin(esc(script)); std::vector<OutputPage> pages; Files f; expect(generate(f, script, &pages), "a valid text block is refused: " + diag);
    expect(pages.size() == 1, "not one page"); auto& x = pages[0].text;
    expect(x.size() == want.size() + 1, str(x.size() - 1, " labels instead of ", want.size()));
    for (size_t i = 0; i < want.size(); i++) {
      expect(x[i].str == want[i].s, "line " + std::to_string(i) + " is '" + esc(x[i].str) + "' instead of '" + esc(want[i].s) + "'");
      expect(nearp(x[i].at, want[i].at, 1e-4), "'" + esc(want[i].s) + "' stands at " + S(x[i].at) + " instead of " + S(want[i].at)); expect(!x[i].raw, "a text line is flagged as encoded"); expect(!x[i].center, "a text line is flagged as centred");
    }
    expect(pages[0].lines.size() == 2 && pages[0].arcs.empty(), "a text block draws something else");
  }
}
static void title(const OutputPage& g, size_t lines, size_t text, const std::string& name) {
  expect(g.text.size() == text + 1, "not exactly one title label"); auto& t = g.text.back();
  expect(t.str == name, "the title is '" + esc(t.str) + "' instead of '" + esc(name) + "'");
  expect(std::abs(t.at.x() + 4.8 * name.size() - 784) < 2e-3, str("the title ends at ", t.at.x() + 4.8 * name.size())); expect(!t.center && !t.raw, "the title is flagged as centred or encoded");
  expect(g.lines.size() == lines + 2, "the box is not two lines"); double x = t.at.x() - 3, h = t.at.y() + 8; std::vector<geo::Line> b(g.lines.end() - 2, g.lines.end());
  expect(std::abs(t.at.y() - 8) < 1e-6, "the title is not at the bottom");
  expect(same_lines(b, {geo::Line(V2(x, 5), V2(x, h)), geo::Line(V2(x, h), V2(787, h))}, 1e-3), "the box is " + S(b));
}
static void c22() {
  while (more(3000, 200000)) {
    std::string name; int len = chance(10) ? 0 : chance(90) ? ri(1, 40) : ri(100, 300); for (int i = 0; i < len; i++) name += chance(5) ? char(ri(128, 255)) : char(ri(32, 126));
    OutputPage g; int nl = ri(0, 4), nt = ri(0, 3), na = ri(0, 2);
    for (int i = 0; i < nl; i++) g.lines.push_back(geo::Line(V2(ri(0, 99), ri(0, 99)), V2(ri(0, 99), ri(0, 99)))); for (int i = 0; i < nt; i++) g.text.push_back(ps::Text(ri(0, 99), ri(0, 99), "t" + std::to_string(i))); for (int i = 0; i < na; i++) g.arcs.push_back(geo::Arc(V2(i, i), i, 0, 1));
    begin(str("page with ", nl, " lines, ", nt, " labels and ", na, " arcs; name '", esc(name), "'")); OutputPage o = g; g.AddHeader(name, ri(1, 3), 3); title(g, nl, nt, name);
    expect(g.arcs.size() == size_t(na), "arcs changed"); for (int i = 0; i < nl; i++) expect(g.lines[i] == o.lines[i], "a line already on the page changed"); for (int i = 0; i < nt; i++) expect(g.text[i].str == o.text[i].str && g.text[i].at == o.text[i].at, "a label already on the page changed");
    if (chance(40)) {
      int n = ri(1, 5); std::string script; std::vector<std::string> names; std::vector<int> texts;
      for (int i = 0; i < n; i++) { std::string q, t; int l = ri(0, 12); for (int k = 0; k < l; k++) { char c; do c = char(ri(32, 126)); while (c == '"' || c == '\\'); t += c; } bool has = chance(70); int tx = ri(0, 2); script += "page { "; bool after = chance(50); for (int k = 0; k < tx; k++) { if (has && !after && k == 0) script += "name=\"" + t + "\"; "; script += "text [\"x\"] {} "; } if (has && (after || !tx)) script += "name=\"" + t + "\"; "; script += "} "; names.push_back(has ? t : ""); texts.push_back(tx); }
      begin(script); std::vector<OutputPage> pages; Files f; expect(generate(f, script, &pages), "a valid script is refused: " + diag); expect(int(pages.size()) == n, "pages are missing"); for (int i = 0; i < n; i++) title(pages[i], 0, texts[i], names[i]);
    }
  }
}
// ---- C23: property vocabulary
struct Prop { std::string name; char type; std::string val; };   // types: s string, p point, n number, l location, r ratio
static std::string ptext(const Prop& p, char sep) { return (p.name == "@" ? "@ " : p.name + "=") + p.val + sep; }
static Prop prop(const std::string& n, char t) {
  Prop p{n, t, ""};
  switch (t) { case 's': p.val = n == "fmt" ? "\"%.2f\"" : n == "view" ? "\"X+\"" : "\"some\""; break; case 'p': p.val = n.find("dir") != std::string::npos ? (n[0] == 't' ? "[0,1,0]" : "[1,0,0]") : n == "to_point" ? "[0,5,0]" : n == "from_point" ? "[5,0,0]" : n == "to" ? "[2,1,0]" : n == "at" ? "[3,3,0]" : "[0,0,0]"; break; case 'n': p.val = "2.5"; break; case 'l': p.val = "[1,2]"; break; default: p.val = "1:2"; }
  return p;
}
static const std::vector<std::string> ODD = {"At", "nme", "froms", "colour", "x", "scales", "apexx", "_", "Dir"};
struct Vocab { std::string kind; std::map<std::string, std::string> types; std::vector<std::string> need; };
static const std::vector<Vocab> VOC = {
    {"dim", {{"at", "p"}, {"dir", "p"}, {"from", "p"}, {"to", "p"}, {"fmt", "s"}}, {"at", "dir", "from", "to"}},
    {"angle", {{"at", "p"}, {"apex", "p"}, {"from_dir", "p"}, {"from_point", "p"}, {"to_dir", "p"}, {"to_point", "p"}, {"fmt", "s"}}, {"at", "apex"}},
    {"dia", {{"at", "p"}, {"dir", "p"}, {"center", "p"}, {"fmt", "s"}}, {"at", "dir", "center"}},
    {"rad", {{"at", "p"}, {"dir", "p"}, {"center", "p"}, {"fmt", "s"}}, {"at", "dir", "center"}},
    {"draw", {{"scale", "r"}, {"view", "ls"}, {"@", "l"}}, {}},
    {"text", {{"@", "l"}}, {}},
    {"page", {{"name", "s"}}, {}}};
static void props(const Vocab& v, std::vector<Prop>* out, bool* good, std::string* why) {
  *good = true; std::vector<std::string> names; for (auto& t : v.types) names.push_back(t.first);
  std::set<std::string> use(v.need.begin(), v.need.end());
  if (v.kind == "angle") { use.insert(chance(50) ? "from_dir" : "from_point"); use.insert(chance(50) ? "to_dir" : "to_point"); }
  for (auto& n : names) if (v.kind != "angle" ? chance(50) : n == "fmt" && chance(50)) use.insert(n);
  for (auto& n : use) { auto& t = v.types.at(n); out->push_back(prop(n, t[ri(0, t.size() - 1)])); }
  int k = ri(0, 9);
  auto refuse = [&](const std::string& w) { *good = false; *why = w; };
  if (k == 0 && !out->empty()) { Prop p = (*out)[ri(0, out->size() - 1)]; if (chance(30) && p.type != 'p') { auto& t = v.types.at(p.name); p = prop(p.name, t[ri(0, t.size() - 1)]); } out->push_back(p); refuse("a duplicate " + p.name); }
  else if (k == 1 || k == 2) { std::string n; do { n = chance(60) ? ODD[ri(0, ODD.size() - 1)] : ""; if (n.empty()) { auto& o = VOC[ri(0, VOC.size() - 1)]; auto it = o.types.begin(); std::advance(it, ri(0, o.types.size() - 1)); n = it->first; } } while (v.types.count(n)); char t = "spnlr"[ri(0, 4)]; if (n == "@") t = 'l'; out->push_back(prop(n, t)); refuse("an unknown " + n); }
  else if (k == 3 && !v.need.empty()) { std::string n = v.need[ri(0, v.need.size() - 1)]; for (size_t i = 0; i < out->size(); i++) if ((*out)[i].name == n) { out->erase(out->begin() + i); break; } refuse("a missing " + n); }
  else if (k == 3 && v.kind == "angle") {}
  else if (k == 4 && v.kind == "angle") { std::string n = chance(50) ? "from" : "to"; bool both = chance(50); for (size_t i = 0; i < out->size(); i++) if ((*out)[i].name.rfind(n + "_", 0) == 0) { if (both) out->push_back(prop((*out)[i].name == n + "_dir" ? n + "_point" : n + "_dir", 'p')); else out->erase(out->begin() + i); break; } refuse(both ? "both " + n + "s" : "no " + n); }
  else if (k == 5 || k == 6) {
    std::vector<size_t> c; for (size_t i = 0; i < out->size(); i++) if ((*out)[i].name != "@") c.push_back(i);
    if (!c.empty()) { auto& p = (*out)[c[ri(0, c.size() - 1)]]; auto& ok = v.types.at(p.name); char t; do t = "spnlr"[ri(0, 4)]; while (ok.find(t) != std::string::npos); p = prop(p.name, t); refuse("an ill-typed " + p.name); }
  }
  else if (k == 7) {   // a name that stands for nothing is not silently ignored
    for (auto& p : *out) if (p.name == "view" && p.type == 's') { static const char* bad[] = {"", "x+", "X", "X++", "Q", " X+", "XX+", "Z-Z", "ISO"}; p.val = str("\"", bad[ri(0, 8)], "\""); refuse("a nameless view in the view"); }
    else if (p.name == "fmt" && p.type == 's' && chance(50)) { static const char* bad[] = {"%d", "", "%f%f", "%s", "100%", "%.2", "inch", "%%", "%f %"}; p.val = str("\"", bad[ri(0, 8)], "\""); refuse("an unusable format in the fmt"); break; }
  }
  for (int i = int(out->size()) - 1; i > 0; i--) std::swap((*out)[i], (*out)[ri(0, i)]);
}
static void c23() {
  std::string big; prism(&big, V2(0, 0), 3, 0, 1, 12, 0.1); Files f; f["m"] = load(big);
  while (more(4000, 200000)) {
    const Vocab& v = VOC[ri(0, VOC.size() - 1)]; std::vector<Prop> p; bool good; std::string why; props(v, &p, &good, &why); std::string script, in;
    bool dim = v.kind == "dim" || v.kind == "angle" || v.kind == "dia" || v.kind == "rad";
    auto other = [&]() -> std::string { return !chance(30) ? "" : chance(50) ? "text [\"t\"] {} " : "draw m { dim(at=[1,1,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0]); } "; };
    for (auto& x : p) in += ptext(x, dim ? ',' : ';') + (chance(20) ? "\n" : " ");
    if (dim) { if (!p.empty()) in = in.substr(0, in.rfind(',')); in = v.kind + "(" + in + "); "; std::string o = "dim(at=[1,1,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0]); "; script = "page { " + other() + "draw m { " + (chance(25) ? o : "") + in + (chance(25) ? o : "") + "} " + other() + "} "; }
    else if (v.kind == "draw") script = "page { " + other() + "draw m { " + in + "} " + other() + "} ";
    else if (v.kind == "text") script = "page { " + other() + "text [\"a\\nb\"] { " + in + "} " + other() + "} ";
    else script = "page { " + in + other() + "} ";
    if (chance(20)) script += "page { name=\"last\"; } "; if (chance(20)) script = "page { text [\"first\"] {} } " + script;
    begin(script + (good ? "(valid)" : "(" + why + ")")); std::vector<OutputPage> pages; bool ok = generate(f, script, &pages);
    expect(ok == good, good ? "rejected though nothing is wrong: " + diag : why + " property is accepted");
    if (!good) { expect(!diag.empty() && diag.back() == '\n', why + " property is rejected without a diagnostic"); }
    else expect(diag.empty(), "a valid script draws a diagnostic: " + diag);
  }
}
// ---- files
static std::string scratch;
static void mkscratch() { char t[] = "/tmp/verif-h-XXXXXX"; expect(mkdtemp(t) != nullptr, "no scratch directory"); scratch = t; if (chdir(t)) fail("chdir"); }
static void put_file(const std::string& n, const std::string& c) { std::ofstream o(n); o << c; }
static std::string get_file(const std::string& n) { std::ifstream i(n); return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::string stl_text(int id) { std::string t; box(&t, V3(id, 0, 0), V3(1, 2, 1)); return "solid s\n" + t + "endsolid s\n"; }
static bool is_model(const stl2ps::STLFile& m, int id) { auto p = m.Points(); if (p.size() != 8) return false; double lo = 1e9; for (auto& x : p) lo = std::min(lo, x.x()); return lo == id; }
static void cleanup() { if (!scratch.empty()) { if (chdir("/")) {} std::string c = "rm -rf '" + scratch + "'"; if (system(c.c_str())) {} } }
// runs f in a child (the load path is read once per process); returns what it reports, "" when all is well
static std::string child(const std::function<void()>& f) {
  int p[2]; if (pipe(p)) fail("pipe"); std::fflush(nullptr); pid_t k = fork();
  if (k == 0) { close(p[0]); out_fd = p[1]; f(); _exit(0); }
  close(p[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n); close(p[0]); int st = 0; waitpid(k, &st, 0);
  if (st != 0 && r.empty()) r = "@FAIL the program ends abnormally\ninput: " + current + "\n"; return r;
}
static void c24() {
  mkscratch(); for (int i = 0; i < 3; i++) put_file(str("m", i, ".stl"), stl_text(i)); put_file("bad.stl", "solid\nnonsense\n"); put_file("cut.stl", stl_text(1).substr(0, 400) + "\n");
  absl::SetFlag(&FLAGS_timestamp, false);
  while (more(600, 30000)) {
    std::string s; bool good = true; std::string why = "nothing"; int np = ri(0, 4), nm = ri(1, 3); if (chance(5)) nm = 0;
    auto bad = [&](const std::string& w) { good = false; why = w; };
    for (int i = 0; i < nm; i++) {
      int k = ri(0, 29); s += str("load m", i, " = \"");
      if (k == 0) { s += "missing.stl"; bad("a missing model file"); } else if (k == 1) { s += "bad.stl"; bad("a malformed model"); } else if (k == 2) { s += "cut.stl"; bad("a cut model"); } else s += (chance(30) ? scratch + "/" : "") + str("m", i, ".stl");
      s += "\"; "; if (k == 3) { s += str("load m", i, " = \"m0.stl\"; "); bad("a model declared twice"); }
    }
    const char* badel[] = {"draw nosuch { } ", "draw m0 { scale=0:1; } ", "draw m0 { view=\"Q\"; } ", "draw m0 { dim(at=[1,1,0],dir=[0,0,0],from=[0,0,0],to=[1,0,0]); } ", "draw m0 { what=1; } ", "text [\"x\"] { size=3; } ", "draw m0 { dim(); } ", "name=\"again\"; name=\"again\"; ", "name=5; ", "colour=\"red\"; ", "draw m0 { angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[-1,0,0]); } ", "draw m0 { dia(at=[1,1,0],dir=[1,0,0],center=bogus([0,0,0])); } ", "draw m0 { dim(at=[1,1,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0],fmt=\"%d\"); } ", "draw m0 { scale=1:2; scale=1:2; } "};
    auto fine = [&]() -> std::string { switch (nm ? ri(0, 3) : 0) { case 0: return "text [\"some (text)\\nmore\"] { @ [1,1]; } "; case 1: return str("draw m", ri(0, nm - 1), " { scale=1:", ri(1, 4), "; @ [0,0]; } "); case 2: return str("draw m", ri(0, nm - 1), " { view=\"X+\"; dim(at=[1,1,0],dir=[0,1,0],from=[0,0,0],to=[0,1,0]); } "); default: return str("draw m", ri(0, nm - 1), " { angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0]); } "); } };
    int where = chance(35) && np ? ri(0, np - 1) : -1;
    for (int g = 0; g < np; g++) {
      s += "page { "; bool named = false; int n = ri(0, 3), b = g == where ? ri(0, n) : -1;
      for (int i = 0; i <= n; i++) { if (i == b) { s += badel[ri(0, 13)]; bad("a bad element"); } if (i < n) s += fine(); if (b < 0 && !named && chance(20)) { s += str("name=\"p", g, "\"; "); named = true; } }
      s += "} ";
    }
    if (chance(8)) { const char* syn[] = {"page {", "}", "load = ;", "\"open", "page { draw { } }", "page { text [] {} }", "#", "pages {}", "page { name=; }"}; s += syn[ri(0, 8)]; bad("a syntax error"); }
    begin("script:\n" + s); if (!good) current += "\n(" + why + ")";
    std::istringstream in(s); std::ostringstream out, e; auto* old = std::cerr.rdbuf(e.rdbuf()); bool ok = stl2ps::ScriptToPS("the-script", in, out); std::cerr.rdbuf(old);
    expect(ok == good, good ? "the conversion fails though nothing is wrong: " + e.str() : "the conversion reports success in spite of " + why);
    if (!good) { expect(out.str().empty(), str(out.str().size(), " bytes are written in spite of ", why)); continue; }
    stl2ps::Document doc; expect(stl2ps::Parse("the-script", s, &doc) == 0, "does not parse the second time"); Files f; expect(stl2ps::LoadFiles(doc, &f), "models do not load the second time"); std::vector<OutputPage> pages; expect(stl2ps::GeneratePages(f, doc, &pages), "pages are refused the second time");
    expect(int(pages.size()) == np, "a page is missing"); std::ostringstream w; stl2ps::RenderPages("the-script", pages, w);
    auto strip = [](std::string t) { size_t a = t.find("% Time:"); if (a != std::string::npos) t.erase(a, t.find('\n', a) - a); return t; };
    expect(strip(out.str()) == strip(w.str()), "the output is not the complete rendering of every page");
    size_t shown = 0, at = 0; std::string o = out.str(); while ((at = o.find("\nshowpage", at)) != std::string::npos) { shown++; at++; } expect(int(shown) == np, str(shown, " pages are shown instead of ", np));
  }
}
static void c25() {
  mkscratch(); for (auto* d : {"cwd", "p1", "p2", "p3", "abs", "cwd/sub", "p1/sub"}) mkdir(d, 0755); if (chdir("cwd")) fail("chdir");
  static const char* names[] = {"a.stl", "b.stl", "c.stl", "sub/d.stl"}; std::vector<std::string> dirs{"cwd", "p1", "p2", "p3", "abs"};
  while (more(250, 20000)) {
    int id = 0; std::map<std::string, int> content; if (system(("rm -rf '" + scratch + "'/*/*").c_str())) {} for (auto& d : dirs) mkdir((scratch + "/" + d + "/sub").c_str(), 0755);
    for (auto& d : dirs) for (auto* n : names) { std::string p = scratch + "/" + d + "/" + n; if (chance(45)) { if (chance(8)) { put_file(p, "not a model\n"); content[p] = -1; } else if (chance(4)) { mkdir(p.c_str(), 0755); content[p] = -1; } else { put_file(p, stl_text(++id)); content[p] = id; } } }
    std::vector<std::string> path; int np = ri(0, 3); for (int i = 0; i < np; i++) path.push_back(chance(80) ? scratch + "/p" + std::to_string(ri(1, 3)) : chance(40) ? "../p1" : chance(30) ? ".." : scratch + "/nosuch");
    std::string flag; for (size_t i = 0; i < path.size(); i++) flag += (i ? "," : "") + path[i]; if (chance(15)) flag += ","; if (chance(10)) flag = "," + flag;
    stl2ps::Document doc; int n = ri(0, 4); bool good = true; std::map<std::string, int> want; std::string d; std::set<std::string> seen; int failing = 0;
    for (int i = 0; i < n; i++) {
      std::string nm = std::string(1, "pqrs"[ri(0, 3)]), src; bool abs = chance(20); src = abs ? scratch + "/abs/" + names[ri(0, 3)] : names[ri(0, 3)]; stl2ps::Loc loc; loc.filename = "scr"; loc.line = 10 + i;
      doc.models.emplace_back(nm, src, loc); d += "load " + nm + "=" + src + "; "; int got = -2;
      if (abs) { auto it = content.find(src); if (it != content.end()) got = it->second; }
      else { std::vector<std::string> at{scratch + "/cwd"}; for (auto& p : path) at.push_back(p == "../p1" ? scratch + "/p1" : p == ".." ? scratch : p); for (auto& p : at) { auto it = content.find(p + "/" + src); if (it != content.end()) { got = it->second; break; } } }
      if (!seen.insert(nm).second) { good = false; failing++; } else if (got < 0) { good = false; failing++; } else want[nm] = got;
    }
    std::string c; for (auto& x : content) c += x.first.substr(scratch.size()) + "=" + std::to_string(x.second) + " ";
    begin("load_path=" + flag + " " + d + " files: " + c, n > 0);
    std::string r = child([&] {
      absl::SetFlag(&FLAGS_load_path, flag); Files f; bool before = chance(30); if (before) f["old"] = nullptr; std::ostringstream e; auto* old = std::cerr.rdbuf(e.rdbuf()); bool ok = stl2ps::LoadFiles(doc, &f); std::cerr.rdbuf(old);
      expect(ok == good, good ? "loading fails though every model is there: " + e.str() : "loading succeeds though a declaration fails");
      expect(!f.count("old"), "the result of an earlier load survives");
      for (auto& w : want) { auto it = f.find(w.first); expect(it != f.end() && it->second, "the model " + w.first + " is not loaded"); expect(is_model(*it->second, w.second), "the model " + w.first + " is not loaded from the first place it is found (model " + std::to_string(w.second) + ")"); }
      if (good) expect(f.size() == want.size(), "more models than declared");
      int lines = 0; for (char x : e.str()) lines += x == '\n'; expect(lines >= failing, str("only ", lines, " diagnostics for ", failing, " failing declarations")); if (good) expect(lines == 0, "a diagnostic without a failure");
      if (good && n) { stl2ps::Document none; expect(stl2ps::LoadFiles(none, &f) && f.empty(), "the result of an earlier load survives"); }
    });
    if (!r.empty()) { put(r); cleanup(); _exit(1); }
  }
}
static const char* prog = nullptr;
static int runprog(const std::vector<std::string>& a, std::string* err) {
  int p[2]; if (pipe(p)) fail("pipe"); pid_t k = fork();
  if (k == 0) { std::vector<char*> v{const_cast<char*>(prog)}; for (auto& x : a) v.push_back(const_cast<char*>(x.c_str())); v.push_back(nullptr); dup2(p[1], 2); dup2(p[1], 1); close(p[0]); for (int s : {SIGABRT, SIGSEGV, SIGALRM}) signal(s, SIG_DFL); execv(prog, v.data()); _exit(99); }
  close(p[1]); char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) err->append(b, n); close(p[0]); int st = 0; waitpid(k, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
static void c26() {
  mkscratch(); put_file("m.stl", stl_text(1)); put_file("bad.stl", "junk\n"); mkdir("dir", 0755);
  while (more(60, 3000)) {
    bool gs = chance(90), go = chance(90), good = gs && go; std::string s, why; int k = ri(0, 11); std::string big;
    if (k == 0) { s = "page { "; good = false; } else if (k == 1) { s = "load m=\"nosuch.stl\"; page { draw m {} }"; good = false; } else if (k == 2) { s = "load m=\"bad.stl\"; page { }"; good = false; } else if (k == 3) { s = "page { draw m {} } page { }"; good = false; }
    else { if (chance(30)) for (int i = 0; i < 300; i++) big += "text [\"some words to fill the file\"] { @ [1,1]; } "; s = "load m=\"m.stl\"; page { draw m { @ [0,0]; } " + big + " } " + (chance(50) ? "page { name=\"two\"; }" : ""); }
    put_file("s.txt", s); std::string out = "o.ps", old = chance(50) ? "old content" : ""; if (system("rm -rf o.ps")) {} if (!old.empty()) put_file("o.ps", old); std::string script = "s.txt"; int w = ri(0, 14); bool device = false;
    if (w == 0) { out = "nosuch/o.ps"; good = false; } else if (w == 1) { out = "dir"; good = false; } else if (w == 2 || w == 3) { out = "/dev/full"; good = false; device = true; } else if (w == 4) { script = "nosuch.txt"; good = false; }
    std::vector<std::string> a; if (gs) a.push_back("--script=" + script); if (go) a.push_back("--output=" + out); if (chance(30)) std::reverse(a.begin(), a.end()); if (chance(30)) a.push_back("--timestamp=false");
    std::string d; for (auto& x : a) d += x + " "; begin(d + "\nscript: " + s.substr(0, 300)); std::string err; int rc = runprog(a, &err); current += "\nprogram's messages: " + err.substr(0, 600);
    expect((rc == 0) == good, good ? str("fails with status ", rc, " though nothing is wrong") : str("exits with status 0 though the output was not produced")); expect(rc != 99, "the program cannot be run");
    if (good) { std::string o = get_file("o.ps"); std::vector<psint::Ev> ev; std::string e; expect(psint::run(o, &ev, &e), "the output file is not valid: " + e); int pages = 0, shows = 0; for (auto& x : ev) { pages += x.k == psint::Ev::Page; shows += x.k == psint::Ev::Show; } int want = 1 + (s.find("two") != std::string::npos); expect(pages == want, str("the output file has ", pages, " pages instead of ", want)); expect(shows >= (big.empty() ? 1 : 300), "the output file is not complete"); }
    if (!gs || !go) { expect(get_file("o.ps") == old, "the output file was touched though an option is missing"); struct stat st; if (old.empty()) expect(stat("o.ps", &st) != 0, "the output file was created though an option is missing"); }
    (void)device;
  }
}
static void c27() {
  std::string f = "/tmp"; char t[] = "/tmp/verif-e-XXXXXX"; int fd = mkstemp(t); unlink(t); int keep = dup(2); dup2(fd, 2);
  std::string big; prism(&big, V2(0, 0), 3, 0, 1, 12, 0.1); Files files; files["m"] = load(big);
  while (more(3000, 60000)) {
    std::string name = chance(20) ? "" : chance(10) ? "100%s %d" : "dir/some file.txt", msg; int n = chance(10) ? 0 : chance(90) ? ri(1, 30) : ri(500, 5000); for (int i = 0; i < n; i++) msg += chance(10) ? "%snd\\"[ri(0, 4)] : char(ri(32, 126));
    bool known = chance(80); int bl = ri(-1, 2000), el = chance(50) ? bl : bl + ri(1, 90), bc = ri(0, 200), ec = ri(0, 200);
    begin(str("name ", known ? name : "(none)", " ", bl, ":", bc, " - ", el, ":", ec, " message '", msg.substr(0, 200), "'")); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET);
    stl2ps::error(known ? &name : nullptr, bl, bc, el, ec, msg); fflush(stderr); std::string got; char b[8192]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) got.append(b, k);
    std::string who = known ? name : "??", want = bl == el ? str("error ", who, ":", bl, ":[", bc, ",", ec, "]: ", msg, "\n") : str("error ", who, ":", bl, ":", bc, " to ", el, ":", ec, ": ", msg, "\n");
    expect(got == want, "the diagnostic is '" + got.substr(0, 400) + "' instead of '" + want.substr(0, 400) + "'");
    if (chance(20)) {
      stl2ps::Loc loc; loc.filename = chance(50) ? "a/b.txt" : "x y"; loc.line = ri(0, 500); begin(str("message about ", loc.filename, ":", loc.line, " '", msg.substr(0, 100), "'")); std::ostringstream e; auto* old = std::cerr.rdbuf(e.rdbuf());
      if (chance(50)) { stl2ps::ErrorMessage m("src.cc", 7, loc); m.get() << msg; } else { stl2ps::Model node("n", "s", loc); stl2ps::ErrorMessage m("src.cc", 7, node); m.get() << msg; }
      std::cerr.rdbuf(old); std::string g = e.str(); if (g.rfind("(src.cc:7) ", 0) == 0) g = g.substr(11); expect(g == str(loc.filename, ":", loc.line, ": ", msg, "\n"), "the diagnostic is '" + g + "'");
    }
    if (chance(10)) {   // the line of the element a diagnostic is about
      const char* el[] = {"draw nosuch {}", "draw m { dim(); }", "draw m { scale=0:1; }", "draw m { view=3; }", "text [\"a\"] { x=1; }", "colour=\"r\";", "draw m { angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[1,0,0]); }", "draw m { rad(at=[1,1,0],dir=[0,0,1],center=[0,0,0]); }", "name=7;", "draw m { dia(); }", "draw m { angle(); }", "draw m { fmt=\"a\"; }"};
      int line = ri(1, 40), page = ri(1, line); std::string s(page - 1, '\n'); s += "page {" + std::string(line - page, '\n'); int which = ri(0, 11); s += std::string(" ") + el[which] + "\n\n }\n"; begin(str("element on line ", line, " (page on line ", page, "): ", el[which])); std::vector<OutputPage> pages; bool ok = generate(files, s, &pages); expect(!ok, "an invalid element is accepted");
      expect(!diag.empty() && diag.back() == '\n', "no diagnostic line"); std::istringstream in(diag); std::string l; bool here = false;
      while (std::getline(in, l)) { size_t p = l.find("the-script:"); expect(p == 0 || (l[0] == '(' && l[p - 1] == ' ' && l[p - 2] == ')'), "a diagnostic does not start with file and line: " + l); int at = atoi(l.c_str() + p + 11); if (at == line) here = true; expect(at == line || at == page, str("a diagnostic names line ", at, ": ", l)); }
      expect(here, "no diagnostic names line " + std::to_string(line) + ": " + diag);
    }
  }
  dup2(keep, 2); (void)f;
}
int main(int argc, char** argv) {
  init(argc, argv); std::string m = argc > 1 ? argv[1] : "C20"; prog = argc > 4 ? argv[4] : nullptr;
  std::map<std::string, std::function<void()>> f{{"C15", c15}, {"C16", c16}, {"C17", c17}, {"C20", c20}, {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C24", c24}, {"C25", c25}, {"C26", c26}, {"C27", c27}};
  on_exit_hook = cleanup; f.at(m)(); cleanup();
  return done();
}
