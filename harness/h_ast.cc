// Executable oracles for script values and lookups: C04, C05, C18, C19.
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include "stl-to-ps/eigen_wrap.h"
#include "stl-to-ps/ast.h"
#include "stl-to-ps/center.h"
#include "stl-to-ps/geo.h"
#include "stl-to-ps/parser.h"
#include "vh.h"
using namespace vh;
using V2 = Eigen::RowVector2d;
using V3 = Eigen::RowVector3d;
static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '|') r += c; else { snprintf(b, 8, "<%02x>", c); r += b; } return r; }
static std::string S(const V3& p) { return str("(", p.x(), ",", p.y(), ",", p.z(), ")"); }
static std::string S(const V2& p) { return str("(", p.x(), ",", p.y(), ")"); }
static std::string S(const std::vector<V2>& v) { std::string r; for (auto& p : v) r += S(p); return r; }
// ---- C04
static void lit(std::string* quoted, std::string* plain) {
  int n = chance(10) ? 0 : chance(85) ? ri(1, 14) : ri(200, 700); std::string q, p;
  for (int i = 0; i < n; i++) {
    if (chance(45)) { char c = "'\"?\\n"[ri(0, 4)]; q += '\\'; q += c; p += c == 'n' ? '\n' : c; }
    else { char c; do c = chance(30) ? char(ri(0, 255)) : chance(30) ? "n'?rt0 "[ri(0, 6)] : char(ri(32, 126)); while (c == '"' || c == '\\' || c == '\n'); q += c; p += c; }
  }
  *quoted = "\"" + q + "\""; *plain = p;
}
static void c04() {
  while (more(4000, 300000)) {
    std::string q, p; lit(&q, &p); begin("literal " + esc(q));
    std::unique_ptr<std::string> r(stl2ps::NewQuote(q));
    expect(r != nullptr, "no value"); expect(*r == p, "decodes to '" + esc(*r) + "' instead of '" + esc(p) + "'");
    if (chance(15)) {
      std::string q2, p2; lit(&q2, &p2); bool two = chance(40);
      std::string script = "page {\n text [" + q + (two ? " \n" + q2 : "") + "] {} }"; begin("script " + esc(script));
      stl2ps::Document doc; int rc = stl2ps::Parse("f", script, &doc);
      expect(rc == 0, "a valid script was refused");
      expect(doc.pages.size() == 1 && doc.pages[0].draws.size() == 1, "the text block is missing");
      auto* t = dynamic_cast<stl2ps::Text*>(doc.pages[0].draws[0].get());
      expect(t && t->text == p + (two ? p2 : ""), "the script's text is '" + (t ? esc(t->text) : "?") + "' instead of '" + esc(p + (two ? p2 : "")) + "'");
    }
  }
}
// ---- C05
static bool near(double a, double b) { return std::abs(a - b) < 1e-9; }
static void proper(const Eigen::Matrix3d& m, const std::string& w) {
  Eigen::Matrix3d i = m * m.transpose();
  for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) expect(near(i(r, c), r == c), w + ": not orthonormal");
  expect(near(m.determinant(), 1), w + ": mirrored");
}
static void c05() {
  struct { const char* n; int ax; int sg; } views[] = {{"X+", 0, 1}, {"X-", 0, -1}, {"Y+", 1, 1}, {"Y-", 1, -1}, {"Z+", 2, 1}, {"Z-", 2, -1}};
  while (more(3000, 200000)) {
    for (auto& v : views) {
      begin(v.n); Eigen::Matrix3d m; m << 9, 9, 9, 9, 9, 9, 9, 9, 9;
      expect(stl2ps::GetMatrixByName(v.n, &m), std::string(v.n) + " is refused");
      proper(m, v.n); V3 d(0, 0, 0); d[v.ax] = v.sg; V3 t = d * m;
      expect((t - V3(0, 0, 1)).norm() < 1e-9, std::string(v.n) + ": the viewer sees " + S(t));
      V3 up = V3(0, 0, 1) * m, right = V3(1, 0, 0) * m;
      if (v.ax != 2) expect((up - V3(0, 1, 0)).norm() < 1e-9, std::string(v.n) + ": Z points to " + S(up));
      else expect((right - V3(1, 0, 0)).norm() < 1e-9, std::string(v.n) + ": X points to " + S(right));
    }
    std::string n; int k = ri(0, 3); static const char* pick = "XYZxyz+-0 ";
    if (k == 0) { n = views[ri(0, 5)].n; n += pick[ri(0, 9)]; } else if (k == 1) { n = std::string(1, pick[ri(0, 9)]) + pick[ri(0, 9)]; } else if (k == 2) n = std::string(1, pick[ri(0, 9)]); else n = chance(30) ? "" : std::string(views[ri(0, 5)].n).append(1, '\0');
    bool known = false; for (auto& v : views) known |= n == v.n;
    begin("name " + esc(n), !known); Eigen::Matrix3d m, m0; m << 1, 2, 3, 4, 5, 6, 7, 8, 9; m0 = m;
    bool r = stl2ps::GetMatrixByName(n, &m);
    if (!known) { expect(!r, "the name " + esc(n) + " is accepted"); expect(m == m0, "an unknown name produces a view"); }
    double a = chance(40) ? 15.0 * ri(-30, 30) : rd(-720, 720), b = chance(40) ? 15.0 * ri(-30, 30) : rd(-720, 720);
    begin(str("angles ", a, " ", b)); Eigen::Matrix3d g = stl2ps::GetMatrixByAng(V2(a, b)); proper(g, str("angles ", a, " ", b));
    const double R = 3.14159265358979323846 / 180; double x = std::cos(a * R), y = std::sin(a * R), c = std::cos(b * R), s = std::sin(b * R);
    V3 p(rd(-5, 5), rd(-5, 5), rd(-5, 5));
    V3 q(p.x() * x - p.y() * y, p.x() * y + p.y() * x, p.z());      // about the vertical axis
    V3 t(q.x(), q.y() * c + q.z() * s, -q.y() * s + q.z() * c);     // about the page's horizontal axis
    V3 got = p * g;
    expect((t - got).norm() < 1e-7, str("angles ", a, ",", b, " take ", S(p), " to ", S(got), " instead of ", S(t)));
  }
}
// ---- C18
static void c18() {
  while (more(3000, 200000)) {
    std::vector<V2> v; V2 c; double r; bool circle = chance(60); std::string d;
    if (circle) {
      c = chance(50) ? V2(ri(-20, 20), ri(-20, 20)) : V2(rd(-50, 50), rd(-50, 50)); r = chance(50) ? ri(1, 9) : rd(0.05, 40);
      int n = chance(50) ? 3 : ri(4, 30); double span = chance(25) ? rd(0.05, 0.9) : rd(0.9, 6.2), a0 = rd(0, 6.2);
      for (int i = 0; i < n; i++) { double a = a0 + (i == 0 ? 0 : i == 1 ? span : i == 2 ? span / 2 : rd(0, span)); v.push_back(c + r * V2(std::cos(a), std::sin(a))); }
      if (chance(70)) for (int i = n - 1; i > 0; i--) std::swap(v[i], v[ri(0, i)]);
      if (chance(30)) {                  // every point several times in a row, or all of them several times over
        std::vector<V2> w; int m = ri(2, 12);
        if (chance(70)) { for (auto& p : v) for (int i = 0; i < m; i++) w.push_back(p); } else for (int i = 0; i < m; i++) w.insert(w.end(), v.begin(), v.end());
        v = w;
      }
    } else if (chance(40)) { int n = ri(0, 2); for (int i = 0; i < n; i++) v.push_back(V2(ri(-5, 5), ri(-5, 5))); }
    else { V2 o(ri(-9, 9), ri(-9, 9)), u(ri(-4, 4), ri(-4, 4)); int n = ri(3, 9); for (int i = 0; i < n; i++) v.push_back(o + u * ri(-6, 6)); }
    begin((circle ? "circle " : "no circle ") + S(v));
    V2 gc(1234, 5678); double gr = -1; bool ok = stl2ps::FindCircle(v, &gc, &gr);
    if (!circle) { expect(!ok, str("reports a circle at ", S(gc), " radius ", gr)); continue; }
    expect(ok, "no circle found");
    double tol = 1e-5 * (1 + r + c.norm());
    expect((gc - c).norm() < tol && std::abs(gr - r) < tol, str("centre ", S(gc), " radius ", gr, " instead of ", S(c), " ", r));
  }
}
// ---- C19
static std::unique_ptr<stl2ps::Point> val(V3 p) { return std::unique_ptr<stl2ps::Point>(new stl2ps::Val(p, stl2ps::Loc())); }
static std::unique_ptr<stl2ps::Point> fun(const std::string& n, std::unique_ptr<stl2ps::Point> p) { return std::unique_ptr<stl2ps::Point>(new stl2ps::PointFunc(std::unique_ptr<std::string>(new std::string(n)), std::move(p), stl2ps::Loc())); }
static void c19() {
  while (more(4000, 300000)) {
    std::vector<V2> v; int n = chance(10) ? 0 : ri(1, chance(80) ? 9 : 40), g = ri(1, 6); double h = chance(50) ? 1 : 0.5;
    for (int i = 0; i < n; i++) v.push_back(i && chance(20) ? v[ri(0, i - 1)] : V2(ri(-g, g) * h, ri(-g, g) * h));
    if (chance(15)) for (auto& p : v) p += V2(30, 40);   // near-duplicates at equal distance become possible
    V2 to(ri(-g, g), ri(-g, g)); if (!v.empty() && chance(20)) to = v[ri(0, n - 1)];
    int k = chance(5) ? ri(-2, 0) : chance(60) ? 3 : ri(1, 12);
    auto d2 = [&](const V2& p) { return (p - to).squaredNorm(); };
    begin(str("closest ", k, " to ", S(to), " of ", S(v)), n > 0);
    auto r = stl2ps::point_impl::Closest(v, k, to);
    expect(int(r.size()) <= std::max(k, 0), str(r.size(), " points for at most ", k));
    std::vector<int> used(n, 0);
    for (size_t i = 0; i < r.size(); i++) {
      if (i) expect(d2(r[i - 1]) <= d2(r[i]), "not in order of distance: " + S(r));
      bool f = false; for (int j = 0; j < n && !f; j++) if (!used[j] && v[j] == r[i]) { used[j] = 1; f = true; }
      expect(f, "not one of the given points (or returned more often than given): " + S(r[i]) + " in " + S(r));
    }
    if (k >= 1) for (int j = 0; j < n; j++) if (!used[j]) {
      bool dup = false; for (auto& q : r) dup |= d2(q) == d2(v[j]) && (q - v[j]).squaredNorm() < 0.01 * d2(v[j]);
      expect(dup || (int(r.size()) == k && d2(r.back()) <= d2(v[j])), "left out though closer or missing: " + S(v[j]) + " result " + S(r));
    }
    double lo = ri(0, 10) * 0.5, hi = chance(10) ? lo : chance(10) ? lo - 1 : lo + ri(0, 10) * 0.5;
    begin(str("between ", lo, " and ", hi, " from ", S(to), " of ", S(v)), n > 0);
    auto b = stl2ps::point_impl::Between(v, lo, hi, to); std::vector<V2> want;
    for (auto& p : v) if (hi >= 0 && lo <= hi && lo * lo < d2(p) && d2(p) < hi * hi) want.push_back(p);
    expect(b == want, "ring is " + S(b) + " instead of " + S(want));
    geo::point_set ps; int m = chance(12) ? 0 : ri(1, 9); for (int i = 0; i < m; i++) ps.insert(V3(ri(-3, 3), ri(-3, 3), ri(-3, 3)));
    V3 t(ri(-4, 4) * h, ri(-4, 4) * h, ri(-4, 4)); if (m && chance(25)) { auto it = ps.begin(); std::advance(it, ri(0, ps.size() - 1)); t = *it; if (chance(30)) t.z() += 1; }
    if (chance(12)) { double far = std::pow(10, ri(2, 6)); V3 off(ri(-3, 3) * far, ri(-3, 3) * far, 0); geo::point_set q; bool in = ps.count(t); for (auto& p : ps) q.insert(chance(50) ? p + off : p); ps = q; if (in && !ps.empty()) t = *ps.begin(); m = ps.size(); }   // far away
    std::string d = str("nearest to ", S(t), " of "); for (auto& p : ps) d += S(p);
    begin(d, m > 0);
    bool nested = chance(15); auto f = fun("near", nested ? fun("near", val(t)) : val(t)); V3 got(77, 88, 99);
    bool ok = f->Invoke(ps, &got);
    expect(ok == (m > 0), m ? "the lookup is refused" : "a lookup over an empty model succeeds");
    if (m && !nested) {
      if (ps.count(t)) expect(got == t, "the target is a vertex but " + S(got) + " is returned");
      else {
        double best = 1e300; bool is = false; for (auto& p : ps) { double e = V2(p.x() - t.x(), p.y() - t.y()).squaredNorm(); best = std::min(best, e); }
        for (auto& p : ps) is |= p.x() == got.x() && p.y() == got.y() && V2(p.x() - t.x(), p.y() - t.y()).squaredNorm() == best;
        expect(is && got.z() == 0, S(got) + " is not the page position of a nearest vertex");
      }
    } else if (m) {
      bool is = false; for (auto& p : ps) is |= (p.x() == got.x() && p.y() == got.y());
      expect(is, S(got) + " is not a vertex position");
    }
    static const char* bad[] = {"Near", "nearest", "", "centre", "nea", "near ", "CENTER", "x"};
    begin("unknown lookup"); V3 u; expect(!fun(bad[ri(0, 7)], val(t))->Invoke(ps, &u), "an unknown lookup is accepted");
    begin("lookup through a refused one"); expect(!fun("near", fun("bogus", val(t)))->Invoke(ps, &u), "a refused inner lookup is ignored");
    expect(!fun("center", fun("bogus", val(t)))->Invoke(ps, &u), "a refused inner lookup is ignored");
    if (ps.size() < 3) expect(!fun("center", val(t))->Invoke(ps, &u), "a centre of fewer than three points");
    // vertices of a circle, well apart, and others outside of twice its radius
    V2 c(ri(-9, 9), ri(-9, 9)); double R = ri(1, 20) * 0.25, z = ri(-3, 3); geo::point_set cp; double a = ri(0, 62) * 0.1, a0 = a;
    while (a < a0 + 2 * M_PI - 0.4) { cp.insert(V3(c.x() + R * cos(a), c.y() + R * sin(a), z)); a += 0.4 + ri(0, 9) * 0.1; }
    for (int i = ri(0, 4); i--;) { double b = ri(0, 62) * 0.1, e = R * (2 + ri(1, 8) * 0.5); cp.insert(V3(c.x() + e * cos(b), c.y() + e * sin(b), z)); }
    V3 ct(c.x() + R * ri(-3, 3) * 0.1, c.y() + R * ri(-3, 3) * 0.1, ri(-2, 2)); d = str("centre near ", S(ct), " of "); for (auto& p : cp) d += S(p);
    begin(d, true); got = V3(77, 88, 99); ok = fun("center", val(ct))->Invoke(cp, &got);
    expect(ok, "no centre is found"); expect((V2(got.x(), got.y()) - c).norm() < 1e-6 * (1 + R) && got.z() == 0, "the centre is " + S(c) + " on the page but " + S(got) + " is returned");
    // vertices on a circle, the three nearest to the target among them, and others well inside or outside
    { geo::point_set q; std::vector<V3> rim, all; int k = chance(40) ? 3 : ri(3, 6); double b = rd(0, 6.3), w = rd(1.2, 6);
      for (int i = 0; i < k; i++) { double x = b + w * i / k; rim.push_back(V3(c.x() + R * cos(x), c.y() + R * sin(x), ri(-2, 2))); }
      all = rim; if (chance(70)) for (int i = ri(0, 6); i--;) { double x = rd(0, 6.3), e = R * (chance(30) ? rd(0, 0.5) : rd(1.5, 4)); all.push_back(V3(c.x() + e * cos(x), c.y() + e * sin(x), ri(-2, 2))); }
      V3 tt(c.x() + R * rd(-2, 2), c.y() + R * rd(-2, 2), ri(-2, 2)); for (auto& p : all) q.insert(p);
      auto dd = [&](const V3& p) { return std::hypot(p.x() - tt.x(), p.y() - tt.y()); };
      std::vector<std::pair<double, int>> o; for (size_t i = 0; i < all.size(); i++) o.push_back({dd(all[i]), int(i)}); std::sort(o.begin(), o.end());
      bool ok3 = q.size() == all.size(); for (size_t i = 0; i < o.size() && i < 4; i++) { if (i < 3 && o[i].second >= k) ok3 = false; if (i && o[i].first - o[i - 1].first < 1e-3 * R) ok3 = false; }
      if (ok3) { d = str("centre near ", S(tt), " of "); for (auto& p : q) d += S(p); begin(d, true); got = V3(77, 88, 99); expect(fun("center", val(tt))->Invoke(q, &got), "no centre is found");
        expect((V2(got.x(), got.y()) - c).norm() < 1e-5 * (1 + R) && got.z() == 0, "the centre is " + S(c) + " on the page but " + S(got) + " is returned"); } }
    begin("a centre of vertices on one line"); geo::point_set lp; for (int i = 0; i < 6; i++) lp.insert(V3(i * 2, i, 0)); expect(!fun("center", val(ct))->Invoke(lp, &got), "vertices on one line have a centre");
  }
}
int main(int argc, char** argv) {
  init(argc, argv); std::string m = argc > 1 ? argv[1] : "C04";
  if (m == "C04") c04(); else if (m == "C05") c05(); else if (m == "C18") c18(); else c19();
  return done();
}
