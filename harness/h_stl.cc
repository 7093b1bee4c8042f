// Executable oracles for the model geometry: C06..C14, C28.
#include <algorithm>
#include <array>
#include <cfenv>
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <tuple>
#include <vector>
#include "stl-to-ps/eigen_wrap.h"
#define private public
#include "stl-to-ps/geo.h"
#include "stl-to-ps/stl.h"
#undef private
#include "vh.h"
using namespace vh;
using namespace stl2ps;
using V3 = Eigen::RowVector3d;
using V2 = Eigen::RowVector2d;

static std::string S(const V3& p) { return str("(", p.x(), ",", p.y(), ",", p.z(), ")"); }
static std::string S(const Facet& f) { return str("n", S(f.norm), "v", S(f.edge[0]), S(f.edge[1]), S(f.edge[2])); }
static std::string S(const STLFile& m) { std::string r; for (auto& f : m.facets) r += S(f) + " "; return r; }
static V3 ipt(int r) { return V3(ri(-r, r), ri(-r, r), ri(-r, r)); }
static bool lex3(const V3& a, const V3& b) { for (int i = 0; i < 3; i++) if (a[i] != b[i]) return a[i] < b[i]; return false; }
static Facet tri(const V3& a, const V3& b, const V3& c) {
  V3 n = (b - a).cross(c - a);
  Facet f; double l = n.norm(); f.norm = l > 0 ? V3(n / l) : V3(0, 0, 1);
  f.edge[0] = a; f.edge[1] = b; f.edge[2] = c; f.r = f.norm.dot(a);
  return f;
}
static void quad(std::vector<Facet>& o, V3 a, V3 b, V3 c, V3 d) { if (chance(50)) { o.push_back(tri(a, b, c)); o.push_back(tri(a, c, d)); } else { o.push_back(tri(a, b, d)); o.push_back(tri(b, c, d)); } }
static void box(std::vector<Facet>& o, V3 p, V3 s) {
  auto q = [&](int i) { return V3(p.x() + (i & 1 ? s.x() : 0), p.y() + (i & 2 ? s.y() : 0), p.z() + (i & 4 ? s.z() : 0)); };
  quad(o, q(0), q(2), q(3), q(1)); quad(o, q(4), q(5), q(7), q(6)); quad(o, q(0), q(1), q(5), q(4));
  quad(o, q(2), q(6), q(7), q(3)); quad(o, q(0), q(4), q(6), q(2)); quad(o, q(1), q(3), q(7), q(5));
}
static STLFile model(bool soup_ok = true) {
  STLFile m; int k = ri(0, 9);
  if (k < 4 || !soup_ok) { int n = ri(1, 3); for (int i = 0; i < n; i++) box(m.facets, ipt(4), V3(ri(1, 4), ri(1, 4), ri(1, 4))); }
  else if (k < 6) { V3 a = ipt(3), b = ipt(3), c = ipt(3), d = ipt(3); if ((b - a).cross(c - a).dot(d - a) > 0) std::swap(b, c); m.facets = {tri(a, b, c), tri(a, c, d), tri(a, d, b), tri(b, d, c)}; }
  else {
    int n = ri(0, 8); std::vector<V3> pool; for (int i = 0; i < ri(3, 7); i++) pool.push_back(ipt(3));
    for (int i = 0; i < n; i++) { V3 a = pool[ri(0, pool.size() - 1)], b = pool[ri(0, pool.size() - 1)], c = pool[ri(0, pool.size() - 1)]; if ((b - a).cross(c - a).squaredNorm() == 0) continue; m.facets.push_back(tri(a, b, c)); }
  }
  for (int i = int(m.facets.size()) - 1; i > 0; i--) std::swap(m.facets[i], m.facets[ri(0, i)]);
  return m;
}
static Eigen::Matrix3d mat() {
  switch (ri(0, 7)) {
    case 0: return geo::matrix::XP; case 1: return geo::matrix::XN; case 2: return geo::matrix::YP;
    case 3: return geo::matrix::YN; case 4: return geo::matrix::ZP; case 5: return geo::matrix::ZN;
    case 6: return geo::Rotate(rd(-7, 7), rd(-7, 7));
    default: { Eigen::Matrix3d m; double a = rd(0, 6.3); m << std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a), 0, 0, 0, 1; return m; }
  }
}
static bool near(const V3& a, const V3& b, double e = 1e-9) { return (a - b).norm() <= e * (1 + a.norm() + b.norm()); }

// ---------------------------------------------------------------- C07
static void c07() {
  while (more(3000, 200000)) {
    V3 v[3]; int r = ri(1, 5);
    bool frac = chance(40);
    for (auto& p : v) p = frac ? V3(rd(-r, r), rd(-r, r), rd(-r, r)) : ipt(r);
    if (chance(10)) { double s = std::pow(10, ri(-6, 6)); for (auto& p : v) p = p * s; }
    if (chance(10)) { V3 o = ipt(1000); for (auto& p : v) p = p + o; }
    V3 c = (v[1] - v[0]).cross(v[2] - v[0]);
    V3 n = chance(30) ? c : chance(40) ? V3(-c) : ipt(2);
    double scale = (v[1] - v[0]).norm() * (v[2] - v[0]).norm();
    if (c.norm() <= 1e-6 * scale || scale == 0) continue;
    begin(str("Facet normal ", S(n), " vertices ", S(v[0]), S(v[1]), S(v[2])));
    Facet f(n, {v[0], v[1], v[2]});
    std::vector<V3> a{f.edge[0], f.edge[1], f.edge[2]}, b{v[0], v[1], v[2]};
    std::sort(a.begin(), a.end(), lex3); std::sort(b.begin(), b.end(), lex3);
    expect(a == b, "the facet does not keep exactly the three vertices");
    expect(std::abs(f.norm.norm() - 1) < 1e-9, "the normal is not a unit vector");
    V3 e1 = f.edge[1] - f.edge[0], e2 = f.edge[2] - f.edge[0];
    expect(std::abs(f.norm.dot(e1)) < 1e-6 * e1.norm() && std::abs(f.norm.dot(e2)) < 1e-6 * e2.norm(), "the normal is not perpendicular to the triangle");
    expect(f.norm.dot(n) >= -1e-6 * n.norm(), "the normal points against the declared one");
    expect(f.norm.dot(e1.cross(e2)) > 0, "the vertices are not counter-clockwise around the normal");
    double mag = 1e-9 * (1 + std::abs(f.edge[0].norm()) + f.edge[1].norm() + f.edge[2].norm());
    for (auto& p : f.edge) expect(std::abs(f.norm.dot(p) - f.r) <= mag * 10, str("vertex ", S(p), " is off the stored plane r=", f.r));
  }
}
// ---------------------------------------------------------------- C08
static std::string key(const Facet& f) { return str(S(f.norm), S(f.edge[0]), S(f.edge[1]), S(f.edge[2]), f.r); }
static void c08() {
  while (more(2000, 100000)) {
    STLFile m = model(); Eigen::Matrix3d x = mat();
    std::ostringstream mm; mm << x;
    // give every facet an identity through its plane offset
    for (size_t i = 0; i < m.facets.size(); i++) m.facets[i].r = 1000 + i;
    begin(str("matrix ", mm.str(), " model ", S(m)), m.facets.size() > 1);
    STLFile before = m;
    STLFile r = m.Rotate(x);
    expect(m.facets.size() == before.facets.size(), "Rotate changed the model it was called on");
    for (size_t i = 0; i < m.facets.size(); i++) expect(key(m.facets[i]) == key(before.facets[i]), "Rotate changed the model it was called on");
    std::map<long, int> got;
    for (auto& f : r.facets) {
      long id = long(f.r) - 1000;
      expect(id >= 0 && id < long(m.facets.size()) && f.r == 1000 + id, "the result has a facet that is none of the model's (or its plane offset changed)");
      expect(got[id]++ == 0, "a facet appears twice in the result");
      expect(near(f.norm, m.facets[id].norm * x), "a normal is not rotated by the matrix");
      for (int k = 0; k < 3; k++) expect(near(f.edge[k], m.facets[id].edge[k] * x), str("vertex ", k, " is not rotated by the matrix"));
      expect(f.norm.z() > 0, "a facet that does not face the viewer is kept");
    }
    for (size_t i = 0; i < m.facets.size(); i++) {
      double z = (m.facets[i].norm * x).z();
      if (z > 1e-12) expect(got.count(i), str("facet ", i, " faces the viewer but is dropped"));
    }
    STLFile c = m; c.CullBackFace();
    size_t want = 0; for (auto& f : m.facets) want += f.norm.z() > 0;
    expect(c.facets.size() == want, "CullBackFace keeps the wrong number of facets");
    for (auto& f : c.facets) expect(f.norm.z() > 0, "CullBackFace keeps a facet that does not face the viewer");
  }
}
// ---------------------------------------------------------------- C09, C10
static void c09() {
  while (more(2000, 100000)) {
    STLFile m = model(); if (chance(20) && !m.facets.empty()) m.facets.resize(1);
    V3 off = chance(50) ? V3(ipt(20)) : V3(0, 0, 0);
    if (chance(30)) off = V3(rd(-20, 20), rd(-20, 20), rd(-20, 20));
    double mag = chance(20) ? std::pow(10, rd(-8, 8)) : 1;
    for (auto& f : m.facets) for (auto& p : f.edge) p = (p + off) * mag;
    begin("model " + S(m), m.facets.size() > 0);
    geo::Line l = m.Limits();
    if (m.facets.empty()) { expect(l.o == V2(0, 0) && l.t == V2(0, 0), "the limits of an empty model are not a zero rectangle"); continue; }
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& f : m.facets) for (auto& p : f.edge) { x0 = std::min(x0, p.x()); x1 = std::max(x1, p.x()); y0 = std::min(y0, p.y()); y1 = std::max(y1, p.y()); }
    expect(l.o == V2(x0, y0) && l.t == V2(x1, y1), str("limits are ", l.o, " .. ", l.t, " instead of ", x0, " ", y0, " .. ", x1, " ", y1));
  }
}
static void c10() {
  while (more(2000, 100000)) {
    STLFile m = model();
    if (chance(50)) { static const double tiny[] = {1e-13, 1e-10, 1e-7, 1e-5, 1e-3}; for (auto& f : m.facets) for (auto& p : f.edge) if (chance(30)) p[ri(0, 2)] += tiny[ri(0, 4)] * ri(-1, 1); }
    begin("model " + S(m), m.facets.size() > 0);
    auto p = m.Points();
    std::vector<V3> want; for (auto& f : m.facets) for (auto& q : f.edge) want.push_back(q);
    std::sort(want.begin(), want.end(), lex3);
    want.erase(std::unique(want.begin(), want.end()), want.end());
    std::vector<V3> got(p.begin(), p.end()); std::sort(got.begin(), got.end(), lex3);
    expect(got == want, str("the vertex set has ", got.size(), " points instead of the ", want.size(), " vertices"));
  }
}
// ---------------------------------------------------------------- C11
struct EO { bool operator()(const Edge& a, const Edge& b) const { if (a.first != b.first) return lex3(a.first, b.first); return lex3(a.second, b.second); } };
static Edge canon(const V3& a, const V3& b) { return lex3(a, b) ? Edge{a, b} : Edge{b, a}; }
static void c11() {
  while (more(2000, 60000)) {
    STLFile m = model();
    if (chance(30)) for (auto& f : m.facets) { if (chance(30)) { f.norm = V3(rd(-.3, .3), rd(-.3, .3), 1); f.norm.normalize(); } }
    begin("model " + S(m), m.facets.size() > 1);
    if (chance(50)) { m.Index(); if (chance(50) && !m.facets.empty()) { m.facets.pop_back(); } }
    m.Index();
    std::map<Edge, std::pair<int, int>, EO> own;
    for (size_t i = 0; i < m.facets.size(); i++) for (int k = 0; k < 3; k++) {
      Edge e = canon(m.facets[i].edge[k], m.facets[i].edge[(k + 1) % 3]);
      auto it = own.find(e); if (it == own.end()) own[e] = {int(i), int(i)}; else it->second.second = i;
    }
    expect(m.edges.size() == own.size(), str("the index lists ", m.edges.size(), " edges instead of ", own.size()));
    std::set<Edge, EO> seen_;
    for (auto& e : m.edges) { Edge c = canon(e.first, e.second); expect(own.count(c), "the index lists an edge no facet has"); expect(seen_.insert(c).second, "the index lists an edge twice"); }
    expect(m.face_edge.size() == m.facets.size(), "not one edge record per facet");
    for (size_t i = 0; i < m.facets.size(); i++) for (int k = 0; k < 3; k++) {
      int x = m.face_edge[i][k]; expect(x >= 0 && x < int(m.edges.size()), "an edge record is out of range");
      EO o; Edge a = canon(m.edges[x].first, m.edges[x].second), b = canon(m.facets[i].edge[k], m.facets[i].edge[(k + 1) % 3]);
      expect(!o(a, b) && !o(b, a), str("side ", k, " of facet ", i, " refers to a different edge"));
    }
    expect(m.unseen >= 0 && m.unseen <= int(m.edges.size()), "the drawn count is out of range");
    for (int i = 0; i < int(m.edges.size()); i++) {
      auto o = own[canon(m.edges[i].first, m.edges[i].second)];
      double d = m.facets[o.first].norm.dot(m.facets[o.second].norm);
      if (o.first != o.second && std::abs(d - .98) < 1e-9) continue;
      bool draw = o.first == o.second || d < .98;
      expect(draw == (i < m.unseen), str("edge ", S(m.edges[i].first), "-", S(m.edges[i].second), draw ? " should be drawn but is not" : " should not be drawn but is", " (dot ", d, ")"));
    }
  }
}
// ---------------------------------------------------------------- C12
static void c12() {
  while (more(1500, 60000)) {
    STLFile m;
    if (chance(50)) { m = model(); m.Index(); }
    else {
      int n = ri(2, 6); std::set<Edge, EO> es;
      if (chance(25)) {     // long edges at small angles, crossing near their middles
        auto len = [] { int r = int(std::pow(10, rd(1, 4.4))); return ri(-r, r); };
        int x = len(), y = len();
        for (int i = 0; i < n; i++) { V3 d(2 * x + ri(-2, 2), 2 * y + ri(-2, 2), ri(-3, 3)), a(-x + ri(-2, 2), -y + ri(-2, 2), ri(-3, 3)); if (d.x() || d.y()) es.insert(canon(a, a + d)); }
      } else
      for (int i = 0; i < n; i++) { V3 a = ipt(3), b = ipt(3); if (a == b) continue; es.insert(canon(a, b)); }
      m.edges.assign(es.begin(), es.end());
      for (int i = int(m.edges.size()) - 1; i > 0; i--) std::swap(m.edges[i], m.edges[ri(0, i)]);
      m.unseen = ri(0, m.edges.size());
    }
    std::string d; for (auto& e : m.edges) d += S(e.first) + "-" + S(e.second) + " ";
    begin(str("drawn ", m.unseen, " edges ", d), m.unseen > 0 && m.edges.size() > 1);
    std::fenv_t env; std::feholdexcept(&env);
    auto r = m.EdgeCrosses();
    expect(int(r.size()) == m.unseen, "crossings are not recorded per drawn edge");
    for (int a = 0; a < m.unseen; a++) {
      for (auto& kv : r[a]) expect(kv.first >= 0 && kv.first < int(m.edges.size()) && kv.first != a, "a crossing with no edge is recorded");
      for (int b = 0; b < int(m.edges.size()); b++) {
        if (a == b) continue;
        V3 A = m.edges[a].first, B = m.edges[b].first, da = m.edges[a].second - A, db = m.edges[b].second - B;
        // A + s da meets B + t db
        long D = long(da.x()) * long(db.y()) - long(da.y()) * long(db.x());
        if (D == 0) { expect(!r[a].count(b), str("drawn edge ", a, " and edge ", b, " are parallel in projection but a crossing is recorded")); continue; }
        V3 w = B - A;
        double sine = double(std::labs(D)) / (std::hypot(da.x(), da.y()) * std::hypot(db.x(), db.y()));
        if (sine < 2e-9) { if (sine < 5e-10) expect(!r[a].count(b), str("drawn edge ", a, " and edge ", b, " are parallel up to rounding but a crossing is recorded")); continue; }
        bool big = da.squaredNorm() > 1000 || db.squaredNorm() > 1000;
        long ns = long(w.x()) * long(db.y()) - long(w.y()) * long(db.x());
        long nt = long(w.x()) * long(da.y()) - long(w.y()) * long(da.x());
        if (D < 0) { D = -D; ns = -ns; nt = -nt; }
        bool meet = 0 <= ns && ns <= D && 0 <= nt && nt <= D;
        // heights times D
        long ha = long(A.z()) * D + ns * long(da.z()), hb = long(B.z()) * D + nt * long(db.z());
        bool exact = (D & (D - 1)) == 0;
        bool edge_case = ns == 0 || ns == D || nt == 0 || nt == D || ha == hb;
        if (edge_case && (!exact || big)) continue;
        auto close = [&](long x, long y) { return std::abs(double(x - y)) < 1e-5 * double(D); };
        if (big && (close(ns, 0) || close(ns, D) || close(nt, 0) || close(nt, D) || close(ha, hb))) continue;
        bool want = meet && ha <= hb;
        auto it = r[a].find(b);
        if (want != (it != r[a].end())) fail(str("drawn edge ", a, " and edge ", b, want ? ": the crossing is missing" : ": a crossing is recorded although there is none at or behind"));
        if (it != r[a].end()) {
          V3 p = A + da * (double(ns) / double(D));
          expect(near(it->second, p, big ? 1e-6 * (1 + da.norm()) : 1e-7), str("drawn edge ", a, " and edge ", b, ": recorded point ", S(it->second), " instead of ", S(p)));
        }
      }
    }
    std::fesetenv(&env);
  }
}
// ---------------------------------------------------------------- C13
static void c13() {
  while (more(3000, 200000)) {
    int n = ri(0, 4), unseen = ri(0, n); std::vector<Edge> es; std::map<int, std::vector<Edge>> hides; std::vector<std::vector<std::pair<double, double>>> sp(n);
    std::string d;
    for (int i = 0; i < n; i++) {
      V3 a = ipt(4), b = ipt(4); if (a == b) b = a + V3(8, 0, 0);
      if (chance(30)) { double m = std::ldexp(1., ri(-20, 8)); a *= m; b *= m; }      // (exactly) smaller and bigger edges too
      es.push_back({a, b});
      int k = ri(0, 4); d += S(a) + "-" + S(b) + " hides";
      for (int j = 0; j < k; j++) {
        int u = ri(0, 8), v = ri(0, 8); if (u > v) std::swap(u, v); if (u == v && chance(60)) { if (v < 8) v++; else u--; }      // (some hide a single point)
        double p = u / 8., q = v / 8., e = std::ldexp(1., -ri(8, 20));
        if (p < q) { if (chance(10) && q == 1) q = 1 - e; else if (chance(10) && p == 0) p = e; }     // tiny visible parts at the ends
        sp[i].push_back({p, q});
      }
      std::stable_sort(sp[i].begin(), sp[i].end(), [](auto& x, auto& y) { return x.first < y.first; });
      std::vector<Edge> h; for (auto& q : sp[i]) { h.push_back({a + (b - a) * q.first, a + (b - a) * q.second}); d += str(" [", q.first, ",", q.second, "]"); }
      if (k || chance(50)) hides[i] = h;
      d += "; ";
    }
    bool show = chance(10);
    begin(str("show_hidden ", show, " drawn ", unseen, " of ", n, ": ", d), unseen > 0);
    auto r = GenerateLines(show, unseen, 0, es, hides);
    size_t at = 0;
    for (int i = 0; i < unseen; i++) {
      V2 a(es[i].first.x(), es[i].first.y()), b(es[i].second.x(), es[i].second.y());
      // expected visible pieces
      std::vector<std::pair<double, double>> want; double from = 0;
      if (!show) for (auto& q : sp[i]) { if (q.first > from) want.push_back({from, q.first}); from = std::max(from, q.second); }
      if (from < 1) want.push_back({from, 1});
      // merge touching pieces in both, so only the covered set and the order count
      for (size_t k = 0; k < want.size();) {
        double s = want[k].first, e = want[k].second; size_t k2 = k + 1;
        while (k2 < want.size() && want[k2].first == e) e = want[k2++].second;
        double pos = s;
        while (pos < e) {
          expect(at < r.size(), str("edge ", i, ": the visible part from ", pos, " to ", e, " is missing"));
          V2 o = a + (b - a) * pos; double tol = 1e-9 * (b - a).norm() + 1e-12 * a.norm(); expect((r[at].o - o).norm() <= tol, str("edge ", i, ": a segment starts at ", r[at].o, " instead of ", o));
          // where does it end?
          double best = -1; for (size_t q = k; q < k2; q++) if ((r[at].t - (a + (b - a) * want[q].second)).norm() <= tol && want[q].second > pos && best < 0) best = want[q].second;
          if (best < 0) fail(str("edge ", i, ": a segment from ", r[at].o, " ends at ", r[at].t, " which is not the end of a visible part"));
          pos = best; at++;
        }
        k = k2;
      }
    }
    expect(at == r.size(), "there are segments beyond the visible parts of the drawn edges");
  }
}
// ---------------------------------------------------------------- C14
static void c14() {
  while (more(400, 20000)) {
    STLFile m = model(chance(40));
    STLFile r = m.Rotate(mat());
    begin("rotated model " + S(r), r.facets.size() > 2);
    auto lines = r.ToLines();
    auto dist = [](V2 p, V2 a, V2 b) { V2 d = b - a; double l = d.squaredNorm(); double t = l > 0 ? std::max(0., std::min(1., (p - a).dot(d) / l)) : 0; return (p - (a + d * t)).norm(); };
    auto flat = [](const V3& p) { return V2(p.x(), p.y()); };
    for (auto& l : lines) {
      bool ok = false;
      for (int v = 0; v < r.unseen && !ok; v++) { V2 a = flat(r.edges[v].first), b = flat(r.edges[v].second); ok = dist(l.o, a, b) < 1e-6 && dist(l.t, a, b) < 1e-6; }
      expect(ok, str("segment ", l.o, " - ", l.t, " lies on no drawn edge"));
    }
    for (int v = 0; v < r.unseen; v++) {
      V3 a = r.edges[v].first, d = r.edges[v].second - a;
      if (V2(d.x(), d.y()).norm() < 1e-6) continue;
      for (int k = 0; k <= 24; k++) {
        double t = (k + .5) / 25; V3 p = a + d * t; bool drawn = false;
        for (auto& l : lines) if (dist(flat(p), l.o, l.t) < 1e-6) { drawn = true; break; }
        if (drawn) continue;
        bool hid = false;
        for (size_t f = 0; f < r.facets.size() && !hid; f++) {
          auto& fe = r.face_edge[f]; if (v == fe[0] || v == fe[1] || v == fe[2]) continue;
          const Facet& F = r.facets[f]; bool in = true;
          for (int q = 0; q < 3; q++) { V3 e = F.edge[(q + 1) % 3] - F.edge[q], w = p - F.edge[q]; if (e.x() * w.y() - e.y() * w.x() < -1e-6 * (1 + e.norm())) in = false; }
          if (in && p.dot(F.norm) <= F.r + 1e-6) hid = true;
        }
        expect(hid, str("the part of edge ", S(a), "-", S(r.edges[v].second), " around ", S(p), " is not drawn but no facet covers it"));
      }
    }
  }
}
// ---------------------------------------------------------------- C30
static void c30() {
  const double M = 1e-5;
  while (more(400, 20000)) {
    STLFile m = model(chance(40));
    if (chance(40)) for (int i = ri(1, 3); i > 0; i--) { auto sz = [] { return chance(60) ? std::pow(10, rd(-2, 0)) : rd(1, 5); }; box(m.facets, V3(rd(-4, 4), rd(-4, 4), rd(-4, 6)), V3(sz(), sz(), sz())); }   // struts
    STLFile r = m.Rotate(mat()); if (chance(50)) r.CullBackFace();
    auto flat = [](const V3& p) { return V2(p.x(), p.y()); };
    auto cr = [](V2 a, V2 b) { return a.x() * b.y() - a.y() * b.x(); };
    auto lines = r.ToLines();
    bool any = false;
    struct Part { int v; size_t f; double lo, hi; }; std::vector<Part> parts;
    for (int v = 0; v < r.unseen; v++) {
      V3 a = r.edges[v].first, d = r.edges[v].second - a; V2 d2 = flat(d);
      if (d2.norm() < 1e-3) continue;
      for (size_t f = 0; f < r.facets.size(); f++) {
        auto& fe = r.face_edge[f]; if (v == fe[0] || v == fe[1] || v == fe[2]) continue;
        const Facet& F = r.facets[f];
        double lo = 0, hi = 1; bool ok = true;      // the part of the edge inside the facet's projection, with a margin at its ends
        for (int q = 0; q < 3 && ok; q++) {
          V2 e = flat(F.edge[(q + 1) % 3] - F.edge[q]); if (e.norm() < 1e-3) { ok = false; break; } e /= e.norm();
          double c = cr(e, flat(a - F.edge[q])), k = cr(e, d2);
          if (std::abs(k) < 1e-6 * d2.norm()) { if (c < M) ok = false; continue; }
          if (k > 0) lo = std::max(lo, -c / k); else hi = std::min(hi, -c / k);
        }
        if (!ok || (hi - lo) * d2.norm() < 2e-3) continue;
        for (double t : {lo, hi}) {
          V3 p = a + d * t; if (p.dot(F.norm) > F.r - M) ok = false;    // strictly behind the plane
          int near = 0, exact = 0;                                      // enters and leaves through the inside of a side, or starts and ends inside
          for (int q = 0; q < 3; q++) { V2 e = flat(F.edge[(q + 1) % 3] - F.edge[q]); if (cr(e, flat(p - F.edge[q])) == 0) exact++; e /= e.norm(); if (std::abs(cr(e, flat(p - F.edge[q]))) < M) near++; }
          bool inside = t * d2.norm() > M && (1 - t) * d2.norm() > M;
          if (inside ? near != 1 && !(near == 2 && exact == 2) :   // or exactly under a corner
              (t > 0 && t < 1) || near) ok = false;
        }
        if (ok) parts.push_back({v, f, lo, hi}), any = true;
      }
    }
    begin("rotated model " + S(r), any);
    for (auto& p : parts) {
      V3 a = r.edges[p.v].first, d = r.edges[p.v].second - a; V2 d2 = flat(d), n = V2(-d2.y(), d2.x()) / d2.norm();
      double eps = 1e-6 / d2.norm();
      // other drawn edges along the same line of the page
      std::vector<int> along;
      for (int u = 0; u < r.unseen; u++) if (u != p.v && std::abs(n.dot(flat(r.edges[u].first - a))) < 1e-5 && std::abs(n.dot(flat(r.edges[u].second - a))) < 1e-5) along.push_back(u);
      for (auto& l : lines) {
        if (std::abs(n.dot(l.o - flat(a))) > 1e-6 || std::abs(n.dot(l.t - flat(a))) > 1e-6) continue;
        double s = d2.dot(l.o - flat(a)) / d2.squaredNorm(), t = d2.dot(l.t - flat(a)) / d2.squaredNorm(); if (s > t) std::swap(s, t);
        double x = std::max(s, p.lo + eps), y = std::min(t, p.hi - eps);
        if (y - x < 2 * eps) continue;
        bool other = false;
        for (int u : along) {
          double g = d2.dot(flat(r.edges[u].first - a)) / d2.squaredNorm(), h = d2.dot(flat(r.edges[u].second - a)) / d2.squaredNorm(); if (g > h) std::swap(g, h);
          if (g < y && h > x) other = true;
        }
        expect(other, str("segment ", l.o, " - ", l.t, " draws a part of edge ", S(a), "-", S(r.edges[p.v].second), " that runs behind facet ", p.f, " (", S(r.facets[p.f].edge[0]), S(r.facets[p.f].edge[1]), S(r.facets[p.f].edge[2]), ") from ", p.lo, " to ", p.hi));
      }
    }
  }
}
// ---------------------------------------------------------------- C06
static std::string sp(int lo) { return std::string(ri(lo, 2), ' '); }
static std::string num(double& v) {
  static const char* forms[] = {"0", "1", "-1", "2.5", "-0.25", ".5", "1e2", "-1.5e-3", "3.", "0012", "100", "-7"};
  std::string s = forms[ri(0, 11)]; v = strtod(s.c_str(), 0); return s;
}
static void c06() {
  while (more(3000, 100000)) {
    std::string t; bool bad = false; struct F { V3 n; V3 v[3]; }; std::vector<F> want;
    V3 norm(0, 0, 0); std::vector<V3> pts;
    int n = ri(0, 14); bool wild = chance(40);
    auto facet = [&] { double x, y, z; if (norm != V3(0, 0, 0)) bad = true; std::string a = num(x), b = num(y), c = num(z); t += sp(0) + "facet normal " + sp(0) + a + " " + sp(0) + b + " " + sp(0) + c + sp(0) + "\n"; norm = V3(x, y, z); pts.clear(); };
    auto vertex = [&] { double x, y, z; std::string a = num(x), b = num(y), c = num(z); t += sp(0) + "vertex " + sp(0) + a + " " + sp(0) + b + " " + sp(0) + c + sp(0) + "\n"; pts.push_back(V3(x, y, z)); };
    auto endfacet = [&] {
      t += sp(0) + "endfacet" + sp(0) + "\n"; if (bad) return;
      if (norm == V3(0, 0, 0)) return;
      if (pts.size() != 3) { bad = true; return; }
      want.push_back({norm, {pts[0], pts[1], pts[2]}}); norm = V3(0, 0, 0); pts.clear();
    };
    for (int i = 0; i < n; i++) {
      int k = wild ? ri(0, 11) : ri(3, 5);
      if (k == 0) facet(); else if (k == 1) vertex(); else if (k == 2) endfacet();
      else if (k <= 5) { facet(); if (chance(80)) t += sp(0) + "outer loop" + sp(0) + "\n"; int c = chance(92) ? 3 : ri(0, 5); for (int j = 0; j < c; j++) vertex(); if (chance(80)) t += sp(0) + "endloop" + sp(0) + "\n"; if (chance(97)) endfacet(); }
      else if (k == 6) t += sp(0) + (chance(50) ? "solid" : "endsolid") + (chance(50) ? " some name 1" : "") + "\n";
      else if (k == 7) t += sp(0) + (chance(50) ? "outer loop" : "endloop") + sp(0) + "\n";
      else if (k == 8) { if (wild && chance(25)) { static const char* junk[] = {"", "junk", "facet normal 1 2", "vertex 1 2 3 4", "vertex 1 2", "outer  loop", "endfacets", "facet normal 1 2 x", "vertex 1,2,3", "vertex", "solids", "\tvertex 1 2 3", "facet 0 0 1"}; t += std::string(junk[ri(0, 12)]) + "\n"; bad = true; } }
      else { double x, y, z; facet(); for (int j = 0; j < 3; j++) vertex(); if (chance(50)) { if (norm != V3(0, 0, 0)) bad = true; norm = V3(0, 0, 0); std::string a = "0"; t += "facet normal 0 0 0\n"; pts.clear(); for (int j = 0; j < ri(0, 3); j++) vertex(); } endfacet(); }
    }
    if (norm != V3(0, 0, 0)) bad = true;   // the last facet is never finished
    bool broken = chance(5); size_t cut = broken ? ri(0, t.size()) : t.size();
    begin(str("STL text", broken ? str(" (cannot be read beyond character ", cut, ")") : "", ":\n", t), n > 1);
    struct Buf : std::streambuf { std::string s; bool b; Buf(const std::string& x, bool br) : s(x), b(br) { setg(&s[0], &s[0], &s[0] + s.size()); } int underflow() override { if (b) throw std::runtime_error("read error"); return traits_type::eof(); } } buf(t.substr(0, cut), broken);
    std::istream in(&buf);
    auto f = STLFile::Make(in);
    if (broken) { expect(f == nullptr, "a file that could not be read to its end is accepted"); continue; }
    if (bad) { expect(f == nullptr, "a malformed file is accepted"); continue; }
    expect(f != nullptr, "a well-formed file is refused");
    expect(f->facets.size() == want.size(), str("the file has ", want.size(), " usable facets but ", f->facets.size(), " are read"));
    for (size_t i = 0; i < want.size(); i++) {
      std::vector<V3> a{f->facets[i].edge[0], f->facets[i].edge[1], f->facets[i].edge[2]}, b{want[i].v[0], want[i].v[1], want[i].v[2]};
      std::sort(a.begin(), a.end(), lex3); std::sort(b.begin(), b.end(), lex3);
      expect(a == b, str("facet ", i, " does not have the vertices of its own block"));
      V3 c = (want[i].v[1] - want[i].v[0]).cross(want[i].v[2] - want[i].v[0]);
      if (c.norm() > 1e-9 && std::abs(c.dot(want[i].n)) > 1e-9 * c.norm()) { V3 u = c / c.norm(); if (c.dot(want[i].n) < 0) u = -u; expect(near(f->facets[i].norm, u, 1e-6), str("facet ", i, " is not oriented by its own block's normal")); }
    }
  }
}
// ---------------------------------------------------------------- C28
static void c28() {
  while (more(20000, 400000)) {
    static const double steps[] = {1, 1, 1e-2, 1e-5, 1e-7, 1e-9, 1e-12, 1e6, 1e-300};
    const double step = steps[ri(0, 8)], base = chance(30) && step > 1e-13 ? ri(-3, 3) : 0;
    auto co = [&] { return base + step * ri(0, 2); };
    auto v = [&] { return V3(co(), co(), co()); };
    V3 a = v(), b = v(), c = v();
    begin(str("points ", S(a), S(b), S(c)));
    using geo::Order;
    geo::PointOrder po;
    expect(!Order(a, a) && !po(a, a), "a point is ordered before itself");
    expect(Order(a, b) == lex3(a, b) || (Order(a, b) != Order(b, a)) == (a != b), "two different points are unordered, or equal points ordered");
    expect((Order(a, b) || Order(b, a)) == (a != b), "two different points are unordered, or equal points ordered");
    expect((po(a, b) || po(b, a)) == (a != b), "two different points are unordered in the set order");
    expect(!(Order(a, b) && Order(b, a)), "two points are ordered both ways");
    expect(!(Order(a, b) && Order(b, c)) || Order(a, c), "the point order is not transitive");
    expect(!(po(a, b) && po(b, c)) || po(a, c), "the point order is not transitive");
    auto l = [&] { return geo::Line(V2(co(), co()), V2(co(), co())); };
    geo::Line p = l(), q = l(), r = l();
    begin(str("lines ", p.o, "/", p.t, " ", q.o, "/", q.t, " ", r.o, "/", r.t));
    bool eq = p.o.x() == q.o.x() && p.o.y() == q.o.y() && p.t.x() == q.t.x() && p.t.y() == q.t.y();
    expect((p == q) == eq, "line equality does not mean equal ends");
    expect(!(p < p), "a line is less than itself");
    expect((p < q || q < p) == !eq, "two different lines are unordered, or equal lines ordered");
    expect(!(p < q && q < p), "two lines are ordered both ways");
    expect(!(p < q && q < r) || p < r, "the line order is not transitive");
    if (cases % 40 == 0) {
      // the edge order, through the index it serves
      STLFile m; int n = ri(1, 5); for (int i = 0; i < n; i++) { V3 x = v(), y = v(), z = v(); m.facets.push_back(tri(x, y, z)); }
      begin("model " + S(m)); m.Index();
      std::set<Edge, EO> w; for (auto& f : m.facets) for (int k = 0; k < 3; k++) w.insert(canon(f.edge[k], f.edge[(k + 1) % 3]));
      expect(w.size() == m.edges.size(), "edges are confused by their order");
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv); std::string m = argv[1];
  std::map<std::string, std::function<void()>> f{{"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C28", c28}, {"C30", c30}};
  f.at(m)();
  return done();
}
