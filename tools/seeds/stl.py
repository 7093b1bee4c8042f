ST = '''#define private public
#include "stl-to-ps/geo.h"
#include "stl-to-ps/stl.h"
#undef private
using namespace stl2ps; using V3 = Eigen::RowVector3d;
static Facet F(V3 n, V3 a, V3 b, V3 c) { return Facet(n, {a, b, c}); }
int main() {
%s
return 0; }
'''
T = ['stl', 'geo']
SEEDS = [
 dict(id='facet-plane-sign', property='C07', tus=T, needs='a facet whose vertices are listed clockwise around its declared normal and whose plane does not contain the origin',
      breaks='the plane offset keeps the sign of the computed normal although the normal is turned round, so the facet lies on the mirrored plane',
      edits=[('stl.cc', '''  if (n.dot(norm) < 0) {
    swap(edge[0], edge[2]);
    norm = norm * -1;
  }

  // Take the average to reduce rounding error
  r = (norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[2])) / 3;
''', '''  // Take the average to reduce rounding error
  r = (norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[2])) / 3;

  if (n.dot(norm) < 0) {
    swap(edge[0], edge[2]);
    norm = norm * -1;
  }
''')],
      demo=ST % '''  Facet f = F({0, 0, 1}, {0, 0, 2}, {0, 1, 2}, {1, 0, 2});
  CHECK_THAT(std::abs(f.norm.dot(f.edge[0]) - f.r) < 1e-9);'''),
 dict(id='cull-skips-swapped-in', property='C08', tus=T, needs='two facets facing away, one of them last in the list',
      breaks='the facet swapped in from the back of the list is not examined itself, so a facet facing away survives',
      edits=[('stl.cc', 'swap(facets[i--], facets[--j]);', 'swap(facets[i], facets[--j]);')],
      demo=ST % '''  STLFile m; V3 a(0,0,0), b(1,0,0), c(0,1,0);
  m.facets = {F({0,0,-1}, a, b, c), F({0,0,1}, a, b, c), F({0,0,-1}, a, b, c)};
  STLFile r = m.Rotate(geo::matrix::ZP);
  for (auto& f : r.facets) CHECK_THAT(f.norm.z() > 0);
  CHECK_THAT(r.facets.size() == 1);'''),
 dict(id='limits-from-origin', property='C09', tus=T, needs='a model that lies entirely on one side of an axis',
      breaks='the bounding rectangle is stretched to the origin',
      edits=[('stl.cc', '''  Eigen::RowVector3d minp = facets[0].edge[0];
  Eigen::RowVector3d maxp = minp;''', '''  Eigen::RowVector3d minp = facets[0].edge[0];
  Eigen::RowVector3d maxp = geo::point::zero;''')],
      demo=ST % '''  STLFile m; m.facets = {F({0,0,1}, {-5,-5,0}, {-4,-5,0}, {-5,-4,0})};
  geo::Line l = m.Limits(); CHECK_THAT(l.t.x() == -4 && l.t.y() == -4);'''),
 dict(id='index-first-two-owners', property='C11', tus=T, needs='an edge shared by three or more facets, the first two in one plane and the last at an angle',
      breaks='the owners recorded for an edge are the first two instead of first and last, so a feature edge is taken for a flat seam',
      edits=[('stl.cc', '''    } else {
      edge_face[idx].second = f;
    }''', '''    } else if (edge_face[idx].second == edge_face[idx].first) {
      edge_face[idx].second = f;
    }''')],
      demo=ST % '''  STLFile m; V3 a(0,0,0), b(0,1,0);
  m.facets = {F({0,0,1}, a, b, {1,0,0}), F({0,0,1}, a, b, {-1,0,0}), F({1,0,1}, a, b, {1,0,-1})};
  m.Index(); bool drawn = false;
  for (int i = 0; i < m.unseen; i++) if ((m.edges[i].first == a && m.edges[i].second == b) || (m.edges[i].first == b && m.edges[i].second == a)) drawn = true;
  CHECK_THAT(drawn);'''),
 dict(id='crosses-same-height', property='C12', tus=T, needs='two edges that really touch (same height at the meeting point)',
      breaks='edges meeting at equal height are not recorded as crossing either way, although each is at or behind the other',
      edits=[('stl.cc', '''      if (pu.z() <= pv.z()) hidden_by_list.emplace_back(u, v, pu);
      if (pv.z() <= pu.z()) hidden_by_list.emplace_back(v, u, pv);''', '''      if (pu.z() < pv.z()) hidden_by_list.emplace_back(u, v, pu);
      if (pv.z() < pu.z()) hidden_by_list.emplace_back(v, u, pv);''')],
      demo=ST % '''  STLFile m; m.edges = {{V3(-2,0,1), V3(2,0,1)}, {V3(0,-2,1), V3(0,2,1)}}; m.unseen = 2;
  auto r = m.EdgeCrosses(); CHECK_THAT(r.size() == 2 && r[0].count(1) == 1 && r[1].count(0) == 1);'''),
 dict(id='crosses-undrawn-later', property='C12', tus=T, needs='a drawn edge crossed by two not drawn ones, or a drawn edge listed after a crossing of an undrawn one',
      breaks='an edge that is not drawn ends the copying of the crossings found, so later ones are lost',
      edits=[('stl.cc', 'if (std::get<0>(h) >= unseen) continue;', 'if (std::get<0>(h) >= unseen) break;')],
      demo=ST % '''  STLFile m; m.edges = {{V3(-2,0,1), V3(2,0,1)}, {V3(0,-2,0), V3(0,2,0)}, {V3(1,-2,5), V3(1,2,5)}}; m.unseen = 1;
  auto r = m.EdgeCrosses(); CHECK_THAT(r.size() == 1 && r[0].count(2) == 1);'''),
 dict(id='lines-nested-span', property='C13', tus=T, needs='a hidden span that ends inside an earlier, longer one',
      breaks='the drawing position falls back to the end of the shorter span, so a hidden part of the edge is drawn',
      edits=[('stl.cc', '''      if (d < n) {
        d = n;
        from = hid.second;
      }''', '''      d = n;
      from = hid.second;''')],
      demo=ST % '''  std::vector<Edge> e{{V3(0,0,0), V3(8,0,0)}};
  std::map<int, std::vector<Edge>> h{{0, {{V3(1,0,0), V3(7,0,0)}, {V3(2,0,0), V3(3,0,0)}}}};
  double len = 0; for (auto& l : GenerateLines(false, 1, 0, e, h)) len += (l.o - l.t).norm();
  CHECK_THAT(std::abs(len - 2) < 1e-9);'''),
 dict(id='point-order-tolerance', property='C10', tus=T, needs='two vertices closer than a millionth of a unit along an axis',
      breaks='near-equal coordinates count as equal, so vertices that differ only by a small amount are merged (and edges confused)',
      edits=[('geo.h', '''  return (l.x() != r.x())
             ? (l.x() < r.x())''', '''  return (std::abs(l.x() - r.x()) > 1e-6)
             ? (l.x() < r.x())''')],
      demo=ST % '''  STLFile m; m.facets = {F({0,0,1}, {0,0,0}, {1e-7,0,0}, {0,1,0})};
  CHECK_THAT(m.Points().size() == 3);'''),
 dict(id='hidden-half-plane', property='C14', tus=T, needs='an edge end behind the plane of a facet but beside it in projection, past its third side, and another end or crossing hidden by it',
      breaks='an end point counts as covered by a facet although it lies outside one of its sides, so a visible part of the edge is erased',
      edits=[('stl.cc', '''        if ((x0 >= 0) && (x1 >= 0) && (x2 >= 0)) {
          hidden_points[idx++] = {ev.second,''', '''        if ((x0 >= 0) && (x1 >= 0)) {
          hidden_points[idx++] = {ev.second,''')],
      demo=ST % '''  STLFile m;   // a small triangle above, a long edge of a lower one starting under it and leaving it through the third side
  m.facets = {F({0,0,1}, {0,4,5}, {0,0,5}, {4,0,5}), F({0,0,1}, {1,1,0}, {9,1,0}, {9,2,0})};
  m.Index(); double len = 0;
  for (auto& l : m.ToLines()) if (std::abs(l.o.y() - 1) < 1e-9 && std::abs(l.t.y() - 1) < 1e-9) len += (l.o - l.t).norm();
  CHECK_THAT(std::abs(len - 6) < 1e-6);'''),
 dict(id='line-order-transposed', property='C28', tus=T, needs='two lines that differ only in the second coordinate of their far end',
      breaks='the last comparison reads the wrong end, so two different lines are left unordered',
      edits=[('geo.h', '(l.t.x() < r.t.x()) : (l.t.y() < r.t.y())', '(l.t.x() < r.t.x()) : (l.t.y() < r.o.y())')],
      demo=ST % '''  using V2 = Eigen::RowVector2d; geo::Line a(V2(0,9), V2(1,2)), b(V2(0,9), V2(1,3));
  CHECK_THAT((a < b) != (b < a));'''),
]
_BEHIND = '''  STLFile m; auto tri = [&](V3 a, V3 b, V3 c) { V3 n = (b - a).cross(c - a); n /= n.norm(); if (n.z() < 0) { n = -n; std::swap(b, c); } m.facets.push_back(F(n, a, b, c)); };
  %s
  STLFile r = m.Rotate(geo::matrix::ZP);
  auto lines = r.ToLines();
  // the long edge from (-5,0,0) to (5,0,0) is drawn except where the plate above covers it
  for (auto& l : lines) {
    if (std::abs(l.o.y()) > 1e-9 || std::abs(l.t.y()) > 1e-9) continue;
    double a = std::min(l.o.x(), l.t.x()), b = std::max(l.o.x(), l.t.x());
    CHECK_THAT(b <= %s + 1e-9 || a >= %s - 1e-9);
  }'''
SEEDS += [
 dict(id='short-hidden-parts-drawn', property='C30', tus=T, needs='a part of a drawn edge shorter than a tenth of a unit that runs behind a facet',
      breaks='spans shorter than a tenth of a unit are not hidden, so thin struts in front of an edge do not cover it',
      edits=[('stl.cc', 'if ((p_min - p_max).squaredNorm() == 0) continue;', 'if ((p_min - p_max).squaredNorm() < 0.01) continue;')],
      demo=ST % (_BEHIND % ('tri({-5,0,0}, {5,0,0}, {0,-9,0}); tri({-0.03,-1,5}, {0.03,-1,5}, {0,1,5});', '-0.015', '0.015'))),
 dict(id='steep-facets-hide-nothing', property='C30', tus=T, needs='an edge covered only by a facet that is seen at a steep angle',
      breaks='facets within about twelve degrees of the line of sight are taken for edge-on and hide nothing',
      edits=[('stl.cc', '''    const auto& f = facets[fi];
    const auto& edge_list = face_edge[fi];''', '''    const auto& f = facets[fi];
    if (f.norm.z() < 0.2) continue;  // seen edge-on, covers nothing
    const auto& edge_list = face_edge[fi];''')],
      demo=ST % (_BEHIND % ('tri({-5,0,0}, {5,0,0}, {0,-9,0}); tri({0,-1,5}, {1,0,15}, {0,1,5});', '0', '0.9'))),
 dict(id='corner-crossing-twice', property='C30', tus=T, needs='an edge that runs exactly under a corner of the facet in front of it, listed so that the two sides meeting there come first',
      breaks='the search for the places where an edge enters and leaves a facet stops after two, which may be the same corner',
      edits=[('stl.cc', '''      for (int e : edge_list) {''', '''      for (size_t i = 0; i < 3 && idx < 2; i++) {  // in and out
        const int e = edge_list[i];''')],
      demo=ST % (_BEHIND % ('tri({-5,0,0}, {5,0,0}, {0,-9,0}); tri({2,2,5}, {-2,0,5}, {2,-2,5});', '-2', '2'))),
]
