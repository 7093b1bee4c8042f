PSI = '''#include "stl-to-ps/ps.h"
using ps::Text; using geo::Line; using geo::Arc;
int main() {
%s
return 0; }
'''
AST = '''#define private public
#include "stl-to-ps/ast.h"
#include "stl-to-ps/center.h"
#undef private
using namespace stl2ps; using V2 = Eigen::RowVector2d; using V3 = Eigen::RowVector3d;
int main() {
%s
return 0; }
'''
DRAW = '''#define private public
#include "stl-to-ps/stl-to-ps.h"
#include "stl-to-ps/stl-to-ps-impl.h"
#include "stl-to-ps/parser.h"
#include "absl/flags/flag.h"
#include "absl/flags/declare.h"
#include "absl/memory/memory.h"
#undef private
using namespace stl2ps; using V2 = Eigen::RowVector2d; using V3 = Eigen::RowVector3d;
namespace stl2ps { int Parse(std::string, const std::string& s, Document*) { return s == "bad"; } }
using ML = std::vector<std::unique_ptr<Meta>>;
static std::unique_ptr<Meta> P(const char* n, V3 v) { return Meta::New<Point>(std::string(n), (Point*)new Val(v, Loc()), Loc()); }
static std::unique_ptr<Meta> S(const char* n, std::string v) { return Meta::New<std::string>(std::string(n), v, Loc()); }
static std::unique_ptr<Meta> L(const char* n, V2 v) { return Meta::New<V2>(std::string(n), v, Loc()); }
struct Rig {
  std::map<std::string, std::unique_ptr<STLFile>> files; OutputPage page; std::unique_ptr<DrawToPage> d;
  explicit Rig(std::vector<V3> pts = {}) {
    d.reset(new DrawToPage(files)); d->set_current_page(&page); d->proj.scale = 72; d->proj.d = V2(0, 0);
    d->rotation_ = geo::matrix::ZP; for (auto& p : pts) d->points_.insert(p);
  }
};
static std::string Tri() { return "facet normal 0 0 1\\nouter loop\\nvertex 0 0 0\\nvertex 3 0 0\\nvertex 0 3 0\\nendloop\\nendfacet\\n"; }
int main() {
%s
return 0; }
'''
TD = ['stl-to-ps', 'stl', 'geo', 'ps', 'ast', 'center']
SEEDS = [
 dict(id='text-balanced-parens', property='C01', tus=['ps', 'geo'], needs='a label with as many opening as closing parentheses that are not properly nested, like ")("',
      breaks='parentheses are left bare whenever their numbers match, so the literal of such a label ends early',
      edits=[('ps.cc', '''          case '(':
          case ')':
          case '\\\\':
''', '''          case '(':
          case ')':
            // Balanced parentheses need no escape in a literal.
            if (std::count(t.str.begin(), t.str.end(), '(') != std::count(t.str.begin(), t.str.end(), ')')) {
              s.push_back('\\\\');
            }
            s.push_back(c);
            break;

          case '\\\\':
''')],
      demo=PSI % '''  std::ostringstream o; ps::TextToPs({Text(0, 0, ")x(")}, o);
  std::string s = o.str(); size_t at = s.find('('); int deep = 0; size_t i = at;
  for (; i < s.size(); i++) { if (s[i] == '\\\\') { i++; continue; } if (s[i] == '(') deep++; if (s[i] == ')' && --deep == 0) break; }
  CHECK_THAT(s.substr(i + 1) == " show\\n");'''),
 dict(id='arc-degrees-wrapped', property='C02', tus=['ps', 'geo'], needs='an arc whose end angle is a whole turn or more',
      breaks='end angles are reduced to less than a full turn, so a full circle is drawn as nothing',
      edits=[('ps.cc', '                            a.end * 180 / geo::PI);', '                            std::fmod(a.end * 180 / geo::PI, 360));')],
      demo=PSI % '''  std::ostringstream o; ps::ArcToPs({Arc(Eigen::RowVector2d(1, 2), 3, 0.0, 2 * geo::PI)}, o);
  std::istringstream in(o.str()); std::string w; double x, y, r, a, b; in >> w >> x >> y >> r >> a >> b;
  CHECK_THAT(std::abs(b - 360) < 1e-3);'''),
 dict(id='page-numbers-go-on', property='C03', tus=TD, needs='two documents rendered by one process',
      breaks='the page counter is kept between documents, the second document starts with page N+1 of M',
      edits=[('stl-to-ps.cc', '  int page_number = 0;', '  static int page_number = 0;')],
      demo=DRAW % '''  std::vector<OutputPage> p(2); std::ostringstream a, b;
  RenderPages("x", p, a); RenderPages("x", p, b);
  CHECK_THAT(b.str().find("page 1 of 2") != std::string::npos);'''),
 dict(id='quote-escaped-backslash', property='C04', tus=['ast', 'geo', 'center'], needs='an escape directly after a character that decodes to a backslash',
      breaks='the test for an escape looks at the already overwritten buffer, so an escape after an escaped backslash is not decoded',
      edits=[('ast.cc', "    if (ret[f] != '\\\\') {", "    if (ret[f] != '\\\\' || (t > 0 && ret[t - 1] == '\\\\')) {")],
      demo=AST % r'''  std::unique_ptr<std::string> s(NewQuote("\"a\\\\\\n\"")); CHECK_THAT(*s == "a\\\n");'''),
 dict(id='view-tilt-past-vertical', property='C05', tus=['ast', 'geo', 'center'], needs='a view tilted by more than 90 degrees',
      breaks='the cosine of the tilt loses its sign, the view is mirrored',
      edits=[('geo.cc', 'azm_cos = std::cos(-azm);', 'azm_cos = std::sqrt(1 - azm_sin * azm_sin);')],
      demo=AST % '''  Eigen::Matrix3d m = GetMatrixByAng(V2(30, 120)); CHECK_THAT(std::abs((m * m.transpose() - geo::matrix::I).norm()) < 1e-9);
  CHECK_THAT(std::abs(m.determinant() - 1) < 1e-9 && std::abs(m(2, 2) + 0.5) < 1e-9);'''),
 dict(id='stl-vertices-leak', property='C06', tus=['stl', 'geo'], needs='a facet block without a usable normal that has vertices, followed by a good one',
      breaks='the vertices of the skipped block are added to the next facet, which is then refused (or, with fewer vertices of its own, built from the wrong ones)',
      edits=[('stl.cc', '''      norm = {x, y, z};
      points.clear();
''', '''      norm = {x, y, z};
''')],
      demo='''#define private public
#include "stl-to-ps/stl.h"
#undef private
using namespace stl2ps;
int main() {
  std::istringstream in("facet normal 0 0 0\\nvertex 0 0 0\\nvertex 5 5 5\\nendfacet\\nfacet normal 0 0 1\\nvertex 0 0 0\\nvertex 1 0 0\\nvertex 0 1 0\\nendfacet\\n");
  auto f = STLFile::Make(in); CHECK_THAT(f && f->facets.size() == 1);
  return 0; }
'''),
 dict(id='dim-length-in-page', property='C15', tus=TD, needs='a dimension whose direction is not in the page plane',
      breaks='only the part of the length that lies in the page plane is printed',
      edits=[('stl-to-ps.cc', '  double dim_value = length.norm();', '  double dim_value = std::hypot(length.x(), length.y());')],
      demo=DRAW % '''  Rig r; ML m; m.push_back(P("at", {0, 0, 0})); m.push_back(P("dir", {3, 0, 4})); m.push_back(P("from", {0, 0, 0})); m.push_back(P("to", {3, 0, 4}));
  CHECK_THAT((*r.d)(Dim(Loc(), std::move(m)))); CHECK_THAT(r.page.text.at(0).str == "5.000");'''),
 dict(id='angle-second-arm-length', property='C16', tus=TD, needs='an angle whose second arm is given as a direction that is not of unit length',
      breaks='the second arm is used with its own length, the arrow heads and extension lines of that arm land elsewhere and the arms can be refused as parallel',
      edits=[('stl-to-ps.cc', '    to_dir = to_dir.normalized();\n', '')],
      demo=DRAW % '''  Rig r; ML m; m.push_back(P("at", {1, 1, 0})); m.push_back(P("apex", {0, 0, 0})); m.push_back(P("from_dir", {0, 7, 0})); m.push_back(P("to_dir", {5, 5, 0}));
  CHECK_THAT((*r.d)(Angle(Loc(), std::move(m)))); CHECK_THAT(r.page.text.at(0).str == "45.0 deg");'''),
 dict(id='rad-tip-direction-length', property='C17', tus=TD, needs='a radius dimension whose direction is not of unit length',
      breaks='the arrow tip is placed before the direction is normalised and misses the circle',
      edits=[('stl-to-ps.cc', '''  dir = dir.normalized();

  Eigen::RowVector2d a = center + dir * r;

  // TODO''', '''  Eigen::RowVector2d a = center + dir * r;

  dir = dir.normalized();

  // TODO''')],
      demo=DRAW % '''  Rig r; std::map<std::string, Meta*> seen; ML none;
  CHECK_THAT(r.d->RenderRad(&seen, Rad(Loc(), std::move(none)), V2(0, 0), V2(3, 0), V2(2, 0), 1));
  bool tip = false; for (auto& l : r.page.lines) if (std::abs(l.o.x() - 72) < 1e-6 && std::abs(l.o.y()) < 1e-6) tip = true; CHECK_THAT(tip);'''),
 dict(id='circle-first-rows', property='C18', tus=['center', 'ast', 'geo'], needs='more than eight points, the first eight of which name only two places',
      breaks='only the first eight points take part in the fit',
      edits=[('center.cc', '  for (size_t i = 0; i < points.size(); i++) {', '  for (size_t i = 0; i < points.size() && i < 8; i++) {')],
      demo=AST % '''  std::vector<V2> p; for (int i = 0; i < 4; i++) { p.push_back({1, 0}); p.push_back({0, 1}); } for (int i = 0; i < 4; i++) p.push_back({-1, 0});
  V2 c; double r; CHECK_THAT(FindCircle(p, &c, &r)); CHECK_THAT(c.norm() < 1e-6 && std::abs(r - 1) < 1e-6);'''),
 dict(id='closest-band', property='C19', tus=['ast', 'geo', 'center'], needs='two nearby points at slightly different distances, the nearer one later in the list',
      breaks='points about as far away as a chosen one count as its duplicates, so a nearer point is dropped',
      edits=[('ast.cc', '    auto r = c.equal_range(d);', '    auto r = std::make_pair(c.lower_bound(d * .999), c.upper_bound(d * 1.001));')],
      demo=AST % '''  auto r = point_impl::Closest({V2(1.0001, 0), V2(1, 0)}, 1, V2(0, 0)); CHECK_THAT(r.size() == 1 && r[0] == V2(1, 0));'''),
 dict(id='scale-whole-points', property='C20', tus=TD, needs='a scale whose factor is not a whole number of points per unit',
      breaks='the factor is computed in whole numbers, drawings at 1:7 or 1:100 are the wrong size',
      edits=[('stl-to-ps.cc', '  proj.scale = 72.0 * scales.first / scales.second;', '  proj.scale = 72 * scales.first / scales.second;')],
      demo=DRAW % '''  Rig r; std::istringstream in(Tri()); r.files["m"] = STLFile::Make(in);
  auto dl = absl::make_unique<DrawList>(); dl->meta_list.push_back(Meta::New<Scale>(std::string("scale"), Scale{1, 7}, Loc()));
  Draw d(Loc(), absl::make_unique<std::string>("m"), std::move(dl));
  CHECK_THAT((*r.d)(d)); double w = 0; for (auto& l : r.page.lines) w = std::max(w, std::abs(l.o.x() - l.t.x())); CHECK_THAT(std::abs(w - 3 * 72.0 / 7) < 1e-3);'''),
 dict(id='text-blank-lines', property='C21', tus=TD, needs='a text block with a blank line inside',
      breaks='blank lines take up no room, the lines below stand too high',
      edits=[('stl-to-ps.cc', '''      current_page->text.push_back(t);
    }
    t.at.y() -= 12;
''', '''      current_page->text.push_back(t);
      t.at.y() -= 12;
    }
''')],
      demo=DRAW % '''  Rig r; Text t(Loc(), absl::make_unique<std::string>("a\\n\\nb"), absl::make_unique<MetaList>());
  CHECK_THAT((*r.d)(t)); CHECK_THAT(r.page.text.size() == 2 && r.page.text[1].at.y() == 306 - 24);'''),
 dict(id='title-kept-on-page', property='C22', tus=TD, needs='a page name of more than 163 characters',
      breaks='the title starts inside the border instead of ending at its right edge',
      edits=[('stl-to-ps.cc', '  float text_at = 784 - name.size() * ps::kFontSize * 0.6;', '  float text_at = std::max(5.0, 784 - name.size() * ps::kFontSize * 0.6);')],
      demo=DRAW % '''  OutputPage p; std::string n(200, 'x'); p.AddHeader(n, 1, 1); CHECK_THAT(std::abs(p.text[0].at.x() + 200 * 4.8 - 784) < 0.01);'''),
 dict(id='duplicate-place', property='C23', tus=TD, needs='an element with two @ positions',
      breaks='a second position is silently ignored',
      edits=[('stl-to-ps.cc', '    if (!seen->emplace(i->name, i.get()).second) {', '    if (!seen->emplace(i->name, i.get()).second && i->name != "@") {')],
      demo=DRAW % '''  Rig r; auto ml = absl::make_unique<MetaList>(); ml->push_back(L("@", {0, 0})); ml->push_back(L("@", {1, 1}));
  Text t(Loc(), absl::make_unique<std::string>("a"), std::move(ml)); CHECK_THAT(!(*r.d)(t));'''),
 dict(id='view-without-a-name', property='C23', tus=TD, needs='a drawing whose view is the empty text',
      breaks='an empty view name is silently ignored and the default view is drawn',
      edits=[('stl-to-ps.cc', '      if (!stl2ps::GetMatrixByName(name, &rotation)) {', '      if (!name.empty() && !stl2ps::GetMatrixByName(name, &rotation)) {')],
      demo=DRAW % '''  Rig r; std::istringstream in(Tri()); r.files["m"] = STLFile::Make(in);
  auto p = absl::make_unique<DrawList>(); p->meta_list.push_back(S("view", ""));
  Draw d(Loc(), absl::make_unique<std::string>("m"), std::move(p)); CHECK_THAT(!(*r.d)(d));'''),
 dict(id='later-page-hides-failure', property='C24', tus=TD, needs='a failing page followed by a good one',
      breaks='each page starts from its own result, so the conversion succeeds although an earlier page was rejected',
      edits=[('stl-to-ps.cc', '    ok &= Flatten("page", doc_page.meta, &seen);', '    ok = Flatten("page", doc_page.meta, &seen);')],
      demo=DRAW % '''  Document doc; auto a = absl::make_unique<PageParts>(); a->meta.push_back(S("nonsense", "x"));
  doc.Add(absl::make_unique<Page>(Loc(), std::move(a))); doc.Add(absl::make_unique<Page>(Loc(), absl::make_unique<PageParts>()));
  std::ostringstream o; CHECK_THAT(!ScriptToPS("x", doc, o)); CHECK_THAT(o.str().empty());'''),
 dict(id='load-path-parent-first', property='C25', tus=TD, needs='a load path that starts with the parent directory and a model in the current one',
      breaks='the current directory is not searched when the load path starts with the parent directory',
      edits=[('stl-to-ps.cc', '      r.insert(r.begin(), ".");', '      if (r.empty() || r.front() != "..") r.insert(r.begin(), ".");')],
      demo=('ABSL_DECL' and DRAW.replace('int main() {', 'ABSL_DECLARE_FLAG(std::string, load_path);\nint main() {')) % '''  std::ofstream("only-here-7c1.stl") << Tri();
  absl::SetFlag(&FLAGS_load_path, "..,lib"); Document doc; doc.Add(absl::make_unique<Model>("m", "only-here-7c1.stl", Loc()));
  std::map<std::string, std::unique_ptr<STLFile>> f; CHECK_THAT(LoadFiles(doc, &f)); CHECK_THAT(f["m"]);'''),
 dict(id='load-relative-with-slash', property='C25', tus=TD, needs='a relative model path with a directory in it that is only found through the load path',
      breaks='any path with a slash in it is taken for an absolute one',
      edits=[('stl-to-ps.cc', "    if (file.find('/') == 0) {", "    if (file.find('/') != std::string::npos) {")],
      demo=('ABSL_DECL' and DRAW.replace('int main() {', 'ABSL_DECLARE_FLAG(std::string, load_path);\nint main() {')) % '''  CHECK_THAT(std::system("mkdir -p lib/sub") == 0); std::ofstream("lib/sub/m.stl") << Tri();
  absl::SetFlag(&FLAGS_load_path, "lib"); Document doc; doc.Add(absl::make_unique<Model>("m", "sub/m.stl", Loc()));
  std::map<std::string, std::unique_ptr<STLFile>> f; CHECK_THAT(LoadFiles(doc, &f)); CHECK_THAT(f["m"]);'''),
 dict(id='message-is-format', property='C27', tus=['parser_support'], needs='a syntax error message that contains a percent sign',
      breaks='the message becomes part of the format string',
      edits=[('parser_support.cc', '''    fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //
            fn, bl, bc, ec, msg.c_str());''', '''    fprintf(stderr, ("error %s:%d:[%d,%d]: " + msg + "\\n").c_str(),  //
            fn, bl, bc, ec);''')],
      run='./demo 2> err.txt; grep -qxF "error f:3:[1,2]: unexpected %% here" err.txt',
      demo='''#include "stl-to-ps/parser_support.h"
int main() { std::string f = "f"; stl2ps::error(&f, 3, 1, 3, 2, "unexpected %% here"); return 0; }
'''),
 dict(id='line-order-not-transitive', property='C28', tus=['geo'], needs='lines whose start heights differ by a tiny amount',
      breaks='heights within a tolerance are taken for equal, which makes the order not transitive and merges different lines',
      edits=[('geo.h', '  if (l.o.y() != r.o.y()) return (l.o.y() < r.o.y());', '  if (std::abs(l.o.y() - r.o.y()) > 1e-6) return (l.o.y() < r.o.y());')],
      demo='''#include "stl-to-ps/geo.h"
using geo::Line; using V2 = Eigen::RowVector2d;
int main() { Line a(V2(0, 0), V2(1, 1)), b(V2(0, 1e-7), V2(1, 1)); CHECK_THAT((a < b) != (b < a)); return 0; }
'''),
 dict(id='script-not-readable', property='C26', tus=TD + ['stl-to-ps-main'], needs='a script file that cannot be opened',
      breaks='a script that cannot be opened is only logged and read as an empty one, the program writes an empty document and exits with status 0',
      edits=[('stl-to-ps-main.cc', '  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);', '''  if (in.rdstate() != std::ios_base::goodbit) {
    LOG(WARNING) << "Can't open " << absl::GetFlag(FLAGS_script);
  }''')],
      run='if ./demo --script=missing.txt --output=o.ps >log 2>&1; then echo "exit 0 without a script"; exit 1; fi; printf "" > ok.txt; ./demo --script=ok.txt --output=o.ps >log 2>&1',
      demo='''#include "stl-to-ps/ast.h"
namespace stl2ps { int Parse(std::string, const std::string& s, Document*) { return 0; } }
'''),
]
