// Executable oracles for the PostScript writer: C01, C02, C03.
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "stl-to-ps/eigen_wrap.h"
#include "stl-to-ps/geo.h"
#include "stl-to-ps/ps.h"
#include "stl-to-ps/stl-to-ps-impl.h"
#include "psint.h"
#include "vh.h"
ABSL_DECLARE_FLAG(bool, timestamp);
ABSL_DECLARE_FLAG(bool, number_pages);
using namespace vh;
using psint::Ev;
using V2 = Eigen::RowVector2d;

static double coord() {
  switch (ri(0, 7)) {
    case 0: return ri(-800, 800); case 1: return rd(-1, 1); case 2: return rd(-1e6, 1e6); case 3: return 0;
    case 4: return rd(0, 800); case 5: return rd(-1e-7, 1e-7); case 6: return ri(-40, 40) / 4.0; default: return rd(-1e12, 1e12);
  }
}
static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '|') r += c; else { snprintf(b, 8, "<%02x>", c); r += b; } return r; }
static std::string chars() {
  static const char* pick = "()\\\r\n\t%<>[]{}/ 0123nrtbfx~\"'";
  std::string s; int n = chance(10) ? 0 : chance(85) ? ri(1, 12) : ri(100, 400);
  for (int i = 0; i < n; i++) s += chance(60) ? pick[ri(0, strlen(pick) - 1)] : chance(15) ? char(ri(0, 255)) : char(ri(32, 126));
  if (chance(8)) s += ")"; if (chance(8)) s += "\\"; if (chance(5)) s = "\\" + s + "("; if (chance(4)) s += "\r";
  return s;
}
static ps::Text text() {
  ps::Text t; t.at = V2(coord(), coord()); t.center = chance(40);
  if (chance(20)) { t.raw = true; int n = ri(0, 4); const char* p[] = {"\\351", "(a)", "\\(", "\\)", "12.5", "\\\\", " deg", "\\n", "R", "\\r"}; for (int i = 0; i < n; i++) t.str += p[ri(0, 9)]; }
  else t.str = chars();
  return t;
}
static geo::Line line() { return geo::Line(V2(coord(), coord()), V2(coord(), coord())); }
static geo::Arc arc() { return geo::Arc(V2(coord(), coord()), std::abs(coord()), rd(-4, 7), rd(-4, 7)); }
static std::string S(const ps::Text& t) { return str(t.raw ? "raw" : "", t.center ? "centred" : "", "(", t.at.x(), ",", t.at.y(), ") '", esc(t.str), "'; "); }
static std::string S(const geo::Line& l) { return str(l.o.x(), ",", l.o.y(), "->", l.t.x(), ",", l.t.y(), "; "); }
static std::string S(const geo::Arc& l) { return str("arc ", l.center.x(), ",", l.center.y(), " r", l.r, " ", l.start, "..", l.end, "; "); }
template <class T> static std::string SL(const std::vector<T>& v) { std::string r; for (auto& x : v) r += S(x); return r; }
static int howmany() { return chance(15) ? 0 : chance(90) ? ri(1, 5) : ri(20, 300); }
static std::vector<Ev> interpret(const std::string& o) {
  std::vector<Ev> ev; std::string err;
  if (!psint::run(o, &ev, &err)) fail("the output is not valid: " + esc(err) + "\noutput: " + esc(o.substr(0, 600)));
  return ev;
}
static void check_text(const std::string& o, const Ev& e, const ps::Text& t) {
  expect(e.k == Ev::Show, "a label is missing or something else was drawn: " + S(t));
  expect(psint::close(e.a[0], t.at.x()) && psint::close(e.a[1], t.at.y()), str("label at ", e.a[0], ",", e.a[1], " instead of ", S(t)));
  expect(e.centred == t.center, "centring is wrong for " + S(t));
  if (!t.raw) expect(e.s == t.str, "reads back as '" + esc(e.s) + "' instead of " + S(t));
  else expect(o.compare(e.at + 1, t.str.size(), t.str) == 0 && o[e.at + 1 + t.str.size()] == ')', "an encoded label was not copied as it is: " + S(t));
}
static void check_line(const Ev& e, const geo::Line& l) {
  expect(e.k == Ev::Line && psint::close(e.a[0], l.o.x()) && psint::close(e.a[1], l.o.y()) && psint::close(e.a[2], l.t.x()) && psint::close(e.a[3], l.t.y()), "a line is missing, changed or out of order: " + S(l) + str("got ", int(e.k), " ", e.a[0], ",", e.a[1], "->", e.a[2], ",", e.a[3]));
}
static void check_arc(const Ev& e, const geo::Arc& l) {
  const double k = 180 / 3.14159265358979323846;
  expect(e.k == Ev::Arc && psint::close(e.a[0], l.center.x()) && psint::close(e.a[1], l.center.y()) && psint::close(e.a[2], l.r) && psint::close(e.a[3], l.start * k) && psint::close(e.a[4], l.end * k), "an arc is missing, changed or out of order: " + S(l) + str("got ", int(e.k), " ", e.a[0], ",", e.a[1], " ", e.a[2], " ", e.a[3], " ", e.a[4]));
}
template <class T, class F> static std::vector<T> some(F f) { std::vector<T> v; int n = howmany(); for (int i = 0; i < n; i++) v.push_back(n > 3 && i && chance(15) ? v[ri(0, i - 1)] : f()); return v; }
static void c01() {
  while (more(3000, 200000)) {
    auto v = some<ps::Text>(text); begin(SL(v), !v.empty());
    std::ostringstream o; ps::TextToPs(v, o); auto ev = interpret(o.str());
    expect(ev.size() == v.size(), str(ev.size(), " things drawn for ", v.size(), " labels"));
    for (size_t i = 0; i < v.size(); i++) check_text(o.str(), ev[i], v[i]);
  }
}
static void c02() {
  while (more(3000, 200000)) {
    auto l = some<geo::Line>(line); auto a = some<geo::Arc>(arc); begin(SL(l) + SL(a), !l.empty() || !a.empty());
    { std::ostringstream o; ps::LinesToPs(l, o); auto ev = interpret(o.str()); expect(ev.size() == l.size(), str(ev.size(), " things drawn for ", l.size(), " lines")); for (size_t i = 0; i < l.size(); i++) check_line(ev[i], l[i]); }
    { std::ostringstream o; ps::ArcToPs(a, o); auto ev = interpret(o.str()); expect(ev.size() == a.size(), str(ev.size(), " things drawn for ", a.size(), " arcs")); for (size_t i = 0; i < a.size(); i++) check_arc(ev[i], a[i]); }
  }
}
static void c03() {
  while (more(800, 100000)) {
    int n = chance(10) ? 0 : chance(80) ? ri(1, 5) : ri(9, 30);
    std::vector<stl2ps::OutputPage> pages(n); std::string d;
    for (auto& p : pages) {
      p.text = some<ps::Text>(text); p.lines = some<geo::Line>(line); p.arcs = some<geo::Arc>(arc);
      if (n > 6) { if (p.text.size() > 4) p.text.resize(4); if (p.lines.size() > 4) p.lines.resize(4); if (p.arcs.size() > 4) p.arcs.resize(4); }
      for (auto& t : p.text) for (auto& c : t.str) if (t.str.find("page") != std::string::npos) c = 'x';
      if (&p != &pages[0] && chance(15)) p = pages[0];
      d += "{" + SL(p.text) + SL(p.lines) + SL(p.arcs) + "}";
    }
    bool ts = chance(50), np = chance(60);
    absl::SetFlag(&FLAGS_timestamp, ts); absl::SetFlag(&FLAGS_number_pages, np);
    static const char* srcs[] = {"a.txt", "dir/some script", "", "$0 $1", "x.y.z", "long/long/long/long/name.s2p"};
    std::string src = srcs[ri(0, 5)];
    begin(str("src=", src, " timestamp=", ts, " number_pages=", np, " ", d), n > 0);
    std::ostringstream o; stl2ps::RenderPages(src, pages, o); auto ev = interpret(o.str());
    size_t i = 0; int named = 0;
    expect(o.str().rfind("%", 0) == 0, "the output does not start with the file header");
    while (i < ev.size() && ev[i].k == Ev::Note && ev[i].s.find("Start of page") == std::string::npos && ev[i].s.find(" of ") == std::string::npos) { if (ev[i].s == "% Source: " + src) named++; i++; }
    expect(named == 1, str("the header names the script ", named, " times"));
    for (int p = 0; p < n; p++) {
      std::string label = str(p + 1, " of ", n); int setups = 0; bool labelled = false, own = false; size_t t = 0, a = 0, l = 0, notes = 0; std::string first; std::vector<Ev> drawn;
      for (; i < ev.size() && ev[i].k != Ev::Page; i++) {
        auto& e = ev[i];
        if (e.k == Ev::Note) { if (e.s.size() > label.size() && e.s.find(label) != std::string::npos) { expect(drawn.empty() && !setups, "the page label comes late"); labelled = true; } expect(e.s.find("Source: ") == std::string::npos, "the file header is repeated"); }
        else if (e.k == Ev::Setup) { setups++; expect(drawn.empty(), "page setup after something was drawn"); }
        else drawn.push_back(e);
      }
      expect(i < ev.size(), str("page ", p + 1, " of ", n, " is missing or never shown")); i++;
      while (i < ev.size() && ev[i].k == Ev::Note && ev[i].s.find(" of ") == std::string::npos) i++;
      expect(labelled, str("page ", p + 1, " is not labelled ", label)); expect(setups == 1, str("page ", p + 1, " has ", setups, " page setups"));
      // the border and the page number come before the page's own content
      const auto& g = pages[p]; size_t want = g.text.size() + g.lines.size() + g.arcs.size(), fixed = 4 + (ts || np ? 1 : 0);
      expect(drawn.size() == want + fixed, str("page ", p + 1, " draws ", drawn.size(), " things instead of ", want, " and the frame of ", fixed));
      size_t shows = 0; std::string meta;
      for (size_t k = 0; k < fixed; k++) { if (drawn[k].k == Ev::Show) { shows++; meta = drawn[k].s; } else expect(drawn[k].k == Ev::Line, "the frame is not four lines"); }
      expect(shows == (ts || np ? 1u : 0u), "the page number is not written once");
      std::string num = str("page ", p + 1, " of ", n);
      if (np) expect(meta.size() >= num.size() && meta.compare(meta.size() - num.size(), num.size(), num) == 0 && (ts || meta == num), "page number '" + meta + "' instead of " + num);
      else expect(meta.find("page") == std::string::npos, "the page number is printed though numbering is off: " + meta);
      if (ts) expect(meta.size() >= (np ? num.size() + 11 : 10), "the time is missing: " + meta);
      for (size_t k = fixed; k < drawn.size(); k++) {
        if (drawn[k].k == Ev::Show) { expect(t < g.text.size(), "a label too many"); check_text(o.str(), drawn[k], g.text[t++]); }
        else if (drawn[k].k == Ev::Line) { expect(l < g.lines.size(), "a line too many"); check_line(drawn[k], g.lines[l++]); }
        else { expect(a < g.arcs.size(), "an arc too many"); check_arc(drawn[k], g.arcs[a++]); }
      }
      (void)own; (void)notes;
    }
    for (; i < ev.size(); i++) expect(ev[i].k == Ev::Note && ev[i].s.find("page") == std::string::npos, "something follows the last page");
  }
}
int main(int argc, char** argv) {
  init(argc, argv); std::string m = argc > 1 ? argv[1] : "C01";
  if (m == "C01") c01(); else if (m == "C02") c02(); else c03();
  return done();
}
