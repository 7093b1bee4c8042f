// Executable oracle for C29: scripts are generated from the grammar (and damaged), parsed by the real parser and by an
// independent reader written from the language description; both must accept the same scripts and see the same contents.
#include <cmath>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#define private public
#define protected public
#include "stl-to-ps/ast.h"
#undef private
#undef protected
#include "stl-to-ps/parser.h"
#include "vh.h"
using namespace vh; using stl2ps::Meta;
using V2 = Eigen::RowVector2d; using V3 = Eigen::RowVector3d;
// ---- one written form of a document, for both sides
static std::string quote(const std::string& s) { std::string o = "'"; char b[8]; for (unsigned char c : s) { if (c > 32 && c < 127 && c != '\'' && c != '<') o += char(c); else { snprintf(b, 8, "<%02x>", c); o += b; } } return o + "'"; }
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string at(int line) { return "@" + std::to_string(line); }
static std::string show(const stl2ps::Point* p) {
  if (auto v = dynamic_cast<const stl2ps::Val*>(p)) return "(" + num(v->p_.x()) + "," + num(v->p_.y()) + "," + num(v->p_.z()) + ")" + at(v->source_line());
  if (auto f = dynamic_cast<const stl2ps::PointFunc*>(p)) return f->name_ + "(" + show(f->p_.get()) + ")" + at(f->source_line());
  return p ? "unknown point" : "no point";
}
static const std::string* file_expected = nullptr;
static void file_ok(const stl2ps::NodeI& n) { expect(n.source_file() == *file_expected, "an element names the file " + quote(n.source_file())); }
static std::string show(Meta* m) {
  if (!m) return "nothing";
  file_ok(*m); std::string s = quote(m->name) + at(m->source_line()) + "=";
  std::string str; float f; V2 v; stl2ps::Scale sc;
  if (m->As(&str)) s += quote(str); else if (m->As(&f)) s += "num " + num(f); else if (m->As(&v)) s += "[" + num(v.x()) + "," + num(v.y()) + "]";
  else if (m->As(&sc)) s += std::to_string(sc.first) + ":" + std::to_string(sc.second); else if (auto p = m->get<stl2ps::Point>()) { file_ok(*p); s += "point " + show(p); } else s += "?";
  return s + "; ";
}
static std::string show(const stl2ps::MetaList& l) { std::string s; for (auto& m : l) s += show(m.get()); return s; }
static std::string show(const stl2ps::Document& d) {
  std::string s;
  for (auto& m : d.models) { file_ok(m); s += "load " + quote(m.name) + " " + quote(m.source) + at(m.source_line()) + " "; }
  for (auto& p : d.pages) {
    file_ok(p); s += "page" + at(p.source_line()) + "{" + show(p.meta) + "| ";
    for (auto& e : p.draws) {
      file_ok(*e);
      if (auto t = dynamic_cast<const stl2ps::Text*>(e.get())) s += "text" + at(t->source_line()) + " " + quote(t->text) + "{" + show(t->meta_list) + "} ";
      else if (auto w = dynamic_cast<const stl2ps::Draw*>(e.get())) {
        s += "draw" + at(w->source_line()) + " " + quote(w->name) + "{" + show(w->meta_list) + "| ";
        for (auto& x : w->dims) {
          const char* k = dynamic_cast<stl2ps::Angle*>(x.get()) ? "angle" : dynamic_cast<stl2ps::Dia*>(x.get()) ? "dia" : dynamic_cast<stl2ps::Dim*>(x.get()) ? "dim" : dynamic_cast<stl2ps::Rad*>(x.get()) ? "rad" : "?";
          file_ok(*x); s += std::string(k) + at(x->source_line()) + "(" + show(x->meta_list) + ") ";
        }
        s += "} ";
      } else s += "unknown element ";
    }
    s += "} ";
  }
  return s;
}
// ---- the independent reader
struct Bad {};
struct Tok { char k; std::string t; int line; };      // 'i' identifier, 'n' number, 's' string, 'k' keyword, 'e' end, else punctuation
static bool idc(char c, bool first) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (!first && c >= '0' && c <= '9'); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static std::vector<Tok> lex(const std::string& s) {
  std::vector<Tok> r; int line = 1; size_t i = 0, n = s.size();
  while (i < n) {
    char c = s[i];
    if (c == '\n') { line++; i++; continue; }
    if (c == ' ' || c == '\t' || c == '\r') { i++; continue; }
    if (c == '/' && i + 1 < n && s[i + 1] == '/') { while (i < n && s[i] != '\n') i++; continue; }
    if (std::string("{}[]()=;:,@").find(c) != std::string::npos && c) { r.push_back({c, "", line}); i++; continue; }
    if (idc(c, true)) {
      size_t j = i; while (j < n && idc(s[j], false)) j++;
      std::string t = s.substr(i, j - i); i = j;
      bool kw = t == "angle" || t == "dia" || t == "dim" || t == "draw" || t == "load" || t == "page" || t == "rad" || t == "text";
      r.push_back({kw ? 'k' : 'i', t, line}); continue;
    }
    if (c == '"') {
      std::string t; size_t j = i + 1; bool ok = false;
      while (j < n && s[j] != '\n') {
        if (s[j] == '"') { ok = true; j++; break; }
        if (s[j] == '\\') { if (j + 1 >= n || !s[j + 1] || !strchr("'\"?\\n", s[j + 1])) break; t += s[j + 1] == 'n' ? '\n' : s[j + 1]; j += 2; continue; }
        t += s[j++];
      }
      if (!ok) throw Bad();
      r.push_back({'s', t, line}); i = j; continue;
    }
    size_t j = i; if (s[j] == '-' || s[j] == '+') j++;
    if (j < n && dig(s[j])) { while (j < n && dig(s[j])) j++; if (j < n && s[j] == '.') { j++; while (j < n && dig(s[j])) j++; } }
    else if (j + 1 < n && s[j] == '.' && dig(s[j + 1])) { j++; while (j < n && dig(s[j])) j++; }
    else throw Bad();
    r.push_back({'n', s.substr(i, j - i), line}); i = j;
  }
  r.push_back({'e', "", line});
  return r;
}
struct Reader {
  std::vector<Tok> t; size_t p = 0;
  bool is(char k) const { return t[p].k == k; }
  bool kw(const char* w) const { return t[p].k == 'k' && t[p].t == w; }
  Tok take(char k) { if (!is(k)) throw Bad(); return t[p++]; }
  double val(const Tok& n) { float f = strtof(n.t.c_str(), nullptr); if (!std::isfinite(f)) throw Bad(); return f; }
  double number() { return val(take('n')); }
  std::string strings() { std::string s = take('s').t; while (is('s')) s += t[p++].t; return s; }
  std::string point() {
    if (is('i')) { Tok n = take('i'); take('('); std::string s = point(); take(')'); return n.t + "(" + s + ")" + at(n.line); }
    int l = take('[').line; double a = number(); take(','); double b = number(); take(','); double c = number(); take(']');
    return "(" + num(a) + "," + num(b) + "," + num(c) + ")" + at(l);
  }
  std::string location() { take('['); double a = number(); take(','); double b = number(); take(']'); return "[" + num(a) + "," + num(b) + "]"; }
  std::string arg() {
    if (is('@')) { int l = take('@').line; return quote("@") + at(l) + "=" + location() + "; "; }
    Tok n = take('i'); take('='); std::string s = quote(n.t) + at(n.line) + "=";
    if (is('s')) return s + quote(strings()) + "; ";
    if (is('n')) {
      double a = number(); if (!is(':')) return s + "num " + num(a) + "; ";
      take(':'); double b = number(); if (a != std::trunc(a) || b != std::trunc(b) || std::abs(a) > 1e9 || std::abs(b) > 1e9) throw Bad();
      return s + std::to_string(int(a)) + ":" + std::to_string(int(b)) + "; ";
    }
    if (is('i')) return s + "point " + point() + "; ";
    size_t q = p; int commas = 0; while (t[q].k != ']' && t[q].k != 'e') commas += t[q++].k == ',';
    return commas == 1 ? s + location() + "; " : s + "point " + point() + "; ";
  }
  std::string all() {
    std::string models, pages;
    while (!is('e')) {
      if (kw("load")) { int l = t[p++].line; Tok n = take('i'); take('='); Tok f = take('s'); take(';'); models += "load " + quote(n.t) + " " + quote(f.t) + at(l) + " "; continue; }
      if (!kw("page")) throw Bad();
      int l = t[p++].line; take('{'); std::string meta, draws;
      while (!is('}')) {
        if (kw("draw")) {
          p++; Tok n = take('i'); take('{'); std::string m, d;
          while (!is('}')) {
            if (is('k')) {
              Tok k = t[p++]; if (k.t != "angle" && k.t != "dia" && k.t != "dim" && k.t != "rad") throw Bad();
              take('('); std::string a; if (!is(')')) { a = arg(); while (is(',')) { p++; a += arg(); } } take(')'); take(';'); d += k.t + at(k.line) + "(" + a + ") ";
            } else { m += arg(); take(';'); }
          }
          take('}'); draws += "draw" + at(n.line) + " " + quote(n.t) + "{" + m + "| " + d + "} ";
        } else if (kw("text")) {
          int tl = t[p++].line; take('['); std::string s = strings(); take(']'); take('{'); std::string m; while (!is('}')) { m += arg(); take(';'); } take('}');
          draws += "text" + at(tl) + " " + quote(s) + "{" + m + "} ";
        } else { meta += arg(); take(';'); }
      }
      take('}'); pages += "page" + at(l) + "{" + meta + "| " + draws + "} ";
    }
    return models + pages;
  }
};
// ---- scripts from the grammar
static std::vector<std::string> out;
static void w(const std::string& s) { out.push_back(s); }
static std::string ident() {
  static const char* k[] = {"at", "dir", "from", "to", "fmt", "view", "scale", "name", "near", "center", "apex", "from_dir", "x", "Q7", "_", "a_1", "pages", "loads", "drawn", "texts", "dimension", "Text", "dia2", "e5", "rad_", "angles"};
  return k[ri(0, sizeof k / sizeof *k - 1)];
}
static std::string number() {
  std::string s = chance(30) ? "-" : chance(15) ? "+" : ""; int n = ri(0, 12);
  if (chance(15)) return s + "." + std::to_string(ri(0, 999));
  s += chance(80) ? std::to_string(ri(0, 20)) : chance(70) ? std::to_string(ri(0, 2000000000)) : chance(80) ? "00" + std::to_string(ri(0, 99)) : std::string(ri(30, 60), char('0' + ri(0, 9)));
  if (n < 5) s += "."; if (n < 4) s += std::to_string(ri(0, 9999)); if (n == 0) s += "000000001";
  if (chance(2)) s = (chance(50) ? "0." : ".") + std::string(ri(30, 60), '0') + "1";
  return s;
}
static std::string lit() {
  std::string s = "\""; int n = chance(15) ? 0 : ri(1, 8);
  for (int i = 0; i < n; i++) {
    if (chance(20)) { s += '\\'; s += "'\"?\\n"[ri(0, 4)]; }
    else if (chance(70)) s += "abcxyz /{}[]();=,@:'%#-_.0159"[ri(0, 28)];
    else { char c = char(ri(0, 255)); if (c != '"' && c != '\\' && c != '\n') s += c; }
  }
  return s + "\"";
}
static void lits() { w(lit()); while (chance(20)) w(lit()); }
static void point(int d) { if (d < 3 && chance(30)) { w(ident()); w("("); point(d + 1); w(")"); } else { w("["); w(number()); w(","); w(number()); w(","); w(number()); w("]"); } }
static void loc() { w("["); w(number()); w(","); w(number()); w("]"); }
static void arg() {
  if (chance(15)) { w("@"); loc(); return; }
  w(ident()); w("=");
  switch (ri(0, 4)) {
    case 0: lits(); break; case 1: point(0); break; case 2: w(number()); break; case 3: loc(); break;
    default: w(chance(80) ? std::to_string(ri(-3, 40)) : number()); w(":"); w(chance(80) ? std::to_string(ri(0, 40)) : number());
  }
}
static void args() { int n = chance(30) ? 0 : ri(1, 3); for (int i = 0; i < n; i++) { arg(); w(";"); } }
static void draw() {
  w("draw"); w(ident()); w("{"); int n = ri(0, 4);
  for (int i = 0; i < n; i++) {
    if (chance(40)) { arg(); w(";"); continue; }
    static const char* k[] = {"angle", "dia", "dim", "rad"};
    w(k[ri(0, 3)]); w("("); int a = chance(25) ? 0 : ri(1, 4); for (int j = 0; j < a; j++) { if (j) w(","); arg(); } w(")"); w(";");
  }
  w("}");
}
static void page() {
  w("page"); w("{"); int n = ri(0, 4);
  for (int i = 0; i < n; i++) {
    if (chance(30)) { arg(); w(";"); } else if (chance(60)) draw(); else { w("text"); w("["); lits(); w("]"); w("{"); args(); w("}"); }
  }
  w("}");
}
static std::string gap() { if (chance(70)) return ""; switch (ri(0, 7)) { case 0: return "\n"; case 1: return "\t"; case 2: return "\r\n"; case 3: return " // note \"{ load\n"; case 4: return "//\n"; case 5: return "\n\n  "; default: return " "; } }
static std::string script() {
  out.clear(); int n = chance(5) ? 0 : ri(1, 4); for (int i = 0; i < n; i++) if (chance(40)) { w("load"); w(ident()); w("="); w(lit()); w(";"); } else page();
  if (chance(25) && !out.empty()) for (int k = ri(1, 2); k-- && !out.empty();) {         // damage the token list
    int i = ri(0, out.size() - 1), j = ri(0, out.size() - 1);
    switch (ri(0, 4)) { case 0: out.erase(out.begin() + i); break; case 1: std::swap(out[i], out[j]); break; case 2: out.insert(out.begin() + i, out[j]); break; case 3: out[i] = out[j];
      break; default: out.resize(i); }
  }
  std::string s;
  for (size_t i = 0; i < out.size(); i++) {
    s += gap();
    if (!s.empty() && !out[i].empty() && idc(s.back(), false) && (idc(out[i][0], false) || out[i][0] == '.') && !chance(3)) s += ' ';
    s += out[i];
  }
  s += gap();
  if (chance(15) && !s.empty()) { int i = ri(0, s.size() - 1); static const char odd[] = "\"\\/#.\0\x80\xff+-0a;}\n"; switch (ri(0, 2)) { case 0: s.erase(i, 1); break; case 1: s.insert(i, 1, odd[ri(0, sizeof odd - 2)]); break; default: s[i] = odd[ri(0, sizeof odd - 2)]; } }
  return s;
}
// ---- every character at every kind of place, and the spellings of the keywords
static std::vector<std::string> systematic() {
  std::vector<std::string> r; auto put = [&](const std::string& a, const std::string& m, const std::string& z) { r.push_back(a + m + z); };
  static const char* places[][2] = {
    {"", "load a=\"f\";"}, {"load", " a=\"f\";"}, {"load a", "=\"f\";"}, {"load a", "b=\"f\";"}, {"load ", "a=\"f\";"}, {"load a=", "\"f\";"}, {"load a=\"", "f\";"}, {"load a=\"f\\", "g\";"}, {"load a=\"f\"", ";"}, {"load a=\"f\";", ""},
    {"page{x=1", ";}"}, {"page{x=1", "5;}"}, {"page{x=", "15;}"}, {"page{x=1.", ";}"}, {"page{x=1.5", ";}"}, {"page{x=.5", "5;}"}, {"page{x=.", "5;}"}, {"page{x=-", "5;}"}, {"page{x=-.", "5;}"}, {"page{x=[1", "2];}"}, {"page{x=3", "4;}"}, {"page{@", "[1,2];}"},
    {"page{//", "\nx=1;}"}, {"page{/", "x=1;}"}, {"page{ //c", "\nx=1;y=2;}"}, {"page{  ", "\n\n x=1;}"}, {"page{draw a{dim(", ");}}"}, {"page{draw a{dim()", ";}}"}, {"page{text[\"a\"", "\"b\"]{}}"}, {"page{x=\"a\\n", "\";}"},
  };
  for (auto& p : places) for (int b = 0; b < 256; b++) put(p[0], std::string(1, char(b)), p[1]);
  for (auto& p : {std::make_pair("page{x=1", ";}"), std::make_pair("load a", "=\"f\";"), std::make_pair("page{x=\"a", "\";}")})
    for (int b = 32; b < 127; b++) for (int c : {'0', '1', 'a', 'e', '+', '-', '.', '_', '/', '*', '"', '\'', '\\', ' ', 'x', '\n', ':', ',', '(', ')'}) put(p.first, std::string(1, char(b)) + char(c), p.second);
  for (auto* e : {"1e5", "1E5", "1e+5", "1.5e3", "1.e3", ".5e3", "1e-5", "0x1F", "1f", "1.0f", "--1", "+-1", "+1", "-1", "+.5", "-.5", "1.", "-1.", "+1.", ".", "-", "inf", "nan", "1..2", "1_000", "1,5", "1'000", "1/2", "(1)"}) put("page{x=", e, ";}"), put("page{x=3:", e, ";}"), put("page{x=[", e, ",2];}");
  for (auto* k : {"angle", "dia", "dim", "draw", "load", "page", "rad", "text"}) {
    std::string w = k; std::vector<std::string> v{w, w + "s", w + "_", w + "1", w.substr(0, w.size() - 1), w.substr(1), "_" + w};
    for (size_t i = 0; i < w.size(); i++) { std::string u = w; u[i] = char(u[i] - 32); v.push_back(u); u = w; for (size_t j = 0; j <= i; j++) u[j] = char(w[j] - 32); v.push_back(u); }
    for (auto& u : v) { put("", u, " a=\"f\";"); put("", u, "{}"); put("page{", u, "[\"a\"]{}}"); put("page{", u, " a{}}"); put("page{draw a{", u, "();}}"); put("load ", u, "=\"f\";"); put("page{", u, "=1;}"); put("page{draw ", u, "{}}"); put("page{draw a{x=", u, "([1,2,3]);}}"); }
  }
  for (int n : {2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 5000, 9000, 17000}) {
    std::string id(n, 'a'), z; put("load ", id, "=\"f\";"); put("page{draw ", id, "{}}"); put("page{", id, "=1;}"); put("page{x=", id + "([1,2,3])", ";}"); put("load a=\"", id, "\";"); put("page{text[\"", id, "\"]{}}"); put("page{x=\"", id, "\" \"b\";}");
    put("page{x=1.", std::string(n, '7'), ";}"); put("page{x=", std::string(n, '0') + "5", ";}"); put("page{//", id, "\nx=1;}"); put("page{", std::string(n, ' '), "x=1;}"); put("page{", std::string(n, '\n'), "x=1;}");
    if (n > 1100) continue;
    auto rep = [&](const std::string& a, const std::string& m, const std::string& z, const std::string& last = "") { std::string t = a; for (int i = 0; i < n; i++) { t += m; size_t k = t.find('#', a.size()); if (k != std::string::npos) t.replace(k, 1, std::to_string(i)); } r.push_back(t + last + z); };
    rep("", "load a#=\"f\";\n", ""); rep("", "page{x=#;}", ""); rep("page{", "x#=#;", "}"); rep("page{", "draw a#{x=1;}", "}"); rep("page{", "text[\"#\"]{}", "}"); rep("page{draw a{", "x#=1;", "}}");
    for (auto* k : {"dim", "dia", "rad", "angle"}) rep("page{draw a{", std::string(k) + "(a#=1); ", "}}"), rep("page{draw a{" + std::string(k) + "(", "a#=1,", ");}}", "z=2"); rep("page{x=", "\"s#\" ", ";}"); rep("page{text[", "\"s#\"", "]{y=1;}}"); rep("page{text[\"a\"]{", "x#=1;", "}}");
    if (n < 130) { std::string t = "[1,2,3]"; for (int i = 0; i < n; i++) t = "f" + std::to_string(i) + "(" + t + ")"; put("page{x=", t, ";}"); }
  }
  return r;
}
int main(int argc, char** argv) {
  init(argc, argv);
  int err = memfd_create("err", 0); dup2(err, 2);
  std::string file = "dir/script one.txt"; file_expected = &file; long done_ok = 0;
  std::vector<std::string> sys = systematic(); size_t nsys = 0;
  while (more(6000 + (int)sys.size(), 300000 + (int)sys.size()) || nsys < sys.size()) {
    std::string s = nsys < sys.size() ? sys[nsys++] : script(), want; bool good = true;
    try { Reader r; r.t = lex(s); want = r.all(); } catch (Bad&) { good = false; }
    begin((good ? "valid: " : "invalid: ") + quote(s), !s.empty());
    if (ftruncate(err, 0) || lseek(err, 0, SEEK_SET)) {}
    stl2ps::Document d; int rc = stl2ps::Parse(file, s, &d);
    if (!good) { fflush(stderr); expect(rc != 0, "accepted as: " + show(d)); expect(lseek(err, 0, SEEK_END) > 0, "refused without a diagnostic"); continue; }
    expect(rc == 0, "refused, though it means: " + want);
    std::string got = show(d); expect(got == want, "read as: " + got + "\n instead of: " + want); done_ok++;
  }
  return done();
}
