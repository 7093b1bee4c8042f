// A small PostScript reader: enough to tell what a page description draws, independent of its layout.
#pragma once
#include <cmath>
#include <string>
#include <vector>
namespace psint {
struct Tok { enum K { Num, Str, Name, Comment } k; double v = 0; std::string s; size_t at = 0; };
// Decodes a string literal starting after its opening parenthesis; i ends after the closing one.
inline bool literal(const std::string& t, size_t& i, std::string* out) {
  int depth = 0;
  while (i < t.size()) {
    char c = t[i++];
    if (c == '\\') {
      if (i >= t.size()) return false;
      char e = t[i++];
      switch (e) {
        case 'n': out->push_back('\n'); break;
        case 'r': out->push_back('\r'); break;
        case 't': out->push_back('\t'); break;
        case 'b': out->push_back('\b'); break;
        case 'f': out->push_back('\f'); break;
        case '\n': break;
        case '\r': if (i < t.size() && t[i] == '\n') i++; break;
        case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': {
          int v = e - '0', n = 1;
          while (n < 3 && i < t.size() && t[i] >= '0' && t[i] <= '7') { v = v * 8 + (t[i++] - '0'); n++; }
          out->push_back(char(v)); break;
        }
        default: out->push_back(e);
      }
    } else if (c == '\r') { out->push_back('\n'); if (i < t.size() && t[i] == '\n') i++; }
    else if (c == '(') { depth++; out->push_back(c); }
    else if (c == ')') { if (depth == 0) return true; depth--; out->push_back(c); }
    else out->push_back(c);
  }
  return false;
}
inline bool scan(const std::string& t, std::vector<Tok>* out, std::string* err) {
  size_t i = 0;
  auto ws = [](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' || c == 0; };
  auto del = [&](char c) { return ws(c) || std::string("()<>[]{}/%").find(c) != std::string::npos; };
  while (i < t.size()) {
    char c = t[i]; size_t at = i;
    if (ws(c)) { i++; continue; }
    if (c == '%') { size_t e = t.find_first_of("\n\r", i); if (e == std::string::npos) e = t.size(); out->push_back({Tok::Comment, 0, t.substr(i, e - i), at}); i = e; continue; }
    if (c == '(') { i++; Tok k{Tok::Str, 0, "", at}; if (!literal(t, i, &k.s)) { *err = "a string literal is never closed"; return false; } out->push_back(k); continue; }
    if (c == ')') { *err = "a closing parenthesis outside a string literal: ..." + t.substr(i < 60 ? 0 : i - 60, 80); return false; }
    if (c == '<' || c == '>') { i += (i + 1 < t.size() && t[i + 1] == c) ? 2 : 1; out->push_back({Tok::Name, 0, t.substr(at, i - at), at}); continue; }
    if (c == '[' || c == ']' || c == '{' || c == '}') { i++; out->push_back({Tok::Name, 0, std::string(1, c), at}); continue; }
    i++;
    while (i < t.size() && !del(t[i])) i++;
    std::string w = t.substr(at, i - at); char* e; double v = strtod(w.c_str(), &e);
    if (*e == 0 && w[0] != '/' && (isdigit((unsigned char)w[0]) || w[0] == '.' || w[0] == '-' || w[0] == '+')) out->push_back({Tok::Num, v, w, at});
    else out->push_back({Tok::Name, 0, w, at});
  }
  return true;
}
struct Ev { enum K { Line, Arc, Show, Page, Setup, Note } k; double a[5] = {0, 0, 0, 0, 0}; std::string s; bool centred = false; size_t at = 0; };
// Runs the program: strokes, shown strings, pages. Returns false with a message when it does something it should not.
inline bool run(const std::string& text, std::vector<Ev>* ev, std::string* err) {
  std::vector<Tok> ts;
  if (!scan(text, &ts, err)) return false;
  std::vector<Tok> st; bool cur = false; double x = 0, y = 0; bool centred = false; double cx = 0, cy = 0;
  std::vector<Ev> path; bool pending_centre = false; Tok centre_str;
  auto num = [&](double* v) { if (st.empty() || st.back().k != Tok::Num) return false; *v = st.back().v; st.pop_back(); return true; };
  for (size_t i = 0; i < ts.size(); i++) {
    const Tok& t = ts[i];
    if (t.k == Tok::Comment) { ev->push_back({Ev::Note, {}, t.s, false, t.at}); continue; }
    if (t.k != Tok::Name) { st.push_back(t); continue; }
    if (t.s == "{") { int d = 1; std::string body; while (d && ++i < ts.size()) { if (ts[i].k == Tok::Name && ts[i].s == "{") d++; if (ts[i].k == Tok::Name && ts[i].s == "}") d--; } if (d) { *err = "a procedure is never closed"; return false; } st.push_back({Tok::Name, 0, "{}", t.at}); continue; }
    if (t.s[0] == '/' || t.s == "<<" || t.s == "[") { st.push_back(t); continue; }
    auto bad = [&] { *err = "operands missing for " + t.s; return false; };
    if (t.s == "]") { while (!st.empty() && st.back().s != "[") st.pop_back(); if (st.empty()) return bad(); st.back() = {Tok::Name, 0, "array", t.at}; }
    else if (t.s == ">>") { while (!st.empty() && st.back().s != "<<") st.pop_back(); if (st.empty()) return bad(); st.back() = {Tok::Name, 0, "dict", t.at}; }
    else if (t.s == "def") { if (st.size() < 2) return bad(); st.pop_back(); st.pop_back(); }
    else if (t.s == "newpath") { path.clear(); cur = false; }
    else if (t.s == "moveto") { double a, b; if (!num(&b) || !num(&a)) return bad(); x = a; y = b; cur = true; }
    else if (t.s == "lineto") { double a, b; if (!num(&b) || !num(&a)) return bad(); if (!cur) { *err = "lineto without a current point"; return false; } path.push_back({Ev::Line, {x, y, a, b}, "", false, t.at}); x = a; y = b; }
    else if (t.s == "arc") { Ev e{Ev::Arc, {}, "", false, t.at}; for (int k = 4; k >= 0; k--) if (!num(&e.a[k])) return bad(); if (cur) path.push_back({Ev::Line, {x, y, NAN, NAN}, "", false, t.at}); path.push_back(e); cur = true; }
    else if (t.s == "stroke") { for (auto& e : path) ev->push_back(e); path.clear(); cur = false; }
    else if (t.s == "CenterText") { if (st.empty() || st.back().k != Tok::Str) return bad(); if (!cur) { *err = "centred text without a position"; return false; } if (centred) { *err = "text centred twice"; return false; } centred = true; }
    else if (t.s == "show") { if (st.empty() || st.back().k != Tok::Str) return bad(); if (!cur) { *err = "show without a position"; return false; } Ev e{Ev::Show, {x, y}, st.back().s, centred, st.back().at}; st.pop_back(); ev->push_back(e); centred = false; cur = false; }
    else if (t.s == "showpage") { ev->push_back({Ev::Page, {}, "", false, t.at}); cur = false; path.clear(); }
    else if (t.s == "setpagedevice") { if (st.empty() || st.back().s != "dict") return bad(); st.pop_back(); ev->push_back({Ev::Setup, {}, "", false, t.at}); }
    else if (t.s == "setlinewidth") { double a; if (!num(&a)) return bad(); }
    else if (t.s == "scalefont") { if (st.empty()) return bad(); st.pop_back(); }
    else if (t.s == "setfont") { if (!st.empty()) st.pop_back(); }
    else if (t.s == "findfont") { if (st.empty()) return bad(); }
    else if (t.s == "FontSize") { st.push_back({Tok::Num, 8, "8", t.at}); }
    else { *err = "unknown operator " + t.s.substr(0, 60); return false; }
    (void)pending_centre; (void)centre_str; (void)cx; (void)cy;
  }
  for (auto& t : st) if (t.k == Tok::Str) { *err = "a string is left over: (" + t.s.substr(0, 60) + ")"; return false; }
  if (!path.empty()) { *err = "a path is never stroked"; return false; }
  return true;
}
inline bool close(double a, double b, double rel = 2e-5) { if (a == b) return true; return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + 1e-12; }
}  // namespace psint
