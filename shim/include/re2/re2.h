// Stand-in for the few RE2 calls the project makes; std::regex (ECMAScript)
// back end.  Numeric captures follow RE2: the whole capture must parse.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#include <cerrno>
#include <cstdlib>
#include <regex>
#include <string>

class RE2 {
 public:
  explicit RE2(const char* p) : re_(p, std::regex::ECMAScript | std::regex::optimize) {}
  explicit RE2(const std::string& p) : re_(p) {}

  template <class... A>
  static bool FullMatch(const std::string& text, const RE2& re, A... a) {
    std::smatch m;
    // std::regex recurses per character: refuse what no STL line needs.
    if (text.size() > 4096) return false;
    if (!std::regex_match(text, m, re.re_)) return false;
    size_t i = 1;
    bool ok = true;
    (void)i;
    ((ok = ok && i < m.size() && Parse(m[i++].str(), a)), ...);
    return ok;
  }

 private:
  static bool Parse(const std::string& s, double* d) {
    if (s.empty()) return false;
    char* end = nullptr;
    errno = 0;
    double v = std::strtod(s.c_str(), &end);
    if (end != s.c_str() + s.size() || errno) return false;
    *d = v;
    return true;
  }
  static bool Parse(const std::string& s, std::string* d) {
    *d = s;
    return true;
  }
  std::regex re_;
};
#endif
