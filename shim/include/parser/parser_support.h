// Stand-in for @bazel_rules//parser:parser_support.
#ifndef VERIF_SHIM_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_SUPPORT_H_
#include <iostream>
#include <string>

namespace parser_support {
struct ScannerExtra {
  std::string* filename = nullptr;
};
template <class L>
void Error(const L& loc, const std::string& msg, ScannerExtra* e) {
  std::cerr << (e && e->filename ? *e->filename : std::string("??")) << ":"
            << loc.begin.line << ": " << msg << std::endl;
}
}  // namespace parser_support
#endif
