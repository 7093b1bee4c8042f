TP = ['ast', 'center', 'geo', 'parser', 'parser.tab', 'lexer.yy', 'parser_support']
PRS = '''#define private public
#define protected public
#include "stl-to-ps/ast.h"
#undef private
#undef protected
#include "stl-to-ps/parser.h"
using namespace stl2ps; using V2 = Eigen::RowVector2d; using V3 = Eigen::RowVector3d;
static int Read(const std::string& s, Document* d) { return Parse("script", s, d); }
int main() {
%s
return 0; }
'''
SEEDS = [
 dict(id='dim-argument-order', property='C29', tus=TP, needs='a dimension with at least three arguments',
      breaks='an argument after the second is put in front of the one before it',
      edits=[('parser.y', "dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace_back($3); }", "dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace_back($3); if ($$->size() > 2) std::swap(($$->end() - 1)[0], ($$->end() - 2)[0]); }")],
      demo=PRS % '''  Document d; CHECK_THAT(Read("page { draw a { dim(from=[1,2,3], to=[4,5,6], dir=[1,0,0]); } }", &d) == 0);
  auto& dims = static_cast<Draw*>(d.pages[0].draws[0].get())->dims; CHECK_THAT(dims.size() == 1);
  auto& m = dims[0]->meta_list; CHECK_THAT(m.size() == 3); CHECK_THAT(m[0]->name == "from" && m[1]->name == "to" && m[2]->name == "dir");'''),
 dict(id='text-line-of-bracket', property='C29', tus=TP, needs='a text whose brackets open on another line than the keyword',
      breaks='the text element is located where its bracket opens, diagnostics name the wrong line',
      edits=[('parser.y', "absl::make_unique<stl2ps::Text>(@2, absl::WrapUnique($4)", "absl::make_unique<stl2ps::Text>(@3, absl::WrapUnique($4)")],
      demo=PRS % '''  Document d; CHECK_THAT(Read("page {\\n text\\n [\\"a\\" \\"b\\"] { } }", &d) == 0);
  CHECK_THAT(d.pages[0].draws[0]->source_line() == 2);'''),
 dict(id='comment-eats-next-line', property='C29', tus=TP, needs='a comment line that ends in a backslash',
      breaks='a backslash at the end of a comment continues it on the next line, whose statement is dropped',
      edits=[('lexer.l', "\\/\\/.*      ;", "\\/\\/([^\\\\\\n]|\\\\(.|\\n))*      ;")],
      demo=PRS % '''  Document d; CHECK_THAT(Read("// see C:\\\\\\nload a = \\"f\\";", &d) == 0); CHECK_THAT(d.models.size() == 1);'''),
 dict(id='long-identifier', property='C29', tus=TP, needs='an identifier longer than 31 characters',
      breaks='names are cut to 31 characters, so two different models become one',
      edits=[('lexer.l', "{ yylval_param->str = new std::string(yytext);  return T::ID; }", "{ yylval_param->str = new std::string(yytext, yyleng < 32 ? yyleng : 31);  return T::ID; }")],
      demo=PRS % '''  Document d; std::string n(40, 'a'); CHECK_THAT(Read("load " + n + " = \\"f\\";", &d) == 0); CHECK_THAT(d.models[0].name == n);'''),
 dict(id='script-ends-at-nul', property='C29', tus=TP, needs='a script that holds a NUL byte',
      breaks='a script is read only up to its first NUL byte, what follows is dropped without a diagnostic',
      edits=[('parser.cc', "stl2ps_scan_bytes(file.data(), file.size(), scanner)", "stl2ps_scan_string(file.c_str(), scanner)")],
      demo=PRS % '''  Document d; CHECK_THAT(Read(std::string("load a = \\"f\\";\\0load b = ;", 24), &d) != 0);'''),
 dict(id='dia-in-front', property='C29', tus=TP, needs='a diameter dimension without arguments after other dimensions',
      breaks='a diameter dimension without arguments is put in front of the dimensions written before it',
      edits=[('parser.y', '''                   ($$ = $1)->dims.emplace_back(
                      absl::make_unique<stl2ps::Dia>(@2));''', '''                   ($$ = $1)->dims.emplace(
                      $$->dims.begin() + ($$->dims.size() > 1),
                      absl::make_unique<stl2ps::Dia>(@2));''')],
      demo=PRS % '''  Document d; CHECK_THAT(Read("page { draw a { rad(); rad(); dia(); } }", &d) == 0);
  auto& dims = static_cast<Draw*>(d.pages[0].draws[0].get())->dims; CHECK_THAT(dims.size() == 3); CHECK_THAT(dynamic_cast<Dia*>(dims[2].get()));'''),
 dict(id='point-third-whole', property='C29', tus=TP, needs='a point whose third coordinate is negative and not whole',
      breaks='the third coordinate of a point is cut to a whole number',
      edits=[('parser.y', "new stl2ps::Val({$2, $4, $6}, @1)", "new stl2ps::Val({$2, $4, $6 < 0 ? ceilf($6) : $6}, @1)")],
      demo=PRS % '''  Document d; CHECK_THAT(Read("page { draw a { view = [1, 2, -3.5]; } }", &d) == 0);
  auto& m = static_cast<Draw*>(d.pages[0].draws[0].get())->meta_list[0]; CHECK_THAT(dynamic_cast<const Val*>(m->get<Point>())->p_.z() == -3.5);'''),
]
