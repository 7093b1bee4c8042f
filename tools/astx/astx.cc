// astx: exports the typed AST of the functions defined under a source root as
// compact JSON (clang LibTooling).  The verifier (vc/) consumes the output.
//
//   astx --root=/repo/ file.cc -- <compiler flags>   > file.json
//
// What is dropped: parentheses, ExprWithCleanups / temporaries bookkeeping,
// value-category casts (lvalue-to-rvalue, no-op), comments, attributes.
// Every other expression node is exported with its canonical type.

#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("astx");
static llvm::cl::opt<std::string> Root("root", llvm::cl::init("/repo/"),
                                       llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root2("root2", llvm::cl::init(""),
                                        llvm::cl::cat(Cat));

namespace {

class Exporter {
 public:
  explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), ANG(c) {}

  ASTContext& C;
  SourceManager& SM;
  ASTNameGenerator ANG;
  Array Types, Functions;
  Object Globals, Records;
  std::map<std::string, int> TypeIds;
  std::map<const Decl*, int> DeclIds;
  std::set<const FunctionDecl*> Done;
  std::set<const RecordDecl*> RecDone;
  std::set<const VarDecl*> GlobDone;
  std::vector<const FunctionDecl*> Work;
  std::vector<const VarDecl*> GWork;

  bool InRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto f = SM.getFilename(SM.getExpansionLoc(L));
    if (f.starts_with(Root)) return true;
    if (!Root2.empty() && f.starts_with(Root2)) return true;
    return false;
  }

  int DeclId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = DeclIds.emplace(d, DeclIds.size());
    return it.first->second;
  }

  Object Loc(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    Object o;
    if (P.isValid()) {
      o["f"] = P.getFilename();
      o["l"] = P.getLine();
    }
    return o;
  }

  std::string QName(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // Qualified name without template arguments.
    std::vector<std::string> parts;
    parts.push_back(d->getDeclName() ? d->getDeclName().getAsString() : "");
    if (auto* ct = dyn_cast<CXXConstructorDecl>(d))
      parts.back() = ct->getParent()->getName().str();
    else if (auto* cv = dyn_cast<CXXConversionDecl>(d)) {
      (void)cv;
      parts.back() = "operator()conv";
    } else if (auto* dt = dyn_cast<CXXDestructorDecl>(d))
      parts.back() = "~" + dt->getParent()->getName().str();
    for (const DeclContext* dc = d->getDeclContext(); dc;
         dc = dc->getParent()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->isInline()) continue;
        parts.push_back(ns->isAnonymousNamespace() ? "(anon)"
                                                   : ns->getName().str());
      } else if (auto* r = dyn_cast<RecordDecl>(dc)) {
        parts.push_back(r->getName().str());
      } else if (auto* f = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(f->getNameAsString());
      }
    }
    for (size_t i = parts.size(); i-- > 0;) {
      os << parts[i];
      if (i) os << "::";
    }
    return os.str();
  }

  std::string Mangled(const FunctionDecl* f) {
    if (isa<CXXDeductionGuideDecl>(f)) return "";
    return ANG.getName(f);
  }

  int Type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    bool cst = q.isConstQualified();
    Object o;
    std::string key = q.getAsString();
    const clang::Type* t = q.getTypePtr();
    if (t->isRecordType()) {
      // Distinguish unnamed records/lambdas by declaration.
      key += "#" + std::to_string(DeclId(t->getAsRecordDecl()));
    }
    auto it = TypeIds.find(key);
    if (it != TypeIds.end()) return it->second;
    int id = TypeIds.size();
    TypeIds[key] = id;
    Types.push_back(nullptr);  // reserve
    o["s"] = q.getAsString();
    if (cst) o["const"] = true;
    if (auto* b = dyn_cast<BuiltinType>(t)) {
      o["k"] = "b";
      o["n"] = q.getUnqualifiedType().getAsString();
      (void)b;
    } else if (auto* p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["e"] = Type(p->getPointeeType());
    } else if (auto* r = dyn_cast<ReferenceType>(t)) {
      o["k"] = isa<LValueReferenceType>(t) ? "lref" : "rref";
      o["e"] = Type(r->getPointeeType());
    } else if (auto* e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = QName(e->getDecl());
    } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["e"] = Type(a->getElementType());
      o["n"] = static_cast<int64_t>(a->getSize().getZExtValue());
    } else if (auto* fp = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn";
      o["e"] = Type(fp->getReturnType());
      Array ps;
      for (auto p : fp->getParamTypes()) ps.push_back(Type(p));
      o["a"] = std::move(ps);
    } else if (auto* rt = dyn_cast<RecordType>(t)) {
      const RecordDecl* rd = rt->getDecl();
      o["k"] = "rec";
      o["n"] = QName(rd);
      o["id"] = DeclId(rd);
      if (auto* cr = dyn_cast<CXXRecordDecl>(rd))
        if (cr->isLambda()) o["lambda"] = true;
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        Array as;
        std::vector<TemplateArgument> flat;
        for (auto& a : sp->getTemplateArgs().asArray()) {
          if (a.getKind() == TemplateArgument::Pack)
            for (auto& b : a.pack_elements()) flat.push_back(b);
          else
            flat.push_back(a);
        }
        for (auto& a : flat) {
          Object ao;
          if (a.getKind() == TemplateArgument::Type)
            ao["t"] = Type(a.getAsType());
          else if (a.getKind() == TemplateArgument::Integral)
            ao["i"] = a.getAsIntegral().getExtValue();
          as.push_back(std::move(ao));
        }
        o["a"] = std::move(as);
      }
      Record(rd);
    } else {
      o["k"] = "other";
      o["c"] = t->getTypeClassName();
    }
    Types[id] = std::move(o);
    return id;
  }

  void Record(const RecordDecl* rd) {
    rd = rd->getDefinition();
    if (!rd || !RecDone.insert(rd).second) return;
    if (!InRoot(rd->getLocation())) return;
    Object o;
    o["n"] = QName(rd);
    o["mn"] = C.getRecordType(rd).getCanonicalType().getAsString();
    Array fs;
    for (auto* f : rd->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["id"] = DeclId(f);
      fo["t"] = Type(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) {
      Array bs;
      for (auto& b : cr->bases()) bs.push_back(Type(b.getType()));
      o["bases"] = std::move(bs);
      o["abstract"] = cr->isAbstract();
    }
    Records[std::to_string(DeclId(rd))] = std::move(o);
  }

  Object Callee(const FunctionDecl* f) {
    Object o;
    o["q"] = QName(f);
    o["m"] = Mangled(f);
    o["d"] = DeclId(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->getParent()->isLambda()) o["lambda"] = true;
    }
    if (auto* ct = dyn_cast<CXXConstructorDecl>(f)) {
      if (ct->isCopyConstructor()) o["copy"] = true;
      if (ct->isMoveConstructor()) o["move"] = true;
      if (ct->isDefaultConstructor()) o["dflt"] = true;
    }
    if (f->isDefaulted() || f->isImplicit()) o["defaulted"] = true;
    o["rt"] = Type(f->getReturnType());
    Array ps;
    for (auto* p : f->parameters()) ps.push_back(Type(p->getType()));
    o["pt"] = std::move(ps);
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      Array as;
      for (auto& a : ta->asArray())
        if (a.getKind() == TemplateArgument::Type)
          as.push_back(Type(a.getAsType()));
      o["ta"] = std::move(as);
    }
    const FunctionDecl* def = nullptr;
    if (f->getBody(def) && def && InRoot(def->getLocation())) {
      o["body"] = true;
      Work.push_back(def);
    } else if (f->isDefaulted() && InRoot(f->getLocation())) {
      o["inroot"] = true;
    } else if (InRoot(f->getLocation())) {
      o["inroot"] = true;
    }
    return o;
  }

  Object Var(const VarDecl* v) {
    Object o;
    o["n"] = v->getNameAsString();
    o["id"] = DeclId(v);
    o["t"] = Type(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    return o;
  }

  Value E(const clang::Expr* e) {
    if (!e) return nullptr;
    // Transparent wrappers.
    while (true) {
      if (auto* x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CastExpr>(e)) {
        auto k = x->getCastKind();
        if (k == CK_NoOp || k == CK_ConstructorConversion ||
            k == CK_UserDefinedConversion || k == CK_FunctionToPointerDecay)
          e = x->getSubExpr();
        else break;
      } else break;
    }
    Object o;
    o["t"] = Type(e->getType());
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(e->getBeginLoc()));
    if (P.isValid()) o["l"] = P.getLine();
    if (e->isLValue()) o["lv"] = true;
    else if (e->isXValue()) o["xv"] = true;

    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = std::string(s);
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["v"] = std::to_string(x->getValue());
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      auto v = x->getValue();
      // exact value of the double as a hexadecimal string and decimal source
      bool ign;
      llvm::APFloat d = v;
      d.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &ign);
      char buf[64];
      snprintf(buf, sizeof buf, "%.17g", d.convertToDouble());
      o["v"] = std::string(buf);
      auto txt = Lexer::getSourceText(
          CharSourceRange::getTokenRange(x->getSourceRange()), SM, C.getLangOpts());
      o["src"] = txt.str();
    } else if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "str";
      Array bytes;
      if (x->getCharByteWidth() == 1)
        for (unsigned char c : x->getString()) bytes.push_back(int(c));
      o["v"] = std::move(bytes);
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fnref";
        o["c"] = Callee(f);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = std::string(s);
        o["enum"] = QName(ec);
      } else {
        o["k"] = "ref";
        o["n"] = d->getNameAsString();
        o["id"] = DeclId(d);
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) {
            o["g"] = QName(v);
            GWork.push_back(v);
          }
        }
        if (auto* b = dyn_cast<BindingDecl>(d)) {
          o["k"] = "binding";
          o["b"] = E(b->getBinding());
        }
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "member";
        o["n"] = f->getNameAsString();
        o["rec"] = QName(f->getParent());
        o["rt"] = Type(C.getRecordType(f->getParent()));
        o["arrow"] = x->isArrow();
        o["e"] = E(x->getBase());
      } else if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "ref";
        o["n"] = v->getNameAsString();
        o["id"] = DeclId(v);
        o["g"] = QName(v);
        GWork.push_back(v);
      } else {
        o["k"] = "membfn";
        o["c"] = Callee(cast<FunctionDecl>(x->getMemberDecl()));
        o["arrow"] = x->isArrow();
        o["e"] = E(x->getBase());
      }
    } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      return E(x->getSemanticForm());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      Array as;
      for (auto* a : x->arguments()) as.push_back(E(a));
      o["k"] = isa<CXXOperatorCallExpr>(e) ? "opcall"
               : isa<CXXMemberCallExpr>(e) ? "mcall"
                                           : "call";
      if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e))
        o["op"] = getOperatorSpelling(oc->getOperator());
      if (auto* f = x->getDirectCallee()) o["c"] = Callee(f);
      if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
        o["obj"] = E(mc->getImplicitObjectArgument());
        if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
          o["arrow"] = me->isArrow();
          if (me->hasQualifier()) o["qualcall"] = true;
        }
      } else if (!x->getDirectCallee()) {
        o["fn"] = E(x->getCallee());
      }
      o["a"] = std::move(as);
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      Array as;
      for (auto* a : x->arguments()) as.push_back(E(a));
      o["k"] = "ctor";
      o["c"] = Callee(x->getConstructor());
      o["a"] = std::move(as);
      if (x->isListInitialization()) o["list"] = true;
      if (x->isStdInitListInitialization()) o["il"] = true;
      if (isa<CXXTemporaryObjectExpr>(e)) o["temp"] = true;
    } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "inhctor";
      o["c"] = Callee(x->getConstructor());
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "initlist";
      Array as;
      for (auto* a : x->inits()) as.push_back(E(a));
      o["a"] = std::move(as);
      if (x->getArrayFiller()) o["filler"] = E(x->getArrayFiller());
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = E(x->getSubExpr());
    } else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "cassign";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
      o["ct"] = Type(x->getComputationResultType());
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
    } else if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
    } else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
      return E(x->getSourceExpr());
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      auto k = x->getCastKind();
      if (k == CK_LValueToRValue) {
        o["k"] = "load";
      } else {
        o["k"] = "cast";
        o["ck"] = x->getCastKindName();
      }
      if (isa<CXXDynamicCastExpr>(e)) o["dyn"] = true;
      o["e"] = E(x->getSubExpr());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "index";
      o["a"] = E(x->getBase());
      o["b"] = E(x->getIdx());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["nt"] = Type(x->getAllocatedType());
      o["e"] = E(x->getInitializer());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = E(x->getArgument());
    } else if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      (void)x;
    } else if (isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      o["rec"] = DeclId(x->getLambdaClass());
      Array caps;
      auto init = x->capture_init_begin();
      for (auto& cap : x->captures()) {
        Object c;
        if (cap.capturesVariable()) {
          auto* cv = cap.getCapturedVar();
          c["n"] = cv->getNameAsString();
          c["id"] = DeclId(cv);
          c["ref"] = cap.getCaptureKind() == LCK_ByRef;
          // init-capture: the captured variable carries its own initialiser
          if (auto* vd = dyn_cast<VarDecl>(cv)) {
            if (vd->isInitCapture()) {
              c["init"] = E(vd->getInit());
              c["t"] = Type(vd->getType());
            }
          }
        } else if (cap.capturesThis()) {
          c["this"] = true;
        }
        ++init;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      o["c"] = Callee(x->getCallOperator());
    } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = std::string(s);
      } else {
        o["k"] = "unsupported";
        o["c"] = "sizeof";
      }
    } else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      o["k"] = "typeid";
      if (x->isTypeOperand()) o["of"] = Type(x->getTypeOperand(C));
      else o["e"] = E(x->getExprOperand());
    } else if (auto* x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str";
      Array bytes;
      if (x->getFunctionName())
        for (unsigned char c : x->getFunctionName()->getString()) bytes.push_back(int(c));
      o["v"] = std::move(bytes);
    } else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arraycopy";
      o["e"] = E(x->getCommonExpr()->getSourceExpr());
    } else {
      o["k"] = "unsupported";
      o["c"] = e->getStmtClassName();
    }
    return std::move(o);
  }

  Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<clang::Expr>(s)) {
      Object o;
      o["k"] = "expr";
      o["e"] = E(e);
      auto P = SM.getPresumedLoc(SM.getExpansionLoc(s->getBeginLoc()));
      if (P.isValid()) o["l"] = P.getLine();
      return std::move(o);
    }
    Object o;
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(s->getBeginLoc()));
    if (P.isValid()) o["l"] = P.getLine();
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      Array b;
      for (auto* c : x->body()) b.push_back(S(c));
      o["b"] = std::move(b);
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      Array ds;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) {
          Object vo = Var(v);
          if (auto* dd = dyn_cast<DecompositionDecl>(d)) {
            Array bs;
            for (auto* b : dd->bindings()) {
              Object bo;
              bo["n"] = b->getNameAsString();
              bo["id"] = DeclId(b);
              if (auto* hv = b->getHoldingVar()) {
                bo["hv"] = Var(hv);
              }
              bs.push_back(std::move(bo));
            }
            vo["bindings"] = std::move(bs);
          }
          ds.push_back(std::move(vo));
        }
      }
      o["d"] = std::move(ds);
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      o["init"] = S(x->getInit());
      o["var"] = x->getConditionVariableDeclStmt() ? S(x->getConditionVariableDeclStmt()) : Value(nullptr);
      if (x->isConsteval()) o["k"] = "unsupported";
      else o["c"] = E(x->getCond());
      o["then"] = S(x->getThen());
      o["else"] = S(x->getElse());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = S(x->getInit());
      o["var"] = x->getConditionVariableDeclStmt() ? S(x->getConditionVariableDeclStmt()) : Value(nullptr);
      o["c"] = E(x->getCond());
      o["inc"] = E(x->getInc());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "range";
      o["init"] = S(x->getInit());
      o["range"] = E(x->getRangeInit());
      Object v;
      auto* lv = x->getLoopVariable();
      v["n"] = lv->getNameAsString();
      v["id"] = DeclId(lv);
      v["t"] = Type(lv->getType());
      // The initialiser is *__begin, possibly wrapped in a copy construction.
      v["init"] = E(lv->getInit());
      if (auto* dd = dyn_cast<DecompositionDecl>(lv)) {
        Array bs;
        for (auto* b : dd->bindings()) {
          Object bo;
          bo["n"] = b->getNameAsString();
          bo["id"] = DeclId(b);
          if (auto* hv = b->getHoldingVar()) bo["hv"] = Var(hv);
          bs.push_back(std::move(bo));
        }
        v["bindings"] = std::move(bs);
      }
      o["v"] = std::move(v);
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      o["var"] = x->getConditionVariableDeclStmt() ? S(x->getConditionVariableDeclStmt()) : Value(nullptr);
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = E(x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["init"] = S(x->getInit());
      o["var"] = x->getConditionVariableDeclStmt() ? S(x->getConditionVariableDeclStmt()) : Value(nullptr);
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = E(x->getLHS());
      o["s"] = S(x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = S(x->getSubStmt());
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      return S(x->getSubStmt());
    } else if (auto* x = dyn_cast<LabelStmt>(s)) {
      return S(x->getSubStmt());
    } else if (auto* x = dyn_cast<GCCAsmStmt>(s)) {
      if (x->getAsmString()->getString().trim().empty() && x->getNumOutputs() == 0)
        o["k"] = "null";
      else
        o["k"] = "unsupported";
      o["c"] = "asm";
    } else {
      o["k"] = "unsupported";
      o["c"] = s->getStmtClassName();
    }
    return std::move(o);
  }

  void Function(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (!f->getBody(def) || !def) return;
    f = def;
    if (f->isDependentContext()) return;
    if (!Done.insert(f->getCanonicalDecl()).second) return;
    if (!InRoot(f->getLocation())) return;
    Object o;
    o["q"] = QName(f);
    o["m"] = Mangled(f);
    o["d"] = DeclId(f);
    o["loc"] = Loc(f->getLocation());
    o["end"] = Loc(f->getEndLoc());
    o["rt"] = Type(f->getReturnType());
    if (f->isDefaulted() || f->isImplicit()) o["defaulted"] = true;
    Array ps;
    for (auto* p : f->parameters()) {
      Object po;
      po["n"] = p->getNameAsString();
      po["id"] = DeclId(p);
      po["t"] = Type(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = QName(m->getParent());
      o["clst"] = Type(C.getRecordType(m->getParent()));
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->getParent()->isLambda()) o["lambda"] = true;
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(Mangled(b));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (auto* ct = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      Array is;
      for (auto* i : ct->inits()) {
        Object io;
        if (i->isBaseInitializer()) {
          io["base"] = Type(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) {
          io["deleg"] = true;
        } else if (i->isMemberInitializer()) {
          io["n"] = i->getMember()->getNameAsString();
          io["t"] = Type(i->getMember()->getType());
        }
        io["e"] = E(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = S(f->getBody());
    Functions.push_back(std::move(o));
  }

  void Global(const VarDecl* v) {
    const VarDecl* def = v->getDefinition() ? v->getDefinition() : v;
    const VarDecl* iv = nullptr;
    def->getAnyInitializer(iv);
    if (iv) def = iv;
    if (!GlobDone.insert(def->getCanonicalDecl()).second) return;
    if (!InRoot(def->getLocation())) return;
    Object o;
    o["t"] = Type(def->getType());
    if (def->getInit()) {
      o["init"] = E(def->getInit());
      Expr::EvalResult r;
      if (!def->getInit()->isValueDependent() && def->getType()->isIntegralOrEnumerationType() &&
          def->getInit()->EvaluateAsInt(r, C)) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["iv"] = std::string(s);
      }
    }
    Globals[QName(def)] = std::move(o);
  }

  void Drain() {
    while (!Work.empty() || !GWork.empty()) {
      if (!Work.empty()) {
        auto* f = Work.back();
        Work.pop_back();
        Function(f);
      } else {
        auto* g = GWork.back();
        GWork.pop_back();
        Global(g);
      }
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->doesThisDeclarationHaveABody() && X.InRoot(f->getLocation())) {
      X.Function(f);
      X.Drain();
    }
    return true;
  }
  Exporter& X;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.Drain();
    Object o;
    o["types"] = std::move(X.Types);
    o["functions"] = std::move(X.Functions);
    o["globals"] = std::move(X.Globals);
    o["records"] = std::move(X.Records);
    llvm::outs() << Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, const char** argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) {
    llvm::errs() << llvm::toString(P.takeError());
    return 2;
  }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
