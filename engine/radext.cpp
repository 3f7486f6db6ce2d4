// radext: mechanical extractor. Parses a translation unit with clang and dumps, as JSON, every
// record, enum, global and function body whose location lies under one of the --root prefixes.
// Nothing is rewritten: the dump is the clang AST of the code that is compiled.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace js = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  js::Array types;
  std::map<std::string, int> typeIdx; // key: serialised json
  js::Object records, enums, vars;
  js::Array funcs;
  std::set<const void *> seenRec, seenEnum, seenVar;
  std::set<const FunctionDecl *> seenFn;
  PrintingPolicy PP;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    for (auto &r : Roots)
      if (F.starts_with(r)) return true;
    return false;
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) { return SM.getFilename(SM.getExpansionLoc(L)).str(); }

  int intern(js::Value v) {
    std::string s;
    llvm::raw_string_ostream os(s);
    os << v;
    os.flush();
    auto it = typeIdx.find(s);
    if (it != typeIdx.end()) return it->second;
    int i = types.size();
    typeIdx[s] = i;
    types.push_back(std::move(v));
    return i;
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) return "lambda#" + std::to_string(line(R->getLocation())) + "_" + std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
    std::string n;
    llvm::raw_string_ostream os(n);
    R->printQualifiedName(os, PP);
    os.flush();
    if (n.rfind("std::__cxx11::", 0) == 0) n = "std::" + n.substr(14);
    if (!R->getDeclName()) n += "anon#" + std::to_string(line(R->getLocation()));
    return n;
  }
  js::Value targs(const TemplateArgumentList &L) {
    js::Array a;
    std::function<void(const TemplateArgument &)> one = [&](const TemplateArgument &A) {
      switch (A.getKind()) {
      case TemplateArgument::Type: a.push_back(type(A.getAsType())); break;
      case TemplateArgument::Integral: a.push_back(js::Object{{"i", (int64_t)A.getAsIntegral().getExtValue()}}); break;
      case TemplateArgument::Pack: for (auto &x : A.pack_elements()) one(x); break;
      default: a.push_back(js::Object{{"x", 1}});
      }
    };
    for (auto &x : L.asArray()) one(x);
    return a;
  }
  std::map<const void *, int> tcache;
  int type(QualType T) {
    if (T.isNull()) return intern(js::Object{{"k", "none"}});
    T = T.getCanonicalType();
    auto f = tcache.find(T.getAsOpaquePtr());
    if (f != tcache.end()) return f->second;
    int r = type0(T);
    tcache[T.getAsOpaquePtr()] = r;
    return r;
  }
  int type0(QualType T) {
    bool cst = T.isConstQualified();
    const Type *t = T.getTypePtr();
    js::Object o;
    if (auto *B = dyn_cast<BuiltinType>(t)) {
      o["k"] = "b";
      o["n"] = B->getName(PP).str();
      if (B->isInteger()) {
        o["w"] = (int64_t)C.getTypeSize(T);
        o["s"] = B->isSignedInteger();
      }
    } else if (auto *P = dyn_cast<PointerType>(t)) {
      o["k"] = "p"; o["to"] = type(P->getPointeeType());
    } else if (auto *R = dyn_cast<ReferenceType>(t)) {
      o["k"] = "r"; o["to"] = type(R->getPointeeType());
    } else if (auto *E = dyn_cast<EnumType>(t)) {
      o["k"] = "e"; o["n"] = E->getDecl()->getQualifiedNameAsString();
      auto it = E->getDecl()->getIntegerType();
      if (!it.isNull()) { o["w"] = (int64_t)C.getTypeSize(it); o["s"] = it->isSignedIntegerType(); }
      dumpEnum(E->getDecl());
    } else if (auto *RT = dyn_cast<RecordType>(t)) {
      auto *D = dyn_cast<CXXRecordDecl>(RT->getDecl());
      o["k"] = "c";
      o["n"] = D ? recName(D) : RT->getDecl()->getQualifiedNameAsString();
      if (auto *S = dyn_cast_or_null<ClassTemplateSpecializationDecl>(D)) o["a"] = targs(S->getTemplateArgs());
      if (D && inRoot(D->getLocation())) needRecord(D);
    } else if (auto *A = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr"; o["to"] = type(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *A = dyn_cast<ArrayType>(t)) {
      o["k"] = "arr"; o["to"] = type(A->getElementType());
    } else if (auto *M = dyn_cast<MemberPointerType>(t)) {
      o["k"] = "mp"; (void)M; o["s"] = T.getAsString(PP);
    } else if (auto *F = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn"; o["ret"] = type(F->getReturnType());
      js::Array ps; for (auto p : F->param_types()) ps.push_back(type(p));
      o["ps"] = std::move(ps);
    } else {
      o["k"] = "o"; o["s"] = T.getAsString(PP);
    }
    if (cst) o["c"] = 1;
    return intern(std::move(o));
  }
  std::vector<const CXXRecordDecl *> recQ;
  void needRecord(const CXXRecordDecl *R) { recQ.push_back(R); }
  std::string typeStr(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string fullRec(const CXXRecordDecl *R) {
    std::string n = recName(R);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      llvm::raw_string_ostream os(n);
      printTemplateArgumentList(os, S->getTemplateArgs().asArray(), PP);
    }
    return n;
  }
  void dumpRecord(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || seenRec.count(R) || R->isDependentContext()) return;
    seenRec.insert(R);
    js::Object o;
    js::Array bases, fields, methods;
    for (auto &b : R->bases()) bases.push_back(type(b.getType()));
    for (auto *f : R->fields()) {
      js::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}};
      if (f->isMutable()) fo["mut"] = 1;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    for (auto *m : R->methods()) if (m->isVirtual()) methods.push_back(m->getNameAsString());
    o["bases"] = std::move(bases); o["fields"] = std::move(fields); o["virt"] = std::move(methods);
    o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
    o["name"] = recName(R);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["a"] = targs(S->getTemplateArgs());
    records[fullRec(R)] = std::move(o);
  }
  void dumpEnum(const EnumDecl *E) {
    if (seenEnum.count(E->getCanonicalDecl())) return;
    seenEnum.insert(E->getCanonicalDecl());
    js::Object o;
    for (auto *c : E->enumerators()) o[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
    std::string n = E->getQualifiedNameAsString();
    if (!E->getDeclName()) n += "#" + std::to_string(line(E->getLocation()));
    enums[n] = std::move(o);
  }
  std::string qn(const NamedDecl *D) {
    std::string n;
    llvm::raw_string_ostream os(n);
    D->printQualifiedName(os, PP);
    os.flush();
    size_t p;
    while ((p = n.find("std::__cxx11::")) != std::string::npos) n.erase(p + 5, 9);
    return n;
  }
  std::string did(const ValueDecl *D) {
    return std::to_string((uint64_t)(uintptr_t)D->getCanonicalDecl() & 0xffffffffffULL);
  }
  void addParts(js::Object &o, std::initializer_list<const Stmt *> l) {
    js::Array a;
    for (auto *s : l) a.push_back(stmt(s));
    o["c"] = std::move(a);
  }
  js::Value callee(const FunctionDecl *F) {
    js::Object o{{"q", qn(F)}, {"n", F->getNameAsString()}, {"t", type(F->getType())}};
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
    }
    if (inRoot(F->getLocation())) o["root"] = 1;
    if (auto *I = F->getTemplateSpecializationArgs()) o["ta"] = targs(*I);
    js::Array ps;
    for (auto *p : F->parameters()) ps.push_back(type(p->getType()));
    o["ps"] = std::move(ps);
    return o;
  }
  js::Value expr(const Expr *E) { return stmt(E); }
  js::Value var(const VarDecl *V) {
    js::Object o{{"n", V->getNameAsString()}, {"id", did(V)}, {"t", type(V->getType())}};
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->hasInit()) o["init"] = stmt(V->getInit());
    if (V->getType()->isReferenceType()) o["ref"] = 1;
    return o;
  }
  js::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(P->getReplacement());
    if (auto *P = dyn_cast<ConstantExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) return stmt(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(P->getExpr());
    if (auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    js::Object o;
    std::string k = S->getStmtClassName();
    o["l"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = type(E->getType());
      if (E->isLValue()) o["lv"] = 1;
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->isPRValue() && E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
          llvm::SmallString<40> s;
          R.Val.getInt().toString(s, 10);
          o["cv"] = s.str().str();
        }
      }
    }
    auto generic = [&]() {
      js::Array a;
      for (auto *c : S->children()) a.push_back(stmt(c));
      o["c"] = std::move(a);
    };
    if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<40> s; X->getValue().toStringUnsigned(s); o["v"] = s.str().str();
    } else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<40> s; X->getValue().toString(s); o["v"] = s.str().str();
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { o["v"] = X->getValue();
    } else if (auto *X = dyn_cast<CharacterLiteral>(S)) { o["v"] = std::to_string(X->getValue());
    } else if (auto *X = dyn_cast<StringLiteral>(S)) {
      if (X->getCharByteWidth() == 1) o["v"] = js::fixUTF8(X->getString()); 
    } else if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["f"] = callee(F); }
      else {
        o["n"] = D->getNameAsString(); o["id"] = did(D); 
        if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<40> s; EC->getInitVal().toString(s, 10); o["cv"] = s.str().str(); o["enumc"]=1; }
        else if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"] = qn(V); dumpVar(V); }
          if (V->isStaticLocal()) o["sl"] = qn(V);
          if (V->getType()->isReferenceType()) o["ref"] = 1;
        }
      }
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      auto *D = X->getMemberDecl();
      o["n"] = D->getNameAsString();
      if (X->isArrow()) o["arrow"] = 1;
      if (auto *F = dyn_cast<FunctionDecl>(D)) o["f"] = callee(F);
      if (auto *V = dyn_cast<VarDecl>(D)) { o["g"] = qn(V); dumpVar(V); }
      if (auto *F = dyn_cast<FieldDecl>(D)) { o["fc"] = type(C.getRecordType(F->getParent())); if (F->getType()->isReferenceType()) o["ref"] = 1; }
      generic();
    } else if (auto *X = dyn_cast<CastExpr>(S)) {
      k = "Cast"; o["ck"] = X->getCastKindName(); if (isa<ExplicitCastExpr>(X)) o["ex"] = 1;
      addParts(o, {X->getSubExpr()});
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      o["op"] = X->getOpcodeStr().str(); k = isa<CompoundAssignOperator>(S) ? "CompoundAssign" : "BinaryOperator";
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) { o["ct"] = type(CA->getComputationResultType()); o["clt"] = type(CA->getComputationLHSType()); }
      generic();
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = 1; generic();
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      k = "Construct"; o["f"] = callee(X->getConstructor()); if (X->isElidable()) o["el"] = 1; if (X->isListInitialization()) o["list"] = 1;
      if (X->isStdInitListInitialization()) o["sil"] = 1;
      generic();
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      k = "OpCall"; o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["f"] = callee(F);
      js::Array a; for (auto *x : X->arguments()) a.push_back(stmt(x)); o["c"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
      k = "MemberCall"; if (auto *F = X->getMethodDecl()) o["f"] = callee(F);
      o["obj"] = X->getImplicitObjectArgument() ? stmt(X->getImplicitObjectArgument()) : js::Value(nullptr);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->isArrow()) o["arrow"] = 1; if (ME->hasQualifier()) o["qualified"] = 1; }
      js::Array a; for (auto *x : X->arguments()) a.push_back(stmt(x)); o["c"] = std::move(a);
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      k = "Call"; if (auto *F = X->getDirectCallee()) o["f"] = callee(F); else o["fe"] = stmt(X->getCallee());
      js::Array a; for (auto *x : X->arguments()) a.push_back(stmt(x)); o["c"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      js::Array a; for (auto *d : X->decls()) { if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); }
      o["d"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      addParts(o, {X->getInit(), X->getConditionVariableDeclStmt(), X->getCond(), X->getThen(), X->getElse()});
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      addParts(o, {X->getInit(), X->getCond(), X->getInc(), X->getBody()});
    } else if (auto *X = dyn_cast<WhileStmt>(S)) { addParts(o, {X->getCond(), X->getBody()});
    } else if (auto *X = dyn_cast<DoStmt>(S)) { addParts(o, {X->getCond(), X->getBody()});
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      addParts(o, {X->getRangeStmt(), X->getBeginStmt(), X->getEndStmt(), X->getCond(), X->getInc(), X->getLoopVarStmt(), X->getBody()});
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) { addParts(o, {X->getCond(), X->getBody()});
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<40> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); }
      addParts(o, {X->getSubStmt()});
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) { addParts(o, {X->getSubStmt()});
    } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      js::Array caps;
      for (auto &c : X->captures()) { js::Object co; if (c.capturesThis()) co["this"] = 1; else if (c.capturesVariable()) { co["n"] = c.getCapturedVar()->getNameAsString(); co["id"] = did(cast<ValueDecl>(c.getCapturedVar())); co["ref"] = c.getCaptureKind() == LCK_ByRef; } caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps);
      js::Array ps; for (auto *p : X->getCallOperator()->parameters()) ps.push_back(var(p));
      o["ps"] = std::move(ps); o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      o["at"] = type(X->getAllocatedType()); if (X->isArray()) o["arr"] = X->getArraySize() ? stmt(*X->getArraySize()) : js::Value(nullptr);
      o["ce"] = X->getInitializer() ? stmt(X->getInitializer()) : js::Value(nullptr);
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { if (X->isArrayForm()) o["arr"] = 1; generic();
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)X; 
    } else if (auto *X = dyn_cast<InitListExpr>(S)) { js::Array a; for (auto *x : X->inits()) a.push_back(stmt(x)); o["c"] = std::move(a); if (X->hasArrayFiller()) o["fill"]=1;
    } else if (auto *X = dyn_cast<PredefinedExpr>(S)) { (void)X; o["v"] = "";
    } else if (isa<ConditionalOperator>(S) ) { k = "Cond"; generic();
    } else generic();
    o["k"] = k;
    return o;
  }
  void dumpVar(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (seenVar.count(V)) return;
    seenVar.insert(V);
    if (V->getType()->isDependentType()) return;
    js::Object o{{"t", type(V->getType())}, {"file", file(V->getLocation())}};
    const VarDecl *D = nullptr;
    if (const Expr *I = V->getAnyInitializer(D)) { if (inRoot(V->getLocation()) && !I->isValueDependent()) o["init"] = stmt(I); }
    vars[qn(V)] = std::move(o);
  }
  void dumpFn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || seenFn.count(F)) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isDefaulted()) return;
    seenFn.insert(F);
    js::Object o{{"q", qn(F)}, {"n", F->getNameAsString()}, {"ret", type(F->getReturnType())}, {"file", file(F->getLocation())}, {"line", line(F->getBeginLoc())}, {"endline", line(F->getEndLoc())}, {"t", type(F->getType())}};
    js::Array ps;
    for (auto *p : F->parameters()) ps.push_back(js::Object{{"n", p->getNameAsString()}, {"id", did(p)}, {"t", type(p->getType())}});
    o["ps"] = std::move(ps);
    if (auto *I = F->getTemplateSpecializationArgs()) o["ta"] = targs(*I);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) return;
      o["cls"] = type(C.getRecordType(M->getParent()));
      needRecord(M->getParent());
      if (M->isStatic()) o["static"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isConst()) o["const"] = 1;
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      js::Array in;
      for (auto *i : K->inits()) {
        js::Object io;
        if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["b"] = type(QualType(i->getBaseClass(), 0));
        else io["deleg"] = 1;
        io["w"] = i->isWritten();
        io["e"] = stmt(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
      o["ctor"] = 1;
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    o["body"] = stmt(F->getBody());
    funcs.push_back(std::move(o));
  }
  void drain() {
    while (!recQ.empty()) { auto *r = recQ.back(); recQ.pop_back(); dumpRecord(r); }
  }
};
struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.dumpFn(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (D.inRoot(R->getLocation()) && R->isThisDeclarationADefinition() && !R->isLambda() && !R->isDependentContext()) D.dumpRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { if (D.inRoot(E->getLocation()) && !E->isDependentContext()) D.dumpEnum(E); return true; }
  bool VisitVarDecl(VarDecl *X) { if (X->hasGlobalStorage() && !X->isStaticLocal() && D.inRoot(X->getLocation()) && !X->getDeclContext()->isDependentContext()) D.dumpVar(X); return true; }
};
struct Cons : ASTConsumer {
  CompilerInstance &CI;
  Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    js::Object o;
    o["types"] = std::move(D.types); o["records"] = std::move(D.records); o["enums"] = std::move(D.enums);
    o["vars"] = std::move(D.vars); o["funcs"] = std::move(D.funcs);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << js::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); }
};
int main(int argc, char **argv) {
  // radext OUT SRC root[,root...] -- flags
  OutFile = argv[1];
  std::string src = argv[2];
  std::string r = argv[3];
  size_t p = 0;
  while (p != std::string::npos) { size_t q = r.find(',', p); Roots.push_back(r.substr(p, q == std::string::npos ? q : q - p)); p = q == std::string::npos ? q : q + 1; }
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
