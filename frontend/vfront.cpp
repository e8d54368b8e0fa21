// vfront: dumps the resolved, instantiated C++ program of one translation unit
// as a compact JSON document for the static analyses in /verif/engine.
// Usage: vfront OUT.json ROOT1,ROOT2 FILE.cpp -- <compile flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl *, int> DeclIds; int NextId = 1;
  std::map<std::string, int> TypeIds; json::Array Types;
  std::map<std::string, int> FileIds; json::Array Files;
  json::Object Records, Functions, Globals;
  std::set<const Decl *> DoneFn, DoneRec;
  std::map<const OpaqueValueExpr*, const Expr*> Opaque;
public:
  int Unsupported = 0;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName=true; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  int declId(const Decl *D) { D = D->getCanonicalDecl(); auto it = DeclIds.find(D); if (it != DeclIds.end()) return it->second; return DeclIds[D] = NextId++; }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    llvm::SmallString<256> S(P.getFilename());
    if (auto FE = SM.getFileManager().getFile(S)) { llvm::StringRef R = (*FE)->tryGetRealPathName(); if (!R.empty()) return R.str(); }
    return S.str().str();
  }
  bool inRoots(SourceLocation L) { std::string F = fileOf(L); for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true; return false; }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); if (P.isInvalid()) return "";
    std::string F = fileOf(L); auto it = FileIds.find(F); int id;
    if (it == FileIds.end()) { id = Files.size(); Files.push_back(F); FileIds[F] = id; } else id = it->second;
    return std::to_string(id) + ":" + std::to_string(P.getLine());
  }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    if (auto *RT = T.getUnqualifiedType()->getAs<RecordType>()) S += "#" + std::to_string(declId(RT->getDecl()));
    auto it = TypeIds.find(S); if (it != TypeIds.end()) return it->second;
    int id = Types.size(); TypeIds[S] = id; Types.push_back(nullptr);
    json::Object O; O["s"] = S; O["c"] = T.isConstQualified();
    if (T->isBooleanType()) O["k"] = "bool";
    else if (T->isEnumeralType()) { O["k"] = "int"; O["w"] = (int64_t)C.getTypeSize(T); O["u"] = false; O["enum"] = true; }
    else if (T->isIntegerType()) { O["k"] = "int"; O["w"] = (int64_t)C.getTypeSize(T); O["u"] = T->isUnsignedIntegerType(); if (T->isAnyCharacterType()) O["ch"] = true; }
    else if (T->isFloatingType()) { O["k"] = "float"; O["w"] = (int64_t)C.getTypeSize(T); }
    else if (T->isPointerType()) { O["k"] = "ptr"; O["to"] = typeId(T->getPointeeType()); }
    else if (T->isReferenceType()) { O["k"] = "ref"; O["to"] = typeId(T->getPointeeType()); O["rv"] = T->isRValueReferenceType(); }
    else if (T->isVoidType()) O["k"] = "void";
    else if (T->isNullPtrType()) O["k"] = "nullptr";
    else if (auto *RT = T->getAs<RecordType>()) { O["k"] = "rec"; O["r"] = recRef(RT->getDecl()); }
    else if (T->isFunctionType()) O["k"] = "fn";
    else if (auto *AT = C.getAsConstantArrayType(T)) { O["k"] = "arr"; O["to"] = typeId(AT->getElementType()); O["n"] = (int64_t)AT->getSize().getZExtValue(); }
    else if (auto *AT = C.getAsArrayType(T)) { O["k"] = "iarr"; O["to"] = typeId(AT->getElementType()); }
    else if (T->isMemberPointerType()) O["k"] = "memptr";
    else O["k"] = "other";
    Types[id] = std::move(O);
    return id;
  }

  std::string qname(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S); D->printQualifiedName(OS, PP); OS.flush(); return S;
  }

  json::Array targsOf(llvm::ArrayRef<TemplateArgument> Args) {
    json::Array A;
    for (auto &X : Args) {
      switch (X.getKind()) {
      case TemplateArgument::Type: A.push_back(typeId(X.getAsType())); break;
      case TemplateArgument::Integral: A.push_back(json::Array{"i", llvm::toString(X.getAsIntegral(), 10)}); break;
      case TemplateArgument::Pack: { json::Array B = targsOf(X.pack_elements()); A.push_back(json::Array{"pack", std::move(B)}); break; }
      default: A.push_back(nullptr);
      }
    }
    return A;
  }

  int recRef(const RecordDecl *RD) {
    int id = declId(RD);
    if (DoneRec.count(RD->getCanonicalDecl())) return id;
    DoneRec.insert(RD->getCanonicalDecl());
    json::Object O; O["q"] = qname(RD); O["name"] = RD->getNameAsString(); O["loc"] = loc(RD->getLocation());
    O["user"] = inRoots(RD->getLocation());
    const RecordDecl *Def = RD->getDefinition();
    if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD)) O["targs"] = targsOf(SD->getTemplateArgs().asArray());
    if (Def) {
      if (auto *CD = dyn_cast<CXXRecordDecl>(Def)) {
        O["lambda"] = CD->isLambda();
        json::Array Bs;
        for (auto &B : CD->bases()) Bs.push_back(typeId(B.getType()));
        O["bases"] = std::move(Bs);
        if (!CD->isDependentType()) { O["poly"] = CD->isPolymorphic(); O["abstract"] = CD->isAbstract(); O["triv_copy"] = CD->hasTrivialCopyConstructor(); O["empty"]=CD->isEmpty();
          if (auto *DD = CD->getDestructor()) if (DD->isUserProvided()) O["dtor"] = declId(DD);
        }
      }
      if (inRoots(RD->getLocation())) {
        json::Array Fs;
        for (auto *F : Def->fields()) {
          json::Object FO; FO["name"] = F->getNameAsString(); FO["id"] = declId(F); FO["t"] = typeId(F->getType());
          Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        if (auto *CD = dyn_cast<CXXRecordDecl>(Def)) {
          json::Array Ms;
          for (auto *M : CD->methods()) {
            json::Object MO; MO["id"] = declId(M); MO["name"] = M->getNameAsString(); MO["virt"] = M->isVirtual(); MO["pure"] = M->isPureVirtual();
            MO["const"]=M->isConst(); MO["static"]=M->isStatic(); MO["acc"]=(int)M->getAccess(); MO["loc"]=loc(M->getLocation());
            MO["np"]=(int)M->getNumParams(); MO["def"]=M->isDefined(); MO["deleted"]=M->isDeleted(); MO["implicit"]=M->isImplicit(); 
            MO["tinst"]=(bool)(M->getTemplateInstantiationPattern());
            { auto *P = M->getTemplateInstantiationPattern(); MO["pdef"] = P ? P->isDefined() : M->isDefined(); }
            json::Array Ov; for (auto *OM : M->overridden_methods()) Ov.push_back(declId(OM));
            MO["over"] = std::move(Ov);
            Ms.push_back(std::move(MO));
          }
          O["methods"] = std::move(Ms);
        }
      }
    }
    Records[std::to_string(id)] = std::move(O);
    return id;
  }

  json::Value fnRef(const FunctionDecl *F) {
    json::Object O; O["id"] = declId(F); O["n"] = F->getNameAsString(); O["q"] = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["rec"] = recRef(M->getParent()); O["virt"] = M->isVirtual(); O["static"] = M->isStatic(); O["const"]=M->isConst();
      if (isa<CXXConstructorDecl>(M)) { auto *CC = cast<CXXConstructorDecl>(M); O["ctor"] = CC->isCopyConstructor() ? "copy" : CC->isMoveConstructor() ? "move" : CC->isDefaultConstructor() ? "default" : "other"; }
      if (isa<CXXConversionDecl>(M)) O["conv"] = true;
      O["defaulted"] = M->isDefaulted(); O["ca"] = M->isCopyAssignmentOperator(); O["ma"] = M->isMoveAssignmentOperator();
    }
    O["user"] = inRoots(F->getLocation());
    O["np"] = (int)F->getNumParams();
    if (auto *TA = F->getTemplateSpecializationArgs()) O["targs"] = targsOf(TA->asArray());
    json::Array Pts; for (auto *P : F->parameters()) Pts.push_back(typeId(P->getType())); O["pt"] = std::move(Pts);
    O["rt"] = typeId(F->getReturnType());
    emitFunction(F);
    int id = declId(F);
    std::string key = std::to_string(id);
    if (!FnRefs.count(id)) { FnRefs.insert(id); FnTable[key] = std::move(O); }
    return id;
  }
  std::set<int> FnRefs; json::Object FnTable;

  json::Value varRef(const VarDecl *V) {
    const Decl *Cn = V->getCanonicalDecl();
    if (V->hasGlobalStorage()) emitGlobal(V);
    return declId(Cn);
  }
  std::set<const Decl *> DoneGl;
  void emitGlobal(const VarDecl *V) {
    if (!DoneGl.insert(V->getCanonicalDecl()).second) return;
    json::Object O; O["name"] = V->getNameAsString(); O["q"] = qname(V); O["t"] = typeId(V->getType()); O["loc"] = loc(V->getLocation());
    O["static_local"] = V->isStaticLocal(); O["constexpr"] = V->isConstexpr(); O["user"]=inRoots(V->getLocation());
    const VarDecl *Def = V; const Expr *I = V->getAnyInitializer(Def);
    if (!I) { if (auto *P = V->getInstantiatedFromStaticDataMember()) { (void)P; } }
    if (I && inRoots(V->getLocation())) O["init"] = expr(I);
    Globals[std::to_string(declId(V))] = std::move(O);
  }

  // ---------------- expressions
  json::Array mk(const char *K, const Expr *E) { json::Array A; A.push_back(K); A.push_back(typeId(E->getType())); A.push_back(loc(E->getExprLoc())); return A; }

  json::Value unsupported(const Expr *E) { Unsupported++; auto A = mk("unsup", E); A.push_back(E->getStmtClassName()); return A; }

  std::string floatStr(const llvm::APFloat &F0) {
    llvm::SmallString<64> S; F0.toString(S, 0, 0); return S.str().str();
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::OpaqueValueExprClass: { auto *O = cast<OpaqueValueExpr>(E); if (O->getSourceExpr()) return expr(O->getSourceExpr()); return unsupported(E); }
    case Stmt::MaterializeTemporaryExprClass: { auto A = mk("mat", E); A.push_back(expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr())); return A; }
    case Stmt::IntegerLiteralClass: { auto A = mk("int", E); A.push_back(llvm::toString(cast<IntegerLiteral>(E)->getValue(), 10, E->getType()->isSignedIntegerType())); return A; }
    case Stmt::CharacterLiteralClass: { auto A = mk("int", E); A.push_back(std::to_string(cast<CharacterLiteral>(E)->getValue())); return A; }
    case Stmt::CXXBoolLiteralExprClass: { auto A = mk("int", E); A.push_back(cast<CXXBoolLiteralExpr>(E)->getValue() ? "1" : "0"); return A; }
    case Stmt::FloatingLiteralClass: { auto A = mk("flt", E); A.push_back(floatStr(cast<FloatingLiteral>(E)->getValue())); return A; }
    case Stmt::StringLiteralClass: { auto A = mk("str", E); auto *S = cast<StringLiteral>(E); std::string V = S->isOrdinary() ? S->getString().str() : ""; if (!json::isUTF8(V)) V = json::fixUTF8(V); A.push_back(V); return A; }
    case Stmt::PredefinedExprClass: { auto A = mk("str", E); A.push_back("__func__"); return A; }
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return mk("null", E);
    case Stmt::CXXThisExprClass: return mk("this", E);
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return mk("zero", E);
    case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::SizeOfPackExprClass: {
      Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) { auto A = mk("int", E); A.push_back(llvm::toString(R.Val.getInt(), 10)); return A; } return unsupported(E); }
    case Stmt::CXXNoexceptExprClass: { auto A = mk("int", E); A.push_back(cast<CXXNoexceptExpr>(E)->getValue() ? "1" : "0"); return A; }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto A = mk("int", E); A.push_back(llvm::toString(EC->getInitVal(), 10)); return A; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { auto A = mk("fnref", E); A.push_back(fnRef(F)); return A; }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        if (auto *H = B->getHoldingVar()) { auto A = mk("var", E); A.push_back(varRef(H)); A.push_back(B->getNameAsString()); return A; }
        if (B->getBinding()) return expr(B->getBinding());
        return unsupported(E);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        auto A = mk("var", E); A.push_back(varRef(V)); A.push_back(V->getNameAsString()); A.push_back(V->hasGlobalStorage()); return A; }
      return unsupported(E);
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E); auto *D = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) { auto A = mk("fld", E); A.push_back(expr(M->getBase())); A.push_back(M->isArrow()); A.push_back(F->getNameAsString()); A.push_back(declId(F)); A.push_back(recRef(F->getParent())); return A; }
      if (auto *V = dyn_cast<VarDecl>(D)) { auto A = mk("var", E); A.push_back(varRef(V)); A.push_back(V->getNameAsString()); A.push_back(true); return A; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { auto A = mk("fnref", E); A.push_back(fnRef(F)); return A; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto A = mk("int", E); A.push_back(llvm::toString(EC->getInitVal(), 10)); return A; }
      return unsupported(E);
    }
    case Stmt::ArraySubscriptExprClass: { auto *S = cast<ArraySubscriptExpr>(E); auto A = mk("idx", E); A.push_back(expr(S->getBase())); A.push_back(expr(S->getIdx())); return A; }
    case Stmt::UnaryOperatorClass: { auto *U = cast<UnaryOperator>(E); auto A = mk("un", E); A.push_back(UnaryOperator::getOpcodeStr(U->getOpcode()).str()); A.push_back(U->isPostfix()); A.push_back(expr(U->getSubExpr())); return A; }
    case Stmt::CompoundAssignOperatorClass: { auto *B = cast<CompoundAssignOperator>(E); auto A = mk("casg", E); std::string Op = BinaryOperator::getOpcodeStr(B->getOpcode()).str(); Op.pop_back(); A.push_back(Op); A.push_back(expr(B->getLHS())); A.push_back(expr(B->getRHS())); A.push_back(typeId(B->getComputationResultType())); A.push_back(typeId(B->getComputationLHSType())); return A; }
    case Stmt::BinaryOperatorClass: { auto *B = cast<BinaryOperator>(E); auto A = mk("bin", E); A.push_back(BinaryOperator::getOpcodeStr(B->getOpcode()).str()); A.push_back(expr(B->getLHS())); A.push_back(expr(B->getRHS())); return A; }
    case Stmt::ConditionalOperatorClass: { auto *B = cast<ConditionalOperator>(E); auto A = mk("cond", E); A.push_back(expr(B->getCond())); A.push_back(expr(B->getTrueExpr())); A.push_back(expr(B->getFalseExpr())); return A; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *K = cast<CastExpr>(E); auto A = mk("cast", E); A.push_back(K->getCastKindName()); A.push_back(expr(K->getSubExpr())); A.push_back(isa<ImplicitCastExpr>(E)); 
      if (K->getCastKind()==CK_FloatingToIntegral||K->getCastKind()==CK_FloatingCast) {}
      return A; }
    case Stmt::CXXMemberCallExprClass: {
      auto *CE = cast<CXXMemberCallExpr>(E); auto *M = CE->getMethodDecl(); if (!M) return unsupported(E);
      auto A = mk("call", E); A.push_back(fnRef(M));
      auto *ME = dyn_cast<MemberExpr>(CE->getCallee()->IgnoreParens());
      const Expr *Obj = ME ? ME->getBase() : CE->getImplicitObjectArgument();
      A.push_back(expr(Obj)); A.push_back(ME ? ME->isArrow() : false);
      bool Virt = M->isVirtual() && !(ME && ME->hasQualifier());
      A.push_back(Virt);
      json::Array Args; for (auto *X : CE->arguments()) Args.push_back(expr(X)); A.push_back(std::move(Args));
      return A; }
    case Stmt::CXXOperatorCallExprClass: {
      auto *CE = cast<CXXOperatorCallExpr>(E); auto *F = CE->getDirectCallee(); if (!F) return unsupported(E);
      auto A = mk("call", E); A.push_back(fnRef(F));
      json::Array Args; unsigned i = 0;
      auto *M = dyn_cast<CXXMethodDecl>(F);
      if (M && !M->isStatic()) { A.push_back(expr(CE->getArg(0))); A.push_back(false); A.push_back(M->isVirtual()); i = 1; }
      else { A.push_back(nullptr); A.push_back(false); A.push_back(false); }
      for (; i < CE->getNumArgs(); ++i) Args.push_back(expr(CE->getArg(i)));
      A.push_back(std::move(Args)); return A; }
    case Stmt::CallExprClass: {
      auto *CE = cast<CallExpr>(E); auto *F = CE->getDirectCallee();
      json::Array Args; for (auto *X : CE->arguments()) Args.push_back(expr(X));
      if (!F) { auto A = mk("icall", E); A.push_back(expr(CE->getCallee())); A.push_back(std::move(Args)); return A; }
      auto A = mk("call", E); A.push_back(fnRef(F)); A.push_back(nullptr); A.push_back(false); A.push_back(false); A.push_back(std::move(Args)); return A; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *K = cast<CXXConstructExpr>(E); auto A = mk("ctor", E); A.push_back(fnRef(K->getConstructor()));
      json::Array Args; for (auto *X : K->arguments()) Args.push_back(expr(X)); A.push_back(std::move(Args));
      A.push_back(K->requiresZeroInitialization()); A.push_back(K->isElidable()); return A; }
    case Stmt::CXXInheritedCtorInitExprClass: return unsupported(E);
    case Stmt::CXXNewExprClass: { auto *N = cast<CXXNewExpr>(E); auto A = mk("new", E); A.push_back(typeId(N->getAllocatedType())); A.push_back(N->isArray()); A.push_back(N->isArray() && N->getArraySize() ? expr(*N->getArraySize()) : json::Value(nullptr)); A.push_back(expr(N->getInitializer())); 
      { json::Array PA; for (auto *X : N->placement_arguments()) PA.push_back(expr(X)); A.push_back(std::move(PA)); }
      return A; }
    case Stmt::CXXDeleteExprClass: { auto *N = cast<CXXDeleteExpr>(E); auto A = mk("delete", E); A.push_back(expr(N->getArgument())); A.push_back(N->isArrayForm()); return A; }
    case Stmt::CXXThrowExprClass: { auto A = mk("throw", E); auto *T = cast<CXXThrowExpr>(E); A.push_back(expr(T->getSubExpr())); return A; }
    case Stmt::CXXTypeidExprClass: { auto A = mk("opaque", E); A.push_back("typeid"); return A; }
    case Stmt::InitListExprClass: {
      auto *L = cast<InitListExpr>(E); if (L->isSyntacticForm() && L->getSemanticForm()) L = L->getSemanticForm();
      if (L->isTransparent()) return expr(L->getInit(0));
      auto A = mk("ilist", E); json::Array Xs; for (auto *X : L->inits()) Xs.push_back(expr(X)); A.push_back(std::move(Xs)); A.push_back(L->hasArrayFiller()); return A; }
    case Stmt::CXXStdInitializerListExprClass: { auto A = mk("stdil", E); A.push_back(expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr())); return A; }
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E); auto A = mk("lambda", E); A.push_back(recRef(L->getLambdaClass())); A.push_back(fnRef(L->getCallOperator()));
      json::Array Caps; auto II = L->capture_init_begin();
      auto FI = L->getLambdaClass()->field_begin();
      for (auto &Cap : L->captures()) {
        json::Object O; O["k"] = Cap.capturesThis() ? "this" : Cap.capturesVariable() ? "var" : "other";
        O["byref"] = Cap.getCaptureKind() == LCK_ByRef; O["starthis"]=Cap.getCaptureKind()==LCK_StarThis;
        if (Cap.capturesVariable()) { O["id"] = declId(Cap.getCapturedVar()); O["name"] = Cap.getCapturedVar()->getNameAsString(); }
        O["ft"] = typeId(FI->getType());
        O["init"] = expr(*II); Caps.push_back(std::move(O)); ++II; ++FI;
      }
      A.push_back(std::move(Caps)); return A; }
    case Stmt::ArrayInitLoopExprClass: { auto A = mk("arrcopy", E); A.push_back(expr(cast<ArrayInitLoopExpr>(E)->getCommonExpr())); return A; }
    case Stmt::CXXPseudoDestructorExprClass: return mk("opaque", E);
    default: break;
    }
    Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { auto A = mk("int", E); A.push_back(llvm::toString(R.Val.getInt(), 10)); return A; }
    return unsupported(E);
  }

  json::Array smk(const char *K, const Stmt *S) { json::Array A; A.push_back(K); A.push_back(loc(S->getBeginLoc())); return A; }

  json::Value varDecl(const VarDecl *V) {
    json::Object O; O["id"] = declId(V); O["name"] = V->getNameAsString(); O["t"] = typeId(V->getType()); O["loc"] = loc(V->getLocation());
    if (V->hasGlobalStorage()) { O["static"] = true; emitGlobal(V); }
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array Bs; for (auto *B : DD->bindings()) if (auto *H = B->getHoldingVar()) Bs.push_back(varDecl(H));
      O["holding"] = std::move(Bs);
    }
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { auto A = smk("expr", S); A.push_back(expr(E)); return A; }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: { auto A = smk("block", S); json::Array B; for (auto *X : cast<CompoundStmt>(S)->body()) B.push_back(stmt(X)); A.push_back(std::move(B)); return A; }
    case Stmt::DeclStmtClass: { auto A = smk("decl", S); json::Array B; for (auto *D : cast<DeclStmt>(S)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) B.push_back(varDecl(V)); A.push_back(std::move(B)); return A; }
    case Stmt::NullStmtClass: return smk("null", S);
    case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(S);
      if (I->isConstexpr()) { if (auto ND = I->getNondiscardedCase(C)) { if (*ND) return stmt(*ND); return smk("null", S); } }
      auto A = smk("if", S); A.push_back(I->getInit() ? stmt(I->getInit()) : json::Value(nullptr)); A.push_back(I->getConditionVariableDeclStmt() ? stmt(I->getConditionVariableDeclStmt()) : json::Value(nullptr)); A.push_back(expr(I->getCond())); A.push_back(stmt(I->getThen())); A.push_back(stmt(I->getElse())); return A; }
    case Stmt::ForStmtClass: { auto *F = cast<ForStmt>(S); auto A = smk("for", S); A.push_back(stmt(F->getInit())); A.push_back(expr(F->getCond())); A.push_back(expr(F->getInc())); A.push_back(stmt(F->getBody())); return A; }
    case Stmt::WhileStmtClass: { auto *F = cast<WhileStmt>(S); auto A = smk("while", S); A.push_back(expr(F->getCond())); A.push_back(stmt(F->getBody())); A.push_back(F->getConditionVariableDeclStmt() ? stmt(F->getConditionVariableDeclStmt()) : json::Value(nullptr)); return A; }
    case Stmt::DoStmtClass: { auto *F = cast<DoStmt>(S); auto A = smk("do", S); A.push_back(stmt(F->getBody())); A.push_back(expr(F->getCond())); return A; }
    case Stmt::CXXForRangeStmtClass: { auto *F = cast<CXXForRangeStmt>(S); auto A = smk("rfor", S);
      A.push_back(stmt(F->getInit())); A.push_back(stmt(F->getRangeStmt())); A.push_back(stmt(F->getBeginStmt())); A.push_back(stmt(F->getEndStmt())); A.push_back(expr(F->getCond())); A.push_back(expr(F->getInc())); A.push_back(stmt(F->getLoopVarStmt())); A.push_back(stmt(F->getBody())); return A; }
    case Stmt::ReturnStmtClass: { auto A = smk("ret", S); A.push_back(expr(cast<ReturnStmt>(S)->getRetValue())); return A; }
    case Stmt::BreakStmtClass: return smk("break", S);
    case Stmt::ContinueStmtClass: return smk("continue", S);
    case Stmt::SwitchStmtClass: { auto *W = cast<SwitchStmt>(S); auto A = smk("switch", S); A.push_back(expr(W->getCond())); A.push_back(stmt(W->getBody())); return A; }
    case Stmt::CaseStmtClass: { auto *W = cast<CaseStmt>(S); auto A = smk("case", S); A.push_back(expr(W->getLHS())); A.push_back(stmt(W->getSubStmt())); return A; }
    case Stmt::DefaultStmtClass: { auto A = smk("default", S); A.push_back(stmt(cast<DefaultStmt>(S)->getSubStmt())); return A; }
    case Stmt::CXXTryStmtClass: { auto *T = cast<CXXTryStmt>(S); auto A = smk("try", S); A.push_back(stmt(T->getTryBlock())); json::Array H; for (unsigned i = 0; i < T->getNumHandlers(); ++i) { auto *K = T->getHandler(i); json::Object O; O["t"] = typeId(K->getCaughtType()); if (K->getExceptionDecl()) O["var"] = varDecl(K->getExceptionDecl()); O["body"] = stmt(K->getHandlerBlock()); H.push_back(std::move(O)); } A.push_back(std::move(H)); return A; }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
    default: break;
    }
    if (auto *O = dyn_cast<OMPExecutableDirective>(S)) {
      auto A = smk("omp", S); A.push_back(llvm::omp::getOpenMPDirectiveName(O->getDirectiveKind()).str());
      json::Object Cl;
      json::Array Priv, Red; 
      for (auto *K : O->clauses()) {
        if (auto *P = dyn_cast<OMPPrivateClause>(K)) for (auto *V : P->varlists()) addVar(Priv, V);
        else if (auto *P = dyn_cast<OMPFirstprivateClause>(K)) for (auto *V : P->varlists()) addVar(Priv, V);
        else if (auto *P = dyn_cast<OMPLastprivateClause>(K)) for (auto *V : P->varlists()) addVar(Priv, V);
        else if (auto *P = dyn_cast<OMPReductionClause>(K)) for (auto *V : P->varlists()) addVar(Red, V);
        else if (auto *P = dyn_cast<OMPCollapseClause>(K)) { Expr::EvalResult R; if (P->getNumForLoops() && P->getNumForLoops()->EvaluateAsInt(R, C)) Cl["collapse"] = (int64_t)R.Val.getInt().getSExtValue(); }
      }
      Cl["private"] = std::move(Priv); Cl["reduction"] = std::move(Red);
      A.push_back(std::move(Cl));
      const Stmt *B = nullptr;
      if (O->hasAssociatedStmt()) B = O->getInnermostCapturedStmt()->getCapturedStmt();
      A.push_back(stmt(B)); return A;
    }
    Unsupported++; auto A = smk("unsup", S); A.push_back(S->getStmtClassName()); return A;
  }
  void addVar(json::Array &A, const Expr *E) { if (auto *D = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) A.push_back(declId(D->getDecl())); }

  void emitFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->isDependentContext()) return;
    if (!F->hasBody(Def)) { Def = nullptr; }
    if (!Def) {
       return; }
    if (!inRoots(Def->getLocation())) return;
    if (!DoneFn.insert(F->getCanonicalDecl()).second) return;
    json::Object O; O["name"] = F->getNameAsString(); O["q"] = qname(F); O["loc"] = loc(Def->getLocation());
    O["end"] = loc(Def->getEndLoc());
    O["inline"] = Def->isInlined() || Def->isConstexpr(); O["tmpl"] = Def->getTemplatedKind() != FunctionDecl::TK_NonTemplate || Def->getTemplateInstantiationPattern() != nullptr;
    O["linkage"] = Def->isExternallyVisible(); O["implicit"] = Def->isImplicit(); O["noexcept"]=false;
    if (auto *FPT = Def->getType()->getAs<FunctionProtoType>()) { auto EST = FPT->getExceptionSpecType(); if (EST!=EST_Unevaluated && EST!=EST_Uninstantiated && EST!=EST_Unparsed) O["noexcept"] = FPT->canThrow()==CT_Cannot; }
    json::Array Ps;
    for (auto *P : Def->parameters()) { json::Object PO; PO["id"] = declId(P); PO["name"] = P->getNameAsString(); PO["t"] = typeId(P->getType()); if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) PO["def"] = expr(P->getDefaultArg()); Ps.push_back(std::move(PO)); }
    O["params"] = std::move(Ps); O["rt"] = typeId(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["rec"] = recRef(M->getParent()); O["static"] = M->isStatic(); O["const"]=M->isConst(); O["acc"]=(int)M->getAccess(); }
    if (auto *TA = F->getTemplateSpecializationArgs()) O["targs"] = targsOf(TA->asArray());
    if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
      json::Array Is;
      for (auto *I : K->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) { IO["k"] = "field"; IO["name"] = I->getAnyMember()->getNameAsString(); IO["id"] = declId(I->getAnyMember()); IO["t"] = typeId(I->getAnyMember()->getType()); }
        else if (I->isDelegatingInitializer()) IO["k"] = "delegate";
        else { IO["k"] = "base"; IO["t"] = typeId(QualType(I->getBaseClass(), 0)); }
        IO["init"] = expr(I->getInit()); Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    int id = declId(F);
    O["body"] = stmt(Def->getBody());
    Functions[std::to_string(id)] = std::move(O);
  }

  std::map<std::string,int> PatternCount;
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && F->doesThisDeclarationHaveABody() && !F->isDependentContext() && inRoots(F->getLocation())) fnRef(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && inRoots(R->getLocation())) recRef(R); return true; }

  void write() {
    json::Object Root; Root["types"] = std::move(Types); Root["files"] = std::move(Files); Root["records"] = std::move(Records);
    Root["functions"] = std::move(Functions); Root["fnrefs"] = std::move(FnTable); Root["globals"] = std::move(Globals); Root["unsupported"] = Unsupported;
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC); OS << json::Value(std::move(Root)); OS << "\n";
  }
};

// Declarations only (vfront OUT decls:ROOTS FILE ...): every function, class and variable
// declared in the roots, with whether it is defined in this translation unit.
class Decls : public RecursiveASTVisitor<Decls> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; json::Array Fns, Classes, Vars;
  std::set<const Decl *> Done;
public:
  Decls(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; }
  bool shouldVisitTemplateInstantiations() const { return false; }
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); if (P.isInvalid()) return "";
    llvm::SmallString<256> S(P.getFilename());
    if (auto FE = SM.getFileManager().getFile(S)) { llvm::StringRef R = (*FE)->tryGetRealPathName(); if (!R.empty()) return R.str(); }
    return S.str().str();
  }
  bool inRoots(SourceLocation L) { std::string F = fileOf(L); for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true; return false; }
  std::string loc(SourceLocation L) { PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); if (P.isInvalid()) return ""; return fileOf(L) + ":" + std::to_string(P.getLine()); }
  static bool local(const Decl *D) { return D->getParentFunctionOrMethod() != nullptr; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoots(F->getLocation()) || local(F) || F->isImplicit() || isa<CXXDeductionGuideDecl>(F)) return true;
    if (!Done.insert(F->getCanonicalDecl()).second) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    const FunctionDecl *Def = nullptr; bool D = F->isDefined(Def);
    json::Object O; O["q"] = F->getQualifiedNameAsString(); O["loc"] = loc(F->getLocation()); O["sig"] = F->getType().getAsString(PP);
    O["defined"] = D || F->isDefaulted(); O["deleted"] = F->isDeleted(); O["pure"] = F->isPureVirtual();
    O["dependent"] = F->isDependentContext() || F->getDescribedFunctionTemplate() != nullptr;
    O["templ"] = F->getDescribedFunctionTemplate() != nullptr; O["inline"] = F->isInlined(); O["external"] = F->isExternallyVisible();
    O["spec"] = (int)F->getTemplateSpecializationKind();
    if (Def) { O["defloc"] = loc(Def->getLocation()); O["inline"] = Def->isInlined(); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cloc"] = loc(M->getParent()->getLocation()); O["class"] = M->getParent()->getQualifiedNameAsString(); O["acc"] = (int)M->getAccess(); O["static"] = M->isStatic(); O["virtual"] = M->isVirtual(); }
    Fns.push_back(std::move(O)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoots(R->getLocation()) || local(R) || R->isLambda() || R->isImplicit()) return true;
    json::Object O; O["q"] = R->getQualifiedNameAsString(); O["loc"] = loc(R->getLocation());
    O["partial"] = isa<ClassTemplatePartialSpecializationDecl>(R); O["full"] = isa<ClassTemplateSpecializationDecl>(R) && !isa<ClassTemplatePartialSpecializationDecl>(R);
    O["acc"] = (int)R->getAccess();
    auto params = [&](TemplateParameterList *L) { json::Array Ps; for (auto *D : *L) { json::Object PO; PO["name"] = D->getNameAsString();
        if (auto *T = dyn_cast<TemplateTypeParmDecl>(D)) { PO["k"] = "type"; PO["pack"] = T->isParameterPack(); if (T->hasDefaultArgument()) PO["def"] = T->getDefaultArgument().getAsString(PP); }
        else if (auto *N = dyn_cast<NonTypeTemplateParmDecl>(D)) { PO["k"] = "value"; PO["pack"] = N->isParameterPack(); PO["t"] = N->getType().getAsString(PP); PO["hasdef"] = N->hasDefaultArgument(); }
        else PO["k"] = "template"; Ps.push_back(std::move(PO)); } return Ps; };
    if (auto *T = R->getDescribedClassTemplate()) O["params"] = params(T->getTemplateParameters());
    if (auto *S = dyn_cast<ClassTemplatePartialSpecializationDecl>(R)) { O["params"] = params(S->getTemplateParameters()); std::string A; llvm::raw_string_ostream OS(A); for (auto &L : S->getTemplateArgsAsWritten()->arguments()) { if (!OS.str().empty()) OS << ", "; L.getArgument().print(PP, OS, true); } O["args"] = OS.str(); }
    if (auto *DC = dyn_cast<CXXRecordDecl>(R->getDeclContext())) O["outer"] = DC->getQualifiedNameAsString();
    Classes.push_back(std::move(O)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V) || !inRoots(V->getLocation()) || local(V) || !V->hasGlobalStorage()) return true;
    json::Object O; O["q"] = V->getQualifiedNameAsString(); O["loc"] = loc(V->getLocation());
    O["definition"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly; O["inline"] = V->isInline(); O["external"] = V->isExternallyVisible();
    O["dependent"] = V->getDeclContext()->isDependentContext() || V->getDescribedVarTemplate() != nullptr; O["member"] = V->isStaticDataMember();
    O["defined"] = V->getDefinition() != nullptr; O["constexpr"] = V->isConstexpr();
    Vars.push_back(std::move(O)); return true;
  }
  void write() {
    json::Object Root; Root["functions"] = std::move(Fns); Root["classes"] = std::move(Classes); Root["vars"] = std::move(Vars);
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC); OS << json::Value(std::move(Root)); OS << "\n";
  }
};
static bool DeclsOnly = false;

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    if (DeclsOnly) { Decls D(C); D.TraverseDecl(C.getTranslationUnitDecl()); D.write(); return; }
    Dumper D(C); D.TraverseDecl(C.getTranslationUnitDecl()); D.write();
  }
};
class Action : public ASTFrontendAction { public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); } };

int main(int argc, const char **argv) {
  if (argc < 4) { llvm::errs() << "usage: vfront OUT ROOTS FILE [flags...]\n"; return 2; }
  OutPath = argv[1]; { llvm::SmallVector<llvm::StringRef, 4> Ps; llvm::StringRef A2(argv[2]); if (A2.consume_front("decls:")) DeclsOnly = true; A2.split(Ps, ','); for (auto P : Ps) Roots.push_back(P.str()); }
  std::string File = argv[3]; std::vector<std::string> Flags; for (int i = 4; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
