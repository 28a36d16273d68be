// astx: dump the resolved AST of every function reachable from the analysed sources as compact JSON.
// Usage: astx <out.json> <allow-prefix>[,<allow-prefix>...] -- <clang args>
// "allow" prefixes name the files whose function bodies are emitted.  Everything else is an external callee.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Allow;
static std::string OutPath;

namespace {

class Dumper {
public:
  Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), MC(ItaniumMangleContext::create(C, C.getDiagnostics())),
      PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : SM.getPresumedLoc(L).getLine();
  }
  bool allowed(const Decl* D) {
    std::string F = fileOf(D->getLocation());
    for (auto& A : Allow) if (F.find(A) != std::string::npos) return true;
    return false;
  }

  int typeIdx(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    void* K = T.getAsOpaquePtr();
    auto It = Types.find(K);
    if (It != Types.end()) return It->second;
    int I = (int)TypeArr.size();
    Types[K] = I;
    TypeArr.push_back(nullptr);
    json::Object O;
    O["s"] = T.getAsString(PP);
    if (T.isConstQualified()) O["const"] = true;
    QualType U = T.getUnqualifiedType();
    if (U->isReferenceType()) { O["c"] = "ref"; O["p"] = typeIdx(U->getPointeeType()); if (U->isRValueReferenceType()) O["rv"] = true; }
    else if (U->isPointerType()) { O["c"] = "ptr"; O["p"] = typeIdx(U->getPointeeType()); }
    else if (U->isBooleanType()) O["c"] = "bool";
    else if (const EnumType* E = U->getAs<EnumType>()) {
      O["c"] = "enum"; O["n"] = E->getDecl()->getQualifiedNameAsString();
      json::Array Cs; for (auto* EC : E->getDecl()->enumerators()) { Cs.push_back(json::Array{EC->getNameAsString(), EC->getInitVal().getExtValue()}); }
      O["e"] = std::move(Cs);
    }
    else if (U->isIntegerType()) { O["c"] = "int"; if (!U->isIncompleteType()) O["w"] = (int64_t)C.getTypeSize(U); O["sg"] = U->isSignedIntegerType(); }
    else if (U->isRealFloatingType()) { O["c"] = "float"; O["w"] = (int64_t)C.getTypeSize(U); }
    else if (U->isVoidType()) O["c"] = "void";
    else if (auto* A = C.getAsConstantArrayType(U)) { O["c"] = "arr"; O["p"] = typeIdx(A->getElementType()); O["n"] = (int64_t)A->getSize().getZExtValue(); O["sz"] = (int64_t)C.getTypeSizeInChars(A->getElementType()).getQuantity(); }
    else if (U->isFunctionType()) { O["c"] = "fn"; }
    else if (U->isMemberPointerType()) { O["c"] = "memptr"; }
    else if (const CXXRecordDecl* R = U->getAsCXXRecordDecl()) { O["c"] = "rec"; O["r"] = recIdx(R); }
    else O["c"] = "other";
    TypeArr[I] = std::move(O);
    return I;
  }

  json::Value targ(const TemplateArgument& A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return json::Object{{"t", typeIdx(A.getAsType())}};
      case TemplateArgument::Integral: return json::Object{{"i", A.getAsIntegral().getExtValue()}};
      case TemplateArgument::Pack: { json::Array X; for (auto& P : A.pack_elements()) X.push_back(targ(P)); return json::Object{{"pack", std::move(X)}}; }
      case TemplateArgument::Declaration: return json::Object{{"d", A.getAsDecl()->getQualifiedNameAsString()}};
      default: return json::Object{};
    }
  }

  int recIdx(const CXXRecordDecl* R) {
    R = R->getCanonicalDecl();
    auto It = Recs.find(R);
    if (It != Recs.end()) return It->second;
    int I = (int)RecArr.size();
    Recs[R] = I;
    RecArr.push_back(nullptr);
    json::Object O;
    O["n"] = R->getQualifiedNameAsString();
    if (R->isLambda()) O["lambda"] = true;
    if (R->isUnion()) O["union"] = true;
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      json::Array TA; for (auto& A : S->getTemplateArgs().asArray()) TA.push_back(targ(A));
      O["ta"] = std::move(TA);
    }
    const CXXRecordDecl* D = R->getDefinition();
    if (D && !D->isInvalidDecl() && !D->isDependentType()) {
      O["file"] = fileOf(D->getLocation());
      const ASTRecordLayout& L = C.getASTRecordLayout(D);
      O["size"] = (int64_t)L.getSize().getQuantity();
      bool deep = allowed(D) || !inStd(D) || O["n"] == json::Value("std::pair") || O["n"] == json::Value("std::array");
      json::Array Fs;
      if (deep) {
        for (auto* F : D->fields()) {
          json::Object FO;
          FO["n"] = F->getNameAsString();
          FO["t"] = typeIdx(F->getType());
          FO["o"] = (int64_t)(L.getFieldOffset(F->getFieldIndex()) / 8);
          if (F->isAnonymousStructOrUnion()) FO["anon"] = true;
          if (F->hasInClassInitializer() && F->getInClassInitializer()) { FO["dflt"] = true; }
          Fs.push_back(std::move(FO));
        }
      }
      O["f"] = std::move(Fs);
      json::Array Bs;
      for (auto& B : D->bases()) {
        const CXXRecordDecl* BD = B.getType()->getAsCXXRecordDecl();
        if (!BD) continue;
        json::Object BO;
        BO["r"] = recIdx(BD);
        BO["o"] = B.isVirtual() ? (int64_t)L.getVBaseClassOffset(BD).getQuantity() : (int64_t)L.getBaseClassOffset(BD).getQuantity();
        Bs.push_back(std::move(BO));
      }
      O["b"] = std::move(Bs);
      // virtual overriders, for devirtualisation
      if (allowed(D)) {
        json::Array Vs;
        for (auto* M : D->methods()) if (M->isVirtual()) {
          json::Object VO; VO["f"] = fnIdx(M);
          json::Array Ov; for (auto* OM : M->overridden_methods()) Ov.push_back(fnIdx(OM));
          VO["ov"] = std::move(Ov);
          Vs.push_back(std::move(VO));
        }
        O["v"] = std::move(Vs);
      }
      O["trivcopy"] = D->isTriviallyCopyable();
      if (deep && !inStd(D)) {
        json::Array Cs;
        for (auto* X : D->decls()) {
          if (auto* CD = dyn_cast<CXXConstructorDecl>(X)) { if (!CD->isDeleted()) Cs.push_back(fnIdx(CD)); }
          else if (auto* FT = dyn_cast<FunctionTemplateDecl>(X)) {
            if (isa<CXXConstructorDecl>(FT->getTemplatedDecl()))
              for (auto* SP : FT->specializations()) Cs.push_back(fnIdx(SP));
          }
        }
        O["ct"] = std::move(Cs);
      }
    }
    RecArr[I] = std::move(O);
    return I;
  }
  bool inStd(const Decl* D) {
    return D->isInStdNamespace() || fileOf(D->getLocation()).find("/c++/") != std::string::npos;
  }

  std::string mangled(const FunctionDecl* F) {
    std::string S; llvm::raw_string_ostream OS(S);
    if (F->isTemplated()) return "";
    GlobalDecl GD;
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(CD, Ctor_Complete);
    else if (auto* DD = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(DD, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, OS); else OS << F->getNameAsString();
    return OS.str();
  }

  int fnIdx(const FunctionDecl* F) {
    const FunctionDecl* K = F->getCanonicalDecl();
    auto It = Fns.find(K);
    if (It != Fns.end()) return It->second;
    int I = (int)FnArr.size();
    Fns[K] = I;
    FnArr.push_back(nullptr);
    json::Object O;
    O["q"] = K->getQualifiedNameAsString();
    if (auto II = K->getIdentifier()) O["n"] = II->getName().str();
    else if (K->isOverloadedOperator()) O["n"] = std::string("operator") + getOperatorSpelling(K->getOverloadedOperator());
    else O["n"] = K->getNameAsString();
    if (!K->isTemplated()) O["m"] = mangled(K);
    O["ret"] = typeIdx(K->getReturnType());
    json::Array Ps; for (auto* P : K->parameters()) Ps.push_back(typeIdx(P->getType()));
    O["pt"] = std::move(Ps);
    O["mn"] = (int64_t)K->getMinRequiredArguments();
    if (auto* M = dyn_cast<CXXMethodDecl>(K)) {
      O["rec"] = recIdx(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isPureVirtual()) O["pure"] = true;
      if (isa<CXXConstructorDecl>(M)) { O["ctor"] = true; auto* CD = cast<CXXConstructorDecl>(M); if (CD->isCopyOrMoveConstructor()) O["copy"] = true; if (CD->isDefaultConstructor()) O["dctor"] = true; if (CD->isExplicit()) O["explicit"] = true;}
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (isa<CXXConversionDecl>(M)) O["conv"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["casg"] = true;
      if (M->isDefaulted()) O["dflt"] = true;
    }
    if (auto* TA = K->getTemplateSpecializationArgs()) {
      json::Array A; for (auto& X : TA->asArray()) A.push_back(targ(X));
      O["ta"] = std::move(A);
    }
    O["file"] = fileOf(K->getLocation());
    O["line"] = (int64_t)lineOf(K->getLocation());
    FnArr[I] = std::move(O);
    Queue.push_back(K);
    return I;
  }

  int varId(const ValueDecl* V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto It = Vars.find(V);
    if (It != Vars.end()) return It->second;
    int I = (int)VarArr.size();
    Vars[V] = I;
    VarArr.push_back(nullptr);
    json::Object O;
    O["n"] = V->getNameAsString();
    O["t"] = typeIdx(V->getType());
    O["line"] = (int64_t)lineOf(V->getLocation());
    if (auto* VD = dyn_cast<VarDecl>(V)) {
      if (isa<ParmVarDecl>(VD)) O["param"] = true;
      else if (!VD->isLocalVarDecl()) {
        O["global"] = true; O["q"] = VD->getQualifiedNameAsString();
        const VarDecl* Def = VD->getDefinition();
        if (!Def) Def = VD->getInitializingDeclaration();
        if (Def && Def->getAnyInitializer() && allowed(Def) && !Def->isInvalidDecl() && !Def->getType()->isDependentType()) { VarArr[I] = std::move(O); auto Init = expr(Def->getAnyInitializer()); O = std::move(*VarArr[I].getAsObject()); O["init"] = std::move(Init); }
      }
      if (VD->isStaticLocal()) O["static"] = true;
    }
    VarArr[I] = std::move(O);
    return I;
  }

  json::Value lit(const APValue& V, QualType T) {
    if (V.isInt()) { llvm::SmallString<32> S; V.getInt().toString(S, 10); return json::Object{{"k", T->isBooleanType() ? "bool" : "int"}, {"v", S.str().str()}, {"t", typeIdx(T)}}; }
    if (V.isFloat()) {
      llvm::SmallString<64> S; V.getFloat().toString(S, 40, 0, true);
      std::string H; { char buf[64]; double d = V.getFloat().convertToDouble(); snprintf(buf, sizeof buf, "%a", d); H = buf; }
      return json::Object{{"k", "flt"}, {"v", S.str().str()}, {"h", H}, {"t", typeIdx(T)}};
    }
    return nullptr;
  }

  json::Value call(const Expr* E, const FunctionDecl* F, const Expr* Obj, bool arrow, llvm::ArrayRef<const Expr*> Args, json::Object O) {
    O["f"] = fnIdx(F);
    if (Obj) { O["o"] = expr(Obj); if (arrow) O["arrow"] = true; }
    json::Array A; for (auto* X : Args) A.push_back(expr(X));
    O["a"] = std::move(A);
    return std::move(O);
  }

  json::Value expr(const Expr* E) {
    if (!E) return nullptr;
    // skip noise
    for (;;) {
      if (auto* X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<FullExpr>(E)) {
        E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
        return json::Object{{"k", "stdil"}, {"e", expr(X->getSubExpr())}, {"t", typeIdx(X->getType())}, {"l", (int64_t)lineOf(E->getBeginLoc())}};
      }
      break;
    }
    json::Object O;
    O["l"] = (int64_t)lineOf(E->getExprLoc());
    O["t"] = typeIdx(E->getType());
    if (E->isLValue()) O["lv"] = true;
    // constants
    if (!E->isValueDependent() && !E->isLValue() && E->getType()->isArithmeticType() && (isa<CallExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E))) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && (R.Val.isInt() || R.Val.isFloat())) return lit(R.Val, E->getType());
    }
    if (!E->isValueDependent() && (isa<DeclRefExpr>(E) || isa<MemberExpr>(E)) && E->getType()->isArithmeticType()) {
      const ValueDecl* VD = isa<DeclRefExpr>(E) ? cast<DeclRefExpr>(E)->getDecl() : cast<MemberExpr>(E)->getMemberDecl();
      if (auto* V = dyn_cast<VarDecl>(VD)) if (!V->isLocalVarDeclOrParm() && (V->isConstexpr() || V->getType().isConstQualified()) && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent()) {
        if (const APValue* AV = V->evaluateValue()) if (AV->isInt() || AV->isFloat()) return lit(*AV, E->getType());
      }
    }
    if (auto* X = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> S; X->getValue().toString(S, 10, false); O["k"] = "int"; O["v"] = S.str().str(); return std::move(O); }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = std::to_string(X->getValue()); return std::move(O); }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue() ? "1" : "0"; return std::move(O); }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) return lit(APValue(X->getValue()), E->getType());
    if (auto* X = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; O["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string(); return std::move(O); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return std::move(O); }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return std::move(O); }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "int"; llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); O["v"] = S.str().str(); O["en"] = EC->getNameAsString(); return std::move(O); }
      if (auto* F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fn"; O["f"] = fnIdx(F); return std::move(O); }
      if (auto* B = dyn_cast<BindingDecl>(D)) { if (B->getBinding()) { O["k"] = "binding"; O["e"] = expr(B->getBinding()); return std::move(O);} }
      O["k"] = "var"; O["v"] = varId(D); return std::move(O);
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = X->getMemberDecl();
      if (auto* F = dyn_cast<FieldDecl>(D)) {
        O["k"] = "mem"; O["n"] = F->getNameAsString(); O["b"] = expr(X->getBase());
        if (X->isArrow()) O["arrow"] = true;
        O["r"] = recIdx(cast<CXXRecordDecl>(F->getParent()));
        const ASTRecordLayout& L = C.getASTRecordLayout(F->getParent());
        O["off"] = (int64_t)(L.getFieldOffset(F->getFieldIndex()) / 8);
        if (F->isAnonymousStructOrUnion()) O["anon"] = true;
        return std::move(O);
      }
      if (auto* V = dyn_cast<VarDecl>(D)) { O["k"] = "var"; O["v"] = varId(V); return std::move(O); }
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "int"; llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); O["v"] = S.str().str(); return std::move(O); }
      if (auto* F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fn"; O["f"] = fnIdx(F); O["b"] = expr(X->getBase()); return std::move(O); }
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) Op = "p" + Op;
      O["op"] = Op; O["e"] = expr(X->getSubExpr()); return std::move(O);
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "asg" : "bin"; O["op"] = X->getOpcodeStr().str();
      if (auto* CA = dyn_cast<CompoundAssignOperator>(E)) { O["ct"] = typeIdx(CA->getComputationResultType()); }
      O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS()); return std::move(O);
    }
    if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = expr(X->getCond()); O["x"] = expr(X->getTrueExpr()); O["y"] = expr(X->getFalseExpr()); return std::move(O);
    }
    if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { return expr(X->getSourceExpr()); }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "idx"; O["x"] = expr(X->getBase()); O["y"] = expr(X->getIdx()); return std::move(O); }
    if (auto* X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_LValueToRValue: { O["k"] = "load"; O["e"] = expr(X->getSubExpr()); auto* Sub = O["e"].getAsObject(); if (Sub) { auto K = Sub->getString("k"); if (K && (*K == "int" || *K == "flt" || *K == "bool")) return std::move(O["e"]); } return std::move(O); }
        case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_ArrayToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          { auto V = expr(X->getSubExpr()); if (X->getCastKind() == CK_ArrayToPointerDecay) { O["k"] = "decay"; O["e"] = std::move(V); return std::move(O);} return V; }
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived: case CK_Dynamic: {
          O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr());
          int64_t Off = 0; bool virt = false;
          if (X->getCastKind() == CK_DerivedToBase || X->getCastKind() == CK_UncheckedDerivedToBase) {
            QualType ST = X->getSubExpr()->getType(); if (ST->isPointerType()) ST = ST->getPointeeType();
            const CXXRecordDecl* R = ST->getAsCXXRecordDecl();
            for (auto PI = X->path_begin(); PI != X->path_end() && R; ++PI) {
              const CXXRecordDecl* B = (*PI)->getType()->getAsCXXRecordDecl();
              if ((*PI)->isVirtual()) { virt = true; break; }
              Off += C.getASTRecordLayout(R).getBaseClassOffset(B).getQuantity(); R = B;
            }
          }
          O["off"] = Off; if (virt) O["virt"] = true;
          return std::move(O);
        }
        default: {
          O["k"] = "cast"; O["ck"] = X->getCastKindName(); 
          Expr::EvalResult R;
          if (!E->isValueDependent() && E->getType()->isArithmeticType() && E->EvaluateAsRValue(R, C) && !R.HasSideEffects && (R.Val.isInt() || R.Val.isFloat())) return lit(R.Val, E->getType());
          O["e"] = expr(X->getSubExpr());
          return std::move(O);
        }
      }
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl* F = X->getDirectCallee();
      if (F) {
        O["k"] = "call"; O["opc"] = std::string("operator") + getOperatorSpelling(X->getOperator());
        if (auto* M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
          std::vector<const Expr*> A(X->arg_begin() + 1, X->arg_end());
          return call(E, F, X->getArg(0), false, A, std::move(O));
        }
        std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
        return call(E, F, nullptr, false, A, std::move(O));
      }
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl* M = X->getMethodDecl();
      if (M) {
        O["k"] = "call";
        std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
        bool arrow = false;
        const Expr* Cal = X->getCallee()->IgnoreParens();
        if (auto* ME = dyn_cast<MemberExpr>(Cal)) { arrow = ME->isArrow(); if (ME->hasQualifier()) O["qual"] = true; }
        return call(E, M, X->getImplicitObjectArgument(), arrow, A, std::move(O));
      }
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
      if (const FunctionDecl* F = X->getDirectCallee()) { O["k"] = "call"; return call(E, F, nullptr, false, A, std::move(O)); }
      O["k"] = "icall"; O["fe"] = expr(X->getCallee());
      json::Array AA; for (auto* Y : A) AA.push_back(expr(Y)); O["a"] = std::move(AA);
      return std::move(O);
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor"; O["f"] = fnIdx(X->getConstructor());
      if (X->isElidable()) O["elide"] = true;
      if (X->isListInitialization()) O["list"] = true;
      if (X->requiresZeroInitialization()) O["zero"] = true;
      json::Array A; for (auto* Y : X->arguments()) A.push_back(expr(Y)); O["a"] = std::move(A);
      return std::move(O);
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"] = "ctor"; O["f"] = fnIdx(X->getConstructor()); O["a"] = json::Array{}; O["inh"] = true; return std::move(O); }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      O["k"] = "il"; json::Array A; for (auto* Y : X->inits()) A.push_back(expr(Y)); O["a"] = std::move(A);
      if (X->hasArrayFiller()) O["fill"] = expr(X->getArrayFiller());
      return std::move(O);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; return std::move(O); }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda"; O["f"] = fnIdx(X->getCallOperator());
      json::Array Cs;
      auto CI = X->capture_init_begin();
      for (auto& Cap : X->captures()) {
        json::Object CO;
        if (Cap.capturesThis()) { CO["this"] = true; if (Cap.getCaptureKind() == LCK_StarThis) CO["star"] = true; }
        else if (Cap.capturesVariable()) { CO["v"] = varId(Cap.getCapturedVar()); CO["ref"] = Cap.getCaptureKind() == LCK_ByRef; 
          if (auto* VD = dyn_cast<VarDecl>(Cap.getCapturedVar()); VD && VD->isInitCapture()) CO["init"] = expr(VD->getInit()); }
        (void)CI;
        Cs.push_back(std::move(CO));
      }
      O["cap"] = std::move(Cs); return std::move(O);
    }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) O["e"] = expr(X->getSubExpr()); return std::move(O); }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "new"; O["at"] = typeIdx(X->getAllocatedType()); if (X->isArray() && X->getArraySize()) O["n"] = expr(*X->getArraySize()); if (X->getInitializer()) O["e"] = expr(X->getInitializer()); return std::move(O); }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["e"] = expr(X->getArgument()); return std::move(O); }
    if (isa<UnaryExprOrTypeTraitExpr>(E)) { O["k"] = "opaque"; O["cls"] = E->getStmtClassName(); return std::move(O); }
    if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) { O["k"] = "arrcopy"; O["e"] = expr(X->getCommonExpr()); return std::move(O); }
    if (auto* X = dyn_cast<RecoveryExpr>(E)) { O["k"] = "recovery"; json::Array A; for (auto* Y : X->subExpressions()) A.push_back(expr(Y)); O["a"] = std::move(A); return std::move(O); }
    if (auto* X = dyn_cast<ExtVectorElementExpr>(E)) { (void)X; }
    O["k"] = "opaque"; O["cls"] = E->getStmtClassName();
    json::Array A; for (auto* S : E->children()) if (auto* Y = dyn_cast_or_null<Expr>(S)) A.push_back(expr(Y)); O["a"] = std::move(A);
    return std::move(O);
  }

  json::Value varDecl(const VarDecl* V) {
    json::Object O; O["k"] = "decl"; O["v"] = varId(V); O["l"] = (int64_t)lineOf(V->getLocation());
    if (V->getInit()) O["e"] = expr(V->getInit());
    if (V->isStaticLocal()) O["static"] = true;
    if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto* BD : DD->bindings()) if (auto* HV = BD->getHoldingVar()) B.push_back(varDecl(HV));
      O["hold"] = std::move(B);
    }
    return std::move(O);
  }

  json::Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    json::Object O; O["l"] = (int64_t)lineOf(S->getBeginLoc());
    if (auto* X = dyn_cast<CompoundStmt>(S)) { O["k"] = "block"; json::Array A; for (auto* Y : X->body()) A.push_back(stmt(Y)); O["s"] = std::move(A); O["el"] = (int64_t)lineOf(S->getEndLoc()); return std::move(O); }
    if (auto* X = dyn_cast<DeclStmt>(S)) { O["k"] = "block"; O["decls"] = true; json::Array A; for (auto* D : X->decls()) if (auto* V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V)); O["s"] = std::move(A); return std::move(O); }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if"; if (X->getInit()) O["i"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      if (X->isConstexpr()) { Expr::EvalResult R; if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt()) { O["ce"] = R.Val.getInt() != 0; } }
      O["x"] = stmt(X->getThen()); if (X->getElse()) O["y"] = stmt(X->getElse()); return std::move(O); }
    if (auto* X = dyn_cast<ForStmt>(S)) { O["k"] = "for"; if (X->getInit()) O["i"] = stmt(X->getInit()); if (X->getCond()) O["c"] = expr(X->getCond()); if (X->getInc()) O["n"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto* X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto* X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "for"; O["rf"] = true;
      json::Array I;
      if (X->getInit()) I.push_back(stmt(X->getInit()));
      if (X->getRangeStmt()) I.push_back(stmt(X->getRangeStmt()));
      if (X->getBeginStmt()) I.push_back(stmt(X->getBeginStmt()));
      if (X->getEndStmt()) I.push_back(stmt(X->getEndStmt()));
      json::Object IB; IB["k"] = "block"; IB["decls"] = true; IB["s"] = std::move(I); IB["l"] = (int64_t)lineOf(S->getBeginLoc());
      O["i"] = std::move(IB);
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["n"] = expr(X->getInc());
      json::Array B; if (X->getLoopVarStmt()) B.push_back(stmt(X->getLoopVarStmt())); B.push_back(stmt(X->getBody()));
      json::Object BB; BB["k"] = "block"; BB["s"] = std::move(B); BB["l"] = (int64_t)lineOf(S->getBeginLoc());
      O["b"] = std::move(BB); return std::move(O);
    }
    if (auto* X = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; if (X->getRetValue()) O["e"] = expr(X->getRetValue()); return std::move(O); }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return std::move(O); }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return std::move(O); }
    if (isa<NullStmt>(S)) { O["k"] = "nop"; return std::move(O); }
    if (auto* X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getInit()) O["i"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto* X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = expr(X->getLHS()); Expr::EvalResult R; if (X->getLHS()->EvaluateAsRValue(R, C) && R.Val.isInt()) { O["cv"] = (int64_t)R.Val.getInt().getExtValue(); } O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto* X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["b"] = stmt(X->getTryBlock()); json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto* Hd = X->getHandler(i); json::Object HO; HO["t"] = Hd->getCaughtType().isNull() ? -1 : typeIdx(Hd->getCaughtType()); if (Hd->getExceptionDecl()) HO["v"] = varId(Hd->getExceptionDecl()); HO["b"] = stmt(Hd->getHandlerBlock()); H.push_back(std::move(HO)); }
      O["h"] = std::move(H); return std::move(O); }
    if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto* X = dyn_cast<LabelStmt>(S)) { return stmt(X->getSubStmt()); }
    if (auto* X = dyn_cast<Expr>(S)) { O["k"] = "expr"; O["e"] = expr(X); return std::move(O); }
    O["k"] = "unsup"; O["cls"] = S->getStmtClassName(); return std::move(O);
  }

  void body(const FunctionDecl* K) {
    const FunctionDecl* D = nullptr;
    if (!K->hasBody(D) || !D) return;
    if (D->isTemplated() || D->isInvalidDecl()) return;
    if (!allowed(D) && !allowed(K)) return;
    if (D->isDefaulted() && !isa<CXXConstructorDecl>(D)) return;
    int I = fnIdx(K);
    json::Object B;
    B["f"] = I;
    B["file"] = fileOf(D->getLocation()); B["line"] = (int64_t)lineOf(D->getLocation()); 
    json::Array Ps; for (auto* P : D->parameters()) Ps.push_back(varId(P)); B["p"] = std::move(Ps);
    if (auto* CD = dyn_cast<CXXConstructorDecl>(D)) {
      json::Array In;
      for (auto* CI : CD->inits()) {
        json::Object IO; IO["l"] = (int64_t)lineOf(CI->getSourceLocation()); if (CI->isWritten()) IO["w"] = true;
        if (CI->isBaseInitializer()) {
          const CXXRecordDecl* BR = CI->getBaseClass()->getAsCXXRecordDecl();
          IO["base"] = BR ? recIdx(BR) : -1;
          const ASTRecordLayout& L = C.getASTRecordLayout(CD->getParent());
          IO["off"] = (BR && !CI->isBaseVirtual()) ? (int64_t)L.getBaseClassOffset(BR).getQuantity() : (int64_t)0;
        }
        else if (CI->isDelegatingInitializer()) IO["deleg"] = true;
        else if (FieldDecl* F = CI->getAnyMember()) {
          IO["n"] = F->getNameAsString(); IO["ft"] = typeIdx(F->getType());
          int64_t Off = 0;
          if (CI->isIndirectMemberInitializer()) { for (auto* ND : CI->getIndirectMember()->chain()) if (auto* FD = dyn_cast<FieldDecl>(ND)) Off += C.getASTRecordLayout(FD->getParent()).getFieldOffset(FD->getFieldIndex()) / 8; }
          else Off = C.getASTRecordLayout(F->getParent()).getFieldOffset(F->getFieldIndex()) / 8;
          IO["off"] = Off;
        }
        if (CI->getInit()) IO["e"] = expr(CI->getInit());
        In.push_back(std::move(IO));
      }
      B["inits"] = std::move(In);
      json::Array Da; bool Any = false;
      for (auto* P : D->parameters()) {
        if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) { Any = true; Da.push_back(expr(P->getDefaultArg())); }
        else Da.push_back(nullptr);
      }
      if (Any) B["da"] = std::move(Da);
    }
    B["b"] = stmt(D->getBody());
    Bodies.push_back(std::move(B));
  }

  void drain() {
    while (!Queue.empty()) { const FunctionDecl* K = Queue.front(); Queue.pop_front(); body(K); }
  }

  json::Value result() {
    json::Object O; O["types"] = std::move(TypeArr); O["recs"] = std::move(RecArr); O["fns"] = std::move(FnArr); O["vars"] = std::move(VarArr); O["bodies"] = std::move(Bodies);
    return std::move(O);
  }

  ASTContext& C; SourceManager& SM; std::unique_ptr<MangleContext> MC; PrintingPolicy PP;
  std::map<void*, int> Types; json::Array TypeArr;
  std::map<const CXXRecordDecl*, int> Recs; json::Array RecArr;
  std::map<const FunctionDecl*, int> Fns; json::Array FnArr;
  std::map<const ValueDecl*, int> Vars; json::Array VarArr;
  json::Array Bodies;
  std::deque<const FunctionDecl*> Queue;
};

class V : public RecursiveASTVisitor<V> {
public:
  V(Dumper& D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isThisDeclarationADefinition() && !F->isTemplated() && !F->isInvalidDecl() && D.allowed(F)) {
      std::string File = D.fileOf(F->getLocation());
      if (File.find("/repo/") == 0 || File.find("/repo/") != std::string::npos || D.C.getSourceManager().isInMainFile(D.C.getSourceManager().getExpansionLoc(F->getLocation()))) D.fnIdx(F);
    }
    return true;
  }
  Dumper& D;
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C);
    V Vi(D);
    Vi.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    auto R = D.result();
    (*R.getAsObject())["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    OS << R;
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Cons>(); }
};
}

int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  OutPath = argv[1];
  std::string A = argv[2]; size_t p = 0;
  while (p <= A.size()) { size_t q = A.find(',', p); if (q == std::string::npos) q = A.size(); if (q > p) Allow.push_back(A.substr(p, q - p)); p = q + 1; }
  // argv[3] = source, rest = args after "--"
  std::string Src = argv[3];
  std::vector<std::string> Args;
  for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool T(DB, {Src});
  class F : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } Fac;
  T.run(&Fac);
  return 0;
}
