// cmaext: resolved-program extractor for the libcmaes checks.
// Parses one translation unit with clang and writes, as JSON, every function
// definition, record, enum and namespace/static variable that lives under one
// of the given path prefixes: statements, expressions with resolved callees,
// resolved members and constant values. Template instantiations are emitted,
// uninstantiated templates are not.  No code is generated or run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Prefixes;
static std::string OutFile;

struct Extractor {
  ASTContext &Ctx;
  SourceManager &SM;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  Object Funcs, Records, Enums, Vars;
  std::map<const Decl *, std::string> LambdaIds;
  std::set<std::string> FuncDone;
  std::vector<const FunctionDecl *> Work;
  llvm::DenseMap<const Decl *, int> VarIds;
  int NextVar = 1;
  std::string CurFn;

  Extractor(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.FullyQualifiedName = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  int line(SourceLocation L) {
    return (int)SM.getExpansionLineNumber(L);
  }
  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = file(L);
    for (auto &P : Prefixes)
      if (F.compare(0, P.size(), P) == 0) return true;
    return false;
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true);
    return OS.str();
  }
  // qualified name without template arguments
  std::string bareName(const NamedDecl *D) {
    std::string S = D->getNameAsString();
    const DeclContext *DC = D->getDeclContext();
    while (DC) {
      if (auto *N = dyn_cast<NamedDecl>(DC)) {
        if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
          if (!NS->isInline() && !NS->isAnonymousNamespace())
            S = NS->getNameAsString() + "::" + S;
        } else if (isa<RecordDecl>(DC) || isa<FunctionDecl>(DC))
          S = N->getNameAsString() + "::" + S;
      }
      DC = DC->getParent();
    }
    return S;
  }
  std::string lambdaId(const CXXRecordDecl *R) {
    auto L = SM.getExpansionLoc(R->getLocation());
    return "lambda@" + file(L) + ":" + std::to_string(line(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L));
  }
  std::string funcId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        std::string S = lambdaId(M->getParent());
        // qualify by the enclosing function instantiation
        const DeclContext *DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) S += "@" + funcId(cast<FunctionDecl>(DC));
        S += ":" + M->getNameAsString();
        return S;
      }
    std::string N;
    if (!F->getType()->isDependentType()) N = NG.getName(F);
    if (N.empty()) N = qname(F);
    if (isa<CXXConstructorDecl>(F)) N = "C:" + N;
    if (isa<CXXDestructorDecl>(F)) N = "D:" + N;
    return N;
  }
  std::string passKind(QualType T) {
    if (T->isRValueReferenceType()) return "rref";
    if (T->isLValueReferenceType())
      return T->getPointeeType().isConstQualified() ? "cref" : "ref";
    if (T->isPointerType())
      return T->getPointeeType().isConstQualified() ? "cptr" : "ptr";
    return "val";
  }
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int I = NextVar++;
    VarIds[D] = I;
    return I;
  }

  // ---- declarations -------------------------------------------------------
  void touchFunc(const FunctionDecl *F) {
    std::string Id = funcId(F);
    if (!FuncDone.insert(Id).second) return;
    Object O;
    O["name"] = F->getNameAsString();
    O["bare"] = bareName(F);
    O["q"] = qname(F);
    O["ret"] = typeStr(F->getReturnType());
    O["retk"] = passKind(F->getReturnType());
    O["line"] = line(F->getLocation());
    O["file"] = file(F->getLocation());
    if (F->isNoReturn()) O["noreturn"] = true;
    if (F->isVariadic()) O["variadic"] = true;
    Array Ps;
    for (auto *P : F->parameters()) {
      Object PO;
      PO["v"] = varId(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = typeStr(P->getType());
      PO["k"] = passKind(P->getType());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = M->getParent()->isLambda() ? lambdaId(M->getParent()) : qname(M->getParent());
      O["clsb"] = bareName(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isPureVirtual()) O["pure"] = true;
      O["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->getParent()->isLambda()) O["lambda"] = true;
      Array Ov;
      for (auto *B : M->overridden_methods()) {
        Ov.push_back(funcId(B));
        touchFunc(B);
      }
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
      if (M->isImplicit()) O["implicit"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["assignop"] = true;
      if (!M->getParent()->isLambda()) touchRecord(M->getParent());
    }
    if (F->isDefaulted()) O["defaulted"] = true;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      if (C->isCopyOrMoveConstructor()) O["copyctor"] = true;
      if (C->isDefaultConstructor()) O["defctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    Funcs[Id] = Value(std::move(O));
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && !Def->isDependentContext() && inScope(Def->getLocation()))
      Work.push_back(Def);
  }
  void emitBody(const FunctionDecl *Def) {
    std::string Id = funcId(Def);
    Value *V = Funcs.get(Id);
    if (!V) return;
    Object *O = V->getAsObject();
    if (O->get("body")) return;
    std::string SaveFn = CurFn;
    CurFn = Id;
    Object B;
    B["file"] = file(Def->getLocation());
    B["line"] = line(Def->getLocation());
    B["endline"] = line(Def->getEndLoc());
    Array Ps;
    for (auto *P : Def->parameters()) {
      Object PO;
      PO["v"] = varId(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = typeStr(P->getType());
      PO["k"] = passKind(P->getType());
      Ps.push_back(std::move(PO));
    }
    B["params"] = std::move(Ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
      Array Is;
      for (auto *I : C->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) {
          IO["field"] = bareName(I->getAnyMember());
        } else if (I->isBaseInitializer()) {
          IO["base"] = typeStr(QualType(I->getBaseClass(), 0));
        } else
          IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["e"] = expr(I->getInit());
        IO["l"] = line(I->getSourceLocation());
        Is.push_back(std::move(IO));
      }
      B["inits"] = std::move(Is);
    }
    B["s"] = stmt(Def->getBody());
    O = Funcs.get(Id)->getAsObject();
    O->insert({"body", std::move(B)});
    CurFn = SaveFn;
  }
  std::set<std::string> RecDone;
  void touchRecord(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (!inScope(R->getLocation())) return;
    std::string N = qname(R);
    if (!RecDone.insert(N).second) return;
    Object O;
    O["bare"] = bareName(R);
    O["file"] = file(R->getLocation());
    O["line"] = line(R->getLocation());
    Array Fs, Bs, Ms, Sv;
    for (auto *F : R->fields()) {
      Object FO;
      FO["n"] = bareName(F);
      FO["sn"] = F->getNameAsString();
      FO["t"] = typeStr(F->getType());
      FO["l"] = line(F->getLocation());
      FO["k"] = F->getType()->isPointerType() ? "ptr" : F->getType()->isReferenceType() ? "ref" : F->getType()->isRecordType() ? "rec" : F->getType()->isEnumeralType() ? "enum" : F->getType()->isScalarType() ? "scalar" : "other";
      if (F->isMutable()) FO["mutable"] = true;
      if (F->hasInClassInitializer()) {
        FO["hasinit"] = true;
        if (F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      }
      Fs.push_back(std::move(FO));
      if (auto *FR = F->getType()->getAsCXXRecordDecl()) touchRecord(FR);
    }
    for (auto &B : R->bases()) {
      Bs.push_back(typeStr(B.getType()));
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) touchRecord(BR);
    }
    for (auto *D : R->decls()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        Object MO;
        MO["id"] = funcId(M);
        MO["n"] = M->getNameAsString();
        MO["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
        if (M->isDeleted()) MO["deleted"] = true;
        Ms.push_back(std::move(MO));
        if (!M->isImplicit() || isa<CXXConstructorDecl>(M)) touchFunc(M);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        Sv.push_back(bareName(V));
      }
    }
    O["fields"] = std::move(Fs);
    O["bases"] = std::move(Bs);
    O["methods"] = std::move(Ms);
    O["statics"] = std::move(Sv);
    O["userctor"] = R->hasUserDeclaredConstructor();
    O["aggregate"] = R->isAggregate();
    Records[N] = Value(std::move(O));
  }
  void touchEnum(const EnumDecl *E) {
    if (!inScope(E->getLocation())) return;
    std::string N = bareName(E);
    if (N.empty()) N = "anon@" + file(E->getLocation()) + ":" + std::to_string(line(E->getLocation()));
    if (Enums.get(N)) return;
    Object O;
    Array Cs;
    for (auto *C : E->enumerators()) {
      Object CO;
      CO["n"] = C->getNameAsString();
      CO["v"] = (int64_t)C->getInitVal().getExtValue();
      Cs.push_back(std::move(CO));
    }
    O["consts"] = std::move(Cs);
    O["file"] = file(E->getLocation());
    O["line"] = line(E->getLocation());
    Enums[N] = Value(std::move(O));
  }
  std::set<const Decl *> VarDone;
  void touchGlobal(const VarDecl *V) {
    const VarDecl *D = V->getDefinition();
    if (!D) D = V;
    if (!VarDone.insert(D->getCanonicalDecl()).second) return;
    if (!inScope(D->getLocation())) return;
    if (D->getDeclContext()->isDependentContext()) return;
    Object O;
    O["q"] = qname(D);
    O["t"] = typeStr(D->getType());
    O["file"] = file(D->getLocation());
    O["line"] = line(D->getLocation());
    if (D->getType().isConstQualified()) O["const"] = true;
    if (D->isStaticLocal()) O["staticlocal"] = true;
    if (D->hasInit() && !D->getInit()->isTypeDependent() && !D->getInit()->isValueDependent())
      O["init"] = expr(D->getInit());
    Vars[bareName(D)+"#"+qname(D)] = Value(std::move(O));
  }

  // ---- expressions --------------------------------------------------------
  Value node(const char *K, const Stmt *S) {
    Object O;
    O["k"] = K;
    O["l"] = line(S->getBeginLoc());
    return Value(std::move(O));
  }
  Object obj(const char *K, const Stmt *S) {
    Object O;
    O["k"] = K;
    O["l"] = line(S->getBeginLoc());
    return O;
  }
  Value exprs(llvm::ArrayRef<const Expr *> Es) {
    Array A;
    for (auto *E : Es) A.push_back(expr(E));
    return Value(std::move(A));
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      Value V = expr(P->getExpr());
      if (auto *O = V.getAsObject()) (*O)["defarg"] = true;
      return V;
    }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
      switch (P->getCastKind()) {
      case CK_IntegralToFloating:
      case CK_FloatingToIntegral:
      case CK_FloatingCast:
      case CK_IntegralCast: {
        // fold constants through
        Value Sub = expr(P->getSubExpr());
        if (auto *SO = Sub.getAsObject())
          if (auto K = SO->getString("k"))
            if (*K == "Lit" || *K == "Enum") {
              (*SO)["t"] = typeStr(P->getType());
              return Sub;
            }
        Object O = obj("Cast", E);
        O["ck"] = P->getCastKindName();
        O["e"] = std::move(Sub);
        O["t"] = typeStr(P->getType());
        O["imp"] = true;
        return Value(std::move(O));
      }
      default:
        return expr(P->getSubExpr());
      }
    }
    if (auto *P = dyn_cast<ExplicitCastExpr>(E)) {
      auto CK = P->getCastKind();
      if (CK == CK_ConstructorConversion || CK == CK_UserDefinedConversion) return expr(P->getSubExpr());
      Object O = obj("Cast", E);
      O["ck"] = P->getCastKindName();
      O["e"] = expr(P->getSubExpr());
      O["t"] = typeStr(P->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = P->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object O = obj("Enum", E);
        O["n"] = EC->getNameAsString();
        O["v"] = (int64_t)EC->getInitVal().getExtValue();
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) {
          touchEnum(ED);
          O["en"] = bareName(ED);
        }
        return Value(std::move(O));
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        touchFunc(F);
        Object O = obj("Fn", E);
        O["f"] = funcId(F);
        return Value(std::move(O));
      }
      Object O = obj("Ref", E);
      O["n"] = D->getNameAsString();
      O["t"] = typeStr(D->getType());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          touchGlobal(V);
          O["g"] = V->isStaticLocal() ? bareName(V) + "@" + CurFn : bareName(V);
          O["gq"] = qname(V);
          if (V->getType().isConstQualified()) {
            O["const"] = true;
            const VarDecl *Def = V->getDefinition();
            if (Def && Def->hasInit() && !Def->getInit()->isValueDependent() && Def->getType()->isArithmeticType()) {
              Expr::EvalResult R;
              if (Def->getInit()->EvaluateAsRValue(R, Ctx)) addConst(O, R.Val);
            }
          }
        }
        else {
          O["v"] = varId(V);
          if (V->getType()->isReferenceType()) O["ref"] = true;
          if (V->getType()->isPointerType()) O["ptr"] = true;
        }
        if (isa<ParmVarDecl>(V)) O["parm"] = true;
      } else if (isa<BindingDecl>(D))
        O["v"] = varId(D);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(P->getMemberDecl())) {
        Object O = obj("Mem", E);
        O["f"] = bareName(F);
        O["n"] = F->getNameAsString();
        O["b"] = expr(P->getBase());
        O["t"] = typeStr(P->getType());
        if (P->isArrow()) O["arrow"] = true;
        if (F->getType()->isReferenceType()) O["ref"] = true;
        return Value(std::move(O));
      }
      if (auto *V = dyn_cast<VarDecl>(P->getMemberDecl())) {
        touchGlobal(V);
        Object O = obj("Ref", E);
        O["n"] = V->getNameAsString();
        O["t"] = typeStr(V->getType());
        O["g"] = bareName(V);
        O["gq"] = qname(V);
        if (V->getType().isConstQualified()) O["const"] = true;
        return Value(std::move(O));
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(P->getMemberDecl())) {
        touchFunc(M);
        Object O = obj("Fn", E);
        O["f"] = funcId(M);
        O["b"] = expr(P->getBase());
        return Value(std::move(O));
      }
      return other(E);
    }
    if (isa<CXXThisExpr>(E)) return node("This", E);
    if (auto *P = dyn_cast<IntegerLiteral>(E)) {
      Object O = obj("Lit", E);
      O["v"] = (int64_t)P->getValue().getLimitedValue();
      O["t"] = typeStr(P->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<FloatingLiteral>(E)) {
      Object O = obj("Lit", E);
      O["v"] = P->getValueAsApproximateDouble();
      O["t"] = typeStr(P->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object O = obj("Lit", E);
      O["v"] = P->getValue();
      O["t"] = "bool";
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CharacterLiteral>(E)) {
      Object O = obj("Lit", E);
      O["v"] = (int64_t)P->getValue();
      O["t"] = "char";
      return Value(std::move(O));
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      Object O = obj("Null", E);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<StringLiteral>(E)) {
      Object O = obj("Str", E);
      O["v"] = P->getCharByteWidth() == 1 ? llvm::json::fixUTF8(P->getString()) : "";
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<UnaryOperator>(E)) {
      if (P->getOpcode() == UO_Extension) return expr(P->getSubExpr());
      Object O = obj("Un", E);
      O["op"] = (P->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      O["e"] = expr(P->getSubExpr());
      O["t"] = typeStr(P->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CompoundAssignOperator>(E)) {
      Object O = obj("CAsg", E);
      std::string Op = P->getOpcodeStr().str();
      Op.pop_back();
      O["op"] = Op;
      O["a"] = expr(P->getLHS());
      O["b"] = expr(P->getRHS());
      O["t"] = typeStr(P->getType());
      O["ct"] = typeStr(P->getComputationResultType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<BinaryOperator>(E)) {
      Object O = obj(P->getOpcode() == BO_Assign ? "Asg" : "Bin", E);
      O["op"] = P->getOpcodeStr().str();
      O["a"] = expr(P->getLHS());
      O["b"] = expr(P->getRHS());
      O["t"] = typeStr(P->getType());
      O["l"] = line(P->getOperatorLoc());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<ConditionalOperator>(E)) {
      Object O = obj("Cond", E);
      O["c"] = expr(P->getCond());
      O["a"] = expr(P->getTrueExpr());
      O["b"] = expr(P->getFalseExpr());
      O["t"] = typeStr(P->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) {
      Object O = obj("Sub", E);
      O["a"] = expr(P->getBase());
      O["b"] = expr(P->getIdx());
      O["t"] = typeStr(P->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object O = obj("Call", E);
      O["l"] = line(P->getOperatorLoc());
      O["opc"] = std::string(getOperatorSpelling(P->getOperator()));
      O["t"] = typeStr(P->getType());
      if (auto *F = P->getDirectCallee()) {
        touchFunc(F);
        O["f"] = funcId(F);
        std::vector<const Expr *> As(P->arg_begin(), P->arg_end());
        if (isa<CXXMethodDecl>(F) && !As.empty() && !cast<CXXMethodDecl>(F)->isStatic()) {
          O["o"] = expr(As[0]);
          As.erase(As.begin());
        }
        O["args"] = exprs(As);
      } else {
        O["fe"] = expr(P->getCallee());
        std::vector<const Expr *> As(P->arg_begin(), P->arg_end());
        O["args"] = exprs(As);
      }
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      Object O = obj("Call", E);
      O["l"] = line(P->getExprLoc());
      O["t"] = typeStr(P->getType());
      if (auto *F = P->getMethodDecl()) {
        touchFunc(F);
        O["f"] = funcId(F);
        O["o"] = expr(P->getImplicitObjectArgument());
        if (P->getImplicitObjectArgument()->getType()->isPointerType()) O["arrow"] = true;
        if (F->isVirtual()) {
          // virtual dispatch unless qualified
          if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens()))
            if (!ME->hasQualifier()) O["virt"] = true;
        }
      } else
        O["fe"] = expr(P->getCallee());
      std::vector<const Expr *> As(P->arg_begin(), P->arg_end());
      O["args"] = exprs(As);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CallExpr>(E)) {
      Object O = obj("Call", E);
      O["t"] = typeStr(P->getType());
      if (auto *F = P->getDirectCallee()) {
        touchFunc(F);
        O["f"] = funcId(F);
      } else
        O["fe"] = expr(P->getCallee());
      std::vector<const Expr *> As(P->arg_begin(), P->arg_end());
      O["args"] = exprs(As);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      if (P->isElidable() && P->getNumArgs() == 1) return expr(P->getArg(0));
      Object O = obj("Ctor", E);
      touchFunc(P->getConstructor());
      O["f"] = funcId(P->getConstructor());
      O["t"] = typeStr(P->getType());
      std::vector<const Expr *> As(P->arg_begin(), P->arg_end());
      O["args"] = exprs(As);
      if (P->isListInitialization()) O["list"] = true;
      if (P->requiresZeroInitialization()) O["zero"] = true;
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object O = obj("Ctor", E);
      touchFunc(P->getConstructor());
      O["f"] = funcId(P->getConstructor());
      O["t"] = typeStr(P->getType());
      O["args"] = Array();
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<LambdaExpr>(E)) {
      Object O = obj("Lambda", E);
      auto *Op = P->getCallOperator();
      touchFunc(Op);
      O["f"] = funcId(Op);
      Array Cs;
      auto InitIt = P->capture_init_begin();
      for (auto &C : P->captures()) {
        Object CO;
        if (C.capturesThis()) {
          CO["this"] = true;
          CO["byref"] = C.getCaptureKind() != LCK_StarThis;
        } else if (C.capturesVariable()) {
          auto *V = C.getCapturedVar();
          CO["n"] = V->getNameAsString();
          CO["v"] = varId(V);
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (V->isInitCapture()) if (auto *VD = dyn_cast<VarDecl>(V)) CO["init"] = expr(VD->getInit());
        }
        (void)InitIt;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      Object O = obj("New", E);
      O["t"] = typeStr(P->getAllocatedType());
      if (P->isArray()) O["n"] = P->getArraySize() ? expr(*P->getArraySize()) : Value(nullptr);
      if (P->getInitializer()) O["init"] = expr(P->getInitializer());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXDeleteExpr>(E)) {
      Object O = obj("Delete", E);
      O["e"] = expr(P->getArgument());
      if (P->isArrayForm()) O["arr"] = true;
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<InitListExpr>(E)) {
      if (auto *SF = P->getSemanticForm()) P = SF;
      Object O = obj("InitList", E);
      O["t"] = typeStr(P->getType());
      std::vector<const Expr *> As;
      for (unsigned i = 0; i < P->getNumInits(); i++) As.push_back(P->getInit(i));
      O["args"] = exprs(As);
      if (auto *R = P->getType()->getAsCXXRecordDecl()) touchRecord(R);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXThrowExpr>(E)) {
      Object O = obj("Throw", E);
      if (P->getSubExpr()) O["e"] = expr(P->getSubExpr());
      return Value(std::move(O));
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      Object O = obj("ZeroInit", E);
      O["t"] = typeStr(E->getType());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) return expr(P->getCommonExpr());
    if (isa<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) {
        Object O = obj("Lit", E);
        O["v"] = (int64_t)R.Val.getInt().getExtValue();
        O["t"] = typeStr(E->getType());
        return Value(std::move(O));
      }
    }
    return other(E);
  }
  void addConst(Object &O, const APValue &V) {
    if (V.isInt()) O["cv"] = (int64_t)V.getInt().getExtValue();
    else if (V.isFloat()) O["cv"] = V.getFloat().convertToDouble();
  }
  Value other(const Stmt *S) {
    Object O = obj("Other", S);
    O["cls"] = S->getStmtClassName();
    Array A;
    for (auto *C : S->children())
      if (C) {
        if (auto *E = dyn_cast<Expr>(C)) A.push_back(expr(E));
        else A.push_back(stmt(C));
      }
    O["args"] = std::move(A);
    return Value(std::move(O));
  }

  // ---- statements ---------------------------------------------------------
  Value varDecl(const VarDecl *V, const Stmt *S) {
    Object O;
    O["k"] = "Var";
    O["l"] = line(V->getLocation());
    O["v"] = varId(V);
    O["n"] = V->getNameAsString();
    O["t"] = typeStr(V->getType());
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (V->isStaticLocal()) {
      touchGlobal(V);
      O["static"] = true;
      O["g"] = bareName(V) + "@" + CurFn;
    }
    if (V->hasInit()) O["init"] = expr(V->getInit());
    if (auto *R = V->getType()->getAsCXXRecordDecl()) touchRecord(R);
    return Value(std::move(O));
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      Object O = obj("Expr", S);
      O["e"] = expr(E);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CompoundStmt>(S)) {
      Object O = obj("Block", S);
      Array A;
      for (auto *C : P->body()) A.push_back(stmt(C));
      O["s"] = std::move(A);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<DeclStmt>(S)) {
      Object O = obj("Decl", S);
      Array A;
      for (auto *D : P->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          A.push_back(varDecl(V, S));
        }
      }
      O["d"] = std::move(A);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<IfStmt>(S)) {
      Object O = obj("If", S);
      if (P->getInit()) O["init"] = stmt(P->getInit());
      if (P->getConditionVariable()) O["cv"] = varDecl(P->getConditionVariable(), S);
      O["c"] = expr(P->getCond());
      O["a"] = stmt(P->getThen());
      if (P->getElse()) O["b"] = stmt(P->getElse());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<ForStmt>(S)) {
      Object O = obj("For", S);
      O["init"] = stmt(P->getInit());
      O["c"] = expr(P->getCond());
      O["inc"] = expr(P->getInc());
      O["s"] = stmt(P->getBody());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<WhileStmt>(S)) {
      Object O = obj("While", S);
      O["c"] = expr(P->getCond());
      O["s"] = stmt(P->getBody());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<DoStmt>(S)) {
      Object O = obj("Do", S);
      O["c"] = expr(P->getCond());
      O["s"] = stmt(P->getBody());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXForRangeStmt>(S)) {
      Object O = obj("RangeFor", S);
      O["range"] = expr(P->getRangeInit());
      O["var"] = varDecl(P->getLoopVariable(), S);
      O["s"] = stmt(P->getBody());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<SwitchStmt>(S)) {
      Object O = obj("Switch", S);
      O["c"] = expr(P->getCond());
      O["s"] = stmt(P->getBody());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CaseStmt>(S)) {
      Object O = obj("Case", S);
      O["v"] = expr(P->getLHS());
      O["s"] = stmt(P->getSubStmt());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<DefaultStmt>(S)) {
      Object O = obj("Default", S);
      O["s"] = stmt(P->getSubStmt());
      return Value(std::move(O));
    }
    if (isa<BreakStmt>(S)) return node("Break", S);
    if (isa<ContinueStmt>(S)) return node("Continue", S);
    if (isa<NullStmt>(S)) return node("Nop", S);
    if (auto *P = dyn_cast<ReturnStmt>(S)) {
      Object O = obj("Return", S);
      if (P->getRetValue()) O["e"] = expr(P->getRetValue());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CXXTryStmt>(S)) {
      Object O = obj("Try", S);
      O["s"] = stmt(P->getTryBlock());
      Array A;
      for (unsigned i = 0; i < P->getNumHandlers(); i++) {
        Object H;
        auto *C = P->getHandler(i);
        H["t"] = C->getCaughtType().isNull() ? "..." : typeStr(C->getCaughtType());
        if (C->getExceptionDecl()) H["v"] = varId(C->getExceptionDecl());
        H["s"] = stmt(C->getHandlerBlock());
        H["l"] = line(C->getBeginLoc());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<LabelStmt>(S)) return stmt(P->getSubStmt());
    if (auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    if (auto *P = dyn_cast<OMPExecutableDirective>(S)) {
      Object O = obj("OMP", S);
      O["dir"] = llvm::omp::getOpenMPDirectiveName(P->getDirectiveKind()).str();
      Array Cl;
      for (auto *C : P->clauses()) {
        Object CO;
        CO["kind"] = llvm::omp::getOpenMPClauseName(C->getClauseKind()).str();
        if (C->isImplicit()) CO["imp"] = true;
        if (auto *I = dyn_cast<OMPIfClause>(C)) CO["c"] = expr(I->getCondition());
        auto addVars = [&](auto *L) {
          Array Vs;
          for (auto *E : L->varlists()) Vs.push_back(expr(E));
          CO["vars"] = std::move(Vs);
        };
        if (auto *L = dyn_cast<OMPPrivateClause>(C)) addVars(L);
        else if (auto *L = dyn_cast<OMPFirstprivateClause>(C)) addVars(L);
        else if (auto *L = dyn_cast<OMPLastprivateClause>(C)) addVars(L);
        else if (auto *L = dyn_cast<OMPSharedClause>(C)) addVars(L);
        else if (auto *L = dyn_cast<OMPReductionClause>(C)) addVars(L);
        Cl.push_back(std::move(CO));
      }
      O["clauses"] = std::move(Cl);
      if (P->hasAssociatedStmt()) O["s"] = stmt(P->getRawStmt());
      return Value(std::move(O));
    }
    if (auto *P = dyn_cast<CapturedStmt>(S)) return stmt(P->getCapturedStmt());
    if (auto *P = dyn_cast<OMPCanonicalLoop>(S)) return stmt(P->getLoopStmt());
    return other(S);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  Extractor &X;
public:
  Visitor(Extractor &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!X.inScope(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    X.touchFunc(F);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isDependentContext() && E->isThisDeclarationADefinition()) X.touchEnum(E);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda()) X.touchRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !isa<ParmVarDecl>(V) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType())
      X.touchGlobal(V);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Extractor X(Ctx);
    Visitor V(X);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    while (!X.Work.empty()) {
      auto *F = X.Work.back();
      X.Work.pop_back();
      X.emitBody(F);
    }
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    Object Root;
    Root["funcs"] = std::move(X.Funcs);
    Root["records"] = std::move(X.Records);
    Root["enums"] = std::move(X.Enums);
    Root["vars"] = std::move(X.Vars);
    Root["errors"] = (int64_t)Ctx.getDiagnostics().getClient()->getNumErrors();
    OS << Value(std::move(Root)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: cmaext OUT.json PREFIX[,PREFIX...] FILE -- clang args...
int main(int argc, char **argv) {
  if (argc < 5) return 64;
  OutFile = argv[1];
  std::string P = argv[2];
  size_t i = 0;
  while (i <= P.size()) {
    size_t j = P.find(',', i);
    if (j == std::string::npos) j = P.size();
    if (j > i) Prefixes.push_back(P.substr(i, j - i));
    i = j + 1;
  }
  std::string File = argv[3];
  std::vector<std::string> Args{"clang++"};
  for (int a = 5; a < argc; a++) Args.push_back(argv[a]);
  Args.push_back("-fsyntax-only");
  Args.push_back(File);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation TI(Args, std::make_unique<Action>(), FM.get());
  return TI.run() ? 0 : 1;
}
