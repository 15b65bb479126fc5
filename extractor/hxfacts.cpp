// hxfacts: emits type-resolved syntax facts of a translation unit as JSON.
//   hxfacts --out=F --root=DIR [--root=DIR...] source.cpp -- <compiler flags>
// Functions, records, enums and globals located below a root are emitted in
// full (bodies included); everything else they reference is emitted as a
// declaration.  For callees outside of the roots, "reach" lists the functions
// below a root that the (instantiated) callee body can call.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;
static bool HadError = false;

static std::string utf8(llvm::StringRef s) { return json::fixUTF8(s); }

class Facts {
public:
  explicit Facts(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.SuppressDefaultTemplateArgs = true;
  }
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object Functions, Records, Enums, Globals;
  std::set<std::string> DoneFn, DoneRec, DoneEnum;
  std::deque<const FunctionDecl *> Queue;
  std::unordered_map<const Decl *, std::string> VarIds;
  std::unordered_map<const FunctionDecl *, std::string> UsrCache;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::StringRef R = F->getFileEntry().tryGetRealPathName();
    return R.empty() ? F->getName().str() : R.str();
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : SM.getSpellingLineNumber(L);
  }
  unsigned colOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : SM.getSpellingColumnNumber(L);
  }
  std::map<std::string, bool> RootCache;
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.empty()) return false;
    auto it = RootCache.find(f);
    if (it != RootCache.end()) return it->second;
    bool r = false;
    for (auto &x : Roots)
      if (f == x || llvm::StringRef(f).starts_with(x + "/")) r = true;
    return RootCache[f] = r;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return utf8(T.getCanonicalType().getAsString(PP));
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) {
      return "x:" + std::to_string(reinterpret_cast<uintptr_t>(D));
    }
    return utf8(B.str());
  }
  const FunctionDecl *def(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    return F->getCanonicalDecl();
  }
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = UsrCache.find(F);
    if (it != UsrCache.end()) return it->second;
    std::string u = usr(F);
    UsrCache[F] = u;
    Queue.push_back(F);
    return u;
  }
  std::string varId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = VarIds.find(D);
    if (it != VarIds.end()) return it->second;
    std::string id;
    if (auto *V = dyn_cast<VarDecl>(D); V && V->hasGlobalStorage() && !V->isStaticLocal())
      id = usr(D);
    else
      id = "v" + std::to_string(VarIds.size()) + "." + fileTag(D->getLocation()) + ":" + std::to_string(lineOf(D->getLocation())) + ":" + std::to_string(colOf(D->getLocation()));
    VarIds[D] = id;
    return id;
  }
  std::string fileTag(SourceLocation L) {
    std::string f = fileOf(L);
    auto p = f.rfind('/');
    return p == std::string::npos ? f : f.substr(p + 1);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy Q(PP);
    D->printQualifiedName(os, Q);
    os.flush();
    return utf8(s);
  }
  std::string loc(SourceLocation L) {
    return fileOf(L) + ":" + std::to_string(lineOf(L)) + ":" + std::to_string(colOf(L));
  }

  // ---- records -----------------------------------------------------------
  std::string recName(const CXXRecordDecl *R) {
    return ty(Ctx.getRecordType(R));
  }
  void needRecord(const RecordDecl *R0) {
    if (!R0) return;
    auto *R = R0->getDefinition();
    if (!R) return;
    if (R->isDependentContext()) return;
    std::string n = ty(Ctx.getRecordType(R));
    if (!DoneRec.insert(n).second) return;
    bool rooted = inRoot(R->getLocation());
    std::string f = fileOf(R->getLocation());
    bool gumbo = f.find("gumbo") != std::string::npos;
    json::Object o;
    o["name"] = n;
    o["qn"] = qn(R);
    o["loc"] = loc(R->getLocation());
    o["inrepo"] = rooted;
    o["union"] = R->isUnion();
    if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
      json::Array bases;
      if (CR->hasDefinition())
        for (auto &b : CR->bases()) {
          bases.push_back(ty(b.getType()));
          if (auto *br = b.getType()->getAsCXXRecordDecl()) needRecord(br);
        }
      o["bases"] = std::move(bases);
      o["polymorphic"] = CR->isPolymorphic();
      o["abstract"] = CR->isAbstract();
      o["lambda"] = CR->isLambda();
      o["trivial_dtor"] = CR->hasTrivialDestructor();
      o["vis"] = visOf(CR);
      o["local"] = CR->isLocalClass() != nullptr || CR->isInAnonymousNamespace();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
        o["template"] = qn(S->getSpecializedTemplate());
        json::Array ta;
        for (auto &A : S->getTemplateArgs().asArray()) ta.push_back(targ(A));
        o["targs"] = std::move(ta);
      }
      if (rooted) {
        json::Array ms;
        for (auto *m : CR->methods()) ms.push_back(fnId(m));
        o["methods"] = std::move(ms);
        json::Array fr;
        o["friends"] = std::move(fr);
      }
    }
    if (rooted || gumbo || n.find("std::pair<") == 0) {
      json::Array fs;
      for (auto *F : R->fields()) {
        json::Object fo;
        fo["name"] = F->getNameAsString();
        fo["t"] = ty(F->getType());
        fo["mutable"] = F->isMutable();
        fo["access"] = acc(F->getAccess());
        fo["loc"] = loc(F->getLocation());
        if (F->hasInClassInitializer() && F->getInClassInitializer() && rooted) fo["init"] = expr(F->getInClassInitializer());
        fs.push_back(std::move(fo));
        if (auto *fr = F->getType()->getAsRecordDecl()) needRecord(fr);
        if (auto *pt = F->getType()->getPointeeType().getTypePtrOrNull())
          if (auto *fr = pt->getAsRecordDecl()) needRecord(fr);
      }
      o["fields"] = std::move(fs);
    }
    Records[n] = std::move(o);
  }
  std::string acc(AccessSpecifier a) {
    switch (a) {
    case AS_public: return "public";
    case AS_protected: return "protected";
    case AS_private: return "private";
    default: return "none";
    }
  }
  std::string visOf(const NamedDecl *D) {
    auto LV = D->getLinkageAndVisibility();
    switch (LV.getVisibility()) {
    case DefaultVisibility: return "default";
    case HiddenVisibility: return "hidden";
    case ProtectedVisibility: return "protected";
    }
    return "?";
  }
  void needEnum(const EnumDecl *E) {
    E = E->getDefinition();
    if (!E) return;
    std::string n = ty(Ctx.getEnumType(E));
    if (!DoneEnum.insert(n).second) return;
    json::Object o;
    o["loc"] = loc(E->getLocation());
    o["inrepo"] = inRoot(E->getLocation());
    o["underlying"] = ty(E->getIntegerType());
    json::Array cs;
    for (auto *c : E->enumerators()) {
      json::Array one;
      one.push_back(c->getNameAsString());
      one.push_back(intv(c->getInitVal()));
      cs.push_back(std::move(one));
    }
    o["consts"] = std::move(cs);
    Enums[n] = std::move(o);
  }
  json::Value intv(const llvm::APSInt &v) {
    if (v.isSignedIntN(64) && v.isSigned()) return v.getSExtValue();
    if (v.isIntN(63)) return int64_t(v.getZExtValue());
    llvm::SmallString<64> s;
    v.toString(s, 10);
    return json::Value("#" + s.str().str());
  }
  void needType(QualType T) {
    if (T.isNull()) return;
    T = T.getCanonicalType();
    if (auto *R = T->getAsRecordDecl()) needRecord(R);
    else if (auto *E = T->getAs<EnumType>()) needEnum(E->getDecl());
    else if (!T->getPointeeType().isNull()) {
      QualType P = T->getPointeeType().getCanonicalType();
      if (auto *R = P->getAsRecordDecl()) needRecord(R);
    }
  }
  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return ty(A.getAsType());
    case TemplateArgument::Integral: return intv(A.getAsIntegral());
    case TemplateArgument::Pack: {
      json::Array a;
      for (auto &x : A.pack_elements()) a.push_back(targ(x));
      return a;
    }
    case TemplateArgument::Declaration: return qn(A.getAsDecl());
    default: return "?";
    }
  }

  // ---- functions ---------------------------------------------------------
  // the call operator of a lambda; of a generic one, the only instance there is
  static const CXXMethodDecl *lambdaBody(const LambdaExpr *L) {
    if (auto *T = L->getDependentCallOperator()) {
      const CXXMethodDecl *one = nullptr;
      int n = 0;
      for (auto *S : T->specializations())
        if (auto *M = dyn_cast<CXXMethodDecl>(S); M && M->hasBody()) { one = M; ++n; }
      if (n == 1) return one;
    }
    return L->getCallOperator();
  }
  // functions of this repository reachable through the body of a foreign one
  std::unordered_map<const FunctionDecl *, std::vector<const FunctionDecl *>> ReachCache;
  struct RefCollector : RecursiveASTVisitor<RefCollector> {
    std::vector<const FunctionDecl *> out;
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitDeclRefExpr(DeclRefExpr *E) {
      if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) out.push_back(F);
      return true;
    }
    bool VisitMemberExpr(MemberExpr *E) {
      if (auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) out.push_back(F);
      return true;
    }
    bool VisitCXXConstructExpr(CXXConstructExpr *E) {
      out.push_back(E->getConstructor());
      return true;
    }
    bool VisitCXXNewExpr(CXXNewExpr *E) { return true; }
    bool VisitCXXDeleteExpr(CXXDeleteExpr *E) {
      if (auto *R = E->getDestroyedType().isNull() ? nullptr : E->getDestroyedType()->getAsCXXRecordDecl())
        if (R->hasDefinition() && R->getDestructor()) out.push_back(R->getDestructor());
      return true;
    }
    bool VisitCallExpr(CallExpr *E) {
      if (auto *P = dyn_cast<CXXPseudoDestructorExpr>(E->getCallee()->IgnoreParens())) (void)P;
      return true;
    }
    bool VisitVarDecl(VarDecl *V) {
      if (auto *R = V->getType()->getAsCXXRecordDecl())
        if (V->hasLocalStorage() && R->hasDefinition() && R->getDestructor()) out.push_back(R->getDestructor());
      return true;
    }
    bool TraverseLambdaExpr(LambdaExpr *E) {
      out.push_back(lambdaBody(E));
      return true;
    }
  };
  void implicitCalls(const FunctionDecl *F, std::vector<const FunctionDecl *> &out) {
    // members destroyed / copied by implicit or defaulted special members
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      for (auto *I : C->inits())
        if (I->getInit()) {
          RefCollector rc;
          rc.TraverseStmt(I->getInit());
          out.insert(out.end(), rc.out.begin(), rc.out.end());
        }
    }
    if (auto *D = dyn_cast<CXXDestructorDecl>(F)) {
      auto *R = D->getParent();
      for (auto *Fd : R->fields()) {
        QualType T = Fd->getType();
        while (auto *A = Ctx.getAsArrayType(T)) T = A->getElementType();
        if (auto *M = T->getAsCXXRecordDecl())
          if (M->hasDefinition() && M->getDestructor()) out.push_back(M->getDestructor());
      }
      for (auto &b : R->bases())
        if (auto *M = b.getType()->getAsCXXRecordDecl())
          if (M->hasDefinition() && M->getDestructor()) out.push_back(M->getDestructor());
    }
  }
  std::vector<const FunctionDecl *> reach(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = ReachCache.find(F);
    if (it != ReachCache.end()) return it->second;
    std::vector<const FunctionDecl *> res;
    std::unordered_set<const FunctionDecl *> seen;
    std::vector<const FunctionDecl *> st{F};
    seen.insert(F);
    while (!st.empty()) {
      auto *G = st.back();
      st.pop_back();
      const FunctionDecl *D = nullptr;
      std::vector<const FunctionDecl *> out;
      if (G->hasBody(D) && D->getBody()) {
        RefCollector rc;
        rc.TraverseStmt(D->getBody());
        out = std::move(rc.out);
      }
      implicitCalls(D ? D : G, out);
      for (auto *H : out) {
        H = H->getCanonicalDecl();
        if (H->isDependentContext()) continue;
        if (!seen.insert(H).second) continue;
        if (inRoot(H->getLocation())) res.push_back(H);
        else if (seen.size() < 4000) st.push_back(H);
      }
    }
    ReachCache[F] = res;
    return res;
  }

  bool isNoexcept(const FunctionDecl *F) {
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (!FPT) return false;
    switch (FPT->getExceptionSpecType()) {
    case EST_DynamicNone:
    case EST_NoThrow:
    case EST_BasicNoexcept:
    case EST_NoexceptTrue:
      return true;
    case EST_Unevaluated:
      // implicit destructors and special members are noexcept unless a member says otherwise
      return isa<CXXDestructorDecl>(F);
    default:
      return false;
    }
  }
  void emitFunction(const FunctionDecl *F) {
    std::string id = fnId(F);
    if (!DoneFn.insert(id).second) return;
    if (F->isDependentContext()) return;
    const FunctionDecl *D = nullptr;
    bool hasBody = F->hasBody(D) && D;
    const FunctionDecl *X = hasBody ? D : F;
    bool rooted = inRoot(X->getLocation());
    json::Object o;
    o["qn"] = qn(F);
    o["name"] = utf8(F->getNameAsString());
    o["loc"] = loc(X->getLocation());
    o["declloc"] = loc(F->getCanonicalDecl()->getLocation());
    o["inrepo"] = rooted;
    o["ret"] = ty(F->getReturnType());
    o["noexcept"] = isNoexcept(X);
    o["deleted"] = F->isDeleted();
    o["defaulted"] = F->isDefaulted();
    o["implicit"] = F->isImplicit();
    o["noreturn"] = F->isNoReturn();
    o["variadic"] = F->isVariadic();
    o["inline"] = F->isInlined();
    o["vis"] = visOf(F);
    o["extlinkage"] = F->isExternallyVisible();
    o["linkage_c"] = F->isExternC();
    o["userprovided"] = false;
    o["template_inst"] = F->isTemplateInstantiation();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) ta.push_back(targ(A));
      o["targs"] = std::move(ta);
    }
    json::Array ps;
    for (auto *P : X->parameters()) {
      json::Object po;
      po["id"] = varId(P);
      po["name"] = P->getNameAsString();
      po["t"] = ty(P->getType());
      ps.push_back(std::move(po));
      needType(P->getType());
    }
    o["params"] = std::move(ps);
    needType(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["record"] = recName(M->getParent());
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["virtual"] = M->isVirtual();
      o["pure"] = M->isPureVirtual();
      o["access"] = acc(M->getAccess());
      o["userprovided"] = M->isUserProvided();
      json::Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(fnId(B));
      o["overrides"] = std::move(ov);
      if (rooted) needRecord(M->getParent());
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        o["kind"] = "ctor";
        o["copyctor"] = C->isCopyConstructor();
        o["movector"] = C->isMoveConstructor();
        o["defaultctor"] = C->isDefaultConstructor();
      } else if (isa<CXXDestructorDecl>(M)) {
        o["kind"] = "dtor";
      } else if (isa<CXXConversionDecl>(M)) {
        o["kind"] = "conv";
      } else {
        o["kind"] = "method";
        o["copyassign"] = M->isCopyAssignmentOperator();
        o["moveassign"] = M->isMoveAssignmentOperator();
      }
      o["lambda"] = M->getParent()->isLambda();
    } else {
      o["kind"] = "function";
      o["static"] = F->getStorageClass() == SC_Static || !F->isExternallyVisible();
    }
    bool smallForeign = !rooted && hasBody &&
        (o["qn"].getAsString()->starts_with("std::make_unique"));
    if (hasBody && (rooted || smallForeign)) {
      o["has_body"] = true;
      if (!F->isDefaulted() || X->getBody()) {
        if (X->getBody()) o["body"] = stmt(X->getBody());
      }
      if (auto *C = dyn_cast<CXXConstructorDecl>(X)) {
        json::Array is;
        for (auto *I : C->inits()) {
          json::Object io;
          if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) io["delegating"] = true;
          else if (I->getAnyMember()) io["field"] = I->getAnyMember()->getNameAsString();
          io["written"] = I->isWritten();
          io["loc"] = loc(I->getSourceLocation());
          io["e"] = expr(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    } else {
      o["has_body"] = false;
    }
    if (!rooted) {
      json::Array rs;
      for (auto *R : reach(F)) rs.push_back(fnId(R));
      if (!rs.empty()) o["reach"] = std::move(rs);
    } else if (F->isDefaulted() || F->isImplicit()) {
      // what a compiler-generated member calls
      std::vector<const FunctionDecl *> out;
      implicitCalls(X, out);
      if (hasBody && X->getBody()) {
        RefCollector rc;
        rc.TraverseStmt(X->getBody());
        out.insert(out.end(), rc.out.begin(), rc.out.end());
      }
      json::Array rs;
      std::set<std::string> s;
      for (auto *R : out) {
        std::string u = fnId(R);
        if (s.insert(u).second) rs.push_back(u);
      }
      o["reach"] = std::move(rs);
    } else if (isa<CXXDestructorDecl>(X)) {
      std::vector<const FunctionDecl *> out;
      implicitCalls(X, out);
      json::Array rs;
      for (auto *R : out) rs.push_back(fnId(R));
      o["reach"] = std::move(rs);
    }
    Functions[id] = std::move(o);
  }
  void drain() {
    while (!Queue.empty()) {
      auto *F = Queue.front();
      Queue.pop_front();
      emitFunction(F);
    }
  }

  // ---- globals -----------------------------------------------------------
  void emitGlobal(const VarDecl *V) {
    if (!V->hasGlobalStorage()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    json::Object o;
    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
    o["qn"] = qn(V);
    o["name"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["const"] = V->getType().isConstQualified() || isConstArr(V->getType());
    o["constexpr"] = V->isConstexpr();
    o["static_local"] = V->isStaticLocal();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    o["loc"] = loc(D->getLocation());
    o["inrepo"] = inRoot(D->getLocation());
    o["vis"] = visOf(V);
    o["extlinkage"] = V->isExternallyVisible();
    o["isdef"] = D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (inRoot(D->getLocation()) && D->getInit()) o["init"] = expr(D->getInit());
    std::string id = varId(V);
    if (auto *old = Globals.getObject(id))
      if (old->getBoolean("isdef").value_or(false)) return;
    Globals[id] = std::move(o);
  }
  bool isConstArr(QualType T) {
    if (auto *A = Ctx.getAsArrayType(T)) return A->getElementType().isConstQualified();
    return false;
  }

  // ---- expressions -------------------------------------------------------
  json::Array exprs(llvm::ArrayRef<const Expr *> es) {
    json::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }
  void put(json::Object &o, const Expr *E) {
    o["l"] = std::to_string(lineOf(E->getExprLoc())) + ":" + std::to_string(colOf(E->getExprLoc()));
    o["t"] = ty(E->getType());
    needType(E->getType());
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) {
        E = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
        json::Object o;
        put(o, E);
        o["k"] = "stdinit";
        o["e"] = expr(P->getSubExpr());
        return o;
      }
      if (auto *P = dyn_cast<UnaryOperator>(E); P && P->getOpcode() == UO_Extension) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
      if (auto *P = dyn_cast<ChooseExpr>(E)) { E = P->getChosenSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_IntegralCast:
        case CK_IntegralToBoolean:
        case CK_PointerToBoolean:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_MemberPointerToBoolean:
        case CK_FloatingToBoolean:
        case CK_BooleanToSignedIntegral: {
          Expr::EvalResult R;
          json::Object o;
          put(o, E);
          o["k"] = "icast";
          o["ck"] = P->getCastKindName();
          o["e"] = expr(P->getSubExpr());
          cv(o, E);
          return o;
        }
        case CK_NullToPointer:
        case CK_NullToMemberPointer: {
          json::Object o;
          put(o, E);
          o["k"] = "null";
          return o;
        }
        default:
          E = P->getSubExpr();
          continue;
        }
      }
      break;
    }
    json::Object o;
    put(o, E);
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) {
      o["k"] = "defarg";
      o["e"] = expr(D->getExpr());
      return o;
    }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int";
      llvm::APSInt v(I->getValue(), I->getType()->isUnsignedIntegerType());
      o["v"] = intv(v);
      return o;
    }
    if (auto *I = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "int";
      o["v"] = int64_t(I->getValue());
      o["char"] = true;
      return o;
    }
    if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "int";
      o["v"] = B->getValue() ? 1 : 0;
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
      return o;
    }
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      if (S->getCharByteWidth() == 1) {
        o["v"] = utf8(S->getBytes());
        o["len"] = int64_t(S->getBytes().size());
      }
      return o;
    }
    if (auto *S = dyn_cast<PredefinedExpr>(E)) {
      o["k"] = "str";
      o["v"] = "";
      return o;
    }
    if (auto *F = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      o["v"] = F->getValueAsApproximateDouble();
      return o;
    }
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      auto *D = R->getDecl();
      if (auto *C = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "int";
        o["v"] = intv(C->getInitVal());
        o["enum"] = qn(C);
        if (auto *ED = dyn_cast<EnumDecl>(C->getDeclContext())) needEnum(ED);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fn";
        o["fn"] = fnId(F);
        o["qn"] = qn(F);
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        if (auto *H = B->getHoldingVar()) {
          o["k"] = "bindingval";
          o["e"] = expr(H->getInit());
          return o;
        }
        return expr(B->getBinding());
      }
      auto *V = dyn_cast<VarDecl>(D);
      o["k"] = "var";
      o["id"] = varId(D);
      o["name"] = D->getNameAsString();
      if (V) {
        if (isa<ParmVarDecl>(V)) o["vk"] = "param";
        else if (V->isStaticLocal()) o["vk"] = "static_local";
        else if (V->hasGlobalStorage()) o["vk"] = "global";
        else o["vk"] = "local";
        o["vt"] = ty(V->getType());
        if (V->hasGlobalStorage()) {
          o["qn"] = qn(V);
          emitGlobalLater.push_back(V);
        }
        cv(o, E);
      }
      return o;
    }
    if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *D = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        o["k"] = "member";
        o["base"] = expr(M->getBase());
        o["arrow"] = M->isArrow();
        o["f"] = F->getNameAsString();
        o["rec"] = ty(Ctx.getRecordType(F->getParent()));
        o["anon"] = F->isAnonymousStructOrUnion();
        o["mutable"] = F->isMutable();
        needRecord(F->getParent());
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var";
        o["id"] = varId(V);
        o["name"] = V->getNameAsString();
        o["vk"] = "global";
        o["qn"] = qn(V);
        o["vt"] = ty(V->getType());
        emitGlobalLater.push_back(V);
        cv(o, E);
        return o;
      }
      if (auto *C = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "int";
        o["v"] = intv(C->getInitVal());
        o["enum"] = qn(C);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fn";
        o["fn"] = fnId(F);
        o["qn"] = qn(F);
        o["base"] = expr(M->getBase());
        return o;
      }
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = C->getDirectCallee();
      if (F) {
        o["k"] = "call";
        o["fn"] = fnId(F);
        o["qn"] = qn(F);
        o["op"] = getOperatorSpelling(C->getOperator());
        auto args = llvm::ArrayRef<const Expr *>(C->getArgs(), C->getNumArgs());
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
          o["obj"] = expr(args[0]);
          o["arrow"] = false;
          o["args"] = exprs(args.drop_front());
          o["virtual"] = M->isVirtual();
        } else
          o["args"] = exprs(args);
        return o;
      }
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = C->getMethodDecl();
      if (M) {
        o["k"] = "call";
        o["fn"] = fnId(M);
        o["qn"] = qn(M);
        auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens());
        if (ME) {
          o["obj"] = expr(ME->getBase());
          o["arrow"] = ME->isArrow();
          o["virtual"] = M->isVirtual() && !ME->hasQualifier();
        }
        o["args"] = exprs(llvm::ArrayRef<const Expr *>(C->getArgs(), C->getNumArgs()));
        return o;
      }
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      if (auto *F = C->getDirectCallee()) {
        if (F->getNameAsString() == "__builtin_expect") return expr(C->getArg(0));
        o["k"] = "call";
        o["fn"] = fnId(F);
        o["qn"] = qn(F);
        o["args"] = exprs(llvm::ArrayRef<const Expr *>(C->getArgs(), C->getNumArgs()));
        cv(o, E);
        return o;
      }
      o["k"] = "callptr";
      o["f"] = expr(C->getCallee());
      o["args"] = exprs(llvm::ArrayRef<const Expr *>(C->getArgs(), C->getNumArgs()));
      return o;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = C->getConstructor();
      o["k"] = "construct";
      o["fn"] = fnId(K);
      o["qn"] = qn(K);
      o["rec"] = recName(K->getParent());
      o["copy"] = K->isCopyConstructor();
      o["move"] = K->isMoveConstructor();
      o["list"] = C->isListInitialization();
      o["args"] = exprs(llvm::ArrayRef<const Expr *>(C->getArgs(), C->getNumArgs()));
      return o;
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "construct";
      o["fn"] = fnId(C->getConstructor());
      o["qn"] = qn(C->getConstructor());
      o["rec"] = recName(C->getConstructor()->getParent());
      o["args"] = json::Array();
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "unop";
      o["op"] = (UnaryOperator::getOpcodeStr(U->getOpcode()).str() + (U->isPostfix() ? "post" : ""));
      o["e"] = expr(U->getSubExpr());
      cv(o, E);
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      o["k"] = B->isAssignmentOp() ? "assign" : "binop";
      o["op"] = B->getOpcodeStr().str();
      o["l_"] = expr(B->getLHS());
      o["r_"] = expr(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = ty(CA->getComputationResultType());
      if (!B->isAssignmentOp()) cv(o, E);
      return o;
    }
    if (auto *C = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = expr(C->getCond());
      o["a"] = expr(C->getTrueExpr());
      o["b"] = expr(C->getFalseExpr());
      cv(o, E);
      return o;
    }
    if (auto *C = dyn_cast<BinaryConditionalOperator>(E)) {
      o["k"] = "elvis";
      o["c"] = expr(C->getCommon());
      o["b"] = expr(C->getFalseExpr());
      return o;
    }
    if (auto *O = dyn_cast<OpaqueValueExpr>(E)) {
      if (O->getSourceExpr()) return expr(O->getSourceExpr());
    }
    if (auto *C = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"] = "cast";
      o["ck"] = C->getCastKindName();
      o["style"] = isa<CXXStaticCastExpr>(C) ? "static" : isa<CXXConstCastExpr>(C) ? "const"
                   : isa<CXXReinterpretCastExpr>(C) ? "reinterpret" : isa<CXXDynamicCastExpr>(C) ? "dynamic"
                   : isa<CXXFunctionalCastExpr>(C) ? "functional" : "c";
      o["e"] = expr(C->getSubExpr());
      cv(o, E);
      return o;
    }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "index";
      o["base"] = expr(S->getBase());
      o["idx"] = expr(S->getIdx());
      return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      o["k"] = "init";
      o["args"] = exprs(llvm::ArrayRef<const Expr *>(const_cast<InitListExpr *>(I)->getInits(), I->getNumInits()));
      if (auto *R = I->getType()->getAsRecordDecl()) {
        o["rec"] = ty(Ctx.getRecordType(R));
        json::Array fs;
        for (auto *F : R->fields()) fs.push_back(F->getNameAsString());
        o["fields"] = std::move(fs);
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = E->getType()->isPointerType() ? "null" : "int";
      o["v"] = 0;
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      o["fn"] = fnId(lambdaBody(L));
      json::Array cs;
      auto ii = L->capture_init_begin();
      for (auto &c : L->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = varId(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar()); V && V->isInitCapture()) co["init"] = expr(V->getInit());
        }
        cs.push_back(std::move(co));
        ++ii;
      }
      o["captures"] = std::move(cs);
      o["mutable"] = !L->getCallOperator()->isConst();
      return o;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      o["at"] = ty(N->getAllocatedType());
      o["array"] = N->isArray();
      if (N->getInitializer()) o["init"] = expr(N->getInitializer());
      if (N->isArray() && N->getArraySize()) o["size"] = expr(*N->getArraySize());
      o["nothrow"] = N->shouldNullCheckAllocation();
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      o["e"] = expr(D->getArgument());
      if (!D->getDestroyedType().isNull())
        if (auto *R = D->getDestroyedType()->getAsCXXRecordDecl())
          if (R->hasDefinition() && R->getDestructor()) o["dtor"] = fnId(R->getDestructor());
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      if (T->getSubExpr()) {
        o["e"] = expr(T->getSubExpr());
        o["tt"] = ty(T->getSubExpr()->getType());
        needType(T->getSubExpr()->getType());
      }
      return o;
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof";
      cv(o, E);
      return o;
    }
    if (auto *S = dyn_cast<StmtExpr>(E)) {
      o["k"] = "stmtexpr";
      o["s"] = stmt(S->getSubStmt());
      return o;
    }
    if (auto *A = dyn_cast<ArrayInitLoopExpr>(E)) {
      return expr(A->getCommonExpr());
    }
    if (auto *CE = dyn_cast<CompoundLiteralExpr>(E)) {
      return expr(CE->getInitializer());
    }
    o["k"] = "opaque";
    o["cls"] = E->getStmtClassName();
    json::Array kids;
    for (auto *c : E->children())
      if (auto *ce = dyn_cast_or_null<Expr>(c)) kids.push_back(expr(ce));
    o["args"] = std::move(kids);
    cv(o, E);
    return o;
  }
  std::vector<const VarDecl *> emitGlobalLater;
  void cv(json::Object &o, const Expr *E) {
    if (E->isValueDependent() || !E->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) o["cv"] = intv(R.Val.getInt());
  }

  // ---- statements --------------------------------------------------------
  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = varId(V);
    o["name"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["static"] = V->isStaticLocal();
    o["ref"] = V->getType()->isReferenceType();
    o["l"] = std::to_string(lineOf(V->getLocation())) + ":" + std::to_string(colOf(V->getLocation()));
    if (V->getInit()) o["init"] = expr(V->getInit());
    o["style"] = V->getInitStyle() == VarDecl::CInit ? "c" : "direct";
    needType(V->getType());
    if (auto *R = V->getType()->getAsCXXRecordDecl())
      if (R->hasDefinition() && R->getDestructor()) o["dtor"] = fnId(R->getDestructor());
    if (V->isStaticLocal()) emitGlobal(V);
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o;
      o["k"] = "expr";
      o["e"] = expr(E);
      o["l"] = std::to_string(lineOf(E->getExprLoc())) + ":" + std::to_string(colOf(E->getExprLoc()));
      return o;
    }
    json::Object o;
    o["l"] = std::to_string(lineOf(S->getBeginLoc())) + ":" + std::to_string(colOf(S->getBeginLoc()));
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      json::Array a;
      for (auto *c : C->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["vars"] = std::move(a);
      return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["var"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["a"] = stmt(I->getThen());
      if (I->getElse()) o["b"] = stmt(I->getElse());
      o["constexpr"] = I->isConstexpr();
      return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (W->getConditionVariable()) o["var"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      if (F->getInit()) o["init"] = stmt(F->getInit());
      if (F->getConditionVariable()) o["var"] = varDecl(F->getConditionVariable());
      if (F->getCond()) o["c"] = expr(F->getCond());
      if (F->getInc()) o["inc"] = expr(F->getInc());
      o["b"] = stmt(F->getBody());
      return o;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rangefor";
      o["range"] = expr(F->getRangeInit());
      o["var"] = varDecl(F->getLoopVariable());
      o["b"] = stmt(F->getBody());
      return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      if (W->getInit()) o["init"] = stmt(W->getInit());
      if (W->getConditionVariable()) o["var"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto *C = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["lo"] = expr(C->getLHS());
      Expr::EvalResult R;
      if (C->getLHS()->EvaluateAsInt(R, Ctx)) o["v"] = intv(R.Val.getInt());
      if (C->getRHS()) {
        Expr::EvalResult R2;
        if (C->getRHS()->EvaluateAsInt(R2, Ctx)) o["hi"] = intv(R2.Val.getInt());
      }
      o["s"] = stmt(C->getSubStmt());
      return o;
    }
    if (auto *C = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["s"] = stmt(C->getSubStmt());
      return o;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "return";
      if (R->getRetValue()) o["e"] = expr(R->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
    if (auto *G = dyn_cast<GotoStmt>(S)) {
      o["k"] = "goto";
      o["label"] = G->getLabel()->getNameAsString();
      return o;
    }
    if (auto *L = dyn_cast<LabelStmt>(S)) {
      o["k"] = "label";
      o["label"] = L->getDecl()->getNameAsString();
      o["s"] = stmt(L->getSubStmt());
      return o;
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["b"] = stmt(T->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object h;
        if (H->getExceptionDecl()) {
          h["var"] = varDecl(H->getExceptionDecl());
          h["t"] = ty(H->getCaughtType().getNonReferenceType().getUnqualifiedType());
          h["byvalue"] = !H->getCaughtType()->isReferenceType();
          needType(H->getCaughtType().getNonReferenceType());
        } else
          h["all"] = true;
        h["l"] = std::to_string(lineOf(H->getBeginLoc())) + ":1";
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["handlers"] = std::move(hs);
      return o;
    }
    o["k"] = "opaque_stmt";
    o["cls"] = S->getStmtClassName();
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  explicit V(Facts &F) : F(F) {}
  Facts &F;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *D) {
    if (D->isDependentContext()) return true;
    if (F.inRoot(D->getLocation())) F.fnId(D);
    return true;
  }
  bool VisitRecordDecl(RecordDecl *D) {
    if (D->isDependentContext()) return true;
    if (F.inRoot(D->getLocation()) && D->isThisDeclarationADefinition()) F.needRecord(D);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (F.inRoot(D->getLocation()) || F.fileOf(D->getLocation()).find("gumbo") != std::string::npos) F.needEnum(D);
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && F.inRoot(D->getLocation())) F.emitGlobal(D);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  std::string File;
  Consumer(CompilerInstance &C, llvm::StringRef f) : CI(C), File(f.str()) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) { HadError = true; }
    Facts F(Ctx);
    V v(F);
    v.TraverseDecl(Ctx.getTranslationUnitDecl());
    F.drain();
    // globals referenced from bodies
    for (size_t i = 0; i < F.emitGlobalLater.size(); ++i) F.emitGlobal(F.emitGlobalLater[i]);
    F.drain();
    json::Object root;
    root["tu"] = File;
    root["functions"] = std::move(F.Functions);
    root["records"] = std::move(F.Records);
    root["enums"] = std::move(F.Enums);
    root["globals"] = std::move(F.Globals);
    json::Array files;
    for (auto &kv : F.RootCache)
      if (kv.second) files.push_back(kv.first);
    root["files"] = std::move(files);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    if (ec) { HadError = true; return; }
    os << json::Value(std::move(root));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef f) override {
    return std::make_unique<Consumer>(CI, f);
  }
};

int main(int argc, const char **argv) {
  std::vector<std::string> flags;
  std::string src;
  bool after = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (after) flags.push_back(a);
    else if (a == "--") after = true;
    else if (a.rfind("--root=", 0) == 0) Roots.push_back(a.substr(7));
    else if (a.rfind("--out=", 0) == 0) OutFile = a.substr(6);
    else src = a;
  }
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool Tool(DB, {src});
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(clang::tooling::getClangSyntaxOnlyAdjuster());
  int rc = Tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return rc || HadError ? 1 : 0;
}
