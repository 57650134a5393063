// astx - export the type-checked AST of one translation unit as compact JSON.
//
// Only declarations located under a given root directory are exported.  The
// expression trees are normalised: parentheses, value-preserving implicit
// casts, temporaries and cleanups are dropped, default arguments are expanded,
// calls carry the resolved callee, and integer constant expressions are folded.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static bool HadError = false;

static std::string fixUtf8 (llvm::StringRef s)
{
  // bytes -> JSON-safe: each byte becomes the code point of the same value
  std::string o;
  for (unsigned char c : s) {
    if (c < 0x80) o += char (c);
    else { o += char (0xC0 | (c >> 6)); o += char (0x80 | (c & 0x3f)); }
  }
  return o;
}

class Exporter {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object Types;
  std::map<const Decl *, int> DeclIds;
  std::set<std::string> DoneFns, DoneVars, DoneRecs, DoneEnums;
  json::Array Fns, Vars, Recs, Enums;
  std::vector<const FunctionDecl *> Pending;

  Exporter (ASTContext &C) : C (C), SM (C.getSourceManager()), PP (C.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
  }

  std::string fileOf (SourceLocation L)
  {
    L = SM.getExpansionLoc (L);
    auto F = SM.getFilename (L);
    return F.str();
  }
  bool inRoot (const Decl *D)
  {
    return llvm::StringRef (fileOf (D->getLocation())).starts_with (Root);
  }
  std::string loc (SourceLocation L)
  {
    L = SM.getExpansionLoc (L);
    if (L.isInvalid()) return "";
    std::string F = SM.getFilename (L).str();
    if (llvm::StringRef (F).starts_with (Root)) F = F.substr (Root.size());
    return F + ":" + std::to_string (SM.getExpansionLineNumber (L));
  }
  int declId (const Decl *D)
  {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find (D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }
  std::string usr (const Decl *D)
  {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl (D, B)) return "?";
    return std::string (B.str());
  }
  std::string qname (const NamedDecl *D)
  {
    std::string s;
    llvm::raw_string_ostream os (s);
    D->printQualifiedName (os, PP);
    os.flush();
    // drop template arguments (printQualifiedName keeps those of classes)
    std::string o;
    int d = 0;
    llvm::StringRef r (s);
    for (size_t i = 0; i < s.size(); ++i) {
      if (r.substr (i).starts_with ("operator")) {
        o += s.substr (i);
        break;
      }
      if (s[i] == '<') { ++d; continue; }
      if (s[i] == '>') { --d; continue; }
      if (!d) o += s[i];
    }
    // strip inline-namespace noise
    size_t p;
    while ((p = o.find ("__cxx11::")) != std::string::npos) o.erase (p, 9);
    return o;
  }

  std::string tyName (QualType T)
  {
    T = T.getCanonicalType().getUnqualifiedType();
    std::string s = T.getAsString (PP);
    size_t p;
    while ((p = s.find ("__cxx11::")) != std::string::npos) s.erase (p, 9);
    return s;
  }
  // type id: canonical string; details in Types table
  std::string ty (QualType T)
  {
    if (T.isNull()) return "?";
    bool isRef = T->isReferenceType();
    bool rv = T->isRValueReferenceType();
    if (isRef) T = T->getPointeeType();
    bool isConst = T.isConstQualified();
    QualType CT = T.getCanonicalType().getUnqualifiedType();
    std::string base = tyName (CT);
    std::string id = std::string (isRef ? (rv ? "&&" : "&") : "") + (isConst ? "const " : "") + base;
    if (!Types.get (id)) {
      json::Object o;
      o["ref"] = isRef;
      o["const"] = isConst;
      o["name"] = base;
      Types[id] = json::Object (o);   // guard against recursion
      if (CT->isBooleanType()) o["cat"] = "bool";
      else if (const auto *ET = CT->getAs<EnumType>()) {
        o["cat"] = "enum";
        o["decl"] = qname (ET->getDecl());
        noteEnum (ET->getDecl());
      }
      else if (CT->isIntegerType()) {
        o["cat"] = CT->isAnyCharacterType() ? "char" : "int";
        o["bits"] = int64_t (C.getTypeSize (CT));
        o["signed"] = CT->isSignedIntegerType();
      }
      else if (CT->isPointerType()) {
        o["cat"] = "ptr";
        o["to"] = ty (CT->getPointeeType());
      }
      else if (const auto *RT = CT->getAsCXXRecordDecl()) {
        o["cat"] = "rec";
        o["cls"] = qname (RT);
        json::Array ta;
        if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl> (RT)) {
          for (const auto &A : S->getTemplateArgs().asArray())
            if (A.getKind() == TemplateArgument::Type) ta.push_back (ty (A.getAsType()));
        }
        o["targs"] = std::move (ta);
        noteRec (RT);
      }
      else if (const auto *R2 = CT->getAs<RecordType>()) {
        o["cat"] = "rec";
        o["cls"] = qname (R2->getDecl());
        noteRec (R2->getDecl());
      }
      else if (const auto *AT = C.getAsConstantArrayType (CT)) {
        o["cat"] = "arr";
        o["n"] = int64_t (AT->getSize().getZExtValue());
        o["to"] = ty (AT->getElementType());
      }
      else if (CT->isVoidType()) o["cat"] = "void";
      else if (CT->isFunctionType()) o["cat"] = "fn";
      else if (CT->isNullPtrType()) o["cat"] = "ptr";
      else o["cat"] = "other";
      Types[id] = std::move (o);
    }
    return id;
  }

  void noteEnum (const EnumDecl *E)
  {
    E = E->getDefinition();
    if (!E || !inRoot (E)) return;
    std::string n = qname (E);
    if (!DoneEnums.insert (n).second) return;
    json::Object o;
    o["n"] = n;
    o["loc"] = loc (E->getLocation());
    json::Array cs;
    for (auto *c : E->enumerators())
      cs.push_back (json::Array{ c->getNameAsString(), c->getInitVal().getExtValue() });
    o["consts"] = std::move (cs);
    Enums.push_back (std::move (o));
  }

  void noteRec (const RecordDecl *R)
  {
    R = R->getDefinition();
    if (!R || !inRoot (R) || R->isDependentContext()) return;
    std::string id = tyName (C.getRecordType (R));
    if (!DoneRecs.insert (id).second) return;
    json::Object o;
    o["id"] = id;
    o["cls"] = qname (R);
    o["loc"] = loc (R->getLocation());
    json::Array fs;
    for (auto *f : R->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = ty (f->getType());
      fo["loc"] = loc (f->getLocation());
      if (f->isMutable()) fo["mutable"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = expr (f->getInClassInitializer());
      fs.push_back (std::move (fo));
    }
    if (const auto *X = dyn_cast<CXXRecordDecl> (R)) {
      json::Array bs;
      for (const auto &b : X->bases()) bs.push_back (ty (b.getType()));
      o["bases"] = std::move (bs);
      o["hasDtorBody"] = X->hasUserDeclaredDestructor();
      o["userCopyCtor"] = X->hasUserDeclaredCopyConstructor();
      o["userCopyAssign"] = X->hasUserDeclaredCopyAssignment();
      o["userMoveCtor"] = X->hasUserDeclaredMoveConstructor();
      o["userMoveAssign"] = X->hasUserDeclaredMoveAssignment();
      o["lambda"] = X->isLambda();
      json::Array ms;
      for (auto *m : X->methods()) {
        json::Object mo;
        mo["id"] = fnId (m);
        mo["n"] = m->getNameAsString();
        mo["virtual"] = m->isVirtual();
        mo["pure"] = m->isPureVirtual();
        mo["deleted"] = m->isDeleted();
        mo["implicit"] = m->isImplicit();
        json::Array ov;
        for (auto *om : m->overridden_methods()) ov.push_back (fnId (om));
        mo["over"] = std::move (ov);
        if (const auto *cc = dyn_cast<CXXConstructorDecl> (m)) {
          mo["copy"] = cc->isCopyConstructor();
          mo["move"] = cc->isMoveConstructor();
        }
        mo["copyAssign"] = m->isCopyAssignmentOperator();
        mo["dtor"] = isa<CXXDestructorDecl> (m);
        ms.push_back (std::move (mo));
      }
      o["methods"] = std::move (ms);
    }
    o["fields"] = std::move (fs);
    Recs.push_back (std::move (o));
  }

  std::string fnId (const FunctionDecl *F)
  {
    std::string u = usr (F->getCanonicalDecl());
    if (const auto *M = dyn_cast<CXXMethodDecl> (F)) {
      // make instantiations of class-template members distinguishable
      u += "|" + tyName (C.getRecordType (M->getParent()));
    }
    if (F->isFunctionTemplateSpecialization() || F->getTemplateSpecializationArgs()) {
      for (auto *p : F->parameters()) u += "|" + tyName (p->getType());
    }
    if (F->getFormalLinkage() == Linkage::Internal) {
      u += "|" + loc (F->getCanonicalDecl()->getLocation());
    }
    return u;
  }
  json::Value fnInfo (const FunctionDecl *F)
  {
    json::Object o;
    o["id"] = fnId (F);
    o["n"] = qname (F);
    o["s"] = F->getNameAsString();
    if (const auto *M = dyn_cast<CXXMethodDecl> (F)) {
      o["cls"] = qname (M->getParent());
      o["crec"] = tyName (C.getRecordType (M->getParent()));
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->getParent()->isLambda()) o["lambda"] = true;
    }
    if (F->isInAnonymousNamespace()) o["anon"] = true;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody (Def)) {
      if (inRoot (Def)) { o["body"] = true; Pending.push_back (Def); }
    }
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    json::Array pt;
    for (auto *p : F->parameters()) pt.push_back (ty (p->getType()));
    o["pt"] = std::move (pt);
    o["rt"] = ty (F->getReturnType());
    return o;
  }

  json::Object node (const char *k, const Stmt *S)
  {
    json::Object o;
    o["k"] = k;
    o["l"] = loc (S->getBeginLoc());
    return o;
  }

  const Expr *strip (const Expr *E)
  {
    for (;;) {
      if (!E) return E;
      if (auto *x = dyn_cast<ParenExpr> (E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups> (E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr> (E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr> (E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ConstantExpr> (E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr> (E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr> (E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr> (E)) { E = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr> (E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<OpaqueValueExpr> (E)) { if (x->getSourceExpr()) { E = x->getSourceExpr(); continue; } }
      if (auto *x = dyn_cast<ImplicitCastExpr> (E)) {
        switch (x->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay: case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          E = x->getSubExpr(); continue;
        default: break;
        }
      }
      return E;
    }
  }

  json::Array exprs (llvm::ArrayRef<const Expr *> es)
  {
    json::Array a;
    for (auto *e : es) a.push_back (expr (e));
    return a;
  }
  template<class It> json::Array args (It b, It e)
  {
    json::Array a;
    for (; b != e; ++b) a.push_back (expr (*b));
    return a;
  }

  json::Value varDecl (const VarDecl *V)
  {
    json::Object o;
    o["d"] = declId (V);
    o["n"] = V->getNameAsString();
    o["t"] = ty (V->getType());
    o["l"] = loc (V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType()->isReferenceType()) o["isref"] = true;
    if (V->getInit()) o["init"] = expr (V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl> (V)) {
      json::Array bs;
      for (auto *b : DD->bindings()) {
        json::Object bo;
        bo["d"] = declId (b);
        bo["n"] = b->getNameAsString();
        if (b->getBinding()) bo["e"] = expr (b->getBinding());
        if (b->getHoldingVar() && b->getHoldingVar()->getInit()) bo["hv"] = expr (b->getHoldingVar()->getInit());
        bs.push_back (std::move (bo));
      }
      o["bind"] = std::move (bs);
    }
    return o;
  }

  json::Value expr (const Expr *E0)
  {
    const Expr *E = strip (E0);
    if (!E) return nullptr;
    // fold integer constants
    if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue()
        && E->getType()->isIntegralOrEnumerationType()
        && !isa<CXXConstructExpr> (E)) {
      Expr::EvalResult R;
      if (!E->HasSideEffects (C) && E->EvaluateAsRValue (R, C) && R.Val.isInt()) {
        json::Object o = node ("int", E);
        o["v"] = R.Val.getInt().getExtValue();
        o["t"] = ty (E->getType());
        return o;
      }
    }
    if (auto *x = dyn_cast<DeclRefExpr> (E)) {
      const ValueDecl *D = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl> (D)) {
        json::Object o = node ("int", E);
        o["v"] = ec->getInitVal().getExtValue();
        o["t"] = ty (E->getType());
        return o;
      }
      if (auto *f = dyn_cast<FunctionDecl> (D)) {
        json::Object o = node ("fref", E);
        o["f"] = fnInfo (f);
        return o;
      }
      json::Object o = node ("ref", E);
      o["n"] = D->getNameAsString();
      o["t"] = ty (E->getType());
      if (auto *b = dyn_cast<BindingDecl> (D)) { o["d"] = declId (b); return o; }
      o["d"] = declId (D);
      if (auto *v = dyn_cast<VarDecl> (D)) {
        if (v->hasGlobalStorage() && !v->isStaticLocal()) {
          o["g"] = qname (v);
          o["gi"] = varKey (v);
          noteVar (v);
        }
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr> (E)) {
      if (auto *f = dyn_cast<FieldDecl> (x->getMemberDecl())) {
        json::Object o = node ("mem", E);
        o["b"] = expr (x->getBase());
        o["f"] = f->getNameAsString();
        o["arrow"] = x->isArrow();
        o["t"] = ty (E->getType());
        return o;
      }
      if (auto *v = dyn_cast<VarDecl> (x->getMemberDecl())) {
        json::Object o = node ("ref", E);
        o["d"] = declId (v);
        o["n"] = v->getNameAsString();
        o["g"] = qname (v);
        o["gi"] = varKey (v);
        noteVar (v);
        o["t"] = ty (E->getType());
        return o;
      }
      if (auto *m = dyn_cast<FunctionDecl> (x->getMemberDecl())) {
        json::Object o = node ("mref", E);
        o["b"] = expr (x->getBase());
        o["f"] = fnInfo (m);
        return o;
      }
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr> (E)) {
      json::Object o = node ("mcall", E);
      const CXXMethodDecl *M = x->getMethodDecl();
      if (M) {
        o["f"] = fnInfo (M);
        const Expr *cal = strip (x->getCallee());
        if (auto *me = dyn_cast<MemberExpr> (cal)) {
          o["o"] = expr (me->getBase());
          o["arrow"] = me->isArrow();
          if (me->hasQualifier()) o["qual"] = true;
        }
      } else o["cal"] = expr (x->getCallee());
      o["a"] = args (x->arg_begin(), x->arg_end());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr> (E)) {
      const FunctionDecl *F = x->getDirectCallee();
      const auto *M = dyn_cast_or_null<CXXMethodDecl> (F);
      json::Object o = node (M && !M->isStatic() ? "mcall" : "call", E);
      o["op"] = getOperatorSpelling (x->getOperator());
      if (F) o["f"] = fnInfo (F);
      if (M && !M->isStatic()) {
        o["o"] = expr (x->getArg (0));
        o["arrow"] = false;
        o["a"] = args (x->arg_begin() + 1, x->arg_end());
      } else o["a"] = args (x->arg_begin(), x->arg_end());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<CallExpr> (E)) {
      json::Object o = node ("call", E);
      if (const FunctionDecl *F = x->getDirectCallee()) o["f"] = fnInfo (F);
      else o["cal"] = expr (x->getCallee());
      o["a"] = args (x->arg_begin(), x->arg_end());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr> (E)) {
      json::Object o = node ("ctor", E);
      o["f"] = fnInfo (x->getConstructor());
      o["a"] = args (x->arg_begin(), x->arg_end());
      o["t"] = ty (E->getType());
      if (x->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (x->getConstructor()->isMoveConstructor()) o["move"] = true;
      if (x->isStdInitListInitialization()) o["il"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr> (E)) {
      json::Object o = node ("ctor", E);
      o["f"] = fnInfo (x->getConstructor());
      o["a"] = json::Array();
      o["t"] = ty (E->getType());
      o["inh"] = true;
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator> (E)) {
      json::Object o = node ("un", E);
      std::string op = UnaryOperator::getOpcodeStr (x->getOpcode()).str();
      if (x->isPostfix()) op = "p" + op;
      o["op"] = op;
      o["e"] = expr (x->getSubExpr());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator> (E)) {
      json::Object o = node ("bin", E);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr (x->getLHS());
      o["b"] = expr (x->getRHS());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator> (E)) {
      json::Object o = node ("cond", E);
      o["c"] = expr (x->getCond());
      o["a"] = expr (x->getTrueExpr());
      o["b"] = expr (x->getFalseExpr());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr> (E)) {
      json::Object o = node ("idx", E);
      o["b"] = expr (x->getBase());
      o["i"] = expr (x->getIdx());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral> (E)) {
      json::Object o = node ("str", E);
      if (x->getCharByteWidth() == 1) o["v"] = fixUtf8 (x->getBytes());
      else {
        json::Array cu;
        for (unsigned i = 0; i < x->getLength(); ++i) cu.push_back (int64_t (x->getCodeUnit (i)));
        o["cu"] = std::move (cu);
      }
      o["w"] = int64_t (x->getCharByteWidth());
      o["t"] = ty (E->getType());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr> (E) || isa<GNUNullExpr> (E)) { return node ("null", E); }
    if (isa<CXXThisExpr> (E)) {
      json::Object o = node ("this", E);
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<CastExpr> (E)) {
      json::Object o = node ("cast", E);
      o["ck"] = x->getCastKindName();
      o["expl"] = isa<ExplicitCastExpr> (E);
      o["e"] = expr (x->getSubExpr());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<InitListExpr> (E)) {
      if (x->isSemanticForm() || !x->getSemanticForm()) {} else x = x->getSemanticForm();
      json::Object o = node ("ilist", E);
      json::Array a;
      for (auto *e : x->inits()) a.push_back (expr (e));
      o["a"] = std::move (a);
      o["t"] = ty (E->getType());
      if (x->hasArrayFiller()) o["filler"] = true;
      return o;
    }
    if (isa<ImplicitValueInitExpr> (E) || isa<CXXScalarValueInitExpr> (E)) {
      json::Object o = node ("zero", E);
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr> (E)) {
      json::Object o = node ("new", E);
      o["arr"] = x->isArray();
      if (x->isArray() && x->getArraySize() && *x->getArraySize()) o["n"] = expr (*x->getArraySize());
      if (x->getInitializer()) o["init"] = expr (x->getInitializer());
      if (x->getConstructExpr()) o["ctor"] = expr (x->getConstructExpr());
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr> (E)) {
      json::Object o = node ("delete", E);
      o["arr"] = x->isArrayForm();
      o["e"] = expr (x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr> (E)) {
      json::Object o = node ("throw", E);
      if (x->getSubExpr()) o["e"] = expr (x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr> (E)) {
      json::Object o = node ("lambda", E);
      const CXXMethodDecl *M = x->getCallOperator();
      o["f"] = fnInfo (M);
      Pending.push_back (M);
      json::Array caps;
      for (const auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["d"] = declId (c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *vd = dyn_cast<VarDecl> (c.getCapturedVar()))
            if (vd->isInitCapture() && vd->getInit()) co["init"] = expr (vd->getInit());
        }
        caps.push_back (std::move (co));
      }
      o["caps"] = std::move (caps);
      o["t"] = ty (E->getType());
      return o;
    }
    if (auto *x = dyn_cast<StmtExpr> (E)) {
      json::Object o = node ("stmtexpr", E);
      o["s"] = stmt (x->getSubStmt());
      return o;
    }
    json::Object o = node ("unk", E);
    o["cls"] = E->getStmtClassName();
    o["t"] = ty (E->getType());
    json::Array a;
    for (const Stmt *c : E->children())
      if (auto *ce = dyn_cast_or_null<Expr> (c)) a.push_back (expr (ce));
    o["a"] = std::move (a);
    return o;
  }

  json::Value stmt (const Stmt *S)
  {
    if (!S) return nullptr;
    if (auto *x = dyn_cast<CompoundStmt> (S)) {
      json::Object o = node ("block", S);
      json::Array a;
      for (auto *c : x->body()) a.push_back (stmt (c));
      o["s"] = std::move (a);
      o["le"] = loc (x->getRBracLoc());
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt> (S)) return stmt (x->getSubStmt());
    if (auto *x = dyn_cast<DeclStmt> (S)) {
      json::Object o = node ("decl", S);
      json::Array a;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl> (d)) a.push_back (varDecl (v));
      o["v"] = std::move (a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt> (S)) {
      json::Object o = node ("if", S);
      if (x->getInit()) o["init"] = stmt (x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl (x->getConditionVariable());
      o["c"] = expr (x->getCond());
      o["t"] = stmt (x->getThen());
      if (x->getElse()) o["e"] = stmt (x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt> (S)) {
      json::Object o = node ("while", S);
      if (x->getConditionVariable()) o["cv"] = varDecl (x->getConditionVariable());
      o["c"] = expr (x->getCond());
      o["b"] = stmt (x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt> (S)) {
      json::Object o = node ("do", S);
      o["c"] = expr (x->getCond());
      o["b"] = stmt (x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt> (S)) {
      json::Object o = node ("for", S);
      if (x->getInit()) o["init"] = stmt (x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl (x->getConditionVariable());
      if (x->getCond()) o["c"] = expr (x->getCond());
      if (x->getInc()) o["inc"] = expr (x->getInc());
      o["b"] = stmt (x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt> (S)) {
      json::Object o = node ("rfor", S);
      if (x->getInit()) o["init"] = stmt (x->getInit());
      o["r"] = expr (x->getRangeInit());
      o["rt"] = ty (x->getRangeInit()->getType());
      json::Value v = varDecl (x->getLoopVariable());
      // the variable's own initialiser is '*__begin': not useful
      v.getAsObject()->erase ("init");
      o["v"] = std::move (v);
      o["b"] = stmt (x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt> (S)) {
      json::Object o = node ("switch", S);
      if (x->getInit()) o["init"] = stmt (x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl (x->getConditionVariable());
      o["c"] = expr (x->getCond());
      o["b"] = stmt (x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt> (S)) {
      json::Object o = node ("case", S);
      o["v"] = expr (x->getLHS());
      if (x->getRHS()) o["v2"] = expr (x->getRHS());
      o["s"] = stmt (x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<DefaultStmt> (S)) {
      json::Object o = node ("default", S);
      o["s"] = stmt (x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt> (S)) return node ("break", S);
    if (isa<ContinueStmt> (S)) return node ("continue", S);
    if (auto *x = dyn_cast<ReturnStmt> (S)) {
      json::Object o = node ("return", S);
      if (x->getRetValue()) o["e"] = expr (x->getRetValue());
      return o;
    }
    if (auto *x = dyn_cast<GotoStmt> (S)) {
      json::Object o = node ("goto", S);
      o["n"] = x->getLabel()->getNameAsString();
      return o;
    }
    if (auto *x = dyn_cast<LabelStmt> (S)) {
      json::Object o = node ("label", S);
      o["n"] = x->getDecl()->getNameAsString();
      o["s"] = stmt (x->getSubStmt());
      return o;
    }
    if (isa<NullStmt> (S)) return node ("null", S);
    if (auto *x = dyn_cast<CXXTryStmt> (S)) {
      json::Object o = node ("try", S);
      o["b"] = stmt (x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *h = x->getHandler (i);
        json::Object ho;
        if (h->getExceptionDecl()) ho["v"] = varDecl (h->getExceptionDecl());
        ho["t"] = h->getCaughtType().isNull() ? std::string ("...") : tyName (h->getCaughtType().getNonReferenceType());
        ho["b"] = stmt (h->getHandlerBlock());
        hs.push_back (std::move (ho));
      }
      o["h"] = std::move (hs);
      return o;
    }
    if (auto *e = dyn_cast<Expr> (S)) {
      json::Object o = node ("expr", S);
      o["e"] = expr (e);
      return o;
    }
    json::Object o = node ("unkstmt", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }

  std::string varKey (const VarDecl *V)
  {
    V = V->getCanonicalDecl();
    std::string k = usr (V);
    if (V->getFormalLinkage() == Linkage::Internal) k += "|" + loc (V->getLocation());
    return k;
  }

  void noteVar (const VarDecl *V)
  {
    const VarDecl *D = V->getDefinition();
    if (!D) {
      // no definition in this unit; an in-class initialiser still counts
      const VarDecl *I = nullptr;
      V->getAnyInitializer (I);
      D = I ? I : V;
    }
    if (!inRoot (D)) return;
    std::string k = varKey (V);
    if (!DoneVars.insert (k + (D->getInit() ? "!" : "")).second) return;
    json::Object o;
    o["gi"] = k;
    o["n"] = qname (V);
    o["t"] = ty (V->getType());
    o["l"] = loc (D->getLocation());
    o["const"] = V->getType().isConstQualified();
    o["def"] = D->isThisDeclarationADefinition() == VarDecl::Definition;
    if (D->getInit()) o["init"] = expr (D->getInit());
    Vars.push_back (std::move (o));
  }

  void noteFn (const FunctionDecl *F)
  {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody (Def) || !Def) return;
    if (Def->isDependentContext()) return;
    if (!inRoot (Def)) return;
    std::string id = fnId (Def);
    if (!DoneFns.insert (id).second) return;
    json::Object o;
    o["f"] = fnInfo (Def);
    o["id"] = id;
    o["l"] = loc (Def->getLocation());
    o["le"] = loc (Def->getEndLoc());
    json::Array ps;
    for (auto *p : Def->parameters()) {
      json::Object po;
      po["d"] = declId (p);
      po["n"] = p->getNameAsString();
      po["t"] = ty (p->getType());
      ps.push_back (std::move (po));
    }
    o["ps"] = std::move (ps);
    o["rt"] = ty (Def->getReturnType());
    if (const auto *CD = dyn_cast<CXXConstructorDecl> (Def)) {
      o["ctor"] = true;
      json::Array is;
      for (auto *i : CD->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) { io["m"] = i->getMember()->getNameAsString(); io["mt"] = ty (i->getMember()->getType()); }
        else if (i->isBaseInitializer()) { io["base"] = ty (QualType (i->getBaseClass(), 0)); }
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr (i->getInit());
        io["w"] = i->isWritten();
        is.push_back (std::move (io));
      }
      o["inits"] = std::move (is);
    }
    if (isa<CXXDestructorDecl> (Def)) o["dtor"] = true;
    if (Def->isImplicit()) o["implicit"] = true;
    if (Def->isDefaulted()) o["defaulted"] = true;
    o["b"] = stmt (Def->getBody());
    Fns.push_back (std::move (o));
  }

  void drain()
  {
    while (!Pending.empty()) {
      auto *f = Pending.back();
      Pending.pop_back();
      noteFn (f);
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Exporter &X;
  Visitor (Exporter &X) : X (X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl (FunctionDecl *F)
  {
    if (X.inRoot (F)) X.noteFn (F);
    return true;
  }
  bool VisitVarDecl (VarDecl *V)
  {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && X.inRoot (V)
        && !V->getDeclContext()->isDependentContext()
        && !V->getType()->isDependentType()) X.noteVar (V);
    return true;
  }
  bool VisitEnumDecl (EnumDecl *E) { X.noteEnum (E); return true; }
  bool VisitRecordDecl (RecordDecl *R)
  {
    if (X.inRoot (R) && !R->isDependentContext()) X.noteRec (R);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit (ASTContext &C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) { HadError = true; return; }
    Exporter X (C);
    Visitor V (X);
    V.TraverseDecl (C.getTranslationUnitDecl());
    X.drain();
    json::Object o;
    o["fns"] = std::move (X.Fns);
    o["vars"] = std::move (X.Vars);
    o["recs"] = std::move (X.Recs);
    o["enums"] = std::move (X.Enums);
    o["types"] = std::move (X.Types);
    llvm::outs() << json::Value (std::move (o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

// usage: astx ROOT/ FILE -- compiler args
int main (int argc, const char **argv)
{
  if (argc < 4) { llvm::errs() << "usage: astx ROOT FILE -- args\n"; return 2; }
  Root = argv[1];
  std::string file = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i) args.push_back (argv[i]);
  tooling::FixedCompilationDatabase DB (".", args);
  tooling::ClangTool Tool (DB, { file });
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster (tooling::getClangSyntaxOnlyAdjuster());
  int r = Tool.run (tooling::newFrontendActionFactory<Action>().get());
  return r || HadError ? 2 : 0;
}
