// Exports, as JSON, the desugared typed AST of every function reachable from the
// harness functions of one translation unit (functions annotated "verif_harness" or
// "verif_contract:<name>").  Nothing is rewritten: what is exported is what clang
// instantiated from /repo's sources.  Functions whose definition lives in a system
// header are exported as references only (the verifier has an assumed contract for
// each or rejects the unit).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/QualTypeNames.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Sema/Sema.h>
#include <clang/Sema/SemaConsumer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <iostream>
#include <regex>

using namespace clang;
namespace js = llvm::json;

static std::string OutPath;
static std::vector<std::regex> FollowSys;

struct Exporter {
  ASTContext & C;
  SourceManager & SM;
  Sema * S;
  js::Array Types, Records, Functions, Vars;
  std::map<const void *, int> typeIds;
  std::map<const RecordDecl *, int> recIds;
  std::map<const FunctionDecl *, int> fnIds;
  std::map<const VarDecl *, int> varIds;
  std::deque<const FunctionDecl *> fnQueue;
  std::deque<const VarDecl *> varQueue;
  std::set<const CXXRecordDecl *> rtaDone;
  int unsupported = 0;

  Exporter(ASTContext & C, Sema * S) : C(C), SM(C.getSourceManager()), S(S) {}

  // ---------- helpers
  std::string loc(SourceLocation L)
  {
    if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  bool isSys(SourceLocation L)
  {
    if (L.isInvalid()) return true;
    L = SM.getExpansionLoc(L);
    return SM.isInSystemHeader(L);
  }
  std::string qname(const NamedDecl * D)
  {
    // qualified name, without inline namespaces or template arguments
    std::vector<std::string> parts;
    std::string self;
    if (auto * CD = dyn_cast<CXXConstructorDecl>(D)) { (void)CD; self = "(ctor)"; }
    else if (isa<CXXDestructorDecl>(D)) self = "(dtor)";
    else if (isa<CXXConversionDecl>(D)) self = "(conv)";
    else if (auto * RD = dyn_cast<CXXRecordDecl>(D); RD && RD->isLambda()) self = "(lambda)";
    else self = D->getNameAsString();
    parts.push_back(self);
    const DeclContext * DC = D->getDeclContext();
    while (DC) {
      if (auto * NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline()) parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
      } else if (auto * RD = dyn_cast<CXXRecordDecl>(DC)) {
        parts.push_back(RD->isLambda() ? "(lambda)" : RD->getNameAsString());
      } else if (auto * FD = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(FD->getNameAsString());
      }
      DC = DC->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!r.empty()) r += "::";
      r += *it;
    }
    return r;
  }

  js::Array targs(llvm::ArrayRef<TemplateArgument> A)
  {
    js::Array out;
    for (auto & a : A) {
      switch (a.getKind()) {
        case TemplateArgument::Type: out.push_back(js::Object{{"t", type(a.getAsType())}}); break;
        case TemplateArgument::Integral:
          out.push_back(js::Object{{"i", llvm::toString(a.getAsIntegral(), 10)}});
          break;
        case TemplateArgument::Pack:
          for (auto & b : targs(a.getPackAsArray())) out.push_back(std::move(b));
          break;
        default: out.push_back(nullptr);
      }
    }
    return out;
  }

  // ---------- types
  int type(QualType Q)
  {
    Q = Q.getCanonicalType();
    bool cst = Q.isConstQualified();
    QualType U = Q.getUnqualifiedType();
    const void * key = (const void *)((uintptr_t)U.getTypePtr() * 2 + (cst ? 1 : 0));
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = (int)typeIds.size();
    typeIds[key] = id;
    Types.push_back(nullptr);
    js::Object o;
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    o["s"] = U.getAsString(PP);
    if (cst) o["const"] = true;
    const Type * T = U.getTypePtr();
    if (auto * B = dyn_cast<BuiltinType>(T)) {
      if (B->isBooleanType()) o["k"] = "bool";
      else if (B->isInteger()) {
        o["k"] = "int";
        o["bits"] = (int64_t)C.getTypeSize(U);
        o["signed"] = B->isSignedInteger();
        o["char"] = U->isAnyCharacterType();
      } else if (B->isFloatingPoint()) {
        o["k"] = "float";
        o["bits"] = (int64_t)C.getTypeSize(U);
      } else if (B->isVoidType()) o["k"] = "void";
      else if (B->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "builtin";
    } else if (auto * P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr";
      o["to"] = type(P->getPointeeType());
    } else if (auto * R = dyn_cast<ReferenceType>(T)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(T);
      o["to"] = type(R->getPointeeType());
    } else if (auto * E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum";
      o["name"] = qname(E->getDecl());
      o["under"] = type(E->getDecl()->getIntegerType());
      js::Array es;
      for (auto * ec : E->getDecl()->enumerators())
        es.push_back(js::Array{ec->getNameAsString(), llvm::toString(ec->getInitVal(), 10)});
      o["enumerators"] = std::move(es);
    } else if (auto * R = dyn_cast<RecordType>(T)) {
      o["k"] = "rec";
      o["rec"] = record(R->getDecl());
    } else if (auto * A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "arr";
      o["n"] = (int64_t)A->getSize().getZExtValue();
      o["to"] = type(A->getElementType());
    } else if (auto * F = dyn_cast<FunctionProtoType>(T)) {
      o["k"] = "fn";
      o["ret"] = type(F->getReturnType());
      js::Array ps;
      for (auto p : F->param_types()) ps.push_back(type(p));
      o["params"] = std::move(ps);
    } else if (auto * M = dyn_cast<MemberPointerType>(T)) {
      o["k"] = "memptr";
      o["to"] = type(M->getPointeeType());
    } else {
      o["k"] = "other";
    }
    Types[id] = std::move(o);
    return id;
  }

  // ---------- records
  int record(const RecordDecl * D)
  {
    if (auto * Def = D->getDefinition()) D = Def;
    D = cast<RecordDecl>(D->getCanonicalDecl());
    auto it = recIds.find(D);
    if (it != recIds.end()) return it->second;
    int id = (int)recIds.size();
    recIds[D] = id;
    Records.push_back(nullptr);
    const RecordDecl * Def = D->getDefinition();
    js::Object o;
    o["id"] = id;
    o["name"] = qname(D);
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    o["full"] = C.getRecordType(D).getAsString(PP);
    o["sys"] = isSys(D->getLocation());
    o["loc"] = loc(D->getLocation());
    o["union"] = D->isUnion();
    if (auto * TS = dyn_cast<ClassTemplateSpecializationDecl>(D))
      o["targs"] = targs(TS->getTemplateArgs().asArray());
    if (Def) {
      bool sys = isSys(D->getLocation());
      js::Array fs;
      if (!sys || true)
        for (auto * f : Def->fields()) {
          js::Object fo{{"n", fieldName(f)}, {"t", type(f->getType())}};
          if (f->isMutable()) fo["mutable"] = true;
          fs.push_back(std::move(fo));
        }
      o["fields"] = std::move(fs);
      if (auto * CR = dyn_cast<CXXRecordDecl>(Def)) {
        js::Array bs;
        for (auto & b : CR->bases())
          if (auto * br = b.getType()->getAsCXXRecordDecl())
            bs.push_back(js::Object{{"rec", record(br)}, {"virtual", b.isVirtual()}});
        o["bases"] = std::move(bs);
        o["poly"] = CR->isPolymorphic();
        if (!sys && !CR->isDependentContext()) o["nontrivial"] = !CR->hasTrivialDefaultConstructor();
        o["abstract"] = CR->isAbstract();
        o["agg"] = CR->isAggregate();
        o["lambda"] = CR->isLambda();
        if (CR->isLambda()) {
          llvm::DenseMap<const ValueDecl *, FieldDecl *> caps;
          FieldDecl * thisCap = nullptr;
          CR->getCaptureFields(caps, thisCap);
          js::Array cs;
          for (auto & kv : caps)
            if (auto * v = dyn_cast<VarDecl>(kv.first))
              cs.push_back(js::Object{
                {"var", var(v)}, {"field", fieldName(kv.second)},
                {"byref", kv.second->getType()->isReferenceType()}});
          o["captures"] = std::move(cs);
          if (thisCap) {
            o["thiscap"] = fieldName(thisCap);
            o["thiscapref"] = thisCap->getType()->isPointerType();
          }
          if (auto * op = CR->getLambdaCallOperator())
            if (!op->isDependentContext()) o["callop"] = fn(op);
          if (CR->isGenericLambda() && !CR->isDependentContext())
            if (auto * ft = CR->getDependentLambdaCallOperator())
              for (auto * sp : ft->specializations())
                if (sp->isDefined()) fn(sp);
        }
        // function objects can be called from library code that is not followed
        if (!sys && !CR->isLambda() && !CR->isDependentContext())
          for (auto * d : CR->decls()) {
            if (auto * m = dyn_cast<CXXMethodDecl>(d); m && (m->getOverloadedOperator() == OO_Call || m->getOverloadedOperator() == OO_PlusPlus || isa<CXXConversionDecl>(m)) && m->isDefined()) fn(m);
            if (auto * ft = dyn_cast<FunctionTemplateDecl>(d); ft && ft->getTemplatedDecl()->getOverloadedOperator() == OO_Call)
              for (auto * sp : ft->specializations())
                if (sp->isDefined()) fn(sp);
          }
        if (!sys && !CR->isDependentContext() && !CR->isLambda() && !CR->isAbstract() && S) {
          // library code that is not followed creates objects of the class
          for (auto * K : CR->ctors())
            if (K->isDefaultConstructor() && !K->isDeleted() && (K->isDefined() || (K->isDefaulted() && K->isUsed()))) {
              js::Array defaults;
              bool known = true;
              for (auto * P : K->parameters())
                if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
                  defaults.push_back(expr(P->getDefaultArg()));
                else
                  known = false;
              if (!known) continue;
              o["defctor"] = fn(K);
              o["defargs"] = std::move(defaults);
            }
        }
        if (!sys && !CR->isDependentContext()) {
          if (auto * dt = CR->getDestructor())
            if (dt->isUserProvided()) o["dtor"] = fn(dt);
        }
        if (CR->isPolymorphic()) {
          js::Array vs;
          for (auto * m : CR->methods())
            if (m->isVirtual() && !isa<CXXDestructorDecl>(m)) {
              std::set<int> ov;
              collectOverridden(m, ov);
              js::Array oa;
              for (int i : ov) oa.push_back(i);
              vs.push_back(js::Object{{"f", fnNoQueue(m)}, {"ov", std::move(oa)}, {"pure", m->isPureVirtual()}});
            }
          o["virt"] = std::move(vs);
        }
      }
    } else {
      o["incomplete"] = true;
    }
    Records[id] = std::move(o);
    return id;
  }
  void collectOverridden(const CXXMethodDecl * m, std::set<int> & out)
  {
    for (auto * o : m->overridden_methods()) {
      out.insert(fnNoQueue(o));
      collectOverridden(o, out);
    }
  }
  std::string fieldName(const FieldDecl * f)
  {
    auto n = f->getNameAsString();
    if (n.empty()) n = "#" + std::to_string(f->getFieldIndex());
    return n;
  }
  void rta(const CXXRecordDecl * R)
  {
    if (!R || !R->getDefinition()) return;
    R = R->getDefinition();
    if (!rtaDone.insert(R).second) return;
    if (!R->isPolymorphic()) return;
    if (R->isDependentContext()) return;
    bool sys = isSys(R->getLocation());
    if (!sys)
      for (auto * m : R->methods())
        if (m->isVirtual() && !isa<CXXDestructorDecl>(m) && !m->isPureVirtual()) {
          instantiate(const_cast<CXXMethodDecl *>(m));
          fn(m);
        }
    for (auto & b : R->bases()) rta(b.getType()->getAsCXXRecordDecl());
  }
  void constructors(const CXXRecordDecl * R)
  {
    if (!R || !R->getDefinition() || isSys(R->getLocation())) return;
    R = R->getDefinition();
    record(R);
    rta(R);
    for (auto * D : R->decls()) {
      if (auto * K = dyn_cast<CXXConstructorDecl>(D); K && !K->isDeleted() && !K->isImplicit()) fn(K);
      if (auto * T = dyn_cast<FunctionTemplateDecl>(D); T && isa<CXXConstructorDecl>(T->getTemplatedDecl()))
        for (auto * K : T->specializations()) fn(K);
    }
  }
  void instantiate(FunctionDecl * F)
  {
    if (!S) return;
    if (!F->isDefined() && F->getTemplateInstantiationPattern() && F->isTemplateInstantiation())
      S->InstantiateFunctionDefinition(F->getLocation(), F, true, true);
  }

  // ---------- functions and variables
  const FunctionDecl * canon(const FunctionDecl * F) { return F->getCanonicalDecl(); }
  int fnNoQueue(const FunctionDecl * F)
  {
    F = canon(F);
    auto it = fnIds.find(F);
    if (it != fnIds.end()) return it->second;
    int id = (int)fnIds.size();
    fnIds[F] = id;
    Functions.push_back(nullptr);
    return id;
  }
  std::set<const FunctionDecl *> queued;
  int fn(const FunctionDecl * F)
  {
    int id = fnNoQueue(F);
    if (queued.insert(canon(F)).second) fnQueue.push_back(canon(F));
    return id;
  }
  int var(const VarDecl * V)
  {
    V = V->getCanonicalDecl();
    auto it = varIds.find(V);
    if (it != varIds.end()) return it->second;
    int id = (int)varIds.size();
    varIds[V] = id;
    Vars.push_back(nullptr);
    if (V->hasGlobalStorage()) varQueue.push_back(V);
    else {
      Vars[id] = js::Object{{"id", id}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
    }
    return id;
  }

  bool followable(const FunctionDecl * F)
  {
    auto L = F->getLocation();
    if (auto * P = F->getTemplateInstantiationPattern()) L = P->getLocation();
    if (!isSys(L)) return true;
    auto n = qname(F);
    for (auto & r : FollowSys)
      if (std::regex_match(n, r)) return true;
    return false;
  }

  std::multimap<void *, const FunctionDecl *> streamOps;

  void emitFunction(const FunctionDecl * F0)
  {
    int id = fnIds[canon(F0)];
    const FunctionDecl * F = F0;
    js::Object o;
    o["id"] = id;
    o["name"] = qname(F0);
    if (auto * conv = dyn_cast<CXXConversionDecl>(F0)) o["convto"] = type(conv->getConversionType());
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      PrintingPolicy PP(C.getLangOpts());
      F0->getNameForDiagnostic(os, PP, true);
      o["full"] = os.str();
    }
    o["ret"] = type(F->getReturnType());
    if (auto * M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = record(M->getParent());
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      o["constm"] = M->isConst();
      if (M->isVirtual()) {
        std::set<int> ov;
        collectOverridden(M, ov);
        js::Array oa;
        for (int i : ov) oa.push_back(i);
        o["ov"] = std::move(oa);
      }
      if (auto * K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move"
                    : K->isDefaultConstructor() ? "default" : "other";
        if (K->isInheritingConstructor()) o["inheriting"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["isdtor"] = true;
      if (M->isCopyAssignmentOperator()) o["assign"] = "copy";
      if (M->isMoveAssignmentOperator()) o["assign"] = "move";
    }
    o["defaulted"] = F->isDefaulted() && !F->isUserProvided();
    o["noexcept"] = false;
    if (auto * P = F->getType()->getAs<FunctionProtoType>()) {
      if (isNoexceptExceptionSpec(P->getExceptionSpecType()) && P->canThrow() == CT_Cannot)
        o["noexcept"] = true;
    }
    if (auto * TA = F->getTemplateSpecializationArgs()) o["targs"] = targs(TA->asArray());
    o["variadic"] = F->isVariadic();
    bool follow = followable(F);
    o["sys"] = !follow;
    // library templates that stream a user's type reach its operators through argument-dependent lookup
    if (!follow && o["name"] == js::Value("boost::lexical_cast")) {
      std::vector<QualType> ts{F->getReturnType()};
      for (auto * p : F->parameters()) ts.push_back(p->getType());
      for (auto t : ts) {
        auto range = streamOps.equal_range(t.getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsOpaquePtr());
        for (auto i = range.first; i != range.second; ++i) fn(i->second);
      }
    }
    // library templates that construct a user's type from the arguments they are given
    if (!follow) {
      static const std::set<std::string> makers{"make_shared", "make_unique", "make_optional", "emplace", "emplace_back", "emplace_front", "try_emplace", "push_back"};
      auto n = F->getDeclName().isIdentifier() ? F->getName().str() : std::string();
      if (makers.count(n)) {
        std::vector<QualType> ts;
        auto args = [&](const CXXRecordDecl * R) {
          if (auto * TS = dyn_cast_or_null<ClassTemplateSpecializationDecl>(R))
            for (auto & a : TS->getTemplateArgs().asArray())
              if (a.getKind() == TemplateArgument::Type) ts.push_back(a.getAsType());
        };
        args(F->getReturnType()->getAsCXXRecordDecl());
        if (auto * M = dyn_cast<CXXMethodDecl>(F)) args(M->getParent());
        for (auto t : ts) constructors(t->getAsCXXRecordDecl());
      }
    }
    js::Array anns;
    for (auto * D : F->redecls())
      for (auto * a : D->specific_attrs<AnnotateAttr>()) anns.push_back(a->getAnnotation());
    if (!anns.empty()) o["ann"] = std::move(anns);
    const FunctionDecl * Def = nullptr;
    if (follow) {
      instantiate(const_cast<FunctionDecl *>(F));
      if (F->hasBody(Def)) F = Def;
      else if (F->isDefaulted() && S) {
        Def = nullptr;
      }
    }
    js::Array ps;
    for (auto * p : F->parameters()) {
      ps.push_back(js::Object{{"v", var(p)}, {"t", type(p->getType())}, {"n", p->getNameAsString()}});
    }
    o["params"] = std::move(ps);
    o["loc"] = loc(F->getLocation());
    if (Def && follow) {
      if (auto * K = dyn_cast<CXXConstructorDecl>(Def)) {
        js::Array inits;
        for (auto * I : K->inits()) {
          js::Object io;
          if (I->isBaseInitializer()) {
            io["base"] = record(I->getBaseClass()->getAsRecordDecl());
            io["virtual"] = I->isBaseVirtual();
          } else if (I->isAnyMemberInitializer()) {
            io["field"] = fieldName(I->getAnyMember());
            io["t"] = type(I->getAnyMember()->getType());
          } else io["delegating"] = true;
          io["e"] = expr(I->getInit());
          inits.push_back(std::move(io));
        }
        o["inits"] = std::move(inits);
      }
      o["body"] = stmt(Def->getBody());
    } else if (follow && F->isDefaulted()) {
      if (auto * K = dyn_cast<CXXConstructorDecl>(F); K && K->isDefaultConstructor()) {
        // implicitly defined default constructor: export member initialisers
        if (S && !K->isDeleted()) {
          // DefineImplicitDefaultConstructor fills inits
          if (K->getNumCtorInitializers() == 0) {
            auto * NK = const_cast<CXXConstructorDecl *>(K);
            if (!K->isTrivial() && !NK->isInvalidDecl() && !NK->doesThisDeclarationHaveABody())
              S->DefineImplicitDefaultConstructor(K->getLocation(), NK);
          }
          js::Array inits;
          for (auto * I : K->inits()) {
            js::Object io;
            if (I->isBaseInitializer()) {
              io["base"] = record(I->getBaseClass()->getAsRecordDecl());
            } else if (I->isAnyMemberInitializer()) {
              io["field"] = fieldName(I->getAnyMember());
              io["t"] = type(I->getAnyMember()->getType());
            } else continue;
            io["e"] = expr(I->getInit());
            inits.push_back(std::move(io));
          }
          o["inits"] = std::move(inits);
          o["body"] = js::Object{{"k", "Block"}, {"b", js::Array{}}};
        }
      }
    }
    Functions[id] = std::move(o);
  }

  void emitVar(const VarDecl * V0)
  {
    int id = varIds[V0->getCanonicalDecl()];
    const VarDecl * V = V0;
    js::Object o{{"id", id}, {"n", V->getNameAsString()}, {"q", qname(V)}, {"t", type(V->getType())},
                 {"global", true}, {"tls", V->getTLSKind() != VarDecl::TLS_None}};
    bool sys = isSys(V->getLocation());
    o["sys"] = sys;
    o["loc"] = loc(V->getLocation());
    if (S && V->getTemplateInstantiationPattern() && !V->getAnyInitializer())
      S->InstantiateVariableDefinition(V->getLocation(), const_cast<VarDecl *>(V), true, true);
    const VarDecl * D = nullptr;
    const Expr * I = V->getAnyInitializer(D);
    if (I && !I->isValueDependent()) {
      if (auto c = constant(I)) o["init"] = std::move(*c);
      else if (V->isConstexpr() && constVar(D ? D : V, o)) {
      } else if (!sys) o["init"] = expr(I);
    }
    Vars[id] = std::move(o);
  }
  bool constVar(const VarDecl * V, js::Object & o)
  {
    auto * av = V->evaluateValue();
    if (!av) return false;
    if (av->isInt() || av->isFloat()) {
      o["init"] = apval(*av, V->getType());
      return true;
    }
    return false;
  }
  js::Value apval(const APValue & v, QualType T)
  {
    js::Object o;
    o["k"] = "Lit";
    o["t"] = type(T);
    if (v.isInt()) {
      o["i"] = llvm::toString(v.getInt(), 10);
    } else {
      o["f"] = flt(v.getFloat());
    }
    return o;
  }
  std::string flt(llvm::APFloat f)
  {
    if (f.isNaN()) return "nan";
    if (f.isInfinity()) return f.isNegative() ? "-inf" : "inf";
    bool lossy;
    f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lossy);
    llvm::SmallString<64> s;
    char buf[64];
    f.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
    return std::string(buf);
  }
  std::optional<js::Value> constant(const Expr * E)
  {
    if (!E || E->isValueDependent() || E->isInstantiationDependent() || E->isTypeDependent()) return {};
    QualType T = E->getType();
    if (!E->isPRValue() || !(T->isArithmeticType() || T->isEnumeralType())) return {};
    Expr::EvalResult R;
    if (E->HasSideEffects(C)) return {};
    if (!E->EvaluateAsRValue(R, C, true) || R.HasSideEffects) {
      return {};
    }
    if (R.Val.isInt() || R.Val.isFloat()) return apval(R.Val, T);
    return {};
  }

  // ---------- expressions
  js::Value bad(const char * what, SourceLocation L)
  {
    ++unsupported;
    return js::Object{{"k", "Unsupported"}, {"what", what}, {"loc", loc(L)}};
  }
  js::Array exprs(llvm::ArrayRef<const Expr *> a)
  {
    js::Array r;
    for (auto * e : a) r.push_back(expr(e));
    return r;
  }
  js::Array argList(CallExpr::const_arg_range r, unsigned skip = 0)
  {
    js::Array a;
    for (auto * e : r) {
      if (skip) { --skip; continue; }
      a.push_back(expr(e));
    }
    return a;
  }
  js::Value expr(const Expr * E)
  {
    if (!E) return nullptr;
    if (auto c = constant(E)) return std::move(*c);
    js::Value v = expr0(E);
    if (auto * o = v.getAsObject()) {
      if (!o->get("t")) (*o)["t"] = type(E->getType());
      if (E->isGLValue()) (*o)["lv"] = true;
    }
    return v;
  }
  js::Array path(const CastExpr * E)
  {
    js::Array p;
    for (auto it = E->path_begin(); it != E->path_end(); ++it)
      p.push_back(record((*it)->getType()->getAsRecordDecl()));
    return p;
  }
  js::Value expr0(const Expr * E)
  {
    using O = js::Object;
    auto L = loc(E->getExprLoc());
    if (auto * e = dyn_cast<ParenExpr>(E)) return expr(e->getSubExpr());
    if (auto * e = dyn_cast<ExprWithCleanups>(E)) return expr(e->getSubExpr());
    if (auto * e = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(e->getSubExpr());
    if (auto * e = dyn_cast<ConstantExpr>(E)) return expr(e->getSubExpr());
    if (auto * e = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(e->getReplacement());
    if (auto * e = dyn_cast<CXXDefaultArgExpr>(E)) return expr(e->getExpr());
    if (auto * e = dyn_cast<CXXDefaultInitExpr>(E)) return O{{"k", "DefInit"}, {"e", expr(e->getExpr())}};
    if (auto * e = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(e->getSemanticForm());
    if (auto * e = dyn_cast<OpaqueValueExpr>(E)) {
      if (e->getSourceExpr()) return expr(e->getSourceExpr());
      return bad("OpaqueValue", E->getExprLoc());
    }
    if (auto * e = dyn_cast<MaterializeTemporaryExpr>(E))
      return O{{"k", "Mat"}, {"e", expr(e->getSubExpr())}, {"vt", type(e->getSubExpr()->getType())}};
    if (auto * e = dyn_cast<IntegerLiteral>(E))
      return O{{"k", "Lit"}, {"i", llvm::toString(e->getValue(), 10, e->getType()->isSignedIntegerType())}};
    if (auto * e = dyn_cast<CharacterLiteral>(E)) return O{{"k", "Lit"}, {"i", std::to_string(e->getValue())}};
    if (auto * e = dyn_cast<CXXBoolLiteralExpr>(E)) return O{{"k", "Lit"}, {"i", e->getValue() ? "1" : "0"}};
    if (auto * e = dyn_cast<FloatingLiteral>(E)) return O{{"k", "Lit"}, {"f", flt(e->getValue())}};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return O{{"k", "Null"}};
    if (auto * e = dyn_cast<StringLiteral>(E)) {
      js::Array b;
      for (unsigned i = 0; i < e->getLength(); ++i) b.push_back((int64_t)e->getCodeUnit(i));
      return O{{"k", "Str"}, {"b", std::move(b)}};
    }
    if (auto * e = dyn_cast<PredefinedExpr>(E)) {
      if (e->getFunctionName()) return expr(e->getFunctionName());
    }
    if (isa<CXXThisExpr>(E)) return O{{"k", "This"}};
    if (auto * e = dyn_cast<DeclRefExpr>(E)) {
      auto * D = e->getDecl();
      if (auto * v = dyn_cast<VarDecl>(D)) {
        O o{{"k", "Var"}, {"v", var(v)}, {"n", v->getNameAsString()}};
        if (e->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        if (v->hasGlobalStorage()) o["g"] = true;
        return o;
      }
      if (auto * f = dyn_cast<FunctionDecl>(D)) return O{{"k", "Fn"}, {"f", fn(f)}};
      if (auto * c = dyn_cast<EnumConstantDecl>(D))
        return O{{"k", "Lit"}, {"i", llvm::toString(c->getInitVal(), 10)}};
      if (auto * b = dyn_cast<BindingDecl>(D)) {
        if (auto * hv = b->getHoldingVar()) return O{{"k", "Var"}, {"v", var(hv)}, {"n", b->getNameAsString()}};
        return expr(b->getBinding());
      }
      if (isa<TemplateParamObjectDecl>(D)) return bad("TemplateParamObject", E->getExprLoc());
      if (auto * f = dyn_cast<FieldDecl>(D)) return O{{"k", "FieldRef"}, {"n", fieldName(f)}};
      return bad("DeclRef", E->getExprLoc());
    }
    if (auto * e = dyn_cast<MemberExpr>(E)) {
      auto * D = e->getMemberDecl();
      if (auto * f = dyn_cast<FieldDecl>(D)) {
        return O{{"k", "Mem"}, {"n", fieldName(f)}, {"rec", record(f->getParent())}, {"arrow", e->isArrow()},
                 {"e", expr(e->getBase())}, {"isref", f->getType()->isReferenceType()}, {"loc", L}};
      }
      if (auto * v = dyn_cast<VarDecl>(D)) return O{{"k", "Var"}, {"v", var(v)}, {"g", true}, {"n", v->getNameAsString()}};
      if (auto * c = dyn_cast<EnumConstantDecl>(D))
        return O{{"k", "Lit"}, {"i", llvm::toString(c->getInitVal(), 10)}};
      if (auto * m = dyn_cast<CXXMethodDecl>(D))
        return O{{"k", "BoundM"}, {"f", fn(m)}, {"arrow", e->isArrow()}, {"e", expr(e->getBase())}};
      return bad("Member", E->getExprLoc());
    }
    if (auto * e = dyn_cast<UserDefinedLiteral>(E)) return callExpr(e, L);
    if (auto * e = dyn_cast<CallExpr>(E)) return callExpr(e, L);
    if (auto * e = dyn_cast<CXXTemporaryObjectExpr>(E)) return construct(e, L);
    if (auto * e = dyn_cast<CXXConstructExpr>(E)) return construct(e, L);
    if (auto * e = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      rta(e->getConstructor()->getParent());
      return O{{"k", "InhCtor"}, {"f", fn(e->getConstructor())}};
    }
    if (auto * e = dyn_cast<LambdaExpr>(E)) {
      auto * R = e->getLambdaClass();
      js::Array inits;
      auto fi = R->field_begin();
      for (auto it = e->capture_init_begin(); it != e->capture_init_end(); ++it, ++fi)
        inits.push_back(O{{"field", fieldName(*fi)}, {"t", type(fi->getType())}, {"e", expr(*it)}});
      return O{{"k", "Lambda"}, {"rec", record(R)}, {"caps", std::move(inits)}, {"loc", L}};
    }
    if (auto * e = dyn_cast<InitListExpr>(E)) {
      if (!e->isSemanticForm() && e->getSemanticForm()) e = e->getSemanticForm();
      if (e->isTransparent() && e->getNumInits() == 1) return expr(e->getInit(0));
      js::Array a;
      for (unsigned i = 0; i < e->getNumInits(); ++i) a.push_back(expr(e->getInit(i)));
      O o{{"k", "InitList"}, {"inits", std::move(a)}};
      if (e->hasArrayFiller()) o["filler"] = expr(e->getArrayFiller());
      if (auto * f = e->getInitializedFieldInUnion()) o["unionfield"] = fieldName(f);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return O{{"k", "Zero"}};
    if (auto * e = dyn_cast<CXXStdInitializerListExpr>(E))
      return O{{"k", "StdInitList"}, {"e", expr(e->getSubExpr())}};
    if (auto * e = dyn_cast<CXXDynamicCastExpr>(E)) {
      return O{{"k", "DynCast"}, {"e", expr(e->getSubExpr())}, {"to", type(e->getTypeAsWritten())}, {"loc", L}};
    }
    if (auto * e = dyn_cast<CastExpr>(E)) {
      const char * kn = e->getCastKindName();
      switch (e->getCastKind()) {
        case CK_NoOp: case CK_UserDefinedConversion: case CK_ConstructorConversion:
        case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_LValueBitCast:
          if (e->getCastKind() == CK_LValueBitCast) break;
          return expr(e->getSubExpr());
        default: break;
      }
      O o{{"k", "Cast"}, {"c", kn}, {"e", expr(e->getSubExpr())}, {"loc", L}};
      if (!e->path_empty()) o["path"] = path(e);
      return o;
    }
    if (auto * e = dyn_cast<CompoundAssignOperator>(E))
      return O{{"k", "CAssign"}, {"op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(e->getOpcode())).str()},
               {"l", expr(e->getLHS())}, {"r", expr(e->getRHS())}, {"ct", type(e->getComputationLHSType())},
               {"crt", type(e->getComputationResultType())}, {"loc", L}};
    if (auto * e = dyn_cast<BinaryOperator>(E)) {
      if (e->isAssignmentOp())
        return O{{"k", "Assign"}, {"l", expr(e->getLHS())}, {"r", expr(e->getRHS())}, {"loc", L}};
      return O{{"k", "Bin"}, {"op", e->getOpcodeStr().str()}, {"l", expr(e->getLHS())}, {"r", expr(e->getRHS())}, {"loc", L}};
    }
    if (auto * e = dyn_cast<UnaryOperator>(E)) {
      if (e->getOpcode() == UO_Extension) return expr(e->getSubExpr());
      if (e->getOpcode() == UO_AddrOf)
        if (auto * dr = dyn_cast<DeclRefExpr>(e->getSubExpr()->IgnoreParens()))
          if (e->getType()->isMemberPointerType()) {
            if (auto * f = dyn_cast<FieldDecl>(dr->getDecl()))
              return O{{"k", "MemPtr"}, {"field", fieldName(f)}, {"rec", record(f->getParent())}};
            if (auto * m = dyn_cast<CXXMethodDecl>(dr->getDecl())) return O{{"k", "MemPtr"}, {"f", fn(m)}};
          }
      return O{{"k", "Un"}, {"op", UnaryOperator::getOpcodeStr(e->getOpcode()).str()}, {"post", e->isPostfix()},
               {"e", expr(e->getSubExpr())}, {"loc", L}};
    }
    if (auto * e = dyn_cast<ConditionalOperator>(E))
      return O{{"k", "Cond"}, {"c", expr(e->getCond())}, {"a", expr(e->getTrueExpr())}, {"b", expr(e->getFalseExpr())}};
    if (auto * e = dyn_cast<ArraySubscriptExpr>(E))
      return O{{"k", "Sub"}, {"b", expr(e->getBase())}, {"i", expr(e->getIdx())}, {"loc", L}};
    if (auto * e = dyn_cast<CXXThrowExpr>(E)) {
      if (auto * s = e->getSubExpr()) rta(s->getType()->getAsCXXRecordDecl());
      return O{{"k", "Throw"}, {"e", expr(e->getSubExpr())}, {"loc", L}};
    }
    if (auto * e = dyn_cast<CXXNewExpr>(E)) {
      rta(e->getAllocatedType()->getAsCXXRecordDecl());
      return O{{"k", "New"}, {"at", type(e->getAllocatedType())}, {"array", e->isArray()},
               {"e", expr(e->getInitializer())}, {"placement", e->getNumPlacementArgs() > 0}};
    }
    if (auto * e = dyn_cast<CXXDeleteExpr>(E)) return O{{"k", "Delete"}, {"e", expr(e->getArgument())}};
    if (auto * e = dyn_cast<CXXTypeidExpr>(E)) {
      if (e->isTypeOperand()) return O{{"k", "Typeid"}, {"of", type(e->getTypeOperand(C))}};
      return O{{"k", "Typeid"}, {"e", expr(e->getExprOperand())}, {"poly", e->isPotentiallyEvaluated()}, {"of", type(e->getExprOperand()->getType())}};
    }
    if (auto * e = dyn_cast<StmtExpr>(E)) return O{{"k", "StmtExpr"}, {"b", stmt(e->getSubStmt())}};
    if (auto * e = dyn_cast<ArrayInitLoopExpr>(E))
      return O{{"k", "ArrCopy"}, {"e", expr(e->getCommonExpr()->getSourceExpr())}};
    if (auto * e = dyn_cast<CXXPseudoDestructorExpr>(E)) { (void)e; return O{{"k", "Nop"}}; }
    if (auto * e = dyn_cast<CXXFoldExpr>(E)) { (void)e; return bad("Fold", E->getExprLoc()); }
    if (auto * e = dyn_cast<CXXParenListInitExpr>(E)) { (void)e; return bad("ParenListInit", E->getExprLoc()); }
    return bad(E->getStmtClassName(), E->getExprLoc());
  }
  js::Value construct(const CXXConstructExpr * e, const std::string & L)
  {
    using O = js::Object;
    auto * K = e->getConstructor();
    rta(K->getParent());
    js::Array a;
    for (auto * x : e->arguments()) a.push_back(expr(x));
    return O{{"k", "Ctor"}, {"f", fn(K)}, {"rec", record(K->getParent())}, {"args", std::move(a)},
             {"zero", e->requiresZeroInitialization()}, {"list", e->isListInitialization()},
             {"sil", e->isStdInitListInitialization()}, {"elide", e->isElidable()}, {"loc", L}};
  }
  js::Value callExpr(const CallExpr * e, const std::string & L)
  {
    using O = js::Object;
    const Expr * cal = e->getCallee()->IgnoreParenImpCasts();
    if (isa<CXXPseudoDestructorExpr>(cal)) return O{{"k", "Nop"}};
    if (auto * mc = dyn_cast<CXXMemberCallExpr>(e)) {
      if (auto * me = dyn_cast<MemberExpr>(cal)) {
        auto * M = mc->getMethodDecl();
        bool virt = M->isVirtual() && !me->hasQualifier();
        O o{{"k", "Call"}, {"f", fn(M)}, {"virt", virt}, {"arrow", me->isArrow()},
            {"obj", expr(me->getBase())}, {"args", argList(e->arguments())}, {"loc", L}};
        return o;
      }
      if (auto * bo = dyn_cast<BinaryOperator>(cal))  // .* / ->*
        return O{{"k", "CallMemPtr"}, {"obj", expr(bo->getLHS())}, {"arrow", bo->getOpcode() == BO_PtrMemI},
                 {"fn", expr(bo->getRHS())}, {"args", argList(e->arguments())}, {"loc", L}};
      return bad("MemberCall", e->getExprLoc());
    }
    const FunctionDecl * F = e->getDirectCallee();
    if (auto * oc = dyn_cast<CXXOperatorCallExpr>(e)) {
      if (F)
        if (auto * M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic())
          return O{{"k", "Call"}, {"f", fn(M)}, {"virt", M->isVirtual()}, {"arrow", false},
                   {"obj", expr(oc->getArg(0))}, {"args", argList(e->arguments(), 1)}, {"loc", L}, {"oper", true}};
    }
    if (F)
      return O{{"k", "Call"}, {"f", fn(F)}, {"args", argList(e->arguments())}, {"loc", L}};
    return O{{"k", "CallPtr"}, {"fn", expr(e->getCallee())}, {"args", argList(e->arguments())}, {"loc", L}};
  }

  // ---------- statements
  js::Value stmt(const Stmt * St)
  {
    using O = js::Object;
    if (!St) return nullptr;
    auto L = loc(St->getBeginLoc());
    if (auto * s = dyn_cast<CompoundStmt>(St)) {
      js::Array b;
      for (auto * x : s->body()) b.push_back(stmt(x));
      return O{{"k", "Block"}, {"b", std::move(b)}};
    }
    if (auto * s = dyn_cast<Expr>(St)) return O{{"k", "Expr"}, {"e", expr(s)}, {"loc", L}};
    if (auto * s = dyn_cast<DeclStmt>(St)) {
      js::Array ds;
      for (auto * d : s->decls()) {
        if (auto * v = dyn_cast<VarDecl>(d)) {
          O o{{"v", var(v)}, {"t", type(v->getType())}, {"n", v->getNameAsString()}};
          if (v->isStaticLocal()) o["static"] = true;
          else if (v->isLocalVarDecl() && v->hasExternalStorage()) continue;
          else o["init"] = expr(v->getInit());
          if (auto * dd = dyn_cast<DecompositionDecl>(v)) {
            js::Array bs;
            for (auto * b : dd->bindings())
              if (auto * hv = b->getHoldingVar())
                bs.push_back(O{{"v", var(hv)}, {"t", type(hv->getType())}, {"init", expr(hv->getInit())}, {"n", b->getNameAsString()}});
            o["bindings"] = std::move(bs);
          }
          ds.push_back(std::move(o));
        }
      }
      return O{{"k", "Decl"}, {"d", std::move(ds)}, {"loc", L}};
    }
    if (auto * s = dyn_cast<IfStmt>(St)) {
      if (s->isConstexpr()) {
        Expr::EvalResult R;
        if (s->getCond()->EvaluateAsRValue(R, C, true) && R.Val.isInt()) {
          bool t = R.Val.getInt().getBoolValue();
          O o{{"k", "Block"}};
          js::Array b;
          if (s->getInit()) b.push_back(stmt(s->getInit()));
          auto * br = t ? s->getThen() : s->getElse();
          if (br) b.push_back(stmt(br));
          o["b"] = std::move(b);
          return o;
        }
      }
      O o{{"k", "If"}, {"loc", L}};
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (s->getConditionVariableDeclStmt()) o["cv"] = stmt(s->getConditionVariableDeclStmt());
      o["c"] = expr(s->getCond());
      o["a"] = stmt(s->getThen());
      o["b"] = stmt(s->getElse());
      return o;
    }
    if (auto * s = dyn_cast<WhileStmt>(St)) {
      O o{{"k", "For"}, {"c", expr(s->getCond())}, {"b", stmt(s->getBody())}, {"loc", L}};
      if (s->getConditionVariableDeclStmt()) o["cv"] = stmt(s->getConditionVariableDeclStmt());
      return o;
    }
    if (auto * s = dyn_cast<DoStmt>(St))
      return O{{"k", "Do"}, {"c", expr(s->getCond())}, {"b", stmt(s->getBody())}, {"loc", L}};
    if (auto * s = dyn_cast<ForStmt>(St)) {
      O o{{"k", "For"}, {"loc", L}};
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (s->getConditionVariableDeclStmt()) o["cv"] = stmt(s->getConditionVariableDeclStmt());
      if (s->getCond()) o["c"] = expr(s->getCond());
      if (s->getInc()) o["inc"] = expr(s->getInc());
      o["b"] = stmt(s->getBody());
      return o;
    }
    if (auto * s = dyn_cast<CXXForRangeStmt>(St)) {
      O o{{"k", "RangeFor"}, {"loc", L}};
      if (s->getInit()) o["init"] = stmt(s->getInit());
      o["range"] = stmt(s->getRangeStmt());
      o["begin"] = stmt(s->getBeginStmt());
      o["end"] = stmt(s->getEndStmt());
      o["c"] = expr(s->getCond());
      o["inc"] = expr(s->getInc());
      o["var"] = stmt(s->getLoopVarStmt());
      o["b"] = stmt(s->getBody());
      return o;
    }
    if (auto * s = dyn_cast<SwitchStmt>(St)) {
      O o{{"k", "Switch"}, {"loc", L}};
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (s->getConditionVariableDeclStmt()) o["cv"] = stmt(s->getConditionVariableDeclStmt());
      o["c"] = expr(s->getCond());
      o["b"] = stmt(s->getBody());
      return o;
    }
    if (auto * s = dyn_cast<CaseStmt>(St)) {
      O o{{"k", "Case"}};
      Expr::EvalResult R;
      if (s->getLHS()->EvaluateAsRValue(R, C) && R.Val.isInt()) o["v"] = llvm::toString(R.Val.getInt(), 10);
      if (s->getRHS() && s->getRHS()->EvaluateAsRValue(R, C) && R.Val.isInt()) o["hi"] = llvm::toString(R.Val.getInt(), 10);
      o["b"] = stmt(s->getSubStmt());
      return o;
    }
    if (auto * s = dyn_cast<DefaultStmt>(St)) return O{{"k", "Default"}, {"b", stmt(s->getSubStmt())}};
    if (isa<BreakStmt>(St)) return O{{"k", "Break"}};
    if (isa<ContinueStmt>(St)) return O{{"k", "Continue"}};
    if (auto * s = dyn_cast<ReturnStmt>(St)) return O{{"k", "Return"}, {"e", expr(s->getRetValue())}, {"loc", L}};
    if (isa<NullStmt>(St)) return O{{"k", "Block"}, {"b", js::Array{}}};
    if (auto * s = dyn_cast<LabelStmt>(St)) return O{{"k", "Label"}, {"n", s->getName()}, {"b", stmt(s->getSubStmt())}, {"loc", L}};
    if (auto * s = dyn_cast<GotoStmt>(St)) return O{{"k", "Goto"}, {"n", s->getLabel()->getNameAsString()}, {"loc", L}};
    if (auto * s = dyn_cast<AttributedStmt>(St)) return stmt(s->getSubStmt());
    if (auto * s = dyn_cast<CXXTryStmt>(St)) {
      js::Array hs;
      for (unsigned i = 0; i < s->getNumHandlers(); ++i) {
        auto * h = s->getHandler(i);
        O ho{{"b", stmt(h->getHandlerBlock())}};
        if (auto * v = h->getExceptionDecl()) {
          ho["v"] = var(v);
          ho["t"] = type(v->getType());
        }
        hs.push_back(std::move(ho));
      }
      return O{{"k", "Try"}, {"b", stmt(s->getTryBlock())}, {"h", std::move(hs)}, {"loc", L}};
    }
    return bad(St->getStmtClassName(), St->getBeginLoc());
  }

  // ---------- driver
  void run()
  {
    struct V : RecursiveASTVisitor<V> {
      Exporter & X;
      V(Exporter & X) : X(X) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool VisitFunctionDecl(FunctionDecl * F)
      {
        auto op = F->getOverloadedOperator();
        if ((op == OO_GreaterGreater || op == OO_LessLess) && F->getNumParams() == 2 && !F->isDependentContext() &&
            !X.isSys(F->getLocation()) && F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate)
          X.streamOps.emplace(F->getParamDecl(1)->getType().getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsOpaquePtr(), F);
        for (auto * a : F->specific_attrs<AnnotateAttr>())
          if (a->getAnnotation().starts_with("verif_"))
            if (!F->isDependentContext()) X.fn(F);
        return true;
      }
    } v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());
    while (!fnQueue.empty() || !varQueue.empty()) {
      if (!fnQueue.empty()) {
        auto * f = fnQueue.front();
        fnQueue.pop_front();
        emitFunction(f);
      } else {
        auto * x = varQueue.front();
        varQueue.pop_front();
        emitVar(x);
      }
    }
    // functions referenced only as overridden targets
    for (auto & kv : fnIds) {
      if (Functions[kv.second].kind() == js::Value::Null) {
        js::Object o{{"id", kv.second}, {"name", qname(kv.first)}, {"ref", true}, {"sys", isSys(kv.first->getLocation())}};
        js::Array oa;
        if (auto * m = dyn_cast<CXXMethodDecl>(kv.first)) {
          o["rec"] = record(m->getParent());
        }
        Functions[kv.second] = std::move(o);
      }
    }
    js::Object root{{"types", std::move(Types)}, {"records", std::move(Records)}, {"functions", std::move(Functions)},
                    {"vars", std::move(Vars)}, {"unsupported", unsupported}};
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << js::Value(std::move(root));
  }
};

struct Consumer : SemaConsumer {
  Sema * S = nullptr;
  void InitializeSema(Sema & s) override { S = &s; }
  void HandleTranslationUnit(ASTContext & C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter(C, S).run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char ** argv)
{
  // usage: export OUT.json FOLLOW.txt SRC -- args...
  OutPath = argv[1];
  {
    std::ifstream f(argv[2]);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty() && l[0] != '#') FollowSys.emplace_back(l);
  }
  std::string src = argv[3];
  std::vector<std::string> args(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
