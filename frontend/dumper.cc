// AST dumper: lowers the type-checked program (all function bodies reachable in
// the analysed files, including template instantiations and lambdas) to JSON.
//
// usage: dumper OUT.json PREFIX1[,PREFIX2..] FILE.cc -- clang flags
#include <cstdlib>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> prefixes;
static int64_t idBase = 0; // keeps the identifiers of translation units apart
std::string outFile;
static std::map<std::string, std::vector<std::string>> overlay;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    Dumper(ASTContext &ctx) : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getLangOpts()), names_(ctx) {
        pp_.SuppressTagKeyword = true;
        pp_.FullyQualifiedName = true;
        pp_.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation loc) {
        if (loc.isInvalid()) return "";
        loc = sm_.getExpansionLoc(loc);
        auto fe = sm_.getFileEntryRefForID(sm_.getFileID(loc));
        if (!fe) return "";
        llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
        return rp.empty() ? fe->getName().str() : rp.str();
    }
    bool interesting(SourceLocation loc) {
        auto f = fileOf(loc);
        for (auto &p : prefixes) {
            if (f.compare(0, p.size(), p) == 0) return true;
        }
        return false;
    }
    int64_t lineOf(SourceLocation loc) { return loc.isInvalid() ? 0 : sm_.getExpansionLineNumber(loc); }
    int64_t fileIdx(SourceLocation loc) {
        auto f = fileOf(loc);
        auto it = files_.find(f);
        if (it == files_.end()) {
            it = files_.emplace(f, static_cast<int64_t>(files_.size())).first;
            fileNames_.push_back(f);
        }
        return it->second;
    }
    Value L(SourceLocation loc) { return Array{fileIdx(loc), lineOf(loc)}; }

    std::string qual(NamedDecl const *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        printQual(os, d->getDeclContext());
        if (isa<CXXConstructorDecl>(d)) {
            os << "(ctor)";
        } else if (isa<CXXDestructorDecl>(d)) {
            os << "(dtor)";
        } else if (isa<CXXConversionDecl>(d)) {
            os << "(conv)";
        } else {
            os << d->getDeclName().getAsString();
        }
        return os.str();
    }
    // qualified context name without template arguments and without inline namespaces
    void printQual(llvm::raw_ostream &os, DeclContext const *dc) {
        if (dc == nullptr || dc->isTranslationUnit()) return;
        printQual(os, dc->getParent());
        if (auto const *ns = dyn_cast<NamespaceDecl>(dc)) {
            if (!ns->isInline() && !ns->isAnonymousNamespace()) os << ns->getName() << "::";
            return;
        }
        if (auto const *rd = dyn_cast<CXXRecordDecl>(dc)) {
            if (rd->isLambda()) {
                os << "(lambda)::";
            } else {
                os << rd->getName() << "::";
            }
            return;
        }
        if (auto const *fd = dyn_cast<FunctionDecl>(dc)) {
            os << fd->getNameAsString() << "()::";
        }
        if (auto const *ed = dyn_cast<EnumDecl>(dc)) {
            os << ed->getName() << "::";
        }
    }
    std::string typeStr(QualType t) {
        if (t.isNull()) return "?";
        t = t.getCanonicalType();
        if (t->isReferenceType()) {
            return std::string(t->isRValueReferenceType() ? "&&" : "&") + typeStr(t->getPointeeType());
        }
        std::string c = t.isConstQualified() ? "c:" : "";
        if (t->isPointerType()) return c + "*" + typeStr(t->getPointeeType());
        if (t->isVoidType()) return "void";
        if (t->isNullPtrType()) return "nullptr";
        if (auto const *bt = t->getAs<BuiltinType>()) {
            if (bt->getKind() == BuiltinType::Bool) return c + "b1";
            if (bt->isFloatingPoint()) return c + "f" + std::to_string(ctx_.getTypeSize(t));
            if (bt->isInteger()) {
                return c + (bt->isSignedInteger() ? "i" : "u") + std::to_string(ctx_.getTypeSize(t));
            }
            return "?";
        }
        if (auto const *et = t->getAs<EnumType>()) return c + "E:" + qual(et->getDecl());
        if (auto const *rt = t->getAs<RecordType>()) {
            auto const *rd = rt->getDecl();
            if (auto const *cr = dyn_cast<CXXRecordDecl>(rd); cr && cr->isLambda()) return c + "R:(lambda)";
            std::string s = c + "R:" + qual(rd);
            if (auto const *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                s += "<";
                bool first = true;
                int n = 0;
                for (auto const &a : sp->getTemplateArgs().asArray()) {
                    if (n++ >= 3) break;
                    std::string as = argStr(a);
                    if (!first) s += ",";
                    first = false;
                    s += as;
                }
                s += ">";
            }
            return s;
        }
        if (t->isArrayType()) return c + "[]" + typeStr(ctx_.getAsArrayType(t)->getElementType());
        if (t->isFunctionType()) return "fn";
        if (t->isMemberPointerType()) return "memptr";
        return "?";
    }
    std::string argStr(TemplateArgument const &a) {
        if (a.getKind() == TemplateArgument::Type) return typeStr(a.getAsType());
        if (a.getKind() == TemplateArgument::Integral) return std::to_string(a.getAsIntegral().getExtValue());
        if (a.getKind() == TemplateArgument::Pack) {
            std::string s;
            for (auto const &x : a.pack_elements()) s += (s.empty() ? "" : ",") + argStr(x);
            return s;
        }
        return "?";
    }
    std::string targs(FunctionDecl const *fd) {
        std::string s;
        if (auto const *ta = fd->getTemplateSpecializationArgs()) {
            for (auto const &a : ta->asArray()) s += (s.empty() ? "" : ",") + argStr(a);
        }
        return s;
    }
    std::string key(FunctionDecl const *fd) {
        fd = fd->getCanonicalDecl();
        auto it = keys_.find(fd);
        if (it != keys_.end()) return it->second;
        std::string s;
        if (isa<CXXConstructorDecl>(fd) || isa<CXXDestructorDecl>(fd)) {
            auto v = names_.getAllManglings(fd);
            s = v.empty() ? qual(fd) : v.front();
        } else {
            s = names_.getName(fd);
        }
        // lambdas and internal functions may collide across scopes
        if (auto const *md = dyn_cast<CXXMethodDecl>(fd); md && md->getParent()->isLambda()) {
            s += "@" + std::to_string(lineOf(fd->getLocation())) + ":" + std::to_string(reinterpret_cast<uintptr_t>(fd));
        }
        keys_[fd] = s;
        return s;
    }
    int64_t declId(ValueDecl const *d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto it = ids_.find(d);
        if (it != ids_.end()) return it->second;
        auto id = static_cast<int64_t>(ids_.size()) + 1 + idBase;
        ids_[d] = id;
        return id;
    }

    // ---- functions -------------------------------------------------------
    bool VisitFunctionDecl(FunctionDecl *fd) {
        if (!fd->isThisDeclarationADefinition() && !fd->isDefaulted()) {
            if (interesting(fd->getLocation()) && !fd->isDependentContext()) noteDecl(fd);
            return true;
        }
        if (fd->isDependentContext() || !fd->hasBody()) {
            return true;
        }
        if (!interesting(fd->getLocation())) return true;
        if (auto const *md = dyn_cast<CXXMethodDecl>(fd); md && md->getParent()->isLambda()) {
            // lambda bodies are dumped in place; generic lambdas need their instantiations
            if (!md->getParent()->isGenericLambda() && fd->getOverloadedOperator() == OO_Call) return true;
            if (fd->getOverloadedOperator() != OO_Call) return true;
        }
        if (!done_.insert(fd).second) return true;
        Object o;
        o["key"] = key(fd);
        o["name"] = qual(fd);
        o["targs"] = targs(fd);
        o["cls"] = "";
        o["loc"] = L(fd->getLocation());
        o["end"] = lineOf(fd->getBodyRBrace());
        o["ret"] = typeStr(fd->getReturnType());
        o["noexcept"] = isNoexcept(fd);
        o["externc"] = fd->isExternC();
        o["static"] = fd->getStorageClass() == SC_Static;
        o["internal"] = !fd->isExternallyVisible();
        o["implicit"] = fd->isImplicit() || fd->isDefaulted();
        if (auto const *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = typeStr(ctx_.getRecordType(md->getParent()));
            o["method"] = md->isInstance();
            o["const"] = md->isConst();
            o["virtual"] = md->isVirtual();
            o["access"] = static_cast<int64_t>(md->getAccess());
            o["lambda"] = md->getParent()->isLambda();
        }
        Array params;
        for (auto *p : fd->parameters()) {
            params.push_back(Object{{"id", declId(p)}, {"name", p->getNameAsString()}, {"type", typeStr(p->getType())}});
        }
        o["params"] = std::move(params);
        if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
            Array inits;
            for (auto *init : cd->inits()) {
                if (init->isAnyMemberInitializer()) {
                    auto *f = init->getAnyMember();
                    inits.push_back(Array{"field", f->getNameAsString(), typeStr(f->getType()), E(init->getInit()),
                                          L(init->isWritten() ? init->getSourceLocation() : f->getLocation())});
                } else if (init->isBaseInitializer()) {
                    inits.push_back(Array{"base", typeStr(QualType(init->getBaseClass(), 0)), "", E(init->getInit()),
                                          L(init->getSourceLocation())});
                } else {
                    inits.push_back(Array{"deleg", "", "", E(init->getInit()), L(init->getSourceLocation())});
                }
            }
            o["inits"] = std::move(inits);
        }
        bad_ = false;
        o["body"] = S(fd->getBody());
        o["bad"] = bad_ || fd->isInvalidDecl();
        functions_.push_back(std::move(o));
        return true;
    }
    bool isNoexcept(FunctionDecl const *fd) {
        auto const *fpt = fd->getType()->getAs<FunctionProtoType>();
        if (fpt == nullptr) return false;
        if (isUnresolvedExceptionSpec(fpt->getExceptionSpecType())) return false;
        return fpt->isNothrow();
    }
    void noteDecl(FunctionDecl *fd) {
        if (!declSeen_.insert(fd).second) return;
        Object o;
        o["name"] = qual(fd);
        o["key"] = key(fd);
        o["ret"] = typeStr(fd->getReturnType());
        o["externc"] = fd->isExternC();
        o["loc"] = L(fd->getLocation());
        Array params;
        for (auto *p : fd->parameters()) params.push_back(Array{p->getNameAsString(), typeStr(p->getType())});
        o["params"] = std::move(params);
        decls_.push_back(std::move(o));
    }
    bool VisitVarDecl(VarDecl *vd) {
        if (!interesting(vd->getLocation()) || vd->getDeclContext()->isDependentContext()) return true;
        if (isa<ParmVarDecl>(vd)) return true;
        if (!vd->hasGlobalStorage()) return true;
        if (vd->getType()->isDependentType()) return true;
        Object o;
        o["name"] = qual(vd);
        o["id"] = declId(vd);
        o["type"] = typeStr(vd->getType());
        o["local"] = vd->isStaticLocal();
        o["thread"] = vd->getTLSKind() != VarDecl::TLS_None;
        o["constexpr"] = vd->isConstexpr();
        o["const"] = vd->getType().isConstQualified();
        o["loc"] = L(vd->getLocation());
        if (vd->hasInit() && !vd->getInit()->isValueDependent()) {
            o["init"] = E(vd->getInit());
        }
        globals_.push_back(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || !interesting(rd->getLocation()) ||
            rd->isLambda())
            return true;
        Object o;
        o["name"] = typeStr(ctx_.getRecordType(rd));
        o["loc"] = L(rd->getLocation());
        Array bases;
        for (auto const &b : rd->bases()) bases.push_back(typeStr(b.getType()));
        o["bases"] = std::move(bases);
        Array fields;
        for (auto *f : rd->fields()) {
            Object fo;
            fo["name"] = f->getNameAsString();
            fo["type"] = typeStr(f->getType());
            fo["loc"] = L(f->getLocation());
            if (f->isBitField()) fo["bits"] = static_cast<int64_t>(f->getBitWidthValue(ctx_));
            if (f->hasInClassInitializer() && f->getInClassInitializer() != nullptr) {
                fo["init"] = E(f->getInClassInitializer());
            }
            fo["mutable"] = f->isMutable();
            fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        records_.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *ed) {
        if (!interesting(ed->getLocation()) || !ed->isThisDeclarationADefinition() || ed->isDependentContext())
            return true;
        Object o;
        o["name"] = qual(ed);
        o["loc"] = L(ed->getLocation());
        Array cs;
        for (auto *c : ed->enumerators()) {
            cs.push_back(Array{c->getNameAsString(), c->getInitVal().getExtValue()});
        }
        o["consts"] = std::move(cs);
        enums_.push_back(std::move(o));
        return true;
    }

    // ---- statements --------------------------------------------------------
    Value S(Stmt const *s) {
        if (s == nullptr) return nullptr;
        if (auto const *e = dyn_cast<Expr>(s)) return Array{"expr", E(e), L(e->getBeginLoc())};
        auto l = L(s->getBeginLoc());
        if (auto const *c = dyn_cast<CompoundStmt>(s)) {
            Array a;
            for (auto const *x : c->body()) a.push_back(S(x));
            return Array{"block", std::move(a), std::move(l)};
        }
        if (auto const *d = dyn_cast<DeclStmt>(s)) {
            Array a;
            for (auto const *x : d->decls()) {
                if (auto const *dd = dyn_cast<DecompositionDecl>(x)) {
                    Array b;
                    for (auto const *bd : dd->bindings()) {
                        Value hv = nullptr;
                        if (auto *h = bd->getHoldingVar()) {
                            b.push_back(Object{{"id", declId(bd)}, {"hid", declId(h)}, {"name", bd->getNameAsString()},
                                               {"type", typeStr(h->getType())}, {"tuple", true}});
                        } else {
                            Object bo{{"id", declId(bd)}, {"name", bd->getNameAsString()},
                                      {"type", typeStr(bd->getType())}, {"tuple", false}};
                            if (auto const *me = dyn_cast_or_null<MemberExpr>(bd->getBinding())) {
                                bo["field"] = me->getMemberDecl()->getNameAsString();
                            }
                            b.push_back(std::move(bo));
                        }
                    }
                    a.push_back(Array{"decomp", declId(dd), typeStr(dd->getType()), dd->hasInit() ? E(dd->getInit()) : Value(nullptr),
                                      std::move(b)});
                } else if (auto const *vd = dyn_cast<VarDecl>(x)) {
                    a.push_back(Array{"var", declId(vd), vd->getNameAsString(), typeStr(vd->getType()),
                                      vd->hasInit() ? E(vd->getInit()) : Value(nullptr),
                                      vd->isStaticLocal() ? 1 : 0});
                }
            }
            return Array{"decl", std::move(a), std::move(l)};
        }
        if (auto const *i = dyn_cast<IfStmt>(s)) {
            if (i->isConstexpr()) {
                if (auto nd = i->getNondiscardedCase(ctx_)) {
                    if (*nd == nullptr) return Array{"block", Array{}, std::move(l)};
                    return S(*nd);
                }
            }
            return Array{"if", i->getInit() ? S(i->getInit()) : Value(nullptr),
                         i->getConditionVariableDeclStmt() ? S(i->getConditionVariableDeclStmt()) : Value(nullptr),
                         E(i->getCond()), S(i->getThen()), S(i->getElse()), std::move(l)};
        }
        if (auto const *f = dyn_cast<ForStmt>(s)) {
            return Array{"for", S(f->getInit()), f->getCond() ? E(f->getCond()) : Value(nullptr),
                         f->getInc() ? E(f->getInc()) : Value(nullptr), S(f->getBody()), std::move(l)};
        }
        if (auto const *w = dyn_cast<WhileStmt>(s)) {
            return Array{"while", w->getConditionVariableDeclStmt() ? S(w->getConditionVariableDeclStmt()) : Value(nullptr),
                         E(w->getCond()), S(w->getBody()), std::move(l)};
        }
        if (auto const *d = dyn_cast<DoStmt>(s)) {
            return Array{"do", S(d->getBody()), E(d->getCond()), std::move(l)};
        }
        if (auto const *r = dyn_cast<CXXForRangeStmt>(s)) {
            Value var = nullptr;
            if (auto const *ds = r->getLoopVarStmt()) var = S(ds);
            Expr const *range = r->getRangeInit();
            return Array{"range", std::move(var), range ? E(range) : Value(nullptr),
                         range ? typeStr(range->getType()) : "?", S(r->getBody()), std::move(l)};
        }
        if (auto const *sw = dyn_cast<SwitchStmt>(s)) {
            return Array{"switch", E(sw->getCond()), S(sw->getBody()), std::move(l)};
        }
        if (auto const *c = dyn_cast<CaseStmt>(s)) {
            return Array{"case", E(c->getLHS()), S(c->getSubStmt()), std::move(l)};
        }
        if (auto const *d = dyn_cast<DefaultStmt>(s)) return Array{"default", S(d->getSubStmt()), std::move(l)};
        if (auto const *r = dyn_cast<ReturnStmt>(s)) {
            return Array{"return", r->getRetValue() ? E(r->getRetValue()) : Value(nullptr), std::move(l)};
        }
        if (isa<BreakStmt>(s)) return Array{"break", std::move(l)};
        if (isa<ContinueStmt>(s)) return Array{"continue", std::move(l)};
        if (isa<NullStmt>(s)) return Array{"block", Array{}, std::move(l)};
        if (auto const *t = dyn_cast<CXXTryStmt>(s)) {
            Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto const *h = t->getHandler(i);
                hs.push_back(Array{h->getExceptionDecl() ? typeStr(h->getCaughtType()) : "...", S(h->getHandlerBlock())});
            }
            return Array{"try", S(t->getTryBlock()), std::move(hs), std::move(l)};
        }
        if (auto const *a = dyn_cast<AttributedStmt>(s)) return S(a->getSubStmt());
        if (auto const *lb = dyn_cast<LabelStmt>(s)) return Array{"label", S(lb->getSubStmt()), std::move(l)};
        bad_ = true;
        return Array{"unknown", s->getStmtClassName(), std::move(l)};
    }

    // ---- expressions -------------------------------------------------------
    Value calleeInfo(FunctionDecl const *fd) {
        Object o;
        o["name"] = qual(fd);
        o["key"] = key(fd);
        auto ta = targs(fd);
        if (!ta.empty()) o["targs"] = ta;
        if (auto const *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["method"] = md->isInstance();
            o["const"] = md->isConst();
            o["virtual"] = md->isVirtual();
            o["cls"] = typeStr(ctx_.getRecordType(md->getParent()));
        }
        o["ret"] = typeStr(fd->getReturnType());
        Array ps;
        for (auto const *p : fd->parameters()) ps.push_back(typeStr(p->getType()));
        o["ptypes"] = std::move(ps);
        o["repo"] = interesting(fd->getLocation());
        o["noexcept"] = isNoexcept(fd);
        return o;
    }
    Array args(CallExpr const *c, unsigned from = 0) {
        Array a;
        for (unsigned i = from; i < c->getNumArgs(); ++i) a.push_back(E(c->getArg(i)));
        return a;
    }
    bool isAssertFail(Expr const *e) {
        e = e->IgnoreParenCasts();
        if (auto const *c = dyn_cast<CallExpr>(e)) {
            if (auto const *fd = c->getDirectCallee()) return fd->getNameAsString() == "__assert_fail";
        }
        return false;
    }
    Value E(Expr const *e) {
        if (e == nullptr) return nullptr;
        // strip
        for (;;) {
            if (auto const *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto const *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto const *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto const *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto const *x = dyn_cast<GenericSelectionExpr>(e)) { e = x->getResultExpr(); continue; }
            break;
        }
        auto t = e->getType();
        // constant folding
        if (e->isPRValue() && !e->isValueDependent() && !e->isTypeDependent() && !e->containsErrors()) {
            if (t->isIntegralOrEnumerationType()) {
                Expr::EvalResult r;
                if (e->EvaluateAsRValue(r, ctx_) && !r.HasSideEffects && r.Val.isInt()) {
                    auto const &v = r.Val.getInt();
                    if (t->isBooleanType()) return Array{"bool", v.getBoolValue()};
                    llvm::SmallString<32> str;
                    v.toString(str, 10);
                    return Array{"int", std::string(str), typeStr(t)};
                }
            }
            if (t->isFloatingType()) {
                Expr::EvalResult r;
                if (e->EvaluateAsRValue(r, ctx_) && !r.HasSideEffects && r.Val.isFloat()) {
                    llvm::SmallString<32> str;
                    r.Val.getFloat().toString(str);
                    return Array{"flt", std::string(str)};
                }
            }
        }
        auto l = L(e->getExprLoc());
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Array{"null"};
        if (auto const *x = dyn_cast<StringLiteral>(e)) {
            return Array{"str", x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string("?")};
        }
        if (auto const *x = dyn_cast<PredefinedExpr>(e)) return Array{"str", "__func__"};
        if (isa<CXXThisExpr>(e)) return Array{"this"};
        if (auto const *x = dyn_cast<MaterializeTemporaryExpr>(e)) return Array{"tmp", E(x->getSubExpr()), typeStr(t)};
        if (auto const *x = dyn_cast<DeclRefExpr>(e)) {
            auto const *d = x->getDecl();
            if (auto const *fd = dyn_cast<FunctionDecl>(d)) return Array{"fn", calleeInfo(fd)};
            if (auto const *vd = dyn_cast<VarDecl>(d)) {
                if (vd->hasGlobalStorage()) {
                    return Array{"glob", qual(vd), typeStr(t), declId(vd), std::move(l)};
                }
                return Array{"var", declId(vd), vd->getNameAsString(), typeStr(vd->getType())};
            }
            if (auto const *bd = dyn_cast<BindingDecl>(d)) {
                return Array{"var", declId(bd), bd->getNameAsString(), typeStr(bd->getType())};
            }
            if (auto const *ec = dyn_cast<EnumConstantDecl>(d)) {
                return Array{"int", std::to_string(ec->getInitVal().getExtValue()), typeStr(t)};
            }
            return Array{"opaque", "declref"};
        }
        if (auto const *x = dyn_cast<MemberExpr>(e)) {
            auto const *d = x->getMemberDecl();
            if (auto const *fd = dyn_cast<FieldDecl>(d)) {
                std::string nm = fd->getNameAsString();
                if (nm.empty()) {
                    // anonymous union/struct member: transparent
                    return Array{"anon", E(x->getBase()), x->isArrow()};
                }
                return Array{"mem", E(x->getBase()), nm, x->isArrow(), typeStr(t), qual(cast<NamedDecl>(fd->getParent())), std::move(l)};
            }
            if (auto const *vd = dyn_cast<VarDecl>(d)) return Array{"glob", qual(vd), typeStr(t), declId(vd), std::move(l)};
            if (auto const *ec = dyn_cast<EnumConstantDecl>(d)) {
                return Array{"int", std::to_string(ec->getInitVal().getExtValue()), typeStr(t)};
            }
            return Array{"opaque", "member"};
        }
        if (auto const *x = dyn_cast<CastExpr>(e)) {
            auto k = x->getCastKind();
            auto const *sub = x->getSubExpr();
            bool expl = isa<ExplicitCastExpr>(e);
            switch (k) {
                case CK_NoOp:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_FunctionToPointerDecay:
                case CK_ArrayToPointerDecay:
                case CK_BitCast:
                case CK_LValueBitCast:
                case CK_BuiltinFnToFnPtr:
                case CK_MemberPointerToBoolean:
                    return E(sub);
                case CK_UncheckedDerivedToBase:
                case CK_DerivedToBase:
                case CK_BaseToDerived:
                case CK_Dynamic:
                    return Array{"up", E(sub), typeStr(t)};
                case CK_LValueToRValue:
                    return Array{"ld", E(sub), typeStr(t)};
                case CK_ToVoid:
                    return Array{"void", E(sub)};
                case CK_NullToPointer:
                    return Array{"null"};
                case CK_IntegralToBoolean:
                case CK_FloatingToBoolean:
                case CK_PointerToBoolean:
                    return Array{"tobool", E(sub), typeStr(sub->getType())};
                case CK_IntegralCast:
                case CK_BooleanToSignedIntegral:
                    return Array{"icast", E(sub), typeStr(sub->getType()), typeStr(t), expl, std::move(l)};
                case CK_IntegralToFloating:
                    return Array{"i2f", E(sub), typeStr(sub->getType()), typeStr(t), expl, std::move(l)};
                case CK_FloatingToIntegral:
                    return Array{"f2i", E(sub), typeStr(sub->getType()), typeStr(t), expl, std::move(l)};
                case CK_FloatingCast:
                    return Array{"fcast", E(sub), typeStr(sub->getType()), typeStr(t), expl, std::move(l)};
                default:
                    return Array{"cast", x->getCastKindName(), E(sub), typeStr(t)};
            }
        }
        if (auto const *x = dyn_cast<UnaryOperator>(e)) {
            if (x->getOpcode() == UO_AddrOf) {
                if (auto const *dr = dyn_cast<DeclRefExpr>(x->getSubExpr()->IgnoreParens())) {
                    if (auto const *fd = dyn_cast<FieldDecl>(dr->getDecl())) {
                        return Array{"memptr", fd->getNameAsString(), typeStr(t), qual(cast<NamedDecl>(fd->getParent())), typeStr(fd->getType())};
                    }
                }
            }
            return Array{"un", UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : ""),
                         E(x->getSubExpr()), typeStr(t), std::move(l)};
        }
        if (auto const *x = dyn_cast<CompoundAssignOperator>(e)) {
            auto op = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            return Array{"opassign", op, E(x->getLHS()), E(x->getRHS()), typeStr(t), typeStr(x->getComputationLHSType()), std::move(l)};
        }
        if (auto const *x = dyn_cast<BinaryOperator>(e)) {
            auto op = x->getOpcodeStr().str();
            if (x->getOpcode() == BO_Assign) {
                return Array{"assign", E(x->getLHS()), E(x->getRHS()), typeStr(t), std::move(l)};
            }
            return Array{"bin", op, E(x->getLHS()), E(x->getRHS()), typeStr(t), typeStr(x->getLHS()->getType()), std::move(l)};
        }
        if (auto const *x = dyn_cast<ConditionalOperator>(e)) {
            if (isAssertFail(x->getFalseExpr())) return Array{"assert", E(x->getCond()), std::move(l)};
            return Array{"cond", E(x->getCond()), E(x->getTrueExpr()), E(x->getFalseExpr()), std::move(l), typeStr(t)};
        }
        if (auto const *x = dyn_cast<ArraySubscriptExpr>(e)) {
            return Array{"idx", E(x->getBase()), E(x->getIdx()), std::move(l)};
        }
        if (auto const *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto const *fd = x->getDirectCallee();
            if (fd == nullptr) { return Array{"opaque", "opcall"}; }
            return Array{"opcall", getOperatorSpelling(x->getOperator()), calleeInfo(fd), args(x), std::move(l), typeStr(t)};
        }
        if (auto const *x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto const *md = x->getMethodDecl();
            auto const *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
            if (md == nullptr || me == nullptr) {
                if (isa<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) return Array{"nop"};
                return Array{"opaque", "memptrcall"};
            }
            return Array{"mcall", calleeInfo(md), E(x->getImplicitObjectArgument()), me->isArrow(), args(x), std::move(l), typeStr(t)};
        }
        if (auto const *x = dyn_cast<CallExpr>(e)) {
            if (isa<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) return Array{"nop"};
            auto const *fd = x->getDirectCallee();
            if (fd != nullptr) {
                if (fd->getNameAsString() == "__assert_fail") return Array{"assertfail"};
                return Array{"call", calleeInfo(fd), args(x), std::move(l), typeStr(t)};
            }
            return Array{"icall", E(x->getCallee()), args(x), std::move(l), typeStr(t)};
        }
        if (auto const *x = dyn_cast<CXXConstructExpr>(e)) {
            Array a;
            for (auto const *y : x->arguments()) a.push_back(E(y));
            auto const *cd = x->getConstructor();
            return Array{"ctor", typeStr(t), calleeInfo(cd), std::move(a), std::move(l),
                         cd->isCopyOrMoveConstructor() ? 1 : 0, cd->isImplicit() || cd->isDefaulted() ? 1 : 0};
        }
        if (auto const *x = dyn_cast<InitListExpr>(e)) {
            if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            // a reference bound to an object
            if (x->isGLValue() && x->getNumInits() == 1) return E(x->getInit(0));
            Array a;
            if (auto const *rd = t->getAsCXXRecordDecl()) {
                unsigned i = 0;
                if (x->getInitializedFieldInUnion() != nullptr) {
                    auto const *f = x->getInitializedFieldInUnion();
                    if (x->getNumInits() > 0) a.push_back(Array{f->getNameAsString(), E(x->getInit(0))});
                } else {
                    if (auto const *cr = dyn_cast<CXXRecordDecl>(rd)) {
                        for (auto const &b : cr->bases()) {
                            if (i < x->getNumInits()) a.push_back(Array{"(base)", E(x->getInit(i++))});
                            static_cast<void>(b);
                        }
                    }
                    for (auto const *f : rd->fields()) {
                        if (f->isUnnamedBitfield()) continue;
                        if (i < x->getNumInits()) a.push_back(Array{f->getNameAsString(), E(x->getInit(i++))});
                    }
                }
            } else {
                for (unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(Array{"", E(x->getInit(i))});
            }
            return Array{"init", typeStr(t), std::move(a), std::move(l)};
        }
        if (auto const *x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
        if (auto const *x = dyn_cast<LambdaExpr>(e)) {
            Array ps;
            auto const *md = x->getCallOperator();
            for (auto const *p : md->parameters()) {
                ps.push_back(Object{{"id", declId(p)}, {"name", p->getNameAsString()}, {"type", typeStr(p->getType())}});
            }
            Array caps;
            auto ci = x->capture_init_begin();
            for (auto const &c : x->captures()) {
                if (c.capturesVariable()) {
                    auto const *v = c.getCapturedVar();
                    caps.push_back(Array{declId(v), v->getNameAsString(), c.getCaptureKind() == LCK_ByRef,
                                         x->isInitCapture(&c) && isa<VarDecl>(v) ? E(cast<VarDecl>(v)->getInit()) : Value(nullptr)});
                } else if (c.capturesThis()) {
                    caps.push_back(Array{0, "this", true, nullptr});
                }
                ++ci;
            }
            Value body = nullptr;
            Array specs;
            if (!md->getParent()->isGenericLambda()) {
                body = S(x->getBody());
            } else if (auto *ft = x->getDependentCallOperator()) {
                for (auto *sp : ft->specializations()) {
                    if (!sp->getBody()) continue;
                    Array sps;
                    for (auto const *p : sp->parameters()) {
                        sps.push_back(Object{{"id", declId(p)}, {"name", p->getNameAsString()}, {"type", typeStr(p->getType())}});
                    }
                    specs.push_back(Array{std::move(sps), S(sp->getBody())});
                }
            }
            return Array{"lambda", std::move(ps), std::move(body), std::move(caps), key(md), std::move(l), std::move(specs)};
        }
        if (auto const *x = dyn_cast<CXXThrowExpr>(e)) {
            return Array{"throw", x->getSubExpr() ? E(x->getSubExpr()) : Value(nullptr),
                         x->getSubExpr() ? typeStr(x->getSubExpr()->getType()) : "", std::move(l)};
        }
        if (auto const *x = dyn_cast<CXXNewExpr>(e)) {
            return Array{"new", typeStr(x->getAllocatedType()), x->getInitializer() ? E(x->getInitializer()) : Value(nullptr), std::move(l)};
        }
        if (auto const *x = dyn_cast<CXXDeleteExpr>(e)) return Array{"delete", E(x->getArgument()), std::move(l)};
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return Array{"zero", typeStr(t)};
        if (auto const *x = dyn_cast<CXXNoexceptExpr>(e)) return Array{"bool", x->getValue()};
        if (auto const *x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
        if (auto const *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return Array{"opaque", "inh"};
        if (isa<RecoveryExpr>(e)) bad_ = true;
        return Array{"opaque", e->getStmtClassName()};
    }

    void finish(bool errors) {
        Object root;
        root["errors"] = errors;
        root["functions"] = std::move(functions_);
        root["decls"] = std::move(decls_);
        root["globals"] = std::move(globals_);
        root["records"] = std::move(records_);
        root["enums"] = std::move(enums_);
        Array fs;
        for (auto &f : fileNames_) fs.push_back(f);
        root["files"] = std::move(fs);
        std::error_code ec;
        llvm::raw_fd_ostream os(outFile, ec);
        os << Value(std::move(root));
    }

  private:
    ASTContext &ctx_;
    SourceManager &sm_;
    PrintingPolicy pp_;
    ASTNameGenerator names_;
    std::map<FunctionDecl const *, std::string> keys_;
    std::map<ValueDecl const *, int64_t> ids_;
    std::map<std::string, int64_t> files_;
    std::vector<std::string> fileNames_;
    std::set<FunctionDecl const *> done_;
    std::set<FunctionDecl const *> declSeen_;
    Array functions_, decls_, globals_, records_, enums_;
    bool bad_{false};
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &ctx) override {
        Dumper d(ctx);
        d.TraverseDecl(ctx.getTranslationUnitDecl());
        d.finish(ctx.getDiagnostics().hasErrorOccurred());
    }
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    outFile = argv[1];
    if (auto const *b = std::getenv("DUMP_BASE")) idBase = std::atoll(b);
    std::string p = argv[2];
    for (size_t i = 0; i <= p.size();) {
        auto j = p.find(',', i);
        if (j == std::string::npos) j = p.size();
        prefixes.push_back(p.substr(i, j - i));
        i = j + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.emplace_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    struct Factory : tooling::FrontendActionFactory {
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
    } factory;
    int rc = tool.run(&factory);
    return rc;
}
