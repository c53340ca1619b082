// cxxdump: dumps every function definition below a source root as JSON.
//
// This is the front end of the verifier: it is run on the current sources on
// every check.  Nothing is dropped: constructs without a JSON form are emitted
// as {"k":"unk",...} and make the verifier give up on that function.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    Dumper(ASTContext &ctx) : ctx(ctx), pp(ctx.getLangOpts()) {
        pp.SuppressTagKeyword = true;
        pp.Bool = true;
        pp.FullyQualifiedName = true;
        pp.SuppressInlineNamespace = true;
        pp.AnonymousTagLocations = false;
        pp.PrintCanonicalTypes = true;
        pp.SuppressUnwrittenScope = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    bool inRoot(SourceLocation loc) {
        auto &sm = ctx.getSourceManager();
        auto file = sm.getFilename(sm.getExpansionLoc(loc));
        return file.starts_with(g_root);
    }

    bool VisitFunctionDecl(FunctionDecl *fd) {
        if (!fd->doesThisDeclarationHaveABody()) {
            return true;
        }
        if (fd->isDependentContext() || fd->isTemplated()) {
            return true;
        }
        if (!inRoot(fd->getLocation())) {
            return true;
        }
        dumpFunc(fd);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isTemplated()) {
            return true;
        }
        if (!inRoot(rd->getLocation())) {
            return true;
        }
        recordInfo(rd);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *ed) {
        if (!inRoot(ed->getLocation()) || ed->isDependentContext()) {
            return true;
        }
        json::Array cs;
        for (auto *c : ed->enumerators()) {
            cs.push_back(json::Object{{"n", c->getNameAsString()}, {"v", llvm::toString(c->getInitVal(), 10)}});
        }
        enums.insert_or_assign(qname(ed), json::Value(json::Object{{"cs", std::move(cs)}}));
        return true;
    }

    void finish(llvm::raw_ostream &out) {
        json::Array ts;
        for (auto &t : types) {
            ts.push_back(std::move(t));
        }
        json::Array fs;
        for (auto &f : funcs) {
            fs.push_back(std::move(f));
        }
        json::Object rs;
        for (auto &r : records) {
            rs[r.first] = std::move(r.second);
        }
        json::Object es;
        for (auto &r : enums) {
            es[r.first] = std::move(r.second);
        }
        out << json::Value(json::Object{{"types", std::move(ts)},
                                        {"funcs", std::move(fs)},
                                        {"records", std::move(rs)},
                                        {"enums", std::move(es)}});
    }

  private:
    std::string qname(NamedDecl const *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp);
        os.flush();
        // remove unwritten/anonymous scopes
        for (;;) {
            auto p = s.find("(anonymous namespace)::");
            if (p == std::string::npos) {
                break;
            }
            s.erase(p, 23);
        }
        return s;
    }
    int lambdaId(CXXRecordDecl const *rd) {
        rd = rd->getCanonicalDecl();
        auto it = lambdas.find(rd);
        if (it == lambdas.end()) {
            it = lambdas.emplace(rd, static_cast<int>(lambdas.size())).first;
        }
        return it->second;
    }
    std::string recName(RecordDecl const *rd0) {
        if (auto *rd = dyn_cast<CXXRecordDecl>(rd0)) {
            if (rd->isLambda()) {
                return "lambda#" + std::to_string(lambdaId(rd));
            }
        }
        std::string s = ctx.getRecordType(rd0).getCanonicalType().getAsString(pp);
        for (;;) {
            auto p = s.find("(anonymous namespace)::");
            if (p == std::string::npos) {
                break;
            }
            s.erase(p, 23);
        }
        if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(rd0)) {
            // tell instantiations for different function objects apart
            for (auto const &arg : ts->getTemplateArgs().asArray()) {
                if (arg.getKind() != TemplateArgument::Type) {
                    continue;
                }
                auto *ard = arg.getAsType()->getAsCXXRecordDecl();
                auto p = s.find("(lambda)");
                if (ard != nullptr && ard->isLambda() && p != std::string::npos) {
                    s.replace(p, 8, recName(ard));
                }
            }
        }
        return s;
    }
    int declId(Decl const *d) {
        d = d->getCanonicalDecl();
        auto it = decls.find(d);
        if (it == decls.end()) {
            it = decls.emplace(d, static_cast<int>(decls.size()) + 1).first;
        }
        return it->second;
    }
    int type(QualType qt) {
        qt = qt.getCanonicalType();
        auto it = typeIds.find(qt.getAsOpaquePtr());
        if (it != typeIds.end()) {
            return it->second;
        }
        int id = static_cast<int>(types.size());
        typeIds[qt.getAsOpaquePtr()] = id;
        types.emplace_back(json::Object{});
        json::Object o;
        if (qt.isConstQualified()) {
            o["c"] = true;
        }
        Type const *t = qt.getTypePtr();
        if (auto *bt = dyn_cast<BuiltinType>(t)) {
            if (bt->getKind() == BuiltinType::Bool) {
                o["k"] = "bool";
            } else if (bt->isInteger()) {
                o["k"] = "int";
                o["w"] = static_cast<int>(ctx.getTypeSize(qt));
                o["s"] = bt->isSignedInteger();
            } else if (bt->isVoidType()) {
                o["k"] = "void";
            } else {
                o["k"] = "other";
            }
            o["n"] = qt.getUnqualifiedType().getAsString(pp);
        } else if (auto *rt = dyn_cast<ReferenceType>(t)) {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType>(t);
            o["t"] = type(rt->getPointeeType());
        } else if (auto *pt = dyn_cast<PointerType>(t)) {
            o["k"] = "ptr";
            o["t"] = type(pt->getPointeeType());
        } else if (auto *rt = dyn_cast<RecordType>(t)) {
            o["k"] = "rec";
            auto *rd = rt->getDecl();
            o["n"] = recName(rd);
            o["q"] = qname(rd);
            if (auto *crd = dyn_cast<CXXRecordDecl>(rd)) {
                if (crd->isLambda()) {
                    o["lambda"] = lambdaId(crd);
                }
                if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(crd)) {
                    o["args"] = targs(sp->getTemplateArgs());
                }
                if (crd->isCompleteDefinition() || crd->getDefinition() != nullptr) {
                    recordInfo(crd->getDefinition());
                }
            }
        } else if (auto *et = dyn_cast<EnumType>(t)) {
            o["k"] = "enum";
            o["n"] = qname(et->getDecl());
            o["u"] = type(et->getDecl()->getIntegerType());
        } else if (auto *at = dyn_cast<ConstantArrayType>(t)) {
            o["k"] = "arr";
            o["t"] = type(at->getElementType());
            o["len"] = static_cast<int64_t>(at->getSize().getZExtValue());
        } else if (isa<FunctionProtoType>(t)) {
            o["k"] = "fn";
            o["n"] = qt.getAsString(pp);
        } else {
            o["k"] = "other";
            o["n"] = qt.getAsString(pp);
        }
        types[id] = json::Value(std::move(o));
        return id;
    }
    json::Array targs(TemplateArgumentList const &l) {
        json::Array r;
        for (auto &a : l.asArray()) {
            targ(a, r);
        }
        return r;
    }
    void targ(TemplateArgument const &a, json::Array &r) {
        switch (a.getKind()) {
            case TemplateArgument::Type:
                r.push_back(json::Object{{"t", type(a.getAsType())}});
                break;
            case TemplateArgument::Integral:
                r.push_back(json::Object{{"v", llvm::toString(a.getAsIntegral(), 10)}});
                break;
            case TemplateArgument::Pack:
                for (auto &b : a.pack_elements()) {
                    targ(b, r);
                }
                break;
            default:
                r.push_back(json::Object{{"o", "other"}});
        }
    }
    void recordInfo(CXXRecordDecl const *rd) {
        if (rd == nullptr || rd->isDependentContext()) {
            return;
        }
        auto name = recName(rd);
        if (!recordsSeen.insert(name).second) {
            return;
        }
        if (!inRoot(rd->getLocation()) && !rd->isLambda()) {
            auto q = qname(rd);
            if (q != "std::pair") {
                // keep C structs (fields matter) but not library classes
                if (!rd->isCLike() || rd->isUnion() || rd->getNameAsString().rfind("__", 0) == 0) {
                    return;
                }
            }
        }
        json::Array fs;
        for (auto *f : rd->fields()) {
            json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}};
            if (f->isMutable()) {
                fo["mut"] = true;
            }
            fs.push_back(std::move(fo));
        }
        json::Array bs;
        for (auto &b : rd->bases()) {
            bs.push_back(type(b.getType()));
        }
        records.insert_or_assign(name, json::Value(json::Object{{"fields", std::move(fs)}, {"bases", std::move(bs)}}));
    }

    json::Object loc(SourceLocation l) {
        auto &sm = ctx.getSourceManager();
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l).str();
        if (f.rfind(g_root, 0) == 0) {
            f = f.substr(g_root.size());
        }
        return json::Object{{"f", f}, {"l", static_cast<int64_t>(sm.getExpansionLineNumber(l))}};
    }
    int64_t line(SourceLocation l) {
        return static_cast<int64_t>(ctx.getSourceManager().getExpansionLineNumber(l));
    }

    json::Object funcRef(FunctionDecl const *fd) {
        json::Object o;
        o["n"] = fname(fd);
        o["s"] = fd->getNameAsString();
        auto *def = fd;
        FunctionDecl const *d2 = nullptr;
        if (fd->hasBody(d2) && d2 != nullptr) {
            def = d2;
        }
        if (inRoot(def->getLocation())) {
            o["id"] = declId(def);
        }
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["rec"] = recName(md->getParent());
            if (md->isStatic()) {
                o["static"] = true;
            }
            if (md->isConst()) {
                o["const"] = true;
            }
            if (md->isVirtual()) {
                o["virt"] = true;
            }
            if (md->isDefaulted() || md->isImplicit()) {
                o["dflt"] = true;
            }
            if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
                if (cd->isCopyConstructor()) {
                    o["ck"] = "copy";
                } else if (cd->isMoveConstructor()) {
                    o["ck"] = "move";
                } else if (cd->isDefaultConstructor()) {
                    o["ck"] = "default";
                }
            }
            if (md->isCopyAssignmentOperator()) {
                o["ck"] = "copyassign";
            } else if (md->isMoveAssignmentOperator()) {
                o["ck"] = "moveassign";
            }
        }
        json::Array ps;
        for (auto *p : fd->parameters()) {
            ps.push_back(type(p->getType()));
        }
        o["ps"] = std::move(ps);
        o["ret"] = type(fd->getReturnType());
        if (fd->isNoReturn()) {
            o["noreturn"] = true;
        }
        if (auto *ta = fd->getTemplateSpecializationArgs()) {
            o["targs"] = targs(*ta);
        }
        return o;
    }
    std::string fname(FunctionDecl const *fd) {
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            return recName(md->getParent()) + "::" + fd->getNameAsString();
        }
        return qname(fd);
    }

    void dumpFunc(FunctionDecl *fd) {
        if (!funcsSeen.insert(fd->getCanonicalDecl()).second) {
            return;
        }
        json::Object o;
        o["id"] = declId(fd);
        o["n"] = fname(fd);
        o["s"] = fd->getNameAsString();
        o["loc"] = loc(fd->getLocation());
        o["ret"] = type(fd->getReturnType());
        if (auto *ta = fd->getTemplateSpecializationArgs()) {
            o["targs"] = targs(*ta);
        }
        json::Array ps;
        for (auto *p : fd->parameters()) {
            ps.push_back(
                json::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        }
        o["ps"] = std::move(ps);
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["rec"] = recName(md->getParent());
            o["const"] = md->isConst();
            o["virt"] = md->isVirtual();
            if (md->isStatic()) {
                o["static"] = true;
            }
            o["thist"] = type(ctx.getRecordType(md->getParent()));
            if (md->getParent()->isLambda()) {
                o["lambda"] = lambdaId(md->getParent());
            }
        }
        if (fd->isDefaulted() || fd->isImplicit()) {
            o["dflt"] = true;
        }
        if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
            o["ctor"] = true;
            json::Array is;
            for (auto *i : cd->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) {
                    io["f"] = i->getAnyMember()->getNameAsString();
                } else if (i->isBaseInitializer()) {
                    io["b"] = type(QualType(i->getBaseClass(), 0));
                } else {
                    io["d"] = true;
                }
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(fd)) {
            o["dtor"] = true;
        }
        o["body"] = stmt(fd->getBody());
        o["key"] = std::string(o["n"].getAsString()->str());
        funcs.push_back(json::Value(std::move(o)));
    }

    json::Object varDecl(VarDecl const *vd) {
        json::Object o;
        o["id"] = declId(vd);
        o["n"] = vd->getNameAsString();
        o["t"] = type(vd->getType());
        if (vd->isStaticLocal()) {
            o["static"] = true;
        }
        if (vd->hasInit()) {
            o["init"] = expr(vd->getInit());
            if (vd->getInitStyle() == VarDecl::ListInit) {
                o["list"] = true;
            }
        }
        if (auto *dd = dyn_cast<DecompositionDecl>(vd)) {
            json::Array bs;
            for (auto *b : dd->bindings()) {
                json::Object bo{{"id", declId(b)}, {"n", b->getNameAsString()}, {"t", type(b->getType())}};
                if (auto *hv = b->getHoldingVar()) {
                    bo["hold"] = varDecl(hv);
                } else {
                    bo["e"] = expr(b->getBinding());
                }
                bs.push_back(std::move(bo));
            }
            o["binds"] = std::move(bs);
        }
        return o;
    }

    json::Value stmt(Stmt const *s) {
        if (s == nullptr) {
            return json::Object{{"k", "null"}};
        }
        if (auto *e = dyn_cast<Expr>(s)) {
            return json::Object{{"k", "expr"}, {"e", expr(e)}, {"l", line(s->getBeginLoc())}};
        }
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto *c = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block";
            json::Array b;
            for (auto *x : c->body()) {
                b.push_back(stmt(x));
            }
            o["b"] = std::move(b);
        } else if (auto *d = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array b;
            for (auto *x : d->decls()) {
                if (auto *vd = dyn_cast<VarDecl>(x)) {
                    b.push_back(varDecl(vd));
                } else if (isa<TypedefNameDecl>(x) || isa<UsingDecl>(x) || isa<UsingDirectiveDecl>(x) ||
                           isa<StaticAssertDecl>(x) || isa<CXXRecordDecl>(x)) {
                } else {
                    b.push_back(json::Object{{"k", "unk"}, {"c", x->getDeclKindName()}});
                }
            }
            o["d"] = std::move(b);
        } else if (auto *i = dyn_cast<IfStmt>(s)) {
            if (i->isConstexpr()) {
                if (auto nd = i->getNondiscardedCase(ctx)) {
                    if (*nd == nullptr) {
                        return json::Object{{"k", "null"}};
                    }
                    return json::Object{{"k", "block"}, {"b", json::Array{stmt(*nd)}}};
                }
            }
            o["k"] = "if";
            if (i->getInit() != nullptr) {
                o["init"] = stmt(i->getInit());
            }
            if (i->getConditionVariable() != nullptr) {
                o["cv"] = varDecl(i->getConditionVariable());
            }
            o["c"] = expr(i->getCond());
            o["a"] = stmt(i->getThen());
            if (i->getElse() != nullptr) {
                o["b"] = stmt(i->getElse());
            }
        } else if (auto *w = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (w->getConditionVariable() != nullptr) {
                o["cv"] = varDecl(w->getConditionVariable());
            }
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
        } else if (auto *w = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
        } else if (auto *f = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            if (f->getInit() != nullptr) {
                o["init"] = stmt(f->getInit());
            }
            if (f->getConditionVariable() != nullptr) {
                o["cv"] = varDecl(f->getConditionVariable());
            }
            if (f->getCond() != nullptr) {
                o["c"] = expr(f->getCond());
            }
            if (f->getInc() != nullptr) {
                o["inc"] = expr(f->getInc());
            }
            o["b"] = stmt(f->getBody());
        } else if (auto *f = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "forrange";
            if (f->getInit() != nullptr) {
                o["init"] = stmt(f->getInit());
            }
            o["r"] = expr(f->getRangeInit());
            o["v"] = varDecl(f->getLoopVariable());
            o["b"] = stmt(f->getBody());
        } else if (auto *r = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "ret";
            if (r->getRetValue() != nullptr) {
                o["e"] = expr(r->getRetValue());
            }
        } else if (isa<BreakStmt>(s)) {
            o["k"] = "break";
        } else if (isa<ContinueStmt>(s)) {
            o["k"] = "continue";
        } else if (isa<NullStmt>(s)) {
            o["k"] = "null";
        } else if (auto *sw = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            if (sw->getInit() != nullptr) {
                o["init"] = stmt(sw->getInit());
            }
            if (sw->getConditionVariable() != nullptr) {
                o["cv"] = varDecl(sw->getConditionVariable());
            }
            o["c"] = expr(sw->getCond());
            o["b"] = stmt(sw->getBody());
        } else if (auto *cs = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            o["v"] = expr(cs->getLHS());
            if (cs->getRHS() != nullptr) {
                o["v2"] = expr(cs->getRHS());
            }
            o["b"] = stmt(cs->getSubStmt());
        } else if (auto *ds = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            o["b"] = stmt(ds->getSubStmt());
        } else if (auto *ts = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["b"] = stmt(ts->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < ts->getNumHandlers(); ++i) {
                auto *h = ts->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl() != nullptr) {
                    ho["v"] = varDecl(h->getExceptionDecl());
                }
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        } else if (auto *at = dyn_cast<AttributedStmt>(s)) {
            return stmt(at->getSubStmt());
        } else {
            o["k"] = "unk";
            o["c"] = s->getStmtClassName();
        }
        return o;
    }

    json::Value expr(Expr const *e) {
        if (e == nullptr) {
            return json::Object{{"k", "none"}};
        }
        // transparent wrappers
        if (auto *x = dyn_cast<ParenExpr>(e)) {
            return expr(x->getSubExpr());
        }
        if (auto *x = dyn_cast<FullExpr>(e)) {
            return expr(x->getSubExpr());
        }
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) {
            return expr(x->getSubExpr());
        }
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
            return expr(x->getReplacement());
        }
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
            return expr(x->getExpr());
        }
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
            return expr(x->getExpr());
        }
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            json::Object o{{"k", "stdil"}, {"e", expr(x->getSubExpr())}, {"t", type(e->getType())}};
            return o;
        }
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            json::Object o{{"k", "mat"}, {"e", expr(x->getSubExpr())}, {"t", type(e->getType())}};
            o["vc"] = e->isLValue() ? "l" : "x";
            return o;
        }
        if (auto *x = dyn_cast<ConstantExpr>(e)) {
            return expr(x->getSubExpr());
        }
        json::Object o;
        o["t"] = type(e->getType());
        o["vc"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
        o["l"] = line(e->getExprLoc());
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            o["v"] = llvm::toString(x->getValue(), 10, e->getType()->isSignedIntegerType());
        } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "int";
            o["v"] = std::to_string(x->getValue());
        } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "bool";
            o["v"] = x->getValue();
        } else if (auto *x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : "";
        } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            o["k"] = "nullptr";
        } else if (isa<PredefinedExpr>(e)) {
            o["k"] = "str";
            o["v"] = "";
        } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            o["k"] = "zero";
        } else if (isa<CXXThisExpr>(e)) {
            o["k"] = "this";
        } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            auto *d = x->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "enumc";
                o["n"] = ec->getNameAsString();
                o["v"] = llvm::toString(ec->getInitVal(), 10);
            } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fref";
                o["f"] = funcRef(fd);
            } else if (isa<VarDecl>(d) || isa<BindingDecl>(d)) {
                o["k"] = "var";
                o["id"] = declId(d);
                o["n"] = d->getNameAsString();
                if (auto *vd = dyn_cast<VarDecl>(d)) {
                    if (vd->hasGlobalStorage() && !vd->isStaticLocal()) {
                        o["glob"] = qname(vd);
                        if (inRoot(vd->getLocation()) && vd->getAnyInitializer() != nullptr &&
                            globalsSeen.insert(vd->getCanonicalDecl()).second) {
                            o["ginit"] = expr(vd->getAnyInitializer());
                        }
                    }
                    if (x->refersToEnclosingVariableOrCapture()) {
                        o["cap"] = true;
                    }
                }
            } else {
                o["k"] = "unk";
                o["c"] = d->getDeclKindName();
            }
        } else if (auto *x = dyn_cast<MemberExpr>(e)) {
            auto *d = x->getMemberDecl();
            if (auto *fd = dyn_cast<FieldDecl>(d)) {
                o["k"] = "mem";
                o["b"] = expr(x->getBase());
                o["f"] = fd->getNameAsString();
                o["arrow"] = x->isArrow();
            } else if (auto *md = dyn_cast<CXXMethodDecl>(d)) {
                o["k"] = "mref";
                o["b"] = expr(x->getBase());
                o["arrow"] = x->isArrow();
                o["f"] = funcRef(md);
            } else if (auto *vd = dyn_cast<VarDecl>(d)) {
                o["k"] = "var";
                o["id"] = declId(vd);
                o["n"] = vd->getNameAsString();
                o["glob"] = qname(vd);
            } else {
                o["k"] = "unk";
                o["c"] = d->getDeclKindName();
            }
        } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "mcall";
            auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
            if (me == nullptr || x->getMethodDecl() == nullptr) {
                o["k"] = "unk";
                o["c"] = "memptr-call";
            } else {
                o["f"] = funcRef(x->getMethodDecl());
                o["o"] = expr(me->getBase());
                o["arrow"] = me->isArrow();
                o["args"] = args(x->arguments());
            }
        } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto *fd = x->getDirectCallee();
            if (fd == nullptr) {
                o["k"] = "unk";
                o["c"] = "indirect-op";
            } else if (isa<CXXMethodDecl>(fd)) {
                o["k"] = "mcall";
                o["op"] = getOperatorSpelling(x->getOperator());
                o["f"] = funcRef(fd);
                o["o"] = expr(x->getArg(0));
                o["arrow"] = false;
                json::Array as;
                for (unsigned i = 1; i < x->getNumArgs(); ++i) {
                    as.push_back(expr(x->getArg(i)));
                }
                o["args"] = std::move(as);
            } else {
                o["k"] = "call";
                o["op"] = getOperatorSpelling(x->getOperator());
                o["f"] = funcRef(fd);
                o["args"] = args(x->arguments());
            }
        } else if (auto *x = dyn_cast<CallExpr>(e)) {
            if (auto *fd = x->getDirectCallee()) {
                o["k"] = "call";
                o["f"] = funcRef(fd);
                o["args"] = args(x->arguments());
            } else if (isa<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) {
                o["k"] = "void";
            } else {
                o["k"] = "icall";
                o["c"] = expr(x->getCallee());
                o["args"] = args(x->arguments());
            }
        } else if (auto *x = dyn_cast<CXXTemporaryObjectExpr>(e)) {
            ctor(o, x);
        } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            ctor(o, x);
        } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "unk";
            o["c"] = "inherited-ctor";
            (void)x;
        } else if (auto *x = dyn_cast<InitListExpr>(e)) {
            auto *sem = x->isSemanticForm() ? x : x->getSemanticForm();
            if (sem == nullptr) {
                sem = x;
            }
            o["k"] = "ilist";
            json::Array as;
            for (auto *i : sem->inits()) {
                as.push_back(expr(i));
            }
            o["args"] = std::move(as);
            if (sem->isTransparent()) {
                o["transp"] = true;
            }
        } else if (auto *x = dyn_cast<CastExpr>(e)) {
            switch (x->getCastKind()) {
                case CK_NoOp:
                case CK_LValueToRValue:
                case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                    if (x->getCastKind() == CK_NoOp && isa<ExplicitCastExpr>(x) && x->isGLValue()) {
                        // static_cast<T&&>(x) and the like
                        o["k"] = "cast";
                        o["ck"] = "noop";
                        o["e"] = expr(x->getSubExpr());
                        break;
                    }
                    if (x->getCastKind() == CK_LValueToRValue) {
                        o["k"] = "load";
                        o["e"] = expr(x->getSubExpr());
                        break;
                    }
                    return expr(x->getSubExpr());
                default:
                    o["k"] = "cast";
                    o["ck"] = x->getCastKindName();
                    o["e"] = expr(x->getSubExpr());
            }
        } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "cassign";
            o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).drop_back().str();
            o["ct"] = type(x->getComputationResultType());
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
        } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
        } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["a"] = expr(x->getSubExpr());
        } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
        } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "sub";
            o["a"] = expr(x->getBase());
            o["b"] = expr(x->getIdx());
        } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            o["id"] = lambdaId(x->getLambdaClass());
            json::Array cs;
            auto ii = x->capture_init_begin();
            for (auto const &c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) {
                    co["this"] = true;
                } else if (c.capturesVariable()) {
                    co["id"] = declId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["t"] = type(c.getCapturedVar()->getType());
                } else {
                    co["unk"] = true;
                }
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (ii != x->capture_init_end() && *ii != nullptr) {
                    co["init"] = expr(*ii);
                }
                ++ii;
                cs.push_back(std::move(co));
            }
            o["caps"] = std::move(cs);
            auto *op = x->getCallOperator();
            bool generic = x->isGenericLambda();
            o["generic"] = generic;
            if (op != nullptr && !generic) {
                o["fid"] = declId(op);
                dumpFunc(op);
            } else if (generic) {
                json::Array ss;
                if (auto *ft = op->getDescribedFunctionTemplate()) {
                    for (auto *spec : ft->specializations()) {
                        if (spec->doesThisDeclarationHaveABody()) {
                            ss.push_back(declId(spec));
                            dumpFunc(spec);
                        }
                    }
                }
                o["specs"] = std::move(ss);
            }
        } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (x->getSubExpr() != nullptr) {
                o["e"] = expr(x->getSubExpr());
            }
        } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["nt"] = type(x->getAllocatedType());
            if (x->getInitializer() != nullptr) {
                o["e"] = expr(x->getInitializer());
            }
        } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["e"] = expr(x->getArgument());
        } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, ctx)) {
                o["k"] = "int";
                o["v"] = llvm::toString(r.Val.getInt(), 10);
            } else {
                o["k"] = "unk";
                o["c"] = e->getStmtClassName();
            }
        } else if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
            o["k"] = "bool";
            o["v"] = x->getValue();
        } else if (isa<SourceLocExpr>(e)) {
            o["k"] = "str";
            o["v"] = "";
        } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "float";
            o["v"] = x->getValueAsApproximateDouble();
        } else {
            o["k"] = "unk";
            o["c"] = e->getStmtClassName();
        }
        return o;
    }
    void ctor(json::Object &o, CXXConstructExpr const *x) {
        o["k"] = "ctor";
        o["f"] = funcRef(x->getConstructor());
        o["args"] = args(x->arguments());
        if (x->isElidable()) {
            o["elid"] = true;
        }
        if (x->requiresZeroInitialization()) {
            o["zero"] = true;
        }
        if (x->isListInitialization()) {
            o["list"] = true;
        }
        if (x->isStdInitListInitialization()) {
            o["stdil"] = true;
        }
    }
    template <class R> json::Array args(R const &r) {
        json::Array as;
        for (auto *a : r) {
            as.push_back(expr(a));
        }
        return as;
    }

    ASTContext &ctx;
    PrintingPolicy pp;
    std::vector<json::Value> types;
    std::map<void *, int> typeIds;
    std::map<Decl const *, int> decls;
    std::map<CXXRecordDecl const *, int> lambdas;
    std::vector<json::Value> funcs;
    std::set<Decl const *> funcsSeen;
    std::set<Decl const *> globalsSeen;
    std::map<std::string, json::Value> records;
    std::set<std::string> recordsSeen;
    std::map<std::string, json::Value> enums;
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) {
            return;
        }
        Dumper d{ctx};
        d.TraverseDecl(ctx.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream out(g_out, ec);
        d.finish(out);
    }
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// usage: cxxdump ROOT OUT FILE -- flags
int main(int argc, char const **argv) {
    if (argc < 5) {
        llvm::errs() << "usage: cxxdump ROOT OUT FILE -- flags...\n";
        return 2;
    }
    g_root = argv[1];
    g_out = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
