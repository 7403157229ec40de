// dndsx: dump the type-checked program of one translation unit as JSON.
//   dndsx OUT.json SOURCE ROOT[:ROOT...] -- <clang flags>
// Function bodies outside the ROOT prefixes are skipped while parsing.
#include <llvm/Support/VirtualFileSystem.h>
#include <llvm/Support/MemoryBuffer.h>
#include "clang/AST/DeclFriend.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/Initialization.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclOpenMP.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::vector<std::string> Roots;
static std::string OutPath;

struct W // tiny JSON writer
{
    std::string s;
    void str(llvm::StringRef v)
    {
        s += '"';
        for (unsigned char c : v)
        {
            if (c == '"' || c == '\\')
            {
                s += '\\';
                s += c;
            }
            else if (c < 0x20 || c >= 0x7f)
            {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                s += b;
            }
            else
                s += c;
        }
        s += '"';
    }
    void comma()
    {
        if (!s.empty() && s.back() != '{' && s.back() != '[' && s.back() != ':' && s.back() != ',')
            s += ',';
    }
    void key(const char *k)
    {
        comma();
        s += '"';
        s += k;
        s += "\":";
    }
    void num(long long v) { s += std::to_string(v); }
    void kv(const char *k, llvm::StringRef v) { key(k), str(v); }
    void kn(const char *k, long long v) { key(k), num(v); }
};

struct Dumper
{
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    W w;
    std::map<std::string, int> files, types, fnIdx;
    std::vector<std::string> fileV, typeV, fnV;
    llvm::DenseMap<const void *, int> vars;
    std::vector<std::string> varV;
    llvm::DenseMap<const Decl *, int> fnCache;
    llvm::DenseMap<const void *, int> typeCache;
    std::set<const Decl *> doneFn, doneRec;
    std::vector<const FunctionDecl *> queue;
    std::string fnsOut, recOut, globOut, enumOut;
    const FunctionDecl *cur = nullptr;
    int curFile = -1;
    int nFns = 0;

    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = true;
        PP.Bool = true;
        PP.SuppressInlineNamespace = true;
        PP.SuppressDefaultTemplateArgs = false;
    }
    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        return SM.getFilename(L).str();
    }
    static bool inRoots(llvm::StringRef f)
    {
        for (auto &r : Roots)
            if (f.startswith(r))
                return true;
        return false;
    }
    llvm::DenseMap<FileID, int> rootCache;
    bool inRepo(SourceLocation L)
    {
        if (L.isInvalid())
            return false;
        L = SM.getExpansionLoc(L);
        FileID F = SM.getFileID(L);
        auto it = rootCache.find(F);
        if (it != rootCache.end())
            return it->second;
        bool r = inRoots(SM.getFilename(L));
        rootCache[F] = r;
        return r;
    }
    bool inRepo(const Decl *D) { return inRepo(D->getLocation()); }
    int fileId(SourceLocation L)
    {
        auto f = fileOf(L);
        auto it = files.find(f);
        if (it != files.end())
            return it->second;
        int i = fileV.size();
        files[f] = i;
        fileV.push_back(f);
        return i;
    }
    int line(SourceLocation L) { return L.isValid() ? SM.getExpansionLineNumber(L) : 0; }
    int col(SourceLocation L) { return L.isValid() ? SM.getExpansionColumnNumber(L) : 0; }
    int typeId(QualType T)
    {
        if (T.isNull())
            return -1;
        T = T.getCanonicalType();
        auto p = T.getAsOpaquePtr();
        auto it0 = typeCache.find(p);
        if (it0 != typeCache.end())
            return it0->second;
        std::string s = T.getAsString(PP);
        auto it = types.find(s);
        int i;
        if (it != types.end())
            i = it->second;
        else
        {
            i = typeV.size();
            types[s] = i;
            typeV.push_back(s);
        }
        typeCache[p] = i;
        return i;
    }
    // qualified name without template arguments
    std::string qname(const NamedDecl *D)
    {
        std::string n;
        if (auto *ctor = dyn_cast<CXXConstructorDecl>(D))
            n = ctor->getParent()->getNameAsString();
        else if (auto *dtor = dyn_cast<CXXDestructorDecl>(D))
            n = "~" + dtor->getParent()->getNameAsString();
        else if (isa<CXXConversionDecl>(D))
            n = "operator conv";
        else
            n = D->getDeclName().getAsString();
        if (n.empty())
            n = "(anon)";
        const DeclContext *dc = D->getDeclContext();
        while (dc && !dc->isTranslationUnit())
        {
            if (auto *ns = dyn_cast<NamespaceDecl>(dc))
            {
                if (!ns->isInline() && !ns->isAnonymousNamespace())
                    n = ns->getNameAsString() + "::" + n;
            }
            else if (auto *r = dyn_cast<CXXRecordDecl>(dc))
            {
                if (r->isLambda())
                    n = "(lambda)::" + n;
                else
                    n = r->getNameAsString() + "::" + n;
            }
            else if (auto *nd = dyn_cast<FunctionDecl>(dc))
            {
                n = nd->getNameAsString() + "()::" + n;
            }
            else if (auto *nd = dyn_cast<NamedDecl>(dc))
            {
                if (isa<EnumDecl>(dc) && !cast<EnumDecl>(dc)->isScoped())
                    ;
                else
                    n = nd->getNameAsString() + "::" + n;
            }
            dc = dc->getParent();
        }
        return n;
    }
    std::string fullKey(const FunctionDecl *F)
    {
        if (auto *m = dyn_cast<CXXMethodDecl>(F))
            if (m->getParent()->isLambda())
            {
                auto *cls = m->getParent();
                std::string outer = "global";
                const DeclContext *dc = cls->getDeclContext();
                while (dc && !dc->isTranslationUnit())
                {
                    if (auto *of = dyn_cast<FunctionDecl>(dc))
                    {
                        outer = fullKey(of);
                        break;
                    }
                    if (isa<NamespaceDecl>(dc))
                        break;
                    dc = dc->getParent();
                }
                std::string base = outer + " >L" + std::to_string(line(cls->getBeginLoc())) + ":" + std::to_string(col(cls->getBeginLoc()));
                if (F->isFunctionTemplateSpecialization())
                    base += "#" + F->getType().getCanonicalType().getAsString(PP);
                if (F->getOverloadedOperator() != OO_Call)
                    base += "!" + F->getNameAsString();
                return base;
            }
        std::string n;
        llvm::raw_string_ostream os(n);
        F->getNameForDiagnostic(os, PP, true);
        os << " :: " << F->getType().getCanonicalType().getAsString(PP);
        if (!F->isExternallyVisible())
            os << " @" << fileOf(F->getLocation());
        return os.str();
    }
    const FunctionDecl *defOf(const FunctionDecl *F)
    {
        const FunctionDecl *D = nullptr;
        if (F->isDefined(D) && D)
            return D;
        return F;
    }
    int fnId(const FunctionDecl *F0)
    {
        const FunctionDecl *F = defOf(F0);
        auto it0 = fnCache.find(F->getCanonicalDecl());
        if (it0 != fnCache.end())
            return it0->second;
        bool repo = inRepo(F);
        std::string q = qname(F);
        std::string k = repo ? fullKey(F) : q + " :: " + F->getType().getCanonicalType().getAsString(PP);
        auto it = fnIdx.find(k);
        if (it != fnIdx.end())
        {
            fnCache[F->getCanonicalDecl()] = it->second;
            return it->second;
        }
        int i = fnV.size();
        fnIdx[k] = i;
        fnCache[F->getCanonicalDecl()] = i;
        fnV.push_back("");
        W o;
        o.s = "{";
        o.kv("q", q);
        if (repo)
        {
            o.kv("key", k);
            o.kn("file", fileId(F->getLocation()));
            o.kn("line", line(F->getLocation()));
        }
        o.kn("repo", repo);
        o.kn("ret", typeId(F->getReturnType()));
        o.key("pt");
        o.s += "[";
        for (auto *p : F->parameters())
            o.comma(), o.num(typeId(p->getType()));
        o.s += "]";
        if (F->isVariadic())
            o.kn("variadic", 1);
        if (auto *m = dyn_cast<CXXMethodDecl>(F))
        {
            o.kn("virt", m->isVirtual());
            o.kn("const", m->isConst());
            o.kn("static", m->isStatic());
            if (m->getParent()->isLambda())
                o.kn("lambda", 1);
            else
                o.kn("clsT", typeId(C.getRecordType(m->getParent())));
            if (repo && m->size_overridden_methods())
            {
                std::string ov;
                for (auto *b : m->overridden_methods())
                {
                    int bi = fnId(b);
                    ov += (ov.empty() ? "" : ",") + std::to_string(bi);
                }
                o.key("ov");
                o.s += "[" + ov + "]";
            }
        }
        if (F->isNoReturn() || F->getType()->castAs<FunctionType>()->getNoReturnAttr())
            o.kn("noret", 1);
        if (isa<CXXConstructorDecl>(F))
            o.kn("ctor", 1);
        if (auto *ta = F->getTemplateSpecializationArgs())
        {
            o.key("targs");
            o.s += "[";
            for (auto &a : ta->asArray())
            {
                std::string t;
                llvm::raw_string_ostream os(t);
                a.print(PP, os, true);
                o.comma();
                o.str(os.str());
            }
            o.s += "]";
        }
        o.s += "}";
        fnV[i] = o.s;
        if (repo && F->isThisDeclarationADefinition() && !F->isDependentContext())
            queue.push_back(F);
        return i;
    }
    int varId(const ValueDecl *V)
    {
        const void *p = V->getCanonicalDecl();
        auto it = vars.find(p);
        if (it != vars.end())
            return it->second;
        int i = varV.size();
        vars[p] = i;
        varV.push_back("");
        W o;
        o.s = "{";
        o.kv("n", V->getNameAsString());
        o.kn("t", typeId(V->getType()));
        const char *kind = "other";
        if (isa<ParmVarDecl>(V))
            kind = "param";
        else if (auto *vd = dyn_cast<VarDecl>(V))
        {
            kind = vd->isStaticLocal() ? "slocal" : vd->isLocalVarDecl() ? "local"
                                                                      : "global";
            if (vd->isStaticDataMember())
                kind = "smember";
            if (vd->getTLSKind() != VarDecl::TLS_None)
                o.kn("tls", 1);
        }
        else if (isa<BindingDecl>(V))
            kind = "binding";
        else if (isa<EnumConstantDecl>(V))
            kind = "enum";
        o.kv("k", kind);
        if (kind[0] == 'g' || kind[0] == 's' || kind[0] == 'e')
            o.kv("q", qname(V));
        o.kn("l", line(V->getLocation()));
        if (V->getType().isConstQualified())
            o.kn("c", 1);
        if (auto *b = dyn_cast<BindingDecl>(V))
            if (b->getDecomposedDecl())
            {
                int di = varId(cast<ValueDecl>(b->getDecomposedDecl()));
                o.kn("of", di);
                int idx = 0;
                if (auto *dd = dyn_cast<DecompositionDecl>(b->getDecomposedDecl()))
                    for (auto *bb : dd->bindings())
                    {
                        if (bb == b)
                            break;
                        idx++;
                    }
                o.kn("bi", idx);
            }
        if (auto *ec = dyn_cast<EnumConstantDecl>(V))
            o.kn("v", ec->getInitVal().getExtValue());
        o.s += "}";
        varV[i] = o.s;
        return i;
    }
    // ---- statements / expressions
    void pos(SourceLocation L)
    {
        w.kn("l", line(L));
        if (L.isValid())
        {
            int f = fileId(L);
            if (f != curFile)
                w.kn("f", f);
            if (L.isMacroID())
            {
                // outermost macro name
                SourceLocation X = L;
                SourceLocation last = X;
                while (X.isMacroID())
                {
                    last = X;
                    X = SM.getImmediateExpansionRange(X).getBegin();
                    if (SM.isMacroArgExpansion(last) && !X.isMacroID())
                        break;
                }
                llvm::StringRef mn = Lexer::getImmediateMacroName(last, SM, C.getLangOpts());
                if (!mn.empty())
                    w.kv("m", mn);
            }
        }
    }
    void list(const char *k)
    {
        w.key(k);
        w.s += "[";
    }
    void endl() { w.s += "]"; }
    void open(const char *k, SourceLocation L)
    {
        w.comma();
        w.s += "{";
        w.kv("k", k);
        pos(L);
    }
    void close() { w.s += "}"; }
    void sub(const char *k, const Stmt *S)
    {
        w.key(k);
        stmt(S);
    }
    void varDecl(const VarDecl *vd)
    {
        w.comma();
        w.s += "{";
        w.kn("id", varId(vd));
        w.kv("n", vd->getNameAsString());
        w.kn("t", typeId(vd->getType()));
        w.kn("l", line(vd->getLocation()));
        if (vd->isStaticLocal())
            w.kn("static", 1);
        if (auto *dd = dyn_cast<DecompositionDecl>(vd))
        {
            list("binds");
            for (auto *b : dd->bindings())
                w.comma(), w.num(varId(b));
            endl();
        }
        if (vd->getInit())
            sub("init", vd->getInit());
        w.s += "}";
    }
    static const Expr *strip(const Expr *E)
    {
        while (true)
        {
            const Expr *o = E;
            if (auto *p = dyn_cast<ParenExpr>(E))
                E = p->getSubExpr();
            else if (auto *p = dyn_cast<FullExpr>(E))
                E = p->getSubExpr();
            else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(E))
                E = p->getSubExpr();
            else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E))
                E = p->getSubExpr();
            else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = p->getReplacement();
            else if (auto *p = dyn_cast<CXXDefaultArgExpr>(E))
                E = p->getExpr();
            else if (auto *p = dyn_cast<CXXDefaultInitExpr>(E))
                E = p->getExpr();
            else if (auto *p = dyn_cast<ImplicitCastExpr>(E))
            {
                switch (p->getCastKind())
                {
                case CK_IntegralCast:
                case CK_FloatingToIntegral:
                case CK_IntegralToFloating:
                case CK_FloatingCast:
                case CK_UserDefinedConversion:
                    return E;
                default:
                    E = p->getSubExpr();
                }
            }
            if (E == o)
                return E;
        }
    }
    void args(const CallExpr *c, unsigned from = 0)
    {
        list("args");
        for (unsigned i = from; i < c->getNumArgs(); i++)
        {
            w.comma();
            stmt(c->getArg(i));
        }
        endl();
    }
    void omp(const OMPExecutableDirective *D)
    {
        open("OMP", D->getBeginLoc());
        w.kv("dir", llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()));
        if (auto *cr = dyn_cast<OMPCriticalDirective>(D))
            w.kv("name", cr->getDirectiveName().getAsString());
        list("cl");
        for (auto *c : D->clauses())
        {
            if (c->isImplicit())
                continue;
            w.comma();
            w.s += "{";
            w.kv("c", llvm::omp::getOpenMPClauseName(c->getClauseKind()));
            auto varl = [&](auto *vc)
            {
                list("v");
                for (auto *e : vc->varlists())
                {
                    w.comma();
                    stmt(e);
                }
                endl();
            };
            if (auto *rc = dyn_cast<OMPReductionClause>(c))
            {
                w.kv("op", rc->getNameInfo().getName().getAsString());
                varl(rc);
                list("rops");
                for (auto *e : rc->reduction_ops())
                {
                    w.comma();
                    stmt(e);
                }
                endl();
            }
            else if (auto *x = dyn_cast<OMPPrivateClause>(c))
                varl(x);
            else if (auto *x = dyn_cast<OMPFirstprivateClause>(c))
                varl(x);
            else if (auto *x = dyn_cast<OMPLastprivateClause>(c))
                varl(x);
            else if (auto *x = dyn_cast<OMPSharedClause>(c))
                varl(x);
            else if (auto *x = dyn_cast<OMPScheduleClause>(c))
                w.kn("sk", (int)x->getScheduleKind());
            w.s += "}";
        }
        endl();
        if (D->hasAssociatedStmt())
            sub("body", D->getRawStmt());
        close();
    }
    void declRed(const OMPDeclareReductionDecl *R)
    {
        open("DeclRed", R->getLocation());
        w.kv("n", R->getNameAsString());
        w.kn("t", typeId(R->getType()));
        if (R->getCombiner())
        {
            sub("comb", R->getCombiner());
            if (auto *i = dyn_cast_or_null<DeclRefExpr>(R->getCombinerIn()))
                w.kn("in", varId(i->getDecl()));
            if (auto *i = dyn_cast_or_null<DeclRefExpr>(R->getCombinerOut()))
                w.kn("out", varId(i->getDecl()));
        }
        if (R->getInitializer())
            sub("initz", R->getInitializer());
        if (auto *i = dyn_cast_or_null<DeclRefExpr>(R->getInitPriv()))
        {
            w.kn("priv", varId(i->getDecl()));
            if (auto *v = dyn_cast<VarDecl>(i->getDecl()))
                if (v->getInit())
                    sub("privinit", v->getInit());
        }
        if (auto *i = dyn_cast_or_null<DeclRefExpr>(R->getInitOrig()))
            w.kn("orig", varId(i->getDecl()));
        close();
    }
    void lambda(const LambdaExpr *L)
    {
        auto *cls = L->getLambdaClass();
        open("Lam", L->getBeginLoc());
        w.kn("t", typeId(L->getType()));
        list("caps");
        for (auto &c : L->captures())
        {
            w.comma();
            w.s += "{";
            if (c.capturesThis())
                w.kn("this", 1);
            else if (c.capturesVariable())
            {
                w.kn("id", varId(cast<ValueDecl>(c.getCapturedVar())));
                w.kn("ref", c.getCaptureKind() == LCK_ByRef);
                if (L->isInitCapture(&c))
                    if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar()))
                        if (vd->getInit())
                            sub("init", vd->getInit());
            }
            w.s += "}";
        }
        endl();
        list("fns");
        if (auto *ft = cls->getDependentLambdaCallOperator())
        {
            for (auto *s : ft->specializations())
                if (s->isDefined())
                    w.comma(), w.num(fnId(s));
            w.s += "]";
            w.kn("generic", 1);
            close();
            return;
        }
        w.num(fnId(L->getCallOperator()));
        endl();
        close();
    }
    std::string fnKeyCur;
    void constv(const Expr *E)
    {
        if (E->isValueDependent() || E->isTypeDependent())
            return;
        if (!E->getType()->isIntegralOrEnumerationType())
            return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C))
        {
            auto v = R.Val.getInt();
            if (v.getSignificantBits() <= 63)
                w.kn("v", v.getExtValue());
        }
    }
    void children(const Stmt *S)
    {
        list("c");
        for (auto *c : S->children())
        {
            w.comma();
            stmt(c);
        }
        endl();
    }
    void stmt(const Stmt *S)
    {
        if (!S)
        {
            w.s += "null";
            return;
        }
        if (auto *E = dyn_cast<Expr>(S))
        {
            expr(strip(E));
            return;
        }
        SourceLocation L = S->getBeginLoc();
        switch (S->getStmtClass())
        {
        case Stmt::CompoundStmtClass:
            open("Seq", L);
            w.kn("el", line(S->getEndLoc()));
            children(S);
            close();
            return;
        case Stmt::DeclStmtClass:
        {
            open("Decl", L);
            list("vars");
            std::vector<const OMPDeclareReductionDecl *> reds;
            for (auto *d : cast<DeclStmt>(S)->decls())
            {
                if (auto *vd = dyn_cast<VarDecl>(d))
                    varDecl(vd);
                else if (auto *r = dyn_cast<CXXRecordDecl>(d))
                    pendingRecs.push_back(r);
                else if (auto *r = dyn_cast<OMPDeclareReductionDecl>(d))
                    reds.push_back(r);
            }
            endl();
            if (!reds.empty())
            {
                list("reds");
                for (auto *r : reds)
                {
                    w.comma();
                    declRed(r);
                }
                endl();
            }
            close();
            return;
        }
        case Stmt::IfStmtClass:
        {
            auto *I = cast<IfStmt>(S);
            open("If", L);
            if (I->isConstexpr())
                w.kn("cx", 1);
            if (I->getInit())
                sub("init", I->getInit());
            if (I->getConditionVariableDeclStmt())
                sub("var", I->getConditionVariableDeclStmt());
            sub("cond", I->getCond());
            sub("then", I->getThen());
            if (I->getElse())
                sub("else", I->getElse());
            close();
            return;
        }
        case Stmt::ForStmtClass:
        {
            auto *I = cast<ForStmt>(S);
            open("For", L);
            sub("init", I->getInit());
            sub("cond", I->getCond());
            sub("inc", I->getInc());
            sub("body", I->getBody());
            close();
            return;
        }
        case Stmt::CXXForRangeStmtClass:
        {
            auto *I = cast<CXXForRangeStmt>(S);
            open("RFor", L);
            list("vars");
            if (I->getLoopVariable())
                varDecl(I->getLoopVariable());
            endl();
            sub("range", I->getRangeInit());
            sub("body", I->getBody());
            close();
            return;
        }
        case Stmt::WhileStmtClass:
        {
            auto *I = cast<WhileStmt>(S);
            open("While", L);
            if (I->getConditionVariableDeclStmt())
                sub("var", I->getConditionVariableDeclStmt());
            sub("cond", I->getCond());
            sub("body", I->getBody());
            close();
            return;
        }
        case Stmt::DoStmtClass:
        {
            auto *I = cast<DoStmt>(S);
            open("Do", L);
            sub("cond", I->getCond());
            sub("body", I->getBody());
            close();
            return;
        }
        case Stmt::SwitchStmtClass:
        {
            auto *I = cast<SwitchStmt>(S);
            open("Switch", L);
            if (I->getInit())
                sub("init", I->getInit());
            sub("cond", I->getCond());
            sub("body", I->getBody());
            close();
            return;
        }
        case Stmt::CaseStmtClass:
        {
            auto *I = cast<CaseStmt>(S);
            open("Case", L);
            sub("val", I->getLHS());
            if (I->getRHS())
                sub("hi", I->getRHS());
            sub("body", I->getSubStmt());
            close();
            return;
        }
        case Stmt::DefaultStmtClass:
            open("Default", L);
            sub("body", cast<DefaultStmt>(S)->getSubStmt());
            close();
            return;
        case Stmt::ReturnStmtClass:
            open("Return", L);
            sub("e", cast<ReturnStmt>(S)->getRetValue());
            close();
            return;
        case Stmt::BreakStmtClass:
            open("Break", L);
            close();
            return;
        case Stmt::ContinueStmtClass:
            open("Continue", L);
            close();
            return;
        case Stmt::NullStmtClass:
            open("Null", L);
            close();
            return;
        case Stmt::CXXTryStmtClass:
        {
            auto *T = cast<CXXTryStmt>(S);
            open("Try", L);
            sub("body", T->getTryBlock());
            list("h");
            for (unsigned i = 0; i < T->getNumHandlers(); i++)
            {
                w.comma();
                stmt(T->getHandler(i)->getHandlerBlock());
            }
            endl();
            close();
            return;
        }
        case Stmt::AttributedStmtClass:
            stmt(cast<AttributedStmt>(S)->getSubStmt());
            return;
        case Stmt::LabelStmtClass:
            stmt(cast<LabelStmt>(S)->getSubStmt());
            return;
        case Stmt::CapturedStmtClass:
            stmt(cast<CapturedStmt>(S)->getCapturedStmt());
            return;
        default:
            break;
        }
        if (auto *D = dyn_cast<OMPCanonicalLoop>(S))
        {
            stmt(D->getLoopStmt());
            return;
        }
        if (auto *D = dyn_cast<OMPExecutableDirective>(S))
        {
            omp(D);
            return;
        }
        open("Other", L);
        w.kv("cls", S->getStmtClassName());
        children(S);
        close();
    }
    std::vector<const CXXRecordDecl *> pendingRecs;
    void ty(const Expr *E) { w.kn("t", typeId(E->getType())); }
    std::string fltStr(const llvm::APFloat &v)
    {
        llvm::SmallString<64> b;
        v.toString(b, 0, 0);
        return b.str().str();
    }
    void expr(const Expr *E)
    {
        SourceLocation L = E->getExprLoc();
        switch (E->getStmtClass())
        {
        case Stmt::DeclRefExprClass:
        {
            auto *D = cast<DeclRefExpr>(E);
            if (auto *fd = dyn_cast<FunctionDecl>(D->getDecl()))
            {
                open("FRef", L);
                w.kn("fn", fnId(fd));
                close();
                return;
            }
            open("Ref", L);
            w.kn("id", varId(D->getDecl()));
            w.kv("n", D->getDecl()->getNameAsString());
            if (!isa<ParmVarDecl>(D->getDecl()))
                constv(E);
            close();
            return;
        }
        case Stmt::MemberExprClass:
        {
            auto *M = cast<MemberExpr>(E);
            if (auto *vd = dyn_cast<VarDecl>(M->getMemberDecl()))
            {
                open("Ref", L);
                w.kn("id", varId(vd));
                w.kv("n", vd->getNameAsString());
                constv(E);
                close();
                return;
            }
            open("Mem", M->getMemberLoc());
            w.kv("n", M->getMemberDecl()->getNameAsString());
            w.kv("q", qname(M->getMemberDecl()));
            if (auto *fd = dyn_cast<FunctionDecl>(M->getMemberDecl()))
                w.kn("fn", fnId(fd));
            ty(E);
            sub("b", M->getBase());
            close();
            return;
        }
        case Stmt::CXXThisExprClass:
            open("This", L);
            close();
            return;
        case Stmt::IntegerLiteralClass:
            open("Int", L);
            {
                auto v = cast<IntegerLiteral>(E)->getValue();
                bool sg = E->getType()->isSignedIntegerOrEnumerationType();
                w.kn("v", sg ? (v.getSignificantBits() <= 64 ? (long long)v.getSExtValue() : -1) : v.getActiveBits() <= 63 ? (long long)v.getZExtValue() : -1);
            }
            close();
            return;
        case Stmt::FloatingLiteralClass:
            open("Flt", L);
            {
                auto sl = cast<FloatingLiteral>(E)->getValue();
                w.kv("v", fltStr(sl));
            }
            close();
            return;
        case Stmt::StringLiteralClass:
            open("Str", L);
            w.kv("v", cast<StringLiteral>(E)->isOrdinary() ? cast<StringLiteral>(E)->getString() : "");
            close();
            return;
        case Stmt::CXXBoolLiteralExprClass:
            open("Bool", L);
            w.kn("v", cast<CXXBoolLiteralExpr>(E)->getValue());
            close();
            return;
        case Stmt::CharacterLiteralClass:
            open("Int", L);
            w.kn("v", cast<CharacterLiteral>(E)->getValue());
            close();
            return;
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            open("NullP", L);
            close();
            return;
        case Stmt::BinaryOperatorClass:
        case Stmt::CompoundAssignOperatorClass:
        {
            auto *B = cast<BinaryOperator>(E);
            if (B->getOpcode() == BO_Comma)
            {
                open("Comma", L);
                list("c");
                stmt(B->getLHS());
                w.comma();
                stmt(B->getRHS());
                endl();
                close();
                return;
            }
            open(B->isAssignmentOp() ? "Asg" : "Bin", L);
            w.kv("op", B->getOpcodeStr());
            ty(E);
            sub("a", B->getLHS());
            sub("b", B->getRHS());
            close();
            return;
        }
        case Stmt::UnaryOperatorClass:
        {
            auto *U = cast<UnaryOperator>(E);
            open("Un", L);
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix())
                op = "p" + op;
            w.kv("op", op);
            sub("e", U->getSubExpr());
            close();
            return;
        }
        case Stmt::ConditionalOperatorClass:
        {
            auto *B = cast<ConditionalOperator>(E);
            open("Cond", L);
            ty(E);
            sub("c", B->getCond());
            sub("a", B->getTrueExpr());
            sub("b", B->getFalseExpr());
            close();
            return;
        }
        case Stmt::ArraySubscriptExprClass:
        {
            auto *B = cast<ArraySubscriptExpr>(E);
            open("Idx", L);
            ty(E);
            sub("b", B->getBase());
            sub("i", B->getIdx());
            close();
            return;
        }
        case Stmt::CXXOperatorCallExprClass:
        {
            auto *Cc = cast<CXXOperatorCallExpr>(E);
            open("OpCall", L);
            w.kv("op", getOperatorSpelling(Cc->getOperator()));
            if (auto *fd = Cc->getDirectCallee())
                w.kn("fn", fnId(fd));
            ty(E);
            args(Cc);
            close();
            return;
        }
        case Stmt::CXXMemberCallExprClass:
        {
            auto *M = cast<CXXMemberCallExpr>(E);
            open("MCall", L);
            if (auto *fd = M->getMethodDecl())
                w.kn("fn", fnId(fd));
            ty(E);
            if (auto *me = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
            {
                if (me->hasQualifier())
                    w.kn("nonvirt", 1);
                sub("b", me->getBase());
            }
            else
                sub("b", M->getCallee());
            args(M);
            close();
            return;
        }
        case Stmt::CallExprClass:
        case Stmt::UserDefinedLiteralClass:
        {
            auto *M = cast<CallExpr>(E);
            open("Call", L);
            if (auto *fd = M->getDirectCallee())
            {
                w.kn("fn", fnId(fd));
                auto mk = made.find(fd->getCanonicalDecl());
                if (mk != made.end())
                    w.kn("mk", fnId(mk->second)); // constructor run by std::make_shared / std::make_unique
            }
            else
                sub("ce", M->getCallee());
            ty(E);
            args(M);
            close();
            return;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass:
        {
            auto *M = cast<CXXConstructExpr>(E);
            if (M->getNumArgs() == 1 && M->isElidable())
            {
                stmt(M->getArg(0));
                return;
            }
            open("Con", L);
            w.kn("fn", fnId(M->getConstructor()));
            if (M->getConstructor()->isCopyConstructor())
                w.kn("copy", 1);
            else if (M->getConstructor()->isMoveConstructor())
                w.kn("move", 1);
            ty(E);
            list("args");
            for (auto *a : M->arguments())
            {
                w.comma();
                stmt(a);
            }
            endl();
            close();
            return;
        }
        case Stmt::CXXNewExprClass:
        {
            auto *M = cast<CXXNewExpr>(E);
            open("New", L);
            ty(E);
            if (M->isArray())
                if (auto sz = M->getArraySize())
                    sub("sz", *sz);
            if (M->getInitializer())
                sub("init", M->getInitializer());
            close();
            return;
        }
        case Stmt::CXXDeleteExprClass:
            open("Delete", L);
            sub("e", cast<CXXDeleteExpr>(E)->getArgument());
            close();
            return;
        case Stmt::LambdaExprClass:
            lambda(cast<LambdaExpr>(E));
            return;
        case Stmt::CXXThrowExprClass:
            open("Throw", L);
            sub("e", cast<CXXThrowExpr>(E)->getSubExpr());
            close();
            return;
        case Stmt::InitListExprClass:
        {
            auto *I = cast<InitListExpr>(E);
            open("InitL", L);
            ty(E);
            list("c");
            for (auto *c : I->inits())
            {
                w.comma();
                stmt(c);
            }
            endl();
            close();
            return;
        }
        case Stmt::CXXStdInitializerListExprClass:
            stmt(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
            return;
        case Stmt::UnaryExprOrTypeTraitExprClass:
        {
            auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
            open("SizeOf", L);
            w.kn("of", typeId(U->getTypeOfArgument()));
            constv(E);
            close();
            return;
        }
        case Stmt::ImplicitCastExprClass:
        {
            auto *I = cast<CastExpr>(E);
            if (I->getCastKind() == CK_UserDefinedConversion)
            {
                stmt(I->getSubExpr());
                return;
            }
            open("ICast", L);
            ty(E);
            constv(E);
            sub("e", I->getSubExpr());
            close();
            return;
        }
        case Stmt::CXXScalarValueInitExprClass:
        case Stmt::ImplicitValueInitExprClass:
            open("ZInit", L);
            ty(E);
            close();
            return;
        case Stmt::PredefinedExprClass:
            open("Str", L);
            w.kv("v", "__func__");
            close();
            return;
        case Stmt::TypeTraitExprClass:
        case Stmt::SizeOfPackExprClass:
        case Stmt::CXXNoexceptExprClass:
            open("Int", L);
            constv(E);
            close();
            return;
        case Stmt::CXXTypeidExprClass:
            open("TypeId", L);
            close();
            return;
        default:
            break;
        }
        if (auto *X = dyn_cast<ExplicitCastExpr>(E))
        {
            open("Cast", L);
            ty(E);
            constv(E);
            if (isa<CXXReinterpretCastExpr>(E))
                w.kn("reint", 1);
            if (isa<CXXConstCastExpr>(E))
                w.kn("cc", 1);
            sub("e", X->getSubExpr());
            close();
            return;
        }
        if (isa<CXXRewrittenBinaryOperator>(E))
        {
            stmt(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
            return;
        }
        open("Other", L);
        w.kv("cls", E->getStmtClassName());
        if (auto *d = dyn_cast<CXXDependentScopeMemberExpr>(E))
            w.kv("n", d->getMember().getAsString());
        if (auto *d = dyn_cast<DependentScopeDeclRefExpr>(E))
            w.kv("n", d->getDeclName().getAsString());
        if (auto *d = dyn_cast<OverloadExpr>(E))
            w.kv("n", d->getName().getAsString());
        ty(E);
        children(E);
        close();
    }
    void function(const FunctionDecl *F)
    {
        F = defOf(F);
        if (!doneFn.insert(F).second)
            return;
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted())
            return;
        if (F->isDefaulted() && !F->getBody())
            return;
        if (F->getBody() == nullptr)
            return;
        int id = fnId(F);
        auto *oldCur = cur;
        cur = F;
        std::string oldKey = fnKeyCur;
        fnKeyCur = fullKey(F);
        curFile = fileId(F->getLocation());
        w.s.clear();
        w.s += "{";
        w.kn("id", id);
        w.kn("el", line(F->getEndLoc()));
        if (F->isDependentContext())
            w.kn("dep", 1);
        list("params");
        for (auto *p : F->parameters())
            w.comma(), w.num(varId(p));
        endl();
        if (auto *ct = dyn_cast<CXXConstructorDecl>(F))
        {
            list("inits");
            for (auto *i : ct->inits())
            {
                w.comma();
                w.s += "{";
                if (i->isAnyMemberInitializer())
                {
                    w.kv("m", i->getAnyMember()->getNameAsString());
                    w.kv("q", qname(i->getAnyMember()));
                }
                else if (i->isBaseInitializer())
                    w.kn("base", typeId(QualType(i->getBaseClass(), 0)));
                w.kn("written", i->isWritten());
                sub("e", i->getInit());
                w.s += "}";
            }
            endl();
        }
        sub("body", F->getBody());
        w.s += "}";
        fnsOut += w.s + "\n";
        nFns++;
        cur = oldCur;
        fnKeyCur = oldKey;
        auto pr = std::move(pendingRecs);
        pendingRecs.clear();
        for (auto *r : pr)
            record(r);
    }
    void drain()
    {
        while (!queue.empty())
        {
            auto *f = queue.back();
            queue.pop_back();
            function(f);
        }
    }
    void record(const CXXRecordDecl *R)
    {
        R = R->getDefinition();
        if (!R || !doneRec.insert(R).second)
            return;
        if (R->isLambda())
            return;
        W o;
        bool dep = R->isDependentContext();
        o.s = "{";
        o.kv("q", qname(R));
        o.kn("t", dep ? -1 : typeId(C.getRecordType(R)));
        if (dep)
            o.kn("dep", 1);
        o.kn("file", fileId(R->getLocation()));
        o.kn("line", line(R->getLocation()));
        o.key("bases");
        o.s += "[";
        for (auto &b : R->bases())
            o.comma(), o.num(typeId(b.getType()));
        o.s += "]";
        o.key("fields");
        o.s += "[";
        for (auto *f : R->fields())
        {
            o.comma();
            o.s += "{";
            o.kv("n", f->getNameAsString());
            o.kn("t", typeId(f->getType()));
            o.kn("l", line(f->getLocation()));
            if (f->isMutable())
                o.kn("mut", 1);
            if (f->hasInClassInitializer())
                o.kn("hasinit", 1);
            if (f->hasInClassInitializer() && f->getInClassInitializer())
            {
                std::swap(w.s, o.s);
                curFile = fileId(R->getLocation());
                sub("init", f->getInClassInitializer());
                std::swap(w.s, o.s);
            }
            o.s += "}";
        }
        o.s += "]";
        o.key("methods");
        o.s += "[";
        for (auto *m : R->methods())
        {
            o.comma();
            o.s += "{";
            o.kv("n", m->getNameAsString());
            o.kn("line", line(m->getLocation()));
            o.kn("del", m->isDeleted());
            o.kn("dflt", m->isDefaulted());
            o.kn("user", m->isUserProvided());
            const char *kind = "m";
            if (auto *c = dyn_cast<CXXConstructorDecl>(m))
                kind = c->isCopyConstructor() ? "cc" : c->isMoveConstructor() ? "mc"
                                                                              : "ctor";
            else if (isa<CXXDestructorDecl>(m))
                kind = "dtor";
            else if (m->isCopyAssignmentOperator())
                kind = "ca";
            else if (m->isMoveAssignmentOperator())
                kind = "ma";
            o.kv("kind", kind);
            o.s += "}";
        }
        o.s += "]";
        if (!dep && R->hasDefinition())
        {
            o.kn("cc", R->hasSimpleCopyConstructor() || R->hasUserDeclaredCopyConstructor() ? 1 : 0);
            o.kn("ncopy", R->defaultedCopyConstructorIsDeleted());
        }
        o.s += "}";
        recOut += (recOut.empty() ? "\n" : ",\n") + o.s;
        for (auto *d : R->decls())
            decl(d);
    }
    bool anyInst(const FunctionTemplateDecl *FT)
    {
        for (auto *s : FT->specializations())
            if (s->isDefined())
                return true;
        return false;
    }
    void decl(const Decl *D)
    {
        switch (D->getKind())
        {
        case Decl::Namespace:
        case Decl::LinkageSpec:
        {
            for (auto *d : cast<DeclContext>(D)->decls())
                decl(d);
            return;
        }
        default:
            break;
        }
        if (!inRepo(D))
            return;
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
        {
            if (FT != FT->getCanonicalDecl() && !FT->isThisDeclarationADefinition())
                return;
            bool any = false;
            for (auto *s : FT->specializations())
                if (s->isDefined())
                    any = true, function(s);
            if (!any && FT->getTemplatedDecl()->isThisDeclarationADefinition() && !noPattern)
                function(FT->getTemplatedDecl());
        }
        else if (auto *CT = dyn_cast<ClassTemplateDecl>(D))
        {
            bool any = false;
            for (auto *s : CT->specializations())
            {
                if (s->getDefinition())
                    any = true, record(s);
            }
            if (CT->isThisDeclarationADefinition())
                record(CT->getTemplatedDecl());
        }
        else if (auto *FD = dyn_cast<FriendDecl>(D))
        {
            if (auto *F = dyn_cast_or_null<FunctionDecl>(FD->getFriendDecl()))
            {
                if (!F->isDependentContext() && !F->isDefined())
                    if (auto *pat = F->getTemplateInstantiationPattern())
                        if (pat->isDefined() && S && !F->isOverloadedOperator())
                            S->InstantiateFunctionDefinition(F->getLocation(), const_cast<FunctionDecl *>(F), true, true, true);
                if (F->isThisDeclarationADefinition() || F->isDefined())
                    function(F);
            }
        }
        else if (auto *F = dyn_cast<FunctionDecl>(D))
        {
            if (F->isThisDeclarationADefinition() || F->isDefined())
                function(F);
        }
        else if (auto *R = dyn_cast<CXXRecordDecl>(D))
            record(R);
        else if (auto *E = dyn_cast<EnumDecl>(D))
        {
            W o;
            o.s = "{";
            o.kv("q", qname(E));
            o.kn("file", fileId(E->getLocation()));
            o.kn("line", line(E->getLocation()));
            o.kn("t", typeId(C.getEnumType(E)));
            o.key("c");
            o.s += "[";
            for (auto *c : E->enumerators())
            {
                o.comma();
                o.s += "[";
                o.str(c->getNameAsString());
                o.s += ",";
                o.num(c->getInitVal().getExtValue());
                o.s += "]";
            }
            o.s += "]}";
            enumOut += (enumOut.empty() ? "\n" : ",\n") + o.s;
        }
        else if (auto *V = dyn_cast<VarDecl>(D))
        {
            if (isa<VarTemplatePartialSpecializationDecl>(V))
                return;
            w.s.clear();
            curFile = fileId(V->getLocation());
            cur = nullptr;
            w.s += "{";
            w.kv("q", qname(V));
            w.kn("file", curFile);
            w.key("d");
            varDecl(V);
            w.s += "}";
            globOut += (globOut.empty() ? "\n" : ",\n") + w.s;
        }
        else if (auto *R = dyn_cast<OMPDeclareReductionDecl>(D))
        {
            (void)R;
        }
    }
    bool noPattern = false;
    Sema *S = nullptr;
    std::map<const FunctionDecl *, const CXXConstructorDecl *> made;
    /// bodies of library functions are not parsed, so the constructors they run have to be named (and instantiated) here
    void factories()
    {
        std::vector<const FunctionTemplateDecl *> fts;
        for (auto *d : C.getTranslationUnitDecl()->decls())
            if (auto *ns = dyn_cast<NamespaceDecl>(d))
                if (ns->getName() == "std")
                    for (auto *m : ns->decls())
                        if (auto *ft = dyn_cast<FunctionTemplateDecl>(m))
                            if (ft->getDeclName().isIdentifier() && (ft->getName() == "make_shared" || ft->getName() == "make_unique"))
                                fts.push_back(ft);
        std::set<const FunctionDecl *> seen;
        bool again = true;
        S->getDiagnostics().setSuppressAllDiagnostics(true);
        while (again)
        {
            again = false;
            for (auto *ft : fts)
            {
                std::vector<FunctionDecl *> specs(ft->specializations().begin(), ft->specializations().end());
                for (auto *s : specs)
                {
                    if (s->isDependentContext() || !seen.insert(s->getCanonicalDecl()).second)
                        continue;
                    auto *ta = s->getTemplateSpecializationArgs();
                    if (!ta || ta->size() < 1 || ta->get(0).getKind() != TemplateArgument::Type)
                        continue;
                    QualType T = ta->get(0).getAsType();
                    auto *R = T->getAsCXXRecordDecl();
                    if (!R || !R->getDefinition() || !inRepo(R))
                        continue;
                    SourceLocation L = R->getLocation();
                    llvm::SmallVector<Expr *, 8> args;
                    bool ok = true;
                    for (auto *p : s->parameters())
                    {
                        QualType t = p->getType();
                        if (t->isDependentType())
                            ok = false;
                        auto vk = t->isLValueReferenceType() ? VK_LValue : VK_XValue;
                        args.push_back(new (C) OpaqueValueExpr(L, t.getNonReferenceType(), vk));
                    }
                    if (!ok)
                        continue;
                    auto ent = InitializedEntity::InitializeTemporary(T);
                    auto kind = InitializationKind::CreateDirect(L, L, L);
                    InitializationSequence seq(*S, ent, kind, args);
                    if (seq.Failed())
                        continue;
                    auto r = seq.Perform(*S, ent, kind, args);
                    if (r.isInvalid())
                        continue;
                    const Expr *e = r.get();
                    while (e && !isa<CXXConstructExpr>(e))
                    {
                        if (auto *b = dyn_cast<CXXBindTemporaryExpr>(e))
                            e = b->getSubExpr();
                        else if (auto *c = dyn_cast<CastExpr>(e))
                            e = c->getSubExpr();
                        else if (auto *m = dyn_cast<MaterializeTemporaryExpr>(e))
                            e = m->getSubExpr();
                        else if (auto *f = dyn_cast<FullExpr>(e))
                            e = f->getSubExpr();
                        else
                            break;
                    }
                    if (auto *ce = dyn_cast_or_null<CXXConstructExpr>(e))
                    {
                        auto *ctor = ce->getConstructor();
                        S->MarkFunctionReferenced(L, ctor);
                        made[s->getCanonicalDecl()] = ctor;
                        again = true;
                    }
                }
            }
            S->DefineUsedVTables();
            S->PerformPendingInstantiations();
        }
        S->getDiagnostics().setSuppressAllDiagnostics(false);
    }
    static void join(std::string &o, const std::vector<std::string> &v, bool quote)
    {
        W t;
        o += "[";
        bool first = true;
        for (auto &s : v)
        {
            if (!first)
                o += ",\n";
            first = false;
            if (quote)
            {
                t.s.clear();
                t.str(s);
                o += t.s;
            }
            else
                o += s.empty() ? "null" : s;
        }
        o += "]";
    }
    void run()
    {
        decl_tu();
        FILE *f = fopen(OutPath.c_str(), "w");
        std::string o = "{\"files\":";
        join(o, fileV, true);
        o += ",\n\"types\":";
        join(o, typeV, true);
        o += ",\n\"fns\":";
        join(o, fnV, false);
        o += ",\n\"vars\":";
        join(o, varV, false);
        o += ",\n\"records\":[" + recOut + "]";
        o += ",\n\"enums\":[" + enumOut + "]";
        o += ",\n\"globals\":[" + globOut + "]";
        fwrite(o.data(), 1, o.size(), f);
        o = "}\n";
        fwrite(o.data(), 1, o.size(), f);
        fclose(f);
        f = fopen((OutPath + ".bodies").c_str(), "w");
        fwrite(fnsOut.data(), 1, fnsOut.size(), f);
        fclose(f);
    }
    void decl_tu()
    {
        for (auto *d : C.getTranslationUnitDecl()->decls())
            decl(d);
        drain();
    }
};

struct Cons : ASTConsumer
{
    CompilerInstance &CI;
    llvm::DenseMap<FileID, int> cache;
    Cons(CompilerInstance &CI) : CI(CI) {}
    bool shouldSkipFunctionBody(Decl *D) override
    {
        auto &SM = CI.getSourceManager();
        auto L = SM.getExpansionLoc(D->getLocation());
        FileID F = SM.getFileID(L);
        auto it = cache.find(F);
        if (it != cache.end())
            return it->second;
        bool skip = !Dumper::inRoots(SM.getFilename(L));
        cache[F] = skip;
        return skip;
    }
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (CI.getDiagnostics().hasErrorOccurred())
            return;
        Dumper d(C);
        d.S = &CI.getSema();
        d.factories();
        d.run();
        FILE *f = fopen((OutPath + ".deps").c_str(), "w");
        auto &SM = CI.getSourceManager();
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
        {
            auto n = it->first.getName();
            if (Dumper::inRoots(n) || n.contains("/stubs/"))
                fprintf(f, "%s\n", n.str().c_str());
        }
        fclose(f);
    }
};
struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override
    {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Cons>(CI);
    }
    bool BeginInvocation(CompilerInstance &CI) override
    {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        return true;
    }
};
int main(int argc, char **argv)
{
    if (argc < 5)
        return 2;
    OutPath = argv[1];
    std::string src = argv[2], roots = argv[3];
    size_t p = 0;
    while (p <= roots.size())
    {
        size_t q = roots.find(':', p);
        if (q == std::string::npos)
            q = roots.size();
        Roots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::vector<std::string> cmd = {"clang++"};
    for (int i = 5; i < argc; i++)
        cmd.push_back(argv[i]);
    cmd.push_back("-fsyntax-only");
    cmd.push_back(src);
    llvm::IntrusiveRefCntPtr<llvm::vfs::OverlayFileSystem> ov(new llvm::vfs::OverlayFileSystem(llvm::vfs::getRealFileSystem()));
    llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> mem(new llvm::vfs::InMemoryFileSystem());
    if (const char *m = getenv("DNDSX_MAP")) // path=file: read file in place of path
    {
        std::string s = m;
        size_t e = s.find('=');
        auto buf = llvm::MemoryBuffer::getFile(s.substr(e + 1));
        if (e == std::string::npos || !buf)
            return 2;
        mem->addFile(s.substr(0, e), 0, std::move(*buf));
        ov->pushOverlay(mem);
    }
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions(), ov));
    tooling::ToolInvocation inv(cmd, std::make_unique<Act>(), FM.get());
    bool ok = inv.run();
    return ok ? 0 : 3;
}
