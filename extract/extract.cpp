// Fact extractor: parses one translation unit of /repo with clang's own front
// end (real flags, templates instantiated, callees and overloads resolved) and
// writes, as JSON, the body of every function defined under the source root.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;
static std::string gOut;

struct Dumper
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::set<std::string> done;
    std::vector<const CXXMethodDecl*> lambdaQueue;
    Array functions, classes, enums, globals;
    std::set<std::string> classDone;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
        PP.SuppressUnwrittenScope = true;
    }

    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        PresumedLoc p = SM.getPresumedLoc(l);
        return p.isValid() ? std::string(p.getFilename()) : std::string();
    }
    int lineOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        PresumedLoc p = SM.getPresumedLoc(l);
        return p.isValid() ? (int)p.getLine() : 0;
    }
    bool inRepo(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        return fileOf(l).compare(0, gRoot.size(), gRoot) == 0;
    }
    std::string usr(const Decl* d)
    {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(d, b)) {
            return "?" + std::to_string((unsigned long long)(uintptr_t)d);
        }
        return std::string(b.str());
    }
    std::string type(QualType t)
    {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }
    std::string varId(const VarDecl* v)
    {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal())
            return "v" + std::to_string(v->getCanonicalDecl()->getID());
        return "g:" + qname(v);
    }

    Value exprs(const std::vector<const Expr*>& es)
    {
        Array a;
        for (auto* e : es) a.push_back(expr(e));
        return a;
    }

    static bool isSmall(QualType t) { return t->isIntegralOrEnumerationType(); }

    Object base(const char* k, const Expr* e)
    {
        Object o;
        o["k"] = k;
        o["t"] = type(e->getType());
        o["ln"] = lineOf(e->getBeginLoc());
        return o;
    }

    void calleeInfo(Object& o, const FunctionDecl* fd)
    {
        if (!fd) return;
        const FunctionDecl* def = fd;
        o["fn"] = usr(def);
        o["q"] = qname(def);
        o["name"] = def->getNameAsString();
        Array pt;
        for (auto* p : fd->parameters()) pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = qname(m->getParent());
            o["virt"] = m->isVirtual();
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
        }
        o["inrepo"] = inRepo(def->getLocation());
        if (auto* ta = fd->getTemplateSpecializationArgs()) {
            Array a;
            for (unsigned i = 0; i < ta->size(); ++i) {
                auto& x = ta->get(i);
                if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType()));
                else if (x.getKind() == TemplateArgument::Pack) {
                    for (auto& y : x.pack_elements())
                        if (y.getKind() == TemplateArgument::Type) a.push_back(type(y.getAsType()));
                }
            }
            o["targs"] = std::move(a);
        }
    }

    Value expr(const Expr* e)
    {
        if (!e) return nullptr;
        // transparent wrappers
        for (;;) {
            if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            break;
        }
        // constant folding
        if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue()) {
            Expr::EvalResult r;
            if (!isa<CallExpr>(e) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
                Object o = base("int", e);
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                o["v"] = std::string(s.str());
                return o;
            }
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            const Expr* sub = x->getSubExpr();
            switch (x->getCastKind()) {
                case CK_NullToPointer: {
                    Object o = base("null", e);
                    return o;
                }
                case CK_IntegralCast: {
                    Object o = base("icast", e);
                    o["e"] = expr(sub);
                    o["from"] = type(sub->getType());
                    o["expl"] = isa<ExplicitCastExpr>(e);
                    return o;
                }
                case CK_IntegralToBoolean:
                case CK_PointerToBoolean: {
                    Object o = base("tobool", e);
                    o["e"] = expr(sub);
                    return o;
                }
                case CK_UserDefinedConversion:
                case CK_ConstructorConversion:
                    return expr(sub);
                default: {
                    if (isa<ExplicitCastExpr>(e) && e->getType()->isPointerType()) {
                        Object o = base("pcast", e);
                        o["e"] = expr(sub);
                        return o;
                    }
                    return expr(sub);
                }
            }
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return base("null", e);
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            Object o = base("str", e);
            o["v"] = x->getCharByteWidth() == 1 ? llvm::json::fixUTF8(x->getString()) : std::string("?");
            return o;
        }
        if (isa<FloatingLiteral>(e)) return base("flt", e);
        if (isa<CXXThisExpr>(e)) return base("this", e);
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) {
                Object o = base("var", e);
                o["id"] = varId(v);
                o["n"] = v->getNameAsString();
                o["ref"] = v->getType()->isReferenceType();
                if (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) o["glob"] = true;
                return o;
            }
            if (auto* b = dyn_cast<BindingDecl>(d)) {
                Object o = base("var", e);
                o["id"] = "b" + std::to_string(b->getID());
                o["n"] = b->getNameAsString();
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                Object o = base("fnref", e);
                calleeInfo(o, f);
                return o;
            }
            Object o = base("unk", e);
            o["c"] = "DeclRef";
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                Object o = base("mem", e);
                o["b"] = expr(x->getBase());
                o["f"] = f->getNameAsString();
                o["cls"] = qname(f->getParent());
                o["arrow"] = x->isArrow();
                o["ref"] = f->getType()->isReferenceType();
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
                Object o = base("var", e);
                o["id"] = varId(v);
                o["n"] = v->getNameAsString();
                o["glob"] = true;
                return o;
            }
            Object o = base("fnref", e);
            calleeInfo(o, dyn_cast<FunctionDecl>(x->getMemberDecl()));
            o["obj"] = expr(x->getBase());
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            const FunctionDecl* fd = x->getDirectCallee();
            Object o = base("call", e);
            o["op"] = getOperatorSpelling(x->getOperator());
            calleeInfo(o, fd);
            std::vector<const Expr*> args;
            unsigned i = 0;
            if (fd && isa<CXXMethodDecl>(fd) && x->getNumArgs() > 0) {
                o["obj"] = expr(x->getArg(0));
                i = 1;
            }
            for (; i < x->getNumArgs(); ++i) args.push_back(x->getArg(i));
            o["args"] = exprs(args);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            Object o = base("call", e);
            calleeInfo(o, x->getMethodDecl());
            o["obj"] = expr(x->getImplicitObjectArgument());
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
                if (me->hasQualifier()) o["virt"] = false;
                o["arrow"] = me->isArrow();
            }
            std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
            o["args"] = exprs(args);
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            Object o = base("call", e);
            if (auto* fd = x->getDirectCallee()) calleeInfo(o, fd);
            else {
                o["ind"] = expr(x->getCallee());
            }
            std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
            o["args"] = exprs(args);
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            // elidable or copy/move construct is kept as a node
            Object o = base("ctor", e);
            const CXXConstructorDecl* cd = x->getConstructor();
            calleeInfo(o, cd);
            o["copy"] = cd->isCopyConstructor();
            o["move"] = cd->isMoveConstructor();
            std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
            o["args"] = exprs(args);
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            Object o = base("ctor", e);
            calleeInfo(o, x->getConstructor());
            o["args"] = Array();
            return o;
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
            (void)x;
            Object o = base("zero", e);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e)) return base("zero", e);
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            Object o = base("new", e);
            o["at"] = type(x->getAllocatedType());
            o["array"] = x->isArray();
            if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
            if (x->hasInitializer()) o["init"] = expr(x->getInitializer());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            Object o = base("del", e);
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            Object o = base("un", e);
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->isAssignmentOp()) {
                Object o = base("asg", e);
                o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
                o["l"] = expr(x->getLHS());
                o["r"] = expr(x->getRHS());
                return o;
            }
            Object o = base("bin", e);
            o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["l"] = expr(x->getLHS());
            o["r"] = expr(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            Object o = base("cond", e);
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            Object o = base("idx", e);
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            if (auto* at = C.getAsConstantArrayType(x->getBase()->IgnoreParenImpCasts()->getType()))
                o["n"] = (int64_t)at->getSize().getZExtValue();
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            Object o = base("lam", e);
            const CXXMethodDecl* m = x->getCallOperator();
            // a generic lambda is known by what it was used for
            if (auto* ft = m->getDescribedFunctionTemplate())
                for (auto* sp : ft->specializations())
                    if (auto* sm = dyn_cast<CXXMethodDecl>(sp); sm && sm->hasBody()) {
                        m = sm;
                        break;
                    }
            o["fn"] = usr(m);
            Array caps;
            unsigned i = 0;
            auto init = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    auto* vd = dyn_cast<VarDecl>(c.getCapturedVar());
                    if (vd) {
                        co["id"] = varId(vd);
                        co["n"] = vd->getNameAsString();
                        co["t"] = type(vd->getType());
                    }
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (vd && vd->isInitCapture()) co["init"] = expr(vd->getInit());
                }
                caps.push_back(std::move(co));
                ++i;
                ++init;
            }
            o["caps"] = std::move(caps);
            lambdaQueue.push_back(m);
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            Object o = base("throw", e);
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            Object o = base("ilist", e);
            Array a;
            for (auto* i : x->inits()) a.push_back(expr(i));
            o["es"] = std::move(a);
            return o;
        }
        Object o = base("unk", e);
        o["c"] = e->getStmtClassName();
        Array a;
        for (auto* c : e->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
        o["ch"] = std::move(a);
        return o;
    }

    Value varDecl(const VarDecl* v)
    {
        Object o;
        o["id"] = varId(v);
        o["n"] = v->getNameAsString();
        o["t"] = type(v->getType());
        o["ref"] = v->getType()->isReferenceType();
        o["static"] = v->isStaticLocal();
        o["ln"] = lineOf(v->getLocation());
        if (v->hasInit()) o["init"] = expr(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            Array b;
            for (auto* bd : dd->bindings()) {
                Object bo;
                bo["id"] = "b" + std::to_string(bd->getID());
                bo["n"] = bd->getNameAsString();
                if (bd->getBinding()) bo["e"] = expr(bd->getBinding());
                b.push_back(std::move(bo));
            }
            o["binds"] = std::move(b);
        }
        return o;
    }

    Value stmt(const Stmt* s)
    {
        if (!s) return nullptr;
        Object o;
        o["ln"] = lineOf(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block";
            Array a;
            for (auto* c : x->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            Array a;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            o["vars"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if";
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            o["e"] = stmt(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond());
            o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor";
            o["range"] = expr(x->getRangeInit());
            o["v"] = varDecl(x->getLoopVariable());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            // flatten the body into a list of {labels}/stmts
            Array items;
            if (auto* b = dyn_cast<CompoundStmt>(x->getBody())) {
                for (auto* c : b->body()) flattenCase(c, items);
            } else flattenCase(x->getBody(), items);
            o["items"] = std::move(items);
            return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "ret";
            o["e"] = expr(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "nop"; return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["b"] = stmt(x->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                Object h;
                auto* c = x->getHandler(i);
                if (c->getExceptionDecl()) {
                    h["v"] = varDecl(c->getExceptionDecl());
                    h["t"] = type(c->getCaughtType());
                } else h["t"] = "...";
                h["b"] = stmt(c->getHandlerBlock());
                h["ln"] = lineOf(c->getBeginLoc());
                hs.push_back(std::move(h));
            }
            o["h"] = std::move(hs);
            return o;
        }
        if (auto* x = dyn_cast<LabelStmt>(s)) {
            o["k"] = "label";
            o["n"] = std::string(x->getName());
            o["b"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<GotoStmt>(s)) {
            o["k"] = "goto";
            o["n"] = x->getLabel()->getNameAsString();
            return o;
        }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<Expr>(s)) {
            o["k"] = "expr";
            o["e"] = expr(x);
            return o;
        }
        o["k"] = "unkstmt";
        o["c"] = s->getStmtClassName();
        return o;
    }

    void flattenCase(const Stmt* s, Array& items)
    {
        if (auto* c = dyn_cast<CaseStmt>(s)) {
            Object l;
            l["k"] = "case";
            l["v"] = expr(c->getLHS());
            if (c->getRHS()) l["v2"] = expr(c->getRHS());
            items.push_back(std::move(l));
            flattenCase(c->getSubStmt(), items);
            return;
        }
        if (auto* d = dyn_cast<DefaultStmt>(s)) {
            Object l;
            l["k"] = "default";
            items.push_back(std::move(l));
            flattenCase(d->getSubStmt(), items);
            return;
        }
        items.push_back(stmt(s));
    }

    void function(const FunctionDecl* fd)
    {
        if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext()) return;
        if (!inRepo(fd->getLocation())) return;
        std::string id = usr(fd);
        if (!done.insert(id).second) return;
        Object o;
        o["fn"] = id;
        o["q"] = qname(fd);
        o["name"] = fd->getNameAsString();
        o["file"] = fileOf(fd->getLocation());
        o["ln"] = lineOf(fd->getLocation());
        o["end"] = lineOf(fd->getEndLoc());
        o["ret"] = type(fd->getReturnType());
        Array ps;
        for (auto* p : fd->parameters()) ps.push_back(varDecl(p));
        o["params"] = std::move(ps);
        o["implicit"] = fd->isImplicit() || fd->isDefaulted();
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = qname(m->getParent());
            o["virt"] = m->isVirtual();
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["lambda"] = m->getParent()->isLambda();
            o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            Array ov;
            for (auto* x : m->overridden_methods()) ov.push_back(usr(x));
            o["overrides"] = std::move(ov);
            if (auto* cd = dyn_cast<CXXConstructorDecl>(fd)) {
                o["isctor"] = true;
                o["copy"] = cd->isCopyOrMoveConstructor();
                Array is;
                for (auto* i : cd->inits()) {
                    Object io;
                    if (i->isAnyMemberInitializer()) {
                        io["f"] = i->getAnyMember()->getNameAsString();
                        io["t"] = type(i->getAnyMember()->getType());
                        io["ref"] = i->getAnyMember()->getType()->isReferenceType();
                    }
                    else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                    else io["deleg"] = true;
                    io["written"] = i->isWritten();
                    io["e"] = expr(i->getInit());
                    is.push_back(std::move(io));
                }
                o["inits"] = std::move(is);
            }
            if (isa<CXXDestructorDecl>(fd)) o["isdtor"] = true;
        }
        o["body"] = stmt(fd->getBody());
        functions.push_back(std::move(o));
        while (!lambdaQueue.empty()) {
            auto* l = lambdaQueue.back();
            lambdaQueue.pop_back();
            function(l);
        }
    }

    void record(const CXXRecordDecl* rd)
    {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda()) return;
        if (!inRepo(rd->getLocation())) return;
        std::string q = qname(rd);
        std::string key = type(C.getRecordType(rd));
        if (!classDone.insert(key).second) return;
        Object o;
        o["q"] = q;
        o["t"] = key;
        o["file"] = fileOf(rd->getLocation());
        o["ln"] = lineOf(rd->getLocation());
        Array fs;
        for (auto* f : rd->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            fo["mutable"] = f->isMutable();
            fo["volatile"] = f->getType().isVolatileQualified();
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (auto& b : rd->bases()) bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        Array ms;
        for (auto* m : rd->methods()) {
            Object mo;
            mo["fn"] = usr(m);
            mo["name"] = m->getNameAsString();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["deleted"] = m->isDeleted();
            mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            mo["ctor"] = isa<CXXConstructorDecl>(m);
            Array pt;
            for (auto* p : m->parameters()) pt.push_back(type(p->getType()));
            mo["pt"] = std::move(pt);
            mo["minargs"] = (int64_t)m->getMinRequiredArguments();
            Array da;
            for (auto* p : m->parameters()) da.push_back(p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() ? expr(p->getDefaultArg()) : Value(nullptr));
            mo["defs"] = std::move(da);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        classes.push_back(std::move(o));
    }

    void enumd(const EnumDecl* ed)
    {
        if (!inRepo(ed->getLocation()) || !ed->isThisDeclarationADefinition()) return;
        Object o;
        o["q"] = qname(ed);
        Object vs;
        for (auto* c : ed->enumerators()) {
            llvm::SmallString<32> s;
            c->getInitVal().toString(s, 10);
            vs[c->getNameAsString()] = std::string(s.str());
        }
        o["v"] = std::move(vs);
        o["ut"] = type(ed->getIntegerType());
        enums.push_back(std::move(o));
    }

    void global(const VarDecl* v)
    {
        if (!inRepo(v->getLocation()) || v->isLocalVarDeclOrParm()) return;
        if (!v->hasInit() || v->getDeclContext()->isDependentContext()) return;
        Object o;
        o["id"] = "g:" + qname(v);
        o["t"] = type(v->getType());
        o["init"] = expr(v->getInit());
        if (auto* at = C.getAsConstantArrayType(v->getType())) o["n"] = (int64_t)at->getSize().getZExtValue();
        globals.push_back(std::move(o));
        while (!lambdaQueue.empty()) {
            auto* l = lambdaQueue.back();
            lambdaQueue.pop_back();
            function(l);
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper& D;
    explicit Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) { D.function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { D.record(r); return true; }
    bool VisitEnumDecl(EnumDecl* e) { D.enumd(e); return true; }
    bool VisitVarDecl(VarDecl* v) { D.global(v); return true; }
    bool TraverseStmt(Stmt*) { return true; } // bodies are walked by the dumper
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
        Dumper D(C);
        Visitor V(D);
        std::vector<Decl*> top;
        std::vector<DeclContext*> work{C.getTranslationUnitDecl()};
        while (!work.empty()) {
            auto* dc = work.back();
            work.pop_back();
            for (auto* d : dc->decls()) {
                if (auto* ns = dyn_cast<NamespaceDecl>(d)) {
                    if (D.inRepo(ns->getLocation())) work.push_back(ns);
                    continue;
                }
                if (auto* ls = dyn_cast<LinkageSpecDecl>(d)) { work.push_back(ls); continue; }
                if (D.inRepo(d->getLocation())) V.TraverseDecl(d);
            }
        }
        // in-class lambdas etc. are queued by the dumper
        Object o;
        o["functions"] = std::move(D.functions);
        o["classes"] = std::move(D.classes);
        o["enums"] = std::move(D.enums);
        o["globals"] = std::move(D.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << Value(std::move(o));
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char** argv)
{
    // extract ROOT OUT.json FILE -- flags...
    if (argc < 5) return 2;
    gRoot = argv[1];
    gOut = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc ? 3 : 0;
}
