// Exports the type-checked, resolved program (clang AST) of the repository's C++
// translation units as JSON, for the analyses in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static Array OutFuncs, OutRecords, OutGlobals, OutEnums;
static std::string TUName;

struct Exporter {
    ASTContext &C;
    const SourceManager &SM;
    std::map<const Decl *, int> Ids;
    PrintingPolicy PP;
    Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
    }
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L).str();
        return F;
    }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string F = fileOf(L);
        return F.compare(0, Root.size(), Root) == 0;
    }
    int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
    int idOf(const Decl *D) {
        D = D->getCanonicalDecl();
        auto It = Ids.find(D);
        if (It != Ids.end()) return It->second;
        int n = (int)Ids.size() + 1;
        Ids[D] = n;
        return n;
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        return T.getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    std::string tyq(QualType T) {
        if (T.isNull()) return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string tc(QualType T) {  // coarse class
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        if (T->isReferenceType()) T = T->getPointeeType();
        if (T->isBooleanType()) return "b";
        if (T->isEnumeralType()) return "e";
        if (T->isUnsignedIntegerType()) return "u";
        if (T->isIntegerType()) return "i";
        if (T->isFloatingType()) return "d";
        if (T->isPointerType()) return "p";
        if (T->isVoidType()) return "v";
        return "o";
    }
    std::string sig(const FunctionDecl *F) {
        std::string s = F->getQualifiedNameAsString() + "(";
        bool first = true;
        for (auto *P : F->parameters()) {
            if (!first) s += ",";
            first = false;
            s += tyq(P->getType());
        }
        s += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst()) s += " const";
        return s;
    }
    Object node(const char *k, SourceLocation L) {
        Object o;
        o["k"] = k;
        o["l"] = line(L);
        return o;
    }
    Value varref(const ValueDecl *D, SourceLocation L) {
        Object o = node("ref", L);
        o["n"] = D->getNameAsString();
        o["t"] = tc(D->getType());
        if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
            o["c"] = "enum";
            o["q"] = D->getQualifiedNameAsString();
            o["v"] = (int64_t)E->getInitVal().getExtValue();
        } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
            o["c"] = "func";
            o["id"] = sig(F);
            o["q"] = F->getQualifiedNameAsString();
        } else if (auto *V = dyn_cast<VarDecl>(D)) {
            o["ty"] = ty(V->getType());
            if (isa<ParmVarDecl>(V)) {
                o["c"] = "param";
                o["id"] = idOf(D);
            } else if (V->isLocalVarDecl() && !V->isStaticLocal()) {
                o["c"] = "local";
                o["id"] = idOf(D);
            } else {
                o["c"] = V->isStaticLocal() ? "static" : "global";
                o["q"] = D->getQualifiedNameAsString();
                o["id"] = idOf(D);
                o["const"] = V->getType().isConstQualified();
            }
        } else {
            o["c"] = "other";
            o["id"] = idOf(D);
        }
        return std::move(o);
    }
    // how the callee may touch its arguments: v value, c const ref/ptr, r ref, p ptr, w value of class type
    static void callinfo(Object &o, const FunctionDecl *F) {
        if (!F) return;
        std::string pk;
        for (auto *P : F->parameters()) {
            QualType q = P->getType();
            if (q->isReferenceType()) pk += q->getPointeeType().isConstQualified() || q->isRValueReferenceType() ? 'c' : 'r';
            else if (q->isPointerType()) pk += q->getPointeeType().isConstQualified() ? 'c' : 'p';
            else pk += 'v';
        }
        if (F->isVariadic()) pk += '.';
        o["pk"] = pk;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) o["cm"] = M->isConst() || M->isStatic();
        QualType r = F->getReturnType();
        o["rref"] = r->isReferenceType() || r->isPointerType();
    }
    Array exprs(llvm::ArrayRef<const Expr *> V) {
        Array a;
        for (auto *e : V) a.push_back(expr(e));
        return a;
    }
    Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent wrappers
        for (;;) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
                auto K = P->getCastKind();
                if (K == CK_FloatingToIntegral || K == CK_IntegralToFloating ||
                    K == CK_FloatingToBoolean || K == CK_IntegralToBoolean ||
                    K == CK_PointerToBoolean) {
                    Object o = node("cast", E->getBeginLoc());
                    o["t"] = tc(E->getType());
                    o["impl"] = true;
                    o["e"] = expr(P->getSubExpr());
                    return std::move(o);
                }
                if (K == CK_IntegralCast && tc(P->getType()) != tc(P->getSubExpr()->getType())) {
                    Object o = node("cast", E->getBeginLoc());
                    o["t"] = tc(E->getType());
                    o["impl"] = true;
                    o["e"] = expr(P->getSubExpr());
                    return std::move(o);
                }
                E = P->getSubExpr();
                continue;
            }
            break;
        }
        SourceLocation L = E->getBeginLoc();
        if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) {
            Object o = node("defarg", L);
            o["e"] = expr(D->getExpr());
            o["t"] = tc(E->getType());
            return std::move(o);
        }
        if (auto *I = dyn_cast<IntegerLiteral>(E)) {
            Object o = node("int", L);
            o["v"] = I->getValue().getLimitedValue() > INT64_MAX ? (int64_t)INT64_MAX : (int64_t)I->getValue().getLimitedValue();
            o["t"] = tc(E->getType());
            return std::move(o);
        }
        if (auto *F = dyn_cast<FloatingLiteral>(E)) {
            Object o = node("flt", L);
            o["v"] = F->getValueAsApproximateDouble();
            o["t"] = "d";
            return std::move(o);
        }
        if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) {
            Object o = node("bool", L);
            o["v"] = B->getValue();
            o["t"] = "b";
            return std::move(o);
        }
        if (auto *Ch = dyn_cast<CharacterLiteral>(E)) {
            Object o = node("int", L);
            o["v"] = (int64_t)Ch->getValue();
            o["t"] = "i";
            return std::move(o);
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            Object o = node("null", L);
            o["t"] = "p";
            return std::move(o);
        }
        if (auto *S = dyn_cast<StringLiteral>(E)) {
            Object o = node("str", L);
            o["v"] = llvm::json::fixUTF8(S->getBytes());
            o["t"] = "p";
            return std::move(o);
        }
        if (isa<PredefinedExpr>(E)) {
            Object o = node("str", L);
            o["v"] = "__func__";
            o["t"] = "p";
            return std::move(o);
        }
        if (auto *D = dyn_cast<DeclRefExpr>(E)) return varref(D->getDecl(), L);
        if (isa<CXXThisExpr>(E)) {
            Object o = node("this", L);
            o["t"] = "p";
            return std::move(o);
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) return varref(V, L);
            Object o = node("mem", L);
            o["n"] = M->getMemberDecl()->getNameAsString();
            o["arrow"] = M->isArrow();
            o["t"] = tc(M->getMemberDecl()->getType());
            o["ty"] = ty(M->getMemberDecl()->getType());
            if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) o["cls"] = FD->getParent()->getQualifiedNameAsString();
            if (auto *FD = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) o["m"] = sig(FD);
            o["e"] = expr(M->getBase());
            return std::move(o);
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            Object o = node("un", L);
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["t"] = tc(E->getType());
            o["e"] = expr(U->getSubExpr());
            return std::move(o);
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            const char *k = "bin";
            std::string op = B->getOpcodeStr().str();
            if (B->isAssignmentOp()) {
                k = "asg";
            }
            Object o = node(k, B->getOperatorLoc());
            o["op"] = op;
            o["t"] = tc(E->getType());
            o["a"] = expr(B->getLHS());
            o["b"] = expr(B->getRHS());
            return std::move(o);
        }
        if (auto *Co = dyn_cast<AbstractConditionalOperator>(E)) {
            Object o = node("cond", L);
            o["t"] = tc(E->getType());
            o["c"] = expr(Co->getCond());
            o["a"] = expr(Co->getTrueExpr());
            o["b"] = expr(Co->getFalseExpr());
            return std::move(o);
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            Object o = node("idx", L);
            o["t"] = tc(E->getType());
            o["a"] = expr(A->getBase());
            o["b"] = expr(A->getIdx());
            return std::move(o);
        }
        if (auto *Op = dyn_cast<CXXOperatorCallExpr>(E)) {
            const FunctionDecl *F = Op->getDirectCallee();
            Object o = node("call", Op->getOperatorLoc());
            o["t"] = tc(E->getType());
            o["ty"] = ty(E->getType());
            if (F) {
                o["f"] = F->getQualifiedNameAsString();
                if (inRoot(F->getLocation())) o["id"] = sig(F);
            } else
                o["f"] = std::string("operator") + getOperatorSpelling(Op->getOperator());
            o["op"] = getOperatorSpelling(Op->getOperator());
            callinfo(o, F);
            Array a;
            unsigned i = 0;
            bool member = F && isa<CXXMethodDecl>(F);
            for (auto *Ar : Op->arguments()) {
                if (i == 0 && member) o["obj"] = expr(Ar);
                else a.push_back(expr(Ar));
                i++;
            }
            o["args"] = std::move(a);
            return std::move(o);
        }
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
            Object o = node("call", MC->getExprLoc());
            o["t"] = tc(E->getType());
            o["ty"] = ty(E->getType());
            const CXXMethodDecl *F = MC->getMethodDecl();
            callinfo(o, F);
            if (F) {
                o["f"] = F->getQualifiedNameAsString();
                if (inRoot(F->getLocation())) {
                    o["id"] = sig(F);
                    bool q = false;
                    if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) q = ME->hasQualifier();
                    o["virt"] = F->isVirtual() && !q;
                }
            }
            if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                o["obj"] = expr(ME->getBase());
                o["arrow"] = ME->isArrow();
            } else
                o["obj"] = expr(MC->getImplicitObjectArgument());
            Array a;
            for (auto *Ar : MC->arguments()) a.push_back(expr(Ar));
            o["args"] = std::move(a);
            return std::move(o);
        }
        if (auto *Ca = dyn_cast<CallExpr>(E)) {
            Object o = node("call", Ca->getExprLoc());
            o["t"] = tc(E->getType());
            o["ty"] = ty(E->getType());
            const FunctionDecl *F = Ca->getDirectCallee();
            if (F) {
                o["f"] = F->getQualifiedNameAsString();
                if (inRoot(F->getLocation())) o["id"] = sig(F);
                if (F->isNoReturn()) o["noret"] = true;
                callinfo(o, F);
            } else {
                o["f"] = "<indirect>";
                o["callee"] = expr(Ca->getCallee());
            }
            Array a;
            for (auto *Ar : Ca->arguments()) a.push_back(expr(Ar));
            o["args"] = std::move(a);
            return std::move(o);
        }
        if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
            const CXXConstructorDecl *D = K->getConstructor();
            Object o = node("ctor", L);
            o["t"] = "o";
            o["ty"] = ty(E->getType());
            callinfo(o, D);
            o["f"] = D->getQualifiedNameAsString();
            if (inRoot(D->getLocation()) && D->isUserProvided()) o["id"] = sig(D);
            o["copy"] = D->isCopyOrMoveConstructor();
            o["list"] = K->isListInitialization() || K->isStdInitListInitialization();
            Array a;
            for (auto *Ar : K->arguments()) a.push_back(expr(Ar));
            o["args"] = std::move(a);
            return std::move(o);
        }
        if (auto *S = dyn_cast<CXXScalarValueInitExpr>(E)) {
            Object o = node("zero", L);
            o["t"] = tc(E->getType());
            return std::move(o);
        }
        if (auto *S = dyn_cast<ImplicitValueInitExpr>(E)) {
            Object o = node("zero", L);
            o["t"] = tc(E->getType());
            return std::move(o);
        }
        if (auto *Cs = dyn_cast<ExplicitCastExpr>(E)) {
            // explicit cast to class type through a constructor: keep the constructor
            Object o = node("cast", L);
            o["t"] = tc(E->getType());
            o["ty"] = ty(E->getType());
            o["e"] = expr(Cs->getSubExpr());
            if (isa<CXXConstCastExpr>(E)) o["constcast"] = true;
            o["style"] = E->getStmtClassName();
            QualType S = Cs->getSubExprAsWritten()->getType(), D = E->getType();
            auto pointee = [](QualType q) { return q->isPointerType() || q->isReferenceType() ? q->getPointeeType() : q; };
            if (D->isPointerType() && S->isPointerType() && pointee(S).isConstQualified() && !pointee(D).isConstQualified()) o["dropconst"] = true;
            return std::move(o);
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            Object o = node("new", L);
            o["t"] = "p";
            o["ty"] = ty(N->getAllocatedType());
            o["array"] = N->isArray();
            if (N->getInitializer()) o["init"] = expr(N->getInitializer());
            else if (N->getConstructExpr()) o["init"] = expr(N->getConstructExpr());
            if (N->isArray() && N->getArraySize()) o["size"] = expr(*N->getArraySize());
            return std::move(o);
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
            Object o = node("delete", L);
            o["t"] = "v";
            o["e"] = expr(D->getArgument());
            return std::move(o);
        }
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            Object o = node("init", L);
            o["t"] = tc(E->getType());
            o["ty"] = ty(E->getType());
            Array a;
            for (unsigned i = 0; i < I->getNumInits(); i++) a.push_back(expr(I->getInit(i)));
            o["args"] = std::move(a);
            if (auto *RT = E->getType()->getAs<RecordType>()) {
                Array fl;
                for (auto *F : RT->getDecl()->fields()) fl.push_back(F->getNameAsString());
                o["fields"] = std::move(fl);
            }
            return std::move(o);
        }
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
            Object o = node("throw", L);
            o["t"] = "v";
            o["e"] = T->getSubExpr() ? expr(T->getSubExpr()) : Value(nullptr);
            return std::move(o);
        }
        if (auto *S = dyn_cast<StmtExpr>(E)) {
            Object o = node("sexpr", L);
            o["t"] = tc(E->getType());
            o["b"] = stmt(S->getSubStmt());
            return std::move(o);
        }
        if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Object o = node("sizeof", L);
            o["t"] = "u";
            o["ty"] = ty(S->getTypeOfArgument());
            return std::move(o);
        }
        if (auto *Lm = dyn_cast<LambdaExpr>(E)) {
            Object o = node("lambda", L);
            o["t"] = "o";
            Array caps;
            for (auto &c : Lm->captures()) {
                Object co;
                if (c.capturesVariable()) {
                    co["v"] = idOf(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                } else if (c.capturesThis())
                    co["this"] = true;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            Array ps;
            for (auto *P : Lm->getCallOperator()->parameters()) ps.push_back(param(P));
            o["params"] = std::move(ps);
            o["b"] = stmt(Lm->getBody());
            o["id"] = sig(Lm->getCallOperator());
            return std::move(o);
        }
        Object o = node("unk", L);
        o["t"] = tc(E->getType());
        o["cls"] = E->getStmtClassName();
        Array a;
        for (auto *Ch : E->children())
            if (auto *X = dyn_cast_or_null<Expr>(Ch)) a.push_back(expr(X));
        o["args"] = std::move(a);
        return std::move(o);
    }
    Value param(const ParmVarDecl *P) {
        Object o;
        o["n"] = P->getNameAsString();
        o["id"] = idOf(P);
        o["ty"] = tyq(P->getType());
        QualType T = P->getType().getCanonicalType();
        o["t"] = tc(T);
        o["ref"] = T->isReferenceType();
        o["ptr"] = T->isPointerType();
        bool cst = false;
        if (T->isReferenceType() || T->isPointerType()) cst = T->getPointeeType().isConstQualified();
        o["const"] = cst;
        if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) o["def"] = expr(P->getDefaultArg());
        return std::move(o);
    }
    Value vardecl(const VarDecl *V) {
        Object o = node("var", V->getLocation());
        o["n"] = V->getNameAsString();
        o["id"] = idOf(V);
        o["ty"] = tyq(V->getType());
        QualType T = V->getType().getCanonicalType();
        o["t"] = tc(T);
        o["ref"] = T->isReferenceType();
        o["ptr"] = T->isPointerType();
        o["const"] = T.isConstQualified();
        o["static"] = V->isStaticLocal();
        o["isarr"] = T->isArrayType();
        if (auto *CA = C.getAsConstantArrayType(T)) o["arrn"] = (int64_t)CA->getSize().getLimitedValue();
        if (auto *VA = C.getAsVariableArrayType(T)) o["arrsz"] = expr(VA->getSizeExpr());
        if (V->getInit()) o["init"] = expr(V->getInit());
        return std::move(o);
    }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        SourceLocation L = S->getBeginLoc();
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            Object o = node("blk", L);
            Array a;
            for (auto *c : X->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            o["end"] = line(X->getRBracLoc());
            return std::move(o);
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            Object o = node("decl", L);
            Array a;
            for (auto *d : X->decls())
                if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
            o["v"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            Object o = node("if", L);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            o["b"] = stmt(X->getElse());
            return std::move(o);
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            Object o = node("for", L);
            o["init"] = stmt(X->getInit());
            o["c"] = expr(X->getCond());
            o["inc"] = expr(X->getInc());
            o["b"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            Object o = node("while", L);
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<DoStmt>(S)) {
            Object o = node("do", L);
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            Object o = node("rfor", L);
            o["v"] = vardecl(X->getLoopVariable());
            o["e"] = expr(X->getRangeInit());
            o["b"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            Object o = node("switch", L);
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            Object o = node("case", L);
            o["e"] = expr(X->getLHS());
            o["b"] = stmt(X->getSubStmt());
            return std::move(o);
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) {
            Object o = node("default", L);
            o["b"] = stmt(X->getSubStmt());
            return std::move(o);
        }
        if (isa<BreakStmt>(S)) return node("break", L);
        if (isa<ContinueStmt>(S)) return node("continue", L);
        if (auto *X = dyn_cast<ReturnStmt>(S)) {
            Object o = node("ret", L);
            o["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr);
            return std::move(o);
        }
        if (isa<NullStmt>(S)) return node("nop", L);
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            Object o = node("try", L);
            o["b"] = stmt(X->getTryBlock());
            Array a;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                Object h = node("catch", X->getHandler(i)->getBeginLoc());
                h["ty"] = X->getHandler(i)->getCaughtType().isNull() ? "..." : ty(X->getHandler(i)->getCaughtType());
                h["b"] = stmt(X->getHandler(i)->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
            Object o = node("omp", L);
            o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
            Array cl;
            for (auto *Cl : X->clauses()) {
                Object c;
                c["c"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
                c["l"] = line(Cl->getBeginLoc());
                Array vars;
                auto addv = [&](const Expr *e) {
                    if (auto *D = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts())) vars.push_back(varref(D->getDecl(), L));
                };
                if (auto *P = dyn_cast<OMPPrivateClause>(Cl)) for (auto *e : P->varlists()) addv(e);
                if (auto *P = dyn_cast<OMPFirstprivateClause>(Cl)) for (auto *e : P->varlists()) addv(e);
                if (auto *P = dyn_cast<OMPLastprivateClause>(Cl)) for (auto *e : P->varlists()) addv(e);
                if (auto *P = dyn_cast<OMPSharedClause>(Cl)) for (auto *e : P->varlists()) addv(e);
                if (auto *P = dyn_cast<OMPReductionClause>(Cl)) for (auto *e : P->varlists()) addv(e);
                if (auto *P = dyn_cast<OMPIfClause>(Cl)) c["e"] = expr(P->getCondition());
                if (auto *P = dyn_cast<OMPNumThreadsClause>(Cl)) c["e"] = expr(P->getNumThreads());
                if (auto *P = dyn_cast<OMPCollapseClause>(Cl)) c["e"] = expr(P->getNumForLoops());
                c["vars"] = std::move(vars);
                cl.push_back(std::move(c));
            }
            o["cl"] = std::move(cl);
            if (X->hasAssociatedStmt()) {
                const Stmt *B = X->getRawStmt();
                while (auto *CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
                o["b"] = stmt(B);
            }
            return std::move(o);
        }
        if (auto *X = dyn_cast<LabelStmt>(S)) {
            Object o = node("label", L);
            o["n"] = X->getName();
            o["b"] = stmt(X->getSubStmt());
            return std::move(o);
        }
        if (auto *X = dyn_cast<GotoStmt>(S)) {
            Object o = node("goto", L);
            o["n"] = X->getLabel()->getNameAsString();
            return std::move(o);
        }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto *E = dyn_cast<Expr>(S)) {
            Object o = node("expr", L);
            o["e"] = expr(E);
            return std::move(o);
        }
        Object o = node("unkstmt", L);
        o["cls"] = S->getStmtClassName();
        return std::move(o);
    }
    void function(const FunctionDecl *F) {
        if (F->isDependentContext()) return;
        if (!F->doesThisDeclarationHaveABody()) return;
        if (!inRoot(F->getLocation())) return;
        if (F->isDefaulted() || F->isDeleted()) return;
        Object o;
        o["q"] = F->getQualifiedNameAsString();
        o["name"] = F->getNameAsString();
        o["id"] = sig(F);
        o["file"] = fileOf(F->getLocation()).substr(Root.size());
        o["l"] = line(F->getLocation());
        o["tu"] = TUName;
        o["ret"] = tyq(F->getReturnType());
        o["rett"] = tc(F->getReturnType());
        o["retref"] = F->getReturnType()->isReferenceType();
        o["static"] = F->getStorageClass() == SC_Static;
        Array ps;
        for (auto *P : F->parameters()) {
            // default args may sit on the first declaration
            Value pv = param(P);
            ps.push_back(std::move(pv));
        }
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = M->getParent()->getQualifiedNameAsString();
            o["virtual"] = M->isVirtual();
            o["const"] = M->isConst();
            o["isstatic"] = M->isStatic();
            Array ov;
            for (auto *B : M->overridden_methods()) ov.push_back(sig(B));
            o["overrides"] = std::move(ov);
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["kind"] = "ctor";
            Array ins;
            for (auto *I : K->inits()) {
                Object io;
                io["l"] = line(I->getSourceLocation());
                if (I->isAnyMemberInitializer()) {
                    io["field"] = I->getAnyMember()->getNameAsString();
                    io["ref"] = I->getAnyMember()->getType()->isReferenceType();
                }
                else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) io["deleg"] = true;
                io["written"] = I->isWritten();
                io["e"] = expr(I->getInit());
                ins.push_back(std::move(io));
            }
            o["inits"] = std::move(ins);
        } else if (isa<CXXDestructorDecl>(F))
            o["kind"] = "dtor";
        else
            o["kind"] = "func";
        o["b"] = stmt(F->getBody());
        o["end"] = line(F->getBody()->getEndLoc());
        OutFuncs.push_back(std::move(o));
    }
    void record(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
        if (!inRoot(R->getLocation()) || R->isLambda()) return;
        Object o;
        o["q"] = R->getQualifiedNameAsString();
        o["file"] = fileOf(R->getLocation()).substr(Root.size());
        o["l"] = line(R->getLocation());
        o["tu"] = TUName;
        Array b, f, m;
        for (auto &B : R->bases()) b.push_back(ty(B.getType()));
        for (auto *F : R->fields()) {
            Object fo;
            fo["n"] = F->getNameAsString();
            fo["ty"] = tyq(F->getType());
            fo["t"] = tc(F->getType());
            fo["ref"] = F->getType()->isReferenceType();
            fo["ptr"] = F->getType()->isPointerType();
            fo["mutable"] = F->isMutable();
            fo["l"] = line(F->getLocation());
            if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
            f.push_back(std::move(fo));
        }
        for (auto *D : R->decls())
            if (auto *V = dyn_cast<VarDecl>(D)) {
                Object fo;
                fo["n"] = V->getNameAsString();
                fo["ty"] = tyq(V->getType());
                fo["static"] = true;
                fo["l"] = line(V->getLocation());
                f.push_back(std::move(fo));
            }
        for (auto *M : R->methods()) {
            if (M->isImplicit()) continue;
            Object mo;
            mo["n"] = M->getNameAsString();
            mo["id"] = sig(M);
            mo["virtual"] = M->isVirtual();
            Array ov;
            for (auto *B : M->overridden_methods()) ov.push_back(sig(B));
            mo["overrides"] = std::move(ov);
            m.push_back(std::move(mo));
        }
        o["usercopy"] = R->hasUserDeclaredCopyConstructor();
        o["userassign"] = R->hasUserDeclaredCopyAssignment();
        o["userdtor"] = R->hasUserDeclaredDestructor();
        o["bases"] = std::move(b);
        o["fields"] = std::move(f);
        o["methods"] = std::move(m);
        OutRecords.push_back(std::move(o));
    }
    void global(const VarDecl *V) {
        if (!inRoot(V->getLocation())) return;
        if (V->isLocalVarDecl() && !V->isStaticLocal()) return;
        if (isa<ParmVarDecl>(V)) return;
        Object o;
        o["q"] = V->getQualifiedNameAsString();
        o["n"] = V->getNameAsString();
        o["id"] = idOf(V);
        o["file"] = fileOf(V->getLocation()).substr(Root.size());
        o["l"] = line(V->getLocation());
        o["tu"] = TUName;
        o["ty"] = tyq(V->getType());
        o["const"] = V->getType().isConstQualified();
        o["staticlocal"] = V->isStaticLocal();
        o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        if (V->isStaticLocal())
            if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) o["func"] = sig(F);
        o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        if (V->getInit()) o["init"] = expr(V->getInit());
        OutGlobals.push_back(std::move(o));
    }
};

struct Vis : RecursiveASTVisitor<Vis> {
    Exporter &X;
    std::set<const Decl *> Seen;
    Vis(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { if (Seen.insert(F).second) X.function(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (Seen.insert(R).second) X.record(R); return true; }
    bool VisitVarDecl(VarDecl *V) { if (Seen.insert(V).second) X.global(V); return true; }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!X.inRoot(E->getLocation())) return true;
        Object o;
        o["q"] = E->getQualifiedNameAsString();
        Object vals;
        for (auto *C : E->enumerators()) vals[C->getNameAsString()] = (int64_t)C->getInitVal().getExtValue();
        o["vals"] = std::move(vals);
        o["file"] = X.fileOf(E->getLocation()).substr(Root.size());
        OutEnums.push_back(std::move(o));
        return true;
    }
};
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        Exporter X(C);
        Vis V(X);
        for (auto *D : C.getTranslationUnitDecl()->decls()) {
            if (!X.inRoot(D->getLocation()) && !isa<LinkageSpecDecl>(D) && !isa<NamespaceDecl>(D)) continue;
            if (auto *N = dyn_cast<NamespaceDecl>(D)) if (N->isStdNamespace()) continue;
            if (!X.inRoot(D->getLocation())) continue;
            V.TraverseDecl(D);
        }
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef F) override {
        TUName = F.str().substr(Root.size());
        return std::make_unique<Cons>();
    }
};
int main(int argc, char **argv) {
    // export ROOT/ file.cpp -- flags
    if (argc < 3) return 2;
    Root = argv[1];
    if (Root.back() != '/') Root += '/';
    std::vector<std::string> files, flags;
    bool fl = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--") { fl = true; continue; }
        (fl ? flags : files).push_back(a);
    }
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, files);
    int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
    Object o;
    o["functions"] = std::move(OutFuncs);
    o["records"] = std::move(OutRecords);
    o["globals"] = std::move(OutGlobals);
    o["enums"] = std::move(OutEnums);
    llvm::outs() << Value(std::move(o)) << "\n";
    return rc;
}
