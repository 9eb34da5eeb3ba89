// Extracts a typed, resolved, instantiated syntax tree of the functions and
// classes that are defined in a source tree, as compact JSON.
//
// usage: extract OUT.json ROOT[,ROOT..] file.cpp -- <compiler flags>
//
// Only declarations whose (expansion) location lies below one of the ROOTs are
// written.  Templates are written in their instantiated form only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutPath;
static std::vector<std::string> Roots;

namespace {
class Dumper {
  public:
    Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
    }
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> TypeIdx;
    Array Types, Files, Functions, Records, Enums, Globals;
    std::map<std::string, int> FileIdx;
    std::map<const Decl*, int> DeclId;
    std::set<const Decl*> Done;
    std::vector<const FunctionDecl*> Work;

    int id(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = DeclId.find(D);
        if (it != DeclId.end()) return it->second;
        int n = DeclId.size() + 1;
        DeclId[D] = n;
        return n;
    }
    std::string typeStr(QualType T) {
        if (T.isNull()) return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    int ty(QualType T) {
        std::string s = typeStr(T);
        auto it = TypeIdx.find(s);
        if (it != TypeIdx.end()) return it->second;
        int n = TypeIdx.size();
        TypeIdx[s] = n;
        Types.push_back(s);
        return n;
    }
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L, false);
        if (P.isInvalid()) return "";
        return P.getFilename();
    }
    bool inRoots(const Decl* D) {
        std::string f = fileOf(D->getLocation());
        llvm::SmallString<256> real;
        if (!llvm::sys::fs::real_path(f, real)) f = std::string(real.str());
        for (auto &r : Roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    Value loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L, false);
        if (P.isInvalid()) return Array{0, 0};
        std::string f = P.getFilename();
        auto it = FileIdx.find(f);
        int n;
        if (it == FileIdx.end()) {
            n = FileIdx.size();
            FileIdx[f] = n;
            Files.push_back(f);
        } else
            n = it->second;
        return Array{n, (int64_t)P.getLine()};
    }
    std::string recName(const CXXRecordDecl* R) {
        if (!R) return "";
        return Ctx.getRecordType(R).getCanonicalType().getAsString(PP);
    }
    // class name without template arguments
    std::string recBase(const CXXRecordDecl* R) {
        if (!R) return "";
        return R->getQualifiedNameAsString();
    }
    Object fnRef(const FunctionDecl* F) {
        Object o;
        o["id"] = id(F);
        o["n"] = F->getNameAsString();
        o["q"] = F->getQualifiedNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            o["clsb"] = recBase(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->getParent()->isLambda()) o["lambda"] = true;
        }
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            Array a;
            for (auto &A : TA->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                A.print(PP, os, true);
                a.push_back(os.str());
            }
            o["targs"] = std::move(a);
        }
        Array pt;
        for (auto* P : F->parameters()) pt.push_back(ty(P->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = ty(F->getReturnType());
        if (F->isImplicit() || F->isDefaulted()) o["dflt"] = true;
        const FunctionDecl* Def = nullptr;
        if (F->hasBody(Def) && Def && inRoots(Def)) {
            o["src"] = true;
            want(Def);
        } else if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            if (inRoots(CD)) { o["src"] = true; want(CD); }
        }
        return o;
    }
    void want(const FunctionDecl* F) {
        if (F->isDependentContext()) return;
        if (Done.insert(F->getCanonicalDecl()).second) Work.push_back(F);
    }

    // ---------------------------------------------------------------- expr
    Object mk(const char* k, const Expr* E) {
        Object o;
        o["k"] = k;
        o["t"] = ty(E->getType());
        if (E->isGLValue()) o["lv"] = true;
        o["l"] = loc(E->getBeginLoc());
        return o;
    }
    Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
        Array a;
        for (auto* A : R) a.push_back(expr(A));
        return a;
    }
    Value expr(const Expr* E) {
        if (!E) return nullptr;
        // Transparent wrappers
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            Object o = mk("mat", E);
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<OpaqueValueExpr>(E))
            if (X->getSourceExpr()) return expr(X->getSourceExpr());
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            Object o = mk("int", E);
            llvm::SmallString<32> s;
            X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
            return o;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E)) {
            Object o = mk("int", E);
            o["v"] = std::to_string(X->getValue());
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            Object o = mk("flt", E);
            std::string txt = Lexer::getSourceText(
                CharSourceRange::getTokenRange(SM.getSpellingLoc(X->getBeginLoc()), SM.getSpellingLoc(X->getEndLoc())), SM, Ctx.getLangOpts()).str();
            o["src"] = txt;
            llvm::SmallString<64> s;
            X->getValue().toString(s, 0, 0);
            o["v"] = s.str().str();
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            Object o = mk("bool", E);
            o["v"] = X->getValue();
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
        if (auto* X = dyn_cast<StringLiteral>(E)) {
            Object o = mk("str", E);
            o["v"] = X->isOrdinary() ? X->getString().str() : std::string("?");
            if (!llvm::json::isUTF8(X->getString())) o["v"] = "?";
            return o;
        }
        if (isa<PredefinedExpr>(E)) {
            Object o = mk("str", E);
            o["v"] = "__func__";
            return o;
        }
        if (isa<CXXThisExpr>(E)) return mk("this", E);
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            auto* D = X->getDecl();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                Object o = mk("enum", E);
                o["n"] = EC->getNameAsString();
                llvm::SmallString<32> s;
                EC->getInitVal().toString(s, 10);
                o["v"] = s.str().str();
                return o;
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                Object o = mk("fn", E);
                o["f"] = fnRef(F);
                return o;
            }
            Object o = mk("var", E);
            o["n"] = D->getNameAsString();
            o["id"] = id(D);
            if (auto* B = dyn_cast<BindingDecl>(D)) {
                o["bind"] = expr(B->getBinding());
            }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->hasGlobalStorage()) {
                    o["glob"] = true;
                    o["q"] = V->getQualifiedNameAsString();
                    if (V->isStaticLocal()) o["slocal"] = true;
                    // constant initialiser, if any
                    if (V->getType().isConstQualified() && V->getAnyInitializer() && inRoots(V) && !V->getType()->isDependentType())
                        noteGlobal(V);
                }
                o["dt"] = ty(V->getType());
            }
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) {
                Object o = mk("var", E);
                o["n"] = V->getNameAsString();
                o["id"] = id(V);
                o["glob"] = true;
                o["q"] = V->getQualifiedNameAsString();
                o["dt"] = ty(V->getType());
                if (V->getType().isConstQualified() && V->getAnyInitializer()) noteGlobal(V);
                return o;
            }
            if (auto* EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) {
                Object o = mk("enum", E);
                o["n"] = EC->getNameAsString();
                llvm::SmallString<32> s;
                EC->getInitVal().toString(s, 10);
                o["v"] = s.str().str();
                return o;
            }
            Object o = mk("mem", E);
            o["b"] = expr(X->getBase());
            o["f"] = X->getMemberDecl()->getNameAsString();
            o["arrow"] = X->isArrow();
            if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
                if (auto* R = dyn_cast<CXXRecordDecl>(FD->getParent())) {
                    o["cls"] = recName(R);
                    o["clsb"] = recBase(R);
                    noteRecord(R);
                }
                o["dt"] = ty(FD->getType());
            } else if (auto* M = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
                o["fn"] = fnRef(M);
            }
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            Object o = mk("idx", E);
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            Object o = mk("un", E);
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["post"] = X->isPostfix();
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
            Object o = mk("casg", E);
            std::string op = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
            op.pop_back();
            o["op"] = op;
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            Object o = mk(X->getOpcode() == BO_Assign ? "asg" : "bin", E);
            o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<ConditionalOperator>(E)) {
            Object o = mk("cond", E);
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            return o;
        }
        if (auto* X = dyn_cast<CastExpr>(E)) {
            switch (X->getCastKind()) {
                case CK_LValueToRValue: {
                    Object o = mk("load", E);
                    o["e"] = expr(X->getSubExpr());
                    return o;
                }
                case CK_NoOp:
                case CK_ConstructorConversion:
                case CK_FunctionToPointerDecay:
                case CK_BuiltinFnToFnPtr:
                    return expr(X->getSubExpr());
                case CK_NullToPointer:
                    return mk("null", E);
                default: {
                    Object o = mk("cast", E);
                    o["ck"] = X->getCastKindName();
                    if (isa<CXXDynamicCastExpr>(X)) o["dyn"] = true;
                    o["e"] = expr(X->getSubExpr());
                    return o;
                }
            }
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object o = mk("call", E);
            o["oper"] = getOperatorSpelling(X->getOperator());
            if (auto* F = X->getDirectCallee()) {
                o["f"] = fnRef(F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                    o["obj"] = expr(X->getArg(0));
                    Array a;
                    for (unsigned i = 1; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
                    o["args"] = std::move(a);
                    return o;
                }
            }
            o["args"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            Object o = mk("call", E);
            if (auto* M = X->getMethodDecl()) {
                o["f"] = fnRef(M);
                const Expr* Obj = X->getImplicitObjectArgument();
                o["obj"] = expr(Obj);
                if (Obj->getType()->isPointerType()) o["objptr"] = true;
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
                    if (ME->hasQualifier()) o["nonvirt"] = true;
            } else
                o["callee"] = expr(X->getCallee());
            o["args"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            Object o = mk("call", E);
            if (auto* F = X->getDirectCallee())
                o["f"] = fnRef(F);
            else
                o["callee"] = expr(X->getCallee());
            o["args"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            auto* CD = X->getConstructor();
            if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
            Object o = mk("ctor", E);
            o["f"] = fnRef(CD);
            if (CD->isCopyConstructor()) o["copy"] = true;
            if (CD->isMoveConstructor()) o["move"] = true;
            if (CD->isDefaultConstructor()) o["def"] = true;
            Array a;
            for (auto* A : X->arguments()) a.push_back(expr(A));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            if (X->isTransparent()) return expr(X->getInit(0));
            Object o = mk("init", E);
            Array a;
            for (auto* A : X->inits()) a.push_back(expr(A));
            o["e"] = std::move(a);
            if (X->hasArrayFiller()) o["fill"] = expr(X->getArrayFiller());
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E);
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            Object o = mk("new", E);
            o["at"] = ty(X->getAllocatedType());
            if (X->isArray()) {
                o["arr"] = true;
                if (X->getArraySize()) o["n"] = expr(*X->getArraySize());
            }
            if (X->getInitializer()) o["init"] = expr(X->getInitializer());
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            Object o = mk("delete", E);
            o["arr"] = X->isArrayForm();
            o["dt"] = ty(X->getDestroyedType());
            o["e"] = expr(X->getArgument());
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            Object o = mk("throw", E);
            if (X->getSubExpr()) o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            Object o = mk("lambda", E);
            auto* M = X->getCallOperator();
            o["f"] = fnRef(M);
            Array caps;
            auto init = X->capture_init_begin();
            for (auto &C : X->captures()) {
                Object c;
                if (C.capturesVariable()) {
                    c["id"] = id(C.getCapturedVar());
                    c["n"] = C.getCapturedVar()->getNameAsString();
                    c["ref"] = C.getCaptureKind() == LCK_ByRef;
                    c["init"] = expr(*init);
                } else if (C.capturesThis())
                    c["this"] = true;
                caps.push_back(std::move(c));
                ++init;
            }
            o["caps"] = std::move(caps);
            Array ps;
            for (auto* P : M->parameters()) ps.push_back(param(P));
            o["params"] = std::move(ps);
            if (auto* T = M->getDescribedFunctionTemplate()) {
                // generic lambda: the bodies that were instantiated
                Array specs;
                for (auto* F : T->specializations()) {
                    if (!F->getBody()) continue;
                    Object so;
                    so["f"] = fnRef(F);
                    Array sp;
                    for (auto* P : F->parameters()) sp.push_back(param(P));
                    so["params"] = std::move(sp);
                    so["body"] = stmt(F->getBody());
                    specs.push_back(std::move(so));
                }
                o["specs"] = std::move(specs);
                o["body"] = nullptr;
                return o;
            }
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Object o = mk("sizeof", E);
            o["at"] = ty(X->getTypeOfArgument());
            Expr::EvalResult R;
            if (X->EvaluateAsInt(R, Ctx)) {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                o["v"] = s.str().str();
            }
            return o;
        }
        if (auto* X = dyn_cast<TypeTraitExpr>(E)) {
            Object o = mk("bool", E);
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) {
            Object o = mk("bool", E);
            o["v"] = X->getValue();
            return o;
        }
        if (isa<CXXPseudoDestructorExpr>(E)) return mk("pseudo", E);
        Object o = mk("other", E);
        o["cn"] = E->getStmtClassName();
        Array a;
        for (auto* C : E->children())
            if (auto* CE = dyn_cast_or_null<Expr>(C)) a.push_back(expr(CE));
        o["ch"] = std::move(a);
        return o;
    }
    void noteGlobal(const VarDecl* V) {
        static std::set<const Decl*> seen;
        if (!seen.insert(V->getCanonicalDecl()).second) return;
        Object o;
        o["id"] = id(V);
        o["q"] = V->getQualifiedNameAsString();
        o["t"] = ty(V->getType());
        if (auto* I = V->getAnyInitializer()) o["init"] = expr(I);
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        Globals.push_back(std::move(o));
    }

    Object param(const ParmVarDecl* P) {
        Object o;
        o["id"] = id(P);
        o["n"] = P->getNameAsString();
        o["t"] = ty(P->getType());
        if (P->getType()->isReferenceType()) o["ref"] = true;
        return o;
    }
    Value varDecl(const VarDecl* V) {
        Object o;
        o["id"] = id(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        o["l"] = loc(V->getLocation());
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = expr(V->getInit());
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            Array b;
            for (auto* B : DD->bindings()) {
                Object x;
                x["id"] = id(B);
                x["n"] = B->getNameAsString();
                if (auto* HV = B->getHoldingVar()) {
                    x["hold"] = id(HV);
                    if (HV->getInit()) x["init"] = expr(HV->getInit());
                }
                b.push_back(std::move(x));
            }
            o["bind"] = std::move(b);
        }
        if (auto* RT = V->getType().getCanonicalType()->getAs<ReferenceType>()) (void)RT;
        if (auto* R = V->getType()->getAsCXXRecordDecl()) noteRecord(R);
        return o;
    }

    // ---------------------------------------------------------------- stmt
    Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) {
            Object o;
            o["k"] = "expr";
            o["l"] = loc(E->getBeginLoc());
            o["e"] = expr(E);
            return o;
        }
        Object o;
        o["l"] = loc(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            o["k"] = "block";
            Array a;
            for (auto* C : X->body()) a.push_back(stmt(C));
            o["s"] = std::move(a);
        } else if (auto* X = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            Array a;
            for (auto* D : X->decls())
                if (auto* V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
            o["d"] = std::move(a);
        } else if (auto* X = dyn_cast<IfStmt>(S)) {
            o["k"] = "if";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            if (X->getElse()) o["b"] = stmt(X->getElse());
            if (X->isConstexpr()) o["cexpr"] = true;
        } else if (auto* X = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while";
            if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["s"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<DoStmt>(S)) {
            o["k"] = "do";
            o["c"] = expr(X->getCond());
            o["s"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<ForStmt>(S)) {
            o["k"] = "for";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["inc"] = expr(X->getInc());
            o["s"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rfor";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            o["r"] = expr(X->getRangeInit());
            o["v"] = varDecl(X->getLoopVariable());
            o["s"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "ret";
            if (X->getRetValue()) o["e"] = expr(X->getRetValue());
        } else if (isa<BreakStmt>(S)) {
            o["k"] = "break";
        } else if (isa<ContinueStmt>(S)) {
            o["k"] = "continue";
        } else if (isa<NullStmt>(S)) {
            o["k"] = "nop";
        } else if (auto* X = dyn_cast<SwitchStmt>(S)) {
            o["k"] = "switch";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["s"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<CaseStmt>(S)) {
            o["k"] = "case";
            o["v"] = expr(X->getLHS());
            o["s"] = stmt(X->getSubStmt());
        } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
            o["k"] = "default";
            o["s"] = stmt(X->getSubStmt());
        } else if (auto* X = dyn_cast<LabelStmt>(S)) {
            o["k"] = "label";
            o["n"] = X->getName();
            o["s"] = stmt(X->getSubStmt());
        } else if (auto* X = dyn_cast<GotoStmt>(S)) {
            o["k"] = "goto";
            o["n"] = X->getLabel()->getNameAsString();
        } else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try";
            o["s"] = stmt(X->getTryBlock());
            Array h;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                auto* H = X->getHandler(i);
                Object c;
                if (H->getExceptionDecl()) c["v"] = varDecl(H->getExceptionDecl());
                c["s"] = stmt(H->getHandlerBlock());
                h.push_back(std::move(c));
            }
            o["h"] = std::move(h);
        } else if (auto* X = dyn_cast<AttributedStmt>(S)) {
            return stmt(X->getSubStmt());
        } else {
            o["k"] = "otherstmt";
            o["cn"] = S->getStmtClassName();
        }
        return o;
    }

    std::set<const Decl*> RecSeen;
    void noteRecord(const CXXRecordDecl* R) {
        if (!R || !R->hasDefinition()) return;
        R = R->getDefinition();
        if (R->isDependentContext()) return;
        const CXXRecordDecl* Pat = R->getTemplateInstantiationPattern();
        if (!Pat) Pat = R;
        if (!inRoots(Pat)) return;
        if (!RecSeen.insert(R).second) return;
        Object o;
        o["n"] = recName(R);
        o["b"] = recBase(R);
        o["l"] = loc(Pat->getLocation());
        Array f;
        for (auto* F : R->fields()) {
            Object x;
            x["n"] = F->getNameAsString();
            x["t"] = ty(F->getType());
            x["acc"] = (int)F->getAccess();
            if (F->isMutable()) x["mut"] = true;
            if (F->getInClassInitializer()) x["init"] = expr(F->getInClassInitializer());
            f.push_back(std::move(x));
        }
        o["f"] = std::move(f);
        Array sv;
        for (auto* D : R->decls())
            if (auto* V = dyn_cast<VarDecl>(D)) {
                Object x;
                x["n"] = V->getNameAsString();
                x["t"] = ty(V->getType());
                x["id"] = id(V);
                sv.push_back(std::move(x));
            }
        o["statics"] = std::move(sv);
        Array b;
        for (auto &B : R->bases())
            if (auto* BR = B.getType()->getAsCXXRecordDecl()) {
                b.push_back(recName(BR));
                noteRecord(BR);
            }
        o["bases"] = std::move(b);
        // copyability
        auto state = [&](bool copyctor) -> std::string {
            if (copyctor) {
                for (auto* C : R->ctors())
                    if (C->isCopyConstructor())
                        return C->isDeleted() ? "deleted" : (C->isUserProvided() ? "user" : "default");
                return R->needsImplicitCopyConstructor() ? (R->defaultedCopyConstructorIsDeleted() ? "deleted" : "implicit") : "none";
            }
            for (auto* M : R->methods())
                if (M->isCopyAssignmentOperator())
                    return M->isDeleted() ? "deleted" : (M->isUserProvided() ? "user" : "default");
            return R->needsImplicitCopyAssignment() ? "implicit" : "none";
        };
        o["copyctor"] = state(true);
        o["copyasg"] = state(false);
        {
            std::string mc = "none", ma = "none";
            for (auto* C : R->ctors())
                if (C->isMoveConstructor() && !C->isImplicit()) mc = C->isDeleted() ? "deleted" : (C->isUserProvided() ? "user" : "default");
            for (auto* M : R->methods())
                if (M->isMoveAssignmentOperator() && !M->isImplicit()) ma = M->isDeleted() ? "deleted" : (M->isUserProvided() ? "user" : "default");
            o["movector"] = mc;
            o["moveasg"] = ma;
        }
        if (auto* D = R->getDestructor()) {
            o["dtor"] = id(D);
            if (D->isVirtual()) o["vdtor"] = true;
            if (D->isUserProvided()) o["udtor"] = true;
        }
        Array ms;
        for (auto* M : R->methods()) {
            Object x;
            x["n"] = M->getNameAsString();
            x["id"] = id(M);
            x["acc"] = (int)M->getAccess();
            if (M->isVirtual()) x["virt"] = true;
            if (M->isPureVirtual()) x["pure"] = true;
            if (M->isImplicit()) x["impl"] = true;
            Array ov;
            for (auto* O : M->overridden_methods()) ov.push_back(id(O));
            x["ov"] = std::move(ov);
            ms.push_back(std::move(x));
        }
        o["m"] = std::move(ms);
        Records.push_back(std::move(o));
    }

    void function(const FunctionDecl* F) {
        const FunctionDecl* Def = nullptr;
        if (!F->hasBody(Def)) {
            Def = F;
            if (!(isa<CXXConstructorDecl>(F))) return;
        }
        Object o = fnRef(F);
        o["l"] = loc(Def->getLocation());
        Array ps;
        for (auto* P : Def->parameters()) ps.push_back(param(P));
        o["params"] = std::move(ps);
        // parameter ids differ between redeclarations; canonicalisation is per decl
        if (auto* M = dyn_cast<CXXMethodDecl>(Def)) {
            noteRecord(M->getParent());
            o["acc"] = (int)F->getCanonicalDecl()->getAccess();
            if (isa<CXXDestructorDecl>(M)) o["isdtor"] = true;
        }
        if (auto* C = dyn_cast<CXXConstructorDecl>(Def)) {
            o["isctor"] = true;
            if (C->isCopyConstructor()) o["copy"] = true;
            Array in;
            for (auto* I : C->inits()) {
                Object x;
                if (I->isAnyMemberInitializer()) {
                    x["f"] = I->getAnyMember()->getNameAsString();
                    x["t"] = ty(I->getAnyMember()->getType());
                    if (auto* R = dyn_cast<CXXRecordDecl>(I->getAnyMember()->getParent())) x["cls"] = recName(R);
                } else if (I->isBaseInitializer()) {
                    x["base"] = typeStr(QualType(I->getBaseClass(), 0));
                } else if (I->isDelegatingInitializer())
                    x["deleg"] = true;
                x["w"] = I->isWritten();
                x["e"] = expr(I->getInit());
                in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        if (Def->getBody()) {
            o["body"] = stmt(Def->getBody());
            o["le"] = loc(Def->getBodyRBrace());
        }
        Functions.push_back(std::move(o));
    }
};

class Collector : public RecursiveASTVisitor<Collector> {
  public:
    Collector(Dumper &D) : D(D) {}
    Dumper &D;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (F->isDependentContext()) return true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true;
        const FunctionDecl* Def = nullptr;
        if (!F->hasBody(Def)) return true;
        if (!D.inRoots(Def)) return true;
        D.want(Def);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda()) D.noteRecord(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if (E->isDependentContext() || !D.inRoots(E)) return true;
        Object o;
        o["n"] = E->getQualifiedNameAsString();
        Array a;
        for (auto* C : E->enumerators()) {
            llvm::SmallString<32> s;
            C->getInitVal().toString(s, 10);
            a.push_back(Array{C->getNameAsString(), s.str().str()});
        }
        o["e"] = std::move(a);
        D.Enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && D.inRoots(V) &&
            V->isThisDeclarationADefinition())
            D.noteGlobal(V);
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &Ctx) override {
        if (Ctx.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(Ctx);
        Collector C(D);
        C.TraverseDecl(Ctx.getTranslationUnitDecl());
        while (!D.Work.empty()) {
            auto W = D.Work;
            D.Work.clear();
            for (auto* F : W) D.function(F);
        }
        Object o;
        o["types"] = std::move(D.Types);
        o["files"] = std::move(D.Files);
        o["functions"] = std::move(D.Functions);
        o["records"] = std::move(D.Records);
        o["enums"] = std::move(D.Enums);
        o["globals"] = std::move(D.Globals);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};
}  // namespace

int main(int argc, char** argv) {
    if (argc < 5) return 2;
    OutPath = argv[1];
    std::string r = argv[2];
    size_t p = 0;
    while (p <= r.size()) {
        size_t q = r.find(',', p);
        if (q == std::string::npos) q = r.size();
        Roots.push_back(r.substr(p, q - p));
        p = q + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    std::ifstream in(file);
    std::string code((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    bool ok = clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, flags, file, "adevs-extract");
    return ok ? 0 : 3;
}
