// Exports the typed AST of every function body, record and enum that the translation unit defines
// under a given directory, as one JSON document. It parses with the same flags as the build, minus -fopenmp
// (OpenMP pragmas are therefore not part of the exported code) and changes nothing else.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static Object Out;

class Exporter : public RecursiveASTVisitor<Exporter> {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> TypeIdx;
    Array Types;
    Object Funcs, Recs, Enums;
    std::set<const void *> Seen;

  public:
    explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string fileOf(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return "";
        llvm::SmallString<256> R;
        if (auto F = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)))) {
            auto N = F->getFileEntry().tryGetRealPathName();
            return N.str();
        }
        return P.getFilename();
    }
    int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto f = fileOf(L);
        return f.rfind(Root, 0) == 0;
    }
    std::string usr(const Decl *D) {
        llvm::SmallString<128> B;
        if (index::generateUSRForDecl(D, B)) return "";
        return B.str().str();
    }
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string recName(const CXXRecordDecl *R) {
        if (R->isLambda())
            return "lambda@" + fileOf(R->getLocation()) + ":" + std::to_string(lineOf(R->getLocation())) + ":" +
                   std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
        return qname(R);
    }
    Value targ(const TemplateArgument &A, Array &out) {
        switch (A.getKind()) {
        case TemplateArgument::Type: out.push_back(typ(A.getAsType())); break;
        case TemplateArgument::Integral: out.push_back(Object{{"int", toStr(A.getAsIntegral())}}); break;
        case TemplateArgument::Pack:
            for (auto &P : A.pack_elements()) targ(P, out);
            break;
        default: out.push_back(nullptr);
        }
        return nullptr;
    }
    static std::string toStr(const llvm::APSInt &I) {
        llvm::SmallString<32> S;
        I.toString(S, 10);
        return S.str().str();
    }
    int typ(QualType Q) {
        if (Q.isNull()) return -1;
        bool cst = Q.isConstQualified();
        QualType T = Q.getCanonicalType();
        if (T->isReferenceType()) cst = T->getPointeeType().isConstQualified();
        T = T.getUnqualifiedType();
        std::string key = T.getAsString(PP) + (cst ? "#c" : "");
        if (auto RD = T->getAsCXXRecordDecl()) key += usr(RD);
        auto it = TypeIdx.find(key);
        if (it != TypeIdx.end()) return it->second;
        int idx = Types.size();
        TypeIdx[key] = idx;
        Types.push_back(nullptr);
        Object O;
        O["s"] = T.getAsString(PP);
        O["const"] = cst;
        if (auto *B = dyn_cast<BuiltinType>(T)) {
            if (B->getKind() == BuiltinType::Bool) O["c"] = "bool";
            else if (B->isInteger()) {
                O["c"] = "int";
                O["bits"] = (int)C.getTypeSize(T);
                O["signed"] = B->isSignedInteger();
            } else if (B->isFloatingPoint()) {
                O["c"] = "float";
                O["bits"] = (int)C.getTypeSize(T);
            } else if (B->isVoidType()) O["c"] = "void";
            else O["c"] = "other";
        } else if (auto *E = dyn_cast<EnumType>(T)) {
            O["c"] = "enum";
            O["name"] = qname(E->getDecl());
            auto U = E->getDecl()->getIntegerType();
            if (!U.isNull()) {
                O["bits"] = (int)C.getTypeSize(U);
                O["signed"] = U->isSignedIntegerType();
            }
        } else if (T->isReferenceType()) {
            O["c"] = "ref";
            O["rv"] = T->isRValueReferenceType();
            O["to"] = typ(T->getPointeeType());
        } else if (T->isPointerType()) {
            O["c"] = "ptr";
            O["to"] = typ(T->getPointeeType());
        } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
            O["c"] = "arr";
            O["n"] = (int64_t)A->getSize().getZExtValue();
            O["to"] = typ(A->getElementType());
        } else if (auto *R = T->getAsCXXRecordDecl()) {
            O["c"] = "rec";
            O["name"] = recName(R);
            O["usr"] = usr(R);
            O["lambda"] = R->isLambda();
            Array args;
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
                for (auto &A : S->getTemplateArgs().asArray()) targ(A, args);
            O["args"] = std::move(args);
        } else O["c"] = "other";
        Types[idx] = std::move(O);
        return idx;
    }
    std::string id(const Decl *D) {
        char b[32];
        snprintf(b, sizeof b, "%p", (const void *)D->getCanonicalDecl());
        return b;
    }
    Object fn(const FunctionDecl *F) {
        Object O;
        O["name"] = qname(F);
        O["usr"] = usr(F);
        O["ret"] = typ(F->getReturnType());
        Array ps;
        for (auto *P : F->parameters()) ps.push_back(typ(P->getType()));
        O["params"] = std::move(ps);
        if (auto *A = F->getTemplateSpecializationArgs()) {
            Array args;
            for (auto &T : A->asArray()) targ(T, args);
            O["targs"] = std::move(args);
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["static"] = M->isStatic();
            O["virtual"] = M->isVirtual();
            O["cmethod"] = M->isConst();
            O["rec"] = recName(M->getParent());
            O["rect"] = typ(C.getRecordType(M->getParent()));
        }
        if (isa<CXXConstructorDecl>(F)) {
            O["ctor"] = true;
            auto *K = cast<CXXConstructorDecl>(F);
            O["copy"] = K->isCopyOrMoveConstructor();
            O["default"] = K->isDefaultConstructor();
        }
        O["defaulted"] = F->isDefaulted();
        return O;
    }
    static void setv(Object &O, const char *k, Value v) { O[k] = std::move(v); }

    Value constant(const APValue &V) {
        if (V.isInt()) return Object{{"int", toStr(V.getInt())}};
        if (V.isFloat()) {
            llvm::SmallString<64> S;
            if (V.getFloat().isInfinity()) return Object{{"flt", V.getFloat().isNegative() ? "-inf" : "inf"}};
            if (V.getFloat().isNaN()) return Object{{"flt", "nan"}};
            char buf[128];
            llvm::APFloat F = V.getFloat();
            bool li;
            F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
            snprintf(buf, sizeof buf, "%a", F.convertToDouble());
            return Object{{"flt", std::string(buf)}};
        }
        return nullptr;
    }
    Object mk(const char *k, const Expr *E) {
        Object O;
        O["k"] = k;
        O["t"] = typ(E->getType());
        O["line"] = lineOf(E->getBeginLoc());
        if (E->isLValue()) O["lv"] = true;
        if (E->isXValue()) O["xv"] = true;
        return O;
    }
    Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
        Array A;
        for (auto *E : R) A.push_back(expr(E));
        return A;
    }
    Value tryConst(const Expr *E) {
        if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
        if (!(E->getType()->isIntegralOrEnumerationType() || E->getType()->isFloatingType())) return nullptr;
        Expr::EvalResult R;
        if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && (R.Val.isInt() || R.Val.isFloat())) {
            Object O = mk("Const", E);
            O.erase("lv");
            if (E->getType()->isIntegralOrEnumerationType() && R.Val.isInt()) {
                // make the value fit the signedness of the type
                O["v"] = constant(R.Val);
            } else O["v"] = constant(R.Val);
            return O;
        }
        return nullptr;
    }
    Value var(const VarDecl *V) {
        Object O;
        O["id"] = id(V);
        O["name"] = V->getNameAsString();
        O["t"] = typ(V->getType());
        O["line"] = lineOf(V->getLocation());
        if (V->isStaticLocal()) O["static"] = true;
        if (V->getInit()) {
            O["init"] = expr(V->getInit());
        }
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            Array B;
            for (auto *b : D->bindings()) {
                Object bo;
                bo["id"] = id(b);
                bo["name"] = b->getNameAsString();
                if (auto *hv = b->getHoldingVar()) {
                    bo["hold"] = var(hv);
                } else if (b->getBinding()) bo["e"] = expr(b->getBinding());
                B.push_back(std::move(bo));
            }
            O["bindings"] = std::move(B);
        }
        return O;
    }
    Value expr(const Expr *E) {
        if (!E) return nullptr;
        if (auto *X = dyn_cast<FullExpr>(E)) {
            if (isa<ConstantExpr>(X)) {
                auto c = tryConst(E);
                if (c.getAsObject()) return c;
            }
            return expr(X->getSubExpr());
        }
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            Object O = mk("Temp", E);
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            Object O = mk("StdInit", E);
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        // constants
        if (isa<IntegerLiteral>(E) || isa<FloatingLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E) ||
            isa<UnaryExprOrTypeTraitExpr>(E)) {
            auto c = tryConst(E);
            if (c.getAsObject()) return c;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            auto *D = X->getDecl();
            if (isa<EnumConstantDecl>(D)) return tryConst(E);
            if (auto *V = dyn_cast<VarDecl>(D)) {
                if (!V->isLocalVarDeclOrParm() || V->isConstexpr()) {
                    auto c = tryConst(E);
                    if (c.getAsObject()) return c;
                }
            }
            Object O = mk("Ref", E);
            O["id"] = id(D);
            O["name"] = D->getNameAsString();
            if (auto *F = dyn_cast<FunctionDecl>(D)) O["fn"] = fn(F);
            if (auto *V = dyn_cast<VarDecl>(D)) O["global"] = !V->isLocalVarDeclOrParm();
            if (isa<VarDecl>(D) && !cast<VarDecl>(D)->isLocalVarDeclOrParm()) O["qname"] = qname(D);
            if (auto *B = dyn_cast<BindingDecl>(D)) O["binding"] = true;
            return O;
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_FunctionToPointerDecay:
                return expr(X->getSubExpr());
            case CK_LValueToRValue: {
                auto c = tryConst(E);
                if (c.getAsObject() && isa<DeclRefExpr>(X->getSubExpr()->IgnoreParens())) {
                    auto *D = cast<DeclRefExpr>(X->getSubExpr()->IgnoreParens())->getDecl();
                    if (auto *V = dyn_cast<VarDecl>(D))
                        if (!V->isLocalVarDeclOrParm() || V->isConstexpr()) return c;
                }
                Object O = mk("Load", E);
                O["e"] = expr(X->getSubExpr());
                return O;
            }
            default: break;
            }
            if (isa<ImplicitCastExpr>(E) || isa<CStyleCastExpr>(E) || isa<CXXStaticCastExpr>(E) || isa<CXXFunctionalCastExpr>(E)) {
                auto sub = X->getSubExpr()->IgnoreParenImpCasts();
                if (isa<IntegerLiteral>(sub) || isa<FloatingLiteral>(sub)) {
                    auto c = tryConst(E);
                    if (c.getAsObject()) return c;
                }
            }
            Object O = mk("Cast", E);
            O["ck"] = X->getCastKindName();
            O["e"] = expr(X->getSubExpr());
            if (isa<ExplicitCastExpr>(E)) O["explicit"] = true;
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            Object O = mk(X->isAssignmentOp() ? "Assign" : "Binary", E);
            O["op"] = X->getOpcodeStr().str();
            O["l"] = expr(X->getLHS());
            O["r"] = expr(X->getRHS());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
                O["lt"] = typ(CA->getComputationLHSType());
                O["rt"] = typ(CA->getComputationResultType());
            }
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            Object O = mk("Unary", E);
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            O["post"] = X->isPostfix();
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            Object O = mk("Cond", E);
            O["c"] = expr(X->getCond());
            O["l"] = expr(X->getTrueExpr());
            O["r"] = expr(X->getFalseExpr());
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            Object O = mk("Subscript", E);
            O["l"] = expr(X->getBase());
            O["r"] = expr(X->getIdx());
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            auto *D = X->getMemberDecl();
            if (auto *V = dyn_cast<VarDecl>(D)) {
                auto c = tryConst(E);
                if (c.getAsObject()) return c;
            }
            Object O = mk("Member", E);
            O["field"] = D->getNameAsString();
            O["arrow"] = X->isArrow();
            O["e"] = expr(X->getBase());
            return O;
        }
        if (isa<CXXThisExpr>(E)) return mk("This", E);
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object O = mk("OpCall", E);
            O["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee()) {
                O["fn"] = fn(F);
                if (auto *M = dyn_cast<CXXMethodDecl>(F)) O["member"] = !M->isStatic();
            }
            O["args"] = exprs(X->arguments());
            return O;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            Object O = mk("MCall", E);
            if (auto *M = X->getMethodDecl()) O["fn"] = fn(M);
            O["obj"] = expr(X->getImplicitObjectArgument());
            O["arrow"] = X->getImplicitObjectArgument() && X->getImplicitObjectArgument()->getType()->isPointerType();
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) O["qualified"] = ME->hasQualifier();
            O["args"] = exprs(X->arguments());
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            Object O = mk("Call", E);
            if (auto *F = X->getDirectCallee()) O["fn"] = fn(F);
            else O["callee"] = expr(X->getCallee());
            O["args"] = exprs(X->arguments());
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            if (X->isElidable() && X->getNumArgs() == 1) return expr(X->getArg(0));
            Object O = mk("Construct", E);
            O["fn"] = fn(X->getConstructor());
            O["list"] = X->isListInitialization();
            O["stdinit"] = X->isStdInitListInitialization();
            Array A;
            for (auto *a : X->arguments()) A.push_back(expr(a));
            O["args"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return mk("Unsupported", E);
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            auto *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            Object O = mk("InitList", E);
            Array A;
            for (auto *a : S->inits()) A.push_back(expr(a));
            O["inits"] = std::move(A);
            if (S->hasArrayFiller()) O["filler"] = expr(S->getArrayFiller());
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("ValueInit", E);
        if (auto *X = dyn_cast<StringLiteral>(E)) {
            Object O = mk("Str", E);
            if (X->isOrdinary() || X->isUTF8()) {
                std::string s = X->getString().str();
                O["v"] = llvm::json::fixUTF8(s);
            }
            return O;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            Object O = mk("Lambda", E);
            Array caps;
            auto ci = X->capture_init_begin();
            for (auto &c : X->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["id"] = id(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (X->isInitCapture(&c)) co["init"] = expr(*ci);
                }
                ++ci;
                caps.push_back(std::move(co));
            }
            O["caps"] = std::move(caps);
            auto *M = X->getCallOperator();
            O["generic"] = X->isGenericLambda();
            if (!X->isGenericLambda()) {
                O["fn"] = func(M);
            } else {
                Array sp;
                if (auto *FT = M->getDescribedFunctionTemplate())
                    for (auto *s : FT->specializations()) sp.push_back(func(s));
                O["specs"] = std::move(sp);
            }
            return O;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            Object O = mk("Throw", E);
            O["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : Value(nullptr);
            return O;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            Object O = mk("New", E);
            O["alloc"] = typ(X->getAllocatedType());
            O["e"] = X->getInitializer() ? expr(X->getInitializer()) : Value(nullptr);
            O["array"] = X->isArray();
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            Object O = mk("Delete", E);
            O["e"] = expr(X->getArgument());
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("Null", E);
        if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
            Object O = mk("ArrayCopy", E);
            O["e"] = expr(X->getCommonExpr()->getSourceExpr());
            return O;
        }
        if (isa<PredefinedExpr>(E)) return mk("Str", E);
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        {
            auto c = tryConst(E);
            if (c.getAsObject()) return c;
        }
        Object O = mk("Unsupported", E);
        O["cls"] = E->getStmtClassName();
        return O;
    }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            Object O;
            O["k"] = "Expr";
            O["line"] = lineOf(S->getBeginLoc());
            O["e"] = expr(E);
            return O;
        }
        Object O;
        O["line"] = lineOf(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "Compound";
            Array A;
            for (auto *s : X->body()) A.push_back(stmt(s));
            O["body"] = std::move(A);
        } else if (auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "Decl";
            Array A;
            for (auto *d : X->decls())
                if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V));
            O["vars"] = std::move(A);
        } else if (auto *X = dyn_cast<IfStmt>(S)) {
            O["k"] = "If";
            O["constexpr"] = X->isConstexpr();
            O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["then"] = stmt(X->getThen());
            O["else"] = stmt(X->getElse());
        } else if (auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "For";
            O["init"] = stmt(X->getInit());
            O["c"] = expr(X->getCond());
            O["inc"] = expr(X->getInc());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "While";
            if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<DoStmt>(S)) {
            O["k"] = "Do";
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "RangeFor";
            O["init"] = stmt(X->getInit());
            O["range"] = expr(X->getRangeInit());
            O["rt"] = typ(X->getRangeInit()->getType());
            O["var"] = var(X->getLoopVariable());
            if (X->getBeginStmt()) {
                auto *bv = dyn_cast<VarDecl>(X->getBeginStmt()->getSingleDecl());
                if (bv) O["begint"] = typ(bv->getType());
                if (bv && bv->getInit()) O["begin"] = expr(bv->getInit());
            }
            O["body"] = stmt(X->getBody());
        } else if (isa<BreakStmt>(S)) O["k"] = "Break";
        else if (isa<ContinueStmt>(S)) O["k"] = "Continue";
        else if (isa<NullStmt>(S)) O["k"] = "Null";
        else if (auto *X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "Return";
            O["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr);
        } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "Try";
            O["body"] = stmt(X->getTryBlock());
            Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto *H = X->getHandler(i);
                Object h;
                if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl());
                h["body"] = stmt(H->getHandlerBlock());
                A.push_back(std::move(h));
            }
            O["handlers"] = std::move(A);
        } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "Switch";
            O["init"] = stmt(X->getInit());
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "Case";
            O["v"] = expr(X->getLHS());
            O["body"] = stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "Default";
            O["body"] = stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        else {
            O["k"] = "Unsupported";
            O["cls"] = S->getStmtClassName();
        }
        return O;
    }
    Object func(const FunctionDecl *F) {
        Object O = fn(F);
        O["file"] = fileOf(F->getLocation());
        O["line"] = lineOf(F->getLocation());
        O["endline"] = lineOf(F->getEndLoc());
        Array ps;
        for (auto *P : F->parameters()) {
            Object p;
            p["id"] = id(P);
            p["name"] = P->getNameAsString();
            p["t"] = typ(P->getType());
            ps.push_back(std::move(p));
        }
        O["parms"] = std::move(ps);
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            Array in;
            for (auto *I : K->inits()) {
                Object i;
                if (I->isMemberInitializer()) i["field"] = I->getMember()->getNameAsString();
                else if (I->isBaseInitializer()) i["base"] = typ(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) i["delegate"] = true;
                i["written"] = I->isWritten();
                i["e"] = expr(I->getInit());
                in.push_back(std::move(i));
            }
            O["inits"] = std::move(in);
        }
        O["body"] = stmt(F->getBody());
        return O;
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
        if (!inRoot(F->getLocation())) return true;
        if (F->isTemplated() && !F->isTemplateInstantiation()) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true;
        if (!F->getBody()) return true;
        auto u = usr(F);
        if (Funcs.find(u) != Funcs.end()) return true;
        Funcs[u] = func(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *) { return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!inRoot(R->getLocation())) return true;
        Object O;
        O["name"] = recName(R);
        O["usr"] = usr(R);
        O["file"] = fileOf(R->getLocation());
        O["line"] = lineOf(R->getLocation());
        O["abstract"] = R->isAbstract();
        Array fs, bs;
        for (auto *F : R->fields()) {
            Object f;
            f["name"] = F->getNameAsString();
            f["t"] = typ(F->getType());
            f["mutable"] = F->isMutable();
            if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
            fs.push_back(std::move(f));
        }
        for (auto &B : R->bases()) bs.push_back(typ(B.getType()));
        O["fields"] = std::move(fs);
        O["bases"] = std::move(bs);
        Array ov;
        for (auto *M : R->methods()) {
            for (auto *o : M->overridden_methods()) {
                ov.push_back(Object{{"m", usr(M)}, {"over", usr(o)}});
            }
        }
        O["overrides"] = std::move(ov);
        Recs[usr(R)] = std::move(O);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *D) {
        if (!inRoot(D->getLocation())) return true;
        Object O;
        for (auto *e : D->enumerators()) O[e->getNameAsString()] = toStr(e->getInitVal());
        Enums[qname(D)] = std::move(O);
        return true;
    }
    void finish() {
        Out["types"] = std::move(Types);
        Out["funcs"] = std::move(Funcs);
        Out["recs"] = std::move(Recs);
        Out["enums"] = std::move(Enums);
    }
};
class Consumer : public ASTConsumer {
    CompilerInstance &CI;

  public:
    explicit Consumer(CompilerInstance &CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Exporter X(C);
        X.TraverseDecl(C.getTranslationUnitDecl());
        X.finish();
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};
int main(int argc, char **argv) {
    // cxx2json ROOT OUT SRC -- flags
    if (argc < 5) return 2;
    Root = argv[1];
    std::string out = argv[2], src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    clang::tooling::FixedCompilationDatabase DB(".", flags);
    clang::tooling::ClangTool T(DB, {src});
    int rc = T.run(clang::tooling::newFrontendActionFactory<Action>().get());
    if (rc) return 3;
    std::error_code EC;
    llvm::raw_fd_ostream os(out, EC);
    os << Value(std::move(Out));
    return 0;
}
