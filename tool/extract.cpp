// gegex: dumps the type-checked program of a set of C++ translation units as
// JSON: class records, globals, and one control-flow graph per function body
// (including template instantiations, lambdas and constructor initialisers).
// Nothing is executed: this is clang's AST and CFG written out.
//
// usage: gegex OUT.json REPO_PREFIX[:PREFIX...] FILE... -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;
static std::set<std::string> Seen;
static std::unique_ptr<llvm::raw_fd_ostream> Out;
static bool FirstRec = true;
static bool HadError = false;

static void emitRec(json::Object O)
{
    *Out << (FirstRec ? "\n" : ",\n");
    FirstRec = false;
    *Out << json::Value(std::move(O));
}

class Dumper
{
  public:
    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.TerseOutput = true;
    }

    std::string file(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid())
            return "";
        return P.getFilename();
    }
    int line(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0;
    }
    int col(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        return L.isValid() ? (int)SM.getExpansionColumnNumber(L) : 0;
    }
    bool inRepo(const Decl* D)
    {
        std::string F = file(D->getLocation());
        for (auto& P : Prefixes)
            if (F.compare(0, P.size(), P) == 0)
                return true;
        return false;
    }
    std::string ty(QualType T)
    {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qname(const NamedDecl* D)
    {
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->printQualifiedName(OS, PP);
        return OS.str();
    }
    std::string clsName(const CXXRecordDecl* R)
    {
        if (!R)
            return "";
        return ty(Ctx.getRecordType(R));
    }
    bool isLambdaOp(const FunctionDecl* F)
    {
        auto* M = dyn_cast<CXXMethodDecl>(F);
        return M && M->getParent()->isLambda();
    }
    std::string fid(const FunctionDecl* F)
    {
        F = F->getCanonicalDecl();
        SmallString<128> Buf;
        if (isLambdaOp(F)) {
            auto L = cast<CXXMethodDecl>(F)->getParent()->getBeginLoc();
            std::string S = "lambda@" + file(L) + ":" + std::to_string(line(L)) + ":" +
                            std::to_string(col(L));
            // lambdas in template instantiations: one per instantiation
            const DeclContext* DC = cast<CXXMethodDecl>(F)->getParent()->getDeclContext();
            while (DC && !isa<FunctionDecl>(DC))
                DC = DC->getParent();
            if (DC)
                S += "|" + fid(cast<FunctionDecl>(DC));
            if (F->isTemplateInstantiation())
                S += "#" + ty(F->getType());
            return S;
        }
        if (index::generateUSRForDecl(F, Buf))
            return qname(F) + "|" + ty(F->getType());
        std::string S = Buf.str().str();
        if (isa<CXXDestructorDecl>(F) || isa<CXXConstructorDecl>(F) || F->isImplicit())
            S += "";
        return S;
    }

    // ---- per-function state -------------------------------------------
    std::map<const Stmt*, int> Ids;
    int NextId = 0;
    std::map<const Decl*, int> DeclIds;
    int NextDecl = 0;
    std::vector<const CXXMethodDecl*> PendingLambdas;

    int did(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto It = DeclIds.find(D);
        if (It != DeclIds.end())
            return It->second;
        return DeclIds[D] = NextDecl++;
    }

    const Stmt* strip(const Stmt* S)
    {
        while (S) {
            if (auto* E = dyn_cast<ParenExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<FullExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
                S = E->getReplacement();
            else if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXDefaultArgExpr>(S))
                S = E->getExpr();
            else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S))
                S = E->getExpr();
            else if (auto* E = dyn_cast<CastExpr>(S)) {
                switch (E->getCastKind()) {
                case CK_NoOp:
                case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                    S = E->getSubExpr();
                    continue;
                default:
                    return S;
                }
            }
            else
                return S;
        }
        return S;
    }

    json::Value ref(const Stmt* S)
    {
        S = strip(S);
        if (!S)
            return nullptr;
        auto It = Ids.find(S);
        if (It != Ids.end())
            return It->second;
        return node(S);
    }

    json::Object callee(const FunctionDecl* F)
    {
        json::Object O;
        if (!F)
            return O;
        O["f"] = fid(F);
        O["fn"] = qname(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = clsName(M->getParent());
            if (M->isVirtual())
                O["virt"] = true;
            if (M->isConst())
                O["const"] = true;
            if (M->isStatic())
                O["static"] = true;
        }
        return O;
    }

    json::Array refs(llvm::iterator_range<CallExpr::const_arg_iterator> R)
    {
        json::Array A;
        for (auto* E : R)
            A.push_back(ref(E));
        return A;
    }

    // by-reference-to-non-const parameter flags: 'm' = may mutate arg
    std::string argModes(const FunctionDecl* F, unsigned N, unsigned Skip)
    {
        std::string S;
        for (unsigned i = 0; i < N; i++) {
            if (!F || i + Skip >= F->getNumParams()) {
                S += 'v';
                continue;
            }
            QualType T = F->getParamDecl(i + Skip)->getType();
            if (T->isRValueReferenceType())
                S += 'x';
            else if (T->isReferenceType())
                S += T->getPointeeType().isConstQualified() ? 'c' : 'm';
            else if (T->isPointerType())
                S += T->getPointeeType().isConstQualified() ? 'p' : 'q';
            else
                S += 'v';
        }
        return S;
    }

    json::Object node(const Stmt* S)
    {
        json::Object O;
        O["l"] = line(S->getBeginLoc());
        if (auto* E = dyn_cast<Expr>(S)) {
            O["t"] = ty(E->getType());
            if (isa<CallExpr>(E) && E->isGLValue())
                O["lv"] = true;
        }
        auto K = [&](const char* k) { O["k"] = k; };
        if (auto* E = dyn_cast<IntegerLiteral>(S)) {
            K("int");
            O["v"] = (int64_t)E->getValue().getLimitedValue();
        }
        else if (auto* E = dyn_cast<FloatingLiteral>(S)) {
            K("float");
            O["v"] = E->getValueAsApproximateDouble();
        }
        else if (auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) {
            K("bool");
            O["v"] = E->getValue();
        }
        else if (auto* E = dyn_cast<CharacterLiteral>(S)) {
            K("char");
            O["v"] = (int64_t)E->getValue();
        }
        else if (auto* E = dyn_cast<StringLiteral>(S)) {
            K("str");
            O["v"] = json::fixUTF8(E->getBytes());
        }
        else if (auto* E = dyn_cast<PredefinedExpr>(S)) {
            K("str");
            O["v"] = E->getFunctionName() ? E->getFunctionName()->getBytes().str() : "";
        }
        else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
            K("null");
        }
        else if (isa<CXXThisExpr>(S)) {
            K("this");
        }
        else if (auto* E = dyn_cast<DeclRefExpr>(S)) {
            const ValueDecl* D = E->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                K("fn");
                O["f"] = fid(F);
                O["fn"] = qname(F);
            }
            else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                K("enum");
                O["v"] = (int64_t)EC->getInitVal().getExtValue();
                O["n"] = qname(EC);
            }
            else if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->hasLocalStorage()) {
                    K("var");
                    O["d"] = did(V);
                    O["n"] = V->getNameAsString();
                    if (V->getType()->isReferenceType())
                        O["isref"] = true;
                    if (E->refersToEnclosingVariableOrCapture())
                        O["cap"] = true;
                }
                else {
                    K("gvar");
                    O["n"] = qname(V);
                    if (V->isStaticLocal())
                        O["slocal"] = true;
                    if (V->getTLSKind() != VarDecl::TLS_None)
                        O["tls"] = true;
                }
            }
            else if (auto* B = dyn_cast<BindingDecl>(D)) {
                K("binding");
                O["d"] = did(B);
                O["n"] = B->getNameAsString();
                // position in the decomposition
                if (auto* DD = dyn_cast_or_null<DecompositionDecl>(B->getDecomposedDecl())) {
                    O["of"] = did(DD);
                    int i = 0;
                    for (auto* X : DD->bindings()) {
                        if (X == B)
                            O["idx"] = i;
                        i++;
                    }
                }
            }
            else if (auto* FD = dyn_cast<FieldDecl>(D)) {
                K("fld");
                O["n"] = qname(FD);
            }
            else {
                K("decl?");
                O["n"] = qname(D);
            }
        }
        else if (auto* E = dyn_cast<MemberExpr>(S)) {
            if (auto* FD = dyn_cast<FieldDecl>(E->getMemberDecl())) {
                K("mem");
                O["b"] = ref(E->getBase());
                O["n"] = FD->getNameAsString();
                O["cls"] = clsName(dyn_cast<CXXRecordDecl>(FD->getParent()));
                if (E->isArrow())
                    O["arrow"] = true;
                if (FD->getType()->isReferenceType())
                    O["isref"] = true;
            }
            else if (auto* V = dyn_cast<VarDecl>(E->getMemberDecl())) {
                K("gvar");
                O["n"] = qname(V);
            }
            else {
                K("memfn");
                if (auto* F = dyn_cast<FunctionDecl>(E->getMemberDecl())) {
                    O["f"] = fid(F);
                    O["fn"] = qname(F);
                }
                O["b"] = ref(E->getBase());
            }
        }
        else if (auto* E = dyn_cast<CXXMemberCallExpr>(S)) {
            K("call");
            O["ck"] = "method";
            auto* M = E->getMethodDecl();
            for (auto& KV : callee(M))
                O[KV.first] = std::move(KV.second);
            const Expr* C = E->getCallee()->IgnoreParens();
            if (auto* ME = dyn_cast<MemberExpr>(C)) {
                O["o"] = ref(ME->getBase());
                if (ME->isArrow())
                    O["arrow"] = true;
                if (ME->hasQualifier())
                    O["qual"] = true;
            }
            else if (auto* BO = dyn_cast<BinaryOperator>(C)) {
                O["o"] = ref(BO->getLHS());
                O["pmf"] = ref(BO->getRHS());
                if (BO->getOpcode() == BO_PtrMemI)
                    O["arrow"] = true;
            }
            if (M)
                O["oc"] = ty(E->getObjectType());
            O["a"] = refs(E->arguments());
            O["am"] = argModes(M, E->getNumArgs(), 0);
        }
        else if (auto* E = dyn_cast<CXXOperatorCallExpr>(S)) {
            K("call");
            O["ck"] = "op";
            O["op"] = getOperatorSpelling(E->getOperator());
            auto* F = E->getDirectCallee();
            for (auto& KV : callee(F))
                O[KV.first] = std::move(KV.second);
            bool isM = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
            json::Array A;
            for (unsigned i = 0; i < E->getNumArgs(); i++) {
                if (i == 0 && isM)
                    O["o"] = ref(E->getArg(0));
                else
                    A.push_back(ref(E->getArg(i)));
            }
            O["a"] = std::move(A);
            O["am"] = argModes(F, E->getNumArgs() - (isM ? 1 : 0), 0);
        }
        else if (auto* E = dyn_cast<CallExpr>(S)) {
            K("call");
            auto* F = E->getDirectCallee();
            O["ck"] = F ? "free" : "ind";
            for (auto& KV : callee(F))
                O[KV.first] = std::move(KV.second);
            if (!F)
                O["fp"] = ref(E->getCallee());
            O["a"] = refs(E->arguments());
            O["am"] = argModes(F, E->getNumArgs(), 0);
        }
        else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
            K("ctor");
            auto* C = E->getConstructor();
            for (auto& KV : callee(C))
                O[KV.first] = std::move(KV.second);
            O["a"] = refs(E->arguments());
            O["am"] = argModes(C, E->getNumArgs(), 0);
            if (C->isCopyConstructor())
                O["cp"] = "copy";
            else if (C->isMoveConstructor())
                O["cp"] = "move";
            if (E->isElidable())
                O["elid"] = true;
        }
        else if (auto* E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
            K("ctor");
            for (auto& KV : callee(E->getConstructor()))
                O[KV.first] = std::move(KV.second);
            O["a"] = json::Array();
            O["am"] = "";
            O["inh"] = true;
        }
        else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
            K("new");
            O["ty"] = ty(E->getAllocatedType());
            if (E->isArray()) {
                O["arr"] = true;
                if (auto Sz = E->getArraySize(); Sz && *Sz)
                    O["sz"] = ref(*Sz);
            }
            if (E->hasInitializer())
                O["i"] = ref(E->getInitializer());
            else
                O["noinit"] = true;
            if (E->getNumPlacementArgs())
                O["placement"] = true;
        }
        else if (auto* E = dyn_cast<CXXDeleteExpr>(S)) {
            K("delete");
            if (E->isArrayForm())
                O["arr"] = true;
            O["a"] = ref(E->getArgument());
        }
        else if (auto* E = dyn_cast<BinaryOperator>(S)) {
            if (E->isLogicalOp())
                K("logic");
            else if (E->isAssignmentOp())
                K("asg");
            else
                K("bin");
            O["op"] = E->getOpcodeStr();
            O["x"] = ref(E->getLHS());
            O["y"] = ref(E->getRHS());
        }
        else if (auto* E = dyn_cast<UnaryOperator>(S)) {
            K("un");
            O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode());
            if (E->isPostfix())
                O["post"] = true;
            O["x"] = ref(E->getSubExpr());
        }
        else if (auto* E = dyn_cast<AbstractConditionalOperator>(S)) {
            K("cond");
            O["c"] = ref(E->getCond());
            O["x"] = ref(E->getTrueExpr());
            O["y"] = ref(E->getFalseExpr());
        }
        else if (auto* E = dyn_cast<CastExpr>(S)) {
            if (E->getCastKind() == CK_LValueToRValue)
                K("load");
            else {
                K("cast");
                O["c"] = E->getCastKindName();
                if (isa<CXXConstCastExpr>(E))
                    O["constcast"] = true;
            }
            if (isa<ExplicitCastExpr>(E))
                O["expl"] = true;
            O["x"] = ref(E->getSubExpr());
        }
        else if (auto* E = dyn_cast<ArraySubscriptExpr>(S)) {
            K("sub");
            O["x"] = ref(E->getBase());
            O["y"] = ref(E->getIdx());
        }
        else if (auto* E = dyn_cast<LambdaExpr>(S)) {
            K("lambda");
            O["f"] = fid(E->getCallOperator());
            json::Array C;
            auto II = E->capture_init_begin();
            for (auto& Cap : E->captures()) {
                json::Object CO;
                if (Cap.capturesThis())
                    CO["this"] = true;
                else if (Cap.capturesVariable()) {
                    CO["d"] = did(Cap.getCapturedVar());
                    CO["n"] = Cap.getCapturedVar()->getNameAsString();
                    if (Cap.getCaptureKind() == LCK_ByRef)
                        CO["ref"] = true;
                    CO["i"] = ref(*II);
                }
                ++II;
                C.push_back(std::move(CO));
            }
            O["cap"] = std::move(C);
            PendingLambdas.push_back(E->getCallOperator());
        }
        else if (auto* E = dyn_cast<InitListExpr>(S)) {
            K("ilist");
            json::Array A;
            for (auto* I : E->inits())
                A.push_back(ref(I));
            O["a"] = std::move(A);
        }
        else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            K("sizeof");
            O["ty"] = ty(E->getTypeOfArgument());
        }
        else if (auto* E = dyn_cast<CXXTypeidExpr>(S)) {
            K("typeid");
            if (E->isTypeOperand())
                O["ty"] = ty(E->getTypeOperand(Ctx));
            else {
                O["x"] = ref(E->getExprOperand());
                if (E->isPotentiallyEvaluated())
                    O["dyn"] = true;
            }
        }
        else if (auto* E = dyn_cast<CXXThrowExpr>(S)) {
            K("throw");
            if (E->getSubExpr()) {
                O["x"] = ref(E->getSubExpr());
                O["ty"] = ty(E->getSubExpr()->getType());
            }
        }
        else if (auto* E = dyn_cast<ReturnStmt>(S)) {
            K("ret");
            if (E->getRetValue())
                O["x"] = ref(E->getRetValue());
        }
        else if (auto* E = dyn_cast<DeclStmt>(S)) {
            K("decls");
            json::Array A;
            for (auto* D : E->decls())
                if (auto* V = dyn_cast<VarDecl>(D)) {
                    json::Object V1;
                    V1["d"] = did(V);
                    V1["n"] = V->getNameAsString();
                    V1["t"] = ty(V->getType());
                    if (V->getType()->isReferenceType())
                        V1["isref"] = true;
                    if (V->isStaticLocal())
                        V1["static"] = true;
                    if (V->getInit())
                        V1["i"] = ref(V->getInit());
                    if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
                        json::Array Bs;
                        for (auto* B : DD->bindings()) {
                            json::Object BO;
                            BO["d"] = did(B);
                            BO["n"] = B->getNameAsString();
                            if (auto* HV = B->getHoldingVar())
                                BO["hv"] = did(HV);
                            Bs.push_back(std::move(BO));
                        }
                        V1["bind"] = std::move(Bs);
                    }
                    A.push_back(std::move(V1));
                }
            O["v"] = std::move(A);
        }
        else if (auto* E = dyn_cast<CXXCatchStmt>(S)) {
            K("catch");
            if (E->getExceptionDecl()) {
                O["d"] = did(E->getExceptionDecl());
                O["ty"] = ty(E->getExceptionDecl()->getType());
            }
            else
                O["ty"] = "...";
        }
        else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
            K("zero");
        }
        else if (auto* E = dyn_cast<PseudoObjectExpr>(S)) {
            K("other");
            O["n"] = "PseudoObject";
        }
        else {
            K("other");
            O["n"] = S->getStmtClassName();
            json::Array A;
            for (auto* C : S->children())
                if (C && isa<Expr>(C))
                    A.push_back(ref(C));
            O["a"] = std::move(A);
        }
        return O;
    }

    struct TryFinder : RecursiveASTVisitor<TryFinder>
    {
        bool Found = false;
        bool VisitCXXTryStmt(CXXTryStmt*)
        {
            Found = true;
            return false;
        }
        bool TraverseLambdaExpr(LambdaExpr*)
        {
            return true;
        }
    };

    void dumpFunction(const FunctionDecl* F)
    {
        if (F->isDependentContext() || !F->doesThisDeclarationHaveABody())
            return;
        if (!inRepo(F))
            return;
        std::string Id = fid(F);
        if (!Seen.insert("F" + Id).second)
            return;
        Ids.clear();
        NextId = 0;
        DeclIds.clear();
        NextDecl = 0;

        json::Object O;
        O["rec"] = "func";
        O["id"] = Id;
        O["name"] = qname(F);
        O["file"] = file(F->getLocation());
        O["line"] = line(F->getLocation());
        O["ret"] = ty(F->getReturnType());
        funcFlags(F, O);
        json::Array Ps;
        for (auto* P : F->parameters()) {
            json::Object PO;
            PO["d"] = did(P);
            PO["n"] = P->getNameAsString();
            PO["t"] = ty(P->getType());
            if (P->getType()->isReferenceType())
                PO["isref"] = true;
            Ps.push_back(std::move(PO));
        }
        O["params"] = std::move(Ps);

        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.PruneTriviallyFalseEdges = false;
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.AddCXXDefaultInitExprInCtors = true;
        TryFinder TF;
        TF.TraverseStmt(F->getBody());
        if (TF.Found) {
            BO.AddEHEdges = true;
            O["try"] = true;
        }
        std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
        if (!G) {
            O["nocfg"] = true;
            emitRec(std::move(O));
            return;
        }
        // number the elements
        for (const CFGBlock* B : *G)
            for (const CFGElement& E : *B) {
                if (auto CS = E.getAs<CFGStmt>()) {
                    const Stmt* S = CS->getStmt();
                    if (strip(S) == S && !Ids.count(S))
                        Ids[S] = NextId++;
                }
            }
        json::Array Bs;
        for (const CFGBlock* B : *G) {
            json::Object BO1;
            BO1["b"] = (int)B->getBlockID();
            json::Array Succ;
            for (auto& A : B->succs()) {
                const CFGBlock* R = A.getReachableBlock();
                bool U = false;
                if (!R) {
                    R = A.getPossiblyUnreachableBlock();
                    U = true;
                }
                if (R && !U)
                    Succ.push_back((int)R->getBlockID());
                else
                    Succ.push_back(nullptr);
            }
            BO1["s"] = std::move(Succ);
            json::Array Es;
            for (const CFGElement& E : *B) {
                if (auto CS = E.getAs<CFGStmt>()) {
                    const Stmt* S = CS->getStmt();
                    if (strip(S) != S)
                        continue;
                    int MyId = Ids[S];
                    json::Object N = node(S);
                    N["id"] = MyId;
                    Es.push_back(std::move(N));
                }
                else if (auto CI = E.getAs<CFGInitializer>()) {
                    const CXXCtorInitializer* I = CI->getInitializer();
                    json::Object N;
                    N["k"] = "init";
                    N["l"] = line(I->getSourceLocation());
                    if (I->isAnyMemberInitializer()) {
                        N["n"] = I->getAnyMember()->getNameAsString();
                        N["cls"] = clsName(dyn_cast<CXXRecordDecl>(I->getAnyMember()->getParent()));
                        if (I->getAnyMember()->getType()->isReferenceType())
                            N["isref"] = true;
                        N["t"] = ty(I->getAnyMember()->getType());
                    }
                    else if (I->isBaseInitializer())
                        N["base"] = ty(QualType(I->getBaseClass(), 0));
                    else
                        N["deleg"] = true;
                    if (I->isWritten())
                        N["written"] = true;
                    if (I->getInit())
                        N["x"] = ref(I->getInit());
                    Es.push_back(std::move(N));
                }
                else if (auto CD = E.getAs<CFGAutomaticObjDtor>()) {
                    json::Object N;
                    N["k"] = "dtor";
                    N["d"] = did(CD->getVarDecl());
                    N["n"] = CD->getVarDecl()->getNameAsString();
                    N["t"] = ty(CD->getVarDecl()->getType());
                    N["l"] = CD->getTriggerStmt() ? line(CD->getTriggerStmt()->getEndLoc()) : 0;
                    Es.push_back(std::move(N));
                }
                else if (auto CM = E.getAs<CFGMemberDtor>()) {
                    json::Object N;
                    N["k"] = "mdtor";
                    N["n"] = CM->getFieldDecl()->getNameAsString();
                    Es.push_back(std::move(N));
                }
            }
            BO1["e"] = std::move(Es);
            if (const Stmt* T = B->getTerminatorStmt()) {
                json::Object TO;
                TO["k"] = T->getStmtClassName();
                TO["l"] = line(T->getBeginLoc());
                {
                    auto TI = Ids.find(strip(T));
                    if (TI != Ids.end())
                        TO["n"] = TI->second;
                }
                if (const Stmt* C = B->getTerminatorCondition())
                    TO["c"] = ref(C);
                if (auto* BOp = dyn_cast<BinaryOperator>(T))
                    TO["op"] = BOp->getOpcodeStr();
                BO1["t"] = std::move(TO);
            }
            if (const Stmt* L = B->getLabel()) {
                json::Object LO;
                if (auto* C = dyn_cast<CaseStmt>(L)) {
                    LO["k"] = "case";
                    Expr::EvalResult R;
                    if (C->getLHS()->EvaluateAsInt(R, Ctx))
                        LO["v"] = (int64_t)R.Val.getInt().getExtValue();
                }
                else if (isa<DefaultStmt>(L))
                    LO["k"] = "default";
                else if (auto* C = dyn_cast<CXXCatchStmt>(L)) {
                    LO = node(C);
                }
                else
                    LO["k"] = L->getStmtClassName();
                BO1["lab"] = std::move(LO);
            }
            if (B->getLoopTarget())
                BO1["lt"] = true;
            if (B->hasNoReturnElement())
                BO1["noret"] = true;
            Bs.push_back(std::move(BO1));
        }
        O["blocks"] = std::move(Bs);
        O["entry"] = (int)G->getEntry().getBlockID();
        O["exit"] = (int)G->getExit().getBlockID();
        O["nid"] = NextId;
        emitRec(std::move(O));
    }

    void funcFlags(const FunctionDecl* F, json::Object& O)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = clsName(M->getParent());
            if (M->isVirtual())
                O["virt"] = true;
            if (M->isPureVirtual())
                O["pure"] = true;
            if (M->isConst())
                O["const"] = true;
            if (M->isStatic())
                O["static"] = true;
            json::Array Ov;
            for (auto* B : M->overridden_methods())
                Ov.push_back(fid(B));
            if (!Ov.empty())
                O["over"] = std::move(Ov);
            if (auto* C = dyn_cast<CXXConstructorDecl>(F)) {
                O["ctor"] = true;
                if (C->isCopyConstructor())
                    O["cp"] = "copy";
                if (C->isMoveConstructor())
                    O["cp"] = "move";
            }
            if (isa<CXXDestructorDecl>(F))
                O["dtor"] = true;
            if (M->isCopyAssignmentOperator())
                O["cp"] = "copyasg";
            if (M->isMoveAssignmentOperator())
                O["cp"] = "moveasg";
            if (M->getParent()->isLambda())
                O["lambda"] = true;
            O["acc"] = (int)M->getAccess();
        }
        if (F->isImplicit())
            O["implicit"] = true;
        if (F->isDefaulted())
            O["defaulted"] = true;
        if (F->isDeleted())
            O["deleted"] = true;
        if (F->isTemplateInstantiation())
            O["inst"] = true;
        if (auto* D = F->getTemplateInstantiationPattern())
            O["pat"] = qname(D);
    }

    void dumpRecord(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
            return;
        // an explicit instantiation is located where it is requested
        const Decl* Where = R;
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R))
            if (!S->isExplicitSpecialization())
                Where = S->getSpecializedTemplate();
        if (!inRepo(Where))
            return;
        std::string N = clsName(R);
        if (!Seen.insert("R" + N).second)
            return;
        json::Object O;
        O["rec"] = "class";
        O["name"] = N;
        O["file"] = file(Where->getLocation());
        O["line"] = line(Where->getLocation());
        if (R->isAbstract())
            O["abstract"] = true;
        if (isa<ClassTemplateSpecializationDecl>(R)) {
            O["inst"] = true;
            O["tmpl"] = qname(cast<ClassTemplateSpecializationDecl>(R)->getSpecializedTemplate());
        }
        json::Array Bases;
        for (auto& B : R->bases())
            Bases.push_back(ty(B.getType()));
        O["bases"] = std::move(Bases);
        json::Array Fs;
        for (auto* F : R->fields()) {
            json::Object FO;
            FO["n"] = F->getNameAsString();
            FO["t"] = ty(F->getType());
            FO["l"] = line(F->getLocation());
            FO["acc"] = (int)F->getAccess();
            if (F->isMutable())
                FO["mutable"] = true;
            if (F->getType().isConstQualified())
                FO["const"] = true;
            if (F->hasInClassInitializer())
                FO["dinit"] = true;
            Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        json::Array Ms;
        for (auto* D : R->decls())
            if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
                json::Object MO;
                MO["id"] = fid(M);
                MO["name"] = qname(M);
                MO["ret"] = ty(M->getReturnType());
                MO["sig"] = ty(M->getType());
                funcFlags(M, MO);
                Ms.push_back(std::move(MO));
            }
            else if (auto* V = dyn_cast<VarDecl>(D)) {
                json::Object MO;
                MO["staticvar"] = V->getNameAsString();
                MO["t"] = ty(V->getType());
                Ms.push_back(std::move(MO));
            }
        O["methods"] = std::move(Ms);
        emitRec(std::move(O));
    }

    void dumpGlobal(const VarDecl* V)
    {
        if (V->isLocalVarDecl() && !V->isStaticLocal())
            return;
        if (!V->hasGlobalStorage() || !inRepo(V) || V->getDeclContext()->isDependentContext())
            return;
        std::string N = qname(V);
        if (!V->isThisDeclarationADefinition())
            return;
        if (!Seen.insert("G" + N).second)
            return;
        Ids.clear();
        json::Object O;
        O["rec"] = "global";
        O["name"] = N;
        O["t"] = ty(V->getType());
        O["file"] = file(V->getLocation());
        O["line"] = line(V->getLocation());
        if (V->isStaticLocal())
            O["slocal"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None)
            O["tls"] = true;
        if (V->getType().isConstQualified() || V->isConstexpr())
            O["const"] = true;
        if (V->getInit())
            O["i"] = ref(V->getInit());
        emitRec(std::move(O));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
  public:
    Dumper& D;
    Visitor(Dumper& D) : D(D)
    {
    }
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitImplicitCode() const
    {
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        D.dumpFunction(F);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (!L->isTypeDependent())
            D.dumpFunction(L->getCallOperator());
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        D.dumpRecord(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        D.dumpGlobal(V);
        return true;
    }
};

class Consumer : public ASTConsumer
{
  public:
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        if (Ctx.getDiagnostics().hasErrorOccurred()) {
            HadError = true;
            return;
        }
        Dumper D(Ctx);
        Visitor V(D);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction
{
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char** argv)
{
    if (argc < 4)
        return 2;
    std::string OutP = argv[1];
    {
        llvm::StringRef P(argv[2]);
        SmallVector<StringRef, 4> Parts;
        P.split(Parts, ':');
        for (auto S : Parts)
            Prefixes.push_back(S.str());
    }
    std::vector<std::string> Files, Flags;
    bool inFlags = false;
    for (int i = 3; i < argc; i++) {
        std::string A = argv[i];
        if (A == "--")
            inFlags = true;
        else if (inFlags)
            Flags.push_back(A);
        else
            Files.push_back(A);
    }
    std::error_code EC;
    Out = std::make_unique<llvm::raw_fd_ostream>(OutP, EC);
    if (EC)
        return 2;
    *Out << "[";
    tooling::FixedCompilationDatabase DB("/", Flags);
    tooling::ClangTool Tool(DB, Files);
    int R = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    *Out << "\n]\n";
    Out->close();
    return (R || HadError) ? 3 : 0;
}
