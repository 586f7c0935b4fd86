// astx: dumps the resolved syntax tree of every function defined below a root directory as JSON.
// usage: astx ROOT FILE -- <compile flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::string Root;

class Dumper {
public:
  ASTContext &Ctx; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  Object Functions, Records, Enums, Globals;
  std::set<std::string> doneRec, doneEnum;
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size()+1; ids[D]=n; return n; }
  std::string usr(const Decl *D) { llvm::SmallString<128> B; if (index::generateUSRForDecl(D, B)) return "?" + std::to_string(id(D)); return std::string(B); }
  std::string ty(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); auto F = SM.getFileEntryRefForID(SM.getFileID(L)); if (!F) return ""; llvm::StringRef R = F->getFileEntry().tryGetRealPathName(); return R.str(); }
  bool inRoot(SourceLocation L) { if (L.isInvalid()) return false; std::string f = file(L); return f.compare(0, Root.size(), Root) == 0; }
  std::string rel(SourceLocation L) { std::string f = file(L); if (f.compare(0, Root.size(), Root) == 0) { f = f.substr(Root.size()); while (!f.empty() && f[0]=='/') f = f.substr(1);} return f; }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); return s; }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object o; o["k"]="expr"; o["l"]=line(E->getBeginLoc()); o["e"]=expr(E); return std::move(o); }
    Object o; o["l"] = line(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: { o["k"]="block"; Array a; for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c)); o["b"]=std::move(a); o["le"]=line(S->getEndLoc()); break; }
    case Stmt::DeclStmtClass: { o["k"]="decl"; Array a; for (auto *d : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); } o["d"]=std::move(a); break; }
    case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(S); o["k"]="if"; if (I->getInit()) o["init"]=stmt(I->getInit()); if (I->getConditionVariable()) o["var"]=var(I->getConditionVariable());
        if (I->isConstexpr()) o["constexpr"]=true;
        o["c"]=expr(I->getCond()); o["t"]=stmt(I->getThen()); o["f"]=stmt(I->getElse()); break; }
    case Stmt::ForStmtClass: { auto *F = cast<ForStmt>(S); o["k"]="for"; o["init"]=stmt(F->getInit()); if (F->getConditionVariable()) o["var"]=var(F->getConditionVariable());
        o["c"]=F->getCond()?expr(F->getCond()):Value(nullptr); o["inc"]=F->getInc()?expr(F->getInc()):Value(nullptr); o["b"]=stmt(F->getBody()); break; }
    case Stmt::WhileStmtClass: { auto *F = cast<WhileStmt>(S); o["k"]="while"; if (F->getConditionVariable()) o["var"]=var(F->getConditionVariable()); o["c"]=expr(F->getCond()); o["b"]=stmt(F->getBody()); break; }
    case Stmt::DoStmtClass: { auto *F = cast<DoStmt>(S); o["k"]="do"; o["c"]=expr(F->getCond()); o["b"]=stmt(F->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: { auto *F = cast<CXXForRangeStmt>(S); o["k"]="rfor"; if (F->getInit()) o["init"]=stmt(F->getInit()); o["var"]=var(F->getLoopVariable(), false); o["range"]=expr(F->getRangeInit()); o["b"]=stmt(F->getBody()); break; }
    case Stmt::SwitchStmtClass: { auto *W = cast<SwitchStmt>(S); o["k"]="switch"; if (W->getInit()) o["init"]=stmt(W->getInit()); if (W->getConditionVariable()) o["var"]=var(W->getConditionVariable()); o["c"]=expr(W->getCond()); o["b"]=stmt(W->getBody()); break; }
    case Stmt::CaseStmtClass: { auto *C = cast<CaseStmt>(S); o["k"]="case"; o["v"]=expr(C->getLHS()); if (C->getRHS()) o["v2"]=expr(C->getRHS()); o["b"]=stmt(C->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: { o["k"]="default"; o["b"]=stmt(cast<DefaultStmt>(S)->getSubStmt()); break; }
    case Stmt::BreakStmtClass: o["k"]="break"; break;
    case Stmt::ContinueStmtClass: o["k"]="continue"; break;
    case Stmt::ReturnStmtClass: { o["k"]="return"; auto *R = cast<ReturnStmt>(S); o["e"]=R->getRetValue()?expr(R->getRetValue()):Value(nullptr); break; }
    case Stmt::NullStmtClass: o["k"]="null"; break;
    case Stmt::CXXTryStmtClass: { auto *T = cast<CXXTryStmt>(S); o["k"]="try"; o["b"]=stmt(T->getTryBlock()); Array a;
        for (unsigned i=0;i<T->getNumHandlers();i++) { auto *H = T->getHandler(i); Object h; h["l"]=line(H->getBeginLoc()); if (H->getExceptionDecl()) { h["var"]=var(H->getExceptionDecl(), false); h["t"]=ty(H->getCaughtType().getNonReferenceType().getUnqualifiedType()); h["ref"]=H->getCaughtType()->isReferenceType(); } h["b"]=stmt(H->getHandlerBlock()); a.push_back(std::move(h)); }
        o["h"]=std::move(a); break; }
    case Stmt::LabelStmtClass: { o["k"]="label"; o["n"]=cast<LabelStmt>(S)->getName(); o["b"]=stmt(cast<LabelStmt>(S)->getSubStmt()); break; }
    case Stmt::GotoStmtClass: { o["k"]="goto"; o["n"]=cast<GotoStmt>(S)->getLabel()->getName().str(); break; }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default: o["k"]="?stmt"; o["cls"]=S->getStmtClassName();
    }
    return std::move(o);
  }
  Value var(const VarDecl *V, bool init=true) {
    Object o; o["id"]=id(V); o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); o["l"]=line(V->getLocation());
    if (V->getType()->isReferenceType()) o["ref"]=true;
    if (V->isStaticLocal()) o["static"]=true;
    if (init && V->getInit()) o["init"]=expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { Array a; for (auto *b : D->bindings()) { Object x; x["id"]=id(b); x["n"]=b->getNameAsString(); x["t"]=ty(b->getType()); if (b->getBinding()) x["e"]=expr(b->getBinding()); a.push_back(std::move(x)); } o["bindings"]=std::move(a); }
    return std::move(o);
  }
  Array args(llvm::ArrayRef<const Expr*> A) { Array r; for (auto *e : A) r.push_back(expr(e)); return r; }
  template<class It> Array argsR(It b, It e) { Array r; for (; b!=e; ++b) r.push_back(expr(*b)); return r; }
  void callee(Object &o, const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *D = nullptr; F->hasBody(D);
    o["fn"]=usr(F); o["qn"]=qn(F); o["fname"]=F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"]=ty(Ctx.getRecordType(M->getParent())); if (M->isVirtual()) o["virt"]=true; if (M->isConst()) o["cm"]=true; if (M->isStatic()) o["sm"]=true; }
    if (F->isNoReturn()) o["noret"]=true;
    Array pt; for (auto *p : F->parameters()) pt.push_back(ty(p->getType())); o["pt"]=std::move(pt);
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    default: break;
    }
    Object o; o["t"]=ty(E->getType()); o["l"]=line(E->getBeginLoc());
    if (E->isLValue()) o["lv"]=true; else if (E->isXValue()) o["xv"]=true;
    switch (E->getStmtClass()) {
    case Stmt::MaterializeTemporaryExprClass: { o["k"]="mat"; o["e"]=expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); break; }
    case Stmt::CXXDefaultArgExprClass: { Value v = expr(cast<CXXDefaultArgExpr>(E)->getExpr()); if (auto *ob = v.getAsObject()) (*ob)["defarg"]=true; return v; }
    case Stmt::IntegerLiteralClass: { o["k"]="int"; llvm::SmallString<32> s; cast<IntegerLiteral>(E)->getValue().toStringUnsigned(s); o["v"]=std::string(s); break; }
    case Stmt::FloatingLiteralClass: { o["k"]="float"; o["v"]=cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); break; }
    case Stmt::CharacterLiteralClass: { o["k"]="int"; o["v"]=std::to_string(cast<CharacterLiteral>(E)->getValue()); o["ch"]=true; break; }
    case Stmt::CXXBoolLiteralExprClass: { o["k"]="bool"; o["v"]=cast<CXXBoolLiteralExpr>(E)->getValue(); break; }
    case Stmt::StringLiteralClass: { o["k"]="str"; auto *L=cast<StringLiteral>(E); std::string s; if (L->getCharByteWidth()==1) { for (unsigned char c : L->getString()) { if (c<0x80) s+=c; else s+='?'; } } o["v"]=s; break; }
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"]="null"; break;
    case Stmt::CXXThisExprClass: o["k"]="this"; break;
    case Stmt::DeclRefExprClass: { auto *R=cast<DeclRefExpr>(E); const ValueDecl *D=R->getDecl(); o["k"]="ref"; o["n"]=D->getNameAsString();
        if (auto *EC=dyn_cast<EnumConstantDecl>(D)) { o["rk"]="enumc"; llvm::SmallString<32> s; EC->getInitVal().toString(s,10); o["v"]=std::string(s); o["en"]=ty(EC->getType()); }
        else if (auto *F=dyn_cast<FunctionDecl>(D)) { o["rk"]="fn"; callee(o,F); }
        else if (auto *V=dyn_cast<VarDecl>(D)) { if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) { o["rk"]="local"; o["id"]=id(V);} else if (V->isStaticLocal()) { o["rk"]="static"; o["id"]=id(V); o["g"]=usr(V); o["qn"]=qn(V); globalVar(V);} else { o["rk"]="global"; o["g"]=usr(V); o["qn"]=qn(V); globalVar(V);} if (V->getType()->isReferenceType()) o["isref"]=true; }
        else if (isa<BindingDecl>(D)) { o["rk"]="binding"; o["id"]=id(D); }
        else if (isa<FieldDecl>(D)) { o["rk"]="field"; o["qn"]=qn(D);} 
        else o["rk"]="other"; break; }
    case Stmt::MemberExprClass: { auto *M=cast<MemberExpr>(E); o["k"]="mem"; o["arrow"]=M->isArrow(); o["b"]=expr(M->getBase()); auto *D=M->getMemberDecl(); o["n"]=D->getNameAsString(); o["qn"]=qn(D);
        if (auto *F=dyn_cast<FieldDecl>(D)) { o["mk"]="field"; o["fcls"]=ty(Ctx.getRecordType(cast<RecordDecl>(F->getParent()))); if (F->getType()->isReferenceType()) o["isref"]=true; if (F->getType().isConstQualified()) o["fconst"]=true; }
        else if (auto *EC=dyn_cast<EnumConstantDecl>(D)) { o["k"]="ref"; o["rk"]="enumc"; llvm::SmallString<32> s; EC->getInitVal().toString(s,10); o["v"]=std::string(s); o["en"]=ty(EC->getType()); }
        else if (isa<CXXMethodDecl>(D)) { o["mk"]="method"; callee(o, cast<CXXMethodDecl>(D)); }
        else if (auto *V=dyn_cast<VarDecl>(D)) { o["k"]="ref"; o["rk"]="global"; o["g"]=usr(V); globalVar(V); } break; }
    case Stmt::CXXMemberCallExprClass: { auto *C=cast<CXXMemberCallExpr>(E); o["k"]="mcall"; auto *Cal=C->getCallee()->IgnoreParens(); 
        if (auto *M=dyn_cast<MemberExpr>(Cal)) { o["obj"]=expr(M->getBase()); o["arrow"]=M->isArrow(); callee(o,C->getMethodDecl()); if (M->hasQualifier()) o["qualified"]=true; if (M->performsVirtualDispatch(Ctx.getLangOpts())==false) o["novirt"]=true; }
        else { o["k"]="mpcall"; o["cal"]=expr(Cal); }
        o["a"]=argsR(C->arg_begin(),C->arg_end()); break; }
    case Stmt::CXXOperatorCallExprClass: { auto *C=cast<CXXOperatorCallExpr>(E); o["k"]="ocall"; o["op"]=getOperatorSpelling(C->getOperator()); callee(o,C->getDirectCallee()); o["a"]=argsR(C->arg_begin(),C->arg_end()); break; }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: { auto *C=cast<CallExpr>(E); o["k"]="call"; if (auto *F=C->getDirectCallee()) callee(o,F); else o["cal"]=expr(C->getCallee()); o["a"]=argsR(C->arg_begin(),C->arg_end()); break; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto *C=cast<CXXConstructExpr>(E); o["k"]="ctor"; callee(o,C->getConstructor()); o["a"]=argsR(C->arg_begin(),C->arg_end());
        auto *D=C->getConstructor(); if (D->isCopyConstructor()) o["copy"]=true; if (D->isMoveConstructor()) o["move"]=true; if (C->isElidable()) o["elide"]=true; if (C->isListInitialization()) o["list"]=true; recordOf(D->getParent()); break; }
    case Stmt::CXXInheritedCtorInitExprClass: { auto *C=cast<CXXInheritedCtorInitExpr>(E); o["k"]="inhctor"; callee(o,C->getConstructor()); break; }
    case Stmt::CXXNewExprClass: { auto *N=cast<CXXNewExpr>(E); o["k"]="new"; o["at"]=ty(N->getAllocatedType()); if (N->isArray()) { o["arr"]=true; if (auto s=N->getArraySize()) o["sz"]=*s?expr(*s):Value(nullptr);} if (N->getInitializer()) o["init"]=expr(N->getInitializer()); break; }
    case Stmt::CXXDeleteExprClass: { o["k"]="delete"; o["e"]=expr(cast<CXXDeleteExpr>(E)->getArgument()); break; }
    case Stmt::CXXThrowExprClass: { o["k"]="throw"; auto *T=cast<CXXThrowExpr>(E); o["e"]=T->getSubExpr()?expr(T->getSubExpr()):Value(nullptr); if (T->getSubExpr()) { o["tt"]=ty(T->getSubExpr()->getType().getUnqualifiedType()); if (auto *R=T->getSubExpr()->getType()->getAsCXXRecordDecl()) recordOf(R);} break; }
    case Stmt::UnaryOperatorClass: { auto *U=cast<UnaryOperator>(E); o["k"]="un"; o["op"]=(UnaryOperator::getOpcodeStr(U->getOpcode())).str(); o["post"]=U->isPostfix(); o["e"]=expr(U->getSubExpr()); break; }
    case Stmt::CompoundAssignOperatorClass: { auto *B=cast<CompoundAssignOperator>(E); o["k"]="cassign"; std::string op=B->getOpcodeStr().str(); op.pop_back(); o["op"]=op; o["ct"]=ty(B->getComputationResultType()); o["clt"]=ty(B->getComputationLHSType()); o["a"]=expr(B->getLHS()); o["b"]=expr(B->getRHS()); break; }
    case Stmt::BinaryOperatorClass: { auto *B=cast<BinaryOperator>(E); o["k"]="bin"; o["op"]=B->getOpcodeStr().str(); o["a"]=expr(B->getLHS()); o["b"]=expr(B->getRHS()); break; }
    case Stmt::ConditionalOperatorClass: { auto *C=cast<ConditionalOperator>(E); o["k"]="cond"; o["c"]=expr(C->getCond()); o["a"]=expr(C->getTrueExpr()); o["b"]=expr(C->getFalseExpr()); break; }
    case Stmt::ArraySubscriptExprClass: { auto *A=cast<ArraySubscriptExpr>(E); o["k"]="idx"; o["b"]=expr(A->getBase()); o["i"]=expr(A->getIdx()); break; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto *C=cast<CastExpr>(E); o["k"]="cast"; o["ck"]=C->getCastKindName(); o["e"]=expr(C->getSubExpr());
        if (!isa<ImplicitCastExpr>(E)) { o["ex"]=true; auto *X=cast<ExplicitCastExpr>(E); if (X->getTypeAsWritten()->isReferenceType()) o["toref"]=true; }
        if (isa<CXXDynamicCastExpr>(E)) o["dyn"]=true; 
        break; }
    case Stmt::InitListExprClass: { auto *I=cast<InitListExpr>(E); if (I->isSemanticForm()==false && I->getSemanticForm()) I=I->getSemanticForm(); o["k"]="ilist"; Array a; for (unsigned i=0;i<I->getNumInits();i++) a.push_back(expr(I->getInit(i))); o["a"]=std::move(a); break; }
    case Stmt::LambdaExprClass: { auto *L=cast<LambdaExpr>(E); o["k"]="lambda"; o["fn"]=usr(L->getCallOperator()); Array cs; auto ii=L->capture_init_begin(); for (auto &c : L->captures()) { Object x; if (c.capturesThis()) x["this"]=true; else if (c.capturesVariable()) { x["id"]=id(c.getCapturedVar()); x["n"]=c.getCapturedVar()->getNameAsString(); x["byref"]=c.getCaptureKind()==LCK_ByRef; if (*ii) x["e"]=expr(*ii);} cs.push_back(std::move(x)); ++ii; } o["caps"]=std::move(cs);
        if (!L->isGenericLambda()) { Array ps; for (auto *p : L->getCallOperator()->parameters()) ps.push_back(var(p,false)); o["p"]=std::move(ps); o["b"]=stmt(L->getBody()); } break; }
    case Stmt::UnaryExprOrTypeTraitExprClass: { o["k"]="sizeof"; Expr::EvalResult R; if (E->EvaluateAsInt(R, Ctx)) { llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["v"]=std::string(s);} break; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"]="zero"; break;
    case Stmt::TypeTraitExprClass: { o["k"]="bool"; o["v"]=cast<TypeTraitExpr>(E)->getValue(); break; }
    case Stmt::ConceptSpecializationExprClass: { o["k"]="bool"; o["v"]=cast<ConceptSpecializationExpr>(E)->isSatisfied(); break; }
    case Stmt::PredefinedExprClass: o["k"]="str"; o["v"]=""; break;
    default: o["k"]="?expr"; o["cn"]=E->getStmtClassName(); { Array a; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce)); o["a"]=std::move(a); }
    }
    return std::move(o);
  }
  void globalVar(const VarDecl *V) {
    std::string u=usr(V); if (Globals.get(u) && !(Globals.getObject(u)->get("init")==nullptr && V->getAnyInitializer())) return; 
    const VarDecl *Def=nullptr; const Expr *I = V->getAnyInitializer(Def);
    Object o; o["qn"]=qn(V); o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); o["const"]=V->getType().isConstQualified()||V->getType()->isArrayType(); 
    Globals[u]=Object(); // recursion guard
    if (I && (inRoot(V->getLocation()) || (Def && inRoot(Def->getLocation())))) o["init"]=expr(I);
    if (inRoot(V->getLocation())) { o["file"]=rel(V->getLocation()); o["l"]=line(V->getLocation()); }
    Globals[u]=std::move(o);
  }
  void recordOf(const CXXRecordDecl *R) {
    R = R->getDefinition(); if (!R || R->isDependentContext()) return; std::string n = ty(Ctx.getRecordType(R)); if (!doneRec.insert(n).second) return;
    bool mine = inRoot(R->getLocation());
    Object o; Array bases; for (auto &b : R->bases()) { bases.push_back(ty(b.getType())); if (auto *br=b.getType()->getAsCXXRecordDecl()) recordOf(br); }
    o["bases"]=std::move(bases); o["mine"]=mine; if (mine) { o["file"]=rel(R->getLocation()); o["l"]=line(R->getLocation()); }
    if (R->isLambda()) o["lambda"]=true;
    if (mine) {
      Array fs; for (auto *f : R->fields()) { Object x; x["n"]=f->getNameAsString(); x["t"]=ty(f->getType()); x["const"]=f->getType().isConstQualified(); x["ref"]=f->getType()->isReferenceType(); if (f->getInClassInitializer()) x["init"]=expr(f->getInClassInitializer()); fs.push_back(std::move(x)); }
      o["fields"]=std::move(fs);
      Array ms; for (auto *m : R->methods()) { Object x; x["n"]=m->getNameAsString(); x["fn"]=usr(m); x["virt"]=m->isVirtual(); x["pure"]=m->isPureVirtual(); x["deleted"]=m->isDeleted(); x["implicit"]=m->isImplicit(); x["defaulted"]=m->isDefaulted(); x["trivial"]=m->isTrivial(); if (auto *c=dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) x["copyctor"]=true; if (c->isMoveConstructor()) x["movector"]=true; } if (m->isCopyAssignmentOperator()) x["copyassign"]=true; if (m->isMoveAssignmentOperator()) x["moveassign"]=true; if (isa<CXXDestructorDecl>(m)) x["dtor"]=true;
        Array ov; for (auto *b : m->overridden_methods()) ov.push_back(usr(b)); x["over"]=std::move(ov); ms.push_back(std::move(x)); }
      o["methods"]=std::move(ms);
      o["abstract"]=R->isAbstract();
    }
    Records[n]=std::move(o);
  }
  void enumOf(const EnumDecl *E) { E=E->getDefinition(); if (!E) return; std::string n=ty(Ctx.getEnumType(E)); if (!doneEnum.insert(n).second) return; Object o; for (auto *c : E->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s,10); o[c->getNameAsString()]=std::string(s);} Enums[n]=std::move(o); }
  void function(const FunctionDecl *F) {
    if (F->isDependentContext()) return; if (F->getTemplatedKind()==FunctionDecl::TK_FunctionTemplate) return;
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) { if (!(F->isDefaulted() && F->isThisDeclarationADefinition())) return; }
    if (!F->doesThisDeclarationHaveABody()) { if (!F->isDefaulted()) return; }
    SourceLocation L=F->getLocation(); if (auto *P=F->getTemplateInstantiationPattern()) L=P->getLocation();
    if (!inRoot(L)) return;
    std::string u=usr(F); if (Functions.get(u)) return; 
    Object o; o["name"]=F->getNameAsString(); o["qn"]=qn(F); o["file"]=rel(L); o["line"]=line(L); o["ret"]=ty(F->getReturnType());
    if (F->isImplicit()) o["implicit"]=true; if (F->isDefaulted()) o["defaulted"]=true;
    if (F->isTemplateInstantiation()) { std::string s; llvm::raw_string_ostream os(s); F->getNameForDiagnostic(os, PP, true); o["inst"]=os.str(); Array ta; if (auto *TA=F->getTemplateSpecializationArgs()) for (auto &a : TA->asArray()) { if (a.getKind()==TemplateArgument::Type) ta.push_back(ty(a.getAsType())); else ta.push_back(nullptr);} o["targs"]=std::move(ta);} 
    Array ps; for (auto *p : F->parameters()) { Object x; x["id"]=id(p); x["n"]=p->getNameAsString(); x["t"]=ty(p->getType()); if (p->getType()->isReferenceType()) x["ref"]=true; if (p->hasDefaultArg() && p->getDefaultArg()) x["def"]=expr(p->getDefaultArg()); ps.push_back(std::move(x)); }
    o["params"]=std::move(ps);
    std::string kind="func";
    if (auto *M=dyn_cast<CXXMethodDecl>(F)) { kind="method"; o["cls"]=ty(Ctx.getRecordType(M->getParent())); recordOf(M->getParent()); if (M->isVirtual()) o["virt"]=true; if (M->isStatic()) o["static"]=true; if (M->isConst()) o["const"]=true; Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b)); o["over"]=std::move(ov);
      if (M->getParent()->isLambda()) o["lambdaop"]=true; }
    if (auto *C=dyn_cast<CXXConstructorDecl>(F)) { kind="ctor"; Array is; for (auto *i : C->inits()) { Object x; x["l"]=line(i->getSourceLocation()); if (i->isAnyMemberInitializer()) { x["f"]=i->getAnyMember()->getNameAsString(); x["ft"]=ty(i->getAnyMember()->getType()); x["ref"]=i->getAnyMember()->getType()->isReferenceType(); } else if (i->isBaseInitializer()) x["base"]=ty(QualType(i->getBaseClass(),0)); else if (i->isDelegatingInitializer()) x["deleg"]=true; x["written"]=i->isWritten(); x["e"]=expr(i->getInit()); is.push_back(std::move(x)); } o["inits"]=std::move(is); if (C->isCopyConstructor()) o["copyctor"]=true; if (C->isMoveConstructor()) o["movector"]=true; }
    if (isa<CXXDestructorDecl>(F)) kind="dtor"; if (isa<CXXConversionDecl>(F)) kind="conv";
    o["kind"]=kind; if (F->isNoReturn()) o["noret"]=true;
    if (F->doesThisDeclarationHaveABody() && F->getBody()) { o["body"]=stmt(F->getBody()); o["le"]=line(F->getBody()->getEndLoc()); }
    Functions[u]=std::move(o);
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D; V(Dumper &d):D(d){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && D.inRoot(R->getLocation())) D.recordOf(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (D.inRoot(E->getLocation())) D.enumOf(E); return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && D.inRoot(V->getLocation()) && !V->isTemplated() ) D.globalVar(V); return true; }
  bool TraverseDecl(Decl *X) { if (!X) return true; 
    if (auto *N = dyn_cast<NamespaceDecl>(X)) { if (N->isStdNamespace()) return true; }
    if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && X->getDeclContext() && X->getDeclContext()->isFileContext()) { if (!D.inRoot(X->getLocation()) && !isa<LinkageSpecDecl>(X)) return true; if (isa<LinkageSpecDecl>(X) && !D.inRoot(X->getLocation())) return true; }
    return RecursiveASTVisitor<V>::TraverseDecl(X); }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["functions"]=std::move(D.Functions); o["records"]=std::move(D.Records); o["enums"]=std::move(D.Enums); o["globals"]=std::move(D.Globals);
    llvm::outs() << Value(std::move(o)) << "\n";
  }
};
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char **argv) {
  std::string err; Root=argv[1]; std::string f=argv[2]; int n=argc; 
  auto DB=tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv, err);
  if (!DB) { llvm::errs() << "no flags: " << err << "\n"; return 2; }
  tooling::ClangTool T(*DB, {f});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
