// extract: dump the type-checked program of one translation unit as JSON lines.
// One record per function definition (incl. implicit template instantiations),
// class, enum and namespace-scope variable that does not come from a system
// header.  The analyses in ../an/ work on these records only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

namespace {

std::string jstr(llvm::StringRef s)
{ std::string r="\"";
  for (unsigned char c : s)
    switch(c)
    { case '"': r+="\\\""; break;
      case '\\': r+="\\\\"; break;
      case '\n': r+="\\n"; break;
      case '\t': r+="\\t"; break;
      case '\r': r+="\\r"; break;
      default:
        if (c<0x20 or c>=0x7f) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; }
        else r+=(char)c;
    }
  return r+="\"";
}

struct Dumper : public RecursiveASTVisitor<Dumper>
{
  ASTContext& ctx; SourceManager& sm; llvm::raw_ostream& out;
  PrintingPolicy pp; std::unique_ptr<MangleContext> mc;
  std::map<std::string,int> types; std::vector<std::string> type_list;
  std::map<const Decl*,int> local_ids;
  std::map<std::string,int> files; std::vector<std::string> file_list;
  std::set<const Decl*> seen;
  std::string o; // current record

  Dumper(ASTContext& c, llvm::raw_ostream& os)
  : ctx(c), sm(c.getSourceManager()), out(os), pp(c.getLangOpts())
  , mc(c.createMangleContext())
  { pp.SuppressTagKeyword=true; pp.FullyQualifiedName=true;
    pp.PrintCanonicalTypes=false; pp.Bool=true; pp.SuppressUnwrittenScope=false;
    pp.AnonymousTagLocations=false; }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return false; }

  int typeId(QualType t)
  { std::string s=t.getAsString(pp), c=t.getCanonicalType().getAsString(pp);
    std::string key=jstr(s)+","+jstr(c);
    auto it=types.find(key);
    if (it!=types.end()) return it->second;
    int id=type_list.size(); types[key]=id; type_list.push_back(key); return id;
  }
  int fileId(const std::string& f)
  { auto it=files.find(f); if (it!=files.end()) return it->second;
    int id=file_list.size(); files[f]=id; file_list.push_back(f); return id; }
  bool wanted(SourceLocation l)
  { if (l.isInvalid()) return false;
    return not sm.isInSystemHeader(sm.getExpansionLoc(l)); }
  void loc(SourceLocation l)
  { PresumedLoc p=sm.getPresumedLoc(sm.getExpansionLoc(l));
    if (p.isInvalid()) { o+="\"l\":0"; return; }
    o+="\"l\":"+std::to_string(p.getLine())+",\"f\":"+std::to_string(fileId(p.getFilename()));
  }
  std::string mangled(const FunctionDecl* f)
  { if (f->isDependentContext()) return "?dep";
    if (isa<CXXDeductionGuideDecl>(f)) return "?guide";
    std::string s; llvm::raw_string_ostream os(s);
    if (auto* c=dyn_cast<CXXConstructorDecl>(f))
      mc->mangleName(GlobalDecl(c,Ctor_Complete),os);
    else if (auto* d=dyn_cast<CXXDestructorDecl>(f))
      mc->mangleName(GlobalDecl(d,Dtor_Complete),os);
    else if (mc->shouldMangleDeclName(f))
      mc->mangleName(GlobalDecl(f),os);
    else os << f->getNameAsString();
    os.flush(); return s;
  }
  std::string qual(const NamedDecl* d)
  { std::string s; llvm::raw_string_ostream os(s);
    d->printQualifiedName(os,pp); os.flush(); return s; }
  std::string qualT(const NamedDecl* d) // with template arguments
  { std::string s; llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os,pp,true); os.flush(); return s; }
  int localId(const Decl* d)
  { d=d->getCanonicalDecl();
    auto it=local_ids.find(d); if (it!=local_ids.end()) return it->second;
    int id=local_ids.size(); local_ids[d]=id; return id; }

  void kids(std::initializer_list<const Stmt*> l)
  { o+=",\"c\":["; bool first=true;
    for (auto* s : l) { if (!first) o+=","; first=false; stmt(s); }
    o+="]"; }
  template<class R> void kidsR(R&& r)
  { o+=",\"c\":["; bool first=true;
    for (auto* s : r) { if (!first) o+=","; first=false; stmt(s); }
    o+="]"; }

  void declRef(const ValueDecl* d)
  { if (auto* f=dyn_cast<FunctionDecl>(d))
      o+=",\"dk\":\"fn\",\"d\":"+jstr(mangled(f))+",\"q\":"+jstr(qual(f));
    else if (auto* e=dyn_cast<EnumConstantDecl>(d))
      o+=",\"dk\":\"enum\",\"q\":"+jstr(qual(e))+",\"v\":\""+
	 llvm::toString(e->getInitVal(),10)+"\"";
    else if (auto* v=dyn_cast<VarDecl>(d))
    { if (isa<ParmVarDecl>(v)) o+=",\"dk\":\"parm\"";
      else if (v->isLocalVarDecl()) o+= v->isStaticLocal() ? ",\"dk\":\"slocal\"" : ",\"dk\":\"local\"";
      else o+=",\"dk\":\"global\"";
      o+=",\"d\":"+std::to_string(localId(v))+",\"q\":"+jstr(v->isLocalVarDeclOrParm()? v->getNameAsString() : qual(v));
      if (v->getType()->isIntegralOrEnumerationType() and v->getType().isConstQualified() and not isa<ParmVarDecl>(v)
	  and v->hasInit() and not v->getInit()->isValueDependent())
	if (auto* val=v->evaluateValue())
	  if (val->isInt()) o+=",\"v\":\""+llvm::toString(val->getInt(),10)+"\"";
    }
    else if (auto* b=dyn_cast<BindingDecl>(d))
      o+=",\"dk\":\"binding\",\"d\":"+std::to_string(localId(b))+",\"q\":"+jstr(b->getNameAsString());
    else o+=",\"dk\":\"other\",\"q\":"+jstr(qual(d));
  }

  void varDecl(const VarDecl* v)
  { o+="{\"k\":\"Var\",\"d\":"+std::to_string(localId(v))+",\"n\":"+jstr(v->getNameAsString())+",\"t\":"+std::to_string(typeId(v->getType()));
    o+=","; loc(v->getLocation());
    if (v->isStaticLocal()) o+=",\"static\":1";
    if (v->hasInit()) { o+=",\"i\":"; stmt(v->getInit()); 
      o+=",\"is\":"+std::to_string((int)v->getInitStyle()); }
    o+="}";
  }

  void head(const char* k,const Stmt* s)
  { o+="{\"k\":\""; o+=k; o+="\","; loc(s->getBeginLoc());
    if (auto* e=dyn_cast<Expr>(s)) o+=",\"t\":"+std::to_string(typeId(e->getType())); }

  void callee(const Expr* ce, const FunctionDecl* f)
  { if (f)
    { o+=",\"fn\":"+jstr(mangled(f))+",\"q\":"+jstr(qual(f))+",\"n\":"+jstr(f->getNameAsString());
      if (auto* m=dyn_cast<CXXMethodDecl>(f))
      { if (m->isVirtual()) o+=",\"virt\":1";
        if (m->isStatic()) o+=",\"smeth\":1";
        if (m->isConst()) o+=",\"cm\":1";
      }
      { // how each parameter is passed: v value, c const&, r non-const&, m &&, p T*, q const T*
	o+=",\"pt\":\"";
	for (auto* pa : f->parameters())
	{ QualType t=pa->getType().getCanonicalType();
	  char c='v';
	  if (t->isRValueReferenceType()) c='m';
	  else if (t->isLValueReferenceType()) c= t->getPointeeType().isConstQualified() ? 'c' : 'r';
	  else if (t->isPointerType()) c= t->getPointeeType().isConstQualified() ? 'q' : 'p';
	  o+=c;
	}
	o+="\""; }
      if (auto* ta=f->getTemplateSpecializationArgs())
      { std::string s; llvm::raw_string_ostream os(s);
        printTemplateArgumentList(os,ta->asArray(),pp); os.flush();
        o+=",\"ta\":"+jstr(s); }
    }
  }

  void stmt(const Stmt* s)
  { if (!s) { o+="null"; return; }
    // transparent wrappers
    if (auto* e=dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e=dyn_cast<FullExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e=dyn_cast<MaterializeTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e=dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e=dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
    if (auto* e=dyn_cast<CXXStdInitializerListExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e=dyn_cast<AttributedStmt>(s)) return stmt(e->getSubStmt());
    if (auto* e=dyn_cast<OpaqueValueExpr>(s)) return stmt(e->getSourceExpr());
    if (auto* e=dyn_cast<CXXDefaultArgExpr>(s))
    { head("DefArg",s); kids({e->getExpr()}); o+="}"; return; }
    if (auto* e=dyn_cast<CXXDefaultInitExpr>(s))
    { head("DefInit",s); kids({e->getExpr()}); o+="}"; return; }
    if (auto* e=dyn_cast<ImplicitCastExpr>(s))
    { switch (e->getCastKind())
      { case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating:
        case CK_FloatingToIntegral: case CK_FloatingCast: case CK_PointerToBoolean:
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_NullToPointer:
	  head("ICast",s); o+=",\"ck\":\""; o+=e->getCastKindName(); o+="\"";
	  kids({e->getSubExpr()}); o+="}"; return;
        default: return stmt(e->getSubExpr());
      }
    }
    if (auto* e=dyn_cast<ExplicitCastExpr>(s))
    { const char* k="Cast"; const char* st="c";
      if (isa<CXXStaticCastExpr>(e)) st="static";
      else if (isa<CXXDynamicCastExpr>(e)) st="dynamic";
      else if (isa<CXXConstCastExpr>(e)) st="const";
      else if (isa<CXXReinterpretCastExpr>(e)) st="reinterpret";
      else if (isa<CXXFunctionalCastExpr>(e)) st="functional";
      head(k,s); o+=",\"st\":\""; o+=st; o+="\",\"ck\":\""; o+=e->getCastKindName(); o+="\"";
      kids({e->getSubExpr()}); o+="}"; return;
    }
    if (auto* e=dyn_cast<DeclRefExpr>(s))
    { head("Ref",s); declRef(e->getDecl()); o+="}"; return; }
    if (auto* e=dyn_cast<MemberExpr>(s))
    { head("Mem",s); o+=",\"n\":"+jstr(e->getMemberDecl()->getNameAsString());
      o+=",\"q\":"+jstr(qual(e->getMemberDecl()));
      if (e->isArrow()) o+=",\"arrow\":1";
      if (auto* f=dyn_cast<FunctionDecl>(e->getMemberDecl())) o+=",\"d\":"+jstr(mangled(f));
      if (isa<FieldDecl>(e->getMemberDecl())) o+=",\"fld\":1";
      kids({e->getBase()}); o+="}"; return; }
    if (auto* e=dyn_cast<CXXThisExpr>(s)) { head("This",s); if (e->isImplicit()) o+=",\"imp\":1"; o+="}"; return; }
    if (auto* e=dyn_cast<CXXOperatorCallExpr>(s))
    { head("Call",s); o+=",\"op\":\""; o+=getOperatorSpelling(e->getOperator()); o+="\"";
      callee(e->getCallee(),e->getDirectCallee());
      if (e->getDirectCallee() and isa<CXXMethodDecl>(e->getDirectCallee())) o+=",\"om\":1";
      kidsR(std::vector<const Expr*>(e->arg_begin(),e->arg_end()));
      if (!e->getDirectCallee()) { o+=",\"ce\":"; stmt(e->getCallee()); }
      o+="}"; return; }
    if (auto* e=dyn_cast<CXXMemberCallExpr>(s))
    { head("Call",s); o+=",\"m\":1"; callee(e->getCallee(),e->getMethodDecl());
      std::vector<const Stmt*> v; v.push_back(e->getImplicitObjectArgument());
      for (auto* a : e->arguments()) v.push_back(a);
      if (auto* me=dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
        { if (me->isArrow()) o+=",\"arrow\":1";
          if (me->hasQualifier()) o+=",\"qualified\":1"; }
      kidsR(v);
      if (!e->getMethodDecl()) { o+=",\"ce\":"; stmt(e->getCallee()); }
      o+="}"; return; }
    if (auto* e=dyn_cast<CallExpr>(s))
    { head("Call",s); callee(e->getCallee(),e->getDirectCallee());
      kidsR(std::vector<const Expr*>(e->arg_begin(),e->arg_end()));
      if (!e->getDirectCallee()) { o+=",\"ce\":"; stmt(e->getCallee()); }
      o+="}"; return; }
    if (auto* e=dyn_cast<CXXConstructExpr>(s))
    { head("New0",s); // construct
      o.replace(o.rfind("\"New0\""),6,"\"Con\"");
      callee(nullptr,e->getConstructor());
      if (e->isElidable()) o+=",\"elide\":1";
      if (e->isListInitialization()) o+=",\"list\":1";
      if (e->getConstructor()->isCopyOrMoveConstructor())
        o+= e->getConstructor()->isMoveConstructor() ? ",\"mv\":1" : ",\"cp\":1";
      if (e->getConstructor()->isImplicit()) o+=",\"impl\":1";
      kidsR(std::vector<const Expr*>(e->arg_begin(),e->arg_end())); o+="}"; return; }
    if (auto* e=dyn_cast<CXXNewExpr>(s))
    { head("New",s); o+=",\"at\":"+std::to_string(typeId(e->getAllocatedType()));
      if (e->isArray()) o+=",\"arr\":1";
      std::vector<const Stmt*> v;
      v.push_back(e->getInitializer());
      if (e->isArray() and e->getArraySize()) v.push_back(*e->getArraySize());
      for (unsigned i=0;i<e->getNumPlacementArgs();++i) v.push_back(e->getPlacementArg(i));
      o+=",\"np\":"+std::to_string(e->getNumPlacementArgs());
      kidsR(v); o+="}"; return; }
    if (auto* e=dyn_cast<CXXDeleteExpr>(s))
    { head("Delete",s); if (e->isArrayForm()) o+=",\"arr\":1"; kids({e->getArgument()}); o+="}"; return; }
    if (auto* e=dyn_cast<BinaryOperator>(s))
    { head("Bin",s); o+=",\"op\":"+jstr(e->getOpcodeStr());
      kids({e->getLHS(),e->getRHS()}); o+="}"; return; }
    if (auto* e=dyn_cast<UnaryOperator>(s))
    { head("Un",s); o+=",\"op\":"+jstr(UnaryOperator::getOpcodeStr(e->getOpcode()));
      if (e->isPostfix()) o+=",\"post\":1";
      kids({e->getSubExpr()}); o+="}"; return; }
    if (auto* e=dyn_cast<ConditionalOperator>(s))
    { head("Cond",s); kids({e->getCond(),e->getTrueExpr(),e->getFalseExpr()}); o+="}"; return; }
    if (auto* e=dyn_cast<ArraySubscriptExpr>(s))
    { head("Sub",s); kids({e->getBase(),e->getIdx()}); o+="}"; return; }
    if (auto* e=dyn_cast<IntegerLiteral>(s))
    { head("Int",s); o+=",\"v\":\""+llvm::toString(e->getValue(),10,e->getType()->isSignedIntegerType())+"\"}"; return; }
    if (auto* e=dyn_cast<CharacterLiteral>(s))
    { head("Chr",s); o+=",\"v\":\""+std::to_string(e->getValue())+"\"}"; return; }
    if (auto* e=dyn_cast<CXXBoolLiteralExpr>(s))
    { head("Bool",s); o+=",\"v\":"; o+=e->getValue()?"1":"0"; o+="}"; return; }
    if (auto* e=dyn_cast<CXXNullPtrLiteralExpr>(s)) { (void)e; head("Null",s); o+="}"; return; }
    if (auto* e=dyn_cast<StringLiteral>(s))
    { head("Str",s); o+=",\"v\":"+jstr(e->getCharByteWidth()==1?e->getString():"?")+"}"; return; }
    if (auto* e=dyn_cast<FloatingLiteral>(s)) { (void)e; head("Flt",s); o+="}"; return; }
    if (auto* e=dyn_cast<InitListExpr>(s))
    { head("InitList",s); kidsR(std::vector<const Expr*>(e->inits().begin(),e->inits().end())); o+="}"; return; }
    if (auto* e=dyn_cast<UnaryExprOrTypeTraitExpr>(s))
    { head("SizeOf",s); Expr::EvalResult r;
      if (not e->isValueDependent() and e->EvaluateAsInt(r,ctx)) o+=",\"v\":\""+llvm::toString(r.Val.getInt(),10)+"\"";
      o+=",\"at\":"+std::to_string(typeId(e->getTypeOfArgument()))+"}"; return; }
    if (auto* e=dyn_cast<LambdaExpr>(s))
    { head("Lambda",s); o+=",\"op\":"+jstr(mangled(e->getCallOperator()));
      o+=",\"caps\":["; bool first=true;
      for (auto& c : e->captures())
      { if (!first) o+=","; first=false;
	if (c.capturesThis()) o+="{\"this\":1}";
	else if (c.capturesVariable())
	{ o+="{\"d\":"+std::to_string(localId(c.getCapturedVar()))+",\"n\":"+jstr(c.getCapturedVar()->getNameAsString())
	   +(c.getCaptureKind()==LCK_ByRef?",\"ref\":1":"")+"}"; }
	else o+="{}";
      }
      o+="],\"params\":"; params(e->getCallOperator());
      kids({e->getBody()}); o+="}"; return; }
    if (auto* e=dyn_cast<CXXThrowExpr>(s))
    { head("Throw",s);
      if (e->getSubExpr()) o+=",\"tt\":"+std::to_string(typeId(e->getSubExpr()->getType().getUnqualifiedType()));
      kids({e->getSubExpr()}); o+="}"; return; }
    if (auto* e=dyn_cast<CXXScalarValueInitExpr>(s)) { (void)e; head("ZeroInit",s); o+="}"; return; }
    if (auto* e=dyn_cast<ImplicitValueInitExpr>(s)) { (void)e; head("ZeroInit",s); o+="}"; return; }
    // statements
    if (auto* e=dyn_cast<CompoundStmt>(s))
    { head("Block",s); kidsR(std::vector<const Stmt*>(e->body_begin(),e->body_end())); o+="}"; return; }
    if (auto* e=dyn_cast<DeclStmt>(s))
    { head("Decl",s); o+=",\"c\":["; bool first=true;
      for (auto* d : e->decls())
	if (auto* v=dyn_cast<VarDecl>(d))
	{ if (!first) o+=","; first=false; varDecl(v); }
      o+="]}"; return; }
    if (auto* e=dyn_cast<IfStmt>(s))
    { head("If",s); 
      if (e->getInit()) { o+=",\"init\":"; stmt(e->getInit()); }
      if (e->getConditionVariableDeclStmt()) { o+=",\"cv\":"; stmt(e->getConditionVariableDeclStmt()); }
      kids({e->getCond(),e->getThen(),e->getElse()}); o+="}"; return; }
    if (auto* e=dyn_cast<WhileStmt>(s))
    { head("While",s);
      if (e->getConditionVariableDeclStmt()) { o+=",\"cv\":"; stmt(e->getConditionVariableDeclStmt()); }
      kids({e->getCond(),e->getBody()}); o+="}"; return; }
    if (auto* e=dyn_cast<DoStmt>(s))
    { head("Do",s); kids({e->getBody(),e->getCond()}); o+="}"; return; }
    if (auto* e=dyn_cast<ForStmt>(s))
    { head("For",s);
      if (e->getConditionVariableDeclStmt()) { o+=",\"cv\":"; stmt(e->getConditionVariableDeclStmt()); }
      kids({e->getInit(),e->getCond(),e->getInc(),e->getBody()}); o+="}"; return; }
    if (auto* e=dyn_cast<CXXForRangeStmt>(s))
    { head("Range",s); o+=",\"var\":"; varDecl(e->getLoopVariable());
      kids({e->getRangeInit(),e->getBody()}); o+="}"; return; }
    if (auto* e=dyn_cast<SwitchStmt>(s))
    { head("Switch",s);
      if (e->getInit()) { o+=",\"init\":"; stmt(e->getInit()); }
      if (e->getConditionVariableDeclStmt()) { o+=",\"cv\":"; stmt(e->getConditionVariableDeclStmt()); }
      kids({e->getCond(),e->getBody()}); o+="}"; return; }
    if (auto* e=dyn_cast<CaseStmt>(s))
    { head("Case",s); kids({e->getLHS(),e->getSubStmt()}); o+="}"; return; }
    if (auto* e=dyn_cast<DefaultStmt>(s))
    { head("Default",s); kids({e->getSubStmt()}); o+="}"; return; }
    if (auto* e=dyn_cast<ReturnStmt>(s))
    { head("Return",s); kids({e->getRetValue()}); o+="}"; return; }
    if (isa<BreakStmt>(s)) { head("Break",s); o+="}"; return; }
    if (isa<ContinueStmt>(s)) { head("Continue",s); o+="}"; return; }
    if (isa<NullStmt>(s)) { head("Nop",s); o+="}"; return; }
    if (auto* e=dyn_cast<GotoStmt>(s)) { head("Goto",s); o+=",\"n\":"+jstr(e->getLabel()->getNameAsString())+"}"; return; }
    if (auto* e=dyn_cast<LabelStmt>(s)) { head("Label",s); o+=",\"n\":"+jstr(e->getDecl()->getNameAsString()); kids({e->getSubStmt()}); o+="}"; return; }
    if (auto* e=dyn_cast<CXXTryStmt>(s))
    { head("Try",s); o+=",\"c\":["; stmt(e->getTryBlock());
      for (unsigned i=0;i<e->getNumHandlers();++i) { o+=","; stmt(e->getHandler(i)); }
      o+="]}"; return; }
    if (auto* e=dyn_cast<CXXCatchStmt>(s))
    { head("Catch",s);
      if (e->getExceptionDecl()) { o+=",\"ct\":"+std::to_string(typeId(e->getCaughtType())); o+=",\"var\":"; varDecl(e->getExceptionDecl()); }
      kids({e->getHandlerBlock()}); o+="}"; return; }
    // generic fallback
    head(s->getStmtClassName(),s);
    kidsR(s->children()); o+="}";
  }

  void params(const FunctionDecl* f)
  { o+="["; bool first=true;
    for (auto* p : f->parameters())
    { if (!first) o+=","; first=false;
      o+="{\"d\":"+std::to_string(localId(p))+",\"n\":"+jstr(p->getNameAsString())+",\"t\":"+std::to_string(typeId(p->getType()))+"}"; }
    o+="]"; }

  void flush() { out << o << '\n'; o.clear(); }

  bool VisitFunctionDecl(FunctionDecl* f)
  { if (!f->doesThisDeclarationHaveABody() and not f->isDefaulted()) return true;
    if (f->isDependentContext() or f->isDeleted()) return true;
    if (isa<CXXDeductionGuideDecl>(f)) return true;
    if (!wanted(f->getLocation())) return true;
    if (!f->hasBody() and !f->isDefaulted()) return true;
    if (auto* m=dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!seen.insert(f->getCanonicalDecl()).second) return true;
    if (f->isDefaulted() and not f->doesThisDeclarationHaveABody()) 
    { if (f->isImplicit()) return true; }
    o="{\"r\":\"fn\",\"id\":"+jstr(mangled(f))+",\"q\":"+jstr(qual(f))+",\"qt\":"+jstr(qualT(f))+",\"n\":"+jstr(f->getNameAsString())+",";
    loc(f->getLocation());
    o+=",\"ret\":"+std::to_string(typeId(f->getReturnType()));
    { PresumedLoc p=sm.getPresumedLoc(f->getEndLoc()); if (p.isValid()) o+=",\"le\":"+std::to_string(p.getLine()); }
    o+=",\"params\":"; params(f);
    if (f->isImplicit()) o+=",\"implicit\":1";
    if (f->isDefaulted()) o+=",\"defaulted\":1";
    if (f->isTemplateInstantiation()) o+=",\"inst\":1";
    if (f->getStorageClass()==SC_Static) o+=",\"static\":1";
    if (sm.isInMainFile(sm.getExpansionLoc(f->getLocation()))) o+=",\"main\":1";
    if (auto* fp=f->getType()->getAs<FunctionProtoType>())
      if (isNoexceptExceptionSpec(fp->getExceptionSpecType()) and fp->canThrow()==CT_Cannot) o+=",\"noexcept\":1";
    if (auto* m=dyn_cast<CXXMethodDecl>(f))
    { o+=",\"cls\":"+jstr(qualT(m->getParent()));
      if (m->isVirtual()) o+=",\"virt\":1";
      if (m->isConst()) o+=",\"const\":1";
      if (m->isStatic()) o+=",\"smeth\":1";
      o+=",\"acc\":\""; o+= m->getAccess()==AS_public?"public":m->getAccess()==AS_private?"private":"protected"; o+="\"";
      if (m->size_overridden_methods()>0)
      { o+=",\"ovr\":["; bool first=true;
	for (auto* x : m->overridden_methods()) { if (!first) o+=","; first=false; o+=jstr(mangled(x)); }
	o+="]"; }
    }
    if (auto* c=dyn_cast<CXXConstructorDecl>(f))
    { o+=",\"ctor\":1";
      if (c->isCopyOrMoveConstructor()) o+=",\"copymove\":1";
      if (c->isDelegatingConstructor()) o+=",\"deleg\":1";
      o+=",\"inits\":["; bool first=true;
      for (auto* in : c->inits())
      { if (!first) o+=","; first=false;
	o+="{";
	if (in->isAnyMemberInitializer()) o+="\"fld\":"+jstr(in->getAnyMember()->getNameAsString());
	else if (in->isBaseInitializer()) o+="\"base\":"+jstr(QualType(in->getBaseClass(),0).getCanonicalType().getAsString(pp));
	else o+="\"deleg\":1";
	if (in->isWritten()) o+=",\"w\":1";
	o+=",\"e\":"; stmt(in->getInit()); o+="}";
      }
      o+="]";
    }
    if (isa<CXXDestructorDecl>(f)) o+=",\"dtor\":1";
    if (f->doesThisDeclarationHaveABody()) { o+=",\"body\":"; stmt(f->getBody()); }
    o+="}"; flush();
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* c)
  { if (!c->isThisDeclarationADefinition() or c->isDependentContext() or c->isLambda()) return true;
    if (!wanted(c->getLocation())) return true;
    if (!seen.insert(c).second) return true;
    o="{\"r\":\"cls\",\"q\":"+jstr(qualT(c))+",\"n\":"+jstr(c->getNameAsString())+","; loc(c->getLocation());
    o+=",\"ct\":"+std::to_string(typeId(ctx.getRecordType(c)));
    if (c->isUnion()) o+=",\"union\":1";
    if (c->isAggregate()) o+=",\"aggr\":1";
    if (c->hasUserProvidedDefaultConstructor()) o+=",\"udc\":1";
    if (c->isAbstract()) o+=",\"abstract\":1";
    if (c->hasUserDeclaredDestructor()) o+=",\"udd\":1";
    if (c->hasUserDeclaredCopyConstructor()) o+=",\"ucc\":1";
    if (c->hasUserDeclaredCopyAssignment()) o+=",\"uca\":1";
    if (c->hasUserDeclaredMoveConstructor()) o+=",\"umc\":1";
    if (c->hasUserDeclaredMoveAssignment()) o+=",\"uma\":1";
    o+=",\"bases\":["; bool first=true;
    for (auto& b : c->bases())
    { if (!first) o+=","; first=false;
      o+="["+jstr(b.getType().getCanonicalType().getAsString(pp))+",\""+(b.getAccessSpecifier()==AS_public?"public":"other")+"\"]"; }
    o+="],\"fields\":["; first=true;
    for (auto* f : c->fields())
    { if (!first) o+=","; first=false;
      o+="{\"n\":"+jstr(f->getNameAsString())+",\"t\":"+std::to_string(typeId(f->getType()))+",";
      loc(f->getLocation());
      o+=",\"acc\":\""; o+= f->getAccess()==AS_public?"public":f->getAccess()==AS_private?"private":"protected"; o+="\"";
      if (f->isMutable()) o+=",\"mut\":1";
      if (f->hasInClassInitializer()) o+=",\"ini\":1";
      if (f->isBitField()) o+=",\"bf\":"+std::to_string(f->getBitWidthValue(ctx));
      if (f->getType()->isScalarType()) o+=",\"scalar\":1";
      o+="}"; }
    o+="],\"methods\":["; first=true;
    for (auto* m : c->methods())
    { if (!first) o+=","; first=false;
      o+="{\"n\":"+jstr(m->getNameAsString())+",\"id\":"+jstr(mangled(m));
      if (m->isPureVirtual()) o+=",\"pure\":1";
      if (m->isVirtual()) o+=",\"virt\":1";
      if (m->isConst()) o+=",\"const\":1";
      if (m->isDeleted()) o+=",\"del\":1";
      if (m->isImplicit()) o+=",\"imp\":1";
      o+=",\"acc\":\""; o+= m->getAccess()==AS_public?"public":m->getAccess()==AS_private?"private":"protected"; o+="\"";
      o+=",\"t\":"+std::to_string(typeId(m->getType()));
      if (auto* cc=dyn_cast<CXXConstructorDecl>(m))
      { if (cc->isCopyConstructor()) o+=",\"copyctor\":1"; if (cc->isMoveConstructor()) o+=",\"movector\":1"; }
      if (m->isCopyAssignmentOperator()) o+=",\"copyasg\":1";
      if (m->isMoveAssignmentOperator()) o+=",\"moveasg\":1";
      if (m->isExplicitlyDefaulted()) o+=",\"dft\":1";
      o+="}"; }
    o+="]}"; flush();
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e)
  { if (!e->isThisDeclarationADefinition() or !wanted(e->getLocation())) return true;
    o="{\"r\":\"enum\",\"q\":"+jstr(qual(e))+","; loc(e->getLocation());
    o+=",\"vals\":["; bool first=true;
    for (auto* c : e->enumerators())
    { if (!first) o+=","; first=false;
      o+="["+jstr(c->getNameAsString())+","+llvm::toString(c->getInitVal(),10)+"]"; }
    o+="]}"; flush();
    return true;
  }
  bool VisitVarDecl(VarDecl* v)
  { if (!v->isFileVarDecl() or !wanted(v->getLocation())) return true;
    if (v->getDeclContext()->isDependentContext() or v->getType()->isDependentType()) return true;
    if (v->isThisDeclarationADefinition()!=VarDecl::Definition) return true;
    if (v->isStaticDataMember() and v->hasInit() and v->getInit()->isValueDependent()) return true;
    o="{\"r\":\"var\",\"q\":"+jstr(qual(v))+",\"n\":"+jstr(v->getNameAsString())+",\"d\":"+std::to_string(localId(v))+",\"t\":"+std::to_string(typeId(v->getType()))+","; loc(v->getLocation());
    if (v->getType().isConstQualified()) o+=",\"const\":1";
    if (v->isStaticDataMember()) o+=",\"sdm\":1";
    if (v->hasInit()) { o+=",\"i\":"; stmt(v->getInit()); }
    o+="}"; flush();
    return true;
  }
  void finish()
  { out << "{\"r\":\"types\",\"v\":[";
    for (size_t i=0;i<type_list.size();++i) out << (i?",[":"[") << type_list[i] << "]";
    out << "]}\n{\"r\":\"files\",\"v\":[";
    for (size_t i=0;i<file_list.size();++i) out << (i?",":"") << jstr(file_list[i]);
    out << "]}\n";
  }
};

struct Consumer : public ASTConsumer
{ std::string fn; CompilerInstance& ci;
  Consumer(std::string f,CompilerInstance& c):fn(f),ci(c){}
  void HandleTranslationUnit(ASTContext& ctx) override
  { if (ci.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec; llvm::raw_fd_ostream os(fn,ec);
    if (ec) { llvm::errs() << ec.message() << '\n'; exit(3); }
    Dumper d(ctx,os); d.TraverseDecl(ctx.getTranslationUnitDecl()); d.finish();
  }
};
struct Action : public ASTFrontendAction
{ std::string fn; Action(std::string f):fn(f){}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override
  { return std::make_unique<Consumer>(fn,ci); }
};
struct Factory : public tooling::FrontendActionFactory
{ std::string fn; Factory(std::string f):fn(f){}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(fn); }
};
} // namespace

// usage: extract OUT SRC flags...
int main(int argc,char** argv)
{ if (argc<3) return 2;
  std::vector<std::string> args;
  for (int i=3;i<argc;++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",args);
  tooling::ClangTool tool(db,{argv[2]});
  Factory f(argv[1]);
  return tool.run(&f);
}
