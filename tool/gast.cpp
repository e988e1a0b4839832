// Syntax-tree facts of a translation unit, one JSON object per line:
//   state   variables with static storage duration: constant or not, initialised from what
//   owner   classes that release memory, and how they may be copied
//   init    constructors and the members they leave without a value
//   odr     definitions in headers that may not appear in two translation units, and using-directives
//   narrow  implicit conversions of 64-bit (or template-argument typed) integers to narrower types, in instantiations
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include <map>
#include <set>
#include <string>
using namespace clang; using std::string;
static string Root="/repo/"; static bool Inst=false;
static string esc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
struct V: RecursiveASTVisitor<V>{ ASTContext&C; SourceManager&SM; std::set<string> seen; V(ASTContext&c):C(c),SM(c.getSourceManager()){}
  bool shouldVisitTemplateInstantiations()const{ return Inst; } bool shouldVisitImplicitCode()const{ return false; }
  string file(SourceLocation l){ l=SM.getExpansionLoc(l); auto p=SM.getPresumedLoc(l,false); if(p.isInvalid()) return ""; string f=p.getFilename(); llvm::SmallString<256> q(f); if(auto e=SM.getFileManager().getFile(f)) if(auto r=(*e)->tryGetRealPathName(); !r.empty()) f=r.str(); return f.compare(0,Root.size(),Root)==0?f.substr(Root.size()):""; }
  unsigned line(SourceLocation l){ return SM.getExpansionLineNumber(l); }
  void out(const char*kind,SourceLocation l,const string&name,std::map<string,string> kv){ string f=file(l); if(f.empty()) return; string s=string("{\"kind\":\"")+kind+"\",\"file\":\""+esc(f)+"\",\"line\":"+std::to_string(line(l))+",\"name\":\""+esc(name)+"\""; for(auto&x:kv) s+=",\""+x.first+"\":\""+esc(x.second)+"\""; s+="}"; if(seen.insert(s).second) llvm::outs()<<s<<"\n"; }
  string text(SourceRange r){ return Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getExpansionRange(r).getAsRange()),SM,C.getLangOpts()).str().substr(0,160); }
  static const Decl*fnOf(const Decl*d){ const DeclContext*dc=d->getDeclContext(); while(dc&&!dc->isFunctionOrMethod()) dc=dc->getParent(); return dc?cast<Decl>(dc):nullptr; }
  // ------------------------------------------------ state
  struct Uses: RecursiveASTVisitor<Uses>{ string first; bool VisitDeclRefExpr(DeclRefExpr*e){ if(auto*v=dyn_cast<VarDecl>(e->getDecl())) if(v->hasLocalStorage()&&first.empty()) first=v->getNameAsString(); return true; } bool VisitCXXThisExpr(CXXThisExpr*){ if(first.empty()) first="this"; return true; } bool TraverseLambdaExpr(LambdaExpr*){ return true; } bool TraverseLambdaBody(LambdaExpr*){ return true; } };
  bool VisitVarDecl(VarDecl*v){ if(Inst) return true; if(!v->hasGlobalStorage()||isa<ParmVarDecl>(v)) return true; if(file(v->getLocation()).empty()) return true;
    QualType t=C.getBaseElementType(v->getType()); bool cst=v->isConstexpr()||t.isConstQualified()||(t->isReferenceType()&&t->getPointeeType().isConstQualified()); if(t->isPointerType()&&cst&&!t->getPointeeType().isConstQualified()&&!t->getPointeeType()->isFunctionType()) cst=false;
    string dep; if(v->isStaticLocal()&&v->getInit()){ Uses u; u.TraverseStmt(v->getInit()); dep=u.first; }
    out("state",v->getLocation(),v->getQualifiedNameAsString(),{{"const",cst?"1":"0"},{"local",v->isStaticLocal()?"1":"0"},{"from",dep},{"type",v->getType().getAsString()}});
    // odr
    if(!v->isStaticLocal()&&!v->isInline()&&!v->isConstexpr()&&!cst&&v->isThisDeclarationADefinition()==VarDecl::Definition&&v->getStorageClass()!=SC_Static&&!v->getDeclContext()->isDependentContext()&&!v->getDescribedVarTemplate()&&!(v->getTemplateSpecializationKind()==TSK_ImplicitInstantiation)&&!v->isInAnonymousNamespace()) out("odr",v->getLocation(),v->getQualifiedNameAsString(),{{"what","variable"}});
    return true; }
  bool VisitUsingDirectiveDecl(UsingDirectiveDecl*u){ if(!Inst&&!fnOf(u)) out("odr",u->getLocation(),u->getNominatedNamespace()->getQualifiedNameAsString(),{{"what","using-directive"}}); return true; }
  bool VisitFunctionDecl(FunctionDecl*f){ if(!Inst&&!isa<CXXMethodDecl>(f)) fnames.insert(f->getNameAsString()); if(Inst){ narrow(f); return true; } if(!f->isThisDeclarationADefinition()||f->isDefaulted()||f->isDeleted()) return true; if(file(f->getLocation()).empty()) return true;
    bool out_of_class=true; if(!f->isInlined()&&!f->isConstexpr()&&f->getStorageClass()!=SC_Static&&!f->isDependentContext()&&!f->getDescribedFunctionTemplate()&&!f->isInAnonymousNamespace()&&!fnOf(f)&&f->isExternallyVisible()) out("odr",f->getLocation(),f->getQualifiedNameAsString(),{{"what","function"}});
    else out("fn",f->getLocation(),f->getQualifiedNameAsString(),{}); (void)out_of_class; return true; }
  // a dependent unqualified call that finds nothing where it is written resolves only if the user happened to include the right header before
  bool VisitUnresolvedLookupExpr(UnresolvedLookupExpr*e){ if(!Inst&&e->requiresADL()&&e->decls_begin()==e->decls_end()) adl.push_back({e->getNameLoc(),e->getName().getAsString()}); return true; }
  std::vector<std::pair<SourceLocation,string>> adl; std::set<string> fnames; void finish(){ for(auto&x:adl) if(!fnames.count(x.second)) out("adl",x.first,x.second,{}); }
  // ------------------------------------------------ ownership
  struct Body: RecursiveASTVisitor<Body>{ std::set<string> calls,assigned,deleted,selfptr,reset; bool del=false,nw=false; string how; static string callee(Expr*e){ e=e->IgnoreParenImpCasts(); if(auto*m=dyn_cast<MemberExpr>(e)) return m->getMemberNameInfo().getAsString(); if(auto*m=dyn_cast<CXXDependentScopeMemberExpr>(e)) return m->getMember().getAsString(); if(auto*u=dyn_cast<OverloadExpr>(e)) return u->getName().getAsString(); if(auto*d=dyn_cast<DeclRefExpr>(e)) return d->getNameInfo().getAsString(); if(auto*d=dyn_cast<DependentScopeDeclRefExpr>(e)) return d->getDeclName().getAsString(); return ""; }
    void target(Expr*e){ e=e->IgnoreParenImpCasts(); while(true){ if(auto*a=dyn_cast<ArraySubscriptExpr>(e)) e=a->getBase()->IgnoreParenImpCasts(); else break; } if(auto*m=dyn_cast<MemberExpr>(e)){ if(isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())) assigned.insert(m->getMemberDecl()->getNameAsString()); else if(isa<DeclRefExpr>(m->getBase()->IgnoreParenImpCasts())) reset.insert(m->getMemberDecl()->getNameAsString()); else if(auto*mm=dyn_cast<MemberExpr>(m->getBase()->IgnoreParenImpCasts())) target(mm); } else if(auto*m=dyn_cast<CXXDependentScopeMemberExpr>(e)) assigned.insert(m->getMember().getAsString()); }
    bool VisitCXXDeleteExpr(CXXDeleteExpr*e){ del=true; how="delete"; string n=callee(e->getArgument()); if(!n.empty()) deleted.insert(n); return true; }
    bool VisitCXXNewExpr(CXXNewExpr*e){ if(e->getNumPlacementArgs()==0) nw=true; return true; }
    bool VisitCallExpr(CallExpr*e){ if(isa<CXXOperatorCallExpr>(e)){ auto*o=cast<CXXOperatorCallExpr>(e); if(o->isAssignmentOp()&&o->getNumArgs()) target(o->getArg(0)); return true; } string n=callee(e->getCallee()); if(!n.empty()) calls.insert(n); if(n=="free"||n=="deallocate"||n=="fclose"||n=="operator delete"||n=="_aligned_free"){ del=true; how=n; } for(unsigned i=0;i<e->getNumArgs();i++){ target(e->getArg(i)); if(auto*u=dyn_cast<UnaryOperator>(e->getArg(i)->IgnoreParenImpCasts())) if(u->getOpcode()==UO_AddrOf) target(u->getSubExpr()); } return true; }
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr*e){ if(auto*m=dyn_cast<MemberExpr>(e->getCallee()->IgnoreParenImpCasts())) target(m->getBase()); return true; }
    static const MemberExpr*own(Expr*e){ e=e->IgnoreParenCasts(); while(true){ if(auto*b=dyn_cast<BinaryOperator>(e)) e=b->getLHS()->IgnoreParenCasts(); else if(auto*a=dyn_cast<ArraySubscriptExpr>(e)) e=a->getBase()->IgnoreParenCasts(); else break; } auto*m=dyn_cast<MemberExpr>(e); return m&&isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())?m:nullptr; }
    static bool self(Expr*l,Expr*r){ auto*m=own(l); if(!m||!m->getType()->isPointerType()) return false; r=r->IgnoreParenCasts(); while(auto*b=dyn_cast<BinaryOperator>(r)) r=b->getLHS()->IgnoreParenCasts(); if(auto*u=dyn_cast<UnaryOperator>(r)) if(u->getOpcode()==UO_AddrOf) return own(u->getSubExpr()); if(auto*o=own(r)) return o->getType()->isArrayType(); if(auto*c=dyn_cast<CallExpr>(r)) if(auto*me=dyn_cast<MemberExpr>(c->getCallee()->IgnoreParenImpCasts())) if(me->getMemberNameInfo().getAsString()=="data"||me->getMemberNameInfo().getAsString()=="begin") return own(me->getBase()); return false; }
    bool VisitBinaryOperator(BinaryOperator*e){ if(e->isAssignmentOp()) target(e->getLHS()); if(e->getOpcode()==BO_Assign&&self(e->getLHS(),e->getRHS())) selfptr.insert(own(e->getLHS())->getMemberDecl()->getNameAsString()); return true; }
    bool VisitUnaryOperator(UnaryOperator*e){ if(e->isIncrementDecrementOp()) target(e->getSubExpr()); return true; } };
  Body closure(CXXRecordDecl*r,Stmt*s){ Body b; b.TraverseStmt(s); std::set<string> done; while(true){ string n; for(auto&x:b.calls) if(!done.count(x)){ n=x; break; } if(n.empty()) return b; done.insert(n); for(auto*d:r->decls()){ FunctionDecl*f=dyn_cast<FunctionDecl>(d); if(auto*t=dyn_cast<FunctionTemplateDecl>(d)) f=t->getTemplatedDecl(); if(f&&f->getNameAsString()==n&&f->hasBody()&&!isa<CXXDestructorDecl>(f)) b.TraverseStmt(f->getBody()); } } }
  bool VisitCXXRecordDecl(CXXRecordDecl*r){ if(Inst||!r->isThisDeclarationADefinition()||r->isLambda()||r->isUnion()||file(r->getLocation()).empty()) return true; if(isa<ClassTemplateSpecializationDecl>(r)&&!isa<ClassTemplatePartialSpecializationDecl>(r)&&cast<ClassTemplateSpecializationDecl>(r)->getTemplateSpecializationKind()!=TSK_ExplicitSpecialization) return true;
    string q=r->getQualifiedNameAsString(); bool frees=false,news=false,anyfree=false,ptr=false; string how; for(auto*f:r->fields()) if(f->getType()->isPointerType()) ptr=true;
    std::set<string> selfp; string cc="implicit",ca="implicit",mc="none",ma="none"; std::map<string,string> shallow;
    std::set<string> freed; if(auto*x=r->getDestructor()) if(x->hasBody()&&!x->isDefaulted()){ Body b=closure(r,x->getBody()); freed=b.deleted; for(auto*f:r->fields()) if(f->getType()->isPointerType()&&b.deleted.empty()&&b.del) freed.insert(f->getNameAsString()); }
    for(auto*d:r->decls()){ FunctionDecl*f=dyn_cast<FunctionDecl>(d); if(auto*t=dyn_cast<FunctionTemplateDecl>(d)) f=t->getTemplatedDecl(); if(!f) continue;
      if(!f->isDefaulted()&&f->hasBody()){ Body b; b.TraverseStmt(f->getBody()); news=news||b.nw; anyfree=anyfree||b.del; if(!isa<CXXConstructorDecl>(f)||!cast<CXXConstructorDecl>(f)->isCopyConstructor()) for(auto&x:b.selfptr) selfp.insert(x); }
      if(auto*x=dyn_cast<CXXDestructorDecl>(f)){ if(x->hasBody()&&!x->isDefaulted()){ Body b=closure(r,x->getBody()); if(b.del) frees=true,how=b.how; } }
      string st=f->isDeleted()?"deleted":f->isDefaulted()?"defaulted":"provided";
      if(auto*x=dyn_cast<CXXConstructorDecl>(f)){ if(x->isCopyConstructor()) cc=st; if(x->isMoveConstructor()) mc=st;
        if((x->isCopyConstructor()||x->isMoveConstructor())&&x->hasBody()&&!f->isDefaulted()){ Body b=closure(r,x->getBody()); string p=x->getNumParams()?x->getParamDecl(0)->getNameAsString():""; for(auto*in:x->inits()) if(in->isMemberInitializer()&&in->getMember()->getType()->isPointerType()&&in->getInit()){ string t=text(in->getInit()->getSourceRange()); string m=in->getMember()->getNameAsString(); Body::callee(in->getInit()); Expr*e=in->getInit()->IgnoreParenImpCasts(); if(auto*il=dyn_cast<InitListExpr>(e)) if(il->getNumInits()==1) e=il->getInit(0)->IgnoreParenImpCasts(); if(auto*pl=dyn_cast<ParenListExpr>(e)) if(pl->getNumExprs()==1) e=pl->getExpr(0)->IgnoreParenImpCasts(); if(auto*me=dyn_cast<MemberExpr>(e)) if(auto*dr=dyn_cast<DeclRefExpr>(me->getBase()->IgnoreParenImpCasts())) if(dr->getDecl()->getNameAsString()==p&&me->getMemberDecl()->getNameAsString()==m&&!b.assigned.count(m)&&!(x->isMoveConstructor()&&b.reset.count(m))&&freed.count(m)) shallow[x->isCopyConstructor()?"copy":"move"]+=m+" "; } } }
      if(auto*x=dyn_cast<CXXMethodDecl>(f)){ if(x->isCopyAssignmentOperator()) ca=st; if(x->isMoveAssignmentOperator()) ma=st; } }
    out("owner",r->getLocation(),q,{{"frees",frees?how:""},{"news",news?"1":""},{"ptr",ptr?"1":""},{"cc",cc},{"ca",ca},{"mc",mc},{"ma",ma},{"shallow_copy",shallow["copy"]},{"shallow_move",shallow["move"]},{"anyfree",anyfree?"1":""},{"self",[&]{ string r; for(auto&x:selfp) r+=x+" "; return r; }()}});
    // ---------------------------------------------- constructors
    for(auto*d:r->decls()){ CXXConstructorDecl*x=dyn_cast<CXXConstructorDecl>(d); if(auto*t=dyn_cast<FunctionTemplateDecl>(d)) x=dyn_cast<CXXConstructorDecl>(t->getTemplatedDecl()); if(!x||x->isDeleted()||x->isDelegatingConstructor()) continue; bool def=x->isDefaulted(); if(!def&&!x->hasBody()) continue; if(def&&(x->isCopyConstructor()||x->isMoveConstructor())) continue;
      Body b; if(!def) b=closure(r,x->getBody()); string miss; bool delg=false; for(auto*in:x->inits()){ if(in->isDelegatingInitializer()) delg=true; if(in->isMemberInitializer()) b.assigned.insert(in->getMember()->getNameAsString()); if(in->isIndirectMemberInitializer()) b.assigned.insert(in->getIndirectMember()->getNameAsString()); if(in->isBaseInitializer()&&in->getBaseClass()&&string(QualType(in->getBaseClass(),0).getAsString()).find(r->getNameAsString())==0) delg=true; }
      if(delg) continue; for(auto*f:r->fields()){ if(f->isUnnamedBitfield()||f->getNameAsString().empty()||f->hasInClassInitializer()||b.assigned.count(f->getNameAsString())) continue; QualType t=C.getBaseElementType(f->getType()); bool dep=t->isTemplateTypeParmType(); if(t->isScalarType()||dep) miss+=f->getNameAsString()+" "; }
      out("init",x->getLocation(),q+"::"+x->getNameAsString(),{{"missing",miss},{"params",std::to_string(x->getNumParams())}}); }
    return true; }
  // ------------------------------------------------ narrowing, in instantiations
  struct Narrow: RecursiveASTVisitor<Narrow>{ V&v; string fn; Narrow(V&x):v(x){} bool shouldVisitTemplateInstantiations()const{ return false; } bool shouldVisitImplicitCode()const{ return false; }
    bool TraverseLambdaExpr(LambdaExpr*e){ return RecursiveASTVisitor<Narrow>::TraverseLambdaExpr(e); }
    static bool hasSubst(Expr*e){ struct W: RecursiveASTVisitor<W>{ bool f=false; void t(QualType q){ if(q.isNull()) return; QualType p=q; while(true){ if(p->getAs<SubstTemplateTypeParmType>()){ f=true; return; } QualType d=p.getNonReferenceType(); if(d==p) return; p=d; } } bool VisitExpr(Expr*e){ t(e->getType()); if(auto*d=dyn_cast<DeclRefExpr>(e)) t(d->getDecl()->getType()); if(auto*m=dyn_cast<MemberExpr>(e)) t(m->getMemberDecl()->getType()); if(auto*c=dyn_cast<CallExpr>(e)) if(auto*fd=c->getDirectCallee()) t(fd->getReturnType()); return true; } } w; w.TraverseStmt(e); return w.f; }
    bool VisitCastExpr(CastExpr*e){ if(e->getCastKind()!=CK_IntegralCast&&e->getCastKind()!=CK_IntegralToFloating) return true; auto&C=v.C; QualType s=e->getSubExpr()->getType(),t=e->getType(); if(!s->isIntegerType()||s->isBooleanType()) return true; if(e->getCastKind()==CK_IntegralCast&&C.getTypeSize(t)==64&&C.getTypeSize(s)==32&&isa<ImplicitCastExpr>(e)&&s->isSignedIntegerType()) if(auto*b=dyn_cast<BinaryOperator>(e->getSubExpr()->IgnoreParens())) if(b->getOpcode()==BO_Mul||b->getOpcode()==BO_Shl){ Expr::EvalResult r; if(!b->EvaluateAsInt(r,C)&&!(b->getOpcode()==BO_Mul&&(b->getLHS()->EvaluateAsInt(r,C)||b->getRHS()->EvaluateAsInt(r,C)))) v.out("widen",e->getExprLoc(),fn,{{"expr",v.text(b->getSourceRange())},{"to",t.getAsString()}}); }
      if(e->getCastKind()==CK_IntegralCast&&C.getTypeSize(t)>=C.getTypeSize(s)) return true; if(e->getCastKind()==CK_IntegralToFloating) return true; if(C.getTypeSize(s)<64) return true; Expr::EvalResult r; if(!e->getSubExpr()->isValueDependent()&&e->getSubExpr()->EvaluateAsInt(r,C)) return true;
      string why; { Expr*x=e->getSubExpr()->IgnoreParenImpCasts(); if(auto*b=dyn_cast<BinaryOperator>(x)){ auto ty=[&](Expr*y){ return y->IgnoreParenImpCasts()->getType(); }; if((b->getOpcode()==BO_Rem&&ty(b->getRHS())->isIntegerType()&&C.getTypeSize(ty(b->getRHS()))<=C.getTypeSize(t))||(b->getOpcode()==BO_And&&((ty(b->getRHS())->isIntegerType()&&C.getTypeSize(ty(b->getRHS()))<=C.getTypeSize(t))||(ty(b->getLHS())->isIntegerType()&&C.getTypeSize(ty(b->getLHS()))<=C.getTypeSize(t))))) why="fits"; if(b->getOpcode()==BO_Div) why="quotient"; if(b->getOpcode()==BO_Sub&&ty(x)->isSignedIntegerType()&&(b->getLHS()->getType()->isPointerType()||b->getLHS()->getType()->isRecordType())) why="size"; }
        struct W: RecursiveASTVisitor<W>{ bool size=false,root=false; bool VisitCallExpr(CallExpr*c){ string n=Body::callee(c->getCallee()); if(n=="size"||n=="length"||n=="distance"||n=="count"||n=="strlen") size=true; if(n.find("sqrt")!=string::npos||n.find("cbrt")!=string::npos||n.find("isq")==0) root=true; return true; } } w; w.TraverseStmt(e->getSubExpr()); if(why.empty()) why=w.size?"size":w.root?"root":""; if(why.empty()&&s.getAsString().find("size_type")!=string::npos) why="size"; if(why.empty()&&s.getAsString().find("difference_type")!=string::npos) why="size"; }
      v.out("narrow",e->getExprLoc(),fn,{{"why",why},{"implicit",isa<ImplicitCastExpr>(e)&&!cast<ImplicitCastExpr>(e)->isPartOfExplicitCast()?"1":"0"},{"subst",hasSubst(e->getSubExpr())?"1":"0"},{"from",s.getAsString()},{"to",t.getAsString()},{"expr",v.text(e->getSubExpr()->getSourceRange())}}); return true; } };
  void narrow(FunctionDecl*f){ if(!f->doesThisDeclarationHaveABody()||f->isDependentContext()||file(f->getLocation()).empty()) return; Narrow n(*this); n.fn=f->getQualifiedNameAsString(); if(auto*x=dyn_cast<CXXConstructorDecl>(f)) for(auto*in:x->inits()) if(in->getInit()) n.TraverseStmt(in->getInit()); n.TraverseStmt(f->getBody()); out("fn",f->getLocation(),n.fn,{{"type",f->getType().getAsString()}}); }
};
struct Cons: ASTConsumer{ void HandleTranslationUnit(ASTContext&c)override{ V v(c); v.TraverseDecl(c.getTranslationUnitDecl()); v.finish(); } };
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef)override{ return std::make_unique<Cons>(); } };
int main(int argc,const char**argv){ std::vector<string> flags; string src; int i=1; for(;i<argc;i++){ string a=argv[i]; if(a=="--") { i++; break; } if(a=="--inst") Inst=true; else if(a.compare(0,7,"--root=")==0) Root=a.substr(7); else src=a; } for(;i<argc;i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",flags); tooling::ClangTool t(db,{src}); return t.run(tooling::newFrontendActionFactory<Act>().get()); }
