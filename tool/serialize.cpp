// Serialization facts: for every record (templates too, as they are written) its fields, its bases and what each
// `serialize( archive)` does with which member, in order.
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

namespace
{
std::string g_root, g_out;

struct Visitor : RecursiveASTVisitor<Visitor>
{
   ASTContext& ctx; SourceManager& sm; PrintingPolicy pp;
   json::Array records; std::set<const Decl*> seen;

   Visitor( ASTContext& c) : ctx( c), sm( c.getSourceManager()), pp( c.getPrintingPolicy()) { pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true;}
   bool shouldVisitTemplateInstantiations() const { return false;}
   bool shouldVisitLambdaBody() const { return true;}

   std::string file( SourceLocation l)
   {
      l = sm.getExpansionLoc( l);
      auto e = sm.getFileEntryRefForID( sm.getFileID( l));
      if( ! e) return {};
      llvm::SmallString<256> p( e->getName()); sm.getFileManager().makeAbsolutePath( p); llvm::sys::path::remove_dots( p, true);
      return p.str().str();
   }
   int line( SourceLocation l) { return sm.getExpansionLineNumber( l);}

   // members of this that an expression names
   static std::string chain( const Stmt* s)
   {
      if( ! s) return {};
      if( auto e = dyn_cast<Expr>( s)) s = e->IgnoreParenImpCasts();
      if( auto d = dyn_cast<DeclRefExpr>( s)) return isa<ParmVarDecl>( d->getDecl()) ? "$" : std::string{};
      if( auto m = dyn_cast<CXXDependentScopeMemberExpr>( s); m && ! m->isImplicitAccess())
      { auto b = chain( m->getBase()); return b.empty() ? b : b + "." + m->getMember().getAsString();}
      if( auto m = dyn_cast<MemberExpr>( s))
      { auto b = chain( m->getBase()); return b.empty() ? b : b + "." + m->getMemberDecl()->getNameAsString();}
      return {};
   }

   void members( const Stmt* s, json::Array& out)
   {
      if( ! s) return;
      if( auto c = chain( s); c.size() > 1) { out.push_back( c); return;}
      if( auto m = dyn_cast<MemberExpr>( s))
      {
         auto b = m->getBase()->IgnoreParenImpCasts();
         if( isa<CXXThisExpr>( b)) { out.push_back( m->getMemberDecl()->getNameAsString()); return;}
         json::Array inner; members( b, inner);
         if( ! inner.empty()) { for( auto& x : inner) if( auto n = x.getAsString()) out.push_back( n->str() + "." + m->getMemberDecl()->getNameAsString()); return;}
      }
      if( auto m = dyn_cast<CXXDependentScopeMemberExpr>( s))
      {
         if( m->isImplicitAccess() || isa<CXXThisExpr>( m->getBase()->IgnoreParenImpCasts())) { out.push_back( m->getMember().getAsString()); return;}
      }
      for( auto c : s->children()) members( c, out);
   }

   static std::string literal( const Stmt* s)
   {
      if( ! s) return {};
      if( auto l = dyn_cast<clang::StringLiteral>( s)) return l->getString().str();
      for( auto c : s->children()) { auto r = literal( c); if( ! r.empty()) return r;}
      return {};
   }

   std::string qualifier( NestedNameSpecifier* n)
   {
      if( ! n) return {};
      if( auto t = n->getAsType())
      {
         auto c = QualType( t, 0).getCanonicalType();
         return c.getAsString( pp);
      }
      std::string r; llvm::raw_string_ostream os( r); n->print( os, pp); return os.str();
   }

   void ops( const Stmt* s, bool cond, json::Array& out)
   {
      if( ! s) return;
      if( auto c = dyn_cast<CallExpr>( s))
      {
         auto f = c->getCallee()->IgnoreParenImpCasts();
         std::string name, base;
         bool isbase = false;
         if( auto u = dyn_cast<UnresolvedLookupExpr>( f)) name = u->getName().getAsString();
         else if( auto u = dyn_cast<UnresolvedMemberExpr>( f)) { name = u->getMemberName().getAsString(); if( u->getQualifier() || u->isImplicitAccess()) { isbase = true; base = qualifier( u->getQualifier());}}
         else if( auto u = dyn_cast<CXXDependentScopeMemberExpr>( f)) { name = u->getMember().getAsString(); if( u->getQualifier()) { isbase = true; base = qualifier( u->getQualifier());}}
         else if( auto u = dyn_cast<DependentScopeDeclRefExpr>( f)) { name = u->getDeclName().getAsString(); if( u->getQualifier()) { isbase = true; base = qualifier( u->getQualifier());}}
         else if( auto u = dyn_cast<MemberExpr>( f)) { name = u->getMemberDecl()->getNameAsString(); if( u->getQualifier()) { isbase = true; base = qualifier( u->getQualifier());} }
         else if( auto u = dyn_cast<DeclRefExpr>( f)) name = u->getDecl()->getNameAsString();
         json::Object o;
         o[ "call"] = name; o[ "cond"] = cond; o[ "l"] = line( c->getBeginLoc());
         if( isbase && name == "serialize") o[ "base"] = base;
         else
         {
            json::Array ms; for( auto a : c->arguments()) members( a, ms);
            o[ "members"] = std::move( ms);
            o[ "name"] = literal( c);
         }
         out.push_back( std::move( o));
         return;
      }
      if( auto b = dyn_cast<BinaryOperator>( s); b && ( b->getOpcode() == BO_Shl || b->getOpcode() == BO_Shr))
      {
         json::Object o; json::Array ms; members( b->getRHS(), ms);
         o[ "call"] = "op"; o[ "cond"] = cond; o[ "members"] = std::move( ms); o[ "name"] = ""; o[ "l"] = line( b->getBeginLoc());
         ops( b->getLHS(), cond, out);
         out.push_back( std::move( o));
         return;
      }
      if( auto b = dyn_cast<CXXOperatorCallExpr>( s)) {}
      bool c2 = cond || isa<IfStmt>( s) || isa<SwitchStmt>( s) || isa<ConditionalOperator>( s) || isa<ForStmt>( s) || isa<WhileStmt>( s) || isa<CXXForRangeStmt>( s);
      for( auto c : s->children()) ops( c, c2, out);
   }

   void serialize( const FunctionDecl* f, json::Array& out)
   {
      if( ! f) return;
      const FunctionDecl* def = f;
      if( ! f->doesThisDeclarationHaveABody() && ! f->hasBody( def)) return;
      json::Object o;
      auto m = dyn_cast<CXXMethodDecl>( f);
      o[ "const"] = m && m->isConst(); o[ "static"] = m && m->isStatic(); o[ "params"] = (int)f->getNumParams(); o[ "l"] = line( f->getLocation());
      json::Array os; ops( def->getBody(), false, os);
      o[ "ops"] = std::move( os);
      out.push_back( std::move( o));
   }

   json::Array helpers;

   bool VisitFunctionTemplateDecl( FunctionTemplateDecl* t)
   {
      auto f = t->getTemplatedDecl();
      if( ! f->doesThisDeclarationHaveABody() || isa<CXXMethodDecl>( f) || f->getNumParams() < 2) return true;
      auto n = f->getQualifiedNameAsString();
      if( n.find( "::composite::") == std::string::npos) return true;
      json::Array ss; serialize( f, ss);
      json::Object o; o[ "qn"] = n; o[ "name"] = f->getNameAsString(); o[ "serialize"] = std::move( ss); o[ "file"] = file( f->getLocation()); o[ "l"] = line( f->getLocation());
      helpers.push_back( std::move( o));
      return true;
   }

   json::Array enums;

   bool VisitEnumDecl( EnumDecl* e)
   {
      if( ! e->isThisDeclarationADefinition() || e->isDependentContext()) return true;
      auto f = file( e->getLocation());
      if( f.rfind( g_root, 0) != 0) return true;
      json::Object o; o[ "type"] = ctx.getEnumType( e).getCanonicalType().getAsString( pp); o[ "file"] = f.substr( g_root.size()); o[ "l"] = line( e->getLocation());
      json::Array vs;
      for( auto x : e->enumerators())
      {
         json::Object v; v[ "n"] = x->getNameAsString(); v[ "v"] = x->getInitVal().getExtValue();
         v[ "pinned"] = x->getInitExpr() != nullptr; vs.push_back( std::move( v));
      }
      o[ "values"] = std::move( vs);
      enums.push_back( std::move( o));
      return true;
   }

   bool VisitCXXRecordDecl( CXXRecordDecl* r)
   {
      if( ! r->isThisDeclarationADefinition() || r->isLambda()) return true;
      auto f = file( r->getLocation());
      if( f.rfind( g_root, 0) != 0 || ! seen.insert( r).second) return true;
      json::Object o; std::string n; { llvm::raw_string_ostream os( n); r->getNameForDiagnostic( os, pp, true);}
      o[ "qn"] = n; o[ "file"] = f.substr( g_root.size()); o[ "l"] = line( r->getLocation());
      o[ "type"] = ctx.getRecordType( r).getCanonicalType().getAsString( pp);
      if( auto sp = dyn_cast<ClassTemplateSpecializationDecl>( r))
      {
         json::Array as;
         for( auto& a : sp->getTemplateArgs().asArray())
            as.push_back( a.getKind() == TemplateArgument::Type ? a.getAsType().getCanonicalType().getAsString( pp) : std::string{});
         o[ "targs"] = std::move( as);
      }
      json::Array fs;
      for( auto x : r->fields())
      {
         json::Object fo; fo[ "n"] = x->getNameAsString(); fo[ "t"] = x->getType().getCanonicalType().getAsString( pp); fo[ "l"] = line( x->getLocation()); fo[ "acc"] = (int)x->getAccess();
         fs.push_back( std::move( fo));
      }
      o[ "fields"] = std::move( fs);
      json::Array bs;
      for( auto& b : r->bases()) bs.push_back( b.getType().getCanonicalType().getAsString( pp));
      o[ "bases"] = std::move( bs);
      json::Array ss;
      for( auto d : r->decls())
      {
         if( auto t = dyn_cast<FunctionTemplateDecl>( d)) { if( t->getNameAsString() == "serialize") serialize( t->getTemplatedDecl(), ss);}
         else if( auto m = dyn_cast<FunctionDecl>( d)) { if( m->getNameAsString() == "serialize") serialize( m, ss);}
      }
      o[ "serialize"] = std::move( ss);
      records.push_back( std::move( o));
      return true;
   }

   void run()
   {
      TraverseDecl( ctx.getTranslationUnitDecl());
      json::Object out; json::Array deps; std::set<std::string> d;
      for( auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
      {
         llvm::SmallString<256> p( it->first.getName()); sm.getFileManager().makeAbsolutePath( p); llvm::sys::path::remove_dots( p, true);
         auto s = p.str().str();
         if( s.rfind( g_root, 0) == 0) d.insert( s);
      }
      for( auto& s : d) deps.push_back( s);
      out[ "deps"] = std::move( deps); out[ "records"] = std::move( records); out[ "helpers"] = std::move( helpers); out[ "enums"] = std::move( enums);
      std::error_code ec; llvm::raw_fd_ostream os( g_out, ec);
      if( ec) exit( 3);
      os << json::Value( std::move( out));
   }
};

struct Consumer : ASTConsumer { void HandleTranslationUnit( ASTContext& c) override { Visitor( c).run();}};
struct Action : ASTFrontendAction
{ std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance&, StringRef) override { return std::make_unique<Consumer>();}};
}

int main( int argc, char** argv)
{
   std::vector<std::string> flags; std::string main_file, dir = ".";
   int i = 1;
   for( ; i < argc; ++i)
   {
      std::string a = argv[ i];
      if( a == "--out") g_out = argv[ ++i];
      else if( a == "--root") g_root = argv[ ++i];
      else if( a == "--dir") dir = argv[ ++i];
      else if( a == "--file") main_file = argv[ ++i];
      else if( a == "--") { ++i; break;}
   }
   for( ; i < argc; ++i) flags.push_back( argv[ i]);
   tooling::FixedCompilationDatabase db( dir, flags);
   tooling::ClangTool tool( db, { main_file});
   return tool.run( tooling::newFrontendActionFactory<Action>().get());
}
