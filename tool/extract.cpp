// Fact extractor: parses one translation unit of /repo with clang and writes the
// resolved, template-instantiated program (functions, records, enums, globals) as JSON.
// It executes nothing of the analysed program.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MD5.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root = "/repo/middleware/";
static std::string g_skip = "/unittest/|/example/";
static std::string g_skip_body = "/common/include/common/(serialize/(value|named|line|native|policy|archive)|stream|log/|log\\.h|argument)|/cli/include/";
static std::string g_out;

namespace
{
struct Extract
{
   ASTContext& ctx;
   SourceManager& sm;
   PrintingPolicy pp;
   llvm::Regex skip; llvm::Regex skip_body;

   json::Object funcs, records, enums;
   json::Array globals;
   std::vector<std::string> strings;
   std::unordered_map<std::string,int> string_index;
   std::set<const FunctionDecl*> seen;
   std::vector<const FunctionDecl*> work;
   std::set<const CXXRecordDecl*> seen_records;
   std::unordered_map<const void*, std::string> id_cache;
   std::unordered_map<const void*, int> var_ids;
   std::unordered_map<const void*, int> type_cache;

   Extract( ASTContext& c) : ctx( c), sm( c.getSourceManager()), pp( c.getLangOpts()), skip( g_skip), skip_body( g_skip_body)
   {
      pp.SuppressTagKeyword = true;
      pp.FullyQualifiedName = true;
      pp.Bool = true;
      pp.SuppressUnwrittenScope = true;
      pp.AnonymousTagLocations = true;
      pp.PrintCanonicalTypes = true;
      pp.SuppressInlineNamespace = true;
      pp.TerseOutput = true;
   }

   int intern( const std::string& s)
   {
      auto [ it, added] = string_index.emplace( s, (int)strings.size());
      if( added) strings.push_back( s);
      return it->second;
   }

   std::string file( SourceLocation loc)
   {
      loc = sm.getExpansionLoc( loc);
      auto f = sm.getFilename( loc);
      auto s = f.str();
      if( ! s.empty() && s[0] != '/')
      {
         if( auto fe = sm.getFileEntryRefForID( sm.getFileID( loc)))
         {
            llvm::SmallString<256> p( fe->getName());
            sm.getFileManager().makeAbsolutePath( p);
            s = p.str().str();
         }
      }
      llvm::SmallString<256> p( s);
      llvm::sys::path::remove_dots( p, true);
      return p.str().str();
   }
   unsigned line( SourceLocation loc) { return sm.getExpansionLineNumber( loc);}
   unsigned col( SourceLocation loc) { return sm.getExpansionColumnNumber( loc);}

   std::string rel( std::string f)
   {
      if( f.rfind( g_root, 0) == 0) return f.substr( g_root.size());
      return f;
   }

   int type( QualType t)
   {
      if( t.isNull()) return intern( "");
      t = t.getCanonicalType();
      auto key = t.getAsOpaquePtr();
      if( auto it = type_cache.find( key); it != type_cache.end()) return it->second;
      std::string s = t.getAsString( pp);
      if( s.size() > 600) { s = s.substr( 0, 560) + "...#" + hash( s);}
      int i = intern( s);
      type_cache[ key] = i;
      return i;
   }

   static std::string hash( const std::string& s)
   {
      llvm::MD5 h; h.update( s); llvm::MD5::MD5Result r; h.final( r);
      return r.digest().str().str().substr( 0, 10);
   }

   std::string qname( const NamedDecl* d)
   {
      std::string s; llvm::raw_string_ostream os( s);
      PrintingPolicy p = pp; p.SuppressUnwrittenScope = true; p.AnonymousTagLocations = false;
      d->printQualifiedName( os, p);
      os.flush();
      return s;
   }

   std::string id( const FunctionDecl* f)
   {
      // ids are for the *definition* independent of redeclaration
      const FunctionDecl* c = f->getCanonicalDecl();
      if( auto it = id_cache.find( c); it != id_cache.end()) return it->second;
      std::string full = qname( f);
      full += "(";
      for( auto p : f->parameters()) full += strings[ type( p->getType())] + ",";
      full += ")";
      if( auto m = dyn_cast<CXXMethodDecl>( f)) { if( m->isConst()) full += "const"; if( m->getRefQualifier() == RQ_RValue) full += "&&"; }
      if( auto args = f->getTemplateSpecializationArgs())
      {
         llvm::raw_string_ostream os( full);
         os << "<"; for( auto& a : args->asArray()) { a.print( pp, os, true); os << ","; } os << ">";
      }
      std::string parent;
      if( auto m = dyn_cast<CXXMethodDecl>( f))
      {
         auto r = m->getParent();
         full += "|" + strings[ type( ctx.getRecordType( r))];
         if( auto pf = parent_function( r)) parent = id( pf);
      }
      bool internal = ! f->isExternallyVisible() || ! parent.empty();
      auto def = f->getDefinition(); 
      auto loc = (def ? def : f)->getLocation();
      std::string where = rel( file( loc));
      if( internal) full += "@" + where + ":" + std::to_string( line( loc)) + ":" + std::to_string( col( loc));
      full += parent;
      std::string result = qname( f) + "#" + hash( full);
      id_cache[ c] = result;
      return result;
   }

   const FunctionDecl* parent_function( const DeclContext* d)
   {
      for( d = d->getParent(); d; d = d->getParent())
      {
         if( auto f = dyn_cast<FunctionDecl>( d)) return f;
         if( d->isFileContext()) return nullptr;
      }
      return nullptr;
   }

   bool interesting( SourceLocation loc)
   {
      if( loc.isInvalid()) return false;
      auto f = file( loc);
      if( f.rfind( g_root, 0) != 0 ) return false;
      return ! skip.match( f);
   }

   int var_id( const void* d)
   {
      auto [ it, a] = var_ids.emplace( d, (int)var_ids.size() + 1);
      return it->second;
   }

   void enqueue( const FunctionDecl* f)
   {
      if( ! f) return;
      const FunctionDecl* def = nullptr;
      if( ! f->hasBody( def)) return;
      if( def->isDependentContext()) return;
      if( ! interesting( def->getLocation())) return;
      if( skip_body.match( file( def->getLocation()))) return;
      if( seen.insert( def).second) work.push_back( def);
   }

   // ------------------------------------------------------------------
   json::Value none() { return nullptr;}

   json::Value callee_info( json::Object& o, const FunctionDecl* f)
   {
      if( ! f) return nullptr;
      o[ "f"] = id( f);
      o[ "n"] = intern( qname( f));
      if( auto args = f->getTemplateSpecializationArgs())
      {
         json::Array a;
         for( auto& x : args->asArray())
         {
            if( x.getKind() == TemplateArgument::Pack)
            {
               for( auto& y : x.pack_elements()) a.push_back( targ( y));
            }
            else a.push_back( targ( x));
         }
         o[ "ta"] = std::move( a);
      }
      if( auto m = dyn_cast<CXXMethodDecl>( f))
      {
         o[ "cls"] = type( ctx.getRecordType( m->getParent()));
         if( m->isVirtual()) o[ "virt"] = true;
         if( m->isStatic()) o[ "st"] = true;
         if( m->isConst()) o[ "cm"] = true;
      }
      json::Array mut; int pi = 0;
      for( auto p : f->parameters())
      {
         auto t = p->getType();
         if( ( t->isLValueReferenceType() && ! t->getPointeeType().isConstQualified()) || ( t->isPointerType() && ! t->getPointeeType().isConstQualified() && ! t->isFunctionPointerType())) mut.push_back( pi);
         ++pi;
      }
      if( ! mut.empty()) o[ "mut"] = std::move( mut);
      enqueue( f);
      return nullptr;
   }

   int targ( const TemplateArgument& a)
   {
      if( a.getKind() == TemplateArgument::Type) return type( a.getAsType());
      std::string s; llvm::raw_string_ostream os( s); a.print( pp, os, true); os.flush();
      if( s.size() > 200) s = s.substr( 0, 180) + "...#" + hash( s);
      return intern( s);
   }

   json::Object mk( const char* k, const Stmt* s)
   {
      json::Object o; o[ "k"] = k;
      o[ "l"] = (int)line( s->getBeginLoc());
      if( auto e = dyn_cast<Expr>( s))
         o[ "t"] = type( e->getType());
      return o;
   }

   json::Value vardecl( const VarDecl* v)
   {
      json::Object o; 
      o[ "k"] = "var"; o[ "n"] = v->getNameAsString(); o[ "id"] = var_id( v->getCanonicalDecl());
      o[ "t"] = type( v->getType()); o[ "l"] = (int)line( v->getLocation());
      if( v->isStaticLocal()) o[ "static"] = true;
      if( v->isConstexpr()) o[ "constexpr"] = true;
      if( auto d = dyn_cast<DecompositionDecl>( v))
      {
         json::Array b;
         for( auto x : d->bindings())
         {
            json::Object bo; bo[ "n"] = x->getNameAsString(); bo[ "id"] = var_id( x);
            if( auto e = x->getBinding()) bo[ "e"] = node( e);
            if( auto hv = x->getHoldingVar()) { bo[ "hv"] = var_id( hv->getCanonicalDecl()); if( hv->getInit()) bo[ "e"] = node( hv->getInit());}
            b.push_back( std::move( bo));
         }
         o[ "binds"] = std::move( b);
      }
      if( v->getInit() ) o[ "init"] = node( v->getInit());
      return o;
   }

   template< typename R>
   json::Array nodes( R&& range)
   {
      json::Array a;
      for( auto x : range) a.push_back( node( x));
      return a;
   }

   const Expr* strip( const Expr* e)
   {
      for(;;)
      {
         if( ! e) return e;
         if( auto x = dyn_cast<ImplicitCastExpr>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<ParenExpr>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<ExprWithCleanups>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<MaterializeTemporaryExpr>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<CXXBindTemporaryExpr>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<ConstantExpr>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<SubstNonTypeTemplateParmExpr>( e)) { e = x->getReplacement(); continue;}
         if( auto x = dyn_cast<CXXStdInitializerListExpr>( e)) { e = x->getSubExpr(); continue;}
         if( auto x = dyn_cast<CXXDefaultInitExpr>( e)) { e = x->getExpr(); continue;}
         if( auto x = dyn_cast<OpaqueValueExpr>( e)) { if( x->getSourceExpr()) { e = x->getSourceExpr(); continue;} return e;}
         if( auto x = dyn_cast<GenericSelectionExpr>( e)) { e = x->getResultExpr(); continue;}
         if( auto x = dyn_cast<ChooseExpr>( e)) { e = x->getChosenSubExpr(); continue;}
         return e;
      }
   }

   json::Value ref( const Expr* e, const ValueDecl* d)
   {
      auto o = mk( "ref", e);
      o[ "n"] = d->getNameAsString();
      if( auto x = dyn_cast<EnumConstantDecl>( d))
      {
         o[ "dk"] = "enum"; 
         o[ "q"] = intern( qname( d));
         llvm::SmallString<32> s; x->getInitVal().toString( s, 10); o[ "v"] = s.str().str();
      }
      else if( auto x = dyn_cast<FunctionDecl>( d)) { o[ "dk"] = "func"; callee_info( o, x); }
      else if( isa<ParmVarDecl>( d)) { o[ "dk"] = "parm"; o[ "id"] = var_id( d->getCanonicalDecl());}
      else if( isa<BindingDecl>( d)) { o[ "dk"] = "bind"; o[ "id"] = var_id( d);}
      else if( auto x = dyn_cast<VarDecl>( d))
      {
         bool local = x->isLocalVarDecl();
         o[ "dk"] = local ? "var" : "gvar";
         o[ "id"] = var_id( x->getCanonicalDecl());
         if( ! local) o[ "q"] = intern( qname( d));
         const VarDecl* def = nullptr;
         if( (x->isConstexpr() || x->getType().isConstQualified()) && x->getType()->isIntegralOrEnumerationType() && ! x->getType()->isDependentType())
         {
            if( auto init = x->getAnyInitializer( def); init && ! init->isValueDependent())
            {
               Expr::EvalResult r;
               if( init->EvaluateAsInt( r, ctx)) { llvm::SmallString<32> s; r.Val.getInt().toString( s, 10); o[ "v"] = s.str().str();}
            }
         }
      }
      else { o[ "dk"] = "other"; o[ "q"] = intern( qname( d)); }
      return o;
   }

   json::Value node( const Stmt* s)
   {
      if( ! s) return nullptr;
      if( auto e = dyn_cast<Expr>( s)) return expr( strip( e));

      if( auto x = dyn_cast<CompoundStmt>( s)) { auto o = mk( "block", s); o[ "c"] = nodes( x->body()); return o;}
      if( auto x = dyn_cast<DeclStmt>( s))
      {
         auto o = mk( "decl", s); json::Array a;
         for( auto d : x->decls())
         {
            if( auto v = dyn_cast<VarDecl>( d)) a.push_back( vardecl( v));
            else if( auto r = dyn_cast<CXXRecordDecl>( d)) record( r);
         }
         o[ "c"] = std::move( a); return o;
      }
      if( auto x = dyn_cast<IfStmt>( s))
      {
         auto o = mk( "if", s);
         if( x->getInit()) o[ "init"] = node( x->getInit());
         if( auto v = x->getConditionVariable()) o[ "var"] = vardecl( v);
         if( x->isConsteval()) { o[ "cond"] = nullptr; o[ "consteval"] = true;}
         else o[ "cond"] = node( x->getCond());
         if( x->isConstexpr())
         {
            o[ "constexpr"] = true;
            Expr::EvalResult r;
            if( x->getCond() && ! x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt( r, ctx)) o[ "cv"] = r.Val.getInt().getBoolValue();
         }
         o[ "then"] = node( x->getThen()); 
         if( x->getElse()) o[ "else"] = node( x->getElse());
         return o;
      }
      if( auto x = dyn_cast<WhileStmt>( s))
      { 
         auto o = mk( "while", s); 
         if( auto v = x->getConditionVariable()) o[ "var"] = vardecl( v);
         o[ "cond"] = node( x->getCond()); o[ "body"] = node( x->getBody()); return o;
      }
      if( auto x = dyn_cast<DoStmt>( s)) { auto o = mk( "do", s); o[ "cond"] = node( x->getCond()); o[ "body"] = node( x->getBody()); return o;}
      if( auto x = dyn_cast<ForStmt>( s))
      {
         auto o = mk( "for", s); 
         if( x->getInit()) o[ "init"] = node( x->getInit());
         if( x->getCond()) o[ "cond"] = node( x->getCond());
         if( x->getInc()) o[ "inc"] = node( x->getInc());
         o[ "body"] = node( x->getBody()); return o;
      }
      if( auto x = dyn_cast<CXXForRangeStmt>( s))
      {
         auto o = mk( "rfor", s);
         if( x->getInit()) o[ "init"] = node( x->getInit());
         o[ "range"] = node( x->getRangeInit()); 
         o[ "var"] = vardecl( x->getLoopVariable());
         o[ "body"] = node( x->getBody()); return o;
      }
      if( auto x = dyn_cast<SwitchStmt>( s))
      {
         auto o = mk( "switch", s);
         if( x->getInit()) o[ "init"] = node( x->getInit());
         if( auto v = x->getConditionVariable()) o[ "var"] = vardecl( v);
         o[ "cond"] = node( x->getCond()); o[ "body"] = node( x->getBody());
         o[ "allenum"] = x->isAllEnumCasesCovered();
         o[ "ct"] = type( strip( x->getCond())->getType());
         return o;
      }
      if( auto x = dyn_cast<CaseStmt>( s))
      {
         auto o = mk( "case", s); o[ "e"] = node( x->getLHS());
         Expr::EvalResult r;
         if( x->getLHS()->EvaluateAsInt( r, ctx)) { llvm::SmallString<32> v; r.Val.getInt().toString( v, 10); o[ "v"] = v.str().str(); }
         o[ "sub"] = node( x->getSubStmt()); return o;
      }
      if( auto x = dyn_cast<DefaultStmt>( s)) { auto o = mk( "default", s); o[ "sub"] = node( x->getSubStmt()); return o;}
      if( auto x = dyn_cast<ReturnStmt>( s)) { auto o = mk( "return", s); if( x->getRetValue()) o[ "e"] = node( x->getRetValue()); return o;}
      if( isa<BreakStmt>( s)) return mk( "break", s);
      if( isa<ContinueStmt>( s)) return mk( "continue", s);
      if( isa<NullStmt>( s)) return mk( "null", s);
      if( auto x = dyn_cast<CXXTryStmt>( s))
      {
         auto o = mk( "try", s); o[ "body"] = node( x->getTryBlock()); json::Array h;
         for( unsigned i = 0; i < x->getNumHandlers(); ++i)
         {
            auto c = x->getHandler( i); auto co = mk( "catch", c);
            if( auto d = c->getExceptionDecl()) { co[ "var"] = vardecl( d); co[ "ct"] = type( c->getCaughtType());}
            co[ "body"] = node( c->getHandlerBlock()); h.push_back( std::move( co));
         }
         o[ "h"] = std::move( h); return o;
      }
      if( auto x = dyn_cast<AttributedStmt>( s)) return node( x->getSubStmt());
      if( auto x = dyn_cast<LabelStmt>( s)) { auto o = mk( "label", s); o[ "n"] = x->getName(); o[ "sub"] = node( x->getSubStmt()); return o;}
      if( auto x = dyn_cast<GotoStmt>( s)) { auto o = mk( "goto", s); o[ "n"] = x->getLabel()->getNameAsString(); return o;}
      auto o = mk( "other", s); o[ "n"] = s->getStmtClassName(); o[ "c"] = nodes( s->children()); return o;
   }

   json::Value callexpr( const CallExpr* x)
   {
      auto o = mk( "call", x);
      if( auto oc = dyn_cast<CXXOperatorCallExpr>( x)) o[ "op"] = getOperatorSpelling( oc->getOperator());
      auto fd = x->getDirectCallee();
      callee_info( o, fd);
      unsigned first = 0;
      if( auto m = dyn_cast<CXXMemberCallExpr>( x))
      {
         o[ "obj"] = node( m->getImplicitObjectArgument());
         if( auto me = dyn_cast<MemberExpr>( m->getCallee()->IgnoreParens())) { if( me->isArrow()) o[ "arrow"] = true; if( me->hasQualifier()) o[ "nv"] = true;
            o["ml"] = (int)line( me->getMemberLoc()); }
      }
      else if( isa<CXXOperatorCallExpr>( x) && fd && isa<CXXMethodDecl>( fd) && ! cast<CXXMethodDecl>( fd)->isStatic() && x->getNumArgs() > 0)
      {
         o[ "obj"] = node( x->getArg( 0)); first = 1;
      }
      if( ! fd) o[ "callee"] = node( x->getCallee());
      json::Array a;
      for( unsigned i = first; i < x->getNumArgs(); ++i) a.push_back( node( x->getArg( i)));
      o[ "a"] = std::move( a);
      if( auto rp = x->getRParenLoc(); rp.isValid()) {}
      return o;
   }

   json::Value expr( const Expr* e)
   {
      if( ! e) return nullptr;
      if( auto x = dyn_cast<CallExpr>( e))
      {
         return callexpr( x);
      }
      if( auto x = dyn_cast<CXXConstructExpr>( e))
      {
         auto c = x->getConstructor();
         // elide copies / moves of prvalues; keep copies/moves of lvalues as 'copy' / 'move'
         auto o = mk( "ctor", e);
         callee_info( o, c);
         if( c->isCopyConstructor()) o[ "ck"] = "copy";
         else if( c->isMoveConstructor()) o[ "ck"] = "move";
         else if( c->isDefaultConstructor()) o[ "ck"] = "default";
         o[ "a"] = nodes( x->arguments());
         if( isa<CXXTemporaryObjectExpr>( e)) o[ "tmp"] = true;
         return o;
      }
      if( auto x = dyn_cast<CXXInheritedCtorInitExpr>( e)) { auto o = mk( "ctor", e); callee_info( o, x->getConstructor()); o[ "a"] = json::Array{}; return o;}
      if( auto x = dyn_cast<DeclRefExpr>( e)) return ref( e, x->getDecl());
      if( auto x = dyn_cast<MemberExpr>( e))
      {
         auto d = x->getMemberDecl();
         if( auto f = dyn_cast<FunctionDecl>( d)) { auto o = mk( "mfunc", e); callee_info( o, f); o[ "b"] = node( x->getBase()); return o;}
         if( auto v = dyn_cast<VarDecl>( d)) return ref( e, v);
         if( auto c = dyn_cast<EnumConstantDecl>( d)) return ref( e, c);
         auto o = mk( "mem", e); o[ "n"] = d->getNameAsString(); o[ "q"] = intern( qname( d)); o[ "b"] = node( x->getBase());
         if( x->isArrow()) o[ "arrow"] = true;
         return o;
      }
      if( isa<CXXThisExpr>( e)) return mk( "this", e);
      if( auto x = dyn_cast<IntegerLiteral>( e)) { auto o = mk( "int", e); llvm::SmallString<32> s; x->getValue().toString( s, 10, x->getType()->isSignedIntegerType()); o[ "v"] = s.str().str(); return o;}
      if( auto x = dyn_cast<CXXBoolLiteralExpr>( e)) { auto o = mk( "bool", e); o[ "v"] = x->getValue(); return o;}
      if( auto x = dyn_cast<CharacterLiteral>( e)) { auto o = mk( "int", e); o[ "v"] = std::to_string( x->getValue()); return o;}
      if( auto x = dyn_cast<FloatingLiteral>( e)) { auto o = mk( "float", e); o[ "v"] = x->getValueAsApproximateDouble(); return o;}
      if( auto x = dyn_cast<clang::StringLiteral>( e))
      { 
         auto o = mk( "str", e); 
         if( x->isOrdinary() || x->isUTF8()) { auto s = x->getString().str(); if( json::isUTF8( s)) o[ "v"] = s; else o[ "v"] = json::fixUTF8( s);}
         return o;
      }
      if( isa<CXXNullPtrLiteralExpr>( e) || isa<GNUNullExpr>( e)) return mk( "null_ptr", e);
      if( auto x = dyn_cast<UnaryOperator>( e))
      { auto o = mk( "un", e); std::string op = UnaryOperator::getOpcodeStr( x->getOpcode()).str(); if( x->isPostfix()) op = "p" + op; o[ "op"] = op; o[ "e"] = node( x->getSubExpr()); return o;}
      if( auto x = dyn_cast<BinaryOperator>( e))
      { auto o = mk( "bin", e); o[ "op"] = x->getOpcodeStr().str(); o[ "a"] = node( x->getLHS()); o[ "b"] = node( x->getRHS()); return o;}
      if( auto x = dyn_cast<CXXRewrittenBinaryOperator>( e))
      {
         auto d = x->getDecomposedForm();
         auto o = mk( "bin", e); o[ "op"] = BinaryOperator::getOpcodeStr( d.Opcode).str(); o[ "a"] = node( d.LHS); o[ "b"] = node( d.RHS); o[ "sem"] = node( x->getSemanticForm()); return o;
      }
      if( auto x = dyn_cast<ConditionalOperator>( e)) { auto o = mk( "cond", e); o[ "c"] = node( x->getCond()); o[ "a"] = node( x->getTrueExpr()); o[ "b"] = node( x->getFalseExpr()); return o;}
      if( auto x = dyn_cast<BinaryConditionalOperator>( e)) { auto o = mk( "cond", e); o[ "c"] = node( x->getCommon()); o[ "a"] = node( x->getCommon()); o[ "b"] = node( x->getFalseExpr()); return o;}
      if( auto x = dyn_cast<LambdaExpr>( e))
      {
         auto o = mk( "lambda", e);
         json::Array fs; 
         auto r = x->getLambdaClass();
         auto push = [&]( const FunctionDecl* f){ fs.push_back( id( f)); enqueue( f);};
         if( auto t = r->getDependentLambdaCallOperator())
         {
            for( auto sp : t->specializations()) push( sp);
            o[ "generic"] = true;
         }
         else if( auto op = r->getLambdaCallOperator()) push( op);
         o[ "f"] = std::move( fs);
         json::Array caps;
         auto ci = x->capture_init_begin();
         for( auto& c : x->captures())
         {
            json::Object co; 
            if( c.capturesThis()) { co[ "n"] = "this"; co[ "ref"] = c.getCaptureKind() == LCK_This;}
            else if( c.capturesVariable())
            {
               auto v = c.getCapturedVar(); co[ "n"] = v->getNameAsString();
               if( auto b = dyn_cast<BindingDecl>( v)) co[ "id"] = var_id( b); else co[ "id"] = var_id( v->getCanonicalDecl());
               co[ "ref"] = c.getCaptureKind() == LCK_ByRef; co[ "t"] = type( v->getType());
               if( auto vd = dyn_cast<VarDecl>( v); vd && vd->isInitCapture()) co[ "ic"] = true;
               if( *ci && ( c.getCaptureKind() != LCK_ByRef || co.get( "ic"))) 
               {
                  const Expr* init = *ci;
                  if( auto vd = dyn_cast<VarDecl>( v); vd && vd->isInitCapture() && vd->getInit()) init = vd->getInit();
                  co[ "init"] = node( init);
               }
            }
            ++ci;
            caps.push_back( std::move( co));
         }
         o[ "caps"] = std::move( caps);
         if( x->isMutable()) o[ "mut"] = true;
         return o;
      }
      if( auto x = dyn_cast<InitListExpr>( e))
      {
         auto sf = x->isSemanticForm() ? x : x->getSemanticForm(); if( ! sf) sf = x;
         auto o = mk( "init", e); o[ "a"] = nodes( sf->inits());
         if( auto rt = sf->getType()->getAs<RecordType>())
         {
            json::Array fn;
            if( auto cr = dyn_cast<CXXRecordDecl>( rt->getDecl())) for( unsigned i = 0; i < cr->getNumBases(); ++i) fn.push_back( "");
            for( auto f : rt->getDecl()->fields()) fn.push_back( f->getNameAsString());
            o[ "fn"] = std::move( fn);
         }
         return o;
      }
      if( auto x = dyn_cast<CXXParenListInitExpr>( e)) { auto o = mk( "init", e); o[ "a"] = nodes( x->getInitExprs()); return o;}
      if( auto x = dyn_cast<ExplicitCastExpr>( e))
      {
         auto sub = strip( x->getSubExpr());
         if( x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) return expr( sub);
         auto o = mk( "cast", e); o[ "e"] = node( sub); o[ "ck"] = x->getCastKindName(); 
         if( isa<CXXDynamicCastExpr>( e)) o[ "dyn"] = true;
         if( isa<CXXReinterpretCastExpr>( e)) o[ "re"] = true;
         return o;
      }
      if( auto x = dyn_cast<CXXThrowExpr>( e)) { auto o = mk( "throw", e); if( x->getSubExpr()) o[ "e"] = node( x->getSubExpr()); return o;}
      if( auto x = dyn_cast<ArraySubscriptExpr>( e)) { auto o = mk( "index", e); o[ "b"] = node( x->getBase()); o[ "i"] = node( x->getIdx()); return o;}
      if( auto x = dyn_cast<CXXNewExpr>( e)) { auto o = mk( "new", e); if( x->getInitializer()) o[ "e"] = node( x->getInitializer()); o[ "a"] = json::Array{}; return o;}
      if( auto x = dyn_cast<CXXDeleteExpr>( e)) { auto o = mk( "delete", e); o[ "e"] = node( x->getArgument()); return o;}
      if( auto x = dyn_cast<CXXDefaultArgExpr>( e)) { auto v = node( x->getExpr()); if( auto p = v.getAsObject()) (*p)[ "defarg"] = true; return v;}
      if( auto x = dyn_cast<CXXScalarValueInitExpr>( e)) { auto o = mk( "zero", e); return o;}
      if( isa<ImplicitValueInitExpr>( e)) return mk( "zero", e);
      if( isa<UnaryExprOrTypeTraitExpr>( e) || isa<TypeTraitExpr>( e) || isa<SizeOfPackExpr>( e) || isa<CXXNoexceptExpr>( e) || isa<ConceptSpecializationExpr>( e) || isa<RequiresExpr>( e) )
      {
         auto o = mk( "const", e); Expr::EvalResult r;
         if( ! e->isValueDependent() && e->EvaluateAsInt( r, ctx)) { llvm::SmallString<32> s; r.Val.getInt().toString( s, 10); o[ "v"] = s.str().str();}
         if( auto u = dyn_cast<UnaryExprOrTypeTraitExpr>( e); u && u->getKind() == UETT_SizeOf) o[ "sizeof"] = type( u->getTypeOfArgument());
         return o;
      }
      if( auto x = dyn_cast<PredefinedExpr>( e)) { auto o = mk( "str", e); if( x->getFunctionName()) o[ "v"] = x->getFunctionName()->getString().str(); return o;}
      if( auto x = dyn_cast<CXXTypeidExpr>( e)) { return mk( "typeid", e);}
      if( auto x = dyn_cast<StmtExpr>( e)) { auto o = mk( "stmtexpr", e); o[ "body"] = node( x->getSubStmt()); return o;}
      if( auto x = dyn_cast<SourceLocExpr>( e)) { return mk( "const", e);}
      if( auto x = dyn_cast<ArrayInitLoopExpr>( e)) { auto o = mk( "ctor", e); o[ "ck"] = "copy"; o[ "a"] = json::Array{ node( x->getCommonExpr())}; return o;}
      auto o = mk( "other", e); o[ "n"] = e->getStmtClassName(); o[ "c"] = nodes( e->children()); return o;
   }

   // ------------------------------------------------------------------
   void function( const FunctionDecl* f)
   {
      auto key = id( f);
      if( funcs.get( key)) return;
      json::Object o;
      o[ "qn"] = qname( f);
      o[ "file"] = rel( file( f->getLocation()));
      o[ "l"] = (int)line( f->getLocation());
      o[ "el"] = (int)line( f->getEndLoc());
      json::Array ps;
      for( auto p : f->parameters())
      {
         json::Object po; po[ "n"] = p->getNameAsString(); po[ "id"] = var_id( p->getCanonicalDecl()); po[ "t"] = type( p->getType());
         ps.push_back( std::move( po));
      }
      // parameters of the declaration that owns the body might differ from the canonical decl
      o[ "p"] = std::move( ps);
      o[ "rt"] = type( f->getReturnType());
      if( auto args = f->getTemplateSpecializationArgs())
      {
         json::Array a; for( auto& x : args->asArray())
            if( x.getKind() == TemplateArgument::Pack) { for( auto& y : x.pack_elements()) a.push_back( targ( y));} else a.push_back( targ( x));
         o[ "ta"] = std::move( a);
      }
      if( f->isExternC()) o[ "externc"] = true;
      if( auto proto = f->getType()->getAs<FunctionProtoType>())
      {
         auto es = proto->getExceptionSpecType();
         if( es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow) o[ "noexcept"] = true;
         if( isa<CXXDestructorDecl>( f) && es != EST_NoexceptFalse) o[ "noexcept"] = true;
      }
      if( auto m = dyn_cast<CXXMethodDecl>( f))
      {
         o[ "cls"] = type( ctx.getRecordType( m->getParent()));
         if( m->getParent()->isLambda()) { o[ "lambda"] = true;}
         if( m->isStatic()) o[ "st"] = true;
         if( m->isConst()) o[ "const"] = true;
         if( m->isVirtual()) { o[ "virt"] = true; json::Array ov; for( auto x : m->overridden_methods()) ov.push_back( id( x)); o[ "over"] = std::move( ov);}
         if( auto pf = parent_function( m->getParent())) o[ "parent"] = id( pf);
         record( m->getParent());
      }
      if( f->isDefaulted()) o[ "defaulted"] = true;
      if( f->isStatic() && ! isa<CXXMethodDecl>( f)) o[ "internal"] = true;
      if( ! f->isExternallyVisible()) o[ "internal"] = true;
      if( auto c = dyn_cast<CXXConstructorDecl>( f))
      {
         o[ "ctor"] = true;
         json::Array in;
         for( auto i : c->inits())
         {
            json::Object io;
            if( i->isMemberInitializer()) io[ "m"] = i->getMember()->getNameAsString();
            else if( i->isIndirectMemberInitializer()) io[ "m"] = i->getIndirectMember()->getNameAsString();
            else if( i->isBaseInitializer()) io[ "base"] = type( QualType( i->getBaseClass(), 0));
            else if( i->isDelegatingInitializer()) io[ "deleg"] = true;
            if( i->isWritten()) io[ "w"] = true;
            io[ "e"] = node( i->getInit());
            in.push_back( std::move( io));
         }
         o[ "inits"] = std::move( in);
      }
      if( isa<CXXDestructorDecl>( f)) o[ "dtor"] = true;
      o[ "body"] = node( f->getBody());
      funcs[ key] = std::move( o);
   }

   void record( const CXXRecordDecl* r)
   {
      r = r->getDefinition();
      if( ! r || r->isDependentContext() || r->isLambda()) return;
      if( ! interesting( r->getLocation())) return;
      if( ! seen_records.insert( r).second) return;
      json::Object o;
      o[ "qn"] = qname( r);
      o[ "file"] = rel( file( r->getLocation())); o[ "l"] = (int)line( r->getLocation());
      json::Array fs;
      for( auto f : r->fields())
      {
         json::Object fo; fo[ "n"] = f->getNameAsString(); fo[ "t"] = type( f->getType()); fo[ "l"] = (int)line( f->getLocation());
         if( f->hasInClassInitializer() && f->getInClassInitializer()) fo[ "init"] = node( f->getInClassInitializer());
         if( f->getType()->isReferenceType()) fo[ "ref"] = true;
         fo[ "acc"] = (int)f->getAccess();
         fs.push_back( std::move( fo));
      }
      o[ "fields"] = std::move( fs);
      json::Array bs; for( auto& b : r->bases()) { bs.push_back( type( b.getType())); if( auto br = b.getType()->getAsCXXRecordDecl()) record( br);}
      o[ "bases"] = std::move( bs);
      json::Array ms;
      for( auto m : r->methods())
      {
         if( m->isImplicit()) continue;
         json::Object mo; mo[ "n"] = m->getNameAsString(); mo[ "id"] = id( m); mo["l"] = (int)line( m->getLocation());
         if( m->isDeleted()) mo[ "deleted"] = true;
         if( isa<CXXConstructorDecl>( m)) mo[ "ctor"] = true;
         if( isa<CXXDestructorDecl>( m)) mo[ "dtor"] = true;
         if( m->isCopyAssignmentOperator() || ( isa<CXXConstructorDecl>( m) && cast<CXXConstructorDecl>( m)->isCopyConstructor())) mo[ "copy"] = true;
         if( m->isDefaulted()) mo[ "defaulted"] = true;
         ms.push_back( std::move( mo));
      }
      o[ "methods"] = std::move( ms);
      json::Array consts;
      o[ "hasUserDtor"] = r->hasUserDeclaredDestructor();
      // local types of different functions might have the same name
      auto name = std::string( strings[ type( ctx.getRecordType( r))]);
      if( r->isLocalClass()) { auto copy = o; records[ name + "@" + std::to_string( line( r->getLocation()))] = std::move( copy);}
      records[ name] = std::move( o);
   }

   void enumeration( const EnumDecl* e)
   {
      if( ! e->isCompleteDefinition() || ! interesting( e->getLocation())) return;
      if( e->isDependentContext()) return;
      json::Object o; o[ "file"] = rel( file( e->getLocation())); o[ "l"] = (int)line( e->getLocation());
      json::Array cs; for( auto c : e->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString( s, 10); cs.push_back( json::Array{ c->getNameAsString(), s.str().str(), (int)line( c->getLocation())});}
      o[ "c"] = std::move( cs);
      enums[ strings[ type( ctx.getEnumType( e))]] = std::move( o);
   }

   void global( const VarDecl* v)
   {
      if( ! interesting( v->getLocation())) return;
      if( v->getType()->isDependentType() || v->isTemplated() ) return;
      if( ! v->isThisDeclarationADefinition()) return;
      json::Object o; o[ "qn"] = qname( v); o[ "t"] = type( v->getType()); o[ "file"] = rel( file( v->getLocation())); o[ "l"] = (int)line( v->getLocation());
      o[ "id"] = var_id( v->getCanonicalDecl());
      if( v->isConstexpr()) o[ "constexpr"] = true;
      if( v->getInit() && ! v->getInit()->isValueDependent()) o[ "init"] = node( v->getInit());
      globals.push_back( std::move( o));
   }

   struct Visitor : RecursiveASTVisitor<Visitor>
   {
      Extract& x;
      Visitor( Extract& x) : x( x) {}
      bool shouldVisitTemplateInstantiations() const { return true;}
      bool shouldVisitImplicitCode() const { return false;}
      bool TraverseStmt( Stmt*) { return true;} // bodies are handled by function()
      bool VisitFunctionDecl( FunctionDecl* f)
      {
         if( f->doesThisDeclarationHaveABody() && ! f->isDependentContext()) x.enqueue( f);
         return true;
      }
      bool VisitCXXRecordDecl( CXXRecordDecl* r) { if( r->isThisDeclarationADefinition()) x.record( r); return true;}
      bool VisitEnumDecl( EnumDecl* e) { x.enumeration( e); return true;}
      bool VisitVarDecl( VarDecl* v) { if( v->hasGlobalStorage() && ! v->isLocalVarDecl() && ! isa<ParmVarDecl>( v)) x.global( v); return true;}
   };

   void run()
   {
      Visitor v( *this);
      v.TraverseDecl( ctx.getTranslationUnitDecl());
      while( ! work.empty())
      {
         auto f = work.back(); work.pop_back();
         function( f);
      }
      json::Object out;
      json::Array deps;
      std::set<std::string> d;
      for( auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
      {
         llvm::SmallString<256> p( it->first.getName()); sm.getFileManager().makeAbsolutePath( p); llvm::sys::path::remove_dots( p, true);
         auto s = p.str().str();
         if( s.rfind( "/repo/", 0) == 0 || s.rfind( g_root, 0) == 0) d.insert( s);
      }
      for( auto& s : d) deps.push_back( s);
      out[ "deps"] = std::move( deps);
      out[ "funcs"] = std::move( funcs); out[ "records"] = std::move( records); out[ "enums"] = std::move( enums); out[ "globals"] = std::move( globals);
      json::Array ss; for( auto& s : strings) ss.push_back( json::isUTF8( s) ? s : json::fixUTF8( s));
      out[ "strings"] = std::move( ss);
      std::error_code ec; llvm::raw_fd_ostream os( g_out, ec);
      if( ec) { llvm::errs() << "cannot write " << g_out << "\n"; exit( 3);}
      os << json::Value( std::move( out));
   }
};

struct Consumer : ASTConsumer { void HandleTranslationUnit( ASTContext& c) override { if( c.getDiagnostics().hasErrorOccurred()) return; Extract( c).run();}};
struct Action : ASTFrontendAction
{ std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance&, StringRef) override { return std::make_unique<Consumer>();}};
}

int main( int argc, char** argv)
{
   std::vector<std::string> flags; std::string main_file, dir = ".";
   int i = 1;
   for( ; i < argc; ++i)
   {
      std::string a = argv[ i];
      if( a == "--out") g_out = argv[ ++i];
      else if( a == "--root") g_root = argv[ ++i];
      else if( a == "--skip") g_skip = argv[ ++i];
      else if( a == "--skip-body") g_skip_body = argv[ ++i];
      else if( a == "--dir") dir = argv[ ++i];
      else if( a == "--file") main_file = argv[ ++i];
      else if( a == "--") { ++i; break;}
   }
   for( ; i < argc; ++i) flags.push_back( argv[ i]);
   tooling::FixedCompilationDatabase db( dir, flags);
   tooling::ClangTool tool( db, { main_file});
   int rc = tool.run( tooling::newFrontendActionFactory<Action>().get());
   return rc;
}
