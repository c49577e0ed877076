// nvcx: fact extractor for the nvc static checks.
//
// Parses one translation unit with the clang front end and writes one JSON
// object per line: functions (full expression trees plus clang's CFG with all
// sub-expressions in evaluation order, cleanup-attribute calls included),
// global variables with initialisers, enums and records.  It decides nothing.

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;   // repository root prefix
static llvm::raw_fd_ostream *g_out;

namespace {

struct StrTab {
   std::unordered_map<std::string, int> map;
   std::vector<std::string> list;
   int get(const std::string &s) {
      auto it = map.find(s);
      if (it != map.end()) return it->second;
      int id = list.size();
      map.emplace(s, id);
      list.push_back(s);
      return id;
   }
   json::Array array() {
      json::Array a;
      for (auto &s : list) a.push_back(json::fixUTF8(s));
      return a;
   }
};

class Dumper {
public:
   ASTContext &ctx;
   const SourceManager &sm;
   StrTab types, macros;
   json::Array nodes;
   json::Array vars;
   std::unordered_map<const Stmt *, int> ids;
   std::unordered_map<const ValueDecl *, int> varids;

   explicit Dumper(ASTContext &c) : ctx(c), sm(c.getSourceManager()) {}

   int line(SourceLocation l) {
      if (l.isInvalid()) return 0;
      return sm.getExpansionLineNumber(l);
   }

   int type(QualType t) {
      if (t.isNull()) return types.get("");
      std::string s = t.getAsString();
      if (s.find("typeof") != std::string::npos) s = t.getCanonicalType().getAsString();
      return types.get(s);
   }

   // outermost macro name, then innermost when different
   int macro(SourceLocation l) {
      if (!l.isMacroID()) return -1;
      std::string inner, outer;
      int guard = 0;
      std::string chain;
      while (l.isMacroID() && guard++ < 40) {
         StringRef n = Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts());
         if (!n.empty()) {
            if (!chain.empty()) chain = n.str() + ">" + chain;
            else chain = n.str();
         }
         l = sm.getImmediateMacroCallerLoc(l);
      }
      return macros.get(chain);
   }

   int varid(const ValueDecl *d) {
      d = cast<ValueDecl>(d->getCanonicalDecl());
      auto it = varids.find(d);
      if (it != varids.end()) return it->second;
      int id = vars.size();
      varids[d] = id;
      std::string kind = "g";
      std::string cleanup;
      if (auto *vd = dyn_cast<VarDecl>(d)) {
         if (isa<ParmVarDecl>(vd)) kind = "p";
         else if (vd->isStaticLocal()) kind = "s";
         else if (vd->hasLocalStorage()) kind = "l";
         else if (vd->getStorageClass() == SC_Static) kind = "gs";
         if (vd->getTLSKind() != VarDecl::TLS_None) kind += "t";
         if (auto *a = vd->getAttr<CleanupAttr>())
            cleanup = a->getFunctionDecl()->getNameAsString();
      }
      vars.push_back(json::Array{d->getNameAsString(), type(d->getType()),
                                 kind, cleanup, line(d->getLocation())});
      return id;
   }

   static const Stmt *strip(const Stmt *s) {
      for (;;) {
         if (auto *p = dyn_cast<ParenExpr>(s)) s = p->getSubExpr();
         else if (auto *p = dyn_cast<ImplicitCastExpr>(s)) s = p->getSubExpr();
         else if (auto *p = dyn_cast<ConstantExpr>(s)) s = p->getSubExpr();
         else if (auto *p = dyn_cast<FullExpr>(s)) s = p->getSubExpr();
         else if (auto *p = dyn_cast<GenericSelectionExpr>(s)) s = p->getResultExpr();
         else if (auto *p = dyn_cast<ChooseExpr>(s)) s = p->getChosenSubExpr();
         else if (auto *p = dyn_cast<OpaqueValueExpr>(s)) {
            if (p->getSourceExpr()) s = p->getSourceExpr(); else return s;
         }
         else if (auto *u = dyn_cast<UnaryOperator>(s)) {
            if (u->getOpcode() == UO_Extension) s = u->getSubExpr(); else return s;
         }
         else return s;
      }
   }

   std::string recname(const RecordDecl *rd) {
      if (!rd) return "";
      if (rd->getIdentifier()) return rd->getNameAsString();
      if (auto *td = rd->getTypedefNameForAnonDecl()) return td->getNameAsString();
      return "<anon>";
   }

   int node(const Stmt *s) {
      if (!s) return -1;
      s = strip(s);
      auto it = ids.find(s);
      if (it != ids.end()) return it->second;

      std::string kind;
      json::Value payload = nullptr;
      std::vector<const Stmt *> kids;
      json::Array kidids;
      bool custom = false;

      if (auto *e = dyn_cast<DeclRefExpr>(s)) {
         const ValueDecl *d = e->getDecl();
         if (isa<FunctionDecl>(d)) { kind = "fn"; payload = d->getNameAsString(); }
         else if (isa<EnumConstantDecl>(d)) { kind = "enum"; payload = d->getNameAsString(); }
         else { kind = "var"; payload = varid(d); }
      }
      else if (auto *e = dyn_cast<MemberExpr>(s)) {
         kind = "mem";
         std::string rn;
         if (auto *fd = dyn_cast<FieldDecl>(e->getMemberDecl())) rn = recname(fd->getParent());
         payload = json::Array{e->getMemberDecl()->getNameAsString(), rn, e->isArrow()};
         kids.push_back(e->getBase());
      }
      else if (auto *e = dyn_cast<CallExpr>(s)) {
         kind = "call";
         if (auto *fd = e->getDirectCallee()) payload = fd->getNameAsString();
         kids.push_back(e->getCallee());
         for (auto *a : e->arguments()) kids.push_back(a);
      }
      else if (auto *e = dyn_cast<BinaryOperator>(s)) {
         kind = e->isAssignmentOp() ? "asg" : "bin";
         payload = e->getOpcodeStr().str();
         kids.push_back(e->getLHS()); kids.push_back(e->getRHS());
      }
      else if (auto *e = dyn_cast<UnaryOperator>(s)) {
         kind = "un";
         std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
         if (e->isPostfix()) op = "post" + op;
         else if (e->isIncrementDecrementOp()) op = "pre" + op;
         payload = op;
         kids.push_back(e->getSubExpr());
      }
      else if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
         kind = "cast"; kids.push_back(e->getSubExpr());
      }
      else if (auto *e = dyn_cast<IntegerLiteral>(s)) { kind = "lit"; (void)e; }
      else if (auto *e = dyn_cast<CharacterLiteral>(s)) { kind = "chr"; payload = (int64_t)e->getValue(); }
      else if (auto *e = dyn_cast<FloatingLiteral>(s)) { kind = "flt"; payload = e->getValueAsApproximateDouble(); }
      else if (auto *e = dyn_cast<StringLiteral>(s)) { kind = "str"; payload = json::fixUTF8(e->getBytes()); }
      else if (auto *e = dyn_cast<PredefinedExpr>(s)) { kind = "str"; payload = json::fixUTF8(e->getFunctionName() ? e->getFunctionName()->getBytes() : ""); }
      else if (auto *e = dyn_cast<BinaryConditionalOperator>(s)) {
         kind = "elvis"; kids.push_back(e->getCommon()); kids.push_back(e->getFalseExpr());
      }
      else if (auto *e = dyn_cast<ConditionalOperator>(s)) {
         kind = "cond"; kids.push_back(e->getCond()); kids.push_back(e->getTrueExpr()); kids.push_back(e->getFalseExpr());
      }
      else if (auto *e = dyn_cast<ArraySubscriptExpr>(s)) {
         kind = "idx"; kids.push_back(e->getBase()); kids.push_back(e->getIdx());
      }
      else if (auto *e = dyn_cast<InitListExpr>(s)) {
         kind = "init";
         const InitListExpr *sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
         json::Array names;
         if (auto *rt = sem->getType()->getAsStructureType()) {
            auto *rd = rt->getDecl();
            unsigned n = 0;
            for (auto *f : rd->fields()) {
               if (f->isUnnamedBitfield()) continue;
               if (n++ >= sem->getNumInits()) break;
               names.push_back(f->getNameAsString());
            }
         }
         else if (sem->getInitializedFieldInUnion())
            names.push_back(sem->getInitializedFieldInUnion()->getNameAsString());
         payload = std::move(names);
         for (auto *i : sem->inits()) kids.push_back(i);
      }
      else if (auto *e = dyn_cast<CompoundLiteralExpr>(s)) { kind = "complit"; kids.push_back(e->getInitializer()); }
      else if (auto *e = dyn_cast<StmtExpr>(s)) { kind = "stmtexpr"; kids.push_back(e->getSubStmt()); }
      else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
         kind = "sizeof";
         payload = json::Array{type(e->getTypeOfArgument())};
         if (!e->isArgumentType()) kids.push_back(e->getArgumentExpr());
      }
      else if (auto *e = dyn_cast<OffsetOfExpr>(s)) {
         kind = "offsetof";
         std::string f;
         for (unsigned i = 0; i < e->getNumComponents(); i++) {
            auto &c = e->getComponent(i);
            if (c.getKind() == OffsetOfNode::Field) {
               if (!f.empty()) f += ".";
               f += c.getField()->getNameAsString();
            }
         }
         payload = json::Array{type(e->getTypeSourceInfo()->getType()), f};
      }
      else if (auto *e = dyn_cast<VAArgExpr>(s)) { kind = "vaarg"; kids.push_back(e->getSubExpr()); }
      else if (auto *e = dyn_cast<AtomicExpr>(s)) {
         kind = "atomic";
         std::string n = "?";
         switch (e->getOp()) {
#define OP(X) case AtomicExpr::AO__##X: n = #X; break;
         OP(atomic_load_n) OP(atomic_load) OP(atomic_store_n) OP(atomic_store)
         OP(atomic_exchange_n) OP(atomic_exchange)
         OP(atomic_compare_exchange_n) OP(atomic_compare_exchange)
         OP(atomic_fetch_add) OP(atomic_fetch_sub) OP(atomic_fetch_or)
         OP(atomic_fetch_and) OP(atomic_fetch_xor)
         OP(atomic_add_fetch) OP(atomic_sub_fetch) OP(atomic_or_fetch)
         OP(atomic_and_fetch) OP(atomic_xor_fetch)
#undef OP
         default: break;
         }
         payload = n;
         for (auto *c : const_cast<AtomicExpr *>(e)->children()) kids.push_back(c);
      }
      else if (isa<ImplicitValueInitExpr>(s)) { kind = "zero"; }
      else if (auto *d = dyn_cast<DeclStmt>(s)) {
         kind = "decl";
         json::Array a;
         for (auto *x : d->decls()) {
            if (auto *vd = dyn_cast<VarDecl>(x)) {
               int vid = varid(vd);
               int init = vd->hasInit() ? node(vd->getInit()) : -1;
               a.push_back(json::Array{vid, init});
               if (init >= 0) kidids.push_back(init);
            }
         }
         payload = std::move(a);
         custom = true;
      }
      else if (auto *r = dyn_cast<ReturnStmt>(s)) { kind = "ret"; if (r->getRetValue()) kids.push_back(r->getRetValue()); }
      else if (auto *i = dyn_cast<IfStmt>(s)) {
         kind = "if"; kids.push_back(i->getCond()); kids.push_back(i->getThen()); kids.push_back(i->getElse());
      }
      else if (auto *w = dyn_cast<WhileStmt>(s)) { kind = "while"; kids.push_back(w->getCond()); kids.push_back(w->getBody()); }
      else if (auto *w = dyn_cast<DoStmt>(s)) { kind = "do"; kids.push_back(w->getBody()); kids.push_back(w->getCond()); }
      else if (auto *f = dyn_cast<ForStmt>(s)) {
         kind = "for"; kids.push_back(f->getInit()); kids.push_back(f->getCond()); kids.push_back(f->getInc()); kids.push_back(f->getBody());
      }
      else if (auto *w = dyn_cast<SwitchStmt>(s)) {
         kind = "switch"; kids.push_back(w->getCond()); kids.push_back(w->getBody());
         payload = w->isAllEnumCasesCovered();
      }
      else if (auto *c = dyn_cast<CaseStmt>(s)) { kind = "case"; kids.push_back(c->getLHS()); kids.push_back(c->getRHS()); kids.push_back(c->getSubStmt()); }
      else if (auto *c = dyn_cast<DefaultStmt>(s)) { kind = "default"; kids.push_back(c->getSubStmt()); }
      else if (auto *c = dyn_cast<CompoundStmt>(s)) { kind = "block"; for (auto *x : c->body()) kids.push_back(x); }
      else if (auto *l = dyn_cast<LabelStmt>(s)) { kind = "label"; payload = std::string(l->getName()); kids.push_back(l->getSubStmt()); }
      else if (auto *g = dyn_cast<GotoStmt>(s)) { kind = "goto"; payload = g->getLabel()->getNameAsString(); }
      else if (isa<BreakStmt>(s)) kind = "break";
      else if (isa<ContinueStmt>(s)) kind = "continue";
      else if (isa<NullStmt>(s)) kind = "null";
      else if (auto *a = dyn_cast<AttributedStmt>(s)) { kind = "attr"; kids.push_back(a->getSubStmt()); }
      else {
         kind = s->getStmtClassName();
         for (auto *c : s->children()) kids.push_back(c);
      }

      int tidx = -1;
      json::Value cval = nullptr;
      if (auto *e = dyn_cast<Expr>(s)) {
         tidx = type(e->getType());
         if (!e->isValueDependent() && !e->getType().isNull()
             && e->getType()->isIntegralOrEnumerationType()
             && !isa<InitListExpr>(e)) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
               auto &v = r.Val.getInt();
               if (v.isSigned() || v.getActiveBits() <= 63) {
                  if (v.getSignificantBits() <= 64) cval = v.getExtValue();
               }
               else
                  cval = llvm::toString(v, 10, false);
            }
         }
      }

      if (!custom)
         for (auto *c : kids) kidids.push_back(c ? node(c) : -1);

      int id = nodes.size();
      ids[s] = id;
      nodes.push_back(json::Array{kind, line(s->getBeginLoc()), tidx,
                                  macro(s->getBeginLoc()), std::move(cval),
                                  std::move(payload), std::move(kidids)});
      return id;
   }

   json::Value cfg(const FunctionDecl *fd) {
      CFG::BuildOptions bo;
      bo.setAllAlwaysAdd();
      bo.AddImplicitDtors = true;
      bo.PruneTriviallyFalseEdges = true;
      bo.AddStaticInitBranches = false;
      std::unique_ptr<CFG> g = CFG::buildCFG(fd, fd->getBody(), &ctx, bo);
      if (!g) return nullptr;
      json::Array blocks;
      for (const CFGBlock *b : *g) {
         json::Array elems;
         int last = -2;
         for (auto &el : *b) {
            if (auto cs = el.getAs<CFGStmt>()) {
               const Stmt *st = strip(cs->getStmt());
               if (isa<IntegerLiteral>(st) || isa<StringLiteral>(st) || isa<CharacterLiteral>(st))
                  continue;
               if (auto *dr = dyn_cast<DeclRefExpr>(st))
                  if (!isa<VarDecl>(dr->getDecl())) continue;
               int id = node(st);
               if (id == last) continue;
               last = id;
               elems.push_back(id);
            }
            else if (auto cf = el.getAs<CFGCleanupFunction>()) {
               elems.push_back(json::Array{"cleanup", varid(cf->getVarDecl()),
                  cf->getFunctionDecl()->getNameAsString()});
            }
         }
         json::Array succs;
         for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
            const CFGBlock *t = it->getReachableBlock();
            if (t) succs.push_back((int)t->getBlockID());
            else succs.push_back(nullptr);
         }
         json::Value term = nullptr, cond = nullptr, label = nullptr;
         if (const Stmt *t = b->getTerminatorStmt()) {
            term = t->getStmtClassName();
            if (const Stmt *c = b->getTerminatorCondition(true)) cond = node(c);
         }
         if (const Stmt *l = b->getLabel()) label = node(l);
         blocks.push_back(json::Array{(int)b->getBlockID(), std::move(elems),
            std::move(term), std::move(cond), std::move(succs), std::move(label),
            b->hasNoReturnElement()});
      }
      return json::Object{{"entry", (int)g->getEntry().getBlockID()},
                          {"exit", (int)g->getExit().getBlockID()},
                          {"blocks", std::move(blocks)}};
   }
};

class Consumer : public ASTConsumer {
   std::string file(ASTContext &ctx, SourceLocation l) {
      auto &sm = ctx.getSourceManager();
      auto e = sm.getExpansionLoc(l);
      StringRef f = sm.getFilename(e);
      return f.str();
   }
   bool mine(const std::string &f) {
      return f.rfind(g_root, 0) == 0 || f.find("/gen/") != std::string::npos;
   }
   std::string rel(const std::string &f) {
      if (f.rfind(g_root, 0) == 0) {
         std::string r = f.substr(g_root.size());
         while (!r.empty() && r[0] == '/') r.erase(0, 1);
         return r;
      }
      auto p = f.find("/gen/");
      if (p != std::string::npos) return f.substr(p + 1);
      return f;
   }
   void emit(json::Object o) {
      *g_out << json::Value(std::move(o)) << "\n";
   }

public:
   void HandleTranslationUnit(ASTContext &ctx) override {
      if (ctx.getDiagnostics().hasErrorOccurred()) return;
      visitCtx(ctx, ctx.getTranslationUnitDecl());
      *g_out << json::Value(json::Object{{"k", "end"}}) << "\n";
   }

   void visitCtx(ASTContext &ctx, DeclContext *dc) {
      auto &sm = ctx.getSourceManager();
      for (Decl *d : dc->decls()) {
         std::string f = file(ctx, d->getLocation());
         if (!mine(f)) {
            // Record noreturn declarations from system headers too
            if (auto *fd = dyn_cast<FunctionDecl>(d)) {
               if (fd->isNoReturn())
                  emit(json::Object{{"k", "decl"}, {"name", fd->getNameAsString()}, {"noreturn", true}});
            }
            continue;
         }
         std::string r = rel(f);
         int ln = sm.getExpansionLineNumber(d->getLocation());
         if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            if (!fd->doesThisDeclarationHaveABody()) {
               json::Array ps;
               for (auto *p : fd->parameters()) ps.push_back(json::Array{p->getNameAsString(), p->getType().getAsString()});
               emit(json::Object{{"k", "decl"}, {"name", fd->getNameAsString()}, {"file", r}, {"line", ln},
                    {"noreturn", fd->isNoReturn()}, {"ret", fd->getReturnType().getAsString()},
                    {"params", std::move(ps)}, {"warn_unused", fd->hasAttr<WarnUnusedResultAttr>()},
                    {"retnonnull", fd->hasAttr<ReturnsNonNullAttr>()}});
               continue;
            }
            Dumper du(ctx);
            json::Array ps;
            for (auto *p : fd->parameters()) ps.push_back(du.varid(p));
            int body = du.node(fd->getBody());
            json::Value cfg = du.cfg(fd);
            emit(json::Object{
               {"k", "fn"}, {"name", fd->getNameAsString()}, {"file", r}, {"line", ln},
               {"end", (int)sm.getExpansionLineNumber(fd->getEndLoc())},
               {"static", fd->getStorageClass() == SC_Static},
               {"noreturn", fd->isNoReturn()},
               {"vis", fd->hasAttr<VisibilityAttr>()},
               {"variadic", fd->isVariadic()},
               {"ret", fd->getReturnType().getAsString()},
               {"retnonnull", fd->hasAttr<ReturnsNonNullAttr>()},
               {"params", std::move(ps)}, {"body", body},
               {"cfg", std::move(cfg)},
               {"vars", std::move(du.vars)}, {"types", du.types.array()},
               {"macros", du.macros.array()}, {"N", std::move(du.nodes)}});
         }
         else if (auto *vd = dyn_cast<VarDecl>(d)) {
            Dumper du(ctx);
            int init = vd->hasInit() ? du.node(vd->getInit()) : -1;
            emit(json::Object{{"k", "var"}, {"name", vd->getNameAsString()}, {"file", r}, {"line", ln},
               {"type", vd->getType().getAsString()}, {"static", vd->getStorageClass() == SC_Static},
               {"extern", vd->hasExternalStorage()},
               {"tls", vd->getTLSKind() != VarDecl::TLS_None}, {"const", vd->getType().isConstQualified()},
               {"init", init}, {"vars", std::move(du.vars)}, {"types", du.types.array()},
               {"macros", du.macros.array()}, {"N", std::move(du.nodes)}});
         }
         else if (auto *ed = dyn_cast<EnumDecl>(d)) {
            if (!ed->isCompleteDefinition()) continue;
            std::string n = ed->getNameAsString();
            if (n.empty()) if (auto *td = ed->getTypedefNameForAnonDecl()) n = td->getNameAsString();
            json::Array cs;
            for (auto *c : ed->enumerators()) cs.push_back(json::Array{c->getNameAsString(), c->getInitVal().getExtValue()});
            emit(json::Object{{"k", "enum"}, {"name", n}, {"file", r}, {"line", ln}, {"consts", std::move(cs)}});
         }
         else if (auto *rd = dyn_cast<RecordDecl>(d)) {
            if (!rd->isCompleteDefinition() || rd->isInvalidDecl()) continue;
            std::string n = rd->getNameAsString();
            if (n.empty()) if (auto *td = rd->getTypedefNameForAnonDecl()) n = td->getNameAsString();
            const ASTRecordLayout &lay = ctx.getASTRecordLayout(rd);
            json::Array fs;
            unsigned i = 0;
            for (auto *fl : rd->fields()) {
               int bw = fl->isBitField() ? (int)fl->getBitWidthValue(ctx) : -1;
               fs.push_back(json::Array{fl->getNameAsString(), fl->getType().getAsString(),
                  (int64_t)lay.getFieldOffset(i++), bw,
                  fl->getType()->isIncompleteType() ? (int64_t)-1 : (int64_t)ctx.getTypeSize(fl->getType())});
            }
            emit(json::Object{{"k", "record"}, {"name", n}, {"file", r}, {"line", ln},
               {"union", rd->isUnion()}, {"size", (int64_t)lay.getSize().getQuantity()}, {"fields", std::move(fs)}});
         }
         else if (auto *td = dyn_cast<TypedefNameDecl>(d)) {
            emit(json::Object{{"k", "typedef"}, {"name", td->getNameAsString()},
               {"type", td->getUnderlyingType().getAsString()},
               {"canon", td->getUnderlyingType().getCanonicalType().getAsString()}, {"file", r}, {"line", ln}});
         }
      }
   }
};

class Action : public ASTFrontendAction {
   std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override {
      return std::make_unique<Consumer>();
   }
};

}  // namespace

// usage: nvcx ROOT OUT SOURCE flags...
int main(int argc, char **argv)
{
   if (argc < 4) return 2;
   g_root = argv[1];
   std::error_code ec;
   llvm::raw_fd_ostream out(argv[2], ec);
   if (ec) return 2;
   g_out = &out;
   std::vector<std::string> cmd{"clang"};
   for (int i = 4; i < argc; i++) cmd.push_back(argv[i]);
   cmd.push_back("-fsyntax-only");
   cmd.push_back("-w");
   cmd.push_back(argv[3]);
   IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
   tooling::ToolInvocation inv(cmd, std::make_unique<Action>(), fm.get());
   bool ok = inv.run();
   out.flush();
   return ok ? 0 : 1;
}
