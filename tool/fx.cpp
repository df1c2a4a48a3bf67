// fx: dump the resolved program (types, declarations, function bodies) of C
// translation units as JSON facts for the analyses in ../lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/Stmt.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutDir, HdrDir;
static std::vector<std::string> Roots;

static std::string mangle(std::string p) {
	std::string r;
	for (char c : p) r += (c == '/') ? '%' : c;
	return r;
}
static bool isProject(const std::string &p) {
	for (auto &r : Roots) if (p.compare(0, r.size(), r) == 0) return true;
	return false;
}
static std::string latin(llvm::StringRef s) {
	std::string r;
	for (unsigned char c : s) {
		if (c < 0x80) r += (char)c;
		else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); }
	}
	return r;
}

struct Region { std::string file; unsigned b, e; std::string kind, cond; };

struct FileFacts {
	Array enums, records, typedefs, vars, funcs, regions;
	std::vector<std::string> types;
	std::map<std::string, int> tmap;
	int ty(const std::string &s) {
		auto it = tmap.find(s);
		if (it != tmap.end()) return it->second;
		int n = types.size(); types.push_back(s); tmap[s] = n; return n;
	}
	Object finish(const std::string &file) {
		Array t; for (auto &s : types) t.push_back(s);
		return Object{{"file", file}, {"types", std::move(t)}, {"enums", std::move(enums)}, {"records", std::move(records)},
			{"typedefs", std::move(typedefs)}, {"vars", std::move(vars)}, {"funcs", std::move(funcs)}, {"regions", std::move(regions)}};
	}
};

class Dumper {
public:
	ASTContext &C; SourceManager &SM; FileFacts *F = nullptr;
	std::map<const Decl *, int> ids; int next = 0;
	PrintingPolicy PP;
	Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
		PP.SuppressTagKeyword = false; PP.AnonymousTagLocations = false;
	}
	std::string fileOf(SourceLocation L) {
		PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
		if (P.isInvalid()) return "";
		auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
		if (!FE) return "";
		llvm::SmallString<256> path(FE->getName());
		SM.getFileManager().makeAbsolutePath(path);
		llvm::sys::path::remove_dots(path, true);
		return path.str().str();
	}
	// the file a declaration belongs to: template-style includes (.def, .c.h,
	// .inl) are part of the file that includes them
	std::string ownerOf(SourceLocation L) {
		FileID id = SM.getFileID(SM.getExpansionLoc(L));
		while (true) {
			auto FE = SM.getFileEntryRefForID(id);
			if (!FE) return "";
			llvm::SmallString<256> path(FE->getName());
			SM.getFileManager().makeAbsolutePath(path);
			llvm::sys::path::remove_dots(path, true);
			std::string f = path.str().str();
			auto ends = [&](const char *e) { size_t n = strlen(e); return f.size() > n && f.compare(f.size() - n, n, e) == 0; };
			if ((ends(".h") && !ends(".c.h")) || ends(".c")) return f;
			SourceLocation inc = SM.getIncludeLoc(id);
			if (inc.isInvalid()) return f;
			id = SM.getFileID(SM.getExpansionLoc(inc));
		}
	}
	unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
	std::string macro(SourceLocation L) {
		if (!L.isMacroID()) return "";
		while (true) {
			SourceLocation U = SM.getImmediateMacroCallerLoc(L);
			if (!U.isMacroID()) break;
			L = U;
		}
		return Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
	}
	std::string recName(const RecordDecl *R) {
		if (!R->getName().empty()) return R->getName().str();
		if (auto *T = R->getTypedefNameForAnonDecl()) return T->getName().str();
		std::string parent;
		if (auto *P = dyn_cast<RecordDecl>(R->getDeclContext())) parent = recName(P);
		// number anonymous records by position inside parent
		int n = 0;
		for (auto *D : R->getDeclContext()->decls()) { if (D == R) break; if (isa<RecordDecl>(D)) n++; }
		return parent + "::anon" + std::to_string(n);
	}
	std::string tstr(QualType T) {
		if (T.isNull()) return "?";
		QualType U = T.getCanonicalType();
		if (auto *TD = T->getAs<TypedefType>()) {
			// keep a typedef name if it names an integer type (uint32_t, size_t, arch flags ...) or enum
			(void)TD;
		}
		return tcanon(U);
	}
	std::string tcanon(QualType U) {
		std::string q = U.isConstQualified() ? "const " : "";
		const Type *t = U.getTypePtr();
		if (auto *P = dyn_cast<PointerType>(t)) return tcanon(P->getPointeeType()) + "*" + (q.empty() ? "" : " const");
		if (auto *R = dyn_cast<RecordType>(t)) return q + (R->getDecl()->isUnion() ? "union " : "struct ") + recName(R->getDecl());
		if (auto *E = dyn_cast<EnumType>(t)) {
			std::string n = E->getDecl()->getName().str();
			if (n.empty()) if (auto *T = E->getDecl()->getTypedefNameForAnonDecl()) n = T->getName().str();
			return q + "enum " + n;
		}
		if (auto *A = dyn_cast<ConstantArrayType>(t)) return tcanon(A->getElementType()) + "[" + std::to_string(A->getSize().getZExtValue()) + "]";
		if (auto *A = dyn_cast<ArrayType>(t)) return tcanon(A->getElementType()) + "[]";
		if (auto *Fn = dyn_cast<FunctionProtoType>(t)) {
			std::string s = tcanon(Fn->getReturnType()) + "(";
			bool first = true;
			for (auto p : Fn->param_types()) { if (!first) s += ","; first = false; s += tcanon(p); }
			if (Fn->isVariadic()) s += ",...";
			return s + ")";
		}
		if (auto *Fn = dyn_cast<FunctionNoProtoType>(t)) return tcanon(Fn->getReturnType()) + "()";
		return U.getAsString(PP);
	}
	int ty(QualType T) { return F->ty(tstr(T)); }
	int id(const Decl *D) {
		D = D->getCanonicalDecl();
		auto it = ids.find(D); if (it != ids.end()) return it->second;
		return ids[D] = next++;
	}
	std::string gname(const VarDecl *V) {
		return V->getName().str();
	}
	static std::string binop(BinaryOperatorKind k) { return BinaryOperator::getOpcodeStr(k).str(); }

	Value expr(const Expr *E) {
		if (!E) return nullptr;
		switch (E->getStmtClass()) {
		case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
		case Stmt::ImplicitCastExprClass: return expr(cast<ImplicitCastExpr>(E)->getSubExpr());
		case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
		case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
		case Stmt::GenericSelectionExprClass: return expr(cast<GenericSelectionExpr>(E)->getResultExpr());
		case Stmt::ChooseExprClass: return expr(cast<ChooseExpr>(E)->getChosenSubExpr());
		case Stmt::IntegerLiteralClass: {
			auto v = cast<IntegerLiteral>(E)->getValue();
			if (v.getActiveBits() > 63) return Array{"i", ty(E->getType()), (int64_t)v.getZExtValue()};
			return Array{"i", ty(E->getType()), (int64_t)v.getZExtValue()};
		}
		case Stmt::CharacterLiteralClass: return Array{"i", ty(E->getType()), (int64_t)cast<CharacterLiteral>(E)->getValue()};
		case Stmt::FloatingLiteralClass: { llvm::SmallString<32> s; cast<FloatingLiteral>(E)->getValue().toString(s); return Array{"f", ty(E->getType()), s.str().str()}; }
		case Stmt::StringLiteralClass: {
			auto *S = cast<StringLiteral>(E);
			if (S->getCharByteWidth() != 1) return Array{"?x", ty(E->getType()), "WideString"};
			return Array{"s", ty(E->getType()), latin(S->getBytes())};
		}
		case Stmt::PredefinedExprClass: { auto *P = cast<PredefinedExpr>(E); return Array{"s", ty(E->getType()), P->getFunctionName() ? latin(P->getFunctionName()->getBytes()) : ""}; }
		case Stmt::DeclRefExprClass: {
			auto *D = cast<DeclRefExpr>(E)->getDecl();
			if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
				return Array{"e", ty(EC->getType()->isEnumeralType() ? EC->getType() : QualType(C.getTypeDeclType(cast<EnumDecl>(EC->getDeclContext()))) ), EC->getName().str(), (int64_t)EC->getInitVal().getExtValue()};
			}
			if (isa<FunctionDecl>(D)) return Array{"v", ty(D->getType()), D->getName().str(), D->getName().str(), "f"};
			if (auto *V = dyn_cast<VarDecl>(D)) {
				if (V->hasGlobalStorage() && !V->isStaticLocal()) return Array{"v", ty(V->getType()), gname(V), gname(V), "g"};
				return Array{"v", ty(V->getType()), V->getName().str(), id(V), V->isStaticLocal() ? "s" : isa<ParmVarDecl>(V) ? "p" : "l"};
			}
			return Array{"?x", ty(E->getType()), "DeclRef"};
		}
		case Stmt::MemberExprClass: {
			auto *M = cast<MemberExpr>(E);
			auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl());
			std::string rec = FD ? recName(FD->getParent()) : "";
			std::string fn = FD ? FD->getName().str() : "";
			if (fn.empty()) fn = "<anon>";
			return Array{"m", ty(M->getType()), expr(M->getBase()), fn, rec, M->isArrow() ? 1 : 0};
		}
		case Stmt::ArraySubscriptExprClass: { auto *A = cast<ArraySubscriptExpr>(E); return Array{"x", ty(E->getType()), expr(A->getBase()), expr(A->getIdx())}; }
		case Stmt::CallExprClass: {
			auto *K = cast<CallExpr>(E);
			Array a; Array at;
			for (auto *x : K->arguments()) { a.push_back(expr(x)); at.push_back(ty(x->getType())); }
			return Array{"c", ty(E->getType()), (int64_t)line(K->getBeginLoc()), expr(K->getCallee()), std::move(a), macro(K->getBeginLoc()), std::move(at)};
		}
		case Stmt::UnaryOperatorClass: {
			auto *U = cast<UnaryOperator>(E); std::string op;
			switch (U->getOpcode()) {
			case UO_PostInc: op = "p++"; break; case UO_PostDec: op = "p--"; break;
			case UO_PreInc: op = "++p"; break; case UO_PreDec: op = "--p"; break;
			case UO_Extension: return expr(U->getSubExpr());
			default: op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
			}
			return Array{"u", ty(E->getType()), op, expr(U->getSubExpr()), (int64_t)line(U->getBeginLoc())};
		}
		case Stmt::BinaryOperatorClass: {
			auto *B = cast<BinaryOperator>(E);
			if (B->isAssignmentOp()) return Array{"a", ty(E->getType()), "=", expr(B->getLHS()), expr(B->getRHS()), (int64_t)line(B->getBeginLoc())};
			return Array{"b", ty(E->getType()), binop(B->getOpcode()), expr(B->getLHS()), expr(B->getRHS())};
		}
		case Stmt::CompoundAssignOperatorClass: {
			auto *B = cast<CompoundAssignOperator>(E);
			return Array{"a", ty(E->getType()), binop(B->getOpcode()), expr(B->getLHS()), expr(B->getRHS()), (int64_t)line(B->getBeginLoc())};
		}
		case Stmt::ConditionalOperatorClass: { auto *Q = cast<ConditionalOperator>(E); return Array{"?", ty(E->getType()), expr(Q->getCond()), expr(Q->getTrueExpr()), expr(Q->getFalseExpr())}; }
		case Stmt::BinaryConditionalOperatorClass: { auto *Q = cast<BinaryConditionalOperator>(E); return Array{"?", ty(E->getType()), expr(Q->getCommon()), expr(Q->getCommon()), expr(Q->getFalseExpr())}; }
		case Stmt::CStyleCastExprClass: { auto *K = cast<CStyleCastExpr>(E); return Array{"k", ty(E->getType()), expr(K->getSubExpr())}; }
		case Stmt::UnaryExprOrTypeTraitExprClass: {
			auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
			Expr::EvalResult R; Value v = nullptr;
			if (E->EvaluateAsInt(R, C)) v = (int64_t)R.Val.getInt().getZExtValue();
			return Array{"z", ty(E->getType()), ty(U->getTypeOfArgument()), v, U->isArgumentType() ? Value(nullptr) : expr(U->getArgumentExpr())};
		}
		case Stmt::OffsetOfExprClass: {
			auto *O = cast<OffsetOfExpr>(E);
			Expr::EvalResult R; Value v = nullptr;
			if (E->EvaluateAsInt(R, C)) v = (int64_t)R.Val.getInt().getZExtValue();
			std::string p;
			for (unsigned i = 0; i < O->getNumComponents(); i++) {
				auto &N = O->getComponent(i);
				if (N.getKind() == OffsetOfNode::Field) p += "." + N.getField()->getName().str();
				else if (N.getKind() == OffsetOfNode::Array) p += "[]";
			}
			return Array{"o", ty(E->getType()), ty(O->getTypeSourceInfo()->getType()), p, v};
		}
		case Stmt::InitListExprClass: {
			auto *I = cast<InitListExpr>(E);
			if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
			QualType T = I->getType();
			if (auto *R = T->getAs<RecordType>()) {
				Array a; auto *RD = R->getDecl();
				if (RD->isUnion()) {
					if (auto *FD = I->getInitializedFieldInUnion()) { if (I->getNumInits()) a.push_back(Array{"fi", FD->getName().empty() ? "<anon>" : FD->getName().str(), expr(I->getInit(0))}); }
				} else {
					unsigned n = 0;
					for (auto *FD : RD->fields()) { if (FD->isUnnamedBitfield()) continue; if (n < I->getNumInits()) a.push_back(Array{"fi", FD->getName().empty() ? "<anon>" : FD->getName().str(), expr(I->getInit(n))}); n++; }
				}
				return Array{"R", ty(T), std::move(a)};
			}
			Array a;
			for (unsigned i = 0; i < I->getNumInits(); i++) a.push_back(expr(I->getInit(i)));
			return Array{"I", ty(T), std::move(a), (int64_t)line(I->getBeginLoc())};
		}
		case Stmt::DesignatedInitUpdateExprClass: return Array{"?x", ty(E->getType()), "DesignatedInitUpdate"};
		case Stmt::ImplicitValueInitExprClass: return Array{"iv", ty(E->getType())};
		case Stmt::CompoundLiteralExprClass: return Array{"L", ty(E->getType()), expr(cast<CompoundLiteralExpr>(E)->getInitializer())};
		case Stmt::StmtExprClass: return Array{"S", ty(E->getType()), stmt(cast<StmtExpr>(E)->getSubStmt())};
		case Stmt::VAArgExprClass: return Array{"va", ty(E->getType()), expr(cast<VAArgExpr>(E)->getSubExpr())};
		default: return Array{"?x", ty(E->getType()), E->getStmtClassName()};
		}
	}
	Value stmt(const Stmt *S) {
		if (!S) return nullptr;
		int64_t L = line(S->getBeginLoc());
		switch (S->getStmtClass()) {
		case Stmt::CompoundStmtClass: { Array a; for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(stmt(x)); return Array{"BL", L, std::move(a), (int64_t)line(S->getEndLoc())}; }
		case Stmt::DeclStmtClass: {
			Array a;
			for (auto *D : cast<DeclStmt>(S)->decls()) {
				if (auto *V = dyn_cast<VarDecl>(D)) {
					if (V->isStaticLocal()) a.push_back(Array{"d", V->getName().str(), id(V), ty(V->getType()), V->hasInit() ? expr(V->getInit()) : Value(nullptr), 1});
					else if (!V->hasGlobalStorage()) a.push_back(Array{"d", V->getName().str(), id(V), ty(V->getType()), V->hasInit() ? expr(V->getInit()) : Value(nullptr), 0});
				} else if (auto *R = dyn_cast<RecordDecl>(D)) { record(R); }
				else if (auto *EN = dyn_cast<EnumDecl>(D)) { enm(EN); }
			}
			return Array{"D", L, std::move(a)};
		}
		case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(S); return Array{"IF", L, expr(I->getCond()), stmt(I->getThen()), stmt(I->getElse())}; }
		case Stmt::WhileStmtClass: { auto *W = cast<WhileStmt>(S); return Array{"W", L, expr(W->getCond()), stmt(W->getBody())}; }
		case Stmt::DoStmtClass: { auto *W = cast<DoStmt>(S); return Array{"DO", L, stmt(W->getBody()), expr(W->getCond())}; }
		case Stmt::ForStmtClass: { auto *W = cast<ForStmt>(S); return Array{"FOR", L, stmt(W->getInit()), expr(W->getCond()), expr(W->getInc()), stmt(W->getBody()), macro(S->getBeginLoc())}; }
		case Stmt::SwitchStmtClass: { auto *W = cast<SwitchStmt>(S); return Array{"SW", L, expr(W->getCond()), stmt(W->getBody())}; }
		case Stmt::CaseStmtClass: {
			auto *K = cast<CaseStmt>(S); Value lo = nullptr, hi = nullptr; Expr::EvalResult R;
			if (K->getLHS()->EvaluateAsInt(R, C)) lo = (int64_t)R.Val.getInt().getExtValue();
			if (K->getRHS() && K->getRHS()->EvaluateAsInt(R, C)) hi = (int64_t)R.Val.getInt().getExtValue();
			return Array{"CASE", L, lo, hi, stmt(K->getSubStmt()), expr(K->getLHS())};
		}
		case Stmt::DefaultStmtClass: return Array{"DEF", L, stmt(cast<DefaultStmt>(S)->getSubStmt())};
		case Stmt::ReturnStmtClass: return Array{"RET", L, expr(cast<ReturnStmt>(S)->getRetValue())};
		case Stmt::BreakStmtClass: return Array{"BRK", L};
		case Stmt::ContinueStmtClass: return Array{"CNT", L};
		case Stmt::GotoStmtClass: return Array{"GO", L, cast<GotoStmt>(S)->getLabel()->getName().str()};
		case Stmt::LabelStmtClass: return Array{"LB", L, cast<LabelStmt>(S)->getDecl()->getName().str(), stmt(cast<LabelStmt>(S)->getSubStmt())};
		case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
		case Stmt::NullStmtClass: return Array{"N", L};
		default:
			if (auto *E = dyn_cast<Expr>(S)) return Array{"X", L, expr(E)};
			return Array{"??", L, S->getStmtClassName()};
		}
	}
	void enm(const EnumDecl *E) {
		if (!E->isThisDeclarationADefinition()) return;
		Array a;
		for (auto *K : E->enumerators()) a.push_back(Array{K->getName().str(), (int64_t)K->getInitVal().getExtValue(), (int64_t)line(K->getLocation())});
		std::string n = E->getName().str();
		if (n.empty()) if (auto *T = E->getTypedefNameForAnonDecl()) n = T->getName().str();
		F->enums.push_back(Object{{"name", n}, {"line", (int64_t)line(E->getLocation())}, {"consts", std::move(a)}});
	}
	void record(const RecordDecl *R) {
		if (!R->isThisDeclarationADefinition()) return;
		Array a;
		int64_t sz = -1;
		const ASTRecordLayout *lay = nullptr;
		if (R->isCompleteDefinition() && !R->isInvalidDecl()) { lay = &C.getASTRecordLayout(R); sz = lay->getSize().getQuantity(); }
		unsigned n = 0;
		for (auto *FD : R->fields()) {
			a.push_back(Array{FD->getName().empty() ? "<anon>" : FD->getName().str(), ty(FD->getType()), FD->isBitField() ? Value((int64_t)FD->getBitWidthValue(C)) : Value(nullptr), (int64_t)line(FD->getLocation()), lay ? Value((int64_t)lay->getFieldOffset(n)) : Value(nullptr)});
			n++;
		}
		F->records.push_back(Object{{"name", recName(R)}, {"union", R->isUnion()}, {"line", (int64_t)line(R->getLocation())}, {"size", sz}, {"fields", std::move(a)}});
		for (auto *D : R->decls()) { if (auto *RR = dyn_cast<RecordDecl>(D)) record(RR); else if (auto *EE = dyn_cast<EnumDecl>(D)) enm(EE); }
	}
	void func(const FunctionDecl *FD) {
		ids.clear(); next = 0;
		Array ps;
		for (auto *P : FD->parameters()) ps.push_back(Array{P->getName().str(), id(P), ty(P->getType())});
		Array fmts;
		for (auto *A : FD->specific_attrs<FormatAttr>()) fmts.push_back(Array{A->getType()->getName().str(), A->getFormatIdx(), A->getFirstArg()});
		bool vis = false;
		if (auto *V = FD->getAttr<VisibilityAttr>()) vis = V->getVisibility() == VisibilityAttr::Default;
		bool pure = FD->hasAttr<PureAttr>(), cst = FD->hasAttr<ConstAttr>();
		Object o{{"name", FD->getName().str()}, {"line", (int64_t)line(FD->getLocation())}, {"end", (int64_t)line(FD->getEndLoc())},
			{"static", FD->getStorageClass() == SC_Static}, {"inline", FD->isInlineSpecified()}, {"noreturn", FD->isNoReturn()},
			{"type", ty(FD->getType())}, {"ret", ty(FD->getReturnType())}, {"params", std::move(ps)}, {"variadic", FD->isVariadic()},
			{"fmt", std::move(fmts)}, {"vis", vis}, {"pure", pure}, {"const", cst}, {"dep", FD->hasAttr<DeprecatedAttr>()}, {"macro", macro(FD->getBeginLoc())}};
		if (FD->doesThisDeclarationHaveABody()) o["body"] = stmt(FD->getBody());
		F->funcs.push_back(std::move(o));
	}
	void top(const Decl *D) {
		if (auto *FD = dyn_cast<FunctionDecl>(D)) func(FD);
		else if (auto *V = dyn_cast<VarDecl>(D)) {
			ids.clear(); next = 0;
			bool vis = false;
			if (auto *A = V->getAttr<VisibilityAttr>()) vis = A->getVisibility() == VisibilityAttr::Default;
			F->vars.push_back(Object{{"name", V->getName().str()}, {"line", (int64_t)line(V->getLocation())}, {"type", ty(V->getType())}, {"static", V->getStorageClass() == SC_Static}, {"vis", vis},
				{"def", V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly}, {"init", V->getInit() ? expr(V->getInit()) : Value(nullptr)}});
		} else if (auto *R = dyn_cast<RecordDecl>(D)) record(R);
		else if (auto *E = dyn_cast<EnumDecl>(D)) enm(E);
		else if (auto *T = dyn_cast<TypedefDecl>(D)) F->typedefs.push_back(Array{T->getName().str(), ty(T->getUnderlyingType()), (int64_t)line(T->getLocation())});
	}
};

static bool claim(const std::string &h) {
	std::string p = HdrDir + "/" + mangle(h) + ".claim";
	int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
	if (fd < 0) return false;
	close(fd); return true;
}
static bool writeJson(const std::string &path, Object o) {
	std::string tmp = path + ".tmp" + std::to_string(getpid());
	std::error_code EC;
	{
		llvm::raw_fd_ostream os(tmp, EC);
		if (EC) return false;
		os << Value(std::move(o));
	}
	return rename(tmp.c_str(), path.c_str()) == 0;
}

static std::vector<Region> TheRegions;
static std::set<std::string> Incs;
class PPC : public PPCallbacks {
	SourceManager &SM; const LangOptions &LO;
	struct Ent { std::string file; unsigned l; std::string kind, cond; bool rel; };
	std::vector<Ent> st;
public:
	PPC(SourceManager &s, const LangOptions &l) : SM(s), LO(l) {}
	std::string file(SourceLocation L) {
		auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
		if (!FE) return "";
		llvm::SmallString<256> path(FE->getName());
		SM.getFileManager().makeAbsolutePath(path); llvm::sys::path::remove_dots(path, true);
		return path.str().str();
	}
	void open(SourceLocation L, std::string kind, std::string cond) {
		bool rel = cond.find("DEBUG") != std::string::npos;
		st.push_back({file(L), SM.getExpansionLineNumber(L), kind, cond, rel});
	}
	void cut(SourceLocation L) {
		if (st.empty()) return;
		auto &e = st.back();
		if (e.rel) TheRegions.push_back({e.file, e.l, SM.getExpansionLineNumber(L), e.kind, e.cond});
	}
	void If(SourceLocation L, SourceRange R, ConditionValueKind) override { open(L, "if", Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, LO).str()); }
	void Ifdef(SourceLocation L, const Token &T, const MacroDefinition &) override { open(L, "ifdef", T.getIdentifierInfo()->getName().str()); }
	void Ifndef(SourceLocation L, const Token &T, const MacroDefinition &) override { open(L, "ifndef", T.getIdentifierInfo()->getName().str()); }
	void Elif(SourceLocation L, SourceRange R, ConditionValueKind, SourceLocation) override { cut(L); if (!st.empty()) { auto &e = st.back(); e.l = SM.getExpansionLineNumber(L); e.kind = "elif"; e.cond = Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, LO).str(); e.rel = e.rel || e.cond.find("DEBUG") != std::string::npos; } }
	void Else(SourceLocation L, SourceLocation) override { cut(L); if (!st.empty()) { auto &e = st.back(); e.l = SM.getExpansionLineNumber(L); e.kind = "else-" + e.kind; } }
	void Endif(SourceLocation L, SourceLocation) override { cut(L); if (!st.empty()) st.pop_back(); }
};

class Consumer : public ASTConsumer {
	std::string mainFile;
public:
	Consumer(std::string f) : mainFile(f) {}
	void HandleTranslationUnit(ASTContext &C) override {
		if (C.getDiagnostics().hasErrorOccurred()) return;
		Dumper D(C);
		std::map<std::string, std::unique_ptr<FileFacts>> files;
		std::map<std::string, bool> want;
		files[mainFile] = std::make_unique<FileFacts>(); want[mainFile] = true;
		for (auto *d : C.getTranslationUnitDecl()->decls()) {
			if (d->isImplicit()) continue;
			std::string f = D.ownerOf(d->getLocation());
			if (f.empty()) continue;
			auto it = want.find(f);
			if (it == want.end()) {
				bool w = isProject(f) && claim(f);
				want[f] = w; if (w) files[f] = std::make_unique<FileFacts>();
				it = want.find(f);
			}
			if (!it->second) continue;
			D.F = files[f].get();
			D.top(d);
		}
		for (auto &R : TheRegions) {
			auto it = files.find(R.file);
			if (it == files.end()) continue;
			it->second->regions.push_back(Array{(int64_t)R.b, (int64_t)R.e, R.kind, R.cond});
		}
		for (auto &kv : files) {
			std::string out = (kv.first == mainFile ? OutDir : HdrDir) + "/" + mangle(kv.first) + ".json";
			if (!writeJson(out, kv.second->finish(kv.first))) { llvm::errs() << "cannot write " << out << "\n"; exit(3); }
		}
	}
};
class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override {
		TheRegions.clear();
		CI.getPreprocessor().addPPCallbacks(std::make_unique<PPC>(CI.getSourceManager(), CI.getLangOpts()));
		llvm::SmallString<256> p(f);
		CI.getFileManager().makeAbsolutePath(p); llvm::sys::path::remove_dots(p, true);
		return std::make_unique<Consumer>(p.str().str());
	}
};

int main(int argc, char **argv) {
	std::vector<std::string> flags, srcs; int i = 1; bool fl = false;
	for (; i < argc; i++) {
		std::string a = argv[i];
		if (fl) { flags.push_back(a); continue; }
		if (a == "--") fl = true;
		else if (a == "--out") OutDir = argv[++i];
		else if (a == "--hdr") HdrDir = argv[++i];
		else if (a == "--root") Roots.push_back(argv[++i]);
		else srcs.push_back(a);
	}
	tooling::FixedCompilationDatabase DB("/", flags);
	tooling::ClangTool T(DB, srcs);
	return T.run(tooling::newFrontendActionFactory<Action>().get());
}
