// cxxdump: mechanical extractor. Parses one C++ translation unit with clang and writes, as JSON,
// the typed AST of every function defined under a given source prefix (template instantiations
// included), the records and enums they use, and the signatures of all callees.
// It does not rewrite code: nodes mirror clang's semantic AST; only purely syntactic wrappers
// (parentheses, cleanups, temporaries materialisation) are dropped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string gPrefix, gOut;

struct Dumper
{
    ASTContext& ctx;
    std::unique_ptr<MangleContext> mangler;
    json::Array types;
    std::map<std::string, int> typeIds;
    json::Object records, enums, functions, callees, globals;
    std::map<const Decl*, int> declIds;
    std::set<std::string> pendingRecords;
    PrintingPolicy pol;

    explicit Dumper(ASTContext& c) : ctx(c), mangler(ItaniumMangleContext::create(c, c.getDiagnostics())), pol(c.getLangOpts())
    {
        pol.SuppressTagKeyword = true;
        pol.FullyQualifiedName = true;
        pol.PrintCanonicalTypes = true;
    }

    int declId(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end())
            return it->second;
        int id = (int)declIds.size() + 1;
        declIds[d] = id;
        return id;
    }

    std::string mangle(const FunctionDecl* fd)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto* c = dyn_cast<CXXConstructorDecl>(fd))
            mangler->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(fd))
            mangler->mangleName(GlobalDecl(d, Dtor_Complete), os);
        else if (mangler->shouldMangleDeclName(fd))
            mangler->mangleName(GlobalDecl(fd), os);
        else
            os << fd->getQualifiedNameAsString();
        return os.str();
    }

    std::string line(SourceLocation l)
    {
        if (l.isInvalid())
            return "";
        auto& sm = ctx.getSourceManager();
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        if (p.isInvalid())
            return "";
        std::string f = p.getFilename();
        auto pos = f.find(gPrefix);
        if (pos != std::string::npos)
            f = f.substr(pos + gPrefix.size());
        return f + ":" + std::to_string(p.getLine());
    }
    int lineNo(SourceLocation l)
    {
        auto& sm = ctx.getSourceManager();
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isInvalid() ? 0 : (int)p.getLine();
    }
    bool inPrefix(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        auto& sm = ctx.getSourceManager();
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        if (p.isInvalid())
            return false;
        const std::string f = p.getFilename();
        return f.find(gPrefix) != std::string::npos || f.find("/verif/lemmas/") != std::string::npos;
    }

    json::Value targ(const TemplateArgument& a)
    {
        switch (a.getKind())
        {
        case TemplateArgument::Type:
            return json::Object{{"t", type(a.getAsType())}};
        case TemplateArgument::Integral:
            return json::Object{{"i", llvm::toString(a.getAsIntegral(), 10)}};
        case TemplateArgument::Pack:
        {
            json::Array arr;
            for (auto& x : a.pack_elements())
                arr.push_back(targ(x));
            return json::Object{{"pack", std::move(arr)}};
        }
        default:
            return json::Object{};
        }
    }

    int type(QualType q)
    {
        if (q.isNull())
            return -1;
        q = q.getCanonicalType();
        std::string key = q.getAsString(pol);
        if (auto* rt = q->getAs<RecordType>())
            if (auto* rd = dyn_cast<CXXRecordDecl>(rt->getDecl()))
                if (rd->isLambda())
                    key += "#" + std::to_string(declId(rd));
        auto it = typeIds.find(key);
        if (it != typeIds.end())
            return it->second;
        int id = (int)types.size();
        typeIds[key] = id;
        types.push_back(json::Object{});
        json::Object o;
        o["s"] = key;
        if (q.isConstQualified())
            o["const"] = true;
        const Type* t = q.getTypePtr();
        if (auto* rt = dyn_cast<LValueReferenceType>(t))
        {
            o["k"] = "ref";
            o["t"] = type(rt->getPointeeType());
        }
        else if (auto* rt = dyn_cast<RValueReferenceType>(t))
        {
            o["k"] = "ref";
            o["rv"] = true;
            o["t"] = type(rt->getPointeeType());
        }
        else if (auto* pt = dyn_cast<PointerType>(t))
        {
            o["k"] = "ptr";
            o["t"] = type(pt->getPointeeType());
        }
        else if (auto* at = dyn_cast<ConstantArrayType>(t))
        {
            o["k"] = "array";
            o["t"] = type(at->getElementType());
            o["n"] = (int64_t)at->getSize().getZExtValue();
        }
        else if (t->isVoidType())
            o["k"] = "void";
        else if (t->isBooleanType())
            o["k"] = "bool";
        else if (auto* et = dyn_cast<EnumType>(t))
        {
            o["k"] = "enum";
            o["n"] = et->getDecl()->getQualifiedNameAsString();
            auto* ed = et->getDecl()->getDefinition();
            if (ed)
            {
                o["u"] = type(ed->getIntegerType());
                std::string en = ed->getQualifiedNameAsString();
                if (!enums.get(en))
                {
                    json::Object eo;
                    for (auto* ec : ed->enumerators())
                        eo[ec->getNameAsString()] = llvm::toString(ec->getInitVal(), 10);
                    enums[en] = std::move(eo);
                }
            }
        }
        else if (t->isIntegralOrEnumerationType())
        {
            o["k"] = "int";
            o["bits"] = (int)ctx.getIntWidth(QualType(t, 0));
            o["signed"] = t->isSignedIntegerType();
        }
        else if (t->isRealFloatingType())
        {
            o["k"] = "float";
            o["bits"] = (int)ctx.getTypeSize(QualType(t, 0));
        }
        else if (auto* rt = dyn_cast<RecordType>(t))
        {
            o["k"] = "rec";
            auto* rd = rt->getDecl();
            o["n"] = rd->getQualifiedNameAsString();
            json::Array args;
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
                for (auto& a : sp->getTemplateArgs().asArray())
                    args.push_back(targ(a));
            o["args"] = std::move(args);
            if (auto* cd = dyn_cast<CXXRecordDecl>(rd))
                if (cd->isLambda())
                    o["lambda"] = declId(cd);
            record(rd, key);
        }
        else if (isa<FunctionType>(t))
            o["k"] = "func";
        else
            o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }

    void record(const RecordDecl* rd0, const std::string& key)
    {
        if (records.get(key))
            return;
        auto* rd = dyn_cast_or_null<CXXRecordDecl>(rd0->getDefinition());
        if (!rd || rd->isLambda())
            return;
        if (!inPrefix(rd->getLocation()))
            return;
        records[key] = json::Object{};
        json::Object o;
        o["n"] = rd->getQualifiedNameAsString();
        json::Array bases;
        for (auto& b : rd->bases())
            bases.push_back(type(b.getType()));
        o["bases"] = std::move(bases);
        o["poly"] = rd->isPolymorphic();
        json::Array fields;
        for (auto* f : rd->fields())
        {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        o["loc"] = line(rd->getLocation());
        records[key] = std::move(o);
    }

    std::string callee(const FunctionDecl* fd)
    {
        std::string key = mangle(fd);
        if (callees.get(key))
            return key;
        callees[key] = json::Object{};
        json::Object o;
        o["n"] = fd->getQualifiedNameAsString();
        o["ret"] = type(fd->getReturnType());
        json::Array ps;
        for (auto* p : fd->parameters())
            ps.push_back(type(p->getType()));
        o["params"] = std::move(ps);
        if (fd->isOverloadedOperator())
            o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
        if (auto* ta = fd->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (auto& x : ta->asArray())
                a.push_back(targ(x));
            o["targs"] = std::move(a);
        }
        if (auto* md = dyn_cast<CXXMethodDecl>(fd))
        {
            o["cls"] = type(ctx.getRecordType(md->getParent()));
            o["static"] = md->isStatic();
            o["virtual"] = md->isVirtual();
            o["constm"] = md->isConst();
            if (auto* cd = dyn_cast<CXXConstructorDecl>(md))
            {
                o["ctor"] = true;
                if (cd->isCopyConstructor())
                    o["copyctor"] = true;
                if (cd->isMoveConstructor())
                    o["movector"] = true;
                if (cd->isDefaultConstructor())
                    o["defctor"] = true;
            }
            if (md->isDefaulted() || md->isImplicit())
                o["defaulted"] = true;
            if (isa<CXXConversionDecl>(md))
                o["conv"] = true;
            if (md->isCopyAssignmentOperator() || md->isMoveAssignmentOperator())
                o["assignop"] = true;
        }
        if (auto* pt = fd->getType()->getAs<FunctionProtoType>())
            if (pt->canThrow() == CT_Cannot)
                o["noexcept"] = true;
        callees[key] = std::move(o);
        return key;
    }

    static std::string fstr(const llvm::APFloat& f)
    {
        // exact decimal-free form: hexadecimal
        if (f.isNaN())
            return "nan";
        if (f.isInfinity())
            return f.isNegative() ? "-inf" : "inf";
        char buf[128];
        llvm::APFloat g = f;
        bool li;
        g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        g.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
        return buf;
    }

    bool constVal(const Expr* e, json::Object& o)
    {
        if (e->isValueDependent() || e->isTypeDependent())
            return false;
        QualType q = e->getType();
        if (q->isIntegralOrEnumerationType())
        {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
            {
                o["cv"] = llvm::toString(r.Val.getInt(), 10);
                return true;
            }
        }
        else if (q->isRealFloatingType())
        {
            llvm::APFloat f(0.0);
            if (e->EvaluateAsFloat(f, ctx, Expr::SE_NoSideEffects))
            {
                o["cv"] = fstr(f);
                return true;
            }
        }
        return false;
    }

    json::Value varDecl(const VarDecl* vd)
    {
        json::Object o;
        o["k"] = "Var";
        o["id"] = declId(vd);
        o["n"] = vd->getNameAsString();
        o["t"] = type(vd->getType());
        o["l"] = lineNo(vd->getLocation());
        if (vd->isStaticLocal())
            o["staticlocal"] = true;
        if (vd->getInit())
            o["init"] = expr(vd->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(vd))
        {
            json::Array bs;
            for (auto* b : dd->bindings())
            {
                json::Object bo;
                bo["id"] = declId(b);
                bo["n"] = b->getNameAsString();
                if (auto* hv = b->getHoldingVar())
                {
                    bo["hold"] = varDecl(hv);
                    bo["holdId"] = declId(hv);
                }
                else if (b->getBinding())
                    bo["e"] = expr(b->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bind"] = std::move(bs);
        }
        return o;
    }

    json::Value stmt(const Stmt* s)
    {
        if (!s)
            return nullptr;
        if (auto* e = dyn_cast<Expr>(s))
        {
            return json::Object{{"k", "Expr"}, {"l", lineNo(s->getBeginLoc())}, {"e", expr(e)}};
        }
        json::Object o;
        o["l"] = lineNo(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s))
        {
            o["k"] = "Compound";
            json::Array a;
            for (auto* c : x->body())
                a.push_back(stmt(c));
            o["c"] = std::move(a);
        }
        else if (auto* x = dyn_cast<DeclStmt>(s))
        {
            o["k"] = "Decl";
            json::Array a;
            for (auto* d : x->decls())
                if (auto* vd = dyn_cast<VarDecl>(d))
                    a.push_back(varDecl(vd));
            o["c"] = std::move(a);
        }
        else if (auto* x = dyn_cast<IfStmt>(s))
        {
            o["k"] = "If";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt())
                o["cvar"] = stmt(x->getConditionVariableDeclStmt());
            if (x->isConstexpr())
            {
                json::Object tmp;
                if (constVal(x->getCond(), tmp))
                    o["ccond"] = std::move(*tmp.get("cv"));
            }
            o["cond"] = expr(x->getCond());
            o["then"] = stmt(x->getThen());
            if (x->getElse())
                o["else"] = stmt(x->getElse());
        }
        else if (auto* x = dyn_cast<ForStmt>(s))
        {
            o["k"] = "For";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt())
                o["cvar"] = stmt(x->getConditionVariableDeclStmt());
            if (x->getCond())
                o["cond"] = expr(x->getCond());
            if (x->getInc())
                o["inc"] = expr(x->getInc());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<WhileStmt>(s))
        {
            o["k"] = "While";
            if (x->getConditionVariableDeclStmt())
                o["cvar"] = stmt(x->getConditionVariableDeclStmt());
            o["cond"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<DoStmt>(s))
        {
            o["k"] = "Do";
            o["cond"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<CXXForRangeStmt>(s))
        {
            o["k"] = "ForRange";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            o["range"] = expr(x->getRangeInit());
            o["var"] = varDecl(x->getLoopVariable());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<ReturnStmt>(s))
        {
            o["k"] = "Return";
            if (x->getRetValue())
                o["e"] = expr(x->getRetValue());
        }
        else if (isa<BreakStmt>(s))
            o["k"] = "Break";
        else if (isa<ContinueStmt>(s))
            o["k"] = "Continue";
        else if (isa<NullStmt>(s))
            o["k"] = "Null";
        else if (auto* x = dyn_cast<SwitchStmt>(s))
        {
            o["k"] = "Switch";
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            o["cond"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<CaseStmt>(s))
        {
            o["k"] = "Case";
            json::Object tmp;
            if (constVal(x->getLHS(), tmp))
                o["v"] = std::move(*tmp.get("cv"));
            o["body"] = stmt(x->getSubStmt());
        }
        else if (auto* x = dyn_cast<DefaultStmt>(s))
        {
            o["k"] = "Default";
            o["body"] = stmt(x->getSubStmt());
        }
        else if (auto* x = dyn_cast<AttributedStmt>(s))
            return stmt(x->getSubStmt());
        else if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            o["k"] = "Try";
            o["body"] = stmt(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                auto* h = x->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl())
                {
                    ho["t"] = type(h->getCaughtType());
                    ho["id"] = declId(h->getExceptionDecl());
                }
                ho["body"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        }
        else
        {
            o["k"] = "Unsupported";
            o["cls"] = s->getStmtClassName();
            // OpenMP and similar directives: expose the associated statement
            json::Array a;
            for (auto* c : s->children())
                if (c)
                    a.push_back(stmt(c));
            o["c"] = std::move(a);
        }
        return o;
    }


    json::Value expr(const Expr* e)
    {
        if (!e)
            return nullptr;
        // transparent wrappers
        if (auto* x = dyn_cast<ParenExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(x->getReplacement());
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return expr(x->getSemanticForm());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e))
            return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(x->getExpr());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e))
            if (x->getSourceExpr())
                return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
        {
            json::Object o;
            o["k"] = "StdInitList";
            o["t"] = type(e->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        json::Object o;
        o["t"] = type(e->getType());
        if (e->isLValue())
            o["lv"] = 1;
        else if (e->isXValue())
            o["lv"] = 2;
        if (auto* x = dyn_cast<IntegerLiteral>(e))
        {
            o["k"] = "Int";
            o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType());
        }
        else if (auto* x = dyn_cast<CharacterLiteral>(e))
        {
            o["k"] = "Int";
            o["v"] = std::to_string(x->getValue());
        }
        else if (auto* x = dyn_cast<FloatingLiteral>(e))
        {
            o["k"] = "Float";
            o["v"] = fstr(x->getValue());
        }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            o["k"] = "Bool";
            o["v"] = x->getValue();
        }
        else if (auto* x = dyn_cast<StringLiteral>(e))
        {
            o["k"] = "Str";
            if (x->getCharByteWidth() == 1)
                o["v"] = json::fixUTF8(x->getBytes());
        }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            o["k"] = "Null";
        else if (isa<CXXThisExpr>(e))
            o["k"] = "This";
        else if (auto* x = dyn_cast<DeclRefExpr>(e))
        {
            const ValueDecl* d = x->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                o["k"] = "Enum";
                o["n"] = ec->getQualifiedNameAsString();
                o["v"] = llvm::toString(ec->getInitVal(), 10);
            }
            else if (auto* fd = dyn_cast<FunctionDecl>(d))
            {
                o["k"] = "FuncRef";
                o["f"] = callee(fd);
            }
            else if (auto* vd = dyn_cast<VarDecl>(d))
            {
                o["k"] = "Ref";
                o["id"] = declId(vd);
                o["n"] = vd->getNameAsString();
                if (!vd->isLocalVarDeclOrParm() || vd->isStaticLocal())
                {
                    o["g"] = vd->getQualifiedNameAsString();
                    constVal(e, o);
                    if (!o.get("cv"))
                    {
                        // constants reached through an lvalue-to-rvalue conversion
                        if (const Expr* init = vd->getAnyInitializer())
                            if (vd->getType().isConstQualified() && !init->isValueDependent())
                                constVal(init, o);
                    }
                }
                else if (vd->getType().isConstQualified() && vd->isConstexpr())
                    constVal(e, o);
            }
            else if (auto* bd = dyn_cast<BindingDecl>(d))
            {
                o["k"] = "Ref";
                o["id"] = declId(bd);
                o["n"] = bd->getNameAsString();
                o["binding"] = true;
            }
            else
            {
                o["k"] = "OtherRef";
            }
        }
        else if (auto* x = dyn_cast<MemberExpr>(e))
        {
            auto* md = x->getMemberDecl();
            o["k"] = "Member";
            o["n"] = md->getNameAsString();
            o["arrow"] = x->isArrow();
            if (auto* vd = dyn_cast<VarDecl>(md))
            {
                o["k"] = "Ref";
                o["id"] = declId(vd);
                o["g"] = vd->getQualifiedNameAsString();
                constVal(e, o);
                if (!o.get("cv"))
                    if (const Expr* init = vd->getAnyInitializer())
                        if (vd->getType().isConstQualified() && !init->isValueDependent())
                            constVal(init, o);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(md))
            {
                o["k"] = "Enum";
                o["v"] = llvm::toString(ec->getInitVal(), 10);
            }
            else
            {
                if (auto* f = dyn_cast<FieldDecl>(md))
                    o["cls"] = type(ctx.getRecordType(f->getParent()));
                if (auto* m = dyn_cast<CXXMethodDecl>(md))
                    o["m"] = callee(m);
                o["e"] = expr(x->getBase());
            }
        }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
        {
            o["k"] = "Index";
            o["e"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
        }
        else if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            o["k"] = "Un";
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix())
                op = "post" + op;
            o["op"] = op;
            o["e"] = expr(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<CompoundAssignOperator>(e))
        {
            o["k"] = "CAssign";
            o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            o["ct"] = type(x->getComputationResultType());
            o["lt"] = type(x->getComputationLHSType());
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
        }
        else if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            o["k"] = "Bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
        }
        else if (auto* x = dyn_cast<ConditionalOperator>(e))
        {
            o["k"] = "Cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
        }
        else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            o["k"] = "OpCall";
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto* fd = x->getDirectCallee())
            {
                o["f"] = callee(fd);
                o["mem"] = isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic();
            }
            json::Array a;
            for (auto* c : x->arguments())
                a.push_back(expr(c));
            o["args"] = std::move(a);
        }
        else if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            o["k"] = "MCall";
            if (auto* fd = x->getMethodDecl())
                o["f"] = callee(fd);
            auto* obj = x->getImplicitObjectArgument();
            o["obj"] = expr(obj);
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
            {
                o["arrow"] = me->isArrow();
                if (me->hasQualifier())
                    o["nonvirt"] = true;
            }
            json::Array a;
            for (auto* c : x->arguments())
                a.push_back(expr(c));
            o["args"] = std::move(a);
        }
        else if (auto* x = dyn_cast<CallExpr>(e))
        {
            o["k"] = "Call";
            if (auto* fd = x->getDirectCallee())
            {
                o["f"] = callee(fd);
                if (x->getNumArgs() == 0)
                    constVal(e, o);
            }
            else
                o["fe"] = expr(x->getCallee());
            json::Array a;
            for (auto* c : x->arguments())
                a.push_back(expr(c));
            o["args"] = std::move(a);
        }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            o["k"] = "Construct";
            o["f"] = callee(x->getConstructor());
            if (x->isListInitialization())
                o["list"] = true;
            json::Array a;
            for (auto* c : x->arguments())
                a.push_back(expr(c));
            o["args"] = std::move(a);
        }
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            o["k"] = "InheritedCtor";
            o["f"] = callee(x->getConstructor());
        }
        else if (auto* x = dyn_cast<CastExpr>(e))
        {
            o["k"] = "Cast";
            o["ck"] = x->getCastKindName();
            o["impl"] = isa<ImplicitCastExpr>(e);
            o["e"] = expr(x->getSubExpr());
            if (x->getType()->isIntegralOrEnumerationType() && isa<ImplicitCastExpr>(e) && x->getCastKind() != CK_LValueToRValue)
            {
                json::Object tmp;
                if (isa<IntegerLiteral>(x->getSubExpr()->IgnoreParens()) && constVal(e, tmp))
                    o["cv"] = std::move(*tmp.get("cv"));
            }
        }
        else if (auto* x = dyn_cast<InitListExpr>(e))
        {
            const InitListExpr* sem = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!sem)
                sem = x;
            o["k"] = "InitList";
            json::Array a;
            for (auto* c : sem->inits())
                a.push_back(expr(c));
            o["c"] = std::move(a);
        }
        else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            o["k"] = "ZeroInit";
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            o["k"] = "Sizeof";
            constVal(e, o);
        }
        else if (auto* x = dyn_cast<LambdaExpr>(e))
        {
            o["k"] = "Lambda";
            o["id"] = declId(x->getLambdaClass());
            auto* m = x->getCallOperator();
            json::Array caps;
            auto ci = x->capture_init_begin();
            for (auto& c : x->captures())
            {
                json::Object co;
                if (c.capturesVariable())
                {
                    auto* v = c.getCapturedVar();
                    co["id"] = declId(v);
                    co["n"] = v->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (auto* vd = dyn_cast<VarDecl>(v))
                        if (vd->isInitCapture())
                            co["initcap"] = varDecl(vd);
                }
                else if (c.capturesThis())
                    co["this"] = true;
                caps.push_back(std::move(co));
                ++ci;
            }
            o["caps"] = std::move(caps);
            if (!m->getDescribedFunctionTemplate() && !x->isGenericLambda())
                o["fn"] = function(m);
            else
            {
                o["generic"] = true;
                json::Array insts;
                if (auto* ft = x->getLambdaClass()->getDependentLambdaCallOperator())
                    for (auto* sp : ft->specializations())
                        if (sp->hasBody())
                        {
                            json::Object io;
                            io["key"] = mangle(sp);
                            io["fn"] = function(sp);
                            insts.push_back(std::move(io));
                        }
                o["insts"] = std::move(insts);
            }
        }
        else if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            o["k"] = "New";
            o["at"] = type(x->getAllocatedType());
            if (x->getInitializer())
                o["e"] = expr(x->getInitializer());
        }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e))
        {
            o["k"] = "Delete";
            o["e"] = expr(x->getArgument());
        }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e))
        {
            o["k"] = "Throw";
            o["l"] = lineNo(x->getThrowLoc());
            if (x->getSubExpr())
            {
                o["et"] = type(x->getSubExpr()->getType());
            }
        }
        else if (auto* x = dyn_cast<TypeTraitExpr>(e))
        {
            o["k"] = "Bool";
            o["v"] = !x->isValueDependent() && x->getValue();
        }
        else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e))
        {
            o["k"] = "ArrayCopy";
            o["e"] = expr(x->getCommonExpr());
        }
        else
        {
            o["k"] = "Unsupported";
            o["cls"] = e->getStmtClassName();
        }
        return o;
    }

    json::Value function(const FunctionDecl* fd)
    {
        json::Object o;
        o["n"] = fd->getQualifiedNameAsString();
        o["loc"] = line(fd->getLocation());
        o["end"] = lineNo(fd->getEndLoc());
        o["ret"] = type(fd->getReturnType());
        json::Array ps;
        for (auto* p : fd->parameters())
        {
            json::Object po;
            po["id"] = declId(p);
            po["n"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* ta = fd->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (auto& x : ta->asArray())
                a.push_back(targ(x));
            o["targs"] = std::move(a);
        }
        if (auto* md = dyn_cast<CXXMethodDecl>(fd))
        {
            o["cls"] = type(ctx.getRecordType(md->getParent()));
            o["static"] = md->isStatic();
            o["virtual"] = md->isVirtual();
            o["constm"] = md->isConst();
            json::Array ov;
            for (auto* m : md->overridden_methods())
                ov.push_back(mangle(m));
            o["overrides"] = std::move(ov);
        }
        if (auto* cd = dyn_cast<CXXConstructorDecl>(fd))
        {
            o["ctor"] = true;
            json::Array is;
            for (auto* i : cd->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                    io["f"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer())
                    io["b"] = type(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer())
                    io["d"] = true;
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (auto* pt = fd->getType()->getAs<FunctionProtoType>())
            if (pt->canThrow() == CT_Cannot)
                o["noexcept"] = true;
        o["body"] = stmt(fd->getBody());
        return o;
    }

    void addFunction(const FunctionDecl* fd)
    {
        if (fd->isDependentContext() || !fd->doesThisDeclarationHaveABody())
            return;
        if (!fd->getBody())
            return;
        if (auto* md = dyn_cast<CXXMethodDecl>(fd))
            if (md->getParent()->isLambda() || md->getParent()->isDependentContext())
                return;
        if (!inPrefix(fd->getLocation()))
            return;
        std::string key = mangle(fd);
        if (functions.get(key))
            return;
        callee(fd);
        functions[key] = function(fd);
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Dumper& d;
    explicit Visitor(Dumper& x) : d(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool TraverseDecl(Decl* D)
    {
        // skip namespaces that cannot contain functions of interest
        if (auto* ns = dyn_cast_or_null<NamespaceDecl>(D))
        {
            if (ns->getDeclContext()->isTranslationUnit())
            {
                auto n = ns->getName();
                if (n == "std" || n == "boost" || n == "Eigen" || n == "__gnu_cxx" || n == "__cxxabiv1")
                    return true;
            }
        }
        return RecursiveASTVisitor::TraverseDecl(D);
    }
    bool VisitFunctionDecl(FunctionDecl* fd)
    {
        d.addFunction(fd);
        return true;
    }
    bool VisitVarDecl(VarDecl* vd)
    {
        if (vd->hasGlobalStorage() && !vd->isStaticLocal() && !vd->getDeclContext()->isDependentContext() && d.inPrefix(vd->getLocation()) && !vd->getType()->isDependentType())
        {
            std::string n = vd->getQualifiedNameAsString();
            if (!d.globals.get(n) || vd->getInit())
            {
                json::Object o;
                o["t"] = d.type(vd->getType());
                o["id"] = d.declId(vd);
                if (auto* init = vd->getAnyInitializer())
                    if (!init->isValueDependent())
                    {
                        d.constVal(init, o);
                        o["init"] = d.expr(init);
                    }
                d.globals[n] = std::move(o);
            }
        }
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        Dumper d(ctx);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Object root;
        root["errors"] = ctx.getDiagnostics().hasErrorOccurred();
        root["types"] = std::move(d.types);
        root["records"] = std::move(d.records);
        root["enums"] = std::move(d.enums);
        root["functions"] = std::move(d.functions);
        root["callees"] = std::move(d.callees);
        root["globals"] = std::move(d.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(root));
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        ci.getDiagnostics().setIgnoreAllWarnings(true);
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv)
{
    // cxxdump OUT PREFIX SRC -- flags...
    if (argc < 5)
        return 2;
    gOut = argv[1];
    gPrefix = argv[2];
    std::string src = argv[3];
    int n = argc - 4;
    std::string err;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv + 4, err);
    if (!db)
    {
        llvm::errs() << err << "\n";
        return 2;
    }
    tooling::ClangTool tool(*db, {src});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
