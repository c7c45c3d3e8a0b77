// C31: parsing C++. Monitors compare the parse tree with the declarations the text was generated from, and check that every token
// of every tree lies in the text where it says, that scopes are entered and left in balance, and that errors are reported.
#include "plyvf.h"
#include <ply-cpp/ParseAPI.h>
#include <ply-cpp/Preprocessor.h>
#include <ply-cpp/ErrorFormatting.h>
#include <ply-reflect/Base.h>

using namespace ply;
using namespace vf;
using cpp::Token;
namespace g = cpp::grammar;

namespace {

struct Visor : cpp::ParseSupervisor {
    std::vector<Owned<cpp::BaseError>> errors;
    std::vector<Str> notes; // comments, directives and macros
    std::vector<void*> open;
    int64_t enters = 0, exits = 0, decls = 0, enors = 0;
    std::vector<Str> classNames; // at each record and enum
    bool balanced = true;
    void enter(AnyObject node) override {
        enters++;
        open.push_back(node.data);
        if (node.is<g::DeclSpecifier::Record>() || node.is<g::DeclSpecifier::Enum_>())
            classNames.push_back(str(this->getClassName()));
    }
    void exit(AnyObject node) override {
        exits++;
        balanced = balanced && !open.empty() && open.back() == node.data;
        if (!open.empty())
            open.pop_back();
    }
    void onGotDeclaration(const g::Declaration&) override {
        decls++;
    }
    void onGotEnumerator(const g::InitEnumeratorWithComma*) override {
        enors++;
    }
    void gotMacroOrComment(Token t) override {
        notes.push_back(str(t.identifier));
    }
    bool handleError(Owned<cpp::BaseError>&& err) override {
        errors.push_back(std::move(err));
        return true;
    }
};

//----------------------------------------------------------
// Canonical text of a parse tree
struct Printer {
    const Str& src;
    Str tok(const Token& t) {
        return t.isValid() ? str(t.identifier) : Str();
    }
    Str span(const Token& a, const Token& b) {
        if (!a.isValid() || !b.isValid())
            return a.isValid() ? "<no end>" : "";
        int64_t from = a.linearLoc, to = b.linearLoc + b.identifier.numBytes;
        return from >= 0 && from <= to && to <= (int64_t) src.size() ? src.substr((size_t) from, (size_t)(to - from)) : Str("<bad>");
    }
    Str args(const Array<g::TemplateArgumentWithComma>& args) {
        Str s;
        for (auto& a : args) {
            if (auto t = a.type.typeID())
                s += specs(t->declSpecifierSeq) + chain(t->abstractDcor.get());
            else if (auto u = a.type.unknown())
                s += "?" + tok(u->startToken) + "?" + tok(u->endToken);
            s += tok(a.comma);
        }
        return s;
    }
    Str nested(const Array<g::NestedNameComponent>& comps) {
        Str s;
        for (auto& c : comps) {
            if (auto id = c.type.identifierOrTemplated()) {
                s += tok(id->name);
                if (id->openAngled.isValid())
                    s += "<" + args(id->args) + tok(id->closeAngled);
            } else if (auto d = c.type.declType())
                s += tok(d->keyword) + tok(d->openParen) + tok(d->closeParen);
            s += tok(c.sep);
        }
        return s;
    }
    Str qid(const g::QualifiedID& q) {
        Str s = nested(q.nestedName);
        if (auto id = q.unqual.identifier())
            s += tok(id->name);
        else if (auto t = q.unqual.templateID())
            s += tok(t->name) + "<" + args(t->args) + tok(t->closeAngled);
        else if (auto d = q.unqual.destructor())
            s += tok(d->tilde) + tok(d->name);
        else if (auto o = q.unqual.operatorFunc())
            s += tok(o->keyword) + tok(o->punc) + tok(o->punc2);
        else if (auto c = q.unqual.conversionFunc())
            s += tok(c->keyword) + " " + specs(c->declSpecifierSeq) + chain(c->abstractDcor.get());
        else if (auto d = q.unqual.declType())
            s += tok(d->keyword) + tok(d->openParen) + tok(d->closeParen);
        return s;
    }
    Str specs(const Array<Owned<g::DeclSpecifier>>& seq) {
        Str s;
        for (auto& d : seq) {
            if (auto k = d->keyword())
                s += tok(k->token) + " ";
            else if (auto l = d->langLinkage())
                s += tok(l->extern_) + tok(l->literal) + " ";
            else if (auto r = d->record()) {
                s += tok(r->classKey) + " " + qid(r->qid);
                for (auto& v : r->virtSpecifiers)
                    s += " " + tok(v);
                if (r->colon.isValid())
                    s += ":";
                for (auto& b : r->baseSpecifierList)
                    s += "[" + tok(b.accessSpec) + " " + qid(b.baseQid) + tok(b.comma) + "]";
                if (r->openCurly.isValid())
                    s += "{" + decls(r->visor_decls) + tok(r->closeCurly);
                s += " ";
            } else if (auto e = d->enum_()) {
                s += tok(e->enumKey) + " " + tok(e->classKey) + " " + qid(e->qid) + tok(e->basePunc) + qid(e->base);
                if (e->openCurly.isValid()) {
                    s += "{";
                    for (auto& en : e->enumerators)
                        s += tok(en->identifier) + init(en->init) + tok(en->comma) + " ";
                    s += tok(e->closeCurly);
                }
                s += " ";
            } else if (auto t = d->typeID()) {
                s += tok(t->typename_) + (t->typename_.isValid() ? " " : "") + qid(t->qid) + " ";
            } else if (auto t = d->typeParam()) {
                s += tok(t->keyword) + tok(t->ellipsis) + " ";
            } else if (auto e = d->ellipsis())
                s += tok(e->ellipsisToken) + " ";
        }
        return s;
    }
    Str params(const g::ParamDeclarationList& list) {
        Str s = tok(list.openPunc);
        for (auto& p : list.params)
            s += specs(p.declSpecifierSeq) + chain(p.dcor.prod.get()) + qid(p.dcor.qid) + init(p.init) + tok(p.comma);
        return s + tok(list.closePunc);
    }
    Str chain(const g::DeclaratorProduction* p) {
        Str s;
        for (; p; p = p->target.get()) {
            if (p->type.parenthesized())
                s += "()";
            else if (auto t = p->type.pointerTo())
                s += nested(t->nestedName) + tok(t->punc);
            else if (auto a = p->type.arrayOf())
                s += tok(a->openSquare) + tok(a->closeSquare);
            else if (auto f = p->type.function()) {
                s += params(f->params);
                for (auto& q : f->qualifiers.tokens)
                    s += " " + tok(q);
                s += tok(f->arrow) + qid(f->trailingRetType);
            } else if (auto q = p->type.qualifier())
                s += tok(q->keyword) + " ";
        }
        return s;
    }
    Str init(const g::Initializer& in) {
        if (auto a = in.assignment()) {
            Str s = a->equalSign.isValid() ? "=" : "=*";
            if (auto e = a->type.expression())
                s += span(e->start, e->end);
            else if (auto t = a->type.typeID())
                s += specs(t->declSpecifierSeq) + chain(t->abstractDcor.get());
            return s;
        }
        if (auto f = in.functionBody())
            return tok(f->colon) + tok(f->openCurly) + tok(f->closeCurly);
        if (auto b = in.bitField())
            return tok(b->colon) + span(b->expressionStart, b->expressionEnd);
        return "";
    }
    Str decl(const g::Declaration& d) {
        if (auto n = d.namespace_())
            return tok(n->keyword) + " " + qid(n->qid) + tok(n->openCurly) + decls(n->visor_decls) + tok(n->closeCurly) + "\n";
        if (auto t = d.template_())
            return tok(t->keyword) + params(t->params) + " " + (t->visor_decl ? decl(*t->visor_decl) : Str("(none)\n"));
        if (auto s = d.simple()) {
            Str r = specs(s->declSpecifierSeq);
            for (auto& id : s->initDeclarators)
                r += qid(id.dcor.qid) + "|" + chain(id.dcor.prod.get()) + "|" + init(id.init) + tok(id.comma);
            return r + tok(s->semicolon) + "\n";
        }
        if (auto a = d.accessSpecifier())
            return tok(a->keyword) + tok(a->colon) + "\n";
        if (auto a = d.staticAssert())
            return tok(a->keyword) + tok(a->argList.openParen) + tok(a->argList.closeParen) + tok(a->semicolon) + "\n";
        if (auto u = d.usingDirective())
            return tok(u->using_) + " " + tok(u->namespace_) + " " + qid(u->qid) + tok(u->semicolon) + "\n";
        if (auto a = d.alias())
            return tok(a->using_) + " " + tok(a->name) + tok(a->equals) + specs(a->declSpecifierSeq) + chain(a->dcor.prod.get()) + tok(a->semicolon) + "\n";
        if (auto l = d.linkage())
            return tok(l->extern_) + tok(l->literal) + tok(l->openCurly) + decls(l->visor_decls) + tok(l->closeCurly) + "\n";
        if (auto e = d.empty())
            return tok(e->semicolon) + "\n";
        return "?\n";
    }
    Str decls(const Array<g::Declaration>& ds) {
        Str s;
        for (auto& d : ds)
            s += decl(d);
        return s;
    }
};

//----------------------------------------------------------
// Walks every token in a tree through its type descriptors
struct TokenWalk {
    const Str& src;
    StringView contents;
    int64_t tokens = 0;
    Str problem;
    void visit(void* data, TypeDescriptor* type) {
        TypeKey* key = type->typeKey;
        if (key == TypeDescriptor_Struct::typeKey) {
            auto* st = type->cast<TypeDescriptor_Struct>();
            if (st == getTypeDescriptor<Token>()) {
                auto* t = (const Token*) data;
                if (t->isValid() && t->type != Token::EndOfFile) {
                    tokens++;
                    bool ok = t->linearLoc >= 0 && t->linearLoc + t->identifier.numBytes <= contents.numBytes && contents.bytes + t->linearLoc == t->identifier.bytes && t->identifier.numBytes > 0;
                    if (!ok && problem.empty())
                        problem = vf::fmt("token '%s' at %lld", ok ? "" : esc(str(t->identifier)).c_str(), (long long) t->linearLoc);
                }
                return;
            }
            for (auto& m : st->members)
                visit(PLY_PTR_OFFSET(data, m.offset), m.type);
        } else if (key == TypeDescriptor_Array::typeKey) {
            auto* at = type->cast<TypeDescriptor_Array>();
            auto* arr = (details::BaseArray*) data;
            for (u32 i = 0; i < arr->m_numItems; i++)
                visit(PLY_PTR_OFFSET(arr->m_items, at->itemType->fixedSize * i), at->itemType);
        } else if (key == TypeDescriptor_Switch::typeKey) {
            auto* sw = type->cast<TypeDescriptor_Switch>();
            visit(PLY_PTR_OFFSET(data, sw->storageOffset), sw->states[*(u16*) data].structType);
        } else if (key == TypeDescriptor_Owned::typeKey) {
            auto* ow = type->cast<TypeDescriptor_Owned>();
            if (*(void**) data)
                visit(*(void**) data, ow->targetType);
        }
    }
};

//----------------------------------------------------------
// Generates declarations and the canonical text of their parse trees
struct Gen {
    Rng& r;
    Str text;
    std::vector<Str> notes, classNames, scopes;
    int64_t enumerators = 0;
    u32 depth = 0;
    bool spaced = false;
    Gen(Rng& r) : r(r) {
    }
    // Writes a token with random spacing
    void put(const Str& s) {
        if (!text.empty()) {
            char a = text.back(), b = s[0];
            bool need = (idc(a) && (idc(b) || b == '"')) || (!idc(a) && !idc(b) && Str("(){}[];,\"'").find(a) == Str::npos && Str("(){}[];,\"'").find(b) == Str::npos) || (a == '.' || b == '.');
            if (a == '>' || b == '>' || a == '<')
                need = need || false;
            static const char* const ws[] = {" ", "  ", "\n", "\r\n", "\n    ", "\t"};
            if (need || r.chance(1, 3))
                text += r.chance(3, 4) ? " " : ws[r.below(6)];
        }
        text += s;
    }
    static bool idc(char c) {
        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
    }
    Str name() {
        static const char* const names[] = {"a", "foo", "Bar", "x1", "_y", "value", "T", "Node", "intern", "classy", "constant", "operatorX", "final_", "enumerate", "zz"};
        Str s = names[r.below(15)];
        if (r.chance(1, 2))
            s += std::to_string(r.below(100));
        return s;
    }
    Str ident() {
        Str s = name();
        put(s);
        return s;
    }
    Str qualified(u32 d = 0) {
        Str s;
        for (u32 n = r.chance(1, 4) ? 1 + r.below(2) : 0; n > 0; n--) {
            s += ident();
            if (d < 2 && r.chance(1, 5))
                s += templateArgs(d + 1);
            put("::");
            s += "::";
        }
        return s + ident();
    }
    Str templateArgs(u32 d) {
        put("<");
        Str s = "<";
        for (u32 i = 0, n = 1 + r.below(2); i < n; i++) {
            if (i) {
                put(",");
                s += ",";
            }
            switch (r.below(16)) {
                case 0:
                    put("3");
                    s += "?3?3";
                    break;
                case 1:
                    put("-");
                    put("4");
                    s += "?-?4";
                    break;
                case 2:
                    put("(");
                    put("5");
                    put(r.pick(std::vector<Str>{",", ">", "<", "+", ">="}));
                    if (r.chance(1, 2)) {
                        put("(");
                        put(")");
                    }
                    put("6");
                    put(")");
                    s += "?(?)";
                    break;
                case 3:
                    put("'c'");
                    s += "?'c'?'c'";
                    break;
                default:
                    s += typeID(d + 1);
            }
        }
        put(">");
        return s + ">";
    }
    // A type specifier sequence
    Str type(u32 d = 0) {
        Str s;
        if (r.chance(1, 5)) {
            put("const");
            s += "const ";
        }
        u32 k = r.below(10);
        if (k < 5) {
            Str t = r.pick(std::vector<Str>{"int", "void", "bool", "char", "auto", "u32", "double", "String", "float"});
            put(t);
            return s + t + " ";
        }
        if (k == 5) {
            put("unsigned");
            put("int");
            return s + "unsigned int ";
        }
        if (k == 6 && d < 3) {
            Str q = qualified(d);
            return s + q + templateArgs(d + 1) + " ";
        }
        if (k == 7) {
            put("typename");
            Str q = ident();
            put("::");
            q += "::" + ident();
            return s + "typename " + q + " ";
        }
        s += qualified(d) + " ";
        if (r.chance(1, 8)) {
            put("const");
            s += "const ";
        }
        return s;
    }
    // Pointers and references; the productions are listed from the last one
    Str pointers() {
        Str s;
        for (u32 n = r.chance(1, 3) ? 1 + r.below(2) : 0; n > 0; n--) {
            if (r.chance(1, 12)) {
                Str q = ident();
                put("::");
                put("*");
                s = q + "::*" + s;
            } else {
                put("*");
                s = "*" + s;
            }
            if (r.chance(1, 4)) {
                put("const");
                s = "const " + s;
            }
        }
        if (r.chance(1, 5)) {
            Str q = r.chance(1, 3) ? "&&" : "&";
            put(q);
            s = q + s;
        }
        return s;
    }
    Str typeID(u32 d) {
        Str s = type(d);
        return s + pointers();
    }
    Str expr(u32 d = 0) { // returns the text as written
        size_t from = text.size();
        exprTokens(d);
        Str s = text.substr(from);
        return s.substr(s.find_first_not_of(" \t\r\n"));
    }
    void exprTokens(u32 d) {
        u32 k = r.below(d > 2 ? 5 : 16);
        switch (k) {
            case 0:
            case 1:
                put(r.pick(std::vector<Str>{"0", "1", "42", "0x1f", "1.5f", "7U", "0.0"}));
                break;
            case 2:
                put(r.pick(std::vector<Str>{"\"a\"", "'c'", "\"(\"", "\"}\"", "\";\\\"\"", "u8\"x\""}));
                if (r.chance(1, 3))
                    put("\"b\"");
                break;
            case 3:
            case 4:
                ident();
                break;
            case 5:
                ident();
                put("::");
                ident();
                break;
            case 6:
            case 7:
                ident();
                put("(");
                for (u32 i = 0, n = r.below(3); i < n; i++) {
                    if (i)
                        put(",");
                    exprTokens(d + 1);
                }
                put(")");
                break;
            case 8:
                if (r.chance(1, 2))
                    ident();
                put("{");
                for (u32 i = 0, n = r.below(3); i < n; i++) {
                    if (i)
                        put(",");
                    exprTokens(d + 1);
                }
                put("}");
                break;
            case 9:
                put(r.pick(std::vector<Str>{"!", "&", "-"}));
                exprTokens(d + 1);
                break;
            case 10:
                put("(");
                exprTokens(d + 1);
                put(")");
                if (r.chance(1, 2))
                    ident();
                break;
            case 11:
                put(r.pick(std::vector<Str>{"1", "x"}));
                put("?");
                exprTokens(d + 1);
                put(":");
                exprTokens(d + 1);
                break;
            case 12: {
                put("[");
                put("]");
                put("(");
                if (r.chance(1, 2)) {
                    typeID(2);
                    ident();
                }
                put(")");
                if (r.chance(1, 3)) {
                    put("->");
                    typeID(2);
                }
                body();
                break;
            }
            default: {
                static const char* const ops[] = {"|", "==", "!=", "<=", ">=", "<<", ">>", "+", "-", "%", "->", "*", ".", "/", ">", "<"};
                u32 o = r.below(16);
                put(o >= 14 || r.chance(1, 2) ? Str(std::to_string(1 + r.below(9))) : name());
                if (idc(text.back()) && o == 12)
                    put(")"), text.pop_back(); // keep "1." apart
                put(ops[o]);
                exprTokens(d + 1);
            }
        }
    }
    // A function body: anything with balanced brackets
    void body() {
        put("{");
        for (u32 n = r.below(8); n > 0; n--) {
            switch (r.below(8)) {
                case 0:
                    put("(");
                    put("x");
                    put(")");
                    break;
                case 1:
                    if (depth < 6) {
                        depth++;
                        body();
                        depth--;
                    }
                    break;
                case 2:
                    put("[");
                    put("1");
                    put("]");
                    break;
                case 3:
                    put(r.pick(std::vector<Str>{"return", "if", "class", "struct", "namespace", "template", "operator", "enum", "public"}));
                    break;
                case 4:
                    put(r.pick(std::vector<Str>{"<", ">", "&&", "||", "::", "?", ":", ";", "+=", "~", "..."}));
                    break;
                case 5:
                    put(r.pick(std::vector<Str>{"\"}\"", "'{'", "\")\"", "R\"(})\"", "12"}));
                    break;
                default:
                    put(name());
                    put(";");
            }
        }
        put("}");
    }
    Str params(bool defaults) {
        put("(");
        Str s = "(";
        u32 n = r.chance(1, 3) ? 0 : 1 + r.below(3);
        bool def = false;
        for (u32 i = 0; i < n; i++) {
            if (i) {
                put(",");
                s += ",";
            }
            if (i + 1 == n && r.chance(1, 12)) {
                put("...");
                s += "... ";
                continue;
            }
            s += type(1);
            Str p = pointers();
            Str nm, arr;
            if (r.chance(3, 4)) {
                nm = ident();
                if (r.chance(1, 10)) {
                    put("[");
                    put("3");
                    put("]");
                    arr = "[]";
                }
            }
            s += arr + p + nm;
            if (!nm.empty() && defaults && (def || r.chance(1, 8))) {
                def = true;
                put("=");
                s += "=" + expr(2);
            }
        }
        put(")");
        return s + ")";
    }
    Str qualifiers() {
        Str s;
        for (const char* q : {"const", "override"})
            if (r.chance(1, 5)) {
                put(q);
                s += Str(" ") + q;
            }
        if (s.empty() && r.chance(1, 10)) {
            put("&&");
            s += " &&";
        }
        return s;
    }
    Str funcEnd(bool memberInits, bool canDefault) {
        u32 k = r.below(6);
        if (k < 2) {
            put(";");
            return "|;\n";
        }
        if (k == 2 && canDefault) {
            put("=");
            Str e = r.pick(std::vector<Str>{"0", "default", "delete"});
            put(e);
            put(";");
            return "|=;\n"; // the parser doesn't keep what is after the equal sign
        }
        Str s = "|";
        if (memberInits && r.chance(1, 2)) {
            put(":");
            s += ":";
            for (u32 i = 0, n = 1 + r.below(3); i < n; i++) {
                if (i)
                    put(",");
                ident();
                if (r.chance(1, 3)) {
                    put("{");
                    if (r.chance(1, 2))
                        put("1");
                    put("}");
                } else {
                    put("(");
                    if (r.chance(1, 2))
                        ident();
                    put(")");
                }
            }
        }
        body();
        return s + "{}\n";
    }
    Str functionSpecs(bool member) {
        Str s;
        for (const char* k : {"static", "inline", "constexpr"})
            if (r.chance(1, 8)) {
                put(k);
                s += Str(k) + " ";
            }
        if (member && r.chance(1, 5)) {
            put("virtual");
            s += "virtual ";
        }
        return s;
    }
    Str function(bool member) {
        Str s = functionSpecs(member);
        s += type();
        Str p = pointers();
        Str q;
        if (r.chance(1, 5)) {
            if (!member && r.chance(1, 2)) {
                q = ident() + "::";
                put("::");
            }
            Str op = r.pick(std::vector<Str>{"<<", ">>", "+", "++", "-", "--", "*", "->", "/", "=", "==", "!=", "+=", "-=", "*=", "/=", "<", ">", "<=", ">=", "()", "[]"});
            put("operator");
            if (op.size() == 2 && (op[0] == '(' || op[0] == '[')) {
                put(op.substr(0, 1));
                put(op.substr(1));
            } else {
                put(op);
                text += " ";
            }
            q += "operator" + op;
        } else
            q = member ? ident() : qualified(1);
        Str f = params(true) + qualifiers();
        if (r.chance(1, 12)) {
            put("->");
            f += "->" + qualified(1);
        }
        return s + q + "|" + f + p + funcEnd(false, true);
    }
    Str variable(bool member) {
        Str s;
        for (const char* k : {"static", "const", "mutable", "extern"})
            if (r.chance(1, 8)) {
                put(k);
                s += Str(k) + " ";
                break;
            }
        s += type();
        for (u32 i = 0, n = r.chance(1, 4) ? 2 + r.below(2) : 1; i < n; i++) {
            if (i) {
                put(",");
                s += ",";
            }
            Str p = pointers(), a;
            s += member ? ident() : qualified(1);
            for (u32 k = r.chance(1, 5) ? 1 + r.below(2) : 0; k > 0; k--) {
                put("[");
                if (r.chance(2, 3))
                    expr(2);
                put("]");
                a += "[]";
            }
            s += "|" + a + p + "|";
            u32 k = r.below(8);
            if (k < 2) {
                put("=");
                s += "=" + expr();
            } else if (k == 2) {
                put("{");
                for (u32 j = 0, m = r.below(3); j < m; j++) {
                    if (j)
                        put(",");
                    expr(1);
                }
                put("}");
                s += "=*";
            } else if (k == 3 && member && p.empty() && a.empty()) {
                put(":");
                s += ":" + expr(2);
            }
        }
        put(";");
        return s + ";\n";
    }
    Str scopeName() const {
        Str s;
        for (size_t i = 0; i < scopes.size(); i++)
            s += (i ? "::" : "") + scopes[i];
        return s;
    }
    // A record specifier without what follows the closing brace
    Str record(bool named) {
        Str key = r.pick(std::vector<Str>{"struct", "class", "union"});
        put(key);
        Str s = key + " ";
        Str nm, args;
        if (named) {
            nm = ident();
            s += nm;
            if (r.chance(1, 12)) {
                args = templateArgs(2);
                s += args;
            }
            if (r.chance(1, 10)) {
                put("final");
                s += " final";
            }
            if (r.chance(1, 4)) {
                put(":");
                s += ":";
                for (u32 i = 0, n = 1 + r.below(2); i < n; i++) {
                    if (i)
                        put(",");
                    s += "[";
                    if (r.chance(1, 2)) {
                        Str a = r.pick(std::vector<Str>{"public", "private", "protected"});
                        put(a);
                        s += a;
                    }
                    s += " " + qualified(1);
                    if (r.chance(1, 4))
                        s += templateArgs(2);
                    s += i + 1 < n ? ",]" : "]";
                }
            }
        }
        put("{");
        s += "{";
        scopes.push_back(nm);
        classNames.push_back(scopeName());
        depth++;
        for (u32 n = r.below(depth > 3 ? 3 : 6); n > 0; n--)
            s += decl(true, nm);
        depth--;
        scopes.pop_back();
        put("}");
        return s + "} ";
    }
    Str enumeration() {
        put("enum");
        Str s = "enum ";
        if (r.chance(1, 3)) {
            put("class");
            s += "class";
        }
        Str nm = r.chance(1, 8) && s == "enum " ? Str() : ident();
        s += " " + nm;
        if (!nm.empty() && r.chance(1, 3)) {
            put(":");
            s += ":" + qualified(2);
        }
        put("{");
        s += "{";
        scopes.push_back(nm);
        classNames.push_back(scopeName());
        scopes.pop_back();
        for (u32 i = 0, n = r.below(5); i < n; i++) {
            enumerators++;
            s += ident();
            if (r.chance(1, 3)) {
                put("=");
                s += "=" + expr(2);
            }
            if (i + 1 < n || r.chance(1, 2)) {
                put(",");
                s += ",";
            }
            s += " ";
        }
        put("}");
        return s + "} ";
    }
    void note() {
        // where a declaration may begin
        u32 k = r.below(4);
        Str s;
        if (k == 0)
            s = "// a comment { ' \"\n";
        else if (k == 1)
            s = "/* a ( comment\n */";
        else {
            if (text.empty() || text.back() != '\n')
                text += "\n";
            s = r.pick(std::vector<Str>{"#include <x.h>\n", "#if defined(A) { \n", "#endif\n", "#pragma once\n", "#define X(a) {\n"});
        }
        text += s;
        notes.push_back(s);
    }
    Str decl(bool member, const Str& cls = Str()) {
        if (r.chance(1, 6))
            note();
        u32 k = r.below(26);
        if (depth > 4 && k >= 14)
            k = r.below(14);
        if (k < 5)
            return function(member);
        if (k < 9)
            return variable(member);
        if (k == 9) {
            put(";");
            return ";\n";
        }
        if (k == 10) {
            put("static_assert");
            put("(");
            expr(1);
            put(",");
            put("\"no )\"");
            put(")");
            put(";");
            return "static_assert();\n";
        }
        if (k == 11) {
            put("using");
            Str s = "using " + ident();
            put("=");
            s += "=" + typeID(0);
            put(";");
            return s + ";\n";
        }
        if (k == 12) {
            if (member) {
                Str a = r.pick(std::vector<Str>{"public", "private", "protected"});
                put(a);
                put(":");
                return a + ":\n";
            }
            put("using");
            put("namespace");
            Str q = qualified(3);
            put(";");
            return "using namespace " + q + ";\n";
        }
        if (k == 13) {
            // forward declaration, or friend
            Str key = r.pick(std::vector<Str>{"struct", "class", "union"}), s;
            if (member && r.chance(1, 2)) {
                put("friend");
                s = "friend ";
            }
            put(key);
            s += key + " " + ident() + " ";
            put(";");
            return s + "\n;\n";
        }
        if (k < 18) {
            Str s;
            if (r.chance(1, 10)) {
                put("typedef");
                s += record(r.chance(1, 2)) + ident() + "||;\n";
                put(";");
                return s;
            }
            s += record(r.chance(7, 8));
            if (r.chance(1, 6)) {
                s += ident() + "||;\n";
                put(";");
                return s;
            }
            // the semicolon is read as an empty declaration
            put(";");
            return s + "\n;\n";
        }
        if (k < 20) {
            Str s = enumeration();
            if (r.chance(1, 6)) {
                s += ident() + "||;\n";
                put(";");
                return s;
            }
            put(";");
            return s + "\n;\n";
        }
        if (k == 20) {
            // template
            put("template");
            put("<");
            Str s = "template<";
            u32 n = r.below(4);
            for (u32 i = 0; i < n; i++) {
                if (i) {
                    put(",");
                    s += ",";
                }
                u32 t = r.below(5);
                if (t < 3) {
                    put("typename");
                    bool pack = i + 1 == n && r.chance(1, 4);
                    if (pack)
                        put("...");
                    s += "typename" + Str(pack ? "... " : " ");
                    Str nm = r.chance(4, 5) ? ident() : Str();
                    s += nm;
                    if (!pack && r.chance(1, 4)) {
                        put("=");
                        s += "=" + typeID(1);
                    }
                } else {
                    Str ty = r.pick(std::vector<Str>{"int", "u32", "bool", "A"});
                    put(ty);
                    s += ty + " " + ident();
                    if (r.chance(1, 4)) {
                        put("=");
                        put("3");
                        s += "=3";
                    }
                }
            }
            put(">");
            s += "> ";
            if (r.chance(1, 2))
                return s + function(member);
            s += record(true);
            put(";");
            return s + "\n;\n";
        }
        if (member) {
            if (!cls.empty()) {
                if (k < 24) {
                    Str s;
                    if (r.chance(1, 4)) {
                        put("explicit");
                        s = "explicit ";
                    }
                    put(cls);
                    Str f = params(true);
                    return s + cls + "|" + f + funcEnd(true, true);
                }
                if (k == 24) {
                    Str s;
                    if (r.chance(1, 3)) {
                        put("virtual");
                        s = "virtual ";
                    }
                    put("~");
                    put(cls);
                    put("(");
                    put(")");
                    return s + "~" + cls + "|()" + funcEnd(false, true);
                }
            }
            // conversion function
            put("operator");
            Str t;
            bool before = r.chance(1, 5), after = r.chance(1, 5);
            auto qual = [&]() { return Str(r.chance(1, 2) ? "const" : "volatile"); };
            if (before) {
                t = qual();
                put(t);
                t += " ";
            }
            Str base = r.pick(std::vector<Str>{"bool", "int", "Foo"});
            put(base);
            t += base;
            if (after) {
                Str q = qual();
                put(q);
                t += " " + q;
            }
            Str p;
            for (u32 n = r.chance(1, 3) ? 1 + r.below(3) : 0; n > 0; n--) {
                Str op = r.chance(2, 3) ? "*" : r.pick(std::vector<Str>{"&", "&&"});
                put(op);
                p = op + p;
                if (op == "*" && r.chance(1, 2)) {
                    Str q = qual();
                    put(q);
                    p = q + " " + p;
                }
            }
            put("(");
            put(")");
            return "operator " + t + " " + p + "|()" + qualifiers() + funcEnd(false, false);
        }
        if (k == 21) {
            // constructor or destructor outside of the class
            Str s, c = name();
            put(c);
            put("::");
            if (r.chance(1, 3)) {
                put("~");
                put(c);
                put("(");
                put(")");
                return c + "::~" + c + "|()" + funcEnd(false, true);
            }
            put(c);
            Str f = params(true);
            return c + "::" + c + "|" + f + funcEnd(true, true);
        }
        if (k == 22) {
            put("extern");
            put("\"C\"");
            if (r.chance(1, 2)) {
                put("{");
                Str s = "extern\"C\"{";
                depth++;
                for (u32 n = r.below(4); n > 0; n--)
                    s += decl(false);
                depth--;
                put("}");
                return s + "}\n";
            }
            return "extern\"C\" " + function(false);
        }
        // namespace
        put("namespace");
        Str s = "namespace ", q;
        if (r.chance(5, 6)) {
            q = ident();
            s += q;
        }
        put("{");
        s += "{";
        scopes.push_back(q);
        depth++;
        for (u32 n = r.below(5); n > 0; n--)
            s += decl(false);
        depth--;
        scopes.pop_back();
        put("}");
        return s + "}\n";
    }
};

Str firstDiff(const Str& a, const Str& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    size_t from = i > 60 ? i - 60 : 0;
    return "..." + esc(a.substr(from, 140)) + ", not ..." + esc(b.substr(from, 140));
}

void checkTree(const Str& src, const cpp::PPVisitedFiles& vfiles, g::TranslationUnit& tu, Visor& visor) {
    TokenWalk w{src, vfiles.sourceFiles[0].contents.view()};
    w.visit(&tu, getTypeDescriptor<g::TranslationUnit>());
    count("treeTokens", w.tokens);
    VF_CHECK((w.problem.empty()), "token", "%s in %s", w.problem.c_str(), esc(src).substr(0, 700).c_str());
    VF_CHECK((visor.balanced && visor.open.empty() && visor.enters == visor.exits && visor.scopeStack.numItems() == 0), "balance", "%lld scopes entered, %lld left in %s",
             (long long) visor.enters, (long long) visor.exits, esc(src).substr(0, 700).c_str());
    count("scopes", visor.enters);
    count("declarations", visor.decls);
}

VF_WORKLOAD(declarations, 20000, 400000) {
    Gen gen(r);
    Str expected;
    for (u32 n = 1 + r.below(r.chance(1, 30) ? 30 : 5); n > 0; n--)
        expected += gen.decl(false);
    if (r.chance(1, 3))
        gen.note();
    int64_t live = liveBytes();
    {
        cpp::PPVisitedFiles vfiles;
        Visor visor;
        auto tu = cpp::parse(String{view(gen.text)}, &vfiles, {}, {}, &visor);
        Str msg;
        if (!visor.errors.empty()) {
            MemOutStream mout;
            visor.errors[0]->writeMessage(&mout, &vfiles);
            msg = str(mout.moveToString());
        }
        VF_CHECKR((visor.errors.empty()), , "error", "%s from %s", msg.c_str(), esc(gen.text).substr(0, 900).c_str());
        Printer pr{gen.text};
        Str got = pr.decls(tu.visor_decls);
        VF_CHECK((got == expected), "tree", "%s from %s", firstDiff(got, expected).c_str(), esc(gen.text).substr(0, 900).c_str());
        VF_CHECK((visor.notes == gen.notes), "notes", "%zu comments and directives, not %zu, from %s", visor.notes.size(), gen.notes.size(), esc(gen.text).substr(0, 900).c_str());
        VF_CHECK((visor.classNames == gen.classNames), "class-names", "%zu class names, not %zu, from %s", visor.classNames.size(), gen.classNames.size(), esc(gen.text).substr(0, 900).c_str());
        VF_CHECK((visor.enors == gen.enumerators), "enumerators", "%lld enumerators, not %lld, from %s", (long long) visor.enors, (long long) gen.enumerators, esc(gen.text).substr(0, 900).c_str());
        checkTree(gen.text, vfiles, tu, visor);
        if (r.chance(1, 10)) {
            MemOutStream mout;
            cpp::dumpParseTree(&mout, AnyObject::bind(&tu), 0, &vfiles);
        }
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "leak", "%lld bytes after parsing %s", (long long) (liveBytes() - live), esc(gen.text).substr(0, 700).c_str());
    evals(1);
    distinct(hashStr(expected));
    if (idx < 20)
        sample(esc(gen.text).substr(0, 200));
}

// A stray token between two declarations is reported where it is, and the declarations around it
// are still read.
VF_WORKLOAD(stray, 20000, 400000) {
    Gen gen(r);
    Str expected;
    for (u32 n = r.below(4); n > 0; n--)
        expected += gen.decl(false);
    size_t from = gen.text.size();
    static const char* const strays[] = {")", "]", "}", "1", "\"text\"", "=", "*", "&", ",", "?", "!", "+", "->", "."};
    Str stray = strays[r.below(sizeof(strays) / sizeof(strays[0]))];
    gen.text += r.chance(1, 2) ? " " : "\n\n";
    size_t at = gen.text.size();
    gen.text += stray + (r.chance(1, 2) ? " " : "\n");
    (void) from;
    for (u32 n = r.below(4); n > 0; n--)
        expected += gen.decl(false);
    size_t line = 1;
    for (size_t i = 0; i < at; i++) {
        if (gen.text[i] == '\n')
            line++;
    }
    int64_t live = liveBytes();
    {
        cpp::PPVisitedFiles vfiles;
        Visor visor;
        auto tu = cpp::parse(String{view(gen.text)}, &vfiles, {}, {}, &visor);
        VF_CHECK((visor.errors.size() == 1), "errors", "%zu errors for the %s in %s", visor.errors.size(), stray.c_str(), esc(gen.text).substr(0, 900).c_str());
        Str want = vf::fmt("(%zu, ", line);
        for (auto& e : visor.errors) {
            MemOutStream mout;
            e->writeMessage(&mout, &vfiles);
            Str m = str(mout.moveToString());
            VF_CHECK((m.find(want) != Str::npos), "location", "%s, not %s, for the %s in %s", esc(m).c_str(), want.c_str(), stray.c_str(), esc(gen.text).substr(0, 900).c_str());
        }
        Printer pr{gen.text};
        Str got = pr.decls(tu.visor_decls);
        VF_CHECK((got == expected), "recovery", "%s from %s", firstDiff(got, expected).c_str(), esc(gen.text).substr(0, 900).c_str());
        checkTree(gen.text, vfiles, tu, visor);
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "leak", "%lld bytes after parsing %s", (long long) (liveBytes() - live), esc(gen.text).substr(0, 700).c_str());
    evals(1);
    distinct(hashStr(expected + stray));
}

// One mistake in a declaration is one error with the right message, at the token where it is, and the declarations
// around it are still read.
struct Faulty {
    const char* text; // the @ is where the error is
    const char* message;
    bool extra = false; // the leftover is also reported, as a declaration without a name
    bool lost = false;  // what follows may be lost
    Faulty(const char* t, const char* m, bool e = false, bool l = false) : text(t), message(m), extra(e), lost(l) {
    }
};
const Faulty FaultyDecls[] = {
    {"int & @const x = 1;", "'const' qualifier not allowed here"},
    {"int a, @const b;", "'const' qualifier not allowed here"},
    {"int a, @volatile b;", "'volatile' qualifier not allowed here"},
    {"int (*f(int x @y))(int);", "expected ',' or ')' before 'y'"},
    {"int x = 1 @2;", "expected ';' before '2'"},
    {"struct A { int a @int b; };", "expected ';' before 'int'"},
    {"struct A final @final {};", "'final' used more than once"},
    {"struct A : @{};", "expected qualified-id before '{'"},
    {"struct A : public @{};", "expected qualified-id before '{'"},
    {"struct A : public B @C {};", "expected ',' or '{' before 'C'"},
    {"struct A : B, @{};", "expected qualified-id before '{'"},
    {"enum A { a @b };", "missing ',' between enumerators"},
    {"enum A { a = 1 @b };", "missing ',' between enumerators"},
    {"enum A { a, @, b };", "expected enumerator or '}' before ','"},
    {"enum A { @1 };", "expected enumerator or '}' before '1'"},
    {"enum class A { a, @; };", "expected enumerator or '}' before ';'"},
    {"enum class @: int { a };", "scoped enum requires a name"},
    {"int a[3@);", "expected ']' before ')'", true, true},
    {"int f() -> @;", "expected trailing return type before ';'"},
    {"A::A() : x(1) @;", "expected function body after member initializer list"},
    {"A::A() : @{}", "expected class member or base class name before '{'"},
    {"A::A() : x(1), @{}", "expected class member or base class name before '{'"},
    {"namespace A @= ;", "expected '{' before '='"},
    {"template <int x, @> struct A {};", "expected template parameter before '>'"},
    {"template <@1> struct A {};", "expected template parameter before '1'"},
    {"template <typename @1> struct A {};", "expected ',' or '>' before '1'"},
    {"template <class T @int y> struct A {};", "expected ',' or '>' before 'int'"},
    {"template <typename T = @> class A;", "expected type specifier before '>'"},
    {"struct A { template <class T> @};", "expected declaration before '}'"},
    {"extern int x @y;", "expected ';' before 'y'", true},
    {"extern \"C\" int f() -> @;", "expected trailing return type before ';'"},
    {"int A::@(x);", "'(' cannot have a nested name prefix"},
    {"int A::@& x;", "'&' cannot have a nested name prefix"},
    {"int A::@;", "';' cannot have a nested name prefix"},
    {"operator int @float();", "too many type specifiers"},
    {"operator A::B @C::D ();", "too many type specifiers"},
    {"operator int @;", "expected '(' before ';'"},
    {"operator A @friend ;", "expected qualified-id before 'friend'", true},
    {"int operator@;", "expected operator token before ';'"},
    {"~@;", "expected destructor name before ';'"},
    {"A::~@;", "expected destructor name before ';'"},
    {"struct A { public @int x; };", "expected ':' before 'int'"},
    {"static_assert@;", "expected '(' before ';'"},
    {"using A = @;", "expected type specifier before ';'"},
    {"using namespace @;", "expected qualified-id before ';'"},
    {"@typedef int;", "declaration does not declare anything"},
    {"@int;", "declaration does not declare anything"},
    {"@int const;", "declaration does not declare anything"},
    {"@return;", "declaration does not declare anything"},
    {"struct A { @friend ; };", "declaration does not declare anything"},
    {"typename @T x;", "expected nested name prefix before 'T'"},
    {"typename @;", "expected nested name prefix before ';'"},
    {"typename @... T::x y;", "expected qualified-id before '...'"},
    {"alignas @x int y;", "expected '(' before 'x'"},
    {"alignas(int @y) int x;", "type-id cannot have a name"},
    {"using A = B @c;", "type-id cannot have a name"},
    {"template <typename T = int @x> class A;", "type-id cannot have a name"},
    {"int x = a ? b@;", "expected ':' before ';'"},
    {"int x = @;", "expected expression before ';'"},
    {"int x = f(1, 2 @3);", "expected ',' or ')' before '3'"},
    {"int x = f(1@] );", "expected ',' or ')' before ']'"},
    {"int x = {1 @2};", "expected ',' or '}' before '2'"},
    {"int x = A{1 @2};", "expected ',' or '}' before '2'"},
    {"int x = (1 @2);", "expected ')' before '2'"},
    {"int x = 1 + @;", "expected expression before ';'"},
    {"int x = !@;", "expected expression before ';'"},
    {"int x = a ? @: b;", "expected expression before ':'"},
    {"int x = a ? b : @;", "expected expression before ';'"},
    {"int x = A::@;", "expected identifier before ';'"},
    {"int x = [@a]() {};", "expected ']' before 'a'"},
    {"int x = []() @;", "expected '{' before ';'"},
    {"int f(int a = @);", "expected expression before ')'"},
    {"int f(int a = @, int b);", "expected expression before ','"},
    {"int x : @;", "expected expression before ';'"},
    {"int x : 3 @: 4;", "expected ';' before ':'"},
    {"@[[x]] int y;", "expected declaration before '['"},
    {"int f(@,);", "expected parameter type before ','"},
    {"int f(int,@);", "expected parameter type before ')'"},
    {"int f(@1);", "expected parameter type before '1'"},
    {"int f(int x @y, int z);", "expected ',' or ')' before 'y'"},
    {"int *@;", "expected qualified-id before ';'"},
    {"int *&@;", "expected qualified-id before ';'"},
    {"int @[3];", "expected qualified-id before '['"},
    {"int *@[3];", "expected qualified-id before '['"},
    {"int (*x@;", "expected ')' before ';'", true, true},
    {"using A = int (*@x)(int);", "type-id cannot have a name"},
    {"using A = int (&(*@x))[3];", "type-id cannot have a name"},
    {"operator int &@const ();", "'const' qualifier not allowed here"},
    {"operator int *&@volatile ();", "'volatile' qualifier not allowed here"},
    {"int (*x @1)[2 @3];", "expected ')' before '1'||expected ']' before '3'"},
    {"enum A { a @b, @3, c @d };", "missing ',' between enumerators||expected enumerator or '}' before '3'||missing ',' between enumerators"},
    {"int &@const a, &@const b;", "'const' qualifier not allowed here||'const' qualifier not allowed here"},
    {"struct A final @final @final {};", "'final' used more than once"},
    {"int f(int a @b, int c @d) -> @;", "expected ',' or ')' before 'b'||expected ',' or ')' before 'd'||expected trailing return type before ';'"},
    {"namespace N { int x = @; int y = @; }", "expected expression before ';'||expected expression before ';'"},
};

VF_WORKLOAD(faulty, 20000, 200000) {
    const Faulty& f = FaultyDecls[idx % (sizeof(FaultyDecls) / sizeof(FaultyDecls[0]))];
    Gen gen(r);
    Str before, after;
    for (u32 n = r.below(4); n > 0; n--)
        before += gen.decl(false);
    gen.text += "\n";
    Str bad = f.text;
    std::vector<size_t> marks;
    for (size_t m; (m = bad.find('@')) != Str::npos;) {
        marks.push_back(m);
        bad.erase(m, 1);
    }
    Str lead(r.below(4), ' '), messages = Str(f.message) + "||";
    size_t from = gen.text.size() + lead.size();
    gen.text += lead + bad + (r.chance(1, 2) ? "\n" : " // done\n");
    for (u32 n = r.below(4); n > 0; n--)
        after += gen.decl(false);
    size_t line = 1, ls = 0;
    for (size_t i = 0; i < from; i++)
        if (gen.text[i] == '\n') {
            line++;
            ls = i + 1;
        }
    Str want, again;
    for (size_t m : marks) {
        size_t end = messages.find("||");
        if (end == Str::npos)
            break;
        want += vf::fmt("(%zu, %zu): error: %s\n", line, from + m - ls + 1, messages.substr(0, end).c_str());
        again = vf::fmt("(%zu, %zu): error: declaration does not declare anything\n", line, from + m - ls + 1);
        messages.erase(0, end + 2);
    }
    int64_t live = liveBytes();
    {
        cpp::PPVisitedFiles vfiles;
        Visor visor;
        auto tu = cpp::parse(String{view(gen.text)}, &vfiles, {}, {}, &visor);
        Str m;
        for (auto& e : visor.errors) {
            MemOutStream mout;
            e->writeMessage(&mout, &vfiles);
            m += str(mout.moveToString());
        }
        VF_CHECK((m == want || (f.extra && m == want + again)), vf::fmt("faulty-error-%s", f.text), "%s, not %s, from %s", esc(m).c_str(), esc(want).c_str(), esc(gen.text).substr(0, 900).c_str());
        Printer pr{gen.text};
        Str got = pr.decls(tu.visor_decls);
        VF_CHECK((got.compare(0, before.size(), before) == 0), vf::fmt("faulty-before-%s", f.text), "%s from %s", firstDiff(got, before).c_str(), esc(gen.text).substr(0, 900).c_str());
        if (!f.lost)
        VF_CHECK((got.size() >= before.size() + after.size() && got.compare(got.size() - after.size(), after.size(), after) == 0), vf::fmt("faulty-after-%s", f.text), "%s, not ending with %s, from %s",
                 esc(got).substr(0, 500).c_str(), esc(after).substr(0, 300).c_str(), esc(gen.text).substr(0, 900).c_str());
        VF_CHECK((visor.balanced && visor.open.empty() && visor.enters == visor.exits), "faulty-balance", "%lld scopes entered, %lld left in %s", (long long) visor.enters, (long long) visor.exits,
                 esc(gen.text).substr(0, 900).c_str());
    }
    VF_CHECK((idx < 200 || liveBytes() == live), "faulty-leak", "%lld bytes after parsing %s", (long long) (liveBytes() - live), esc(gen.text).substr(0, 700).c_str());
    evals(1);
    distinct(hashStr(gen.text));
}

// Programs with some tokens lost, repeated, added or cut off: reading ends, each error has a place in the text
// and a message, and every scope that was entered is left.
VF_WORKLOAD(damaged, 20000, 400000) {
    Gen gen(r);
    for (u32 n = 1 + r.below(4); n > 0; n--)
        gen.decl(false);
    std::vector<Str> toks;
    auto word = [](char c) { return isalnum((unsigned char) c) || c == '_'; };
    for (size_t i = 0; i < gen.text.size();) {
        size_t j = i + 1;
        if (word(gen.text[i]))
            while (j < gen.text.size() && word(gen.text[j]))
                j++;
        toks.push_back(gen.text.substr(i, j - i));
        i = j;
    }
    static const char* const extra[] = {"(", ")", "[", "]", "{", "}", "<", ">", ">>", ",", ";", ":", "::", "=", "*", "&", "&&", "...", "~", "->", "?", "!", "-", "1", "\"s\"", "operator ", " const ", " extern ", " extern \"C\" ",
                                        " template ", " template <", " typename ", " enum ", " struct ", " class ", " namespace ", " using ", " typedef ", " static_assert", " alignas(", " public:", " final ", " override ", " friend ",
                                        " virtual ", " int ", " A ", " 0 ", " default ", " noexcept ", " decltype(", " inline "};
    for (u32 n = 1 + r.below(4); n > 0 && !toks.empty(); n--) {
        size_t at = r.below(toks.size());
        switch (r.below(6)) {
            case 0:
                toks.erase(toks.begin() + at);
                break;
            case 1:
                toks.insert(toks.begin() + at, toks[at]);
                break;
            case 2:
                toks[at] = extra[r.below(sizeof(extra) / sizeof(extra[0]))];
                break;
            case 3:
                if (r.chance(1, 4))
                    toks.resize(at);
                else
                    std::swap(toks[at], toks[r.below(toks.size())]);
                break;
            default:
                toks.insert(toks.begin() + at, extra[r.below(sizeof(extra) / sizeof(extra[0]))]);
                break;
        }
    }
    Str text;
    for (auto& t : toks)
        text += t;
    int64_t live = liveBytes();
    {
        cpp::PPVisitedFiles vfiles;
        Visor visor;
        auto tu = cpp::parse(String{view(text)}, &vfiles, {}, {}, &visor);
        VF_CHECK((visor.errors.size() <= 2 * text.size() + 2), "errors", "%zu errors from %s", visor.errors.size(), esc(text).substr(0, 900).c_str());
        u32 lines = 1 + (u32) std::count(text.begin(), text.end(), '\n');
        for (auto& e : visor.errors) {
            MemOutStream mout;
            e->writeMessage(&mout, &vfiles);
            Str m = str(mout.moveToString());
            u32 line = 0, col = 0;
            VF_CHECK((sscanf(m.c_str(), "(%u, %u): error: ", &line, &col) == 2 && line >= 1 && line <= lines && m.find("not implemented") == Str::npos), "damaged-message", "%s from %s", esc(m).c_str(),
                     esc(text).substr(0, 900).c_str());
            count("damaged-errors", 1);
        }
        TokenWalk w{text, vfiles.sourceFiles[0].contents.view()};
        w.visit(&tu, getTypeDescriptor<g::TranslationUnit>());
        (void) w;
        VF_CHECK((visor.balanced && visor.open.empty() && visor.enters == visor.exits && visor.scopeStack.numItems() == 0), "damaged-balance", "%lld scopes entered, %lld left in %s", (long long) visor.enters,
                 (long long) visor.exits, esc(text).substr(0, 900).c_str());
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "damaged-leak", "%lld bytes after parsing %s", (long long) (liveBytes() - live), esc(text).substr(0, 700).c_str());
    evals(1);
    distinct(hashStr(text));
}

} // namespace

VF_MAIN()
