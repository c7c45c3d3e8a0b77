// C33: scripts parsed by the Crowbar front end evaluate to what their source says, and malformed or
// ill-typed ones give located errors. Random typed programs are emitted as text (random layout,
// minimal or redundant parentheses) and run against a model interpreter over the generator's own
// tree; damaged programs and token soups are parsed (and, when they provably terminate, run) under
// the sanitizers.
#include "plyvf.h"
#include <ply-reflect/TypeDescriptor.h>
#include <ply-reflect/AnyOwnedObject.h>
#include <ply-crowbar/Core.h>
#include <ply-crowbar/Parser.h>
#include <ply-crowbar/Interpreter.h>
#include <map>
#include <vector>
#include <string>
#include <functional>
#include <memory>
#include <set>

using namespace ply;
using namespace ply::crowbar;
using vf::Rng;

namespace c33 {
struct Thing {
    PLY_REFLECT()
    String name;
    u32 value = 0;
    bool flag = false;
    // ply reflect off
};
} // namespace c33
PLY_STRUCT_BEGIN(c33::Thing)
PLY_STRUCT_MEMBER(name)
PLY_STRUCT_MEMBER(value)
PLY_STRUCT_MEMBER(flag)
PLY_STRUCT_END()

namespace {

//---------------------------------------------------------------- running the real thing
static bool theTrue = true;
static bool theFalse = false;

static MethodResult doPrint(BaseInterpreter* interp, const AnyObject& arg) {
    interp->returnValue = {};
    if (arg.is<u32>())
        *interp->outs << *arg.cast<u32>() << '\n';
    else if (arg.is<bool>())
        *interp->outs << *arg.cast<bool>() << '\n';
    else if (arg.is<String>())
        *interp->outs << *arg.cast<String>() << '\n';
    else {
        interp->error(interp,
                      String::format("'{}' does not support printing", arg.type->getName()));
        return MethodResult::Error;
    }
    return MethodResult::OK;
}

struct Script {
    std::string src;
    Tokenizer tkr;
    Parser parser;
    struct Hooks : Parser::Hooks {
        std::vector<std::string> errors;
        void onError(StringView msg) override {
            errors.push_back(vf::str(msg));
        }
    };
    Hooks hooks;
    Owned<StatementBlock> file;

    Script(const std::string& s) : src(s) {
        tkr.setSourceInput(vf::view(src));
        parser.tkr = &tkr;
        parser.hooks = &hooks;
        file = parser.parseFile();
    }

    // Runs a function and returns the printed output.
    std::string run(const char* funcName, c33::Thing* thing) {
        HashMap<VariableMapTraits> builtIns;
        builtIns.insertOrFind(LabelMap::instance.insertOrFind("print"))->obj =
            AnyObject::bind(doPrint);
        builtIns.insertOrFind(LabelMap::instance.insertOrFind("true"))->obj =
            AnyObject::bind(&theTrue);
        builtIns.insertOrFind(LabelMap::instance.insertOrFind("false"))->obj =
            AnyObject::bind(&theFalse);
        HashMap<VariableMapTraits> ns;
        const Statement::FunctionDefinition* main = nullptr;
        Label mainLabel = LabelMap::instance.insertOrFind(funcName);
        for (const Statement* stmt : file->statements) {
            const Statement::FunctionDefinition* fnDef = stmt->functionDefinition().get();
            ns.insertOrFind(fnDef->name)->obj = AnyObject::bind(fnDef);
            if (fnDef->name == mainLabel)
                main = fnDef;
        }
        if (!main)
            return "<no function>";
        MemOutStream outs;
        std::string result;
        {
            Interpreter interp;
            interp.outs = &outs;
            interp.outerNameSpaces.append(&builtIns);
            interp.outerNameSpaces.append(&ns);
            interp.tkr = &tkr;
            interp.error = [](BaseInterpreter* base, StringView message) {
                Interpreter* interp = static_cast<Interpreter*>(base);
                interp->outs->format("error: {}\n", message);
                for (Interpreter::StackFrame* frame = interp->currentFrame; frame;
                     frame = frame->prevFrame) {
                    ExpandedToken expToken = interp->tkr->expandToken(frame->tokenIdx);
                    interp->outs->format(
                        "@{} {}\n",
                        interp->tkr->fileLocationMap.formatFileLocation(expToken.fileOffset),
                        LabelMap::instance.view(frame->functionDef->name));
                }
            };
            Interpreter::StackFrame frame;
            frame.interp = &interp;
            frame.functionDef = main;
            if (main->parameterNames.numItems() > 1)
                return "<bad parameters>";
            for (Label p : main->parameterNames)
                frame.localVariableTable.insertOrFind(p)->obj = AnyObject::bind(thing);
            MethodResult res = execFunction(&frame, main->body);
            if (res == MethodResult::Error)
                outs << "<failed>\n";
        }
        result = vf::str(outs.moveToString());
        return result;
    }
};

//---------------------------------------------------------------- model
struct Val {
    char t = 'V'; // U B S V
    u32 u = 0;
    bool b = false;
    std::string s;
    static Val U(u32 u) {
        Val v;
        v.t = 'U';
        v.u = u;
        return v;
    }
    static Val B(bool b) {
        Val v;
        v.t = 'B';
        v.b = b;
        return v;
    }
    static Val S(const std::string& s) {
        Val v;
        v.t = 'S';
        v.s = s;
        return v;
    }
    std::string text() const {
        if (t == 'U')
            return std::to_string(u);
        if (t == 'B')
            return b ? "true" : "false";
        return s;
    }
};

struct E {
    enum K { Lit, Name, Bin, Un, Call, Str, Prop } k = Lit;
    char type = 'U';
    u32 num = 0;
    std::string name; // identifier, operator, property
    std::vector<std::unique_ptr<E>> kids;
    std::vector<std::string> lits; // for Str: lits[i] then kids[i]; one more literal than kids
    std::string err;               // expected error message when this node is evaluated
    u32 pos = 0;                   // offset of the token reported for this node
};
using PE = std::unique_ptr<E>;

struct St {
    enum K { Assign, Print, If, While, Return, Eval } k = Assign;
    PE left, e;
    std::vector<std::unique_ptr<St>> a, b;
    bool hasElse = false;
    std::string err; // error reported by the statement after evaluating its expression
    bool errAtExpr = true;
    u32 pos = 0;
};
using PS = std::unique_ptr<St>;

struct Fn {
    std::string name;
    std::vector<std::pair<std::string, char>> params;
    char ret = 'V';
    bool recursive = false;
    std::vector<PS> body;
};

static int prec(const std::string& op) {
    if (op == "*" || op == "/" || op == "%")
        return 3;
    if (op == "+" || op == "-")
        return 4;
    if (op == "<" || op == "<=" || op == ">" || op == ">=")
        return 6;
    if (op == "==")
        return 7;
    if (op == "&&")
        return 11;
    return 12;
}

struct Gen {
    Rng& r;
    bool loops, stringMul, ascii;
    int budget;
    std::vector<Fn> fns;
    int errorAt = -1; // counts expressions down to the one that is replaced by a failing one
    bool errorPlanted = false;
    u32 nextVar = 0;

    struct Scope {
        std::vector<std::pair<std::string, char>> vars;
    };
    Scope sc;
    std::set<std::string> readOnly; // loop counters and recursion depths
    int curFn = 0;
    bool inMain = false;
    bool allowCalls = true;

    Gen(Rng& r) : r(r) {
    }

    std::string litText() {
        std::string s;
        u32 n = r.chance(1, 4) ? 0 : (u32) r.below(12);
        static const char* bits[] = {"a", "b", " ", "{", "}", "$", "\"", "\\", "//", "/*", "x}", "fn",
                                     "(",  ")", "\xc3\xa9", "\n", "'", "%"};
        for (u32 i = 0; i < n; i++) {
            std::string b = bits[r.below(18)];
            if (ascii && (b[0] & 0x80))
                b = "e";
            s += b;
        }
        return s;
    }

    PE lit(u32 n) {
        PE e(new E);
        e->num = n;
        return e;
    }
    PE name(const std::string& n, char t) {
        PE e(new E);
        e->k = E::Name;
        e->name = n;
        e->type = t;
        return e;
    }
    PE bin(const char* op, PE a, PE b, char t) {
        PE e(new E);
        e->k = E::Bin;
        e->name = op;
        e->type = t;
        e->kids.push_back(std::move(a));
        e->kids.push_back(std::move(b));
        return e;
    }

    // An expression whose evaluation fails.
    PE failing(char type, int depth) {
        errorPlanted = true;
        PE e;
        switch (r.below(8)) {
            case 0: {
                e = name("undefined_" + std::to_string(r.below(9)), type);
                e->err = "cannot resolve identifier '" + e->name + "'";
                break;
            }
            case 1: {
                static const char* ops[] = {"+", "-", "*", "<", ">="};
                const char* op = ops[r.below(5)];
                e = bin(op, expr('B', depth - 1), expr('B', depth - 1), type);
                e->err = std::string("'bool' does not support binary operator '") + op + "'";
                break;
            }
            case 2: {
                e.reset(new E);
                e->k = E::Un;
                e->type = type;
                bool str = r.chance(1, 2);
                e->name = str ? "!" : "-";
                e->kids.push_back(expr(str ? 'S' : 'B', depth - 1));
                e->err = std::string("'") + (str ? "String" : "bool") +
                         "' does not support unary operator '" + e->name + "'";
                break;
            }
            case 3: { // wrong type on the right
                static const char* ops[] = {"+", "-", "*", "/", "==", "<"};
                char lt = "UBS"[r.below(3)];
                const char* op = lt == 'U' ? ops[r.below(6)] : lt == 'B' ? "&&" : "+";
                char rt = lt == 'U' ? "BS"[r.below(2)] : lt == 'B' ? "US"[r.below(2)] : "UB"[r.below(2)];
                e = bin(op, expr(lt, depth - 1), expr(rt, depth - 1), type);
                e->err = "?"; // wording not pinned
                break;
            }
            case 4: { // division by zero
                e = bin(r.chance(1, 2) ? "/" : "%", expr('U', depth - 1),
                        r.chance(1, 2) ? lit(0) : bin("-", lit(7), lit(7), 'U'), type);
                e->err = "?";
                break;
            }
            case 5: {
                e.reset(new E);
                e->k = E::Prop;
                e->type = type;
                e->name = "foo";
                char t = "UBS"[r.below(3)];
                e->kids.push_back(expr(t, depth - 1));
                e->err = std::string("'") + (t == 'U' ? "u32" : t == 'B' ? "bool" : "String") +
                         "' does not support property lookup";
                break;
            }
            case 6: { // calling a value
                e.reset(new E);
                e->k = E::Call;
                e->type = type;
                e->kids.push_back(expr("UBS"[r.below(3)], depth - 1));
                for (u32 i = (u32) r.below(3); i > 0; i--)
                    e->kids.push_back(expr("UBS"[r.below(3)], depth - 1));
                char t = e->kids[0]->type;
                e->err = std::string("cannot call '") +
                         (t == 'U' ? "u32" : t == 'B' ? "bool" : "String") + "' as a function";
                break;
            }
            default: { // wrong number of arguments or a function without result
                e.reset(new E);
                e->k = E::Call;
                e->type = type;
                e->kids.push_back(name("print", 'F'));
                if (r.chance(1, 2)) {
                    e->kids.push_back(expr('U', depth - 1));
                    e->kids.push_back(expr('S', depth - 1));
                }
                e->err = "?";
                break;
            }
        }
        return e;
    }

    PE expr(char type, int depth) {
        if (errorAt >= 0 && errorAt-- == 0)
            return failing(type, depth);
        budget--;
        std::vector<std::string> cands;
        for (auto& v : sc.vars)
            if (v.second == type)
                cands.push_back(v.first);
        if (depth <= 0 || budget <= 0 || r.chance(1, 4)) {
            if (!cands.empty() && r.chance(3, 4))
                return name(cands[r.below((u32) cands.size())], type);
            if (inMain && r.chance(1, 5)) {
                PE e(new E);
                e->k = E::Prop;
                e->type = type;
                e->name = type == 'U' ? "value" : type == 'B' ? "flag" : "name";
                e->kids.push_back(name("obj", 'O'));
                return e;
            }
            if (type == 'U')
                return lit(r.chance(1, 8) ? r.u32() : (u32) r.below(20));
            if (type == 'B')
                return name(r.chance(1, 2) ? "true" : "false", 'B');
            PE e(new E);
            e->k = E::Str;
            e->type = 'S';
            e->lits.push_back(litText());
            return e;
        }
        // Calls
        if (allowCalls && r.chance(1, 4)) {
            std::vector<int> f;
            for (int i = 0; i < curFn; i++)
                if (fns[i].ret == type)
                    f.push_back(i);
            if (!f.empty())
                return call(f[r.below((u32) f.size())], depth);
        }
        if (type == 'U') {
            if (r.chance(1, 5)) {
                PE e(new E);
                e->k = E::Un;
                e->type = 'U';
                static const char* ops[] = {"-", "~", "!"};
                e->name = ops[r.below(3)];
                e->kids.push_back(expr('U', depth - 1));
                return e;
            }
            static const char* ops[] = {"+", "-", "*", "/", "%", "+", "-"};
            const char* op = ops[r.below(7)];
            if (!stringMul && *op == '*')
                op = "+";
            if (*op == '/' || *op == '%')
                return bin(op, expr('U', depth - 1), lit((u32) r.range(1, 30)), 'U');
            PE a = expr('U', depth - 1);
            return bin(op, std::move(a), expr('U', depth - 1), 'U');
        }
        if (type == 'B') {
            u32 c = (u32) r.below(5);
            if (c == 0) {
                PE e(new E);
                e->k = E::Un;
                e->type = 'B';
                e->name = "!";
                e->kids.push_back(expr('B', depth - 1));
                return e;
            }
            if (c == 1) {
                PE a = expr('B', depth - 1);
                return bin("==", std::move(a), expr('B', depth - 1), 'B');
            }
            if (c == 2) {
                PE a = expr('B', depth - 1);
                return bin(r.chance(1, 2) ? "&&" : "||", std::move(a), expr('B', depth - 1), 'B');
            }
            static const char* ops[] = {"<", "<=", ">", ">=", "=="};
            PE a = expr('U', depth - 1);
            return bin(ops[r.below(5)], std::move(a), expr('U', depth - 1), 'B');
        }
        u32 c = (u32) r.below(4);
        if (c == 0) {
            PE a = expr('S', depth - 1);
            return bin("+", std::move(a), expr('S', depth - 1), 'S');
        }
        if (c == 1 && stringMul) {
            PE a = expr('S', depth - 2);
            return bin("*", std::move(a), lit((u32) r.below(4)), 'S');
        }
        PE e(new E);
        e->k = E::Str;
        e->type = 'S';
        u32 n = (u32) r.range(1, 3);
        for (u32 i = 0; i < n; i++) {
            e->lits.push_back(litText());
            e->kids.push_back(expr("UBS"[r.below(3)], depth - 1));
        }
        e->lits.push_back(litText());
        return e;
    }

    PE call(int f, int depth) {
        PE e(new E);
        e->k = E::Call;
        e->type = fns[f].ret;
        e->kids.push_back(name(fns[f].name, 'F'));
        for (size_t i = 0; i < fns[f].params.size(); i++) {
            if (i == 0 && fns[f].recursive)
                e->kids.push_back(lit((u32) r.below(6)));
            else
                e->kids.push_back(expr(fns[f].params[i].second, depth - 1));
        }
        return e;
    }

    std::string freshVar() {
        return "v" + std::to_string(nextVar++);
    }

    void block(std::vector<PS>& out, int depth, char ret, bool mayReturn) {
        size_t saved = sc.vars.size();
        u32 n = (u32) r.range(depth >= 3 ? 2 : 1, depth >= 3 ? 8 : 4);
        for (u32 i = 0; i < n && budget > 0; i++)
            stmt(out, depth, ret, mayReturn);
        sc.vars.resize(saved);
    }

    void stmt(std::vector<PS>& out, int depth, char ret, bool mayReturn) {
        PS s(new St);
        u32 c = (u32) r.below(12);
        if (c < 4) {
            s->k = St::Assign;
            char t = "UBS"[r.below(3)];
            s->e = expr(t, 3);
            std::vector<std::string> cands;
            for (auto& v : sc.vars)
                if (v.second == t && !readOnly.count(v.first))
                    cands.push_back(v.first);
            if (inMain && r.chance(1, 6)) {
                s->left.reset(new E);
                s->left->k = E::Prop;
                s->left->type = t;
                s->left->name = t == 'U' ? "value" : t == 'B' ? "flag" : "name";
                s->left->kids.push_back(name("obj", 'O'));
            } else if (!cands.empty() && r.chance(1, 2)) {
                s->left = name(cands[r.below((u32) cands.size())], t);
            } else {
                std::string v = freshVar();
                s->left = name(v, t);
                sc.vars.push_back({v, t});
            }
        } else if (c < 8) {
            s->k = St::Print;
            s->e = expr("UBS"[r.below(3)], 3);
        } else if (c == 8 && depth > 0) {
            s->k = St::If;
            if (errorAt >= 0 && errorAt < 3 && r.chance(1, 2)) {
                errorAt = -1;
                errorPlanted = true;
                s->e = expr(r.chance(1, 2) ? 'U' : 'S', 2);
                s->err = "?";
            } else {
                s->e = expr('B', 3);
            }
            block(s->a, depth - 1, ret, mayReturn);
            s->hasElse = r.chance(1, 2);
            if (s->hasElse)
                block(s->b, depth - 1, ret, mayReturn);
        } else if (c == 9 && depth > 0 && loops) {
            // v = 0; while v < n { ...; v = v + 1 }
            std::string v = freshVar();
            readOnly.insert(v);
            PS init(new St);
            init->left = name(v, 'U');
            init->e = lit(0);
            out.push_back(std::move(init));
            sc.vars.push_back({v, 'U'});
            s->k = St::While;
            s->e = bin("<", name(v, 'U'), lit((u32) r.below(5)), 'B');
            block(s->a, depth - 1, ret, mayReturn);
            PS inc(new St);
            inc->left = name(v, 'U');
            inc->e = bin("+", name(v, 'U'), lit(1), 'U');
            s->a.push_back(std::move(inc));
        } else if (c == 10 && depth < 3 && mayReturn && ret != 'V') {
            s->k = St::Return;
            s->e = expr(ret, 3);
        } else {
            s->k = St::Eval;
            s->e = curFn > 0 && allowCalls ? call((int) r.below((u32) curFn), 2) : expr("UBS"[r.below(3)], 2);
            if (errorAt >= 0 && errorAt < 2 && r.chance(1, 4) && !sc.vars.empty()) {
                // Assigning a value of another type to an existing variable, or to something that
                // isn't a variable.
                errorAt = -1;
                errorPlanted = true;
                s->k = St::Assign;
                auto& v = sc.vars[r.below((u32) sc.vars.size())];
                s->left = name(v.first, v.second);
                s->e = expr(v.second == 'U' ? 'S' : 'U', 1);
                s->err = "?";
            }
        }
        out.push_back(std::move(s));
    }

    void program(bool withError) {
        u32 numFns = (u32) r.below(5);
        errorAt = withError ? (int) r.below(25) : -1;
        for (u32 f = 0; f <= numFns; f++) {
            bool main = f == numFns;
            Fn fn;
            curFn = (int) f;
            inMain = main;
            sc.vars.clear();
            readOnly.clear();
            nextVar = 0;
            if (main) {
                fn.name = "test";
                fn.params.push_back({"obj", 'O'});
            } else {
                fn.name = "f" + std::to_string(f);
                fn.ret = "UBSV"[r.below(4)];
                fn.recursive = fn.ret != 'V' && r.chance(1, 2) && loops;
                u32 np = (u32) r.below(4);
                for (u32 i = 0; i < np || (fn.recursive && i < 1); i++) {
                    char t = (fn.recursive && i == 0) ? 'U' : "UBS"[r.below(3)];
                    std::string p = "p" + std::to_string(i);
                    fn.params.push_back({p, t});
                    sc.vars.push_back({p, t});
                }
                if (fn.recursive)
                    readOnly.insert("p0");
            }
            budget = main ? 160 : 60;
            if (fn.recursive) {
                // if p0 == 0 return X
                PS s(new St);
                s->k = St::If;
                s->e = bin("==", name("p0", 'U'), lit(0), 'B');
                PS ret(new St);
                ret->k = St::Return;
                ret->e = expr(fn.ret, 2);
                s->a.push_back(std::move(ret));
                fn.body.push_back(std::move(s));
            }
            // Declarations stay visible until the end of the function.
            u32 n = (u32) r.range(1, main ? 12 : 6);
            for (u32 i = 0; i < n; i++)
                stmt(fn.body, 3, fn.ret, true);
            if (fn.recursive) {
                // vN = self(p0 - 1, ...)
                PE e(new E);
                e->k = E::Call;
                e->type = fn.ret;
                e->kids.push_back(name(fn.name, 'F'));
                e->kids.push_back(bin("-", name("p0", 'U'), lit(1), 'U'));
                allowCalls = false;
                for (size_t i = 1; i < fn.params.size(); i++)
                    e->kids.push_back(expr(fn.params[i].second, 1));
                allowCalls = true;
                PS s(new St);
                std::string v = freshVar();
                s->left = name(v, fn.ret);
                s->e = std::move(e);
                sc.vars.push_back({v, fn.ret});
                fn.body.push_back(std::move(s));
            }
            if (fn.ret != 'V') {
                PS s(new St);
                s->k = St::Return;
                s->e = expr(fn.ret, 3);
                fn.body.push_back(std::move(s));
            }
            fns.push_back(std::move(fn));
        }
    }
};

//---------------------------------------------------------------- text
struct Emit {
    Rng& r;
    std::string s;
    int paren = 0; // newlines are ignored inside parentheses
    bool noise;
    std::vector<u32> stmtStarts; // offsets at the start of a line where a statement may be inserted
    Emit(Rng& r, bool noise) : r(r), noise(noise) {
    }
    void sp() {
        if (!noise) {
            s += ' ';
            return;
        }
        switch (r.below(paren ? 8 : 6)) {
            case 0:
                break;
            case 1:
                s += "  ";
                break;
            case 2:
                s += r.chance(1, 4) ? "/* c } ) \" */" : " ";
                break;
            case 6:
                s += "\n";
                break;
            case 7:
                s += r.chance(1, 3) ? "// ) } \"\n" : " ";
                break;
            default:
                s += ' ';
        }
    }
    void str(const E& e) {
        s += '"';
        for (size_t i = 0; i < e.lits.size(); i++) {
            const std::string& l = e.lits[i];
            for (size_t j = 0; j < l.size(); j++) {
                char c = l[j];
                bool mustQuote = c == '"' || c == '\\' || (c == '$' && j + 1 < l.size() && l[j + 1] == '{') ||
                                 (c == '$' && j + 1 == l.size() && i + 1 < e.lits.size());
                if (mustQuote || (c == '$' && r.chance(1, 3)) || ((c == '}' || c == '{') && r.chance(1, 4)))
                    s += '\\';
                s += c;
            }
            if (i < e.kids.size()) {
                s += "${";
                paren++;
                sp();
                expr(*e.kids[i], 100, false);
                sp();
                paren--;
                s += '}';
            }
        }
        s += '"';
    }
    // outer: precedence of the enclosing operator; right: this is its right operand
    void expr(E& e, int outer, bool right) {
        int p = e.k == E::Bin ? prec(e.name) : e.k == E::Un ? 2 : 0;
        bool need = p > outer || (p == outer && p > 2 && right);
        if (need || (noise && r.chance(1, 10))) {
            s += '(';
            paren++;
            sp();
            bare(e);
            sp();
            paren--;
            s += ')';
        } else {
            bare(e);
        }
    }
    void bare(E& e) {
        switch (e.k) {
            case E::Lit:
                e.pos = (u32) s.size();
                s += std::to_string(e.num);
                break;
            case E::Name:
                e.pos = (u32) s.size();
                s += e.name;
                break;
            case E::Bin: {
                int p = prec(e.name);
                expr(*e.kids[0], p, false);
                sp();
                e.pos = (u32) s.size();
                s += e.name;
                // Avoid creating a comment or another operator.
                if (e.name == "/" || e.name == "<" || e.name == ">")
                    s += ' ';
                sp();
                expr(*e.kids[1], p, true);
                break;
            }
            case E::Un:
                e.pos = (u32) s.size();
                s += e.name;
                if (noise && r.chance(1, 4))
                    s += ' ';
                expr(*e.kids[0], 2, false);
                break;
            case E::Call: {
                expr(*e.kids[0], 1, false);
                if (noise && r.chance(1, 6))
                    s += ' ';
                e.pos = (u32) s.size();
                s += '(';
                paren++;
                for (size_t i = 1; i < e.kids.size(); i++) {
                    if (i > 1)
                        s += ',';
                    if (i > 1 || noise)
                        sp();
                    expr(*e.kids[i], 100, false);
                }
                paren--;
                s += ')';
                break;
            }
            case E::Str:
                e.pos = (u32) s.size();
                str(e);
                break;
            case E::Prop:
                expr(*e.kids[0], 1, false);
                s += '.';
                e.pos = (u32) s.size();
                s += e.name;
                break;
        }
    }
    void indent(int d) {
        if (noise && r.chance(1, 8))
            s += r.chance(1, 2) ? "\n\n" : "// comment } \"\n";
        stmtStarts.push_back((u32) s.size());
        s.append(d * 4, ' ');
    }
    void block(std::vector<PS>& b, int d) {
        s += noise && r.chance(1, 4) ? "\n{" : " {";
        s += '\n';
        for (auto& st : b)
            stmt(*st, d + 1);
        s.append(d * 4, ' ');
        s += '}';
    }
    void endStmt() {
        if (noise && r.chance(1, 6))
            s += r.chance(1, 2) ? ";\n" : " ; ";
        else if (noise && r.chance(1, 8))
            s += " // done\n";
        else
            s += '\n';
    }
    void stmt(St& st, int d) {
        indent(d);
        st.pos = (u32) s.size();
        switch (st.k) {
            case St::Assign:
                expr(*st.left, 1, false);
                sp();
                s += '=';
                if (s.size() && noise)
                    s += ' ';
                sp();
                expr(*st.e, 100, false);
                endStmt();
                break;
            case St::Print: {
                s += "print(";
                paren++;
                expr(*st.e, 100, false);
                paren--;
                s += ')';
                endStmt();
                break;
            }
            case St::Eval:
                expr(*st.e, 100, false);
                endStmt();
                break;
            case St::Return:
                s += "return ";
                expr(*st.e, 100, false);
                endStmt();
                break;
            case St::If:
                s += "if ";
                expr(*st.e, 100, false);
                body(st.a, d);
                if (st.hasElse) {
                    if (s.back() != '\n')
                        s += noise && r.chance(1, 3) ? "\n" : " ";
                    s += "else";
                    body(st.b, d);
                }
                if (s.back() != '\n')
                    s += '\n';
                break;
            case St::While:
                s += "while ";
                expr(*st.e, 100, false);
                block(st.a, d);
                s += '\n';
                break;
        }
    }
    void body(std::vector<PS>& b, int d) {
        if (b.size() == 1 && b[0]->k == St::Return && r.chance(2, 3)) {
            s += '\n';
            s.append((d + 1) * 4, ' ');
            b[0]->pos = (u32) s.size();
            s += "return ";
            expr(*b[0]->e, 100, false);
            s += '\n';
        } else {
            block(b, d);
        }
    }
    void program(Gen& g) {
        for (auto& f : g.fns) {
            if (noise && r.chance(1, 5))
                s += "/* f } */\n";
            s += "fn ";
            s += f.name;
            s += '(';
            for (size_t i = 0; i < f.params.size(); i++) {
                if (i)
                    s += ", ";
                s += f.params[i].first;
            }
            s += ')';
            block(f.body, 0);
            s += "\n\n";
        }
    }
};

//---------------------------------------------------------------- model interpreter
struct Model {
    Gen& g;
    std::map<std::string, Val> obj;
    std::string out;
    std::string errMsg;
    std::vector<std::pair<std::string, u32>> trace; // innermost first
    u64 steps = 0;
    bool tooLong = false;
    struct Frame {
        std::map<std::string, Val> vars;
        const Fn* fn;
        u32 pos = 0;
        Frame* prev;
    };

    Model(Gen& g) : g(g) {
    }
    bool dead = false; // an error occurred
    Val fail(Frame* f, const std::string& msg, u32 pos) {
        errMsg = msg;
        f->pos = pos;
        for (Frame* x = f; x; x = x->prev)
            trace.push_back({x->fn->name, x->pos});
        dead = true;
        return {};
    }
    const Fn* find(const std::string& n) {
        for (auto& f : g.fns)
            if (f.name == n)
                return &f;
        return nullptr;
    }
    Val eval(Frame* f, const E& e) {
        if (++steps > 60000) {
            tooLong = dead = true;
            return {};
        }
        switch (e.k) {
            case E::Lit:
                return Val::U(e.num);
            case E::Name:
                if (!e.err.empty())
                    return fail(f, e.err, e.pos);
                if (e.name == "true" || e.name == "false")
                    return Val::B(e.name == "true");
                return f->vars.at(e.name);
            case E::Prop: {
                if (e.kids[0]->type == 'O')
                    return obj.at(e.name);
                eval(f, *e.kids[0]);
                if (dead)
                    return {};
                return fail(f, e.err, e.pos);
            }
            case E::Str: {
                std::string s;
                for (size_t i = 0; i < e.lits.size(); i++) {
                    s += e.lits[i];
                    if (i < e.kids.size())
                        s += eval(f, *e.kids[i]).text();
                    if (dead)
                        return {};
                }
                if (s.size() > 20000) {
                    tooLong = dead = true;
                    return {};
                }
                return Val::S(s);
            }
            case E::Un: {
                Val v = eval(f, *e.kids[0]);
                if (dead)
                    return {};
                if (!e.err.empty())
                    return fail(f, e.err, e.pos);
                if (v.t == 'B')
                    return Val::B(!v.b);
                return Val::U(e.name == "-" ? 0u - v.u : e.name == "~" ? ~v.u : (u32) !v.u);
            }
            case E::Bin: {
                Val a = eval(f, *e.kids[0]);
                if (dead)
                    return {};
                Val b = eval(f, *e.kids[1]);
                if (dead)
                    return {};
                if (!e.err.empty())
                    return fail(f, e.err, e.pos);
                const std::string& o = e.name;
                if (a.t == 'S') {
                    std::string s;
                    if (o == "+")
                        s = a.s + b.s;
                    else
                        for (u32 i = 0; i < b.u; i++)
                            s += a.s;
                    if (s.size() > 20000) {
                        tooLong = dead = true;
                        return {};
                    }
                    return Val::S(s);
                }
                if (a.t == 'B')
                    return Val::B(o == "==" ? a.b == b.b : o == "&&" ? (a.b && b.b) : (a.b || b.b));
                if (o == "+")
                    return Val::U(a.u + b.u);
                if (o == "-")
                    return Val::U(a.u - b.u);
                if (o == "*")
                    return Val::U(a.u * b.u);
                if (o == "/")
                    return Val::U(a.u / b.u);
                if (o == "%")
                    return Val::U(a.u % b.u);
                if (o == "<")
                    return Val::B(a.u < b.u);
                if (o == "<=")
                    return Val::B(a.u <= b.u);
                if (o == ">")
                    return Val::B(a.u > b.u);
                if (o == ">=")
                    return Val::B(a.u >= b.u);
                return Val::B(a.u == b.u);
            }
            case E::Call: {
                if (!e.err.empty()) {
                    if (e.kids[0]->type != 'F')
                        eval(f, *e.kids[0]);
                    for (size_t i = 1; i < e.kids.size() && !dead; i++)
                        eval(f, *e.kids[i]);
                    if (dead)
                        return {};
                    return fail(f, e.err, e.pos);
                }
                const Fn* fn = find(e.kids[0]->name);
                Frame nf;
                nf.fn = fn;
                nf.prev = f;
                for (size_t i = 1; i < e.kids.size(); i++) {
                    nf.vars[fn->params[i - 1].first] = eval(f, *e.kids[i]);
                    if (dead)
                        return {};
                }
                f->pos = e.pos;
                Val v;
                exec(&nf, fn->body, v);
                return v;
            }
        }
        return {};
    }
    bool exec(Frame* f, const std::vector<PS>& b, Val& ret) {
        for (auto& sp : b) {
            const St& s = *sp;
            switch (s.k) {
                case St::Assign: {
                    Val v = eval(f, *s.e);
                    if (!dead && !s.err.empty())
                        fail(f, s.err, ~0u);
                    if (dead)
                        return true;
                    if (s.left->k == E::Prop)
                        obj[s.left->name] = v;
                    else
                        f->vars[s.left->name] = v;
                    break;
                }
                case St::Print: {
                    Val v = eval(f, *s.e);
                    if (dead)
                        return true;
                    out += v.text() + "\n";
                    break;
                }
                case St::Eval:
                    eval(f, *s.e);
                    if (dead)
                        return true;
                    break;
                case St::Return:
                    ret = eval(f, *s.e);
                    return true;
                case St::If: {
                    Val v = eval(f, *s.e);
                    if (!dead && !s.err.empty())
                        fail(f, s.err, ~0u);
                    if (dead)
                        return true;
                    if (exec(f, v.b ? s.a : s.b, ret))
                        return true;
                    break;
                }
                case St::While:
                    for (;;) {
                        Val v = eval(f, *s.e);
                        if (dead)
                            return true;
                        if (!v.b)
                            break;
                        if (exec(f, s.a, ret))
                            return true;
                    }
                    break;
            }
        }
        return false;
    }
};

static std::string loc(const std::string& src, u32 off) {
    u32 line = 1;
    u32 col = 1;
    for (u32 i = 0; i < off; i++) {
        if (src[i] == '\n') {
            line++;
            col = 1;
        } else {
            col++;
        }
    }
    return "(" + std::to_string(line) + ", " + std::to_string(col) + ")";
}

// Checks "(line, col) error: message\n" and that the location is inside the source.
static void checkErrors(const Script& sc, const char* key) {
    u32 lines = 1;
    for (char c : sc.src)
        lines += c == '\n';
    for (const std::string& e : sc.hooks.errors) {
        unsigned l = 0;
        unsigned c = 0;
        int n = 0;
        bool ok = sscanf(e.c_str(), "(%u, %u) error: %n", &l, &c, &n) == 2 && n > 0;
        VF_CHECK(ok && l >= 1 && l <= lines && c >= 1 && c <= sc.src.size() + 1, key,
                 "error without a location in the source (%u lines): %s", lines, vf::esc(e).c_str());
    }
}

static void initThing(c33::Thing& t, std::map<std::string, Val>& m, Rng& r) {
    t.name = "banana";
    t.value = (u32) r.below(100);
    t.flag = r.chance(1, 2);
    m["name"] = Val::S("banana");
    m["value"] = Val::U(t.value);
    m["flag"] = Val::B(t.flag);
}

static void runProgram(Rng& r, u32 idx, bool withError) {
    Gen g(r);
    g.loops = true;
    g.stringMul = true;
    g.ascii = withError;
    g.program(withError);
    bool noise = r.chance(2, 3);
    Emit em(r, noise);
    em.program(g);
    u64 seedObj = r.u64();

    Model m(g);
    c33::Thing expected;
    {
        Rng r2(seedObj);
        initThing(expected, m.obj, r2);
        Model::Frame f;
        f.fn = &g.fns.back();
        f.prev = nullptr;
        Val v;
        m.exec(&f, f.fn->body, v);
    }
    if (m.tooLong) {
        vf::count("too-long", 1);
        return;
    }
    {
        Script warm(em.s); // interns the labels
        VF_CHECK(warm.hooks.errors.empty(), "valid-rejected", "%s\nin\n%s",
                 vf::esc(warm.hooks.errors.empty() ? "" : warm.hooks.errors[0]).c_str(), em.s.c_str());
        if (!warm.hooks.errors.empty())
            return;
        std::map<std::string, Val> dummy;
        Rng r2(seedObj);
        c33::Thing t;
        initThing(t, dummy, r2);
        warm.run("test", &t);
    }
    size_t live = vf::liveBytes();
    {
        Script sc(em.s);
        std::string first;
        for (u32 round = 0; round < 2; round++) {
            c33::Thing thing;
            std::map<std::string, Val> dummy;
            Rng r2(seedObj);
            initThing(thing, dummy, r2);
            std::string got = sc.run("test", &thing);
            vf::evals(1);
            if (round == 0)
                first = got;
            else
                VF_CHECK(got == first, "same-result", "second run gives\n%s\nafter\n%s\nin\n%s", got.c_str(),
                         first.c_str(), em.s.c_str());
            std::string outPart = got;
            std::string errPart;
            size_t p = got.rfind("error: ");
            if (!m.trace.empty()) {
                if (p == std::string::npos || got.compare(0, m.out.size(), m.out) != 0) {
                    vf::fail("error-missing", "expected %s after\n%s\ngot\n%s\nin\n%s", m.errMsg.c_str(), m.out.c_str(),
                                     got.c_str(), em.s.c_str());
                    return;
                }
                outPart = m.out;
                errPart = got.substr(m.out.size());
            }
            VF_CHECK(outPart == m.out, "output", "got\n%s\nexpected\n%s\nin\n%s", got.c_str(), m.out.c_str(),
                     em.s.c_str());
            if (!m.trace.empty()) {
                std::string want = "error: " + m.errMsg + "\n";
                std::vector<std::string> lines;
                size_t b = 0;
                for (size_t i = 0; i < errPart.size(); i++)
                    if (errPart[i] == '\n') {
                        lines.push_back(errPart.substr(b, i - b));
                        b = i + 1;
                    }
                bool ok = lines.size() == m.trace.size() + 2 && lines[0].compare(0, 7, "error: ") == 0 &&
                          lines.back() == "<failed>";
                if (ok && m.errMsg != "?")
                    ok = lines[0] == "error: " + m.errMsg;
                for (size_t i = 0; ok && i < m.trace.size(); i++) {
                    const std::string& l = lines[i + 1];
                    size_t sp = l.rfind(' ');
                    ok = l.substr(sp + 1) == m.trace[i].first;
                    if (ok && m.trace[i].second != ~0u)
                        ok = l.substr(0, sp) == "@" + loc(em.s, m.trace[i].second);
                }
                std::string tr;
                for (auto& t : m.trace)
                    tr += " " + t.first + (t.second == ~0u ? std::string("?") : loc(em.s, t.second));
                VF_CHECK(ok, "error-report", "got\n%s\nexpected %s at%s\nin\n%s", errPart.c_str(), m.errMsg.c_str(),
                         tr.c_str(), em.s.c_str());
                vf::count("runtime-errors", 1);
            }
            bool same = vf::str(thing.name) == m.obj["name"].s && thing.value == m.obj["value"].u &&
                        thing.flag == m.obj["flag"].b;
            VF_CHECK(same, "host-object", "name %s value %u flag %d expected %s %u %d in\n%s", vf::str(thing.name).c_str(),
                     thing.value, thing.flag, m.obj["name"].s.c_str(), m.obj["value"].u, m.obj["flag"].b,
                     em.s.c_str());
        }
        vf::count("output-lines", (u64) std::count(first.begin(), first.end(), '\n'));
        vf::distinct(vf::hashStr(first) * 31 + vf::hashStr(em.s));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes leaked by\n%s",
             (long long) (vf::liveBytes() - live), em.s.c_str());
    vf::maxOf("steps", m.steps);
}

//---------------------------------------------------------------- damaged programs

// True if running this script surely terminates quickly.
struct Terminates {
    std::map<u32, int> fnIndex;
    std::set<u32> assigned;
    bool ok = true;
    int cur = 0;

    void expr(const Expression* e) {
        if (!e)
            return;
        switch (e->id) {
            case Expression::ID::InterpolatedString:
                for (auto& p : e->interpolatedString()->pieces)
                    expr(p.embed);
                break;
            case Expression::ID::PropertyLookup:
                expr(e->propertyLookup()->obj);
                break;
            case Expression::ID::BinaryOp:
                if (e->binaryOp()->op == MethodTable::BinaryOp::Multiply)
                    ok = false;
                expr(e->binaryOp()->left);
                expr(e->binaryOp()->right);
                break;
            case Expression::ID::UnaryOp:
                expr(e->unaryOp()->expr);
                break;
            case Expression::ID::Call: {
                const Expression* c = e->call()->callable;
                if (c && c->id == Expression::ID::NameLookup) {
                    u32 l = c->nameLookup()->name.idx;
                    auto it = fnIndex.find(l);
                    if (it != fnIndex.end() && it->second >= cur)
                        ok = false;
                    if (assigned.count(l))
                        ok = false;
                } else {
                    // The result of an expression that isn't a name could be any function.
                    if (c && c->id != Expression::ID::IntegerLiteral &&
                        c->id != Expression::ID::InterpolatedString)
                        ok = false;
                    expr(c);
                }
                for (auto& a : e->call()->args)
                    expr(a);
                break;
            }
            default:
                break;
        }
    }
    void names(const StatementBlock* b) {
        if (!b)
            return;
        for (const Statement* s : b->statements) {
            if (s->id == Statement::ID::If_) {
                names(s->if_()->trueBlock);
                names(s->if_()->falseBlock);
            } else if (s->id == Statement::ID::Assignment) {
                const Expression* l = s->assignment()->left;
                if (l && l->id == Expression::ID::NameLookup)
                    assigned.insert(l->nameLookup()->name.idx);
            } else if (s->id == Statement::ID::While_) {
                ok = false;
            }
        }
    }
    void block(const StatementBlock* b) {
        if (!b)
            return;
        for (const Statement* s : b->statements) {
            switch (s->id) {
                case Statement::ID::If_:
                    expr(s->if_()->condition);
                    block(s->if_()->trueBlock);
                    block(s->if_()->falseBlock);
                    break;
                case Statement::ID::Assignment:
                    expr(s->assignment()->left);
                    expr(s->assignment()->right);
                    break;
                case Statement::ID::Evaluate:
                    expr(s->evaluate()->expr);
                    break;
                case Statement::ID::Return_:
                    expr(s->return_()->expr);
                    break;
                default:
                    ok = false;
                    break;
            }
        }
    }
    bool check(const StatementBlock* file) {
        int i = 0;
        for (const Statement* s : file->statements) {
            auto fn = s->functionDefinition();
            // A name defined twice refers to the last definition.
            fnIndex[fn->name.idx] = i++;
            for (Label p : fn->parameterNames)
                assigned.insert(p.idx);
            names(fn->body);
        }
        for (const Statement* s : file->statements) {
            auto fn = s->functionDefinition();
            cur = fnIndex[fn->name.idx];
            block(fn->body);
        }
        return ok;
    }
};

static const char* soupTokens[] = {"fn", "if", "else", "while", "return", "x", "f0", "test", "print", "true", "obj",
                             "name", "0", "1", "23", "\"", "\"a\"", "${", "}", "{", "(", ")", "[", "]", ",", ";",
                             ".", "=", "==", "<", ">", "+", "-", "/", "%", "!", "~", "|", "||", "&", "&&", "/=",
                             "\n", "\n", " ", " ", "//", "/*", "*/", "\\", "$", "?", "@", ":", "\xc3\xa9", "\x80",
                             "_", "#", "'", "fn g(a, b) {\n", "if x {", "}\n", "x = 1\n", "print(x)\n",
                             "99999999999999"};

static std::string damage(std::string s, Rng& r) {
    u32 n = (u32) r.range(1, 4);
    for (u32 i = 0; i < n; i++) {
        u32 p = (u32) r.below((u32) s.size() + 1);
        switch (r.below(5)) {
            case 0:
                s = s.substr(0, p);
                break;
            case 1:
                s.erase(p, r.range(1, 3));
                break;
            case 2: {
                u32 q = (u32) r.below((u32) s.size() + 1);
                s.insert(p, s.substr(q, r.below(20)));
                break;
            }
            default: {
                std::string t = soupTokens[r.below(sizeof(soupTokens) / sizeof(*soupTokens))];
                s.insert(p, t);
                break;
            }
        }
    }
    return s;
}

static void runDamaged(const std::string& text, u32 idx) {
    std::vector<std::string> firstErrors;
    std::string firstOut;
    size_t live = 0;
    for (u32 round = 0; round < 3; round++) {
        if (round == 1)
            live = vf::liveBytes();
        {
            Script sc(text);
            vf::evals(1);
            checkErrors(sc, "error-location");
            std::vector<std::string> errs = sc.hooks.errors;
            std::string out;
            if (errs.empty()) {
                Terminates t;
                if (t.check(sc.file)) {
                    c33::Thing thing;
                    thing.name = "n";
                    out = sc.run("test", &thing);
                    if (round == 0) {
                        vf::count("damaged-but-run", 1);
                        if (out.find("error: ") != std::string::npos)
                            vf::count("damaged-runtime-errors", 1);
                        // An evaluation that fails always says why.
                        bool failed = out.size() >= 9 && out.compare(out.size() - 9, 9, "<failed>\n") == 0;
                        VF_CHECK(!failed || out.find("error: ") != std::string::npos, "silent-failure", "%s",
                                 text.c_str());
                    }
                }
                if (round == 0)
                    vf::count("damaged-still-valid", 1);
            } else if (round == 0) {
                vf::count("syntax-errors", errs.size());
            }
            if (round == 0) {
                firstErrors = errs;
                firstOut = out;
                u64 h = vf::hashStr(out);
                for (auto& e : errs)
                    h = h * 31 + vf::hashStr(e);
                vf::distinct(h);
            } else {
                VF_CHECK(errs == firstErrors && out == firstOut, "deterministic", "%s", vf::esc(text).c_str());
            }
        }
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes leaked by\n%s",
             (long long) (vf::liveBytes() - live), vf::esc(text).c_str());
}

} // namespace

VF_WORKLOAD(programs, 6000, 120000) {
    runProgram(r, idx, false);
}

VF_WORKLOAD(failing, 6000, 120000) {
    runProgram(r, idx, true);
}

VF_WORKLOAD(damaged, 8000, 200000) {
    Gen g(r);
    g.loops = r.chance(1, 4);
    g.stringMul = false;
    g.ascii = r.chance(1, 2);
    g.program(r.chance(1, 4));
    Emit em(r, r.chance(1, 2));
    em.program(g);
    runDamaged(damage(em.s, r), idx);
}

VF_WORKLOAD(soup, 8000, 200000) {
    std::string s;
    u32 n = (u32) r.below(40);
    bool wrapped = r.chance(1, 2);
    if (wrapped)
        s = "fn test(obj) {\n";
    for (u32 i = 0; i < n; i++) {
        s += soupTokens[r.below(sizeof(soupTokens) / sizeof(*soupTokens))];
        if (r.chance(2, 3))
            s += ' ';
    }
    if (wrapped && r.chance(1, 2))
        s += "\n}\n";
    runDamaged(s, idx);
}

// One syntax error in an otherwise valid program is reported once, where it is.
VF_WORKLOAD(located, 4000, 80000) {
    Gen g(r);
    g.loops = true;
    g.stringMul = true;
    g.ascii = true;
    g.program(false);
    Emit em(r, false);
    em.program(g);
    std::string s = em.s;
    std::string want;
    switch (r.below(5)) {
        case 0: { // a stray token where a statement starts
            static const char* stray[] = {"?", "/", "=", "==", ",", "%", "<", "@", "]"};
            const char* t = stray[r.below(9)];
            u32 p = em.stmtStarts[r.below((u32) em.stmtStarts.size())];
            s.insert(p, std::string(t) + "\n");
            want = loc(s, p) + " error: expected a statement; got '" + t + "'\n";
            break;
        }
        case 1: { // missing operand
            static const char* bad[] = {"x = 1 +", "x = ", "print(1 + 2) == ", "x = -"};
            std::string t = bad[r.below(4)];
            u32 p = em.stmtStarts[r.below((u32) em.stmtStarts.size())];
            s.insert(p, t + "\n");
            want = loc(s, p + (u32) t.size()) + " error: expected an expression; got end-of-line\n";
            break;
        }
        case 2: { // unclosed function
            size_t p = s.rfind('}');
            s = s.substr(0, p);
            want = loc(s, (u32) s.size()) + " error: unexpected end-of-file inside function\n";
            break;
        }
        case 3: { // two expressions in a row
            u32 p = em.stmtStarts[r.below((u32) em.stmtStarts.size())];
            s.insert(p, "x = 1 2\n");
            want = loc(s, p + 6) + " error: unexpected '2' after assignment\n";
            break;
        }
        default: { // stray token between functions
            u32 p = (u32) s.size();
            s += "+\nfn last() {\n}\n";
            want = loc(s, p) + " error: unexpected '+'\n";
            break;
        }
    }
    Script sc(s);
    vf::evals(1);
    bool ok = sc.hooks.errors.size() == 1 && sc.hooks.errors[0] == want;
    std::string got;
    for (auto& e : sc.hooks.errors)
        got += e;
    VF_CHECK(ok, "one-error", "got\n%sexpected\n%sin\n%s", got.c_str(), want.c_str(), s.c_str());
    vf::distinct(vf::hashStr(want));
}

// The stack that holds a script's values, with objects of several sizes.
VF_WORKLOAD(stack, 1500, 30000) {
    struct Rec {
        u32 kind;
        u32 value;
    };
    auto check = [&](const AnyObject& o, const Rec& rec, u32 i) -> bool {
        bool ok = ((uptr) o.data & (o.type->alignment - 1)) == 0;
        if (rec.kind == 0)
            ok = ok && o.is<u32>() && *o.cast<u32>() == rec.value;
        else if (rec.kind == 1)
            ok = ok && o.is<bool>() && *o.cast<bool>() == (rec.value & 1);
        else if (rec.kind == 2)
            ok = ok && o.is<String>() && vf::str(*o.cast<String>()) == std::to_string(rec.value);
        else
            ok = ok && o.is<c33::Thing>() && vf::str(o.cast<c33::Thing>()->name) == std::to_string(rec.value) &&
                 o.cast<c33::Thing>()->value == rec.value;
        VF_CHECKR(ok, false, "stack", "object %u of kind %u doesn't hold %u", i, rec.kind, rec.value);
        return ok;
    };
    size_t live = vf::liveBytes();
    {
        ObjectStack st;
        std::vector<Rec> model;
        std::vector<std::pair<ObjectStack::Boundary, size_t>> bounds;
        u32 steps = (u32) r.range(1, r.chance(1, 4) ? 1500 : 200);
        for (u32 i = 0; i < steps; i++) {
            u32 c = (u32) r.below(20);
            if (c < 12) {
                Rec rec;
                rec.kind = (u32) r.below(4);
                rec.value = (u32) r.below(100000);
                TypeDescriptor* type = rec.kind == 0   ? getTypeDescriptor<u32>()
                                       : rec.kind == 1 ? getTypeDescriptor<bool>()
                                       : rec.kind == 2 ? getTypeDescriptor<String>()
                                                       : getTypeDescriptor<c33::Thing>();
                AnyObject o = *st.appendObject(type);
                if (rec.kind == 0)
                    *o.cast<u32>() = rec.value;
                else if (rec.kind == 1)
                    *o.cast<bool>() = rec.value & 1;
                else if (rec.kind == 2)
                    *o.cast<String>() = String::from(rec.value);
                else {
                    o.cast<c33::Thing>()->name = String::from(rec.value);
                    o.cast<c33::Thing>()->value = rec.value;
                }
                model.push_back(rec);
            } else if (c < 16) {
                bounds.push_back({st.end(), model.size()});
            } else if (c < 18 && !bounds.empty()) {
                // Delete everything since a boundary except the last `keep` objects.
                size_t k = bounds.size() - 1 - r.below((u32) (bounds.size() < 3 ? bounds.size() : 3));
                auto b = bounds[k];
                bounds.resize(k);
                size_t n = model.size() - b.second;
                size_t keep = n ? r.below((u32) (n < 6 ? n + 1 : 6)) : 0;
                WeakSequenceRef<AnyObject> to = st.items.end();
                for (size_t j = 0; j < keep; j++)
                    --to;
                st.deleteRange(b.first, to);
                model.erase(model.begin() + (long) b.second, model.end() - (long) keep);
                vf::count("ranges-deleted", 1);
            } else if (!model.empty() && (bounds.empty() || bounds.back().second < model.size())) {
                st.popLastObject();
                model.pop_back();
            }
            vf::evals(1);
        }
        u32 i = 0;
        for (AnyObject& o : st.items) {
            VF_CHECK(i < model.size(), "stack-size", "more than %u objects", (u32) model.size());
            if (i >= model.size() || !check(o, model[i], i))
                return;
            i++;
        }
        VF_CHECK(i == model.size(), "stack-size", "%u objects instead of %u", i, (u32) model.size());
        vf::distinct(i * 1000003u + steps);
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes leaked", (long long) (vf::liveBytes() - live));
}

// Tokens can be pushed back and expanded later.
VF_WORKLOAD(tokens, 3000, 60000) {
    static const char* words[] = {"a", "bc", "if", "x1", "12", "0", "+", "==", "=", "<", "<=", "(", ")", "{", "}",
                                  ",", ".", ";", "!", "&&", "|", "a_very_long_identifier", "/="};
    std::string s;
    struct T {
        u32 off;
        std::string text;
    };
    std::vector<T> toks;
    u32 n = (u32) r.range(1, r.chance(1, 3) ? 600 : 60);
    for (u32 i = 0; i < n; i++) {
        std::string w = words[r.below(23)];
        toks.push_back({(u32) s.size(), w});
        s += w;
        s += r.chance(1, 6) ? "\n" : r.chance(1, 10) ? std::string(r.below(300), ' ') + " " : r.chance(1, 12) ? " /* x */ " : " ";
    }
    Tokenizer tkr;
    tkr.setSourceInput(vf::view(s));
    std::vector<u32> idxs;
    std::vector<u32> types;
    u32 pos = 0;
    for (u32 step = 0; step < n * 3; step++) {
        ExpandedToken t = tkr.readToken();
        vf::evals(1);
        if (pos == n) {
            VF_CHECK(t.type == TokenType::EndOfFile && t.fileOffset == s.size(), "eof", "type %u offset %u of %u",
                     (u32) t.type, t.fileOffset, (u32) s.size());
            tkr.rewindTo(t.tokenIdx);
        } else {
            bool known = pos < idxs.size();
            if (!known) {
                idxs.push_back(t.tokenIdx);
                types.push_back((u32) t.type);
            }
            std::string text = vf::str(t.text);
            bool ok = t.fileOffset == toks[pos].off && t.tokenIdx == idxs[pos] && (u32) t.type == types[pos] &&
                      t.type != TokenType::EndOfFile && text.compare(0, toks[pos].text.size(), toks[pos].text) == 0;
            ok = ok && (known || text == toks[pos].text);
            VF_CHECK(ok, "token", "token %u: offset %u type %u text '%s' expected offset %u '%s'%s", pos, t.fileOffset,
                     (u32) t.type, text.c_str(), toks[pos].off, toks[pos].text.c_str(), known ? " (again)" : "");
            if (!ok)
                return;
            if (t.type == TokenType::Identifier)
                VF_CHECK(vf::str(LabelMap::instance.view(t.label)) == toks[pos].text, "label", "'%s' for '%s'",
                         vf::str(LabelMap::instance.view(t.label)).c_str(), toks[pos].text.c_str());
            pos++;
        }
        if (!idxs.empty() && r.chance(1, 20)) {
            u32 k = (u32) r.below((u32) idxs.size());
            if (idxs[k] <= tkr.nextTokenIdx) {
                tkr.rewindTo(idxs[k]);
                pos = k;
                vf::count("rewinds", 1);
            }
        }
        if (!idxs.empty() && r.chance(1, 4)) {
            u32 k = (u32) r.below((u32) idxs.size());
            ExpandedToken e = tkr.expandToken(idxs[k]);
            std::string text = vf::str(e.text);
            VF_CHECK(e.fileOffset == toks[k].off && (u32) e.type == types[k] &&
                         text.compare(0, toks[k].text.size(), toks[k].text) == 0,
                     "expand", "token %u: offset %u type %u text '%s' expected offset %u '%s'", k, e.fileOffset,
                     (u32) e.type, text.c_str(), toks[k].off, toks[k].text.c_str());
        }
    }
    vf::distinct(vf::hashStr(s));
}


VF_MAIN()

// Host hooks: custom blocks and expression traits the host parses, what it hears of while a
// function runs, names found in the innermost of several name spaces, and where an error inside a
// string is reported.
namespace {
struct TraitHooks : Parser::Hooks {
    Parser* parser = nullptr;
    std::vector<std::string> errors;
    bool tryParseCustomBlock(StatementBlock* stmtBlock) override {
        ExpandedToken token = parser->tkr->readToken();
        if (token.type != TokenType::Identifier || token.text != "group") {
            parser->tkr->rewindTo(token.tokenIdx);
            return false;
        }
        auto stmt = Owned<Statement>::create();
        stmt->tokenIdx = token.tokenIdx;
        auto cb = stmt->customBlock().switchTo().get();
        cb->type = token.label;
        cb->name = parser->tkr->readToken().label;
        cb->body = parseStatementBlock(parser, {"group", "group name"});
        stmtBlock->statements.append(std::move(stmt));
        return true;
    }
    bool tryParseExpressionTrait(AnyOwnedObject* traits) override {
        ExpandedToken token = parser->tkr->readToken();
        if (token.type != TokenType::Identifier || token.text != "mark") {
            parser->tkr->rewindTo(token.tokenIdx);
            return false;
        }
        if (!traits->data)
            *traits = AnyOwnedObject::create<String>();
        *traits->cast<String>() += "m";
        return true;
    }
    void onError(StringView msg) override {
        errors.push_back(vf::str(msg));
    }
};
struct RunHooks : Interpreter::Hooks {
    std::string log;
    void enterCustomBlock(const Statement::CustomBlock* cb) override {
        log += "enter " + vf::str(LabelMap::instance.view(cb->name)) + "\n";
    }
    void exitCustomBlock(const Statement::CustomBlock* cb) override {
        log += "exit " + vf::str(LabelMap::instance.view(cb->name)) + "\n";
    }
    void onEvaluate(const AnyObject& value) override {
        log += value.is<u32>() ? "eval " + std::to_string(*value.cast<u32>()) + "\n" : std::string("eval ?\n");
    }
};
struct HookGen {
    vf::Rng& r;
    std::string src;
    std::string log;                     // What the hooks hear
    std::vector<std::string> traits;     // Of each evaluated expression, in order of text
    std::map<std::string, u32> outer;    // What a name means before any assignment
    std::map<std::string, u32> locals;
    bool stopped = false;                // By a return or an error
    u32 returned = 0;
    u32 groups = 0;

    void value(u32& v) {
        if (!outer.empty() && r.chance(2, 3)) {
            auto it = outer.begin();
            std::advance(it, r.below((u32) outer.size()));
            src += it->first;
            v = locals.count(it->first) ? locals[it->first] : it->second;
        } else {
            v = r.below(1000);
            src += std::to_string(v);
        }
    }
    void block(u32 depth, const std::string& indent) {
        for (u32 n = 1 + r.below(4); n > 0; n--) {
            src += indent;
            bool live = !stopped;
            u32 c = r.below(12);
            if (c < 4 || (depth == 0 && c < 8)) {
                std::string m;
                for (u32 k = r.below(3); k > 0; k--) {
                    src += "mark ";
                    m += "m";
                }
                u32 v;
                value(v);
                if (r.chance(1, 4)) { // After the expression too
                    src += " mark";
                    m += "m";
                }
                traits.push_back(m);
                src += "\n";
                if (live)
                    log += "eval " + std::to_string(v) + "\n";
            } else if (c < 6) {
                std::string name = "g" + std::to_string(groups++);
                src += "group " + name + " {\n";
                if (live)
                    log += "enter " + name + "\n";
                block(depth - 1, indent + "  ");
                src += indent + "}\n";
                if (live)
                    log += "exit " + name + "\n";
            } else if (c < 8) {
                bool cond = r.chance(1, 2);
                src += cond ? "if yes {\n" : "if no {\n";
                dead(!cond, depth, indent);
                if (r.chance(1, 2)) {
                    src += indent + "} else {\n";
                    dead(cond, depth, indent);
                }
                src += indent + "}\n";
            } else if (c == 8 && r.chance(1, 3)) {
                src += "return ";
                u32 v;
                value(v);
                src += "\n";
                if (live) {
                    stopped = true;
                    returned = v;
                }
            } else if (c == 9 && r.chance(1, 2)) {
                static const char* bad[] = {"test", "nobody", "yes(1)"};
                u32 k = r.below(3);
                src += "n0 = \"";
                for (u32 q = r.below(3); q > 0; q--)
                    src += r.chance(1, 2) ? "${yes}" : "text ";
                src += "${";
                src += std::string(r.below(3), ' ');
                u32 at = (u32) src.size() + (k == 2 ? 3 : 0);
                src += std::string(bad[k]) + "} ${no}\"\n";
                if (live) {
                    stopped = true;
                    failed = true;
                    errorAt = at;
                }
            } else {
                std::string name = "n" + std::to_string(r.below(6));
                src += name + " = ";
                u32 v;
                value(v);
                src += "\n";
                if (live)
                    locals[name] = v;
            }
        }
    }
    bool failed = false;
    u32 errorAt = 0;
    void dead(bool isDead, u32 depth, const std::string& indent) {
        bool was = stopped;
        if (isDead)
            stopped = true;
        block(depth - 1, indent + "  ");
        if (isDead)
            stopped = was;
    }
};
} // namespace

VF_WORKLOAD(hooked, 6000, 100000) {
    u32 levels = 1 + r.below(4);
    std::vector<std::map<std::string, u32>> spaces(levels);
    HookGen g{r};
    for (auto& space : spaces)
        for (u32 k = r.below(6); k > 0; k--) {
            std::string name = "n" + std::to_string(r.below(6));
            space[name] = r.below(1000);
            g.outer[name] = space[name]; // The last space listed is the innermost
        }
    g.src = "fn test() {\n";
    g.block(3, "  ");
    g.src += "}\n";

    Tokenizer tkr;
    tkr.setSourceInput(vf::view(g.src));
    Parser parser;
    parser.tkr = &tkr;
    TraitHooks hooks;
    hooks.parser = &parser;
    parser.hooks = &hooks;
    Owned<StatementBlock> file = parser.parseFile();
    VF_CHECK(hooks.errors.empty() && file->statements.numItems() == 1, "hooked-rejected", "%s\nin\n%s", hooks.errors.empty() ? "" : hooks.errors[0].c_str(), g.src.c_str());
    const Statement::FunctionDefinition* fn = file->statements[0]->functionDefinition().get();
    std::vector<std::string> traits;
    std::function<void(const StatementBlock*)> visit = [&](const StatementBlock* b) {
        for (const Statement* s : b->statements) {
            if (s->id == Statement::ID::Evaluate) {
                const AnyOwnedObject& o = s->evaluate()->traits;
                traits.push_back(o.data ? vf::str(*o.cast<String>()) : std::string());
            } else if (s->id == Statement::ID::CustomBlock)
                visit(s->customBlock()->body);
            else if (s->id == Statement::ID::If_) {
                visit(s->if_()->trueBlock);
                if (s->if_()->falseBlock)
                    visit(s->if_()->falseBlock);
            }
        }
    };
    visit(fn->body);
    VF_CHECK(traits == g.traits, "traits", "%zu expressions, not %zu, or other traits in\n%s", traits.size(), g.traits.size(), g.src.c_str());

    std::vector<std::unique_ptr<HashMap<VariableMapTraits>>> maps;
    std::vector<u32> storage;
    storage.reserve(100);
    auto label = [](const std::string& s) { return LabelMap::instance.insertOrFind(vf::view(s)); };
    Interpreter interp;
    HashMap<VariableMapTraits> base;
    base.insertOrFind(label("yes"))->obj = AnyObject::bind(&theTrue);
    base.insertOrFind(label("no"))->obj = AnyObject::bind(&theFalse);
    base.insertOrFind(label("test"))->obj = AnyObject::bind(fn);
    interp.outerNameSpaces.append(&base);
    for (auto& space : spaces) {
        maps.emplace_back(new HashMap<VariableMapTraits>);
        for (auto& kv : space) {
            storage.push_back(kv.second);
            maps.back()->insertOrFind(label(kv.first))->obj = AnyObject::bind(&storage.back());
        }
        interp.outerNameSpaces.append(maps.back().get());
    }
    MemOutStream outs;
    interp.outs = &outs;
    interp.tkr = &tkr;
    RunHooks runHooks;
    interp.hooks = &runHooks;
    interp.error = [](BaseInterpreter* b, StringView) {
        Interpreter* interp = static_cast<Interpreter*>(b);
        for (Interpreter::StackFrame* frame = interp->currentFrame; frame; frame = frame->prevFrame)
            interp->outs->format("{}\n", interp->tkr->expandToken(frame->tokenIdx).fileOffset);
    };
    Interpreter::StackFrame frame;
    frame.interp = &interp;
    frame.functionDef = fn;
    MethodResult res = execFunction(&frame, fn->body);
    std::string where = vf::str(outs.moveToString());
    VF_CHECK((res == MethodResult::Error) == g.failed && where == (g.failed ? std::to_string(g.errorAt) + "\n" : std::string()), "hooked-error",
             "error reported at %s, expected %s in\n%s", where.c_str(), g.failed ? std::to_string(g.errorAt).c_str() : "none", g.src.c_str());
    VF_CHECK(runHooks.log == g.log, "hooked-log", "got\n%s\nexpected\n%s\nin\n%s", runHooks.log.c_str(), g.log.c_str(), g.src.c_str());
    if (!g.failed && g.stopped)
        VF_CHECK(interp.returnValue.is<u32>() && *interp.returnValue.cast<u32>() == g.returned, "hooked-return", "not %u in\n%s", g.returned, g.src.c_str());
    size_t k = 0;
    for (auto& space : spaces)
        for (auto& kv : space)
            VF_CHECK(storage[k++] == kv.second, "outer-changed", "%s in\n%s", kv.first.c_str(), g.src.c_str());
    vf::evals(1);
    vf::distinct(vf::hashStr(g.src));
}
