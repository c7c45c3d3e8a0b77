// C37: code generation describes the annotated declarations, repeats itself exactly, and touches only its outputs.
#include "toolvf.h"
using namespace vf;
using namespace vf::tool;

namespace {

Str pickS(Rng& r, std::vector<Str> v) {
    return v[r.below((uint32_t) v.size())];
}

// ---- What a source file says -------------------------------------------------------------------

enum Kind { Space, Record, Enum, Field, Noise, ReflectOn, ReflectOff };

struct Node {
    Kind kind = Noise;
    Str name, text;          // Field: text is the declaration. Record: text is what stands between the name and '{'.
    Str key;                 // class key
    int switch_ = 0;         // Record: 1 make switch, 2 make reflected switch
    bool reflected = false;  // Enum
    bool oneLine = false;    // Record: the closing brace follows other things on its line
    Str prefix;              // template header
    Str tail;                // after the closing brace: declarators
    std::vector<Str> names;  // Field: what is declared. Enum: enumerators.
    Str cmd;                 // how the command is spelled
    std::vector<Node> kids;
};

struct Block {
    char kind; // C class, E enum, T switch table, R reflected switch
    Str name;
    std::vector<Str> items;
    bool operator<(const Block& o) const {
        return std::tie(kind, name, items) < std::tie(o.kind, o.name, o.items);
    }
    Str show() const {
        Str s = Str(1, kind) + ":" + name + "(";
        for (auto& i : items)
            s += i + " ";
        return s + ")";
    }
};
typedef std::vector<Block> Blocks;

struct SwitchOut {
    Str file, className;
    std::vector<Str> states;
    bool reflected;
};

struct Src {
    Str dir, base, ext;
    std::vector<Node> top;
    Str eol = "\n";
    bool noFinalNewline = false;
    Str rel() const {
        return dir + "/" + base + ext;
    }
};

Str joined(const std::vector<Str>& v, const Str& sep) {
    Str s;
    for (size_t i = 0; i < v.size(); i++)
        s += (i ? sep : Str()) + v[i];
    return s;
}

// ---- Making sources ----------------------------------------------------------------------------

struct Gen {
    Rng& r;
    unsigned uid = 0;
    bool simple; // only what can be compiled
    Gen(Rng& r, bool simple = false) : r(r), simple(simple) {
    }
    Str fresh(const Str& stem) {
        return stem + fmt("%u", uid++);
    }
    Str type() {
        if (simple)
            return pickS(r, {"u32", "String", "Array<String>", "float", "bool", "Array<u32>", "s32"});
        return pickS(r, {"u32", "String", "Array<String>", "Owned<Node>", "const char*", "ply::Array<ply::Array<u32>>", "Map<String, Array<float>>", "bool",
                       "std::vector<int>", "Foo*", "unsigned int", "void*", "Holder<(3 > 2), int>", "typename T::Other", "mutable u32", "volatile int",
                       "struct Other*", "Ref&", "const Tuple<int, StringView>&", "decltype(zero)"});
    }
    Str cmt() {
        return pickS(r, {"// plain", "// reflect off", "// plywood is nice", "/* ply reflect off */", "// see: ply reflect off", "// PLY_REFLECT()", "/* multi\n   line { */",
                       "// \"quote", "//ply", "// }", "// #include \"codegen/x.inl\" //@@ply", "// %% not", "//"});
    }
    Node field() {
        Node n;
        n.kind = Field;
        Str a = fresh("m");
        n.names = {a};
        if (simple) {
            n.text = type() + " " + a + ";";
            return n;
        }
        switch (r.below(9)) {
            case 0: n.text = "u32 " + a + " = " + pickS(r, {"0", "5u * (3 + 2)", "(1 << 4)", "sizeof(int)", "'}'", "f({1, 2})", "\"// ply reflect off\""}) + ";"; break;
            case 1: n.text = type() + " " + a + "{" + pickS(r, {"", "1.f", "1, 2", "\"}\"", "{1}, {2}"}) + "};"; break;
            case 2: n.text = "float " + a + "[4];"; break;
            case 3: n.text = "int " + a + "[2][3] = {{1, 2, 3}, {4, 5, 6}};"; break;
            case 4: {
                Str b = fresh("m"), c = fresh("m");
                if (r.chance(1, 2)) {
                    n.text = "int " + a + ", " + b + " = 2;";
                    n.names = {a, b};
                } else {
                    n.text = "char *" + a + " = nullptr, " + b + "[3], **" + c + ";";
                    n.names = {a, b, c};
                }
                break;
            }
            case 5: n.text = "u32 " + a + " : 3;"; break;
            default: n.text = type() + " " + a + (r.chance(1, 3) ? " = {}" : "") + ";"; break;
        }
        if (r.chance(1, 6))
            n.text += " " + pickS(r, {"// trailing", "/* c */", "// ply_reflect off"});
        if (r.chance(1, 8))
            n.text = "/* lead */ " + n.text;
        return n;
    }
    Node noise(bool inRecord, const Str& cls) {
        Node n;
        if (simple) {
            n.text = inRecord ? "u32 " + fresh("get") + "() const {\n    return 1;\n}" : "static const u32 " + fresh("k") + " = 1;";
            return n;
        }
        Str f = fresh("f");
        if (r.chance(1, 3)) {
            n.text = cmt();
            return n;
        }
        if (inRecord && r.chance(2, 3)) {
            Str c = cls.empty() ? Str("X") : cls;
            n.text = pickS(r, {"void " + f + "(int x);", "int " + f + "() const {\n    return 1;\n}", "virtual void " + f + "() = 0;", "static int " + f + "(int a, int b = 3) { return a; }",
                             "PLY_INLINE const String& " + f + "() const {\n    if (true) { // comment }\n    }\n    return x;\n}", Str("public:"), Str("private:"),
                             "friend struct " + f + ";", "using " + f + " = Array<int>;", "template <typename U>\nU* " + f + "(U&& u) {\n    return {};\n}",
                             c + "() {\n}", c + "(" + c + "&& other) : a{other.a}, b(other.b) {\n}", "~" + c + "();", "virtual ~" + c + "() = default;",
                             "bool operator==(const " + c + "& o) const;", c + "& operator=(" + c + "&&) = delete;", "struct " + f + ";", "PLY_NO_INLINE void " + f + "();",
                             "static PLY_INLINE " + c + "* " + f + "() {\n    struct Local {\n        int a;\n    };\n    return nullptr;\n}", Str(";")});
            return n;
        }
        n.text = pickS(r, {"#define " + f + " { struct", "#if 1\n#endif", "using " + f + " = int;", "struct " + f + ";", "enum class " + f + "_e { A, B };", "static_assert(1, \"x\");",
                         "enum " + f + "_g {\n    // not for ply\n    " + f + "_g1,\n};", "struct " + f + "_s {\n    int x;\n};", "template <typename T> struct " + f + ";",
                         "#include \"codegen/other.inl\" //%%", "#include <vector>", "#pragma warning(x)"});
        if (!inRecord && r.chance(1, 3))
            n.text = pickS(r, {"extern int " + f + ";", "void " + f + "() {\n    int x = '{';\n}", "int " + f + " = 3, " + f + "b[2] = {1, 2};", "using namespace std;",
                             "extern \"C\" void " + f + "();", "inline auto " + f + "() -> int {\n    return 3;\n}", "PLY_STATIC_ASSERT(sizeof(int) == 4);",
                             "static const char* " + f + " = R\"(\n// ply make switch\n})\";"});
        return n;
    }
    void reflectOn(std::vector<Node>* k) {
        Node n;
        n.kind = ReflectOn;
        n.text = simple ? Str("PLY_REFLECT()") : pickS(r, {"PLY_REFLECT()", "PLY_REFLECT()", "PLY_REFLECT();", "PLY_STATE_REFLECT()", "PLY_REFLECT( )"});
        k->push_back(n);
    }
    void reflectOff(std::vector<Node>* k) {
        Node n;
        n.kind = ReflectOff;
        n.text = pickS(r, {"// ply reflect off", "// ply reflect off", "//ply reflect off", "//   ply   reflect  off  ", "// %%end", "// ply reflect off "});
        k->push_back(n);
    }
    Node enum_() {
        Node n;
        n.kind = Enum;
        n.name = fresh("En");
        n.key = pickS(r, {"enum", "enum class"});
        if (simple)
            n.key = "enum class";
        n.text = r.chance(1, 4) ? " : u8" : "";
        n.reflected = r.chance(2, 3);
        if (r.chance(1, 4))
            n.oneLine = true;
        unsigned c = 1 + r.below(6);
        for (unsigned i = 0; i < c; i++)
            n.names.push_back(fresh("e"));
        unsigned k = r.below(6);
        if (k < 3)
            n.names.push_back("Count");
        else if (k == 3)
            n.names.insert(n.names.begin() + r.below((uint32_t) n.names.size()), "Count");
        else if (k == 4)
            n.names.push_back("Counted");
        n.cmd = pickS(r, {"// ply reflect enum", "//ply reflect enum", "//  ply  reflect   enum "});
        n.tail = fmt("%u", r.below(4)); // where the command stands, and the trailing comma
        return n;
    }
    Node record(int depth, bool state = false) {
        Node n;
        n.kind = Record;
        n.name = state ? fresh(pickS(r, {"St", "Q", "Ab"})) : fresh("Rec");
        n.key = simple ? "struct" : pickS(r, {"struct", "struct", "class"});
        if (!simple) {
            if (r.chance(1, 3))
                n.text = pickS(r, {" : Base", " final", " : public A<int>, private B", " : Base<(1 > 0), struct Z>"});
            if (!state && r.chance(1, 10))
                n.prefix = pickS(r, {"template <typename T>\n", "template <typename T, u32 N = (3 < 4)> ", "template <> "});
        }
        bool sw = !state ? r.chance(1, 4) : r.chance(1, 8);
        if (depth >= 3)
            sw = false;
        if (sw) {
            n.switch_ = 1 + (int) r.below(2);
            n.cmd = n.switch_ == 2 ? pickS(r, {"// ply make reflected switch", "//  ply make  reflected switch "}) : pickS(r, {"// ply make switch", "//ply make switch"});
            n.prefix.clear();
            if (simple) {
                n.switch_ = 2;
                n.cmd = "// ply make reflected switch";
            }
            unsigned c = 1 + r.below(4);
            for (unsigned i = 0; i < c; i++) {
                if (!simple && r.chance(1, 5))
                    n.kids.push_back(cmtNode());
                n.kids.push_back(record(depth + 1, true));
            }
            if (!simple && r.chance(1, 4)) {
                Node m;
                m.text = "void " + fresh("after") + "();";
                n.kids.push_back(m);
            }
            if (!simple && r.chance(1, 4))
                n.oneLine = true;
            return n;
        }
        bool on = r.chance(3, 4), open = false, done = false;
        if (simple && state)
            on = true;
        unsigned c = r.below(7);
        if (on && r.chance(2, 3)) {
            reflectOn(&n.kids);
            open = true;
        }
        for (unsigned i = 0; i < c; i++) {
            if (on && !open && !done && r.chance(1, 2)) {
                reflectOn(&n.kids);
                open = true;
            }
            unsigned k = r.below(8);
            if (k < 4)
                n.kids.push_back(field());
            else if (k < 5 && depth < 3)
                n.kids.push_back(record(depth + 1));
            else if (k < 6)
                n.kids.push_back(enum_());
            else
                n.kids.push_back(noise(true, n.name));
            if (open && r.chance(1, 8)) {
                reflectOff(&n.kids);
                open = false;
                done = true;
            }
        }
        if (on && !open && !done) {
            reflectOn(&n.kids);
            open = true;
        }
        if (open)
            reflectOff(&n.kids);
        if (!simple && n.prefix.empty() && depth > 0 && !state && r.chance(1, 6)) {
            n.names.push_back(fresh("v"));
            n.tail = " " + n.names[0] + (r.chance(1, 3) ? " = {}" : "");
        }
        return n;
    }
    Node cmtNode() {
        Node n;
        n.text = cmt();
        return n;
    }
    void decls(std::vector<Node>* out, int depth, unsigned max) {
        unsigned c = 1 + r.below(max);
        for (unsigned i = 0; i < c; i++) {
            unsigned k = r.below(10);
            if (k < 2 && depth < 2) {
                Node n;
                n.kind = Space;
                n.name = fresh("ns");
                decls(&n.kids, depth + 1, 3);
                out->push_back(n);
            } else if (k < 6)
                out->push_back(record(0));
            else if (k < 8)
                out->push_back(enum_());
            else
                out->push_back(noise(false, ""));
        }
    }
};

// ---- What the outputs must be ------------------------------------------------------------------

struct Walk {
    // With the include lines: 0 none, 1 where they belong, 2 stale ones left by earlier versions of the file
    int includes;
    Rng* r = nullptr;
    Str out;
    Blocks classes, enums, tables;
    std::vector<SwitchOut> switches;
    std::vector<std::pair<bool, Str>> path; // is a namespace, name
    bool anyOneLine = false;
    std::vector<size_t> open; // per record level: which class collects members

    Str qual(const Str& sep = "::", bool spaces = true) const {
        std::vector<Str> v;
        for (auto& p : path)
            if (spaces || !p.first)
                v.push_back(p.second);
        return joined(v, sep);
    }
    void indent(int d) {
        out += Str((size_t) d * 4, ' ');
    }
    void lines_(const Str& text, int d) {
        if (text.find("R\"(") != Str::npos || text[0] == '#') {
            out += text + "\n";
            return;
        }
        for (const Str& l : lines(text)) {
            indent(d);
            out += l + "\n";
        }
    }
    void stale(int d) {
        (void) d;
        if (includes == 2 && r->chance(1, 3))
            out += pickS(*r, {"#include \"codegen/switch-Old.inl\" //@@ply\n", "    #include \"codegen/switch-a-b.inl\" //@@ply\n", "#include \"codegen/gone.inl\" //@@ply  \n",
                            "#include \"codegen/switch-Old.inl\" //@@ply\n#include \"codegen/switch-Old.inl\" //@@ply\n"});
    }
    void node(const Node& n, int d) {
        switch (n.kind) {
            case Space:
                indent(d);
                out += "namespace " + n.name + " {\n";
                path.push_back({true, n.name});
                for (auto& k : n.kids)
                    node(k, d);
                path.pop_back();
                indent(d);
                out += "} // namespace " + n.name + "\n";
                break;
            case Field:
            case Noise:
            case ReflectOn:
            case ReflectOff:
                lines_(n.text, d);
                break;
            case Enum: {
                path.push_back({false, n.name});
                if (n.reflected) {
                    Str pre;
                    for (auto& p : path)
                        if (p.first)
                            pre += p.second + "::";
                    Block b{'E', pre + "|" + qual("::", false), n.names};
                    if (b.items.back() == "Count")
                        b.items.pop_back();
                    enums.push_back(b);
                }
                path.pop_back();
                indent(d);
                out += n.key + " " + n.name + n.text + " {";
                size_t where = n.tail == "0" ? n.names.size() - 1 : 0;
                Str sep = n.oneLine && !n.reflected ? " " : "\n" + Str((size_t) d * 4 + 4, ' ');
                for (size_t i = 0; i < n.names.size(); i++) {
                    if (n.reflected && i == where) {
                        out += (n.oneLine ? Str(" ") : "\n" + Str((size_t) d * 4 + 4, ' ')) + n.cmd;
                    }
                    out += sep + n.names[i];
                    if (n.tail == "1" && i % 2 == 0)
                        out += fmt(" = %u", (unsigned) i * 3 + 1);
                    if (n.tail == "2" && i % 2 == 1)
                        out += fmt(" = (1 << %u) + /* } */ 2", (unsigned) i);
                    if (i + 1 < n.names.size() || n.tail != "3")
                        out += ",";
                }
                out += n.oneLine ? Str(" ") : "\n" + Str((size_t) d * 4, ' ');
                out += "};\n";
                break;
            }
            case Record: {
                if (!n.prefix.empty()) {
                    indent(d);
                    out += n.prefix;
                    if (n.prefix.back() == '\n')
                        indent(d);
                } else
                    indent(d);
                out += n.key + " " + n.name + n.text + " {";
                path.push_back({false, n.name});
                if (n.switch_)
                    out += (n.oneLine ? Str(" ") : "\n" + Str((size_t) d * 4 + 4, ' ')) + n.cmd;
                out += "\n";
                size_t mine = (size_t) -1;
                bool open = false;
                std::vector<Str> states;
                for (auto& k : n.kids) {
                    if (n.switch_)
                        stale(d);
                    if (k.kind == ReflectOn) {
                        mine = classes.size();
                        classes.push_back({'C', qual(), {}});
                        open = true;
                    } else if (k.kind == ReflectOff)
                        open = false;
                    else if ((k.kind == Field || k.kind == Record) && open)
                        // A nested record's own declarators are members of this one.
                        addMembers(mine, k);
                    if (k.kind == Record)
                        states.push_back(k.name);
                    node(k, d + 1);
                }
                if (n.switch_) {
                    SwitchOut s;
                    s.file = "switch-" + qual("-") + ".inl";
                    s.className = n.name;
                    s.states = states;
                    s.reflected = n.switch_ == 2;
                    tables.push_back({'T', qual(), states});
                    if (s.reflected)
                        tables.push_back({'R', qual(), states});
                    switches.push_back(s);
                    if (n.oneLine) {
                        anyOneLine = true;
                        // The brace stands after the last kid's line.
                        while (!out.empty() && out.back() == '\n')
                            out.pop_back();
                        // ... unless that line ends in a comment.
                        size_t nl = out.rfind('\n');
                        if (out.find("//", nl == Str::npos ? 0 : nl) != Str::npos || out[nl + 1] == '#')
                            out += "\n";
                        if (includes == 1)
                            out += "\n#include \"codegen/" + s.file + "\" //@@ply\n";
                        out += " };\n";
                        path.pop_back();
                        break;
                    }
                    stale(d);
                    if (includes == 1)
                        out += "#include \"codegen/" + s.file + "\" //@@ply\n";
                    if (includes == 2 && r->chance(1, 2))
                        out += "#include \"codegen/" + s.file + "\" //@@ply\n";
                }
                path.pop_back();
                indent(d);
                out += "}" + n.tail + ";\n";
                break;
            }
        }
    }
    void addMembers(size_t cls, const Node& k) {
        pending.push_back({cls, k.names});
        for (auto& m : k.names)
            classes[cls].items.push_back(m);
    }
    std::vector<std::pair<size_t, std::vector<Str>>> pending;
};

Walk walk(const Src& s, int includes, Rng* r = nullptr) {
    Walk w;
    w.includes = includes;
    w.r = r;
    for (auto& n : s.top)
        w.node(n, 0);
    if (s.noFinalNewline && !w.out.empty() && w.out.back() == '\n')
        w.out.pop_back();
    return w;
}

Str withEol(const Str& text, const Str& eol) {
    if (eol == "\n")
        return text;
    Str o;
    for (char c : text)
        o += c == '\n' ? eol : Str(1, c);
    return o;
}
Str squeeze(const Str& s) {
    Str o;
    for (char c : s)
        if (!strchr(" \t\r\n", c))
            o += c;
    return o;
}
// Undoes the newline format, requiring it to be the same throughout.
bool asLF(const Str& raw, const Str& eol, Str* out) {
    out->clear();
    for (size_t i = 0; i < raw.size(); i++) {
        if (raw[i] == '\r') {
            if (eol == "\n" || i + 1 >= raw.size() || raw[i + 1] != '\n')
                return false;
            continue;
        }
        if (raw[i] == '\n' && eol == "\r\n" && (i == 0 || raw[i - 1] != '\r'))
            return false;
        *out += raw[i];
    }
    return true;
}

bool call(const Str& line, const Str& macro, Str* args) {
    if (line.compare(0, macro.size() + 1, macro + "(") != 0 || line.back() != ')')
        return false;
    *args = line.substr(macro.size() + 1, line.size() - macro.size() - 2);
    return true;
}
std::pair<Str, Str> two(const Str& args) {
    size_t c = args.rfind(", ");
    return c == Str::npos ? std::make_pair(args, Str()) : std::make_pair(args.substr(0, c), args.substr(c + 2));
}
// Reads a generated file back; false if a line makes no sense where it is.
bool parseInl(const Str& text, Blocks* out, Str* why) {
    Block* cur = nullptr;
    for (const Str& l : lines(text)) {
        Str a;
        if (l.empty())
            continue;
        *why = l;
        if (!cur) {
            if (call(l, "PLY_STRUCT_BEGIN", &a))
                out->push_back({'C', a, {}});
            else if (call(l, "PLY_ENUM_BEGIN", &a))
                out->push_back({'E', two(a).first + "|" + two(a).second, {}});
            else if (l.compare(0, 17, "PLY_ENUM_BEGIN(, ") == 0)
                out->push_back({'E', "|" + l.substr(17, l.size() - 18), {}});
            else if (call(l, "SWITCH_TABLE_BEGIN", &a))
                out->push_back({'T', a, {}});
            else if (call(l, "PLY_SWITCH_BEGIN", &a))
                out->push_back({'R', a, {}});
            else
                return false;
            cur = &out->back();
            continue;
        }
        switch (cur->kind) {
            case 'C':
                if (call(l, "PLY_STRUCT_MEMBER", &a))
                    cur->items.push_back(a);
                else if (l == "PLY_STRUCT_END()")
                    cur = nullptr;
                else
                    return false;
                break;
            case 'E':
                if (call(l, "PLY_ENUM_IDENTIFIER", &a))
                    cur->items.push_back(a);
                else if (l == "PLY_ENUM_END()")
                    cur = nullptr;
                else
                    return false;
                break;
            case 'T':
                if (call(l, "SWITCH_TABLE_STATE", &a)) {
                    if (two(a).first != cur->name)
                        return false;
                    cur->items.push_back(two(a).second);
                } else if (call(l, "SWITCH_TABLE_END", &a)) {
                    if (a != cur->name)
                        return false;
                    cur = nullptr;
                } else
                    return false;
                break;
            default:
                if (call(l, "PLY_SWITCH_MEMBER", &a))
                    cur->items.push_back(a);
                else if (l == "PLY_SWITCH_END()")
                    cur = nullptr;
                else
                    return false;
        }
    }
    return cur == nullptr;
}
Str lowerFirst(const Str& s) {
    Str t = s;
    if (t[0] >= 'A' && t[0] <= 'Z')
        t[0] = (char) (t[0] + 32);
    return t;
}
// The ID enum, the storage and the accessors of a switch, in one shape whatever the layout.
Str switchShape(const SwitchOut& s) {
    Str t = "enumclassID:u16{";
    for (auto& x : s.states)
        t += x + ",";
    t += "Count,};unionStorage_{";
    for (auto& x : s.states)
        t += x + lowerFirst(x) + ";";
    t += "PLY_INLINEStorage_(){}PLY_INLINE~Storage_(){}};SWITCH_FOOTER(" + s.className + "," + s.states[0] + ")";
    for (auto& x : s.states)
        t += "SWITCH_ACCESSOR(" + x + "," + lowerFirst(x) + ")";
    if (s.reflected)
        t += "PLY_SWITCH_REFLECT()";
    return t;
}

// ---- A tree ------------------------------------------------------------------------------------

struct Tree {
    std::vector<Src> files;
    std::map<Str, Str> others; // files that are none of the generator's business
    Str eol = "\n";            // what the workspace is set to
    Str settings = "{\n}\n";
};

Src* pickFile(Tree* t, Rng& r) {
    return &t->files[r.below((uint32_t) t->files.size())];
}

Tree makeTree(Rng& r, Gen& g) {
    Tree t;
    std::vector<Str> dirs{"repos/app"};
    for (const char* d : {"repos/app/core", "repos/app/core/deep", "repos/lib-x/src", "repos/lib-x"})
        if (r.chance(1, 2))
            dirs.push_back(d);
    std::set<Str> used;
    unsigned c = 1 + r.below(7);
    for (unsigned i = 0; i < c; i++) {
        Src s;
        if (!t.files.empty() && r.chance(1, 3)) {
            // A header and a source of one name are described by the same file.
            s = t.files[r.below((uint32_t) t.files.size())];
            s.ext = s.ext == ".h" ? ".cpp" : ".h";
            s.top.clear();
            if (!used.insert(s.rel()).second)
                continue;
            g.decls(&s.top, 0, 5);
            t.files.push_back(s);
            continue;
        }
        s.dir = r.pick(dirs);
        s.base = pickS(r, {"alpha", "Beta", "gamma.priv", "delta_x", "Core"});
        s.ext = pickS(r, {".h", ".cpp"});
        if (!used.insert(s.rel()).second)
            continue;
        if (r.chance(1, 4))
            s.eol = "\r\n";
        g.decls(&s.top, 0, 5);
        s.noFinalNewline = r.chance(1, 5);
        t.files.push_back(s);
    }
    const char* trap = "// ply nonsense\nstruct T {\n    // ply make switch\n    struct A {};\n};\n";
    if (r.chance(1, 2))
        t.others["repos/app/notes.txt"] = trap;
    if (r.chance(1, 2))
        t.others["repos/app/x.modules.cpp"] = trap;
    if (r.chance(1, 2)) {
        t.others["repos/app/closed/nocodegen"] = "";
        t.others["repos/app/closed/a.h"] = trap;
        t.others["repos/app/closed/sub/b.cpp"] = trap;
    }
    if (r.chance(1, 3))
        t.others["repos/app/empty.cpp"] = "";
    if (r.chance(1, 3))
        t.others["data/other/x.cpp"] = trap;
    switch (r.below(3)) {
        case 0: t.settings = "{\n  \"sourceNewLines\": \"lf\"\n}\n"; break;
        case 1:
            t.settings = "{\n  \"sourceNewLines\": \"crlf\"\n}\n";
            t.eol = "\r\n";
            break;
        default: break;
    }
    return t;
}

struct Written {
    std::map<Str, Str> text; // rel path -> bytes on disk
};

// The outputs for the files of a tree
struct Expected {
    std::map<Str, Blocks> inls;
    std::map<Str, SwitchOut> switches;
};
Expected expect(const Tree& t) {
    Expected e;
    for (auto& s : t.files) {
        Walk w = walk(s, 0);
        Blocks all = w.classes;
        all.insert(all.end(), w.enums.begin(), w.enums.end());
        all.insert(all.end(), w.tables.begin(), w.tables.end());
        if (!all.empty()) {
            Blocks& b = e.inls[s.dir + "/codegen/" + s.base + ".inl"];
            b.insert(b.end(), all.begin(), all.end());
        }
        for (auto& x : w.switches)
            e.switches[s.dir + "/codegen/" + x.file] = x;
    }
    return e;
}

Str fileText(const Str& snapEntry) {
    size_t c = snapEntry.find(':');
    return c == Str::npos ? Str() : snapEntry.substr(c + 1);
}

// Whether the workspace after a run is what its sources call for. `before` is what was there before it.
bool checkRun(const Tree& t, const fs::Snap& before, const fs::Snap& after, const Result& res, const Str& what) {
    VF_CHECKR(!res.crashed() && res.code == 0, false, "codegen-runs", "%s: %s", what.c_str(), res.all().c_str());
    VF_CHECKR(res.err.empty(), false, "codegen-no-errors", "%s: supported sources were refused: %s", what.c_str(), res.all().c_str());
    Expected e = expect(t);
    std::map<Str, const Src*> srcs;
    for (auto& s : t.files)
        srcs["ws/" + s.rel()] = &s;
    for (auto& x : after) {
        const Str& p = x.first;
        auto b = before.find(p);
        if (p == ".out" || p == ".err")
            continue;
        Str rel = p.compare(0, 3, "ws/") == 0 ? p.substr(3) : Str();
        if (x.second[0] == 'd') {
            bool codegenDir = p.size() >= 8 && p.compare(p.size() - 8, 8, "/codegen") == 0;
            VF_CHECKR(b != before.end() || codegenDir, false, "codegen-only-outputs", "%s: a folder appeared: %s", what.c_str(), p.c_str());
            continue;
        }
        if (srcs.count(p)) {
            const Src& s = *srcs[p];
            Str text;
            VF_CHECKR(asLF(fileText(x.second), t.eol, &text), false, "codegen-newlines", "%s: %s is not in the workspace's newline format: %s", what.c_str(), p.c_str(),
                      esc(fileText(x.second)).substr(0, 400).c_str());
            Walk w = walk(s, 1);
            if (w.anyOneLine) {
                VF_CHECKR(squeeze(text) == squeeze(w.out), false, "codegen-source", "%s: %s became\n%s\nnot\n%s", what.c_str(), p.c_str(), text.c_str(), w.out.c_str());
                for (const Str& l : lines(text))
                    VF_CHECKR(l.find("//@@ply") == Str::npos || l.find("//") < l.find("#include") || (l[0] == '#' && l.find("//@@ply") + 7 == l.size()), false,
                              "codegen-include-line", "%s: %s has the line %s", what.c_str(), p.c_str(), l.c_str());
            } else
                VF_CHECKR(text == w.out, false, "codegen-source", "%s: %s became\n%s\nnot\n%s", what.c_str(), p.c_str(), text.c_str(), w.out.c_str());
            count("sources compared");
            continue;
        }
        auto in = e.inls.find(rel);
        auto sw = e.switches.find(rel);
        if (in != e.inls.end()) {
            Str text, why;
            VF_CHECKR(asLF(fileText(x.second), t.eol, &text), false, "codegen-newlines", "%s: %s is not in the workspace's newline format", what.c_str(), p.c_str());
            Blocks got, want = in->second;
            VF_CHECKR(parseInl(text, &got, &why), false, "codegen-inl", "%s: %s: unexpected line %s in\n%s", what.c_str(), p.c_str(), why.c_str(), text.c_str());
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            Str g, w;
            for (auto& y : got)
                g += " " + y.show();
            for (auto& y : want)
                w += " " + y.show();
            VF_CHECKR(g == w, false, "codegen-describes", "%s: %s describes%s, the sources declare%s", what.c_str(), p.c_str(), g.c_str(), w.c_str());
            count("declarations described", got.size());
        } else if (sw != e.switches.end()) {
            Str text;
            VF_CHECKR(asLF(fileText(x.second), t.eol, &text), false, "codegen-newlines", "%s: %s is not in the workspace's newline format", what.c_str(), p.c_str());
            VF_CHECKR(squeeze(text) == switchShape(sw->second), false, "codegen-switch", "%s: %s is\n%s\nexpected %s", what.c_str(), p.c_str(), text.c_str(),
                      switchShape(sw->second).c_str());
            count("switches compared");
        } else
            VF_CHECKR(b != before.end() && b->second == x.second, false, "codegen-only-outputs", "%s: %s was %s though nothing generates it", what.c_str(), p.c_str(),
                      b == before.end() ? "written" : "changed");
    }
    for (auto& x : before)
        VF_CHECKR(after.count(x.first), false, "codegen-only-outputs", "%s: %s is gone", what.c_str(), x.first.c_str());
    for (auto& x : e.inls)
        VF_CHECKR(after.count("ws/" + x.first), false, "codegen-describes", "%s: %s was not written", what.c_str(), x.first.c_str());
    for (auto& x : e.switches)
        VF_CHECKR(after.count("ws/" + x.first), false, "codegen-switch", "%s: %s was not written", what.c_str(), x.first.c_str());
    return true;
}

void putTree(const Workspace& ws, const Tree& t, Rng& r, bool stale) {
    put(ws.dir + "/workspace-settings.pylon", t.settings);
    std::vector<std::pair<Str, Str>> all;
    for (auto& s : t.files)
        all.push_back({s.rel(), withEol(walk(s, stale ? 2 : 0, &r).out, s.eol)});
    for (auto& o : t.others)
        all.push_back(o);
    // The order in which files are created decides how the system lists them.
    for (size_t i = all.size(); i > 1; i--)
        std::swap(all[i - 1], all[r.below((uint32_t) i)]);
    for (auto& f : all)
        put(ws.dir + "/" + f.first, f.second);
}

// mtimes and inodes of everything under the workspace's repos
std::map<Str, Str> stamps(const Str& dir) {
    std::map<Str, Str> m;
    for (const Str& n : fs::names(dir)) {
        Str p = dir + "/" + n;
        struct stat s;
        if (::lstat(p.c_str(), &s) != 0 || S_ISLNK(s.st_mode))
            continue;
        m[p] = fmt("%lu %ld.%09ld", (unsigned long) s.st_ino, (long) s.st_mtim.tv_sec, (long) s.st_mtim.tv_nsec);
        if (S_ISDIR(s.st_mode))
            for (auto& x : stamps(p))
                m.insert(x);
    }
    return m;
}

bool runAndCheck(const Workspace& ws, const Tree& t, const Str& what) {
    fs::Snap before = ws.everything();
    Result res = ws.run({"codegen"});
    fs::Snap after = ws.everything();
    if (!checkRun(t, before, after, res, what))
        return false;
    auto s1 = stamps(ws.dir + "/repos");
    Result again = ws.run({"codegen"});
    VF_CHECKR(!again.crashed() && again.code == 0, false, "codegen-runs", "%s, again: %s", what.c_str(), again.all().c_str());
    fs::Snap third = ws.everything();
    Str d = fs::diff(after, third);
    VF_CHECKR(d.empty(), false, "codegen-idempotent", "%s: running it again changed%s", what.c_str(), d.c_str());
    VF_CHECKR(stamps(ws.dir + "/repos") == s1, false, "codegen-idempotent", "%s: running it again rewrote files with the same contents: %s", what.c_str(), again.all().c_str());
    count("runs", 2);
    return true;
}

void edit(Tree* t, Rng& r, Gen& g) {
    unsigned c = 1 + r.below(3);
    for (unsigned i = 0; i < c; i++) {
        Src* s = pickFile(t, r);
        switch (r.below(5)) {
            case 0: g.decls(&s->top, 0, 2); break;
            case 1:
                if (s->top.size() > 1)
                    s->top.erase(s->top.begin() + r.below((uint32_t) s->top.size()));
                break;
            case 2:
            case 3: {
                // change a record
                std::vector<Node*> recs;
                std::function<void(std::vector<Node>&)> find = [&](std::vector<Node>& v) {
                    for (auto& n : v) {
                        if (n.kind == Record || n.kind == Enum)
                            recs.push_back(&n);
                        find(n.kids);
                    }
                };
                find(s->top);
                if (recs.empty())
                    break;
                Node* n = recs[r.below((uint32_t) recs.size())];
                if (n->kind == Enum) {
                    n->names.insert(n->names.begin() + r.below((uint32_t) n->names.size() + 1), g.fresh("e"));
                    break;
                }
                if (n->switch_) {
                    if (r.chance(1, 3)) {
                        n->switch_ = 0;
                        n->oneLine = false;
                    } else
                        n->kids.insert(n->kids.begin() + r.below((uint32_t) n->kids.size() + 1), g.record(2, true));
                } else if (r.chance(1, 2))
{
                    // Its constructors are renamed with it.
                    Str old = n->name;
                    n->name = g.fresh("Ren");
                    for (auto& k : n->kids)
                        if (k.kind == Noise)
                            for (size_t at = 0; (at = k.text.find(old, at)) != Str::npos; at += n->name.size())
                                k.text.replace(at, old.size(), n->name);
                }
                else
                    n->kids.insert(n->kids.begin() + r.below((uint32_t) n->kids.size() + 1), g.field());
                break;
            }
            default: s->eol = s->eol == "\n" ? "\r\n" : "\n"; break;
        }
    }
}

} // namespace

VF_WORKLOAD(trees, 320, 20000) {
    Gen g(r);
    Tree t = makeTree(r, g);
    if (t.files.empty())
        return;
    Str h;
    fs::Snap last;
    {
        Workspace ws("w");
        putTree(ws, t, r, r.chance(1, 2));
        if (!runAndCheck(ws, t, "first run"))
            return;
        unsigned c = r.below(3);
        for (unsigned i = 0; i < c; i++) {
            Tree u = t;
            edit(&u, r, g);
            // Edits are made to the files as the generator left them, or as another version of them was.
            for (size_t k = 0; k < u.files.size(); k++)
                if (walk(u.files[k], 0).out != walk(t.files[k], 0).out || u.files[k].eol != t.files[k].eol)
                    put(ws.dir + "/" + u.files[k].rel(), withEol(walk(u.files[k], 2, &r).out, u.files[k].eol));
            t = u;
            if (!runAndCheck(ws, t, fmt("after edit %u", i + 1)))
                return;
            count("edited trees");
        }
        last = fs::snap(ws.dir + "/repos");
    }
    {
        Workspace ws("w");
        ws.extraEnv = {"LD_PRELOAD=" + shuffleLib(), fmt("VF_SHUFFLE=%u", 1 + r.below(1000000))};
        putTree(ws, t, r, false);
        fs::Snap before = ws.everything();
        Result res = ws.run({"codegen"});
        if (!checkRun(t, before, ws.everything(), res, "fresh copy"))
            return;
        fs::Snap now = fs::snap(ws.dir + "/repos");
        bool oneLine = false;
        for (auto& s : t.files)
            oneLine = oneLine || walk(s, 0).anyOneLine;
        for (auto& x : now) {
            auto it = last.find(x.first);
            if (oneLine && x.first.find("/codegen/") == Str::npos)
                continue; // spaces before a brace may differ
            VF_CHECK((it != last.end() && it->second == x.second) || x.second[0] == 'd', "codegen-deterministic", "%s differs between a fresh copy and the edited tree:\n%s\n--\n%s",
                     x.first.c_str(), x.second.c_str(), it == last.end() ? "(absent)" : it->second.c_str());
        }
    }
    for (auto& s : t.files)
        h += s.rel() + walk(s, 0).out;
    distinct(h);
    if (wantSample())
        sample(walk(t.files[0], 1).out);
}

namespace {
struct Bad {
    const char* what;
    const char* text;
    int line;
};
const Bad kBad[] = {
    {"missing reflect off", "struct Bx {\n    PLY_REFLECT()\n    int a;\n};\n", 2},
    {"unexpected reflect off", "struct Bx {\n    int a;\n    // ply reflect off\n};\n", 3},
    {"second reflect off", "struct Bx {\n    PLY_REFLECT()\n    int a;\n    // ply reflect off\n    // ply reflect off\n};\n", 5},
    {"duplicate PLY_REFLECT", "struct Bx {\n    PLY_REFLECT()\n    PLY_REFLECT()\n    int a;\n    // ply reflect off\n};\n", 3},
    {"second PLY_REFLECT", "struct Bx {\n    PLY_REFLECT()\n    int a;\n    // ply reflect off\n    PLY_REFLECT()\n    int b;\n    // ply reflect off\n};\n", 5},
    {"unknown command", "struct Bx {\n    // ply reflect on\n};\n", 2},
    {"unknown command at file scope", "int x;\n// ply something\n", 2},
    {"enum command outside", "struct Bx {\n    // ply reflect enum\n    int a;\n};\n", 2},
    {"second enum command", "enum Bx {\n    // ply reflect enum\n    // ply reflect enum\n    A\n};\n", 3},
    {"switch in a namespace", "namespace n {\n// ply make switch\n}\n", 2},
    {"switch at file scope", "// ply make reflected switch\nstruct Bx {\n    struct A {};\n};\n", 1},
    {"switch in a union", "union Bx {\n    // ply make switch\n    struct A {\n    };\n};\n", 2},
    {"second switch", "struct Bx {\n    // ply make switch\n    // ply make switch\n    struct A {\n    };\n};\n", 3},
    {"switch of a union", "struct Bx {\n    // ply make switch\n    union A {\n    int a;\n    };\n    struct B {\n    };\n};\n", 2},
    {"switch of nothing", "struct Bx {\n    // ply make switch\n};\n", 2},
    {"switch of functions", "struct Bx {\n    // ply make reflected switch\n    void f();\n};\n", 2},
    {"PLY_REFLECT at file scope", "int a;\nPLY_REFLECT()\nint b;\n", 2},
    {"PLY_REFLECT in a namespace", "namespace n {\nPLY_REFLECT()\nint b;\n}\n", 2},
    {"PLY_REFLECT in a union", "union Bx {\n    PLY_REFLECT()\n    int a;\n    // ply reflect off\n};\n", 2},
    {"PLY_REFLECT in a function", "void f() {\n    PLY_REFLECT()\n}\n", 2},
    {"PLY_REFLECT in a method", "struct Bx {\n    void f() {\n        PLY_REFLECT()\n    }\n};\n", 3},
    {"PLY_REFLECT in a local struct", "void f() {\n    struct Bx {\n        PLY_REFLECT()\n        int a;\n        // ply reflect off\n    };\n}\n", 3},
    {"reflect off in a function", "void f() {\n    // ply reflect off\n}\n", 2},
    {"switch in a function", "void f() {\n    // ply make switch\n}\n", 2},
    {"unclosed struct", "struct Bx {\n    int a;\n", 0},
    {"unclosed switch", "struct Bx {\n    // ply make switch\n    struct A {\n    };\n", 0},
    {"unclosed comment", "int a;\n/* unclosed\n", 0},
    {"stray tokens", "int a;\n) = 3;\n", 2},
    {"PLY_REFLECT without its end", "struct Bx {\n    PLY_REFLECT(\n    int a;\n", 0},
};
} // namespace

// A file in which a command makes no sense is reported, left as it is, and keeps no other file from being generated.
VF_WORKLOAD(refused, 260, 8000) {
    Gen g(r);
    Tree t = makeTree(r, g);
    const Bad& bad = kBad[idx % (sizeof(kBad) / sizeof(kBad[0]))];
    Str pre, mid, post;
    unsigned lineOff = 0;
    if (r.chance(1, 2)) {
        Src s;
        Gen h(r);
        h.uid = 900;
        Node n = h.record(0);
        n.switch_ = 0;
        s.top.push_back(n);
        pre = walk(s, 0).out;
        for (char c : pre)
            lineOff += c == '\n';
    }
    if (r.chance(1, 2))
        post = "struct After {\n    // ply make switch\n    struct A {\n    };\n};\n#include \"codegen/switch-Old.inl\" //@@ply\n";
    Str eol = r.chance(1, 3) ? "\r\n" : "\n";
    Str text = withEol(pre + bad.text + post, eol);
    Str dir = pickS(r, {"repos/app", "repos/bad", "repos/zz/deep"});
    Str ext = pickS(r, {".h", ".cpp"});
    Str rel = dir + "/Bad" + ext;
    Workspace ws("w");
    putTree(ws, t, r, r.chance(1, 2));
    put(ws.dir + "/" + rel, text);
    Str what = Str(bad.what) + " in " + rel;
    fs::Snap before = ws.everything();
    Result res = ws.run({"codegen"});
    fs::Snap after = ws.everything();
    VF_CHECK(!res.crashed(), "codegen-refuses", "%s: %s", what.c_str(), res.all().c_str());
    VF_CHECK(res.err.find(rel + "(") != Str::npos && res.err.find("error: ") != Str::npos, "codegen-reports", "%s was not reported: %s", what.c_str(), res.all().c_str());
    if (bad.line)
        VF_CHECK(res.err.find(fmt("%s(%u, ", rel.c_str(), lineOff + bad.line)) != Str::npos, "codegen-reports", "%s was not reported at line %u of\n%s: %s", what.c_str(),
                 lineOff + bad.line, text.c_str(), res.err.c_str());
    VF_CHECK(fileText(after["ws/" + rel]) == text, "codegen-refused-untouched", "%s: the file was changed to\n%s", what.c_str(), fileText(after["ws/" + rel]).c_str());
    for (const Str& l : lines(res.err))
        VF_CHECK(l.find("rror:") == Str::npos || l.find(rel) != Str::npos, "codegen-reports", "%s: another file was refused: %s", what.c_str(), res.err.c_str());
    // What comes of the file itself isn't settled: leave out its outputs.
    for (fs::Snap* s : {&before, &after})
        for (auto it = s->begin(); it != s->end();) {
            bool own = it->first.compare(0, 3 + dir.size() + 9, "ws/" + dir + "/codegen/") == 0 &&
                       (it->first.find("/codegen/Bad.inl") != Str::npos || it->first.find("Bx") != Str::npos || it->first.find("After") != Str::npos);
            if (own)
                it = s->erase(it);
            else
                ++it;
        }
    res.err.clear();
    if (!checkRun(t, before, after, res, what))
        return;
    Result again = ws.run({"codegen"});
    VF_CHECK(!again.crashed(), "codegen-refuses", "%s, again: %s", what.c_str(), again.all().c_str());
    Str text2;
    fs::readAll(ws.dir + "/" + rel, &text2);
    VF_CHECK(text2 == text, "codegen-refused-untouched", "%s: the second run changed the file", what.c_str());
    // Mended, it is generated like any other file.
    put(ws.dir + "/" + rel, "struct Bx {\n    PLY_REFLECT()\n    int a;\n    // ply reflect off\n};\n");
    Src fixed;
    fixed.dir = dir;
    fixed.base = "Bad";
    fixed.ext = ext;
    Node n, on, f, off;
    n.kind = Record;
    n.key = "struct";
    n.name = "Bx";
    on.kind = ReflectOn;
    on.text = "PLY_REFLECT()";
    f.kind = Field;
    f.text = "int a;";
    f.names = {"a"};
    off.kind = ReflectOff;
    off.text = "// ply reflect off";
    n.kids = {on, f, off};
    fixed.top = {n};
    t.files.push_back(fixed);
    if (!runAndCheck(ws, t, what + ", mended"))
        return;
    distinct(what + text);
    count("refused files");
    if (wantSample())
        sample(what + ": " + res.err);
}

// Generated code is accepted by the compiler next to the declarations it describes.
VF_WORKLOAD(compiled, 8, 150) {
    Gen g(r, true);
    Tree t;
    Src h;
    h.dir = "repos/app";
    h.base = "thing";
    h.ext = ".h";
    Node ns;
    ns.kind = Space;
    ns.name = "ply";
    for (int i = 0; i < 4; i++)
        ns.kids.push_back(r.chance(2, 3) ? g.record(0) : g.enum_());
    h.top.push_back(ns);
    t.files.push_back(h);
    Str decl;
    // What the framework asks a user to write after each enum and switch
    std::function<void(const std::vector<Node>&, const Str&)> declare = [&](const std::vector<Node>& v, const Str& q) {
        for (auto& n : v) {
            Str name = q.empty() ? n.name : q + "::" + n.name;
            if (n.kind == Enum && n.reflected)
                decl += "PLY_DECLARE_TYPE_DESCRIPTOR(" + name + ")\n";
            if (n.kind == Space || n.kind == Record)
                declare(n.kids, name);
        }
    };
    declare(h.top, "");
    Workspace ws("w");
    putTree(ws, t, r, false);
    if (!runAndCheck(ws, t, "compiled"))
        return;
    Str header;
    fs::readAll(ws.dir + "/repos/app/thing.h", &header);
    put(ws.dir + "/repos/app/main.cc", "#include <ply-reflect/Core.h>\n#include <ply-reflect/TypeDescriptor.h>\n#include <ply-runtime/container/Switch.h>\n#include \"thing.h\"\nnamespace ply {\n" + decl +
                                           "}\n#include \"codegen/thing.inl\"\n");
    Str tree = envOr("VF_TREE") + "/src", cmd = "clang++ -std=c++14 -fsyntax-only -w -include utility";
    for (const char* d : {"/runtime", "/reflect", "/platform"})
        cmd += " -I" + tree + d;
    cmd += " -I" + ws.outer + "/bf/codegen/ply-platform " + ws.dir + "/repos/app/main.cc > " + ws.outer + "/cc.log 2>&1";
    int rc = ::system(cmd.c_str());
    Str log;
    fs::readAll(ws.outer + "/cc.log", &log);
    Str inl;
    fs::readAll(ws.dir + "/repos/app/codegen/thing.inl", &inl);
    VF_CHECK(rc == 0, "codegen-compiles", "the compiler says %s\nabout\n%s\nfor\n%s", log.substr(0, 700).c_str(), inl.c_str(), header.c_str());
    count("compiled trees");
    distinct(header);
}

// The cleanup command gives every source one header and leaves the rest of it alone.
VF_WORKLOAD(cleanup, 200, 8000) {
    static const Str header = "/*------------------------------------\n  ///\\  Plywood C++ Framework\n  \\\\\\/  https://plywood.arc80.com/\n------------------------------------*/\n";
    Workspace ws("w");
    Str src = ws.dir + "/repos/plywood/src";
    ::unlink(src.c_str());
    mkdirs(src);
    Str eol = r.chance(1, 3) ? "\r\n" : "\n";
    put(ws.dir + "/workspace-settings.pylon", eol == "\n" ? "{\n  \"sourceNewLines\": \"lf\"\n}\n" : "{\n  \"sourceNewLines\": \"crlf\"\n}\n");
    std::map<Str, Str> want;
    Str what;
    unsigned c = 1 + r.below(6);
    for (unsigned i = 0; i < c; i++) {
        Str rest, old;
        auto comment = [&](bool mayHaveBlank) {
            return pickS(r, {"// one line\n", "//\n", "/* block */\n", "/* two\n   lines */\n", "/*\n * (c) \"quoted\n */\n", "/* a */ // b\n", "    // indented\n", "/* #if 0 */\n",
                             mayHaveBlank ? "/* a\n\n   b */\n" : "// x\n", mayHaveBlank ? "/*\n\n\n*/\n" : "// y\n", header});
        };
        unsigned n = r.below(4);
        for (unsigned k = 0; k < n; k++)
            old += comment(true);
        switch (r.below(7)) {
            case 0: rest = pickS(r, {"\n", "  \n", "\t\n\n"}) + comment(true) + "int x;\n"; break;
            case 1: rest = "#pragma once\n" + comment(true) + "\nint y; // z\n"; break;
            case 2: rest = "\n\n" + comment(true); break;
            case 3:
                if (!old.empty())
                    old.pop_back();
                rest = old.empty() || old.rfind("//") > old.rfind("*/") || old.rfind("*/") == Str::npos || old.size() < 2 || old.compare(old.size() - 2, 2, "*/") != 0 ? "\nint f() {\n}\n" : " int g() {\n    return 1; /* x */\n}\n";
                if (rest[0] == '\n' && !old.empty()) {
                    old += "\n";
                    rest.erase(0, 1);
                }
                break;
            case 4: rest = ""; break;
            case 5: rest = "#include <x>\n\n/* late\n */\nstruct A {\n    // c\n};"; break;
            default: rest = "namespace a {\n\nconst char* s = \"// no\";\n" + comment(true) + "} // namespace a\n"; break;
        }
        Str dir = pickS(r, {"", "/a", "/a/b", "/c"}), name = dir + fmt("/f%u", i) + pickS(r, {".h", ".cpp", ".cpp", ".txt", ".inl"});
        bool taken = name.back() == 'h' || name.back() == 'p';
        Str in = r.chance(1, 3) ? "\r\n" : "\n";
        put(src + name, withEol(old + rest, in));
        want[src + name] = taken ? withEol(header + rest, eol) : withEol(old + rest, in);
        what += name + ": " + old + "|" + rest + "\n";
    }
    fs::Snap before = ws.everything();
    Result res = ws.run({"cleanup"});
    VF_CHECK(!res.crashed() && res.code == 0, "cleanup-runs", "%s: %s", what.c_str(), res.all().c_str());
    for (auto& x : want) {
        Str got;
        fs::readAll(x.first, &got);
        VF_CHECK(got == x.second, "cleanup-header", "%s became\n%s\nnot\n%s\nof %s", x.first.c_str(), got.c_str(), x.second.c_str(), what.c_str());
        count("headers compared");
    }
    fs::Snap after = ws.everything();
    for (auto& x : after)
        VF_CHECK(want.count(ws.outer + "/" + x.first) || (before.count(x.first) && before[x.first] == x.second) || x.first[0] == '.', "cleanup-only-sources", "%s was touched", x.first.c_str());
    VF_CHECK(after.size() >= before.size(), "cleanup-only-sources", "something is gone:%s", fs::diff(before, after).c_str());
    auto s1 = stamps(ws.dir + "/repos");
    Result again = ws.run({"cleanup"});
    Str d = fs::diff(after, ws.everything());
    VF_CHECK(!again.crashed() && d.empty() && stamps(ws.dir + "/repos") == s1, "cleanup-idempotent", "again: %s changed%s\n%s", again.all().c_str(), d.c_str(), what.c_str());
    distinct(what);
}

VF_MAIN()
