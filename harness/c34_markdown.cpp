// Markdown to HTML: hostile text, and documents generated together with the HTML they mean.
#include "plyvf.h"
#include <web-markdown/Markdown.h>
#include <functional>
#include <map>
using namespace ply;
using vf::Str;

namespace {
Str convert(StringView src, bool anchors = false) {
    Owned<markdown::Node> doc = markdown::parse(src);
    MemOutStream mout;
    markdown::HTMLOptions opts;
    opts.childAnchors = anchors;
    markdown::convertToHTML(&mout, doc, opts);
    return vf::str(mout.moveToString());
}
struct Html {
    Str text;    // outside tags, unescaped
    Str hrefs;
    Str error;
    u32 elems = 0, depth = 0;
};
bool block(const Str& t) {
    return t == "p" || t == "ul" || t == "ol" || t == "li" || t == "blockquote" || t == "pre" || t[0] == 'h';
}
// Checks that HTML is well formed and properly nested.
Html scan(const Str& h) {
    Html o;
    std::vector<Str> open;
    auto unescape = [&](size_t& i, Str& out) {
        static const std::pair<const char*, char> ents[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&#39;", '\''}, {"&apos;", '\''}};
        for (auto& e : ents) {
            if (h.compare(i, strlen(e.first), e.first) == 0) {
                out += e.second;
                i += strlen(e.first);
                return true;
            }
        }
        return false;
    };
    for (size_t i = 0; i < h.size();) {
        char c = h[i];
        if (c == '&') {
            if (!unescape(i, o.text)) {
                o.error = "unescaped &";
                return o;
            }
        } else if (c == '>' || c == '"') {
            o.error = Str("unescaped ") + c;
            return o;
        } else if (c == '<') {
            size_t e = i + 1;
            bool close = e < h.size() && h[e] == '/';
            if (close)
                e++;
            size_t s = e;
            while (e < h.size() && (isalnum((unsigned char) h[e])))
                e++;
            Str tag = h.substr(s, e - s);
            static const std::set<Str> known = {"p", "ul", "ol", "li", "blockquote", "pre", "code", "h1", "h2", "h3", "h4", "h5", "h6", "a", "em", "strong"};
            if (!known.count(tag)) {
                o.error = "tag '" + tag + "'";
                return o;
            }
            if (close) {
                if (open.empty() || open.back() != tag) {
                    o.error = "</" + tag + "> closes " + (open.empty() ? Str("nothing") : open.back());
                    return o;
                }
                open.pop_back();
            } else {
                Str parent = open.empty() ? Str("") : open.back();
                if (tag == "a" && std::count(open.begin(), open.end(), Str("a"))) {
                    o.error = "<a> in <a>";
                    return o;
                }
                bool inl = !block(tag) && !(tag == "code" && parent == "pre");
                if (tag == "li" ? parent != "ul" && parent != "ol" : parent == "ul" || parent == "ol") {
                    o.error = "<" + tag + "> in <" + parent + ">";
                    return o;
                }
                if (block(tag) && !(parent == "" || parent == "blockquote" || parent == "li" || (tag == "li"))) {
                    o.error = "<" + tag + "> in <" + parent + ">";
                    return o;
                }
                if (inl && (parent == "" || parent == "blockquote" || parent == "pre")) {
                    o.error = "<" + tag + "> directly in <" + parent + ">";
                    return o;
                }
                if (parent == "code") {
                    o.error = "<" + tag + "> in code";
                    return o;
                }
                open.push_back(tag);
                o.elems++;
                o.depth = std::max(o.depth, (u32) open.size());
                if (tag == "ol" && h.compare(e, 8, " start=\"") == 0) {
                    e += 8;
                    size_t d = e;
                    while (e < h.size() && isdigit((unsigned char) h[e]))
                        e++;
                    if (e == d || h[e] != '"') {
                        o.error = "start attribute";
                        return o;
                    }
                    e++;
                } else if (tag == "a") {
                    if (h.compare(e, 7, " href=\"") != 0) {
                        o.error = "a without href";
                        return o;
                    }
                    e += 7;
                    while (e < h.size() && h[e] != '"') {
                        if (h[e] == '<' || h[e] == '>' || (h[e] == '&' && !unescape(e, o.hrefs))) {
                            o.error = "unescaped in href";
                            return o;
                        }
                        if (h[e] != '"' && h[e] != '&')
                            o.hrefs += h[e++];
                    }
                    e++;
                }
            }
            if (e >= h.size() || h[e] != '>') {
                o.error = "tag " + tag + " does not end";
                return o;
            }
            i = e + 1;
        } else {
            if ((open.empty() || open.back() == "ul" || open.back() == "ol" || open.back() == "blockquote") && c != '\n') {
                o.error = "text outside a block";
                return o;
            }
            o.text += c;
            i++;
        }
    }
    if (!open.empty())
        o.error = "<" + open.back() + "> left open";
    return o;
}
std::map<unsigned char, int> letters(const Str& s) {
    std::map<unsigned char, int> m;
    for (unsigned char c : s)
        if (isalpha(c))
            m[c]++;
    return m;
}
Str lettersOnly(const Str& s) {
    Str o;
    for (unsigned char c : s)
        if (isalpha(c))
            o += (char) c;
    return o;
}
void judge(const Str& src, const char* key) {
    vf::Exact e(src);
    Str h = convert(e.view());
    Html x = scan(h);
    VF_CHECK(x.error.empty(), Str(key) + "-html", "%s: %s from %s", x.error.c_str(), vf::esc(h).c_str(), vf::esc(src).c_str());
    VF_CHECK(letters(x.text + x.hrefs) == letters(src), Str(key) + "-text", "%s from %s", vf::esc(h).c_str(), vf::esc(src).c_str());
    if (x.hrefs.empty() && src.find("](") == Str::npos)
        VF_CHECK(lettersOnly(x.text) == lettersOnly(src), Str(key) + "-order", "%s from %s", vf::esc(h).c_str(), vf::esc(src).c_str());
    vf::count("elements", x.elems);
    vf::maxOf("depth", x.depth);
    vf::distinct(vf::hashStr(h));
    vf::evals(1);
}
} // namespace

VF_WORKLOAD(hostile, 20000, 400000) {
    Str src;
    u32 mode = (u32) r.below(4);
    static const char* bits[] = {"a", "b", "word", " ", "  ", "    ", "\t", "\n", "\n\n", "*", "**", "***", "_", "__", "`", "``", "[", "](", "](u)", ")", "(", "\\", "#", "## ", "> ", ">", "- ", "* ", "+ ", "1. ", "2) ", "10. ", "-", "1.",
                                 "<", "&", "\"", "é", "\r\n", "\r", "'", "!", ".", "&amp;", "<b>", "123456789. ", "1234567890. ", "99999999999999999999999. "};
    if (mode == 0) {
        src = vf::randBytes(r, 40);
    } else if (mode == 1) {
        src = vf::randUtf8(r, 30);
    } else {
        u32 n = r.size(mode == 2 ? 14 : 60);
        for (u32 i = 0; i < n; i++) {
            if (r.chance(1, 4))
                src += "\n";
            src += bits[r.below(sizeof(bits) / sizeof(bits[0]))];
        }
    }
    judge(src, "hostile");
}

// Documents made from their structure, with the HTML that structure has.
namespace {
Str escape(const Str& s) {
    Str o;
    for (char c : s)
        o += c == '<' ? Str("&lt;") : c == '>' ? Str("&gt;") : c == '&' ? Str("&amp;") : c == '"' ? Str("&quot;") : Str(1, c);
    return o;
}
struct Inline {
    Str md, html;
    void add(const Str& m, const Str& h) {
        md += m;
        html += h;
    }
};
Str plain(vf::Rng& r, bool inLink) {
    static const char* odd[] = {"*", "_", "**", "<", ">", "&", "\"q\"", "a<b>c", "&amp;", "!", "\\", "#", "-", "+", "1.", "x_", "5*", "[", "]", "](", "(u)"};
    if (r.chance(1, 5)) {
        // x_ and 5* can close; the others can't open or close anything
        u32 i = (u32) r.below(inLink ? 15 : 19);
        return odd[i];
    }
    if (r.chance(1, 12))
        return "\xc3\xa9t\xc3\xa9";
    static const char* words[] = {"alpha", "b", "Gamma", "delta.", "x,", "say", "don't", "ok!", "(so)"};
    return words[r.below(9)];
}
Str word(vf::Rng& r) {
    return Str(1, (char) ('a' + r.below(26))) + (r.chance(1, 2) ? "ord" : "");
}
Inline inlines(vf::Rng& r, u32 depth, bool inLink, bool breaks, char outer) {
    Inline o;
    Str w = word(r);
    o.add(w, w);
    for (u32 n = r.size(5); n > 0; n--) {
        bool brk = breaks && r.chance(1, 5);
        if (brk) {
            o.add("\n", "\n");
            Str f = word(r);
            o.add(f, f);
        }
        size_t spaceMd = o.md.size(), spaceHtml = o.html.size();
        o.add(" ", " ");
        auto undo = [&] {
            o.md.resize(spaceMd);
            o.html.resize(spaceHtml);
        };
        u32 k = (u32) r.below(depth > 0 ? 9 : 4);
        if (k < 4) {
            Str p = plain(r, inLink);
            o.add(p, escape(p));
        } else if (k == 4) {
            static const char* codes[] = {"x < y", "a*b*c", "[n](u)", "q & \"r\"", "\\", "_u_", "<b>"};
            Str c = codes[r.below(7)];
            u32 ticks = 1 + (u32) r.below(3);
            if (ticks > 1 && r.chance(1, 2))
                c += "`z";
            o.add(Str(ticks, '`') + c + Str(ticks, '`'), "<code>" + escape(c) + "</code>");
        } else if (k == 5 && !inLink) {
            static const char* dests[][2] = {{"u", "u"}, {"/a/b.html#c", "/a/b.html#c"}, {"http://x.y/?a=1&b=2", "http://x.y/?a=1&b=2"}, {"f(x)", "f(x)"}, {"a\\)b", "a)b"}, {"\\(", "("}, {"c\\d", "c\\d"}, {"\"q\"", "\"q\""}, {"", ""}};
            u32 d = (u32) r.below(9);
            Inline in = inlines(r, depth - 1, true, breaks, outer);
            Str pad = r.chance(1, 6) ? " " : "";
            o.add("[" + in.md + "](" + pad + dests[d][0] + pad + ")", "<a href=\"" + escape(dests[d][1]) + "\">" + in.html + "</a>");
        } else if (k == 5) {
            undo();
        } else {
            char c = outer == '*' ? '_' : outer == '_' ? '*' : r.chance(1, 2) ? '*' : '_';
            bool strong = r.chance(1, 2);
            if (depth < 2 && outer) {
                undo();
                continue;
            }
            Inline in = inlines(r, depth - 1, inLink, breaks, c);
            Str w2 = word(r);
            Str run(strong ? 2 : 1, c);
            // Text that could open or close a run of the same kind is left out
            bool clash = false;
            for (const char* odd : {"x_", "5*"})
                clash = clash || in.md.find(odd) != Str::npos;
            if (clash) {
                undo();
                continue;
            }
            o.add(run + in.md + " " + w2 + run, (strong ? "<strong>" : "<em>") + in.html + " " + w2 + (strong ? "</strong>" : "</em>"));
        }
    }
    return o;
}
// Small cases with one meaning
const char* Cases[][2] = {
    {"**x y*", "*<em>x y</em>"}, {"*x y**", "<em>x y</em>*"}, {"***x***", "<em><strong>x</strong></em>"}, {"*x **y***", "<em>x <strong>y</strong></em>"},
    {"**x *y***", "<strong>x <em>y</em></strong>"}, {"***x* y**", "<strong><em>x</em> y</strong>"}, {"***x** y*", "<em><strong>x</strong> y</em>"},
    {"****x****", "<strong><strong>x</strong></strong>"}, {"_a b* *c* d_", "<em>a b* <em>c</em> d</em>"}, {"*a b_ _c_ d*", "<em>a b_ <em>c</em> d</em>"}, {"x * a * y", "x * a * y"},
    {"a*b*c", "a<em>b</em>c"}, {"`a ``b`` c`", "<code>a ``b`` c</code>"}, {"``a ` b``", "<code>a ` b</code>"}, {"`` a ` ``", "<code>a `</code>"}, {"` `", "<code> </code>"}, {"`a ``b", "`a ``b"},
    {"`` ` ``", "<code>`</code>"}, {"` a `", "<code>a</code>"}, {"` a`", "<code> a</code>"}, {"`a\nb`", "<code>a b</code>"}, {"[a [b](c) d](e)", "[a <a href=\"c\">b</a> d](e)"}, {"[a](b", "[a](b"},
    {"[a](b c)", "[a](b c)"}, {"[a]( b )", "<a href=\"b\">a</a>"}, {"[a](\nb\n)", "<a href=\"b\">a</a>"}, {"*[a*](b)", "*<a href=\"b\">a*</a>"}, {"[*a](b)*", "<a href=\"b\">*a</a>*"}, {"*a `b*` c*", "<em>a <code>b*</code> c</em>"},
    {"[`a](b)`", "[<code>a](b)</code>"}, {"a](b)", "a](b)"}, {"[a] (b)", "[a] (b)"}, {"[a]\n(b)", "[a]\n(b)"}, {"[a](f(g(h)))", "<a href=\"f(g(h))\">a</a>"}, {"[a](f(g)", "[a](f(g)"}, {"[a](x\\)", "[a](x\\)"}, {"[a](\\\\)", "<a href=\"\\\">a</a>"},
    {"[a](b\\\nc)", "[a](b\\\nc)"}, {"####### x", "####### x"}, {"#x", "#x"}, {"1234567890. x", "1234567890. x"}, {"y\n2. x", "y\n2. x"}, {"y\n0) x", "y\n0) x"}, {"y\n    x", "y\nx"}, {"-x", "-x"}, {"1.x", "1.x"}, {"1 . x", "1 . x"},
    {"y\n-", "y\n-"}, {"y\n- ", "y\n-"}, {"y\n1. ", "y\n1."}, {"*a\nb*", "<em>a\nb</em>"}, {"*a b *c", "*a b *c"}, {"**a", "**a"}, {"a**", "a**"}, {"*a **b* c", "*a *<em>b</em> c"}, {"**a *b** c", "*<em>a <em>b</em></em> c"},
};
const char* BlockCases[][2] = {
    {"y\n1. x", "<p>y</p>\n<ol>\n<li>x</li>\n</ol>\n"}, {"y\n- x", "<p>y</p>\n<ul>\n<li>x</li>\n</ul>\n"}, {"y\n> q", "<p>y</p>\n<blockquote>\n<p>q</p>\n</blockquote>\n"}, {"y\n# h", "<p>y</p>\n<h1>h</h1>\n"},
    {"# h\ny", "<h1>h</h1>\n<p>y</p>\n"}, {"123456789. x", "<ol start=\"123456789\">\n<li>x</li>\n</ol>\n"}, {"0. x", "<ol start=\"0\">\n<li>x</li>\n</ol>\n"}, {"###### x", "<h6>x</h6>\n"}, {"#", "<h1></h1>\n"}, 
    {"- a\n* b", "<ul>\n<li>a</li>\n</ul>\n<ul>\n<li>b</li>\n</ul>\n"}, {"1. a\n1) b", "<ol>\n<li>a</li>\n</ol>\n<ol>\n<li>b</li>\n</ol>\n"}, {"- a\n  - b\n    - c", "<ul>\n<li>a\n<ul>\n<li>b\n<ul>\n<li>c</li>\n</ul>\n</li>\n</ul>\n</li>\n</ul>\n"},
    {"- a\n\n\n- b", "<ul>\n<li>\n<p>a</p>\n</li>\n<li>\n<p>b</p>\n</li>\n</ul>\n"}, {"- a\n  > b\n- c", "<ul>\n<li>a\n<blockquote>\n<p>b</p>\n</blockquote>\n</li>\n<li>c</li>\n</ul>\n"}, {"> a\n> > b\n> c", "<blockquote>\n<p>a</p>\n<blockquote>\n<p>b</p>\n</blockquote>\n<p>c</p>\n</blockquote>\n"},
    {"> a\n\n> b", "<blockquote>\n<p>a</p>\n</blockquote>\n<blockquote>\n<p>b</p>\n</blockquote>\n"}, {">a\n>b", "<blockquote>\n<p>a\nb</p>\n</blockquote>\n"}, {"   > a", "<blockquote>\n<p>a</p>\n</blockquote>\n"}, {"   - a", "<ul>\n<li>a</li>\n</ul>\n"},
    {"    a\n      b\n\n\n    c", "<pre><code>a\n  b\n\n\nc\n</code></pre>\n"}, {"    a\nb", "<pre><code>a\n</code></pre>\n<p>b</p>\n"},
    {"    a\n1) b", "<pre><code>a\n</code></pre>\n<ol>\n<li>b</li>\n</ol>\n"},
};
// x_ and 5* may pair with an earlier opener only if one is left open, and none ever is.
struct Block {
    std::vector<Str> lines;
    Str html;     // in a loose list or elsewhere
    Str tight;    // as a tight item's paragraph
    char kind;    // p h c q l
    char punc = 0; // of a list
};
std::vector<Str> splitLines(const Str& s) {
    std::vector<Str> o(1);
    for (char c : s) {
        if (c == '\n')
            o.emplace_back();
        else
            o.back() += c;
    }
    return o;
}
Block para(vf::Rng& r) {
    Block b;
    b.kind = 'p';
    if (r.chance(1, 10)) {
        auto& c = Cases[r.below(sizeof(Cases) / sizeof(Cases[0]))];
        b.lines = splitLines(c[0]);
        b.tight = c[1];
        b.html = "<p>" + b.tight + "</p>\n";
        return b;
    }
    Inline in = inlines(r, 3, false, true, 0);
    b.lines = splitLines(in.md);
    b.html = "<p>" + in.html + "</p>\n";
    b.tight = in.html;
    return b;
}
Block list(vf::Rng& r, u32 depth, char notPunc, bool interrupts);
std::vector<Block> blocks(vf::Rng& r, u32 depth, u32 n, bool inItem);
Block block(vf::Rng& r, u32 depth, const Block* prev, bool firstInItem) {
    for (;;) {
        u32 k = (u32) r.below(depth > 0 ? 8 : 4);
        Block b;
        if (k < 2) {
            if (!firstInItem && !(prev && (prev->kind == 'l' || prev->kind == 'c')) && r.chance(1, 12)) {
                b.kind = 'l';
                b.punc = '?';
                auto& c = BlockCases[r.below(sizeof(BlockCases) / sizeof(BlockCases[0]))];
                b.lines = splitLines(c[0]);
                b.html = c[1];
                return b;
            }
            return para(r);
        } else if (k == 2) {
            b.kind = 'h';
            u32 level = 1 + (u32) r.below(6);
            Inline in;
            if (!r.chance(1, 15))
                in = inlines(r, 2, false, false, 0);
            b.lines = {Str(level, '#') + " " + in.md};
            b.html = vf::fmt("<h%u>", level) + in.html + vf::fmt("</h%u>\n", level);
            return b;
        } else if (k == 3) {
            if ((prev && (prev->kind == 'l' || prev->kind == 'c')))
                continue;
            b.kind = 'c';
            b.html = "<pre><code>";
            u32 n = 1 + r.size(4);
            for (u32 i = 0; i < n; i++) {
                static const char* codes[] = {"int a = b < c;", "- x", "# y", "  > z", "1. q", "`t` *u*", "&amp;", "\xc3\xa9", "      deep"};
                bool blank = i > 0 && i + 1 < n && r.chance(1, 3);
                Str c = blank ? r.chance(1, 3) ? Str("  ") : Str("") : Str(codes[r.below(9)]);
                b.lines.push_back(c.empty() ? Str(r.chance(1, 3) ? "   " : "") : "    " + c);
                b.html += escape(c) + "\n";
            }
            b.html += "</code></pre>\n";
            return b;
        } else if (k < 6) {
            b.kind = 'q';
            auto in = blocks(r, depth - 1, 1 + (u32) r.below(3), false);
            b.html = "<blockquote>\n";
            for (size_t i = 0; i < in.size(); i++) {
                if (i)
                    b.lines.push_back(r.chance(1, 2) ? ">" : "> ");
                for (auto& l : in[i].lines)
                    b.lines.push_back(l.empty() ? ">" : "> " + l);
                b.html += in[i].html;
            }
            b.html += "</blockquote>\n";
            return b;
        } else {
            if (prev && prev->punc == '?')
                continue;
            return list(r, depth, prev && prev->kind == 'l' ? prev->punc : 0, false);
        }
    }
}
std::vector<Block> blocks(vf::Rng& r, u32 depth, u32 n, bool inItem) {
    std::vector<Block> o;
    for (u32 i = 0; i < n; i++)
        o.push_back(block(r, depth, o.empty() ? nullptr : &o.back(), inItem && i == 0));
    return o;
}
Block list(vf::Rng& r, u32 depth, char notPunc, bool interrupts) {
    Block b;
    b.kind = 'l';
    do
        b.punc = "-*+.)"[r.below(5)];
    while (b.punc == notPunc);
    bool ordered = b.punc == '.' || b.punc == ')';
    u32 start = !ordered || interrupts ? 1 : r.chance(1, 2) ? 1 : (u32) r.below(3000);
    u32 n = 1 + r.size(4);
    bool loose = n >= 2 && r.chance(1, 3);
    std::vector<std::vector<Block>> items;
    for (u32 i = 0; i < n; i++) {
        std::vector<Block> it;
        if (loose) {
            it = blocks(r, depth - 1, 1 + (u32) r.below(3), true);
        } else if (!interrupts && n > 1 && r.chance(1, 12)) {
            // empty
        } else if (depth > 1 && r.chance(1, 12)) {
            it.push_back(list(r, depth - 1, 0, false));
        } else {
            it.push_back(para(r));
            if (depth > 1 && r.chance(1, 2))
                it.push_back(list(r, depth - 1, 0, true));
        }
        items.push_back(it);
    }
    b.html = !ordered ? "<ul>\n" : start != 1 ? vf::fmt("<ol start=\"%u\">\n", start) : "<ol>\n";
    for (u32 i = 0; i < n; i++) {
        Str marker = ordered ? std::to_string(start + i) + b.punc : Str(1, b.punc);
        if (i && loose)
            b.lines.push_back("");
        b.html += "<li>";
        auto& it = items[i];
        if (!it.empty() && (loose || it[0].kind != 'p'))
            b.html += "\n";
        if (it.empty())
            b.lines.push_back(marker + " ");
        bool first = true;
        for (size_t k = 0; k < it.size(); k++) {
            if (k && loose)
                b.lines.push_back("");
            for (auto& l : it[k].lines) {
                b.lines.push_back(first ? marker + " " + l : l.empty() ? "" : Str(marker.size() + 1, ' ') + l);
                first = false;
            }
            if (!loose && it[k].kind == 'p')
                b.html += it[k].tight + (k + 1 < it.size() ? "\n" : "");
            else
                b.html += it[k].html;
        }
        b.html += "</li>\n";
    }
    b.html += ordered ? "</ol>\n" : "</ul>\n";
    return b;
}
} // namespace
VF_WORKLOAD(documents, 15000, 300000) {
    auto bs = blocks(r, (u32) r.below(5), 1 + r.size(5), false);
    Str src, want;
    for (size_t i = 0; i < bs.size(); i++) {
        for (u32 k = i ? 1 + (u32) r.below(2) : (u32) r.below(2); k > 0; k--)
            src += "\n";
        for (auto& l : bs[i].lines)
            src += l + "\n";
        want += bs[i].html;
    }
    if (r.chance(1, 8) && want.find("<pre>") == Str::npos)
        src.pop_back();
    if (r.chance(1, 8)) {
        Str crlf;
        for (char c : src)
            crlf += c == '\n' ? Str("\r\n") : Str(1, c);
        if (want.find("<pre>") == Str::npos)
            src = crlf;
    }
    judge(src, "document");
    Str got = convert(vf::view(src));
    size_t d = 0;
    while (d < got.size() && d < want.size() && got[d] == want[d])
        d++;
    size_t d0 = d > 60 ? d - 60 : 0;
    VF_CHECK(got == want, "structure", "...%s, not ...%s, from %s", vf::esc(got.substr(d0, 120)).c_str(), vf::esc(want.substr(d0, 120)).c_str(), vf::esc(src).c_str());
    for (auto& b : bs)
        vf::count(Str("top level ") + b.kind);
}
VF_MAIN()

// Headings given an id, as a page's anchors are, carry it escaped, and nothing else changes.
VF_WORKLOAD(headingIds, 6000, 100000) {
    static const char* bits[] = {"# ", "## ", "###### ", "> ", "- ", "1. ", "word", "*em*", "`c<d`", "[l](u)", " ", "\n", "\n\n", "&", "<", "head\n===", "sub\n---", "text\n# h\n"};
    Str src;
    for (u32 n = r.size(30); n > 0; n--)
        src += Str(r.chance(1, 3) ? "\n" : "") + bits[r.below(18)];
    vf::Exact e(src);
    Owned<markdown::Node> doc = markdown::parse(e.view());
    auto html = [&](bool anchors) {
        MemOutStream mout;
        markdown::HTMLOptions opts;
        opts.childAnchors = anchors;
        markdown::convertToHTML(&mout, doc, opts);
        return vf::str(mout.moveToString());
    };
    Str base = html(false);
    VF_CHECK(base == html(true), "no-ids", "anchors change %s", vf::esc(base).c_str());
    std::vector<std::pair<u32, Str>> heads; // In document order
    std::function<void(markdown::Node*)> visit = [&](markdown::Node* n) {
        if (n->type == markdown::Node::Heading) {
            Str id;
            if (r.chance(2, 3)) {
                static const char* parts[] = {"a", "-", "\"", "<", ">", "&", "x y", "Id", "\xc3\xa9", "&amp;"};
                for (u32 k = 1 + r.below(5); k > 0; k--)
                    id += parts[r.below(10)];
                n->id = vf::view(id);
            }
            heads.push_back({n->indentOrLevel, id});
        }
        for (markdown::Node* c : n->children)
            visit(c);
    };
    visit(doc);
    for (u32 anchors = 0; anchors < 2; anchors++) {
        Str want, h = html(anchors != 0);
        size_t at = 0;
        for (auto& head : heads) {
            Str open = vf::fmt("<h%u>", head.first);
            size_t k = base.find(open, at);
            VF_CHECK(k != Str::npos, "heading-lost", "%s lacks %s", vf::esc(base).c_str(), open.c_str());
            want += base.substr(at, k - at);
            at = k + open.size();
            if (head.second.empty())
                want += open;
            else if (anchors)
                want += vf::fmt("<h%u class=\"anchored\"><span class=\"anchor\" id=\"", head.first) + escape(head.second) + "\">&nbsp;</span>";
            else
                want += vf::fmt("<h%u id=\"", head.first) + escape(head.second) + "\">";
        }
        want += base.substr(at);
        VF_CHECK(h == want, "heading-ids", "%s, not %s", vf::esc(h).c_str(), vf::esc(want).c_str());
        vf::distinct(vf::hashStr(h));
    }
    vf::count("headings", heads.size());
    vf::evals(2);
}
