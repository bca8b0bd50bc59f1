#include "common.h"

static bool scalar(m::U u) { return u < 0xD800 || u >= 0xE000; }
static m::U wbrep(int cls, int which)
{
    /* the which-th code point of a word-break class (spread over its members) */
    static std::map<int, std::vector<m::U>> all;
    if (all.empty())
        for (m::U u = 1; u < 0x110000; u++)
            if (scalar(u) && m::wb(u) != m::Other) all[m::wb(u)].push_back(u);
    auto &v = all[cls];
    return v[(which * 7919ull) % v.size()];
}
/* the words of a text, as a multiset and in order */
static void check(Ctx &c, const S &text, bool order = true)
{
    VS w = m::words_of(text, m::T_WORD);
    c.eq("wordfreq", m::wordfreq({w}), c.ok("wordfreq", {"f"}, {{"f", text}}).out);
    if (!order) return;
    /* the generated text has the expected words in the expected order: all are recognised exactly
     * when wordacc finds the same sequence in the text */
    S lines_ = "";
    for (auto &x : w) lines_ += x + "\n";
    if (m::words_of(lines_, m::T_WORD) != w) return; /* (composition may reorder newer marks into other words) */
    Res r = c.ok("wordacc", {"t", "l"}, {{"t", text}, {"l", lines_}});
    VS l = lines(r.out);
    c.eq("words in wordacc's correct text", fmt("%8zu   Words\n", w.size()), l[2]);
    c.eq("words of the text not found in the order expected", S("       0   Misrecognized\n"), l[3]);
    if (w.size() > 1) { /* and on the generated side */
        r = c.ok("wordacc", {"l", "t"}, {{"t", text}, {"l", lines_}});
        l = lines(r.out);
        c.eq("expected words not found in the generated text in order", S("       0   Misrecognized\n"), l[3]);
    }
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    /* one character (or two) of every word-break class, and of the kinds the word filter tells apart */
    VS core = {"a", cp(0x5D0), cp(0x30A2), "1", "_", "'", "\"", ".", ":", ",", cp(0x301), cp(0xAD), cp(0x1F1E6), "\n", " ", cp(0x4E00), "!"};
    VS wide = core;
    for (auto x : {"\r", "~", "^b", "^\n", "^'"}) wide.push_back(x);
    for (m::U u : {0x2028u, 0x200Du, 0x2019u, 0xB7u, 0x203Fu, 0xE000u, 0xB2u, 0x3042u, 0xE01EFu, 0x10FFFFu, 0x1D400u, 0x660u, 0xFF07u, 0x85u, 0xFEFFu, 0x903u}) wide.push_back(cp(u));
    auto seqs = [&](S name, const VS &al, int max) {
        k.add(name, fmt("all sequences of up to %d characters over %zu kinds (every word-break class)", max, al.size()), nstr(al.size(), max), [=](Ctx &c, uint64_t i) { check(c, strs(al, i), al.size() < 20 ? i % 3 == 0 || max < 5 : true); });
    };
    seqs("core", core, T ? 6 : 5);
    seqs("wide", wide, 3);
    /* the same class patterns with other members of the classes, next to other characters */
    k.add("members", "all sequences of 4 word-break classes, each time with other members of each class, in running text", ipow(16, 4) * (T ? 20 : 3), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S s = i & 1 ? "x " : "";
        int w = i;
        for (int j = 0; j < 4; j++) {
            int cl = x.of(16);
            s += cp(cl == 0 ? ' ' : wbrep(cl == 15 ? m::ExtendNumLet : cl, w + j));
        }
        if (i & 2) s += " z";
        check(c, s);
    });
    /* every code point in each of these contexts */
    struct Cx {
        const char *l, *r;
    };
    static const Cx cx[] = {{"", ""}, {"a", ""}, {"", "a"}, {"a", "a"}, {"1", "1"}, {"\xD7\x90", "\xD7\x90"}, {"\xE3\x82\xA2", "\xE3\x82\xA2"}, {"_", "_"}, {"a ", " a"}, {"a", "1"}, {"a.", "a"}, {"a", ".a"}, {"1,", "1"}, {"\xF0\x9F\x87\xA6", "\xF0\x9F\x87\xA6"}, {"\xCC\x81", "\xCC\x81"}, {"A", "A"}};
    k.add("code-points", "every code point in each of 16 contexts, 64 to a text", 16 * 0x110000 / 64, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &q = cx[x.of(16)];
        m::U b = x.of(0x110000 / 64) * 64;
        S s;
        for (m::U u = b; u < b + 64; u++)
            if (scalar(u)) s += S(q.l) + cp(u) + q.r + "\n";
        if (s.empty()) return c.skip();
        check(c, s);
    }).limit = 40;
    /* composition and case across word parts */
    VS comp = {"e", "E", cp(0x301), cp(0x327), cp(0x1100), cp(0x1161), cp(0x11A8), cp(0xAC00), cp(0x130), cp(0x1E9E), cp(0x212B), cp(0x3A3), cp(0x2126), cp(0x958), cp(0x1F80), cp(0x10400), cp(0x49), cp(0xDF), " "};
    seqs("composition", comp, T ? 4 : 3);
    /* words and gaps of every length, at every place in a text */
    k.add("lengths", "words of every length 1..300 characters of 1 to 4 bytes, first, in the middle and last in a text", 300 * 4 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int l = x.of(300) + 1, b = x.of(4), p = x.of(4);
        S w = rep(cp(b == 0 ? 'w' : b == 1 ? 0xE9 : b == 2 ? 0x4E00 + 0x61 : 0x10428), b == 2 ? 1 : l);
        if (b == 2) w = rep(cp(0x10D0), l);
        check(c, p == 0 ? w : p == 1 ? "a " + w + " b" : p == 2 ? "a " + w : w + "\n" + w + ".");
    });
    /* long words of characters that are composed, decomposed, reordered or lowercased */
    k.add("long-composition", "words of 1..400 characters of which the first, middle, last or all are written decomposed, in upper case or with marks in another order", 400 * 4 * 5, [=](Ctx &c, uint64_t i) {
        static const VS kinds = {"e" + cp(0x301), "E" + cp(0x301), "a" + cp(0x301) + cp(0x327), cp(0x1100) + cp(0x1161) + cp(0x11A8), cp(0x212B)};
        Mix x(i);
        int l = x.of(400) + 1, p = x.of(4);
        S z = kinds[x.of(5)], w;
        for (int j = 0; j < l; j++) w += p == 3 || (p == 0 && j == 0) || (p == 1 && j == l / 2) || (p == 2 && j == l - 1) ? z : S(j % 7 ? "w" : "Q");
        check(c, w + " " + w + "x");
    });
    /* long ones and long lists */
    k.add("long", "texts of up to 60000 words, one word of up to 10^6 characters, 10^5 blanks or marks", 12, [=](Ctx &c, uint64_t i) {
        S s;
        switch (i) {
        case 0: s = rep("a", 1000000); break;
        case 1: s = rep("ab ", 60000); break;
        case 2: s = rep(" ", 100000) + "x"; break;
        case 3: s = "x" + rep(cp(0x301), 100000) + "y"; break;
        case 4: s = rep(cp(0x301), 1000); break;
        case 5: for (int j = 0; j < 30000; j++) s += fmt("w%d ", j); break;
        case 6: s = rep("1,2", 3000); break;
        case 7: s = rep("a'", 3000) + "a"; break;
        case 8: s = rep(cp(0x1F1E6), 3000) + "a"; break;
        case 9: s = rep("\n", 100000) + "z\n"; break;
        case 10: s = rep("a" + cp(0xAD), 5000); break;
        default: s = rep("\xD7\x90\"", 3000);
        }
        check(c, s, i != 1 || T);
    }).limit = 200;
    /* several files: words never join across them */
    k.add("files", "every way to cut a text of the core kinds, up to 4 long, into two files", nstr(core.size(), 4) * 5, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int cut = x.of(5);
        auto d = str(core.size(), x.of(nstr(core.size(), 4)));
        if (cut > (int) d.size()) return c.skip();
        S a, b;
        for (int j = 0; j < (int) d.size(); j++) (j < cut ? a : b) += core[d[j]];
        c.eq("wordfreq of two files", m::wordfreq({m::words_of(a, m::T_WORD), m::words_of(b, m::T_WORD)}), c.ok("wordfreq", {"a", "b"}, {{"a", a}, {"b", b}}).out);
    });
}
