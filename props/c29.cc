/* C29: characters count only as equal or different.  The same texts with their letters replaced one for
 * one give the same result with the letters replaced. */
#include "common.h"
#include <algorithm>
#include <unordered_map>
#include <utf8proc.h>

typedef std::vector<m::U> Us;
/* letters of all scripts and planes that are nobody's capital, are composed and show as themselves, and private-use characters */
static const Us &letters(bool priv = true)
{
    static Us va, vl;
    Us &v = priv ? va : vl;
    if (v.empty())
        for (m::U c = 0x80; c < 0x110000; c++) {
            if (c >= 0xD800 && c < 0xE000) continue;
            const char *k = utf8proc_category_string(c);
            if (!(priv && k[0] == 'C' && k[1] == 'o'))
            if (k[0] != 'L' || k[1] == 'm' || k[1] == 'u' || k[1] == 't') continue;
            S s = cp(c);
            if (m::lower(c) != c || m::nfc(s) != s || m::repr(false, c, true) != s) continue;
            if (m::words_of(s + " " + s, m::T_WORD) != VS{s, s}) continue; /* a letter today, a combining mark in Unicode 8 */
            v.push_back(c);
        }
    return v;
}
static const m::U BASE = 0x1200; /* Ethiopic: stands for the letters of the alphabet */
/* texts are written with A, B, C ... for the letters */
static S with(const S &t, const Us &l)
{
    S r;
    for (char ch : t) r += ch >= 'A' && ch <= 'Z' ? cp(l[(ch - 'A') % l.size()]) : S(1, ch);
    return r;
}
/* replaces the base letters in an output */
static S renamed(const S &o, const Us &l)
{
    S r;
    for (size_t i = 0; i < o.size();) {
        if ((unsigned char) o[i] == 0xE1 && (unsigned char) o[i + 1] == 0x88 && (unsigned char) o[i + 2] < 0x80 + l.size()) {
            r += cp(l[(unsigned char) o[i + 2] - 0x80]);
            i += 3;
        } else r += o[i++];
    }
    return r;
}
struct Run {
    S tool;
    VS args;
    int how; /* 0: exactly, 1: the same lines in another order, 2: an accuracy report, of which the classes are left out */
};
static S judged(const S &o, int how)
{
    if (!how) return o;
    VS l = lines(o), keep;
    int part = 0;
    for (auto &x : l) {
        if (x == "\n") part++;
        if (how == 2 && part == 3 && x.find("Total") == S::npos && x.find("%Right") == S::npos && x != "\n") continue;
        keep.push_back(x);
    }
    std::sort(keep.begin(), keep.end());
    S r;
    for (auto &x : keep) r += x;
    return r;
}
static void same(Ctx &c, const std::vector<Run> &runs, const VS &texts, const Us &l, bool group = false)
{
    static std::unordered_map<S, Res> memo;
    Us base;
    for (size_t i = 0; i < l.size(); i++) base.push_back(BASE + i);
    auto files = [&](const Us &a) {
        std::vector<File> f;
        for (size_t i = 0; i < texts.size(); i++) f.push_back({S(1, "tuvwx"[i]), with(texts[i], a)});
        return f;
    };
    for (auto &r : runs) {
        S key = r.tool + " " + join(r.args, " ") + "\1" + join(texts, "\1");
        Res b;
        auto it = memo.find(key);
        if (it != memo.end() && c.backend == B_INPROC && !c.explain) b = it->second;
        else {
            b = c.ok(r.tool, r.args, files(base));
            if (memo.size() < 20000) memo[key] = b;
        }
        Res o = c.ok(r.tool, r.args, files(l));
        S want = judged(renamed(b.out, l), r.how), got = judged(o.out, r.how);
        if (want != got) c.eq(r.tool + " " + join(r.args, " ") + " on the renamed text", want, got);
        if (group && r.tool == "accuracy") {
            auto g = [&](const Us &a, const S &rep) { return c.ok("groupacc", {"g", "r"}, {{"g", with("BADEC", a)}, {"r", rep}}).out; };
            S w = renamed(g(base, b.out), l), h = g(l, o.out);
            if (w != h) c.eq("groupacc on the renamed report", w, h);
        }
    }
}
static const std::vector<Run> &text_runs()
{
    static const std::vector<Run> v = {
        {"editop", {"t", "u"}, 0}, {"synctext", {"t", "u"}, 0}, {"synctext", {"-H", "t", "u"}, 0}, {"synctext", {"-T", "t", "u"}, 0}, {"synctext", {"-s", "t", "u", "v"}, 0},
        {"vote", {"t", "u", "v"}, 0}, {"vote", {"-s", "1/2", "-w", "1/4", "t", "u", "v"}, 0}, {"vote", {"-O", "t", "u", "v", "w"}, 0},
        {"ngram", {"t", "u"}, 1}, {"ngram", {"-n", "2", "t", "u"}, 1}, {"ngram", {"-n", "3", "t", "v"}, 1},
    };
    return v;
}
static const std::vector<Run> &word_runs()
{
    static const std::vector<Run> v = {{"wordacc", {"t", "u"}, 1}, {"wordfreq", {"t", "u", "v"}, 1}, {"wordacc", {"-S", "v", "t", "u"}, 1}};
    return v;
}
/* t, u, v, w */
static const VS SETS[] = {
    {"ABCADBEFAB\nCD", "ACBADEBFAB~CD", "AB^CDDBE^FA\nCD", "BACADBEEAB\nDC"},
    {"AAABBBCCCDDDEEEFFF", "DDDBBBAAAEEEFFCCC", "AAABBB^C^CCEEEF", "FFFAAABBBCCCDDD"},
    {"AB~CD^EF A", "ABFCDEF A", "AB CDE^F~A", "AB~CDEF"},
    {"ABCDEF", "FEDCBA", "ABCDEF", "BADCFE"},
    {"ABABABAB", "BABABABA", "AABBAABB", "^A^B~A"},
};
static const VS WSETS[] = {
    {"A B C A D B E\nF A B", "B A C D D E\nA F B", "C A F"},
    {"A A B B C C D E F", "F E D C C B A A", "E B"},
    {"A-B A,C D)E F!", "A B A D E(F C", "B"},
};
void vx::define(Check &k)
{
    bool T = k.thorough;
    const uint64_t n = letters().size();
    uint64_t nb = n / 6;
    k.add("blocks", fmt("every six letters next to each other among the %d of all scripts and the private-use characters: five sets of texts (one by one), every tool that compares or counts characters", (int) n), nb * (T ? 5 : 1), [=](Ctx &c, uint64_t i) {
        uint64_t q = i / (T ? 5 : 1);
        Us l(letters().begin() + q * 6, letters().begin() + q * 6 + 6);
        if (i % 2) std::rotate(l.begin(), l.begin() + i % 6, l.end());
        auto &s = SETS[i % 5];
        same(c, text_runs(), s, l);
        same(c, {{"accuracy", {"t", "u"}, 2}}, s, l, true);
    });
    k.add("words", "every six letters next to each other as words: three sets of texts", nb * 3, [=](Ctx &c, uint64_t i) {
        uint64_t q = i / 3;
        Us l(letters().begin() + q * 6, letters().begin() + q * 6 + 6);
        if (q % 2) std::reverse(l.begin(), l.end());
        same(c, word_runs(), WSETS[i % 3], l);
    });
    k.add("alike", "every letter with each letter that differs from it in one bit, or whose bytes are its bytes in another order", letters(false).size(), [=](Ctx &c, uint64_t i) {
        static std::set<m::U> all(letters(false).begin(), letters(false).end());
        m::U a = letters(false)[i];
        std::set<m::U> to;
        for (int b = 0; b < 21; b++) to.insert(a ^ (1u << b));
        S s = cp(a);
        for (size_t p = 1; p < s.size(); p++)
            for (size_t q = p + 1; q < s.size(); q++) {
                S r = s;
                std::swap(r[p], r[q]);
                Us d;
                if (m::decode(r, d) && d.size() == 1) to.insert(d[0]);
            }
        static const VS PAIRS[] = {{"ABAABB", "BABBA", "AABAB"}, {"AB", "BA", "B^A"}, {"AAB", "ABB", "BBB"}, {"A", "B", "AB"}};
        static const VS WPAIRS[] = {{"A B A A B B", "B A B B A", "A"}, {"A B", "B A", "B"}, {"A AB B", "AB BA B", "AB"}};
        static const std::vector<Run> few = {{"editop", {"t", "u"}, 0}, {"synctext", {"t", "u"}, 0}, {"synctext", {"-T", "t", "u"}, 0}, {"vote", {"t", "u", "v"}, 0}, {"ngram", {"-n", "2", "t", "u"}, 1}};
        int j = 0;
        for (m::U b : to) {
            j++;
            if (b <= a || !all.count(b)) continue;
            Us l = j % 2 ? Us{a, b} : Us{b, a};
            same(c, j % 3 ? std::vector<Run>{few[(i + j) % 5], few[(i / 5 + j + 1) % 5]} : few, PAIRS[(i + j) % 4], l);
            /* a, b and twice another letter: were a and b one, they would win */
            Us l3{l[0], l[1], a != 0x4E00 && b != 0x4E00 ? 0x4E00u : 0x5E04u, a != 0x1221 && b != 0x1221 ? 0x1221u : 0x1246u};
            same(c, {{"vote", {j % 3 ? "-s" : "-O", j % 3 ? "1/2" : "t", j % 3 ? "t" : "u", j % 3 ? "u" : "v", j % 3 ? "v" : "w", j % 3 ? "w" : "x"}, 0}}, {"CADC", "CBDC", "CDDC", "CDDC", "CDDC"}, l3);
            if (j % 2) same(c, {word_runs()[(i + j / 2) % 2]}, WPAIRS[(i + j) % 2], l);
            if ((i + j) % 8 == 0) same(c, {{"accuracy", {"t", "u"}, 2}}, PAIRS[j % 4], l);
        }
    });
    /* all assignments of letters of different lengths and planes */
    k.add("mixed", "every assignment of letters of one to four bytes and three planes to the letters of the texts", 5 * ipow(7, 6), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        static const m::U pool[] = {0xDF, 0xE9, 0x5D0, 0x1221, 0x4E00, 0xAC00, 0x20000};
        Us l;
        std::vector<bool> used(8);
        int st = x.of(5);
        for (int j = 0; j < 6; j++) {
            int p = x.of(7);
            if (used[p]) return c.skip();
            used[p] = true;
            l.push_back(pool[p]);
        }
        same(c, text_runs(), SETS[st], l);
        same(c, {{"accuracy", {"t", "u"}, 2}}, SETS[st], l, true);
        if (st < 3) same(c, word_runs(), WSETS[st], l);
    });
}
