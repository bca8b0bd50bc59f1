#include "reports.h"

/* ------------------------------------------------------------------ what a report must look like */
enum Verdict { REFUSE, ACCEPT, EITHER };
static bool digit(char c) { return c >= '0' && c <= '9'; }
static VS lns(const S &s) { return vx::lines(s); }

/* does the line start with N figures?  REFUSE: certainly not, ACCEPT: certainly */
static Verdict figures(const S &l, int n, bool negative_ok)
{
    size_t i = 0;
    Verdict v = ACCEPT;
    for (int k = 0; k < n; k++) {
        size_t b = i;
        while (i < l.size() && (l[i] == ' ' || (l[i] >= '\t' && l[i] <= '\r'))) {
            if (l[i] != ' ') v = EITHER; /* other white space, or a figure on no line */
            i++;
        }
        if (i < l.size() && (l[i] == '-' || l[i] == '+')) {
            if (l[i] == '-' && !negative_ok && i + 1 < l.size() && digit(l[i + 1])) {
                S d;
                for (size_t j = i + 1; j < l.size() && digit(l[j]); j++) d += l[j];
                if (d.find_first_not_of('0') != S::npos) return REFUSE;
            }
            v = EITHER;
            i++;
        } else if (k && b == i) return REFUSE; /* no blank between them */
        size_t d = i;
        while (i < l.size() && digit(l[i])) i++;
        if (d == i) return REFUSE;
        if (i - d > 15) v = EITHER; /* may not fit */
    }
    if (i >= l.size() || l[i] != ' ') v = v == REFUSE ? REFUSE : EITHER;
    return v;
}
static Verdict both(Verdict a, Verdict b) { return a == REFUSE || b == REFUSE ? REFUSE : a == EITHER || b == EITHER ? EITHER : ACCEPT; }

static bool too_long(const VS &l, size_t max)
{
    for (auto &x : l)
        if (x.size() > max || x.find('\0') != S::npos) return true;
    return false;
}
static Verdict head(const VS &l, const S &kind, int dashes)
{
    if (l.size() < 2) return REFUSE;
    if (!starts(l[0], "ocreval " + kind + " Report Version 7.")) return REFUSE;
    if (l[1] != rep("-", dashes) + "\n") return REFUSE;
    return ACCEPT;
}
/* the place of a character in a report: {x}, {<}, {<hex>}, {<\n>}, a mark on a dotted circle */
static Verdict item(const S &s)
{
    if (s.empty() || s[0] != '{') return REFUSE;
    size_t e;
    if (s.size() > 1 && s[1] == '<') {
        if (s.size() > 2 && s[2] == '}') return s == "{<}\n" ? ACCEPT : EITHER;
        if (starts(s, "{<\\n>")) e = 5;
        else {
            size_t g = s.find('>', 2);
            if (g == S::npos) return REFUSE;
            S h = s.substr(2, g - 2);
            if (h.empty()) return REFUSE;
            if (h.find_first_not_of("0123456789abcdefABCDEF") != S::npos) {
                /* blanks, signs and prefixes a number may have are left open */
                return h.find_first_not_of("0123456789abcdefABCDEFxX+- \t\v\f\r\n") == S::npos ? EITHER : REFUSE;
            }
            h.erase(0, std::min(h.find_first_not_of('0'), h.size()));
            if (h.size() > 8) return EITHER; /* more than a number holds */
            if (strtoul(h.c_str(), NULL, 16) > 0x10FFFF) return REFUSE;
            if (h.empty()) return EITHER;
            unsigned long u = strtoul(h.c_str(), NULL, 16);
            if (u >= 0xD800 && u < 0xE000) return EITHER;
            e = g + 1;
        }
    } else {
        std::vector<m::U> u;
        size_t n = 1;
        for (; n <= 4 && 1 + n <= s.size(); n++)
            if (u.clear(), m::decode(s.substr(1, n), u) && u.size() == 1) break;
        if (n > 4 || 1 + n > s.size()) return REFUSE;
        e = 1 + n;
        if (u[0] == '\n') return EITHER;
        if (u[0] == 0x25CC && !(e < s.size() && s[e] == '}')) {
            size_t b = e;
            for (n = 1; n <= 4 && b + n <= s.size(); n++)
                if (u.clear(), m::decode(s.substr(b, n), u) && u.size() == 1) break;
            if (n > 4 || b + n > s.size() || u[0] < 0x80) return REFUSE;
            e = b + n;
            if (!m::is_mark(u[0])) return e < s.size() && s[e] == '}' ? EITHER : REFUSE;
        }
    }
    if (e >= s.size() || s[e] != '}') return REFUSE;
    return s.substr(e) == "}\n" ? ACCEPT : EITHER;
}
/* a line of two figures; OFF: where what follows begins */
static Verdict two(const S &l, size_t &off)
{
    Verdict v = figures(l, 2, true);
    if (v == REFUSE) return v;
    size_t i = 0;
    for (int k = 0; k < 2; k++) {
        while (i < l.size() && isspace((unsigned char) l[i])) i++;
        if (i < l.size() && (l[i] == '-' || l[i] == '+')) i++;
        while (i < l.size() && digit(l[i])) i++;
    }
    off = i;
    return v;
}
static Verdict accuracy_report(const S &s)
{
    VS l = lns(s);
    Verdict v = head(l, "Accuracy", 35);
    if (v == REFUSE) return v;
    if (l.size() < 17) return REFUSE;
    for (int i : {2, 3, 6, 7, 8}) v = both(v, figures(l[i], 1, false));
    for (int i : {13, 14, 15}) v = both(v, figures(l[i], 4, true));
    if (v == REFUSE) return v;
    if (too_long(l, 190)) return EITHER;
    size_t i = 17;
    while (i < l.size() && l[i][0] != '\n') i++;
    i++;
    long chars = atol(l[2].c_str()), errors = atol(l[3].c_str());
    size_t off;
    Verdict t;
    if (errors > 0) {
        i++;
        while (i < l.size() && (t = two(l[i], off)) != REFUSE) {
            if (t == EITHER) v = EITHER;
            i++;
        }
        if (v == EITHER) return v;
        i++;
    }
    if (chars > 0) {
        i++;
        while (i < l.size() && (t = two(l[i], off)) != REFUSE) {
            if (t == EITHER) v = EITHER;
            Verdict ch = item(off + 12 < l[i].size() ? l[i].substr(off + 12) : S());
            if (ch == REFUSE && v != EITHER) return REFUSE;
            if (ch != ACCEPT) v = EITHER;
            i++;
        }
    }
    return v;
}
static Verdict word_report(const S &s)
{
    VS l = lns(s);
    Verdict v = head(l, "Word Accuracy", 40);
    if (v == REFUSE) return v;
    if (l.size() < 6) return REFUSE;
    for (int i : {2, 3}) v = both(v, figures(l[i], 1, false));
    if (v != ACCEPT) return v;
    if (too_long(l, 1000000)) return EITHER;
    long words = atol(l[2].c_str());
    size_t i = 6;
    for (int sec = 0; sec < (words > 0 ? 4 : 3); sec++) {
        long limit = sec < 2 ? 50 : sec == 2 ? 10 : 8;
        i += 2;
        size_t off;
        Verdict t;
        while (i < l.size() && (t = two(l[i], off)) != REFUSE) {
            if (t == EITHER) return EITHER;
            S x = off + 12 < l[i].size() ? l[i].substr(off + 12) : S();
            S f = x;
            size_t white = std::min(f.find_first_not_of(" \t\v\f\r\n"), f.size());
            if (f.find_first_not_of(' ') < white && white < f.size()) return EITHER; /* other white space before it */
            f.erase(0, white);
            if (x == " Total\n") ;
            else if (sec == 2 && x == "   >10\n") ;
            else if (sec == 2 && f.find('>') != S::npos) v = EITHER;
            else {
                bool clean = f.size() > 1 && f.back() == '\n' && f.find_first_not_of("0123456789") == f.size() - 1;
                bool any = f.size() && (digit(f[0]) || ((f[0] == '-' || f[0] == '+') && f.size() > 1 && digit(f[1])));
                if (!any) return v == EITHER ? EITHER : REFUSE;
                if (clean && f.size() < 9) {
                    long n = atol(f.c_str());
                    if (n == 0 || n > limit + (sec == 2)) return v == EITHER ? EITHER : REFUSE;
                    if (n > limit) v = EITHER;
                } else v = EITHER;
            }
            i++;
        }
        i++;
    }
    return v;
}
static Verdict edit_report(const S &s)
{
    VS l = lns(s);
    Verdict v = head(l, "Edit Operation", 41);
    if (v == REFUSE) return v;
    if (l.size() < 5) return REFUSE;
    for (int i : {2, 3, 4}) v = both(v, figures(l[i], 1, false));
    if (v != ACCEPT) return v;
    if (too_long(l, 90)) return EITHER;
    if (atol(l[4].c_str()) > 0) {
        size_t off;
        for (size_t i = 8; i < l.size(); i++) {
            Verdict t = figures(l[i], 2, true);
            if (t == REFUSE) break;
            two(l[i], off);
            S a = l[i].substr(0, off), b = l[i].substr(off);
            size_t p = a.find_last_not_of("0123456789");
            S n = a.substr(p == S::npos ? 0 : p + 1);
            bool neg = p != S::npos && a[p] == '-';
            if (n.size() > 15) return EITHER;
            long x = atol(n.c_str()) * (neg ? -1 : 1);
            bool clean = b == "\n" && (p == S::npos || a[p] == ' ');
            if (x < 1 || x > 100) return v == EITHER ? EITHER : clean || neg ? REFUSE : REFUSE;
            if (!clean) v = EITHER;
        }
    }
    return v;
}
/* ------------------------------------------------------------------ the tools that read each kind */
struct Reader {
    S tool;
    int kind; /* 0 accuracy, 1 word accuracy, 2 edit operations */
    VS args;  /* R: the report in question */
};
static const std::vector<Reader> &readers()
{
    static std::vector<Reader> v = {
        {"accsum", 0, {"R", "good0"}}, {"accsum", 0, {"good0", "R"}}, {"accci", 0, {"good0", "R"}}, {"accdist", 0, {"R"}}, {"groupacc", 0, {"chars", "R"}},
        {"wordaccsum", 1, {"R", "good1"}}, {"wordaccsum", 1, {"good1", "R"}}, {"wordaccci", 1, {"good1", "R"}}, {"wordaccdist", 1, {"R"}}, {"nonstopacc", 1, {"stop", "R"}},
        {"editopsum", 2, {"R", "good2"}}, {"editopsum", 2, {"good2", "R"}}, {"editopcost", 2, {"R"}},
    };
    return v;
}
static Verdict verdict(int kind, const S &s) { return kind == 0 ? accuracy_report(s) : kind == 1 ? word_report(s) : edit_report(s); }
struct Base {
    int kind;
    S text;
};
static std::vector<Base> bases()
{
    std::vector<Base> v;
    v.push_back({0, m::render(mkacc({{'a', cnt(7, 2)}, {'<', cnt(9, 9)}, {'\n', cnt(3, 0)}, {1, cnt(2, 1)}, {0xE9, cnt(5, 5)}, {0x301, cnt(1, 0)}, {'}', cnt(4, 4)}, {0x1D400, cnt(1, 0)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2))});
    v.push_back({1, m::render(mkwac({{"the", cnt(9, 4)}, {"a", cnt(3, 0)}}, {{"cat", cnt(5, 1)}, {"d\xC3\xA9j\xC3\xA0", cnt(12, 2)}}, 8))});
    m::Edo e;
    e.ins = 4, e.del = 1, e.moves = 9, e.move[1] = 3, e.move[7] = 5, e.move[100] = 1;
    v.push_back({2, m::render(e)});
    v.push_back({0, m::render(m::Acc())});
    v.push_back({0, m::render(mkacc({}, {{"{}-{x}", cnt(3, 1)}}, 1, 0, 0))});
    v.push_back({0, m::render(mkacc({{'a', cnt(1, 0)}}, {}))});
    v.push_back({1, m::render(m::Wac())});
    v.push_back({1, m::render(mkwac({{"the", cnt(3, 1)}}, {}, 3))});
    v.push_back({2, m::render(m::Edo())});
    return v;
}
static std::vector<Base> BB;
static std::vector<File> world(const S &r)
{
    return {{"R", r}, {"good0", m::render(accs()[3])}, {"good1", m::render(wacs()[3])}, {"good2", m::render(edos()[2])}, {"chars", "a<\xC3\xA9\xCC\x81}"}, {"stop", "the a cat"}};
}
static const std::vector<File> &fixed_world()
{
    static std::vector<File> w = world("");
    return w;
}
static void judge(Ctx &c, const Reader &t, const S &r, bool determined = true)
{
    Inv v(t.tool, t.args, {});
    for (auto &f : fixed_world())
        if (std::find(t.args.begin(), t.args.end(), f.name) != t.args.end()) v.files.push_back(f);
    for (auto &f : v.files)
        if (f.name == "R") f.data = r;
    Res q = c.run(v);
    Verdict w = verdict(t.kind, r);
    c.outcome(hash(fmt("%d %d", w, q.status)));
    if (q.status == 0) {
        if (w == REFUSE) c.fail("a file that is not the report it should be was used");
        if (q.err.size()) c.fail("status 0 with a message: %s", show(q.err).c_str());
    } else {
        if (w == ACCEPT) {
            bool few = t.tool == "accci" || t.tool == "wordaccci"; /* pages without text are no observations */
            if (!few || q.err != t.tool + ": not enough observations\n") c.fail("a report was refused: %s", show(q.err).c_str());
        } else if (q.err != t.tool + ": not enough observations\n" || w == REFUSE) refused(c, v, q, "\"R\"");
    }
    if (determined && w != REFUSE && !g_asan) {
        v.env.fill = 0x31;
        Res p = c.run(v);
        if (!p.same(q)) c.fail("the result depends on the contents of fresh memory: %s / %s", q.text().c_str(), p.text().c_str());
    }
}
static std::vector<size_t> readers_of(int kind)
{
    std::vector<size_t> v;
    for (size_t i = 0; i < readers().size(); i++)
        if (readers()[i].kind == kind) v.push_back(i);
    return v;
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    BB = bases();
    for (size_t b = 0; b < BB.size(); b++) {
        S txt = BB[b].text;
        VS l = lns(txt);
        auto rs = readers_of(BB[b].kind);
        uint64_t nr = rs.size(), n = txt.size(), nl = l.size();
        S id = fmt("%d-%zu", BB[b].kind, b);
        auto fam = [&](S name, S what, uint64_t cases, std::function<S(uint64_t)> mut) {
            k.add(name + "-" + id, what + fmt(" (%zu bytes, %zu lines), for each of %zu readers", (size_t) n, (size_t) nl, (size_t) nr), cases * nr, [=](Ctx &c, uint64_t i) {
                S m = mut(i / nr);
                if (m == "\x01skip") return c.skip();
                judge(c, readers()[rs[i % nr]], m);
            });
        };
        fam("cut", "a report cut after each byte", n + 1, [=](uint64_t i) { return txt.substr(0, i); });
        fam("beheaded", "a report without its first bytes", n, [=](uint64_t i) { return txt.substr(i + 1); });
        fam("line-lost", "a report without one line or a range of lines", nl * nl, [=](uint64_t i) {
            size_t a = i / nl, z = i % nl;
            if (z < a) return S("\x01skip");
            S s;
            for (size_t j = 0; j < nl; j++)
                if (j < a || j > z) s += l[j];
            return s;
        });
        fam("line-repeated", "a report with a line inserted once more at every place", nl * (nl + 1), [=](uint64_t i) {
            size_t a = i / (nl + 1), z = i % (nl + 1);
            S s;
            for (size_t j = 0; j <= nl; j++) {
                if (j == z) s += l[a];
                if (j < nl) s += l[j];
            }
            return s;
        });
        fam("lines-swapped", "a report with two lines swapped", nl * nl, [=](uint64_t i) {
            size_t a = i / nl, z = i % nl;
            if (z <= a) return S("\x01skip");
            VS x = l;
            std::swap(x[a], x[z]);
            return join(x, "");
        });
        S al(b < 3 ? "\0\n 9-{<x\xFF" : "\n 9-{\xFF", b < 3 ? 9 : 6);
        if (T) {
            al.clear();
            for (int i = 0; i < 256; i++) al += char(i);
        }
        fam("byte-changed", fmt("a report with any one byte replaced by each of %zu", al.size()), n * al.size(), [=](uint64_t i) {
            S s = txt;
            s[i / al.size()] = al[i % al.size()];
            return s;
        });
        fam("byte-inserted", fmt("a report with each of %zu bytes inserted anywhere", al.size()), (n + 1) * al.size(), [=](uint64_t i) {
            S s = txt;
            s.insert(i / al.size(), 1, al[i % al.size()]);
            return s;
        });
        if (b < 3 && !T && !g_asan)
            k.add("any-byte-" + id, "a report with any byte value (accuracy reports: punctuation inserted) at, or inserted before, each byte, for one reader", 2 * n * 256, [=](Ctx &c, uint64_t i) {
                S s = txt;
                char ch = i / 2 % 256;
                if (b == 0 && (!ispunct((unsigned char) ch) || i & 1)) return c.skip(); /* (accuracy reports are slow to read; the rest is in thorough) */
                s.replace(i / 512, i & 1, S(1, ch));
                judge(c, readers()[rs[i / 2 % nr]], s);
            });
        fam("bytes-lost", "a report without 1..8 bytes anywhere", n * 8, [=](uint64_t i) {
            S s = txt;
            s.erase(i / 8, i % 8 + 1);
            return s;
        });
        /* one line replaced by odd ones */
        VS odd = {"\n", "", " ", "x\n", "-1\n", "99999999999999999999\n", "9223372036854775807 9223372036854775807 9223372036854775807 9223372036854775807\n", "-9223372036854775808 1 1 1 {a}\n", "1 2\n", "1 2 3 4\n", "       1        0   100.00   {z}\n", "       1        0   100.00        3\n", "       1        0   100.00    Total\n", "       1        0   100.00   \n", "       1        0\n", rep("9", 300) + "\n", rep(" ", 98) + "7\n", rep(" ", 198) + "7 8\n", rep("1 ", 400) + "\n", rep("x", 5000) + "\n", S("\0\n", 2), S("1 2 \0{a}\n", 9), "1 1 " + rep("{", 150) + "\n", "1e9 2e9\n", "0x10 0x10\n", "       5        1    80.00   {<\n", "       5        1    80.00   {<4\n", "       5        1    80.00   {\n", "       5        1    80.00   {\xE2\x97\x8C\n", "       5        1    80.00   {\xE2\x97\x8C\xCC\n"};
        uint64_t no = odd.size();
        fam("line-replaced", fmt("a report with one line, or two adjacent ones, replaced by each of %zu odd lines", (size_t) no), nl * no * 2, [=](uint64_t i) {
            VS x = l;
            size_t at = i / (no * 2);
            x[at] = odd[i / 2 % no];
            if (i & 1) {
                if (at + 1 >= nl) return S("\x01skip");
                x[at + 1] = odd[i / 2 % no];
            }
            return join(x, "");
        });
        if (T)
            fam("two-lines-lost", "a report without any two or three lines", nl * nl * nl, [=](uint64_t i) {
                size_t a = i / nl / nl, d = i / nl % nl, e = i % nl;
                if (a > d || d > e) return S("\x01skip");
                S s;
                for (size_t j = 0; j < nl; j++)
                    if (j != a && j != d && j != e) s += l[j];
                return s;
            });
        /* every prefix of this report continued by every suffix of it, at line ends */
        fam("spliced", "the beginning of a report continued by any end of another of the three kinds", (nl + 1) * 3 * 60, [=](uint64_t i) {
            VS o = lns(BB[i % 3].text);
            size_t from = i / 3 % 60, upto = i / 180;
            if (from > o.size()) return S("\x01skip");
            S s;
            for (size_t j = 0; j < upto; j++) s += l[j];
            for (size_t j = from; j < o.size(); j++) s += o[j];
            return s;
        });
    }
    /* titles, dividers, kinds */
    VS titles, kinds = {"Accuracy", "Word Accuracy", "Edit Operation", "accuracy", "Accuracy Word", "Word", ""};
    for (auto &kd : kinds)
        for (auto &ver : {"7.0", "7.1", "7.99", "7.", "7", "6.0", "8.0", "70.0", "17.0", "7,0", " 7.0", "7.0beta", "5.1", "-7.0", "07.0", ""})
            for (auto &mk : {"ocreval ", "OCREVAL ", "UNLV-ISRI OCR ", "", " ocreval ", "\xEF\xBB\xBFocreval "}) titles.push_back(S(mk) + kd + " Report Version " + ver);
    VS ends = {"\n", "\r\n", " \n", "x\n", "", "\n\n"};
    VS divs;
    for (int i = 30; i <= 50; i++) divs.push_back(rep("-", i) + "\n");
    for (int i : {35, 40, 41}) divs.push_back(rep("-", i)), divs.push_back(rep("-", i) + "\r\n"), divs.push_back(rep("=", i) + "\n"), divs.push_back(rep("-", i) + " \n"), divs.push_back(" " + rep("-", i) + "\n"), divs.push_back(rep("-", i - 1) + "=\n"), divs.push_back("=" + rep("-", i - 1) + "\n");
    divs.push_back("\n"), divs.push_back("");
    uint64_t nt = titles.size(), ne = ends.size(), nd = divs.size(), nr = readers().size();
    k.add("titles", fmt("reports with each of %zu titles in %zu line endings, for each reader", (size_t) nt, (size_t) ne), nt * ne * nr, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &r = readers()[x.of(nr)];
        S t = titles[x.of(nt)] + ends[x.of(ne)];
        VS l = lns(BB[r.kind].text);
        l[0] = t;
        judge(c, r, join(l, ""));
    });
    k.add("dividers", fmt("reports with each of %zu dividers, for each reader", (size_t) nd), nd * nr, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &r = readers()[x.of(nr)];
        VS l = lns(BB[r.kind].text);
        l[1] = divs[x.of(nd)];
        judge(c, r, join(l, ""));
    });
    VS others = {"", "\n", "plain text\n", "ocreval Vendor-Independent Interface Version 7.0\n", rep("x", 100000), rep("\n", 1000), S("\0", 1), "\xFF\xFE", "ocreval", "ocreval Accuracy Report Version 7.0", "ocreval Accuracy Report Version 7.0\n", rep("1 2 3 4\n", 50)};
    for (auto &b : BB) others.push_back(b.text);
    uint64_t nx = others.size();
    k.add("other-files", "every reader given texts, reports of every kind, and odd files, in every place", nx * nr, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &r = readers()[x.of(nr)];
        judge(c, r, others[x.of(nx)]);
    });
    /* figures: numbers in every place a figure stands */
    VS nums = {"0", "1", "7", "-0", "-1", "-7", "+3", "99999999", "100000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "", "x", "1.5", "0x7", "1e3", "--1"};
    uint64_t nn = nums.size();
    for (int b = 0; b < 3; b++) {
        VS l = lns(BB[b].text);
        std::vector<std::pair<size_t, std::pair<size_t, size_t>>> at; /* line, from, length */
        for (size_t i = 2; i < l.size(); i++)
            for (size_t j = 0; j < l[i].size(); j++)
                if (digit(l[i][j])) {
                    size_t e = j;
                    while (e < l[i].size() && digit(l[i][e])) e++;
                    at.push_back({i, {j, e - j}});
                    j = e;
                }
        auto rs = readers_of(b);
        uint64_t na = at.size(), q = rs.size();
        k.add(fmt("figures-%d", b), fmt("a report with each of its %zu numbers, or each two adjacent ones, replaced by each of %zu", (size_t) na, (size_t) nn), na * nn * q * 2, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            auto &r = readers()[rs[x.of(q)]];
            size_t a = x.of(na);
            S n = nums[x.of(nn)];
            bool twice = x.of(2);
            if (twice && a + 1 >= na) return c.skip();
            VS y = l;
            if (twice) y[at[a + 1].first].replace(at[a + 1].second.first, at[a + 1].second.second, n);
            y[at[a].first].replace(at[a].second.first, at[a].second.second, n);
            judge(c, r, join(y, ""));
        });
    }
    /* characters: every short item */
    VS ia = {"{", "}", "<", ">", "\\", "n", "4", "1", "F", "0", "x", " ", "\xC3", "\xA9", "\xE2\x97\x8C", "\xCC\x81", "\xF4", "\xED", "\xA0\x80", "a"};
    uint64_t ni = ia.size();
    int len = T ? 5 : 4;
    k.add("characters", fmt("an accuracy report with a character written in every way of up to %d of %zu pieces between braces", len, (size_t) ni), nstr(ni, len), [=](Ctx &c, uint64_t i) {
        S it = strs(ia, i);
        VS l = lns(BB[5].text); /* its last line is that of {a} */
        S &z = l.back();
        z = z.substr(0, z.find('{')) + "{" + it + "}\n";
        judge(c, readers()[0], join(l, ""), false);
        if (i % 3 == 0) {
            z = z.substr(0, z.find('{')) + it + "\n";
            judge(c, readers()[4], join(l, ""), false);
        }
    });
    VS forms = {"{<01>}", "{a}", "{" + cp(0x25CC) + cp(0x301) + "}", "{<\\n>}", "{<}", "{<10FFFE>}", "{\xC3\xA9}", "{" + cp(0x4E00) + "}", "{" + cp(0x1F600) + "}", "{ }", "{}}", "{{}", "{\\}", "{<D7FF>}", "{<\\N>}"};
    uint64_t nfm = forms.size(), MX = 9;
    k.add("items", fmt("an accuracy report with each of %zu forms of a character with each byte replaced by, or preceded by, each byte", (size_t) nfm), nfm * MX * 255 * 2 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S f = forms[x.of(nfm)];
        uint64_t at = x.of(MX);
        S b(1, char(x.of(255) + 1));
        if (at >= f.size()) return c.skip();
        f.replace(at, x.of(2), b);
        int last = x.of(2);
        VS l = lns(BB[5].text);
        if (last) {
            S &z = l.back();
            z = z.substr(0, z.find('{')) + f + "\n";
        } else { /* another line after it */
            S z = l.back();
            l.back() = z.substr(0, z.find('{')) + f + "\n";
            l.push_back(z.substr(0, z.find('{')) + "{zz}\n");
            l.back().replace(l.back().find("zz"), 2, cp(0x10FFFD));
        }
        judge(c, readers()[0], join(l, ""), false);
    });
    k.add("escapes", fmt("an accuracy report with hexadecimal escapes of every value up to 0x110400 (by %d) and around every limit", T ? 7 : 61), 0x110400 / (T ? 7 : 61) + 21, [=](Ctx &c, uint64_t i) {
        const uint64_t step = T ? 7 : 61, last = 0x110400 / step + 1;
        uint64_t u = i * step;
        if (i >= last) {
            static const uint64_t odd[] = {0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000041, 0x200000, 0xFFFF, 0x10000, 0x80, 0xFF, 0x100};
            if (i - last >= 20) return c.skip();
            u = odd[i - last];
        }
        VS l = lns(BB[5].text);
        S &z = l.back(), pre = z.substr(0, z.find('{'));
        for (auto f : {"%lX", "%lx", "0%lX", "%08lX"}) {
            z = pre + "{<" + fmt(f[0] == '0' ? "0%lX" : S(f) == "%lx" ? "%lx" : S(f) == "%lX" ? "%lX" : "%08lX", (unsigned long) u) + ">}\n";
            judge(c, readers()[f[1] == 'l' && f[2] == 'X' ? 0 : 3], join(l, ""), false);
        }
    });
    k.add("lengths", "word accuracy and edit operation reports with every length from -2 to 200", 203 * 7, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long n = (long) x.of(203) - 2;
        int sec = x.of(7);
        if (sec < 4) {
            VS l = lns(BB[1].text);
            size_t at = 0, seen = 0;
            for (size_t j = 6; j < l.size(); j++)
                if (l[j].find("Count") != S::npos && seen++ == (size_t) sec) at = j + 1;
            l[at] = fmt("       1        1     0.00    %2ld\n", n).insert(30, "");
            S &z = l[at];
            z = z.substr(0, 26) + fmt("    %4ld\n", n);
            for (auto &r : readers())
                if (r.kind == 1) judge(c, r, join(l, ""), false);
            return;
        }
        VS l = lns(BB[2].text);
        l[8 + (sec - 4)] = fmt("%8d %8ld\n", 2, n);
        for (auto &r : readers())
            if (r.kind == 2) judge(c, r, join(l, ""), false);
    });
    k.assumptions = {"a leading figure followed by something other than a blank, figures wider than 15 digits, signs and other ways of writing a number that the C library reads may be accepted or refused",
                     "a report with damaged further lines may be accepted with what can be read, except for characters and lengths that are not in range"};
    k.rule = "one state per reader and damaged report";
}
