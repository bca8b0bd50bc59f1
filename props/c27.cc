/* C27: tools that report the same quantity agree.  No model: every figure is compared with what
 * another tool, or the same tool on other texts, says. */
#include "reports.h"

struct Line {
    long a, b;
    S rest;
};
/* sections of a report: runs of lines between empty lines (an escaped line break is no line break) */
static std::vector<VS> sections(const S &s)
{
    std::vector<VS> v(1);
    for (auto &l : lines(s))
        if (l == "\n") v.push_back({});
        else v.back().push_back(l.substr(0, l.size() - 1));
    return v;
}
static long num(const S &l) { return atol(l.c_str()); }
struct AccR {
    long chars, errors, rejects, suspects, falses;
    std::vector<long> marked, unmarked, total;
    std::map<S, std::pair<long, long>> ch;
    std::map<S, S> chline;
    long conf = 0, confmarked = 0, classes = 0, classmissed = 0, tot = 0, totmissed = 0;
};
static std::vector<long> four(const S &l)
{
    std::vector<long> v(4);
    sscanf(l.c_str(), "%ld %ld %ld %ld", &v[0], &v[1], &v[2], &v[3]);
    return v;
}
static AccR acc(Ctx &c, const S &r)
{
    AccR a;
    auto s = sections(r);
    if (s.size() < 4 || s[0].size() < 5 || s[1].size() < 3 || s[2].size() != 4) c.fail("not an accuracy report: %s", show(r).c_str());
    a.chars = num(s[0][2]), a.errors = num(s[0][3]);
    a.rejects = num(s[1][0]), a.suspects = num(s[1][1]), a.falses = num(s[1][2]);
    a.marked = four(s[2][1]), a.unmarked = four(s[2][2]), a.total = four(s[2][3]);
    size_t q = 4;
    for (size_t i = 1; i < s[3].size(); i++) {
        long n, m;
        sscanf(s[3][i].c_str(), "%ld %ld", &n, &m);
        if (i + 1 < s[3].size()) a.classes += n, a.classmissed += m;
        else a.tot = n, a.totmissed = m;
    }
    if (a.errors && q < s.size()) {
        for (size_t i = 1; i < s[q].size(); i++) {
            long n, m;
            sscanf(s[q][i].c_str(), "%ld %ld", &n, &m);
            a.conf += n, a.confmarked += m;
        }
        q++;
    }
    if (a.chars && q < s.size()) {
        for (size_t i = 1; i < s[q].size(); i++) {
            long n, m;
            int off = 0;
            sscanf(s[q][i].c_str(), "%ld %ld %*s %n", &n, &m, &off);
            S ch = s[q][i].substr(off);
            if (a.ch.count(ch)) c.fail("%s is listed twice", ch.c_str());
            a.ch[ch] = {n, m};
            a.chline[ch] = s[q][i];
        }
        q++;
    }
    return a;
}
struct Freq {
    std::map<S, std::pair<long, long>> n;
    std::pair<long, long> total;
};
/* ngram: both lists */
static Freq freq(Ctx &c, const S &out, bool words)
{
    auto s = sections(out);
    std::vector<VS> p;
    for (auto &x : s)
        if (x.size()) p.push_back(x);
    if (p.size() != 2) c.fail("not two lists: %s", show(out).c_str());
    Freq f[2];
    for (int k = 0; k < 2; k++)
        for (size_t i = 1; i < p[k].size(); i++) {
            long n = 0, m = 0;
            int off = 0;
            if (words) sscanf(p[k][i].c_str(), "%ld%n", &n, &off);
            else sscanf(p[k][i].c_str(), "%ld %ld%n", &n, &m, &off);
            S key = p[k][i].substr(off + 3);
            if (i + 1 == p[k].size()) f[k].total = {n, m};
            else if (f[k].n.count(key)) c.fail("%s is listed twice", show(key).c_str());
            else f[k].n[key] = {n, m};
        }
    if (f[0].n != f[1].n || f[0].total != f[1].total) c.fail("the two lists differ: %s", show(out).c_str());
    std::pair<long, long> t{0, 0};
    for (auto &x : f[0].n) t.first += x.second.first, t.second += x.second.second;
    if (t != f[0].total) c.fail("the total %ld %ld is not the sum %ld %ld", f[0].total.first, f[0].total.second, t.first, t.second);
    return f[0];
}
struct WacR {
    long words, missed;
    std::map<S, std::pair<long, long>> stop, non;
    std::pair<long, long> stoptotal{0, 0}, nontotal{0, 0};
    S nonpct, pct;
};
static WacR wac(Ctx &c, const S &r)
{
    WacR a;
    auto s = sections(r);
    if (s.size() < 4) c.fail("not a word accuracy report: %s", show(r).c_str());
    a.words = num(s[0][2]), a.missed = num(s[0][3]);
    a.pct = s[0][4].substr(0, 8);
    bool second = false;
    for (size_t q = 1; q < s.size(); q++) {
        if (s[q].size() < 2) c.fail("a section of %zu lines: %s", s[q].size(), show(r).c_str());
        bool list = s[q][1].find("Length") == S::npos && s[q][1].find("Occurs") == S::npos;
        for (size_t i = 2; i < s[q].size(); i++) {
            long n, m;
            int off = 0;
            sscanf(s[q][i].c_str(), "%ld %ld %*s%n", &n, &m, &off);
            S rest = s[q][i].substr(off + 3);
            if (list) (s[q][0] == "Stopwords" ? a.stop : a.non)[rest] = {n, m};
            else if (i + 1 == s[q].size() && s[q][0] == "Stopwords") a.stoptotal = {n, m};
            else if (i + 1 == s[q].size() && s[q][0] == "Non-stopwords") a.nontotal = {n, m}, a.nonpct = s[q][i].substr(off - 8, 8);
        }
        second |= list;
    }
    return a;
}
static S last_line(const S &s)
{
    VS l = lines(s);
    return l.empty() ? S() : l.back();
}
static long get(const Freq &f, const S &k)
{
    auto i = f.n.find(k);
    return i == f.n.end() ? 0 : i->second.first;
}

/* characters of C and G as every tool tells them */
static void characters(Ctx &c, const S &ct, const S &gt, bool quadratic = true)
{
    std::vector<File> f = {{"c", ct}, {"g", gt}};
    S rep1 = c.ok("accuracy", {"c", "g"}, f).out;
    AccR a = acc(c, rep1);
    Freq nc = freq(c, c.ok("ngram", {"c"}, f).out, false), ng = freq(c, c.ok("ngram", {"g"}, f).out, false);
    const S rej = "{~}";
    long wild = get(nc, rej);
    /* accuracy and ngram: the characters of the correct text */
    c.eq("Characters of accuracy and the total of ngram without wildcards", nc.total.first - wild, a.chars);
    size_t kinds = 0;
    for (auto &x : nc.n)
        if (x.first != rej) {
            kinds++;
            auto i = a.ch.find(x.first);
            if (i == a.ch.end()) c.fail("ngram lists %s, accuracy does not", x.first.c_str());
            c.eq("count of " + x.first + " (ngram and accuracy)", x.second.first, i->second.first);
        }
    c.eq("different characters (ngram and accuracy)", (long) kinds, (long) a.ch.size());
    c.eq("Reject Characters and ngram", get(ng, rej), a.rejects);
    c.eq("Suspect Markers and ngram", ng.total.second - (ng.n.count(rej) ? ng.n[rej].second : 0), a.suspects);
    /* parts and wholes of the report */
    long sum = 0, miss = 0;
    for (auto &x : a.ch) sum += x.second.first, miss += x.second.second;
    c.eq("sum of the characters and Characters", a.chars, sum);
    c.eq("sum of the classes and Characters", a.chars, a.classes);
    c.eq("Total and Characters", a.chars, a.tot);
    c.eq("missed: characters and Total", a.totmissed, miss);
    c.eq("missed: classes and Total", a.totmissed, a.classmissed);
    c.eq("Errors and the operations", a.errors, a.total[3]);
    c.eq("Errors and the confusions", a.errors, a.conf);
    c.eq("marked errors and the confusions", a.marked[3], a.confmarked);
    for (int i = 0; i < 4; i++) c.eq("marked + unmarked operations", a.total[i], a.marked[i] + a.unmarked[i]);
    c.eq("insertions + substitutions + deletions", a.errors, a.total[0] + a.total[1] + a.total[2]);
    if (a.falses > a.suspects) c.fail("more False Marks than Suspect Markers");
    if (!wild) c.eq("missed characters and insertions + substitutions", a.total[0] + a.total[1], a.totmissed);
    /* lower bounds from the counts of ngram */
    long less = 0, more = 0;
    for (auto &x : nc.n)
        if (x.first != rej) less += std::max(0L, x.second.first - get(ng, x.first));
    for (auto &x : ng.n) more += x.first == rej ? x.second.first : std::max(0L, x.second.first - get(nc, x.first));
    if (!wild && a.errors < std::max(less, more)) c.fail("%ld errors, but %ld characters are missing and %ld too many", a.errors, less, more);
    if (!wild && a.errors > std::max(nc.total.first, ng.total.first)) c.fail("%ld errors in texts of %ld and %ld characters", a.errors, nc.total.first, ng.total.first);
    /* accuracy and groupacc */
    S group, want;
    long gn = 0, gm = 0;
    for (auto &e : m::read_text(ct, m::T_NORMAL).t) {
        if (e.v == '^' || e.v == '~') continue; /* (a marker in a group file) */
        S key = "{" + m::repr(false, e.v, true) + "}";
        auto i = a.ch.find(key);
        if (i == a.ch.end() || e.v == ' ' || e.v == '\n') continue;
        want += i->second.first < 0 ? S() : a.chline[key] + "\n";
        gn += i->second.first, gm += i->second.second;
        group += cp(e.v) + " ";
        a.ch.erase(i);
    }
    S go = c.ok("groupacc", {"k", "r"}, {{"k", group}, {"r", rep1}}).out;
    VS gl = lines(go);
    if (gl.size() < 2) c.fail("groupacc wrote %s", show(go).c_str());
    S body;
    for (size_t i = 1; i + 1 < gl.size(); i++) body += gl[i];
    c.eq("lines of groupacc and of the report", want, body);
    long tn, tm;
    sscanf(gl.back().c_str(), "%ld %ld", &tn, &tm);
    c.eq("total of groupacc", gn, tn), c.eq("missed of groupacc", gm, tm);
    /* accsum, accci, accdist */
    S two = c.ok("accsum", {"r", "r"}, {{"r", rep1}}).out;
    AccR d = acc(c, two);
    c.eq("accsum of a report and itself", 2 * a.chars, d.chars), c.eq("accsum of a report and itself", 2 * a.errors, d.errors);
    if (a.chars) {
        S ci = c.ok("accci", {"r", "r"}, {{"r", rep1}}).out;
        VS l = lines(ci);
        c.eq("characters of accci and accsum", d.chars, num(l[1])), c.eq("errors of accci and accsum", d.errors, num(l[2]));
        S dist = c.ok("accdist", {"r", "s"}, {{"r", rep1}, {"s", two}}).out;
        int x = 0;
        for (auto &y : lines(dist)) {
            bool at = 100 * (a.chars - a.errors) >= x * a.chars;
            c.eq("accdist of a page and its double", fmt("%3d %6.2f\n", x, at ? 100.0 : 0.0), y);
            x++;
        }
    }
    if (!quadratic) return;
    /* the same texts the other way round, and one against itself */
    if (!wild && !a.rejects) {
        c.eq("errors of the two texts exchanged", a.errors, acc(c, c.ok("accuracy", {"g", "c"}, f).out).errors);
        auto open = [](const S &s) { return s.empty() || !strchr(" \n\t^", s.back()); };
        if (open(ct) && open(gt)) c.eq("errors when both texts go on alike", a.errors, acc(c, c.ok("accuracy", {"c", "g"}, {{"c", ct + "zq"}, {"g", gt + "zq"}}).out).errors);
    }
    if (!wild) c.eq("errors of a text against itself", 0, acc(c, c.ok("accuracy", {"c", "c"}, f).out).errors);
    /* editop: what is common to both texts is matched */
    S er = c.ok("editop", {"c", "g"}, f).out;
    auto es = sections(er);
    long ins = num(es[0][2]), del = num(es[0][3]), mv = num(es[0][4]), mvs = 0;
    c.eq("Insertions of editop and the counts of ngram", less, ins);
    c.eq("Deletions of editop and the counts of ngram", more, del);
    if (es.size() > 1)
        for (size_t i = 2; i < es[1].size(); i++) mvs += num(es[1][i]);
    c.eq("moves of all lengths and Moves", mv, mvs);
    VS cost = lines(c.ok("editopcost", {"e"}, {{"e", er}}).out);
    c.eq("cost of insertions alone", ins, atol(cost[0].substr(3).c_str()));
    /* vote of a text with itself (it writes characters as they are displayed) */
    for (auto &e : m::read_text(gt, m::T_NORMAL).t)
        if (m::repr(false, e.v, false) != cp(e.v)) return;
    S v2 = c.ok("vote", {"g", "g"}, f).out, v3 = c.ok("vote", {"g", "g", "g"}, f).out;
    c.eq("vote of two and of three copies", v2, v3);
    for (int n = 1; n <= 3; n++) {
        Freq x = freq(c, c.ok("ngram", {"-n", fmt("%d", n), "g"}, f).out, false), y = freq(c, c.ok("ngram", {"-n", fmt("%d", n), "g"}, {{"g", v2}}).out, false);
        for (auto &e : x.n) e.second.second = 0; /* vote marks none of them */
        x.total.second = 0;
        if (n == 1 && ct.size() < 3) { /* counts of both files at once */
            Freq z = freq(c, c.ok("ngram", {"c", "g"}, f).out, false);
            c.eq("ngram of both files", nc.total.first + ng.total.first, z.total.first);
            for (auto &e : z.n) c.eq("ngram of both files: " + e.first, get(nc, e.first) + get(ng, e.first), e.second.first);
        }
        if (x.n != y.n || x.total != y.total) c.fail("ngram -n %d of a text and of the vote of its copies %s", n, show(v2).c_str());
    }
}
static void words(Ctx &c, const S &ct, const S &gt)
{
    std::vector<File> f = {{"c", ct}, {"g", gt}};
    S r1 = c.ok("wordacc", {"c", "g"}, f).out, r2 = c.ok("wordacc", {"g", "c"}, f).out;
    WacR a = wac(c, r1), b = wac(c, r2);
    Freq fc = freq(c, c.ok("wordfreq", {"c"}, f).out, true), fg = freq(c, c.ok("wordfreq", {"g"}, f).out, true);
    c.eq("Words of wordacc and the total of wordfreq", fc.total.first, a.words);
    c.eq("different words of wordacc and wordfreq", (long) fc.n.size(), (long) (a.stop.size() + a.non.size()));
    long s[2] = {0, 0}, n[2] = {0, 0};
    for (auto *t : {&a.stop, &a.non})
        for (auto &x : *t) {
            c.eq("count of " + x.first + " (wordfreq and wordacc)", get(fc, x.first), x.second.first);
            long got = x.second.first - x.second.second;
            if (got > get(fg, x.first)) c.fail("%ld times %s recognised, but it occurs %ld times in the other text", got, x.first.c_str(), get(fg, x.first));
            (t == &a.stop ? s : n)[0] += x.second.first, (t == &a.stop ? s : n)[1] += x.second.second;
        }
    c.eq("stopwords", s[0], a.stoptotal.first), c.eq("missed stopwords", s[1], a.stoptotal.second);
    c.eq("non-stopwords", n[0], a.nontotal.first), c.eq("missed non-stopwords", n[1], a.nontotal.second);
    c.eq("Misrecognized and the lists", a.missed, s[1] + n[1]);
    c.eq("recognised words with the texts exchanged", a.words - a.missed, b.words - b.missed);
    c.eq("words missed of a text against itself", 0, wac(c, c.ok("wordacc", {"c", "c"}, f).out).missed);
    c.eq("words missed when both texts go on alike", a.missed, wac(c, c.ok("wordacc", {"c", "g"}, {{"c", ct + " zq"}, {"g", gt + " zq"}}).out).missed);
    /* nonstopacc starts at the accuracy and ends at that of the non-stopwords */
    if (a.words) {
        S list;
        for (auto &x : a.stop) list += x.first + "\n";
        VS l = lines(c.ok("nonstopacc", {"s", "r"}, {{"s", list}, {"r", r1}}).out);
        c.eq("first figure of nonstopacc", a.pct.substr(2) + "\n", l[0].substr(4));
        if (a.nontotal.first) {
            c.eq("figures of nonstopacc", (long) a.stop.size() + 1, (long) l.size());
            c.eq("last figure of nonstopacc", a.nonpct.substr(2) + "\n", l.back().substr(4));
        }
        S two = c.ok("wordaccsum", {"r", "r"}, {{"r", r1}}).out;
        WacR d = wac(c, two);
        c.eq("wordaccsum of a report and itself", 2 * a.words, d.words), c.eq("wordaccsum of a report and itself", 2 * a.missed, d.missed);
        VS ci = lines(c.ok("wordaccci", {"r", "r"}, {{"r", r1}}).out);
        c.eq("words of wordaccci and wordaccsum", d.words, num(ci[1])), c.eq("words missed of wordaccci and wordaccsum", d.missed, num(ci[2]));
        int x = 0;
        for (auto &y : lines(c.ok("wordaccdist", {"r", "s"}, {{"r", r1}, {"s", two}}).out)) {
            c.eq("wordaccdist of a page and its double", fmt("%3d %6.2f\n", x, 100 * (a.words - a.missed) >= x * a.words ? 100.0 : 0.0), y);
            x++;
        }
    }
    Freq both = freq(c, c.ok("wordfreq", {"c", "g"}, f).out, true);
    c.eq("wordfreq of both files", fc.total.first + fg.total.first, both.total.first);
    for (auto &x : both.n) c.eq("wordfreq of both files: " + x.first, get(fc, x.first) + get(fg, x.first), x.second.first);
    (void) last_line;
}
static bool scalar(m::U u) { return u < 0xD800 || u >= 0xE000; }
void vx::define(Check &k)
{
    bool T = k.thorough;
    auto pairs = [&](S name, VS al, int l) {
        uint64_t n = nstr(al.size(), l);
        k.add(name, fmt("characters: all pairs of texts of up to %d parts out of %s", l, show(join(al, " ")).c_str()), n * n, [=](Ctx &c, uint64_t i) { characters(c, strs(al, i % n), strs(al, i / n)); }).exec_sample = 20;
    };
    pairs("two-letters", {"a", "b"}, T ? 6 : 5);
    pairs("kinds", {"a", "\xC3\xA9", "^b", "~", " ", "\n"}, T ? 4 : 2);
    pairs("marks", {"a", "^a", "~", "b"}, T ? 4 : 3);
    pairs("odd", {"<", "{", "}", "-", "\x01", cp(0x301), cp(0x10FFFF), "\t", ","}, 2);
    auto wpairs = [&](S name, VS al, int l) {
        uint64_t n = nstr(al.size(), l);
        k.add(name, fmt("words: all pairs of texts of up to %d parts out of %s", l, show(join(al, " ")).c_str()), n * n, [=](Ctx &c, uint64_t i) { words(c, strs(al, i % n), strs(al, i / n)); }).exec_sample = 20;
    };
    wpairs("words", {"the ", "cat ", "Dog ", "of\n"}, T ? 5 : 4);
    wpairs("word-kinds", {"a", "B", " ", "'", "\xC3\xA9", "1"}, T ? 4 : 3);
    wpairs("word-parts", {"the", " ", "-", "~", "e" "\xCC\x81"}, T ? 4 : 3);
    k.add("every-character", "every code point, in blocks of 1024: the whole block, its reverse, every second character", 0x110000 / 1024 * 3, [=](Ctx &c, uint64_t i) {
        S a, b;
        int how = i % 3;
        for (m::U u = i / 3 * 1024; u < (i / 3 + 1) * 1024; u++) {
            if (!scalar(u) || u == 0) continue;
            S x = cp(u);
            a += x;
            if (how == 0) b += x;
            else if (how == 1) b = x + b;
            else if (u % 2) b += (u % 3 ? "" : "^") + x;
        }
        if (a.empty()) return c.skip();
        characters(c, a, b, false);
        S w;
        for (m::U u = i / 3 * 1024; u < (i / 3 + 1) * 1024; u++)
            if (scalar(u) && u != 0) w += cp(u) + (u % 4 ? "" : " ");
        words(c, w, b);
    }).limit = 60;
    k.fams.back().exec_sample = 10;
    k.add("long", "texts of 10^k and 2^k characters and words, a difference every 2, 10, 1000 or 100000 of them", 14 * 4 * 2, [=](Ctx &c, uint64_t i) {
        static const long ns[] = {10, 99, 100, 101, 255, 257, 999, 1001, 4095, 10000, 32769, 65537, 70000, 100001}, ds[] = {2, 10, 1000, 100000};
        Mix x(i);
        long n = ns[x.of(14)], d = ds[x.of(4)];
        bool w = x.of(2);
        if (n > 10000 && n / d > 2000) return c.skip();
        if (w && n > 65000) n = 65000 + n % 500;
        S a, b;
        for (long j = 0; j < n; j++) {
            S u = w ? fmt("w%ld%c", j * j % 1013, j % 9 ? ' ' : '\n') : cp(j * j % 701 + 0x4E00), v = j % d == d - 1 ? (w ? fmt("x%ld ", j % 97) : S("q")) : u;
            a += u, b += v;
        }
        if (w) words(c, a, b);
        else characters(c, a, b, n <= 300);
    }).limit = 200;
    k.fams.back().exec_sample = 8;
    k.add("many-kinds", "70000 different characters or words, all, half or none of them in both texts", 3 * 2, [=](Ctx &c, uint64_t i) {
        bool w = i % 2;
        int how = i / 2;
        long n = w ? 65000 : 70000;
        S a, b;
        for (long j = 0; j < n; j++) {
            a += w ? fmt("w%ld ", j) : cp(0x20000 + j);
            if (how == 0 || (how == 1 && j % 2)) b += w ? fmt("w%ld ", j) : cp(0x20000 + j);
        }
        if (how == 2) b = w ? "x y" : "xy";
        if (w) words(c, a, b);
        else if (how == 1) return c.skip();
        else characters(c, a, b, false);
    }).limit = 200;
    k.fams.back().exec_sample = 1;
    k.add("long-words", "pairs of words of 1..600 characters of 1 to 4 bytes, the same, changed in one character, or one longer", 600 * 4 * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long l = x.of(600) + 1;
        int by = x.of(4), how = x.of(3);
        S ch = cp(by == 0 ? 'w' : by == 1 ? 0xE9 : by == 2 ? 0x10D0 : 0x10428), a = rep(ch, l), b = how == 0 ? a : how == 1 ? rep(ch, l - 1) + "x" : a + "y";
        words(c, a + " the " + b, b + " the " + a);
    });
    k.add("twins", "words of the same letters that first differ after 0..300, ... 100000 characters", n_twins * 3, [=](Ctx &c, uint64_t i) {
        auto t = twins(i % n_twins, i / n_twins);
        words(c, t.first + " " + t.second + "\n" + t.first, t.second + " b " + t.first);
    });
}
