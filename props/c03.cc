#include "common.h"

/* what the tools see of a file, observed as completely as they show it: synctext -s of the file
 * with itself, and (AGAIN) the bigrams */
static void see(Ctx &c, const S &f, bool more = false)
{
    Text t = rd(f);
    Res r = c.ok("synctext", {"-s", "p", "q"}, {{"p", f}, {"q", f}});
    m::parse_sync(r.out, {t, t}, {"p", "q"}, true);
    if (more) c.eq("bigrams", m::ngram({t}, 2), c.ok("ngram", {"-n2", "p"}, {{"p", f}}).out);
}
static const S TITLE = "ocreval Vendor-Independent Interface Version 7.0\n", DIV = rep("-", 48) + "\n";

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto strings = [&](const S &name, const VS &al, int len) {
        k.add(name, fmt("every file of up to %d of %zu kinds of characters", len, al.size()), nstr(al.size(), len), [=](Ctx &c, uint64_t i) { see(c, strs(al, i), i % 5 == 0); });
    };
    strings("spacing", {"a", " ", "\n", "\t"}, T ? 11 : 9);
    strings("spacing-marks", {"a", " ", "\n", "^", "b"}, T ? 9 : 8);
    strings("spacing-kinds", {"a", " ", "\r", cp(0xA0), "\n", "^", cp(0x2028), "~", cp(0x85), "\x0B"}, T ? 7 : 6);
    /* every code point as possible spacing: where it stands matters only if it is */
    int B = 64;
    k.add("every-character", "every code point between, before and after letters and line breaks, doubled, and marked", (0x110000 + B - 1) / B, [=](Ctx &c, uint64_t i) {
        S f;
        for (m::U u = i * B; u < (i + 1) * B; u++) {
            if (u >= 0xD800 && u < 0xE000) continue;
            S x = cp(u);
            f += "a" + x + x + "b^" + x + "c\n" + x + "d" + x + "\n" + x + "\n" + "e^" + x + x + "^f " + x + "g\n";
        }
        see(c, f, i < 300);
    });
    k.add("every-character-ends", "every code point alone in a file, first, last and last but one of it, marked or not, 512 files a run", (0x110000 + B - 1) / B, [=](Ctx &c, uint64_t i) {
        VS b, names;
        std::vector<File> f;
        std::vector<Text> t;
        for (m::U u = i * B; u < (i + 1) * B; u++) {
            if (u >= 0xD800 && u < 0xE000) continue;
            S x = cp(u);
            for (auto &y : VS{x, x + "a", "a" + x, x + x, "^" + x, "a^" + x, "b" + x + "\n", x + "\n"}) b.push_back(y);
        }
        if (b.empty()) return c.skip();
        for (size_t j = 0; j < b.size(); j++) {
            names.push_back(fmt("f%zu", j));
            f.push_back({names[j], b[j]});
            t.push_back(rd(b[j]));
        }
        c.eq("characters", m::ngram(t, 1), c.ok("ngram", names, f).out);
        names.insert(names.begin(), "-n2");
        c.eq("bigrams", m::ngram(t, 2), c.ok("ngram", names, f).out);
    });
    /* lower case, for the word tools and synctext -i */
    k.add("every-character-case", "every code point with synctext -i against its lower case, and as a word", (0x110000 + B - 1) / B, [=](Ctx &c, uint64_t i) {
        S f, g;
        for (m::U u = i * B; u < (i + 1) * B; u++) {
            if ((u >= 0xD800 && u < 0xE000) || u == '~' || u == '^' || m::is_blank(u) || u == '\n') continue;
            f += "a" + cp(u) + "b\n", g += "a" + cp(m::lower(u)) + "b\n";
        }
        if (f.empty()) return c.skip();
        m::TextOpt o = m::T_WORD;
        Text t = m::read_text(f, o).t, t2 = m::read_text(g, o).t;
        Res r = c.ok("synctext", {"-i", "p", "q"}, {{"p", f}, {"q", g}});
        m::Align al = m::parse_sync(r.out, {t, t2}, {"p", "q"}, false);
        if (t == t2)
            for (auto &s : al) c.expect(s.match, "characters that differ only in case do not match with -i");
        c.eq("words", m::wordfreq({m::words_of(f, o)}), c.ok("wordfreq", {"p"}, {{"p", f}}).out);
        /* without -i, case matters */
        r = c.ok("synctext", {"p", "q"}, {{"p", f}, {"q", g}});
        m::parse_sync(r.out, {rd(f), rd(g)}, {"p", "q"}, false);
    });
    /* spacing added anywhere changes nothing */
    VS sp = {" ", "  ", "\t", cp(0x3000), "\r", "\n", "\n\n", " \n", "\n ", "\n\t\n"};
    VS bt = {"one", " ", "two", "\n", "three", "~", " ", "^x", "four", "\n", "five", "."};
    k.add("extra-spacing", "spacing of ten kinds added before, after or at every space, line break and end of a text, twice", 10 * 10 * 8 * 8, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        std::vector<int> at = {0, 1, 2, 3, 4, 6, 7, 12}; /* places where spacing is extraneous: beside blanks and at the ends */
        VS v = bt;
        S s1 = sp[x.of(10)], s2 = sp[x.of(10)];
        int p1 = at[x.of(8)], p2 = at[x.of(8)];
        auto put = [&](VS &v, int p, const S &s) {
            bool nlok = p == 0 || p == 12 || p == 3 || p == 4; /* beside a line break */
            if (s.find('\n') != S::npos && !nlok) return;
            v[std::min<size_t>(p, v.size() - 1)] = p == 12 ? v.back() + s : s + v[p];
        };
        put(v, p1, s1);
        put(v, p2, s2);
        S f = join(v, ""), g = join(bt, "");
        see(c, f, true);
        for (const char *tool : {"accuracy", "wordacc", "editop"}) {
            if (p1 == 12 || p2 == 12) continue; /* may add a final line break */
            S want = c.ok(tool, {"c", "g"}, {{"c", g}, {"g", "one two\nthree"}}).out;
            c.eq(S(tool) + " with extra spacing", want, c.ok(tool, {"c", "g"}, {{"c", f}, {"g", "\n one \t two \n\n three"}}).out);
        }
    });
    /* headers: the title cut or changed, versions, dividers complete or not, long lines */
    VS titles;
    for (size_t n = 0; n <= TITLE.size(); n++) titles.push_back(TITLE.substr(0, n));
    for (size_t n = 0; n < TITLE.size(); n++) {
        S t = TITLE;
        t[n] = 'X';
        titles.push_back(t);
    }
    for (const char *v : {"6.0", "7.1", "8.0", "", "7", "10.25"}) titles.push_back(TITLE.substr(0, 45) + v + "\n");
    titles.push_back(TITLE.substr(0, TITLE.size() - 1) + rep("x", 60) + "\n");
    titles.push_back(TITLE.substr(0, 45) + rep("v", 53) + DIV);
    titles.push_back(TITLE.substr(0, 45) + rep("v", 52) + DIV);
    titles.push_back(" " + TITLE);
    titles.push_back("\n" + TITLE);
    titles.push_back("^" + TITLE);
    VS ends = {"", "body\nend\n", "\n", "Z"};
    VS mids = {"", DIV, DIV + DIV, DIV + "info: x\n" + DIV, DIV + DIV + DIV, "-" + DIV + DIV, DIV + DIV.substr(1) + DIV, DIV + " " + DIV, DIV + DIV.substr(0, 48) + " \n" + DIV, DIV + "\n\n" + DIV, "junk\n" + DIV + "junk\n" + DIV, DIV + rep("y", 98) + DIV + "k\n" + DIV, DIV + rep("y", 300) + "\n" + DIV, DIV + rep("y", 97) + DIV + DIV, DIV.substr(0, 48), DIV + DIV.substr(0, 48), DIV + DIV + "ocreval Vendor-Independent Interface Version 7.0\n" + DIV + DIV};
    uint64_t nt = titles.size(), nm = mids.size(), ne = ends.size();
    k.add("headers", fmt("%zu title lines (cut at and changed in every byte, other versions, long) x %zu continuations x %zu bodies", nt, nm, ne), nt * nm * ne, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S f = titles[x.of(nt)] + mids[x.of(nm)] + ends[x.of(ne)];
        see(c, f);
        m::Read r = m::read_text(f, m::T_NORMAL);
        if (i % 3 == 0)
            for (const char *tool : {"accuracy", "editop", "wordacc"}) {
                Inv v(tool, {"c", "g"}, {{"c", f}, {"g", "body"}});
                Res q = c.run(v);
                if (r.header) refused(c, v, q, "no correct file specified");
                else c.eq("exit status", 0, q.status);
                /* the generated side may have a header */
                c.eq("a header does not count", c.ok(tool, {"c", "g"}, {{"c", "body end"}, {"g", TITLE + DIV + DIV + "body\nend"}}).out, c.ok(tool, {"c", "g"}, {{"c", "body end"}, {"g", "body\nend"}}).out);
            }
        /* as a group file or stopword list it is text */
        if (i % 3 == 1) {
            S want = m::render(m::tally({"body"}, {true}, [&]() { std::set<S> s; for (auto &w : m::words_of(f, m::T_STOP)) s.insert(w); return s; }()));
            c.eq("stopword file", want, c.run("wordacc", {"-S", "s", "c", "g"}, {{"s", f}, {"c", "body"}, {"g", "body"}}).out);
        }
    });
    /* each tool reads its texts so, in every place it takes one */
    struct Place {
        VS args;
        int kind; /* 0 text, 1 correct text (no header), 2 words, 3 correct words, 4 group, 5 words without markers */
    };
    static const std::vector<Place> places = {
        {{"accuracy", "X", "g"}, 1}, {{"accuracy", "g", "X"}, 0}, {{"editop", "X", "g"}, 1}, {{"editop", "g", "X"}, 0}, {{"wordacc", "X", "g"}, 3}, {{"wordacc", "g", "X"}, 2}, {{"wordacc", "-S", "X", "g", "h"}, 5},
        {{"groupacc", "X", "r"}, 4}, {{"ngram", "-n", "1", "X"}, 0}, {{"ngram", "-n", "3", "g", "X"}, 0}, {{"ngram", "X", "g"}, 0}, {{"wordfreq", "X"}, 2}, {{"wordfreq", "g", "X"}, 2}, {{"nonstopacc", "X", "w"}, 5},
        {{"synctext", "-s", "X", "g"}, 0}, {{"synctext", "-H", "-s", "g", "X"}, 0}, {{"synctext", "-T", "X", "g"}, 0}, {{"synctext", "-T", "g", "X"}, 0}, {{"synctext", "-s", "g", "h", "X"}, 0}, {{"synctext", "-i", "-s", "X", "g"}, 0},
        {{"vote", "X", "g"}, 0}, {{"vote", "-s", "1/2", "g", "X", "h"}, 0}, {{"vote", "-O", "g", "X", "h", "X"}, 0}, {{"vote", "-w", "1/3", "g", "h", "X"}, 0}};
    static const VS EV = {"a", "B", " ", "\n", "\t", "^", "~", "\xC3\x89", cp(0x2003)};
    const int LV = T ? 6 : 5;
    const uint64_t nv = nstr(9, LV), npl = places.size();
    k.add("every-tool", fmt("every text up to %d of 9 characters in each of %zu places where a tool takes a text, with a header or not: as with the text normalized beforehand", LV, places.size()), nv * npl * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        const Place &pl = places[x.of(npl)];
        bool hdr = x.of(2);
        S b = strs(EV, x.of(nv));
        if (hdr && b.size() > 6) return c.skip();
        static const m::Acc ra = [] { m::Acc a; int n = 3; for (m::U u : {(m::U) 'a', (m::U) 'B', (m::U) ' ', (m::U) '\n', (m::U) '\t', (m::U) '^', (m::U) '~', (m::U) 0xC9, (m::U) 'b', (m::U) 'o', (m::U) '-'}) a.ch[u].count = n += 2, a.ch[u].missed = n / 3; return a; }();
        static const S rw = [] { std::set<S> none; VS w; for (auto y : {"a", "b", "\xC3\xA9", "ab", "ba", "a", "\xC3\xA9""a", "b"}) w.push_back(y); return m::render(m::tally(w, {true, false, true, true, false, true, false, true}, none)); }();
        const m::TextOpt &o = pl.kind == 0 || pl.kind == 1 ? m::T_NORMAL : pl.kind == 2 || pl.kind == 3 ? m::T_WORD : pl.kind == 4 ? m::T_GROUP : m::T_STOP;
        S f = (hdr ? TITLE + "x\n" + DIV + DIV : S()) + b;
        m::Read r = m::read_text(f, o);
        S plain;
        for (auto &ch : r.t) plain += (ch.s ? "^" : "") + cp(ch.v);
        auto files = [&](const S &y) {
            std::vector<File> fs;
            for (auto &a : VS{"X", "g", "h", "r", "w"})
                if (std::find(pl.args.begin(), pl.args.end(), a) != pl.args.end()) fs.push_back({a, a == "X" ? y : a == "g" ? S("a B^a\n\xC3\x89 ~b") : a == "h" ? S("B a\n^\xC3\x89") : a == "r" ? m::render(ra) : rw});
            return fs;
        };
        VS args(pl.args.begin() + 1, pl.args.end());
        Inv v(pl.args[0], args, files(f));
        Res q = c.run(v);
        if (r.header && (pl.kind == 1 || pl.kind == 3)) return refused(c, v, q, "no correct file specified");
        if (plain == f) {
            /* already normal: case and marks make a difference where they should */
            if (q.status) c.fail("exit status %d", q.status);
            return;
        }
        Res p = c.run(Inv(pl.args[0], args, files(plain)));
        c.eq("exit status", 0, q.status);
        c.eq("with the text normalized beforehand", p.out, q.out);
        c.eq("standard error", p.err, q.err);
    });
    /* first lines of every length, and characters of every width across buffer boundaries */
    k.add("positions", "a two-, three- and four-byte character, a marker, blanks and line breaks at every offset around 100, 4096, 8192 and 65536", 9 * 4 * 24, [=](Ctx &c, uint64_t i) {
        static const long at[] = {100, 4096, 8192, 65536};
        Mix x(i);
        int kind = x.of(9);
        long n = at[x.of(4)];
        n += (long) x.of(24) - 12;
        static const VS what = {cp(0xE9), cp(0x4E00), cp(0x1F600), "^x", "  ", "\n\n", " \n ", "^^y", "^~"};
        see(c, rep("a", n) + what[kind] + "bc", true);
        see(c, rep("a", n) + what[kind]);
        see(c, scatter({"a", "b", " ", "\n", "^"}, n, kind) + what[kind] + "bc");
    });
    k.add("blank-runs", "runs of blanks or blank lines of every length up to 300, 1000 and 70000, with a marker at the first, a middle or the last one", 303 * 4 * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long n = x.of(303);
        if (n >= 301) n = n == 301 ? 1000 : 70000;
        int mark = x.of(4), kind = x.of(3);
        S b;
        for (long j = 0; j < n; j++) {
            if ((mark == 1 && j == 0) || (mark == 2 && j == n / 2) || (mark == 3 && j == n - 1)) b += "^";
            b += kind == 0 ? " " : kind == 1 ? "\n" : j % 2 ? "\t" : "\n";
        }
        see(c, "a" + b + "b" + b);
    });
}
