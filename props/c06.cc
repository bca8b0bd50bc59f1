#include "reports.h"

template <class R> static void sum(Ctx &c, const S &tool, const std::vector<R> &in)
{
    R want;
    VS a;
    std::vector<File> f;
    for (size_t i = 0; i < in.size(); i++) {
        want.add(in[i]);
        a.push_back(fmt("r%zu", i));
        f.push_back({a.back(), m::render(in[i])});
    }
    c.eq(tool, m::render(want), c.ok(tool, a, f).out);
}
template <class R> static void small(Check &k, const S &tool, const std::vector<R> &pool)
{
    uint64_t n = pool.size();
    bool T = k.thorough;
    k.add(tool + "-pairs", fmt("all ordered pairs of a pool of %zu reports", (size_t) n), n * n, [=](Ctx &c, uint64_t i) { sum<R>(c, tool, {pool[i % n], pool[i / n]}); });
    k.add(tool + "-triples", "all ordered triples, at once and in both stagings", n * n * n, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        R a = pool[x.of(n)], b = pool[x.of(n)], d = pool[x.of(n)];
        sum<R>(c, tool, {a, b, d});
        R ab = a, bd = b;
        ab.add(b), bd.add(d);
        sum<R>(c, tool, {ab, d});
        sum<R>(c, tool, {a, bd});
    });
    if (T) k.add(tool + "-quads", "all ordered quadruples", n * n * n * n, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        sum<R>(c, tool, {pool[x.of(n)], pool[x.of(n)], pool[x.of(n)], pool[x.of(n)]});
    });
    static const long many[] = {4, 5, 7, 10, 16, 17, 40, 100, 1000, 33000};
    k.add(tool + "-many", "4, 5, 7, 10, 16, 17, 40, 100, 1000 and 33000 inputs from the pool", 2 * (T ? 10 : 9), [=](Ctx &c, uint64_t i) {
        std::vector<R> in;
        long cnt = many[i / 2];
        size_t skip = tool == "accsum" ? 2 : 1; /* the small ones, many times */
        for (long j = 0; j < cnt; j++) in.push_back(cnt > 100 ? pool[j % (skip + 2)] : pool[(j * (i % 2 ? 5 : 1) + i) % n]);
        sum<R>(c, tool, in);
    }).limit = 120;
    k.fams.back().exec_sample = 6;
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    small<m::Acc>(k, "accsum", accs());
    small<m::Wac>(k, "wordaccsum", wacs());
    small<m::Edo>(k, "editopsum", edos());
    /* every single figure at every magnitude */
    k.add("accsum-figures", "every figure of an accuracy report alone at each of 24 magnitudes, added to a fixed report", 24 * 24, [=](Ctx &c, uint64_t i) {
        static const long big[] = {1, 9, 10, 99, 100, 9999999, 10000000, 32767, 32768, 65535, 65536, 99999999, 100000000, 2147483647, 2147483648, 4294967295, 4294967296, 999999999, 1000000000, 9999999999, 10000000000, 4611686018427387, 1000003, 7};
        Mix x(i);
        long v = big[x.of(24)];
        int f = x.of(24);
        m::Acc a = mkacc({{'a', cnt(3, 1)}, {'b', cnt(2, 0)}}, {{"{a}-{b}", cnt(1, 0)}}), b = a;
        long *p[] = {&a.chars, &a.errors, &a.rejects, &a.suspects, &a.falses, &a.marked.ins, &a.marked.sub, &a.marked.del, &a.marked.err, &a.unmarked.ins, &a.unmarked.sub, &a.unmarked.del, &a.unmarked.err,
                     &a.total.ins, &a.total.sub, &a.total.del, &a.total.err, &a.ch['a'].count, &a.ch['a'].missed, &a.ch[0x10FFFF].count, &a.ch[0xE9].count, &a.conf["{a}-{b}"].count, &a.conf["{a}-{b}"].missed, &a.conf["{z}-{}"].count};
        *p[f] = v;
        if (f == 18) a.ch['a'].count = v; /* no more missed than there are */
        if (f == 22) a.conf["{a}-{b}"].count = v;
        for (auto it = a.conf.begin(); it != a.conf.end();) it->second.count ? ++it : it = a.conf.erase(it);
        for (auto it = a.ch.begin(); it != a.ch.end();) it->second.count ? ++it : it = a.ch.erase(it);
        sum<m::Acc>(c, "accsum", {a, b});
        sum<m::Acc>(c, "accsum", {b, a, a});
    });
    k.add("wordaccsum-figures", "every figure of a word accuracy report alone at each of 12 magnitudes", 12 * 124, [=](Ctx &c, uint64_t i) {
        static const long big[] = {1, 10, 32768, 65536, 99999999, 100000000, 2147483647, 2147483648, 4294967296, 9999999999, 4611686018427387, 7};
        Mix x(i);
        long v = big[x.of(12)];
        int f = x.of(124);
        m::Wac a = mkwac({{"the", cnt(3, 1)}}, {{"zebra", cnt(2, 2)}}, 8), b = a;
        if (f < 50) a.stop[f + 1].count += v;
        else if (f < 100) a.nonstop[f - 49].count += v;
        else if (f < 111) a.distinct[f - 99].count += v;
        else if (f < 119) a.phrase[f - 110].count += v;
        else if (f == 119) a.total.count += v;
        else if (f == 120) a.stop[0].count += v;
        else if (f == 121) a.nonstop[0].count += v;
        else if (f == 122) a.distinct[0].count += v;
        else a.stopterm["the"].count += v, a.nonterm["yak"].count += v;
        sum<m::Wac>(c, "wordaccsum", {a, b});
        sum<m::Wac>(c, "wordaccsum", {b, a, a});
    });
    k.add("editopsum-figures", "every length of move at each of 10 magnitudes", 10 * 102, [=](Ctx &c, uint64_t i) {
        static const long big[] = {1, 10, 32768, 65536, 99999999, 100000000, 2147483648, 4294967296, 9999999999, 4611686018427387};
        Mix x(i);
        long v = big[x.of(10)], l = x.of(102);
        m::Edo a, b;
        a.ins = 3, a.del = 4;
        if (l == 100) a.ins = v;
        else if (l == 101) a.del = v;
        else a.move[l + 1] = v, a.moves = v;
        b.ins = 1, b.move[1] = 2, b.move[100] = 3, b.moves = 5;
        sum<m::Edo>(c, "editopsum", {a, b});
        sum<m::Edo>(c, "editopsum", {b, a, a});
    });
    k.add("twins", "confusions and words of the same letters that first differ after 0..300, ... characters, in one report and across reports", n_twins * 3, [=](Ctx &c, uint64_t i) {
        auto t = twins(i % n_twins, i / n_twins);
        m::Wac a = mkwac({{t.first, cnt(3, 1)}}, {{t.second, cnt(2, 2)}}, 8), b = mkwac({{t.second, cnt(5, 0)}, {t.first, cnt(1, 1)}}, {{"k", cnt(1, 0)}}, 8);
        sum<m::Wac>(c, "wordaccsum", {a, b});
        sum<m::Wac>(c, "wordaccsum", {b, a, b});
        if (twin_prefix(i % n_twins) > 22) return;
        m::Acc x = mkacc({{'a', cnt(9, 0)}}, {{"{" + t.first + "}-{}", cnt(2, 1)}, {"{" + t.second + "}-{}", cnt(3, 0)}}), y = mkacc({{'b', cnt(9, 0)}}, {{"{" + t.second + "}-{" + t.first + "}", cnt(4, 1)}, {"{" + t.second + "}-{" + t.second + "}", cnt(5, 0)}, {"{" + t.first + "}-{}", cnt(6, 0)}});
        sum<m::Acc>(c, "accsum", {x, y});
        sum<m::Acc>(c, "accsum", {y, x, x});
    });
    k.add("report-words", "words that occur in the reports themselves, as stopwords and as other words of reports, alone and among others, and as confusions", report_words().size() * 6, [=](Ctx &c, uint64_t i) {
        const VS &rw = report_words();
        Mix x(i);
        S w = rw[x.of(rw.size())], n = rw[(i * 7 + 3) % rw.size()];
        int how = x.of(6);
        S b = how % 3 == 0 ? "aaa" : how % 3 == 1 ? "zzz" : n;
        if (b == w) b += "x";
        m::Wac p = how < 3 ? mkwac({{w, cnt(3, 1)}}, {{b, cnt(2, 2)}}, 8) : mkwac({{"of", cnt(3, 1)}}, {{w, cnt(2, 2)}, {b, cnt(7, 1)}}, 8), q = how < 3 ? mkwac({{"it", cnt(2, 1)}}, {{w, cnt(5, 2)}}, 3) : mkwac({{w, cnt(5, 0)}, {"it", cnt(1, 1)}}, {{"yak", cnt(1, 0)}}, 8);
        sum<m::Wac>(c, "wordaccsum", {p, q});
        sum<m::Wac>(c, "wordaccsum", {q, p, p});
        m::Acc u = mkacc({{'a', cnt(9, 0)}}, {{"{" + w + "}-{}", cnt(2, 1)}, {"{" + b + "}-{" + w + "}", cnt(3, 0)}}), v = mkacc({{'b', cnt(9, 0)}}, {{"{}-{" + w + "}", cnt(4, 1)}});
        sum<m::Acc>(c, "accsum", {u, v});
        sum<m::Acc>(c, "accsum", {v, u, u});
    });
    /* reports the tools themselves wrote */
    VS texts = {"", "a", "the cat", "~~", "the ^cat sat\non the mat", "cat the the", "\xC3\xA9t\xC3\xA9 ~", "x\ny\nz", "a b c d e f g h i j", "Zebra zebra ^zebra", "j i h g f e d c b a"};
    uint64_t nt = texts.size();
    k.add("unterminated", "reports whose last line has no end, each of the pools, and ending in a word of every length 1..900: summed as with it, or refused", 900 + 60, [=](Ctx &c, uint64_t i) {
        S r, tool;
        if (i < 900) {
            r = m::render(mkwac({{"the", cnt(2, 1)}}, {{rep("z", i + 1), cnt(3, 2)}}, 8)), tool = "wordaccsum";
        } else {
            i -= 900;
            auto at = [&](const auto &pool) { return i / 3 < pool.size() ? m::render(pool[i / 3]) : S(); };
            tool = i % 3 == 0 ? "accsum" : i % 3 == 1 ? "wordaccsum" : "editopsum";
            r = i % 3 == 0 ? at(accs()) : i % 3 == 1 ? at(wacs()) : at(edos());
            if (r.empty()) return c.skip();
        }
        S cut = r.substr(0, r.size() - 1);
        Res q = c.run(tool, {"x", "x"}, {{"x", cut}});
        if (q.status == 1 && q.err == tool + ": invalid format in \"x\"\n" && q.out.empty()) return; /* not a report then */
        c.eq("status", 0, q.status);
        c.eq(tool, c.ok(tool, {"x", "x"}, {{"x", r}}).out, q.out);
    });
    k.add("written", "reports written by accuracy, wordacc and editop for all pairs of pages, two pages summed, and with a third in both stagings", nt * nt * nt * (T ? nt : 1), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S a = texts[x.of(nt)], b = texts[x.of(nt)], d = texts[x.of(nt)], e = texts[T ? x.of(nt) : (i / 7) % nt];
        const char *tool[] = {"accuracy", "wordacc", "editop"}, *sumt[] = {"accsum", "wordaccsum", "editopsum"};
        for (int t = 0; t < 3; t++) {
            auto page = [&](const S &p, const S &q) { return c.ok(tool[t], {"p", "q"}, {{"p", p}, {"q", q}}).out; };
            auto add = [&](const VS &r) {
                VS names;
                std::vector<File> f;
                for (size_t j = 0; j < r.size(); j++) names.push_back(fmt("r%zu", j)), f.push_back({names[j], r[j]});
                return c.ok(sumt[t], names, f).out;
            };
            S r1 = page(a, b), r2 = page(d, e), r3 = page(b, d);
            S s = add({r1, r2, r3});
            c.eq(S(sumt[t]) + ": another order", s, add({r3, r1, r2}));
            c.eq(S(sumt[t]) + ": first two, then the third", s, add({add({r1, r2}), r3}));
            c.eq(S(sumt[t]) + ": last two, then the first", s, add({r1, add({r2, r3})}));
            if (t != 1) {
                Text ta = rd(a), tb = rd(b), td = rd(d), te = rd(e);
                if (t == 2) {
                    m::Edo w = m::editop(ta, tb);
                    w.add(m::editop(td, te));
                    w.add(m::editop(tb, td));
                    c.eq("editopsum", m::render(w), s);
                }
            }
        }
    });
}
