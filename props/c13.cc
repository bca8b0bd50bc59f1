#include "reports.h"

static S want(const VS &list, const m::Wac &w)
{
    S s;
    long n = w.total.count, miss = w.total.missed, k = 0;
    if (!n) return s;
    std::map<S, m::Cnt> left = w.stopterm;
    for (auto &x : w.nonterm) left[x.first].add(x.second);
    auto line = [&]() { s += fmt("%3ld %6.2f\n", k++, 100.0 * (n - miss) / n); };
    line();
    for (auto &x : list) {
        auto it = left.find(x);
        if (it != left.end()) n -= it->second.count, miss -= it->second.missed, left.erase(it);
        if (!n) break;
        line();
    }
    return s;
}
static void check(Ctx &c, const VS &list, const m::Wac &w, const S &sep = "\n")
{
    c.eq("nonstopacc", want(list, w), c.ok("nonstopacc", {"s", "w"}, {{"s", join(list, sep)}, {"w", m::render(w)}}).out);
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    VS five = {"the", "of", "cat", "\xC3\xA9t\xC3\xA9", "dog"};
    int L = T ? 6 : 5;
    uint64_t nl = nstr(5, L);
    k.add("lists", fmt("all lists of up to %d words out of five (repeats included) against eight reports", L), nl * 8, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        VS l;
        int rep_ = x.of(8);
        for (int d : str(5, x.of(nl))) l.push_back(five[d]);
        std::vector<std::pair<S, m::Cnt>> st, non;
        /* which of the words the report has, and where */
        if (rep_ != 0) st.push_back({"the", cnt(8, 1 + rep_ % 3)});
        if (rep_ & 1) st.push_back({"of", cnt(4, 0)});
        if (rep_ & 2) non.push_back({"cat", cnt(2, 2)});
        if (rep_ & 4) non.push_back({"\xC3\xA9t\xC3\xA9", cnt(16, rep_)});
        if (rep_ == 7) non.push_back({"zebra", cnt(1, 1)});
        static const char *const sep[] = {"\n", " ", "\n\n", ", ", "\r\n"};
        check(c, l, mkwac(st, non, 8), sep[i % 5]);
    });
    auto pool = wacs();
    uint64_t np = pool.size();
    k.add("pool", "every sum of two reports of the pool (1000 words, long words, large counts) against: its stopwords in order, reversed, all its words, none of them, each twice", np * np * 5, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        m::Wac w = pool[x.of(np)];
        w.add(pool[x.of(np)]);
        int how = x.of(5);
        VS l;
        if (how < 2 || how == 4)
            for (auto &t : w.stopterm) l.push_back(t.first);
        if (how == 1) std::reverse(l.begin(), l.end());
        if (how == 2) for (auto &t : w.nonterm) l.push_back(t.first);
        if (how == 2) for (auto &t : w.stopterm) l.push_back(t.first);
        if (how == 3) l = {"nosuch", "word"};
        if (how == 4) {
            VS d = l;
            for (auto &t : d) l.push_back(t);
        }
        if (m::words_of(join(l, "\n"), m::T_STOP) != l) return c.skip();
        check(c, l, w);
    });
    /* ends at non-stopword accuracy for the report's own stopwords */
    VS tx = {"", "the cat", "the the of", "cat dog", "of dog the cat the", "a b c\nthe of a", "the ^cat ~", "THE Cat oF"};
    uint64_t nt = tx.size();
    k.add("own-list", "reports wordacc wrote for all pairs of eight texts with -S list: the last figure is the Non-stopwords accuracy", nt * nt * 8, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S a = tx[x.of(nt)], b = tx[x.of(nt)];
        VS all = {"the", "of", "a"}, l;
        int set = x.of(8);
        for (int j = 0; j < 3; j++)
            if (set >> j & 1) l.push_back(all[j]);
        S list = join(l, "\n");
        S r = c.ok("wordacc", {"-S", "s", "c", "g"}, {{"s", list}, {"c", a}, {"g", b}}).out;
        S out = c.ok("nonstopacc", {"s", "w"}, {{"s", list}, {"w", r}}).out;
        VS o = lines(out);
        /* the report's figures */
        size_t p = r.find("\nNon-stopwords\n");
        size_t q = r.find("    Total\n", p);
        size_t s = r.rfind('\n', q);
        long n, miss;
        char acc[20];
        if (p == S::npos || sscanf(r.c_str() + s + 1, "%ld %ld %19s", &n, &miss, acc) != 3) c.fail("no Non-stopwords total in %s", show(r).c_str());
        long words, mis;
        if (sscanf(r.c_str() + r.find("\n", 45) + 0, "%ld", &words) != 1) words = -1;
        VS rl = lines(r);
        sscanf(rl[2].c_str(), "%ld", &words), sscanf(rl[3].c_str(), "%ld", &mis);
        if (words == 0) c.eq("output for an empty report", S(), out);
        else {
            c.eq("first line", fmt("%3d %6.2f\n", 0, 100.0 * (words - mis) / words), o[0]);
            if (n > 0) {
                c.eq("number of lines", (long) l.size() + 1, (long) o.size());
                c.eq("last line", fmt("%3zu %6.2f\n", l.size(), atof(acc)), o.back());
            } else c.expect(o.size() <= l.size(), "goes on although no words are left");
        }
    });
    /* many stopwords: numbering */
    k.add("many", "lists of 1..1200 stopwords, all or some in the report", 40 * 3, [=](Ctx &c, uint64_t i) {
        int n = i % 40 < 20 ? i % 40 + 1 : (i % 40 - 19) * 60, how = i / 40;
        VS l;
        std::vector<std::pair<S, m::Cnt>> st;
        for (int j = 0; j < n; j++) {
            l.push_back(fmt("w%dq", (j * 37) % 5003));
            if (how == 0 || j % (how + 1) == 0) st.push_back({l.back(), cnt(j % 5 + 1, j % 3)});
            if (st.size() && st.back().second.missed > st.back().second.count) st.back().second.missed = 0;
        }
        check(c, l, mkwac(st, {{"zoo", cnt(3, 1)}}, 8));
        check(c, l, mkwac(st, {}, 8));
    });
    k.add("many-large", "lists of 32767, 32769, 65535, 65537 and 100000 stopwords, none, the last or every one of them in the report", 5 * 3, [=](Ctx &c, uint64_t i) {
        static const long ns[] = {32767, 32769, 65535, 65537, 100000};
        Mix x(i);
        long n = ns[x.of(5)];
        int how = x.of(3);
        VS l;
        std::vector<std::pair<S, m::Cnt>> st;
        for (long j = 0; j < n; j++) {
            l.push_back(fmt("w%ldq", j));
            if (how == 2 || (how == 1 && j == n - 1)) st.push_back({l.back(), cnt(j % 5 + 1, j % 2)});
        }
        check(c, l, mkwac(st, {{"zoo", cnt(3, 1)}}, 8));
    }).limit = 120;
    k.fams.back().exec_sample = 3;
    k.add("both", "a word that is both a stopword and a non-stopword (of different pages), before, after or without other words", 3 * 3 * 4 * 8, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        static const m::Cnt v[] = {cnt(1, 0), cnt(2, 1), cnt(5, 5)};
        m::Cnt s = v[x.of(3)], n = v[x.of(3)];
        int more = x.of(4), order = x.of(8);
        std::vector<std::pair<S, m::Cnt>> st = {{"cat", s}}, non = {{"cat", n}};
        if (more & 1) st.push_back({"the", cnt(3, 1)});
        if (more & 2) non.push_back({"dog", cnt(4, 0)}), non.push_back({"the", cnt(7, 2)});
        static const VS ls[] = {{"cat"}, {"the", "cat"}, {"cat", "the"}, {"dog", "cat", "the"}, {"cat", "cat"}, {"cat", "the", "cat", "dog"}, {"x", "cat"}, {}};
        check(c, ls[order], mkwac(st, non, 8));
    });
    VS tok = {"a", "^", "~", " ", "\n", "B", "1", "'", "-", "\xC3\xA9"};
    int TL = T ? 6 : 5;
    uint64_t ntok = nstr(tok.size(), TL);
    k.add("list-text", fmt("lists of all texts of up to %d out of letters, digits, marks, rejects, blanks, hyphens and apostrophes, alone or after a vendor header", TL), ntok * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S l;
        for (int d : str(tok.size(), x.of(ntok))) l += tok[d];
        if (x.of(2)) l = "UNLV-ISRI OCR SYSTEM Version 5.0\n" + l;
        m::Wac w = mkwac({{"a", cnt(1, 0)}, {"b", cnt(2, 1)}, {"aa", cnt(4, 3)}, {"aaa", cnt(8, 1)}, {"a'a", cnt(16, 9)}, {"unlv", cnt(1000, 1)}},
            {{"ab", cnt(32, 2)}, {"ba", cnt(64, 5)}, {"1", cnt(128, 100)}, {"a1", cnt(256, 0)}, {"\xC3\xA9", cnt(512, 77)}}, 8);
        c.eq("nonstopacc", want(m::words_of(l, m::T_STOP), w), c.ok("nonstopacc", {"s", "w"}, {{"s", l}, {"w", m::render(w)}}).out);
    });
    k.add("heads", "lists of up to 3 out of 5 after the title and dividers of a generated text, complete and not", heads().size() * nstr(5, 3), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S l = heads()[x.of(heads().size())];
        for (int d : str(5, x.of(nstr(5, 3)))) l += tok[d];
        m::Wac w = mkwac({{"a", cnt(1, 0)}, {"b", cnt(2, 1)}, {"zoo", cnt(4, 3)}, {"ocreval", cnt(8, 1)}, {"version", cnt(16, 9)}, {"7.0", cnt(1000, 1)}, {"vendor", cnt(2000, 3)}},
            {{"ab", cnt(32, 2)}, {"x", cnt(64, 5)}, {"interface", cnt(128, 100)}, {"independent", cnt(256, 0)}, {"inter", cnt(512, 77)}}, 8);
        c.eq("nonstopacc", want(m::words_of(l, m::T_STOP), w), c.ok("nonstopacc", {"s", "w"}, {{"s", l}, {"w", m::render(w)}}).out);
    });
    k.add("twins", "stopwords and non-stopwords of the same letters that first differ after 0..300, ... 100000 characters", n_twins * 3 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        uint64_t q = x.of(n_twins);
        auto t = twins(q, x.of(3));
        int how = x.of(4);
        VS l = how & 1 ? VS{t.first, "k"} : VS{t.second, t.first};
        if (how & 2) check(c, l, mkwac({{t.first, cnt(4, 1)}}, {{t.second, cnt(8, 3)}}, 8));
        else check(c, l, mkwac({{"the", cnt(1, 1)}}, {{t.second, cnt(4, 1)}, {t.first, cnt(16, 0)}}, 8));
    });
    k.add("report-words", "words that occur in the reports themselves, as the list and in the report", report_words().size() * 6, [=](Ctx &c, uint64_t i) {
        const VS &rw = report_words();
        Mix x(i);
        S w = rw[x.of(rw.size())], n = rw[(i * 7 + 3) % rw.size()];
        int how = x.of(6);
        if (n == w) n = "zoo";
        m::Wac r = how % 2 ? mkwac({{w, cnt(4, 1)}}, {{"cat", cnt(8, 3)}, {n, cnt(32, 5)}}, 8) : mkwac({{"the", cnt(4, 1)}}, {{w, cnt(8, 3)}, {n + "s", cnt(32, 5)}}, 8);
        VS l = how / 2 == 0 ? VS{w} : how / 2 == 1 ? VS{"the", w, "cat"} : VS{n, w};
        VS plain;
        for (auto &s : l)
            if (!isdigit(s[0])) plain.push_back(s);
        check(c, plain, r);
    });
    k.add("long-words", "stopwords of 1..200 characters of 1 to 4 bytes", 200 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int l = x.of(200) + 1, by = x.of(4);
        S w = rep(cp(by == 0 ? 'w' : by == 1 ? 0xE9 : by == 2 ? 0x10D0 : 0x10428), l), w2 = w + (by == 0 ? S("x") : cp(0xE8)), w1 = l > 1 ? w.substr(0, w.size() - w.size() / l) : S("q");
        check(c, {"the", w, "of"}, mkwac({{w, cnt(4, 1)}, {w2, cnt(8, 2)}, {w1, cnt(16, 3)}}, {{"of", cnt(32, 5)}}, 8));
    });
}
