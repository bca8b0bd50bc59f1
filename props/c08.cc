#include "common.h"

static S textof(const VS &w, uint64_t style = 0)
{
    static const char *const sep[] = {" ", "\n", ", ", " - "};
    return join(w, sep[style % 4]);
}
/* the report for one of the longest common subsequences */
static void exact(Ctx &c, const VS &a, const VS &b, const std::set<S> &stop, const VS &opt = {}, const std::vector<File> &more = {}, uint64_t style = 0)
{
    VS args = opt;
    args.push_back("c"), args.push_back("g");
    std::vector<File> f = more;
    f.push_back({"c", textof(a, style)});
    f.push_back({"g", textof(b, style / 4)});
    Res r = c.ok("wordacc", args, f);
    S first;
    for (unsigned msk : m::all_lcs(a, b)) {
        std::vector<bool> rec;
        for (size_t i = 0; i < a.size(); i++) rec.push_back(msk >> i & 1);
        S w = m::render(m::tally(a, rec, stop));
        if (w == r.out) return;
        if (first.empty()) first = w;
    }
    c.eq("wordacc report (no longest common subsequence of words gives it; one of them shown)", first, r.out);
}
static void texts(Ctx &c, const S &ta, const S &tb, const std::set<S> &stop)
{
    VS a = m::words_of(ta, m::T_WORD), b = m::words_of(tb, m::T_WORD);
    Res r = c.ok("wordacc", {"c", "g"}, {{"c", ta}, {"g", tb}});
    S first;
    for (unsigned msk : m::all_lcs(a, b)) {
        std::vector<bool> rec;
        for (size_t i = 0; i < a.size(); i++) rec.push_back(msk >> i & 1);
        S w = m::render(m::tally(a, rec, stop));
        if (w == r.out) return;
        if (first.empty()) first = w;
    }
    c.eq("wordacc report (no longest common subsequence of words gives it; one of them shown)", first, r.out);
}
/* the report for a known set of recognised words */
static void known(Ctx &c, const VS &a, const VS &b, const std::vector<bool> &rec, const std::set<S> &stop, const VS &opt = {}, const std::vector<File> &more = {}, uint64_t style = 0)
{
    VS args = opt;
    args.push_back("c"), args.push_back("g");
    std::vector<File> f = more;
    f.push_back({"c", textof(a, style)});
    f.push_back({"g", textof(b, style / 4)});
    c.eq("wordacc report", m::render(m::tally(a, rec, stop)), c.ok("wordacc", args, f).out);
}
/* a report that may follow from any longest common subsequence: minimal, and every figure follows from the per-word ones */
static void consistent(Ctx &c, const VS &a, const VS &b, const std::set<S> &stop)
{
    Res r = c.ok("wordacc", {"c", "g"}, {{"c", textof(a)}, {"g", textof(b)}});
    long best = m::lcs(a, b);
    VS l = lines(r.out);
    c.eq("misrecognised words", fmt("%8zu   Words\n%8ld   Misrecognized\n", a.size(), (long) a.size() - best), l[2] + l[3]);
    m::Wac w;
    std::map<S, m::Cnt> terms;
    std::map<S, long> count;
    for (auto &x : a) count[x]++;
    size_t at = r.out.find("\nPhrases\n");
    VS tail = lines(at == S::npos ? S() : r.out.substr(at + 1));
    size_t i = 2;
    long left = a.size() - best;
    for (; i < tail.size() && tail[i] != "\n"; i++) {
        long x, y, n;
        char p[20];
        if (sscanf(tail[i].c_str(), "%ld %ld %19s %ld", &x, &y, p, &n) != 4) c.fail("phrase line %s", show(tail[i]).c_str());
        w.phrase[n].count = x, w.phrase[n].missed = y;
        if (x != (long) a.size() - n + 1 || y < std::min(x, left) || y > std::min(x, n * left)) c.fail("impossible phrase line %s", show(tail[i]).c_str());
    }
    for (; i < tail.size(); i++) {
        long x, y;
        char p[20], word[4000];
        if (sscanf(tail[i].c_str(), "%ld %ld %19s %3999s", &x, &y, p, word) != 4) continue;
        m::Cnt k;
        k.count = x, k.missed = y;
        terms[word] = k;
    }
    std::map<S, long> nth;
    VS ws;
    std::vector<bool> rec;
    for (auto &x : a) {
        ws.push_back(x);
        rec.push_back(nth[x]++ >= terms[x].missed);
    }
    m::Wac t = m::tally(ws, rec, stop);
    t.phrase = w.phrase;
    c.eq("wordacc report, as it follows from the misses of each word", m::render(t), r.out);
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    const std::set<S> &def = m::default_stopwords();
    auto small = [&](S name, VS al, int la, int lb) {
        uint64_t na = nstr(al.size(), la), nb = nstr(al.size(), lb);
        k.add(name, fmt("all pairs of word sequences over %zu words, up to %d and %d words", al.size(), la, lb), na * nb, [=, &def](Ctx &c, uint64_t i) {
            Mix x(i);
            VS a, b;
            for (int d : str(al.size(), x.of(na))) a.push_back(al[d]);
            for (int d : str(al.size(), x.of(nb))) b.push_back(al[d]);
            exact(c, a, b, def, {}, {}, i);
        });
    };
    small("pairs4", {"the", "cat", "dog", "of"}, T ? 5 : 4, T ? 5 : 5);
    small("pairs3", {"the", "cat", "dog"}, T ? 7 : 6, T ? 6 : 5);
    small("pairs2", {"cat", "dog"}, T ? 10 : 8, T ? 10 : 8);
    /* each subset of a text recognised */
    VS run = {"the", "quick", "brown", "fox", "of", "jumped", "over", "and", "lazy", "dog", "in", "zoo"};
    int R = T ? 16 : 12;
    for (auto x : {"to", "seek", "his", "luck"}) run.push_back(x);
    k.add("subsets", fmt("every subset of a text of %d words (stopwords among them) recognised, the others missing or replaced", R), 3ull << R, [=, &def](Ctx &c, uint64_t i) {
        int how = i % 3;
        VS a(run.begin(), run.begin() + R), b;
        std::vector<bool> rec;
        for (int j = 0; j < R; j++) {
            rec.push_back(i / 3 >> j & 1);
            if (rec[j]) b.push_back(a[j]);
            else if (how == 1) b.push_back("xyzzy");
            else if (how == 2) b.push_back("xyz"), b.push_back("zy");
        }
        known(c, a, b, rec, def, {}, {}, i);
    });
    k.add("ends", "every pair of ASCII characters as first and last of the correct and the generated text", 127 * 127 * 2, [=, &def](Ctx &c, uint64_t i) {
        Mix x(i);
        S a(1, char(x.of(127) + 1)), b(1, char(x.of(127) + 1));
        if (x.of(2)) texts(c, "the ab" + a, b + "the ab", def);
        else texts(c, b + "ab the" + a, a + "ab b" + b, def);
    });
    /* every code point in both texts */
    k.add("every-character", "every code point, 16 a run: in words, between them and instead of one, in both texts", 0x110000 / 16, [=, &def](Ctx &c, uint64_t i) {
        S ta, tb;
        for (m::U u = i * 16; u < (i + 1) * 16; u++) {
            if (u >= 0xD800 && u < 0xE000) continue;
            S x = cp(u);
            ta += "a" + x + " " + x + "b\n", tb += "a" + x + "\n" + (u % 3 ? x : S("c")) + "b ";
        }
        if (ta.empty()) return c.skip();
        VS a = m::words_of(ta, m::T_WORD), b = m::words_of(tb, m::T_WORD);
        Res r = c.ok("wordacc", {"c", "g"}, {{"c", ta}, {"g", tb}});
        VS l = lines(r.out);
        c.eq("misrecognised words", fmt("%8zu   Words\n%8ld   Misrecognized\n", a.size(), (long) a.size() - m::lcs(a, b)), l[2] + l[3]);
    });
    /* lengths */
    k.add("lengths", "words of 1..70 characters of 1 to 4 bytes, stopword or not, once to three times, recognised or not", 70 * 4 * 2 * 3 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int l = x.of(70) + 1, by = x.of(4), st = x.of(2), n = x.of(3) + 1, miss = x.of(4);
        S w = rep(cp(by == 0 ? 'w' : by == 1 ? 0xE9 : by == 2 ? 0x10D0 : 0x10428), l);
        VS a, b;
        std::vector<bool> rec;
        for (int j = 0; j < n; j++) {
            bool ok = j >= miss;
            a.push_back(fmt("k%d", j)), rec.push_back(true), b.push_back(a.back());
            a.push_back(w), rec.push_back(ok);
            if (ok) b.push_back(w);
        }
        std::set<S> stop = {"k0"};
        if (st) stop.insert(w);
        known(c, a, b, rec, stop, {"-S", "s"}, {{"s", "k0\n" + (st ? w : S())}}, i);
    });
    /* occurrences */
    k.add("occurs", "one word 1..24 times, 0..24 of them missed (first, last or alternate ones), stopword or not", 24 * 25 * 3 * 2, [=, &def](Ctx &c, uint64_t i) {
        Mix x(i);
        int n = x.of(24) + 1, miss = x.of(25), how = x.of(3);
        S w = x.of(2) ? "the" : "cat";
        if (miss > n) return c.skip();
        VS a, b;
        std::vector<bool> rec;
        for (int j = 0; j < n; j++) {
            int p = how == 0 ? j : how == 1 ? n - 1 - j : (j % 2 ? (n + j) / 2 : j / 2);
            bool ok = p >= miss;
            a.push_back(fmt("k%d", j)), rec.push_back(true), b.push_back(a.back());
            a.push_back(w), rec.push_back(ok);
            if (ok) b.push_back(w);
        }
        known(c, a, b, rec, def);
    });
    k.add("report-words", "words that occur in the reports and messages themselves, recognised or not, stopwords or not, alone and among others", report_words().size() * 2 * 3 * 2 * 2, [=, &def](Ctx &c, uint64_t i) {
        const VS &rw = report_words();
        Mix x(i);
        S w = rw[x.of(rw.size())];
        int st = x.of(2), how = x.of(3), twice = x.of(2), ok = x.of(2);
        for (char ch : w)
            if (isdigit(ch)) st = 0;
        VS a = how == 0 ? VS{w} : how == 1 ? VS{"k0", w, "zz"} : VS{w, "k0"}, b;
        if (twice) a.push_back("k1"), a.push_back(w);
        std::vector<bool> rec;
        for (size_t j = 0; j < a.size(); j++) {
            bool r = a[j] != w || (ok && j < 3);
            rec.push_back(r);
            if (r) b.push_back(a[j]);
        }
        std::set<S> stop;
        if (st) stop.insert(w);
        if (def.count(w) && !st) known(c, a, b, rec, def, {}, {}, i);
        else known(c, a, b, rec, stop, {"-S", "s"}, {{"s", st ? w + "\n" : S("")}}, i);
    });
    /* minimality in longer texts */
    VS longer;
    {
        VS v = {"the", "cat", "and", "dog", "ran", "of", "a"};
        for (int i = 0; i < 40; i++) longer.push_back(v[(i * i + i / 5) % v.size()]);
    }
    VS ins = {"the", "cat", "zebra"};
    uint64_t e1 = nedits(40, 3), e2 = nedits(39, 3);
    k.add("edits", "a text of 40 words with repeated words: all single edits and (in steps) all pairs of edits, either way round", 2 * (e1 + (T ? e1 * e2 : e1 * e2 / 4)), [=, &def](Ctx &c, uint64_t i) {
        Mix x(i);
        int rev = x.of(2);
        uint64_t j = x.i;
        VS b;
        if (j < e1) b = edit(longer, ins, j);
        else {
            j -= e1;
            if (!T) j = j * 4 + j / 7 % 4;
            b = edit(longer, ins, j / e2 % e1);
            b = edit(b, ins, j % e2 % nedits(b.size(), 3));
        }
        rev ? consistent(c, b, longer, def) : consistent(c, longer, b, def);
    });
    /* dissimilar texts */
    k.add("dissimilar", "texts of up to 150 words over 2..6 words built by stepping through them at different strides", 14 * 14 * 40, [=, &def](Ctx &c, uint64_t i) {
        Mix x(i);
        int p = x.of(14) + 1, q = x.of(14) + 1, n = x.of(40) * 4 + 2;
        VS v = {"the", "cat", "dog", "of", "ran", "sat"}, a, b;
        int kk = 2 + (p + q) % 5;
        for (int j = 0; j < n; j++) {
            a.push_back(v[j * p / 3 % kk]);
            if (j % 7 != q % 7) b.push_back(v[(j * q / 2 + p) % kk]);
        }
        consistent(c, a, b, def);
    });
    k.add("dissimilar-large", "texts of 255 to 3000 words over 2..6 words with little in common, either way round", 8 * 6 * 5 * 2, [=, &def](Ctx &c, uint64_t i) {
        static const int sz[] = {255, 256, 257, 500, 1000, 1023, 1025, 3000};
        Mix x(i);
        int n = sz[x.of(8)], p = x.of(6) * 2 + 1, kk = x.of(5) + 2;
        bool rev = x.of(2);
        if (n == 3000 && p > 3) return c.skip();
        VS v = {"the", "cat", "dog", "of", "ran", "sat"}, a, b;
        unsigned h = 12345 + p;
        for (int j = 0; j < n; j++) {
            a.push_back(v[(j * p / 3 + j / 11) % kk]);
            h = h * 1103515245u + 12345u;
            if (j % 5) b.push_back(v[(h >> 16) % kk]);
            if (j % 9 == p % 9) b.push_back("new");
        }
        rev ? consistent(c, b, a, def) : consistent(c, a, b, def);
    }).limit = 60;
    /* stopword lists */
    k.add("default-list", "each default stopword, with a letter added or removed and in capitals, as text and under -S", def.size(), [=, &def](Ctx &c, uint64_t i) {
        S w = *std::next(def.begin(), i), up = w;
        for (auto &ch : up) ch = toupper(ch);
        VS a = {w, w + "z", "z" + w, w + w};
        if (w.size() > 1) a.push_back(w.substr(1)), a.push_back(w.substr(0, w.size() - 1));
        for (int way = 0; way < 3; way++) {
            VS b(a.begin() + (way ? 1 : 0), a.end());
            std::vector<bool> rec(a.size(), true);
            if (way) rec[0] = false;
            std::set<S> mine = {a[1], a[2]};
            S ta = textof(a), tb = textof(b), u;
            if (way == 2)
                for (auto &ch : ta) ch = toupper(ch);
            /* repeated words (a removed letter may give the same word twice) still have one alignment when nothing is missing */
            m::Wac t = m::tally(a, rec, def), t2 = m::tally(a, rec, mine);
            bool dup = std::count(a.begin(), a.end(), w) > 1;
            if (way && dup) continue;
            c.eq("default list", m::render(t), c.ok("wordacc", {"c", "g"}, {{"c", ta}, {"g", tb}}).out);
            c.eq("own list", m::render(t2), c.ok("wordacc", {"-S", "s", "c", "g"}, {{"c", ta}, {"g", tb}, {"s", a[1] + "\n" + a[2] + "\n"}}).out);
        }
    });
    VS five = {"the", "cat", "\xC3\xA9t\xC3\xA9", "zoo", "i'm"};
    k.add("own-list", "every subset of five words as -S list, in each of 4 layouts, attached or separate, and an empty list", 32 * 4 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int set = x.of(32), lay = x.of(4), att = x.of(2);
        std::set<S> stop;
        VS l;
        for (int j = 0; j < 5; j++)
            if (set >> j & 1) stop.insert(five[j]), l.push_back(five[j]);
        if (lay & 1) std::reverse(l.begin(), l.end());
        S file = textof(l, lay);
        if (lay == 3)
            for (auto &ch : file) ch = toupper((unsigned char) ch) < 128 ? toupper(ch) : ch;
        VS a = {"the", "cat", "the", "\xC3\xA9t\xC3\xA9", "zoo", "i'm", "cat", "of"};
        exact(c, a, {"the", "the", "zoo", "cat", "of"}, stop, att ? VS{"-Ss"} : VS{"-S", "s"}, {{"s", file}});
    });
    /* many distinct words */
    k.add("many", "1..1300 distinct words (beyond the table's 503 buckets), some missed, words of colliding letters", 60, [=, &def](Ctx &c, uint64_t i) {
        static const int ns[] = {1, 2, 10, 100, 499, 502, 503, 504, 505, 600, 1006, 1300};
        int n = ns[i % 12], how = i / 12;
        VS a, b;
        std::vector<bool> rec;
        S p = "abcdefg";
        for (int j = 0; j < n; j++) {
            if (how % 2) a.push_back(p), std::next_permutation(p.begin(), p.end());
            else a.push_back(fmt("w%dx", (j * 7919) % 100003));
            rec.push_back((j + how) % 3 || how == 4);
            if (rec[j]) b.push_back(a[j]);
        }
        known(c, a, b, rec, def);
    }).limit = 60;
    k.add("twins", "pairs of words of the same letters that first differ after 0..300, ... 100000 characters: one for the other, both, and one of them a stopword", n_twins * 3 * 4, [=, &def](Ctx &c, uint64_t i) {
        Mix x(i);
        uint64_t q = x.of(n_twins);
        auto t = twins(q, x.of(3));
        S u = t.first, v = t.second;
        switch (x.of(4)) {
        case 0: known(c, {"k", u, "l"}, {"k", v, "l"}, {true, false, true}, def); break;
        case 1: known(c, {u, "k", v, "l"}, {u, "k", "l"}, {true, true, false, true}, def); break;
        case 2: known(c, {u, "k", v, u}, {u, "k", v, u}, {true, true, true, true}, {u}, {"-S", "s"}, {{"s", u}}); break;
        default: known(c, {v, "k", u, v, "l"}, {"k", u, "l"}, {false, true, true, false, true}, {u}, {"-S", "s"}, {{"s", u + "\nz"}});
        }
    });
    VS tok = {"a", "^", "~", " ", "\n", "B", "1", "'", "-", "\xC3\xA9"};
    int TL = T ? 5 : 4;
    uint64_t ntok = nstr(tok.size(), TL);
    k.add("list-text", fmt("-S lists of all texts of up to %d out of letters, digits, marks, rejects, blanks, hyphens and apostrophes, alone or after a vendor header", TL), ntok * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S l;
        for (int d : str(tok.size(), x.of(ntok))) l += tok[d];
        if (x.of(2)) l = "UNLV-ISRI OCR SYSTEM Version 5.0\n" + l;
        VS w = m::words_of(l, m::T_STOP), a = {"k"}, b = {"k"};
        std::set<S> stop(w.begin(), w.end());
        if (stop.size() != w.size()) return c.skip(); /* (a warning) */
        std::vector<bool> rec = {true};
        for (auto s : {"a", "b", "1", "aa", "ab", "ba", "a'a", "b'a", "aaa", "a1", "\xC3\xA9", "a\xC3\xA9", "unlv"}) {
            a.push_back(s), rec.push_back(a.size() % 2);
            if (a.size() % 2) b.push_back(s);
        }
        known(c, a, b, rec, stop, {"-S", "s"}, {{"s", l}});
    });
    k.add("heads", "-S lists of up to 3 out of 5 after the title and dividers of a generated text, complete and not", heads().size() * nstr(5, 3), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S l = heads()[x.of(heads().size())];
        for (int d : str(5, x.of(nstr(5, 3)))) l += tok[d];
        VS w = m::words_of(l, m::T_STOP), a = {"k"}, b = {"k"};
        std::set<S> stop(w.begin(), w.end());
        if (stop.size() != w.size()) return c.skip(); /* (a warning) */
        std::vector<bool> rec = {true};
        for (auto s : {"a", "b", "zoo", "aa", "ab", "ba", "ocreval", "vendor", "independent", "interface", "version", "7.0", "inter", "x"}) {
            a.push_back(s), rec.push_back(a.size() % 2);
            if (a.size() % 2) b.push_back(s);
        }
        known(c, a, b, rec, stop, {"-S", "s"}, {{"s", l}});
    });
    k.add("size", "65534, 65535 and 65536 words (the limit of the word comparison), equal or not, and refusals beyond it", 3 * 3, [=, &def](Ctx &c, uint64_t i) {
        long n = 65534 + i % 3;
        int how = i / 3;
        VS a(n, "cat"), b;
        for (long j = 0; j < n; j++) a[j] = j % 3 ? "the" : j % 5 ? "cat" : "dog";
        b = a;
        std::vector<bool> rec(n, true);
        if (how == 1) a[n / 2] = "zebra", rec[n / 2] = false;
        if (how == 2) b[0] = "zebra", rec[0] = false, a[0] = "unique";
        Inv v("wordacc", {"c", "g"}, {{"c", textof(a)}, {"g", textof(b)}});
        Res r = c.run(v);
        if (r.status) return refused(c, v, r, "too long");
        c.eq("wordacc report", m::render(m::tally(a, rec, def)), r.out);
        c.eq("stderr", S(), r.err);
    }).limit = 60;
    k.fams.back().exec_sample = 9;
}
