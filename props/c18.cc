#include "common.h"

static void check(Ctx &c, const VS &b)
{
    std::vector<VS> w;
    std::vector<File> f;
    VS names;
    for (size_t i = 0; i < b.size(); i++) {
        names.push_back(fmt("f%zu", i));
        f.push_back({names[i], b[i]});
        w.push_back(m::words_of(b[i], m::T_WORD));
    }
    c.eq("wordfreq", m::wordfreq(w), c.ok("wordfreq", names, f).out);
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    auto files = [&](S name, VS al, int nf, int l) {
        uint64_t n = nstr(al.size(), l), tot = 1;
        for (int j = 0; j < nf; j++) tot *= n;
        k.add(name, fmt("%d file(s): all texts of up to %d parts over %zu (words of both cases, separators, marks)", nf, l, al.size()), tot, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            VS b;
            for (int j = 0; j < nf; j++) b.push_back(strs(al, x.of(n)));
            check(c, b);
        });
    };
    VS al = {"a", "B", "ab", " ", "\n", "'", "\xC3\xA9", "~"};
    files("one", al, 1, T ? 7 : 6);
    files("one-words", {"cat ", "Cat ", "dog\n", "ca", "ab,", "\xC3\xA9t\xC3\xA9 ", "^the "}, 1, T ? 7 : 6);
    files("two", al, 2, T ? 4 : 3);
    files("two-words", {"cat ", "cat", "DOG ", "ab"}, 2, T ? 5 : 4);
    files("three", {"a ", "b", "A", "\n"}, 3, T ? 4 : 3);
    /* nothing is carried over from file to file */
    k.add("boundaries", "every pair of ASCII characters, one ending a file and the other beginning the next", 127 * 127, [=](Ctx &c, uint64_t i) {
        S x(1, char(i % 127 + 1)), y(1, char(i / 127 + 1));
        check(c, {"ab" + x, y + "cd" + x, "", y + "Ab", x, "cd", "ab" + x + "\n", "cd"});
    });
    k.add("boundaries-every-character", "every code point ending and beginning files, 128 files a run", 0x110000 / 16, [=](Ctx &c, uint64_t i) {
        VS b;
        for (m::U u = i * 16; u < (i + 1) * 16; u++) {
            if (u >= 0xD800 && u < 0xE000) continue;
            for (auto &y : VS{"a" + cp(u), "b", "1" + cp(u), cp(u) + "a", cp(u), "2", cp(u) + "\n", "A" + cp(u) + cp(u)}) b.push_back(y);
        }
        if (b.empty()) return c.skip();
        check(c, b);
    });
    files("two-marks", {"a", "-", "1", ".", "\n", "_"}, 2, T ? 4 : 3);
    files("three-marks", {"a", "-", "'", "\n"}, 3, 2);
    /* order of output: byte order of UTF-8, then counts */
    VS ws = {"a", "aa", "ab", "b", "z", "_a", "1", "10", "9", "\xC3\xA9", "\xC3\xBF", cp(0x10428), cp(0x4E00), cp(0xE000), cp(0x5D0), "zz"};
    uint64_t nw = ws.size();
    k.add("order", "every three words out of 16 with counts 1..4 each, in every order", nw * nw * nw * 64, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S s;
        int n[3], p[3];
        for (int j = 0; j < 3; j++) p[j] = x.of(nw);
        for (int j = 0; j < 3; j++) n[j] = x.of(4) + 1;
        for (int r = 0; r < 4; r++)
            for (int j = 0; j < 3; j++)
                if (r < n[j]) s += ws[p[j]] + (r % 2 ? "\n" : " ");
        check(c, {s});
    });
    k.add("distinct", "d distinct words, d up to 5000 (beyond the table's 503 buckets), also permutations of the same letters", 14 * 6 * 2, [=](Ctx &c, uint64_t i) {
        static const int ds[] = {1, 2, 9, 10, 100, 499, 502, 503, 504, 505, 600, 1006, 2012, 5000};
        Mix x(i);
        int d = ds[x.of(14)], h = x.of(6), perm = x.of(2);
        S s, p = "abcdefg";
        for (int j = 0; j < d; j++) {
            S w = perm ? p : fmt("w%dx", (int) ((long) j * 4999 % 100003));
            if (perm) std::next_permutation(p.begin(), p.end());
            for (int r = 0; r <= (j * 7 + h) % 4; r++) s += w + " ";
        }
        check(c, {s});
    }).limit = 60;
    k.add("distinct-large", "65535, 65536, 65537 and 140000 distinct words, some of them several times", 4, [=](Ctx &c, uint64_t i) {
        static const long ds[] = {65535, 65536, 65537, 140000};
        S s;
        for (long j = 0; j < ds[i]; j++) s += fmt("w%ldx ", j * 7919 % ds[i]);
        for (long j = 0; j < 1000; j++) s += fmt("w%ldx\n", j * j % ds[i]);
        check(c, {s, "w0x"});
    }).limit = 120;
    k.fams.back().exec_sample = 2;
    k.add("lengths", "words of every length 1..600 characters of 1 to 4 bytes, twice, and one shorter", 600 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int l = x.of(600) + 1, by = x.of(4);
        S ch = cp(by == 0 ? 'w' : by == 1 ? 0xE9 : by == 2 ? 0x10D0 : 0x10428), w = rep(ch, l);
        check(c, {w + " " + rep(ch, l - 1) + " " + w, w});
    });
    k.add("report-words", "every two words that occur in the reports and messages themselves", report_words().size() * report_words().size(), [=](Ctx &c, uint64_t i) {
        const VS &rw = report_words();
        S w = rw[i % rw.size()], v = rw[i / rw.size()];
        check(c, {w + " " + v + "\n" + w, v + "\n"});
    });
    k.add("twins", "pairs of words of the same letters that first differ after 0..300, ... 100000 characters", n_twins * 3, [=](Ctx &c, uint64_t i) {
        auto t = twins(i % n_twins, i / n_twins);
        check(c, {t.first + " " + t.second + "\n" + t.first, t.second + " b " + t.second});
    });
    k.add("many-files", "1..40, 100, 1000 and 33000 files, empty ones among them", 44, [=](Ctx &c, uint64_t i) {
        int nf = i < 40 ? i + 1 : i == 40 ? 100 : i == 41 ? 300 : i == 42 ? 1000 : 33000;
        VS b;
        for (int j = 0; j < nf; j++) b.push_back(j % 4 == 3 ? "" : j % 3 ? fmt("w%d the", j % 50) : "the cat");
        check(c, b);
    }).limit = 120;
    k.fams.back().exec_sample = 4;
    k.add("counts", "10^k and 10^k - 1 occurrences of a word", 13, [=](Ctx &c, uint64_t i) {
        long q = ipow(10, i / 2) - i % 2;
        if (!T && q > 200000) return c.skip();
        check(c, {rep("cat ", q) + "dog", "cat"});
    }).limit = 120;
    k.add("large", "texts of up to 200000 words over up to 20000 distinct ones", 6, [=](Ctx &c, uint64_t i) {
        static const long n[] = {1000, 5000, 20000, 50000, 100000, 200000};
        if (!T && i > 3) return c.skip();
        S s;
        for (long j = 0; j < n[i]; j++) s += fmt("w%ld%c", j * j % (n[i] / 10 + 7), j % 9 ? ' ' : '\n');
        check(c, {s});
    }).limit = 200;
}
