#include "common.h"

static void check(Ctx &c, const S &a, const S &b)
{
    m::Edo want = m::editop(rd(a), rd(b));
    c.eq("editop report", m::render(want), c.ok("editop", {"c", "g"}, {{"c", a}, {"g", b}}).out);
    if (rd(a) == rd(b) && a.find('~') == S::npos && (want.ins || want.del || want.moves)) c.fail("model: identical texts do not give zeros");
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    auto pairs = [&](S name, const VS &al, int la, int lb) {
        uint64_t na = nstr(al.size(), la), nb = nstr(al.size(), lb);
        k.add(name, fmt("all pairs of texts over %zu characters, up to %d and %d long", al.size(), la, lb), na * nb, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            S b = strs(al, x.of(nb)), a = strs(al, x.of(na));
            check(c, a, b);
        });
    };
    pairs("ab", {"a", "b"}, T ? 9 : 8, T ? 9 : 8);
    pairs("abc", {"a", "b", "c"}, T ? 7 : 6, T ? 6 : 5);
    pairs("abcd", {"a", "b", "c", "d"}, 4, T ? 5 : 4);
    pairs("ab~", {"a", "b", "~"}, T ? 6 : 5, T ? 6 : 5);
    pairs("kinds", {"a", "^a", "~", "\n", "\xC3\xA9"}, 3, T ? 4 : 3);
    pairs("spacing-case", {"a", "A", " ", "\n", "\t"}, T ? 5 : 4, 4);
    pairs("values", {"A", cp(0x141), cp(0x241), cp(0x10041), cp(0x100041)}, 3, 3);
    k.add("ends", "every pair of ASCII characters as first and last of the correct and the generated text", 127 * 127, [=](Ctx &c, uint64_t i) {
        S a(1, char(i % 127 + 1)), b(1, char(i / 127 + 1));
        check(c, "abcd" + a, b + "cdab");
        check(c, b + "abcd" + a, a + "cdab" + b);
    });
    /* blocks of distinct characters in every order */
    static const int pats[][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1}, {3, 1, 3, 1, 3, 1, 3, 1}, {2, 2, 5, 5, 2, 2, 5, 5}, {1, 9, 1, 9, 1, 9, 1, 9}};
    int K = T ? 8 : 7;
    uint64_t f = 1;
    for (int j = 2; j <= K; j++) f *= j;
    k.add("permutations", fmt("all permutations of %d blocks in six length patterns", K), f * 6, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int pat = x.of(6);
        uint64_t p = x.of(f);
        /* factoradic */
        std::vector<int> pool, perm;
        for (int j = 0; j < K; j++) pool.push_back(j);
        for (int j = K; j > 0; j--) perm.push_back(pool[p % j]), pool.erase(pool.begin() + p % j), p /= j;
        m::U base = 0x4E00;
        std::vector<S> blk;
        for (int j = 0; j < K; j++) {
            S s;
            for (int q = 0; q < pats[pat][j]; q++) s += cp(base++);
            blk.push_back(s);
        }
        S a, b;
        for (int j = 0; j < K; j++) a += blk[j], b += blk[perm[j]];
        check(c, a, b);
    });
    /* the same with insertions and deletions between the blocks, five blocks */
    k.add("gaps", "all permutations of five blocks with every subset of gaps filled with unmatched characters on either side", 120 * 32 * 32 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int ga = x.of(32), gb = x.of(32), pat = x.of(2);
        uint64_t p = x.of(120);
        std::vector<int> perm = {0, 1, 2, 3, 4};
        while (p--) std::next_permutation(perm.begin(), perm.end());
        S a, b;
        auto blk = [&](int j) { return rep(S(1, 'a' + j), pats[pat ? 3 : 0][j]); };
        for (int j = 0; j < 5; j++) {
            a += blk(j), b += blk(perm[j]);
            if (ga >> j & 1) a += j % 2 ? "~" : "XY";
            if (gb >> j & 1) b += j % 2 ? "z~" : "Z";
        }
        check(c, a, b);
    });
    /* the length of a moved block */
    k.add("lengths", "two or three blocks swapped, the moved one 1..130, 254..258, 300, 511..513 or 1000 characters long", 3 * 145, [=](Ctx &c, uint64_t i) {
        static const int more[] = {254, 255, 256, 257, 258, 299, 300, 301, 511, 512, 513, 1000, 199, 200, 201};
        int w = i / 145, l = i % 145 < 130 ? i % 145 + 1 : more[i % 145 - 130];
        auto run = [](m::U from, int n) {
            S s;
            for (int q = 0; q < n; q++) s += cp(from + q);
            return s;
        };
        S mv = run(0x4E00, l), big = run(0x6000, l + 1), third = run(0x7000, l);
        if (w == 0) check(c, mv + big, big + mv);
        else if (w == 1) check(c, big + mv, mv + big);
        else check(c, "x" + mv + big + third + "y", "x" + third + big + mv + "y");
    }).limit = 60;
    k.add("long-move", "a block of 32767, 32768, 40000, 65536 or 70000 characters moved (figures by arithmetic)", 5, [=](Ctx &c, uint64_t i) {
        static const long ls[] = {32767, 32768, 40000, 65536, 70000};
        /* the block does not repeat itself: code points in order */
        S a, b;
        for (long q = 0; q < ls[i]; q++) a += cp(0x20000 + q);
        for (long q = 0; q < ls[i] + 5; q++) b += cp(0x40000 + q);
        m::Edo e;
        e.moves = 1, e.move[100] = 1;
        c.eq("editop report", m::render(e), c.ok("editop", {"c", "g"}, {{"c", a + b}, {"g", b + a}}).out);
        c.eq("editop report of identical texts", m::render(m::Edo()), c.ok("editop", {"c", "g"}, {{"c", a + b}, {"g", a + b}}).out);
    }).limit = 300;
    k.fams.back().exec_ok = false;
    /* many moves */
    k.add("long-unmatched", "32767, 32768, 65535, 65536 or 70000 unmatched characters of the correct or the generated text, before, between or after matched ones (figures by arithmetic)", 5 * 2 * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        static const long ns[] = {32767, 32768, 65535, 65536, 70000};
        long n = ns[x.of(5)];
        bool ins = x.of(2); /* missing from the generated text */
        int where = x.of(3);
        bool rej = x.of(2); /* reject characters are not inserted, but deleted */
        S un = rep(rej ? "~" : "z", n), t = where == 0 ? un + "ab" : where == 1 ? "a" + un + "b" : "ab" + un;
        m::Edo want;
        if (ins) want.ins = rej ? 0 : n;
        else want.del = n;
        c.eq("editop report", m::render(want), c.ok("editop", {"c", "g"}, {{"c", ins ? t : "ab"}, {"g", ins ? "ab" : t}}).out);
    });
    k.add("many", "n blocks reversed or rotated, n up to 150", 40 * 3, [=](Ctx &c, uint64_t i) {
        int n = i % 40 < 30 ? i % 40 + 1 : (i % 40 - 29) * 15, how = i / 40;
        std::vector<S> blk;
        for (int j = 0; j < n; j++) blk.push_back(rep(cp(0x4E00 + j), j % 3 + 1));
        S a, b;
        for (int j = 0; j < n; j++) a += blk[j], b += how == 0 ? blk[n - 1 - j] : how == 1 ? blk[(j + n / 2) % n] : blk[j % 2 ? j - 1 : j + 1 < n ? j + 1 : j];
        check(c, a, b);
    }).limit = 60;
    /* identical texts */
    VS kinds = {"a", "b", "\n", " ", "\xC3\xA9", "^a", "\x01"};
    k.add("identical", "all texts up to 5 long over 7 kinds of characters against themselves: all zeros", nstr(kinds.size(), 5), [=](Ctx &c, uint64_t i) {
        S a = strs(kinds, i);
        c.eq("editop report of identical texts", m::render(m::Edo()), c.ok("editop", {"c", "g"}, {{"c", a}, {"g", a}}).out);
    });
    /* edit operations summed by page */
    VS al = {"a", "x", "~"};
    k.add("edits", "a text of 24 characters with repeats: all single and double edits", nedits(24, 3) * nedits(23, 3), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        VS v;
        for (char ch : scatter({"a", "b", "c"}, 24, 3)) v.push_back(S(1, ch));
        VS w = edit(v, al, x.of(nedits(24, 3)));
        w = edit(w, al, x.of(nedits(23, 3)));
        check(c, join(v, ""), join(w, ""));
    });
}
