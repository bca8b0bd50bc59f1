#include "common.h"

/* the report of accuracy is the one that follows from the alignment synctext shows */
static void check(Ctx &c, const S &a, const S &b)
{
    Text ta = rd(a), tb = rd(b);
    Res s = c.ok("synctext", {"c", "g"}, {{"c", a}, {"g", b}});
    m::Align al = m::parse_sync(s.out, {ta, tb}, {"c", "g"}, false);
    Res r = c.ok("accuracy", {"c", "g"}, {{"c", a}, {"g", b}});
    c.eq("accuracy report", m::render(m::account(al, ta, tb)), r.out);
}
static const char *const SEPS = "QRSTUVWX";

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto pairs = [&](const S &name, const VS &al, int la, int lb) {
        uint64_t na = nstr(al.size(), la), nb = nstr(al.size(), lb);
        k.add(name, fmt("all pairs of texts over %zu kinds of characters, correct up to %d, generated up to %d long", al.size(), la, lb), na * nb, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            S b = strs(al, x.of(nb)), a = strs(al, x.of(na));
            check(c, a, b);
        });
    };
    pairs("marks", {"a", "b", "~", "^a", "^b"}, T ? 4 : 3, T ? 4 : 3);
    pairs("kinds", {"a", "~", "^\n", "^ ", "\n", " ", "\xC3\xA9", "\x01", cp(0x301), "^^x", cp(0x10FFFF)}, 2, T ? 3 : 2);
    pairs("wildcards", {"~", "b"}, 4, T ? 6 : 5);
    /* one difference: correct side w wildcards and n characters, generated side g characters, r rejects, s suspects, in a context */
    k.add("difference", "one difference between equal contexts: 0-3 wildcards, 0-3 characters, 0-4 generated characters, 0-2 rejects, 0-2 suspects, before/between/after each other", 4 * 4 * 5 * 3 * 3 * 6, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int w = x.of(4), n = x.of(4), g = x.of(5), r = x.of(3), s = x.of(3), o = x.of(6);
        S A = rep("x", n), W = rep("~", w), G = rep("y", g), R = rep("~", r), U = rep("^z", s);
        S l = o & 1 ? W + A : A + W;
        S rr = o / 2 == 0 ? G + R + U : o / 2 == 1 ? R + U + G : U + G + R;
        check(c, "start" + l + "end\n", "start" + rr + "end\n");
        check(c, l, rr);
    });
    k.add("ends", "every pair of ASCII characters as first and last of the correct and the generated text", 127 * 127 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S a(1, char(x.of(127) + 1)), b(1, char(x.of(127) + 1));
        if (x.of(2)) check(c, "ab" + a, b + "ab");
        else check(c, b + "ab" + a, a + "ba" + b);
    });
    /* the display of long differences: every length and every width of character, both sides */
    VS disp = {"b", "\xC3\xA9", cp(0x2207), cp(0x1D400), "\x01", cp(0x80), cp(0x301), cp(0xE01EF), cp(0xFFFF), cp(0x10FFFF), "\nb"};
    uint64_t nd = disp.size();
    int ML = 30;
    k.add("display", "a difference of 0..30 characters of every displayed width on either side, a second kind of character at the end", nd * nd * (ML + 1) * 3 * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S d1 = disp[x.of(nd)], d2 = disp[x.of(nd)];
        int n = x.of(ML + 1), other = x.of(3), side = x.of(3);
        S l = rep(d1, n) + rep(d2, n ? 2 : 0), r = other == 0 ? S() : other == 1 ? S("y") : rep("y", 40);
        if (side == 1) l.swap(r);
        if (side == 2) r = "z" + rep(d2, n);
        check(c, "AB" + l + "CD", "AB" + r + "CD");
    });
    /* confusions in order: up to four of a pool, each 1..3 times, marked or not */
    struct Conf {
        S a, b;
    };
    std::vector<Conf> pool = {{"a", "b"}, {"a", "bc"}, {"ab", "c"}, {"", "b"}, {"a", ""}, {"\xC3\xA9", "b"}, {"a", "\xC3\xA9"}, {cp(0x1D400), "b"}, {"A", "b"}, {"aa", "b"}, {"<", "b"}, {"}", "{"}, {"a", "^b"}, {"a", "b^~"}, {"\n", "b"}, {"ba", "dd"}, {"b", "a"}};
    uint64_t np = pool.size();
    k.add("confusions", "every three confusions of a pool of 17 with 1-3 occurrences each", np * np * np * 27, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int p[3] = {(int) x.of(np), (int) x.of(np), (int) x.of(np)}, n[3] = {(int) x.of(3) + 1, (int) x.of(3) + 1, (int) x.of(3) + 1};
        S a = "@", b = "@";
        for (int round = 0; round < 3; round++)
            for (int j = 0; j < 3; j++)
                if (round < n[j]) {
                    S sep = S("+=") + SEPS[j] + SEPS[round + 3] + "#";
                    a += pool[p[j]].a + sep;
                    b += pool[p[j]].b + sep;
                }
        check(c, a, b);
    });
    k.add("many-confusions", "n distinct confusions, n up to 1200 (beyond the hash table's 503 buckets), one to three times each", T ? 60 : 24, [=](Ctx &c, uint64_t i) {
        static const int counts[] = {1, 2, 3, 9, 10, 11, 50, 100, 255, 256, 257, 502, 503, 504, 505, 600, 700, 800, 900, 1000, 1006, 1007, 1100, 1200};
        int n = counts[i % 24];
        S a, b;
        for (int j = 0; j < n; j++) {
            int times = (j * 7 + i / 24) % 3 + 1;
            for (int t = 0; t < times; t++) {
                S sep = fmt("@%d:%d@", j, t);
                a += "x" + sep, b += cp(0x4E00 + (j * 37) % n) + (j % 2 ? "^y" : "") + sep;
            }
        }
        check(c, a, b);
    }).limit = 60;
    /* confusions that begin alike, on either side, told apart by order of their late characters only */
    static const char *const forms[] = {"k", "\xC3\xA9", "\xE4\xB8\x80", "\xF0\x9D\x90\x80", "\x01", "\n"};
    k.add("alike", "3 or 10 confusions of equal counts that agree in their first 0..20 characters (of six displayed widths), in four orders, alike on the correct, the generated, or both sides", 21 * 6 * 3 * 4 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int n = x.of(2) ? 10 : 3, order = x.of(4), side = x.of(3), form = x.of(6), len = x.of(21);
        S pre = rep(forms[form], len), a, b;
        for (int j = 0; j < n; j++) {
            int t = order == 0 ? j : order == 1 ? n - 1 - j : order == 2 ? j * 7 % n : (j + n / 2) % n;
            S sep = rep(S(1, "ABCDEFGHIJ"[j]), 25), tail(1, "0123456789"[t]);
            a += (side == 0 ? pre + tail : side == 1 ? S("x") : pre + "x") + sep;
            b += (side == 0 ? S("y") : side == 1 ? rep("z", len ? 1 : 0) + pre + tail : S("y") + tail) + sep;
        }
        check(c, a, b);
    });
    /* every character class, matched and missed */
    auto names = m::class_names();
    k.add("classes", "texts with one character of every class, each character missed or not, counts 1..4", 64, [=](Ctx &c, uint64_t i) {
        S a, b;
        std::map<int, int> seen;
        for (m::U u = 33; u < 0x30000; u++) {
            int cl = m::char_class(u);
            if (u >= 0xD800 && u < 0xE000) continue;
            if (m::is_blank(u) || u == '~' || u == '^' || seen[cl] > 3) continue;
            seen[cl]++;
            S ch = cp(u);
            for (uint64_t t = 0; t <= (u + i) % 3; t++) {
                a += ch + "@";
                b += ((u >> (i % 5)) + t + i / 8) % 3 == 0 ? "@" : ch + "@";
            }
        }
        check(c, a, b);
    });
    /* counts of every width */
    k.add("widths", "texts of 9, 10, 99, 100, ... 10^6 characters with some or all wrong", 3 * 12, [=](Ctx &c, uint64_t i) {
        static const long ns[] = {9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000};
        Mix x(i);
        int how = x.of(3);
        long n = ns[x.of(12)];
        if (how == 1 && n > 2000) n = 2000 + n % 7;
        S a = rep("a", n), b = a;
        if (how == 1) b = rep("b", n);
        if (how == 2) b[n / 2] = 'b', b += "^x~";
        check(c, a, b);
    }).limit = 120;
}
