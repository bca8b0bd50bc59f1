#include "common.h"

/* accuracy on two texts; the errors reported against the true minimum */
static long errors_of(Ctx &c, const S &rep)
{
    long ch, er;
    if (sscanf(rep.c_str(), "ocreval Accuracy Report Version 7.0\n-----------------------------------\n%ld   Characters\n%ld   Errors\n", &ch, &er) != 2) c.fail("no Errors line in %s", show(rep).c_str());
    return er;
}
static void both(Ctx &c, const S &a, const S &b, bool acc, long band = 0)
{
    Text ta = rd(a), tb = rd(b);
    long d = band ? m::edit_distance_banded(ta, tb, band) : m::edit_distance(ta, tb);
    if (d < 0) c.fail("the case does not fit its band");
    Res s = c.ok("synctext", {"c", "g"}, {{"c", a}, {"g", b}});
    long cost = 0;
    for (auto &g : m::parse_sync(s.out, {ta, tb}, {"c", "g"}, false))
        if (!g.match) cost += std::max(g.len[0], g.len[1]);
    c.eq("cost of the alignment (minimum edit distance)", d, cost);
    bool wild = a.find('~') != S::npos;
    if (acc) {
        Res r = c.ok("accuracy", {"c", "g"}, {{"c", a}, {"g", b}});
        if (!wild) c.eq("Errors reported by accuracy", d, errors_of(c, r.out));
    }
}
static const VS AB = {"a", "b"}, ABT = {"a", "b", "~"}, ABC = {"a", "b", "c"};

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto pairs = [&](const S &name, const VS &al, int la, int lb, int acc) {
        uint64_t na = nstr(al.size(), la), nb = nstr(al.size(), lb);
        k.add(name, fmt("all pairs of texts over %zu characters, correct up to %d, generated up to %d long", al.size(), la, lb), na * nb, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            S b = strs(al, x.of(nb)), a = strs(al, x.of(na));
            both(c, a, b, acc && i % acc == 0);
        });
    };
    pairs("pairs-ab-accuracy", AB, T ? 7 : 6, T ? 7 : 6, 1);
    pairs("pairs-ab~-accuracy", ABT, T ? 5 : 4, T ? 5 : 4, 1);
    pairs("pairs-abc", ABC, T ? 6 : 5, T ? 6 : 5, 0);
    pairs("pairs-spacing", {"a", "b", " ", "\n"}, 4, 4, T ? 1 : 7);
    pairs("pairs-suspect", {"a", "b", "^", "~"}, 4, 4, T ? 1 : 7);
    /* values equal in their low 8 or 16 bits, and of every UTF-8 length */
    pairs("pairs-values", {"A", cp(0x141), cp(0x241), cp(0x10041), cp(0x10141), cp(0x100041), cp(0xFF21)}, 3, 3, T ? 1 : 11);
    pairs("pairs-ab", AB, T ? 10 : 7, T ? 10 : 7, 0);

    /* longer texts: every one or two edits, at every position */
    std::vector<std::pair<S, VS>> bases;
    auto base = [&](const S &name, const S &s) {
        VS v;
        for (char ch : s) v.push_back(S(1, ch));
        bases.push_back({name, v});
    };
    int L = T ? 40 : 28;
    base("same", rep("a", L));
    base("alternating", rep("ab", L / 2));
    base("period3", rep("aab", L / 3));
    base("scattered", scatter(AB, L, 1));
    base("blocks", rep("a", L / 2) + rep("b", L / 2));
    base("distinct", S("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ").substr(0, L));
    for (auto &b : bases) {
        VS v = b.second, al = {"a", "c"};
        uint64_t n1 = nedits(v.size(), 2), n2 = nedits(v.size() + 1, 2);
        k.add("edits-" + b.first, fmt("a text of %zu characters against it with every two edits, either way round", v.size()), n1 * n2 * 2, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            bool swap = x.of(2);
            VS w = edit(v, al, x.of(n1));
            uint64_t e = x.of(n2);
            if (e >= nedits(w.size(), 2)) return c.skip();
            w = edit(w, al, e);
            S p = join(v, ""), q = join(w, "");
            both(c, swap ? q : p, swap ? p : q, e % 16 == 0);
        });
    }
    /* texts with nothing in common, and block insertions and deletions, of every length */
    int D = T ? 120 : 60;
    k.add("unequal", fmt("a^i X a^j against a^k b^l, i, j, k, l up to %d in steps", D), 12 * 12 * 12 * 12 * 3, [=](Ctx &c, uint64_t i) {
        static const int len[] = {0, 1, 2, 3, 5, 8, 13, 21, 31, 32, 33, 60};
        Mix x(i);
        int p = len[x.of(12)], q = len[x.of(12)], r = len[x.of(12)], s = len[x.of(12)];
        S mid = VS{"", "b", "ccc"}[x.of(3)];
        both(c, rep("a", p) + mid + rep("a", q), rep("a", r) + rep("b", s), false);
    });
    /* sizes: every power of two up to 2^17, one either side, with a difference at the ends or in the middle */
    std::vector<long> sizes;
    for (int e = 5; e <= 17; e++)
        for (int d = -1; d <= 1; d++) sizes.push_back((1l << e) + d);
    sizes.push_back(100000);
    if (T) sizes.push_back(300000), sizes.push_back(1000000);
    uint64_t ns = sizes.size();
    k.add("sizes", "texts of 2^k-1, 2^k and 2^k+1 characters, k up to 17, with an insertion, deletion, substitution, block of 300, or two distant edits", ns * 9 * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long n = sizes[x.of(ns)];
        int kind = x.of(9), al = x.of(3);
        S a = al == 0 ? rep("a", n) : scatter({"a", "b", "c", "d", "e", "f"}, n, n), b = a;
        if (al == 2) a += "\n" + a.substr(0, n / 2), b = a;
        long N = a.size();
        switch (kind) {
        case 0: b = "x" + b; break;
        case 1: b += "x"; break;
        case 2: b.erase(N / 2, 1); break;
        case 3: b[N - 1] = 'x'; break;
        case 4: b[0] = 'x'; break;
        case 5: b.insert(N / 2, rep("x", 300)); break;
        case 6: b.erase(N / 3, std::min(300l, N / 3)); break;
        case 7: b[N / 4] = 'x', b.erase(N - 2, 1); break;
        case 8: b.erase(0, 1), b += "xy"; break;
        }
        both(c, a, b, true, N < 600 ? 0 : 400);
        both(c, b, a, false, N < 600 ? 0 : 400);
    }).limit = 60;
    /* many errors: costs around every power of two up to 2^11 */
    k.add("costs", "texts of up to 2049 characters that have no character, or only some, in common", 3 * 3 * 24, [=](Ctx &c, uint64_t i) {
        static const long len[] = {0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049};
        Mix x(i);
        long n = len[x.of(24)];
        S a = VS{rep("a", n), scatter({"a", "b"}, n, 3), scatter({"a", "b", "c", "d"}, n, 4)}[x.of(3)];
        S b = VS{rep("b", n), scatter({"b", "a", "c"}, std::max(0l, n - 3), 5), scatter({"d", "e"}, n / 2, 6)}[x.of(3)];
        both(c, a, b, true);
    }).limit = 60;
}
