#include "common.h"

static void check(Ctx &c, const VS &b, int n, int style = 0)
{
    std::vector<Text> t;
    std::vector<File> f;
    VS names, args;
    for (size_t i = 0; i < b.size(); i++) {
        names.push_back(fmt("f%zu", i));
        f.push_back({names[i], b[i]});
        t.push_back(rd(b[i]));
    }
    if (style == 0) args = {fmt("-n%d", n)};
    if (style == 1) args = {"-n", fmt("%d", n)};
    args.insert(args.end(), names.begin(), names.end());
    if (style == 2) args.push_back(fmt("-n%d", n));
    if (style == 3 && n != 1) args.push_back("-n"), args.push_back(fmt("%d", n)); /* without the option: single characters */
    c.eq(fmt("ngram, n=%d", n), m::ngram(t, n), c.ok("ngram", args, f).out);
}
static bool scalar(m::U u) { return u < 0xD800 || u >= 0xE000; }

void vx::define(Check &k)
{
    bool T = k.thorough;
    VS al = {"a", "b", "^a", "^b", "~", "\n"};
    auto one = [&](S name, VS al, int l) {
        uint64_t n = nstr(al.size(), l);
        k.add(name, fmt("one file: all texts up to %d long over %zu kinds of characters, n = 1, 2, 3", l, al.size()), n * 3, [=](Ctx &c, uint64_t i) { check(c, {strs(al, i / 3)}, i % 3 + 1, i / 3 % 4); });
    };
    one("one", al, T ? 7 : 6);
    one("one-ab", {"a", "^a"}, T ? 16 : 14);
    one("one-kinds", {"a", "<", ">", "{", "}", "0", "1", "\x01", cp(0x301), "\xC3\xA9", cp(0x10FFFF), " ", "^<"}, T ? 4 : 3);
    one("one-values", {"A", cp(0x141), cp(0x241), cp(0x10041), cp(0x100041), "B", "^A"}, T ? 5 : 4);
    auto files = [&](S name, VS al, int nf, int l) {
        uint64_t n = nstr(al.size(), l), tot = 3;
        for (int j = 0; j < nf; j++) tot *= n;
        k.add(name, fmt("%d files: all texts up to %d long over %zu kinds, n = 1, 2, 3", nf, l, al.size()), tot, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            int q = x.of(3) + 1;
            VS b;
            for (int j = 0; j < nf; j++) b.push_back(strs(al, x.of(n)));
            check(c, b, q, i / 3 % 4);
        });
    };
    files("two", {"a", "^a", "b"}, 2, T ? 5 : 4);
    files("three", {"a", "^b", "~"}, 3, T ? 4 : 3);
    files("four", {"a", "^a"}, 4, 3);
    k.add("boundaries", "every pair of ASCII characters, one ending a file and the other beginning the next, n = 1, 2, 3", 127 * 127 * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S a(1, char(x.of(127) + 1)), b(1, char(x.of(127) + 1));
        check(c, {"ab" + a, b + "cd" + a, "", b, a, "cd", "ab^" + a, "~cd"}, x.of(3) + 1);
    });
    k.add("many-files", "1..40, 100, 1000 and 33000 files shorter than, as long as and longer than n", 44 * 3, [=](Ctx &c, uint64_t i) {
        int nf = i / 3 < 40 ? i / 3 + 1 : i / 3 == 40 ? 100 : i / 3 == 41 ? 300 : i / 3 == 42 ? 1000 : 33000;
        VS b;
        for (int j = 0; j < nf; j++) b.push_back(S("abcab").substr(j % 3, (j * 5) % 6));
        check(c, b, i % 3 + 1);
    }).limit = 120;
    k.fams.back().exec_sample = 4;
    k.add("distinct", "d distinct characters or n-grams, d up to 5000 (beyond the table's 503 buckets), counts and suspects in every order", 14 * 3 * 8, [=](Ctx &c, uint64_t i) {
        static const int ds[] = {1, 2, 9, 10, 100, 499, 502, 503, 504, 505, 600, 1006, 2012, 5000};
        Mix x(i);
        int d = ds[x.of(14)], n = x.of(3) + 1, h = x.of(8);
        S s;
        for (int j = 0; j < d; j++) {
            S ch = cp(0x4E00 + (long) j * 4999 % d);
            for (int r = 0; r <= (j * 7 + h) % 4; r++) s += ((j + r) % (h + 2) == 0 ? "^" : "") + ch + (h % 2 ? "" : "-");
        }
        check(c, {s}, n);
    }).limit = 60;
    k.add("distinct-large", "65535, 65536, 65537 and 140000 distinct n-grams, some of them several times or suspect", 4 * 3, [=](Ctx &c, uint64_t i) {
        static const long ds[] = {65535, 65536, 65537, 140000};
        Mix x(i);
        int n = x.of(3) + 1;
        long d = ds[x.of(4)] + n - 1;
        S s;
        auto ch = [](long j) { return cp(j < 30000 ? 0x4E00 - 1000 + j : 0x20000 + j); };
        for (long j = 0; j < d; j++) s += (j % 11 == 0 ? "^" : "") + ch((j * 7919) % d);
        /* the first ones again */
        for (long j = 0; j < 1000; j++) s += ch((j * 7919) % d);
        check(c, {s}, n);
    }).limit = 120;
    k.fams.back().exec_sample = 4;
    k.add("permuted", "all n-grams over k characters (k^n keys with many in one bucket), each with its own count", 3 * 12, [=](Ctx &c, uint64_t i) {
        int n = i % 3 + 1, kk = i / 3 + 1;
        S s;
        uint64_t tot = ipow(kk, n);
        for (uint64_t q = 0; q < tot; q++)
            for (uint64_t r = 0; r <= q * 13 % 5; r++) {
                uint64_t v = q;
                for (int j = 0; j < n; j++) s += char('a' + v % kk), v /= kk;
                if (q % 3 == r) s += "^";
            }
        check(c, {s + "a"}, n);
    });
    k.add("every-character", "every code point, plain and suspect, n = 1, 2, 3", 0x110000 / 64, [=](Ctx &c, uint64_t i) {
        S s;
        for (m::U u = i * 64; u < (i + 1) * 64; u++)
            if (scalar(u)) s += cp(u) + "x" + (u % 3 ? "^" : "") + cp(u) + cp(u);
        if (s.empty()) return c.skip();
        check(c, {s}, i % 3 + 1);
    });
    k.add("counts", "10^k and 10^k - 1 occurrences, all or half of them suspect", 14 * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int p = x.of(14), n = x.of(3) + 1, h = x.of(2);
        long q = ipow(10, p / 2) - p % 2;
        if (q > 1000000 || (!T && q > 200000)) return c.skip();
        S s;
        for (long j = 0; j < q; j++) s += h && j % 2 ? "^a" : "a";
        check(c, {s, "a", "b"}, n);
    }).limit = 120;
    k.add("bad-n", "-n with every value of one or two ASCII characters other than 1, 2, 3", 128 * 128, [=](Ctx &c, uint64_t i) {
        S v;
        if (i / 128) v += char(i / 128);
        if (i % 128) v += char(i % 128);
        if (v.empty() || v == "1" || v == "2" || v == "3" || v.find('\n') != S::npos) return c.skip();
        /* a number with blanks, sign or zeros before it */
        bool num = true;
        for (char ch : v) num &= isdigit(ch) || isspace(ch) || ch == '+' || ch == '-';
        Inv inv("ngram", {"-n", v, "f"}, {{"f", "abc"}});
        Res r = c.run(inv);
        if (num && r.status == 0) return;
        refused(c, inv, r, "invalid value");
    });
}
