#include "common.h"

/* the file is accepted, and seen as what it encodes, exactly when it is well-formed */
static void judge(Ctx &c, const S &f)
{
    m::Read t = m::read_text(f, m::T_NORMAL);
    Inv v("ngram", {"f"}, {{"f", f}});
    Res r = c.run(v);
    if (!t.ok) {
        if (r.status == 0) c.fail("accepted ill-formed input %s as %s", show(f).c_str(), show(r.out).c_str());
        refused(c, v, r);
    } else {
        if (r.status != 0) c.fail("refused well-formed input %s: %s", show(f).c_str(), show(r.err).c_str());
        c.eq("characters", m::ngram({t.t}, 1), r.out);
    }
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    k.add("bytes-1-2", "every sequence of one and two bytes", 256 + 65536, [](Ctx &c, uint64_t i) {
        S f;
        if (i < 256) f += (char) i;
        else f += (char) ((i - 256) >> 8), f += (char) (i & 255);
        judge(c, f);
    });
    k.add("bytes-3", "every sequence of three bytes that starts with a byte above 7F", 128 * 65536, [](Ctx &c, uint64_t i) {
        S f;
        f += (char) (0x80 | i >> 16), f += (char) (i >> 8), f += (char) i;
        judge(c, f);
    });
    if (T)
        k.add("bytes-4", "every sequence of four bytes that starts with F0 to F4 or F8", 6ull << 24, [](Ctx &c, uint64_t i) {
            S f;
            f += "\xF0\xF1\xF2\xF3\xF4\xF8"[i >> 24], f += (char) (i >> 16), f += (char) (i >> 8), f += (char) i;
            judge(c, f);
        });
    static const unsigned char ed[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xFF};
    k.add("bytes-3-edges", "every first and second byte from C0 up, third bytes at every boundary", 64 * 256 * 13, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S f;
        f += (char) (0xC0 | x.of(64)), f += (char) x.of(256), f += (char) ed[x.of(13)];
        judge(c, f);
    });
    k.add("bytes-4-edges", "first bytes E0..FF, every second byte, third and fourth bytes at every boundary", 32 * 256 * 13 * 5, [=](Ctx &c, uint64_t i) {
        static const unsigned char e4[] = {0x41, 0x7F, 0x80, 0xBF, 0xC0};
        Mix x(i);
        S f;
        f += (char) (0xE0 | x.of(32)), f += (char) x.of(256), f += (char) ed[x.of(13)], f += (char) e4[x.of(5)];
        judge(c, f);
    });
    k.add("long-forms", "five- and six-byte forms, overlong forms of every length of every seventh value", 64 * 64, [](Ctx &c, uint64_t i) {
        Mix x(i);
        m::U v = x.of(64) * 7 + 0x20;
        int n = 2 + x.of(5), last = 0x80 | (v & 63);
        S f;
        f += (char) (n == 2 ? 0xC0 | v >> 6 : n == 3 ? 0xE0 : n == 4 ? 0xF0 : n == 5 ? 0xF8 : 0xFC);
        for (int j = 2; j < n; j++) f += (char) (0x80 | (j == n - 1 ? v >> 6 & 63 : 0));
        f += (char) last;
        f += x.of(12) ? "" : "z";
        judge(c, f);
    });
    /* every valid sequence, with what precedes it: the decoding of one must not depend on the last */
    VS good = {"a", cp(0x7F), cp(0x80), cp(0x7FF), cp(0x800), cp(0xFFFF), cp(0x10000), cp(0x10FFFF), cp(0xD7FF), cp(0xE000)};
    VS bad = {"\x80", "\xBF", "\xC0\x80", "\xC1\xBF", "\xC2", "\xC2" "A", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xE0\xA0", "\xE1\x80", "\xED\xA0\x80", "\xED\xBF\xBF", "\xEF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF0\x90\x80", "\xF1\x80", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF7\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF", "\xE2\x82" "A", "\xF0\x9F\x98" "A", "\xC3\xA9\x80"};
    VS all = good;
    all.insert(all.end(), bad.begin(), bad.end());
    uint64_t na = all.size();
    k.add("sequences", "every three of 37 well- and ill-formed sequences", na * na * na, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S f = all[x.of(na)];
        f += all[x.of(na)];
        judge(c, f + all[x.of(na)]);
    });
    /* every place of a file, every tool that reads texts */
    uint64_t nb = bad.size();
    struct Use {
        const char *tool;
        VS args;
        int which; /* which of the files a, b, s is bad */
    };
    static const std::vector<Use> uses = {{"accuracy", {"a", "b"}, 0}, {"accuracy", {"a", "b"}, 1}, {"wordacc", {"a", "b"}, 0}, {"wordacc", {"a", "b"}, 1}, {"wordacc", {"-S", "s", "a", "b"}, 2}, {"synctext", {"a", "b"}, 0}, {"synctext", {"-H", "a", "s", "b"}, 1}, {"synctext", {"-T", "a", "b"}, 1}, {"vote", {"a", "b"}, 0}, {"vote", {"s", "a", "b"}, 1}, {"editop", {"a", "b"}, 0}, {"editop", {"a", "b"}, 1}, {"ngram", {"-n3", "a", "b"}, 1}, {"wordfreq", {"a", "b"}, 1}, {"groupacc", {"a", "r"}, 0}, {"nonstopacc", {"s", "w"}, 2}};
    static const S header = "ocreval Vendor-Independent Interface Version 7.0\n" + rep("-", 48) + "\n" + rep("-", 48) + "\n";
    k.add("places", "27 ill-formed sequences at the start, inside, at the end, after a header, around offset 4096 and after 65536 characters, in every text input of every tool", nb * uses.size() * 12, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        const Use &u = uses[x.of(uses.size())];
        S b = bad[x.of(nb)], f;
        int place = x.of(12);
        switch (place) {
        case 0: f = b; break;
        case 1: f = "some " + b + " words\n"; break;
        case 2: f = "some words" + b; break;
        case 3: f = "some words\n" + b + "\n"; break;
        case 4: f = (u.which == 0 && (S(u.tool) == "accuracy" || S(u.tool) == "editop" || S(u.tool) == "wordacc") ? S() : header) + "x" + b; break;
        case 5: f = cp(0x4E00) + b; break;
        case 6: f = "^" + b; break;
        case 7: case 8: case 9: f = rep("a", 4092 + place) + b + "b"; break;
        case 10: f = rep("ab ", 22000) + b; break;
        case 11: f = "ocreval Vendor-Independent " + b; break;
        }
        Inv v(u.tool, u.args, {{"a", "some words\n"}, {"b", "some words\n"}, {"s", "the\n"}, {"r", m::render(m::Acc())}, {"w", m::render(m::Wac())}});
        S n = u.which == 0 ? "a" : u.which == 1 ? "b" : "s";
        /* which file plays the role */
        for (auto &file : v.files)
            if (file.name == n) file.data = f;
        Res r = c.run(v);
        if (r.status == 0) c.fail("accepted ill-formed input %s", show(f).c_str());
        refused(c, v, r);
    });
}
