#include "common.h"

static const VS AB = {"a", "b"}, ABT = {"a", "b", "~"}, ABC = {"a", "b", "c"}, MIX = {"a", "b", "~", "^a", "\n"};

struct In {
    VS names;
    std::vector<Text> t;
    std::vector<File> f;
};
static In in(const VS &bytes, bool lower = false, const VS &names = {})
{
    In r;
    m::TextOpt o = m::T_NORMAL;
    o.lower = lower;
    for (size_t i = 0; i < bytes.size(); i++) {
        r.names.push_back(names.size() ? names[i] : S(1, 'p' + i % 10) + (i >= 10 ? "x" : ""));
        r.t.push_back(m::read_text(bytes[i], o).t);
        r.f.push_back({r.names[i], bytes[i]});
    }
    return r;
}
static VS with(const VS &opt, const VS &names)
{
    VS a = opt;
    a.insert(a.end(), names.begin(), names.end());
    return a;
}
/* two texts: whatever alignment it shows reproduces the texts and costs the minimum */
static void plain2(Ctx &c, const In &x, const VS &opt, bool sus)
{
    m::Align al = m::parse_sync(c.ok("synctext", with(opt, x.names), x.f).out, x.t, x.names, sus);
    long cost = 0;
    for (auto &g : al)
        if (!g.match) cost += std::max(g.len[0], g.len[1]);
    c.eq("cost of the alignment", m::edit_distance(x.t[0], x.t[1]), cost);
    /* what is shown is exactly this alignment, no more and no less */
    c.eq("synctext", m::render_sync(al, x.t, x.names, sus), c.ok("synctext", with(opt, x.names), x.f).out);
}
static void many(Ctx &c, const In &x, const VS &opt, bool sus)
{
    c.eq("synctext", m::render_sync(m::synchronize(x.t), x.t, x.names, sus), c.ok("synctext", with(opt, x.names), x.f).out);
}
static void trans(Ctx &c, const In &x, const VS &opt, bool sus)
{
    m::TAlign a, b;
    m::transpose(x.t[0], x.t[1], a, b);
    c.eq("synctext -T", m::render_transposed(a, x.t[0], b, x.t[1], sus), c.ok("synctext", with(opt, x.names), x.f).out);
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto pairs = [&](S name, S what, const VS &al, int l, std::function<void(Ctx &, const In &, uint64_t)> f) {
        uint64_t n = nstr(al.size(), l);
        k.add(name, fmt("%s: all pairs of texts over %zu characters up to %d long", what.c_str(), al.size(), l), n * n, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            S b = strs(al, x.of(n)), a = strs(al, x.of(n));
            f(c, in({a, b}), i);
        });
    };
    auto p2 = [](Ctx &c, const In &x, uint64_t) { plain2(c, x, {}, false); };
    auto p2s = [](Ctx &c, const In &x, uint64_t) { plain2(c, x, {"-s"}, true); };
    auto h2 = [](Ctx &c, const In &x, uint64_t) { many(c, x, {"-H"}, false); };
    auto h2s = [](Ctx &c, const In &x, uint64_t) { many(c, x, {"-s", "-H"}, true); };
    auto t2 = [](Ctx &c, const In &x, uint64_t) { trans(c, x, {"-T"}, false); };
    auto t2s = [](Ctx &c, const In &x, uint64_t) { trans(c, x, {"-T", "-s"}, true); };
    pairs("two-ab", "default", AB, T ? 8 : 7, p2);
    pairs("two-kinds", "default with -s", MIX, T ? 4 : 3, p2s);
    pairs("H-ab", "-H", AB, T ? 9 : 8, h2);
    pairs("H-abc", "-H", ABC, T ? 6 : 5, h2);
    pairs("H-kinds", "-H with -s", MIX, T ? 4 : 3, h2s);
    pairs("T-ab", "-T", AB, T ? 9 : 8, t2);
    pairs("T-abc", "-T", ABC, T ? 6 : 5, t2);
    pairs("T-kinds", "-T with -s", MIX, T ? 4 : 3, t2s);

    auto multi = [&](S name, const VS &al, int n, int l) {
        uint64_t ns = nstr(al.size(), l), tot = 1;
        for (int j = 0; j < n; j++) tot *= ns;
        k.add(name, fmt("all combinations of %d texts over %zu characters up to %d long", n, al.size(), l), tot, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            VS b;
            for (int j = 0; j < n; j++) b.push_back(strs(al, x.of(ns)));
            many(c, in(b), i % 2 ? VS{"-s"} : VS{}, i % 2);
        });
    };
    multi("three-ab", AB, 3, T ? 6 : 5);
    multi("three-abc", ABC, 3, T ? 4 : 3);
    multi("three-ab~", ABT, 3, T ? 4 : 3);
    multi("three-kinds", MIX, 3, 2);
    multi("four-ab", AB, 4, T ? 4 : 3);
    multi("five-ab", AB, 5, 2);
    /* 5..16 texts: a base text, each text with its own small edit */
    VS bases = {"abcabdacb", "aaaaaaa", "a~b\nc^d~e", "abababab"};
    k.add("up-to-16", "3..16 texts, each the base text with one edit of its own (all first edits, the others stepped)", 14 * 4 * 60 * 6, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int n = x.of(14) + 3;
        S base = bases[x.of(4)];
        int e = x.of(60), step = x.of(6);
        VS b, v;
        for (char ch : base) v.push_back(S(1, ch));
        VS al = {"a", "x", "~"};
        for (int j = 0; j < n; j++) b.push_back(j % 3 == 2 ? base : join(edit(v, al, (e + j * (step * 7)) % nedits(v.size(), 3)), ""));
        many(c, in(b), i % 2 ? VS{"-s"} : VS{"-H"}, i % 2);
    });
    /* where the best match lies: a common block of length l at each place of three texts with other, equal or longer, candidates */
    k.add("best-match", "two common blocks of lengths 1..5 in every order in each of three texts, with fillers of 0..2", 25 * 8 * 27 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int l1 = x.of(5) + 1, l2 = x.of(5) + 1, ord = x.of(8);
        S b1 = rep("p", l1 - 1) + "P", b2 = rep("q", l2 - 1) + "Q";
        int fl[3];
        for (int &f : fl) f = x.of(3);
        VS b;
        for (int j = 0; j < 3; j++) {
            S fill = rep(S(1, '1' + j), fl[j]);
            b.push_back(ord >> j & 1 ? fill + b1 + fill + b2 : b2 + fill + b1 + fill);
        }
        if (x.of(2)) b.pop_back(), many(c, in(b), {"-H"}, false), trans(c, in(b), {"-T"}, false);
        else many(c, in(b), {}, false);
    });
    /* blocks moved: -T and -H on every permutation of blocks of several length patterns */
    static const int pats[][6] = {{1, 1, 1, 1, 1, 1}, {1, 2, 3, 4, 5, 6}, {3, 3, 1, 1, 2, 2}, {7, 1, 7, 1, 7, 1}, {10, 9, 8, 3, 2, 1}, {2, 4, 2, 4, 2, 4}};
    k.add("blocks", "all permutations of six blocks of six length patterns, -T, -H and default", 720 * 6 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int pat = x.of(6), same = x.of(2);
        uint64_t p = x.of(720);
        std::vector<int> perm = {0, 1, 2, 3, 4, 5};
        while (p--) std::next_permutation(perm.begin(), perm.end());
        auto blk = [&](int j) {
            S s;
            for (int q = 0; q < pats[pat][j]; q++) s += same ? char('a' + j) : char('a' + (j * 7 + q * 5) % 26);
            return s;
        };
        S a, b;
        for (int j = 0; j < 6; j++) a += blk(j), b += blk(perm[j]);
        In z = in({a, b});
        trans(c, z, {"-T"}, false);
        many(c, z, {"-H"}, false);
        plain2(c, z, {}, false);
    });
    /* options */
    VS ci = {"a", "A", "b", "\xC3\x89", "\xC3\xA9", "^B", "~"};
    uint64_t nci = nstr(ci.size(), 2);
    k.add("options", "all combinations and placements of -H -i -s -T, all pairs of texts up to 2 long over 7 characters of both cases", nci * nci * 24, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int set = x.of(8), place = x.of(3);
        S b = strs(ci, x.of(nci)), a = strs(ci, x.of(nci));
        In z = in({a, b}, set & 1);
        VS opt, args = z.names;
        if (set & 1) opt.push_back("-i");
        if (set & 2) opt.push_back("-s");
        opt.push_back(set & 4 ? "-T" : "-H");
        for (size_t j = 0; j < opt.size(); j++) args.insert(place == 0 ? args.begin() : place == 1 ? args.end() : args.begin() + 1, opt[j]);
        S out = c.ok("synctext", args, z.f).out;
        if (set & 4) {
            m::TAlign p, q;
            m::transpose(z.t[0], z.t[1], p, q);
            c.eq("synctext -T", m::render_transposed(p, z.t[0], q, z.t[1], set & 2), out);
        } else c.eq("synctext -H", m::render_sync(m::synchronize(z.t), z.t, z.names, set & 2), out);
    });
    /* file names and footnote numbers */
    k.add("layout", "file names of every length 1..40 on either side; 0..130 differences, with line breaks inside", 40 * 3 + 131 * 3, [=](Ctx &c, uint64_t i) {
        if (i < 120) {
            int l = i % 40 + 1, w = i / 40;
            S nm = rep("n", l);
            VS names = w == 0 ? VS{nm, "x"} : w == 1 ? VS{"x", nm} : VS{"m", nm, "%s%n"};
            VS b = {"ab\n\ncd", "a\nxcd", "ab\n\ncd~"};
            b.resize(names.size());
            In z = in(b, false, names);
            w == 2 ? many(c, z, {}, false) : plain2(c, z, {}, false);
            return;
        }
        i -= 120;
        int n = i % 131, w = i / 131;
        S a = "@", b = "@", d = "@";
        for (int j = 0; j < n; j++) {
            S sep = fmt("=%d=", j);
            a += (j % 3 ? "x" : "p\nq") + sep;
            b += (j % 4 ? "y\n" : "") + sep;
            d += (j % 5 ? "" : "z") + sep;
        }
        if (w == 2) n < 40 ? many(c, in({a, b, d}), {}, false) : (void) 0;
        else if (w == 1) n < 40 ? many(c, in({a, b}), {"-H"}, false) : (void) 0;
        else plain2(c, in({a, b}), {}, false);
    });
    /* numbers of four and five figures: texts of different characters with something else between them */
    static const long nd[] = {98, 99, 100, 101, 998, 999, 1000, 1001, 1500, 3000, 9999, 10000, 10001};
    k.add("many-differences", "98 to 1500 (10001) differences, by default, with -H, -T (up to 1001) and of three texts (figures by arithmetic)", 13 * 4 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int w = x.of(4);
        bool drop = x.of(2);
        long n = nd[x.of(13)];
        if (n > (T ? w == 0 ? 3000 : w == 2 ? 1001 : 10001 : w == 2 ? 1001 : 1500)) return c.skip();
        S t, u, sep = rep("=", 79) + "\n", shown, notes, t1, t2;
        for (long j = 0; j < n; j++) {
            S a = cp(0x4E00 + j);
            t += a + "p", u += a + (drop ? "" : "q"), shown += a + fmt("{%ld}", j + 1);
            t1 += fmt("{%ld:", j + 1) + a + "}p", t2 += fmt("{%ld:", j + 1) + a + "}" + (drop ? "" : "q");
            notes += sep + fmt("{%ld}\nt  {p}\nuu {%s}\n", j + 1, drop ? "" : "q") + (w == 3 ? S("v  {p}\n") : S());
        }
        std::vector<File> f = {{"t", t}, {"uu", u}};
        VS a = {"t", "uu"};
        if (w == 3) f.push_back({"v", t}), a.push_back("v");
        if (w == 1) a.insert(a.begin(), "-H");
        if (w == 2) a.push_back("-T");
        c.eq("output", w == 2 ? sep + "\n" + t1 + "\n" + sep + "\n" + t2 + "\n" + sep : sep + "\n" + shown + "\n" + notes + sep, c.ok("synctext", a, f).out);
    }).limit = 120;
    /* longer texts with few differences, default alignment (parsed back, minimum cost) */
    k.add("longer", "a text of 30 characters and all its single and double edits, -H and -T", nedits(30, 2) * (T ? 250 : 60), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        VS v, al = {"a", "~"};
        for (char ch : scatter({"a", "b", "c"}, 30, 3)) v.push_back(S(1, ch));
        VS w = edit(v, al, x.of(nedits(30, 2)));
        int st = x.of(T ? 250 : 60);
        if (st) w = edit(w, al, (st * 37 + i) % nedits(w.size(), 2));
        In z = in({join(v, ""), join(w, "")});
        if (i % 3 == 0) many(c, z, {"-H"}, false);
        else if (i % 3 == 1) trans(c, z, {"-T"}, false);
        else plain2(c, z, {}, false);
    });
    /* same values in low bytes, every width: comparison is by the whole character */
    pairs("values", "-H, -T and default", {"A", cp(0x141), cp(0x241), cp(0x10041), cp(0x100041)}, 3, [](Ctx &c, const In &x, uint64_t i) {
        if (i % 3 == 0) many(c, x, {"-H"}, false);
        else if (i % 3 == 1) trans(c, x, {"-T"}, false);
        else plain2(c, x, {}, false);
    });
    k.add("counts", "wrong numbers of texts: fewer than 2, more than 16, other than 2 with -T", 40, [=](Ctx &c, uint64_t i) {
        int n = i % 20;
        bool tr = i >= 20;
        VS b(n, "ab");
        In z = in(b);
        VS args = with(tr ? VS{"-T"} : VS{"-s"}, z.names);
        Inv v("synctext", args, z.f);
        Res r = c.run(v);
        bool good = tr ? n == 2 : n >= 2 && n <= 16;
        if (good) c.eq("status", 0, r.status);
        else refused(c, v, r, "invalid number of text");
    });
}
