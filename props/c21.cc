#include "reports.h"

/* Runs the tool and requires an orderly end; in the ordinary build, the same result whatever fresh memory contains. */
static Res orderly(Ctx &c, const Inv &v0)
{
    Inv v = v0;
    Res r = c.run(v);
    if (r.status != 0 && r.status != 1) c.fail("%s ended with status %d (stderr %s)", v.tool.c_str(), r.status, show(r.err).c_str());
    if (r.status == 1) {
        if (!starts(r.err, v.tool + ": ") || r.err.back() != '\n') c.fail("status 1 without a message: %s", show(r.err).c_str());
    } else
        for (auto &l : vx::lines(r.err))
            if (!starts(l, v.tool + ": duplicate stopword ") && !starts(l, "Usage:  ") && l.find("multiple characters") == S::npos) c.fail("status 0 with %s on stderr", show(l).c_str());
    if (!g_asan && c.backend == B_INPROC) {
        for (int f : {0x00, 0xFF}) {
            v.env.fill = f;
            Res q = c.run(v);
            if (!q.same(r)) c.fail("the result depends on the contents of fresh memory\nhere: %s\nthere: %s", q.text().c_str(), r.text().c_str());
        }
    }
    return r;
}
struct Use {
    S tool;
    VS args; /* x, y: the inputs; everything else is fixed */
};
static const std::vector<Use> &pair_uses()
{
    static std::vector<Use> v = {
        {"accuracy", {"x", "y"}}, {"editop", {"x", "y", "out"}}, {"wordacc", {"x", "y"}}, {"wordacc", {"-Sx", "y", "x"}}, {"synctext", {"x", "y"}}, {"synctext", {"-H", "-s", "x", "y"}}, {"synctext", {"-T", "x", "y"}}, {"synctext", {"-i", "x", "y", "z"}},
        {"vote", {"x", "y", "z"}}, {"vote", {"-O", "-s1/2", "-w1/3", "x", "y", "x"}}, {"ngram", {"x", "y"}}, {"ngram", {"-n3", "x", "y"}}, {"wordfreq", {"x", "y"}}, {"groupacc", {"x", "r"}}, {"nonstopacc", {"y", "q"}},
    };
    return v;
}
static const std::vector<File> &fixed()
{
    static std::vector<File> w = {{"z", "ab z"}, {"r", m::render(mkacc({{'a', cnt(5, 1)}, {'b', cnt(9, 2)}, {0x10FFFF, cnt(1, 1)}, {0x301, cnt(3, 0)}}, {{"{a}-{b}", cnt(4, 0)}}))}, {"q", m::render(mkwac({{"the", cnt(5, 1)}, {"a", cnt(2, 0)}}, {{"ab", cnt(2, 1)}}, 3))}};
    return w;
}
static Inv use(const Use &u, const S &x, const S &y)
{
    Inv v(u.tool, u.args, {});
    for (auto &a : u.args) {
        if (a == "x" || a == "-Sx") v.files.push_back({"x", x});
        if (a == "y") v.files.push_back({"y", y});
        for (auto &f : fixed())
            if (a == f.name) v.files.push_back(f);
    }
    std::map<S, File> once;
    for (auto &f : v.files) once[f.name] = f;
    v.files.clear();
    for (auto &f : once) v.files.push_back(f.second);
    return v;
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto &pu = pair_uses();
    uint64_t np = pu.size();
    /* ---- every short input */
    VS nasty = {"a", "~", "^", "\n", " ", "b", "\xF4\x8F\xBF\xBF", "\xCC\x81", "\xE4\xB8\x80", "7", "'", S("\0", 1), "\xC3", "\xFF"};
    VS some = {"a", "~", "^", "\n", " ", "\xF4\x8F\xBF\xBF", "\xCC\x81"};
    uint64_t ka = nasty.size(), ks = some.size();
    {
        int L = T ? 4 : 3;
        uint64_t n = nstr(ka, L);
        k.add("one-text", fmt("every text of up to %d of %zu pieces, some not UTF-8, in every place of %zu uses of the tools", L, (size_t) ka, (size_t) np), n * np * 2, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            auto &u = pair_uses()[x.of(np)];
            bool second = x.of(2);
            S t = strs(nasty, x.of(n));
            orderly(c, use(u, second ? S("a^b~") : t, second ? t : S("a^b~")));
        });
    }
    {
        int L = T ? 3 : 2;
        uint64_t n = nstr(ks, L);
        k.add("two-texts", fmt("every two texts of up to %d of %zu pieces, in %zu uses of the tools", L, (size_t) ks, (size_t) np), n * n * np, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            auto &u = pair_uses()[x.of(np)];
            S a = strs(some, x.of(n)), b = strs(some, x.of(n));
            orderly(c, use(u, a, b));
        });
    }
    /* ---- every size around the limits: words, confusions, moves, runs */
    VS units = {"a", "\xC3\xA9", "\xE4\xB8\x80", "\xF0\x9D\x90\x80", "\xF4\x8F\xBF\xBF", "\xC2\x9F", "\x01", "\n", " ", "~", "^a", "\xCC\x81", "a\xCC\x81", "a ", "the ", "7", "'", "<", "}", "{", "\xE2\x97\x8C", "\xEF\xBF\xBD"};
    uint64_t nu = units.size();
    std::vector<long> sizes;
    for (long i = 0; i <= (T ? 400 : 34); i++) sizes.push_back(i);
    for (long i : {47, 48, 49, 50, 51, 52, 63, 64, 65, 79, 80, 81, 95, 98, 99, 100, 101, 102, 126, 127, 128, 129, 196, 197, 198, 199, 200, 201, 254, 255, 256, 257, 510, 511, 512, 513, 1000, 1023, 1024, 1025})
        if (!T || i > 400) sizes.push_back(i);
    uint64_t nz = sizes.size();
    k.add("runs", fmt("runs of %zu kinds of characters of %zu lengths up to 1025, against nothing, themselves, one more, and others, in %zu uses of the tools", (size_t) nu, (size_t) nz, (size_t) np), nu * nz * np * 5, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &u = pair_uses()[x.of(np)];
        int other = x.of(5);
        long z = sizes[x.of(nz)];
        S un = units[x.of(nu)];
        if (z > 300 && (u.tool == "editop" || u.args[0] == "-H" || u.args[0] == "-T" || u.args.size() > 2) && other == 3) return c.skip();
        S a = rep(un, z), b = other == 0 ? S() : other == 1 ? a : other == 2 ? rep(un, z + 1) : other == 3 ? rep("xy", z / 2) : "q" + rep(un, z / 2) + "q";
        orderly(c, use(u, a, b));
    }).limit = 60;
    VS lens;
    k.add("confusions", "unmatched segments of two kinds of characters of every length up to 30 on both sides (the display limit is 24 bytes)", 12 * 12 * 31 * 31, [=](Ctx &c, uint64_t i) {
        static const VS cu = {"a", "\xC3\xA9", "\xE4\xB8\x80", "\xF0\x9D\x90\x80", "\xF4\x8F\xBF\xBF", "\xC2\x9F", "\x01", "\n", "\xCC\x81", "\xF0\x90\x87\xBD", "\xE2\x83\x90", "\xEF\xBF\xBD"};
        Mix x(i);
        S p = cu[x.of(12)], q = cu[x.of(12)];
        long a = x.of(31), b = x.of(31);
        if (!T && !(a % 4 == 0 || a > 22 || a < 9) && !(b % 4 == 0 || b < 9)) return c.skip();
        Inv v("accuracy", {"x", "y"}, {{"x", rep(p, a)}, {"y", rep(q, b)}});
        Res r = c.run(v);
        if (r.status) c.fail("status %d", r.status);
    }).exec_sample = 200;
    k.add("words", "words of 1..140 characters of eleven kinds in every report of words, once and repeated", 140 * 11 * 2 * 4, [=](Ctx &c, uint64_t i) {
        static const VS wu = {"a", "\xC3\xA9", "\xE4\xB8\x80", "\xF0\x9D\x90\x80", "7", "a'", "a_", "\xD7\x90", "\xE3\x82\xAB", "a\xCC\x81", "\xF0\x90\x90\x80"};
        Mix x(i);
        S w = rep(wu[x.of(11)], x.of(140) + 1);
        S t = w + " " + (x.of(2) ? w + "b " + w + " b" : S("z"));
        switch (x.of(4)) {
        case 0: orderly(c, Inv("wordacc", {"x", "y", "o"}, {{"x", t}, {"y", w}})); break;
        case 1: orderly(c, Inv("wordacc", {"-S", "y", "x", "x"}, {{"x", t}, {"y", w}})); break;
        case 2: orderly(c, Inv("wordfreq", {"x"}, {{"x", t}})); break;
        default: {
            Res r = c.run("wordacc", {"x", "y"}, {{"x", t}, {"y", w}});
            orderly(c, Inv("wordaccsum", {"x", "x"}, {{"x", r.out}}));
            orderly(c, Inv("nonstopacc", {"y", "x"}, {{"x", r.out}, {"y", t}}));
        }
        }
    });
    k.add("moves", "blocks of every length up to 210 moved forwards and backwards, once and twice", 210 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long n = x.of(210) + 1;
        bool back = x.of(2), twice = x.of(2);
        VS p;
        for (int b = 0; b < 5; b++) {
            S s;
            for (long j = 0; j < (b & 1 ? n : n + 1 + b); j++) s += cp(0x4E00 + b * 400 + j);
            p.push_back(s);
        }
        S a = p[0] + p[1] + p[2] + p[3] + p[4], b = back ? p[0] + p[2] + p[1] + p[3] + p[4] : p[1] + p[0] + p[2] + (twice ? p[4] + p[3] : p[3] + p[4]);
        orderly(c, Inv("editop", {"x", "y"}, {{"x", a}, {"y", b}}));
    });
    k.add("code-points", "every code point (by %d), alone, marked and twice, in every use of the tools", (T ? 0x110000 / 16 : 4600) * np, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &u = pair_uses()[x.of(np)];
        uint64_t b = x.of(T ? 0x110000 / 16 : 4600);
        /* quick: the first 2600 and the last 2000 runs of 16, and one per 256 between */
        S t;
        for (int j = 0; j < 16; j++) {
            uint64_t cpnt = T ? b * 16 + j : b < 600 ? b * 16 + j : b < 4300 ? (600 + (b - 600) * 16 + j) * 16 : 0x110000 - (4600 - b) * 16 + j;
            if (cpnt > 0x10FFFF || (cpnt >= 0xD800 && cpnt < 0xE000)) continue;
            t += cp(cpnt) + "^" + cp(cpnt) + (j % 3 ? "" : "a");
        }
        orderly(c, use(u, t, "a" + t));
    });
    k.fams.back().what = T ? "every code point, plain and marked, in every use of the tools" : "code points (all below U+2580 and the last 4800, one in 16 of the others), plain and marked, in every use of the tools";
    /* ---- arguments */
    std::vector<Inv> odd;
    for (int n : {100, 127, 128, 255, 256, 1000, 4095, 4096, 5000, 100000}) {
        S l = rep("n", n), path = rep("./", n / 2) + "x";
        for (auto &u : pu) {
            for (S name : {l, path}) {
                Inv v = use(u, "abc abd", "abc xbd");
                for (auto &a : v.args)
                    if (a == "x") a = name;
                if (n < 255 && name == l) {
                    for (auto &f : v.files)
                        if (f.name == "x") f.name = l;
                }
                if (name == path && n > 4000) continue;
                odd.push_back(v);
            }
        }
        for (auto t : {"accsum", "wordaccsum", "editopsum", "accci", "wordaccci", "accdist", "wordaccdist", "editopcost", "groupacc", "nonstopacc"}) {
            odd.push_back(Inv(t, {l, l}, {}));
            if (n < 4000) odd.push_back(Inv(t, {path, path}, {{"x", "not a report\n"}}));
        }
        for (auto o : {"-o", "-s", "-w", "-O", "-D"}) odd.push_back(Inv("vote", {o + l, "x", "y", "z"}, {{"x", "abc"}, {"y", "abd"}, {"z", "abc"}})), odd.push_back(Inv("vote", {o, l, "x", "y", "z"}, {{"x", "abc"}, {"y", "abd"}, {"z", "abc"}}));
        odd.push_back(Inv("vote", {"-s" + rep("1", n) + "/" + rep("2", n), "x", "y"}, {{"x", "abc"}, {"y", "abd"}}));
        odd.push_back(Inv("ngram", {"-n" + l, "x"}, {{"x", "abc"}})), odd.push_back(Inv("ngram", {"-n" + rep("0", n) + "2", "x"}, {{"x", "abc"}}));
        odd.push_back(Inv("wordacc", {"-S" + l, "x", "x"}, {{"x", "abc"}}));
        odd.push_back(Inv("synctext", {"-" + l, "x", "x"}, {{"x", "abc"}}));
    }
    for (S num : {"0", "1", "2", "9", "10", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "-1", "-2147483648", "", "x", "%s%n%s", "1e9", "\xFF", " 1", "1 ", "0x1"})
        for (S den : {"0", "1", "2", "9", "32767", "32768", "65537", "2147483648", "9223372036854775807", "-1", "", "y", "%n"})
            for (S f : {num + "/" + den, num, num + "//" + den, "/" + den, num + "/" + den + "/1", num + "/" + den + "x"})
                for (auto o : {"-s", "-w"}) {
                    odd.push_back(Inv("vote", {o, f, "x", "y", "z"}, {{"x", "ab^cd"}, {"y", "ab^ed"}, {"z", "ad"}}));
                }
    for (S name : {"%s%s%s%n", "%d", "a b", "\n", "\xFF\xFE", "\xC3\xA9", "*", "$HOME", "\"", "\\", "'", "%", "%5", "%-99999d", "/dev/null/x"}) {
        for (auto &u : pu) {
            Inv v = use(u, "ab xc", "ab yc");
            bool real = name != ".." && name != "." && name.find('/') == S::npos;
            for (auto &a : v.args)
                if (a == "x") a = name;
            if (real)
                for (auto &f : v.files)
                    if (f.name == "x") f.name = name;
            odd.push_back(v);
            v = use(u, "ab xc", "ab yc");
            for (auto &a : v.args)
                if (a == "out") a = name;
            if (real && u.tool == "editop") odd.push_back(v);
        }
        for (auto t : {"accsum", "wordaccsum", "editopsum", "accci", "wordaccci", "accdist", "wordaccdist", "editopcost"}) odd.push_back(Inv(t, {name, name}, {}));
    }
    k.add("odd-arguments", "names of 100..100000 bytes, with format directives, blanks and bytes that are not characters, and numbers of every form in fractions", odd.size(), [=](Ctx &c, uint64_t i) { orderly(c, odd[i]); }).exec_sample = 300;
    k.add("options", "every tool with every option letter, alone, attached, before and after its files, and every ordered pair of 12 options of which most exist (debugging among them), in ASan", 17 * (127 * 4 + 12 * 12 * 4), [=](Ctx &c, uint64_t i) {
        static const VS names = {"accci", "accdist", "accsum", "accuracy", "editop", "editopcost", "editopsum", "groupacc", "ngram", "nonstopacc", "synctext", "vote", "wordacc", "wordaccci", "wordaccdist", "wordaccsum", "wordfreq"};
        static const VS opts = {"-D", "-O", "-H", "-T", "-i", "-s", "-s1/2", "-w1/3", "-n2", "-Sz", "-oo", "-Z"};
        Mix x(i);
        S t = names[x.of(17)];
        bool acc = t == "accci" || t == "accdist" || t == "accsum", wac = starts(t, "wordacc") && t != "wordacc", edo = starts(t, "editop") && t != "editop";
        VS files = {acc ? "r" : wac ? "q" : edo ? "e" : "x", acc || t == "groupacc" ? "r" : wac || t == "nonstopacc" ? "q" : edo ? "e" : "z"};
        VS a;
        uint64_t q = x.of(127 * 4 + 12 * 12 * 4);
        if (q < 127 * 4) {
            Mix y(q);
            S o = fmt("-%c", 1 + (int) y.of(127));
            int how = y.of(4);
            if (how == 0) a = {o};
            if (how == 1) a = files, a.push_back(o);
            if (how == 2) a = files, a.insert(a.begin(), o);
            if (how == 3) a = files, a.insert(a.begin(), o + "1");
        } else {
            Mix y(q - 127 * 4);
            S o = opts[y.of(12)], p = opts[y.of(12)];
            if (y.of(2) && (t == "vote" || t == "ngram" || t == "synctext" || t == "wordfreq")) files.push_back("x"), files.push_back("y");
            a = y.of(2) ? VS{files[0], o, files[1], p} : VS{o, p, files[0], files[1]};
            a.insert(a.end(), files.begin() + 2, files.end());
        }
        Inv v(t, a, {{"x", "ab xc ^d the\nab abe\n~f"}, {"y", "ba xc\ncd ^ab abe"}, {"e", m::render(edos()[3])}});
        for (auto &f : fixed()) v.files.push_back(f);
        orderly(c, v);
    });
    k.add("many-files", "every tool with 0..20 files, and the tools without a limit with up to 3000", 17 * 30, [=](Ctx &c, uint64_t i) {
        static const VS names = {"accci", "accdist", "accsum", "accuracy", "editop", "editopcost", "editopsum", "groupacc", "ngram", "nonstopacc", "synctext", "vote", "wordacc", "wordaccci", "wordaccdist", "wordaccsum", "wordfreq"};
        Mix x(i);
        S t = names[x.of(17)];
        long n = x.of(30);
        static const long big[] = {30, 31, 32, 33, 64, 100, 255, 256, 1000, 3000};
        if (n >= 20) n = big[n - 20];
        VS a;
        bool acc = t == "accci" || t == "accdist" || t == "accsum", wac = starts(t, "wordacc") && t != "wordacc", edo = starts(t, "editop") && t != "editop";
        for (long j = 0; j < n; j++) a.push_back(acc ? "r" : wac ? "q" : edo ? "e" : j & 1 ? "x" : "z");
        Inv v(t, a, {{"x", "ab xc"}, {"e", m::render(edos()[3])}});
        for (auto &f : fixed()) v.files.push_back(f);
        orderly(c, v);
    }).limit = 60;
    /* ---- large and deeply divided inputs */
    struct Big {
        S what;
        std::function<S(bool)> make;
        long cost;
    };
    static std::vector<Big> bigs;
    bigs.clear();
    for (long n : {300, 1000}) {
        bigs.push_back({fmt("%ld distinct characters, each second one changed", n), [n](bool second) {
                            S s;
                            for (long j = 0; j < n; j++) s += cp((second && j % 2 ? 0x20000 : 0x4E00) + j);
                            return s;
                        }, n});
        bigs.push_back({fmt("segments of decreasing lengths up to %ld in all", n), [n](bool second) {
                            S s;
                            long c = 0x4E00;
                            for (long len = 1; len * len < 2 * n; len++) {
                                for (long j = 0; j < len; j++) s += cp(c++);
                                s += second ? "x" : "y";
                            }
                            return s;
                        }, n});
        bigs.push_back({fmt("%ld characters, reversed", n), [n](bool second) {
                            S s;
                            for (long j = 0; j < n; j++) s += cp(0x4E00 + (second ? n - j : j));
                            return s;
                        }, n});
        bigs.push_back({fmt("%ld marks on one letter", n), [n](bool second) {
                            S s = "a";
                            for (long j = 0; j < n; j++) s += cp((second ? 0x316 : 0x300) + j % 20);
                            return s;
                        }, n});
        bigs.push_back({fmt("%ld different words", n), [n](bool second) {
                            S s;
                            for (long j = 0; j < n; j++) s += fmt("w%ld%s", second && j % 3 == 0 ? j + n : j, j % 7 ? " " : "\n");
                            return s;
                        }, n * 3});
    }
    bigs.push_back({"a text of 300000 equal characters", [](bool) { return rep("a", 300000); }, 1});
    bigs.push_back({"a text of 60000 equal words", [](bool second) { return rep("the ", 60000) + (second ? "x" : ""); }, 1});
    bigs.push_back({"a word of 100000 letters", [](bool second) { return rep("a", 100000) + (second ? "b" : ""); }, 1});
    bigs.push_back({"a text of 20000 different bigrams", [](bool) {
                        S s;
                        for (int j = 0; j < 20000; j++) s += cp(0x4E00 + j % 173) + cp(0x6E00 + j * 7 % 211);
                        return s;
                    }, 1});
    bigs.push_back({"1400 matches of one character each, one after another", [](bool second) {
                        S s;
                        for (int j = 0; j < 1400; j++) s += "a" + cp((second ? 0x5E00 : 0x4E00) + j % 3);
                        return s;
                    }, 2});
    uint64_t nb = bigs.size();
    k.add("large", "large and deeply divided inputs in every use of the tools", nb * np, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &u = pair_uses()[x.of(np)];
        auto &b = bigs[x.of(nb)];
        bool cubic = u.tool == "editop" || (u.tool == "synctext" && (u.args[0] == "-H" || u.args[0] == "-T" || u.args.size() == 4));
        if (cubic && b.cost == 2 && !T && (u.tool != "synctext" || u.args[0] != "-H")) return c.skip();
        if (cubic && (b.cost == 1 || (b.cost > 1000 && !T))) return c.skip();
        if (b.cost == 1 && u.tool == "vote") return c.skip();
        Inv v = use(u, b.make(false), b.make(true));
        Res r = c.run(v);
        if (r.status != 0 && r.status != 1) c.fail("%s: status %d", b.what.c_str(), r.status);
    }).limit = 150;
    k.fams.back().exec_sample = 40;
    /* ---- nothing but the inputs matters */
    static const std::vector<VS> envs = {{"LC_ALL=POSIX"}, {"LC_ALL=de_DE.UTF-8", "LANG=de_DE.UTF-8"}, {"LC_NUMERIC=de_DE"}, {"POSIXLY_CORRECT=1"}, {"COLUMNS=1", "LINES=1"}, {"HOME=/nonexistent", "TMPDIR=/nonexistent"}, {"OCREVAL=1", "DEBUG=1", "STOPWORDS=x", "TEMP=x"}, {"TZ=Asia/Kolkata"}, {"IFS=x", "PATH=", "USER=root"}};
    static const std::vector<File> strangers = {{"core", "x"}, {".stopwords", "ab\n"}, {"stopwords", "ab\n"}, {"output", "old"}, {"x.txt", "other"}, {"x~", "other"}, {"-", "other"}, {"--", "other"}, {"X", "other"}, {"Y", "other"}, {"tmp", "", N_DIR}, {"ocreval.conf", "x"}, {"stop", "ab\n"}, {"word_break_property.h", "x"}};
    k.add("surroundings", "every use of the tools with other environment variables, other files in the directory, a longer or shorter earlier output, and other memory contents", np * 64 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &u = pair_uses()[x.of(np)];
        int w = x.of(64), t = x.of(4);
        static const VS ts[4] = {{"the cat^ sat ~ 1.5\n\xC3\xA9t\xC3\xA9", "the c^at sit 1,5\n\xC3\xA9t\xC3\xA8"}, {"", "x"}, {rep("ab cd ", 60), rep("ab ce ", 61)}, {"\xF4\x8F\xBF\xBF^~", "\xCC\x81"}};
        Inv v = use(u, ts[t][0], ts[t][1]);
        Res r = c.run(v);
        Inv o = v;
        if (w < 9) o.env.environ_ = envs[w];
        else if (w < 23) o.files.push_back(strangers[w - 9]);
        else if (w == 23) o.files.insert(o.files.end(), strangers.begin(), strangers.end());
        else if (w == 24) o.files.push_back({"out", rep("previous\n", 5000)});
        else if (w == 25) o.files.push_back({"out", "p"});
        else if (w == 26) std::reverse(o.files.begin(), o.files.end());
        else if (w == 27) o.stdin_data = "unread standard input";
        else if (w == 28) for (auto &e : envs) o.env.environ_.insert(o.env.environ_.end(), e.begin(), e.end());
        else if (w < 45) o.env.fill = (w - 29) * 17;
        else if (w == 45) {
            /* again, over its own output */
            for (auto &f : r.wrote) o.files.push_back({f.first, f.second});
        } else return c.skip();
        Res q = c.run(o);
        if (!q.same(r)) c.fail("the result changed with the surroundings\nalone: %s\nhere: %s", r.text().c_str(), q.text().c_str());
    });
    k.assumptions = {"memory errors are those AddressSanitizer and the explorer's own heap recognise; the run without AddressSanitizer compares results under different contents of fresh heap memory and with every stack variable set to a pattern",
                     "time: no case may take longer than its limit (20 s, 60 s or 150 s for the large ones)"};
    k.rule = "one state per invocation (tool, arguments, inputs)";
}
