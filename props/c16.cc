#include "common.h"

struct Opt {
    bool optimize = false;
    int sm = 0, sn = 1, wm = 1, wn = 1; /* threshold m/n (0: none), weight m/n */
};
/* the three (or all) texts that vote, nearest to the medians first */
static std::vector<Text> voters(const std::vector<Text> &t, bool optimize)
{
    if (!optimize) return t;
    typedef std::pair<m::U, m::U> B;
    std::map<B, std::vector<long>> count;
    for (size_t i = 0; i < t.size(); i++)
        for (size_t j = 0; j + 1 < t[i].size(); j++) {
            auto &v = count[B(t[i][j].v, t[i][j + 1].v)];
            v.resize(t.size(), 0);
            v[i]++;
        }
    std::vector<std::pair<long, size_t>> d; /* twice the distance, argument */
    for (size_t i = 0; i < t.size(); i++) d.push_back({0, i});
    for (auto &x : count) {
        std::vector<long> s = x.second;
        std::sort(s.begin(), s.end());
        long med2 = x.first.first == '~' || x.first.second == '~' ? 0 : s.size() % 2 ? 2 * s[s.size() / 2] : s[s.size() / 2 - 1] + s[s.size() / 2];
        for (size_t i = 0; i < t.size(); i++) d[i].first += std::labs(2 * x.second[i] - med2);
    }
    std::sort(d.begin(), d.end());
    std::vector<Text> r;
    for (size_t i = 0; i < t.size() && i < 3; i++) r.push_back(t[d[i].second]);
    return r;
}
static S vote(const std::vector<Text> &all, const Opt &o)
{
    std::vector<Text> t = voters(all, o.optimize);
    long threshold = (long) t.size() * o.wn * o.sm / o.sn;
    S out;
    for (auto &g : m::synchronize(t)) {
        for (long p = 0;; p++) {
            /* candidates in the order of the first vote for each; -1: no more characters */
            std::vector<std::pair<long, long>> cand;
            auto cast = [&](long who, long w) {
                for (auto &x : cand)
                    if (x.first == who) {
                        x.second += w;
                        return;
                    }
                cand.push_back({who, w});
            };
            for (size_t i = 0; i < t.size(); i++)
                if (p >= g.len[i]) cast(-1, o.wn);
                else {
                    auto &ch = t[i][g.start[i] + p];
                    if (ch.v != '~') cast(ch.v, ch.s ? o.wm : o.wn);
                }
            if (cand.empty()) {
                out += "~";
                continue;
            }
            auto best = cand[0];
            for (auto &x : cand)
                if (x.second > best.second) best = x;
            if (best.first < 0) break;
            out += m::repr(best.second <= threshold, best.first, false);
        }
    }
    return out;
}
static void check(Ctx &c, const VS &b, const Opt &o = Opt(), int style = 0)
{
    std::vector<Text> t;
    std::vector<File> f;
    VS names, args;
    for (size_t i = 0; i < b.size(); i++) {
        names.push_back(fmt("v%zu", i));
        f.push_back({names[i], b[i]});
        t.push_back(rd(b[i]));
    }
    auto opt = [&](const S &k, const S &v) {
        if (style & 1) args.push_back(k), args.push_back(v);
        else args.push_back(k + v);
    };
    if (o.optimize) args.push_back("-O");
    if (o.sm) opt("-s", fmt("%d/%d", o.sm, o.sn));
    if (o.wm != 1 || o.wn != 1) opt("-w", fmt("%d/%d", o.wm, o.wn));
    if (style & 2) opt("-o", "out");
    if (style & 4) args.insert(args.begin(), names.begin(), names.end());
    else args.insert(args.end(), names.begin(), names.end());
    Res r = c.ok("vote", args, f);
    S want = vote(t, o);
    if (style & 2) {
        c.eq("vote's output file", want, r.wrote["out"]);
        c.eq("standard output besides -o", S(), r.out);
    } else c.eq("vote", want, r.out);
}
static const VS AB = {"a", "b"}, ABT = {"a", "b", "~"}, KINDS = {"a", "b", "~", "^a"}, MORE = {"a", "^a", "~", "^b", "\n"};

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto multi = [&](S name, const VS &al, int n, int l) {
        uint64_t ns = nstr(al.size(), l), tot = 1;
        for (int j = 0; j < n; j++) tot *= ns;
        k.add(name, fmt("all combinations of %d inputs over %zu kinds of characters up to %d long; weight and threshold vary with the case", n, al.size(), l), tot, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            VS b;
            for (int j = 0; j < n; j++) b.push_back(strs(al, x.of(ns)));
            Opt o;
            if (i % 2) o.sm = 1 + i / 2 % 3, o.sn = 3;
            if (i % 3) o.wm = 1 + i / 3 % 2, o.wn = 2;
            check(c, b, o);
        });
    };
    multi("two", KINDS, 2, T ? 5 : 4);
    multi("three-ab", AB, 3, T ? 5 : 4);
    multi("three-ab~", ABT, 3, 3);
    multi("three-kinds", MORE, 3, T ? 3 : 2);
    multi("four", ABT, 4, 2);
    multi("five", ABT, 5, T ? 2 : 1);
    /* one position, all candidates: 2..6 inputs voting with one of 5 characters or nothing between fixed context */
    VS one = {"", "a", "^a", "b", "^b", "~"};
    uint64_t tot = 0;
    for (int n = 2; n <= 6; n++) tot += ipow(6, n);
    k.add("one-position", "one position of 2..6 inputs, each a, b, marked a, marked b, reject or nothing, in a context or alone, under all 45 weights", tot * 45, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int w = x.of(45);
        uint64_t j = x.i;
        int n = 2;
        while (j >= ipow(6, n)) j -= ipow(6, n++);
        VS b;
        for (int q = 0; q < n; q++) {
            S s = one[j % 6];
            b.push_back(i % 2 ? "(" + s + ")" : s);
            j /= 6;
        }
        Opt o;
        for (o.wn = 1, o.wm = 1; w > 0; w--)
            if (o.wm < o.wn) o.wm++;
            else o.wn++, o.wm = 1;
        if (i % 4 > 1) o.sm = i / 4 % 9 + 1, o.sn = 9;
        check(c, b, o, 0);
    });
    /* thresholds: all 45 fractions with all 45 weights, 2..16 inputs */
    k.add("fractions", "all 45 thresholds with all 45 weights, 2..16 inputs with every number of agreeing ones, attached or separate, -o or not", 45 * 45 * 15 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        Opt o;
        auto frac = [](int w, int &a, int &b) {
            for (a = 1, b = 1; w > 0; w--)
                if (a < b) a++;
                else b++, a = 1;
        };
        frac(x.of(45), o.sm, o.sn);
        frac(x.of(45), o.wm, o.wn);
        int n = x.of(15) + 2, h = x.of(4);
        VS b;
        for (int j = 0; j < n; j++) b.push_back(S("x") + (h == 3 ? "^" : "") + "y^zw" + (j * 4 < n * h ? "Q" : j % 2 ? "^P" : "P") + (j % 3 == h % 3 ? "^e" : "e"));
        check(c, b, o, i % 8);
    });
    k.add("up-to-16", "2..16 inputs, a base text with an edit of its own in each", 15 * 4 * 70 * 5, [=](Ctx &c, uint64_t i) {
        static const VS bases = {"abcabdacb", "aaaaaaa", "a~b\ncde^f", "abababab"};
        Mix x(i);
        int n = x.of(15) + 2;
        S base = bases[x.of(4)];
        int e = x.of(70), step = x.of(5);
        VS b, v, al = {"a", "^x", "~"};
        for (char ch : base) v.push_back(S(1, ch));
        for (int j = 0; j < n; j++) b.push_back(j % 3 == 2 ? base : join(edit(v, al, (e + j * (step * 7)) % nedits(v.size(), 3)), ""));
        Opt o;
        o.optimize = i % 5 == 4;
        if (i % 3 == 1) o.sm = 1 + i % 4, o.sn = 4;
        check(c, b, o, i % 8);
    });
    /* -O */
    auto opti = [&](S name, const VS &al, int n, int l) {
        uint64_t ns = nstr(al.size(), l), tot2 = 1;
        for (int j = 0; j < n; j++) tot2 *= ns;
        k.add(name, fmt("-O: all combinations of %d inputs over %zu kinds of characters up to %d long", n, al.size(), l), tot2, [=](Ctx &c, uint64_t i) {
            Mix x(i);
            VS b;
            for (int j = 0; j < n; j++) b.push_back(strs(al, x.of(ns)));
            Opt o;
            o.optimize = true;
            if (i % 2) o.sm = 1 + i / 2 % 3, o.sn = 3;
            check(c, b, o);
        });
    };
    opti("O-two", ABT, 2, 4);
    opti("O-three", ABT, 3, 3);
    opti("O-four", AB, 4, T ? 4 : 3);
    opti("O-four~", ABT, 4, 2);
    opti("O-five", AB, 5, T ? 3 : 2);
    k.add("O-distance", "-O with 3..16 inputs: a base text with 0..5 edits in each, in every rotation", 14 * 16 * 60, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int n = x.of(14) + 3, rot = x.of(16), kind = x.of(60);
        VS b, v, al = {"a", "^x", "~", "\xC3\xA9"};
        for (char ch : S("the cat sat on the mat")) v.push_back(S(1, ch));
        for (int j = 0; j < n; j++) {
            VS w = v;
            int e = ((j + rot) % n * (kind % 5 + 1)) % 6;
            for (int q = 0; q < e; q++) w = edit(w, al, (kind * 31 + q * 53 + j * 17) % nedits(w.size(), 4));
            b.push_back(join(w, ""));
        }
        Opt o;
        o.optimize = true;
        check(c, b, o, i % 8);
    });
    /* more pairs of characters than 16 bits count */
    static const long many[] = {32760, 32767, 32768, 65535, 65536, 70000};
    k.add("O-many", "-O with 3 to 5 texts of up to 70000 different characters of which one or two, in every place, have a character less or more or another at the beginning, the middle or the end", 6 * 3 * 3 * 3 * 5, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long n = many[x.of(6)];
        int m = x.of(3) + 3, what = x.of(3), where = x.of(3), odd = x.of(5);
        if (odd >= m || (!T && ((m == 5) != (what == 1) || what != where || (n != 32767 && n != 32768 && n != 65536)))) return c.skip();
        VS t, u;
        for (long j = 0; j < n; j++) t.push_back(cp(j < 20000 ? 0x4E00 + j : j < 31000 ? 0xAC00 + j - 20000 : 0x20000 + j - 31000));
        u = t;
        long at = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
        if (what == 0) u.erase(u.begin() + at);
        else if (what == 1) u.insert(u.begin() + at, "x");
        else u[at] = "y";
        S base = join(t, ""), other = join(u, "");
        std::vector<File> f;
        VS a = {"-O"};
        for (int j = 0; j < m; j++) {
            a.push_back(fmt("v%d", j));
            f.push_back({a.back(), j == odd || (m == 5 && j == (odd + 2) % 5) ? other : base});
        }
        c.eq("the text of most", base, c.ok("vote", a, f).out);
    });
    /* and more occurrences of one pair */
    k.add("O-counts", "-O with five texts of one character 32760 to 70000 times, two of them, in every place, shorter or longer by 5 or quite different", 6 * 10 * 4, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long n = many[x.of(6)];
        int pl = x.of(10), what = x.of(4);
        static const int at[10][2] = {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}, {3, 4}};
        if (!T && pl != 0 && pl != 5 && pl != 9) return c.skip();
        S base = rep("a", n), other = what == 0 ? rep("a", n - 5) : what == 1 ? rep("a", n + 5) : what == 2 ? rep("b", n) : "b";
        std::vector<File> f;
        VS a = {"-O"};
        for (int j = 0; j < 5; j++) {
            a.push_back(fmt("v%d", j));
            f.push_back({a.back(), j == at[pl][0] || j == at[pl][1] ? other : base});
        }
        c.eq("the text of most", base, c.ok("vote", a, f).out);
    });
    /* identical inputs come out again */
    VS kinds = {"a", "\n", " ", "\xC3\xA9", "^b", "~", "\x01", cp(0x301)};
    k.add("identical", "all texts up to 4 long over 8 kinds, 2, 3 and 16 times, -O or not", nstr(kinds.size(), T ? 5 : 4) * 6, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int n = x.of(3), op = x.of(2);
        S s = strs(kinds, x.i);
        Opt o;
        o.optimize = op;
        VS b(n == 2 ? 16 : n + 2, s);
        check(c, b, o);
        /* the result is a text equal to the inputs but for the marks (where all characters are shown as themselves) */
        for (auto &ch : rd(s))
            if ((!m::is_graphic(ch.v) || m::is_mark(ch.v)) && ch.v != ' ' && ch.v != '\n') return;
        std::vector<File> f;
        VS names;
        for (size_t j = 0; j < b.size(); j++) names.push_back(fmt("v%zu", j)), f.push_back({names[j], s});
        Text back = rd(c.ok("vote", names, f).out), in = rd(s);
        bool same = back.size() == in.size();
        for (size_t j = 0; same && j < in.size(); j++) same = back[j].v == in[j].v;
        if (!same) c.fail("identical inputs %s are not reproduced", show(s).c_str());
    });
    /* invalid fractions */
    VS bad;
    for (int a = 0; a < 128; a++)
        for (int b = 0; b < 128; b++)
            for (int s = 0; s < 3; s++) {
                if (a == 0 && (b || s)) continue;
                if (b == 0 && s) continue;
                if (a == '\n' || b == '\n') continue;
                S x;
                if (a) x += char(a);
                x += s == 0 ? "/" : s == 1 ? "-" : "";
                if (b) x += char(b);
                bool valid = s == 0 && a >= '1' && a <= '9' && b >= '1' && b <= '9' && a <= b;
                if (!valid) bad.push_back(x);
            }
    for (auto s : {"1/2/", "1/2 ", " 1/2", "1/10", "10/20", "01/2", "1//2", "1/", "1/2x"}) bad.push_back(s);
    uint64_t nb = bad.size();
    k.add("bad-fractions", "every string of two ASCII characters with /, - or nothing between, and longer ones, as -s or -w", nb * 2, [=](Ctx &c, uint64_t i) {
        S v = bad[i / 2];
        VS args;
        if (v.empty()) return c.skip();
        args = {i % 2 ? "-s" : "-w", v, "p", "q"};
        Inv inv("vote", args, {{"p", "a"}, {"q", "a"}});
        Res r = c.run(inv);
        refused(c, inv, r, i % 2 ? "invalid threshold" : "invalid weight");
    });
    k.add("numbers", "0..20 inputs: fewer than 2 and more than 16 are refused; a sole -O with two inputs", 42, [=](Ctx &c, uint64_t i) {
        int n = i / 2;
        VS names;
        std::vector<File> f;
        if (i & 1) names.push_back("-O");
        for (int j = 0; j < n; j++) f.push_back({fmt("v%d", j), "ab"}), names.push_back(f[j].name);
        if (names.empty()) return c.skip();
        Inv v("vote", names, f);
        Res r = c.run(v);
        if (n >= 2 && n <= 16) c.eq("vote", S("ab"), r.out);
        else refused(c, v, r, "invalid number of voters");
    });
}
