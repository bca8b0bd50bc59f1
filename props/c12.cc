#include "reports.h"

static void check(Ctx &c, const S &group, const m::Acc &a)
{
    c.eq("groupacc", groupacc(group, a), c.ok("groupacc", {"g", "r"}, {{"g", group}, {"r", m::render(a)}}).out);
}
static bool scalar(m::U u) { return u < 0xD800 || u >= 0xE000; }

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto pool = accs();
    uint64_t np = pool.size();
    /* every selection of characters in every order: up to 5 of 6, against every pattern of which occur */
    VS ch = {"a", "b", "\xC3\xA9", "<", cp(0x4E00), cp(0x10FFFF)};
    uint64_t sel = 0;
    std::vector<std::vector<int>> perms;
    std::function<void(std::vector<int>)> gen = [&](std::vector<int> p) {
        perms.push_back(p);
        for (int j = 0; j < 6; j++)
            if (std::find(p.begin(), p.end(), j) == p.end()) {
                auto q = p;
                q.push_back(j);
                gen(q);
            }
    };
    gen({});
    sel = perms.size();
    k.add("selections", "every ordered selection out of six characters as group, against every subset of them occurring, some missed", sel * 64, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &p = perms[x.of(sel)];
        int occ = x.of(64);
        S g;
        for (size_t j = 0; j < p.size(); j++) g += ch[p[j]] + (j % 3 == 1 ? " " : j % 3 == 2 ? "\n" : "");
        m::Acc a;
        for (int j = 0; j < 6; j++)
            if (occ >> j & 1) {
                long n = j * 3 + 1 + occ % 5, miss = (occ + j) % 3 ? 0 : n - occ % 2;
                a.ch[rd(ch[j])[0].v] = cnt(n, miss), a.chars += n, a.errors += miss;
            }
        if (a.errors) {
            a.total.sub = a.total.err = a.unmarked.sub = a.unmarked.err = a.errors;
            a.conf["{a}-{b}"] = cnt(a.errors, 0);
        }
        check(c, g, a);
    });
    k.add("counts", "one character with counts and misses of every magnitude, alone or with others in and outside the group", 20 * 20 * 4, [=](Ctx &c, uint64_t i) {
        static const long big[] = {1, 2, 3, 7, 9, 10, 99, 100, 333, 999, 32768, 65536, 1000003, 99999999, 100000000, 2147483648, 4294967296, 9999999999, 1000000000000, 4611686018427387};
        Mix x(i);
        long n = big[x.of(20)], m = big[x.of(20)];
        int w = x.of(4);
        if (m > n) m = n - m % (n + 1) % n;
        std::vector<std::pair<m::U, m::Cnt>> v = {{'k', cnt(n, m)}};
        if (w & 1) v.push_back({'j', cnt(m, m / 2)});
        if (w & 2) v.push_back({'z', cnt(n, n)}), v.push_back({'A', cnt(5, 0)});
        check(c, "jk", mkacc(v, {}));
    });
    k.add("pool", "every report of the pool against group files with all its characters, none of them, and in reverse order; and two reports' sum", np * np * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        m::Acc a = pool[x.of(np)];
        a.add(pool[x.of(np)]);
        int w = x.of(3);
        S g;
        for (auto &e : a.ch)
            if (e.first != '^') g = w == 1 ? cp(e.first) + " " + g : g + cp(e.first) + (e.first % 3 ? "" : "\n");
        if (w == 2) g = "%&#\n";
        /* marks in the group file combine with what stands before them: put them apart */
        S n;
        std::set<m::U> seen;
        for (auto &e : rd(g))
            if (seen.insert(e.v).second) n += cp(e.v) + " ";
        check(c, n, a);
    });
    int B = 64;
    k.add("every-character", "every code point: listed when it is in the group, not listed when only its neighbours are", 0x110000 / B, [=](Ctx &c, uint64_t i) {
        std::vector<std::pair<m::U, m::Cnt>> v;
        S even, odd, all;
        for (m::U u = i * B; u < (i + 1) * B; u++) {
            if (!scalar(u) || u == '^' || u == '~' || u == 0) continue;
            S x = cp(u);
            Text t = m::read_text(x + "\n", m::T_GROUP).t;
            if (t.empty() || t[0].v != u) continue; /* reading a text normalises this one away */
            v.push_back({u, cnt(u % 7 + 1, u % 7 % 3)});
            (u % 2 ? odd : even) += x + "\n";
            all = x + "\n" + all;
        }
        if (v.empty()) return c.skip();
        m::Acc a = mkacc(v, {});
        check(c, even, a);
        check(c, odd, a);
        check(c, all, a);
    }).limit = 40;
    k.add("large", "groups of 100 to 200000 different characters, of which the first, the last, all or every 997th occur", 8 * 4, [=](Ctx &c, uint64_t i) {
        static const long ns[] = {100, 999, 1001, 10000, 32768, 65535, 65537, 200000};
        Mix x(i);
        long n = ns[x.of(8)];
        int how = x.of(4);
        S g;
        std::vector<std::pair<m::U, m::Cnt>> v;
        for (long j = 0; j < n; j++) {
            m::U u = j < 20000 ? 0x4E00 + j : 0x20000 + j;
            g += cp(u);
            if (how == 0 ? j == 0 : how == 1 ? j == n - 1 : how == 2 ? true : j % 997 == 0) v.push_back({u, cnt(j % 90 + 1, j % 3 % (j % 90 + 1))});
        }
        check(c, g, mkacc(v, {}));
    }).limit = 120;
    k.fams.back().exec_sample = 6;
    /* group files are texts: whatever their spacing */
    VS al = {"a", "b", " ", "\n", "\r\n", "\t", cp(0xA0), "\xC3\xA9", "e" + cp(0x301)};
    uint64_t na = nstr(al.size(), T ? 5 : 4);
    k.add("spacing", "all group files up to 4 over letters, blanks, line breaks and composed characters, without repeats", na, [=](Ctx &c, uint64_t i) {
        S g = strs(al, i);
        std::set<m::U> seen;
        for (auto &e : m::read_text(g, m::T_GROUP).t)
            if (e.v != ' ' && e.v != '\n' && !seen.insert(e.v).second) return c.skip();
        check(c, g, mkacc({{'a', cnt(3, 1)}, {0xE9, cnt(4, 2)}, {' ', cnt(6, 1)}, {'\n', cnt(5, 5)}, {'e', cnt(9, 1)}}, {}));
    });
    VS mk = {"^a", "a", "b", "^", "~", " ", "\n", "^ ", "^" + cp(0xE9), "^<"};
    uint64_t nm = nstr(mk.size(), T ? 5 : 4);
    k.add("marked", "all group files up to 4 over characters with and without suspect markers, stray markers and reject characters, without repeats", nm, [=](Ctx &c, uint64_t i) {
        S g = strs(mk, i);
        std::set<m::U> seen;
        for (auto &e : m::read_text(g, m::T_GROUP).t)
            if (e.v != ' ' && e.v != '\n' && !seen.insert(e.v).second) return c.skip();
        check(c, g, mkacc({{'a', cnt(3, 1)}, {0xE9, cnt(4, 2)}, {' ', cnt(6, 1)}, {'<', cnt(5, 5)}, {'b', cnt(9, 1)}}, {}));
    });
    /* reports the tool wrote */
    VS tx = {"", "a", "ab", "ba", "aab", "b~", "^ab", "\xC3\xA9" "a", "a b\n"};
    uint64_t nt = tx.size();
    k.add("written", "reports accuracy wrote for all pairs of nine texts, five groups, to standard output and to a file", nt * nt * 5 * 2, [=](Ctx &c, uint64_t i) {
        static const char *const gs[] = {"a", "ba", "", "\xC3\xA9 b", "xyz"};
        Mix x(i);
        S a = tx[x.of(nt)], b = tx[x.of(nt)], g = gs[x.of(5)];
        int file = x.of(2);
        Text ta = rd(a), tb = rd(b);
        m::Align al = m::parse_sync(c.ok("synctext", {"c", "g"}, {{"c", a}, {"g", b}}).out, {ta, tb}, {"c", "g"}, false);
        S want = groupacc(g, m::account(al, ta, tb));
        S r = c.ok("accuracy", {"c", "g"}, {{"c", a}, {"g", b}}).out;
        if (!file) c.eq("groupacc", want, c.ok("groupacc", {"g", "r"}, {{"g", g}, {"r", r}}).out);
        else {
            Res o = c.ok("groupacc", {"g", "r", "o"}, {{"g", g}, {"r", r}});
            c.eq("groupacc's file", want, o.wrote["o"]);
            c.eq("groupacc's standard output", S(), o.out);
        }
    });
}
