#include "reports.h"
#include <cmath>

static S acc_report(const m::Cnt &p)
{
    m::Acc a;
    if (p.count) a.ch['a'] = cnt(p.count, std::min(p.count, p.missed));
    a.chars = p.count, a.errors = p.missed;
    if (p.missed) a.conf["{a}-{b}"] = cnt(p.missed, 0), a.total.sub = a.total.err = a.unmarked.sub = a.unmarked.err = p.missed;
    return m::render(a);
}
static S wac_report(const m::Cnt &p)
{
    return m::render(p.count ? mkwac({}, {{"zoo", p}}, 8) : m::Wac());
}
static void check(Ctx &c, bool words, const std::vector<m::Cnt> &pages)
{
    S tool = words ? "wordaccci" : "accci";
    VS a;
    std::vector<File> f;
    m::Cnt t;
    long nonempty = 0;
    for (size_t i = 0; i < pages.size(); i++) {
        a.push_back(fmt("r%zu", i));
        f.push_back({a.back(), words ? wac_report(pages[i]) : acc_report(pages[i])});
        t.add(pages[i]);
        nonempty += pages[i].count > 0;
    }
    Inv v(tool, a, f);
    Res r = c.run(v);
    if (pages.size() < 2) return refused(c, v, r, "not enough input files");
    if (nonempty < 2) return refused(c, v, r, "not enough observations");
    c.eq("status", 0, r.status);
    c.eq("stderr", S(), r.err);
    long n = pages.size();
    /* leave-one-out estimates, exactly rounded quotients of integers */
    long double th = 100.0L * (t.count - t.missed) / t.count, mean = 0, ss = 0;
    std::vector<long double> jk;
    for (auto &p : pages) {
        long double x = 100.0L * ((t.count - p.count) - (t.missed - p.missed)) / (t.count - p.count);
        jk.push_back(n * th - (n - 1) * x);
        mean += jk.back() / n;
    }
    for (auto x : jk) ss += (x - mean) * (x - mean);
    long double w = 1.96L * sqrtl(ss / (n - 1) / n);
    auto clamp = [](long double x) { return x < 0 ? 0.0L : x > 100 ? 100.0L : x; };
    long double lo = clamp(mean - w), hi = clamp(mean + w);
    VS l = lines(r.out);
    if (l.size() != 5) c.fail("%zu lines instead of 5: %s", l.size(), show(r.out).c_str());
    c.eq("observations", fmt("%14ld   Observations\n", n), l[0]);
    c.eq("total", fmt("%14ld   %s\n", t.count, words ? "Words" : "Characters"), l[1]);
    c.eq("total", fmt("%14ld   %s\n", t.missed, words ? "Misrecognized" : "Errors"), l[2]);
    c.eq("accuracy", fmt("%14.2f%%  Accuracy\n", 100.0 * (t.count - t.missed) / t.count), l[3]);
    double a1, a2;
    int end = 0;
    if (sscanf(l[4].c_str(), "%lf%%,%lf%%  Approximate 95%% Confidence Interval for Accuracy%n", &a1, &a2, &end) != 2 || (size_t) end + 1 != l[4].size()) c.fail("last line %s", show(l[4]).c_str());
    c.eq("layout of the interval", fmt("%6.2f%%,%6.2f%%  Approximate 95%% Confidence Interval for Accuracy\n", a1, a2), l[4]);
    if (fabsl(a1 - lo) > 0.0050001L || fabsl(a2 - hi) > 0.0050001L) c.fail("interval %.2f..%.2f instead of %.5Lf..%.5Lf", a1, a2, lo, hi);
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    std::vector<m::Cnt> pages = {cnt(0, 0), cnt(1, 0), cnt(1, 1), cnt(10, 1), cnt(7, 7), cnt(100, 33), cnt(1000, 999), cnt(3, 9), cnt(123456, 7)};
    std::vector<m::Cnt> wpages = {cnt(0, 0), cnt(1, 0), cnt(1, 1), cnt(10, 1), cnt(7, 7), cnt(100, 33), cnt(1000, 999), cnt(9, 3), cnt(123456, 7)};
    uint64_t n = pages.size();
    int L = T ? 5 : 4;
    uint64_t ns = nstr(n, L);
    for (int w = 0; w < 2; w++)
        k.add(w ? "wordaccci" : "accci", fmt("all lists of up to %d pages out of %zu (empty, perfect, all wrong, more errors than characters, large)", L, (size_t) n), ns - 1, [=](Ctx &c, uint64_t i) {
            std::vector<m::Cnt> p;
            for (int d : str(n, i + 1)) p.push_back(w ? wpages[d] : pages[d]);
            check(c, w, p);
        });
    k.add("grid", "two pages: all counts 1..12 and misses on both", 78 * 78 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto one = [&](uint64_t j) {
            long a = 1;
            while (j > (uint64_t) a) j -= a + 1, a++;
            return cnt(a, j);
        };
        m::Cnt p = one(x.of(78)), q = one(x.of(78));
        check(c, x.of(2), {p, q});
    });
    k.add("many", "5..60, 100 and 300 pages, empty ones among them", 60 * 6 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int m = x.of(60), how = x.of(6), w = x.of(2);
        m = m < 56 ? m + 5 : (m - 55) * 75;
        std::vector<m::Cnt> p;
        for (int j = 0; j < m; j++) {
            long c1 = how == 0 ? 1000 : how == 1 ? 1 : how == 2 ? j * j * 37 % 5000 + 1 : how == 3 ? (j % 3 ? 0 : 50 + j) : how == 4 ? 1000000000L + j : j % 11 + 1;
            p.push_back(cnt(c1, c1 ? (j * 131 + how) % (how == 5 ? c1 + 1 : c1 / 3 + 1) : 0));
        }
        check(c, w, p);
    }).limit = 120;
    k.fams.back().exec_sample = 8;
    k.add("magnitudes", "three pages with counts of every magnitude up to 10^15", 15 * 15 * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long a = ipow(10, x.of(15)), b = ipow(10, x.of(15));
        int h = x.of(3), w = x.of(2);
        check(c, w, {cnt(a + 1, h == 0 ? 0 : h == 1 ? a / 7 : a), cnt(b + 2, b / 3), cnt(50, 1)});
    });
    /* reports written by the tools */
    VS tx = {"", "a", "the cat", "cat", "x~", "\xC3\xA9t\xC3\xA9 a b c"};
    uint64_t nt = tx.size();
    k.add("written", "reports accuracy and wordacc wrote for all pairs of six texts, with two others", nt * nt * nt * nt, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S a = tx[x.of(nt)], b = tx[x.of(nt)], d = tx[x.of(nt)], e = tx[x.of(nt)];
        for (int w = 0; w < 2; w++) {
            S tool = w ? "wordacc" : "accuracy", ci = w ? "wordaccci" : "accci";
            S r1 = c.ok(tool, {"p", "q"}, {{"p", a}, {"q", b}}).out, r2 = c.ok(tool, {"p", "q"}, {{"p", d}, {"q", e}}).out;
            auto page = [&](const S &r) {
                VS l = lines(r);
                m::Cnt p;
                sscanf(l[2].c_str(), "%ld", &p.count), sscanf(l[3].c_str(), "%ld", &p.missed);
                return p;
            };
            /* the same figures in the plain reports give the same output */
            std::vector<m::Cnt> p = {page(r1), page(r2), cnt(20, 3)};
            auto mk = [&](const m::Cnt &q) { return w ? wac_report(q) : acc_report(q); };
            Res got = c.run(ci, {"a", "b", "c"}, {{"a", r1}, {"b", r2}, {"c", mk(p[2])}});
            Res ref = c.run(ci, {"a", "b", "c"}, {{"a", mk(p[0])}, {"b", mk(p[1])}, {"c", mk(p[2])}});
            c.eq(ci + " on written reports", ref.text(), got.text());
            check(c, w, p);
        }
    });
}
