#include "reports.h"

static S acc_report(const m::Cnt &p)
{
    m::Acc a;
    if (p.count) a.ch['a'] = cnt(p.count, std::min(p.count, p.missed));
    a.chars = p.count, a.errors = p.missed;
    if (p.missed) a.conf["{a}-{b}"] = cnt(p.missed, 0), a.total.sub = a.total.err = a.unmarked.sub = a.unmarked.err = p.missed;
    return m::render(a);
}
static S wac_report(const m::Cnt &p) { return m::render(p.count ? mkwac({}, {{"zoo", p}}, 8) : m::Wac()); }
static void check(Ctx &c, bool words, const std::vector<m::Cnt> &pages)
{
    VS a;
    std::vector<File> f;
    for (size_t i = 0; i < pages.size(); i++) {
        a.push_back(fmt("r%zu", i));
        f.push_back({a.back(), words ? wac_report(pages[i]) : acc_report(pages[i])});
    }
    c.eq("distribution", dist(pages), c.ok(words ? "wordaccdist" : "accdist", a, f).out);
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    std::vector<m::Cnt> pages = {cnt(0, 0), cnt(1, 0), cnt(1, 1), cnt(10, 1), cnt(100, 33), cnt(1000, 999), cnt(3, 9), cnt(123456, 7), cnt(0, 4), cnt(200, 1), cnt(8, 1)};
    std::vector<m::Cnt> wpages = {cnt(0, 0), cnt(1, 0), cnt(1, 1), cnt(10, 1), cnt(100, 33), cnt(1000, 999), cnt(9, 3), cnt(123456, 7), cnt(2, 2), cnt(200, 1), cnt(8, 1)};
    uint64_t n = pages.size();
    int L = T ? 5 : 4;
    uint64_t ns = nstr(n, L);
    for (int w = 0; w < 2; w++)
        k.add(w ? "wordaccdist" : "accdist", fmt("all lists of up to %d pages out of %zu", L, (size_t) n), ns - 1, [=](Ctx &c, uint64_t i) {
            std::vector<m::Cnt> p;
            for (int d : str(n, i + 1)) p.push_back(w ? wpages[d] : pages[d]);
            check(c, w, p);
        });
    k.add("boundaries", "a page of count n with m missed for all n up to 150: every boundary of a per cent, with another page", 150 * 151 / 2 + 150, [=](Ctx &c, uint64_t i) {
        long a = 1;
        uint64_t j = i;
        while (j > (uint64_t) a) j -= a + 1, a++;
        check(c, i & 1, {cnt(a, j), cnt(37, 2)});
        check(c, !(i & 1), {cnt(a, j)});
    });
    k.add("large", "pages of 10^k characters, and near powers of two, at, just below and just above each per cent from -3 to 100", 104 * 5 * 22 * 2, [=](Ctx &c, uint64_t i) {
        static const long odd[] = {150, 997, 1001, 65535, 65537, 2147483647, 2147483648, 4294967297, 99999999};
        Mix x(i);
        long pc = (long) x.of(104) - 3, off = (long) x.of(5) - 2;
        int z = x.of(22);
        long size = z < 13 ? 100 * ipow(10, z) : odd[z - 13];
        long right = (long) ((__int128) size * pc / 100) + off;
        int w = x.of(2);
        if (right > size || (w && right < 0)) return c.skip();
        check(c, w, {cnt(size, size - right), cnt(size / 2, 0)});
    });
    k.add("more-errors", "pages with up to five times as many errors as characters", 60 * 5, [=](Ctx &c, uint64_t i) { check(c, false, {cnt(i % 60 + 1, (i % 60 + 1) * (i / 60 + 1) + i % 3), cnt(11, 2)}); });
    k.add("many", "1..40, 100, 1000 and 3000 pages", 43 * 2 * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int m = x.of(43), w = x.of(2), how = x.of(3);
        m = m < 40 ? m + 1 : m == 40 ? 100 : m == 41 ? 1000 : 3000;
        std::vector<m::Cnt> p;
        for (int j = 0; j < m; j++) {
            long c1 = how == 0 ? 100 : how == 1 ? j % 5 * 11 : j * j % 997;
            p.push_back(cnt(c1, c1 ? j * 7 % (c1 + 1) : 0));
        }
        check(c, w, p);
    }).limit = 200;
    k.fams.back().exec_sample = 8;
    VS tx = {"", "a", "the cat", "cat", "x~", "\xC3\xA9t\xC3\xA9 a b c"};
    uint64_t nt = tx.size();
    k.add("written", "reports accuracy and wordacc wrote for all pairs of six texts, with another page of six", nt * nt * nt * nt, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S a = tx[x.of(nt)], b = tx[x.of(nt)], d = tx[x.of(nt)], e = tx[x.of(nt)];
        for (int w = 0; w < 2; w++) {
            S tool = w ? "wordacc" : "accuracy";
            S r1 = c.ok(tool, {"p", "q"}, {{"p", a}, {"q", b}}).out, r2 = c.ok(tool, {"p", "q"}, {{"p", d}, {"q", e}}).out;
            auto page = [&](const S &r) {
                VS l = lines(r);
                m::Cnt p;
                sscanf(l[2].c_str(), "%ld", &p.count), sscanf(l[3].c_str(), "%ld", &p.missed);
                return p;
            };
            c.eq("distribution", dist({page(r1), page(r2)}), c.ok(w ? "wordaccdist" : "accdist", {"a", "b"}, {{"a", r1}, {"b", r2}}).out);
        }
    });
}
