#include "common.h"

static long cost(const m::Edo &e, int T)
{
    long s = e.ins;
    for (auto &x : e.move) s += x.second * (x.first >= T ? T : x.first);
    return s;
}
static S table(const m::Edo &e, const m::Edo *less = nullptr)
{
    S s;
    for (int t = 0; t <= 100; t++) s += fmt("%3d %10ld\n", t, cost(e, t) - (less ? cost(*less, t) : 0));
    return s;
}
static void one(Ctx &c, const m::Edo &e) { c.eq("editopcost", table(e), c.ok("editopcost", {"r"}, {{"r", m::render(e)}}).out); }
static void two(Ctx &c, const m::Edo &e, const m::Edo &f) { c.eq("editopcost of a difference", table(e, &f), c.ok("editopcost", {"r", "q"}, {{"r", m::render(e)}, {"q", m::render(f)}}).out); }
static m::Edo mk(long ins, long del, std::vector<std::pair<long, long>> mv)
{
    m::Edo e;
    e.ins = ins, e.del = del;
    for (auto &x : mv)
        if (x.second) e.move[x.first] += x.second, e.moves += x.second;
    return e;
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    k.add("one-length", "a report with moves of one length, 1..100, at 14 magnitudes, with and without insertions", 100 * 14 * 3, [=](Ctx &c, uint64_t i) {
        static const long big[] = {1, 2, 9, 10, 99, 1000, 32767, 32768, 65536, 999999, 10000000, 99999999, 100000000, 21474837};
        Mix x(i);
        long l = x.of(100) + 1, n = big[x.of(14)], ins = x.of(3);
        one(c, mk(ins == 0 ? 0 : ins == 1 ? 7 : 3000000000, ins, {{l, n}}));
    });
    k.add("two-lengths", "moves of two lengths: all pairs of lengths and counts 0..3", 100 * 100 * 16, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long a = x.of(100) + 1, b = x.of(100) + 1, n = x.of(4), p = x.of(4);
        one(c, mk(a % 3, b % 2, {{a, n}, {b, p}}));
    });
    std::vector<m::Edo> pool = {mk(0, 0, {}), mk(5, 9, {}), mk(0, 3, {{1, 4}}), mk(1, 1, {{100, 1}}), mk(2, 0, {{99, 3}, {100, 2}, {1, 1}}), mk(0, 0, {{50, 7}, {51, 7}}), mk(1000000000, 0, {{100, 12345678}}), mk(5000000000, 1, {{2, 1000000000}})};
    {
        std::vector<std::pair<long, long>> all;
        for (long i = 1; i <= 100; i++) all.push_back({i, i * 37 % 101});
        pool.push_back(mk(17, 4, all));
    }
    for (int l = 1; l <= 100; l += 9) pool.push_back(mk(l % 4, 2, {{l, l % 5 + 1}, {101 - l, 2}}));
    uint64_t np = pool.size();
    k.add("differences", "all ordered pairs of a pool of reports, identical ones included (all zero)", np * np, [=](Ctx &c, uint64_t i) { two(c, pool[i % np], pool[i / np]); });
    k.add("lengths-difference", "one length in the first report against one in the second: all pairs", 100 * 100 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        long a = x.of(100) + 1, b = x.of(100) + 1, n = x.of(2) + 1;
        two(c, mk(1, 0, {{a, n}}), mk(3, 0, {{b, 2}}));
    });
    /* from texts, through editop and editopsum */
    VS al = {"a", "b", "c"};
    int L = T ? 5 : 4;
    uint64_t n = nstr(3, L);
    k.add("from-texts", fmt("editop on all pairs of texts over 3 characters up to %d long, its report costed; and summed with a fixed one", L), n * n, [=](Ctx &c, uint64_t i) {
        S a = strs(al, i % n), b = strs(al, i / n);
        m::Edo e = m::editop(rd(a), rd(b)), f = mk(3, 1, {{2, 2}, {100, 1}}), g = e;
        g.add(f);
        S r = c.ok("editop", {"c", "g"}, {{"c", a}, {"g", b}}).out;
        c.eq("cost of editop's report", table(e), c.ok("editopcost", {"r"}, {{"r", r}}).out);
        S s = c.ok("editopsum", {"r", "q"}, {{"r", r}, {"q", m::render(f)}}).out;
        c.eq("cost of the sum less the fixed report", table(e), c.ok("editopcost", {"s", "q"}, {{"s", s}, {"q", m::render(f)}}).out);
    });
    k.add("inputs", "report from a pipe-like short-read input, to a named output, and with 0, 3 or 4 reports", 8, [=](Ctx &c, uint64_t i) {
        S r = m::render(pool[4]);
        VS a(i % 4 == 0 ? 3 : i % 4 == 1 ? 4 : 1, "r");
        Inv v("editopcost", a, {{"r", r}});
        if (i >= 4) v.env.chunk = 1, v.env.pipes = true;
        Res x = c.run(v);
        if (a.size() > 2) { if (x.status == 0) c.fail("%zu reports accepted", a.size()); }
        else c.eq("editopcost", table(pool[4]), x.out);
    });
}
