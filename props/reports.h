#pragma once
/* pools of synthetic reports, and report constructors */
#include "common.h"

static inline m::Cnt cnt(long a, long b)
{
    m::Cnt c;
    c.count = a, c.missed = b;
    return c;
}
/* a consistent report from characters and confusions */
static inline m::Acc mkacc(const std::vector<std::pair<m::U, m::Cnt>> &ch, const std::vector<std::pair<S, m::Cnt>> &conf, long rej = 0, long sus = 0, long fal = 0)
{
    m::Acc a;
    for (auto &x : ch) a.ch[x.first].add(x.second), a.chars += x.second.count;
    long k = 0;
    for (auto &x : conf) {
        a.conf[x.first].add(x.second);
        a.errors += x.second.count;
        m::Ops mk, un;
        long u = x.second.count - x.second.missed;
        mk.err = x.second.missed, un.err = u;
        switch (k++ % 3) {
        case 0: mk.sub = mk.err, un.sub = u; break;
        case 1: mk.ins = mk.err, un.ins = u; break;
        default: mk.del = mk.err, un.del = u;
        }
        a.marked.add(mk), a.unmarked.add(un), a.total.add(mk), a.total.add(un);
    }
    a.rejects = rej, a.suspects = sus, a.falses = fal;
    return a;
}
static inline std::vector<m::Acc> accs()
{
    std::vector<m::Acc> v;
    v.push_back(m::Acc());
    v.push_back(mkacc({}, {{"{}-{x}", cnt(3, 1)}}, 1, 0, 0));
    v.push_back(mkacc({{'a', cnt(1, 0)}}, {}));
    v.push_back(mkacc({{'a', cnt(7, 2)}, {'b', cnt(9, 9)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2));
    v.push_back(mkacc({{' ', cnt(5, 1)}, {'\n', cnt(2, 2)}, {'<', cnt(1, 1)}, {'>', cnt(1, 0)}, {'{', cnt(3, 0)}, {'}', cnt(4, 1)}, {'-', cnt(8, 3)}},
                      {{"{ }-{}", cnt(1, 0)}, {"{<\\n>}-{}", cnt(2, 1)}, {"{<}-{>}", cnt(1, 1)}, {"{}}-{{}", cnt(1, 0)}, {"{-}-{-}-{-}", cnt(3, 0)}}, 0, 9, 0));
    v.push_back(mkacc({{1, cnt(1, 1)}, {0x7F, cnt(2, 0)}, {0x9F, cnt(3, 2)}, {0x301, cnt(4, 4)}, {0x10FFFF, cnt(5, 0)}, {0xE9, cnt(6, 0)}, {0x1D400, cnt(1, 0)}, {0x4E00, cnt(2, 1)}},
                      {{"{<01>}-{}", cnt(1, 1)}, {"{" + m::repr(false, 0x301, true) + "}-{\xC3\xA9}", cnt(4, 0)}, {"{" + cp(0x4E00) + "}-{" + cp(0x1D400) + "}", cnt(1, 0)}}, 1, 1, 1));
    v.push_back(mkacc({{'a', cnt(99999999, 1000000)}, {'z', cnt(1, 0)}}, {{"{a}-{z}", cnt(999999, 999999)}, {"{a}-{b}", cnt(1, 0)}}, 99999999, 12345678, 99999999));
    v.push_back(mkacc({{'a', cnt(100000000, 100000000)}, {'b', cnt(5000000000, 4999999999)}}, {{"{a}-{}", cnt(100000000, 1)}, {"{b}-{a}", cnt(4999999999, 4999999999)}}, 3000000000, 4000000000, 6000000000));
    v.push_back(mkacc({{'x', cnt(1, 0)}}, {{"{" + rep("m", 24) + "}-{" + rep("n", 24) + "}", cnt(24, 0)}, {"{" + rep("m", 24) + "...}-{" + rep("n", 24) + "...}", cnt(30, 30)}, {"{" + rep(cp(0x4E00), 8) + "...}-{}", cnt(9, 0)}}));
    v.push_back(mkacc({{'q', cnt(10, 3)}}, {{"{a}-{b}", cnt(2147483648L, 5)}, {"{q}-{p}", cnt(2147483647L, 0)}, {"{q}-{r}", cnt(2147483646L, 2147483646L)}}));
    { /* more confusions than the table has buckets, and one of every class */
        std::vector<std::pair<S, m::Cnt>> f;
        std::vector<std::pair<m::U, m::Cnt>> ch;
        for (int i = 0; i < 700; i++) f.push_back({fmt("{%d}-{%d}", i, i % 7), cnt(i % 4 + 1, i % 2)});
        std::set<int> seen;
        for (m::U u = 1; u < 0x30000; u++)
            if (!(u >= 0xD800 && u < 0xE000) && seen.insert(m::char_class(u)).second) ch.push_back({u, cnt(u % 90 + 1, u % 3 ? 0 : 1)});
        v.push_back(mkacc(ch, f, 2, 3, 4));
    }
    { /* keys that share a bucket under any additive or positional hash: permutations */
        std::vector<std::pair<S, m::Cnt>> f;
        S p = "abcde";
        do f.push_back({"{" + p + "}-{" + S(p.rbegin(), p.rend()) + "}", cnt(1 + f.size() % 3, f.size() % 2)});
        while (std::next_permutation(p.begin(), p.end()));
        v.push_back(mkacc({{'a', cnt(500, 20)}}, f));
    }
    return v;
}
static inline m::Wac mkwac(const std::vector<std::pair<S, m::Cnt>> &stop, const std::vector<std::pair<S, m::Cnt>> &non, long phr)
{
    m::Wac w;
    auto put = [&](const std::vector<std::pair<S, m::Cnt>> &l, std::map<long, m::Cnt> &sec, std::map<S, m::Cnt> &term) {
        for (auto &x : l) {
            sec[0].add(x.second), sec[m::length_class(x.first)].add(x.second), term[x.first].add(x.second), w.total.add(x.second);
        }
    };
    put(stop, w.stop, w.stopterm);
    put(non, w.nonstop, w.nonterm);
    for (auto &x : w.nonterm) {
        m::Cnt c = cnt(1, x.second.count == x.second.missed);
        w.distinct[0].add(c), w.distinct[std::min(x.second.count, 11L)].add(c);
    }
    for (long i = 1; i <= phr; i++) w.phrase[i] = cnt(w.total.count - i + 1 > 0 ? w.total.count - i + 1 : 1, std::min(w.total.missed * i, w.total.count - i + 1));
    return w;
}
static inline std::vector<m::Wac> wacs()
{
    std::vector<m::Wac> v;
    v.push_back(m::Wac());
    v.push_back(mkwac({{"the", cnt(3, 1)}}, {}, 3));
    v.push_back(mkwac({}, {{"zebra", cnt(2, 2)}}, 2));
    v.push_back(mkwac({{"a", cnt(5, 0)}, {"the", cnt(9, 4)}}, {{"apple", cnt(1, 0)}, {"banana", cnt(10, 10)}, {"cherry", cnt(11, 3)}, {"date", cnt(12, 0)}}, 8));
    v.push_back(mkwac({{"\xC3\xA0", cnt(1, 1)}}, {{"\xC3\xA9t\xC3\xA9", cnt(4, 1)}, {cp(0x4E00), cnt(2, 0)}, {cp(0x1D7D9) + "9", cnt(7, 7)}, {cp(0xE000), cnt(1, 0)}, {"_", cnt(3, 0)}, {"can't", cnt(2, 1)}, {"3.14", cnt(1, 0)}}, 8));
    v.push_back(mkwac({{"a", cnt(99999999, 5)}}, {{"b", cnt(100000000, 100000000)}, {"apple", cnt(5000000000, 1)}}, 8));
    {
        std::vector<std::pair<S, m::Cnt>> s, n;
        for (int l = 1; l <= 60; l++) s.push_back({rep("s", l), cnt(l, l / 2)}), n.push_back({rep(cp(l % 2 ? 0xE9 : 0x4E00), l), cnt(l % 14 + 1, l % 3)});
        n.push_back({rep("w", 127), cnt(1, 1)}), n.push_back({rep("w", 128), cnt(1, 0)}), n.push_back({rep("w", 200), cnt(2, 0)}), n.push_back({rep(cp(0x10400), 120), cnt(1, 0)});
        v.push_back(mkwac(s, n, 8));
    }
    {
        std::vector<std::pair<S, m::Cnt>> n;
        for (int i = 0; i < 1200; i++) n.push_back({fmt("w%d", i * 7), cnt(i % 13 + 1, i % 5 == 0 ? i % 13 + 1 : 0)});
        v.push_back(mkwac({}, n, 8));
    }
    return v;
}
static inline std::vector<m::Edo> edos()
{
    std::vector<m::Edo> v;
    auto mk = [&](long ins, long del, std::vector<std::pair<long, long>> mv) {
        m::Edo e;
        e.ins = ins, e.del = del;
        for (auto &x : mv) e.move[x.first] += x.second, e.moves += x.second;
        v.push_back(e);
    };
    mk(0, 0, {});
    mk(1, 0, {});
    mk(0, 7, {{1, 1}});
    mk(3, 2, {{1, 5}, {2, 1}, {99, 2}, {100, 4}});
    mk(99999999, 100000000, {{50, 99999999}});
    mk(5000000000, 3000000000, {{7, 5000000000}, {100, 100000000}});
    std::vector<std::pair<long, long>> all;
    for (long i = 1; i <= 100; i++) all.push_back({i, i * 37 % 101 + 1});
    mk(12, 13, all);
    return v;
}
