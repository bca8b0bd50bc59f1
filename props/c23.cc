#include <list>
#include "common.h"

/* ---- lists: every history of K items over NL lists, D operations deep ---- */
struct LState {
    VS l; /* each list, a string of item digits */
};
struct LOp {
    S text;  /* as the driver reads it */
    S shows; /* what it prints besides the state */
};
static std::vector<LOp> enabled(const LState &s, int K)
{
    std::vector<LOp> v;
    S in;
    for (auto &x : s.l) in += x;
    for (size_t l = 0; l < s.l.size(); l++) {
        S L = std::to_string(l);
        for (int i = 0; i < K; i++) {
            S I = std::to_string(i);
            if (in.find(I) != S::npos) continue;
            v.push_back({"F" + L + I, ""});
            v.push_back({"L" + L + I, ""});
            for (char r : s.l[l]) {
                v.push_back({"B" + L + I + r, ""});
                v.push_back({"A" + L + r + I, ""});
            }
        }
        for (char r : s.l[l]) v.push_back({"R" + L + r, ""});
        S all;
        for (char r : s.l[l]) all += S("!") + r;
        v.push_back({"V" + L, "[" + s.l[l] + "]"});
        v.push_back({"E" + L, all});
    }
    return v;
}
static LState after(LState s, const S &o)
{
    S &l = s.l[o[1] - '0'];
    switch (o[0]) {
    case 'F': l = S(1, o[2]) + l; break;
    case 'L': l += o[2]; break;
    case 'B': l.insert(l.find(o[3]), 1, o[2]); break;
    case 'A': l.insert(l.find(o[2]) + 1, 1, o[3]); break;
    case 'R': l.erase(l.find(o[2]), 1); break;
    case 'E': l = "";
    }
    return s;
}
/* number of histories of D operations from a state with lists of these lengths */
static uint64_t histories(std::vector<int> sz, int K, int D)
{
    static std::map<std::pair<std::vector<int>, std::pair<int, int>>, uint64_t> memo;
    if (D == 0) return 1;
    auto k = std::make_pair(sz, std::make_pair(K, D));
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    int in = 0;
    uint64_t n = 0;
    for (int x : sz) in += x;
    for (auto &x : sz) {
        int o = x;
        x = o + 1;
        if (in < K) n += (uint64_t) (K - in) * (2 + 2 * o) * histories(sz, K, D - 1);
        x = o - 1;
        if (o) n += o * histories(sz, K, D - 1);
        x = o;
        n += histories(sz, K, D - 1);
        x = 0;
        n += histories(sz, K, D - 1);
        x = o;
    }
    return memo[k] = n;
}
static S shown(const LState &s)
{
    S r;
    for (auto &l : s.l) r += fmt(" %zu:", l.size()) + l + "/" + S(l.rbegin(), l.rend());
    return r + "\n";
}
static void list_case(Ctx &c, uint64_t q, int NL, int K, int D)
{
    LState s;
    s.l.assign(NL, "");
    S script = q & 1 ? "I" : "", expect;
    q >>= 1;
    for (int d = D; d > 0; d--) {
        for (auto &o : enabled(s, K)) {
            LState t = after(s, o.text);
            std::vector<int> sz;
            for (auto &l : t.l) sz.push_back(l.size());
            uint64_t h = histories(sz, K, d - 1);
            if (q < h) {
                script += o.text;
                expect += o.shows + shown(t);
                s = t;
                break;
            }
            q -= h;
        }
    }
    Res r = c.ok("containers", {fmt("l%d", NL), script}, {});
    c.eq("lists after each operation of " + script, expect, r.out);
}
/* ---- tables ---- */
struct TState {
    std::vector<int> where; /* of each key: -1 none, else the table */
};
static S table_shown(const TState &s, int t)
{
    int n = 0;
    S r;
    for (size_t i = 0; i < s.where.size(); i++) {
        bool in = s.where[i] == t;
        n += in;
        r += in ? fmt("%zu ", i) : S(". ");
    }
    return fmt("%d:", n) + r + "\n";
}
/* sorts the numbers inside [..] and the processed entries, whose order is not specified */
static S canonical(const S &s)
{
    S r;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '[' || s[i] == '!') {
            std::multiset<S> m;
            char open = s[i];
            size_t e;
            if (open == '[') {
                e = s.find(']', i);
                S body = s.substr(i + 1, e - i - 1), w;
                for (char ch : body)
                    if (ch == ' ') m.insert(w), w = "";
                    else w += ch;
                e++;
            } else {
                e = i;
                while (s[e] == '!') {
                    size_t b = s.find(' ', e);
                    m.insert(s.substr(e, b - e));
                    e = b + 1;
                }
            }
            r += open;
            for (auto &x : m) r += x + " ";
            r += ']';
            i = e;
        } else r += s[i++];
    }
    return r;
}
static void table_case(Ctx &c, uint64_t q, const VS &keys, int NT, int D)
{
    TState s;
    int K = keys.size();
    s.where.assign(K, -1);
    Mix x(q);
    S script = x.of(2) ? "I" : "", expect;
    int B = NT * (K + 2);
    for (int d = 0; d < D; d++) {
        int o = x.of(B), t = o % NT, w = o / NT;
        S T = std::to_string(t);
        if (w < K) {
            if (s.where[w] >= 0 && s.where[w] != t) return c.skip(); /* an entry is in one table only */
            script += (s.where[w] < 0 ? "+" : "-") + T + std::to_string(w);
            s.where[w] = s.where[w] < 0 ? t : -1;
        } else {
            bool array = w == K;
            script += (array ? "V" : "E") + T;
            S body;
            bool any = false;
            for (int i = 0; i < K; i++)
                if (s.where[i] == t) any = true, body += (array ? "" : "!") + std::to_string(i) + " ";
            if (array) expect += "[" + body + "]";
            else if (any) expect += body;
            if (!array)
                for (auto &y : s.where)
                    if (y == t) y = -1;
        }
        expect += table_shown(s, t);
    }
    VS a = {"t", script};
    a.insert(a.end(), keys.begin(), keys.end());
    Res r = c.ok("containers", a, {});
    c.eq("table after each operation of " + script, canonical(expect), canonical(r.out));
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    auto lists = [&](int NL, int K, int D) {
        k.add(fmt("lists-%d-%d-%d", NL, K, D), fmt("every history of %d operations (insert first/last/before/after, remove, array view, empty) on %d lists with %d items, statically and dynamically initialised; the whole state is compared after each operation", D, NL, K), 2 * histories(std::vector<int>(NL, 0), K, D), [=](Ctx &c, uint64_t i) { list_case(c, i, NL, K, D); });
    };
    lists(1, 2, T ? 9 : 7);
    lists(1, 3, T ? 7 : 6);
    lists(1, 4, T ? 6 : 5);
    lists(1, 6, T ? 5 : 4);
    lists(2, 2, T ? 6 : 5);
    lists(2, 3, T ? 5 : 4);
    lists(3, 2, T ? 5 : 4);
    S z = rep("z", 4000);
    struct KS {
        S what;
        VS keys;
        int nt, d;
    };
    std::vector<KS> ks = {
        {"same-bucket", {"ab", "ba", "ac", "aab", "\xC3", ""}, 1, T ? 7 : 5},
        {"permutations", {"abc", "acb", "bac", "bca", "cab", "cba"}, 1, T ? 7 : 5},
        {"sums-apart-by-the-table-size", {"z", "zzzzz\x15", "zzzzzzzzz(", "x", "zzzzz\x13"}, 1, T ? 7 : 5},
        {"high-bytes", {"\xFF", "\xFF\xF8", "\x80", "\x7F\x01", "\xC3\xA9"}, 1, T ? 7 : 5},
        {"prefixes", {"", "a", "aa", "aaa", "aab"}, 1, T ? 7 : 5},
        {"long", {z, z + "a", z + "b", "a" + z, z + z}, 1, T ? 5 : 4},
        {"two-tables", {"ab", "ba", "c"}, 2, T ? 6 : 5},
    };
    for (auto &x : ks)
        k.add("table-" + x.what, fmt("every history of %d operations (insert, remove, array view, empty) on %d tables with %zu keys; every key is looked up after each operation", x.d, x.nt, x.keys.size()), 2 * ipow(x.nt * (x.keys.size() + 2), x.d), [=](Ctx &c, uint64_t i) { table_case(c, i, x.keys, x.nt, x.d); });
    k.add("table-twins", "keys of the same bytes that first differ after 0..300, ... 100000 bytes", n_twins * 3, [=](Ctx &c, uint64_t i) {
        auto t = twins(i % n_twins, i / n_twins);
        if (t.first.size() > 100000) return c.skip(); /* longer than an argument may be */
        VS a = {"t", "+00+01-00+02E0+01V0-01", t.first, t.second, t.first + "x"};
        TState s;
        s.where.assign(3, -1);
        S expect, script = a[1];
        for (size_t p = 0; p < script.size();) {
            char op = script[p];
            if (op == '+' || op == '-') s.where[script[p + 2] - '0'] = op == '+' ? 0 : -1, p += 3;
            else {
                S body;
                for (int j = 0; j < 3; j++)
                    if (s.where[j] == 0) body += (op == 'V' ? "" : "!") + std::to_string(j) + " ";
                expect += op == 'V' ? "[" + body + "]" : body;
                if (op == 'E') s.where.assign(3, -1);
                p += 2;
            }
            expect += table_shown(s, 0);
        }
        c.eq("table", canonical(expect), canonical(c.ok("containers", a, {}).out));
    });
    /* many entries */
    static const int sizes[] = {1, 2, 502, 503, 504, 505, 1006, 1007, 1509, 2500};
    k.add("table-many", "tables with 1..2500 entries of six kinds of keys, of which each second, third, ... one is removed", 10 * 6 * 5, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int n = sizes[x.of(10)], kind = x.of(6), step = x.of(5) + 1;
        VS keys;
        for (int i = 0; i < n; i++) {
            static const int pr[] = {1, 7, 31};
            switch (kind) {
            case 0: keys.push_back(fmt("%d", i)); break;
            case 1: keys.push_back(fmt("%c%c", 1 + i % 255, 1 + i / 255)); break;
            case 2: keys.push_back(rep("a", i)); break;
            case 3: keys.push_back(cp(0x4E00 + i)); break;
            case 4: keys.push_back(fmt("%d%c", i * pr[i % 3], 'a' + i % 26) + rep("x", i % 5)); break;
            default: keys.push_back(fmt("k%08d", (i * 7919) % 100000000));
            }
        }
        std::set<S> u(keys.begin(), keys.end());
        if (u.size() != keys.size()) keys.assign(u.begin(), u.end());
        n = keys.size();
        S script, expect;
        auto state = [&](int gone) {
            S s;
            int m = 0;
            for (int i = 0; i < n; i++)
                if (gone && i % gone == 0) s += ". ";
                else s += fmt("%d ", i), m++;
            return fmt("%d:", m) + s + "\n";
        };
        auto arr = [&](int gone, bool proc) {
            S s;
            for (int i = 0; i < n; i++)
                if (!gone || i % gone) s += (proc ? "!" : "") + fmt("%d ", i);
            return proc ? s : "[" + s + "]";
        };
        int m = 0;
        for (int i = 0; i < n; i++) script += fmt("+0%d ", i), expect += fmt("%d:\n", ++m);
        script += "V0", expect += arr(0, false) + fmt("%d:\n", m);
        script += "S0", expect += state(0);
        for (int i = 0; i < n; i += step) script += fmt("-0%d ", i), expect += fmt("%d:\n", --m);
        script += "S0", expect += state(step);
        script += "V0", expect += arr(step, false) + fmt("%d:\n", m);
        script += "E0", expect += arr(step, true) + "0:\n";
        script += "S0", expect += state(1);
        script += "V0", expect += "[]0:\n";
        for (int i = 0; i < n; i++) script += fmt("+0%d ", i), expect += fmt("%d:\n", i + 1);
        script += "S0", expect += state(0);
        VS a = {"tq", script};
        a.insert(a.end(), keys.begin(), keys.end());
        Res r = c.ok("containers", a, {});
        c.eq("table", canonical(expect), canonical(r.out));
    }).exec_sample = 30;
    /* sort */
    auto sorted = [](Ctx &c, const VS &in, bool up) {
        VS a = {up ? "su" : "sd"};
        S expect;
        for (auto &s : in) {
            a.push_back("=" + s);
            S t = s;
            std::sort(t.begin(), t.end());
            if (!up) std::reverse(t.begin(), t.end());
            expect += t + "\n";
        }
        c.eq("sorted", expect, c.ok("containers", a, {}).out);
    };
    int L = T ? 9 : 8;
    for (int n = 0; n <= L; n++) {
        int kk = n <= 7 ? std::max(n, 1) : n == 8 ? (T ? 8 : 5) : 4;
        /* the last two positions vary within one run */
        int in = std::min(n, 2);
        k.add(fmt("sort-%d", n), fmt("all sequences of %d elements of %d values, ascending and descending", n, kk), 2 * ipow(kk, n - in), [=](Ctx &c, uint64_t q) {
            Mix x(q);
            bool up = x.of(2);
            S s;
            for (int i = 0; i < n - in; i++) s += char('a' + x.of(kk));
            VS all;
            for (uint64_t j = 0; j < ipow(kk, in); j++) {
                Mix y(j);
                S t = s;
                for (int i = 0; i < in; i++) t += char('a' + y.of(kk));
                all.push_back(t);
            }
            sorted(c, all, up);
        });
    }
    k.add("list-large", "lists of 100 to 140000 items put first, last, before the last or after the first, with each k-th item removed, put on again, and emptied: count, both directions and the array", 8 * 4 * 4 * 4, [=](Ctx &c, uint64_t q) {
        static const int sz[] = {100, 255, 256, 32767, 32768, 65535, 65536, 140000}, st[] = {1, 2, 3, 1000};
        Mix x(q);
        int n = sz[x.of(8)], step = st[x.of(4)];
        char f1 = "FLBA"[x.of(4)], f2 = "FLBA"[x.of(4)];
        std::list<long> l;
        long id = 0;
        S script, expect;
        auto h = [](unsigned long a, long i) { return (a ^ (unsigned long) i) * 1099511628211UL; };
        auto show = [&](char op) {
            unsigned long a = 0, b = 0;
            for (long i : l) a = h(a, i);
            for (auto i = l.rbegin(); i != l.rend(); ++i) b = h(b, *i);
            expect += fmt("%c %zu %lx %lx %lx\n", op, l.size(), a, b, op == 'V' ? a : 0UL);
        };
        auto put = [&](char op, long m) {
            script += fmt("%c%ld", op, m);
            for (long i = 0; i < m; i++) {
                if (op == 'F' || l.empty()) l.push_front(id++);
                else if (op == 'L') l.push_back(id++);
                else if (op == 'B') l.insert(std::prev(l.end()), id++);
                else l.insert(std::next(l.begin()), id++);
            }
            show(op);
        };
        auto view = [&] { script += "V", show('V'); };
        put(f1, n), view(), put(f2, 3), view();
        script += fmt("R%d", step);
        long i = 1;
        for (auto p = l.begin(); p != l.end(); i++) p = i % step == 0 ? l.erase(p) : std::next(p);
        show('R'), view(), put(f1, 7), view();
        script += "E", l.clear(), show('E'), view(), put(f2, 2), view();
        Res r = c.ok("containers", {"m", script}, {});
        c.eq("the list after each of " + script, expect, r.out);
    });
    k.add("table-large", "tables of 100 to 65536 entries, each k-th of which is removed, then emptied: count, array and every look-up", 7 * 3, [=](Ctx &c, uint64_t q) {
        static const int sz[] = {100, 255, 256, 32767, 32768, 65535, 65536}, st[] = {1, 2, 1000};
        Mix x(q);
        long n = sz[x.of(7)], step = st[x.of(3)], left = 0;
        unsigned long a = 0, b = 0;
        auto h = [](long i) { return (0x9E3779B97F4A7C15UL ^ (unsigned long) i) * 1099511628211UL; };
        for (long i = 0; i < n; i++) {
            a += h(i + 1);
            if (i % step) b += h(i + 1), left++;
        }
        Res r = c.ok("containers", {"M", fmt("%ld", n), fmt("%ld", step)}, {});
        c.eq("count, entries of the array, wrong look-ups: all, after the removals, and emptied", fmt("%ld %lx 0\n%ld %lx 0\n0 0 0\n", n, a, left, b), r.out);
    });
    k.add("sort-0-1", fmt("all sequences of two values of length 9..%d", T ? 20 : 16), [=] {
        uint64_t n = 0;
        for (int l = 9; l <= (T ? 20 : 16); l++) n += ipow(2, l - 4);
        return 2 * n;
    }(), [=](Ctx &c, uint64_t q) {
        bool up = q & 1;
        q >>= 1;
        int l = 9;
        while (q >= ipow(2, l - 4)) q -= ipow(2, l - 4), l++;
        VS all;
        for (int j = 0; j < 16; j++) {
            S s;
            for (int i = 0; i < l; i++) s += (((q << 4 | j) >> i) & 1) ? 'b' : 'a';
            all.push_back(s);
        }
        sorted(c, all, up);
    });
    int P = T ? 10 : 9;
    k.add("sort-permutations", fmt("all permutations of 8..%d elements", P), [=] {
        uint64_t n = 0, f = 5040;
        for (int l = 8; l <= P; l++) f *= l, n += f / 24;
        return 2 * n;
    }(), [=](Ctx &c, uint64_t q) {
        bool up = q & 1;
        q >>= 1;
        uint64_t f = 40320;
        int l = 8;
        while (q >= f / 24) q -= f / 24, l++, f *= l;
        /* the first l-4 choices from the case, the last four vary within the run */
        S rest;
        for (int i = 0; i < l; i++) rest += char('a' + i);
        S s;
        Mix x(q);
        for (int i = l; i > 4; i--) {
            int d = x.of(i);
            s += rest[d];
            rest.erase(d, 1);
        }
        VS all;
        do all.push_back(s + rest);
        while (std::next_permutation(rest.begin(), rest.end()));
        sorted(c, all, up);
    });
    static const long ns[] = {10, 31, 32, 33, 64, 100, 127, 128, 129, 1000, 1023, 1024, 1025, 10000, 65535, 65536, 100000, 300000};
    S kinds = "udcvsS2hbefmzrto";
    k.add("sort-large", "10 to 300000 elements in ascending, descending, constant, periodic, two-valued, nearly sorted, interleaved, rising-and-falling and irregular order", 2 * 18 * kinds.size(), [=](Ctx &c, uint64_t q) {
        Mix x(q);
        bool up = x.of(2);
        long n = ns[x.of(18)];
        char kd = kinds[x.of(kinds.size())];
        if ((kd == 'o' || kd == 'v') && n > 10000) return c.skip(); /* takes quadratic time, in the correct order */
        c.eq("sort", S("\n"), c.ok("containers", {up ? "su" : "sd", fmt("%c%ld", kd, n)}, {}).out);
    });
    k.assumptions = {"the order of the entries in a table's array view and while it is emptied is not specified", "entries are inserted with keys that are not in the table, as all callers do"};
    k.rule = "one state per history (of the greatest length: every shorter one is its beginning) or initial order";
}
