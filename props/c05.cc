#include "common.h"

static bool scalar(m::U u) { return u < 0xD800 || u >= 0xE000; }

void vx::define(Check &k)
{
    int B = 128;
    uint64_t nb = 0x110000 / B;
    k.add("report", "every code point in the correct and generated text, some missed: the accuracy report, and what accsum, groupacc, accci and accdist read back from it", nb, [=](Ctx &c, uint64_t i) {
        S a, g, all;
        for (m::U u = i * B; u < (i + 1) * B; u++) {
            if (!scalar(u)) continue;
            S x = cp(u);
            a += rep(x + "#", 1 + u % 3);
            g += rep((u + i) % 5 == 0 ? "#" : x + "#", 1 + u % 3);
            if (u != '^') all = x + all;
        }
        if (a.empty()) return c.skip();
        Text ta = rd(a), tg = rd(g);
        Res s = c.ok("synctext", {"c", "g"}, {{"c", a}, {"g", g}});
        m::Acc acc = m::account(m::parse_sync(s.out, {ta, tg}, {"c", "g"}, false), ta, tg);
        Res r = c.ok("accuracy", {"c", "g"}, {{"c", a}, {"g", g}});
        c.eq("accuracy report", m::render(acc), r.out);
        m::Acc twice = acc;
        twice.add(acc);
        c.eq("accsum of the report with itself", m::render(twice), c.ok("accsum", {"r", "r"}, {{"r", r.out}}).out);
        c.eq("groupacc", groupacc(all, acc), c.ok("groupacc", {"g", "r"}, {{"g", all}, {"r", r.out}}).out);
        if (i % 16 == 0) {
            m::Cnt p;
            p.count = acc.chars, p.missed = acc.errors;
            c.eq("accdist", dist({p, p}), c.ok("accdist", {"r", "r"}, {{"r", r.out}}).out);
            S ci = c.ok("accci", {"r", "r"}, {{"r", r.out}}).out;
            S head = fmt("%14d   Observations\n%14ld   Characters\n%14ld   Errors\n", 2, 2 * acc.chars, 2 * acc.errors);
            c.expect(starts(ci, head), "accci figures differ");
        }
    }).limit = 60;
    k.add("alone", "every code point as the whole text of accuracy (batched where it leaves no trace): counted once, in its class", 0x110000 / 16, [=](Ctx &c, uint64_t i) {
        /* one of 16, a different one in each block, plus all in ASCII, Latin-1 and at the edges of planes */
        for (m::U u = i * 16; u < (i + 1) * 16; u++) {
            bool take = u % 16 == (i * 7) % 16 || u < 0x400 || (u & 0xFFFF) >= 0xFFF0 || (u & 0xFFFF) < 0x10 || u >= 0x10FFF0;
            if (!take || !scalar(u) || i % (c.thorough ? 1 : 4)) continue;
            S x = cp(u);
            Text t = rd(x);
            m::Acc acc;
            acc.chars = 0;
            for (auto &ch : t) {
                if (ch.v == '~') { acc.errors = 0; continue; }
                acc.chars++, acc.ch[ch.v].count++;
            }
            if (x == "~") acc.rejects = 1;
            c.eq("accuracy of one character", m::render(acc), c.ok("accuracy", {"c", "c"}, {{"c", x}}).out);
        }
    }).limit = 60;
    k.add("shown", "every code point, plain and suspect, as shown by synctext (matched and not, -s or not, -H, -T), vote, ngram and editop's report", nb, [=](Ctx &c, uint64_t i) {
        S f, e;
        for (m::U u = i * B; u < (i + 1) * B; u++) {
            if (!scalar(u)) continue;
            f += "(" + cp(u) + ")^" + cp(u) + "|";
            if (u % 8 == i % 8) e += "(" + cp(u) + cp(u) + ")" ;
        }
        if (f.empty()) return c.skip();
        Text t = rd(f), te = rd(e);
        for (const char *o : {"-s", "-sH", "-H"}) {
            VS args = S(o) == "-sH" ? VS{"-s", "-H", "p", "q"} : VS{o, "p", "q"};
            if (S(o) != "-s" && i >= 600 && !c.thorough) break; /* the quadratic ones for the first planes */
            bool sus = S(o) != "-H";
            m::parse_sync(c.ok("synctext", args, {{"p", f}, {"q", f}}).out, {t, t}, {"p", "q"}, sus);
            m::parse_sync(c.ok("synctext", args, {{"p", f}, {"q", e}}).out, {t, te}, {"p", "q"}, sus);
        }
        m::TAlign x, y;
        if (i < 600 || c.thorough) {
            m::transpose(te, te, x, y);
            c.eq("synctext -T", m::render_transposed(x, te, y, te, false), c.ok("synctext", {"-T", "p", "q"}, {{"p", e}, {"q", e}}).out);
        }
        S v;
        for (auto &ch : t) v += m::repr(false, ch.v, false);
        c.eq("vote of identical texts", v, c.ok("vote", {"p", "q"}, {{"p", f}, {"q", f}}).out);
        v = "";
        for (auto &ch : t) v += m::repr(ch.v != '~', ch.v, false);
        c.eq("vote with every character marked", v, c.ok("vote", {"-s1/1", "p", "q"}, {{"p", f}, {"q", f}}).out);
        for (int n = 1; n <= 3; n++) c.eq(fmt("ngram -n%d", n), m::ngram({t}, n), c.ok("ngram", {fmt("-n%d", n), "p"}, {{"p", f}}).out);
    }).limit = 60;
    k.add("forms", "the forms of all code points, as shown above, are different from each other (one case over the whole set)", 1, [=](Ctx &c, uint64_t) {
        std::set<S> seen;
        for (m::U base = 0; base < 0x110000; base += 0x4000) {
            S f;
            std::vector<m::U> v;
            for (m::U u = base; u < base + 0x4000; u++)
                if (scalar(u) && !m::is_blank(u) && u != '\n' && u != '^' && u != '~') f += cp(u), v.push_back(u);
            VS l = lines(c.ok("ngram", {"f"}, {{"f", f}}).out);
            for (size_t j = 0; j < v.size(); j++) {
                c.expect(l.size() > j + 1 && starts(l[j + 1], "       1        0   {"), "a character is not listed once");
                if (!seen.insert(l[j + 1]).second) c.fail("two characters have the form %s", show(l[j + 1]).c_str());
            }
        }
    }).limit = 120;
    k.fams.back().exec_ok = false;
}
