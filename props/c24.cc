#include "reports.h"

/* Every memory request of a run as the one that is refused. */
static Inv mk(const S &cmd, const std::vector<File> &w)
{
    VS a;
    S wd;
    for (char ch : cmd + " ")
        if (ch == ' ') a.push_back(wd), wd = "";
        else wd += ch;
    std::vector<File> fs;
    for (auto &f : w)
        if (std::find(a.begin() + 1, a.end(), f.name) != a.end()) fs.push_back(f);
    return Inv(a[0], VS(a.begin() + 1, a.end()), fs);
}
static std::vector<Inv> invs(bool T)
{
    auto as = accs();
    auto ws = wacs();
    auto es = edos();
    S hdr = "ocreval Vendor-Independent Interface Version 7.0\n\n" + rep("-", 48) + "\nblah\n" + rep("-", 48) + "\n";
    VS al = {"a", "b", "c", "d", " ", " ", "e ", "th", "\n", "\xC3\xA9", "^x"};
    S med = scatter(al, T ? 900 : 250, 3) + "\n", mnear = med;
    for (size_t i = 7; i < mnear.size(); i += 41)
        if (!(mnear[i] & 0x80)) mnear[i] = '#';
    m::Acc a = mkacc({{'a', cnt(7, 2)}, {'b', cnt(9, 9)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2);
    m::Wac x = mkwac({{"the", cnt(9, 4)}}, {{"cat", cnt(5, 1)}}, 8);
    m::Wac lw = mkwac({{"a", cnt(2, 1)}}, {{rep("w", 90), cnt(1, 1)}, {rep("w", 300), cnt(1, 0)}, {rep("w", 5000), cnt(2, 0)}}, 8);
    std::vector<File> w = {{"t", "the cat sat^.\nthe d\xC3\xA9g"}, {"u", "cat he sat.~ d\xC3\xA9g"}, {"v", hdr + "the cat sat"}, {"h", "ocreval Vendor-Indep"}, {"c", "e\xCC\x81t\xCC\x81 \xEA\xB0\x80 " + cp(0x1E9B) + cp(0x323)},
                           {"med", med}, {"mnear", mnear}, {"long", rep("w", 3000) + " x"}, {"a", m::render(a)}, {"A", m::render(as[5])}, {"B", m::render(as[3])}, {"w", m::render(x)}, {"W", m::render(ws[4])}, {"X", m::render(ws[3])}, {"L", m::render(lw)},
                           {"P", m::render(ws[6])}, {"Q", m::render(as.back())}, {"e", m::render(es[3])}, {"E", m::render(es.back())}, {"stop", "the\ncat\na\nth\n"}, {"empty", ""}};
    std::vector<Inv> v;
    for (auto s : {"accuracy t u", "accuracy t u out", "accuracy t v", "accuracy med mnear out", "accuracy empty t", "accuracy empty empty", "accuracy c t",
                   "editop t u", "editop t u out", "editop med mnear out", "editop -D t u", "editop empty t",
                   "wordacc t u", "wordacc t u out", "wordacc -S stop t u out", "wordacc c c", "wordacc med mnear", "wordacc -S empty t t", "wordacc long t", "wordacc empty t",
                   "groupacc t a", "groupacc h A out", "groupacc c B",
                   "nonstopacc stop w", "nonstopacc stop W", "nonstopacc c X", "nonstopacc t L",
                   "accsum a B", "accsum A a B A", "accsum Q a", "wordaccsum w X", "wordaccsum W w W", "wordaccsum L L", "wordaccsum P w", "editopsum e E", "editopsum E e e",
                   "accci a B", "accci A B a", "wordaccci w X W", "wordaccci L w", "accdist a A", "wordaccdist w W", "editopcost e", "editopcost E e",
                   "synctext t u", "synctext -H t u v", "synctext -s med mnear", "synctext -T t u", "synctext -T med mnear", "synctext -i -s t u v h", "synctext c t", "synctext empty empty",
                   "vote t u v", "vote -o out t u v", "vote -o out med mnear t", "vote -O -s 1/2 -w 1/3 t u v h", "vote -O t u", "vote -D t u v", "vote empty t",
                   "ngram t u", "ngram -n 1 t", "ngram -n3 med mnear", "ngram empty c", "wordfreq t u", "wordfreq c med", "wordfreq v", "wordfreq long empty"})
        v.push_back(mk(s, w));
    return v;
}
static void judge(Ctx &c, const Inv &v, const Res &ref, const Res &r)
{
    if (r.status == 0) {
        if (r.out != ref.out || r.wrote != ref.wrote || r.err != ref.err) c.fail("exit status 0 although memory was refused and the result is another one: %s", r.text().c_str());
        return;
    }
    if (r.status != 1) c.fail("%s when memory was refused", r.status < 0 ? fmt("killed by signal %d", -r.status).c_str() : fmt("exit status %d instead of 1", r.status).c_str());
    c.eq("message when memory was refused", ref.err + v.tool + ": unable to allocate memory\n", r.err);
    if (!starts(ref.out, r.out)) c.fail("standard output is not a beginning of the undisturbed one");
}
/* Undisturbed run, by which the requests are known.  Runs for the same invocation follow each other. */
static const Res &plain(Ctx &c, const Inv &v)
{
    static S memo;
    static Res ref;
    S k = v.tool;
    for (auto &a : v.args) k += '\0' + a;
    for (auto &f : v.files) k += '\1' + f.name + '\0' + f.data;
    if (k != memo) ref = c.probe(v), memo = k;
    if (ref.status != 0) c.fail("an undisturbed run failed: %s", ref.text().c_str());
    return ref;
}
static void each(Ctx &c, Inv v, uint64_t at, bool sticky)
{
    const Res &ref = plain(c, v);
    if (at >= ref.allocs.size()) return c.skip();
    v.env.alloc_fail = at, v.env.alloc_sticky = sticky;
    judge(c, v, ref, c.run(v));
}
/* all requests of a run in one case: few runs are long */
static void all(Ctx &c, const Inv &v)
{
    const Res ref = plain(c, v);
    for (size_t at = 0; at < ref.allocs.size(); at++)
        for (int s = 0; s < 2; s++) {
            Inv w = v;
            w.env.alloc_fail = at, w.env.alloc_sticky = s;
            judge(c, w, ref, c.run(w));
        }
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    k.level = "fault_enumeration";
    static std::vector<Inv> VV;
    VV = invs(T);
    uint64_t n = VV.size();
    const uint64_t NK = T ? 40000 : 6000;
    k.add("each-request", fmt("%d invocations of all tools with each memory request (up to the %d-th) refused, only that one or all from then on", (int) n, (int) NK), n * NK * 2, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        bool s = x.of(2);
        uint64_t at = x.of(NK);
        each(c, VV[x.of(n)], at, s);
    });
    k.add("size", "the same invocations with all requests above a size refused, for each size that is requested", n * 400, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        uint64_t j = x.of(400);
        Inv v = VV[x.of(n)];
        const Res &ref = plain(c, v);
        std::set<size_t> sz(ref.allocs.begin(), ref.allocs.end());
        if (j >= sz.size()) return c.skip();
        v.env.alloc_max = (long) *std::next(sz.begin(), j) - 1;
        judge(c, v, ref, c.run(v));
    });
    static const char *const modes[] = {"accuracy", "editop", "wordacc", "synctext", "synctext -H", "synctext -T", "vote", "vote -O", "ngram", "ngram -n2", "ngram -n3", "wordfreq", "wordacc -S"};
    static const VS al = {"a", "b", " "};
    const int L = T ? 4 : 3;
    const uint64_t nt = nstr(3, L);
    k.add("small-texts", fmt("all pairs of texts up to %d characters of 3 kinds for every tool that reads texts, every request of the run refused in turn, once and from then on", L), 13 * nt * nt, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        S md = modes[x.of(13)], a = strs(al, x.of(nt)), b = strs(al, x.of(nt));
        Inv v;
        size_t sp = md.find(' ');
        v.tool = md.substr(0, sp);
        if (sp != S::npos) v.args.push_back(md.substr(sp + 1));
        if (md == "wordacc -S") v.args.push_back("s"), v.files.push_back({"s", "a b"});
        v.args.push_back("x"), v.args.push_back("y");
        v.files.push_back({"x", a}), v.files.push_back({"y", b});
        all(c, v);
    }).exec_sample = 3;
    static std::vector<S> pool[3];
    {
        auto as = accs();
        auto ws = wacs();
        auto es = edos();
        for (size_t i = 0; i < as.size(); i++)
            if (i < 10) pool[0].push_back(m::render(as[i]));
        for (size_t i = 0; i < ws.size(); i++)
            if (i < 6) pool[1].push_back(m::render(ws[i]));
        for (auto &e : es) pool[2].push_back(m::render(e));
    }
    static const struct {
        const char *tool;
        int pool;
    } rt[] = {{"accsum", 0}, {"accci", 0}, {"accdist", 0}, {"wordaccsum", 1}, {"wordaccci", 1}, {"wordaccdist", 1}, {"editopsum", 2}, {"editopcost", 2}};
    k.add("reports", "all ordered pairs of reports for every tool that reads several, every request of the run refused in turn, once and from then on", 8 * 10 * 10, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        auto &t = rt[x.of(8)];
        auto &p = pool[t.pool];
        uint64_t i = x.of(10), j = x.of(10);
        if (i >= p.size() || j >= p.size()) return c.skip();
        Inv v(t.tool, {"x", "y"}, {{"x", p[i]}, {"y", p[j]}});
        if (c.probe(v).status != 0) return c.skip(); /* refused anyway */
        all(c, v);
    }).exec_sample = 3;
    k.add("lists", "groupacc and nonstopacc for all lists up to 3 characters of 3 kinds with every report, every request of the run refused in turn, once and from then on", 2 * nt * 10, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int g = x.of(2);
        S a = strs(al, x.of(nt));
        uint64_t i = x.of(10);
        auto &p = pool[g];
        if (i >= p.size()) return c.skip();
        all(c, Inv(g ? "nonstopacc" : "groupacc", {"x", "y"}, {{"x", a}, {"y", p[i]}}));
    }).exec_sample = 3;
    k.assumptions.push_back("memory is refused as the C library does: the function returns NULL; requests the C library makes for itself (buffers of open files) are not refused");
}
