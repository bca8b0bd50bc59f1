#include "reports.h"

/* Every tool under every point of failure, every delivery of the input, every buffering of the output. */
static std::vector<File> world()
{
    static std::vector<File> w;
    if (w.size()) return w;
    VS al = {"a", "b", "c", "d", " ", " ", "e ", "th", "\n", "\xC3\xA9", "^x"}, bl = al;
    for (int i = 0; i < 40; i++) bl.push_back(cp(0x4E00 + 37 * i));
    S big = scatter(al, 4500, 11) + "\n", huge = scatter(bl, 3500, 5) + "\n", med = scatter(al, 500, 3) + "\n";
    auto blur = [](const S &b) {
        S n;
        for (size_t i = 0; i < b.size(); i++) n += i % 211 == 7 && (b[i] & 0x80) == 0 && (i + 1 >= b.size() || (b[i + 1] & 0x80) == 0) ? S("#") : S(1, b[i]);
        return n;
    };
    S near = blur(big);
    S bstop;
    for (int i = 0; i < 2000; i++) {
        for (int j = i + 1; j; j /= 7) bstop += "abcdeth"[j % 7];
        bstop += "z\n";
    }
    bstop += "a\nth\n";
    auto as = accs();
    auto ws = wacs();
    auto es = edos();
    m::Acc a = mkacc({{'a', cnt(7, 2)}, {'b', cnt(9, 9)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2);
    m::Wac x = mkwac({{"the", cnt(9, 4)}}, {{"cat", cnt(5, 1)}}, 8);
    S hdr = "ocreval Vendor-Independent Interface Version 7.0\n\n" + rep("-", 48) + "\nblah\n" + rep("-", 48) + "\n";
    w = {{"t", "the cat sat^.\nthe d\xC3\xA9g"}, {"u", "cat he sat.~ d\xC3\xA9g"}, {"v", hdr + "the cat sat"}, {"big", big}, {"near", near}, {"huge", huge}, {"hnear", blur(huge)}, {"med", med}, {"mnear", blur(med)},
         {"a", m::render(a)}, {"A", m::render(as[as.size() - 2])}, {"B", m::render(as[3])}, {"w", m::render(x)}, {"W", m::render(ws.back())}, {"X", m::render(ws[3])}, {"e", m::render(es[3])}, {"E", m::render(es.back())}, {"stop", "the\ncat\na\nth\n"}, {"bstop", bstop}, {"empty", ""}};
    return w;
}
static std::vector<Inv> invs()
{
    static const char *const l[] = {
        "accuracy t u", "accuracy t u out", "accuracy t v", "accuracy big near", "accuracy huge hnear out", "accuracy empty t",
        "editop t u", "editop t u out", "editop med mnear out", "editop -D t u",
        "wordacc t u", "wordacc t u out", "wordacc -S stop t u out", "wordacc huge huge", "wordacc -S bstop huge near out", "wordacc -S empty t t",
        "groupacc t a", "groupacc huge A out",
        "nonstopacc stop w", "nonstopacc stop W", "nonstopacc bstop W",
        "accsum a B", "accsum A a B A", "wordaccsum w X", "wordaccsum W w W", "editopsum e E", "editopsum E e e",
        "accci a B", "accci A B a", "wordaccci w X W", "accdist a A", "wordaccdist w W", "editopcost e", "editopcost E e",
        "synctext t u", "synctext -H t u v", "synctext -s big near", "synctext -T t u", "synctext -T med mnear", "synctext -i -s huge hnear huge",
        "vote t u v", "vote -o out t u v", "vote -o out big near big", "vote huge huge huge", "vote -O -s 1/2 -w 1/3 t u v", "vote -D t u v",
        "ngram t u", "ngram -n 1 t", "ngram -n3 big near", "wordfreq t u", "wordfreq huge big", "wordfreq v",
    };
    std::vector<Inv> v;
    for (auto x : l) {
        VS a;
        S s = x, wd;
        for (char ch : s + " ")
            if (ch == ' ') a.push_back(wd), wd = "";
            else wd += ch;
        std::vector<File> fs;
        for (auto &f : world())
            if (std::find(a.begin() + 1, a.end(), f.name) != a.end()) fs.push_back(f);
        v.push_back(Inv(a[0], VS(a.begin() + 1, a.end()), fs));
    }
    return v;
}
static std::vector<Inv> VV;

static bool large(const Inv &v)
{
    size_t n = 0;
    for (auto &f : v.files) n += f.data.size();
    return n > 5000;
}
static const Res &clean(Ctx &c, size_t i, const Env &e = Env())
{
    static std::map<std::pair<size_t, std::pair<int, int>>, Res> memo;
    auto k = std::make_pair(i, std::make_pair(e.chunk, e.wbuf + 100000 * e.pipes));
    auto it = memo.find(k);
    if (it != memo.end() && !c.explain && c.backend == B_INPROC) return it->second;
    Inv v = VV[i];
    v.env = e;
    Res r = c.run(v);
    if (r.status != 0 || r.err.size()) c.fail("an undisturbed run failed: %s", r.text().c_str());
    return memo[k] = std::move(r);
}
/* the tool was stopped by a failure */
static void reported(Ctx &c, const Inv &v, const Res &r)
{
    if (r.status != 1) c.fail("exit status %d instead of 1", r.status);
    if (!starts(r.err, v.tool + ": ") || r.err.find('\n') != r.err.size() - 1) c.fail("stderr is not one message of the tool: %s", show(r.err).c_str());
}

static const struct {
    int chunk, wbuf;
} bufs[] = {{0, 0}, {0, -1}, {0, 512}, {64, 0}, {7, 64}, {1, 0}, {2, 7}};

void vx::define(Check &k)
{
    bool T = k.thorough;
    VV = invs();
    uint64_t n = VV.size();
    const uint64_t nb = T ? 7 : 5, NK = T ? 20000 : 3000;
    k.add("failing-io", fmt("%zu invocations of all tools, under %d bufferings of input and output, with every I/O operation (opening, reading, writing, closing; up to the %d-th) failing, that one or all that follow on the file too, after none, one or half of its bytes", (size_t) n, (int) nb, (int) NK), n * nb * 6 * NK, [=](Ctx &c, uint64_t q) {
         Mix x(q);
         long at = x.of(NK);
         int mode = x.of(6);
         int b = x.of(nb);
         size_t i = x.of(n);
         if (large(VV[i]) && b != 0 && b != 2 && (!T || b > 3)) return c.skip();
         Env e;
         e.chunk = bufs[b].chunk, e.wbuf = bufs[b].wbuf;
         const Res &ref = clean(c, i, e);
         if (at >= ref.ops) return c.skip();
         if (ref.ops > (long) NK && at == 0 && mode == 0) c.outcome(hash("longer than the bound"));
         static const int parts[] = {0, 1, 500};
         Inv v = VV[i];
         v.env = e;
         v.env.fail_at = at, v.env.fail_sticky = mode % 2, v.env.partial = parts[mode / 2];
         Res r = c.run(v);
         char kd = at < (long) ref.opkind.size() ? ref.opkind[at] : '?';
         if (r.status == 0) {
             /* nothing may be missing: the failed operation did not matter */
             c.eq("standard output of a run that reports success although an operation failed", ref.out, r.out);
             if (ref.wrote != r.wrote) c.fail("exit status 0 although the output file differs from the undisturbed run's");
             if (v.env.fail_sticky && (kd == 'r' || kd == 'R' || kd == 'W' || kd == 'w')) c.fail("exit status 0 although %s %s failed", kd == 'r' || kd == 'R' ? "reading" : "writing", ref.opfile[at].c_str());
         } else {
             reported(c, v, r);
             if ((kd == 'o' || kd == 'O') && r.err.find("\"" + ref.opfile[at] + "\"") == S::npos) c.fail("the message does not name the file that cannot be opened: %s", show(r.err).c_str());
         }
     }).exec_ok = false;
    k.add("signals", fmt("the same invocations stopped by SIGINT and SIGTERM at every I/O operation (up to the %d-th)", (int) NK), n * nb * 2 * NK, [=](Ctx &c, uint64_t q) {
         Mix x(q);
         long at = x.of(NK);
         int sg = x.of(2);
         int b = x.of(nb);
         size_t i = x.of(n);
         if (large(VV[i]) && b != 0 && b != 2 && (!T || b > 3)) return c.skip();
         Env e;
         e.chunk = bufs[b].chunk, e.wbuf = bufs[b].wbuf;
         const Res &ref = clean(c, i, e);
         if (at >= ref.ops) return c.skip();
         Inv v = VV[i];
         v.env = e;
         v.env.signal_at = at, v.env.sig = sg ? 15 : 2;
         Res r = c.run(v);
         c.eq("exit status after the signal", 1, r.status);
         c.eq("message after the signal", v.tool + ": process killed\n", r.err);
         if (!starts(ref.out, r.out)) c.fail("standard output is not a beginning of the undisturbed one");
     }).exec_ok = false;
    static const int chunks[] = {0, 1, 2, 3, 4, 5, 7, 16, 64, 100, 511, 512, 513, 1000, 4095};
    static const int wbufs[] = {0, -1, 1, 2, 13, 128, 1000, 4095};
    k.add("delivery", "the same invocations with reads of at most 1..4095 bytes, inputs that can or cannot be rewound and output buffers of 0..4096 bytes", n * 15 * 8 * 2, [=](Ctx &c, uint64_t q) {
         Mix x(q);
         Inv v = VV[x.of(n)];
         size_t i = q % n;
         v.env.chunk = chunks[x.of(15)], v.env.wbuf = wbufs[x.of(8)], v.env.pipes = x.of(2);
         const Res &ref = clean(c, i);
        Res r = c.run(v);
         if (!r.same(ref)) c.fail("the result depends on the delivery of the data\nhere: %s\notherwise: %s", r.text().c_str(), ref.text().c_str());
     }).exec_ok = false;
    k.add("pipes", "the same invocations with each subset of their first four inputs as pipes", n * 16, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        size_t i = x.of(n);
        int set = x.of(16);
        Inv v = VV[i];
        if (set >> v.files.size()) return c.skip();
        for (size_t j = 0; j < v.files.size(); j++)
            if (set >> j & 1) v.files[j].kind = N_PIPE;
        bool twice = false;
        for (size_t j = 0; j < v.files.size(); j++)
            if (v.files[j].kind == N_PIPE && std::count(v.args.begin(), v.args.end(), v.files[j].name) > 1) twice = true;
        if (twice) return c.skip();
        const Res &ref = clean(c, i);
        Res r = c.run(v);
        if (!r.same(ref)) c.fail("the result from pipes differs\nhere: %s\notherwise: %s", r.text().c_str(), ref.text().c_str());
    });
    k.add("full-devices", "the same invocations with standard output or the output file on a full device", n * 2, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        size_t i = x.of(n);
        Inv v = VV[i];
        const Res &ref = clean(c, i);
        if (x.of(2)) {
            auto it = std::find(v.args.begin(), v.args.end(), "out");
            if (it == v.args.end()) return c.skip();
            v.files.push_back({"out", "", N_FULL});
        } else v.env.stdout_full = true;
        Res r = c.run(v);
        bool lost = v.env.stdout_full ? ref.out.size() > 0 : ref.wrote.size() && ref.wrote.begin()->second.size() > 0;
        if (lost) reported(c, v, r);
        else if (r.status || r.wrote != ref.wrote) c.fail("a run that writes nothing to the full device failed: %s", r.text().c_str());
    });
    k.add("usage-full-device", "the usage of each tool with standard output on a full device", 17, [=](Ctx &c, uint64_t i) {
        static const VS names = {"accci", "accdist", "accsum", "accuracy", "editop", "editopcost", "editopsum", "groupacc", "ngram", "nonstopacc", "synctext", "vote", "wordacc", "wordaccci", "wordaccdist", "wordaccsum", "wordfreq"};
        Inv v(names[i], {}, {});
        v.env.stdout_full = true;
        Res r = c.run(v);
        c.eq("status of the usage, which is not written to standard output", 0, r.status);
        c.expect(starts(r.err, "Usage:  " + names[i] + " "), "no usage");
    });
    k.assumptions = {"a failing operation reports EIO to the tool, as read(2), write(2), open(2) or close(2) would; reads that fail after some bytes deliver those first",
                     "an operation of the C library's stream layer stands for the system call it makes; buffer sizes of the stream layer are varied",
                     "signals are delivered at I/O operations"};
    k.rule = "one state per invocation, buffering, failing operation and manner of failure";
}
