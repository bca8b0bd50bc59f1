/* C28: runs that go on at the same time, and runs that are killed.  A state is the files and, for each
 * process, how far it is; a transition executes a process up to a chosen step (opening, reading, writing,
 * closing, removing, renaming or asking about a file).  A process is resumed by executing it from its
 * start again, with the files changed, at each step where it was interrupted before, as they were changed
 * then: a run is a deterministic function of what it sees. */
#include "reports.h"
#include <unordered_map>

typedef std::map<S, S> World;
struct Job {
    const char *tool;
    VS args; /* % is the output file */
    bool heavy;
};
static const std::vector<Job> &jobs()
{
    static const std::vector<Job> v = {
        {"editop", {"t", "u", "%"}, false},      {"wordacc", {"t", "u", "%"}, false},
        {"vote", {"-o", "%", "t", "u"}, false},  {"wordacc", {"-Ss", "t", "u", "%"}, false},
        {"wordaccsum", {"v", "w"}, false},       {"editopsum", {"e", "f"}, false},
        {"ngram", {"-n", "2", "t", "u"}, false}, {"wordfreq", {"t", "u"}, false},
        {"synctext", {"t", "u"}, false},         {"nonstopacc", {"s", "v"}, false},
        {"editopcost", {"e", "f"}, false},       {"wordaccci", {"v", "w"}, false},
        {"wordaccdist", {"v", "w"}, false},      {"vote", {"-O", "t", "u", "s", "t"}, false},
        {"synctext", {"-T", "-s", "t", "u"}, false},
        /* refused */
        {"wordacc", {"t", "nothere", "%"}, false}, {"wordaccsum", {"v", "t"}, false},
        {"vote", {"-w", "9", "t", "u"}, false},  {"editop", {"t", "u", "dir/no/%"}, false},
        {"accuracy", {"t", "u", "%"}, true},     {"groupacc", {"s", "p", "%"}, true},
        {"accsum", {"p", "q"}, true},            {"accci", {"p", "q"}, true},
        {"accdist", {"p", "q"}, true},           {"accuracy", {"t", "nothere", "%"}, true},
        {"accsum", {"p", "v"}, true},
    };
    return v;
}
static S v_text(const Inv &v) { return v.tool + " " + join(v.args, " "); }
static World files()
{
    m::Acc a = mkacc({{'a', cnt(7, 2)}, {'b', cnt(9, 9)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2), b = mkacc({{'a', cnt(5, 0)}, {'t', cnt(3, 1)}}, {{"{t}-{l}", cnt(1, 1)}});
    m::Wac v = mkwac({{"the", cnt(9, 4)}}, {{"cat", cnt(5, 1)}}, 8), w = mkwac({{"the", cnt(1, 0)}}, {{"dog", cnt(2, 2)}}, 3);
    m::Edo e, f;
    e.ins = 4, e.del = 1, e.moves = 3, e.move[2] = 3;
    f.ins = 1, f.del = 7, f.moves = 1, f.move[5] = 1;
    return {{"t", "the cat sat^.\n"}, {"u", "cat he sat.~"}, {"s", "the cat"}, {"p", m::render(a)}, {"q", m::render(b)}, {"v", m::render(v)}, {"w", m::render(w)}, {"e", m::render(e)}, {"f", m::render(f)}};
}
/* pairs of output names that a careless temporary name would make the same */
static const char *const NAMES[][3] = {{"r", "r2", "r3"}, {"r", "r.tmp", "r~"}, {"d1/r", "d2/r", "r"}, {"r.new", "r", ".r"}, {"r.bak", "r", "r.1"}, {"tmp", "r", "r.t"}};
static const int n_names = sizeof NAMES / sizeof *NAMES;

static std::vector<File> as_files(const World &w, bool dirs)
{
    std::vector<File> v;
    if (dirs) v.push_back({"d1", "", N_DIR}), v.push_back({"d2", "", N_DIR});
    for (auto &f : w) v.push_back({f.first, f.second});
    return v;
}
struct Proc {
    Inv inv;
    S out; /* the name of its output file, if it has one */
    long at = 0;
    bool done = false, killed = false;
    uint64_t seen = 0;
    std::vector<std::pair<long, std::shared_ptr<World>>> patches;
    Res res, alone;
};
static Proc proc(Ctx &c, int job, const S &out, int pid, int wbuf, const World &w0)
{
    Proc p;
    const Job &j = jobs()[job];
    p.inv.tool = j.tool;
    for (auto a : j.args) {
        size_t k = a.find('%');
        if (k != S::npos) {
            a = a.substr(0, k) + out;
            if (k == 0) p.out = out;
        }
        p.inv.args.push_back(a);
    }
    p.inv.env.pid = pid;
    p.inv.env.wbuf = wbuf;
    p.inv.env.want_world = true;
    static std::unordered_map<S, Res> known;
    S key = fmt("%d %s %d", job, out.c_str(), wbuf);
    auto it = known.find(key);
    if (it != known.end() && c.backend == B_INPROC && !c.explain) p.alone = it->second;
    else {
        Inv v = p.inv;
        v.files = as_files(w0, true);
        p.alone = c.backend == B_INPROC ? c.run(v) : c.probe(v);
        if (known.size() < 5000) known[key] = p.alone;
    }
    if (p.alone.status < 0 || p.alone.status > 1) c.fail("%s: status %d", v_text(p.inv).c_str(), p.alone.status);
    return p;
}
/* executes a process up to (not including) its step upto, or to its end */
static void advance(Ctx &c, Proc &p, World &w, long upto)
{
    if (p.done) return;
    if (p.at == 0) p.inv.files = as_files(w, true), p.patches.clear();
    else if (p.patches.empty() || p.patches.back().first != p.at) p.patches.push_back({p.at, std::make_shared<World>(w)});
    else p.patches.back().second = std::make_shared<World>(w);
    p.inv.env.patches = p.patches;
    p.inv.env.stop_at = upto;
    Res r = c.run(p.inv);
    w = r.world;
    p.seen = r.seen;
    if (r.stopped) p.at = upto;
    else p.done = true, p.res = r;
}
static void judge(Ctx &c, const S &how, const World &w0, const World &w, const std::vector<const Proc *> &ps, const World *also = NULL)
{
    World want = w0;
    for (auto p : ps) {
        S me = v_text(p->inv) + " " + how;
        const Res &r = p->res, &a = p->alone;
        if (r.status != a.status) c.fail("%s: status %d, but %d alone (stderr %s)", me.c_str(), r.status, a.status, show(r.err).c_str());
        if (r.out != a.out) c.fail("%s: printed %s, but %s alone", me.c_str(), show(r.out).c_str(), show(a.out).c_str());
        if (r.err != a.err) c.fail("%s: reported %s, but %s alone", me.c_str(), show(r.err).c_str(), show(a.err).c_str());
        if (p->out.size() && a.world.count(p->out)) want[p->out] = a.world.at(p->out);
    }
    for (auto &f : want) {
        auto it = w.find(f.first);
        if (it == w.end()) c.fail("%s %s: %s is gone", v_text(ps[0]->inv).c_str(), how.c_str(), f.first.c_str());
        if (it->second != f.second) c.fail("%s %s: %s holds %s instead of %s", v_text(ps[0]->inv).c_str(), how.c_str(), f.first.c_str(), show(it->second).c_str(), show(f.second).c_str());
    }
    for (auto &f : w)
        if (!want.count(f.first) && !(also && also->count(f.first))) c.fail("%s %s: %s was left", v_text(ps[0]->inv).c_str(), how.c_str(), f.first.c_str());
}
static int n_light()
{
    int n = 0;
    for (auto &j : jobs()) n += !j.heavy;
    return n;
}
/* All states of some processes, each going on step by step, of which some may be killed.  What a process
 * does next is determined by how far it is and what it has seen of the files so far and sees from now on. */
struct State {
    std::vector<Proc> ps;
    World w;
    int kills = 0; /* how many may still be killed */
    S how;
};
static S key_of(const State &s)
{
    S k = fmt("%d", s.kills);
    for (auto &p : s.ps) k += p.killed ? "k" : p.done ? fmt("d%d %llx", p.res.status, (unsigned long long) hash(p.res.out + "\1" + p.res.err)) : fmt("%ld %llx ", p.at, (unsigned long long) p.seen);
    S w;
    for (auto &f : s.w) w += fmt("%zu:%s%zu:%s", f.first.size(), f.first.c_str(), f.second.size(), f.second.c_str());
    return k + fmt("w%llx", (unsigned long long) hash(w));
}
static uint64_t explore(Ctx &c, const World &w0, const State &s, std::set<S> &known)
{
    if (!known.insert(key_of(s)).second) return 0;
    uint64_t n = 1;
    bool any = false;
    for (size_t i = 0; i < s.ps.size(); i++) {
        if (s.ps[i].done || s.ps[i].killed) continue;
        any = true;
        bool last = true; /* of the others, none goes on */
        for (size_t j = 0; j < s.ps.size(); j++)
            if (j != i && !s.ps[j].done && !s.ps[j].killed) last = false;
        State t = s;
        advance(c, t.ps[i], t.w, last && !s.kills ? -1 : s.ps[i].at + 1);
        t.how += char('A' + i);
        n += explore(c, w0, t, known);
        if (s.kills && s.ps[i].at) {
            State u = s;
            u.ps[i].killed = true;
            u.kills--;
            u.how += char('a' + i);
            n += explore(c, w0, u, known);
        }
    }
    if (any) return n;
    std::vector<const Proc *> ps;
    bool killed = false;
    World w = s.w;
    S all = s.ps.size() > 1 ? "with" : "";
    for (auto &p : s.ps) {
        all += " " + v_text(p.inv);
        if (!p.killed) ps.push_back(&p);
        else {
            killed = true;
            if (p.out.size()) w.erase(p.out);
        }
    }
    if (ps.size()) judge(c, all + ", in turns " + s.how + " (capital: a step, small: killed)", w0, w, ps, killed ? &s.w : NULL);
    for (auto &f : w0)
        if (!w.count(f.first) || w.at(f.first) != f.second) c.fail("%s, in turns %s: %s was changed", all.c_str(), s.how.c_str(), f.first.c_str());
    return n;
}
void vx::define(Check &k)
{
    bool T = k.thorough;
    const World w0 = files();
    uint64_t n = jobs().size(), L = n_light();
    static const int WB[] = {0, -1, 40};
    k.add("inserted", fmt("every two of %d invocations of all tools, six pairs of output names, three ways of buffering: the second runs before every step of the first", (int) n), n * n * n_names * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int wb = WB[x.of(3)], nm = x.of(n_names), ja = x.of(n), jb = x.of(n);
        if (jobs()[ja].args.back() != "%" && jobs()[ja].tool != S("vote") && nm && jobs()[jb].args.back() != "%" && jobs()[jb].tool != S("vote")) c.skip();
        Proc a0 = proc(c, ja, NAMES[nm][0], 4242, wb, w0), b0 = proc(c, jb, NAMES[nm][1], 4243, 0, w0);
        for (long s = 1; s <= a0.alone.steps; s++) {
            if (wb && s > 20 && s < a0.alone.steps - 20 && s % 16) continue; /* of a long row of writes, every sixteenth */
            World w = w0;
            Proc a = a0, b = b0;
            advance(c, a, w, s);
            advance(c, b, w, -1);
            advance(c, a, w, -1);
            judge(c, fmt("interrupted before step %ld for %s", s, v_text(b.inv).c_str()), w0, w, {&a, &b});
        }
    }).exec_ok = false;
    /* every interleaving, step by step */
    k.add("interleavings", fmt("every two of %d invocations, %d pairs of output names: every interleaving of their steps", (int) n, n_names), n * n * (n_names), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int nm = x.of(n_names), ja = x.of(n), jb = x.of(n);
        if (jb < ja) c.skip(); /* the same schedules */
        State s;
        s.w = w0;
        s.ps = {proc(c, ja, NAMES[nm][0], 4242, 0, w0), proc(c, jb, NAMES[nm][1], 4243, 0, w0)};
        std::set<S> known;
        c.outcome(explore(c, w0, s, known));
    }).exec_ok = false;
    k.fams.back().limit = 120;
    k.add("interleavings-killed", fmt("every two of %d invocations: every interleaving of their steps, one of them killed before any of its steps", (int) L), L * L, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int ja = x.of(L), jb = x.of(L), nm = (ja + jb) % n_names;
        if (jb < ja) c.skip();
        State s;
        s.w = w0;
        s.kills = 1;
        s.ps = {proc(c, ja, NAMES[nm][0], 4242, 0, w0), proc(c, jb, NAMES[nm][1], 4243, 0, w0)};
        std::set<S> known;
        c.outcome(explore(c, w0, s, known));
    }).exec_ok = false;
    k.fams.back().limit = 120;
    k.add("three", fmt("every three of %d invocations: every interleaving of their steps", (int) (T ? L : 10)), ipow(T ? L : 10, 3), [=](Ctx &c, uint64_t i) {
        Mix x(i);
        uint64_t m = T ? L : 10;
        int ja = x.of(m), jb = x.of(m), jc = x.of(m), nm = (ja + jb + jc) % n_names;
        if (jb < ja || jc < jb) c.skip();
        State s;
        s.w = w0;
        s.ps = {proc(c, ja, NAMES[nm][0], 4242, 0, w0), proc(c, jb, NAMES[nm][1], 4243, 0, w0), proc(c, jc, NAMES[nm][2], 4244, 0, w0)};
        std::set<S> known;
        c.outcome(explore(c, w0, s, known));
    }).exec_ok = false;
    k.fams.back().limit = 300;
    k.add("killed", fmt("each of %d invocations, three ways of buffering, killed before every step: nothing but its output is changed, and every other and itself run afterwards as without it", (int) n), n * n * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int wb = WB[x.of(3)], same = x.of(2), ja = x.of(n), jb = x.of(n);
        if (same && (jobs()[ja].args.back() != "%" && jobs()[ja].tool != S("vote"))) c.skip();
        Proc a0 = proc(c, ja, "r", 4242, wb, w0), b0 = proc(c, jb, same ? "r" : "r.tmp", 4243, 0, w0), again = proc(c, ja, "r", 4244, wb, w0);
        for (long s = 1; s <= a0.alone.steps; s++) {
            if (wb && s > 20 && s < a0.alone.steps - 20 && s % 16) continue;
            World w = w0;
            Proc a = a0, b = b0, d = again;
            advance(c, a, w, s);
            S how = fmt("killed before step %ld", s);
            for (auto &f : w0) {
                auto it = w.find(f.first);
                if (it == w.end() || it->second != f.second) c.fail("%s %s: %s is %s", v_text(a.inv).c_str(), how.c_str(), f.first.c_str(), it == w.end() ? "gone" : "changed");
            }
            World left = w, w1 = w;
            advance(c, b, w, -1);
            judge(c, fmt("after %s was %s", v_text(a.inv).c_str(), how.c_str()), w0, w, {&b}, &left);
            if (same) w = w1;
            advance(c, d, w, -1);
            if (same) judge(c, "again, " + how + " before", w0, w, {&d}, &left);
            else judge(c, "again, " + how + " before", w0, w, {&d, &b}, &left);
        }
    }).exec_ok = false;
    /* real processes: the first is stopped at an opening or closing of a file while the second runs */
    k.add("processes", fmt("every two of %d invocations, the second while the first is stopped at its n-th opening or closing of a file, n up to 6", (int) n), n * n * 6, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int at = x.of(6) + 1, ja = x.of(n), jb = x.of(n), nm = (ja + jb) % n_names;
        Proc a = proc(c, ja, NAMES[nm][0], 4242, 0, w0), b = proc(c, jb, NAMES[nm][1], 4243, 0, w0);
        World w = w0;
        if (c.backend == B_INPROC) {
            advance(c, a, w, 2 * at);
            advance(c, b, w, -1);
            advance(c, a, w, -1);
        } else {
            Inv ia = a.inv, ib = b.inv;
            ia.files = ib.files = as_files(w0, true);
            exec_pair(ia, at, ib, a.res, b.res);
            w = a.res.world;
        }
        judge(c, fmt("stopped at its opening or closing %d for %s", at, v_text(b.inv).c_str()), w0, w, {&a, &b});
        if (c.backend == B_BOTH) c.validated();
    }).exec_sample = T ? 2000 : 500;
    k.add("processes-killed", fmt("each of %d invocations killed at its n-th opening or closing of a file, n up to 6, then itself or another of them", (int) n), n * 2 * n * 6, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int at = x.of(6) + 1, ja = x.of(n), jb = x.of(2 * n), nm = (ja + jb) % n_names;
        bool same = jb >= (int) n; /* half of them */
        Proc a = proc(c, ja, NAMES[nm][0], 4242, 0, w0), b = same ? proc(c, ja, NAMES[nm][0], 4243, 0, w0) : proc(c, jb, NAMES[nm][1], 4243, 0, w0);
        World w = w0;
        if (c.backend == B_INPROC) {
            advance(c, a, w, 2 * at);
            advance(c, b, w, -1);
        } else {
            Inv ia = a.inv, ib = b.inv;
            ia.files = ib.files = as_files(w0, true);
            exec_pair(ia, at, ib, a.res, b.res, true);
            w = b.res.world;
        }
        World left = w, others = w0;
        if (!same && a.out.size() && w.count(a.out)) others[a.out] = w[a.out];
        judge(c, fmt("after %s was killed at its opening or closing %d", v_text(a.inv).c_str(), at), others, w, {&b}, &left);
        if (c.backend == B_BOTH) c.validated();
    }).exec_sample = T ? 2000 : 400;
}
