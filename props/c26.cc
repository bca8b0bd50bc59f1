/* C26: histories of runs over the same files.  A state is the contents of a working directory, a
 * transition one run of a tool in it.  Expected: what the tool prints when it is given nothing but its
 * inputs and no output file, put where the run was asked to put it, and no other change. */
#include "reports.h"
#include <unordered_map>

typedef std::map<S, S> World;
struct Op {
    const char *tool;
    int in;          /* how many inputs */
    bool text0, text1; /* (for the descriptions only) */
    int out;         /* 0: third argument, 1: -o, 2: standard output, redirected by the shell */
    VS opt;
};
static const std::vector<Op> &ops()
{
    static const std::vector<Op> v = {
        {"accuracy", 2, true, true, 0, {}},
        {"editop", 2, true, true, 0, {}},
        {"wordacc", 2, true, true, 0, {}},
        {"groupacc", 2, true, false, 0, {}},
        {"vote", 2, true, true, 1, {}},
        {"accsum", 2, false, false, 2, {}},
        {"wordaccsum", 2, false, false, 2, {}},
        {"editopsum", 2, false, false, 2, {}},
        {"wordfreq", 2, true, true, 2, {}},
        {"nonstopacc", 2, true, false, 2, {}},
        {"accci", 2, false, false, 2, {}},
        {"ngram", 1, true, false, 2, {"-n", "2"}},
        {"editopcost", 1, false, false, 2, {}},
        {"accdist", 1, false, false, 2, {}},
        {"vote", 2, true, true, 1, {"-O"}},
        {"wordacc", 2, true, true, 0, {"-Sr"}},
        {"synctext", 2, true, true, 2, {}},
        {"wordaccci", 2, false, false, 2, {}},
        {"wordaccdist", 1, false, false, 2, {}},
    };
    return v;
}
static std::vector<File> files_of(const World &w)
{
    std::vector<File> f;
    for (auto &x : w) f.push_back({x.first, x.second});
    return f;
}
static S describe(const Op &o, const VS &in, const S &out)
{
    return S(o.tool) + " " + join(o.opt, " ") + (o.opt.empty() ? "" : " ") + (o.out == 1 ? "-o " + out + " " : S()) + join(in, " ") + (o.out == 2 ? " >" : o.out == 0 ? " " : "") + (o.out == 1 ? S() : out);
}
/* performs one run in W */
static void step(Ctx &c, World &w, const Op &o, const VS &in, const S &out, const S &past)
{
    VS a = o.opt;
    if (o.tool == S("editop") || o.tool == S("vote")) { /* cubic time: not on long files */
        size_t p = 1;
        for (auto &x : in)
            if (w.count(x)) p *= w[x].size() + 1;
        if (p > 20000) return;
    }
    if (o.out == 2) w[out] = ""; /* by the shell, before the tool starts */
    World alone;
    for (auto &x : in)
        if (w.count(x)) alone[x] = w[x];
    for (auto &x : o.opt)
        if (x.substr(0, 2) == "-S" && w.count(x.substr(2))) alone[x.substr(2)] = w[x.substr(2)];
    a.insert(a.end(), in.begin(), in.end());
    /* what the tool does with its inputs alone, from the first time */
    static std::unordered_map<S, Res> known;
    S key = o.tool + S("\n") + join(a, "\n");
    for (auto &x : alone) key += "\n" + x.first + "\1" + x.second + "\1";
    if (key.size() > 4000) key = o.tool + fmt(" %zu %016lx %016lx", key.size(), (unsigned long) hash(key), (unsigned long) std::hash<S>()(key));
    bool cache = c.backend == B_INPROC && !c.explain;
    auto it = cache ? known.find(key) : known.end();
    Res want = it != known.end() ? it->second : c.run(o.tool, a, files_of(alone));
    if (cache && it == known.end() && known.size() < 20000) {
        Res keep = want;
        keep.allocs.clear(), keep.opkind.clear(), keep.opfile.clear();
        known[key] = keep;
    }
    S now = past + describe(o, in, out);
    if (!want.wrote.empty()) c.fail("%s: %s was created or changed by a run that was not asked for a file", now.c_str(), want.wrote.begin()->first.c_str());
    if (o.out == 0) a.push_back(out);
    if (o.out == 1) a.insert(a.begin(), "-o" + out);
    Res r = c.run(o.tool, a, files_of(w));
    if (r.status != want.status) c.fail("%s: status %d, but %d with its inputs alone (stderr %s, %s)", now.c_str(), r.status, want.status, show(r.err).c_str(), show(want.err).c_str());
    if (r.err != want.err) c.fail("%s: stderr %s, but %s with its inputs alone", now.c_str(), show(r.err).c_str(), show(want.err).c_str());
    if (o.out == 2) {
        if (r.out != want.out) c.fail("%s: wrote %s, but %s with its inputs alone", now.c_str(), show(r.out).c_str(), show(want.out).c_str());
        if (!r.wrote.empty()) c.fail("%s: %s was created or changed", now.c_str(), r.wrote.begin()->first.c_str());
        w[out] = r.out;
        return;
    }
    if (!r.out.empty()) c.fail("%s: output on standard output besides the file: %s", now.c_str(), show(r.out).c_str());
    for (auto &x : r.wrote)
        if (x.first != out || r.status) c.fail("%s (status %d): changed %s to %s", now.c_str(), r.status, x.first.c_str(), show(x.second).c_str());
    if (r.status) return;
    S got = r.wrote.count(out) ? r.wrote[out] : w.count(out) ? w[out] : S("(no file)");
    if (got != want.out) c.fail("%s: the file became %s instead of %s", now.c_str(), show(got).c_str(), show(want.out).c_str());
    w[out] = got;
}
struct Menu {
    std::vector<int> kinds;
    VS names;
    uint64_t size() const
    {
        uint64_t n = 0;
        for (int q : kinds) n += ipow(names.size(), ops()[q].in + 1);
        return n;
    }
    void at(uint64_t i, int &kind, VS &in, S &out) const
    {
        for (int q : kinds) {
            uint64_t n = ipow(names.size(), ops()[q].in + 1);
            if (i >= n) {
                i -= n;
                continue;
            }
            kind = q;
            in.clear();
            for (int j = 0; j < ops()[q].in; j++) in.push_back(names[i % names.size()]), i /= names.size();
            out = names[i];
            return;
        }
    }
};
static World start(int k)
{
    m::Acc a = mkacc({{'a', cnt(7, 2)}, {'b', cnt(9, 9)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2);
    m::Wac w = mkwac({{"the", cnt(9, 4)}}, {{"cat", cnt(5, 1)}}, 8);
    m::Edo e;
    e.ins = 4, e.del = 1, e.moves = 3, e.move[2] = 3;
    switch (k) {
    case 0: return {{"t", "the cat sat^.\n"}, {"u", "cat he sat.~"}};
    case 1: return {{"t", "the cat"}, {"u", "cat"}, {"r", m::render(a)}};
    case 2: return {{"t", ""}, {"u", "the"}, {"r", m::render(w) + rep("old contents\n", 5)}};
    case 3: return {{"t", "a"}, {"u", m::render(a)}, {"r", m::render(a)}};
    case 4: return {{"t", "cat"}, {"u", m::render(w)}, {"r", m::render(w)}};
    case 5: return {{"t", "ab\ncd"}, {"u", m::render(e)}, {"r", "old\n"}};
    default: return {{"t", "the\xFF"}, {"u", "cat"}, {"r", rep("z", 500)}};
    }
}
static const int n_start = 7;
void vx::define(Check &k)
{
    bool T = k.thorough;
    /* a case is a history up to its last run; the last run is each of the menu */
    auto add = [&](S name, S what, std::vector<int> kinds, VS names, int depth) {
        auto me = std::make_shared<Menu>();
        me->kinds = kinds, me->names = names;
        uint64_t n = me->size();
        k.add(name, fmt("%s: all histories of %d runs out of %lu, from each of %d directories", what.c_str(), depth, (unsigned long) n, n_start), ipow(n, depth - 1) * n_start, [=](Ctx &c, uint64_t i) {
            World w = start(i % n_start);
            if (names.size() == 2) { /* the report takes the place of the second text */
                World v = {{names[0], w["t"]}, {names[1], w.count("r") ? w["r"] : w["u"]}};
                w = v;
            }
            i /= n_start;
            S past;
            int q = 0;
            VS in;
            S out;
            for (int d = 1; d < depth; d++) {
                me->at(i % n, q, in, out);
                i /= n;
                step(c, w, ops()[q], in, out, past);
                past += describe(ops()[q], in, out) + "; ";
            }
            for (uint64_t j = 0; j < n; j++) {
                World v = w;
                me->at(j, q, in, out);
                step(c, v, ops()[q], in, out, past);
            }
        }).exec_sample = 1;
    };
    std::vector<int> all;
    for (size_t j = 0; j < ops().size(); j++) all.push_back(j);
    add("one-run", "every tool over three files", all, {"t", "u", "r"}, 1);
    add("two-runs", "every tool over two files", all, {"t", "r"}, 2);
    /* accuracy and the tools that read its reports take about a millisecond a run, the others a fiftieth of that */
    std::vector<int> light = {1, 2, 4, 6, 7, 8, 9, 11, 12, 15}, heavy = {0, 3, 5};
    add("two-runs-three-files", "editop, wordacc, vote and the tools that read their reports over three files", light, {"t", "u", "r"}, 2);
    add("three-runs", "editop, wordacc, vote and the tools that read their reports over two files", light, {"t", "r"}, 3);
    add("three-accuracy-runs", "accuracy, groupacc and accsum over two files", heavy, {"t", "r"}, 3);
    add("accuracy-and-others", "accuracy, groupacc, accsum, editop, wordacc and vote over two files", {0, 1, 2, 3, 4, 5}, {"t", "r"}, T ? 3 : 2);
    if (T) {
        add("all-three-runs", "every tool over three files", all, {"t", "u", "r"}, 2);
        add("four-runs", "wordacc, vote, wordaccsum and wordfreq over two files", {2, 4, 6, 8}, {"t", "r"}, 4);
        add("three-runs-three-files", "wordacc, vote, editop and wordaccsum over three files", {1, 2, 4, 6}, {"t", "u", "r"}, 3);
    }
    k.add("names", "the output is named like a relative of an input: with ~, .bak, .tmp, .old, .orig, #, a dot, a number before or after it", 5 * 24, [=](Ctx &c, uint64_t i) {
        static const VS pre = {"", ".", "#", "tmp.", "_", "~"}, post = {"~", ".bak", ".tmp", ".1"};
        World w = start(3);
        S o = pre[i / 5 % 6] + "t" + post[i / 30];
        for (auto &p : pre)
            for (auto &q : post) w[p + "t" + q] = "kept " + p + q, w[p + "r" + q] = "kept", w[p + "out" + q] = "kept";
        w["t"] = "ab", w["u"] = "ba";
        int q = i % 5;
        VS in = {"t", q == 3 ? "r" : "u"};
        step(c, w, ops()[q], in, o, "");
        step(c, w, ops()[q], in, "t", "");
        step(c, w, ops()[q], in, "out", "");
    });
}
