#include "reports.h"

struct Tool {
    S name;
    S bools, strings; /* option letters */
    int min, max, out; /* numbers of files; index of the output among them, -1: none */
    VS tokens;
};
static std::vector<File> world(bool denied = false)
{
    m::Acc a = mkacc({{'a', cnt(7, 2)}, {'b', cnt(9, 9)}}, {{"{a}-{b}", cnt(2, 0)}, {"{b}-{}", cnt(9, 9)}}, 4, 5, 2), b = mkacc({{'a', cnt(4, 1)}}, {{"{a}-{c}", cnt(1, 0)}});
    m::Wac w = mkwac({{"the", cnt(9, 4)}}, {{"cat", cnt(5, 1)}}, 8), x = mkwac({{"the", cnt(2, 0)}}, {{"dog", cnt(1, 1)}}, 3);
    m::Edo e, f;
    e.ins = 4, e.del = 1, e.moves = 3, e.move[2] = 3;
    f.ins = 1, f.del = 2, f.moves = 1, f.move[2] = 1;
    return {{"t", "the cat sat^.\n"}, {"u", "cat he sat.~"}, {"-", "the dog\n"}, {"a", m::render(a)}, {"b", m::render(b)}, {"w", m::render(w)}, {"x", m::render(x)}, {"e", m::render(e)}, {"f", m::render(f)}, {"dir", "", N_DIR}, {"sub", "", N_DIR}, {"old", rep("previous contents\n", 200)}, {"denied", "the cat", denied ? N_DENIED : N_FILE}, {"full", "", N_FULL}, {"-r", "cat"}};
}
static std::vector<Tool> tools()
{
    VS bad = {"nosuch", "-q", "-h", "-", "--", "dir"};
    std::vector<Tool> v = {
        {"accuracy", "", "", 2, 3, 2, {"t", "u", "out"}},
        {"editop", "D", "", 2, 3, 2, {"t", "u", "out", "-D", "-Dx"}},
        {"wordacc", "", "S", 2, 3, 2, {"t", "u", "out", "-S", "-Su", "-Snosuch", "-s"}},
        {"groupacc", "", "", 2, 3, 2, {"t", "a", "out", "old"}},
        {"nonstopacc", "", "", 2, 2, -1, {"u", "w", "a"}},
        {"accsum", "", "", 2, 1 << 30, -1, {"a", "b", "w"}},
        {"wordaccsum", "", "", 2, 1 << 30, -1, {"w", "x", "a"}},
        {"editopsum", "", "", 2, 1 << 30, -1, {"e", "f", "a"}},
        {"accci", "", "", 2, 1 << 30, -1, {"a", "b", "w"}},
        {"wordaccci", "", "", 2, 1 << 30, -1, {"w", "x", "a"}},
        {"accdist", "", "", 1, 1 << 30, -1, {"a", "b", "w"}},
        {"wordaccdist", "", "", 1, 1 << 30, -1, {"w", "x", "a"}},
        {"editopcost", "", "", 1, 2, -1, {"e", "f", "a"}},
        {"synctext", "HisT", "", 2, 16, -1, {"t", "u", "-H", "-i", "-s", "-T", "-Hi", "-S"}},
        {"vote", "DO", "osw", 2, 16, -1, {"t", "u", "-O", "-o", "-oout", "-s", "-s1/2", "-w2/3", "1/1", "-Ox"}},
        {"ngram", "", "n", 1, 1 << 30, -1, {"t", "u", "-n", "-n2", "3", "-n4", "-N"}},
        {"wordfreq", "", "", 1, 1 << 30, -1, {"t", "u", "-n"}},
    };
    for (auto &t : v) t.tokens.insert(t.tokens.end(), bad.begin(), bad.end());
    return v;
}
struct Parsed {
    enum { USAGE, ERROR, RUN } kind = RUN;
    S about;
    VS files;
    std::map<char, S> opt;
};
static Parsed parse(const Tool &t, const VS &args)
{
    Parsed p;
    auto end = [&](int k, const S &a) {
        p.kind = k == 0 ? Parsed::USAGE : Parsed::ERROR;
        p.about = a;
        return p;
    };
    if (args.empty()) return end(0, "");
    for (size_t i = 0; i < args.size(); i++) {
        const S &a = args[i];
        if (a.size() < 2 || a[0] != '-') {
            p.files.push_back(a);
            continue;
        }
        if (starts("-help", a)) return end(0, "");
        char c = a[1];
        if (t.bools.find(c) != S::npos) {
            if (a.size() > 2 || p.opt.count(c)) return end(1, a);
            p.opt[c] = "";
        } else if (t.strings.find(c) != S::npos) {
            S v;
            if (a.size() > 2) v = a.substr(2);
            else if (i + 1 < args.size()) v = args[++i];
            else return end(1, a);
            if (p.opt.count(c)) return end(1, a);
            p.opt[c] = v;
        } else return end(1, a);
    }
    return p;
}
static VS canonical(const Parsed &p, const Tool &t)
{
    VS a;
    for (auto &o : p.opt) {
        a.push_back(S("-") + o.first);
        if (t.strings.find(o.first) != S::npos) a.push_back(o.second);
    }
    a.insert(a.end(), p.files.begin(), p.files.end());
    return a;
}
static void judge(Ctx &c, const Tool &t, const VS &args, const std::vector<File> &more = {})
{
    std::vector<File> W = world();
    W.insert(W.end(), more.begin(), more.end());
    Inv v(t.name, args, W);
    Res r = c.run(v);
    Parsed p = parse(t, args);
    Res dr = r;
    if (p.opt.count('D')) dr.out = ""; /* the debugging output precedes errors */
    if (p.kind == Parsed::USAGE) {
        c.eq("status of the usage", 0, r.status);
        if (!starts(r.err, "Usage:  " + t.name + " ") || r.err.find('\n') != r.err.size() - 1) c.fail("not the usage: %s", show(r.err).c_str());
        c.eq("standard output besides the usage", S(), r.out);
        c.expect(r.wrote.empty(), "a file was written besides the usage");
        return;
    }
    if (p.kind == Parsed::ERROR) {
        refused(c, v, r, "\"" + p.about + "\"");
        c.expect(r.wrote.empty(), "a file was written besides the error");
        return;
    }
    int n = p.files.size();
    if (n < t.min || n > t.max || (p.opt.count('T') && t.name == "synctext" && n != 2)) {
        refused(c, v, dr);
        c.expect(r.wrote.empty(), "a file was written besides the error");
        return;
    }
    auto frac = [](const S &s) { return s.size() == 3 && s[0] >= '1' && s[1] == '/' && s[2] <= '9' && s[0] <= s[2]; };
    if (t.name == "vote" && ((p.opt.count('s') && !frac(p.opt['s'])) || (p.opt.count('w') && !frac(p.opt['w'])))) {
        refused(c, v, dr);
        c.expect(r.wrote.empty(), "a file was written besides the error");
        return;
    }
    if (t.name == "ngram" && p.opt.count('n') && p.opt['n'] != "1" && p.opt['n'] != "2" && p.opt['n'] != "3") return refused(c, v, dr);
    /* the files it needs */
    S out = t.out >= 0 && n > t.out ? p.files[t.out] : t.name == "vote" && p.opt.count('o') ? p.opt['o'] : S();
    bool to_file = (t.out >= 0 && n > t.out) || (t.name == "vote" && p.opt.count('o'));
    bool missing = false;
    for (int i = 0; i < n; i++)
        if (i != t.out && (p.files[i] == "nosuch" || p.files[i] == "dir" || p.files[i] == "out")) missing = true;
    if (p.opt.count('S') && (p.opt['S'] == "nosuch" || p.opt['S'] == "dir")) missing = true;
    for (auto &w : r.wrote)
        if (!to_file || w.first != out) c.fail("the file %s was written", w.first.c_str());
    if (missing) c.expect(r.wrote.empty(), "the output was touched although an input was refused");
    if (missing) return refused(c, v, dr);
    if (to_file && (out == "dir" || starts(out, "nosuch/"))) return refused(c, v, dr);
    /* the same as the plain order of arguments gives */
    VS can = canonical(p, t);
    if (can != args) {
        Res q = c.run(t.name, can, W);
        if (!r.same(q)) c.fail("the result differs from that of %s\nhere: %s\nthere: %s", Inv(t.name, can, {}).text().c_str(), r.text().c_str(), q.text().c_str());
    }
    if (r.status) {
        c.expect(r.wrote.empty(), "the output was touched although the run was refused");
        return refused(c, v, dr);
    }
    c.eq("standard error", S(), r.err);
    if (to_file) {
        if (!r.wrote.count(out)) c.fail("status 0, but %s was not written", out.c_str());
        if (p.opt.count('D')) return;
        c.eq("standard output besides the output file", S(), r.out);
        Parsed s = p;
        if (t.out >= 0) s.files.resize(t.out);
        else s.opt.erase('o');
        bool inout = false;
        for (auto &x : s.files) inout |= x == out;
        if (inout) return;
        Res q = c.ok(t.name, canonical(s, t), W);
        c.eq("output file", q.out, r.wrote[out]);
    } else if (r.out.empty() && t.name != "vote") c.fail("status 0 without a result");
}

void vx::define(Check &k)
{
    bool T = k.thorough;
    for (auto &t : tools()) {
        uint64_t kk = t.tokens.size();
        int L = T ? (kk > 13 ? 5 : kk > 10 ? 5 : 6) : (kk > 11 ? 4 : kk > 9 ? 5 : 5);
        k.add(t.name, fmt("all argument lists of up to %d out of %zu: %s", L, (size_t) kk, join(t.tokens, " ").c_str()), nstr(kk, L), [=](Ctx &c, uint64_t i) {
            VS a;
            for (int d : str(kk, i)) a.push_back(t.tokens[d]);
            judge(c, t, a);
        });
    }
    auto ts = tools();
    uint64_t nt = ts.size();
    static const VS good = {"t u", "t u", "t u", "t a", "u w", "a b", "w x", "e f", "a b", "w x", "a b", "w x", "e f", "t u", "t u", "t u", "t u"};
    auto split = [](const S &s) {
        VS v;
        S w;
        for (char ch : s + " ")
            if (ch == ' ') v.push_back(w), w = "";
            else w += ch;
        return v;
    };
    VS ch = {"0", "1", "2", "9", "/", "3", ":", ".", "x", "-", " ", "+"};
    int VL = T ? 5 : 4;
    uint64_t nv = nstr(ch.size(), VL);
    k.add("values", fmt("vote -s, -w and ngram -n with all values of up to %d out of %s, attached or separate", VL, join(ch, "").c_str()), nv * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S v;
        for (int d : str(ch.size(), x.of(nv))) v += ch[d];
        int which = x.of(3), att = x.of(2);
        S o = which == 0 ? "-s" : which == 1 ? "-w" : "-n";
        VS a = att ? VS{o + v} : VS{o, v};
        a.push_back("t");
        if (which < 2) a.push_back("u");
        judge(c, ts[which < 2 ? 14 : 15], a);
    });
    /* values and names of every byte */
    k.add("names", "every byte alone, doubled, first and last in the name of an input, an output, a -S list (attached and separate) and a -o file", 255 * 4 * 8, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        S b(1, char(x.of(255) + 1));
        int form = x.of(4), use = x.of(8);
        S n = form == 0 ? b : form == 1 ? b + b : form == 2 ? b + "k" : "k" + b;
        if (b == "/" || n == "." || n == "..") return c.skip();
        bool attached = use == 1 || use == 3;
        if (!attached && use >= 4 && starts("-help", n) && n.size() > 1) return c.skip();
        std::vector<File> f;
        for (auto &w : world())
            if (w.name == n) return c.skip();
        if (use != 2 && use != 3 && use != 6) f.push_back({n, "the cat"});
        switch (use) {
        case 0: return judge(c, ts[2], {"-S", n, "t", "u"}, f);
        case 1: return judge(c, ts[2], {"-S" + n, "t", "u"}, f);
        case 2: return judge(c, ts[14], {"-o", n, "t", "u"}, f);
        case 3: return judge(c, ts[14], {"-o" + n, "t", "u"}, f);
        case 4: return judge(c, ts[0], {"t", n}, f);
        case 5: return judge(c, ts[16], {n, "u", n}, f);
        case 6: return judge(c, ts[0], {"t", "u", n}, f);
        case 7: return judge(c, ts[13], {n, "-s", "u"}, f);
        }
    });
    /* an existing output stays as it was when the inputs are refused */
    VS junk = {"", "the cat\n", "\xFF", "UNLV-ISRI OCR Accuracy Report Version 7.0\n", "ocreval Vendor-Independent Interface Version 7.0\n" + rep("-", 48) + "\n" + rep("-", 48) + "\nthe cat"};
    for (auto &w : world())
        if (w.name.size() == 1 && S("abwxef").find(w.name) != S::npos)
            for (int cut = 0; cut < 4; cut++) junk.push_back(w.data.substr(0, w.data.size() * (4 - cut) / 4));
    uint64_t nj = junk.size();
    k.add("preserved", "every tool that writes a file, each input a text, not a text, a report of any kind or cut short, or with a header, with an existing output", 5 * nj * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int ti = x.of(5);
        S body = junk[x.of(nj)];
        int place = x.of(3), fresh = x.of(2);
        auto &t = ti < 4 ? ts[ti] : ts[14];
        VS a = split(good[&t - &ts[0]]);
        if (place == 2) {
            if (t.name != "wordacc") return c.skip();
            a.insert(a.begin(), "-Sin");
        } else a[place] = "in";
        a.insert(ti < 4 ? a.end() : a.begin(), fresh ? ti < 4 ? "out" : "-oout" : ti < 4 ? "old" : "-oold");
        auto W = world();
        W.push_back({"in", body});
        Res r = c.run(t.name, a, W);
        if (r.status) c.expect(r.wrote.empty(), "the output was touched although an input was refused");
        else c.expect(r.wrote.size() == 1 && r.out.empty(), "status 0 without the output file");
    });
    k.add("option-letters", "every tool with -X and -Xx for all 127 characters X, before, between and after the files, alone or repeated", nt * 127 * 2 * 3 * 2, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        auto &t = ts[x.of(nt)];
        S o = S("-") + char(x.of(127) + 1);
        if (x.of(2)) o += "t";
        int place = x.of(3), twice = x.of(2);
        if (o.find('\n') != S::npos || o[1] == 'D') return c.skip();
        VS a = split(good[&t - &ts[0]]);
        a.insert(a.begin() + place, o);
        if (twice) a.push_back(o);
        judge(c, t, a);
    });
    /* options stand anywhere among any number of files: the result is that with the options first */
    k.add("positions", "every option of synctext, vote, ngram and wordacc, its value attached or separate, before every file out of up to 17 and after the last, alone or with another option in the first or the last place", 0, [](Ctx &, uint64_t) {});
    {
        VS tn = {"synctext", "vote", "ngram", "wordacc"};
        std::vector<std::vector<VS>> os = {{{"-H"}, {"-i"}, {"-s"}}, {{"-O"}, {"-o", "out"}, {"-oout"}, {"-s", "1/2"}, {"-s1/2"}, {"-w", "1/2"}, {"-w1/2"}}, {{"-n", "2"}, {"-n2"}}, {{"-S", "u"}, {"-Su"}}};
        struct Case { S tool; VS opt, second; int files, at; bool last; };
        auto cs = std::make_shared<std::vector<Case>>();
        for (size_t t = 0; t < tn.size(); t++)
            for (auto &o : os[t])
                for (int n = 2; n <= (t == 3 ? 3 : t == 2 ? 17 : 16); n++)
                    for (int at = 0; at <= n; at++) {
                        cs->push_back({tn[t], o, {}, n, at, false});
                        for (auto &q : os[t])
                            if (q[0].substr(0, 2) != o[0].substr(0, 2)) cs->push_back({tn[t], o, q, n, at, false}), cs->push_back({tn[t], o, q, n, at, true});
                    }
        k.fams.back().n = cs->size();
        k.fams.back().f = [=](Ctx &c, uint64_t i) {
            const Case &q = (*cs)[i];
            VS f, a;
            for (int j = 0; j < q.files; j++) f.push_back(q.tool == "wordacc" && j == 2 ? "out" : j % 3 == 0 ? "t" : j % 3 == 1 ? "u" : "-");
            auto put = [](VS &v, const VS &o) { v.insert(v.end(), o.begin(), o.end()); };
            if (!q.last) put(a, q.second);
            for (int j = 0; j <= q.files; j++) {
                if (j == q.at) put(a, q.opt);
                if (j < q.files) a.push_back(f[j]);
            }
            if (q.last) put(a, q.second);
            VS b;
            put(b, q.opt), put(b, q.second), put(b, f);
            Res want = c.ok(q.tool, b, world()), got = c.run(q.tool, a, world());
            c.eq("result with the options elsewhere", want.text(), got.text());
        };
    }
    k.add("usage", "every tool without arguments, with every prefix of -help and longer strings, in every position", nt * 9 * 3, [=](Ctx &c, uint64_t i) {
        static const VS hs = {"-h", "-he", "-hel", "-help", "-helpx", "-helper", "-H", "-hx", "--help"};
        Mix x(i);
        auto &t = ts[x.of(nt)];
        S h = hs[x.of(9)];
        int place = x.of(3);
        VS a = split(good[&t - &ts[0]]);
        a.insert(a.begin() + place, h);
        judge(c, t, a);
        judge(c, t, {h});
        judge(c, t, {});
    });
    /* outputs: new, existing longer and shorter, a directory, a missing directory, on a full device, another's */
    VS outs = {"out", "old", "sub/new", "dir", "nosuch/out", "full", "-", "out with blanks", "-r"};
    uint64_t no = outs.size();
    k.add("outputs", "every tool that writes a file, to nine kinds of output", 5 * no * 3, [=](Ctx &c, uint64_t i) {
        Mix x(i);
        int ti = x.of(5);
        S o = outs[x.of(no)];
        int how = x.of(3);
        auto &t = ti < 4 ? ts[ti] : ts[14];
        VS a = split(good[&t - &ts[0]]);
        if (ti < 4) {
            if (o == "-r") return c.skip();
            a.push_back(o);
        } else if (how == 0) a.push_back("-o" + o);
        else if (how == 1) a.push_back("-o"), a.push_back(o);
        else a.insert(a.begin(), {"-o", o});
        Inv v(t.name, a, world());
        Res r = c.run(v);
        if (o == "dir" || o == "nosuch/out") return refused(c, v, r, "\"" + o + "\"");
        if (o == "full") return refused(c, v, r);
        judge(c, t, a);
        if (r.status != 0) c.fail("output to %s failed: %s", o.c_str(), show(r.err).c_str());
    });
    /* files that cannot be read, in every place */
    k.add("inputs", "every tool with a missing, unreadable or directory input in every place and as option value", nt * 3 * 3, [=](Ctx &c, uint64_t i) {
        static const VS kinds = {"nosuch", "denied", "dir"};
        Mix x(i);
        auto &t = ts[x.of(nt)];
        S bad = kinds[x.of(3)];
        int place = x.of(3);
        VS a = split(good[&t - &ts[0]]);
        if (place == 2) {
            if (t.name != "wordacc") return c.skip();
            a.insert(a.begin(), "-S" + bad);
        } else a[place] = bad;
        Inv v(t.name, a, world(true));
        Res r = c.run(v);
        refused(c, v, r, bad == "dir" ? "" : "\"" + bad + "\"");
        c.expect(r.wrote.empty(), "a file was written besides the error");
    }).exec_ok = false; /* (the real tools would run as root, who may read everything) */
    k.add("many-files", "tools that take any number of files with 1, 2, 17, 255, 256, 257, 32767, 32768 and 70000 of them; 16 and 17 for the others", nt * 9, [=](Ctx &c, uint64_t i) {
        static const int ns[] = {1, 2, 16, 17, 255, 257, 32767, 32768, 70000};
        auto &t = ts[i % nt];
        int n = ns[i / nt];
        if (n > 1000 && !T && n != 32768) return c.skip();
        S f = split(good[i % nt])[t.out >= 0 ? 0 : 1];
        if (n > 1000 && (t.name == "accci" || t.name == "accsum" || t.name == "accdist")) return c.skip(); /* slow, decided by C06, C14, C15 */
        VS a(n, f);
        Inv v(t.name, a, world());
        Res r = c.run(v);
        bool role = t.name == "groupacc"; /* a text is not a report */
        if (n < t.min || n > t.max || role) return refused(c, v, r);
        if (n == 3 && t.out == 2) return;
        c.eq("status", 0, r.status);
    }).limit = 120;
    k.fams.back().exec_sample = 20;
}
