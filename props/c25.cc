#include "common.h"

/* The library as its headers document it, also where no tool uses it so (shim/library.c). */
static S F(std::initializer_list<S> l)
{
    S s;
    size_t i = 0;
    for (auto &x : l) s += (i++ > 1 ? S(1, '\1') : S()) + x;
    return s;
}
static S showt(const Text &t)
{
    S s = fmt("%zu:", t.size());
    for (auto &c : t) s += fmt("%s%X ", c.s ? "^" : "", c.v);
    return s + "\n";
}
struct Opt {
    bool header, markers, norm, lower;
    m::U marker;
};
static const S TITLE = "ocreval Vendor-Independent Interface Version ";
/* what read_text appends; false: refused */
static bool model_read(const S &bytes, const Opt &o, Text &add, bool &found)
{
    S body = bytes;
    found = false;
    if (o.header && starts(bytes, TITLE)) {
        found = true;
        int d = 0;
        bool first = true;
        S rest;
        for (auto &l : lines(bytes)) {
            if (d == 2) rest += l;
            else if (!first && l == S(48, '-') + "\n") d++;
            first = false;
        }
        body = rest;
    }
    std::vector<m::U> cs;
    if (!m::decode(body, cs)) return false;
    m::U mk = o.marker ? o.marker : '^';
    bool s = false;
    for (auto u : cs)
        if (o.markers && u == mk) s = true;
        else add.push_back({u, s}), s = false;
    if (o.norm) add = m::normalize(add);
    if (o.lower)
        for (auto &c : add) c.v = m::lower(c.v);
    return true;
}
static Inv lib(const VS &ops, const std::vector<File> &fs = {}, const S &in = "")
{
    VS a = {"ops"};
    a.insert(a.end(), ops.begin(), ops.end());
    Inv v("library", a, fs);
    v.stdin_data = in;
    return v;
}
static void expect(Ctx &c, const Inv &v, int st, const S &out, const S &err, const std::map<S, S> &wrote = {})
{
    Res r = c.run(v);
    c.eq("exit status", st, r.status);
    c.eq("standard output", out, r.out);
    c.eq("standard error", err, r.err);
    for (auto &w : wrote)
        if (!r.wrote.count(w.first)) c.fail("%s was not written", w.first.c_str());
        else c.eq("contents of " + w.first, w.second, r.wrote[w.first]);
    for (auto &w : r.wrote)
        if (!wrote.count(w.first)) c.fail("%s was written or left behind", w.first.c_str());
}
static S err(const S &m) { return "library: " + m + "\n"; }

void vx::define(Check &k)
{
    bool T = k.thorough;
    static const VS A1 = {"a", "A", " ", "\n", "^", "*", "\xC3\x89", "\t", "o"};
    const int L1 = T ? 5 : 4;
    const uint64_t n1 = nstr(9, L1);
    k.add("read", fmt("read_text with every combination of options, four suspect markers, onto an empty and five other texts, from a file and standard input: all texts up to %d of 9 characters", L1), n1 * 16 * 4 * 6, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        S b = strs(A1, x.of(n1));
        int fl = x.of(16), mk = x.of(4), pre = x.of(6);
        static const m::U mks[] = {0, '*', 0xC9, 'o'};
        Opt o = {bool(fl & 1), bool(fl & 2), bool(fl & 4), bool(fl & 8), mks[mk]};
        if (!o.markers && mk > 1) return c.skip();
        Text t;
        VS ops;
        if (pre == 1) t = {{'X', false}, {' ', true}}, ops = {F({"P", "0", "0", "58"}), F({"P", "0", "1", "20"})};
        if (pre == 2) t = {{'\n', false}}, ops = {F({"P", "0", "0", "A"})};
        if (pre == 3) t = {{'A', false}}, ops = {F({"P", "0", "0", "41"})};
        if (pre == 4) t = {{' ', false}}, ops = {F({"P", "0", "0", "20"})};
        if (pre == 5) t = {{'X', false}, {0xC9, true}, {'A', false}}, ops = {F({"P", "0", "0", "58"}), F({"P", "0", "1", "C9"}), F({"P", "0", "0", "41"})};
        Text add;
        bool found;
        model_read(b, o, add, found);
        t.insert(t.end(), add.begin(), add.end());
        S flags = S(fl & 1 ? "h" : "") + (fl & 2 ? "m" : "") + (fl & 4 ? "n" : "") + (fl & 8 ? "i" : "");
        bool in = !o.header && (q / 7) % 2;
        ops.push_back(F({"R", "0", flags, fmt("%X", mks[mk]), in ? "-" : "f"}));
        ops.push_back("S0");
        expect(c, lib(ops, {{"f", b}}, in ? b : ""), 0, showt(t) + "end\n", "");
    });
    k.add("read-headers", "read_text with every combination of options and suspect markers that occur in the title: every beginning of the title followed by each of 8 characters, or by a header", TITLE.size() * 10 * 16 * 6, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        size_t cut = x.of(TITLE.size()) + 1;
        int nx = x.of(10), fl = x.of(16), mk = x.of(6);
        static const VS nxs = {"", "x", "o", "\n", "^", " ", "e", "\xC3\xA9", "\n" + S(48, '-') + "\n" + S(48, '-') + "\nxoe", "7.0\nfor\n" + S(48, '-') + "\n^o\n" + S(48, '-') + "\n^xoe"};
        static const m::U mks[] = {0, 'o', 'e', ' ', 'n', 'V'};
        Opt o = {bool(fl & 1), bool(fl & 2), bool(fl & 4), bool(fl & 8), mks[mk]};
        S b = TITLE.substr(0, cut) + nxs[nx];
        Text add;
        bool found;
        model_read(b, o, add, found);
        S flags = S(fl & 1 ? "h" : "") + (fl & 2 ? "m" : "") + (fl & 4 ? "n" : "") + (fl & 8 ? "i" : "");
        expect(c, lib({F({"R", "0", flags, fmt("%X", mks[mk]), "f"}), "S0"}, {{"f", b}}), 0, S(found ? "header\n" : "") + showt(add) + "end\n", "");
    });
    k.add("read-many", "texts read one after another into the same text or another, with any two option sets", 12 * 12 * 16 * 16, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        static const VS bs = {"", "a", "A b", " a", "a ", "\n", "^", "^a", "a^", "a\n", "\na", " \n "};
        S b[2] = {bs[x.of(12)], bs[x.of(12)]};
        VS ops;
        Text t;
        for (int i = 0; i < 2; i++) {
            int fl = x.of(16);
            Opt o = {bool(fl & 1), bool(fl & 2), bool(fl & 4), bool(fl & 8), 0};
            Text add;
            bool found;
            model_read(b[i], o, add, found);
            t.insert(t.end(), add.begin(), add.end());
            ops.push_back(F({"R", "0", S(fl & 1 ? "h" : "") + (fl & 2 ? "m" : "") + (fl & 4 ? "n" : "") + (fl & 8 ? "i" : ""), "0", fmt("f%d", i)}));
        }
        ops.push_back("S0");
        expect(c, lib(ops, {{"f0", b[0]}, {"f1", b[1]}}), 0, showt(t) + "end\n", "");
    });
    static const VS BY = {"a", "\x02", "\x7F", "\x80", "\xBF", "\xC2", "\xC3", "\xC1", "\xE0", "\xE2", "\xED", "\xEF", "\xF0", "\xF1", "\xF4", "\xF5", "\xFF", "\x9F", "\xA0", "\x8F", "\x90"};
    const int L2 = T ? 4 : 3;
    const uint64_t n2 = nstr(21, L2);
    k.add("cstring", fmt("cstring_to_text on all strings of up to %d of 21 bytes, onto a text that is empty or not", L2), n2 * 2, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        bool pre = x.of(2);
        S s = strs(BY, x.of(n2));
        std::vector<m::U> cs;
        bool ok = m::decode(s, cs);
        Text t;
        if (pre) t.push_back({'x', true});
        for (auto u : cs) t.push_back({u, false});
        VS ops;
        if (pre) ops.push_back(F({"P", "0", "1", "78"}));
        ops.push_back(F({"C", "0", s}));
        if (ok) ops.push_back("S0");
        expect(c, lib(ops), 0, ok ? "1\n" + showt(t) + "end\n" : "0\nend\n", "");
    });
    static const std::vector<Text> WC = {{{'a', false}}, {{'~', false}}, {{'a', true}}, {{'\n', false}}, {{' ', true}}, {{1, false}}, {{0x301, false}}, {{0x10FFFF, true}}, {{0xE9, false}}, {{'^', false}}, {{0x25CC, true}}, {{'<', false}}};
    const int L3 = T ? 4 : 3;
    const uint64_t n3 = nstr(12, L3);
    k.add("write", fmt("write_text with and without a header, to a file and standard output, and the characters one by one: all texts up to %d of 12 characters", L3), n3 * 4, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        bool h = x.of(2), out = x.of(2);
        auto ix = str(12, x.of(n3));
        Text t;
        VS ops;
        S d0, d1, body;
        for (int i : ix) {
            m::Ch ch = WC[i][0];
            t.push_back(ch);
            ops.push_back(F({"P", "0", ch.s ? "1" : "0", fmt("%X", ch.v)}));
            d0 += m::repr(ch.s, ch.v, false) + "|", d1 += m::repr(ch.s, ch.v, true) + "|", body += m::repr(ch.s, ch.v, false);
        }
        S file = (h ? TITLE + "7.0\n" + S(48, '-') + "\nmade here\n" + S(48, '-') + "\n" : S()) + body;
        ops.push_back(F({"D", "0", "0"})), ops.push_back(F({"D", "0", "1"}));
        ops.push_back(F({"W", "0", h ? "1" : "0", out ? "-" : "f"}));
        ops.push_back("S0");
        S more;
        if (!out) { /* and back: what was written without escapes is read as it was */
            bool plain = true;
            for (auto &ch : t) plain &= ch.v != 1 && ch.v != 0x301 && ch.v != 0x10FFFF && ch.v != '^';
            Text u = t;
            if (plain) {
                ops.push_back(F({"R", "1", h ? "hm" : "m", "0", "f"})), ops.push_back("S1");
                more = S(h ? "header\n" : "") + showt(u);
            }
        }
        std::map<S, S> w;
        if (!out) w["f"] = file;
        expect(c, lib(ops), 0, d0 + "\n" + d1 + "\n" + (out ? file : S()) + showt(t) + more + "end\n", "", w);
    });
    /* alignments do not depend on earlier ones */
    const uint64_t np = nstr(2, T ? 4 : 3);
    static const VS ab = {"a", "b"};
    static const char *const kinds[] = {"f", "h", "t"};
    auto texts = [=](int base, const S &a, const S &b) {
        VS ops;
        for (int i = 0; i < 2; i++) ops.push_back(fmt("X%d", i)), ops.push_back(F({"C", fmt("%d", i), i ? b : a}));
        (void) base;
        return ops;
    };
    k.add("repeated-alignments", "every ordered pair of alignments (each of the three procedures on every pair of small texts): the second is what it is alone", 3 * 3 * np * np * np * np, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int k1 = x.of(3), k2 = x.of(3);
        S a2 = strs(ab, x.of(np)), b2 = strs(ab, x.of(np)), a1 = strs(ab, x.of(np)), b1 = strs(ab, x.of(np));
        static std::map<S, S> memo;
        auto alone = [&](int kk, const S &a, const S &b) -> S {
            S key = fmt("%d,", kk) + a + "," + b;
            auto it = memo.find(key);
            if (it != memo.end() && !c.explain && c.backend == B_INPROC) return it->second;
            VS ops = texts(0, a, b);
            ops.push_back(F({"Y", kinds[kk], "2"}));
            Res r = c.run(lib(ops));
            if (r.status || r.err.size()) c.fail("an alignment failed: %s", r.text().c_str());
            return memo[key] = r.out.substr(0, r.out.size() - 4);
        };
        VS ops = texts(0, a1, b1), o2 = texts(0, a2, b2);
        ops.push_back(F({"Y", kinds[k1], "2"}));
        ops.insert(ops.end(), o2.begin(), o2.end());
        ops.push_back(F({"Y", kinds[k2], "2"}));
        S want = alone(k1, a1, b1) + alone(k2, a2, b2) + "end\n";
        expect(c, lib(ops), 0, want, "");
    });
    k.add("streams", "synchronize with -1 to 19 text streams", 21, [=](Ctx &c, uint64_t q) {
        int n = (int) q - 1;
        VS ops;
        for (int i = 0; i < 20; i++) ops.push_back(F({"C", fmt("%d", i), "a"}));
        ops.push_back(F({"Y", "h", fmt("%d", n)}));
        S ones;
        for (int i = 0; i < 20; i++) ones += "1\n";
        if (n < 2 || n > 16) return expect(c, lib(ops), 1, ones, err("invalid number of text streams"));
        S l = "(1";
        for (int i = 0; i < n; i++) l += " 0-0:1";
        expect(c, lib(ops), 0, ones + l + ")\nend\n", "");
    });
    /* ending */
    k.add("endings", "every way to end (return, terminate, error, error with a string, failing to open a file or to get memory) with and without a cleanup routine, error statuses and up to 3 temporary files", 6 * 2 * 5 * 4, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int way = x.of(6);
        bool cl = x.of(2);
        static const int sts[] = {-1, 2, 77, 255, 1};
        int st = sts[x.of(5)], tmp = x.of(4);
        VS ops;
        S out, e;
        if (cl) ops.push_back("H");
        if (st > 0) ops.push_back(fmt("M%d", st));
        if (tmp) ops.push_back(fmt("T%d", tmp));
        for (int i = 0; i < tmp; i++) out += "new1\n";
        int status = st > 0 ? st : 1;
        switch (way) {
        case 0:
            if (tmp) return c.skip(); /* without terminate, they are the caller's */
            out += "end\n", status = 0, cl = false;
            break;
        case 1: ops.push_back("t"), status = 0; break;
        case 2: ops.push_back("ewrong"), e = err("wrong"); break;
        case 3: ops.push_back(F({"s", "wrong", "a \"b\" %d"})), e = err("wrong \"a \"b\" %d\""); break;
        case 4: ops.push_back(F({"o", "r", "none"})), e = err("unable to open file \"none\""); break;
        case 5: ops.push_back(F({"z", "9000000000000000", "1000"})), e = err("unable to allocate memory"); break;
        }
        expect(c, lib(ops), status, out + (cl ? "cleanup\n" : ""), e);
    });
    static const VS PA = {"a", "/", ".", "\\", "\xC3\xA9"};
    const uint64_t n5 = nstr(5, T ? 7 : 6);
    k.add("basefilename", "basefilename of all paths up to 6 of 5 characters", n5, [=](Ctx &c, uint64_t q) {
        S p = strs(PA, q);
        size_t i = p.rfind('/');
        expect(c, lib({"B" + p}), 0, (i == S::npos ? p : p.substr(i + 1)) + "\nend\n", "");
    });
    static const VS CB = {"\x02", "a", "b", "\x7F", "\x80", "\xFF"};
    const uint64_t n6 = nstr(6, T ? 4 : 3);
    k.add("ustrcmp", "ustrcmp of all pairs of strings up to 3 (4) of 6 bytes", n6 * n6, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        S a = strs(CB, x.of(n6)), b = strs(CB, x.of(n6));
        expect(c, lib({F({"U", a, b})}), 0, S(a < b ? "-1" : a > b ? "1" : "0") + "\nend\n", "");
    });
    k.add("encode", "encode_or_die of every code point and of 4000 other values", 0x110000 / 64 + 4, [=](Ctx &c, uint64_t q) {
        if (q < 0x110000 / 64) {
            VS ops;
            S out;
            for (int i = 0; i < 64; i++) {
                m::U u = q * 64 + i;
                if (u >= 0xD800 && u < 0xE000) continue;
                ops.push_back(fmt("E%X", u));
                S e = u ? m::enc(u) : S(1, '\0');
                out += fmt("%zu:", e.size());
                for (unsigned char b : e) out += fmt("%02X", b);
                out += "\n";
            }
            return expect(c, lib(ops), 0, out + "end\n", "");
        }
        static const char *const bad[] = {"110000", "110001", "1FFFFF", "7FFFFFFF"};
        expect(c, lib({S("E") + bad[q - 0x110000 / 64]}), 1, "", err("could not encode UTF-8"));
    }).exec_sample = 200;
    k.add("classes", "the class name of every code point by charclass and charclass_name, and of every class number", 0x110000 / 256 + 256, [=](Ctx &c, uint64_t q) {
        auto &names = m::class_names();
        if (q < 256) {
            if (q < names.size()) return expect(c, lib({fmt("N%d", (int) q)}), 0, names[q] + "\nend\n", "");
            return expect(c, lib({fmt("N%d", (int) q)}), 1, "", err("invalid character class"));
        }
        q -= 256;
        VS ops;
        S out;
        for (int i = 0; i < 256; i++) ops.push_back(fmt("K%X", (int) (q * 256 + i))), out += names[m::char_class(q * 256 + i)] + "\n";
        expect(c, lib(ops), 0, out + "end\n", "");
    });
    static const VS ST = {"", "a", "the", "a b", "a a", "b\nthe", "x^y", "\xC3\x89", "a b a"};
    k.add("stopwords", "stop lists of all kinds queried with each of 8 words; not yet or twice initialised", (9 + 1) * 8 * 3, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int l = x.of(10), w = x.of(8), use = x.of(3);
        static const VS ws = {"a", "the", "b", "zebra", "", "A", "\xC3\xA9", "x^y"};
        if (use == 1) return expect(c, lib({"J" + ws[w]}), 1, "", err("stopwords not initialized"));
        S in = l < 9 ? "If" : "I-";
        S warn;
        std::set<S> stop = m::default_stopwords();
        std::vector<File> fs;
        if (l < 9) {
            fs = {{"f", ST[l]}};
            stop.clear();
            for (auto &y : m::words_of(ST[l], m::T_STOP))
                if (!stop.insert(y).second) warn += err("duplicate stopword \"" + y + "\"");
        }
        if (use == 2) return expect(c, lib({in, in}, fs), 1, "", warn + err("stopwords already initialized"));
        expect(c, lib({in, "J" + ws[w], "J" + ws[w]}, fs), 0, S(stop.count(ws[w]) ? "1\n1\n" : "0\n0\n") + "end\n", warn);
    });
    static const VS WA = {"a", "B", " ", "'", "1", "\xCC\x81", "\n"};
    const uint64_t n8 = nstr(7, T ? 4 : 3);
    k.add("words", "find_words of two texts one after the other, the list emptied between or not: all pairs of texts up to 3 (4) of 7 characters", n8 * n8 * 2, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        bool g = x.of(2);
        S a = strs(WA, x.of(n8)), b = strs(WA, x.of(n8));
        auto tx = [](const S &s) {
            Text t;
            std::vector<m::U> u;
            m::decode(s, u);
            for (auto y : u) t.push_back({y, false});
            return t;
        };
        VS wa = m::words(tx(a)), wb = m::words(tx(b)), all = g ? VS() : wa;
        all.insert(all.end(), wb.begin(), wb.end());
        auto sh = [](const VS &v) {
            S s = fmt("%zu:", v.size());
            for (auto &y : v) s += y + "|";
            return s + "\n";
        };
        VS ops = {F({"C", "0", a}), "F0"};
        if (g) ops.push_back("G");
        ops.push_back(F({"C", "1", b})), ops.push_back("F1");
        expect(c, lib(ops), 0, "1\n" + sh(wa) + (g ? "0\n" : "") + "1\n" + sh(all) + "end\n", "");
    });
    k.add("files", "open_file and file_exists for every kind of name and mode; standard input and output for no name", 2 * 5 * 2, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        bool w = x.of(2);
        int kd = x.of(5);
        bool ex = x.of(2);
        static const VS nm = {"-", "f", "none", "d", "x y"};
        std::vector<File> fs = {{"f", "old"}, {"x y", "other\n"}};
        File d;
        d.name = "d", d.kind = N_DIR;
        fs.push_back(d);
        Inv v = lib({}, fs, "from stdin");
        if (ex) {
            if (kd == 0) return c.skip();
            v.args.push_back("Q" + nm[kd]);
            return expect(c, v, 0, S(kd == 2 ? "0" : "1") + "\nend\n", "");
        }
        v.args.push_back(F({"o", w ? "w" : "r", nm[kd]}));
        if (!w) {
            if (kd == 3) return expect(c, v, 1, c.backend == B_INPROC && 0 ? "" : "file:", err("unable to read or write file"));
            if (kd == 2) return expect(c, v, 1, "", err("unable to open file \"none\""));
            return expect(c, v, 0, (kd == 0 ? "stdin:from stdin" : kd == 1 ? "file:old" : "file:other\n") + S("\nend\n"), "");
        }
        if (kd == 3) return expect(c, v, 1, "", err("unable to create file \"d\""));
        if (kd == 0) return expect(c, v, 0, "stdout:written\nend\n", "");
        expect(c, v, 0, "file:\nend\n", "", {{nm[kd], "written"}});
    });
    k.add("allocate", "allocate: memory of n x m bytes that is all zero, for n, m in 15 sizes, after other memory was released; impossible amounts refused", 15 * 15 + 4, [=](Ctx &c, uint64_t q) {
        static const long sz[] = {1, 2, 3, 7, 8, 15, 16, 17, 24, 63, 64, 100, 1000, 4096, 5000};
        if (q >= 225) {
            static const char *const huge[] = {"4611686018427387904\1" "4", "-1\1" "1", "9223372036854775807\1" "2", "2147483648\1" "2147483648"};
            return expect(c, lib({S("z") + huge[q - 225]}), 1, "", err("unable to allocate memory"));
        }
        expect(c, lib({F({"C", "0", "abcdefghijklmnopqrstuvwxyz"}), "X0", fmt("z%ld\1%ld", sz[q % 15], sz[q / 15]), fmt("z%ld\1%ld", sz[q % 15], sz[q / 15])}), 0, "1\n0\n0\nend\n", "");
    });
    k.add("warnings", "warning_string and error_string repeat their strings as they are", 6 * 6, [=](Ctx &c, uint64_t q) {
        static const VS ss = {"", "a", "%s%n", "\"", "\xC3\xA9 \\n", "a\nb"};
        expect(c, lib({F({"w", ss[q % 6], ss[q / 6]}), F({"s", ss[q % 6], ss[q / 6]})}), 1, "", err(ss[q % 6] + " \"" + ss[q / 6] + "\"") + err(ss[q % 6] + " \"" + ss[q / 6] + "\""));
    });
    /* initialize() */
    static const VS IA = {"-a", "-b", "-s", "-sx", "-v", "x", "-", "-h", "-x", "-ab", "--"};
    const int L9 = T ? 5 : 4;
    const uint64_t n9 = nstr(11, L9);
    k.add("initialize", fmt("initialize with two Boolean and two string options, or none: all argument lists up to %d of 11, the usage shown by a routine or not, with and without a cleanup routine, no arguments allowed or not", L9), n9 * 16, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int fl = x.of(16);
        bool u = fl & 1, n = fl & 2, cl = fl & 4, O = fl & 8;
        VS a;
        for (int i : str(11, x.of(n9))) a.push_back(IA[i]);
        S flags = S(u ? "u" : "") + (n ? "n" : "") + (cl ? "c" : "") + (O ? "O" : "");
        if (flags.empty()) flags = ".";
        VS args = {"init", flags};
        args.insert(args.end(), a.begin(), a.end());
        Inv v("library", args, {});
        S bye = cl ? "cleanup\n" : "";
        auto usage = [&] { expect(c, v, 0, (u ? "my usage\n" : "") + bye, u ? "" : "Usage:  library this and that\n"); };
        if (a.empty() && !n) return usage();
        bool oa = false, ob = false;
        S os, ov;
        bool hs = false, hv = false;
        VS rest;
        for (size_t i = 0; i < a.size(); i++) {
            const S &y = a[i];
            if (y[0] != '-' || y.size() == 1) {
                rest.push_back(y);
                continue;
            }
            if (starts("-help", y)) return usage();
            auto bad = [&](const S &w) { expect(c, v, 1, bye, err(w + " option \"" + y + "\"")); };
            char l = y[1];
            if (O) return bad("invalid");
            if (l == 'a' || l == 'b') {
                if (y.size() > 2) return bad("invalid");
                bool &z = l == 'a' ? oa : ob;
                if (z) return bad("duplicate");
                z = true;
            } else if (l == 's' || l == 'v') {
                bool &h = l == 's' ? hs : hv;
                if (y.size() == 2 && i + 1 >= a.size()) return bad("invalid");
                if (h) return bad("duplicate");
                h = true;
                (l == 's' ? os : ov) = y.size() > 2 ? y.substr(2) : a[++i];
            } else return bad("invalid");
        }
        S out = fmt("%zu:", rest.size());
        for (auto &y : rest) out += y + "|";
        expect(c, v, 0, out + fmt("%d%d", oa, ob) + (hs ? os : S("(none)")) + "|" + (hv ? ov : S("(none)")) + "\n", "");
    });
    /* reports from standard input */
    k.add("standard-input", "every kind of report read from standard input and written to standard output or a file; refused ones name stdin", 3 * 2 * 3, [=](Ctx &c, uint64_t q) {
        Mix x(q);
        int kd = x.of(3);
        bool f = x.of(2);
        int bad = x.of(3);
        m::Acc a;
        a.chars = 5, a.errors = 1, a.ch['a'].count = 5, a.ch['a'].missed = 1, a.conf["{a}-{b}"].count = 1, a.total.sub = a.total.err = a.unmarked.sub = a.unmarked.err = 1;
        m::Wac w;
        w.total.count = 1, w.nonstop[0].count = w.nonstop[1].count = w.distinct[0].count = w.distinct[1].count = w.phrase[1].count = w.nonterm["x"].count = 1;
        m::Edo e;
        e.ins = 3, e.moves = 1, e.move[7] = 1;
        S r = kd == 0 ? m::render(a) : kd == 1 ? m::render(w) : m::render(e);
        S in = bad == 0 ? r : bad == 1 ? "x" + r : "";
        static const char *const rd[] = {"a-", "b-", "c-"}, *const wr[] = {"A", "V", "Z"};
        Inv v = lib({rd[kd], S(wr[kd]) + (f ? "out" : "-")}, {}, in);
        if (bad) return expect(c, v, 1, "", err("invalid format in \"stdin\""));
        std::map<S, S> wrote;
        if (f) wrote["out"] = r;
        expect(c, v, 0, (f ? S() : r) + "end\n", "", wrote);
    });
}
