#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <utf8proc.h>

namespace m {
using vx::fmt;

/* ------------------------------------------------------------------ characters */
S enc(U c)
{
    S r;
    if (c < 0x80) r += (char) c;
    else if (c < 0x800) r += (char) (0xC0 | c >> 6), r += (char) (0x80 | (c & 63));
    else if (c < 0x10000) r += (char) (0xE0 | c >> 12), r += (char) (0x80 | (c >> 6 & 63)), r += (char) (0x80 | (c & 63));
    else r += (char) (0xF0 | c >> 18), r += (char) (0x80 | (c >> 12 & 63)), r += (char) (0x80 | (c >> 6 & 63)), r += (char) (0x80 | (c & 63));
    return r;
}
bool decode(const S &s, std::vector<U> &out)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char b = s[i];
        int n;
        U c, least;
        if (b < 0x80) n = 1, c = b, least = 0;
        else if ((b & 0xE0) == 0xC0) n = 2, c = b & 0x1F, least = 0x80;
        else if ((b & 0xF0) == 0xE0) n = 3, c = b & 0x0F, least = 0x800;
        else if ((b & 0xF8) == 0xF0) n = 4, c = b & 0x07, least = 0x10000;
        else return false;
        if (i + n > s.size()) return false;
        for (int j = 1; j < n; j++) {
            unsigned char d = s[i + j];
            if ((d & 0xC0) != 0x80) return false;
            c = c << 6 | (d & 63);
        }
        if (c < least || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) return false;
        out.push_back(c);
        i += n;
    }
    return true;
}
static int cat(U c) { return utf8proc_category(c); }
bool is_mark(U c)
{
    int k = cat(c);
    return k == UTF8PROC_CATEGORY_MN || k == UTF8PROC_CATEGORY_MC || k == UTF8PROC_CATEGORY_ME;
}
bool is_graphic(U c)
{
    if (c == ' ') return true;
    S k = utf8proc_category_string(c);
    return k[0] == 'L' || k[0] == 'M' || k[0] == 'N' || k[0] == 'P' || k[0] == 'S' || k == "Co";
}
bool is_blank(U c)
{
    if (c == '\n') return false;
    if (c == '\t' || c == 0x0B || c == 0x0C || c == 0x0D || c == 0xA0) return true;
    return utf8proc_category_string(c)[0] == 'Z';
}
bool starts_word(U c)
{
    S k = utf8proc_category_string(c);
    return k[0] == 'L' || k[0] == 'M' || k[0] == 'N' || k == "Pc" || k == "Co";
}
U lower(U c) { return utf8proc_tolower(c); }
S nfc(const S &s)
{
    unsigned char *p = utf8proc_NFC((const unsigned char *) s.c_str());
    S r = p ? (char *) p : "";
    free(p);
    return r;
}
S repr(bool suspect, U c, bool fake)
{
    S r = suspect ? "^" : "";
    if (c == '\n') return r + (fake ? "<\\n>" : "\n");
    if (is_graphic(c)) return r + (is_mark(c) ? "\xE2\x97\x8C" : "") + enc(c);
    return r + fmt(c < 256 ? "<%02X>" : "<%04X>", c);
}
struct Range {
    U a, b;
    const char *name;
};
static const Range RANGES[] = {
#include "charclass.inc"
};
const VS &class_names()
{
    static VS v;
    if (v.empty()) {
        v.push_back("Unassigned");
        for (auto &r : RANGES)
            if (std::find(v.begin(), v.end(), r.name) == v.end()) v.push_back(r.name);
    }
    return v;
}
int char_class(U c)
{
    int k = 0;
    for (auto &r : RANGES)
        if (c >= r.a && c <= r.b) k = std::find(class_names().begin(), class_names().end(), r.name) - class_names().begin();
    return k;
}

/* ------------------------------------------------------------------ texts */
const TextOpt T_NORMAL = {true, true, false}, T_WORD = {true, true, true}, T_GROUP = {false, true, false}, T_STOP = {false, false, true};

Text normalize(const Text &t)
{
    /* line by line: blanks of all kinds to single spaces, none at the ends, empty lines dropped.
     * A space that stands for several blanks is suspect if one of them was. */
    Text out, line;
    bool terminated = false;
    auto flush = [&](bool nl, bool nl_suspect) {
        size_t b = 0, e = line.size();
        while (b < e && is_blank(line[b].v)) b++;
        while (e > b && is_blank(line[e - 1].v)) e--;
        if (b < e) {
            for (size_t i = b; i < e; i++) {
                if (!is_blank(line[i].v)) {
                    out.push_back(line[i]);
                    continue;
                }
                bool s = false;
                size_t j = i;
                while (is_blank(line[j].v)) s |= line[j++].s;
                out.push_back({' ', s});
                i = j - 1;
            }
            if (nl) out.push_back({'\n', nl_suspect});
        }
        line.clear();
    };
    for (auto &c : t)
        if (c.v == '\n') flush(true, c.s);
        else line.push_back(c);
    (void) terminated;
    flush(false, false);
    return out;
}
Read read_text(const S &bytes, const TextOpt &o)
{
    Read r = {false, false, {}};
    S body = bytes;
    if (o.header) {
        static const S title = "ocreval Vendor-Independent Interface Version ";
        static const S divider = S(48, '-') + "\n";
        if (bytes.compare(0, title.size(), title) == 0) {
            r.header = true;
            int dividers = 0;
            S rest;
            bool first = true;
            for (auto &l : vx::lines(bytes)) {
                if (dividers == 2) rest += l;
                else if (!first && l == divider) dividers++;
                first = false;
            }
            body = rest;
        }
    }
    std::vector<U> cs;
    if (!decode(body, cs)) return r;
    r.ok = true;
    Text t;
    bool s = false;
    for (U c : cs)
        if (o.markers && c == '^') s = true;
        else t.push_back({c, s}), s = false;
    r.t = normalize(t);
    if (o.lower)
        for (auto &c : r.t) c.v = lower(c.v);
    return r;
}
S plain(const Text &t)
{
    S s;
    for (auto &c : t) s += enc(c.v);
    return s;
}

/* ------------------------------------------------------------------ words */
static std::vector<std::pair<std::pair<U, U>, WB>> wbtab;
static void load_wb()
{
    static const std::map<S, WB> names = {{"CR", CR}, {"LF", LF}, {"Newline", Newline}, {"Extend", Extend}, {"Regional_Indicator", RI}, {"Format", Format}, {"Katakana", Katakana}, {"Hebrew_Letter", Hebrew}, {"ALetter", ALetter}, {"Single_Quote", SQ}, {"Double_Quote", DQ}, {"MidNumLet", MidNumLet}, {"MidLetter", MidLetter}, {"MidNum", MidNum}, {"Numeric", Numeric}, {"ExtendNumLet", ExtendNumLet}};
    FILE *f = fopen(VERIF_DIR "/data/WordBreakProperty.txt", "r");
    if (!f) {
        fprintf(stderr, "no data/WordBreakProperty.txt\n");
        exit(3);
    }
    char line[1000], name[100];
    while (fgets(line, sizeof line, f)) {
        unsigned a, b;
        if (sscanf(line, "%x..%x ; %99[A-Za-z_]", &a, &b, name) == 3) wbtab.push_back({{a, b}, names.at(name)});
        else if (sscanf(line, "%x ; %99[A-Za-z_]", &a, name) == 2) wbtab.push_back({{a, a}, names.at(name)});
    }
    fclose(f);
    std::sort(wbtab.begin(), wbtab.end());
}
WB wb(U c)
{
    if (wbtab.empty()) load_wb();
    auto it = std::upper_bound(wbtab.begin(), wbtab.end(), std::make_pair(std::make_pair(c, (U) 0xFFFFFFFF), ExtendNumLet));
    if (it == wbtab.begin()) return Other;
    --it;
    return c >= it->first.first && c <= it->first.second ? it->second : Other;
}
static bool ahl(int p) { return p == ALetter || p == Hebrew; }
static bool mnlq(int p) { return p == MidNumLet || p == SQ; }
static bool nl(int p) { return p == CR || p == LF || p == Newline; }
static bool ef(int p) { return p == Extend || p == Format; }
std::vector<size_t> segments(const std::vector<U> &t)
{
    /* units: a character with the Extend and Format characters after it (WB4); nothing attaches
     * to a line break or to the start of text */
    struct Unit {
        size_t at;
        int p;
    };
    std::vector<Unit> u;
    for (size_t i = 0; i < t.size(); i++) {
        int p = wb(t[i]);
        if (ef(p) && !u.empty() && !nl(u.back().p)) continue;
        u.push_back({i, p});
    }
    std::vector<size_t> starts;
    auto P = [&](long k) { return k < 0 || k >= (long) u.size() ? -1 : u[k].p; };
    for (long k = 0; k < (long) u.size(); k++) {
        bool brk;
        if (k == 0) brk = true;
        else {
            int l = P(k - 1), r = P(k), ll = P(k - 2), rr = P(k + 1);
            if (l == CR && r == LF && u[k].at == u[k - 1].at + 1) brk = false;   /* WB3 */
            else if (nl(l) || nl(r)) brk = true;                                /* WB3a, WB3b */
            else if (ahl(l) && ahl(r)) brk = false;                             /* WB5 */
            else if (ahl(l) && (r == MidLetter || mnlq(r)) && ahl(rr)) brk = false; /* WB6 */
            else if (ahl(ll) && (l == MidLetter || mnlq(l)) && ahl(r)) brk = false; /* WB7 */
            else if (l == Hebrew && r == SQ) brk = false;                       /* WB7a */
            else if (l == Hebrew && r == DQ && rr == Hebrew) brk = false;       /* WB7b */
            else if (ll == Hebrew && l == DQ && r == Hebrew) brk = false;       /* WB7c */
            else if (l == Numeric && r == Numeric) brk = false;                 /* WB8 */
            else if (ahl(l) && r == Numeric) brk = false;                       /* WB9 */
            else if (l == Numeric && ahl(r)) brk = false;                       /* WB10 */
            else if (ll == Numeric && (l == MidNum || mnlq(l)) && r == Numeric) brk = false; /* WB11 */
            else if (l == Numeric && (r == MidNum || mnlq(r)) && rr == Numeric) brk = false; /* WB12 */
            else if (l == Katakana && r == Katakana) brk = false;               /* WB13 */
            else if ((ahl(l) || l == Numeric || l == Katakana || l == ExtendNumLet) && r == ExtendNumLet) brk = false; /* WB13a */
            else if (l == ExtendNumLet && (ahl(r) || r == Numeric || r == Katakana)) brk = false; /* WB13b */
            else if (l == RI && r == RI) brk = false;                           /* WB13c */
            else brk = true;                                                    /* WB14 */
        }
        if (brk) starts.push_back(u[k].at);
    }
    return starts;
}
VS words(const Text &t)
{
    std::vector<U> v;
    for (auto &c : t) v.push_back(c.v);
    auto st = segments(v);
    VS out;
    for (size_t k = 0; k < st.size(); k++) {
        size_t e = k + 1 < st.size() ? st[k + 1] : v.size();
        if (!starts_word(v[st[k]])) continue;
        S s;
        for (size_t i = st[k]; i < e; i++) s += enc(v[i]);
        out.push_back(nfc(s));
    }
    return out;
}
VS words_of(const S &bytes, const TextOpt &o) { return words(read_text(bytes, o).t); }
const std::set<S> &default_stopwords()
{
    static std::set<S> s;
    if (s.empty()) {
        static const char *list =
            "a about after all also an and any are as at back be because been but by can could did do does down each first for from get good "
            "had has have he her him his how i if in into is it its just know like little long made make man many may me more most my new no "
            "not now of on one only or other our out over said same see she so some than that the their them then there these they this to too "
            "two up us used very was way we were what when where which who why will with woman would you your ";
        S w;
        for (const char *p = list; *p; p++)
            if (*p == ' ') s.insert(w), w = "";
            else w += *p;
    }
    return s;
}
long length_class(const S &w)
{
    std::vector<U> v;
    decode(w, v);
    return std::min<long>(v.size(), 50);
}

/* ------------------------------------------------------------------ alignments */
static S segtext(const Text &t, long start, long len, bool suspects, const S &after_newline)
{
    S s;
    for (long i = start; i < start + len; i++) {
        s += repr(suspects && t[i].s, t[i].v, false);
        if (t[i].v == '\n') s += after_newline;
    }
    return s;
}
static const S SEP = S(79, '=') + "\n";
S render_sync(const Align &a, const std::vector<Text> &t, const VS &names, bool suspects)
{
    S out = SEP + "\n";
    int k = 0;
    for (auto &g : a)
        if (g.match)
            for (long i = 0; i < g.len[0]; i++) {
                bool s = false;
                for (size_t j = 0; j < t.size(); j++) s |= t[j][g.start[j] + i].s;
                out += repr(s && suspects, t[0][g.start[0] + i].v, false);
            }
        else out += fmt("{%d}", ++k);
    out += "\n";
    size_t w = 0;
    for (auto &n : names) w = std::max(w, n.size());
    k = 0;
    for (auto &g : a)
        if (!g.match) {
            out += SEP + fmt("{%d}\n", ++k);
            for (size_t j = 0; j < t.size(); j++)
                out += names[j] + S(w - names[j].size(), ' ') + " {" + segtext(t[j], g.start[j], g.len[j], suspects, S(w + 2, ' ')) + "}\n";
        }
    return out + SEP;
}
Align parse_sync(const S &out, const std::vector<Text> &t, const VS &names, bool suspects)
{
    auto bad = [&](const S &why) { throw vx::Fail{"synctext output does not reproduce its inputs: " + why + "\n" + vx::show(out, 3000)}; };
    size_t n = t.size(), w = 0;
    for (auto &x : names) w = std::max(w, x.size());
    if (out.compare(0, SEP.size() + 1, SEP + "\n") != 0) bad("no heading");
    size_t pos = SEP.size() + 1, end = out.find("\n" + SEP, pos - 1);
    if (end == S::npos) bad("no separator after the matches");
    S body = end >= pos ? out.substr(pos, end - pos) : S();
    /* the footnotes: for each, each text's piece */
    std::vector<VS> notes;
    pos = end + 1;
    while (1) {
        pos += SEP.size();
        if (pos == out.size()) break;
        S head = fmt("{%zu}\n", notes.size() + 1);
        if (out.compare(pos, head.size(), head)) bad("footnote number");
        pos += head.size();
        VS piece;
        for (size_t j = 0; j < n; j++) {
            S lead = names[j] + S(w - names[j].size(), ' ') + " {";
            if (out.compare(pos, lead.size(), lead)) bad("footnote line of " + names[j]);
            pos += lead.size();
            S next = j + 1 < n ? names[j + 1] + S(w - names[j + 1].size(), ' ') + " {" : SEP;
            size_t e = out.find("}\n" + next, pos);
            if (e == S::npos) bad("unterminated footnote");
            S raw = out.substr(pos, e - pos), s;
            S pad = "\n" + S(w + 2, ' ');
            for (size_t i = 0; i < raw.size(); i++)
                if (raw[i] == '\n') {
                    if (raw.compare(i, pad.size(), pad)) bad("padding after a line break");
                    s += '\n';
                    i += pad.size() - 1;
                } else s += raw[i];
            piece.push_back(s);
            pos = e + 2;
        }
        notes.push_back(piece);
        if (out.compare(pos, SEP.size(), SEP)) bad("separator after a footnote");
    }
    /* walk the body */
    Align a;
    std::vector<long> at(n, 0);
    size_t k = 0;
    std::vector<long> zero(n, 0);
    Seg cur = {true, at, zero};
    auto close = [&]() {
        if (cur.len[0] > 0) a.push_back(cur);
    };
    for (size_t i = 0; i < body.size();) {
        S head = fmt("{%zu}", k + 1);
        if (body.compare(i, head.size(), head) == 0 && k < notes.size()) {
            i += head.size();
            close();
            Seg g = {false, at, zero};
            bool some = false;
            for (size_t j = 0; j < n; j++) {
                /* consume from text j exactly what the footnote shows */
                S want = notes[k][j], got;
                long l = 0;
                while (got.size() < want.size() && at[j] + l < (long) t[j].size()) got += repr(suspects && t[j][at[j] + l].s, t[j][at[j] + l].v, false), l++;
                if (got != want) bad(fmt("footnote %zu shows \"%s\" for ", k + 1, vx::show(want).c_str()) + names[j]);
                g.len[j] = l;
                at[j] += l;
                some |= l > 0;
            }
            if (!some) bad("empty footnote");
            a.push_back(g);
            k++;
            cur = {true, at, zero};
        } else {
            bool s = false;
            U v = 0;
            for (size_t j = 0; j < n; j++) {
                if (at[j] >= (long) t[j].size()) bad("more matched characters than " + names[j] + " has");
                if (j == 0) v = t[j][at[j]].v;
                else if (t[j][at[j]].v != v) bad(fmt("matched characters differ in ") + names[j]);
                s |= t[j][at[j]].s;
                at[j]++;
                cur.len[j]++;
            }
            if (v == '~') bad("a reject character is matched");
            S want = repr(suspects && s, v, false);
            if (body.compare(i, want.size(), want)) bad(fmt("matched text shows \"%s\" where the texts have \"%s\"", vx::show(body.substr(i, 12)).c_str(), vx::show(want).c_str()));
            i += want.size();
        }
    }
    close();
    if (k != notes.size()) bad("footnote without reference");
    for (size_t j = 0; j < n; j++)
        if (at[j] != (long) t[j].size()) bad("the end of " + names[j] + " is missing");
    return a;
}
long edit_distance(const Text &a, const Text &b)
{
    std::vector<long> prev(b.size() + 1), cur(b.size() + 1);
    for (size_t j = 0; j <= b.size(); j++) prev[j] = j;
    for (size_t i = 1; i <= a.size(); i++) {
        cur[0] = i;
        for (size_t j = 1; j <= b.size(); j++) {
            long d = prev[j - 1] + (a[i - 1].v == b[j - 1].v && a[i - 1].v != '~' ? 0 : 1);
            cur[j] = std::min(d, std::min(prev[j], cur[j - 1]) + 1);
        }
        prev.swap(cur);
    }
    return prev[b.size()];
}
long edit_distance_banded(const Text &a, const Text &b, long band)
{
    long n = a.size(), w = 2 * band + 1, big = 1 << 30;
    if (std::abs((long) b.size() - n) > band) return -1;
    std::vector<long> prev(w, big), cur(w, big); /* column j of row i is at j - i + band */
    for (long i = 0; i <= n; i++) {
        std::fill(cur.begin(), cur.end(), big);
        for (long x = 0; x < w; x++) {
            long j = i + x - band;
            if (j < 0 || j > (long) b.size()) continue;
            if (i == 0) {
                cur[x] = j;
                continue;
            }
            long best = j == 0 ? i : big;
            if (j > 0) best = std::min(best, prev[x] + (a[i - 1].v == b[j - 1].v && a[i - 1].v != '~' ? 0 : 1));
            if (x + 1 < w) best = std::min(best, prev[x + 1] + 1);
            if (x > 0 && j > 0) best = std::min(best, cur[x - 1] + 1);
            cur[x] = best;
        }
        prev.swap(cur);
    }
    long d = prev[(long) b.size() - n + band];
    return d <= band ? d : -1;
}
/* longest common substring of two regions; the first in a, then in b, of the longest */
static long longest(const Text &a, long as, long al, const Text &b, long bs, long bl, long &ma, long &mb)
{
    long best = 0;
    for (long i = as; i < as + al; i++)
        for (long j = bs; j < bs + bl; j++) {
            long l = 0;
            while (i + l < as + al && j + l < bs + bl && a[i + l].v == b[j + l].v && a[i + l].v != '~') l++;
            if (l > best) best = l, ma = i, mb = j;
        }
    return best;
}
static void sync_region(const std::vector<Text> &t, const std::vector<long> &st, const std::vector<long> &len, Align &out)
{
    size_t n = t.size();
    bool any = false, all = true;
    for (size_t i = 0; i < n; i++) any |= len[i] > 0, all &= len[i] > 0;
    if (!any) return;
    std::vector<long> ms(n, 0);
    long l = 0;
    if (all) {
        /* the part of the first text common to all so far, narrowed down text by text */
        ms[0] = st[0];
        l = len[0];
        for (size_t i = 1; i < n && l > 0; i++) {
            long s0 = ms[0], si = 0;
            l = longest(t[0], ms[0], l, t[i], st[i], len[i], s0, si);
            if (!l) break;
            for (size_t j = 1; j < i; j++) ms[j] += s0 - ms[0];
            ms[0] = s0;
            ms[i] = si;
        }
    }
    if (!l) {
        out.push_back({false, st, len});
        return;
    }
    std::vector<long> ls(n), rs(n), rl(n);
    for (size_t i = 0; i < n; i++) ls[i] = ms[i] - st[i], rs[i] = ms[i] + l, rl[i] = st[i] + len[i] - rs[i];
    sync_region(t, st, ls, out);
    out.push_back({true, ms, std::vector<long>(n, l)});
    sync_region(t, rs, rl, out);
}
Align synchronize(const std::vector<Text> &t)
{
    Align a;
    std::vector<long> st(t.size(), 0), len;
    for (auto &x : t) len.push_back(x.size());
    sync_region(t, st, len, a);
    return a;
}
static void split(TAlign &l, size_t k, long start, long len, long id)
{
    TSeg s = l[k];
    l.erase(l.begin() + k);
    if (start + len < s.start + s.len) l.insert(l.begin() + k, {start + len, s.start + s.len - start - len, 0});
    l.insert(l.begin() + k, {start, len, id});
    if (start > s.start) l.insert(l.begin() + k, {s.start, start - s.start, 0});
}
void transpose(const Text &a, const Text &b, TAlign &ta, TAlign &tb)
{
    ta.clear();
    tb.clear();
    if (a.size()) ta.push_back({0, (long) a.size(), 0});
    if (b.size()) tb.push_back({0, (long) b.size(), 0});
    long id = 0;
    while (1) {
        long best = 0, bi = 0, bj = 0;
        size_t ki = 0, kj = 0;
        for (size_t i = 0; i < ta.size(); i++)
            for (size_t j = 0; j < tb.size(); j++) {
                if (ta[i].id || tb[j].id) continue;
                long x = 0, y = 0, l = longest(a, ta[i].start, ta[i].len, b, tb[j].start, tb[j].len, x, y);
                if (l > best) best = l, bi = x, bj = y, ki = i, kj = j;
            }
        if (!best) break;
        ++id;
        split(ta, ki, bi, best, id);
        split(tb, kj, bj, best, id);
    }
    /* number the matches in the order of the first text */
    std::map<long, long> num;
    for (auto &s : ta)
        if (s.id) {
            long k = num.size() + 1;
            num[s.id] = k;
            s.id = k;
        }
    for (auto &s : tb)
        if (s.id) s.id = num[s.id];
}
static S render_t(const TAlign &l, const Text &t, bool suspects)
{
    S s = SEP + "\n";
    for (auto &g : l) {
        if (g.id) s += fmt("{%ld:", g.id);
        s += segtext(t, g.start, g.len, suspects, "");
        if (g.id) s += "}";
    }
    return s + "\n";
}
S render_transposed(const TAlign &ta, const Text &a, const TAlign &tb, const Text &b, bool suspects) { return render_t(ta, a, suspects) + render_t(tb, b, suspects) + SEP; }

/* ------------------------------------------------------------------ accuracy reports */
S pct(long num, long den) { return den == 0 ? S("  ------") : fmt("%8.2f", 100.0 * num / den); }
void Acc::add(const Acc &o)
{
    chars += o.chars, errors += o.errors, rejects += o.rejects, suspects += o.suspects, falses += o.falses;
    marked.add(o.marked), unmarked.add(o.unmarked), total.add(o.total);
    for (auto &x : o.ch) ch[x.first].add(x.second);
    for (auto &x : o.conf) conf[x.first].add(x.second);
}
static S ops_line(const Ops &o, const char *n) { return fmt("%8ld %8ld %8ld %8ld   %s\n", o.ins, o.sub, o.del, o.err, n); }
static S cnt_line(const Cnt &c, const S &n) { return fmt("%8ld %8ld ", c.count, c.missed) + pct(c.count - c.missed, c.count) + "   " + n + "\n"; }
S render(const Acc &a)
{
    S s = "ocreval Accuracy Report Version 7.0\n" + S(35, '-') + "\n";
    s += fmt("%8ld   Characters\n%8ld   Errors\n", a.chars, a.errors);
    s += pct(a.chars - a.errors, a.chars) + "%  Accuracy\n\n";
    s += fmt("%8ld   Reject Characters\n%8ld   Suspect Markers\n%8ld   False Marks\n", a.rejects, a.suspects, a.falses);
    s += pct(a.rejects + a.suspects, a.chars) + "%  Characters Marked\n";
    s += pct(a.chars - a.unmarked.err, a.chars) + "%  Accuracy After Correction\n";
    s += "\n     Ins    Subst      Del   Errors\n" + ops_line(a.marked, "Marked") + ops_line(a.unmarked, "Unmarked") + ops_line(a.total, "Total");
    s += "\n   Count   Missed   %Right\n";
    std::map<int, Cnt> cls;
    Cnt all;
    for (auto &x : a.ch) cls[char_class(x.first)].add(x.second), all.add(x.second);
    for (auto &x : cls) s += cnt_line(x.second, class_names()[x.first]);
    s += cnt_line(all, "Total");
    if (a.errors > 0) {
        s += "\n  Errors   Marked   Correct-Generated\n";
        std::vector<std::pair<S, Cnt>> v(a.conf.begin(), a.conf.end());
        std::stable_sort(v.begin(), v.end(), [](const std::pair<S, Cnt> &x, const std::pair<S, Cnt> &y) {
            if (x.second.count != y.second.count) return x.second.count > y.second.count;
            if (x.second.missed != y.second.missed) return x.second.missed > y.second.missed;
            return x.first + "\n" < y.first + "\n"; /* char_traits compares as unsigned */
        });
        for (auto &x : v) s += fmt("%8ld %8ld   ", x.second.count, x.second.missed) + x.first + "\n";
    }
    if (a.chars > 0) {
        s += "\n   Count   Missed   %Right\n";
        for (auto &x : a.ch) s += cnt_line(x.second, "{" + repr(false, x.first, true) + "}");
    }
    return s;
}
S conf_key(const Text &c, long cs, long cl, const Text &g, long gs, long gl)
{
    auto side = [](const Text &t, long st, long len) {
        S s;
        for (long i = st; i < st + len; i++) {
            S r = repr(false, t[i].v, true);
            if (s.size() + r.size() > 24) return s + "...";
            s += r;
        }
        return s;
    };
    return "{" + side(c, cs, cl) + "}-{" + side(g, gs, gl) + "}";
}
Acc account(const Align &al, const Text &c, const Text &g)
{
    Acc a;
    for (auto &s : al) {
        long chars = 0, wild = 0, rej = 0, sus = 0;
        for (long i = s.start[0]; i < s.start[0] + s.len[0]; i++)
            if (c[i].v == '~') wild++;
            else {
                chars++;
                a.ch[c[i].v].count++;
                if (!s.match) a.ch[c[i].v].missed++;
            }
        for (long i = s.start[1]; i < s.start[1] + s.len[1]; i++)
            if (g[i].v == '~') rej++;
            else if (g[i].s) sus++;
        a.chars += chars;
        a.rejects += rej;
        a.suspects += sus;
        if (s.match) {
            a.falses += sus;
            continue;
        }
        long gen = std::max(0L, s.len[1] - wild);
        Ops o;
        o.ins = std::max(0L, chars - gen);
        o.del = std::max(0L, gen - chars);
        o.sub = std::min(chars, gen);
        o.err = o.ins + o.del + o.sub;
        if (!o.err) continue;
        bool mk = rej + sus > 0;
        a.errors += o.err;
        (mk ? a.marked : a.unmarked).add(o);
        a.total.add(o);
        Cnt k;
        k.count = o.err;
        k.missed = mk ? o.err : 0;
        a.conf[conf_key(c, s.start[0], s.len[0], g, s.start[1], s.len[1])].add(k);
    }
    return a;
}

/* ------------------------------------------------------------------ word accuracy reports */
static void addmap(std::map<long, Cnt> &a, const std::map<long, Cnt> &b)
{
    for (auto &x : b) a[x.first].add(x.second);
}
void Wac::add(const Wac &o)
{
    total.add(o.total);
    addmap(stop, o.stop);
    addmap(nonstop, o.nonstop);
    addmap(distinct, o.distinct);
    addmap(phrase, o.phrase);
    for (auto &x : o.stopterm) stopterm[x.first].add(x.second);
    for (auto &x : o.nonterm) nonterm[x.first].add(x.second);
}
static S wac_head(const char *title, const char *what) { return S("\n") + title + "\n   Count   Missed   %Right   " + what + "\n"; }
static Cnt at(const std::map<long, Cnt> &x, long i)
{
    auto it = x.find(i);
    return it == x.end() ? Cnt() : it->second;
}
static S numbers(const std::map<long, Cnt> &x, long limit, const char *title, bool excess, bool total)
{
    S s = wac_head(title, excess ? "Occurs" : "Length");
    for (long i = 1; i <= limit; i++)
        if (at(x, i).count > 0) s += cnt_line(at(x, i), fmt("    %2ld", i));
    if (excess && at(x, limit + 1).count > 0) s += cnt_line(at(x, limit + 1), fmt("   >%2ld", limit));
    if (total) s += cnt_line(at(x, 0), " Total");
    return s;
}
S render(const Wac &w)
{
    S s = "ocreval Word Accuracy Report Version 7.0\n" + S(40, '-') + "\n";
    s += fmt("%8ld   Words\n%8ld   Misrecognized\n", w.total.count, w.total.missed) + pct(w.total.count - w.total.missed, w.total.count) + "%  Accuracy\n";
    s += numbers(w.stop, 50, "Stopwords", false, true);
    s += numbers(w.nonstop, 50, "Non-stopwords", false, true);
    s += numbers(w.distinct, 10, "Distinct Non-stopwords", true, true);
    if (w.total.count > 0) {
        s += numbers(w.phrase, 8, "Phrases", false, false);
        if (at(w.stop, 0).count > 0) {
            s += wac_head("Stopwords", "");
            for (auto &x : w.stopterm) s += cnt_line(x.second, x.first);
        }
        if (at(w.nonstop, 0).count > 0) {
            s += wac_head("Non-stopwords", "");
            for (auto &x : w.nonterm) s += cnt_line(x.second, x.first);
        }
    }
    return s;
}
Wac tally(const VS &ws, const std::vector<bool> &rec, const std::set<S> &stop)
{
    Wac w;
    for (size_t i = 0; i < ws.size(); i++) {
        Cnt c;
        c.count = 1;
        c.missed = rec[i] ? 0 : 1;
        w.total.add(c);
        bool st = stop.count(ws[i]);
        auto &sec = st ? w.stop : w.nonstop;
        sec[0].add(c);
        sec[length_class(ws[i])].add(c);
        (st ? w.stopterm : w.nonterm)[ws[i]].add(c);
        bool ok = true;
        for (size_t j = 0; j < 8 && i + j < ws.size(); j++) {
            ok = ok && rec[i + j];
            Cnt p;
            p.count = 1;
            p.missed = ok ? 0 : 1;
            w.phrase[j + 1].add(p);
        }
    }
    for (auto &x : w.nonterm) {
        Cnt c;
        c.count = 1;
        c.missed = x.second.count == x.second.missed;
        w.distinct[0].add(c);
        w.distinct[std::min(x.second.count, 11L)].add(c);
    }
    return w;
}
long lcs(const VS &a, const VS &b)
{
    std::vector<long> prev(b.size() + 1, 0), cur(b.size() + 1, 0);
    for (size_t i = 1; i <= a.size(); i++) {
        for (size_t j = 1; j <= b.size(); j++) cur[j] = a[i - 1] == b[j - 1] ? prev[j - 1] + 1 : std::max(prev[j], cur[j - 1]);
        prev.swap(cur);
    }
    return prev[b.size()];
}
std::set<unsigned> all_lcs(const VS &a, const VS &b)
{
    std::set<unsigned> r;
    int best = -1;
    for (unsigned msk = 0; msk < 1u << a.size(); msk++) {
        size_t j = 0;
        bool ok = true;
        for (size_t i = 0; i < a.size() && ok; i++)
            if (msk >> i & 1) {
                while (j < b.size() && b[j] != a[i]) j++;
                ok = j++ < b.size();
            }
        if (!ok) continue;
        int k = __builtin_popcount(msk);
        if (k > best) best = k, r.clear();
        if (k == best) r.insert(msk);
    }
    return r;
}

/* ------------------------------------------------------------------ edit operations */
void Edo::add(const Edo &o)
{
    ins += o.ins, del += o.del, moves += o.moves;
    for (auto &x : o.move) move[x.first] += x.second;
}
S render(const Edo &e)
{
    S s = "ocreval Edit Operation Report Version 7.0\n" + S(41, '-') + "\n";
    s += fmt("%8ld   Insertions\n%8ld   Deletions\n%8ld   Moves\n", e.ins, e.del, e.moves);
    if (e.moves > 0) {
        s += "\nMoves\n   Count   Length\n";
        for (auto &x : e.move)
            if (x.second > 0) s += fmt("%8ld %8ld\n", x.second, x.first);
    }
    return s;
}
Edo editop(const Text &c, const Text &g)
{
    Edo e;
    TAlign ta, tb;
    transpose(c, g, ta, tb);
    for (auto &s : ta)
        if (!s.id)
            for (long i = s.start; i < s.start + s.len; i++) e.ins += c[i].v != '~';
    struct B {
        long id, len;
    };
    std::vector<B> v;
    for (auto &s : tb)
        if (!s.id) e.del += s.len;
        else v.push_back({s.id, s.len});
    auto combine = [&]() {
        for (size_t i = 0; i + 1 < v.size();)
            if (v[i + 1].id == v[i].id + 1) {
                v[i].len += v[i + 1].len;
                v.erase(v.begin() + i + 1);
                for (auto &b : v)
                    if (b.id > v[i].id) b.id--;
            } else i++;
    };
    combine();
    while (v.size() > 1) {
        /* the block whose move lets most neighbours join (shortest, then first in the correct text) */
        long n = v.size(), pick = -1, red = 0, len = 0;
        for (long id = 1; id <= n; id++) {
            long p = 0;
            while (v[p].id != id) p++;
            long r = 1;
            for (long i = 0; i + 1 < n; i++) r += v[i].id == id - 1 && v[i + 1].id == id + 1;         /* it fits in there */
            if (p > 0 && p + 1 < n && v[p + 1].id == v[p - 1].id + 1) r++;                             /* it stands between two that join */
            if (r > red || (r == red && v[p].len < len)) pick = id, red = r, len = v[p].len;
        }
        long p = 0;
        while (v[p].id != pick) p++;
        B b = v[p];
        v.erase(v.begin() + p);
        long want = pick == 1 ? 2 : pick - 1, q = 0;
        while (v[q].id != want) q++;
        v.insert(v.begin() + (pick == 1 ? q : q + 1), b);
        e.moves++;
        e.move[std::min(b.len, 100L)]++;
        combine();
    }
    return e;
}

/* ------------------------------------------------------------------ counting */
S ngram(const std::vector<Text> &files, int n)
{
    std::map<std::vector<U>, Cnt> count; /* missed: suspect */
    Cnt total;
    for (auto &t : files)
        for (size_t i = 0; i + n <= t.size(); i++) {
            std::vector<U> k;
            Cnt one;
            one.count = 1;
            for (int j = 0; j < n; j++) k.push_back(t[i + j].v), one.missed |= t[i + j].s;
            count[k].add(one);
            total.add(one);
        }
    typedef std::pair<std::vector<U>, Cnt> E;
    std::vector<E> v(count.begin(), count.end());
    auto table = [&]() {
        S s = "   Count  Suspect\n";
        for (auto &e : v) {
            S key;
            for (U u : e.first) key += repr(false, u, true);
            s += fmt("%8ld %8ld   {", e.second.count, e.second.missed) + key + "}\n";
        }
        return s + fmt("%8ld %8ld   Total\n", total.count, total.missed);
    };
    S s = table() + "\n\n";
    std::stable_sort(v.begin(), v.end(), [](const E &a, const E &b) {
        if (a.second.count != b.second.count) return a.second.count > b.second.count;
        return a.second.missed > b.second.missed;
    });
    return s + table();
}
S wordfreq(const std::vector<VS> &files)
{
    std::map<S, long> count;
    long total = 0;
    for (auto &f : files)
        for (auto &w : f) count[w]++, total++;
    typedef std::pair<S, long> E;
    std::vector<E> v(count.begin(), count.end());
    auto table = [&]() {
        S s = "   Count\n";
        for (auto &e : v) s += fmt("%8ld   ", e.second) + e.first + "\n";
        return s + fmt("%8ld   Total\n", total);
    };
    S s = table() + "\n\n";
    std::stable_sort(v.begin(), v.end(), [](const E &a, const E &b) { return a.second > b.second; });
    return s + table();
}
}
