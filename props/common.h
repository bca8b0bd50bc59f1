#pragma once
#include "model.h"
#include <algorithm>
using namespace vx;
using m::Text;

static inline S rep(const S &s, long n)
{
    S r;
    r.reserve(s.size() * n);
    while (n-- > 0) r += s;
    return r;
}
static inline S cp(m::U c) { return m::enc(c); }
static inline Text rd(const S &b) { return m::read_text(b, m::T_NORMAL).t; }
static inline bool starts(const S &s, const S &p) { return s.compare(0, p.size(), p) == 0; }

/* Refused: non-zero status, one line on stderr that names the tool (and WHAT), no result on stdout. */
static inline void refused(Ctx &c, const Inv &v, const Res &r, const S &what = "")
{
    if (r.status != 1) c.fail("exit status %d instead of 1 (stderr %s)", r.status, show(r.err).c_str());
    if (!starts(r.err, v.tool + ": ") || r.err.find('\n') != r.err.size() - 1) c.fail("stderr is not one message of %s: %s", v.tool.c_str(), show(r.err).c_str());
    if (what.size() && r.err.find(what) == S::npos) c.fail("the message does not mention %s: %s", what.c_str(), show(r.err).c_str());
    if (r.out.size()) c.fail("a result was written besides the error: %s", show(r.out).c_str());
}
/* a well-spread, non-repeating text of n characters over the alphabet */
static inline S scatter(const VS &al, long n, uint64_t seed)
{
    S s;
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + 12345;
    for (long i = 0; i < n; i++) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        s += al[x % al.size()];
    }
    return s;
}
static inline S join(const VS &v, const S &sep)
{
    S s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? sep : S()) + v[i];
    return s;
}
/* every single edit of a token sequence: deletions, substitutions and insertions from AL */
static inline uint64_t nedits(size_t len, size_t k) { return len + len * k + (len + 1) * k; }
static inline VS edit(VS v, const VS &al, uint64_t e)
{
    size_t n = v.size(), k = al.size();
    if (e < n) {
        v.erase(v.begin() + e);
        return v;
    }
    e -= n;
    if (e < n * k) {
        v[e / k] = al[e % k];
        return v;
    }
    e -= n * k;
    v.insert(v.begin() + e / k, al[e % k]);
    return v;
}
/* two words that agree in their first P characters and in which letters they have */
static inline long twin_prefix(uint64_t i)
{
    static const long more[] = {511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 8192, 20000, 65534, 65535, 65536, 100000};
    return i < 300 ? (long) i : more[i - 300];
}
/* words of the reports and messages themselves */
static const VS &report_words()
{
    static const VS w = {"total", "accuracy", "count", "missed", "right", "length", "occurs", "distinct", "stopwords", "nonstopwords", "non", "stopword", "phrases", "phrase", "words", "word",
                         "misrecognized", "characters", "character", "errors", "error", "reject", "rejects", "suspect", "suspects", "markers", "marker", "false", "marks", "marked", "unmarked", "characters",
                         "insertions", "insertion", "deletions", "deletion", "substitutions", "subst", "ins", "del", "moves", "move", "operation", "operations", "edit", "report", "version", "ocreval", "isri", "unlv",
                         "oce", "system", "class", "classes", "ascii", "spacing", "special", "symbols", "digits", "uppercase", "lowercase", "letters", "latin", "basic", "correct", "generated", "output", "unassigned",
                         "unlabeled", "other", "others", "reports", "combined", "unknown", "invalid", "format", "vendor", "independent", "interface", "agree", "votes", "page", "pages", "file", "null", "nan", "inf", "true", "none",
                         "end", "eof", "stop", "title", "header", "usage", "help", "the", "a", "i", "7", "70", "0", "100", "10000"};
    return w;
}
static const uint64_t n_twins = 316;
static inline std::pair<S, S> twins(uint64_t i, int kind)
{
    S p = rep(kind == 2 ? cp(0xE9) : S("q"), twin_prefix(i));
    S u = p + "bc", v = p + "cb";
    if (kind == 1) u += p, v += p;
    return {u, v};
}
/* groupacc: the listed characters that occur */
static inline S groupacc(const S &group, const m::Acc &a)
{
    S s = "   Count   Missed   %Right\n";
    m::Cnt total;
    auto line = [](const m::Cnt &k) { return fmt("%8ld %8ld ", k.count, k.missed) + m::pct(k.count - k.missed, k.count) + "   "; };
    for (auto &ch : m::read_text(group, m::T_GROUP).t) {
        auto it = a.ch.find(ch.v);
        if (ch.v == ' ' || ch.v == '\n' || it == a.ch.end() || it->second.count == 0) continue;
        s += line(it->second) + "{" + m::repr(false, ch.v, true) + "}\n";
        total.add(it->second);
    }
    return s + line(total) + "Total\n";
}
/* accdist, wordaccdist */
static inline S dist(const std::vector<m::Cnt> &pages)
{
    S s;
    long total = 0;
    for (auto &p : pages) total += p.count;
    if (!total) return s;
    for (int x = 0; x <= 100; x++) {
        long n = 0;
        for (auto &p : pages)
            if (p.count && (__int128) 100 * (p.count - p.missed) >= (__int128) x * p.count) n += p.count;
        s += fmt("%3d %6.2f\n", x, 100.0 * n / total);
    }
    return s;
}

/* beginnings of a text like that of the vendor-independent interface, complete and not */
static inline const VS &heads()
{
    static const S title = "ocreval Vendor-Independent Interface Version 7.0\n", d = rep("-", 48) + "\n";
    static const VS v = {title, title + d, title + d + "a zoo b\n" + d, title + d + d, title + "x\n" + d + "ab\n" + d + d, title.substr(0, 14), title.substr(0, 43), title.substr(0, 46), title.substr(0, 47), "x" + title + d + d, " " + title + d + d, "ocreval Vendor-Independent Interface Version 6.1\n" + d + d, d + d};
    return v;
}
