/* Reference models: deliberately simple re-statements of the documented behaviour, sharing nothing
 * with the code under test except libutf8proc's character data (category, lower case, NFC). */
#pragma once
#include "vx.h"
#include <map>
#include <set>

namespace m {
using vx::S;
using vx::VS;
typedef uint32_t U;

/* ---- characters */
S enc(U c);                                  /* UTF-8 of one scalar value */
bool decode(const S &s, std::vector<U> &out); /* strict UTF-8; false if ill-formed */
S repr(bool suspect, U c, bool fake_newline); /* how reports show a character */
bool is_blank(U c), is_graphic(U c), is_mark(U c), starts_word(U c);
U lower(U c);
S nfc(const S &s);
const VS &class_names();
int char_class(U c);

/* ---- texts */
struct Ch {
    U v;
    bool s;
    bool operator==(const Ch &o) const { return v == o.v && s == o.s; }
};
typedef std::vector<Ch> Text;
struct TextOpt {
    bool header, markers, lower;
};
extern const TextOpt T_NORMAL, T_WORD, T_GROUP, T_STOP;
struct Read {
    bool ok, header;
    Text t;
};
Read read_text(const S &bytes, const TextOpt &o);
Text normalize(const Text &t);
S plain(const Text &t); /* UTF-8 without marks */

/* ---- words */
enum WB { Other, CR, LF, Newline, Extend, RI, Format, Katakana, Hebrew, ALetter, SQ, DQ, MidNumLet, MidLetter, MidNum, Numeric, ExtendNumLet };
WB wb(U c);
std::vector<size_t> segments(const std::vector<U> &t); /* start of each segment */
VS words(const Text &t);
VS words_of(const S &bytes, const TextOpt &o);
const std::set<S> &default_stopwords();
long length_class(const S &word); /* length in characters, 50 standing for 50 or more */

/* ---- alignments */
struct Seg {
    bool match;
    std::vector<long> start, len;
};
typedef std::vector<Seg> Align;
S render_sync(const Align &a, const std::vector<Text> &t, const VS &names, bool suspects);
/* reads synctext's output back; throws vx::Fail if it does not reproduce the texts */
Align parse_sync(const S &out, const std::vector<Text> &t, const VS &names, bool suspects);
/* the documented recursive alignment (two texts with -H, or more than two) */
Align synchronize(const std::vector<Text> &t);
long edit_distance(const Text &a, const Text &b); /* '~' matches nothing */

/* the same if it is at most BAND, otherwise -1 */
long edit_distance_banded(const Text &a, const Text &b, long band);

/* -T: for each text its segments; id 0: unmatched */
struct TSeg {
    long start, len, id;
};
typedef std::vector<TSeg> TAlign;
void transpose(const Text &a, const Text &b, TAlign &ta, TAlign &tb);
S render_transposed(const TAlign &ta, const Text &a, const TAlign &tb, const Text &b, bool suspects);

/* ---- reports */
struct Ops {
    long ins = 0, sub = 0, del = 0, err = 0;
    void add(const Ops &o) { ins += o.ins, sub += o.sub, del += o.del, err += o.err; }
};
struct Cnt {
    long count = 0, missed = 0;
    void add(const Cnt &o) { count += o.count, missed += o.missed; }
};
struct Acc {
    long chars = 0, errors = 0, rejects = 0, suspects = 0, falses = 0;
    Ops marked, unmarked, total;
    std::map<U, Cnt> ch;
    std::map<S, Cnt> conf; /* key "{..}-{..}": count=errors, missed=marked */
    void add(const Acc &o);
};
S render(const Acc &a);
Acc account(const Align &al, const Text &correct, const Text &generated);
S conf_key(const Text &c, long cs, long cl, const Text &g, long gs, long gl);

struct Wac {
    Cnt total;
    std::map<long, Cnt> stop, nonstop, distinct, phrase; /* [0]: totals (not for phrase); distinct[11]: more than 10 */
    std::map<S, Cnt> stopterm, nonterm;                   /* byte order */
    void add(const Wac &o);
};
S render(const Wac &w);
Wac tally(const VS &words, const std::vector<bool> &recognized, const std::set<S> &stop);
long lcs(const VS &a, const VS &b);
/* all recognised-sets of longest common subsequences (as bit masks over a); |a| <= 20 */
std::set<unsigned> all_lcs(const VS &a, const VS &b);

struct Edo {
    long ins = 0, del = 0, moves = 0;
    std::map<long, long> move;
    void add(const Edo &o);
};
S render(const Edo &e);
Edo editop(const Text &correct, const Text &generated);

/* ---- counting */
S ngram(const std::vector<Text> &files, int n);
S wordfreq(const std::vector<VS> &files);

S pct(long num, long den); /* "%8.2f" or "  ------" */
}
