/* vx: explorer runtime.  Runs the real ocreval tools (each built as a shared object from /repo's
 * working tree) in-process under an environment it controls completely (files, stdio, heap, exit,
 * signals, global state), or as real processes, and enumerates families of inputs exhaustively. */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vx {

typedef std::string S;
typedef std::vector<std::string> VS;

enum NodeKind { N_FILE, N_DIR, N_FULL /* writes fail */, N_DENIED, N_PIPE /* not seekable */ };

struct File {
    S name, data;
    NodeKind kind = N_FILE;
};

/* The environment's answers.  Everything at its default: an ordinary file system. */
struct Env {
    int chunk = 0;           /* a read returns at most this many bytes (0: as many as asked) */
    bool pipes = false;      /* inputs cannot be rewound */
    long fail_at = -1;       /* this I/O operation (counted from 0) fails */
    bool fail_sticky = true; /* ... and all later ones on the same file too */
    long signal_at = -1;     /* SIGTERM (or sig) is delivered at this I/O operation */
    int sig = 15;
    int partial = -1;        /* a failing read/write transfers this many bytes first */
    bool stdout_full = false;
    int fill = 0xA5;         /* contents of fresh heap memory */
    int wbuf = 0;            /* size of the output buffers, 0: default, -1: unbuffered */
    long alloc_fail = -1;    /* this memory request (counted from 0) is refused */
    bool alloc_sticky = true; /* ... and all later ones too */
    long alloc_max = -1;     /* requests for more bytes than this are refused */
    VS environ_;             /* extra environment variables NAME=value */
    /* scheduling: a step is an I/O operation, a removal, a renaming or a query about a file */
    long stop_at = -1;       /* the run is killed before this step */
    std::vector<std::pair<long, std::shared_ptr<std::map<std::string, std::string>>>> patches; /* before this step the files become these */
    int pid = 4242;
    bool want_world = false; /* fill Res::world */
};

struct Inv {
    S tool;
    VS args;
    std::vector<File> files;
    S stdin_data;
    Env env;
    Inv() {}
    Inv(S t, VS a, std::vector<File> f) : tool(std::move(t)), args(std::move(a)), files(std::move(f)) {}
    S text() const;
};

struct Res {
    int status = -1; /* exit status; -N: killed by signal N */
    S out, err;
    std::map<S, S> wrote; /* files created or changed, with their contents; files removed, with REMOVED */
    S heap;               /* heap misuse noticed (double free, ...) */
    long ops = 0;         /* I/O operations done */
    long steps = 0;
    bool stopped = false; /* killed by stop_at */
    uint64_t seen = 0;    /* identifies what it has seen of the files, when want_world */
    std::map<S, S> world; /* all files afterwards */
    std::vector<size_t> allocs; /* sizes of the memory requests made (in-process) */
    std::vector<char> opkind; /* 'o'pen 'r'ead 'w'rite 's'eek 'c'lose, with upper case for output files */
    std::vector<S> opfile;
    bool same(const Res &o) const { return status == o.status && out == o.out && err == o.err && wrote == o.wrote; }
    S text() const;
};

extern const S REMOVED;
/* Two real processes in one directory: the second runs while the first is stopped before its n-th
 * opening or closing of a file (after the first if it has fewer), or after it was killed there. */
void exec_pair(const Inv &a, int n, const Inv &b, Res &ra, Res &rb, bool killed = false);

enum Backend { B_INPROC, B_EXEC, B_BOTH };

struct Fail {
    S msg;
};
struct Skip {}; /* the case needs a driver that does not compile with the present headers */

struct Ctx {
    Backend backend = B_INPROC;
    bool thorough = false;
    S fam;
    uint64_t index = 0;
    bool explain = false;
    std::vector<std::pair<Inv, Res>> trace; /* filled when explaining: the first and the last runs */
    size_t traced = 0;
    S key;                                   /* identifies the failure for known findings */
    Res run(const Inv &inv);
    Res probe(const Inv &inv); /* in-process whatever the backend, not judged: to learn the size of a space */
    Res run(const S &tool, const VS &args, const std::vector<File> &files) { return run(Inv(tool, args, files)); }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void expect(bool ok, const char *what) { if (!ok) fail("%s", what); }
    void eq(const S &what, const S &expected, const S &got);
    void eq(const S &what, long expected, long got);
    /* runs and requires exit status 0 and nothing on stderr */
    Res ok(const Inv &inv);
    Res ok(const S &tool, const VS &args, const std::vector<File> &files) { return ok(Inv(tool, args, files)); }
    void outcome(uint64_t h); /* records an observed outcome */
    void validated();         /* a real execution agreed */
    void skip();              /* case is redundant: not counted as a state */
};

struct Family {
    S name, what;
    uint64_t n;
    std::function<void(Ctx &, uint64_t)> f;
    bool exec_ok = true;   /* may be replayed on the real binaries */
    int exec_sample = 60;  /* how many cases are also run on the real binaries */
    double limit = 20;     /* seconds one case may take */
};

struct Check {
    S id;
    std::vector<Family> fams;
    std::vector<S> assumptions;
    S level = "model_checking";
    S rule;
    bool thorough = false;
    Family &add(S name, S what, uint64_t n, std::function<void(Ctx &, uint64_t)> f)
    {
        Family x;
        x.name = name;
        x.what = what;
        x.n = n;
        x.f = f;
        fams.push_back(x);
        return fams.back();
    }
};

/* Provided by each property's file. */
void define(Check &c);

extern bool g_asan;

/* mixed-radix decoding of a case number */
struct Mix {
    uint64_t i;
    explicit Mix(uint64_t i) : i(i) {}
    uint64_t of(uint64_t n) { uint64_t r = i % n; i /= n; return r; }
};
/* number of strings of length 0..max over k letters, and the i-th of them (shortest first) */
uint64_t nstr(uint64_t k, int max);
std::vector<int> str(uint64_t k, uint64_t i);
S strs(const VS &alphabet, uint64_t i);
uint64_t ipow(uint64_t b, int e);

S fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash(const S &s);
S show(const S &s, size_t max = 400); /* printable */
VS lines(const S &s);                 /* with their newlines */
}
