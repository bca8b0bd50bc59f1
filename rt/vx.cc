#include "vx.h"
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

#if defined(__SANITIZE_ADDRESS__)
#define VX_ASAN 1
#define NOASAN __attribute__((no_sanitize_address))
#else
#define VX_ASAN 0
#define NOASAN
#endif

namespace vx {

bool g_asan = VX_ASAN;
static S g_so, g_real, g_scratch, g_replay;

/* ------------------------------------------------------------------ small helpers */
uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e-- > 0) r *= b;
    return r;
}
uint64_t nstr(uint64_t k, int max)
{
    uint64_t r = 0;
    for (int l = 0; l <= max; l++) r += ipow(k, l);
    return r;
}
std::vector<int> str(uint64_t k, uint64_t i)
{
    int l = 0;
    while (i >= ipow(k, l)) i -= ipow(k, l), l++;
    std::vector<int> v(l);
    for (int j = l - 1; j >= 0; j--) v[j] = i % k, i /= k;
    return v;
}
S strs(const VS &al, uint64_t i)
{
    S r;
    for (int x : str(al.size(), i)) r += al[x];
    return r;
}
static S vfmt(const char *f, va_list ap)
{
    va_list aq;
    va_copy(aq, ap);
    int n = vsnprintf(NULL, 0, f, aq);
    va_end(aq);
    S s(n, 0);
    vsnprintf(&s[0], n + 1, f, ap);
    return s;
}
S fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    S s = vfmt(f, ap);
    va_end(ap);
    return s;
}
uint64_t hash(const S &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    h ^= h >> 31;
    h *= 0x9E3779B97F4A7C15ull;
    return h ^ (h >> 29);
}
S show(const S &s, size_t max)
{
    S r;
    for (size_t i = 0; i < s.size(); i++) {
        if (r.size() >= max) {
            r += fmt("...(%zu bytes)", s.size());
            break;
        }
        unsigned char c = s[i];
        if (c == '\n') r += "\\n";
        else if (c == '\\') r += "\\\\";
        else if (c == '"') r += "\\\"";
        else if (c < 32 || c == 127) r += fmt("\\x%02x", c);
        else r += c;
    }
    /* cut an incomplete UTF-8 tail, mark invalid bytes */
    S t;
    for (size_t i = 0; i < r.size();) {
        unsigned char c = r[i];
        int n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
        bool ok = n > 0 && i + n <= r.size();
        for (int j = 1; ok && j < n; j++) ok = (r[i + j] & 0xC0) == 0x80;
        if (ok && c == 0xE0 && (unsigned char) r[i + 1] < 0xA0) ok = false;
        if (ok && c == 0xED && (unsigned char) r[i + 1] > 0x9F) ok = false;
        if (ok && c == 0xF0 && (unsigned char) r[i + 1] < 0x90) ok = false;
        if (ok && c == 0xF4 && (unsigned char) r[i + 1] > 0x8F) ok = false;
        if (ok) t += r.substr(i, n), i += n;
        else t += fmt("\\x%02x", c), i++;
    }
    return t;
}
VS lines(const S &s)
{
    VS v;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('\n', i);
        if (j == S::npos) j = s.size() - 1;
        v.push_back(s.substr(i, j + 1 - i));
        i = j + 1;
    }
    return v;
}
S Inv::text() const
{
    S s = tool;
    if (args.size() > 60) s += fmt(" (%zu arguments)", args.size());
    else
        for (auto &a : args) s += " \"" + show(a, 80) + "\"";
    int k = 0;
    for (auto &f : files) {
        if (++k > 20) {
            s += fmt(" ... (%zu files)", files.size());
            break;
        }
        s += "  [" + f.name + (f.kind == N_DIR ? " (directory)" : f.kind == N_FULL ? " (full device)" : f.kind == N_DENIED ? " (unreadable)" : f.kind == N_PIPE ? " (pipe)" : "") + "]=\"" + show(f.data, 240) + "\"";
    }
    if (env.chunk) s += fmt("  chunk=%d", env.chunk);
    if (env.pipes) s += "  inputs=pipes";
    if (env.fail_at >= 0) s += fmt("  I/O operation %ld fails%s", env.fail_at, env.partial >= 0 ? fmt(" after %d bytes", env.partial).c_str() : "");
    if (env.signal_at >= 0) s += fmt("  signal %d at I/O operation %ld", env.sig, env.signal_at);
    if (env.stdout_full) s += "  stdout=full device";
    for (auto &e : env.environ_) s += "  env " + e;
    return s;
}
S Res::text() const
{
    S s = fmt("status=%d out=\"%s\" err=\"%s\"", status, show(out, 1500).c_str(), show(err, 300).c_str());
    for (auto &w : wrote) s += " wrote " + w.first + "=\"" + show(w.second, 1500) + "\"";
    if (heap.size()) s += " heap: " + heap;
    return s;
}

/* ------------------------------------------------------------------ virtual environment */
struct Node {
    S data;
    NodeKind kind;
    bool written = false, made = false;
};
struct Handle {
    FILE *f = NULL;
    Node *node = NULL; /* NULL: discard */
    S *sink = NULL;    /* stdout/stderr */
    S name;
    bool out = false, append = false, full = false, failed = false, closed = false, seekable = true, readable = true, counted = true;
    size_t pos = 0;
};
static const size_t OUT_CAP = 256u << 20;
static struct World {
    std::map<S, Node> nodes;
    std::vector<std::map<S, Node>::node_type> gone; /* removed, perhaps still open */
    std::vector<Handle *> handles;
    long steps = 0;
    bool stopped = false;
    uint64_t seen = 0;
    std::set<S> removed;
    Env env;
    Res *res = NULL;
    long ops = 0;
    jmp_buf jb;
    int status = 0;
    bool active = false, exiting = false;
    void (*handler[65])(int);
    bool oneshot[65];
    std::vector<void (*)()> atexits;
    VS environ_;
} W;

static void note_op(char kind, Handle *h)
{
    if (W.res) {
        if (W.res->opkind.size() < 20000) {
            W.res->opkind.push_back(h->out ? kind - 32 : kind);
            W.res->opfile.push_back(h->name);
        }
    }
    W.ops++;
}
static void deliver(int sig)
{
    void (*hd)(int) = W.handler[sig];
    if (hd == SIG_IGN) return;
    if (hd == SIG_DFL) {
        W.status = -sig;
        for (auto h : W.handles) h->node = NULL, h->sink = NULL;
        longjmp(W.jb, 1);
    }
    if (W.oneshot[sig]) W.handler[sig] = SIG_DFL;
    hd(sig);
}
static void drop_node(const S &p)
{
    auto nh = W.nodes.extract(p);
    if (!nh) return;
    if (!nh.mapped().made) W.removed.insert(p);
    W.gone.push_back(std::move(nh));
}
/* a point where other processes may run */
static Node *find_node(const char *path)
{
    S p = path;
    while (p.size() > 2 && p[0] == '.' && p[1] == '/') p = p.substr(2);
    auto it = W.nodes.find(p);
    return it == W.nodes.end() ? NULL : &it->second;
}
static void point(const char *path, const char *path2 = NULL)
{
    if (!W.active) return;
    long me = W.steps++;
    if (me == W.env.stop_at) {
        W.stopped = true;
        W.status = -9;
        for (auto h : W.handles) h->node = NULL, h->sink = NULL;
        longjmp(W.jb, 1);
    }
    for (auto &p : W.env.patches)
        if (p.first == me) {
            for (auto &f : *p.second) {
                auto it = W.nodes.find(f.first);
                if (it == W.nodes.end()) {
                    Node &n = W.nodes[f.first];
                    n.kind = N_FILE, n.data = f.second, n.made = true;
                } else if (it->second.kind == N_FILE) it->second.data = f.second;
            }
            VS gone;
            for (auto &n : W.nodes)
                if (n.second.kind == N_FILE && !p.second->count(n.first)) gone.push_back(n.first);
            for (auto &g : gone) drop_node(g);
        }
    if (W.env.want_world) /* what the process learns here */
        for (const char *q : {path, path2}) {
            if (!q) continue;
            Node *n = find_node(q);
            uint64_t h = n ? hash(n->data) : 77;
            W.seen = (W.seen ^ hash(q)) * 0x9E3779B97F4A7C15ull + h + (W.seen >> 29);
        }
}
/* true: this operation fails */
static bool op(char kind, Handle *h)
{
    if (!h->counted) return h->failed;
    point(h->name.c_str());
    long me = W.ops;
    note_op(kind, h);
    if (me == W.env.signal_at) deliver(W.env.sig);
    if (me == W.env.fail_at) {
        if (W.env.fail_sticky) h->failed = true;
        return true;
    }
    return h->failed;
}
static ssize_t ck_read(void *c, char *buf, size_t n)
{
    Handle *h = (Handle *) c;
    bool bad = op('r', h);
    if (!h->node && !h->sink) return 0;
    if (h->node && h->node->kind == N_DIR) {
        errno = EISDIR;
        return -1;
    }
    if (!h->readable) {
        errno = EBADF;
        return -1;
    }
    const S &d = h->node ? h->node->data : *h->sink;
    size_t left = h->pos < d.size() ? d.size() - h->pos : 0;
    if (n > left) n = left;
    if (W.env.chunk && n > (size_t) W.env.chunk) n = W.env.chunk;
    if (bad) {
        if (W.env.partial > 0 && !h->failed) { /* deliver a little first: the failure comes with the next read */
            h->failed = true;
            if (n > (size_t) W.env.partial) n = W.env.partial;
        } else {
            errno = EIO;
            return -1;
        }
    }
    memcpy(buf, d.data() + h->pos, n);
    h->pos += n;
    return n;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    Handle *h = (Handle *) c;
    if (op('r' + 5, h) || h->full) { /* 'w' */
        size_t k = W.env.partial > 0 && (size_t) W.env.partial < n ? W.env.partial : 0;
        if (k && h->node) h->node->data.append(buf, k);
        if (k && h->sink) h->sink->append(buf, k);
        errno = ENOSPC;
        return k;
    }
    if (h->sink) {
        if (h->sink->size() < OUT_CAP) h->sink->append(buf, n);
    } else if (h->node) {
        Node *nd = h->node;
        nd->written = true;
        if (h->append) h->pos = nd->data.size();
        if (nd->data.size() < h->pos) nd->data.resize(h->pos);
        if (nd->data.size() < OUT_CAP) {
            size_t over = std::min(n, nd->data.size() - h->pos);
            nd->data.replace(h->pos, over, buf, n);
        }
        h->pos += n;
    }
    return n;
}
static int ck_seek(void *c, off64_t *off, int whence)
{
    Handle *h = (Handle *) c;
    if (!h->seekable || !h->node) {
        errno = ESPIPE;
        return -1;
    }
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t) h->pos : (off64_t) h->node->data.size();
    if (base + *off < 0) {
        errno = EINVAL;
        return -1;
    }
    h->pos = base + *off;
    *off = h->pos;
    return 0;
}
static int ck_close(void *c)
{
    Handle *h = (Handle *) c;
    h->closed = true;
    if (h->out && h->counted && W.active && op('c', h)) {
        errno = EIO;
        return -1;
    }
    return 0;
}
static FILE *open_handle(Handle *h, const char *mode)
{
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    h->f = fopencookie(h, mode, io);
    W.handles.push_back(h);
    return h->f;
}

/* the output buffering the environment asks for */
static char g_wbuf[16][4096];
static int g_nwbuf;
static void small_buffer(FILE *f)
{
    if (W.env.wbuf < 0) setvbuf(f, NULL, _IONBF, 0);
    else if (W.env.wbuf > 0 && g_nwbuf < 16) setvbuf(f, g_wbuf[g_nwbuf++], _IOFBF, std::min(W.env.wbuf, 4096));
}

/* ------------------------------------------------------------------ controlled heap */
static char *A_base, *A_cur, *A_end;
struct Hdr {
    size_t n;
    uint64_t magic;
};
static const uint64_t LIVE = 0x4C49564556584C49ull, DEAD = 0x4445414456584445ull;
static std::unordered_set<void *> *g_live; /* ASan build */
static bool in_arena(void *p) { return (char *) p >= A_base && (char *) p < A_end; }
static const size_t ARENA = 1536u << 20;
static void arena_init()
{
    if (VX_ASAN) {
        g_live = new std::unordered_set<void *>;
        return;
    }
    A_base = (char *) mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    A_cur = A_base;
    A_end = A_base + ARENA;
}
static bool refused(size_t n)
{
    if (!W.res) return false;
    long k = (long) W.res->allocs.size();
    W.res->allocs.push_back(n);
    if ((W.env.alloc_fail >= 0 && (W.env.alloc_sticky ? k >= W.env.alloc_fail : k == W.env.alloc_fail)) || (W.env.alloc_max >= 0 && n > (size_t) W.env.alloc_max)) {
        errno = ENOMEM;
        return true;
    }
    return false;
}
static void *a_alloc(size_t n, int fill)
{
    if (refused(n)) return NULL;
    if (VX_ASAN) {
        if (n > (size_t) 3 << 30) return NULL;
        void *p = malloc(n);
        if (p) {
            memset(p, fill, n);
            g_live->insert(p);
        }
        return p;
    }
    size_t need = (sizeof(Hdr) + n + 31) & ~(size_t) 15;
    if (n > ARENA || (size_t) (A_end - A_cur) < need) {
        errno = ENOMEM;
        return NULL;
    }
    Hdr *h = (Hdr *) A_cur;
    A_cur += need;
    h->n = n;
    h->magic = LIVE;
    memset(h + 1, fill, n);
    return h + 1;
}
static void a_free(void *p)
{
    if (!p) return;
    if (VX_ASAN) {
        g_live->erase(p);
        free(p);
        return;
    }
    if (!in_arena(p)) {
        if (W.res) W.res->heap += "release of memory that was never allocated; ";
        return;
    }
    Hdr *h = (Hdr *) p - 1;
    if (h->magic == DEAD) {
        if (W.res) W.res->heap += "memory released twice; ";
        return;
    }
    if (h->magic != LIVE) {
        if (W.res) W.res->heap += "corrupted heap block or wrong address released; ";
        return;
    }
    h->magic = DEAD;
    memset(p, 0xDD, h->n < 4096 ? h->n : 4096);
}
static void arena_reset()
{
    if (VX_ASAN) {
        for (void *p : *g_live) free(p);
        g_live->clear();
        return;
    }
    size_t used = A_cur - A_base;
    if (used > (16u << 20)) madvise(A_base + (16u << 20), ((used - (16u << 20)) + 4095) & ~4095ul, MADV_DONTNEED);
    A_cur = A_base;
}

/* ------------------------------------------------------------------ tools as shared objects */
struct Tool {
    void *dl = NULL;
    int (*main)(int, char **) = NULL;
    char *start = NULL, *file_end = NULL, *mem_end = NULL;
    std::vector<char> snap;
};
static std::map<S, Tool> g_tools;

struct Seg {
    ElfW(Addr) base;
    ElfW(Addr) addr;
    char *start, *file_end, *mem_end;
    bool found;
};
static int phdr_cb(struct dl_phdr_info *i, size_t, void *d)
{
    Seg *s = (Seg *) d;
    bool mine = false;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && s->addr >= i->dlpi_addr + p.p_vaddr && s->addr < i->dlpi_addr + p.p_vaddr + p.p_memsz) mine = true;
    }
    if (!mine) return 0;
    ElfW(Addr) relro = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type == PT_GNU_RELRO) relro = i->dlpi_addr + p.p_vaddr + p.p_memsz;
    }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
            ElfW(Addr) a = i->dlpi_addr + p.p_vaddr, fe = a + p.p_filesz, me = a + p.p_memsz;
            ElfW(Addr) rp = (relro + 4095) & ~(ElfW(Addr)) 4095;
            if (relro > a && relro <= me + 4096) a = rp;
            if (fe < a) fe = a;
            if (me < a) me = a;
            s->start = (char *) a;
            s->file_end = (char *) fe;
            s->mem_end = (char *) me;
            s->found = true;
        }
    }
    return 1;
}
NOASAN static void raw_copy(char *d, const char *s, size_t n)
{
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
NOASAN static void raw_zero(char *d, size_t n)
{
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory");
}
static void load_tool(const S &name)
{
    Tool t;
    S path = g_so + "/" + name + ".so";
    t.dl = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!t.dl && (name == "containers" || name == "library")) return; /* see need_driver */
    if (!t.dl) {
        fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror());
        _exit(3);
    }
    t.main = (int (*)(int, char **)) dlsym(t.dl, "vx_tool_main");
    if (!t.main) {
        fprintf(stderr, "no main in %s\n", path.c_str());
        _exit(3);
    }
    Seg s = {0, (ElfW(Addr)) t.main, NULL, NULL, NULL, false};
    dl_iterate_phdr(phdr_cb, &s);
    if (s.found) {
        t.start = s.start;
        t.file_end = s.file_end;
        t.mem_end = s.mem_end;
        t.snap.resize(t.file_end - t.start);
        raw_copy(t.snap.data(), t.start, t.snap.size());
        size_t bss = t.mem_end - t.file_end;
        if (bss > (1u << 21)) {
            char *p = (char *) (((uintptr_t) t.file_end + 4095) & ~4095ul);
            madvise(p, t.mem_end - p, MADV_HUGEPAGE);
        }
    }
    g_tools[name] = t;
}
static void reset_tool(Tool &t)
{
    if (!t.start) return;
    raw_copy(t.start, t.snap.data(), t.snap.size());
    size_t bss = t.mem_end - t.file_end;
    if (bss <= 65536) raw_zero(t.file_end, bss);
    else {
        char *p = (char *) (((uintptr_t) t.file_end + 4095) & ~4095ul);
        char *e = (char *) (((uintptr_t) t.mem_end) & ~4095ul);
        raw_zero(t.file_end, p - t.file_end);
        madvise(p, e - p, MADV_DONTNEED);
        raw_zero(e, t.mem_end - e);
    }
}
}

/* ------------------------------------------------------------------ what the tools call instead of libc */
using namespace vx;
extern "C" {
void *__wrap_realloc(void *p, size_t n);
void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return __wrap_realloc(p, n);
}
void *__wrap_malloc(size_t n) { return a_alloc(n, W.env.fill); }
void *__wrap_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return a_alloc(n, 0);
}
void __wrap_free(void *p) { a_free(p); }
void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return a_alloc(n, W.env.fill);
    if (VX_ASAN) {
        if (refused(n)) return NULL;
        void *q = realloc(p, n);
        if (q) g_live->erase(p), g_live->insert(q);
        return q;
    }
    if (!in_arena(p) || ((Hdr *) p - 1)->magic != LIVE) {
        if (W.res) W.res->heap += "bad realloc; ";
        return NULL;
    }
    void *q = a_alloc(n, W.env.fill);
    if (!q) return NULL;
    size_t o = ((Hdr *) p - 1)->n;
    memcpy(q, p, o < n ? o : n);
    a_free(p);
    return q;
}
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *) a_alloc(n, 0);
    if (p) memcpy(p, s, n);
    return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p = (char *) a_alloc(n + 1, 0);
    if (p) memcpy(p, s, n);
    return p;
}
static char *adopt(void *r)
{
    if (!r) return NULL;
    char *p = __wrap_strdup((char *) r);
    free(r);
    return p;
}
unsigned char *utf8proc_NFC(const unsigned char *);
unsigned char *utf8proc_NFD(const unsigned char *);
unsigned char *utf8proc_NFKC(const unsigned char *);
unsigned char *utf8proc_NFKD(const unsigned char *);
unsigned char *__wrap_utf8proc_NFC(const unsigned char *s) { return (unsigned char *) adopt(utf8proc_NFC(s)); }
unsigned char *__wrap_utf8proc_NFD(const unsigned char *s) { return (unsigned char *) adopt(utf8proc_NFD(s)); }
unsigned char *__wrap_utf8proc_NFKC(const unsigned char *s) { return (unsigned char *) adopt(utf8proc_NFKC(s)); }
unsigned char *__wrap_utf8proc_NFKD(const unsigned char *s) { return (unsigned char *) adopt(utf8proc_NFKD(s)); }
ssize_t utf8proc_map(const unsigned char *, ssize_t, unsigned char **, int);
ssize_t __wrap_utf8proc_map(const unsigned char *s, ssize_t n, unsigned char **d, int o)
{
    ssize_t r = utf8proc_map(s, n, d, o);
    if (r >= 0 && *d) {
        char *p = (char *) a_alloc(r + 1, 0);
        if (p) memcpy(p, *d, r + 1);
        else r = -1;
        free(*d);
        *d = (unsigned char *) p;
    }
    return r;
}
ssize_t __wrap_getdelim(char **l, size_t *n, int delim, FILE *f)
{
    size_t k = 0;
    int c;
    if (!*l || !*n) {
        char *q = (char *) __wrap_realloc(*l, 64);
        if (!q) return -1;
        *n = 64;
        *l = q;
    }
    while ((c = getc(f)) != EOF) {
        if (k + 2 > *n) {
            char *q = (char *) __wrap_realloc(*l, *n * 2);
            if (!q) return -1;
            *n *= 2;
            *l = q;
        }
        (*l)[k++] = c;
        if (c == delim) break;
    }
    if (!k) return -1;
    (*l)[k] = 0;
    return k;
}
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { return __wrap_getdelim(l, n, '\n', f); }
int __wrap_vasprintf(char **r, const char *f, va_list ap)
{
    char *q;
    int n = vasprintf(&q, f, ap);
    if (n >= 0) {
        *r = (char *) a_alloc(n + 1, 0);
        if (*r) memcpy(*r, q, n + 1);
        else n = -1;
        free(q);
    }
    return n;
}
int __wrap_asprintf(char **r, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int n = __wrap_vasprintf(r, f, ap);
    va_end(ap);
    return n;
}
static void run_atexit()
{
    while (!W.atexits.empty()) {
        auto f = W.atexits.back();
        W.atexits.pop_back();
        f();
    }
}
static void finish(int status, bool flush) __attribute__((noreturn));
static void finish(int status, bool flush)
{
    if (!W.active) _exit(status);
    if (flush) {
        run_atexit();
        for (size_t i = 0; i < W.handles.size(); i++)
            if (!W.handles[i]->closed) fflush(W.handles[i]->f);
    }
    W.status = status & 0xff;
    longjmp(W.jb, 1);
}
void __wrap_exit(int status) { finish(status, true); }
void __wrap__exit(int status) { finish(status, false); }
void __wrap_abort() 
{
    W.status = -6;
    longjmp(W.jb, 1);
}
int __wrap_atexit(void (*f)())
{
    W.atexits.push_back(f);
    return 0;
}
void __wrap___assert_fail(const char *a, const char *, unsigned, const char *)
{
    if (!W.handles.empty()) fprintf(stderr, "Assertion `%s' failed.\n", a);
    W.status = -6;
    longjmp(W.jb, 1);
}
FILE *__wrap_fopen(const char *path, const char *mode)
{
    Handle *h = new Handle;
    h->name = path;
    h->out = mode[0] != 'r';
    point(path);
    long me = W.ops;
    note_op('o', h);
    if (me == W.env.signal_at) deliver(W.env.sig);
    if (me == W.env.fail_at) {
        delete h;
        errno = EMFILE;
        return NULL;
    }
    Node *n = find_node(path);
    S p = path;
    if (p == "") {
        delete h;
        errno = ENOENT;
        return NULL;
    }
    if (!n) {
        size_t sl = p.rfind('/');
        bool dir_ok = sl == S::npos || p[0] == '.' || p.substr(0, sl) == "/tmp" || (W.nodes.count(p.substr(0, sl)) && W.nodes[p.substr(0, sl)].kind == N_DIR);
        if (mode[0] == 'r' || !dir_ok || p.size() > 4000 || p.size() - (sl == S::npos ? 0 : sl + 1) > 255) {
            delete h;
            errno = ENOENT;
            return NULL;
        }
        Node nn;
        nn.kind = N_FILE;
        while (p.size() > 2 && p[0] == '.' && p[1] == '/') p = p.substr(2);
        n = &(W.nodes[p] = nn);
        n->written = n->made = true;
    } else if (n->kind == N_DENIED || (n->kind == N_DIR && (mode[0] != 'r' || strchr(mode, '+')))) {
        delete h;
        errno = n->kind == N_DIR ? EISDIR : EACCES;
        return NULL;
    }
    if (mode[0] == 'w') {
        n->data.clear();
        n->written = true;
    }
    h->node = n;
    h->append = mode[0] == 'a';
    h->readable = mode[0] == 'r' || strchr(mode, '+');
    h->full = n->kind == N_FULL;
    h->seekable = n->kind != N_PIPE && !W.env.pipes;
    FILE *f = open_handle(h, mode);
    if (h->out) small_buffer(f);
    return f;
}
FILE *__wrap_freopen(const char *path, const char *mode, FILE *f)
{
    FILE *g = path ? __wrap_fopen(path, mode) : NULL;
    if (!g) return NULL;
    if (f == stdout) stdout = g;
    else if (f == stderr) stderr = g;
    else if (f == stdin) stdin = g;
    else return NULL;
    fclose(f);
    return g;
}
int __wrap_stat(const char *path, struct stat *st)
{
    point(path);
    Node *n = find_node(path);
    if (!n) {
        errno = ENOENT;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = n->kind == N_DIR ? S_IFDIR | 0755 : n->kind == N_PIPE ? S_IFIFO | 0644 : S_IFREG | 0644;
    st->st_size = n->data.size();
    return 0;
}
int __wrap_access(const char *path, int)
{
    point(path);
    Node *n = find_node(path);
    if (!n || n->kind == N_DENIED) {
        errno = n ? EACCES : ENOENT;
        return -1;
    }
    return 0;
}
static S plain(const char *path)
{
    S p = path;
    while (p.size() > 2 && p[0] == '.' && p[1] == '/') p = p.substr(2);
    return p;
}
int __wrap_unlink(const char *path)
{
    point(path);
    S p = plain(path);
    if (!W.nodes.count(p)) {
        errno = ENOENT;
        return -1;
    }
    drop_node(p);
    return 0;
}
int __wrap_remove(const char *path) { return __wrap_unlink(path); }
int __wrap_rename(const char *a, const char *b)
{
    point(a, b);
    S p = plain(a), q = plain(b);
    if (!W.nodes.count(p)) {
        errno = ENOENT;
        return -1;
    }
    if (p == q) return 0;
    bool made = !W.nodes.count(q) || W.nodes[q].made;
    if (!W.nodes[p].made) W.removed.insert(p);
    drop_node(q);
    W.removed.erase(q);
    auto nh = W.nodes.extract(p);
    nh.key() = q;
    nh.mapped().written = true;
    nh.mapped().made = made;
    W.nodes.insert(std::move(nh));
    return 0;
}
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h)
{
    if (s < 1 || s > 64) return SIG_ERR;
    W.oneshot[s] = false;
    sigh o = W.handler[s];
    W.handler[s] = h;
    return o;
}
sigh __wrap_bsd_signal(int s, sigh h) { return __wrap_signal(s, h); }
sigh __wrap___sysv_signal(int s, sigh h) /* the handler is reset when it is called */
{
    sigh o = __wrap_signal(s, h);
    if (s >= 1 && s <= 64) W.oneshot[s] = true;
    return o;
}
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
    if (s < 1 || s > 64) return -1;
    if (o) {
        memset(o, 0, sizeof *o);
        o->sa_handler = W.handler[s];
    }
    if (a) W.handler[s] = a->sa_handler, W.oneshot[s] = a->sa_flags & SA_RESETHAND;
    return 0;
}
char *__wrap_getenv(const char *n)
{
    size_t k = strlen(n);
    for (auto &e : W.environ_)
        if (e.compare(0, k, n) == 0 && e[k] == '=') return &e[k + 1];
    return NULL;
}
int __wrap_getpid() { return W.env.pid; }
}

namespace vx {
/* ------------------------------------------------------------------ one run in-process */
static long g_inproc_runs;
const S REMOVED = "\001(removed)";
static Res run_inproc(const Inv &inv)
{
    auto it = g_tools.find(inv.tool);
    if (it == g_tools.end()) {
        fprintf(stderr, "no tool %s\n", inv.tool.c_str());
        _exit(3);
    }
    Tool &t = it->second;
    Res res;
    W.nodes.clear();
    W.gone.clear();
    W.removed.clear();
    W.steps = 0;
    W.stopped = false;
    W.seen = 0;
    for (auto &f : inv.files) {
        Node n;
        n.data = f.data;
        n.kind = f.kind;
        W.nodes[f.name] = n;
    }
    W.env = inv.env;
    W.environ_ = inv.env.environ_;
    W.res = &res;
    W.ops = 0;
    g_nwbuf = 0;
    W.status = 0;
    W.atexits.clear();
    for (auto &h : W.handler) h = SIG_DFL;
    W.handler[SIGPIPE] = SIG_DFL;
    FILE *so = stdout, *se = stderr, *si = stdin;
    Handle *hi = new Handle, *ho = new Handle, *he = new Handle;
    static S stdin_data;
    stdin_data = inv.stdin_data;
    hi->sink = &stdin_data;
    hi->name = "<stdin>";
    ho->sink = &res.out;
    ho->name = "<stdout>";
    ho->out = true;
    ho->full = inv.env.stdout_full;
    he->sink = &res.err;
    he->name = "<stderr>";
    he->out = true;
    he->counted = false;
    stdin = open_handle(hi, "r");
    stdout = open_handle(ho, "w");
    stderr = open_handle(he, "w");
    setvbuf(stderr, NULL, _IONBF, 0);
    small_buffer(stdout);
    reset_tool(t);
    std::vector<char *> argv;
    VS store;
    store.reserve(inv.args.size() + 1);
    store.push_back(inv.tool);
    for (auto &a : inv.args) store.push_back(a);
    for (auto &a : store) argv.push_back(&a[0]);
    argv.push_back(NULL);
    W.active = true;
    if (setjmp(W.jb) == 0) {
        int r = t.main((int) store.size(), argv.data());
        finish(r, true);
    }
    W.active = false;
    W.res = NULL;
    stdin = si;
    stdout = so;
    stderr = se;
    for (auto h : W.handles)
        if (!h->closed) {
            h->node = NULL;
            h->sink = NULL;
            fclose(h->f);
        }
    for (auto h : W.handles) delete h;
    W.handles.clear();
    res.status = W.status;
    res.ops = W.ops;
    for (auto &n : W.nodes) {
        if (n.second.written) res.wrote[n.first] = n.second.data;
        if (inv.env.want_world && n.second.kind == N_FILE) res.world[n.first] = n.second.data;
    }
    for (auto &n : W.removed)
        if (!res.wrote.count(n)) res.wrote[n] = REMOVED;
    res.steps = W.steps;
    res.stopped = W.stopped;
    res.seen = W.seen;
    arena_reset();
    reset_tool(t);
    g_inproc_runs++;
    return res;
}

/* ------------------------------------------------------------------ one run as a real process */
static S slurp(const S &p)
{
    S s;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return s;
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0 && s.size() < OUT_CAP) s.append(b, n);
    close(fd);
    return s;
}
static void spit(const S &p, const S &d)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0;
    while (fd >= 0 && o < d.size()) {
        ssize_t n = write(fd, d.data() + o, d.size() - o);
        if (n <= 0) break;
        o += n;
    }
    if (fd >= 0) close(fd);
}
static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static S g_mydir;
static S my_dir()
{
    if (g_mydir.empty()) {
        g_mydir = g_scratch + fmt("/w%d", (int) getpid());
        mkdir(g_mydir.c_str(), 0755);
    }
    return g_mydir;
}
#include <dirent.h>
static void list_tree(const S &dir, const S &pre, std::map<S, S> &m, std::vector<S> *dirs)
{
    DIR *d = opendir(dir.c_str());
    if (!d) return;
    while (struct dirent *e = readdir(d)) {
        S n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (lstat((dir + "/" + n).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) {
            list_tree(dir + "/" + n, pre + n + "/", m, dirs);
            if (dirs) dirs->push_back(pre + n);
        } else if (S_ISREG(st.st_mode)) m[pre + n] = slurp(dir + "/" + n);
        else m[pre + n] = "";
    }
    closedir(d);
}
static pid_t spawn_real(const Inv &inv, const S &cwd, const S &in, const S &out, const S &err, const S &prog, const S &pre, const S &pk)
{
    fflush(NULL);
    pid_t pid = vfork();
    if (pid == 0) {
        if (chdir(cwd.c_str())) _exit(126);
        int a = open(in.c_str(), O_RDONLY), b = open(inv.env.stdout_full ? "/dev/full" : out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), c = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(a, 0);
        dup2(b, 1);
        dup2(c, 2);
        close(a);
        close(b);
        close(c);
        struct rlimit rl = {(rlim_t) 4 << 30, (rlim_t) 4 << 30};
        setrlimit(RLIMIT_AS, &rl);
        struct rlimit nc = {0, 0};
        setrlimit(RLIMIT_CORE, &nc);
        struct rlimit fs = {(rlim_t) 1 << 28, (rlim_t) 1 << 28};
        setrlimit(RLIMIT_FSIZE, &fs);
        struct rlimit cpu = {100, 101};
        setrlimit(RLIMIT_CPU, &cpu);
        signal(SIGPIPE, SIG_DFL);
        std::vector<char *> av, ev;
        av.push_back((char *) prog.c_str());
        for (auto &x : inv.args) av.push_back((char *) x.c_str());
        av.push_back(NULL);
        ev.push_back((char *) "LC_ALL=C.UTF-8");
        for (auto &x : inv.env.environ_) ev.push_back((char *) x.c_str());
        if (pre.size()) {
            ev.push_back((char *) pre.c_str());
            ev.push_back((char *) pk.c_str());
        }
        ev.push_back(NULL);
        execve(prog.c_str(), av.data(), ev.data());
        _exit(126);
    }
    return pid;
}
static Res run_exec(const Inv &inv)
{
    Res res;
    S base = my_dir(), cwd = base + "/c";
    /* only names this function made are removed */
    mkdir(cwd.c_str(), 0755);
    std::vector<pid_t> writers;
    for (auto &f : inv.files) {
        S p = cwd + "/" + f.name;
        if (f.kind == N_DIR) mkdir(p.c_str(), 0755);
        else if (f.kind == N_FULL) { if (symlink("/dev/full", p.c_str())) {} }
        else if (f.kind == N_PIPE || (inv.env.pipes)) {
            mkfifo(p.c_str(), 0644);
            pid_t w = fork();
            if (w == 0) {
                signal(SIGPIPE, SIG_DFL);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                alarm(100);
                spit(p, f.data);
                _exit(0);
            }
            writers.push_back(w);
        } else spit(p, f.data);
        if (f.kind == N_DENIED) chmod(p.c_str(), 0);
    }
    S in = base + "/in", out = base + "/out", err = base + "/err";
    spit(in, inv.stdin_data);
    S prog = g_real + "/bin/" + inv.tool, pre, pk;
    if (inv.env.alloc_fail >= 0 || inv.env.alloc_max >= 0) {
        pre = "LD_PRELOAD=" + g_real + "/preload.so";
        pk = fmt("VX_ALLOC=%ld %d %ld", inv.env.alloc_fail, (int) inv.env.alloc_sticky, inv.env.alloc_max);
    }
    pid_t pid = spawn_real(inv, cwd, in, out, err, prog, pre, pk);
    int st = 0;
    double t0 = now();
    while (1) {
        pid_t r = waitpid(pid, &st, now() - t0 < 0.05 ? WNOHANG : WNOHANG);
        if (r == pid) break;
        if (r < 0) break;
        double el = now() - t0;
        if (el > 110) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(el < 0.01 ? 50 : el < 0.2 ? 1000 : 10000);
    }
    res.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    for (pid_t w : writers) {
        kill(w, SIGKILL);
        waitpid(w, NULL, 0);
    }
    res.out = inv.env.stdout_full ? "" : slurp(out);
    res.err = slurp(err);
    std::map<S, S> after;
    std::vector<S> dirs;
    std::map<S, const File *> before;
    for (auto &f : inv.files) before[f.name] = &f;
    list_tree(cwd, "", after, &dirs);
    for (auto &a : after) {
        auto b = before.find(a.first);
        if (b == before.end()) res.wrote[a.first] = a.second;
        else if (b->second->kind == N_FILE && !inv.env.pipes && b->second->data != a.second) res.wrote[a.first] = a.second;
        unlink((cwd + "/" + a.first).c_str());
    }
    for (auto &b : before)
        if (b.second->kind == N_FILE && !inv.env.pipes && !after.count(b.first) && b.first[0] != '/' && b.first.compare(0, 2, "./")) res.wrote[b.first] = REMOVED;
    for (auto &d : dirs) rmdir((cwd + "/" + d).c_str());
    unlink(in.c_str());
    unlink(out.c_str());
    unlink(err.c_str());
    rmdir(cwd.c_str());
    return res;
}

/* waits for the process to end (true) or, when wanted, to stop */
static bool wait_real(pid_t pid, int &st, bool stops)
{
    double t0 = now();
    while (1) {
        pid_t r = waitpid(pid, &st, WNOHANG | (stops ? WUNTRACED : 0));
        if (r == pid) return !WIFSTOPPED(st);
        if (r < 0) return true;
        double el = now() - t0;
        if (el > 110) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return true;
        }
        usleep(el < 0.01 ? 50 : el < 0.2 ? 1000 : 10000);
    }
}
static void count_exec(int n);
void exec_pair(const Inv &a, int n, const Inv &b, Res &ra, Res &rb, bool killed)
{
    S base = my_dir(), cwd = base + "/c", in = base + "/in";
    mkdir(cwd.c_str(), 0755);
    std::map<S, S> before;
    for (const Inv *v : {&a, &b})
        for (auto &f : v->files)
            if (f.kind == N_DIR) mkdir((cwd + "/" + f.name).c_str(), 0755);
    for (const Inv *v : {&a, &b})
        for (auto &f : v->files)
            if (f.kind == N_FILE) spit(cwd + "/" + f.name, f.data), before[f.name] = f.data;
    spit(in, "");
    S out[2] = {base + "/out", base + "/out2"}, err[2] = {base + "/err", base + "/err2"};
    int st[2] = {0, 0};
    pid_t p = spawn_real(a, cwd, in, out[0], err[0], g_real + "/bin/" + a.tool, "LD_PRELOAD=" + g_real + "/preload.so", fmt("VX_PAUSE=%d", n));
    bool over = wait_real(p, st[0], true);
    if (killed && !over) {
        kill(p, SIGKILL);
        wait_real(p, st[0], false);
        over = true;
    }
    pid_t q = spawn_real(b, cwd, in, out[1], err[1], g_real + "/bin/" + b.tool, "", "");
    wait_real(q, st[1], false);
    if (!over) {
        kill(p, SIGCONT);
        wait_real(p, st[0], false);
    }
    for (int k = 0; k < 2; k++) {
        Res &r = k ? rb : ra;
        r = Res();
        r.status = WIFEXITED(st[k]) ? WEXITSTATUS(st[k]) : -WTERMSIG(st[k]);
        r.out = slurp(out[k]);
        r.err = slurp(err[k]);
        unlink(out[k].c_str());
        unlink(err[k].c_str());
    }
    count_exec(2);
    std::vector<S> dirs;
    list_tree(cwd, "", ra.world, &dirs);
    for (auto &w : ra.world) unlink((cwd + "/" + w.first).c_str());
    for (auto &d : dirs) rmdir((cwd + "/" + d).c_str());
    unlink(in.c_str());
    rmdir(cwd.c_str());
    rb.world = ra.world;
}
/* ------------------------------------------------------------------ shared state of a check */
static const int MAXFAM = 400, MAXFAIL = 48, NSLOT = 64, MAXLEFT = 1024;
struct Slot {
    std::atomic<int> task, alive;
    std::atomic<uint64_t> idx, start_ms, seq, at, end; /* at, end: what it has of its task */
    std::atomic<int> done;
};
struct Left { /* part of a task that a worker had to leave */
    int task;
    uint64_t a, b;
    std::atomic<int> ready;
};
struct FailRec {
    int task;
    uint64_t idx;
    char msg[1500], key[200];
    std::atomic<int> ready;
};
struct Shared {
    Slot slot[NSLOT];
    std::atomic<uint64_t> next[MAXFAM], done[MAXFAM];
    std::atomic<uint64_t> undriven, states, skipped, inproc_runs, exec_runs, validated, mismatches, known;
    std::atomic<int> stop, nfail, capped;
    FailRec fail[MAXFAIL];
    std::atomic<uint64_t> famfails[MAXFAM];
    Left left[MAXLEFT];
    std::atomic<int> nleft, taken, lost;
    unsigned char outcomes[1 << 22];
    char knownkeys[4096];
    std::atomic<int> kk;
};
static Shared *SH;
static void count_exec(int n)
{
    if (SH) SH->exec_runs += n;
}
void Ctx::validated()
{
    if (SH) SH->validated++;
}

struct KnownFinding {
    S property, key, text;
};
static std::vector<KnownFinding> g_known;


static void need_driver(const Inv &inv)
{
    if ((inv.tool == "containers" || inv.tool == "library") && !g_tools.count(inv.tool)) throw Skip();
}
Res Ctx::probe(const Inv &inv)
{
    need_driver(inv);
    return run_inproc(inv);
}
/* writes the files and the command of one run of a counterexample */
static void keep_run(const Inv &inv, size_t k)
{
    if (g_replay.empty()) return;
    S rd = g_replay + fmt("/run%zu", k);
    mkdir(rd.c_str(), 0755);
    if (inv.files.size() < 400)
        for (auto &f : inv.files)
            if (f.name.find('/') == S::npos && f.kind == N_FILE && f.name.size() < 200) spit(rd + "/" + f.name, f.data);
    spit(rd + ".txt", inv.text() + "\n");
    S cmd = "cd \"$(dirname \"$0\")/" + fmt("run%zu", k) + "\" && " + inv.tool;
    if (inv.args.size() < 2000)
        for (auto &a : inv.args) {
            cmd += " '";
            for (char c : a)
                if (c == '\'') cmd += "'\\''";
                else cmd += c;
            cmd += "'";
        }
    spit(rd + ".sh", cmd + "\n");
}
Res Ctx::run(const Inv &inv)
{
    need_driver(inv);
    Res r;
    if (explain) {
        if (trace.size() >= 64) trace.erase(trace.begin() + 32);
        trace.push_back({inv, Res()});
        if (++traced <= 32) keep_run(inv, traced);
    }
    if (backend == B_EXEC) {
        r = run_exec(inv);
        if (SH) SH->exec_runs++;
    } else r = run_inproc(inv);
    if (backend == B_BOTH) {
        Res e = run_exec(inv);
        if (SH) SH->exec_runs++;
        Res a = r;
        if (inv.env.stdout_full) a.out = "";
        /* the in-process file system records rewriting a file with equal contents as a change */
        for (auto &f : inv.files) {
            auto w = a.wrote.find(f.name);
            if (w != a.wrote.end() && (f.kind != N_FILE || w->second == f.data)) a.wrote.erase(w);
        }
        std::map<S, S> ew;
        for (auto &w : e.wrote) ew[w.first] = w.second;
        if (a.status == e.status && a.out == e.out && a.err == e.err && a.wrote == ew) {
            if (SH) SH->validated++;
        } else {
            key = "CONFORMANCE";
            throw Fail{"in-process and real execution differ for " + inv.text() + "\n in-process: " + a.text() + "\n real: " + e.text()};
        }
    }
    if (explain) trace.back().second = r;
    if (SH) {
        uint64_t h = hash(r.out + r.err);
        SH->outcomes[(h >> 3) & ((1 << 22) - 1)] |= 1 << (h & 7);
        for (auto &w : r.wrote) {
            h = hash(w.second);
            SH->outcomes[(h >> 3) & ((1 << 22) - 1)] |= 1 << (h & 7);
        }
    }
    if (r.heap.size()) fail("%s: %s", inv.text().c_str(), r.heap.c_str());
    return r;
}
void Ctx::outcome(uint64_t h)
{
    if (SH) SH->outcomes[(h >> 3) & ((1 << 22) - 1)] |= 1 << (h & 7);
}
void Ctx::skip()
{
    if (SH && backend != B_BOTH) SH->skipped++;
}
void Ctx::fail(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    S s = vfmt(f, ap);
    va_end(ap);
    throw Fail{s};
}
void Ctx::eq(const S &what, const S &expected, const S &got)
{
    if (expected == got) return;
    size_t i = 0;
    while (i < expected.size() && i < got.size() && expected[i] == got[i]) i++;
    size_t line = 1 + std::count(got.begin(), got.begin() + i, '\n');
    size_t b = expected.rfind('\n', i ? i - 1 : 0);
    b = b == S::npos ? 0 : b + 1;
    if (i - b > 200) b = i - 100;
    fail("%s: first difference at byte %zu (line %zu): expected \"%s\", got \"%s\"\n--- expected\n%s\n--- got\n%s", what.c_str(), i, line,
         show(expected.substr(b < expected.size() ? b : expected.size(), 120)).c_str(), show(got.substr(b < got.size() ? b : got.size(), 120)).c_str(),
         show(expected, 3000).c_str(), show(got, 3000).c_str());
}
void Ctx::eq(const S &what, long expected, long got)
{
    if (expected != got) fail("%s: expected %ld, got %ld", what.c_str(), expected, got);
}
Res Ctx::ok(const Inv &inv)
{
    Res r = run(inv);
    if (r.status != 0 || r.err.size()) fail("%s: status %d, stderr \"%s\" (expected success)", inv.text().c_str(), r.status, show(r.err).c_str());
    return r;
}

/* ------------------------------------------------------------------ exploration */
struct Task {
    int fam;
    bool both;              /* second phase: conformance against the real binaries */
    std::vector<uint64_t> idx; /* its case numbers */
    uint64_t n, chunk;
};
static std::vector<Task> g_tasks;
static Check *C;
static double g_deadline;

static bool is_known(const S &key)
{
    for (auto &k : g_known)
        if (k.property == C->id && k.key.size() && key == k.key) return true;
    return false;
}
static void record_fail(int task, uint64_t idx, const S &msg, const S &key)
{
    if (key.size() && is_known(key)) {
        SH->known++;
        return;
    }
    /* of a family's failures the first six, and then ever fewer: they are judged on the real binaries, and
     * one that these do not confirm is no reason to leave the rest unexplored */
    uint64_t nth = SH->famfails[g_tasks[task].fam]++;
    if (nth >= 6 && (nth & (nth - 1))) return;
    int n = SH->nfail++;
    if (n >= MAXFAIL) return;
    FailRec &r = SH->fail[n];
    r.task = task;
    r.idx = idx;
    snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
    snprintf(r.key, sizeof r.key, "%s", key.c_str());
    r.ready = 1;
    if (n >= 8) SH->stop = 1;
}
static uint64_t ms() { return (uint64_t) (now() * 1000); }

static void run_case(Ctx &c, int task, uint64_t idx)
{
    Family &f = C->fams[g_tasks[task].fam];
    c.thorough = C->thorough;
    c.fam = f.name;
    c.index = idx;
    c.key = "";
    try {
        f.f(c, idx);
    } catch (Fail &e) {
        record_fail(task, idx, e.msg, c.key);
    } catch (Skip &) {
        c.skip();
        SH->undriven++;
    }
}
static void leave(int task, uint64_t a, uint64_t b)
{
    if (a >= b) return;
    int n = SH->nleft++;
    if (n >= MAXLEFT) {
        SH->lost = 1;
        return;
    }
    Left &l = SH->left[n];
    l.task = task, l.a = a, l.b = b;
    l.ready = 1;
}
static void run_range(Ctx &c, Slot &s, int t, uint64_t a, uint64_t b)
{
    Task &k = g_tasks[t];
    for (uint64_t j = a; j < b; j++) {
        if (SH->stop) return leave(t, j, b);
        uint64_t i = k.both ? k.idx[j] : j;
        s.at = j, s.end = b;
        s.task = t;
        s.idx = i;
        s.start_ms = ms();
        c.backend = k.both ? B_BOTH : B_INPROC;
        long r0 = g_inproc_runs;
        run_case(c, t, i);
        SH->inproc_runs += g_inproc_runs - r0;
        if (!k.both) SH->states++, SH->done[k.fam]++;
        s.task = -1;
    }
}
static void worker(int slot)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    arena_init();
    Slot &s = SH->slot[slot];
    Ctx c;
    auto overdue = [] {
        if (now() > g_deadline) SH->capped = 1, SH->stop = 1;
        return (bool) SH->stop;
    };
    auto leftovers = [&] {
        int q;
        while ((q = SH->taken) < std::min<int>(SH->nleft, MAXLEFT) && !overdue())
            if (SH->taken.compare_exchange_strong(q, q + 1)) {
                while (!SH->left[q].ready) usleep(100);
                run_range(c, s, SH->left[q].task, SH->left[q].a, SH->left[q].b);
            }
    };
    leftovers();
    for (size_t t = 0; t < g_tasks.size(); t++) {
        Task &k = g_tasks[t];
        while (!SH->stop) {
            uint64_t a = SH->next[t].fetch_add(k.chunk);
            if (a >= k.n) break;
            if (overdue()) break;
            run_range(c, s, (int) t, a, std::min(k.n, a + k.chunk));
        }
    }
    leftovers();
    s.done = 1;
    if (g_mydir.size()) rmdir(g_mydir.c_str());
    fflush(NULL);
    _exit(0);
}
static pid_t spawn_worker(int slot)
{
    SH->slot[slot].task = -1;
    SH->slot[slot].done = 0;
    pid_t p = fork();
    if (p == 0) worker(slot);
    return p;
}
static S status_text(int st)
{
    if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return fmt("ended with exit code %d%s", WEXITSTATUS(st), WEXITSTATUS(st) == 99 ? " (AddressSanitizer report)" : "");
}

/* Runs one case alone in a fresh process.  Returns 0 held, 1 violated; text describes it. */
static int solo(int fam, uint64_t idx, Backend be, double limit, const S &dir, S &text, S *samples = NULL)
{
    int pfd[2];
    if (pipe(pfd)) return 0;
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        arena_init();
        g_replay = dir;
        Ctx c;
        c.backend = be;
        c.explain = true;
        c.thorough = C->thorough;
        c.fam = C->fams[fam].name;
        c.index = idx;
        S t;
        int rc = 0;
        try {
            C->fams[fam].f(c, idx);
        } catch (Fail &e) {
            t = e.msg;
            rc = c.key == "CONFORMANCE" ? 4 : 1;
        } catch (Skip &) {
            t = "the driver does not compile";
        }
        for (size_t k = 32; k < c.trace.size(); k++) keep_run(c.trace[k].first, c.traced - c.trace.size() + k + 1);
        if (samples) {
            t = "";
            size_t k = 0;
            for (auto &x : c.trace) {
                if (++k > 3) {
                    t += fmt(" ; ... %zu runs in all", c.traced);
                    break;
                }
                t += (k > 1 ? " ; " : "") + x.first.text() + " => " + fmt("status=%d out=\"%s\"", x.second.status, show(x.second.out, 220).c_str());
                if (x.second.err.size()) t += " err=\"" + show(x.second.err, 120) + "\"";
            }
        } else
            for (auto &x : c.trace)
                if (t.size() < 20000) t += "\n\nrun: " + x.first.text() + "\n  => " + x.second.text();
        size_t o = 0;
        while (o < t.size()) {
            ssize_t n = write(pfd[1], t.data() + o, t.size() - o);
            if (n <= 0) break;
            o += n;
        }
        if (g_mydir.size()) rmdir(g_mydir.c_str());
        _exit(rc);
    }
    close(pfd[1]);
    double t0 = now();
    int st = 0;
    char b[65536];
    bool killed = false;
    while (1) {
        struct pollfd pf = {pfd[0], POLLIN, 0};
        double left = limit - (now() - t0);
        if (left <= 0) {
            kill(p, SIGKILL);
            killed = true;
            break;
        }
        int r = poll(&pf, 1, (int) (left * 1000) + 1);
        if (r > 0) {
            ssize_t n = read(pfd[0], b, sizeof b);
            if (n <= 0) break;
            text.append(b, n);
        }
    }
    close(pfd[0]);
    waitpid(p, &st, 0);
    if (samples) {
        *samples = text;
        return 0;
    }
    if (killed) {
        text = fmt("no answer within %.0f s (alone on the machine)", limit);
        return 1;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 4;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
    text = "the tool's process " + status_text(st) + "\n" + text;
    return 1;
}

static S json(const S &s)
{
    S r = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c == 127) r += fmt("\\u%04x", c);
        else if (c < 0x80) r += c;
        else { /* only well-formed UTF-8 reaches the file */
            int n = c >= 0xF0 && c < 0xF5 ? 4 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xC2 && c < 0xE0 ? 2 : 0;
            bool okay = n && i + n <= s.size();
            for (int j = 1; okay && j < n; j++) okay = ((unsigned char) s[i + j] & 0xC0) == 0x80;
            if (okay) {
                unsigned char d = s[i + 1];
                if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)) okay = false;
            }
            if (okay) r += s.substr(i, n), i += n - 1;
            else r += fmt("<%02x>", c);
        }
    }
    return r + "\"";
}
static void mkdirs(const S &p)
{
    for (size_t i = 1; i <= p.size(); i++)
        if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}

int main_(int argc, char **argv)
{
    Check chk;
    C = &chk;
    S tier = "quick", evidence, replaydir, findings, one_fam;
    int64_t one_idx = -1;
    double budget = 420;
    long seed = 1;
    S only;
    for (int i = 1; i < argc; i++) {
        S a = argv[i];
        auto next = [&]() { return S(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--id") chk.id = next();
        else if (a == "--tier") tier = next();
        else if (a == "--so") g_so = next();
        else if (a == "--real") g_real = next();
        else if (a == "--scratch") g_scratch = next();
        else if (a == "--evidence") evidence = next();
        else if (a == "--replaydir") replaydir = next();
        else if (a == "--findings") findings = next();
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--seed") seed = atol(next().c_str());
        else if (a == "--only") only = next();
        else if (a == "--replay") one_fam = next(), one_idx = atoll(next().c_str());
    }
    chk.thorough = tier == "thorough";
    double t0 = now();
    g_deadline = t0 + budget;
    /* known findings: lines "known: property=<id> key=<key> <text>" */
    for (auto &l : lines(slurp(findings)))
        if (l.compare(0, 7, "known: ") == 0) {
            KnownFinding k;
            size_t p = l.find("property="), q = l.find("key=");
            if (p == S::npos || q == S::npos) continue;
            k.property = l.substr(p + 9, l.find(' ', p) - p - 9);
            k.key = l.substr(q + 4, l.find_first_of(" \n", q) - q - 4);
            size_t e = l.find(' ', q);
            k.text = e == S::npos ? "" : l.substr(e + 1, l.size() - e - 2);
            g_known.push_back(k);
        }
    {
        DIR *d = opendir(g_so.c_str());
        while (struct dirent *e = d ? readdir(d) : NULL) {
            S n = e->d_name;
            if (n.size() > 3 && n.substr(n.size() - 3) == ".so") load_tool(n.substr(0, n.size() - 3));
        }
        if (d) closedir(d);
    }
    define(chk);
    if (only.size()) {
        std::vector<Family> keep;
        for (auto &f : chk.fams)
            if (f.name.find(only) != S::npos) keep.push_back(f);
        chk.fams = keep;
    }
    if (one_fam.size()) {
        for (size_t i = 0; i < chk.fams.size(); i++)
            if (chk.fams[i].name == one_fam) {
                S t;
                int r = solo(i, one_idx, B_INPROC, 120, "", t);
                printf("in-process: %s\n%s\n", r ? "VIOLATED" : "held", t.c_str());
                if (chk.fams[i].exec_ok && !VX_ASAN) {
                    S u;
                    r = solo(i, one_idx, B_EXEC, 600, "", u);
                    printf("\nreal binaries: %s\n%s\n", r ? "VIOLATED" : "held", u.c_str());
                }
                return r ? 1 : 0;
            }
        printf("no family %s\n", one_fam.c_str());
        return 2;
    }
    SH = (Shared *) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int pass = 0; pass < 2; pass++)
        for (size_t i = 0; i < chk.fams.size(); i++) {
            Family &f = chk.fams[i];
            if (pass == 1 && (!f.exec_ok || VX_ASAN || f.exec_sample == 0)) continue;
            Task t;
            t.fam = i;
            t.both = pass == 1;
            t.n = f.n;
            if (t.both) {
                uint64_t m = std::min<uint64_t>(f.n, f.exec_sample);
                std::set<uint64_t> s;
                for (uint64_t j = 0; j < m; j++) s.insert(m == 1 ? 0 : (uint64_t) ((__int128) j * (f.n - 1) / (m - 1)));
                t.idx.assign(s.begin(), s.end());
                t.n = t.idx.size();
            }
            t.chunk = std::max<uint64_t>(1, std::min<uint64_t>(512, t.n / 400));
            g_tasks.push_back(t);
        }
    if (g_tasks.size() > MAXFAM) return 3;
    /* determinism of the controlled world: the first case of every family, twice, must give the same trace */
    long nw = sysconf(_SC_NPROCESSORS_ONLN);
    if (nw < 2) nw = 2;
    if (nw > 16) nw = 16;
    std::vector<pid_t> pid(nw);
    S violation;
    std::vector<S> notes;
    int confirmed = 0;
    for (int round = 0;; round++) {
    fflush(NULL);
    for (int i = 0; i < nw; i++) pid[i] = spawn_worker(i);
    int live = nw;
    int deaths = 0;
    while (live > 0) {
        usleep(3000);
        for (int i = 0; i < nw; i++) {
            if (!pid[i]) continue;
            Slot &s = SH->slot[i];
            int st;
            pid_t r = waitpid(pid[i], &st, WNOHANG);
            if (r == pid[i]) {
                if (s.done && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    pid[i] = 0;
                    live--;
                    continue;
                }
                int t = s.task;
                if (t >= 0) {
                    record_fail(t, s.idx, "the tool's process " + status_text(st), "CRASH");
                    leave(t, s.at + 1, s.end);
                }
                deaths++;
                if (deaths > 12) SH->stop = 1;
                pid[i] = SH->stop ? 0 : spawn_worker(i);
                if (!pid[i]) live--;
                continue;
            }
            int t = s.task;
            uint64_t st_ms = s.start_ms;
            if (t >= 0) {
                double lim = C->fams[g_tasks[t].fam].limit * (g_tasks[t].both ? 12 : 1);
                if (ms() > st_ms && (ms() - st_ms) / 1000.0 > lim && s.task == t && s.start_ms == st_ms) {
                    uint64_t ix = s.idx;
                    kill(pid[i], SIGKILL);
                    waitpid(pid[i], &st, 0);
                    record_fail(t, ix, fmt("no answer within %.0f s", lim), "HANG");
                    leave(t, s.at + 1, s.end);
                    deaths++;
                    if (deaths > 12) SH->stop = 1;
                    pid[i] = SH->stop ? 0 : spawn_worker(i);
                    if (!pid[i]) live--;
                }
            }
        }
    }
    /* judge what was reported: replay alone, on the real binaries where possible */
    std::vector<int> order;
    int nf = std::min<int>(SH->nfail, MAXFAIL);
    for (int i = 0; i < nf; i++)
        if (SH->fail[i].ready) order.push_back(i);
    std::sort(order.begin(), order.end(), [](int a, int b) {
        auto &x = SH->fail[a], &y = SH->fail[b];
        bool cx = S(x.key) == "CONFORMANCE", cy = S(y.key) == "CONFORMANCE";
        if (cx != cy) return cx < cy;
        return x.task != y.task ? x.task < y.task : x.idx < y.idx;
    });
    for (int o : order) {
        FailRec &r = SH->fail[o];
        int fam = g_tasks[r.task].fam;
        Family &f = chk.fams[fam];
        S dir = replaydir + "/" + f.name + fmt("-%llu", (unsigned long long) r.idx);
        mkdirs(dir);
        S text;
        bool exec = f.exec_ok && !VX_ASAN;
        if (violation.size()) break;
        int rc;
        if (S(r.key) == "CONFORMANCE" && exec) {
            rc = solo(fam, r.idx, B_EXEC, 600, dir, text);
        } else {
            /* once more in-process, alone; then on the real binaries */
            S t2;
            rc = solo(fam, r.idx, B_INPROC, std::max(60.0, f.limit * 3), dir, t2);
            text = t2;
            if (rc && exec) {
                S t3;
                rc = solo(fam, r.idx, B_EXEC, 600, dir, t3);
                if (rc) text = t3;
            }
        }
        if (rc == 1) {
            confirmed++;
            spit(dir + "/case.txt", "property " + chk.id + ", family " + f.name + " (" + f.what + fmt("), case %llu\n", (unsigned long long) r.idx) + "replayed " + (exec ? "on the real binaries" : "in a fresh process") + "\n\n" + text + "\n\nfirst seen as: " + r.msg + "\n");
            spit(dir + "/replay.sh", "#!/bin/sh\ncd /verif && exec bin/check " + chk.id + " --replay " + f.name + fmt(" %llu\n", (unsigned long long) r.idx));
            chmod((dir + "/replay.sh").c_str(), 0755);
            violation = dir;
            printf("family %s, case %llu:\n%s\n", f.name.c_str(), (unsigned long long) r.idx, text.substr(0, 6000).c_str());
        } else {
            notes.push_back("not confirmed on replay: " + f.name + fmt(" case %llu: ", (unsigned long long) r.idx) + show(r.msg, 600));
        }
    }
    if (violation.size() || SH->capped || !SH->stop || round >= 8 || now() > g_deadline - 15) break;
    SH->stop = 0;
    SH->nfail = 0;
    for (auto &r : SH->fail) r.ready = 0;
    }
    for (auto &k : g_known)
        if (k.property == chk.id) printf("KNOWN-FINDING: property=%s %s\n", chk.id.c_str(), k.text.c_str());
    /* evidence */
    uint64_t outs = 0;
    for (unsigned char b : SH->outcomes) outs += __builtin_popcount(b);
    uint64_t total = 0;
    for (auto &f : chk.fams) total += f.n;
    uint64_t states = SH->states - SH->skipped;
    bool exhaustive = !SH->capped && !SH->stop && !SH->lost && !SH->undriven;
    if (notes.size() > 12) notes.resize(12);
    if (SH->undriven) printf("%s", fmt("NOTE %llu cases call the library directly and were not decided: the driver does not compile with the present headers\n", (unsigned long long) SH->undriven).c_str());

    for (auto &n : notes) printf("NOTE %s\n", n.c_str());
    S ev = "{\n";
    ev += " \"property\": " + json(chk.id) + ",\n \"tier\": " + json(tier) + fmt(",\n \"seed\": %ld,\n", seed);
    ev += " \"level\": " + json(chk.level) + ",\n \"coverage\": {\n";
    ev += fmt("  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long) states, (unsigned long long) SH->inproc_runs, (unsigned long long) SH->validated);
    ev += fmt("  \"executions_of_real_binaries\": %llu,\n  \"distinct_outputs_seen\": %llu,\n  \"space_size\": %llu,\n  \"exhaustive\": %s,\n", (unsigned long long) SH->exec_runs, (unsigned long long) outs, (unsigned long long) total, exhaustive ? "true" : "false");
    if (chk.level == "fault_enumeration" || chk.level == "exploration")
        ev += fmt("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long) SH->inproc_runs, (unsigned long long) states);
    ev += "  \"rule\": " + json(chk.rule.size() ? chk.rule : "every case of every family listed is executed on the code under test (real tool code, in-process) and judged by the reference model; a case is one point of the bounded space") + ",\n";
    ev += "  \"families\": [\n";
    for (size_t i = 0; i < chk.fams.size(); i++)
        ev += "   {\"name\": " + json(chk.fams[i].name) + ", \"what\": " + json(chk.fams[i].what) + fmt(", \"size\": %llu, \"explored\": %llu, \"replayable_on_real_binaries\": %s}%s\n", (unsigned long long) chk.fams[i].n, (unsigned long long) SH->done[i], chk.fams[i].exec_ok ? "true" : "false", i + 1 < chk.fams.size() ? "," : "");
    ev += "  ],\n  \"samples\": [\n";
    {
        bool first = true;
        int shown = 0;
        for (size_t i = 0; i < chk.fams.size() && shown < 14; i++) {
            if (!SH->done[i] || violation.size()) continue;
            for (uint64_t ix : {chk.fams[i].n / 2}) {
                S t, s;
                solo(i, ix, B_INPROC, 60, "", t, &s);
                ev += S(first ? "" : ",\n") + "   " + json(chk.fams[i].name + fmt(" case %llu: ", (unsigned long long) ix) + s.substr(0, 1600));
                first = false;
                shown++;
            }
        }
        if (first) ev += "   " + json("violation: " + violation);
        ev += "\n  ],\n";
    }
    ev += "  \"conformance\": " + json(fmt("%llu executions were run both in-process and as real processes built by the repository's Makefile, all observable results compared; %llu differed", (unsigned long long) (SH->validated), (unsigned long long) notes.size())) + "\n },\n";
    ev += " \"assumptions\": [";
    for (size_t i = 0; i < chk.assumptions.size(); i++) ev += (i ? ", " : "") + json(chk.assumptions[i]);
    ev += "],\n";
    ev += fmt(" \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violation.size() ? confirmed : 0);
    if (evidence.size()) {
        /* invalid UTF-8 cannot occur: show() escapes it */
        spit(evidence, ev);
    }
    printf("%s %s: %llu states, %llu executions in-process, %llu real, %llu validated, %llu distinct outputs, %s, %.1f s\n", chk.id.c_str(), tier.c_str(),
           (unsigned long long) states, (unsigned long long) SH->inproc_runs, (unsigned long long) SH->exec_runs, (unsigned long long) SH->validated, (unsigned long long) outs, exhaustive ? "space exhausted" : "NOT exhausted", now() - t0);
    if (violation.size()) {
        printf("VIOLATION property=%s replay=%s\n", chk.id.c_str(), violation.c_str());
        return 1;
    }
    return 0;
}
}
#if VX_ASAN
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:malloc_context_size=8:quarantine_size_mb=16";
}
#endif
int main(int argc, char **argv) { return vx::main_(argc, argv); }
