/* Refuses chosen memory requests of a real tool: those its own code makes (not those of the C library
 * for itself) are counted as the explorer counts them in-process.  VX_ALLOC="<which> <later too> <largest>". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);

static uintptr_t lo, hi;
static long which = -1, largest = -1, count;
static long pause_at = -1, opened;
static int sticky, ready;

static int cb(struct dl_phdr_info *i, size_t n, void *d)
{
    int k;
    for (k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            hi = lo + i->dlpi_phdr[k].p_memsz;
        }
    return 1; /* the program itself comes first */
}
__attribute__((constructor)) static void start(void)
{
    char *s = getenv("VX_ALLOC");
    dl_iterate_phdr(cb, NULL);
    if (s) sscanf(s, "%ld %d %ld", &which, &sticky, &largest);
    if ((s = getenv("VX_PAUSE"))) pause_at = atol(s);
    ready = 1;
}
static int refused(void *caller, size_t n)
{
    long k;
    if (!ready || (uintptr_t) caller < lo || (uintptr_t) caller >= hi) return 0;
    k = count++;
    if ((which >= 0 && (sticky ? k >= which : k == which)) || (largest >= 0 && n > (size_t) largest)) {
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
#define REFUSE(n) if (refused(__builtin_return_address(0), n)) return NULL
void *malloc(size_t n) { REFUSE(n); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { REFUSE(a * b); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { REFUSE(n); return __libc_realloc(p, n); }
static char *copy(const char *s, size_t n)
{
    char *p = __libc_malloc(n + 1);
    if (p) memcpy(p, s, n), p[n] = 0;
    return p;
}
char *strdup(const char *s) { REFUSE(strlen(s) + 1); return copy(s, strlen(s)); }
char *strndup(const char *s, size_t m) { REFUSE(strnlen(s, m) + 1); return copy(s, strnlen(s, m)); }
#define NORM(f) \
    unsigned char *f(const unsigned char *s) \
    { \
        static unsigned char *(*real)(const unsigned char *); \
        unsigned char *r; \
        if (!real) real = (unsigned char *(*)(const unsigned char *)) dlsym(RTLD_NEXT, #f); \
        r = real(s); \
        if (r && refused(__builtin_return_address(0), strlen((char *) r) + 1)) return NULL; \
        return r; \
    }
NORM(utf8proc_NFC)
NORM(utf8proc_NFD)
NORM(utf8proc_NFKC)
NORM(utf8proc_NFKD)

/* VX_PAUSE="<n>": the process stops itself before its n-th opening or closing of a file */
static void point(void)
{
    if (ready && ++opened == pause_at) raise(SIGSTOP);
}
FILE *fopen(const char *p, const char *m)
{
    static FILE *(*real)(const char *, const char *);
    if (!real) real = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    point();
    return real(p, m);
}
int fclose(FILE *f)
{
    static int (*real)(FILE *);
    if (!real) real = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
    point();
    return real(f);
}
