// Preloaded: makes allocations and reads fail. Allocations fail by number or by size, only those made by the library, the programs or
// the C++ runtime on their behalf: libfftw3 ends the process itself when it gets no memory, and the Python interpreter is not under test.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
// mode 0: none, 1: the k-th, 2: the k-th and all that follow, 3: every one of at least k bytes
static int mode;
static uint64_t k, seen, hit;
static struct { uintptr_t lo, hi; } skip[8];
static int nskip;
static int note(struct dl_phdr_info* i, size_t s, void* p) {
    const char* n = strrchr(i->dlpi_name, '/');
    n = n ? n + 1 : i->dlpi_name;
    int python = p && !*n;
    if (!python && strncmp(n, "libfftw3", 8) && strncmp(n, "libc.so", 7) && strncmp(n, "ld-linux", 8) && strncmp(n, "libpython", 9)) return 0;
    for (int j = 0; j < i->dlpi_phnum; ++j) if (i->dlpi_phdr[j].p_type == PT_LOAD && i->dlpi_phdr[j].p_flags & PF_X && nskip < 8) {
        skip[nskip].lo = i->dlpi_addr + i->dlpi_phdr[j].p_vaddr; skip[nskip].hi = skip[nskip].lo + i->dlpi_phdr[j].p_memsz; ++nskip; }
    return 0;
}
void verif_arm(int m, uint64_t n, int python) { nskip = 0; dl_iterate_phdr(note, python ? &mode : 0); k = n; seen = hit = 0; mode = m; }
uint64_t verif_disarm(void) { mode = 0; return hit; }
static int fails(size_t size, void* from) {
    if (!mode) return 0;
    for (int j = 0; j < nskip; ++j) if ((uintptr_t)from >= skip[j].lo && (uintptr_t)from < skip[j].hi) return 0;
    ++seen;
    if (mode == 1 ? seen != k : mode == 2 ? seen < k : size < k) return 0;
    ++hit;
    errno = ENOMEM;
    return 1;
}
#define FROM __builtin_return_address(0)
void* malloc(size_t n) { return fails(n, FROM) ? 0 : __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return fails(a * b, FROM) ? 0 : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return n && fails(n, FROM) ? 0 : __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { return fails(n, FROM) ? 0 : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return fails(n, FROM) ? 0 : __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { void* q; if (fails(n, FROM)) return ENOMEM; q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
// reads of the file VERIF_READ_FILE: mode 1: the k-th and the following fail with EIO, 2: every read gives at most k bytes,
// 3: as 2, and every other read is interrupted, 4: the read that passes byte k fails, those before end there
static int rmode;
static uint64_t rk, rseen, rpos;
static dev_t rdev;
static ino_t rino;
static int ours(int fd) { struct stat st; return rmode && fstat(fd, &st) == 0 && st.st_dev == rdev && st.st_ino == rino; }
static int before(size_t* n) {
    ++rseen;
    if (rmode == 1 && rseen >= rk) { ++hit; errno = EIO; return -1; }
    if (rmode == 4) { if (rpos >= rk) { ++hit; errno = EIO; return -1; } if (*n > rk - rpos) *n = rk - rpos; }
    if (rmode == 3 && rseen % 2) { ++hit; errno = EINTR; return -1; }
    if ((rmode == 2 || rmode == 3) && *n > rk) { ++hit; *n = rk; }
    return 0;
}
ssize_t read(int fd, void* p, size_t n) {
    int o = ours(fd);
    ssize_t r;
    if (o && before(&n)) return -1;
    r = syscall(SYS_read, fd, p, n);
    if (o && r > 0) rpos += r;
    return r;
}
static int (*real_main)(int, char**, char**);
static char report[512];
static int begin(int c, char** v, char** e) {
    const char* s = getenv("VERIF_READ_FILE");
    struct stat st;
    int m = 0;
    unsigned long long n = 0;
    if (s && stat(s, &st) == 0) {
        rdev = st.st_dev; rino = st.st_ino;
        if ((s = getenv("VERIF_READ_FAULT")) && sscanf(s, "%d %llu", &m, &n) == 2) { rk = n; rmode = m; }
    }
    if ((s = getenv("VERIF_FAULT_REPORT")) && strlen(s) < sizeof report) strcpy(report, s);
    if ((s = getenv("VERIF_ALLOC_FAULT")) && sscanf(s, "%d %llu", &m, &n) == 2) verif_arm(m, n, 0);
    return real_main(c, v, e);
}
__attribute__((destructor)) static void end(void) {
    FILE* f;
    mode = 0;
    if (report[0] && (f = fopen(report, "w"))) { fprintf(f, "%llu %llu\n", (unsigned long long)hit, (unsigned long long)seen); fclose(f); }
}
int __libc_start_main(int (*m)(int, char**, char**), int c, char** v, void (*i)(void), void (*f)(void), void (*r)(void), void* s) {
    int (*real)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*) = dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    return real(begin, c, v, i, f, r, s);
}
