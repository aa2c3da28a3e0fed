// Preloaded: counts the memory a program or the library has in use, and the most it ever had.
// What libfftw3 allocates for its plans is counted apart.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);
static struct { uintptr_t lo, hi; } fftw[4];
static int nfftw;
static int64_t live[2], peak[2], base[2];
static int note(struct dl_phdr_info* i, size_t s, void* p) {
    const char* n = strrchr(i->dlpi_name, '/');
    n = n ? n + 1 : i->dlpi_name;
    if (strncmp(n, "libfftw3", 8)) return 0;
    for (int j = 0; j < i->dlpi_phnum; ++j) if (i->dlpi_phdr[j].p_type == PT_LOAD && i->dlpi_phdr[j].p_flags & PF_X && nfftw < 4) {
        fftw[nfftw].lo = i->dlpi_addr + i->dlpi_phdr[j].p_vaddr; fftw[nfftw].hi = fftw[nfftw].lo + i->dlpi_phdr[j].p_memsz; ++nfftw; }
    return 0;
}
static int who(void* from) { for (int j = 0; j < nfftw; ++j) if ((uintptr_t)from >= fftw[j].lo && (uintptr_t)from < fftw[j].hi) return 1; return 0; }
static void* got(void* p, int w) {
    if (p) {
        int64_t l = __atomic_add_fetch(&live[w], malloc_usable_size(p) + 16, __ATOMIC_RELAXED), m = __atomic_load_n(&peak[w], __ATOMIC_RELAXED);
        while (l > m && !__atomic_compare_exchange_n(&peak[w], &m, l, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
    }
    return p;
}
static void gone(void* p, int w) { if (p) __atomic_sub_fetch(&live[w], malloc_usable_size(p) + 16, __ATOMIC_RELAXED); }
#define W who(__builtin_return_address(0))
void* malloc(size_t n) { return got(__libc_malloc(n), W); }
void* calloc(size_t a, size_t b) { return got(__libc_calloc(a, b), W); }
void* realloc(void* p, size_t n) {
    int w = W;
    size_t old = p ? malloc_usable_size(p) + 16 : 0;
    void* q = __libc_realloc(p, n);
    if (q || !n) __atomic_sub_fetch(&live[w], old, __ATOMIC_RELAXED);
    return got(q, w);
}
void* memalign(size_t a, size_t n) { return got(__libc_memalign(a, n), W); }
void* aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n), W); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = __libc_memalign(a, n); if (!q) return ENOMEM; got(q, W); *p = q; return 0; }
void free(void* p) { gone(p, W); __libc_free(p); }
// memory asked of FFTW by the code under test is its own
void* fftw_malloc(size_t n) { return got(__libc_memalign(64, n ? n : 1), 0); }
void fftw_free(void* p) { gone(p, 0); __libc_free(p); }
double* fftw_alloc_real(size_t n) { return fftw_malloc(8 * n); }
void* fftw_alloc_complex(size_t n) { return fftw_malloc(16 * n); }
void verif_mem_start(void) { nfftw = 0; dl_iterate_phdr(note, 0); for (int i = 0; i < 2; ++i) { base[i] = live[i]; peak[i] = live[i]; } }
// the most in use since the start, by the code under test and by FFTW, and the extent of the stack
uint64_t verif_mem_peak(int i) { return peak[i] - base[i]; }
uint64_t verif_mem_stack(void) {
    char s[4096], *q;
    int fd = open("/proc/self/status", O_RDONLY);
    ssize_t n = fd < 0 ? 0 : read(fd, s, sizeof s - 1);
    if (fd >= 0) close(fd);
    s[n > 0 ? n : 0] = 0;
    q = strstr(s, "VmStk:");
    return q ? strtoull(q + 6, 0, 10) * 1024 : 0;
}
static char report[512];
__attribute__((constructor)) static void begin(void) {
    const char* s = getenv("VERIF_MEM_FILE");
    if (s && strlen(s) < sizeof report) strcpy(report, s);
    verif_mem_start();
}
__attribute__((destructor)) static void end(void) {
    char s[96];
    int n, fd;
    if (!report[0]) return;
    n = snprintf(s, sizeof s, "%llu %llu %llu\n", (unsigned long long)verif_mem_peak(0), (unsigned long long)verif_mem_peak(1), (unsigned long long)verif_mem_stack());
    fd = open(report, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { if (write(fd, s, n) < 0) _exit(98); close(fd); }
}
