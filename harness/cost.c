// Counts the work of code compiled with -fsanitize-coverage=trace-pc: one unit per basic block entered,
// one per 32 bytes copied or filled, m*log2(m)/4 per Fourier transform of size m and 20000 per plan.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
uint64_t verif_work, verif_limit = ~0ull;
static char path[512];
static uint64_t used;
void verif_report(void) {
    char s[64];
    int fd;
    if (!path[0] || used++) return;
    fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    if (write(fd, s, snprintf(s, sizeof s, "%llu\n", (unsigned long long)verif_work)) < 0) _exit(98);
    close(fd);
}
void (*verif_over)(void);
static void over(void) {
    if (verif_over) verif_over();
    verif_report();
    _exit(99);
}
static inline void add(uint64_t k) { if ((verif_work += k) > verif_limit) over(); }
void __sanitizer_cov_trace_pc(void) { add(1); }
void* memcpy(void* d, const void* s, size_t n) { void* r = d; add(1 + n / 32); __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memset(void* d, int c, size_t n) { void* r = d; add(1 + n / 32); __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) {
    void* r = d;
    add(1 + n / 32);
    if ((uintptr_t)d - (uintptr_t)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else { char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); }
    return r;
}
// FFTW: sizes of plans, by address
static struct { void* p; double cost; } plan[1 << 16];
static unsigned slot(void* p) { unsigned h = (unsigned)(((uintptr_t)p >> 4) * 2654435761u) >> 16, k = 0; while (plan[h].p && plan[h].p != p && ++k < 65536) h = (h + 1) & 65535; return h; }
static void* made(void* p, double m) { add(20000); if (p) { unsigned h = slot(p); plan[h].p = p; plan[h].cost = m < 2 ? 1 : m * log2(m) / 4; } return p; }
#define REAL(name) static void* f; if (!f) f = dlsym(RTLD_NEXT, name)
void* fftw_plan_dft_r2c_1d(int n, double* in, void* out, unsigned fl) { REAL("fftw_plan_dft_r2c_1d"); return made(((void* (*)(int, double*, void*, unsigned))f)(n, in, out, fl), n); }
void* fftw_plan_dft_c2r_1d(int n, void* in, double* out, unsigned fl) { REAL("fftw_plan_dft_c2r_1d"); return made(((void* (*)(int, void*, double*, unsigned))f)(n, in, out, fl), n); }
void* fftw_plan_dft_1d(int n, void* in, void* out, int sg, unsigned fl) { REAL("fftw_plan_dft_1d"); return made(((void* (*)(int, void*, void*, int, unsigned))f)(n, in, out, sg, fl), 2.0 * n); }
void fftw_execute(void* p) { REAL("fftw_execute"); add(plan[slot(p)].cost); ((void (*)(void*))f)(p); }
void fftw_execute_dft_r2c(void* p, double* in, void* out) { REAL("fftw_execute_dft_r2c"); add(plan[slot(p)].cost); ((void (*)(void*, double*, void*))f)(p, in, out); }
void fftw_execute_dft_c2r(void* p, void* in, double* out) { REAL("fftw_execute_dft_c2r"); add(plan[slot(p)].cost); ((void (*)(void*, void*, double*))f)(p, in, out); }
void fftw_execute_dft(void* p, void* in, void* out) { REAL("fftw_execute_dft"); add(plan[slot(p)].cost); ((void (*)(void*, void*, void*))f)(p, in, out); }
__attribute__((constructor)) static void begin(void) {
    const char* s = getenv("VERIF_WORK_FILE");
    if (s && strlen(s) < sizeof path) strcpy(path, s);
    s = getenv("VERIF_WORK_LIMIT");
    if (s) verif_limit = strtoull(s, 0, 10);
}
__attribute__((destructor)) static void end(void) { verif_report(); }
