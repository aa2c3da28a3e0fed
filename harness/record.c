// Preloaded: notes in the file $VERIF_RECORD what a process does to files by name, and the processes it starts.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
static void note(const char* what, const char* path) {
    const char* to = getenv("VERIF_RECORD"); char s[5000]; int fd;
    if (!to || !path || !strncmp(path, "/dev/", 5) || !strcmp(path, to)) return;
    fd = syscall(SYS_openat, AT_FDCWD, to, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600); if (fd < 0) return;
    int n = snprintf(s, sizeof s, "%s %s\n", what, path); if (n > 0 && syscall(SYS_write, fd, s, (size_t)(n < (int)sizeof s ? n : (int)sizeof s - 1)) < 0) {}
    syscall(SYS_close, fd);
}
#define WRITES(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))
#define REAL(name) static __typeof__(name)* real; if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)
#define OPEN(name) int name(const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } REAL(name); if (WRITES(f)) note("writes", p); return real(p, f, m); }
#define OPENAT(name) int name(int d, const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } REAL(name); if (WRITES(f)) note("writes", p); return real(d, p, f, m); }
#define FOPEN(name) FILE* name(const char* p, const char* m) { REAL(name); if (m && (*m != 'r' || strchr(m, '+'))) note("writes", p); return real(p, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64) FOPEN(fopen) FOPEN(fopen64)
int creat(const char* p, mode_t m) { REAL(creat); note("writes", p); return real(p, m); }
#define ONE(name, verb) int name(const char* p) { REAL(name); note(verb, p); return real(p); }
ONE(unlink, "removes") ONE(remove, "removes") ONE(rmdir, "removes")
int mkdir(const char* p, mode_t m) { REAL(mkdir); note("creates", p); return real(p, m); }
int chmod(const char* p, mode_t m) { REAL(chmod); note("changes", p); return real(p, m); }
int truncate(const char* p, off_t n) { REAL(truncate); note("changes", p); return real(p, n); }
int rename(const char* p, const char* q) { REAL(rename); note("renames", p); note("creates", q); return real(p, q); }
int link(const char* p, const char* q) { REAL(link); note("creates", q); return real(p, q); }
int symlink(const char* p, const char* q) { REAL(symlink); note("creates", q); return real(p, q); }
int mkfifo(const char* p, mode_t m) { REAL(mkfifo); note("creates", p); return real(p, m); }
int mkstemp(char* p) { REAL(mkstemp); int fd = real(p); note("writes", p); return fd; }
int system(const char* p) { REAL(system); note("starts", p ? p : ""); return real(p); }
FILE* popen(const char* p, const char* m) { REAL(popen); note("starts", p ? p : ""); return real(p, m); }
