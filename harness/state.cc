// A text that describes what a called function must leave as it is in its process. Linked into effects.cc, loaded by pyeffects.py.
#include <clocale>
#include <cstdarg>
#include <cfenv>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <immintrin.h>
#include <iostream>
#include <locale>
#include <new>
#include <sched.h>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <algorithm>
#include <vector>
extern char** environ;
static std::string num(const char* f, ...) { char s[400]; va_list a; va_start(a, f); vsnprintf(s, sizeof s, f, a); va_end(a); return s; }
static std::string text;
static void line(const std::string& name, const std::string& value) { text += name + ": " + value + "\n"; }
template <class S> static void stream(const char* name, S& s) {
    line(std::string("format and state of ") + name, num("flags %x precision %ld width %ld fill %d exceptions %d state %d buffer %p tie %p ", (int)s.flags(), (long)s.precision(), (long)s.width(), (int)s.fill(), (int)s.exceptions(), (int)s.rdstate(), (void*)s.rdbuf(), (void*)s.tie()) + s.getloc().name());
}
static std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
static void listing(const std::string& dir, int depth) {
    DIR* d = opendir(dir.c_str()); if (!d) return;
    std::vector<std::string> names; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    for (auto& n : sorted(names)) {
        std::string p = dir + "/" + n; struct stat s; if (lstat(p.c_str(), &s)) continue;
        line("file " + p, num("mode %o size %ld changed %ld.%09ld links %ld", (int)s.st_mode, S_ISDIR(s.st_mode) ? 0 : (long)s.st_size, (long)s.st_mtim.tv_sec, (long)s.st_mtim.tv_nsec, (long)s.st_nlink));
        if (S_ISDIR(s.st_mode) && depth) listing(p, depth - 1);
    }
}
extern "C" {
void verif_reseed() { srand(77); srand48(77); }
// dir: a directory whose files must not change
const char* verif_state(const char* dir) {
    text.clear();
    unsigned short cw; asm volatile("fnstcw %0" : "=m"(cw));
    line("rounding mode", num("%d", fegetround())); line("floating-point control (MXCSR)", num("%x", _mm_getcsr() & 0xffc0)); line("floating-point control (x87)", num("%x", cw));
    line("locale of C", setlocale(LC_ALL, 0)); line("global locale of C++", std::locale().name() + num(" %c %s", std::use_facet<std::numpunct<char>>(std::locale()).decimal_point(), std::use_facet<std::numpunct<char>>(std::locale()).grouping().c_str()));
    stream("cout", std::cout); stream("cerr", std::cerr); stream("clog", std::clog); stream("cin", std::cin);
    for (int s = 1; s <= 64; ++s) { struct sigaction a; if (!sigaction(s, 0, &a)) { unsigned long m; memcpy(&m, &a.sa_mask, sizeof m); line(num("handler of signal %d", s), num("%p %x %lx", (void*)a.sa_handler, a.sa_flags & ~0x04000000, m)); } }
    sigset_t ss; sigprocmask(SIG_SETMASK, 0, &ss); unsigned long m; memcpy(&m, &ss, sizeof m); line("signal mask", num("%lx", m));
    char cwd[5000]; line("working directory", getcwd(cwd, sizeof cwd) ? cwd : "none");
    mode_t um = umask(0); umask(um); line("umask", num("%o", (int)um));
    std::vector<std::string> ev; for (char** e = environ; *e; ++e) ev.push_back(*e); std::string es; for (auto& e : sorted(ev)) es += e + " | "; line("environment", es);
    line("priority", num("%d", getpriority(PRIO_PROCESS, 0))); cpu_set_t cs; if (!sched_getaffinity(0, sizeof cs, &cs)) line("processors", num("%d", CPU_COUNT(&cs)));
    for (int i = 0; i < 16; ++i) { rlimit l; if (!getrlimit((__rlimit_resource_t)i, &l)) line(num("limit %d", i), num("%lu %lu", (long)l.rlim_cur, (long)l.rlim_max)); }
    for (int i = 0; i < 2; ++i) { itimerval t; if (!getitimer((__itimer_which_t)i, &t)) line(num("timer %d", i), t.it_value.tv_sec || t.it_value.tv_usec ? "runs" : "off"); }
    if (DIR* d = opendir("/proc/self/fd")) {
        std::vector<std::string> fds; while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d)) { int fd = atoi(e->d_name); char b[5000]; ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1); b[k < 0 ? 0 : k] = 0; fds.push_back(num("%d %x ", fd, fcntl(fd, F_GETFL)) + b + num(" at %ld", fd > 2 ? (long)lseek(fd, 0, SEEK_CUR) : 0L)); }
        closedir(d); for (auto& f : sorted(fds)) line("open file " + f.substr(0, f.find(' ')), f);
    }
    siginfo_t si; line("child processes", waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) && errno == ECHILD ? "none" : "some");
    if (DIR* d = opendir("/proc/self/task")) { int k = 0; while (dirent* e = readdir(d)) k += e->d_name[0] != '.'; closedir(d); line("threads", num("%d", k)); }
    line("next numbers of rand() and drand48()", num("%d ", rand()) + num("%.17g", drand48()));
    line("handlers of C++", num("%p %p", (void*)std::get_terminate(), (void*)std::get_new_handler())); line("exceptions in flight", num("%d", std::uncaught_exceptions()));
    listing(dir, 2);
    return text.c_str();
}
}
