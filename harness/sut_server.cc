// Serves calls of the library's public functions over a pipe. Linked against the objects built from /repo.
// Request: u32 fn, u32 nb, u32 nB, doubles. Reply: i32 status, f64 value, u64 heap bytes in use, u32 len, message.
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <algorithm>
#include <dlfcn.h>
#include <malloc.h>
#include <fcntl.h>
#include <errno.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
#include <thread>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
// only where the library is built to count its work (cost.c); the limit of a call comes in the upper bits of fn, in units of 2^20
// only where faults.c is preloaded: allocations to fail; upper bits of fn: 2 for the mode, 22 for the number, counted in units of 16 bytes in mode 3
static void (*arm)(int, uint64_t, int);
static uint64_t (*disarm)(void);
// only where mem.c is preloaded: the most memory in use during the call, in KB, the code's, FFTW's, and the stack's in pages
static void (*mem_start)(void);
static uint64_t (*mem_peak)(int);
static uint64_t (*mem_stack)(void);
extern "C" { extern uint64_t verif_work __attribute__((weak)); extern uint64_t verif_limit __attribute__((weak)); extern void (*verif_over)(void) __attribute__((weak)); }
static int reply_fd;
static bool rd(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(0); c += k; n -= k; } }
static void over() {
    int32_t status = 8; double value = 0; uint64_t work = verif_work; uint32_t len = 0;
    wr(reply_fd, &status, 4); wr(reply_fd, &value, 8); wr(reply_fd, &work, 8); wr(reply_fd, &len, 4);
    _exit(0);
}
int main() {
    int in = dup(0), out = dup(1);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1);
    reply_fd = out;
    if (&verif_over) verif_over = over;
    arm = (void (*)(int, uint64_t, int))dlsym(RTLD_DEFAULT, "verif_arm"); disarm = (uint64_t (*)(void))dlsym(RTLD_DEFAULT, "verif_disarm");
    mem_start = (void (*)(void))dlsym(RTLD_DEFAULT, "verif_mem_start"); mem_peak = (uint64_t (*)(int))dlsym(RTLD_DEFAULT, "verif_mem_peak"); mem_stack = (uint64_t (*)(void))dlsym(RTLD_DEFAULT, "verif_mem_stack");
    bool threads = getenv("SUT_THREADS");   // every call in a thread of its own
    int forks = getenv("SUT_FORK") ? atoi(getenv("SUT_FORK")) : 0, number = 0;   // every so manieth call in a child process
    for (;;) {
        uint32_t h[3];
        if (!rd(in, h, sizeof h)) break;
        int32_t status = 0; double value = 0; char msg[512]; msg[0] = 0; uint64_t heap = 0;
        {
            std::vector<double> b(h[1]), B(h[2]);
            if (h[1]) rd(in, b.data(), 8 * h[1]);
            if (h[2]) rd(in, B.data(), 8 * h[2]);
            if (&verif_work) { verif_limit = ~0ull; verif_work = 0; if (h[0] >> 8) verif_limit = (uint64_t)(h[0] >> 8) << 20; }
            if (arm && h[0] >> 8) { unsigned m = h[0] >> 30; arm(m, (uint64_t)(h[0] >> 8 & 0x3fffff) * (m == 3 ? 16 : 1), 0); }
            if (mem_start) mem_start();
            if (forks && ++number % forks == 0) {
                pid_t child = fork();
                if (child > 0) {
                    int st; while (waitpid(child, &st, 0) < 0 && errno == EINTR) ;
                    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
                    if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(3);
                    continue;
                }
                if (child == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); forks = -1; }
            }
            auto call = [&] { try {
                switch (h[0] & 255) {
                case 0: value = ecdf2(b, B, false); break;
                case 1: value = ecdf2(b, B, true); break;
                case 2: value = ecdf1_new_b(b); break;
                case 3: value = ecdf1_new_B(B); break;
                case 4: value = ecdf1_mns2016_b(b); break;
                case 5: value = ecdf1_mns2016_B(B); break;
                default: status = 9;
                }
            } catch (std::runtime_error& e) { status = 1; strncpy(msg, e.what(), sizeof msg - 1);
            } catch (std::exception& e) { status = 2; strncpy(msg, e.what(), sizeof msg - 1);
            } catch (...) { status = 3; } };
            if (threads) std::thread(call).join(); else call();
            if (disarm && disarm()) status += 16;
            if (mem_start) heap = std::min<uint64_t>(mem_peak(0) >> 10, (1 << 24) - 1) << 40 | std::min<uint64_t>(mem_peak(1) >> 10, (1 << 24) - 1) << 16 | std::min<uint64_t>(mem_stack() >> 12, 65535);
            if (&verif_work) { heap = verif_work; verif_limit = ~0ull; }
        }
        if (!&verif_work && !mem_start) { struct mallinfo2 mi = mallinfo2(); heap = mi.uordblks + mi.hblkhd; }
        uint32_t len = strlen(msg);
        wr(out, &status, 4); wr(out, &value, 8); wr(out, &heap, 8); wr(out, &len, 4); wr(out, msg, len);
        if (forks < 0) _exit(0);
    }
    return 0;  // normal exit, so that LeakSanitizer runs
}
