/* What a compiler process sees of its environment, decided by the simulator (preloaded into rustc):
 * entropy, wall clock, process id and the base of its mappings are functions of SIM_ENTROPY. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
static uint64_t seed, st, ticks;
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t nx(void) { return mix(__atomic_add_fetch(&st, 0x9E3779B97F4A7C15ULL, __ATOMIC_SEQ_CST)); }
__attribute__((constructor)) static void start(void) {
    const char *e = getenv("SIM_ENTROPY");
    seed = e ? strtoull(e, 0, 10) : 0;
    st = seed;
    size_t pages = mix(seed ^ 0x5151) % 4096;
    if (pages) mmap(0, pages * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void fill(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)nx(); }
ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; fill(b, n); return (ssize_t)n; }
int getentropy(void *b, size_t n) { fill(b, n); return 0; }
pid_t getpid(void) { return 1000 + (pid_t)(mix(seed ^ 0x9191) % 30000); }
static uint64_t now(void) { return 1000000000ULL + mix(seed ^ 0x7171) % 1000000000ULL; }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        t->tv_sec = (time_t)now();
        t->tv_nsec = (long)(mix(seed ^ 0x3131) % 900000000ULL + __atomic_add_fetch(&ticks, 1000, __ATOMIC_SEQ_CST) % 99000000);
        return 0;
    }
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; t->tv_sec = (time_t)now(); t->tv_usec = (suseconds_t)(mix(seed) % 1000000); return 0; }
time_t time(time_t *t) { time_t x = (time_t)now(); if (t) *t = x; return x; }
/* What only the macros under test are answered: any variable they may ask for, the host, the processors. */
static int from_macro(void *ret) { Dl_info i; return dladdr(ret, &i) && i.dli_fname && strstr(i.dli_fname, "parsel_derive") != 0; }
char *getenv(const char *name) {
    for (char **e = environ; e && *e; e++) {
        size_t n = strlen(name);
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    }
    if (!strncmp(name, "RUST", 4) || !strncmp(name, "LD_", 3) || !from_macro(__builtin_return_address(0))) return 0;
    static char *answers[] = {0, "", "1", "0", "true", "release", "debug", "x", 0, "/nonexistent", "2021", "1.0.0"};
    uint64_t h = seed;
    for (const char *p = name; *p; p++) h = mix(h ^ (unsigned char)*p);
    return answers[h % (sizeof answers / sizeof *answers)];
}
int gethostname(char *b, size_t n) { if (n) { b[0] = 'a' + (char)(mix(seed ^ 0x8181) % 26); if (n > 1) b[1] = 0; } return 0; }
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    static int (*real)(pid_t, size_t, cpu_set_t *);
    if (!real) real = (int (*)(pid_t, size_t, cpu_set_t *))dlsym(RTLD_NEXT, "sched_getaffinity");
    int r = real(pid, n, set);
    if (r >= 0 && from_macro(__builtin_return_address(0))) { CPU_ZERO_S(n, set); for (size_t i = 0; i <= mix(seed ^ 0x4141) % 8; i++) CPU_SET_S(i, n, set); }
    return r;
}
