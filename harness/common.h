/* Replay / bounded harness support: runs the REAL code of /repo on generated cases and compares with
 * an independent oracle. A case is a function of (seed, case index) only. */
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include <float.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

void __sanitizer_set_death_callback(void (*cb)(void));
size_t __sanitizer_get_current_allocated_bytes(void);

static int out_fd = 1;
static int in_child = 0, all_done = 0;
static uint64_t g_seed, g_case, g_rng;
static const char *g_prop = "?";
static char g_desc[1 << 16];
static size_t g_desc_len;
static int g_nontrivial;

static void wr(const char *s, size_t n) { while (n) { ssize_t k = write(out_fd, s, n); if (k <= 0) break; s += k; n -= (size_t) k; } }
static void say(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n > (int) sizeof b - 1) n = sizeof b - 1; wr(b, (size_t) n); }

/* description of the current case */
static void D(const char *f, ...) { if (g_desc_len > sizeof g_desc - 600) return; va_list a; va_start(a, f); int n = vsnprintf(g_desc + g_desc_len, 512, f, a); va_end(a); if (n > 511) n = 511; if (n > 0) g_desc_len += (size_t) n; }

static void dump_case(const char *what) {
    say("\nFAIL prop=%s seed=%llu case=%llu\n%s\n", g_prop, (unsigned long long) g_seed, (unsigned long long) g_case, what);
    say("-- case --\n"); wr(g_desc, g_desc_len); say("\n-- end --\n");
}
#define FAIL(...) do { char vf_b[2048]; snprintf(vf_b, sizeof vf_b, __VA_ARGS__); dump_case(vf_b); all_done = 1; _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

static void on_death(void) { if (!all_done) { dump_case("the code under test crashed (sanitizer report on stderr)"); } }
static void on_exit_(void) { if (!all_done && !in_child) { dump_case("the code under test called exit()"); _exit(1); } }
static void on_timer(int s) { (void) s; dump_case("the code under test did not terminate (CPU time limit for one case)"); all_done = 1; _exit(1); }

static uint64_t rnd64(void) { g_rng += 0x9E3779B97F4A7C15ull; uint64_t z = g_rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int rnd(int n) { return n <= 0 ? 0 : (int) (rnd64() % (uint64_t) n); }
static double rndd(void) { return (double) (rnd64() >> 11) / 9007199254740992.0; }

#define HSZ (1u << 20)
static uint64_t hset[HSZ]; static unsigned hcount;
static void note_case(void) {
    if (!g_nontrivial) return;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < g_desc_len; i++) h = (h ^ (unsigned char) g_desc[i]) * 1099511628211ull;
    if (!h) h = 1;
    unsigned i = (unsigned) (h & (HSZ - 1)), k = 0;
    while (hset[i] && hset[i] != h && k < 64) { i = (i + 1) & (HSZ - 1); k++; }
    if (!hset[i]) { hset[i] = h; hcount++; }
}

typedef struct { const char *prop; void (*run)(void); double cpu; } HCase;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
static void arm(double s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (time_t) s; it.it_value.tv_usec = (suseconds_t) ((s - floor(s)) * 1e6); setitimer(ITIMER_PROF, &it, NULL); }

/* argv: prop seed seconds [case] */
static int harness_main(int argc, char **argv, const HCase *tab, int ntab) {
    if (argc < 4) return 2;
    g_prop = argv[1]; g_seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]);
    long long only = argc > 4 ? atoll(argv[4]) : -1;
    const HCase *h = NULL;
    for (int i = 0; i < ntab; i++) if (!strcmp(tab[i].prop, g_prop)) h = &tab[i];
    if (!h) { say("NOCASE\n"); all_done = 1; return 3; }
    out_fd = dup(1); int nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1);
    __sanitizer_set_death_callback(on_death); atexit(on_exit_);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_timer; sigaction(SIGPROF, &sa, NULL);
    double t0 = now(); unsigned long long n = 0;
    char sample[1500]; sample[0] = 0;
    for (g_case = only >= 0 ? (uint64_t) only : 0;; g_case++) {
        if (only < 0 && n && now() - t0 > secs) break;
        g_rng = g_seed * 0xD1342543DE82EF95ull + g_case * 0x9E3779B97F4A7C15ull + 12345; rnd64();
        g_desc_len = 0; g_desc[0] = 0; g_nontrivial = 0;
        if ((n & 15) == 0 || h->cpu > 25) arm(h->cpu);
        h->run();
        note_case(); n++;
        if (g_nontrivial && (!sample[0] || n == 40)) { size_t k = g_desc_len < 1400 ? g_desc_len : 1400; memcpy(sample, g_desc, k); sample[k] = 0; }
        if (only >= 0) break;
    }
    for (char *p = sample; *p; p++) if (*p == '\n') *p = ';';
    say("OK cases=%llu distinct=%u sample=%s\n", n, hcount, sample);
    all_done = 1;
    _exit(0);
}
#endif
