/* Common parts of the replay harnesses: deterministic random numbers, case descriptions, failure reports. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
#include <sys/time.h>
#include <time.h>
static char h_case[65536]; static long h_cases; static uint64_t h_s = 88172645463325252ULL; static double h_budget = 10; static struct timespec h_t0;
static uint64_t rnd(void) { h_s ^= h_s << 13; h_s ^= h_s >> 7; h_s ^= h_s << 17; return h_s * 2685821657736338717ULL; }
static unsigned rn(unsigned n) { return n ? (unsigned)((rnd() >> 33) % n) : 0; }
static void h_desc(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(h_case, sizeof h_case, f, a); va_end(a); h_cases++; }
static void h_add(const char *f, ...) { size_t n = strlen(h_case); va_list a; va_start(a, f); if (n < sizeof h_case - 200) vsnprintf(h_case + n, sizeof h_case - n, f, a); va_end(a); }
static void h_fail(const char *f, ...) { va_list a; va_start(a, f); printf("FAIL %s | ", h_case); vprintf(f, a); printf("\n"); va_end(a); fflush(stdout); _exit(1); }
static void h_sig(int s) { char b[70000]; int n = snprintf(b, sizeof b, "FAIL %s | %s\n", h_case, s == SIGALRM ? "no termination" : s == SIGFPE ? "arithmetic trap (SIGFPE)" : s == SIGABRT ? "abort" : "crash (SIGSEGV)"); if (write(1, b, n)) {} _exit(1); }
static double h_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - h_t0.tv_sec) + 1e-9 * (t.tv_nsec - h_t0.tv_nsec); }
static int h_more(void) { return h_now() < h_budget; }
static void h_tick(int secs) { alarm(secs); }     /* per-case watchdog */
static char h_stack[1 << 16];
static void h_init(int argc, char **argv) {
    clock_gettime(CLOCK_MONOTONIC, &h_t0);
    if (argc > 1) h_s ^= (uint64_t)atoll(argv[1]) * 0x9E3779B97F4A7C15ULL;
    if (argc > 2) h_budget = atof(argv[2]);
    if (!h_s) h_s = 1;
    for (int i = 0; i < 5; i++) rnd();
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = h_stack; ss.ss_size = sizeof h_stack; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0);
    setvbuf(stdout, 0, _IOLBF, 0);
}
static int h_done(void) { alarm(0); printf("OK cases=%ld\n", h_cases); fflush(stdout); _exit(0); }
