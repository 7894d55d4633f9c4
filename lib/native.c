/* Native replay runtime.
 *   prog replay          load counterexample values (vk_inputs.inc), run the harness once
 *   prog random SEED N   N seeded runs: random data, or (when a counterexample is
 *                        present) random perturbations of it
 *   prog one SEED K      re-run exactly run number K of that seed
 * exit 0 nothing found / 99 contract clause violated / other: sanitizer or crash
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
void vk_harness(void);
extern void vk_apply_cex(const char *name, void *p);   /* generated */
extern int vk_have_cex;
static jmp_buf jb;
static int mode;             /* 0 replay, 1 random */
static unsigned long long rs;
static int rejected;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 20); }
unsigned vk_rand(void) { return mode ? rnd() : 0; }
int vk_random_mode(void) { return mode; }
void vk_reject(void) { rejected = 1; if (mode == 0) { printf("VK-REJECT precondition not met by replayed values\n"); exit(77); } longjmp(jb, 1); }
void vk_fail(const char *what) { printf("VK-FAIL %s\n", what); fflush(stdout); _exit(99); }
static void fill(unsigned char *b, unsigned long n)
{
    unsigned long i; unsigned k = rnd() % 6;
    for (i = 0; i < n; i++) switch (k) {
        case 0: b[i] = (unsigned char) rnd(); break;
        case 1: b[i] = (rnd() % 3) ? 0 : (unsigned char)(rnd() % 4); break;
        case 2: b[i] = (rnd() % 4) ? 0 : (unsigned char) rnd(); break;
        case 3: b[i] = (unsigned char)(rnd() & 0x7f); break;
        case 4: { static const unsigned char v[] = {0,1,0x7f,0x80,0xff,0x10,0x40,2}; b[i] = v[rnd() % 8]; break; }
        default: b[i] = (rnd() % 2) ? 0 : (unsigned char)(rnd() % 20); break;
    }
}
void vk_load(const char *name, void *p, unsigned long n)
{
    unsigned char *b = p; unsigned long i;
    if (mode == 0) { memset(p, 0, n); vk_apply_cex(name, p); return; }
    if (vk_have_cex && (rnd() % 4)) {
        memset(p, 0, n); vk_apply_cex(name, p);
        unsigned m = rnd() % 5;
        for (i = 0; i < m && n; i++) { unsigned long o = (((unsigned long)rnd() << 20) ^ rnd()) % n; fill(b + o, (n - o) < 8 ? 1 : (1u << (rnd() % 4))); }
        return;
    }
    fill(b, n);
}
int main(int argc, char **argv)
{
    if (argc < 2 || !strcmp(argv[1], "replay")) { mode = 0; vk_harness(); printf("VK-OK\n"); return 0; }
    unsigned long long seed = argc > 2 ? strtoull(argv[2], 0, 0) : 1;
    unsigned long n = argc > 3 ? strtoul(argv[3], 0, 0) : 1000, k, k0 = 0, acc = 0;
    double limit = argc > 4 ? atof(argv[4]) : 20; 
    mode = 1;
    if (!strcmp(argv[1], "one")) { k0 = n; n = k0 + 1; }
    time_t t0 = time(0);
    char *prog = 0;
    if (getenv("VK_PROGRESS")) {
        int fd = open(getenv("VK_PROGRESS"), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 24) == 0) { prog = mmap(0, 24, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (prog == MAP_FAILED) prog = 0; }
        if (fd >= 0) close(fd);
    }
    for (k = k0; k < n; k++) {
        rs = (seed + 1) * 0x9E3779B97F4A7C15ULL ^ (k + 1) * 0xD1B54A32D192ED03ULL; rnd(); rnd();
        rejected = 0;
        if (prog) sprintf(prog, "%-20lu", k);
        if (!setjmp(jb)) vk_harness();
        if (!rejected) acc++;
        if (time(0) - t0 > limit) { k++; break; }
    }
    printf("VK-OK runs=%lu accepted=%lu\n", k - k0, acc);
    return 0;
}
