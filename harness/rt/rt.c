#define _GNU_SOURCE
/* Native side of the symbolic primitives: replays recorded values in call order.
 * Kept outside the LLVM module (the engine intercepts the declarations). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <errno.h>
#include <sys/resource.h>
#include <time.h>

static uint8_t *vals;
static size_t nvals, at;
static uint64_t hash = 0xcbf29ce484222325ull;
static int showing, out_fd = 1;
static uint64_t rnd;
static uint32_t entropy;

void rt_finish(const char *what) {
    char b[96];
    int n = snprintf(b, sizeof b, "%s %016llx\n", what, (unsigned long long)hash);
    ssize_t r = write(out_fd, b, n);
    (void)r;
    _exit(0);
}
void rt_panic(void) { rt_finish("panic"); }
int rt_showing(void) { return showing; }

static uint8_t next(uint8_t dflt) { return at < nvals ? vals[at++] : (at++, dflt); }

uint8_t sym_byte(const uint64_t *set) {
    for (int i = 0; i < 256; i++)
        if (set[i >> 6] >> (i & 63) & 1) return next(i);
    rt_finish("dead");
    return 0;
}
uint32_t sym_choice(uint32_t n) {
    uint32_t v = next(0);
    return v < n ? v : 0;
}
void sym_assume(_Bool b) { if (!b) rt_finish("dead"); }
void sym_check(_Bool b, uint32_t id) {
    if (!b) {
        char s[32];
        snprintf(s, sizeof s, "check:%u", id);
        rt_finish(s);
    }
}
void sym_note(const uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) { hash ^= p[i]; hash *= 0x100000001b3ull; }
}
void sym_show(const uint8_t *p, size_t n) {
    if (showing) { fwrite(p, 1, n, stdout); fputc('\n', stdout); fflush(stdout); }
}
void sym_cover(uint32_t id) { (void)id; }
void sym_exit(void) { rt_finish("done"); }
static uint64_t env_, ticks;
void sym_seed(uint64_t k) { env_ = k; rnd = k * 0x123456789abcdef1ull; }
uint32_t sym_entropy(void) { return entropy; }
void sym_heap_base(uint64_t k) { void *volatile p = malloc(k * 16 + 8); (void)p; }
_Bool sym_is_symbolic(uint8_t b) { (void)b; return 0; }
uint64_t sym_steps(void) { return 0; }

/* the standard library asks for hash seeds here */
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    (void)flags;
    uint8_t *b = p;
    entropy++;
    for (size_t i = 0; i < n; i++) {
        uint64_t z = rnd += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        b[i] = z ^ (z >> 31);
    }
    return n;
}

/* what a process may see of its surroundings: depends on `sym_seed`, as in the engine */
char *getenv(const char *n) {
    (void)n;
    if (env_ < 2) return 0;
    char *p = calloc(1, 8);
    p[0] = '0' + env_;
    return p;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    ticks++;
    t->tv_sec = 1700000000 + env_ * 7919;
    t->tv_nsec = (env_ * 1234567 + ticks * 1001) % 1000000000;
    return 0;
}
pid_t getpid(void) { return 1000 + env_; }
pid_t getppid(void) { return 1000 + env_; }
pid_t gettid(void) { return 1000 + env_; }
char *getcwd(char *b, size_t n) {
    (void)n;
    memcpy(b, (char[8]){'/', '0' + env_}, 8);
    return b;
}

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void load(char *s) {
    size_t n = strlen(s);
    while (n && (s[n - 1] == '\n' || s[n - 1] == ' ')) n--;
    vals = malloc(n / 2 + 1);
    nvals = n / 2;
    for (size_t i = 0; i < nvals; i++) vals[i] = hexv(s[2 * i]) << 4 | hexv(s[2 * i + 1]);
}

/* what never ends may also never stop allocating */
static void limits(void) {
    struct rlimit l = {3ul << 30, 3ul << 30};
    setrlimit(RLIMIT_AS, &l);
    alarm(10);
}
/* one case in this process (used by `show`) */
void rt_show(char *hexs, void (*run)(void)) {
    showing = 1;
    load(hexs);
    limits();
    run();
    rt_finish("done");
}
/* one case in a child process */
void rt_case(char *hexs, void (*run)(void)) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int d = dup(1);
        out_fd = d;
        load(hexs);
        limits();
        run();
        rt_finish("done");
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        const char *w = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang 0\n" : "crash 0\n";
        ssize_t r = write(1, w, strlen(w));
        (void)r;
    }
}
