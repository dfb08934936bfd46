#include "sim.h"
#include <time.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/random.h>
#include <uuid/uuid.h>
#include <dlfcn.h>
/* clocks, sleeping, randomness, environment, identity, allocation ledger and collector control */
extern char **environ;

/* ------------------------------------------------------------------ clocks */
static int64_t wall_ns(const char *who) {
    sim_call(who);
    static const int64_t jumps[] = {0, 1, -1, 3600, -3600, 86400, -86400, 31536000, -7 * 86400, 59, -59};
    uint64_t j = decide("clockjump", sizeof jumps / sizeof *jumps, opt("jump_ppm", 0));
    if (j) { wall_off_ns += jumps[j] * 1000000000ll; count("fault:clock/jump", 1); slog("FAULT clock jump %lld s", (long long)jumps[j]); }
    int64_t t = (int64_t)now_ns + wall_off_ns;
    slog("CLK %s %lld", who, (long long)t);
    return t;
}
static int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; if (a % b < 0) q--; return q; }
time_t __wrap_time(time_t *p) { time_t t = floordiv(wall_ns("time"), 1000000000); if (p) *p = t; return t; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; int64_t t = wall_ns("gettimeofday"); tv->tv_sec = floordiv(t, 1000000000); tv->tv_usec = (t - (int64_t)tv->tv_sec * 1000000000) / 1000; return 0; }
/* results in static storage of the C library: another interpreter may run before they are looked at */
extern void static_result_point(void);
extern struct tm *__real_localtime(const time_t *), *__real_gmtime(const time_t *);
extern char *__real_strtok(char *, const char *), *__real_asctime(const struct tm *), *__real_ctime(const time_t *);
struct tm *__wrap_localtime(const time_t *t) { struct tm *r = __real_localtime(t); static_result_point(); return r; }
struct tm *__wrap_gmtime(const time_t *t) { struct tm *r = __real_gmtime(t); static_result_point(); return r; }
char *__wrap_strtok(char *s, const char *d) { char *r = __real_strtok(s, d); static_result_point(); return r; }
char *__wrap_asctime(const struct tm *t) { char *r = __real_asctime(t); static_result_point(); return r; }
char *__wrap_ctime(const time_t *t) { char *r = __real_ctime(t); static_result_point(); return r; }
static int64_t cpu_ns(void) { int64_t c = (int64_t)curnode->cpu; slog("CPU %lld", (long long)c); return c; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    int64_t t;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t = wall_ns("clock_gettime");
    else { sim_call("clock_gettime"); t = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? cpu_ns() : (int64_t)now_ns; slog("CLK mono %lld", (long long)t); }
    ts->tv_sec = floordiv(t, 1000000000); ts->tv_nsec = t - (int64_t)ts->tv_sec * 1000000000; return 0;
}
int __wrap_timespec_get(struct timespec *ts, int base) { __wrap_clock_gettime(CLOCK_REALTIME, ts); return base; }
clock_t __wrap_clock(void) { sim_call("clock"); return cpu_ns() / 1000; }

static bool never(void *a) { (void)a; return false; }
static int do_sleep(uint64_t ns, uint64_t *rem) {
    uint64_t start = now_ns;
    size_t part = 1001;
    int e = fault("nanosleep", NULL);
    uint64_t d = ns;
    if (e && ns) { uint64_t k = decide("sleepcut", 1000, 900000); d = ns / 1000 * k; }
    if (d > 4000000000ull * 1000000000ull) d = 4000000000ull * 1000000000ull;
    (void)part;
    if (d) block_until(never, NULL, now_ns + d, "sleep");
    uint64_t over = decide("oversleep", 3, opt("oversleep_ppm", 0)); now_ns += over * 20000;
    if (e) { uint64_t el = now_ns - start; *rem = el < ns ? ns - el : 0; errno = e; return -1; }
    return 0;
}
int __wrap_nanosleep(const struct timespec *r, struct timespec *m) {
    sim_call("nanosleep");
    slog("SLEEP req %lld %ld", (long long)r->tv_sec, (long)r->tv_nsec);
    if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999) { errno = EINVAL; return -1; }
    uint64_t rem = 0; uint64_t ns = (uint64_t)r->tv_sec > 4000000000ull ? 4000000000ull * 1000000000ull : (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec;
    int x = do_sleep(ns, &rem);
    if (x < 0 && m) { m->tv_sec = rem / 1000000000ull; m->tv_nsec = rem % 1000000000ull; }
    return x;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) {
    struct timespec t = *r;
    if (fl & TIMER_ABSTIME) {
        int64_t n = c == CLOCK_REALTIME ? (int64_t)now_ns + wall_off_ns : (int64_t)now_ns, want = (int64_t)r->tv_sec * 1000000000 + r->tv_nsec - n;
        if (want < 0) want = 0;
        t.tv_sec = want / 1000000000; t.tv_nsec = want % 1000000000;
    }
    int x = __wrap_nanosleep(&t, fl & TIMER_ABSTIME ? NULL : m); return x < 0 ? errno : 0;
}
unsigned __wrap_sleep(unsigned s) { struct timespec t = {s, 0}, m = {0, 0}; if (__wrap_nanosleep(&t, &m) < 0) return m.tv_sec + (m.tv_nsec > 0); return 0; }
int __wrap_usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return __wrap_nanosleep(&t, NULL); }

/* ------------------------------------------------------------------ randomness */
static uint64_t rnd(void) { return prng64(&curnode->randstate); }
static long rnd31(void) {
    static const long ext[] = {0, 0x7fffffff, 0x7ffffffe, 1, 0x40000000, 0x3fffffff};
    uint64_t k = decide("rand", 7, opt("randext_ppm", 0));
    return k ? ext[k - 1] : (long)(rnd() & 0x7fffffff);
}
int __wrap_rand(void) { sim_call("rand"); long v = rnd31(); slog("RAND %ld", v); return v; }
int __wrap_rand_r(unsigned *s) { (void)s; return __wrap_rand(); }
long __wrap_random(void) { return __wrap_rand(); }
long __wrap_lrand48(void) { return __wrap_rand(); }
double __wrap_drand48(void) { return __wrap_rand() / 2147483648.0; }
void __wrap_srand(unsigned s) { slog("SRAND %u", s); }
void __wrap_srandom(unsigned s) { slog("SRAND %u", s); }
void __wrap_srand48(long s) { slog("SRAND %ld", s); }
static void fill(void *b, size_t n) {
    unsigned char *p = b; uint64_t k = decide("entropy", 3, opt("randext_ppm", 0));
    for (size_t i = 0; i < n; i++) p[i] = k == 1 ? 0 : k == 2 ? 255 : (unsigned char)(rnd() >> 13);
}
int __wrap_getentropy(void *b, size_t n) { sim_call("getentropy"); int e = fault("getentropy", NULL); if (e) { errno = e; return -1; } if (n > 256) { errno = EIO; return -1; } fill(b, n); slog("EV getentropy %zu", n); return 0; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { (void)fl; sim_call("getrandom"); int e = fault("getentropy", NULL); if (e) { errno = e; return -1; } fill(b, n); return n; }
uint32_t __wrap_arc4random(void) { uint32_t v; fill(&v, 4); return v; }
void __wrap_arc4random_buf(void *b, size_t n) { fill(b, n); }
uint32_t __wrap_arc4random_uniform(uint32_t n) { return n ? __wrap_arc4random() % n : 0; }
static void uu(uuid_t u, int ver) { sim_call("uuid_generate"); fill(u, 16); u[6] = (u[6] & 0x0f) | ver << 4; u[8] = (u[8] & 0x3f) | 0x80; char t[40]; uuid_unparse_lower(u, t); slog("UUID %d %s", ver, t); static_result_point(); }
void __wrap_uuid_generate(uuid_t u) { uu(u, 4); }
void __wrap_uuid_generate_random(uuid_t u) { uu(u, 4); }
void __wrap_uuid_generate_time(uuid_t u) { uu(u, 1); }
int __wrap_uuid_generate_time_safe(uuid_t u) { uu(u, 1); return 0; }

/* ------------------------------------------------------------------ identity and environment */
int __wrap_uname(struct utsname *u) {
    sim_call("uname"); int e = fault("uname", NULL); if (e) { errno = e; return -1; }
    memset(u, 0, sizeof *u); strcpy(u->sysname, "SimOS"); strcpy(u->nodename, "simnode"); strcpy(u->release, "1.2.3"); strcpy(u->version, "#7"); strcpy(u->machine, "sim64"); return 0;
}
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "simnode"); return 0; }
uid_t __wrap_getuid(void) { return opt("uid", 0); }
uid_t __wrap_geteuid(void) { return opt("euid", opt("uid", 0)); }
gid_t __wrap_getgid(void) { return opt("gid", 0); }
gid_t __wrap_getegid(void) { return opt("egid", opt("gid", 0)); }

static int envfind(const char *n, size_t l) { if (environ) for (int i = 0; environ[i]; i++) if (!strncmp(environ[i], n, l) && environ[i][l] == '=') return i; return -1; }
static int envcount(void) { int n = 0; if (environ) while (environ[n]) n++; return n; }
static void envput(char *s, size_t l, bool over) {
    int i = envfind(s, l);
    if (i >= 0 && !over) return;
    int n = envcount(); char **e = calloc(n + 2, sizeof(char *)); memcpy(e, environ ? environ : (char *[]){NULL}, sizeof(char *) * n);
    if (i >= 0) e[i] = s; else e[n] = s;
    environ = e;
}
int __wrap_setenv(const char *n, const char *v, int over) {
    sim_call("setenv"); int e = fault("setenv", NULL); if (e) { errno = e; return -1; }
    if (!n || !*n || strchr(n, '=')) { errno = EINVAL; return -1; }
    size_t l = strlen(n); char *s = malloc(l + strlen(v) + 2); sprintf(s, "%s=%s", n, v);
    envput(s, l, over); return 0;
}
int __wrap_unsetenv(const char *n) {
    sim_call("unsetenv"); int e = fault("unsetenv", NULL); if (e) { errno = e; return -1; }
    if (!n || !*n || strchr(n, '=')) { errno = EINVAL; return -1; }
    int c = envcount(); char **x = calloc(c + 1, sizeof(char *)); int k = 0; size_t l = strlen(n);
    for (int i = 0; i < c; i++) if (!(!strncmp(environ[i], n, l) && environ[i][l] == '=')) x[k++] = environ[i];
    environ = x; return 0;
}
int __wrap_putenv(char *s) { char *q = strchr(s, '='); if (!q) return __wrap_unsetenv(s); envput(s, q - s, true); return 0; }
int __wrap_clearenv(void) { environ = calloc(1, sizeof(char *)); return 0; }

void *__wrap_dlopen(const char *f, int m) { (void)f; (void)m; slog("EV dlopen"); return NULL; }
int __wrap_atexit(void (*f)(void)) { (void)f; return 0; }

/* ------------------------------------------------------------------ allocation ledger */
bool ledger_on = true;
typedef struct LE { void *p; size_t n; int node; void *ra; } LE;
static LE *tab; static size_t tcap, tuse, tdead;
static size_t lh(void *p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9e3779b97f4a7c15ull; return x >> 20; }
static void lgrow(void) {
    size_t oc = tcap; LE *o = tab; tcap = tcap ? (tuse * 2 > tcap ? tcap * 2 : tcap) : 1 << 14; tab = calloc(tcap, sizeof(LE)); tuse = 0; tdead = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].p && o[i].p != (void *)1) { size_t h = lh(o[i].p) & (tcap - 1); while (tab[h].p) h = (h + 1) & (tcap - 1); tab[h] = o[i]; tuse++; }
    free(o);
}
static void ladd(void *p, size_t n, void *ra) {
    if (!p || !ledger_on || !curnode) return;
    if ((tuse + tdead) * 10 >= tcap * 6) lgrow();
    size_t h = lh(p) & (tcap - 1); while (tab[h].p && tab[h].p != (void *)1) h = (h + 1) & (tcap - 1);
    if (tab[h].p == (void *)1) tdead--;
    tab[h] = (LE){p, n, curnode->id, ra}; tuse++;
}
static bool ldel(void *p) {
    if (!p || !tcap) return false;
    size_t h = lh(p) & (tcap - 1);
    while (tab[h].p) { if (tab[h].p == p) { tab[h].p = (void *)1; tuse--; tdead++; return true; } h = (h + 1) & (tcap - 1); }
    return false;
}
size_t ledger_live(int node, size_t *blocks) {
    size_t b = 0, n = 0; for (size_t i = 0; i < tcap; i++) if (tab[i].p && tab[i].p != (void *)1 && tab[i].node == node) { b += tab[i].n; n++; }
    *blocks = n; return b;
}
void ledger_report(int node) {
    size_t bl, by = ledger_live(node, &bl);
    slog("LEAK node=%d blocks=%zu bytes=%zu", node, bl, by);
    int k = 0; for (size_t i = 0; i < tcap && k < 12; i++) if (tab[i].p && tab[i].p != (void *)1 && tab[i].node == node) { slog("LEAKED %zu %p", tab[i].n, tab[i].ra); k++; }
}
#define RA __builtin_return_address(0)
/* blocks are filled so that nothing depends on what malloc happened to return */
void *__wrap_malloc(size_t n) { void *p = malloc(n); if (p) memset(p, 0xA5, n); ladd(p, n, RA); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); ladd(p, a * b, RA); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p; if (q) ldel(q); p = realloc(q, n); if (!q && p && n < (1 << 20)) memset(p, 0xA5, n); if (n || p) ladd(p, n, RA); return p; }
void __wrap_free(void *p) { ldel(p); free(p); }
char *__wrap_strdup(const char *s) { char *p = strdup(s); ladd(p, strlen(s) + 1, RA); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = strndup(s, n); ladd(p, strlen(p) + 1, RA); return p; }
int __wrap_vasprintf(char **o, const char *f, va_list ap) { int r = vasprintf(o, f, ap); if (r >= 0) ladd(*o, r + 1, RA); return r; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); if (r >= 0) ladd(*o, r + 1, RA); return r; }

/* ------------------------------------------------------------------ collector control: which allocations collect is a decision */
extern void gc_set(DictuVM *, size_t);
extern void *reallocate(DictuVM *vm, void *previous, size_t oldSize, size_t newSize);
extern void sim_yield(void);
static uint64_t gcseen, gcrun;
void *__wrap_reallocate(DictuVM *vm, void *prev, size_t os, size_t ns) {
    static int init; static uint64_t mode, ppm, aly, every;
    if (!init) { init = 1; mode = opt("gcmode", 0); ppm = opt("gc_ppm", 0); aly = opt("alloc_yield_ppm", 0); every = opt("gc_every", 0); }
    if (in_child || !curnode) return reallocate(vm, prev, os, ns);
    if (ns > os) {
        gcseen++;
        bool c = false;
        if (mode == 1) c = true;                                   /* always */
        else if (mode == 2) c = decide("gc", 2, ppm) != 0;           /* seeded subset */
        else if (mode == 3) c = every && gcseen % every == 0;
        if (mode != 9) gc_set(vm, c ? 0 : SIZE_MAX);                /* 0: never; 9: the shipped policy */
        if (c) gcrun++;
    }
    if (aly && ns > os) {
        now_ns += 10;
        if (decide("allocyield", 2, aly)) { sim_call("alloc"); sim_yield(); }
    }
    return reallocate(vm, prev, os, ns);
}
void gc_counts(void) { count("gc:allocations", gcseen); count("gc:collections", gcrun); }
