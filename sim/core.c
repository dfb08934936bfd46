#include "sim.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include "include/dictu_include.h"

Shared *shm;
Node *nodes; int nnodes; Proc *procs; Prog *progs;
Node *curnode; Proc *cur; bool in_child; bool sim_active;
uint64_t now_ns = 1000000000ull; int64_t wall_off_ns = 0;
static sem_t sched_sem;
static uint64_t seed = 1; static bool explicit_mode;
static uint64_t steps, step_cap = 200000;
static int curphase; static bool machine_crashed;
static int child_counter;

const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:"
           "malloc_context_size=6:detect_odr_violation=0:check_initialization_order=0:handle_abort=0:intercept_tls_get_addr=0";
}

/* ------------------------------------------------------------------ log */
void raw_log(const char *p, size_t n) {
    static bool full; /* a record that ends in LOGFULL is not judged beyond crashes */
    if (full) return;
    if (shm->loglen + n + 64 >= shm->logcap) { full = true; n = 8; p = "LOGFULL\n"; }
    memcpy(shm->log + shm->loglen, p, n);
    shm->loglen += n;
}
void slog(const char *fmt, ...) {
    char b[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 3) n = sizeof b - 3;
    b[n++] = '\n';
    raw_log(b, n);
}
char *pct(const void *p, size_t n) {
    static const char hx[] = "0123456789ABCDEF";
    const unsigned char *s = p;
    char *o = malloc(n * 3 + 1), *q = o;
    for (size_t i = 0; i < n; i++) {
        if (s[i] > 32 && s[i] < 127 && s[i] != '%') *q++ = s[i];
        else { *q++ = '%'; *q++ = hx[s[i] >> 4]; *q++ = hx[s[i] & 15]; }
    }
    *q = 0;
    return o;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
size_t unpct(char *s) {
    char *o = s, *i = s;
    while (*i) {
        if (*i == '%' && i[1] && i[2]) { *o++ = hexv(i[1]) * 16 + hexv(i[2]); i += 3; }
        else *o++ = *i++;
    }
    *o = 0;
    return o - s;
}
void slog_bytes(const char *tag, const void *p, size_t n) {
    char *e = pct(p, n);
    raw_log(tag, strlen(tag)); raw_log(" ", 1); raw_log(e, strlen(e)); raw_log("\n", 1);
    free(e);
}
void violation(const char *cls, const char *fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    slog("VIOL %s %s", cls, b);
}
char *xstrdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }

/* ------------------------------------------------------------------ hashing and decisions */
uint64_t hash64(const void *p, size_t n, uint64_t h) {
    const unsigned char *s = p;
    for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 0x100000001b3ull; }
    return h;
}
static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t prng64(uint64_t *st) { *st += 0x9e3779b97f4a7c15ull; return mix(*st); }

typedef struct DC { char *name; uint64_t h, n; struct DC *next; } DC;
static DC *dctab[1024];
typedef struct DX { char *name; uint64_t nth, val; struct DX *next; } DX;
static DX *dxtab[4096]; static int ndx;

static DC *dcget(const char *name, uint64_t h) {
    DC *c;
    for (c = dctab[h & 1023]; c; c = c->next) if (c->h == h && !strcmp(c->name, name)) return c;
    c = calloc(1, sizeof *c); c->name = xstrdup(name); c->h = h; c->next = dctab[h & 1023]; dctab[h & 1023] = c;
    return c;
}
uint64_t decide(const char *name, uint64_t nalt, uint64_t ppm) {
    char nb[128];
    if (in_child) { snprintf(nb, sizeof nb, "child%d:%s", child_counter, name); name = nb; }
    uint64_t h = hash64(name, strlen(name), 0xcbf29ce484222325ull);
    DC *c = dcget(name, h);
    uint64_t nth = c->n++;
    uint64_t v = 0; bool found = false;
    if (nalt < 2) return 0;
    if (ndx) {
        for (DX *x = dxtab[(h ^ nth * 31) & 4095]; x; x = x->next)
            if (x->nth == nth && !strcmp(x->name, name)) { v = x->val % nalt; found = true; break; }
    }
    if (!found && !explicit_mode && ppm) {
        uint64_t r = mix(seed ^ mix(h ^ mix(nth)));
        if (r % 1000000 < ppm) v = 1 + (mix(r) % (nalt - 1));
    }
    if (v) {
        char b[192];
        int n = snprintf(b, sizeof b, "%s %llu %llu\n", name, (unsigned long long)nth, (unsigned long long)v);
        if (shm->declen + n < shm->deccap) { memcpy(shm->dec + shm->declen, b, n); shm->declen += n; }
        shm->ndec++;
    }
    shm->schedhash = hash64(&v, sizeof v, hash64(&h, sizeof h, shm->schedhash) ^ nth);
    return v;
}

typedef struct Opt { char *name; uint64_t v; struct Opt *next; } Opt;
static Opt *opts;
uint64_t opt(const char *name, uint64_t d) {
    for (Opt *o = opts; o; o = o->next) if (!strcmp(o->name, name)) return o->v;
    return d;
}
typedef struct Cnt { char *name; uint64_t v; struct Cnt *next; } Cnt;
static Cnt *cnts;
void count(const char *name, uint64_t n) {
    for (Cnt *c = cnts; c; c = c->next) if (!strcmp(c->name, name)) { c->v += n; return; }
    Cnt *c = calloc(1, sizeof *c); c->name = xstrdup(name); c->v = n; c->next = cnts; cnts = c;
}
void dump_counts(void) { for (Cnt *c = cnts; c; c = c->next) slog("COUNT %s %llu", c->name, (unsigned long long)c->v); }

/* ------------------------------------------------------------------ faults */
typedef struct Fault { char *call; char *eff; int err; uint64_t ppm, max, fired, nth, seen; char key[64]; struct Fault *next; } Fault;
static Fault *faults; static uint64_t maxfaults = 1000000, nfaults;
static const struct { const char *n; int e; } errnames[] = {
    {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EINTR", EINTR}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE}, {"ENOMEM", ENOMEM},
    {"EAGAIN", EAGAIN}, {"ECONNRESET", ECONNRESET}, {"ECONNREFUSED", ECONNREFUSED}, {"ETIMEDOUT", ETIMEDOUT}, {"EPIPE", EPIPE},
    {"EADDRINUSE", EADDRINUSE}, {"ENOBUFS", ENOBUFS}, {"EPERM", EPERM}, {"EROFS", EROFS}, {"EBUSY", EBUSY}, {"EDQUOT", EDQUOT}, {"EXDEV", EXDEV},
    {"ECONNABORTED", ECONNABORTED}, {"EHOSTUNREACH", EHOSTUNREACH}, {"ENETUNREACH", ENETUNREACH}, {"ELOOP", ELOOP}, {"ENOENT", ENOENT}, {"E2BIG", E2BIG},
    {"ENOEXEC", ENOEXEC}, {"ECHILD", ECHILD}, {"ESRCH", ESRCH}, {"EINVAL", EINVAL}, {"EFBIG", EFBIG}, {"ENOSYS", ENOSYS}, {"ENOTTY", ENOTTY}, {"EOVERFLOW", EOVERFLOW}, {"EBADF", EBADF}, {"EMLINK", EMLINK}, {"EISDIR", EISDIR}, {"ENOTDIR", ENOTDIR}, {"ENOTEMPTY", ENOTEMPTY},
    {"EEXIST", EEXIST}, {"ENAMETOOLONG", ENAMETOOLONG}, {"ENOTCONN", ENOTCONN}, {"EADDRNOTAVAIL", EADDRNOTAVAIL}, {"ERANGE", ERANGE}, {"EFAULT", EFAULT}, {"EAFNOSUPPORT", EAFNOSUPPORT},
    {"EPROTONOSUPPORT", EPROTONOSUPPORT}, {"ETXTBSY", ETXTBSY}, {"ENODEV", ENODEV}, {"EALREADY", EALREADY}, {"EISCONN", EISCONN}, {"EOPNOTSUPP", EOPNOTSUPP}, {"ENOPROTOOPT", ENOPROTOOPT}, {"EDOM", EDOM}, {NULL, 0}};
static int errbyname(const char *s) {
    for (int i = 0; errnames[i].n; i++) if (!strcmp(errnames[i].n, s)) return errnames[i].e;
    return 0;
}
bool faults_armed;
int fault(const char *call, size_t *len) {
    if (!faults_armed && opt("fault_wait", 0)) return 0;   /* faults start at the mark "/.sim/armfaults" */
    for (Fault *f = faults; f; f = f->next) {
        if (strcmp(f->call, call)) continue;
        f->seen++;
        if (f->err) {
            bool off = f->fired >= f->max || nfaults >= maxfaults || (f->nth && f->seen != f->nth);   /* nth: exactly that request, counted from where faults were armed */
            if (decide(f->key, 2, off ? 0 : f->ppm)) {
                f->fired++; nfaults++;
                char b[96]; snprintf(b, sizeof b, "fault:%s/%s", call, f->eff); count(b, 1);
                slog("FAULT %s %s", call, f->eff);
                return f->err;
            }
        } else if (len && *len > 1) {
            bool off = f->fired >= f->max || (f->nth && f->seen != f->nth);
            uint64_t v = decide(f->key, *len, off ? 0 : f->ppm);
            if (v) {
                f->fired++;
                char b[96]; snprintf(b, sizeof b, "fault:%s/%s", call, f->eff); count(b, 1);
                slog("FAULT %s short %zu of %zu", call, (size_t)v, *len);
                *len = v;
            }
        }
    }
    return 0;
}

/* ------------------------------------------------------------------ processes */
static int nextpid = 100;
Proc *proc_new(int ppid) {
    Proc *p = calloc(1, sizeof *p);
    p->pid = nextpid++; p->ppid = ppid;
    Proc **pp = &procs; while (*pp) pp = &(*pp)->next;
    *pp = p;
    return p;
}
static bool any_child_waiting(void *a) { (void)a; return true; }
void proc_close_all(Proc *p) { for (int i = 0; i < MAXFD; i++) if (p->fd[i]) { OFD *o = p->fd[i]; p->fd[i] = NULL; ofd_unref(o); } }
void proc_die(Proc *p, int status) {
    if (p->dead) return;
    (void)any_child_waiting;
    p->dead = true; p->status = status;
    extern void sqlvfs_proc_died(Proc *); sqlvfs_proc_died(p);
    proc_close_all(p);
    slog("EV pid=%d died status=%x", p->pid, status);
    /* orphans are adopted by init; a dead child of a dead parent is reaped */
    for (Proc *c = procs; c; c = c->next) if (c->ppid == p->pid) c->ppid = 1;
}
void log_fds(const char *why, Proc *p) {
    char b[3000]; int n = 0; b[0] = 0;
    for (int i = 0; i < MAXFD && n < 2800; i++) if (p->fd[i]) {
        OFD *o = p->fd[i];
        static const char *kn[] = {"file", "piper", "pipew", "sock", "out", "err", "in", "dir"};
        char *e = o->path ? pct(o->path, strlen(o->path)) : NULL;
        n += snprintf(b + n, sizeof b - n, " %d:%s%s%.120s", i, kn[o->kind], e ? "=" : "", e ? e : "");
        free(e);
    }
    int kids = 0, zom = 0;
    for (Proc *c = procs; c; c = c->next) if (c->ppid == p->pid && !c->reaped) { kids++; if (c->dead) zom++; }
    slog("FDS %s node=%d kids=%d zombies=%d%s", why, p->node ? p->node->id : -1, kids, zom, b);
}

/* ------------------------------------------------------------------ scheduler (nodes are threads, one runs at a time) */
static void switch_to(Node *n) {
    extern char **environ;
    curnode = n; cur = n ? n->proc : NULL;
    static Node *last; if (n && n != last) { last = n; count("switch", 1); }
    if (n) { stdout = n->out; stderr = n->err; stdin = n->inf; if (n->environ_) environ = n->environ_; }
}
static void leave(Node *n) {
    extern char **environ;
    if (n) n->environ_ = environ;
}
static void park(void) { /* give the baton back and wait for it */
    Node *n = curnode; int e = errno;
    leave(n);
    sem_post(&sched_sem);
    while (sem_wait(&n->sem)) ;
    switch_to(n);
    errno = e;
    if (n->proc->killsig && !n->crashed) node_exit(0, n->proc->killsig);
}
static bool others_runnable(void) {
    for (Node *n = nodes; n; n = n->next) {
        if (n == curnode || n->phase != curphase) continue;
        if (n->state == 1 || (n->state == 2 && (n->cond(n->condarg)))) return true;
    }
    for (Proc *p = procs; p; p = p->next) if (p->prog && !p->dead && p->wake <= now_ns && p->phase <= curphase) return true;
    return false;
}
void sim_call(const char *name) {
    if (in_child || !curnode) return;
    Node *n = curnode;
    now_ns += 1000; n->cpu += 1000;
    n->calls++;
    if (++steps > step_cap) { slog("STEPCAP %s", name); sim_finish("stepcap"); }
    static uint64_t kill_ppm = NEVER, yield_ppm, killat;
    if (kill_ppm == NEVER) { kill_ppm = opt("kill_ppm", 0); yield_ppm = opt("yield_ppm", 0); killat = opt("kill_at", 0); }
    static uint64_t killat1 = NEVER; if (killat1 == NEVER) killat1 = opt("kill_at_p1", 0);
    if (kill_ppm || killat || killat1 || ndx) {
        bool k = killat1 && curphase == 1 && n->calls == killat1;
        if (opt("kill_phase", 0) == (uint64_t)curphase && (kill_ppm || killat)) {
            if (killat && n->calls == killat) k = true;
            if (kill_ppm && decide("kill", 2, kill_ppm)) k = true;
        }
        if (k) {
            slog("EV node=%d KILLED at call %llu (%s)", n->id, (unsigned long long)n->calls, name);
            count("fault:kill", 1);
            n->crashed = true;
            if (opt("kill_machine", 0)) { machine_crashed = true; count("fault:powerloss", 1); }
            node_exit(0, SIGKILL);
        }
    }
    if (yield_ppm && others_runnable() && decide("yield", 2, yield_ppm)) { n->state = 1; park(); }
    else if (n->proc->killsig) node_exit(0, n->proc->killsig);
}
/* the scheduler may put another node here, whatever this one is in the middle of */
void sim_yield(void) {
    if (in_child || !curnode || !others_runnable()) return;
    if (++steps > step_cap) { slog("STEPCAP yield"); sim_finish("stepcap"); }
    curnode->state = 1;
    park();
}
/* called at every basic block of the interpreter (only in the build for it): each slot of preempt_slot blocks has at most one
   seeded point where another interpreter may go on; so has every block after which writable data of the process differs */
static uint64_t blk, blk_next = 0, blk_slot = 1; static bool blk_on, watch_on; static uint64_t blk_ppm, watch_ppm, blk_budget;
static uint64_t **watch_at, *watch_was; static int nwatch;
static void watch_load(void) {
    char p[512]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 8);
    if (n <= 0) return;
    while (n > 0 && p[n - 1] != '/') n--;
    strcpy(p + n, "watch");
    int fd = open(p, O_RDONLY); if (fd < 0) return;
    char *b = malloc(1 << 20); n = 0;
    for (ssize_t r; (r = read(fd, b + n, (1 << 20) - 1 - n)) > 0;) n += r;
    close(fd); b[n] = 0;
    watch_at = malloc(sizeof *watch_at * 20000); watch_was = malloc(8 * 20000);
    for (char *l = b; *l && nwatch < 19000;) {
        char *e; uint64_t a = strtoull(l, &e, 16), z = strtoull(e, &e, 16);
        if (z > 32) z = 32;
        for (uint64_t k = a & ~7ull; k < a + z; k += 8) watch_at[nwatch++] = (uint64_t *)k;
        l = e; while (*l && *l != '\n') l++; if (*l) l++;
    }
    free(b);
}
__attribute__((no_sanitize_address)) static bool watch_changed(bool first) {
    bool c = false;
    for (int i = 0; i < nwatch; i++) if (*watch_at[i] != watch_was[i]) { watch_was[i] = *watch_at[i]; c = true; }
    return c && !first;
}
static void preempt_slow(void) {
    if (in_child || !curnode) { blk_next = blk + 1; return; }
    static uint64_t slot_end, at; static bool init, pending;
    if (!init) {
        init = true; blk_ppm = opt("preempt_ppm", 0); blk_slot = opt("preempt_slot", 0); watch_ppm = opt("watch_ppm", 0);
        blk_on = blk_slot != 0;
        if (!blk_on) { blk_next = UINT64_MAX; return; }
        slot_end = blk + opt("preempt_skip", 0); blk_budget = opt("preempt_max", 4000);
        if (watch_ppm) { watch_load(); watch_on = nwatch; watch_changed(true); }
    }
    if (pending && blk >= at) { pending = false; blk_next = slot_end; if (!--blk_budget) blk_next = UINT64_MAX; count("preempt", 1); if (others_runnable()) { curnode->state = 1; park(); } return; }
    if (blk >= slot_end) {
        slot_end = blk + blk_slot; if (!blk_budget) { blk_next = UINT64_MAX; return; }
        uint64_t v = decide("preempt", blk_slot, blk_ppm);
        if (v) { pending = true; at = blk + v; blk_next = at; } else blk_next = slot_end;
    }
}
void __sanitizer_cov_trace_pc(void) {
    if (++blk >= blk_next) preempt_slow();
    if (watch_on && !in_child && curnode && watch_changed(false)) {
        count("shared-write", 1);
        if (others_runnable() && decide("watch", 2, watch_ppm)) { count("preempt", 1); curnode->state = 1; park(); }
    }
}
void static_result_point(void) { if (blk_on && !in_child && curnode && decide("preemptlib", 2, blk_ppm / 4)) sim_yield(); }
bool block_until(bool (*cond)(void *), void *arg, uint64_t deadline, const char *what) {
    if (in_child) { slog("EV child-would-block %s", what); return false; }
    Node *n = curnode;
    if (cond(arg)) return true;
    n->cond = cond; n->condarg = arg; n->deadline = deadline; n->waiting = what; n->timedout = false;
    n->state = 2;
    slog("EV node=%d blocks %s", n->id, what);
    park();
    n->state = 1;
    return !n->timedout;
}
void node_exit(int code, int sig) {
    Node *n = curnode;
    if (in_child) { shm->child_state = 2; shm->child_code = sig ? sig : (code & 255) << 8; _exit(0); }
    if (!sig && !n->haltleak) node_flush_all(n, true);
    else n->crashed = true;
    n->exitcode = code & 255; n->exitsig = sig;
    slog("EV node=%d exit code=%d sig=%d", n->id, n->exitcode, sig);
    { char b[32]; snprintf(b, sizeof b, "exit"); log_fds(b, n->proc); }
    proc_die(n->proc, sig ? sig : (code & 255) << 8);
    n->state = 3;
    leave(n);
    sem_post(&sched_sem);
    for (;;) { sem_t s; sem_init(&s, 0, 0); while (sem_wait(&s)) ; }
}
extern int dictu_main(int argc, char **argv);
extern void gc_node_start(Node *n);
static void *node_thread(void *a) {
    Node *n = a;
    while (sem_wait(&n->sem)) ;
    switch_to(n);
    if (!n->embed) {
        int r = dictu_main(n->argc, n->argv);
        node_exit(r, 0);
    }
    DictuVM *vm = dictuInitVM(n->repl, n->argc, n->argv);
    n->vm = vm;
    for (int i = 0; i < n->nitems; i++) {
        char *m = xstrdup(n->items[i].mod), *s = xstrdup(n->items[i].src);
        slog("EV node=%d item %d", n->id, i);
        int r = dictuInterpret(vm, m, s);
        free(m); free(s);
        fflush(n->out); fflush(n->err);
        slog("RESULT %d %d %d %zu", n->id, i, r, (size_t)n->elen);
        char b[64]; snprintf(b, sizeof b, "item%d", i); log_fds(b, n->proc);
    }
    dictuFreeVM(vm);
    n->vm = NULL;
    ledger_report(n->id);
    node_exit(0, 0);
}

/* one step of a scripted program; returns true if it made progress */
static uint64_t patbyte(uint64_t sd, uint64_t i) { return "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ+/"[(mix(sd * 1000003 + (i >> 3)) >> ((i & 7) * 7)) & 63]; }
static char *patbuf(uint64_t sd, size_t off, size_t n) { char *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = patbyte(sd, off + i); b[n] = 0; return b; }
static bool pipe_space(OFD *o) { return o->kind != K_PIPEW || o->pipe->readers == 0 || o->pipe->len < o->pipe->cap; }
static bool prog_ready(Proc *p) {
    if (p->dead || !p->prog || p->phase > curphase) return false;
    if (p->killsig) return true;
    if (p->wake > now_ns) return false;
    if (p->pc >= p->prog->nact) return true;
    Action *a = &p->prog->act[p->pc];
    OFD *o;
    if (a->op[0] == 'w' || !strcmp(a->op, "lit") || !strcmp(a->op, "args") || !strcmp(a->op, "env")) { int fd = a->op[0] == 'w' && a->op[1] == '2' ? 2 : 1; o = p->fd[fd]; return !o || pipe_space(o); }
    if (!strcmp(a->op, "pause")) return false;
    if (!strcmp(a->op, "read0")) { o = p->fd[0]; if (!o || o->kind != K_PIPER) return true; return o->pipe->len > 0 || o->pipe->writers == 0; }
    if (!strcmp(a->op, "connect")) { Sock *l; return sock_listen_find(atoi(a->a1), &l) && l->nqueue < l->backlog; }
    if (!strcmp(a->op, "saccept")) { o = p->fd[3]; return o && o->sock && o->sock->nqueue > 0; }
    if (!strcmp(a->op, "send") || !strcmp(a->op, "sendlit")) { o = p->fd[4]; return !o || sock_writable(o->sock); }
    if (!strcmp(a->op, "recv") || !strcmp(a->op, "recvall")) { o = p->fd[4]; return !o || sock_readable(o->sock); }
    return true;
}
static void prog_step(Proc *p) {
    if (p->killsig) { proc_die(p, p->killsig); return; }
    if (p->pc >= p->prog->nact) { proc_die(p, 0); return; }
    Action *a = &p->prog->act[p->pc];
    now_ns += 1000;
    if (a->op[0] == 'w' || !strcmp(a->op, "lit") || !strcmp(a->op, "args") || !strcmp(a->op, "env")) {
        int fd = a->op[0] == 'w' && a->op[1] == '2' ? 2 : 1;
        size_t total; char *data = NULL;
        if (a->op[0] == 'w') total = strtoull(a->a1, 0, 10);
        else if (!strcmp(a->op, "lit")) { data = xstrdup(a->a1); total = unpct(data); }
        else if (!strcmp(a->op, "env")) {
            unpct(a->a1);
            total = 0; data = xstrdup("");
            for (char **e = p->envp; e && *e; e++) { size_t l = strlen(a->a1); if (!strncmp(*e, a->a1, l) && (*e)[l] == '=') { free(data); data = xstrdup(*e + l + 1); total = strlen(data); } }
        } else {
            total = 0; data = calloc(1, 1);
            for (int i = 0; p->argv && p->argv[i]; i++) { size_t l = strlen(p->argv[i]); data = realloc(data, total + l + 2); memcpy(data + total, p->argv[i], l); total += l; data[total++] = '\n'; data[total] = 0; }
        }
        size_t left = total - p->progress;
        if (left) {
            size_t n = left; 
            size_t space = n;
            OFD *o = p->fd[fd];
            if (o && o->kind == K_PIPEW) { space = o->pipe->readers ? o->pipe->cap - o->pipe->len : n; if (n > space) n = space; }
            uint64_t c = n > 1 ? decide("progchunk", n, opt("chunk_ppm", 0)) : 0;
            if (c) n = c;
            char *b = data ? data + p->progress : patbuf(strtoull(a->a2 ? a->a2 : "1", 0, 10), p->progress, n);
            ssize_t w = (ssize_t)n;
            if (o) {
                w = ofd_write(p, o, b, n, false);
            }
            if (!data) free(b);
            if (w < 0) { free(data); proc_die(p, SIGPIPE); return; }
            p->progress += w;
        }
        free(data);
        if (p->progress >= total) { p->pc++; p->progress = 0; }
        return;
    }
    if (!strcmp(a->op, "sleep")) { p->wake = now_ns + strtoull(a->a1, 0, 10) * 1000000ull; p->pc++; return; }
    if (!strcmp(a->op, "exit")) { proc_die(p, (atoi(a->a1) & 255) << 8); return; }
    if (!strcmp(a->op, "sig")) { proc_die(p, atoi(a->a1)); return; }
    if (!strcmp(a->op, "closefd")) { int f = atoi(a->a1); if (p->fd[f]) { OFD *o = p->fd[f]; p->fd[f] = NULL; ofd_unref(o); } p->pc++; return; }
    if (!strcmp(a->op, "read0")) {
        OFD *o = p->fd[0];
        if (o && o->kind == K_PIPER) { if (o->pipe->len) { o->pipe->head += o->pipe->len; o->pipe->len = 0; return; } }
        p->pc++; return;
    }
    if (!strcmp(a->op, "putfile")) { /* another process changes a file */
        char *d = xstrdup(a->a2 ? a->a2 : ""); size_t n = unpct(d); fs_put_file(a->a1, d, n, 0644); free(d); p->pc++; slog("EV putfile %s", a->a1); return;
    }
    if (!strcmp(a->op, "listen")) {
        Sock *s = calloc(1, sizeof *s); s->domain = AF_INET; s->type = SOCK_STREAM; s->bound = s->listening = true; s->port = atoi(a->a1); s->backlog = 16;
        OFD *o = ofd_new(K_SOCK); o->sock = s; p->fd[3] = o; o->refs = 1;
        extern void sock_register(Sock *); sock_register(s);
        p->pc++; return;
    }
    if (!strcmp(a->op, "connect")) { if (peer_connect(p, atoi(a->a1))) p->pc++; return; }
    if (!strcmp(a->op, "saccept")) {
        Sock *l = p->fd[3]->sock; Sock *s = l->queue[0]; memmove(l->queue, l->queue + 1, sizeof(Sock *) * --l->nqueue);
        if (p->fd[4]) ofd_unref(p->fd[4]);
        OFD *o = ofd_new(K_SOCK); o->sock = s; o->refs = 1; p->fd[4] = o; p->pc++; return;
    }
    if (!strcmp(a->op, "send") || !strcmp(a->op, "sendlit")) {
        size_t total; char *data = NULL;
        if (!strcmp(a->op, "send")) total = strtoull(a->a1, 0, 10); else { data = xstrdup(a->a1); total = unpct(data); }
        size_t left = total - p->progress; bool wb = false; ssize_t w = 0;
        if (left) {
            size_t n = left; uint64_t c = n > 1 ? decide("peerchunk", n, opt("chunk_ppm", 0)) : 0; if (c) n = c;
            char *b = data ? data + p->progress : patbuf(strtoull(a->a2 ? a->a2 : "1", 0, 10), p->progress, n);
            w = p->fd[4] ? sock_send(p->fd[4]->sock, b, n, MSG_NOSIGNAL, &wb) : (ssize_t)n;
            if (!data) free(b);
        }
        free(data);
        if (w < 0 && !wb) { slog("EV peer pid=%d send error", p->pid); p->pc++; p->progress = 0; return; }
        if (w > 0) p->progress += w;
        if (p->progress >= total) { slog("EV peer pid=%d sent %zu", p->pid, total); p->pc++; p->progress = 0; }
        return;
    }
    if (!strcmp(a->op, "recv") || !strcmp(a->op, "recvall")) {
        char b[4096]; bool wb = false; size_t want = sizeof b;
        if (!strcmp(a->op, "recv")) { size_t t = strtoull(a->a1, 0, 10) - p->progress; if (t < want) want = t; }
        ssize_t r = want && p->fd[4] ? sock_recv(p->fd[4]->sock, b, want, &wb) : 0;
        if (r > 0) { char t[64]; snprintf(t, sizeof t, "PEERRECV %s", p->name); slog_bytes(t, b, r); p->progress += r; }
        if (r < 0 && wb) return;
        if (r < 0) { slog("PEERERR %s", p->name); }
        if (r == 0 && want) slog("PEEREOF %s", p->name);
        if (r <= 0 || (!strcmp(a->op, "recv") && p->progress >= strtoull(a->a1, 0, 10))) { p->pc++; p->progress = 0; }
        return;
    }
    if (!strcmp(a->op, "sclose") || !strcmp(a->op, "reset")) {
        if (p->fd[4]) {
            if (a->op[0] == 'r' && p->fd[4]->sock->peer) p->fd[4]->sock->peer->rst = true;
            OFD *o = p->fd[4]; p->fd[4] = NULL; ofd_unref(o);
        }
        p->pc++; return;
    }
    if (!strcmp(a->op, "lclose")) { if (p->fd[3]) { OFD *o = p->fd[3]; p->fd[3] = NULL; ofd_unref(o); } p->pc++; return; }
    slog("EV unknown action %s", a->op);
    p->pc++;
}

static void finish_stats(void) {
    for (Node *n = nodes; n; n = n->next) {
        char t[64];
        snprintf(t, sizeof t, "OUT %d", n->id); slog_bytes(t, n->obuf ? n->obuf : "", n->olen);
        snprintf(t, sizeof t, "ERR %d", n->id); slog_bytes(t, n->ebuf ? n->ebuf : "", n->elen);
        slog("EXIT %d state=%d code=%d sig=%d calls=%llu", n->id, n->state, n->exitcode, n->exitsig, (unsigned long long)n->calls);
    }
    for (Proc *p = procs; p; p = p->next) if (p->prog || (!p->node && p->dead)) slog("PROC pid=%d name=%s ppid=%d dead=%d reaped=%d status=%x", p->pid, p->name ? p->name : "?", p->ppid, p->dead, p->reaped, p->status);
    fs_dump("/");
    http_report();
    slog("SQLOPEN %d", sqlvfs_open_files());
    extern void gc_counts(void); gc_counts();
    dump_counts();
    slog("TIME %llu", (unsigned long long)now_ns);
    slog("STEPS %llu", (unsigned long long)steps);
}
void sim_finish(const char *how) {
    if (in_child) _exit(0);
    sim_active = false;
    finish_stats();
    slog("END %s", how);
    shm->finished = 1;
    _exit(0);
}

static void scheduler(void) {
    uint64_t sw = opt("sched_ppm", 500000), clockppm = opt("early_ppm", 0);
    (void)clockppm;
    int maxphase = 0;
    for (Node *n = nodes; n; n = n->next) if (n->phase > maxphase) maxphase = n->phase;
    Node *last = NULL;
    for (curphase = 0; curphase <= maxphase; curphase++) {
        for (Node *n = nodes; n; n = n->next) if (n->phase == curphase) {
            n->proc->phase = curphase;
            pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
            if (pthread_create(&n->th, &at, node_thread, n)) { slog("SIMERROR pthread_create"); sim_finish("simerror"); }
            n->state = 1;
        }
        slog("EV phase %d", curphase);
        for (;;) {
            Node *rn[64]; Proc *rp[256]; int nr = 0, np = 0, live = 0;
            if (machine_crashed) {
                for (Node *n = nodes; n; n = n->next) if (n->phase == curphase && n->state != 3) { n->state = 3; n->crashed = true; n->exitsig = SIGKILL; proc_die(n->proc, SIGKILL); }
                for (Proc *p = procs; p; p = p->next) if (p->prog && !p->dead) proc_die(p, SIGKILL);
                break;
            }
            if (last && last->phase == curphase && last->state == 1) rn[nr++] = last;
            for (Node *n = nodes; n; n = n->next) {
                if (n->phase != curphase || n->state == 3) continue;
                live++;
                if (n == last && n->state == 1) continue;
                if (n->state == 1 || n->proc->killsig || (n->state == 2 && (n->cond(n->condarg) || n->deadline <= now_ns))) rn[nr++] = n;
            }
            for (Proc *p = procs; p && np < 256; p = p->next) if (p->prog && prog_ready(p)) rp[np++] = p;
            if (++steps > step_cap) { slog("STEPCAP sched"); sim_finish("stepcap"); }
            if (nr + np == 0) {
                uint64_t t = NEVER;
                for (Node *n = nodes; n; n = n->next) if (n->phase == curphase && n->state == 2 && n->deadline < t) t = n->deadline;
                for (Proc *p = procs; p; p = p->next) if (p->prog && !p->dead && p->phase <= curphase && p->wake > now_ns && p->wake < t) t = p->wake;
                if (t != NEVER && t > now_ns) { now_ns = t; continue; }
                if (!live) break;
                for (Node *n = nodes; n; n = n->next) if (n->phase == curphase && n->state == 2) slog("DEADLOCK node=%d waiting=%s", n->id, n->waiting);
                sim_finish("deadlock");
            }
            int tot = nr + np;
            uint64_t c = tot > 1 ? decide("sched", tot, sw) : 0;
            if (tot > 1) count("schedpoints", 1);
            if ((int)c < nr) {
                Node *n = rn[c];
                if (last && last != n) count("switches", 1);
                last = n;
                if (n->state == 2) n->timedout = !n->cond(n->condarg) && n->deadline <= now_ns && !n->proc->killsig;
                n->state = 1;
                sem_post(&n->sem);
                while (sem_wait(&sched_sem)) ;
                curnode = NULL; cur = NULL;
            } else {
                cur = rp[c - nr];
                prog_step(rp[c - nr]);
                cur = NULL;
            }
        }
        if (machine_crashed) { fs_powerloss(); machine_crashed = false; }
        sqlvfs_crash_reset();
        slog("EV phase %d over", curphase);
    }
    /* let orphaned programs finish (bounded) */
    for (int i = 0; i < 2000; i++) {
        Proc *r = NULL;
        for (Proc *p = procs; p && !r; p = p->next) if (p->prog && prog_ready(p)) r = p;
        if (!r) {
            uint64_t t = NEVER;
            for (Proc *p = procs; p; p = p->next) if (p->prog && !p->dead && p->wake > now_ns && p->wake < t) t = p->wake;
            if (t == NEVER) break;
            now_ns = t; continue;
        }
        cur = r; prog_step(r); cur = NULL;
    }
    sim_finish("ok");
}

/* ------------------------------------------------------------------ scenario */
static Node *node_by(int id) { for (Node *n = nodes; n; n = n->next) if (n->id == id) return n; return NULL; }
static Node *lastnode;
static Prog *prog_by(const char *s) { for (Prog *p = progs; p; p = p->next) if (!strcmp(p->name, s)) return p; return NULL; }
Prog *prog_find(const char *file) {
    Prog *p = prog_by(file);
    if (p) return p;
    const char *b = strrchr(file, '/');
    if (b && (!strncmp(file, "/bin/", 5) || !strncmp(file, "/usr/bin/", 9))) return prog_by(b + 1);
    return NULL;
}
static void parse_actions(Prog *p, char *rest) {
    char *sv, *t;
    for (t = strtok_r(rest, " ", &sv); t; t = strtok_r(NULL, " ", &sv)) {
        p->act = realloc(p->act, sizeof(Action) * (p->nact + 1));
        Action *a = &p->act[p->nact++]; memset(a, 0, sizeof *a);
        a->op = xstrdup(t);
        char *c = strchr(a->op, ':');
        if (c) { *c = 0; a->a1 = c + 1; c = strchr(a->a1, ':'); if (c) { *c = 0; a->a2 = c + 1; } }
        else a->a1 = xstrdup("0");
    }
}
static void parse(char *s) {
    char *line, *sv;
    for (line = strtok_r(s, "\n", &sv); line; line = strtok_r(NULL, "\n", &sv)) {
        char *rest = strchr(line, ' ');
        if (rest) *rest++ = 0; else rest = line + strlen(line);
        char *t[8]; int nt = 0;
        if (!strcmp(line, "prog") || !strcmp(line, "proc")) {
            char *sp = strchr(rest, ' '); char *acts = sp ? sp + 1 : rest + strlen(rest); if (sp) *sp = 0;
            Prog *p = calloc(1, sizeof *p); p->name = xstrdup(rest);
            if (!strcmp(line, "proc")) {
                char *ph = acts; char *sp2 = strchr(ph, ' '); if (sp2) { *sp2 = 0; acts = sp2 + 1; } else acts = ph + strlen(ph);
                Proc *q = proc_new(1); q->prog = p; q->name = p->name; q->phase = atoi(ph);
                parse_actions(p, acts);
            } else { parse_actions(p, acts); p->next = progs; progs = p; }
            continue;
        }
        if (!strcmp(line, "http")) { http_add(rest); continue; }
        char *sv2;
        for (char *x = strtok_r(rest, " ", &sv2); x && nt < 8; x = strtok_r(NULL, " ", &sv2)) t[nt++] = x;
        if (!strcmp(line, "seed")) seed = strtoull(t[0], 0, 10);
        else if (!strcmp(line, "mode")) explicit_mode = !strcmp(t[0], "explicit");
        else if (!strcmp(line, "opt")) {
            Opt *o = calloc(1, sizeof *o); o->name = xstrdup(t[0]); o->v = strtoull(t[1], 0, 10); o->next = opts; opts = o;
            if (!strcmp(t[0], "step_cap")) step_cap = o->v;
            if (!strcmp(t[0], "wall_off_s")) wall_off_ns = (int64_t)strtoll(t[1], 0, 10) * 1000000000ll;
        }
        else if (!strcmp(line, "fault")) {
            Fault *f = calloc(1, sizeof *f); f->call = xstrdup(t[0]); f->eff = xstrdup(t[1]); f->err = errbyname(t[1]);
            if (!f->err && strcmp(t[1], "short")) { slog("SIMERROR unknown fault %s", t[1]); sim_finish("simerror"); }
            f->ppm = strtoull(t[2], 0, 10); f->max = nt > 3 ? strtoull(t[3], 0, 10) : 1000000; f->nth = nt > 4 ? strtoull(t[4], 0, 10) : 0;
            snprintf(f->key, sizeof f->key, "%s/%s", t[0], t[1]);
            Fault **pp = &faults; while (*pp) pp = &(*pp)->next; *pp = f;
        }
        else if (!strcmp(line, "maxfaults")) maxfaults = strtoull(t[0], 0, 10);
        else if (!strcmp(line, "d")) {
            uint64_t h = hash64(t[0], strlen(t[0]), 0xcbf29ce484222325ull), nth = strtoull(t[1], 0, 10);
            DX *x = calloc(1, sizeof *x); x->name = xstrdup(t[0]); x->nth = nth; x->val = strtoull(t[2], 0, 10);
            int b = (h ^ nth * 31) & 4095; x->next = dxtab[b]; dxtab[b] = x; ndx++;
        }
        else if (!strcmp(line, "dir")) { unpct(t[0]); fs_put_dir(t[0], nt > 1 ? strtoul(t[1], 0, 8) : 0755); }
        else if (!strcmp(line, "file")) { unpct(t[0]); size_t n = nt > 2 ? unpct(t[2]) : 0; fs_put_file(t[0], nt > 2 ? t[2] : "", n, strtoul(t[1], 0, 8)); }
        else if (!strcmp(line, "filepat")) { unpct(t[0]); size_t n = strtoull(t[2], 0, 10); char *b = patbuf(strtoull(t[3], 0, 10), 0, n); fs_put_file(t[0], b, n, strtoul(t[1], 0, 8)); free(b); }
        else if (!strcmp(line, "symlink")) {
            unpct(t[0]); unpct(t[1]); Inode *i = fs_put_file(t[0], t[1], strlen(t[1]), 0777); if (i) i->type = I_LNK;
        }
        else if (!strcmp(line, "realdir")) fs_load_real(t[0], t[1]);
        else if (!strcmp(line, "node")) {
            Node *n = calloc(1, sizeof *n); n->id = atoi(t[0]); n->out_buf = 8192; n->cwdpath = xstrdup("/");
            for (int i = 1; i < nt; i++) {
                if (!strncmp(t[i], "phase=", 6)) n->phase = atoi(t[i] + 6);
                else if (!strcmp(t[i], "kind=embed")) n->embed = true;
                else if (!strncmp(t[i], "cwd=", 4)) { unpct(t[i] + 4); n->cwdpath = xstrdup(t[i] + 4); }
                else if (!strcmp(t[i], "outtty=1")) n->out_tty = true;
                else if (!strcmp(t[i], "intty=1")) n->in_tty = true;
                else if (!strcmp(t[i], "inopen=1")) n->in_open = true;
                else if (!strcmp(t[i], "repl=1")) n->repl = true;
                else if (!strncmp(t[i], "outbuf=", 7)) n->out_buf = atoi(t[i] + 7);
            }
            n->argv = calloc(1, sizeof(char *)); 
            if (lastnode) lastnode->next = n; else nodes = n;
            lastnode = n; nnodes++;
        }
        else if (!strcmp(line, "arg")) {
            Node *n = node_by(atoi(t[0])); char *x = xstrdup(nt > 1 ? t[1] : ""); unpct(x);
            n->argv = realloc(n->argv, sizeof(char *) * (n->argc + 2)); n->argv[n->argc++] = x; n->argv[n->argc] = NULL;
        }
        else if (!strcmp(line, "stdin")) {
            Node *n = node_by(atoi(t[0])); n->in = realloc(n->in, sizeof(Chunk) * (n->nin + 1));
            char *x = xstrdup(nt > 2 ? t[2] : ""); size_t l = unpct(x);
            n->in[n->nin++] = (Chunk){x, l, strtoull(t[1], 0, 10)};
        }
        else if (!strcmp(line, "item")) {
            Node *n = node_by(atoi(t[0])); char *m = xstrdup(t[1]), *x = xstrdup(nt > 2 ? t[2] : ""); unpct(m); unpct(x);
            n->items = realloc(n->items, sizeof(Item) * (n->nitems + 1)); n->items[n->nitems++] = (Item){m, x};
        }
        else if (!strcmp(line, "env")) {
            char *v = xstrdup(nt > 1 ? t[1] : ""); unpct(v); unpct(t[0]); setenv(t[0], v, 1); free(v);
        }
        else if (!strcmp(line, "env0")) { clearenv(); setenv("HOME", "/root", 1); setenv("PATH", "/usr/bin:/bin", 1); setenv("TZ", "UTC0", 1); }
        else if (line[0] && line[0] != '#') { slog("SIMERROR bad line %s", line); sim_finish("simerror"); }
    }
}
static void run(char *scn) {
    sim_active = false;
    fs_init();
    parse(scn);
    tzset();
    sem_init(&sched_sem, 0, 0);
    extern char **environ;
    for (Node *n = nodes; n; n = n->next) {
        sem_init(&n->sem, 0, 0);
        Proc *p = proc_new(1); n->proc = p; p->node = n; p->name = xstrdup("dictu"); p->phase = n->phase;
        int err; p->cwd = fs_resolve(n->cwdpath, true, NULL, NULL, &err);
        if (!p->cwd) { p->cwd = fs_resolve("/", true, NULL, NULL, &err); }
        OKind k[3] = {K_IN, K_OUT, K_ERR};
        for (int i = 0; i < 3; i++) { OFD *o = ofd_new(k[i]); o->owner = p; o->refs = 1; p->fd[i] = o; }
        int ne = 0; while (environ[ne]) ne++;
        n->environ_ = calloc(ne + 1, sizeof(char *));
        for (int i = 0; i < ne; i++) n->environ_[i] = xstrdup(environ[i]);
        n->randstate = mix(seed ^ n->id);
        node_streams(n);
    }
    sim_active = true;
    scheduler();
}

/* ------------------------------------------------------------------ server */
static size_t rd_all(int fd, char *b, size_t n) { size_t o = 0; while (o < n) { ssize_t r = read(fd, b + o, n - o); if (r <= 0) break; o += r; } return o; }
static void wr_all(int fd, const char *b, size_t n) { while (n) { ssize_t r = write(fd, b, n); if (r <= 0) exit(3); b += r; n -= r; } }

int main(int argc, char **argv) {
    size_t cap = 48u << 20, dcap = 16u << 20;
    shm = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char *lg = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char *dc = mmap(NULL, dcap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char errp[64]; snprintf(errp, sizeof errp, "/tmp/simerr.XXXXXX");
    int efd = mkstemp(errp); unlink(errp);
    int devnull = open("/dev/null", O_RDWR);
    (void)argc; (void)argv;
    sqlvfs_init();
    for (;;) {
        char hdr[64]; size_t h = 0; char c;
        for (;;) { ssize_t r = read(0, &c, 1); if (r <= 0) return 0; if (c == '\n') break; if (h < 60) hdr[h++] = c; }
        hdr[h] = 0;
        size_t n; unsigned wall;
        if (sscanf(hdr, "RUN %zu %u", &n, &wall) != 2) return 2;
        char *scn = malloc(n + 1);
        if (rd_all(0, scn, n) != n) return 2;
        scn[n] = 0;
        shm->loglen = shm->declen = shm->ndec = 0; shm->finished = 0; shm->schedhash = 0; shm->logcap = cap; shm->deccap = dcap; shm->log = lg; shm->dec = dc;
        if (ftruncate(efd, 0)) return 2;
        lseek(efd, 0, SEEK_SET);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            dup2(efd, 2); dup2(devnull, 0); dup2(devnull, 1);
            run(scn);
            _exit(98);
        }
        int st = 0; bool timeout = false;
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        useconds_t nap = 50;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 > wall) { timeout = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            usleep(nap); if (nap < 300) nap += nap / 4;
        }
        kill(-pid, SIGKILL);
        size_t el = lseek(efd, 0, SEEK_END); if (el > 20000) el = 20000;
        char *eb = malloc(el + 1); ssize_t er = pread(efd, eb, el, 0); if (er < 0) er = 0;
        char out[256];
        int ol = snprintf(out, sizeof out, "DONE %d %d %d %zu %zu %zd %llu\n", st, timeout, shm->finished, shm->loglen, shm->declen, er, (unsigned long long)shm->schedhash);
        wr_all(1, out, ol); wr_all(1, shm->log, shm->loglen); wr_all(1, shm->dec, shm->declen); wr_all(1, eb, er);
        free(eb); free(scn);
        madvise(lg, cap, MADV_DONTNEED);
    }
}
void append_child(const void *p, size_t n) {
    if (shm->child_len + n < sizeof shm->child_buf) { memcpy(shm->child_buf + shm->child_len, p, n); shm->child_len += n; }
}
int fork_counter_next(void) { return ++child_counter; }
