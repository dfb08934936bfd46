#include "sim.h"
#include <spawn.h>
/* Processes: fork() really forks (the copy of the address space is what a child has), the child runs to its exec or exit
 * at once and its effects on kernel objects are replayed by the parent; commands are scripted programs. */
extern char **environ;
extern Prog *prog_find(const char *file);
extern int fork_counter_next(void);

static void ap(const void *p, size_t n) { append_child(p, n); }
static void ap_str(const char *s) { size_t n = strlen(s); ap(&n, sizeof n); ap(s, n); }
static void push_fds(bool exec) {
    ap("F", 1);
    for (int i = 0; i < MAXFD; i++) { OFD *o = cur->fd[i]; if (o && (o->childborn || (exec && cur->cloexec[i]))) o = NULL; ap(&o, sizeof o); }
    ap("D", 1); ap(&cur->cwd, sizeof cur->cwd);
}
static pid_t do_fork(void) {
    sim_call("fork");
    int e = fault("fork", NULL);
    if (e) { errno = e; return -1; }
    int k = fork_counter_next();
    shm->child_state = 0; shm->child_code = 0; shm->child_len = 0;
    int __real_fork(void);
    pid_t pid = __real_fork();
    if (pid == 0) { in_child = true; return 0; }
    int st = 0;
    if (pid < 0) { slog("SIMERROR real fork failed"); sim_finish("simerror"); }
    while (waitpid(pid, &st, 0) < 0) ;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        slog("EV child %d abnormal real status %x", k, st);
        violation("child-crash", "forked child ended abnormally");
        _exit(WIFEXITED(st) && WEXITSTATUS(st) == 99 ? 99 : 97);
    }
    Proc *c = proc_new(cur->pid);
    c->phase = cur->phase; c->sigpipe_ign = cur->sigpipe_ign; c->cwd = cur->cwd; c->name = xstrdup("?");
    for (int i = 0; i < MAXFD; i++) if (cur->fd[i]) { c->fd[i] = cur->fd[i]; c->fd[i]->refs++; c->cloexec[i] = cur->cloexec[i]; }
    apply_child(c);
    if (shm->child_state == 2) { slog("EV child pid=%d exits %x without exec", c->pid, shm->child_code); proc_die(c, shm->child_code); }
    else if (shm->child_state == 0) { slog("EV child pid=%d vanished", c->pid); proc_die(c, SIGABRT); }
    return c->pid;
}
pid_t __wrap_fork(void) { return do_fork(); }
pid_t __wrap_vfork(void) { return do_fork(); }

void apply_child(Proc *c) {
    char *p = shm->child_buf, *e = p + shm->child_len;
    while (p < e) {
        char t = *p++;
        if (t == 'W') {
            OFD *o; size_t n; memcpy(&o, p, sizeof o); p += sizeof o; memcpy(&n, p, sizeof n); p += sizeof n;
            char *b = malloc(n + 1); memcpy(b, p, n); p += n;
            slog("EV child pid=%d wrote %zu bytes to ofd kind %d", c->pid, n, o->kind);
            ofd_write(c, o, b, n, false); free(b);
        } else if (t == 'F') {
            OFD *nf[MAXFD]; memcpy(nf, p, sizeof nf); p += sizeof nf;
            for (int i = 0; i < MAXFD; i++) if (nf[i]) nf[i]->refs++;
            for (int i = 0; i < MAXFD; i++) { if (c->fd[i]) { OFD *o = c->fd[i]; c->fd[i] = NULL; ofd_unref(o); } c->fd[i] = nf[i]; }
        } else if (t == 'D') { memcpy(&c->cwd, p, sizeof c->cwd); p += sizeof c->cwd; }
        else if (t == 'X') { /* exec */
            size_t n; char name[512]; memcpy(&n, p, sizeof n); p += sizeof n; memcpy(name, p, n); name[n] = 0; p += n;
            int ac; memcpy(&ac, p, sizeof ac); p += sizeof ac;
            c->argv = calloc(ac + 1, sizeof(char *));
            for (int i = 0; i < ac; i++) { memcpy(&n, p, sizeof n); p += sizeof n; c->argv[i] = malloc(n + 1); memcpy(c->argv[i], p, n); c->argv[i][n] = 0; p += n; }
            int ec; memcpy(&ec, p, sizeof ec); p += sizeof ec;
            c->envp = calloc(ec + 1, sizeof(char *));
            for (int i = 0; i < ec; i++) { memcpy(&n, p, sizeof n); p += sizeof n; c->envp[i] = malloc(n + 1); memcpy(c->envp[i], p, n); c->envp[i][n] = 0; p += n; }
            free(c->name); c->name = xstrdup(name); c->prog = prog_find(name);
            size_t tl = 0; for (int i = 0; i < ac; i++) tl += strlen(c->argv[i]) + 1;
            char *j = malloc(tl + 1); size_t o = 0; for (int i = 0; i < ac; i++) { size_t l = strlen(c->argv[i]); memcpy(j + o, c->argv[i], l); o += l; j[o++] = '\n'; }
            char tag[128]; snprintf(tag, sizeof tag, "EXEC %d %.80s", c->pid, name); slog_bytes(tag, j, o); free(j);
        }
    }
}
static int do_exec(const char *file, char *const argv[], char *const envp[], bool path) {
    sim_call("exec");
    int e = fault("exec", NULL);
    if (e) { errno = e; return -1; }
    if (!file || !*file) { errno = ENOENT; return -1; }
    Prog *g = (path || strchr(file, '/')) ? prog_find(file) : NULL;
    if (!g) {
        errno = ENOENT;
        if (strchr(file, '/')) { int err; Inode *i = fs_resolve(file, true, NULL, NULL, &err); if (i) err = EACCES; errno = err; }
        return -1;
    }
    if (!in_child) { slog("EV exec outside a child"); violation("exec-in-parent", "the interpreter replaced itself"); sim_finish("exec"); }
    int ac = 0; while (argv[ac]) ac++;
    int ec = 0; while (envp && envp[ec]) ec++;
    push_fds(true);
    ap("X", 1); ap_str(file); ap(&ac, sizeof ac); for (int i = 0; i < ac; i++) ap_str(argv[i]);
    ap(&ec, sizeof ec); for (int i = 0; i < ec; i++) ap_str(envp[i]);
    shm->child_state = 1;
    _exit(0);
}
int __wrap_execvp(const char *f, char *const a[]) { return do_exec(f, a, environ, true); }
int __wrap_execv(const char *f, char *const a[]) { return do_exec(f, a, environ, false); }
int __wrap_execve(const char *f, char *const a[], char *const e[]) { return do_exec(f, a, e, false); }
int __wrap_execvpe(const char *f, char *const a[], char *const e[]) { return do_exec(f, a, e, true); }

/* ---- waiting */
typedef struct WaitArg { pid_t self, pid; } WaitArg;
static Proc *wait_match(WaitArg *w, bool *any) {
    *any = false;
    for (Proc *p = procs; p; p = p->next) {
        if (p->ppid != w->self || p->reaped) continue;
        if (w->pid > 0 && p->pid != w->pid) continue;
        *any = true;
        if (p->dead) return p;
    }
    return NULL;
}
static bool wait_ready(void *a) { bool any; return wait_match(a, &any) != NULL || !any; }
pid_t __wrap_waitpid(pid_t pid, int *st, int opts) {
    sim_call("waitpid");
    int e = fault("waitpid", NULL);
    if (e) { errno = e; return -1; }
    WaitArg w = {cur->pid, pid}; bool any;
    Proc *p = wait_match(&w, &any);
    if (!p && !any) { errno = ECHILD; return -1; }
    if (!p && (opts & WNOHANG)) return 0;
    while (!(p = wait_match(&w, &any))) { if (!any) { errno = ECHILD; return -1; } block_until(wait_ready, &w, NEVER, "waitpid"); }
    p->reaped = true;
    if (st) *st = p->status;
    slog("EV reaped pid=%d status=%x", p->pid, p->status);
    return p->pid;
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
pid_t __wrap_wait4(pid_t p, int *st, int o, void *ru) { if (ru) memset(ru, 0, 144); return __wrap_waitpid(p, st, o); }

int __wrap_kill(pid_t pid, int sig) {
    sim_call("kill");
    slog("KILL %d %d", pid, sig);
    int e = fault("kill", NULL); if (e) { errno = e; return -1; }
    if (sig < 0 || sig > 64) { errno = EINVAL; return -1; }
    if (pid <= 0) { slog("EV kill of group %d", pid); violation("kill-group", "kill(%d, %d) signals a process group", pid, sig); errno = EPERM; return -1; }
    for (Proc *p = procs; p; p = p->next) if (p->pid == pid && !p->reaped) {
        if (p->dead || sig == 0) return 0;
        if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH || sig == SIGSTOP || sig == SIGTSTP) return 0;
        if (sig == SIGPIPE && p->sigpipe_ign) return 0;
        p->killsig = sig;
        if (p == cur) node_exit(0, sig);
        return 0;
    }
    errno = ESRCH; return -1;
}
pid_t __wrap_getpid(void) { return cur ? cur->pid : 1; }
pid_t __wrap_getppid(void) { return cur ? cur->ppid : 1; }
pid_t __wrap_getpgrp(void) { return 1; }
pid_t __wrap_setsid(void) { return cur->pid; }
int __wrap_raise(int s) { return __wrap_kill(cur->pid, s); }

void __wrap_exit(int code) {
    if (in_child) {
        node_flush_all(curnode, false);   /* exit() flushes the inherited buffers, as in a real child */
        push_fds(false);
        shm->child_state = 2; shm->child_code = (code & 255) << 8;
        _exit(0);
    }
    if (!curnode) _exit(96);
    sim_call("exit");
    node_exit(code, 0);
}
void __wrap__exit(int code) {
    if (in_child) { push_fds(false); shm->child_state = 2; shm->child_code = (code & 255) << 8; _exit(0); }
    if (!curnode) _exit(96);
    curnode->haltleak = true;
    node_exit(code, 0);
}
void __wrap__Exit(int code) { __wrap__exit(code); }
typedef void (*handler)(int);
handler __wrap_signal(int s, handler h) {
    if (s == SIGPIPE && cur) { handler o = cur->sigpipe_ign ? SIG_IGN : SIG_DFL; cur->sigpipe_ign = h != SIG_DFL; return o; }
    return SIG_DFL;
}
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = s == SIGPIPE && cur && cur->sigpipe_ign ? SIG_IGN : SIG_DFL; }
    if (a && s == SIGPIPE && cur) cur->sigpipe_ign = a->sa_handler != SIG_DFL;
    return 0;
}
int __wrap_sigprocmask(int h, const sigset_t *s, sigset_t *o) { (void)h; (void)s; if (o) sigemptyset(o); return 0; }
int __wrap_pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { return __wrap_sigprocmask(h, s, o); }
