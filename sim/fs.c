#include "sim.h"
#include <dirent.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <poll.h>
#include <limits.h>
#include <sys/sendfile.h>

ssize_t net_send(int fd, const void *b, size_t n, int flags);
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags);
static int do_unlink(const char *p, int mode);
static Inode *root; static int nextino = 1, nextofd = 1;

static Inode *ino_new(IType t, unsigned mode) {
    Inode *i = calloc(1, sizeof *i);
    i->id = nextino++; i->type = t; i->mode = mode; i->pendtail = &i->pend; i->nlink = 1; i->mtime = now_ns;
    return i;
}
static void ent_add(Inode *d, const char *name, Inode *c) {
    if (d->nent == d->capent) { d->capent = d->capent ? d->capent * 2 : 4; d->ent = realloc(d->ent, sizeof(SimDirent) * d->capent); }
    d->ent[d->nent].name = xstrdup(name); d->ent[d->nent++].ino = c;
    if (c->type == I_DIR) c->parent = d;
}
static int ent_find(Inode *d, const char *name) { for (int i = 0; i < d->nent; i++) if (!strcmp(d->ent[i].name, name)) return i; return -1; }
static void ent_del(Inode *d, int i) { free(d->ent[i].name); memmove(d->ent + i, d->ent + i + 1, sizeof(SimDirent) * (d->nent - i - 1)); d->nent--; }

void fs_init(void) {
    root = ino_new(I_DIR, 0755); root->parent = root;
    fs_put_dir("/tmp", 0777); fs_put_dir("/root", 0755); fs_put_dir("/dev", 0755);
    Inode *n = fs_put_file("/dev/null", "", 0, 0666); n->type = I_NULL;
}
/* resolve; parent and last component are returned for creation. Errors: ENOENT ENOTDIR ELOOP ENAMETOOLONG */
static Inode *walk(Inode *start, const char *path, bool follow, Inode **parent, char *last, int *err, int depth) {
    if (parent) *parent = NULL;
    if (depth > 40) { *err = ELOOP; return NULL; }
    if (!*path) { *err = ENOENT; return NULL; }
    if (strlen(path) >= PATH_MAX) { *err = ENAMETOOLONG; return NULL; }
    Inode *d = path[0] == '/' ? root : start;
    const char *p = path;
    Inode *c = d;
    if (last) { strcpy(last, "."); }
    if (parent) *parent = d;
    for (;;) {
        while (*p == '/') p++;
        if (!*p) {
            /* path was "/" or ended with slash */
            return c;
        }
        const char *e = p; while (*e && *e != '/') e++;
        size_t l = e - p;
        if (l > 255) { *err = ENAMETOOLONG; return NULL; }
        char nm[256]; memcpy(nm, p, l); nm[l] = 0;
        const char *rest = e; while (*rest == '/') rest++;
        bool final = !*rest; bool trailing = *e == '/';
        if (c->type != I_DIR) { *err = ENOTDIR; return NULL; }
        d = c;
        Inode *nx;
        if (!strcmp(nm, ".")) nx = d;
        else if (!strcmp(nm, "..")) nx = d->parent ? d->parent : root;
        else { int i = ent_find(d, nm); nx = i < 0 ? NULL : d->ent[i].ino; }
        if (final) { if (parent) *parent = d; if (last) strcpy(last, nm); }
        if (!nx) {
            *err = ENOENT;
            if (!final && parent) *parent = NULL;
            if (final && trailing && last) { strcat(last, "/"); }
            return NULL;
        }
        if (nx->type == I_LNK && (!final || follow || trailing)) {
            char tgt[PATH_MAX]; size_t n = nx->size < PATH_MAX - 1 ? nx->size : PATH_MAX - 1; memcpy(tgt, nx->data, n); tgt[n] = 0;
            nx = walk(d, tgt, true, final ? parent : NULL, final ? last : NULL, err, depth + 1);
            if (!nx) { if (!final && parent) *parent = NULL; return NULL; }
        }
        c = nx;
        if (final) {
            if (trailing && c->type != I_DIR) { *err = ENOTDIR; return NULL; }
            return c;
        }
        p = rest;
    }
}
Inode *fs_resolve(const char *path, bool follow, Inode **parent, char *last, int *err) {
    Inode *start = cur && cur->cwd ? cur->cwd : root;
    if (start->nlink == 0 && path[0] != '/') { *err = ENOENT; if (parent) *parent = NULL; return NULL; }
    return walk(start, path, follow, parent, last, err, 0);
}
char *fs_path(Inode *i, char *buf, size_t n) {
    if (i == root) { snprintf(buf, n, "/"); return buf; }
    char tmp[PATH_MAX * 2]; size_t o = sizeof tmp - 1; tmp[o] = 0;
    while (i != root) {
        Inode *p = i->parent; if (!p) return NULL;
        int k; for (k = 0; k < p->nent; k++) if (p->ent[k].ino == i) break;
        if (k == p->nent) return NULL;
        size_t l = strlen(p->ent[k].name);
        if (l + 1 > o) return NULL;
        o -= l; memcpy(tmp + o, p->ent[k].name, l); tmp[--o] = '/';
        i = p;
    }
    if (strlen(tmp + o) + 1 > n) return NULL;
    strcpy(buf, tmp + o);
    return buf;
}
Inode *fs_put_dir(const char *path, unsigned mode) {
    char b[PATH_MAX]; snprintf(b, sizeof b, "%s", path);
    Inode *d = root; char *sv;
    for (char *t = strtok_r(b, "/", &sv); t; t = strtok_r(NULL, "/", &sv)) {
        int i = ent_find(d, t);
        if (i < 0) { Inode *n = ino_new(I_DIR, mode); ent_add(d, t, n); d = n; } else d = d->ent[i].ino;
    }
    return d;
}
Inode *fs_put_file(const char *path, const void *data, size_t len, unsigned mode) {
    char b[PATH_MAX]; snprintf(b, sizeof b, "%s", path);
    char *s = strrchr(b, '/'); *s = 0;
    Inode *d = fs_put_dir(b, 0755);
    int i = ent_find(d, s + 1); Inode *f;
    if (i >= 0) f = d->ent[i].ino; else { f = ino_new(I_REG, mode); ent_add(d, s + 1, f); }
    inode_truncate(f, 0); inode_write(f, 0, data, len);
    return f;
}
void fs_load_real(const char *real, const char *simp) {
    struct stat st;
    if (lstat(real, &st)) return;
    if (S_ISDIR(st.st_mode)) {
        fs_put_dir(simp, 0755);
        struct dirent **l; int n = scandir(real, &l, NULL, alphasort);
        for (int i = 0; i < n; i++) {
            if (!strcmp(l[i]->d_name, ".") || !strcmp(l[i]->d_name, "..")) continue;
            char a[PATH_MAX], b[PATH_MAX]; snprintf(a, sizeof a, "%s/%s", real, l[i]->d_name); snprintf(b, sizeof b, "%s/%s", simp, l[i]->d_name);
            fs_load_real(a, b);
        }
    } else if (S_ISREG(st.st_mode) && st.st_size < (4 << 20)) {
        int fd = open(real, O_RDONLY); char *b = malloc(st.st_size + 1); ssize_t r = read(fd, b, st.st_size); close(fd);
        if (r >= 0) fs_put_file(simp, b, r, st.st_mode & 07777);
        free(b);
    }
}
static void dump(Inode *i, const char *path) {
    if (i->type == I_DIR) {
        char *pe0 = pct(path, strlen(path)); slog("TREE dir %o %d %d %s", i->mode, i->uid, i->gid, pe0); free(pe0);
        for (int k = 0; k < i->nent; k++) { char b[PATH_MAX * 2]; snprintf(b, sizeof b, "%s/%s", strcmp(path, "/") ? path : "", i->ent[k].name); dump(i->ent[k].ino, b); }
    } else {
        char *pe = pct(path, strlen(path));
        size_t pl = strlen(pe);
        size_t lim = opt("dumplimit", 300000);
        char *t = malloc(pl + 64); snprintf(t, pl + 64, "TREE %s %o %d %d %s", i->type == I_LNK ? "lnk" : "file", i->mode, i->uid, i->gid, pe);
        slog_bytes(t, i->data, i->size < lim ? i->size : lim);
        free(t); free(pe);
    }
}
void fs_dump(const char *prefix) { (void)prefix; if (opt("dump", 0)) { for (int k = 0; k < root->nent; k++) { if (opt("dumptests", 0) == 0 && (!strcmp(root->ent[k].name, "tests") || !strcmp(root->ent[k].name, "dev"))) continue; char b[512]; snprintf(b, sizeof b, "/%s", root->ent[k].name); dump(root->ent[k].ino, b); } } }

/* ---- content with durability tracking */
static void raw_write(char **d, size_t *size, size_t *cap, uint64_t off, const void *p, size_t n) {
    if (off + n > *size) {
        if (off + n > *cap) { *cap = (off + n) * 2; *d = realloc(*d, *cap); }
        memset(*d + *size, 0, off + n - *size);
        *size = off + n;
    }
    if (n) memcpy(*d + off, p, n);
}
void inode_write(Inode *i, uint64_t off, const void *p, size_t n) {
    if (i->type == I_NULL) return;
    if (n == 0) return;
    raw_write(&i->data, &i->size, &i->cap, off, p, n);
    i->mtime = now_ns;
    if (i->tracked) { PendOp *o = calloc(1, sizeof *o); o->off = off; o->len = n; o->data = malloc(n); memcpy(o->data, p, n); *i->pendtail = o; i->pendtail = &o->next; }
}
void inode_truncate(Inode *i, uint64_t n) {
    if (i->type == I_NULL) return;
    if (n < i->size) i->size = n;
    else if (n > i->size) { char z = 0; raw_write(&i->data, &i->size, &i->cap, n - 1, &z, 1); }
    i->mtime = now_ns;
    if (i->tracked) { PendOp *o = calloc(1, sizeof *o); o->off = n; o->trunc = true; *i->pendtail = o; i->pendtail = &o->next; }
}
static void free_pend(Inode *i) { for (PendOp *o = i->pend; o;) { PendOp *x = o->next; free(o->data); free(o); o = x; } i->pend = NULL; i->pendtail = &i->pend; }
void inode_sync(Inode *i) {
    free_pend(i);
    if (i->tracked) { free(i->durable); i->durable = malloc(i->size + 1); memcpy(i->durable, i->data, i->size); i->dsize = i->size; }
}
static void powerloss(Inode *d) {
    for (int k = 0; k < d->nent; k++) {
        Inode *i = d->ent[k].ino;
        if (i->type == I_DIR) { powerloss(i); continue; }
        if (!i->tracked) continue;
        char *b = malloc(i->dsize + 1); size_t sz = i->dsize, cap = i->dsize + 1; if (i->dsize) memcpy(b, i->durable, i->dsize);
        for (PendOp *o = i->pend; o; o = o->next) {
            uint64_t lost = decide("pendlost", 4, opt("lost_ppm", 500000));
            if (o->trunc) { if (lost == 0 || lost == 3) { if (o->off < sz) sz = o->off; else if (o->off > sz) { char z = 0; raw_write(&b, &sz, &cap, o->off - 1, &z, 1); } } else count("fault:lostwrite", 1); continue; }
            if (lost == 0) raw_write(&b, &sz, &cap, o->off, o->data, o->len);
            else if (lost == 1) { count("fault:lostwrite", 1); }
            else { /* torn at sector granularity */
                count("fault:tornwrite", 1);
                for (size_t q = 0; q < o->len; q += 512) if (decide("sector", 2, 500000)) { size_t l = o->len - q < 512 ? o->len - q : 512; raw_write(&b, &sz, &cap, o->off + q, o->data + q, l); }
            }
        }
        free_pend(i);
        free(i->data); i->data = b; i->size = sz; i->cap = cap;
        inode_sync(i);
    }
}
void fs_powerloss(void) { powerloss(root); slog("EV powerloss"); }

/* ------------------------------------------------------------------ descriptors */
OFD *ofd_new(OKind k) { OFD *o = calloc(1, sizeof *o); o->kind = k; o->id = nextofd++; o->childborn = in_child; return o; }
int fd_alloc(Proc *p, OFD *o) { for (int i = 0; i < MAXFD; i++) if (!p->fd[i]) { p->fd[i] = o; p->cloexec[i] = false; o->refs++; return i; } errno = EMFILE; return -1; }
void ofd_unref(OFD *o) {
    if (--o->refs > 0) return;
    if (o->kind == K_PIPER) o->pipe->readers--;
    if (o->kind == K_PIPEW) o->pipe->writers--;
    if (o->kind == K_SOCK) sock_close(o->sock);
    if (o->kind == K_FILE || o->kind == K_DIR) o->ino->nopen--;
}
OFD *fdget(int fd) { if (fd < 0 || fd >= MAXFD || !cur || !cur->fd[fd]) { errno = EBADF; return NULL; } return cur->fd[fd]; }
int sim_close_fd(Proc *p, int fd) {
    if (fd < 0 || fd >= MAXFD || !p->fd[fd]) { errno = EBADF; return -1; }
    OFD *o = p->fd[fd]; p->fd[fd] = NULL; ofd_unref(o); return 0;
}
void node_output(Node *n, int which, const void *buf, size_t len) {
    char **b = which == 1 ? &n->obuf : &n->ebuf; size_t *l = which == 1 ? &n->olen : &n->elen, *c = which == 1 ? &n->ocap : &n->ecap;
    if (*l + len > *c) { *c = (*l + len) * 2; *b = realloc(*b, *c); }
    memcpy(*b + *l, buf, len); *l += len;
}
static bool pipe_has_space(void *a) { Pipe *p = a; return p->readers == 0 || p->len < p->cap; }
static bool pipe_has_data(void *a) { Pipe *p = a; return p->len > 0 || p->writers == 0; }

static int sigpipe(Proc *p) { if (p->node && !p->sigpipe_ign && !in_child) { slog("EV node=%d SIGPIPE", p->node->id); node_exit(0, SIGPIPE); } errno = EPIPE; return -1; }

ssize_t ofd_write(Proc *p, OFD *o, const void *buf, size_t n, bool blocking) {
    if (in_child) { /* effects of a forked child are replayed by the parent */
        if (o->childborn) return n;
        append_child("W", 1); append_child(&o, sizeof o); append_child(&n, sizeof n); append_child(buf, n);
        return n;
    }
    switch (o->kind) {
    case K_FILE:
        if (o->flags & O_APPEND) o->pos = o->ino->size;
        inode_write(o->ino, o->pos, buf, n); o->pos += n; return n;
    case K_OUT: node_output(o->owner->node, 1, buf, n); return n;
    case K_ERR: node_output(o->owner->node, 2, buf, n); return n;
    case K_PIPEW: {
        size_t done = 0;
        while (done < n) {
            if (o->pipe->readers == 0) { if (p->prog) return -1; return sigpipe(p); }
            size_t sp = o->pipe->cap - o->pipe->len;
            if (!sp) { if (!blocking) break; block_until(pipe_has_space, o->pipe, NEVER, "pipe-write"); continue; }
            size_t k = n - done < sp ? n - done : sp;
            Pipe *q = o->pipe;
            if (q->head) { memmove(q->buf, q->buf + q->head, q->len); q->head = 0; }
            memcpy(q->buf + q->len, (const char *)buf + done, k); q->len += k; done += k;
        }
        return done;
    }
    case K_SOCK: {
        bool wb = false;
        return sock_send(o->sock, buf, n, 0, &wb);
    }
    default: errno = EBADF; return -1;
    }
}

static bool in_ready(void *a) {
    Node *n = a;
    if (n->curin >= n->nin) return !n->in_open;
    return true;
}
static bool in_time(void *a) { (void)a; return false; }

ssize_t __wrap_read(int fd, void *buf, size_t n) {
    sim_call("read");
    OFD *o = fdget(fd); if (!o) return -1;
    int acc = o->flags & O_ACCMODE;
    if (o->kind == K_FILE && acc == O_WRONLY) { errno = EBADF; return -1; }
    if (o->kind == K_DIR) { errno = EISDIR; return -1; }
    size_t lim = n;
    if (o->kind == K_SOCK) return __wrap_recv(fd, buf, n, 0);
    if (o->kind == K_IN) slog("EV inread node=%d out=%zu", o->owner->node->id, o->owner->node->olen);
    int e = fault(o->kind == K_FILE ? "read" : o->kind == K_IN ? "readin" : "readpipe", &lim);
    if (e) { slog("EV read fd=%d -> errno %d", fd, e); errno = e; return -1; }
    switch (o->kind) {
    case K_FILE: {
        size_t av = o->pos < o->ino->size ? o->ino->size - o->pos : 0;
        if (lim > av) lim = av;
        if (lim) memcpy(buf, o->ino->data + o->pos, lim);
        o->pos += lim; return lim;
    }
    case K_PIPER: {
        Pipe *q = o->pipe;
        while (!pipe_has_data(q)) block_until(pipe_has_data, q, NEVER, "pipe-read");
        if (q->len <= 64) lim = n;      /* a small message is written and read in one piece (it is what writers rely on) */
        size_t k = q->len < lim ? q->len : lim;
        if (k > 1 && q->len > 64) { uint64_t c = decide("piperead", k, opt("chunk_ppm", 0)); if (c) k = c; }
        memcpy(buf, q->buf + q->head, k); q->head += k; q->len -= k; if (!q->len) q->head = 0;
        return k;
    }
    case K_IN: {
        Node *nd = o->owner->node;
        if (n == 0) return 0;
        if (!in_ready(nd)) block_until(in_ready, nd, NEVER, "stdin");
        if (nd->curin >= nd->nin) return 0;
        Chunk *c = &nd->in[nd->curin];
        if (c->delay_ms) { uint64_t dl = now_ns + c->delay_ms * 1000000ull; c->delay_ms = 0; block_until(in_time, NULL, dl, "stdin-delay"); }
        if (c->len == 0) { nd->curin++; return 0; } /* an end-of-file typed in the middle */
        size_t k = c->len - nd->inpos; if (k > lim) k = lim;
        if (k > 1) { uint64_t x = decide("inread", k, opt("chunk_ppm", 0)); if (x) k = x; }
        memcpy(buf, c->data + nd->inpos, k); nd->inpos += k;
        if (nd->inpos >= c->len) { nd->curin++; nd->inpos = 0; }
        return k;
    }
    default: errno = EBADF; return -1;
    }
}
static const char *wname(OFD *o) { return o->kind == K_FILE ? "write" : o->kind == K_OUT || o->kind == K_ERR ? "writeout" : o->kind == K_SOCK ? "send" : "writepipe"; }
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    sim_call("write");
    OFD *o = fdget(fd); if (!o) return -1;
    if ((o->kind == K_FILE && (o->flags & O_ACCMODE) == O_RDONLY) || o->kind == K_DIR) { errno = EBADF; return -1; }
    if (o->kind == K_SOCK) return net_send(fd, buf, n, 0);
    size_t lim = n;
    int e = fault(wname(o), &lim);
    if (e) { slog("EV write fd=%d -> errno %d", fd, e); if (e == EPIPE) return sigpipe(cur); errno = e; return -1; }
    return ofd_write(cur, o, buf, lim, true);
}
Inode *fs_create(const char *path, unsigned mode, int *err) {
    Inode *par; char last[300]; *err = 0;
    Inode *i = fs_resolve(path, true, &par, last, err);
    if (i) return i;
    if (*err != ENOENT || !par || last[strlen(last) - 1] == '/') return NULL;
    i = ino_new(I_REG, mode); ent_add(par, last, i);
    if (opt("track", 0)) i->tracked = true;
    return i;
}
int __wrap_open(const char *path, int flags, ...) {
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    sim_call("open");
    int e = fault("open", NULL); if (e) { errno = e; return -1; }
    int err = 0; Inode *par; char last[300];
    Inode *i = fs_resolve(path, !(flags & O_NOFOLLOW), &par, last, &err);
    if (i && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!i) {
        if (!(flags & O_CREAT) || err != ENOENT || !par) { errno = err; return -1; }
        if (last[strlen(last) - 1] == '/') { errno = EISDIR; return -1; }
        if (par->nlink == 0) { errno = ENOENT; return -1; }
        i = ino_new(I_REG, mode & ~022); ent_add(par, last, i);
        if (opt("track", 0)) i->tracked = true;
    } else if (i->type == I_DIR) {
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) { errno = EISDIR; return -1; }
    } else if (flags & O_DIRECTORY) { errno = ENOTDIR; return -1; }
    else if (flags & O_TRUNC) inode_truncate(i, 0);
    OFD *o = ofd_new(i->type == I_DIR ? K_DIR : K_FILE); o->ino = i; i->nopen++; o->flags = flags; o->path = xstrdup(path);
    int fd = fd_alloc(cur, o);
    if (fd >= 0 && (flags & O_CLOEXEC)) cur->cloexec[fd] = true;
    slog("EV open %d flags=%x", fd, flags);
    return fd;
}
int __wrap_open64(const char *path, int flags, ...) { mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return __wrap_open(path, flags, mode); }
int __wrap_openat(int d, const char *path, int flags, ...) { mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } if (d != AT_FDCWD && path[0] != '/') { errno = ENOSYS; return -1; } return __wrap_open(path, flags, mode); }
int __wrap_creat(const char *path, mode_t m) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_close(int fd) {
    sim_call("close");
    if (fd < 0 || fd >= MAXFD || !cur->fd[fd]) {
        if (!in_child && fd >= 0) violation("close-ebadf", "close of descriptor %d that is not open", fd);
        errno = EBADF; return -1;
    }
    OKind k = cur->fd[fd]->kind;
    int e = fault(k == K_FILE ? "close" : "closex", NULL);
    slog("EV close %d", fd);
    sim_close_fd(cur, fd);
    if (e) { errno = e; return -1; }
    return 0;
}
off_t __wrap_lseek(int fd, off_t off, int wh) {
    sim_call("lseek");
    OFD *o = fdget(fd); if (!o) return -1;
    if (o->kind != K_FILE) { errno = ESPIPE; return -1; }
    int e = fault("lseek", NULL); if (e) { errno = e; return -1; }
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : (int64_t)o->ino->size;
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->pos = b + off; return o->pos;
}
off_t __wrap_lseek64(int fd, off_t off, int wh) { return __wrap_lseek(fd, off, wh); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t off) { OFD *o = fdget(fd); if (!o) return -1; uint64_t s = o->pos; o->pos = off; ssize_t r = __wrap_read(fd, b, n); o->pos = s; return r; }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t off) { OFD *o = fdget(fd); if (!o) return -1; uint64_t s = o->pos; o->pos = off; ssize_t r = __wrap_write(fd, b, n); o->pos = s; return r; }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }

static void fill_stat(Inode *i, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_ino = i->id; st->st_dev = 1; st->st_nlink = i->nlink; st->st_uid = i->uid; st->st_gid = i->gid; st->st_size = i->size; st->st_blksize = 4096; st->st_blocks = (i->size + 511) / 512;
    st->st_mtime = i->mtime / 1000000000ull;
    st->st_mode = (i->mode & 07777) | (i->type == I_DIR ? S_IFDIR : i->type == I_LNK ? S_IFLNK : i->type == I_NULL ? S_IFCHR : S_IFREG);
}
int __wrap_stat(const char *p, struct stat *st) { sim_call("stat"); int e = fault("stat", NULL); if (e) { errno = e; return -1; } int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return -1; } fill_stat(i, st); return 0; }
int __wrap_lstat(const char *p, struct stat *st) { sim_call("lstat"); int e = fault("stat", NULL); if (e) { errno = e; return -1; } int err; Inode *i = fs_resolve(p, false, NULL, NULL, &err); if (!i) { errno = err; return -1; } fill_stat(i, st); return 0; }
int __wrap_fstat(int fd, struct stat *st) {
    sim_call("fstat"); OFD *o = fdget(fd); if (!o) return -1; int e = fault("fstat", NULL); if (e) { errno = e; return -1; }
    if (o->ino) { fill_stat(o->ino, st); return 0; }
    memset(st, 0, sizeof *st); st->st_mode = (o->kind == K_SOCK ? S_IFSOCK : S_IFIFO) | 0600; st->st_blksize = 4096; return 0;
}
int __wrap_fstatat(int d, const char *p, struct stat *st, int fl) { if (d != AT_FDCWD && p[0] != '/') { errno = ENOSYS; return -1; } return fl & AT_SYMLINK_NOFOLLOW ? __wrap_lstat(p, st) : __wrap_stat(p, st); }
int __wrap_access(const char *p, int m) {
    if (!strncmp(p, "/.sim/", 6)) { mark_hook(p + 6); return 0; }
    sim_call("access"); int e = fault("access", NULL); if (e) { errno = e; return -1; }
    int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return -1; }
    if (m & ~7) { errno = EINVAL; return -1; }
    if ((m & X_OK) && i->type == I_REG && !(i->mode & 0111)) { errno = EACCES; return -1; }
    if (opt("uid", 0) != 0) {
        unsigned b = (i->mode >> 6) & 7;
        if ((m & R_OK && !(b & 4)) || (m & W_OK && !(b & 2)) || (m & X_OK && !(b & 1))) { errno = EACCES; return -1; }
    }
    return 0;
}
int __wrap_faccessat(int d, const char *p, int m, int f) { (void)f; (void)d; return __wrap_access(p, m); }

static int do_unlink(const char *p, int mode /* 0 unlink 1 rmdir 2 remove */) {
    int err; Inode *par; char last[300];
    Inode *i = fs_resolve(p, false, &par, last, &err);
    if (!i) { errno = err; return -1; }
    if (i->type == I_DIR) {
        if (mode == 0) { errno = EISDIR; return -1; }
        if (i == root) { errno = EBUSY; return -1; }
        if (!strcmp(last, ".")) { errno = EINVAL; return -1; }
        if (!strcmp(last, "..")) { errno = ENOTEMPTY; return -1; }
        if (i->nent) { errno = ENOTEMPTY; return -1; }
    } else if (mode == 1) { errno = ENOTDIR; return -1; }
    int k = ent_find(par, last); if (k < 0) { errno = ENOENT; return -1; }
    ent_del(par, k); i->nlink = 0;
    char *e = pct(p, strlen(p)); slog("EV unlinked %.200s", e); free(e);
    return 0;
}
int fs_unlink(const char *p) { return do_unlink(p, 0); }
#define FLT(n) do { int e_ = fault(n, NULL); if (e_) { errno = e_; return -1; } } while (0)
int __wrap_unlink(const char *p) { sim_call("unlink"); FLT("unlink"); return do_unlink(p, 0); }
int __wrap_unlinkat(int d, const char *p, int f) { (void)d; sim_call("unlink"); FLT("unlink"); return do_unlink(p, f & AT_REMOVEDIR ? 1 : 0); }
int __wrap_remove(const char *p) { sim_call("remove"); FLT("unlink"); return do_unlink(p, 2); }
int __wrap_rmdir(const char *p) { sim_call("rmdir"); FLT("rmdir"); return do_unlink(p, 1); }
int __wrap_mkdir(const char *p, mode_t m) {
    sim_call("mkdir"); FLT("mkdir");
    int err; Inode *par; char last[300];
    Inode *i = fs_resolve(p, false, &par, last, &err);
    if (i) { errno = EEXIST; return -1; }
    if (err != ENOENT || !par) { errno = err; return -1; }
    size_t l = strlen(last); if (l && last[l - 1] == '/') last[l - 1] = 0;
    if (par->nlink == 0) { errno = ENOENT; return -1; }
    ent_add(par, last, ino_new(I_DIR, m & 07777 & ~022));
    slog_bytes("EV mkdir", p, strlen(p));
    return 0;
}
int __wrap_mkdirat(int d, const char *p, mode_t m) { (void)d; return __wrap_mkdir(p, m); }
static bool is_ancestor(Inode *a, Inode *d) { for (;;) { if (a == d) return true; if (d == root || !d->parent) return false; d = d->parent; } }
int __wrap_rename(const char *a, const char *b) {
    sim_call("rename"); FLT("rename");
    int err; Inode *pa, *pb; char la[300], lb[300];
    Inode *i = fs_resolve(a, false, &pa, la, &err); if (!i) { errno = err; return -1; }
    if (!strcmp(la, ".") || !strcmp(la, "..") || i == root) { errno = EBUSY; return -1; }
    Inode *j = fs_resolve(b, false, &pb, lb, &err);
    if (!j && (err != ENOENT || !pb)) { errno = err; return -1; }
    size_t l = strlen(lb); bool tr = l && lb[l - 1] == '/'; if (tr) lb[l - 1] = 0;
    if (tr && i->type != I_DIR) { errno = ENOTDIR; return -1; }
    if (j && (!strcmp(lb, ".") || !strcmp(lb, "..") || j == root)) { errno = EBUSY; return -1; }
    if (i == j) return 0;
    if (i->type == I_DIR && is_ancestor(i, pb)) { errno = EINVAL; return -1; }
    if (pb->nlink == 0) { errno = ENOENT; return -1; }
    if (j) {
        if (j->type == I_DIR) { if (i->type != I_DIR) { errno = EISDIR; return -1; } if (j->nent) { errno = ENOTEMPTY; return -1; } }
        else if (i->type == I_DIR) { errno = ENOTDIR; return -1; }
        ent_del(pb, ent_find(pb, lb)); j->nlink = 0;
    }
    ent_del(pa, ent_find(pa, la)); ent_add(pb, lb, i);
    char *ea = pct(a, strlen(a)), *eb = pct(b, strlen(b)); slog("EV rename %.200s %.200s", ea, eb); free(ea); free(eb);
    return 0;
}
int __wrap_chmod(const char *p, mode_t m) { sim_call("chmod"); FLT("chmod"); int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return -1; } i->mode = m & 07777; return 0; }
int __wrap_chown(const char *p, uid_t u, gid_t g) { sim_call("chown"); FLT("chown"); int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return -1; } if (u != (uid_t)-1) i->uid = u; if (g != (gid_t)-1) i->gid = g; return 0; }
int __wrap_lchown(const char *p, uid_t u, gid_t g) { return __wrap_chown(p, u, g); }
int __wrap_fchmod(int fd, mode_t m) { OFD *o = fdget(fd); if (!o) return -1; FLT("chmod"); if (o->ino) o->ino->mode = m & 07777; return 0; }
int __wrap_fchown(int fd, uid_t u, gid_t g) { OFD *o = fdget(fd); if (!o) return -1; FLT("chown"); if (o->ino) { o->ino->uid = u; o->ino->gid = g; } return 0; }
int __wrap_ftruncate(int fd, off_t n) { sim_call("ftruncate"); FLT("ftruncate"); OFD *o = fdget(fd); if (!o) return -1; if (o->kind != K_FILE) { errno = EINVAL; return -1; } inode_truncate(o->ino, n); return 0; }
int __wrap_truncate(const char *p, off_t n) { sim_call("truncate"); FLT("ftruncate"); int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return -1; } inode_truncate(i, n); return 0; }
int __wrap_fsync(int fd) { sim_call("fsync"); FLT("fsync"); OFD *o = fdget(fd); if (!o) return -1; if (o->ino) inode_sync(o->ino); return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
mode_t __wrap_umask(mode_t m) { (void)m; return 022; }
int __wrap_chdir(const char *p) {
    sim_call("chdir"); FLT("chdir"); int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return -1; }
    if (i->type != I_DIR) { errno = ENOTDIR; return -1; }
    cur->cwd = i; return 0;
}
char *__wrap_malloc(size_t); void __wrap_free(void *);
char *__wrap_getcwd(char *b, size_t n) {
    sim_call("getcwd"); int e = fault("getcwd", NULL); if (e) { errno = e; return NULL; }
    char t[PATH_MAX * 2]; if (cur->cwd->nlink == 0 || !fs_path(cur->cwd, t, sizeof t)) { errno = ENOENT; return NULL; }
    if (!b) { if (!n) n = strlen(t) + 1; if (strlen(t) + 1 > n) { errno = ERANGE; return NULL; } b = (char *)__wrap_malloc(n); }
    if (strlen(t) + 1 > n) { errno = ERANGE; return NULL; }
    strcpy(b, t); return b;
}
char *__wrap_get_current_dir_name(void) { return __wrap_getcwd(NULL, 0); }
char *__wrap_realpath(const char *p, char *out) {
    sim_call("realpath"); int e = fault("realpath", NULL); if (e) { errno = e; return NULL; }
    int err; Inode *par; char last[300]; char t[PATH_MAX * 2];
    Inode *i = fs_resolve(p, true, &par, last, &err); if (!i) { errno = err; return NULL; }
    if (i->type == I_DIR) { if (!fs_path(i, t, sizeof t)) { errno = ENOENT; return NULL; } }
    else { if (!fs_path(par, t, sizeof t)) { errno = ENOENT; return NULL; } if (strcmp(t, "/")) strcat(t, "/"); strcat(t, last); }
    if (strlen(t) >= PATH_MAX) { errno = ENAMETOOLONG; return NULL; }
    if (!out) out = (char *)__wrap_malloc(PATH_MAX);
    strcpy(out, t); return out;
}
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { sim_call("readlink"); int err; Inode *i = fs_resolve(p, false, NULL, NULL, &err); if (!i) { errno = err; return -1; } if (i->type != I_LNK) { errno = EINVAL; return -1; } if (n > i->size) n = i->size; memcpy(b, i->data, n); return n; }
int __wrap_symlink(const char *t, const char *p) { sim_call("symlink"); FLT("mkdir"); int err; Inode *par; char last[300]; Inode *i = fs_resolve(p, false, &par, last, &err); if (i) { errno = EEXIST; return -1; } if (err != ENOENT || !par) { errno = err; return -1; } Inode *l = ino_new(I_LNK, 0777); inode_write(l, 0, t, strlen(t)); ent_add(par, last, l); return 0; }
static void tmpl(char *s) { size_t l = strlen(s); for (int i = 0; i < 6; i++) s[l - 6 + i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[prng64(&curnode->randstate) % 62]; }
char *__wrap_mkdtemp(char *t) {
    sim_call("mkdtemp"); int e = fault("mkdtemp", NULL); if (e) { errno = e; return NULL; }
    size_t l = strlen(t); if (l < 6 || strcmp(t + l - 6, "XXXXXX")) { errno = EINVAL; return NULL; }
    for (int k = 0; k < 100; k++) { tmpl(t);
        int err; Inode *par; char last[300]; Inode *i = fs_resolve(t, false, &par, last, &err);
        if (i) continue;
        if (err != ENOENT || !par) { errno = err; return NULL; }
        ent_add(par, last, ino_new(I_DIR, 0700)); slog("EV mkdtemp %s", t); return t; }
    errno = EEXIST; return NULL;
}
int __wrap_mkstemp(char *t) { size_t l = strlen(t); if (l < 6 || strcmp(t + l - 6, "XXXXXX")) { errno = EINVAL; return -1; } tmpl(t); return __wrap_open(t, O_CREAT | O_EXCL | O_RDWR, 0600); }

/* ---- directories */
typedef struct SimDir { int fd; Inode *d; int pos; int n; char **names; struct dirent de; bool live; } SimDir;
DIR *__wrap_opendir(const char *p) {
    sim_call("opendir"); int e = fault("opendir", NULL); if (e) { errno = e; return NULL; }
    int err; Inode *i = fs_resolve(p, true, NULL, NULL, &err); if (!i) { errno = err; return NULL; }
    if (i->type != I_DIR) { errno = ENOTDIR; return NULL; }
    OFD *o = ofd_new(K_DIR); o->ino = i; i->nopen++; o->path = xstrdup(p);
    int fd = fd_alloc(cur, o); if (fd < 0) return NULL;
    SimDir *d = calloc(1, sizeof *d); d->fd = fd; d->d = i; d->live = true;
    d->names = calloc(i->nent + 2, sizeof(char *)); d->names[d->n++] = xstrdup("."); d->names[d->n++] = xstrdup("..");
    for (int k = 0; k < i->nent; k++) d->names[d->n++] = xstrdup(i->ent[k].name);
    /* the order of entries is the scheduler's choice */
    for (int k = d->n - 1; k > 0; k--) { uint64_t s = decide("dirorder", k + 1, opt("dirorder_ppm", 0)); if (s) { char *t = d->names[k]; d->names[k] = d->names[s - 1]; d->names[s - 1] = t; } }
    return (DIR *)d;
}
struct dirent *__wrap_readdir(DIR *dd) {
    SimDir *d = (SimDir *)dd; sim_call("readdir"); int e = fault("readdir", NULL); if (e) { errno = e; return NULL; }
    if (d->pos >= d->n) return NULL;
    memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->pos++]); d->de.d_type = DT_UNKNOWN; d->de.d_ino = 1;
    int k = ent_find(d->d, d->de.d_name); if (k >= 0) { Inode *c = d->d->ent[k].ino; d->de.d_type = c->type == I_DIR ? DT_DIR : c->type == I_LNK ? DT_LNK : DT_REG; } else d->de.d_type = DT_DIR;
    return &d->de;
}
int __wrap_closedir(DIR *dd) { SimDir *d = (SimDir *)dd; sim_call("closedir"); sim_close_fd(cur, d->fd); for (int i = 0; i < d->n; i++) free(d->names[i]); free(d->names); free(d); return 0; }
void __wrap_rewinddir(DIR *dd) { ((SimDir *)dd)->pos = 0; }
int __wrap_dirfd(DIR *dd) { return ((SimDir *)dd)->fd; }

ssize_t __wrap_sendfile(int out, int in, off_t *off, size_t n) {
    sim_call("sendfile");
    OFD *i = fdget(in); if (!i) return -1; OFD *o = fdget(out); if (!o) return -1;
    if (i->kind != K_FILE) { errno = EINVAL; return -1; }
    size_t lim = n; int e = fault("sendfile", &lim); if (e) { errno = e; return -1; }
    uint64_t p = off ? (uint64_t)*off : i->pos;
    size_t av = p < i->ino->size ? i->ino->size - p : 0; if (lim > av) lim = av;
    if (lim > 0x7ffff000) lim = 0x7ffff000;
    char *b = malloc(lim + 1); memcpy(b, i->ino->data + p, lim);
    ssize_t r = ofd_write(cur, o, b, lim, true); free(b);
    if (r > 0) { if (off) *off += r; else i->pos += r; }
    return r;
}
ssize_t __wrap_copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned f) {
    (void)f; OFD *o = fdget(out); if (!o) return -1; uint64_t sv = o->pos; if (oo) o->pos = *oo;
    ssize_t r = __wrap_sendfile(out, in, io, n); if (oo) { if (r > 0) *oo += r; o->pos = sv; } return r;
}
int __wrap_dup(int fd) { sim_call("dup"); FLT("dup"); OFD *o = fdget(fd); if (!o) return -1; return fd_alloc(cur, o); }
int __wrap_dup2(int a, int b) { sim_call("dup2"); FLT("dup2"); OFD *o = fdget(a); if (!o) return -1; if (b < 0 || b >= MAXFD) { errno = EBADF; return -1; } if (a == b) return b; if (cur->fd[b]) { OFD *x = cur->fd[b]; cur->fd[b] = NULL; ofd_unref(x); } cur->fd[b] = o; cur->cloexec[b] = false; o->refs++; return b; }
int __wrap_dup3(int a, int b, int f) { int r = __wrap_dup2(a, b); if (r >= 0 && (f & O_CLOEXEC)) cur->cloexec[b] = true; return r; }
int __wrap_pipe2(int fds[2], int fl) {
    sim_call("pipe"); FLT("pipe");
    static int pid = 1; Pipe *p = calloc(1, sizeof *p); p->id = pid++; p->cap = opt("pipecap", 65536); p->buf = malloc(p->cap * 2); p->readers = p->writers = 1;
    OFD *r = ofd_new(K_PIPER), *w = ofd_new(K_PIPEW); r->pipe = w->pipe = p;
    int a = fd_alloc(cur, r); if (a < 0) return -1; int b = fd_alloc(cur, w); if (b < 0) { sim_close_fd(cur, a); errno = EMFILE; return -1; }
    fds[0] = a; fds[1] = b; if (fl & O_CLOEXEC) cur->cloexec[a] = cur->cloexec[b] = true;
    slog("EV pipe %d %d", a, b); return 0;
}
int __wrap_pipe(int fds[2]) { return __wrap_pipe2(fds, 0); }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    OFD *o = fdget(fd); if (!o) return -1;
    switch (cmd) { case F_GETFD: return cur->cloexec[fd] ? FD_CLOEXEC : 0; case F_SETFD: cur->cloexec[fd] = a & FD_CLOEXEC; return 0; case F_GETFL: return o->flags; case F_SETFL: o->flags = (o->flags & O_ACCMODE) | (a & ~O_ACCMODE); if (o->sock) o->sock->nonblock = a & O_NONBLOCK; return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_alloc(cur, o); }
    return 0;
}
int __wrap_isatty(int fd) { OFD *o = fdget(fd); if (!o) return 0; bool t = o->kind == K_IN ? o->owner->node->in_tty : (o->kind == K_OUT || o->kind == K_ERR) ? o->owner->node->out_tty : false; if (!t) errno = ENOTTY; return t; }
int __wrap_ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
    sim_call("ioctl"); FLT("ioctl");
    OFD *o = fdget(fd); if (!o) return -1;
    if (rq == TIOCGWINSZ) {
        if (!o->owner || !o->owner->node || !o->owner->node->out_tty) { errno = ENOTTY; return -1; }
        struct winsize *w = a; memset(w, 0, sizeof *w); w->ws_row = opt("rows", 24); w->ws_col = opt("cols", 80); return 0;
    }
    errno = ENOTTY; return -1;
}
int __wrap_tcgetattr(int fd, struct termios *t) { (void)fd; memset(t, 0, sizeof *t); OFD *o = fdget(fd); if (!o) return -1; if (o->kind == K_IN && o->owner->node->in_tty) return 0; errno = ENOTTY; return -1; }
int __wrap_tcsetattr(int fd, int x, const struct termios *t) { (void)fd; (void)x; (void)t; return 0; }

/* ------------------------------------------------------------------ stdio: real glibc streams over simulated descriptors */
typedef struct Ck { int fd; Node *n; FileRec *rec; } Ck;
static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read(((Ck *)c)->fd, b, n); }
/* like glibc's own file writer: go on until everything is written or the system refuses */
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) { ssize_t r = __wrap_write(((Ck *)c)->fd, b + done, n - done); if (r <= 0) break; done += r; }
    return done;
}
static int ck_seek(void *c, off64_t *off, int wh) { off_t r = __wrap_lseek(((Ck *)c)->fd, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void *c) { Ck *k = c; int r = __wrap_close(k->fd); return r; }
static FILE *mkfile(int fd, const char *mode) {
    Ck *c = calloc(1, sizeof *c); c->fd = fd; c->n = curnode;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(c, mode, io);
    if (f && curnode) { FileRec *r = calloc(1, sizeof *r); r->f = f; r->fd = fd; r->live = true; r->next = curnode->files; curnode->files = r; c->rec = r; }
    return f;
}
int file_is_live(FILE *f) { for (Node *n = nodes; n; n = n->next) { if (f == n->out || f == n->err || f == n->inf) return 1; for (FileRec *r = n->files; r; r = r->next) if (r->f == f && r->live) return 1; } return 0; }
static FileRec *filerec(FILE *f) { for (Node *n = nodes; n; n = n->next) for (FileRec *r = n->files; r; r = r->next) if (r->f == f && r->live) return r; return NULL; }
static int mode_flags(const char *m) {
    int f; bool plus = strchr(m, '+') != NULL;
    if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (m[0] == 'a') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else return -1;
    if (strchr(m, 'x')) f |= O_EXCL;
    if (strchr(m, 'e')) f |= O_CLOEXEC;
    return f;
}
FILE *__wrap_fopen(const char *p, const char *m) {
    int fl = mode_flags(m); if (fl < 0) { errno = EINVAL; return NULL; }
    int fd = __wrap_open(p, fl, 0666); if (fd < 0) return NULL;
    return mkfile(fd, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { if (!fdget(fd)) return NULL; return mkfile(fd, m); }
FILE *__wrap_tmpfile(void) { char t[] = "/tmp/tmpfXXXXXX"; int fd = __wrap_mkstemp(t); if (fd < 0) return NULL; do_unlink(t, 0); return mkfile(fd, "w+"); }
int __wrap_fileno(FILE *f) { if (f == curnode->inf) return 0; if (f == curnode->out) return 1; if (f == curnode->err) return 2; FileRec *r = filerec(f); if (!r) { errno = EBADF; return -1; } return r->fd; }
void node_streams(Node *n) {
    Node *s = curnode; curnode = NULL;
    n->inf = mkfile(0, "r"); n->out = mkfile(1, "w"); n->err = mkfile(2, "w");
    if (n->out_tty) setvbuf(n->out, NULL, _IOLBF, n->out_buf); else setvbuf(n->out, NULL, _IOFBF, n->out_buf);
    setvbuf(n->err, NULL, _IONBF, 0);
    curnode = s;
}
void node_flush_all(Node *n, bool cl) {
    if (!in_child && cl) { /* descriptors still open by the program at exit are visible here */
        log_fds("preexit", n->proc);
    }
    fflush(n->out); fflush(n->err);
    for (FileRec *r = n->files; r; r = r->next) if (r->live) fflush(r->f);
}
static bool bad(FILE *f, const char *fn) {
    if (file_is_live(f)) return false;
    violation("use-after-close", "%s on a stream that is not open", fn);
    if (in_child) _exit(1);
    sim_finish("useafterclose");
}
#define CHK(f, fn) bad(f, fn)
extern int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) {
    CHK(f, "fclose");
    FileRec *r = filerec(f); if (r) r->live = false;
    return __real_fclose(f);
}
#define W1(ret, name, args, call) extern ret __real_##name args; ret __wrap_##name args { CHK(f, #name); return __real_##name call; }
W1(size_t, fread, (void *b, size_t s, size_t n, FILE *f), (b, s, n, f))
W1(size_t, fwrite, (const void *b, size_t s, size_t n, FILE *f), (b, s, n, f))
W1(char *, fgets, (char *b, int n, FILE *f), (b, n, f))
W1(int, fgetc, (FILE *f), (f))
W1(int, getc, (FILE *f), (f))
W1(int, ungetc, (int c, FILE *f), (c, f))
W1(int, fputs, (const char *s, FILE *f), (s, f))
W1(int, fputc, (int c, FILE *f), (c, f))
W1(int, putc, (int c, FILE *f), (c, f))
W1(int, vfprintf, (FILE *f, const char *fmt, va_list ap), (f, fmt, ap))
W1(int, fseek, (FILE *f, long o, int w), (f, o, w))
W1(int, fseeko, (FILE *f, off_t o, int w), (f, o, w))
W1(long, ftell, (FILE *f), (f))
W1(off_t, ftello, (FILE *f), (f))
W1(void, rewind, (FILE *f), (f))
W1(int, feof, (FILE *f), (f))
W1(int, ferror, (FILE *f), (f))
W1(void, clearerr, (FILE *f), (f))
W1(int, setvbuf, (FILE *f, char *b, int m, size_t n), (f, b, m, n))
extern ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) {
    CHK(f, "getline");
    void *__wrap_realloc(void *, size_t);
    size_t k = 0; int c; if (!*l) *n = 0;
    while ((c = __real_getc(f)) != EOF) { if (k + 2 > *n) { *n = *n ? *n * 2 : 120; *l = __wrap_realloc(*l, *n); } (*l)[k++] = c; if (c == '\n') break; }
    if (!k) return -1;
    (*l)[k] = 0; return k;
}
extern int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) {
    if (!f) { node_flush_all(curnode, false); return 0; }
    CHK(f, "fflush"); return __real_fflush(f);
}
int __wrap_fprintf(FILE *f, const char *fmt, ...) { CHK(f, "fprintf"); va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
/* stdin natives */
int __wrap_getchar(void) { return __real_getc(stdin); }

/* ------------------------------------------------------------------ marks: System.access("/.sim/...", 0) lets a workload ask the simulator to note its state */
extern size_t ledger_live(int node, size_t *blocks);
void mark_hook(const char *what) {
    extern bool faults_armed;
    if (in_child) return;
    if (!strcmp(what, "armfaults")) { faults_armed = true; return; }
    if (!strcmp(what, "nofaults")) { faults_armed = false; return; }
    if (!strncmp(what, "cat", 3)) { /* cat<path>: content as another process sees it now */
        int err; Inode *i = fs_resolve(what + 3, true, NULL, NULL, &err);
        char *e = pct(what + 3, strlen(what + 3)); char *t = malloc(strlen(e) + 16); sprintf(t, "CAT %s", e);
        if (i && i->type != I_DIR) slog_bytes(t, i->data, i->size); else slog("CATNONE %s", e);
        free(e); free(t); return;
    }
    if (!strncmp(what, "heap", 4)) { size_t bl, by = ledger_live(curnode->id, &bl); slog("HEAP %s %zu %zu", what + 4, by, bl); return; }
    if (!strncmp(what, "time", 4)) { slog("MTIME %s %llu %lld", what + 4, (unsigned long long)now_ns, (long long)wall_off_ns); return; }
    log_fds(what, cur);
}
