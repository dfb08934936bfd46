#include "sim.h"
#include <sqlite3.h>
/* SQLite's own VFS seam on the simulated disk: real SQLite code, simulated files, locks, syncs, clock and randomness. */
typedef struct VF { sqlite3_file base; Inode *ino; OFD *ofd; int fd; int lock; Proc *owner; bool delclose; char *path; struct VF *next; bool live; } VF;
static VF *vfs_open[512]; static int nvf;
static sqlite3_vfs simvfs;

static int vclose(sqlite3_file *f);
static void unlock_all(VF *v) {
    Inode *i = v->ino;
    if (v->lock >= SQLITE_LOCK_SHARED && i->lk_shared > 0) i->lk_shared--;
    if (i->lk_reserved == v) i->lk_reserved = NULL;
    if (i->lk_pending == v) i->lk_pending = NULL;
    if (i->lk_exclusive == v) i->lk_exclusive = NULL;
    v->lock = 0;
}
static int vclose(sqlite3_file *f) {
    VF *v = (VF *)f;
    if (!v->live) return SQLITE_OK;
    unlock_all(v); v->live = false;
    for (int k = 0; k < nvf; k++) if (vfs_open[k] == v) { vfs_open[k] = vfs_open[--nvf]; break; }
    if (v->owner && v->fd >= 0 && v->owner->fd[v->fd] == v->ofd) sim_close_fd(v->owner, v->fd);
    if (v->delclose) fs_unlink(v->path);
    free(v->path); v->path = NULL;
    return SQLITE_OK;
}
static int vread(sqlite3_file *f, void *b, int n, sqlite3_int64 off) {
    VF *v = (VF *)f; sim_call("sqlread");
    if (fault("sqlread", NULL)) return SQLITE_IOERR_READ;
    size_t av = (uint64_t)off < v->ino->size ? v->ino->size - off : 0; size_t k = av < (size_t)n ? av : (size_t)n;
    if (k) memcpy(b, v->ino->data + off, k);
    if (k < (size_t)n) { memset((char *)b + k, 0, n - k); return SQLITE_IOERR_SHORT_READ; }
    return SQLITE_OK;
}
static int vwrite(sqlite3_file *f, const void *b, int n, sqlite3_int64 off) {
    VF *v = (VF *)f; sim_call("sqlwrite");
    size_t len = n; int e = fault("sqlwrite", &len);
    if (e) { if (decide("sqltorn", 2, 500000) && n > 1) inode_write(v->ino, off, b, n / 2); return e == ENOSPC || e == EDQUOT ? SQLITE_FULL : SQLITE_IOERR_WRITE; }
    inode_write(v->ino, off, b, n); return SQLITE_OK;
}
static int vtruncate(sqlite3_file *f, sqlite3_int64 n) { VF *v = (VF *)f; sim_call("sqltruncate"); if (fault("sqltruncate", NULL)) return SQLITE_IOERR_TRUNCATE; inode_truncate(v->ino, n); return SQLITE_OK; }
static int vsync(sqlite3_file *f, int fl) { (void)fl; VF *v = (VF *)f; sim_call("sqlsync"); if (fault("sqlsync", NULL)) return SQLITE_IOERR_FSYNC; inode_sync(v->ino); count("sql:syncs", 1); return SQLITE_OK; }
static int vsize(sqlite3_file *f, sqlite3_int64 *n) { *n = ((VF *)f)->ino->size; return SQLITE_OK; }
static int vlock(sqlite3_file *f, int l) {
    VF *v = (VF *)f; Inode *i = v->ino; sim_call("sqllock");
    if (v->lock >= l) return SQLITE_OK;
    if (fault("sqllock", NULL)) return SQLITE_BUSY;
    if (l == SQLITE_LOCK_SHARED) {
        if ((i->lk_pending && i->lk_pending != v) || (i->lk_exclusive && i->lk_exclusive != v)) { count("sql:busy", 1); return SQLITE_BUSY; }
        i->lk_shared++; v->lock = l; return SQLITE_OK;
    }
    if (l == SQLITE_LOCK_RESERVED) {
        if ((i->lk_reserved && i->lk_reserved != v) || (i->lk_pending && i->lk_pending != v) || (i->lk_exclusive && i->lk_exclusive != v)) { count("sql:busy", 1); return SQLITE_BUSY; }
        i->lk_reserved = v; v->lock = l; return SQLITE_OK;
    }
    /* exclusive, through pending */
    if ((i->lk_pending && i->lk_pending != v) || (i->lk_reserved && i->lk_reserved != v) || (i->lk_exclusive && i->lk_exclusive != v)) { count("sql:busy", 1); return SQLITE_BUSY; }
    i->lk_pending = v; if (v->lock < SQLITE_LOCK_PENDING) v->lock = SQLITE_LOCK_PENDING;
    if (i->lk_shared > 1) { count("sql:busy", 1); return SQLITE_BUSY; }
    i->lk_exclusive = v; v->lock = SQLITE_LOCK_EXCLUSIVE; return SQLITE_OK;
}
static int vunlock(sqlite3_file *f, int l) {
    VF *v = (VF *)f; Inode *i = v->ino; sim_call("sqlunlock");
    if (v->lock <= l) return SQLITE_OK;
    if (i->lk_exclusive == v) i->lk_exclusive = NULL;
    if (i->lk_pending == v) i->lk_pending = NULL;
    if (i->lk_reserved == v) i->lk_reserved = NULL;
    if (l == SQLITE_LOCK_NONE) { if (v->lock >= SQLITE_LOCK_SHARED && i->lk_shared > 0) i->lk_shared--; }
    v->lock = l; return SQLITE_OK;
}
static int vcheck(sqlite3_file *f, int *out) { VF *v = (VF *)f; Inode *i = v->ino; *out = i->lk_reserved || i->lk_pending || i->lk_exclusive; return SQLITE_OK; }
static int vfctl(sqlite3_file *f, int op, void *a) { (void)f; (void)op; (void)a; return SQLITE_NOTFOUND; }
static int vsector(sqlite3_file *f) { (void)f; return 512; }
static int vdevch(sqlite3_file *f) { (void)f; return 0; }
static const sqlite3_io_methods iom = {1, vclose, vread, vwrite, vtruncate, vsync, vsize, vlock, vunlock, vcheck, vfctl, vsector, vdevch, 0, 0, 0, 0, 0, 0};

static int vopen(sqlite3_vfs *vf, const char *name, sqlite3_file *f, int flags, int *outfl) {
    (void)vf; VF *v = (VF *)f; memset(v, 0, sizeof *v);
    sim_call("sqlopen");
    if (fault("sqlopen", NULL)) return SQLITE_CANTOPEN;
    char tmp[64]; static int tn;
    if (!name) { snprintf(tmp, sizeof tmp, "/tmp/sqltmp%d", tn++); name = tmp; }
    int err = 0; Inode *par; char last[300]; Inode *i = fs_resolve(name, true, &par, last, &err);
    if (i && i->type == I_DIR) return SQLITE_CANTOPEN;
    if (!i) {
        if (!(flags & SQLITE_OPEN_CREATE) || err != ENOENT || !par) return SQLITE_CANTOPEN;
        int fd0; int __wrap_creat(const char *, mode_t); (void)fd0;
        i = fs_create(name, 0644, &err); if (!i) return SQLITE_CANTOPEN;
    }
    OFD *o = ofd_new(K_FILE); o->ino = i; i->nopen++; o->flags = O_RDWR; o->path = xstrdup(name);
    v->fd = fd_alloc(cur, o); if (v->fd < 0) return SQLITE_CANTOPEN;
    v->ofd = o; v->ino = i; v->owner = cur; v->path = xstrdup(name); v->delclose = flags & SQLITE_OPEN_DELETEONCLOSE; v->live = true;
    v->base.pMethods = &iom; if (nvf < 512) vfs_open[nvf++] = v;
    if (outfl) *outfl = flags;
    return SQLITE_OK;
}
static int vdelete(sqlite3_vfs *vf, const char *name, int dir) { (void)vf; (void)dir; sim_call("sqldelete"); if (fault("sqldelete", NULL)) return SQLITE_IOERR_DELETE; return fs_unlink(name) == 0 ? SQLITE_OK : errno == ENOENT ? SQLITE_IOERR_DELETE_NOENT : SQLITE_IOERR_DELETE; }
static int vaccess(sqlite3_vfs *vf, const char *name, int fl, int *out) { (void)vf; int err; Inode *i = fs_resolve(name, true, NULL, NULL, &err); *out = i != NULL; if (i && fl == SQLITE_ACCESS_EXISTS && i->type == I_REG && i->size == 0) *out = 0; return SQLITE_OK; }
static int vfull(sqlite3_vfs *vf, const char *name, int n, char *out) {
    (void)vf;
    if (name[0] == '/') { snprintf(out, n, "%s", name); return SQLITE_OK; }
    char b[4096]; if (!cur || !fs_path(cur->cwd, b, sizeof b)) return SQLITE_CANTOPEN;
    snprintf(out, n, "%s%s%s", b, strcmp(b, "/") ? "/" : "", name); return SQLITE_OK;
}
static int vrandom(sqlite3_vfs *vf, int n, char *out) { (void)vf; static uint64_t st = 42; for (int i = 0; i < n; i++) out[i] = prng64(&st); return n; }
static bool never(void *a) { (void)a; return false; }
static int vsleep(sqlite3_vfs *vf, int us) { (void)vf; if (us < 1) us = 1; count("sql:sleeps", 1); if (curnode) block_until(never, NULL, now_ns + (uint64_t)us * 1000, "sqlsleep"); return us; }
static int vtime64(sqlite3_vfs *vf, sqlite3_int64 *t) { (void)vf; *t = 24405875 * (sqlite3_int64)8640000 + ((int64_t)now_ns + wall_off_ns) / 1000000; return SQLITE_OK; }
static int vtime(sqlite3_vfs *vf, double *t) { sqlite3_int64 x; vtime64(vf, &x); *t = x / 86400000.0; return SQLITE_OK; }
static int verr(sqlite3_vfs *vf, int n, char *b) { (void)vf; if (n) b[0] = 0; return 0; }
static void *vdl(sqlite3_vfs *vf, const char *s) { (void)vf; (void)s; return NULL; }
static void vdle(sqlite3_vfs *vf, int n, char *b) { (void)vf; if (n) b[0] = 0; }
static void (*vds(sqlite3_vfs *vf, void *p, const char *s))(void) { (void)vf; (void)p; (void)s; return NULL; }
static void vdc(sqlite3_vfs *vf, void *p) { (void)vf; (void)p; }
void sqlvfs_init(void) {
    static bool once; if (once) return;
    once = true;
    sqlite3_config(SQLITE_CONFIG_SINGLETHREAD);
    simvfs = (sqlite3_vfs){2, sizeof(VF), 1024, NULL, "sim", NULL, vopen, vdelete, vaccess, vfull, vdl, vdle, vds, vdc, vrandom, vsleep, vtime, verr, vtime64, NULL, NULL, NULL};
    sqlite3_vfs_register(&simvfs, 1);
}
void sqlvfs_proc_died(Proc *p) {
    for (int k = 0; k < nvf;) { VF *v = vfs_open[k]; if (v->owner == p) { unlock_all(v); v->live = false; vfs_open[k] = vfs_open[--nvf]; } else k++; }
}
void sqlvfs_crash_reset(void) { for (int k = 0; k < nvf;) { VF *v = vfs_open[k]; if (v->owner && v->owner->dead) { unlock_all(v); v->live = false; vfs_open[k] = vfs_open[--nvf]; } else k++; } }
int sqlvfs_open_files(void) { return nvf; }
