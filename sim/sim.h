/* Deterministic simulator for Dictu: shared declarations.
 * One simulated run = one process. Interpreters are threads released one at a time; every external call made by
 * Dictu's objects is redirected here by -Wl,--wrap. All choices come from decide(). */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>

typedef struct _vm DictuVM;

#define MAXFD 512
#define NEVER UINT64_MAX

/* ------------------------------------------------------------------ shared region (survives a crash of the run) */
typedef struct {
    size_t loglen, logcap;
    size_t declen, deccap;
    uint64_t ndec;
    uint64_t schedhash;
    int finished;
    char *log, *dec;
    /* fork hand-over */
    int child_state;            /* 0 running, 1 exec, 2 exit */
    int child_code;
    size_t child_len;
    char child_buf[1 << 18];
} Shared;
extern Shared *shm;

void slog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void raw_log(const char *p, size_t n);
void slog_bytes(const char *tag, const void *p, size_t n);   /* "tag <pct-encoded>\n" */
char *pct(const void *p, size_t n);                            /* malloc'ed percent encoding */
void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void sim_finish(const char *how) __attribute__((noreturn));

/* ------------------------------------------------------------------ decisions */
uint64_t decide(const char *name, uint64_t nalt, uint64_t ppm);   /* 0 = default */
uint64_t opt(const char *name, uint64_t dflt);
/* fault point: returns an errno to inject (0 = none); may shorten *len (never below 1) for "short" */
int fault(const char *call, size_t *len);
uint64_t prng64(uint64_t *state);
uint64_t hash64(const void *p, size_t n, uint64_t h);
void count(const char *name, uint64_t n);
void dump_counts(void);

/* ------------------------------------------------------------------ kernel objects */
typedef enum { I_REG, I_DIR, I_LNK, I_FIFO, I_NULL } IType;
typedef struct Inode Inode;
typedef struct Dirent_ { char *name; Inode *ino; } SimDirent;
typedef struct PendOp { uint64_t off; size_t len; char *data; bool trunc; struct PendOp *next; } PendOp;
struct Inode {
    int id; IType type; unsigned mode; int uid, gid; int nlink, nopen;
    uint64_t mtime;
    char *data; size_t size, cap;
    char *durable; size_t dsize; bool tracked; PendOp *pend, **pendtail;
    SimDirent *ent; int nent, capent; Inode *parent;
    /* advisory lock state for the sqlite VFS */
    int lk_shared; void *lk_reserved, *lk_pending, *lk_exclusive;
};
typedef struct Pipe { int refs; char *buf; size_t head, len, cap; int readers, writers; int id; } Pipe;
typedef struct Sock Sock;
typedef enum { K_FILE, K_PIPER, K_PIPEW, K_SOCK, K_OUT, K_ERR, K_IN, K_DIR } OKind;
typedef struct Proc Proc;
typedef struct OFD {
    OKind kind; int refs; int id; Inode *ino; uint64_t pos; int flags; Pipe *pipe; Sock *sock; Proc *owner; char *path;
    bool childborn;
} OFD;
struct Sock {
    int id; int domain, type; bool bound, listening, connected, wasconnected; uint32_t addr; uint16_t port; uint32_t paddr; uint16_t pport;
    int backlog; struct Sock *queue[64]; int nqueue;
    struct Sock *peer; bool eof, peer_closed, rst, shutw, shutr, closed; int rsterr;
    char *buf; size_t len, cap; uint64_t sent, rcvd; bool reuse, nonblock;
    uint64_t rcvtimeo;
};

typedef struct Action { char *op; char *a1, *a2; } Action;
typedef struct Prog { char *name; Action *act; int nact; struct Prog *next; } Prog;
typedef struct Node Node;
struct Proc {
    int pid, ppid; char *name;
    OFD *fd[MAXFD]; bool cloexec[MAXFD];
    Inode *cwd; Node *node; Prog *prog; char **argv; char **envp;
    int pc; size_t progress; uint64_t wake; bool started;
    bool dead, reaped; int status; int killsig;
    int phase; int reg; /* socket register of scripted peers */
    bool sigpipe_ign; void *sigchld;
    struct Proc *next;
};
typedef struct Chunk { char *data; size_t len; uint64_t delay_ms; } Chunk;
typedef struct Item { char *mod, *src; } Item;
typedef struct FileRec { FILE *f; int fd; bool live; struct FileRec *next; } FileRec;
struct Node {
    int id; int phase; bool embed; char *cwdpath; char **argv; int argc; bool usecmd;
    Chunk *in; int nin; int curin; size_t inpos; bool in_tty; bool in_open; bool out_tty; int out_buf;
    Item *items; int nitems;
    Proc *proc; DictuVM *vm;
    pthread_t th; sem_t sem; int state; /* 0 new 1 runnable 2 blocked 3 done */
    bool (*cond)(void *); void *condarg; uint64_t deadline; const char *waiting; bool timedout;
    bool crashed; int exitcode; int exitsig; bool haltleak;
    FILE *out, *err, *inf;
    char *obuf; size_t olen, ocap; char *ebuf; size_t elen, ecap;
    char **environ_;
    FileRec *files;
    uint64_t calls; uint64_t cpu; bool repl;
    uint64_t randstate; int iterm;
    struct Node *next;
};
extern Node *nodes; extern int nnodes; extern Proc *procs; extern Prog *progs;
extern Node *curnode; extern Proc *cur; extern bool in_child; extern bool sim_active;
extern uint64_t now_ns; extern int64_t wall_off_ns;

void sim_call(const char *name);                 /* every wrapped call starts here: time, kill points, yields */
bool block_until(bool (*cond)(void *), void *arg, uint64_t deadline, const char *what); /* false = timed out */
void node_exit(int code, int sig) __attribute__((noreturn));
void proc_die(Proc *p, int status);
void proc_close_all(Proc *p);
Proc *proc_new(int ppid);
int fd_alloc(Proc *p, OFD *o);
OFD *ofd_new(OKind k);
void ofd_unref(OFD *o);
OFD *fdget(int fd);
int sim_close_fd(Proc *p, int fd);
ssize_t ofd_write(Proc *p, OFD *o, const void *buf, size_t n, bool blocking);
void node_output(Node *n, int which, const void *buf, size_t len);
void apply_child(Proc *child);
void log_fds(const char *why, Proc *p);
void append_child(const void *p, size_t n);

/* fs */
void fs_init(void);
Inode *fs_resolve(const char *path, bool follow, Inode **parent, char *last, int *err);
Inode *fs_put_file(const char *path, const void *data, size_t len, unsigned mode);
Inode *fs_put_dir(const char *path, unsigned mode);
void fs_load_real(const char *real, const char *simp);
void fs_dump(const char *prefix);
void inode_write(Inode *i, uint64_t off, const void *p, size_t n);
void inode_truncate(Inode *i, uint64_t n);
void inode_sync(Inode *i);
void fs_powerloss(void);
char *fs_path(Inode *i, char *buf, size_t n);
Inode *fs_create(const char *path, unsigned mode, int *err);
int fs_unlink(const char *path);
void mark_hook(const char *what);
int file_is_live(FILE *f);
void node_streams(Node *n);
void node_flush_all(Node *n, bool close);

/* net */
void sock_close(Sock *s);
ssize_t sock_send(Sock *s, const void *b, size_t n, int flags, bool *wouldblock);
ssize_t sock_recv(Sock *s, void *b, size_t n, bool *wouldblock);
int sock_listen_find(uint16_t port, Sock **out);
int peer_connect(Proc *p, uint16_t port);
bool sock_readable(void *s);
bool sock_writable(void *s);

/* alloc ledger */
void ledger_report(int node);
size_t ledger_live(int node, size_t *blocks);
extern bool ledger_on;

/* http stub, sqlite vfs */
void http_add(const char *line);
void sqlvfs_init(void);
void sqlvfs_crash_reset(void);
int sqlvfs_open_files(void);
void http_report(void);

char *xstrdup(const char *s);
size_t unpct(char *s);          /* in place; returns length */
#endif
