#include "sim.h"
#include <poll.h>
#include <sys/select.h>
#include <sys/un.h>
/* Loopback stream network: listening queues, byte streams with bounded buffers, orderly close, reset, refused connections.
 * Datagram sockets exist but carry nothing. */
static Sock *socks[256]; static int nsocks, nextsock = 1, nextport = 40000;

void sock_register(Sock *s) { s->id = nextsock++; if (nsocks < 256) socks[nsocks++] = s; }
static Sock *sock_new(int domain, int type) { Sock *s = calloc(1, sizeof *s); s->domain = domain; s->type = type; sock_register(s); return s; }
static size_t bufcap(void) { return opt("sockbuf", 4096); }
int sock_listen_find(uint16_t port, Sock **out) {
    for (int i = 0; i < nsocks; i++) if (!socks[i]->closed && socks[i]->listening && socks[i]->port == port) { if (out) *out = socks[i]; return 1; }
    return 0;
}
static bool bound_taken(uint16_t port) { for (int i = 0; i < nsocks; i++) if (!socks[i]->closed && socks[i]->bound && !socks[i]->wasconnected && socks[i]->port == port) return true; return false; }
bool sock_readable(void *a) {
    Sock *s = a;
    if (s->closed || s->rst || s->rsterr || s->shutr) return true;
    if (s->listening) return s->nqueue > 0;
    if (!s->wasconnected) return true;
    if (opt("netlag_ppm", 0) && s->len == 0) return s->peer_closed;
    return s->len > 0 || s->peer_closed;
}
bool sock_writable(void *a) {
    Sock *s = a;
    if (s->closed || s->rst || s->shutw || !s->wasconnected || !s->peer) return true;
    return s->peer->len < bufcap();
}
ssize_t sock_send(Sock *s, const void *b, size_t n, int flags, bool *wb) {
    (void)flags; *wb = false;
    if (s->type == SOCK_DGRAM) { errno = EDESTADDRREQ; return -1; }
    if (s->listening || (!s->wasconnected)) { errno = s->type == SOCK_STREAM ? EPIPE : ENOTCONN; return -1; }
    if (s->rst) { if (!s->rsterr) { s->rsterr = 1; errno = ECONNRESET; return -1; } errno = EPIPE; return -1; }
    if (s->shutw) { errno = EPIPE; return -1; }
    if (!s->peer) { /* the first write after the peer went away is accepted by the kernel and answered with a reset */
        s->rst = true; s->rsterr = 1; count("net:lost-write", 1); return n;
    }
    Sock *p = s->peer;
    size_t sp = bufcap() > p->len ? bufcap() - p->len : 0;
    if (!sp) { *wb = true; errno = EAGAIN; return -1; }
    if (n > sp) n = sp;
    if (p->len + n > p->cap) { p->cap = p->len + n + 4096; p->buf = realloc(p->buf, p->cap); }
    memcpy(p->buf + p->len, b, n); p->len += n; s->sent += n; p->rcvd += n;
    count("net:bytes", n);
    return n;
}
ssize_t sock_recv(Sock *s, void *b, size_t n, bool *wb) {
    *wb = false;
    if (s->listening || !s->wasconnected) { errno = ENOTCONN; return -1; }
    if (s->shutr) return 0;
    if (!s->len && s->rst) { if (s->rsterr) return 0; s->rsterr = 1; errno = ECONNRESET; return -1; }
    if (!s->len) { if (s->peer_closed) return 0; *wb = true; errno = EAGAIN; return -1; }
    size_t k = s->len < n ? s->len : n;
    if (k > 1) { uint64_t c = decide("recvchunk", k, opt("chunk_ppm", 0)); if (c) k = c; }
    memcpy(b, s->buf, k); memmove(s->buf, s->buf + k, s->len - k); s->len -= k;
    return k;
}
void sock_close(Sock *s) {
    if (s->closed) return;
    s->closed = true;
    if (s->peer) {
        if (s->len && !s->rst) { s->peer->rst = true; count("net:reset-unread", 1); }
        s->peer->peer_closed = true; s->peer->peer = NULL;
    }
    for (int i = 0; i < s->nqueue; i++) { Sock *q = s->queue[i]; q->closed = true; if (q->peer) { q->peer->rst = true; q->peer->peer_closed = true; q->peer->peer = NULL; } }
    s->nqueue = 0;
    slog("EV sock %d closed", s->id);
}
static Sock *pair_up(Sock *client, Sock *l) {
    Sock *srv = sock_new(l->domain, SOCK_STREAM);
    srv->connected = srv->wasconnected = srv->bound = true; srv->port = l->port; srv->addr = l->addr ? l->addr : htonl(INADDR_LOOPBACK);
    client->connected = client->wasconnected = true;
    if (!client->bound) { client->bound = true; client->port = nextport++; client->addr = htonl(INADDR_LOOPBACK); }
    client->paddr = srv->addr; client->pport = srv->port; srv->paddr = client->addr; srv->pport = client->port;
    client->peer = srv; srv->peer = client;
    l->queue[l->nqueue++] = srv;
    return srv;
}
int peer_connect(Proc *p, uint16_t port) {
    Sock *l; if (!sock_listen_find(port, &l) || l->nqueue >= l->backlog || l->nqueue >= 60) return 0;
    Sock *c = sock_new(AF_INET, SOCK_STREAM);
    pair_up(c, l);
    if (p->fd[4]) { OFD *o = p->fd[4]; p->fd[4] = NULL; ofd_unref(o); }
    OFD *o = ofd_new(K_SOCK); o->sock = c; o->refs = 1; p->fd[4] = o;
    slog("EV peer pid=%d connected", p->pid);
    return 1;
}
static Sock *sget(int fd) { OFD *o = fdget(fd); if (!o) return NULL; if (o->kind != K_SOCK) { errno = ENOTSOCK; return NULL; } return o->sock; }
#define FLT(n) do { int e_ = fault(n, NULL); if (e_) { errno = e_; return -1; } } while (0)
int __wrap_socket(int d, int t, int pr) {
    (void)pr; sim_call("socket"); FLT("socket");
    int ty = t & 0xf;
    if (d != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (ty == SOCK_RAW) { errno = EPROTONOSUPPORT; return -1; }
    if (ty != SOCK_STREAM && ty != SOCK_DGRAM) { errno = ty == SOCK_SEQPACKET ? ESOCKTNOSUPPORT : EINVAL; return -1; }
    Sock *s = sock_new(d, ty); if (t & SOCK_NONBLOCK) s->nonblock = true;
    OFD *o = ofd_new(K_SOCK); o->sock = s; o->owner = cur;
    int fd = fd_alloc(cur, o); slog("EV socket fd=%d id=%d", fd, s->id); return fd;
}
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t l) {
    sim_call("bind"); Sock *s = sget(fd); if (!s) return -1; FLT("bind");
    if (l < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
    const struct sockaddr_in *in = (const void *)sa;
    if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (s->bound) { errno = EINVAL; return -1; }
    uint32_t a = ntohl(in->sin_addr.s_addr);
    if (a != 0 && (a >> 24) != 127) { errno = EADDRNOTAVAIL; return -1; }
    uint16_t port = ntohs(in->sin_port);
    if (port == 0) port = nextport++;
    else if (bound_taken(port)) { errno = EADDRINUSE; return -1; }
    s->bound = true; s->addr = in->sin_addr.s_addr; s->port = port; return 0;
}
int __wrap_listen(int fd, int bl) {
    sim_call("listen"); Sock *s = sget(fd); if (!s) return -1; FLT("listen");
    if (s->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; }
    if (s->wasconnected) { errno = EINVAL; return -1; }
    if (!s->bound) { s->bound = true; s->port = nextport++; }
    s->listening = true; s->backlog = bl < 1 ? 1 : bl > 60 ? 60 : bl; slog("EV listen id=%d port=%d", s->id, s->port); return 0;
}
int __wrap_accept4(int fd, struct sockaddr *sa, socklen_t *l, int fl) {
    sim_call("accept"); Sock *s = sget(fd); if (!s) return -1; FLT("accept");
    if (s->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; }
    if (!s->listening) { errno = EINVAL; return -1; }
    while (!s->nqueue) {
        if (s->nonblock) { errno = EAGAIN; return -1; }
        block_until(sock_readable, s, NEVER, "accept");
        if (s->closed) { errno = EBADF; return -1; }
    }
    Sock *c = s->queue[0];
    OFD *o = ofd_new(K_SOCK); o->sock = c; o->owner = cur; int nfd = fd_alloc(cur, o); if (nfd < 0) return -1;
    memmove(s->queue, s->queue + 1, sizeof(Sock *) * --s->nqueue);
    if (fl & SOCK_NONBLOCK) c->nonblock = true;
    if (sa && l) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(c->pport); in.sin_addr.s_addr = c->paddr; memcpy(sa, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
    slog("EV accept fd=%d id=%d", nfd, c->id); count("net:accepted", 1);
    return nfd;
}
int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *l) { return __wrap_accept4(fd, sa, l, 0); }
typedef struct CArg { uint16_t port; } CArg;
static bool conn_ready(void *a) { CArg *c = a; Sock *l; return !sock_listen_find(c->port, &l) || l->nqueue < l->backlog; }
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t len) {
    sim_call("connect"); Sock *s = sget(fd); if (!s) return -1; FLT("connect");
    if (len < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
    const struct sockaddr_in *in = (const void *)sa;
    if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (s->type == SOCK_DGRAM) { s->paddr = in->sin_addr.s_addr; return 0; }
    if (s->listening) { errno = EISCONN; return -1; }
    if (s->wasconnected) { errno = EISCONN; return -1; }
    uint32_t a = ntohl(in->sin_addr.s_addr);
    if (a == 0xffffffffu) { errno = ENETUNREACH; return -1; }
    if (a != 0 && (a >> 24) != 127) { errno = ENETUNREACH; return -1; }
    CArg c = {ntohs(in->sin_port)}; Sock *l;
    /* a client that starts before its server waits a little (retries are the scheduler's business) */
    if (!sock_listen_find(c.port, &l)) { errno = ECONNREFUSED; return -1; }
    while (l->nqueue >= l->backlog) { block_until(conn_ready, &c, now_ns + 60000000000ull, "connect"); if (!sock_listen_find(c.port, &l)) { errno = ECONNREFUSED; return -1; } if (l->nqueue >= l->backlog) { errno = ETIMEDOUT; return -1; } }
    pair_up(s, l); slog("EV connect fd=%d id=%d", fd, s->id); count("net:connected", 1);
    return 0;
}
static int pipe_sig(int flags) {
    if (!(flags & MSG_NOSIGNAL) && cur->node && !cur->sigpipe_ign && !in_child) { slog("EV node=%d SIGPIPE", cur->node->id); node_exit(0, SIGPIPE); }
    errno = EPIPE; return -1;
}
ssize_t net_send(int fd, const void *b, size_t n, int flags) {
    Sock *s = sget(fd); if (!s) return -1;
    size_t lim = n; int e = fault("send", &lim);
    if (e) { if (e == EPIPE) return pipe_sig(flags); errno = e; return -1; }
    if (n == 0) { if (s->rst || s->shutw || !s->wasconnected) return pipe_sig(flags); return 0; }
    bool partial = lim < n;
    size_t done = 0;
    while (done < lim) {
        bool wb; ssize_t r = sock_send(s, (const char *)b + done, lim - done, flags, &wb);
        if (r < 0 && wb) {
            if (s->nonblock || (flags & MSG_DONTWAIT)) { if (done) break; errno = EAGAIN; return -1; }
            block_until(sock_writable, s, NEVER, "sock-write"); continue;
        }
        if (r < 0) { if (done) break; if (errno == EPIPE) return pipe_sig(flags); return -1; }
        done += r;
    }
    (void)partial;
    return done;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) { sim_call("send"); return net_send(fd, b, n, flags); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return __wrap_send(fd, b, n, flags); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags) { ssize_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { ssize_t r = __wrap_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags); if (r < 0) return t ? t : r; t += r; if ((size_t)r < m->msg_iov[i].iov_len) break; } return t; }
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) {
    sim_call("recv"); Sock *s = sget(fd); if (!s) return -1;
    size_t lim = n; int e = fault("recv", &lim); if (e) { errno = e; return -1; }
    if (s->type == SOCK_DGRAM) { errno = EAGAIN; return -1; }
    if (s->listening || !s->wasconnected) { errno = ENOTCONN; return -1; }
    if (n == 0) { return 0; }
    size_t got = 0;
    for (;;) {
        bool wb; ssize_t r = sock_recv(s, (char *)b + got, lim - got, &wb);
        if (r >= 0) {
            if (flags & MSG_PEEK) return r;
            got += r;
            if ((flags & MSG_WAITALL) && r > 0 && got < lim) continue;
            return got;
        }
        if (!wb) { if (got) return got; return -1; }
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        block_until(sock_readable, s, NEVER, "sock-recv");
    }
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return __wrap_recv(fd, b, n, flags); }
int __wrap_shutdown(int fd, int how) {
    sim_call("shutdown"); Sock *s = sget(fd); if (!s) return -1; FLT("shutdown");
    if (!s->wasconnected) { errno = ENOTCONN; return -1; }
    if (how != SHUT_WR) s->shutr = true;
    if (how != SHUT_RD) { s->shutw = true; if (s->peer) s->peer->peer_closed = true; }
    return 0;
}
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
    (void)l; sim_call("setsockopt"); Sock *s = sget(fd); if (!s) return -1; FLT("setsockopt");
    if (lv != SOL_SOCKET && lv != IPPROTO_TCP) { errno = ENOPROTOOPT; return -1; }
    if (lv == SOL_SOCKET && (o < 1 || o > 80)) { errno = ENOPROTOOPT; return -1; }
    if (lv == SOL_SOCKET && o == SO_REUSEADDR) s->reuse = *(const int *)v;
    return 0;
}
int __wrap_getsockopt(int fd, int lv, int o, void *v, socklen_t *l) { (void)lv; (void)o; Sock *s = sget(fd); if (!s) return -1; if (v && l && *l >= sizeof(int)) { *(int *)v = 0; *l = sizeof(int); } return 0; }
static int nm(uint32_t a, uint16_t p, struct sockaddr *sa, socklen_t *l) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(p); in.sin_addr.s_addr = a; memcpy(sa, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; return 0; }
int __wrap_getsockname(int fd, struct sockaddr *sa, socklen_t *l) { Sock *s = sget(fd); if (!s) return -1; return nm(s->addr, s->port, sa, l); }
int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *l) { Sock *s = sget(fd); if (!s) return -1; if (!s->wasconnected) { errno = ENOTCONN; return -1; } return nm(s->paddr, s->pport, sa, l); }
static short ready(int fd, short ev) {
    OFD *o = fd >= 0 && fd < MAXFD ? cur->fd[fd] : NULL; if (!o) return POLLNVAL;
    short r = 0;
    if (o->kind == K_SOCK) { if ((ev & POLLIN) && sock_readable(o->sock)) r |= POLLIN; if ((ev & POLLOUT) && sock_writable(o->sock)) r |= POLLOUT; return r; }
    if (o->kind == K_PIPER) { if ((ev & POLLIN) && o->pipe->len) r |= POLLIN; if (!o->pipe->writers) r |= POLLHUP; return r; }
    if (o->kind == K_IN) { Node *n = o->owner->node; if ((ev & POLLIN) && (n->curin < n->nin || !n->in_open)) r |= POLLIN; return r; }
    return ev & (POLLIN | POLLOUT);
}
typedef struct PArg { struct pollfd *f; nfds_t n; } PArg;
static bool poll_any(void *a) { PArg *p = a; for (nfds_t i = 0; i < p->n; i++) if (ready(p->f[i].fd, p->f[i].events)) return true; return false; }
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) {
    sim_call("poll"); FLT("poll");
    PArg a = {f, n}; if (!poll_any(&a) && ms) block_until(poll_any, &a, ms < 0 ? NEVER : now_ns + (uint64_t)ms * 1000000, "poll");
    int c = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = ready(f[i].fd, f[i].events); if (f[i].revents) c++; } return c;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    struct pollfd f[64]; int k = 0; for (int i = 0; i < n && k < 64; i++) { short e = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0); if (e) { f[k].fd = i; f[k++].events = e; } }
    int c = __wrap_poll(f, k, tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1); if (c < 0) return c;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); c = 0;
    for (int i = 0; i < k; i++) { if (f[i].revents & (POLLIN | POLLHUP) && r) { FD_SET(f[i].fd, r); c++; } if (f[i].revents & POLLOUT && w) { FD_SET(f[i].fd, w); c++; } }
    return c;
}
