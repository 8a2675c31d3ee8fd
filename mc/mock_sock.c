// TCP sockets under control of the explorer. Byte streams are reliable and
// ordered; when data, connections and end-of-stream become visible, and how
// streams are cut into reads, is decided by scheduling and by choices.
#include "rtpriv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>

#define MAXFD 128
#define MAXEP 1024
#define MAXPEND 64
typedef struct { int used, rank, fd, peer, closed, nb; char* rx; int len, pos, cap; int rst, reset; } Ep;
static Ep ep[MAXEP]; static int neps;
enum { F_NONE, F_RAW, F_LISTEN, F_CONN };
typedef struct { int type, port, reuse, ep, npend, pend[MAXPEND], backlog, nb; } Fd;
static Fd fdt[RT_MAXRANKS][MAXFD];
static int nextport[RT_MAXRANKS];
static int sigpipe_ignored[RT_MAXRANKS];
static int infos[RT_MAXRANKS];
extern uint64_t rt_env_hash;
#define MAXNAMES 64
static char names[MAXNAMES][112]; static int nnames;

void mock_sock_reset(void) {
    for (int i = 0; i < neps; i++) free(ep[i].rx);
    memset(ep, 0, sizeof(Ep) * (neps + 1)); neps = 0;
    memset(fdt, 0, sizeof fdt); memset(sigpipe_ignored, 0, sizeof sigpipe_ignored); memset(infos, 0, sizeof infos);
    nnames = 0;
    for (int i = 0; i < RT_MAXRANKS; i++) nextport[i] = 40000 + 100 * i;
}
int mock_sock_endcheck(char* key, char* msg) { (void)key; (void)msg; return 0; }
static int gone(int r) { return rt_ranks[r].state == RS_DONE || rt_ranks[r].state == RS_EXITED; }
static int multihost(void) { return rt_scen->sock_opts & 1; }
static int hostof(int r) { return multihost() ? rt_scen->sock_host[r] : 0; }
static void envhash(void) { // order of connection requests is not implied by the histories of the processes
    uint64_t h = 0;
    for (int r = 0; r < rt_scen->nranks; r++) for (int f = 3; f < MAXFD; f++) if (fdt[r][f].type == F_LISTEN && fdt[r][f].npend) {
        h = rt_hash(h + r * 1000 + f, 0, 0);
        for (int i = 0; i < fdt[r][f].npend; i++) { Ep* e = &ep[ep[fdt[r][f].pend[i]].peer]; int v[2] = { e->rank, e->fd }; h = rt_hash(h, v, sizeof v); }
    }
    rt_env_hash = h;
}
static Fd* F(int fd, const char* what) {
    if (fd < 3 || fd >= MAXFD || fdt[rt_cur][fd].type == F_NONE) { char k[100]; snprintf(k, sizeof k, "sock:bad-fd:%s", what); rt_fail(k, "%s on file descriptor %d which is not open", what, fd); }
    return &fdt[rt_cur][fd];
}
static int newfd(void) {
    for (int f = 3; f < MAXFD; f++) if (fdt[rt_cur][f].type == F_NONE) { memset(&fdt[rt_cur][f], 0, sizeof(Fd)); return f; }
    rt_fail("sock:too-many-fds", "more than %d file descriptors open", MAXFD);
}
static int eof(Ep* e) { return e->peer < 0 || ep[e->peer].closed || gone(ep[e->peer].rank); }
static int readable(int rank, int fd) {
    Fd* f = &fdt[rank][fd];
    if (f->type == F_LISTEN) return f->npend > 0;
    if (f->type == F_CONN) { Ep* e = &ep[f->ep]; return e->len > e->pos || eof(e) || e->rst; }
    return 0;
}
// abstract names of UNIX sockets are mapped to ports
static int nameport(const struct sockaddr* a, socklen_t n) {
    const struct sockaddr_un* u = (const void*)a; char t[112]; memset(t, 0, sizeof t);
    if (n < 4 || n > sizeof *u || u->sun_path[0]) rt_fail("sock:bad-address", "invalid UNIX socket address");
    snprintf(t, sizeof t, "%d:%.*s", (int)n - 3, (int)n - 3, u->sun_path + 1);
    for (int i = 0; i < nnames; i++) if (!strcmp(names[i], t)) return 50000 + i;
    if (nnames >= MAXNAMES) rt_fail("sock:too-many-names", "too many addresses");
    strcpy(names[nnames++], t); return 50000 + nnames - 1;
}
int __wrap_socket(int d, int t, int p) {
    (void)t; (void)p;
    if (d != AF_INET && !(d == AF_UNIX && rt_scen->threads)) { errno = EAFNOSUPPORT; return -1; }
    int fd = newfd(); fdt[rt_cur][fd].type = F_RAW; return fd;
}
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) {
    (void)n; Fd* f = F(fd, "setsockopt");
    if (l == SOL_SOCKET && o == SO_REUSEADDR) f->reuse = *(const int*)v;
    return 0;
}
int __wrap_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { (void)l; (void)o; F(fd, "getsockopt"); if (*n >= 4) { *(int*)v = 0; *n = 4; } return 0; }
// Linux: two sockets may be bound to the same port if both allow reuse and
// none is listening
static int conflict(Fd* me, int port, int listening) {
    for (int r = 0; r < rt_scen->nranks; r++) {
        if (gone(r) || hostof(r) != hostof(rt_cur)) continue;
        for (int q = 3; q < MAXFD; q++) {
            Fd* f = &fdt[r][q];
            if (f == me || f->port != port || f->type == F_CONN || f->type == F_NONE) continue;
            if (f->type == F_LISTEN) return 1;
            if (!listening && !(f->reuse && me->reuse)) return 1;
        }
    }
    return 0;
}
static int freeport(Fd* me) { int p; do p = nextport[rt_cur]++; while (conflict(me, p, 0)); return p; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t n) {
    (void)n; Fd* f = F(fd, "bind"); const struct sockaddr_in* s = (const void*)a;
    rt_yield("bind");
    uint32_t ip = ntohl(s->sin_addr.s_addr); int port = ntohs(s->sin_port);
    if (a->sa_family == AF_UNIX) { ip = 0; port = nameport(a, n); }
    int r = 0;
    if (ip != 0 && ip != 0x7f000001 && ip != 0x0a000000u + hostof(rt_cur) + 1) r = EADDRNOTAVAIL;
    else if (f->port) r = EINVAL;
    else if (port && conflict(f, port, 0)) r = EADDRINUSE;
    if (!r) f->port = port ? port : freeport(f);
    rt_event(0xB100 + r); rt_log("bind fd %d port %d: %s", fd, port, r ? strerror(r) : "ok");
    if (r) { errno = r; return -1; }
    return 0;
}
int __wrap_listen(int fd, int b) {
    Fd* f = F(fd, "listen");
    rt_yield("listen");
    if (!f->port) f->port = freeport(f);
    else if (conflict(f, f->port, 1)) { rt_event(0xB201); errno = EADDRINUSE; rt_log("listen on port %d: in use", f->port); return -1; }
    f->type = F_LISTEN; f->backlog = b; rt_event(0xB202); rt_log("listening at port %d", f->port);
    return 0;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* n) {
    Fd* f = F(fd, "getsockname"); struct sockaddr_in s = { 0 };
    s.sin_family = AF_INET; s.sin_port = htons(f->port); s.sin_addr.s_addr = htonl(f->type == F_CONN ? 0x7f000001 : 0);
    memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* n) {
    Fd* f = F(fd, "getpeername"); if (f->type != F_CONN) { errno = ENOTCONN; return -1; }
    struct sockaddr_in s = { 0 }; s.sin_family = AF_INET; s.sin_port = htons(1); s.sin_addr.s_addr = htonl(0x7f000001);
    memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; return 0;
}
static int newep(int rank, int fd) {
    if (neps >= MAXEP - 1) rt_fail("sock:too-many-connections", "more than %d connection endpoints", MAXEP);
    ep[neps] = (Ep){ .used = 1, .rank = rank, .fd = fd, .peer = -1 };
    return neps++;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n) {
    (void)n; Fd* f = F(fd, "connect"); const struct sockaddr_in* s = (const void*)a;
    int port = ntohs(s->sin_port); uint32_t ip = ntohl(s->sin_addr.s_addr);
    if (a->sa_family == AF_UNIX) { ip = 0; port = nameport(a, n); }
    if (f->type != F_RAW) { errno = EISCONN; return -1; }
    int host = ip == 0x7f000001 || ip == 0 ? hostof(rt_cur) : (int)(ip - 0x0a000000u) - 1;
    rt_yield("connect");
    for (int r = 0; r < rt_scen->nranks; r++) {
        if (gone(r) || hostof(r) != host) continue;
        for (int q = 3; q < MAXFD; q++) {
            Fd* l = &fdt[r][q];
            if (l->type != F_LISTEN || l->port != port) continue;
            if (l->npend >= MAXPEND) rt_fail("sock:too-many-connections", "connection queue overflow");
            int e1 = newep(rt_cur, fd), e2 = newep(r, -1);
            ep[e1].peer = e2; ep[e2].peer = e1;
            l->pend[l->npend++] = e2; f->type = F_CONN; f->ep = e1; envhash();
            rt_event(0xC000 + port); rt_log("connected fd %d to rank %d port %d", fd, r, port);
            return 0;
        }
    }
    rt_event(0xC001); rt_log("connect to port %d refused", port);
    errno = ECONNREFUSED; return -1;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) {
    Fd* f = F(fd, "accept");
    if (f->type != F_LISTEN) { errno = EINVAL; return -1; }
    if (!f->npend) { if (f->nb) { errno = EAGAIN; return -1; } rt_fail("sock:blocking-accept", "accept without a pending connection blocks"); }
    int e = f->pend[0]; memmove(f->pend, f->pend + 1, sizeof(int) * --f->npend);
    if ((rt_scen->sock_opts & 4) && eof(&ep[e]) && rt_choose(2, 1)) { // connection aborted before it was accepted
        ep[e].closed = 1; envhash(); rt_event(0xACA); rt_log("accept: connection aborted"); errno = ECONNABORTED; return -1; }
    int nf = newfd(); fdt[rt_cur][nf].type = F_CONN; fdt[rt_cur][nf].ep = e; fdt[rt_cur][nf].port = f->port; ep[e].fd = nf; envhash();
    int v[3] = { nf, ep[ep[e].peer].rank, ep[ep[e].peer].fd }; rt_event(rt_hash(0xACC, v, sizeof v));
    rt_log("accepted fd %d from rank %d", nf, v[1]);
    if (a && n) { struct sockaddr_in s = { 0 }; s.sin_family = AF_INET; s.sin_port = htons(1); s.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; }
    return nf;
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) { (void)fl; return __wrap_accept(fd, a, n); }
static void chkread(const char* w, const void* p, size_t n) {
    if (n && rt_mem_ok(p, n) == 0) { char k[100]; snprintf(k, sizeof k, "mem:out-of-bounds:%s", w); rt_fail(k, "%s uses %zu bytes outside of allocated memory", w, n); }
}
typedef struct { int rank, fd; } Wa;
static int wpred(void* a) {
    Wa* w = a; Fd* f = &fdt[w->rank][w->fd]; Ep* e = &ep[f->ep]; Ep* p = &ep[e->peer];
    return eof(e) || p->len - p->pos < rt_scen->sock_cap;
}
static ssize_t do_write(int fd, const void* b, size_t n, int nosig, const char* w, int nb) {
    Fd* f = F(fd, w); nb |= f->nb; chkread(w, b, n);
    if (f->type != F_CONN) { errno = ENOTCONN; return -1; }
    if (n == 0) return 0;
    if (!rt_scen->threads || (rt_scen->sock_opts & 8)) rt_yield(w);
    Ep* e = &ep[f->ep]; size_t done = 0;
    size_t want = n;
    if ((rt_scen->sock_opts & 2) && n > 1) { // short writes
        int c = rt_choose(n <= 24 ? (int)n : 24, 1);
        if (c) want = n <= 24 ? c : c <= 12 ? c : n - (24 - c);
    }
    while (done < want) {
        if (eof(e)) {
            // the peer closed: accepted by the kernel and lost, or an error
            int er = e->rst ? 1 : rt_choose(2, 1); rt_event(0xE0 + er);
            if (!er) { e->rst = 1; return want; }
            if (!nosig && !sigpipe_ignored[rt_cur]) rt_fail("sock:sigpipe", "process killed by SIGPIPE");
            errno = EPIPE; return -1;
        }
        Ep* p = &ep[e->peer]; size_t k = want - done;
        if (rt_scen->sock_cap) {
            long room = rt_scen->sock_cap - (p->len - p->pos);
            if (room <= 0 && nb) { if (done) return done; rt_event(0xEA6); errno = EAGAIN; return -1; }
            if (room <= 0) { Wa a = { rt_cur, fd }; rt_block(wpred, &a, "write (send buffer full)"); continue; }
            if ((long)k > room) k = room;
        }
        if (p->len + (int)k > p->cap) {
            if (p->pos > 0) { memmove(p->rx, p->rx + p->pos, p->len - p->pos); p->len -= p->pos; p->pos = 0; }
            if (p->len + (int)k > p->cap) { p->cap = (p->len + k) * 2 + 256; p->rx = realloc(p->rx, p->cap); }
        }
        memcpy(p->rx + p->len, (const char*)b + done, k); p->len += k; done += k;
    }
    if (rt_verbose) { char t[121]; int m = want < 120 ? want : 120; for (int i = 0; i < m; i++) { unsigned char c = ((const char*)b)[i]; t[i] = c >= 32 && c < 127 ? c : '.'; } t[m] = 0; rt_log("write fd %d (to rank %d) %zu bytes: %s", fd, ep[e->peer].rank, want, t); }
    return want;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (fd == 1 || fd == 2) return n; return do_write(fd, b, n, 0, "write", 0); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { return do_write(fd, b, n, fl & MSG_NOSIGNAL, "send", fl & MSG_DONTWAIT); }
static ssize_t do_read(int fd, void* b, size_t n, const char* w, int peek, int nb) {
    Fd* f = F(fd, w);
    if (f->type != F_CONN) { errno = ENOTCONN; return -1; }
    Ep* e = &ep[f->ep];
    if (!readable(rt_cur, fd)) { if (f->nb || nb) { errno = EAGAIN; return -1; }
        rt_fail("sock:blocking-read", "%s of a descriptor without data blocks the event loop", w); }
    if (n == 0) return 0;
    if (e->len == e->pos && !e->reset && e->peer >= 0 && ep[e->peer].len > ep[e->peer].pos) {
        // the peer closed without having read everything: reported once as error
        e->reset = 1; rt_event(0xE0E); rt_log("read fd %d: connection reset", fd); errno = ECONNRESET; return -1; }
    if (e->len == e->pos) { rt_event(0xE0F); rt_log("read fd %d: end", fd); return 0; }
    size_t k = e->len - e->pos; if (k > n) k = n;
    int c = rt_scen->sock_chunk;
    if (c > 0 && k > (size_t)c) k = c;
    if (c < 0 && k > 1) {
        int lim = -c, q = k <= (size_t)lim ? (int)k : lim;
        int o = rt_choose(q, 1);
        if (o) k = q == (int)k ? (size_t)o : o <= lim / 2 ? (size_t)o : k - (lim - o);
    }
    chkread(w, b, k);
    memcpy(b, e->rx + e->pos, k); if (!peek) e->pos += k;
    rt_event(rt_hash(0x5EAD + fd, b, k));
    if (rt_verbose) { char t[121]; int m = k < 120 ? k : 120; for (int i = 0; i < m; i++) { unsigned char ch = ((char*)b)[i]; t[i] = ch >= 32 && ch < 127 ? ch : '.'; } t[m] = 0; rt_log("read fd %d (from rank %d) %zu bytes: %s", fd, ep[e->peer].rank, k, t); }
    return k;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return do_read(fd, b, n, "read", 0, 0); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { return do_read(fd, b, n, "recv", fl & MSG_PEEK, fl & MSG_DONTWAIT); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
    size_t n = 0; for (int i = 0; i < c; i++) { chkread("writev", v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
    char* t = malloc(n + 1); size_t o = 0; for (int i = 0; i < c; i++) { memcpy(t + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = do_write(fd, t, n, 0, "writev", 0); free(t); return r;
}
int __wrap_close(int fd) {
    Fd* f = F(fd, "close");
    if (!rt_scen->threads || (rt_scen->sock_opts & 8)) rt_yield("close");
    if (f->type == F_CONN) { ep[f->ep].closed = 1; }
    if (f->type == F_LISTEN) for (int i = 0; i < f->npend; i++) ep[f->pend[i]].closed = 1;
    f->type = F_NONE; f->port = 0; f->npend = 0; envhash(); rt_log("close fd %d", fd);
    return 0;
}
int __wrap_shutdown(int fd, int how) { Fd* f = F(fd, "shutdown"); if (f->type == F_CONN && how != SHUT_RD) ep[f->ep].closed = 1; return 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); Fd* f = F(fd, "fcntl");
    if (cmd == F_GETFL) return f->nb ? O_NONBLOCK | O_RDWR : O_RDWR;
    if (cmd == F_SETFL) f->nb = (v & O_NONBLOCK) != 0;
    return 0;
}
typedef struct { int rank, n; fd_set s; } Sa;
static int spred(void* a) { Sa* s = a; for (int f = 3; f < s->n; f++) if (FD_ISSET(f, &s->s) && readable(s->rank, f)) return 1; return 0; }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
    Sa a; a.rank = rt_cur; a.n = n < MAXFD ? n : MAXFD; FD_ZERO(&a.s); if (r) a.s = *r;
    if (r) for (int f = 0; f < n; f++) if (FD_ISSET(f, r)) F(f, "select");
    rt_yield("select");
    int nw = 0; if (w) for (int f = 0; f < n; f++) if (FD_ISSET(f, w)) nw++;
    if (x) FD_ZERO(x);
    if (!tv && !nw) rt_block(spred, &a, "select (waiting for messages)");
    if (tv && (tv->tv_sec || tv->tv_usec) && !spred(&a)) { rt_time_us += tv->tv_sec * 1000000L + tv->tv_usec; }
    int c = nw; uint64_t h = 0x5E1;
    if (r) { FD_ZERO(r); for (int f = 3; f < a.n; f++) if (FD_ISSET(f, &a.s) && readable(a.rank, f)) { FD_SET(f, r); c++; h = h * 131 + f; } }
    rt_event(h);
    return c;
}
int __wrap_socketpair(int d, int t, int p, int* v) {
    (void)d; (void)t; (void)p;
    v[0] = newfd(); fdt[rt_cur][v[0]].type = F_CONN; v[1] = newfd(); fdt[rt_cur][v[1]].type = F_CONN;
    int e1 = newep(rt_cur, v[0]), e2 = newep(rt_cur, v[1]); ep[e1].peer = e2; ep[e2].peer = e1;
    fdt[rt_cur][v[0]].ep = e1; fdt[rt_cur][v[1]].ep = e2; return 0;
}
// real poll with timeouts for multi-threaded processes
typedef struct { int rank, n; struct pollfd* p; } Pa;
static int pollready(Pa* a) {
    int k = 0;
    for (int i = 0; i < a->n; i++) {
        struct pollfd* q = &a->p[i]; q->revents = 0;
        if (q->fd < 0) continue;
        if (q->fd < 3 || q->fd >= MAXFD || fdt[a->rank][q->fd].type == F_NONE) { q->revents = POLLNVAL; k++; continue; }
        if ((q->events & POLLIN) && readable(a->rank, q->fd)) q->revents |= POLLIN;
        Fd* f = &fdt[a->rank][q->fd];
        if ((q->events & POLLOUT) && f->type == F_CONN) { Ep* e = &ep[f->ep];
            if (eof(e) || !rt_scen->sock_cap || ep[e->peer].len - ep[e->peer].pos < rt_scen->sock_cap) q->revents |= POLLOUT; }
        if (q->revents) k++;
    }
    return k;
}
static int pollpred(void* a) { return pollready(a) > 0; }
static int thr_poll(struct pollfd* p, nfds_t n, int to) {
    Pa a = { rt_cur, (int)n, p };
    rt_block_until(pollpred, &a, to < 0 ? 0 : to == 0 ? 1 : rt_time_us + to * 1000L, "poll (waiting for messages)");
    int k = pollready(&a); uint64_t h = 0x9011;
    for (unsigned i = 0; i < n; i++) { if (p[i].revents & POLLNVAL) rt_fail("sock:bad-fd:poll", "poll on file descriptor %d which is not open", p[i].fd);
        h = h * 131 + (p[i].revents ? p[i].fd : 0); }
    rt_event(h); return k;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int to) {
    if (rt_scen->threads) return thr_poll(p, n, to);
    fd_set s; FD_ZERO(&s); int mx = 0;
    for (unsigned i = 0; i < n; i++) if (p[i].fd >= 0 && (p[i].events & POLLIN)) { FD_SET(p[i].fd, &s); if (p[i].fd >= mx) mx = p[i].fd + 1; }
    struct timeval tv = { 0, to > 0 ? 1 : 0 };
    int c = __wrap_select(mx, &s, 0, 0, to < 0 ? 0 : &tv), k = 0;
    for (unsigned i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd >= 0 && c > 0 && FD_ISSET(p[i].fd, &s)) p[i].revents |= POLLIN;
        if (p[i].fd >= 0 && (p[i].events & POLLOUT)) p[i].revents |= POLLOUT; if (p[i].revents) k++; }
    return k;
}
int __wrap_gethostname(char* b, size_t n) {
    if (!multihost()) snprintf(b, n, "%s", rt_scen->sock_hostname[0] ? rt_scen->sock_hostname : "h");
    else snprintf(b, n, "h%d", hostof(rt_cur));
    return 0;
}
// name resolution: "localhost", the own name(s) and "h<n>" in multi-host mode
int __wrap_getaddrinfo(const char* name, const char* serv, const struct addrinfo* h, struct addrinfo** res) {
    (void)h; uint32_t ip = 0;
    char own[64]; __wrap_gethostname(own, sizeof own);
    if (!name || !strcmp(name, "localhost")) ip = 0x7f000001;
    else if (multihost() && name[0] == 'h' && name[1] >= '0' && name[1] <= '9') ip = 0x0a000000u + atoi(name + 1) + 1;
    else if (!strncmp(name, own, strlen(name)) && strlen(name) == strlen(own)) ip = 0x7f000001;
    else return EAI_NONAME;
    struct { struct addrinfo i; struct sockaddr_in s; }* p = rt_malloc(sizeof *p); memset(p, 0, sizeof *p);
    p->s.sin_family = AF_INET; p->s.sin_addr.s_addr = htonl(ip); p->s.sin_port = htons(serv ? atoi(serv) : 0);
    p->i.ai_family = AF_INET; p->i.ai_socktype = SOCK_STREAM; p->i.ai_addr = (void*)&p->s; p->i.ai_addrlen = sizeof p->s;
    infos[rt_cur]++;
    *res = &p->i; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* a) { infos[rt_cur]--; rt_free(a); }
const char* __wrap_gai_strerror(int e) { (void)e; return "name not found"; }
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) { if (s == SIGPIPE) sigpipe_ignored[rt_cur] = h == SIG_IGN; return SIG_DFL; }
int __wrap_unlink(const char* p) { rt_fail("sock:unlink", "unlink(%s)", p); }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { (void)r; rt_time_us += t->tv_sec * 1000000L + t->tv_nsec / 1000; rt_yield("sleep"); return 0; }
// ---- for modules
int rt_listening(int rank, int port) { for (int f = 3; f < MAXFD; f++) if (fdt[rank][f].type == F_LISTEN && (port == 0 || fdt[rank][f].port == port)) return fdt[rank][f].port; return 0; }
int rt_open_fds(int rank) { int n = 0; for (int f = 3; f < MAXFD; f++) n += fdt[rank][f].type != F_NONE; return n; }
int rt_unread(int rank) { int n = 0; for (int f = 3; f < MAXFD; f++) if (fdt[rank][f].type == F_CONN) n += ep[fdt[rank][f].ep].len - ep[fdt[rank][f].ep].pos; return n; }
void rt_set_host(int rank, int host) { rt_scen->sock_host[rank] = host; }
