/* vnet: runs the unmodified server on a simulated network.
 *
 * The whole server is linked with --wrap for the socket and epoll calls. The
 * harness' main() starts the server's own main(); when the server first waits
 * for events, the process becomes a template: it reads scenarios from a file
 * and forks one child per scenario, in which epoll_wait is driven by the
 * scenario's script (connections, data segments, windows, resets, ...). The
 * child logs what the server does on the virtual descriptors.
 *
 * usage: vnet SCENARIOS LOG FIRST STEP TIMEOUT -- server arguments...
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <grp.h>
#include <time.h>
#include <utime.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

int viriatum_main(int argc, const char *argv[]);
#if defined(__SANITIZE_ADDRESS__) || defined(VNET_ASAN)
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void) { return 0; }
#endif

#define VBASE 1000000
#define VMAX 16384
#define MAXCONN 8192

enum { T_FREE, T_SOCK, T_LISTEN, T_CLIENT, T_BACKEND, T_EPOLL };

struct vfd {
    int type, index;            /* index: scenario number of the connection */
    int nonblock;
    int bound_port; char bound_host[64]; int family;
    /* receive side */
    unsigned char *in; size_t in_len, in_pos, in_cap;
    int fin, rst, rst_reported;
    int lost;                   /* what is said of it in place of accepting it */
    struct tls *tls;            /* a client that speaks TLS */
    struct ssl_st *ssl;         /* the server's end of it */
    long maxrecv;
    /* send side */
    long window, maxsend; int nospace;
    /* what a backend has received, and when it did last */
    unsigned char *got; size_t got_len, got_cap; long got_at;
    /* listener */
    int *pend, npend, spurious;
    long round; size_t round_in;    /* what has been read of it in this round */
    /* epoll registration (one epoll only) */
    int reg; struct epoll_event ev; int ready;
};
static struct vfd *V[VMAX]; static int vtop; /* one past the last that was ever there */
static int nvfd;
static long fd_limit;             /* of accepted connections, 0: none */
static int conn_fd[MAXCONN];      /* client index -> vfd, -1 before accept */
static struct vfd *client[MAXCONN];
static struct vfd *backend[MAXCONN]; static int nbackend;
static int backend_refuse;        /* connect mode */
static long backend_window = -1, backend_maxsend = -1, got_clock;

/* the client's end of an encrypted connection: what it wants to say (plain),
   what it has said but the network has not delivered (tx) */
struct buf { unsigned char *p; size_t len, pos, cap; };
struct tls {
    SSL *ssl; BIO *rb, *wb; struct buf plain, tx; long chunk, flip; size_t total;
    int rude, ending, ended, hs, failed, notified, rekey;
};
static FILE *logf_;
static int scripted;              /* 1 in a child */
static FILE *script; static char *script_buf; static size_t script_len, script_pos;
static long pump_left = 0; static int pump_forever = 0; static long spin = 0, spin_limit = 5000;
static long max_rounds_events = 0;
static int open_listeners_at_start;

static struct vfd *vget(int fd) {
    if(fd < VBASE || fd >= VBASE + VMAX) return NULL;
    return V[fd - VBASE];
}
static int vnew(int type) {
    int i;
    for(i = 0; i < VMAX; i++) if(!V[i]) break;
    if(i == VMAX) { errno = EMFILE; return -1; }
    V[i] = calloc(1, sizeof(struct vfd));
    if(i >= vtop) vtop = i + 1;
    V[i]->type = type; V[i]->window = -1; V[i]->maxsend = -1; V[i]->maxrecv = -1; V[i]->index = -1;
    nvfd++;
    return VBASE + i;
}
static void L(const char *fmt, ...) {
    va_list ap;
    if(!logf_) return;
    va_start(ap, fmt); vfprintf(logf_, fmt, ap); va_end(ap);
    fflush(logf_);
}
static void Lraw(const char *tag, int idx, const void *p, size_t n) {
    if(!logf_) return;
    fprintf(logf_, "%s %d %zu\n", tag, idx, n);
    fwrite(p, 1, n, logf_); fputc('\n', logf_); fflush(logf_);
}

/* ---- real functions ---- */
int __real_socket(int, int, int); int __real_sigprocmask(int, const sigset_t *, sigset_t *); int __real_close(int); int __real_fcntl(int, int, ...);
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_ioctl(int, unsigned long, ...);

/* current readiness */
static unsigned int poll_state(struct vfd *v) {
    unsigned int m = 0;
    switch(v->type) {
        case T_LISTEN: if(v->npend || v->spurious) m |= EPOLLIN; break;
        case T_CLIENT: case T_BACKEND:
            if(v->in_pos < v->in_len || v->fin || v->rst) m |= EPOLLIN;
            if(v->fin) m |= EPOLLRDHUP;
            if(v->rst) m |= EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
            if(v->window != 0 && !v->nospace) m |= EPOLLOUT;
            break;
        case T_SOCK: m |= EPOLLOUT | EPOLLHUP; break;
    }
    return m;
}
static long round_no = 1; static size_t round_most;   /* of the bytes read of one connection in one round */
static void wake(struct vfd *v) { if(v->reg) v->ready = 1; }

/* a signal that arrives just before the n-th system call from now */
static long sig_left; static int sig_no, asked;
static int told(void); static void asking(int sig, int sent);
static void sig_tick(void) { if(sig_left > 0 && --sig_left == 0) { int s = sig_no ? sig_no : told(); asking(s, sig_no == 0); L("K %d\n", s); raise(s); } }
/* ---- worker processes ----
   they are real processes; the signals the server sends them are only noted
   here, and each takes the one it is sent when its script gets there */
#define MAXPROC 300
static struct shared { volatile int flag[MAXPROC], status[MAXPROC], reaped[MAXPROC], pid[MAXPROC]; volatile int n, gone, turn; volatile long seq; } *shm;
static int proc_;
static const char *scen_path, *log_path; static long first, stepn, tmo;
static void template_loop(void);
static int first_wait = 1;
int __real_kill(pid_t, int); pid_t __real_fork(void); pid_t __real_waitpid(pid_t, int *, int);
/* what concerns the processes, in the order in which it happens in all of them */
static void LW(const char *what, int k, int x) { L("W %ld %d %s %d %d\n", __sync_add_and_fetch(&shm->seq, 1), proc_, what, k, x); }
/* waits for the signal this process is sent */
static int told(void) {
    int sig = 0;
    while(!(sig = shm->flag[proc_])) { if(shm->gone) { LW("left", 0, 0); fclose(logf_); _exit(97); } usleep(300); }
    return sig;
}
static void asking(int sig, int sent) { asked = 1; sig_left = 0; if(shm) LW(sent ? "hear" : "ask", 0, sig); }
static void choose_section(void) {
    size_t pos = 0; int k; long n;
    while(pos < script_len && !strncmp(script_buf + pos, "PROC ", 5)) {
        char *e = memchr(script_buf + pos, '\n', script_len - pos);
        if(!e || sscanf(script_buf + pos, "PROC %d %ld", &k, &n) != 2) { fprintf(stderr, "bad section\n"); _exit(99); }
        pos = (size_t) (e - script_buf) + 1;
        if(k == proc_) { script_pos = pos; return; }
        pos += (size_t) n;
    }
    script_pos = pos || proc_ ? script_len : 0;
}
pid_t __wrap_fork(void) {
    pid_t pid; int k; char path[600];
    if(first_wait) { first_wait = 0; template_loop(); }
    if(!shm || proc_) { L("BADFORK %d\n", proc_); errno = EAGAIN; return -1; }
    if(shm->n + 1 >= MAXPROC) { errno = EAGAIN; return -1; }
    sig_tick();
    k = ++shm->n; LW("fork", k, 0);
    pid = __real_fork();
    if(pid != 0) { if(pid > 0) shm->pid[k] = pid; return pid; }
    proc_ = k; fclose(logf_);
    snprintf(path, sizeof path, "%s.w%d", log_path, k);
    logf_ = fopen(path, "wb"); if(!logf_) _exit(99);
    alarm((unsigned) tmo * 3); sig_left = 0; asked = 0;
    choose_section();
    return 0;
}
static int which_worker(pid_t pid) { int k; for(k = 1; shm && k <= shm->n; k++) if(pid > 0 && shm->pid[k] == pid) return k; return 0; }
int __wrap_kill(pid_t pid, int sig) {
    int k = which_worker(pid);
    if(!k) { L("BADKILL %d %d\n", (int) pid, sig); return 0; }
    if(shm->reaped[k]) { LW("late", k, sig); errno = ESRCH; return -1; }
    LW("kill", k, sig);
    if(sig) shm->flag[k] = sig;
    return 0;
}
pid_t __wrap_waitpid(pid_t pid, int *st, int options) {
    int s = 0, k; pid_t r; k = which_worker(pid);
    LW("wait", k, 0);
    r = __real_waitpid(pid, &s, options);
    if(st) *st = s;
    k = r > 0 ? which_worker(r) : 0;
    if(k && !WIFSTOPPED(s)) { shm->reaped[k] = 1; shm->status[k] = s; LW("reaped", k, WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s)); }
    return r;
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
/* called by the probe modules */
void vnet_note(const char *s) { if(scripted) L("N %s\n", s); }
int __wrap_socket(int domain, int type, int protocol) {
    int fd;
    if(domain != AF_INET && domain != AF_INET6) return __real_socket(domain, type, protocol);
    fd = vnew(T_SOCK);
    if(fd >= 0) { V[fd - VBASE]->family = domain; if(type & SOCK_NONBLOCK) V[fd - VBASE]->nonblock = 1; }
    return fd;
}
int __wrap_setsockopt(int fd, int level, int name, const void *val, socklen_t len) { (void) fd; (void) level; (void) name; (void) val; (void) len; return 0; }
int __wrap_getsockopt(int fd, int level, int name, void *val, socklen_t *len) { (void) fd; (void) level; (void) name; if(val && len && *len >= 4) *(int *) val = 0; return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t len) {
    struct vfd *v = vget(fd); (void) len;
    if(!v) { errno = EBADF; return -1; }
    if(a->sa_family == AF_INET6) {
        v->bound_port = ntohs(((struct sockaddr_in6 *) a)->sin6_port);
        inet_ntop(AF_INET6, &((struct sockaddr_in6 *) a)->sin6_addr, v->bound_host, sizeof v->bound_host);
    } else {
        v->bound_port = ntohs(((struct sockaddr_in *) a)->sin_port);
        inet_ntop(AF_INET, &((struct sockaddr_in *) a)->sin_addr, v->bound_host, sizeof v->bound_host);
    }
    return 0;
}
int __wrap_listen(int fd, int n) {
    struct vfd *v = vget(fd); (void) n;
    if(!v) { errno = EBADF; return -1; }
    v->type = T_LISTEN; v->pend = calloc(MAXCONN, sizeof(int));
    L("LISTEN %d %s %d\n", v->family == AF_INET6 ? 6 : 4, v->bound_host, v->bound_port);
    return 0;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *len, int flags);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *len) { return __wrap_accept4(fd, a, len, 0); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *len, int flags) { sig_tick();
    struct vfd *v = vget(fd); int idx, i, nfd; struct sockaddr_in in;
    if(!v || v->type != T_LISTEN) { errno = EBADF; return -1; }
    /* the descriptor is looked for before the connection */
    if(fd_limit > 0) {
        for(i = 0, idx = 0; i < MAXCONN; i++) if(conn_fd[i] >= 0) idx++;
        if(idx >= fd_limit) { v->spurious = 0; errno = EMFILE; return -1; }
    }
    if(!v->npend) { v->spurious = 0; errno = EAGAIN; return -1; }
    idx = v->pend[0];
    if(client[idx]->lost == EINTR) { client[idx]->lost = 0; errno = EINTR; return -1; }
    for(i = 1; i < v->npend; i++) v->pend[i - 1] = v->pend[i];
    v->npend--;
    if(client[idx]->lost) { errno = client[idx]->lost; free(client[idx]->in); free(client[idx]); client[idx] = NULL; conn_fd[idx] = -2; return -1; }
    nfd = vnew(T_CLIENT);
    if(nfd < 0) return -1;
    free(V[nfd - VBASE]);
    V[nfd - VBASE] = client[idx];
    client[idx]->index = idx; conn_fd[idx] = nfd;
    if(flags & SOCK_NONBLOCK) client[idx]->nonblock = 1;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET; in.sin_port = htons(40000 + idx); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if(a && len) { memcpy(a, &in, *len < sizeof in ? *len : sizeof in); *len = sizeof in; }
    L("AC %d\n", idx);
    return nfd;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t len) {
    struct vfd *v = vget(fd); char h[64] = "?"; int port = 0; (void) len;
    if(!v) { errno = EBADF; return -1; }
    if(a->sa_family == AF_INET) {
        port = ntohs(((struct sockaddr_in *) a)->sin_port);
        inet_ntop(AF_INET, &((struct sockaddr_in *) a)->sin_addr, h, sizeof h);
    }
    if(backend_refuse || nbackend >= MAXCONN) { L("BC -1 %s %d\n", h, port); errno = ECONNREFUSED; return -1; }
    v->type = T_BACKEND; v->index = nbackend; backend[nbackend] = v; nbackend++;
    v->window = backend_window; v->maxsend = backend_maxsend;
    L("BC %d %s %d\n", v->index, h, port);
    wake(v);
    return 0;
}
static void tls_input(struct vfd *v, const void *p, size_t n);
static void tls_free(struct vfd *v);
static void tls_deliver(void);
static ssize_t vrecv(struct vfd *v, void *buf, size_t n, int flags) {
    size_t have = v->in_len - v->in_pos;
    if(have == 0) {
        if(v->rst) { if(!v->rst_reported) { v->rst_reported = 1; errno = ECONNRESET; return -1; } return 0; }
        if(v->fin) return 0;
        if(!v->nonblock) { L("BLOCK recv %d\n", v->index); _exit(97); }
        errno = EAGAIN; return -1;
    }
    if(n > have) n = have;
    if(v->maxrecv > 0 && n > (size_t) v->maxrecv) n = (size_t) v->maxrecv;
    memcpy(buf, v->in + v->in_pos, n);
    if(!(flags & MSG_PEEK)) { v->in_pos += n; if(v->round != round_no) { v->round = round_no; v->round_in = 0; } v->round_in += n; if(v->round_in > round_most) round_most = v->round_in; }
    spin = 0;
    return (ssize_t) n;
}
static ssize_t vsend(struct vfd *v, const void *buf, size_t n, int flags) {
    size_t take = n;
    if(v->rst) {
        if(!v->rst_reported) { v->rst_reported = 1; errno = ECONNRESET; return -1; }
        if(!(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
        errno = EPIPE; return -1;
    }
    if(n == 0) return 0;
    if(v->window == 0 || v->nospace) {
        if(!v->nonblock) { L("BLOCK send %d\n", v->index); _exit(97); }
        v->nospace = 1; errno = EAGAIN; return -1;
    }
    if(v->window > 0 && take > (size_t) v->window) take = (size_t) v->window;
    if(v->maxsend > 0 && take > (size_t) v->maxsend) take = (size_t) v->maxsend;
    if(v->window > 0) v->window -= (long) take;
    if(take < n) v->nospace = 1;
    spin = 0;
    if(v->type == T_BACKEND) {
        if(v->got_len + take > v->got_cap) { v->got_cap = (v->got_len + take) * 2; v->got = realloc(v->got, v->got_cap); }
        memcpy(v->got + v->got_len, buf, take); v->got_len += take; v->got_at = ++got_clock;
    }
    if(v->tls) tls_input(v, buf, take);
    else Lraw(v->type == T_BACKEND ? "BR" : "S", v->index, buf, take);
    return (ssize_t) take;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) { sig_tick();
    struct vfd *v = vget(fd); if(!v) { if(fd >= VBASE) { errno = EBADF; return -1; } return __real_recv(fd, b, n, flags); }
    return vrecv(v, b, n, flags);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) { sig_tick();
    struct vfd *v = vget(fd); if(!v) { if(fd >= VBASE) { errno = EBADF; return -1; } return __real_send(fd, b, n, flags); }
    return vsend(v, b, n, flags);
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) { (void) a; (void) l; return __wrap_recv(fd, b, n, flags); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) { (void) a; (void) l; return __wrap_send(fd, b, n, flags); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
    struct vfd *v = vget(fd); if(!v) { if(fd >= VBASE) { errno = EBADF; return -1; } return __real_read(fd, b, n); }
    return vrecv(v, b, n, 0);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    struct vfd *v = vget(fd); if(!v) { if(fd >= VBASE) { errno = EBADF; return -1; } return __real_write(fd, b, n); }
    return vsend(v, b, n, 0);
}
ssize_t __wrap_writev(int fd, const struct iovec *iov, int c) {
    ssize_t t = 0; int i;
    for(i = 0; i < c; i++) {
        ssize_t r = __wrap_write(fd, iov[i].iov_base, iov[i].iov_len);
        if(r < 0) return t ? t : -1;
        t += r; if((size_t) r < iov[i].iov_len) break;
    }
    return t;
}
int __wrap_shutdown(int fd, int how) { (void) fd; (void) how; return 0; }
int __wrap_ioctl(int fd, unsigned long req, ...) {
    va_list ap; void *p; struct vfd *v = vget(fd);
    va_start(ap, req); p = va_arg(ap, void *); va_end(ap);
    if(!v) return __real_ioctl(fd, req, p);
    if(req == FIONBIO) v->nonblock = *(int *) p != 0;
    if(req == FIONREAD) *(int *) p = (int) (v->in_len - v->in_pos);
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; long arg; struct vfd *v = vget(fd);
    va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap);
    if(!v) return __real_fcntl(fd, cmd, arg);
    if(cmd == F_GETFL) return v->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    if(cmd == F_SETFL) v->nonblock = (arg & O_NONBLOCK) != 0;
    return 0;
}
int __wrap_close(int fd) { sig_tick();
    struct vfd *v = vget(fd);
    if(!v) {
        if(fd >= VBASE) { L("BADCLOSE %d\n", fd - VBASE); errno = EBADF; return -1; }
        return __real_close(fd);
    }
    switch(v->type) {
        case T_CLIENT: L("CL %d\n", v->index); client[v->index] = NULL; conn_fd[v->index] = -2; break;
        case T_BACKEND: L("BCL %d\n", v->index); backend[v->index] = NULL; break;
        case T_LISTEN: L("CLLISTEN %d\n", v->bound_port); break;
        default: break;
    }
    tls_free(v); free(v->in); free(v->got); free(v->pend); free(v);
    V[fd - VBASE] = NULL; nvfd--;
    return 0;
}
int __wrap_epoll_create(int n) { (void) n; return vnew(T_EPOLL); }
int __wrap_epoll_create1(int f) { (void) f; return vnew(T_EPOLL); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { sig_tick();
    struct vfd *v = vget(fd);
    if(!vget(ep)) { errno = EBADF; return -1; }
    if(!v) { errno = EBADF; return -1; }
    switch(op) {
        case EPOLL_CTL_ADD:
            if(v->reg) { errno = EEXIST; return -1; }
            v->reg = 1; v->ev = *ev; v->ready = (poll_state(v) & (ev->events | EPOLLERR | EPOLLHUP)) != 0; break;
        case EPOLL_CTL_MOD:
            if(!v->reg) { errno = ENOENT; return -1; }
            v->ev = *ev; if(poll_state(v) & (ev->events | EPOLLERR | EPOLLHUP)) v->ready = 1; break;
        case EPOLL_CTL_DEL:
            if(!v->reg) { errno = ENOENT; return -1; }
            v->reg = 0; v->ready = 0; break;
    }
    return 0;
}
static int collect(struct epoll_event *events, int max) {
    int i, n = 0;
    tls_deliver();
    for(i = 0; i < vtop && n < max; i++) {
        struct vfd *v = V[i]; unsigned int m;
        if(!v || !v->reg) continue;
        /* a partially accepted send leaves the socket full for this round; the
           network drains it before the next one if the window is open */
        if(v->nospace && v->window != 0) { v->nospace = 0; v->ready = 1; }
        if(!v->ready) continue;
        m = poll_state(v) & (v->ev.events | EPOLLERR | EPOLLHUP);
        if(!(v->ev.events & EPOLLET)) { if(!m) { v->ready = 0; continue; } }
        else v->ready = 0;
        if(!m) continue;
        events[n].events = m; events[n].data = v->ev.data; n++;
    }
    return n;
}
static void put_in(struct vfd *v, const unsigned char *p, size_t n) {
    if(v->in_len + n > v->in_cap) { v->in_cap = (v->in_len + n) * 2; v->in = realloc(v->in, v->in_cap); }
    memcpy(v->in + v->in_len, p, n); v->in_len += n;
}
/* ---- encrypted connections ----
 * The server's SSL objects get a BIO on the virtual descriptor. The client's
 * end runs in a thread of its own for every step, for the error queue of the
 * library belongs to the thread. */
static int vbio_write(BIO *b, const char *p, int n) {
    int fd = -1; ssize_t r; struct vfd *v; BIO_get_fd(b, &fd); BIO_clear_retry_flags(b); sig_tick();
    v = vget(fd); if(!v) { errno = EBADF; return -1; }
    /* the greeting always fits into what a socket takes */
    if(v->ssl && !SSL_is_init_finished(v->ssl) && !v->rst) {
        long w = v->window, m = v->maxsend; int full = v->nospace;
        v->window = v->maxsend = -1; v->nospace = 0; r = vsend(v, p, (size_t) n, MSG_NOSIGNAL); v->window = w; v->maxsend = m; v->nospace = full;
    } else r = vsend(v, p, (size_t) n, MSG_NOSIGNAL);
    if(r <= 0 && BIO_sock_should_retry((int) r)) BIO_set_retry_write(b);
    return (int) r;
}
static int vbio_read(BIO *b, char *p, int n) {
    int fd = -1; ssize_t r; struct vfd *v; BIO_get_fd(b, &fd); BIO_clear_retry_flags(b); sig_tick();
    v = vget(fd); if(!v) { errno = EBADF; return -1; }
    r = vrecv(v, p, (size_t) n, 0);
    if(r <= 0) { if(BIO_sock_should_retry((int) r)) BIO_set_retry_read(b); else if(r == 0) BIO_set_flags(b, 0x800 /* end of input */); }
    return (int) r;
}
int __real_SSL_set_fd(SSL *s, int fd);
int __wrap_SSL_set_fd(SSL *s, int fd) {
    static BIO_METHOD *m; BIO *b;
    if(fd < VBASE) return __real_SSL_set_fd(s, fd);
    if(!m) {
        m = BIO_meth_new(BIO_TYPE_SOCKET, "virtual");
        BIO_meth_set_write(m, vbio_write); BIO_meth_set_read(m, vbio_read);
        BIO_meth_set_ctrl(m, BIO_meth_get_ctrl(BIO_s_socket())); BIO_meth_set_create(m, BIO_meth_get_create(BIO_s_socket()));
        BIO_meth_set_destroy(m, BIO_meth_get_destroy(BIO_s_socket()));
    }
    b = BIO_new(m); if(!b) return 0;
    BIO_set_fd(b, fd, BIO_NOCLOSE); SSL_set_bio(s, b, b); if(vget(fd)) vget(fd)->ssl = s;
    return 1;
}
static void badd(struct buf *b, const void *p, size_t n) {
    if(b->len + n > b->cap) { b->cap = (b->len + n) * 2; b->p = realloc(b->p, b->cap); }
    memcpy(b->p + b->len, p, n); b->len += n;
}
static SSL_CTX *tls_ctx;
enum { TLS_NEW, TLS_STEP, TLS_FREE };
struct tls_op { struct vfd *v; int op, ver; const void *p; size_t n; };
static void tls_fail(struct vfd *v, struct tls *t) { if(!t->failed) { t->failed = 1; L("TERR %d\n", v->index); } }
static void tls_step(struct vfd *v, struct tls *t) {
    static char b[20000]; int r, e; long k; char *w;
    if(t->failed) return;
    if(!t->hs) {
        r = SSL_do_handshake(t->ssl);
        if(r == 1) {
            X509 *x = SSL_get0_peer_certificate(t->ssl); unsigned char *d = NULL; int n = x ? i2d_X509(x, &d) : 0; unsigned h = 0, i;
            for(i = 0; (int) i < n; i++) h = h * 31 + d[i];
            OPENSSL_free(d);
            t->hs = 1; L("HS %d %u %s\n", v->index, h, SSL_get_version(t->ssl));
        } else if((e = SSL_get_error(t->ssl, r)) != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) tls_fail(v, t);
    }
    if(t->hs && !t->failed) {
        if(t->rekey) { t->rekey = 0; if(SSL_version(t->ssl) == TLS1_3_VERSION) { SSL_key_update(t->ssl, SSL_KEY_UPDATE_REQUESTED); SSL_do_handshake(t->ssl); } }
        if(t->plain.pos < t->plain.len) {
            /* a segment is a record */
            if(SSL_write(t->ssl, t->plain.p + t->plain.pos, (int) (t->plain.len - t->plain.pos)) > 0) t->plain.pos = t->plain.len = 0;
        }
        while((r = SSL_read(t->ssl, b, sizeof b)) > 0) Lraw("S", v->index, b, (size_t) r);
        e = SSL_get_error(t->ssl, r);
        if(e == SSL_ERROR_ZERO_RETURN) { if(!t->notified) { t->notified = 1; L("CN %d\n", v->index); } }
        else if(e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) tls_fail(v, t);
    }
    if(t->ending == 1 && (t->hs || t->rude)) { t->ending = 2; if(!t->rude && !t->failed) SSL_shutdown(t->ssl); }
    k = BIO_get_mem_data(t->wb, &w);
    if(k > 0) {
        if(t->flip >= 0 && (size_t) t->flip >= t->total && (size_t) t->flip < t->total + (size_t) k) w[t->flip - (long) t->total] ^= 0x55;
        t->total += (size_t) k; badd(&t->tx, w, (size_t) k); (void) BIO_reset(t->wb);
    }
}
static void *tls_run(void *a) {
    struct tls_op *o = a; struct tls *t = o->v->tls;
    switch(o->op) {
        case TLS_NEW:
            if(!tls_ctx) { tls_ctx = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(tls_ctx, SSL_VERIFY_NONE, NULL); }
            t->ssl = SSL_new(tls_ctx); t->rb = BIO_new(BIO_s_mem()); t->wb = BIO_new(BIO_s_mem());
            BIO_set_mem_eof_return(t->rb, -1); BIO_set_mem_eof_return(t->wb, -1);
            SSL_set_bio(t->ssl, t->rb, t->wb); SSL_set_connect_state(t->ssl);
            if(o->ver == 12) SSL_set_max_proto_version(t->ssl, TLS1_2_VERSION);
            tls_step(o->v, t); break;
        case TLS_STEP:
            if(o->n) BIO_write(t->rb, o->p, (int) o->n);
            tls_step(o->v, t); break;
        case TLS_FREE:
            SSL_free(t->ssl); free(t->plain.p); free(t->tx.p); free(t); o->v->tls = NULL; break;
    }
    return NULL;
}
static void tls_do(struct vfd *v, int op, int ver, const void *p, size_t n) {
    struct tls_op o = { v, op, ver, p, n }; pthread_t th;
    if(pthread_create(&th, NULL, tls_run, &o)) { L("BADLINE thread\n"); _exit(98); }
    pthread_join(th, NULL);
}
static void tls_input(struct vfd *v, const void *p, size_t n) { tls_do(v, TLS_STEP, 0, p, n); }
static void tls_free(struct vfd *v) { if(v->tls) tls_do(v, TLS_FREE, 0, NULL, 0); }
/* the network delivers what the clients have said, in pieces of the chosen size */
static void tls_deliver(void) {
    int i;
    for(i = 0; i < MAXCONN; i++) {
        struct vfd *v = client[i]; struct tls *t; size_t n;
        if(!v || !v->tls || v->in_pos < v->in_len || v->fin || v->rst) continue;
        t = v->tls; n = t->tx.len - t->tx.pos;
        if(n) {
            if(t->chunk > 0 && n > (size_t) t->chunk) n = (size_t) t->chunk;
            put_in(v, t->tx.p + t->tx.pos, n); t->tx.pos += n; wake(v);
            if(t->tx.pos == t->tx.len) t->tx.pos = t->tx.len = 0;
        }
        if(!(t->tx.len - t->tx.pos) && (t->ending == 2 || (t->ending && t->failed))) { v->fin = 1; wake(v); }
    }
}
static int real_fds(void) {
    int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
    if(!d) return -1;
    while((e = readdir(d))) if(e->d_name[0] != '.') n++;
    closedir(d);
    return n - 1;
}
static int conn_vfds(void) {
    int i, n = 0;
    for(i = 0; i < vtop; i++) if(V[i] && (V[i]->type == T_CLIENT || V[i]->type == T_BACKEND)) n++;
    return n;
}
/* one script line; returns the line (NUL terminated) or NULL at the end */
static char *next_line(void) {
    char *s, *e;
    if(script_pos >= script_len) return NULL;
    s = script_buf + script_pos; e = memchr(s, '\n', script_len - script_pos);
    if(!e) return NULL;
    *e = 0; script_pos = (size_t) (e - script_buf) + 1;
    return s;
}
static unsigned char *next_raw(size_t n) { unsigned char *p = (unsigned char *) script_buf + script_pos; script_pos += n + 1; return p; }
static struct vfd *listener(int which) {
    int i;
    for(i = 0; i < vtop; i++) if(V[i] && V[i]->type == T_LISTEN && (which == 0 || V[i]->family == (which == 6 ? AF_INET6 : AF_INET))) return V[i];
    return NULL;
}
/* a backend by number, or (@text) the one that has received that text last; -1 when there is none */
static int which_backend(const char *op, const char *s) {
    char t[128]; int i, best = -1;
    if(*s != '@') return atoi(s);
    sscanf(s + 1, "%127s", t);
    for(i = 0; i < nbackend; i++)
        if(backend[i] && backend[i]->got && memmem(backend[i]->got, backend[i]->got_len, t, strlen(t)) && (best < 0 || backend[i]->got_at > backend[best]->got_at)) best = i;
    L("BT %s %d %s\n", op, best, t);
    return best;
}
/* executes script actions until one that gives control to the server: returns
   1 to run a round, 2 to return EINTR, exits the child at the end */
static int step(void) {
    char *l; int a; long n; char path[512]; struct vfd *v;
    for(;;) {
        l = next_line();
        if(!l || !strncmp(l, "END", 3)) {
            if(proc_ && !asked) { a = told(); asking(a, 1); L("K %d\nNR\n", a); raise(a); return 2; }
            L("END\n"); fclose(logf_); _exit(0);
        }
        switch(l[0]) {
            case 'C': /* C idx [4|6]: client connects */
                n = 0; sscanf(l + 2, "%d %d", &a, &n); v = listener(n);
                if(!v) { L("REFUSED %d\n", a); break; }
                client[a] = calloc(1, sizeof(struct vfd));
                client[a]->type = T_CLIENT; client[a]->window = -1; client[a]->maxsend = -1; client[a]->maxrecv = -1; client[a]->index = a;
                conn_fd[a] = -1;
                v->pend[v->npend++] = a; wake(v); break;
            case 'f': fd_limit = atol(l + 2); break; /* f n: no descriptors for more connections */
            case 'a': sscanf(l + 2, "%d %ld", &a, &n); if(client[a] && conn_fd[a] == -1) client[a]->lost = (int) n; break; /* a idx errno */
            case 'D': /* D idx len: data segment */
                sscanf(l + 2, "%d %ld", &a, &n); { unsigned char *p = next_raw((size_t) n);
                if(client[a] && client[a]->tls) { badd(&client[a]->tls->plain, p, (size_t) n); tls_do(client[a], TLS_STEP, 0, NULL, 0); }
                else if(client[a]) { put_in(client[a], p, (size_t) n); wake(client[a]); } } break;
            case 'Y': /* Y idx chunk version flip rude: the client speaks TLS */
                { long chunk, flip; int ver, rude; sscanf(l + 2, "%d %ld %d %ld %d", &a, &chunk, &ver, &flip, &rude);
                if((v = client[a])) { v->tls = calloc(1, sizeof(struct tls)); v->tls->chunk = chunk; v->tls->flip = flip; v->tls->rude = rude; tls_do(v, TLS_NEW, ver, NULL, 0); } } break;
            case 'N': a = atoi(l + 2); if((v = client[a]) && v->tls) { v->tls->rekey = 1; tls_do(v, TLS_STEP, 0, NULL, 0); } break;
            case 'H': a = atoi(l + 2); if((v = client[a])) { if(v->tls) v->tls->tx.pos = v->tls->tx.len = 0; v->fin = 1; wake(v); } break;
            case 'W': sscanf(l + 2, "%d %ld", &a, &n); if((v = client[a])) { int shut = v->nospace || v->window == 0; v->window = n; if(n != 0 && shut) { v->nospace = 0; wake(v); } } break;
            case 'L': sscanf(l + 2, "%d %ld", &a, &n); if(client[a]) client[a]->maxsend = n; break;
            case 'R': sscanf(l + 2, "%d %ld", &a, &n); if(client[a]) client[a]->maxrecv = n; break;
            case 'F': a = atoi(l + 2); if((v = client[a])) { if(v->tls) { v->tls->ending = 1; tls_do(v, TLS_STEP, 0, NULL, 0); } else { v->fin = 1; wake(v); } } break;
            case 'X': a = atoi(l + 2); if((v = client[a])) { v->rst = 1; wake(v); } break;
            case 'B': /* backend actions */
                { char op[3]; char *arg = strchr(l + 3, ' ');
                n = arg ? atol(arg + 1) : 0; op[0] = l[1]; op[1] = 0;
                switch(l[1]) {
                    case 'M': backend_refuse = atoi(l + 3); break;
                    case 'O': sscanf(l + 3, "%ld %ld", &backend_window, &backend_maxsend); break;
                    case 'D': { unsigned char *p = next_raw((size_t) n); a = which_backend(op, l + 3);
                        if(a >= 0 && a < nbackend && backend[a]) { put_in(backend[a], p, (size_t) n); wake(backend[a]); } } break;
                    case 'F': a = which_backend(op, l + 3); if(a >= 0 && a < nbackend && (v = backend[a])) { v->fin = 1; wake(v); } break;
                    case 'X': a = which_backend(op, l + 3); if(a >= 0 && a < nbackend && (v = backend[a])) { v->rst = 1; wake(v); } break;
                    case 'W': if(!strncmp(l + 3, "* ", 2)) {
                            backend_window = n;
                            for(a = 0; a < nbackend; a++) if((v = backend[a])) { v->window = n; if(n != 0) { v->nospace = 0; wake(v); } }
                        } else { a = which_backend(op, l + 3); if(a >= 0 && a < nbackend && (v = backend[a])) { int shut = v->nospace || v->window == 0; v->window = n; if(n != 0 && shut) { v->nospace = 0; wake(v); } } }
                        break;
                    case 'L': a = which_backend(op, l + 3); if(a >= 0 && a < nbackend && backend[a]) backend[a]->maxsend = n; break;
                    case 'R': a = which_backend(op, l + 3); if(a >= 0 && a < nbackend && backend[a]) backend[a]->maxrecv = n; break;
                } }
                break;
            case 'P': pump_forever = 1; spin = 0; return 1;
            case 'S': pump_forever = 0; pump_left = atol(l + 2); if(pump_left > 0) { return 1; } break;
            case 'G': L("G %zu %d %d\n", __sanitizer_get_current_allocated_bytes(), real_fds(), conn_vfds()); break;
            case 'M': /* M len path: write file */
                { FILE *f; unsigned char *p; sscanf(l + 2, "%ld %511s", &n, path); p = next_raw((size_t) n);
                  f = fopen(path, "wb"); if(f) { fwrite(p, 1, (size_t) n, f); fclose(f); } else L("MFAIL %s\n", path); } break;
            case 'T': { struct utimbuf t; sscanf(l + 2, "%ld %511s", &n, path); t.actime = t.modtime = n; if(utime(path, &t)) L("TFAIL %s\n", path); } break;
            case 'U': sscanf(l + 2, "%511s", path); unlink(path); break;
            case 'E': L("E %s\n", l + 2); break;   /* echo a marker */
            case 'I': sscanf(l + 2, "%ld %d", &sig_left, &sig_no); break;
            case 'K': a = atoi(l + 2); L("K %d\nNR\n", a); asking(a, 0); raise(a); return 2;
            case 'Z': if(shm && proc_) { a = told(); asking(a, 1); L("K %d\nNR\n", a); raise(a); return 2; } break;
            case 'A': if((v = listener(0))) wake(v), v->spurious = 1; break;     /* another process takes the connection */
            case 'V': /* V n: not before n steps have been made; v: one more */
                if(shm) { int t; for(t = 0; shm->turn < atoi(l + 2); t++) { if(shm->gone || t > 40000) { L("BLOCK %s\n", l); _exit(96); } usleep(300); } } break;
            case 'v': if(shm) __sync_add_and_fetch(&shm->turn, 1); break;
            default: L("BADLINE %s\n", l); _exit(98);
        }
    }
}
static int wait_events(struct epoll_event *events, int max, int timeout) {
    int n, r;
    if(round_most > 1048576) L("B %zu\n", round_most);
    round_no++; round_most = 0;
    for(;;) {
        if(pump_forever) {
            n = collect(events, max);
            if(n > 0 || timeout == 0) {
                if(++spin > spin_limit) { L("SPIN\n"); _exit(96); }
                return n;
            }
            pump_forever = 0; L("Q\n");
        } else if(pump_left > 0) {
            pump_left--;
            n = collect(events, max);
            if(n > 0 || timeout == 0) return n;
        }
        if(pump_left > 0) continue;
        r = step();
        if(r == 2) { errno = EINTR; return -1; }
    }
}

int __wrap_epoll_wait(int ep, struct epoll_event *events, int max, int timeout) {
    (void) ep;
    if(first_wait) { first_wait = 0; template_loop(); }
    sig_tick();
    if(asked) L("NR\n");
    return wait_events(events, max, timeout);
}
/* signals waiting for the mask to change are delivered first and end the wait */
int __wrap_epoll_pwait(int ep, struct epoll_event *events, int max, int timeout, const sigset_t *mask) {
    sigset_t old, pending; int i, r, hit = 0, e;
    (void) ep;
    if(first_wait) { first_wait = 0; template_loop(); }
    sig_tick();
    if(asked) L("NR\n");
    if(!mask) return wait_events(events, max, timeout);
    sigpending(&pending);
    for(i = 1; i < 32; i++) if(sigismember(&pending, i) == 1 && sigismember(mask, i) == 0) hit = 1;
    __real_sigprocmask(SIG_SETMASK, mask, &old);
    if(hit) { r = -1; errno = EINTR; } else r = wait_events(events, max, timeout);
    e = errno; __real_sigprocmask(SIG_SETMASK, &old, NULL); errno = e;
    return r;
}
int __wrap_sigprocmask(int how, const sigset_t *set, sigset_t *old) { sig_tick(); return __real_sigprocmask(how, set, old); }
/* ------------------------------------------------------------------ parent */
static char errpath[512];
/* the workers of a scenario whose main process is gone: none should be left */
static void collect_workers(FILE *out, const char *id) {
    int k, st, t; pid_t r; (void) id;
    shm->gone = 1;
    for(t = 0; t < 5000; t++) {
        r = __real_waitpid(-1, &st, WNOHANG);
        if(r < 0) break;
        if(r > 0) { k = which_worker(r); if(k) { shm->status[k] = st; fprintf(out, "W %ld 0 unreaped %d %d\n", __sync_add_and_fetch(&shm->seq, 1), k, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); } continue; }
        if(t == 3000) for(k = 1; k <= shm->n; k++) if(!shm->reaped[k] && shm->pid[k] > 1) __real_kill(shm->pid[k], SIGKILL);
        usleep(1000);
    }
}
static void worker_logs(FILE *out, const char *id) {
    int k, c; char path[600]; FILE *f;
    for(k = 1; k <= shm->n; k++) {
        fprintf(out, "SCEN %s/%d\n", id, k);
        snprintf(path, sizeof path, "%s.w%d", log_path, k);
        if((f = fopen(path, "rb"))) { while((c = fgetc(f)) != EOF) fputc(c, out); fclose(f); unlink(path); }
        if(WIFSIGNALED(shm->status[k])) fprintf(out, "\nSIGNAL %d\n", WTERMSIG(shm->status[k]));
        else fprintf(out, "\nEXIT %d\n", WEXITSTATUS(shm->status[k]));
        fprintf(out, "DONE\n");
    }
}
static void template_loop(void) {
    FILE *f = fopen(scen_path, "rb"); FILE *out; long i = 0; long size; long hangs = 0, maxhangs = getenv("VHANGS") ? atol(getenv("VHANGS")) : 0;
    char *buf; size_t pos = 0, len;
    if(!f) { perror(scen_path); _exit(99); }
    fseek(f, 0, SEEK_END); size = ftell(f); fseek(f, 0, SEEK_SET);
    buf = malloc((size_t) size + 1); if(fread(buf, 1, (size_t) size, f) != (size_t) size) _exit(99); fclose(f);
    len = (size_t) size;
    out = fopen(log_path, "ab"); if(!out) { perror(log_path); _exit(99); }
    if(logf_) { fclose(logf_); logf_ = NULL; }
    while(pos < len) {
        /* header: SCEN id bytes\n then that many bytes of script */
        char id[128]; long bytes; char *e = memchr(buf + pos, '\n', len - pos); pid_t pid; int st; 
        if(!e) break;
        *e = 0;
        if(sscanf(buf + pos, "SCEN %127s %ld", id, &bytes) != 2) { fprintf(stderr, "bad scenario header %s\n", buf + pos); _exit(99); }
        pos = (size_t) (e - buf) + 1;
        if(i % stepn == first && maxhangs && hangs >= maxhangs) fprintf(out, "SCEN %s\nSKIPPED\nDONE\n", id);
        else if(i % stepn == first) {
            fprintf(out, "SCEN %s\n", id); fflush(out);
            if(!shm) { shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if(shm == MAP_FAILED) _exit(99); prctl(PR_SET_CHILD_SUBREAPER, 1); }
            memset((void *) shm, 0, sizeof *shm);
            pid = __real_fork();
            if(pid == 0) {
                int efd = open(errpath, O_WRONLY | O_CREAT | O_TRUNC, 0644); struct rlimit rl;
                if(efd >= 0) { dup2(efd, 2); dup2(efd, 1); __real_close(efd); }
                rl.rlim_cur = rl.rlim_max = (rlim_t) tmo; setrlimit(RLIMIT_CPU, &rl);
                alarm((unsigned) tmo * 3);
                logf_ = out; script_buf = buf + pos; script_len = (size_t) bytes; script_pos = 0; scripted = 1;
                choose_section(); if(script_len - script_pos > 2 && !strncmp(script_buf + script_pos, "I ", 2)) sscanf(next_line() + 2, "%ld %d", &sig_left, &sig_no);
                return;
            }
            while(__real_waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
            fseek(out, 0, SEEK_END);
            if(shm->n) { fputc('\n', out); collect_workers(out, id); }
            if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) hangs++;
            if(WIFSIGNALED(st)) fprintf(out, "\nSIGNAL %d\n", WTERMSIG(st));
            else fprintf(out, "\nEXIT %d\n", WEXITSTATUS(st));
            if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                FILE *ef = fopen(errpath, "rb"); char eb[6000]; size_t en;
                if(ef) { en = fread(eb, 1, sizeof eb, ef); fclose(ef); fprintf(out, "STDERR -1 %zu\n", en); fwrite(eb, 1, en, out); fputc('\n', out); }
            }
            fprintf(out, "DONE\n"); if(shm->n) worker_logs(out, id);
            fflush(out);
        }
        pos += (size_t) bytes; i++;
    }
    fclose(out);
    _exit(0);
}
int main(int argc, char *argv[]) {
    int rc, i;
    if(argc < 7) return 99;
    scen_path = argv[1]; log_path = argv[2]; first = atol(argv[3]); stepn = atol(argv[4]); tmo = atol(argv[5]);
    snprintf(errpath, sizeof errpath, "%s.err", log_path);
    for(i = 0; i < MAXCONN; i++) conn_fd[i] = -2;
    if(getuid() == 0) { if(setgroups(0, NULL) || setgid(65534) || setuid(65534)) { } }
    logf_ = fopen(log_path, "ab");
    if(!logf_) { perror(log_path); return 99; }
    argv[6] = (char *) "viriatum";
    rc = viriatum_main(argc - 6, (const char **) argv + 6);
    if(scripted) { if(shm && shm->n) LW(proc_ ? "leave" : "end", shm->n, rc); L("MAINRET %d\n", rc); L("G %zu %d %d\n", __sanitizer_get_current_allocated_bytes(), real_fds(), conn_vfds()); fflush(logf_); _exit(rc == 0 ? 0 : 95); }
    L("EARLYRET %d\n", rc); fclose(logf_);
    return 90;
}
