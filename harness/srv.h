// Model of sockets, connections, message queues and threads for the server harnesses. Included once per harness.
#pragma once
#define _GNU_SOURCE
#include "env.h"
#include "grengine.h"
#include "server.h"
#include <errno.h>
#include <fcntl.h>
#include <mqueue.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <time.h>
static int cur_thread = -1;                   /* -1 main, otherwise index of the created thread */
// ---------------------------------------------------------------- threads (table)
#ifndef NTHR
#define NTHR 12
#define NCONN 16
#define QCAP 16
#define NMSG 200
#define NQD 40
#endif
#define NQ 4
struct thr { void *(*fn)(void *); void *arg; int ran, done, accepts, conn, got[NQ], put[NQ]; }; static struct thr thr[NTHR]; static int nthr, fail_thread = -1, run_at; enum { RUN_CREATE = 1, RUN_JOIN = 2, RUN_LATER = 3 };
static int thr_now; static char thr_sync[NTHR], thr_end[NTHR];
static void *thr_main(void *a) { (void)a; int i = thr_now; sym_acquire(&thr_sync[i]); thr[i].fn(thr[i].arg); sym_release(&thr_end[i]); return 0; }
static void run_thread(int i) { if (thr[i].ran) return; thr[i].ran = 1; int o = cur_thread; cur_thread = i; thr_now = i; sym_run(thr_main, 0, i < 12 ? i + 1 : 12); thr[i].done = 1; cur_thread = o; }
static int coop;                              /* a thread that finds its queue empty lets the threads that have not run yet run first */
static int nswitch; static int switch_at[2] = {-1, -1};  /* at which scheduling points the threads that have not run yet run */
static void sched(void) { if (cur_thread < 0) return; int me = nswitch++; if (me == switch_at[0] || me == switch_at[1]) for (int i = 0; i < nthr; i++) run_thread(i); }
/* a suspended thread other than the running one may still put something on queue q, so a receive from it would wait: the model does not go on from there */
static int producer_suspended(int q) { for (int s = 0; s < nthr; s++) { if (s == cur_thread || !thr[s].ran || thr[s].done || thr[s].got[q]) continue; int down = 0; for (int k = 0; k < NQ; k++) for (int t = 0; t < nthr; t++) if (thr[s].got[k] && thr[t].got[q] && thr[t].put[k]) down = 1; if (!down) return 1; } return 0; }
static void run_all(void) { for (int i = 0; i < nthr; i++) run_thread(i); }
// ---------------------------------------------------------------- what happened: a connection is taken up, its response is queued, a piece is sent, the queue had no room
enum { EV_TAKE = 1, EV_QUEUE, EV_SEND, EV_END, EV_FULL }; static struct { int what, conn, n, thr; } evs[200]; static int nevs;
static void ev(int what, int conn, size_t n) { if (nevs < 200) { evs[nevs].what = what; evs[nevs].conn = conn; evs[nevs].n = (int)n; evs[nevs++].thr = cur_thread; } }
// ---------------------------------------------------------------- connections
static int conn0 = 20;                         /* the first connection has this descriptor */
#define CONN0 conn0
static int listen_fd = 5, qd0 = 100; /* descriptors of the listening socket and the first queue */
#define LISTEN_FD listen_fd
struct seg { const unsigned char *p; size_t n; };
struct conn { int used, open, closed; struct seg seg[6]; int nseg, cur; size_t off; long end; int block; int recvs, reset; unsigned char *wire; size_t nwire, cap; int sends, after_fail, failed; unsigned char addr[4], port[2]; };
static struct conn conns[NCONN]; static int nconns; static int bad_close, listen_open, listen_closed;
static long (*send_rc)(struct conn *c, size_t n);                    /* how many bytes a send accepts; -1 error; 0 */
static int conn_add(void) { struct conn *c = &conns[nconns]; memset(c, 0, sizeof *c); c->used = c->open = 1; c->addr[0] = 10; c->addr[3] = (unsigned char)(nconns + 1); c->port[0] = 0x90; return nconns++; }
static void conn_seg(int i, const void *p, size_t n) { struct conn *c = &conns[i]; c->seg[c->nseg].p = p; c->seg[c->nseg++].n = n; }
static struct conn *conn_of(int fd) { if (fd < CONN0 || fd >= CONN0 + nconns) return 0; return &conns[fd - CONN0]; }
int moth_close(int fd) {
  struct conn *c = conn_of(fd); if (c) { if (!c->open) { c->closed++; errno = EBADF; return -1; } c->open = 0; c->closed++; ev(EV_END, fd - CONN0, 0); return 0; }
  if (fd == LISTEN_FD) { if (!listen_open) { bad_close++; errno = EBADF; return -1; } listen_open = 0; listen_closed++; return 0; }
  return env_close(fd); }
ssize_t moth_recv(int fd, void *b, size_t n, int fl) { struct conn *c = conn_of(fd); sched(); CHECK(c && c->open, "read from a descriptor that is not an open connection"); if (!c->recvs++) ev(EV_TAKE, fd - CONN0, 0); if (cur_thread >= 0) thr[cur_thread].conn = fd - CONN0 + 1;
  CHECK(!n || sym_valid(b, n), "recv is offered memory outside the buffer");
  while (c->cur < c->nseg && c->off == c->seg[c->cur].n && c->seg[c->cur].n) { c->cur++; c->off = 0; }
  if (c->cur >= c->nseg) { if (fl & MSG_DONTWAIT && c->block) { errno = EAGAIN; return -1; } CHECK(c->block != 2, "the server waits for bytes that the client does not owe"); if (c->block) sym_stop(); if (c->end < 0) errno = ECONNRESET; return c->end; }
  size_t t = 0; do { struct seg *s = &c->seg[c->cur]; size_t k = s->n - c->off; if (k > n - t) k = n - t; memcpy((char *)b + t, s->p + c->off, k); t += k; c->off += k; if (c->off == s->n) { c->cur++; c->off = 0; } } while (fl & MSG_WAITALL && t < n && c->cur < c->nseg);
  if (fl & MSG_WAITALL && t < n && c->block) { CHECK(c->block != 2, "the server waits for bytes that the client does not owe"); sym_stop(); } sym_touch(b, t, 1); return (ssize_t)t; }
#include <poll.h>
int moth_poll(struct pollfd *p, nfds_t n, int t) { int k = 0; (void)t; for (nfds_t i = 0; i < n; i++) { struct conn *c = conn_of(p[i].fd); p[i].revents = 0; if (!c) continue; int more = !c->block; for (int j = c->cur; j < c->nseg; j++) more |= c->seg[j].n > (j == c->cur ? c->off : 0); if (more) p[i].revents |= p[i].events & POLLIN; p[i].revents |= p[i].events & POLLOUT; k += p[i].revents != 0; } return k; }
ssize_t moth_read(int fd, void *b, size_t n) { if (conn_of(fd)) return moth_recv(fd, b, n, 0); return env_read(fd, b, n); }
ssize_t moth_send(int fd, const void *b, size_t n, int fl) { struct conn *c = conn_of(fd); sched(); CHECK(c && c->open, "write to a descriptor that is not an open connection"); CHECK(!c->failed, "nothing is sent after a failed send"); c->sends++; ev(EV_SEND, fd - CONN0, n); if (cur_thread >= 0) thr[cur_thread].conn = fd - CONN0 + 1;
  CHECK(!n || sym_valid(b, n), "send is offered bytes outside the response"); CHECK(!n || sym_init(b, n), "uninitialised bytes are sent");
  sym_touch(b, n, 0); long k = send_rc ? send_rc(c, n) : (long)n; if (k < 0) { c->failed = 1; CHECK((fl & MSG_NOSIGNAL) || env_sigpipe_off, "sending to a client that has gone away ends the process (SIGPIPE)"); errno = EPIPE; return -1; } if (k == 0) { c->failed = 1; return 0; }
  if (c->wire && c->nwire + (size_t)k <= c->cap) memcpy(c->wire + c->nwire, b, (size_t)k); c->nwire += (size_t)k; return k; }
ssize_t moth_write(int fd, const void *b, size_t n) { if (conn_of(fd)) return moth_send(fd, b, n, 0); return (ssize_t)n; }
// ---------------------------------------------------------------- listening
static int fail_socket, fail_bind, fail_listen; static int script_conns; static int accepted; static int (*accept_fault)(void); /* errno of a failing accept or 0 */
int moth_socket(int d, int t, int p) { (void)d; (void)t; (void)p; if (fail_socket) { errno = EMFILE; return -1; } listen_open = 1; return LISTEN_FD; }
int moth_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
int moth_bind(int fd, const struct sockaddr *a, socklen_t n) { (void)a; (void)n; CHECK(fd == LISTEN_FD && listen_open, "bind of the listening socket"); if (fail_bind) { errno = EADDRINUSE; return -1; } return 0; }
int moth_listen(int fd, int n) { (void)n; CHECK(fd == LISTEN_FD && listen_open, "listen on the listening socket"); if (fail_listen) { errno = EADDRINUSE; return -1; } return 0; }
static int peer(struct conn *c, struct sockaddr *a, socklen_t *n) { if (!a || !n) return 0; struct sockaddr_in v; memset(&v, 0, sizeof v); v.sin_family = AF_INET; memcpy(&v.sin_addr, c->addr, 4); memcpy(&v.sin_port, c->port, 2); memcpy(a, &v, *n < sizeof v ? *n : sizeof v); *n = sizeof v; return 0; }
int moth_getpeername(int fd, struct sockaddr *a, socklen_t *n) { struct conn *c = conn_of(fd); if (!c || !c->open) { errno = ENOTCONN; return -1; } return peer(c, a, n); }
int moth_accept(int fd, struct sockaddr *a, socklen_t *n) { if (cur_thread >= 0) thr[cur_thread].accepts++; if (fd != LISTEN_FD || !listen_open) { errno = EBADF; return -1; } { int e = accept_fault ? accept_fault() : 0; if (e) { errno = e; return -1; } } if (accepted >= script_conns) { errno = EINVAL; return -1; } if (accepted < nconns) peer(&conns[accepted], a, n); return CONN0 + accepted++; }
int moth_accept4(int fd, struct sockaddr *a, socklen_t *n, int f) { (void)f; return moth_accept(fd, a, n); }
// ---------------------------------------------------------------- message queues
struct queue { int exists; char name[40]; long maxmsg, msgsize; int n; struct { char b[16]; size_t len; unsigned prio; int id; } m[QCAP]; int lost; };
static struct queue qs[NQ]; struct qdesc { int open, q, flags, nonblock; }; static struct qdesc qd[NQD]; static int nqd; static int q_opens, q_creates, q_unlinks, fail_mq_open = -1;
static int (*send_fault)(int q);            /* 1: this send fails with EBADF or the like */
static int roomy;                            /* the threads that drain the queues keep up: they always have room */
static int (*full_now)(int q);              /* 1: the queue is full at this moment; somebody waiting gets room later unless it is the thread that drains it */
static int stale_open;                       /* queues created while a stale one of that name existed */
static int msg_n; static char msg_sync[NMSG];
static struct queue *q_by_name(const char *s, int make) { for (int i = 0; i < NQ; i++) if (qs[i].name[0] && strcmp(qs[i].name, s) == 0) return &qs[i]; if (!make) return 0; for (int i = 0; i < NQ; i++) if (!qs[i].name[0]) { strncpy(qs[i].name, s, 39); return &qs[i]; } return 0; }
mqd_t moth_mq_open(const char *name, int fl, ...) { q_opens++; if (fail_mq_open >= 0 && fail_mq_open-- == 0) { fail_mq_open = -1; errno = EMFILE; return -1; }
  struct queue *q = q_by_name(name, (fl & O_CREAT) != 0); if (!q || (!q->exists && !(fl & O_CREAT))) { errno = ENOENT; return -1; } if (q->exists && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if (!q->exists) { va_list ap; va_start(ap, fl); (void)va_arg(ap, int); struct mq_attr *at = va_arg(ap, struct mq_attr *); va_end(ap); q->exists = 1; q->n = 0; q->maxmsg = at ? at->mq_maxmsg : 10; q->msgsize = at ? at->mq_msgsize : 8192; q_creates++; }
  int d = nqd++; CHECK(d < NQD, "more queue descriptors than the model has"); qd[d].open = 1; qd[d].q = (int)(q - qs); qd[d].flags = fl & 3; qd[d].nonblock = (fl & O_NONBLOCK) != 0; return qd0 + d; }
static struct qdesc *dd(mqd_t d) { int i = (int)d - qd0; return i >= 0 && i < nqd && qd[i].open ? &qd[i] : 0; }
int moth_mq_close(mqd_t d) { struct qdesc *x = dd(d); if (!x) { errno = EBADF; return -1; } x->open = 0; return 0; }
int moth_mq_unlink(const char *name) { q_unlinks++; struct queue *q = q_by_name(name, 0); if (!q || !q->exists) { errno = ENOENT; return -1; } q->exists = 0; q->n = 0; return 0; }
static int full_moment(int q) { return full_now && full_now(q); }
int moth_mq_getattr(mqd_t d, struct mq_attr *a) { struct qdesc *x = dd(d); if (!x) { errno = EBADF; return -1; } memset(a, 0, sizeof *a); a->mq_flags = x->nonblock ? O_NONBLOCK : 0; a->mq_maxmsg = qs[x->q].maxmsg; a->mq_msgsize = qs[x->q].msgsize; a->mq_curmsgs = full_moment(x->q) ? qs[x->q].maxmsg : qs[x->q].n; if (roomy && a->mq_curmsgs >= a->mq_maxmsg) a->mq_curmsgs = a->mq_maxmsg - 1; return 0; }
int moth_mq_setattr(mqd_t d, const struct mq_attr *a, struct mq_attr *o) { struct qdesc *x = dd(d); if (!x) { errno = EBADF; return -1; } if (o) moth_mq_getattr(d, o); x->nonblock = (a->mq_flags & O_NONBLOCK) != 0; return 0; }
static int q_put(mqd_t d, const char *p, size_t n, unsigned prio, int wait) { sched(); struct qdesc *x = dd(d); if (!x || (x->flags & 3) == O_RDONLY) { errno = EBADF; return -1; } struct queue *q = &qs[x->q]; if ((long)n > q->msgsize) { errno = EMSGSIZE; return -1; }
  CHECK(n <= 16, "messages larger than the model has"); CHECK(sym_init(p, n), "uninitialised message"); if (send_fault && send_fault(x->q)) { errno = EINTR; return -1; }
  if (cur_thread >= 0) thr[cur_thread].put[x->q]++;
  if (full_now && full_now(x->q)) { if (wait == 1 && !x->nonblock) { CHECK(cur_thread < 0 || !thr[cur_thread].got[x->q], "the sending side waits for room in the queue that only it drains"); } else { errno = wait == 2 ? ETIMEDOUT : EAGAIN; ev(EV_FULL, -1, 0); return -1; } }
  if ((q->n >= q->maxmsg && !roomy) || q->n >= QCAP) { errno = wait == 2 ? ETIMEDOUT : EAGAIN; if (wait && !x->nonblock) sym_stop(); ev(EV_FULL, -1, 0); return -1; }
  int i = q->n; while (i > 0 && q->m[i - 1].prio < prio) { q->m[i] = q->m[i - 1]; i--; } memcpy(q->m[i].b, p, n); sym_touch(p, n, 0); q->m[i].id = msg_n++ % NMSG; sym_release(&msg_sync[q->m[i].id]); q->m[i].len = n; q->m[i].prio = prio; q->n++; if (cur_thread >= 0 && !thr[cur_thread].accepts && thr[cur_thread].conn) ev(EV_QUEUE, thr[cur_thread].conn - 1, 0); return 0; }
int moth_mq_send(mqd_t d, const char *p, size_t n, unsigned prio) { return q_put(d, p, n, prio, 1); }
int moth_mq_timedsend(mqd_t d, const char *p, size_t n, unsigned prio, const struct timespec *ts) { return q_put(d, p, n, prio, ts->tv_sec < 1700000000 || (ts->tv_sec == 1700000000 && ts->tv_nsec == 0) ? 0 : 2); }
static int (*recv_fault)(int q); /* this wait is interrupted by a signal */ static int fair; /* a thread that comes back for more lets the threads that have not run yet take their share */
ssize_t moth_mq_receive(mqd_t d, char *p, size_t n, unsigned *prio) { sched(); struct qdesc *x = dd(d); if (!x || (x->flags & 3) == O_WRONLY) { errno = EBADF; return -1; } struct queue *q = &qs[x->q]; if ((long)n < q->msgsize) { errno = EMSGSIZE; return -1; }
  if (cur_thread >= 0) thr[cur_thread].got[x->q]++; if (recv_fault && recv_fault(x->q)) { errno = EINTR; return -1; }
  if (q->n == 0 && x->nonblock) { errno = EAGAIN; return -1; }
  for (int i = 0; fair && cur_thread >= 0 && thr[cur_thread].got[x->q] > 1 && i < nthr; i++) run_thread(i);
  for (int i = 0; coop && q->n == 0 && i < nthr; i++) run_thread(i);
  if (q->n == 0 && switch_at[0] >= 0 && producer_suspended(x->q)) sym_stop();
  if (q->n == 0) { errno = EBADF; return -1; } /* the end of the script: the queue is taken away */ if (prio) *prio = q->m[0].prio; size_t l = q->m[0].len; memcpy(p, q->m[0].b, l); sym_touch(p, l, 1); sym_acquire(&msg_sync[q->m[0].id]); q->n--; for (int i = 0; i < q->n; i++) q->m[i] = q->m[i + 1]; return (ssize_t)l; }
ssize_t moth_mq_timedreceive(mqd_t d, char *p, size_t n, unsigned *prio, const struct timespec *ts) { (void)ts; return moth_mq_receive(d, p, n, prio); }
// ---------------------------------------------------------------- threads
static void (*join_hook)(void);
int moth_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { (void)a; if (fail_thread >= 0 && fail_thread-- == 0) return EAGAIN; CHECK(nthr < NTHR, "more threads than the model has"); thr[nthr].fn = fn; thr[nthr].arg = arg; thr[nthr].ran = thr[nthr].done = thr[nthr].accepts = 0; *t = (pthread_t)(unsigned long)(1000 + nthr); int me = nthr++; sym_release(&thr_sync[me]); if (run_at == RUN_CREATE) run_thread(me); return 0; }
static void run_rev(void) { for (int i = nthr - 1; i >= 0; i--) run_thread(i); } /* no thread took its first step before the join, the last one is the first to run */
int moth_pthread_join(pthread_t t, void **r) { int i = (int)((unsigned long)t - 1000); CHECK(i >= 0 && i < nthr, "join of a thread that was started"); if (join_hook) { void (*h)(void) = join_hook; join_hook = 0; h(); } if (run_at == RUN_LATER) run_rev(); if (run_at == RUN_JOIN) run_thread(i); sym_acquire(&thr_end[i]); if (r) *r = 0; return 0; }
int moth_pthread_detach(pthread_t t) { (void)t; return 0; }
static int serve(m38_app *app) { return m38_http_serve(app); }
/* start the server, let every thread run until it has nothing to do, let it end */
static int e2e(m38_app *app) { coop = 1; join_hook = run_all; int rc = m38_http_serve(app); run_all(); return rc; }
